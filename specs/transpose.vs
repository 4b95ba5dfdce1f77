%%% file trellis/src/graph.rs
%%% item Graph::transpose/PLACEHOLDER
%%% text
/// number of occurrences of v among the first n elements
spec fn cnt(s: Seq<u32>, n: int, v: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { cnt(s, n - 1, v) + (if s[n - 1] == v { 1int } else { 0int }) }
}
/// occurrences (among the first m) of the vertices below i
spec fn pre(s: Seq<u32>, m: int, i: int) -> int
    decreases i,
{
    if i <= 0 { 0 } else { pre(s, m, i - 1) + cnt(s, m, i - 1) }
}
spec fn rep(n: int, x: u32) -> Seq<u32> { Seq::new(n as nat, |i: int| x) }
/// the sources below u of the edges to v, once per edge, in ascending order
spec fn preds(g: &Graph, u: int, v: int) -> Seq<u32>
    decreases u,
{
    if u <= 0 { Seq::empty() } else { preds(g, u - 1, v) + rep(cnt(g.edges.ents()[u - 1], g.edges.ents()[u - 1].len() as int, v), (u - 1) as u32) }
}
/// ... and u itself once per edge to v among its first k edges
spec fn preds_part(g: &Graph, u: int, k: int, v: int) -> Seq<u32> { preds(g, u, v) + rep(cnt(g.edges.ents()[u], k, v), u as u32) }

spec fn in_range(s: Seq<u32>, nv: int) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < nv }

proof fn lemma_cnt_bounds(s: Seq<u32>, n: int, m: int, v: int)
    requires n <= m,
    ensures 0 <= cnt(s, n, v) <= cnt(s, m, v), n >= 0 ==> cnt(s, n, v) <= n,
    decreases m,
{
    if m > 0 {
        if n < m { lemma_cnt_bounds(s, n, m - 1, v); } else { lemma_cnt_bounds(s, n - 1, m - 1, v); }
    }
}
proof fn lemma_cnt_ext(s: Seq<u32>, t: Seq<u32>, n: int, v: int)
    requires n <= s.len(), n <= t.len(), forall|j: int| 0 <= j < n ==> s[j] == t[j],
    ensures cnt(s, n, v) == cnt(t, n, v),
    decreases n,
{
    if n > 0 { lemma_cnt_ext(s, t, n - 1, v); }
}
proof fn lemma_cnt_add(s: Seq<u32>, t: Seq<u32>, n: int, v: int)
    requires 0 <= n <= t.len(),
    ensures cnt(s + t, s.len() + n, v) == cnt(s, s.len() as int, v) + cnt(t, n, v),
    decreases n,
{
    if n > 0 { lemma_cnt_add(s, t, n - 1, v); }
    else { lemma_cnt_ext(s + t, s, s.len() as int, v); }
}
/// occurrences in a sub-range
proof fn lemma_cnt_sub(s: Seq<u32>, a: int, b: int, n: int, v: int)
    requires 0 <= a <= b <= s.len(), 0 <= n <= b - a,
    ensures cnt(s, a + n, v) == cnt(s, a, v) + cnt(s.subrange(a, b), n, v),
    decreases n,
{
    if n > 0 { lemma_cnt_sub(s, a, b, n - 1, v); }
}
proof fn lemma_rep_cnt(n: int, x: u32, m: int, v: int)
    requires 0 <= m <= n,
    ensures cnt(rep(n, x), m, v) == (if x == v { m } else { 0 }),
    decreases m,
{
    if m > 0 { lemma_rep_cnt(n, x, m - 1, v); }
}
/// pre counts the elements below i, so it is monotone and at most m
proof fn lemma_pre(s: Seq<u32>, m: int, i: int, nv: int)
    requires 0 <= m <= s.len(), 0 <= i <= nv, in_range(s, nv),
    ensures 0 <= pre(s, m, i) <= m, i == nv ==> pre(s, m, i) == m,
    decreases m,
{
    lemma_pre_step(s, m, i, nv);
    if m > 0 {
        lemma_pre(s, m - 1, i, nv);
        assert(s[m - 1] < nv);
    }
}
proof fn lemma_pre_step(s: Seq<u32>, m: int, i: int, nv: int)
    requires 0 <= m <= s.len(), 0 <= i <= nv, in_range(s, nv),
    ensures
        m > 0 ==> pre(s, m, i) == pre(s, m - 1, i) + (if s[m - 1] < i { 1int } else { 0int }),
        m == 0 ==> pre(s, m, i) == 0,
    decreases i,
{
    if i > 0 { lemma_pre_step(s, m, i - 1, nv); }
}
proof fn lemma_pre_mono(s: Seq<u32>, m: int, i: int, j: int)
    requires 0 <= m, i <= j,
    ensures pre(s, m, i) <= pre(s, m, j),
    decreases j,
{
    if j > 0 && i < j {
        lemma_pre_mono(s, m, i, j - 1);
        lemma_cnt_bounds(s, 0, m, j - 1);
    }
}
/// how many edges to v precede the k-th edge of u
proof fn lemma_preds_len(g: &Graph, u: int, k: int, v: int)
    requires
        g.wf(),
        0 <= u <= g.nv(),
        u == g.nv() ==> k == 0,
        0 <= k,
        u < g.nv() ==> k <= g.edges.ents()[u].len(),
    ensures
        preds(g, u, v).len() == cnt(g.edges.values@, g.edges.index@[u] as int, v),
        preds_part(g, u, k, v).len() == cnt(g.edges.values@, g.edges.index@[u] + k, v),
    decreases u,
{
    if u > 0 {
        let n = g.edges.ents()[u - 1].len() as int;
        lemma_preds_len(g, u - 1, n, v);
        lemma_cnt_bounds(g.edges.ents()[u - 1], 0, n, v);
    }
    if u < g.nv() {
        lemma_cnt_bounds(g.edges.ents()[u], 0, k, v);
        lemma_cnt_sub(g.edges.values@, g.edges.index@[u] as int, g.edges.index@[u + 1] as int, k, v);
        assert(g.edges.ents()[u] == g.edges.values@.subrange(g.edges.index@[u] as int, g.edges.index@[u + 1] as int));
    } else {
        assert(cnt(g.edges.ents()[u], 0, v) == 0);
    }
}
/// where the list of v lies in the transposed table
spec fn row(g: &Graph, tv: Seq<u32>, v: int) -> Seq<u32> {
    let vals = g.edges.values@;
    let m = vals.len() as int;
    tv.subrange(pre(vals, m, v), pre(vals, m, v + 1))
}
/// the first edges, up to the k-th of u, are placed
spec fn row_at(g: &Graph, u: int, k: int, v: int) -> Seq<u32> {
    let vals = g.edges.values@;
    let m = vals.len() as int;
    preds_part(g, u, k, v) + rep(cnt(vals, m, v) - preds_part(g, u, k, v).len(), u32::MAX)
}
spec fn rows_at(g: &Graph, tv: Seq<u32>, u: int, k: int) -> bool {
    &&& tv.len() == g.edges.values@.len()
    &&& forall|v: int| 0 <= v < g.nv() ==> #[trigger] row(g, tv, v) =~= row_at(g, u, k, v)
}
spec fn tgraph_ok(g: &Graph) -> bool {
    g.wf() && g.targets_ok() && g.edges.unowned() =~= Seq::<u32>::empty()
}
proof fn lemma_vals_range(g: &Graph)
    requires tgraph_ok(g),
    ensures
        in_range(g.edges.values@, g.nv()),
        g.edges.index@.last() == g.edges.values@.len(),
        g.edges.values@.len() <= u32::MAX,
{
    let vals = g.edges.values@;
    assert(g.edges.index@.last() == vals.len()) by {
        assert(g.edges.unowned().len() == 0);
    }
    assert forall|j: int| 0 <= j < vals.len() implies #[trigger] vals[j] < g.nv() by {
        lemma_owner(g.edges.index@, j, g.nv());
        let k = choose|k: int| 0 <= k < g.nv() && #[trigger] g.edges.index@[k] <= j < g.edges.index@[k + 1];
        assert(g.edges.ents()[k][j - g.edges.index@[k]] == vals[j]);
    }
}
proof fn lemma_owner(index: Seq<u32>, j: int, n: int)
    requires index.len() >= n + 1, n >= 0, index[0] == 0, 0 <= j < index[n],
    ensures exists|k: int| 0 <= k < n && #[trigger] index[k] <= j < index[k + 1],
    decreases n,
{
    if n > 0 {
        if index[n - 1] <= j { assert(index[n - 1] <= j < index[n - 1 + 1]); } else { lemma_owner(index, j, n - 1); }
    }
}
/// before the edge number k of u is placed: where it goes, and that the place is free
proof fn lemma_slot(g: &Graph, tv: Seq<u32>, u: int, k: int, to: int)
    requires
        tgraph_ok(g), 0 <= u < g.nv(), 0 <= k < g.edges.ents()[u].len(), rows_at(g, tv, u, k), to == g.edges.ents()[u][k],
    ensures ({
        let vals = g.edges.values@;
        let m = vals.len() as int;
        let c = preds_part(g, u, k, to).len();
        let at = pre(vals, m, to) + c;
        &&& c < cnt(vals, m, to)
        &&& 0 <= at < m
        &&& 0 <= at < tv.len()
        &&& tv[at] == u32::MAX
        &&& rows_at(g, tv.update(at, u as u32), u, k + 1)
        &&& c + 1 == preds_part(g, u, k + 1, to).len()
        &&& forall|w: int| w != to ==> #[trigger] preds_part(g, u, k + 1, w) == preds_part(g, u, k, w)
    }),
{
    let vals = g.edges.values@;
    let m = vals.len() as int;
    let ent = g.edges.ents()[u];
    lemma_vals_range(g);
    assert(to < g.nv());
    let p = g.edges.index@[u] + k;
    lemma_preds_len(g, u, k, to);
    lemma_preds_len(g, u, k + 1, to);
    assert(vals[p] == to);
    lemma_cnt_bounds(vals, p + 1, m, to);
    lemma_cnt_bounds(ent, 0, k, to);
    let c = preds_part(g, u, k, to).len() as int;
    assert(c == cnt(vals, p, to));
    assert(cnt(vals, p + 1, to) == c + 1);
    let a = pre(vals, m, to);
    let at = a + c;
    lemma_pre(vals, m, to, g.nv());
    lemma_pre(vals, m, to + 1, g.nv());
    assert(pre(vals, m, to + 1) == a + cnt(vals, m, to));
    assert(row(g, tv, to)[c] == tv[at]);
    assert(row(g, tv, to) =~= row_at(g, u, k, to));
    assert(row_at(g, u, k, to)[c] == u32::MAX);
    let t2 = tv.update(at, u as u32);
    assert forall|w: int| w != to implies #[trigger] preds_part(g, u, k + 1, w) == preds_part(g, u, k, w) by {
        assert(cnt(ent, k + 1, w) == cnt(ent, k, w));
    }
    assert(preds_part(g, u, k + 1, to) =~= preds_part(g, u, k, to).push(u as u32)) by {
        assert(cnt(ent, k + 1, to) == cnt(ent, k, to) + 1);
        assert(rep(cnt(ent, k + 1, to), u as u32) =~= rep(cnt(ent, k, to), u as u32).push(u as u32));
    }
    assert forall|w: int| 0 <= w < g.nv() implies #[trigger] row(g, t2, w) =~= row_at(g, u, k + 1, w) by {
        lemma_pre(vals, m, w, g.nv());
        lemma_pre(vals, m, w + 1, g.nv());
        assert(row(g, tv, w) =~= row_at(g, u, k, w));
        lemma_cnt_bounds(vals, 0, m, w);
        lemma_cnt_bounds(vals, 0, m, to);
        if w == to {
            assert(row(g, t2, w) =~= row(g, tv, w).update(c, u as u32));
        } else {
            if w < to { lemma_pre_mono(vals, m, w + 1, to); } else { lemma_pre_mono(vals, m, to + 1, w); }
            assert(row(g, t2, w) =~= row(g, tv, w));
        }
    }
}
proof fn lemma_next_vertex(g: &Graph, u: int, v: int)
    requires tgraph_ok(g), 0 <= u < g.nv(),
    ensures preds_part(g, u + 1, 0, v) == preds_part(g, u, g.edges.ents()[u].len() as int, v), preds_part(g, u + 1, 0, v) == preds(g, u + 1, v),
{
    assert(preds_part(g, u + 1, 0, v) =~= preds(g, u + 1, v));
}
/// what the list of predecessors means
proof fn lemma_preds_meaning(g: &Graph, u: int, v: int)
    requires 0 <= u <= g.nv(), g.wf(),
    ensures
        forall|w: int| 0 <= w < u ==> #[trigger] cnt(preds(g, u, v), preds(g, u, v).len() as int, w) == cnt(g.edges.ents()[w], g.edges.ents()[w].len() as int, v),
        forall|j: int| 0 <= j < preds(g, u, v).len() ==> (#[trigger] preds(g, u, v)[j]) < u,
        forall|i: int, j: int| 0 <= i <= j < preds(g, u, v).len() ==> (#[trigger] preds(g, u, v)[i]) <= (#[trigger] preds(g, u, v)[j]),
    decreases u,
{
    if u > 0 {
        lemma_preds_meaning(g, u - 1, v);
        let n = g.edges.ents()[u - 1].len() as int;
        let c = cnt(g.edges.ents()[u - 1], n, v);
        lemma_cnt_bounds(g.edges.ents()[u - 1], 0, n, v);
        let a = preds(g, u - 1, v);
        let b = rep(c, (u - 1) as u32);
        assert(preds(g, u, v) == a + b);
        assert forall|w: int| 0 <= w < u implies #[trigger] cnt(preds(g, u, v), preds(g, u, v).len() as int, w) == cnt(g.edges.ents()[w], g.edges.ents()[w].len() as int, v) by {
            lemma_cnt_add(a, b, c, w);
            lemma_rep_cnt(c, (u - 1) as u32, c, w);
            if w == u - 1 {
                lemma_cnt_none(a, a.len() as int, w);
            } else {
                assert(cnt(a, a.len() as int, w) == cnt(g.edges.ents()[w], g.edges.ents()[w].len() as int, v));
            }
        }
    }
}
proof fn lemma_cnt_none(s: Seq<u32>, n: int, w: int)
    requires n <= s.len(), forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < w,
    ensures cnt(s, n, w) == 0,
    decreases n,
{
    if n > 0 { lemma_cnt_none(s, n - 1, w); }
}
/// t is the transposition of g
spec fn is_transposed(t: &Graph, g: &Graph) -> bool {
    &&& t.wf()
    &&& t.nv() == g.nv()
    &&& t.edges.unowned() =~= Seq::<u32>::empty()
    &&& t.targets_ok()
    &&& forall|u: int, v: int| 0 <= u < g.nv() && 0 <= v < g.nv() ==>
        #[trigger] cnt(t.edges.ents()[v], t.edges.ents()[v].len() as int, u) == #[trigger] cnt(g.edges.ents()[u], g.edges.ents()[u].len() as int, v)
    &&& forall|v: int, i: int, j: int| 0 <= v < g.nv() && 0 <= i <= j < t.edges.ents()[v].len() ==> (#[trigger] t.edges.ents()[v][i]) <= (#[trigger] t.edges.ents()[v][j])
}
proof fn lemma_transposed(g: &Graph, t: &Graph)
    requires
        tgraph_ok(g),
        t.edges.index@.len() == g.nv() + 1,
        forall|v: int| 0 <= v <= g.nv() ==> #[trigger] t.edges.index@[v] == pre(g.edges.values@, g.edges.values@.len() as int, v),
        rows_at(g, t.edges.values@, g.nv(), 0),
    ensures is_transposed(t, g),
{
    let vals = g.edges.values@;
    let m = vals.len() as int;
    lemma_vals_range(g);
    assert forall|i: int, j: int| 0 <= i <= j < t.edges.index@.len() implies t.edges.index@[i] <= t.edges.index@[j] by {
        lemma_pre_mono(vals, m, i, j);
    }
    assert forall|i: int| 0 <= i < t.edges.index@.len() implies #[trigger] t.edges.index@[i] <= t.edges.values@.len() by {
        lemma_pre(vals, m, i, g.nv());
    }
    lemma_pre(vals, m, g.nv(), g.nv());
    assert forall|v: int| 0 <= v < g.nv() implies #[trigger] t.edges.ents()[v] == preds(g, g.nv(), v) by {
        assert(row(g, t.edges.values@, v) =~= row_at(g, g.nv(), 0, v));
        lemma_preds_len(g, g.nv(), 0, v);
        assert(g.edges.index@[g.nv()] == m);
        assert(preds_part(g, g.nv(), 0, v) =~= preds(g, g.nv(), v));
        assert(row_at(g, g.nv(), 0, v) =~= preds(g, g.nv(), v));
        assert(t.edges.ents()[v] == t.edges.ent(v));
        assert(t.edges.ent(v) =~= row(g, t.edges.values@, v));
    }
    assert forall|u: int, v: int| 0 <= u < g.nv() && 0 <= v < g.nv() implies
        #[trigger] cnt(t.edges.ents()[v], t.edges.ents()[v].len() as int, u) == #[trigger] cnt(g.edges.ents()[u], g.edges.ents()[u].len() as int, v) by {
        lemma_preds_meaning(g, g.nv(), v);
        assert(t.edges.ents()[v] == preds(g, g.nv(), v));
        assert(cnt(preds(g, g.nv(), v), preds(g, g.nv(), v).len() as int, u) == cnt(g.edges.ents()[u], g.edges.ents()[u].len() as int, v));
    }
    assert forall|v: int, i: int, j: int| 0 <= v < g.nv() && 0 <= i <= j < t.edges.ents()[v].len() implies (#[trigger] t.edges.ents()[v][i]) <= (#[trigger] t.edges.ents()[v][j]) by {
        lemma_preds_meaning(g, g.nv(), v);
        assert(t.edges.ents()[v] == preds(g, g.nv(), v));
    }
    assert forall|v: int, j: int| 0 <= v < t.nv() && 0 <= j < t.edges.ents()[v].len() implies (#[trigger] t.edges.ents()[v][j]) < t.nv() by {
        lemma_preds_meaning(g, g.nv(), v);
        assert(t.edges.ents()[v] == preds(g, g.nv(), v));
    }
}

%%% fn Graph::transpose
%% contract
    requires tgraph_ok(self),
    ensures is_transposed(&r, self),
%% at body.start
    let ghost vals = self.edges.values@;
    let ghost m = vals.len() as int;
    proof { lemma_vals_range(self); assert(!0u32 == 0xffff_ffffu32) by (bit_vector); }
%% loop 0
    invariant
        t_index@.len() == nv + 1,
        t_index@[0] == 0,
        forall|v: int| 0 <= v < nv ==> #[trigger] t_index@[v + 1] == cnt(vals, vk0, v),
%% at loop0.start
    proof {
        assert(vals[vk0 - 1] == to);
        assert forall|v: int| 0 <= v < nv implies cnt(vals, vk0, v) <= vk0 by { lemma_cnt_bounds(vals, vk0, vk0, v); }
        lemma_cnt_bounds(vals, vk0 - 1, vk0, to as int);
    }
%% loop 1
    invariant
        t_index@.len() == nv + 1,
        t_index@[0] == 0,
        forall|i: int| vk1 <= i < t_index@.len() && i > 0 ==> #[trigger] t_index@[i] == cnt(vals, m, i - 1),
        forall|i: int| 0 <= i < vk1 ==> #[trigger] t_index@[i] == pre(vals, m, i),
        sum == (if vk1 == 0 { 0int } else { pre(vals, m, vk1 - 1) }),
%% at loop1.before
    proof { assert forall|i: int| 0 < i < t_index@.len() implies #[trigger] t_index@[i] == cnt(vals, m, i - 1) by { assert(t_index@[(i - 1) + 1] == cnt(vals, m, i - 1)); } }
%% at loop1.start
    proof { lemma_pre(vals, m, vk1 - 1, nv as int); }
%% loop 2
    invariant
        t_index@.len() == nv + 1,
        forall|i: int| 0 <= i <= nv ==> #[trigger] t_index@[i] == pre(vals, m, i),
        counts@.len() == nv,
        forall|v: int| 0 <= v < nv ==> #[trigger] counts@[v] == preds_part(self, vk2, 0, v).len(),
        rows_at(self, t_values@, vk2, 0),
%% at loop2.before
    proof {
        assert forall|v: int| 0 <= v < nv implies #[trigger] row(self, t_values@, v) =~= row_at(self, 0, 0, v) by {
            lemma_pre(vals, m, v, nv as int);
            lemma_pre(vals, m, v + 1, nv as int);
            lemma_cnt_bounds(vals, 0, m, v);
            assert(preds_part(self, 0, 0, v) =~= Seq::<u32>::empty());
            assert(row_at(self, 0, 0, v) =~= rep(cnt(vals, m, v), u32::MAX));
        }
    }
%% loop 3
    invariant
        counts@.len() == nv,
        vs3.len() == self.edges.ents()[vk2 - 1].len(),
        forall|v: int| 0 <= v < nv ==> #[trigger] counts@[v] == preds_part(self, vk2 - 1, vk3, v).len(),
        rows_at(self, t_values@, vk2 - 1, vk3),
%% at loop3.start
    proof {
        assert(to == self.edges.ents()[vk2 - 1][vk3 - 1]);
        lemma_slot(self, t_values@, vk2 - 1, vk3 - 1, to as int);
    }
%% at loop3.after
    proof {
        assert forall|v: int| 0 <= v < nv implies #[trigger] counts@[v] == preds_part(self, vk2, 0, v).len() && row(self, t_values@, v) =~= row_at(self, vk2, 0, v) by {
            lemma_next_vertex(self, vk2 - 1, v);
            assert(row(self, t_values@, v) =~= row_at(self, vk2 - 1, vk3, v));
        }
        assert forall|v: int| 0 <= v < nv implies #[trigger] row(self, t_values@, v) =~= row_at(self, vk2, 0, v) by {
            lemma_next_vertex(self, vk2 - 1, v);
            assert(row(self, t_values@, v) =~= row_at(self, vk2 - 1, vk3, v));
        }
    }
%% at body.result
    proof { lemma_transposed(self, &res); }
