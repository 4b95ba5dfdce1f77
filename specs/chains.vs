%%% file trellis/src/find_chains.rs
%%% item VKIND_NONE
%%% item VKIND_ONE
%%% item VKIND_MANY
%%% text
spec fn ent(g: &Graph, v: int) -> Seq<u32> { g.edges.ents()[v] }
/// number of edges leaving / entering v among the first n, and whether one of them is a self-loop
spec fn outd(es: Seq<(u32, u32)>, n: int, v: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { outd(es, n - 1, v) + (if es[n - 1].0 == v { 1int } else { 0 }) }
}
spec fn ind(es: Seq<(u32, u32)>, n: int, v: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { ind(es, n - 1, v) + (if es[n - 1].1 == v { 1int } else { 0 }) }
}
spec fn selfl(es: Seq<(u32, u32)>, n: int, v: int) -> bool
    decreases n,
{
    if n <= 0 { false } else { selfl(es, n - 1, v) || (es[n - 1].0 == v && es[n - 1].1 == v) }
}
/// v is passed through: exactly one edge enters and one leaves it
spec fn pt(es: Seq<(u32, u32)>, v: int) -> bool {
    outd(es, es.len() as int, v) == 1 && ind(es, es.len() as int, v) == 1 && !selfl(es, es.len() as int, v)
}
proof fn lemma_deg_nonneg(es: Seq<(u32, u32)>, n: int, v: int)
    ensures 0 <= outd(es, n, v), 0 <= ind(es, n, v),
    decreases n,
{
    if n > 0 { lemma_deg_nonneg(es, n - 1, v); }
}
proof fn lemma_ind_some(es: Seq<(u32, u32)>, n: int, v: int, a: int)
    requires 0 <= a < n, es[a].1 == v,
    ensures ind(es, n, v) >= 1,
    decreases n,
{
    lemma_deg_nonneg(es, n - 1, v);
    if a < n - 1 { lemma_ind_some(es, n - 1, v, a); }
}
proof fn lemma_ind_one(es: Seq<(u32, u32)>, n: int, v: int, a: int, b: int)
    requires ind(es, n, v) <= 1, 0 <= a < n, 0 <= b < n, es[a].1 == v, es[b].1 == v,
    ensures a == b,
    decreases n,
{
    lemma_deg_nonneg(es, n - 1, v);
    if a == n - 1 {
        if b < n - 1 { lemma_ind_some(es, n - 1, v, b); }
    } else if b == n - 1 {
        lemma_ind_some(es, n - 1, v, a);
    } else {
        lemma_ind_one(es, n - 1, v, a, b);
    }
}
/// the out-degree counted over the edge list is the number of the vertex's edges
proof fn lemma_outd_len(g: &Graph, es: Seq<(u32, u32)>, k: int, v: int)
    requires g.wf(), g.edges_ok(es, g.nv()), 0 <= k <= es.len(), 0 <= v < g.nv(),
    ensures
        outd(es, k, v) == (if k < g.edges.index@[v] { 0int } else if k < g.edges.index@[v + 1] { k - g.edges.index@[v] } else { g.edges.index@[v + 1] - g.edges.index@[v] }),
    decreases k,
{
    if k > 0 {
        lemma_outd_len(g, es, k - 1, v);
        let i = k - 1;
        if g.edges.index@[v] <= i < g.edges.index@[v + 1] {
            lemma_edge_at(g, es, v, i - g.edges.index@[v]);
        }
    }
}
proof fn lemma_pt_ent(g: &Graph, es: Seq<(u32, u32)>, v: int)
    requires g.wf(), g.targets_ok(), g.edges_ok(es, g.nv()), 0 <= v < g.nv(), pt(es, v),
    ensures ent(g, v).len() == 1, ent(g, v)[0] < g.nv(),
{
    assert(g.edges.index@[v + 1] <= g.edges.index@[g.nv()]);
    lemma_outd_len(g, es, es.len() as int, v);
    assert(g.edges.ents()[v][0] < g.nv());
}
// ---- the degree classes: one nibble each, anything above one means "not passed through"
spec fn dead(b: u8) -> bool { b % 16 >= 2 || b / 16 >= 2 }
spec fn nib(b: u8) -> bool { b < 16 || b == 0xff }
spec fn st_ok(b: u8, es: Seq<(u32, u32)>, n: int, v: int) -> bool {
    if selfl(es, n, v) || outd(es, n, v) >= 2 || ind(es, n, v) >= 2 { dead(b) } else { b == outd(es, n, v) + 16 * ind(es, n, v) }
}
// ---- the expected chains: one per edge from a vertex not passed through to one that is
spec fn starts_at(g: &Graph, es: Seq<(u32, u32)>, u: int, m: int) -> Seq<(int, int)>
    decreases m,
{
    if m <= 0 { Seq::empty() } else if pt(es, ent(g, u)[m - 1] as int) { starts_at(g, es, u, m - 1).push((u, m - 1)) } else { starts_at(g, es, u, m - 1) }
}
spec fn starts(g: &Graph, es: Seq<(u32, u32)>, n: int) -> Seq<(int, int)>
    decreases n,
{
    if n <= 0 { Seq::empty() } else if pt(es, n - 1) { starts(g, es, n - 1) } else { starts(g, es, n - 1) + starts_at(g, es, n - 1, ent(g, n - 1).len() as int) }
}
/// c begins at u, follows its j-th edge, then each vertex's only edge, up to the first vertex not passed through
spec fn chain_ok(g: &Graph, es: Seq<(u32, u32)>, c: Seq<u32>, u: int, j: int) -> bool {
    &&& c.len() >= 3
    &&& !pt(es, c.last() as int)
    &&& run_ok(g, es, c, u, j)
}
spec fn run_ok(g: &Graph, es: Seq<(u32, u32)>, c: Seq<u32>, u: int, j: int) -> bool {
    &&& c.len() >= 2
    &&& c[0] == u && !pt(es, u)
    &&& 0 <= j < ent(g, u).len() && c[1] == ent(g, u)[j]
    &&& forall|i: int| 1 <= i < c.len() - 1 ==> #[trigger] inner(g, es, c, i)
}
spec fn inner(g: &Graph, es: Seq<(u32, u32)>, c: Seq<u32>, i: int) -> bool {
    pt(es, c[i] as int) && ent(g, c[i] as int).len() == 1 && c[i + 1] == ent(g, c[i] as int)[0]
}
spec fn chains_ok(g: &Graph, es: Seq<(u32, u32)>, t: RampTable<u32>) -> bool {
    let st = starts(g, es, g.nv());
    &&& t.wf()
    &&& t.unowned().len() == 0
    &&& t.nk() == st.len()
    &&& forall|i: int| 0 <= i < st.len() ==> chain_ok(g, es, #[trigger] t.ents()[i], st[i].0, st[i].1)
}
// ---- what that means: every maximal pass-through path is reported, and once
proof fn lemma_starts_at(g: &Graph, es: Seq<(u32, u32)>, u: int, m: int, i: int)
    requires 0 <= i < starts_at(g, es, u, m).len(),
    ensures ({ let s = starts_at(g, es, u, m)[i]; s.0 == u && 0 <= s.1 < m && pt(es, ent(g, u)[s.1] as int) }),
        forall|k: int| 0 <= k < i ==> (#[trigger] starts_at(g, es, u, m)[k]).1 < starts_at(g, es, u, m)[i].1,
    decreases m,
{
    if m > 0 {
        let p = starts_at(g, es, u, m - 1);
        if i < p.len() {
            lemma_starts_at(g, es, u, m - 1, i);
            assert forall|k: int| 0 <= k < i implies (#[trigger] starts_at(g, es, u, m)[k]).1 < starts_at(g, es, u, m)[i].1 by { assert(p[k].1 < p[i].1); }
        } else {
            assert forall|k: int| 0 <= k < i implies (#[trigger] starts_at(g, es, u, m)[k]).1 < starts_at(g, es, u, m)[i].1 by { lemma_starts_at(g, es, u, m - 1, k); }
        }
    }
}
proof fn lemma_starts_at_has(g: &Graph, es: Seq<(u32, u32)>, u: int, m: int, j: int) -> (i: int)
    requires 0 <= j < m, pt(es, ent(g, u)[j] as int),
    ensures 0 <= i < starts_at(g, es, u, m).len(), starts_at(g, es, u, m)[i] == (u, j),
    decreases m,
{
    if j == m - 1 { starts_at(g, es, u, m - 1).len() as int } else { lemma_starts_at_has(g, es, u, m - 1, j) }
}
/// the starts are ordered by beginning vertex, then by edge
proof fn lemma_starts(g: &Graph, es: Seq<(u32, u32)>, n: int, i: int)
    requires 0 <= i < starts(g, es, n).len(),
    ensures
        ({ let s = starts(g, es, n)[i]; 0 <= s.0 < n && !pt(es, s.0) && 0 <= s.1 < ent(g, s.0).len() && pt(es, ent(g, s.0)[s.1] as int) }),
        forall|k: int| 0 <= k < i ==> {
            let a = #[trigger] starts(g, es, n)[k];
            let b = starts(g, es, n)[i];
            a.0 < b.0 || (a.0 == b.0 && a.1 < b.1)
        },
    decreases n,
{
    if n > 0 {
        let p = starts(g, es, n - 1);
        if i < p.len() {
            lemma_starts(g, es, n - 1, i);
            assert forall|k: int| 0 <= k < i implies { let a = #[trigger] starts(g, es, n)[k]; let b = starts(g, es, n)[i]; a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) } by {
                assert(starts(g, es, n)[k] == p[k]);
            }
        } else {
            let q = starts_at(g, es, n - 1, ent(g, n - 1).len() as int);
            lemma_starts_at(g, es, n - 1, ent(g, n - 1).len() as int, i - p.len());
            assert forall|k: int| 0 <= k < i implies { let a = #[trigger] starts(g, es, n)[k]; let b = starts(g, es, n)[i]; a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) } by {
                if k < p.len() {
                    lemma_starts(g, es, n - 1, k);
                } else {
                    lemma_starts_at(g, es, n - 1, ent(g, n - 1).len() as int, k - p.len());
                    assert(q[k - p.len()].1 < q[i - p.len()].1);
                }
            }
        }
    }
}
proof fn lemma_starts_has(g: &Graph, es: Seq<(u32, u32)>, n: int, u: int, j: int) -> (i: int)
    requires 0 <= u < n, !pt(es, u), 0 <= j < ent(g, u).len(), pt(es, ent(g, u)[j] as int),
    ensures 0 <= i < starts(g, es, n).len(), starts(g, es, n)[i] == (u, j),
    decreases n,
{
    if u == n - 1 {
        let k = lemma_starts_at_has(g, es, u, ent(g, u).len() as int, j);
        starts(g, es, n - 1).len() + k
    } else {
        lemma_starts_has(g, es, n - 1, u, j)
    }
}
/// an edge path through pass-through vertices between two vertices that are not
spec fn max_path(g: &Graph, es: Seq<(u32, u32)>, p: Seq<u32>) -> bool {
    &&& p.len() >= 3
    &&& forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) < g.nv() && (pt(es, p[i] as int) <==> 0 < i < p.len() - 1)
    &&& forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] joined(g, p, i)
}
spec fn joined(g: &Graph, p: Seq<u32>, i: int) -> bool { exists|j: int| 0 <= j < ent(g, p[i] as int).len() && #[trigger] ent(g, p[i] as int)[j] == p[i + 1] }
proof fn lemma_every_path_reported(g: &Graph, es: Seq<(u32, u32)>, t: RampTable<u32>, p: Seq<u32>) -> (k: int)
    requires g.wf(), g.targets_ok(), g.edges_ok(es, g.nv()), chains_ok(g, es, t), max_path(g, es, p),
    ensures 0 <= k < t.nk(), t.ents()[k] == p,
{
    assert(joined(g, p, 0));
    let u = p[0] as int;
    let j = choose|j: int| 0 <= j < ent(g, p[0] as int).len() && #[trigger] ent(g, p[0] as int)[j] == p[1];
    assert(pt(es, p[1] as int));
    let k = lemma_starts_has(g, es, g.nv(), u, j);
    let c = t.ents()[k];
    assert(chain_ok(g, es, c, u, j));
    lemma_prefix(g, es, c, p, u, j, if c.len() <= p.len() { c.len() as int } else { p.len() as int });
    if c.len() < p.len() { assert(pt(es, p[c.len() - 1] as int)); assert(c.last() == p[c.len() - 1]); }
    if p.len() < c.len() { assert(inner(g, es, c, p.len() - 1)); assert(c[p.len() - 1] == p.last()); assert(!pt(es, p[p.len() - 1] as int)); }
    assert(c =~= p);
    k
}
proof fn lemma_prefix(g: &Graph, es: Seq<(u32, u32)>, c: Seq<u32>, p: Seq<u32>, u: int, j: int, n: int)
    requires g.wf(), g.targets_ok(), g.edges_ok(es, g.nv()), run_ok(g, es, c, u, j), max_path(g, es, p), p[0] == u, p[1] == ent(g, u)[j], 0 <= n <= c.len(), n <= p.len(),
    ensures forall|i: int| 0 <= i < n ==> #[trigger] c[i] == p[i],
    decreases n,
{
    if n > 2 {
        lemma_prefix(g, es, c, p, u, j, n - 1);
        assert(inner(g, es, c, n - 2));
        assert(joined(g, p, n - 2));
        assert(c[n - 2] == p[n - 2]);
        assert(c[n - 2 + 1] == p[n - 2 + 1]);
    }
}
proof fn lemma_reported_is_path(g: &Graph, es: Seq<(u32, u32)>, t: RampTable<u32>, k: int)
    requires g.wf(), g.targets_ok(), g.edges_ok(es, g.nv()), chains_ok(g, es, t), 0 <= k < t.nk(),
    ensures max_path(g, es, t.ents()[k]),
{
    let c = t.ents()[k];
    let (u, j) = starts(g, es, g.nv())[k];
    lemma_starts(g, es, g.nv(), k);
    assert(chain_ok(g, es, c, u, j));
    lemma_run_bound(g, es, c, u, j, c.len() as int);
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]) < g.nv() && (pt(es, c[i] as int) <==> 0 < i < c.len() - 1) by {
        if 0 < i < c.len() - 1 { assert(inner(g, es, c, i)); }
    }
    assert forall|i: int| 0 <= i < c.len() - 1 implies #[trigger] joined(g, c, i) by {
        if i == 0 { assert(ent(g, u)[j] == c[1]); } else { assert(inner(g, es, c, i)); assert(ent(g, c[i] as int)[0] == c[i + 1]); }
    }
}
proof fn lemma_run_bound(g: &Graph, es: Seq<(u32, u32)>, c: Seq<u32>, u: int, j: int, n: int)
    requires g.wf(), g.targets_ok(), run_ok(g, es, c, u, j), 0 <= u < g.nv(), 0 <= n <= c.len(),
    ensures forall|i: int| 0 <= i < n ==> (#[trigger] c[i]) < g.nv(),
    decreases n,
{
    if n > 0 {
        lemma_run_bound(g, es, c, u, j, n - 1);
        if n == 2 { assert(g.edges.ents()[u][j] < g.nv()); }
        if n > 2 {
            assert(inner(g, es, c, n - 2));
            assert(c[n - 2] < g.nv());
            assert(g.edges.ents()[c[n - 2] as int][0] < g.nv());
            assert(c[n - 2 + 1] < g.nv());
        }
    }
}
proof fn lemma_reported_once(g: &Graph, es: Seq<(u32, u32)>, t: RampTable<u32>, a: int, b: int)
    requires g.wf(), g.targets_ok(), g.edges_ok(es, g.nv()), chains_ok(g, es, t), 0 <= a < b < t.nk(),
    ensures t.ents()[a] != t.ents()[b],
{
    let st = starts(g, es, g.nv());
    let (ua, ja) = st[a];
    let (ub, jb) = st[b];
    lemma_starts(g, es, g.nv(), a);
    lemma_starts(g, es, g.nv(), b);
    assert(chain_ok(g, es, t.ents()[a], ua, ja));
    assert(chain_ok(g, es, t.ents()[b], ub, jb));
    if t.ents()[a] == t.ents()[b] {
        lemma_edge_at(g, es, ua, ja);
        lemma_edge_at(g, es, ub, jb);
        lemma_ind_one(es, es.len() as int, ent(g, ua)[ja] as int, g.edges.index@[ua] + ja, g.edges.index@[ub] + jb);
        assert(st[a].0 < st[b].0 || (st[a].0 == st[b].0 && st[a].1 < st[b].1));
    }
}
// ---- no vertex is walked twice (termination, and room for the result)
spec fn walked(es: Seq<(u32, u32)>, nv: int, all: Seq<u32>, src: Seq<int>, lim: int) -> bool {
    &&& all.no_duplicates()
    &&& src.len() == all.len()
    &&& forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]) < nv && pt(es, all[i] as int) && came(es, all, src, lim, i)
}
spec fn came(es: Seq<(u32, u32)>, all: Seq<u32>, src: Seq<int>, lim: int, i: int) -> bool {
    &&& 0 <= src[i] < es.len()
    &&& es[src[i]].1 == all[i]
    &&& if pt(es, es[src[i]].0 as int) { i > 0 && all[i - 1] == es[src[i]].0 } else { src[i] < lim }
}
proof fn lemma_walk_more(es: Seq<(u32, u32)>, nv: int, all: Seq<u32>, src: Seq<int>, lim: int, lim2: int)
    requires walked(es, nv, all, src, lim), lim <= lim2,
    ensures walked(es, nv, all, src, lim2),
{
    assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]) < nv && pt(es, all[i] as int) && came(es, all, src, lim2, i) by { assert(all[i] < nv); assert(came(es, all, src, lim, i)); }
}
proof fn lemma_walk_push(es: Seq<(u32, u32)>, nv: int, all: Seq<u32>, src: Seq<int>, lim: int, x: u32, e: int, lim2: int)
    requires
        walked(es, nv, all, src, lim), x < nv, pt(es, x as int), 0 <= e < es.len(), es[e].1 == x, lim <= lim2,
        if pt(es, es[e].0 as int) { all.len() > 0 && all.last() == es[e].0 } else { lim <= e < lim2 },
    ensures walked(es, nv, all.push(x), src.push(e), lim2), all.len() < nv,
{
    assert forall|i: int| 0 <= i < all.len() implies all[i] != x by {
        if all[i] == x {
            assert(came(es, all, src, lim, i));
            lemma_ind_one(es, es.len() as int, x as int, src[i], e);
            if pt(es, es[e].0 as int) { assert(all[i - 1] == all[all.len() - 1]); }
        }
    }
    let (a2, s2) = (all.push(x), src.push(e));
    assert forall|i: int| 0 <= i < a2.len() implies (#[trigger] a2[i]) < nv && pt(es, a2[i] as int) && came(es, a2, s2, lim2, i) by {
        if i < all.len() { assert(a2[i] == all[i]); assert(came(es, all, src, lim, i)); }
    }
    lemma_distinct_bound(a2, nv);
}
proof fn lemma_distinct_bound(o: Seq<u32>, nv: int)
    requires o.no_duplicates(), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] < nv, nv >= 0,
    ensures o.len() <= nv,
    decreases nv,
{
    if o.len() > 0 {
        assert(o[0] < nv);
        if exists|k: int| 0 <= k < o.len() && o[k] == nv - 1 {
            let k = choose|k: int| 0 <= k < o.len() && o[k] == nv - 1;
            let p = o.remove(k);
            assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] < nv - 1 by {
                let i2 = if i < k { i } else { i + 1 };
                assert(p[i] == o[i2]);
                assert(o[i2] != o[k]);
            }
            assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by {
                let i2 = if i < k { i } else { i + 1 };
                let j2 = if j < k { j } else { j + 1 };
                assert(p[i] == o[i2] && p[j] == o[j2]);
            }
            lemma_distinct_bound(p, nv - 1);
        } else {
            assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] < nv - 1 by { }
            lemma_distinct_bound(o, nv - 1);
        }
    }
}
proof fn lemma_run_push(g: &Graph, es: Seq<(u32, u32)>, p: Seq<u32>, u: int, j: int, x: u32)
    requires run_ok(g, es, p, u, j), pt(es, p.last() as int), ent(g, p.last() as int).len() == 1, x == ent(g, p.last() as int)[0],
    ensures run_ok(g, es, p.push(x), u, j),
{
    let q = p.push(x);
    assert forall|i: int| 1 <= i < q.len() - 1 implies #[trigger] inner(g, es, q, i) by {
        if i < p.len() - 1 { assert(inner(g, es, p, i)); assert(q[i] == p[i] && q[i + 1] == p[i + 1]); } else { assert(q[i] == p.last() && q[i + 1] == x); }
    }
}
/// the chains finished so far are those of `st`
spec fn part(g: &Graph, es: Seq<(u32, u32)>, t: RampTable<u32>, st: Seq<(int, int)>) -> bool {
    &&& t.wf()
    &&& t.nk() == st.len()
    &&& forall|i: int| 0 <= i < st.len() ==> chain_ok(g, es, #[trigger] t.ents()[i], st[i].0, st[i].1)
}
spec fn degs_ok(g: &Graph, es: Seq<(u32, u32)>, d: Seq<u8>) -> bool {
    &&& d.len() == g.nv()
    &&& forall|v: int| 0 <= v < g.nv() ==> ((#[trigger] d[v]) == 17 <==> pt(es, v))
}
spec fn pre(g: &Graph, es: Seq<(u32, u32)>, d: Seq<u8>) -> bool {
    &&& g.wf() && g.targets_ok() && 3 * g.nv() <= u32::MAX && g.edges_ok(es, g.nv())
    &&& degs_ok(g, es, d)
}
/// a chain begun at (u, j) has values c so far, and x comes next
spec fn begun(g: &Graph, es: Seq<(u32, u32)>, c: Seq<u32>, x: u32, u: int, j: int, all: Seq<u32>, src: Seq<int>) -> bool {
    &&& c.len() >= 1 && x < g.nv()
    &&& run_ok(g, es, c.push(x), u, j)
    &&& c.len() == 1 ==> pt(es, x as int) && walked(es, g.nv(), all, src, g.edges.index@[u] + j)
    &&& c.len() > 1 ==> all.len() > 0 && all.last() == c.last() && walked(es, g.nv(), all, src, g.edges.index@[u] + j + 1)
}
proof fn lemma_begun_step(g: &Graph, es: Seq<(u32, u32)>, c: Seq<u32>, x: u32, u: int, j: int, all: Seq<u32>, src: Seq<int>) -> (e: int)
    requires
        g.wf(), g.targets_ok(), g.edges_ok(es, g.nv()), 0 <= u < g.nv(), 0 <= j < ent(g, u).len(), !pt(es, u),
        begun(g, es, c, x, u, j, all, src), pt(es, x as int),
    ensures
        all.len() < g.nv(), ent(g, x as int).len() == 1,
        begun(g, es, c.push(x), ent(g, x as int)[0], u, j, all.push(x), src.push(e)),
{
    lemma_pt_ent(g, es, x as int);
    let p = c.push(x);
    lemma_run_push(g, es, p, u, j, ent(g, x as int)[0]);
    let lim = g.edges.index@[u] + j;
    if c.len() == 1 {
        lemma_edge_at(g, es, u, j);
        assert(p[1] == x);
        lemma_walk_push(es, g.nv(), all, src, lim, x, lim, lim + 1);
        lim
    } else {
        let i = p.len() - 2;
        assert(inner(g, es, p, i));
        assert(p[i] == c.last() && p[i + 1] == x);
        let w = c.last() as int;
        lemma_walk_last(es, g.nv(), all, src, lim + 1);
        lemma_edge_at(g, es, w, 0);
        lemma_walk_push(es, g.nv(), all, src, lim + 1, x, g.edges.index@[w] as int, lim + 1);
        g.edges.index@[w] as int
    }
}
proof fn lemma_walk_last(es: Seq<(u32, u32)>, nv: int, all: Seq<u32>, src: Seq<int>, lim: int)
    requires walked(es, nv, all, src, lim), all.len() > 0,
    ensures all.last() < nv,
{
    assert(all[all.len() - 1] < nv);
}
proof fn lemma_walk_room(es: Seq<(u32, u32)>, nv: int, all: Seq<u32>, src: Seq<int>, lim: int)
    requires walked(es, nv, all, src, lim), nv >= 0,
    ensures all.len() <= nv,
{
    lemma_distinct_bound(all, nv);
}
proof fn lemma_begun_first(g: &Graph, es: Seq<(u32, u32)>, u: int, j: int, all: Seq<u32>, src: Seq<int>, c: Seq<u32>, x: u32)
    requires
        g.wf(), g.targets_ok(), 0 <= u < g.nv(), 0 <= j < ent(g, u).len(), !pt(es, u), x == ent(g, u)[j], pt(es, x as int),
        c.len() == 1, c[0] == u, walked(es, g.nv(), all, src, g.edges.index@[u] + j),
    ensures begun(g, es, c, x, u, j, all, src),
{
    assert(g.edges.ents()[u][j] < g.nv());
}
/// the chain ends before a vertex not passed through
proof fn lemma_begun_end(g: &Graph, es: Seq<(u32, u32)>, c: Seq<u32>, x: u32, u: int, j: int, all: Seq<u32>, src: Seq<int>)
    requires begun(g, es, c, x, u, j, all, src), !pt(es, x as int),
    ensures chain_ok(g, es, c.push(x), u, j), walked(es, g.nv(), all, src, g.edges.index@[u] + j + 1),
{
}
proof fn lemma_part_push(g: &Graph, es: Seq<(u32, u32)>, t: RampTable<u32>, t2: RampTable<u32>, st: Seq<(int, int)>, u: int, j: int)
    requires part(g, es, t, st), t2.wf(), t2.ents() == t.ents().push(t.unowned()), chain_ok(g, es, t.unowned(), u, j),
    ensures part(g, es, t2, st.push((u, j))),
{
    assert(t2.ents().len() == t2.nk());
    assert(t.ents().len() == t.nk());
    let s2 = st.push((u, j));
    assert forall|i: int| 0 <= i < s2.len() implies chain_ok(g, es, #[trigger] t2.ents()[i], s2[i].0, s2[i].1) by {
        if i < st.len() { assert(t2.ents()[i] == t.ents()[i]); }
    }
}
proof fn lemma_bits(a: u8, b: u8)
    ensures
        a < 16 && b < 16 ==> (b << 4u8) | a == a + 16 * b,
        a == 0xff ==> (b << 4u8) | a == 0xff,
        b == 0xff && a < 16 ==> (b << 4u8) | a == 0xf0 + a,
        a | (b << 4u8) == (b << 4u8) | a,
        a & 0xf == a % 16,
        a >> 4u8 == a / 16,
{
    assert(a | (b << 4u8) == (b << 4u8) | a) by (bit_vector);
    assert(a < 16 && b < 16 ==> (b << 4u8) | a == add(a, mul(16, b))) by (bit_vector);
    assert(a == 0xff ==> (b << 4u8) | a == 0xff) by (bit_vector);
    assert(b == 0xff && a < 16 ==> (b << 4u8) | a == add(0xf0, a)) by (bit_vector);
    assert(a & 0xf == a % 16) by (bit_vector);
    assert(a >> 4u8 == a / 16) by (bit_vector);
}
%%% fn pack_degrees
%% contract
    requires nib(in_degree), nib(out_degree),
    ensures
        in_degree < 16 && out_degree < 16 ==> r == in_degree + 16 * out_degree,
        in_degree >= 16 || out_degree >= 16 ==> dead(r),
%% at body.start
    proof { lemma_bits(in_degree, out_degree); }
%%% fn unpack_degrees
%% contract
    ensures r.0 == packed % 16, r.1 == packed / 16, r.0 < 16, r.1 < 16,
%% at body.start
    proof { lemma_bits(packed, 0); }
%%% fn increment_degree
%% contract
    ensures degree == 0 ==> r == 1, degree != 0 ==> r >= 2, nib(r),
%%% fn is_chain
%% contract
    ensures r == (degrees == 17),
%%% fn find_chains
%% opt isolate
%% contract
    requires graph.wf(), graph.targets_ok(), 3 * graph.nv() <= u32::MAX,
    ensures exists|es: Seq<(u32, u32)>| graph.edges_ok(es, graph.nv()) && chains_ok(graph, es, r),
%% loop 0
    invariant
        graph.wf(), graph.targets_ok(), graph.edges_ok(vs0, graph.nv()),
        v_degrees@.len() == graph.nv(),
        forall|v: int| 0 <= v < graph.nv() ==> st_ok(#[trigger] v_degrees@[v], vs0, vk0, v),
%% at loop0.start
    let ghost d0 = v_degrees@;
    proof {
        assert(vs0[vk0 - 1] == (from, to));
        lemma_edge_ent(graph, vs0, vk0 - 1);
        assert(st_ok(d0[from as int], vs0, vk0 - 1, from as int));
        assert(st_ok(d0[to as int], vs0, vk0 - 1, to as int));
        assert forall|v: int| 0 <= v < graph.nv() && v != from && v != to implies st_ok(#[trigger] d0[v], vs0, vk0, v) by {
            assert(st_ok(d0[v], vs0, vk0 - 1, v));
        }
        lemma_deg_nonneg(vs0, vk0 - 1, from as int);
        lemma_deg_nonneg(vs0, vk0 - 1, to as int);
    }
%% at loop0.after
    let ghost es = vs0;
    let ghost deg = v_degrees@;
    let ghost mut all: Seq<u32> = Seq::empty();
    let ghost mut src: Seq<int> = Seq::empty();
    proof {
        assert forall|v: int| 0 <= v < graph.nv() implies ((#[trigger] deg[v]) == 17 <==> pt(es, v)) by {
            assert(st_ok(deg[v], es, es.len() as int, v));
            lemma_deg_nonneg(es, es.len() as int, v);
        }
        assert(pre(graph, es, deg));
        assert(walked(es, graph.nv(), all, src, graph.edges.index@[0] as int));
    }
%% loop 1
    invariant
        pre(graph, es, v_degrees@),
        vs1.len() == graph.nv(),
        forall|i: int| 0 <= i < vs1.len() ==> (#[trigger] vs1[i]).0 == i && vs1[i].1@ == graph.edges.ents()[i],
        part(graph, es, chains, starts(graph, es, vk1)),
        chains.unowned().len() == 0,
        walked(es, graph.nv(), all, src, graph.edges.index@[vk1] as int),
        chains.nk() <= all.len(),
        chains.values@.len() == all.len() + 2 * chains.nk(),
%% at loop1.start
    let ghost u = vk1 - 1;
    proof {
        assert(vs1[vk1 - 1] == (from, to_list));
        assert(graph.edges.ents()[u].len() == graph.edges.index@[u + 1] - graph.edges.index@[u]);
        lemma_walk_more(es, graph.nv(), all, src, graph.edges.index@[u] as int, graph.edges.index@[u] as int);
        if pt(es, u) { lemma_walk_more(es, graph.nv(), all, src, graph.edges.index@[u] as int, graph.edges.index@[vk1] as int); }
    }
%% at loop2.before
    proof {
        assert(starts(graph, es, u) + starts_at(graph, es, u, 0) =~= starts(graph, es, u));
    }
%% loop 2
    invariant
        pre(graph, es, v_degrees@),
        0 <= u < graph.nv(), from == u, !pt(es, u),
        vs2.len() == ent(graph, u).len(),
        forall|i: int| 0 <= i < vs2.len() ==> *(#[trigger] vs2[i]) == ent(graph, u)[i],
        part(graph, es, chains, starts(graph, es, u) + starts_at(graph, es, u, vk2)),
        chains.unowned().len() == 0,
        walked(es, graph.nv(), all, src, graph.edges.index@[u] + vk2),
        chains.nk() <= all.len(),
        chains.values@.len() == all.len() + 2 * chains.nk(),
%% at loop2.start
    let ghost j = vk2 - 1;
    let ghost st = starts(graph, es, u) + starts_at(graph, es, u, j);
    proof {
        assert(*vs2[j] == to);
        assert(graph.edges.ents()[u][j] < graph.nv());
        lemma_walk_more(es, graph.nv(), all, src, graph.edges.index@[u] + j, graph.edges.index@[u] + j);
        if !pt(es, to as int) { lemma_walk_more(es, graph.nv(), all, src, graph.edges.index@[u] + j, graph.edges.index@[u] + vk2); }
        assert(pt(es, to as int) ==> starts(graph, es, u) + starts_at(graph, es, u, vk2) =~= st.push((u, j)));
    }
%% at loop3.before
    let ghost c0 = chains.unowned();
    proof { lemma_begun_first(graph, es, u, j, all, src, c0, to); }
%% loop 3
    invariant_except_break
        pre(graph, es, v_degrees@),
        0 <= u < graph.nv(), from == u, !pt(es, u), 0 <= j < ent(graph, u).len(),
        part(graph, es, chains, st),
        begun(graph, es, chains.unowned(), chain_vert, u, j, all, src),
        chains.nk() <= all.len(),
        chains.unowned().len() > 1 ==> chains.nk() < all.len(),
        chains.values@.len() == all.len() + 2 * chains.nk() + 1,
    ensures
        pre(graph, es, v_degrees@),
        part(graph, es, chains, st),
        chain_ok(graph, es, chains.unowned(), u, j),
        walked(es, graph.nv(), all, src, graph.edges.index@[u] + j + 1),
        chains.nk() < all.len(),
        chains.values@.len() == all.len() + 2 * chains.nk() + 2,
    decreases graph.nv() - all.len(),
%% at loop3.start
    let ghost c = chains.unowned();
    let ghost t0 = chains;
    proof {
        if pt(es, chain_vert as int) {
            let e = lemma_begun_step(graph, es, c, chain_vert, u, j, all, src);
            all = all.push(chain_vert);
            src = src.push(e);
        } else {
            lemma_begun_end(graph, es, c, chain_vert, u, j, all, src);
        }
    }
%% at loop3.after
    let ghost t1 = chains;
    proof { lemma_walk_room(es, graph.nv(), all, src, graph.edges.index@[u] + j + 1); }
%% at if2.then.end
    proof { lemma_part_push(graph, es, t1, chains, st, u, j); }
%% at loop1.after
    assert(graph.edges_ok(es, graph.nv()) && chains_ok(graph, es, chains));
