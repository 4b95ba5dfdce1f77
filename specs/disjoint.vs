%%% file trellis/src/disjoint.rs
%%% item NO_GRAPH
%%% item DisjointSubgraphs
%%% text
proof fn lemma_no_graph()
    ensures NO_GRAPH == u32::MAX, !0u32 == u32::MAX,
{
    assert(!0u32 == 0xffff_ffffu32) by (bit_vector);
}
// ---- connectivity by the first k edges, ignoring direction
spec fn link(es: Seq<(u32, u32)>, k: int, a: u32, b: u32) -> bool {
    exists|i: int| 0 <= i < k && ((#[trigger] es[i]) == (a, b) || es[i] == (b, a))
}
spec fn walk(es: Seq<(u32, u32)>, k: int, p: Seq<u32>) -> bool {
    p.len() > 0 && forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] hop(es, k, p, i)
}
spec fn hop(es: Seq<(u32, u32)>, k: int, p: Seq<u32>, i: int) -> bool { link(es, k, p[i], p[i + 1]) }
#[verifier::opaque]
spec fn conn(es: Seq<(u32, u32)>, k: int, a: u32, b: u32) -> bool {
    exists|p: Seq<u32>| #[trigger] walk(es, k, p) && p[0] == a && p.last() == b
}
spec fn touched(es: Seq<(u32, u32)>, k: int, v: int) -> bool {
    exists|i: int| 0 <= i < k && ((#[trigger] es[i]).0 == v || es[i].1 == v)
}
proof fn lemma_refl(es: Seq<(u32, u32)>, k: int, a: u32)
    ensures conn(es, k, a, a),
{
    reveal(conn);
    assert(walk(es, k, seq![a]));
}
proof fn lemma_sym(es: Seq<(u32, u32)>, k: int, a: u32, b: u32)
    requires conn(es, k, a, b),
    ensures conn(es, k, b, a),
{
    reveal(conn);
    let p = choose|p: Seq<u32>| #[trigger] walk(es, k, p) && p[0] == a && p.last() == b;
    let q = p.reverse();
    assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] hop(es, k, q, i) by {
        let j = p.len() - 2 - i;
        assert(hop(es, k, p, j));
        assert(q[i] == p[j + 1] && q[i + 1] == p[j]);
    }
    assert(walk(es, k, q));
}
proof fn lemma_trans(es: Seq<(u32, u32)>, k: int, a: u32, b: u32, c: u32)
    requires conn(es, k, a, b), conn(es, k, b, c),
    ensures conn(es, k, a, c),
{
    reveal(conn);
    let p = choose|p: Seq<u32>| #[trigger] walk(es, k, p) && p[0] == a && p.last() == b;
    let q = choose|q: Seq<u32>| #[trigger] walk(es, k, q) && q[0] == b && q.last() == c;
    let r = p + q.drop_first();
    assert forall|i: int| 0 <= i < r.len() - 1 implies #[trigger] hop(es, k, r, i) by {
        if i < p.len() - 1 {
            assert(hop(es, k, p, i));
            assert(r[i] == p[i] && r[i + 1] == p[i + 1]);
        } else {
            let j = i - (p.len() - 1);
            assert(hop(es, k, q, j));
            assert(r[i] == q[j] && r[i + 1] == q[j + 1]);
        }
    }
    assert(walk(es, k, r));
    assert(r.last() == c);
}
proof fn lemma_more(es: Seq<(u32, u32)>, k: int, m: int, a: u32, b: u32)
    requires conn(es, k, a, b), k <= m,
    ensures conn(es, m, a, b),
{
    reveal(conn);
    let p = choose|p: Seq<u32>| #[trigger] walk(es, k, p) && p[0] == a && p.last() == b;
    assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] hop(es, m, p, i) by {
        assert(hop(es, k, p, i));
    }
    assert(walk(es, m, p));
}
proof fn lemma_edge_conn(es: Seq<(u32, u32)>, k: int, i: int)
    requires 0 <= i < k,
    ensures conn(es, k, es[i].0, es[i].1), conn(es, k, es[i].1, es[i].0),
{
    reveal(conn);
    let p = seq![es[i].0, es[i].1];
    assert(link(es, k, es[i].0, es[i].1)) by { assert(es[i] == (es[i].0, es[i].1)); }
    assert(walk(es, k, p));
    lemma_sym(es, k, es[i].0, es[i].1);
}
// ---- the alias chains
spec fn al_ok(al: Seq<u32>) -> bool { forall|g: int| 0 <= g < al.len() ==> #[trigger] al[g] <= g }
spec fn rep(al: Seq<u32>, g: int) -> int
    decreases g,
{
    if 0 <= g < al.len() && al[g] < g { rep(al, al[g] as int) } else { g }
}
proof fn lemma_rep(al: Seq<u32>, g: int)
    requires al_ok(al), 0 <= g < al.len(),
    ensures 0 <= rep(al, g) <= g, al[rep(al, g)] == rep(al, g), rep(al, rep(al, g)) == rep(al, g),
    decreases g,
{
    if al[g] < g { lemma_rep(al, al[g] as int); }
}
proof fn lemma_rep_merge(al: Seq<u32>, low: int, high: int, g: int)
    requires al_ok(al), 0 <= low <= high < al.len(), al[low] == low, al[high] == high, 0 <= g < al.len(),
    ensures
        al_ok(al.update(high, low as u32)),
        rep(al.update(high, low as u32), g) == if rep(al, g) == high { low } else { rep(al, g) },
    decreases g,
{
    let b = al.update(high, low as u32);
    if al[g] < g { lemma_rep_merge(al, low, high, al[g] as int); }
    if g == high && low < high { assert(rep(b, low) == low); }
}
proof fn lemma_rep_push(al: Seq<u32>, g: int)
    requires al_ok(al), 0 <= g <= al.len() <= u32::MAX,
    ensures al_ok(al.push(al.len() as u32)), rep(al.push(al.len() as u32), g) == (if g < al.len() { rep(al, g) } else { g }),
    decreases g,
{
    if g < al.len() && al[g] < g { lemma_rep_push(al, al[g] as int); }
}
/// number of vertices still without a group
spec fn free(vg: Seq<u32>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { free(vg, n - 1) + (if vg[n - 1] == NO_GRAPH { 1int } else { 0 }) }
}
proof fn lemma_free(vg: Seq<u32>, n: int, v: int, x: u32)
    requires 0 <= n <= vg.len(), 0 <= v < vg.len(), vg[v] == NO_GRAPH, x != NO_GRAPH,
    ensures free(vg.update(v, x), n) == free(vg, n) - (if v < n { 1int } else { 0 }), 0 <= free(vg, n) <= n, v < n ==> 1 <= free(vg, n),
    decreases n,
{
    if n > 0 { lemma_free(vg, n - 1, v, x); }
}
proof fn lemma_free_all(vg: Seq<u32>, n: int)
    requires 0 <= n <= vg.len(),
    ensures 0 <= free(vg, n) <= n,
    decreases n,
{
    if n > 0 { lemma_free_all(vg, n - 1); }
}
/// the provisional grouping after k edges
#[verifier::opaque]
spec fn grouping(es: Seq<(u32, u32)>, k: int, vg: Seq<u32>, al: Seq<u32>) -> bool {
    &&& al_ok(al)
    &&& al.len() + free(vg, vg.len() as int) <= vg.len()
    &&& forall|v: int| 0 <= v < vg.len() ==> (#[trigger] vg[v] == NO_GRAPH || vg[v] < al.len())
    // a vertex has a group exactly if an edge touches it
    &&& forall|v: int| #![trigger touched(es, k, v)] 0 <= v < vg.len() ==> (vg[v] != NO_GRAPH <==> touched(es, k, v))
    // no group is empty
    &&& forall|g: int| 0 <= g < al.len() ==> #[trigger] nonempty(vg, g)
    // the ends of an edge are in the same group
    &&& forall|i: int| 0 <= i < k ==> same_group(vg, al, (#[trigger] es[i]).0 as int, es[i].1 as int)
    // only connected vertices are
    &&& forall|a: int, b: int| 0 <= a < vg.len() && 0 <= b < vg.len() && #[trigger] same_group(vg, al, a, b) ==> conn(es, k, a as u32, b as u32)
}
spec fn nonempty(vg: Seq<u32>, g: int) -> bool { exists|v: int| 0 <= v < vg.len() && #[trigger] vg[v] == g }
spec fn same_group(vg: Seq<u32>, al: Seq<u32>, a: int, b: int) -> bool {
    vg[a] != NO_GRAPH && vg[b] != NO_GRAPH && rep(al, vg[a] as int) == rep(al, vg[b] as int)
}
proof fn lemma_walk_group(es: Seq<(u32, u32)>, k: int, vg: Seq<u32>, al: Seq<u32>, p: Seq<u32>, n: int)
    requires
        grouping(es, k, vg, al), walk(es, k, p), 0 <= n < p.len(), p[0] < vg.len(), vg[p[0] as int] != NO_GRAPH,
        forall|i: int| 0 <= i < k ==> (#[trigger] es[i]).0 < vg.len() && es[i].1 < vg.len(),
    ensures p[n] < vg.len(), same_group(vg, al, p[0] as int, p[n] as int),
    decreases n,
{
    lemma_no_graph();
    reveal(grouping);
    if n > 0 {
        lemma_walk_group(es, k, vg, al, p, n - 1);
        assert(hop(es, k, p, n - 1));
        let i = choose|i: int| 0 <= i < k && ((#[trigger] es[i]) == (p[n - 1], p[n]) || es[i] == (p[n], p[n - 1]));
        assert(same_group(vg, al, es[i].0 as int, es[i].1 as int));
    }
}
// one more edge
proof fn lemma_touch_step(es: Seq<(u32, u32)>, k: int)
    requires 0 <= k,
    ensures forall|v: int| #![trigger touched(es, k + 1, v)] touched(es, k + 1, v) <==> touched(es, k, v) || es[k].0 == v || es[k].1 == v,
{
    assert forall|v: int| #![trigger touched(es, k + 1, v)] touched(es, k, v) || es[k].0 == v || es[k].1 == v implies touched(es, k + 1, v) by {
        if touched(es, k, v) {
            let i = choose|i: int| 0 <= i < k && ((#[trigger] es[i]).0 == v || es[i].1 == v);
            assert(es[i].0 == v || es[i].1 == v);
        }
    }
}
proof fn lemma_step_new(es: Seq<(u32, u32)>, k: int, vg: Seq<u32>, al: Seq<u32>)
    requires
        grouping(es, k, vg, al), 0 <= k, es[k].0 < vg.len(), es[k].1 < vg.len(), vg.len() <= u32::MAX,
        vg[es[k].0 as int] == NO_GRAPH, vg[es[k].1 as int] == NO_GRAPH,
    ensures
        al.len() < u32::MAX,
        grouping(es, k + 1, vg.update(es[k].0 as int, al.len() as u32).update(es[k].1 as int, al.len() as u32), al.push(al.len() as u32)),
{
    lemma_no_graph();
    reveal(grouping);
    let (f, t) = (es[k].0 as int, es[k].1 as int);
    lemma_free(vg, vg.len() as int, f, 0);
    let n = al.len() as u32;
    let v1 = vg.update(f, n);
    let v2 = v1.update(t, n);
    let a2 = al.push(n);
    lemma_free(vg, vg.len() as int, f, n);
    if f == t { assert(v2 =~= v1); } else { lemma_free(v1, vg.len() as int, t, n); }
    lemma_touch_step(es, k);
    assert forall|g: int| 0 <= g < a2.len() implies (#[trigger] a2[g]) <= g by {}
    assert forall|g: int| 0 <= g <= al.len() implies #[trigger] rep(a2, g) == (if g < al.len() { rep(al, g) } else { g }) by { lemma_rep_push(al, g); }
    assert forall|g: int| 0 <= g < a2.len() implies #[trigger] nonempty(v2, g) by {
        if g < al.len() {
            assert(nonempty(vg, g));
            let v = choose|v: int| 0 <= v < vg.len() && #[trigger] vg[v] == g;
            assert(v2[v] == g);
        } else {
            assert(v2[f] == g);
        }
    }
    assert forall|i: int| 0 <= i < k + 1 implies same_group(v2, a2, (#[trigger] es[i]).0 as int, es[i].1 as int) by {
        if i < k { assert(same_group(vg, al, es[i].0 as int, es[i].1 as int)); }
    }
    assert forall|a: int, b: int| 0 <= a < v2.len() && 0 <= b < v2.len() && #[trigger] same_group(v2, a2, a, b) implies conn(es, k + 1, a as u32, b as u32) by {
        let na = a == f || a == t;
        let nb = b == f || b == t;
        if na && nb {
            lemma_edge_conn(es, k + 1, k);
            lemma_refl(es, k + 1, a as u32);
        } else if na {
            lemma_rep(al, vg[b] as int);
        } else if nb {
            lemma_rep(al, vg[a] as int);
        } else {
            assert(same_group(vg, al, a, b));
            lemma_more(es, k, k + 1, a as u32, b as u32);
        }
    }
    assert forall|v: int| 0 <= v < v2.len() implies (#[trigger] v2[v] == NO_GRAPH || v2[v] < a2.len()) by { assert(vg[v] == vg[v]); }
    assert forall|v: int| 0 <= v < v2.len() implies (v2[v] != NO_GRAPH <==> #[trigger] touched(es, k + 1, v)) by { assert(touched(es, k, v) == touched(es, k, v)); }
}
/// an ungrouped end joins the group of the other
proof fn lemma_step_join(es: Seq<(u32, u32)>, k: int, vg: Seq<u32>, al: Seq<u32>, f: int, t: int)
    requires
        grouping(es, k, vg, al), 0 <= k, es[k] == (f as u32, t as u32) || es[k] == (t as u32, f as u32), 0 <= f < vg.len(), 0 <= t < vg.len(), vg.len() <= u32::MAX,
        vg[f] == NO_GRAPH, vg[t] != NO_GRAPH,
    ensures grouping(es, k + 1, vg.update(f, vg[t]), al),
{
    lemma_no_graph();
    reveal(grouping);
    let v2 = vg.update(f, vg[t]);
    lemma_free(vg, vg.len() as int, f, vg[t]);
    lemma_touch_step(es, k);
    assert forall|g: int| 0 <= g < al.len() implies #[trigger] nonempty(v2, g) by {
        lemma_free_all(vg, vg.len() as int);
        assert(nonempty(vg, g));
            let v = choose|v: int| 0 <= v < vg.len() && #[trigger] vg[v] == g;
        lemma_free_all(vg, vg.len() as int);
        assert(v2[v] == g);
    }
    assert forall|i: int| 0 <= i < k + 1 implies same_group(v2, al, (#[trigger] es[i]).0 as int, es[i].1 as int) by {
        if i < k { assert(same_group(vg, al, es[i].0 as int, es[i].1 as int)); }
    }
    lemma_edge_conn(es, k + 1, k);
    assert forall|a: int, b: int| 0 <= a < v2.len() && 0 <= b < v2.len() && #[trigger] same_group(v2, al, a, b) implies conn(es, k + 1, a as u32, b as u32) by {
        let x = if a == f { t } else { a };
        let y = if b == f { t } else { b };
        assert(same_group(vg, al, x, y));
        lemma_more(es, k, k + 1, x as u32, y as u32);
        if a == f { lemma_trans(es, k + 1, a as u32, x as u32, y as u32); }
        if b == f { lemma_trans(es, k + 1, a as u32, y as u32, b as u32); }
    }
    assert forall|v: int| 0 <= v < v2.len() implies (#[trigger] v2[v] == NO_GRAPH || v2[v] < al.len()) by { assert(vg[v] == vg[v] && vg[t] == vg[t]); }
    assert forall|v: int| 0 <= v < v2.len() implies (v2[v] != NO_GRAPH <==> #[trigger] touched(es, k + 1, v)) by { assert(touched(es, k, v) == touched(es, k, v)); }
}
/// both ends are grouped: their groups become one
proof fn lemma_step_merge(es: Seq<(u32, u32)>, k: int, vg: Seq<u32>, al: Seq<u32>, a2: Seq<u32>)
    requires
        grouping(es, k, vg, al), 0 <= k, es[k].0 < vg.len(), es[k].1 < vg.len(), vg.len() <= u32::MAX,
        vg[es[k].0 as int] != NO_GRAPH, vg[es[k].1 as int] != NO_GRAPH,
        merged(al, rep(al, vg[es[k].0 as int] as int), rep(al, vg[es[k].1 as int] as int), a2),
    ensures grouping(es, k + 1, vg, a2),
{
    lemma_no_graph();
    reveal(grouping);
    let (f, t) = (es[k].0 as int, es[k].1 as int);
    let (x, y) = (rep(al, vg[f] as int), rep(al, vg[t] as int));
    lemma_rep(al, vg[f] as int);
    lemma_rep(al, vg[t] as int);
    let low = if x <= y { x } else { y };
    let high = if x <= y { y } else { x };
    lemma_rep_merge(al, low, high, high);
    if x == y { assert(al.update(high, low as u32) =~= al); }
    lemma_touch_step(es, k);
    assert forall|g: int| 0 <= g < al.len() implies #[trigger] rep(a2, g) == if rep(al, g) == high { low } else { rep(al, g) } by { lemma_rep_merge(al, low, high, g); }
    assert forall|i: int| 0 <= i < k + 1 implies same_group(vg, a2, (#[trigger] es[i]).0 as int, es[i].1 as int) by {
        if i < k { assert(same_group(vg, al, es[i].0 as int, es[i].1 as int)); }
        assert(touched(es, k + 1, es[i].0 as int) && touched(es, k + 1, es[i].1 as int));
    }
    assert forall|g: int| 0 <= g < a2.len() implies #[trigger] nonempty(vg, g) by {
        assert(nonempty(vg, g));
    }
    lemma_edge_conn(es, k + 1, k);
    assert forall|a: int, b: int| 0 <= a < vg.len() && 0 <= b < vg.len() && #[trigger] same_group(vg, a2, a, b) implies conn(es, k + 1, a as u32, b as u32) by {
        let (p, q) = (rep(al, vg[a] as int), rep(al, vg[b] as int));
        if p == q {
            assert(same_group(vg, al, a, b));
            lemma_more(es, k, k + 1, a as u32, b as u32);
        } else {
            // a is with one end, b with the other
            let (m, n) = if p == x { (f, t) } else { (t, f) };
            assert(same_group(vg, al, a, m));
            assert(same_group(vg, al, n, b));
            lemma_more(es, k, k + 1, a as u32, m as u32);
            lemma_more(es, k, k + 1, n as u32, b as u32);
            lemma_trans(es, k + 1, a as u32, m as u32, n as u32);
            lemma_trans(es, k + 1, a as u32, n as u32, b as u32);
        }
    }
}
proof fn lemma_group_facts(es: Seq<(u32, u32)>, k: int, vg: Seq<u32>, al: Seq<u32>)
    requires grouping(es, k, vg, al),
    ensures
        al_ok(al),
        0 <= free(vg, vg.len() as int),
        al.len() + free(vg, vg.len() as int) <= vg.len(),
        forall|v: int| 0 <= v < vg.len() ==> (#[trigger] vg[v] == NO_GRAPH || vg[v] < al.len()),
{
    lemma_no_graph();
    reveal(grouping);
    lemma_free_all(vg, vg.len() as int);
}
proof fn lemma_group_start(es: Seq<(u32, u32)>, vg: Seq<u32>, al: Seq<u32>)
    requires al.len() == 0, forall|v: int| 0 <= v < vg.len() ==> #[trigger] vg[v] == NO_GRAPH,
    ensures grouping(es, 0, vg, al),
{
    reveal(grouping);
    lemma_free_all(vg, vg.len() as int);
}
spec fn merged(al: Seq<u32>, x: int, y: int, a2: Seq<u32>) -> bool {
    if x == y { a2 == al } else if x < y { a2 == al.update(y, x as u32) } else { a2 == al.update(x, y as u32) }
}
// ---- renumbering: the leaders, counted from below
spec fn leaders(al: Seq<u32>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { leaders(al, n - 1) + (if rep(al, n - 1) == n - 1 { 1int } else { 0 }) }
}
proof fn lemma_leaders_mono(al: Seq<u32>, a: int, b: int)
    requires 0 <= a <= b,
    ensures 0 <= leaders(al, a) <= leaders(al, b) <= b, a < b && rep(al, a) == a ==> leaders(al, a) < leaders(al, b),
    decreases b,
{
    if a < b { lemma_leaders_mono(al, a, b - 1); } else if b > 0 { lemma_leaders_mono(al, b - 1, b - 1); }
}
proof fn lemma_leader_nth(al: Seq<u32>, n: int, x: int) -> (g: int)
    requires 0 <= x < leaders(al, n),
    ensures 0 <= g < n, rep(al, g) == g, leaders(al, g) == x,
    decreases n,
{
    if n <= 0 { 0 } else if x < leaders(al, n - 1) { lemma_leader_nth(al, n - 1, x) } else { n - 1 }
}
proof fn lemma_leader_inj(al: Seq<u32>, a: int, b: int)
    requires 0 <= a, 0 <= b, rep(al, a) == a, rep(al, b) == b, leaders(al, a) == leaders(al, b),
    ensures a == b,
{
    if a < b { lemma_leaders_mono(al, a, b); }
    if b < a { lemma_leaders_mono(al, b, a); }
}
/// path compression up to group n
spec fn compressed(al: Seq<u32>, b: Seq<u32>, n: int) -> bool {
    b.len() == al.len() && forall|g: int| 0 <= g < al.len() ==> #[trigger] b[g] == if g < n { rep(al, g) } else { al[g] as int }
}
proof fn lemma_compressed(al: Seq<u32>, b: Seq<u32>, n: int, g: int)
    requires al_ok(al), compressed(al, b, n), 0 <= g < al.len(),
    ensures al_ok(b), rep(b, g) == rep(al, g),
    decreases g,
{
    assert forall|h: int| 0 <= h < b.len() implies #[trigger] b[h] <= h by { lemma_rep(al, h); }
    lemma_rep(al, g);
    if b[g] < g {
        lemma_compressed(al, b, n, b[g] as int);
    }
}
// ---- counting and laying out
/// number of vertices below n in final subgraph g
spec fn cnt(fg: Seq<u32>, n: int, g: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { cnt(fg, n - 1, g) + (if fg[n - 1] == g { 1int } else { 0 }) }
}
proof fn lemma_cnt(fg: Seq<u32>, a: int, b: int, g: int)
    requires 0 <= a <= b,
    ensures 0 <= cnt(fg, a, g) <= cnt(fg, b, g) <= b, a < b && fg[a] == g ==> cnt(fg, a, g) < cnt(fg, b, g),
    decreases b,
{
    if a < b { lemma_cnt(fg, a, b - 1, g); } else if b > 0 { lemma_cnt(fg, b - 1, b - 1, g); }
}
proof fn lemma_cnt_nth(fg: Seq<u32>, n: int, g: int, x: int) -> (v: int)
    requires 0 <= x < cnt(fg, n, g),
    ensures 0 <= v < n, fg[v] == g, cnt(fg, v, g) == x,
    decreases n,
{
    if n <= 0 { 0 } else if x < cnt(fg, n - 1, g) { lemma_cnt_nth(fg, n - 1, g, x) } else { n - 1 }
}
/// number of vertices below n in a subgraph below g
spec fn total(fg: Seq<u32>, n: int, g: int) -> int
    decreases g,
{
    if g <= 0 { 0 } else { total(fg, n, g - 1) + cnt(fg, n, g - 1) }
}
proof fn lemma_total(fg: Seq<u32>, n: int, g: int)
    requires 0 <= n, 0 <= g,
    ensures 0 <= total(fg, n, g) <= n,
    decreases n,
{
    if n > 0 { lemma_total(fg, n - 1, g); }
    lemma_total_step(fg, n, g);
}
proof fn lemma_total_step(fg: Seq<u32>, n: int, g: int)
    requires 0 <= n, 0 <= g,
    ensures
        n > 0 ==> total(fg, n, g) == total(fg, n - 1, g) + (if fg[n - 1] < g { 1int } else { 0 }),
        n == 0 ==> total(fg, n, g) == 0,
    decreases g,
{
    if g > 0 { lemma_total_step(fg, n, g - 1); }
}
proof fn lemma_total_mono(fg: Seq<u32>, n: int, a: int, b: int)
    requires 0 <= a <= b, 0 <= n,
    ensures total(fg, n, a) <= total(fg, n, b), a < b ==> total(fg, n, a) + cnt(fg, n, a) <= total(fg, n, b),
    decreases b,
{
    if a < b { lemma_total_mono(fg, n, a, b - 1); lemma_cnt(fg, 0, n, b - 1); if a < b - 1 { lemma_cnt(fg, 0, n, a); } }
}
/// the slot in which some subgraph x below g lies
proof fn lemma_slot(fg: Seq<u32>, n: int, g: int, p: int) -> (x: int)
    requires 0 <= p < total(fg, n, g), 0 <= n,
    ensures 0 <= x < g, total(fg, n, x) <= p < total(fg, n, x) + cnt(fg, n, x),
    decreases g,
{
    if g <= 0 { 0 } else if p < total(fg, n, g - 1) { lemma_slot(fg, n, g - 1, p) } else { g - 1 }
}
/// where vertex v goes
spec fn place(fg: Seq<u32>, v: int) -> int { total(fg, fg.len() as int, fg[v] as int) + cnt(fg, v, fg[v] as int) }
proof fn lemma_place(fg: Seq<u32>, m: int, v: int)
    requires 0 <= v < fg.len(), fg[v] < m,
    ensures 0 <= total(fg, fg.len() as int, fg[v] as int) <= place(fg, v) < total(fg, fg.len() as int, fg[v] as int) + cnt(fg, fg.len() as int, fg[v] as int) <= total(fg, fg.len() as int, m),
{
    let n = fg.len() as int;
    lemma_total(fg, n, fg[v] as int);
    lemma_total_mono(fg, n, fg[v] as int, m);
    lemma_cnt(fg, v, n, fg[v] as int);
    lemma_cnt(fg, 0, v, fg[v] as int);
}
proof fn lemma_place_inj(fg: Seq<u32>, m: int, v: int, w: int)
    requires 0 <= v < fg.len(), 0 <= w < fg.len(), fg[v] < m, fg[w] < m, v != w,
    ensures place(fg, v) != place(fg, w),
{
    let n = fg.len() as int;
    lemma_place(fg, m, v);
    lemma_place(fg, m, w);
    if fg[v] < fg[w] { lemma_total_mono(fg, n, fg[v] as int, fg[w] as int); }
    if fg[w] < fg[v] { lemma_total_mono(fg, n, fg[w] as int, fg[v] as int); }
    if v < w { lemma_cnt(fg, v, w, fg[v] as int); } else { lemma_cnt(fg, w, v, fg[w] as int); }
}
proof fn lemma_somes_all<T>(s: Seq<Option<T>>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some,
    ensures somes(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] somes(s)[i] == s[i]->0,
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) is Some by { assert(d[i] == s[i]); }
        lemma_somes_all(d);
        assert(s.last() == s[s.len() - 1]);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] somes(s)[i] == s[i]->0 by {
            if i < d.len() { assert(d[i] == s[i]); }
        }
    }
}
#[verifier::opaque]
spec fn fin_ok(es: Seq<(u32, u32)>, fg: Seq<u32>, m: int) -> bool {
    &&& m <= u32::MAX
    &&& forall|v: int| 0 <= v < fg.len() ==> (#[trigger] fg[v] == NO_GRAPH || fg[v] < m)
    &&& forall|v: int| 0 <= v < fg.len() ==> ((#[trigger] fg[v]) != NO_GRAPH <==> touched(es, es.len() as int, v))
    &&& forall|g: int| 0 <= g < m ==> #[trigger] nonempty(fg, g)
    &&& forall|a: int, b: int| 0 <= a < fg.len() && 0 <= b < fg.len() && (#[trigger] fg[a]) != NO_GRAPH && (#[trigger] fg[b]) != NO_GRAPH ==>
            (fg[a] == fg[b] <==> conn(es, es.len() as int, a as u32, b as u32))
}
spec fn final_group(al: Seq<u32>, g: u32) -> int { if g == NO_GRAPH { NO_GRAPH as int } else { leaders(al, rep(al, g as int)) } }
proof fn lemma_final(es: Seq<(u32, u32)>, vg: Seq<u32>, al: Seq<u32>, fg: Seq<u32>)
    requires
        grouping(es, es.len() as int, vg, al),
        vg.len() <= u32::MAX,
        forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).0 < vg.len() && es[i].1 < vg.len(),
        fg.len() == vg.len(),
        forall|v: int| 0 <= v < vg.len() ==> #[trigger] fg[v] == final_group(al, vg[v]),
        leaders(al, al.len() as int) <= u32::MAX,
    ensures
        fin_ok(es, fg, leaders(al, al.len() as int)),
        forall|v: int| 0 <= v < fg.len() ==> (#[trigger] fg[v] == NO_GRAPH || fg[v] < leaders(al, al.len() as int)),
{
    reveal(fin_ok);
    lemma_no_graph();
    reveal(grouping);
    let m = leaders(al, al.len() as int);
    let k = es.len() as int;
    assert forall|v: int| 0 <= v < fg.len() implies (#[trigger] fg[v] == NO_GRAPH || fg[v] < m) && (fg[v] != NO_GRAPH <==> vg[v] != NO_GRAPH) && (fg[v] != NO_GRAPH <==> touched(es, k, v)) by {
        assert(vg[v] == vg[v]);
        if vg[v] != NO_GRAPH {
            lemma_rep(al, vg[v] as int);
            lemma_leaders_mono(al, rep(al, vg[v] as int), al.len() as int);
        }
    }
    assert forall|g: int| 0 <= g < m implies #[trigger] nonempty(fg, g) by {
        let l = lemma_leader_nth(al, al.len() as int, g);
        assert(nonempty(vg, l));
        let v = choose|v: int| 0 <= v < vg.len() && #[trigger] vg[v] == l;
        lemma_free_all(vg, vg.len() as int);
        assert(fg[v] == g);
    }
    assert forall|a: int, b: int| 0 <= a < fg.len() && 0 <= b < fg.len() && (#[trigger] fg[a]) != NO_GRAPH && (#[trigger] fg[b]) != NO_GRAPH implies
            (fg[a] == fg[b] <==> conn(es, k, a as u32, b as u32)) by {
        assert(vg[a] != NO_GRAPH && vg[b] != NO_GRAPH);
        lemma_rep(al, vg[a] as int);
        lemma_rep(al, vg[b] as int);
        if fg[a] == fg[b] {
            lemma_leader_inj(al, rep(al, vg[a] as int), rep(al, vg[b] as int));
            assert(same_group(vg, al, a, b));
        }
        if conn(es, k, a as u32, b as u32) {
            reveal(conn);
            let p = choose|p: Seq<u32>| #[trigger] walk(es, k, p) && p[0] == a && p.last() == b;
            lemma_walk_group(es, k, vg, al, p, p.len() - 1);
        }
    }
}
/// the subgraphs are the connected components
#[verifier::opaque]
spec fn components(es: Seq<(u32, u32)>, nv: int, t: RampTable<u32>) -> bool {
    &&& t.wf()
    &&& t.unowned().len() == 0
    // no subgraph is empty, and each lists its vertices in ascending order
    &&& forall|g: int| 0 <= g < t.nk() ==> (#[trigger] t.ents()[g]).len() > 0
    &&& forall|g: int, i: int, j: int| 0 <= g < t.nk() && 0 <= i < j < t.ents()[g].len() ==> #[trigger] t.ents()[g][i] < #[trigger] t.ents()[g][j]
    // exactly the vertices with an edge occur
    &&& forall|g: int, i: int| 0 <= g < t.nk() && 0 <= i < t.ents()[g].len() ==> (#[trigger] t.ents()[g][i]) < nv && touched(es, es.len() as int, t.ents()[g][i] as int)
    &&& forall|v: int| 0 <= v < nv && touched(es, es.len() as int, v) ==> #[trigger] listed(t, v)
    // in the same subgraph exactly if connected
    &&& forall|g: int, i: int, h: int, j: int| 0 <= g < t.nk() && 0 <= i < t.ents()[g].len() && 0 <= h < t.nk() && 0 <= j < t.ents()[h].len() ==>
            (g == h <==> conn(es, es.len() as int, #[trigger] t.ents()[g][i], #[trigger] t.ents()[h][j]))
}
spec fn listed(t: RampTable<u32>, v: int) -> bool {
    exists|g: int, i: int| 0 <= g < t.nk() && 0 <= i < t.ents()[g].len() && #[trigger] t.ents()[g][i] == v
}
/// at most one place per vertex
proof fn lemma_once(es: Seq<(u32, u32)>, nv: int, t: RampTable<u32>, g: int, i: int, h: int, j: int)
    requires
        components(es, nv, t), 0 <= g < t.nk(), 0 <= i < t.ents()[g].len(), 0 <= h < t.nk(), 0 <= j < t.ents()[h].len(), t.ents()[g][i] == t.ents()[h][j],
    ensures g == h, i == j,
{
    reveal(components);
    lemma_refl(es, es.len() as int, t.ents()[g][i]);
    assert(g == h);
    if i < j { assert(t.ents()[g][i] < t.ents()[g][j]); }
    if j < i { assert(t.ents()[g][j] < t.ents()[g][i]); }
}
/// slot `total(g) + i` holds the i-th vertex of subgraph g
spec fn laid_out(fg: Seq<u32>, m: int, ix: Seq<u32>, vals: Seq<u32>) -> bool {
    &&& ix.len() == m + 1
    &&& forall|g: int| 0 <= g <= m ==> #[trigger] ix[g] == total(fg, fg.len() as int, g)
    &&& vals.len() == ix[m]
    &&& forall|v: int| #![trigger fg[v]] 0 <= v < fg.len() && fg[v] < m ==> vals[ix[fg[v] as int] + cnt(fg, v, fg[v] as int)] == v
}
proof fn lemma_components(es: Seq<(u32, u32)>, fg: Seq<u32>, m: int, t: RampTable<u32>)
    requires fin_ok(es, fg, m), laid_out(fg, m, t.index@, t.values@), fg.len() <= u32::MAX, 0 <= m,
    ensures components(es, fg.len() as int, t),
{
    reveal(fin_ok);
    reveal(components);
    lemma_no_graph();
    let n = fg.len() as int;
    assert forall|a: int, b: int| 0 <= a <= b < t.index@.len() implies t.index@[a] <= t.index@[b] by { lemma_total_mono(fg, n, a, b); }
    assert(t.index@[0] == total(fg, n, 0));
    assert(t.wf());
    // every place holds the vertex of its subgraph with that many below it
    assert forall|g: int, i: int| 0 <= g < m && 0 <= i < t.ents()[g].len() implies {
        let v = (#[trigger] t.ents()[g][i]) as int;
        0 <= v < n && fg[v] == g && cnt(fg, v, g) == i
    } by {
        let v = lemma_cnt_nth(fg, n, g, i);
        assert(fg[v] < m);
        assert(t.index@[g + 1] == total(fg, n, g + 1));
        assert(t.values@[t.index@[g] + i] == v);
    }
    assert forall|g: int| 0 <= g < t.nk() implies (#[trigger] t.ents()[g]).len() > 0 by {
        assert(nonempty(fg, g));
        let v = choose|v: int| 0 <= v < fg.len() && #[trigger] fg[v] == g;
        lemma_cnt(fg, 0, v, g);
        lemma_cnt(fg, v, n, g);
        assert(t.index@[g + 1] == total(fg, n, g + 1));
    }
    assert forall|g: int, i: int, j: int| 0 <= g < t.nk() && 0 <= i < j < t.ents()[g].len() implies #[trigger] t.ents()[g][i] < #[trigger] t.ents()[g][j] by {
        let (a, b) = (t.ents()[g][i] as int, t.ents()[g][j] as int);
        if b <= a { lemma_cnt(fg, b, a, g); }
    }
    assert forall|g: int, i: int| 0 <= g < t.nk() && 0 <= i < t.ents()[g].len() implies (#[trigger] t.ents()[g][i]) < n && touched(es, es.len() as int, t.ents()[g][i] as int) by {
        assert(fg[t.ents()[g][i] as int] == g);
    }
    assert forall|v: int| 0 <= v < n && touched(es, es.len() as int, v) implies #[trigger] listed(t, v) by {
        let g = fg[v] as int;
        lemma_cnt(fg, v, n, g);
        lemma_cnt(fg, 0, v, g);
        assert(t.index@[g + 1] == total(fg, n, g + 1));
        lemma_total_mono(fg, n, g + 1, m);
        assert(t.ents()[g][cnt(fg, v, g)] == v);
    }
    assert forall|g: int, i: int, h: int, j: int| 0 <= g < t.nk() && 0 <= i < t.ents()[g].len() && 0 <= h < t.nk() && 0 <= j < t.ents()[h].len() implies
            (g == h <==> conn(es, es.len() as int, #[trigger] t.ents()[g][i], #[trigger] t.ents()[h][j])) by {
        let (a, b) = (t.ents()[g][i] as int, t.ents()[h][j] as int);
        assert(fg[a] == g && fg[b] == h);
    }
}
%%% fn find_leader
%% contract
    requires al_ok(graph_alias@), g < graph_alias@.len(),
    ensures r == rep(graph_alias@, g as int), r <= g,
%% loop 0
    invariant
        al_ok(graph_alias@), leader < graph_alias@.len(), leader <= g, rep(graph_alias@, leader as int) == rep(graph_alias@, g as int),
    decreases leader,
%%% fn find_disjoint_subgraphs
%% opt isolate
%% opt subst . some_into_vec () => . some_into_vec () . v_plain ()
%% contract
    requires graph.wf(), graph.targets_ok(),
    ensures exists|es: Seq<(u32, u32)>| graph.edges_ok(es, graph.nv()) && components(es, graph.nv(), r.subgraphs),
%% loop 0
    invariant
        NO_GRAPH == u32::MAX, !0u32 == u32::MAX,
        v_graph@.len() <= u32::MAX,
        forall|i: int| 0 <= i < vs0.len() ==> (#[trigger] vs0[i]).0 < v_graph@.len() && vs0[i].1 < v_graph@.len(),
        NO_GRAPH == u32::MAX, !0u32 == u32::MAX,
        v_graph@.len() <= u32::MAX,
        forall|i: int| 0 <= i < vs0.len() ==> (#[trigger] vs0[i]).0 < v_graph@.len() && vs0[i].1 < v_graph@.len(),
        grouping(vs0, vk0, v_graph@, graph_alias@),
        v_graph@.len() == graph.nv(),
%% at body.start
    hide(RampTable::wf);
    hide(Graph::edges_ok);
    hide(Graph::targets_ok);
    hide(touched);
    proof { lemma_no_graph(); }
%% at loop0.before
    proof {
        lemma_no_graph();
        lemma_group_start(vit0@, v_graph@, graph_alias@);
        assert forall|i: int| 0 <= i < vit0@.len() implies (#[trigger] vit0@[i]).0 < v_graph@.len() && vit0@[i].1 < v_graph@.len() by { lemma_edge_ent(graph, vit0@, i); }
    }
%% at loop0.start
    let ghost (vg0, al0) = (v_graph@, graph_alias@);
    assert(vs0[vk0 - 1] == (from, to));
    proof { lemma_group_facts(vs0, vk0 - 1, vg0, al0); }
%% at loop0.end
    proof {
        let k = vk0 - 1;
        let (f, t) = (from as int, to as int);
        if vg0[f] == NO_GRAPH && vg0[t] == NO_GRAPH {
            lemma_step_new(vs0, k, vg0, al0);
        } else if vg0[f] == NO_GRAPH {
            lemma_step_join(vs0, k, vg0, al0, f, t);
        } else if vg0[t] == NO_GRAPH {
            lemma_step_join(vs0, k, vg0, al0, t, f);
        } else {
            let (x, y) = (rep(al0, vg0[f] as int), rep(al0, vg0[t] as int));
            lemma_rep(al0, vg0[f] as int);
            lemma_rep(al0, vg0[t] as int);
            assert(v_graph@ == vg0);
            if x == y { assert(graph_alias@ =~= al0); }
            else if x < y { assert(graph_alias@ =~= al0.update(y, x as u32)); }
            else { assert(graph_alias@ =~= al0.update(x, y as u32)); }
            lemma_step_merge(vs0, k, vg0, al0, graph_alias@);
        }
    }
%% at loop0.after
    let ghost (gvg, gal) = (v_graph@, graph_alias@);
    proof {
        assert(vk0 == vs0.len());
        lemma_group_facts(vs0, vk0, gvg, gal);
        assert(compressed(gal, gal, 0));
    }
%% loop 1
    invariant
        NO_GRAPH == u32::MAX, !0u32 == u32::MAX,
        al_ok(gal), gal.len() <= u32::MAX, vs1.len() == gal.len(), forall|i: int| 0 <= i < vs1.len() ==> #[trigger] vs1[i] == i,
        compressed(gal, graph_alias@, vk1),
        remap@.len() == gal.len(),
        num_subgraphs == leaders(gal, vk1),
        num_subgraphs <= vk1,
        forall|j: int| 0 <= j < vk1 && rep(gal, j) == j ==> #[trigger] remap@[j] == leaders(gal, j),
%% at loop1.start
    proof {
        lemma_leaders_mono(gal, vk1 - 1, vk1);
    }
%% at loop2.before
    proof {
        lemma_compressed(gal, graph_alias@, vk1 - 1, i as int);
    }
%% loop 2
    invariant
        NO_GRAPH == u32::MAX, !0u32 == u32::MAX,
        compressed(gal, graph_alias@, vk1 - 1), al_ok(graph_alias@), al_ok(gal), i < gal.len(), i == vk1 - 1,
        leader <= i, rep(gal, leader as int) == rep(gal, i as int),
    ensures
        leader == rep(gal, i as int),
    decreases leader,
%% at loop2.start
    proof {
        lemma_compressed(gal, graph_alias@, vk1 - 1, leader as int);
        lemma_compressed(gal, graph_alias@, vk1 - 1, graph_alias@[leader as int] as int);
    }
%% at loop1.after
    let ghost m = num_subgraphs as int;
    proof { assert(vk1 == gal.len()); }
%% loop 3
    invariant
        NO_GRAPH == u32::MAX, !0u32 == u32::MAX,
        al_ok(gal), compressed(gal, graph_alias@, gal.len() as int), remap@.len() == gal.len(), gal.len() <= u32::MAX,
        forall|j: int| 0 <= j < gal.len() && rep(gal, j) == j ==> #[trigger] remap@[j] == leaders(gal, j),
        forall|v: int| 0 <= v < gvg.len() ==> (#[trigger] gvg[v] == NO_GRAPH || gvg[v] < gal.len()),
        vs3.len() == gvg.len(), forall|i: int| 0 <= i < vs3.len() ==> #[trigger] vs3[i] == i,
        v_graph@.len() == gvg.len(),
        forall|v: int| 0 <= v < vk3 ==> #[trigger] v_graph@[v] == final_group(gal, gvg[v]),
        forall|v: int| vk3 <= v < gvg.len() ==> #[trigger] v_graph@[v] == gvg[v],
%% at loop3.start
    proof {
        let x = gvg[vk3 - 1];
        assert(v_graph@[vk3 - 1] == x);
        if x != NO_GRAPH {
            lemma_rep(gal, x as int);
            lemma_leaders_mono(gal, rep(gal, x as int), gal.len() as int);
        }
    }
%% at loop3.after
    let ghost fg = v_graph@;
    let ghost n = fg.len() as int;
    proof { lemma_final(vs0, gvg, gal, fg); }
%% loop 4
    invariant
        NO_GRAPH == u32::MAX, !0u32 == u32::MAX,
        m <= u32::MAX, fg.len() == n, n <= u32::MAX, num_subgraphs == m,
        forall|v: int| 0 <= v < fg.len() ==> (#[trigger] fg[v] == NO_GRAPH || fg[v] < m),
        vs4.len() == n, forall|i: int| 0 <= i < vs4.len() ==> *(#[trigger] vs4[i]) == fg[i],
        verts_per_subgraph@.len() == m,
        forall|g: int| 0 <= g < m ==> #[trigger] verts_per_subgraph@[g] == cnt(fg, vk4, g),
%% at loop4.start
    proof {
        assert(vs4[vk4 - 1] == fg[vk4 - 1]);
        assert forall|g: int| 0 <= g < m implies cnt(fg, vk4 - 1, g) < u32::MAX && #[trigger] verts_per_subgraph@[g] == cnt(fg, vk4 - 1, g) && cnt(fg, vk4, g) == cnt(fg, vk4 - 1, g) + (if fg[vk4 - 1] == g { 1int } else { 0 }) by { lemma_cnt(fg, 0, vk4 - 1, g); }
    }
%% loop 6
    invariant
        NO_GRAPH == u32::MAX, !0u32 == u32::MAX,
        m <= u32::MAX, fg.len() == n, n <= u32::MAX, num_subgraphs == m,
        forall|v: int| 0 <= v < fg.len() ==> (#[trigger] fg[v] == NO_GRAPH || fg[v] < m),
        vs6.len() == n, forall|i: int| 0 <= i < vs6.len() ==> *(#[trigger] vs6[i]) == fg[i],
        verts_per_subgraph@.len() == m,
        forall|g: int| 0 <= g < m ==> #[trigger] verts_per_subgraph@[g] == cnt(fg, vk6, g),
%% at loop6.start
    proof {
        assert(vs6[vk6 - 1] == fg[vk6 - 1]);
        assert forall|g: int| 0 <= g < m implies cnt(fg, vk6 - 1, g) < u32::MAX && #[trigger] verts_per_subgraph@[g] == cnt(fg, vk6 - 1, g) && cnt(fg, vk6, g) == cnt(fg, vk6 - 1, g) + (if fg[vk6 - 1] == g { 1int } else { 0 }) by { lemma_cnt(fg, 0, vk6 - 1, g); }
    }
%% loop 7
    invariant
        NO_GRAPH == u32::MAX, !0u32 == u32::MAX,
        m <= u32::MAX, fg.len() == n, n <= u32::MAX, num_subgraphs == m,
        vs7.len() == m, forall|i: int| 0 <= i < vs7.len() ==> *(#[trigger] vs7[i]) == cnt(fg, n, i),
        output_index@.len() == vk7,
        sum == total(fg, n, vk7),
        forall|g: int| 0 <= g < vk7 ==> #[trigger] output_index@[g] == total(fg, n, g),
%% at loop7.start
    proof {
        assert(vs7[vk7 - 1] == cnt(fg, n, vk7 - 1));
        lemma_total(fg, n, vk7);
    }
%% loop 9
    invariant
        m <= u32::MAX, fg.len() == n, n <= u32::MAX, num_subgraphs == m,
        vs9.len() == m, forall|i: int| 0 <= i < vs9.len() ==> #[trigger] vs9[i] == i,
        output_index@.len() == m + 1, output_pos@.len() == m + 1,
        forall|g: int| 0 <= g <= m ==> #[trigger] output_index@[g] == total(fg, n, g),
        forall|g: int| 0 <= g < m ==> #[trigger] output_pos@[g] == total(fg, n, g) + cnt(fg, n, g),
%% loop 8
    invariant
        NO_GRAPH == u32::MAX, !0u32 == u32::MAX,
        m <= u32::MAX, fg.len() == n, n <= u32::MAX, num_subgraphs == m,
        forall|v: int| 0 <= v < fg.len() ==> (#[trigger] fg[v] == NO_GRAPH || fg[v] < m),
        vs8.len() == n, forall|i: int| 0 <= i < vs8.len() ==> (#[trigger] vs8[i]).0 == i && *vs8[i].1 == fg[i],
        sum == total(fg, n, m),
        output_pos@.len() == m + 1,
        forall|g: int| 0 <= g < m ==> #[trigger] output_pos@[g] == total(fg, n, g) + cnt(fg, vk8, g),
        output_values.wf(),
        output_values@.len() == sum,
        forall|w: int| #![trigger fg[w]] 0 <= w < vk8 && fg[w] < m ==> 0 <= place(fg, w) < sum && output_values@[place(fg, w)] == Some(w as u32),
%% at loop8.start
    let ghost (pos0, vals0) = (output_pos@, output_values@);
    proof {
        assert(v == vk8 - 1 && graph == fg[vk8 - 1]);
        if graph != NO_GRAPH {
            assert(pos0[graph as int] == pos0[graph as int]);
            lemma_place(fg, m, vk8 - 1);
            lemma_total(fg, n, m);
        }
    }
%% at loop8.end
    proof {
        if graph != NO_GRAPH {
            assert forall|w: int| #![trigger fg[w]] 0 <= w < vk8 - 1 && fg[w] < m implies place(fg, w) != place(fg, vk8 - 1) by { lemma_place_inj(fg, m, w, vk8 - 1); }
        }
        assert forall|g: int| 0 <= g < m implies #[trigger] output_pos@[g] == total(fg, n, g) + cnt(fg, vk8, g) by {
            assert(pos0[g] == total(fg, n, g) + cnt(fg, vk8 - 1, g));
        }
    }
%% at loop8.after
    proof {
        assert forall|p: int| 0 <= p < sum implies (#[trigger] output_values@[p]) is Some && output_values@[p]->0 < n by {
            let g = lemma_slot(fg, n, m, p);
            let v = lemma_cnt_nth(fg, n, g, p - total(fg, n, g));
            assert(fg[v] < m);
            assert(place(fg, v) == p);
        }
        lemma_somes_all(output_values@);
    }
%% closure 0
|__c0_0: &u32| -> (o: bool)
    ensures o == (*__c0_0 != !0u32),
%% at body.result
    proof {
        lemma_components(vs0, fg, m, res.subgraphs);
    }
%% at after let:g_high#0
    assert(leader_from == rep(al0, vg0[from as int] as int));
    assert(leader_to == rep(al0, vg0[to as int] as int));
    assert(g_low == if leader_from <= leader_to { leader_from } else { leader_to });
    assert(g_high == if leader_from <= leader_to { leader_to } else { leader_from });
