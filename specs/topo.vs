%%% file trellis/src/topo_sort.rs
%%% text
// ---- the search: st is the stack of (vertex, number of edges already examined)
spec fn on_stack(st: Seq<(u32, int)>, w: int) -> bool { exists|i: int| 0 <= i < st.len() && (#[trigger] st[i]).0 == w }
spec fn frames_ok(g: &Graph, st: Seq<(u32, int)>) -> bool {
    &&& forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]).0 < g.nv() && 0 <= st[i].1 <= ent(g, st[i].0 as int).len()
    &&& forall|i: int| 0 <= i < st.len() - 1 ==> (#[trigger] st[i]).1 > 0 && ent(g, st[i].0 as int)[st[i].1 - 1] == st[i + 1].0
    &&& forall|i: int, j: int| 0 <= i < j < st.len() ==> (#[trigger] st[i]).0 != (#[trigger] st[j]).0
}
spec fn closed(g: &Graph, ord: Seq<u32>) -> bool {
    forall|i: int, j: int| 0 <= i < ord.len() && 0 <= j < ent(g, ord[i] as int).len() ==> before(ord, i, #[trigger] ent(g, ord[i] as int)[j] as int)
}
spec fn inw_ok(g: &Graph, st: Seq<(u32, int)>, inw: Seq<bool>) -> bool { forall|w: int| 0 <= w < g.nv() ==> #[trigger] inw[w] == on_stack(st, w) }
/// the edges already examined lead to finished vertices (or to the next vertex of the stack)
spec fn consumed(g: &Graph, st: Seq<(u32, int)>, vis: Seq<bool>) -> bool {
    forall|i: int, j: int| 0 <= i < st.len() && 0 <= j < (if i == st.len() - 1 { st[i].1 } else { st[i].1 - 1 }) ==> vis[#[trigger] ent(g, st[i].0 as int)[j] as int]
}
#[verifier::opaque]
spec fn dfs(g: &Graph, st: Seq<(u32, int)>, inw: Seq<bool>, vis: Seq<bool>, ord: Seq<u32>) -> bool {
    &&& inw.len() == g.nv() && vis.len() == g.nv()
    &&& frames_ok(g, st)
    &&& inw_ok(g, st, inw)
    &&& forall|w: int| 0 <= w < g.nv() ==> #[trigger] vis[w] == before(ord, ord.len() as int, w)
    &&& forall|w: int| 0 <= w < g.nv() ==> !(#[trigger] inw[w] && vis[w])
    &&& ord.no_duplicates()
    &&& forall|i: int| 0 <= i < ord.len() ==> #[trigger] ord[i] < g.nv() && incident(g, ord[i] as int)
    &&& forall|i: int| 0 <= i < st.len() ==> incident(g, (#[trigger] st[i]).0 as int)
    &&& closed(g, ord)
    &&& consumed(g, st, vis)
}

/// vertices not yet met
spec fn white(inw: Seq<bool>, vis: Seq<bool>, n: int) -> nat
    decreases n,
{
    if n <= 0 { 0 } else { white(inw, vis, n - 1) + (if !inw[n - 1] && !vis[n - 1] { 1nat } else { 0nat }) }
}
/// work left on the stack
spec fn left(g: &Graph, st: Seq<(u32, int)>) -> nat
    decreases st.len(),
{
    if st.len() == 0 { 0 } else { left(g, st.drop_last()) + (ent(g, st.last().0 as int).len() - st.last().1) as nat + 1 }
}
proof fn lemma_white_same(a: Seq<bool>, b: Seq<bool>, c: Seq<bool>, d: Seq<bool>, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] a[i] || b[i]) == (c[i] || d[i]),
    ensures white(a, b, n) == white(c, d, n),
    decreases n,
{
    if n > 0 {
        assert((a[n - 1] || b[n - 1]) == (c[n - 1] || d[n - 1]));
        lemma_white_same(a, b, c, d, n - 1);
    }
}
proof fn lemma_white_less(inw: Seq<bool>, vis: Seq<bool>, n: int, w: int)
    requires 0 <= w < n <= inw.len(), !inw[w], !vis[w], vis.len() >= n,
    ensures white(inw.update(w, true), vis, n) == white(inw, vis, n) - 1,
    decreases n,
{
    if n - 1 == w {
        assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] inw.update(w, true)[i] || vis[i]) == (inw[i] || vis[i]) by {}
        lemma_white_same(inw.update(w, true), vis, inw, vis, n - 1);
    } else {
        lemma_white_less(inw, vis, n - 1, w);
    }
}
proof fn lemma_incident(g: &Graph, v: int, x: int)
    requires is_edge(g, v, x),
    ensures incident(g, x), incident(g, v),
{
}
proof fn lemma_dfs_facts(g: &Graph, st: Seq<(u32, int)>, inw: Seq<bool>, vis: Seq<bool>, ord: Seq<u32>)
    requires dfs(g, st, inw, vis, ord),
    ensures
        inw.len() == g.nv(), vis.len() == g.nv(),
        forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]).0 < g.nv() && 0 <= st[i].1 <= ent(g, st[i].0 as int).len() && inw[st[i].0 as int] && !vis[st[i].0 as int],
        st.len() == 0 ==> forall|w: int| 0 <= w < g.nv() ==> !#[trigger] inw[w],
        forall|i: int| 0 <= i < ord.len() ==> #[trigger] ord[i] < g.nv(),
{
    reveal(dfs);
    assert forall|i: int| 0 <= i < st.len() implies (#[trigger] st[i]).0 < g.nv() && 0 <= st[i].1 <= ent(g, st[i].0 as int).len() && inw[st[i].0 as int] && !vis[st[i].0 as int] by {
        assert(inw[st[i].0 as int] == on_stack(st, st[i].0 as int));
        assert(!(inw[st[i].0 as int] && vis[st[i].0 as int]));
    }
    if st.len() == 0 { assert forall|w: int| 0 <= w < g.nv() implies !#[trigger] inw[w] by { assert(inw[w] == on_stack(st, w)); } }
}
proof fn lemma_dfs_init(g: &Graph, f: Seq<bool>)
    requires gok(g), f.len() == g.nv(), forall|w: int| 0 <= w < g.nv() ==> !#[trigger] f[w],
    ensures dfs(g, Seq::empty(), f, f, Seq::empty()),
{
    reveal(dfs);
}
/// a vertex is put on the empty stack
proof fn lemma_start(g: &Graph, s: int, inw: Seq<bool>, vis: Seq<bool>, ord: Seq<u32>)
    requires gok(g), dfs(g, Seq::empty(), inw, vis, ord), 0 <= s < g.nv(), !vis[s], ent(g, s).len() > 0,
    ensures dfs(g, seq![(s as u32, 0int)], inw.update(s, true), vis, ord), !inw[s],
{
    hide(closed); hide(before); hide(left); hide(is_edge);
    reveal(dfs);
    let st = seq![(s as u32, 0int)];
    lemma_target(g, s, 0);
    lemma_incident(g, s, ent(g, s)[0] as int);
    assert forall|w: int| 0 <= w < g.nv() implies #[trigger] inw.update(s, true)[w] == on_stack(st, w) by {
        if w == s { assert(st[0].0 == w); }
        assert(inw[w] == on_stack(Seq::empty(), w));
    }
    assert(st.drop_last() =~= Seq::empty());
}
/// an edge to a finished vertex is passed over
proof fn lemma_skip(g: &Graph, st: Seq<(u32, int)>, inw: Seq<bool>, vis: Seq<bool>, ord: Seq<u32>)
    requires
        gok(g), dfs(g, st, inw, vis, ord), st.len() > 0, st.last().1 < ent(g, st.last().0 as int).len(),
        vis[ent(g, st.last().0 as int)[st.last().1] as int],
    ensures ({
        let s2 = st.update(st.len() - 1, (st.last().0, st.last().1 + 1));
        dfs(g, s2, inw, vis, ord) && left(g, s2) < left(g, st)
    }),
{
    hide(closed); hide(before); hide(white); hide(is_edge); hide(incident);
    reveal(dfs);
    let n = st.len() - 1;
    let s2 = st.update(n, (st.last().0, st.last().1 + 1));
    assert(s2.drop_last() =~= st.drop_last());
    assert forall|w: int| 0 <= w < g.nv() implies #[trigger] inw[w] == on_stack(s2, w) by {
        assert(on_stack(st, w) ==> on_stack(s2, w)) by {
            if on_stack(st, w) { let i = choose|i: int| 0 <= i < st.len() && (#[trigger] st[i]).0 == w; assert(s2[i].0 == w); }
        }
        assert(on_stack(s2, w) ==> on_stack(st, w)) by {
            if on_stack(s2, w) { let i = choose|i: int| 0 <= i < s2.len() && (#[trigger] s2[i]).0 == w; assert(st[i].0 == w); }
        }
    }
    assert forall|i: int| 0 <= i < s2.len() implies incident(g, (#[trigger] s2[i]).0 as int) by { assert(st[i].0 == s2[i].0); }
    assert forall|i: int| 0 <= i < s2.len() implies (#[trigger] s2[i]).0 < g.nv() && 0 <= s2[i].1 <= ent(g, s2[i].0 as int).len() by { assert(st[i].0 == s2[i].0); }
    assert forall|i: int| 0 <= i < s2.len() - 1 implies (#[trigger] s2[i]).1 > 0 && ent(g, s2[i].0 as int)[s2[i].1 - 1] == s2[i + 1].0 by { assert(st[i] == s2[i]); assert(st[i + 1].0 == s2[i + 1].0); }
    assert forall|i: int, j: int| 0 <= i < s2.len() && 0 <= j < (if i == s2.len() - 1 { s2[i].1 } else { s2[i].1 - 1 }) implies vis[#[trigger] ent(g, s2[i].0 as int)[j] as int] by {
        assert(st[i].0 == s2[i].0);
        if i == n && j == st[n].1 {} else { assert(vis[ent(g, st[i].0 as int)[j] as int]); }
    }
}
spec fn grown(st: Seq<(u32, int)>, x: u32) -> Seq<(u32, int)> { st.update(st.len() - 1, (st.last().0, st.last().1 + 1)).push((x, 0int)) }
proof fn lemma_grown_frames(g: &Graph, st: Seq<(u32, int)>, x: u32)
    requires
        frames_ok(g, st), st.len() > 0, st.last().1 < ent(g, st.last().0 as int).len(), x == ent(g, st.last().0 as int)[st.last().1],
        !on_stack(st, x as int), x < g.nv(),
    ensures frames_ok(g, grown(st, x)),
{
    let n = st.len() - 1;
    let s2 = grown(st, x);
    assert forall|i: int| 0 <= i < s2.len() implies (#[trigger] s2[i]).0 < g.nv() && 0 <= s2[i].1 <= ent(g, s2[i].0 as int).len() by { if i <= n { assert(st[i].0 == s2[i].0); } }
    assert forall|i: int| 0 <= i < s2.len() - 1 implies (#[trigger] s2[i]).1 > 0 && ent(g, s2[i].0 as int)[s2[i].1 - 1] == s2[i + 1].0 by { if i < n { assert(st[i] == s2[i]); assert(st[i + 1].0 == s2[i + 1].0); } }
    assert forall|i: int, j: int| 0 <= i < j < s2.len() implies (#[trigger] s2[i]).0 != (#[trigger] s2[j]).0 by {
        assert(st[i].0 == s2[i].0);
        if j <= n { assert(st[j].0 == s2[j].0); }
    }
}
proof fn lemma_grown_inw(g: &Graph, st: Seq<(u32, int)>, x: u32, inw: Seq<bool>)
    requires inw_ok(g, st, inw), st.len() > 0, x < g.nv(), inw.len() == g.nv(),
    ensures inw_ok(g, grown(st, x), inw.update(x as int, true)),
{
    let n = st.len() - 1;
    let s2 = grown(st, x);
    let inw2 = inw.update(x as int, true);
    assert forall|w: int| 0 <= w < g.nv() implies #[trigger] inw2[w] == on_stack(s2, w) by {
        assert(inw[w] == on_stack(st, w));
        if on_stack(st, w) { let i = choose|i: int| 0 <= i < st.len() && (#[trigger] st[i]).0 == w; assert(s2[i].0 == w); }
        if w == x { assert(s2[n + 1].0 == w); }
        if on_stack(s2, w) && w != x { let i = choose|i: int| 0 <= i < s2.len() && (#[trigger] s2[i]).0 == w; assert(st[i].0 == w); }
    }
}
proof fn lemma_grown_consumed(g: &Graph, st: Seq<(u32, int)>, x: u32, vis: Seq<bool>)
    requires consumed(g, st, vis), st.len() > 0,
    ensures consumed(g, grown(st, x), vis),
{
    let n = st.len() - 1;
    let s2 = grown(st, x);
    assert forall|i: int, j: int| 0 <= i < s2.len() && 0 <= j < (if i == s2.len() - 1 { s2[i].1 } else { s2[i].1 - 1 }) implies vis[#[trigger] ent(g, s2[i].0 as int)[j] as int] by {
        if i <= n { assert(st[i].0 == s2[i].0); assert(vis[ent(g, st[i].0 as int)[j] as int]); }
    }
}
/// an edge to an unmet vertex is followed
proof fn lemma_descend(g: &Graph, st: Seq<(u32, int)>, inw: Seq<bool>, vis: Seq<bool>, ord: Seq<u32>)
    requires
        gok(g), dfs(g, st, inw, vis, ord), st.len() > 0, st.last().1 < ent(g, st.last().0 as int).len(),
        !vis[ent(g, st.last().0 as int)[st.last().1] as int],
        !inw[ent(g, st.last().0 as int)[st.last().1] as int],
    ensures ({
        let w = ent(g, st.last().0 as int)[st.last().1];
        let s2 = grown(st, w);
        &&& w < g.nv()
        &&& dfs(g, s2, inw.update(w as int, true), vis, ord)
        &&& white(inw.update(w as int, true), vis, g.nv()) < white(inw, vis, g.nv())
    }),
{
    hide(closed); hide(before); hide(left); hide(is_edge); hide(incident); hide(frames_ok); hide(inw_ok); hide(consumed); hide(on_stack); hide(white);
    reveal(dfs);
    let n = st.len() - 1;
    let v = st.last().0 as int;
    let x = ent(g, v)[st.last().1];
    lemma_dfs_facts(g, st, inw, vis, ord);
    assert(st[n].0 == v);
    lemma_target(g, v, st.last().1);
    lemma_white_less(inw, vis, g.nv(), x as int);
    let s2 = grown(st, x);
    let inw2 = inw.update(x as int, true);
    lemma_inw(g, st, inw, x as int);
    lemma_grown_frames(g, st, x);
    lemma_grown_inw(g, st, x, inw);
    lemma_grown_consumed(g, st, x, vis);
    lemma_incident(g, v, x as int);
    assert forall|i: int| 0 <= i < s2.len() implies incident(g, (#[trigger] s2[i]).0 as int) by { if i <= n { assert(st[i].0 == s2[i].0); } }
    assert forall|w: int| 0 <= w < g.nv() implies !(#[trigger] inw2[w] && vis[w]) by { assert(!(inw[w] && vis[w])); }
}
proof fn lemma_inw(g: &Graph, st: Seq<(u32, int)>, inw: Seq<bool>, w: int)
    requires inw_ok(g, st, inw), 0 <= w < g.nv(),
    ensures inw[w] == on_stack(st, w),
{
}
proof fn lemma_link(g: &Graph, st: Seq<(u32, int)>, i: int)
    requires gok(g), frames_ok(g, st), 0 <= i < st.len() - 1,
    ensures is_edge(g, st[i].0 as int, st[i + 1].0 as int),
{
    hide(is_edge);
    assert(st[i].1 > 0);
    lemma_target(g, st[i].0 as int, st[i].1 - 1);
}
/// the part of the stack above x, closed by the edge back to x
proof fn lemma_stack_cycle(g: &Graph, st: Seq<(u32, int)>, a: int, x: u32)
    requires
        gok(g), frames_ok(g, st), 0 <= a < st.len(), st[a].0 == x, is_edge(g, st.last().0 as int, x as int),
    ensures cyclic(g),
{
    hide(is_edge); hide(frames_ok); hide(gok);
    let n = st.len() - 1;
    let p = Seq::new((st.len() - a) as nat, |i: int| st[a + i].0).push(x);
    assert forall|i: int| 0 <= i < p.len() - 1 implies is_edge(g, #[trigger] p[i] as int, p[i + 1] as int) by {
        if a + i < n {
            lemma_link(g, st, a + i);
            assert(p[i + 1] == st[a + i + 1].0);
        }
    }
    assert(is_cycle(g, p));
}
/// an edge back to a vertex of the stack closes a cycle
proof fn lemma_found_cycle(g: &Graph, st: Seq<(u32, int)>, inw: Seq<bool>, vis: Seq<bool>, ord: Seq<u32>)
    requires
        gok(g), dfs(g, st, inw, vis, ord), st.len() > 0, st.last().1 < ent(g, st.last().0 as int).len(),
        inw[ent(g, st.last().0 as int)[st.last().1] as int],
    ensures cyclic(g),
{
    hide(closed); hide(before); hide(left); hide(is_edge); hide(incident); hide(frames_ok); hide(inw_ok); hide(consumed); hide(white);
    reveal(dfs);
    let n = st.len() - 1;
    let v = st.last().0 as int;
    let x = ent(g, v)[st.last().1];
    lemma_dfs_facts(g, st, inw, vis, ord);
    assert(st[n].0 == v);
    lemma_target(g, v, st.last().1);
    lemma_inw(g, st, inw, x as int);
    let a = choose|i: int| 0 <= i < st.len() && (#[trigger] st[i]).0 == x;
    lemma_stack_cycle(g, st, a, x);
}
proof fn lemma_before_push(ord: Seq<u32>, v: u32, i: int, w: int)
    requires 0 <= i <= ord.len(), before(ord, i, w),
    ensures before(ord.push(v), i, w),
{
    let k = choose|k: int| 0 <= k < i && #[trigger] ord[k] == w;
    assert(ord.push(v)[k] == w);
}
proof fn lemma_closed_push(g: &Graph, ord: Seq<u32>, v: u32)
    requires
        closed(g, ord),
        forall|j: int| 0 <= j < ent(g, v as int).len() ==> before(ord, ord.len() as int, #[trigger] ent(g, v as int)[j] as int),
    ensures closed(g, ord.push(v)),
{
    let o2 = ord.push(v);
    assert forall|i: int, j: int| 0 <= i < o2.len() && 0 <= j < ent(g, o2[i] as int).len() implies before(o2, i, #[trigger] ent(g, o2[i] as int)[j] as int) by {
        if i < ord.len() {
            assert(ord[i] == o2[i]);
            assert(before(ord, i, ent(g, ord[i] as int)[j] as int));
            lemma_before_push(ord, v, i, ent(g, ord[i] as int)[j] as int);
        } else {
            lemma_before_push(ord, v, i, ent(g, v as int)[j] as int);
        }
    }
}
/// a vertex whose edges are exhausted is finished: the parts of the invariant one by one
proof fn lemma_finish_order(g: &Graph, st: Seq<(u32, int)>, inw: Seq<bool>, vis: Seq<bool>, ord: Seq<u32>)
    requires
        gok(g), dfs(g, st, inw, vis, ord), st.len() > 0, st.last().1 == ent(g, st.last().0 as int).len(),
    ensures ({
        let v = st.last().0;
        let vis2 = vis.update(v as int, true);
        let o2 = ord.push(v);
        &&& v < g.nv() && inw[v as int] && !vis[v as int]
        &&& forall|w: int| 0 <= w < g.nv() ==> #[trigger] vis2[w] == before(o2, o2.len() as int, w)
        &&& o2.no_duplicates()
        &&& forall|i: int| 0 <= i < o2.len() ==> #[trigger] o2[i] < g.nv() && incident(g, o2[i] as int)
    }),
{
    hide(closed); hide(is_edge); hide(incident);
    reveal(dfs);
    let n = st.len() - 1;
    let v = st.last().0;
    let vis2 = vis.update(v as int, true);
    let o2 = ord.push(v);
    assert(st[n].0 == v);
    assert(inw[v as int] == on_stack(st, v as int));
    assert(vis[v as int] == before(ord, ord.len() as int, v as int));
    assert forall|w: int| 0 <= w < g.nv() implies #[trigger] vis2[w] == before(o2, o2.len() as int, w) by {
        assert(vis[w] == before(ord, ord.len() as int, w));
        if before(ord, ord.len() as int, w) { let k = choose|k: int| 0 <= k < ord.len() && #[trigger] ord[k] == w; assert(o2[k] == w); }
        if w == v { assert(o2[ord.len() as int] == w); }
        if before(o2, o2.len() as int, w) && w != v { let k = choose|k: int| 0 <= k < o2.len() && #[trigger] o2[k] == w; assert(ord[k] == w); }
    }
    assert forall|i: int, j: int| 0 <= i < j < o2.len() implies o2[i] != o2[j] by {
        if j == ord.len() { assert(ord[i] == o2[i]); }
    }
}
proof fn lemma_finish_closed(g: &Graph, st: Seq<(u32, int)>, inw: Seq<bool>, vis: Seq<bool>, ord: Seq<u32>)
    requires
        gok(g), dfs(g, st, inw, vis, ord), st.len() > 0, st.last().1 == ent(g, st.last().0 as int).len(),
    ensures closed(g, ord.push(st.last().0)),
{
    hide(closed);
    reveal(dfs);
    let v = st.last().0;
    let n = st.len() - 1;
    assert(st[n].0 == v);
    assert forall|j: int| 0 <= j < ent(g, v as int).len() implies before(ord, ord.len() as int, #[trigger] ent(g, v as int)[j] as int) by {
        let t = ent(g, v as int)[j];
        lemma_target(g, v as int, j);
        assert(vis[ent(g, st[n].0 as int)[j] as int]);
        assert(vis[t as int] == before(ord, ord.len() as int, t as int));
    }
    lemma_closed_push(g, ord, v);
}
proof fn lemma_finish_stack(g: &Graph, st: Seq<(u32, int)>, inw: Seq<bool>, vis: Seq<bool>, ord: Seq<u32>)
    requires
        gok(g), dfs(g, st, inw, vis, ord), st.len() > 0, st.last().1 == ent(g, st.last().0 as int).len(),
    ensures ({
        let v = st.last().0;
        let s2 = st.drop_last();
        let inw2 = inw.update(v as int, false);
        let vis2 = vis.update(v as int, true);
        &&& frames_ok(g, s2)
        &&& inw_ok(g, s2, inw2)
        &&& forall|i: int| 0 <= i < s2.len() ==> incident(g, (#[trigger] s2[i]).0 as int)
        &&& consumed(g, s2, vis2)
    }),
{
    hide(closed); hide(is_edge); hide(incident);
    reveal(dfs);
    let n = st.len() - 1;
    let v = st.last().0;
    let s2 = st.drop_last();
    let inw2 = inw.update(v as int, false);
    let vis2 = vis.update(v as int, true);
    assert forall|w: int| 0 <= w < g.nv() implies #[trigger] inw2[w] == on_stack(s2, w) by {
        assert(inw[w] == on_stack(st, w));
        if on_stack(s2, w) { let i = choose|i: int| 0 <= i < s2.len() && (#[trigger] s2[i]).0 == w; assert(st[i].0 == w); assert(st[i].0 != st[n].0); }
        if on_stack(st, w) && w != v { let i = choose|i: int| 0 <= i < st.len() && (#[trigger] st[i]).0 == w; assert(s2[i].0 == w); }
    }
    assert forall|i: int| 0 <= i < s2.len() implies incident(g, (#[trigger] s2[i]).0 as int) by { assert(st[i] == s2[i]); }
    assert forall|i: int, j: int| 0 <= i < s2.len() && 0 <= j < (if i == s2.len() - 1 { s2[i].1 } else { s2[i].1 - 1 }) implies vis2[#[trigger] ent(g, s2[i].0 as int)[j] as int] by {
        assert(st[i] == s2[i]);
        lemma_target(g, st[i].0 as int, j);
        if i == n - 1 && j == st[i].1 - 1 { assert(ent(g, st[i].0 as int)[j] == st[i + 1].0); }
        else { assert(vis[ent(g, st[i].0 as int)[j] as int]); }
    }
}
proof fn lemma_finish(g: &Graph, st: Seq<(u32, int)>, inw: Seq<bool>, vis: Seq<bool>, ord: Seq<u32>)
    requires
        gok(g), dfs(g, st, inw, vis, ord), st.len() > 0, st.last().1 == ent(g, st.last().0 as int).len(),
    ensures ({
        let v = st.last().0;
        let s2 = st.drop_last();
        let inw2 = inw.update(v as int, false);
        let vis2 = vis.update(v as int, true);
        &&& dfs(g, s2, inw2, vis2, ord.push(v))
        &&& white(inw2, vis2, g.nv()) == white(inw, vis, g.nv())
        &&& left(g, s2) < left(g, st)
        &&& inw[v as int] && !vis[v as int]
        &&& s2.len() > 0 ==> inw2[s2.last().0 as int] && !vis2[s2.last().0 as int]
    }),
{
    hide(closed); hide(frames_ok); hide(incident); hide(before); hide(on_stack); hide(inw_ok); hide(consumed);
    let v = st.last().0;
    let s2 = st.drop_last();
    let inw2 = inw.update(v as int, false);
    let vis2 = vis.update(v as int, true);
    let o2 = ord.push(v);
    lemma_dfs_facts(g, st, inw, vis, ord);
    lemma_finish_order(g, st, inw, vis, ord);
    lemma_finish_closed(g, st, inw, vis, ord);
    lemma_finish_stack(g, st, inw, vis, ord);
    assert(dfs(g, s2, inw2, vis2, o2)) by {
        reveal(dfs);
        assert forall|w: int| 0 <= w < g.nv() implies !(#[trigger] inw2[w] && vis2[w]) by { assert(!(inw[w] && vis[w])); }
    }
    lemma_white_same(inw2, vis2, inw, vis, g.nv());
    lemma_dfs_facts(g, s2, inw2, vis2, o2);
    if s2.len() > 0 { assert(s2.last() == s2[s2.len() - 1]); }
}
/// the search is over: nothing on the stack, every vertex with edges finished
proof fn lemma_done(g: &Graph, inw: Seq<bool>, vis: Seq<bool>, ord: Seq<u32>)
    requires
        gok(g), dfs(g, Seq::empty(), inw, vis, ord),
        forall|u: int| 0 <= u < g.nv() && ent(g, u).len() > 0 ==> #[trigger] vis[u],
    ensures rev_topo(g, ord), forall|w: int| 0 <= w < g.nv() ==> !#[trigger] inw[w],
{
    reveal(dfs);
    assert forall|w: int| 0 <= w < g.nv() implies !#[trigger] inw[w] by { assert(inw[w] == on_stack(Seq::empty(), w)); }
    assert forall|u: int, w: int| #[trigger] is_edge(g, u, w) implies exists|i: int| 0 <= i < ord.len() && #[trigger] ord[i] == u && before(ord, i, w) by {
        let j = choose|j: int| 0 <= j < ent(g, u).len() && #[trigger] ent(g, u)[j] == w;
        assert(vis[u]);
        assert(before(ord, ord.len() as int, u));
        let i = choose|k: int| 0 <= k < ord.len() && #[trigger] ord[k] == u;
        assert(before(ord, i, ent(g, ord[i] as int)[j] as int));
        assert(ord[i] == u);
    }
}

// ---- the stack of the code
spec fn rest_ok(g: &Graph, v: u32, it: Seq<&u32>) -> bool {
    &&& v < g.nv()
    &&& it.len() <= ent(g, v as int).len()
    &&& forall|j: int| 0 <= j < it.len() ==> *#[trigger] it[j] == ent(g, v as int)[ent(g, v as int).len() - it.len() + j]
}
spec fn fr(g: &Graph, v: u32, it: Seq<&u32>) -> (u32, int) { (v, ent(g, v as int).len() - it.len()) }
spec fn abs(g: &Graph, ws: Seq<(u32, VIter<&u32>)>) -> Seq<(u32, int)> { Seq::new(ws.len(), |i: int| fr(g, ws[i].0, ws[i].1@)) }
spec fn stack_ok(g: &Graph, ws: Seq<(u32, VIter<&u32>)>) -> bool { forall|i: int| 0 <= i < ws.len() ==> rest_ok(g, (#[trigger] ws[i]).0, ws[i].1@) }

%%% fn topo_sort_reverse
%% at body.start
    hide(rev_topo); hide(cyclic); hide(is_edge); hide(before); hide(white); hide(left); hide(on_stack);
%% loop 0
    invariant
        work_stack@.len() == 0,
        dfs(graph, Seq::empty(), in_work_set@, visited@, topo_order@),
        forall|u: int| 0 <= u < vk0 && ent(graph, u).len() > 0 ==> #[trigger] visited@[u],
%% at loop0.before
    proof { assert(in_work_set@ =~= visited@ && topo_order@ =~= Seq::empty()); lemma_dfs_init(graph, visited@); }
%% at loop0.start
    let ghost g = graph;
    proof {
        assert(source_tos@ == ent(graph, source as int));
        lemma_dfs_facts(g, Seq::empty(), in_work_set@, visited@, topo_order@);
        if !visited@[source as int] && ent(g, source as int).len() > 0 { lemma_start(g, source as int, in_work_set@, visited@, topo_order@); }
    }
%% at loop1.before
    proof {
        assert(abs(g, work_stack@).push(fr(g, v, v_edges@)) =~= seq![(source, 0int)]);
    }
%% at loop1.start
    let ghost st = abs(g, work_stack@).push(fr(g, v, v_edges@));
    let ghost ws = work_stack@;
    proof {
        lemma_dfs_facts(g, st, in_work_set@, visited@, topo_order@);
        assert(st[st.len() - 1].0 == v);
        assert(st.drop_last() =~= abs(g, ws));
        if v_edges@.len() > 0 {
            assert(*v_edges@[0] == ent(g, v as int)[st.last().1]);
            lemma_target(g, v as int, st.last().1);
        }
    }
%% at loop2.start
    proof {
        let i = vk2 - 1;
        assert(st[i] == fr(g, ws[i].0, ws[i].1@));
    }
%% at if3.then.start
    proof { lemma_found_cycle(g, st, in_work_set@, visited@, topo_order@); }
%% at if4.then.start
    proof {
        lemma_skip(g, st, in_work_set@, visited@, topo_order@);
        assert(abs(g, work_stack@).push(fr(g, v, v_edges@)) =~= st.update(st.len() - 1, (st.last().0, st.last().1 + 1)));
    }
%% at if4.else.start
    proof { lemma_descend(g, st, in_work_set@, visited@, topo_order@); }
%% at if4.else.end
    proof {
        assert(abs(g, work_stack@).push(fr(g, v, v_edges@)) =~= grown(st, next_v));
    }
%% at if2.else.start
    proof { lemma_finish(g, st, in_work_set@, visited@, topo_order@); }
%% at if5.then.start
    proof {
        assert(abs(g, work_stack@).push(fr(g, prev_v, prev_v_edges@)) =~= st.drop_last());
        assert(st.drop_last().last().0 == prev_v);
    }
%% at if5.else.start
    proof { assert(st.drop_last() =~= Seq::empty()); }
%% at loop0.after
    proof { lemma_dfs_facts(graph, Seq::empty(), in_work_set@, visited@, topo_order@); lemma_done(graph, in_work_set@, visited@, topo_order@); lemma_topo_acyclic(graph, topo_order@); }
%% closure 0
|__c0_0: &bool| -> (o: bool)
    ensures o == !*__c0_0,
%% loop 1
    invariant_except_break
        stack_ok(graph, work_stack@),
        rest_ok(graph, v, v_edges@),
        dfs(graph, abs(graph, work_stack@).push(fr(graph, v, v_edges@)), in_work_set@, visited@, topo_order@),
    invariant
        forall|u: int| 0 <= u < vk0 - 1 && ent(graph, u).len() > 0 ==> #[trigger] visited@[u],
        work_stack@.len() > 0 ==> work_stack@[0].0 == source,
        work_stack@.len() == 0 ==> v == source,
    ensures
        work_stack@.len() == 0,
        dfs(graph, Seq::empty(), in_work_set@, visited@, topo_order@),
        visited@[source as int],
    decreases white(in_work_set@, visited@, graph.nv()), left(graph, abs(graph, work_stack@).push(fr(graph, v, v_edges@))),
%%% fn topo_sort
%% contract
    requires gok(graph),
    ensures
        r matches Ok(o) ==> topo(graph, o@),
        r is Err ==> r->Err_0 == Error::FoundCycle && cyclic(graph),
        r is Ok <==> !cyclic(graph),
%% at before reverse#0
    proof { lemma_reverse_topo(graph, order@); }
