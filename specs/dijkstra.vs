%%% file trellis/src/ortho/shortest_path.rs
%%% item Weight
%%% item V
%%% item Path
%%% item PQEntry
%%% item FindPathState
%%% item find_shortest_path/BestPath
%%% text
use std::collections::HashSet;
broadcast use vstd::std_specs::hash::group_hash_axioms;

// ---- the heap of pending paths: least weight at the root
spec fn par(i: int) -> int { (i - 1) / 2 }
spec fn wt(s: Seq<PQEntry>, i: int) -> int { s[i].weight as int }
spec fn heap(s: Seq<PQEntry>) -> bool { forall|j: int| 1 <= j < s.len() ==> wt(s, par(j)) <= #[trigger] wt(s, j) }
spec fn heap_up(s: Seq<PQEntry>, x: int) -> bool { forall|j: int| 1 <= j < s.len() && j != x ==> wt(s, par(j)) <= #[trigger] wt(s, j) }
spec fn heap_down(s: Seq<PQEntry>, x: int) -> bool { forall|j: int| 1 <= j < s.len() && par(j) != x ==> wt(s, par(j)) <= #[trigger] wt(s, j) }
spec fn skip_ok(s: Seq<PQEntry>, x: int) -> bool { x > 0 ==> forall|j: int| 1 <= j < s.len() && par(j) == x ==> wt(s, par(x)) <= #[trigger] wt(s, j) }
spec fn swapped<T>(s: Seq<T>, a: int, b: int) -> Seq<T> { s.update(a, s[b]).update(b, s[a]) }
/// the same entries
spec fn same<T>(s: Seq<T>, t: Seq<T>) -> bool { s.len() == t.len() && forall|e: T| #![trigger s.contains(e)] #![trigger t.contains(e)] s.contains(e) <==> t.contains(e) }
proof fn lemma_swap_same<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a < s.len(), 0 <= b < s.len(),
    ensures same(s, swapped(s, a, b)),
{
    let t = swapped(s, a, b);
    assert forall|e: T| #[trigger] s.contains(e) <==> t.contains(e) by {
        if s.contains(e) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == e;
            if i == a { assert(t[b] == e); } else if i == b { assert(t[a] == e); } else { assert(t[i] == e); }
        }
        if t.contains(e) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == e;
            if i == a { assert(s[b] == e); } else if i == b { assert(s[a] == e); } else { assert(s[i] == e); }
        }
    }
}
proof fn lemma_swap_up(s: Seq<PQEntry>, i: int)
    requires 0 < i < s.len(), heap_up(s, i), skip_ok(s, i), wt(s, i) <= wt(s, par(i)),
    ensures heap_up(swapped(s, i, par(i)), par(i)), skip_ok(swapped(s, i, par(i)), par(i)),
{
    let p = par(i);
    let t = swapped(s, i, p);
    assert forall|j: int| 1 <= j < t.len() && j != p implies wt(t, par(j)) <= #[trigger] wt(t, j) by {
        assert(wt(s, par(j)) <= wt(s, j) || j == i);
    }
    if p > 0 {
        assert(wt(s, par(p)) <= wt(s, p));
        assert forall|j: int| 1 <= j < t.len() && par(j) == p implies wt(t, par(p)) <= #[trigger] wt(t, j) by {
            assert(wt(s, par(j)) <= wt(s, j) || j == i);
        }
    }
}
/// c is a child of i, no greater than the other child
proof fn lemma_swap_down(s: Seq<PQEntry>, i: int, c: int)
    requires
        0 <= i < s.len(), 1 <= c < s.len(), par(c) == i, heap_down(s, i), skip_ok(s, i), wt(s, c) <= wt(s, i),
        forall|d: int| 1 <= d < s.len() && par(d) == i ==> wt(s, c) <= #[trigger] wt(s, d),
    ensures heap_down(swapped(s, i, c), c), skip_ok(swapped(s, i, c), c),
{
    let t = swapped(s, i, c);
    assert forall|j: int| 1 <= j < t.len() && par(j) != c implies wt(t, par(j)) <= #[trigger] wt(t, j) by {
        assert(par(j) != i ==> wt(s, par(j)) <= wt(s, j));
        if j == i { assert(wt(s, par(i)) <= wt(s, c)); }
        else if par(j) == i && j != c { assert(wt(s, c) <= wt(s, j)); }
    }
    assert forall|j: int| 1 <= j < t.len() && par(j) == c implies wt(t, par(c)) <= #[trigger] wt(t, j) by {
        assert(wt(s, par(j)) <= wt(s, j));
    }
}
proof fn lemma_root(s: Seq<PQEntry>, j: int)
    requires heap(s), 0 <= j < s.len(),
    ensures wt(s, 0) <= wt(s, j),
    decreases j,
{
    if j > 0 { lemma_root(s, par(j)); assert(wt(s, par(j)) <= wt(s, j)); }
}

// ---- the graph: adj(v) lists the edges the closure reports for v
spec fn is_edge(adj: spec_fn(V) -> Seq<(V, Weight)>, u: V, v: V, w: int) -> bool {
    exists|k: int| 0 <= k < adj(u).len() && (#[trigger] adj(u)[k]).0 == v && adj(u)[k].1 == w
}
/// vs are the vertices of a walk, ws the weights of its edges
spec fn is_walk(adj: spec_fn(V) -> Seq<(V, Weight)>, vs: Seq<V>, ws: Seq<int>) -> bool {
    vs.len() == ws.len() + 1 && forall|i: int| 0 <= i < ws.len() ==> is_edge(adj, vs[i], vs[i + 1], #[trigger] ws[i])
}
spec fn walk_to(adj: spec_fn(V) -> Seq<(V, Weight)>, a: V, b: V, vs: Seq<V>, ws: Seq<int>) -> bool {
    is_walk(adj, vs, ws) && vs[0] == a && vs.last() == b
}
spec fn sum(ws: Seq<int>) -> int
    decreases ws.len(),
{ if ws.len() == 0 { 0 } else { sum(ws.drop_last()) + ws.last() } }
/// number of edges leaving the listed vertices
spec fn degsum(adj: spec_fn(V) -> Seq<(V, Weight)>, o: Seq<V>) -> int
    decreases o.len(),
{ if o.len() == 0 { 0 } else { degsum(adj, o.drop_last()) + adj(o.last()).len() } }

spec fn graph_ok(adj: spec_fn(V) -> Seq<(V, Weight)>, from: V) -> bool {
    // weights are not negative
    &&& forall|u: V, k: int| 0 <= k < adj(u).len() ==> (#[trigger] adj(u)[k]).1 >= 0
    // fewer than 2^31 - 1 edges
    &&& forall|o: Seq<V>| o.no_duplicates() ==> #[trigger] degsum(adj, o) < i32::MAX
    // sums fit: along any walk that visits no vertex twice, except perhaps its last
    &&& forall|vs: Seq<V>, ws: Seq<int>| #[trigger] is_walk(adj, vs, ws) && vs[0] == from && vs.drop_last().no_duplicates() ==> sum(ws) <= i32::MAX
}

// ---- the state of the search
ghost struct St {
    paths: Seq<Path>,
    pq: Seq<PQEntry>,
    settled: Set<V>,
    /// the path by which a vertex was settled
    entry: Map<V, int>,
    /// the vertices and the edge weights of each path
    ch: Seq<Seq<V>>,
    wk: Seq<Seq<int>>,
}
impl St {
    spec fn d(self, v: V) -> int { sum(self.wk[self.entry[v]]) }
    spec fn ext_ok(self, adj: spec_fn(V) -> Seq<(V, Weight)>, i: int) -> bool {
        let p = self.paths[i].prev_path as int;
        &&& 0 <= p < i
        &&& self.settled.contains(self.paths[p].vert)
        &&& self.entry[self.paths[p].vert] == p
        &&& self.ch[i] == self.ch[p].push(self.paths[i].vert)
    }
    spec fn row_ok(self, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V, i: int) -> bool {
        &&& walk_to(adj, from, self.paths[i].vert, self.ch[i], self.wk[i])
        &&& sum(self.wk[i]) >= 0
        &&& self.paths[i].prev_path >= -1
        &&& i > 0 ==> self.ext_ok(adj, i)
    }
    spec fn settled_ok(self, v: V) -> bool {
        &&& 0 <= self.entry[v] < self.paths.len()
        &&& self.paths[self.entry[v]].vert == v
        &&& self.ch[self.entry[v]].no_duplicates()
        &&& forall|i: int| 0 <= i < self.ch[self.entry[v]].len() ==> self.settled.contains(#[trigger] self.ch[self.entry[v]][i])
    }
    #[verifier::opaque]
    spec fn table(self, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V) -> bool {
        &&& self.ch.len() == self.paths.len() && self.wk.len() == self.paths.len() && self.paths.len() > 0
        &&& self.paths[0].vert == from && self.paths[0].prev_path == -1 && self.ch[0] == seq![from] && self.wk[0] == Seq::<int>::empty()
        &&& forall|i: int| 0 <= i < self.paths.len() ==> #[trigger] self.row_ok(adj, from, i)
        &&& forall|v: V| self.settled.contains(v) ==> #[trigger] self.settled_ok(v)
    }
    spec fn entry_ok(self, e: PQEntry) -> bool {
        0 <= e.path < self.paths.len() && e.weight == sum(self.wk[e.path as int])
    }
    #[verifier::opaque]
    spec fn queue(self) -> bool {
        &&& forall|i: int| 0 <= i < self.pq.len() ==> self.entry_ok(#[trigger] self.pq[i])
        &&& forall|v: V, i: int| self.settled.contains(v) && 0 <= i < self.pq.len() ==> self.d(v) <= (#[trigger] self.pq[i]).weight && #[trigger] self.settled.contains(v)
    }
    /// u is settled at no more than w, or a pending path to it weighs no more than w
    spec fn pending(self, u: V, w: int) -> bool {
        exists|e: PQEntry| #[trigger] self.pq.contains(e) && self.paths[e.path as int].vert == u && e.weight <= w
    }
    spec fn covered(self, u: V, w: int) -> bool {
        (self.settled.contains(u) && self.d(u) <= w) || self.pending(u, w)
    }
    spec fn cov_edge(self, adj: spec_fn(V) -> Seq<(V, Weight)>, x: V, k: int) -> bool {
        self.covered(adj(x)[k].0, self.d(x) + adj(x)[k].1)
    }
    /// every edge out of a settled vertex is covered, except those of `cur` from the n-th on
    #[verifier::opaque]
    spec fn closed(self, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V, cur: V, n: int) -> bool {
        &&& self.covered(from, 0)
        &&& forall|x: V, k: int| self.settled.contains(x) && 0 <= k < adj(x).len() && (x != cur || k < n) ==> #[trigger] self.cov_edge(adj, x, k)
    }
    spec fn closed_all(self, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V) -> bool {
        &&& self.covered(from, 0)
        &&& forall|x: V, k: int| self.settled.contains(x) && 0 <= k < adj(x).len() ==> #[trigger] self.cov_edge(adj, x, k)
    }
}
proof fn lemma_closed_all(s: St, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V, cur: V, n: int)
    ensures
        s.closed_all(adj, from) ==> s.closed(adj, from, cur, n),
        s.closed(adj, from, cur, n) && n >= adj(cur).len() ==> s.closed_all(adj, from),
{ reveal(St::closed); }
/// some pending path weighs no more than w
spec fn bounded(pq: Seq<PQEntry>, w: int) -> bool { exists|e: PQEntry| #[trigger] pq.contains(e) && e.weight <= w }
/// the end of every walk is settled at no more than its weight, or a pending path weighs no more
proof fn lemma_cover(s: St, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V, vs: Seq<V>, ws: Seq<int>)
    requires s.closed_all(adj, from), graph_ok(adj, from), is_walk(adj, vs, ws), vs[0] == from,
    ensures (s.settled.contains(vs.last()) && s.d(vs.last()) <= sum(ws)) || bounded(s.pq, sum(ws)),
    decreases ws.len(),
{
    if ws.len() == 0 {
        assert(vs.last() == from);
    } else {
        let (v1, w1) = (vs.drop_last(), ws.drop_last());
        let (x, y, w) = (vs[ws.len() - 1], vs.last(), ws.last());
        assert(is_walk(adj, v1, w1)) by {
            assert forall|i: int| 0 <= i < w1.len() implies is_edge(adj, v1[i], v1[i + 1], #[trigger] w1[i]) by { assert(is_edge(adj, vs[i], vs[i + 1], ws[i])); }
        }
        lemma_cover(s, adj, from, v1, w1);
        assert(is_edge(adj, x, y, ws[ws.len() - 1]));
        let k = choose|k: int| 0 <= k < adj(x).len() && (#[trigger] adj(x)[k]).0 == y && adj(x)[k].1 == w;
        assert(adj(x)[k].1 >= 0);
        if s.settled.contains(x) && s.d(x) <= sum(w1) {
            assert(s.cov_edge(adj, x, k));
        }
    }
}
/// the walk of a pending path, and what settling its last vertex needs
proof fn lemma_path(s: St, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V, i: int)
    requires s.table(adj, from), 0 <= i < s.paths.len(),
    ensures
        walk_to(adj, from, s.paths[i].vert, s.ch[i], s.wk[i]),
        s.ch[i].drop_last().no_duplicates(),
        forall|j: int| 0 <= j < s.ch[i].len() - 1 ==> s.settled.contains(#[trigger] s.ch[i][j]),
        sum(s.wk[i]) >= 0,
        !s.settled.contains(s.paths[i].vert) ==> s.ch[i].no_duplicates(),
{
    reveal(St::table);
    assert(s.row_ok(adj, from, i));
    if i > 0 {
        let p = s.paths[i].prev_path as int;
        assert(s.settled_ok(s.paths[p].vert));
        assert(s.ch[i].drop_last() =~= s.ch[p]);
        assert forall|j: int| 0 <= j < s.ch[i].len() - 1 implies s.settled.contains(#[trigger] s.ch[i][j]) by { assert(s.ch[i][j] == s.ch[p][j]); }
        if !s.settled.contains(s.paths[i].vert) {
            assert forall|a: int, b: int| 0 <= a < b < s.ch[i].len() implies s.ch[i][a] != s.ch[i][b] by {
                assert(s.settled.contains(s.ch[i][a]));
                if b < s.ch[i].len() - 1 { assert(s.ch[i][a] == s.ch[p][a] && s.ch[i][b] == s.ch[p][b]); }
            }
        }
    } else {
        assert(s.ch[0].drop_last() =~= Seq::<V>::empty());
    }
}
/// a path is taken from the queue
spec fn popped(s: St, t: St, e: PQEntry) -> bool {
    &&& t == (St { pq: t.pq, ..s })
    &&& s.pq.contains(e)
    &&& forall|x: PQEntry| #[trigger] s.pq.contains(x) ==> t.pq.contains(x) || x == e
    &&& forall|x: PQEntry| #[trigger] t.pq.contains(x) ==> s.pq.contains(x)
    &&& forall|x: PQEntry| #[trigger] s.pq.contains(x) ==> e.weight <= x.weight
}
spec fn settle(t: St, u: V, p: int) -> St { St { settled: t.settled.insert(u), entry: t.entry.insert(u, p), ..t } }
proof fn lemma_pop(s: St, t: St, e: PQEntry, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V)
    requires s.table(adj, from), s.queue(), popped(s, t, e),
    ensures
        s.entry_ok(e), t.table(adj, from), t.queue(),
        // nothing is lost if the vertex is settled already
        s.settled.contains(s.paths[e.path as int].vert) && s.closed_all(adj, from) ==> t.closed_all(adj, from),
{
    reveal(St::table); reveal(St::queue);
    let ie = choose|i: int| 0 <= i < s.pq.len() && s.pq[i] == e;
    assert(s.entry_ok(s.pq[ie]));
    assert forall|i: int| 0 <= i < t.paths.len() implies #[trigger] t.row_ok(adj, from, i) by { assert(s.row_ok(adj, from, i)); }
    assert forall|v: V| t.settled.contains(v) implies #[trigger] t.settled_ok(v) by { assert(s.settled_ok(v)); }
    assert forall|i: int| 0 <= i < t.pq.len() implies t.entry_ok(#[trigger] t.pq[i]) by {
        assert(t.pq.contains(t.pq[i]));
        let j = choose|j: int| 0 <= j < s.pq.len() && s.pq[j] == t.pq[i];
        assert(s.entry_ok(s.pq[j]));
    }
    assert forall|v: V, i: int| t.settled.contains(v) && 0 <= i < t.pq.len() implies t.d(v) <= (#[trigger] t.pq[i]).weight && #[trigger] t.settled.contains(v) by {
        assert(t.pq.contains(t.pq[i]));
        let j = choose|j: int| 0 <= j < s.pq.len() && s.pq[j] == t.pq[i];
        assert(s.settled.contains(v) && s.d(v) <= s.pq[j].weight);
    }
    let u = s.paths[e.path as int].vert;
    if s.settled.contains(u) {
        assert(s.d(u) <= s.pq[ie].weight);
        assert forall|v: V, w: int| #[trigger] s.covered(v, w) implies t.covered(v, w) by {
            if s.pending(v, w) {
                let x = choose|x: PQEntry| #[trigger] s.pq.contains(x) && s.paths[x.path as int].vert == v && x.weight <= w;
                if x != e { assert(t.pq.contains(x)); }
            }
        }
        if s.closed_all(adj, from) {
            assert forall|x: V, k: int| t.settled.contains(x) && 0 <= k < adj(x).len() implies #[trigger] t.cov_edge(adj, x, k) by { assert(s.cov_edge(adj, x, k)); }
        }
    }
}
proof fn lemma_settle(s: St, t: St, e: PQEntry, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V)
    requires s.table(adj, from), s.queue(), popped(s, t, e), !s.settled.contains(s.paths[e.path as int].vert),
    ensures
        ({
            let u = s.paths[e.path as int].vert;
            let r = settle(t, u, e.path as int);
            &&& r.table(adj, from) && r.queue()
            &&& r.d(u) == e.weight
            &&& forall|v: V| r.settled.contains(v) ==> #[trigger] r.d(v) <= r.d(u)
            &&& s.closed_all(adj, from) ==> r.closed(adj, from, u, 0)
        }),
{
    lemma_pop(s, t, e, adj, from);
    lemma_path(s, adj, from, e.path as int);
    reveal(St::table); reveal(St::queue); reveal(St::closed);
    let u = s.paths[e.path as int].vert;
    let r = settle(t, u, e.path as int);
    assert forall|i: int| 0 <= i < r.paths.len() implies #[trigger] r.row_ok(adj, from, i) by {
        assert(t.row_ok(adj, from, i));
        if i > 0 { assert(t.paths[t.paths[i].prev_path as int].vert != u); }
    }
    assert forall|v: V| r.settled.contains(v) implies #[trigger] r.settled_ok(v) by {
        if v == u {
            let c = s.ch[e.path as int];
            assert forall|i: int| 0 <= i < c.len() implies r.settled.contains(#[trigger] c[i]) by {
                if i < c.len() - 1 { assert(s.settled.contains(c[i])); } else { assert(c[i] == u); }
            }
        } else {
            assert(t.settled_ok(v));
            let c = t.ch[t.entry[v]];
            assert forall|i: int| 0 <= i < c.len() implies r.settled.contains(#[trigger] c[i]) by { assert(t.settled.contains(c[i])); }
        }
    }
    assert forall|i: int| 0 <= i < r.pq.len() implies r.entry_ok(#[trigger] r.pq[i]) by { assert(t.entry_ok(t.pq[i])); }
    assert forall|v: V, i: int| r.settled.contains(v) && 0 <= i < r.pq.len() implies r.d(v) <= (#[trigger] r.pq[i]).weight && #[trigger] r.settled.contains(v) by {
        assert(t.pq.contains(t.pq[i]));
        if v == u { assert(s.pq.contains(t.pq[i])); } else { assert(t.settled.contains(v)); }
    }
    if s.closed_all(adj, from) {
        assert forall|v: V, w: int| #[trigger] s.covered(v, w) implies r.covered(v, w) by {
            if s.settled.contains(v) && s.d(v) <= w {
                assert(v != u);
                assert(r.settled.contains(v));
            } else {
                let x = choose|x: PQEntry| #[trigger] s.pq.contains(x) && s.paths[x.path as int].vert == v && x.weight <= w;
                if x != e { assert(t.pq.contains(x)); assert(r.pq.contains(x)); } else { assert(r.settled.contains(u)); }
            }
        }
        assert(s.covered(from, 0));
        assert forall|x: V, k: int| r.settled.contains(x) && 0 <= k < adj(x).len() && (x != u || k < 0) implies #[trigger] r.cov_edge(adj, x, k) by {
            assert(s.cov_edge(adj, x, k));
            assert(s.covered(adj(x)[k].0, s.d(x) + adj(x)[k].1));
        }
    }
}
/// an edge of the settled vertex cur is followed
spec fn followed(s: St, t: St, adj: spec_fn(V) -> Seq<(V, Weight)>, cur: V, k: int) -> bool {
    let p = s.entry[cur];
    let (v, w) = adj(cur)[k];
    let n = Path { vert: v, prev_path: p as i32 };
    let e = PQEntry { path: s.paths.len() as i32, weight: (s.d(cur) + w) as i32 };
    &&& t.settled == s.settled && t.entry == s.entry
    &&& t.paths == s.paths.push(n)
    &&& t.ch == s.ch.push(s.ch[p].push(v))
    &&& t.wk == s.wk.push(s.wk[p].push(w as int))
    &&& forall|x: PQEntry| #[trigger] t.pq.contains(x) <==> s.pq.contains(x) || x == e
}
proof fn lemma_walk_push(adj: spec_fn(V) -> Seq<(V, Weight)>, vs: Seq<V>, ws: Seq<int>, k: int)
    requires is_walk(adj, vs, ws), 0 <= k < adj(vs.last()).len(),
    ensures
        is_walk(adj, vs.push(adj(vs.last())[k].0), ws.push(adj(vs.last())[k].1 as int)),
        sum(ws.push(adj(vs.last())[k].1 as int)) == sum(ws) + adj(vs.last())[k].1,
{
    let (v, w) = adj(vs.last())[k];
    let (vs2, ws2) = (vs.push(v), ws.push(w as int));
    assert(ws2.drop_last() =~= ws);
    assert forall|i: int| 0 <= i < ws2.len() implies is_edge(adj, vs2[i], vs2[i + 1], #[trigger] ws2[i]) by {
        if i < ws.len() { assert(is_edge(adj, vs[i], vs[i + 1], ws[i])); } else { assert(vs2[i] == vs.last()); }
    }
}
/// the weight of the path that follows one more edge fits
proof fn lemma_fits(s: St, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V, cur: V, k: int)
    requires s.table(adj, from), s.settled.contains(cur), graph_ok(adj, from), 0 <= k < adj(cur).len(),
    ensures 0 <= s.d(cur), 0 <= adj(cur)[k].1, s.d(cur) + adj(cur)[k].1 <= i32::MAX, 0 <= s.entry[cur] < s.paths.len(), s.paths[s.entry[cur]].vert == cur,
{
    reveal(St::table);
    assert(s.settled_ok(cur));
    lemma_path(s, adj, from, s.entry[cur]);
    let (vs, ws) = (s.ch[s.entry[cur]], s.wk[s.entry[cur]]);
    lemma_walk_push(adj, vs, ws, k);
    let v2 = vs.push(adj(cur)[k].0);
    assert(v2.drop_last() =~= vs);
    assert(v2[0] == from);
    assert(is_walk(adj, v2, ws.push(adj(cur)[k].1 as int)));
    assert(adj(cur)[k].1 >= 0);
}
proof fn lemma_follow(s: St, t: St, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V, cur: V, k: int)
    requires
        s.table(adj, from), s.queue(), s.settled.contains(cur), graph_ok(adj, from), 0 <= k < adj(cur).len(),
        followed(s, t, adj, cur, k), s.paths.len() < i32::MAX,
        // cur was settled last
        forall|v: V| s.settled.contains(v) ==> #[trigger] s.d(v) <= s.d(cur),
    ensures
        t.table(adj, from), t.queue(),
        forall|v: V| s.settled.contains(v) ==> #[trigger] t.d(v) <= t.d(cur),
        s.closed(adj, from, cur, k) ==> t.closed(adj, from, cur, k + 1),
        t.d(cur) == s.d(cur),
{
    lemma_fits(s, adj, from, cur, k);
    reveal(St::table); reveal(St::queue); reveal(St::closed);
    let n = s.paths.len() as int;
    let p = s.entry[cur];
    let (v, w) = adj(cur)[k];
    assert(s.settled_ok(cur));
    assert(s.row_ok(adj, from, p));
    lemma_walk_push(adj, s.ch[p], s.wk[p], k);
    let e = PQEntry { path: n as i32, weight: (s.d(cur) + w) as i32 };
    assert forall|i: int| 0 <= i < t.paths.len() implies #[trigger] t.row_ok(adj, from, i) by {
        if i < n {
            assert(s.row_ok(adj, from, i));
        }
    }
    assert forall|x: V| s.settled.contains(x) implies #[trigger] t.d(x) == s.d(x) by { assert(s.settled_ok(x)); }
    assert forall|x: V| t.settled.contains(x) implies #[trigger] t.settled_ok(x) by {
        assert(s.settled_ok(x));
        let c = s.ch[s.entry[x]];
        assert(t.ch[t.entry[x]] == c);
        assert forall|i: int| 0 <= i < c.len() implies t.settled.contains(#[trigger] c[i]) by { assert(s.settled.contains(c[i])); }
    }
    assert forall|i: int| 0 <= i < t.pq.len() implies t.entry_ok(#[trigger] t.pq[i]) by {
        let x = t.pq[i];
        assert(t.pq.contains(x));
        if x != e {
            let j = choose|j: int| 0 <= j < s.pq.len() && s.pq[j] == x;
            assert(s.entry_ok(s.pq[j]));
        }
    }
    assert forall|x: V, i: int| t.settled.contains(x) && 0 <= i < t.pq.len() implies t.d(x) <= (#[trigger] t.pq[i]).weight && #[trigger] t.settled.contains(x) by {
        let y = t.pq[i];
        assert(t.pq.contains(y));
        assert(s.settled.contains(x) && t.d(x) == s.d(x));
        if y != e {
            let j = choose|j: int| 0 <= j < s.pq.len() && s.pq[j] == y;
            assert(s.d(x) <= s.pq[j].weight);
        }
    }
    if s.closed(adj, from, cur, k) {
        assert forall|u: V, c: int| #[trigger] s.covered(u, c) implies t.covered(u, c) by {
            if s.settled.contains(u) && s.d(u) <= c { assert(t.d(u) == s.d(u)); }
            else {
                let x = choose|x: PQEntry| #[trigger] s.pq.contains(x) && s.paths[x.path as int].vert == u && x.weight <= c;
                let j = choose|j: int| 0 <= j < s.pq.len() && s.pq[j] == x;
                assert(s.entry_ok(s.pq[j]));
                assert(t.pq.contains(x));
            }
        }
        assert(s.covered(from, 0));
        assert forall|x: V, j: int| t.settled.contains(x) && 0 <= j < adj(x).len() && (x != cur || j < k + 1) implies #[trigger] t.cov_edge(adj, x, j) by {
            assert(t.d(x) == s.d(x));
            if x == cur && j == k {
                assert(t.pq.contains(e));
                assert(t.pending(v, s.d(cur) + w));
            } else {
                assert(s.cov_edge(adj, x, j));
                assert(s.covered(adj(x)[j].0, s.d(x) + adj(x)[j].1));
            }
        }
    }
}
/// no walk to b weighs less than w
spec fn least(adj: spec_fn(V) -> Seq<(V, Weight)>, a: V, b: V, w: int) -> bool {
    forall|vs: Seq<V>, ws: Seq<int>| #[trigger] walk_to(adj, a, b, vs, ws) ==> w <= sum(ws)
}
spec fn reachable(adj: spec_fn(V) -> Seq<(V, Weight)>, a: V, b: V) -> bool {
    exists|vs: Seq<V>, ws: Seq<int>| walk_to(adj, a, b, vs, ws)
}
/// the listed vertices, read backwards, are a walk from a to b that weighs no more than any other
spec fn shortest(adj: spec_fn(V) -> Seq<(V, Weight)>, a: V, b: V, back: Seq<V>) -> bool {
    exists|ws: Seq<int>| #[trigger] walk_to(adj, a, b, back.reverse(), ws) && least(adj, a, b, sum(ws))
}
proof fn lemma_least(s: St, e: PQEntry, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V, to: V)
    requires
        s.closed_all(adj, from), graph_ok(adj, from), !s.settled.contains(to),
        forall|x: PQEntry| #[trigger] s.pq.contains(x) ==> e.weight <= x.weight,
    ensures least(adj, from, to, e.weight as int),
{
    assert forall|vs: Seq<V>, ws: Seq<int>| #[trigger] walk_to(adj, from, to, vs, ws) implies e.weight <= sum(ws) by {
        lemma_cover(s, adj, from, vs, ws);
    }
}
proof fn lemma_unreachable(s: St, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V, to: V)
    requires s.closed_all(adj, from), graph_ok(adj, from), !s.settled.contains(to), s.pq.len() == 0,
    ensures !reachable(adj, from, to),
{
    assert forall|vs: Seq<V>, ws: Seq<int>| !walk_to(adj, from, to, vs, ws) by {
        if walk_to(adj, from, to, vs, ws) { lemma_cover(s, adj, from, vs, ws); }
    }
}
/// only finitely many vertices can be settled
proof fn lemma_settled_bound(s: Set<V>)
    requires s.finite(),
    ensures s.len() <= 0x1_0000_0000,
{
    let f = |x: V| x as int;
    let img = s.map(f);
    vstd::set_lib::lemma_map_size(s, img, f);
    vstd::set_lib::lemma_int_range(-0x8000_0000, 0x8000_0000);
    vstd::set_lib::lemma_len_subset(img, vstd::set_lib::set_int_range(-0x8000_0000, 0x8000_0000));
}
spec fn st(state: FindPathState, settled: Set<V>, entry: Map<V, int>, ch: Seq<Seq<V>>, wk: Seq<Seq<int>>) -> St {
    St { paths: state.paths@, pq: state.pq@, settled, entry, ch, wk }
}
/// the path found so far, if any
spec fn best_ok(best: Option<BestPath>, s: St, adj: spec_fn(V) -> Seq<(V, Weight)>, from: V, to: V) -> bool {
    match best {
        None => !s.settled.contains(to),
        Some(b) => {
            &&& s.settled.contains(to)
            &&& 0 <= b.path < s.paths.len() && s.paths[b.path as int].vert == to
            &&& b.weight == sum(s.wk[b.path as int])
            &&& least(adj, from, to, b.weight as int)
        },
    }
}
impl FindPathState {
    spec fn ok(&self) -> bool { heap(self.pq@) && self.pq@.len() <= 0x4000_0000_0000_0000 }
}
%%% fn left
%% contract
    requires parent <= 0x4000_0000_0000_0000,
    ensures r == parent * 2 + 1,
%%% fn right
%% contract
    requires parent <= 0x4000_0000_0000_0000,
    ensures r == parent * 2 + 2,
%%% fn parent
%% contract
    requires child >= 1,
    ensures r == par(child as int), r < child,
%%% fn FindPathState::pq_is_ordered
%% contract
    ensures r == (parent.weight < child.weight),
%%% fn FindPathState::pq_reorder_up
%% contract
    requires
        index < old(self).pq@.len() <= 0x4000_0000_0000_0000,
        heap_up(old(self).pq@, index as int), skip_ok(old(self).pq@, index as int),
    ensures
        heap(final(self).pq@), same(old(self).pq@, final(self).pq@), final(self).paths == old(self).paths,
%% loop 0
    invariant
        self.paths == old(self).paths,
        same(old(self).pq@, self.pq@), old(self).pq@.len() <= 0x4000_0000_0000_0000,
        i < self.pq@.len(),
        heap_up(self.pq@, i as int), skip_ok(self.pq@, i as int),
    ensures
        self.paths == old(self).paths, same(old(self).pq@, self.pq@), heap(self.pq@),
    decreases i,
%% at after let:parent#0
    proof {
        lemma_swap_same(self.pq@, parent as int, i as int);
        assert(swapped(self.pq@, parent as int, i as int) =~= swapped(self.pq@, i as int, parent as int));
        if wt(self.pq@, i as int) <= wt(self.pq@, parent as int) { lemma_swap_up(self.pq@, i as int); }
    }
%%% fn FindPathState::pq_reorder_down
%% contract
    requires
        old(self).pq@.len() <= 0x4000_0000_0000_0000,
        heap_down(old(self).pq@, index as int), index == 0,
    ensures
        heap(final(self).pq@), same(old(self).pq@, final(self).pq@), final(self).paths == old(self).paths,
%% loop 0
    invariant
        self.paths == old(self).paths,
        same(old(self).pq@, self.pq@), old(self).pq@.len() <= 0x4000_0000_0000_0000,
        i < self.pq@.len() || i == 0,
        heap_down(self.pq@, i as int), skip_ok(self.pq@, i as int),
    ensures
        self.paths == old(self).paths, same(old(self).pq@, self.pq@), heap(self.pq@),
    decreases self.pq@.len() - i,
%% at after let:right#0
    let ghost s = self.pq@;
    proof {
        let (a, b) = (left as int, right as int);
        assert forall|d: int| 1 <= d < s.len() && #[trigger] par(d) == i implies d == a || d == b by {}
        if a < s.len() { lemma_swap_same(s, i as int, a); }
        if b < s.len() { lemma_swap_same(s, i as int, b); }
        if a < s.len() && wt(s, a) <= wt(s, i as int) && !(b < s.len() && wt(s, b) < wt(s, a)) {
            assert forall|d: int| 1 <= d < s.len() && par(d) == i implies wt(s, a) <= #[trigger] wt(s, d) by { assert(d == a || d == b); }
            lemma_swap_down(s, i as int, a);
        }
        if b < s.len() && wt(s, b) <= wt(s, i as int) && (wt(s, b) < wt(s, a) || wt(s, i as int) < wt(s, a)) {
            assert forall|d: int| 1 <= d < s.len() && par(d) == i implies wt(s, b) <= #[trigger] wt(s, d) by { assert(d == a || d == b); }
            lemma_swap_down(s, i as int, b);
        }
    }
%%% fn FindPathState::pq_remove
%% contract
    requires old(self).ok(), old(self).pq@.len() > 0,
    ensures
        final(self).ok(), final(self).paths == old(self).paths,
        final(self).pq@.len() + 1 == old(self).pq@.len(),
        old(self).pq@.contains(r),
        forall|e: PQEntry| #[trigger] old(self).pq@.contains(e) ==> final(self).pq@.contains(e) || e == r,
        forall|e: PQEntry| #[trigger] final(self).pq@.contains(e) ==> old(self).pq@.contains(e),
        forall|e: PQEntry| #[trigger] old(self).pq@.contains(e) ==> r.weight <= e.weight,
%% at body.start
    let ghost s0 = self.pq@;
    proof {
        assert forall|e: PQEntry| #[trigger] s0.contains(e) implies s0[0].weight <= e.weight by {
            let j = choose|j: int| 0 <= j < s0.len() && s0[j] == e;
            lemma_root(s0, j);
        }
    }
%% at after let:result#0
    proof {
        let s1 = self.pq@;
        assert(s1 =~= s0.update(0, s0.last()).drop_last());
        assert forall|j: int| 1 <= j < s1.len() && par(j) != 0 implies wt(s1, par(j)) <= #[trigger] wt(s1, j) by { assert(wt(s0, par(j)) <= wt(s0, j)); }
        assert forall|e: PQEntry| #[trigger] s0.contains(e) implies s1.contains(e) || e == s0[0] by {
            let j = choose|j: int| 0 <= j < s0.len() && s0[j] == e;
            if j > 0 { if j == s0.len() - 1 { assert(s1[0] == e); } else { assert(s1[j] == e); } }
        }
        assert forall|e: PQEntry| #[trigger] s1.contains(e) implies s0.contains(e) by {
            let j = choose|j: int| 0 <= j < s1.len() && s1[j] == e;
            if j == 0 { assert(s0[s0.len() - 1] == e); } else { assert(s0[j] == e); }
        }
    }
%%% fn FindPathState::pq_insert
%% contract
    requires old(self).ok(), old(self).pq@.len() < 0x4000_0000_0000_0000,
    ensures
        final(self).ok(), final(self).paths == old(self).paths,
        final(self).pq@.len() == old(self).pq@.len() + 1,
        forall|e: PQEntry| #[trigger] final(self).pq@.contains(e) <==> old(self).pq@.contains(e) || e == value,
%% at after let:index#0
    proof {
        let s0 = self.pq@;
        let s1 = s0.push(value);
        assert forall|e: PQEntry| #[trigger] s1.contains(e) <==> s0.contains(e) || e == value by {
            if s0.contains(e) { let j = choose|j: int| 0 <= j < s0.len() && s0[j] == e; assert(s1[j] == e); }
            if e == value { assert(s1[s0.len() as int] == e); }
            if s1.contains(e) { let j = choose|j: int| 0 <= j < s1.len() && s1[j] == e; if j < s0.len() { assert(s0[j] == e); } }
        }
        assert forall|j: int| 1 <= j < s1.len() && j != s0.len() implies wt(s1, par(j)) <= #[trigger] wt(s1, j) by { assert(wt(s0, par(j)) <= wt(s0, j)); }
    }
%%% fn find_shortest_path
%% params Ghost(adj): Ghost<spec_fn(V) -> Seq<(V, Weight)>>
%% contract
    requires
        forall|v: V| #[trigger] edges.requires((v,)),
        forall|v: V, it: VIter<(V, Weight)>| #[trigger] edges.ensures((v,), it) ==> it@ == adj(v),
        graph_ok(adj, from_vert),
    ensures
        match r {
            None => !reachable(adj, from_vert, to_vert),
            Some(back) => shortest(adj, from_vert, to_vert, back@),
        },
%% closure 0
|__c0_0: &BestPath| -> (q: bool) ensures q == (__c0_0.weight > current_path_weight)
%% at loop0.before
    let ghost mut ch: Seq<Seq<V>> = seq![seq![from_vert]];
    let ghost mut wk: Seq<Seq<int>> = seq![Seq::<int>::empty()];
    let ghost mut entry: Map<V, int> = Map::empty();
    let ghost mut order: Seq<V> = Seq::empty();
    proof {
        let s = st(state, settled@, entry, ch, wk);
        reveal(St::table); reveal(St::queue);
        assert(s.row_ok(adj, from_vert, 0));
        assert(s.pq.contains(s.pq[0]));
        assert(s.entry_ok(s.pq[0]));
        assert(s.pending(from_vert, 0));
        assert(s.closed_all(adj, from_vert));
    }
%% loop 0
    invariant
        forall|v: V| #[trigger] edges.requires((v,)),
        forall|v: V, it: VIter<(V, Weight)>| #[trigger] edges.ensures((v,), it) ==> it@ == adj(v),
        graph_ok(adj, from_vert),
        state.ok(),
        order.no_duplicates(),
        forall|v: V| #[trigger] order.contains(v) ==> settled@.contains(v),
        state.paths@.len() == 1 + degsum(adj, order),
        state.pq@.len() <= state.paths@.len(),
        settled@.finite(),
        st(state, settled@, entry, ch, wk).table(adj, from_vert),
        st(state, settled@, entry, ch, wk).queue(),
        best_ok(best_path, st(state, settled@, entry, ch, wk), adj, from_vert, to_vert),
        best_path is None ==> st(state, settled@, entry, ch, wk).closed_all(adj, from_vert),
    ensures
        st(state, settled@, entry, ch, wk).table(adj, from_vert),
        best_ok(best_path, st(state, settled@, entry, ch, wk), adj, from_vert, to_vert),
        best_path is None ==> !reachable(adj, from_vert, to_vert),
    decreases 0x1_0000_0000 - settled@.len(), state.pq@.len(),
%% at loop0.start
    let ghost s = st(state, settled@, entry, ch, wk);
    proof {
        if state.pq@.len() == 0 && best_path is None { lemma_unreachable(s, adj, from_vert, to_vert); }
        lemma_settled_bound(settled@);
    }
%% at after let:current_path#0
    let ghost e = current_path;
    let ghost t = st(state, settled@, entry, ch, wk);
    proof {
        assert(popped(s, t, e));
        lemma_pop(s, t, e, adj, from_vert);
    }
%% at if1.then.start
    proof { assert(settled@ =~= s.settled); }
%% at if1.else.start
    proof {
        let u = current_vert;
        lemma_settle(s, t, e, adj, from_vert);
        if best_path is None && u == to_vert { lemma_least(s, e, adj, from_vert, to_vert); }
        lemma_settled_bound(settled@);
        entry = entry.insert(u, e.path as int);
        assert(settle(t, u, e.path as int) == st(state, settled@, entry, ch, wk));
    }
%% at if2.else.start
    let ghost u = current_vert;
    let ghost order0 = order;
    proof {
        order = order.push(u);
        assert(order.drop_last() =~= order0);
        assert(forall|v: V| order0.contains(v) ==> s.settled.contains(v));
        assert(order.no_duplicates()) by { assert(!order0.contains(u)); }
        assert forall|v: V| #[trigger] order.contains(v) implies settled@.contains(v) by { if v != u { assert(order0.contains(v)); } }
    }
%% loop 1
    invariant
        vs1 == adj(u), settled@.contains(u), settled@.finite(), settled@.len() > s.settled.len(),
        graph_ok(adj, from_vert), order.no_duplicates(),
        entry[u] == e.path, current_path == e, 0 <= e.path, e.weight == st(state, settled@, entry, ch, wk).d(u),
        state.ok(),
        state.paths@.len() == 1 + degsum(adj, order0) + vk1, degsum(adj, order) == degsum(adj, order0) + vs1.len(),
        state.pq@.len() <= state.paths@.len(),
        st(state, settled@, entry, ch, wk).table(adj, from_vert),
        st(state, settled@, entry, ch, wk).queue(),
        forall|v: V| settled@.contains(v) ==> #[trigger] st(state, settled@, entry, ch, wk).d(v) <= e.weight,
        best_ok(best_path, st(state, settled@, entry, ch, wk), adj, from_vert, to_vert),
        best_path is None ==> st(state, settled@, entry, ch, wk).closed(adj, from_vert, u, vk1),
%% at loop1.start
    let ghost s1 = st(state, settled@, entry, ch, wk);
    proof { lemma_fits(s1, adj, from_vert, u, vk1 - 1); assert(degsum(adj, order) < i32::MAX); }
%% at loop1.end
    proof {
        ch = ch.push(ch[e.path as int].push(next_vert_index));
        wk = wk.push(wk[e.path as int].push(edge_weight as int));
        let t1 = st(state, settled@, entry, ch, wk);
        assert(followed(s1, t1, adj, u, vk1 - 1));
        lemma_follow(s1, t1, adj, from_vert, u, vk1 - 1);
    }
%% at loop1.after
    proof { lemma_closed_all(st(state, settled@, entry, ch, wk), adj, from_vert, u, vk1); }
%% at loop2.before
    proof { lemma_path(st(state, settled@, entry, ch, wk), adj, from_vert, pi as int); }
%% loop 2
    invariant_except_break
        0 <= pi < state.paths@.len(),
        path_verts@ + ch[pi as int].reverse() == ch[best.path as int].reverse(),
    ensures
        path_verts@ == ch[best.path as int].reverse(),
    decreases pi,
%% at loop2.start
    let ghost (pi0, pv0) = (pi as int, path_verts@);
    proof {
        reveal(St::table);
        let z = st(state, settled@, entry, ch, wk);
        assert(z.row_ok(adj, from_vert, pi0));
    }
%% at loop2.end
    proof {
        let c = ch[pi0];
        if pi0 > 0 {
            assert(c.reverse() =~= seq![c.last()] + ch[pi as int].reverse());
            assert(pv0 + c.reverse() =~= path_verts@ + ch[pi as int].reverse());
        }
    }
%% at if5.then.start
    proof {
        let c = ch[pi0];
        assert(pi0 == 0);
        assert(c.reverse() =~= seq![from_vert]);
        assert(path_verts@ =~= pv0 + c.reverse());
    }
%% at loop2.after
    proof {
        let z = st(state, settled@, entry, ch, wk);
        assert(path_verts@.reverse() =~= ch[best.path as int]);
        assert(walk_to(adj, from_vert, to_vert, path_verts@.reverse(), wk[best.path as int]));
    }
