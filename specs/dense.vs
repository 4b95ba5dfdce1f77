%%% file trellis/src/pathplan/shortestpth.rs
%%% item shortestPathGeneric/val
%%% text
/// larger than any weight of interest
spec fn top() -> real { 2147483647real }
/// the matrix is symmetric: its lower triangle is read
spec fn wt(w: spec_fn(int, int) -> real, a: int, b: int) -> real { if a >= b { w(a, b) } else { w(b, a) } }
/// zero means no edge
spec fn edge(w: spec_fn(int, int) -> real, a: int, b: int) -> bool { wt(w, a, b) != 0real }
spec fn step(w: spec_fn(int, int) -> real, p: Seq<int>, i: int) -> bool { edge(w, p[i], p[i + 1]) }
spec fn route(w: spec_fn(int, int) -> real, n: int, p: Seq<int>) -> bool {
    &&& p.len() > 0
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] step(w, p, i)
}
spec fn route_to(w: spec_fn(int, int) -> real, n: int, p: Seq<int>, a: int, b: int) -> bool { route(w, n, p) && p[0] == a && p.last() == b }
spec fn plen(w: spec_fn(int, int) -> real, p: Seq<int>) -> real
    decreases p.len(),
{ if p.len() <= 1 { 0real } else { plen(w, p.drop_last()) + wt(w, p[p.len() - 2], p[p.len() - 1]) } }
spec fn w_ok(w: spec_fn(int, int) -> real, n: int) -> bool { forall|a: int, b: int| 0 <= b <= a < n ==> #[trigger] w(a, b) >= 0real }
/// a route whose weight is below the sentinel
spec fn within(w: spec_fn(int, int) -> real, n: int, a: int, b: int) -> bool { exists|p: Seq<int>| #[trigger] route_to(w, n, p, a, b) && plen(w, p) < top() }
/// each vertex of p but the first has the one before it as its predecessor
spec fn follows(dad: Seq<i32>, p: Seq<int>) -> bool { forall|i: int| 0 <= i < p.len() - 1 ==> dad[#[trigger] p[i + 1]] == p[i] }
spec fn least(w: spec_fn(int, int) -> real, n: int, a: int, b: int, l: real) -> bool { forall|q: Seq<int>| #[trigger] route_to(w, n, q, a, b) ==> l <= plen(w, q) }
/// the predecessors, followed from b, are a route from a to b of least weight; a itself has none
spec fn branch(w: spec_fn(int, int) -> real, n: int, dad: Seq<i32>, a: int, b: int) -> bool {
    &&& dad.len() == n && dad[a] == -1
    &&& exists|p: Seq<int>| #[trigger] route_to(w, n, p, a, b) && follows(dad, p) && least(w, n, a, b, plen(w, p))
}

/// the predecessors, followed from b, end without meeting a
spec fn dead_end(w: spec_fn(int, int) -> real, n: int, dad: Seq<i32>, a: int, b: int) -> bool {
    &&& dad.len() == n && dad[a] == -1
    &&& exists|p: Seq<int>| #[trigger] route_to(w, n, p, p[0], b) && follows(dad, p) && dad[p[0]] == -1 && !p.contains(a)
}

struct Ds { vl: Seq<F>, dad: Seq<i32>, fin: Set<int>, rt: Seq<Seq<int>> }
impl Ds {
    /// length of the best route known to t
    spec fn d(self, t: int) -> real { if self.fin.contains(t) { self.vl[t + 1]@ } else { -self.vl[t + 1]@ } }
    spec fn row(self, t: int) -> bool {
        if self.fin.contains(t) { self.vl[t + 1]@ >= 0real } else { -top() <= self.vl[t + 1]@ < 0real }
    }
    /// a finished vertex: the route to it
    spec fn done(self, w: spec_fn(int, int) -> real, n: int, root: int, t: int) -> bool {
        &&& route_to(w, n, self.rt[t], root, t)
        &&& follows(self.dad, self.rt[t])
        &&& plen(w, self.rt[t]) == self.d(t)
        &&& forall|i: int| 0 <= i < self.rt[t].len() ==> self.fin.contains(#[trigger] self.rt[t][i])
    }
    /// any other: not reached yet, or one edge from a finished one
    spec fn fringe(self, w: spec_fn(int, int) -> real, n: int, t: int) -> bool {
        let f = self.dad[t] as int;
        (self.d(t) == top() && f == -1) || (self.d(t) < top() && self.fin.contains(f) && edge(w, f, t) && self.d(t) == self.d(f) + wt(w, f, t))
    }
    spec fn relaxed(self, w: spec_fn(int, int) -> real, f: int, t: int) -> bool { edge(w, f, t) ==> self.d(t) <= self.d(f) + wt(w, f, t) }
    spec fn before(self, f: int, t: int) -> bool { self.d(f) <= self.d(t) }
    /// the edges of the finished vertices are taken into account, those of k only up to the j-th vertex
    #[verifier::opaque]
    spec fn part(self, w: spec_fn(int, int) -> real, n: int, root: int, k: int, j: int) -> bool {
        &&& 0 <= root < n && self.vl.len() == n + 1 && self.dad.len() == n && self.rt.len() == n
        &&& self.fin.contains(root) && self.dad[root] == -1 && self.d(root) == 0real
        &&& self.vl[0]@ == -(top() + 1real)
        &&& self.fin.contains(k) && forall|f: int| self.fin.contains(f) ==> #[trigger] self.before(f, k)
        &&& forall|t: int| #[trigger] self.fin.contains(t) ==> 0 <= t < n
        &&& forall|t: int| 0 <= t < n ==> #[trigger] self.row(t)
        &&& forall|t: int| self.fin.contains(t) ==> #[trigger] self.done(w, n, root, t)
        &&& forall|t: int| 0 <= t < n && !self.fin.contains(t) ==> #[trigger] self.fringe(w, n, t)
        &&& forall|f: int, t: int| self.fin.contains(f) && 0 <= t < n && f != t && (f != k || t < j || self.fin.contains(t)) ==> #[trigger] self.relaxed(w, f, t)
        &&& forall|f: int, t: int| self.fin.contains(f) && 0 <= t < n && !self.fin.contains(t) ==> #[trigger] self.before(f, t)
    }
    /// the vertex to be finished next
    spec fn next_is(self, n: int, k: int) -> bool {
        &&& 0 <= k < n && !self.fin.contains(k) && self.d(k) < top()
        &&& forall|t: int| 0 <= t < n && !self.fin.contains(t) ==> self.d(k) <= #[trigger] self.d(t)
    }
    /// a vertex visited after the search ran out of reachable ones
    spec fn astray(self, w: spec_fn(int, int) -> real, n: int, isle: Set<int>, t: int) -> bool {
        let p = self.rt[t];
        &&& route_to(w, n, p, p[0], t) && follows(self.dad, p) && self.dad[p[0]] == -1
        &&& forall|i: int| 0 <= i < p.len() ==> isle.contains(#[trigger] p[i])
    }
    spec fn shore(self, w: spec_fn(int, int) -> real, isle: Set<int>, t: int) -> bool {
        self.dad[t] == -1 || (isle.contains(self.dad[t] as int) && edge(w, self.dad[t] as int, t))
    }
    /// no reachable vertex is left; the vertices in isle were visited since
    #[verifier::opaque]
    spec fn adrift(self, w: spec_fn(int, int) -> real, n: int, root: int, isle: Set<int>) -> bool {
        &&& 0 <= root < n && self.vl.len() == n + 1 && self.dad.len() == n && self.rt.len() == n
        &&& self.fin.contains(root) && !isle.contains(root) && self.dad[root] == -1
        &&& self.vl[0]@ == -(top() + 1real)
        &&& forall|t: int| #[trigger] isle.contains(t) ==> self.fin.contains(t)
        &&& forall|t: int| #[trigger] self.fin.contains(t) ==> 0 <= t < n
        &&& forall|t: int| 0 <= t < n ==> #[trigger] self.row(t)
        &&& forall|t: int| isle.contains(t) ==> #[trigger] self.astray(w, n, isle, t)
        &&& forall|t: int| 0 <= t < n && !self.fin.contains(t) ==> #[trigger] self.shore(w, isle, t)
    }
    spec fn initial(self, n: int) -> bool {
        &&& self.vl.len() == n + 1 && self.dad.len() == n && self.rt.len() == n
        &&& self.vl[0]@ == -(top() + 1real)
        &&& forall|t: int| 1 <= t < n + 1 ==> (#[trigger] self.vl[t])@ == -top()
        &&& forall|t: int| 0 <= t < n ==> #[trigger] self.dad[t] == -1
        &&& self.fin == Set::<int>::empty()
    }
}
proof fn lemma_start(s: Ds, t: Ds, w: spec_fn(int, int) -> real, n: int, root: int, v: F)
    requires
        s.initial(n), 0 <= root < n, v@ == 0real,
        t == (Ds { vl: s.vl.update(root + 1, v), dad: s.dad, fin: s.fin.insert(root), rt: s.rt.update(root, seq![root]) }),
    ensures t.part(w, n, root, root, 0),
{
    reveal(Ds::part);
    let p = seq![root];
    assert(plen(w, p) == 0real);
    assert(t.done(w, n, root, root));
    assert forall|x: int| 0 <= x < n implies #[trigger] t.row(x) by { if x != root { assert(t.vl[x + 1] == s.vl[x + 1]); } }
    assert forall|x: int| 0 <= x < n && !t.fin.contains(x) implies #[trigger] t.fringe(w, n, x) by { assert(t.vl[x + 1] == s.vl[x + 1]); assert(s.dad[x] == -1); }
    assert forall|f: int, x: int| t.fin.contains(f) && 0 <= x < n && !t.fin.contains(x) implies #[trigger] t.before(f, x) by { assert(t.vl[x + 1] == s.vl[x + 1]); }
}
proof fn lemma_route_push(w: spec_fn(int, int) -> real, n: int, p: Seq<int>, a: int, f: int, t: int)
    requires route_to(w, n, p, a, f), edge(w, f, t), 0 <= t < n,
    ensures route_to(w, n, p.push(t), a, t), plen(w, p.push(t)) == plen(w, p) + wt(w, f, t),
{
    let q = p.push(t);
    assert(q.drop_last() =~= p);
    assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] step(w, q, i) by {
        if i < p.len() - 1 { assert(step(w, p, i)); } else { assert(q[i] == f && q[i + 1] == t); }
    }
}
proof fn lemma_wt(w: spec_fn(int, int) -> real, n: int, a: int, b: int)
    requires w_ok(w, n), 0 <= a < n, 0 <= b < n,
    ensures wt(w, a, b) >= 0real, wt(w, a, b) == wt(w, b, a),
{ if a >= b { assert(w(a, b) >= 0real); } else { assert(w(b, a) >= 0real); } }
/// k is finished
proof fn lemma_finish(s: Ds, t: Ds, w: spec_fn(int, int) -> real, n: int, root: int, k0: int, k: int, v: F)
    requires
        w_ok(w, n), s.part(w, n, root, k0, n), s.next_is(n, k), v@ == s.d(k),
        t == (Ds { vl: s.vl.update(k + 1, v), dad: s.dad, fin: s.fin.insert(k), rt: s.rt.update(k, s.rt[s.dad[k] as int].push(k)) }),
    ensures t.part(w, n, root, k, 0),
{
    reveal(Ds::part);
    let f0 = s.dad[k] as int;
    assert(s.fringe(w, n, k) && s.row(k));
    assert(s.done(w, n, root, f0));
    lemma_route_push(w, n, s.rt[f0], root, f0, k);
    assert forall|x: int| 0 <= x < n implies #[trigger] t.d(x) == s.d(x) by {}
    assert forall|x: int| 0 <= x < n implies #[trigger] t.row(x) by { assert(s.row(x)); }
    assert forall|x: int| t.fin.contains(x) implies #[trigger] t.done(w, n, root, x) by {
        if x == k {
            let (p, q) = (s.rt[f0], t.rt[k]);
            assert(q == p.push(k));
            assert forall|i: int| 0 <= i < q.len() implies t.fin.contains(#[trigger] q[i]) by { if i < p.len() { assert(s.fin.contains(p[i])); } }
            assert forall|i: int| 0 <= i < q.len() - 1 implies t.dad[#[trigger] q[i + 1]] == q[i] by { if i + 1 < p.len() { assert(t.dad[p[i + 1]] == p[i]); } }
        } else {
            assert(s.done(w, n, root, x));
            assert forall|i: int| 0 <= i < t.rt[x].len() implies t.fin.contains(#[trigger] t.rt[x][i]) by { assert(s.fin.contains(s.rt[x][i])); }
        }
    }
    assert forall|f: int| t.fin.contains(f) implies #[trigger] t.before(f, k) by { if f != k { assert(s.before(f, k)); } }
    assert forall|x: int| 0 <= x < n && !t.fin.contains(x) implies #[trigger] t.fringe(w, n, x) by { assert(s.fringe(w, n, x)); }
    assert forall|f: int, x: int| t.fin.contains(f) && 0 <= x < n && f != x && (f != k || x < 0 || t.fin.contains(x)) implies #[trigger] t.relaxed(w, f, x) by {
        lemma_wt(w, n, f, x);
        if f == k { assert(s.before(x, k)); }
        else { assert(s.relaxed(w, f, x)); }
    }
    assert forall|f: int, x: int| t.fin.contains(f) && 0 <= x < n && !t.fin.contains(x) implies #[trigger] t.before(f, x) by {
        if f == k { assert(s.d(k) <= s.d(x)); } else { assert(s.before(f, x)); }
    }
}
/// the edge from k to j is taken into account
proof fn lemma_relax(s: Ds, t: Ds, w: spec_fn(int, int) -> real, n: int, root: int, k: int, j: int)
    requires
        w_ok(w, n), s.part(w, n, root, k, j), 0 <= j < n, s.fin.contains(k),
        t.fin == s.fin, t.rt == s.rt,
        s.fin.contains(j) || !(edge(w, k, j) && s.d(j) > s.d(k) + wt(w, k, j)) ==> t == s,
        !s.fin.contains(j) && edge(w, k, j) && s.d(j) > s.d(k) + wt(w, k, j) ==>
            t.dad == s.dad.update(j, k as i32) && k == k as i32 && exists|v: F| v@ == -(s.d(k) + wt(w, k, j)) && t.vl == #[trigger] s.vl.update(j + 1, v),
    ensures t.part(w, n, root, k, j + 1),
{
    reveal(Ds::part);
    lemma_wt(w, n, k, j);
    assert(s.row(k) && s.row(j));
    if t != s {
        let v = choose|v: F| v@ == -(s.d(k) + wt(w, k, j)) && t.vl == #[trigger] s.vl.update(j + 1, v);
        assert forall|x: int| 0 <= x < n && x != j implies #[trigger] t.d(x) == s.d(x) by {}
        assert forall|f: int| t.fin.contains(f) implies #[trigger] t.before(f, k) by { assert(s.before(f, k)); }
        assert forall|x: int| 0 <= x < n implies #[trigger] t.row(x) by { assert(s.row(x)); }
        assert forall|x: int| t.fin.contains(x) implies #[trigger] t.done(w, n, root, x) by {
            assert(s.done(w, n, root, x));
            let p = s.rt[x];
            assert forall|i: int| 0 <= i < p.len() - 1 implies t.dad[#[trigger] p[i + 1]] == p[i] by { assert(s.fin.contains(p[i + 1])); assert(s.dad[p[i + 1]] == p[i]); }
        }
        assert forall|x: int| 0 <= x < n && !t.fin.contains(x) implies #[trigger] t.fringe(w, n, x) by { assert(s.fringe(w, n, x)); }
        assert forall|f: int, x: int| t.fin.contains(f) && 0 <= x < n && f != x && (f != k || x < j + 1 || t.fin.contains(x)) implies #[trigger] t.relaxed(w, f, x) by {
            if f != k || x != j { assert(s.relaxed(w, f, x)); }
        }
        assert forall|f: int, x: int| t.fin.contains(f) && 0 <= x < n && !t.fin.contains(x) implies #[trigger] t.before(f, x) by {
            assert(s.before(f, x));
            assert(s.before(f, k));
        }
    } else {
        assert forall|f: int, x: int| t.fin.contains(f) && 0 <= x < n && f != x && (f != k || x < j + 1 || t.fin.contains(x)) implies #[trigger] t.relaxed(w, f, x) by {
            if f != k || x != j { assert(s.relaxed(w, f, x)); }
        }
    }
}

/// every route ends at a finished vertex no farther than its weight, or an unfinished vertex is as near
spec fn near(s: Ds, n: int, l: real) -> bool { exists|y: int| 0 <= y < n && !s.fin.contains(y) && #[trigger] s.d(y) <= l }
proof fn lemma_cover(s: Ds, w: spec_fn(int, int) -> real, n: int, root: int, k: int, q: Seq<int>)
    requires w_ok(w, n), s.part(w, n, root, k, n), route(w, n, q), q[0] == root,
    ensures
        (s.fin.contains(q.last()) && s.d(q.last()) <= plen(w, q)) || near(s, n, plen(w, q)),
    decreases q.len(),
{
    reveal(Ds::part);
    if q.len() == 1 {
    } else {
        let (p, f, t) = (q.drop_last(), q[q.len() - 2], q.last());
        assert(route(w, n, p)) by {
            assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] step(w, p, i) by { assert(step(w, q, i)); }
        }
        lemma_cover(s, w, n, root, k, p);
        assert(step(w, q, q.len() - 2));
        lemma_wt(w, n, f, t);
        if s.fin.contains(f) && s.d(f) <= plen(w, p) {
            if f != t { assert(s.relaxed(w, f, t)); }
        } else {
            let y = choose|y: int| 0 <= y < n && !s.fin.contains(y) && #[trigger] s.d(y) <= plen(w, p);
            assert(s.d(y) <= plen(w, q));
        }
    }
}

/// the target is the next to be finished: its predecessors lead to the root
proof fn lemma_result(s: Ds, w: spec_fn(int, int) -> real, n: int, root: int, k: int, b: int)
    requires w_ok(w, n), s.part(w, n, root, k, n), s.next_is(n, b),
    ensures branch(w, n, s.dad, root, b), within(w, n, root, b),
{
    reveal(Ds::part);
    let f = s.dad[b] as int;
    assert(s.fringe(w, n, b));
    assert(s.done(w, n, root, f));
    let p = s.rt[f];
    lemma_route_push(w, n, p, root, f, b);
    let q = p.push(b);
    assert forall|i: int| 0 <= i < q.len() - 1 implies s.dad[#[trigger] q[i + 1]] == q[i] by { if i + 1 < p.len() { assert(s.dad[p[i + 1]] == p[i]); } }
    assert forall|r: Seq<int>| #[trigger] route_to(w, n, r, root, b) implies plen(w, q) <= plen(w, r) by { lemma_cover(s, w, n, root, k, r); }
    assert(follows(s.dad, q));
}
proof fn lemma_trivial(w: spec_fn(int, int) -> real, n: int, dad: Seq<i32>, a: int)
    requires w_ok(w, n), 0 <= a < n, dad.len() == n, dad[a] == -1,
    ensures branch(w, n, dad, a, a), within(w, n, a, a),
{
    let p = seq![a];
    assert(route_to(w, n, p, a, a) && follows(dad, p) && plen(w, p) == 0real);
    assert forall|q: Seq<int>| #[trigger] route_to(w, n, q, a, a) implies 0real <= plen(w, q) by { lemma_plen(w, n, q); }
}
proof fn lemma_plen(w: spec_fn(int, int) -> real, n: int, q: Seq<int>)
    requires w_ok(w, n), route(w, n, q),
    ensures plen(w, q) >= 0real,
    decreases q.len(),
{
    if q.len() > 1 {
        let p = q.drop_last();
        assert(route(w, n, p)) by {
            assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] step(w, p, i) by { assert(step(w, q, i)); }
        }
        lemma_plen(w, n, p);
        lemma_wt(w, n, q[q.len() - 2], q.last());
    }
}
proof fn lemma_count(fin: Set<int>, n: int)
    requires 0 <= n, forall|t: int| #[trigger] fin.contains(t) ==> 0 <= t < n,
    ensures fin.finite(), fin.len() <= n,
{
    vstd::set_lib::lemma_int_range(0, n);
    assert(fin.subset_of(vstd::set_lib::set_int_range(0, n)));
    vstd::set_lib::lemma_len_subset(fin, vstd::set_lib::set_int_range(0, n));
}
/// no vertex that is left has been reached
proof fn lemma_cast_off(s: Ds, w: spec_fn(int, int) -> real, n: int, root: int, k: int, b: int)
    requires
        w_ok(w, n), s.part(w, n, root, k, n), 0 <= b < n, !s.fin.contains(b),
        forall|t: int| 0 <= t < n && !s.fin.contains(t) ==> #[trigger] s.d(t) >= top(),
    ensures
        s.adrift(w, n, root, Set::<int>::empty()),
        !within(w, n, root, b),
{
    reveal(Ds::part);
    reveal(Ds::adrift);
    assert forall|t: int| 0 <= t < n && !s.fin.contains(t) implies #[trigger] s.shore(w, Set::<int>::empty(), t) by {
        assert(s.fringe(w, n, t));
        assert(s.d(t) >= top());
    }
    assert forall|q: Seq<int>| #[trigger] route_to(w, n, q, root, b) implies plen(w, q) >= top() by { lemma_cover(s, w, n, root, k, q); }
}
proof fn lemma_follow_push(dad: Seq<i32>, p: Seq<int>, t: int)
    requires follows(dad, p), p.len() > 0, dad[t] == p.last(),
    ensures follows(dad, p.push(t)), p.push(t)[0] == p[0],
{
    let q = p.push(t);
    assert forall|i: int| 0 <= i < q.len() - 1 implies dad[#[trigger] q[i + 1]] == q[i] by { if i + 1 < p.len() { assert(dad[p[i + 1]] == p[i]); } }
}
spec fn way(s: Ds, k: int) -> Seq<int> { if s.dad[k] == -1 { seq![k] } else { s.rt[s.dad[k] as int].push(k) } }
/// k is visited
proof fn lemma_visit(s: Ds, t: Ds, w: spec_fn(int, int) -> real, n: int, root: int, isle: Set<int>, k: int, v: F)
    requires
        s.adrift(w, n, root, isle), 0 <= k < n, !s.fin.contains(k), v@ >= 0real,
        t == (Ds { vl: s.vl.update(k + 1, v), dad: s.dad, fin: s.fin.insert(k), rt: s.rt.update(k, way(s, k)) }),
    ensures t.adrift(w, n, root, isle.insert(k)),
{
    reveal(Ds::adrift);
    let il = isle.insert(k);
    assert(s.shore(w, isle, k));
    assert forall|x: int| 0 <= x < n implies #[trigger] t.row(x) by { assert(s.row(x)); if x != k { assert(t.vl[x + 1] == s.vl[x + 1]); } }
    assert forall|x: int| il.contains(x) implies #[trigger] t.astray(w, n, il, x) by {
        if x != k {
            assert(s.astray(w, n, isle, x));
            assert forall|i: int| 0 <= i < t.rt[x].len() implies il.contains(#[trigger] t.rt[x][i]) by { assert(isle.contains(s.rt[x][i])); }
        } else if s.dad[k] == -1 {
            assert(t.rt[k] =~= seq![k]);
        } else {
            let f = s.dad[k] as int;
            assert(s.astray(w, n, isle, f));
            let p = s.rt[f];
            lemma_route_push(w, n, p, p[0], f, k);
            lemma_follow_push(s.dad, p, k);
            assert forall|i: int| 0 <= i < t.rt[k].len() implies il.contains(#[trigger] t.rt[k][i]) by { if i < p.len() { assert(isle.contains(p[i])); } }
        }
    }
    assert forall|x: int| 0 <= x < n && !t.fin.contains(x) implies #[trigger] t.shore(w, il, x) by { assert(s.shore(w, isle, x)); }
}
proof fn lemma_relax_away(s: Ds, t: Ds, w: spec_fn(int, int) -> real, n: int, root: int, isle: Set<int>, k: int, j: int)
    requires
        w_ok(w, n), s.adrift(w, n, root, isle), isle.contains(k), 0 <= j < n,
        t.fin == s.fin, t.rt == s.rt,
        s.fin.contains(j) || !(edge(w, k, j) && s.d(j) > s.d(k) + wt(w, k, j)) ==> t == s,
        !s.fin.contains(j) && edge(w, k, j) && s.d(j) > s.d(k) + wt(w, k, j) ==>
            t.dad == s.dad.update(j, k as i32) && k == k as i32 && exists|v: F| v@ == -(s.d(k) + wt(w, k, j)) && t.vl == #[trigger] s.vl.update(j + 1, v),
    ensures t.adrift(w, n, root, isle),
{
    reveal(Ds::adrift);
    lemma_wt(w, n, k, j);
    assert(s.row(k) && s.row(j));
    if t != s {
        let v = choose|v: F| v@ == -(s.d(k) + wt(w, k, j)) && t.vl == #[trigger] s.vl.update(j + 1, v);
        assert forall|x: int| 0 <= x < n implies #[trigger] t.row(x) by { assert(s.row(x)); if x != j { assert(t.vl[x + 1] == s.vl[x + 1]); } }
        assert forall|x: int| isle.contains(x) implies #[trigger] t.astray(w, n, isle, x) by {
            assert(s.astray(w, n, isle, x));
            let p = s.rt[x];
            assert(isle.contains(p[0]));
            assert forall|i: int| 0 <= i < p.len() - 1 implies t.dad[#[trigger] p[i + 1]] == p[i] by { assert(isle.contains(p[i + 1])); assert(s.dad[p[i + 1]] == p[i]); }
        }
        assert forall|x: int| 0 <= x < n && !t.fin.contains(x) implies #[trigger] t.shore(w, isle, x) by { assert(s.shore(w, isle, x)); }
    }
}
proof fn lemma_lost(s: Ds, w: spec_fn(int, int) -> real, n: int, root: int, isle: Set<int>, b: int)
    requires s.adrift(w, n, root, isle), 0 <= b < n, !s.fin.contains(b),
    ensures dead_end(w, n, s.dad, root, b),
{
    reveal(Ds::adrift);
    assert(s.shore(w, isle, b));
    let q = way(s, b);
    if s.dad[b] != -1 {
        let f = s.dad[b] as int;
        assert(s.astray(w, n, isle, f));
        lemma_route_push(w, n, s.rt[f], s.rt[f][0], f, b);
        lemma_follow_push(s.dad, s.rt[f], b);
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != root by { if i < s.rt[f].len() { assert(isle.contains(s.rt[f][i])); } }
    }
    assert(route_to(w, n, q, q[0], b) && follows(s.dad, q));
}
spec fn ds(vl: Seq<F>, dad: Seq<i32>, fin: Set<int>, rt: Seq<Seq<int>>) -> Ds { Ds { vl, dad, fin, rt } }
/// nothing is finished yet, or all edges of the finished vertices are taken into account
spec fn ready(s: Ds, w: spec_fn(int, int) -> real, n: int, root: int, last: int, min: int) -> bool {
    (s.initial(n) && min == root) || (s.part(w, n, root, last, n) && s.next_is(n, min))
}
%%% fn shortestPathGeneric
%% opt reals
%% opt inline UNSEEN
%% params Ghost(w): Ghost<spec_fn(int, int) -> real>
%% contract
    requires
        V < i32::MAX, 0 <= root < V, 0 <= target < V,
        forall|i: usize, j: usize| j <= i < V ==> #[trigger] call_requires(wadj, (i, j)),
        forall|i: usize, j: usize, y: F| j <= i < V && #[trigger] call_ensures(wadj, (i, j), y) ==> y@ == w(i as int, j as int),
        w_ok(w, V as int),
    ensures
        within(w, V as int, root as int, target as int) ==> branch(w, V as int, r@, root as int, target as int),
        !within(w, V as int, root as int, target as int) ==> dead_end(w, V as int, r@, root as int, target as int),
%% at body.start
    let ghost n = V as int;
    let ghost mut fin: Set<int> = Set::empty();
    let ghost mut isle: Set<int> = Set::empty();
    let ghost mut away = false;
    let ghost mut rt: Seq<Seq<int>> = Seq::new(V as nat, |i: int| Seq::empty());
    let ghost mut last: int = 0;
%% loop 0
    invariant
        !away ==> ready(ds(vl@, dad@, fin, rt), w, n, root as int, last, min as int),
        away ==> ds(vl@, dad@, fin, rt).adrift(w, n, root as int, isle) && !fin.contains(min as int) && !within(w, n, root as int, target as int),
        0 <= min < n,
        fin.finite(), fin.len() <= n, !fin.contains(target as int),
        vl@.len() == n + 1, dad@.len() == n, rt.len() == n,
    decreases n - fin.len(),
%% at loop0.start
    let ghost s0 = ds(vl@, dad@, fin, rt);
    let ghost n0 = fin.len();
    proof {
        if away { reveal(Ds::adrift); assert(s0.row(min as int)); }
        else if !s0.initial(n) { reveal(Ds::part); assert(s0.row(min as int)); }
    }
%% at loop1.before
    proof {
        fin = s0.fin.insert(k as int);
        assert(vl@ =~= s0.vl.update(k + 1, vl@[k + 1]));
        if away {
            rt = rt.update(k as int, way(s0, k as int));
            lemma_visit(s0, ds(vl@, dad@, fin, rt), w, n, root as int, isle, k as int, vl@[k + 1]);
            isle = isle.insert(k as int);
        } else if s0.initial(n) {
            rt = rt.update(k as int, seq![k as int]);
            lemma_start(s0, ds(vl@, dad@, fin, rt), w, n, root as int, vl@[k + 1]);
        } else {
            rt = rt.update(k as int, s0.rt[s0.dad[k as int] as int].push(k as int));
            lemma_finish(s0, ds(vl@, dad@, fin, rt), w, n, root as int, last, k as int, vl@[k + 1]);
        }
        last = k as int;
        reveal(Ds::part);
        reveal(Ds::adrift);
        lemma_count(fin, n);
    }
%% loop 1
    invariant
        !away ==> ds(vl@, dad@, fin, rt).part(w, n, root as int, k as int, vk1),
        away ==> ds(vl@, dad@, fin, rt).adrift(w, n, root as int, isle) && isle.contains(k as int),
        fin.contains(k as int),
        -1 <= min < vk1,
        min >= 0 ==> !fin.contains(min as int),
        forall|t: int| 0 <= t < vk1 && !fin.contains(t) ==> (#[trigger] vl@[t + 1])@ <= vl@[min + 1]@,
        vl@.len() == n + 1, dad@.len() == n, rt.len() == n, vl@[0]@ == -(top() + 1real),
%% at loop1.start
    let ghost s1 = ds(vl@, dad@, fin, rt);
    proof { reveal(Ds::part); reveal(Ds::adrift); assert(s1.row(t as int) && s1.row(k as int)); }
%% at loop1.end
    proof {
        let s2 = ds(vl@, dad@, fin, rt);
        if away { lemma_relax_away(s1, s2, w, n, root as int, isle, k as int, t as int); }
        else { lemma_relax(s1, s2, w, n, root as int, k as int, t as int); }
    }
%% at loop0.end
    proof {
        let s3 = ds(vl@, dad@, fin, rt);
        if !fin.contains(target as int) {
            reveal(Ds::part);
            reveal(Ds::adrift);
            assert(s3.row(target as int));
            assert(vl@[target + 1]@ <= vl@[min + 1]@);
            if !away && s3.d(min as int) >= top() {
                assert forall|x: int| 0 <= x < n && !s3.fin.contains(x) implies #[trigger] s3.d(x) >= top() by { assert(vl@[x + 1]@ <= vl@[min + 1]@); }
                lemma_cast_off(s3, w, n, root as int, k as int, target as int);
                away = true;
                isle = Set::empty();
            }
        }
    }
%% at body.end
    proof {
        let s = ds(vl@, dad@, fin, rt);
        if away {
            lemma_lost(s, w, n, root as int, isle, target as int);
        } else {
            if s.initial(n) { lemma_trivial(w, n, dad@, root as int); } else { lemma_result(s, w, n, root as int, last, target as int); }
        }
    }
