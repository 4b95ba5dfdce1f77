%%% file trellis/src/lib.rs
%%% item traverse_depth_first_preorder/DepthFirst
%%% text
spec fn targets_ok(g: &RampTable<u32>) -> bool {
    forall|v: int, j: int| 0 <= v < g.nk() && 0 <= j < g.ents()[v].len() ==> (#[trigger] g.ents()[v][j]) < g.nk()
}
spec fn derefs(s: Seq<&u32>) -> Seq<u32> { Seq::new(s.len(), |i: int| *s[i]) }
/// the vertices still to be yielded at the levels of the stack, innermost first
spec fn pend(s: Seq<VIter<&u32>>) -> Seq<u32>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { derefs(s.last()@) + pend(s.drop_last()) }
}
spec fn in_range(p: Seq<u32>, n: int) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) < n }
impl<'a> DepthFirst<'a> {
    spec fn ok(&self) -> bool { self.graph.wf() && targets_ok(self.graph) && in_range(pend(self.stack@), self.graph.nk()) }
}
// ---- what a run of the iterator yields
/// the first n items yielded when p is pending, and what is pending then
spec fn run(g: &RampTable<u32>, p: Seq<u32>, n: nat) -> Seq<u32>
    decreases n,
{
    if n == 0 || p.len() == 0 { Seq::empty() } else { seq![p[0]] + run(g, g.ents()[p[0] as int] + p.drop_first(), (n - 1) as nat) }
}
spec fn after(g: &RampTable<u32>, p: Seq<u32>, n: nat) -> Seq<u32>
    decreases n,
{
    if n == 0 || p.len() == 0 { p } else { after(g, g.ents()[p[0] as int] + p.drop_first(), (n - 1) as nat) }
}
/// the specification: each vertex of p followed immediately by the traversal of its targets (f bounds the depth)
spec fn tr(g: &RampTable<u32>, p: Seq<u32>, f: nat) -> Seq<u32>
    decreases f, p.len(),
{
    if f == 0 || p.len() == 0 { Seq::empty() } else { seq![p[0]] + tr(g, g.ents()[p[0] as int], (f - 1) as nat) + tr(g, p.drop_first(), f) }
}
/// the longest path from each vertex of p has fewer than f edges; h witnesses that the graph is acyclic
spec fn shallow(p: Seq<u32>, h: spec_fn(int) -> nat, f: nat) -> bool { forall|i: int| 0 <= i < p.len() ==> h((#[trigger] p[i]) as int) < f }
spec fn acyclic_by(g: &RampTable<u32>, h: spec_fn(int) -> nat) -> bool {
    forall|v: int, j: int| 0 <= v < g.nk() && 0 <= j < g.ents()[v].len() ==> h((#[trigger] g.ents()[v][j]) as int) < h(v)
}
proof fn lemma_run_add(g: &RampTable<u32>, p: Seq<u32>, a: nat, b: nat)
    ensures run(g, p, a + b) == run(g, p, a) + run(g, after(g, p, a), b), after(g, p, a + b) == after(g, after(g, p, a), b),
    decreases a,
{
    if a > 0 && p.len() > 0 {
        let p2 = g.ents()[p[0] as int] + p.drop_first();
        lemma_run_add(g, p2, (a - 1) as nat, b);
        assert((a + b - 1) as nat == (a - 1) as nat + b);
        assert(run(g, p, a + b) =~= run(g, p, a) + run(g, after(g, p, a), b));
    } else {
        assert(run(g, p, a) =~= Seq::empty());
        assert(run(g, p, a + b) =~= run(g, p, a) + run(g, after(g, p, a), b));
    }
}
/// the run is the recursive traversal, and what was pending behind it stays pending
proof fn lemma_run_is_tr(g: &RampTable<u32>, h: spec_fn(int) -> nat, p: Seq<u32>, q: Seq<u32>, f: nat)
    requires g.wf(), targets_ok(g), acyclic_by(g, h), in_range(p, g.nk()), shallow(p, h, f),
    ensures
        run(g, p + q, tr(g, p, f).len()) == tr(g, p, f),
        after(g, p + q, tr(g, p, f).len()) == q,
    decreases f, p.len(),
{
    if p.len() == 0 {
        assert(p + q =~= q);
        assert(tr(g, p, f) =~= Seq::empty());
    } else {
        assert(h(p[0] as int) < f);
        let e = g.ents()[p[0] as int];
        let r = p.drop_first();
        let t1 = tr(g, e, (f - 1) as nat);
        let t2 = tr(g, r, f);
        assert forall|i: int| 0 <= i < e.len() implies h((#[trigger] e[i]) as int) < f - 1 by { assert(h(g.ents()[p[0] as int][i] as int) < h(p[0] as int)); }
        assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]) < g.nk() by { assert(g.ents()[p[0] as int][i] < g.nk()); }
        assert forall|i: int| 0 <= i < r.len() implies h((#[trigger] r[i]) as int) < f by { assert(r[i] == p[i + 1]); }
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]) < g.nk() by { assert(r[i] == p[i + 1]); }
        lemma_run_is_tr(g, h, e, r + q, (f - 1) as nat);
        lemma_run_is_tr(g, h, r, q, f);
        assert((p + q).drop_first() =~= r + q);
        assert((p + q)[0] == p[0]);
        let p2 = e + (r + q);
        lemma_run_add(g, p2, t1.len(), t2.len());
        let n = tr(g, p, f).len();
        assert(n == 1 + t1.len() + t2.len());
        assert((n - 1) as nat == t1.len() + t2.len());
        assert(run(g, p + q, n) =~= seq![p[0]] + (t1 + t2));
        assert(tr(g, p, f) =~= seq![p[0]] + (t1 + t2));
    }
}
/// the traversal of an acyclic graph from `start`: the property, for every number of items asked for
proof fn lemma_traversal(g: &RampTable<u32>, h: spec_fn(int) -> nat, start: int)
    requires g.wf(), targets_ok(g), acyclic_by(g, h), 0 <= start < g.nk(),
    ensures
        run(g, g.ents()[start], tr(g, g.ents()[start], h(start)).len()) == tr(g, g.ents()[start], h(start)),
        after(g, g.ents()[start], tr(g, g.ents()[start], h(start)).len()).len() == 0,
{
    let e = g.ents()[start];
    assert forall|i: int| 0 <= i < e.len() implies h((#[trigger] e[i]) as int) < h(start) by { assert(h(g.ents()[start][i] as int) < h(start)); }
    assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]) < g.nk() by { assert(g.ents()[start][i] < g.nk()); }
    assert(e + Seq::<u32>::empty() =~= e);
    lemma_run_is_tr(g, h, e, Seq::empty(), h(start));
}
/// on any graph: every item is a target of the start or of an earlier item
spec fn known(g: &RampTable<u32>, start: int, s: Seq<u32>, x: u32) -> bool {
    g.ents()[start].contains(x) || exists|k: int| 0 <= k < s.len() && (#[trigger] g.ents()[s[k] as int]).contains(x)
}
proof fn lemma_provenance(g: &RampTable<u32>, start: int, n: nat)
    requires g.wf(), targets_ok(g), 0 <= start < g.nk(),
    ensures ({
        let s = run(g, g.ents()[start], n);
        let p = after(g, g.ents()[start], n);
        &&& forall|i: int| 0 <= i < s.len() ==> known(g, start, s.take(i), #[trigger] s[i])
        &&& forall|i: int| 0 <= i < p.len() ==> known(g, start, s, #[trigger] p[i])
    }),
    decreases n,
{
    let e = g.ents()[start];
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_provenance(g, start, m);
        lemma_run_add(g, e, m, 1);
        let s = run(g, e, m);
        let p = after(g, e, m);
        let s1 = run(g, e, n);
        let p1 = after(g, e, n);
        reveal_with_fuel(run, 2);
        reveal_with_fuel(after, 2);
        assert(m + 1 == n);
        if p.len() > 0 {
            assert(run(g, p, 1) =~= seq![p[0]]);
            assert(s1 =~= s.push(p[0]));
            assert(p1 == g.ents()[p[0] as int] + p.drop_first());
            assert forall|i: int| 0 <= i < s1.len() implies known(g, start, s1.take(i), #[trigger] s1[i]) by {
                assert(s1.take(i) =~= s.take(i));
                if i == s.len() { assert(s.take(i) =~= s); }
            }
            assert forall|i: int| 0 <= i < p1.len() implies known(g, start, s1, #[trigger] p1[i]) by {
                let ne = g.ents()[p[0] as int].len();
                if i < ne {
                    assert(g.ents()[s1[s.len() as int] as int].contains(p1[i])) by { assert(g.ents()[p[0] as int][i] == p1[i]); }
                } else {
                    assert(p1[i] == p[i - ne + 1]);
                    if !e.contains(p1[i]) {
                        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] g.ents()[s[k] as int]).contains(p1[i]);
                        assert(s1[k] == s[k]);
                        assert(g.ents()[s1[k] as int].contains(p1[i]));
                    }
                }
            }
        } else {
            assert(s1 =~= s);
            assert(p1 =~= p);
        }
    } else {
        assert(run(g, e, n) =~= Seq::empty());
        assert(after(g, e, n) == e);
        assert forall|i: int| 0 <= i < e.len() implies known(g, start, Seq::empty(), #[trigger] e[i]) by { assert(e.contains(e[i])); }
    }
}
proof fn lemma_pend_next(s: Seq<VIter<&u32>>, t: Seq<VIter<&u32>>)
    requires s.len() > 0, t.len() == s.len(), t.drop_last() == s.drop_last(), s.last()@.len() > 0, t.last()@ == s.last()@.drop_first(),
    ensures pend(s).len() > 0, pend(s)[0] == *s.last()@[0], pend(t) == pend(s).drop_first(),
{
    reveal_with_fuel(pend, 2);
    assert(derefs(t.last()@) =~= derefs(s.last()@).drop_first());
    assert(pend(t) =~= pend(s).drop_first());
}
%%% fn traverse_depth_first_preorder/DepthFirst::next
%% contract
    requires old(self).ok(),
    ensures
        final(self).ok(),
        final(self).graph == old(self).graph,
        match r {
            None => pend(old(self).stack@).len() == 0 && pend(final(self).stack@).len() == 0,
            Some(x) => {
                &&& pend(old(self).stack@).len() > 0
                &&& x == pend(old(self).stack@)[0]
                &&& pend(final(self).stack@) == old(self).graph.ents()[x as int] + pend(old(self).stack@).drop_first()
            },
        },
%% loop 0
    invariant
        self.ok(), self.graph == old(self).graph,
        pend(self.stack@) == pend(old(self).stack@),
    ensures
        self.ok(), self.graph == old(self).graph, self.stack@.len() == 0,
        pend(self.stack@) == pend(old(self).stack@),
    decreases self.stack@.len(),
%% at loop0.top
    let ghost s0 = self.stack@;
%% at if0.then.start
    let ghost s1 = self.stack@;
    proof {
        assert(s1.drop_last() =~= s0.drop_last());
        lemma_pend_next(s0, s1);
        assert(in_range(pend(s0), self.graph.nk()));
        assert(pend(s0)[0] < self.graph.nk());
    }
%% at after push#0
    proof {
        let s2 = self.stack@;
        assert(s2.drop_last() =~= s1);
        let e = self.graph.ents()[next as int];
        assert(derefs(s2.last()@) =~= e);
        assert(pend(s2) == e + pend(s0).drop_first());
        assert forall|i: int| 0 <= i < pend(s2).len() implies (#[trigger] pend(s2)[i]) < self.graph.nk() by {
            if i < e.len() { assert(self.graph.ents()[next as int][i] < self.graph.nk()); } else { assert(pend(s2)[i] == pend(s0)[i - e.len() + 1]); }
        }
    }
%% at if0.else.start
    proof {
        assert(derefs(s0.last()@) =~= Seq::<u32>::empty());
        assert(self.stack@.drop_last() =~= s0.drop_last());
        assert(pend(s0) =~= pend(s0.drop_last()));
    }
%%% fn traverse_depth_first_preorder
%% generics <'a>
%% opt subst graph : & RampTable < u32 > => graph : &'a RampTable<u32>
%% rettype DepthFirst<'a>
%% contract
    requires graph.wf(), targets_ok(graph), start < graph.nk(),
    ensures r.ok(), r.graph == graph, pend(r.stack@) == graph.ents()[start as int],
%% at body.result
    proof {
        assert(res.stack@.drop_last() =~= Seq::empty());
        reveal_with_fuel(pend, 2);
        assert(pend(res.stack@) =~= graph.ents()[start as int]);
        assert forall|i: int| 0 <= i < pend(res.stack@).len() implies (#[trigger] pend(res.stack@)[i]) < graph.nk() by {
            assert(graph.ents()[start as int][i] < graph.nk());
        }
    }
