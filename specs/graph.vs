%%% file trellis/src/lib.rs
%%% item V
%%% item E
%%% file trellis/src/graph.rs
%%% item Graph
%%% text
impl Graph {
    spec fn nv(&self) -> int { self.edges.nk() }
    spec fn wf(&self) -> bool { self.edges.wf() && self.edges.nk() <= u32::MAX }
    /// every edge target is a vertex
    spec fn targets_ok(&self) -> bool {
        forall|v: int, j: int| 0 <= v < self.nv() && 0 <= j < self.edges.ents()[v].len() ==> (#[trigger] self.edges.ents()[v][j]) < self.nv()
    }
    /// `s` lists the first n vertices' edges, in storage order
    spec fn edges_ok(&self, s: Seq<(u32, u32)>, n: int) -> bool {
        &&& s.len() == self.edges.index@[n]
        &&& forall|j: int| 0 <= j < s.len() ==> {
            &&& (#[trigger] s[j]).0 < n
            &&& self.edges.index@[s[j].0 as int] <= j < self.edges.index@[s[j].0 + 1]
            &&& s[j].1 == self.edges.values@[j]
        }
    }
}
proof fn lemma_flat_edges(g: Graph, ss: Seq<VIter<(u32, u32)>>)
    requires
        g.wf(),
        ss.len() <= g.nv(),
        forall|i: int| 0 <= i < ss.len() ==> {
            &&& (#[trigger] ss[i])@.len() == g.edges.index@[i + 1] - g.edges.index@[i]
            &&& forall|j: int| 0 <= j < ss[i]@.len() ==> (#[trigger] ss[i]@[j]).0 == i && ss[i]@[j].1 == g.edges.values@[g.edges.index@[i] + j]
        },
    ensures
        g.edges_ok(flat(ss), ss.len() as int),
    decreases ss.len(),
{
    reveal_with_fuel(flat, 2);
    if ss.len() > 0 {
        let d = ss.drop_last();
        let n = ss.len() - 1;
        assert forall|i: int| 0 <= i < d.len() implies {
            &&& (#[trigger] d[i])@.len() == g.edges.index@[i + 1] - g.edges.index@[i]
            &&& forall|j: int| 0 <= j < d[i]@.len() ==> (#[trigger] d[i]@[j]).0 == i && d[i]@[j].1 == g.edges.values@[g.edges.index@[i] + j]
        } by {
            assert(d[i] == ss[i]);
        }
        lemma_flat_edges(g, d);
        let s = flat(ss);
        let l = ss[n]@;
        assert(s =~= flat(d) + l);
        assert forall|j: int| 0 <= j < s.len() implies {
            &&& (#[trigger] s[j]).0 < n + 1
            &&& g.edges.index@[s[j].0 as int] <= j < g.edges.index@[s[j].0 + 1]
            &&& s[j].1 == g.edges.values@[j]
        } by {
            if j < flat(d).len() {
                assert(s[j] == flat(d)[j]);
            } else {
                assert(s[j] == l[j - flat(d).len()]);
            }
        }
    }
}

%%% fn Graph::new
%% contract
    ensures r.edges.wf(), r.nv() == 0, r.edges.values@.len() == 0, r.edges.unowned() =~= Seq::<u32>::empty(), r.edges.ents() =~= Seq::<Seq<u32>>::empty(),
%%% fn Graph::edges
%% contract
    ensures *r == self.edges,
%%% fn Graph::edges_mut
%% contract
    ensures *r == old(self).edges, final(self).edges == *final(r),
%%% fn Graph::push_to
%% contract
    requires old(self).edges.wf(),
    ensures
        final(self).edges.wf(),
        final(self).edges.ents() =~~= old(self).edges.ents(),
        final(self).edges.unowned() =~= old(self).edges.unowned().push(to),
        final(self).edges.values@.len() == old(self).edges.values@.len() + 1,
%%% fn Graph::finish_from
%% contract
    requires old(self).edges.wf(), old(self).edges.values@.len() <= u32::MAX,
    ensures
        final(self).edges.wf(),
        final(self).edges.ents() =~~= old(self).edges.ents().push(old(self).edges.unowned()),
        final(self).edges.unowned() =~= Seq::<u32>::empty(),
        final(self).edges.values@ == old(self).edges.values@,
%%% fn Graph::num_verts
%% contract
    requires self.edges.wf(),
    ensures r == self.nv(),
%%% fn Graph::num_edges
%% contract
    ensures r == self.edges.values@.len(),
%%% fn Graph::edges_from
%% contract
    requires self.edges.wf(), from < self.nv(),
    ensures r@ == self.edges.ents()[from as int],
%%% fn Graph::iter_edges_flattened
%% contract
    requires self.wf(),
    ensures self.edges_ok(r@, self.nv()),
%% closure 0
|__c0_0: (usize, &[u32])| -> (o: VIter<(u32, u32)>)
    ensures o@.len() == __c0_0.1@.len(), forall|j: int| 0 <= j < o@.len() ==> (#[trigger] o@[j]).0 == __c0_0.0 as u32 && o@[j].1 == __c0_0.1@[j],
%% closure 1
|__c1_0: &u32| -> (o: (u32, u32))
    ensures o.0 == from as u32 && o.1 == *__c1_0,
%% at body.result
    proof {
        let ss = choose|ss: Seq<VIter<(u32, u32)>>| res@ == flat(ss) && ss.len() == self.nv()
            && forall|i: int| 0 <= i < ss.len() ==> {
                &&& (#[trigger] ss[i])@.len() == self.edges.index@[i + 1] - self.edges.index@[i]
                &&& forall|j: int| 0 <= j < ss[i]@.len() ==> (#[trigger] ss[i]@[j]).0 == i && ss[i]@[j].1 == self.edges.values@[self.edges.index@[i] + j]
            };
        lemma_flat_edges(*self, ss);
    }
%%% fn Graph::iter_from_edges
%% contract
    requires self.wf(),
    ensures
        r@.len() == self.nv(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1@ == self.edges.ents()[i],
%% closure 0
|__c0_0: (usize, &[u32])| -> (o: (u32, &[u32]))
    ensures o.0 == __c0_0.0 as u32 && o.1 == __c0_0.1,
%%% fn assert_graph_is_well_formed
%% contract
    requires graph.wf(), graph.targets_ok(),
%% at loop1.start
    assert(graph.edges.ents()[vk0 - 1][vk1 - 1] == to);
%%% fn assert_graph_is_well_formed#rejects as assert_graph_is_well_formed_rejects
%% opt subst vassert => vassert_returns
%% contract
    requires graph.wf(),
    ensures graph.targets_ok(),
%% loop 0
    invariant
        forall|v: int, j: int| 0 <= v < vk0 && 0 <= j < graph.edges.ents()[v].len() ==> (#[trigger] graph.edges.ents()[v][j]) < graph.nv(),
%% loop 1
    invariant
        forall|j: int| 0 <= j < vk1 ==> (#[trigger] graph.edges.ents()[vk0 - 1][j]) < graph.nv(),
%% at loop1.start
    assert(graph.edges.ents()[vk0 - 1][vk1 - 1] == to);
%% at loop1.after
    proof {
        assert(vs1.len() == graph.edges.ents()[vk0 - 1].len());
        assert forall|v: int, j: int| 0 <= v < vk0 && 0 <= j < graph.edges.ents()[v].len() implies (#[trigger] graph.edges.ents()[v][j]) < graph.nv() by {}
    }
