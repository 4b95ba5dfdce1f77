%%% file trellis/src/lib.rs
%%% item V
%%% item Degree
%%% text
/// number of occurrences of v among the first n items of s
spec fn occ(s: Seq<u32>, n: int, v: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { occ(s, n - 1, v) + (if s[n - 1] == v { 1int } else { 0int }) }
}
/// the counter after n occurrences onto d
spec fn sat(d: int, n: int) -> int { if d + n <= 65535 { d + n } else { 65535 } }
/// which entry a stored value belongs to
proof fn lemma_owner(t: RampTable<u32>, i: int) -> (r: (int, int))
    requires t.wf(), 0 <= i < t.index@.last(), t.values@.len() == t.index@.last(),
    ensures 0 <= r.0 < t.nk(), 0 <= r.1 < t.ents()[r.0].len(), t.ents()[r.0][r.1] == t.values@[i],
{
    let u = lemma_owner_at(t, i, t.nk());
    assert(t.ents()[u][i - t.index@[u]] == t.values@[i]);
    (u, i - t.index@[u])
}
proof fn lemma_owner_at(t: RampTable<u32>, i: int, n: int) -> (u: int)
    requires t.wf(), 0 <= n <= t.nk(), 0 <= i < t.index@[n], t.values@.len() == t.index@.last(),
    ensures 0 <= u < t.nk(), t.index@[u] <= i < t.index@[u + 1],
    decreases n,
{
    if i < t.index@[n - 1] { lemma_owner_at(t, i, n - 1) } else { n - 1 }
}
proof fn lemma_entry(t: RampTable<u32>, u: int, j: int)
    requires t.wf(), 0 <= u < t.nk(), 0 <= j < t.ents()[u].len(),
    ensures 0 <= t.index@[u] + j < t.values@.len(), t.ents()[u][j] == t.values@[t.index@[u] + j],
{
    assert(t.index@[u] <= t.index@[u + 1] <= t.index@.last());
}
proof fn lemma_occ(s: Seq<u32>, n: int, v: int)
    ensures 0 <= occ(s, n, v),
    decreases n,
{
    if n > 0 { lemma_occ(s, n - 1, v); }
}
%%% fn add_degree
%% contract
    requires forall|i: int| 0 <= i < e@.len() ==> (#[trigger] e@[i]) < old(degree)@.len(),
    ensures
        final(degree)@.len() == old(degree)@.len(),
        // one more per occurrence, stopping at the greatest count; other counters unchanged
        forall|v: int| 0 <= v < old(degree)@.len() ==> (#[trigger] final(degree)@[v]) as int == sat(old(degree)@[v] as int, occ(e@, e@.len() as int, v)),
        // the flag: some occurrence could not be counted
        r <==> (exists|v: int| 0 <= v < old(degree)@.len() && (#[trigger] old(degree)@[v]) + occ(e@, e@.len() as int, v) > 65535),
%% loop 0
    invariant
        forall|i: int| 0 <= i < e@.len() ==> (#[trigger] e@[i]) < old(degree)@.len(),
        degree@.len() == old(degree)@.len(),
        forall|v: int| 0 <= v < old(degree)@.len() ==> (#[trigger] degree@[v]) as int == sat(old(degree)@[v] as int, occ(e@, vk0, v)),
        saturated <==> (exists|v: int| 0 <= v < old(degree)@.len() && (#[trigger] old(degree)@[v]) + occ(e@, vk0, v) > 65535),
%% at loop0.start
    assert(vs0[vk0 - 1] == e@[vk0 - 1]);
    proof {
        assert forall|w: int| #![trigger old(degree)@[w]] #![trigger degree@[w]] 0 <= w < degree@.len() implies
            occ(e@, vk0, w) == occ(e@, vk0 - 1, w) + (if w == v { 1int } else { 0 }) && occ(e@, vk0 - 1, w) >= 0 by { lemma_occ(e@, vk0 - 1, w); }
        assert(old(degree)@[v as int] == old(degree)@[v as int]);
        assert(degree@[v as int] as int == sat(old(degree)@[v as int] as int, occ(e@, vk0 - 1, v as int)));
    }
%% at body.result
    assert(vk0 == e@.len());
%%% fn find_degree
%% contract
    requires forall|i: int| 0 <= i < e@.len() ==> (#[trigger] e@[i]) < nv,
    ensures
        r@.len() == nv,
        forall|v: int| 0 <= v < nv ==> (#[trigger] r@[v]) as int == sat(0, occ(e@, e@.len() as int, v)),
%%% fn find_referenced_edges
%% contract
    requires forall|i: int| 0 <= i < e@.len() ==> (#[trigger] e@[i]) < nv,
    ensures
        r@.len() == nv,
        forall|v: int| 0 <= v < nv ==> ((#[trigger] r@[v]) <==> exists|i: int| 0 <= i < e@.len() && #[trigger] e@[i] == v),
%% loop 0
    invariant
        forall|i: int| 0 <= i < e@.len() ==> (#[trigger] e@[i]) < nv,
        result@.len() == nv,
        forall|v: int| 0 <= v < nv ==> ((#[trigger] result@[v]) <==> exists|i: int| 0 <= i < vk0 && #[trigger] e@[i] == v),
%% at loop0.start
    assert(vs0[vk0 - 1] == e@[vk0 - 1]);
%%% fn find_sources
%% contract
    requires
        edges.wf(),
        edges.values@.len() == edges.index@.last(),
        forall|i: int| 0 <= i < edges.values@.len() ==> (#[trigger] edges.values@[i]) < edges.nk(),
    ensures
        r@.len() == edges.nk(),
        forall|v: int| 0 <= v < r@.len() ==> ((#[trigger] r@[v]) <==> !(exists|u: int, j: int| 0 <= u < edges.nk() && 0 <= j < edges.ents()[u].len() && #[trigger] edges.ents()[u][j] == v)),
%% loop 0
    invariant
        edges.wf(),
        sources@.len() == nv,
        nv == edges.nk(),
        forall|i: int| 0 <= i < edges.values@.len() ==> (#[trigger] edges.values@[i]) < edges.nk(),
        forall|v: int| 0 <= v < nv ==> ((#[trigger] sources@[v]) <==> !(exists|i: int| 0 <= i < vk0 && #[trigger] edges.values@[i] == v)),
%% at loop0.start
    assert(vs0[vk0 - 1] == edges.values@[vk0 - 1]);
%% at body.result
    proof {
        assert forall|v: int| 0 <= v < nv implies ((#[trigger] sources@[v]) <==> !(exists|u: int, j: int| 0 <= u < edges.nk() && 0 <= j < edges.ents()[u].len() && #[trigger] edges.ents()[u][j] == v)) by {
            if !sources@[v] {
                let i = choose|i: int| 0 <= i < edges.values@.len() && #[trigger] edges.values@[i] == v;
                let (u, j) = lemma_owner(*edges, i);
                assert(edges.ents()[u][j] == v);
            } else {
                assert forall|u: int, j: int| 0 <= u < edges.nk() && 0 <= j < edges.ents()[u].len() implies #[trigger] edges.ents()[u][j] != v by {
                    lemma_entry(*edges, u, j);
                }
            }
        }
    }
%%% fn find_sinks
%% contract
    requires edges.wf(),
    ensures
        r@.len() == edges.nk(),
        forall|v: int| 0 <= v < r@.len() ==> ((#[trigger] r@[v]) <==> edges.ents()[v].len() == 0),
%% closure 0
|__c0_0: &[u32]| -> (o: bool)
    ensures o == (__c0_0@.len() == 0),
