%%% file trellis/src/error.rs
%%% item Error
%%% file trellis/src/topo_sort.rs
%%% text
spec fn ent(g: &Graph, v: int) -> Seq<u32> { g.edges.ents()[v] }
spec fn gok(g: &Graph) -> bool { g.wf() && g.targets_ok() }
spec fn is_edge(g: &Graph, u: int, v: int) -> bool { 0 <= u < g.nv() && 0 <= v < g.nv() && exists|j: int| 0 <= j < ent(g, u).len() && #[trigger] ent(g, u)[j] == v }
/// w has at least one incident edge
spec fn incident(g: &Graph, w: int) -> bool { (exists|u: int| is_edge(g, u, w)) || (exists|u: int| is_edge(g, w, u)) }
spec fn is_path(g: &Graph, p: Seq<u32>) -> bool { forall|i: int| 0 <= i < p.len() - 1 ==> is_edge(g, #[trigger] p[i] as int, p[i + 1] as int) }
spec fn is_cycle(g: &Graph, p: Seq<u32>) -> bool { p.len() >= 2 && p[0] == p.last() && is_path(g, p) }
spec fn cyclic(g: &Graph) -> bool { exists|p: Seq<u32>| is_cycle(g, p) }
spec fn before(o: Seq<u32>, i: int, w: int) -> bool { exists|k: int| 0 <= k < i && #[trigger] o[k] == w }
/// o is a topological order, sinks first
spec fn rev_topo(g: &Graph, o: Seq<u32>) -> bool {
    &&& o.no_duplicates()
    &&& forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] < g.nv() && incident(g, o[i] as int)
    &&& forall|u: int, w: int| #[trigger] is_edge(g, u, w) ==> exists|i: int| 0 <= i < o.len() && #[trigger] o[i] == u && before(o, i, w)
}
/// o is a topological order, sources first
spec fn topo(g: &Graph, o: Seq<u32>) -> bool {
    &&& o.no_duplicates()
    &&& forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] < g.nv() && incident(g, o[i] as int)
    &&& forall|u: int, w: int| #[trigger] is_edge(g, u, w) ==> exists|i: int, k: int| 0 <= i < k < o.len() && #[trigger] o[i] == u && #[trigger] o[k] == w
}
proof fn lemma_reverse_topo(g: &Graph, o: Seq<u32>)
    requires rev_topo(g, o),
    ensures topo(g, o.reverse()),
{
    let r = o.reverse();
    let n = o.len();
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] < g.nv() && incident(g, r[i] as int) by { assert(r[i] == o[n - 1 - i]); }
    assert forall|u: int, w: int| #[trigger] is_edge(g, u, w) implies exists|i: int, k: int| 0 <= i < k < r.len() && #[trigger] r[i] == u && #[trigger] r[k] == w by {
        let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == u && before(o, i, w);
        let k = choose|k: int| 0 <= k < i && #[trigger] o[k] == w;
        assert(r[n - 1 - i] == u && r[n - 1 - k] == w);
    }
}
proof fn lemma_uniq(o: Seq<u32>, i: int, j: int)
    requires o.no_duplicates(), 0 <= i < o.len(), 0 <= j < o.len(), o[i] == o[j],
    ensures i == j,
{
}
/// an order exists only for acyclic graphs
proof fn lemma_topo_acyclic(g: &Graph, o: Seq<u32>)
    requires rev_topo(g, o),
    ensures !cyclic(g),
{
    if cyclic(g) {
        let p = choose|p: Seq<u32>| is_cycle(g, p);
        lemma_path_descends(g, o, p, p.len() - 1);
        let (a, b) = choose|a: int, b: int| 0 <= b < a < o.len() && o[a] == p[0] && o[b] == p[p.len() - 1];
        lemma_uniq(o, a, b);
    }
}
proof fn lemma_path_descends(g: &Graph, o: Seq<u32>, p: Seq<u32>, n: int)
    requires rev_topo(g, o), is_path(g, p), 1 <= n < p.len(),
    ensures exists|a: int, b: int| 0 <= b < a < o.len() && o[a] == p[0] && o[b] == p[n],
    decreases n,
{
    assert(is_edge(g, p[n - 1] as int, p[n - 1 + 1] as int));
    let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == p[n - 1] && before(o, i, p[n] as int);
    let k = choose|k: int| 0 <= k < i && #[trigger] o[k] == p[n];
    if n == 1 {
        assert(0 <= k < i < o.len() && o[i] == p[0] && o[k] == p[n]);
    } else {
        lemma_path_descends(g, o, p, n - 1);
        let (a, b) = choose|a: int, b: int| 0 <= b < a < o.len() && o[a] == p[0] && o[b] == p[n - 1];
        lemma_uniq(o, b, i);
        assert(0 <= k < a < o.len() && o[a] == p[0] && o[k] == p[n]);
    }
}

proof fn lemma_target(g: &Graph, v: int, j: int)
    requires gok(g), 0 <= v < g.nv(), 0 <= j < ent(g, v).len(),
    ensures ent(g, v)[j] < g.nv(), is_edge(g, v, ent(g, v)[j] as int),
{
    assert(g.edges.ents()[v][j] < g.nv());
}
%%% fn topo_sort_reverse
%% contract
    requires gok(graph),
    ensures
        r matches Ok(o) ==> rev_topo(graph, o@),
        r is Err ==> r->Err_0 == Error::FoundCycle && cyclic(graph),
        r is Ok <==> !cyclic(graph),
