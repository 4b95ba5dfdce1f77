%%% file trellis/src/graph.rs
%%% text
/// which entry a stored value belongs to
proof fn lemma_edge_at(g: &Graph, es: Seq<(u32, u32)>, u: int, j: int)
    requires g.wf(), g.edges_ok(es, g.nv()), 0 <= u < g.nv(), 0 <= j < g.edges.ents()[u].len(),
    ensures
        0 <= g.edges.index@[u] + j < es.len(),
        es[g.edges.index@[u] + j].0 == u,
        es[g.edges.index@[u] + j].1 == g.edges.ents()[u][j],
{
    let i = g.edges.index@[u] + j;
    assert(g.edges.index@[u] <= g.edges.index@[u + 1] <= g.edges.index@[g.nv()]);
    let w = es[i].0 as int;
    if w < u { assert(g.edges.index@[w + 1] <= g.edges.index@[u]); }
    if u < w { assert(g.edges.index@[u + 1] <= g.edges.index@[w]); }
}
proof fn lemma_edge_ent(g: &Graph, es: Seq<(u32, u32)>, i: int)
    requires g.wf(), g.targets_ok(), g.edges_ok(es, g.nv()), 0 <= i < es.len(),
    ensures
        0 <= es[i].0 < g.nv(),
        0 <= es[i].1 < g.nv(),
        exists|j: int| 0 <= j < g.edges.ents()[es[i].0 as int].len() && #[trigger] g.edges.ents()[es[i].0 as int][j] == es[i].1,
{
    let u = es[i].0 as int;
    let j = i - g.edges.index@[u];
    assert(g.edges.index@[u + 1] <= g.edges.index@[g.nv()]);
    assert(g.edges.ents()[u][j] == es[i].1);
}
