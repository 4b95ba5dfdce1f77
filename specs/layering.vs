%%% file trellis/src/layering.rs
%%% item LayerMap
%%% text
/// u is one above the highest of its targets (zero without targets)
spec fn layer_ok(g: &Graph, l: Seq<u32>, u: int) -> bool {
    &&& ent(g, u).len() == 0 ==> l[u] == 0
    &&& forall|j: int| 0 <= j < ent(g, u).len() ==> l[(#[trigger] ent(g, u)[j]) as int] < l[u]
    &&& ent(g, u).len() > 0 ==> exists|j: int| 0 <= j < ent(g, u).len() && l[(#[trigger] ent(g, u)[j]) as int] + 1 == l[u]
}
spec fn layers_ok(g: &Graph, l: Seq<u32>) -> bool {
    l.len() == g.nv() && forall|u: int| 0 <= u < g.nv() ==> #[trigger] layer_ok(g, l, u)
}
spec fn starts(p: Seq<u32>, u: int) -> bool { p.len() > 0 && p[0] == u }
/// the layer of u is the length of the longest edge path leaving it
proof fn lemma_longest(g: &Graph, l: Seq<u32>, u: int)
    requires gok(g), layers_ok(g, l), 0 <= u < g.nv(),
    ensures
        forall|p: Seq<u32>| #[trigger] is_path(g, p) && starts(p, u) ==> p.len() - 1 <= l[u],
        exists|p: Seq<u32>| #[trigger] is_path(g, p) && starts(p, u) && p.len() - 1 == l[u],
    decreases l[u],
{
    assert(layer_ok(g, l, u));
    assert forall|p: Seq<u32>| #[trigger] is_path(g, p) && starts(p, u) implies p.len() - 1 <= l[u] by {
        if p.len() > 1 {
            assert(is_edge(g, p[0int] as int, p[0int + 1] as int));
            let j = choose|j: int| 0 <= j < ent(g, u).len() && #[trigger] ent(g, u)[j] == p[1];
            assert(l[p[1] as int] < l[u]);
            lemma_longest(g, l, p[1] as int);
            let q = p.drop_first();
            assert(is_path(g, q)) by {
                assert forall|i: int| 0 <= i < q.len() - 1 implies is_edge(g, #[trigger] q[i] as int, q[i + 1] as int) by {
                    assert(is_edge(g, p[i + 1] as int, p[i + 1 + 1] as int));
                }
            }
            assert(starts(q, p[1] as int));
        }
    }
    if ent(g, u).len() == 0 {
        let p = seq![u as u32];
        assert(is_path(g, p) && starts(p, u) && p.len() - 1 == l[u]);
    } else {
        let j = choose|j: int| 0 <= j < ent(g, u).len() && l[(#[trigger] ent(g, u)[j]) as int] + 1 == l[u];
        let w = ent(g, u)[j] as int;
        lemma_target(g, u, j);
        lemma_longest(g, l, w);
        let q = choose|q: Seq<u32>| #[trigger] is_path(g, q) && starts(q, w) && q.len() - 1 == l[w];
        let p = seq![u as u32] + q;
        assert forall|i: int| 0 <= i < p.len() - 1 implies is_edge(g, #[trigger] p[i] as int, p[i + 1] as int) by {
            if i > 0 { assert(is_edge(g, q[i - 1] as int, q[i - 1 + 1] as int)); }
        }
        assert(is_path(g, p) && starts(p, u) && p.len() - 1 == l[u]);
    }
}
proof fn lemma_target_before(g: &Graph, o: Seq<u32>, i: int, j: int)
    requires gok(g), rev_topo(g, o), 0 <= i < o.len(), 0 <= j < ent(g, o[i] as int).len(),
    ensures before(o, i, ent(g, o[i] as int)[j] as int), ent(g, o[i] as int)[j] != o[i], ent(g, o[i] as int)[j] < g.nv(),
{
    let t = ent(g, o[i] as int)[j];
    lemma_target(g, o[i] as int, j);
    let a = choose|a: int| 0 <= a < o.len() && #[trigger] o[a] == o[i] && before(o, a, t as int);
    lemma_uniq(o, a, i);
}
proof fn lemma_listed(o: Seq<u32>, n: int, w: u32) -> (k: int)
    requires before(o, n, w as int),
    ensures 0 <= k < n, o[k] == w,
{
    choose|k: int| 0 <= k < n && #[trigger] o[k] == w
}
/// distinct entries below nv: at most nv of them
proof fn lemma_distinct_bound(o: Seq<u32>, nv: int)
    requires o.no_duplicates(), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] < nv, nv >= 0,
    ensures o.len() <= nv,
    decreases nv,
{
    if o.len() > 0 {
        assert(o[0] < nv);
        if exists|k: int| 0 <= k < o.len() && o[k] == nv - 1 {
            let k = choose|k: int| 0 <= k < o.len() && o[k] == nv - 1;
            let p = o.remove(k);
            assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] < nv - 1 by {
                let i2 = if i < k { i } else { i + 1 };
                assert(p[i] == o[i2]);
                assert(o[i2] != o[k]);
            }
            assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by {
                let i2 = if i < k { i } else { i + 1 };
                let j2 = if j < k { j } else { j + 1 };
                assert(p[i] == o[i2] && p[j] == o[j2]);
            }
            lemma_distinct_bound(p, nv - 1);
        } else {
            assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] < nv - 1 by { }
            lemma_distinct_bound(o, nv - 1);
        }
    }
}
proof fn lemma_order_facts(g: &Graph, o: Seq<u32>)
    requires rev_topo(g, o), g.wf(),
    ensures o.len() <= g.nv(), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] < g.nv(),
{
    lemma_distinct_bound(o, g.nv());
}
proof fn lemma_layered_init(g: &Graph, o: Seq<u32>, l: Seq<u32>)
    requires l.len() == g.nv(), forall|w: int| 0 <= w < g.nv() ==> #[trigger] l[w] == 0,
    ensures layered(g, o, l, 0),
{
}
/// all targets of the next vertex have their layers
proof fn lemma_layered_facts(g: &Graph, o: Seq<u32>, l: Seq<u32>, n: int)
    requires gok(g), rev_topo(g, o), 0 < n <= o.len(), layered(g, o, l, n - 1),
    ensures
        l.len() == g.nv(),
        o[n - 1] < g.nv(),
        n <= u32::MAX,
        forall|j: int| 0 <= j < ent(g, o[n - 1] as int).len() ==> (#[trigger] ent(g, o[n - 1] as int)[j]) < g.nv() && l[ent(g, o[n - 1] as int)[j] as int] < n - 1,
{
    lemma_distinct_bound(o, g.nv());
    assert forall|j: int| 0 <= j < ent(g, o[n - 1] as int).len() implies (#[trigger] ent(g, o[n - 1] as int)[j]) < g.nv() && l[ent(g, o[n - 1] as int)[j] as int] < n - 1 by {
        lemma_target_before(g, o, n - 1, j);
        let k = lemma_listed(o, n - 1, ent(g, o[n - 1] as int)[j]);
        assert(l[o[k] as int] <= k);
    }
}
/// the first n vertices of the order have their final layers
spec fn layered(g: &Graph, o: Seq<u32>, l: Seq<u32>, n: int) -> bool {
    &&& l.len() == g.nv()
    &&& forall|i: int| 0 <= i < n ==> layer_ok(g, l, #[trigger] o[i] as int) && l[o[i] as int] <= i
    &&& forall|w: int| 0 <= w < g.nv() && !before(o, n, w) ==> #[trigger] l[w] == 0
}
spec fn next_layer(g: &Graph, l: Seq<u32>, u: int, x: int) -> bool {
    &&& ent(g, u).len() == 0 ==> x == 0
    &&& forall|j: int| 0 <= j < ent(g, u).len() ==> l[(#[trigger] ent(g, u)[j]) as int] < x
    &&& ent(g, u).len() > 0 ==> exists|j: int| 0 <= j < ent(g, u).len() && l[(#[trigger] ent(g, u)[j]) as int] + 1 == x
}
/// the layer of u depends on the layers of its targets only
proof fn lemma_layer_frame(g: &Graph, l: Seq<u32>, l2: Seq<u32>, u: int)
    requires
        next_layer(g, l, u, l2[u] as int),
        forall|j: int| 0 <= j < ent(g, u).len() ==> l2[(#[trigger] ent(g, u)[j]) as int] == l[ent(g, u)[j] as int],
    ensures layer_ok(g, l2, u),
{
    if ent(g, u).len() > 0 {
        let j = choose|j: int| 0 <= j < ent(g, u).len() && l[(#[trigger] ent(g, u)[j]) as int] + 1 == l2[u];
        assert(l2[ent(g, u)[j] as int] + 1 == l2[u]);
    }
}
proof fn lemma_layer_step(g: &Graph, o: Seq<u32>, l: Seq<u32>, n: int, x: u32)
    requires
        gok(g), rev_topo(g, o), 0 < n <= o.len(), layered(g, o, l, n - 1),
        next_layer(g, l, o[n - 1] as int, x as int),
    ensures layered(g, o, l.update(o[n - 1] as int, x), n),
{
    hide(layer_ok); hide(next_layer); hide(gok); hide(is_edge); hide(rev_topo);
    let u = o[n - 1] as int;
    let l2 = l.update(u, x);
    lemma_order_facts_(g, o);
    assert(o[n - 1] == u);
    assert forall|i: int| 0 <= i < n implies layer_ok(g, l2, #[trigger] o[i] as int) && l2[o[i] as int] <= i by {
        assert forall|j: int| 0 <= j < ent(g, o[i] as int).len() implies l2[(#[trigger] ent(g, o[i] as int)[j]) as int] == l[ent(g, o[i] as int)[j] as int] by {
            lemma_target_before(g, o, i, j);
            let k = lemma_listed(o, i, ent(g, o[i] as int)[j]);
            if o[k] == o[n - 1] { lemma_uniq_(g, o, k, n - 1); }
        }
        if i < n - 1 {
            if o[i] == o[n - 1] { lemma_uniq_(g, o, i, n - 1); }
            assert(layer_ok(g, l, o[i] as int));
            lemma_layer_next(g, l, o[i] as int);
            lemma_layer_frame(g, l, l2, o[i] as int);
        } else {
            lemma_layer_frame(g, l, l2, u);
            lemma_next_bound(g, o, l, n, x);
        }
    }
    assert forall|w: int| 0 <= w < g.nv() && !before(o, n, w) implies #[trigger] l2[w] == 0 by {
        if before(o, n - 1, w) { let k = lemma_listed(o, n - 1, w as u32); assert(o[k] == w); }
        assert(l[w] == 0);
    }
}
proof fn lemma_order_facts_(g: &Graph, o: Seq<u32>)
    requires gok(g), rev_topo(g, o),
    ensures forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] < g.nv(), g.nv() <= u32::MAX,
{
}
proof fn lemma_uniq_(g: &Graph, o: Seq<u32>, i: int, j: int)
    requires rev_topo(g, o), 0 <= i < o.len(), 0 <= j < o.len(), o[i] == o[j],
    ensures i == j,
{
}
proof fn lemma_layer_next(g: &Graph, l: Seq<u32>, u: int)
    requires layer_ok(g, l, u),
    ensures next_layer(g, l, u, l[u] as int),
{
}
proof fn lemma_next_bound(g: &Graph, o: Seq<u32>, l: Seq<u32>, n: int, x: u32)
    requires gok(g), rev_topo(g, o), 0 < n <= o.len(), layered(g, o, l, n - 1), next_layer(g, l, o[n - 1] as int, x as int),
    ensures x <= n - 1,
{
    let u = o[n - 1] as int;
    if ent(g, u).len() > 0 {
        let j = choose|j: int| 0 <= j < ent(g, u).len() && l[(#[trigger] ent(g, u)[j]) as int] + 1 == x;
        lemma_layered_facts(g, o, l, n);
    }
}
proof fn lemma_layered_all(g: &Graph, o: Seq<u32>, l: Seq<u32>)
    requires gok(g), rev_topo(g, o), layered(g, o, l, o.len() as int),
    ensures layers_ok(g, l),
{
    assert forall|u: int| 0 <= u < g.nv() implies #[trigger] layer_ok(g, l, u) by {
        if before(o, o.len() as int, u) {
            let k = lemma_listed(o, o.len() as int, u as u32);
            assert(layer_ok(g, l, o[k] as int));
        } else {
            assert(l[u] == 0);
            if ent(g, u).len() > 0 {
                lemma_target(g, u, 0);
                assert(is_edge(g, u, ent(g, u)[0] as int));
                let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == u && before(o, i, ent(g, u)[0] as int);
                assert(o[i] == u);
            }
        }
    }
}
%%% fn create_layer_map
%% contract
    requires gok(graph),
    ensures
        r is Ok <==> !cyclic(graph),
        r matches Ok(m) ==> layers_ok(graph, m.v_layer@)
            && (forall|u: int| 0 <= u < graph.nv() ==> #[trigger] m.v_layer@[u] < m.num_layers)
            && (graph.nv() == 0 ==> m.num_layers == 1)
            && (graph.nv() > 0 ==> exists|u: int| 0 <= u < graph.nv() && #[trigger] m.v_layer@[u] + 1 == m.num_layers),
        r is Err ==> r->Err_0 == Error::FoundCycle,
%% at body.start
    hide(layer_ok); hide(rev_topo); hide(layered); hide(cyclic); hide(before); hide(is_edge);
%% at loop0.before
    let ghost o = topo_order@;
    proof { lemma_order_facts(graph, o); lemma_layered_init(graph, o, v_layer@); lemma_topo_acyclic(graph, o); }
%% loop 0
    invariant
        layered(graph, o, v_layer@, vk0),
%% closure 0
|__c0_0: &u32| -> (o: u32)
    requires *__c0_0 < v_layer@.len(),
    ensures o == v_layer@[*__c0_0 as int],
%% at loop0.start
    proof {
        assert(from == o[vk0 - 1]);
        lemma_layered_facts(graph, o, v_layer@, vk0);
    }
%% at after let:to_list#0
    proof { assert(to_list@ == ent(graph, from as int)); }
%% at after let:from_layer#0
    proof {
        lemma_layer_step(graph, o, v_layer@, vk0, from_layer);
    }
%% at loop0.after
    proof { lemma_layered_all(graph, o, v_layer@); assert(v_layer.sv() == v_layer@); }
%% at after let:num_layers#0
    proof {
        assert(layers_ok(graph, v_layer@));
        assert(forall|u: int| 0 <= u < graph.nv() ==> #[trigger] v_layer@[u] < num_layers);
        assert(graph.nv() == 0 ==> num_layers == 1);
        assert(graph.nv() > 0 ==> exists|u: int| 0 <= u < graph.nv() && #[trigger] v_layer@[u] + 1 == num_layers);
    }
