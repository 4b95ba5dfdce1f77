%%% file trellis/src/pathplan/mod.rs
%%% item POLYID_NONE
%%% item POLYID_UNKNOWN
%%% file trellis/src/pathplan/vis.rs
%%% item vconfig_t
%%% text
proof fn lemma_square(x: real)
    ensures x * x >= 0real, (-x) * (-x) == x * x, x * x == 0real ==> x == 0real,
{
    assert(x * x >= 0real) by (nonlinear_arith);
    assert((-x) * (-x) == x * x) by (nonlinear_arith);
    assert(x * x == 0real ==> x == 0real) by (nonlinear_arith);
}
spec fn dist2s(a: Ppoint_t, b: Ppoint_t) -> real { (a.x@ - b.x@) * (a.x@ - b.x@) + (a.y@ - b.y@) * (a.y@ - b.y@) }
spec fn distance(a: Ppoint_t, b: Ppoint_t) -> real { root(dist2s(a, b)) }
proof fn lemma_dist2(a: Ppoint_t, b: Ppoint_t)
    ensures dist2s(a, b) >= 0real, dist2s(a, b) == dist2s(b, a), a == b ==> dist2s(a, b) == 0real,
{
    let (x, y) = (a.x@ - b.x@, a.y@ - b.y@);
    lemma_square(x); lemma_square(y);
    assert(b.x@ - a.x@ == -x && b.y@ - a.y@ == -y);
    if a == b { assert(x == 0real && y == 0real); assert(0real * 0real == 0real) by (nonlinear_arith); }
}
/// the segment [c, d] blocks a and b from seeing each other: an end lies on the open segment (a, b),
/// or the two segments cross
spec fn blocks(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t, d: Ppoint_t) -> bool {
    ||| orient(a, b, c) == 0 && between(a, b, c)
    ||| orient(a, b, d) == 0 && between(a, b, d)
    ||| orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0
}
proof fn lemma_orient_swap(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t)
    ensures orient(b, a, c) == -orient(a, b, c),
{
    lemma_cross_mono(a, b, c);
    lemma_cross_mono(b, a, c);
    lemma_comm(a.x@, b.y@); lemma_comm(b.x@, a.y@);
}
proof fn lemma_blocks_symmetric(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t, d: Ppoint_t)
    ensures blocks(a, b, c, d) == blocks(b, a, c, d),
{
    lemma_orient_swap(a, b, c);
    lemma_orient_swap(a, b, d);
    let (x, y, u, v) = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b));
    assert((-x) * (-y) == x * y) by (nonlinear_arith);
    assert(u * v == v * u) by (nonlinear_arith);
}
/// b lies in the closed cone at a1 between its neighbours
spec fn cone(a0: Ppoint_t, a1: Ppoint_t, a2: Ppoint_t, b: Ppoint_t) -> bool {
    if orient(a0, a1, a2) > 0 { orient(b, a0, a1) >= 0 && orient(b, a1, a2) >= 0 } else { orient(b, a0, a1) >= 0 || orient(b, a1, a2) >= 0 }
}
// ---- the obstacles: p their vertices, next and prev the rings
spec fn linked(p: Seq<Ppoint_t>, next: Seq<i32>, prev: Seq<i32>, n: int) -> bool {
    &&& p.len() == n && next.len() == n && prev.len() == n
    &&& forall|k: int| 0 <= k < n ==> 0 <= #[trigger] next[k] < n
    &&& forall|k: int| 0 <= k < n ==> 0 <= #[trigger] prev[k] < n
}
spec fn edge_blocks(p: Seq<Ppoint_t>, next: Seq<i32>, a: Ppoint_t, b: Ppoint_t, k: int) -> bool { blocks(a, b, p[k], p[next[k] as int]) }
spec fn free(p: Seq<Ppoint_t>, next: Seq<i32>, a: Ppoint_t, b: Ppoint_t, lo: int, hi: int) -> bool {
    forall|k: int| lo <= k < hi ==> !#[trigger] edge_blocks(p, next, a, b, k)
}
spec fn sees(p: Seq<Ppoint_t>, next: Seq<i32>, prev: Seq<i32>, i: int, b: Ppoint_t) -> bool { cone(p[prev[i] as int], p[i], p[next[i] as int], b) }
/// entry of the visibility matrix
spec fn vis_val(p: Seq<Ppoint_t>, next: Seq<i32>, prev: Seq<i32>, a: int, b: int) -> real {
    if a == b { 0real }
    else if prev[a] == b || prev[b] == a { distance(p[a], p[b]) }
    else if sees(p, next, prev, a, p[b]) && sees(p, next, prev, b, p[a]) && free(p, next, p[a], p[b], 0, p.len() as int) { distance(p[a], p[b]) }
    else { 0real }
}
proof fn lemma_free_symmetric(p: Seq<Ppoint_t>, next: Seq<i32>, a: Ppoint_t, b: Ppoint_t, lo: int, hi: int)
    ensures free(p, next, a, b, lo, hi) == free(p, next, b, a, lo, hi),
{
    assert forall|k: int| #[trigger] edge_blocks(p, next, a, b, k) == edge_blocks(p, next, b, a, k) by { lemma_blocks_symmetric(a, b, p[k], p[next[k] as int]); }
    if free(p, next, a, b, lo, hi) { assert forall|k: int| lo <= k < hi implies !#[trigger] edge_blocks(p, next, b, a, k) by { assert(!edge_blocks(p, next, a, b, k)); } }
    if free(p, next, b, a, lo, hi) { assert forall|k: int| lo <= k < hi implies !#[trigger] edge_blocks(p, next, a, b, k) by { assert(edge_blocks(p, next, a, b, k) == edge_blocks(p, next, b, a, k)); } }
}
proof fn lemma_vis_symmetric(p: Seq<Ppoint_t>, next: Seq<i32>, prev: Seq<i32>, a: int, b: int)
    ensures vis_val(p, next, prev, a, b) == vis_val(p, next, prev, b, a),
{
    lemma_free_symmetric(p, next, p[a], p[b], 0, p.len() as int);
    lemma_dist2(p[a], p[b]);
}
%%% file trellis/src/pathplan/visibility.rs
%%% fn intersect
%% opt reals
%% contract
    ensures r == blocks(a, b, c, d),
%%% fn INTERSECT
%% opt reals
%% contract
    ensures r == blocks(a, b, c, d), r == blocks(b, a, c, d),
%% at body.start
    proof { lemma_blocks_symmetric(a, b, c, d); }
%%% fn in_cone
%% opt reals
%% contract
    ensures r == cone(a0, a1, a2, b),
%%% fn dist2
%% opt reals
%% contract
    ensures r@ == dist2s(a, b), r@ == dist2s(b, a),
%% at body.start
    proof { lemma_dist2(a, b); }
%%% fn dist
%% opt reals
%% contract
    ensures r@ == distance(a, b), r@ == distance(b, a), r@ >= 0real, r@ * r@ == dist2s(a, b), a == b ==> r@ == 0real,
%% at body.result
    proof { lemma_dist2(a, b); lemma_square(res@); }
%% at body.start
    proof { lemma_dist2(a, b); }
%%% fn inCone
%% opt reals
%% contract
    requires linked(pts@, nextPt@, prevPt@, pts@.len() as int), i < pts@.len(), j < pts@.len(),
    ensures r == sees(pts@, nextPt@, prevPt@, i as int, pts@[j as int]),
%%% fn clear
%% opt reals
%% contract
    requires linked(pts@, nextPt@, prevPt@, pts@.len() as int), start <= V, V <= pts@.len(),
    ensures
        r == (free(pts@, nextPt@, pti, ptj, 0, start as int) && free(pts@, nextPt@, pti, ptj, end as int, V as int)),
        r == (free(pts@, nextPt@, ptj, pti, 0, start as int) && free(pts@, nextPt@, ptj, pti, end as int, V as int)),
%% at body.start
    proof {
        lemma_free_symmetric(pts@, nextPt@, pti, ptj, 0, start as int);
        lemma_free_symmetric(pts@, nextPt@, pti, ptj, end as int, V as int);
    }
%% loop 0
    invariant free(pts@, nextPt@, pti, ptj, 0, vk0),
%% at loop0.start
    assert(edge_blocks(pts@, nextPt@, pti, ptj, k as int) == blocks(pti, ptj, pts@[k as int], pts@[nextPt@[k as int] as int]));
%% loop 1
    invariant free(pts@, nextPt@, pti, ptj, 0, start as int), free(pts@, nextPt@, pti, ptj, end as int, end + vk1),
%% at loop1.start
    assert(edge_blocks(pts@, nextPt@, pti, ptj, k as int) == blocks(pti, ptj, pts@[k as int], pts@[nextPt@[k as int] as int]));
%%% text
/// the matrix after the vertices below i have been handled
spec fn part_val(p: Seq<Ppoint_t>, next: Seq<i32>, prev: Seq<i32>, i: int, a: int, b: int) -> real {
    let (hi, lo) = if a >= b { (a, b) } else { (b, a) };
    if hi < i { vis_val(p, next, prev, a, b) }
    else if lo < i && prev[lo] == hi { distance(p[a], p[b]) }
    else { 0real }
}
/// the matrix while vertex i is handled: its link is set, and the pairs with vertices from j on
spec fn row_val(p: Seq<Ppoint_t>, next: Seq<i32>, prev: Seq<i32>, i: int, j: int, a: int, b: int) -> real {
    let (hi, lo) = if a >= b { (a, b) } else { (b, a) };
    if hi == i && (lo >= j || prev[i] == lo) || lo == i && prev[i] == hi { vis_val(p, next, prev, a, b) }
    else { part_val(p, next, prev, i, a, b) }
}
spec fn upto(w: &Array2<F>, p: Seq<Ppoint_t>, next: Seq<i32>, prev: Seq<i32>, i: int) -> bool {
    forall|a: int, b: int| 0 <= a < p.len() && 0 <= b < p.len() ==> (#[trigger] w.cell(a, b))@ == part_val(p, next, prev, i, a, b)
}
spec fn upto_row(w: &Array2<F>, p: Seq<Ppoint_t>, next: Seq<i32>, prev: Seq<i32>, i: int, j: int) -> bool {
    forall|a: int, b: int| 0 <= a < p.len() && 0 <= b < p.len() ==> (#[trigger] w.cell(a, b))@ == row_val(p, next, prev, i, j, a, b)
}
/// symmetric, with the entries the visibility rule gives
spec fn vis_ok(c: &vconfig_t) -> bool {
    &&& c.vis.wf() && c.vis.rows == c.N && c.vis.cols == c.N
    &&& forall|a: int, b: int| 0 <= a < c.N && 0 <= b < c.N ==> (#[trigger] c.vis.cell(a, b))@ == vis_val(c.P@, c.next@, c.prev@, a, b)
    &&& forall|a: int, b: int| 0 <= a < c.N && 0 <= b < c.N ==> (#[trigger] c.vis.cell(a, b))@ == c.vis.cell(b, a)@
}
spec fn same_rings(a: &vconfig_t, b: &vconfig_t) -> bool {
    a.P == b.P && a.next == b.next && a.prev == b.prev && a.start == b.start && a.N == b.N && a.Npoly == b.Npoly
}
%%% fn compVis
%% opt reals
%% opt index-ref wadj op_index
%% opt index-mut wadj op_index_mut
%% contract
    requires
        start == 0, linked(old(conf).P@, old(conf).next@, old(conf).prev@, old(conf).N as int), old(conf).N <= i32::MAX,
        old(conf).vis.wf(), old(conf).vis.rows == old(conf).N, old(conf).vis.cols == old(conf).N,
        forall|a: int, b: int| 0 <= a < old(conf).N && 0 <= b < old(conf).N ==> (#[trigger] old(conf).vis.cell(a, b))@ == 0real,
    ensures same_rings(old(conf), final(conf)), vis_ok(final(conf)),
%% at loop0.before
    let ghost (gp, gn, gv) = (pts@, nextPt@, prevPt@);
    let ghost n = V as int;
    let ghost w0 = *wadj;
%% loop 0
    invariant
        linked(gp, gn, gv, n), n == V, n <= i32::MAX, pts@ == gp, nextPt@ == gn, prevPt@ == gv,
        wadj.wf(), wadj.same_shape(&w0), w0.rows == n, w0.cols == n, w0.wf(),
        upto(wadj, gp, gn, gv, vk0),
%% loop 1
    invariant
        wadj.wf(), wadj.same_shape(&w0),
        upto_row(wadj, gp, gn, gv, i as int, end - vk1),
%% at loop1.start
    proof { lemma_vis_symmetric(gp, gn, gv, i as int, j as int); }
%% at loop1.before
    proof { lemma_vis_symmetric(gp, gn, gv, i as int, previ as int); }
%% at loop0.after
    proof {
        assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies (#[trigger] wadj.cell(a, b))@ == wadj.cell(b, a)@ by { lemma_vis_symmetric(gp, gn, gv, a, b); }
    }
%%% fn visibility
%% opt reals
%% contract
    requires linked(old(conf).P@, old(conf).next@, old(conf).prev@, old(conf).N as int), old(conf).N <= i32::MAX,
    ensures same_rings(old(conf), final(conf)), vis_ok(final(conf)),
%% at body.start
    proof { let n = conf.N as int; assert(0 <= (n + 2) * n <= 0x1_0000_0000 * 0x1_0000_0000 - 1) by (nonlinear_arith) requires 0 <= n <= 0x7fff_ffff; }
%%% text
/// polygon i has the vertices start[i] .. start[i + 1]
spec fn starts_ok(start: Seq<i32>, m: int, n: int) -> bool {
    &&& start.len() == m + 1 && m >= 0
    &&& forall|i: int| 0 <= i <= m ==> 0 <= #[trigger] start[i] <= n
    &&& forall|i: int, j: int| 0 <= i <= j <= m ==> #[trigger] start[i] <= #[trigger] start[j]
}
spec fn config_ok(c: &vconfig_t) -> bool {
    linked(c.P@, c.next@, c.prev@, c.N as int) && starts_ok(c.start@, c.Npoly as int, c.N as int)
        && c.N <= 0x4000_0000 && c.Npoly < i32::MAX
}
/// vertex k belongs to polygon pp (a negative number names none)
spec fn belongs(c: &vconfig_t, pp: int, k: int) -> bool { pp >= 0 && c.start@[pp] <= k < c.start@[pp + 1] }
spec fn poly_seq(c: &vconfig_t, i: int) -> Seq<Ppoint_t> { c.P@.subrange(c.start@[i] as int, c.start@[i + 1] as int) }
spec fn hit(c: &vconfig_t, p: Ppoint_t, i: int) -> bool { in_polygon(poly_seq(c, i), p) }
/// the first polygon that contains p
spec fn first_hit(c: &vconfig_t, p: Ppoint_t, r: int) -> bool {
    if r == POLYID_NONE { forall|i: int| 0 <= i < c.Npoly ==> !#[trigger] hit(c, p, i) }
    else { 0 <= r < c.Npoly && hit(c, p, r) && forall|i: int| 0 <= i < r ==> !#[trigger] hit(c, p, i) }
}
/// no edge of a polygon other than pp and qp blocks a from b
spec fn open_way(c: &vconfig_t, a: Ppoint_t, b: Ppoint_t, pp: int, qp: int) -> bool {
    forall|k: int| 0 <= k < c.N && !belongs(c, pp, k) && !belongs(c, qp, k) ==> !#[trigger] edge_blocks(c.P@, c.next@, a, b, k)
}
/// entry k of the visibility vector of p
spec fn pt_val(c: &vconfig_t, pp: int, p: Ppoint_t, k: int) -> real {
    if belongs(c, pp, k) { 0real }
    else if sees(c.P@, c.next@, c.prev@, k, p) && open_way(c, p, c.P@[k], pp, -1) { distance(p, c.P@[k]) }
    else { 0real }
}
spec fn pt_vec(c: &vconfig_t, pp: int, p: Ppoint_t, v: Seq<F>) -> bool {
    &&& v.len() == c.N + 2
    &&& v[c.N as int]@ == 0real && v[c.N + 1]@ == 0real
    &&& forall|k: int| 0 <= k < c.N ==> (#[trigger] v[k])@ == pt_val(c, pp, p, k)
}
spec fn lo_of(c: &vconfig_t, pp: int) -> int { if pp >= 0 { c.start@[pp] as int } else { c.N as int } }
spec fn hi_of(c: &vconfig_t, pp: int) -> int { if pp >= 0 { c.start@[pp + 1] as int } else { c.N as int } }
proof fn lemma_way(c: &vconfig_t, a: Ppoint_t, b: Ppoint_t, pp: int)
    requires config_ok(c), pp < c.Npoly,
    ensures open_way(c, a, b, pp, -1) == (free(c.P@, c.next@, a, b, 0, lo_of(c, pp)) && free(c.P@, c.next@, a, b, hi_of(c, pp), c.N as int)),
{
    let (lo, hi, n) = (lo_of(c, pp), hi_of(c, pp), c.N as int);
    if pp >= 0 { assert(c.start@[pp] <= c.start@[pp + 1]); }
    if open_way(c, a, b, pp, -1) {
        assert forall|k: int| 0 <= k < lo implies !#[trigger] edge_blocks(c.P@, c.next@, a, b, k) by { assert(!belongs(c, pp, k)); }
        assert forall|k: int| hi <= k < n implies !#[trigger] edge_blocks(c.P@, c.next@, a, b, k) by { assert(!belongs(c, pp, k)); }
    }
    if free(c.P@, c.next@, a, b, 0, lo) && free(c.P@, c.next@, a, b, hi, n) {
        assert forall|k: int| 0 <= k < c.N && !belongs(c, pp, k) && !belongs(c, -1, k) implies !#[trigger] edge_blocks(c.P@, c.next@, a, b, k) by { assert(k < lo || hi <= k); }
    }
}
proof fn lemma_ways(c: &vconfig_t)
    requires config_ok(c),
    ensures forall|a: Ppoint_t, b: Ppoint_t, pp: int| pp < c.Npoly ==> #[trigger] open_way(c, a, b, pp, -1) == (free(c.P@, c.next@, a, b, 0, lo_of(c, pp)) && free(c.P@, c.next@, a, b, hi_of(c, pp), c.N as int)),
{
    assert forall|a: Ppoint_t, b: Ppoint_t, pp: int| pp < c.Npoly implies #[trigger] open_way(c, a, b, pp, -1) == (free(c.P@, c.next@, a, b, 0, lo_of(c, pp)) && free(c.P@, c.next@, a, b, hi_of(c, pp), c.N as int)) by { lemma_way(c, a, b, pp); }
}
%%% fn polyhit
%% opt reals
%% contract
    requires config_ok(conf),
    ensures first_hit(conf, p, r as int),
%% loop 0
    invariant forall|i: int| 0 <= i < vk0 ==> !#[trigger] hit(conf, p, i),
%% at loop0.start
    proof { assert(0 <= conf.start@[i as int] <= conf.start@[i + 1] <= conf.N); }
%%% fn ptVis
%% opt reals
%% contract
    requires config_ok(conf), pp < conf.Npoly,
    ensures
        pp != POLYID_UNKNOWN ==> pt_vec(conf, pp as int, p, r@),
        pp == POLYID_UNKNOWN ==> exists|h: int| #[trigger] first_hit(conf, p, h) && pt_vec(conf, h, p, r@),
%% loop 0
    invariant
        vadj@.len() == V + 2,
        forall|i: int| 0 <= i < vk0 ==> (#[trigger] vadj@[i])@ == pt_val(conf, pp as int, p, i),
%% loop 1
    invariant
        vadj@.len() == V + 2,
        forall|i: int| 0 <= i < start + vk1 ==> (#[trigger] vadj@[i])@ == pt_val(conf, pp as int, p, i),
%% loop 2
    invariant
        vadj@.len() == V + 2,
        forall|i: int| 0 <= i < end + vk2 ==> (#[trigger] vadj@[i])@ == pt_val(conf, pp as int, p, i),
%% at body.start
    proof { lemma_ways(conf); }
%%% fn directVis
%% opt reals
%% contract
    requires config_ok(conf), pp < conf.Npoly, qp < conf.Npoly,
    ensures r == open_way(conf, p, q, pp as int, qp as int),
%% loop 0
    invariant free(conf.P@, conf.next@, p, q, 0, vk0),
%% at loop0.start
    assert(edge_blocks(conf.P@, conf.next@, p, q, k as int) == blocks(p, q, conf.P@[k as int], conf.P@[conf.next@[k as int] as int]));
%% loop 1
    invariant free(conf.P@, conf.next@, p, q, 0, s1 as int), free(conf.P@, conf.next@, p, q, e1 as int, e1 + vk1),
%% at loop1.start
    assert(edge_blocks(conf.P@, conf.next@, p, q, k as int) == blocks(p, q, conf.P@[k as int], conf.P@[conf.next@[k as int] as int]));
%% loop 2
    invariant
        free(conf.P@, conf.next@, p, q, 0, s1 as int), free(conf.P@, conf.next@, p, q, e1 as int, s2 as int),
        free(conf.P@, conf.next@, p, q, e2 as int, e2 + vk2),
%% at loop2.start
    assert(edge_blocks(conf.P@, conf.next@, p, q, k as int) == blocks(p, q, conf.P@[k as int], conf.P@[conf.next@[k as int] as int]));
