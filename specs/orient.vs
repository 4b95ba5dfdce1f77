%%% file trellis/src/vec2.rs
%%% item Vec2 #[derive(Clone, Copy)]
%%% item Pxy_t | f64 => F
%%% item Ppoint_t
%%% file trellis/src/pathplan/visibility.rs
%%% item COORD | f64 => F
%%% text
/// twice the signed area of the triangle: cross product of b - a and c - a
spec fn cross(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t) -> real {
    (b.x@ - a.x@) * (c.y@ - a.y@) - (b.y@ - a.y@) * (c.x@ - a.x@)
}
spec fn tol() -> real { 1real / 10000real }
/// counter-clockwise 1, clockwise -1, (nearly) collinear 0
spec fn orient(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t) -> int {
    if cross(a, b, c) > tol() { 1 } else if cross(a, b, c) < -tol() { -1 } else { 0 }
}
proof fn lemma_mul_sub(a: real, b: real, c: real, d: real)
    ensures (a - b) * (c - d) == a * c - a * d - b * c + b * d,
{
    assert((a - b) * (c - d) == a * (c - d) - b * (c - d)) by (nonlinear_arith);
    assert(a * (c - d) == a * c - a * d) by (nonlinear_arith);
    assert(b * (c - d) == b * c - b * d) by (nonlinear_arith);
}
/// commutes products of two coordinates
proof fn lemma_comm(a: real, b: real)
    ensures a * b == b * a,
{ assert(a * b == b * a) by (nonlinear_arith); }
spec fn cross_mono(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t) -> real {
    b.x@ * c.y@ - b.x@ * a.y@ - a.x@ * c.y@ - b.y@ * c.x@ + b.y@ * a.x@ + a.y@ * c.x@
}
proof fn lemma_cross_mono(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t)
    ensures cross(a, b, c) == cross_mono(a, b, c),
{
    lemma_mul_sub(b.x@, a.x@, c.y@, a.y@);
    lemma_mul_sub(b.y@, a.y@, c.x@, a.x@);
    lemma_comm(a.x@, a.y@);
}
proof fn lemma_cross(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t)
    ensures (a.y@ - b.y@) * (c.x@ - b.x@) - (c.y@ - b.y@) * (a.x@ - b.x@) == cross(a, b, c),
{
    lemma_cross_mono(a, b, c);
    lemma_mul_sub(a.y@, b.y@, c.x@, b.x@);
    lemma_mul_sub(c.y@, b.y@, a.x@, b.x@);
    lemma_comm(b.x@, a.y@); lemma_comm(b.x@, b.y@); lemma_comm(a.x@, c.y@); lemma_comm(b.x@, c.y@);
}
/// exchanging the ends reverses the sign
proof fn lemma_orient_reversed(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t)
    ensures cross(c, b, a) == -cross(a, b, c), orient(c, b, a) == -orient(a, b, c),
{
    lemma_cross_mono(a, b, c);
    lemma_cross_mono(c, b, a);
    lemma_comm(a.x@, c.y@); lemma_comm(c.x@, a.y@);
}
/// strictly between, for collinear points, decided on one coordinate
spec fn between1(a: real, b: real, c: real) -> bool { a < c < b || b < c < a }
spec fn between(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t) -> bool {
    if a.x@ != b.x@ { between1(a.x@, b.x@, c.x@) } else { between1(a.y@, b.y@, c.y@) }
}
proof fn lemma_between_symmetric(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t)
    ensures
        between(a, b, c) == between(b, a, c),
        between(a, b, c) ==> !(c.x@ == a.x@ && c.y@ == a.y@) && !(c.x@ == b.x@ && c.y@ == b.y@),
{ }
spec fn on_open_segment(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t, t: real) -> bool {
    0real < t < 1real && c.x@ == a.x@ + t * (b.x@ - a.x@) && c.y@ == a.y@ + t * (b.y@ - a.y@)
}
/// for collinear points it is membership in the open segment (a, b)
proof fn lemma_between_is_segment(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t)
    requires cross(a, b, c) == 0real, !(a.x@ == b.x@ && a.y@ == b.y@),
    ensures between(a, b, c) <==> exists|t: real| on_open_segment(a, b, c, t),
{
    let (dx, dy, ex, ey) = (b.x@ - a.x@, b.y@ - a.y@, c.x@ - a.x@, c.y@ - a.y@);
    if between(a, b, c) {
        if dx != 0real {
            let t = ex / dx;
            assert(t * dx == ex) by (nonlinear_arith) requires dx != 0real, t == ex / dx;
            assert(ey == t * dy) by (nonlinear_arith) requires dx * ey - dy * ex == 0real, t * dx == ex, dx != 0real;
            if dx > 0real { assert(0real < t < 1real) by (nonlinear_arith) requires dx > 0real, 0real < ex < dx, t * dx == ex; }
            else { assert(0real < t < 1real) by (nonlinear_arith) requires dx < 0real, dx < ex < 0real, t * dx == ex; }
            assert(on_open_segment(a, b, c, t));
        } else {
            let t = ey / dy;
            assert(t * dy == ey) by (nonlinear_arith) requires dy != 0real, t == ey / dy;
            assert(dy * ex == 0real) by (nonlinear_arith) requires dx * ey - dy * ex == 0real, dx == 0real;
            assert(ex == 0real) by (nonlinear_arith) requires dy * ex == 0real, dy != 0real;
            assert(t * dx == 0real) by (nonlinear_arith) requires dx == 0real;
            if dy > 0real { assert(0real < t < 1real) by (nonlinear_arith) requires dy > 0real, 0real < ey < dy, t * dy == ey; }
            else { assert(0real < t < 1real) by (nonlinear_arith) requires dy < 0real, dy < ey < 0real, t * dy == ey; }
            assert(on_open_segment(a, b, c, t));
        }
    }
    if exists|t: real| on_open_segment(a, b, c, t) {
        let t = choose|t: real| on_open_segment(a, b, c, t);
        if dx > 0real { assert(0real < t * dx < dx) by (nonlinear_arith) requires 0real < t < 1real, dx > 0real; }
        else if dx < 0real { assert(dx < t * dx < 0real) by (nonlinear_arith) requires 0real < t < 1real, dx < 0real; }
        else if dy > 0real { assert(0real < t * dy < dy) by (nonlinear_arith) requires 0real < t < 1real, dy > 0real; }
        else if dy < 0real { assert(dy < t * dy < 0real) by (nonlinear_arith) requires 0real < t < 1real, dy < 0real; }
    }
}
/// previous vertex, wrapping around
spec fn pv(i: int, n: int) -> int { if i == 0 { n - 1 } else { i - 1 } }
proof fn lemma_prev(i: int, n: int)
    requires 0 <= i < n,
    ensures (i + n - 1) % n == pv(i, n),
{
    if i == 0 { vstd::arithmetic::div_mod::lemma_small_mod((n - 1) as nat, n as nat); }
    else {
        vstd::arithmetic::div_mod::lemma_small_mod((i - 1) as nat, n as nat);
        vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(i - 1, n);
    }
}
/// no polygon edge sees q on its counter-clockwise side
spec fn in_polygon(ps: Seq<Ppoint_t>, q: Ppoint_t) -> bool {
    forall|i: int| 0 <= i < ps.len() ==> orient(ps[pv(i, ps.len() as int)], #[trigger] ps[i], q) != 1
}
%%% fn area2
%% opt reals
%% contract
    ensures r@ == cross(a, b, c),
%% at body.start
    proof { lemma_cross(a, b, c); }
%%% fn wind
%% opt reals
%% contract
    ensures
        r == orient(a, b, c),
        r == -orient(c, b, a),
%% at body.start
    proof { lemma_cross(a, b, c); lemma_orient_reversed(a, b, c); }
%%% fn inBetween
%% opt reals
%% contract
    ensures
        r == between(a, b, c),
        r == between(b, a, c),
        r ==> !(c.x@ == a.x@ && c.y@ == a.y@) && !(c.x@ == b.x@ && c.y@ == b.y@),
        cross(a, b, c) == 0real && !(a.x@ == b.x@ && a.y@ == b.y@) ==> (r <==> exists|t: real| on_open_segment(a, b, c, t)),
%% at body.start
    proof { lemma_between_symmetric(a, b, c); if cross(a, b, c) == 0real && !(a.x@ == b.x@ && a.y@ == b.y@) { lemma_between_is_segment(a, b, c); } }
%%% file trellis/src/pathplan/in_poly.rs
%%% fn in_poly
%% opt reals
%% attr
#[verifier::spinoff_prover]
%% contract
    requires ps@.len() <= 0x4000_0000_0000_0000,
    ensures r == in_polygon(ps@, q),
%% at body.start
    hide(orient); hide(cross);
%% loop 0
    invariant
        vs0.len() == ps@.len(), ps@.len() <= 0x4000_0000_0000_0000, forall|i: int| 0 <= i < vs0.len() ==> #[trigger] vs0[i] == (i as usize, &ps@[i]),
        forall|i: int| 0 <= i < vk0 ==> orient(ps@[pv(i, ps@.len() as int)], #[trigger] ps@[i], q) != 1,
%% at loop0.start
    let ghost gi = pv(vk0 - 1, ps@.len() as int);
    proof { lemma_prev(vk0 - 1, ps@.len() as int); assert((i as int + ps@.len() - 1) % (ps@.len() as int) == gi); assert(0 <= gi < ps@.len()); }
