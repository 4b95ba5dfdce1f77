%%% file trellis/src/pathplan/mod.rs
%%% item Pedge_t | f64 => F
%%% file trellis/src/polyline.rs
%%% item Ppoly_t | f64 => F
%%% item Ppolyline_t
%%% file trellis/src/pathplan/route.rs
%%% text
/// a cubic by its coefficients, lowest degree first
pub struct Co { pub c0: real, pub c1: real, pub c2: real, pub c3: real }
spec fn coef(s: Seq<F>) -> Co { Co { c0: s[0]@, c1: s[1]@, c2: s[2]@, c3: s[3]@ } }
spec fn value(c: Co, t: real) -> real { c.c0 + t * (c.c1 + t * (c.c2 + t * c.c3)) }
/// the cubic with the given Bezier control values
spec fn co(v0: real, v1: real, v2: real, v3: real) -> Co {
    Co { c0: v0, c1: 3real * (v1 - v0), c2: 3real * v0 + 3real * v2 - 6real * v1, c3: v3 + 3real * v1 - (v0 + 3real * v2) }
}
/// the coordinates of the point of the cubic curve s at parameter t
spec fn xat(s: Seq<Ppoint_t>, t: real) -> real { value(co(s[0].x@, s[1].x@, s[2].x@, s[3].x@), t) }
spec fn yat(s: Seq<Ppoint_t>, t: real) -> real { value(co(s[0].y@, s[1].y@, s[2].y@, s[3].y@), t) }
/// every coefficient is treated as zero
spec fn vanishes(c: Co) -> bool { near0(c.c3) && near0(c.c2) && near0(c.c1) && near0(c.c0) }
/// a root, where leading coefficients next to zero are left out
spec fn solves(c: Co, t: real) -> bool {
    if !near0(c.c3) { cub(c.c3, c.c2, c.c1, c.c0, t) == 0real }
    else if !near0(c.c2) { is_root(c.c2, c.c1, c.c0, t) }
    else { !near0(c.c1) && is_root(0real, c.c1, c.c0, t) }
}
spec fn upright(a: Ppoint_t, b: Ppoint_t) -> bool { b.x@ - a.x@ == 0real }
spec fn slant(a: Ppoint_t, b: Ppoint_t) -> real { (b.y@ - a.y@) / (b.x@ - a.x@) }
/// distance from the line through a and b, measured along an axis, plus a constant
spec fn gap(a: Ppoint_t, b: Ppoint_t, p: Ppoint_t) -> real { if upright(a, b) { p.x@ } else { p.y@ - slant(a, b) * p.x@ } }
spec fn gaps(a: Ppoint_t, b: Ppoint_t, s: Seq<Ppoint_t>) -> Co {
    let k = co(gap(a, b, s[0]), gap(a, b, s[1]), gap(a, b, s[2]), gap(a, b, s[3]));
    Co { c0: k.c0 - gap(a, b, a), ..k }
}
/// how far along the barrier the curve is at t, when it is on its line
spec fn along(a: Ppoint_t, b: Ppoint_t, s: Seq<Ppoint_t>, t: real) -> real {
    if upright(a, b) { (yat(s, t) - a.y@) / (b.y@ - a.y@) } else { (xat(s, t) - a.x@) / (b.x@ - a.x@) }
}
/// the curve s is on the barrier from a to b at t
spec fn meets(a: Ppoint_t, b: Ppoint_t, s: Seq<Ppoint_t>, t: real) -> bool {
    solves(gaps(a, b, s), t) && 0real <= along(a, b, s, t) <= 1real
}
spec fn listed(roots: Seq<F>, n: int, t: real) -> bool { exists|i: int| 0 <= i < n && #[trigger] roots[i]@ == t }
spec fn distinct(a: Ppoint_t, b: Ppoint_t) -> bool { a.x@ != b.x@ || a.y@ != b.y@ }
proof fn lemma_quotient(r: real, n: real, d: real)
    requires r * d == n, d != 0real,
    ensures r == n / d,
{ assert(r == n / d) by (nonlinear_arith) requires r * d == n, d != 0real; }
proof fn lemma_factors(a: real, x: real, y: real, z: real)
    requires a != 0real,
    ensures a * (x * y * z) == 0real <==> x == 0real || y == 0real || z == 0real,
{
    lemma_zero_product(a, x * y * z);
    assert(x * y * z == 0real <==> x == 0real || y == 0real || z == 0real) by (nonlinear_arith);
}
/// what the root solver says about the roots
proof fn lemma_solved(c: Co, n: int, roots: Seq<F>)
    requires
        roots.len() == 4,
        near0(c.c3) ==> solved(c.c2, c.c1, c.c0, n, roots),
        !near0(c.c3) ==> cubic_roots(c.c3, c.c2, c.c1, c.c0, n, roots),
    ensures
        0 <= n <= 4, n == 4 <==> vanishes(c), n != 4 ==> n <= 3,
        n != 4 ==> forall|t: real| #[trigger] solves(c, t) <==> listed(roots, n, t),
{
    if !near0(c.c3) {
        assert forall|t: real| #[trigger] solves(c, t) <==> listed(roots, n, t) by {
            if n == 3 {
                assert(cub(c.c3, c.c2, c.c1, c.c0, t) == c.c3 * ((t - roots[0]@) * (t - roots[1]@) * (t - roots[2]@)));
                lemma_factors(c.c3, t - roots[0]@, t - roots[1]@, t - roots[2]@);
                if listed(roots, n, t) {
                    let i = choose|i: int| 0 <= i < n && #[trigger] roots[i]@ == t;
                    assert(i == 0 || i == 1 || i == 2);
                }
                if solves(c, t) {
                    if t - roots[0]@ == 0real { assert(roots[0]@ == t); }
                    else if t - roots[1]@ == 0real { assert(roots[1]@ == t); }
                    else { assert(roots[2]@ == t); }
                }
            } else {
                assert(cub(c.c3, c.c2, c.c1, c.c0, t) == 0real <==> t == roots[0]@);
                if solves(c, t) { assert(roots[0]@ == t); }
            }
        }
    }
}
/// after the first k candidates
spec fn collected(a: Ppoint_t, b: Ppoint_t, s: Seq<Ppoint_t>, cand: Seq<F>, k: int, roots: Seq<F>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> 0real <= (#[trigger] roots[i])@ <= 1real && meets(a, b, s, roots[i]@)
    &&& forall|m: int| 0 <= m < k && 0real <= (#[trigger] cand[m])@ <= 1real && meets(a, b, s, cand[m]@) ==> listed(roots, n, cand[m]@)
}
proof fn lemma_collect(a: Ppoint_t, b: Ppoint_t, s: Seq<Ppoint_t>, cand: Seq<F>, k: int, r0: Seq<F>, n0: int, r1: Seq<F>, n1: int)
    requires
        collected(a, b, s, cand, k, r0, n0), 0 <= n0 < r0.len(), 0 <= k < cand.len(),
        if 0real <= cand[k]@ <= 1real && meets(a, b, s, cand[k]@) { n1 == n0 + 1 && r1 == r0.update(n0, cand[k]) } else { n1 == n0 && r1 == r0 },
    ensures collected(a, b, s, cand, k + 1, r1, n1),
{
    assert forall|m: int| 0 <= m < k + 1 && 0real <= (#[trigger] cand[m])@ <= 1real && meets(a, b, s, cand[m]@) implies listed(r1, n1, cand[m]@) by {
        if m < k {
            let i = choose|i: int| 0 <= i < n0 && #[trigger] r0[i]@ == cand[m]@;
            assert(r1[i]@ == cand[m]@);
        } else { assert(r1[n0]@ == cand[k]@); }
    }
}
proof fn lemma_collected(a: Ppoint_t, b: Ppoint_t, s: Seq<Ppoint_t>, cand: Seq<F>, k: int, roots: Seq<F>, n: int)
    requires collected(a, b, s, cand, k, roots, n), forall|t: real| #[trigger] solves(gaps(a, b, s), t) ==> listed(cand, k, t),
    ensures forall|t: real| #![trigger meets(a, b, s, t)] (0real <= t <= 1real && meets(a, b, s, t)) <==> listed(roots, n, t),
{
    assert forall|t: real| #![trigger meets(a, b, s, t)] (0real <= t <= 1real && meets(a, b, s, t)) <==> listed(roots, n, t) by {
        if 0real <= t <= 1real && meets(a, b, s, t) {
            assert(solves(gaps(a, b, s), t));
            let m = choose|m: int| 0 <= m < k && #[trigger] cand[m]@ == t;
            assert(cand[m]@ == t);
        }
    }
}
%%% fn points2coeff
%% opt reals
%% contract
    ensures r@.len() == 4, coef(r@) == co(v0@, v1@, v2@, v3@),
%%% fn addroot
%% opt reals
%% contract
    requires *old(rootnp) < old(roots)@.len(),
    ensures
        final(roots)@.len() == old(roots)@.len(),
        if 0real <= root@ <= 1real { *final(rootnp) == *old(rootnp) + 1 && final(roots)@ == old(roots)@.update(*old(rootnp) as int, root) }
        else { *final(rootnp) == *old(rootnp) && final(roots)@ == old(roots)@ },
%%% fn splineintersectsline
%% opt reals
%% contract
    requires sps@.len() >= 4, lps@.len() >= 2, old(roots)@.len() >= 4, distinct(lps@[0], lps@[1]),
    ensures
        r <= 4, final(roots)@.len() == old(roots)@.len(), r == 4 <==> vanishes(gaps(lps@[0], lps@[1], sps@)),
        r != 4 ==> forall|t: real| #![trigger meets(lps@[0], lps@[1], sps@, t)] (0real <= t <= 1real && meets(lps@[0], lps@[1], sps@, t)) <==> listed(final(roots)@, r as int, t),
%% at body.start
    let ghost (la, lb) = (lps@[0], lps@[1]);
    let ghost w = gaps(la, lb, sps@);
%% at loop4.before
    proof { assert(coef(scoeff@) == w); lemma_solved(w, xrootn as int, xroots@); }
%% loop 4
    invariant
        rootn <= vk4, xrootn <= 3, vs4.len() == xrootn, forall|i: int| 0 <= i < vs4.len() ==> vs4[i] == i, roots@.len() == old(roots)@.len(),
        collected(la, lb, sps@, xroots@, vk4, roots@, rootn as int),
%% at loop4.start
    let ghost (before, n0) = (roots@, rootn as int);
%% at if7.then.end
    proof { lemma_quotient(sv@, yat(sps@, tv@) - la.y@, lb.y@ - la.y@); }
%% at loop4.end
    proof {
        assert(listed(xroots@, xrootn as int, xroots@[i as int]@));
        lemma_collect(la, lb, sps@, xroots@, i as int, before, n0, roots@, rootn as int);
    }
%% at loop4.after
    proof { lemma_collected(la, lb, sps@, xroots@, xrootn as int, roots@, rootn as int); }
%% at if9.then.start
    proof {
        lemma_quotient(rat@, lb.y@ - la.y@, lb.x@ - la.x@);
        assert(coef(scoeff@) == w);
        lemma_solved(w, xrootn as int, xroots@);
    }
%% at if6.then.start
    proof { assert(coef(scoeff@) == w); lemma_solved(w, xrootn as int, xroots@); }
%% at loop5.before
    proof {
        lemma_quotient(rat@, lb.y@ - la.y@, lb.x@ - la.x@);
        assert(coef(scoeff@) == w);
        lemma_solved(w, xrootn as int, xroots@);
    }
%% loop 5
    invariant
        rootn <= vk5, xrootn <= 3, vs5.len() == xrootn, forall|i: int| 0 <= i < vs5.len() ==> vs5[i] == i, roots@.len() == old(roots)@.len(),
        collected(la, lb, sps@, xroots@, vk5, roots@, rootn as int),
%% at loop5.start
    let ghost (before, n0) = (roots@, rootn as int);
%% at if10.then.end
    proof { lemma_quotient(sv@, xat(sps@, tv@) - la.x@, lb.x@ - la.x@); }
%% at loop5.end
    proof {
        assert(listed(xroots@, xrootn as int, xroots@[i as int]@));
        lemma_collect(la, lb, sps@, xroots@, i as int, before, n0, roots@, rootn as int);
    }
%% at loop5.after
    proof { lemma_collected(la, lb, sps@, xroots@, xrootn as int, roots@, rootn as int); }
%%% text
/// the end points of the pieces keep clear of this much of the parameter range
spec fn t0() -> real { 1real / 1000000real }
/// squared distance at which an end of a barrier counts as touched harmlessly
spec fn reach2() -> real { 1real / 1000real }
spec fn off2(x: real, y: real, p: Ppoint_t) -> real { (x - p.x@) * (x - p.x@) + (y - p.y@) * (y - p.y@) }
/// the curve crosses the barrier at t, away from the ends of both
spec fn crosses(e: Pedge_t, s: Seq<Ppoint_t>, t: real) -> bool {
    t0() <= t <= 1real - t0() && meets(e.a, e.b, s, t)
        && off2(xat(s, t), yat(s, t), e.a) >= reach2() && off2(xat(s, t), yat(s, t), e.b) >= reach2()
}
spec fn avoids(e: Pedge_t, s: Seq<Ppoint_t>) -> bool { vanishes(gaps(e.a, e.b, s)) || forall|t: real| !#[trigger] crosses(e, s, t) }
spec fn barriers_ok(edges: Seq<Pedge_t>) -> bool { forall|i: int| 0 <= i < edges.len() ==> distinct((#[trigger] edges[i]).a, edges[i].b) }
spec fn inside(edges: Seq<Pedge_t>, s: Seq<Ppoint_t>) -> bool { forall|i: int| 0 <= i < edges.len() ==> avoids(#[trigger] edges[i], s) }
proof fn lemma_dist4(v: real, a: real, b: real, c: real, d: real)
    ensures v * (a + b + c + d) == v * a + v * b + v * c + v * d, v * 1real == v, v * 0real == 0real,
{
    assert(v * (a + b + c + d) == v * a + v * b + v * c + v * d) by (nonlinear_arith);
    assert(v * 1real == v && v * 0real == 0real) by (nonlinear_arith);
}
proof fn lemma_scalar(k: real, v: real, t: real)
    ensures v * (k * t) == k * (v * t), t * v == v * t,
{ assert(v * (k * t) == k * (v * t) && t * v == v * t) by (nonlinear_arith); }
/// the Bernstein form is the polynomial form
#[verifier::spinoff_prover]
proof fn lemma_bernstein(v0: real, v1: real, v2: real, v3: real, t: real)
    ensures v0 * ((1real - t) * (1real - t) * (1real - t)) + v1 * (3real * t * (1real - t) * (1real - t)) + v2 * (3real * t * t * (1real - t)) + v3 * (t * t * t) == value(co(v0, v1, v2, v3), t),
{
    let (t2, t3) = (t * t, t * t * t);
    assert((1real - t) * (1real - t) * (1real - t) == 1real + (-3real * t) + 3real * t2 + (-1real * t3)) by (nonlinear_arith) requires t2 == t * t, t3 == t * t * t;
    assert(3real * t * (1real - t) * (1real - t) == 0real + 3real * t + (-6real * t2) + 3real * t3) by (nonlinear_arith) requires t2 == t * t, t3 == t * t * t;
    assert(3real * t * t * (1real - t) == 0real + 0real + 3real * t2 + (-3real * t3)) by (nonlinear_arith) requires t2 == t * t, t3 == t * t * t;
    lemma_dist4(v0, 1real, -3real * t, 3real * t2, -1real * t3);
    lemma_dist4(v1, 0real, 3real * t, -6real * t2, 3real * t3);
    lemma_dist4(v2, 0real, 0real, 3real * t2, -3real * t3);
    lemma_scalar(-3real, v0, t); lemma_scalar(3real, v0, t2); lemma_scalar(-1real, v0, t3);
    lemma_scalar(3real, v1, t); lemma_scalar(-6real, v1, t2); lemma_scalar(3real, v1, t3);
    lemma_scalar(3real, v2, t2); lemma_scalar(-3real, v2, t3);
    let c = co(v0, v1, v2, v3);
    lemma_horner(c.c1, c.c2, c.c3, t);
    lemma_scalar(1real, c.c1, t); lemma_scalar(1real, c.c2, t2); lemma_scalar(1real, c.c3, t3);
    lemma_dist4(t, 3real * v1, -3real * v0, 0real, 0real);
    lemma_dist4(t2, 3real * v0, 3real * v2, -6real * v1, 0real);
    lemma_dist4(t3, v3, 3real * v1, -1real * v0, -3real * v2);
    lemma_scalar(3real, t, v1); lemma_scalar(-3real, t, v0);
    lemma_scalar(3real, t2, v0); lemma_scalar(3real, t2, v2); lemma_scalar(-6real, t2, v1);
    lemma_scalar(3real, t3, v1); lemma_scalar(-1real, t3, v0); lemma_scalar(-3real, t3, v2); lemma_scalar(1real, t3, v3);
}
proof fn lemma_horner(a: real, b: real, c: real, t: real)
    ensures t * (a + t * (b + t * c)) == a * t + b * (t * t) + c * (t * t * t),
{ assert(t * (a + t * (b + t * c)) == a * t + b * (t * t) + c * (t * t * t)) by (nonlinear_arith); }
// ---- meets, in terms of geometry: unless a leading coefficient is next to zero without being zero,
// the curve meets the barrier exactly where its point lies on the segment
spec fn exact(c: Co) -> bool {
    &&& near0(c.c3) ==> c.c3 == 0real
    &&& near0(c.c3) && near0(c.c2) ==> c.c2 == 0real
    &&& near0(c.c3) && near0(c.c2) ==> !near0(c.c1)
}
spec fn on_segment(a: Ppoint_t, b: Ppoint_t, x: real, y: real, u: real) -> bool {
    0real <= u <= 1real && x == a.x@ + u * (b.x@ - a.x@) && y == a.y@ + u * (b.y@ - a.y@)
}
proof fn lemma_exact(c: Co, t: real)
    requires exact(c),
    ensures solves(c, t) <==> value(c, t) == 0real,
{
    lemma_horner(c.c1, c.c2, c.c3, t);
    assert(c.c1 * t == t * c.c1) by (nonlinear_arith);
    assert(c.c2 * (t * t) == c.c2 * t * t) by (nonlinear_arith);
    assert(0real * t * t == 0real && 0real * (t * t) == 0real && 0real * (t * t * t) == 0real) by (nonlinear_arith);
}
proof fn lemma_difference(p: Co, q: Co, r: real, t: real)
    ensures value(Co { c0: p.c0 - r * q.c0, c1: p.c1 - r * q.c1, c2: p.c2 - r * q.c2, c3: p.c3 - r * q.c3 }, t) == value(p, t) - r * value(q, t),
{
    let (e1, e2, e3) = (r * q.c1, r * q.c2, r * q.c3);
    lemma_horner(p.c1 - e1, p.c2 - e2, p.c3 - e3, t);
    lemma_horner(p.c1, p.c2, p.c3, t);
    lemma_horner(q.c1, q.c2, q.c3, t);
    let (t2, t3) = (t * t, t * t * t);
    assert((p.c1 - e1) * t == p.c1 * t - e1 * t) by (nonlinear_arith);
    assert((p.c2 - e2) * t2 == p.c2 * t2 - e2 * t2) by (nonlinear_arith);
    assert((p.c3 - e3) * t3 == p.c3 * t3 - e3 * t3) by (nonlinear_arith);
    assert(e1 * t == r * (q.c1 * t)) by (nonlinear_arith) requires e1 == r * q.c1;
    assert(e2 * t2 == r * (q.c2 * t2)) by (nonlinear_arith) requires e2 == r * q.c2;
    assert(e3 * t3 == r * (q.c3 * t3)) by (nonlinear_arith) requires e3 == r * q.c3;
    lemma_dist4(r, q.c0, q.c1 * t, q.c2 * t2, q.c3 * t3);
}
proof fn lemma_co_difference(r: real, y0: real, y1: real, y2: real, y3: real, x0: real, x1: real, x2: real, x3: real)
    ensures ({
        let (p, q) = (co(y0, y1, y2, y3), co(x0, x1, x2, x3));
        co(y0 - r * x0, y1 - r * x1, y2 - r * x2, y3 - r * x3) == Co { c0: p.c0 - r * q.c0, c1: p.c1 - r * q.c1, c2: p.c2 - r * q.c2, c3: p.c3 - r * q.c3 }
    }),
{
    assert(r * (3real * (x1 - x0)) == 3real * (r * x1) - 3real * (r * x0)) by (nonlinear_arith);
    assert(r * (3real * x0 + 3real * x2 - 6real * x1) == 3real * (r * x0) + 3real * (r * x2) - 6real * (r * x1)) by (nonlinear_arith);
    assert(r * (x3 + 3real * x1 - (x0 + 3real * x2)) == r * x3 + 3real * (r * x1) - (r * x0 + 3real * (r * x2))) by (nonlinear_arith);
}
proof fn lemma_ratio(n: real, d: real)
    requires d != 0real,
    ensures (n / d) * d == n,
{ assert((n / d) * d == n) by (nonlinear_arith) requires d != 0real; }
#[verifier::spinoff_prover]
proof fn lemma_meets(a: Ppoint_t, b: Ppoint_t, s: Seq<Ppoint_t>, t: real)
    requires distinct(a, b), exact(gaps(a, b, s)),
    ensures meets(a, b, s, t) <==> exists|u: real| #[trigger] on_segment(a, b, xat(s, t), yat(s, t), u),
{
    let (x, y, dx, dy, u) = (xat(s, t), yat(s, t), b.x@ - a.x@, b.y@ - a.y@, along(a, b, s, t));
    lemma_exact(gaps(a, b, s), t);
    if upright(a, b) {
        lemma_ratio(y - a.y@, dy);
        assert(forall|w: real| #![trigger on_segment(a, b, x, y, w)] w * dx == 0real) by (nonlinear_arith) requires dx == 0real;
        assert(value(gaps(a, b, s), t) == x - a.x@);
        if meets(a, b, s, t) { assert(on_segment(a, b, x, y, u)); }
        assert forall|w: real| #[trigger] on_segment(a, b, x, y, w) implies meets(a, b, s, t) by { lemma_quotient(w, y - a.y@, dy); }
    } else {
        let r = slant(a, b);
        lemma_ratio(y - a.y@, dx); lemma_ratio(x - a.x@, dx); lemma_ratio(dy, dx);
        lemma_co_difference(r, s[0].y@, s[1].y@, s[2].y@, s[3].y@, s[0].x@, s[1].x@, s[2].x@, s[3].x@);
        lemma_difference(co(s[0].y@, s[1].y@, s[2].y@, s[3].y@), co(s[0].x@, s[1].x@, s[2].x@, s[3].x@), r, t);
        let k = co(gap(a, b, s[0]), gap(a, b, s[1]), gap(a, b, s[2]), gap(a, b, s[3]));
        assert(value(k, t) == y - r * x);
        assert(value(gaps(a, b, s), t) == value(k, t) - gap(a, b, a));
        if meets(a, b, s, t) {
            assert(y - a.y@ == u * dy) by (nonlinear_arith) requires y - a.y@ == r * x - r * a.x@, r * dx == dy, u * dx == x - a.x@;
            assert(on_segment(a, b, x, y, u));
        }
        assert forall|w: real| #[trigger] on_segment(a, b, x, y, w) implies meets(a, b, s, t) by {
            lemma_quotient(w, x - a.x@, dx);
            assert(w * dy == r * x - r * a.x@) by (nonlinear_arith) requires r * dx == dy, x == a.x@ + w * dx;
        }
    }
}
%%% fn DISTSQ
%% opt reals
%% contract
    ensures r@ == off2(a.x@, a.y@, b),
%%% fn splineisinside
%% opt reals
%% opt inline EPSILON1
%% opt inline EPSILON2
%% contract
    requires sps@.len() >= 4, barriers_ok(edges@),
    ensures r == inside(edges@, sps@),
%% loop 0
    invariant
        vs0.len() == edges@.len(), forall|i: int| 0 <= i < vs0.len() ==> *(#[trigger] vs0[i]) == edges@[i],
        forall|i: int| 0 <= i < vk0 ==> avoids(#[trigger] edges@[i], sps@),
%% loop 1
    invariant
        rootn <= 3, vs1.len() == rootn, forall|i: int| 0 <= i < vs1.len() ==> vs1[i] == i, roots@.len() == 4,
        forall|i: int| 0 <= i < vk1 ==> !crosses(*ei, sps@, (#[trigger] roots@[i])@),
%% at loop1.start
    proof {
        let i = rooti as int;
        assert(crosses(*ei, sps@, roots@[i]@) ==> !avoids(*ei, sps@));
        assert(*ei == edges@[vk0 - 1]);
        assert(listed(roots@, rootn as int, roots@[i]@)); lemma_bernstein(sps@[0].x@, sps@[1].x@, sps@[2].x@, sps@[3].x@, roots@[i]@); lemma_bernstein(sps@[0].y@, sps@[1].y@, sps@[2].y@, sps@[3].y@, roots@[i]@);
    }
%% at loop1.after
    proof {
        assert forall|t: real| !#[trigger] crosses(*ei, sps@, t) by {
            if crosses(*ei, sps@, t) {
                assert(meets(ei.a, ei.b, sps@, t));
                assert(listed(roots@, rootn as int, t));
                let i = choose|i: int| 0 <= i < rootn && #[trigger] roots@[i]@ == t;
                assert(!crosses(*ei, sps@, roots@[i]@));
            }
        }
    }
%%% text
spec fn len2(x: real, y: real) -> real { x * x + y * y }
spec fn length(a: Ppoint_t, b: Ppoint_t) -> real { root(len2(b.x@ - a.x@, b.y@ - a.y@)) }
/// the length of the polyline
spec fn path_length(s: Seq<Ppoint_t>) -> real
    decreases s.len(),
{ if s.len() < 2 { 0real } else { path_length(s.drop_last()) + length(s[s.len() - 2], s.last()) } }
proof fn lemma_len2(x: real, y: real)
    ensures len2(x, y) >= 0real, len2(x, y) == 0real ==> x == 0real && y == 0real,
{
    lemma_sq(x, 0real); lemma_sq(y, 0real);
}
proof fn lemma_length(a: Ppoint_t, b: Ppoint_t)
    ensures length(a, b) >= 0real, distinct(a, b) ==> length(a, b) > 0real,
{
    let (x, y) = (b.x@ - a.x@, b.y@ - a.y@);
    lemma_len2(x, y);
    axiom_root(len2(x, y));
    if distinct(a, b) && root(len2(x, y)) == 0real { assert(0real * 0real == 0real) by (nonlinear_arith); }
}
proof fn lemma_mono(a: real, b: real)
    requires b >= 0real, a * a <= b * b,
    ensures a <= b,
{ assert(a <= b) by (nonlinear_arith) requires b >= 0real, a * a <= b * b; }
#[verifier::spinoff_prover]
proof fn lemma_cauchy(x: real, y: real, u: real, v: real)
    ensures (x * u + y * v) * (x * u + y * v) <= len2(x, y) * len2(u, v),
{
    let (a, b, c, d) = (x * u, y * v, x * v, y * u);
    let (e, f) = (a + b, c - d);
    assert(f * f >= 0real) by (nonlinear_arith);
    assert(e * e == a * a + 2real * (a * b) + b * b) by (nonlinear_arith) requires e == a + b;
    assert(f * f == c * c - 2real * (c * d) + d * d) by (nonlinear_arith) requires f == c - d;
    assert(a * b == c * d) by (nonlinear_arith) requires a == x * u, b == y * v, c == x * v, d == y * u;
    assert((x * x) * (u * u) == a * a && (y * y) * (v * v) == b * b && (x * x) * (v * v) == c * c && (y * y) * (u * u) == d * d) by (nonlinear_arith)
        requires a == x * u, b == y * v, c == x * v, d == y * u;
    let (p, q, m, n) = (x * x, y * y, u * u, v * v);
    assert((p + q) * (m + n) == p * m + p * n + q * m + q * n) by (nonlinear_arith);
}
/// the triangle inequality
#[verifier::spinoff_prover]
proof fn lemma_triangle(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t)
    ensures length(a, c) <= length(a, b) + length(b, c),
{
    let (x, y, u, v) = (b.x@ - a.x@, b.y@ - a.y@, c.x@ - b.x@, c.y@ - b.y@);
    lemma_len2(x, y); lemma_len2(u, v); lemma_len2(x + u, y + v);
    axiom_root(len2(x, y)); axiom_root(len2(u, v)); axiom_root(len2(x + u, y + v));
    assert(c.x@ - a.x@ == x + u && c.y@ - a.y@ == y + v);
    let (p, q, d) = (root(len2(x, y)), root(len2(u, v)), x * u + y * v);
    lemma_cauchy(x, y, u, v);
    assert((p * q) * (p * q) == (p * p) * (q * q)) by (nonlinear_arith);
    assert(p * q >= 0real) by (nonlinear_arith) requires p >= 0real, q >= 0real;
    lemma_mono(d, p * q);
    assert((x + u) * (x + u) + (y + v) * (y + v) == (x * x + y * y) + (u * u + v * v) + 2real * d) by (nonlinear_arith) requires d == x * u + y * v;
    assert((p + q) * (p + q) == p * p + q * q + 2real * (p * q)) by (nonlinear_arith);
    lemma_mono(length(a, c), p + q);
}
proof fn lemma_path_length(s: Seq<Ppoint_t>)
    ensures path_length(s) >= 0real,
    decreases s.len(),
{ if s.len() >= 2 { lemma_path_length(s.drop_last()); lemma_length(s[s.len() - 2], s.last()); } }
proof fn lemma_path_step(s: Seq<Ppoint_t>, k: int)
    requires 2 <= k <= s.len(),
    ensures path_length(s.take(k)) == path_length(s.take(k - 1)) + length(s[k - 2], s[k - 1]),
{ assert(s.take(k).drop_last() =~= s.take(k - 1)); }
/// the control polygon of a piece is no shorter than its chord
proof fn lemma_chord(s: Seq<Ppoint_t>)
    requires s.len() == 4,
    ensures path_length(s) >= length(s[0], s[3]),
{
    lemma_path_step(s, 4); lemma_path_step(s, 3); lemma_path_step(s, 2);
    assert(s.take(4) =~= s);
    assert(path_length(s.take(1)) == 0real);
    lemma_triangle(s[0], s[1], s[2]); lemma_triangle(s[0], s[2], s[3]);
}
/// q is ahead of p in the direction u, at l times its length
spec fn step(p: Ppoint_t, q: Ppoint_t, u: Ppoint_t, l: real) -> bool { q.x@ == p.x@ + l * u.x@ && q.y@ == p.y@ + l * u.y@ }
spec fn ahead(p: Ppoint_t, q: Ppoint_t, u: Ppoint_t) -> bool { exists|l: real| l >= 0real && #[trigger] step(p, q, u, l) }
spec fn multiple(v: Ppoint_t, u: Ppoint_t) -> bool { exists|l: real| l >= 0real && #[trigger] vscaled(v, u, l) }
proof fn lemma_ahead(p: Ppoint_t, q: Ppoint_t, v: Ppoint_t, u: Ppoint_t)
    requires ahead(p, q, v), multiple(v, u),
    ensures ahead(p, q, u),
{
    let l = choose|l: real| l >= 0real && #[trigger] step(p, q, v, l);
    let m = choose|l: real| l >= 0real && #[trigger] vscaled(v, u, l);
    assert(l * (u.x@ * m) == (l * m) * u.x@ && l * (u.y@ * m) == (l * m) * u.y@) by (nonlinear_arith);
    assert(l * m >= 0real) by (nonlinear_arith) requires l >= 0real, m >= 0real;
    assert(step(p, q, u, l * m));
}
/// the direction of v, of length one unless v is next to zero
spec fn unit(v: Ppoint_t, r: Ppoint_t) -> bool {
    if len2(v.x@, v.y@) > 1real / 1000000real { len2(r.x@, r.y@) == 1real && multiple(v, r) } else { r == v }
}
%%% fn dist
%% opt reals
%% contract
    ensures r@ == length(p1, p2), r@ >= 0real,
%% at body.start
    proof { lemma_len2(p2.x@ - p1.x@, p2.y@ - p1.y@); lemma_length(p1, p2); }
%%% fn dist_n
%% opt reals
%% contract
    ensures r@ == path_length(ps@),
%% loop 0
    invariant
        vs0.len() == (if ps@.len() < 2 { 0 } else { ps@.len() - 1 }),
        forall|i: int| 0 <= i < vs0.len() ==> (#[trigger] vs0[i])@ == seq![ps@[i], ps@[i + 1]],
        rv@ == path_length(ps@.take(if ps@.len() == 0 { 0 } else { vk0 + 1 })),
%% at loop0.start
    proof {
        let i = vk0 - 1;
        assert(p@ == seq![ps@[i], ps@[i + 1]]);
        assert(p@[0] == ps@[i] && p@[1] == ps@[i + 1]);
        lemma_len2(ps@[i + 1].x@ - ps@[i].x@, ps@[i + 1].y@ - ps@[i].y@);
        lemma_path_step(ps@, vk0 + 1);
    }
%% at loop0.after
    proof { assert(ps@.take(ps@.len() as int) =~= ps@); }
%%% fn add
%% opt reals
%% contract
    ensures vsum(r, p1, p2),
%%% fn sub
%% opt reals
%% contract
    ensures vdifference(r, p1, p2),
%%% fn scale
%% opt reals
%% contract
    ensures vscaled(r, p, c@),
%%% fn dot
%% opt reals
%% contract
    ensures r@ == p1.x@ * p2.x@ + p1.y@ * p2.y@,
%%% fn normv
%% opt reals
%% contract
    ensures unit(v, r),
%% at if0.then.end
    proof { axiom_root(d2@); assert(0real * 0real == 0real) by (nonlinear_arith); }
%% at body.result
    proof {
        if len2(v.x@, v.y@) > 1real / 1000000real {
            let k = root(d2@);
            axiom_root(d2@);
            assert(k > 0real);
            assert(len2(res.x@, res.y@) == 1real) by {
                let (x, y) = (res.x@, res.y@);
                assert((x * k) * (x * k) + (y * k) * (y * k) == (x * x + y * y) * (k * k)) by (nonlinear_arith);
                let (z, d) = (x * x + y * y, k * k);
                assert(z == 1real) by (nonlinear_arith) requires z * d == d, d > 0real;
            }
            assert(vscaled(v, res, k));
        }
    }
%%% fn B0
%% opt reals
%%% fn B1
%% opt reals
%%% fn B2
%% opt reals
%%% fn B3
%% opt reals
%%% fn B01
%% opt reals
%%% fn B23
%% opt reals
%%% item tna_t | f64 => F
%%% item Context
%%% item Spline
%%% text
// stands for the enum of the repository, which has no variant
struct RouteError {}
// derived in the repository
impl Default for tna_t {
    #[verifier::external_body]
    fn default() -> (r: tna_t) { unimplemented!() }
}
impl Default for Context {
    fn default() -> (r: Context) ensures no_points(r), { Context { ops: Vec::new() } }
}
pub closed spec fn no_points(c: Context) -> bool { c.ops@.len() == 0 }
spec fn same(p: Ppoint_t, q: Ppoint_t) -> bool { p.x@ == q.x@ && p.y@ == q.y@ }
/// a piece leaves its first point in the direction u and reaches its last in the direction v;
/// it avoids the barriers, or is the straight line between two neighbouring points of the path
spec fn piece(edges: Seq<Pedge_t>, s: Seq<Ppoint_t>, u: Ppoint_t, v: Ppoint_t, short: bool) -> bool {
    &&& s.len() == 4 && ahead(s[0], s[1], u) && ahead(s[2], s[3], v)
    &&& inside(edges, s) || short && same(s[1], s[0]) && same(s[2], s[3])
}
spec fn nth_piece(edges: Seq<Pedge_t>, ops: Seq<Ppoint_t>, base: int, cut: Seq<int>, dir: Seq<Ppoint_t>, i: int) -> bool {
    piece(edges, ops.subrange(base + 3 * i, base + 3 * i + 4), dir[i], dir[i + 1], cut[i + 1] == cut[i] + 1)
}
spec fn cuts(path: Seq<Ppoint_t>, ops: Seq<Ppoint_t>, base: int, cut: Seq<int>, i: int) -> bool { 0 <= cut[i] < path.len() && ops[base + 3 * i] == path[cut[i]] }
/// ops, from base on, is a curve of pieces through the points of the path numbered cut, with the directions dir there
spec fn curve(edges: Seq<Pedge_t>, path: Seq<Ppoint_t>, ops: Seq<Ppoint_t>, base: int, cut: Seq<int>, dir: Seq<Ppoint_t>) -> bool {
    let n = cut.len() - 1;
    &&& n >= 1 && dir.len() == cut.len() && cut[0] == 0 && cut[n] == path.len() - 1
    &&& base >= 0 && ops.len() == base + 3 * n + 1
    &&& forall|i: int| 0 <= i < n ==> #[trigger] cut[i] < cut[i + 1]
    &&& forall|i: int| 0 <= i <= n ==> #[trigger] cuts(path, ops, base, cut, i)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] nth_piece(edges, ops, base, cut, dir, i)
}
spec fn path_ok(path: Seq<Ppoint_t>) -> bool {
    2 <= path.len() <= 0x7fff_ffff && forall|i: int| 1 <= i < path.len() ==> distinct(path[i - 1], #[trigger] path[i])
}
proof fn lemma_one_piece(edges: Seq<Pedge_t>, path: Seq<Ppoint_t>, ops: Seq<Ppoint_t>, base: int, u: Ppoint_t, v: Ppoint_t)
    requires
        path.len() >= 2, base >= 0, ops.len() == base + 4, ops[base] == path[0], ops[base + 3] == path[path.len() - 1],
        piece(edges, ops.subrange(base, base + 4), u, v, path.len() == 2),
    ensures curve(edges, path, ops, base, seq![0, path.len() - 1], seq![u, v]),
{
    let cut: Seq<int> = seq![0, path.len() - 1];
    assert(cut.len() == 2 && cut[0] == 0 && cut[1] == path.len() - 1);
    assert forall|i: int| 0 <= i <= 1 implies #[trigger] cuts(path, ops, base, cut, i) by { assert(i == 0 || i == 1); }
}
spec fn joined_cut(cut1: Seq<int>, cut2: Seq<int>, k: int) -> Seq<int> {
    Seq::new((cut1.len() + cut2.len() - 1) as nat, |i: int| if i < cut1.len() { cut1[i] } else { cut2[i + 1 - cut1.len()] + k })
}
spec fn joined_dir(dir1: Seq<Ppoint_t>, dir2: Seq<Ppoint_t>) -> Seq<Ppoint_t> {
    Seq::new((dir1.len() + dir2.len() - 1) as nat, |i: int| if i < dir1.len() { dir1[i] } else { dir2[i + 1 - dir1.len()] })
}
#[verifier::spinoff_prover]
proof fn lemma_join_pieces(edges: Seq<Pedge_t>, ops1: Seq<Ppoint_t>, ops2: Seq<Ppoint_t>, base: int, k: int, cut1: Seq<int>, dir1: Seq<Ppoint_t>, cut2: Seq<int>, dir2: Seq<Ppoint_t>)
    requires
        cut1.len() >= 1, cut2.len() >= 1, base >= 0, cut1.len() == dir1.len(), cut2.len() == dir2.len(), cut1.last() == k, cut2[0] == 0, dir1.last() == dir2[0],
        ops1.len() == base + 3 * (cut1.len() - 1) + 1, ops1.len() <= ops2.len(), ops2.take(ops1.len() as int) == ops1,
        forall|i: int| 0 <= i < cut1.len() - 1 ==> #[trigger] nth_piece(edges, ops1, base, cut1, dir1, i),
        forall|i: int| 0 <= i < cut2.len() - 1 ==> #[trigger] nth_piece(edges, ops2, ops1.len() - 1, cut2, dir2, i),
    ensures forall|i: int| 0 <= i < cut1.len() + cut2.len() - 2 ==> #[trigger] nth_piece(edges, ops2, base, joined_cut(cut1, cut2, k), joined_dir(dir1, dir2), i),
{
    hide(piece);
    let (cut, dir, n1) = (joined_cut(cut1, cut2, k), joined_dir(dir1, dir2), cut1.len() - 1);
    assert forall|i: int| 0 <= i < cut1.len() + cut2.len() - 2 implies #[trigger] nth_piece(edges, ops2, base, cut, dir, i) by {
        if i < n1 {
            assert(nth_piece(edges, ops1, base, cut1, dir1, i));
            assert(ops1.subrange(base + 3 * i, base + 3 * i + 4) =~= ops2.subrange(base + 3 * i, base + 3 * i + 4)) by {
                assert forall|j: int| 0 <= j < ops1.len() implies ops1[j] == #[trigger] ops2[j] by { assert(ops2.take(ops1.len() as int)[j] == ops2[j]); }
            }
        } else {
            let (j, c) = (i - n1, ops1.len() - 1);
            assert(nth_piece(edges, ops2, c, cut2, dir2, j));
            assert(c + 3 * j == base + 3 * i);
            assert(cut[i] == cut2[j] + k);
            assert(cut[i + 1] == cut2[j + 1] + k);
            assert(dir[i] == dir2[j] && dir[i + 1] == dir2[j + 1]);
        }
    }
}
/// a curve along the first part of the path followed by one along the rest
#[verifier::spinoff_prover]
proof fn lemma_join(edges: Seq<Pedge_t>, path: Seq<Ppoint_t>, k: int, ops1: Seq<Ppoint_t>, ops2: Seq<Ppoint_t>, base: int, cut1: Seq<int>, dir1: Seq<Ppoint_t>, cut2: Seq<int>, dir2: Seq<Ppoint_t>)
    requires
        0 < k < path.len() - 1, curve(edges, path.take(k + 1), ops1, base, cut1, dir1), curve(edges, path.skip(k), ops2, ops1.len() - 1, cut2, dir2),
        ops2.take(ops1.len() as int) == ops1, dir1.last() == dir2[0],
    ensures
        curve(edges, path, ops2, base, joined_cut(cut1, cut2, k), joined_dir(dir1, dir2)),
        joined_dir(dir1, dir2)[0] == dir1[0], joined_dir(dir1, dir2).last() == dir2.last(),
{
    hide(nth_piece);
    let (cut, dir, n1, n2) = (joined_cut(cut1, cut2, k), joined_dir(dir1, dir2), cut1.len() - 1, cut2.len() - 1);
    assert(cut1[n1] == k && cut2[0] == 0);
    lemma_join_pieces(edges, ops1, ops2, base, k, cut1, dir1, cut2, dir2);
    assert forall|i: int| 0 <= i < n1 + n2 implies #[trigger] cut[i] < cut[i + 1] by {
        if i < n1 { assert(cut1[i] < cut1[i + 1]); }
        else { let j = i - n1; assert(cut2[j] < cut2[j + 1]); assert(cut[i] == cut2[j] + k); assert(cut[i + 1] == cut2[j + 1] + k); }
    }
    assert forall|i: int| 0 <= i <= n1 + n2 implies #[trigger] cuts(path, ops2, base, cut, i) by {
        if i <= n1 {
            assert(cuts(path.take(k + 1), ops1, base, cut1, i));
            assert(ops2.take(ops1.len() as int)[base + 3 * i] == ops2[base + 3 * i]);
        } else {
            let j = i - n1;
            assert(cuts(path.skip(k), ops2, ops1.len() - 1, cut2, j));
            assert(ops1.len() - 1 + 3 * j == base + 3 * i);
            assert(path.skip(k)[cut2[j]] == path[cut2[j] + k]);
        }
    }
}
spec fn led(edges: Seq<Pedge_t>, path: Seq<Ppoint_t>, before: Seq<Ppoint_t>, ops: Seq<Ppoint_t>, u: Ppoint_t, v: Ppoint_t) -> bool {
    &&& ops.len() > before.len() && ops.last() == path.last() && ops.take(before.len() as int) == before
    &&& exists|cut: Seq<int>, dir: Seq<Ppoint_t>| #[trigger] curve(edges, path, ops, before.len() - 1, cut, dir) && dir[0] == u && dir.last() == v
}
proof fn lemma_joined(edges: Seq<Pedge_t>, path: Seq<Ppoint_t>, k: int, ops0: Seq<Ppoint_t>, ops: Seq<Ppoint_t>, u: Ppoint_t, w: Ppoint_t, v: Ppoint_t)
    requires 0 < k < path.len() - 1, exists|mid: Seq<Ppoint_t>| #[trigger] led(edges, path.take(k + 1), ops0, mid, u, w) && led(edges, path.skip(k), mid, ops, w, v),
    ensures led(edges, path, ops0, ops, u, v),
{
    let mid = choose|mid: Seq<Ppoint_t>| #[trigger] led(edges, path.take(k + 1), ops0, mid, u, w) && led(edges, path.skip(k), mid, ops, w, v);
    let (c1, d1) = choose|cut: Seq<int>, dir: Seq<Ppoint_t>| #[trigger] curve(edges, path.take(k + 1), mid, ops0.len() - 1, cut, dir) && dir[0] == u && dir.last() == w;
    let (c2, d2) = choose|cut: Seq<int>, dir: Seq<Ppoint_t>| #[trigger] curve(edges, path.skip(k), ops, mid.len() - 1, cut, dir) && dir[0] == w && dir.last() == v;
    lemma_join(edges, path, k, mid, ops, ops0.len() - 1, c1, d1, c2, d2);
    assert(curve(edges, path, ops, ops0.len() - 1, joined_cut(c1, c2, k), joined_dir(d1, d2)));
    assert(ops.take(ops0.len() as int) =~= mid.take(ops0.len() as int)) by {
        assert forall|i: int| 0 <= i < ops0.len() implies ops[i] == mid[i] by { assert(ops.take(mid.len() as int)[i] == ops[i]); }
    }
}
/// s is a curve along the path from the direction u to the direction v
spec fn fitted(edges: Seq<Pedge_t>, path: Seq<Ppoint_t>, s: Seq<Ppoint_t>, u: Ppoint_t, v: Ppoint_t) -> bool {
    exists|cut: Seq<int>, dir: Seq<Ppoint_t>| #[trigger] curve(edges, path, s, 0, cut, dir) && dir[0] == u && dir.last() == v
}
/// q - p, or p - q, is a third of a times v
proof fn lemma_handle(p: Ppoint_t, q: Ppoint_t, v: Ppoint_t, a: real)
    requires
        a >= 0real,
        exists|w: Ppoint_t, w3: Ppoint_t| #[trigger] vscaled(w, v, a) && #[trigger] vdivided(w3, w, 3real) && (vsum(q, p, w3) || vdifference(p, q, w3)),
    ensures ahead(p, q, v), a == 0real ==> same(p, q),
{
    let (w, w3) = choose|w: Ppoint_t, w3: Ppoint_t| #[trigger] vscaled(w, v, a) && #[trigger] vdivided(w3, w, 3real) && (vsum(q, p, w3) || vdifference(p, q, w3));
    let k = a / 3real;
    assert(a == k * 3real);
    assert(k * v.x@ * 3real == v.x@ * a && k * v.y@ * 3real == v.y@ * a) by (nonlinear_arith) requires a == k * 3real;
    if a == 0real { assert(v.x@ * a == 0real && v.y@ * a == 0real) by (nonlinear_arith) requires a == 0real; }
    assert(step(p, q, v, k));
}
proof fn lemma_halving(a: real, k: int)
    requires a > 1real / 100real, 1 <= k, a * (k as real) == 4real,
    ensures k < 400, a > 0real, (a / 2real) * ((2 * k) as real) == 4real,
{
    let r = k as real;
    assert(r < 400real) by (nonlinear_arith) requires a * r == 4real, a > 1real / 100real, r >= 1real;
    assert((a / 2real) * (2real * r) == a * r) by (nonlinear_arith);
    assert((2 * k) as real == 2real * r);
}
%%% fn mkspline
%% opt reals
%% contract
    requires inps@.len() > 0, tnas@.len() == inps@.len(),
    ensures
        r matches Ok(s) && s.sp0 == inps@[0] && s.sp1 == inps@.last() && multiple(s.sv0, ev0) && multiple(s.sv1, ev1),
%% loop 0
    invariant vs0.len() == inps@.len(), forall|i: int| 0 <= i < vs0.len() ==> vs0[i] == i,
%% at if1.then.start
    proof { lemma_length(inps@[0], inps@.last()); }
%% at body.result
    proof { assert(vscaled(res->Ok_0.sv0, ev0, scale0@) && vscaled(res->Ok_0.sv1, ev1, scale3@)); }
%%% fn splinefits
%% opt reals
%% opt inline EPSILON1
%% contract
    requires barriers_ok(edges@), inps@.len() >= 2, pa == inps@[0], pb == inps@.last(),
    ensures
        !r ==> inps@.len() > 2 && final(ops)@ == old(ops)@,
        r ==> final(ops)@.len() == old(ops)@.len() + 3 && final(ops)@.take(old(ops)@.len() as int) == old(ops)@ && final(ops)@.last() == pb
            && piece(edges@, seq![pa] + final(ops)@.skip(old(ops)@.len() as int), va, vb, inps@.len() == 2),
%% at loop0.before
    let ghost mut k = 1int;
%% loop 0
    invariant
        b@ == a@, a@ == 0real || (a@ > 0real && 1 <= k < 800 && a@ * (k as real) == 4real), forceflag == (inps@.len() == 2), ops@ == old(ops)@,
    ensures !forceflag, ops@ == old(ops)@,
    decreases if a@ == 0real { 0int } else { 800 - k },
%% at if0.then.start
    proof {
        assert(sps@.subrange(0, 4) =~= sps@);
        if inps@.len() == 2 {
            lemma_path_step(inps@, 2);
            assert(inps@.take(2) =~= inps@);
            assert(path_length(inps@.take(1)) == 0real);
            lemma_chord(sps@);
        }
    }
%% at loop1.before
    proof { assert(sps@.subrange(0, 4) =~= sps@); lemma_handle(pa, sps@[1], va, a@); lemma_handle(sps@[2], pb, vb, b@); }
%% loop 1
    invariant
        vs1.len() == 3, forall|i: int| 0 <= i < vs1.len() ==> vs1[i] == i + 1,
        ops@ == old(ops)@ + sps@.subrange(1, 1 + vk1),
%% at loop1.after
    proof { assert(seq![pa] + sps@.subrange(1, 4) =~= sps@); assert(ops@.skip(old(ops)@.len() as int) =~= sps@.subrange(1, 4)); assert(ops@.take(old(ops)@.len() as int) =~= old(ops)@); }
%% at loop2.before
    proof { lemma_handle(pa, sps@[1], va, a@); lemma_handle(sps@[2], pb, vb, b@); }
%% loop 2
    invariant
        vs2.len() == 3, forall|i: int| 0 <= i < vs2.len() ==> vs2[i] == i + 1,
        ops@ == old(ops)@ + sps@.subrange(1, 1 + vk2),
%% at loop2.after
    proof { assert(seq![pa] + sps@.subrange(1, 4) =~= sps@); assert(ops@.skip(old(ops)@.len() as int) =~= sps@.subrange(1, 4)); assert(ops@.take(old(ops)@.len() as int) =~= old(ops)@); }
%% at if4.then.start
    proof { lemma_halving(a@, k); k = 2 * k; }
%%% fn reallyroutespline
%% opt reals
%% contract
    requires barriers_ok(edges@), path_ok(inps@), old(context).ops@.len() > 0, old(context).ops@.last() == inps@[0],
    ensures
        r is Ok, led(edges@, inps@, old(context).ops@, final(context).ops@, ev0, ev1),
    decreases inps@.len(),
%% at loop0.before
    proof { assert(tnas@.len() == inps@.len()); }
%% at body.result
    proof {
        let k = spliti as int;
        assert(inps@.subrange(0, k + 1) =~= inps@.take(k + 1) && inps@.subrange(k, inps@.len() as int) =~= inps@.skip(k));
        lemma_joined(edges@, inps@, k, old(context).ops@, context.ops@, ev0, splitv, ev1);
    }
%% loop 0
    invariant
        vs0.len() == inps@.len() - 1, forall|i: int| 0 <= i < vs0.len() ==> vs0[i] == i + 1, tnas@.len() == inps@.len(),
        tnas@[vk0].t@ >= 0real, vk0 > 0 ==> tnas@[vk0].t@ > 0real,
%% at loop0.start
    proof { lemma_length(inps@[i as int], inps@[i - 1]); }
%% loop 1
    invariant vs1.len() == inps@.len() - 1, forall|i: int| 0 <= i < vs1.len() ==> vs1[i] == i + 1, tnas@.len() == inps@.len(),
%% loop 2
    invariant vs2.len() == inps@.len(), forall|i: int| 0 <= i < vs2.len() ==> vs2[i] == i, tnas@.len() == inps@.len(),
%% at if0.then.start
    let ghost ops0 = old(context).ops@;
    proof {
        let new = context.ops@.skip(ops0.len() as int);
        assert(seq![p1] + new =~= context.ops@.subrange(ops0.len() - 1, ops0.len() + 3int)) by {
            assert(context.ops@.take(ops0.len() as int)[ops0.len() - 1] == context.ops@[ops0.len() - 1]);
        }
        let s = seq![p1] + new;
        lemma_ahead(s[0], s[1], v1, ev0);
        lemma_ahead(s[2], s[3], v2, ev1);
        lemma_one_piece(edges@, inps@, context.ops@, ops0.len() - 1, ev0, ev1);
        assert(seq![ev0, ev1][0] == ev0 && seq![ev0, ev1].last() == ev1);
    }
%% loop 3
    invariant
        vs3.len() == inps@.len() - 2, forall|i: int| 0 <= i < vs3.len() ==> vs3[i] == i + 1, tnas@.len() == inps@.len(),
        if vk3 == 0 { maxd@ == -1real } else { 1 <= maxi <= vk3 },
%%% fn Proutespline
%% opt reals
%% contract
    requires barriers_ok(edges@), path_ok(input.ps@), old(evs)@.len() >= 2,
    ensures
        r is Ok, final(evs)@.len() == old(evs)@.len(), unit(old(evs)@[0], final(evs)@[0]), unit(old(evs)@[1], final(evs)@[1]),
        fitted(edges@, input.ps@, final(output).ps@, final(evs)@[0], final(evs)@[1]),
