%%% file trellis/src/vec2.rs
%%% item Vec2 #[derive(Clone, Copy)]
%%% item Pxy_t | f64 => F
%%% item Ppoint_t
%%% file trellis/src/polyline.rs
%%% item Ppoly_t | f64 => F
%%% item Ppolyline_t
%%% file trellis/src/common/ellipse.rs
%%% item Vec2f | crate :: vec2 :: Vec2 => Vec2 | f64 => F
%%% item Ellipse | f64 => F
%%% item ErrArray | f64 => F
%%% text
impl Default for Vec2<F> { fn default() -> (r: Vec2<F>) { Vec2 { x: F::default(), y: F::default() } } }
impl Default for Ellipse {
    fn default() -> (r: Ellipse) {
        let z = F::default();
        Ellipse { c: Vec2 { x: z, y: z }, a: z, b: z, theta: z, cosTheta: z, sinTheta: z, eta1: z, eta2: z, x1: z, y1: z, x2: z, y2: z,
            xF1: z, yF1: z, xF2: z, yF2: z, xLeft: z, yUp: z, width: z, height: z, f: z, e2: z, g: z, g2: z }
    }
}
// more elementary functions: assumed contracts
axiom fn axiom_half_turn()
    ensures rpi() > 0real, rcos(rpi()) == -1real, rsin(rpi()) == 0real;
axiom fn axiom_upper(x: real)
    requires 0real < x < rpi(),
    ensures rsin(x) > 0real;
uninterp spec fn rfloor(x: real) -> int;
impl F {
    #[verifier::external_body]
    fn sin(self) -> (r: F) ensures r@ == rsin(self@), { F { v: self.v.sin() } }
    #[verifier::external_body]
    fn tan(self) -> (r: F) requires rcos(self@) != 0real, ensures r@ * rcos(self@) == rsin(self@), { F { v: self.v.tan() } }
    /// nothing is said about the result
    #[verifier::external_body]
    fn atan(self) -> (r: F) { F { v: self.v.atan() } }
    /// nothing is said about the result
    #[verifier::external_body]
    fn exp(self) -> (r: F) { F { v: self.v.exp() } }
    #[verifier::external_body]
    fn floor(self) -> (r: F)
        ensures r@ == (rfloor(self@) as real), r@ <= self@ < r@ + 1real,
    { F { v: self.v.floor() } }
    /// the root where there is one; nothing is said about the result of anything else
    #[verifier::external_body]
    fn sqrt_or_nan(self) -> (r: F)
        ensures self@ >= 0real ==> r@ >= 0real && r@ * r@ == self@,
    { F { v: self.v.sqrt() } }
}
pub struct El { pub cx: real, pub cy: real, pub a: real, pub b: real, pub ct: real, pub st: real }
spec fn el(p: Ellipse) -> El { El { cx: p.c.x@, cy: p.c.y@, a: p.a@, b: p.b@, ct: p.cosTheta@, st: p.sinTheta@ } }
/// the point of the ellipse at eccentric angle t
spec fn px(e: El, t: real) -> real { e.cx + e.a * rcos(t) * e.ct - e.b * rsin(t) * e.st }
spec fn py(e: El, t: real) -> real { e.cy + e.a * rcos(t) * e.st + e.b * rsin(t) * e.ct }
/// the direction in which the ellipse leaves it
spec fn dx(e: El, t: real) -> real { -(e.a * rsin(t)) * e.ct - e.b * rcos(t) * e.st }
spec fn dy(e: El, t: real) -> real { -(e.a * rsin(t)) * e.st + e.b * rcos(t) * e.ct }
spec fn at(p: Ppoint_t, e: El, t: real) -> bool { p.x@ == px(e, t) && p.y@ == py(e, t) }
/// the point off the point at t along the tangent
spec fn off(p: Ppoint_t, e: El, t: real, k: real) -> bool { p.x@ == px(e, t) + k * dx(e, t) && p.y@ == py(e, t) + k * dy(e, t) }
/// the four control points from j on: a curve along the ellipse from angle t to angle u
spec fn span(ps: Seq<Ppoint_t>, j: int, e: El, t: real, u: real, k: real) -> bool {
    at(ps[j], e, t) && off(ps[j + 1], e, t, k) && off(ps[j + 2], e, u, -k) && at(ps[j + 3], e, u)
}
/// the four control points from j on: the straight line between two points
spec fn straight(ps: Seq<Ppoint_t>, j: int, p: Ppoint_t, q: Ppoint_t) -> bool { ps[j] == p && ps[j + 1] == p && ps[j + 2] == q && ps[j + 3] == q }
/// the length of the handles with which a curve spanning the angle d bends at both ends like the unit circle
spec fn osculates(k: real, d: real) -> bool { k >= 0real && 3real * (k * k) + 2real * k * rsin(d) == 2real * (1real - rcos(d)) }
pub struct Arc { pub t: real, pub d: real, pub n: int, pub k: real }
spec fn step(w: Arc, i: int) -> real { w.t + (i as real) * w.d }
spec fn curves(ps: Seq<Ppoint_t>, j: int, e: El, w: Arc, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] span(ps, j + 3 * i, e, step(w, i), step(w, i + 1), w.k)
}
/// n equal steps of at most a quarter turn from angle t to angle u
spec fn steps(w: Arc, t: real, u: real) -> bool {
    w.t == t && w.n >= 1 && w.d * (w.n as real) == u - t && 0real <= 2real * w.d <= rpi() && osculates(w.k, w.d)
}
/// from the centre along the arc and back
spec fn slice(ps: Seq<Ppoint_t>, e: El, c: Ppoint_t, w: Arc) -> bool {
    ps.len() == 7 + 3 * w.n && curves(ps, 3, e, w, w.n)
    && straight(ps, 0, c, ps[3]) && straight(ps, 3 + 3 * w.n, ps[3 + 3 * w.n], c)
}
/// the arc alone
spec fn bow(ps: Seq<Ppoint_t>, e: El, w: Arc) -> bool { ps.len() == 1 + 3 * w.n && curves(ps, 0, e, w, w.n) }
/// the ellipse point at t lies in direction l from the centre, with respect to the axes
spec fn toward(e: El, t: real, l: real) -> bool { exists|m: real| #[trigger] scaled(e, t, l, m) }
spec fn scaled(e: El, t: real, l: real, m: real) -> bool { m > 0real && m * (e.a * rcos(t)) == rcos(l) && m * (e.b * rsin(t)) == rsin(l) }
/// the turn s goes with the difference of directions l
spec fn same_turn(s: real, l: real) -> bool {
    0real <= s <= 2real * rpi() && (s <= rpi() <==> l <= rpi()) && (l == 0real ==> s == 0real) && (l == 2real * rpi() ==> s == 2real * rpi())
}
/// the closed path of the wedge from direction l to direction m
spec fn wedge(ps: Seq<Ppoint_t>, c: Ppoint_t, a: real, b: real, l: real, m: real, w: Arc, u: real) -> bool {
    let e = El { cx: c.x@, cy: c.y@, a: a, b: b, ct: 1real, st: 0real };
    slice(ps, e, c, w) && toward(e, w.t, l) && toward(e, u, m) && same_turn(u - w.t, m - l)
}
/// the poles of the error estimate lie outside its domain
spec fn low(c: ErrArray) -> bool { forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 4 ==> pole(#[trigger] c@[i]@[j]) > 0real }
spec fn high(c: ErrArray) -> bool { forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 4 ==> pole(#[trigger] c@[i]@[j]) * 4real > -1real }
spec fn pole(c: [F; 4]) -> real { c@[3]@ }
spec fn same_shape(p: Ellipse, q: Ellipse) -> bool { p.c == q.c && p.a == q.a && p.b == q.b && p.cosTheta == q.cosTheta && p.sinTheta == q.sinTheta && p.eta1 == q.eta1 && p.eta2 == q.eta2 }
spec fn proper(p: Ellipse) -> bool { p.a@ > 0real && p.b@ > 0real && p.cosTheta@ * p.cosTheta@ + p.sinTheta@ * p.sinTheta@ == 1real }
proof fn lemma_zero()
    ensures rcos(0real) == 1real, rsin(0real) == 0real,
{
    let (c, d) = (rcos(0real), rsin(0real));
    axiom_unit(0real); axiom_sum(0real, 0real);
    assert(0real + 0real == 0real);
    assert(c == c * c - d * d && d == d * c + c * d && c * c + d * d == 1real);
    assert(c == 1real && d == 0real) by (nonlinear_arith) requires c == c * c - d * d, d == d * c + c * d, c * c + d * d == 1real;
}
proof fn lemma_turn(x: real)
    ensures rcos(x + 2real * rpi()) == rcos(x), rsin(x + 2real * rpi()) == rsin(x),
        rcos(x - 2real * rpi()) == rcos(x), rsin(x - 2real * rpi()) == rsin(x),
        rcos(x + rpi()) == -rcos(x), rsin(x + rpi()) == -rsin(x), rcos(x - rpi()) == -rcos(x), rsin(x - rpi()) == -rsin(x),
{
    axiom_half_turn();
    axiom_sum(x, rpi()); axiom_sum(x + rpi(), rpi()); axiom_sum(x - rpi(), -rpi()); axiom_sum(x, -rpi()); axiom_sum(rpi(), rpi());
    assert(x + rpi() + rpi() == x + 2real * rpi());
    assert(x - rpi() + -rpi() == x - 2real * rpi());
    assert(x + -rpi() == x - rpi());
}
proof fn lemma_turns(x: real, k: int)
    ensures rcos(x - 2real * rpi() * (k as real)) == rcos(x), rsin(x - 2real * rpi() * (k as real)) == rsin(x),
    decreases if k >= 0 { k } else { -k },
{
    if k == 0 {
        assert(x - 2real * rpi() * (k as real) == x) by (nonlinear_arith) requires k == 0;
    } else if k > 0 {
        lemma_turns(x, k - 1);
        let y = x - 2real * rpi() * ((k - 1) as real);
        lemma_turn(y);
        assert(y - 2real * rpi() == x - 2real * rpi() * (k as real)) by (nonlinear_arith) requires y == x - 2real * rpi() * ((k - 1) as real);
    } else {
        lemma_turns(x, k + 1);
        let y = x - 2real * rpi() * ((k + 1) as real);
        lemma_turn(y);
        assert(y + 2real * rpi() == x - 2real * rpi() * (k as real)) by (nonlinear_arith) requires y == x - 2real * rpi() * ((k + 1) as real);
    }
}
proof fn lemma_acute(y: real)
    requires 0real <= y, 2real * y < rpi(),
    ensures rcos(y) > 0real, rsin(y) >= 0real,
{
    lemma_zero();
    if y > 0real {
        axiom_half_turn();
        axiom_upper(y); axiom_upper(2real * y); axiom_sum(y, y);
        assert(y + y == 2real * y);
        let (c, d) = (rcos(y), rsin(y));
        assert(c > 0real) by (nonlinear_arith) requires d > 0real, d * c + c * d > 0real;
    }
}
/// sin of an angle in the closed lower right quarter or above
proof fn lemma_quarter(x: real)
    requires 0real <= x, 2real * x <= rpi(),
    ensures rsin(x) >= 0real,
{
    lemma_zero();
    axiom_half_turn();
    if x > 0real { axiom_upper(x); }
}
/// the handle length from the tangent t of half the angle and q, the root of 4 + 3 t t
#[verifier::spinoff_prover]
proof fn lemma_osculates(k: real, d: real, t: real, q: real)
    requires
        0real <= 2real * d <= rpi(), 2real * rpi() > 0real,
        t * rcos(d / 2real) == rsin(d / 2real), q >= 0real, q * q == 4real + 3real * t * t,
        k * 3real == rsin(d) * (q - 1real),
    ensures osculates(k, d),
{
    axiom_half_turn();
    let y = d / 2real;
    lemma_acute(y);
    lemma_quarter(d);
    axiom_sum(y, y); axiom_unit(y);
    assert(y + y == d);
    let (c, s) = (rcos(y), rsin(y));
    let sd = rsin(d);
    assert(sd == 2real * (s * c)) by (nonlinear_arith) requires sd == s * c + c * s;
    assert(1real - rcos(d) == 2real * (s * s)) by (nonlinear_arith) requires rcos(d) == c * c - s * s, c * c + s * s == 1real;
    assert(q >= 2real) by (nonlinear_arith) requires q >= 0real, q * q == 4real + 3real * t * t;
    assert(k >= 0real) by (nonlinear_arith) requires k * 3real == sd * (q - 1real), sd >= 0real, q >= 2real;
    // 3 (3 k k + 2 k sd) = sd sd (q q - 1)
    let z = sd * sd;
    let kk = k * k;
    let ks = k * sd;
    assert(9real * kk == z * ((q - 1real) * (q - 1real))) by (nonlinear_arith) requires kk == k * k, k * 3real == sd * (q - 1real), z == sd * sd;
    assert(3real * ks == z * (q - 1real)) by (nonlinear_arith) requires ks == k * sd, k * 3real == sd * (q - 1real), z == sd * sd;
    let tt = t * t;
    assert(3real * t * t == 3real * tt) by (nonlinear_arith) requires tt == t * t;
    assert(9real * kk + 6real * ks == z * (q * q - 1real)) by (nonlinear_arith)
        requires 9real * kk == z * ((q - 1real) * (q - 1real)), 3real * ks == z * (q - 1real);
    assert(q * q - 1real == 3real * (1real + tt));
    assert(z * (q * q - 1real) == 3real * (z * (1real + tt))) by (nonlinear_arith) requires q * q - 1real == 3real * (1real + tt);
    // z (1 + tt) = 4 s s
    let cc = c * c;
    assert(tt * cc == s * s) by (nonlinear_arith) requires tt == t * t, cc == c * c, t * c == s;
    assert(cc * (1real + tt) == 1real) by (nonlinear_arith) requires tt * cc == s * s, cc + s * s == 1real;
    assert(z == 4real * ((s * s) * cc)) by (nonlinear_arith) requires z == sd * sd, sd == 2real * (s * c), cc == c * c;
    let ss = s * s;
    let o = 1real + tt;
    assert(z * o == 4real * ss) by (nonlinear_arith) requires z == 4real * (ss * cc), cc * o == 1real;
    assert(3real * kk + 2real * ks == 4real * ss);
    assert(3real * (k * k) + 2real * k * rsin(d) == 3real * kk + 2real * ks) by (nonlinear_arith) requires kk == k * k, ks == k * sd, sd == rsin(d);
}
/// the angle computed for a direction
#[verifier::spinoff_prover]
proof fn lemma_toward(e: El, t: real, l: real, x: real, y: real)
    requires
        e.a > 0real, e.b > 0real, x * e.a == rcos(l), y * e.b == rsin(l),
        rcos(t) * root(x * x + y * y) == x, rsin(t) * root(x * x + y * y) == y,
    ensures toward(e, t, l), root(x * x + y * y) > 0real,
{
    axiom_unit(l);
    let w = x * x + y * y;
    assert(w >= 0real) by (nonlinear_arith) requires w == x * x + y * y;
    axiom_root(w);
    let m = root(w);
    if m == 0real {
        assert(x == 0real && y == 0real) by (nonlinear_arith) requires rcos(t) * m == x, rsin(t) * m == y, m == 0real;
        assert(false) by (nonlinear_arith) requires x * e.a == rcos(l), y * e.b == rsin(l), x == 0real, y == 0real, rcos(l) * rcos(l) + rsin(l) * rsin(l) == 1real;
    }
    let (c, d) = (rcos(t), rsin(t));
    assert(m * (e.a * c) == rcos(l)) by (nonlinear_arith) requires c * m == x, x * e.a == rcos(l);
    assert(m * (e.b * d) == rsin(l)) by (nonlinear_arith) requires d * m == y, y * e.b == rsin(l);
    assert(scaled(e, t, l, m));
}
proof fn lemma_again(e: El, t: real, u: real, l: real)
    requires toward(e, t, l), rcos(t) == rcos(u), rsin(t) == rsin(u),
    ensures toward(e, u, l),
{
    let m = choose|m: real| #[trigger] scaled(e, t, l, m);
    assert(scaled(e, u, l, m));
}
#[verifier::spinoff_prover]
proof fn lemma_cross(a: real, b: real, g: real, h: real, ct: real, st: real, cu: real, su: real, cl: real, sl: real, cm: real, sm: real, sn: real, sm2: real)
    requires
        a > 0real, b > 0real, g > 0real, h > 0real, g * (a * ct) == cl, g * (b * st) == sl, h * (a * cu) == cm, h * (b * su) == sm,
        sn == su * ct + cu * (-st), sm2 == sm * cl + cm * (-sl),
    ensures sn > 0real <==> sm2 > 0real, sn < 0real <==> sm2 < 0real,
{
    let f = (g * h) * (a * b);
    let p = su * ct;
    let q = cu * st;
    assert(sn == p - q) by (nonlinear_arith) requires sn == su * ct + cu * (-st), p == su * ct, q == cu * st;
    assert(sm * cl == f * p) by (nonlinear_arith) requires sm == h * (b * su), cl == g * (a * ct), f == (g * h) * (a * b), p == su * ct;
    assert(cm * sl == f * q) by (nonlinear_arith) requires cm == h * (a * cu), sl == g * (b * st), f == (g * h) * (a * b), q == cu * st;
    assert(sm2 == sm * cl - cm * sl) by (nonlinear_arith) requires sm2 == sm * cl + cm * (-sl);
    assert(sm2 == f * sn) by (nonlinear_arith) requires sm2 == f * p - f * q, sn == p - q;
    lemma_pos2(g, h); lemma_pos2(a, b); lemma_pos2(g * h, a * b);
    lemma_sign(f, sn, sm2);
}
/// u is t or t plus half a turn, up to whole turns
#[verifier::spinoff_prover]
proof fn lemma_along(a: real, b: real, g: real, h: real, ct: real, st: real, cu: real, su: real, cl: real, sl: real, cm: real, sm: real, cn: real, cm2: real)
    requires
        a > 0real, b > 0real, g > 0real, h > 0real, g * (a * ct) == cl, g * (b * st) == sl, h * (a * cu) == cm, h * (b * su) == sm,
        cu == cn * ct, su == cn * st, cm == cm2 * cl, sm == cm2 * sl, ct * ct + st * st == 1real,
    ensures cn > 0real <==> cm2 > 0real, cn < 0real <==> cm2 < 0real,
{
    let p = h * cn;
    let q = cm2 * g;
    let x = a * ct;
    let y = b * st;
    assert(p * x == cm) by (nonlinear_arith) requires h * (a * cu) == cm, cu == cn * ct, p == h * cn, x == a * ct;
    assert(q * x == cm) by (nonlinear_arith) requires cm == cm2 * cl, g * x == cl, q == cm2 * g;
    assert(p * y == sm) by (nonlinear_arith) requires h * (b * su) == sm, su == cn * st, p == h * cn, y == b * st;
    assert(q * y == sm) by (nonlinear_arith) requires sm == cm2 * sl, g * y == sl, q == cm2 * g;
    if ct != 0real {
        assert(x != 0real) by (nonlinear_arith) requires x == a * ct, ct != 0real, a > 0real;
        assert(p == q) by (nonlinear_arith) requires p * x == q * x, x != 0real;
    } else {
        assert(st != 0real) by (nonlinear_arith) requires ct == 0real, ct * ct + st * st == 1real;
        assert(y != 0real) by (nonlinear_arith) requires y == b * st, st != 0real, b > 0real;
        assert(p == q) by (nonlinear_arith) requires p * y == q * y, y != 0real;
    }
    assert(q == g * cm2) by (nonlinear_arith) requires q == cm2 * g;
    lemma_sign(h, cn, p);
    lemma_sign(g, cm2, q);
}
/// the signs of the turn between two points of the ellipse and between their directions agree
#[verifier::spinoff_prover]
proof fn lemma_turn_signs(e: El, t: real, u: real, l: real, m: real)
    requires e.a > 0real, e.b > 0real, toward(e, t, l), toward(e, u, m),
    ensures rsin(u - t) > 0real <==> rsin(m - l) > 0real, rsin(u - t) < 0real <==> rsin(m - l) < 0real,
{
    let g = choose|g: real| #[trigger] scaled(e, t, l, g);
    let h = choose|h: real| #[trigger] scaled(e, u, m, h);
    axiom_sum(u, -t); axiom_sum(t, 0real); axiom_sum(m, -l); axiom_sum(l, 0real);
    assert(u + -t == u - t && m + -l == m - l);
    lemma_cross(e.a, e.b, g, h, rcos(t), rsin(t), rcos(u), rsin(u), rcos(l), rsin(l), rcos(m), rsin(m), rsin(u - t), rsin(m - l));
}
#[verifier::spinoff_prover]
proof fn lemma_apart(l: real, m: real)
    requires rsin(m - l) == 0real,
    ensures rcos(m) == rcos(m - l) * rcos(l), rsin(m) == rcos(m - l) * rsin(l),
{
    axiom_sum(m - l, l);
    assert(m - l + l == m);
    let (c, s, k, z) = (rcos(l), rsin(l), rcos(m - l), rsin(m - l));
    assert(z * s == 0real && z * c == 0real) by (nonlinear_arith) requires z == 0real;
}
#[verifier::spinoff_prover]
proof fn lemma_turn_halves(e: El, t: real, u: real, l: real, m: real)
    requires e.a > 0real, e.b > 0real, toward(e, t, l), toward(e, u, m), rsin(u - t) == 0real, rsin(m - l) == 0real,
    ensures rcos(u - t) > 0real <==> rcos(m - l) > 0real, rcos(u - t) < 0real <==> rcos(m - l) < 0real,
{
    let g = choose|g: real| #[trigger] scaled(e, t, l, g);
    let h = choose|h: real| #[trigger] scaled(e, u, m, h);
    lemma_apart(t, u); lemma_apart(l, m); axiom_unit(t);
    lemma_along(e.a, e.b, g, h, rcos(t), rsin(t), rcos(u), rsin(u), rcos(l), rsin(l), rcos(m), rsin(m), rcos(u - t), rcos(m - l));
}
proof fn lemma_pos2(x: real, y: real)
    requires x > 0real, y > 0real,
    ensures x * y > 0real,
{ assert(x * y > 0real) by (nonlinear_arith) requires x > 0real, y > 0real; }
proof fn lemma_sign(f: real, x: real, y: real)
    requires f > 0real, y == f * x,
    ensures x > 0real <==> y > 0real, x < 0real <==> y < 0real,
{
    if x > 0real { assert(y > 0real) by (nonlinear_arith) requires f > 0real, x > 0real, y == f * x; }
    else if x < 0real { assert(y < 0real) by (nonlinear_arith) requires f > 0real, x < 0real, y == f * x; }
    else { assert(y == 0real) by (nonlinear_arith) requires x == 0real, y == f * x; }
}
/// what the sine and cosine say about a turn
proof fn lemma_where(s: real)
    requires 0real <= s <= 2real * rpi(),
    ensures
        rpi() > 0real, 0real < s < rpi() <==> rsin(s) > 0real, rpi() < s < 2real * rpi() <==> rsin(s) < 0real,
        s == 0real || s == 2real * rpi() ==> rcos(s) == 1real, s == rpi() ==> rcos(s) == -1real,
{
    lemma_zero(); axiom_half_turn();
    lemma_turn(0real); lemma_turn(s);
    assert(0real + 2real * rpi() == 2real * rpi());
    if 0real < s < rpi() { axiom_upper(s); }
    if rpi() < s < 2real * rpi() { axiom_upper(s - rpi()); }
}
/// the turn s in [0, 2 pi) between the points fits the turn l between the directions, but for the whole turn
proof fn lemma_same_turn(e: El, t: real, u: real, l: real, m: real)
    requires e.a > 0real, e.b > 0real, toward(e, t, l), toward(e, u, m), 0real <= u - t < 2real * rpi(), 0real <= m - l <= 2real * rpi(),
    ensures
        m - l > rpi() && u - t < rpi() <==> m - l == 2real * rpi(),
        m - l == 2real * rpi() ==> u - t == 0real,
        m - l < 2real * rpi() ==> same_turn(u - t, m - l),
        rpi() > 0real,
{
    lemma_where(u - t); lemma_where(m - l);
    lemma_turn_signs(e, t, u, l, m);
    if rsin(m - l) == 0real { lemma_turn_halves(e, t, u, l, m); }
}
proof fn lemma_step(w: Arc, i: int)
    ensures step(w, i + 1) == step(w, i) + w.d,
{
    assert(((i + 1) as real) * w.d == (i as real) * w.d + w.d) by (nonlinear_arith);
}
proof fn lemma_curves_extend(ps: Seq<Ppoint_t>, qs: Seq<Ppoint_t>, j: int, e: El, w: Arc, n: int)
    requires curves(ps, j, e, w, n), j >= 0, n >= 0, ps.len() >= j + 3 * n + 1, qs.len() >= j + 3 * n + 1, forall|i: int| 0 <= i < j + 3 * n + 1 ==> ps[i] == qs[i],
    ensures curves(qs, j, e, w, n),
{
    assert forall|i: int| 0 <= i < n implies #[trigger] span(qs, j + 3 * i, e, step(w, i), step(w, i + 1), w.k) by {
        assert(span(ps, j + 3 * i, e, step(w, i), step(w, i + 1), w.k));
    }
}
%%% static COEFFS2_LOW
    ensures low(COEFFS2_LOW),
%%% static COEFFS2_HIGH
    ensures high(COEFFS2_HIGH),
%%% static COEFFS3_LOW
    ensures low(COEFFS3_LOW),
%%% static COEFFS3_HIGH
    ensures high(COEFFS3_HIGH),
%%% static SAFETY2
    ensures SAFETY2[3]@ > 0real,
%%% static SAFETY3
    ensures SAFETY3[3]@ > 0real,
%%% fn point
%% opt reals
%% contract
    ensures r.x@ == x@, r.y@ == y@, r == (Vec2 { x, y }),
%%% fn fmin
%% opt reals
%% contract
    ensures true,
%%% fn fmax
%% opt reals
%% contract
    ensures true,
%%% fn rational_function
%% opt reals
%% contract
    requires x@ + pole(*c) != 0real,
    ensures true,
%%% fn estimateError
%% opt reals
%% contract
    requires old(ep).a@ > 0real, old(ep).b@ > 0real, degree >= 2,
    ensures *final(ep) == *old(ep),
%% at body.start
    proof {
        let (a, b) = (ep.a@, ep.b@);
        let q = quot(b, a);
        lemma_quot(b, a);
        assert(q > 0real) by (nonlinear_arith) requires q * a == b, a > 0real, b > 0real;
    }
%%% fn computeFoci
%% opt reals
%% opt subst sqrt => sqrt_or_nan
%% contract
    ensures same_shape(*final(ep), *old(ep)),
%%% fn computeEndPoints
%% opt reals
%% contract
    ensures
        same_shape(*final(ep), *old(ep)),
        final(ep).x1@ == px(el(*old(ep)), old(ep).eta1@), final(ep).y1@ == py(el(*old(ep)), old(ep).eta1@),
        final(ep).x2@ == px(el(*old(ep)), old(ep).eta2@), final(ep).y2@ == py(el(*old(ep)), old(ep).eta2@),
%%% fn computeBounds
%% opt reals
%% opt inline TWOPI
%% contract
    requires proper(*old(ep)),
    ensures same_shape(*final(ep), *old(ep)),
%% at body.start
    proof {
        axiom_half_turn();
        let (a, b, c, d) = (ep.a@, ep.b@, ep.cosTheta@, ep.sinTheta@);
        let q = quot(b, a);
        lemma_quot(b, a);
        assert(q > 0real) by (nonlinear_arith) requires q * a == b, a > 0real, b > 0real;
        if c == 0real {
            assert(!(-0.1real < d < 0.1real)) by (nonlinear_arith) requires c == 0real, c * c + d * d == 1real;
        }
    }
%%% fn initEllipse
%% opt reals
%% opt inline TWOPI
%% contract
    requires a@ > 0real, b@ > 0real, lambda1@ <= lambda2@ <= lambda1@ + 2real * rpi(),
    ensures
        r.c == (Vec2 { x: cx, y: cy }), proper(r), el(r) == (El { cx: cx@, cy: cy@, a: a@, b: b@, ct: rcos(theta@), st: rsin(theta@) }),
        toward(el(r), r.eta1@, lambda1@), toward(el(r), r.eta2@, lambda2@), same_turn(r.eta2@ - r.eta1@, lambda2@ - lambda1@),
%% at body.start
    proof {
        axiom_half_turn();
        axiom_unit(theta@);
    }
%% at after atan2#1
    let ghost t = ep.eta1@;
    let ghost u = ep.eta2@;
    proof {
        let e = El { cx: cx@, cy: cy@, a: a@, b: b@, ct: rcos(theta@), st: rsin(theta@) };
        let (x1, y1, x2, y2) = (quot(rcos(lambda1@), a@), quot(rsin(lambda1@), b@), quot(rcos(lambda2@), a@), quot(rsin(lambda2@), b@));
        lemma_quot(rcos(lambda1@), a@); lemma_quot(rsin(lambda1@), b@); lemma_quot(rcos(lambda2@), a@); lemma_quot(rsin(lambda2@), b@);
        lemma_toward(e, t, lambda1@, x1, y1);
        lemma_toward(e, u, lambda2@, x2, y2);
    }
%% at after floor#0
    proof {
        let e = El { cx: cx@, cy: cy@, a: a@, b: b@, ct: rcos(theta@), st: rsin(theta@) };
        let w = 2real * rpi();
        let z = quot(u - t, w);
        lemma_quot(u - t, w);
        let k = rfloor(z);
        let v = ep.eta2@;
        assert(v == u - w * (k as real));
        lemma_turns(u, k);
        lemma_again(e, u, v, lambda2@);
        assert(0real <= v - t < w) by (nonlinear_arith) requires v == u - w * (k as real), z * w == u - t, k as real <= z, z < (k as real) + 1real, w > 0real;
        lemma_same_turn(e, t, v, lambda1@, lambda2@);
        lemma_turn(v);
        lemma_again(e, v, v + w, lambda2@);
    }
%%% fn PathTarget@Ppolyline_t::move_to
%% contract
    ensures final(self).ps@ == seq![p],
%%% fn PathTarget@Ppolyline_t::line_to
%% contract
    requires old(self).ps@.len() > 0,
    ensures final(self).ps@ == old(self).ps@ + seq![old(self).ps@.last(), p, p],
%%% fn PathTarget@Ppolyline_t::curve_to
%% contract
    ensures final(self).ps@ == old(self).ps@ + seq![p1, p2, p3],
%%% fn PathTarget@Ppolyline_t::end_path
%% contract
    requires old(self).ps@.len() > 0,
    ensures final(self).ps@ == (if close { old(self).ps@ + seq![old(self).ps@.last(), old(self).ps@[0], old(self).ps@[0]] } else { old(self).ps@ }),
%%% fn gen_elliptic_path
%% opt reals
%% opt mono P=Ppolyline_t
%% contract
    requires proper(*old(ep)), degree == 3, 0real <= old(ep).eta2@ - old(ep).eta1@ <= 2real * rpi(),
    ensures
        *final(ep) == *old(ep),
        exists|w: Arc| #[trigger] steps(w, old(ep).eta1@, old(ep).eta2@) && (if isSlice { slice(final(path).ps@, el(*old(ep)), old(ep).c, w) } else { bow(final(path).ps@, el(*old(ep)), w) }),
%% at body.start
    proof { axiom_half_turn(); }
%% at loop0.start
    let ghost n0 = n;
%% loop 0
    invariant
        *ep == *old(ep), proper(*ep), degree == 3, 0real <= ep.eta2@ - ep.eta1@ <= 2real * rpi(), rpi() > 0real,
        1 <= n <= 2046, found ==> 2real * (ep.eta2@ - ep.eta1@) <= rpi() * (n as real),
    decreases 2048 - n,
%% loop 1
    invariant
        *ep == *old(ep), proper(*ep), degree == 3,
%% at if0.then.start
    proof {
        let (d, x, m) = (dEta@, ep.eta2@ - ep.eta1@, n0 as real);
        assert(2real * x <= rpi() * (2real * m)) by (nonlinear_arith) requires d * m == x, d <= rpi() / 2real, m >= 1real, rpi() > 0real;
    }
%% at loop0.end
    proof {
        assert(n0 << 1 == 2 * n0) by (bit_vector) requires 0 <= n0 < 1024;
    }
%% at before tan#0
    proof {
        let (d, x, m) = (dEta@, ep.eta2@ - ep.eta1@, n as real);
        if !found { assert(2real * x <= rpi() * m) by (nonlinear_arith) requires m >= 1024real, x <= 2real * rpi(), rpi() > 0real; }
        assert(0real <= 2real * d <= rpi()) by (nonlinear_arith) requires d * m == x, 2real * x <= rpi() * m, m >= 1real, x >= 0real;
        lemma_acute(d / 2real);
    }
%% at before sqrt#0
    proof { assert(4real + 3real * t@ * t@ >= 0real) by (nonlinear_arith); }
%% at after sqrt#0
    proof {
        let q = root(4real + 3real * t@ * t@);
        assert(4real + 3real * t@ * t@ >= 0real) by (nonlinear_arith);
        axiom_root(4real + 3real * t@ * t@);
        lemma_osculates(alpha@, dEta@, t@, q);
    }
%% at loop2.before
    let ghost w = Arc { t: ep.eta1@, d: dEta@, n: n as int, k: alpha@ };
    let ghost e = el(*ep);
    let ghost base: int = if isSlice { 3 } else { 0 };
    proof {
        assert(step(w, 0) == ep.eta1@) by { assert(0real * w.d == 0real); }
        assert(steps(w, ep.eta1@, ep.eta2@));
    }
%% loop 2
    invariant
        *ep == *old(ep), degree == 3, n >= 1, vs2.len() == n, w.n == n, w.d == dEta@, w.k == alpha@, e == el(*ep), base == (if isSlice { 3int } else { 0 }),
        steps(w, ep.eta1@, ep.eta2@),
        etaB@ == step(w, vk2), path.ps@.len() == base + 3 * vk2 + 1, at(path.ps@[base + 3 * vk2], e, etaB@),
        xB@ == px(e, etaB@), yB@ == py(e, etaB@), xBDot@ == dx(e, etaB@), yBDot@ == dy(e, etaB@),
        curves(path.ps@, base, e, w, vk2),
        isSlice ==> straight(path.ps@, 0, ep.c, path.ps@[3]) && path.ps@[0] == ep.c,
%% at loop2.start
    let ghost before = path.ps@;
    let ghost i = vk2 - 1;
    let ghost t0 = etaB@;
%% at loop2.end
    proof {
        let ps = path.ps@;
        lemma_curves_extend(before, ps, base, e, w, i);
        lemma_step(w, i);
        let j = base + 3 * i;
        assert(ps =~= before + seq![ps[j + 1], ps[j + 2], ps[j + 3]]);
        assert(ps[j] == before[j]);
        assert(-alpha@ * xBDot@ == -(alpha@ * xBDot@)) by (nonlinear_arith);
        assert(-alpha@ * yBDot@ == -(alpha@ * yBDot@)) by (nonlinear_arith);
        assert(span(ps, j, e, step(w, i), step(w, i + 1), w.k));
    }
%% at loop2.after
    let ghost done = path.ps@;
%% at body.end
    proof {
        let ps = path.ps@;
        lemma_curves_extend(done, ps, base, e, w, n as int);
        if isSlice {
            assert(slice(ps, e, ep.c, w));
        } else {
            assert(bow(ps, e, w));
        }
    }
%%% fn ellipticWedge
%% opt reals
%% opt mono P=Ppolyline_t
%% contract
    requires xsemi@ > 0real, ysemi@ > 0real, angle0@ <= angle1@ <= angle0@ + 2real * rpi(),
    ensures
        exists|w: Arc, u: real| #[trigger] steps(w, w.t, u) && wedge(final(path).ps@, ctr, xsemi@, ysemi@, angle0@, angle1@, w, u),
%% at before gen_elliptic_path#0
    let ghost ell0 = ell;
    proof { lemma_zero(); }
%% at body.end
    proof {
        let w = choose|w: Arc| #[trigger] steps(w, ell0.eta1@, ell0.eta2@) && slice(path.ps@, el(ell0), ell0.c, w);
        assert(steps(w, w.t, ell0.eta2@));
        assert(el(ell0) == (El { cx: ctr.x@, cy: ctr.y@, a: xsemi@, b: ysemi@, ct: 1real, st: 0real }));
        assert(wedge(path.ps@, ctr, xsemi@, ysemi@, angle0@, angle1@, w, ell0.eta2@));
    }
