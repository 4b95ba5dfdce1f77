%%% file trellis/src/common/geom.rs
%%% item point
%%% item pointf | f64 => F
%%% item boxi
%%% item boxf
%%% text
axiom fn axiom_pi()
    ensures rpi() > 0real;

// ---- rounding
spec fn rounded(x: real) -> int { clamp32(nearest(x)) }
proof fn lemma_nearest(x: real)
    ensures
        -1real <= 2real * (nearest(x) as real - x) <= 1real,
        2real * (nearest(x) as real - x) == 1real ==> x > 0real,
        2real * (nearest(x) as real - x) == -1real ==> x < 0real,
        nearest(-x) == -nearest(x),
{}
proof fn lemma_nearest_whole(n: int)
    ensures nearest(n as real) == n,
{}
proof fn lemma_nearest_order(x: real, y: real)
    requires x <= y,
    ensures nearest(x) <= nearest(y), rounded(x) <= rounded(y),
{}
/// integers survive the way to floating point and back
proof fn lemma_whole_back(n: i32)
    ensures rounded(n as real) == n,
{ lemma_nearest_whole(n as int); }
proof fn lemma_point_back(p: point, f: pointf, q: point)
    requires
        f.x@ == p.x as real, f.y@ == p.y as real,        // f == P2PF(p)
        q.x == rounded(f.x@), q.y == rounded(f.y@),      // q == PF2P(f)
    ensures q == p,
{ lemma_whole_back(p.x); lemma_whole_back(p.y); }

// ---- squares and lengths
spec fn norm2(a: real, b: real) -> real { a * a + b * b }
spec fn norm(a: real, b: real) -> real { root(norm2(a, b)) }
#[verifier::spinoff_prover]
proof fn lemma_norm2(a: real, b: real)
    ensures norm2(a, b) >= 0real, norm2(a, b) == 0real ==> a == 0real && b == 0real, norm2(-a, -b) == norm2(a, b), norm2(b, a) == norm2(a, b),
{
    assert(a * a >= 0real) by (nonlinear_arith);
    assert(b * b >= 0real) by (nonlinear_arith);
    assert(a * a == 0real ==> a == 0real) by (nonlinear_arith);
    assert(b * b == 0real ==> b == 0real) by (nonlinear_arith);
    assert((-a) * (-a) == a * a) by (nonlinear_arith);
    assert((-b) * (-b) == b * b) by (nonlinear_arith);
}
#[verifier::spinoff_prover]
proof fn lemma_square_order(r: real, s: real)
    requires r >= 0real, s >= 0real,
    ensures r * r <= s * s ==> r <= s, r * r < s * s ==> r < s, r < s ==> r * r < s * s, r * r == s * s ==> r == s,
{
    if r > s { assert(r * r > s * s) by (nonlinear_arith) requires r > s, s >= 0real; }
    if r < s { assert(r * r < s * s) by (nonlinear_arith) requires r < s, r >= 0real; }
}
/// a distance is zero only between equal points, the same both ways, and detours are never shorter
proof fn lemma_norm(a: real, b: real)
    ensures norm(a, b) >= 0real, norm(a, b) * norm(a, b) == norm2(a, b), norm(a, b) == 0real <==> (a == 0real && b == 0real), norm(-a, -b) == norm(a, b),
{
    lemma_norm2(a, b);
    axiom_root(norm2(a, b));
    if norm(a, b) == 0real { assert(norm2(a, b) == 0real); }
    if a == 0real && b == 0real { assert(norm2(a, b) == 0real); let r = norm(a, b); assert(r * r == 0real ==> r == 0real) by (nonlinear_arith); }
}
#[verifier::spinoff_prover]
proof fn lemma_sq_product(x: real, y: real)
    ensures (x * x) * (y * y) == (x * y) * (x * y),
{ assert((x * x) * (y * y) == (x * y) * (x * y)) by (nonlinear_arith); }
#[verifier::spinoff_prover]
proof fn lemma_cauchy(a: real, b: real, c: real, d: real)
    ensures (a * c + b * d) * (a * c + b * d) <= norm2(a, b) * norm2(c, d),
{
    let (aa, bb, cc, dd) = (a * a, b * b, c * c, d * d);
    let (p, q, u, v) = (a * c, b * d, a * d, b * c);
    assert((aa + bb) * (cc + dd) == aa * cc + aa * dd + bb * cc + bb * dd) by (nonlinear_arith);
    lemma_sq_product(a, c); lemma_sq_product(b, d); lemma_sq_product(a, d); lemma_sq_product(b, c);
    assert(p * q == u * v) by (nonlinear_arith) requires p == a * c, q == b * d, u == a * d, v == b * c;
    assert((p + q) * (p + q) == p * p + q * q + 2real * (p * q)) by (nonlinear_arith);
    assert(p * p + q * q + 2real * (u * v) <= p * p + q * q + u * u + v * v) by {
        assert((u - v) * (u - v) >= 0real) by (nonlinear_arith);
        assert((u - v) * (u - v) == u * u + v * v - 2real * (u * v)) by (nonlinear_arith);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_triangle(a: real, b: real, c: real, d: real)
    ensures norm(a + c, b + d) <= norm(a, b) + norm(c, d),
{
    lemma_norm(a, b); lemma_norm(c, d); lemma_norm(a + c, b + d); lemma_cauchy(a, b, c, d);
    let (r, s, t, m) = (norm(a, b), norm(c, d), norm(a + c, b + d), a * c + b * d);
    let rs = r * s;
    assert(rs * rs == (r * r) * (s * s)) by (nonlinear_arith) requires rs == r * s;
    assert(rs >= 0real) by (nonlinear_arith) requires rs == r * s, r >= 0real, s >= 0real;
    assert(norm2(a, b) * norm2(c, d) == rs * rs);
    if m > rs { lemma_square_order(rs, m); }
    assert(m <= rs);
    assert(norm2(a + c, b + d) == norm2(a, b) + norm2(c, d) + 2real * m) by (nonlinear_arith)
        requires m == a * c + b * d, norm2(a, b) == a * a + b * b, norm2(c, d) == c * c + d * d, norm2(a + c, b + d) == (a + c) * (a + c) + (b + d) * (b + d);
    assert((r + s) * (r + s) == r * r + s * s + 2real * rs) by (nonlinear_arith) requires rs == r * s;
    lemma_square_order(t, r + s);
}
/// DIST2 < tol * tol is DIST < tol
proof fn lemma_within(a: real, b: real, tol: real)
    requires tol >= 0real,
    ensures norm2(a, b) < tol * tol <==> norm(a, b) < tol,
{
    lemma_norm(a, b);
    lemma_square_order(norm(a, b), tol);
}
/// x / a * b, however it is bracketed
#[verifier::spinoff_prover]
proof fn lemma_ratio(x: real, a: real, b: real, r: real)
    requires a != 0real,
    ensures
        r == quot(x, a) * b ==> r * a == x * b,
        r == b * quot(x, a) ==> r * a == x * b,
        r == x * quot(b, a) ==> r * a == x * b,
        r == quot(b, a) * x ==> r * a == x * b,
        r == quot(x * b, a) ==> r * a == x * b,
        r == quot(b * x, a) ==> r * a == x * b,
{
    lemma_quot(x, a); lemma_quot(b, a); lemma_quot(x * b, a); lemma_quot(b * x, a);
    let (q, k) = (quot(x, a), quot(b, a));
    assert((q * b) * a == (q * a) * b) by (nonlinear_arith);
    assert((b * q) * a == (q * a) * b) by (nonlinear_arith);
    assert((x * k) * a == x * (k * a)) by (nonlinear_arith);
    assert((k * x) * a == x * (k * a)) by (nonlinear_arith);
    assert(b * x == x * b) by (nonlinear_arith);
}
proof fn lemma_units(a: real)
    ensures a * 72real / 72real == a,
{}
#[verifier::spinoff_prover]
proof fn lemma_angle_back(deg: real, rad: real, back: real)
    requires rad * 180real == deg * rpi(), back * rpi() == rad * 180real,
    ensures back == deg,
{
    axiom_pi();
    assert((back - deg) * rpi() == back * rpi() - deg * rpi()) by (nonlinear_arith);
    assert(back == deg) by (nonlinear_arith) requires (back - deg) * rpi() == 0real, rpi() > 0real;
}
%%% file trellis/src/math.rs
%%% fn sqr
%% opt reals
%% opt mono T=F
%% contract
    ensures r@ == a@ * a@,
%%% file trellis/src/common/arith.rs
%%% fn SQR
%% opt reals
%% contract
    ensures r@ == a@ * a@,
%%% fn MIN
%% opt reals
%% opt mono T=F
%% contract
    ensures r@ == a@ || r@ == b@, r@ <= a@, r@ <= b@,
%%% fn MAX
%% opt reals
%% opt mono T=F
%% contract
    ensures r@ == a@ || r@ == b@, r@ >= a@, r@ >= b@,
%%% fn AVG
%% opt reals
%% contract
    ensures r@ - a@ == b@ - r@,
%%% fn SGN
%% opt reals
%% contract
    ensures r == (if a@ < 0real { -1int } else { 1int }),
%%% fn CMP
%% opt reals
%% contract
    ensures r == (if a@ < b@ { -1int } else if a@ > b@ { 1int } else { 0int }),
%%% fn ROUND
%% opt reals
%% opt real-casts
%% contract
    ensures r == rounded(f@),
%%% fn RADIANS
%% opt reals
%% opt inline M_PI
%% contract
    ensures r@ * 180real == deg@ * rpi(),
%% at body.result
    proof { lemma_ratio(deg@, 180real, rpi(), res@); }
%%% fn DEGREES
%% opt reals
%% opt inline M_PI
%% contract
    ensures r@ * rpi() == rad@ * 180real,
%% at body.start
    proof { axiom_pi(); }
%% at body.result
    proof { lemma_ratio(rad@, rpi(), 180real, res@); }
%%% file trellis/src/common/geom.rs
%%% fn LEN2
%% opt reals
%% contract
    ensures r@ == norm2(a@, b@),
%%% fn LEN
%% opt reals
%% contract
    ensures r@ == norm(a@, b@),
%% at body.start
    proof { lemma_norm2(a@, b@); }
%%% fn DIST2
%% opt reals
%% contract
    ensures r@ == norm2(p.x@ - q.x@, p.y@ - q.y@),
%%% fn DIST
%% opt reals
%% contract
    ensures r@ == norm(p.x@ - q.x@, p.y@ - q.y@),
%% at body.start
    proof { lemma_norm2(p.x@ - q.x@, p.y@ - q.y@); }
%%% fn POINTS
%% opt reals
%% opt inline POINTS_PER_INCH
%% contract
    ensures r == rounded(a_inches@ * 72real),
%%% fn INCH2PS
%% opt reals
%% opt inline POINTS_PER_INCH
%% contract
    ensures r@ == a_inches@ * 72real,
%%% fn PS2INCH
%% opt reals
%% opt inline POINTS_PER_INCH
%% contract
    ensures r@ * 72real == a_points@,
%%% fn P2PF
%% opt reals
%% contract
    ensures r.x@ == p.x as real, r.y@ == p.y as real,
%%% fn PF2P
%% opt reals
%% opt real-casts
%% contract
    ensures r.x == rounded(pf.x@), r.y == rounded(pf.y@),
%%% fn B2BF
%% opt reals
%% contract
    ensures r.LL.x@ == b.LL.x as real, r.LL.y@ == b.LL.y as real, r.UR.x@ == b.UR.x as real, r.UR.y@ == b.UR.y as real,
%%% fn BF2B
%% opt reals
%% contract
    ensures r.LL.x == rounded(bf.LL.x@), r.LL.y == rounded(bf.LL.y@), r.UR.x == rounded(bf.UR.x@), r.UR.y == rounded(bf.UR.y@),
%%% fn APPROXEQ
%% opt reals
%% contract
    ensures r <==> -tol@ < a@ - b@ < tol@,
%%% fn APPROXEQPT
%% opt reals
%% contract
    ensures r <==> norm2(p.x@ - q.x@, p.y@ - q.y@) < tol@ * tol@, tol@ >= 0real ==> (r <==> norm(p.x@ - q.x@, p.y@ - q.y@) < tol@),
%% at body.start
    proof { if tol@ >= 0real { lemma_within(p.x@ - q.x@, p.y@ - q.y@, tol@); } }
%%% file trellis/src/vec2.rs
%%% fn Vec2::from_angle
%% opt reals
%% contract
    ensures r.x@ == rcos(theta@), r.y@ == rsin(theta@), norm2(r.x@, r.y@) == 1real,
%% at body.start
    proof { axiom_unit(theta@); }
%%% fn Vec2::from
%% contract
    ensures r.x == arg0.0, r.y == arg0.1,
%%% fn Vec2::into
%% contract
    ensures r.0 == self.x, r.1 == self.y,
