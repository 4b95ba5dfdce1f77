%%% text
spec fn cub(a: real, b: real, c: real, d: real, x: real) -> real { a * (x * x * x) + b * (x * x) + c * x + d }
spec fn slope(a: real, b: real, c: real, x: real) -> real { 3real * (a * (x * x)) + 2real * (b * x) + c }
/// either all three roots, each as often as it divides the polynomial, or the only real root, which is simple
spec fn cubic_roots(a: real, b: real, c: real, d: real, n: int, roots: Seq<F>) -> bool {
    ||| n == 3 && forall|x: real| #[trigger] cub(a, b, c, d, x) == a * ((x - roots[0]@) * (x - roots[1]@) * (x - roots[2]@))
    ||| n == 1 && slope(a, b, c, roots[0]@) != 0real && forall|x: real| #[trigger] cub(a, b, c, d, x) == 0real <==> x == roots[0]@
}
spec fn cube(x: real) -> real { x * x * x }
proof fn lemma_cube_unique(x: real, y: real)
    requires cube(x) == cube(y),
    ensures x == y,
{
    let s = x * x + x * y + y * y;
    assert((x - y) * s == cube(x) - cube(y)) by (nonlinear_arith) requires s == x * x + x * y + y * y;
    assert(4real * s == (x + x + y) * (x + x + y) + 3real * (y * y)) by (nonlinear_arith) requires s == x * x + x * y + y * y;
    if x != y {
        assert(s == 0real) by (nonlinear_arith) requires (x - y) * s == 0real, x != y;
        assert((x + x + y) * (x + x + y) >= 0real && y * y >= 0real) by (nonlinear_arith);
        assert(y * y == 0real && (x + x + y) * (x + x + y) == 0real);
        assert(y == 0real) by (nonlinear_arith) requires y * y == 0real;
        assert(x + x + y == 0real) by (nonlinear_arith) requires (x + x + y) * (x + x + y) == 0real;
    }
}
spec fn croot(x: real) -> real { choose|z: real| #[trigger] cube(z) == x }
proof fn lemma_croot(z: real)
    ensures croot(cube(z)) == z,
{ lemma_cube_unique(croot(cube(z)), z); }
/// the depressed cubic y^3 + 3 p y + q, where x = y - h
spec fn low(p: real, q: real, y: real) -> real { y * y * y + 3real * (p * y) + q }
spec fn depressed(a: real, b: real, c: real, d: real, h: real, p: real, q: real) -> bool {
    a != 0real && b == 3real * (a * h) && c == a * (3real * p + 3real * (h * h)) && d == a * (q + h * (h * h) + 3real * (p * h))
}
proof fn lemma_depressed(a: real, b: real, c: real, d: real, h: real, e: real, f: real, p: real, q: real)
    requires a != 0real, h * (3real * a) == b, e * a == c, f * a == d, 3real * p == e - 3real * (h * h), q == 2real * h * (h * h) - h * e + f,
    ensures depressed(a, b, c, d, h, p, q),
{
    assert(h * (3real * a) == 3real * (a * h)) by (nonlinear_arith);
    assert(e == 3real * p + 3real * (h * h));
    assert(a * e == e * a) by (nonlinear_arith);
    assert(h * e == 3real * (p * h) + 3real * (h * (h * h))) by (nonlinear_arith) requires e == 3real * p + 3real * (h * h);
    assert(2real * h * (h * h) == 2real * (h * (h * h))) by (nonlinear_arith);
    assert(f == q + h * (h * h) + 3real * (p * h));
    assert(a * f == f * a) by (nonlinear_arith);
}
#[verifier::spinoff_prover]
proof fn lemma_low(a: real, b: real, c: real, d: real, h: real, p: real, q: real, x: real)
    requires depressed(a, b, c, d, h, p, q),
    ensures
        cub(a, b, c, d, x) == a * low(p, q, x + h),
        slope(a, b, c, x) == a * (3real * ((x + h) * (x + h) + p)),
{
    let y = x + h;
    let (x2, x3, h2) = (x * x, x * x * x, h * h);
    let e = 3real * p + 3real * h2;
    let f = q + h * h2 + 3real * (p * h);
    assert(y * y == x2 + 2real * (h * x) + h2) by (nonlinear_arith) requires y == x + h, x2 == x * x, h2 == h * h;
    assert(y * y * y == x3 + 3real * (h * x2) + 3real * (h2 * x) + h * h2) by (nonlinear_arith)
        requires y == x + h, x2 == x * x, x3 == x * x * x, h2 == h * h;
    assert(p * y == p * x + p * h) by (nonlinear_arith) requires y == x + h;
    assert(e * x == 3real * (p * x) + 3real * (h2 * x)) by (nonlinear_arith) requires e == 3real * p + 3real * h2;
    let (m1, m2) = (h * x2, e * x);
    assert(low(p, q, y) == x3 + 3real * m1 + m2 + f);
    assert(a * (x3 + 3real * m1 + m2 + f) == a * x3 + 3real * (a * m1) + a * m2 + a * f) by (nonlinear_arith);
    assert((3real * (a * h)) * x2 == 3real * (a * m1)) by (nonlinear_arith) requires m1 == h * x2;
    assert((a * e) * x == a * m2) by (nonlinear_arith) requires m2 == e * x;
    let n1 = h * x;
    assert(3real * (y * y + p) == 3real * x2 + 6real * n1 + e);
    assert(a * (3real * x2 + 6real * n1 + e) == 3real * (a * x2) + 6real * (a * n1) + a * e) by (nonlinear_arith);
    assert((3real * (a * h)) * x == 3real * (a * n1)) by (nonlinear_arith) requires n1 == h * x;
}
/// y0, y1, y2 are the roots of the depressed cubic
spec fn vieta(p: real, q: real, y0: real, y1: real, y2: real) -> bool {
    y0 + y1 + y2 == 0real && y0 * y1 + y0 * y2 + y1 * y2 == 3real * p && y0 * y1 * y2 == -q
}
#[verifier::spinoff_prover]
proof fn lemma_vieta(p: real, q: real, y0: real, y1: real, y2: real, y: real)
    requires vieta(p, q, y0, y1, y2),
    ensures low(p, q, y) == (y - y0) * (y - y1) * (y - y2),
{
    let t = y0 + y1;
    let m = y0 * y1;
    assert((y - y0) * (y - y1) == y * y - t * y + m) by (nonlinear_arith) requires t == y0 + y1, m == y0 * y1;
    let k = y * y - t * y + m;
    let (s, n) = (y * y, t * y);
    assert(k * (y - y2) == s * y - n * y + m * y - s * y2 + n * y2 - m * y2) by (nonlinear_arith) requires k == s - n + m;
    assert(s * y2 == -(n * y)) by (nonlinear_arith) requires s == y * y, n == t * y, y2 == -t;
    assert(y0 * y2 + y1 * y2 == t * y2) by (nonlinear_arith) requires t == y0 + y1;
    assert(m * y + n * y2 == (m + t * y2) * y) by (nonlinear_arith) requires n == t * y;
    assert((3real * p) * y == 3real * (p * y)) by (nonlinear_arith);
}
/// all three roots are known
#[verifier::spinoff_prover]
proof fn lemma_three(a: real, b: real, c: real, d: real, h: real, p: real, q: real, y0: real, y1: real, y2: real, roots: Seq<F>)
    requires depressed(a, b, c, d, h, p, q), vieta(p, q, y0, y1, y2), roots.len() == 4,
        roots[0]@ == y0 - h, roots[1]@ == y1 - h, roots[2]@ == y2 - h,
    ensures cubic_roots(a, b, c, d, 3, roots),
{
    assert forall|x: real| #[trigger] cub(a, b, c, d, x) == a * ((x - roots[0]@) * (x - roots[1]@) * (x - roots[2]@)) by {
        lemma_low(a, b, c, d, h, p, q, x);
        lemma_vieta(p, q, y0, y1, y2, x + h);
        assert(x + h - y0 == x - roots[0]@);
        assert(x + h - y1 == x - roots[1]@);
        assert(x + h - y2 == x - roots[2]@);
    }
}
/// u + v is a root
#[verifier::spinoff_prover]
proof fn lemma_cardano(p: real, q: real, u: real, v: real, y: real)
    requires u * v == -p, cube(u) + cube(v) == -q,
    ensures
        low(p, q, y) == (y - (u + v)) * (y * y + (u + v) * y + ((u + v) * (u + v) + 3real * p)),
        4real * (y * y + (u + v) * y + ((u + v) * (u + v) + 3real * p)) == (2real * y + (u + v)) * (2real * y + (u + v)) + 3real * ((u - v) * (u - v)),
        (u + v) * (u + v) + p == u * u + u * v + v * v,
{
    let w = u + v;
    assert(low(p, q, w) == 0real) by {
        assert(w * w * w == cube(u) + cube(v) + 3real * ((u * v) * w)) by (nonlinear_arith) requires w == u + v, cube(u) == u * u * u, cube(v) == v * v * v;
        assert((-p) * w == -(p * w)) by (nonlinear_arith);
    }
    assert((y - w) * (y * y + w * y + (w * w + 3real * p)) == y * y * y + 3real * (p * y) - (w * w * w + 3real * (p * w))) by (nonlinear_arith);
    assert(w * w == u * u + 2real * (u * v) + v * v) by (nonlinear_arith) requires w == u + v;
    assert((u - v) * (u - v) == u * u - 2real * (u * v) + v * v) by (nonlinear_arith);
    assert((2real * y + w) * (2real * y + w) == 4real * (y * y) + 4real * (w * y) + w * w) by (nonlinear_arith);
}
/// uv = -p, where u^3 and v^3 have the product -p^3
#[verifier::spinoff_prover]
proof fn lemma_uv(p: real, q: real, disc: real, s: real, alpha: real, beta: real, u: real, v: real)
    requires disc == q * q + 4real * cube(p), s * s == disc, 2real * alpha == s - q, beta == -q - alpha, cube(u) == alpha, cube(v) == beta,
    ensures u * v == -p, cube(u) + cube(v) == -q,
{
    assert(4real * (alpha * beta) == q * q - s * s) by (nonlinear_arith) requires 2real * alpha == s - q, beta == -q - alpha;
    assert(cube(u * v) == cube(u) * cube(v)) by (nonlinear_arith) requires cube(u) == u * u * u, cube(v) == v * v * v, cube(u * v) == (u * v) * (u * v) * (u * v);
    assert(cube(-p) == -cube(p)) by (nonlinear_arith) requires cube(p) == p * p * p, cube(-p) == (-p) * (-p) * (-p);
    lemma_cube_unique(u * v, -p);
}
/// u + v is the only root, and simple
#[verifier::spinoff_prover]
proof fn lemma_one(a: real, b: real, c: real, d: real, h: real, p: real, q: real, u: real, v: real, roots: Seq<F>)
    requires depressed(a, b, c, d, h, p, q), u * v == -p, cube(u) + cube(v) == -q, u != v, roots.len() == 4, roots[0]@ == u + v - h,
    ensures cubic_roots(a, b, c, d, 1, roots),
{
    let w = u + v;
    let x0 = roots[0]@;
    assert((u - v) * (u - v) > 0real) by (nonlinear_arith) requires u != v;
    assert forall|x: real| #[trigger] cub(a, b, c, d, x) == 0real <==> x == x0 by {
        let y = x + h;
        lemma_low(a, b, c, d, h, p, q, x);
        lemma_cardano(p, q, u, v, y);
        let k = y * y + w * y + (w * w + 3real * p);
        assert((2real * y + w) * (2real * y + w) >= 0real) by (nonlinear_arith);
        assert(k > 0real);
        assert(a * ((y - w) * k) == 0real <==> y == w) by (nonlinear_arith) requires a != 0real, k > 0real;
    }
    lemma_low(a, b, c, d, h, p, q, x0);
    lemma_cardano(p, q, u, v, 0real);
    let g = u * u + u * v + v * v;
    assert(4real * g == (2real * u + v) * (2real * u + v) + 3real * (v * v)) by (nonlinear_arith) requires g == u * u + u * v + v * v;
    assert(g > 0real) by (nonlinear_arith) requires 4real * g == (2real * u + v) * (2real * u + v) + 3real * (v * v), u != v;
    assert(x0 + h == w);
    assert(a * (3real * g) != 0real) by (nonlinear_arith) requires a != 0real, g > 0real;
}
/// distinct when the discriminant is positive; equal when it is zero, and then the roots are 2u, -u, -u
#[verifier::spinoff_prover]
proof fn lemma_real_pair(p: real, q: real, disc: real, s: real, alpha: real, beta: real, u: real, v: real)
    requires s >= 0real, s * s == disc, 2real * alpha == s - q, beta == -q - alpha, cube(u) == alpha, cube(v) == beta, u * v == -p, cube(u) + cube(v) == -q,
    ensures
        disc > 0real ==> u != v,
        disc == 0real ==> vieta(p, q, u + v, -(u + v) / 2real, -(u + v) / 2real),
{
    if disc == 0real {
        assert(s == 0real) by (nonlinear_arith) requires s * s == 0real;
        lemma_cube_unique(u, v);
        assert(u + v == 2real * u && -(u + v) / 2real == -u);
        assert((2real * u) * (-u) == -2real * (u * u) && (-u) * (-u) == u * u) by (nonlinear_arith);
        assert((2real * u) * (-u) * (-u) == 2real * cube(u)) by (nonlinear_arith) requires cube(u) == u * u * u;
    }
    if disc > 0real && u == v {
        assert(s == 0real);
        assert(s * s == 0real) by (nonlinear_arith) requires s == 0real;
    }
}
/// the three angles
#[verifier::spinoff_prover]
proof fn lemma_angles(p: real, q: real, disc: real, s: real, r: real, theta: real, t: real, k: real, m: real, y0: real, y1: real, y2: real)
    requires
        disc == q * q + 4real * cube(p), s >= 0real, s * s == q * q - disc, 2real * r == s, cube(m) == r, rcos(theta) * s == -q,
        t * 3real == theta, k * 3real == 2real * rpi(),
        y0 == 2real * m * rcos(t), y1 == 2real * m * rcos(t + k), y2 == 2real * m * rcos(t - k),
    ensures vieta(p, q, y0, y1, y2),
{
    // m * m == -p
    assert(4real * (r * r) == s * s) by (nonlinear_arith) requires 2real * r == s;
    assert(cube(m * m) == cube(m) * cube(m)) by (nonlinear_arith) requires cube(m) == m * m * m, cube(m * m) == (m * m) * (m * m) * (m * m);
    assert(cube(-p) == -cube(p)) by (nonlinear_arith) requires cube(p) == p * p * p, cube(-p) == (-p) * (-p) * (-p);
    lemma_cube_unique(m * m, -p);
    // cos of three times t
    let (cc, ss) = (rcos(t), rsin(t));
    axiom_unit(t); axiom_sum(t, t); axiom_sum(t + t, t);
    assert(t + t + t == theta);
    let u = rcos(theta);
    assert(u == (cc * cc - ss * ss) * cc - (ss * cc + cc * ss) * ss);
    assert(u == 4real * (cc * cc * cc) - 3real * cc) by (nonlinear_arith)
        requires u == (cc * cc - ss * ss) * cc - (ss * cc + cc * ss) * ss, cc * cc + ss * ss == 1real;
    // the other two
    axiom_third(k); axiom_sum(t, k); axiom_sum(t, -k); axiom_sum(k, k);
    assert(t + (-k) == t - k);
    let (c3, s3) = (rcos(k), rsin(k));
    assert(c3 == -1real / 2real);
    assert(cc * c3 == -(cc / 2real)) by (nonlinear_arith) requires 2real * c3 == -1real;
    let z = ss * s3;
    assert(ss * (-s3) == -z) by (nonlinear_arith) requires z == ss * s3;
    assert(rcos(t + k) == -(cc / 2real) - z);
    assert(rcos(t - k) == -(cc / 2real) + z);
    assert(4real * (z * z) == 3real * (ss * ss)) by (nonlinear_arith) requires z == ss * s3, 4real * (s3 * s3) == 3real;
    let g = 2real * m;
    assert(y0 == g * cc && y1 == g * (-(cc / 2real) - z) && y2 == g * (-(cc / 2real) + z));
    lemma_product(g, cc, z, y0, y1, y2);
    assert(4real * (y1 * y2) == (g * g) * (cc * cc - 3real * (ss * ss)));
    assert(g * g == 4real * (m * m)) by (nonlinear_arith) requires g == 2real * m;
    let c2 = cc * cc;
    assert(y1 * y2 == (m * m) * (4real * c2 - 3real)) by (nonlinear_arith)
        requires 4real * (y1 * y2) == (g * g) * (c2 - 3real * (ss * ss)), g * g == 4real * (m * m), c2 + ss * ss == 1real;
    assert(y0 * y0 == 4real * ((m * m) * c2)) by (nonlinear_arith) requires y0 == g * cc, g == 2real * m, c2 == cc * cc;
    assert(y0 * y1 + y0 * y2 == -(y0 * y0)) by (nonlinear_arith) requires y0 + y1 + y2 == 0real;
    assert((m * m) * (4real * c2 - 3real) == 4real * ((m * m) * c2) - 3real * (m * m)) by (nonlinear_arith);
    let n = y1 * y2;
    assert(y0 * y1 * y2 == y0 * n) by (nonlinear_arith) requires n == y1 * y2;
    assert(y0 * n == 2real * ((m * m * m) * (4real * (cc * cc * cc) - 3real * cc))) by (nonlinear_arith)
        requires y0 == g * cc, g == 2real * m, n == (m * m) * (4real * c2 - 3real), c2 == cc * cc;
    assert(2real * (r * u) == u * s) by (nonlinear_arith) requires 2real * r == s;
}
#[verifier::spinoff_prover]
proof fn lemma_product(g: real, c: real, z: real, y0: real, y1: real, y2: real)
    requires y0 == g * c, y1 == g * (-(c / 2real) - z), y2 == g * (-(c / 2real) + z),
    ensures y0 + y1 + y2 == 0real, 4real * (y1 * y2) == (g * g) * (c * c - 4real * (z * z)),
{
    let e = c / 2real;
    assert(c == 2real * e);
    assert(g * (2real * e) + g * (-e - z) + g * (-e + z) == 0real) by (nonlinear_arith);
    assert(4real * ((g * (-e - z)) * (g * (-e + z))) == (g * g) * ((2real * e) * (2real * e) - 4real * (z * z))) by (nonlinear_arith);
}
