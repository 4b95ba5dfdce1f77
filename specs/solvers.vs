%%% file trellis/src/pathplan/solvers.rs
%%% text
spec fn eps() -> real { 1real / 10000000real }
/// treated as zero
spec fn near0(x: real) -> bool { x < eps() && x > -eps() }
spec fn quad(a: real, b: real, c: real, x: real) -> real { a * x * x + b * x + c }
spec fn is_root(a: real, b: real, c: real, x: real) -> bool { quad(a, b, c, x) == 0real }

/// `n` and `roots` are the distinct real roots of a x^2 + b x + c, (a, b) not both zero
spec fn all_roots(a: real, b: real, c: real, n: int, roots: Seq<F>) -> bool {
    &&& 0 <= n <= 2
    &&& forall|i: int| 0 <= i < n ==> is_root(a, b, c, #[trigger] roots[i]@)
    &&& forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] roots[i])@ != (#[trigger] roots[j])@
    &&& forall|x: real| #[trigger] is_root(a, b, c, x) ==> exists|i: int| 0 <= i < n && #[trigger] roots[i]@ == x
}
spec fn solved(c2: real, c1: real, c0: real, n: int, roots: Seq<F>) -> bool {
    if !near0(c2) { all_roots(c2, c1, c0, n, roots) }
    else if !near0(c1) { all_roots(0real, c1, c0, n, roots) }
    else { n == (if near0(c0) { 4int } else { 0 }) }
}
proof fn lemma_linear(b: real, c: real, r: real)
    requires b != 0real, r * b == -c,
    ensures forall|x: real| is_root(0real, b, c, x) <==> x == r,
{
    assert forall|x: real| is_root(0real, b, c, x) <==> x == r by {
        assert(0real * x * x == 0real) by (nonlinear_arith);
        assert(b * r == r * b) by (nonlinear_arith);
        if is_root(0real, b, c, x) {
            assert(b * x == b * r);
            assert(x == r) by (nonlinear_arith) requires b * x == b * r, b != 0real;
        }
    }
}
/// completing the square: h = b/2a, q = c/a, d = h*h - q
proof fn lemma_square(a: real, b: real, c: real, h: real, q: real, x: real)
    requires a != 0real, h * (2real * a) == b, q * a == c,
    ensures quad(a, b, c, x) == a * ((x + h) * (x + h) - (h * h - q)),
{
    assert((x + h) * (x + h) == x * x + 2real * (h * x) + h * h) by (nonlinear_arith);
    let s = x * x + 2real * (h * x) + q;
    assert((x + h) * (x + h) - (h * h - q) == s);
    assert(a * s == a * (x * x) + a * (2real * (h * x)) + a * q) by (nonlinear_arith) requires s == x * x + 2real * (h * x) + q;
    assert(a * (x * x) == a * x * x) by (nonlinear_arith);
    assert(a * (2real * (h * x)) == (h * (2real * a)) * x) by (nonlinear_arith);
    assert(a * q == q * a) by (nonlinear_arith);
}
proof fn lemma_zero_product(a: real, s: real)
    requires a != 0real,
    ensures a * s == 0real <==> s == 0real,
{ assert(a * s == 0real <==> s == 0real) by (nonlinear_arith) requires a != 0real; }
/// the roots are the numbers whose distance squared from -h is d
proof fn lemma_roots(a: real, b: real, c: real, h: real, q: real)
    requires a != 0real, h * (2real * a) == b, q * a == c,
    ensures forall|x: real| #[trigger] is_root(a, b, c, x) <==> (x + h) * (x + h) == h * h - q,
{
    assert forall|x: real| #[trigger] is_root(a, b, c, x) <==> (x + h) * (x + h) == h * h - q by {
        lemma_square(a, b, c, h, q, x);
        lemma_zero_product(a, (x + h) * (x + h) - (h * h - q));
    }
}
proof fn lemma_sq(y: real, s: real)
    ensures y * y >= 0real, y * y == 0real <==> y == 0real, y * y == s * s <==> (y == s || y == -s),
{
    assert(y * y >= 0real) by (nonlinear_arith);
    assert(y * y == 0real <==> y == 0real) by (nonlinear_arith);
    assert((y - s) * (y + s) == y * y - s * s) by (nonlinear_arith);
    if y * y == s * s {
        assert(y - s == 0real || y + s == 0real) by (nonlinear_arith) requires (y - s) * (y + s) == 0real;
    }
    if y == -s { assert(y * y == s * s) by (nonlinear_arith) requires y == -s; }
}
/// the three cases of the discriminant d, given the non-negative root of d
proof fn lemma_cases(a: real, b: real, c: real, h: real, q: real, roots: Seq<F>, n: int)
    requires
        a != 0real, h * (2real * a) == b, q * a == c, roots.len() == 4,
        h * h - q < 0real ==> n == 0,
        h * h - q == 0real ==> n == 1 && roots[0]@ == -h,
        h * h - q > 0real ==> n == 2 && roots[0]@ + h != 0real && (roots[0]@ + h) * (roots[0]@ + h) == h * h - q && roots[1]@ == -2real * h - roots[0]@,
    ensures all_roots(a, b, c, n, roots),
{
    lemma_roots(a, b, c, h, q);
    let d = h * h - q;
    let s = roots[0]@ + h;
    assert forall|x: real| #[trigger] is_root(a, b, c, x) implies exists|i: int| 0 <= i < n && #[trigger] roots[i]@ == x by {
        lemma_sq(x + h, s);
        if d > 0real {
            if x + h == s { assert(roots[0]@ == x); } else { assert(x + h == -s); assert(roots[1]@ == x); }
        } else if d == 0real { assert(roots[0]@ == x); }
    }
    if d == 0real { lemma_sq(-h + h, 0real); assert(is_root(a, b, c, roots[0]@)); }
    if d > 0real {
        lemma_sq(roots[1]@ + h, s);
        assert(roots[1]@ + h == -s);
        assert(is_root(a, b, c, roots[0]@));
        assert(is_root(a, b, c, roots[1]@));
    }
}
%%% fn AEQ0
%% opt reals
%% opt inline EPS
%% contract
    ensures r == near0(x@),
%%% fn solve1
%% opt reals
%% contract
    ensures near0(coeff@[2]@) ==> solved(coeff@[2]@, coeff@[1]@, coeff@[0]@, r.0 as int, r.1@),
%% at body.result
    proof { if !near0(coeff@[1]@) { lemma_linear(coeff@[1]@, coeff@[0]@, res.1@[0]@); assert(res.1@[0]@ == res.1@[0]@); } }
%%% fn solve2
%% opt reals
%% contract
    ensures solved(coeff@[2]@, coeff@[1]@, coeff@[0]@, r.0 as int, r.1@),
%% at body.result
    proof {
        let (a2, b2, c2) = (coeff@[2]@, coeff@[1]@, coeff@[0]@);
        lemma_cases(a2, b2, c2, b_over_2a@, c_over_a@, res.1@, res.0 as int);
    }
%%% fn cbrt
%% opt reals
%% contract
    ensures cube(r@) == x@, r@ == croot(x@),
%% at body.result
    proof {
        let m = res@;
        assert((-m) * (-m) * (-m) == -(m * m * m)) by (nonlinear_arith);
        assert(-1real * (-m) == m);
        lemma_croot(m);
    }
%%% fn solve3
%% opt reals
%% contract
    ensures
        near0(coeff@[3]@) ==> solved(coeff@[2]@, coeff@[1]@, coeff@[0]@, r.0 as int, r.1@),
        !near0(coeff@[3]@) ==> cubic_roots(coeff@[3]@, coeff@[2]@, coeff@[1]@, coeff@[0]@, r.0 as int, r.1@),
%% at if1.then.start
    proof { lemma_sq(q@, 0real); }
%% at if1.then.end
    proof {
        assert(4real * p@ * p@ * p@ == 4real * cube(p@)) by (nonlinear_arith) requires cube(p@) == p@ * p@ * p@;
        let (s, m) = (root(q@ * q@ - disc@), temp@ / 2real);
        lemma_sq(q@, 0real);
        assert((-q@) * (-q@) == q@ * q@) by (nonlinear_arith);
        let (t, k) = (theta@ / 3real, 2real * rpi() / 3real);
        assert(temp@ == 2real * croot(r@));
        assert(cube(m) == r@);
        lemma_angles(p@, q@, disc@, s, r@, theta@, t, k, m, roots@[0]@, roots@[1]@, roots@[2]@);
    }
%% at if1.else.end
    proof {
        assert(4real * p@ * p@ * p@ == 4real * cube(p@)) by (nonlinear_arith) requires cube(p@) == p@ * p@ * p@;
        let s = root(disc@);
        let (ga, gb) = ((s - q@) / 2real, -q@ - (s - q@) / 2real);
        assert(alpha@ == ga && beta@ == gb);
        let (u, v) = (croot(ga), croot(gb));
        lemma_uv(p@, q@, disc@, s, ga, gb, u, v);
        lemma_real_pair(p@, q@, disc@, s, ga, gb, u, v);
        assert(roots@[0]@ == u + v);
    }
%% at if2.else.end
    proof {
        let w = roots@[0]@;
        assert(disc@ == 0real);
        assert(vieta(p@, q@, w, -w / 2real, -w / 2real));
        assert(roots@[1]@ == -w / 2real && roots@[2]@ == -w / 2real);
    }
%% at loop0.before
    let ghost y = roots@;
    proof { lemma_depressed(a@, b@, c@, d@, b_over_3a@, c_over_a@, d_over_a@, p@, q@); }
%% loop 0
    invariant
        rootn <= 4, y.len() == 4, vs0.len() == rootn, forall|i: int| 0 <= i < vs0.len() ==> vs0[i] == i,
        forall|i: int| 0 <= i < 4 ==> (#[trigger] roots@[i])@ == (if i < vk0 { y[i]@ - b_over_3a@ } else { y[i]@ }),
%% at loop0.after
    proof {
        let (a3, b3, c3, d3, h) = (a@, b@, c@, d@, b_over_3a@);
        if rootn == 3 { lemma_three(a3, b3, c3, d3, h, p@, q@, y[0]@, y[1]@, y[2]@, roots@); }
        else {
            let s = root(disc@);
            let (ga, gb) = ((s - q@) / 2real, -q@ - (s - q@) / 2real);
            lemma_one(a3, b3, c3, d3, h, p@, q@, croot(ga), croot(gb), roots@);
        }
    }
