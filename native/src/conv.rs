//! C35: coordinate and unit conversions, lengths, small arithmetic.
use crate::core::*;
use trellis::common::arith;
use trellis::common::geom::*;
use trellis::vec2::Vec2;

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs()).max(1e-280)
}
/// nearest integer with halves away from zero, clamped
fn nearest(x: f64) -> Option<i32> {
    let t = x.trunc();
    let f = (x - t).abs();
    let n = if f >= 0.5 { t + 1f64.copysign(x) } else { t };
    Some(if n >= 2147483647.0 {
        i32::MAX
    } else if n <= -2147483648.0 {
        i32::MIN
    } else {
        n as i32
    })
}
fn round_case(c: &mut Ctx, x: f64, y: f64) {
    c.case(format!("floating point {:?} {:?}", x, y), x.fract() != 0.0, || {
        for v in [x, y] {
            if let Some(n) = nearest(v) {
                ensure!(arith::ROUND(v) == n, "ROUND({:?}) is {}, the nearest integer is {}", v, arith::ROUND(v), n);
            }
            if let Some(n) = nearest(v * 72.0) {
                ensure!(POINTS(v) == n, "POINTS({:?}) is {}, expected {}", v, POINTS(v), n);
            }
            ensure!(close(INCH2PS(v), v * 72.0), "INCH2PS({:?}) is {:?}", v, INCH2PS(v));
            ensure!(close(PS2INCH(v), v / 72.0), "PS2INCH({:?}) is {:?}", v, PS2INCH(v));
            let pi = std::f64::consts::PI;
            ensure!(close(arith::RADIANS(v), v / 180.0 * pi), "RADIANS({:?}) is {:?}", v, arith::RADIANS(v));
            ensure!(close(arith::DEGREES(v), v / pi * 180.0), "DEGREES({:?}) is {:?}", v, arith::DEGREES(v));
            ensure!(close(arith::SQR(v), v * v), "SQR({:?}) is {:?}", v, arith::SQR(v));
            ensure!(close(trellis::math::sqr(v), v * v), "sqr({:?}) is {:?}", v, trellis::math::sqr(v));
            ensure!(arith::SGN(v) == if v < 0.0 { -1 } else { 1 }, "SGN({:?}) is {}", v, arith::SGN(v));
        }
        let r = PF2P(Vec2 { x, y });
        ensure!(nearest(x).map_or(true, |n| n == r.x) && nearest(y).map_or(true, |n| n == r.y), "PF2P gives ({}, {})", r.x, r.y);
        let b = BF2B(&boxf { LL: Vec2 { x, y }, UR: Vec2 { x: y, y: -x } });
        for (g, w) in [(b.LL.x, x), (b.LL.y, y), (b.UR.x, y), (b.UR.y, -x)] {
            ensure!(nearest(w).map_or(true, |n| n == g), "BF2B turns {:?} into {}", w, g);
        }
        let (lo, hi) = if x < y { (x, y) } else { (y, x) };
        ensure!(arith::MIN(x, y) == lo && arith::MAX(x, y) == hi, "MIN {:?} MAX {:?}", arith::MIN(x, y), arith::MAX(x, y));
        if (x + y).is_finite() {
            ensure!(close(arith::AVG(x, y), (x + y) / 2.0), "AVG is {:?}", arith::AVG(x, y));
        }
        let cmp = if x < y { -1 } else if x > y { 1 } else { 0 };
        ensure!(arith::CMP(x, y) == cmp, "CMP is {}", arith::CMP(x, y));
        let t: (f64, f64) = Vec2::from((x, y)).into();
        ensure!(t == (x, y) && Vec2::from((x, y)).x == x, "tuple conversion gives {:?}", t);
        let (s, co) = x.sin_cos();
        let d = Vec2::from_angle(x);
        ensure!((d.x - co).abs() < 1e-9 && (d.y - s).abs() < 1e-9, "from_angle is ({:?}, {:?})", d.x, d.y);
        Ok(())
    });
}
fn whole_case(c: &mut Ctx, q: [i32; 4]) {
    c.case(format!("integer box {:?}", q), q[0] != q[1], || {
        let (l, u) = (point { x: q[0], y: q[1] }, point { x: q[2], y: q[3] });
        let f = P2PF(l);
        ensure!(f.x == q[0] as f64 && f.y == q[1] as f64, "P2PF gives ({:?}, {:?})", f.x, f.y);
        let r = PF2P(f);
        ensure!((r.x, r.y) == (q[0], q[1]), "PF2P(P2PF) gives ({}, {})", r.x, r.y);
        let bf = B2BF(&boxi { LL: l, UR: u });
        ensure!([bf.LL.x, bf.LL.y, bf.UR.x, bf.UR.y] == q.map(|v| v as f64), "B2BF gives {:?} {:?} {:?} {:?}", bf.LL.x, bf.LL.y, bf.UR.x, bf.UR.y);
        let b = BF2B(&bf);
        ensure!([b.LL.x, b.LL.y, b.UR.x, b.UR.y] == q, "BF2B(B2BF) gives {:?}", [b.LL.x, b.LL.y, b.UR.x, b.UR.y]);
        for v in q {
            ensure!(arith::ROUND(v as f64) == v, "ROUND({}) is {}", v, arith::ROUND(v as f64));
        }
        Ok(())
    });
}
fn length_case(c: &mut Ctx, p: (f64, f64), q: (f64, f64), tol: f64) {
    c.case(format!("points {:?} {:?} tolerance {:?}", p, q, tol), p != q, || {
        let v = |t: (f64, f64)| Vec2 { x: t.0, y: t.1 };
        let (dx, dy) = (p.0 - q.0, p.1 - q.1);
        let d2 = dx * dx + dy * dy;
        ensure!(close(LEN2(dx, dy), d2) && close(LEN(dx, dy), d2.sqrt()), "LEN2 {:?} LEN {:?}", LEN2(dx, dy), LEN(dx, dy));
        ensure!(close(DIST2(v(p), v(q)), d2) && close(DIST(v(p), v(q)), d2.sqrt()), "DIST2 {:?} DIST {:?}", DIST2(v(p), v(q)), DIST(v(p), v(q)));
        ensure!(DIST(v(p), v(q)) == DIST(v(q), v(p)), "DIST is not symmetric");
        if !close(dx.abs(), tol) || dx.abs() == tol {
            ensure!(APPROXEQ(p.0, q.0, tol) == (dx.abs() < tol), "APPROXEQ is {}", APPROXEQ(p.0, q.0, tol));
        }
        if !close(d2, tol * tol) || d2 == tol * tol {
            ensure!(APPROXEQPT(v(p), v(q), tol) == (d2 < tol * tol), "APPROXEQPT is {}", APPROXEQPT(v(p), v(q), tol));
        }
        let (a, b) = (v(p), v(q));
        let s = a + b;
        let m = a - b;
        let k = a * tol;
        let k2 = tol * a;
        ensure!(close(s.x, p.0 + q.0) && close(s.y, p.1 + q.1), "sum ({:?}, {:?})", s.x, s.y);
        ensure!(close(m.x, dx) && close(m.y, dy), "difference ({:?}, {:?})", m.x, m.y);
        ensure!(close(k.x, p.0 * tol) && close(k.y, p.1 * tol) && close(k2.x, k.x) && close(k2.y, k.y), "product ({:?}, {:?})", k.x, k.y);
        if tol != 0.0 {
            let d = a / tol;
            ensure!(close(d.x, p.0 / tol) && close(d.y, p.1 / tol), "quotient ({:?}, {:?})", d.x, d.y);
        }
        Ok(())
    });
}

pub fn c35(c: &mut Ctx) {
    c.rule("coordinates on a half-integer grid, special and random values, exact round trips of integers; non-trivial: a fraction to round, distinct points");
    c.case("constants".into(), true, || {
        ensure!(POINTS_PER_INCH == 72.0 && POINTS_PER_PC == 12.0, "points per inch {:?}, per pica {:?}", POINTS_PER_INCH, POINTS_PER_PC);
        ensure!((POINTS_PER_CM * 2.54 - 72.0).abs() < 1e-5 && (POINTS_PER_MM * 25.4 - 72.0).abs() < 1e-5, "points per cm {:?}, per mm {:?}", POINTS_PER_CM, POINTS_PER_MM);
        Ok(())
    });
    for i in -24..=24 {
        for j in -24..=24 {
            round_case(c, i as f64 / 4.0, j as f64 / 8.0);
            length_case(c, (i as f64, 1.0), (0.0, j as f64), (i + j) as f64 / 2.0);
        }
    }
    let w = [0, 1, -1, 2, 7, -7, i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 1 << 24, (1 << 24) + 1, -(1 << 24) - 1];
    for a in w {
        for b in w {
            whole_case(c, [a, b, b.wrapping_add(1), a.wrapping_sub(3)]);
        }
    }
    c.exhaustive_note.push("all coordinates that are multiples of 1/4 and 1/8 up to 6".into());
    let special = [0.0, -0.0, 0.5, -0.5, 1.5, -1.5, 2.5, 1e9 + 0.5, -1e9 - 0.5, 2147483646.5, 2147483647.0, 2147483647.5, 2147483648.0, -2147483648.0, -2147483648.5, -2147483647.5, 4e9, -4e9, 1e300, -1e300, 0.49, -0.49, 0.51, 0.49999999999999994, -0.49999999999999994, 1e9 + 0.4999999, 4503599627370497.5];
    for a in special {
        for b in special {
            round_case(c, a, b);
        }
    }
    let mut r = Rng::new(c.seed);
    while c.more() {
        let mode = r.below(4);
        let num = |r: &mut Rng| match mode {
            0 => r.below(41) as f64 / 2.0 - 10.0,
            1 => (r.below(2_000_001) as f64 - 1e6) / 1000.0,
            2 => r.next() as i32 as f64 + [0.0, 0.5, -0.5, 0.25][r.below(4)],
            _ => (r.below(1_000_001) as f64 / 1e6 - 0.5) * 10f64.powi(r.below(14) as i32 - 3),
        };
        let (x, y) = (num(&mut r), num(&mut r));
        round_case(c, x, y);
        let q = (num(&mut r), num(&mut r));
        let tol = if r.chance(1, 2) { num(&mut r).abs() } else { ((x - q.0).abs()) * [0.5, 1.0, 1.5, 2.0][r.below(4)] };
        length_case(c, (x, y), q, tol);
        whole_case(c, [r.next() as i32, r.next() as i32, r.next() as i32, r.below(100) as i32 - 50]);
    }
}
