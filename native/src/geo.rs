//! C23, C24, C29: boxes, orientation predicates, polynomial roots.
use crate::core::*;
use trellis::common::geom::*;
use trellis::pathplan::in_poly::in_poly;
use trellis::pathplan::solvers::solve3;
use trellis::pathplan::visibility::{area2, inBetween, wind};
use trellis::vec2::Vec2;

type P = Vec2<f64>;
fn p(x: f64, y: f64) -> P {
    Vec2 { x, y }
}
type B = [f64; 4]; // LL.x LL.y UR.x UR.y
fn mk(b: B) -> boxf {
    boxf { LL: p(b[0], b[1]), UR: p(b[2], b[3]) }
}
fn un(b: &boxf) -> B {
    [b.LL.x, b.LL.y, b.UR.x, b.UR.y]
}
fn has(b: B, x: f64, y: f64) -> bool {
    b[0] <= x && x <= b[2] && b[1] <= y && y <= b[3]
}
fn proper(b: B) -> bool {
    b[0] <= b[2] && b[1] <= b[3]
}

/// two boxes and a point; every law is decided over the grid of all coordinates that occur
fn box_case(c: &mut Ctx, a: B, b: B, q: (f64, f64)) {
    let desc = format!("box {:?} box {:?} point {:?}", a, b, q);
    c.case(desc, proper(a) && proper(b), || {
        let mut xs = vec![a[0], a[2], b[0], b[2], q.0];
        let mut ys = vec![a[1], a[3], b[1], b[3], q.1];
        for v in [&mut xs, &mut ys] {
            v.sort_by(|m, n| m.partial_cmp(n).unwrap());
            let mids: Vec<f64> = v.windows(2).map(|w| w[0] / 2.0 + w[1] / 2.0).filter(|m| !m.is_nan()).collect();
            v.extend(mids);
            v.push(f64::INFINITY);
            v.push(f64::NEG_INFINITY);
        }
        let (fa, fb) = (mk(a), mk(b));
        ensure!(INSIDE(p(q.0, q.1), &fa) == has(a, q.0, q.1), "INSIDE gives {}", INSIDE(p(q.0, q.1), &fa));
        let pts: Vec<(f64, f64)> = xs.iter().flat_map(|x| ys.iter().map(move |y| (*x, *y))).collect();
        if proper(a) && proper(b) {
            let share = pts.iter().any(|t| has(a, t.0, t.1) && has(b, t.0, t.1));
            ensure!(OVERLAP(&fa, &fb) == share, "OVERLAP is {}, sharing a point is {}", OVERLAP(&fa, &fb), share);
        }
        ensure!(OVERLAP(&fa, &fb) == OVERLAP(&fb, &fa), "OVERLAP is not symmetric");
        if proper(b) {
            let incl = pts.iter().all(|t| !has(b, t.0, t.1) || has(a, t.0, t.1));
            ensure!(CONTAINS(&fa, &fb) == incl, "CONTAINS is {}, inclusion is {}", CONTAINS(&fa, &fb), incl);
        }
        let encl = a[0] <= b[0] && a[1] <= b[1] && a[2] >= b[2] && a[3] >= b[3];
        ensure!(CONTAINS(&fa, &fb) == encl, "CONTAINS is {}, the bounds enclose: {}", CONTAINS(&fa, &fb), encl);
        let mut r = mk(a);
        CLIPBB(&mut r, &fb);
        for t in &pts {
            let (got, want) = (has(un(&r), t.0, t.1), has(a, t.0, t.1) && has(b, t.0, t.1));
            ensure!(got == want, "CLIPBB gives {:?}: point {:?} in it {}, in both {}", un(&r), t, got, want);
        }
        let min = |x: f64, y: f64| if y < x { y } else { x };
        let max = |x: f64, y: f64| if y > x { y } else { x };
        let mut r = mk(a);
        EXPANDBB(&mut r, &fb);
        let want = [min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3])];
        ensure!(un(&r) == want, "EXPANDBB gives {:?}, the smallest enclosing box is {:?}", un(&r), want);
        let mut r = mk(a);
        EXPANDBP(&mut r, p(q.0, q.1));
        let want = [min(a[0], q.0), min(a[1], q.1), max(a[2], q.0), max(a[3], q.1)];
        ensure!(un(&r) == want, "EXPANDBP gives {:?}, the smallest enclosing box is {:?}", un(&r), want);
        ensure!(un(&fb) == b, "the other box changed to {:?}", un(&fb));
        Ok(())
    });
}

pub fn c23(c: &mut Ctx) {
    c.rule("pairs of boxes and a point over a grid of coordinates with infinities and signed zeros; set laws decided on the grid of all occurring coordinates and their midpoints; non-trivial: both boxes proper");
    let v = [0.0f64, 1.0, 2.0];
    let mut boxes: Vec<B> = vec![];
    for a in v {
        for b in v {
            for d in v {
                for e in v {
                    boxes.push([a, b, d, e]);
                }
            }
        }
    }
    let mut n = 0usize;
    for a in &boxes {
        for b in &boxes {
            n += 1;
            box_case(c, *a, *b, (v[n % 3], v[(n / 3) % 3]));
        }
    }
    c.exhaustive_note.push("all pairs of boxes (also inverted) with coordinates 0, 1, 2".into());
    let mut r = Rng::new(c.seed);
    let special = [0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 3.5, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e300];
    while c.more() {
        let mode = r.below(3);
        let mut g = |r: &mut Rng| match mode {
            0 => special[r.below(special.len())],
            1 => r.below(7) as f64 - 3.0,
            _ => f64::from_bits(r.next()),
        };
        let mut num = |r: &mut Rng| loop {
            let x = g(r);
            if !x.is_nan() {
                break x;
            }
        };
        let mut bx = |r: &mut Rng| {
            let mut b = [num(r), num(r), num(r), num(r)];
            if r.chance(4, 5) {
                if b[0] > b[2] {
                    b.swap(0, 2);
                }
                if b[1] > b[3] {
                    b.swap(1, 3);
                }
            }
            b
        };
        let (a, b) = (bx(&mut r), bx(&mut r));
        let q = (num(&mut r), num(&mut r));
        box_case(c, a, b, q);
    }
}

/// points in units of 2^-k
type Q = (i64, i64);
fn fl(q: Q, k: u32) -> P {
    let s = (1u64 << k) as f64;
    p(q.0 as f64 / s, q.1 as f64 / s)
}
fn cross(a: Q, b: Q, c: Q) -> i128 {
    let d = |x: i64, y: i64| x as i128 - y as i128;
    d(b.0, a.0) * d(c.1, a.1) - d(b.1, a.1) * d(c.0, a.0)
}
fn orient(a: Q, b: Q, c: Q, k: u32) -> i32 {
    // |cross| * 2^-2k > 1/10000
    let w = cross(a, b, c);
    if w.abs() * 10000 > 1i128 << (2 * k) {
        w.signum() as i32
    } else {
        0
    }
}
fn between(a: Q, b: Q, c: Q) -> bool {
    let s = |u: i64, v: i64, w: i64| (u < w && w < v) || (v < w && w < u);
    if a.0 != b.0 {
        s(a.0, b.0, c.0)
    } else {
        s(a.1, b.1, c.1)
    }
}

fn orient_case(c: &mut Ctx, a: Q, b: Q, d: Q, k: u32) {
    let desc = format!("orientation of {:?} {:?} {:?} in units of 2^-{}", a, b, d, k);
    c.case(desc, a != b && b != d && a != d, || {
        let (fa, fb, fd) = (fl(a, k), fl(b, k), fl(d, k));
        let s = (1u64 << k) as f64;
        let want = cross(a, b, d) as f64 / s / s;
        ensure!(area2(fa, fb, fd) == want, "area2 is {}, expected {}", area2(fa, fb, fd), want);
        let w = wind(fa, fb, fd);
        ensure!(w == orient(a, b, d, k), "wind is {}, expected {}", w, orient(a, b, d, k));
        ensure!(wind(fd, fb, fa) == -w, "wind of the exchanged ends is {}, not {}", wind(fd, fb, fa), -w);
        let i = inBetween(fa, fb, fd);
        ensure!(i == inBetween(fb, fa, fd), "inBetween depends on the order of the ends");
        ensure!(!(i && (a == d || b == d)), "inBetween accepts an end point");
        if cross(a, b, d) == 0 {
            ensure!(i == between(a, b, d), "inBetween is {} for collinear points, expected {}", i, between(a, b, d));
        }
        Ok(())
    });
}

fn poly_case(c: &mut Ctx, ps: &[Q], q: Q, k: u32) {
    let desc = format!("in_poly {:?} {:?} in units of 2^-{}", ps, q, k);
    c.case(desc, ps.len() >= 3, || {
        let n = ps.len();
        let want = (0..n).all(|i| orient(ps[if i == 0 { n - 1 } else { i - 1 }], ps[i], q, k) != 1);
        let f: Vec<P> = ps.iter().map(|t| fl(*t, k)).collect();
        let got = in_poly(&f, fl(q, k));
        ensure!(got == want, "in_poly is {}, expected {}", got, want);
        Ok(())
    });
}

pub fn c24(c: &mut Ctx) {
    c.rule("dyadic coordinates, so that f64 computes exactly; areas below, near and above the tolerance 0.0001; polygons of 0..8 vertices; non-trivial: distinct points, at least three vertices");
    let mut g: Vec<Q> = vec![];
    for x in -1..=2i64 {
        for y in -1..=1i64 {
            g.push((x, y));
        }
    }
    for k in [0u32, 6, 7] {
        for a in &g {
            for b in &g {
                for d in &g {
                    orient_case(c, *a, *b, *d, k);
                }
            }
        }
    }
    for q in &g {
        poly_case(c, &[], *q, 0);
        for a in &g {
            poly_case(c, &[*a], *q, 0);
            for b in &g {
                poly_case(c, &[*a, *b], *q, 0);
            }
        }
    }
    let sq = [(0, 0), (0, 2), (2, 2), (2, 0)];
    for x in -1..=3 {
        for y in -1..=3 {
            for rot in 0..4 {
                let mut s = sq.to_vec();
                s.rotate_left(rot);
                poly_case(c, &s, (x, y), 0);
                s.reverse();
                poly_case(c, &s, (x, y), 0);
            }
        }
    }
    c.exhaustive_note.push("all triples of a 4 x 3 grid at three scales; all polygons of up to two vertices on it".into());
    let mut r = Rng::new(c.seed);
    while c.more() {
        let k = r.below(11) as u32;
        let big = [3usize, 20, 200, 1 << 20][r.below(4)];
        let pt = |r: &mut Rng| (r.below(2 * big + 1) as i64 - big as i64, r.below(2 * big + 1) as i64 - big as i64);
        let (a, b, mut d) = (pt(&mut r), pt(&mut r), pt(&mut r));
        if r.chance(1, 3) {
            // collinear: d = a + m * (b - a)
            let m = r.below(5) as i64 - 2;
            d = (a.0 + m * (b.0 - a.0), a.1 + m * (b.1 - a.1));
            if r.chance(1, 2) {
                orient_case(c, a, d, b, k);
                continue;
            }
        }
        orient_case(c, a, b, d, k);
        if r.chance(1, 3) {
            let n = r.below(9);
            let mut ps: Vec<Q> = (0..n).map(|_| pt(&mut r)).collect();
            if n >= 3 && r.chance(2, 3) {
                // convex, clockwise: sort by angle around the centre
                let m = (ps.iter().map(|t| t.0).sum::<i64>() / n as i64, ps.iter().map(|t| t.1).sum::<i64>() / n as i64);
                ps.sort_by(|s, t| {
                    let f = |u: &Q| ((u.1 - m.1) as f64).atan2((u.0 - m.0) as f64);
                    f(t).partial_cmp(&f(s)).unwrap()
                });
            }
            let q = if n > 0 && r.chance(1, 2) { (ps.iter().map(|t| t.0).sum::<i64>() / n as i64, ps.iter().map(|t| t.1).sum::<i64>() / n as i64) } else { pt(&mut r) };
            poly_case(c, &ps, q, k);
        }
    }
}

/// coefficients in units of 2^-k, lowest degree first, cubic coefficient within the tolerance
fn root_case(c: &mut Ctx, co: [f64; 4]) {
    let desc = format!("solve3 {:?}", co);
    let eps = 1.0e-7;
    let zero = |x: f64| x < eps && x > -eps;
    let deg = if !zero(co[2]) { 2 } else if !zero(co[1]) { 1 } else { 0 };
    c.case(desc, deg > 0, || {
        let (n, roots) = solve3(&co);
        match deg {
            0 => {
                let want = if zero(co[0]) { 4 } else { 0 };
                ensure!(n == want, "constant: reports {}, expected {}", n, want);
            }
            1 => {
                ensure!(n == 1, "linear: reports {} roots", n);
                let want = -co[0] / co[1];
                ensure!(close(roots[0], want, want.abs()), "linear: root {}, expected {}", roots[0], want);
            }
            _ => {
                // dyadic coefficients: the discriminant is exact
                let (a, b, d) = (co[2], co[1], co[0]);
                let disc = b * b - 4.0 * a * d;
                let h = -b / (2.0 * a);
                if disc < 0.0 {
                    ensure!(n == 0, "no real root, reports {}", n);
                } else if disc == 0.0 {
                    ensure!(n == 1, "one real root, reports {}", n);
                    ensure!(close(roots[0], h, h.abs()), "double root {}, expected {}", roots[0], h);
                } else {
                    ensure!(n == 2, "two real roots, reports {}", n);
                    let s = (disc.sqrt() / (2.0 * a)).abs();
                    let (mut lo, mut hi) = (roots[0], roots[1]);
                    if lo > hi {
                        std::mem::swap(&mut lo, &mut hi);
                    }
                    let m = h.abs() + s;
                    ensure!(close(lo, h - s, m) && close(hi, h + s, m), "roots {} {}, expected {} {}", lo, hi, h - s, h + s);
                }
            }
        }
        Ok(())
    });
}
fn close(x: f64, y: f64, scale: f64) -> bool {
    (x - y).abs() <= 1e-9 * (1e-300 + scale)
}

/// a (x - s)^3 + 3 p a (x - s) + a q, with `want` its real roots; exact in f64 for small integers
fn cubic_case(c: &mut Ctx, a: f64, s: i64, p: i64, q: i64, want: &[i64]) {
    let (b, d1, d0) = (-3 * s, 3 * s * s + 3 * p, -s * s * s - 3 * p * s + q);
    let co = [a * d0 as f64, a * d1 as f64, a * b as f64, a];
    let want: Vec<f64> = want.iter().map(|w| (w + s) as f64).collect();
    c.case(format!("solve3 {:?}", co), true, || {
        let (n, roots) = solve3(&co);
        ensure!(n == want.len(), "cubic: reports {} roots, expected {:?}", n, want);
        let mut got: Vec<f64> = roots[..n].to_vec();
        got.sort_by(|x, y| x.partial_cmp(y).unwrap());
        for (g, w) in got.iter().zip(&want) {
            ensure!((g - w).abs() <= 1e-5 * (1.0 + s.abs() as f64 + w.abs()), "cubic: roots {:?}, expected {:?}", got, want);
        }
        Ok(())
    });
}
fn cubics(c: &mut Ctx, m: i64, scales: &[f64], shifts: &[i64]) {
    for &a in scales {
        for &s in shifts {
            for x in -m..=m {
                for y in x..=m {
                    let z = -(x + y);
                    // x <= y <= z, and the coefficients are integers
                    if y <= z && (x - y) % 3 == 0 {
                        cubic_case(c, a, s, (x * y + x * z + y * z) / 3, -x * y * z, &[x, y, z]);
                    }
                }
                // the only root x: (y - x)(y^2 + x y + k), x^2 < 4 k
                for k in 0..=m * m {
                    if x * x < 4 * k && (k - x * x) % 3 == 0 {
                        cubic_case(c, a, s, (k - x * x) / 3, -x * k, &[x]);
                    }
                }
            }
        }
    }
}
pub fn c29(c: &mut Ctx) {
    c.rule("cubics with integer roots; coefficients chosen so that the discriminant is computed exactly (leading coefficient a power of two, small integers); tolerance boundaries on every leading coefficient; non-trivial: degree at least one");
    cubics(c, 6, &[1.0, -1.0, 4.0, 3.0, 1.0 / 4194304.0, -0.5], &[0, 1, -2, 5]);
    let eps = 1.0e-7;
    let small = [0.0, -0.0, eps / 2.0, -eps / 2.0, 1e-300];
    for a3 in small {
        for a2 in [0.0, eps / 4.0, -eps / 2.0, 1.0, -1.0, 2.0, -4.0, 0.5] {
            for a1 in -6..=6 {
                for a0 in -6..=9 {
                    root_case(c, [a0 as f64, a1 as f64, a2, a3]);
                }
            }
            for a0 in [0.0, eps / 2.0, -eps / 2.0, 2.0 * eps, -2.0 * eps, 1.0] {
                for a1 in small.iter().chain([2.0 * eps, -2.0 * eps].iter()) {
                    if a2.abs() < eps {
                        root_case(c, [a0, *a1, a2, a3]);
                    }
                }
            }
        }
    }
    // symmetric roots and roots next to each other, down to a distance of 2^-26
    for k in 0..=26 {
        let u = 0.5f64.powi(k);
        for a2 in [1.0, -1.0, 4.0, -0.5] {
            for (a1, a0) in [(0.0, -u * u), (0.0, u * u), (-2.0, 1.0 - u * u), (2.0, 1.0 + u * u), (-2.0 * u, u * u)] {
                root_case(c, [a0 * a2, a1 * a2, a2, 0.0]);
            }
        }
    }
    c.exhaustive_note.push("cubics with roots in -12..12 (three, counted with multiplicity) or one root in -6..6, shifted and scaled".into());
    c.exhaustive_note.push("all integer coefficients -6..6, -6..9 with leading coefficient 0, within tolerance, or a signed power of two".into());
    let mut r = Rng::new(c.seed);
    let t = std::time::Instant::now();
    while c.more() && t.elapsed().as_secs() < 60 {
        if r.chance(1, 4) {
            let m = 20;
            let int = |r: &mut Rng| r.below(2 * m + 1) as i64 - m as i64;
            let a = [1.0, -1.0, 2.0, -3.0, 0.125, 7.0][r.below(6)];
            let (s, x) = (int(&mut r), int(&mut r));
            let y = x + 3 * (int(&mut r) / 3);
            let mut v = [x, y, -(x + y)];
            v.sort();
            cubic_case(c, a, s, (x * y - (x + y) * (x + y)) / 3, x * y * (x + y), &v);
            let k = r.below(m * m) as i64;
            if x * x < 4 * k && (k - x * x) % 3 == 0 {
                cubic_case(c, a, s, (k - x * x) / 3, -x * k, &[x]);
            }
            continue;
        }
        let a2 = [0.0, 1.0, -1.0, 2.0, -2.0, 4.0, 0.25, -0.5, 8.0, eps / 3.0][r.below(10)];
        let m = [10i64, 1000, 100000][r.below(3)];
        let int = |r: &mut Rng| (r.below((2 * m + 1) as usize) as i64 - m) as f64;
        let (mut a0, mut a1) = (int(&mut r), int(&mut r));
        if r.chance(1, 4) {
            // a double root at s: a2 (x - s)^2
            let s = int(&mut r);
            a1 = -2.0 * a2 * s;
            a0 = a2 * s * s;
            if a2.abs() < eps {
                continue;
            }
        }
        let a3 = small[r.below(5)];
        if m <= 1000 && r.chance(1, 2) {
            // close to zero, and roots close to each other
            let u = 0.5f64.powi(r.below(15) as i32);
            a0 *= u * u;
            a1 *= u;
        }
        root_case(c, [a0, a1, a2, a3]);
    }
}
