//! C25 and C26: obstacle sets, the visibility graph and the visibility queries.
use crate::core::*;
use trellis::pathplan::cvt::Pobsopen;
use trellis::pathplan::vis::vconfig_t;
use trellis::pathplan::visibility::{directVis, polyhit, ptVis};
use trellis::pathplan::{POLYID_NONE, POLYID_UNKNOWN};
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;

pub type P = (i64, i64);
type Poly = Vec<P>;

thread_local!(static UNIT: std::cell::Cell<f64> = std::cell::Cell::new(1.0));
/// the length of a grid step: a power of two, so that everything stays exact; 1/64 keeps every
/// area that is not zero above the tolerance of the orientation test
fn unit(r: &mut Rng) {
    UNIT.with(|u| u.set([1.0, 1.0, 1.0 / 64.0, 1024.0, 1048576.0][r.below(5)]))
}
fn step() -> f64 {
    UNIT.with(|u| u.get())
}
/// moves everything away from the origin, in any direction
fn shift(r: &mut Rng) -> P {
    let far = [0usize, 0, 20, 1 << 20][r.below(4)];
    (r.below(2 * far + 1) as i64 - far as i64, r.below(2 * far + 1) as i64 - far as i64)
}
fn plus(a: P, b: P) -> P {
    (a.0 + b.0, a.1 + b.1)
}

pub fn pt(p: P) -> Vec2<f64> {
    Vec2 { x: p.0 as f64 * step(), y: p.1 as f64 * step() }
}
pub fn poly(p: &Poly) -> Ppoly_t {
    Ppoly_t { ps: p.iter().map(|x| pt(*x)).collect() }
}
fn turn(a: P, b: P, c: P) -> i64 {
    ((b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)).signum()
}
fn inside(a: i64, b: i64, c: i64) -> bool {
    (a < c && c < b) || (b < c && c < a)
}
/// c strictly between a and b, the three being collinear
fn within(a: P, b: P, c: P) -> bool {
    turn(a, b, c) == 0 && if a.0 != b.0 { inside(a.0, b.0, c.0) } else { inside(a.1, b.1, c.1) }
}
fn blocks(a: P, b: P, c: P, d: P) -> bool {
    within(a, b, c) || within(a, b, d) || (turn(a, b, c) * turn(a, b, d) < 0 && turn(c, d, a) * turn(c, d, b) < 0)
}
fn cone(a0: P, a1: P, a2: P, b: P) -> bool {
    let (m, p) = (turn(b, a0, a1) >= 0, turn(b, a1, a2) >= 0);
    if turn(a0, a1, a2) > 0 {
        m && p
    } else {
        m || p
    }
}
fn dist(a: P, b: P) -> f64 {
    (((a.0 - b.0) * (a.0 - b.0) + (a.1 - b.1) * (a.1 - b.1)) as f64).sqrt() * step()
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * b.abs() && (b != 0.0 || a == 0.0)
}
/// the same obstacles, flat: vertices with the polygon, predecessor and successor of each
pub struct World {
    v: Vec<P>,
    of: Vec<usize>,
    next: Vec<usize>,
    prev: Vec<usize>,
    start: Vec<usize>,
}
pub fn world(ps: &[Poly]) -> World {
    let mut w = World { v: vec![], of: vec![], next: vec![], prev: vec![], start: vec![0] };
    for (i, p) in ps.iter().enumerate() {
        let s = w.v.len();
        let n = p.len();
        for k in 0..n {
            w.v.push(p[k]);
            w.of.push(i);
            w.next.push(s + (k + 1) % n);
            w.prev.push(s + (k + n - 1) % n);
        }
        w.start.push(s + n);
    }
    w
}
impl World {
    fn sees(&self, k: usize, q: P) -> bool {
        cone(self.v[self.prev[k]], self.v[k], self.v[self.next[k]], q)
    }
    pub fn free(&self, a: P, b: P, skip: &[i32]) -> bool {
        (0..self.v.len()).all(|k| skip.contains(&(self.of[k] as i32)) || !blocks(a, b, self.v[k], self.v[self.next[k]]))
    }
    fn entry(&self, i: usize, j: usize) -> f64 {
        let d = dist(self.v[i], self.v[j]);
        if i == j {
            0.0
        } else if self.prev[i] == j || self.next[i] == j {
            d
        } else if self.sees(i, self.v[j]) && self.sees(j, self.v[i]) && self.free(self.v[i], self.v[j], &[]) {
            d
        } else {
            0.0
        }
    }
    fn contains(&self, ps: &[Poly], i: usize, q: P) -> bool {
        let p = &ps[i];
        (0..p.len()).all(|k| turn(p[(k + p.len() - 1) % p.len()], p[k], q) != 1)
    }
}

pub fn open(ps: &[Poly]) -> vconfig_t {
    let own: Vec<Ppoly_t> = ps.iter().map(poly).collect();
    let refs: Vec<&Ppoly_t> = own.iter().collect();
    Pobsopen(&refs)
}

fn open_case(c: &mut Ctx, ps: &[Poly]) {
    c.case(format!("Pobsopen {:?} (coordinates times {})", ps, step()), ps.len() >= 2, || {
        let w = world(ps);
        let g = open(ps);
        let n = w.v.len();
        ensure!(g.N == n && g.Npoly == ps.len(), "{} vertices, {} polygons; {} and {} expected", g.N, g.Npoly, n, ps.len());
        ensure!(g.P.len() == n, "{} vertices kept", g.P.len());
        for k in 0..n {
            let p = pt(w.v[k]);
            ensure!(g.P[k].x == p.x && g.P[k].y == p.y, "vertex {} is ({}, {}), {:?} expected", k, g.P[k].x, g.P[k].y, w.v[k]);
        }
        let st: Vec<i32> = w.start.iter().map(|x| *x as i32).collect();
        let nx: Vec<i32> = w.next.iter().map(|x| *x as i32).collect();
        let pv: Vec<i32> = w.prev.iter().map(|x| *x as i32).collect();
        ensure!(g.start == st, "start {:?}, {:?} expected", g.start, st);
        ensure!(g.next == nx, "next {:?}, {:?} expected", g.next, nx);
        ensure!(g.prev == pv, "prev {:?}, {:?} expected", g.prev, pv);
        ensure!(g.vis.rows == n && g.vis.cols == n, "visibility matrix of {} x {}, {} expected", g.vis.rows, g.vis.cols, n);
        for i in 0..n {
            for j in 0..n {
                let (x, y) = (g.vis[(i, j)], w.entry(i, j));
                ensure!(close(x, y), "visibility of {} and {} is {}, {} expected", i, j, x, y);
                ensure!(x == g.vis[(j, i)], "visibility of {} and {} is {} one way and {} the other", i, j, x, g.vis[(j, i)]);
            }
        }
        Ok(())
    });
}

/// a set of polygons on a small grid: points, segments, triangles and larger rings, boxes among them
pub fn polys(r: &mut Rng, most: usize, grid: usize) -> Vec<Poly> {
    let m = r.below(most + 1);
    (0..m)
        .map(|_| {
            let kind = r.below(5);
            let (x, y) = (r.below(grid) as i64, r.below(grid) as i64);
            match kind {
                0 => vec![(x, y)],
                1 => vec![(x, y), (r.below(grid) as i64, r.below(grid) as i64)],
                2 => {
                    let (w, h) = (1 + r.below(4) as i64, 1 + r.below(4) as i64);
                    let mut b = vec![(x, y), (x, y + h), (x + w, y + h), (x + w, y)];
                    if r.chance(1, 4) {
                        b.reverse();
                    }
                    b
                }
                _ => (0..3 + r.below(4)).map(|_| (r.below(grid) as i64, r.below(grid) as i64)).collect(),
            }
        })
        .collect()
}

pub fn c25(c: &mut Ctx) {
    c.rule("polygon lists on an integer grid of five spacings, shifted about (points, segments, boxes, arbitrary rings, overlapping and touching ones) against the visibility rule in exact integer arithmetic; non-trivial: two or more polygons");
    open_case(c, &[]);
    // every pair of a point or segment with a segment on a 3 x 3 grid
    let g: Vec<P> = (0..9).map(|k| (k % 3, k / 3)).collect();
    for a in &g {
        open_case(c, &[vec![*a]]);
        for b in &g {
            for d in &g {
                open_case(c, &[vec![*a], vec![*b, *d]]);
                open_case(c, &[vec![*a, *b, *d]]);
                for e in &g {
                    open_case(c, &[vec![*a, *b], vec![*d, *e]]);
                    open_case(c, &[vec![*a, *b, *d, *e]]);
                }
            }
        }
    }
    c.exhaustive_note.push("on the 3 x 3 grid: every point, point with segment, triangle, pair of segments and quadrangle".into());
    let mut r = Rng::new(c.seed);
    let mut first = true;
    while c.more() || first {
        first = false;
        for _ in 0..50 {
            let grid = 3 + r.below(12);
            let most = if r.chance(1, 100) { 40 } else { 6 };
            let o = shift(&mut r);
            let ps: Vec<Poly> = polys(&mut r, most, grid).iter().map(|p| p.iter().map(|x| plus(*x, o)).collect()).collect();
            unit(&mut r);
            open_case(c, &ps);
        }
    }
}

fn query_case(c: &mut Ctx, ps: &[Poly], p: P, q: P, pp: i32, qp: i32) {
    c.case(format!("queries {:?} p {:?} in {} q {:?} in {} (coordinates times {})", ps, p, pp, q, qp, step()), ps.len() >= 2, || {
        let w = world(ps);
        let g = open(ps);
        let n = w.v.len();
        let first = |x: P| (0..ps.len()).find(|i| w.contains(ps, *i, x)).map(|i| i as i32).unwrap_or(POLYID_NONE);
        let h = polyhit(&g, pt(p));
        ensure!(h == first(p), "polyhit gives {}, {} expected", h, first(p));
        let own = if pp == POLYID_UNKNOWN { first(p) } else { pp };
        let v = ptVis(&g, pp, pt(p));
        ensure!(v.len() == n + 2, "the visibility vector has {} entries for {} vertices", v.len(), n);
        ensure!(v[n] == 0.0 && v[n + 1] == 0.0, "the two extra entries are {} and {}", v[n], v[n + 1]);
        for k in 0..n {
            let mine = own >= 0 && w.of[k] as i32 == own;
            let e = if !mine && w.sees(k, p) && w.free(p, w.v[k], &[own]) { dist(p, w.v[k]) } else { 0.0 };
            ensure!(close(v[k], e), "entry {} of the visibility vector is {}, {} expected", k, v[k], e);
        }
        let d = directVis(pt(p), pp, pt(q), qp, &g);
        let e = w.free(p, q, &[pp, qp]);
        ensure!(d == e, "directVis gives {}, {} expected", d, e);
        Ok(())
    });
}

pub fn c26(c: &mut Ctx) {
    c.rule("point queries on random polygon lists of an integer grid of five spacings, shifted about, against the blocking rule in exact integer arithmetic; non-trivial: two or more polygons");
    let g: Vec<P> = (0..9).map(|k| (k % 3, k / 3)).collect();
    for a in &g {
        for b in &g {
            for p in &g {
                query_case(c, &[vec![*a, *b]], *p, (1, 1), -1, -1);
                for q in &g {
                    query_case(c, &[vec![*a, *b]], *p, *q, POLYID_UNKNOWN, POLYID_NONE);
                }
            }
        }
    }
    c.exhaustive_note.push("on the 3 x 3 grid: every segment as the only obstacle with every pair of points".into());
    let mut r = Rng::new(c.seed);
    let mut first = true;
    while c.more() || first {
        first = false;
        for _ in 0..50 {
            let grid = 3 + r.below(12);
            let most = if r.chance(1, 100) { 40 } else { 6 };
            let o = shift(&mut r);
            let ps: Vec<Poly> = polys(&mut r, most, grid).iter().map(|p| p.iter().map(|x| plus(*x, o)).collect()).collect();
            let all: Vec<P> = ps.iter().flatten().copied().collect();
            let mut point = |r: &mut Rng| {
                if !all.is_empty() && r.chance(1, 4) {
                    all[r.below(all.len())]
                } else {
                    plus((r.below(grid + 2) as i64 - 1, r.below(grid + 2) as i64 - 1), o)
                }
            };
            let (p, q) = (point(&mut r), point(&mut r));
            let mut id = |r: &mut Rng| match r.below(4) {
                0 => POLYID_NONE,
                1 => POLYID_UNKNOWN,
                _ if ps.is_empty() => -1,
                _ => r.below(ps.len()) as i32,
            };
            let (pp, qp) = (id(&mut r), id(&mut r));
            unit(&mut r);
            query_case(c, &ps, p, q, pp, qp);
        }
    }
}
