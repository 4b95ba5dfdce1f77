//! C31: fitted splines.
use crate::core::*;
use trellis::pathplan::route::Proutespline;
use trellis::pathplan::Pedge_t;
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;

type V = Vec2<f64>;
fn v(x: f64, y: f64) -> V {
    Vec2 { x, y }
}
fn minus(a: V, b: V) -> V {
    v(a.x - b.x, a.y - b.y)
}
fn len(a: V) -> f64 {
    (a.x * a.x + a.y * a.y).sqrt()
}
fn eq(a: V, b: V) -> bool {
    a.x == b.x && a.y == b.y
}
fn show(a: V) -> String {
    format!("({}, {})", a.x, a.y)
}
/// the same direction, up to rounding, if neither is next to zero
fn same_way(a: V, b: V) -> bool {
    let (l, m) = (len(a), len(b));
    l < 1e-9 || m < 1e-9 || ((a.x * b.y - a.y * b.x).abs() <= 1e-6 * l * m && a.x * b.x + a.y * b.y > 0.0)
}
fn coef(p: [f64; 4]) -> [f64; 4] {
    [p[0], 3.0 * (p[1] - p[0]), 3.0 * (p[0] - 2.0 * p[1] + p[2]), p[3] - p[0] + 3.0 * (p[1] - p[2])]
}
fn at(c: &[f64; 4], t: f64) -> f64 {
    c[0] + t * (c[1] + t * (c[2] + t * c[3]))
}
fn slope(c: &[f64; 4], t: f64) -> f64 {
    c[1] + t * (2.0 * c[2] + t * 3.0 * c[3])
}
/// a crossing of the barrier that no tolerance of the fit explains
fn crossing(s: &[V], a: V, b: V) -> Option<f64> {
    let d = minus(b, a);
    let l = len(d);
    let cx = coef([s[0].x, s[1].x, s[2].x, s[3].x]);
    let cy = coef([s[0].y, s[1].y, s[2].y, s[3].y]);
    // signed distance from the line of the barrier
    let dist = |p: V| (d.x * (p.y - a.y) - d.y * (p.x - a.x)) / l;
    let f = coef([dist(s[0]), dist(s[1]), dist(s[2]), dist(s[3])]);
    // the solver leaves out leading coefficients next to zero: stay away from its threshold,
    // and from cubics so flat that their roots are not computed accurately
    for k in (1..4).rev() {
        if f[k].abs() > 1e-2 {
            break;
        }
        if f[k].abs() > 1e-10 {
            return None;
        }
    }
    let n = 256;
    let mut prev = at(&f, 0.0);
    for i in 1..=n {
        let (mut lo, mut hi) = ((i - 1) as f64 / n as f64, i as f64 / n as f64);
        let cur = at(&f, hi);
        if (prev < 0.0) != (cur < 0.0) {
            for _ in 0..50 {
                let m = (lo + hi) / 2.0;
                if (at(&f, m) < 0.0) == (prev < 0.0) {
                    lo = m;
                } else {
                    hi = m;
                }
            }
            let p = v(at(&cx, lo), at(&cy, lo));
            let u = ((p.x - a.x) * d.x + (p.y - a.y) * d.y) / (l * l);
            if lo > 1e-3 && lo < 1.0 - 1e-3 && u > 1e-4 && u < 1.0 - 1e-4 && slope(&f, lo).abs() > 0.02
                && len(minus(p, a)) > 0.033 && len(minus(p, b)) > 0.033
            {
                return Some(lo);
            }
        }
        prev = cur;
    }
    None
}
fn check(path: &[V], edges: &[(V, V)], ev: [V; 2]) -> Result<(), String> {
    let es: Vec<Pedge_t> = edges.iter().map(|e| Pedge_t { a: e.0, b: e.1 }).collect();
    let input = Ppoly_t { ps: path.to_vec() };
    let mut evs = ev.to_vec();
    let mut out = Ppoly_t::default();
    if Proutespline(&es, &input, &mut evs, &mut out).is_err() {
        return Err("no spline".into());
    }
    let o = &out.ps;
    if evs.len() != 2 {
        return Err("directions lost".into());
    }
    for k in 0..2 {
        let (l, d2) = (len(evs[k]), ev[k].x * ev[k].x + ev[k].y * ev[k].y);
        let ok = if d2 > 1.01e-6 { (l - 1.0).abs() < 1e-9 && same_way(ev[k], evs[k]) } else { eq(ev[k], evs[k]) || d2 > 0.99e-6 };
        if !ok {
            return Err(format!("direction {} became {}", show(ev[k]), show(evs[k])));
        }
    }
    if o.len() < 4 || o.len() % 3 != 1 {
        return Err(format!("{} points are not a sequence of cubic pieces", o.len()));
    }
    let n = (o.len() - 1) / 3;
    if !eq(o[0], path[0]) {
        return Err(format!("starts at {} instead of {}", show(o[0]), show(path[0])));
    }
    if !eq(o[3 * n], path[path.len() - 1]) {
        return Err(format!("ends at {} instead of {}", show(o[3 * n]), show(path[path.len() - 1])));
    }
    // which points of the path the joints can be
    let mut can: Vec<Vec<bool>> = vec![vec![false; path.len()]; n + 1];
    can[0][0] = true;
    for j in 1..=n {
        for i in 1..path.len() {
            can[j][i] = eq(o[3 * j], path[i]) && (0..i).any(|h| can[j - 1][h]);
        }
    }
    if !can[n][path.len() - 1] {
        return Err("the joints are not points of the path in order".into());
    }
    for j in 0..n {
        let s = &o[3 * j..3 * j + 4];
        let straight = eq(s[1], s[0]) && eq(s[2], s[3]) && (1..path.len()).any(|i| eq(path[i - 1], s[0]) && eq(path[i], s[3]));
        if j == 0 && !same_way(minus(s[1], s[0]), evs[0]) {
            return Err(format!("leaves towards {} instead of along {}", show(minus(s[1], s[0])), show(evs[0])));
        }
        if j + 1 == n && !same_way(minus(s[3], s[2]), evs[1]) {
            return Err(format!("arrives along {} instead of {}", show(minus(s[3], s[2])), show(evs[1])));
        }
        if j + 1 < n && !same_way(minus(s[3], s[2]), minus(o[3 * j + 4], s[3])) {
            return Err(format!("corner at joint {}", show(s[3])));
        }
        if straight {
            continue;
        }
        for e in edges {
            if let Some(t) = crossing(s, e.0, e.1) {
                return Err(format!(
                    "piece {} {} {} {} crosses the barrier {} {} at t = {}",
                    show(s[0]), show(s[1]), show(s[2]), show(s[3]), show(e.0), show(e.1), t
                ));
            }
        }
    }
    Ok(())
}
fn case(c: &mut Ctx, path: Vec<V>, edges: Vec<(V, V)>, ev: [V; 2]) {
    let f = |p: &V| show(*p);
    let d = format!(
        "path {}; barriers {}; directions {} {}",
        path.iter().map(f).collect::<Vec<_>>().join(" "),
        edges.iter().map(|e| show(e.0) + "-" + &show(e.1)).collect::<Vec<_>>().join(" "),
        show(ev[0]), show(ev[1])
    );
    let nt = path.len() > 2 || edges.len() > 0;
    c.case(d, nt, move || check(&path, &edges, ev));
}
pub fn c31(c: &mut Ctx) {
    c.rule("paths of up to 8 points on a grid, without immediate repetition; up to 6 barriers with distinct ends; a crossing counts when it is transversal and away from the ends of the piece and of the barrier; non-trivial: more than two points, or a barrier");
    let dirs = [v(0.0, 0.0), v(1.0, 0.0), v(0.0, 1.0), v(-1.0, 0.0), v(0.0, -3.0), v(2.0, 2.0), v(-1.0, 2.0), v(0.0005, 0.0), v(3.0, -1.0)];
    // one barrier across or beside a two point path, every pair of directions
    for p in [v(4.0, 0.0), v(4.0, 4.0), v(0.0, -4.0), v(-4.0, 2.0)] {
        for a in -3..=5 {
            for b in [(1, 3), (3, -2), (0, 4), (4, 0)] {
                let e = (v(a as f64, -1.0), v(a as f64 + b.0 as f64, -1.0 + b.1 as f64));
                for d in dirs {
                    for g in [dirs[0], dirs[1], dirs[2], dirs[8]] {
                        case(c, vec![v(0.0, 0.0), p], vec![e], [d, g]);
                    }
                }
            }
        }
    }
    c.exhaustive_note.push("4 two-point paths, 36 barriers, 9 x 4 end directions".into());
    let mut r = Rng::new(c.seed);
    let t = std::time::Instant::now();
    while c.more() && t.elapsed().as_secs() < 60 {
        let g = [3, 6, 12, 40][r.below(4)];
        let q = [1.0, 0.5, 1.0, 16.0][r.below(4)];
        let point = |r: &mut Rng| v(r.below(g) as f64 * q, r.below(g) as f64 * q);
        let mut path: Vec<V> = vec![point(&mut r)];
        let n = 2 + r.below(7);
        while path.len() < n {
            let p = if r.chance(1, 2) {
                // monotone, so that the fit is smooth
                let l = path[path.len() - 1];
                v(l.x + (1 + r.below(3)) as f64 * q, l.y + (r.below(3) as f64 - 1.0) * q)
            } else {
                point(&mut r)
            };
            if !eq(p, path[path.len() - 1]) {
                path.push(p);
            }
        }
        let mut edges = vec![];
        for _ in 0..r.below(7) {
            let (mut a, mut b) = (point(&mut r), point(&mut r));
            if r.chance(1, 2) {
                // near the path
                let p = path[r.below(path.len())];
                a = v(p.x + (r.below(5) as f64 - 2.0) * q, p.y + (r.below(5) as f64 - 2.0) * q);
                b = v(p.x + (r.below(5) as f64 - 2.0) * q, p.y + (r.below(5) as f64 - 2.0) * q);
            }
            if r.chance(1, 3) {
                a.x += 0.25 * q;
                b.y += 0.125 * q;
            }
            if !eq(a, b) {
                edges.push((a, b));
            }
        }
        let ev = [dirs[r.below(9)], dirs[r.below(9)]];
        case(c, path, edges, ev);
    }
}
