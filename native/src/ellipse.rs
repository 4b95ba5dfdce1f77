//! C32: elliptic wedges.
use crate::core::*;
use std::f64::consts::PI;
use trellis::common::ellipse::{ellipticWedge, PathTarget};
use trellis::polyline::Ppolyline_t;
use trellis::vec2::Vec2;

type V = Vec2<f64>;
fn eq(a: V, b: V) -> bool {
    a.x == b.x && a.y == b.y
}
fn show(a: V) -> String {
    format!("({}, {})", a.x, a.y)
}
/// a target that records what it is told
#[derive(Default)]
struct Rec {
    pts: Vec<V>,
    ended: Vec<bool>,
    bad: Option<String>,
}
impl Rec {
    fn on(&mut self) {
        if !self.ended.is_empty() {
            self.bad = Some("drawing after the end of the path".into());
        }
    }
}
impl PathTarget for Rec {
    fn move_to(&mut self, p: V) {
        if !self.pts.is_empty() {
            self.bad = Some("second move".into());
        }
        self.on();
        self.pts.push(p);
    }
    fn line_to(&mut self, p: V) {
        self.on();
        match self.pts.last().copied() {
            Some(l) => self.pts.extend([l, p, p]),
            None => self.bad = Some("line without a start".into()),
        }
    }
    fn curve_to(&mut self, p1: V, p2: V, p3: V) {
        self.on();
        if self.pts.is_empty() {
            self.bad = Some("curve without a start".into());
        }
        self.pts.extend([p1, p2, p3]);
    }
    fn end_path(&mut self, close: bool) {
        self.on();
        self.ended.push(close);
        if close {
            if let (Some(l), Some(f)) = (self.pts.last().copied(), self.pts.first().copied()) {
                self.pts.extend([l, f, f]);
            }
        }
    }
}
fn check(c: V, a: f64, b: f64, l0: f64, l1: f64) -> Result<(), String> {
    let mut rec = Rec::default();
    ellipticWedge(c, a, b, l0, l1, &mut rec);
    if let Some(m) = rec.bad {
        return Err(m);
    }
    if rec.ended != [true] {
        return Err(format!("path ended {:?}", rec.ended));
    }
    let mut poly: Ppolyline_t = Default::default();
    // whatever was there before is gone
    poly.ps = vec![c, c, c];
    ellipticWedge(c, a, b, l0, l1, &mut poly);
    let p = &poly.ps;
    if p.len() != rec.pts.len() || p.iter().zip(&rec.pts).any(|(p, q)| !eq(*p, *q)) {
        return Err("the polyline is not what was drawn".into());
    }
    if p.len() < 10 || p.len() % 3 != 1 {
        return Err(format!("{} points", p.len()));
    }
    let n = (p.len() - 7) / 3;
    let z = p.len() - 1;
    if !eq(p[0], c) || !eq(p[1], c) || !eq(p[2], p[3]) {
        return Err("does not start with a straight line from the centre".into());
    }
    if !eq(p[z], c) || !eq(p[z - 1], c) || !eq(p[z - 2], p[z - 3]) {
        return Err("does not end with a straight line to the centre".into());
    }
    // the unit circle
    let u: Vec<V> = p.iter().map(|p| Vec2 { x: (p.x - c.x) / a, y: (p.y - c.y) / b }).collect();
    let tol = 1e-9 * (1.0 + (c.x / a).abs() + (c.y / b).abs());
    let ang = |q: V| q.y.atan2(q.x);
    // the same eccentric turn as the directions
    let ecc = |l: f64| {
        let t = (l.sin() / b).atan2(l.cos() / a);
        t + 2.0 * PI * ((l - t) / (2.0 * PI)).round()
    };
    let turn = ecc(l1) - ecc(l0);
    let step = turn / n as f64;
    if step > PI / 2.0 + 1e-9 {
        return Err(format!("{} curves for a turn of {}", n, turn));
    }
    let near = |x: f64, y: f64| {
        let d = (x - y).rem_euclid(2.0 * PI);
        d.min(2.0 * PI - d)
    };
    for j in 0..=n {
        let q = u[3 + 3 * j];
        if (q.x.hypot(q.y) - 1.0).abs() > tol {
            return Err(format!("{} is not on the ellipse", show(p[3 + 3 * j])));
        }
        // the angles are spread evenly: the directions of the ends, equal steps between
        let want = ecc(l0) + j as f64 * step;
        if near(ang(q), want) > 1e-7 + 8.0 * tol {
            return Err(format!("{} of {}: {} is not at the eccentric angle {}", j, n, show(p[3 + 3 * j]), want));
        }
    }
    // handles along the tangents, as long as for the circle
    for j in 0..n {
        let (t, d) = (ecc(l0) + j as f64 * step, step);
        let s = &u[3 + 3 * j..7 + 3 * j];
        let k = d.sin() * ((4.0 + 3.0 * (d / 2.0).tan().powi(2)).sqrt() - 1.0) / 3.0;
        let h = [
            (s[1].x - s[0].x + k * t.sin()).hypot(s[1].y - s[0].y - k * t.cos()),
            (s[2].x - s[3].x - k * (t + d).sin()).hypot(s[2].y - s[3].y + k * (t + d).cos()),
        ];
        if h[0] > 1e-7 + 8.0 * tol || h[1] > 1e-7 + 8.0 * tol {
            return Err(format!("curve {} of {}: its handles end at {} and {}", j, n, show(p[4 + 3 * j]), show(p[5 + 3 * j])));
        }
        for i in 1..8 {
            let (f, g) = (i as f64 / 8.0, 1.0 - i as f64 / 8.0);
            let w = [g * g * g, 3.0 * g * g * f, 3.0 * g * f * f, f * f * f];
            let x: f64 = (0..4).map(|k| w[k] * s[k].x).sum();
            let y: f64 = (0..4).map(|k| w[k] * s[k].y).sum();
            if (x.hypot(y) - 1.0).abs() > 1e-3 + tol {
                return Err(format!("curve {} of {} leaves the ellipse", j, n));
            }
        }
    }
    Ok(())
}
fn case(c: &mut Ctx, ctr: V, a: f64, b: f64, l0: f64, l1: f64) {
    let d = format!("centre {}, semi-axes {:?} and {:?}, angles {:?} to {:?}", show(ctr), a, b, l0, l1);
    c.case(d, l1 > l0, move || check(ctr, a, b, l0, l1));
}
pub fn c32(c: &mut Ctx) {
    c.rule("wedges from any start angle; empty ones, whole and half turns and turns in between; semi-axes in ratios up to 1000; non-trivial: a turn that is not empty");
    let origin = Vec2 { x: 0.0, y: 0.0 };
    for (a, b) in [(1.0, 1.0), (2.0, 1.0), (1.0, 3.0), (100.0, 7.0), (5.0, 100.0)] {
        for i in -16..=16 {
            let l0 = i as f64 * PI / 8.0;
            for k in 0..=16 {
                let l1 = if k == 16 { l0 + 2.0 * PI } else { l0 + k as f64 * PI / 8.0 };
                case(c, origin, a, b, l0, l1);
            }
        }
    }
    c.exhaustive_note.push("5 shapes, 33 start angles, 17 turns in eighths of a half turn".into());
    let mut r = Rng::new(c.seed);
    let t = std::time::Instant::now();
    while c.more() && t.elapsed().as_secs() < 60 {
        let mut real = |lo: f64, hi: f64| lo + (hi - lo) * (r.below(1 << 30) as f64 + 0.5) / (1u64 << 30) as f64;
        let a = 10f64.powf(real(-1.0, 2.5));
        let b = a * 10f64.powf(real(-3.0, 3.0));
        let kind = real(0.0, 8.0) as usize;
        let l0 = if kind % 2 == 0 { real(-7.0, 7.0) } else { (real(-80.0, 80.0)).round() * 0.1 };
        let l1 = match kind / 2 {
            0 => l0 + PI,
            1 => l0 + 2.0 * PI,
            2 => l0 + real(1e-3, 2.0 * PI - 1e-3),
            _ => l0 + (real(0.0, 62.0).round()) * 0.1,
        };
        let ctr = if kind < 4 { origin } else { Vec2 { x: real(-300.0, 300.0), y: real(-300.0, 300.0) } };
        // the halfway turn belongs to either side of it when rounded; away from it the turn is exact
        case(c, ctr, a, b, l0, l1);
    }
}
