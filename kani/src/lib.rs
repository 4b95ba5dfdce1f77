//! Contracts of the loop-free floating-point helpers, discharged bit by bit over all f64 (no exact
//! reals, no bound): every harness takes arbitrary arguments, assumes the precondition, calls the
//! real function and asserts the postcondition.  Built without Kani, the same harnesses run on
//! concrete values: `replay HARNESS HEX..` puts a counterexample through the real code.
#![allow(non_snake_case)]
use trellis::common::arith;
use trellis::common::geom::*;
use trellis::vec2::Vec2;

#[cfg(not(kani))]
mod kani {
    use std::cell::RefCell;
    thread_local!(pub static VALUES: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]));
    pub struct Outside;
    pub trait Bits: Sized { fn of(b: &[u8]) -> Self; }
    impl Bits for f64 { fn of(b: &[u8]) -> f64 { f64::from_le_bytes(b.try_into().unwrap()) } }
    impl Bits for i32 { fn of(b: &[u8]) -> i32 { i32::from_le_bytes(b.try_into().unwrap()) } }
    pub fn any<T: Bits>() -> T {
        VALUES.with(|v| {
            let mut v = v.borrow_mut();
            if v.is_empty() { std::panic::panic_any(Outside) }
            T::of(&v.remove(0))
        })
    }
    pub fn assume(b: bool) { if !b { std::panic::panic_any(Outside) } }
}

fn num() -> f64 {
    let x: f64 = kani::any();
    kani::assume(!x.is_nan());
    x
}
fn pt() -> pointf { Vec2 { x: num(), y: num() } }
fn bx() -> boxf { boxf { LL: pt(), UR: pt() } }
fn cp(b: &boxf) -> boxf { boxf { LL: b.LL, UR: b.UR } }
fn has(b: &boxf, p: pointf) -> bool { b.LL.x <= p.x && p.x <= b.UR.x && b.LL.y <= p.y && p.y <= b.UR.y }
fn proper(b: &boxf) -> bool { b.LL.x <= b.UR.x && b.LL.y <= b.UR.y }

#[cfg_attr(kani, kani::proof)]
pub fn c23_inside() {
    let (p, b) = (pt(), bx());
    let (q, c) = (p, cp(&b));
    assert!(INSIDE(p, &b) == has(&c, q), "INSIDE is membership of the closed rectangle");
}
#[cfg_attr(kani, kani::proof)]
pub fn c23_overlap() {
    let (a, b) = (bx(), bx());
    kani::assume(proper(&a) && proper(&b));
    let r = OVERLAP(&a, &b);
    assert!(r == OVERLAP(&b, &a), "OVERLAP is symmetric");
    let p = pt();
    if has(&a, p) && has(&b, p) { assert!(r, "boxes with a common point overlap"); }
    if r {
        let l = |x: f64, y: f64| if x < y { y } else { x };
        let w = Vec2 { x: l(a.LL.x, b.LL.x), y: l(a.LL.y, b.LL.y) };
        assert!(has(&a, w) && has(&b, w), "overlapping boxes have a common point");
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn c23_contains() {
    let (a, b) = (bx(), bx());
    kani::assume(proper(&b));
    let p = pt();
    if CONTAINS(&a, &b) {
        if has(&b, p) { assert!(has(&a, p), "the containing box has every point of the contained one"); }
    } else {
        assert!(!has(&a, b.LL) || !has(&a, b.UR), "a box that has both corners of another contains it");
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn c23_expand_point() {
    let (b, p) = (bx(), pt());
    kani::assume(proper(&b));
    let mut c = cp(&b);
    EXPANDBP(&mut c, p);
    assert!(CONTAINS(&c, &b) && has(&c, p), "the expanded box has the old box and the point");
    let d = bx();
    if CONTAINS(&d, &b) && has(&d, p) { assert!(CONTAINS(&d, &c), "the expanded box is the smallest"); }
}
#[cfg_attr(kani, kani::proof)]
pub fn c23_expand_box() {
    let (b, e) = (bx(), bx());
    kani::assume(proper(&b) && proper(&e));
    let mut c = cp(&b);
    EXPANDBB(&mut c, &e);
    assert!(CONTAINS(&c, &b) && CONTAINS(&c, &e), "the expanded box contains both");
    let d = bx();
    if CONTAINS(&d, &b) && CONTAINS(&d, &e) { assert!(CONTAINS(&d, &c), "the expanded box is the smallest"); }
}
#[cfg_attr(kani, kani::proof)]
pub fn c23_clip() {
    let (b, e) = (bx(), bx());
    let mut c = cp(&b);
    CLIPBB(&mut c, &e);
    let p = pt();
    assert!(has(&c, p) == (has(&b, p) && has(&e, p)), "the clipped box is the intersection");
}

#[cfg_attr(kani, kani::proof)]
pub fn c35_round() {
    let x = num();
    let r = arith::ROUND(x);
    if x.is_infinite() { assert!(r == if x > 0.0 { i32::MAX } else { i32::MIN }, "ROUND stops at the bounds"); return; }
    let whole = x.trunc(); // x - whole is exact
    let want = if (x - whole).abs() < 0.5 { whole } else if x > 0.0 { whole + 1.0 } else { whole - 1.0 };
    if -2147483648.0 <= want && want <= 2147483647.0 {
        assert!(r as f64 == want, "ROUND gives the nearest integer, away from zero half way");
    } else {
        assert!(r == if x > 0.0 { i32::MAX } else { i32::MIN }, "ROUND stops at the bounds");
    }
}
fn whole() -> point { Vec2 { x: kani::any::<i32>(), y: kani::any::<i32>() } }
#[cfg_attr(kani, kani::proof)]
pub fn c35_whole() {
    let p = whole();
    let f = P2PF(p);
    assert!(f.x == p.x as f64 && f.y == p.y as f64, "P2PF keeps the point");
    let q = PF2P(f);
    assert!((p.x, p.y) == (q.x, q.y), "PF2P of P2PF is the point");
    let b = boxi { LL: p, UR: whole() };
    let c = BF2B(&B2BF(&b));
    assert!((b.LL.x, b.LL.y, b.UR.x, b.UR.y) == (c.LL.x, c.LL.y, c.UR.x, c.UR.y), "BF2B of B2BF is the box");
}
#[cfg_attr(kani, kani::proof)]
pub fn c35_order() {
    let (a, b, c) = (num(), num(), num());
    let (lo, hi) = (arith::MIN(a, b), arith::MAX(a, b));
    assert!(lo <= a && lo <= b && (lo == a || lo == b), "MIN is the smaller one");
    assert!(hi >= a && hi >= b && (hi == a || hi == b), "MAX is the greater one");
    assert!(arith::CMP(a, b) == (a > b) as i32 - (a < b) as i32, "CMP compares");
    assert!(arith::SGN(a) == if a < 0.0 { -1 } else { 1 }, "SGN is the sign");
    assert!(arith::BETWEEN(a, b, c) == (a <= b && b <= c), "BETWEEN includes both ends");
}

#[cfg(not(kani))]
pub fn replay(name: &str, values: Vec<Vec<u8>>) -> Result<(), String> {
    let f: fn() = match name {
        "c23_inside" => c23_inside,
        "c23_overlap" => c23_overlap,
        "c23_contains" => c23_contains,
        "c23_expand_point" => c23_expand_point,
        "c23_expand_box" => c23_expand_box,
        "c23_clip" => c23_clip,
        "c35_round" => c35_round,
        "c35_whole" => c35_whole,
        "c35_order" => c35_order,
        _ => return Err("no such harness".into()),
    };
    kani::VALUES.with(|v| *v.borrow_mut() = values);
    std::panic::set_hook(Box::new(|_| {}));
    match std::panic::catch_unwind(f) {
        Ok(()) => Ok(()),
        Err(e) => {
            if e.is::<kani::Outside>() { return Ok(()); }
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned());
            Err(m.unwrap_or("panic".into()))
        }
    }
}
