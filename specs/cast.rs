// ---- `as i32`: the fraction is cut off, and values outside the range become the nearest bound
spec fn cut(x: real) -> int { if x >= 0real { x.floor() } else { -((-x).floor()) } }
spec fn clamp32(n: int) -> int { if n > i32::MAX { i32::MAX as int } else if n < i32::MIN { i32::MIN as int } else { n } }
trait VAsI32: Sized {
    spec fn as_i32(self) -> int;
    fn v_as_i32(self) -> (r: i32)
        ensures r as int == self.as_i32();
}
impl VAsI32 for i32 {
    spec fn as_i32(self) -> int { self as int }
    fn v_as_i32(self) -> (r: i32) { self }
}
impl VAsI32 for F {
    spec fn as_i32(self) -> int { clamp32(cut(self@)) }
    #[verifier::external_body]
    fn v_as_i32(self) -> (r: i32) { self.v as i32 }
}
/// the nearest integer, halves away from zero
spec fn nearest(x: real) -> int { if x >= 0real { (x + 1real / 2real).floor() } else { -((-x + 1real / 2real).floor()) } }
impl F {
    #[verifier::external_body]
    fn round(self) -> (r: F) ensures r@ == (nearest(self@) as real), { F { v: self.v.round() } }
    #[verifier::external_body]
    fn trunc(self) -> (r: F) ensures r@ == (cut(self@) as real), { F { v: self.v.trunc() } }
    #[verifier::external_body]
    fn floor(self) -> (r: F) ensures r@ == (self@.floor() as real), { F { v: self.v.floor() } }
    #[verifier::external_body]
    fn ceil(self) -> (r: F) ensures r@ == -((-self@).floor() as real), { F { v: self.v.ceil() } }
}
