// Floating point as exact real arithmetic (machine arithmetic treated as mathematical).
// F stands for f64; its view is the real number it denotes. Only comparisons and the listed
// operations are specified; nothing is assumed about dividing by zero or the root of a negative number.
#[verifier::external_body]
pub struct F { v: f64 }
impl Clone for F {
    #[verifier::external_body]
    fn clone(&self) -> (r: F) ensures r == *self, { F { v: self.v } }
}
impl Copy for F {}
impl Default for F {
    #[verifier::external_body]
    fn default() -> (r: F) ensures r@ == 0real, { F { v: 0.0 } }
}
impl View for F { type V = real; uninterp spec fn view(&self) -> real; }

#[verifier::external_body]
const fn vlit(n: i128, d: i128) -> (r: F)
    requires d > 0,
    ensures r@ * (d as real) == (n as real), r@ == (n as real) / (d as real),
{ F { v: n as f64 / d as f64 } }

#[verifier::external_body]
fn vcast(n: i128) -> (r: F)
    ensures r@ == (n as real),
{ F { v: n as f64 } }

impl core::ops::Add for F { type Output = F;
    #[verifier::external_body]
    fn add(self, o: F) -> (r: F) ensures r@ == self@ + o@, { F { v: self.v + o.v } } }
impl vstd::std_specs::ops::AddSpecImpl for F {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: F) -> bool { true }
    uninterp spec fn add_spec(self, o: F) -> F;
}
impl core::ops::Sub for F { type Output = F;
    #[verifier::external_body]
    fn sub(self, o: F) -> (r: F) ensures r@ == self@ - o@, { F { v: self.v - o.v } } }
impl vstd::std_specs::ops::SubSpecImpl for F {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: F) -> bool { true }
    uninterp spec fn sub_spec(self, o: F) -> F;
}
impl core::ops::Mul for F { type Output = F;
    #[verifier::external_body]
    fn mul(self, o: F) -> (r: F) ensures r@ == self@ * o@, { F { v: self.v * o.v } } }
impl vstd::std_specs::ops::MulSpecImpl for F {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: F) -> bool { true }
    uninterp spec fn mul_spec(self, o: F) -> F;
}
/// the quotient, as a name for it
#[verifier::opaque]
pub open spec fn quot(n: real, d: real) -> real { n / d }
proof fn lemma_quot(n: real, d: real)
    requires d != 0real,
    ensures quot(n, d) * d == n,
{ reveal(quot); assert((n / d) * d == n) by (nonlinear_arith) requires d != 0real; }
impl core::ops::Div for F { type Output = F;
    #[verifier::external_body]
    fn div(self, o: F) -> (r: F) ensures r@ * o@ == self@, r@ == quot(self@, o@), { F { v: self.v / o.v } } }
impl vstd::std_specs::ops::DivSpecImpl for F {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: F) -> bool { o@ != 0real }
    uninterp spec fn div_spec(self, o: F) -> F;
}
impl core::ops::Neg for F { type Output = F;
    #[verifier::external_body]
    fn neg(self) -> (r: F) ensures r@ == -self@, { F { v: -self.v } } }
impl vstd::std_specs::ops::NegSpecImpl for F {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    uninterp spec fn neg_spec(self) -> F;
}
impl PartialEq for F {
    #[verifier::external_body]
    fn eq(&self, o: &F) -> (r: bool) ensures r == (self@ == o@), { self.v == o.v } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for F {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F) -> bool { self@ == o@ }
}
pub open spec fn rcmp(a: real, b: real) -> core::cmp::Ordering {
    if a < b { core::cmp::Ordering::Less } else if a > b { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal }
}
impl PartialOrd for F {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &F) -> (r: Option<core::cmp::Ordering>) ensures r == Some(rcmp(self@, o@)), { self.v.partial_cmp(&o.v) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for F {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F) -> Option<core::cmp::Ordering> { Some(rcmp(self@, o@)) }
}

/// the non-negative root
uninterp spec fn root(x: real) -> real;
axiom fn axiom_root(x: real)
    requires x >= 0real,
    ensures root(x) >= 0real, root(x) * root(x) == x;
impl F {
    #[verifier::external_body]
    fn sqrt(self) -> (r: F)
        requires self@ >= 0real,
        ensures r@ >= 0real, r@ * r@ == self@, r@ == root(self@),
    { F { v: self.v.sqrt() } }
    #[verifier::external_body]
    fn abs(self) -> (r: F)
        ensures r@ == (if self@ >= 0real { self@ } else { -self@ }),
    { F { v: self.v.abs() } }
}
