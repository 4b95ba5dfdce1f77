// Elementary functions over the reals that F stands for: assumed contracts.
uninterp spec fn rcos(x: real) -> real;
uninterp spec fn rsin(x: real) -> real;
uninterp spec fn rpi() -> real;
axiom fn axiom_unit(x: real)
    ensures rcos(x) * rcos(x) + rsin(x) * rsin(x) == 1real;
axiom fn axiom_sum(x: real, y: real)
    ensures
        rcos(x + y) == rcos(x) * rcos(y) - rsin(x) * rsin(y),
        rsin(x + y) == rsin(x) * rcos(y) + rcos(x) * rsin(y),
        rcos(-x) == rcos(x), rsin(-x) == -rsin(x);
/// a third of a turn
axiom fn axiom_third(x: real)
    requires x * 3real == 2real * rpi(),
    ensures 2real * rcos(x) == -1real, 4real * (rsin(x) * rsin(x)) == 3real;
#[verifier::external_body]
fn vpi() -> (r: F) ensures r@ == rpi(), { unimplemented!() }
impl F {
    #[verifier::external_body]
    fn cos(self) -> (r: F) ensures r@ == rcos(self@), { F { v: self.v.cos() } }
    /// the direction of (x, y), called y.atan2(x)
    #[verifier::external_body]
    fn atan2(self, x: F) -> (r: F)
        ensures
            rcos(r@) * root(x@ * x@ + self@ * self@) == x@,
            rsin(r@) * root(x@ * x@ + self@ * self@) == self@,
    { F { v: self.v.atan2(x.v) } }
    /// only the third root is specified
    #[verifier::external_body]
    fn powf(self, e: F) -> (r: F)
        ensures self@ >= 0real && e@ * 3real == 1real ==> r@ >= 0real && r@ * r@ * r@ == self@,
    { F { v: self.v.powf(e.v) } }
}
impl F {
    #[verifier::external_body]
    fn sin_cos(self) -> (r: (F, F)) ensures r.0@ == rsin(self@), r.1@ == rcos(self@), { unimplemented!() }
}
