%%% file trellis/src/vec2.rs
%%% item Vec2 #[derive(Clone, Copy)]
%%% item Pxy_t | f64 => F
%%% item Ppoint_t
%%% item Pvector_t
%%% text
pub closed spec fn vsum(r: Ppoint_t, a: Ppoint_t, b: Ppoint_t) -> bool { r.x@ == a.x@ + b.x@ && r.y@ == a.y@ + b.y@ }
pub closed spec fn vdifference(r: Ppoint_t, a: Ppoint_t, b: Ppoint_t) -> bool { r.x@ == a.x@ - b.x@ && r.y@ == a.y@ - b.y@ }
pub closed spec fn vscaled(r: Ppoint_t, a: Ppoint_t, k: real) -> bool { r.x@ == a.x@ * k && r.y@ == a.y@ * k }
pub closed spec fn vdivided(r: Ppoint_t, a: Ppoint_t, k: real) -> bool { r.x@ * k == a.x@ && r.y@ * k == a.y@ }
// dispatch of the operators on points to the functions of the repository
impl core::ops::Add<Vec2<F>> for Vec2<F> { type Output = Vec2<F>;
    fn add(self, o: Vec2<F>) -> (r: Vec2<F>) ensures vsum(r, self, o) { Vec2::<F>::vec_add(self, o) } }
impl vstd::std_specs::ops::AddSpecImpl<Vec2<F>> for Vec2<F> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: Vec2<F>) -> bool { true }
    uninterp spec fn add_spec(self, o: Vec2<F>) -> Vec2<F>;
}
impl core::ops::Sub<Vec2<F>> for Vec2<F> { type Output = Vec2<F>;
    fn sub(self, o: Vec2<F>) -> (r: Vec2<F>) ensures vdifference(r, self, o) { Vec2::<F>::vec_sub(self, o) } }
impl vstd::std_specs::ops::SubSpecImpl<Vec2<F>> for Vec2<F> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: Vec2<F>) -> bool { true }
    uninterp spec fn sub_spec(self, o: Vec2<F>) -> Vec2<F>;
}
impl core::ops::Mul<F> for Vec2<F> { type Output = Vec2<F>;
    fn mul(self, o: F) -> (r: Vec2<F>) ensures vscaled(r, self, o@) { Vec2::<F>::vec_mul(self, o) } }
impl vstd::std_specs::ops::MulSpecImpl<F> for Vec2<F> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: F) -> bool { true }
    uninterp spec fn mul_spec(self, o: F) -> Vec2<F>;
}
impl core::ops::Mul<Vec2<F>> for F { type Output = Vec2<F>;
    fn mul(self, o: Vec2<F>) -> (r: Vec2<F>) ensures vscaled(r, o, self@) { F::vec_mul(self, o) } }
impl vstd::std_specs::ops::MulSpecImpl<Vec2<F>> for F {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: Vec2<F>) -> bool { true }
    uninterp spec fn mul_spec(self, o: Vec2<F>) -> Vec2<F>;
}
impl core::ops::Div<F> for Vec2<F> { type Output = Vec2<F>;
    fn div(self, o: F) -> (r: Vec2<F>) ensures vdivided(r, self, o@) { Vec2::<F>::vec_div(self, o) } }
impl vstd::std_specs::ops::DivSpecImpl<F> for Vec2<F> {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: F) -> bool { o@ != 0real }
    uninterp spec fn div_spec(self, o: F) -> Vec2<F>;
}
%%% fn Vec2::add as vec_add
%% opt reals
%% opt mono T=F
%% contract
    ensures vsum(r, self, other),
%%% fn Vec2::sub as vec_sub
%% opt reals
%% opt mono T=F
%% contract
    ensures vdifference(r, self, other),
%%% fn Vec2::mul as vec_mul
%% opt reals
%% opt mono T=F
%% contract
    ensures vscaled(r, self, other@),
%%% fn f64::mul as vec_mul
%% opt reals
%% contract
    ensures vscaled(r, other, self@),
%%% fn Vec2::div as vec_div
%% opt reals
%% opt mono T=F
%% contract
    requires other@ != 0real,
    ensures vdivided(r, self, other@),
