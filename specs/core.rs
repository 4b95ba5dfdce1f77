// the target built here is 64-bit
global size_of usize == 8;

// reachability probes (vacuity guard)
uninterp spec fn vprobe(i: int) -> bool;

// Assumed contracts on Rust core/std constructs (the trusted base; listed in the evidence).
#[verifier::external_body]
fn vassert(b: bool)
    requires b,
{ if !b { panic!() } }

/// the same assertion when it is allowed to fail: it returns only if the condition holds
#[verifier::external_body]
fn vassert_returns(b: bool)
    ensures b,
{ if !b { panic!() } }

#[verifier::external_body]
fn vpanic() -> !
    requires false,
{ panic!() }

// ---- iterators: an iterator is the finite sequence of items it will still yield
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
struct VIter<X> { x: Vec<X> }

spec fn flat<X>(ss: Seq<VIter<X>>) -> Seq<X>
    decreases ss.len(),
{
    if ss.len() == 0 { Seq::empty() } else { flat(ss.drop_last()) + ss.last()@ }
}

impl<X> VIter<X> {
    uninterp spec fn view(&self) -> Seq<X>;

    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<X>)
        ensures
            match r {
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
                Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
            },
    { unimplemented!() }

    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<X>)
        ensures r@ == self@,
    { unimplemented!() }

    #[verifier::external_body]
    fn enumerate(self) -> (r: VIter<(usize, X)>)
        ensures
            self@.len() <= usize::MAX,
            r@.len() == self@.len(),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]),
    { unimplemented!() }

    #[verifier::external_body]
    fn map<Y, F: Fn(X) -> Y>(self, f: F) -> (r: VIter<Y>)
        requires
            forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            r@.len() == self@.len(),
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> f.ensures((self@[i],), r@[i]),
    { unimplemented!() }

    #[verifier::external_body]
    fn all<F: Fn(X) -> bool>(&mut self, f: F) -> (r: bool)
        requires
            forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
        ensures
            r ==> (forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), true)),
            !r ==> (exists|i: int| 0 <= i < old(self)@.len() && f.ensures((#[trigger] old(self)@[i],), false)),
    { unimplemented!() }

    #[verifier::external_body]
    fn collect(self) -> (r: Vec<X>)
        ensures r@ == self@,
    { unimplemented!() }

    #[verifier::external_body]
    fn rev(self) -> (r: VIter<X>)
        ensures r@ == self@.reverse(),
    { unimplemented!() }

    #[verifier::external_body]
    fn zip<Y>(self, o: VIter<Y>) -> (r: VIter<(X, Y)>)
        ensures
            r@.len() == (if self@.len() <= o@.len() { self@.len() } else { o@.len() }),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self@[i], o@[i]),
    { unimplemented!() }
}
impl<X> VIter<VIter<X>> {
    #[verifier::external_body]
    fn flatten(self) -> (r: VIter<X>)
        ensures r@ == flat(self@),
    { unimplemented!() }
}
impl<'a, T: Copy> VIter<&'a T> {
    #[verifier::external_body]
    fn copied(self) -> (r: VIter<T>)
        ensures
            r@.len() == self@.len(),
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i] == *self@[i],
    { unimplemented!() }
}
impl<'a, T: Clone> VIter<&'a T> {
    #[verifier::external_body]
    fn cloned(self) -> (r: VIter<T>)
        ensures
            r@.len() == self@.len(),
            forall|i: int| 0 <= i < r@.len() ==> cloned(*self@[i], #[trigger] r@[i]),
    { unimplemented!() }
}
impl VIter<u32> {
    #[verifier::external_body]
    fn max(self) -> (r: Option<u32>)
        ensures
            r is None <==> self@.len() == 0,
            r matches Some(m) ==> self@.contains(m) && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] <= m,
    { unimplemented!() }
}

spec fn vtotal(s: Seq<usize>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { vtotal(s.drop_last()) + s.last() } }
impl VIter<usize> {
    #[verifier::external_body]
    fn sum(self) -> (r: usize)
        requires vtotal(self@) <= usize::MAX,
        ensures r == vtotal(self@),
    { unimplemented!() }
}

trait VInt: Sized {
    spec fn vi(self) -> int;
    spec fn vof(i: int) -> Self;
}
impl VInt for usize { spec fn vi(self) -> int { self as int } spec fn vof(i: int) -> usize { i as usize } }
impl VInt for u32 { spec fn vi(self) -> int { self as int } spec fn vof(i: int) -> u32 { i as u32 } }
impl VInt for i32 { spec fn vi(self) -> int { self as int } spec fn vof(i: int) -> i32 { i as i32 } }

#[verifier::external_body]
fn vrange<I: VInt>(a: I, b: I) -> (r: VIter<I>)
    ensures
        r@.len() == (if a.vi() < b.vi() { b.vi() - a.vi() } else { 0 }),
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == I::vof(a.vi() + i),
{ unimplemented!() }

// ---- slices and vectors
trait VSlice<T> {
    spec fn sv(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>)
        ensures
            r@.len() == self.sv().len(),
            self.sv().len() <= usize::MAX,
            forall|i: int| #![trigger r@[i]] #![trigger self.sv()[i]] 0 <= i < r@.len() ==> *r@[i] == self.sv()[i];
    fn v_windows<'a>(&'a self, n: usize) -> (r: VIter<&'a [T]>)
        requires n == 2,
        ensures
            r@.len() == (if self.sv().len() < 2 { 0 } else { self.sv().len() - 1 }),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == seq![self.sv()[i], self.sv()[i + 1]];
    fn v_last<'a>(&'a self) -> (r: Option<&'a T>)
        ensures
            r is None <==> self.sv().len() == 0,
            r matches Some(x) ==> *x == self.sv().last();
}
impl<T> VSlice<T> for [T] {
    spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_windows<'a>(&'a self, n: usize) -> (r: VIter<&'a [T]>) { unimplemented!() }
    #[verifier::external_body]
    fn v_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
}
impl<T> VSlice<T> for Vec<T> {
    spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_windows<'a>(&'a self, n: usize) -> (r: VIter<&'a [T]>) { unimplemented!() }
    #[verifier::external_body]
    fn v_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
}
trait VVec<T> {
    spec fn vv(&self) -> Seq<T>;
    fn v_into_iter(self) -> (r: VIter<T>)
        ensures r@ == self.vv();
    fn v_reverse(&mut self)
        ensures final(self).vv() == old(self).vv().reverse();
    fn v_last_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>)
        ensures
            match r {
                None => old(self).vv().len() == 0 && final(self).vv() == old(self).vv(),
                Some(x) => old(self).vv().len() > 0 && *x == old(self).vv().last() && final(self).vv() == old(self).vv().drop_last().push(*final(x)),
            };
}
impl<T> VVec<T> for Vec<T> {
    spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn v_last_mut<'a>(&'a mut self) -> (r: Option<&'a mut T>) { unimplemented!() }
}
trait VRefIter<'a, T> {
    spec fn rv(self) -> Seq<T>;
    fn v_into_iter(self) -> (r: VIter<&'a T>)
        ensures r@.len() == self.rv().len(), self.rv().len() <= usize::MAX, forall|i: int| #![trigger r@[i]] #![trigger self.rv()[i]] 0 <= i < r@.len() ==> *r@[i] == self.rv()[i];
}
impl<'a, T> VRefIter<'a, T> for &'a [T] {
    spec fn rv(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<'a, T> VRefIter<'a, T> for &'a Vec<T> {
    spec fn rv(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
}
pub assume_specification [u16::max_value] () -> (r: u16) ensures r == u16::MAX;
pub assume_specification [u64::max_value] () -> (r: u64) ensures r == u64::MAX;
pub assume_specification [u32::max_value] () -> (r: u32) ensures r == u32::MAX;
pub assume_specification [i32::max_value] () -> (r: i32) ensures r == i32::MAX;
pub assume_specification [usize::max_value] () -> (r: usize) ensures r == usize::MAX;
trait VExtend<X> {
    spec fn ext_post(a: Seq<Self::E>, it: Seq<X>, b: Seq<Self::E>) -> bool;
    spec fn ext_view(&self) -> Seq<Self::E>;
    type E;
    fn v_extend(&mut self, it: VIter<X>)
        ensures Self::ext_post(old(self).ext_view(), it@, final(self).ext_view());
}
impl<T> VExtend<T> for Vec<T> {
    type E = T;
    spec fn ext_view(&self) -> Seq<T> { self@ }
    spec fn ext_post(a: Seq<T>, it: Seq<T>, b: Seq<T>) -> bool { b == a + it }
    #[verifier::external_body]
    fn v_extend(&mut self, it: VIter<T>) { unimplemented!() }
}
impl<'a, T: Copy> VExtend<&'a T> for Vec<T> {
    type E = T;
    spec fn ext_view(&self) -> Seq<T> { self@ }
    spec fn ext_post(a: Seq<T>, it: Seq<&'a T>, b: Seq<T>) -> bool {
        b.len() == a.len() + it.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i])
            && (forall|i: int| a.len() <= i < b.len() ==> #[trigger] b[i] == *it[i - a.len()])
    }
    #[verifier::external_body]
    fn v_extend(&mut self, it: VIter<&'a T>) { unimplemented!() }
}

trait VOverflow: Sized {
    spec fn ov(self) -> int;
    spec fn ov_max() -> int;
    fn v_overflowing_add(self, o: Self) -> (r: (Self, bool))
        ensures
            r.1 == (self.ov() + o.ov() > Self::ov_max()),
            !r.1 ==> r.0.ov() == self.ov() + o.ov(),
            r.1 ==> r.0.ov() == self.ov() + o.ov() - Self::ov_max() - 1;
}
impl VOverflow for u16 {
    spec fn ov(self) -> int { self as int }
    spec fn ov_max() -> int { 65535 }
    #[verifier::external_body]
    fn v_overflowing_add(self, o: u16) -> (r: (u16, bool)) { self.overflowing_add(o) }
}

pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires
        a < old(s)@.len(),
        b < old(s)@.len(),
    ensures
        final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);

trait VAsMut<T> {
    spec fn am(&self) -> Seq<T>;
    fn v_as_mut<'a>(&'a mut self) -> (r: &'a mut [T])
        ensures r@ == old(self).am(), final(self).am() == final(r)@;
}
impl<T> VAsMut<T> for Vec<T> {
    spec fn am(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_as_mut<'a>(&'a mut self) -> (r: &'a mut [T]) { unimplemented!() }
}
impl<T> VAsMut<T> for [T] {
    spec fn am(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_as_mut<'a>(&'a mut self) -> (r: &'a mut [T]) { unimplemented!() }
}

#[verifier::external_body]
fn v_mem_replace<X>(a: &mut X, b: X) -> (r: X)
    ensures r == *old(a), *final(a) == b,
{ unimplemented!() }

// stable sort by key: kf is any function that the key closure computes
spec fn stable_by<X>(a: Seq<X>, b: Seq<X>, kf: spec_fn(X) -> int) -> bool {
    &&& b.len() == a.len()
    &&& forall|i: int, j: int| 0 <= i <= j < b.len() ==> kf(#[trigger] b[i]) <= kf(#[trigger] b[j])
    &&& forall|k: int| #[trigger] pick(b, kf, k) == pick(a, kf, k)
}
spec fn pick<X>(a: Seq<X>, kf: spec_fn(X) -> int, k: int) -> Seq<X> { a.filter(|x: X| kf(x) == k) }
spec fn key_fn<X, K: VInt, F: Fn(&X) -> K>(f: F, kf: spec_fn(X) -> int) -> bool {
    forall|x: &X, k: K| f.ensures((x,), k) ==> k.vi() == kf(*x)
}
trait VSort<X> {
    spec fn vs(&self) -> Seq<X>;
    fn v_sort_by_key<K: VInt, F: Fn(&X) -> K>(&mut self, f: F)
        requires forall|x: &X| #[trigger] f.requires((x,)),
        ensures forall|kf: spec_fn(X) -> int| key_fn(f, kf) ==> #[trigger] stable_by(old(self).vs(), final(self).vs(), kf);
}
impl<X> VSort<X> for Vec<X> {
    spec fn vs(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn v_sort_by_key<K: VInt, F: Fn(&X) -> K>(&mut self, f: F) { unimplemented!() }
}
