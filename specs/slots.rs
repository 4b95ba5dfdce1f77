// ---- memory slots: a Vec<T> some of whose slots may hold no live value.
// mem()[i] is Some(x) while slot i owns the value x, None while it holds garbage; vlen() is Vec::len.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct SlotVec<T> { x: Vec<T> }
uninterp spec fn drop_matters<T>() -> bool;
impl<T> SlotVec<T> {
    uninterp spec fn mem(&self) -> Seq<Option<T>>;
    uninterp spec fn vlen(&self) -> int;
    spec fn room(&self) -> bool { 0 <= self.vlen() <= self.mem().len() <= usize::MAX }
    /// no live value behind the end (such a value would leak when the storage moves)
    spec fn tail_free(&self) -> bool { forall|i: int| self.vlen() <= i < self.mem().len() ==> (#[trigger] self.mem()[i]) is None }
    /// an ordinary vector: every element initialised, nothing behind the end
    spec fn full(&self) -> bool {
        self.room() && self.tail_free() && forall|i: int| 0 <= i < self.vlen() ==> (#[trigger] self.mem()[i]) is Some
    }
    spec fn vals(&self) -> Seq<T> { Seq::new(self.vlen() as nat, |i: int| self.mem()[i]->0) }
    spec fn same_prefix(&self, o: Seq<Option<T>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] self.mem()[i] == o[i] }

    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r.room(), r.vlen() == 0, r.mem().len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: Self)
        ensures r.room(), r.vlen() == 0, r.mem().len() >= n, r.tail_free(),
    { unimplemented!() }
    /// the same vector, where it is an ordinary Vec
    #[verifier::external_body]
    fn v_plain(self) -> (r: Vec<T>)
        requires self.full(),
        ensures r@ == self.vals(),
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self.vlen(),
    { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool)
        ensures r == (self.vlen() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    fn set_len(&mut self, n: usize)
        requires n <= old(self).mem().len(),
        ensures final(self).vlen() == n, final(self).mem() == old(self).mem(), final(self).room(),
    { unimplemented!() }
    #[verifier::external_body]
    fn reserve(&mut self, n: usize)
        requires old(self).room(), old(self).tail_free(),
        ensures
            final(self).room(), final(self).tail_free(), final(self).vlen() == old(self).vlen(),
            final(self).mem().len() >= old(self).vlen() + n,
            final(self).same_prefix(old(self).mem(), old(self).vlen()),
    { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, v: T)
        requires old(self).room(), old(self).tail_free(),
        ensures
            final(self).room(), final(self).tail_free(), final(self).vlen() == old(self).vlen() + 1,
            final(self).same_prefix(old(self).mem(), old(self).vlen()),
            final(self).mem()[old(self).vlen()] == Some(v),
    { unimplemented!() }
    #[verifier::external_body]
    fn pop(&mut self) -> (r: Option<T>)
        requires old(self).room(), old(self).vlen() > 0 ==> old(self).mem()[old(self).vlen() - 1] is Some,
        ensures
            final(self).room(),
            old(self).vlen() == 0 ==> r is None && *final(self) == *old(self),
            old(self).vlen() > 0 ==> r == old(self).mem()[old(self).vlen() - 1] && final(self).vlen() == old(self).vlen() - 1
                && final(self).mem() == old(self).mem().update(old(self).vlen() - 1, None),
    { unimplemented!() }
    /// &*p.add(i)
    #[verifier::external_body]
    fn slot_ref(&self, i: usize) -> (r: &T)
        requires i < self.mem().len(), self.mem()[i as int] is Some,
        ensures *r == self.mem()[i as int]->0,
    { unimplemented!() }
    /// &mut *p.add(i)
    #[verifier::external_body]
    fn slot_mut(&mut self, i: usize) -> (r: &mut T)
        requires i < old(self).mem().len(), old(self).mem()[i as int] is Some,
        ensures
            *r == old(self).mem()[i as int]->0,
            final(self).vlen() == old(self).vlen(),
            final(self).mem() == old(self).mem().update(i as int, Some(*final(r))),
    { unimplemented!() }
    /// ptr::read moves the value out
    #[verifier::external_body]
    fn slot_read(&mut self, i: usize) -> (r: T)
        requires i < old(self).mem().len(), old(self).mem()[i as int] is Some,
        ensures
            Some(r) == old(self).mem()[i as int],
            final(self).vlen() == old(self).vlen(),
            final(self).mem() == old(self).mem().update(i as int, None),
    { unimplemented!() }
    /// ptr::write does not drop what was there, so nothing may be
    #[verifier::external_body]
    fn slot_write(&mut self, i: usize, v: T)
        requires i < old(self).mem().len(), old(self).mem()[i as int] is None,
        ensures
            final(self).vlen() == old(self).vlen(),
            final(self).mem() == old(self).mem().update(i as int, Some(v)),
    { unimplemented!() }
    /// drop_in_place may run code that panics: by then the vector must not drop its elements itself
    #[verifier::external_body]
    fn slot_drop(&mut self, i: usize)
        requires i < old(self).mem().len(), old(self).mem()[i as int] is Some, old(self).vlen() == 0,
        ensures
            final(self).vlen() == old(self).vlen(),
            final(self).mem() == old(self).mem().update(i as int, None),
    { unimplemented!() }
    /// ptr::copy: the values move, the source slots not overwritten hold no value any more
    #[verifier::external_body]
    fn slot_copy(&mut self, a: usize, b: usize, n: usize)
        requires
            a + n <= old(self).mem().len(), b + n <= old(self).mem().len(),
            forall|i: int| b <= i < b + n && !(a <= i < a + n) ==> (#[trigger] old(self).mem()[i]) is None,
        ensures
            final(self).vlen() == old(self).vlen(),
            final(self).mem().len() == old(self).mem().len(),
            forall|i: int| 0 <= i < old(self).mem().len() ==> #[trigger] final(self).mem()[i]
                == (if b <= i < b + n { old(self).mem()[i - b + a] } else if a <= i < a + n { None } else { old(self).mem()[i] }),
    { unimplemented!() }
    /// ptr::copy_nonoverlapping: moreover the ranges must not overlap
    #[verifier::external_body]
    fn slot_copy_nonoverlapping(&mut self, a: usize, b: usize, n: usize)
        requires
            a + n <= old(self).mem().len(), b + n <= old(self).mem().len(),
            a + n <= b || b + n <= a,
            forall|i: int| b <= i < b + n ==> (#[trigger] old(self).mem()[i]) is None,
        ensures
            final(self).vlen() == old(self).vlen(),
            final(self).mem().len() == old(self).mem().len(),
            forall|i: int| 0 <= i < old(self).mem().len() ==> #[trigger] final(self).mem()[i]
                == (if b <= i < b + n { old(self).mem()[i - b + a] } else if a <= i < a + n { None } else { old(self).mem()[i] }),
    { unimplemented!() }
    /// slice::from_raw_parts(p.add(i), n)
    #[verifier::external_body]
    fn slot_slice<'b>(&'b self, i: usize, n: usize) -> (r: &'b [T])
        requires i + n <= self.mem().len(), forall|j: int| i <= j < i + n ==> (#[trigger] self.mem()[j]) is Some,
        ensures r@.len() == n, forall|j: int| 0 <= j < n ==> Some(#[trigger] r@[j]) == self.mem()[i + j],
    { unimplemented!() }
    /// slice::from_raw_parts_mut(p.add(i), n): the caller chooses the lifetime, so the slots are
    /// counted as handed out (no live value here) and cannot be handed out twice
    #[verifier::external_body]
    fn slot_slice_mut<'b>(&mut self, i: usize, n: usize) -> (r: &'b mut [T])
        requires i + n <= old(self).mem().len(), forall|j: int| i <= j < i + n ==> (#[trigger] old(self).mem()[j]) is Some,
        ensures
            r@.len() == n, forall|j: int| 0 <= j < n ==> Some(#[trigger] r@[j]) == old(self).mem()[i + j],
            final(self).vlen() == old(self).vlen(),
            final(self).mem().len() == old(self).mem().len(),
            forall|j: int| 0 <= j < old(self).mem().len() ==> #[trigger] final(self).mem()[j]
                == (if i <= j < i + n { None } else { old(self).mem()[j] }),
    { unimplemented!() }
    /// &mut vec[..]
    #[verifier::external_body]
    fn v_as_mut<'b>(&'b mut self) -> (r: &'b mut [T])
        requires old(self).full(),
        ensures
            r@ == old(self).vals(),
            final(self).vlen() == old(self).vlen(),
            final(self).full(),
            final(self).vals() == final(r)@,
    { unimplemented!() }
}
/// Vec::as_mut_ptr, kept by a closure that turns its offsets into references: the cells are the
/// element places of the vector, one each
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct SlotCells<'a, T> { p: *mut T, x: core::marker::PhantomData<&'a mut T> }
impl<'a, T> SlotCells<'a, T> {
    uninterp spec fn cells(&self) -> Seq<Option<&'a mut T>>;
    /// &mut *p.add(i)
    #[verifier::external_body]
    fn cell(&self, i: usize) -> (r: &'a mut T)
        requires i < self.cells().len(), self.cells()[i as int] is Some,
        ensures Some(r) == self.cells()[i as int],
    { unimplemented!() }
}
impl<T> SlotVec<T> {
    #[verifier::external_body]
    fn slot_cells<'b>(&'b mut self) -> (r: SlotCells<'b, T>)
        ensures
            r.cells().len() == old(self).mem().len(),
            forall|i: int| #![trigger r.cells()[i]] #![trigger final(self).mem()[i]] 0 <= i < old(self).mem().len() ==> match r.cells()[i] {
                Some(x) => old(self).mem()[i] == Some(*x) && final(self).mem()[i] == Some(*final(x)),
                None => old(self).mem()[i] is None && final(self).mem()[i] is None,
            },
            final(self).mem().len() == old(self).mem().len(),
            final(self).vlen() == old(self).vlen(),
    { unimplemented!() }
}

#[verifier::external_body]
fn v_needs_drop<T>() -> (r: bool)
    ensures r == drop_matters::<T>(),
{ unimplemented!() }

// ---- bit_vec::BitVec: a sequence of booleans
#[verifier::external_body]
pub struct BitVec { x: Vec<bool> }
impl BitVec {
    pub uninterp spec fn view(&self) -> Seq<bool>;
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@.len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: Self)
        ensures r@.len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    fn from_elem(n: usize, b: bool) -> (r: Self)
        ensures r@ == Seq::new(n as nat, |i: int| b),
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, b: bool)
        ensures final(self)@ == old(self)@.push(b),
    { unimplemented!() }
    #[verifier::external_body]
    fn pop(&mut self) -> (r: Option<bool>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    fn set(&mut self, i: usize, b: bool)
        requires i < old(self)@.len(),
        ensures final(self)@ == old(self)@.update(i as int, b),
    { unimplemented!() }
    #[verifier::external_body]
    fn truncate(&mut self, n: usize)
        ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    fn reserve(&mut self, n: usize)
        ensures final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    fn v_iter(&self) -> (r: VIter<bool>)
        ensures r@ == self@, self@.len() <= usize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures r@ == self@,
    { unimplemented!() }
    /// self[i] in range
    #[verifier::external_body]
    fn bit_get(&self, i: usize) -> (r: bool)
        requires i < self@.len(),
        ensures r == self@[i as int],
    { unimplemented!() }
    /// self[i] when it may be out of range: it panics then, so it returns only in range
    #[verifier::external_body]
    fn bit_get_or_panic(&self, i: usize) -> (r: bool)
        ensures i < self@.len(), r == self@[i as int],
    { unimplemented!() }
}

trait VBounds: Sized {
    spec fn lo(&self) -> std::ops::Bound<usize>;
    spec fn hi(&self) -> std::ops::Bound<usize>;
    fn v_start_bound(&self) -> (r: std::ops::Bound<&usize>)
        ensures vbound(r) == self.lo();
    fn v_end_bound(&self) -> (r: std::ops::Bound<&usize>)
        ensures vbound(r) == self.hi();
}
spec fn vbound(b: std::ops::Bound<&usize>) -> std::ops::Bound<usize> {
    match b { std::ops::Bound::Included(x) => std::ops::Bound::Included(*x), std::ops::Bound::Excluded(x) => std::ops::Bound::Excluded(*x), std::ops::Bound::Unbounded => std::ops::Bound::Unbounded }
}
pub assume_specification<Idx: Clone> [<std::ops::Range<Idx> as Clone>::clone] (s: &std::ops::Range<Idx>) -> (r: std::ops::Range<Idx>)
    ensures vstd::pervasive::cloned(s.start, r.start), vstd::pervasive::cloned(s.end, r.end);

/// the present values, in order
spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) }
    }
}
impl<X> VIter<X> {
    #[verifier::external_body]
    fn flat_map<Y, F: Fn(X) -> Option<Y>>(self, f: F) -> (r: VIter<Y>)
        requires
            forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            exists|os: Seq<Option<Y>>| r@ == somes(os) && os.len() == self@.len()
                && forall|i: int| 0 <= i < os.len() ==> f.ensures((self@[i],), #[trigger] os[i]),
    { unimplemented!() }
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>))
    { unimplemented!() }
}
