%%% file trellis/src/vec_option.rs
%%% item Drain #[verifier::reject_recursive_types(T)]
%%% item IterRuns #[verifier::reject_recursive_types(T)]
%%% item IterRunsMut #[verifier::reject_recursive_types(T)]
%%% text
spec fn wrap<T>(s: Seq<T>) -> Seq<Option<T>> { Seq::new(s.len(), |i: int| Some(s[i])) }
proof fn lemma_somes_step<T>(s: Seq<Option<T>>, k: int)
    requires 0 <= k < s.len(),
    ensures
        s[k] matches Some(x) ==> somes(s.take(k + 1)) == somes(s.take(k)).push(x),
        s[k] is None ==> somes(s.take(k + 1)) == somes(s.take(k)),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
}
proof fn lemma_somes_len<T>(s: Seq<Option<T>>)
    ensures somes(s).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_somes_len(s.drop_last()); }
}
spec fn bound_lo(b: std::ops::Bound<usize>) -> int {
    match b { std::ops::Bound::Included(x) => x as int, std::ops::Bound::Excluded(x) => x + 1, std::ops::Bound::Unbounded => 0 }
}
spec fn bound_hi(b: std::ops::Bound<usize>, len: int) -> int {
    match b { std::ops::Bound::Included(x) => x + 1, std::ops::Bound::Excluded(x) => x as int, std::ops::Bound::Unbounded => len }
}
%%% fn VecOption::extend
%% contract
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ =~= old(self)@ + iter@,
%% loop 0
    invariant
        self.wf(),
        self@ =~= old(self)@ + iter@.take(vk0),
%%% fn VecOption::from_iter
%% contract
    ensures r.wf(), r@ =~= ii@,
%% loop 0
    invariant
        vec.wf(),
        vec@ =~= ii@.take(vk0),
%%% fn VecOption::compact
%% opt subst & mut self . vec } => self . vec . v_as_mut () }
%% contract
    requires old(self).wf(),
    ensures
        r@ =~= somes(old(self)@),
        final(self).wf(),
        final(self)@ =~= wrap(final(r)@),
%% at body.start
    proof {
        assert(self@.take(self@.len() as int) =~= self@);
        assert(self@.take(0) =~= Seq::empty());
    }
%% loop 0
    invariant
        old(self).wf(),
        self.present == old(self).present,
        self.vec.room(),
        len == self.present@.len(),
        self.vec.vlen() == len,
        self.vec.mem().len() == old(self).vec.mem().len(),
        num_keep <= vk0,
        num_keep == somes(old(self)@.take(vk0)).len(),
        forall|j: int| 0 <= j < num_keep ==> #[trigger] self.vec.mem()[j] == Some(somes(old(self)@.take(vk0))[j]),
        forall|j: int| num_keep <= j < vk0 ==> (#[trigger] self.vec.mem()[j]) is None,
        num_keep == vk0 ==> forall|j: int| 0 <= j < vk0 ==> #[trigger] self.present@[j],
        forall|j: int| vk0 <= j < self.vec.mem().len() ==> #[trigger] self.vec.mem()[j] == old(self).vec.mem()[j],
%% at loop0.start
    proof {
        lemma_somes_step(old(self)@, vk0 - 1);
        lemma_somes_len(old(self)@.take(vk0 - 1));
    }
%% loop 1
    invariant
        self.present@.len() == len,
        forall|j: int| 0 <= j < vk1 ==> self.present@[j],
%% loop 2
    invariant
        self.present@.len() == len,
        forall|j: int| 0 <= j < num_keep ==> self.present@[j],
%%% fn VecOption::some_into_vec
%% opt subst Vec < => SlotVec <
%% opt subst Vec :: => SlotVec ::
%% contract
    requires self.wf(),
    ensures r.full(), r.vals() =~= somes(self@),
%% at after let:new_len#0
    proof {
        assert forall|i: int| 0 <= i < self_.vec.vlen() implies (#[trigger] self_.vec.mem()[i]) == Some(somes(self@)[i]) by {
            assert(self_@[i] == self_.vec.mem()[i]);
        }
    }
%% at body.result
    // nothing is left to the drop of self
    assert(self_.wf() && self_@.len() == 0);
%%% fn VecOption::get_bounds
%% opt subst std :: ops :: RangeBounds < usize > => VBounds
%% contract
    requires
        self.wf(),
        bound_lo(range.lo()) <= bound_hi(range.hi(), self@.len() as int) <= self@.len(),
    ensures
        r.start == bound_lo(range.lo()),
        r.end == bound_hi(range.hi(), self@.len() as int),
%%% fn VecOption::drain
%% opt subst std :: ops :: RangeBounds < usize > => VBounds
%% contract
    requires
        old(self).wf(),
        bound_lo(range.lo()) <= bound_hi(range.hi(), old(self)@.len() as int) <= old(self)@.len(),
    ensures
        r.dwf(),
        r.range.start == bound_lo(range.lo()),
        r.range.end == bound_hi(range.hi(), old(self)@.len() as int),
        r.next == r.range.start,
        *r.vec == *old(self),
        *final(self) == *final(r.vec),
%%% text
impl<'a, T> Drain<'a, T> {
    spec fn dwf(&self) -> bool {
        &&& self.vec.wf()
        &&& self.range.start <= self.next <= self.range.end <= self.vec@.len()
        &&& forall|i: int| self.range.start <= i < self.next ==> (#[trigger] self.vec@[i]) is None
    }
}
%%% fn Drain::next
%% contract
    requires old(self).dwf(),
    ensures
        final(self).dwf(),
        final(self).range == old(self).range,
        *final(final(self).vec) == *final(old(self).vec),
        old(self).next == old(self).range.end ==> r is None && final(self).next == old(self).next && final(self).vec@ == old(self).vec@,
        old(self).next < old(self).range.end ==> r == Some(old(self).vec@[old(self).next as int]) && final(self).next == old(self).next + 1
            && final(self).vec@ =~= old(self).vec@.update(old(self).next as int, None),
%%% fn Drain::drop as v_drop
%% contract
    requires old(self).dwf(),
    ensures
        final(self).vec.wf(),
        final(self).vec@ =~= old(self).vec@.take(old(self).range.start as int) + old(self).vec@.skip(old(self).range.end as int),
        *final(final(self).vec) == *final(old(self).vec),
%% loop 0
    invariant
        self.dwf(),
        self.range == old(self).range,
        *final(self.vec) == *final(old(self).vec),
        self.vec@.len() == old(self).vec@.len(),
        forall|i: int| 0 <= i < self.vec@.len() && !(self.range.start <= i < self.range.end) ==> #[trigger] self.vec@[i] == old(self).vec@[i],
    decreases self.range.end - self.next,
%% at loop0.after
    proof {
        assert forall|i: int| 0 <= i < self.vec@.len() implies #[trigger] self.vec.vec.mem()[i] == self.vec@[i] by {}
    }
%%% fn bitvec_delete_range
%% opt index-get bitvec bit_get
%% contract
    requires range.start <= range.end <= old(bitvec)@.len(),
    ensures final(bitvec)@ =~= old(bitvec)@.take(range.start as int) + old(bitvec)@.skip(range.end as int),
%% loop 0
    invariant
        bitvec@.len() == old(bitvec)@.len(),
        range_len == range.end - range.start,
        forall|j: int| 0 <= j < range.start ==> #[trigger] bitvec@[j] == old(bitvec)@[j],
        forall|j: int| range.start <= j < range.start + vk0 ==> #[trigger] bitvec@[j] == old(bitvec)@[j + range_len],
        forall|j: int| range.start + vk0 <= j < bitvec@.len() ==> #[trigger] bitvec@[j] == old(bitvec)@[j],
%%% fn VecOption::iter
%% contract
    requires self.wf(),
    ensures
        r@.len() == self@.len(),
        forall|i: int| 0 <= i < r@.len() ==> match #[trigger] r@[i] { Some(x) => self@[i] == Some(*x), None => self@[i] is None },
%% closure 0
|__c0_0: (usize, bool)| -> (o: Option<&T>)
    requires __c0_0.0 < self.vec.mem().len(), __c0_0.1 == self.vec.mem()[__c0_0.0 as int] is Some,
    ensures match o { Some(x) => self.vec.mem()[__c0_0.0 as int] == Some(*x), None => self.vec.mem()[__c0_0.0 as int] is None },
%%% fn VecOption::iter_mut
%% contract
    requires old(self).wf(),
    ensures
        r@.len() == old(self)@.len(),
        final(self).wf(), final(self)@.len() == old(self)@.len(),
        // the i-th item is the i-th element, to be written through
        forall|i: int| 0 <= i < r@.len() ==> match #[trigger] r@[i] {
            Some(x) => old(self)@[i] == Some(*x) && final(self)@[i] == Some(*final(x)),
            None => old(self)@[i] is None && final(self)@[i] is None,
        },
%% closure 0
|__c0_0: (usize, bool)| -> (o: Option<&mut T>)
    requires __c0_0.0 < items_ptr.cells().len(), __c0_0.1 == items_ptr.cells()[__c0_0.0 as int] is Some,
    ensures o == items_ptr.cells()[__c0_0.0 as int],
%%% fn VecOption::iter_some_index
%% contract
    requires self.wf(),
    ensures r@ == somes(indexed(self@)),
%% closure 0
|__c0_0: (usize, bool)| -> (o: Option<(usize, &T)>)
    requires __c0_0.0 < self.vec.mem().len(), __c0_0.1 == self.vec.mem()[__c0_0.0 as int] is Some,
    ensures match o { Some(x) => x.0 == __c0_0.0 && self.vec.mem()[__c0_0.0 as int] == Some(*x.1), None => self.vec.mem()[__c0_0.0 as int] is None },
%% at body.result
    proof {
        let os = choose|os: Seq<Option<(usize, &T)>>| res@ == somes(os) && os.len() == self@.len()
            && forall|i: int| 0 <= i < os.len() ==> match #[trigger] os[i] { Some(x) => x.0 == i && self.vec.mem()[i] == Some(*x.1), None => self.vec.mem()[i] is None };
        assert(os =~= indexed(self@));
    }
%%% fn VecOption::iter_some_index_mut
%% contract
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self)@.len() == old(self)@.len(),
        exists|os: Seq<Option<(usize, &mut T)>>| r@ == #[trigger] somes(os) && os.len() == old(self)@.len()
            && forall|i: int| 0 <= i < os.len() ==> match #[trigger] os[i] {
                Some(x) => x.0 == i && old(self)@[i] == Some(*x.1) && final(self)@[i] == Some(*final(x.1)),
                None => old(self)@[i] is None && final(self)@[i] is None,
            },
%% closure 0
|__c0_0: (usize, bool)| -> (o: Option<(usize, &mut T)>)
    requires __c0_0.0 < items_ptr.cells().len(), __c0_0.1 == items_ptr.cells()[__c0_0.0 as int] is Some,
    ensures match o { Some(x) => x.0 == __c0_0.0 && items_ptr.cells()[__c0_0.0 as int] == Some(x.1), None => items_ptr.cells()[__c0_0.0 as int] is None },
%%% text
spec fn indexed<'a, T>(s: Seq<Option<T>>) -> Seq<Option<(usize, &'a T)>> {
    Seq::new(s.len(), |i: int| match s[i] { Some(x) => Some((i as usize, &x)), None => None })
}
/// [a, b) is the first maximal run of present elements at or after k
spec fn is_run(p: Seq<bool>, k: int, a: int, b: int) -> bool {
    &&& k <= a <= b <= p.len()
    &&& forall|i: int| k <= i < a ==> !(#[trigger] p[i])
    &&& forall|i: int| a <= i < b ==> #[trigger] p[i]
    &&& a < p.len() ==> a < b
    &&& b < p.len() ==> !p[b]
}
spec fn presence<T>(s: Seq<Option<T>>) -> Seq<bool> { Seq::new(s.len(), |i: int| s[i] is Some) }
%%% fn find_next_run
%% opt index-get present bit_get
%% contract
    requires search <= present@.len(),
    ensures is_run(present@, search as int, r.start as int, r.end as int),
%% loop 0
    invariant
        search <= next <= present@.len(),
        forall|i: int| search <= i < next ==> !(#[trigger] present@[i]),
    decreases present@.len() - next,
%% loop 1
    invariant
        start <= next <= present@.len(),
        start < present@.len() ==> present@[start as int],
        forall|i: int| start <= i < next ==> #[trigger] present@[i],
    decreases present@.len() - next,
%%% fn VecOption::iter_runs
%% contract
    requires self.wf(),
    ensures r.vec == self, r.next == 0,
%%% fn VecOption::iter_runs_mut
%% contract
    requires old(self).wf(),
    ensures *r.vec == *old(self), r.next == 0, *final(self) == *final(r.vec),
%%% fn IterRuns::next
%% contract
    requires old(self).vec.wf(), old(self).next <= old(self).vec@.len(),
    ensures
        final(self).vec == old(self).vec,
        match r {
            Some(run) => exists|a: int| #[trigger] is_run(presence(old(self).vec@), old(self).next as int, a, final(self).next as int)
                && a < final(self).next && wrap(run@) == old(self).vec@.subrange(a, final(self).next as int),
            None => final(self).next == old(self).vec@.len() && forall|i: int| old(self).next <= i < old(self).vec@.len() ==> (#[trigger] old(self).vec@[i]) is None,
        },
%% at after let:range#0
    proof {
        assert(presence(self.vec@) =~= self.vec.present@);
        assert(is_run(presence(self.vec@), self.next as int, range.start as int, range.end as int));
        assert forall|i: int| 0 <= i < self.vec@.len() implies #[trigger] self.vec.vec.mem()[i] == self.vec@[i] by {}
    }
%% at body.result
    proof {
        let v = old(self).vec@;
        match res {
            Some(run) => {
                assert(wrap(run@) =~= v.subrange(range.start as int, range.end as int));
                assert(is_run(presence(v), old(self).next as int, range.start as int, self.next as int));
            }
            None => { assert forall|i: int| old(self).next <= i < v.len() implies (#[trigger] v[i]) is None by { assert(!presence(v)[i]); } }
        }
    }
%%% fn IterRunsMut::next
%% contract
    requires
        old(self).vec.vec.room(), old(self).vec.vec.vlen() == old(self).vec.present@.len(), old(self).next <= old(self).vec.vec.vlen(),
        // the slots from next on have not been handed out yet
        forall|i: int| old(self).next <= i < old(self).vec.vec.vlen() ==> ((#[trigger] old(self).vec.vec.mem()[i]) is Some <==> old(self).vec.present@[i]),
    ensures
        final(self).vec.vec.room(), final(self).vec.vec.vlen() == final(self).vec.present@.len(), final(self).next <= final(self).vec.vec.vlen(),
        forall|i: int| final(self).next <= i < final(self).vec.vec.vlen() ==> ((#[trigger] final(self).vec.vec.mem()[i]) is Some <==> final(self).vec.present@[i]),
        final(self).vec.present@ == old(self).vec.present@,
        forall|i: int| final(self).next <= i < final(self).vec.vec.vlen() ==> #[trigger] final(self).vec.vec.mem()[i] == old(self).vec.vec.mem()[i],
        match r {
            Some(run) => exists|a: int| #[trigger] is_run(old(self).vec.present@, old(self).next as int, a, final(self).next as int)
                && a < final(self).next && wrap(run@) =~= old(self).vec.vec.mem().subrange(a, final(self).next as int),
            None => final(self).next == old(self).vec.vec.vlen() && forall|i: int| old(self).next <= i < old(self).vec.vec.vlen() ==> !(#[trigger] old(self).vec.present@[i]),
        },
%%% text
impl<T> IntoIter<T> {
    spec fn iwf(&self) -> bool {
        &&& self.vec.wf()
        &&& self.next <= self.vec@.len()
    }
}
impl<T> IntoSomeIter<T> {
    spec fn iwf(&self) -> bool {
        &&& self.vec.wf()
        &&& self.next <= self.vec@.len()
    }
}
%%% fn IntoIter::next
%% contract
    requires old(self).iwf(),
    ensures
        final(self).iwf(),
        old(self).next == old(self).vec@.len() ==> r is None && final(self).vec@ == old(self).vec@ && final(self).next == old(self).next,
        old(self).next < old(self).vec@.len() ==> r == Some(old(self).vec@[old(self).next as int]) && final(self).next == old(self).next + 1
            && final(self).vec@ =~= old(self).vec@.update(old(self).next as int, None),
%%% fn IntoSomeIter::next
%% contract
    requires old(self).iwf(),
    ensures
        final(self).iwf(),
        final(self).vec@.len() == old(self).vec@.len(),
        forall|i: int| old(self).next <= i < final(self).next - 1 ==> (#[trigger] old(self).vec@[i]) is None,
        r is None ==> final(self).next == old(self).vec@.len() && final(self).vec@ =~= old(self).vec@
            && forall|i: int| old(self).next <= i < old(self).vec@.len() ==> (#[trigger] old(self).vec@[i]) is None,
        r is Some ==> old(self).next < final(self).next && r == old(self).vec@[final(self).next - 1]
            && final(self).vec@ =~= old(self).vec@.update(final(self).next - 1, None),
%% loop 0
    invariant
        self.iwf(),
        self.vec@ =~= old(self).vec@,
        old(self).next <= self.next,
        forall|i: int| old(self).next <= i < self.next ==> (#[trigger] old(self).vec@[i]) is None,
    decreases self.vec@.len() - self.next,
%%% fn VecOption::drop as v_drop
%% contract
    requires old(self).wf(),
    ensures
        // every value was dropped, and nothing is left to the drop of the storage
        final(self).vec.vlen() == 0,
        drop_matters::<T>() ==> forall|i: int| 0 <= i < final(self).vec.mem().len() ==> (#[trigger] final(self).vec.mem()[i]) is None,
%% loop 0
    invariant
        old(self).wf(),
        self.vec.room(),
        self.vec.vlen() == 0,
        self.vec.mem().len() == old(self).vec.mem().len(),
        forall|i: int| 0 <= i < vk0 ==> (#[trigger] self.vec.mem()[i]) is None,
        forall|i: int| vk0 <= i < self.vec.mem().len() ==> #[trigger] self.vec.mem()[i] == old(self).vec.mem()[i],
%%% fn VecOption::clone
%% opt subst Vec < => SlotVec <
%% opt subst Vec :: => SlotVec ::
%% contract
    requires self.wf(),
    ensures
        r.wf(),
        r@.len() == self@.len(),
        forall|i: int| 0 <= i < r@.len() ==> match #[trigger] r@[i] { Some(x) => self@[i] is Some && cloned(self@[i]->0, x), None => self@[i] is None },
%% loop 0
    invariant
        self.wf(),
        clone_vec.room(),
        clone_vec.vlen() == 0,
        clone_vec.mem().len() >= self@.len(),
        forall|i: int| 0 <= i < vk0 ==> match #[trigger] clone_vec.mem()[i] { Some(x) => self@[i] is Some && cloned(self@[i]->0, x), None => self@[i] is None },
        forall|i: int| vk0 <= i < clone_vec.mem().len() ==> (#[trigger] clone_vec.mem()[i]) is None,
