%%% file trellis/src/vec_option.rs
%%% item VecOption #[verifier::reject_recursive_types(T)] | Vec < => SlotVec <
%%% item IntoIter #[verifier::reject_recursive_types(T)]
%%% item IntoSomeIter #[verifier::reject_recursive_types(T)]
%%% text
impl<T> VecOption<T> {
    /// representation invariant: a slot holds a live value exactly when it is marked present
    spec fn wf(&self) -> bool {
        &&& self.vec.room()
        &&& self.vec.tail_free()
        &&& self.vec.vlen() == self.present@.len()
        &&& forall|i: int| 0 <= i < self.vec.vlen() ==> ((#[trigger] self.vec.mem()[i]) is Some <==> self.present@[i])
    }
    /// the plain vector of optional values it stands for
    spec fn view(&self) -> Seq<Option<T>> { self.vec.mem().take(self.vec.vlen()) }
}
%%% fn VecOption::new
%% opt subst Vec :: => SlotVec ::
%% contract
    ensures r.wf(), r@ =~= Seq::<Option<T>>::empty(),
%%% fn VecOption::with_capacity
%% opt subst Vec :: => SlotVec ::
%% contract
    ensures r.wf(), r@ =~= Seq::<Option<T>>::empty(),
%%% fn VecOption::from_vec
%% opt subst Vec < => SlotVec <
%% contract
    requires vec.full(),
    ensures r.wf(), r@.len() == vec.vals().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == Some(vec.vals()[i]),
%%% fn VecOption::new_repeat_none
%% opt subst Vec :: => SlotVec ::
%% opt subst Vec < => SlotVec <
%% contract
    ensures r.wf(), r@ =~= Seq::new(len as nat, |i: int| None::<T>),
%%% fn VecOption::len
%% contract
    requires self.wf(),
    ensures r == self@.len(),
%%% fn VecOption::is_empty
%% contract
    requires self.wf(),
    ensures r == (self@.len() == 0),
%%% fn VecOption::get_ref
%% opt index-get present bit_get
%% contract
    requires old(self).wf(), index < old(self)@.len(),
    ensures
        *final(self) == *old(self),
        old(self)@[index as int] is None ==> r is None,
        old(self)@[index as int] matches Some(v) ==> r matches Some(x) && *x == v,
%%% fn VecOption::get_mut
%% opt index-get present bit_get
%% contract
    requires old(self).wf(), index < old(self)@.len(),
    ensures
        old(self)@[index as int] is None ==> r is None && *final(self) == *old(self),
        old(self)@[index as int] matches Some(v) ==> (r matches Some(x) && *x == v && final(self).wf()
            && final(self)@ =~= old(self)@.update(index as int, Some(*final(x)))),
%%% fn VecOption::get_copy
%% contract
    requires old(self).wf(), index < old(self)@.len(),
    ensures *final(self) == *old(self), r == old(self)@[index as int],
%% closure 0
|__c0_0: &T| -> (o: T)
    ensures o == *__c0_0,
%%% fn VecOption::get_clone
%% contract
    requires old(self).wf(), index < old(self)@.len(),
    ensures
        *final(self) == *old(self),
        old(self)@[index as int] is None ==> r is None,
        old(self)@[index as int] matches Some(v) ==> (r matches Some(x) && cloned(v, x)),
%% closure 0
|__c0_0: &T| -> (o: T)
    ensures cloned(*__c0_0, o),
%%% fn VecOption::replace
%% contract
    requires old(self).wf(), index < old(self)@.len(),
    ensures final(self).wf(), r == old(self)@[index as int], final(self)@ =~= old(self)@.update(index as int, value),
%%% fn VecOption::replace_some
%% opt index-get present bit_get
%% contract
    requires old(self).wf(), index < old(self)@.len(),
    ensures final(self).wf(), r == old(self)@[index as int], final(self)@ =~= old(self)@.update(index as int, Some(value)),
%% at after let:old_value#0
    let ghost mid = self@;
    proof { assert forall|j: int| 0 <= j < mid.len() && j != index implies #[trigger] mid[j] == old(self)@[j] by {} }
%% at body.result
    proof { assert forall|j: int| 0 <= j < mid.len() && j != index implies #[trigger] self@[j] == old(self)@[j] by { assert(mid[j] == old(self)@[j]); } }
%%% fn VecOption::replace_none
%% opt index-get present bit_get
%% contract
    requires old(self).wf(), index < old(self)@.len(),
    ensures final(self).wf(), r == old(self)@[index as int], final(self)@ =~= old(self)@.update(index as int, None),
        !final(self).present@[index as int], final(self).vec.mem()[index as int] is None,
%%% fn VecOption::set
%% contract
    requires old(self).wf(), index < old(self)@.len(),
    ensures final(self).wf(), final(self)@ =~= old(self)@.update(index as int, value),
%%% fn VecOption::set_some
%% contract
    requires old(self).wf(), index < old(self)@.len(),
    ensures final(self).wf(), final(self)@ =~= old(self)@.update(index as int, Some(value)),
%%% fn VecOption::set_none
%% contract
    requires old(self).wf(), index < old(self)@.len(),
    ensures final(self).wf(), final(self)@ =~= old(self)@.update(index as int, None),
%%% fn VecOption::swap
%% contract
    requires old(self).wf(), a < old(self)@.len(), b < old(self)@.len(),
    ensures final(self).wf(), final(self)@ =~= old(self)@.update(a as int, old(self)@[b as int]).update(b as int, old(self)@[a as int]),
%%% fn VecOption::push
%% contract
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ =~= old(self)@.push(value),
%%% fn VecOption::push_some
%% contract
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ =~= old(self)@.push(Some(value)),
%%% fn VecOption::push_none
%% contract
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ =~= old(self)@.push(None),
%%% fn VecOption::reserve
%% contract
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ =~= old(self)@,
%%% fn VecOption::pop
%% contract
    requires old(self).wf(),
    ensures
        final(self).wf(),
        old(self)@.len() == 0 ==> r is None && final(self)@ =~= old(self)@,
        old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ =~= old(self)@.drop_last(),
%%% text
/// what popping the last present value does to a plain vector of optional values
spec fn pop_some_of<T>(s: Seq<Option<T>>) -> (Option<T>, Seq<Option<T>>)
    decreases s.len(),
{
    if s.len() == 0 { (None, s) } else if s.last() is Some { (s.last(), s.drop_last()) } else { pop_some_of(s.drop_last()) }
}
%%% fn VecOption::pop_some
%% contract
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r == pop_some_of(old(self)@).0,
        final(self)@ == pop_some_of(old(self)@).1,
%% loop 0
    invariant
        self.wf(),
        pop_some_of(self@) == pop_some_of(old(self)@),
    ensures
        self@.len() == 0,
    decreases self@.len(),
%%% fn VecOption::into_some_iter
%% contract
    requires self.wf(),
    ensures r.vec == self, r.next == 0,
%%% fn VecOption::into_iter
%% contract
    requires self.wf(),
    ensures r.vec == self, r.next == 0,
%%% text
// The same functions called with an index that may be out of range: they still never touch a slot
// outside the vector or an absent one, and they return only if the index was in range.
%%% fn VecOption::get_ref#oob as get_ref_oob
%% opt index-get present bit_get_or_panic
%% contract
    requires old(self).wf(),
    ensures index < old(self)@.len(),
%%% fn VecOption::get_mut#oob as get_mut_oob
%% opt index-get present bit_get_or_panic
%% contract
    requires old(self).wf(),
    ensures index < old(self)@.len(),
%%% fn VecOption::replace_some#oob as replace_some_oob
%% opt subst self . replace_none ( => self . replace_none_oob (
%% opt index-get present bit_get_or_panic
%% contract
    requires old(self).wf(),
    ensures index < old(self)@.len(),
%%% fn VecOption::replace_none#oob as replace_none_oob
%% opt index-get present bit_get_or_panic
%% contract
    requires old(self).wf(),
    ensures index < old(self)@.len(), final(self).wf(), final(self)@ =~= old(self)@.update(index as int, None),
        !final(self).present@[index as int], final(self).vec.mem()[index as int] is None,
%%% fn VecOption::get_copy#oob as get_copy_oob
%% opt subst self . get_ref ( => self . get_ref_oob (
%% contract
    requires old(self).wf(),
    ensures index < old(self)@.len(),
%% closure 0
|__c0_0: &T| -> (o: T)
    ensures o == *__c0_0,
%%% fn VecOption::get_clone#oob as get_clone_oob
%% opt subst self . get_ref ( => self . get_ref_oob (
%% contract
    requires old(self).wf(),
    ensures index < old(self)@.len(),
%%% fn VecOption::replace#oob as replace_oob
%% opt subst self . replace_some ( => self . replace_some_oob (
%% opt subst self . replace_none ( => self . replace_none_oob (
%% contract
    requires old(self).wf(),
    ensures index < old(self)@.len(),
%%% fn VecOption::set#oob as set_oob
%% opt subst self . replace ( => self . replace_oob (
%% contract
    requires old(self).wf(),
    ensures index < old(self)@.len(),
%%% fn VecOption::set_some#oob as set_some_oob
%% opt subst self . replace_some ( => self . replace_some_oob (
%% contract
    requires old(self).wf(),
    ensures index < old(self)@.len(),
%%% fn VecOption::set_none#oob as set_none_oob
%% opt subst self . replace_none ( => self . replace_none_oob (
%% contract
    requires old(self).wf(),
    ensures index < old(self)@.len(),
%%% fn VecOption::swap#oob as swap_oob
%% opt subst vassert => vassert_returns
%% contract
    requires old(self).wf(),
    ensures a < old(self)@.len(), b < old(self)@.len(),
