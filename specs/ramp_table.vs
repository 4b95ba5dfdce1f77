%%% file trellis/src/ramp_table.rs
%%% item RampTable #[verifier::reject_recursive_types(T)]

%%% text
spec fn idx_wf(index: Seq<u32>, nvalues: int) -> bool {
    &&& index.len() >= 1
    &&& index[0] == 0
    &&& forall|i: int, j: int| 0 <= i <= j < index.len() ==> index[i] <= index[j]
    &&& forall|i: int| 0 <= i < index.len() ==> #[trigger] index[i] <= nvalues
}
impl<T> RampTable<T> {
    /// representation invariant
    spec fn wf(&self) -> bool { idx_wf(self.index@, self.values@.len() as int) }
    spec fn nk(&self) -> int { self.index@.len() - 1 }
    /// the values of key i
    spec fn ent(&self, i: int) -> Seq<T> { self.values@.subrange(self.index@[i] as int, self.index@[i + 1] as int) }
    /// abstract view: the list of entries, and the values not owned by a key
    spec fn ents(&self) -> Seq<Seq<T>> { Seq::new(self.nk() as nat, |i: int| self.ent(i)) }
    spec fn unowned(&self) -> Seq<T> { self.values@.skip(self.index@.last() as int) }
}

%%% fn RampTable::default
%% contract
    ensures r.wf(), r.ents() =~= Seq::<Seq<T>>::empty(), r.unowned() =~= Seq::<T>::empty(), r.values@.len() == 0,
%%% fn RampTable::new
%% contract
    ensures r.wf(), r.ents() =~= Seq::<Seq<T>>::empty(), r.unowned() =~= Seq::<T>::empty(), r.values@.len() == 0, r.nk() == 0,
%%% fn RampTable::with_capacity
%% contract
    requires keys_capacity < usize::MAX,
    ensures r.wf(), r.ents() =~= Seq::<Seq<T>>::empty(), r.unowned() =~= Seq::<T>::empty(), r.values@.len() == 0, r.nk() == 0,
%%% fn RampTable::is_empty
%% contract
    requires self.wf(),
    ensures r == (self.nk() == 0),
%%% fn RampTable::len
%% contract
    requires self.wf(),
    ensures r == self.nk(),
%%% fn RampTable::num_keys
%% contract
    requires self.wf(),
    ensures r == self.nk(),
%%% fn RampTable::num_values
%% contract
    ensures r == self.values@.len(),
%%% fn RampTable::push_value
%% contract
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).ents() =~~= old(self).ents(),
        final(self).unowned() =~= old(self).unowned().push(value),
        final(self).index@ == old(self).index@,
        final(self).values@ == old(self).values@.push(value),
%%% fn RampTable::finish_key
%% contract
    requires old(self).wf(), old(self).values@.len() <= u32::MAX,
    ensures
        final(self).wf(),
        r == old(self).nk(),
        final(self).ents() =~~= old(self).ents().push(old(self).unowned()),
        final(self).unowned() =~= Seq::<T>::empty(),
        final(self).index@ == old(self).index@.push(old(self).values@.len() as u32),
        final(self).values@ == old(self).values@,
%%% fn RampTable::clear
%% contract
    ensures final(self).wf(), final(self).ents() =~= Seq::<Seq<T>>::empty(), final(self).unowned() =~= Seq::<T>::empty(),
%%% fn RampTable::entry_values_range
%% contract
    requires self.wf(), index < self.nk(),
    ensures r.start == self.index@[index as int], r.end == self.index@[index + 1], r.start <= r.end <= self.values@.len(),
%% at body.start
    assert(self.index.len() == self.index@.len());
%%% fn RampTable::entry_values
%% contract
    requires self.wf(), index < self.nk(),
    ensures r@ == self.ents()[index as int], r@ == self.ent(index as int),
%%% fn RampTable::index as op_index
%% contract
    requires self.wf(), i < self.nk(),
    ensures r@ == self.ents()[i as int],
%%% fn RampTable::all_values
%% contract
    ensures r@ == self.values@,
%%% fn RampTable::push_entry_copy
%% contract
    requires old(self).wf(), old(self).values@.len() + values@.len() <= u32::MAX,
    ensures
        final(self).wf(),
        final(self).ents() =~~= old(self).ents().push(old(self).unowned() + values@),
        final(self).unowned() =~= Seq::<T>::empty(),
%%% fn RampTable::push_entry_clone
%% contract
    requires old(self).wf(), old(self).values@.len() + values@.len() <= u32::MAX,
    ensures
        final(self).wf(),
        final(self).nk() == old(self).nk() + 1,
        forall|i: int| 0 <= i < old(self).nk() ==> final(self).ents()[i] =~= #[trigger] old(self).ents()[i],
        final(self).ents().last().len() == old(self).unowned().len() + values@.len(),
        forall|i: int| 0 <= i < old(self).unowned().len() ==> final(self).ents().last()[i] == #[trigger] old(self).unowned()[i],
        forall|i: int| 0 <= i < values@.len() ==> cloned(#[trigger] values@[i], final(self).ents().last()[old(self).unowned().len() + i]),
        final(self).unowned() =~= Seq::<T>::empty(),
%%% fn RampTable::push_entry_extend
%% contract
    requires old(self).wf(), old(self).values@.len() + values@.len() <= u32::MAX,
    ensures
        final(self).wf(),
        final(self).ents() =~~= old(self).ents().push(old(self).unowned() + values@),
        final(self).unowned() =~= Seq::<T>::empty(),
