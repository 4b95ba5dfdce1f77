%%% file trellis/src/ramp_table.rs
%%% item IterMut #[verifier::reject_recursive_types(T)]
%%% text
impl<T> RampTable<T> {
    /// `self` is `o` with the values of key k replaced by `new`
    spec fn only_entry_changed(&self, o: &RampTable<T>, k: int, new: Seq<T>) -> bool {
        &&& self.index@ == o.index@
        &&& self.values@ =~= o.values@.subrange(0, o.index@[k] as int) + new + o.values@.skip(o.index@[k + 1] as int)
    }
}
/// what `only_entry_changed` means for a caller that keeps the length of the slice (a slice cannot change it)
proof fn lemma_only_entry_changed<T>(t: RampTable<T>, o: RampTable<T>, k: int, new: Seq<T>)
    requires o.wf(), 0 <= k < o.nk(), t.only_entry_changed(&o, k, new), new.len() == o.ent(k).len(),
    ensures
        t.wf(), t.nk() == o.nk(),
        t.ents()[k] == new,
        forall|i: int| 0 <= i < o.nk() && i != k ==> t.ents()[i] == #[trigger] o.ents()[i],
        t.unowned() == o.unowned(),
{
    let a = o.index@[k] as int;
    let b = o.index@[k + 1] as int;
    assert(t.values@.len() == o.values@.len());
    assert(t.ents()[k] =~= new);
    assert forall|i: int| 0 <= i < o.nk() && i != k implies t.ents()[i] == #[trigger] o.ents()[i] by {
        assert(i < k ==> o.index@[i + 1] <= a);
        assert(i > k ==> o.index@[i] >= b);
        assert(t.ent(i) =~= o.ent(i));
    }
    assert(t.unowned() =~= o.unowned());
}

%%% fn RampTable::entry_values_mut
%% opt slice-mut-index
%% contract
    requires old(self).wf(), index < old(self).nk(),
    ensures
        r@ == old(self).ents()[index as int],
        final(self).only_entry_changed(old(self), index as int, final(r)@),
%%% fn RampTable::index_mut as op_index_mut
%% contract
    requires old(self).wf(), i < old(self).nk(),
    ensures
        r@ == old(self).ents()[i as int],
        final(self).only_entry_changed(old(self), i as int, final(r)@),
%%% fn RampTable::all_values_mut
%% contract
    ensures
        r@ == old(self).values@,
        final(self).index@ == old(self).index@,
        final(self).values@ == final(r)@,
%%% text
impl<'a, T> IterMut<'a, T> {
    /// k slices of the table (with this index and these values) already yielded
    spec fn at(&self, index: Seq<u32>, values: Seq<T>, k: int) -> bool {
        &&& idx_wf(index, values.len() as int)
        &&& 0 <= k < index.len()
        &&& self.last_index == index[k]
        &&& self.index_iter@.len() == index.len() - 1 - k
        &&& forall|i: int| 0 <= i < self.index_iter@.len() ==> *(#[trigger] self.index_iter@[i]) == index[k + 1 + i]
        &&& self.values@ =~= values.skip(index[k] as int)
    }
}
%%% fn IterMut::next
%% params Ghost(index): Ghost<Seq<u32>>, Ghost(vals): Ghost<Seq<T>>, Ghost(k): Ghost<int>
%% contract
    requires old(self).at(index, vals, k),
    ensures
        match r {
            Some(s) => {
                &&& k < index.len() - 1
                &&& s@ =~= vals.subrange(index[k] as int, index[k + 1] as int)
                &&& final(self).at(index, vals, k + 1)
                &&& final(old(self).values)@ == final(s)@ + final(final(self).values)@
            },
            None => k == index.len() - 1 && final(self).at(index, vals, k) && final(old(self).values)@ == final(final(self).values)@,
        },
%%% fn RampTable::iter_mut
%% contract
    requires old(self).wf(),
    ensures
        r.at(old(self).index@, old(self).values@, 0),
        final(self).index@ == old(self).index@,
        final(self).values@ == final(r.values)@,
