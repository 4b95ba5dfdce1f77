%%% file trellis/src/ramp_table.rs
%%% item RampTableBuilder #[verifier::reject_recursive_types(T)]
%%% text
/// the values pushed with key k, in push order
spec fn vals_of<T>(items: Seq<(u32, T)>, k: int) -> Seq<T>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() }
    else if items.last().0 == k { vals_of(items.drop_last(), k).push(items.last().1) }
    else { vals_of(items.drop_last(), k) }
}
/// one more than the greatest key, 0 if there is none
spec fn keys_of<T>(items: Seq<(u32, T)>) -> int
    decreases items.len(),
{
    if items.len() == 0 { 0 } else {
        let m = keys_of(items.drop_last());
        if items.last().0 + 1 > m { items.last().0 + 1 } else { m }
    }
}
proof fn lemma_keys_of<T>(items: Seq<(u32, T)>)
    ensures
        keys_of(items) >= 0,
        forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).0 < keys_of(items),
        items.len() > 0 ==> exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 + 1 == keys_of(items),
    decreases items.len(),
{
    if items.len() > 0 {
        let d = items.drop_last();
        lemma_keys_of(d);
        assert forall|i: int| 0 <= i < items.len() implies (#[trigger] items[i]).0 < keys_of(items) by {
            if i < d.len() { assert(items[i] == d[i]); }
        }
        if items.last().0 + 1 > keys_of(d) {
            assert(items[items.len() - 1].0 + 1 == keys_of(items));
        } else {
            let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 + 1 == keys_of(d);
            assert(items[i] == d[i]);
        }
    }
}
spec fn key_of<T>() -> spec_fn((u32, T)) -> int { |x: (u32, T)| x.0 as int }
proof fn lemma_filter_vals<T>(items: Seq<(u32, T)>, k: int)
    ensures
        vals_of(items, k).len() == pick(items, key_of(), k).len(),
        forall|i: int| 0 <= i < vals_of(items, k).len() ==> #[trigger] vals_of(items, k)[i] == pick(items, key_of(), k)[i].1,
    decreases items.len(),
{
    reveal(Seq::filter);
    if items.len() > 0 { lemma_filter_vals(items.drop_last(), k); }
}
proof fn lemma_vals_empty<T>(items: Seq<(u32, T)>, k: int)
    requires forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).0 != k,
    ensures vals_of(items, k) == Seq::<T>::empty(),
    decreases items.len(),
{
    if items.len() > 0 {
        assert(items.last() == items[items.len() - 1]);
        let d = items.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 != k by { assert(d[i] == items[i]); }
        lemma_vals_empty(d, k);
    }
}
/// sorting: same values per key, same number of keys
proof fn lemma_sorted_same<T>(a: Seq<(u32, T)>, b: Seq<(u32, T)>)
    requires
        a.len() == b.len(),
        forall|k: int| #[trigger] pick(b, key_of(), k) == pick(a, key_of(), k),
    ensures
        forall|k: int| #[trigger] vals_of(b, k) == vals_of(a, k),
        keys_of(a) == keys_of(b),
{
    assert forall|k: int| #[trigger] vals_of(b, k) == vals_of(a, k) by {
        lemma_filter_vals(a, k);
        lemma_filter_vals(b, k);
        assert(vals_of(b, k) =~= vals_of(a, k));
    }
    lemma_keys_of(a);
    lemma_keys_of(b);
    lemma_key_in(a, b);
    lemma_key_in(b, a);
}
proof fn lemma_vals_nonempty<T>(items: Seq<(u32, T)>, i: int)
    requires 0 <= i < items.len(),
    ensures vals_of(items, items[i].0 as int).len() > 0,
    decreases items.len(),
{
    if i < items.len() - 1 {
        assert(items.drop_last()[i] == items[i]);
        lemma_vals_nonempty(items.drop_last(), i);
    }
}
proof fn lemma_key_in<T>(a: Seq<(u32, T)>, b: Seq<(u32, T)>)
    requires forall|k: int| #[trigger] vals_of(b, k) == vals_of(a, k),
    ensures keys_of(a) <= keys_of(b),
{
    lemma_keys_of(a);
    lemma_keys_of(b);
    if a.len() > 0 {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 + 1 == keys_of(a);
        lemma_vals_nonempty(a, i);
        if keys_of(b) < keys_of(a) {
            assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]).0 != a[i].0 by {}
            lemma_vals_empty(b, a[i].0 as int);
            assert(vals_of(b, a[i].0 as int) == vals_of(a, a[i].0 as int));
        }
    }
}
proof fn lemma_stable<T>(a: Seq<(u32, T)>, b: Seq<(u32, T)>)
    requires stable_by(a, b, key_of()),
    ensures
        b.len() == a.len(),
        forall|i: int, j: int| 0 <= i <= j < b.len() ==> (#[trigger] b[i]).0 <= (#[trigger] b[j]).0,
        forall|k: int| #[trigger] vals_of(b, k) == vals_of(a, k),
        keys_of(a) == keys_of(b),
{
    assert forall|i: int, j: int| 0 <= i <= j < b.len() implies (#[trigger] b[i]).0 <= (#[trigger] b[j]).0 by {
        assert(key_of()(b[i]) <= key_of()(b[j]));
    }
    lemma_sorted_same(a, b);
}
/// the table holds the values of the first n of the sorted items; keys below nk are closed
spec fn build_inv<T>(t: &RampTable<T>, items: Seq<(u32, T)>, n: int) -> bool {
    &&& t.wf()
    &&& t.values@.len() == n
    &&& t.unowned() =~= vals_of(items.take(n), t.nk())
    &&& forall|k: int| 0 <= k < t.nk() ==> #[trigger] t.ents()[k] =~= vals_of(items.take(n), k)
}


proof fn lemma_step<T>(items: Seq<(u32, T)>, n: int)
    requires 0 < n <= items.len(),
    ensures
        forall|k: int| #[trigger] vals_of(items.take(n), k) == (if items[n - 1].0 == k { vals_of(items.take(n - 1), k).push(items[n - 1].1) } else { vals_of(items.take(n - 1), k) }),
{
    assert(items.take(n).drop_last() =~= items.take(n - 1));
}

%%% fn RampTableBuilder::new
%% contract
    ensures r.items@ =~= Seq::<(u32, T)>::empty(),
%%% fn RampTableBuilder::with_capacity
%% contract
    ensures r.items@ =~= Seq::<(u32, T)>::empty(),
%%% fn RampTableBuilder::push
%% contract
    ensures final(self).items@ == old(self).items@.push((key, value)),
%%% fn RampTableBuilder::extend
%% contract
    ensures final(self).items@ == old(self).items@ + iter@,
%%% fn RampTableBuilder::finish
%% contract
    requires
        self.items@.len() <= u32::MAX,
        keys_of(self.items@) < usize::MAX,
    ensures
        r.wf(),
        r.nk() == keys_of(self.items@),
        r.unowned() =~= Seq::<T>::empty(),
        forall|k: int| 0 <= k < r.nk() ==> #[trigger] r.ents()[k] =~= vals_of(self.items@, k),
%% closure 0
|__c0_0: &(u32, T)| -> (o: u32)
    ensures o == __c0_0.0,
%% at before sort_by_key#0
    let ghost unsorted = items;
%% at after sort_by_key#0
    proof {
        assert(items.vs() == items@ && unsorted.vs() == unsorted@);
        assert(stable_by(self.items@, items@, key_of::<T>()));
        lemma_stable(self.items@, items@);
        lemma_keys_of(items@);
    }
%% loop 0
    invariant
        build_inv(&table, vs0, vk0),
        table.nk() == (if vk0 == 0 { 0int } else { vs0[vk0 - 1].0 as int }),
%% loop 1
    invariant
        build_inv(&table, vs0, vk0 - 1),
        vk0 > 1 ==> vs0[vk0 - 2].0 <= table.nk(),
        table.nk() <= key,
    decreases key - table.nk(),
%% at loop1.end
    proof { lemma_vals_empty(vs0.take(vk0 - 1), table.nk()); }
%% at loop0.end
    proof {
        lemma_step(vs0, vk0);
    }
%% loop 2
    invariant
        build_inv(&table, vs0, vs0.len() as int),
        vs0.last().0 <= table.nk() <= num_keys,
    decreases num_keys - table.nk(),
%% at loop2.end
    proof { lemma_vals_empty(vs0.take(vs0.len() as int), table.nk()); }
%% at body.end
    proof {
        assert(vs0.take(vs0.len() as int) =~= vs0);
        if table.nk() == keys_of(vs0) { lemma_vals_empty(vs0, table.nk()); }
    }
