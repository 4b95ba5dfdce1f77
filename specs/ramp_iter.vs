%%% file trellis/src/ramp_table.rs
%%% item RampTable::iter_pairs_manual/Pairs #[verifier::reject_recursive_types(T)]

%%% text
impl<T> RampTable<T> {
    /// `s` lists the owned (key, value) pairs of the table, in storage order
    spec fn pairs_ok<'a>(&self, s: Seq<(usize, &'a T)>, n: int) -> bool {
        &&& s.len() == self.index@[n]
        &&& forall|j: int| 0 <= j < s.len() ==> {
            &&& (#[trigger] s[j]).0 < n
            &&& self.index@[s[j].0 as int] <= j < self.index@[s[j].0 + 1]
            &&& *s[j].1 == self.values@[j]
        }
    }
}
proof fn lemma_flat_pairs<'a, T>(t: RampTable<T>, ss: Seq<VIter<(usize, &'a T)>>)
    requires
        t.wf(),
        ss.len() <= t.nk(),
        forall|i: int| 0 <= i < ss.len() ==> {
            &&& (#[trigger] ss[i])@.len() == t.index@[i + 1] - t.index@[i]
            &&& forall|j: int| 0 <= j < ss[i]@.len() ==> (#[trigger] ss[i]@[j]).0 == i && *ss[i]@[j].1 == t.values@[t.index@[i] + j]
        },
    ensures
        t.pairs_ok(flat(ss), ss.len() as int),
    decreases ss.len(),
{
    reveal_with_fuel(flat, 2);
    if ss.len() > 0 {
        let d = ss.drop_last();
        let n = ss.len() - 1;
        assert forall|i: int| 0 <= i < d.len() implies {
            &&& (#[trigger] d[i])@.len() == t.index@[i + 1] - t.index@[i]
            &&& forall|j: int| 0 <= j < d[i]@.len() ==> (#[trigger] d[i]@[j]).0 == i && *d[i]@[j].1 == t.values@[t.index@[i] + j]
        } by {
            assert(d[i] == ss[i]);
        }
        lemma_flat_pairs(t, d);
        let s = flat(ss);
        let l = ss[n]@;
        assert(s =~= flat(d) + l);
        assert forall|j: int| 0 <= j < s.len() implies {
            &&& (#[trigger] s[j]).0 < n + 1
            &&& t.index@[s[j].0 as int] <= j < t.index@[s[j].0 + 1]
            &&& *s[j].1 == t.values@[j]
        } by {
            if j < flat(d).len() {
                assert(s[j] == flat(d)[j]);
            } else {
                assert(s[j] == l[j - flat(d).len()]);
            }
        }
    }
}

%%% fn RampTable::iter
%% contract
    requires self.wf(),
    ensures
        r@.len() == self.nk(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.ents()[i],
%% closure 0
|__c0_0: &[u32]| -> (o: &[T])
    requires __c0_0@.len() == 2, __c0_0@[0] <= __c0_0@[1] <= self.values@.len(),
    ensures o@ == self.values@.subrange(__c0_0@[0] as int, __c0_0@[1] as int),
%%% fn RampTable::iter_pairs
%% generics <'a>
%% opt subst (& self) => (&'a self)
%% opt subst & '_ T => &'a T
%% contract
    requires self.wf(),
    ensures self.pairs_ok(r@, self.nk()),
%% closure 0
|__c0_0: (usize, &'a [T])| -> (o: VIter<(usize, &'a T)>)
    ensures o@.len() == __c0_0.1@.len(), forall|j: int| 0 <= j < o@.len() ==> (#[trigger] o@[j]).0 == __c0_0.0 && *o@[j].1 == __c0_0.1@[j],
%% closure 1
|__c1_0: &'a T| -> (o: (usize, &'a T))
    ensures o.0 == i && o.1 == __c1_0,
%% at body.result
    proof {
        let ss = choose|ss: Seq<VIter<(usize, &'a T)>>| res@ == flat(ss) && ss.len() == self.nk()
            && forall|i: int| 0 <= i < ss.len() ==> {
                &&& (#[trigger] ss[i])@.len() == self.index@[i + 1] - self.index@[i]
                &&& forall|j: int| 0 <= j < ss[i]@.len() ==> (#[trigger] ss[i]@[j]).0 == i && *ss[i]@[j].1 == self.values@[self.index@[i] + j]
            };
        lemma_flat_pairs(*self, ss);
    }
%%% text
impl<'a, T> Pairs<'a, T> {
    spec fn keypos(&self, t: &RampTable<T>, pos: int) -> bool {
        &&& t.wf()
        &&& 0 <= pos <= t.values@.len()
        &&& 0 <= self.current_key <= t.nk()
        &&& self.index_iter@.len() == t.nk() - self.current_key
        &&& forall|i: int| 0 <= i < self.index_iter@.len() ==> *(#[trigger] self.index_iter@[i]) == t.index@[self.current_key + 1 + i]
        &&& self.current_index == t.index@[self.current_key as int]
        &&& pos + self.num_values == self.current_index
        &&& self.current_key > 0 ==> t.index@[self.current_key - 1] <= pos
    }
    /// the iterator over `t` with `pos` values already yielded
    spec fn at(&self, t: &RampTable<T>, pos: int) -> bool {
        &&& self.keypos(t, pos)
        &&& self.value_iter@.len() == t.values@.len() - pos
        &&& forall|i: int| 0 <= i < self.value_iter@.len() ==> *(#[trigger] self.value_iter@[i]) == t.values@[pos + i]
    }
    spec fn done(&self) -> bool { self.value_iter@.len() == 0 || (self.num_values == 0 && self.index_iter@.len() == 0) }
}
%%% fn RampTable::iter_pairs_manual/Pairs::next
%% params Ghost(t): Ghost<&RampTable<T>>, Ghost(pos): Ghost<int>
%% contract
    requires old(self).at(t, pos) || old(self).done(),
    ensures
        match r {
            Some((k, v)) => {
                &&& old(self).at(t, pos)
                &&& pos < t.index@.last()
                &&& k < t.nk() && t.index@[k as int] <= pos < t.index@[k + 1]
                &&& *v == t.values@[pos]
                &&& final(self).at(t, pos + 1)
            },
            None => final(self).done() && (old(self).at(t, pos) ==> pos >= t.index@.last()),
        },
        old(self).done() ==> r is None,
%% loop 0
    invariant
        old(self).value_iter@.len() > 0,
        self.value_iter@ == old(self).value_iter@.drop_first(),
        old(self).at(t, pos) ==> self.keypos(t, pos),
        old(self).done() ==> self.num_values == 0 && self.index_iter@.len() == 0,
    decreases self.index_iter@.len(),
%% at loop0.start
    assert(t.index.len() == t.index@.len());
%%% fn RampTable::iter_pairs_manual
%% generics <'a>
%% opt subst (& self) => (&'a self)
%% rettype Pairs<'a, T>
%% contract
    requires self.wf(),
    ensures r.at(self, 0),
