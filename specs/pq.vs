%%% file trellis/src/priority_queue.rs
%%% item PQ #[verifier::reject_recursive_types(T)]
%%% text
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use vstd::multiset::Multiset;
spec fn ge<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
spec fn lt<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
/// the item type's comparison operators are a total preorder (as Ord requires)
#[verifier::opaque]
spec fn total<T: PartialOrd>() -> bool {
    &&& <T as PartialOrdSpec>::obeys_partial_cmp_spec()
    &&& forall|a: T, b: T| #[trigger] lt(a, b) == !ge(a, b)
    &&& forall|a: T, b: T| #[trigger] ge(a, b) || ge(b, a)
    &&& forall|a: T, b: T, c: T| #[trigger] ge(a, b) && #[trigger] ge(b, c) ==> ge(a, c)
}
proof fn ax_lt<T: PartialOrd>(a: T, b: T)
    requires total::<T>(),
    ensures lt(a, b) == !ge(a, b), ge(a, b) || ge(b, a), ge(a, a), <T as PartialOrdSpec>::obeys_partial_cmp_spec(),
{ reveal(total); assert(ge(a, a) || ge(a, a)); }
proof fn ax_tr<T: PartialOrd>(a: T, b: T, c: T)
    requires total::<T>(), ge(a, b), ge(b, c),
    ensures ge(a, c),
{ reveal(total); }
spec fn par(i: int) -> int { (i - 1) / 2 }
/// no item is greater than its parent, except possibly the one at x
spec fn heap_up<T: PartialOrd>(s: Seq<T>, x: int) -> bool { forall|j: int| 1 <= j < s.len() && j != x ==> ge(s[par(j)], #[trigger] s[j]) }
/// ... except possibly the children of x
spec fn heap_down<T: PartialOrd>(s: Seq<T>, x: int) -> bool { forall|j: int| 1 <= j < s.len() && par(j) != x ==> ge(s[par(j)], #[trigger] s[j]) }
/// the children of x are no greater than the parent of x
spec fn skip_ok<T: PartialOrd>(s: Seq<T>, x: int) -> bool { x > 0 ==> forall|j: int| 1 <= j < s.len() && par(j) == x ==> ge(s[par(x)], #[trigger] s[j]) }
spec fn heap<T: PartialOrd>(s: Seq<T>) -> bool { forall|j: int| 1 <= j < s.len() ==> ge(s[par(j)], #[trigger] s[j]) }
spec fn swapped<T>(s: Seq<T>, a: int, b: int) -> Seq<T> { s.update(a, s[b]).update(b, s[a]) }
proof fn lemma_swap_items<T>(s: Seq<T>, a: int, b: int)
    requires 0 <= a < s.len(), 0 <= b < s.len(),
    ensures swapped(s, a, b).to_multiset() == s.to_multiset(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let t = s.update(a, s[b]);
    if a == b {
        assert(swapped(s, a, b) =~= s);
    } else {
        vstd::seq_lib::to_multiset_update(s, a, s[b]);
        vstd::seq_lib::to_multiset_update(t, b, s[a]);
        s.to_multiset_ensures();
        assert(s.to_multiset().contains(s[a])) by { assert(s.contains(s[a])); }
        assert(s.to_multiset().contains(s[b])) by { assert(s.contains(s[b])); }
        assert(swapped(s, a, b).to_multiset() =~= s.to_multiset());
    }
}
proof fn lemma_swap_up<T: PartialOrd>(s: Seq<T>, i: int)
    requires total::<T>(), 0 < i < s.len(), heap_up(s, i), skip_ok(s, i), !ge(s[par(i)], s[i]),
    ensures heap_up(swapped(s, i, par(i)), par(i)), skip_ok(swapped(s, i, par(i)), par(i)),
{
    let p = par(i);
    let t = swapped(s, i, p);
    ax_lt(s[p], s[i]);
    assert forall|j: int| 1 <= j < t.len() && j != p implies ge(t[par(j)], #[trigger] t[j]) by {
        if j == i {
        } else if par(j) == p {
            assert(ge(s[p], s[j]));
            ax_tr(s[i], s[p], s[j]);
        } else if par(j) == i {
            assert(ge(s[p], s[j]));
        } else {
            assert(ge(s[par(j)], s[j]));
        }
    }
    if p > 0 {
        assert(ge(s[par(p)], s[p]));
        assert forall|j: int| 1 <= j < t.len() && par(j) == p implies ge(t[par(p)], #[trigger] t[j]) by {
            if j == i {
            } else {
                assert(ge(s[p], s[j]));
                ax_tr(s[par(p)], s[p], s[j]);
            }
        }
    }
}
/// c is a child of i, no smaller than the other child and greater than i
proof fn lemma_swap_down<T: PartialOrd>(s: Seq<T>, i: int, c: int)
    requires
        total::<T>(), 0 <= i < s.len(), 1 <= c < s.len(), par(c) == i, heap_down(s, i), skip_ok(s, i), lt(s[i], s[c]),
        forall|d: int| 1 <= d < s.len() && par(d) == i ==> ge(s[c], #[trigger] s[d]),
    ensures heap_down(swapped(s, i, c), c), skip_ok(swapped(s, i, c), c),
{
    let t = swapped(s, i, c);
    ax_lt(s[i], s[c]);
    assert forall|j: int| 1 <= j < t.len() && par(j) != c implies ge(t[par(j)], #[trigger] t[j]) by {
        if j == i {
            assert(ge(s[par(i)], s[c]));
        } else if par(j) == i {
            if j != c { assert(ge(s[c], s[j])); }
        } else {
            assert(ge(s[par(j)], s[j]));
        }
    }
    assert forall|j: int| 1 <= j < t.len() && par(j) == c implies ge(t[par(c)], #[trigger] t[j]) by {
        assert(ge(s[c], s[j]));
    }
}
proof fn lemma_root<T: PartialOrd>(s: Seq<T>, j: int)
    requires total::<T>(), heap(s), 0 <= j < s.len(),
    ensures ge(s[0], s[j]),
    decreases j,
{
    if j == 0 {
        ax_lt(s[0], s[0]);
    } else {
        lemma_root(s, par(j));
        assert(ge(s[par(j)], s[j]));
        ax_tr(s[0], s[par(j)], s[j]);
    }
}
impl<T: PartialOrd> PQ<T> {
    /// the items held
    spec fn items(&self) -> Multiset<T> { self.pq@.to_multiset() }
    spec fn wf(&self) -> bool { heap(self.pq@) && self.pq@.len() <= 0x4000_0000_0000_0000 }
}
%%% fn left
%% contract
    requires parent <= 0x4000_0000_0000_0000,
    ensures r == parent * 2 + 1,
%%% fn right
%% contract
    requires parent <= 0x4000_0000_0000_0000,
    ensures r == parent * 2 + 2,
%%% fn parent
%% contract
    requires child >= 1,
    ensures r == par(child as int), r < child,
%%% fn PQ::new
%% contract
    ensures r.wf(), r.items() =~= Multiset::<T>::empty(),
%% at body.result
    proof { res.pq@.to_multiset_ensures(); }
%%% fn PQ::with_capacity
%% contract
    ensures r.wf(), r.items() =~= Multiset::<T>::empty(),
%% at body.result
    proof { res.pq@.to_multiset_ensures(); }
%%% fn PQ::clear
%% contract
    ensures final(self).wf(), final(self).items() =~= Multiset::<T>::empty(),
%% at body.end
    proof { self.pq@.to_multiset_ensures(); }
%%% fn PQ::check
%% contract
    requires total::<T>(), self.wf(),
%% loop 0
    invariant total::<T>(), self.wf(),
%% at loop0.start
    proof { ax_lt(self.pq@[par(i as int)], self.pq@[i as int]); }
%%% fn PQ::insert
%% contract
    requires total::<T>(), old(self).wf(), old(self).pq@.len() < 0x4000_0000_0000_0000,
    ensures final(self).wf(), final(self).items() == old(self).items().insert(item), final(self).pq@.len() == old(self).pq@.len() + 1,
%% loop 0
    invariant
        total::<T>(),
        self.pq@.len() == old(self).pq@.len() + 1, old(self).pq@.len() < 0x4000_0000_0000_0000,
        i < self.pq@.len(),
        heap_up(self.pq@, i as int), skip_ok(self.pq@, i as int),
        self.items() == old(self).items().insert(item),
    ensures
        self.pq@.len() == old(self).pq@.len() + 1,
        heap(self.pq@),
        self.items() == old(self).items().insert(item),
    decreases i,
%% at loop0.before
    proof { old(self).pq@.to_multiset_ensures(); }
%% at after let:parent#0
    proof {
        ax_lt(self.pq@[parent as int], self.pq@[i as int]);
        lemma_swap_items(self.pq@, i as int, parent as int);
        if !ge(self.pq@[parent as int], self.pq@[i as int]) { lemma_swap_up(self.pq@, i as int); }
    }
%%% fn PQ::remove
%% contract
    requires total::<T>(), old(self).wf(),
    ensures
        final(self).wf(),
        match r {
            None => old(self).pq@.len() == 0 && final(self).pq@.len() == 0,
            Some(x) => {
                &&& old(self).items().count(x) > 0
                &&& final(self).items() == old(self).items().remove(x)
                &&& forall|y: T| #[trigger] final(self).items().count(y) > 0 ==> ge(x, y)
            },
        },
%% at body.start
    proof {
        old(self).pq@.to_multiset_ensures();
        assert forall|j: int| 0 <= j < old(self).pq@.len() implies ge(old(self).pq@[0], #[trigger] old(self).pq@[j]) by { lemma_root(old(self).pq@, j); }
    }
%% at if1.then.start
    proof {
        let e = Seq::<T>::empty();
        let x = self.pq@[0];
        e.to_multiset_ensures();
        assert(self.pq@ =~= e.push(x));
        assert(self.pq@.drop_last() =~= e);
        assert(old(self).items().remove(x) =~= e.to_multiset());
        assert(old(self).pq@.contains(x));
    }
%% at loop0.before
    let ghost x = old(self).pq@[0];
    let ghost want = old(self).items().remove(x);
    proof {
        let s0 = old(self).pq@;
        let s1 = swapped(s0, 0, s0.len() - 1);
        lemma_swap_items(s0, 0, s0.len() - 1);
        s1.to_multiset_ensures();
        assert(self.pq@ =~= s1.drop_last());
        assert(s1 =~= self.pq@.push(x));
        self.pq@.to_multiset_ensures();
        assert(self.items() =~= want);
        assert forall|j: int| 1 <= j < self.pq@.len() && par(j) != 0 implies ge(self.pq@[par(j)], #[trigger] self.pq@[j]) by { assert(ge(s0[par(j)], s0[j])); }
    }
%% loop 0
    invariant
        total::<T>(),
        self.pq@.len() == old(self).pq@.len() - 1, 1 <= self.pq@.len() <= 0x4000_0000_0000_0000,
        i < self.pq@.len(),
        heap_down(self.pq@, i as int), skip_ok(self.pq@, i as int),
        self.items() == want,
    ensures
        self.pq@.len() == old(self).pq@.len() - 1,
        heap(self.pq@),
        self.items() == want,
    decreases self.pq@.len() - i,
%% at after let:right#0
    let ghost s = self.pq@;
    proof {
        let (a, b) = (left as int, right as int);
        assert forall|d: int| 1 <= d < s.len() && #[trigger] par(d) == i implies d == a || d == b by {}
        if a < s.len() { ax_lt(s[i as int], s[a]); lemma_swap_items(s, i as int, a); ax_lt(s[a], s[a]); }
        if b < s.len() { ax_lt(s[i as int], s[b]); ax_lt(s[a], s[b]); ax_lt(s[b], s[b]); lemma_swap_items(s, i as int, b); }
        if a < s.len() && lt(s[i as int], s[a]) && !(b < s.len() && lt(s[a], s[b])) { lemma_swap_down(s, i as int, a); }
        if b < s.len() && lt(s[i as int], s[b]) && (ge(s[i as int], s[a]) || lt(s[a], s[b])) {
            ax_lt(s[b], s[i as int]);
            ax_lt(s[b], s[a]);
            if ge(s[i as int], s[a]) { ax_tr(s[b], s[i as int], s[a]); }
            lemma_swap_down(s, i as int, b);
        }
        if b < s.len() && lt(s[a], s[b]) && ge(s[i as int], s[b]) { ax_lt(s[b], s[a]); ax_tr(s[i as int], s[b], s[a]); }
        if b < s.len() && ge(s[i as int], s[a]) && ge(s[a], s[b]) { ax_tr(s[i as int], s[a], s[b]); }
    }
%% at loop0.after
    proof {
        self.pq@.to_multiset_ensures();
        assert forall|y: T| #[trigger] self.items().count(y) > 0 implies ge(x, y) by {
            assert(old(self).pq@.contains(y));
        }
    }
