%%% file trellis/src/vec_option.rs
%%% text
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use std::hash::Hash;
spec fn opt_eq<T: PartialEq>(a: Option<T>, b: Option<T>) -> bool {
    match (a, b) { (None, None) => true, (Some(x), Some(y)) => x.eq_spec(&y), _ => false }
}
spec fn opt_cmp<T: Ord>(a: Option<T>, b: Option<T>) -> Ordering {
    match (a, b) { (None, None) => Ordering::Equal, (None, Some(_)) => Ordering::Less, (Some(_), None) => Ordering::Greater, (Some(x), Some(y)) => x.cmp_spec(&y) }
}
spec fn opt_pcmp<T: PartialOrd>(a: Option<T>, b: Option<T>) -> Option<Ordering> {
    match (a, b) { (None, None) => Some(Ordering::Equal), (None, Some(_)) => Some(Ordering::Less), (Some(_), None) => Some(Ordering::Greater), (Some(x), Some(y)) => x.partial_cmp_spec(&y) }
}
/// same length, equal elements at every position
spec fn seq_eq<T: PartialEq>(a: Seq<Option<T>>, b: Seq<Option<T>>) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> opt_eq(a[i], b[i])
}
/// the first differing element from position k on
spec fn lex<T: Ord>(a: Seq<Option<T>>, b: Seq<Option<T>>, k: int) -> Ordering
    decreases a.len() - k,
{
    if k >= a.len() { Ordering::Equal } else if opt_cmp(a[k], b[k]) == Ordering::Equal { lex(a, b, k + 1) } else { opt_cmp(a[k], b[k]) }
}
spec fn plex<T: PartialOrd>(a: Seq<Option<T>>, b: Seq<Option<T>>, k: int) -> Option<Ordering>
    decreases a.len() - k,
{
    if k >= a.len() { Some(Ordering::Equal) } else if opt_pcmp(a[k], b[k]) == Some(Ordering::Equal) { plex(a, b, k + 1) } else { opt_pcmp(a[k], b[k]) }
}
/// lengths first, then the first differing element
spec fn seq_cmp<T: Ord>(a: Seq<Option<T>>, b: Seq<Option<T>>) -> Ordering {
    if a.len() < b.len() { Ordering::Less } else if a.len() > b.len() { Ordering::Greater } else { lex(a, b, 0) }
}
spec fn seq_pcmp<T: PartialOrd>(a: Seq<Option<T>>, b: Seq<Option<T>>) -> Option<Ordering> {
    if a.len() < b.len() { Some(Ordering::Less) } else if a.len() > b.len() { Some(Ordering::Greater) } else { plex(a, b, 0) }
}
/// the element type's own comparison is a total order consistent with its equality
spec fn total_order<T: Ord>() -> bool {
    &&& forall|x: T, y: T| (#[trigger] x.cmp_spec(&y) == Ordering::Equal) <==> x.eq_spec(&y)
    &&& forall|x: T, y: T| (#[trigger] x.cmp_spec(&y) == Ordering::Less) <==> y.cmp_spec(&x) == Ordering::Greater
    &&& forall|x: T, y: T| (#[trigger] x.cmp_spec(&y) == Ordering::Equal) <==> y.cmp_spec(&x) == Ordering::Equal
    &&& forall|x: T| #[trigger] x.cmp_spec(&x) == Ordering::Equal
    &&& forall|x: T, y: T, z: T| #![trigger x.cmp_spec(&y), y.cmp_spec(&z)] x.cmp_spec(&y) != Ordering::Greater && y.cmp_spec(&z) != Ordering::Greater ==> {
        &&& x.cmp_spec(&z) != Ordering::Greater
        &&& (x.cmp_spec(&z) == Ordering::Equal <==> x.cmp_spec(&y) == Ordering::Equal && y.cmp_spec(&z) == Ordering::Equal)
    }
}
proof fn lemma_opt<T: Ord>(a: Option<T>, b: Option<T>, c: Option<T>)
    requires total_order::<T>(),
    ensures
        opt_cmp(a, a) == Ordering::Equal,
        (opt_cmp(a, b) == Ordering::Equal) == opt_eq(a, b),
        (opt_cmp(a, b) == Ordering::Less) == (opt_cmp(b, a) == Ordering::Greater),
        (opt_cmp(a, b) == Ordering::Equal) == (opt_cmp(b, a) == Ordering::Equal),
        opt_cmp(a, b) != Ordering::Greater && opt_cmp(b, c) != Ordering::Greater ==> opt_cmp(a, c) != Ordering::Greater
            && (opt_cmp(a, c) == Ordering::Equal <==> opt_cmp(a, b) == Ordering::Equal && opt_cmp(b, c) == Ordering::Equal),
{
}
proof fn lemma_lex<T: Ord>(a: Seq<Option<T>>, b: Seq<Option<T>>, c: Seq<Option<T>>, k: int)
    requires total_order::<T>(), a.len() == b.len() == c.len(), 0 <= k <= a.len(),
    ensures
        lex(a, a, k) == Ordering::Equal,
        (lex(a, b, k) == Ordering::Equal) <==> (forall|i: int| #![trigger a[i]] k <= i < a.len() ==> opt_eq(a[i], b[i])),
        (lex(a, b, k) == Ordering::Less) == (lex(b, a, k) == Ordering::Greater),
        (lex(a, b, k) == Ordering::Equal) == (lex(b, a, k) == Ordering::Equal),
        lex(a, b, k) != Ordering::Greater && lex(b, c, k) != Ordering::Greater ==> lex(a, c, k) != Ordering::Greater
            && (lex(a, c, k) == Ordering::Equal <==> lex(a, b, k) == Ordering::Equal && lex(b, c, k) == Ordering::Equal),
    decreases a.len() - k,
{
    if k < a.len() {
        lemma_lex(a, b, c, k + 1);
        lemma_opt(a[k], b[k], c[k]);
        lemma_opt(b[k], a[k], c[k]);
        lemma_opt(b[k], c[k], a[k]);
        lemma_opt(a[k], c[k], b[k]);
    }
}
/// the ordering of optional vectors is a total order consistent with equality
proof fn lemma_total_order<T: Ord>(a: Seq<Option<T>>, b: Seq<Option<T>>, c: Seq<Option<T>>)
    requires total_order::<T>(),
    ensures
        seq_cmp(a, a) == Ordering::Equal,
        (seq_cmp(a, b) == Ordering::Equal) == seq_eq(a, b),
        (seq_cmp(a, b) == Ordering::Less) == (seq_cmp(b, a) == Ordering::Greater),
        seq_cmp(a, b) != Ordering::Greater && seq_cmp(b, c) != Ordering::Greater ==> seq_cmp(a, c) != Ordering::Greater,
{
    lemma_lex(a, a, a, 0);
    if a.len() == b.len() { lemma_lex(a, b, b, 0); }
    if a.len() == b.len() == c.len() { lemma_lex(a, b, c, 0); }
}
%%% fn VecOption::eq
%% contract
    requires self.wf(), rhs.wf(), T::obeys_eq_spec(),
    ensures r == seq_eq(self@, rhs@),
%% loop 0
    invariant
        forall|i: int| #![trigger self@[i]] 0 <= i < vk0 ==> opt_eq(self@[i], rhs@[i]),
%% at loop0.start
    proof {
        let k = vk0 - 1;
        assert(opt_eq(self@[k], rhs@[k]) == match (a, b) { (None, None) => true, (Some(x), Some(y)) => x.eq_spec(y), _ => false });
    }
%%% fn VecOption::cmp
%% contract
    requires self.wf(), other.wf(), T::obeys_cmp_spec(),
    ensures r == seq_cmp(self@, other@),
%% loop 0
    invariant
        lex(self@, other@, 0) == lex(self@, other@, vk0),
%% at loop0.start
    proof {
        let k = vk0 - 1;
        assert(opt_cmp(self@[k], other@[k]) == match (a, b) { (None, None) => Ordering::Equal, (None, Some(_)) => Ordering::Less, (Some(_), None) => Ordering::Greater, (Some(x), Some(y)) => x.cmp_spec(y) });
    }
%%% fn VecOption::partial_cmp
%% contract
    requires self.wf(), other.wf(), T::obeys_partial_cmp_spec(),
    ensures r == seq_pcmp(self@, other@),
%% loop 0
    invariant
        plex(self@, other@, 0) == plex(self@, other@, vk0),
%% at loop0.start
    proof {
        let k = vk0 - 1;
        assert(opt_pcmp(self@[k], other@[k]) == match (a, b) { (None, None) => Some(Ordering::Equal), (None, Some(_)) => Some(Ordering::Less), (Some(_), None) => Some(Ordering::Greater), (Some(x), Some(y)) => x.partial_cmp_spec(y) });
    }
%%% text
/// the state of a hasher, and what feeding it does
#[verifier::external_body]
struct VHasher { x: u64 }
impl VHasher {
    uninterp spec fn state(&self) -> int;
    #[verifier::external_body]
    fn write_usize(&mut self, n: usize)
        ensures final(self).state() == h_usize(old(self).state(), n),
    { unimplemented!() }
    #[verifier::external_body]
    fn write_u8(&mut self, n: u8)
        ensures final(self).state() == h_u8(old(self).state(), n),
    { unimplemented!() }
}
uninterp spec fn h_usize(s: int, n: usize) -> int;
uninterp spec fn h_u8(s: int, n: u8) -> int;
/// feeding an element: its own Hash implementation
uninterp spec fn h_val<T>(s: int, x: T) -> int;
trait VHash: Sized {
    fn v_hash(&self, h: &mut VHasher)
        ensures final(h).state() == h_val(old(h).state(), *self);
}
impl<T: Hash> VHash for T {
    #[verifier::external_body]
    fn v_hash(&self, h: &mut VHasher) { unimplemented!() }
}
/// a function of the hasher and the contents alone
spec fn h_seq<T>(s: int, a: Seq<Option<T>>, n: int) -> int
    decreases n,
{
    if n <= 0 { h_usize(s, a.len() as usize) } else {
        match a[n - 1] { Some(x) => h_val(h_u8(h_seq(s, a, n - 1), 1), x), None => h_u8(h_seq(s, a, n - 1), 0) }
    }
}
proof fn lemma_equal_hash<T: PartialEq>(s: int, a: Seq<Option<T>>, b: Seq<Option<T>>, n: int)
    requires
        seq_eq(a, b), 0 <= n <= a.len(),
        // the element type: equal values hash equally
        forall|t: int, x: T, y: T| x.eq_spec(&y) ==> #[trigger] h_val(t, x) == #[trigger] h_val(t, y),
    ensures h_seq(s, a, n) == h_seq(s, b, n),
    decreases n,
{
    if n > 0 {
        lemma_equal_hash(s, a, b, n - 1);
        assert(opt_eq(a[n - 1], b[n - 1]));
    }
}
%%% fn VecOption::hash as hash_into
%% generics
%% opt subst & mut H => & mut VHasher
%% contract
    requires self.wf(),
    ensures final(hasher).state() == h_seq(old(hasher).state(), self@, self@.len() as int),
%% loop 0
    invariant
        hasher.state() == h_seq(old(hasher).state(), self@, vk0),
%% at loop0.start
    assert(vs0[vk0 - 1] == item);
