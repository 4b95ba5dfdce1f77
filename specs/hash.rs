// ---- HashMap: a finite map; iteration lists every entry once, in any order
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(X)]
struct VHash<K, X> { k: Vec<K>, x: Vec<X> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(X)]
struct VEntry<'a, K, X> { m: &'a mut VHash<K, X>, k: K }
spec fn lists<K, X>(s: Seq<(&K, &X)>, m: Map<K, X>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
}
impl<K, X> VHash<K, X> {
    uninterp spec fn view(&self) -> Map<K, X>;
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r@ =~= Map::<K, X>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: VIter<(&'a K, &'a X)>)
        ensures lists(r@, self@),
    { unimplemented!() }
    fn entry<'a>(&'a mut self, k: K) -> (r: VEntry<'a, K, X>)
        ensures r.k == k, *r.m == *old(self), *final(self) == *final(r.m),
    { VEntry { m: self, k } }
}
impl<'a, K, Y> VEntry<'a, K, Vec<Y>> {
    #[verifier::external_body]
    fn or_default(self) -> (r: &'a mut Vec<Y>)
        ensures
            r@ == (if old(self.m)@.contains_key(self.k) { old(self.m)@[self.k]@ } else { Seq::empty() }),
            final(self.m)@ == old(self.m)@.insert(self.k, *final(r)),
    { unimplemented!() }
}
impl<'a> VInt for &'a u32 { spec fn vi(self) -> int { *self as int } uninterp spec fn vof(i: int) -> &'a u32; }
fn v_max_u32(a: u32, b: u32) -> (r: u32)
    ensures r == (if a < b { b } else { a }),
{ if a < b { b } else { a } }
