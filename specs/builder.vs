%%% file trellis/src/testing.rs
%%% item GraphBuilder | HashMap => VHash
%%% item GraphBuilderFrom
%%% text
impl GraphBuilder {
    /// the targets added for v, in order
    spec fn adj(&self, v: int) -> Seq<V> {
        if 0 <= v <= u32::MAX && self.edges@.contains_key(v as u32) { self.edges@[v as u32]@ } else { Seq::empty() }
    }
    /// a source is noted only with an edge
    spec fn wf(&self) -> bool { forall|k: u32| #[trigger] self.edges@.contains_key(k) ==> self.edges@[k]@.len() > 0 }
    spec fn adjs(&self) -> spec_fn(int) -> Seq<V> { |v: int| self.adj(v) }
    /// the number of edges added
    spec fn weighs(&self, n: int) -> bool { forall|s: Seq<(&V, &Vec<V>)>| #[trigger] lists(s, self.edges@) ==> lens(s) == n }
    /// every vertex mentioned is below u32::MAX
    spec fn small(&self) -> bool {
        forall|k: u32| #[trigger] self.edges@.contains_key(k) ==> k < u32::MAX && forall|j: int| 0 <= j < self.edges@[k]@.len() ==> #[trigger] self.edges@[k]@[j] < u32::MAX
    }
}
/// n is the number of vertices: one more than the greatest vertex with an edge
spec fn size_is(adj: spec_fn(int) -> Seq<V>, n: int) -> bool {
    &&& n >= 0
    &&& forall|v: int| (#[trigger] adj(v)).len() > 0 ==> 0 <= v < n && forall|j: int| 0 <= j < adj(v).len() ==> #[trigger] adj(v)[j] < n
    &&& n > 0 ==> exists|v: int| (#[trigger] adj(v)).len() > 0 && (v == n - 1 || adj(v).contains((n - 1) as u32))
}
spec fn lens(s: Seq<(&V, &Vec<V>)>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { lens(s.drop_last()) + s.last().1@.len() } }
proof fn lemma_lens(s: Seq<(&V, &Vec<V>)>, n: int)
    requires 0 <= n <= s.len(),
    ensures
        lens(s.take(n)) <= lens(s),
        n < s.len() ==> lens(s.take(n + 1)) == lens(s.take(n)) + s[n].1@.len() && lens(s.take(n)) + s[n].1@.len() <= lens(s),
    decreases s.len(),
{
    if n < s.len() {
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        if n + 1 < s.len() {
            lemma_lens(s.drop_last(), n);
            assert(s.drop_last().take(n) =~= s.take(n));
            assert(s.drop_last()[n] == s[n]);
        } else {
            assert(s.drop_last() =~= s.take(n));
        }
    } else { assert(s.take(n) =~= s); }
}
proof fn lemma_lens_update(s: Seq<(&V, &Vec<V>)>, i: int, x: (&V, &Vec<V>))
    requires 0 <= i < s.len(),
    ensures lens(s.update(i, x)) == lens(s) - s[i].1@.len() + x.1@.len(),
    decreases s.len(),
{
    let u = s.update(i, x);
    if i == s.len() - 1 {
        assert(u.drop_last() =~= s.drop_last());
    } else {
        assert(u.drop_last() =~= s.drop_last().update(i, x));
        lemma_lens_update(s.drop_last(), i, x);
        assert(u.last() == s.last());
    }
}
proof fn lemma_lens_remove(s: Seq<(&V, &Vec<V>)>, i: int)
    requires 0 <= i < s.len(),
    ensures lens(s.remove(i)) == lens(s) - s[i].1@.len(),
    decreases s.len(),
{
    let u = s.remove(i);
    if i == s.len() - 1 {
        assert(u =~= s.drop_last());
    } else {
        assert(u.drop_last() =~= s.drop_last().remove(i));
        lemma_lens_remove(s.drop_last(), i);
        assert(u.last() == s.last());
    }
}
/// one more edge: the entries add up to one more
proof fn lemma_weighs(a: Map<V, Vec<V>>, b: Map<V, Vec<V>>, k: V, l: Vec<V>, s: Seq<(&V, &Vec<V>)>, n: int)
    requires
        b == a.insert(k, l), lists(s, b),
        forall|t: Seq<(&V, &Vec<V>)>| #[trigger] lists(t, a) ==> lens(t) == n,
        l@.len() == (if a.contains_key(k) { a[k]@.len() + 1 } else { 1 }),
    ensures lens(s) == n + 1,
{
    assert(b.contains_key(k));
    let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k;
    assert(*s[i].1 == l);
    if a.contains_key(k) {
        let x = (&k, &a[k]);
        let t = s.update(i, x);
        lemma_lens_update(s, i, x);
        assert forall|j: int| 0 <= j < t.len() implies a.contains_key(*(#[trigger] t[j]).0) && a[*t[j].0] == *t[j].1 by {
            if j != i { assert(t[j] == s[j]); assert(*s[j].0 != k) by { if j < i { assert(*s[j].0 != *s[i].0); } else { assert(*s[i].0 != *s[j].0); } } }
        }
        assert forall|c: V| #[trigger] a.contains_key(c) implies exists|j: int| 0 <= j < t.len() && *(#[trigger] t[j]).0 == c by {
            assert(b.contains_key(c));
            let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == c;
            assert(*t[j].0 == c);
        }
        assert forall|p: int, q: int| 0 <= p < q < t.len() implies *(#[trigger] t[p]).0 != *(#[trigger] t[q]).0 by { assert(*s[p].0 != *s[q].0); }
        assert(lists(t, a));
    } else {
        let t = s.remove(i);
        lemma_lens_remove(s, i);
        assert forall|j: int| 0 <= j < t.len() implies a.contains_key(*(#[trigger] t[j]).0) && a[*t[j].0] == *t[j].1 by {
            let m = if j < i { j } else { j + 1 };
            assert(t[j] == s[m]);
            assert(*s[m].0 != k) by { if m < i { assert(*s[m].0 != *s[i].0); } else { assert(*s[i].0 != *s[m].0); } }
        }
        assert forall|c: V| #[trigger] a.contains_key(c) implies exists|j: int| 0 <= j < t.len() && *(#[trigger] t[j]).0 == c by {
            assert(b.contains_key(c));
            let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == c;
            assert(j != i);
            let m = if j < i { j } else { j - 1 };
            assert(t[m] == s[j]);
        }
        assert forall|p: int, q: int| 0 <= p < q < t.len() implies *(#[trigger] t[p]).0 != *(#[trigger] t[q]).0 by {
            let (pp, qq) = (if p < i { p } else { p + 1 }, if q < i { q } else { q + 1 });
            assert(t[p] == s[pp] && t[q] == s[qq]);
        }
        assert(lists(t, a));
    }
}
spec fn steps(p: Seq<V>) -> int { if p.len() < 2 { 0 } else { p.len() - 1 } }
spec fn all_steps(ps: Seq<&[V]>) -> int
    decreases ps.len(),
{ if ps.len() == 0 { 0 } else { all_steps(ps.drop_last()) + steps(ps.last()@) } }
proof fn lemma_all_steps(ps: Seq<&[V]>, n: int)
    requires 0 <= n < ps.len(),
    ensures ps.take(n + 1).drop_last() =~= ps.take(n), ps.take(n + 1).last() == ps[n], all_steps(ps.take(n + 1)) == all_steps(ps.take(n)) + steps(ps[n]@),
{ assert(ps.take(n + 1).drop_last() =~= ps.take(n)); }
/// the edges of a path, appended one after the other
spec fn path_adj(base: Seq<V>, p: Seq<V>, v: int) -> Seq<V>
    decreases p.len(),
{
    if p.len() < 2 { base } else {
        let d = path_adj(base, p.drop_last(), v);
        if p[p.len() - 2] == v { d.push(p.last()) } else { d }
    }
}
spec fn paths_adj(ps: Seq<&[V]>, v: int) -> Seq<V>
    decreases ps.len(),
{ if ps.len() == 0 { Seq::empty() } else { path_adj(paths_adj(ps.drop_last(), v), ps.last()@, v) } }
// ---- what sorting by key does to the list of entries
spec fn ekey<'a>() -> spec_fn((&'a V, &'a Vec<V>)) -> int { |x: (&V, &Vec<V>)| *x.0 as int }
spec fn ascending(s: Seq<(&V, &Vec<V>)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 < *(#[trigger] s[j]).0 }
proof fn lemma_pick_has(s: Seq<(&V, &Vec<V>)>, k: int, i: int)
    requires 0 <= i < s.len(), *s[i].0 == k,
    ensures pick(s, ekey(), k).contains(s[i]), pick(s, ekey(), k).len() >= 1,
    decreases s.len(),
{
    reveal(Seq::filter);
    let d = s.drop_last();
    let p = pick(s, ekey(), k);
    if i < d.len() {
        assert(d[i] == s[i]);
        lemma_pick_has(d, k, i);
        let q = pick(d, ekey(), k);
        let j = choose|j: int| 0 <= j < q.len() && q[j] == s[i];
        assert(p[j] == s[i]);
    } else {
        assert(p[p.len() - 1] == s[i]);
    }
}
proof fn lemma_pick_from(s: Seq<(&V, &Vec<V>)>, k: int)
    ensures forall|j: int| 0 <= j < pick(s, ekey(), k).len() ==> s.contains(#[trigger] pick(s, ekey(), k)[j]) && *pick(s, ekey(), k)[j].0 == k,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_pick_from(d, k);
        let (p, q) = (pick(s, ekey(), k), pick(d, ekey(), k));
        assert forall|j: int| 0 <= j < p.len() implies s.contains(#[trigger] p[j]) && *p[j].0 == k by {
            if j < q.len() {
                assert(p[j] == q[j]);
                let i = choose|i: int| 0 <= i < d.len() && d[i] == q[j];
                assert(s[i] == q[j]);
            } else {
                assert(p[j] == s[s.len() - 1]);
            }
        }
    }
}
proof fn lemma_pick_two(s: Seq<(&V, &Vec<V>)>, k: int, i: int, j: int)
    requires 0 <= i < j < s.len(), *s[i].0 == k, *s[j].0 == k,
    ensures pick(s, ekey(), k).len() >= 2,
    decreases s.len(),
{
    reveal(Seq::filter);
    let d = s.drop_last();
    assert(d[i] == s[i]);
    if j < d.len() { assert(d[j] == s[j]); lemma_pick_two(d, k, i, j); } else { lemma_pick_has(d, k, i); }
}
proof fn lemma_pick_one(s: Seq<(&V, &Vec<V>)>, k: int)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0,
    ensures pick(s, ekey(), k).len() <= 1,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies *(#[trigger] d[i]).0 != *(#[trigger] d[j]).0 by { assert(d[i] == s[i] && d[j] == s[j]); }
        lemma_pick_one(d, k);
        let q = pick(d, ekey(), k);
        if *s.last().0 == k && q.len() > 0 {
            lemma_pick_from(d, k);
            assert(d.contains(q[0]));
            let i = choose|i: int| 0 <= i < d.len() && d[i] == q[0];
            assert(s[i] == q[0] && s[s.len() - 1] == s.last());
        }
    }
}
proof fn lemma_sorted_lists(a: Seq<(&V, &Vec<V>)>, b: Seq<(&V, &Vec<V>)>, m: Map<V, Vec<V>>)
    requires lists(a, m), stable_by(a, b, ekey()),
    ensures lists(b, m), ascending(b),
{
    assert forall|i: int| 0 <= i < b.len() implies m.contains_key(*(#[trigger] b[i]).0) && m[*b[i].0] == *b[i].1 by {
        let k = *b[i].0 as int;
        lemma_pick_has(b, k, i);
        lemma_pick_from(a, k);
        let p = pick(a, ekey(), k);
        assert(pick(b, ekey(), k) == p);
        let j = choose|j: int| 0 <= j < p.len() && p[j] == b[i];
        assert(a.contains(p[j]));
        let l = choose|l: int| 0 <= l < a.len() && a[l] == b[i];
        assert(m.contains_key(*a[l].0));
    }
    assert forall|k: V| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < b.len() && *(#[trigger] b[i]).0 == k by {
        let l = choose|l: int| 0 <= l < a.len() && *(#[trigger] a[l]).0 == k;
        lemma_pick_has(a, k as int, l);
        lemma_pick_from(b, k as int);
        let p = pick(b, ekey(), k as int);
        assert(pick(a, ekey(), k as int) == p);
        assert(b.contains(p[0]));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == p[0];
        assert(*b[i].0 == k);
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies *(#[trigger] b[i]).0 < *(#[trigger] b[j]).0 by {
        assert(ekey()(b[i]) <= ekey()(b[j]));
        if *b[i].0 == *b[j].0 {
            let k = *b[i].0 as int;
            lemma_pick_two(b, k, i, j);
            lemma_pick_one(a, k);
            assert(pick(b, ekey(), k) == pick(a, ekey(), k));
        }
    }
}
/// n is one more than the greatest of a source and its targets
spec fn top_of(n: int, k: V, t: Seq<V>) -> bool {
    &&& k < n
    &&& forall|j: int| 0 <= j < t.len() ==> #[trigger] t[j] < n
    &&& n == k + 1 || t.contains((n - 1) as u32)
}
/// t[i] is one more than the greatest vertex of entry i, and n the greatest of them
spec fn tops(s: Seq<(&V, &Vec<V>)>, t: Seq<u32>, n: int) -> bool {
    &&& t.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> top_of(t[i] as int, *(#[trigger] s[i]).0, s[i].1@)
    &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] <= n
    &&& if t.len() == 0 { n == 0 } else { t.contains(n as u32) && 0 <= n <= u32::MAX }
}
proof fn lemma_size(b: &GraphBuilder, s: Seq<(&V, &Vec<V>)>, t: Seq<u32>, n: int)
    requires b.wf(), lists(s, b.edges@), tops(s, t, n),
    ensures size_is(b.adjs(), n), forall|k: u32| #[trigger] b.edges@.contains_key(k) ==> k < n,
{
    let adj = b.adjs();
    assert forall|v: int| (#[trigger] adj(v)).len() > 0 implies 0 <= v < n && forall|j: int| 0 <= j < adj(v).len() ==> #[trigger] adj(v)[j] < n by {
        let k = v as u32;
        assert(b.edges@.contains_key(k));
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k;
        assert(t[i] <= n);
        assert(adj(v) == s[i].1@);
    }
    assert forall|k: u32| #[trigger] b.edges@.contains_key(k) implies k < n by { assert(b.adj(k as int).len() > 0); assert(adj(k as int).len() > 0); }
    if n > 0 {
        let i = choose|i: int| 0 <= i < t.len() && t[i] == n as u32;
        let k = *s[i].0;
        assert(b.edges@.contains_key(k));
        assert(adj(k as int) == s[i].1@);
        assert(adj(k as int).len() > 0);
        assert(k == n - 1 || adj(k as int).contains((n - 1) as u32));
    }
}
#[verifier::opaque]
spec fn built(e: Seq<Seq<V>>, b: GraphBuilder) -> bool { forall|v: int| 0 <= v < e.len() ==> #[trigger] e[v] == b.adj(v) }
proof fn lemma_built_push(e: Seq<Seq<V>>, f: Seq<Seq<V>>, b: GraphBuilder)
    requires built(e, b), f.len() == e.len() + 1, f == e.push(f.last()), f.last() =~= b.adj(e.len() as int),
    ensures built(f, b),
{
    reveal(built);
    assert forall|v: int| 0 <= v < f.len() implies #[trigger] f[v] == b.adj(v) by { if v < e.len() { assert(f[v] == e[v]); } }
}
/// between the entry before and this one, no source has an edge
proof fn lemma_gap(s: Seq<(&V, &Vec<V>)>, b: GraphBuilder, i: int, v: int)
    requires lists(s, b.edges@), ascending(s), 0 <= i < s.len(), v < *s[i].0, i > 0 ==> *s[i - 1].0 < v,
    ensures b.adj(v) =~= Seq::<V>::empty(),
{
    if 0 <= v && b.edges@.contains_key(v as u32) {
        let n = v as u32;
        let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == n;
        if j < i - 1 { assert(*s[j].0 < *s[i - 1].0); }
        if j > i { assert(*s[i].0 < *s[j].0); }
    }
}
/// all entries lie below the last one
proof fn lemma_last(s: Seq<(&V, &Vec<V>)>, b: GraphBuilder, n: int)
    requires lists(s, b.edges@), ascending(s), n == (if s.len() == 0 { 0int } else { *s.last().0 + 1 }),
    ensures forall|k: V| #[trigger] b.edges@.contains_key(k) ==> k < n,
{
    assert forall|k: V| #[trigger] b.edges@.contains_key(k) implies k < n by {
        let j = choose|j: int| 0 <= j < s.len() && *(#[trigger] s[j]).0 == k;
        if j < s.len() - 1 { assert(*s[j].0 < *s[s.len() - 1].0); }
    }
}
spec fn counted(b: &GraphBuilder, n: int) -> bool { size_is(b.adjs(), n) && forall|k: u32| #[trigger] b.edges@.contains_key(k) ==> k < n }
proof fn lemma_counted(b: &GraphBuilder, n: int)
    requires
        b.wf(),
        exists|s: Seq<(&V, &Vec<V>)>, t: Seq<u32>| #![trigger lists(s, b.edges@), t.len()] lists(s, b.edges@) && t.len() == s.len() && tops(s, t, n),
    ensures counted(b, n),
{
    let (s, t) = choose|s: Seq<(&V, &Vec<V>)>, t: Seq<u32>| #![trigger lists(s, b.edges@), t.len()] lists(s, b.edges@) && t.len() == s.len() && tops(s, t, n);
    lemma_size(b, s, t, n);
}
/// the finished table
proof fn lemma_built(e: Seq<Seq<V>>, b: GraphBuilder, n: int)
    requires built(e, b), counted(&b, n), e.len() == n,
    ensures
        forall|v: int| 0 <= v < n ==> #[trigger] e[v] =~= b.adj(v),
        forall|v: int, j: int| 0 <= v < n && 0 <= j < e[v].len() ==> (#[trigger] e[v][j]) < n,
{
    reveal(built);
    assert forall|v: int, j: int| 0 <= v < n && 0 <= j < e[v].len() implies (#[trigger] e[v][j]) < n by {
        assert(e[v] == b.adj(v));
        assert(b.adjs()(v) == b.adj(v));
    }
}
%%% fn graph_builder
%% opt subst HashMap => VHash
%% contract
    ensures r.wf(), r.weighs(0), r.small(), forall|v: int| (#[trigger] r.adj(v)) =~= Seq::<V>::empty(),
%% at body.result
    proof {
        assert forall|s: Seq<(&V, &Vec<V>)>| #[trigger] lists(s, res.edges@) implies lens(s) == 0 by {
            if s.len() > 0 { assert(res.edges@.contains_key(*s[0].0)); }
        }
    }
%%% fn GraphBuilder::edge
%% contract
    requires old(self).wf(),
    ensures
        final(self).wf(),
        forall|v: int| #[trigger] final(self).adj(v) =~= (if v == from { old(self).adj(v).push(to) } else { old(self).adj(v) }),
        forall|n: int| #[trigger] old(self).weighs(n) ==> final(self).weighs(n + 1),
        old(self).small() && from < u32::MAX && to < u32::MAX ==> final(self).small(),
%% at body.end
    proof {
        let (a, b) = (old(self).edges@, self.edges@);
        assert(b =~= a.insert(from, b[from]));
        assert(b[from]@ =~= old(self).adj(from as int).push(to));
        assert forall|n: int| #[trigger] old(self).weighs(n) implies self.weighs(n + 1) by {
            assert forall|s: Seq<(&V, &Vec<V>)>| #[trigger] lists(s, b) implies lens(s) == n + 1 by {
                lemma_weighs(a, b, from, b[from], s, n);
            }
        }
    }
%%% fn GraphBuilder::from
%% contract
    ensures r.from == from, *r.builder == *old(self), *final(self) == *final(r.builder),
%%% fn GraphBuilderFrom::to
%% contract
    requires self.builder.wf(),
    ensures
        r.from == to,
        r.builder.wf(),
        forall|v: int| #[trigger] r.builder.adj(v) =~= (if v == self.from { old(self.builder).adj(v).push(to) } else { old(self.builder).adj(v) }),
        *final(self.builder) == *final(r.builder),
        forall|n: int| #[trigger] old(self.builder).weighs(n) ==> r.builder.weighs(n + 1),
        old(self.builder).small() && self.from < u32::MAX && to < u32::MAX ==> r.builder.small(),
%%% fn GraphBuilder::path
%% contract
    requires old(self).wf(),
    ensures
        final(self).wf(),
        forall|v: int| #[trigger] final(self).adj(v) =~= path_adj(old(self).adj(v), verts@, v),
        forall|n: int| #[trigger] old(self).weighs(n) ==> final(self).weighs(n + steps(verts@)),
        old(self).small() && (forall|j: int| 0 <= j < verts@.len() ==> #[trigger] verts@[j] < u32::MAX) ==> final(self).small(),
%% loop 0
    invariant
        self.wf(),
        verts@.len() < 2 ==> vs0.len() == 0, verts@.len() >= 2 ==> vs0.len() == verts@.len() - 1,
        forall|i: int| 0 <= i < vs0.len() ==> (#[trigger] vs0[i])@ == seq![verts@[i], verts@[i + 1]],
        forall|v: int| #[trigger] self.adj(v) =~= path_adj(old(self).adj(v), verts@.take(if vk0 == 0 { 0int } else { vk0 + 1 }), v),
        forall|n: int| #[trigger] old(self).weighs(n) ==> self.weighs(n + vk0),
        old(self).small() && (forall|j: int| 0 <= j < verts@.len() ==> #[trigger] verts@[j] < u32::MAX) ==> self.small(),
%% at loop0.start
    let ghost b0 = *self;
%% at loop0.end
    proof {
        let t = verts@.take(vk0 + 1);
        let d = t.drop_last();
        let u = verts@.take(if vk0 - 1 == 0 { 0int } else { vk0 });
        assert(w@[0] == verts@[vk0 - 1] && w@[1] == verts@[vk0]);
        assert(t[t.len() - 2] == verts@[vk0 - 1] && t.last() == verts@[vk0]);
        if vk0 > 1 { assert(d =~= u); }
        assert forall|v: int| #[trigger] self.adj(v) =~= path_adj(old(self).adj(v), t, v) by {
            assert(path_adj(old(self).adj(v), d, v) == path_adj(old(self).adj(v), u, v));
            assert(b0.adj(v) =~= path_adj(old(self).adj(v), d, v));
        }
    }
%% at body.end
    proof {
        if verts@.len() >= 2 { assert(verts@.take(verts@.len() as int) =~= verts@); }
    }
%%% fn GraphBuilder::build
%% opt subst let from = * __r1 => let from = * * __r1
%% contract
    requires self.wf(), self.small(), exists|n: int| n <= u32::MAX && #[trigger] self.weighs(n),
    ensures
        r.wf(), r.targets_ok(), size_is(self.adjs(), r.nv()), r.edges.unowned() =~= Seq::<V>::empty(),
        forall|v: int| 0 <= v < r.nv() ==> #[trigger] r.edges.ents()[v] =~= self.adj(v),
%% closure 0
|__c0_0: &(&V, &Vec<V>)| -> (o: &V)
    ensures *o == *__c0_0.0,
%% at before sort_by_key#0
    let ghost unsorted = sorted;
%% at after sort_by_key#0
    let ghost srt = sorted@;
    proof {
        assert(sorted.vs() == sorted@ && unsorted.vs() == unsorted@);
        assert(stable_by(unsorted@, srt, ekey()));
        lemma_sorted_lists(unsorted@, srt, self.edges@);
        assert(lens(srt) <= u32::MAX);
        assert(srt.take(0).len() == 0);
        reveal(built);
    }
%% loop 0
    invariant
        lists(srt, self.edges@), ascending(srt), lens(srt) <= u32::MAX,
        vs0.len() == srt.len(), forall|i: int| 0 <= i < srt.len() ==> *(#[trigger] vs0[i]) == srt[i],
        graph.edges.wf(), graph.edges.unowned() =~= Seq::<V>::empty(),
        graph.edges.values@.len() == lens(srt.take(vk0)),
        graph.nv() == (if vk0 == 0 { 0int } else { *srt[vk0 - 1].0 + 1 }),
        built(graph.edges.ents(), self),
%% loop 1
    invariant
        from == *srt[vk0 - 1].0,
        0 < vk0 <= srt.len(), lists(srt, self.edges@), ascending(srt), lens(srt.take(vk0 - 1)) <= u32::MAX,
        graph.edges.wf(), graph.edges.unowned() =~= Seq::<V>::empty(),
        graph.edges.values@.len() == lens(srt.take(vk0 - 1)),
        vk0 > 1 ==> *srt[vk0 - 2].0 < graph.nv(),
        graph.nv() <= from,
        built(graph.edges.ents(), self),
    decreases from - graph.nv(),
%% at loop0.start
    proof { lemma_lens(srt, vk0 - 1); assert(*__vx0 == srt[vk0 - 1]); }
%% at loop1.start
    let ghost g0 = graph;
    proof { lemma_gap(srt, self, vk0 - 1, graph.nv()); }
%% at loop1.end
    proof { lemma_built_push(g0.edges.ents(), graph.edges.ents(), self); }
%% at loop1.after
    let ghost g1 = graph;
%% loop 2
    invariant
        vs2.len() == to_list@.len(), forall|i: int| 0 <= i < vs2.len() ==> *(#[trigger] vs2[i]) == to_list@[i],
        graph.edges.wf(), graph.edges.unowned() =~= to_list@.take(vk2),
        graph.edges.values@.len() == lens(srt.take(vk0 - 1)) + vk2,
        graph.edges.ents() == g1.edges.ents(),
%% at loop0.end
    proof {
        assert(to_list@.take(to_list@.len() as int) =~= to_list@);
        let k = *srt[vk0 - 1].0;
        assert(self.edges@[k] == *srt[vk0 - 1].1);
        assert(self.adj(k as int) == to_list@);
        lemma_built_push(g1.edges.ents(), graph.edges.ents(), self);
    }
%% closure 1
|__c1_0: (&V, &Vec<V>)| -> (o: u32)
    requires *__c1_0.0 < u32::MAX, forall|j: int| 0 <= j < __c1_0.1@.len() ==> #[trigger] __c1_0.1@[j] < u32::MAX,
    ensures top_of(o as int, *__c1_0.0, __c1_0.1@),
%% closure 2
|__c2_0: &u32| -> (o: u32)
    requires *__c2_0 < u32::MAX,
    ensures o == *__c2_0 + 1,
%% at after let:num_verts#0
    proof {
        lemma_counted(&self, num_verts as int);
        lemma_last(srt, self, graph.nv());
        if srt.len() > 0 { assert(self.edges@.contains_key(*srt[srt.len() - 1].0)); }
        assert(srt.take(srt.len() as int) =~= srt);
    }
%% loop 3
    invariant
        graph.edges.wf(), graph.edges.unowned() =~= Seq::<V>::empty(),
        graph.edges.values@.len() <= u32::MAX,
        graph.nv() <= num_verts,
        forall|k: V| #[trigger] self.edges@.contains_key(k) ==> k < graph.nv(),
        built(graph.edges.ents(), self),
    decreases num_verts - graph.nv(),
%% at loop3.start
    let ghost g3 = graph;
%% at loop3.end
    proof {
        assert(self.adj(g3.nv()) =~= Seq::<V>::empty());
        lemma_built_push(g3.edges.ents(), graph.edges.ents(), self);
    }
%% at loop3.after
    proof { lemma_built(graph.edges.ents(), self, num_verts as int); }
%%% fn graph_from_paths
%% contract
    requires
        all_steps(paths@) <= u32::MAX,
        forall|i: int, j: int| 0 <= i < paths@.len() && 0 <= j < paths@[i]@.len() ==> #[trigger] paths@[i]@[j] < u32::MAX,
    ensures
        r.wf(), r.targets_ok(), size_is(|v: int| paths_adj(paths@, v), r.nv()),
        forall|v: int| 0 <= v < r.nv() ==> #[trigger] r.edges.ents()[v] =~= paths_adj(paths@, v),
%% loop 0
    invariant
        vs0.len() == paths@.len(), forall|i: int| 0 <= i < vs0.len() ==> *(#[trigger] vs0[i]) == paths@[i],
        b.wf(), b.small(), b.weighs(all_steps(paths@.take(vk0))),
        forall|v: int| #[trigger] b.adj(v) =~= paths_adj(paths@.take(vk0), v),
%% at loop0.start
    let ghost b0 = b;
    proof { lemma_all_steps(paths@, vk0 - 1); assert(*__vx0 == paths@[vk0 - 1]); }
%% at loop0.end
    proof {
        assert(b0.weighs(all_steps(paths@.take(vk0 - 1))));
        assert forall|v: int| #[trigger] b.adj(v) =~= paths_adj(paths@.take(vk0), v) by {
            assert(b0.adj(v) == paths_adj(paths@.take(vk0 - 1), v));
        }
    }
%% at loop0.after
    proof {
        assert(paths@.take(paths@.len() as int) =~= paths@);
        let f = |v: int| paths_adj(paths@, v);
        assert forall|v: int| #[trigger] b.adjs()(v) == f(v) by { assert(b.adj(v) == paths_adj(paths@, v)); }
        assert(b.adjs() =~= f);
    }
