%%% file trellis/src/polyline.rs
%%% item Ppoly_t | f64 => F
%%% text
impl Default for vconfig_t {
    #[verifier::external_body]
    fn default() -> (r: vconfig_t) { unimplemented!() }
}
/// the number of vertices of the first k obstacles
spec fn off(obs: Seq<&Ppoly_t>, k: int) -> int
    decreases k,
{ if k <= 0 { 0 } else { off(obs, k - 1) + obs[k - 1].ps@.len() } }
spec fn obs_ok(obs: Seq<&Ppoly_t>) -> bool {
    &&& forall|k: int| 0 <= k < obs.len() ==> (#[trigger] obs[k]).ps@.len() > 0
    &&& off(obs, obs.len() as int) <= 0x4000_0000
}
proof fn lemma_off(obs: Seq<&Ppoly_t>, i: int, j: int)
    requires forall|k: int| 0 <= k < obs.len() ==> (#[trigger] obs[k]).ps@.len() > 0, 0 <= i <= j <= obs.len(),
    ensures 0 <= off(obs, i) <= off(obs, j), j - i <= off(obs, j) - off(obs, i),
    decreases j,
{
    if i < j { lemma_off(obs, i, j - 1); assert(obs[j - 1].ps@.len() > 0); }
    else if 0 < i { lemma_off(obs, i - 1, i - 1); }
}
proof fn lemma_offs(obs: Seq<&Ppoly_t>)
    requires forall|k: int| 0 <= k < obs.len() ==> (#[trigger] obs[k]).ps@.len() > 0,
    ensures forall|i: int, j: int| 0 <= i <= j <= obs.len() ==> 0 <= #[trigger] off(obs, i) <= #[trigger] off(obs, j) && j - i <= off(obs, j) - off(obs, i),
{
    assert forall|i: int, j: int| 0 <= i <= j <= obs.len() implies 0 <= #[trigger] off(obs, i) <= #[trigger] off(obs, j) && j - i <= off(obs, j) - off(obs, i) by { lemma_off(obs, i, j); }
}
spec fn lens_of(s: Seq<usize>, obs: Seq<&Ppoly_t>) -> bool { s.len() == obs.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == obs[i].ps@.len() }
proof fn lemma_total(obs: Seq<&Ppoly_t>, s: Seq<usize>, k: int)
    requires s.len() == obs.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == obs[i].ps@.len(), 0 <= k <= obs.len(),
    ensures vtotal(s.take(k)) == off(obs, k),
    decreases k,
{
    if k > 0 {
        lemma_total(obs, s, k - 1);
        assert(s.take(k).drop_last() =~= s.take(k - 1));
        assert(s.take(k).last() == s[k - 1]);
    } else { assert(s.take(0).len() == 0); }
}
/// the ring of obstacle i, and its vertices
spec fn ring(c: &vconfig_t, obs: Seq<&Ppoly_t>, i: int) -> bool {
    &&& c.start@[i] == off(obs, i)
    &&& forall|k: int| off(obs, i) <= k < off(obs, i + 1) ==> (#[trigger] c.next@[k]) == (if k == off(obs, i + 1) - 1 { off(obs, i) } else { k + 1 })
    &&& forall|k: int| off(obs, i) <= k < off(obs, i + 1) ==> (#[trigger] c.prev@[k]) == (if k == off(obs, i) { off(obs, i + 1) - 1 } else { k - 1 })
    &&& forall|k: int| off(obs, i) <= k < off(obs, i + 1) ==> (#[trigger] c.P@[k]) == obs[i].ps@[k - off(obs, i)]
}
spec fn opened(c: &vconfig_t, obs: Seq<&Ppoly_t>) -> bool {
    &&& c.Npoly == obs.len() && c.N == off(obs, obs.len() as int)
    &&& c.start@.len() == obs.len() + 1 && c.start@[obs.len() as int] == c.N
    &&& forall|i: int| 0 <= i < obs.len() ==> #[trigger] ring(c, obs, i)
}
/// the obstacle a vertex belongs to
proof fn lemma_owner(obs: Seq<&Ppoly_t>, k: int, m: int)
    requires 0 <= k < off(obs, m), 0 <= m <= obs.len(),
    ensures exists|i: int| 0 <= i < m && off(obs, i) <= k < #[trigger] off(obs, i + 1),
    decreases m,
{
    if m > 0 {
        if k < off(obs, m - 1) { lemma_owner(obs, k, m - 1); let i = choose|i: int| 0 <= i < m - 1 && off(obs, i) <= k < #[trigger] off(obs, i + 1); assert(off(obs, i) <= k < off(obs, i + 1)); }
        else { assert(off(obs, m - 1) <= k < off(obs, (m - 1) + 1)); }
    }
}
proof fn lemma_opened(c: &vconfig_t, obs: Seq<&Ppoly_t>)
    requires opened(c, obs), obs_ok(obs), c.P@.len() == c.N, c.next@.len() == c.N, c.prev@.len() == c.N,
    ensures config_ok(c),
{
    lemma_offs(obs);
    let m = obs.len() as int;
    assert(off(obs, 0) == 0);
    assert forall|k: int| 0 <= k < c.N implies 0 <= #[trigger] c.next@[k] < c.N by {
        lemma_owner(obs, k, m);
        let i = choose|i: int| 0 <= i < m && off(obs, i) <= k < #[trigger] off(obs, i + 1);
        assert(ring(c, obs, i));
        assert(off(obs, i + 1) <= off(obs, m));
    }
    assert forall|k: int| 0 <= k < c.N implies 0 <= #[trigger] c.prev@[k] < c.N by {
        lemma_owner(obs, k, m);
        let i = choose|i: int| 0 <= i < m && off(obs, i) <= k < #[trigger] off(obs, i + 1);
        assert(ring(c, obs, i));
        assert(off(obs, i + 1) <= off(obs, m));
    }
    assert forall|i: int| 0 <= i <= m implies #[trigger] c.start@[i] == off(obs, i) by { if i < m { assert(ring(c, obs, i)); } }
}
%%% file trellis/src/pathplan/cvt.rs
%%% fn Pobsopen
%% opt reals
%% contract
    requires obs_ok(obs@),
    ensures opened(&r, obs@), config_ok(&r), vis_ok(&r),
%% at body.start
    let ghost os = obs@;
    proof {
        lemma_offs(os);
        assert(off(os, 0) == 0 && os.len() <= off(os, os.len() as int));
        assert forall|s: Seq<usize>| lens_of(s, os) implies #[trigger] vtotal(s) == off(os, os.len() as int) by { lemma_total(os, s, os.len() as int); assert(s.take(os.len() as int) =~= s); }
    }
%% closure 0
|__c0_0: &&Ppoly_t| -> (o: usize)
    ensures o == __c0_0.ps@.len(),
%% loop 0
    invariant
        i == off(os, vk0), rv.P@.len() == i,
        rv.N == n, n == off(os, os.len() as int), rv.Npoly == os.len(), rv.start@.len() == os.len() + 1, rv.next@.len() == n, rv.prev@.len() == n,
        forall|x: int| 0 <= x < vk0 ==> #[trigger] ring(&rv, os, x),
%% at loop0.start
    let ghost rv0 = rv;
    proof { assert(os[vk0 - 1].ps@.len() > 0); assert(off(os, vk0) <= off(os, os.len() as int)); }
%% loop 1
    invariant
        i == start + vk1, rv.P@.len() == i,
        rv.N == n, rv.Npoly == os.len(), rv.start@.len() == os.len() + 1, rv.next@.len() == n, rv.prev@.len() == n,
        rv.start@ == rv0.start@.update(vk0 - 1, start as i32),
        forall|k: int| 0 <= k < start ==> rv.next@[k] == rv0.next@[k],
        forall|k: int| 0 <= k < start ==> rv.prev@[k] == rv0.prev@[k],
        forall|k: int| 0 <= k < start ==> rv.P@[k] == rv0.P@[k],
        forall|k: int| start <= k < i ==> #[trigger] rv.next@[k] == k + 1,
        forall|k: int| start <= k < i ==> #[trigger] rv.prev@[k] == k - 1,
        forall|k: int| start <= k < i ==> #[trigger] rv.P@[k] == os[vk0 - 1].ps@[k - start],
%% at loop0.end
    proof {
        assert forall|x: int| 0 <= x < vk0 implies #[trigger] ring(&rv, os, x) by {
            if x < vk0 - 1 { assert(ring(&rv0, os, x)); assert(off(os, x + 1) <= off(os, vk0 - 1)); }
        }
    }
%% at after let:n#0
    assert(obs@.len() == os.len());
%% at before visibility#0
    proof {
        assert forall|x: int| 0 <= x < os.len() implies #[trigger] ring(&rv, os, x) by { assert(ring(&rv1, os, x)); }
        lemma_opened(&rv, os);
    }
    let ghost rv2 = rv;
%% at loop0.after
    let ghost rv1 = rv;
%% at after visibility#0
    proof {
        assert forall|x: int| 0 <= x < os.len() implies #[trigger] ring(&rv, os, x) by { assert(ring(&rv2, os, x)); }
    }
