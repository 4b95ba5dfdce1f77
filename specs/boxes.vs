%%% file trellis/src/vec2.rs
%%% item Vec2 #[derive(Clone, Copy)]
%%% file trellis/src/common/geom.rs
%%% item pointf | f64 => F
%%% item boxf
%%% text
// a box as the set of the points it contains
spec fn has(b: &boxf, x: real, y: real) -> bool { b.LL.x@ <= x <= b.UR.x@ && b.LL.y@ <= y <= b.UR.y@ }
/// not inverted (a single point or a segment is a box)
spec fn proper(b: &boxf) -> bool { b.LL.x@ <= b.UR.x@ && b.LL.y@ <= b.UR.y@ }
/// a's bounds enclose b's
spec fn encloses(a: &boxf, b: &boxf) -> bool { a.LL.x@ <= b.LL.x@ && a.LL.y@ <= b.LL.y@ && a.UR.x@ >= b.UR.x@ && a.UR.y@ >= b.UR.y@ }
spec fn subset(a: &boxf, b: &boxf) -> bool { forall|x: real, y: real| #[trigger] has(a, x, y) ==> has(b, x, y) }
spec fn share(a: &boxf, b: &boxf) -> bool { exists|x: real, y: real| #[trigger] has(a, x, y) && has(b, x, y) }

spec fn overlaps(a: &boxf, b: &boxf) -> bool { a.UR.x@ >= b.LL.x@ && b.UR.x@ >= a.LL.x@ && a.UR.y@ >= b.LL.y@ && b.UR.y@ >= a.LL.y@ }

/// for proper boxes the comparison of bounds is inclusion of point sets
proof fn lemma_encloses(a: &boxf, b: &boxf)
    requires proper(b),
    ensures encloses(a, b) <==> subset(b, a),
{
    if subset(b, a) {
        assert(has(b, b.LL.x@, b.LL.y@));
        assert(has(b, b.UR.x@, b.UR.y@));
    }
}
proof fn lemma_overlap(a: &boxf, b: &boxf)
    requires proper(a), proper(b),
    ensures overlaps(a, b) <==> share(a, b),
{
    if overlaps(a, b) {
        let x = if a.LL.x@ >= b.LL.x@ { a.LL.x@ } else { b.LL.x@ };
        let y = if a.LL.y@ >= b.LL.y@ { a.LL.y@ } else { b.LL.y@ };
        assert(has(a, x, y) && has(b, x, y));
    }
}
proof fn lemma_share_symmetric(a: &boxf, b: &boxf)
    ensures overlaps(a, b) == overlaps(b, a), share(a, b) ==> share(b, a),
{
    if share(a, b) {
        let (x, y) = choose|x: real, y: real| #[trigger] has(a, x, y) && has(b, x, y);
        assert(has(b, x, y) && has(a, x, y));
    }
}
proof fn lemma_contains_transitive(a: &boxf, b: &boxf, c: &boxf)
    requires encloses(a, b), encloses(b, c),
    ensures encloses(a, c),
{ }
/// the least box: enclosing a box and a point (or box) forces enclosing the expanded one
spec fn hull_point(r: &boxf, b: &boxf, px: real, py: real) -> bool {
    &&& encloses(r, b) && has(r, px, py)
    &&& forall|c: &boxf| #[trigger] encloses(c, b) && has(c, px, py) ==> encloses(c, r)
}
spec fn hull_box(r: &boxf, a: &boxf, b: &boxf) -> bool {
    &&& encloses(r, a) && encloses(r, b)
    &&& forall|c: &boxf| #[trigger] encloses(c, a) && encloses(c, b) ==> encloses(c, r)
}
%%% file trellis/src/math.rs
%%% fn fmin
%% opt reals
%% contract
    ensures r@ == (if a@ <= b@ { a@ } else { b@ }),
%%% fn fmax
%% opt reals
%% contract
    ensures r@ == (if a@ >= b@ { a@ } else { b@ }),
%%% file trellis/src/common/arith.rs
%%% fn BETWEEN
%% opt reals
%% contract
    ensures r == (a@ <= b@ <= c@),
%%% file trellis/src/common/geom.rs
%%% fn INSIDE
%% opt reals
%% contract
    ensures r == has(b, p.x@, p.y@),
%%% fn OVERLAP
%% opt reals
%% contract
    ensures
        proper(b0) && proper(b1) ==> (r <==> share(b0, b1)),
        r == overlaps(b0, b1),
%% at body.start
    proof { if proper(b0) && proper(b1) { lemma_overlap(b0, b1); } lemma_share_symmetric(b0, b1); }
%%% fn CONTAINS
%% opt reals
%% contract
    ensures
        proper(b1) ==> (r <==> subset(b1, b0)),
        r == encloses(b0, b1),
%% at body.start
    proof { if proper(b1) { lemma_encloses(b0, b1); } }
%%% fn EXPANDBP
%% opt reals
%% contract
    ensures
        hull_point(final(b), old(b), p.x@, p.y@),
        subset(old(b), final(b)),
%%% fn EXPANDBB
%% opt reals
%% contract
    ensures
        hull_box(final(b0), old(b0), b1),
        subset(old(b0), final(b0)), subset(b1, final(b0)),
%%% fn CLIPBB
%% opt reals
%% contract
    ensures
        forall|x: real, y: real| has(final(b0), x, y) <==> has(old(b0), x, y) && has(b1, x, y),
