%%% file trellis/src/pathplan/array2.rs
%%% item Array2 #[verifier::reject_recursive_types(T)]
%%% text
impl<T> Array2<T> {
    spec fn wf(&self) -> bool { self.row_size == self.cols + self.extra && self.vec@.len() == self.row_size * self.rows }
    spec fn in_cell(&self, r: int, c: int) -> bool { 0 <= r < self.rows && 0 <= c < self.row_size }
    /// abstract view: the content of each cell
    spec fn cell(&self, r: int, c: int) -> T { self.vec@[r * self.row_size + c] }
    spec fn same_shape(&self, o: &Array2<T>) -> bool { self.rows == o.rows && self.cols == o.cols && self.extra == o.extra && self.row_size == o.row_size && self.vec@.len() == o.vec@.len() }
}
proof fn lemma_cell(r: int, c: int, w: int, n: int)
    requires 0 <= r < n, 0 <= c < w,
    ensures 0 <= r * w + c < w * n, 0 <= r * w <= w * n,
{
    assert(r * w + w <= n * w) by (nonlinear_arith) requires r + 1 <= n, w >= 0;
    assert(0 <= r * w) by (nonlinear_arith) requires 0 <= r, w >= 0;
    assert(n * w == w * n) by (nonlinear_arith);
}
/// different cells are at different places
proof fn lemma_cells_distinct(r: int, c: int, r2: int, c2: int, w: int)
    requires 0 <= c < w, 0 <= c2 < w, r * w + c == r2 * w + c2,
    ensures r == r2, c == c2,
{
    if r < r2 { assert(r * w + w <= r2 * w) by (nonlinear_arith) requires r + 1 <= r2, w > 0; }
    if r2 < r { assert(r2 * w + w <= r * w) by (nonlinear_arith) requires r2 + 1 <= r, w > 0; }
}
/// what the contracts of the accessors mean for a write through index_mut: `y` stored at (r, c), nothing else
spec fn wrote<T>(a: &Array2<T>, b: &Array2<T>, r: int, c: int, y: T) -> bool {
    &&& b.same_shape(a)
    &&& b.cell(r, c) == y
    &&& forall|r2: int, c2: int| a.in_cell(r2, c2) && !(r2 == r && c2 == c) ==> #[trigger] b.cell(r2, c2) == a.cell(r2, c2)
}
proof fn lemma_write<T>(a: &Array2<T>, r: int, c: int)
    requires a.wf(), a.in_cell(r, c),
    ensures forall|b: Array2<T>, y: T| b.same_shape(a) && b.vec@ == a.vec@.update(r * a.row_size + c, y) ==> #[trigger] wrote(a, &b, r, c, y),
{
    lemma_cell(r, c, a.row_size as int, a.rows as int);
    assert forall|b: Array2<T>, y: T| b.same_shape(a) && b.vec@ == a.vec@.update(r * a.row_size + c, y) implies #[trigger] wrote(a, &b, r, c, y) by {
        assert forall|r2: int, c2: int| a.in_cell(r2, c2) && !(r2 == r && c2 == c) implies #[trigger] b.cell(r2, c2) == a.cell(r2, c2) by {
            lemma_cell(r2, c2, a.row_size as int, a.rows as int);
            if r2 * a.row_size + c2 == r * a.row_size + c { lemma_cells_distinct(r2, c2, r, c, a.row_size as int); }
        }
    }
}
%%% fn Array2::new
%% contract
    requires cols + extra <= usize::MAX, (cols + extra) * rows <= usize::MAX,
    ensures
        r.wf(), r.rows == rows, r.cols == cols, r.extra == extra,
        exists|d: T| call_ensures(T::default, (), d) && forall|i: int, j: int| r.in_cell(i, j) ==> cloned(d, #[trigger] r.cell(i, j)),
%% at body.result
    proof {
        let d = choose|d: T| call_ensures(T::default, (), d) && forall|k: int| 0 <= k < res.vec@.len() ==> cloned(d, #[trigger] res.vec@[k]);
        assert forall|i: int, j: int| res.in_cell(i, j) implies cloned(d, #[trigger] res.cell(i, j)) by {
            lemma_cell(i, j, res.row_size as int, res.rows as int);
        }
    }
%%% fn Array2::index as op_index
%% rettype &T
%% contract
    requires self.wf(), self.in_cell(arg1.0 as int, arg1.1 as int),
    ensures *r == self.cell(arg1.0 as int, arg1.1 as int),
%% at body.start
    proof { assert(self.vec.len() == self.vec@.len()); lemma_cell(arg1.0 as int, arg1.1 as int, self.row_size as int, self.rows as int); }
%%% fn Array2::index_mut as op_index_mut
%% rettype &mut T
%% contract
    requires old(self).wf(), old(self).in_cell(arg1.0 as int, arg1.1 as int),
    ensures
        *r == old(self).cell(arg1.0 as int, arg1.1 as int),
        final(self).wf(),
        wrote(old(self), final(self), arg1.0 as int, arg1.1 as int, *final(r)),
%% at body.start
    proof {
        lemma_cell(arg1.0 as int, arg1.1 as int, self.row_size as int, self.rows as int);
        assert(self.vec.len() == self.vec@.len());
        lemma_write(self, arg1.0 as int, arg1.1 as int);
    }
%%% fn allocArray
%% contract
    requires V + extra <= usize::MAX, (V + extra) * V <= usize::MAX,
    ensures
        r.wf(), r.rows == V, r.cols == V, r.extra == extra,
        exists|d: T| call_ensures(T::default, (), d) && forall|i: int, j: int| r.in_cell(i, j) ==> cloned(d, #[trigger] r.cell(i, j)),
