%%% text
spec fn matrix(a: &Array2<F>) -> spec_fn(int, int) -> real { |i: int, j: int| a.cell(i, j)@ }
/// the matrix of the obstacles, extended by the visibility vectors of the two points
spec fn extended(c: &vconfig_t, pvis: Seq<F>, qvis: Seq<F>) -> spec_fn(int, int) -> real {
    |i: int, j: int| if i < c.N { c.vis.cell(i, j)@ } else if i == c.N { qvis[j]@ } else { pvis[j]@ }
}
%%% file trellis/src/pathplan/shortestpth.rs
%%% fn shortestPath
%% opt reals
%% opt index-ref wadj op_index
%% opt call-ghost shortestPathGeneric Ghost(wf)
%% contract
    requires
        V < i32::MAX, 0 <= root < V, 0 <= target < V,
        wadj.wf(), wadj.rows >= V, wadj.row_size >= V,
        w_ok(matrix(wadj), V as int),
    ensures
        within(matrix(wadj), V as int, root as int, target as int) ==> branch(matrix(wadj), V as int, r@, root as int, target as int),
        !within(matrix(wadj), V as int, root as int, target as int) ==> dead_end(matrix(wadj), V as int, r@, root as int, target as int),
%% at body.start
    let ghost wf = matrix(wadj);
%% closure 0
|__c0_0: usize, __c0_1: usize| -> (o: F)
    requires __c0_1 <= __c0_0 < V
    ensures o@ == wadj.cell(__c0_0 as int, __c0_1 as int)@
%%% fn makePath
%% opt reals
%% opt index-ref conf_vis op_index
%% opt call-ghost shortestPathGeneric Ghost(wf)
%% contract
    requires
        config_ok(conf), vis_ok(conf), pp < conf.Npoly, qp < conf.Npoly,
        pvis@.len() == conf.N + 2, qvis@.len() == conf.N + 2,
        !open_way(conf, p, q, pp as int, qp as int) ==> w_ok(extended(conf, pvis@, qvis@), conf.N + 2),
    ensures
        r@.len() == conf.N + 2, r@[conf.N + 1] == -1,
        open_way(conf, p, q, pp as int, qp as int) ==> r@[conf.N as int] == conf.N + 1,
        !open_way(conf, p, q, pp as int, qp as int) && within(extended(conf, pvis@, qvis@), conf.N + 2, conf.N + 1, conf.N as int) ==> branch(extended(conf, pvis@, qvis@), conf.N + 2, r@, conf.N + 1, conf.N as int),
        !open_way(conf, p, q, pp as int, qp as int) && !within(extended(conf, pvis@, qvis@), conf.N + 2, conf.N + 1, conf.N as int) ==> dead_end(extended(conf, pvis@, qvis@), conf.N + 2, r@, conf.N + 1, conf.N as int),
%% at body.start
    let ghost wf = extended(conf, pvis@, qvis@);
%% closure 0
|__c0_0: usize, __c0_1: usize| -> (o: F)
    requires __c0_1 <= __c0_0 < V + 2
    ensures o@ == wf(__c0_0 as int, __c0_1 as int)
