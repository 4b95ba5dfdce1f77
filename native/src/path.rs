//! C16 and C27: shortest paths, sparse and dense.
use crate::core::*;
use trellis::ortho::shortest_path::find_shortest_path;

type E = (i32, i32, i32); // from, to, weight

/// least weights from `from`, by relaxing every edge until nothing changes
fn relax(vs: &[i32], es: &[E], from: i32) -> Vec<Option<i64>> {
    let ix = |v: i32| vs.iter().position(|x| *x == v).unwrap();
    let mut d: Vec<Option<i64>> = vec![None; vs.len()];
    d[ix(from)] = Some(0);
    for _ in 0..=vs.len() {
        for (a, b, w) in es {
            if let Some(x) = d[ix(*a)] {
                let y = x + *w as i64;
                let t = &mut d[ix(*b)];
                if t.is_none() || t.unwrap() > y {
                    *t = Some(y);
                }
            }
        }
    }
    d
}

fn sparse_case(c: &mut Ctx, vs: &[i32], es: &[E], from: i32, to: i32) {
    let desc = format!("find_shortest_path {:?} {} -> {}", es, from, to);
    c.case(desc, es.len() >= 3 && from != to, || {
        let got = find_shortest_path(
            |v| es.iter().filter(move |e| e.0 == v).map(|e| (e.1, e.2)),
            from,
            to,
        );
        let want = relax(vs, es, from)[vs.iter().position(|x| *x == to).unwrap()];
        match (got, want) {
            (None, None) => Ok(()),
            (None, Some(w)) => Err(format!("no path reported, one of weight {} exists", w)),
            (Some(p), None) => Err(format!("reported {:?}, the goal is unreachable", p)),
            (Some(p), Some(w)) => {
                ensure!(p.first() == Some(&to), "reported {:?} does not begin at the goal", p);
                ensure!(p.last() == Some(&from), "reported {:?} does not end at the start", p);
                let mut sum = 0i64;
                for q in p.windows(2) {
                    let best = es.iter().filter(|e| e.0 == q[1] && e.1 == q[0]).map(|e| e.2).min();
                    ensure!(best.is_some(), "reported {:?}: no edge {} -> {}", p, q[1], q[0]);
                    sum += best.unwrap() as i64;
                }
                ensure!(sum == w, "reported {:?} of weight {}, the least is {}", p, sum, w);
                Ok(())
            }
        }
    });
}

pub fn c16(c: &mut Ctx) {
    c.rule("directed weighted graphs against least weights by exhaustive relaxation, reachable targets and others; non-trivial: three or more edges and distinct ends");
    // every graph on three vertices with each ordered pair, loops included, absent or of weight 0, 1 or 3
    let vs = [0, 1, 2];
    let ws = [-1, 0, 1, 3];
    for code in 0..4usize.pow(9) {
        if !c.thorough && code % 4 != 0 && code % 7 != 0 {
            continue;
        }
        let mut es: Vec<E> = vec![];
        let mut k = code;
        for p in 0..9 {
            let w = ws[k % 4];
            k /= 4;
            if w >= 0 {
                es.push((p / 3, p % 3, w));
            }
        }
        sparse_case(c, &vs, &es, 0, 2);
        if code % 64 == 0 {
            sparse_case(c, &vs, &es, 0, 0);
        }
        if !c.more() {
            break;
        }
    }
    c.exhaustive_note.push("graphs on 3 vertices with weights 0, 1, 3 or no edge for each ordered pair (a sample of them in the quick tier, as far as the time allows)".into());
    for n in [300i32, 600] {
        // a chain, with a heavier edge past each vertex
        let names: Vec<i32> = (0..n).collect();
        let mut es: Vec<E> = (1..n).map(|i| (i - 1, i, 1)).collect();
        es.extend((2..n).map(|i| (i - 2, i, 3)));
        sparse_case(c, &names, &es, 0, n - 1);
        // all vertices next to the start, of which the last leads on
        let mut es: Vec<E> = (1..n - 1).map(|i| (0, i, n - i)).collect();
        es.push((1, n - 1, 2));
        es.push((n - 2, n - 1, 2 * n));
        sparse_case(c, &names, &es, 0, n - 1);
    }
    // more vertices, edges and path elements than 16 bits can count
    {
        let n = 70_000i32;
        c.case(format!("a chain of {} vertices with a heavier edge past each and one back from each", n), true, || {
            let got = find_shortest_path(|v| vec![(v + 2, 3), (v + 1, 1), (v - 1, 0)].into_iter().filter(move |e| e.0 >= 0 && e.0 < n), 0, n - 1);
            let want: Vec<i32> = (0..n).rev().collect();
            ensure!(got.as_ref() == Some(&want), "a path of {:?} vertices, expected the whole chain", got.map(|p| p.len()));
            Ok(())
        });
        c.case(format!("a start with {} neighbours, the lightest of which does not lead on", n - 2), true, || {
            let out = |v: i32| -> Vec<(i32, i32)> {
                match v {
                    0 => (1..n - 1).map(|i| (i, n - i)).collect(),
                    1 => vec![(n - 1, 2)],
                    v if v < n - 2 => vec![(n - 1, n + 1)],
                    _ => vec![],
                }
            };
            let got = find_shortest_path(|v| out(v).into_iter(), 0, n - 1);
            ensure!(got == Some(vec![n - 1, 1, 0]), "found {:?}, expected [{}, 1, 0]", got, n - 1);
            let got = find_shortest_path(|v| out(v).into_iter(), 0, n);
            ensure!(got.is_none(), "found {:?}, the goal is unreachable", got);
            Ok(())
        });
    }
    let mut r = Rng::new(c.seed);
    let mut first = true;
    while c.more() || first {
        for _ in 0..200 {
            first = false;
            let n = 1 + r.below(12);
            let names: Vec<i32> = match r.below(3) {
                0 => (0..n as i32).collect(),
                1 => (0..n as i32).map(|i| i - n as i32 / 2).collect(),
                _ => (0..n as i32).map(|i| if i % 2 == 0 { i32::MAX - i } else { i32::MIN + i }).collect(),
            };
            let m = r.below(4 * n + 1);
            let top = [1usize, 2, 4, 30, 1000, 100_000_000][r.below(6)];
            let mut es: Vec<E> = vec![];
            for _ in 0..m {
                let a = names[r.below(n)];
                let b = names[r.below(n)];
                es.push((a, b, r.below(top) as i32));
            }
            let a = names[r.below(n)];
            let b = names[r.below(n)];
            sparse_case(c, &names, &es, a, b);
        }
        // long chains with shortcuts
        let n = 30 + r.below(60);
        let names: Vec<i32> = (0..n as i32).collect();
        let mut es: Vec<E> = (1..n as i32).map(|i| (i - 1, i, r.below(4) as i32)).collect();
        for _ in 0..n {
            let a = r.below(n) as i32;
            let b = r.below(n) as i32;
            es.push((a, b, r.below(4 * n) as i32));
        }
        sparse_case(c, &names, &es, 0, n as i32 - 1);
        // one heavy edge close to the limit of the weight type
        sparse_case(c, &[0, 1, 2], &[(0, 1, i32::MAX - 1), (1, 2, 1), (0, 2, i32::MAX)], 0, 2);
    }
}

use trellis::pathplan::array2::Array2;
use trellis::pathplan::shortestpth::{makePath, shortestPath, shortestPathGeneric};
use trellis::pathplan::visibility::{directVis, ptVis};

/// least weights from `root`; zero means no edge
fn least(m: &[Vec<f64>], root: usize) -> Vec<f64> {
    let n = m.len();
    let mut d = vec![f64::INFINITY; n];
    d[root] = 0.0;
    for _ in 0..n {
        for a in 0..n {
            for b in 0..n {
                if m[a][b] != 0.0 && d[a] + m[a][b] < d[b] {
                    d[b] = d[a] + m[a][b];
                }
            }
        }
    }
    d
}
fn follow(m: &[Vec<f64>], dad: &[i32], root: usize, target: usize, want: f64, tol: f64) -> Result<(), String> {
    ensure!(dad.len() == m.len(), "{} predecessors for {} vertices", dad.len(), m.len());
    ensure!(dad[root] == -1, "the predecessor of the root is {}", dad[root]);
    let mut at = target;
    let mut sum = 0.0;
    let mut steps = 0;
    while at != root {
        let d = dad[at];
        ensure!(d >= 0 && (d as usize) < m.len(), "the predecessors {:?} do not lead from {} to {}", dad, target, root);
        ensure!(m[at][d as usize] != 0.0, "predecessors {:?}: no edge {} - {}", dad, at, d);
        sum += m[at][d as usize];
        at = d as usize;
        steps += 1;
        ensure!(steps <= m.len(), "the predecessors {:?} run in a circle", dad);
    }
    ensure!((sum - want).abs() <= tol * want, "predecessors {:?}: weight {}, the least is {}", dad, sum, want);
    Ok(())
}
/// the target cannot be reached: its predecessors end at a vertex without one, and do not meet the root
fn dead_end(m: &[Vec<f64>], dad: &[i32], root: usize, target: usize) -> Result<(), String> {
    ensure!(dad.len() == m.len(), "{} predecessors for {} vertices", dad.len(), m.len());
    ensure!(dad[root] == -1, "the predecessor of the root is {}", dad[root]);
    let mut at = target;
    for _ in 0..=m.len() {
        ensure!(at != root, "predecessors {:?} lead from {} to {}, which are not connected", dad, target, root);
        if dad[at] == -1 {
            return Ok(());
        }
        ensure!(dad[at] >= 0 && (dad[at] as usize) < m.len() && m[at][dad[at] as usize] != 0.0, "predecessors {:?}: no edge from {}", dad, at);
        at = dad[at] as usize;
    }
    Err(format!("the predecessors {:?} run in a circle", dad))
}
fn dense_case(c: &mut Ctx, m: &[Vec<f64>], root: usize, target: usize) {
    let n = m.len();
    let want = least(m, root)[target];
    let reached = want < i32::MAX as f64;
    if !reached && want.is_finite() {
        return;
    }
    c.case(format!("shortestPath {:?} from {} to {}", m, root, target), n >= 3 && root != target, || {
        let dad = shortestPathGeneric(root as i32, target as i32, n, |i, j| m[i][j]);
        if reached { follow(m, &dad, root, target, want, 0.0)? } else { dead_end(m, &dad, root, target)? }
        let mut a: Array2<f64> = Array2::new(n, n, 2);
        for i in 0..n {
            for j in 0..n {
                a[(i, j)] = m[i][j];
            }
        }
        let dad = shortestPath(root as i32, target as i32, n, &a);
        if reached { follow(m, &dad, root, target, want, 0.0) } else { dead_end(m, &dad, root, target) }
    });
}
fn make_case(c: &mut Ctx, ps: &[Vec<crate::vis::P>], p: crate::vis::P, q: crate::vis::P, pp: i32, qp: i32) {
    use crate::vis::{open, pt};
    c.case(format!("makePath {:?} {:?} in {} to {:?} in {}", ps, p, pp, q, qp), ps.len() >= 2, || {
        let g = open(ps);
        let n = g.N;
        let (pv, qv) = (ptVis(&g, pp, pt(p)), ptVis(&g, qp, pt(q)));
        let dad;
        let direct = crate::vis::world(ps).free(p, q, &[pp, qp]);
        ensure!(directVis(pt(p), pp, pt(q), qp, &g) == direct, "the points {} each other", if direct { "see" } else { "do not see" });
        if direct {
            dad = makePath(pt(p), pp, &pv, pt(q), qp, &qv, &g);
            ensure!(dad.len() == n + 2 && dad[n] == n as i32 + 1 && dad[n + 1] == -1, "the points see each other, predecessors {:?}", dad);
            return Ok(());
        }
        let mut m = vec![vec![0.0; n + 2]; n + 2];
        for i in 0..n {
            for j in 0..n {
                m[i][j] = g.vis[(i, j)];
            }
            m[i][n] = qv[i];
            m[n][i] = qv[i];
            m[i][n + 1] = pv[i];
            m[n + 1][i] = pv[i];
        }
        let want = least(&m, n + 1)[n];
        dad = makePath(pt(p), pp, &pv, pt(q), qp, &qv, &g);
        if !want.is_finite() {
            return dead_end(&m, &dad, n + 1, n);
        }
        follow(&m, &dad, n + 1, n, want, 1e-9)
    });
}

pub fn c27(c: &mut Ctx) {
    c.rule("symmetric matrices of integral weights times a power of two from 1 down to 2^-60, and obstacle sets for makePath, against least weights by exhaustive relaxation, reachable targets and others; non-trivial: three or more vertices (two or more polygons)");
    // every graph on four vertices with weights 0 (no edge), 1 and 3
    let ws = [0.0, 1.0, 3.0];
    for code in 0..729usize {
        let mut m = vec![vec![0.0; 4]; 4];
        let mut k = code;
        for i in 0..4 {
            for j in 0..i {
                m[i][j] = ws[k % 3];
                m[j][i] = ws[k % 3];
                k /= 3;
            }
        }
        for root in 0..4 {
            for target in 0..4 {
                dense_case(c, &m, root, target);
            }
        }
    }
    c.exhaustive_note.push("graphs on 4 vertices with each pair unconnected or of weight 1 or 3, every root and target".into());
    for n in [40usize, 300] {
        // a chain from the greatest number down, with heavier edges past each vertex
        let mut m = vec![vec![0.0; n]; n];
        for i in 1..n {
            m[i][i - 1] = 1.0;
            m[i - 1][i] = 1.0;
            if i >= 2 {
                m[i][i - 2] = 2.5;
                m[i - 2][i] = 2.5;
            }
        }
        dense_case(c, &m, 0, n - 1);
        dense_case(c, &m, n - 1, 0);
        dense_case(c, &m, n / 2, n - 1);
    }
    let mut r = Rng::new(c.seed);
    let mut first = true;
    while c.more() || first {
        first = false;
        for _ in 0..100 {
            let n = 1 + r.below(14);
            let top = [1usize, 2, 5, 100, 100_000_000, 2_147_483_000][r.below(6)];
            let den = 1 + r.below(5);
            let loops = r.chance(1, 3);
            // powers of two keep all sums exact
            let scale = [1.0, 1.0, 0.5f64.powi(10), 0.5f64.powi(30), 0.5f64.powi(60)][r.below(5)];
            let mut m = vec![vec![0.0; n]; n];
            for i in 0..n {
                for j in 0..=i {
                    if (i != j || loops) && r.chance(1, den) {
                        let w = (1 + r.below(top)) as f64 * scale;
                        m[i][j] = w;
                        m[j][i] = w;
                    }
                }
            }
            let (a, b) = (r.below(n), r.below(n));
            dense_case(c, &m, a, b);
        }
        // a path whose weight stays just below the sentinel
        let big = 2_147_483_646.0;
        dense_case(c, &[vec![0.0, big, 0.0], vec![big, 0.0, 0.5], vec![0.0, 0.5, 0.0]], 0, 2);
        for _ in 0..20 {
            let grid = 4 + r.below(10);
            let ps = crate::vis::polys(&mut r, 5, grid);
            let p = (r.below(grid) as i64, r.below(grid) as i64);
            let q = (r.below(grid) as i64, r.below(grid) as i64);
            let mut id = |r: &mut Rng| if ps.is_empty() || r.chance(2, 3) { -1 } else { r.below(ps.len()) as i32 };
            let (pp, qp) = (id(&mut r), id(&mut r));
            make_case(c, &ps, p, q, pp, qp);
        }
    }
}
