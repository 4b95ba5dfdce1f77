//! C36: the graph builder against a list of the edges added.
use crate::core::*;
use trellis::graph::Graph;
use trellis::testing::{graph_builder, graph_from_paths, GraphBuilder};

#[derive(Clone, Debug)]
enum Op {
    Edge(u32, u32),
    Path(Vec<u32>),
    Chain(Vec<u32>),
}
fn edges_of(ops: &[Op]) -> Vec<(u32, u32)> {
    let mut e = vec![];
    for o in ops {
        match o {
            Op::Edge(a, b) => e.push((*a, *b)),
            Op::Path(p) | Op::Chain(p) => e.extend(p.windows(2).map(|w| (w[0], w[1]))),
        }
    }
    e
}
fn apply(b: &mut GraphBuilder, ops: &[Op]) {
    for o in ops {
        match o {
            Op::Edge(x, y) => b.edge(*x, *y),
            Op::Path(p) => b.path(p),
            Op::Chain(p) => {
                if let Some((f, rest)) = p.split_first() {
                    let mut c = b.from(*f);
                    for t in rest {
                        c = c.to(*t);
                    }
                }
            }
        }
    }
}
fn same(g: &Graph, e: &[(u32, u32)]) -> Result<(), String> {
    let n = e.iter().map(|(a, b)| (*a).max(*b) as usize + 1).max().unwrap_or(0);
    ensure!(g.num_verts() == n, "{} vertices, expected {}", g.num_verts(), n);
    let mut all: Vec<Vec<u32>> = vec![vec![]; n];
    for (f, t) in e {
        all[*f as usize].push(*t);
    }
    for (v, want) in all.iter().enumerate() {
        let got = g.edges_from(v as u32);
        ensure!(got == want.as_slice(), "the edges of {} are {:?}, added were {:?}", v, got, want);
    }
    Ok(())
}
fn case(c: &mut Ctx, ops: Vec<Op>) {
    let e = edges_of(&ops);
    c.case(format!("{:?}", ops), e.len() > 1, || {
        let mut b = graph_builder();
        apply(&mut b, &ops);
        same(&b.build(), &e)?;
        if ops.iter().all(|o| matches!(o, Op::Path(_))) {
            let ps: Vec<&[u32]> = ops.iter().map(|o| if let Op::Path(p) = o { &p[..] } else { &[][..] }).collect();
            same(&graph_from_paths(&ps), &e)?;
        }
        Ok(())
    });
}
pub fn c36(c: &mut Ctx) {
    c.rule("sequences of edges, paths and chains over few and many vertices, with holes, repeats, loops and descending sources, built and compared with the list of edges added; non-trivial: at least two edges");
    // every sequence of at most 3 edges over 4 vertices
    let all: Vec<(u32, u32)> = (0..16).map(|i| (i / 4, i % 4)).collect();
    case(c, vec![]);
    for a in &all {
        case(c, vec![Op::Edge(a.0, a.1)]);
        for b in &all {
            case(c, vec![Op::Edge(a.0, a.1), Op::Edge(b.0, b.1)]);
            case(c, vec![Op::Path(vec![a.0, a.1, b.0, b.1])]);
            case(c, vec![Op::Chain(vec![a.0, a.1, b.0, b.1])]);
            for d in &all {
                case(c, vec![Op::Edge(a.0, a.1), Op::Edge(b.0, b.1), Op::Edge(d.0, d.1)]);
            }
        }
    }
    for n in 0..4u32 {
        case(c, vec![Op::Path((0..n).collect()), Op::Path(vec![]), Op::Path(vec![7])]);
        case(c, vec![Op::Chain((0..n).rev().collect()), Op::Chain(vec![9])]);
    }
    c.exhaustive_note.push("all sequences of at most 3 edges over 4 vertices, all paths and chains of 4 steps over them".into());
    let n = 70_000u32;
    case(c, vec![Op::Path((0..n).collect())]);
    case(c, vec![Op::Chain((0..n).rev().collect()), Op::Edge(0, n + 5)]);
    case(c, (0..n).map(|i| Op::Edge(i * 7919 % 65_537, 3)).collect());
    case(c, (0..n).map(|i| Op::Edge(3, i)).collect());
    let mut r = Rng::new(c.seed);
    while c.more() {
        let n = [2, 3, 5, 9, 40, 3000][r.below(6)];
        let k = r.below(if n > 10 { 60 } else { 12 });
        let paths_only = r.chance(1, 3);
        let mut ops = vec![];
        for _ in 0..k {
            let len = r.below(6);
            let p: Vec<u32> = (0..len).map(|_| r.below(n) as u32).collect();
            ops.push(match if paths_only { 1 } else { r.below(3) } {
                0 => Op::Edge(r.below(n) as u32, r.below(n) as u32),
                1 => Op::Path(p),
                _ => Op::Chain(p),
            });
        }
        case(c, ops);
    }
}
