//! C05..C14: graph algorithms against list-of-lists oracles.
use crate::core::*;
use trellis::graph::{assert_graph_is_well_formed, Graph};
use trellis::ramp_table::RampTable;

pub type A = Vec<Vec<u32>>;

pub fn build(a: &A) -> Graph {
    let mut g = Graph::new();
    for l in a {
        for &t in l {
            g.push_to(t);
        }
        g.finish_from();
    }
    g
}

fn lists(n: usize, maxlen: usize) -> Vec<Vec<u32>> {
    let mut out: Vec<Vec<u32>> = vec![vec![]];
    let mut last: Vec<Vec<u32>> = vec![vec![]];
    for _ in 0..maxlen {
        let mut next = vec![];
        for l in &last {
            for v in 0..n as u32 {
                let mut m = l.clone();
                m.push(v);
                next.push(m);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn exhaust(n: usize, maxlen: usize, dag: bool, f: &mut dyn FnMut(&A)) {
    let l = lists(n, maxlen);
    let mut ix = vec![0usize; n];
    loop {
        let a: A = ix.iter().map(|i| l[*i].clone()).collect();
        if !dag || acyclic(&a) {
            f(&a);
        }
        let mut i = 0;
        loop {
            if i == n {
                return;
            }
            ix[i] += 1;
            if ix[i] < l.len() {
                break;
            }
            ix[i] = 0;
            i += 1;
        }
    }
}

pub fn acyclic(a: &A) -> bool {
    // Kahn
    let n = a.len();
    let mut indeg = vec![0usize; n];
    for l in a {
        for &t in l {
            indeg[t as usize] += 1;
        }
    }
    let mut q: Vec<usize> = (0..n).filter(|v| indeg[*v] == 0).collect();
    let mut seen = 0;
    while let Some(v) = q.pop() {
        seen += 1;
        for &t in &a[v] {
            indeg[t as usize] -= 1;
            if indeg[t as usize] == 0 {
                q.push(t as usize);
            }
        }
    }
    seen == n
}

pub fn random_graph(r: &mut Rng, dag: bool, max_n: usize) -> A {
    let n = r.below(max_n + 1);
    let mut a: A = vec![vec![]; n];
    if n == 0 {
        return a;
    }
    let perm = {
        let mut p: Vec<u32> = (0..n as u32).collect();
        for i in (1..n).rev() {
            p.swap(i, r.below(i + 1));
        }
        p
    };
    let style = r.below(4);
    let m = match style {
        0 => r.below(n + 1),
        1 => r.below(3 * n + 1),
        2 => n / 2 + r.below(n / 2 + 1),
        _ => r.below(n + n / 3 + 1),
    };
    for _ in 0..m {
        let (mut x, mut y) = if style >= 2 && n > 2 {
            // long paths
            let x = r.below(n - 1);
            (x, x + 1)
        } else {
            (r.below(n), r.below(n))
        };
        if r.chance(1, 6) {
            x = r.below(n);
            y = r.below(n);
        }
        if dag {
            if x == y {
                continue;
            }
            if x > y {
                std::mem::swap(&mut x, &mut y);
            }
        }
        let l = &mut a[perm[x] as usize];
        if r.chance(1, 2) {
            l.push(perm[y]);
        } else {
            l.insert(0, perm[y]);
        }
    }
    a
}

fn graphs(c: &mut Ctx, dag: bool, f: &dyn Fn(&Graph, &A) -> Result<(), String>) {
    let one = |c: &mut Ctx, a: &A| {
        let a = a.clone();
        let nontriv = a.iter().map(|l| l.len()).sum::<usize>() >= 2;
        c.case(format!("adjacency {:?}", a), nontriv, move || f(&build(&a), &a));
    };
    for n in 0..=3usize {
        exhaust(n, 3, dag, &mut |a| one(c, a));
    }
    exhaust(4, if dag { 2 } else { 1 }, dag, &mut |a| one(c, a));
    if c.thorough {
        exhaust(4, 2, dag, &mut |a| one(c, a));
        exhaust(5, 1, dag, &mut |a| one(c, a));
        exhaust(6, 1, dag, &mut |a| one(c, a));
    }
    c.exhaustive_note.push(format!("all {}adjacency lists with up to 3 vertices of up to 3 targets and with 4 vertices of up to {} targets{}", if dag { "acyclic " } else { "" }, if dag || c.thorough { 2 } else { 1 }, if c.thorough { ", up to 6 vertices of up to one target" } else { "" }));
    // long deterministic families (deep recursion, long chains, wide fans)
    for n in [10usize, 100, 3000] {
        let fwd: A = (0..n).map(|i| if i + 1 < n { vec![i as u32 + 1] } else { vec![] }).collect();
        let bwd: A = (0..n).map(|i| if i > 0 { vec![i as u32 - 1] } else { vec![] }).collect();
        let fan: A = (0..n).map(|i| if i == 0 { (1..n as u32).collect() } else { vec![] }).collect();
        let fanin: A = (0..n).map(|i| if i == 0 { vec![] } else { vec![0u32; 1 + i % 2] }).collect();
        for (nm, a) in [("forward path", fwd), ("backward path", bwd), ("fan-out", fan), ("fan-in with doubled edges", fanin)] {
            c.case(format!("{} on {} vertices", nm, n), true, || f(&build(&a), &a));
        }
    }
    // more vertices, edges and degrees than 16 bits can count
    {
        let n = 70_000usize;
        let fan: A = (0..n).map(|i| if i == 0 { (1..n as u32).collect() } else { vec![] }).collect();
        let fanin: A = (0..n).map(|i| if i == 0 { vec![] } else { vec![0u32; 1 + i % 2] }).collect();
        let fwd: A = (0..n).map(|i| if i + 1 < n { vec![i as u32 + 1] } else { vec![] }).collect();
        let bwd: A = (0..n).map(|i| if i > 0 { vec![i as u32 - 1] } else { vec![] }).collect();
        let pairs: A = (0..n).map(|i| if i % 2 == 0 { vec![(n - 1 - i) as u32] } else { vec![] }).collect();
        for (nm, a) in [("forward path", fwd), ("backward path", bwd), ("fan-out", fan), ("fan-in with doubled edges", fanin), ("separate edges, from both ends inwards", pairs)] {
            c.case(format!("{} on {} vertices", nm, n), true, || f(&build(&a), &a));
        }
    }
    let mut r = Rng::new(c.seed);
    while c.more() {
        let mx = if r.chance(1, 400) { 1000 } else { [5, 8, 14, 40][r.below(4)] };
        let a = random_graph(&mut r, dag, mx);
        one(c, &a);
    }
}

fn edges(a: &A) -> Vec<(u32, u32)> {
    a.iter().enumerate().flat_map(|(i, l)| l.iter().map(move |t| (i as u32, *t))).collect()
}

fn read(t: &RampTable<u32>) -> A {
    (0..t.len()).map(|i| t.entry_values(i).to_vec()).collect()
}

fn well(t: &RampTable<u32>) -> Result<(), String> {
    ensure!(!t.index.is_empty() && t.index[0] == 0, "table index malformed: {:?}", t.index);
    ensure!(t.index.windows(2).all(|w| w[0] <= w[1]), "table index decreases: {:?}", t.index);
    ensure!(*t.index.last().unwrap() as usize <= t.values.len(), "table index exceeds values");
    Ok(())
}

pub fn c05(c: &mut Ctx) {
    c.rule("adjacency lists built through push_to/finish_from, every query and enumeration compared with the lists; assert_graph_is_well_formed also on graphs with out-of-range targets; non-trivial: at least two edges");
    graphs(c, false, &|g, a| {
        ensure!(g.num_verts() == a.len(), "num_verts {} expected {}", g.num_verts(), a.len());
        ensure!(g.num_edges() == edges(a).len(), "num_edges {} expected {}", g.num_edges(), edges(a).len());
        for (i, l) in a.iter().enumerate() {
            ensure!(g.edges_from(i as u32) == l.as_slice(), "edges_from({}) = {:?}", i, g.edges_from(i as u32));
        }
        ensure!(read(g.edges()) == *a, "edges() differs");
        let fl: Vec<(u32, u32)> = g.iter_edges_flattened().collect();
        ensure!(fl == edges(a), "iter_edges_flattened {:?} expected {:?}", fl, edges(a));
        let fe: Vec<(u32, Vec<u32>)> = g.iter_from_edges().map(|(v, l)| (v, l.to_vec())).collect();
        let want: Vec<(u32, Vec<u32>)> = a.iter().enumerate().map(|(i, l)| (i as u32, l.clone())).collect();
        ensure!(fe == want, "iter_from_edges {:?} expected {:?}", fe, want);
        assert_graph_is_well_formed(g);
        let mut g2 = g.clone();
        ensure!(g2.edges_mut() == g.edges(), "edges_mut differs");
        if a.len() <= 40 {
            let fl = edges(a);
            laws!("iter_edges_flattened()", fl.len(), [], g.iter_edges_flattened(), |x, i| x == fl[i]);
            laws!("iter_from_edges()", a.len(), [], g.iter_from_edges(), |x, i| x.0 == i as u32 && x.1 == a[i].as_slice());
        }
        // targets of a vertex not yet closed are nobody's
        let mut g3 = g.clone();
        g3.push_to(0);
        g3.push_to(a.len() as u32);
        ensure!(g3.num_verts() == a.len() && read(g3.edges()) == *a, "appending a target changes the graph before the vertex is closed");
        ensure!(g3.iter_edges_flattened().eq(edges(a)), "iter_edges_flattened lists targets of a vertex not yet closed");
        ensure!(g3.iter_from_edges().count() == a.len(), "iter_from_edges lists a vertex not yet closed");
        g3.finish_from();
        ensure!(g3.num_verts() == a.len() + 1 && g3.num_edges() == edges(a).len() + 2, "closing a vertex: num_verts {} num_edges {}", g3.num_verts(), g3.num_edges());
        ensure!(g3.edges_from(a.len() as u32) == [0, a.len() as u32], "edges_from the closed vertex: {:?}", g3.edges_from(a.len() as u32));
        ensure!(g3.iter_edges_flattened().skip(edges(a).len()).eq(vec![(a.len() as u32, 0), (a.len() as u32, a.len() as u32)]), "iter_edges_flattened after closing a vertex");
        // out of range target in each possible place
        let (imax, jmax) = if a.len() > 5000 { (1, 1) } else { (6, 4) };
        for i in 0..a.len().min(imax) {
            for j in 0..a[i].len().min(jmax) {
                for bad in [a.len() as u32, a.len() as u32 + 7, u32::MAX] {
                    let mut b = a.clone();
                    b[i][j] = bad;
                    let gb = build(&b);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| assert_graph_is_well_formed(&gb)));
                    ensure!(r.is_err(), "assert_graph_is_well_formed accepts {:?}", b);
                }
            }
        }
        Ok(())
    });
}

pub fn c06(c: &mut Ctx) {
    c.rule("well-formed graphs; the transposed table must be well-formed and equal the per-vertex ascending list of predecessors; non-trivial: at least two edges");
    graphs(c, false, &|g, a| {
        let mut want: A = vec![vec![]; a.len()];
        for (f, t) in edges(a) {
            want[t as usize].push(f);
        }
        let t = g.transpose();
        well(&t.edges)?;
        ensure!(read(&t.edges) == want, "transpose gives {:?}, expected {:?}", read(&t.edges), want);
        ensure!(t.num_edges() == g.num_edges(), "transpose has {} edges", t.num_edges());
        Ok(())
    });
}

pub fn c07(c: &mut Ctx) {
    c.rule("well-formed graphs (cyclic ones give no order); order checked for membership, multiplicity and edge direction, and against the reverse variant; non-trivial: at least two edges");
    graphs(c, false, &|g, a| {
        let fwd = trellis::topo_sort::topo_sort(g);
        let rev = trellis::topo_sort::topo_sort_reverse(g);
        match (fwd, rev) {
            (Err(_), Err(_)) => Ok(()),
            (Ok(f), Ok(mut r)) => {
                r.reverse();
                ensure!(f == r, "topo_sort {:?} is not the reverse of topo_sort_reverse {:?}", f, r);
                let mut pos = vec![usize::MAX; a.len()];
                for (i, v) in f.iter().enumerate() {
                    ensure!((*v as usize) < a.len(), "unknown vertex {}", v);
                    ensure!(pos[*v as usize] == usize::MAX, "vertex {} occurs twice in {:?}", v, f);
                    pos[*v as usize] = i;
                }
                let mut touched = vec![false; a.len()];
                for (x, y) in edges(a) {
                    touched[x as usize] = true;
                    touched[y as usize] = true;
                    let (px, py) = (pos[x as usize], pos[y as usize]);
                    ensure!(px != usize::MAX && py != usize::MAX, "edge {} -> {} has an end missing from {:?}", x, y, f);
                    ensure!(px < py, "edge {} -> {} is not respected by {:?}", x, y, f);
                }
                for v in 0..a.len() {
                    ensure!(touched[v] == (pos[v] != usize::MAX), "vertex {}: has edges {}, listed {}", v, touched[v], pos[v] != usize::MAX);
                }
                Ok(())
            }
            (f, r) => Err(format!("topo_sort {:?} but topo_sort_reverse {:?}", f, r)),
        }
    });
}

pub fn c08(c: &mut Ctx) {
    c.rule("well-formed graphs; success compared with an independent acyclicity test (Kahn); non-trivial: at least two edges");
    graphs(c, false, &|g, a| {
        let ok = acyclic(a);
        let r = trellis::topo_sort::topo_sort(g);
        ensure!(r.is_ok() == ok, "topo_sort gives {:?} on {} graph", r, if ok { "an acyclic" } else { "a cyclic" });
        let r = trellis::topo_sort::topo_sort_reverse(g);
        ensure!(r.is_ok() == ok, "topo_sort_reverse gives {:?} on {} graph", r, if ok { "an acyclic" } else { "a cyclic" });
        let r = trellis::layering::create_layer_map(g);
        ensure!(r.is_ok() == ok, "create_layer_map gives {:?} on {} graph", r, if ok { "an acyclic" } else { "a cyclic" });
        Ok(())
    });
}

pub fn c09(c: &mut Ctx) {
    c.rule("acyclic well-formed graphs; layers compared with the longest-path recursion; non-trivial: at least two edges");
    graphs(c, true, &|g, a| {
        let m = match trellis::layering::create_layer_map(g) {
            Ok(m) => m,
            Err(e) => return Err(format!("error {:?} on an acyclic graph", e)),
        };
        ensure!(m.v_layer.len() == a.len(), "layer list has length {}", m.v_layer.len());
        for (v, l) in a.iter().enumerate() {
            let want = l.iter().map(|t| m.v_layer[*t as usize] + 1).max().unwrap_or(0);
            ensure!(m.v_layer[v] == want, "vertex {} is in layer {}, expected {} ({:?})", v, m.v_layer[v], want, m.v_layer);
        }
        let want = m.v_layer.iter().max().map(|x| *x as usize).unwrap_or(0) + 1;
        ensure!(m.num_layers == want, "num_layers {} expected {}", m.num_layers, want);
        Ok(())
    });
}

fn uf_find(p: &mut Vec<usize>, mut x: usize) -> usize {
    while p[x] != x {
        p[x] = p[p[x]];
        x = p[x];
    }
    x
}

pub fn c10(c: &mut Ctx) {
    c.rule("well-formed graphs; subgraphs compared with union-find components over vertices that have edges, in order of any numbering; non-trivial: at least two edges");
    let chk = |g: &Graph, a: &A| {
        let n = a.len();
        let mut p: Vec<usize> = (0..n).collect();
        let mut touched = vec![false; n];
        for (x, y) in edges(a) {
            touched[x as usize] = true;
            touched[y as usize] = true;
            let (rx, ry) = (uf_find(&mut p, x as usize), uf_find(&mut p, y as usize));
            p[rx] = ry;
        }
        let mut comp: std::collections::BTreeMap<usize, Vec<u32>> = Default::default();
        for v in 0..n {
            if touched[v] {
                let r = uf_find(&mut p, v);
                comp.entry(r).or_default().push(v as u32);
            }
        }
        let mut want: Vec<Vec<u32>> = comp.into_values().collect();
        want.sort();
        let s = trellis::disjoint::find_disjoint_subgraphs(g).subgraphs;
        well(&s)?;
        ensure!(*s.index.last().unwrap() as usize == s.values.len(), "vertices outside every subgraph");
        let got = read(&s);
        let mut got2 = got.clone();
        got2.sort();
        ensure!(got2 == want, "subgraphs {:?}, expected (in any order) {:?}", got, want);
        Ok(())
    };
    graphs(c, false, &chk);
}

fn chains(a: &A) -> Vec<Vec<u32>> {
    let n = a.len();
    let mut indeg = vec![0; n];
    for (_, t) in edges(a) {
        indeg[t as usize] += 1;
    }
    let thru = |v: u32| indeg[v as usize] == 1 && a[v as usize].len() == 1 && a[v as usize][0] != v;
    let mut out = vec![];
    for v in 0..n as u32 {
        if thru(v) {
            continue;
        }
        for &t in &a[v as usize] {
            if !thru(t) {
                continue;
            }
            let mut ch = vec![v];
            let mut x = t;
            while thru(x) {
                ch.push(x);
                x = a[x as usize][0];
            }
            ch.push(x);
            out.push(ch);
        }
    }
    out
}

pub fn c11(c: &mut Ctx) {
    c.rule("well-formed graphs (cyclic ones for termination and absence of panics, acyclic ones also for the result), chains compared with a direct walk; non-trivial: at least two edges");
    graphs(c, false, &|g, a| {
        let t = trellis::find_chains::find_chains(g);
        if acyclic(a) {
            well(&t)?;
            ensure!(*t.index.last().unwrap() as usize == t.values.len(), "values outside every chain");
            ensure!(read(&t) == chains(a), "chains {:?}, expected {:?}", read(&t), chains(a));
        }
        Ok(())
    });
    let mut r = Rng::new(c.seed ^ 77);
    for _ in 0..3000 {
        let a = random_graph(&mut r, true, 20);
        c.case(format!("adjacency {:?}", a), true, || {
            let t = trellis::find_chains::find_chains(&build(&a));
            well(&t)?;
            ensure!(read(&t) == chains(&a), "chains {:?}, expected {:?}", read(&t), chains(&a));
            Ok(())
        });
    }
}

fn degree_case(c: &mut Ctx, e: &[u32], d: &[u16]) {
    let (e, d) = (e.to_vec(), d.to_vec());
    let desc = if e.len() > 60 { format!("{} occurrences starting {:?}, counters {:?}", e.len(), &e[..10], d) } else { format!("list {:?}, counters {:?}", e, d) };
    c.case(desc, e.len() >= 2, move || {
        let mut got = d.clone();
        let flag = trellis::add_degree(&e, &mut got);
        let mut want = d.clone();
        let mut lost = false;
        for &v in &e {
            match want[v as usize].checked_add(1) {
                Some(n) => want[v as usize] = n,
                None => lost = true,
            }
        }
        ensure!(got == want, "counters {:?}, expected {:?}", got, want);
        ensure!(flag == lost, "flag {}, expected {}", flag, lost);
        let got = trellis::find_degree(&e, d.len() as u32);
        let mut want = vec![0u16; d.len()];
        for &v in &e {
            want[v as usize] = want[v as usize].saturating_add(1);
        }
        ensure!(got == want, "find_degree {:?}, expected {:?}", got, want);
        Ok(())
    });
}

pub fn c12(c: &mut Ctx) {
    c.rule("occurrence lists with prior counters at and near 0, 255/256 and 65535; non-trivial: at least two occurrences");
    let bases = [0u16, 1, 254, 255, 256, 32767, 65533, 65534, 65535];
    for n in 1..=2usize {
        for l in lists(n, 4) {
            for b0 in bases {
                for b1 in bases {
                    let d: Vec<u16> = [b0, b1][..n].to_vec();
                    degree_case(c, &l, &d);
                    if n == 1 {
                        break;
                    }
                }
            }
        }
    }
    for k in [65534usize, 65535, 65536, 70000, 140000] {
        let l = vec![1u32; k];
        degree_case(c, &l, &[3, 0, 9]);
    }
    {
        let d: Vec<u16> = (0..70_000u32).map(|i| (i % 7) as u16).collect();
        let l: Vec<u32> = (0..90_000u32).map(|i| (i * 31) % 70_000).collect();
        c.case("90000 occurrences of 70000 vertices".into(), true, move || {
            let mut want = vec![0u16; 70_000];
            l.iter().for_each(|v| want[*v as usize] += 1);
            let got = trellis::find_degree(&l, 70_000);
            ensure!(got == want, "find_degree differs from the count");
            let mut e = d.clone();
            let f = trellis::add_degree(&l, &mut e);
            ensure!(!f, "nothing was lost");
            for i in 0..d.len() {
                ensure!(e[i] == d[i] + want[i], "counter {} is {}, expected {}", i, e[i], d[i] + want[i]);
            }
            Ok(())
        });
    }
    c.exhaustive_note.push("all lists of up to 4 occurrences over 2 vertices with 9 boundary counter values each".into());
    let mut r = Rng::new(c.seed);
    while c.more() {
        let big = r.chance(1, 60);
        let n = 1 + r.below(if big { 400 } else { 10 });
        let l: Vec<u32> = (0..r.below(if big { 5000 } else { 40 })).map(|_| r.below(n) as u32).collect();
        let d: Vec<u16> = (0..n).map(|_| if r.chance(1, 3) { r.next() as u16 } else { bases[r.below(9)] }).collect();
        degree_case(c, &l, &d);
    }
}

pub fn c13(c: &mut Ctx) {
    c.rule("well-formed graphs; the three flag vectors compared with their definitions; non-trivial: at least two edges");
    graphs(c, false, &|g, a| {
        let n = a.len();
        let mut tgt = vec![false; n];
        for (_, t) in edges(a) {
            tgt[t as usize] = true;
        }
        let src: Vec<bool> = tgt.iter().map(|b| !b).collect();
        let snk: Vec<bool> = a.iter().map(|l| l.is_empty()).collect();
        let got = trellis::find_sources(&g.edges);
        ensure!(got == src, "find_sources {:?}, expected {:?}", got, src);
        let got = trellis::find_sinks(&g.edges);
        ensure!(got == snk, "find_sinks {:?}, expected {:?}", got, snk);
        for extra in [0usize, 1, 5] {
            let mut want = tgt.clone();
            want.resize(n + extra, false);
            let got = trellis::find_referenced_edges(g.edges.all_values(), n + extra);
            ensure!(got == want, "find_referenced_edges {:?}, expected {:?}", got, want);
        }
        Ok(())
    });
}

pub fn c14(c: &mut Ctx) {
    c.rule("well-formed graphs, every start vertex, prefixes of up to 400 items (at least the number of vertices) compared with the recursive definition unrolled lazily; on acyclic graphs with a small traversal also the end; non-trivial: at least two edges");
    graphs(c, false, &|g, a| {
        let starts: Vec<usize> = if a.len() <= 20 { (0..a.len()).collect() } else { vec![0, 1, a.len() / 2, a.len() - 1] };
        for s in starts {
            let mut it = trellis::traverse_depth_first_preorder(&g.edges, s as u32);
            // lazy oracle: pending targets, leftmost on top
            let mut pend: Vec<u32> = a[s].iter().rev().cloned().collect();
            for i in 0..400.max(a.len() + 2) {
                let want = pend.pop();
                let got = it.next();
                ensure!(got == want, "start {}: item {} is {:?}, expected {:?}", s, i, got, want);
                match want {
                    None => break,
                    Some(v) => pend.extend(a[v as usize].iter().rev()),
                }
            }
            if a.len() <= 8 && acyclic(a) {
                let mut want: Vec<u32> = vec![];
                let mut pend: Vec<u32> = a[s].iter().rev().cloned().collect();
                while let Some(v) = pend.pop() {
                    want.push(v);
                    pend.extend(a[v as usize].iter().rev());
                    if want.len() > 60 {
                        break;
                    }
                }
                if want.len() <= 60 {
                    laws!(format!("start {}", s), want.len(), [], trellis::traverse_depth_first_preorder(&g.edges, s as u32), |x, i| x == want[i]);
                }
            }
        }
        Ok(())
    });
}
