//! C15 and C28: the priority queue and the two-dimensional array.
use crate::core::*;
use std::cmp::Ordering;
use trellis::pathplan::array2::{allocArray, Array2};
use trellis::priority_queue::PQ;

/// ordered by key alone; the id tells equal items apart
#[derive(Clone, Debug)]
struct It {
    key: i32,
    id: u32,
}
impl PartialEq for It {
    fn eq(&self, o: &Self) -> bool {
        self.key == o.key
    }
}
impl Eq for It {}
impl PartialOrd for It {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for It {
    fn cmp(&self, o: &Self) -> Ordering {
        self.key.cmp(&o.key)
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Ins(i32),
    Rem,
    Clear,
}

fn pq_case(c: &mut Ctx, ops: &[Op], cap: Option<usize>) {
    pq_named(c, format!("PQ {:?} {:?}", cap, ops), ops, cap)
}
fn pq_named(c: &mut Ctx, desc: String, ops: &[Op], cap: Option<usize>) {
    c.case(desc, ops.len() >= 4, || {
        let mut q: PQ<It> = match cap {
            None => PQ::new(),
            Some(n) => PQ::with_capacity(n),
        };
        let mut held: std::collections::BTreeMap<i32, std::collections::HashSet<u32>> = Default::default();
        let mut id = 0;
        let drain = std::iter::repeat(Op::Rem).take(ops.len() + 1);
        for (i, op) in ops.iter().cloned().chain(drain).enumerate() {
            match op {
                Op::Ins(k) => {
                    id += 1;
                    q.insert(It { key: k, id });
                    held.entry(k).or_default().insert(id);
                }
                Op::Clear => {
                    q.clear();
                    held.clear();
                }
                Op::Rem => match q.remove() {
                    None => ensure!(held.is_empty(), "operation {}: remove gave nothing, {:?} are held", i, held),
                    Some(x) => {
                        let max = *held.keys().next_back().ok_or(format!("operation {}: removed {:?} from an empty queue", i, x))?;
                        let some = held.get_mut(&x.key).map_or(false, |s| s.remove(&x.id));
                        ensure!(some, "operation {}: removed {:?}, held are {:?}", i, x, held);
                        ensure!(x.key >= max, "operation {}: removed {:?} while {:?} remain", i, x, held);
                        if held[&x.key].is_empty() {
                            held.remove(&x.key);
                        }
                    }
                },
            }
        }
        Ok(())
    });
}

pub fn c15(c: &mut Ctx) {
    c.rule("operation sequences followed by a full drain, against a multiset; items compare by key and carry an identity; non-trivial: at least four operations");
    // every sequence of insertions of keys 0..k, of every length up to 7
    for len in 0..=7usize {
        let k = if len <= 5 { 5i32 } else { 4 };
        let mut ix = vec![0i32; len];
        'seq: loop {
            let ops: Vec<Op> = ix.iter().map(|v| Op::Ins(*v)).collect();
            pq_case(c, &ops, None);
            let mut i = 0;
            loop {
                if i == len {
                    break 'seq;
                }
                ix[i] += 1;
                if ix[i] < k {
                    break;
                }
                ix[i] = 0;
                i += 1;
            }
        }
    }
    // every sequence over insert 0..3, remove and clear
    let alphabet = [Op::Ins(0), Op::Ins(1), Op::Ins(2), Op::Rem, Op::Clear];
    let mut ix = vec![0usize; 6];
    'all: loop {
        let ops: Vec<Op> = ix.iter().map(|v| alphabet[*v]).collect();
        pq_case(c, &ops, Some(2));
        let mut i = 0;
        loop {
            if i == ix.len() {
                break 'all;
            }
            ix[i] += 1;
            if ix[i] < alphabet.len() {
                break;
            }
            ix[i] = 0;
            i += 1;
        }
    }
    c.exhaustive_note.push("all insertion sequences of up to 5 keys below 5 and of 6 and 7 keys below 4; all 6-operation sequences over 3 keys, remove and clear".into());
    // deep heaps
    for n in [300i32, 1100, 3000, 70_000] {
        let up: Vec<Op> = (0..n).map(Op::Ins).collect();
        pq_named(c, format!("PQ keys 0 to {} in ascending order", n - 1), &up, None);
        let down: Vec<Op> = (0..n).rev().map(Op::Ins).collect();
        pq_named(c, format!("PQ keys {} to 0 in descending order", n - 1), &down, None);
        let mix: Vec<Op> = (0..n).map(|i| Op::Ins((i as i64 * 7919 % n as i64) as i32)).collect();
        pq_named(c, format!("PQ keys (7919 i) mod {} for i below {}", n, n), &mix, Some(10));
    }
    let mut r = Rng::new(c.seed);
    while c.more() {
        let long = r.chance(1, 100);
        let n = r.below(if long { 3000 } else { 80 });
        let keys = 1 + r.below(if long { 500 } else { 40 });
        let rem = 1 + r.below(5);
        let extreme = r.chance(1, 5);
        let ops: Vec<Op> = (0..n)
            .map(|_| {
                if r.chance(1, if long { 2000 } else { 60 }) {
                    Op::Clear
                } else if r.chance(rem, 10) {
                    Op::Rem
                } else if extreme {
                    Op::Ins([i32::MIN, i32::MAX, 0, -1][r.below(4)])
                } else {
                    Op::Ins(r.below(keys) as i32)
                }
            })
            .collect();
        let cap = if r.chance(1, 2) { None } else { Some(r.below(100)) };
        pq_case(c, &ops, cap);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Cell(u32);
impl Default for Cell {
    fn default() -> Self {
        Cell(77)
    }
}

fn arr_case(c: &mut Ctx, rows: usize, cols: usize, extra: usize, square: bool, writes: &[(usize, usize, u32)]) {
    let desc = format!("Array2 {}x{}+{}{} writes {:?}", rows, cols, extra, if square { " (allocArray)" } else { "" }, writes);
    c.case(desc, rows * (cols + extra) >= 2 && !writes.is_empty(), || {
        let w = cols + extra;
        let mut a: Array2<Cell> = if square { allocArray(rows, extra) } else { Array2::new(rows, cols, extra) };
        let mut want = vec![vec![77u32; w]; rows];
        let check = |a: &Array2<Cell>, want: &Vec<Vec<u32>>, at: &str| -> Result<(), String> {
            for i in 0..rows {
                for j in 0..w {
                    ensure!(a[(i, j)].0 == want[i][j], "{}: cell ({}, {}) is {}, expected {}", at, i, j, a[(i, j)].0, want[i][j]);
                }
            }
            Ok(())
        };
        check(&a, &want, "new array")?;
        for (i, j, v) in writes {
            a[(*i, *j)] = Cell(*v);
            want[*i][*j] = *v;
            check(&a, &want, &format!("after writing {} to ({}, {})", v, i, j))?;
        }
        Ok(())
    });
}

pub fn c28(c: &mut Ctx) {
    c.rule("dimensions with and without extra columns; all cells read after construction and after every write; non-trivial: at least two cells and a write");
    for rows in 0..=4usize {
        for cols in 0..=4usize {
            for extra in 0..=3usize {
                let w = cols + extra;
                let mut ws = vec![];
                for i in 0..rows {
                    for j in 0..w {
                        ws.push((i, j, (1 + i * w + j) as u32));
                    }
                }
                for k in 0..ws.len() {
                    arr_case(c, rows, cols, extra, false, &ws[k..k + 1]);
                }
                arr_case(c, rows, cols, extra, false, &ws);
                ws.reverse();
                arr_case(c, rows, cols, extra, false, &ws);
                if rows == cols {
                    arr_case(c, rows, cols, extra, true, &ws);
                }
            }
        }
    }
    for (rows, cols, extra) in [(300usize, 300usize, 2usize), (1, 70_000, 3), (70_000, 1, 0), (257, 256, 1)] {
        let w = cols + extra;
        let ws: Vec<(usize, usize, u32)> = vec![(0, 0, 1), (0, w - 1, 2), (rows - 1, 0, 3), (rows - 1, w - 1, 4), (rows / 2, w / 2, 5)];
        arr_case(c, rows, cols, extra, false, &ws);
        if rows == cols {
            arr_case(c, rows, cols, extra, true, &ws);
        }
    }
    c.exhaustive_note.push("all dimensions up to 4 x 4 + 3, every single write and every full fill".into());
    let mut r = Rng::new(c.seed);
    let t = std::time::Instant::now();
    while c.more() && t.elapsed().as_secs() < 5 {
        let square = r.chance(1, 3);
        let rows = 1 + r.below(20);
        let cols = if square { rows } else { r.below(20) };
        let extra = r.below(5);
        let w = cols + extra;
        if w == 0 {
            continue;
        }
        let ws: Vec<(usize, usize, u32)> = (0..r.below(12)).map(|_| (r.below(rows), r.below(w), r.below(1000) as u32)).collect();
        arr_case(c, rows, cols, extra, square, &ws);
    }
}
