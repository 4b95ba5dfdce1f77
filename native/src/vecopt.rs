//! Executable contracts of VecOption: a plain Vec<Option<u32>> is the oracle; elements are tracked
//! (every construction and drop is recorded), so a lost, doubled or invented value shows.
use crate::core::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use trellis::vec_option::VecOption;

#[derive(Default)]
struct Reg {
    next: u64,
    live: HashMap<u64, u32>,
    errors: Vec<String>,
}
thread_local!(static REG: RefCell<Reg> = RefCell::new(Reg::default()));
// the values whose drop (once) or clone panics
thread_local!(static BOMB: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) });
thread_local!(static CLONE_BOMB: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) });
const MAGIC: u64 = 0xA5C3_91E7_0F1B_77D1;
#[derive(Debug)]
pub struct D {
    id: u64,
    magic: u64,
    v: u32,
}
fn reset() {
    REG.with(|r| *r.borrow_mut() = Reg { next: 1, ..Reg::default() })
}
fn live() -> usize {
    REG.with(|r| r.borrow().live.len())
}
fn err(s: String) {
    REG.with(|r| r.borrow_mut().errors.push(s))
}
fn first_err() -> Option<String> {
    REG.with(|r| r.borrow().errors.first().cloned())
}
fn d(v: u32) -> D {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        let id = r.next;
        r.next += 1;
        r.live.insert(id, v);
        D { id, magic: MAGIC ^ id, v }
    })
}
impl D {
    /// reads the value; an absent or already dropped slot is noticed
    fn get(&self) -> u32 {
        let ok = self.magic == MAGIC ^ self.id && REG.with(|r| r.borrow().live.contains_key(&self.id));
        if !ok {
            err(format!("the storage of an absent or dropped element was read (value field {})", self.v));
        }
        self.v
    }
}
impl Drop for D {
    fn drop(&mut self) {
        if self.magic != MAGIC ^ self.id {
            err("a slot that never held a value was dropped".into());
            return;
        }
        if REG.with(|r| r.borrow_mut().live.remove(&self.id)).is_none() {
            err(format!("value {} was dropped twice", self.v));
            return;
        }
        if BOMB.with(|b| b.get()) == Some(self.v) && !std::thread::panicking() {
            BOMB.with(|b| b.set(None));
            panic!("bomb");
        }
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        if CLONE_BOMB.with(|b| b.get()) == Some(self.v) {
            panic!("clone bomb");
        }
        d(self.get())
    }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        self.get() == o.get()
    }
}
impl Eq for D {}
impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for D {
    fn cmp(&self, o: &D) -> Ordering {
        self.get().cmp(&o.get())
    }
}
impl Hash for D {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.get().hash(h)
    }
}

type M = Vec<Option<u32>>;
fn mk(m: &M) -> VecOption<D> {
    let mut v = VecOption::new();
    for x in m {
        match x {
            Some(x) => v.push_some(d(*x)),
            None => v.push_none(),
        }
    }
    v
}
fn od(x: Option<u32>) -> Option<D> {
    x.map(d)
}
fn ov(x: &Option<D>) -> Option<u32> {
    x.as_ref().map(|x| x.get())
}
fn same(v: &mut VecOption<D>, m: &M) -> Result<(), String> {
    ensure!(v.len() == m.len(), "len() = {}, expected {}", v.len(), m.len());
    ensure!(v.is_empty() == m.is_empty(), "is_empty() = {}", v.is_empty());
    for i in 0..m.len() {
        let g = v.get_ref(i).map(|x| x.get());
        ensure!(g == m[i], "element {} is {:?}, expected {:?}", i, g, m[i]);
    }
    Ok(())
}
fn same_iter(v: &VecOption<D>, m: &M) -> Result<(), String> {
    let g: M = v.iter().map(|x| x.map(|x| x.get())).collect();
    ensure!(&g == m, "iter() yields {:?}, expected {:?}", g, m);
    Ok(())
}
fn panics<R, F: FnOnce() -> R>(f: F) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

#[derive(Clone, Debug)]
enum Op {
    Push(Option<u32>),
    PushSome(u32),
    PushNone,
    Pop,
    PopSome,
    GetRef(usize),
    GetMut(usize, u32),
    GetClone(usize),
    Replace(usize, Option<u32>),
    ReplaceSome(usize, u32),
    ReplaceNone(usize),
    Set(usize, Option<u32>),
    SetSome(usize, u32),
    SetNone(usize),
    Swap(usize, usize),
    Reserve(usize),
    // bulk
    Extend(M),
    Compact,
    Drain(usize, usize, u8, usize), // start, end, range form, items taken
    Iter,
    IterMut(u32),
    IterSome,
    IterSomeMut(u32),
    Runs,
    RunsMut(u32),
    CloneOver,
    RoundInto(usize),     // into_iter, take n, the rest dropped: the vector starts over from what was taken
    RoundIntoSome(usize), // likewise for into_some_iter
    RoundVec,             // some_into_vec then from_vec
    RepeatNone(usize),
    Collect,
    WithCapacity(usize),
}
use Op::*;

fn step(v: &mut VecOption<D>, m: &mut M, op: &Op) -> Result<(), String> {
    let oob = |i: usize, n: usize| i >= n;
    macro_rules! oobp {
        ($i:expr, $e:expr) => {
            if oob($i, m.len()) {
                let before = m.clone();
                ensure!(panics(|| { $e; }), "{:?} with length {} does not panic", op, m.len());
                return same(v, &before);
            }
        };
    }
    match op.clone() {
        Push(x) => {
            v.push(od(x));
            m.push(x);
        }
        PushSome(x) => {
            v.push_some(d(x));
            m.push(Some(x));
        }
        PushNone => {
            v.push_none();
            m.push(None);
        }
        Pop => {
            let g = v.pop();
            let e = m.pop();
            let gv = g.as_ref().map(ov);
            ensure!(gv == e, "pop() = {:?}, expected {:?}", gv, e);
        }
        PopSome => {
            let g = v.pop_some();
            let mut e = None;
            while let Some(x) = m.pop() {
                if x.is_some() {
                    e = x;
                    break;
                }
            }
            ensure!(ov(&g) == e, "pop_some() = {:?}, expected {:?}", ov(&g), e);
        }
        GetRef(i) => {
            oobp!(i, v.get_ref(i));
            let g = v.get_ref(i).map(|x| x.get());
            ensure!(g == m[i], "get_ref({}) = {:?}, expected {:?}", i, g, m[i]);
        }
        GetMut(i, x) => {
            oobp!(i, v.get_mut(i));
            let g = v.get_mut(i);
            ensure!(g.is_some() == m[i].is_some(), "get_mut({}) is_some {}", i, g.is_some());
            if let Some(r) = g {
                ensure!(Some(r.get()) == m[i], "get_mut({}) refers to {}, expected {:?}", i, r.get(), m[i]);
                r.v = x;
                m[i] = Some(x);
            }
        }
        GetClone(i) => {
            oobp!(i, v.get_clone(i));
            let g = v.get_clone(i);
            ensure!(ov(&g) == m[i], "get_clone({}) = {:?}, expected {:?}", i, ov(&g), m[i]);
        }
        Replace(i, x) => {
            oobp!(i, v.replace(i, od(x)));
            let g = v.replace(i, od(x));
            let e = std::mem::replace(&mut m[i], x);
            ensure!(ov(&g) == e, "replace({}) = {:?}, expected {:?}", i, ov(&g), e);
        }
        ReplaceSome(i, x) => {
            oobp!(i, v.replace_some(i, d(x)));
            let g = v.replace_some(i, d(x));
            let e = std::mem::replace(&mut m[i], Some(x));
            ensure!(ov(&g) == e, "replace_some({}) = {:?}, expected {:?}", i, ov(&g), e);
        }
        ReplaceNone(i) => {
            oobp!(i, v.replace_none(i));
            let g = v.replace_none(i);
            let e = std::mem::replace(&mut m[i], None);
            ensure!(ov(&g) == e, "replace_none({}) = {:?}, expected {:?}", i, ov(&g), e);
        }
        Set(i, x) => {
            oobp!(i, v.set(i, od(x)));
            v.set(i, od(x));
            m[i] = x;
        }
        SetSome(i, x) => {
            oobp!(i, v.set_some(i, d(x)));
            v.set_some(i, d(x));
            m[i] = Some(x);
        }
        SetNone(i) => {
            oobp!(i, v.set_none(i));
            v.set_none(i);
            m[i] = None;
        }
        Swap(a, b) => {
            oobp!(a.max(b), v.swap(a, b));
            v.swap(a, b);
            m.swap(a, b);
        }
        Reserve(n) => v.reserve(n),
        Extend(x) => {
            let w: Vec<Option<D>> = x.iter().map(|x| od(*x)).collect();
            if x.len() % 2 == 0 {
                v.extend(w.into_iter())
            } else {
                // an iterator without a useful size hint
                let mut it = w.into_iter();
                v.extend(std::iter::from_fn(move || it.next()))
            }
            m.extend(x);
        }
        Compact => {
            m.retain(|x| x.is_some());
            let g: Vec<u32> = v.compact().iter().map(|x| x.get()).collect();
            let e: Vec<u32> = m.iter().map(|x| x.unwrap()).collect();
            ensure!(g == e, "compact() = {:?}, expected {:?}", g, e);
        }
        Drain(a, b, form, take) => {
            let n = m.len();
            let (ra, rb, bad) = match form {
                0 => (a, b, a > b || b > n),
                1 => (a, b + 1, a > b + 1 || b + 1 > n),
                2 => (0, b, b > n),
                3 => (a, n, a > n),
                _ => (0, n, false),
            };
            if bad {
                let p = panics(|| match form {
                    0 => drop(v.drain(a..b)),
                    1 => drop(v.drain(a..=b)),
                    2 => drop(v.drain(..b)),
                    _ => drop(v.drain(a..)),
                });
                ensure!(p, "{:?} with length {} does not panic", op, n);
                return same(v, m);
            }
            let mut g = vec![];
            {
                let mut it = match form {
                    0 => v.drain(a..b),
                    1 => v.drain(a..=b),
                    2 => v.drain(..b),
                    3 => v.drain(a..),
                    _ => v.drain(..),
                };
                for _ in 0..take {
                    match it.next() {
                        Some(x) => g.push(x),
                        None => break,
                    }
                }
                if take > rb - ra {
                    ensure!(it.next().is_none(), "a drain yields more after its end");
                }
            }
            let e: M = m.drain(ra..rb).take(take).collect();
            let gv: M = g.iter().map(ov).collect();
            ensure!(gv == e, "{:?} yields {:?}, expected {:?}", op, gv, e);
        }
        Iter => same_iter(v, m)?,
        IterMut(k) => {
            let mut g: M = vec![];
            for x in v.iter_mut() {
                match x {
                    Some(r) => {
                        g.push(Some(r.get()));
                        r.v = r.v.wrapping_add(k);
                    }
                    None => g.push(None),
                }
            }
            ensure!(&g == m, "iter_mut() yields {:?}, expected {:?}", g, m);
            for x in m.iter_mut().flatten() {
                *x = x.wrapping_add(k);
            }
        }
        IterSome => {
            let g: Vec<(usize, u32)> = v.iter_some_index().map(|(i, x)| (i, x.get())).collect();
            let e: Vec<(usize, u32)> = m.iter().enumerate().filter_map(|(i, x)| x.map(|x| (i, x))).collect();
            ensure!(g == e, "iter_some_index() yields {:?}, expected {:?}", g, e);
        }
        IterSomeMut(k) => {
            let mut g: Vec<(usize, u32)> = vec![];
            for (i, r) in v.iter_some_index_mut() {
                g.push((i, r.get()));
                r.v = r.v.wrapping_add(k);
            }
            let e: Vec<(usize, u32)> = m.iter().enumerate().filter_map(|(i, x)| x.map(|x| (i, x))).collect();
            ensure!(g == e, "iter_some_index_mut() yields {:?}, expected {:?}", g, e);
            for x in m.iter_mut().flatten() {
                *x = x.wrapping_add(k);
            }
        }
        Runs | RunsMut(_) => {
            let mut e: Vec<Vec<u32>> = vec![];
            let mut open = false;
            for x in m.iter() {
                match x {
                    Some(x) => {
                        if !open {
                            e.push(vec![]);
                        }
                        open = true;
                        e.last_mut().unwrap().push(*x);
                    }
                    None => open = false,
                }
            }
            let g: Vec<Vec<u32>> = if let RunsMut(k) = op {
                let mut g = vec![];
                for run in v.iter_runs_mut() {
                    g.push(run.iter().map(|x| x.get()).collect());
                    for x in run.iter_mut() {
                        x.v = x.v.wrapping_add(*k);
                    }
                }
                for x in m.iter_mut().flatten() {
                    *x = x.wrapping_add(*k);
                }
                g
            } else {
                let mut it = v.iter_runs();
                let mut g: Vec<Vec<u32>> = vec![];
                while let Some(run) = it.next() {
                    g.push(run.iter().map(|x| x.get()).collect());
                }
                ensure!(it.next().is_none(), "iter_runs() yields more after its end");
                g
            };
            ensure!(g == e, "{:?} yields {:?}, expected {:?}", op, g, e);
        }
        CloneOver => {
            let w = v.clone();
            *v = w;
        }
        RoundInto(k) => {
            let w = std::mem::replace(v, VecOption::new());
            let mut it = w.into_iter();
            let mut g = vec![];
            for _ in 0..k {
                match it.next() {
                    Some(x) => g.push(x),
                    None => break,
                }
            }
            drop(it);
            m.truncate(k);
            let gv: M = g.iter().map(ov).collect();
            ensure!(&gv == m, "into_iter() yields {:?}, expected {:?}", gv, m);
            *v = g.into_iter().collect();
        }
        RoundIntoSome(k) => {
            let w = std::mem::replace(v, VecOption::new());
            let mut it = w.into_some_iter();
            let mut g = vec![];
            for _ in 0..k {
                match it.next() {
                    Some(x) => g.push(x),
                    None => break,
                }
            }
            drop(it);
            m.retain(|x| x.is_some());
            m.truncate(k);
            let gv: M = g.iter().map(|x| Some(x.get())).collect();
            ensure!(&gv == m, "into_some_iter() yields {:?}, expected {:?}", gv, m);
            *v = VecOption::from_vec(g);
        }
        RoundVec => {
            let w = std::mem::replace(v, VecOption::new());
            let g = w.some_into_vec();
            m.retain(|x| x.is_some());
            let gv: M = g.iter().map(|x| Some(x.get())).collect();
            ensure!(&gv == m, "some_into_vec() = {:?}, expected {:?}", gv, m);
            *v = VecOption::from_vec(g);
        }
        RepeatNone(n) => {
            *v = VecOption::new_repeat_none(n);
            *m = vec![None; n];
        }
        Collect => {
            let w = std::mem::replace(v, VecOption::new());
            *v = w.into_iter().collect();
        }
        WithCapacity(n) => {
            *v = VecOption::with_capacity(n);
            m.clear();
        }
    }
    Ok(())
}

fn run(init: &M, ops: &[Op], drops: bool) -> Result<(), String> {
    reset();
    let mut m = init.clone();
    {
        let mut v = mk(&m);
        for (k, op) in ops.iter().enumerate() {
            step(&mut v, &mut m, op).map_err(|e| format!("operation {} ({:?}): {}", k, op, e))?;
            same(&mut v, &m).map_err(|e| format!("after operation {} ({:?}): {}", k, op, e))?;
            if drops {
                if let Some(e) = first_err() {
                    return Err(format!("after operation {} ({:?}): {}", k, op, e));
                }
                let exp = m.iter().flatten().count();
                ensure!(live() == exp, "after operation {} ({:?}): {} values are alive, the vector owns {}", k, op, live(), exp);
            }
        }
    }
    if drops {
        if let Some(e) = first_err() {
            return Err(format!("after dropping the vector: {}", e));
        }
        ensure!(live() == 0, "after dropping the vector {} values are still alive", live());
    }
    Ok(())
}

fn mask(n: usize, bits: u64) -> M {
    (0..n).map(|i| if bits >> i & 1 == 1 { Some(10 + i as u32) } else { None }).collect()
}
fn rnd_model(r: &mut Rng, max: usize) -> M {
    let n = r.below(max + 1);
    let p = r.below(5);
    (0..n).map(|i| if r.below(4) < p { Some(1000 + i as u32) } else { None }).collect()
}
fn elem_ops(n: usize) -> Vec<Op> {
    let mut o = vec![Push(Some(1)), Push(None), PushSome(2), PushNone, Pop, PopSome, Reserve(40)];
    for i in 0..n + 2 {
        o.extend([GetRef(i), GetMut(i, 77), GetClone(i), Replace(i, Some(3)), Replace(i, None), ReplaceSome(i, 4), ReplaceNone(i), Set(i, Some(5)), Set(i, None), SetSome(i, 6), SetNone(i)]);
        for j in 0..n + 2 {
            o.push(Swap(i, j));
        }
    }
    o.push(GetRef(usize::MAX));
    o
}
fn bulk_ops(n: usize) -> Vec<Op> {
    let mut o = vec![
        Extend(vec![]), Extend(vec![Some(1), None]), Extend(vec![None, Some(2), Some(3)]), Compact, Iter, IterMut(5), IterSome, IterSomeMut(6), Runs, RunsMut(7), CloneOver, RoundVec, RepeatNone(n), Collect, WithCapacity(n),
    ];
    for k in 0..n + 2 {
        o.push(RoundInto(k));
        o.push(RoundIntoSome(k));
    }
    for form in 0..5u8 {
        for a in 0..n + 2 {
            for b in 0..n + 2 {
                if (form == 2 || form == 4) && a > 0 || (form == 3 || form == 4) && b > 0 {
                    continue;
                }
                for t in [0, 1, 2, n + 1] {
                    o.push(Drain(a, b, form, t));
                }
            }
        }
    }
    o
}
fn rnd_op(r: &mut Rng, n: usize, bulk: bool) -> Op {
    let i = if r.chance(1, 12) { n + r.below(3) } else { r.below(n.max(1)) };
    let j = if r.chance(1, 20) { n + r.below(3) } else { r.below(n.max(1)) };
    let x = r.below(1 << 20) as u32;
    let ox = if r.chance(1, 2) { Some(x) } else { None };
    if bulk && r.chance(1, 2) {
        return match r.below(18) {
            0 => Extend(rnd_model(r, 9)),
            1 => Compact,
            2..=5 => Drain(i.min(j), i.max(j), r.below(5) as u8, if r.chance(1, 2) { r.below(n + 2) } else { r.below(3) }),
            6 => Iter,
            7 => IterMut(x),
            8 => IterSome,
            9 => IterSomeMut(x),
            10 => Runs,
            11 => RunsMut(x),
            12 => CloneOver,
            13 => RoundInto(n - r.below(n.min(3) + 1)),
            14 => RoundIntoSome(n - r.below(n.min(3) + 1)),
            15 => if r.chance(1, 4) { RoundVec } else { Iter },
            16 => if r.chance(1, 6) { RepeatNone(r.below(40)) } else { Drain(j, i, 0, 0) },
            _ => Collect,
        };
    }
    match r.below(16) {
        0 => Push(ox),
        1 => PushSome(x),
        2 => PushNone,
        3 => Pop,
        4 => if r.chance(1, 3) { PopSome } else { Push(ox) },
        5 => GetRef(i),
        6 => GetMut(i, x),
        7 => GetClone(i),
        8 => Replace(i, ox),
        9 => ReplaceSome(i, x),
        10 => ReplaceNone(i),
        11 => Set(i, ox),
        12 => SetSome(i, x),
        13 => SetNone(i),
        14 => Reserve(r.below(70)),
        _ => Swap(i, j),
    }
}
fn hist(c: &mut Ctx, bulk: bool, elem: bool, drops: bool) {
    let lim = if c.thorough { 6 } else { 4 };
    for n in 0..=lim {
        for bits in 0..1u64 << n {
            let m = mask(n, bits);
            let mut ops = if elem { elem_ops(n) } else { vec![] };
            if bulk {
                ops.extend(bulk_ops(n));
            }
            for op in ops {
                // the operation alone, and followed by a growth and a removal
                for tail in [vec![], vec![Push(Some(900)), PushNone, Pop, Pop]] {
                    let mut o = vec![op.clone()];
                    o.extend(tail);
                    let (mm, oo) = (m.clone(), o.clone());
                    c.case(format!("contents {:?}, operations {:?}", m, o), bits != 0 && bits != (1 << n) - 1, move || run(&mm, &oo, drops));
                }
            }
        }
    }
    c.exhaustive_note.push(format!("every single operation on every presence pattern up to length {}", lim));
    // longer than one block of presence bits, and than 16 bits can count
    for n in [300usize, 70_000] {
        for (nm, m) in [("one of three absent", (0..n).map(|i| if i % 3 == 1 { None } else { Some(i as u32) }).collect::<M>()), ("all present", (0..n).map(|i| Some(i as u32)).collect()), ("runs of 100", (0..n).map(|i| if i / 100 % 2 == 0 { Some(i as u32) } else { None }).collect()), ("only the last present", (0..n).map(|i| if i + 1 == n { Some(7) } else { None }).collect())] {
            let k = n - 3;
            let mut lists = vec![vec![PushSome(1), PushNone, Pop, Swap(1, k), SetNone(k), SetSome(k - 1, 9), GetRef(k), GetClone(n - 1), ReplaceNone(0), Replace(255, Some(5)), Reserve(n), Push(None)]];
            if bulk {
                lists.push(vec![Drain(10, k, 0, 3), Iter, Runs]);
                lists.push(vec![Drain(0, n - 270, 0, n), IterSome, Compact]);
                lists.push(vec![Extend(m.clone()), Runs, RunsMut(3), CloneOver, IterMut(4)]);
                lists.push(vec![Compact, PushNone, Iter, IterSome]);
                lists.push(vec![RoundInto(n / 2), Iter]);
                lists.push(vec![RoundIntoSome(n / 2), Collect, Iter]);
            }
            for o in lists {
                let m = m.clone();
                let what = "operations";
                let names: Vec<String> = o.iter().map(|x| format!("{:?}", x).chars().take(30).collect()).collect();
                c.case(format!("{} elements, {}; {}: {}", n, nm, what, names.join(" ")), true, move || run(&m, &o, drops));
            }
        }
    }
    let mut r = Rng::new(c.seed);
    while c.more() {
        let mx = if r.chance(1, 2) { 6 } else { 80 };
        let m = rnd_model(&mut r, mx);
        let k = 1 + r.below(25);
        let mut len = m.len();
        let mut ops = vec![];
        for _ in 0..k {
            let op = rnd_op(&mut r, len, bulk);
            len = match &op {
                Push(_) | PushSome(_) | PushNone => len + 1,
                Pop => len.saturating_sub(1),
                Extend(x) => len + x.len(),
                RepeatNone(n) => *n,
                _ => len,
            };
            ops.push(op);
        }
        let (mm, oo) = (m.clone(), ops.clone());
        c.case(format!("contents {:?}, operations {:?}", m, ops), m.iter().any(|x| x.is_some()), move || run(&mm, &oo, drops));
    }
}

fn copies(init: &M) -> Result<(), String> {
    let n = init.len();
    let mut w: VecOption<u64> = init.iter().map(|x| x.map(|x| x as u64)).collect();
    for i in 0..n {
        ensure!(w.get_copy(i) == init[i].map(|x| x as u64), "get_copy({}) = {:?}, expected {:?}", i, w.get_copy(i), init[i]);
    }
    ensure!(panics(|| w.get_copy(n)), "get_copy({}) with length {} does not panic", n, n);
    Ok(())
}
pub fn c17(c: &mut Ctx) {
    c.rule("element operations on a VecOption compared with Vec<Option<u32>> after every operation, out-of-range indices expected to panic; non-trivial: contents with both present and absent elements");
    for n in 0..=6usize {
        for bits in 0..1u64 << n {
            let m = mask(n, bits);
            c.case(format!("copies of {:?}", m), bits != 0, move || copies(&m));
        }
    }
    hist(c, false, true, false);
}
pub fn c18(c: &mut Ctx) {
    c.rule("bulk operations (extend, collect, conversions, compact, drain of every range and amount of consumption, all iterators) compared with Vec<Option<u32>>; non-trivial: contents with both present and absent elements");
    odd(c);
    hist(c, true, false, false);
}
/// an operation during which dropping (or cloning) one element panics: what is left of the vector is
/// still sound: nothing dropped is readable, nothing is dropped twice
fn run_bomb(init: &M, op: &Op, bomb: u32, clone: bool) -> Result<(), String> {
    reset();
    BOMB.with(|b| b.set(None));
    CLONE_BOMB.with(|b| b.set(None));
    let mut m = init.clone();
    let mut v = mk(&m);
    if clone {
        CLONE_BOMB.with(|b| b.set(Some(bomb)));
    } else {
        BOMB.with(|b| b.set(Some(bomb)));
    }
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _ = step(&mut v, &mut m, op);
    }));
    BOMB.with(|b| b.set(None));
    CLONE_BOMB.with(|b| b.set(None));
    let n = v.len();
    let mut seen = 0;
    for i in 0..n {
        if let Some(x) = v.get_ref(i) {
            x.get();
            seen += 1;
        }
    }
    ensure!(v.iter().count() == n, "iter() does not yield len() elements");
    ensure!(seen <= live(), "the vector has {} values, {} are alive", seen, live());
    v.push_some(d(1));
    v.push_none();
    v.pop();
    v.pop();
    drop(v);
    match first_err() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
/// iterators that end early, are forgotten, panic, or misjudge how much is left
fn odd_iter(init: &M, kind: usize, a: usize, b: usize, k: usize) -> Result<(), String> {
    reset();
    let mut v = mk(init);
    let n = init.len();
    struct Hint<I>(I, usize, Option<usize>);
    impl<I: Iterator> Iterator for Hint<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.1, self.2)
        }
    }
    match kind {
        0 => {
            // forgetting a drain may lose values, nothing else
            let mut it = v.drain(a..b);
            for _ in 0..k {
                it.next();
            }
            std::mem::forget(it);
        }
        1 => {
            let mut it = v.into_iter();
            for _ in 0..k {
                it.next();
            }
            std::mem::forget(it);
            v = VecOption::new();
        }
        2 => {
            let add: M = (0..b).map(|i| if i % 2 == 0 { Some(50 + i as u32) } else { None }).collect();
            let r = panics(|| {
                v.extend(add.iter().enumerate().map(|(i, x)| {
                    if i == k {
                        panic!("iterator");
                    }
                    od(*x)
                }))
            });
            ensure!(r == (k < b), "extend() with an iterator that panics at item {} of {}", k, b);
            if !r {
                let mut e = init.clone();
                e.extend(&add);
                same(&mut v, &e)?;
            }
        }
        3 | 4 => {
            let add: M = (0..b).map(|i| if i % 2 == 0 { Some(50 + i as u32) } else { None }).collect();
            let it = Hint(add.iter().map(|x| od(*x)), k, Some(k.max(a)));
            if kind == 3 {
                v.extend(it);
                let mut e = init.clone();
                e.extend(&add);
                same(&mut v, &e)?;
                let exp = e.iter().flatten().count();
                ensure!(live() == exp, "{} values are alive, the vector owns {}", live(), exp);
            } else {
                drop(v);
                v = it.collect();
                same(&mut v, &add)?;
                let exp = add.iter().flatten().count();
                ensure!(live() == exp, "{} values are alive, the vector owns {}", live(), exp);
            }
        }
        _ => {
            // borrowing iterators left before their end
            {
                let mut i = v.iter();
                let mut j = init.iter();
                for _ in 0..k {
                    ensure!(i.next().map(|x| x.map(|x| x.get())) == j.next().copied(), "iter() yields something else");
                }
                let mut i = v.iter_some_index();
                let mut j = init.iter().enumerate().filter_map(|(i, x)| x.map(|x| (i, x)));
                for _ in 0..k {
                    ensure!(i.next().map(|(i, x)| (i, x.get())) == j.next(), "iter_some_index() yields something else");
                }
            }
            {
                let mut i = v.iter_mut();
                for _ in 0..k {
                    if let Some(Some(x)) = i.next() {
                        x.v += 1;
                    }
                }
            }
            {
                let mut i = v.iter_some_index_mut();
                for _ in 0..k {
                    if let Some((_, x)) = i.next() {
                        x.v += 1;
                    }
                }
            }
            {
                let mut i = v.iter_runs_mut();
                for _ in 0..k {
                    if let Some(r) = i.next() {
                        r.iter_mut().for_each(|x| x.v += 1);
                    }
                }
            }
            let mut e = init.clone();
            for x in e.iter_mut().take(k).flatten() {
                *x += 1;
            }
            for x in e.iter_mut().flatten().take(k) {
                *x += 1;
            }
            let (mut runs, mut prev) = (0, false);
            for x in e.iter_mut() {
                if x.is_some() && !prev {
                    runs += 1;
                }
                prev = x.is_some();
                if let Some(x) = x {
                    if runs <= k {
                        *x += 1;
                    }
                }
            }
            same(&mut v, &e)?;
            ensure!(live() == e.iter().flatten().count(), "values were lost or invented");
        }
    }
    for i in 0..v.len() {
        if let Some(x) = v.get_ref(i) {
            x.get();
        }
    }
    drop(v);
    if kind > 1 {
        ensure!(live() == 0, "{} values are still alive after dropping the vector", live());
    }
    let _ = n;
    match first_err() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
/// an element without a size whose lives are counted
static ZL: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
struct Z;
fn z() -> Z {
    ZL.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    Z
}
impl Drop for Z {
    fn drop(&mut self) {
        ZL.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}
impl Clone for Z {
    fn clone(&self) -> Z {
        z()
    }
}
fn zst(bits: u64, n: usize, k: usize) -> Result<(), String> {
    let zl = || ZL.load(std::sync::atomic::Ordering::SeqCst);
    let base = zl();
    let mut m: Vec<bool> = (0..n).map(|i| bits >> i & 1 == 1).collect();
    let mut v: VecOption<Z> = m.iter().map(|p| if *p { Some(z()) } else { None }).collect();
    macro_rules! chk {
        ($w:expr) => {
            let g: Vec<bool> = v.iter().map(|x| x.is_some()).collect();
            ensure!(g == m && v.len() == m.len(), "elements without size, after {}: {:?}, expected {:?}", $w, g, m);
            let e = m.iter().filter(|p| **p).count() as i64;
            ensure!(zl() - base == e, "elements without size, after {}: {} are alive, expected {}", $w, zl() - base, e);
        };
    }
    chk!("collecting");
    let g: Vec<usize> = v.iter_some_index().map(|(i, _)| i).collect();
    let e: Vec<usize> = (0..n).filter(|i| m[*i]).collect();
    ensure!(g == e, "elements without size: iter_some_index() {:?}, expected {:?}", g, e);
    ensure!(v.iter_some_index_mut().count() == e.len() && v.iter_mut().count() == n, "elements without size: counts of the mutable iterators");
    let runs: Vec<usize> = v.iter_runs().map(|r| r.len()).collect();
    let er: Vec<usize> = m.split(|p| !*p).map(|r| r.len()).filter(|l| *l > 0).collect();
    ensure!(runs == er, "elements without size: runs {:?}, expected {:?}", runs, er);
    v.push(Some(z()));
    m.push(true);
    v.push_none();
    m.push(false);
    chk!("push");
    v.set_some(n + 1, z());
    m[n + 1] = true;
    v.set_none(n);
    m[n] = false;
    chk!("set");
    v.swap(0, n + 1);
    m.swap(0, n + 1);
    chk!("swap");
    let w = v.clone();
    ensure!(zl() - base == 2 * m.iter().filter(|p| **p).count() as i64, "elements without size: a clone does not clone each value once");
    drop(w);
    chk!("dropping a clone");
    {
        let (a, b) = (k.min(n), (k + 2).min(n + 2));
        let mut it = v.drain(a..b);
        let g = it.next().map(|x| x.is_some());
        ensure!(g == m.drain(a..b).next(), "elements without size: drain");
    }
    chk!("drain");
    let l = v.compact().len();
    m.retain(|p| *p);
    ensure!(l == m.len(), "elements without size: compact() has {} values, expected {}", l, m.len());
    chk!("compact");
    let mut it = v.into_some_iter();
    let mut c = 0;
    for _ in 0..k {
        c += it.next().is_some() as usize;
    }
    ensure!(c == k.min(l), "elements without size: into_some_iter");
    drop(it);
    ensure!(zl() == base, "elements without size: {} are left", zl() - base);
    Ok(())
}
/// ranges that start behind a bound, and plain values read by copy
fn forms(init: &M, a: usize, b: usize) -> Result<(), String> {
    use std::ops::Bound;
    reset();
    let n = init.len();
    let mut v = mk(init);
    let mut m = init.clone();
    let bad = a >= b || b > n;
    if bad {
        // the start is a + 1
        ensure!(a + 1 <= b && b <= n || panics(|| drop(v.drain((Bound::Excluded(a), Bound::Excluded(b))))), "draining ({}, {}) of {} does not panic", a, b, n);
        same(&mut v, &m)?;
    } else {
        let g: M = v.drain((Bound::Excluded(a), Bound::Excluded(b))).map(|x| ov(&x)).collect();
        let e: M = m.drain(a + 1..b).collect();
        ensure!(g == e, "draining ({}, {}) yields {:?}, expected {:?}", a, b, g, e);
        same(&mut v, &m)?;
    }
    let mut v = mk(init);
    let mut m = init.clone();
    if b < n {
        let g: M = v.drain(..=b).map(|x| ov(&x)).collect();
        let e: M = m.drain(..=b).collect();
        ensure!(g == e, "draining ..={} yields {:?}, expected {:?}", b, g, e);
    } else {
        ensure!(panics(|| drop(v.drain(..=b))), "draining ..={} of {} does not panic", b, n);
    }
    same(&mut v, &m)?;
    Ok(())
}
pub fn c19(c: &mut Ctx) {
    c.rule("element and bulk operations with tracked elements: after every operation exactly the values the vector owns are alive, nothing was dropped twice and no absent slot was read, also when dropping or cloning an element panics or an iterator is forgotten; non-trivial: contents with both present and absent elements");
    for n in 1..=4usize {
        for bits in 1..1u64 << n {
            for b in 0..n {
                if bits >> b & 1 == 0 {
                    continue;
                }
                let bomb = 10 + b as u32;
                c.case(format!("drop of {:?} where dropping element {} panics", mask(n, bits), b), true, move || {
                    reset();
                    BOMB.with(|x| x.set(None));
                    let v = mk(&mask(n, bits));
                    BOMB.with(|x| x.set(Some(bomb)));
                    ensure!(panics(move || drop(v)), "the panic of an element's drop is swallowed");
                    match first_err() {
                        Some(e) => Err(e),
                        None => Ok(()),
                    }
                });
                let mut ops = elem_ops(n);
                ops.extend(bulk_ops(n));
                for op in ops {
                    let m = mask(n, bits);
                    c.case(format!("contents {:?}, operation {:?} where dropping element {} panics", m, op, b), true, move || run_bomb(&m, &op, bomb, false));
                }
                let m = mask(n, bits);
                c.case(format!("contents {:?}, cloned where cloning element {} panics", m, b), true, move || run_bomb(&m, &CloneOver, bomb, true));
            }
        }
    }
    odd(c);
    hist(c, true, true, true);
}
/// every way to consume every iterator
fn ways(m: &M, a: usize, b: usize) -> Result<(), String> {
    reset();
    let some: Vec<(usize, u32)> = m.iter().enumerate().filter_map(|(i, x)| x.map(|x| (i, x))).collect();
    let runs: Vec<Vec<u32>> = m.split(|x| x.is_none()).filter(|r| !r.is_empty()).map(|r| r.iter().map(|x| x.unwrap()).collect()).collect();
    let n = m.len();
    laws!("iter()", n, [let v = mk(m);], v.iter(), |x, i| x.map(|x| x.get()) == m[i]);
    laws!("iter_mut()", n, [let mut v = mk(m);], v.iter_mut(), |x, i| x.map(|x| x.get()) == m[i]);
    laws!("into_iter()", n, [let v = mk(m);], v.into_iter(), |x, i| ov(&x) == m[i]);
    laws!("drain()", b - a, [let mut v = mk(m);], v.drain(a..b), |x, i| ov(&x) == m[a + i]);
    laws!("into_some_iter()", some.len(), [let v = mk(m);], v.into_some_iter(), |x, i| x.get() == some[i].1);
    laws!("iter_some_index()", some.len(), [let v = mk(m);], v.iter_some_index(), |x, i| (x.0, x.1.get()) == some[i]);
    laws!("iter_some_index_mut()", some.len(), [let mut v = mk(m);], v.iter_some_index_mut(), |x, i| (x.0, x.1.get()) == some[i]);
    laws!("iter_runs()", runs.len(), [let v = mk(m);], v.iter_runs(), |x, i| x.iter().map(|x| x.get()).collect::<Vec<_>>() == runs[i]);
    laws!("iter_runs_mut()", runs.len(), [let mut v = mk(m);], v.iter_runs_mut(), |x, i| x.iter().map(|x| x.get()).collect::<Vec<_>>() == runs[i]);
    ensure!(live() == 0, "{} values are still alive after dropping vectors and iterators", live());
    // skipping within a drain removes what is skipped
    for k in 0..=b - a {
        let mut v = mk(m);
        let mut it = v.drain(a..b);
        it.nth(k);
        drop(it);
        let mut e = m.clone();
        e.drain(a..b);
        same(&mut v, &e)?;
        ensure!(live() == e.iter().flatten().count(), "after drain().nth({}): {} values are alive, the vector owns {}", k, live(), e.iter().flatten().count());
    }
    match first_err() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
/// exhaustive up to length 4
fn odd(c: &mut Ctx) {
    for n in 0..=4usize {
        for bits in 0..1u64 << n {
            for kind in 0..6usize {
                for a in 0..=n {
                    for b in a..=n {
                        for k in 0..=n + 1 {
                            let m = mask(n, bits);
                            c.case(format!("contents {:?}, odd iterator {} (range {}..{}, {} items)", m, kind, a, b, k), bits != 0, move || odd_iter(&m, kind, a, b, k));
                        }
                    }
                }
            }
            for a in 0..=n {
                for b in a..=n {
                    let m = mask(n, bits);
                    c.case(format!("contents {:?}, all ways to consume the iterators, drain of {}..{}", m, a, b), bits != 0, move || ways(&m, a, b));
                }
            }
            for k in 0..=n {
                c.case(format!("{} elements without a size, presence {:b}, {}", n, bits, k), bits != 0, move || zst(bits, n, k));
            }
            for a in 0..=n + 1 {
                for b in 0..=n + 1 {
                    let m = mask(n, bits);
                    c.case(format!("contents {:?}, bounds after {} and up to {}", m, a, b), bits != 0, move || forms(&m, a, b));
                }
            }
        }
    }
}

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
fn mcmp(a: &M, b: &M) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.cmp(b))
}
/// the same contents reached by another history
fn mk2(m: &M, salt: u64) -> VecOption<D> {
    let mut v = VecOption::from_vec((0..m.len()).map(|i| d(i as u32 + 500)).collect());
    for i in 0..salt % 3 {
        v.push_some(d(7 + i as u32));
    }
    for i in 0..m.len() {
        v.set_none(i);
        if let Some(x) = m[i] {
            v.set_some(i, d(x));
        }
    }
    for _ in 0..salt % 3 {
        v.pop();
    }
    v
}
fn pair(c: &mut Ctx, a: &M, b: &M, salt: u64) {
    let (a, b) = (a.clone(), b.clone());
    c.case(format!("a {:?} b {:?} built with salt {}", a, b, salt), a.len() == b.len() && a.len() > 0, move || {
        reset();
        let x = mk(&a);
        let y = mk2(&b, salt);
        let eq = a == b;
        ensure!((x == y) == eq, "== is {}, expected {}", x == y, eq);
        ensure!((y == x) == eq, "== is not symmetric");
        ensure!((x != y) == !eq, "!= is {}", x != y);
        let e = mcmp(&a, &b);
        ensure!(x.cmp(&y) == e, "cmp is {:?}, expected {:?}", x.cmp(&y), e);
        ensure!(y.cmp(&x) == e.reverse(), "cmp reversed is {:?}, expected {:?}", y.cmp(&x), e.reverse());
        ensure!(x.partial_cmp(&y) == Some(e), "partial_cmp is {:?}, expected {:?}", x.partial_cmp(&y), Some(e));
        ensure!(y.partial_cmp(&x) == Some(e.reverse()), "partial_cmp reversed is {:?}, expected {:?}", y.partial_cmp(&x), Some(e.reverse()));
        if eq {
            ensure!(h(&x) == h(&y), "equal vectors hash differently");
        }
        let mut z = x.clone();
        let n = live();
        ensure!(z == x && h(&z) == h(&x), "a clone is not equal to its original");
        same(&mut z, &a)?;
        for i in 0..a.len() {
            z.set_some(i, d(4242));
        }
        z.push_none();
        same_iter(&x, &a).map_err(|e| format!("changing a clone changes the original: {}", e))?;
        let mut z = x.clone();
        drop(x);
        same(&mut z, &a).map_err(|e| format!("dropping the original changes the clone: {}", e))?;
        let _ = n;
        match first_err() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    });
}
pub fn c20(c: &mut Ctx) {
    c.rule("==, cmp, partial_cmp, hash and clone on pairs of VecOption (built by two different histories) compared with a length-first, absent-before-present lexicographic order; non-trivial: equal non-zero lengths");
    let lim = if c.thorough { 4 } else { 3 };
    let mut all: Vec<M> = vec![];
    for n in 0..=lim {
        for code in 0..3usize.pow(n as u32) {
            let mut x = code;
            all.push((0..n).map(|_| { let t = x % 3; x /= 3; if t == 0 { None } else { Some(t as u32) } }).collect());
        }
    }
    let mut s = 0;
    for a in &all {
        for b in &all {
            s += 1;
            pair(c, a, b, s);
        }
    }
    // NaN-like elements: partial_cmp and == follow the elements
    let fl = [None, Some(f64::NAN), Some(1.0), Some(2.0)];
    for a in 0..16usize {
        for b in 0..16usize {
            let (p, q) = ([fl[a % 4], fl[a / 4]], [fl[b % 4], fl[b / 4]]);
            c.case(format!("float contents {:?} and {:?}", p, q), true, move || {
                let x: VecOption<f64> = p.iter().cloned().collect();
                let y: VecOption<f64> = q.iter().cloned().collect();
                ensure!((x == y) == (p == q), "== is {}, expected {}", x == y, p == q);
                ensure!(x.partial_cmp(&y) == p.partial_cmp(&q), "partial_cmp is {:?}, expected {:?}", x.partial_cmp(&y), p.partial_cmp(&q));
                Ok(())
            });
        }
    }
    c.exhaustive_note.push(format!("all pairs of vectors up to length {} over absent, 1, 2", lim));
    let mut r = Rng::new(c.seed);
    while c.more() {
        let a = rnd_model(&mut r, 80);
        let mut b = a.clone();
        if r.chance(2, 3) && !b.is_empty() {
            let i = r.below(b.len());
            b[i] = match r.below(3) {
                0 => None,
                1 => Some(1),
                _ => Some(5000),
            };
        }
        if r.chance(1, 6) {
            b.push(None);
        }
        let s = r.next();
        pair(c, &a, &b, s);
    }
}
