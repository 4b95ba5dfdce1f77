use crate::core::*;
use trellis::ramp_table::{RampTable, RampTableBuilder};

type E = Vec<Vec<u32>>;

/// all entry lists with k keys, each of length <= l, values numbered consecutively
fn shapes(k: usize, l: usize, f: &mut dyn FnMut(&[usize])) {
    let mut s = vec![0usize; k];
    loop {
        f(&s);
        let mut i = 0;
        loop {
            if i == k {
                return;
            }
            s[i] += 1;
            if s[i] <= l {
                break;
            }
            s[i] = 0;
            i += 1;
        }
    }
}

fn build(shape: &[usize], unowned: usize) -> (RampTable<u32>, E, Vec<u32>) {
    let mut t = RampTable::new();
    let mut e = vec![];
    let mut n = 100u32;
    for &l in shape {
        let mut v = vec![];
        for _ in 0..l {
            t.push_value(n);
            v.push(n);
            n += 1;
        }
        t.finish_key();
        e.push(v);
    }
    let mut u = vec![];
    for _ in 0..unowned {
        t.push_value(n);
        u.push(n);
        n += 1;
    }
    (t, e, u)
}

pub fn same(t: &RampTable<u32>, e: &E, u: &[u32]) -> Result<(), String> {
    ensure!(t.len() == e.len(), "len() = {} expected {}", t.len(), e.len());
    ensure!(t.is_empty() == e.is_empty(), "is_empty() = {}", t.is_empty());
    #[allow(deprecated)]
    let nk = t.num_keys();
    ensure!(nk == e.len(), "num_keys() = {}", nk);
    let total: usize = e.iter().map(|v| v.len()).sum::<usize>() + u.len();
    ensure!(t.num_values() == total, "num_values() = {} expected {}", t.num_values(), total);
    let mut pos = 0;
    for (i, v) in e.iter().enumerate() {
        ensure!(t.entry_values(i) == v.as_slice(), "entry {} reads {:?}, expected {:?}", i, t.entry_values(i), v);
        ensure!(&t[i] == v.as_slice(), "index {} reads {:?}, expected {:?}", i, &t[i], v);
        ensure!(t.entry_values_range(i) == (pos..pos + v.len()), "entry {} range {:?}", i, t.entry_values_range(i));
        pos += v.len();
    }
    let mut all: Vec<u32> = e.iter().flatten().cloned().collect();
    all.extend_from_slice(u);
    ensure!(t.all_values() == all.as_slice(), "all_values {:?} expected {:?}", t.all_values(), all);
    Ok(())
}

pub fn c01(c: &mut Ctx) {
    c.rule("operation histories (push, close, push_entry_copy/clone/extend, clear) compared with a list-of-lists oracle after every operation; non-trivial: at least one key with a value");
    // exhaustive: all histories of length <= L over 7 operations
    let depth = if c.thorough { 8 } else { 6 };
    let nops = 7usize;
    for len in 0..=depth {
        let total = nops.pow(len as u32);
        for code in 0..total {
            let mut ops = vec![];
            let mut x = code;
            for _ in 0..len {
                ops.push(x % nops);
                x /= nops;
            }
            hist(c, &ops, code % 3, code / 3 % 4);
        }
    }
    c.exhaustive_note.push(format!("all operation histories up to length {}", depth));
    for n in [300u32, 70_000] {
        c.case(format!("{} keys of 0, 1 and 2 values in turn, read back, cleared, and built again", n), true, move || {
            let mut t: RampTable<u32> = RampTable::new();
            for round in 0..2 {
                let mut e: E = vec![];
                for k in 0..n {
                    let v: Vec<u32> = (0..(k + round) % 3).map(|j| 3 * k + j).collect();
                    for x in &v {
                        t.push_value(*x);
                    }
                    e.push(v);
                    let got = t.finish_key();
                    ensure!(got == k as usize, "finish_key returned {} expected {}", got, k);
                }
                same(&t, &e, &[])?;
                t.clear();
                same(&t, &vec![], &[])?;
            }
            Ok(())
        });
        c.case(format!("entries of {} values through push_entry_copy, _clone and _extend, then values without a key", n), true, move || {
            let mut t: RampTable<u32> = RampTable::with_capacity(2, 10);
            let v: Vec<u32> = (0..n).collect();
            t.push_value(1);
            t.push_entry_copy(&v);
            t.push_entry_clone(&v);
            t.push_entry_extend(0..n);
            for x in &v {
                t.push_value(*x);
            }
            let mut first = vec![1];
            first.extend(&v);
            same(&t, &vec![first, v.clone(), v.clone()], &v)
        });
    }
    // elements with a destructor, elements without a size, iterators that misjudge their length
    for code in 0..3usize.pow(5) {
        c.case(format!("texts and elements without a size, entries of {} in base 3 values", code), code > 1, move || {
            struct Hint<I>(I, usize);
            impl<I: Iterator> Iterator for Hint<I> {
                type Item = I::Item;
                fn next(&mut self) -> Option<I::Item> {
                    self.0.next()
                }
                fn size_hint(&self) -> (usize, Option<usize>) {
                    (self.1, None)
                }
            }
            let mut t: RampTable<String> = RampTable::new();
            let mut z: RampTable<()> = RampTable::new();
            let mut e: Vec<Vec<String>> = vec![];
            let mut x = code;
            for k in 0..5 {
                let l: Vec<String> = (0..x % 3).map(|i| format!("{}", (k + i) / 2)).collect();
                let m = x % 3;
                x /= 3;
                match (code + k) % 4 {
                    0 => {
                        t.push_entry_clone(&l);
                        z.push_entry_copy(&vec![(); m]);
                    }
                    1 => {
                        t.push_entry_extend(Hint(l.iter().cloned(), 0));
                        z.push_entry_extend(vec![(); m].into_iter());
                    }
                    2 => {
                        t.push_entry_extend(Hint(l.iter().cloned(), 5));
                        z.push_entry_extend(Hint((0..m).map(|_| ()), 9));
                    }
                    _ => {
                        l.iter().for_each(|s| t.push_value(s.clone()));
                        t.finish_key();
                        (0..m).for_each(|_| z.push_value(()));
                        z.finish_key();
                    }
                }
                e.push(l);
            }
            ensure!(t.len() == 5 && z.len() == 5, "{} and {} keys, expected 5", t.len(), z.len());
            for k in 0..5 {
                ensure!(t.entry_values(k) == e[k].as_slice(), "entry {} reads {:?}, expected {:?}", k, t.entry_values(k), e[k]);
                ensure!(z.entry_values(k).len() == e[k].len(), "entry {} has {} elements without a size, expected {}", k, z.entry_values(k).len(), e[k].len());
            }
            ensure!(t.num_values() == e.iter().map(|l| l.len()).sum::<usize>(), "num_values() = {}", t.num_values());
            Ok(())
        });
    }
    let mut r = Rng::new(c.seed);
    while c.more() {
        let len = 1 + r.below(60);
        let ops: Vec<usize> = (0..len).map(|_| if r.chance(1, 20) { r.below(7) } else { r.below(6) }).collect();
        hist(c, &ops, r.below(3), r.below(4));
    }
}

fn hist(c: &mut Ctx, ops: &[usize], ctor: usize, vals: usize) {
    // all values different, equal in pairs, alternating, all equal
    let w = move |n: u32| match vals {
        0 => n,
        1 => n / 2,
        2 => n % 2,
        _ => 7,
    };
    let nontriv = ops.windows(2).any(|w| w[0] == 0 && w[1] == 1);
    let o = ops.to_vec();
    c.case(
        format!("ctor {} values {} ops {:?} (0 push, 1 finish_key, 2 push_entry_copy[2], 3 push_entry_clone[1], 4 push_entry_extend[2], 5 push_entry_copy[0], 6 clear)", ctor, ["0 1 2 3", "0 0 1 1", "0 1 0 1", "7 7 7 7"][vals], ops),
        nontriv,
        move || {
            let mut t: RampTable<u32> = match ctor {
                0 => RampTable::new(),
                1 => RampTable::default(),
                _ => RampTable::with_capacity(3, 4),
            };
            let mut e: E = vec![];
            let mut u: Vec<u32> = vec![];
            let mut n = 0u32;
            same(&t, &e, &u)?;
            for op in o {
                match op {
                    0 => {
                        t.push_value(w(n));
                        u.push(w(n));
                        n += 1;
                    }
                    1 => {
                        let k = t.finish_key();
                        ensure!(k == e.len(), "finish_key returned {} expected {}", k, e.len());
                        e.push(std::mem::take(&mut u));
                    }
                    2 => {
                        t.push_entry_copy(&[w(n), w(n + 1)]);
                        u.extend_from_slice(&[w(n), w(n + 1)]);
                        e.push(std::mem::take(&mut u));
                        n += 2;
                    }
                    3 => {
                        t.push_entry_clone(&[w(n)]);
                        u.push(w(n));
                        e.push(std::mem::take(&mut u));
                        n += 1;
                    }
                    4 => {
                        t.push_entry_extend((n..n + 2).map(w));
                        u.extend((n..n + 2).map(w));
                        e.push(std::mem::take(&mut u));
                        n += 2;
                    }
                    5 => {
                        t.push_entry_copy(&[]);
                        e.push(std::mem::take(&mut u));
                    }
                    _ => {
                        t.clear();
                        e.clear();
                        u.clear();
                    }
                }
                same(&t, &e, &u)?;
            }
            Ok(())
        },
    );
}

fn tables(c: &mut Ctx, f: &dyn Fn(RampTable<u32>, E, Vec<u32>) -> Result<(), String>) {
    let (kk, ll) = if c.thorough { (7, 3) } else { (5, 3) };
    for k in 0..=kk {
        let mut all = vec![];
        shapes(k, ll, &mut |s| all.push(s.to_vec()));
        for s in all {
            for u in 0..3 {
                let d = format!("entry lengths {:?}, {} unowned values", s, u);
                c.case(d, s.iter().any(|x| *x > 0) || u > 0, || {
                    let (t, e, uu) = build(&s, u);
                    f(t, e, uu)
                });
            }
        }
    }
    for (nm, s) in [("one entry of 70000 values", vec![70_000usize]), ("70000 empty entries and one value", { let mut s = vec![0; 70_000]; s.push(1); s }), ("300 entries of 0 to 4 values", (0..300).map(|i| i * 7 % 5).collect()), ("70000 entries of one value", vec![1; 70_000])] {
        c.case(format!("{}, 2 unowned values", nm), true, || {
            let (t, e, uu) = build(&s, 2);
            f(t, e, uu)
        });
    }
    c.exhaustive_note.push(format!("all tables with up to {} keys of up to {} values and up to 2 unowned values", kk, ll));
    let mut r = Rng::new(c.seed);
    while c.more() {
        let k = r.below(40);
        let s: Vec<usize> = (0..k).map(|_| if r.chance(1, 2) { 0 } else { r.below(7) }).collect();
        let u = r.below(4);
        c.case(format!("entry lengths {:?}, {} unowned values", s, u), k > 1, || {
            let (t, e, uu) = build(&s, u);
            f(t, e, uu)
        });
    }
}

pub fn c02(c: &mut Ctx) {
    c.rule("tables by entry lengths; every iterator compared with the list-of-lists oracle (entries also from both ends); non-trivial: at least one value");
    tables(c, &|t, e, _u| {
        let got: Vec<Vec<u32>> = t.iter().map(|s| s.to_vec()).collect();
        ensure!(got == e, "iter() yields {:?}, expected {:?}", got, e);
        let mut rev: Vec<Vec<u32>> = t.iter().rev().map(|s| s.to_vec()).collect();
        rev.reverse();
        ensure!(rev == e, "iter().rev() yields (reversed) {:?}, expected {:?}", rev, e);
        ensure!(t.iter().len() == e.len(), "iter().len() = {}", t.iter().len());
        // alternate ends
        let mut it = t.iter();
        let (mut lo, mut hi) = (0, e.len());
        let mut front = true;
        while lo < hi {
            if front {
                ensure!(it.next() == Some(&e[lo][..]), "front element {} differs", lo);
                lo += 1;
            } else {
                ensure!(it.next_back() == Some(&e[hi - 1][..]), "back element {} differs", hi - 1);
                hi -= 1;
            }
            front = !front;
        }
        ensure!(it.next().is_none() && it.next_back().is_none(), "iterator yields extra entries");
        let want: Vec<(usize, u32)> = e.iter().enumerate().flat_map(|(i, v)| v.iter().map(move |x| (i, *x))).collect();
        let got: Vec<(usize, u32)> = t.iter_pairs().map(|(k, v)| (k, *v)).collect();
        ensure!(got == want, "iter_pairs() yields {:?}, expected {:?}", got, want);
        let got: Vec<(usize, u32)> = t.iter_pairs_manual().map(|(k, v)| (k, *v)).collect();
        ensure!(got == want, "iter_pairs_manual() yields {:?}, expected {:?}", got, want);
        let mut it = t.iter_pairs_manual();
        for _ in 0..want.len() {
            it.next();
        }
        ensure!(it.next().is_none() && it.next().is_none(), "iter_pairs_manual() yields after the end");
        if e.len() <= 400 {
            laws!("iter()", e.len(), [], t.iter(), |x, i| x == e[i].as_slice());
            laws_back!("iter()", e.len(), t.iter(), |x, i| x == e[i].as_slice());
            laws!("iter_pairs()", want.len(), [], t.iter_pairs(), |x, i| (x.0, *x.1) == want[i]);
            laws!("iter_pairs_manual()", want.len(), [], t.iter_pairs_manual(), |x, i| (x.0, *x.1) == want[i]);
        }
        Ok(())
    });
}

pub fn c03(c: &mut Ctx) {
    c.rule("tables by entry lengths; every entry written through entry_values_mut / IndexMut / iter_mut, all other entries, boundaries and unowned values compared with the oracle; non-trivial: at least one value");
    tables(c, &|t, e, u| {
        let mut t = t;
        let mut e = e;
        let mut u = u;
        // every key of a small table, those at powers of two and the last ones of a large one
        let last = e.len();
        let keys = (0..e.len()).filter(|k| last < 400 || [0, 1, 255, 256, 257, 32768, 65535, 65536].contains(k) || k + 2 > last);
        for k in keys.collect::<Vec<_>>() {
            {
                let s = t.entry_values_mut(k);
                ensure!(s == e[k].as_slice(), "entry_values_mut({}) exposes {:?}, expected {:?}", k, s, e[k]);
                for x in s.iter_mut() {
                    *x += 1000;
                }
            }
            for x in e[k].iter_mut() {
                *x += 1000;
            }
            same(&t, &e, &u)?;
            {
                let s = &mut t[k];
                ensure!(s == e[k].as_slice(), "index_mut({}) exposes {:?}, expected {:?}", k, s, e[k]);
                for x in s.iter_mut() {
                    *x += 5000;
                }
            }
            for x in e[k].iter_mut() {
                *x += 5000;
            }
            same(&t, &e, &u)?;
        }
        {
            let slices: Vec<&mut [u32]> = t.iter_mut().collect();
            ensure!(slices.len() == e.len(), "iter_mut() yields {} slices, expected {}", slices.len(), e.len());
            for (k, s) in slices.into_iter().enumerate() {
                ensure!(s == e[k].as_slice(), "iter_mut() slice {} is {:?}, expected {:?}", k, s, e[k]);
                for x in s.iter_mut() {
                    *x = *x * 2 + k as u32;
                }
            }
        }
        for (k, v) in e.iter_mut().enumerate() {
            for x in v.iter_mut() {
                *x = *x * 2 + k as u32;
            }
        }
        same(&t, &e, &u)?;
        {
            let mut it = t.iter_mut();
            for _ in 0..e.len() {
                it.next();
            }
            ensure!(it.next().is_none() && it.next().is_none(), "iter_mut() yields after the end");
        }
        if e.len() <= 400 {
            laws!("iter_mut()", e.len(), [], t.iter_mut(), |x, i| x == e[i].as_slice());
        }
        for x in t.all_values_mut().iter_mut() {
            *x += 7;
        }
        for v in e.iter_mut() {
            for x in v.iter_mut() {
                *x += 7;
            }
        }
        for x in u.iter_mut() {
            *x += 7;
        }
        same(&t, &e, &u)
    });
}

pub fn c04(c: &mut Ctx) {
    c.rule("sequences of keys with serial-numbered values, handed over by any mixture of push and extend, with and without capacity; keys in random order and in ascending stretches; non-trivial: at least two pairs");
    let (n, m) = if c.thorough { (7, 5) } else { (6, 4) };
    for len in 0..=n {
        let total = (m as usize).pow(len as u32);
        for code in 0..total {
            let mut x = code;
            let ks: Vec<u32> = (0..len).map(|_| {
                let k = (x % m) as u32;
                x /= m;
                k
            }).collect();
            builder(c, &ks, code % 3, 0);
            if len <= 4 {
                // every way to split them into pushes (bit 0) and extends (bit 1)
                for ways in 1..(1u64 << len) {
                    builder(c, &ks, 0, ways);
                }
            }
        }
    }
    for (nm, f) in [("ascending", (|i| i) as fn(u32) -> u32), ("descending", |i| 69_999 - i), ("all equal", |_| 3), ("scattered", |i| i * 40_503 % 65_537), ("two keys in turn", |i| i % 2 * 70_000)] {
        let ks: Vec<u32> = (0..70_000).map(f).collect();
        let what = format!("70000 keys, {}", nm);
        builder_case(c, what, &ks, 0, 0);
    }
    c.exhaustive_note.push(format!("all key sequences up to length {} over {} keys", n, m));
    let mut r = Rng::new(c.seed);
    while c.more() {
        let len = r.below(50);
        let cap = if r.chance(1, 5) { 2000 } else { 12 };
        let mx = 1 + r.below(cap);
        let mut ks: Vec<u32> = (0..len).map(|_| r.below(mx) as u32).collect();
        // stretches of ascending keys, so that histories that are almost in order occur, too
        if r.chance(1, 2) {
            let mut at = 0;
            while at < len {
                let to = (at + 1 + r.below(6)).min(len);
                ks[at..to].sort();
                at = to;
            }
        }
        // the pairs are handed over in pieces, each by pushes or by one extend
        builder(c, &ks, r.below(3), r.next());
    }
}

// bit i of `ways`: pair i is pushed (0) or extended (1); extended neighbours form one extend
fn builder(c: &mut Ctx, ks: &[u32], how: usize, ways: u64) {
    builder_case(c, format!("keys {:?} (values 0..), mode {}, extend mask {:#x}", ks, how, ways), ks, how, ways)
}
fn builder_case(c: &mut Ctx, what: String, ks: &[u32], how: usize, ways: u64) {
    let ks2 = ks.to_vec();
    c.case(what, ks.len() >= 2, move || {
        let mut b: RampTableBuilder<u32> = if how == 1 { RampTableBuilder::with_capacity(3) } else { RampTableBuilder::new() };
        let pairs: Vec<(u32, u32)> = ks2.iter().cloned().zip(0u32..).collect();
        let mut at = 0;
        if how == 2 {
            at = pairs.len() / 2;
            b.extend(pairs[..at].iter().cloned());
        }
        while at < pairs.len() {
            let mut to = at;
            while to < pairs.len() && ways >> (to % 64) & 1 == 1 {
                to += 1;
            }
            if to > at {
                b.extend(pairs[at..to].iter().cloned());
                at = to;
            } else {
                b.push(pairs[at].0, pairs[at].1);
                at += 1;
            }
        }
        let t = b.finish();
        let nk = ks2.iter().max().map(|m| *m as usize + 1).unwrap_or(0);
        let mut e: E = vec![vec![]; nk];
        for (k, v) in pairs {
            e[k as usize].push(v);
        }
        same(&t, &e, &[])
    });
}
