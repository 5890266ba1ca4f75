//! Monitors for the splay containers: C13 (model), C14 (ownership), C15 (cost).
use crate::ctx::*;
use crate::ensure;
use crate::rng::Rng;
use geo_crossings::{SplaySet, SplayTree};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// Key whose identity is visible although the comparator ignores it.
#[derive(Clone, Debug, PartialEq)]
struct K {
    v: i64,
    id: u32,
}

/// Comparators: each is a monotone function of `rank`.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cmp {
    Plain,
    Reverse,
    Classes,
    BitReverse,
    ParityFirst,
}
const CMPS: [Cmp; 5] = [Cmp::Plain, Cmp::Reverse, Cmp::Classes, Cmp::BitReverse, Cmp::ParityFirst];
fn rank(c: Cmp, v: i64) -> i64 {
    match c {
        Cmp::Plain => v,
        Cmp::Reverse => -v,
        Cmp::Classes => v.div_euclid(7),
        Cmp::BitReverse => (v as u64).reverse_bits() as i64,
        Cmp::ParityFirst => v.rem_euclid(2) * 1_000_000 + v,
    }
}

/// How the next key of a sequence is chosen.
struct Keys {
    mode: u64,
    n: i64,
    i: i64,
}
impl Keys {
    fn next(&mut self, rng: &mut Rng) -> i64 {
        self.i += 1;
        let (i, n) = (self.i, self.n);
        match self.mode {
            0 => rng.range(0, n),
            1 => i % (n + 1),
            2 => n - i % (n + 1),
            3 => {
                if i % 2 == 0 {
                    (i / 2) % (n + 1)
                } else {
                    n - (i / 2) % (n + 1)
                }
            }
            4 => {
                let b = rng.range(0, n);
                b.min(rng.range(0, n)).min(rng.range(0, n))
            }
            _ => (i * 7919) % (n + 1),
        }
    }
}

fn setup(ctx: &mut Ctx, rng: &mut Rng) -> (Cmp, Keys, usize) {
    let cmp = *rng.pick(&CMPS);
    let n = match rng.below(10) {
        0 | 1 | 2 => rng.range(1, 6),
        3 | 4 | 5 => rng.range(5, 40),
        6 | 7 => rng.range(40, 200),
        _ => rng.range(200, if ctx.thorough { 5000 } else { 1500 }),
    };
    let ops = match rng.below(5) {
        0 => 5 + rng.usize(30),
        1 | 2 => 50 + rng.usize(200),
        _ => (n as usize) + rng.usize(3 * n as usize + 100),
    };
    (cmp, Keys { mode: rng.below(6), n, i: 0 }, ops)
}

/// One history in so many grows to thousands of keys, or to more than 16 bits
/// count.
const LARGE: u64 = 1500;
const HUGE: u64 = 29_999;

fn setup_large(ctx: &mut Ctx, rng: &mut Rng) -> (Cmp, Keys, usize, bool) {
    let g = if rare(HUGE) { 0 } else { 1 + rng.below(HUGE) };
    let (cmp, keys, ops) = setup(ctx, rng);
    if g != 0 && g % LARGE != 1 {
        return (cmp, keys, ops, false);
    }
    let cmp = if cmp == Cmp::Classes { Cmp::Plain } else { cmp };
    let n = if g == 0 { rng.range(70_000, 80_000) } else { rng.range(2000, 10_000) };
    (cmp, Keys { mode: *rng.pick(&[0u64, 1, 2, 3, 5]), n, i: 0 }, 5 * n as usize, true)
}

// ---------------------------------------------------------------- C13

struct Budget {
    left: Cell<u64>,
    calls: Cell<u64>,
}
impl Budget {
    fn cmp(&self, c: Cmp, a: &K, b: &K) -> Ordering {
        self.calls.set(self.calls.get() + 1);
        match self.left.get().checked_sub(1) {
            Some(l) => self.left.set(l),
            None => panic!("the operation does not terminate: comparator budget used up"),
        }
        rank(c, a.v).cmp(&rank(c, b.v))
    }
    fn refill(&self, n: usize) {
        self.left.set(64 * (n as u64 + 16));
    }
}

fn kv<'a>(o: Option<(&'a K, &'a u64)>) -> Option<(K, u64)> {
    o.map(|(k, v)| (k.clone(), *v))
}

pub fn c13(ctx: &mut Ctx, rng: &mut Rng, case: u64) -> Verdict {
    if case % 3 == 2 {
        return c13_set(ctx, rng);
    }
    let (cmp, mut keys, nops, large) = setup_large(ctx, rng);
    let bud = Rc::new(Budget { left: Cell::new(u64::MAX), calls: Cell::new(0) });
    let b2 = bud.clone();
    let mut t = SplayTree::new(move |a: &K, b: &K| b2.cmp(cmp, a, b));
    let mut m: BTreeMap<i64, (K, u64)> = BTreeMap::new();
    let r = |v: i64| rank(cmp, v);
    let mut id = 0u32;
    // share of mutating operations
    let (ins, del) = (*rng.pick(&[30u64, 45, 60]), *rng.pick(&[5u64, 15, 30]));
    let (ins, del) = if large { (80, rng.range(0, 2) as u64) } else { (ins, del) };
    ctx.feed(cmp as u64);
    ctx.input(|| format!("SplayTree, comparator {cmp:?}:"));
    for _ in 0..nops {
        let v = keys.next(rng);
        let k = K { v, id };
        id += 1;
        bud.refill(m.len());
        let w = rng.below(100);
        ctx.feed((v as u64) << 8 | w);
        let hit = m.contains_key(&r(v));
        let got = m.get(&r(v)).cloned();
        if w < ins {
            let x = rng.u64();
            ctx.input(|| format!("insert({v})"));
            let o = sut("insert", || t.insert(k.clone(), x))?;
            ensure!(o == got.as_ref().map(|g| g.1), "insert({v}) returned {o:?}, model {got:?}");
            match m.get_mut(&r(v)) {
                // replacing a value keeps the stored key
                Some(e) => e.1 = x,
                None => {
                    m.insert(r(v), (k, x));
                }
            }
            ctx.add(if hit { "op_insert_replace" } else { "op_insert_new" }, 1);
        } else if w < ins + del {
            ctx.input(|| format!("remove({v})"));
            let o = sut("remove", || t.remove(&k))?;
            ensure!(o == got.as_ref().map(|g| g.1), "remove({v}) returned {o:?}, model {got:?}");
            m.remove(&r(v));
            ctx.add(if hit { "op_remove_hit" } else { "op_remove_miss" }, 1);
        } else {
            match rng.below(12) {
                0 => {
                    ctx.input(|| format!("get({v})"));
                    let o = sut("get", || t.get(&k).cloned())?;
                    ensure!(o == got.map(|g| g.1), "get({v}) returned {o:?}");
                    ctx.add("op_get", 1);
                }
                1 => {
                    let x = rng.u64();
                    ctx.input(|| format!("get_mut({v})"));
                    let o = sut("get_mut", || {
                        t.get_mut(&k).map(|p| {
                            let old = *p;
                            *p = x;
                            old
                        })
                    })?;
                    ensure!(o == got.map(|g| g.1), "get_mut({v}) gave {o:?}");
                    if let Some(e) = m.get_mut(&r(v)) {
                        e.1 = x;
                    }
                    ctx.add("op_get_mut", 1);
                }
                2 => {
                    ctx.input(|| format!("contains({v})"));
                    let o = sut("contains", || t.contains(&k))?;
                    ensure!(o == hit, "contains({v}) = {o}");
                    ctx.add("op_contains", 1);
                }
                3 => {
                    ctx.input(|| format!("find_key({v})"));
                    let o = sut("find_key", || t.find_key(&k).cloned())?;
                    ensure!(o == got.as_ref().map(|g| g.0.clone()), "find_key({v}) = {o:?}, stored {got:?}");
                    ctx.add("op_find_key", 1);
                }
                4 | 5 => {
                    ctx.input(|| format!("next({v})"));
                    let o = sut("next", || kv(t.next(&k)))?;
                    let e = m.range((std::ops::Bound::Excluded(r(v)), std::ops::Bound::Unbounded)).next().map(|q| q.1.clone());
                    ensure!(o == e, "next({v}) = {o:?}, model {e:?}");
                    ctx.add("op_next", 1);
                }
                6 | 7 => {
                    ctx.input(|| format!("prev({v})"));
                    let o = sut("prev", || kv(t.prev(&k)))?;
                    let e = m.range(..r(v)).next_back().map(|q| q.1.clone());
                    ensure!(o == e, "prev({v}) = {o:?}, model {e:?}");
                    ctx.add("op_prev", 1);
                }
                8 => {
                    ctx.input(|| "min, max".into());
                    let o = sut("min/max", || (t.min().cloned(), t.max().cloned()))?;
                    let e = (m.values().next().map(|q| q.0.clone()), m.values().next_back().map(|q| q.0.clone()));
                    ensure!(o == e, "min, max = {o:?}, model {e:?}");
                    ctx.add("op_min_max", 1);
                }
                9 => {
                    ctx.input(|| format!("[{v}]"));
                    let o = catch_unwind(AssertUnwindSafe(|| t[&k]));
                    ensure!(o.is_ok() == hit, "indexing with {} key {v} {}", if hit { "a present" } else { "an absent" }, if hit { "panicked" } else { "returned" });
                    if let Ok(o) = o {
                        ensure!(Some(o) == got.map(|g| g.1), "[{v}] = {o}");
                    }
                    ctx.add("op_index", 1);
                }
                10 => {
                    ctx.input(|| format!("[{v}] += 1"));
                    let o = catch_unwind(AssertUnwindSafe(|| {
                        let p = &mut t[&k];
                        *p = p.wrapping_add(1);
                    }));
                    ensure!(o.is_ok() == hit, "mutable indexing with key {v}: panicked {}, present {hit}", o.is_err());
                    if let Some(e) = m.get_mut(&r(v)) {
                        e.1 = e.1.wrapping_add(1);
                    }
                    ctx.add("op_index_mut", 1);
                }
                _ => {
                    // references from shared queries survive later shared queries
                    let others: Vec<K> = (0..4).map(|_| K { v: rng.range(0, keys.n), id: 0 }).collect();
                    ctx.input(|| format!("hold get({v}) and query {:?}", others.iter().map(|o| o.v).collect::<Vec<_>>()));
                    bud.refill(8 * m.len());
                    let o = sut("shared queries", || {
                        let a = t.get(&k);
                        let b = t.next(&k);
                        let c = t.min();
                        for o in &others {
                            t.get(o);
                            t.contains(o);
                            t.next(o);
                            t.prev(o);
                        }
                        (a.cloned(), kv(b), c.cloned())
                    })?;
                    let e = (
                        got.map(|g| g.1),
                        m.range((std::ops::Bound::Excluded(r(v)), std::ops::Bound::Unbounded)).next().map(|q| q.1.clone()),
                        m.values().next().map(|q| q.0.clone()),
                    );
                    ensure!(o == e, "held references read {o:?}, model {e:?}");
                    ctx.add("op_held_references", 1);
                }
            }
        }
        if rng.chance(1, if large { 500_000 } else { 400 }) {
            ctx.input(|| "clear".into());
            sut("clear", || t.clear())?;
            m.clear();
            ctx.add("op_clear", 1);
        }
        if rng.chance(1, 100) {
            let more: Vec<i64> = (0..rng.usize(20)).map(|_| keys.next(rng)).collect();
            ctx.input(|| format!("extend({more:?})"));
            bud.refill(30 * (m.len() + 30));
            let it: Vec<(K, u64)> = more.iter().map(|&v| (K { v, id: 1_000_000 + id }, v as u64)).collect();
            sut("extend", || t.extend(it.clone()))?;
            for (k, v) in it {
                let e = m.entry(r(k.v)).or_insert((k, v));
                e.1 = v;
            }
            ctx.add("op_extend", 1);
        }
        ensure!(t.len() == m.len() && t.is_empty() == m.is_empty(), "len {} / is_empty {}, model {}", t.len(), t.is_empty(), m.len());
        ctx.max("max_size", m.len() as u64);
    }
    ctx.nontrivial = m.len() > 1;
    ctx.add("comparisons_observed", bud.calls.get());
    // drain
    let mut rest: std::collections::VecDeque<(K, u64)> = m.values().cloned().collect();
    let mode = rng.below(4);
    ctx.input(|| format!("into_iter (mode {mode})"));
    let mut it = sut("into_iter", || t.into_iter())?;
    if mode == 3 {
        ctx.add("iterators_walked_by_other_methods", 1);
        return crate::drive::both(rng, it, rest.into());
    }
    let mut back = false;
    loop {
        let h = it.size_hint();
        ensure!(h == (rest.len(), Some(rest.len())) && it.len() == rest.len(), "size_hint {h:?} with {} items left", rest.len());
        back = match mode {
            0 => false,
            1 => true,
            _ => {
                if rng.chance(1, 3) {
                    !back
                } else {
                    back
                }
            }
        };
        let (o, e) = if back {
            (sut("next_back", || it.next_back())?, rest.pop_back())
        } else {
            (sut("next", || it.next())?, rest.pop_front())
        };
        ensure!(o == e, "iterator ({}) gave {o:?}, model {e:?}", if back { "from the back" } else { "from the front" });
        ctx.add("items_iterated", 1);
        if e.is_none() {
            break;
        }
    }
    ensure!(it.next().is_none() && it.next_back().is_none(), "exhausted iterator yields again");
    Ok(())
}

fn c13_set(ctx: &mut Ctx, rng: &mut Rng) -> Verdict {
    let (cmp, mut keys, nops, large) = setup_large(ctx, rng);
    let bud = Rc::new(Budget { left: Cell::new(u64::MAX), calls: Cell::new(0) });
    let b2 = bud.clone();
    let mut t = SplaySet::new(move |a: &K, b: &K| b2.cmp(cmp, a, b));
    let mut m: BTreeMap<i64, K> = BTreeMap::new();
    let r = |v: i64| rank(cmp, v);
    let mut id = 0u32;
    let (ins, del) = (*rng.pick(&[30u64, 45, 60]), *rng.pick(&[5u64, 15, 30]));
    let (ins, del) = if large { (80, rng.range(0, 2) as u64) } else { (ins, del) };
    ctx.feed(100 + cmp as u64);
    ctx.input(|| format!("SplaySet, comparator {cmp:?}:"));
    for _ in 0..nops {
        let v = keys.next(rng);
        let k = K { v, id };
        id += 1;
        bud.refill(m.len());
        let w = rng.below(100);
        ctx.feed((v as u64) << 8 | w);
        let hit = m.contains_key(&r(v));
        if w < ins {
            ctx.input(|| format!("insert({v})"));
            let o = sut("insert", || t.insert(k.clone()))?;
            ensure!(o != hit, "insert({v}) returned {o}, present before: {hit}");
            m.entry(r(v)).or_insert(k);
            ctx.add("op_set_insert", 1);
        } else if w < ins + del {
            ctx.input(|| format!("remove({v})"));
            let o = sut("remove", || t.remove(&k))?;
            ensure!(o == hit, "remove({v}) returned {o}, present before: {hit}");
            m.remove(&r(v));
            ctx.add("op_set_remove", 1);
        } else {
            match rng.below(5) {
                0 => {
                    ctx.input(|| format!("contains({v})"));
                    let o = sut("contains", || t.contains(&k))?;
                    ensure!(o == hit, "contains({v}) = {o}");
                }
                1 => {
                    ctx.input(|| format!("find({v})"));
                    let o = sut("find", || t.find(&k).cloned())?;
                    ensure!(o == m.get(&r(v)).cloned(), "find({v}) = {o:?}, stored {:?}", m.get(&r(v)));
                }
                2 => {
                    ctx.input(|| format!("next({v})"));
                    let o = sut("next", || t.next(&k).cloned())?;
                    let e = m.range((std::ops::Bound::Excluded(r(v)), std::ops::Bound::Unbounded)).next().map(|q| q.1.clone());
                    ensure!(o == e, "next({v}) = {o:?}, model {e:?}");
                }
                3 => {
                    ctx.input(|| format!("prev({v})"));
                    let o = sut("prev", || t.prev(&k).cloned())?;
                    let e = m.range(..r(v)).next_back().map(|q| q.1.clone());
                    ensure!(o == e, "prev({v}) = {o:?}, model {e:?}");
                }
                _ => {
                    ctx.input(|| "min, max".into());
                    let o = sut("min/max", || (t.min().cloned(), t.max().cloned()))?;
                    let e = (m.values().next().cloned(), m.values().next_back().cloned());
                    ensure!(o == e, "min, max = {o:?}, model {e:?}");
                }
            }
            ctx.add("op_set_query", 1);
        }
        if rng.chance(1, if large { 500_000 } else { 400 }) {
            ctx.input(|| "clear".into());
            sut("clear", || t.clear())?;
            m.clear();
        }
        if rng.chance(1, 100) {
            let more: Vec<K> = (0..rng.usize(20)).map(|_| K { v: keys.next(rng), id: 1_000_000 + id }).collect();
            ctx.input(|| format!("extend({:?})", more.iter().map(|k| k.v).collect::<Vec<_>>()));
            bud.refill(30 * (m.len() + 30));
            sut("extend", || t.extend(more.clone()))?;
            for k in more {
                m.entry(r(k.v)).or_insert(k);
            }
        }
        ensure!(t.len() == m.len() && t.is_empty() == m.is_empty(), "len {} / is_empty {}, model {}", t.len(), t.is_empty(), m.len());
        ctx.max("max_size", m.len() as u64);
    }
    ctx.nontrivial = m.len() > 1;
    ctx.add("comparisons_observed", bud.calls.get());
    let mut rest: std::collections::VecDeque<K> = m.values().cloned().collect();
    let p = *rng.pick(&[0u64, 50, 100]);
    ctx.input(|| format!("into_iter, {p}% from the back"));
    let mut it = sut("into_iter", || t.into_iter())?;
    if rng.chance(1, 4) {
        ctx.add("iterators_walked_by_other_methods", 1);
        return crate::drive::both(rng, it, rest.into());
    }
    loop {
        let h = it.size_hint();
        ensure!(h == (rest.len(), Some(rest.len())), "size_hint {h:?} with {} items left", rest.len());
        let back = rng.chance(p, 100);
        let (o, e) = if back {
            (sut("next_back", || it.next_back())?, rest.pop_back())
        } else {
            (sut("next", || it.next())?, rest.pop_front())
        };
        ensure!(o == e, "iterator gave {o:?}, model {e:?} (back: {back})");
        ctx.add("items_iterated", 1);
        if e.is_none() {
            break;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

#[derive(Default)]
struct Ledger {
    /// Per object: number of times dropped.
    drops: RefCell<Vec<u8>>,
    bad: RefCell<Option<String>>,
    /// Comparator panics when this reaches zero.
    fuse: Cell<u64>,
}
impl Ledger {
    fn alloc(&self) -> usize {
        let mut d = self.drops.borrow_mut();
        d.push(0);
        d.len() - 1
    }
    fn live(&self) -> usize {
        self.drops.borrow().iter().filter(|d| **d == 0).count()
    }
    fn verdict(&self) -> Verdict {
        match &*self.bad.borrow() {
            Some(b) => Err(b.clone()),
            None => Ok(()),
        }
    }
}
struct Tok {
    v: i64,
    id: usize,
    l: Rc<Ledger>,
}
impl Tok {
    fn new(v: i64, l: &Rc<Ledger>) -> Tok {
        Tok { v, id: l.alloc(), l: l.clone() }
    }
    fn check(&self, what: &str) {
        if self.l.drops.borrow()[self.id] != 0 {
            self.l.bad.borrow_mut().get_or_insert(format!("object {} (key {}) used by {what} after it was dropped", self.id, self.v));
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let mut d = self.l.drops.borrow_mut();
        d[self.id] = d[self.id].saturating_add(1);
        if d[self.id] > 1 {
            self.l.bad.borrow_mut().get_or_insert(format!("object {} (key {}) dropped twice", self.id, self.v));
        }
    }
}

/// Small stack: anything recursing over a deep tree overflows it.
fn on_small_stack(f: impl FnOnce() -> Verdict + Send + 'static) -> Verdict {
    std::thread::Builder::new().stack_size(192 << 10).spawn(f).unwrap().join().unwrap_or_else(|e| Err(panic_text(e)))
}

fn deep(ctx: &mut Ctx, rng: &mut Rng) -> Verdict {
    let n = 20_000 + rng.usize(if ctx.thorough { 200_000 } else { 30_000 });
    let (kind, dir) = (rng.below(10), rng.chance(1, 2));
    let k = rng.usize(n);
    let fuse0 = if rng.chance(1, 2) { rng.below(8) } else { rng.below(n as u64) };
    let op = rng.below(6);
    // keys looked at before the fuse is lit, and the one looked at then
    let some = |rng: &mut Rng| match rng.below(3) {
        0 => rng.usize(8),
        1 => n - 1 - rng.usize(8),
        _ => rng.usize(n),
    };
    let before: Vec<usize> = (0..rng.usize(3)).map(|_| some(rng)).collect();
    let then = if rng.chance(1, 2) { some(rng) } else if dir { 0 } else { n - 1 };
    for b in before.iter().chain([&then]) {
        ctx.feed(*b as u64);
    }
    ctx.feed(n as u64);
    ctx.feed(kind << 1 | dir as u64);
    ctx.feed(k as u64);
    ctx.feed(fuse0 << 3 | op);
    ctx.input(|| format!("{n} keys inserted in {} order, then end {kind} (parameter {k}, operation {op}, comparator fuse {fuse0}, keys {before:?} then {then})", if dir { "ascending" } else { "descending" }));
    ctx.add("deep_trees", 1);
    ctx.max("max_depth", n as u64);
    ctx.nontrivial = true;
    on_small_stack(move || {
        let cnt = Rc::new(Cell::new(0i64));
        struct C(u32, Rc<Cell<i64>>);
        impl Drop for C {
            fn drop(&mut self) {
                self.1.set(self.1.get() - 1);
            }
        }
        let mk = |v: usize| {
            cnt.set(cnt.get() + 1);
            C(v as u32, cnt.clone())
        };
        let fuse = Cell::new(u64::MAX);
        let mut t = SplayTree::new(|a: &C, b: &C| {
            if fuse.get() == 0 {
                fuse.set(u64::MAX);
                panic!("injected comparator panic");
            }
            fuse.set(fuse.get() - 1);
            a.0.cmp(&b.0)
        });
        for i in 0..n {
            let v = if dir { i } else { n - 1 - i };
            t.insert(mk(v), mk(v));
        }
        ensure!(cnt.get() == 2 * n as i64, "{} live objects after {n} inserts", cnt.get());
        match kind {
            0 => drop(t),
            1 => {
                t.clear();
                ensure!(cnt.get() == 0, "{} objects alive after clear", cnt.get());
                ensure!(t.len() == 0 && t.min().is_none(), "not empty after clear");
                t.insert(mk(1), mk(1));
                drop(t);
            }
            2 => {
                let mut it = t.into_iter();
                let k = k % 100;
                for i in 0..k {
                    ensure!(it.next().map(|q| q.0 .0) == Some(i as u32), "iteration order");
                }
                ensure!(cnt.get() == 2 * (n - k) as i64, "{} objects alive after taking {k} of {n}", cnt.get());
            }
            3 => {
                let mut it = t.into_iter();
                let k = k % 100;
                for i in 0..k {
                    ensure!(it.next_back().map(|q| q.0 .0) == Some((n - 1 - i) as u32), "iteration order");
                }
            }
            4 => {
                let s: u64 = t.into_iter().map(|q| q.0 .0 as u64).sum();
                ensure!(s == (n as u64) * (n as u64 - 1) / 2, "sum over the iteration");
            }
            5 => {
                // deepest first, then remove
                let probe = mk(if dir { 0 } else { n - 1 });
                ensure!(t.get(&probe).is_some(), "deepest key not found");
                let p2 = mk(k);
                ensure!(t.remove(&p2).is_some() && t.len() == n - 1, "remove({k})");
                ensure!(t.remove(&p2).is_none(), "second remove({k})");
                drop((probe, p2));
                ensure!(cnt.get() == 2 * (n as i64 - 1), "{} objects alive, {n} keys inserted, one removed", cnt.get());
                drop(t);
            }
            7 | 8 | 9 => {
                // a comparator that panics somewhere on the way to the deepest key
                for b in &before {
                    let p = mk(*b);
                    ensure!(t.get(&p).is_some(), "key {b} not found");
                }
                let v = if op < 4 { then } else { k };
                let probe = mk(v);
                fuse.set(fuse0);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    match op {
                        0 | 4 => drop(t.get(&probe).is_some()),
                        1 | 5 => drop(t.remove(&probe)),
                        2 => drop(t.insert(mk(v), mk(v))),
                        _ => drop((t.next(&probe).is_some(), t.prev(&probe).is_some())),
                    };
                }));
                fuse.set(u64::MAX);
                if let Err(e) = r {
                    let txt = panic_text(e);
                    ensure!(txt.contains("injected comparator panic"), "{txt}");
                }
                drop(probe);
                ensure!(cnt.get() <= 2 * n as i64, "{} objects alive in a tree of {n}", cnt.get());
                drop(t);
            }
            _ => {
                let s: SplaySet<C, _> = {
                    let mut s = SplaySet::new(|a: &C, b: &C| a.0.cmp(&b.0));
                    s.extend(t.into_iter().map(|q| q.0));
                    s
                };
                ensure!(s.len() == n && cnt.get() == n as i64, "set of {} from {n}, {} alive", s.len(), cnt.get());
                drop(s);
            }
        }
        ensure!(cnt.get() == 0, "{} objects alive in the end", cnt.get());
        Ok(())
    })
}

pub fn c14(ctx: &mut Ctx, rng: &mut Rng, case: u64) -> Verdict {
    if case % 250 < 2 {
        return deep(ctx, rng);
    }
    let led = Rc::new(Ledger::default());
    led.fuse.set(u64::MAX);
    let (cmp, mut keys, nops) = setup(ctx, rng);
    let faults = rng.chance(1, 2);
    ctx.input(|| format!("comparator {cmp:?}, comparator panics injected: {faults};"));
    let r = c14_run(ctx, rng, &led, cmp, &mut keys, nops.min(600), faults);
    led.verdict()?;
    r?;
    let live = led.live();
    ensure!(live == 0, "{live} objects were never dropped");
    ctx.add("objects_observed", led.drops.borrow().len() as u64);
    Ok(())
}

fn c14_run(ctx: &mut Ctx, rng: &mut Rng, led: &Rc<Ledger>, cmp: Cmp, keys: &mut Keys, nops: usize, faults: bool) -> Verdict {
    let l2 = led.clone();
    let mut t = SplayTree::new(move |a: &Tok, b: &Tok| {
        a.check("the comparator");
        b.check("the comparator");
        let f = l2.fuse.get();
        if f == 0 {
            l2.fuse.set(u64::MAX);
            panic!("injected comparator panic");
        }
        l2.fuse.set(f - 1);
        rank(cmp, a.v).cmp(&rank(cmp, b.v))
    });
    // objects that must be inside (keys ranks), unless a fault lost some
    let mut m: BTreeSet<i64> = BTreeSet::new();
    let mut intact = true;
    let mut held: Vec<Tok> = vec![];
    for _ in 0..nops {
        let v = keys.next(rng);
        let w = rng.below(100);
        ctx.feed((v as u64) << 8 | w);
        led.fuse.set(u64::MAX);
        if faults && rng.chance(1, 25) {
            led.fuse.set(rng.below(8));
        }
        let before = led.fuse.get();
        let k = Tok::new(v, led);
        let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
            match w {
                0..=54 => {
                    ctx.input(|| format!("insert({v})"));
                    let o = t.insert(k, Tok::new(v, led));
                    if let Some(o) = o {
                        o.check("the caller of insert");
                        if w % 2 == 0 {
                            held.push(o);
                        }
                    }
                    m.insert(rank(cmp, v));
                }
                55..=79 => {
                    ctx.input(|| format!("remove({v})"));
                    if let Some(o) = t.remove(&k) {
                        o.check("the caller of remove");
                        if w % 2 == 0 {
                            held.push(o);
                        }
                    }
                    m.remove(&rank(cmp, v));
                }
                80..=85 => {
                    ctx.input(|| format!("get({v})"));
                    if let Some(o) = t.get(&k) {
                        o.check("the caller of get");
                    }
                }
                86..=89 => {
                    ctx.input(|| format!("get_mut({v})"));
                    if let Some(o) = t.get_mut(&k) {
                        o.check("the caller of get_mut");
                        *o = Tok::new(v, led);
                    }
                }
                90..=97 => {
                    ctx.input(|| format!("next({v}), prev({v}), min, max"));
                    let (a, b) = (t.next(&k), t.prev(&k));
                    for (x, y) in a.into_iter().chain(b) {
                        x.check("the caller of next/prev");
                        y.check("the caller of next/prev");
                    }
                    for x in t.min().into_iter().chain(t.max()) {
                        x.check("the caller of min/max");
                    }
                }
                98 if rng.chance(1, 4) => {
                    ctx.input(|| "clear".into());
                    t.clear();
                    m.clear();
                    intact = true;
                }
                _ => {}
            }
            Ok(())
        }));
        match res {
            Ok(x) => x?,
            Err(e) => {
                let txt = panic_text(e);
                ensure!(txt.contains("injected comparator panic"), "{txt}");
                ctx.add("comparator_panics_injected", 1);
                ctx.input(|| format!("<comparator panicked on its call {before}>"));
                intact = false;
            }
        }
        ctx.add("ops_observed", 1);
        led.fuse.set(u64::MAX);
        led.verdict()?;
        if rng.chance(1, 8) {
            held.clear();
        }
        if intact {
            let inside = led.live() - held.len();
            ensure!(inside == 2 * m.len() && t.len() == m.len(), "{inside} objects alive inside, len {}, but {} entries were put in and not taken out", t.len(), m.len());
        }
    }
    ctx.nontrivial = m.len() > 1;
    held.clear();
    if faults && rng.chance(1, 4) {
        // replace all by clearing after a fault
        ctx.input(|| "clear".into());
        sut("clear", || t.clear())?;
        ensure!(led.live() == 0, "{} objects alive after clear", led.live());
        return Ok(());
    }
    match rng.below(5) {
        0 => {
            ctx.input(|| "drop".into());
            sut("drop", || drop(t))?;
        }
        4 => {
            // by other means than one item at a time
            let (a, b, way, n) = (rng.usize(4), rng.usize(4), rng.below(10), m.len());
            ctx.input(|| format!("into_iter, nth({a}), nth_back({b}), ended in way {way}"));
            ctx.add("iterators_consumed_at_once", 1);
            let look = |q: &(Tok, Tok)| {
                q.0.check("iteration");
                q.1.check("iteration");
            };
            sut("iteration", || {
                let mut it = t.into_iter();
                let x = if rng.chance(1, 2) { it.nth(a) } else { None };
                let y = if rng.chance(1, 2) { it.nth_back(b) } else { None };
                x.iter().chain(&y).for_each(look);
                match way {
                    0 => drop(it.count()),
                    1 => it.last().iter().for_each(look),
                    2 => it.for_each(|q| look(&q)),
                    3 => it.rev().for_each(|q| look(&q)),
                    4 => it.rfold((), |_, q| look(&q)),
                    5 => it.skip(a + b).step_by(a + 1).for_each(|q| look(&q)),
                    6 => {
                        let (u, v): (Vec<_>, Vec<_>) = it.partition(|q| q.0.v % 2 == 0);
                        u.iter().chain(&v).for_each(look);
                    }
                    7 => it.max_by(|p, q| p.0.v.cmp(&q.0.v)).iter().for_each(look),
                    8 => {
                        it.find(|q| q.0.v as usize % 3 == a).iter().for_each(look);
                        it.rfind(|q| q.0.v as usize % 3 == b).iter().for_each(look);
                        drop(it.unzip::<_, _, Vec<_>, Vec<_>>());
                    }
                    _ => {
                        // a panic in the consumer
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut left = n / 2;
                            it.for_each(|q| {
                                look(&q);
                                if left == 0 {
                                    panic!("injected comparator panic");
                                }
                                left -= 1;
                            })
                        }));
                        drop(r);
                    }
                }
            })?;
        }
        1 => {
            let n = rng.usize(m.len() + 2);
            ctx.input(|| format!("into_iter, take {n}, drop"));
            let mut it = sut("into_iter", || t.into_iter())?;
            for _ in 0..n {
                let back = rng.chance(1, 2);
                if let Some((a, b)) = sut("iteration", || if back { it.next_back() } else { it.next() })? {
                    a.check("iteration");
                    b.check("iteration");
                }
            }
            if intact {
                ensure!(led.live() == 2 * m.len().saturating_sub(n), "{} objects alive after taking {n} of {}", led.live(), m.len());
            }
            sut("drop of the iterator", || drop(it))?;
        }
        2 => {
            ctx.input(|| "into_iter, collect".into());
            let all: Vec<(Tok, Tok)> = sut("into_iter", || t.into_iter().collect())?;
            if intact {
                ensure!(all.len() == m.len(), "{} of {} entries iterated", all.len(), m.len());
            }
            for (a, b) in &all {
                a.check("iteration");
                b.check("iteration");
            }
        }
        _ => {
            ctx.input(|| "moved into a set".into());
            let l3 = led.clone();
            let mut s = SplaySet::new(move |a: &Tok, b: &Tok| {
                a.check("the set's comparator");
                b.check("the set's comparator");
                let _ = &l3;
                rank(cmp, a.v).cmp(&rank(cmp, b.v))
            });
            sut("set extend", || s.extend(t.into_iter().map(|q| q.0)))?;
            let live = led.live();
            if intact {
                ensure!(live == m.len() && s.len() == m.len(), "set of {}, {live} alive, from {} entries", s.len(), m.len());
            }
            let n = rng.usize(live + 1);
            let mut it = s.into_iter();
            for _ in 0..n {
                it.next();
            }
            drop(it);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

/// The same operations on a map or a set.
trait Ops {
    fn put(&mut self, k: i64);
    fn op(&mut self, o: u64, k: i64);
}
impl<C: Fn(&i64, &i64) -> Ordering> Ops for SplayTree<i64, (), C> {
    fn put(&mut self, k: i64) {
        self.insert(k, ());
    }
    fn op(&mut self, o: u64, k: i64) {
        match o {
            0 => {
                self.get(&k);
            }
            1 => {
                self.contains(&k);
            }
            2 => {
                self.next(&k);
            }
            3 => {
                self.prev(&k);
            }
            4 => {
                self.find_key(&k);
            }
            5 => {
                self.get_mut(&k);
            }
            6 => {
                self.remove(&k);
            }
            7 => {
                self.insert(k, ());
            }
            8 => {
                // what a sweep does with a neighbourhood
                self.remove(&k);
                self.prev(&k);
                self.next(&k);
                self.insert(k, ());
            }
            _ => {
                if self.get(&k).is_some() {
                    let _ = self[&k];
                    self[&k] = ();
                }
            }
        }
    }
}
impl<C: Fn(&i64, &i64) -> Ordering> Ops for SplaySet<i64, C> {
    fn put(&mut self, k: i64) {
        self.insert(k);
    }
    fn op(&mut self, o: u64, k: i64) {
        match o {
            0 | 5 => {
                self.find(&k);
            }
            1 => {
                self.contains(&k);
            }
            2 => {
                self.next(&k);
            }
            3 => {
                self.prev(&k);
            }
            6 => {
                self.remove(&k);
            }
            7 => {
                self.insert(k);
            }
            8 => {
                self.remove(&k);
                self.prev(&k);
                self.next(&k);
                self.insert(k);
            }
            _ => self.extend(Some(k)),
        }
    }
}

pub fn c15(ctx: &mut Ctx, rng: &mut Rng, _case: u64) -> Verdict {
    let n: i64 = *rng.pick(&[64i64, 300, 1000, 4000, 16000]);
    let n = if ctx.thorough && rng.chance(1, 4) { n * 8 } else { n };
    let build = rng.below(4);
    let mode = rng.below(10);
    // a mixture of all operations, or a single one throughout
    let kind = if rng.chance(1, 3) { 0 } else { 1 + rng.below(10) };
    let set = rng.chance(1, 4);
    // stored keys are even; operations may ask for absent, odd ones
    let odd = if rng.chance(1, 3) { rng.below(3) as i64 } else { 0 };
    let m = (2 * n).max(4000);
    let x = rng.range(1, n);
    let seed = rng.u64();
    for v in [n as u64, build, mode, kind, set as u64, odd as u64, x as u64, seed] {
        ctx.feed(v);
    }
    ctx.nontrivial = true;
    ctx.input(|| {
        format!(
            "{n} keys inserted into a {} (order {build}), then {m} operations (kind {kind}, pattern {mode}, absent keys {odd}, parameter {x}, rng {seed})",
            if set { "set" } else { "map" }
        )
    });
    let calls = Cell::new(0u64);
    let lim = Cell::new(u64::MAX);
    let cmp = |a: &i64, b: &i64| {
        calls.set(calls.get() + 1);
        if calls.get() > lim.get() {
            panic!("comparator called {} times", calls.get());
        }
        a.cmp(b)
    };
    let mut tree;
    let mut sset;
    let t: &mut dyn Ops = if set {
        sset = SplaySet::new(&cmp);
        &mut sset
    } else {
        tree = SplayTree::new(&cmp);
        &mut tree
    };
    let lg = (n as f64 + 2.0).log2();
    // amortised bound: initial potential n log n plus a constant times log n each
    let cap = |ops: i64| (n as f64 * lg * 2.0 + 6.0 * ops as f64 * (lg + 1.0)) as u64;
    lim.set(cap(n));
    sut("building", || {
        for i in 0..n {
            t.put(2 * match build {
                0 => i,
                1 => n - 1 - i,
                2 => (i * 7919) % n,
                _ => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 },
            });
        }
    })
    .map_err(|e| format!("inserting {n} keys: {e}, bound {}", cap(n)))?;
    ctx.max("max_build_comparisons_per_op_log_x100", (calls.get() as f64 / (n as f64 * lg) * 100.0) as u64);
    calls.set(0);
    // the mixture and the neighbourhood step make several calls at once
    let mw = if kind == 0 || kind == 9 { 4 * m } else { m };
    lim.set(cap(mw));
    let mut r = Rng::new(seed);
    sut("operations", || {
        for i in 0..m {
            let k = match mode {
                0 => i % n,
                1 => n - 1 - i % n,
                2 => r.range(0, n - 1),
                3 => (i * x) % n,
                4 => if i % 2 == 0 { (i / 2) % n } else { n - 1 - (i / 2) % n },
                5 => ((i as u64).reverse_bits() >> 40) as i64 % n,
                6 => x + r.range(-3, 3),
                7 => *r.pick(&[0, n - 1, x]),
                8 => *[0, n - 1, 1, n - 2].iter().nth(seed as usize % 4).unwrap(),
                _ => (i / 16) % n,
            };
            let k = match odd {
                0 => 2 * k,
                1 => 2 * k + 1,
                _ => 2 * k + r.range(-1, 1),
            };
            t.op(if kind == 0 { r.below(10) } else { kind - 1 }, k);
        }
    })
    .map_err(|e| format!("{m} operations on {n} keys: {e}, bound {}", cap(mw)))?;
    ctx.add("ops_observed", (n + m) as u64);
    ctx.add("comparisons_observed", calls.get());
    ctx.add(if kind == 0 { "cases_mixed_operations" } else { "cases_single_operation" }, 1);
    ctx.add(if odd == 0 { "cases_present_keys" } else { "cases_absent_keys" }, 1);
    ctx.add(if set { "cases_set" } else { "cases_map" }, 1);
    ctx.max("max_comparisons_per_op_log_x100", (calls.get() as f64 / (mw as f64 * lg) * 100.0) as u64);
    Ok(())
}
