//! C17 workloads: every public operation on hostile input. The verdict is the
//! sanitizer's (or the interpreter's), so panics and wrong answers are
//! tolerated here: only memory errors, crashes and undefined behaviour count.
use crate::ctx::*;
use crate::rng::Rng;
use crate::wf::{self, W};
use float_next_after::NextAfter;
use geo::{Coordinate, GeoFloat, Line, LineString, MultiPolygon, Polygon};
use geo_crossings::bops::OpType;
use geo_crossings::monotone::MonoPoly;
use geo_crossings::{
    monotone_chains, BooleanOp, Crossable, CrossingsIter, Intersections, LineOrPoint, MonotoneSweep, SplaySet, SplayTree,
};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::iter::FromIterator;
use std::rc::Rc;
use std::sync::Arc;

trait Ms: GeoFloat + NextAfter<Self> {
    fn of(v: f64) -> Self;
    fn up(self) -> Self;
}
impl Ms for W {
    fn of(v: f64) -> W {
        W(v)
    }
    fn up(self) -> W {
        W(NextAfter::next_after(self.0, f64::INFINITY))
    }
}
impl Ms for f32 {
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn up(self) -> f32 {
        NextAfter::next_after(self, f32::INFINITY)
    }
}
impl Ms for f64 {
    fn of(v: f64) -> f64 {
        v
    }
    fn up(self) -> f64 {
        NextAfter::next_after(self, f64::INFINITY)
    }
}

/// A crossable owning heap memory: stale or doubly dropped segments show.
#[derive(Debug)]
struct Own<T: GeoFloat> {
    line: Line<T>,
    name: Box<str>,
    more: Rc<Vec<u8>>,
}
impl<T: GeoFloat> Clone for Own<T> {
    fn clone(&self) -> Self {
        // wild input may send the sweep round in circles
        wf::spend();
        Own { line: self.line, name: self.name.clone(), more: self.more.clone() }
    }
}
impl<T: GeoFloat> Crossable for Own<T> {
    type Scalar = T;
    fn line(&self) -> Line<T> {
        self.line
    }
}

/// How wild the coordinates are.
#[derive(Copy, Clone)]
enum Wild {
    Lattice(i64),
    Smooth,
    Ulp,
    Mixed,
}
fn coord(rng: &mut Rng, w: Wild) -> f64 {
    match w {
        Wild::Lattice(k) => rng.range(-k, k) as f64,
        Wild::Smooth => rng.f64() * 10. - 5.,
        Wild::Ulp => {
            let mut v = rng.range(-2, 2) as f64;
            for _ in 0..rng.usize(3) {
                v = NextAfter::next_after(v, if rng.chance(1, 2) { 9e9 } else { -9e9 });
            }
            v
        }
        Wild::Mixed => match rng.below(24) {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => f64::NEG_INFINITY,
            3 => 1e308,
            4 => -1e308,
            5 => 5e-324,
            6 => -0.0,
            7 => 1e-200,
            8 => rng.f64() * 1e16,
            _ => rng.range(-3, 3) as f64,
        },
    }
}
fn wild(rng: &mut Rng) -> Wild {
    match rng.below(9) {
        0 | 1 => Wild::Lattice(2),
        2 | 3 => Wild::Lattice(5),
        4 => Wild::Lattice(20),
        5 | 6 => Wild::Smooth,
        7 => Wild::Ulp,
        _ => Wild::Mixed,
    }
}
fn c<T: Ms>(q: (f64, f64)) -> Coordinate<T> {
    Coordinate { x: T::of(q.0), y: T::of(q.1) }
}

#[cfg(not(miri))]
fn apart(f: impl FnOnce() -> u8) -> Option<u8> {
    extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn alarm(seconds: u32) -> u32;
        fn _exit(code: i32) -> !;
    }
    // SAFETY: this process has one thread; the child only runs `f` and leaves.
    unsafe {
        match fork() {
            0 => {
                alarm(6);
                _exit(f() as i32)
            }
            -1 => None,
            pid => {
                let mut st = 0;
                while waitpid(pid, &mut st, 0) == -1 {}
                match (st & 0x7f, st >> 8 & 0xff) {
                    (0, n) => Some(n as u8),
                    // alarm, or ended from outside
                    (14, _) | (9, _) => None,
                    // it has said why: go the same way
                    _ => std::process::abort(),
                }
            }
        }
    }
}
#[cfg(miri)]
fn apart(f: impl FnOnce() -> u8) -> Option<u8> {
    Some(f())
}

struct Env<'a> {
    ctx: &'a mut Ctx,
    small: bool,
}
impl Env<'_> {
    /// Run code under test; a panic is counted and ignored.
    fn run(&mut self, key: &'static str, f: impl FnOnce() -> u64) {
        self.ctx.add(key, 1);
        match sut("", f) {
            Ok(n) => self.ctx.add("items_observed", n),
            Err(e) => {
                self.ctx.add("runs_ending_in_a_panic", 1);
                if e.contains(wf::BUDGET) {
                    self.ctx.add("runs_stopped_by_the_step_budget", 1);
                }
                if std::env::var("PAN").is_ok() {
                    println!("PAN {key} {e}");
                }
            }
        }
    }
    /// Run code under test which may never end in a process of its own: what
    /// is looked for is a crash or a sanitizer's report. The code answers how
    /// many panics it caught.
    fn apart(&mut self, key: &'static str, f: impl FnOnce() -> u8) {
        self.ctx.add(key, 1);
        let left = wf::left();
        match apart(|| sut("", f).unwrap_or(0)) {
            Some(n) => self.ctx.add("steps_ended_by_the_callers_panic", n as u64),
            None => self.ctx.add("runs_apart_without_an_end", 1),
        }
        wf::reset(left);
    }
    fn n(&self, rng: &mut Rng, small: usize, big: usize) -> usize {
        let m = match self.small {
            true => small,
            false if rng.chance(1, 30) => big * 10,
            false => big,
        };
        1 + rng.usize(m)
    }
}

fn segs(env: &mut Env, rng: &mut Rng) -> Vec<((f64, f64), (f64, f64))> {
    let w = wild(rng);
    let n = env.n(rng, 7, 40);
    let mut v: Vec<((f64, f64), (f64, f64))> = vec![];
    for _ in 0..n {
        let a = (coord(rng, w), coord(rng, w));
        let b = match rng.below(10) {
            0 => a,
            1 if !v.is_empty() => rng.pick(&v).0,
            2 if !v.is_empty() => rng.pick(&v).1,
            _ => (coord(rng, w), coord(rng, w)),
        };
        v.push((a, b));
    }
    for s in &v {
        env.ctx.feed(s.0 .0.to_bits());
        env.ctx.feed(s.0 .1.to_bits());
        env.ctx.feed(s.1 .0.to_bits());
        env.ctx.feed(s.1 .1.to_bits());
    }
    env.ctx.input(|| format!("{v:?}"));
    v
}

fn own<T: Ms>(v: &[((f64, f64), (f64, f64))]) -> Vec<Own<T>> {
    v.iter()
        .enumerate()
        .map(|(i, s)| Own {
            line: Line { start: c(s.0), end: c(s.1) },
            name: format!("segment number {i}").into(),
            more: Rc::new(vec![i as u8; 9]),
        })
        .collect()
}

fn touch<C: Crossable + Clone>(xs: &[geo_crossings::Crossing<C>]) -> u64 {
    let mut s = 0;
    for x in xs {
        s += format!("{:?}", x.crossable).len() as u64 + x.first_segment as u64 + x.has_overlap as u64 + x.at_left as u64;
        s += x.line.is_line() as u64;
    }
    std::hint::black_box(s) & 1
}

fn sweeps<T: Ms>(env: &mut Env, rng: &mut Rng) {
    let v = segs(env, rng);
    let part = rng.chance(1, 3);
    let cap = if part { rng.usize(v.len() + 1) } else { 60 * v.len() * v.len() + 100 };
    let finite = v.iter().all(|s| [s.0 .0, s.0 .1, s.1 .0, s.1 .1].iter().all(|x| x.abs() < 1e20));
    let kind = if finite { rng.below(9) } else { *rng.pick(&[0, 1, 2, 7]) };
    env.ctx.input(|| format!("consumer {kind}, first {cap} items"));
    env.ctx.feed(kind);
    match kind {
        0 | 1 => env.run("sweep_owned_items", || {
            let mut it = CrossingsIter::<_>::from_iter(own::<T>(&v));
            let mut n = 0;
            for _ in 0..cap {
                if it.next().is_none() {
                    break;
                }
                n += 1 + (touch(it.intersections()) & 0);
                if kind == 1 {
                    let l = it.intersections_mut();
                    l.reverse();
                    if let Some(x) = l.first_mut() {
                        x.crossable = x.crossable.clone();
                        x.crossable.name = "replaced".into();
                    }
                }
            }
            if !part {
                it.next();
                it.next();
            }
            n
        }),
        2 => env.run("pairs_owned_items", || {
            let it = Intersections::<_>::from_iter(own::<T>(&v));
            it.take(cap).map(|(a, b, x)| std::hint::black_box(format!("{a:?}{b:?}{x:?}")).len() as u64 & 1 | 1).count() as u64
        }),
        3 => env.run("sweep_borrowed_items", || {
            let items = own::<T>(&v);
            let mut it = CrossingsIter::<_>::from_iter(items.iter());
            let mut n = 0;
            for _ in 0..cap {
                if it.next().is_none() {
                    break;
                }
                n += 1 + (touch(it.intersections()) & 0);
            }
            drop(it);
            n + items.len() as u64
        }),
        4 => env.run("sweep_shared_items", || {
            let items: Vec<Rc<Own<T>>> = own::<T>(&v).into_iter().map(Rc::new).collect();
            let mut it = CrossingsIter::<_>::from_iter(items.clone());
            let mut n = 0;
            for _ in 0..cap {
                if it.next().is_none() {
                    break;
                }
                n += 1 + (touch(it.intersections()) & 0);
            }
            drop(items);
            // outlives the caller's handles
            let _ = touch(it.intersections());
            it.next();
            n
        }),
        5 => env.run("pairs_arc_items", || {
            let items: Vec<Arc<Box<Own<T>>>> = own::<T>(&v).into_iter().map(|o| Arc::new(Box::new(o))).collect();
            let all: Vec<_> = Intersections::<_>::from_iter(items).take(cap).collect();
            all.iter().map(|x| x.0.name.len() as u64).sum()
        }),
        7 | 8 => {
            // the caller's code panics in the middle of steps (a clone, a
            // comparison), is caught, and the iterator is used on
            let seed = rng.u64();
            let cap = cap.min(2000);
            env.apart("sweep_used_on_after_a_panic", || {
                let mut r = Rng::new(seed);
                let mut it = CrossingsIter::<_>::from_iter(own::<T>(&v));
                let mut caught = 0;
                for _ in 0..cap {
                    wf::reset(if r.chance(1, 4) { r.below(40) } else { 20_000 });
                    let step = sut("", || it.next().is_some());
                    wf::reset(20_000);
                    let _ = sut("", || touch(it.intersections()));
                    match step {
                        Ok(true) => (),
                        Ok(false) => break,
                        Err(_) => {
                            caught += 1;
                            if caught > 12 {
                                break;
                            }
                        }
                    }
                }
                wf::reset(u64::MAX);
                caught
            });
        }
        _ => env.run("sweep_moved_iterator", || {
            // the iterator is moved between steps
            let mut it = CrossingsIter::<_>::from_iter(own::<T>(&v));
            let mut n = 0;
            for i in 0..cap {
                let mut b = Box::new(it);
                let r = b.next();
                n += touch(b.intersections()) & 0;
                it = *b;
                if r.is_none() {
                    break;
                }
                n += 1;
                if i % 3 == 0 {
                    let mut h = vec![it];
                    it = h.pop().unwrap();
                }
            }
            n
        }),
    }
}

fn ring(env: &mut Env, rng: &mut Rng, w: Wild, off: f64) -> Vec<(f64, f64)> {
    let n = env.n(rng, 6, 14);
    match rng.below(4) {
        0 => (0..n).map(|_| (coord(rng, w) + off, coord(rng, w) + off)).collect(),
        1 => {
            // box
            let (x, y, a, b) = (coord(rng, w), coord(rng, w), coord(rng, w).abs(), coord(rng, w).abs());
            let a = a + 1.;
            let b = b + 1.;
            vec![(x, y), (x + a, y), (x + a, y + b), (x, y + b)]
        }
        2 => {
            // star-shaped
            let n = n.max(3);
            (0..n)
                .map(|i| {
                    let t = i as f64 / n as f64 * 6.28;
                    let r = 1. + rng.f64() * 6.;
                    ((r * t.cos()).round() + off, (r * t.sin() * 4.).round() / 4. + off)
                })
                .collect()
        }
        _ => {
            // x-monotone
            let k = n as i64 + 1;
            let mut v: Vec<(f64, f64)> = (0..=k).map(|i| (i as f64, rng.range(0, 4) as f64 + off)).collect();
            v.extend((1..k).rev().map(|i| (i as f64, -rng.range(1, 5) as f64 + off)));
            v
        }
    }
}
fn poly<T: Ms>(env: &mut Env, rng: &mut Rng, log: &mut String) -> Polygon<T> {
    let w = wild(rng);
    let mut rings = vec![];
    let m = if rng.chance(1, 3) { rng.usize(3) } else { 0 };
    for _ in 0..=m {
        let off = if rng.chance(1, 3) { rng.range(-4, 4) as f64 } else { 0. };
        let mut r = ring(env, rng, w, off);
        if rng.chance(1, 2) {
            r.reverse();
        }
        for q in &r {
            env.ctx.feed(q.0.to_bits());
            env.ctx.feed(q.1.to_bits());
        }
        if env.ctx.record {
            log.push_str(&format!("{r:?} "));
        }
        rings.push(LineString(r.into_iter().map(c::<T>).collect()));
    }
    let ext = rings.remove(0);
    Polygon::new(ext, rings)
}

fn bools<T: Ms>(env: &mut Env, rng: &mut Rng) {
    let mut log = String::new();
    let mut mk = |env: &mut Env, rng: &mut Rng| {
        let k = *rng.pick(&[0usize, 1, 1, 1, 2]);
        let mut v = vec![];
        for _ in 0..k {
            v.push(poly::<T>(env, rng, &mut log));
        }
        log.push_str(" / ");
        MultiPolygon(v)
    };
    let a = mk(env, rng);
    let b = if rng.chance(1, 6) { a.clone() } else { mk(env, rng) };
    let op = [OpType::Intersection, OpType::Union, OpType::Xor, OpType::Difference][rng.usize(4)];
    env.ctx.input(|| format!("{op:?} {log}"));
    if a.0.len() == 1 && b.0.len() == 1 {
        env.run("boolean_polygons", || a.0[0].boolean_op(&b.0[0], op).0.len() as u64);
    } else {
        env.run("boolean_multi_polygons", || {
            let o = a.boolean_op(&b, op);
            let n = o.0.len() as u64;
            let again = o.union(&b);
            n + again.0.len() as u64
        });
    }
}

fn mono<T: Ms>(env: &mut Env, rng: &mut Rng) {
    let mut log = String::new();
    let p = poly::<T>(env, rng, &mut log);
    let k = rng.below(5);
    let stop = rng.usize(12);
    env.ctx.input(|| format!("monotone, consumer {k}, stop {stop}: {log}"));
    env.ctx.feed(k);
    match k {
        0 => env.run("monotone_sweep_part", || {
            let mut s = Box::pin(MonotoneSweep::from_polygon(&p));
            let mut n = 0;
            for _ in 0..stop {
                match s.next() {
                    Some(e) => n += std::hint::black_box(format!("{e:?}")).len() as u64 & 0 | 1,
                    None => break,
                }
            }
            // the handle moves, the pinned sweep does not
            let mut t = vec![s];
            let mut s = t.pop().unwrap();
            n + s.by_ref().take(100 * stop).count() as u64
        }),
        2 => {
            let seed = rng.u64();
            env.apart("monotone_sweep_used_on_after_a_panic", || {
                let mut r = Rng::new(seed);
                let mut s = Box::pin(MonotoneSweep::from_polygon(&p));
                let mut caught = 0;
                for _ in 0..2000 {
                    wf::reset(if r.chance(1, 4) { r.below(40) } else { 20_000 });
                    match sut("", || s.next().map(|e| std::hint::black_box(format!("{e:?}").len()))) {
                        Ok(Some(_)) => (),
                        Ok(None) => break,
                        Err(_) => {
                            caught += 1;
                            if caught > 12 {
                                break;
                            }
                        }
                    }
                }
                wf::reset(u64::MAX);
                caught
            });
        }
        1 => env.run("monotone_sweep_all", || Box::pin(MonotoneSweep::from_polygon(&p)).take(10_000).count() as u64),
        _ => {
            let (lo, hi) = (coord(rng, Wild::Smooth), coord(rng, Wild::Mixed));
            let h = rng.usize(6);
            let steps = 1 + rng.usize(6);
            env.run("monotone_pieces_scanned", || {
                let ms = monotone_chains(&p);
                let mut n = 0;
                for m in &ms {
                    n += scan::<T>(m, lo, hi, h, steps);
                }
                for m in ms {
                    n += m.into_polygon().exterior().0.len() as u64;
                }
                n
            });
        }
    }
}

fn scan<T: Ms>(m: &MonoPoly<T>, lo: f64, hi: f64, h: usize, steps: usize) -> u64 {
    let mut n = 0;
    let x0 = m.top().0[0].x;
    let x1 = m.top().0[m.top().0.len() - 1].x;
    let at = |i: usize| x0 + (x1 - x0) * T::of(i as f64 / steps as f64);
    for mode in 0..5 {
        let r = sut("", || {
            let mut s = m.scan_lines(T::of(lo));
            let mut k = 0u64;
            for i in 0..=steps + 1 {
                let u = if mode == 3 { T::of(hi) } else { at(i) };
                match mode {
                    0 => k += s.advance_to(u).take(1000).count() as u64,
                    1 => {
                        // abandoned iterator
                        let mut it = s.advance_to(u);
                        it.next();
                        drop(it);
                        k += s.advance_to(u.up()).take(1000).count() as u64;
                    }
                    2 => s.advance_upto(u, |t| k += (t.area() > T::of(0.)) as u64),
                    3 => {
                        k += s.cross_ubounds(u, T::of(lo), T::of(hi), h).0 as u64;
                        k += s.cross_bounds(u, T::of(lo), T::of(hi), h).is_some() as u64;
                    }
                    _ => {
                        let mut a = vec![T::of(0.); h];
                        s.cross_area(u, T::of(lo), T::of(hi), &mut a);
                        k += a.len() as u64;
                    }
                }
            }
            k
        });
        n += r.unwrap_or(0);
    }
    n
}

struct Fuse(Cell<u64>);

fn splay(env: &mut Env, rng: &mut Rng) {
    // comparators: consistent, panicking, and plain wrong
    let mode = rng.below(4);
    let fuse = Rc::new(Fuse(Cell::new(u64::MAX)));
    let noise = RefCell::new(rng.clone());
    let f2 = fuse.clone();
    let cmp = move |a: &String, b: &String| -> Ordering {
        if f2.0.get() == 0 {
            f2.0.set(u64::MAX);
            panic!("injected");
        }
        f2.0.set(f2.0.get() - 1);
        match mode {
            0 | 1 => a.cmp(b),
            2 => [Ordering::Less, Ordering::Equal, Ordering::Greater][noise.borrow_mut().usize(3)],
            _ => Ordering::Less.then(a.len().cmp(&b.len())),
        }
    };
    let mut t: SplayTree<String, Vec<u32>, _> = SplayTree::new(cmp);
    let n = env.n(rng, 60, 300);
    let k = *rng.pick(&[4i64, 20, 200]);
    let mut log = String::new();
    env.ctx.feed(mode);
    let mut got = 0;
    for _ in 0..n {
        let v = rng.range(0, k);
        let op = rng.below(12);
        env.ctx.feed((v as u64) << 8 | op);
        if env.ctx.record {
            log.push_str(&format!("{op}({v}) "));
        }
        fuse.0.set(if mode == 1 && rng.chance(1, 12) { rng.below(6) } else { u64::MAX });
        let key = format!("the key {v:04}");
        let o = rng.range(0, k);
        let other = format!("the key {o:04}");
        let r = sut("", || match op {
            0..=3 => t.insert(key, vec![v as u32; 5]).map_or(0, |o| o.len()),
            4 | 5 => t.remove(&key).map_or(0, |o| o.len()),
            6 => match t.get_mut(&key) {
                Some(x) => {
                    x.push(7);
                    x.len()
                }
                None => 0,
            },
            7 => {
                // references held over later queries (which restructure)
                let a = t.get(&key);
                let b = t.find_key(&other);
                let c = t.next(&other);
                let d = t.prev(&key);
                let (e, f) = (t.min(), t.max());
                t.contains(&other);
                t.get(&other);
                a.map_or(0, |x| x.len())
                    + b.map_or(0, |x| x.len())
                    + c.map_or(0, |x| x.0.len() + x.1.len())
                    + d.map_or(0, |x| x.0.len() + x.1.len())
                    + e.map_or(0, |x| x.len())
                    + f.map_or(0, |x| x.len())
            }
            8 => t.next(&key).map_or(0, |x| x.1.len()),
            9 => t.prev(&key).map_or(0, |x| x.0.len()),
            10 => {
                t.extend(vec![(key, vec![1]), (other, vec![2, 3])]);
                0
            }
            _ => {
                if v == 0 {
                    t.clear();
                }
                format!("{t:?}").len()
            }
        });
        env.ctx.add("splay_operations", 1);
        match r {
            Ok(x) => got += x as u64,
            Err(_) => env.ctx.add("splay_operations_ending_in_a_panic", 1),
        }
    }
    fuse.0.set(u64::MAX);
    env.ctx.add("items_observed", got & 0xff);
    let stop = rng.usize(n);
    let way = rng.below(4);
    env.ctx.input(|| format!("splay comparator mode {mode}: {log}; then {way} after {stop}"));
    env.run("splay_consumed", || {
        let mut s = 0;
        match way {
            0 => drop(t),
            1 => {
                let mut it = t.into_iter();
                for i in 0..stop {
                    let e = if i % 3 == 1 { it.next_back() } else { it.next() };
                    s += e.map_or(0, |x| x.0.len() + x.1.len()) as u64;
                }
            }
            2 => {
                let all: Vec<_> = t.into_iter().rev().collect();
                s += all.iter().map(|x| x.1.len() as u64).sum::<u64>();
            }
            _ => {
                let mut u = SplaySet::new(|a: &String, b: &String| b.cmp(a));
                u.extend(t.into_iter().map(|x| x.0));
                s += u.min().map_or(0, |x| x.len() as u64);
                let mut it = u.into_iter();
                it.next();
                it.next_back();
            }
        }
        s
    });
}

fn lops<T: Ms>(env: &mut Env, rng: &mut Rng) {
    let v = segs(env, rng);
    env.run("line_or_point", || {
        let l: Vec<LineOrPoint<T>> =
            v.iter().map(|s| LineOrPoint::from(Line { start: c::<T>(s.0), end: c::<T>(s.1) })).collect();
        let mut n = 0;
        for a in &l {
            for b in &l {
                n += sut("", || {
                    (a.partial_cmp(b).is_some()) as u64 + (a == b) as u64 + a.intersect_line(b).is_some() as u64
                        + a.intersect_line_ordered(b).is_some() as u64
                })
                .unwrap_or(0);
            }
        }
        n
    });
}

/// Does a type claim to be safe to share (or to send) between threads? The
/// inherent method applies only where the bound holds, the trait's everywhere.
struct Claims<T>(std::marker::PhantomData<T>);
trait NoClaim {
    fn sync(&self) -> bool {
        false
    }
    fn send(&self) -> bool {
        false
    }
}
impl<T> NoClaim for &Claims<T> {}
impl<T: Sync> Claims<T> {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: Send> Claims<T> {
    fn send(&self) -> bool {
        true
    }
}
macro_rules! sync {
    ($t:ty) => {
        (&Claims::<$t>(std::marker::PhantomData)).sync()
    };
}
macro_rules! send {
    ($t:ty) => {
        (&Claims::<$t>(std::marker::PhantomData)).send()
    };
}
/// Carries what the type system would not let through (used only where the
/// probe above says that it would).
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
unsafe impl<T> Sync for Carry<T> {}
impl<T> Carry<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

/// What safe code may do from several threads, it must be able to do without
/// a data race. Nothing here is shareable today, so only the claims are
/// observed; a type which becomes shareable gets exercised as such.
fn threads(env: &mut Env, rng: &mut Rng) -> Verdict {
    type Cmp = fn(&u32, &u32) -> Ordering;
    type Tree = SplayTree<u32, u32, Cmp>;
    type Set = SplaySet<u32, Cmp>;
    type TreeRc = SplayTree<Rc<u32>, Rc<u32>, fn(&Rc<u32>, &Rc<u32>) -> Ordering>;
    // the probe itself must tell the two apart
    if !sync!(u32) || !send!(Vec<u32>) || sync!(Cell<u32>) || send!(Rc<u32>) {
        return Err("probe: the thread-safety probe does not work".to_string());
    }
    env.ctx.add("thread_safety_claims_observed", 8);
    let n = if env.small { 4 + rng.below(12) as u32 } else { 16 + rng.below(400) as u32 };
    let rounds = if env.small { 8 } else { 400 };
    let mut shared = 0;
    let cmp: Cmp = |a, b| a.cmp(b);
    if sync!(Tree) {
        shared += 1;
        let mut t: Tree = SplayTree::new(cmp);
        t.extend((0..n).map(|i| (i, i * 3)));
        let c = Carry(t);
        let lost: u32 = std::thread::scope(|s| {
            let hs: Vec<_> = (0..3u32)
                .map(|k| {
                    let c = &c;
                    s.spawn(move || {
                        let t = c.get();
                        (0..rounds)
                            .filter(|i| {
                                let q = (i * 7 + k * 5) % n;
                                !(t.contains(&q)
                                    && t.get(&q) == Some(&(q * 3))
                                    && t.next(&q).map(|x| *x.0) == Some(q + 1).filter(|x| *x < n)
                                    && t.prev(&q).map(|x| *x.0) == q.checked_sub(1)
                                    && t.min() == Some(&0))
                            })
                            .count() as u32
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(1)).sum()
        });
        let left = c.take().into_iter().count() as u32;
        if lost != 0 || left != n {
            return Err(format!("shared-tree: SplayTree is Sync, but 3 threads querying {n} keys saw {lost} wrong answers and left {left} keys"));
        }
    }
    if sync!(Set) {
        shared += 1;
        let mut t: Set = SplaySet::new(cmp);
        t.extend(0..n);
        let c = Carry(t);
        let lost: u32 = std::thread::scope(|s| {
            let hs: Vec<_> = (0..3u32)
                .map(|k| {
                    let c = &c;
                    s.spawn(move || {
                        let t = c.get();
                        (0..rounds)
                            .filter(|i| {
                                let q = (i * 7 + k * 5) % n;
                                !(t.contains(&q) && t.next(&q).copied() == Some(q + 1).filter(|x| *x < n) && t.prev(&q).copied() == q.checked_sub(1))
                            })
                            .count() as u32
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(1)).sum()
        });
        let left = c.take().into_iter().count() as u32;
        if lost != 0 || left != n {
            return Err(format!("shared-set: SplaySet is Sync, but 3 threads querying {n} keys saw {lost} wrong answers and left {left} keys"));
        }
    }
    // Things which own reference counts must stay with them.
    let one = Rc::new(7u32);
    fn hammer<T>(what: Carry<T>, one: &Rc<u32>, n: u32) {
        std::thread::scope(|s| {
            s.spawn(move || drop(what.take()));
            for _ in 0..n {
                let a = one.clone();
                drop(a);
            }
        });
    }
    let key: fn(&Rc<u32>, &Rc<u32>) -> Ordering = |a, b| Rc::as_ptr(a).cmp(&Rc::as_ptr(b));
    if send!(TreeRc) || send!(<TreeRc as IntoIterator>::IntoIter) {
        shared += 1;
        let mut t: TreeRc = SplayTree::new(key);
        let keep: Vec<Rc<u32>> = (0..n).map(Rc::new).collect();
        t.extend(keep.iter().map(|k| (k.clone(), one.clone())));
        if send!(TreeRc) {
            hammer(Carry(t), &one, rounds);
        } else {
            hammer(Carry(t.into_iter()), &one, rounds);
        }
    }
    #[derive(Clone, Debug)]
    struct Counted(Line<f64>, Rc<u32>);
    impl Crossable for Counted {
        type Scalar = f64;
        fn line(&self) -> Line<f64> {
            self.0
        }
    }
    if send!(CrossingsIter<Counted>) || send!(Intersections<Counted>) {
        shared += 1;
        let l = |i: f64| Line { start: Coordinate { x: 0., y: i }, end: Coordinate { x: 9., y: 5. - i } };
        let v: Vec<Counted> = (0..5).map(|i| Counted(l(i as f64), one.clone())).collect();
        if send!(CrossingsIter<Counted>) {
            hammer(Carry(CrossingsIter::from_iter(v)), &one, rounds);
        } else {
            hammer(Carry(Intersections::from_iter(v)), &one, rounds);
        }
    }
    if shared > 0 {
        env.ctx.add("types_shared_between_threads", shared);
        if Rc::strong_count(&one) != 1 {
            return Err(format!("sent-counts: reference count {} instead of 1 after sending", Rc::strong_count(&one)));
        }
    }
    Ok(())
}

pub fn c17(ctx: &mut Ctx, rng: &mut Rng, c: u64) -> Verdict {
    let small = ctx.small;
    let kind = rng.below(18);
    ctx.feed(kind);
    wf::reset(if small { 60_000 } else { 3_000_000 });
    if kind == 17 && !small {
        // computations nested, abandoned, ended by panics, on threads; what
        // they answer is judged elsewhere
        let _ = crate::iso::c19(ctx, rng, c / 4);
        ctx.add("runs_of_interleaved_computations", 1);
        ctx.nontrivial = true;
        return Ok(());
    }
    let mut env = Env { ctx, small };
    match kind {
        0..=3 => sweeps::<W>(&mut env, rng),
        4 => sweeps::<f32>(&mut env, rng),
        5..=7 => bools::<W>(&mut env, rng),
        8 => bools::<f32>(&mut env, rng),
        9..=10 => mono::<W>(&mut env, rng),
        11 => mono::<f64>(&mut env, rng),
        12..=14 => splay(&mut env, rng),
        15 => threads(&mut env, rng)?,
        _ => lops::<W>(&mut env, rng),
    }
    wf::reset(u64::MAX);
    ctx.nontrivial = true;
    Ok(())
}
