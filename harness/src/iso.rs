//! C19: every computation depends on its own input alone. Several tasks are
//! run alone, again, nested in each other's pauses, in lock step, inside user
//! callbacks of one another, on several threads at once, and after others were
//! abandoned or ended by a panic in user code: the observations must not move.
use crate::bops;
use crate::ctx::*;
use crate::ensure;
use crate::mono;
use crate::rng::Rng;
use crate::segs::{self, Tag};
use geo::bounding_rect::BoundingRect;
use geo::{Line, MultiPolygon, Polygon};
use geo_crossings::bops::OpType;
use geo_crossings::monotone::MonoPoly;
use geo_crossings::{monotone_chains, BooleanOp, Crossable, CrossingsIter, Intersections, MonotoneSweep, SplaySet, SplayTree};
use std::cell::{Cell, RefCell};
use std::iter::FromIterator;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Barrier};

#[derive(Clone)]
enum Task {
    Sweep(Vec<Tag<f64>>),
    Sweep32(Vec<Tag<f32>>),
    Pairs(Vec<Tag<f64>>),
    Op(MultiPolygon<f64>, MultiPolygon<f64>, OpType),
    Chains(Polygon<f64>),
    MonoSweep(Polygon<f64>),
    Scan(Vec<(f64, f64)>, Vec<(f64, f64)>, Vec<f64>, usize),
    Map(Vec<(u8, i64)>, i64),
    Set(Vec<(u8, i64)>, i64),
}
impl Task {
    fn name(&self) -> &'static str {
        match self {
            Task::Sweep(_) => "CrossingsIter",
            Task::Sweep32(_) => "CrossingsIter in f32",
            Task::Pairs(_) => "Intersections",
            Task::Op(..) => "boolean_op",
            Task::Chains(_) => "monotone_chains",
            Task::MonoSweep(_) => "MonotoneSweep",
            Task::Scan(..) => "Scanner",
            Task::Map(..) => "SplayTree",
            Task::Set(..) => "SplaySet",
        }
    }
}

/// Running digest of what was observed, and how often.
struct Log(Vec<u64>);
fn mix(h: u64, v: u64) -> u64 {
    let mut z = h ^ v.wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 32)
}
fn text(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

thread_local! {
    /// What the user callbacks (lines, comparators) of this thread do.
    static HOOK: RefCell<Option<Box<dyn FnMut()>>> = RefCell::new(None);
    static IN_HOOK: Cell<bool> = Cell::new(false);
}
fn hook() {
    if IN_HOOK.with(|h| h.get()) {
        return;
    }
    let f = HOOK.with(|h| h.borrow_mut().take());
    if let Some(mut f) = f {
        IN_HOOK.with(|h| h.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        IN_HOOK.with(|h| h.set(false));
        match r {
            Ok(()) => HOOK.with(|h| *h.borrow_mut() = Some(f)),
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}

/// A crossable which calls back.
#[derive(Clone, Debug)]
struct H<T: geo::GeoFloat>(Tag<T>);
impl<T: geo::GeoFloat> Crossable for H<T> {
    type Scalar = T;
    fn line(&self) -> Line<T> {
        hook();
        self.0.l
    }
}

fn sweep<T: segs::Sc>(tags: &[Tag<T>], obs: &mut dyn FnMut(u64)) {
    let mut it = CrossingsIter::from_iter(tags.iter().map(|t| H(*t)));
    while let Some(pt) = it.next() {
        let mut h = mix(pt.x.to().to_bits(), pt.y.to().to_bits());
        for c in it.intersections() {
            let l = c.line.line();
            for v in [l.start.x, l.start.y, l.end.x, l.end.y] {
                h = mix(h, v.to().to_bits());
            }
            h = mix(h, c.crossable.0.id as u64 * 16 + c.first_segment as u64 * 4 + c.has_overlap as u64 * 2 + c.at_left as u64);
        }
        obs(h);
    }
}

/// Run the task; `obs` is called with every observation, while the task is
/// half-way through.
fn run(t: &Task, obs: &mut dyn FnMut(u64)) {
    let ls = |v: &[(f64, f64)]| geo::LineString(v.iter().map(|&(x, y)| geo::Coordinate { x, y }).collect());
    match t {
        Task::Sweep(v) => sweep(v, obs),
        Task::Sweep32(v) => sweep(v, obs),
        Task::Pairs(v) => {
            for (a, b, x) in Intersections::from_iter(v.iter().map(|t| H(*t))) {
                obs(text(&format!("{} {} {x:?}", a.0.id, b.0.id)));
            }
        }
        Task::Op(a, b, op) => {
            let r = a.boolean_op(b, *op);
            for q in &r.0 {
                obs(text(&format!("{} {:?}", q.interiors().len(), q.exterior())));
                for h in q.interiors() {
                    obs(text(&format!("{h:?}")));
                }
            }
        }
        Task::Chains(q) => {
            for m in monotone_chains(q) {
                obs(text(&format!("{:?} {:?} {:?}", m.top(), m.bot(), m.bounding_rect())));
            }
        }
        Task::MonoSweep(q) => {
            let mut it = Box::pin(MonotoneSweep::from_polygon(q));
            while let Some(e) = it.next() {
                obs(text(&format!("{e:?}")));
            }
        }
        Task::Scan(top, bot, xs, rows) => {
            let m = MonoPoly::new(ls(top), ls(bot));
            let (lo, hi) = (bot.iter().map(|q| q.1).fold(f64::MAX, f64::min), top.iter().map(|q| q.1).fold(f64::MIN, f64::max));
            let hi = if hi > lo { hi } else { lo + 1. };
            let mut sc = m.scan_lines(top[0].0);
            let mut area = vec![0.; *rows];
            for (k, x) in xs.iter().enumerate() {
                let s = match k % 4 {
                    0 => {
                        sc.cross_area(*x, lo, hi, &mut area);
                        format!("{area:?}")
                    }
                    1 => {
                        let mut s = String::new();
                        for z in sc.advance_to(*x) {
                            obs(text(&format!("{z:?}")));
                            s = format!("{z:?}");
                        }
                        s
                    }
                    2 => format!("{:?}", sc.cross_bounds(*x, lo, hi, *rows)),
                    _ => format!("{:?}", sc.cross_ubounds(*x, lo, hi, *rows)),
                };
                obs(text(&format!("{s} {:?}", sc.curr())));
            }
        }
        Task::Map(ops, m) => {
            let m = *m;
            let mut t = SplayTree::new(move |a: &i64, b: &i64| {
                hook();
                (a % m).cmp(&(b % m))
            });
            for (i, &(o, k)) in ops.iter().enumerate() {
                let s = match o {
                    0..=2 => format!("{:?}", t.insert(k, i as i64)),
                    3 => format!("{:?}", t.remove(&k)),
                    4 => format!("{:?}", t.get(&k)),
                    5 => format!("{:?}", t.next(&k)),
                    6 => format!("{:?}", t.prev(&k)),
                    7 => format!("{:?} {:?} {}", t.min(), t.max(), t.len()),
                    _ => format!("{:?}", t.find_key(&k)),
                };
                obs(text(&s));
            }
            for kv in t {
                obs(text(&format!("{kv:?}")));
            }
        }
        Task::Set(ops, m) => {
            let m = *m;
            let mut t = SplaySet::new(move |a: &i64, b: &i64| {
                hook();
                (b % m).cmp(&(a % m))
            });
            for &(o, k) in ops {
                let s = match o {
                    0..=2 => format!("{:?}", t.insert(k)),
                    3 => format!("{:?}", t.remove(&k)),
                    4 => format!("{:?}", t.contains(&k)),
                    5 => format!("{:?}", t.next(&k)),
                    6 => format!("{:?}", t.prev(&k)),
                    7 => format!("{:?} {:?} {}", t.min(), t.max(), t.len()),
                    _ => format!("{:?}", t.find(&k)),
                };
                obs(text(&s));
            }
            for k in t {
                obs(text(&format!("{k:?}")));
            }
        }
    }
}

fn alone(t: &Task) -> Log {
    let mut v = vec![];
    run(t, &mut |h| v.push(h));
    Log(v)
}
fn same(t: &Task, how: &str, base: &Log, got: &Log) -> Verdict {
    if base.0 == got.0 {
        return Ok(());
    }
    let k = base.0.iter().zip(&got.0).take_while(|(a, b)| a == b).count();
    Err(format!("{}, {how}: observation {k} differs from the first run's ({} observations, then {})", t.name(), base.0.len(), got.0.len()))
}

fn ops(rng: &mut Rng) -> Vec<(u8, i64)> {
    let n = 5 + rng.usize(120);
    let m = *rng.pick(&[4i64, 30, 1000]);
    (0..n).map(|_| (rng.below(9) as u8, rng.range(0, m))).collect()
}

fn gen(ctx: &mut Ctx, rng: &mut Rng) -> Task {
    match rng.below(12) {
        0 | 1 => {
            let c = segs::gen(rng, false);
            ctx.input(|| c.show());
            if c.f32 {
                Task::Sweep32(c.tags())
            } else {
                Task::Sweep(c.tags())
            }
        }
        2 | 3 => {
            let c = segs::gen(rng, false);
            ctx.input(|| c.show());
            Task::Pairs(c.tags())
        }
        4 | 5 | 6 => {
            let pr = bops::gen_poly_exact(rng, false);
            ctx.input(|| pr.show());
            let op = *rng.pick(&[OpType::Intersection, OpType::Union, OpType::Difference, OpType::Xor]);
            Task::Op(pr.geo(&pr.a), pr.geo(&pr.b), op)
        }
        7 => {
            let c = mono::gen_mono(rng, false);
            ctx.input(|| c.show());
            Task::Chains(mono::mpoly(&c.q, 0))
        }
        8 => {
            let c = mono::gen_mono(rng, false);
            ctx.input(|| c.show());
            Task::MonoSweep(mono::mpoly(&c.q, 0))
        }
        9 => {
            let (t, b) = mono::gen_chains(rng, true);
            ctx.input(|| format!("chains {t:?} {b:?}"));
            let f = |v: &[crate::exact::P]| v.iter().map(|q| (q.x as f64, q.y as f64)).collect::<Vec<_>>();
            let (lo, hi) = (t[0].x as f64, t[t.len() - 1].x as f64);
            let mut xs: Vec<f64> = (0..1 + rng.usize(6)).map(|_| lo + (hi - lo) * rng.f64()).collect();
            xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
            xs.push(hi);
            Task::Scan(f(&t), f(&b), xs, 1 + rng.usize(6))
        }
        10 => {
            let o = ops(rng);
            ctx.input(|| format!("map {o:?}"));
            Task::Map(o, *rng.pick(&[5i64, 100000]))
        }
        _ => {
            let o = ops(rng);
            ctx.input(|| format!("set {o:?}"));
            Task::Set(o, *rng.pick(&[5i64, 100000]))
        }
    }
}

/// Panics as user code does.
struct Stop;

pub fn c19(ctx: &mut Ctx, rng: &mut Rng, case: u64) -> Verdict {
    let n = 2 + rng.usize(3);
    let mut tasks: Vec<Task> = vec![];
    while tasks.len() < n {
        // the same kind again, or the very same input, now and then
        let t = gen(ctx, rng);
        tasks.push(t);
        if rng.chance(1, 4) {
            let k = rng.usize(tasks.len());
            let t = tasks[k].clone();
            tasks.push(t);
        }
    }
    let n = tasks.len();
    let mut base: Vec<Log> = vec![];
    for t in &tasks {
        base.push(sut(t.name(), || alone(t))?);
    }
    for (t, b) in tasks.iter().zip(&base) {
        for h in &b.0 {
            ctx.feed(*h);
        }
        ctx.add("observations_of_first_runs", b.0.len() as u64);
        ctx.add(
            match t {
                Task::Sweep(_) | Task::Sweep32(_) => "tasks_sweep",
                Task::Pairs(_) => "tasks_pairs",
                Task::Op(..) => "tasks_boolean_op",
                Task::Chains(_) => "tasks_chains",
                Task::MonoSweep(_) => "tasks_monotone_sweep",
                Task::Scan(..) => "tasks_scan",
                Task::Map(..) => "tasks_map",
                Task::Set(..) => "tasks_set",
            },
            1,
        );
    }
    ctx.nontrivial = base.iter().filter(|b| b.0.len() > 1).count() >= 2;
    let mut again = |ctx: &mut Ctx, rng: &mut Rng, how: &str| -> Verdict {
        // in another order, on a heap laid out otherwise
        let mut junk: Vec<Vec<u8>> = (0..rng.usize(20)).map(|_| vec![1; 1 + rng.usize(300)]).collect();
        rng.shuffle(&mut junk);
        junk.truncate(junk.len() / 2);
        let mut o: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut o);
        for i in o {
            let listen = rng.chance(1, 16);
            if listen {
                logging(true);
                ctx.add("runs_with_a_logger_listening", 1);
            }
            let got = sut(tasks[i].name(), || alone(&tasks[i]));
            if listen {
                logging(false);
            }
            let got = got?;
            same(&tasks[i], if listen { "with a logger listening" } else { how }, &base[i], &got)?;
            ctx.add("observations_compared", got.0.len() as u64);
        }
        drop(junk);
        Ok(())
    };
    match case % 6 {
        0 => {
            ctx.add("mode_repeated", 1);
            again(ctx, rng, "run again")?;
        }
        1 => {
            // inside the pauses of another
            ctx.add("mode_nested", 1);
            for _ in 0..4 {
                let o = {
                    let mut o: Vec<usize> = (0..n).collect();
                    rng.shuffle(&mut o);
                    o
                };
                let (a, b, c) = (o[0], o[1], o[2 % n]);
                let (la, lb) = (base[a].0.len().max(1), base[b].0.len().max(1));
                let (ka, kb) = (rng.usize(la), rng.usize(lb));
                let mut got: Vec<(usize, Vec<u64>)> = vec![(a, vec![])];
                sut("nested computations", || {
                    let mut v = vec![];
                    run(&tasks[a], &mut |h| {
                        if v.len() == ka {
                            let mut w = vec![];
                            run(&tasks[b], &mut |h| {
                                if w.len() == kb {
                                    got.push((c, alone(&tasks[c]).0));
                                }
                                w.push(h);
                            });
                            got.push((b, w));
                        }
                        v.push(h);
                    });
                    got[0].1 = v;
                })?;
                for (i, v) in got {
                    ctx.add("observations_compared", v.len() as u64);
                    same(&tasks[i], "nested with another computation", &base[i], &Log(v))?;
                }
            }
        }
        2 => {
            // inside user callbacks of another
            ctx.add("mode_in_callback", 1);
            for _ in 0..3 {
                let (a, b) = (rng.usize(n), rng.usize(n));
                let at = rng.below(12);
                let (inner, seen, calls) = (tasks[b].clone(), Rc::new(RefCell::new(vec![])), Rc::new(Cell::new(0u64)));
                {
                    let (seen, calls) = (seen.clone(), calls.clone());
                    HOOK.with(|h| {
                        *h.borrow_mut() = Some(Box::new(move || {
                            calls.set(calls.get() + 1);
                            if calls.get() == at + 1 {
                                seen.borrow_mut().push(alone(&inner));
                            }
                        }))
                    });
                }
                let got = sut("a computation inside a callback of another", || alone(&tasks[a]));
                HOOK.with(|h| *h.borrow_mut() = None);
                IN_HOOK.with(|h| h.set(false));
                let got = got?;
                same(&tasks[a], "with another computation inside its callback", &base[a], &got)?;
                for l in seen.borrow().iter() {
                    same(&tasks[b], "inside a callback of another", &base[b], l)?;
                    ctx.add("runs_inside_callbacks", 1);
                }
                ctx.add("observations_compared", got.0.len() as u64);
            }
        }
        3 => {
            // abandoned half-way, in the middle of each other
            ctx.add("mode_abandoned", 1);
            for i in 0..n {
                let k = rng.usize(base[i].0.len().max(1));
                let j = rng.usize(n);
                let mut c = 0;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    run(&tasks[i], &mut |_| {
                        c += 1;
                        if c > k {
                            let _ = alone(&tasks[j]);
                            std::panic::panic_any(Stop);
                        }
                    })
                }));
                match r {
                    Err(e) if e.is::<Stop>() => ctx.add("runs_abandoned", 1),
                    Err(e) => return Err(format!("{} cut short: {}", tasks[i].name(), panic_text(e))),
                    Ok(()) => ensure!(base[i].0.is_empty(), "{}: {c} observations, {} in the first run", tasks[i].name(), base[i].0.len()),
                }
            }
            again(ctx, rng, "after abandoned ones")?;
        }
        4 => {
            // ended by a panic in a user callback
            ctx.add("mode_panicked", 1);
            for i in 0..n {
                let m = *rng.pick(&[3u64, 30, 300]);
                let at = rng.below(m);
                let mut calls = 0;
                HOOK.with(|h| {
                    *h.borrow_mut() = Some(Box::new(move || {
                        calls += 1;
                        if calls > at {
                            std::panic::panic_any(Stop);
                        }
                    }))
                });
                let r = catch_unwind(AssertUnwindSafe(|| alone(&tasks[i])));
                HOOK.with(|h| *h.borrow_mut() = None);
                IN_HOOK.with(|h| h.set(false));
                match r {
                    Err(e) if e.is::<Stop>() => ctx.add("runs_ended_by_panic", 1),
                    Err(e) => return Err(format!("{} with a panic in a callback: {}", tasks[i].name(), panic_text(e))),
                    Ok(got) => same(&tasks[i], "without callbacks to end it", &base[i], &got)?,
                }
            }
            again(ctx, rng, "after ones ended by a panic")?;
        }
        _ => {
            ctx.add("mode_threads", 1);
            let threads = 2 + rng.usize(3);
            let shared = Arc::new(tasks.clone());
            let gate = Arc::new(Barrier::new(threads));
            let step = rng.chance(1, 2);
            let hs: Vec<_> = (0..threads)
                .map(|k| {
                    let (shared, gate) = (shared.clone(), gate.clone());
                    let rot = rng.usize(n);
                    std::thread::spawn(move || {
                        gate.wait();
                        (0..shared.len())
                            .map(|i| {
                                let i = (i + rot + k) % shared.len();
                                let r = catch_unwind(AssertUnwindSafe(|| {
                                    let mut v = vec![];
                                    run(&shared[i], &mut |h| {
                                        v.push(h);
                                        if step {
                                            std::thread::yield_now();
                                        }
                                    });
                                    v
                                }))
                                .map_err(panic_text);
                                (i, r)
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            let mut bad = Ok(());
            for h in hs {
                for (i, r) in h.join().unwrap() {
                    ctx.add("runs_on_threads", 1);
                    match r {
                        Ok(v) => {
                            ctx.add("observations_compared", v.len() as u64);
                            if bad.is_ok() {
                                bad = same(&tasks[i], "on one of several threads", &base[i], &Log(v));
                            }
                        }
                        Err(e) => {
                            if bad.is_ok() {
                                bad = Err(format!("{} on one of several threads: {e}", tasks[i].name()));
                            }
                        }
                    }
                }
            }
            bad?;
        }
    }
    // and nothing of this is left behind
    let i = rng.usize(n);
    let got = sut(tasks[i].name(), || alone(&tasks[i]))?;
    same(&tasks[i], "at the end", &base[i], &got)
}
