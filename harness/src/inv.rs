//! C04: the sweep's answer depends on the geometry only (wrapper types, input
//! order, orientation, position, scale, scalar type, repetition).
use crate::ctx::*;
use crate::ensure;
use crate::exact::*;
use crate::rng::Rng;
use crate::segs::*;
use geo::line_intersection::LineIntersection;
use geo::{Coordinate, Line};
use geo_crossings::{Crossable, CrossingsIter, Intersections};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::iter::FromIterator;
use std::rc::Rc;
use std::sync::Arc;

/// A crossable that is not `Copy` and counts clones, like a user's heavy type.
#[derive(Debug)]
struct Heavy {
    id: usize,
    pts: Vec<(f64, f64)>,
    live: Rc<Cell<i64>>,
}
impl Clone for Heavy {
    fn clone(&self) -> Self {
        self.live.set(self.live.get() + 1);
        Heavy { id: self.id, pts: self.pts.clone(), live: self.live.clone() }
    }
}
impl Drop for Heavy {
    fn drop(&mut self) {
        self.live.set(self.live.get() - 1);
    }
}
impl Crossable for Heavy {
    type Scalar = f64;
    fn line(&self) -> Line<f64> {
        Line::from([self.pts[0], self.pts[1]])
    }
}

type Flat = Vec<((u64, u64), Vec<(usize, (u64, u64), (u64, u64), bool, bool, bool, bool)>)>;
fn flat(v: &[Step]) -> Flat {
    let b = |q: (f64, f64)| ((q.0 + 0.0).to_bits(), (q.1 + 0.0).to_bits());
    v.iter()
        .map(|s| (b(s.pt), s.segs.iter().map(|o| (o.id, b(o.lo), b(o.hi), o.is_line, o.first, o.ovl, o.left)).collect()))
        .collect()
}
fn same(what: &str, a: &[Step], b: &[Step]) -> Verdict {
    let (fa, fb) = (flat(a), flat(b));
    if fa == fb {
        return Ok(());
    }
    let k = fa.iter().zip(fb.iter()).take_while(|(x, y)| x == y).count();
    Err(format!("{what}: step {k} is {:?}, was {:?}", b.get(k), a.get(k)))
}

/// Order-free view of one run: per point the multiset of pieces that end there
/// and the multiset of lines that start there.
type View = Vec<((i64, i64), Vec<(usize, i64, i64, i64, i64)>, Vec<usize>)>;
fn int(v: f64, s: f64) -> Result<i64, String> {
    let x = v / s;
    ensure!(x == x.round() && x.abs() < 9e15, "coordinate {v} is not on the lattice");
    Ok(x as i64)
}
fn view(steps: &[Step], s: f64, back: impl Fn(P) -> P) -> Result<View, String> {
    let mut out = vec![];
    for st in steps {
        let at = |q: (f64, f64)| -> Result<P, String> { Ok(back(p(int(q.0, s)?, int(q.1, s)?))) };
        let q = at(st.pt)?;
        let mut ends = vec![];
        let mut starts = vec![];
        for o in &st.segs {
            if o.left {
                starts.push(o.id);
            } else {
                let (a, b) = (at(o.lo)?, at(o.hi)?);
                ends.push((o.id, a.x, a.y, b.x, b.y));
            }
        }
        ends.sort();
        starts.sort();
        out.push(((q.x, q.y), ends, starts));
    }
    Ok(out)
}

fn pair_bits(v: &[(usize, usize, LineIntersection<f64>)]) -> Vec<(usize, usize, String)> {
    v.iter().map(|(a, b, x)| (*a, *b, format!("{x:?}"))).collect()
}

pub fn c04(ctx: &mut Ctx, rng: &mut Rng, c: u64) -> Verdict {
    let (case, tr) = setup(ctx, rng);
    let cap = 4 * tr.events.len() + 64;
    let tags = case.tags::<f64>();
    let base = trace_of::<Tag<f64>, f64>(tags.clone(), cap, |t| t.id)?;
    // 1. identical runs and wrapper types: bit-identical traces
    let variants: u64 = 8;
    match c % variants {
        0 => {
            ctx.add("relation_same_input_twice", 1);
            same("second run on the same input", &base, &trace_of::<Tag<f64>, f64>(tags.clone(), cap, |t| t.id)?)?;
            same("&T", &base, &trace_of::<&Tag<f64>, f64>(tags.iter(), cap, |t| t.id)?)?;
            let refs: Vec<&Tag<f64>> = tags.iter().collect();
            same("&&T", &base, &trace_of::<&&Tag<f64>, f64>(refs.iter(), cap, |t| t.id)?)?;
        }
        1 => {
            ctx.add("relation_smart_pointers", 1);
            same("Box<T>", &base, &trace_of(tags.iter().map(|t| Box::new(*t)), cap, |t| t.id)?)?;
            same("Rc<T>", &base, &trace_of(tags.iter().map(|t| Rc::new(*t)), cap, |t| t.id)?)?;
            same("Arc<T>", &base, &trace_of(tags.iter().map(|t| Arc::new(*t)), cap, |t| t.id)?)?;
            same("Rc<Box<T>>", &base, &trace_of(tags.iter().map(|t| Rc::new(Box::new(*t))), cap, |t| t.id)?)?;
        }
        2 => {
            ctx.add("relation_user_type_and_hints", 1);
            let live = Rc::new(Cell::new(0i64));
            let mk = |t: &Tag<f64>| {
                live.set(live.get() + 1);
                Heavy { id: t.id, pts: vec![(t.l.start.x, t.l.start.y), (t.l.end.x, t.l.end.y)], live: live.clone() }
            };
            let hs: Vec<Heavy> = tags.iter().map(mk).collect();
            same("user type", &base, &trace_of::<Heavy, f64>(hs, cap, |t| t.id)?)?;
            ensure!(live.get() == 0, "{} clones of the input alive after the iterator was dropped", live.get());
            // iterator dropped half way
            let hs: Vec<Heavy> = tags.iter().map(mk).collect();
            let k = rng.usize(base.len() + 1);
            sut("partial iteration", || {
                let mut it = CrossingsIter::from_iter(hs);
                for _ in 0..k {
                    it.next();
                }
            })?;
            ensure!(live.get() == 0, "{} clones of the input alive after dropping a half-used iterator", live.get());
            // no usable size hint
            let mut i = 0;
            let it = std::iter::from_fn(|| {
                i += 1;
                tags.get(i - 1).cloned()
            });
            same("iterator without a size hint", &base, &trace_of::<Tag<f64>, f64>(it, cap, |t| t.id)?)?;
            // an upper bound far above the number of items
            let most = [usize::MAX, usize::MAX / 2 + 1, 1 << 40][rng.usize(3)];
            let loose = (0..most).map_while(|i| tags.get(i).cloned());
            same("iterator with a loose upper bound", &base, &trace_of::<Tag<f64>, f64>(loose, cap, |t| t.id)?)?;
            let loose = (0..most).map_while(|i| tags.get(i).cloned());
            let k = sut("Intersections of an iterator with a loose upper bound", || Intersections::from_iter(loose).take(8 * tr.pairs.len() + 64).count())?;
            ensure!(k == pairs_of(tags.clone(), 8 * tr.pairs.len() + 64)?.len(), "Intersections over an iterator with a loose upper bound reports {k} pairs");
            let chained = tags[..tags.len() / 2].iter().chain(tags[tags.len() / 2..].iter()).filter(|_| true).cloned();
            same("chained iterator", &base, &trace_of::<Tag<f64>, f64>(chained, cap, |t| t.id)?)?;
        }
        3 => {
            ctx.add("relation_pairs_of_wrappers", 1);
            let pc = 8 * tr.pairs.len() + 64;
            let a = pairs_of(tags.clone(), pc)?;
            let b = pairs_of(tags.clone(), pc)?;
            ensure!(pair_bits(&a) == pair_bits(&b), "Intersections differs between two runs on the same input");
            let r = sut("Intersections<&T>", || {
                Intersections::from_iter(tags.iter()).map(|(x, y, i)| (x.id, y.id, i)).take(pc).collect::<Vec<_>>()
            })?;
            ensure!(pair_bits(&a) == pair_bits(&r), "Intersections over &T differs from T");
            let r = sut("Intersections<Rc<T>>", || {
                Intersections::from_iter(tags.iter().map(|t| Rc::new(*t)))
                    .map(|(x, y, i)| (x.id, y.id, i))
                    .take(pc)
                    .collect::<Vec<_>>()
            })?;
            ensure!(pair_bits(&a) == pair_bits(&r), "Intersections over Rc<T> differs from T");
        }
        7 => {
            ctx.add("relation_other_iterator_methods", 1);
            let mut want: std::collections::VecDeque<Coordinate<f64>> = base.iter().map(|s| Coordinate { x: s.pt.0, y: s.pt.1 }).collect();
            let mut it = sut("CrossingsIter", || CrossingsIter::from_iter(tags.iter()))?;
            let stop = *rng.pick(&[0u64, 5, 30]);
            while !want.is_empty() && !rng.chance(stop, 100) {
                let last = crate::drive::forward(rng, &mut it, &mut want)?;
                // what is reported belongs to the point last yielded
                if last.is_some() {
                    let k = base.len() - want.len() - 1;
                    let now = Step { pt: base[k].pt, segs: batch(&it, &|t| t.id) };
                    same("skipping points", &base[k..k + 1], &[now])?;
                }
                ctx.add("iterator_calls", 1);
            }
            crate::drive::finish(rng, it, want)?;
            let pc = 8 * tr.pairs.len() + 64;
            let all = sut("Intersections", || Intersections::from_iter(tags.iter().cloned()).take(pc).collect::<Vec<_>>())?;
            let mut want: std::collections::VecDeque<_> = all.into();
            let mut it = sut("Intersections", || Intersections::from_iter(tags.iter().cloned()))?;
            while !want.is_empty() && !rng.chance(stop, 100) {
                crate::drive::forward(rng, &mut it, &mut want)?;
                ctx.add("iterator_calls", 1);
            }
            crate::drive::finish(rng, it, want)?;
        }
        _ => {
            if case.general {
                // the set of pairs is invariant, exactly once each
                ctx.add("relation_general_order", 1);
                let mut perm: Vec<usize> = (0..tags.len()).collect();
                rng.shuffle(&mut perm);
                let flip = rng.u64();
                let t2: Vec<Tag<f64>> = perm
                    .iter()
                    .map(|&i| {
                        let mut t = tags[i];
                        if flip >> (i % 64) & 1 == 1 {
                            std::mem::swap(&mut t.l.start, &mut t.l.end);
                        }
                        t
                    })
                    .collect();
                let key = |v: Vec<(usize, usize, LineIntersection<f64>)>| {
                    let mut m: BTreeMap<(usize, usize), usize> = BTreeMap::new();
                    for (a, b, _) in v {
                        *m.entry((a.min(b), a.max(b))).or_insert(0) += 1;
                    }
                    m
                };
                let pc = 8 * tr.pairs.len() + 64;
                let a = key(pairs_of(tags.clone(), pc)?);
                let b = key(pairs_of(t2, pc)?);
                ensure!(a == b, "pairs differ after reordering / flipping the input: {a:?} vs {b:?}");
                return Ok(());
            }
            // lattice: exact geometric relations
            let s = case.scale();
            let v0 = view(&base, s, |q| q)?;
            let n = tags.len();
            let mut perm: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut perm);
            let flip = rng.u64();
            let reord: Vec<Tag<f64>> = perm
                .iter()
                .map(|&i| {
                    let mut t = tags[i];
                    if flip >> (i % 64) & 1 == 1 {
                        std::mem::swap(&mut t.l.start, &mut t.l.end);
                    }
                    t
                })
                .collect();
            match c % variants {
                4 => {
                    ctx.add("relation_order_and_orientation", 1);
                    let v = view(&trace_of::<Tag<f64>, f64>(reord, cap, |t| t.id)?, s, |q| q)?;
                    ensure!(v == v0, "points or pieces changed when the input was reordered and flipped{}", diff(&v0, &v));
                }
                5 => {
                    ctx.add("relation_translate_scale", 1);
                    let (dx, dy) = (rng.range(-50_000, 50_000), rng.range(-50_000, 50_000));
                    let e2 = rng.range(-20, 20) as i32;
                    let c2 = Case {
                        segs: case
                            .segs
                            .iter()
                            .map(|g| Seg { a: p(g.a.x + dx, g.a.y + dy), b: p(g.b.x + dx, g.b.y + dy) })
                            .collect(),
                        e: e2,
                        ..case.clone()
                    };
                    let st = trace_of::<Tag<f64>, f64>(c2.tags(), cap, |t| t.id)?;
                    let v = view(&st, c2.scale(), |q| p(q.x - dx, q.y - dy))?;
                    ensure!(v == v0, "points or pieces changed after translating by ({dx},{dy}) and scaling by 2^{}{}", e2 - case.e, diff(&v0, &v));
                    // transposition keeps the set of points
                    let c3 = Case {
                        segs: case.segs.iter().map(|g| Seg { a: p(g.a.y, g.a.x), b: p(g.b.y, g.b.x) }).collect(),
                        ..case.clone()
                    };
                    let st = trace_of::<Tag<f64>, f64>(c3.tags(), cap, |t| t.id)?;
                    let mut a: Vec<(i64, i64)> = view(&st, s, |q| p(q.y, q.x))?.iter().map(|x| x.0).collect();
                    a.sort();
                    ensure!(
                        a == v0.iter().map(|x| x.0).collect::<Vec<_>>(),
                        "the set of points changed after swapping x and y"
                    );
                }
                _ => {
                    // a repeated line, or cutting a line at an event point, adds no point
                    ctx.add("relation_duplicate_and_cut", 1);
                    let k = rng.usize(n);
                    let mut t2 = tags.clone();
                    t2.push(Tag { id: n, ..tags[k] });
                    let a = trace_of::<Tag<f64>, f64>(t2, cap, |t| t.id)?;
                    ensure!(
                        a.iter().map(|x| x.pt).collect::<Vec<_>>() == base.iter().map(|x| x.pt).collect::<Vec<_>>(),
                        "the points changed when line {k} was added twice"
                    );
                    let b = &tr.breaks[k];
                    let q = b[rng.usize(b.len())];
                    let q = case.coord::<f64>(p((q.0 / q.2) as i64, (q.1 / q.2) as i64));
                    let mut t2 = tags.clone();
                    let old = t2[k].l;
                    t2[k].l = Line { start: old.start, end: q };
                    t2.push(Tag { id: n, l: Line { start: q, end: old.end } });
                    let a = trace_of::<Tag<f64>, f64>(t2, cap, |t| t.id)?;
                    ensure!(
                        a.iter().map(|x| x.pt).collect::<Vec<_>>() == base.iter().map(|x| x.pt).collect::<Vec<_>>(),
                        "the points changed when line {k} was cut at {q:?}"
                    );
                    // f32 and f64 agree where both are exact
                    let small = case.e.abs() <= 20 && case.segs.iter().all(|g| {
                        [g.a.x, g.a.y, g.b.x, g.b.y].iter().all(|v| v.abs() <= 64)
                            && { let (dx, dy) = ((g.b.x - g.a.x).abs(), (g.b.y - g.a.y).abs()); dx == 0 || dy == 0 || dx == dy }
                    });
                    if small {
                        ctx.add("relation_f32", 1);
                        let a = trace_of::<Tag<f32>, f32>(case.tags(), cap, |t| t.id)?;
                        same("f32 instead of f64", &base, &a)?;
                    }
                }
            }
        }
    }
    Ok(())
}

fn diff(a: &View, b: &View) -> String {
    let k = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    format!(": step {k}: {:?} vs {:?}", a.get(k), b.get(k))
}
