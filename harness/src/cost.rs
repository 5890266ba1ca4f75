//! C18: the sweep ends after work proportional to (n + k) log n.
//!
//! The scalar type counts every comparison and every orientation test the code
//! makes; the budget comes from the exact number of intersecting pairs.
use crate::ctx::*;
use crate::ensure;
use crate::exact::*;
use crate::genseg::*;
use crate::rng::Rng;
use crate::wf::{self, W};
use geo::{Coordinate, Line};
use geo_crossings::{CrossingsIter, Intersections};
use std::iter::FromIterator;

/// Work allowed per (n + k) log2(n + 2), by the number of lines: about four
/// times what is needed, so that code which compares twice passes. What costs
/// more per line the more lines there are shows on the larger inputs.
fn allowed(n: u64) -> f64 {
    match n {
        0..=255 => 500.0,
        256..=1023 => 300.0,
        1024..=9_999 => 220.0,
        _ => 150.0,
    }
}

/// One input in so many has tens of thousands of segments.
const HUGE: u64 = 1200;

fn family(rng: &mut Rng, big: bool, huge: bool) -> (&'static str, Vec<Seg>) {
    let top = if big { 4000 } else { 500 };
    // log-uniform size
    let n = {
        let lo = 3f64.ln();
        let hi = (top as f64).ln();
        (lo + rng.f64() * (hi - lo)).exp() as i64
    };
    let n = if huge { rng.range(10_000, 70_000) } else { n };
    let mut v = vec![];
    let s = |ax: i64, ay: i64, bx: i64, by: i64| Seg { a: p(ax, ay), b: p(bx, by) };
    let order = rng.below(4);
    let name = match rng.below(12) {
        0 => {
            // all active at once, none meet
            let stag = rng.range(0, 2);
            for i in 0..n {
                let o = match stag {
                    0 => 0,
                    1 => i,
                    _ => n - i,
                };
                v.push(s(o, i * 2, 4 * n - rng.range(0, n), i * 2));
            }
            "ladder"
        }
        1 => {
            for i in 0..n {
                let (l, o) = (rng.range(1, 3 * n), rng.range(0, n));
                v.push(s(o, 4 * i + o, o + l, 4 * i + o + l));
            }
            "diagonals"
        }
        2 => {
            let k = ((n as f64).sqrt() * rng.range(3, 9) as f64) as i64 + 3;
            for _ in 0..n {
                let d = *rng.pick(OCT);
                let (x, y, l) = (rng.range(0, k), rng.range(0, k), rng.range(1, 2));
                v.push(s(2 * x, 2 * y, 2 * (x + d.0 * l), 2 * (y + d.1 * l)));
            }
            "sparse"
        }
        3 => {
            let (a, b) = (n.min(60), (n / 60).max(1).min(60));
            for i in 0..a {
                v.push(s(-1, i, b, i));
            }
            for j in 0..b {
                v.push(s(j, -1, j, a));
            }
            "grid"
        }
        4 => {
            let n = n.min(120);
            for _ in 0..n {
                let (a, b) = (rng.range(0, 2 * n), rng.range(0, 2 * n));
                v.push(s(a, a, b, b));
            }
            "collinear"
        }
        5 => {
            let c = rng.range(2, 9);
            for i in 0..n {
                v.push(s(c * i, 0, c * i + rng.range(1, c), 0));
            }
            "beads"
        }
        6 => {
            // fan from a shared end point
            let n = n.min(600);
            for i in 0..n {
                v.push(s(0, 0, 4096, i - n / 2));
            }
            "fan"
        }
        7 => {
            // zigzag chain
            for i in 0..n {
                let (y0, y1) = if i % 2 == 0 { (0, 1000) } else { (1000, 0) };
                v.push(s(3 * i, y0, 3 * (i + 1), y1));
            }
            "zigzag"
        }
        8 => {
            for i in 0..n {
                v.push(s(2 * i, rng.range(0, 5), 2 * i, rng.range(6, 500)));
            }
            "comb"
        }
        9 => {
            for _ in 0..n {
                let (x, y) = (rng.range(0, n), rng.range(0, n));
                v.push(s(x, y, x, y));
            }
            "points"
        }
        10 => {
            // long bars crossed by few verticals, points scattered
            for i in 0..n {
                v.push(s(-1, 2 * i, 2 * n, 2 * i));
            }
            for _ in 0..rng.range(1, 3) {
                let x = rng.range(0, 2 * n - 1);
                v.push(s(x, -1, x, 2 * n));
            }
            for _ in 0..n / 4 {
                let (x, y) = (rng.range(0, n), 2 * rng.range(0, n) + 1);
                v.push(s(x, y, x, y));
            }
            "bars"
        }
        _ => {
            // nested chevrons: shared end points, deep nesting
            for i in 0..n / 2 {
                let j = i + 1;
                v.push(s(-2 * j, 0, 0, j));
                v.push(s(0, j, 2 * j, 0));
            }
            "chevrons"
        }
    };
    match order {
        0 => {}
        1 => v.reverse(),
        _ => rng.shuffle(&mut v),
    }
    if rng.chance(1, 2) {
        // quarter turns and mirrors keep every intersection exact
        let (sw, sx, sy) = (rng.chance(1, 2), rng.chance(1, 2), rng.chance(1, 2));
        let f = |q: P| {
            let q = if sw { p(q.y, q.x) } else { q };
            p(if sx { -q.x } else { q.x }, if sy { -q.y } else { q.y })
        };
        for s in v.iter_mut() {
            *s = Seg { a: f(s.a), b: f(s.b) };
        }
    }
    if rng.chance(1, 3) {
        for s in v.iter_mut() {
            if rng.chance(1, 2) {
                *s = Seg { a: s.b, b: s.a };
            }
        }
    }
    (name, v)
}

/// The number of pairs that meet; `None` if there are too many to look at.
pub fn pairs(v: &[Seg]) -> Option<u64> {
    let bb: Vec<_> = v
        .iter()
        .map(|s| [(s.a.x.min(s.b.x), s.a.x.max(s.b.x)), (s.a.y.min(s.b.y), s.a.y.max(s.b.y))])
        .collect();
    // along the axis with fewer overlaps of intervals
    let by = |ax: usize| -> (u64, usize, Vec<usize>) {
        let mut o: Vec<usize> = (0..v.len()).collect();
        o.sort_by_key(|&i| bb[i][ax].0);
        let c = (0..o.len()).map(|i| o[i + 1..].partition_point(|&j| bb[j][ax].0 <= bb[o[i]][ax].1) as u64).sum();
        (c, ax, o)
    };
    let (x, y) = (by(0), by(1));
    let (c, ax, o) = if x.0 <= y.0 { x } else { y };
    if c > 40_000_000 {
        return None;
    }
    let mut k = 0;
    for i in 0..o.len() {
        for j in i + 1..o.len() {
            let (a, b) = (&bb[o[i]], &bb[o[j]]);
            if b[ax].0 > a[ax].1 {
                break;
            }
            let (a, b) = (a[1 - ax], b[1 - ax]);
            if a.0 > b.1 || b.0 > a.1 {
                continue;
            }
            if isec(&v[o[i]], &v[o[j]]) != Isec::None {
                k += 1;
            }
        }
    }
    Some(k)
}

fn lines(v: &[Seg]) -> Vec<Line<W>> {
    let c = |q: P| Coordinate { x: W(q.x as f64), y: W(q.y as f64) };
    v.iter().map(|s| Line { start: c(s.a), end: c(s.b) }).collect()
}

pub fn c18(ctx: &mut Ctx, rng: &mut Rng, _c: u64) -> Verdict {
    let big = rng.chance(1, if ctx.thorough { 4 } else { 10 });
    let huge = rng.chance(1, HUGE);
    let (name, v) = family(rng, big, huge);
    let n = v.len() as u64;
    let k = match pairs(&v) {
        Some(k) => k,
        None => {
            ctx.add("skipped_too_many_pairs_to_count", 1);
            return Ok(());
        }
    };
    for s in &v {
        for q in [s.a, s.b] {
            ctx.feed(q.x as u64);
            ctx.feed(q.y as u64);
        }
    }
    ctx.nontrivial = n >= 8;
    ctx.input(|| {
        let l: Vec<String> = v
            .iter()
            .map(|s| format!("({},{})-({},{})", s.a.x, s.a.y, s.b.x, s.b.y))
            .collect();
        format!("{name} n={n} pairs={k}: {}", l.join(" "))
    });
    let unit = (n + k) as f64 * ((n + 2) as f64).log2();
    let budget = (allowed(n) * unit) as u64;
    for which in 0..2 {
        let what = ["crossings", "intersections"][which];
        wf::reset(budget);
        let r = sut(what, || {
            let items = lines(&v);
            match which {
                0 => CrossingsIter::<_>::from_iter(items).take(4 * budget as usize + 10).count(),
                _ => Intersections::<_>::from_iter(items).take(4 * budget as usize + 10).count(),
            }
        });
        let (cm, or) = wf::counts();
        wf::reset(u64::MAX);
        let out = match r {
            Err(e) if e.contains(wf::BUDGET) => {
                return Err(format!(
                    "{what} of n={n} inputs with k={k} intersecting pairs ({name}) did more than {budget} comparisons"
                ))
            }
            Err(e) => return Err(e),
            Ok(o) => o as u64,
        };
        ensure!(
            (out as f64) < 4.0 * budget as f64,
            "{what} of n={n} inputs with k={k} intersecting pairs ({name}) yields over {out} items"
        );
        let per = ((cm + or) as f64 / unit * 100.) as u64;
        ctx.add("items_yielded", out);
        ctx.add("comparisons", cm);
        ctx.add("orientation_tests", or);
        ctx.max(["max_percent_work_per_unit_crossings", "max_percent_work_per_unit_intersections"][which], per);
        if std::env::var("COST").is_ok() {
            println!("{name} {what} n={n} k={k} per={per} cmp={cm} or={or}");
        }
        ctx.add("runs", 1);
    }
    ctx.add("inputs_total", n);
    ctx.add("pairs_total", k);
    ctx.max("max_n", n);
    ctx.add(name_key(name), 1);
    Ok(())
}

fn name_key(n: &'static str) -> &'static str {
    n
}
