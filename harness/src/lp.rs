//! Monitor for the geometric primitives: C16.
use crate::ctx::*;
use crate::ensure;
use crate::exact::*;
use crate::genseg::*;
use crate::mono::Mc;
use crate::rng::Rng;
use geo::{Coordinate, GeoNum, Line};
use geo_crossings::{LineOrPoint, SweepPoint};
use std::cmp::Ordering;

thread_local! {
    /// State that signs zero coordinates (0: all positive).
    static NZ: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
fn co<T: Mc>(q: P, e: i32) -> Coordinate<T> {
    let z = |v: i64| {
        let s = NZ.with(|n| n.get());
        if v != 0 || s == 0 {
            return T::of(v, e);
        }
        let s = s.wrapping_mul(0x5851_f42d_4c95_7f2d) | 1;
        NZ.with(|n| n.set(s));
        if s >> 60 & 1 == 1 {
            T::neg0()
        } else {
            T::of(0, e)
        }
    };
    Coordinate { x: z(q.x), y: z(q.y) }
}
fn sp<T: Mc>(q: P, e: i32) -> SweepPoint<T> {
    co::<T>(q, e).into()
}
fn make<T: Mc>(s: &Seg, e: i32) -> LineOrPoint<T> {
    LineOrPoint::from(Line { start: co::<T>(s.a, e), end: co::<T>(s.b, e) })
}

/// Ordering along the sweep, straight from its definition: a point is an
/// infinitesimal vertical segment; `a` is less if it lies below `b` where the
/// sweep line meets both.
fn order(a: &Seg, b: &Seg) -> Option<Option<Ordering>> {
    // Outer None: unspecified
    let (a, b) = (Seg { a: a.lo(), b: a.hi() }, Seg { a: b.lo(), b: b.hi() });
    if a.is_point() && b.is_point() {
        return Some(if a.a == b.a { Some(Ordering::Equal) } else { None });
    }
    if b.is_point() {
        if b.a < a.a || b.a > a.b {
            return Some(None);
        }
        return Some(Some(match orient(a.a, a.b, b.a) {
            1 => Ordering::Less,
            -1 => Ordering::Greater,
            // a point on a line comes before it
            _ => Ordering::Greater,
        }));
    }
    if a.is_point() {
        return order(&b, &a).map(|o| o.map(Ordering::reverse));
    }
    if a.a > b.a {
        return order(&b, &a).map(|o| o.map(Ordering::reverse));
    }
    if b.a >= a.b {
        // the sweep line never meets both
        return None;
    }
    let o = match orient(a.a, a.b, b.a) {
        0 => orient(a.a, a.b, b.b),
        o => o,
    };
    Some(Some(match o {
        1 => Ordering::Less,
        -1 => Ordering::Greater,
        _ => Ordering::Equal,
    }))
}

fn show(s: &Seg) -> String {
    format!("({},{})-({},{})", s.a.x, s.a.y, s.b.x, s.b.y)
}

fn basics<T: Mc>(ctx: &mut Ctx, v: &[Seg], e: i32) -> Verdict {
    for s in v {
        let l = make::<T>(s, e);
        let r = make::<T>(&Seg { a: s.b, b: s.a }, e);
        let (lo, hi) = (sp::<T>(s.lo(), e), sp::<T>(s.hi(), e));
        for q in [&l, &r] {
            match q {
                LineOrPoint::Point(x) => ensure!(s.is_point() && *x == lo, "{} converts to {q:?}", show(s)),
                LineOrPoint::Line(x, y) => ensure!(!s.is_point() && *x == lo && *y == hi, "{} converts to {q:?}", show(s)),
            }
            ensure!(q.is_line() != s.is_point(), "is_line of {q:?}");
            ensure!(q.second() == hi, "second of {q:?} is {:?}", q.second());
            let g = q.line();
            ensure!(g.start == lo.coord() && g.end == hi.coord(), "line of {q:?} is {g:?}");
        }
        let c: LineOrPoint<T> = co::<T>(s.a, e).into();
        ensure!(matches!(c, LineOrPoint::Point(x) if x == sp(s.a, e)), "a coordinate converts to {c:?}");
        ensure!(l.partial_cmp(&l) == Some(Ordering::Equal) || !s.is_point() && l == l, "{l:?} is not equal to itself");
        let t: SweepPoint<T> = co::<T>(s.a, e).x_y().into();
        ensure!(t == sp(s.a, e) && t.coord() == co(s.a, e), "point from a pair");
        ctx.add("conversions_observed", 2);
    }
    for s in v {
        for t in v {
            for (a, b) in [(s.a, t.a), (s.a, t.b), (s.b, t.b)] {
                let (x, y) = (sp::<T>(a, e), sp::<T>(b, e));
                ensure!(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)) && (x == y) == (a == b), "{x:?} against {y:?}: {:?}", x.cmp(&y));
            }
            let (l, m) = (make::<T>(s, e), make::<T>(t, e));
            let got = sut("comparison", || (l.partial_cmp(&m), m.partial_cmp(&l), l == m))?;
            ensure!(got.0 == got.1.map(Ordering::reverse), "{} against {}: {:?}, the other way {:?}", show(s), show(t), got.0, got.1);
            ensure!(got.2 == (got.0 == Some(Ordering::Equal)), "== and comparison disagree on {} and {}", show(s), show(t));
            if let Some(w) = order(s, t) {
                ensure!(got.0 == w, "{} against {}: {:?}, exact {w:?}", show(s), show(t), got.0);
                ctx.add(
                    match w {
                        None => "compared_incomparable",
                        Some(Ordering::Less) => "compared_less",
                        Some(Ordering::Equal) => "compared_equal",
                        Some(Ordering::Greater) => "compared_greater",
                    },
                    1,
                );
            }
        }
    }
    Ok(())
}

/// Segments whose end points are nearly collinear at ~2^48.
fn near_degenerate(rng: &mut Rng, n: usize) -> Vec<Seg> {
    let bits = *rng.pick(&[10i64, 20, 30, 40, 48]);
    let m = 1i64 << bits;
    let mut v = vec![];
    let (d, o) = (p(rng.range(-m, m) / 8, rng.range(-m, m) / 8), p(rng.range(-m, m) / 8, rng.range(-m, m) / 8));
    while v.len() < n {
        let mut at = |rng: &mut Rng| {
            // a point near the common line through o in direction d
            let t = rng.range(-1024, 1024);
            let (x, y) = (o.x as i128 + d.x as i128 * t as i128 / 512, o.y as i128 + d.y as i128 * t as i128 / 512);
            p(x as i64 + rng.range(-1, 1), y as i64 + rng.range(-1, 1))
        };
        let (a, b) = (at(rng), at(rng));
        let s = match rng.below(8) {
            0 => Seg { a, b: a },
            1 => Seg { a, b: p(a.x, b.y) },
            2 => Seg { a, b: p(rng.range(-m, m), rng.range(-m, m)) },
            3 if !v.is_empty() => {
                let w: Seg = *rng.pick(&v);
                Seg { a: w.a, b }
            }
            _ => Seg { a, b },
        };
        v.push(s);
    }
    v
}

fn intersections<T: Mc + geo_crossings::Float>(ctx: &mut Ctx, v: &[Seg], e: i32, exact: bool, ordered: bool) -> Verdict {
    for s in v {
        for t in v {
            let (l, m) = (make::<T>(s, e), make::<T>(t, e));
            if t.is_point() {
                let r = sut("intersect_line", || l.intersect_line(&m));
                ensure!(r.is_err(), "intersecting with a point as the second argument returned {r:?}");
                ctx.add("point_arguments_refused", 1);
                continue;
            }
            let want = isec(s, t);
            let check = |what: &str, got: &Option<LineOrPoint<T>>| -> Verdict {
                let bad = || format!("{what} of {} with {} (x 2^{e}): {got:?}, exact {want:?}", show(s), show(t));
                match (got, want) {
                    (None, Isec::None) => {}
                    (Some(LineOrPoint::Point(q)), Isec::Pt(x, y, d)) => {
                        let c = q.coord();
                        if x % d == 0 && y % d == 0 {
                            let z = p((x / d) as i64, (y / d) as i64);
                            let is_end = [s.a, s.b, t.a, t.b].contains(&z);
                            if exact || is_end && (s.is_point() || on_end(s, t)) {
                                ensure!(c == co(z, e), "{}", bad());
                            }
                        } else if !exact {
                            // well-conditioned crossings are accurate
                            let (u, w) = (p(s.b.x - s.a.x, s.b.y - s.a.y), p(t.b.x - t.a.x, t.b.y - t.a.y));
                            let n = |q: P| ((q.x as f64).powi(2) + (q.y as f64).powi(2)).sqrt();
                            let sin = ((u.x as f64 * w.y as f64 - u.y as f64 * w.x as f64) / (n(u) * n(w))).abs();
                            if sin > 0.02 {
                                let sc = 2f64.powi(e);
                                let (gx, gy) = (c.x.to_f64().unwrap() / sc, c.y.to_f64().unwrap() / sc);
                                let (wx, wy) = (x as f64 / d as f64, y as f64 / d as f64);
                                let big = [s.a, s.b, t.a, t.b].iter().map(|q| n(*q)).fold(0., f64::max);
                                let tol = big * 1e-9 + 1e-300;
                                ensure!((gx - wx).abs() <= tol && (gy - wy).abs() <= tol, "{} = ({wx}, {wy})", bad());
                            }
                        }
                    }
                    (Some(LineOrPoint::Line(a, b)), Isec::Overlap(x, y)) => {
                        ensure!(a.coord() == co(x, e) && b.coord() == co(y, e), "{}", bad());
                    }
                    _ => return Err(bad()),
                }
                Ok(())
            };
            let got = sut("intersect_line", || l.intersect_line(&m))?;
            check("intersection", &got)?;
            if !ordered && l.is_line() {
                // not representable: may still not precede the first line's start
                // (with debug assertions, giving up is the documented limit)
                match sut("intersect_line_ordered", || l.intersect_line_ordered(&m)) {
                    Ok(Some(LineOrPoint::Point(q))) => {
                        ensure!(q >= sp(s.lo(), e), "ordered intersection of {} with {} (x 2^{e}) is {q:?}, before the first line", show(s), show(t));
                        ctx.add("ordered_observed", 1);
                        if let Some(LineOrPoint::Point(g)) = got {
                            ctx.add("ordered_nudged", (g != q) as u64);
                        }
                    }
                    Ok(r) => ensure!(r.is_some() == got.is_some(), "ordered and plain intersection of {} with {} (x 2^{e}) disagree", show(s), show(t)),
                    Err(m) => {
                        ensure!(cfg!(debug_assertions) && m.contains("not in total-order"), "{m}");
                        ctx.add("ordered_gave_up", 1);
                    }
                }
            }
            if ordered && l.is_line() {
                let got = sut("intersect_line_ordered", || l.intersect_line_ordered(&m))?;
                check("ordered intersection", &got)?;
            }
            ctx.add(
                match want {
                    Isec::None => "intersections_none",
                    Isec::Pt(..) => "intersections_point",
                    Isec::Overlap(..) => "intersections_overlap",
                },
                1,
            );
        }
    }
    Ok(())
}
/// Do the two lines meet in an end of one of them?
fn on_end(s: &Seg, t: &Seg) -> bool {
    on_seg(s, t.a) || on_seg(s, t.b) || on_seg(t, s.a) || on_seg(t, s.b)
}

fn run<T: Mc + GeoNum>(ctx: &mut Ctx, v: &[Seg], e: i32) -> Verdict {
    basics::<T>(ctx, v, e)
}

pub fn c16(ctx: &mut Ctx, rng: &mut Rng, case: u64) -> Verdict {
    let kind = case % 6;
    let n = 3 + rng.usize(10);
    let (v, e): (Vec<Seg>, i32) = match kind {
        0 | 1 => {
            let dirs = *rng.pick(&[OCT, DIR8]);
            let k = rng.range(2, 9);
            (lattice(rng, dirs, n, k, true), if rng.chance(1, 2) { 0 } else { rng.range(-20, 20) as i32 })
        }
        2 => {
            let k = *rng.pick(&[2i64, 5, 20, 500]);
            let mut q = || p(rng.range(-k, k), rng.range(-k, k));
            ((0..n).map(|_| Seg { a: q(), b: q() }).collect(), 0)
        }
        5 => {
            // small figures under a large unimodular map: differences far
            // below the rounding of the products they come from
            let k = *rng.pick(&[1i64, 2, 4, 12]);
            let bits = *rng.pick(&[4i64, 8, 11, 15, 19, 23]);
            let f = shear(rng, bits);
            let mut q = || f(p(rng.range(-k, k), rng.range(-k, k)));
            ((0..n).map(|_| Seg { a: q(), b: q() }).collect(), if rng.chance(1, 2) { 0 } else { rng.range(-40, 20) as i32 })
        }
        4 => {
            // abscissae a few units in the last place apart
            let o = if rng.chance(1, 2) { 1i64 << 52 } else { -(1i64 << 52) };
            let k = *rng.pick(&[3i64, 20, 1000]);
            let mut q = || p(o + rng.range(-3, 3), rng.range(-k, k));
            ((0..n).map(|_| Seg { a: q(), b: q() }).collect(), -30)
        }
        _ => (near_degenerate(rng, n), if rng.chance(1, 2) { 0 } else { rng.range(-60, 20) as i32 }),
    };
    for s in &v {
        for c in [s.a.x, s.a.y, s.b.x, s.b.y] {
            ctx.feed(c as u64);
        }
    }
    ctx.feed(e as u64);
    ctx.nontrivial = true;
    ctx.input(|| format!("coordinates x 2^{e}: {}", v.iter().map(show).collect::<Vec<_>>().join(" ")));
    let nz = if rng.chance(1, 4) { rng.u64() | 1 } else { 0 };
    NZ.with(|n| n.set(nz));
    if nz != 0 {
        ctx.add("cases_signed_zeros", 1);
    }
    let big = v.iter().flat_map(|s| [s.a.x, s.a.y, s.b.x, s.b.y]).map(|c| c.abs()).max().unwrap();
    run::<f64>(ctx, &v, e)?;
    if big < 1 << 29 {
        run::<i64>(ctx, &v, 0)?;
    }
    if big < 1 << 13 {
        run::<i32>(ctx, &v, 0)?;
    }
    if big < 1 << 23 {
        run::<f32>(ctx, &v, e)?;
    }
    // beyond that the exact intersection overflows the oracle
    if big <= 1 << 40 || kind == 4 {
        intersections::<f64>(ctx, &v, e, kind < 2, kind < 2)?;
    }
    if kind < 2 && big < 1 << 11 {
        intersections::<f32>(ctx, &v, e, false, false)?;
    }
    Ok(())
}
