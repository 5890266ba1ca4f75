//! Monitors for the scan-line cursor: C11 (trapezoids), C12 (rasterisation).
use crate::bops::show_ring;
use crate::ctx::*;
use crate::ensure;
use crate::exact::*;
use crate::mono::*;
use crate::poly::*;
use crate::rng::Rng;
use crate::segs::Sc;
use geo::{Coordinate, LineString};
use geo_crossings::monotone::{MonoPoly, Trapz};

type F = (f64, f64);

struct Piece {
    top: Vec<F>,
    bot: Vec<F>,
    ring: Vec<F>,
    area: f64,
    x: (f64, f64),
    y: (f64, f64),
    eps: f64,
}

/// A piece from the decomposition of a random polygon, or built directly.
fn gen_piece(ctx: &mut Ctx, rng: &mut Rng) -> Option<(Vec<P>, Vec<P>, &'static str)> {
    if rng.chance(1, 2) {
        let (t, b) = gen_chains(rng, true);
        return Some((t, b, "direct"));
    }
    let mut c = gen_mono(rng, ctx.thorough);
    c.ty = 0;
    c.e = 0;
    let ps = pieces_of(&c).ok()?;
    let (t, b) = ps[rng.usize(ps.len())].clone();
    Some((t, b, "decomposed"))
}

fn poly_area(pts: &[F]) -> f64 {
    let o = pts[0];
    let mut s = 0.;
    for i in 0..pts.len() {
        let (a, b) = (pts[i], pts[(i + 1) % pts.len()]);
        s += (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0);
    }
    s.abs() / 2.
}
fn clip(pts: &[F], f: impl Fn(F) -> f64) -> Vec<F> {
    let mut o = vec![];
    for i in 0..pts.len() {
        let (a, b) = (pts[i], pts[(i + 1) % pts.len()]);
        let (fa, fb) = (f(a), f(b));
        if fa >= 0. {
            o.push(a);
        }
        if (fa > 0. && fb < 0.) || (fa < 0. && fb > 0.) {
            let t = fa / (fa - fb);
            o.push((a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)));
        }
    }
    o
}
/// Area of the polygon within a box, by Sutherland-Hodgman clipping.
fn cell(pts: &[F], x0: f64, x1: f64, y0: f64, y1: f64) -> f64 {
    if x1 <= x0 || y1 <= y0 {
        return 0.;
    }
    let mut v = pts.to_vec();
    for f in [&(|q: F| q.0 - x0) as &dyn Fn(F) -> f64, &|q: F| x1 - q.0, &|q: F| q.1 - y0, &|q: F| y1 - q.1] {
        if v.len() < 3 {
            return 0.;
        }
        v = clip(&v, f);
    }
    if v.len() < 3 {
        0.
    } else {
        poly_area(&v)
    }
}

/// Extremes of a chain over the slab `[a, b]` (one-sided limits at its ends).
fn extremes(c: &[F], a: f64, b: f64) -> (f64, f64) {
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for w in c.windows(2) {
        let (p, q) = (w[0], w[1]);
        let (l, r) = (p.0.max(a), q.0.min(b));
        if l >= r {
            continue;
        }
        for x in [l, r] {
            let y = if x == p.0 {
                p.1
            } else if x == q.0 {
                q.1
            } else {
                p.1 + (x - p.0) / (q.0 - p.0) * (q.1 - p.1)
            };
            lo = lo.min(y);
            hi = hi.max(y);
        }
    }
    (lo, hi)
}
/// Chain height in the open slab, at `x`.
fn height(c: &[F], x: f64, from_right: bool) -> f64 {
    let k = c.partition_point(|v| if from_right { v.0 <= x } else { v.0 < x });
    if k == 0 || k == c.len() {
        return f64::NAN;
    }
    let (p, q) = (c[k - 1], c[k]);
    p.1 + (x - p.0) / (q.0 - p.0) * (q.1 - p.1)
}

/// The heights a chain takes at `x`.
fn at(c: &[F], x: f64) -> (f64, f64) {
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for w in c.windows(2) {
        let (p, q) = (w[0], w[1]);
        if x < p.0 || x > q.0 {
            continue;
        }
        let ys = if p.0 == q.0 { [p.1, q.1] } else { [p.1 + (x - p.0) / (q.0 - p.0) * (q.1 - p.1); 2] };
        for y in ys {
            lo = lo.min(y);
            hi = hi.max(y);
        }
    }
    (lo, hi)
}

/// Strictly increasing cuts; never within rounding of a vertex abscissa
/// unless equal to it.
fn cuts(rng: &mut Rng, lo: f64, hi: f64, verts: &[f64], n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = match rng.below(4) {
        0 => (0..=n).map(|i| lo + (hi - lo) * i as f64 / n as f64).collect(),
        1 => (0..=n).map(|_| if rng.chance(1, 2) { *rng.pick(verts) } else { lo + (hi - lo) * rng.f64() }).collect(),
        2 => vec![lo, hi],
        _ => (0..=n).map(|_| lo + (hi - lo) * rng.f64()).collect(),
    };
    let tol = 1e-5 * (hi - lo).max(verts[verts.len() - 1] - verts[0]);
    for x in v.iter_mut() {
        if let Some(w) = verts.iter().find(|w| (*w - *x).abs() < tol) {
            *x = *w;
        }
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut out: Vec<f64> = vec![];
    for x in v {
        if out.last().map_or(true, |l| x - l > tol) {
            out.push(x);
        }
    }
    out
}

fn window(rng: &mut Rng, lo: f64, hi: f64, ctx: &mut Ctx) -> (f64, f64) {
    let w = hi - lo;
    match rng.below(8) {
        0 | 1 => {
            ctx.add("windows_exact", 1);
            (lo, hi)
        }
        2 | 3 => {
            ctx.add("windows_larger", 1);
            (lo - rng.f64() * w, hi + rng.f64() * w)
        }
        4 | 5 => {
            ctx.add("windows_inside", 1);
            (lo + 0.5 * rng.f64() * w, hi - 0.4 * rng.f64() * w)
        }
        6 => {
            ctx.add("windows_overlapping", 1);
            if rng.chance(1, 2) {
                (lo - (0.1 + rng.f64()) * w, lo + (0.1 + 0.8 * rng.f64()) * w)
            } else {
                (lo + (0.1 + 0.8 * rng.f64()) * w, hi + (0.1 + rng.f64()) * w)
            }
        }
        _ => {
            ctx.add("windows_outside", 1);
            if rng.chance(1, 2) {
                (lo - 2. * w, lo - (0.1 + rng.f64()) * w)
            } else {
                (hi + (0.1 + rng.f64()) * w, hi + 3. * w)
            }
        }
    }
}

fn setup<T: Sc>(ctx: &mut Ctx, rng: &mut Rng, e: i32) -> Option<Result<(MonoPoly<T>, Piece), String>> {
    let (t, b, fam) = gen_piece(ctx, rng)?;
    let s = 2f64.powi(e);
    let f = |c: &[P]| -> Vec<F> { c.iter().map(|q| (q.x as f64 * s, q.y as f64 * s)).collect() };
    if t.iter().chain(b.iter()).any(|q| q.x.abs() > 1 << 20 || q.y.abs() > 1 << 20) || t[0].x == t[t.len() - 1].x {
        return None;
    }
    let (top, bot) = (f(&t), f(&b));
    let mut ring = top.clone();
    ring.extend(bot[1..bot.len() - 1].iter().rev());
    let area = poly_area(&ring);
    let mm = |g: fn(&F) -> f64| -> (f64, f64) { (ring.iter().map(g).fold(f64::INFINITY, f64::min), ring.iter().map(g).fold(f64::NEG_INFINITY, f64::max)) };
    let (x, y) = (mm(|q| q.0), mm(|q| q.1));
    // absolute error of an area, from rounding of coordinates of this size
    let big = x.0.abs().max(x.1.abs()).max(y.0.abs()).max(y.1.abs());
    let rel = T::epsilon().to() * 2e4;
    let eps = rel * big * ((x.1 - x.0) + (y.1 - y.0));
    for v in t.iter().chain(b.iter()) {
        ctx.feed(v.x as u64);
        ctx.feed(v.y as u64);
    }
    ctx.feed(e as u64);
    ctx.nontrivial = true;
    ctx.add(if fam == "direct" { "pieces_direct" } else { "pieces_decomposed" }, 1);
    ctx.add("chain_vertices", (t.len() + b.len()) as u64);
    ctx.max("max_chain_vertices", t.len().max(b.len()) as u64);
    ctx.input(|| format!("[{fam}] top {} bot {} x 2^{e}", show_ring(&t), show_ring(&b)));
    let nz = rng.chance(1, 4);
    if nz {
        ctx.add("cases_signed_zeros", 1);
    }
    let ls = |c: &[F], rng: &mut Rng| {
        let mut z = |v: f64| if nz && v == 0. && rng.chance(1, 2) { -T::zero() } else { T::of(v) };
        LineString(c.iter().map(|q| Coordinate { x: z(q.0), y: z(q.1) }).collect::<Vec<_>>())
    };
    let (lt, lb) = (ls(&top, rng), ls(&bot, rng));
    let m = sut("MonoPoly::new", || MonoPoly::new(lt, lb));
    Some(m.map(|m| (m, Piece { top, bot, ring, area, x, y, eps })))
}

fn close(a: f64, b: f64, eps: f64) -> bool {
    (a - b).abs() <= eps
}

fn c11_ty<T: Sc>(ctx: &mut Ctx, rng: &mut Rng, e: i32) -> Verdict {
    let (m, pc) = match setup::<T>(ctx, rng, e) {
        Some(r) => r?,
        None => return Ok(()),
    };
    let (lx, hx) = pc.x;
    let mut vx: Vec<f64> = pc.ring.iter().map(|q| q.0).collect();
    vx.sort_by(|a, b| a.partial_cmp(b).unwrap());
    vx.dedup();
    let (left, right) = window(rng, lx, hx, ctx);
    let n = 1 + rng.usize(12);
    let cs = cuts(rng, left, right, &vx, n);
    // the scalar's own values
    let cs: Vec<T> = cs.iter().map(|c| T::of(*c)).collect();
    let api = rng.below(4);
    ctx.input(|| format!("scan from {:?} to {:?} via interface {api}", cs[0], &cs[1..]));
    ctx.feed(api);
    for c in &cs {
        ctx.feed(c.to().to_bits());
    }
    let ytol = |x: f64| -> f64 {
        // rounding of a height on the steepest edge nearby
        let _ = x;
        T::epsilon().to() * 64. * (pc.y.0.abs().max(pc.y.1.abs()) + (pc.y.1 - pc.y.0))
            + pc.top.windows(2).chain(pc.bot.windows(2)).filter(|w| w[1].0 > w[0].0).map(|w| ((w[1].1 - w[0].1) / (w[1].0 - w[0].0)).abs()).fold(0., f64::max)
                * T::epsilon().to() * 16. * (pc.x.0.abs().max(pc.x.1.abs()))
    };
    let tol = ytol(0.);
    let mut sc = sut("scan_lines", || m.scan_lines(cs[0]))?;
    let mut px = cs[0].to().max(lx).min(hx);
    ensure!(sc.curr().x.to() == px, "after scan_lines({:?}) the cursor is at {:?}, expected {px}", cs[0], sc.curr());
    let mut total = 0.;
    for (i, &c) in cs.iter().enumerate().skip(1) {
        let from = px;
        let until = c.to();
        let mut out: Vec<Trapz<T>> = vec![];
        let partial = api == 1 && rng.chance(1, 4);
        sut("advance", || match api {
            0 => out.extend(sc.advance_to(c)),
            1 => {
                // an interrupted iteration resumes where it stopped
                if partial {
                    out.extend(sc.advance_to(c).take(1));
                }
                out.extend(sc.advance_to(c));
            }
            3 => {
                // not item by item
                let mut it = sc.advance_to(c);
                let (lo, hi) = it.size_hint();
                out.extend(it.nth(0));
                out.extend(it.next());
                let out = it.fold(&mut out, |o, t| {
                    o.push(t);
                    o
                });
                assert!(lo <= out.len() && hi.map_or(true, |h| h >= out.len()), "size_hint ({lo}, {hi:?}) of {} trapezoids", out.len());
            }
            2 if i % 2 == 0 => sc.advance_upto(c, |t| out.push(t)),
            _ => {
                let mut steps = 0;
                while sc.curr().x < c {
                    steps += 1;
                    assert!(steps < 100_000, "advance_next makes no progress");
                    match sc.advance_next(c) {
                        Some(Some(t)) => out.push(t),
                        Some(None) => {}
                        None => break,
                    }
                }
            }
        })?;
        for t in &out {
            let (l, r) = (t.left, t.right);
            ensure!(l.x.to() == px, "gap or overlap: trapezoid {t:?} follows x = {px}");
            ensure!(l.x < r.x && r.x.to() <= until, "trapezoid {t:?} is empty or reaches beyond {until}");
            ensure!(vx.get(vx.partition_point(|v| *v <= l.x.to())).map_or(true, |v| *v >= r.x.to()), "a vertex lies strictly inside trapezoid {t:?}");
            for (what, got, want) in [
                ("left top", l.top.to(), height(&pc.top, l.x.to(), true)),
                ("left bottom", l.bot.to(), height(&pc.bot, l.x.to(), true)),
                ("right top", r.top.to(), height(&pc.top, r.x.to(), false)),
                ("right bottom", r.bot.to(), height(&pc.bot, r.x.to(), false)),
            ] {
                ensure!(close(got, want, tol), "{what} of trapezoid {t:?}: {got}, the chain is at {want}");
            }
            let a = sut("area", || t.area())?.to();
            let want = (l.top.to() - l.bot.to() + r.top.to() - r.bot.to()) / 2. * (r.x.to() - l.x.to());
            ensure!(close(a, want, pc.eps), "area of {t:?} is {a}, not {want}");
            total += a;
            px = r.x.to();
            ctx.add("trapezoids_observed", 1);
        }
        let want = until.max(from).min(hx).max(lx);
        ensure!(px == want || (out.is_empty() && want == from), "scan to {until} stopped at {px}, expected {want}");
        if out.last().map_or(false, |t| t.right.x.to() == want) || want == hx {
            // the cursor itself rests on both chains
            let cur = sc.curr();
            for (what, c, y) in [("top", &pc.top, cur.top.to()), ("bottom", &pc.bot, cur.bot.to())] {
                let (lo, hi) = at(c, want);
                ensure!(y >= lo - tol && y <= hi + tol, "the cursor {cur:?} is off the {what} chain, which is at [{lo}, {hi}] there");
            }
            ctx.add("cursors_observed", 1);
        }
        ensure!(sc.curr().x.to() == want, "after advancing to {until} the cursor is at {:?}, expected x = {want}", sc.curr());
    }
    let e = cell(&pc.ring, cs[0].to(), cs[cs.len() - 1].to(), f64::NEG_INFINITY, f64::INFINITY);
    ensure!(close(total, e, pc.eps), "trapezoids over [{:?}, {:?}] add up to {total}, the piece has {e} there", cs[0], cs[cs.len() - 1]);
    if cs[0].to() <= lx && cs[cs.len() - 1].to() >= hx {
        ensure!(close(total, pc.area, pc.eps), "trapezoids add up to {total}, the piece's area is {}", pc.area);
        ctx.add("full_scans", 1);
    }
    Ok(())
}

pub fn c11(ctx: &mut Ctx, rng: &mut Rng, case: u64) -> Verdict {
    let e = if case % 3 == 2 { crate::segs::exponent(rng, 8, 25) } else { crate::segs::exponent(rng, 30, 150) };
    if case % 3 == 2 {
        ctx.add("scalar_f32", 1);
        c11_ty::<f32>(ctx, rng, e)
    } else {
        c11_ty::<f64>(ctx, rng, e)
    }
}

fn c12_ty<T: Sc>(ctx: &mut Ctx, rng: &mut Rng, e: i32) -> Verdict {
    let (m, pc) = match setup::<T>(ctx, rng, e) {
        Some(r) => r?,
        None => return Ok(()),
    };
    let (lx, hx) = pc.x;
    let mut vx: Vec<f64> = pc.ring.iter().map(|q| q.0).collect();
    vx.sort_by(|a, b| a.partial_cmp(b).unwrap());
    vx.dedup();
    let (left, right) = window(rng, lx, hx, ctx);
    let n = 1 + rng.usize(10);
    let cs: Vec<T> = cuts(rng, left, right, &vx, n).iter().map(|c| T::of(*c)).collect();
    let (c0, c1) = window(rng, pc.y.0, pc.y.1, ctx);
    let (cmin, cmax) = (T::of(c0), T::of(c1));
    let (c0, c1) = (cmin.to(), cmax.to());
    let many = rng.below(40_000);
    let rows = match rng.below(4) {
        // more than 8, and more than 16 bits count
        _ if many == 0 && pc.ring.len() < 60 => 65_600 + rng.usize(3000),
        _ if many < 30 && pc.ring.len() < 600 => 257 + rng.usize(800),
        0 => 1,
        1 => 1 + rng.usize(4),
        _ => 1 + rng.usize(24),
    };
    let kind = rng.below(3);
    ctx.feed(kind);
    ctx.feed(rows as u64);
    for c in &cs {
        ctx.feed(c.to().to_bits());
    }
    ctx.feed(c0.to_bits());
    ctx.input(|| {
        format!(
            "{} from x = {:?} over columns ending at {:?}, {rows} rows over y in [{cmin:?}, {cmax:?}]",
            ["cross_area", "cross_bounds", "cross_ubounds"][kind as usize],
            cs[0],
            &cs[1..]
        )
    });
    ctx.max("max_rows", rows as u64);
    let hrow = (c1 - c0) / rows as f64;
    let mut sc = sut("scan_lines", || m.scan_lines(cs[0]))?;
    let mut from = cs[0].to();
    let mut sum = 0.;
    // rounding of a height, for the row an extreme falls into
    let ytol = 1e4 * T::epsilon().to() * (pc.y.0.abs().max(pc.y.1.abs()) + c0.abs().max(c1.abs()) + (pc.y.1 - pc.y.0))
        + pc.top.windows(2).chain(pc.bot.windows(2)).filter(|w| w[1].0 > w[0].0).map(|w| ((w[1].1 - w[0].1) / (w[1].0 - w[0].0)).abs()).fold(0., f64::max)
            * T::epsilon().to() * 16. * (lx.abs().max(hx.abs()));
    for &c in &cs[1..] {
        let to = c.to();
        let (a, b) = (from.max(lx), to.min(hx));
        match kind {
            0 => {
                let base = if rng.chance(1, 2) { 0. } else { T::of(pc.area * 0.25).to() };
                let mut arr = vec![T::of(base); rows];
                sut("cross_area", || sc.cross_area(c, cmin, cmax, &mut arr))?;
                for (j, v) in arr.iter().enumerate() {
                    let (y0, y1) = (c0 + hrow * j as f64, c0 + hrow * (j + 1) as f64);
                    let want = cell(&pc.ring, from, to, y0, y1);
                    let got = v.to() - base;
                    // moving a row boundary by its rounding error
                    let eps = 2. * pc.eps + 4. * ytol * (to - from).abs();
                    ensure!(close(got, want, eps), "column [{from}, {to}] row {j} [{y0}, {y1}]: area {got}, exact {want}");
                    sum += got;
                    ctx.add("cells_observed", 1);
                    ctx.add("cells_nonempty", (want > 0.) as u64);
                }
            }
            1 | _ => {
                let (blo, bhi) = extremes(&pc.bot, a, b);
                let (tlo, thi) = extremes(&pc.top, a, b);
                let (none, near) = if a >= b {
                    (true, false)
                } else {
                    // nothing but a flat line counts as empty too
                    (thi <= c0 || blo >= c1 || thi <= blo, (thi - c0).abs() <= ytol || (blo - c1).abs() <= ytol || thi - blo <= 2. * ytol)
                };
                // the rows reached by [lo, hi] within the window
                let row = |y: f64| -> (usize, usize) {
                    let f = |y: f64| (((y - c0) / hrow).floor().max(0.) as usize).min(rows - 1);
                    (f(y - ytol), f(y + ytol))
                };
                let check = |jmin: usize, jmax: usize| -> Verdict {
                    let (l0, l1) = row(blo.max(c0));
                    let (h0, h1) = row(thi.min(c1));
                    ensure!(
                        jmin >= l0 && jmin <= l1 && jmax >= h0 && jmax <= h1,
                        "column [{from}, {to}] spans y in [{blo}, {thi}]: rows {jmin}..={jmax} reported, expected {l0}..={h1}"
                    );
                    Ok(())
                };
                ctx.add("bounds_observed", 1);
                if kind == 1 {
                    match sut("cross_bounds", || sc.cross_bounds(c, cmin, cmax, rows))? {
                        None => ensure!(none || near, "column [{from}, {to}] spans y in [{blo}, {thi}], reported as empty"),
                        Some((jmin, jmax, bm, tm)) => {
                            ensure!(!none || near, "column [{from}, {to}] does not meet the window (y in [{blo}, {thi}]), rows {jmin}..={jmax} reported");
                            if !none {
                                check(jmin, jmax)?;
                                ensure!(
                                    close(bm.to(), bhi, ytol) && close(tm.to(), tlo, ytol),
                                    "column [{from}, {to}]: highest bottom {bm:?}, lowest top {tm:?}; exact {bhi}, {tlo}"
                                );
                                ctx.add("bounds_nonempty", 1);
                            }
                        }
                    }
                } else {
                    let (jmin, jmax) = sut("cross_ubounds", || sc.cross_ubounds(c, cmin, cmax, rows))?;
                    if jmin == rows && jmax == 0 {
                        ensure!(none || near, "column [{from}, {to}] spans y in [{blo}, {thi}], reported as empty");
                    } else {
                        ensure!(!none || near, "column [{from}, {to}] does not meet the window (y in [{blo}, {thi}]), rows {jmin}..={jmax} reported");
                        if !none {
                            check(jmin, jmax)?;
                            ctx.add("bounds_nonempty", 1);
                        }
                    }
                }
            }
        }
        let want = to.max(from).min(hx).max(lx);
        ensure!(sc.curr().x.to() == want, "after the column up to {to} the cursor is at {:?}, expected x = {want}", sc.curr());
        from = to;
    }
    if kind == 0 && cs[0].to() <= lx && cs[cs.len() - 1].to() >= hx && c0 <= pc.y.0 && c1 >= pc.y.1 {
        ensure!(close(sum, pc.area, pc.eps * 4. * (rows * cs.len()) as f64), "cells add up to {sum}, area {}", pc.area);
        ctx.add("full_rasters", 1);
    }
    Ok(())
}

pub fn c12(ctx: &mut Ctx, rng: &mut Rng, case: u64) -> Verdict {
    let e = if case % 3 == 2 { crate::segs::exponent(rng, 8, 25) } else { crate::segs::exponent(rng, 30, 150) };
    if case % 3 == 2 {
        ctx.add("scalar_f32", 1);
        c12_ty::<f32>(ctx, rng, e)
    } else {
        c12_ty::<f64>(ctx, rng, e)
    }
}
