//! C20: boolean operations, the monotone sweep and scans do work near-linear in
//! their input (and the crossings in it), counted as in C18.
use crate::bops::{edges, show_mp, show_ring, OPS};
use crate::cost::pairs;
use crate::ctx::*;
use crate::ensure;
use crate::exact::*;
use crate::mono::spiral;
use crate::poly::*;
use crate::rng::Rng;
use crate::wf::{self, W};
use geo::{Coordinate, LineString, MultiPolygon, Polygon};
use geo_crossings::monotone::MonoPoly;
use geo_crossings::{BooleanOp, MonotoneSweep};

/// One input in so many has tens of thousands of edges.
const HUGE: u64 = 150;

/// Work allowed per unit, by size: about four times what is needed.
fn allowed(what: usize, n: u64) -> f64 {
    let i = match n {
        0..=255 => 0,
        256..=1023 => 1,
        1024..=9_999 => 2,
        _ => 3,
    };
    [
        [450., 400., 340., 280.],
        [120., 120., 120., 100.],
        [150., 150., 140., 90.],
    ][what][i]
}

fn w(q: P) -> Coordinate<W> {
    Coordinate { x: W(q.x as f64), y: W(q.y as f64) }
}
fn ls(r: &Ring, close: bool) -> LineString<W> {
    let mut v: Vec<_> = r.iter().map(|&q| w(q)).collect();
    if close && !v.is_empty() {
        v.push(v[0]);
    }
    LineString(v)
}
fn poly(q: &Poly) -> Polygon<W> {
    Polygon::new(ls(&q.ext, true), q.holes.iter().map(|h| ls(h, true)).collect())
}

fn rect(x: i64, y: i64, dx: i64, dy: i64) -> Ring {
    vec![p(x, y), p(x + dx, y), p(x + dx, y + dy), p(x, y + dy)]
}
fn one(ext: Ring) -> Poly {
    Poly { ext, holes: vec![] }
}
fn diamond(x: i64, y: i64, r: i64) -> Ring {
    vec![p(x - r, y), p(x, y - r), p(x + r, y), p(x, y + r)]
}
fn shift(m: &MPoly, dx: i64, dy: i64) -> MPoly {
    map_mpoly(m, |q| p(q.x + dx, q.y + dy))
}

fn log_size(rng: &mut Rng, top: i64, huge: bool) -> i64 {
    if huge {
        return rng.range(10_000, 40_000);
    }
    let (lo, hi) = (8f64.ln(), (top as f64).ln());
    (lo + rng.f64() * (hi - lo)).exp() as i64
}

/// Two operands with about n edges whose crossings all lie on the lattice.
fn operands(rng: &mut Rng, n: i64) -> (&'static str, MPoly, MPoly) {
    let tiles = |g: i64, rng: &mut Rng, den: u64| -> MPoly {
        let mut v = vec![];
        for i in 0..g {
            for j in 0..g {
                if rng.chance(den, 8) {
                    v.push(one(rect(4 * i, 4 * j, 2, 2)));
                }
            }
        }
        v
    };
    let near = |rng: &mut Rng| (rng.range(-3, 3), rng.range(-3, 3));
    match rng.below(11) {
        0 => {
            let g = ((n as f64 / 8.).sqrt() as i64).max(1);
            let a = tiles(g, rng, 7);
            let (dx, dy) = near(rng);
            let b = shift(&tiles(g, rng, 7), dx, dy);
            ("tiles", a, b)
        }
        1 => {
            // rings within rings
            let m = (n / 16).max(1);
            let mk = |o: i64| -> MPoly {
                (0..m)
                    .map(|i| {
                        let (r, h) = (8 * i + 6 + o, 8 * i + 3 + o);
                        Poly { ext: rect(-r, -r, 2 * r, 2 * r), holes: vec![rect(-h, -h, 2 * h, 2 * h)] }
                    })
                    .collect()
            };
            let b = match rng.below(3) {
                0 => mk(4),
                1 => vec![one(rect(-8 * m - 9, 0, 16 * m + 18, 1))],
                _ => shift(&mk(0), 0, if m < 40 { 1 } else { 0 }),
            };
            ("nested", mk(0), b)
        }
        2 => {
            let m = (n / 4).max(2);
            let a = (0..m).map(|i| one(rect(rng.range(-50, 0), 3 * i, rng.range(60, 400), 2))).collect();
            let b = (0..rng.range(1, 3)).map(|i| one(rect(20 * i, -1, 7, 3 * m + 2))).collect();
            ("bars", a, b)
        }
        3 => {
            let m = (n / 4).max(2);
            let mut r = vec![p(0, 0)];
            for i in 0..m {
                let t = rng.range(5, 300);
                r.extend([p(4 * i + 2, 0), p(4 * i + 2, t), p(4 * i + 4, t), p(4 * i + 4, 0)]);
            }
            r.extend([p(4 * m + 9, 0), p(4 * m + 9, -5), p(0, -5)]);
            let (y, h) = (rng.range(-3, 100), rng.range(1, 100));
            ("comb", vec![one(r)], vec![one(rect(-3, y, 4 * m + 20, h))])
        }
        4 => {
            let g = ((n as f64 / 8.).sqrt() as i64).max(1);
            let holes = tiles(g, rng, 6).into_iter().map(|q| q.ext).collect();
            let a = vec![Poly { ext: rect(-9, -9, 4 * g + 20, 4 * g + 20), holes }];
            let (dx, dy) = near(rng);
            let b = shift(&tiles(g, rng, 6), dx, dy);
            ("holes", a, b)
        }
        5 => {
            let m = (n / 4).max(2);
            let mut r = vec![p(0, -5)];
            for i in 0..m {
                r.extend([p(3 * i + 3, 2 * i - 5), p(3 * i + 3, 2 * i - 3)]);
            }
            r.push(p(3 * m, 2 * m));
            for i in (0..m).rev() {
                r.extend([p(3 * i, 2 * i + 2), p(3 * i, 2 * i)]);
            }
            let a = vec![one(r)];
            let (dx, dy) = near(rng);
            let b = shift(&a, dx, dy);
            ("stairs", a, b)
        }
        6 => {
            let g = ((n as f64 / 8.).sqrt() as i64).max(1);
            let mut a = vec![];
            for i in 0..g {
                for j in 0..g {
                    a.push(one(diamond(8 * i, 8 * j, 2 * rng.range(1, 2))));
                }
            }
            let (dx, dy) = near(rng);
            let b = shift(&a, 2 * dx, 2 * dy);
            ("diamonds", a, b)
        }
        7 => {
            // zigzag tops
            let m = (n / 4).max(2);
            let h = 2 * rng.range(1, 50);
            let mut r: Ring = (0..=2 * m).map(|i| p(h * i, if i % 2 == 0 { 0 } else { h })).collect();
            r.extend([p(2 * m * h, -2 * h), p(0, -2 * h)]);
            let a = vec![one(r)];
            let (dx, dy) = near(rng);
            let b = if rng.chance(1, 2) {
                shift(&a, 2 * dx, 2 * dy)
            } else {
                shift(&map_mpoly(&a, |q| p(q.x, -q.y)), 2 * dx, 2 * dy)
            };
            ("zigzag", a, b)
        }
        8 => {
            // all disjoint, all active at once
            let m = (n / 8).max(1);
            let mk = |o: i64, rng: &mut Rng| (0..m).map(|i| one(rect(-rng.range(1, n), 6 * i + o, 2 * n, 1))).collect::<MPoly>();
            ("stack", mk(0, rng), mk(3, rng))
        }
        9 => {
            // one vertex shared by all
            let m = (n / 3).max(2).min(400);
            let a: MPoly = (0..m).map(|i| one(vec![p(0, 0), p(4096, 8 * (2 * i - m)), p(4096, 8 * (2 * i + 1 - m))])).collect();
            let b = match rng.below(3) {
                0 => vec![],
                1 => map_mpoly(&a, |q| p(-q.x, q.y)),
                _ => a.clone(),
            };
            ("fan", a, b)
        }
        _ => {
            // corner to corner
            let m = (n / 8).max(1);
            let a: MPoly = (0..m).map(|i| one(rect(2 * i, 2 * i, 2, 2))).collect();
            let b = shift(&a, 2 * rng.range(-1, 1), 2 * rng.range(-1, 1));
            ("corners", a, b)
        }
    }
}

/// Quarter turns and mirrors, other starts and orders.
fn turn(rng: &mut Rng, ms: &mut [&mut MPoly]) {
    let (sw, sx, sy) = (rng.chance(1, 2), rng.chance(1, 2), rng.chance(1, 2));
    let order = rng.below(3);
    for m in ms.iter_mut() {
        **m = map_mpoly(m, |q| {
            let q = if sw { p(q.y, q.x) } else { q };
            p(if sx { -q.x } else { q.x }, if sy { -q.y } else { q.y })
        });
        match order {
            0 => {}
            1 => m.reverse(),
            _ => rng.shuffle(m),
        }
        for q in m.iter_mut() {
            for r in std::iter::once(&mut q.ext).chain(q.holes.iter_mut()) {
                let k = rng.usize(r.len());
                r.rotate_left(k);
                if rng.chance(1, 4) {
                    r.reverse();
                }
            }
        }
    }
}

/// A valid polygon with about n vertices.
fn polygon(rng: &mut Rng, n: i64) -> (&'static str, Poly) {
    match rng.below(5) {
        0 => {
            // two ragged sides
            let mut top: Ring = (0..n / 2).map(|i| p(2 * i + rng.range(0, 1), if i % 2 == 0 { rng.range(1, 999) } else { rng.range(1000, 5000) })).collect();
            let bot: Ring = (0..n / 2).map(|i| p(2 * i + rng.range(0, 1), -if rng.chance(1, 2) { rng.range(1, 999) } else { rng.range(1000, 5000) })).collect();
            top.reverse();
            top.extend(bot);
            ("ragged", one(top))
        }
        1 => {
            let g = ((n as f64 / 4.).sqrt() as i64).max(1);
            let mut holes = vec![];
            for i in 0..g {
                for j in 0..g {
                    let (x, y) = (8 * i, 8 * j);
                    match rng.below(6) {
                        0 => {}
                        1 => holes.push(rect(x + 1, y + 1, 3, 4)),
                        2 => holes.push(diamond(x + 4, y + 4, 3)),
                        3 => holes.push(vec![p(x, y), p(x + 5, y + 3), p(x + 1, y + 6)]),
                        4 => holes.push(vec![p(x, y), p(x + 3, y + 2), p(x + 6, y), p(x + 3, y + 5)]),
                        _ => holes.push(vec![p(x + rng.range(0, 2), y), p(x + 6, y + rng.range(2, 5)), p(x + 5, y + 6)]),
                    }
                }
            }
            rng.shuffle(&mut holes);
            ("holes", Poly { ext: rect(-3, -5, 8 * g + 6, 8 * g + 9), holes })
        }
        2 => {
            // slanted teeth, all active at once
            let m = n / 2;
            let s = rng.range(-3, 3);
            let mut r = vec![];
            for i in 0..m {
                let (t, u) = (rng.range(100, 900), rng.range(-9, 9));
                r.push(p(u, 10 * i));
                r.push(p(t, 10 * i + 5 + rng.range(-2, 2)));
            }
            r.push(p(rng.range(-9, 9), 10 * m));
            r.extend([p(-50, 10 * m), p(-50, -5)]);
            for q in r.iter_mut() {
                q.y += s * q.x;
            }
            ("teeth", one(r))
        }
        3 => {
            let k = (n / 2).clamp(4, 4000);
            ("spiral", one(spiral(rng, k as usize)))
        }
        _ => {
            // one strip of triangular holes
            let m = (n / 3).max(1);
            let holes: Vec<Ring> = (0..m).map(|i| vec![p(10 * i + 1, rng.range(-9, 9)), p(10 * i + 9, rng.range(-9, 9)), p(10 * i + rng.range(2, 8), 20)]).collect();
            ("row_of_holes", Poly { ext: rect(-3, -30, 10 * m + 9, 61), holes })
        }
    }
}

fn judge(ctx: &mut Ctx, which: usize, n: u64, unit: f64, budget: u64, name: &'static str, r: Result<u64, String>) -> Result<u64, String> {
    let (cm, or) = wf::counts();
    wf::reset(u64::MAX);
    let what = ["boolean operation", "monotone sweep", "scan"][which];
    let out = match r {
        Err(e) if e.contains(wf::BUDGET) => {
            return Err(format!("{what} on an input of size n={n} ({name}) did more than {budget} comparisons, for {unit:.0} units of work"))
        }
        Err(e) => return Err(e),
        Ok(o) => o,
    };
    let per = ((cm + or) as f64 / unit * 100.) as u64;
    ctx.add("comparisons", cm);
    ctx.add("orientation_tests", or);
    ctx.max(["max_percent_work_per_unit_boolean_op", "max_percent_work_per_unit_monotone_sweep", "max_percent_work_per_unit_scan"][which], per);
    ctx.max(["max_n_boolean_op", "max_n_monotone_sweep", "max_n_scan"][which], n);
    if std::env::var("COST").is_ok() {
        println!("{what} {name} n={n} per={per} cmp={cm} or={or}");
    }
    Ok(out)
}

pub fn c20(ctx: &mut Ctx, rng: &mut Rng, _c: u64) -> Verdict {
    let big = rng.chance(1, if ctx.thorough { 4 } else { 10 });
    let huge = rng.chance(1, HUGE);
    let n = log_size(rng, if big { 4000 } else { 500 }, huge);
    match rng.below(8) {
        0..=4 => {
            let (name, mut a, mut b) = operands(rng, n);
            turn(rng, &mut [&mut a, &mut b]);
            if rng.chance(1, 2) {
                std::mem::swap(&mut a, &mut b);
            }
            let mut es = edges(&a);
            es.extend(edges(&b));
            let k = match pairs(&es) {
                Some(k) => k,
                None => {
                    ctx.add("skipped_too_many_pairs_to_count", 1);
                    return Ok(());
                }
            };
            let n = es.len() as u64;
            for s in &es {
                ctx.feed(s.a.x as u64);
                ctx.feed(s.a.y as u64);
            }
            ctx.nontrivial = n >= 8;
            let op = *rng.pick(&OPS);
            ctx.input(|| format!("{op:?} {name} n={n} pairs={k}: A = {} B = {}", show_mp(&a), show_mp(&b)));
            let unit = (n + k) as f64 * ((n + k + 2) as f64).log2();
            let budget = (allowed(0, n) * unit) as u64;
            let g = |m: &MPoly| MultiPolygon(m.iter().map(poly).collect());
            let (ga, gb) = (g(&a), g(&b));
            wf::reset(budget);
            let r = sut("boolean_op", || ga.boolean_op(&gb, op).0.iter().map(|q| q.exterior().0.len() + q.interiors().iter().map(|h| h.0.len()).sum::<usize>()).sum::<usize>() as u64);
            let out = judge(ctx, 0, n, unit, budget, name, r)?;
            // every vertex is an end of a piece; a piece is in two rings at most
            ensure!(out <= 4 * (n + k) + 8, "{op:?} of {n} edges with {k} intersecting pairs ({name}) has {out} vertices");
            ctx.add("output_vertices", out);
            ctx.add("boolean_ops", 1);
            ctx.add("edges_total", n);
            ctx.add("pairs_total", k);
            ctx.add(name, 1);
        }
        5 | 6 => {
            let (name, q) = polygon(rng, n);
            let mut v = vec![q];
            turn(rng, &mut [&mut v]);
            let q = v.pop().unwrap();
            let n: u64 = poly_rings(&q).map(|r| r.len() as u64).sum();
            for v in poly_rings(&q).flatten() {
                ctx.feed(v.x as u64);
                ctx.feed(v.y as u64);
            }
            ctx.nontrivial = n >= 8;
            ctx.input(|| format!("monotone sweep {name} n={n}: {}", show_mp(&vec![q.clone()])));
            let unit = n as f64 * ((n + 2) as f64).log2();
            let budget = (allowed(1, n) * unit) as u64;
            let g = poly(&q);
            wf::reset(budget);
            let r = sut("MonotoneSweep", || {
                let mut it = Box::pin(MonotoneSweep::from_polygon(&g));
                let mut c = 0;
                while c <= 8 * n {
                    match it.next() {
                        Some(e) => c += 1 + e.links.len() as u64,
                        None => break,
                    }
                }
                c
            });
            let out = judge(ctx, 1, n, unit, budget, name, r)?;
            ensure!(out <= 8 * n, "the sweep of {n} vertices ({name}) yields over {out} events and links");
            ctx.add("events_and_links", out);
            ctx.add("monotone_sweeps", 1);
            ctx.add("vertices_total", n);
        }
        _ => {
            let width = n * rng.range(1, 3) + 3;
            let h = *rng.pick(&[2i64, 100, 10_000]);
            let mk = |rng: &mut Rng, k: i64, s: i64| -> Ring {
                let mut v: Ring = (0..k).map(|_| p(rng.range(1, width - 1), s * rng.range(1, h))).collect();
                v.extend([p(0, 0), p(width, 0)]);
                v.sort();
                v.dedup();
                v
            };
            let (ka, kb) = *rng.pick(&[(n, n), (n, 0), (0, n), (n, 9), (2, n)]);
            let (t, b) = (mk(rng, ka, 1), mk(rng, kb, -1));
            let more = huge && rng.chance(1, 2);
            let m = log_size(rng, if big { 4000 } else { 500 }, more) / 4;
            let mut cuts: Vec<i64> = (0..m).map(|_| rng.range(0, width + 2)).collect();
            cuts.sort();
            for v in t.iter().chain(b.iter()) {
                ctx.feed(v.x as u64);
                ctx.feed(v.y as u64);
            }
            let rows = *rng.pick(&[1usize, 2, 8]);
            let how = rng.below(6);
            ctx.feed(how);
            ctx.feed(m as u64);
            let n = (t.len() + b.len() + cuts.len()) as u64;
            ctx.nontrivial = n >= 8;
            ctx.input(|| format!("scan way {how} rows {rows}: top {} bot {} cuts {cuts:?}", show_ring(&t), show_ring(&b)));
            let unit = n as f64 * if how == 5 { 1. + rows as f64 } else { 1. };
            let budget = (allowed(2, n) * unit) as u64;
            let (lt, lb) = (ls(&t, false), ls(&b, false));
            let (lo, hi) = (W(-(h as f64)), W(h as f64));
            wf::reset(budget);
            let r = sut("scan", || {
                let mp = MonoPoly::new(lt, lb);
                let mut s = mp.scan_lines(W(0.));
                let mut c = 0u64;
                let mut px = vec![W(0.); rows];
                for x in cuts.iter().map(|&x| W(x as f64 + 0.5)) {
                    match how {
                        0 => c += s.advance_to(x).count() as u64,
                        1 => s.advance_upto(x, |_| c += 1),
                        2 => {
                            while s.curr().x < x {
                                match s.advance_next(x) {
                                    Some(Some(_)) => c += 1,
                                    Some(None) => {}
                                    None => break,
                                }
                            }
                        }
                        3 => c += (s.cross_ubounds(x, lo, hi, rows).0 < rows) as u64,
                        4 => c += s.cross_bounds(x, lo, hi, rows).is_some() as u64,
                        _ => {
                            s.cross_area(x, lo, hi, &mut px);
                            c += 1;
                        }
                    }
                }
                c
            });
            let out = judge(ctx, 2, n, unit, budget, "chains", r)?;
            ensure!(out <= n, "{out} trapezoids or columns from {n} vertices and cuts");
            ctx.add("trapezoids_and_columns", out);
            ctx.add("scans", 1);
        }
    }
    Ok(())
}
