//! Monitors for the monotone decomposition: C08 (partition), C09 (sweep
//! events), C10 (the piece type).
use crate::bops::{show_mp, show_ring};
use crate::ctx::*;
use crate::ensure;
use crate::exact::*;
use crate::poly::*;
use crate::rng::Rng;
use geo::prelude::BoundingRect;
use geo::{Coordinate, GeoNum, LineString, Polygon};
use geo_crossings::monotone::MonoPoly;
use geo_crossings::{monotone_chains, MonotoneSweep};
use std::collections::{BTreeMap, BTreeSet};

/// Scalars the decomposition is driven with.
pub trait Mc: GeoNum {
    /// Offsets up to here leave small coordinates exact.
    const FAR: i64;
    fn of(v: i64, e: i32) -> Self;
    fn to(self, e: i32) -> Option<i64>;
    /// The other zero, if there is one.
    fn neg0() -> Self {
        Self::zero()
    }
}
thread_local! {
    /// Seed of the signs of zero coordinates (0: all positive).
    static NZ: std::cell::Cell<u64> = std::cell::Cell::new(0);
    /// Seed of repeated vertices (zero-length edges) in rings (0: none).
    static DUP: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
impl Mc for f64 {
    const FAR: i64 = 1 << 48;
    fn of(v: i64, e: i32) -> f64 {
        v as f64 * 2f64.powi(e)
    }
    fn neg0() -> f64 {
        -0.
    }
    fn to(self, e: i32) -> Option<i64> {
        let x = self / 2f64.powi(e);
        (x == x.round() && x.abs() < 9e15).then(|| x as i64)
    }
}
impl Mc for f32 {
    const FAR: i64 = 1 << 22;
    fn of(v: i64, e: i32) -> f32 {
        v as f32 * 2f32.powi(e)
    }
    fn neg0() -> f32 {
        -0.
    }
    fn to(self, e: i32) -> Option<i64> {
        let x = self / 2f32.powi(e);
        (x == x.round() && x.abs() < 2e7).then(|| x as i64)
    }
}
impl Mc for i64 {
    const FAR: i64 = 1 << 60;
    fn of(v: i64, _: i32) -> i64 {
        v
    }
    fn to(self, _: i32) -> Option<i64> {
        Some(self)
    }
}
impl Mc for i32 {
    const FAR: i64 = 1 << 29;
    fn of(v: i64, _: i32) -> i32 {
        v as i32
    }
    fn to(self, _: i32) -> Option<i64> {
        Some(self as i64)
    }
}

pub fn mls<T: Mc>(r: &[P], e: i32, close: bool) -> LineString<T> {
    let mut v: Vec<Coordinate<T>> = r.iter().map(|q| Coordinate { x: T::of(q.x, e), y: T::of(q.y, e) }).collect();
    let nz = NZ.with(|n| n.get());
    if nz != 0 {
        for (i, c) in v.iter_mut().enumerate() {
            let b = Rng::new(nz ^ (i as u64) << 8).u64();
            if c.x == T::zero() && b & 1 == 1 {
                c.x = T::neg0();
            }
            if c.y == T::zero() && b & 2 == 2 {
                c.y = T::neg0();
            }
        }
    }
    if close {
        v.push(v[0]);
        let dup = DUP.with(|n| n.get());
        if dup != 0 {
            let mut r = Rng::new(dup);
            v = v.into_iter().flat_map(|c| std::iter::repeat(c).take(if r.chance(1, 6) { 2 + r.usize(2) } else { 1 })).collect();
        }
    }
    LineString(v)
}
pub fn mpoly<T: Mc>(q: &Poly, e: i32) -> Polygon<T> {
    Polygon::new(mls(&q.ext, e, true), q.holes.iter().map(|h| mls(h, e, true)).collect())
}
pub fn back<T: Mc>(l: &LineString<T>, e: i32) -> Result<Vec<P>, String> {
    l.0.iter()
        .map(|c| match (c.x.to(e), c.y.to(e)) {
            (Some(x), Some(y)) => Ok(p(x, y)),
            _ => Err(format!("vertex {c:?} is no vertex of the input")),
        })
        .collect()
}

/// No two cells meet only diagonally.
fn undiagonal(c: &mut Vec<Vec<bool>>) {
    let (w, h) = (c.len(), c[0].len());
    loop {
        let mut ch = false;
        for x in 0..w - 1 {
            for y in 0..h - 1 {
                if c[x][y] == c[x + 1][y + 1] && c[x + 1][y] == c[x][y + 1] && c[x][y] != c[x + 1][y] {
                    for (a, b) in [(x, y), (x + 1, y), (x, y + 1), (x + 1, y + 1)] {
                        c[a][b] = true;
                    }
                    ch = true;
                }
            }
        }
        if !ch {
            return;
        }
    }
}

fn comb(rng: &mut Rng, n: usize) -> Ring {
    // teeth along +x or -x from a wall, of irregular lengths
    let len = 60i64;
    let mut r = vec![p(0, 0)];
    let mut back = vec![];
    let both = rng.chance(1, 2);
    for i in 0..n as i64 {
        let y = 4 * i;
        r.push(p(20 + rng.range(1, len), y + rng.range(0, 1)));
        r.push(p(20 + rng.range(-5, 0), y + 2 + rng.range(0, 1)));
        if both {
            back.push(p(-rng.range(1, len), y + rng.range(0, 1)));
            back.push(p(rng.range(0, 5), y + 2 + rng.range(0, 1)));
        }
    }
    r.push(p(25, 4 * n as i64));
    r.push(p(0, 4 * n as i64));
    back.reverse();
    r.extend(back);
    r
}

fn star(rng: &mut Rng, n: usize, m: i64) -> Ring {
    let k = 2 * n;
    let wob = rng.chance(1, 2);
    (0..k)
        .map(|i| {
            let t = (i as f64 + if wob { 0.6 * rng.f64() } else { 0.0 }) / k as f64 * std::f64::consts::TAU;
            let r = if i % 2 == 0 { 0.6 + 0.4 * rng.f64() } else { 0.1 + 0.3 * rng.f64() } * m as f64;
            p((r * t.cos()) as i64, (r * t.sin()) as i64)
        })
        .collect()
}

pub fn spiral(rng: &mut Rng, turns: usize) -> Ring {
    // a rectangular corridor wound up
    let mut out = vec![];
    let mut inn = vec![];
    let w = 2i64;
    let g = 2 * w;
    let mut c = p(0, 0);
    let dirs = [(1, 0), (0, 1), (-1, 0), (0, -1)];
    for i in 0..turns {
        let d = dirs[i % 4];
        let len = g * (turns as i64 + 2 - i as i64);
        out.push(c);
        let nd = dirs[(i + 1) % 4];
        let pd = dirs[(i + 3) % 4];
        // inner wall is w to the left
        let inset = if i == 0 { 0 } else { 1 };
        inn.push(p(c.x + nd.0 * w - inset * 0 * pd.0 + if i == 0 { 0 } else { d.0 * w }, c.y + nd.1 * w + if i == 0 { 0 } else { d.1 * w }));
        c = p(c.x + d.0 * len, c.y + d.1 * len);
    }
    let d = dirs[(turns - 1) % 4];
    let nd = dirs[turns % 4];
    out.push(c);
    inn.push(p(c.x + nd.0 * w, c.y + nd.1 * w));
    let _ = d;
    inn.reverse();
    out.extend(inn);
    if rng.chance(1, 2) {
        for q in out.iter_mut() {
            *q = p(q.x + q.y, q.y * 2 - q.x);
        }
    }
    out
}

fn poly_simple(q: &Poly) -> bool {
    let rs: Vec<&Ring> = poly_rings(q).collect();
    if !rings_simple(&rs) {
        return false;
    }
    q.holes.iter().all(|h| pt_in_ring_strict(&q.ext, h[0]) == Some(true))
        && (0..q.holes.len()).all(|i| (0..q.holes.len()).all(|j| i == j || pt_in_ring_strict(&q.holes[i], q.holes[j][0]) == Some(false)))
}

pub struct MCase {
    pub q: Poly,
    pub fam: &'static str,
    pub ty: u64,
    pub e: i32,
}

/// One case in so many has hundreds of teeth, holes or cells, or tens of
/// thousands of vertices.
const GIANT: u64 = 2500;
const STRIPS: u64 = 99_999;

/// A long strip with ragged sides and some holes.
fn strip(rng: &mut Rng) -> MCase {
    let n = 66_000 + rng.usize(4000);
    // all vertices on one side, or on both
    let share = *rng.pick(&[0u64, 1, 4, 7, 8]);
    let (mut top, mut bot) = (vec![], vec![]);
    let mut x = 1;
    for _ in 0..n {
        if rng.below(8) < share {
            top.push(p(x, 20 + rng.range(0, 9)));
        } else {
            bot.push(p(x, -20 - rng.range(0, 9)));
        }
        x += rng.range(1, 3);
    }
    let mut ext = vec![p(0, 0)];
    ext.extend(bot);
    ext.push(p(x, 0));
    ext.extend(top.iter().rev());
    if rng.chance(1, 2) {
        ext.reverse();
    }
    let k = rng.usize(ext.len());
    ext.rotate_left(k);
    let mut holes = vec![];
    for i in 0..if share % 8 == 0 { 0 } else { rng.range(0, 4) } {
        let o = p(x / 5 * i + rng.range(100, x / 6), rng.range(-3, 3));
        let mut h = vec![p(o.x, o.y + 5), p(o.x - 1, o.y), p(o.x + 3, o.y - 5)];
        if rng.chance(1, 2) {
            h.reverse();
        }
        holes.push(h);
    }
    let q = if rng.chance(1, 2) { map_mpoly(&vec![Poly { ext, holes }], |v| p(v.x, -v.y)).pop().unwrap() } else { Poly { ext, holes } };
    NZ.with(|n| n.set(0));
    DUP.with(|n| n.set(0));
    MCase { q, fam: "strip", ty: *rng.pick(&[0u64, 1, 2]), e: 0 }
}

/// A valid polygon whose boundary graph is 2-regular.
pub fn gen_mono(rng: &mut Rng, thorough: bool) -> MCase {
    let giant = rng.below(STRIPS);
    if rare(STRIPS) {
        return strip(rng);
    }
    let giant = giant % GIANT == 1;
    loop {
        let (mut q, fam): (Poly, &'static str) = match rng.below(12) {
            0 | 1 | 2 => {
                let m = *rng.pick(&[4usize, 10, 25, 60]);
                let n = 3 + rng.usize(m);
                let (kx, ky) = *rng.pick(&[(3i64, 3i64), (4, 8), (8, 4), (12, 12), (40, 40), (1000, 1000), (2, 30)]);
                match two_opt(rng, n, kx, ky) {
                    Some(r) => (Poly { ext: r, holes: vec![] }, "random_simple"),
                    None => continue,
                }
            }
            3 | 4 | 5 => {
                let m = if giant { 34 } else if thorough { 14 } else { 9 };
                let (w, h) = (2 + rng.usize(m), 2 + rng.usize(m));
                let den = *rng.pick(&[40u64, 60, 80, 90]);
                let mut c = polyomino(rng, w, h, den);
                undiagonal(&mut c);
                let v = nest(trace(&c));
                if v.is_empty() {
                    continue;
                }
                let q = v[rng.usize(v.len())].clone();
                (q, "polyomino_with_holes")
            }
            6 => {
                let m = if rng.chance(1, 4) { 60 } else { 12 };
                let n = if giant { 260 + rng.usize(60) } else { 1 + rng.usize(m) };
                let r = comb(rng, n);
                (Poly { ext: r, holes: vec![] }, "comb")
            }
            7 => {
                let m = if rng.chance(1, 4) { 40 } else { 12 };
                let n = if giant { 260 + rng.usize(60) } else { 3 + rng.usize(m) };
                let r = star(rng, n, if giant { 60_000 } else { 3000 });
                (Poly { ext: r, holes: vec![] }, "star")
            }
            8 => {
                let n = 4 + rng.usize(20);
                (Poly { ext: spiral(rng, n), holes: vec![] }, "spiral")
            }
            9 | 10 => {
                // a box with a grid of small holes
                let (nx, ny) = if giant { (18 + rng.usize(4), 18 + rng.usize(4)) } else { (1 + rng.usize(6), 1 + rng.usize(6)) };
                let s = 12i64;
                let ext = vec![p(0, 0), p(s * nx as i64, 0), p(s * nx as i64, s * ny as i64), p(0, s * ny as i64)];
                let mut holes = vec![];
                let align = rng.chance(1, 3);
                for i in 0..nx as i64 {
                    for j in 0..ny as i64 {
                        if rng.chance(1, 4) {
                            continue;
                        }
                        let n = 3 + rng.usize(5);
                        let k = *rng.pick(&[3i64, 6, 9]);
                        if let Some(h) = two_opt(rng, n, k, k) {
                            let o = if align { 1 } else { rng.range(1, 2) };
                            holes.push(h.iter().map(|v| p(v.x + s * i + o, v.y + s * j + o)).collect());
                        }
                    }
                }
                (Poly { ext, holes }, "box_of_holes")
            }
            _ => {
                // hole in a star, several levels of symmetry
                let n = 3 + rng.usize(10);
                let ext = star(rng, n, 20000);
                let n = 3 + rng.usize(8);
                let h = star(rng, n, 1800);
                (Poly { ext, holes: vec![h] }, "star_with_hole")
            }
        };
        // jitter, extra collinear vertices, linear maps, mirror, translation
        if rng.chance(1, 3) {
            let j = rng.range(1, 6);
            let mut r2 = rng.clone();
            let _ = rng.u64();
            let f = |r: &Ring, g: &mut Rng| -> Ring { r.iter().map(|v| p(v.x * 16 + g.range(-j, j), v.y * 16 + g.range(-j, j))).collect() };
            q = Poly { ext: f(&q.ext, &mut r2), holes: q.holes.iter().map(|h| f(h, &mut r2)).collect() };
        }
        let mid = |r: &mut Ring, rng: &mut Rng| {
            for _ in 0..1 + rng.usize(3) {
                let i = rng.usize(r.len());
                let (u, v) = (r[i], r[(i + 1) % r.len()]);
                if (u.x + v.x) % 2 == 0 && (u.y + v.y) % 2 == 0 && u != v {
                    r.insert(i + 1, p((u.x + v.x) / 2, (u.y + v.y) / 2));
                }
            }
        };
        if rng.chance(1, 3) {
            mid(&mut q.ext, rng);
            for h in q.holes.iter_mut() {
                mid(h, rng);
            }
        }
        let maps: [[i64; 4]; 8] = [
            [1, 0, 0, 1],
            [1, 0, 0, 1],
            [0, 1, 1, 0],
            [-1, 0, 0, 1],
            [1, 1, -1, 1],
            [1, 0, 1, 1],
            [1, 1, 0, 1],
            [2, 1, -1, 3],
        ];
        let m = *rng.pick(&maps);
        let d = *rng.pick(&[8i64, 500, 500, 1 << 22, 1 << 40]);
        let (dx, dy) = if rng.chance(1, 2) { (rng.range(-d, d), rng.range(-d, d)) } else { (0, 0) };
        let f = |v: P| p(m[0] * v.x + m[1] * v.y + dx, m[2] * v.x + m[3] * v.y + dy);
        q = map_mpoly(&vec![q], f).pop().unwrap();
        if rng.chance(1, 4) && reach(poly_rings(&q).flatten()) < 1 << 24 {
            // flatten all angles
            let bits = *rng.pick(&[3i64, 7, 12]);
            let f = shear(rng, bits);
            let o = p(rng.range(-d, d), rng.range(-d, d));
            q = map_mpoly(&vec![q], |v| {
                let v = f(v);
                p(v.x + o.x, v.y + o.y)
            })
            .pop()
            .unwrap();
        }
        let rot = |r: &mut Ring, rng: &mut Rng| {
            let k = rng.usize(r.len());
            r.rotate_left(k);
            if rng.chance(1, 2) {
                r.reverse();
            }
        };
        rot(&mut q.ext, rng);
        for h in q.holes.iter_mut() {
            rot(h, rng);
        }
        rng.shuffle(&mut q.holes);
        if !poly_simple(&q) {
            continue;
        }
        let big = poly_rings(&q).flat_map(|r| r.iter()).map(|v| v.x.abs().max(v.y.abs())).max().unwrap();
        let span = {
            let vs: Vec<P> = poly_rings(&q).flat_map(|r| r.iter().copied()).collect();
            let w = |f: fn(&P) -> i64| vs.iter().map(f).max().unwrap() - vs.iter().map(f).min().unwrap();
            w(|v| v.x).max(w(|v| v.y))
        };
        // coordinates, and products of differences, must stay exact in the scalar
        let ty = match rng.below(8) {
            0 if big < 1 << 24 => 1,
            1 if span < 1 << 30 => 2,
            2 if big < 1 << 29 && span < 1 << 14 => 3,
            _ => 0,
        };
        NZ.with(|n| n.set(if rng.chance(1, 3) { rng.u64() | 1 } else { 0 }));
        DUP.with(|n| n.set(if rng.chance(1, 6) { rng.u64() | 1 } else { 0 }));
        let e = match ty {
            0 => crate::segs::exponent(rng, 10, 150),
            1 => crate::segs::exponent(rng, 10, 30),
            _ => 0,
        };
        return MCase { q, fam, ty, e };
    }
}

impl MCase {
    pub fn show(&self) -> String {
        format!(
            "[{}] scalar {}, coordinates x 2^{}: {}",
            self.fam,
            ["f64", "f32", "i64", "i32"][self.ty as usize],
            self.e,
            show_mp(&vec![self.q.clone()])
        )
    }
    pub fn note(&self, ctx: &mut Ctx) {
        ctx.feed(self.ty);
        ctx.feed(self.e as u64);
        let mut n = 0;
        for r in poly_rings(&self.q) {
            ctx.feed(999);
            for v in r {
                n += 1;
                ctx.feed(v.x as u64);
                ctx.feed(v.y as u64);
            }
        }
        ctx.nontrivial = n > 3;
        ctx.add("input_vertices", n);
        if self.ty < 2 && NZ.with(|n| n.get()) != 0 {
            ctx.add("cases_signed_zeros", 1);
        }
        if DUP.with(|n| n.get()) != 0 {
            ctx.add("cases_repeated_vertices", 1);
        }
        if self.e.abs() > 30 {
            ctx.add("cases_extreme_unit", 1);
        }
        ctx.max("max_vertices", n);
        ctx.add("input_holes", self.q.holes.len() as u64);
        ctx.add(
            match self.fam {
                "random_simple" => "family_random_simple",
                "polyomino_with_holes" => "family_polyomino_with_holes",
                "comb" => "family_comb",
                "star" => "family_star",
                "spiral" => "family_spiral",
                "box_of_holes" => "family_box_of_holes",
                "strip" => "family_strip_of_tens_of_thousands",
                _ => "family_star_with_hole",
            },
            1,
        );
        ctx.add(["scalar_f64", "scalar_f32", "scalar_i64", "scalar_i32"][self.ty as usize], 1);
        ctx.input(|| self.show());
    }
}

fn partition<T: Mc>(c: &MCase) -> Result<Vec<(Vec<P>, Vec<P>)>, String> {
    let poly = mpoly::<T>(&c.q, c.e);
    let v = sut("monotone_chains", || monotone_chains(&poly))?;
    v.iter().map(|m| Ok((back(m.top(), c.e)?, back(m.bot(), c.e)?))).collect()
}

pub fn pieces_of(c: &MCase) -> Result<Vec<(Vec<P>, Vec<P>)>, String> {
    match c.ty {
        0 => partition::<f64>(c),
        1 => partition::<f32>(c),
        2 => partition::<i64>(c),
        _ => partition::<i32>(c),
    }
}

fn chain_segs(c: &[P]) -> Vec<Seg> {
    c.windows(2).map(|w| Seg { a: w[0], b: w[1] }).collect()
}

pub fn c08(ctx: &mut Ctx, rng: &mut Rng, _case: u64) -> Verdict {
    let c = gen_mono(rng, ctx.thorough);
    c.note(ctx);
    let ps = pieces_of(&c)?;
    ctx.add("pieces_observed", ps.len() as u64);
    ctx.max("max_pieces", ps.len() as u64);
    check_partition(ctx, &c.q, &ps).map_err(|e| {
        let s: Vec<String> = ps.iter().map(|(t, b)| format!("top{} bot{}", show_ring(t), show_ring(b))).collect();
        format!("{e}; pieces: {}", s.join(" | "))
    })
}

fn check_partition(ctx: &mut Ctx, q: &Poly, ps: &[(Vec<P>, Vec<P>)]) -> Verdict {
    let verts: BTreeSet<P> = poly_rings(q).flat_map(|r| r.iter().copied()).collect();
    let mut used = BTreeSet::new();
    // (edge, owner piece + 1 or 0, +1 top / -1 bottom)
    let mut segs: Vec<Seg> = vec![];
    let mut own: Vec<(usize, i32)> = vec![];
    for s in poly_rings(q).flat_map(|r| ring_edges(r).collect::<Vec<_>>()) {
        segs.push(s);
        own.push((0, 0));
    }
    for (i, (t, b)) in ps.iter().enumerate() {
        ensure!(t.len() >= 2 && b.len() >= 2, "piece {i} has a chain of fewer than two vertices");
        ensure!(t[0] == b[0] && t[t.len() - 1] == b[b.len() - 1], "the chains of piece {i} do not share their ends");
        for (side, ch) in [(1, t), (-1, b)] {
            for w in ch.windows(2) {
                ensure!(w[0] < w[1], "a chain of piece {i} is not increasing at {:?} {:?}", w[0], w[1]);
            }
            for v in ch {
                ensure!(verts.contains(v), "vertex {v:?} of piece {i} is no vertex of the polygon");
                used.insert(*v);
            }
            for s in chain_segs(ch) {
                segs.push(s);
                own.push((i + 1, side));
            }
        }
        let inner: BTreeSet<&P> = t[1..t.len() - 1].iter().collect();
        ensure!(b[1..b.len() - 1].iter().all(|v| !inner.contains(v)), "the chains of piece {i} meet between their ends");
    }
    ensure!(used == verts, "vertices {:?} of the polygon are on no piece", verts.difference(&used).collect::<Vec<_>>());
    // edges meet at common ends or coincide
    let mut v: Vec<Seg> = segs.iter().map(|s| Seg { a: s.lo(), b: s.hi() }).collect();
    v.sort_by_key(|s| (s.a, s.b));
    v.dedup();
    for i in 0..v.len() {
        for j in i + 1..v.len() {
            if v[j].a.x > v[i].b.x {
                break;
            }
            match isec(&v[i], &v[j]) {
                Isec::None => {}
                Isec::Overlap(..) => return Err(format!("edges {:?} and {:?} overlap partly", v[i], v[j])),
                Isec::Pt(x, y, d) => {
                    let at = |s: &Seg| [s.a, s.b].iter().any(|q| q.x as i128 * d == x && q.y as i128 * d == y);
                    ensure!(at(&v[i]) && at(&v[j]), "edges {:?} and {:?} meet inside one of them", v[i], v[j]);
                }
            }
        }
    }
    // exactly one piece over every face inside, none outside
    let xs: Vec<i64> = verts.iter().map(|v| v.x).collect::<BTreeSet<_>>().into_iter().collect();
    let mut bad: Option<String> = None;
    let mut faces = 0;
    slabs(&segs, &xs, |x2, g| {
        if bad.is_some() {
            return;
        }
        let mut inside = false;
        let mut cover: BTreeSet<usize> = BTreeSet::new();
        let mut k = 0;
        while k < g.len() {
            let r = g[k].0;
            let mut par = false;
            while k < g.len() && g[k].0 == r {
                let (o, side) = own[g[k].1];
                if o == 0 {
                    par ^= true;
                } else if side < 0 {
                    if !cover.insert(o) {
                        bad.get_or_insert(format!("at x={x2}/2 piece {} has its bottom twice below its top", o - 1));
                    }
                } else if !cover.remove(&o) {
                    bad.get_or_insert(format!("at x={x2}/2 the top of piece {} is below its bottom", o - 1));
                }
                k += 1;
            }
            inside ^= par;
            faces += 1;
            if cover.len() != inside as usize {
                bad.get_or_insert(format!(
                    "above edge {:?} at x={x2}/2: inside the polygon: {inside}, covered by pieces {:?}",
                    segs[g[k - 1].1],
                    cover.iter().map(|i| i - 1).collect::<Vec<_>>()
                ));
            }
        }
    });
    ctx.add("faces_observed", faces);
    match bad {
        Some(b) => Err(b),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- C09

/// Our own classification of a vertex.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Class {
    Start,
    Split,
    End,
    Merge,
    Continue,
}

fn classes(q: &Poly) -> BTreeMap<P, Class> {
    let mut m = BTreeMap::new();
    for (k, r) in poly_rings(q).enumerate() {
        // interior on the left: exterior counter-clockwise, holes clockwise
        let mut r = r.clone();
        if (ring_area2(&r) > 0) != (k == 0) {
            r.reverse();
        }
        let n = r.len();
        for i in 0..n {
            let (a, v, b) = (r[(i + n - 1) % n], r[i], r[(i + 1) % n]);
            let convex = orient(a, v, b) > 0;
            let cl = match (a > v, b > v) {
                (true, true) => {
                    if convex {
                        Class::Start
                    } else {
                        Class::Split
                    }
                }
                (false, false) => {
                    if convex {
                        Class::End
                    } else {
                        Class::Merge
                    }
                }
                _ => Class::Continue,
            };
            m.insert(v, cl);
        }
    }
    m
}

/// A link of an event, as its `Debug` output tells it: name, points by field,
/// other fields as they are. (The type itself cannot be named from outside.)
struct LinkText {
    name: String,
    pts: BTreeMap<String, Vec<P>>,
    text: BTreeMap<String, String>,
}

/// `None` if the text is not understood.
fn read_link<T: Mc + std::str::FromStr>(s: &str, e: i32) -> Option<LinkText> {
    let open = s.find('{')?;
    let name = s[..open].trim().to_string();
    let mut l = LinkText { name, pts: BTreeMap::new(), text: BTreeMap::new() };
    let body = s[open + 1..].trim().strip_suffix('}')?.trim();
    let (mut depth, mut from) = (0, 0);
    let mut fields = vec![];
    for (i, c) in body.char_indices() {
        match c {
            '(' | '{' | '[' => depth += 1,
            ')' | '}' | ']' => depth -= 1,
            ',' if depth == 0 => {
                fields.push(&body[from..i]);
                from = i + 1;
            }
            _ => {}
        }
    }
    fields.push(&body[from..]);
    for f in fields {
        let f = f.trim();
        if f.is_empty() {
            continue;
        }
        let (k, v) = f.split_once(':')?;
        let mut ps = vec![];
        for t in v.split("Pt(").skip(1) {
            let t = &t[..t.find(')')?];
            let (x, y) = t.split_once(',')?;
            let n = |t: &str| t.trim().parse::<T>().ok().and_then(|x| x.to(e));
            ps.push(p(n(x)?, n(y)?));
        }
        l.pts.insert(k.trim().to_string(), ps);
        l.text.insert(k.trim().to_string(), v.trim().to_string());
    }
    Some(l)
}

type SweepTrace = Vec<(P, String, Vec<(String, Option<LinkText>)>)>;

fn sweep_trace<T: Mc + std::str::FromStr>(q: &Poly, e: i32) -> Result<SweepTrace, String> {
    let poly = mpoly::<T>(q, e);
    let cap = 4 * poly_rings(q).map(|r| r.len()).sum::<usize>() + 16;
    let v: Vec<_> = sut("MonotoneSweep", || {
        let mut it = Box::pin(MonotoneSweep::from_polygon(&poly));
        let mut v = vec![];
        let mut more = false;
        while let Some(ev) = it.next() {
            let l: Vec<String> = ev.links.iter().map(|l| format!("{l:?}")).collect();
            v.push((ev.pt.coord(), format!("{:?}", ev.ty), l));
            if v.len() >= cap {
                more = true;
                break;
            }
        }
        // an iterator at its end stays there
        if !more && (it.next().is_some() || it.next().is_some()) {
            more = true;
        }
        // skipping events leaves out nothing else
        if !more {
            let mut it = Box::pin(MonotoneSweep::from_polygon(&poly));
            let (mut at, mut k) = (0, v.len() % 5);
            while at < v.len() {
                let (lo, hi) = it.size_hint();
                assert!(lo <= v.len() - at && hi.map_or(true, |h| h >= v.len() - at), "size_hint ({lo}, {hi:?}) with {} events left", v.len() - at);
                if at > v.len() / 2 {
                    match k % 3 {
                        0 => assert!(it.count() == v.len() - at, "the sweep counts other events than it yields"),
                        1 => assert!(it.last().map(|e| e.pt.coord()) == v.last().map(|e: &(geo::Coordinate<T>, String, Vec<String>)| e.0), "last() is not the last event"),
                        _ => assert!(it.fold(0, |n, _| n + 1) == v.len() - at, "the sweep folds other events than it yields"),
                    }
                    break;
                }
                let got = it.nth(k).map(|e| (e.pt.coord(), format!("{:?}", e.ty), e.links.iter().map(|l| format!("{l:?}")).collect::<Vec<_>>()));
                assert!(got.as_ref() == v.get(at + k), "nth({k}) after {at} events is {got:?}, not {:?}", v.get(at + k));
                at += k + 1;
                k = (k * 7 + 3) % 5;
            }
        }
        (v, more)
    })
    .and_then(|(v, more)| if more { Err(format!("after {} events the sweep has not ended for good", v.len())) } else { Ok(v) })?;
    v.into_iter()
        .map(|(c, t, l)| match (c.x.to(e), c.y.to(e)) {
            (Some(x), Some(y)) => Ok((p(x, y), t, l.into_iter().map(|s| (read_link::<T>(&s, e)).map_or((s.clone(), None), |k| (s.clone(), Some(k)))).collect())),
            _ => Err(format!("event at {c:?}, which is no vertex")),
        })
        .collect()
}

/// The links tell the neighbours of each vertex and the diagonals which cut
/// the polygon: these run inside it from an earlier vertex to that of the
/// event, do not cross, and leave no split or merge vertex without one on its
/// blind side.
fn check_links(ctx: &mut Ctx, q: &Poly, cl: &BTreeMap<P, Class>, tr: &SweepTrace) -> Verdict {
    for (_, _, ls) in tr {
        for (s, l) in ls {
            let ok = l.as_ref().map_or(false, |l| {
                let one = |fs: &[&str]| fs.iter().all(|f| l.pts.get(*f).map_or(false, |v| v.len() == 1));
                match l.name.as_str() {
                    "Start" => one(&["root", "top", "bot"]),
                    "End" => one(&["sink", "top", "bot"]),
                    "Continue" => one(&["prev", "curr", "next"]),
                    "Split" => one(&["prev", "next", "top", "bot"]),
                    "Merge" => one(&["prev", "next"]) && l.pts.get("limbs").map_or(false, |v| v.len() == 0 || v.len() == 2),
                    _ => false,
                }
            });
            if !ok {
                // written in some other way: nothing can be said
                let _ = s;
                ctx.add("links_not_understood", 1);
                return Ok(());
            }
        }
    }
    // interior on the left of prev -> v -> next
    let mut nb: BTreeMap<P, (P, P)> = BTreeMap::new();
    let mut edges = vec![];
    for (k, r) in poly_rings(q).enumerate() {
        let mut r = r.clone();
        if (ring_area2(&r) > 0) != (k == 0) {
            r.reverse();
        }
        let n = r.len();
        for i in 0..n {
            nb.insert(r[i], (r[(i + n - 1) % n], r[(i + 1) % n]));
            edges.push(Seg { a: r[i], b: r[(i + 1) % n] });
        }
    }
    let twice: Vec<Ring> = poly_rings(q).map(|r| r.iter().map(|v| p(2 * v.x, 2 * v.y)).collect()).collect();
    let mut diags: Vec<Seg> = vec![];
    let (mut out, mut inn): (BTreeMap<P, u32>, BTreeMap<P, u32>) = Default::default();
    for (v, _, ls) in tr {
        let (a, b) = nb[v];
        // the two neighbours, upper one first, if both are on one side
        let tb = match (a > *v, b > *v) {
            (true, true) => Some(if orient(*v, a, b) > 0 { (b, a) } else { (a, b) }),
            (false, false) => Some(if orient(*v, a, b) < 0 { (b, a) } else { (a, b) }),
            _ => None,
        };
        let mut plain = 0;
        for (s, l) in ls {
            let l = l.as_ref().unwrap();
            let at = |f: &str| l.pts[f][0];
            let pair = |w: &str| -> Verdict {
                ensure!(at(w) == *v, "at {v:?}: {s} is about another vertex");
                ensure!(Some((at("top"), at("bot"))) == tb, "at {v:?}, whose upper and lower neighbour are {tb:?}: {s}");
                Ok(())
            };
            match l.name.as_str() {
                "Start" => {
                    pair("root")?;
                    ensure!(cl[v] == Class::Start, "{s} at {v:?}, which is {:?}", cl[v]);
                    plain += 1;
                }
                "End" => {
                    pair("sink")?;
                    ensure!(cl[v] == Class::End, "{s} at {v:?}, which is {:?}", cl[v]);
                    plain += 1;
                }
                "Continue" => {
                    ensure!(cl[v] == Class::Continue, "{s} at {v:?}, which is {:?}", cl[v]);
                    let (l0, r0) = (a.min(b), a.max(b));
                    ensure!(at("curr") == *v && at("prev") == l0 && at("next") == r0, "at {v:?}, between {l0:?} and {r0:?}: {s}");
                    // going right with the interior on the left: it is above
                    let above = a < *v;
                    if let Some(w) = l.text.get("interior") {
                        if ["Clockwise", "CounterClockwise"].contains(&w.as_str()) {
                            ensure!((w == "CounterClockwise") == above, "at {v:?} the interior is {}: {s}", if above { "above" } else { "below" });
                            ctx.add("interior_sides_observed", 1);
                        }
                    }
                    plain += 1;
                }
                _ => {
                    let (f, t) = (at("prev"), at("next"));
                    ensure!(t == *v, "at {v:?}: {s} ends elsewhere");
                    ensure!(f < t && nb.contains_key(&f), "at {v:?}: {s} does not start at an earlier vertex");
                    if l.name == "Split" {
                        pair("next")?;
                    } else if cl[v] == Class::Split {
                        let lb = &l.pts["limbs"];
                        ensure!(lb.len() == 2 && Some((lb[0], lb[1])) == tb, "at {v:?}, whose upper and lower neighbour are {tb:?}: {s}");
                    }
                    if l.name == "Merge" {
                        ensure!(cl[&f] == Class::Merge, "{s} starts at {f:?}, which is {:?}", cl[&f]);
                    } else {
                        ensure!(cl[v] == Class::Split, "{s} at {v:?}, which is {:?}", cl[v]);
                    }
                    *out.entry(f).or_default() += 1;
                    *inn.entry(t).or_default() += 1;
                    let d = Seg { a: f, b: t };
                    for o in edges.iter().chain(&diags) {
                        let shared = [o.a, o.b].iter().filter(|x| **x == f || **x == t).count();
                        let bad = match isec(&d, o) {
                            Isec::None => false,
                            _ if shared == 0 => true,
                            // they meet in their common end alone
                            Isec::Overlap(..) => true,
                            _ => false,
                        };
                        ensure!(!bad, "at {v:?}: {s} crosses or lies along {o:?}");
                    }
                    let m = p(f.x + t.x, f.y + t.y);
                    for (k, r) in twice.iter().enumerate() {
                        ensure!(pt_in_ring_strict(r, m) == Some(k == 0), "at {v:?}: {s} runs outside the polygon");
                    }
                    diags.push(d);
                }
            }
        }
        let want = matches!(cl[v], Class::Start | Class::End | Class::Continue) as u32;
        ensure!(plain == want, "vertex {v:?}, which is {:?}, has {plain} links telling its neighbours", cl[v]);
    }
    for (v, c) in cl {
        let (o, i) = (out.get(v).copied().unwrap_or(0), inn.get(v).copied().unwrap_or(0));
        ensure!(*c != Class::Merge || o == 1, "merge vertex {v:?} has {o} diagonals to its right");
        ensure!(*c != Class::Split || i == 1, "split vertex {v:?} has {i} diagonals to its left");
    }
    ctx.add("diagonals_observed", diags.len() as u64);
    Ok(())
}

/// How the code under test spells the five classes, read off one polygon.
fn spelling() -> Result<BTreeMap<Class, String>, String> {
    // split at (2,2), merge at (4,6)
    let q = Poly { ext: vec![p(0, 0), p(2, 2), p(1, 5), p(4, 6), p(3, 9), p(9, 9), p(6, 4), p(9, 1)], holes: vec![vec![p(3, 3), p(4, 4), p(5, 3)]] };
    assert!(poly_simple(&q));
    let cl = classes(&q);
    let tr = sweep_trace::<f64>(&q, 0)?;
    let mut m: BTreeMap<Class, String> = BTreeMap::new();
    for (v, t, _) in tr {
        let c = *cl.get(&v).ok_or(format!("event at {v:?}, which is no vertex"))?;
        let e = m.entry(c).or_insert(t.clone());
        ensure!(*e == t, "vertices of class {c:?} are called both {e} and {t}");
    }
    ensure!(m.len() == 5, "reference polygon: only classes {m:?} seen");
    let names: BTreeSet<&String> = m.values().collect();
    ensure!(names.len() == 5, "different classes share a name: {m:?}");
    // called by their usual names, they must not be exchanged
    let usual = ["Start", "Split", "End", "Merge", "Continue"];
    if names.iter().all(|n| usual.contains(&n.as_str())) {
        for (c, n) in &m {
            ensure!(*n == format!("{c:?}"), "vertices of class {c:?} are called {n}");
        }
    }
    Ok(m)
}

pub fn c09(ctx: &mut Ctx, rng: &mut Rng, _case: u64) -> Verdict {
    let c = gen_mono(rng, ctx.thorough);
    c.note(ctx);
    let names = spelling().map_err(|e| format!("on the fixed reference polygon: {e}"))?;
    let tr = match c.ty {
        0 => sweep_trace::<f64>(&c.q, c.e)?,
        1 => sweep_trace::<f32>(&c.q, c.e)?,
        2 => sweep_trace::<i64>(&c.q, c.e)?,
        _ => sweep_trace::<i32>(&c.q, c.e)?,
    };
    let cl = classes(&c.q);
    let want: Vec<P> = cl.keys().copied().collect();
    for w in tr.windows(2) {
        ensure!(w[0].0 < w[1].0, "event at {:?} is followed by one at {:?}", w[0].0, w[1].0);
    }
    let got: Vec<P> = tr.iter().map(|t| t.0).collect();
    ensure!(got == want, "events at {got:?}, vertices {want:?}");
    for (v, t, l) in &tr {
        let e = cl[v];
        ensure!(*t == names[&e], "vertex {v:?} is reported as {t}, it is {e:?}");
        ctx.add("links_observed", l.len() as u64);
        ctx.add(
            match e {
                Class::Start => "vertices_start",
                Class::Split => "vertices_split",
                Class::End => "vertices_end",
                Class::Merge => "vertices_merge",
                Class::Continue => "vertices_continue",
            },
            1,
        );
    }
    ctx.add("events_observed", tr.len() as u64);
    check_links(ctx, &c.q, &cl, &tr)
}

// ---------------------------------------------------------------- C10

/// Is the chain nowhere below the point (looking up or down at its place)?
fn chain_side(c: &[P], q: P) -> Option<std::cmp::Ordering> {
    let w = c.windows(2).find(|w| w[0] <= q && q <= w[1])?;
    Some(if w[0] == q || w[1] == q { std::cmp::Ordering::Equal } else { orient(w[0], w[1], q).cmp(&0) })
}

/// Chains which come very close to each other along their whole length, and
/// (if allowed) share vertices, stretches, or everything.
fn close_chains(rng: &mut Rng, touch: bool) -> Option<(Vec<P>, Vec<P>)> {
    let w = *rng.pick(&[6i64, 30, 1000, 500_000, 500_000]);
    let h = *rng.pick(&[0i64, 3, 1000, 500_000]);
    let gap = *rng.pick(&[1i64, 1, 1, 2, 5]);
    let n = 2 + rng.usize(8);
    let mut xs: Vec<i64> = (0..n).map(|_| rng.range(0, w)).collect();
    xs.push(0);
    xs.push(w);
    xs.sort();
    xs.dedup();
    let (rise, bow) = (rng.range(-h, h), rng.range(-h, h) / 8);
    let y = |x: i64| rise * x / w + bow * (x * (w - x) / w) / w;
    let (s, e) = (p(0, y(0)), p(w, y(w)));
    let (mut top, mut bot) = (vec![s], vec![s]);
    for &x in &xs[1..xs.len() - 1] {
        if rng.chance(2, 3) {
            top.push(p(x, y(x) + rng.range(0, gap)));
        }
        if rng.chance(2, 3) {
            bot.push(p(x, y(x) - rng.range(0, gap)));
        }
        if touch && rng.chance(1, 4) {
            let q = p(x, y(x));
            for c in [&mut top, &mut bot] {
                if c.last().unwrap().x == x {
                    c.pop();
                }
                c.push(q);
            }
        }
    }
    top.push(e);
    bot.push(e);
    // the top is nowhere below the bottom
    let o = std::cmp::Ordering::Less;
    if bot.iter().any(|q| chain_side(&top, *q) == Some(o.reverse())) || top.iter().any(|q| chain_side(&bot, *q) == Some(o)) {
        return None;
    }
    let mut ring = top.clone();
    ring.extend(bot[1..bot.len() - 1].iter().rev());
    if !touch && (ring.len() < 3 || !rings_simple(&[&ring]) || ring_area2(&ring) >= 0) {
        return None;
    }
    if ring.iter().all(|q| q.y == ring[0].y) {
        return None;
    }
    Some((top, bot))
}

/// A chain of many vertices over or under one of many or few.
fn long_chains(rng: &mut Rng, n: usize) -> (Vec<P>, Vec<P>) {
    let w = n as i64 * rng.range(1, 3);
    let h = *rng.pick(&[2i64, 100, 10_000]);
    let k = *rng.pick(&[0usize, 3, 300, n]);
    let mk = |rng: &mut Rng, n: usize, s: i64| -> Vec<P> {
        let mut v: Vec<P> = (0..n).map(|_| p(rng.range(1, w - 1), s * rng.range(1, h))).collect();
        v.push(p(0, 0));
        v.push(p(w, 0));
        v.sort();
        v.dedup();
        v
    };
    let side = if rng.chance(1, 2) { 1 } else { -1 };
    let (a, b) = (mk(rng, n, side), mk(rng, k, -side));
    if side == 1 {
        (a, b)
    } else {
        (b, a)
    }
}

/// Random pair of x-monotone chains with common ends, top above bottom.
pub fn gen_chains(rng: &mut Rng, touch: bool) -> (Vec<P>, Vec<P>) {
    let giant = rng.below(STRIPS);
    if rare(STRIPS) {
        let n = 66_000 + rng.usize(4000);
        return long_chains(rng, n);
    }
    if giant % GIANT == 1 {
        let n = 257 + rng.usize(600);
        return long_chains(rng, n);
    }
    if rng.chance(1, 4) {
        let touch = touch && rng.chance(1, 2);
        if let Some(c) = close_chains(rng, touch) {
            return c;
        }
    }
    loop {
        let w = *rng.pick(&[1i64, 2, 4, 10, 40, 1000]);
        let h = *rng.pick(&[2i64, 4, 10, 40, 1000]);
        let m = *rng.pick(&[2usize, 6, 20]);
        let n = 1 + rng.usize(m);
        let mid = rng.range(0, h);
        let s = p(0, rng.range(0, h));
        let e = p(w, rng.range(0, h));
        let mk = |rng: &mut Rng, lo: i64, hi: i64| -> Vec<P> {
            let mut v: Vec<P> = (0..rng.usize(n + 1)).map(|_| p(rng.range(0, w), rng.range(lo, hi))).collect();
            v.push(s);
            v.push(e);
            v.sort();
            v.dedup();
            v
        };
        let top = mk(rng, mid, h);
        let bot = mk(rng, 0, mid);
        if top[0] != s || bot[0] != s || *top.last().unwrap() != e || *bot.last().unwrap() != e {
            continue;
        }
        let mut ring = top.clone();
        ring.extend(bot[1..bot.len() - 1].iter().rev());
        if ring.len() < 3 || !rings_simple(&[&ring]) || ring_area2(&ring) >= 0 {
            continue;
        }
        if rng.chance(1, 3) {
            // vertices in the middle of edges, upright ones among them
            let k = rng.range(2, 4);
            let mut sub = |v: &[P]| -> Vec<P> {
                let mut o = vec![p(v[0].x * k, v[0].y * k)];
                for w in v.windows(2) {
                    for i in 1..k {
                        if rng.chance(1, 2) {
                            o.push(p(w[0].x * (k - i) + w[1].x * i, w[0].y * (k - i) + w[1].y * i));
                        }
                    }
                    o.push(p(w[1].x * k, w[1].y * k));
                }
                o
            };
            return (sub(&top), sub(&bot));
        }
        return (top, bot);
    }
}

fn mono_new<T: Mc>(t: &[P], b: &[P], e: i32) -> Result<MonoPoly<T>, String> {
    let (lt, lb) = (mls::<T>(t, e, false), mls::<T>(b, e, false));
    sut("MonoPoly::new", move || MonoPoly::new(lt, lb))
}

fn c10_ty<T: Mc>(ctx: &mut Ctx, rng: &mut Rng, e: i32) -> Verdict {
    let (t, b) = gen_chains(rng, true);
    // as far out as the scalar is exact
    let far = *rng.pick(&[50i64, 50, 50, T::FAR]);
    let d = p(rng.range(-far, far), rng.range(-far, far));
    let mv = |v: &[P]| -> Vec<P> { v.iter().map(|q| p(q.x + d.x, q.y + d.y)).collect() };
    let (t, b) = (mv(&t), mv(&b));
    for v in t.iter().chain(b.iter()) {
        ctx.feed(v.x as u64);
        ctx.feed(v.y as u64);
    }
    ctx.nontrivial = true;
    ctx.input(|| format!("top {} bot {} x 2^{e}", show_ring(&t), show_ring(&b)));
    let m = mono_new::<T>(&t, &b, e)?;
    ensure!(back(m.top(), e)? == t && back(m.bot(), e)? == b, "top()/bot() differ from what was put in");
    let c = m.clone();
    let (x, y) = c.into_ls_pair();
    ensure!(back(&x, e)? == t && back(&y, e)? == b, "into_ls_pair differs from what was put in");
    let bb = sut("bounding_rect", || m.bounding_rect())?;
    let all: Vec<P> = t.iter().chain(b.iter()).copied().collect();
    let (x0, x1) = (all.iter().map(|q| q.x).min().unwrap(), all.iter().map(|q| q.x).max().unwrap());
    let (y0, y1) = (all.iter().map(|q| q.y).min().unwrap(), all.iter().map(|q| q.y).max().unwrap());
    let got = (bb.min().x.to(e), bb.min().y.to(e), bb.max().x.to(e), bb.max().y.to(e));
    ensure!(got == (Some(x0), Some(y0), Some(x1), Some(y1)), "bounding_rect {bb:?}, exact ({x0},{y0})-({x1},{y1}) x 2^{e}");
    let pg = sut("into_polygon", || m.into_polygon())?;
    ensure!(pg.interiors().is_empty(), "into_polygon has holes");
    let ring = back(pg.exterior(), e)?;
    let mut want = t.clone();
    want.extend(b[..b.len() - 1].iter().rev());
    ensure!(ring == want, "into_polygon gives {}, the boundary is {}", show_ring(&ring), show_ring(&want));
    ctx.add("accepted_observed", 1);
    // one broken precondition each
    for _ in 0..3 {
        let (mut t2, mut b2) = (t.clone(), b.clone());
        let kind = rng.below(7);
        let side = rng.chance(1, 2);
        {
            let c = if side { &mut t2 } else { &mut b2 };
            let n = c.len();
            match kind {
                0 => c[0] = p(c[0].x - 1, c[0].y),
                1 => c[n - 1] = p(c[n - 1].x + 1, c[n - 1].y),
                2 => {
                    // out of order somewhere
                    let i = rng.usize(n - 1);
                    c.insert(i + 1, p(c[i].x - rng.range(0, 1), c[i].y - 1));
                }
                3 => {
                    // repeated vertex
                    let i = rng.usize(n);
                    c.insert(i, c[i]);
                }
                4 => {
                    c[0] = p(c[0].x, c[0].y - 1);
                }
                5 => {
                    c[n - 1] = p(c[n - 1].x, c[n - 1].y + 1);
                }
                _ => {
                    if n < 3 {
                        continue;
                    }
                    let i = rng.usize(n - 1);
                    c.swap(i, i + 1);
                }
            }
        }
        if kind == 6 && rng.chance(1, 2) {
            t2 = vec![t[0]];
            b2 = vec![t[0]];
        }
        let r = mono_new::<T>(&t2, &b2, e);
        ensure!(r.is_err(), "accepted invalid chains: top {} bot {}", show_ring(&t2), show_ring(&b2));
        ctx.add("rejected_observed", 1);
    }
    Ok(())
}

pub fn c10(ctx: &mut Ctx, rng: &mut Rng, case: u64) -> Verdict {
    match case % 5 {
        0 => c10_ty::<i64>(ctx, rng, 0),
        1 => c10_ty::<i32>(ctx, rng, 0),
        2 => {
            let e = rng.range(-8, 8) as i32;
            c10_ty::<f32>(ctx, rng, e)
        }
        _ => {
            let e = rng.range(-20, 20) as i32;
            c10_ty::<f64>(ctx, rng, e)
        }
    }
}
