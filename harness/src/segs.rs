//! Monitors for the line-crossing sweep: C01 (event points), C02 (pieces and
//! flags), C03 (pairs).
use crate::ctx::*;
use crate::ensure;
use crate::exact::*;
use crate::genseg::*;
use crate::poly;
use crate::rng::Rng;
use geo::line_intersection::LineIntersection;
use geo::{Coordinate, Line};
use geo_crossings::{Crossable, CrossingsIter, Intersections, LineOrPoint};
use std::collections::{BTreeMap, BTreeSet};
use std::iter::FromIterator;

/// A user-defined crossable that carries its index.
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Tag<T: geo::GeoFloat> {
    pub id: usize,
    pub l: Line<T>,
}
impl<T: geo::GeoFloat> Crossable for Tag<T> {
    type Scalar = T;
    fn line(&self) -> Line<T> {
        self.l
    }
}

/// Scalars the sweeps are driven with.
pub trait Sc: geo_crossings::Float {
    fn of(v: f64) -> Self;
    fn to(self) -> f64;
}
impl Sc for f64 {
    fn of(v: f64) -> f64 {
        v
    }
    fn to(self) -> f64 {
        self
    }
}
impl Sc for f32 {
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn to(self) -> f64 {
        self as f64
    }
}

/// An input of the sweep: integer segments times a power of two.
#[derive(Clone, Debug)]
pub struct Case {
    pub segs: Vec<Seg>,
    pub e: i32,
    pub fam: &'static str,
    /// Intersections are not integral, but everything is well separated.
    pub general: bool,
    /// Every crossing is an end of one of the two; angles are tiny.
    pub sheared: bool,
    /// Drive the sweep with f32.
    pub f32: bool,
    /// Zero coordinates get random signs (0: all positive).
    pub nz: u64,
}

/// An exponent for the unit of length: mostly moderate, sometimes extreme.
pub fn exponent(rng: &mut Rng, near: i64, far: i64) -> i32 {
    (match rng.below(8) {
        0..=3 => 0,
        4..=5 => rng.range(-near, near),
        6 => rng.range(-far / 3, far / 3),
        _ => rng.range(-far, far),
    }) as i32
}

impl Case {
    pub fn scale(&self) -> f64 {
        2f64.powi(self.e)
    }
    pub fn coord<T: Sc>(&self, q: P) -> Coordinate<T> {
        let s = self.scale();
        Coordinate { x: T::of(q.x as f64 * s), y: T::of(q.y as f64 * s) }
    }
    pub fn tags<T: Sc>(&self) -> Vec<Tag<T>> {
        self.segs
            .iter()
            .enumerate()
            .map(|(id, s)| {
                let mut l: Line<T> = Line { start: self.coord(s.a), end: self.coord(s.b) };
                if self.nz != 0 {
                    let b = Rng::new(self.nz ^ (id as u64) << 8).u64();
                    for (k, v) in [&mut l.start.x, &mut l.start.y, &mut l.end.x, &mut l.end.y].into_iter().enumerate() {
                        if *v == T::zero() && b >> k & 1 == 1 {
                            *v = -T::zero();
                        }
                    }
                }
                Tag { id, l }
            })
            .collect()
    }
    pub fn show(&self) -> String {
        let v: Vec<String> = self
            .segs
            .iter()
            .map(|s| format!("({},{})-({},{})", s.a.x, s.a.y, s.b.x, s.b.y))
            .collect();
        let k = format!("{}{}", if self.f32 { " as f32" } else { "" }, if self.nz != 0 { format!(" signed zeros {}", self.nz) } else { String::new() });
        format!("[{}] lines, coordinates x 2^{}{k}: {}", self.fam, self.e, v.join(" "))
    }
    pub fn feed(&self, ctx: &mut Ctx) {
        ctx.feed(self.e as u64);
        for s in &self.segs {
            for v in [s.a.x, s.a.y, s.b.x, s.b.y] {
                ctx.feed(v as u64);
            }
        }
    }
}

fn transform(rng: &mut Rng, segs: &mut Vec<Seg>, max_shift: i64) {
    let (mx, my, sw) = (rng.chance(1, 3), rng.chance(1, 3), rng.chance(1, 3));
    let (dx, dy) = if rng.chance(1, 2) {
        (rng.range(-max_shift, max_shift), rng.range(-max_shift, max_shift))
    } else {
        (0, 0)
    };
    let f = |q: P| {
        let mut q = q;
        if mx {
            q.x = -q.x;
        }
        if my {
            q.y = -q.y;
        }
        if sw {
            q = p(q.y, q.x);
        }
        p(q.x + dx, q.y + dy)
    };
    for s in segs.iter_mut() {
        *s = Seg { a: f(s.a), b: f(s.b) };
    }
}

/// Everything integral: rect / octilinear / 8-direction lattices of several shapes.
pub fn gen_exact(rng: &mut Rng, big: bool) -> Case {
    let rect: &[(i64, i64)] = &[(1, 0), (0, 1)];
    let dirs = *rng.pick(&[rect, OCT, OCT, DIR8, DIR8]);
    let l = lattice_scale(dirs);
    let fam = if rng.chance(1, 20) { 100 } else { rng.below(if big { 10 } else { 9 }) };
    let mut segs = vec![];
    let name;
    match fam {
        100 => {
            name = "pile";
            // dozens of coincident lines through a few points
            let k = rng.range(2, 4);
            let m = 2 + rng.usize(8);
            let base = lattice(rng, dirs, m, k, true);
            for _ in 0..20 + rng.usize(if big { 100 } else { 50 }) {
                let s = *rng.pick(&base);
                segs.push(if rng.chance(1, 2) { s } else { Seg { a: s.b, b: s.a } });
            }
            let m = rng.usize(10);
            segs.extend(lattice(rng, dirs, m, k, true));
            rng.shuffle(&mut segs);
        }
        0 => {
            name = "tiny-dense";
            let n = 2 + rng.usize(5);
            let k = rng.range(1, 3).max(if dirs.len() > 4 { 2 } else { 1 });
            segs = lattice(rng, dirs, n, k, true);
        }
        1 | 2 => {
            name = "lattice";
            let n = 1 + rng.usize(30);
            let k = rng.range(3, 14);
            let pts = rng.chance(1, 2);
            segs = lattice(rng, dirs, n, k, pts);
        }
        3 => {
            name = "star";
            let k = 12;
            let c = p(rng.range(4, 8) * l, rng.range(4, 8) * l);
            let n = 2 + rng.usize(14);
            for _ in 0..n {
                let d = *rng.pick(dirs);
                let (mut a, mut b) = (rng.range(0, 2), rng.range(0, 2));
                if a + b == 0 {
                    if rng.chance(1, 2) {
                        a = 1;
                    } else {
                        b = 1;
                    }
                }
                let s = Seg {
                    a: p(c.x - d.0 * a * l, c.y - d.1 * a * l),
                    b: p(c.x + d.0 * b * l, c.y + d.1 * b * l),
                };
                segs.push(if rng.chance(1, 2) { s } else { Seg { a: s.b, b: s.a } });
            }
            let m = rng.usize(8);
            segs.extend(lattice(rng, dirs, m, k, true));
            if rng.chance(1, 2) {
                segs.push(Seg { a: c, b: c });
            }
        }
        4 => {
            name = "collinear";
            // few supporting lines, many overlapping pieces
            let m = 1 + rng.usize(3);
            for _ in 0..m {
                let d = *rng.pick(dirs);
                let o = p(rng.range(0, 4), rng.range(0, 4));
                for _ in 0..1 + rng.usize(8) {
                    let (a, b) = (rng.range(0, 7), rng.range(0, 7));
                    segs.push(Seg {
                        a: p((o.x + a * d.0) * l, (o.y + a * d.1) * l),
                        b: p((o.x + b * d.0) * l, (o.y + b * d.1) * l),
                    });
                }
            }
            let m = rng.usize(6);
            segs.extend(lattice(rng, dirs, m, 8, true));
        }
        5 => {
            name = "grid";
            let (w, h) = (1 + rng.usize(9) as i64, 1 + rng.usize(9) as i64);
            for x in 0..=w {
                if rng.chance(3, 4) {
                    segs.push(Seg { a: p(x * l, rng.range(0, 1) * l), b: p(x * l, h * l) });
                }
            }
            for y in 0..=h {
                if rng.chance(3, 4) {
                    segs.push(Seg { a: p(w * l, y * l), b: p(rng.range(0, 1) * l, y * l) });
                }
            }
            if segs.is_empty() {
                segs.push(Seg { a: p(0, 0), b: p(l, l) });
            }
        }
        6 => {
            name = "closed-walk";
            let n = 1 + rng.usize(3);
            for _ in 0..n {
                let st = 4 + rng.usize(12);
                let k = rng.range(3, 9);
                let r = poly::walk_ring(rng, dirs, st, k, l);
                for i in 0..r.len() {
                    segs.push(Seg { a: r[i], b: r[(i + 1) % r.len()] });
                }
            }
        }
        7 => {
            name = "points";
            let n = 1 + rng.usize(8);
            let k = rng.range(2, 6);
            segs = lattice(rng, dirs, n, k, false);
            for _ in 0..1 + rng.usize(20) {
                let q = p(rng.range(0, k) * l, rng.range(0, k) * l);
                segs.push(Seg { a: q, b: q });
            }
            // points on lattice crossings that are not lattice nodes
            if l % 2 == 0 && rng.chance(1, 2) {
                let q = p(rng.range(0, 2 * k) * l / 2, rng.range(0, 2 * k) * l / 2);
                segs.push(Seg { a: q, b: q });
            }
        }
        8 => {
            name = "medium";
            let n = 30 + rng.usize(60);
            let k = rng.range(8, 30);
            segs = lattice(rng, dirs, n, k, true);
        }
        _ => {
            name = "large";
            let n = 150 + rng.usize(250);
            let k = rng.range(20, 60);
            segs = lattice(rng, dirs, n, k, true);
        }
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut segs);
    }
    let oct = segs.iter().all(|g| {
        let (dx, dy) = ((g.b.x - g.a.x).abs(), (g.b.y - g.a.y).abs());
        dx == 0 || dy == 0 || dx == dy
    });
    let mut f32 = false;
    let mut sheared = false;
    if rng.chance(1, 4) {
        // cut where lines cross, then flatten all angles
        let ins = node_points(&segs, || rng.u64()).expect("lattice crossings are integral");
        let mut cut = vec![];
        for (s, v) in segs.iter().zip(ins) {
            let mut a = s.a;
            for q in v {
                cut.push(Seg { a, b: q });
                a = q;
            }
            cut.push(Seg { a, b: s.b });
        }
        if rng.chance(1, 2) {
            rng.shuffle(&mut cut);
        }
        let bits = *rng.pick(&[2i64, 5, 9, 14]);
        let f = shear(rng, bits);
        segs = cut.iter().map(|s| Seg { a: f(s.a), b: f(s.b) }).collect();
        sheared = true;
    }
    if sheared {
        let sh = *rng.pick(&[6i64, 1000, 100_000, 1 << 40, 1 << 50]);
        transform(rng, &mut segs, sh);
        // only comparisons and exact predicates are needed
        f32 = reach(segs.iter().flat_map(|s| [&s.a, &s.b])) < 1 << 23 && rng.chance(1, 3);
    } else if oct && rng.chance(1, 3) {
        // every product stays exact in 24 bits
        transform(rng, &mut segs, 20);
        f32 = segs.iter().all(|g| [g.a.x, g.a.y, g.b.x, g.b.y].iter().all(|v| v.abs() <= 64));
    } else {
        let sh = *rng.pick(&[6i64, 1000, 100_000, 1 << 40]);
        transform(rng, &mut segs, sh);
    }
    let e = if f32 { exponent(rng, 8, 20) } else { exponent(rng, 12, 150) };
    let nz = if rng.chance(1, 3) { rng.u64() } else { 0 };
    Case { segs, e, fam: name, general: false, sheared, f32, nz }
}

/// Random coordinates in general position: exact combinatorics, inexact points.
pub fn gen_general(rng: &mut Rng, big: bool) -> Option<Case> {
    let m = 1i64 << 20;
    let m_n = if big && rng.chance(1, 6) { 90 } else { 24 };
    let n = 2 + rng.usize(m_n);
    let short = rng.chance(1, 3);
    let mut segs = vec![];
    for _ in 0..n {
        let a = p(rng.range(0, m), rng.range(0, m));
        let b = if short {
            p(a.x + rng.range(-m / 6, m / 6), a.y + rng.range(-m / 6, m / 6))
        } else {
            p(rng.range(0, m), rng.range(0, m))
        };
        segs.push(Seg { a, b });
    }
    transform(rng, &mut segs, m);
    // keep only well separated inputs
    let mut xs: Vec<f64> = vec![];
    for i in 0..n {
        if segs[i].is_point() {
            return None;
        }
        xs.push(segs[i].a.x as f64);
        xs.push(segs[i].b.x as f64);
        for j in 0..n {
            if i == j {
                continue;
            }
            for q in [segs[j].a, segs[j].b] {
                // distance of an end point to another line
                let s = &segs[i];
                let len = (((s.b.x - s.a.x) as f64).powi(2) + ((s.b.y - s.a.y) as f64).powi(2)).sqrt();
                let d = (cross(s.a, s.b, q) as f64).abs() / len;
                if d < 1e-3 {
                    return None;
                }
            }
            if j > i {
                match isec(&segs[i], &segs[j]) {
                    Isec::Pt(x, _, d) => {
                        xs.push(x as f64 / d as f64);
                        // nearly parallel crossing lines amplify rounding
                        let (u, v) = (&segs[i], &segs[j]);
                        let c = ((u.b.x - u.a.x) as f64 * (v.b.y - v.a.y) as f64
                            - (u.b.y - u.a.y) as f64 * (v.b.x - v.a.x) as f64)
                            .abs();
                        let l1 = (((u.b.x - u.a.x) as f64).powi(2) + ((u.b.y - u.a.y) as f64).powi(2)).sqrt();
                        let l2 = (((v.b.x - v.a.x) as f64).powi(2) + ((v.b.y - v.a.y) as f64).powi(2)).sqrt();
                        if c < 1e-4 * l1 * l2 {
                            return None;
                        }
                    }
                    Isec::Overlap(..) => return None,
                    Isec::None => {}
                }
            }
        }
    }
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if xs.windows(2).any(|w| w[1] - w[0] < 1e-3) {
        return None;
    }
    let e = exponent(rng, 30, 150);
    Some(Case { segs, e, fam: "general", general: true, sheared: false, f32: false, nz: 0 })
}

pub fn gen(rng: &mut Rng, thorough: bool) -> Case {
    if rng.chance(1, 4) {
        for _ in 0..50 {
            if let Some(c) = gen_general(rng, true) {
                return c;
            }
        }
    }
    let big = rng.chance(1, if thorough { 8 } else { 25 });
    gen_exact(rng, big)
}

/// One case in so many is a giant one, or has tens of thousands of lines.
const GIANT: u64 = 1500;
const TILES: u64 = 59_999;

/// Many of one thing: lines through one point, coincident lines, lines active
/// at once, lines in all.
pub fn gen_giant(rng: &mut Rng, tiles: bool) -> Case {
    let mut segs = vec![];
    let name;
    if tiles {
        name = "tiles";
        // more lines than 16 bits count, in separate groups
        let n = 66_000 + rng.usize(6000);
        let group: Vec<Vec<Seg>> = (0..6)
            .map(|_| loop {
                let c = gen_exact(rng, false);
                if !c.sheared && reach(c.segs.iter().flat_map(|s| [&s.a, &s.b])) < 1 << 12 {
                    break c.segs;
                }
            })
            .collect();
        let mut x = 0;
        while segs.len() < n {
            let g = rng.pick(&group);
            let (lo, hi) = g.iter().fold((i64::MAX, i64::MIN), |(l, h), s| (l.min(s.a.x.min(s.b.x)), h.max(s.a.x.max(s.b.x))));
            let d = x - lo;
            segs.extend(g.iter().map(|s| Seg { a: p(s.a.x + d, s.a.y), b: p(s.b.x + d, s.b.y) }));
            x += hi - lo + rng.range(1, 3);
        }
        // exact products need small coordinates
        let m = x / 2;
        for s in segs.iter_mut() {
            s.a.x -= m;
            s.b.x -= m;
        }
        if rng.chance(1, 2) {
            rng.shuffle(&mut segs);
        }
        return Case { segs, e: 0, fam: name, general: false, sheared: false, f32: false, nz: 0 };
    }
    let m = *rng.pick(&[40usize, 120, 350]);
    let n = 258 + rng.usize(m);
    match rng.below(4) {
        0 => {
            name = "crowd";
            let c = p(0, 0);
            let r = 24;
            while segs.len() < n {
                let d = p(rng.range(-r, r), rng.range(-r, r));
                if d == c {
                    continue;
                }
                // from the point, to the point, or through it
                let (a, b) = match rng.below(5) {
                    0 => (0, 1),
                    _ => (rng.range(1, 3), rng.range(1, 3)),
                };
                let s = Seg { a: p(-d.x * a, -d.y * a), b: p(d.x * b, d.y * b) };
                segs.push(if rng.chance(1, 2) { s } else { Seg { a: s.b, b: s.a } });
                if rng.chance(1, 200) {
                    segs.push(Seg { a: c, b: c });
                }
            }
        }
        1 => {
            name = "heap";
            // hundreds of coincident lines
            let l = lattice_scale(OCT);
            let m = 1 + rng.usize(3);
            let base = lattice(rng, OCT, m, 3, false);
            while segs.len() < n {
                let s = *rng.pick(&base);
                segs.push(if rng.chance(1, 2) { s } else { Seg { a: s.b, b: s.a } });
            }
            if rng.chance(1, 2) {
                for _ in 0..1 + rng.usize(4) {
                    let q = p(rng.range(0, 3) * l, rng.range(0, 3) * l);
                    let at = rng.usize(segs.len());
                    segs.insert(at, Seg { a: q, b: q });
                }
            }
        }
        2 => {
            name = "rungs";
            // hundreds of lines active at once, and some across them
            let w = 2 * n as i64;
            for i in 0..n as i64 {
                let (a, b) = if rng.chance(1, 8) { (0, w) } else { (rng.range(0, w / 4), rng.range(3 * w / 4, w)) };
                segs.push(if rng.chance(1, 2) { Seg { a: p(2 * a, 4 * i), b: p(2 * b, 4 * i) } } else { Seg { a: p(2 * b, 4 * i), b: p(2 * a, 4 * i) } });
            }
            for _ in 0..1 + rng.usize(6) {
                let y = 2 * rng.range(0, 2 * n as i64 - 1);
                let (x, h) = (2 * rng.range(0, w), 2 * rng.range(1, n as i64));
                segs.push(match rng.below(3) {
                    0 => Seg { a: p(x, y), b: p(x, y + h) },
                    1 => Seg { a: p(x, y), b: p(x + h, y + h) },
                    _ => Seg { a: p(x, y + h), b: p(x + h, y) },
                });
            }
            if rng.chance(1, 2) {
                rng.shuffle(&mut segs);
            }
        }
        _ => {
            name = "crowded-lattice";
            let k = rng.range(6, 16);
            segs = lattice(rng, OCT, n, k, true);
        }
    }
    transform(rng, &mut segs, 1000);
    let e = exponent(rng, 12, 150);
    Case { segs, e, fam: name, general: false, sheared: false, f32: false, nz: 0 }
}

/// What the sweep reported at one step.
#[derive(Clone, Debug)]
pub struct Obs {
    pub id: usize,
    pub lo: (f64, f64),
    pub hi: (f64, f64),
    pub is_line: bool,
    pub first: bool,
    pub ovl: bool,
    pub left: bool,
}
#[derive(Clone, Debug)]
pub struct Step {
    pub pt: (f64, f64),
    pub segs: Vec<Obs>,
}

pub fn c2<T: Sc>(c: Coordinate<T>) -> (f64, f64) {
    (c.x.to(), c.y.to())
}

/// The pieces reported at the point last yielded.
pub fn batch<C, T>(it: &CrossingsIter<C>, id: &impl Fn(&C) -> usize) -> Vec<Obs>
where
    T: Sc,
    C: Crossable<Scalar = T> + Clone,
{
    it.intersections()
        .iter()
        .map(|c| {
            let l = c.line.line();
            Obs {
                id: id(&c.crossable),
                lo: c2(l.start),
                hi: c2(l.end),
                is_line: c.line.is_line(),
                first: c.first_segment,
                ovl: c.has_overlap,
                left: c.at_left,
            }
        })
        .collect()
}

pub fn trace_of<C, T>(items: impl IntoIterator<Item = C>, cap: usize, id: impl Fn(&C) -> usize) -> Result<Vec<Step>, String>
where
    T: Sc,
    C: Crossable<Scalar = T> + Clone,
{
    sut("CrossingsIter", || {
        let mut it = CrossingsIter::from_iter(items);
        let mut out = vec![];
        while let Some(pt) = it.next() {
            out.push(Step { pt: c2(pt), segs: batch(&it, &id) });
            if out.len() > cap {
                return Err(format!("more than {cap} points were yielded"));
            }
        }
        // a finished iterator stays finished
        for _ in 0..3 {
            if it.next().is_some() {
                return Err("yielded a point after the end".to_string());
            }
        }
        Ok(out)
    })?
}

/// The trace of a case in its scalar.
pub fn trace_case(case: &Case, cap: usize) -> Result<Vec<Step>, String> {
    if case.f32 {
        trace_of::<Tag<f32>, f32>(case.tags(), cap, |t| t.id)
    } else {
        trace_of::<Tag<f64>, f64>(case.tags(), cap, |t| t.id)
    }
}

/// The exact arrangement of the input.
pub struct Truth {
    /// Event points as exact rationals, in sweep order (general: `d` != 1).
    pub events: Vec<(i128, i128, i128)>,
    /// Break points along every line, in sweep order.
    pub breaks: Vec<Vec<(i128, i128, i128)>>,
    /// Contacts of pairs i < j.
    pub pairs: BTreeMap<(usize, usize), Isec>,
}

fn red(x: i128, y: i128, d: i128) -> (i128, i128, i128) {
    let g = gcd(gcd(x, y), d).max(1);
    (x / g, y / g, d / g)
}
fn cmp_pt(a: &(i128, i128, i128), b: &(i128, i128, i128)) -> std::cmp::Ordering {
    (a.0 * b.2).cmp(&(b.0 * a.2)).then((a.1 * b.2).cmp(&(b.1 * a.2)))
}
fn of_p(q: P) -> (i128, i128, i128) {
    (q.x as i128, q.y as i128, 1)
}

pub fn truth(segs: &[Seg]) -> Truth {
    let n = segs.len();
    let mut breaks: Vec<Vec<(i128, i128, i128)>> =
        segs.iter().map(|s| vec![of_p(s.lo()), of_p(s.hi())]).collect();
    let mut pairs = BTreeMap::new();
    let mut ord: Vec<usize> = (0..n).collect();
    ord.sort_by_key(|&i| segs[i].lo().x);
    for a in 0..n {
        for b in a + 1..n {
            let (i, j) = (ord[a].min(ord[b]), ord[a].max(ord[b]));
            if segs[ord[b]].lo().x > segs[ord[a]].hi().x {
                break;
            }
            let r = isec(&segs[i], &segs[j]);
            match r {
                Isec::None => continue,
                Isec::Pt(x, y, d) => {
                    let q = red(x, y, d);
                    breaks[i].push(q);
                    breaks[j].push(q);
                }
                Isec::Overlap(u, v) => {
                    for q in [of_p(u), of_p(v)] {
                        breaks[i].push(q);
                        breaks[j].push(q);
                    }
                }
            }
            pairs.insert((i, j), r);
        }
    }
    let mut events = vec![];
    for b in breaks.iter_mut() {
        b.sort_by(cmp_pt);
        b.dedup();
        events.extend(b.iter().cloned());
    }
    events.sort_by(cmp_pt);
    events.dedup();
    Truth { events, breaks, pairs }
}

pub fn near(case: &Case, o: (f64, f64), q: &(i128, i128, i128)) -> bool {
    let s = case.scale();
    let (x, y) = (q.0 as f64 / q.2 as f64, q.1 as f64 / q.2 as f64);
    if q.2 == 1 {
        return o == (x * s, y * s);
    }
    let tol = 1e-4;
    (o.0 / s - x).abs() <= tol && (o.1 / s - y).abs() <= tol
}
fn pshow(case: &Case, q: &(i128, i128, i128)) -> String {
    let s = case.scale();
    format!("({}, {})", q.0 as f64 / q.2 as f64 * s, q.1 as f64 / q.2 as f64 * s)
}

/// Map every yielded point to the index of the exact event it stands for.
pub fn match_events(case: &Case, tr: &Truth, steps: &[Step]) -> Verdict {
    for (k, st) in steps.iter().enumerate() {
        if k > 0 {
            ensure!(
                steps[k - 1].pt < st.pt,
                "points not strictly increasing: {:?} then {:?}",
                steps[k - 1].pt,
                st.pt
            );
        }
        match tr.events.get(k) {
            None => return Err(format!("extra point {:?} after the {} expected ones", st.pt, k)),
            Some(e) => ensure!(
                near(case, st.pt, e),
                "point #{k} is {:?}, expected {}",
                st.pt,
                pshow(case, e)
            ),
        }
    }
    ensure!(
        steps.len() == tr.events.len(),
        "{} of {} points yielded; missing {}",
        steps.len(),
        tr.events.len(),
        pshow(case, &tr.events[steps.len()])
    );
    Ok(())
}

fn note(ctx: &mut Ctx, case: &Case, tr: &Truth) {
    case.feed(ctx);
    ctx.nontrivial = !tr.pairs.is_empty();
    ctx.add("lines", case.segs.len() as u64);
    ctx.add("true_contacts", tr.pairs.len() as u64);
    ctx.add(
        "true_overlaps",
        tr.pairs.values().filter(|v| matches!(v, Isec::Overlap(..))).count() as u64,
    );
    ctx.add("point_inputs", case.segs.iter().filter(|s| s.is_point()).count() as u64);
    ctx.add(
        match case.fam {
            "general" => "family_general_position",
            "tiny-dense" => "family_tiny_dense",
            "star" => "family_star",
            "collinear" => "family_collinear",
            "grid" => "family_grid",
            "closed-walk" => "family_closed_walk",
            "points" => "family_points",
            "large" => "family_large",
            "pile" => "family_pile",
            "tiles" => "family_tens_of_thousands_of_lines",
            "crowd" => "family_hundreds_through_a_point",
            "heap" => "family_hundreds_coincident",
            "rungs" => "family_hundreds_active",
            "crowded-lattice" => "family_hundreds_on_few_nodes",
            _ => "family_lattice",
        },
        1,
    );
    if case.f32 {
        ctx.add("scalar_f32", 1);
    }
    if case.nz != 0 {
        ctx.add("cases_signed_zeros", 1);
    }
    if case.sheared {
        ctx.add("cases_sheared", 1);
    }
    if case.e.abs() > 30 {
        ctx.add("cases_extreme_unit", 1);
    }
}

pub fn setup(ctx: &mut Ctx, rng: &mut Rng) -> (Case, Truth) {
    let case = match rng.below(TILES) {
        _ if rare(TILES) => gen_giant(rng, true),
        r if r % GIANT == 1 => gen_giant(rng, false),
        _ => gen(rng, ctx.thorough),
    };
    let tr = truth(&case.segs);
    note(ctx, &case, &tr);
    ctx.input(|| case.show());
    (case, tr)
}
fn cap(tr: &Truth) -> usize {
    4 * tr.events.len() + 64
}

pub fn c01(ctx: &mut Ctx, rng: &mut Rng, _c: u64) -> Verdict {
    let (case, tr) = setup(ctx, rng);
    let steps = trace_case(&case, cap(&tr))?;
    ctx.add("points_observed", steps.len() as u64);
    match_events(&case, &tr, &steps)?;
    if !case.general {
        // the plain `Line` crossable and the iterator adapters see the same points
        fn plain<T: Sc>(case: &Case, cap: usize) -> Result<Vec<(f64, f64)>, String> {
            let lines: Vec<Line<T>> = case.tags().iter().map(|t| t.l).collect();
            sut("CrossingsIter<Line>", || CrossingsIter::from_iter(lines.clone()).map(c2).take(cap).collect::<Vec<_>>())
        }
        let pts = if case.f32 { plain::<f32>(&case, cap(&tr))? } else { plain::<f64>(&case, cap(&tr))? };
        ensure!(
            pts == steps.iter().map(|s| s.pt).collect::<Vec<_>>(),
            "collecting the iterator of plain lines yields other points: {pts:?}"
        );
    }
    Ok(())
}

pub fn pieces(case: &Case, tr: &Truth, steps: &[Step], ctx: &mut Ctx) -> Verdict {
    let n = case.segs.len();
    // per line: index of next break to be seen as left end / right end
    let mut lefts = vec![0usize; n];
    let mut rights = vec![0usize; n];
    // in general position the cut points are rounded: every piece must reuse
    // the very coordinates of the yielded point.
    let mut last_pt: Vec<Option<(f64, f64)>> = vec![None; n];
    for (k, st) in steps.iter().enumerate() {
        let ev = &tr.events[k];
        ensure!(!st.segs.is_empty(), "point {:?} yielded without any segment", st.pt);
        for (m, o) in st.segs.iter().enumerate() {
            let i = o.id;
            let b = &tr.breaks[i];
            let nb = b.len() - 1;
            let what = || {
                format!(
                    "at {:?}: piece {:?}-{:?} of line {} (at_left={} first={} overlap={})",
                    st.pt, o.lo, o.hi, i, o.left, o.first, o.ovl
                )
            };
            ctx.add("crossings_observed", 1);
            if case.segs[i].is_point() {
                ensure!(!o.is_line && o.lo == st.pt, "{}: a point was reported as something else", what());
                ensure!(!o.left && !o.ovl, "{}: bad flags on a point", what());
                ensure!(o.first, "{}: a point is its own first segment", what());
                rights[i] += 1;
                ensure!(rights[i] == 1, "{}: point reported twice", what());
                continue;
            }
            ensure!(o.is_line && o.lo < o.hi, "{}: not an ordered segment", what());
            // has_overlap announces the next element of the batch
            let nxt = st.segs.get(m + 1);
            if o.ovl {
                ctx.add("overlap_flags_observed", 1);
                match nxt {
                    Some(q) => ensure!(
                        q.left == o.left && q.lo == o.lo && q.hi == o.hi && q.id != o.id,
                        "{}: has_overlap but the next one {:?} does not overlap it",
                        what(),
                        q
                    ),
                    None => return Err(format!("{}: has_overlap on the last of the batch", what())),
                }
            } else if let Some(q) = nxt {
                if !o.left && !q.left {
                    ensure!(
                        !(q.lo == o.lo && q.hi == o.hi),
                        "{}: next one ends with the same geometry but has_overlap is unset",
                        what()
                    );
                }
            }
            if o.left {
                let l = lefts[i];
                ensure!(l < nb && cmp_pt(&b[l], ev).is_eq(), "{}: not the next starting piece of that line", what());
                ensure!(o.lo == st.pt, "{}: starts elsewhere", what());
                if let Some(q) = last_pt[i] {
                    ensure!(q == o.lo, "{}: does not continue the previous piece ending at {q:?}", what());
                }
                ensure!(
                    b[l + 1..].iter().any(|q| near(case, o.hi, q)),
                    "{}: ends at none of the line's later event points",
                    what()
                );
                if l > 0 {
                    ensure!(!o.first, "{}: first_segment on a later piece", what());
                } else if !o.first {
                    let whole = near(case, o.hi, &b[nb]);
                    ensure!(!whole, "{}: first_segment unset on a whole line", what());
                    ctx.known("first_segment-lost", what);
                }
                lefts[i] += 1;
            } else {
                let r = rights[i] + 1;
                ensure!(r <= nb && cmp_pt(&b[r], ev).is_eq(), "{}: not the next ending piece of that line", what());
                ensure!(o.hi == st.pt, "{}: ends elsewhere", what());
                ensure!(near(case, o.lo, &b[r - 1]), "{}: another event point lies inside", what());
                ensure!(lefts[i] == r, "{}: ended without having started", what());
                if nb == 1 {
                    ensure!(o.first, "{}: first_segment unset on an unsplit line", what());
                } else if r > 1 {
                    ensure!(!o.first, "{}: first_segment on a later piece", what());
                } else if !o.first {
                    ctx.known("first_segment-lost", what);
                }
                last_pt[i] = Some(o.hi);
                rights[i] += 1;
            }
        }
    }
    for i in 0..n {
        let nb = if case.segs[i].is_point() { 1 } else { tr.breaks[i].len() - 1 };
        ensure!(
            rights[i] == nb && (case.segs[i].is_point() || lefts[i] == nb),
            "line {i}: {} starts and {} ends reported for {} pieces",
            lefts[i],
            rights[i],
            nb
        );
    }
    Ok(())
}

pub fn c02(ctx: &mut Ctx, rng: &mut Rng, _c: u64) -> Verdict {
    let (case, tr) = setup(ctx, rng);
    let steps = trace_case(&case, cap(&tr))?;
    ensure!(
        steps.len() == tr.events.len(),
        "{} points yielded, {} expected",
        steps.len(),
        tr.events.len()
    );
    match_events(&case, &tr, &steps)?;
    pieces(&case, &tr, &steps, ctx)?;
    // `intersections` and `intersections_mut` expose the same batch
    sut("intersections_mut", || {
        let mut it = CrossingsIter::from_iter(case.tags::<f64>());
        while it.next().is_some() {
            let a: Vec<(usize, bool)> = it.intersections().iter().map(|c| (c.crossable.id, c.at_left)).collect();
            let b: Vec<(usize, bool)> = it.intersections_mut().iter().map(|c| (c.crossable.id, c.at_left)).collect();
            if a != b {
                return Err("intersections() and intersections_mut() differ".to_string());
            }
        }
        Ok(())
    })?
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Cls {
    /// starts there, announced as first segment
    Start,
    /// starts there, but not announced as the first segment (known finding)
    Lost,
    /// ends there, passes through, or is a point
    Other,
}

pub fn pairs_of<T: Sc>(tags: Vec<Tag<T>>, cap: usize) -> Result<Vec<(usize, usize, LineIntersection<T>)>, String> {
    sut("Intersections", || {
        let mut it = Intersections::from_iter(tags);
        let mut v = vec![];
        while let Some((a, b, x)) = it.next() {
            v.push((a.id, b.id, x));
            if v.len() > cap {
                return Err(format!("more than {cap} pairs were yielded"));
            }
        }
        Ok(v)
    })?
}

/// The reported pairs of a case in its scalar.
pub fn pairs_case(case: &Case, cap: usize) -> Result<Vec<(usize, usize, LineIntersection<f64>)>, String> {
    if !case.f32 {
        return pairs_of(case.tags::<f64>(), cap);
    }
    let w = |c: Coordinate<f32>| Coordinate { x: c.x as f64, y: c.y as f64 };
    Ok(pairs_of(case.tags::<f32>(), cap)?
        .into_iter()
        .map(|(a, b, x)| {
            let x = match x {
                LineIntersection::SinglePoint { intersection, is_proper } => LineIntersection::SinglePoint { intersection: w(intersection), is_proper },
                LineIntersection::Collinear { intersection } => {
                    LineIntersection::Collinear { intersection: Line { start: w(intersection.start), end: w(intersection.end) } }
                }
            };
            (a, b, x)
        })
        .collect())
}

pub fn check_value(case: &Case, i: usize, j: usize, want: &Isec, x: &LineIntersection<f64>) -> Verdict {
    let s = case.scale();
    let (si, sj) = (&case.segs[i], &case.segs[j]);
    match (want, x) {
        (Isec::Overlap(u, v), LineIntersection::Collinear { intersection: l }) => {
            let (a, b) = (c2(l.start), c2(l.end));
            let (a, b) = if a <= b { (a, b) } else { (b, a) };
            ensure!(
                a == (u.x as f64 * s, u.y as f64 * s) && b == (v.x as f64 * s, v.y as f64 * s),
                "pair ({i},{j}): overlap reported as {l:?}, is {u:?}-{v:?} x {s}"
            );
        }
        (Isec::Pt(px, py, d), x) => {
            let q = red(*px, *py, *d);
            let (o, proper) = match x {
                LineIntersection::SinglePoint { intersection, is_proper } => (c2(*intersection), Some(*is_proper)),
                // a degenerate overlap stands for a point only if an input is one
                LineIntersection::Collinear { intersection: l } => {
                    ensure!(
                        l.start == l.end && (si.is_point() || sj.is_point()),
                        "pair ({i},{j}): single point reported as the overlap {l:?}"
                    );
                    (c2(l.start), None)
                }
            };
            ensure!(near(case, o, &q), "pair ({i},{j}): intersection reported at {o:?}, is {}", pshow(case, &q));
            if let Some(pr) = proper {
                let at_end = |g: &Seg| of_p(g.a) == q || of_p(g.b) == q;
                let want = !at_end(si) && !at_end(sj);
                ensure!(pr == want, "pair ({i},{j}): is_proper={pr}");
            }
        }
        (w, x) => return Err(format!("pair ({i},{j}): {x:?} reported, the true contact is {w:?}")),
    }
    Ok(())
}

pub fn c03(ctx: &mut Ctx, rng: &mut Rng, _c: u64) -> Verdict {
    let (case, tr) = setup(ctx, rng);
    let n = case.segs.len();
    let got = pairs_case(&case, 8 * tr.pairs.len() + 64)?;
    ctx.add("pairs_observed", got.len() as u64);
    // how the sweep announced every line (the cause of the known finding)
    let steps = trace_case(&case, cap(&tr))?;
    match_events(&case, &tr, &steps)?;
    let mut lost = vec![false; n];
    for st in &steps {
        for o in &st.segs {
            let s = &case.segs[o.id];
            if o.left && o.lo == c2(case.coord::<f64>(s.lo())) && !o.first {
                // only a line cut short on arrival is announced like that
                ensure!(
                    o.hi != c2(case.coord::<f64>(s.hi())),
                    "line {} starts whole at {:?} but is not its first segment",
                    o.id,
                    st.pt
                );
                lost[o.id] = true;
            }
        }
    }
    let mut cnt: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (a, b, x) in &got {
        ensure!(a != b, "line {a} reported as intersecting itself");
        let k = (*a.min(b), *a.max(b));
        match tr.pairs.get(&k) {
            None => return Err(format!("disjoint pair {k:?} reported as {x:?}")),
            Some(w) => check_value(&case, k.0, k.1, w, x)?,
        }
        *cnt.entry(k).or_insert(0) += 1;
    }
    for (&(i, j), w) in &tr.pairs {
        let c = cnt.get(&(i, j)).copied().unwrap_or(0);
        let class = |g: usize, q: P| -> Cls {
            let s = &case.segs[g];
            if s.is_point() || s.lo() != q {
                Cls::Other
            } else if lost[g] {
                Cls::Lost
            } else {
                Cls::Start
            }
        };
        match w {
            Isec::Pt(x, y, d) => {
                let known_miss = *d != 0 && x % d == 0 && y % d == 0 && {
                    let q = p((x / d) as i64, (y / d) as i64);
                    class(i, q) == Cls::Lost || class(j, q) == Cls::Lost
                };
                if known_miss {
                    ensure!(c == 0, "pair ({i},{j}): reported {c} times (expected the known miss)");
                    ctx.known("pair-missed-at-start", || format!("pair ({i},{j}) missed in {}", case.show()));
                } else {
                    ensure!(c == 1, "pair ({i},{j}) touching in one point reported {c} times");
                }
            }
            Isec::Overlap(u, _) => {
                let (ci, cj) = (class(i, *u), class(j, *u));
                if ci == Cls::Start && cj == Cls::Start {
                    ensure!(c == 1, "overlapping pair ({i},{j}) reported {c} times");
                } else if ci == Cls::Lost || cj == Cls::Lost {
                    ensure!(c == 0, "overlapping pair ({i},{j}): reported {c} times (expected the known miss)");
                    ctx.known("pair-missed-at-start", || format!("overlapping pair ({i},{j}) missed in {}", case.show()));
                } else {
                    ensure!(c == 1, "overlapping pair ({i},{j}), one of which starts earlier, reported {c} times");
                }
            }
            Isec::None => {}
        }
    }
    Ok(())
}

#[allow(dead_code)]
pub fn distinct_pts(v: &[P]) -> usize {
    v.iter().collect::<BTreeSet<_>>().len()
}
#[allow(dead_code)]
pub fn lop<T: Sc>(c: &Case, s: &Seg) -> LineOrPoint<T> {
    LineOrPoint::from(Line { start: c.coord(s.a), end: c.coord(s.b) })
}
