//! Monitors for boolean operations: C05 (region), C06 (validity), C07 (algebra).
use crate::ctx::*;
use crate::ensure;
use crate::exact::*;
use crate::genseg::*;
use crate::poly::*;
use crate::rng::Rng;
use crate::segs::exponent;
use geo::{Coordinate, LineString, MultiPolygon, Polygon};
use geo_crossings::bops::OpType;
use geo_crossings::BooleanOp;
use std::collections::{BTreeMap, BTreeSet};

pub const OPS: [OpType; 4] = [OpType::Intersection, OpType::Union, OpType::Difference, OpType::Xor];

pub fn want(op: OpType, a: bool, b: bool) -> bool {
    match op {
        OpType::Intersection => a && b,
        OpType::Union => a || b,
        OpType::Difference => a && !b,
        OpType::Xor => a != b,
    }
}

#[derive(Clone, Debug)]
pub struct Pair {
    pub a: MPoly,
    pub b: MPoly,
    pub e: i32,
    pub fam: &'static str,
    pub general: bool,
    /// Every crossing is a vertex; angles are tiny.
    pub sheared: bool,
    /// Run in f32.
    pub f32: bool,
    /// Zero coordinates get random signs (0: all positive).
    pub nz: u64,
    /// The operands side by side: x-range and both operands of each part.
    pub parts: Vec<(i64, i64, MPoly, MPoly)>,
}

pub fn show_ring(r: &Ring) -> String {
    let v: Vec<String> = r.iter().map(|q| format!("({},{})", q.x, q.y)).collect();
    format!("[{}]", v.join(","))
}
pub fn show_mp(m: &MPoly) -> String {
    let v: Vec<String> = m
        .iter()
        .map(|q| {
            let mut s = format!("ext{}", show_ring(&q.ext));
            for h in &q.holes {
                s.push_str(&format!(" hole{}", show_ring(h)));
            }
            format!("{{{s}}}")
        })
        .collect();
    v.join(" ")
}
impl Pair {
    /// The operand handed to the code under test.
    pub fn geo(&self, m: &MPoly) -> MultiPolygon<f64> {
        let g = gmp(m, self.scale());
        if self.nz == 0 {
            return g;
        }
        let rng = std::cell::RefCell::new(Rng::new(self.nz));
        use geo::algorithm::map_coords::MapCoords;
        g.map_coords(|&(x, y)| {
            let b = rng.borrow_mut().u64();
            (if x == 0. && b & 1 == 1 { -0. } else { x }, if y == 0. && b & 2 == 2 { -0. } else { y })
        })
    }
    pub fn run(&self, a: &MultiPolygon<f64>, b: &MultiPolygon<f64>, op: OpType) -> Result<MultiPolygon<f64>, String> {
        if !self.f32 {
            return run_op(a, b, op);
        }
        use geo::algorithm::map_coords::MapCoords;
        let f = |m: &MultiPolygon<f64>| -> MultiPolygon<f32> { m.map_coords(|&(x, y)| (x as f32, y as f32)) };
        let (a, b) = (f(a), f(b));
        let o = sut(&format!("boolean_op({op:?}) on f32"), || a.boolean_op(&b, op))?;
        Ok(o.map_coords(|&(x, y)| (x as f64, y as f64)))
    }
    pub fn scale(&self) -> f64 {
        2f64.powi(self.e)
    }
    pub fn show(&self) -> String {
        let k = format!("{}{}", if self.f32 { " as f32" } else { "" }, if self.nz != 0 { format!(" signed zeros {}", self.nz) } else { String::new() });
        format!("[{}] coordinates x 2^{}{k}: A = {} B = {}", self.fam, self.e, show_mp(&self.a), show_mp(&self.b))
    }
}

pub fn ls(r: &Ring, s: f64) -> LineString<f64> {
    let mut v: Vec<Coordinate<f64>> = r.iter().map(|q| Coordinate { x: q.x as f64 * s, y: q.y as f64 * s }).collect();
    if !v.is_empty() {
        v.push(v[0]);
    }
    LineString(v)
}
pub fn gp(p: &Poly, s: f64) -> Polygon<f64> {
    Polygon::new(ls(&p.ext, s), p.holes.iter().map(|h| ls(h, s)).collect())
}
pub fn gmp(m: &MPoly, s: f64) -> MultiPolygon<f64> {
    MultiPolygon(m.iter().map(|p| gp(p, s)).collect())
}
/// Back to integers; every ring must be closed and on the lattice.
pub fn from_geo(m: &MultiPolygon<f64>, s: f64) -> Result<MPoly, String> {
    let ring = |l: &LineString<f64>| -> Result<Ring, String> {
        ensure!(l.0.len() >= 4 && l.0.first() == l.0.last(), "output ring {l:?} is not closed or has < 4 coordinates");
        l.0[..l.0.len() - 1]
            .iter()
            .map(|c| {
                let (x, y) = (c.x / s, c.y / s);
                ensure!(x == x.round() && y == y.round() && x.abs() < 9e15 && y.abs() < 9e15, "output vertex {c:?} is not on the lattice");
                Ok(p(x as i64, y as i64))
            })
            .collect()
    };
    m.0.iter()
        .map(|q| Ok(Poly { ext: ring(q.exterior())?, holes: q.interiors().iter().map(|h| ring(h)).collect::<Result<_, _>>()? }))
        .collect()
}

fn lin(m: &MPoly, a: i64, b: i64, c: i64, d: i64) -> MPoly {
    map_mpoly(m, |q| p(a * q.x + b * q.y, c * q.x + d * q.y))
}

fn tri(rng: &mut Rng, dirs: &[(i64, i64)], k: i64, l: i64) -> Option<Ring> {
    for _ in 0..200 {
        let (d1, d2) = (*rng.pick(dirs), *rng.pick(dirs));
        let (a, b) = (rng.range(-k, k), rng.range(-k, k));
        let (u, v) = (p(d1.0 * a, d1.1 * a), p(d2.0 * b, d2.1 * b));
        let (ex, ey) = (u.x - v.x, u.y - v.y);
        if u.x * v.y - u.y * v.x == 0 || !dirs.iter().any(|d| d.0 * ey == d.1 * ex) {
            continue;
        }
        let o = p(rng.range(0, k), rng.range(0, k));
        let w = [o, p(o.x + u.x, o.y + u.y), p(o.x + v.x, o.y + v.y)];
        return Some(w.iter().map(|q| p(q.x * l, q.y * l)).collect());
    }
    None
}

fn rot_ring(rng: &mut Rng, r: &mut Ring) {
    if r.is_empty() {
        return;
    }
    let k = rng.usize(r.len());
    r.rotate_left(k);
    if rng.chance(1, 2) {
        r.reverse();
    }
}

fn cells(rng: &mut Rng, w: usize, h: usize) -> Vec<Vec<bool>> {
    let den = *rng.pick(&[15u64, 35, 50, 65, 85]);
    if rng.chance(1, 8) {
        let o = rng.usize(2);
        return (0..w).map(|x| (0..h).map(|y| (x + y) % 2 == o).collect()).collect();
    }
    polyomino(rng, w, h, den)
}

/// One case in so many has hundreds of rings, levels, coincident edges or
/// edges at a point, or tens of thousands of edges.
const GIANT: u64 = 3000;
const TILES: u64 = 39_999;

/// More edges than 16 bits count, in separate groups; or more rings.
fn gen_tiles(rng: &mut Rng) -> Pair {
    let rings = rare_count(TILES) / 2 % 2 == 1;
    let base: Vec<(MPoly, MPoly, i64, i64)> = (0..6)
        .map(|i| loop {
            if rings && i > 0 {
                // a triangle, some with a hole, alone in either operand
                let (h, t) = (rng.range(0, 12), vec![p(0, 0), p(12, 0), p(rng.range(0, 12), 12)]);
                let hole = vec![p(5, 2), p(6, 3), p(7, 2)];
                let up = |r: &Vec<P>| r.iter().map(|q| p(q.x, q.y + h)).collect();
                let m = vec![Poly { ext: up(&t), holes: if rng.chance(2, 3) { vec![up(&hole)] } else { vec![] } }];
                break if rng.chance(1, 2) { (m, vec![], 0, 12) } else { (vec![], m, 0, 12) };
            }
            let c = gen_poly_exact(rng, false);
            let es: Vec<Seg> = edges(&c.a).into_iter().chain(edges(&c.b)).collect();
            if !c.sheared && !es.is_empty() && reach(es.iter().map(|s| &s.a)) < 1 << 12 {
                let (lo, hi) = (es.iter().map(|s| s.a.x).min().unwrap(), es.iter().map(|s| s.a.x).max().unwrap());
                break (c.a, c.b, lo, hi);
            }
        })
        .collect();
    let (mut a, mut b, mut parts) = (vec![], vec![], vec![]);
    let n = 66_000 + rng.usize(4000);
    let (mut k, mut x) = (0, -(1i64 << 20));
    while k < n {
        let (ba, bb, lo, hi) = rng.pick(&base);
        let d = x - lo;
        let mv = |m: &MPoly| map_mpoly(m, |q| p(q.x + d, q.y));
        let (ta, tb) = (mv(ba), mv(bb));
        k += if rings { ta.iter().chain(&tb).map(|q| 1 + q.holes.len()).sum() } else { edges(&ta).len() + edges(&tb).len() };
        a.extend(ta.iter().cloned());
        b.extend(tb.iter().cloned());
        parts.push((x, x + hi - lo, ta, tb));
        x += hi - lo + rng.range(1, 3);
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut a);
        rng.shuffle(&mut b);
    }
    Pair { a, b, e: 0, fam: if rings { "tiles-rings" } else { "tiles" }, general: false, sheared: false, f32: false, nz: 0, parts }
}

pub fn gen_poly_exact(rng: &mut Rng, big: bool) -> Pair {
    let fam = rng.below(if big { 9 } else { 8 });
    gen_poly_of(rng, fam)
}

fn gen_poly_of(rng: &mut Rng, fam: u64) -> Pair {
    let (mut a, mut b, name): (MPoly, MPoly, &'static str);
    match fam {
        0 | 1 => {
            name = "polyomino";
            let (w, h) = (1 + rng.usize(7), 1 + rng.usize(7));
            let ca = cells(rng, w, h);
            let cb = match rng.below(6) {
                0 => ca.clone(),
                1 => ca.iter().map(|c| c.iter().map(|v| !v).collect()).collect(),
                2 => {
                    let mut c = ca.clone();
                    let (x, y) = (rng.usize(w), rng.usize(h));
                    c[x][y] = !c[x][y];
                    c
                }
                _ => cells(rng, w, h),
            };
            a = nest(trace(&ca));
            b = nest(trace(&cb));
            let (m, n) = *rng.pick(&[(1, 0), (1, 1), (0, 1), (2, 1), (-1, 3)]);
            match rng.below(4) {
                0 => {}
                1 => {
                    a = lin(&a, m, n, -n, m);
                    b = lin(&b, m, n, -n, m);
                }
                2 => {
                    a = lin(&a, 1, n, 0, 1);
                    b = lin(&b, 1, n, 0, 1);
                }
                _ => {
                    a = lin(&a, 1, 0, n, 1);
                    b = lin(&b, 1, 0, n, 1);
                }
            }
            if rng.chance(1, 3) {
                // keep the grid but shift one of them
                let (dx, dy) = (a.get(0).map_or(0, |q| q.ext[0].x), 1);
                if m == 1 && n == 0 {
                    b = map_mpoly(&b, |q| p(q.x + dx % 3, q.y + dy));
                }
            }
        }
        2 => {
            name = "polyomino-rotated";
            let (w, h) = (1 + rng.usize(6), 1 + rng.usize(6));
            let (ca, cb) = (cells(rng, w, h), cells(rng, h, w));
            a = lin(&nest(trace(&ca)), 2, 0, 0, 2);
            b = lin(&nest(trace(&cb)), 2, 2, -2, 2);
            let sh = 2 * rng.range(0, 6);
            b = map_mpoly(&b, |q| p(q.x - 4, q.y + sh));
        }
        3 | 4 => {
            name = "triangles";
            let dirs = *rng.pick(&[OCT, OCT, DIR8]);
            let l = lattice_scale(dirs);
            let k = rng.range(2, 6);
            let mk = |rng: &mut Rng| -> MPoly {
                let n = rng.usize(4);
                (0..n).filter_map(|_| tri(rng, dirs, k, l)).map(|ext| Poly { ext, holes: vec![] }).collect()
            };
            a = mk(rng);
            b = mk(rng);
            if rng.chance(1, 6) && !a.is_empty() {
                b.push(a[0].clone());
            }
        }
        5 | 6 => {
            name = "walk";
            let dirs = *rng.pick(&[&OCT[..2], OCT, OCT, DIR8]);
            let l = lattice_scale(dirs);
            let pile = rng.chance(1, 6);
            let k = rng.range(2, if pile { 3 } else { 8 });
            let mk = |rng: &mut Rng| -> MPoly {
                let n = rng.usize(3);
                (0..n)
                    .map(|_| {
                        let st = if pile { 10 + rng.usize(40) } else { 3 + rng.usize(9) };
                        let ext = walk_ring(rng, dirs, st, k, l);
                        let mut holes = vec![];
                        if rng.chance(1, 4) {
                            let st = 3 + rng.usize(5);
                            holes.push(walk_ring(rng, dirs, st, k, l));
                        }
                        Poly { ext, holes }
                    })
                    .filter(|q| q.ext.len() >= 3 && q.holes.iter().all(|h| h.len() >= 3))
                    .collect()
            };
            a = mk(rng);
            b = mk(rng);
        }
        7 => {
            name = "nested";
            // squares and diamonds inside each other, alternately filled
            let mk = |rng: &mut Rng, c: P| -> MPoly {
                let mut rad: Vec<i64> = (0..2 + rng.usize(8)).map(|_| rng.range(1, 14)).collect();
                rad.sort();
                rad.dedup();
                rad.reverse();
                let dia = rng.chance(1, 2);
                let ring = |r: i64| -> Ring {
                    let r = 4 * r;
                    if dia {
                        vec![p(c.x - r, c.y), p(c.x, c.y - r), p(c.x + r, c.y), p(c.x, c.y + r)]
                    } else {
                        vec![p(c.x - r, c.y - r), p(c.x + r, c.y - r), p(c.x + r, c.y + r), p(c.x - r, c.y + r)]
                    }
                };
                rad.chunks(2)
                    .map(|q| Poly { ext: ring(q[0]), holes: q.get(1).map(|r| ring(*r)).into_iter().collect() })
                    .collect()
            };
            a = mk(rng, p(0, 0));
            let c = if rng.chance(1, 2) { p(0, 0) } else { p(4 * rng.range(-6, 6), 4 * rng.range(-6, 6)) };
            b = mk(rng, c);
        }
        20 => {
            name = "hundreds-of-cells";
            let (w, h) = *rng.pick(&[(3usize, 290usize), (290, 3), (34, 34), (2, 400), (400, 2)]);
            let (ca, cb) = (cells(rng, w, h), cells(rng, w, h));
            a = nest(trace(&ca));
            b = nest(trace(&cb));
        }
        21 => {
            name = "hundreds-coincident";
            let m = 1 + rng.usize(3);
            let mut base: Vec<Ring> = vec![];
            while base.len() < m {
                base.extend(tri(rng, OCT, 3, lattice_scale(OCT)));
            }
            let mut mk = |n: usize| -> MPoly {
                let mut v: MPoly = vec![];
                for _ in 0..n {
                    let r = rng.pick(&base).clone();
                    match v.last_mut() {
                        Some(q) if rng.chance(1, 3) => q.holes.push(r),
                        _ => v.push(Poly { ext: r, holes: vec![] }),
                    }
                }
                v
            };
            a = mk(258 + m * 20);
            b = mk(m);
        }
        22 => {
            name = "hundreds-nested";
            let c = p(0, 0);
            let n = 258 + rng.range(0, 30);
            let mut mk = |n: i64| -> MPoly {
                let rings: Vec<Ring> = (1..=n).rev().filter(|_| rng.chance(15, 16)).map(|r| vec![p(c.x - r, c.y - r), p(c.x + r, c.y - r), p(c.x + r, c.y + r), p(c.x - r, c.y + r)]).collect();
                rings.chunks(2).map(|q| Poly { ext: q[0].clone(), holes: q[1..].to_vec() }).collect()
            };
            a = mk(n + n / 8);
            b = mk(n / 40);
        }
        23 => {
            name = "hundreds-at-a-point";
            let mut d: Vec<P> = vec![];
            for x in -20..=20i64 {
                for y in -20..=20i64 {
                    if gcd(x as i128, y as i128) == 1 {
                        d.push(p(x, y));
                    }
                }
            }
            let half = |q: &P| q.y < 0 || (q.y == 0 && q.x < 0);
            d.sort_by(|u, v| half(u).cmp(&half(v)).then((v.x * u.y).cmp(&(u.x * v.y))));
            let keep = *rng.pick(&[300usize, 600, 2000]);
            let n = d.len();
            let d: Vec<P> = d.into_iter().filter_map(|q| { let k = rng.range(1, 3); (rng.usize(n) < keep).then(|| p(k * q.x, k * q.y)) }).collect();
            let mut mk = |den: u64| -> MPoly {
                (0..d.len())
                    .filter(|_| rng.below(16) < den)
                    .map(|i| vec![p(0, 0), d[i], d[(i + 1) % d.len()]])
                    .filter(|r| ring_area2(r) > 0)
                    .map(|ext| Poly { ext, holes: vec![] })
                    .collect()
            };
            a = mk(14);
            b = mk(6);
        }
        _ => {
            name = "large-polyomino";
            let (w, h) = (12 + rng.usize(14), 12 + rng.usize(14));
            let (ca, cb) = (cells(rng, w, h), cells(rng, w, h));
            a = nest(trace(&ca));
            b = nest(trace(&cb));
            if rng.chance(1, 2) {
                a = lin(&a, 1, 1, -1, 1);
                b = lin(&b, 1, 1, -1, 1);
            }
        }
    }
    if rng.chance(1, 8) {
        relate(rng, &mut a, &mut b);
    }
    if rng.chance(1, 12) {
        a.clear();
    }
    if rng.chance(1, 12) {
        b.clear();
    }
    for m in [&mut a, &mut b] {
        for q in m.iter_mut() {
            rot_ring(rng, &mut q.ext);
            for h in q.holes.iter_mut() {
                rot_ring(rng, h);
            }
            // redundant collinear vertices
            if rng.chance(1, 8) {
                let n = q.ext.len();
                let i = rng.usize(n);
                let (u, v) = (q.ext[i], q.ext[(i + 1) % n]);
                if (u.x + v.x) % 2 == 0 && (u.y + v.y) % 2 == 0 {
                    q.ext.insert(i + 1, p((u.x + v.x) / 2, (u.y + v.y) / 2));
                }
            }
            // a repeated vertex: a zero-length edge
            if rng.chance(1, 12) {
                let i = rng.usize(q.ext.len());
                let u = q.ext[i];
                q.ext.insert(i, u);
            }
        }
        // rings without extent: no, one or two points
        if rng.chance(1, 12) {
            let at: Vec<Seg> = edges(m).into_iter().chain([Seg { a: p(1, 1), b: p(1, 1) }]).collect();
            let g = rng.pick(&at);
            let mut r = vec![g.a, g.b];
            r.truncate(rng.usize(3));
            if rng.chance(1, 2) || m.is_empty() {
                m.push(Poly { ext: r, holes: vec![] });
            } else {
                let i = rng.usize(m.len());
                m[i].holes.push(r);
            }
        }
        rng.shuffle(m);
    }
    let (mx, my) = (rng.chance(1, 3), rng.chance(1, 3));
    let small = rng.chance(1, 3);
    let d = if small { 20 } else { *rng.pick(&[6, 5000, 5000, 1i64 << 40]) };
    let (dx, dy) = if rng.chance(1, 2) { (rng.range(-d, d), rng.range(-d, d)) } else { (0, 0) };
    let f = |q: P| p(if mx { -q.x } else { q.x } + dx, if my { -q.y } else { q.y } + dy);
    a = map_mpoly(&a, f);
    b = map_mpoly(&b, f);
    let mut sheared = false;
    if rng.chance(1, 4) && shear_pair(rng, &mut a, &mut b) {
        sheared = true;
    }
    // every product stays exact in 24 bits
    let mut f32 = small
        && edges(&a).iter().chain(edges(&b).iter()).all(|g| {
            let (dx, dy) = ((g.b.x - g.a.x).abs(), (g.b.y - g.a.y).abs());
            (dx == 0 || dy == 0 || dx == dy) && [g.a.x, g.a.y].iter().all(|v| v.abs() <= 64)
        });
    if sheared {
        // only comparisons and exact predicates are needed
        let (u, v) = (edges(&a), edges(&b));
        f32 = reach(u.iter().chain(v.iter()).map(|s| &s.a)) < 1 << 23 && rng.chance(1, 3);
    }
    let e = if f32 { exponent(rng, 8, 20) } else { exponent(rng, 10, 150) };
    let nz = if rng.chance(1, 3) { rng.u64() } else { 0 };
    Pair { a, b, e, fam: name, general: false, sheared, f32, nz, parts: vec![] }
}

/// Operands made of the same rings: equal exteriors, equal holes, a ring that
/// is an exterior in one operand and a hole in the other.
fn relate(rng: &mut Rng, a: &mut MPoly, b: &mut MPoly) {
    let pool: Vec<Ring> = a.iter().chain(b.iter()).flat_map(|q| std::iter::once(&q.ext).chain(q.holes.iter())).cloned().collect();
    if pool.is_empty() {
        return;
    }
    let same = rng.usize(pool.len());
    let n = rng.usize(3).min(pool.len() - 1);
    for m in [a, b] {
        let k = if rng.chance(2, 3) { same } else { rng.usize(pool.len()) };
        let mut rest: Vec<usize> = (0..pool.len()).filter(|i| *i != k).collect();
        rng.shuffle(&mut rest);
        let n = if rng.chance(3, 4) { n } else { rng.usize(rest.len() + 1) };
        let q = Poly { ext: pool[k].clone(), holes: rest[..n].iter().map(|i| pool[*i].clone()).collect() };
        if rng.chance(1, 2) {
            *m = vec![q];
        } else {
            m.insert(0, q);
        }
    }
}

/// Make every crossing a vertex of one of the two edges, then flatten all angles.
fn shear_pair(rng: &mut Rng, a: &mut MPoly, b: &mut MPoly) -> bool {
    let mut rings: Vec<&mut Ring> = a.iter_mut().chain(b.iter_mut()).flat_map(|q| std::iter::once(&mut q.ext).chain(q.holes.iter_mut())).collect();
    let mut es = vec![];
    for r in &rings {
        for i in 0..r.len() {
            es.push(Seg { a: r[i], b: r[(i + 1) % r.len()] });
        }
    }
    if reach(es.iter().map(|s| &s.a)) > 1 << 20 {
        return false;
    }
    let ins = match node_points(&es, || rng.u64()) {
        Some(v) => v,
        None => return false,
    };
    let bits = *rng.pick(&[2i64, 5, 9, 12]);
    let f = shear(rng, bits);
    let d = *rng.pick(&[0i64, 1000, 1 << 40, 1 << 46]);
    let o = p(rng.range(-d, d), rng.range(-d, d));
    let f = |q: P| {
        let q = f(q);
        p(q.x + o.x, q.y + o.y)
    };
    let mut k = 0;
    for r in rings.iter_mut() {
        let mut n = vec![];
        for q in r.iter() {
            n.push(f(*q));
            n.extend(ins[k].iter().map(|q| f(*q)));
            k += 1;
        }
        **r = n;
    }
    true
}

/// Simple polygons with large random coordinates, boundaries in general position.
pub fn gen_poly_general(rng: &mut Rng) -> Option<Pair> {
    let m = 1i64 << 20;
    let mut mk = |rng: &mut Rng| -> Option<MPoly> {
        let n = 3 + rng.usize(14);
        if rng.chance(1, 2) {
            let e = two_opt(rng, n, m, m)?;
            Some(vec![Poly { ext: e, holes: vec![] }])
        } else {
            // star-shaped, possibly with a star-shaped hole
            let c = (rng.range(m / 3, 2 * m / 3) as f64, rng.range(m / 3, 2 * m / 3) as f64);
            let mut ring = |rng: &mut Rng, lo: f64, hi: f64, n: usize| -> Ring {
                (0..n)
                    .map(|i| {
                        let t = (i as f64 + 0.8 * rng.f64()) / n as f64 * std::f64::consts::TAU;
                        let r = (lo + (hi - lo) * rng.f64()) * m as f64;
                        p((c.0 + r * t.cos()) as i64, (c.1 + r * t.sin()) as i64)
                    })
                    .collect()
            };
            let ext = ring(rng, 0.30, 0.5, n + 6);
            let holes = if rng.chance(1, 2) { let k = 4 + rng.usize(5); vec![ring(rng, 0.05, 0.12, k)] } else { vec![] };
            let q = Poly { ext, holes };
            let rs: Vec<&Ring> = poly_rings(&q).collect();
            if rings_simple(&rs) { Some(vec![q]) } else { None }
        }
    };
    let a = mk(rng)?;
    let b = mk(rng)?;
    let es: Vec<Seg> = a.iter().chain(b.iter()).flat_map(|q| poly_rings(q).flat_map(|r| ring_edges(r).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
    // well separated: distinct event abscissae, vertices off other edges
    let mut xs: Vec<f64> = vec![];
    for i in 0..es.len() {
        xs.push(es[i].a.x as f64);
        for j in 0..es.len() {
            if i == j {
                continue;
            }
            for q in [es[j].a, es[j].b] {
                if q == es[i].a || q == es[i].b {
                    continue;
                }
                let s = &es[i];
                let len = (((s.b.x - s.a.x) as f64).powi(2) + ((s.b.y - s.a.y) as f64).powi(2)).sqrt();
                if (cross(s.a, s.b, q) as f64).abs() / len < 1e-2 {
                    return None;
                }
            }
            if j > i {
                let shared = [es[j].a, es[j].b].iter().any(|q| *q == es[i].a || *q == es[i].b);
                if let (false, Isec::Pt(x, _, d)) = (shared, isec(&es[i], &es[j])) {
                    xs.push(x as f64 / d as f64);
                }
            }
        }
    }
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if xs.windows(2).any(|w| w[1] - w[0] < 1e-2) {
        return None;
    }
    let e = exponent(rng, 25, 150);
    Some(Pair { a, b, e, fam: "general", general: true, sheared: false, f32: false, nz: 0, parts: vec![] })
}

pub fn edges(m: &MPoly) -> Vec<Seg> {
    m.iter().flat_map(|q| poly_rings(q).flat_map(|r| ring_edges(r).collect::<Vec<_>>()).collect::<Vec<_>>()).collect()
}

/// Compare, on every face of the joint arrangement, the even-odd membership in
/// each layer with `f`. Returns the number of faces visited.
pub fn faces(layers: &[Vec<Seg>], mut f: impl FnMut(&[bool]) -> bool) -> Result<u64, String> {
    let mut segs = vec![];
    let mut owner = vec![];
    for (i, l) in layers.iter().enumerate() {
        for s in l {
            segs.push(*s);
            owner.push(i);
        }
    }
    let xs = slab_xs(&segs).ok_or("an edge crossing is not on the lattice")?;
    let mut n = 0;
    let mut bad: Option<String> = None;
    slabs(&segs, &xs, |x2, g| {
        let mut par = vec![false; layers.len()];
        let mut k = 0;
        loop {
            n += 1;
            if bad.is_none() && !f(&par) {
                let s = if k < g.len() { segs[g[k].1] } else { segs[g[k - 1].1] };
                bad = Some(format!(
                    "in the face {} edge {:?}-{:?} at x={}/2: membership {:?}",
                    if k < g.len() { "below" } else { "above" },
                    s.a,
                    s.b,
                    x2,
                    par
                ));
            }
            if k >= g.len() {
                break;
            }
            let r = g[k].0;
            while k < g.len() && g[k].0 == r {
                par[owner[g[k].1]] ^= true;
                k += 1;
            }
        }
    });
    match bad {
        Some(b) => Err(b),
        None => Ok(n),
    }
}

pub fn run_op(a: &MultiPolygon<f64>, b: &MultiPolygon<f64>, op: OpType) -> Result<MultiPolygon<f64>, String> {
    sut(&format!("boolean_op({op:?})"), || a.boolean_op(b, op))
}

fn feed(ctx: &mut Ctx, pr: &Pair) {
    ctx.feed(pr.e as u64);
    let mut nv = 0;
    for m in [&pr.a, &pr.b] {
        ctx.feed(777);
        for q in m {
            for r in poly_rings(q) {
                ctx.feed(778);
                for v in r {
                    nv += 1;
                    ctx.feed(v.x as u64);
                    ctx.feed(v.y as u64);
                }
            }
        }
    }
    ctx.nontrivial = !pr.a.is_empty() || !pr.b.is_empty();
    ctx.add("input_vertices", nv);
    ctx.add(
        match pr.fam {
            "polyomino" => "family_polyomino",
            "polyomino-rotated" => "family_polyomino_rotated",
            "triangles" => "family_triangles",
            "walk" => "family_self_overlapping_walks",
            "nested" => "family_nested_rings",
            "general" => "family_general_position",
            "tiles" => "family_tens_of_thousands_of_edges",
            "tiles-rings" => "family_tens_of_thousands_of_rings",
            "hundreds-of-cells" => "family_hundreds_of_cells",
            "hundreds-coincident" => "family_hundreds_coincident",
            "hundreds-nested" => "family_hundreds_nested",
            "hundreds-at-a-point" => "family_hundreds_at_a_point",
            _ => "family_large_polyomino",
        },
        1,
    );
    let mut at: Vec<P> = edges(&pr.a).iter().chain(edges(&pr.b).iter()).flat_map(|s| [s.a, s.b]).collect();
    at.sort_by_key(|q| (q.x, q.y));
    if at.windows(21).any(|w| w[0] == w[20]) {
        ctx.add("cases_over_20_edges_at_a_point", 1);
    }
    if pr.f32 {
        ctx.add("scalar_f32", 1);
    }
    if pr.nz != 0 {
        ctx.add("cases_signed_zeros", 1);
    }
    if pr.sheared {
        ctx.add("cases_sheared", 1);
    }
    if pr.e.abs() > 30 {
        ctx.add("cases_extreme_unit", 1);
    }
}

pub fn setup(ctx: &mut Ctx, rng: &mut Rng, general: bool) -> Pair {
    let pr = (|| {
        let giant = rng.below(TILES);
        if rare(TILES) && general {
            return gen_tiles(rng);
        }
        if giant % GIANT == 1 {
            let fam = 20 + rng.below(4);
            return gen_poly_of(rng, fam);
        }
        if general && rng.chance(1, 5) {
            for _ in 0..20 {
                if let Some(q) = gen_poly_general(rng) {
                    return q;
                }
            }
        }
        let big = rng.chance(1, if ctx.thorough { 8 } else { 20 });
        gen_poly_exact(rng, big)
    })();
    feed(ctx, &pr);
    ctx.input(|| pr.show());
    pr
}

// ---- general position: sampled membership -------------------------------

fn in_rings_f(rings: &[&LineString<f64>], q: (f64, f64)) -> bool {
    let mut c = false;
    for r in rings {
        for w in r.0.windows(2) {
            let (a, b) = (w[0], w[1]);
            if (a.y > q.1) != (b.y > q.1) && q.0 < (b.x - a.x) * (q.1 - a.y) / (b.y - a.y) + a.x {
                c = !c;
            }
        }
    }
    c
}
pub fn rings_of(m: &MultiPolygon<f64>) -> Vec<&LineString<f64>> {
    m.0.iter().flat_map(|q| std::iter::once(q.exterior()).chain(q.interiors().iter())).collect()
}
fn dist(s: &Seg, q: (f64, f64)) -> f64 {
    let (a, b) = ((s.a.x as f64, s.a.y as f64), (s.b.x as f64, s.b.y as f64));
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let t = (((q.0 - a.0) * dx + (q.1 - a.1) * dy) / (dx * dx + dy * dy)).max(0.).min(1.);
    ((a.0 + t * dx - q.0).powi(2) + (a.1 + t * dy - q.1).powi(2)).sqrt()
}
pub fn probes(rng: &mut Rng, es: &[Seg], n: usize) -> Vec<(f64, f64)> {
    let m = (1i64 << 20) as f64;
    let mut v = vec![];
    for i in 0..n {
        let q = if i % 2 == 0 {
            (rng.f64() * m, rng.f64() * m)
        } else {
            // next to an edge
            let s = rng.pick(es);
            let t = rng.f64();
            let off = if rng.chance(1, 2) { 2. } else { -2. };
            (s.a.x as f64 + t * (s.b.x - s.a.x) as f64 + off * rng.f64(), s.a.y as f64 + t * (s.b.y - s.a.y) as f64 + off)
        };
        if es.iter().all(|s| dist(s, q) > 0.5) {
            v.push(q);
        }
    }
    v
}

/// Operands which lie side by side are looked at part by part: no polygon of
/// the result belongs to two of them.
fn by_part(pr: &Pair, o: &MPoly, mut f: impl FnMut(&MPoly, &MPoly, &MPoly) -> Verdict) -> Verdict {
    if pr.parts.is_empty() {
        return f(&pr.a, &pr.b, o);
    }
    let mut own: Vec<MPoly> = vec![vec![]; pr.parts.len()];
    for q in o {
        let xs = || poly_rings(q).flatten().map(|v| v.x);
        let (lo, hi) = (xs().min().unwrap(), xs().max().unwrap());
        let k = pr.parts.partition_point(|t| t.1 < lo);
        ensure!(k < pr.parts.len() && pr.parts[k].0 <= lo && hi <= pr.parts[k].1, "polygon over x in [{lo}, {hi}], between or across separate inputs: {}", show_mp(&vec![q.clone()]));
        own[k].push(q.clone());
    }
    for ((x0, x1, a, b), o) in pr.parts.iter().zip(&own) {
        f(a, b, o).map_err(|e| format!("at x from {x0} to {x1}: {e}"))?;
    }
    Ok(())
}

pub fn c05(ctx: &mut Ctx, rng: &mut Rng, _c: u64) -> Verdict {
    let pr = setup(ctx, rng, true);
    let s = pr.scale();
    let (ga, gb) = (pr.geo(&pr.a), pr.geo(&pr.b));
    let (ea, eb) = (edges(&pr.a), edges(&pr.b));
    for op in OPS {
        let out = pr.run(&ga, &gb, op)?;
        ctx.add("ops_observed", 1);
        if pr.general {
            let all: Vec<Seg> = ea.iter().chain(eb.iter()).cloned().collect();
            let (ra, rb, ro) = (rings_of(&ga), rings_of(&gb), rings_of(&out));
            for q in probes(rng, &all, 120) {
                let qs = (q.0 * s, q.1 * s);
                let (ia, ib, io) = (in_rings_f(&ra, qs), in_rings_f(&rb, qs), in_rings_f(&ro, qs));
                ctx.add("probes_observed", 1);
                ensure!(
                    io == want(op, ia, ib),
                    "{op:?}: point {qs:?} is in A: {ia}, in B: {ib}, in the result: {io}"
                );
                let cover = out.0.iter().filter(|q| {
                    let mut r = vec![q.exterior()];
                    r.extend(q.interiors().iter());
                    in_rings_f(&r, qs)
                }).count();
                ensure!(cover <= 1, "{op:?}: point {qs:?} lies in {cover} of the result's polygons");
            }
            continue;
        }
        let o = from_geo(&out, s).map_err(|e| format!("{op:?}: {e}"))?;
        by_part(&pr, &o, |a, b, o| {
            let n = faces(&[edges(a), edges(b), edges(o)], |m| m[2] == want(op, m[0], m[1]))
                .map_err(|e| format!("wrong region ([A, B, result]) {e}; result {}", show_mp(o)))?;
            ctx.add("faces_observed", n);
            Ok(())
        })
        .map_err(|e| format!("{op:?}: {e}"))?;
    }
    Ok(())
}

/// Structural validity of an output multipolygon on the lattice.
pub fn validity(o: &MPoly, ctx: &mut Ctx) -> Verdict {
    let mut es: Vec<(Seg, usize)> = vec![];
    let mut ri = 0;
    let mut layers: Vec<Vec<Seg>> = vec![];
    let mut kind: Vec<(usize, bool)> = vec![]; // (polygon, is hole)
    for (pi, q) in o.iter().enumerate() {
        for (k, r) in poly_rings(q).enumerate() {
            ensure!(r.len() >= 3, "ring with fewer than 3 vertices: {}", show_ring(r));
            ensure!(r.iter().collect::<BTreeSet<_>>().len() == r.len(), "ring repeats a vertex: {}", show_ring(r));
            ensure!(ring_area2(r) != 0, "ring without area: {}", show_ring(r));
            for s in ring_edges(r) {
                es.push((s, ri));
            }
            layers.push(ring_edges(r).collect());
            kind.push((pi, k > 0));
            ri += 1;
        }
    }
    ctx.add("rings_observed", ri as u64);
    ctx.add("holes_observed", kind.iter().filter(|k| k.1).count() as u64);
    es.sort_by_key(|e| e.0.lo());
    for i in 0..es.len() {
        for j in i + 1..es.len() {
            let (s, t) = (&es[i].0, &es[j].0);
            if t.lo().x > s.hi().x {
                break;
            }
            match isec(s, t) {
                Isec::None => {}
                Isec::Overlap(..) => return Err(format!("output edges {s:?} and {t:?} overlap")),
                Isec::Pt(x, y, d) => {
                    let at = |v: P| v.x as i128 * d == x && v.y as i128 * d == y;
                    ensure!(
                        (at(s.a) || at(s.b)) && (at(t.a) || at(t.b)),
                        "output edges {s:?} and {t:?} meet away from their ends"
                    );
                }
            }
        }
    }
    if layers.is_empty() {
        return Ok(());
    }
    let np = o.len();
    let nf = faces(&layers, |m| {
        let mut ext = vec![false; np];
        let mut hol = vec![0; np];
        for (i, &v) in m.iter().enumerate() {
            if v {
                if kind[i].1 {
                    hol[kind[i].0] += 1;
                } else {
                    ext[kind[i].0] = true;
                }
            }
        }
        let cover = (0..np).filter(|&i| ext[i] && hol[i] == 0).count();
        (0..np).all(|i| hol[i] == 0 || (hol[i] == 1 && ext[i])) && cover <= 1
    })
    .map_err(|e| format!("a hole outside its exterior, overlapping holes or overlapping polygons {e}; rings {kind:?}"))?;
    ctx.add("faces_observed", nf);
    Ok(())
}

pub fn c06(ctx: &mut Ctx, rng: &mut Rng, _c: u64) -> Verdict {
    let pr = setup(ctx, rng, true);
    let s = pr.scale();
    let (ga, gb) = (pr.geo(&pr.a), pr.geo(&pr.b));
    for op in OPS {
        let out = pr.run(&ga, &gb, op)?;
        ctx.add("ops_observed", 1);
        if pr.general {
            // every crossing of the inputs is a vertex, vertices come from the
            // inputs or from crossings, each ring is closed and simple in its
            // vertices
            let (ea, eb) = (edges(&pr.a), edges(&pr.b));
            let mut cr: Vec<(f64, f64)> = vec![];
            for u in &ea {
                for v in &eb {
                    if let Isec::Pt(x, y, d) = isec(u, v) {
                        cr.push((x as f64 / d as f64, y as f64 / d as f64));
                    }
                }
            }
            let inp: BTreeSet<P> = ea.iter().chain(eb.iter()).map(|q| q.a).collect();
            let mut used: BTreeMap<usize, usize> = BTreeMap::new();
            for r in rings_of(&out) {
                ensure!(r.0.len() >= 4 && r.0.first() == r.0.last(), "{op:?}: ring is not closed or has < 4 coordinates: {r:?}");
                let mut seen = BTreeSet::new();
                for c in &r.0[1..] {
                    ensure!(seen.insert((c.x.to_bits(), c.y.to_bits())), "{op:?}: ring repeats vertex {c:?}");
                    let (x, y) = (c.x / s, c.y / s);
                    if x == x.round() && y == y.round() && inp.contains(&p(x as i64, y as i64)) {
                        continue;
                    }
                    match cr.iter().position(|q| (q.0 - x).abs() < 1e-3 && (q.1 - y).abs() < 1e-3) {
                        Some(i) => *used.entry(i).or_insert(0) += 1,
                        None => return Err(format!("{op:?}: vertex {c:?} is neither an input vertex nor a crossing")),
                    }
                }
                ctx.add("rings_observed", 1);
            }
            // a proper crossing of the boundaries is on the boundary of every
            // result: once, except twice for xor (two faces meet in it)
            let each = if op == OpType::Xor { 2 } else { 1 };
            for i in 0..cr.len() {
                let u = used.get(&i).copied().unwrap_or(0);
                ensure!(u == each, "{op:?}: crossing {:?} used {u} times as a vertex (expected {each})", cr[i]);
            }
            continue;
        }
        let o = from_geo(&out, s).map_err(|e| format!("{op:?}: {e}"))?;
        by_part(&pr, &o, |a, b, o| {
            validity(o, ctx).map_err(|e| format!("{e}; result {}", show_mp(o)))?;
            for q in o {
                for r in poly_rings(q) {
                    for k in 0..r.len() {
                        ensure!(r[k] != r[(k + 1) % r.len()], "zero-length edge in {}", show_ring(r));
                    }
                }
            }
            // vertices stem from the inputs' arrangement
            let all: Vec<Seg> = edges(a).into_iter().chain(edges(b)).collect();
            for v in edges(o) {
                ensure!(all.iter().any(|g| on_seg(g, v.a)), "vertex {:?} lies on no input edge", v.a);
                // and each output edge runs along an input edge
                let m = p(v.a.x + v.b.x, v.a.y + v.b.y);
                ensure!(
                    all.iter().any(|g| on_seg(&Seg { a: p(2 * g.a.x, 2 * g.a.y), b: p(2 * g.b.x, 2 * g.b.y) }, m)),
                    "edge {v:?} runs along no input edge"
                );
            }
            Ok(())
        })
        .map_err(|e| format!("{op:?}: {e}"))?;
    }
    Ok(())
}

fn same_region(a: &MPoly, b: &MPoly, what: &str, ctx: &mut Ctx) -> Verdict {
    let n = faces(&[edges(a), edges(b)], |m| m[0] == m[1]).map_err(|e| format!("{what}: regions differ {e}"))?;
    ctx.add("faces_observed", n);
    Ok(())
}

fn area_of(m: &MPoly) -> i128 {
    m.iter().map(|q| ring_area2(&q.ext).abs() - q.holes.iter().map(|h| ring_area2(h).abs()).sum::<i128>()).sum()
}

pub fn c07(ctx: &mut Ctx, rng: &mut Rng, c: u64) -> Verdict {
    let pr = setup(ctx, rng, false);
    let s = pr.scale();
    let (ga, gb) = (pr.geo(&pr.a), pr.geo(&pr.b));
    let run = |a: &MultiPolygon<f64>, b: &MultiPolygon<f64>, op: OpType| -> Result<MPoly, String> {
        from_geo(&pr.run(a, b, op)?, s).map_err(|e| format!("{op:?}: {e}"))
    };
    match c % 6 {
        0 => {
            ctx.add("law_commutative", 1);
            for op in [OpType::Union, OpType::Intersection, OpType::Xor] {
                let (x, y) = (run(&ga, &gb, op)?, run(&gb, &ga, op)?);
                same_region(&x, &y, &format!("A {op:?} B vs B {op:?} A"), ctx)?;
            }
            let (u, i) = (run(&ga, &gb, OpType::Union)?, run(&ga, &gb, OpType::Intersection)?);
            let (d, e) = (run(&ga, &gb, OpType::Difference)?, run(&gb, &ga, OpType::Difference)?);
            let x = run(&ga, &gb, OpType::Xor)?;
            let (au, ai, ad, ae, ax) = (area_of(&u), area_of(&i), area_of(&d), area_of(&e), area_of(&x));
            ensure!(
                au == ai + ad + ae && ax == ad + ae,
                "areas (doubled): union {au}, intersection {ai}, A-B {ad}, B-A {ae}, xor {ax}"
            );
        }
        1 => {
            ctx.add("law_identities", 1);
            let e = MultiPolygon(vec![]);
            let none: MPoly = vec![];
            let na = run(&ga, &e, OpType::Union)?;
            same_region(&na, &pr.a, "A union empty", ctx)?;
            same_region(&run(&e, &ga, OpType::Union)?, &pr.a, "empty union A", ctx)?;
            same_region(&run(&ga, &e, OpType::Xor)?, &pr.a, "A xor empty", ctx)?;
            same_region(&run(&ga, &e, OpType::Difference)?, &pr.a, "A - empty", ctx)?;
            for (w, m) in [
                ("A and empty", run(&ga, &e, OpType::Intersection)?),
                ("empty - A", run(&e, &ga, OpType::Difference)?),
                ("A - A", run(&ga, &ga, OpType::Difference)?),
                ("A xor A", run(&ga, &ga, OpType::Xor)?),
            ] {
                ensure!(m == none, "{w} is not empty: {}", show_mp(&m));
            }
            same_region(&run(&ga, &ga, OpType::Union)?, &pr.a, "A union A", ctx)?;
            same_region(&run(&ga, &ga, OpType::Intersection)?, &pr.a, "A and A", ctx)?;
        }
        2 => {
            ctx.add("law_closure", 1);
            // results are operands: (A op B) op2 C, with C one of the inputs or their results
            let op1 = *rng.pick(&OPS);
            let op2 = *rng.pick(&OPS);
            let m1 = run(&ga, &gb, op1)?;
            let op3 = *rng.pick(&OPS);
            let m2 = run(&ga, &gb, op3)?;
            let r = run(&gmp(&m1, s), &gmp(&m2, s), op2)?;
            let n = faces(&[edges(&pr.a), edges(&pr.b), edges(&r)], |m| {
                m[2] == want(op2, want(op1, m[0], m[1]), want(op3, m[0], m[1]))
            })
            .map_err(|e| format!("(A {op1:?} B) {op2:?} (A {op3:?} B) is wrong ([A, B, result]) {e}; result {}", show_mp(&r)))?;
            ctx.add("faces_observed", n);
            // normal form: re-applying an operation to a result changes nothing
            let r1 = run(&gmp(&m1, s), &gmp(&m1, s), OpType::Union)?;
            same_region(&r1, &m1, "R union R", ctx)?;
            validity(&r1, ctx)?;
        }
        3 => {
            ctx.add("law_de_morgan", 1);
            let d = run(&ga, &gb, OpType::Difference)?;
            let i = run(&ga, &gb, OpType::Intersection)?;
            let (gd, gi) = (gmp(&d, s), gmp(&i, s));
            same_region(&run(&ga, &gi, OpType::Difference)?, &d, "A - (A and B) vs A - B", ctx)?;
            same_region(&run(&gd, &gi, OpType::Union)?, &pr.a, "(A - B) union (A and B) vs A", ctx)?;
            let x = run(&gd, &gi, OpType::Intersection)?;
            ensure!(x.is_empty(), "(A - B) and (A and B) is not empty: {}", show_mp(&x));
        }
        4 => {
            ctx.add("law_entry_points", 1);
            // named methods and the Polygon entry point
            let named = [
                sut("intersection", || ga.intersection(&gb))?,
                sut("union", || ga.union(&gb))?,
                sut("difference", || ga.difference(&gb))?,
                sut("xor", || ga.xor(&gb))?,
            ];
            for (op, o) in OPS.iter().zip(named.iter()) {
                same_region(&from_geo(o, s)?, &run(&ga, &gb, *op)?, &format!("named method vs boolean_op({op:?})"), ctx)?;
            }
            if let (Some(pa), Some(pb)) = (pr.a.first(), pr.b.first()) {
                let (qa, qb) = (gp(pa, s), gp(pb, s));
                let (ma, mb) = (MultiPolygon(vec![qa.clone()]), MultiPolygon(vec![qb.clone()]));
                let named = [
                    sut("Polygon::intersection", || qa.intersection(&qb))?,
                    sut("Polygon::union", || qa.union(&qb))?,
                    sut("Polygon::difference", || qa.difference(&qb))?,
                    sut("Polygon::xor", || qa.xor(&qb))?,
                ];
                for (op, o) in OPS.iter().zip(named.iter()) {
                    let r = run(&ma, &mb, *op)?;
                    let o = from_geo(o, s)?;
                    same_region(&o, &r, &format!("Polygon vs MultiPolygon entry point for {op:?}"), ctx)?;
                    validity(&o, ctx)?;
                }
            }
        }
        _ => {
            ctx.add("law_presentation", 1);
            // order of polygons, ring starts, ring directions, translation and scale do not matter
            let op = *rng.pick(&OPS);
            let r0 = run(&ga, &gb, op)?;
            let mut a2 = pr.a.clone();
            let mut b2 = pr.b.clone();
            for m in [&mut a2, &mut b2] {
                rng.shuffle(m);
                for q in m.iter_mut() {
                    rot_ring(rng, &mut q.ext);
                    for h in q.holes.iter_mut() {
                        rot_ring(rng, h);
                    }
                }
            }
            let r1 = run(&gmp(&a2, s), &gmp(&b2, s), op)?;
            same_region(&r0, &r1, &format!("{op:?} after re-presenting the operands"), ctx)?;
            let (dx, dy) = (rng.range(-9000, 9000), rng.range(-9000, 9000));
            let s2 = 2f64.powi(rng.range(-12, 12) as i32);
            let t = |m: &MPoly| map_mpoly(m, |q| p(q.x + dx, q.y + dy));
            let r2 = from_geo(&run_op(&gmp(&t(&pr.a), s2), &gmp(&t(&pr.b), s2), op)?, s2)?;
            let r2 = map_mpoly(&r2, |q| p(q.x - dx, q.y - dy));
            same_region(&r0, &r2, &format!("{op:?} after translating by ({dx},{dy}) and scaling"), ctx)?;
            let sw = |m: &MPoly| map_mpoly(m, |q| p(q.y, q.x));
            let r3 = run(&gmp(&sw(&pr.a), s), &gmp(&sw(&pr.b), s), op)?;
            same_region(&r0, &sw(&r3), &format!("{op:?} after swapping x and y"), ctx)?;
            // f32 where exact
            let small = pr.fam.starts_with("polyomino") || pr.fam == "nested";
            if small && pr.e.abs() <= 20 && pr.a.iter().chain(pr.b.iter()).all(|q| poly_rings(q).all(|r| r.iter().all(|v| v.x.abs() <= 64 && v.y.abs() <= 64))) {
                use geo::algorithm::map_coords::MapCoords;
                ctx.add("law_f32", 1);
                let f = |m: &MultiPolygon<f64>| -> MultiPolygon<f32> { m.map_coords(|&(x, y)| (x as f32, y as f32)) };
                let (fa, fb) = (f(&ga), f(&gb));
                let o = sut("boolean_op on f32", || fa.boolean_op(&fb, op))?;
                let o64: MultiPolygon<f64> = o.map_coords(|&(x, y)| (x as f64, y as f64));
                same_region(&r0, &from_geo(&o64, s)?, &format!("{op:?} on f32"), ctx)?;
            }
        }
    }
    Ok(())
}
