//! Exact polygon machinery: integer rings, generators, face sampling oracle.
use crate::exact::*;
use crate::rng::Rng;
use std::cmp::Ordering;

pub type Ring = Vec<P>; // open: last != first, implicitly closed
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Poly {
    pub ext: Ring,
    pub holes: Vec<Ring>,
}
pub type MPoly = Vec<Poly>;

pub fn ring_edges(r: &Ring) -> impl Iterator<Item = Seg> + '_ {
    (0..r.len()).map(move |i| Seg { a: r[i], b: r[(i + 1) % r.len()] }).filter(|s| s.a != s.b)
}
pub fn poly_rings(p: &Poly) -> impl Iterator<Item = &Ring> {
    std::iter::once(&p.ext).chain(p.holes.iter())
}
pub fn ring_area2(r: &Ring) -> i128 {
    let mut s = 0i128;
    for i in 0..r.len() {
        let (a, b) = (r[i], r[(i + 1) % r.len()]);
        s += a.x as i128 * b.y as i128 - a.y as i128 * b.x as i128;
    }
    s
}

/// All x coordinates where the arrangement of `segs` changes. `None` if an
/// intersection is not integral.
pub fn slab_xs(segs: &[Seg]) -> Option<Vec<i64>> {
    let mut xs = vec![];
    let mut v: Vec<Seg> = segs.iter().map(|s| Seg { a: s.lo(), b: s.hi() }).collect();
    v.sort_by_key(|s| (s.a, s.b));
    v.dedup();
    for s in &v {
        xs.push(s.a.x);
        xs.push(s.b.x);
    }
    for i in 0..v.len() {
        for j in i + 1..v.len() {
            if v[j].a.x > v[i].b.x {
                break;
            }
            if let Isec::Pt(x, y, d) = isec(&v[i], &v[j]) {
                if x % d != 0 || y % d != 0 {
                    return None;
                }
                xs.push((x / d) as i64);
            }
        }
    }
    xs.sort();
    xs.dedup();
    Some(xs)
}

/// For every vertical slab, the non-vertical edges crossing it, in order of y
/// at the slab's middle; equal-y groups are marked by the rank.
/// Calls `f(x2, groups)` with x2 = 2*mid and for each edge `(rank, index)`.
pub fn slabs(segs: &[Seg], xs: &[i64], mut f: impl FnMut(i64, &[(usize, usize)])) {
    let (lx, hx) = (|i: usize| segs[i].a.x.min(segs[i].b.x), |i: usize| segs[i].a.x.max(segs[i].b.x));
    let mut by_lo: Vec<usize> = (0..segs.len()).collect();
    by_lo.sort_by_key(|&i| lx(i));
    let mut next = 0;
    // all which have begun and not ended
    let mut open: Vec<usize> = vec![];
    for w in xs.windows(2) {
        let x2 = w[0] + w[1]; // 2*mid
        while next < by_lo.len() && lx(by_lo[next]) <= w[0] {
            open.push(by_lo[next]);
            next += 1;
        }
        open.retain(|&i| hx(i) > w[0]);
        let mut act: Vec<usize> = open.iter().copied().filter(|&i| hx(i) >= w[1]).collect();
        act.sort();
        // y at mid = (a.y*2*dx + (x2-2ax)*dy) / (2 dx)
        let y = |i: usize| -> (i128, i128) {
            let (a, b) = (segs[i].lo(), segs[i].hi());
            let dx = (b.x - a.x) as i128;
            let dy = (b.y - a.y) as i128;
            (a.y as i128 * 2 * dx + (x2 as i128 - 2 * a.x as i128) * dy, 2 * dx)
        };
        let cmp = |i: usize, j: usize| -> Ordering {
            let (n1, d1) = y(i);
            let (n2, d2) = y(j);
            (n1 * d2).cmp(&(n2 * d1))
        };
        act.sort_by(|&i, &j| cmp(i, j));
        let mut out = Vec::with_capacity(act.len());
        let mut rank = 0;
        for k in 0..act.len() {
            if k > 0 && cmp(act[k - 1], act[k]) != Ordering::Equal {
                rank += 1;
            }
            out.push((rank, act[k]));
        }
        f(x2, &out);
    }
}

/// Random closed lattice walk (self-intersecting, overlapping), all edges in
/// directions from `dirs`; coordinates multiples of `l`.
pub fn walk_ring(rng: &mut Rng, dirs: &[(i64, i64)], steps: usize, k: i64, l: i64) -> Ring {
    let s = p(rng.range(0, k), rng.range(0, k));
    let mut r = vec![s];
    let mut c = s;
    let mut tries = 0;
    while r.len() < steps && tries < 1000 {
        tries += 1;
        let d = *rng.pick(dirs);
        let sg = if rng.chance(1, 2) { 1 } else { -1 };
        let len = sg * rng.range(1, (k / 2).max(1));
        let n = p(c.x + d.0 * len, c.y + d.1 * len);
        if n.x < 0 || n.y < 0 || n.x > k || n.y > k {
            continue;
        }
        r.push(n);
        c = n;
    }
    // close with axis-parallel edges
    if c.x != s.x && c.y != s.y {
        r.push(p(s.x, c.y));
    }
    if r.len() > 1 && *r.last().unwrap() == s {
        r.pop();
    }
    r.into_iter().map(|q| p(q.x * l, q.y * l)).collect()
}

/// Random cell set -> multipolygon of simple rings, nested properly.
pub fn polyomino(rng: &mut Rng, w: usize, h: usize, den: u64) -> Vec<Vec<bool>> {
    (0..w).map(|_| (0..h).map(|_| rng.chance(den, 100)).collect()).collect()
}

/// Boundary rings of a cell set, at every vertex turning so that rings never
/// repeat a vertex where avoidable (4-connected interior).
pub fn trace(cells: &[Vec<bool>]) -> Vec<Ring> {
    let w = cells.len() as i64;
    let h = cells[0].len() as i64;
    let at = |x: i64, y: i64| x >= 0 && y >= 0 && x < w && y < h && cells[x as usize][y as usize];
    use std::collections::BTreeMap;
    // directed edges with interior on the left
    let mut out: BTreeMap<P, Vec<P>> = BTreeMap::new();
    for x in 0..w {
        for y in 0..h {
            if at(x, y) {
                if !at(x, y - 1) {
                    out.entry(p(x, y)).or_default().push(p(x + 1, y));
                }
                if !at(x + 1, y) {
                    out.entry(p(x + 1, y)).or_default().push(p(x + 1, y + 1));
                }
                if !at(x, y + 1) {
                    out.entry(p(x + 1, y + 1)).or_default().push(p(x, y + 1));
                }
                if !at(x - 1, y) {
                    out.entry(p(x, y + 1)).or_default().push(p(x, y));
                }
            }
        }
    }
    let mut rings = vec![];
    while let Some((&s, _)) = out.iter().find(|(_, v)| !v.is_empty()) {
        let mut ring = vec![s];
        let mut prev: Option<P> = None;
        let mut c = s;
        loop {
            let v = out.get_mut(&c).unwrap();
            let idx = if v.len() == 1 || prev.is_none() {
                0
            } else {
                // left turn keeps the two diagonal cells apart
                let pv = prev.unwrap();
                (0..v.len()).max_by_key(|&i| cross(pv, c, v[i]).signum()).unwrap()
            };
            let n = v.remove(idx);
            prev = Some(c);
            c = n;
            if c == s {
                break;
            }
            ring.push(c);
        }
        // merge collinear
        let m = ring.len();
        let ring2: Ring = (0..m)
            .filter(|&i| orient(ring[(i + m - 1) % m], ring[i], ring[(i + 1) % m]) != 0)
            .map(|i| ring[i])
            .collect();
        rings.push(ring2);
    }
    rings
}

pub fn pt_in_ring_strict(r: &Ring, q: P) -> Option<bool> {
    // None: on boundary
    let mut c = false;
    for s in ring_edges(r) {
        if on_seg(&s, q) {
            return None;
        }
        let (a, b) = (s.a, s.b);
        if (a.y > q.y) != (b.y > q.y) {
            let o = cross(a, b, q);
            if (b.y > a.y) == (o > 0) {
                c = !c;
            }
        }
    }
    Some(c)
}

/// Nest traced rings (CCW ext, CW holes) of a polyomino into polygons.
pub fn nest(rings: Vec<Ring>) -> MPoly {
    let mut polys: MPoly = vec![];
    let mut holes = vec![];
    for r in rings {
        if ring_area2(&r) > 0 {
            polys.push(Poly { ext: r, holes: vec![] });
        } else {
            holes.push(r);
        }
    }
    for hr in holes {
        // smallest exterior containing the hole: test a point just inside the hole.
        let mut best: Option<(i128, usize)> = None;
        let d: Ring = hr.iter().map(|q| p(q.x * 4, q.y * 4)).collect();
        let mut probe = None;
        'o: for q in &d {
            for (sx, sy) in [(1, 1), (1, -1), (-1, 1), (-1, -1)] {
                let t = p(q.x + sx, q.y + sy);
                if pt_in_ring_strict(&d, t) == Some(true) {
                    probe = Some(t);
                    break 'o;
                }
            }
        }
        let t = probe.unwrap();
        for (i, po) in polys.iter().enumerate() {
            let e: Ring = po.ext.iter().map(|q| p(q.x * 4, q.y * 4)).collect();
            if pt_in_ring_strict(&e, t) == Some(true) {
                let a = ring_area2(&e);
                if best.map_or(true, |b| a < b.0) {
                    best = Some((a, i));
                }
            }
        }
        polys[best.unwrap().1].holes.push(hr);
    }
    polys
}

pub fn map_mpoly(m: &MPoly, f: impl Fn(P) -> P) -> MPoly {
    m.iter()
        .map(|po| Poly {
            ext: po.ext.iter().map(|&q| f(q)).collect(),
            holes: po.holes.iter().map(|h| h.iter().map(|&q| f(q)).collect()).collect(),
        })
        .collect()
}

/// Do the rings form a valid polygon boundary: every vertex on exactly two
/// edges, and no other contact between edges?
pub fn rings_simple(rings: &[&Ring]) -> bool {
    let mut es: Vec<(Seg, usize, usize, usize)> = vec![];
    for (ri, r) in rings.iter().enumerate() {
        let n = r.len();
        if n < 3 {
            return false;
        }
        for i in 0..n {
            let s = Seg { a: r[i], b: r[(i + 1) % n] };
            if s.is_point() {
                return false;
            }
            es.push((s, ri, i, n));
        }
    }
    es.sort_by_key(|e| e.0.lo());
    for i in 0..es.len() {
        for j in i + 1..es.len() {
            let (s, t) = (&es[i], &es[j]);
            if t.0.lo().x > s.0.hi().x {
                break;
            }
            match isec(&s.0, &t.0) {
                Isec::None => {}
                Isec::Overlap(..) => return false,
                Isec::Pt(x, y, d) => {
                    let adj = s.1 == t.1 && ((s.2 + 1) % s.3 == t.2 || (t.2 + 1) % s.3 == s.2);
                    if !adj {
                        return false;
                    }
                    // must be the shared vertex
                    let v = if (s.2 + 1) % s.3 == t.2 { t.0.a } else { s.0.a };
                    if x != v.x as i128 * d || y != v.y as i128 * d {
                        return false;
                    }
                }
            }
        }
    }
    true
}

/// Random simple polygon by 2-opt untangling of random lattice points.
pub fn two_opt(rng: &mut Rng, n: usize, kx: i64, ky: i64) -> Option<Ring> {
    let mut set = std::collections::BTreeSet::new();
    for _ in 0..4 * n {
        if set.len() < n {
            set.insert(p(rng.range(0, kx), rng.range(0, ky)));
        }
    }
    let mut r: Ring = set.into_iter().collect();
    rng.shuffle(&mut r);
    let n = r.len();
    if n < 3 {
        return None;
    }
    for _ in 0..200 {
        let mut ch = false;
        for i in 0..n {
            for j in i + 2..n {
                if i == 0 && j == n - 1 {
                    continue;
                }
                let s = Seg { a: r[i], b: r[i + 1] };
                let t = Seg { a: r[j], b: r[(j + 1) % n] };
                if isec(&s, &t) != Isec::None {
                    r[i + 1..=j].reverse();
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    if rings_simple(&[&r]) { Some(r) } else { None }
}
