//! Exact integer / rational geometry used by the oracles.
use crate::rng::Rng;
use std::cmp::Ordering;

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct P {
    pub x: i64,
    pub y: i64,
}
pub fn p(x: i64, y: i64) -> P {
    P { x, y }
}

/// A closed segment; `a == b` is a point.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Seg {
    pub a: P,
    pub b: P,
}
impl Seg {
    pub fn lo(&self) -> P {
        self.a.min(self.b)
    }
    pub fn hi(&self) -> P {
        self.a.max(self.b)
    }
    pub fn is_point(&self) -> bool {
        self.a == self.b
    }
}

pub fn cross(a: P, b: P, c: P) -> i128 {
    (b.x - a.x) as i128 * (c.y - a.y) as i128 - (b.y - a.y) as i128 * (c.x - a.x) as i128
}
pub fn orient(a: P, b: P, c: P) -> i32 {
    cross(a, b, c).signum() as i32
}
pub fn on_seg(s: &Seg, r: P) -> bool {
    orient(s.a, s.b, r) == 0
        && r.x >= s.a.x.min(s.b.x)
        && r.x <= s.a.x.max(s.b.x)
        && r.y >= s.a.y.min(s.b.y)
        && r.y <= s.a.y.max(s.b.y)
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Isec {
    None,
    /// Rational point: `(nx/d, ny/d)`, `d > 0`.
    Pt(i128, i128, i128),
    /// Positive-length overlap, ends in lexicographic order.
    Overlap(P, P),
}

pub fn isec(s: &Seg, t: &Seg) -> Isec {
    if s.is_point() {
        return if t.is_point() {
            if s.a == t.a { Isec::Pt(s.a.x as i128, s.a.y as i128, 1) } else { Isec::None }
        } else if on_seg(t, s.a) {
            Isec::Pt(s.a.x as i128, s.a.y as i128, 1)
        } else {
            Isec::None
        };
    }
    if t.is_point() {
        return isec(t, s);
    }
    let (o1, o2) = (orient(s.a, s.b, t.a), orient(s.a, s.b, t.b));
    if o1 == 0 && o2 == 0 {
        let lo = s.lo().max(t.lo());
        let hi = s.hi().min(t.hi());
        return match lo.cmp(&hi) {
            Ordering::Less => Isec::Overlap(lo, hi),
            Ordering::Equal => Isec::Pt(lo.x as i128, lo.y as i128, 1),
            Ordering::Greater => Isec::None,
        };
    }
    if o1 * o2 > 0 {
        return Isec::None;
    }
    let (o3, o4) = (orient(t.a, t.b, s.a), orient(t.a, t.b, s.b));
    if o3 * o4 > 0 {
        return Isec::None;
    }
    // s.a + u (s.b - s.a), u = cross(t.a, t.b, s.a) / (cross(t.a,t.b,s.a) - cross(t.a,t.b,s.b))
    let ca = cross(t.a, t.b, s.a);
    let cb = cross(t.a, t.b, s.b);
    let mut d = ca - cb;
    let mut nx = s.a.x as i128 * d + ca * (s.b.x - s.a.x) as i128;
    let mut ny = s.a.y as i128 * d + ca * (s.b.y - s.a.y) as i128;
    if d < 0 {
        d = -d;
        nx = -nx;
        ny = -ny;
    }
    Isec::Pt(nx, ny, d)
}

pub fn gcd(mut a: i128, mut b: i128) -> i128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a.abs()
}

/// A unimodular map with large entries: areas, order types and lattice points
/// stay, but angles become so small that only exact predicates tell them apart.
pub fn shear(rng: &mut Rng, bits: i64) -> impl Fn(P) -> P {
    let m = 1i64 << rng.range(0, bits);
    let (mut a, mut b) = (rng.range(-m, m), rng.range(-m, m));
    match rng.below(4) {
        0 => a = 0,
        1 => b = 0,
        _ => {}
    }
    let sw = rng.chance(1, 2);
    move |q: P| {
        let x = q.x + a * q.y;
        let y = q.y + b * x;
        if sw {
            p(y, x)
        } else {
            p(x, y)
        }
    }
}
/// Largest absolute coordinate.
pub fn reach<'a>(v: impl IntoIterator<Item = &'a P>) -> i64 {
    v.into_iter().map(|q| q.x.abs().max(q.y.abs())).max().unwrap_or(0)
}

/// Points to insert into each segment so that no two cross inside both:
/// afterwards every crossing is an end of a piece. `None` if one is not integral.
pub fn node_points(segs: &[Seg], mut pick: impl FnMut() -> u64) -> Option<Vec<Vec<P>>> {
    let mut ins = vec![vec![]; segs.len()];
    for i in 0..segs.len() {
        for j in i + 1..segs.len() {
            if let Isec::Pt(x, y, d) = isec(&segs[i], &segs[j]) {
                if x % d != 0 || y % d != 0 {
                    return None;
                }
                let r = p((x / d) as i64, (y / d) as i64);
                if [segs[i].a, segs[i].b, segs[j].a, segs[j].b].contains(&r) {
                    continue;
                }
                let w = pick() % 4;
                if w != 0 {
                    ins[i].push(r);
                }
                if w != 1 {
                    ins[j].push(r);
                }
            }
        }
    }
    for (s, v) in segs.iter().zip(ins.iter_mut()) {
        v.sort();
        v.dedup();
        if s.a > s.b {
            v.reverse();
        }
    }
    Some(ins)
}
