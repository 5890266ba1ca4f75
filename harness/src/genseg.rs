//! Segment-set generators.
use crate::exact::*;
use crate::rng::Rng;

pub const OCT: &[(i64, i64)] = &[(1, 0), (0, 1), (1, 1), (1, -1)];
pub const DIR8: &[(i64, i64)] =
    &[(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 2), (2, -1), (1, -2)];
pub const DIR16: &[(i64, i64)] = &[
    (1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 2), (2, -1), (1, -2),
    (3, 1), (1, 3), (3, -1), (1, -3), (3, 2), (2, 3), (3, -2), (2, -3),
];

/// lcm of |d_i x d_j|.
pub fn lattice_scale(dirs: &[(i64, i64)]) -> i64 {
    let mut l: i128 = 1;
    for a in dirs {
        for b in dirs {
            let c = ((a.0 * b.1 - a.1 * b.0) as i128).abs();
            if c > 0 {
                l = l / gcd(l, c) * c;
            }
        }
    }
    l as i64
}

/// Segments with directions from `dirs` whose pairwise intersections are all
/// integral: every construction is exact in f64.
pub fn lattice(rng: &mut Rng, dirs: &[(i64, i64)], n: usize, k: i64, pts: bool) -> Vec<Seg> {
    let l = lattice_scale(dirs);
    let mut v = vec![];
    let at = |x: i64, y: i64| p(x * l, y * l);
    while v.len() < n {
        if pts && rng.chance(1, 8) {
            let q = at(rng.range(0, k), rng.range(0, k));
            v.push(Seg { a: q, b: q });
            continue;
        }
        if !v.is_empty() && rng.chance(1, 12) {
            // duplicate / reversed duplicate
            let s: Seg = *rng.pick(&v);
            v.push(if rng.chance(1, 2) { s } else { Seg { a: s.b, b: s.a } });
            continue;
        }
        let d = *rng.pick(dirs);
        let m = d.0.abs().max(d.1.abs());
        let len = rng.range(1, (k / m).max(1));
        let (sx, sy) = (rng.range(0, k), rng.range(0, k));
        let (ex, ey) = (sx + d.0 * len, sy + d.1 * len);
        if ex < 0 || ey < 0 || ex > k || ey > k {
            continue;
        }
        let (a, b) = (at(sx, sy), at(ex, ey));
        v.push(if rng.chance(1, 2) { Seg { a, b } } else { Seg { a: b, b: a } });
    }
    v
}
