//! Independent geometry of segments against a cell grid, in f64 and in cell units relative to the
//! grid's origin cell centre (cell c covers [c-0.5, c+0.5] on each axis).
use crate::adapt::{C, P};
use crate::gen::U;
use crate::fast::HashMap;

pub type V = [f64; 3];

pub fn to_cells(p: &P, lo: &P, res: f32, n: usize) -> V {
    let mut v = [0.0; 3];
    for i in 0..n {
        v[i] = (p[i] as f64 - lo[i] as f64) / res as f64;
    }
    v
}
/// How far, in cells, an f32 traversal may place a cell border away from its true position.
/// Border position: a few roundings at the magnitude of the coordinates involved (M). Ray
/// parameter: normalised direction and one rounding per step (n steps) at the ray's length (T).
pub fn tol_cells(o: &P, e: &P, lo: &P, res: f32, n: usize) -> f64 {
    let mut m = 0.0f64;
    let mut t = 0.0f64;
    let mut steps = 0.0f64;
    for i in 0..n {
        m = m.max(o[i].abs() as f64).max(e[i].abs() as f64).max(lo[i].abs() as f64);
        let d = (o[i] as f64 - e[i] as f64).abs();
        t += d * d;
        steps = steps.max(d / res as f64);
        m = m.max((o[i] as f64 - lo[i] as f64).abs()).max((e[i] as f64 - lo[i] as f64).abs());
    }
    let t = t.sqrt();
    2.0 * (8.0 * m + (12.0 + 0.75 * (steps + 2.0)) * t) * U / res as f64 + 1e-9
}
/// Rounding of one point's cell assignment, in cells.
pub fn tol_point(p: &P, lo: &P, res: f32, n: usize) -> f64 {
    let mut m = 0.0f64;
    for i in 0..n {
        m = m.max(p[i].abs() as f64 + lo[i].abs() as f64);
    }
    4.0 * m * U / res as f64 + 1e-9
}
pub fn nearest(v: &V, n: usize) -> C {
    let mut c = [0i64; 3];
    for i in 0..n {
        c[i] = v[i].round() as i64;
    }
    c
}
/// Could an f32 computation assign position v to cell c?
pub fn may_hold(c: &C, v: &V, tol: f64, n: usize) -> bool {
    (0..n).all(|i| (c[i] as f64 - v[i]).abs() <= 0.5 + tol)
}
pub fn must_hold(c: &C, v: &V, tol: f64, n: usize) -> bool {
    (0..n).all(|i| (c[i] as f64 - v[i]).abs() < 0.5 - tol)
}
/// All cells position v may be assigned to.
pub fn holders(v: &V, tol: f64, n: usize) -> Vec<C> {
    let mut out = vec![[0i64; 3]];
    for i in 0..n {
        let a = (v[i] - 0.5 - tol).ceil() as i64;
        let b = (v[i] + 0.5 + tol).floor() as i64;
        let mut nx = vec![];
        for c in &out {
            for k in a..=b {
                let mut d = *c;
                d[i] = k;
                nx.push(d);
            }
        }
        out = nx;
    }
    out
}
/// Parameter interval of segment o-e inside cell c inflated by tol.
pub fn slab(o: &V, e: &V, c: &C, tol: f64, n: usize) -> Option<(f64, f64)> {
    let (mut t0, mut t1) = (0.0f64, 1.0f64);
    for i in 0..n {
        let lo = c[i] as f64 - 0.5 - tol;
        let hi = c[i] as f64 + 0.5 + tol;
        let d = e[i] - o[i];
        if d == 0.0 {
            if o[i] < lo || o[i] > hi {
                return None;
            }
            continue;
        }
        let (a, b) = ((lo - o[i]) / d, (hi - o[i]) / d);
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        t0 = t0.max(a);
        t1 = t1.min(b);
    }
    // t-rounding: the inflation absorbs it except for an exactly degenerate interval.
    if t0 <= t1 {
        Some((t0, t1))
    } else {
        None
    }
}
/// Cells the exact segment runs through, in order, with the parameter interval in each.
pub fn walk(o: &V, e: &V, n: usize) -> Vec<(C, f64, f64)> {
    let mut ts = vec![0.0f64, 1.0];
    for i in 0..n {
        let d = e[i] - o[i];
        if d == 0.0 {
            continue;
        }
        let (a, b) = if d > 0.0 { (o[i], e[i]) } else { (e[i], o[i]) };
        let mut k = (a + 0.5).floor();
        while k - 0.5 <= b {
            let t = (k - 0.5 - o[i]) / d;
            if t > 0.0 && t < 1.0 {
                ts.push(t);
            }
            k += 1.0;
        }
    }
    ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut out = vec![];
    for w in ts.windows(2) {
        if w[1] <= w[0] {
            continue;
        }
        let m = 0.5 * (w[0] + w[1]);
        let mut c = [0i64; 3];
        for i in 0..n {
            c[i] = (o[i] + m * (e[i] - o[i])).round() as i64;
        }
        out.push((c, w[0], w[1]));
    }
    if out.is_empty() {
        out.push((nearest(o, n), 0.0, 1.0));
    }
    out
}
#[derive(Clone, Copy, Debug)]
pub struct Cross {
    /// The segment clearly passes through the cell: every correct traversal visits it.
    pub certain: bool,
    pub t0: f64,
    pub t1: f64,
}
/// Every cell the segment touches (up to tol), with whether it is certainly crossed.
pub fn crossings(o: &V, e: &V, tol: f64, n: usize) -> HashMap<C, Cross> {
    let mut m: HashMap<C, Cross> = HashMap::default();
    for (c, a, b) in walk(o, e, n) {
        let mid = 0.5 * (a + b);
        let clear = (0..n).all(|i| ((o[i] + mid * (e[i] - o[i])) - c[i] as f64).abs() < 0.5 - tol);
        // neighbours whose inflated box can meet this piece
        let mut offs: [(i64, i64); 3] = [(0, 0); 3];
        for i in 0..n {
            let (x, y) = (o[i] + a * (e[i] - o[i]), o[i] + b * (e[i] - o[i]));
            let (x, y) = (x.min(y) - c[i] as f64, x.max(y) - c[i] as f64);
            offs[i] = (if x <= -0.5 + 2.0 * tol { -1 } else { 0 }, if y >= 0.5 - 2.0 * tol { 1 } else { 0 });
        }
        for dx in offs[0].0..=offs[0].1 {
            for dy in offs[1].0..=offs[1].1 {
                for dz in offs[2].0..=offs[2].1 {
                    let k = [c[0] + dx, c[1] + dy, c[2] + dz];
                    if m.contains_key(&k) {
                        continue;
                    }
                    if let Some((t0, t1)) = slab(o, e, &k, tol, n) {
                        m.insert(k, Cross { certain: false, t0, t1 });
                    }
                }
            }
        }
        let entry = m.entry(c).or_insert(Cross { certain: false, t0: a, t1: b });
        entry.certain |= clear;
    }
    m
}

pub fn centre_dist(c: &C, o: &V, res: f32, n: usize) -> f64 {
    let mut s = 0.0;
    for i in 0..n {
        let d = c[i] as f64 - o[i];
        s += d * d;
    }
    s.sqrt() * res as f64
}

/// What one ray does to each cell it may touch.
#[derive(Clone, Copy, Default, Debug)]
pub struct Eff {
    pub free_certain: bool,
    pub free_possible: bool,
    pub hit_certain: bool,
    pub hit_possible: bool,
}

/// Three-valued effect of one ray of a scan (max_len <= 0: no limit).
pub fn ray_effect(o_m: &P, e_m: &P, lo: &P, res: f32, max_len: f32, n: usize, out: &mut HashMap<C, Eff>) -> RayInfo {
    let o = to_cells(o_m, lo, res, n);
    let e = to_cells(e_m, lo, res, n);
    let tol = tol_cells(o_m, e_m, lo, res, n);
    let ends = holders(&e, tol, n);
    let origins = holders(&o, tol, n);
    let mut info = RayInfo { tol, ..Default::default() };
    let cr = crossings(&o, &e, tol, n);
    let same_possible = origins.iter().any(|c| ends.contains(c));
    let same_certain = same_possible && origins.len() == 1 && ends.len() == 1;
    // range stops
    let mut first_certain_stop = f64::INFINITY; // end parameter of the earliest certain stop
    let mut first_possible_stop = f64::INFINITY; // start parameter of the earliest possible stop
    let mut dist: HashMap<C, f64> = HashMap::default();
    let r = max_len as f64;
    let tr = {
        let m = (0..n).map(|i| (o_m[i].abs().max(e_m[i].abs()).max(lo[i].abs())) as f64).fold(0.0, f64::max);
        12.0 * U * (m + r.abs().min(1e30)) + 1e-12
    };
    if max_len > 0.0 && !same_certain {
        for (c, x) in &cr {
            let d = centre_dist(c, &o, res, n);
            dist.insert(*c, d);
            let sure_origin = origins.len() == 1 && origins[0] == *c;
            let sure_end = ends.len() == 1 && ends[0] == *c;
            if sure_origin || sure_end {
                continue;
            }
            let maybe_special = origins.contains(c) || ends.contains(c);
            if d > r - tr {
                first_possible_stop = first_possible_stop.min(x.t0);
            }
            if d > r + tr && x.certain && !maybe_special {
                first_certain_stop = first_certain_stop.min(x.t1);
            }
        }
    }
    info.truncated = first_certain_stop.is_finite();
    info.maybe_truncated = first_possible_stop.is_finite();
    for c in &ends {
        let x = out.entry(*c).or_default();
        if !info.truncated {
            x.hit_possible = true;
            if ends.len() == 1 && !info.maybe_truncated {
                x.hit_certain = true;
            }
        }
    }
    info.hit_certain = ends.len() == 1 && !info.maybe_truncated;
    if same_certain {
        return info;
    }
    for (c, x) in &cr {
        let sure_end = ends.len() == 1 && ends[0] == *c;
        if sure_end {
            continue;
        }
        let is_origin_possible = origins.contains(c);
        let sure_origin = origins.len() == 1 && is_origin_possible;
        let mut possible = true;
        if let Some(d) = dist.get(c) {
            if *d > r + tr && !is_origin_possible {
                possible = false;
            }
            if x.t0 > first_certain_stop {
                possible = false;
            }
        }
        if !possible {
            continue;
        }
        let en = out.entry(*c).or_default();
        en.free_possible = true;
        info.cells += 1;
        let certain_visit = (x.certain || sure_origin) && !ends.contains(c) && !same_possible_only(same_possible, sure_origin);
        if certain_visit && (sure_origin || x.t1 < first_possible_stop) {
            en.free_certain = true;
        }
    }
    info
}
fn same_possible_only(same_possible: bool, sure_origin: bool) -> bool {
    // If origin and end may share a cell, even the origin's cell may end up without a miss.
    same_possible && sure_origin
}
#[derive(Clone, Copy, Default, Debug)]
pub struct RayInfo {
    pub tol: f64,
    pub truncated: bool,
    pub maybe_truncated: bool,
    pub hit_certain: bool,
    pub cells: usize,
}

/// Effect of a whole scan per cell, keyed by map index.
pub fn scan_effect(o: &P, pts: &[P], lo: &P, res: f32, max_len: f32, n: usize) -> (HashMap<C, Eff>, Vec<RayInfo>) {
    let mut m = HashMap::default();
    let infos = pts.iter().map(|p| ray_effect(o, p, lo, res, max_len, n, &mut m)).collect();
    (m, infos)
}
impl Eff {
    pub fn may_hit(&self) -> bool {
        self.hit_possible
    }
    pub fn may_miss(&self) -> bool {
        self.free_possible && !self.hit_certain
    }
    pub fn may_keep(&self) -> bool {
        !self.free_certain && !self.hit_certain
    }
    /// Exactly one outcome is possible.
    pub fn settled(&self) -> bool {
        (self.may_hit() as u8 + self.may_miss() as u8 + self.may_keep() as u8) == 1
    }
}
