//! Scan histories: noise-model configuration, sensor positions and clouds, in metres.
use crate::adapt::{C, P};
use crate::gen::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub n: usize,
    pub res: f32,
    pub tile: usize,
    pub hit: f32,
    pub miss: f32,
    pub min: f32,
    pub max: f32,
    pub thr: f32,
    pub range: f32,
}
impl Cfg {
    pub fn model(&self) -> kuba::LidarNoiseModel {
        kuba::LidarNoiseModel::new(self.hit, self.miss, self.min, self.max, self.thr, self.range)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scan {
    pub sensor: P,
    pub pts: Vec<P>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ScanCase {
    pub cfg: Cfg,
    /// world cell around which everything lies
    pub base: C,
    pub scans: Vec<Scan>,
}

/// Position recipes, resolved against the sensor, the tile grid and earlier points.
#[derive(Clone, Debug)]
enum Spot {
    At(C, [f64; 3]),
    /// Near a tile edge: axis, tile number, side offset in cells, fraction.
    Edge(C, [f64; 3], usize, i64, f64),
    Same(usize),
    /// Same direction from the sensor as an earlier point, other length.
    Along(usize, f64),
    /// Shares coordinates with the sensor on some axes.
    Axis(C, [f64; 3], u8),
    /// Exactly the sensor position.
    Sensor,
}

pub fn probs() -> BoxedStrategy<(f32, f32, f32, f32, f32)> {
    prop_oneof![
        2 => Just((0.7f32, 0.4f32, 0.1192f32, 0.971f32, 0.5f32)),
        3 => (501u32..=990, 10u32..=499, 10u32..=450, 550u32..=990, 100u32..=900).prop_map(|(a, b, c, d, e)| {
            (a as f32 / 1000.0, b as f32 / 1000.0, c as f32 / 1000.0, d as f32 / 1000.0, e as f32 / 1000.0)
        }),
        // certain or worthless evidence, limits as tight or as wide as they can be
        1 => (
            prop::sample::select(vec![0.5f32, 0.7, 0.9999, 1.0]),
            prop::sample::select(vec![0.5f32, 0.4, 0.0001, 0.0]),
            prop::sample::select(vec![0.5f32, 0.1192, 1e-6, 1e-30]),
            prop::sample::select(vec![0.5f32, 0.971, 0.999_999]),
            prop::sample::select(vec![0.5f32, 0.0, 1.0, 0.97]),
        ),
    ]
    .boxed()
}
fn range(res: f32) -> BoxedStrategy<f32> {
    prop_oneof![
        3 => Just(60.0f32),
        2 => Just(0.0f32),
        1 => Just(-1.0f32),
        3 => (1u32..=400).prop_map(move |k| k as f32 * 0.1 * res),
        1 => (0u32..=40).prop_map(move |k| k as f32 * res),
        1 => dict_float(1e-3, 1e3),
        1 => prop::sample::select(vec![f32::INFINITY, f32::MAX, 1e20, 1e-30, -0.0, f32::MIN, f32::NEG_INFINITY]),
    ]
    .boxed()
}
fn spot(span: i64) -> BoxedStrategy<Spot> {
    let c = || arr3((-span..=span).boxed());
    let f = || arr3(frac());
    prop_oneof![
        6 => (c(), f()).prop_map(|(c, f)| Spot::At(c, f)),
        3 => (c(), f(), 0usize..3, -2i64..=1, frac()).prop_map(|(c, f, a, s, g)| Spot::Edge(c, f, a, s, g)),
        1 => (0usize..8).prop_map(Spot::Same),
        2 => (0usize..8, 1u32..=30).prop_map(|(i, k)| Spot::Along(i, k as f64 / 10.0)),
        2 => (c(), f(), 1u8..8).prop_map(|(c, f, m)| Spot::Axis(c, f, m)),
        1 => Just(Spot::Sensor),
    ]
    .boxed()
}
fn resolve(s: &Spot, base: &C, sensor: &P, prev: &[P], cfg_res: f32, tile: usize, n: usize, span: i64) -> P {
    let at = |c: &C, f: &[f64; 3]| {
        let mut cc = *c;
        for i in 0..n {
            cc[i] += base[i];
        }
        metres3(&cc, f, cfg_res, n)
    };
    match s {
        Spot::At(c, f) => at(c, f),
        Spot::Edge(c, f, a, side, g) => {
            let mut p = at(c, f);
            let a = a % n;
            let t = tile as i64;
            let edge = (c[a] + base[a]).div_euclid(t) * t;
            p[a] = metres(edge + side, *g, cfg_res);
            p
        }
        Spot::Same(i) => {
            if prev.is_empty() {
                *sensor
            } else {
                prev[i % prev.len()]
            }
        }
        Spot::Along(i, k) => {
            if prev.is_empty() {
                return *sensor;
            }
            let q = prev[i % prev.len()];
            let mut p = [0.0; 3];
            for a in 0..n {
                let lim = 2.0 * span as f64 * cfg_res as f64;
                let d = ((q[a] as f64 - sensor[a] as f64) * k).clamp(-lim, lim);
                p[a] = (sensor[a] as f64 + d) as f32;
            }
            p
        }
        Spot::Axis(c, f, m) => {
            let mut p = at(c, f);
            for a in 0..n {
                if m & (1 << a) != 0 {
                    p[a] = sensor[a];
                }
            }
            p
        }
        Spot::Sensor => *sensor,
    }
}

pub fn base_cell(max: i64) -> BoxedStrategy<C> {
    prop_oneof![
        2 => Just([0i64; 3]),
        2 => arr3((-40i64..=40).boxed()),
        2 => arr3(coord(max)),
    ]
    .boxed()
}

pub fn scan_case(max_scans: usize, max_pts: usize) -> BoxedStrategy<ScanCase> {
    (dims(), resolution(), probs())
        .prop_flat_map(move |(n, res, pr)| {
            let span = if n == 2 { 45 } else { 10 };
            let tmax = if n == 2 { 50usize } else { 12 };
            let tile = prop_oneof![3 => 1usize..=8, 2 => 1usize..=tmax];
            let far = prop_oneof![5 => Just([0i64; 3]), 1 => arr3((-(span)..=span).boxed())];
            let scan = (far, spot(span), prop::collection::vec(spot(span), 0..=max_pts));
            (
                Just((n, res, pr)),
                tile,
                range(res),
                base_cell(2500),
                prop::collection::vec(scan, 1..=max_scans),
                repeats(),
            )
                .prop_map(move |((n, res, pr), tile, range, base, scans, rep)| {
                    let mut base = base;
                    for i in n..3 {
                        base[i] = 0;
                    }
                    let cfg = Cfg { n, res, tile, hit: pr.0, miss: pr.1, min: pr.2, max: pr.3, thr: pr.4, range };
                    let scans = scans
                        .iter()
                        .map(|(far, s, ps)| {
                            let mut sb = base;
                            for i in 0..n {
                                sb[i] += far[i];
                            }
                            let sensor = resolve(s, &sb, &[0.0; 3], &[], res, tile, n, span);
                            // relative recipes make no sense for the sensor: put it at the base
                            let sensor = match s {
                                Spot::At(..) | Spot::Edge(..) => sensor,
                                _ => metres3(&sb, &[0.0; 3], res, n),
                            };
                            let mut pts: Vec<P> = vec![];
                            for p in ps {
                                let q = resolve(p, &base, &sensor, &pts, res, tile, n, span);
                                pts.push(q);
                            }
                            Scan { sensor, pts }
                        })
                        .collect();
                    ScanCase { cfg, base, scans: repeat_scans(scans, &rep, n) }
                })
        })
        .boxed()
}

/// A scan almost like the one before it: what a resting sensor records, and what anything
/// remembered from an earlier scan must not be confused by.
pub fn near_repeat(prev: &Scan, new: Scan, kind: u8, k: u32, n: usize) -> Scan {
    let m = prev.pts.len();
    let at = |x: u32| prev.pts[x as usize % m];
    let mut s = prev.clone();
    match kind {
        // the same place, new returns
        0 => return Scan { sensor: prev.sensor, pts: new.pts },
        // new place, the same returns
        1 => return Scan { sensor: new.sensor, pts: prev.pts.clone() },
        // one return replaced by a copy of another (the number and, mostly, the box of the returns stay)
        2 if m > 0 => s.pts[k as usize % m] = at(k / 64),
        // one return replaced by a new one
        3 if m > 0 && !new.pts.is_empty() => s.pts[k as usize % m] = new.pts[k as usize % new.pts.len()],
        // coordinates of two returns exchanged on one axis: the box stays exactly
        4 if m > 1 => {
            let (i, j) = (k as usize % m, (k / 64) as usize % m);
            let a = (k / 4096) as usize % n;
            let v = s.pts[i][a];
            s.pts[i][a] = s.pts[j][a];
            s.pts[j][a] = v;
        }
        5 => s.pts.reverse(),
        6 => {
            s.pts.pop();
        }
        _ => {}
    }
    s
}
fn repeats() -> BoxedStrategy<Vec<(u8, u32)>> {
    prop_oneof![2 => Just(vec![]).boxed(), 1 => prop::collection::vec((0u8..12, any::<u32>()), 1..=3).boxed()].boxed()
}
fn repeat_scans(scans: Vec<Scan>, rep: &[(u8, u32)], n: usize) -> Vec<Scan> {
    let mut out: Vec<Scan> = vec![];
    for (i, s) in scans.into_iter().enumerate() {
        let s = match (out.last(), rep.get(i.wrapping_sub(1))) {
            (Some(p), Some((kind, k))) if *kind < 7 => near_repeat(p, s, *kind, *k, n),
            _ => s,
        };
        out.push(s);
    }
    out
}

/// Scans on an exactly representable lattice (dyadic resolution, sixteenths of a cell).
pub fn scan_case_dyadic(max_scans: usize, max_pts: usize) -> BoxedStrategy<ScanCase> {
    (dims(), resolution_dyadic(), probs())
        .prop_flat_map(move |(n, res, pr)| {
            let span = if n == 2 { 30i64 } else { 9 };
            let pos = move || (arr3((-span..=span).boxed()), arr3(frac_dyadic()));
            let scan = (pos(), prop::collection::vec(pos(), 0..=max_pts));
            (Just((n, res, pr)), 1usize..=10, range(res), base_cell(1000), prop::collection::vec(scan, 1..=max_scans), repeats()).prop_map(
                move |((n, res, pr), tile, range, base, scans, rep)| {
                    let mut base = base;
                    for i in n..3 {
                        base[i] = 0;
                    }
                    let cfg = Cfg { n, res, tile, hit: pr.0, miss: pr.1, min: pr.2, max: pr.3, thr: pr.4, range };
                    let at = |p: &(C, [f64; 3])| {
                        let mut c = p.0;
                        for i in 0..n {
                            c[i] += base[i];
                        }
                        metres3(&c, &p.1, res, n)
                    };
                    let scans = scans
                        .iter()
                        .map(|(s, ps)| Scan { sensor: at(s), pts: ps.iter().map(at).collect() })
                        .collect();
                    ScanCase { cfg, base, scans: repeat_scans(scans, &rep, n) }
                },
            )
        })
        .boxed()
}

/// A compact description of a large history, expanded deterministically: cases stay small on disk
/// and shrink by the number and size of their scans.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bulk {
    pub cfg: Cfg,
    pub base: C,
    /// half-width of the region in cells
    pub span: i64,
    pub seed: u64,
    /// points per scan
    pub sizes: Vec<u32>,
    /// 0 anywhere, 1 a sweep around the sensor, 2 few cells hit again and again, 3 a wall
    pub mode: u8,
    /// sensor motion between scans, in cells
    pub step: i64,
    /// only exactly representable coordinates (sixteenths of a cell)
    pub dyadic: bool,
    /// how many of 256 scans are almost the one before them (see near_repeat)
    #[serde(default)]
    pub keep: u8,
    /// half-widths of the region the sensor jumps around in, in cells (zero: it stays)
    #[serde(default)]
    pub roam: C,
}
impl Bulk {
    pub fn expand(&self) -> ScanCase {
        let (n, res, s) = (self.cfg.n, self.cfg.res, self.span.max(1));
        let mut r = Mix(self.seed);
        let mut frac = |r: &mut Mix| if self.dyadic { (r.below(15) as f64 - 7.0) / 16.0 } else { r.unit() * 0.5 };
        let mut spot = |c: C, home: &C, r: &mut Mix| {
            let mut p = [0.0; 3];
            for i in 0..n {
                p[i] = metres(self.base[i] + home[i] + c[i], frac(r), res);
            }
            p
        };
        let mut home = [0i64; 3];
        let any = |r: &mut Mix, s: i64| [0, 1, 2].map(|_| r.below(2 * s as u64 + 1) as i64 - s);
        let mut at = any(&mut r, s / 2);
        let mut scans: Vec<Scan> = vec![];
        for (k, m) in self.sizes.iter().enumerate() {
            if self.step > 0 && k > 0 {
                for i in 0..n {
                    at[i] = (at[i] + r.below(2 * self.step as u64 + 1) as i64 - self.step).clamp(-s, s);
                }
            }
            if self.roam != [0; 3] && r.below(3) > 0 {
                for i in 0..n {
                    home[i] = match r.below(8) {
                        0 => self.roam[i],
                        1 => -self.roam[i],
                        2 => home[i],
                        _ => r.below(2 * self.roam[i] as u64 + 1) as i64 - self.roam[i],
                    };
                }
            }
            let sensor = spot(at, &home, &mut r);
            let pool: Vec<C> = (0..6).map(|_| any(&mut r, s)).collect();
            let axis = r.below(n as u64) as usize;
            let wall = r.below(2 * s as u64 + 1) as i64 - s;
            let pts = (0..*m)
                .map(|j| {
                    let mut c = any(&mut r, s);
                    match self.mode {
                        1 => {
                            let a = j as f64 / *m as f64 * std::f64::consts::TAU;
                            let d = s as f64 * (0.5 + 0.5 * r.unit().abs());
                            c[0] = at[0] + (a.cos() * d) as i64;
                            c[1] = at[1] + (a.sin() * d) as i64;
                            for i in 0..3 {
                                c[i] = c[i].clamp(-2 * s, 2 * s);
                            }
                        }
                        2 => c = pool[r.below(pool.len() as u64) as usize],
                        3 => c[axis] = wall,
                        _ => {}
                    }
                    spot(c, &home, &mut r)
                })
                .collect();
            let mut scan = Scan { sensor, pts };
            if self.keep > 0 && k > 0 && r.below(256) < self.keep as u64 {
                let (kind, k) = (r.below(7) as u8, r.next() as u32);
                scan = near_repeat(&scans[scans.len() - 1], scan, kind, k, n);
            }
            scans.push(scan);
        }
        ScanCase { cfg: self.cfg.clone(), base: self.base, scans }
    }
    pub fn total(&self) -> u32 {
        self.sizes.iter().sum()
    }
}
fn keep() -> BoxedStrategy<u8> {
    prop_oneof![2 => Just(0u8), 1 => Just(128u8), 1 => any::<u8>()].boxed()
}
/// Large scans (up to `max_pts` points), long histories (up to `max_scans` scans) or wide maps.
pub fn bulk_case(max_scans: usize, max_pts: usize, dyadic: bool) -> BoxedStrategy<Bulk> {
    let res = if dyadic { resolution_dyadic() } else { resolution() };
    (dims(), res, probs())
        .prop_flat_map(move |(n, res, pr)| {
            let few = prop::collection::vec(bulk(20, max_pts).prop_map(|v| v as u32), 1..=2);
            let long = bulk(6, max_scans).prop_flat_map(|k| prop::collection::vec(0u32..=8, k..=k));
            let sizes = prop_oneof![1 => few, 1 => long];
            let span = if n == 2 { prop_oneof![3 => 3i64..=40, 1 => 40i64..=180].boxed() } else { prop_oneof![3 => 2i64..=10, 1 => 10i64..=24].boxed() };
            let tile = if n == 2 {
                prop_oneof![2 => 1usize..=16, 2 => bulk(16, 160), 1 => Just(100usize), 1 => dict_int(1, 160).prop_map(|v| v as usize)].boxed()
            } else {
                prop_oneof![2 => 1usize..=8, 2 => 8usize..=40].boxed()
            };
            (Just((n, res, pr)), tile, range(res), base_cell(1000), span, any::<u64>(), sizes, (0u8..4, keep()), 0i64..=12)
        })
        .prop_map(move |((n, res, pr), tile, range, mut base, span, seed, sizes, (mode, keep), step)| {
            for i in n..3 {
                base[i] = 0;
            }
            let cfg = Cfg { n, res, tile, hit: pr.0, miss: pr.1, min: pr.2, max: pr.3, thr: pr.4, range };
            Bulk { cfg, base, span, seed, sizes, mode, step, dyadic, keep, roam: [0; 3] }
        })
        .boxed()
}

/// Long histories of small scans in a small region: hundreds to thousands of scans.
pub fn endurance_case(max_scans: usize, dyadic: bool) -> BoxedStrategy<Bulk> {
    let res = if dyadic { resolution_dyadic() } else { resolution() };
    (dims(), res, probs())
        .prop_flat_map(move |(n, res, pr)| {
            let sizes = bulk(40, max_scans).prop_flat_map(|k| prop::collection::vec(prop_oneof![1 => Just(0u32), 6 => 1u32..=2, 1 => 3u32..=5], k..=k));
            let span = if n == 2 { 1i64..=4 } else { 1i64..=2 };
            (Just((n, res, pr)), 1usize..=5, range(res), base_cell(1000), span, any::<u64>(), sizes, (0u8..4, keep()), 0i64..=2)
        })
        .prop_map(move |((n, res, pr), tile, range, mut base, span, seed, sizes, (mode, keep), step)| {
            for i in n..3 {
                base[i] = 0;
            }
            let cfg = Cfg { n, res, tile, hit: pr.0, miss: pr.1, min: pr.2, max: pr.3, thr: pr.4, range };
            Bulk { cfg, base, span, seed, sizes, mode, step, dyadic, keep, roam: [0; 3] }
        })
        .boxed()
}

/// Half-widths of a region of up to 2^`most` cells of any aspect, no side longer than 2 * `reach` + 1.
pub fn extents(n: usize, most: u32, reach: i64) -> BoxedStrategy<C> {
    let w = prop_oneof![1 => Just(0.0f64), 3 => 0.0f64..=1.0];
    (15.0f64..=most as f64, prop::array::uniform3(w))
        .prop_map(move |(e, w)| {
            let sum = w[..n].iter().sum::<f64>().max(1e-6);
            let mut h = [0; 3];
            for i in 0..n {
                h[i] = ((2.0f64.powf(e * w[i] / sum) / 2.0) as i64).clamp(0, reach);
            }
            h
        })
        .boxed()
}
/// Makes sure that a map reaching `half` cells to either side, and `pad` cells more, stays below 2^25
/// cells after rounding to tiles: smaller tiles first, then a smaller region.
pub fn fit(n: usize, half: &mut C, pad: i64, tile: &mut usize) {
    let cells = |h: &C, t: usize| (0..n).map(|i| (2 * h[i] + 4 + pad + 2 * t as i64) as f64).product::<f64>();
    while cells(half, *tile) > (1u64 << 25) as f64 {
        if *tile > 8 {
            *tile /= 2;
        } else {
            let i = (0..n).max_by_key(|i| half[*i]).unwrap();
            half[i] = half[i] * 3 / 4;
        }
    }
}
/// A few small scans from places far apart: maps of up to some 2^`most` cells, square or in strips.
/// `pad`: room on every axis for what the check adds to the map besides the scans.
pub fn vast_case(most: u32, reach: i64, dyadic: bool, pad: i64) -> BoxedStrategy<Bulk> {
    let res = if dyadic { resolution_dyadic() } else { resolution() };
    (dims(), res, probs())
        .prop_flat_map(move |(n, res, pr)| {
            let sizes = prop::collection::vec(0u32..=30, 1..=6);
            let span = if n == 2 { 2i64..=20 } else { 1i64..=5 };
            let tile = if n == 2 { prop_oneof![1 => 1usize..=10, 1 => 10usize..=100, 1 => Just(100usize)].boxed() } else { (1usize..=12).boxed() };
            let roam = extents(n, most, if n == 2 { reach } else { reach.min(1200) });
            (Just((n, res, pr)), tile, range(res), base_cell(1000), span, any::<u64>(), sizes, (0u8..4, keep()), roam)
        })
        .prop_map(move |((n, res, pr), mut tile, range, mut base, span, seed, sizes, (mode, keep), mut roam)| {
            for i in n..3 {
                base[i] = 0;
            }
            fit(n, &mut roam, 4 * span + pad, &mut tile);
            let cfg = Cfg { n, res, tile, hit: pr.0, miss: pr.1, min: pr.2, max: pr.3, thr: pr.4, range };
            Bulk { cfg, base, span, seed, sizes, mode, step: 2, dyadic, keep, roam }
        })
        .boxed()
}
