//! C11-C15, C23: integrating scans.
use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::geo;
use crate::scan::*;
use kuba::{ExpandableGridMap, GridMap, NoiseModel};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use crate::fast::{HashMap, HashSet};

pub fn defs() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "C11",
            rule: "a case is a history of scans into one map (optionally pre-grown elsewhere); non-trivial when some scan's sensor lies outside the map and outside the cloud's box, or a point lies in the last half cell before a tile edge",
            assumptions: &["finite coordinates representable to well under one cell; joint extent bounded so that a correct map needs far less than 512 MB"],
            subs: vec![
                sub("history", 100_000, 4_500_000, || c11_strategy(false), c11_check),
                sub("far", 60_000, 3_000_000, || c11_strategy(true), c11_check),
                sub("bulk", 8_000, 300_000, || bulk_case(40, 3000, false), |b, o| c11_check(&Hist { case: b.expand(), pre: None }, o)),
                sub("endurance", 2_000, 120_000, || endurance_case(3000, false), |b, o| c11_check(&Hist { case: b.expand(), pre: None }, o)),
                sub("vast", 3_000, 180_000, || vast_case(23, 7000, false, 0), |b, o| c11_check(&Hist { case: b.expand(), pre: None }, o)),
                sub("huge", 192, 12_000, || bulk_case(6, 300_000, false), |b, o| c11_check(&Hist { case: b.expand(), pre: None }, o)),
            ],
        },
        PropDef {
            id: "C12",
            rule: "a case is a history of scans; every cell of the map is compared after every scan with a three-valued geometric oracle; non-trivial when some scan has at least two rays sharing a cell, a hit and a miss (or, for cells settled by the oracle, at least 20 compared updates)",
            assumptions: &["cells that a ray touches only within the float tolerance of geo::tol_cells (grazing, ties) may or may not be updated"],
            subs: vec![
                sub("geometry", 25_000, 700_000, || scan_case(4, 12), c12_check),
                sub("dense", 6_000, 150_000, || scan_case(2, 60), c12_check),
                sub("prepared", 20_000, 500_000, c12_prep_strategy, |c, o| c12_run(&c.case, &c.prep, o)),
                sub("bulk", 1_200, 25_000, || bulk_case(30, 2000, false), |b, o| c12_check(&b.expand(), o)),
                sub("endurance", 800, 20_000, || endurance_case(3000, false), |b, o| c12_check(&b.expand(), o)),
                sub("vast", 400, 8_000, || vast_case(21, 7000, false, 0), |b, o| c12_check(&b.expand(), o)),
                sub("huge", 64, 1_500, || bulk_case(6, 160_000, false), |b, o| c12_check(&b.expand(), o)),
            ],
        },
        PropDef {
            id: "C13",
            rule: "a case is a noise-model configuration with a history of hits, misses and writes on several cells; non-trivial when a clamp was reached and both hits and misses occurred",
            assumptions: &["hit >= 0.5 >= miss, limits strictly inside (0,1) and around 0.5 (infinite limits with infinite evidence are undefined)"],
            subs: vec![
                sub("evidence", 2_000_000, 80_000_000, || c13_strategy(false), c13_check),
                sub("long_runs", 60_000, 1_200_000, || c13_strategy(true), c13_check),
                sub("parameters", 400_000, 40_000_000, c13_param_strategy, c13_param_check),
            ],
        },
        PropDef {
            id: "C14",
            rule: "a case is a history of scans, growth requests, toggles, clears and clones; non-trivial when at least one tracked scan is followed by a growth that shifts the map's origin, or saturated cells are reported",
            assumptions: &["the cells a scan updates are taken from the same scan applied to a zeroed copy of the map (checked against geometry by C12)"],
            subs: vec![
                sub("tracking", 40_000, 1_000_000, c14_strategy, c14_check),
                sub("bulk", 1_200, 25_000, c14_bulk_strategy, |b, o| c14_check(&Track { case: b.0.expand(), ops: b.1.clone() }, o)),
                sub("endurance", 192, 4_000, c14_endurance_strategy, |b, o| c14_check(&Track { case: b.0.expand(), ops: b.1.clone() }, o)),
                sub("vast", 160, 3_000, c14_vast_strategy, |b, o| c14_check_to(&Track { case: b.0.expand(), ops: b.1.clone() }, 8.0, o)),
                sub("fresh", 20_000, 200_000, || (scan_case(2, 6), 0u8..4).prop_map(|(case, ctor)| Fresh { case, ctor }).boxed(), c14_fresh_check),
            ],
        },
        PropDef {
            id: "C15",
            rule: "a case is a scan history with exactly representable coordinates plus variants (tile size, growth in advance or between scans, permutation and duplication, whole-cell shift); non-trivial when at least two scans update overlapping cells and the variants' boxes differ",
            assumptions: &["coordinates on a dyadic lattice; cells that differ only where geometry leaves the traversal undetermined (exact corner crossings) are not compared"],
            subs: vec![
                sub("variants", 20_000, 1_000_000, c15_strategy, c15_check),
                sub("bulk", 800, 40_000, c15_bulk_strategy, c15_bulk_check),
                sub("vast", 320, 12_000, || c15_bulk(vast_case(21, 7000, true, 200), 40), c15_bulk_check),
                sub("endurance", 800, 40_000, || c15_bulk(endurance_case(3000, true), 6), c15_bulk_check),
            ],
        },
        PropDef {
            id: "C23",
            rule: "a case is a history applied in lockstep to an occupancy map and to a plain grid with its noise model; non-trivial when it contains at least one scan and two other kinds of operation",
            assumptions: &["growth is requested through the public grid_map field"],
            subs: vec![
                sub("lockstep", 30_000, 800_000, c23_strategy, c23_check),
                sub("bulk", 600, 15_000, c23_bulk_strategy, |b, o| c23_check(&Lock { case: b.0.expand(), ops: b.1.clone() }, o)),
                sub("endurance", 128, 3_000, c23_endurance_strategy, |b, o| c23_check(&Lock { case: b.0.expand(), ops: b.1.clone() }, o)),
                sub("vast", 400, 8_000, c23_vast_strategy, |b, o| c23_check(&Lock { case: b.0.expand(), ops: b.1.clone() }, o)),
                sub("custom_model", 30_000, 600_000, c23_custom_strategy, c23_custom_check),
                sub("defaults", 64, 64, || Just(0u8).boxed(), c23_defaults),
            ],
        },
    ]
}

fn representable(c: &ScanCase) -> bool {
    representable_to(c, 40.0)
}
fn representable_to(c: &ScanCase, k: f64) -> bool {
    c.scans.iter().all(|s| {
        s.pts.iter().chain([&s.sensor]).all(|p| (0..c.cfg.n).all(|i| k * U * p[i].abs() as f64 / c.cfg.res as f64 <= 0.02))
    })
}
fn zero_map(cfg: &Cfg) -> Box<dyn GMap<f32>> {
    new_map::<f32>(cfg.n, cfg.res, &[0.0; 3], &[0.0; 3], cfg.tile, 0.0)
}
fn empty(m: &dyn GMap<f32>) -> bool {
    (0..m.n()).any(|i| m.shape()[i] == 0)
}

// ------------------------------------------------------------------------------------------ C11
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    case: ScanCase,
    /// a growth request (metres) before the scans
    pre: Option<(P, P)>,
}
fn c11_strategy(far: bool) -> BoxedStrategy<Hist> {
    let base_shift = move || -> BoxedStrategy<i64> {
        if far {
            prop_oneof![Just(1i64), Just(5), Just(40)].boxed()
        } else {
            Just(0).boxed()
        }
    };
    (scan_case(4, 8), prop::option::of((arr3((-12i64..=12).boxed()), arr3((0i64..=6).boxed()))), base_shift(), arr3((-2000i64..=2000).boxed()))
        .prop_map(move |(mut case, pre, k, dir)| {
            let n = case.cfg.n;
            let res = case.cfg.res;
            if far {
                // move the whole history away from the world origin
                for s in case.scans.iter_mut() {
                    for p in s.pts.iter_mut().chain([&mut s.sensor]) {
                        for i in 0..n {
                            p[i] = (p[i] as f64 + (dir[i] * k) as f64 * res as f64) as f32;
                        }
                    }
                }
                for i in 0..n {
                    case.base[i] += dir[i] * k;
                }
            }
            let pre = pre.map(|(o, s)| {
                let (mut lo, mut hi) = ([0.0; 3], [0.0; 3]);
                for i in 0..n {
                    lo[i] = metres(case.base[i] + o[i], 0.0, res);
                    hi[i] = metres(case.base[i] + o[i] + s[i], 0.0, res);
                }
                (lo, hi)
            });
            Hist { case, pre }
        })
        .boxed()
}
fn c11_check(h: &Hist, obs: &mut Obs) -> R {
    let c = &h.case;
    let n = c.cfg.n;
    if !representable(c) {
        obs.label("skipped-unrepresentable");
        return Ok(());
    }
    let nm = c.cfg.model();
    let mut m = zero_map(&c.cfg);
    if let Some((lo, hi)) = &h.pre {
        no_panic("expand_bounds", || m.expand(lo, hi, 0.0))?;
    }
    for (step, s) in c.scans.iter().enumerate() {
        let before: Option<(C, C, Vec<f32>)> = if s.pts.is_empty() { Some((world_min(&*m), m.shape(), m.raw_eq())) } else { None };
        let (was_empty, old) = (empty(&*m), (world_min(&*m), m.shape()));
        let out_of_map = empty(&*m) || !inside(&m.cell_from_point(&s.sensor), &m.shape(), n);
        let out_of_box = (0..n).any(|i| s.pts.iter().all(|p| p[i] < s.sensor[i]) || s.pts.iter().all(|p| p[i] > s.sensor[i]));
        obs.label_if(out_of_map, "sensor-outside-map");
        obs.label_if(out_of_box && !s.pts.is_empty(), "sensor-outside-cloud");
        integrate(&nm, &mut *m, &s.sensor, &s.pts).map_err(|e| format!("scan {step}: {e}"))?;
        let shape = m.shape();
        // no more than the joint extent needs: one cell of slack, then whole tiles
        if !s.pts.is_empty() {
            let (w, t) = (world_min(&*m), c.cfg.tile as i64);
            for i in 0..n {
                let at = |p: &P| p[i] as f64 / c.cfg.res as f64;
                let all = || s.pts.iter().chain([&s.sensor]);
                let jl = all().map(at).fold(f64::INFINITY, f64::min).round() as i64;
                let jh = all().map(at).fold(f64::NEG_INFINITY, f64::max).round() as i64 + 1;
                let (ol, oh) = if was_empty { (jl, jh) } else { (old.0[i], old.0[i] + old.1[i]) };
                let lo = (ol.min(jl) - 1).div_euclid(t) * t;
                let hi = -(-(oh.max(jh) + 1)).div_euclid(t) * t;
                ensure!(
                    w[i] >= lo && w[i] + shape[i] <= hi,
                    "scan {step}: axis {i}: the map reaches from cell {} to {}, but map and scan only need {lo} to {hi} in tiles of {t}",
                    w[i],
                    w[i] + shape[i]
                );
            }
        }
        if let Some((w0, s0, raw)) = before {
            obs.label("empty-cloud");
            let w1 = world_min(&*m);
            for (k, v) in cells(&s0, n).zip(raw) {
                let q = add(&k, &subc(&w0, &w1));
                ensure!(inside(&q, &shape, n), "scan {step}: an empty cloud shrank the map");
                ensure!(m.get(&q) == v, "scan {step}: an empty cloud changed cell {:?}", q);
            }
            continue;
        }
        for (what, p) in std::iter::once(("sensor", &s.sensor)).chain(s.pts.iter().map(|p| ("point", p))) {
            let k = m.cell_from_point(p);
            ensure!(inside(&k, &shape, n), "scan {step}: the {what} {:?} falls in cell {:?} of a map of {:?} cells", &p[..n], k, shape);
            no_panic("get", || m.get(&k))?;
            let t = c.cfg.tile as f64;
            obs.nontrivial_if((0..n).any(|i| {
                let q = p[i] as f64 / c.cfg.res as f64 / t;
                let d = (q.ceil() - q) * t;
                d > 0.0 && d <= 0.5
            }));
        }
        obs.nontrivial_if(out_of_map && out_of_box);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C12
#[allow(dead_code)]
fn expect(prev: f32, cfg: &kuba::LidarNoiseModel, hit: bool) -> f32 {
    if hit {
        (prev + cfg.hit_probability_logodds).min(cfg.max_probability_logodds)
    } else {
        (prev + cfg.miss_probability_logodds).max(cfg.min_probability_logodds)
    }
}
/// Independent parameters: closed-form log-odds of the configured probabilities.
fn lo64(p: f32) -> f64 {
    (p as f64 / (1.0 - p as f64)).ln()
}
/// What happens to the map before a scan.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Prep {
    Track(bool),
    Forget,
    /// a value at this position between the limits, written to the cell at this fraction of the map
    Write([u16; 3], u16),
    /// a growth request (cells around the base) with a default between the limits
    Grow(C, C, u16),
    /// integrate the previous scan once more
    Again,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prepared {
    case: ScanCase,
    /// before scan number .0
    prep: Vec<(u8, Prep)>,
}
fn c12_prep_strategy() -> BoxedStrategy<Prepared> {
    let p = prop_oneof![
        3 => any::<bool>().prop_map(Prep::Track),
        1 => Just(Prep::Forget),
        3 => (prop::array::uniform3(any::<u16>()), any::<u16>()).prop_map(|(a, b)| Prep::Write(a, b)),
        2 => (arr3((-10i64..=10).boxed()), arr3((0i64..=5).boxed()), any::<u16>()).prop_map(|(a, b, v)| Prep::Grow(a, b, v)),
        3 => Just(Prep::Again),
    ];
    (scan_case(4, 10), prop::collection::vec((0u8..4, p), 1..=8)).prop_map(|(case, prep)| Prepared { case, prep }).boxed()
}
fn c12_check(c: &ScanCase, obs: &mut Obs) -> R {
    c12_run(c, &[], obs)
}
fn c12_run(c: &ScanCase, prep: &[(u8, Prep)], obs: &mut Obs) -> R {
    let n = c.cfg.n;
    if !representable(c) {
        obs.label("skipped-unrepresentable");
        return Ok(());
    }
    let nm = c.cfg.model();
    let (lh, lm, lmin, lmax) = (lo64(c.cfg.hit), lo64(c.cfg.miss), lo64(c.cfg.min), lo64(c.cfg.max));
    let mut m = zero_map(&c.cfg);
    let mut model: HashMap<C, f64> = HashMap::default(); // world cell -> log-odds
    let mut settled_updates = 0;
    let mut steps: Vec<(usize, Option<&Prep>)> = vec![];
    for i in 0..c.scans.len() {
        steps.extend(prep.iter().filter(|p| p.0 as usize == i).map(|p| (i, Some(&p.1))));
        steps.push((i, None));
    }
    let between = |f: u16| lmin + (lmax - lmin) * f as f64 / 65535.0;
    for (step, op) in steps {
        let s = match op {
            None => &c.scans[step],
            Some(Prep::Again) if step > 0 => &c.scans[step - 1],
            Some(Prep::Again) => continue,
            Some(Prep::Track(on)) => {
                m.set_track(*on);
                continue;
            }
            Some(Prep::Forget) => {
                m.clear_changed();
                continue;
            }
            Some(Prep::Write(f, v)) => {
                if !empty(&*m) {
                    let (sh, w) = (m.shape(), world_min(&*m));
                    let mut k = [0; 3];
                    for a in 0..n {
                        k[a] = f[a] as i64 * sh[a] / 65536;
                    }
                    m.set(&k, between(*v) as f32);
                    model.insert([k[0] + w[0], k[1] + w[1], if n == 3 { k[2] + w[2] } else { 0 }], between(*v) as f32 as f64);
                }
                continue;
            }
            Some(Prep::Grow(o, z, v)) => {
                let (mut lo, mut hi) = ([0.0; 3], [0.0; 3]);
                for a in 0..n {
                    lo[a] = metres(c.base[a] + o[a], 0.0, c.cfg.res);
                    hi[a] = metres(c.base[a] + o[a] + z[a], 0.0, c.cfg.res);
                }
                let (w0, s0, e0) = (world_min(&*m), m.shape(), empty(&*m));
                no_panic("expand_bounds", || m.expand(&lo, &hi, between(*v) as f32))?;
                let w = world_min(&*m);
                for k in cells(&m.shape(), n) {
                    let key = [k[0] + w[0], k[1] + w[1], if n == 3 { k[2] + w[2] } else { 0 }];
                    let old = [key[0] - w0[0], key[1] - w0[1], key[2] - if n == 3 { w0[2] } else { 0 }];
                    if e0 || !inside(&old, &s0, n) {
                        model.insert(key, between(*v) as f32 as f64);
                    }
                }
                continue;
            }
        };
        integrate(&nm, &mut *m, &s.sensor, &s.pts).map_err(|e| format!("scan {step}: {e}"))?;
        let (lo, _) = m.bounds();
        let w = world_min(&*m);
        let shape = m.shape();
        if empty(&*m) {
            continue;
        }
        let (eff, infos) = geo::scan_effect(&s.sensor, &s.pts, &lo, c.cfg.res, c.cfg.range, n);
        if infos.iter().any(|i| i.tol > 0.05) {
            obs.label("skipped-unrepresentable");
            return Ok(());
        }
        obs.label_if(infos.iter().any(|i| i.truncated), "truncated-ray");
        obs.label_if(s.pts.len() >= 2, "several-rays");
        let (mut hits, mut misses) = (0, 0);
        let none = geo::Eff::default();
        for k in cells(&shape, n) {
            let key = [k[0] + w[0], k[1] + w[1], if n == 3 { k[2] + w[2] } else { 0 }];
            let prev = model.get(&key).copied().unwrap_or(0.0);
            let got = m.get(&k) as f64;
            let e = eff.get(&k).unwrap_or(&none);
            let close = |v: f64| (got - v).abs() <= 2e-5 * (1.0 + v.abs());
            let (vh, vm) = ((prev + lh).min(lmax), (prev + lm).max(lmin));
            let ok = (e.may_keep() && close(prev)) || (e.may_hit() && close(vh)) || (e.may_miss() && close(vm));
            if !ok {
                let mut exp = vec![];
                if e.may_hit() {
                    exp.push(format!("{vh} (hit)"));
                }
                if e.may_miss() {
                    exp.push(format!("{vm} (miss)"));
                }
                if e.may_keep() {
                    exp.push(format!("{prev} (unchanged)"));
                }
                return Err(format!("scan {step}: cell {:?} (world cell {:?}) went from {prev} to {got}; expected {}", k, key, exp.join(" or ")));
            }
            if e.settled() && !e.may_keep() {
                settled_updates += 1;
                hits += e.may_hit() as u32;
                misses += e.may_miss() as u32;
            }
            if got != 0.0 || prev != 0.0 || model.contains_key(&key) {
                // follow the observed value, so that grazing cells do not accumulate doubt
                model.insert(key, got);
            }
        }
        obs.label_if(hits > 0 && misses > 0, "hits-and-misses");
        obs.nontrivial_if(s.pts.len() >= 2 && hits > 0 && misses > 0);
    }
    obs.nontrivial_if(settled_updates >= 20);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C13
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Evid {
    n: usize,
    hit: f32,
    miss: f32,
    min: f32,
    max: f32,
    thr: f32,
    ops: Vec<(u8, EOp)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum EOp {
    Hit(u16),
    Miss(u16),
    /// write a value at this position between the limits
    Write(u16),
    /// look at a cell holding the occupancy threshold itself, or a value this many float steps away from it
    WriteThreshold(i8),
}
fn c13_strategy(long: bool) -> BoxedStrategy<Evid> {
    let reps = move || if long { bulk(1, 6000).prop_map(|v| v as u16).boxed() } else { (1u16..=6).boxed() };
    let up = prop_oneof![4 => (500u32..=999).prop_map(|k| k as f32 / 1000.0), 1 => prop_oneof![Just(0.5f32), Just(1.0), Just(0.7), Just(0.9999)], 1 => dict_float(0.5, 1.0)];
    let dn = prop_oneof![4 => (1u32..=500).prop_map(|k| k as f32 / 1000.0), 1 => prop_oneof![Just(0.5f32), Just(0.0), Just(0.4), Just(0.0001)], 1 => dict_float(0.0, 0.5)];
    let mn = prop_oneof![4 => (1u32..=500).prop_map(|k| k as f32 / 1000.0), 1 => Just(0.1192f32), 1 => Just(0.5f32)];
    let mx = prop_oneof![4 => (500u32..=999).prop_map(|k| k as f32 / 1000.0), 1 => Just(0.971f32), 1 => Just(0.5f32)];
    let th = prop_oneof![3 => Just(0.5f32), 3 => (0u32..=1000).prop_map(|k| k as f32 / 1000.0), 1 => prop_oneof![Just(0.0f32), Just(1.0)]];
    let op = prop_oneof![4 => reps().prop_map(EOp::Hit), 4 => reps().prop_map(EOp::Miss), 1 => any::<u16>().prop_map(EOp::Write), 1 => (-3i8..=3).prop_map(EOp::WriteThreshold)];
    (dims(), up, dn, mn, mx, th, prop::collection::vec((0u8..4, op), 1..=20))
        .prop_map(|(n, hit, miss, min, max, thr, ops)| Evid { n, hit, miss, min, max, thr, ops })
        .boxed()
}
fn c13_check(c: &Evid, obs: &mut Obs) -> R {
    let n = c.n;
    let nm = no_panic("LidarNoiseModel::new", || kuba::LidarNoiseModel::new(c.hit, c.miss, c.min, c.max, c.thr, 60.0))?;
    let (lmin, lmax) = (lo64(c.min), lo64(c.max));
    let (lh, lm) = (lo64(c.hit), lo64(c.miss));
    let (lo, hi) = size_bounds(n, &[2, 2, 2], 1.0, &[0; 3]);
    let mut m = new_map::<f32>(n, 1.0, &lo, &hi, 2, 0.0);
    ensure!(NoiseModel::<na::U2, nd::Ix2>::default_cell_value(&nm) == 0.0, "an unobserved cell is not at zero log-odds");
    let mut model: HashMap<C, f64> = HashMap::default();
    let (mut h, mut ms, mut clamp) = (0, 0, false);
    let tol = |v: f64| 1e-5 * (1.0 + v.abs());
    let check_occ = |m: &mut dyn GMap<f32>, k: &C| -> R {
        let v = m.get(k);
        let o = occupied(&nm, m, k);
        let t = lo64(c.thr);
        if c.thr == 0.5 || (v as f64 - t).abs() > 1e-5 * (1.0 + t.abs()) || t.is_infinite() {
            let want = v as f64 > if c.thr == 0.5 { 0.0 } else { t };
            ensure!(o == want, "a cell of value {v} with threshold {} ({t}) is reported occupied={o}", c.thr);
        }
        Ok(())
    };
    for k in cells(&m.shape(), n) {
        check_occ(&mut *m, &k)?;
    }
    for (step, (cell, op)) in c.ops.iter().enumerate() {
        let k: C = [(*cell & 1) as i64, (*cell >> 1 & 1) as i64, if n == 3 { (*cell & 1) as i64 } else { 0 }];
        match op {
            EOp::Write(f) => {
                let v = (lmin + (lmax - lmin) * *f as f64 / 65535.0) as f32;
                m.set(&k, v);
                model.insert(k, v as f64);
            }
            EOp::WriteThreshold(d) => {
                let t = nm.occupied_threshold_logodds;
                if t.is_finite() {
                    let v = nudge(t, *d as i32);
                    let before = m.get(&k);
                    m.set(&k, v);
                    let o = occupied(&nm, &mut *m, &k);
                    // the threshold may lie outside the limits, where hits and misses never leave a cell
                    m.set(&k, before);
                    ensure!(o == (v > t), "step {step}: a cell of value {v:e} with threshold {t:e} is reported occupied={o}");
                }
            }
            EOp::Hit(r) | EOp::Miss(r) => {
                let is_hit = matches!(op, EOp::Hit(_));
                for _ in 0..*r {
                    let prev = m.get(&k);
                    no_panic("integrate", || if is_hit { hit(&nm, &mut *m, &k) } else { miss(&nm, &mut *m, &k) })?;
                    let got = m.get(&k) as f64;
                    let p = *model.get(&k).unwrap_or(&0.0);
                    let want = if is_hit { (p + lh).min(lmax) } else { (p + lm).max(lmin) };
                    ensure!((got - want).abs() <= tol(want) , "step {step}: {} took {p} to {got}, expected {want}", if is_hit { "a hit" } else { "a miss" });
                    ensure!(got >= lmin - tol(lmin) && got <= lmax + tol(lmax), "step {step}: value {got} left [{lmin}, {lmax}]");
                    let inside = prev as f64 >= lmin && prev as f64 <= lmax;
                    if inside {
                        if is_hit {
                            ensure!(got >= prev as f64 - tol(prev as f64), "step {step}: a hit lowered {prev} to {got}");
                        } else {
                            ensure!(got <= prev as f64 + tol(prev as f64), "step {step}: a miss raised {prev} to {got}");
                        }
                    }
                    clamp |= (is_hit && p + lh > lmax) || (!is_hit && p + lm < lmin);
                    model.insert(k, got);
                    h += is_hit as u32;
                    ms += !is_hit as u32;
                }
            }
        }
        check_occ(&mut *m, &k)?;
        for q in cells(&m.shape(), n) {
            if q != k {
                ensure!(m.get(&q) as f64 == *model.get(&q).unwrap_or(&0.0), "step {step}: updating {:?} changed {:?}", k, q);
            }
        }
    }
    obs.label_if(clamp, "clamped");
    obs.nontrivial_if(clamp && h > 0 && ms > 0);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Params {
    bits: [u32; 5],
    range: u32,
}
fn c13_param_strategy() -> BoxedStrategy<Params> {
    let ok = || prop_oneof![6 => (0u32..=1000).prop_map(|k| k as f32 / 1000.0), 1 => prop_oneof![Just(0.0f32), Just(1.0), Just(0.5), Just(-0.0)], 1 => Just(1.0f32.next_down()), 1 => Just(f32::from_bits(1))];
    let bad = prop_oneof![
        Just(-f32::from_bits(1)),
        Just(1.0f32.next_up()),
        Just(-0.1f32),
        Just(1.5),
        Just(f32::NAN),
        Just(f32::INFINITY),
        Just(f32::NEG_INFINITY),
        Just(100.0),
        Just(-1.0),
    ];
    (ok(), ok(), ok(), ok(), ok(), prop::option::of((0usize..5, bad)), -10i32..=100)
        .prop_map(|(a, b, c, d, e, bad, r)| {
            let mut v = [a, b, c, d, e];
            if let Some((i, x)) = bad {
                v[i] = x;
            }
            Params { bits: v.map(|f| f.to_bits()), range: (r as f32).to_bits() }
        })
        .boxed()
}
fn c13_param_check(c: &Params, obs: &mut Obs) -> R {
    let v = c.bits.map(f32::from_bits);
    let range = f32::from_bits(c.range);
    let valid = v.iter().all(|p| *p >= 0.0 && *p <= 1.0);
    obs.nontrivial = true;
    obs.label_if(!valid, "invalid");
    match guard(|| kuba::LidarNoiseModel::new(v[0], v[1], v[2], v[3], v[4], range)) {
        Err(_) => ensure!(!valid, "parameters {:?} were rejected", v),
        Ok(nm) => {
            ensure!(valid, "parameters {:?} were accepted", v);
            let got = [nm.hit_probability_logodds, nm.miss_probability_logodds, nm.min_probability_logodds, nm.max_probability_logodds, nm.occupied_threshold_logodds];
            for i in 0..5 {
                let w = lo64(v[i]);
                let ok = if w.is_infinite() { got[i] as f64 == w } else { (got[i] as f64 - w).abs() <= 2e-6 * (1.0 + w.abs()) };
                ensure!(ok, "parameter {i} = {} is kept as log-odds {}, expected {w}", v[i], got[i]);
            }
            ensure!(nm.max_range == range, "the range limit is not kept");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C14
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Track {
    case: ScanCase,
    /// operation before each scan index (scan index, op)
    ops: Vec<(u16, TOp)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum TOp {
    On,
    Off,
    Clear,
    Grow(C, C),
    Again(u8),
    CloneSwitch(bool),
    /// report extra cells by hand: positions inside the map
    Add([u16; 3]),
}
fn c14_op(span: i64, again: u8) -> BoxedStrategy<TOp> {
    prop_oneof![
        4 => Just(TOp::On),
        1 => Just(TOp::Off),
        1 => Just(TOp::Clear),
        3 => (arr3((-span..=span).boxed()), arr3((0i64..=5).boxed())).prop_map(|(a, b)| TOp::Grow(a, b)),
        2 => (1u8..=again).prop_map(TOp::Again),
        1 => any::<bool>().prop_map(TOp::CloneSwitch),
        1 => arr3(any::<u16>().boxed()).prop_map(TOp::Add),
    ]
    .boxed()
}
fn c14_endurance_strategy() -> BoxedStrategy<(Bulk, Vec<(u16, TOp)>)> {
    (endurance_case(1000, false), prop::collection::vec((0u16..1000, c14_op(6, 40)), 0..=25))
        .prop_map(|(b, mut ops)| {
            for o in ops.iter_mut() {
                o.0 = (o.0 as usize * b.sizes.len() / 1000) as u16;
            }
            ops.insert(0, (0, TOp::On));
            (b, ops)
        })
        .boxed()
}
fn c14_bulk_strategy() -> BoxedStrategy<(Bulk, Vec<(u16, TOp)>)> {
    (bulk_case(24, 1200, false), prop::collection::vec((0u16..16, c14_op(30, 30)), 0..=20))
        .prop_map(|(b, mut ops)| {
            ops.insert(0, (0, TOp::On));
            // clones and repetitions of the big ones would only cost time
            if b.total() > 300 {
                ops.truncate(4);
            }
            (b, ops)
        })
        .boxed()
}
/// Reports pending while the map grows by up to tens of thousands of cells.
fn c14_vast_strategy() -> BoxedStrategy<(Bulk, Vec<(u16, TOp)>)> {
    vast_case(21, 40_000, false, 16)
        .prop_flat_map(|b| {
            let far = b.roam.iter().copied().max().unwrap_or(0).max(1);
            let r = b.roam;
            let grow = (arr3((-1000i64..=1000).boxed()), arr3((0i64..=3).boxed())).prop_map(move |(f, s)| {
                let mut o = [0; 3];
                for i in 0..3 {
                    o[i] = f[i] * r[i].min(far) / 1000;
                }
                TOp::Grow(o, s)
            });
            let op = prop_oneof![2 => grow, 2 => c14_op(2, 2)];
            (Just(b), prop::collection::vec((0u16..6, op), 0..=6))
        })
        .prop_map(|(b, mut ops)| {
            ops.insert(0, (0, TOp::On));
            // the reference works on whole copies
            let mut clones = 0;
            ops.retain(|(_, op)| {
                clones += matches!(op, TOp::CloneSwitch(_)) as u32;
                !matches!(op, TOp::Again(_)) && (clones <= 1 || !matches!(op, TOp::CloneSwitch(_)))
            });
            (b, ops)
        })
        .boxed()
}
fn c14_strategy() -> BoxedStrategy<Track> {
    (scan_case(4, 6), prop::collection::vec((0u16..5, c14_op(14, 12)), 0..=8), any::<bool>())
        .prop_map(|(case, mut ops, on)| {
            if on {
                ops.insert(0, (0, TOp::On));
            }
            Track { case, ops }
        })
        .boxed()
}
/// Cells a scan updates, found on a zeroed copy whose evidence never saturates. Grows `m`'s copy only.
fn updated_by(cfg: &Cfg, m: &dyn GMap<f32>, s: &Scan) -> Result<(HashSet<C>, C), String> {
    let mut z = m.dup();
    if !empty(&*z) {
        for k in cells(&z.shape(), z.n()) {
            z.set(&k, 0.0);
        }
    }
    let nm = kuba::LidarNoiseModel::new(0.7, 0.3, 0.001, 0.999, 0.5, cfg.range);
    integrate(&nm, &mut *z, &s.sensor, &s.pts)?;
    let w = world_min(&*z);
    let mut out = HashSet::default();
    if !empty(&*z) {
        for k in cells(&z.shape(), z.n()) {
            if z.get(&k) != 0.0 {
                out.insert(wk(&k, &w, z.n()));
            }
        }
    }
    Ok((out, w))
}
fn wk(k: &C, w: &C, n: usize) -> C {
    let mut o = add(k, w);
    for i in n..3 {
        o[i] = 0;
    }
    o
}
fn sorted(mut v: Vec<C>) -> Vec<C> {
    v.sort();
    v
}
struct Tracked {
    m: Box<dyn GMap<f32>>,
    reported: Vec<C>, // world cells
    on: bool,
}
fn c14_reported(t: &Tracked, what: &str) -> R {
    let w = world_min(&*t.m);
    let n = t.m.n();
    let ch = t.m.changed();
    let got = sorted(ch.iter().map(|k| wk(k, &w, n)).collect());
    let want = sorted(t.reported.clone());
    if got != want {
        let (g, x): (HashSet<C>, HashSet<C>) = (got.iter().copied().collect(), want.iter().copied().collect());
        return Err(format!(
            "{what}: reported {} cells, expected {} (as world cells: extra {:?}, missing {:?})",
            got.len(),
            want.len(),
            g.difference(&x).take(3).collect::<Vec<_>>(),
            x.difference(&g).take(3).collect::<Vec<_>>()
        ));
    }
    for k in ch {
        ensure!(inside(&k, &t.m.shape(), n), "{what}: reported cell {:?} is outside the map", k);
    }
    ensure!(t.m.track() == t.on, "{what}: tracking is {} but was set to {}", t.m.track(), t.on);
    Ok(())
}
fn c14_check(c: &Track, obs: &mut Obs) -> R {
    c14_check_to(c, 40.0, obs)
}
fn c14_check_to(c: &Track, k: f64, obs: &mut Obs) -> R {
    let case = &c.case;
    let n = case.cfg.n;
    if !representable_to(case, k) {
        obs.label("skipped-unrepresentable");
        return Ok(());
    }
    let nm = case.cfg.model();
    let mut t = Tracked { m: zero_map(&case.cfg), reported: vec![], on: false };
    let mut aside: Vec<Tracked> = vec![];
    let (mut shifted, mut sat) = (false, false);
    let scan = |t: &mut Tracked, s: &Scan, what: &str, shifted: &mut bool, sat: &mut bool| -> R {
        let (up, _) = updated_by(&case.cfg, &*t.m, s).map_err(|e| format!("{what}: {e}"))?;
        let (w0, sh0) = (world_min(&*t.m), t.m.shape());
        let was_empty = empty(&*t.m);
        let before: HashMap<C, f32> =
            if was_empty { HashMap::default() } else { up.iter().filter_map(|k| { let q = if n == 2 { [k[0] - w0[0], k[1] - w0[1], 0] } else { subc(k, &w0) }; if inside(&q, &sh0, n) { Some((*k, t.m.get(&q))) } else { None } }).collect() };
        integrate(&nm, &mut *t.m, &s.sensor, &s.pts).map_err(|e| format!("{what}: {e}"))?;
        if t.on {
            let w1 = world_min(&*t.m);
            *shifted |= !was_empty && !t.reported.is_empty() && w0 != w1;
            for k in &up {
                let q = if n == 2 { [k[0] - w1[0], k[1] - w1[1], 0] } else { subc(k, &w1) };
                *sat |= before.get(k) == Some(&t.m.get(&q));
            }
            t.reported.extend(up);
        }
        c14_reported(t, what)
    };
    for i in 0..=case.scans.len() {
        for (at, op) in &c.ops {
            if *at as usize != i {
                continue;
            }
            match op {
                TOp::On | TOp::Off => {
                    t.on = matches!(op, TOp::On);
                    t.m.set_track(t.on);
                }
                TOp::Clear => {
                    t.m.clear_changed();
                    t.reported.clear();
                }
                TOp::Grow(o, s) => {
                    let (mut lo, mut hi) = ([0.0; 3], [0.0; 3]);
                    for a in 0..n {
                        lo[a] = metres(case.base[a] + o[a], 0.0, case.cfg.res);
                        hi[a] = metres(case.base[a] + o[a] + s[a], 0.0, case.cfg.res);
                    }
                    let w0 = world_min(&*t.m);
                    let e0 = empty(&*t.m);
                    no_panic("expand_bounds", || t.m.expand(&lo, &hi, 0.0))?;
                    shifted |= !e0 && !t.reported.is_empty() && world_min(&*t.m) != w0;
                }
                TOp::Again(k) => {
                    if i > 0 {
                        let s = &case.scans[i - 1];
                        for r in 0..*k {
                            scan(&mut t, s, &format!("repetition {r} of scan {}", i - 1), &mut shifted, &mut sat)?;
                        }
                    }
                }
                TOp::CloneSwitch(sw) => {
                    let d = Tracked { m: t.m.dup(), reported: t.reported.clone(), on: t.on };
                    let keep = if *sw { std::mem::replace(&mut t, d) } else { d };
                    aside.push(keep);
                }
                TOp::Add(f) => {
                    let s = t.m.shape();
                    if !empty(&*t.m) {
                        let mut k = [0; 3];
                        for a in 0..n {
                            k[a] = f[a] as i64 * s[a] / 65536;
                        }
                        t.m.add_changed(&[k]);
                        let w = world_min(&*t.m);
                        t.reported.push(wk(&k, &w, n));
                    }
                }
            }
            c14_reported(&t, &format!("after {:?} before scan {i}", op))?;
        }
        if i < case.scans.len() {
            scan(&mut t, &case.scans[i], &format!("scan {i}"), &mut shifted, &mut sat)?;
        }
    }
    for a in &aside {
        c14_reported(a, "a clone set aside")?;
    }
    obs.label_if(shifted, "reported-then-shifted");
    obs.label_if(sat, "saturated-reported");
    obs.nontrivial_if(shifted || sat);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fresh {
    case: ScanCase,
    ctor: u8,
}
/// A map nobody switched tracking on for reports nothing, however it was made.
fn c14_fresh_check(c: &Fresh, obs: &mut Obs) -> R {
    if !representable(&c.case) {
        obs.label("skipped-unrepresentable");
        return Ok(());
    }
    let cfg = &c.case.cfg;
    let nm = cfg.model();
    let ctor = ["GridMapN::new", "GridMapN::default", "GridMapN::from_ndarray", "OccupancyGridMapN::new"][c.ctor as usize];
    macro_rules! go {
        ($Map:ident, $Lidar:ident, $Bounds:ident, $pt:ident, $cloud:ident, $zero:expr) => {{
            macro_rules! quiet {
                ($m:expr, $integrate:expr) => {{
                    let mut m = $m;
                    for i in 0..=c.case.scans.len() {
                        let ch = GridMap::changed_cells(&m);
                        ensure!(!GridMap::track_changes(&m), "{ctor}: a new map tracks changes");
                        ensure!(ch.is_empty(), "{ctor}: {} cells reported after {i} scans without tracking", ch.len());
                        if i < c.case.scans.len() {
                            let s = &c.case.scans[i];
                            let (p, cl) = ($pt(&s.sensor), $cloud(&s.pts));
                            no_panic("integrate_point_cloud", || $integrate(&mut m, &p, &cl))?;
                        }
                    }
                }};
            }
            let b = || kuba::$Bounds::empty();
            match c.ctor {
                0 => quiet!(kuba::$Map::new(cfg.res, b(), cfg.tile, 0.0), |m: &mut kuba::$Map, p: &_, cl: &_| kuba::NoiseModel::integrate_point_cloud(&nm, m, p, cl)),
                1 => quiet!({ let mut m = kuba::$Map::default(); m.resolution = cfg.res; m.tile_size = cfg.tile; m }, |m: &mut kuba::$Map, p: &_, cl: &_| kuba::NoiseModel::integrate_point_cloud(&nm, m, p, cl)),
                2 => quiet!(kuba::$Map::from_ndarray(ndarray::Array::from_elem($zero, 0.0), cfg.res, b(), cfg.tile), |m: &mut kuba::$Map, p: &_, cl: &_| kuba::NoiseModel::integrate_point_cloud(&nm, m, p, cl)),
                _ => quiet!(kuba::$Lidar::new(cfg.model(), cfg.res, cfg.tile), |m: &mut kuba::$Lidar, p: &_, cl: &_| m.integrate_point_cloud(p, cl)),
            }
        }};
    }
    if cfg.n == 2 {
        go!(GridMap2f, LidarOccupancyGridMap2, Bounds2, pt2, cloud2, (0, 0))
    } else {
        go!(GridMap3f, LidarOccupancyGridMap3, Bounds3, pt3, cloud3, (0, 0, 0))
    }
    obs.label(ctor);
    obs.nontrivial_if(c.case.scans.iter().any(|s| !s.pts.is_empty()));
    Ok(())
}

// ------------------------------------------------------------------------------------------ C15
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Variants {
    case: ScanCase,
    tile2: usize,
    /// growth before scan i: offset and size in cells around the base
    grow: Vec<(u8, C, C)>,
    perm: Vec<u16>,
    dups: Vec<(u8, u16)>,
    shift: C,
}
fn c15_strategy() -> BoxedStrategy<Variants> {
    let g = (0u8..4, arr3((-14i64..=14).boxed()), arr3((0i64..=6).boxed()));
    (
        scan_case_dyadic(4, 10),
        1usize..=12,
        prop::collection::vec(g, 0..=3),
        prop::collection::vec(any::<u16>(), 12),
        prop::collection::vec((0u8..4, any::<u16>()), 0..=3),
        arr3(prop_oneof![Just(0i64), -20i64..=20, coord(2000)].boxed()),
    )
        .prop_map(|(case, tile2, grow, perm, dups, mut shift)| {
            for i in case.cfg.n..3 {
                shift[i] = 0;
            }
            Variants { case, tile2, grow, perm, dups, shift }
        })
        .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BulkVariants {
    bulk: Bulk,
    tile2: usize,
    grow: Vec<(u8, C, C)>,
    perm: Vec<u16>,
    dups: Vec<(u8, u16)>,
    shift: C,
}
fn c15_bulk_strategy() -> BoxedStrategy<BulkVariants> {
    c15_bulk(bulk_case(25, 1500, true), 40)
}
fn c15_bulk(case: BoxedStrategy<Bulk>, far: i64) -> BoxedStrategy<BulkVariants> {
    let g = (0u8..20, arr3((-far..=far).boxed()), arr3((0i64..=far / 4).boxed()));
    (
        case,
        prop_oneof![1usize..=12, 1usize..=40],
        prop::collection::vec(g, 0..=5),
        prop::collection::vec(any::<u16>(), 31),
        prop::collection::vec((0u8..20, any::<u16>()), 0..=6),
        arr3(prop_oneof![Just(0i64), -20i64..=20, coord(1000)].boxed()),
    )
        .prop_map(|(bulk, tile2, grow, perm, dups, mut shift)| {
            for i in bulk.cfg.n..3 {
                shift[i] = 0;
            }
            BulkVariants { bulk, tile2, grow, perm, dups, shift }
        })
        .boxed()
}
fn c15_bulk_check(b: &BulkVariants, obs: &mut Obs) -> R {
    let v = Variants { case: b.bulk.expand(), tile2: b.tile2, grow: b.grow.clone(), perm: b.perm.clone(), dups: b.dups.clone(), shift: b.shift };
    c15_check(&v, obs)
}
type World = HashMap<C, f32>;
fn play(case: &ScanCase, tile: usize, grow: &[(u8, C, C)], what: &str) -> Result<(World, (C, C)), String> {
    let cfg = &case.cfg;
    let n = cfg.n;
    let nm = cfg.model();
    let mut m = new_map::<f32>(n, cfg.res, &[0.0; 3], &[0.0; 3], tile, 0.0);
    for (i, s) in case.scans.iter().enumerate() {
        for (at, o, sz) in grow {
            if *at as usize == i {
                let (mut lo, mut hi) = ([0.0; 3], [0.0; 3]);
                for a in 0..n {
                    lo[a] = metres(case.base[a] + o[a], 0.0, cfg.res);
                    hi[a] = metres(case.base[a] + o[a] + sz[a], 0.0, cfg.res);
                }
                no_panic("expand_bounds", || m.expand(&lo, &hi, 0.0))?;
            }
        }
        integrate(&nm, &mut *m, &s.sensor, &s.pts).map_err(|e| format!("{what}: scan {i}: {e}"))?;
    }
    let w = world_min(&*m);
    let mut out = HashMap::default();
    if !empty(&*m) {
        for k in cells(&m.shape(), n) {
            // absent stands for 0, the default
            let v = m.get(&k);
            if v != 0.0 {
                out.insert(wk(&k, &w, n), v);
            }
        }
    }
    Ok((out, m.bounds_cells(&w)))
}
trait BoundsCells {
    fn bounds_cells(&self, w: &C) -> (C, C);
}
impl BoundsCells for Box<dyn GMap<f32>> {
    fn bounds_cells(&self, w: &C) -> (C, C) {
        (*w, add(w, &self.shape()))
    }
}
/// Cells (world) whose update by some scan geometry leaves open.
fn doubtful(case: &ScanCase) -> HashSet<C> {
    let n = case.cfg.n;
    let mut out = HashSet::default();
    for s in &case.scans {
        // relative to the world origin: cell centres are the world lattice
        let (eff, _) = geo::scan_effect(&s.sensor, &s.pts, &[0.0; 3], case.cfg.res, case.cfg.range, n);
        for (k, e) in eff {
            if !e.settled() {
                out.insert(wk(&k, &[0; 3], n));
            }
        }
    }
    out
}
fn compare(a: &World, b: &World, shift: &C, what: &str, case: &ScanCase, obs: &mut Obs) -> R {
    let mut doubt: Option<HashSet<C>> = None;
    let mut one = |k: &C, x: f32, y: f32| -> R {
        if x == y || (x - y).abs() <= 1e-5 {
            return Ok(());
        }
        let d = doubt.get_or_insert_with(|| doubtful(case));
        if d.contains(k) {
            obs.label("undetermined-cell");
            return Ok(());
        }
        Err(format!("{what}: world cell {:?} holds {x} in the plain run and {y} in the variant", k))
    };
    for (k, x) in a {
        one(k, *x, b.get(&add(k, shift)).copied().unwrap_or(0.0))?;
    }
    for (k, y) in b {
        let q = subc(k, shift);
        if !a.contains_key(&q) {
            one(&q, 0.0, *y)?;
        }
    }
    Ok(())
}
fn c15_check(c: &Variants, obs: &mut Obs) -> R {
    let case = &c.case;
    let n = case.cfg.n;
    let (base, bb) = play(case, case.cfg.tile, &[], "plain run")?;
    let (v, b1) = play(case, c.tile2, &[], "other tile size")?;
    compare(&base, &v, &[0; 3], "other tile size", case, obs)?;
    let (v, b2) = play(case, case.cfg.tile, &c.grow, "extra growth")?;
    compare(&base, &v, &[0; 3], "extra growth", case, obs)?;
    // permutation and duplication of points within each scan
    let mut p = case.clone();
    for (i, s) in p.scans.iter_mut().enumerate() {
        for a in 0..s.pts.len() {
            let b = c.perm[(a + i) % c.perm.len()] as usize % s.pts.len();
            s.pts.swap(a, b);
        }
        for (at, d) in &c.dups {
            if *at as usize == i && !s.pts.is_empty() {
                let x = s.pts[*d as usize % s.pts.len()];
                s.pts.push(x);
            }
        }
    }
    let (v, _) = play(&p, case.cfg.tile, &[], "points reordered")?;
    compare(&base, &v, &[0; 3], "points reordered", case, obs)?;
    // shift by whole cells
    let mut t = case.clone();
    for s in t.scans.iter_mut() {
        for q in s.pts.iter_mut().chain([&mut s.sensor]) {
            for i in 0..n {
                q[i] = (q[i] as f64 + c.shift[i] as f64 * case.cfg.res as f64) as f32;
            }
        }
    }
    for i in 0..n {
        t.base[i] += c.shift[i];
    }
    let (v, _) = play(&t, c.tile2, &[], "shifted")?;
    compare(&base, &v, &c.shift, "shifted by whole cells", case, obs)?;
    let touched = base.values().filter(|v| **v != 0.0).count();
    obs.label_if(b1 != bb, "tile-changes-box");
    obs.label_if(b2 != bb, "growth-changes-box");
    obs.label_if(c.shift != [0; 3], "shifted");
    obs.nontrivial_if(case.scans.len() >= 2 && touched > 0 && (b1 != bb || b2 != bb));
    Ok(())
}

// ------------------------------------------------------------------------------------------ C23
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lock {
    case: ScanCase,
    ops: Vec<LOp>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum LOp {
    Scan(u8),
    Set([u16; 3], i32),
    Track(bool),
    Clear,
    Add([u16; 3]),
    Grow(C, C, i32),
    Probe([u16; 3], P),
}
fn c23_op() -> BoxedStrategy<LOp> {
    let f = || arr3(any::<u16>().boxed());
    prop_oneof![
        5 => any::<u8>().prop_map(LOp::Scan),
        3 => (f(), -400i32..=400).prop_map(|(k, v)| LOp::Set(k, v)),
        2 => any::<bool>().prop_map(LOp::Track),
        1 => Just(LOp::Clear),
        1 => f().prop_map(LOp::Add),
        2 => (arr3((-12i64..=12).boxed()), arr3((0i64..=4).boxed()), -3i32..=3).prop_map(|(a, b, v)| LOp::Grow(a, b, v)),
        3 => (f(), arr3((-5000i32..=5000).prop_map(|k| k as f32 * 0.01).boxed())).prop_map(|(k, p)| LOp::Probe(k, p)),
    ]
    .boxed()
}
fn c23_strategy() -> BoxedStrategy<Lock> {
    (scan_case(3, 6), prop::collection::vec(c23_op(), 2..=12)).prop_map(|(case, ops)| Lock { case, ops }).boxed()
}
fn c23_bulk_strategy() -> BoxedStrategy<(Bulk, Vec<LOp>)> {
    (bulk_case(20, 1000, false), prop::collection::vec(c23_op(), 10..=40)).boxed()
}
fn c23_vast_strategy() -> BoxedStrategy<(Bulk, Vec<LOp>)> {
    (vast_case(20, 7000, false, 32), prop::collection::vec(c23_op(), 3..=8)).boxed()
}
fn c23_endurance_strategy() -> BoxedStrategy<(Bulk, Vec<LOp>)> {
    (endurance_case(250, false), bulk(40, 1500).prop_flat_map(|k| prop::collection::vec(c23_op(), k..=k))).boxed()
}
fn c23_check(c: &Lock, obs: &mut Obs) -> R {
    if !representable(&c.case) {
        obs.label("skipped-unrepresentable");
        return Ok(());
    }
    macro_rules! dim {
        ($Occ:ident, $Map:ident, $n:expr, $pt:ident, $cl:ident, $cloud:ident, $up:ident, $uc:ident, $b:ident, $ub:ident) => {{
            let cfg = &c.case.cfg;
            let mut occ = no_panic("OccupancyGridMapN::new", || kuba::$Occ::new(cfg.model(), cfg.res, cfg.tile))?;
            let nm = cfg.model();
            let mut g = $Map::<f32>::new(cfg.res, $b(&[0.0; 3], &[0.0; 3]), cfg.tile, 0.0);
            let mut kinds = HashSet::default();
            let pick = |g: &$Map<f32>, f: &[u16; 3]| -> Option<C> {
                let s = GMap::<f32>::shape(g);
                if (0..$n).any(|i| s[i] == 0) {
                    return None;
                }
                let mut k = [0; 3];
                for a in 0..$n {
                    k[a] = f[a] as i64 * s[a] / 65536;
                }
                Some(k)
            };
            for (step, op) in c.ops.iter().enumerate() {
                kinds.insert(std::mem::discriminant(op));
                match op {
                    LOp::Scan(i) => {
                        let s = &c.case.scans[*i as usize % c.case.scans.len()];
                        let pc = $cloud(&s.pts);
                        no_panic("grid: integrate_point_cloud", || nm.integrate_point_cloud(&mut g, &$pt(&s.sensor), &pc))?;
                        no_panic("occupancy map: integrate_point_cloud", || occ.integrate_point_cloud(&$pt(&s.sensor), &pc))?;
                    }
                    LOp::Set(f, v) => {
                        if let Some(k) = pick(&g, f) {
                            GridMap::set(&mut g, &$cl(&k), *v as f32 * 0.01);
                            no_panic("occupancy map: set", || GridMap::set(&mut occ, &$cl(&k), *v as f32 * 0.01))?;
                        }
                    }
                    LOp::Track(b) => {
                        GridMap::set_track_changes(&mut g, *b);
                        GridMap::set_track_changes(&mut occ, *b);
                    }
                    LOp::Clear => {
                        GridMap::clear_changed_cells(&mut g);
                        GridMap::clear_changed_cells(&mut occ);
                    }
                    LOp::Add(f) => {
                        if let Some(k) = pick(&g, f) {
                            GridMap::add_changed_cells(&mut g, vec![$cl(&k)]);
                            GridMap::add_changed_cells(&mut occ, vec![$cl(&k)]);
                        }
                    }
                    LOp::Grow(o, s, v) => {
                        let (mut lo, mut hi) = ([0.0; 3], [0.0; 3]);
                        for a in 0..$n {
                            lo[a] = metres(c.case.base[a] + o[a], 0.0, cfg.res);
                            hi[a] = metres(c.case.base[a] + o[a] + s[a], 0.0, cfg.res);
                        }
                        let v = if *v == 0 { 0.0 } else { *v as f32 * 0.5 };
                        no_panic("expand_bounds", || ExpandableGridMap::expand_bounds(&mut g, &$b(&lo, &hi), v))?;
                        no_panic("expand_bounds", || ExpandableGridMap::expand_bounds(&mut occ.grid_map, &$b(&lo, &hi), v))?;
                    }
                    LOp::Probe(f, p) => {
                        let k = pick(&g, f).unwrap_or([3, -2, 1]);
                        ensure!(GridMap::point_from_cell(&occ, &$cl(&k)) == GridMap::point_from_cell(&g, &$cl(&k)), "step {step}: point_from_cell differs");
                        ensure!(GridMap::cell_from_point(&occ, &$pt(p)) == GridMap::cell_from_point(&g, &$pt(p)), "step {step}: cell_from_point differs");
                    }
                }
                ensure!(GridMap::bounds(&occ) == GridMap::bounds(&g), "step {step} ({:?}): bounds {:?} vs {:?}", op, GridMap::bounds(&occ), GridMap::bounds(&g));
                ensure!(GridMap::resolution(&occ) == cfg.res && GridMap::resolution(&g) == cfg.res, "step {step}: resolution differs");
                ensure!(GridMap::track_changes(&occ) == GridMap::track_changes(&g), "step {step}: tracking state differs");
                let a = sorted(GridMap::changed_cells(&occ).iter().map($uc).collect());
                let b = sorted(GridMap::changed_cells(&g).iter().map($uc).collect());
                ensure!(a == b, "step {step}: the occupancy map reports {} changed cells, the grid {}", a.len(), b.len());
                ensure!(occ.grid_map.tile_size == cfg.tile && g.tile_size == cfg.tile, "step {step}: tile size differs");
                let s = GMap::<f32>::shape(&g);
                ensure!(GMap::<f32>::shape(&occ.grid_map) == s, "step {step}: shape differs");
                for k in cells(&s, $n) {
                    let (x, y) = (GridMap::get(&occ, &$cl(&k)), GridMap::get(&g, &$cl(&k)));
                    ensure!(x == y, "step {step} ({:?}): cell {:?} holds {x} in the occupancy map and {y} in the grid", op, k);
                    let (x, y) = (occ.occupied(&$cl(&k)), nm.occupied(&g, &$cl(&k)));
                    ensure!(x == y, "step {step}: cell {:?} occupied: {x} vs {y}", k);
                }
            }
            obs.nontrivial_if(kinds.len() >= 3 && c.ops.iter().any(|o| matches!(o, LOp::Scan(_))));
        }};
    }
    if c.case.cfg.n == 2 {
        dim!(LidarOccupancyGridMap2, Map2, 2, pt2, cl2, cloud2, p2, c2, b2, ub2)
    } else {
        dim!(LidarOccupancyGridMap3, Map3, 3, pt3, cl3, cloud3, p3, c3, b3, ub3)
    }
    Ok(())
}
/// A noise model unlike the lidar one: counts returns, starts at a non-zero value, and calls a
/// cell occupied when its value is below a threshold.
struct Counting {
    start: f32,
    gain: f32,
    below: f32,
}
impl<NaD, NdD> NoiseModel<NaD, NdD> for Counting
where
    NaD: na::DimName + std::hash::Hash,
    NdD: nd::Dimension,
    kuba::Cell<NaD>: kuba::CellToNdIndex<NaD, NdD>,
    <na::DefaultAllocator as na::allocator::Allocator<isize, NaD>>::Buffer: std::hash::Hash,
    na::DefaultAllocator: na::allocator::Allocator<f32, NaD> + na::allocator::Allocator<isize, NaD>,
{
    fn default_noise_model() -> Self {
        Counting { start: 4.0, gain: 1.0, below: 3.5 }
    }
    fn default_cell_value(&self) -> f32 {
        self.start
    }
    fn integrate_point_cloud(&self, m: &mut impl ExpandableGridMap<f32, NaD, NdD>, origin: &kuba::Point<NaD>, pc: &kuba::PointCloud<NaD>) {
        let mut b = kuba::Bounds { min: origin.clone(), max: origin.clone() };
        for p in pc.points_iter() {
            for i in 0..p.len() {
                b.min[i] = b.min[i].min(p[i]);
                b.max[i] = b.max[i].max(p[i]);
            }
        }
        m.expand_bounds(&b, self.start);
        for p in pc.points_iter() {
            let k = m.cell_from_point(&p);
            let v = m.get(&k);
            m.set(&k, v - self.gain);
        }
    }
    fn occupied(&self, m: &impl GridMap<f32, NaD, NdD>, cell: &kuba::Cell<NaD>) -> bool {
        m.get(cell) < self.below
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Custom {
    case: ScanCase,
    start: f32,
    gain: f32,
    below: f32,
}
fn c23_custom_strategy() -> BoxedStrategy<Custom> {
    (scan_case(3, 8), -8i32..=8, 1i32..=4, -8i32..=8)
        .prop_map(|(case, s, g, b)| Custom { case, start: s as f32 * 0.5, gain: g as f32 * 0.25, below: b as f32 * 0.5 })
        .boxed()
}
fn c23_custom_check(c: &Custom, obs: &mut Obs) -> R {
    if !representable(&c.case) {
        obs.label("skipped-unrepresentable");
        return Ok(());
    }
    macro_rules! dim {
        ($na:ty, $nd:ty, $n:expr, $Map:ident, $pt:ident, $cl:ident, $cloud:ident, $b:ident) => {{
            let cfg = &c.case.cfg;
            let nm = || Counting { start: c.start, gain: c.gain, below: c.below };
            let mut occ = no_panic("OccupancyGridMapN::new", || kuba::OccupancyGridMapN::<Counting, $na, $nd>::new(nm(), cfg.res, cfg.tile))?;
            let model = nm();
            let mut g = $Map::<f32>::new(cfg.res, $b(&[0.0; 3], &[0.0; 3]), cfg.tile, c.start);
            for (step, s) in c.case.scans.iter().enumerate() {
                let pc = $cloud(&s.pts);
                no_panic("grid", || NoiseModel::<$na, $nd>::integrate_point_cloud(&model, &mut g, &$pt(&s.sensor), &pc))?;
                no_panic("occupancy map: integrate_point_cloud", || occ.integrate_point_cloud(&$pt(&s.sensor), &pc))?;
                let sh = GMap::<f32>::shape(&g);
                ensure!(GMap::<f32>::shape(&occ.grid_map) == sh && GridMap::bounds(&occ) == GridMap::bounds(&g), "scan {step}: boxes differ");
                for k in cells(&sh, $n) {
                    let (x, y) = (GridMap::get(&occ, &$cl(&k)), GridMap::get(&g, &$cl(&k)));
                    ensure!(x == y, "scan {step}: cell {:?} holds {x} in the occupancy map, {y} in the grid", k);
                    ensure!(occ.occupied(&$cl(&k)) == (y < c.below), "scan {step}: cell {:?} of value {y}: occupied {} under the noise model's rule value < {}", k, occ.occupied(&$cl(&k)), c.below);
                }
            }
            let d = kuba::OccupancyGridMapN::<Counting, $na, $nd>::default();
            ensure!(d.noise_model.start == 4.0 && d.noise_model.below == 3.5 && d.grid_map.resolution == 0.1 && d.grid_map.tile_size == 100, "default() ignores the noise model's defaults");
        }};
    }
    obs.nontrivial_if(c.case.scans.iter().any(|s| s.pts.len() >= 2));
    if c.case.cfg.n == 2 {
        dim!(na::U2, nd::Ix2, 2, Map2, pt2, cl2, cloud2, b2)
    } else {
        dim!(na::U3, nd::Ix3, 3, Map3, pt3, cl3, cloud3, b3)
    }
    Ok(())
}
fn c23_defaults(_: &u8, obs: &mut Obs) -> R {
    obs.nontrivial = true;
    let lo = |p: f32| (p as f64 / (1.0 - p as f64)).ln();
    macro_rules! one {
        ($T:ident) => {{
            let m = kuba::$T::default();
            ensure!(GridMap::resolution(&m) == 0.1 && m.grid_map.resolution == 0.1, "default resolution is {}", GridMap::resolution(&m));
            ensure!(m.grid_map.tile_size == 100, "default tile size is {}", m.grid_map.tile_size);
            ensure!(m.grid_map.data.len() == 0, "a default map is not empty");
            ensure!(!GridMap::track_changes(&m) && GridMap::changed_cells(&m).is_empty(), "a default map tracks changes");
            let n = &m.noise_model;
            for (got, want, what) in [
                (n.hit_probability_logodds, lo(0.7), "hit"),
                (n.miss_probability_logodds, lo(0.4), "miss"),
                (n.min_probability_logodds, lo(0.1192), "min"),
                (n.max_probability_logodds, lo(0.971), "max"),
                (n.occupied_threshold_logodds, 0.0, "threshold"),
            ] {
                ensure!((got as f64 - want).abs() <= 1e-5, "default {what} log-odds {got}, documented {want}");
            }
            ensure!(n.max_range == 60.0, "default range {}", n.max_range);
        }};
    }
    one!(LidarOccupancyGridMap2);
    one!(LidarOccupancyGridMap3);
    let g2 = kuba::GridMap2f::default();
    let g3 = kuba::GridMap3f::default();
    ensure!(g2.resolution == 0.1 && g3.resolution == 0.1 && g2.tile_size == 100 && g3.tile_size == 100, "grid map defaults");
    Ok(())
}
