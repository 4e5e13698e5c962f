//! C05-C07: ray tracing.
use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::geo;
use crate::scan::{near_repeat, Scan};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use crate::fast::HashSet;

pub fn defs() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "C05",
            rule: "a case is one segment with a box corner and a resolution; non-trivial when the traced chain has at least three cells and changes on at least two axes (distinct cases counted by content)",
            assumptions: &["finite coordinates whose float spacing is well under a cell over the length of the ray (tolerance derived in geo::tol_cells, at most 1/20 cell)"],
            subs: vec![
                sub("segment", 400_000, 12_000_000, || seg_strategy(120), c05_check),
                sub("long", 12_000, 400_000, || seg_strategy(3000), c05_check),
                sub("very_long", 600, 20_000, very_long, c05_check),
                sub("sequence", 60_000, 1_500_000, seq_strategy, seq_check),
                sub("near_boundary", 300_000, 8_000_000, near_strategy, c05_check),
            ],
        },
        PropDef {
            id: "C06",
            rule: "a case is a segment and a list of limits; non-trivial when the unlimited chain has at least three cells and at least one limit cuts it and one does not, or a limit is within 1e-3 of a cell-centre distance",
            assumptions: &["as C05; a cell centre whose distance equals the limit up to float rounding may fall on either side"],
            subs: vec![
                sub("limits", 2_000_000, 100_000_000, || c06_strategy(40), c06_check),
                sub("far", 300_000, 15_000_000, || c06_strategy(500), c06_check),
            ],
        },
        PropDef {
            id: "C07",
            rule: "a case is a sensor position, a cloud, a box corner, a resolution and a limit; non-trivial when at least two rays share a cell and both sets are non-empty",
            assumptions: &["single-ray traces are taken from cast_ray, which C05 and C06 check against geometry"],
            subs: vec![
                sub("sets", 200_000, 15_000_000, c07_strategy, c07_check),
                sub("sequence", 40_000, 3_000_000, c07_seq_strategy, c07_seq_check),
                sub("bulk", 1_500, 120_000, || c07_bulk_strategy(30, 20_000), c07_bulk_check),
                sub("huge", 64, 6_000, || c07_bulk_strategy(20_000, 300_000), c07_bulk_check),
            ],
        },
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seg {
    n: usize,
    res: f32,
    lo: P,
    hi: P,
    o: P,
    e: P,
}
/// Lower corner of the box the ray is traced in, in cells: aligned or not.
fn corner(max: i64) -> BoxedStrategy<(C, [f64; 3])> {
    (
        prop_oneof![2 => Just([0i64; 3]), 3 => arr3(coord(max))],
        prop_oneof![3 => Just([0f64; 3]), 1 => arr3(frac())],
    )
        .boxed()
}
fn build(n: usize, res: f32, lo: &(C, [f64; 3]), oc: &C, of: &[f64; 3], d: &C, ef: &[f64; 3], ul: &[i32; 3]) -> Seg {
    let lo_m = metres3(&lo.0, &lo.1, res, n);
    let mut s = Seg { n, res, lo: lo_m, hi: lo_m, o: [0.0; 3], e: [0.0; 3] };
    for i in 0..n {
        s.hi[i] = (lo_m[i] as f64 + 10.0 * res as f64) as f32;
        let at = |c: f64| (lo_m[i] as f64 + c * res as f64) as f32;
        s.o[i] = at(oc[i] as f64 + of[i]);
        s.e[i] = nudge(at((oc[i] + d[i]) as f64 + ef[i]), ul[i]);
    }
    s
}
fn ulps() -> BoxedStrategy<[i32; 3]> {
    prop_oneof![3 => Just([0i32; 3]), 1 => arr3((-3i32..=3).boxed())].boxed()
}
/// Displacement in cells: general, axis-parallel, diagonal, nearly axis-parallel.
fn disp(max: i64) -> BoxedStrategy<C> {
    let m = max;
    prop_oneof![
        4 => arr3((-m..=m).boxed()),
        3 => arr3((-4i64..=4).boxed()),
        1 => (0usize..3, -m..=m).prop_map(|(a, k)| { let mut c = [0; 3]; c[a] = k; c }),
        1 => (arr3((-1i64..=1).boxed()), -m..=m).prop_map(|(s, k)| [s[0] * k, s[1] * k, s[2] * k]),
        2 => (0usize..3, -m..=m, arr3((-1i64..=1).boxed())).prop_map(|(a, k, s)| { let mut c = s; c[a] = k; c }),
    ]
    .boxed()
}
fn seg_strategy(max: i64) -> BoxedStrategy<Seg> {
    (dims(), resolution(), corner(3000), arr3(coord(200)), arr3(frac()), disp(max), arr3(frac()), ulps(), 0u8..16)
        .prop_map(|(n, res, lo, oc, of, d, ef, ul, same)| {
            // on some axes put the end exactly level with the origin
            let mut ef = ef;
            let mut d = d;
            for i in 0..3 {
                if same & (1 << i) != 0 && same & 8 != 0 {
                    ef[i] = of[i];
                    d[i] = 0;
                }
            }
            build(n, res, &lo, &oc, &of, &d, &ef, &ul)
        })
        .boxed()
}
/// Segments traced one after the other, each taking some of its numbers from the one before.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seq {
    segs: Vec<Seg>,
    /// per following segment: what it keeps (bits: resolution and box, origin, end, origin of single axes, ...)
    keep: Vec<(u8, u8)>,
}
fn seq_strategy() -> BoxedStrategy<Seq> {
    (2usize..=6)
        .prop_flat_map(|k| (prop::collection::vec(seg_strategy(30), k), prop::collection::vec((0u8..8, 0u8..64), k)))
        .prop_map(|(segs, keep)| Seq { segs, keep })
        .boxed()
}
fn seq_expand(c: &Seq) -> Vec<Seg> {
    let mut out: Vec<Seg> = vec![];
    for (s, (what, axes)) in c.segs.iter().zip(&c.keep) {
        let mut s = s.clone();
        if let Some(p) = out.last() {
            // same frame, and the new segment moved next to the old one
            let mut q = p.clone();
            for i in 0..p.n {
                let d = (s.e[i] as f64 - s.o[i] as f64) / s.res as f64 * p.res as f64;
                let pick = axes & (1 << i) != 0;
                match what {
                    // another end
                    0 | 1 => q.e[i] = if pick { (p.o[i] as f64 + d) as f32 } else { p.e[i] },
                    // another origin
                    2 | 3 => q.o[i] = if pick { (p.e[i] as f64 - d) as f32 } else { p.o[i] },
                    // backwards
                    4 => {
                        q.o[i] = p.e[i];
                        q.e[i] = p.o[i];
                    }
                    // another frame
                    5 => {
                        if pick {
                            q.lo[i] = (p.lo[i] as f64 + d) as f32;
                            q.hi[i] = (p.hi[i] as f64 + d) as f32;
                        }
                    }
                    // another resolution
                    6 => q.res = p.res * [0.5, 2.0, 0.75, 1.5][*axes as usize % 4],
                    _ => {}
                }
            }
            if q.n == s.n || *what < 7 {
                s = q;
            }
        }
        out.push(s);
    }
    out
}
fn seq_check(c: &Seq, obs: &mut Obs) -> R {
    for (i, s) in seq_expand(c).iter().enumerate() {
        if seg_len(s) / s.res as f64 > 500.0 {
            continue;
        }
        let mut o = Obs::default();
        c05_check(s, &mut o).map_err(|e| format!("segment {i} ({:?}): {e}", s))?;
        obs.nontrivial_if(i > 0 && o.nontrivial);
    }
    Ok(())
}
/// End points within a few float spacings of cell boundaries and corners.
fn near_strategy() -> BoxedStrategy<Seg> {
    let edge = arr3((any::<bool>(), 0u8..6, 4u32..=24, any::<bool>()).prop_map(|(s, k, b, out)| {
        let side = if s { 0.5 } else { -0.5 };
        match k {
            0 => side,
            1..=3 => { let d = 0.5f64.powi(b as i32); side + if out { d } else { -d } }
            4 => 0.0,
            _ => side * 0.37,
        }
    }).boxed());
    (dims(), resolution(), corner(300), arr3(coord(50)), prop_oneof![edge.clone(), arr3(frac())], disp(60), edge, arr3((-2i32..=2).boxed()))
        .prop_map(|(n, res, lo, oc, of, d, ef, ul)| build(n, res, &lo, &oc, &of, &d, &ef, &ul))
        .boxed()
}

/// Rays of up to tens of thousands of cells (counters, capacities, float accumulation).
fn very_long() -> BoxedStrategy<Seg> {
    let d = (bulk(500, 80_000), any::<bool>(), 0u8..4, -1.0f64..=1.0).prop_map(|(k, s, part, f)| {
        let k = if s { k as i64 } else { -(k as i64) };
        match part {
            0 | 1 => k,
            2 => (k as f64 * f * 0.1) as i64,
            _ => (f * 3.0) as i64,
        }
    });
    (dims(), resolution(), corner(100), arr3(coord(100)), arr3(frac()), arr3(d.boxed()), arr3(frac()))
        .prop_map(|(n, res, lo, oc, of, d, ef)| build(n, res, &lo, &oc, &of, &d, &ef, &[0; 3]))
        .boxed()
}
fn l1(a: &C, b: &C) -> i64 {
    (0..3).map(|i| (a[i] - b[i]).abs()).sum()
}
fn seg_len(c: &Seg) -> f64 {
    (0..c.n).map(|i| (c.e[i] as f64 - c.o[i] as f64).powi(2)).sum::<f64>().sqrt()
}

fn c05_check(c: &Seg, obs: &mut Obs) -> R {
    let n = c.n;
    let tol = geo::tol_cells(&c.o, &c.e, &c.lo, c.res, n);
    // the two end cells must be well defined; rounding accumulated along a long ray only blurs which
    // cells the segment is held to pass through, not the shape of the chain
    let (to, te) = (geo::tol_point(&c.o, &c.lo, c.res, n), geo::tol_point(&c.e, &c.lo, c.res, n));
    if to.max(te) > 0.05 {
        obs.label("skipped-unrepresentable");
        return Ok(());
    }
    let o = geo::to_cells(&c.o, &c.lo, c.res, n);
    let e = geo::to_cells(&c.e, &c.lo, c.res, n);
    // A limit far beyond the segment changes nothing (C06) but bounds a runaway trace.
    let big = (2.0 * seg_len(c) + 10.0 * c.res as f64) as f32;
    let (ray, end) = cast_ray(n, &c.o, &c.e, &c.lo, &c.hi, c.res, big)?;
    let Some(end) = end else {
        return Err(format!("the trace misses its endpoint: {} cells, last {:?}, endpoint at {:?} cells", ray.len(), ray.last(), &e[..n]));
    };
    ensure!(geo::may_hold(&end, &e, te, n), "endpoint at {:?} cells reported in cell {:?}", &e[..n], end);
    if ray.is_empty() {
        ensure!(geo::may_hold(&end, &o, to, n), "empty chain although origin {:?} and endpoint {:?} (cells) are in different cells", &o[..n], &e[..n]);
        obs.label("same-cell");
    } else {
        ensure!(geo::may_hold(&ray[0], &o, to, n), "chain starts at {:?}, origin at {:?} cells", ray[0], &o[..n]);
        let mut prev = ray[0];
        let mut axes = HashSet::default();
        for x in ray[1..].iter().chain([&end]) {
            ensure!(l1(&prev, x) == 1, "cells {:?} and {:?} do not share a face", prev, x);
            axes.insert((0..3).find(|i| prev[*i] != x[*i]));
            prev = *x;
        }
        ensure!(ray.len() as i64 == l1(&ray[0], &end), "{} steps from {:?} to {:?}, which are {} apart", ray.len(), ray[0], end, l1(&ray[0], &end));
        let set: HashSet<&C> = ray.iter().collect();
        ensure!(set.len() == ray.len() && !set.contains(&end), "a cell repeats in the chain");
        for x in &ray {
            ensure!(geo::slab(&o, &e, x, tol, n).is_some(), "cell {:?} is not touched by the segment {:?} -> {:?} (cells)", x, &o[..n], &e[..n]);
        }
        for (x, cr) in geo::crossings(&o, &e, tol, n) {
            if cr.certain {
                ensure!(x == end || set.contains(&x), "the segment passes through cell {:?}, which is missing", x);
            }
        }
        obs.nontrivial_if(ray.len() >= 3 && axes.len() >= 2);
        obs.label_if(ray.len() >= 50, "50+cells");
        obs.label_if(ray.len() >= 1000, "1000+cells");
        obs.label_if(ray.len() >= 65_536, "65k+cells");
        obs.label_if(tol < 0.05, "geometry-compared");
        obs.label_if(axes.len() == 1, "axis-parallel");
    }
    for lim in [0.0f32, -1.0] {
        let r = cast_ray(n, &c.o, &c.e, &c.lo, &c.hi, c.res, lim)?;
        ensure!(r == (ray.clone(), Some(end)), "limit {lim} means no limit, but the trace differs ({} cells, end {:?})", r.0.len(), r.1);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C06
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Limited {
    seg: Seg,
    limits: Vec<f32>,
    /// additionally: distances of these chain positions (scaled to the chain), nudged by ulps
    picks: Vec<(u16, i32)>,
}
fn c06_strategy(max: i64) -> BoxedStrategy<Limited> {
    let seg = prop_oneof![4 => seg_strategy(max), 1 => near_strategy()];
    let lim = prop_oneof![
        3 => (0u32..=2_000_000).prop_map(|k| k as f32 * 1e-6 * 60.0),
        2 => log_uniform(1e-3, 1e3),
        1 => prop_oneof![Just(0.0f32), Just(-0.0), Just(-1.0), Just(f32::MIN_POSITIVE), Just(1e-30), Just(1e30), Just(f32::INFINITY), Just(f32::NEG_INFINITY), Just(-1e-20)],
        1 => dict_float(1e-6, 1e6),
    ];
    (seg, prop::collection::vec(lim, 1..=3), prop::collection::vec((any::<u16>(), -3i32..=3), 1..=3), any::<bool>())
        .prop_map(|(seg, mut limits, picks, rel)| {
            if rel {
                for l in limits.iter_mut() {
                    if l.is_finite() && *l > 1e-3 && *l < 1e3 {
                        *l *= seg.res;
                    }
                }
            }
            Limited { seg, limits, picks }
        })
        .boxed()
}
fn c06_check(c: &Limited, obs: &mut Obs) -> R {
    let s = &c.seg;
    let n = s.n;
    if geo::tol_cells(&s.o, &s.e, &s.lo, s.res, n) > 0.05 {
        obs.label("skipped-unrepresentable");
        return Ok(());
    }
    let o = geo::to_cells(&s.o, &s.lo, s.res, n);
    let big = (2.0 * seg_len(s) + 10.0 * s.res as f64) as f32;
    let (ray, end) = cast_ray(n, &s.o, &s.e, &s.lo, &s.hi, s.res, big)?;
    ensure!(end.is_some(), "a limit of {big} m, beyond every cell of the segment, cuts the ray after {} cells", ray.len());
    let dist: Vec<f64> = ray.iter().map(|x| geo::centre_dist(x, &o, s.res, n)).collect();
    let mag = (0..n).map(|i| s.o[i].abs().max(s.e[i].abs()).max(s.lo[i].abs()) as f64).fold(0.0, f64::max) + 2.0 * s.res as f64 + seg_len(s);
    let mut limits = c.limits.clone();
    for (k, u) in &c.picks {
        if ray.len() > 1 {
            let i = 1 + (*k as usize) % (ray.len() - 1);
            limits.push(nudge(dist[i] as f32, *u));
        }
    }
    let (mut cut, mut whole) = (false, false);
    for lim in limits {
        let (r, e) = cast_ray(n, &s.o, &s.e, &s.lo, &s.hi, s.res, lim)?;
        if lim <= 0.0 {
            ensure!(r == ray && e == end, "limit {lim} must mean no limit: {} of {} cells, end {:?}", r.len(), ray.len(), e);
            obs.label("non-positive-limit");
            continue;
        }
        let tr = 16.0 * U * (mag + (lim as f64).min(1e12)) + 1e-18;
        ensure!(r.len() <= ray.len() && r[..] == ray[..r.len()], "with limit {lim} the chain is not a prefix of the unlimited one: {:?} vs {:?}", r, ray);
        for i in 1..r.len() {
            ensure!(dist[i] <= lim as f64 + tr, "cell {:?} at {} m is reported as passed with limit {lim}", r[i], dist[i]);
        }
        if e.is_some() {
            ensure!(e == end && r.len() == ray.len(), "with limit {lim} the endpoint {:?} is reported after {} of {} cells", e, r.len(), ray.len());
            whole = true;
        } else {
            ensure!(r.len() < ray.len(), "with limit {lim} no cell is beyond the limit but the endpoint is dropped");
            ensure!(!r.is_empty(), "with limit {lim} the origin's own cell is dropped");
            ensure!(dist[r.len()] >= lim as f64 - tr, "with limit {lim} the ray stops before cell {:?} at only {} m", ray[r.len()], dist[r.len()]);
            cut = true;
        }
        obs.label_if(dist.iter().any(|d| (d - lim as f64).abs() <= 1e-3 * lim as f64), "limit-near-centre-distance");
    }
    obs.label_if(cut, "cut");
    obs.nontrivial_if(ray.len() >= 3 && cut && whole);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C07
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CloudCase {
    n: usize,
    res: f32,
    lo: P,
    hi: P,
    o: P,
    pts: Vec<P>,
    limit: f32,
    perm: Vec<u16>,
    dups: Vec<u16>,
}
fn c07_strategy() -> BoxedStrategy<CloudCase> {
    (dims(), resolution(), corner(500), arr3(coord(30)), arr3(frac()))
        .prop_flat_map(|(n, res, lo, oc, of)| {
            let p = prop_oneof![
                4 => (disp(15), arr3(frac()), Just(0u32)),
                2 => (disp(4), arr3(frac()), Just(0u32)),
                3 => (Just([0i64; 3]), Just([0f64; 3]), 1u32..=30),
            ];
            let lim = prop_oneof![2 => Just(0.0f32), 2 => Just(60.0f32), 4 => (0u32..=200).prop_map(move |k| k as f32 * 0.1 * res)];
            (
                Just((n, res, lo, oc, of)),
                prop::collection::vec(p, 0..=14),
                lim,
                prop::collection::vec(any::<u16>(), 16),
                prop::collection::vec(any::<u16>(), 0..4),
            )
        })
        .prop_map(|((n, res, lo, oc, of), ps, limit, perm, dups)| {
            let base = build(n, res, &lo, &oc, &of, &[0; 3], &of, &[0; 3]);
            let mut pts: Vec<P> = vec![];
            for (d, f, k) in ps {
                if k > 0 && !pts.is_empty() {
                    // along an earlier ray, nearer or farther
                    let q = pts[k as usize % pts.len()];
                    let mut p = [0.0; 3];
                    for i in 0..n {
                        p[i] = (base.o[i] as f64 + (q[i] as f64 - base.o[i] as f64) * k as f64 / 10.0) as f32;
                    }
                    if (0..n).all(|i| (p[i] - base.o[i]).abs() < 80.0 * res) {
                        pts.push(p);
                    }
                } else {
                    pts.push(build(n, res, &lo, &oc, &of, &d, &f, &[0; 3]).e);
                }
            }
            CloudCase { n, res, lo: base.lo, hi: base.hi, o: base.o, pts, limit, perm, dups }
        })
        .boxed()
}
fn c07_check(c: &CloudCase, obs: &mut Obs) -> R {
    let n = c.n;
    for p in &c.pts {
        if geo::tol_cells(&c.o, p, &c.lo, c.res, n) > 0.05 {
            obs.label("skipped-unrepresentable");
            return Ok(());
        }
    }
    let mut free = HashSet::default();
    let mut hit = HashSet::default();
    let (mut shared, mut none) = (false, false);
    let mut shadowed = false;
    for p in &c.pts {
        let (r, e) = cast_ray(n, &c.o, p, &c.lo, &c.hi, c.res, c.limit)?;
        for x in r {
            shared |= !free.insert(x);
        }
        match e {
            Some(e) => {
                hit.insert(e);
            }
            None => none = true,
        }
    }
    for h in &hit {
        shadowed |= free.remove(h);
    }
    let (f, h) = cast_rays(n, &c.o, &c.pts, &c.lo, &c.hi, c.res, c.limit)?;
    ensure!(h == hit, "hit cells differ: extra {:?}, missing {:?}", h.difference(&hit).take(3).collect::<Vec<_>>(), hit.difference(&h).take(3).collect::<Vec<_>>());
    ensure!(f == free, "free cells differ: extra {:?}, missing {:?}", f.difference(&free).take(3).collect::<Vec<_>>(), free.difference(&f).take(3).collect::<Vec<_>>());
    ensure!(f.is_disjoint(&h), "a cell is both free and hit");
    // order and repetition do not matter
    let mut q = c.pts.clone();
    for i in 0..q.len() {
        let j = c.perm[i % c.perm.len()] as usize % q.len();
        q.swap(i, j);
    }
    for d in &c.dups {
        if !q.is_empty() {
            let x = q[*d as usize % q.len()];
            q.insert((*d as usize / 7) % (q.len() + 1), x);
        }
    }
    let (f2, h2) = cast_rays(n, &c.o, &q, &c.lo, &c.hi, c.res, c.limit)?;
    ensure!(f2 == f && h2 == h, "reordering or repeating points changes the result");
    obs.label_if(none, "truncated-ray");
    obs.label_if(shadowed, "hit-over-free");
    obs.label_if(c.pts.is_empty(), "empty-cloud");
    obs.nontrivial_if(shared && !f.is_empty() && !h.is_empty());
    Ok(())
}

/// Clouds traced one after the other, each almost the one before.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CloudSeq {
    first: CloudCase,
    next: Vec<(u8, u32, CloudCase)>,
}
fn c07_seq_strategy() -> BoxedStrategy<CloudSeq> {
    (c07_strategy(), prop::collection::vec((0u8..10, any::<u32>(), c07_strategy()), 1..=3)).prop_map(|(first, next)| CloudSeq { first, next }).boxed()
}
fn c07_seq_check(c: &CloudSeq, obs: &mut Obs) -> R {
    let mut now = c.first.clone();
    c07_check(&now, obs)?;
    obs.nontrivial = false;
    for (i, (kind, k, new)) in c.next.iter().enumerate() {
        let mut q = now.clone();
        let n = now.n;
        match kind {
            0..=6 => {
                // new positions, in the frame of the old ones
                let at = |p: &P| {
                    let mut o = [0.0; 3];
                    for a in 0..n {
                        o[a] = (now.o[a] as f64 + (p[a] as f64 - new.o[a] as f64) / new.res as f64 * now.res as f64) as f32;
                    }
                    o
                };
                let mut shift = new.o;
                for a in 0..n {
                    shift[a] += (k % 7) as f32 * 0.3 * new.res;
                }
                let fresh = Scan { sensor: at(&shift), pts: if new.n == n { new.pts.iter().map(at).collect() } else { now.pts.clone() } };
                let s = near_repeat(&Scan { sensor: now.o, pts: now.pts.clone() }, fresh, *kind, *k, n);
                q.o = s.sensor;
                q.pts = s.pts;
            }
            7 => q.limit = new.limit,
            8 => {
                for a in 0..n {
                    let d = ((k >> a) % 5) as f32 * 0.25 * now.res;
                    q.lo[a] += d;
                    q.hi[a] += d;
                }
            }
            _ => q.res = now.res * [0.5, 2.0, 0.75, 1.5][*k as usize % 4],
        }
        if q.pts.iter().any(|p| (0..n).any(|a| ((p[a] - q.o[a]) / q.res).abs() > 300.0)) {
            continue;
        }
        let mut o = Obs::default();
        c07_check(&q, &mut o).map_err(|e| format!("cloud {}: {e}", i + 1))?;
        obs.nontrivial_if(o.nontrivial);
        now = q;
    }
    Ok(())
}

/// A large cloud of short rays, expanded from a seed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BulkCloud {
    seg: Seg,
    count: usize,
    seed: u64,
    spread: u8,
    limit: f32,
}
fn c07_bulk_strategy(min: usize, max: usize) -> BoxedStrategy<BulkCloud> {
    (seg_strategy(3), bulk(min, max), any::<u64>(), 1u8..=9, prop_oneof![3 => Just(0.0f32), 1 => Just(60.0f32), 2 => (1u32..=80).prop_map(|k| k as f32 * 0.1)])
        .prop_map(|(seg, count, seed, spread, l)| BulkCloud { limit: if l == 60.0 { l } else { l * seg.res }, seg, count, seed, spread })
        .boxed()
}
fn c07_bulk_check(c: &BulkCloud, obs: &mut Obs) -> R {
    let s = &c.seg;
    let n = s.n;
    let mut rng = Mix(c.seed);
    let r = c.spread as f64 * s.res as f64;
    let pts: Vec<P> = (0..c.count)
        .map(|_| {
            let mut p = [0.0; 3];
            for i in 0..n {
                p[i] = (s.o[i] as f64 + r * rng.unit()) as f32;
            }
            p
        })
        .collect();
    if geo::tol_cells(&s.o, &s.e, &s.lo, s.res, n) > 0.02 {
        obs.label("skipped-unrepresentable");
        return Ok(());
    }
    let (mut free, mut hit) = (HashSet::default(), HashSet::default());
    for p in &pts {
        let (ray, e) = cast_ray(n, &s.o, p, &s.lo, &s.hi, s.res, c.limit)?;
        free.extend(ray);
        hit.extend(e);
    }
    free.retain(|k| !hit.contains(k));
    let (f, h) = cast_rays(n, &s.o, &pts, &s.lo, &s.hi, s.res, c.limit)?;
    ensure!(h == hit, "{} points: hit cells differ: extra {:?}, missing {:?}", pts.len(), h.difference(&hit).take(3).collect::<Vec<_>>(), hit.difference(&h).take(3).collect::<Vec<_>>());
    ensure!(f == free, "{} points: free cells differ: extra {:?}, missing {:?}", pts.len(), f.difference(&free).take(3).collect::<Vec<_>>(), free.difference(&f).take(3).collect::<Vec<_>>());
    let mut q = pts;
    q.reverse();
    let k = q.len() / 3;
    q.rotate_left(k);
    let (f2, h2) = cast_rays(n, &s.o, &q, &s.lo, &s.hi, s.res, c.limit)?;
    ensure!(f2 == f && h2 == h, "reordering {} points changes the result", q.len());
    obs.label_if(c.count >= 1000, "1000+points");
    obs.nontrivial_if(!f.is_empty() && !h.is_empty());
    Ok(())
}
