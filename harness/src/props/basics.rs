//! C01-C04 (cells, boxes), C16, C17 (clouds), C22 (math).
use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use kuba::geom::converter as cv;
use kuba::GridMap;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn defs() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "C01",
            rule: "a case is one resolution/offset/cell/point tuple per axis, checked through every conversion function and map method; non-trivial when some axis has a non-zero offset or cell and the axes differ from one another (distinct cases counted by content)",
            assumptions: &["coordinates finite and representable to better than 1/20 cell (f32 spacing at that magnitude), since beyond that the nearest cell is not defined by the inputs"],
            subs: vec![
                sub("convert", 2_000_000, 80_000_000, c01_strategy, c01_check),
                sub("ties", 300_000, 12_000_000, c01_ties_strategy, c01_ties_check),
            ],
        },
        PropDef {
            id: "C02",
            rule: "a case is a pair of boxes built per axis from a chosen relation; non-trivial when both boxes are non-empty and the axes stand in different relations or the boxes share volume",
            assumptions: &["finite coordinates; boxes that overlap by less than a few float spacings may be reported as touching"],
            subs: vec![
                sub("union_intersection", 3_000_000, 160_000_000, c02_strategy, c02_check),
                sub("constructors", 1_600_000, 40_000_000, c02_new_strategy, c02_new_check),
            ],
        },
        PropDef {
            id: "C03",
            rule: "a case is a box with corners placed relative to multiples of the resolution / tile; non-trivial when some corner is negative, an exact multiple, or within 1e-3 cells of one",
            assumptions: &["coordinates representable to well under one cell"],
            subs: vec![
                sub("metric", 2_400_000, 80_000_000, c03_metric_strategy, c03_metric_check),
                sub("tiles", 2_400_000, 80_000_000, c03_tiles_strategy, c03_tiles_check),
            ],
        },
        PropDef {
            id: "C04",
            rule: "a case is a cell box / size / offset and resolution; non-trivial when the offset is non-zero and the size is not equal on all axes",
            assumptions: &["coordinates representable to well under one cell"],
            subs: vec![
                sub("roundtrip", 2_000_000, 96_000_000, c04_strategy, c04_check),
                sub("from_bounds", 2_000_000, 96_000_000, c04_fb_strategy, c04_fb_check),
                sub("shape", 80_000, 12_800_000, c04_shape_strategy, c04_shape_check),
            ],
        },
        PropDef {
            id: "C16",
            rule: "a case is a list of points; non-trivial when it has at least two distinct points and its box does not contain the world origin",
            assumptions: &["finite coordinates"],
            subs: vec![
                sub("cloud", 2_400_000, 60_000_000, c16_strategy, c16_check),
                sub("bulk", 60_000, 3_000_000, || c16_bulk_strategy(12_000), |c, o| c16_check(&Cloud { n: c.n, pts: c.expand() }, o)),
                sub("huge", 768, 45_000, || c16_bulk_strategy(300_000), |c, o| c16_check(&Cloud { n: c.n, pts: c.expand() }, o)),
            ],
        },
        PropDef {
            id: "C17",
            rule: "a case is a cloud with two affine transforms; non-trivial when the cloud has two or more points and the linear part is not the identity",
            assumptions: &["finite coordinates of moderate size; comparison within the f32 rounding of the sum of products"],
            subs: vec![
                sub("transform", 1_200_000, 45_000_000, c17_strategy, c17_check),
                sub("bulk", 30_000, 3_000_000, || c17_bulk_strategy(12_000), |c, o| c17_check(&Xf { pts: c.0.expand(), a: c.1.clone(), b: c.2.clone() }, o)),
                sub("huge", 384, 45_000, || c17_bulk_strategy(300_000), |c, o| c17_check(&Xf { pts: c.0.expand(), a: c.1.clone(), b: c.2.clone() }, o)),
            ],
        },
        PropDef {
            id: "C22",
            rule: "a case is a pair of floats (and their neighbours); non-trivial when they are distinct and not among the table constants of the unit tests",
            assumptions: &["f32 accuracy: absolute 3e-7 for probabilities, 1e-6*(1+|l|) for log-odds"],
            subs: vec![
                sub("probability", 4_500_000, 240_000_000, c22_p_strategy, c22_p_check),
                sub("logodds", 4_500_000, 240_000_000, c22_l_strategy, c22_l_check),
                sub("signum", 1_500_000, 60_000_000, c22_s_strategy, c22_s_check),
            ],
        },
    ]
}

// ------------------------------------------------------------------------------------------ C01
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conv {
    n: usize,
    res: P,
    off: P,
    cell: C,
    pt: P,
}
fn wide_coord() -> BoxedStrategy<i64> {
    prop_oneof![
        5 => coord(20_000),
        2 => (log_uniform(1e3, 2e5), any::<bool>()).prop_map(|(f, s)| if s { f as i64 } else { -(f as i64) }),
        1 => (prop_oneof![3 => log_uniform(2e5, 1e9), 1 => log_uniform(1e9, 1e15)], any::<bool>()).prop_map(|(f, s)| if s { f as i64 } else { -(f as i64) }),
    ]
    .boxed()
}
/// One resolution per axis; sometimes two of them agree.
fn axis_resolutions() -> BoxedStrategy<P> {
    (arr3(resolution_wide()), 0u8..6)
        .prop_map(|(mut r, k)| {
            match k {
                0 => r[1] = r[0],
                1 => r[2] = r[0],
                2 => r[2] = r[1],
                _ => {}
            }
            r
        })
        .boxed()
}
fn c01_strategy() -> BoxedStrategy<Conv> {
    let res = prop_oneof![2 => resolution_wide().prop_map(|r| [r; 3]), 1 => axis_resolutions()];
    (dims(), res)
        .prop_flat_map(|(n, res)| {
            let off = arr3((wide_coord(), frac()).boxed());
            (
                Just((n, res)),
                prop_oneof![2 => Just([(0i64, 0.0f64); 3]), 4 => off],
                arr3(wide_coord()),
                arr3(frac()),
                arr3((-2i32..=2).boxed()),
            )
                .prop_map(|((n, res), off, cell, fr, ul)| {
                    let mut c = Conv { n, res, off: [0.0; 3], cell: [0; 3], pt: [0.0; 3] };
                    for i in 0..n {
                        c.off[i] = metres(off[i].0, off[i].1, res[i]);
                        c.cell[i] = cell[i];
                        c.pt[i] = nudge((c.off[i] as f64 + (cell[i] as f64 + fr[i]) * res[i] as f64) as f32, ul[i]);
                    }
                    c
                })
        })
        .boxed()
}
fn conv_tol(p: f32, off: f32, res: f32) -> f64 {
    4.0 * U * (p.abs() as f64 + off.abs() as f64) / res as f64 + 1e-9
}
fn c01_check(c: &Conv, obs: &mut Obs) -> R {
    let n = c.n;
    let mut differ = false;
    // far from the offset a cell's centre is not exact enough to convert back to the same cell
    let mut exact = true;
    for i in 0..n {
        let t = conv_tol(c.pt[i], c.off[i], c.res[i]);
        let t2 = conv_tol((c.off[i] as f64 + c.cell[i] as f64 * c.res[i] as f64) as f32, c.off[i], c.res[i]);
        exact &= t <= 0.05 && t2 <= 0.05;
        differ |= c.cell[i] != c.cell[0] || c.off[i] != c.off[0];
    }
    obs.nontrivial_if(differ && (0..n).any(|i| c.off[i] != 0.0 || c.cell[i] != 0));
    obs.label_if(!exact, "coarse");
    obs.label_if((0..n).any(|i| c.cell[i].abs() > 30_000), "cell-above-30000");
    let near = |got: &C, res: &P, off: &P, what: &str| -> R {
        for i in 0..n {
            let q = (c.pt[i] as f64 - off[i] as f64) / res[i] as f64;
            let t = conv_tol(c.pt[i], off[i], res[i]);
            ensure!((got[i] as f64 - q).abs() <= 0.5 + t, "{what}: point {:?} axis {i}: position {q} cells assigned to cell {}", c.pt, got[i]);
        }
        Ok(())
    };
    let centre = |got: &P, res: &P, off: &P, what: &str| -> R {
        for i in 0..n {
            let w = off[i] as f64 + c.cell[i] as f64 * res[i] as f64;
            let t = 4.0 * U * (w.abs() + off[i].abs() as f64) + 1e-12 + 1e-12 * res[i] as f64;
            ensure!((got[i] as f64 - w).abs() <= t, "{what}: cell {:?} axis {i}: centre {} expected {w}", c.cell, got[i]);
        }
        Ok(())
    };
    // scalar functions, each axis on its own
    for i in 0..n {
        let k = no_panic("cell_coord_from_point_coord", || cv::cell_coord_from_point_coord(c.pt[i], c.off[i], c.res[i]))?;
        let q = (c.pt[i] as f64 - c.off[i] as f64) / c.res[i] as f64;
        ensure!((k as f64 - q).abs() <= 0.5 + conv_tol(c.pt[i], c.off[i], c.res[i]), "cell_coord_from_point_coord: {q} -> {k}");
        obs.label_if((q - q.round()).abs() > 0.4999, "near-tie");
        let m = cv::point_coord_from_cell_coord(c.cell[i] as isize, c.off[i], c.res[i]);
        let w = c.off[i] as f64 + c.cell[i] as f64 * c.res[i] as f64;
        ensure!((m as f64 - w).abs() <= 4.0 * U * (w.abs() + c.off[i].abs() as f64) + 1e-12, "point_coord_from_cell_coord: {m} expected {w}");
        ensure!(!exact || cv::cell_coord_from_point_coord(m, c.off[i], c.res[i]) as i64 == c.cell[i], "cell {} -> centre {m} -> another cell", c.cell[i]);
    }
    let r0 = c.res[0];
    let rs = [r0; 3];
    // the scalar-resolution variants need every axis expressed in r0 units
    let scalar_ok = (0..n).all(|i| conv_tol(c.pt[i], c.off[i], r0) < 0.05 && conv_tol((c.off[i] as f64 + c.cell[i] as f64 * r0 as f64) as f32, c.off[i], r0) < 0.05);
    macro_rules! dim {
        ($pt:ident,$cl:ident,$up:ident,$uc:ident,$b:ident,$Map:ident) => {{
            if scalar_ok {
                let g = $uc(&cv::cell_from_point(&$pt(&c.pt), &$pt(&c.off), r0));
                near(&g, &rs, &c.off, "cell_from_point")?;
                let m = cv::point_from_cell(&$cl(&c.cell), &$pt(&c.off), r0);
                centre(&$up(&m), &rs, &c.off, "point_from_cell")?;
                ensure!($uc(&cv::cell_from_point(&m, &$pt(&c.off), r0)) == c.cell, "cell {:?} -> centre {:?} -> another cell", c.cell, m);
                // map methods
                let mut hi = [0f32; 3];
                for i in 0..n {
                    hi[i] = (c.off[i] as f64 + (i + 1) as f64 * r0 as f64) as f32;
                }
                let map = no_panic("GridMapN::new", || $Map::<u8>::new(r0, $b(&c.off, &hi), 4, 0u8))?;
                let g = $uc(&kuba::GridMap::cell_from_point(&map, &$pt(&c.pt)));
                near(&g, &rs, &c.off, "GridMapN::cell_from_point")?;
                let m = kuba::GridMap::point_from_cell(&map, &$cl(&c.cell));
                centre(&$up(&m), &rs, &c.off, "GridMapN::point_from_cell")?;
                ensure!($uc(&kuba::GridMap::cell_from_point(&map, &m)) == c.cell, "map: cell {:?} -> centre {:?} -> another cell", c.cell, m);
                let occ = kuba::OccupancyGridMapN { grid_map: $Map::<f32>::new(r0, $b(&c.off, &hi), 4, 0.0), noise_model: kuba::LidarNoiseModel::default() };
                near(&$uc(&occ.cell_from_point(&$pt(&c.pt))), &rs, &c.off, "OccupancyGridMapN::cell_from_point")?;
                let m = occ.point_from_cell(&$cl(&c.cell));
                centre(&$up(&m), &rs, &c.off, "OccupancyGridMapN::point_from_cell")?;
                ensure!($uc(&occ.cell_from_point(&m)) == c.cell, "occupancy map: cell {:?} -> centre {:?} -> another cell", c.cell, m);
            }
            let g = $uc(&cv::cell_from_point_n(&$pt(&c.pt), &$pt(&c.off), &$pt(&c.res)));
            near(&g, &c.res, &c.off, "cell_from_point_n")?;
            let m = cv::point_from_cell_n(&$cl(&c.cell), &$pt(&c.off), &$pt(&c.res));
            centre(&$up(&m), &c.res, &c.off, "point_from_cell_n")?;
            ensure!(!exact || $uc(&cv::cell_from_point_n(&m, &$pt(&c.off), &$pt(&c.res))) == c.cell, "per-axis: cell {:?} -> centre {:?} -> another cell", c.cell, m);
        }};
    }
    obs.label_if(scalar_ok, "map-methods");
    if n == 2 {
        dim!(pt2, cl2, p2, c2, b2, Map2)
    } else {
        dim!(pt3, cl3, p3, c3, b3, Map3)
    }
    Ok(())
}

/// Points exactly on cell boundaries inside a map, in numbers every step of the division is exact for.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tie {
    n: usize,
    res_exp: i32,
    /// lower corner in quarter cells, size in cells, cell below the boundary, whether that axis is a tie
    quarter: C,
    size: C,
    below: C,
    tie: [bool; 3],
}
fn c01_ties_strategy() -> BoxedStrategy<Tie> {
    (dims(), -7i32..=4, arr3(prop_oneof![Just(0i64), -16i64..=16, -40_000i64..=40_000].boxed()), arr3((2i64..=12).boxed()), arr3(any::<u16>().boxed()), arr3(any::<bool>().boxed()))
        .prop_map(|(n, res_exp, quarter, size, f, tie)| {
            let mut below = [0; 3];
            for i in 0..3 {
                below[i] = f[i] as i64 * (size[i] - 1) / 65536;
            }
            Tie { n, res_exp, quarter, size, below, tie }
        })
        .boxed()
}
fn c01_ties_check(c: &Tie, obs: &mut Obs) -> R {
    let n = c.n;
    let res = (c.res_exp as f32).exp2();
    let (mut lo, mut hi, mut p, mut want) = ([0f32; 3], [0f32; 3], [0f32; 3], [0i64; 3]);
    for i in 0..n {
        lo[i] = c.quarter[i] as f32 * 0.25 * res;
        hi[i] = lo[i] + c.size[i] as f32 * res;
        p[i] = lo[i] + (c.below[i] as f32 + if c.tie[i] { 0.5 } else { 0.25 }) * res;
        want[i] = c.below[i] + c.tie[i] as i64;
    }
    macro_rules! dim {
        ($pt:ident,$uc:ident,$b:ident,$Map:ident) => {{
            let map = no_panic("GridMapN::new", || $Map::<f32>::new(res, $b(&lo, &hi), 4, 0.0))?;
            let g = $uc(&kuba::GridMap::cell_from_point(&map, &$pt(&p)));
            ensure!(g == want, "GridMapN::cell_from_point: {:?} lies on the boundary between cells and belongs to the higher cell {:?}, not {:?}", p, want, g);
            let occ = kuba::OccupancyGridMapN { grid_map: map, noise_model: kuba::LidarNoiseModel::default() };
            let g = $uc(&kuba::GridMap::cell_from_point(&occ, &$pt(&p)));
            ensure!(g == want, "OccupancyGridMapN::cell_from_point: {:?} lies on the boundary between cells and belongs to the higher cell {:?}, not {:?}", p, want, g);
        }};
    }
    if n == 2 {
        dim!(pt2, c2, b2, Map2)
    } else {
        dim!(pt3, c3, b3, Map3)
    }
    obs.nontrivial_if((0..n).any(|i| c.tie[i]) && (0..n).any(|i| c.quarter[i] != 0));
    Ok(())
}

// ------------------------------------------------------------------------------------------ C02
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Boxes {
    n: usize,
    a: (P, P),
    b: (P, P),
}
fn value() -> BoxedStrategy<f32> {
    prop_oneof![
        3 => (-20i32..=20).prop_map(|k| k as f32 * 0.5),
        3 => (-1000i32..=1000).prop_map(|k| k as f32 * 0.1),
        2 => (-1_000_000i32..=1_000_000).prop_map(|k| k as f32 * 0.037),
        1 => (-30i32..=30, any::<bool>()).prop_map(|(e, s)| { let v = (e as f32).exp2(); if s { v } else { -v } }),
        1 => Just(0.0f32),
    ]
    .boxed()
}
/// One axis: (a.min, a.max, b.min, b.max) in a chosen relation.
fn axis_pair() -> BoxedStrategy<[f32; 4]> {
    (prop::collection::vec(value(), 4), 0u8..10)
        .prop_map(|(mut v, kind)| {
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let (p, q, r, s) = (v[0], v[1], v[2], v[3]);
            match kind {
                0 => [p, q, r, s],          // a below b
                1 => [r, s, p, q],          // a above b
                2 => [p, r, q, s],          // a overlaps from below
                3 => [q, s, p, r],          // a overlaps from above
                4 => [p, s, q, r],          // b inside a
                5 => [q, r, p, s],          // a inside b
                6 => [p, q, q, s],          // touch
                7 => [q, s, p, q],          // touch
                8 => [p, s, p, s],          // identical
                _ => [p, p, q, s],          // degenerate a
            }
        })
        .boxed()
}
fn c02_strategy() -> BoxedStrategy<Boxes> {
    let zero = Just([0f32; 4]);
    let axes = prop_oneof![
        20 => arr3(axis_pair()),
        // empty receiver / empty argument / both
        1 => arr3(axis_pair()).prop_map(|a| a.map(|x| [0.0, 0.0, x[2], x[3]])),
        1 => arr3(axis_pair()).prop_map(|a| a.map(|x| [x[0], x[1], 0.0, 0.0])),
        // partly zero: must not be taken for the empty box
        2 => (arr3(axis_pair()), 1u8..7).prop_map(|(a, m)| { let mut a = a; for i in 0..3 { if m & (1 << i) != 0 { a[i] = [0.0, 0.0, a[i][2], a[i][3]]; } } a }),
        1 => (arr3(axis_pair()), 0u8..4).prop_map(|(a, k)| a.map(|x| if k & 1 == 0 { [0.0, x[1].abs(), x[2], x[3]] } else { [-x[1].abs(), 0.0, x[2], x[3]] })),
        // relations that all overlap
        6 => arr3((prop::collection::vec(value(), 4), 2u8..6).prop_map(|(mut v, k)| {
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let (p, q, r, s) = (v[0], v[1], v[2], v[3]);
            match k { 2 => [p, r, q, s], 3 => [q, s, p, r], 4 => [p, s, q, r], _ => [q, r, p, s] }
        }).boxed()),
        1 => arr3(zero.boxed()),
    ];
    (dims(), axes)
        .prop_map(|(n, ax)| {
            let mut c = Boxes { n, a: ([0.0; 3], [0.0; 3]), b: ([0.0; 3], [0.0; 3]) };
            for i in 0..n {
                c.a.0[i] = ax[i][0];
                c.a.1[i] = ax[i][1];
                c.b.0[i] = ax[i][2];
                c.b.1[i] = ax[i][3];
            }
            c
        })
        .boxed()
}
fn enclosing(n: usize, a: &(P, P), b: &(P, P)) -> (P, P) {
    if n == 2 {
        ub2(&b2(&a.0, &a.1).enclosing(&b2(&b.0, &b.1)))
    } else {
        ub3(&b3(&a.0, &a.1).enclosing(&b3(&b.0, &b.1)))
    }
}
fn overlapping(n: usize, a: &(P, P), b: &(P, P)) -> (P, P) {
    if n == 2 {
        ub2(&b2(&a.0, &a.1).overlapping(&b2(&b.0, &b.1)))
    } else {
        ub3(&b3(&a.0, &a.1).overlapping(&b3(&b.0, &b.1)))
    }
}
const EMPTY: (P, P) = ([0.0; 3], [0.0; 3]);
fn c02_check(c: &Boxes, obs: &mut Obs) -> R {
    let n = c.n;
    for (x, y, what) in [(&c.a, &c.b, "a,b"), (&c.b, &c.a, "b,a")] {
        let e = no_panic("enclosing", || enclosing(n, x, y))?;
        let want = if *x == EMPTY {
            *y
        } else {
            let mut w = EMPTY;
            for i in 0..n {
                w.0[i] = x.0[i].min(y.0[i]);
                w.1[i] = x.1[i].max(y.1[i]);
            }
            w
        };
        ensure!(e == want, "enclosing({what}) of {:?} and {:?} is {:?}, expected {:?}", x, y, e, want);
        obs.label_if(*x == EMPTY, "empty-receiver");
    }
    // overlap: exact, except that overlaps thinner than a few float spacings may count as touching
    let mut share = true;
    let mut unclear = false;
    let mut w = EMPTY;
    for i in 0..n {
        let lo = c.a.0[i].max(c.b.0[i]);
        let hi = c.a.1[i].min(c.b.1[i]);
        w.0[i] = lo;
        w.1[i] = hi;
        let thin = 4.0 * f32::EPSILON * (1f32.min(lo.abs().max(hi.abs())).max(lo.abs()).max(hi.abs()));
        if hi <= lo {
            share = false;
        } else if hi - lo <= thin.max(4.0 * f32::EPSILON) {
            unclear = true;
        }
    }
    let o1 = no_panic("overlapping", || overlapping(n, &c.a, &c.b))?;
    let o2 = no_panic("overlapping", || overlapping(n, &c.b, &c.a))?;
    ensure!(o1 == o2, "overlapping depends on the receiver: {:?} vs {:?}", o1, o2);
    if !share {
        ensure!(o1 == EMPTY, "boxes {:?} {:?} share no volume but overlapping gives {:?}", c.a, c.b, o1);
    } else if unclear {
        ensure!(o1 == EMPTY || o1 == w, "overlapping gives {:?}, expected {:?}", o1, w);
    } else {
        ensure!(o1 == w, "overlapping of {:?} {:?} gives {:?}, expected {:?}", c.a, c.b, o1, w);
        obs.label("share-volume");
    }
    obs.nontrivial_if(c.a != EMPTY && c.b != EMPTY && c.a != c.b);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NewCase {
    n: usize,
    lo: P,
    hi: P,
    clo: C,
    chi: C,
    /// perturbation for approximate comparison: axis*2+side, relative size
    which: usize,
    eps: f32,
    delta: f32,
}
fn c02_new_strategy() -> BoxedStrategy<NewCase> {
    (
        dims(),
        arr3((value(), value(), 0u8..6).prop_map(|(a, b, k)| match k { 0 => (a, a), 1 => (a, b), _ => (a.min(b), a.max(b)) }).boxed()),
        arr3((coord(100_000), coord(100_000), 0u8..6).prop_map(|(a, b, k)| match k { 0 => (a, a), 1 => (a, b), _ => (a.min(b), a.max(b)) }).boxed()),
        0usize..6,
        prop_oneof![Just(0.001f32), Just(0.1), Just(1.0), Just(10.0)],
        prop_oneof![Just(0.0f32), Just(0.5), Just(0.9), Just(1.1), Just(2.0), Just(100.0)],
    )
        .prop_map(|(n, f, k, w, eps, delta)| {
            let mut c = NewCase { n, lo: [0.0; 3], hi: [0.0; 3], clo: [0; 3], chi: [0; 3], which: w % (2 * n), eps, delta };
            for i in 0..n {
                c.lo[i] = f[i].0;
                c.hi[i] = f[i].1;
                c.clo[i] = k[i].0;
                c.chi[i] = k[i].1;
            }
            c
        })
        .boxed()
}
fn c02_new_check(c: &NewCase, obs: &mut Obs) -> R {
    use approx::{AbsDiffEq, RelativeEq};
    let n = c.n;
    let valid = (0..n).all(|i| c.lo[i] <= c.hi[i]);
    let cvalid = (0..n).all(|i| c.clo[i] <= c.chi[i]);
    obs.label_if(!valid, "inverted-box");
    obs.nontrivial_if(n == 3 || !valid || !cvalid);
    macro_rules! dim {
        ($pt:ident,$cl:ident,$B:ident,$CB:ident,$b:ident,$cb:ident) => {{
            match guard(|| kuba::$B::new($pt(&c.lo), $pt(&c.hi))) {
                Ok(b) => {
                    ensure!(valid, "Bounds::new accepted min {:?} max {:?}", c.lo, c.hi);
                    ensure!(b == $b(&c.lo, &c.hi), "Bounds::new changed the corners");
                }
                Err(_) => ensure!(!valid, "Bounds::new rejected min {:?} max {:?}", c.lo, c.hi),
            }
            match guard(|| kuba::$CB::new($cl(&c.clo), $cl(&c.chi))) {
                Ok(b) => {
                    ensure!(cvalid, "CellBounds::new accepted min {:?} max {:?}", c.clo, c.chi);
                    ensure!(b == $cb(&c.clo, &c.chi), "CellBounds::new changed the corners");
                }
                Err(_) => ensure!(!cvalid, "CellBounds::new rejected min {:?} max {:?}", c.clo, c.chi),
            }
            ensure!(kuba::$B::empty() == $b(&[0.0; 3], &[0.0; 3]), "Bounds::empty is not all zeros");
            ensure!(kuba::$CB::empty() == $cb(&[0; 3], &[0; 3]), "CellBounds::empty is not all zeros");
            // approximate equality: exactly when every corner coordinate is
            let a = $b(&c.lo, &c.hi);
            let (mut lo, mut hi) = (c.lo, c.hi);
            let (ax, side) = (c.which / 2, c.which % 2);
            if side == 0 {
                lo[ax] += c.eps * c.delta;
            } else {
                hi[ax] += c.eps * c.delta;
            }
            let b = $b(&lo, &hi);
            let want_abs = (0..n).all(|i| c.lo[i].abs_diff_eq(&lo[i], c.eps) && c.hi[i].abs_diff_eq(&hi[i], c.eps));
            let want_rel = (0..n).all(|i| c.lo[i].relative_eq(&lo[i], 1e-6, c.eps * 0.01) && c.hi[i].relative_eq(&hi[i], 1e-6, c.eps * 0.01));
            ensure!(a.abs_diff_eq(&b, c.eps) == want_abs, "abs_diff_eq of {:?} and {:?} (eps {}) is {}", a, b, c.eps, !want_abs);
            ensure!(b.abs_diff_eq(&a, c.eps) == want_abs, "abs_diff_eq is not symmetric");
            ensure!(a.relative_eq(&b, 1e-6, c.eps * 0.01) == want_rel, "relative_eq of {:?} and {:?} is {}", a, b, !want_rel);
            ensure!(a.abs_diff_eq(&a, 0.0) && a.relative_eq(&a, 0.0, 0.0), "a box is not approximately equal to itself");
            // equality itself
            ensure!((a == b) == (c.lo == lo && c.hi == hi), "== disagrees with the corners");
            obs.label_if(want_abs, "approx-equal");
            obs.label_if(!want_abs, "approx-different");
        }};
    }
    if n == 2 {
        dim!(pt2, cl2, Bounds2, CellBounds2, b2, cb2)
    } else {
        dim!(pt3, cl3, Bounds3, CellBounds3, b3, cb3)
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C03
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MetricBox {
    n: usize,
    res: f32,
    lo: P,
    hi: P,
}
fn corner() -> BoxedStrategy<(i64, f64, i32)> {
    (coord(20_000), prop_oneof![2 => Just(0.0f64), 3 => frac(), 1 => (-20i32..=20).prop_map(|k| k as f64 * 1e-4)], -3i32..=3).boxed()
}
fn metric_box() -> BoxedStrategy<MetricBox> {
    (dims(), resolution_wide(), arr3((corner(), corner(), 0u8..5).boxed()))
        .prop_map(|(n, res, ax)| {
            let mut c = MetricBox { n, res, lo: [0.0; 3], hi: [0.0; 3] };
            for i in 0..n {
                let (a, b, k) = ax[i];
                let f = |x: (i64, f64, i32)| nudge((x.0 as f64 as f32) * res + (x.1 * res as f64) as f32, x.2);
                let (p, q) = (f(a), f(b));
                let (p, q) = if k == 0 { (p, p) } else { (p.min(q), p.max(q)) };
                c.lo[i] = p;
                c.hi[i] = q;
            }
            c
        })
        .boxed()
}
fn c03_metric_strategy() -> BoxedStrategy<MetricBox> {
    metric_box()
}
fn c03_metric_check(c: &MetricBox, obs: &mut Obs) -> R {
    let n = c.n;
    let res = c.res as f64;
    for i in 0..n {
        if conv_tol(c.lo[i], 0.0, c.res) > 0.02 || conv_tol(c.hi[i], 0.0, c.res) > 0.02 {
            obs.label("skipped-unrepresentable");
            return Ok(());
        }
    }
    for expand in [false, true] {
        let (lo, hi) = no_panic("Bounds::discretized", || {
            if n == 2 {
                ub2(&b2(&c.lo, &c.hi).discretized(c.res, expand))
            } else {
                ub3(&b3(&c.lo, &c.hi).discretized(c.res, expand))
            }
        })?;
        for i in 0..n {
            for (v, got, is_max) in [(c.lo[i], lo[i], false), (c.hi[i], hi[i], true)] {
                let q = v as f64 / res;
                // within this of a multiple, the value may count as lying on it
                let near_tol = 8.0 * U * (q.abs() + 1.0);
                let g = got as f64 / res;
                let gt = 8.0 * U * (q.abs() + 2.0) + 1e-9;
                let on = (q - q.round()).abs();
                let exactly_on = v == metres(q.round() as i64, 0.0, c.res); // v is the float nearest to a multiple
                ensure!((g - g.round()).abs() <= gt + near_tol, "expand={expand} axis {i}: {got} is not a multiple of {}", c.res);
                let k = g.round();
                let up = if is_max && expand { 1.0 } else { 0.0 };
                let ok_on = k == q.round() + up;
                let ok_off = if is_max { k == q.ceil() } else { k == q.floor() };
                if on <= 1e-3 {
                    obs.label("near-multiple");
                    obs.nontrivial = true;
                }
                obs.nontrivial_if(v < 0.0);
                if exactly_on {
                    ensure!(ok_on, "expand={expand} axis {i} max={is_max}: {v} is a multiple of {} but rounds to {got}", c.res);
                    obs.label("exact-multiple");
                } else if on > near_tol {
                    ensure!(ok_off, "expand={expand} axis {i} max={is_max}: {v} ({q} cells) rounds to {got} ({g} cells)");
                } else {
                    ensure!(ok_on || ok_off, "expand={expand} axis {i} max={is_max}: {v} ({q} cells) rounds to {got} ({g} cells)");
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TileBox {
    n: usize,
    lo: C,
    hi: C,
    tile: usize,
}
fn c03_tiles_strategy() -> BoxedStrategy<TileBox> {
    let tile = prop_oneof![3 => 1usize..=9, 2 => 1usize..=1000, 1 => 1usize..=100_000, 1 => dict_int(1, 100_000).prop_map(|v| v as usize), 1 => (0u32..=16).prop_map(|k| 1usize << k)];
    (dims(), tile)
        .prop_flat_map(|(n, tile)| {
            let t = tile as i64;
            let co = prop_oneof![
                3 => coord(1_000_000),
                3 => (coord(1000), -1i64..=1).prop_map(move |(k, d)| k * t + d),
                1 => -(1i64 << 40)..=(1i64 << 40),
            ]
            .boxed();
            (Just((n, tile)), arr3((co.clone(), co, 0u8..5).boxed())).prop_map(|((n, tile), ax)| {
                let mut c = TileBox { n, lo: [0; 3], hi: [0; 3], tile };
                for i in 0..n {
                    let (a, b, k) = ax[i];
                    let b = if k == 0 { a } else { b };
                    c.lo[i] = a.min(b);
                    c.hi[i] = a.max(b);
                }
                c
            })
        })
        .boxed()
}
fn c03_tiles_check(c: &TileBox, obs: &mut Obs) -> R {
    let t = c.tile as i64;
    let (lo, hi) = no_panic("CellBounds::discretized", || {
        if c.n == 2 {
            ucb2(&cb2(&c.lo, &c.hi).discretized(c.tile))
        } else {
            ucb3(&cb3(&c.lo, &c.hi).discretized(c.tile))
        }
    })?;
    for i in 0..c.n {
        let wl = c.lo[i].div_euclid(t) * t;
        let wh = -((-c.hi[i]).div_euclid(t)) * t;
        ensure!(lo[i] == wl && hi[i] == wh, "axis {i}: [{}, {}] with tile {t} rounds to [{}, {}], expected [{wl}, {wh}]", c.lo[i], c.hi[i], lo[i], hi[i]);
        obs.nontrivial_if(c.lo[i] < 0 || c.hi[i] % t == 0);
        obs.label_if(c.lo[i] < 0 && c.hi[i] > 0, "sign-crossing");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C04
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SizeBox {
    n: usize,
    res: f32,
    resn: P,
    size: C,
    off: C,
}
fn c04_strategy() -> BoxedStrategy<SizeBox> {
    (dims(), resolution_wide(), axis_resolutions(), arr3(coord(3000).prop_map(|v| v.abs()).boxed()), arr3(coord(20_000)))
        .prop_map(|(n, res, resn, mut size, mut off)| {
            for i in n..3 {
                size[i] = 0;
                off[i] = 0;
            }
            SizeBox { n, res, resn, size, off }
        })
        .boxed()
}
fn c04_check(c: &SizeBox, obs: &mut Obs) -> R {
    let n = c.n;
    let hi = add(&c.off, &c.size);
    obs.nontrivial_if(c.off != [0; 3] && (1..n).any(|i| c.size[i] != c.size[0]));
    let exact = |got: &(P, P), res: &P, what: &str| -> R {
        for i in 0..n {
            for (g, k) in [(got.0[i], c.off[i]), (got.1[i], hi[i])] {
                let w = k as f64 * res[i] as f64;
                // cell*resolution, rounded once (one extra rounding allowed)
                ensure!((g as f64 - w).abs() <= 2.0 * U * w.abs() + 1e-30, "{what} axis {i}: cell {k} at resolution {} gives {g}, expected {w}", res[i]);
            }
        }
        Ok(())
    };
    let rs = [c.res; 3];
    macro_rules! dim {
        ($pt:ident,$cl:ident,$B:ident,$CB:ident,$ub:ident,$cb:ident,$ucb:ident) => {{
            let want = (c.off, hi);
            let b = no_panic("from_size_cells", || kuba::$B::from_size_cells(&$cl(&c.size), c.res, &$cl(&c.off)))?;
            exact(&$ub(&b), &rs, "from_size_cells")?;
            ensure!($ucb(&kuba::$CB::from_bounds(&b, c.res)) == want, "from_size_cells({:?}, {:?}) converts back to {:?}", c.size, c.off, kuba::$CB::from_bounds(&b, c.res));
            let b = no_panic("from_cell_bounds", || kuba::$B::from_cell_bounds(&$cb(&c.off, &hi), c.res))?;
            exact(&$ub(&b), &rs, "from_cell_bounds")?;
            ensure!($ucb(&kuba::$CB::from_bounds(&b, c.res)) == want, "from_cell_bounds round trip gives {:?}", kuba::$CB::from_bounds(&b, c.res));
            let b = no_panic("from_size_cells_n", || kuba::$B::from_size_cells_n(&$cl(&c.size), &$pt(&c.resn), &$cl(&c.off)))?;
            exact(&$ub(&b), &c.resn, "from_size_cells_n")?;
            let b = no_panic("from_cell_bounds_n", || kuba::$B::from_cell_bounds_n(&$cb(&c.off, &hi), &$pt(&c.resn)))?;
            exact(&$ub(&b), &c.resn, "from_cell_bounds_n")?;
            // the per-axis box converts back per axis
            for i in 0..n {
                let (lo_m, hi_m) = ($ub(&b).0[i], $ub(&b).1[i]);
                ensure!(cv::cell_coord_from_point_coord(lo_m, 0.0, c.resn[i]) as i64 == c.off[i], "per-axis min does not convert back");
                ensure!(cv::cell_coord_from_point_coord(hi_m, 0.0, c.resn[i]) as i64 == hi[i], "per-axis max does not convert back");
            }
        }};
    }
    if n == 2 {
        dim!(pt2, cl2, Bounds2, CellBounds2, ub2, cb2, ucb2)
    } else {
        dim!(pt3, cl3, Bounds3, CellBounds3, ub3, cb3, ucb3)
    }
    Ok(())
}
fn c04_fb_strategy() -> BoxedStrategy<MetricBox> {
    metric_box()
}
fn c04_fb_check(c: &MetricBox, obs: &mut Obs) -> R {
    let n = c.n;
    for i in 0..n {
        if conv_tol(c.lo[i], 0.0, c.res) > 0.02 || conv_tol(c.hi[i], 0.0, c.res) > 0.02 {
            obs.label("skipped-unrepresentable");
            return Ok(());
        }
    }
    let (lo, hi) = no_panic("CellBounds::from_bounds", || {
        if n == 2 {
            ucb2(&kuba::CellBounds2::from_bounds(&b2(&c.lo, &c.hi), c.res))
        } else {
            ucb3(&kuba::CellBounds3::from_bounds(&b3(&c.lo, &c.hi), c.res))
        }
    })?;
    for i in 0..n {
        for (v, k) in [(c.lo[i], lo[i]), (c.hi[i], hi[i])] {
            let q = v as f64 / c.res as f64;
            ensure!((k as f64 - q).abs() <= 0.5 + conv_tol(v, 0.0, c.res), "axis {i}: corner {v} ({q} cells) converts to cell {k}");
        }
    }
    obs.nontrivial_if((0..n).any(|i| lo[i] != lo[0] || hi[i] != hi[0]) && (0..n).any(|i| lo[i] != 0));
    obs.label_if((0..n).any(|i| c.lo[i] == 0.0 && c.hi[i] == 0.0), "zero-axis");
    Ok(())
}
fn c04_shape_strategy() -> BoxedStrategy<SizeBox> {
    (dims(), resolution(), arr3((0i64..=24).boxed()), arr3(coord(20_000)))
        .prop_map(|(n, res, mut size, mut off)| {
            for i in n..3 {
                size[i] = 0;
                off[i] = 0;
            }
            SizeBox { n, res, resn: [res; 3], size, off }
        })
        .boxed()
}
fn c04_shape_check(c: &SizeBox, obs: &mut Obs) -> R {
    let n = c.n;
    let (lo, hi) = size_bounds(n, &c.size, c.res, &c.off);
    let m = no_panic("GridMapN::new", || new_map::<u16>(n, c.res, &lo, &hi, 7, 3))?;
    let mut want = [1i64; 3];
    for i in 0..n {
        want[i] = c.size[i];
    }
    ensure!(m.shape() == want, "a map of {:?} cells at {:?} (resolution {}) has shape {:?}", c.size, c.off, c.res, m.shape());
    ensure!(m.bounds() == (lo, hi) && m.resolution() == c.res && m.tile() == 7, "map does not report its construction parameters");
    ensure!(m.raw_eq().iter().all(|v| *v == 3), "a new map does not hold its default everywhere");
    obs.nontrivial_if(c.off != [0; 3] && (1..n).any(|i| c.size[i] != c.size[0]));
    obs.label_if((0..n).any(|i| c.size[i] == 0), "zero-size-axis");
    Ok(())
}

// ------------------------------------------------------------------------------------------ C16
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cloud {
    n: usize,
    pts: Vec<P>,
}
fn world_value() -> BoxedStrategy<f32> {
    prop_oneof![
        3 => value(),
        2 => (-2_000_000i32..=2_000_000).prop_map(|k| k as f32 * 0.013),
        1 => any::<u32>().prop_map(|b| { let f = f32::from_bits(b); if f.is_finite() { f } else { 1.5 } }),
    ]
    .boxed()
}
fn c16_strategy() -> BoxedStrategy<Cloud> {
    let base = prop_oneof![1 => Just([0f32; 3]), 3 => arr3(value())];
    (dims(), base, prop_oneof![8 => 0usize..=12, 1 => 0usize..=200])
        .prop_flat_map(|(n, base, k)| {
            let near = arr3((-2000i32..=2000).prop_map(|v| v as f32 * 0.01).boxed());
            let p = prop_oneof![
                4 => near.prop_map(move |d| [base[0] + d[0], base[1] + d[1], base[2] + d[2]]),
                1 => arr3(world_value()),
            ];
            (Just(n), prop::collection::vec(p, k))
        })
        .prop_map(|(n, mut pts)| {
            for p in pts.iter_mut() {
                for i in n..3 {
                    p[i] = 0.0;
                }
            }
            Cloud { n, pts }
        })
        .boxed()
}
/// A large cloud expanded from a seed: uniform around a base, drifting, or with one outlier.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BulkCloud {
    n: usize,
    k: u32,
    seed: u64,
    base: P,
    shape: u8,
}
impl BulkCloud {
    fn expand(&self) -> Vec<P> {
        let mut r = Mix(self.seed);
        let out = r.below(self.k as u64) as u32;
        let mut drift = [0.0f64; 3];
        let speed = [0, 1, 2].map(|_| r.unit() * 0.1);
        (0..self.k)
            .map(|j| {
                let mut p = [0.0f32; 3];
                for i in 0..self.n {
                    drift[i] += speed[i];
                    let far = if self.shape == 2 && j == out { 40.0 } else { 1.0 };
                    let d = if self.shape == 1 { drift[i] } else { 0.0 };
                    p[i] = (self.base[i] as f64 + d + far * 20.0 * r.unit()) as f32;
                }
                p
            })
            .collect()
    }
}
fn bulk_cloud(n: BoxedStrategy<usize>, max: usize) -> BoxedStrategy<BulkCloud> {
    (n, bulk(if max > 12_000 { 12_000 } else { 1 }, max), any::<u64>(), arr3((-100_000i32..=100_000).prop_map(|k| k as f32 * 0.01).boxed()), 0u8..3)
        .prop_map(|(n, k, seed, base, shape)| BulkCloud { n, k: k as u32, seed, base, shape })
        .boxed()
}
fn c16_bulk_strategy(max: usize) -> BoxedStrategy<BulkCloud> {
    bulk_cloud(dims(), max)
}
fn c17_bulk_strategy(max: usize) -> BoxedStrategy<(BulkCloud, Affine, Affine)> {
    (bulk_cloud(Just(3usize).boxed(), max), affine(), affine()).boxed()
}
fn c16_check(c: &Cloud, obs: &mut Obs) -> R {
    let n = c.n;
    macro_rules! dim {
        ($cloud:ident,$up:ident,$ub:ident,$PC:ident) => {{
            let pc = no_panic("from_points", || $cloud(&c.pts))?;
            ensure!(pc.num_points() == c.pts.len(), "{} points in, num_points {}", c.pts.len(), pc.num_points());
            let back: Vec<P> = no_panic("points_iter", || pc.points_iter().map(|p| $up(&p)).collect())?;
            let same = back.len() == c.pts.len() && back.iter().zip(&c.pts).all(|(a, b)| (0..n).all(|i| a[i].to_bits() == b[i].to_bits()));
            ensure!(same, "points come back as {:?}", &back[..back.len().min(6)]);
            let again = kuba::$PC::from_data(pc.data.clone());
            ensure!(again.num_points() == c.pts.len() && again.points_iter().zip(pc.points_iter()).all(|(a, b)| a == b), "from_data changes the points");
            let cl = pc.clone();
            ensure!(cl.data == pc.data, "a clone differs");
            $ub(&no_panic("PointCloud::bounds", || pc.bounds())?)
        }};
    }
    let b = if n == 2 { dim!(cloud2, p2, ub2, PointCloud2) } else { dim!(cloud3, p3, ub3, PointCloud3) };
    let want = if c.pts.is_empty() {
        EMPTY
    } else {
        let mut w = (c.pts[0], c.pts[0]);
        for p in &c.pts {
            for i in 0..n {
                w.0[i] = w.0[i].min(p[i]);
                w.1[i] = w.1[i].max(p[i]);
            }
        }
        w
    };
    for i in 0..n {
        ensure!(b.0[i] == want.0[i] && b.1[i] == want.1[i], "bounds {:?}, bounding box of the points is {:?}", b, want);
    }
    obs.label_if(c.pts.is_empty(), "empty");
    let away = (0..n).any(|i| want.0[i] > 0.0 || want.1[i] < 0.0);
    obs.label_if(away, "away-from-origin");
    obs.nontrivial_if(away && c.pts.len() >= 2 && c.pts.iter().any(|p| *p != c.pts[0]));
    Ok(())
}

// ------------------------------------------------------------------------------------------ C17
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Xf {
    pts: Vec<P>,
    a: Affine,
    b: Affine,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Affine {
    /// rigid pose from euler angles, or a general linear part
    rpy: Option<P>,
    lin: [P; 3],
    t: P,
}
impl Affine {
    fn mat(&self) -> na::Matrix4<f32> {
        if let Some(a) = self.rpy {
            let iso = kuba::Pose3::from_parts(
                na::Translation3::new(self.t[0], self.t[1], self.t[2]),
                na::UnitQuaternion::from_euler_angles(a[0], a[1], a[2]),
            );
            iso.to_homogeneous()
        } else {
            let l = &self.lin;
            na::Matrix4::new(
                l[0][0], l[0][1], l[0][2], self.t[0], l[1][0], l[1][1], l[1][2], self.t[1], l[2][0], l[2][1], l[2][2], self.t[2], 0.0, 0.0,
                0.0, 1.0,
            )
        }
    }
}
fn small() -> BoxedStrategy<f32> {
    prop_oneof![3 => (-3000i32..=3000).prop_map(|k| k as f32 * 0.001), 1 => prop_oneof![Just(0f32), Just(1.0), Just(-1.0), Just(2.0)]].boxed()
}
fn tiny() -> BoxedStrategy<f32> {
    prop_oneof![
        2 => Just(0f32),
        3 => (log_uniform(1e-7, 0.1), any::<bool>()).prop_map(|(v, s)| if s { v } else { -v }),
    ]
    .boxed()
}
fn affine() -> BoxedStrategy<Affine> {
    let t = arr3(prop_oneof![1 => Just(0.0f32), 3 => (-100_000i32..=100_000).prop_map(|k| k as f32 * 0.01)].boxed());
    prop_oneof![
        1 => Just(Affine { rpy: None, lin: [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], t: [0.0; 3] }),
        3 => (arr3((-3200i32..=3200).prop_map(|k| k as f32 * 0.001).boxed()), t.clone()).prop_map(|(a, t)| Affine { rpy: Some(a), lin: [[0.0; 3]; 3], t }),
        3 => (arr3(arr3(small())), t.clone()).prop_map(|(lin, t)| Affine { rpy: None, lin, t }),
        // hardly moving at all
        2 => (arr3(tiny()), arr3(tiny())).prop_map(|(a, t)| Affine { rpy: Some(a), lin: [[0.0; 3]; 3], t }),
        1 => (arr3(arr3(tiny())), arr3(tiny())).prop_map(|(mut lin, t)| { for i in 0..3 { lin[i][i] += 1.0; } Affine { rpy: None, lin, t } }),
        1 => (0usize..3, prop::sample::select(vec![1.5707963f32, -1.5707963, 3.1415927]), t).prop_map(|(i, v, t)| { let mut a = [0.0f32; 3]; a[i] = v; Affine { rpy: Some(a), lin: [[0.0; 3]; 3], t } }),
    ]
    .boxed()
}
fn c17_strategy() -> BoxedStrategy<Xf> {
    let p = arr3(prop_oneof![1 => Just(0.0f32), 3 => (-100_000i32..=100_000).prop_map(|k| k as f32 * 0.01)].boxed());
    (prop::collection::vec(p, 0..=10), affine(), affine()).prop_map(|(pts, a, b)| Xf { pts, a, b }).boxed()
}
fn apply(m: &na::Matrix4<f32>, p: &P) -> ([f64; 3], f64) {
    let mut o = [0.0; 3];
    let mut mag = 0.0f64;
    for r in 0..3 {
        let mut s = m[(r, 3)] as f64;
        let mut a = s.abs();
        for k in 0..3 {
            s += m[(r, k)] as f64 * p[k] as f64;
            a += (m[(r, k)] as f64 * p[k] as f64).abs();
        }
        o[r] = s;
        mag = mag.max(a);
    }
    (o, mag)
}
fn pts_of(c: &kuba::PointCloud3) -> Vec<P> {
    c.points_iter().map(|p| p3(&p)).collect()
}
fn c17_check(c: &Xf, obs: &mut Obs) -> R {
    let cloud = cloud3(&c.pts);
    let before = cloud.data.clone();
    let (ma, mb) = (c.a.mat(), c.b.mat());
    let ta = no_panic("transform", || cloud.transform(&ma))?;
    ensure!(cloud.data == before, "transform changed the original cloud");
    let ra = pts_of(&ta);
    ensure!(ra.len() == c.pts.len() && ta.num_points() == c.pts.len(), "{} points became {}", c.pts.len(), ra.len());
    for (k, p) in c.pts.iter().enumerate() {
        let (w, mag) = apply(&ma, p);
        for i in 0..3 {
            ensure!((ra[k][i] as f64 - w[i]).abs() <= 8.0 * U * mag + 1e-12, "point {k} {:?} moved to {:?}, expected {:?}", p, ra[k], w);
        }
    }
    let id = no_panic("transform(identity)", || cloud.transform(&na::Matrix4::identity()))?;
    ensure!(pts_of(&id) == c.pts, "the identity changed {:?} into {:?}", c.pts, pts_of(&id));
    if c.a.rpy.is_some() {
        for i in 0..c.pts.len() {
            for j in 0..i.min(12) {
                let d = |a: &P, b: &P| (0..3).map(|k| (a[k] as f64 - b[k] as f64).powi(2)).sum::<f64>().sqrt();
                let (d0, d1) = (d(&c.pts[i], &c.pts[j]), d(&ra[i], &ra[j]));
                let mag = [&c.pts[i], &c.pts[j], &ra[i], &ra[j]].iter().flat_map(|p| p.iter()).fold(0.0f64, |a, v| a.max(v.abs() as f64));
                ensure!((d0 - d1).abs() <= 60.0 * U * (mag + 1.0), "rigid motion changed a distance from {d0} to {d1}");
            }
        }
        obs.label("rigid");
    }
    // A then B equals B*A
    let two = pts_of(&no_panic("transform", || ta.transform(&mb))?);
    let one = pts_of(&no_panic("transform", || cloud.transform(&(mb * ma)))?);
    ensure!(two.len() == one.len(), "composition changes the number of points");
    for k in 0..two.len() {
        let (_, m1) = apply(&ma, &c.pts[k]);
        let nb = (0..3).map(|r| (0..3).map(|q| mb[(r, q)].abs() as f64).sum::<f64>()).fold(0.0, f64::max);
        let tb = (0..3).map(|r| mb[(r, 3)].abs() as f64).fold(0.0, f64::max);
        let bound = 64.0 * U * (nb * m1 * 2.0 + tb + 1.0);
        for i in 0..3 {
            ensure!((two[k][i] as f64 - one[k][i] as f64).abs() <= bound, "A then B gives {:?}, B*A gives {:?}", two[k], one[k]);
        }
    }
    obs.nontrivial_if(c.pts.len() >= 2 && ma != na::Matrix4::identity());
    Ok(())
}

// ------------------------------------------------------------------------------------------ C22
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bits2 {
    a: u32,
    b: u32,
    r: Vec<u32>,
}
fn prob() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => any::<u32>().prop_map(|b| b as f64 as f32 / 4294967296.0f32),
        2 => (0u32..=24).prop_map(|k| 0.5f32.powi(k as i32)),
        2 => (0u32..=24).prop_map(|k| 1.0 - 0.5f32.powi(k as i32)),
        2 => (0u32..0x3f80_0000).prop_map(f32::from_bits),
        2 => (0u32..=1000).prop_map(|k| k as f32 / 1000.0),
        1 => (-40i32..=40).prop_map(|k| nudge(0.5, k)),
        1 => prop_oneof![Just(0.0f32), Just(1.0), Just(0.5)],
        1 => dict_float(0.0, 1.0),
    ]
    .prop_map(|f| f.clamp(0.0, 1.0))
    .boxed()
}
fn c22_p_strategy() -> BoxedStrategy<Bits2> {
    (prob(), prop_oneof![2 => prob().prop_map(Some), 1 => Just(None)], 1i32..=3)
        .prop_map(|(a, b, k)| Bits2 { a: a.to_bits(), b: b.unwrap_or(nudge(a, k).clamp(0.0, 1.0)).to_bits(), r: vec![] })
        .boxed()
}
fn lo_exact(p: f64) -> f64 {
    (p / (1.0 - p)).ln()
}
fn c22_p_check(c: &Bits2, obs: &mut Obs) -> R {
    use kuba::math::*;
    let (a, b) = (f32::from_bits(c.a), f32::from_bits(c.b));
    obs.nontrivial_if(a != b && ![0.0, 0.5, 1.0].contains(&a));
    let mut l = [0f32; 2];
    for (k, p) in [a, b].into_iter().enumerate() {
        let g = logodds_from_probability(p);
        l[k] = g;
        if p == 0.0 {
            ensure!(g == f32::NEG_INFINITY, "logodds(0) = {g}");
        } else if p == 1.0 {
            ensure!(g == f32::INFINITY, "logodds(1) = {g}");
        } else if p == 0.5 {
            ensure!(g == 0.0, "logodds(0.5) = {g}");
        } else {
            let w = lo_exact(p as f64);
            ensure!((g as f64 - w).abs() <= 1e-6 * (1.0 + w.abs()), "logodds({p:e}) = {g}, expected {w}");
        }
        let back = probability_from_logodds(g);
        ensure!((back as f64 - p as f64).abs() <= 3e-7, "probability {p} -> log-odds {g} -> {back}");
        ensure!((0.0..=1.0).contains(&back), "{back} is not a probability");
        let q = 1.0f32 - p;
        if q as f64 == 1.0 - p as f64 && p > 0.0 && q > 0.0 && q < 1.0 {
            let h = logodds_from_probability(q);
            ensure!((h as f64 + g as f64).abs() <= 2e-6 * (1.0 + g.abs() as f64), "logodds({p}) = {g} but logodds(1-{p}) = {h}");
        }
    }
    let (x, y) = if a <= b { (l[0], l[1]) } else { (l[1], l[0]) };
    if x.is_finite() && y.is_finite() {
        ensure!(y as f64 >= x as f64 - 1e-6 * (1.0 + x.abs() as f64), "not monotone: {a:e} -> {}, {b:e} -> {}", l[0], l[1]);
    } else {
        ensure!(x <= y, "not monotone: {a:e} -> {}, {b:e} -> {}", l[0], l[1]);
    }
    Ok(())
}
fn logodds() -> BoxedStrategy<f32> {
    prop_oneof![
        4 => (-20_000_000i32..=20_000_000).prop_map(|k| k as f32 * 1e-6),
        2 => (-110_000i32..=110_000).prop_map(|k| k as f32 * 1e-3),
        2 => any::<u32>().prop_map(f32::from_bits),
        1 => prop_oneof![Just(f32::INFINITY), Just(f32::NEG_INFINITY), Just(0.0f32), Just(-0.0f32), Just(f32::MAX), Just(f32::MIN)],
        1 => (-40i32..=40).prop_map(|k| nudge(0.0, k)),
        1 => dict_float(0.0, 1e4),
    ]
    .prop_map(|f| if f.is_nan() { 0.25 } else { f })
    .boxed()
}
fn c22_l_strategy() -> BoxedStrategy<Bits2> {
    (logodds(), prop_oneof![2 => logodds().prop_map(Some), 1 => Just(None)], 1i32..=3)
        .prop_map(|(a, b, k)| Bits2 { a: a.to_bits(), b: b.unwrap_or(nudge(a, k)).to_bits(), r: vec![] })
        .boxed()
}
fn c22_l_check(c: &Bits2, obs: &mut Obs) -> R {
    use kuba::math::*;
    let (a, b) = (f32::from_bits(c.a), f32::from_bits(c.b));
    obs.nontrivial_if(a != b && a != 0.0 && a.is_finite());
    let mut g = [0f32; 2];
    for (k, l) in [a, b].into_iter().enumerate() {
        let p = probability_from_logodds(l);
        g[k] = p;
        ensure!((0.0..=1.0).contains(&p), "probability({l}) = {p} is out of range");
        let w = 1.0 / (1.0 + (-(l as f64)).exp());
        ensure!((p as f64 - w).abs() <= 3e-7, "probability({l}) = {p}, expected {w}");
        if l == 0.0 {
            ensure!(p == 0.5, "probability(0) = {p}");
        }
        if l.is_infinite() {
            ensure!(p == if l > 0.0 { 1.0 } else { 0.0 }, "probability({l}) = {p}");
        }
        let m = probability_from_logodds(-l);
        ensure!((m as f64 + p as f64 - 1.0).abs() <= 3e-7, "probability({l}) = {p} but probability({}) = {m}", -l);
        if l.abs() <= 10.0 {
            let back = logodds_from_probability(p);
            let t = 4e-7 / (w * (1.0 - w)) + 4e-6 * (1.0 + l.abs() as f64);
            ensure!((back as f64 - l as f64).abs() <= t, "log-odds {l} -> probability {p} -> {back}");
            obs.label("inverse-checked");
        }
    }
    let (x, y) = if a <= b { (g[0], g[1]) } else { (g[1], g[0]) };
    ensure!(y as f64 >= x as f64 - 2e-7, "not monotone: {a} -> {}, {b} -> {}", g[0], g[1]);
    Ok(())
}
fn c22_s_strategy() -> BoxedStrategy<Bits2> {
    let v = || {
        prop_oneof![
            3 => any::<u32>().prop_map(f32::from_bits),
            2 => (-3i32..=3).prop_map(|k| k as f32),
            1 => (-3i32..=3).prop_map(|k| nudge(0.0, k)),
            1 => prop_oneof![Just(0.0f32), Just(-0.0), Just(f32::INFINITY), Just(f32::NEG_INFINITY)],
        ]
        .prop_map(|f: f32| if f.is_nan() { -1.5 } else { f }.to_bits())
    };
    (v(), prop::collection::vec(v(), 3)).prop_map(|(a, r)| Bits2 { a, b: 0, r }).boxed()
}
fn sign(v: f32) -> f32 {
    if v > 0.0 {
        1.0
    } else if v < 0.0 {
        -1.0
    } else {
        0.0
    }
}
fn c22_s_check(c: &Bits2, obs: &mut Obs) -> R {
    let a = f32::from_bits(c.a);
    ensure!(kuba::math::f32_signum(a) == sign(a), "signum({a:e}) = {}", kuba::math::f32_signum(a));
    let v: Vec<f32> = c.r.iter().map(|b| f32::from_bits(*b)).collect();
    let s3 = kuba::geom::vector::signum(&kuba::Vector3::new(v[0], v[1], v[2]));
    let s2 = kuba::geom::vector::signum(&kuba::Vector2::new(v[0], v[1]));
    for i in 0..3 {
        ensure!(s3[i] == sign(v[i]), "signum of {:?} is {:?}", v, s3);
        if i < 2 {
            ensure!(s2[i] == sign(v[i]), "signum of {:?} is {:?}", &v[..2], s2);
        }
    }
    obs.nontrivial_if(sign(v[0]) != sign(v[1]) || sign(v[1]) != sign(v[2]));
    obs.label_if(v.iter().any(|x| *x == 0.0), "zero-component");
    Ok(())
}
