//! C08-C10: storage and growth of grid maps.
use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use crate::fast::HashMap;

pub fn defs() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "C08",
            rule: "a case is a history of reads, writes, clones and out-of-range accesses on one map; non-trivial when it writes at least two different cells, reads back, and the shape differs between axes",
            assumptions: &["cell values compare by equality; array indices fit in isize"],
            subs: vec![
                sub("history", 240_000, 12_000_000, || c08_strategy(false), c08_check),
                sub("endurance", 4_000, 160_000, || c08_strategy(true), c08_check),
                sub("large", 10_000, 400_000, c08_large_strategy, c08_large_check),
                sub("type_names", 64, 64, c08_alias_strategy, c08_alias_check),
            ],
        },
        PropDef {
            id: "C09",
            rule: "a case is a history of growth requests and writes against a world-keyed model; non-trivial when the map really grows at least twice with written cells present and the growth shifts the origin on some axis",
            assumptions: &["maps start empty or over a whole number of cells; coordinates representable to well under one cell"],
            subs: vec![
                sub("growth", 40_000, 1_000_000, || grow_strategy(false), |c, o| grow_check(c, o, true)),
                sub("long", 600, 15_000, || grow_strategy(true), |c, o| grow_check(c, o, true)),
                sub("vast", 160, 4_000, || wide_strategy(22), |c, o| grow_check(&c.expand(), o, true)),
                sub("creep", 256, 6_000, || creep_strategy(400), |c, o| grow_check(&c.expand(), o, true)),
            ],
        },
        PropDef {
            id: "C10",
            rule: "a case is a history of growth requests; non-trivial when at least one request has a corner within half a cell of a tile edge or grows the map on fewer than all sides",
            assumptions: &["maps start empty or over a whole number of cells; coordinates representable to well under one cell"],
            subs: vec![
                sub("room", 100_000, 1_000_000, || grow_strategy(false), |c, o| grow_check(c, o, false)),
                sub("long", 1_500, 40_000, || grow_strategy(true), |c, o| grow_check(c, o, false)),
                sub("vast", 1_000, 25_000, || wide_strategy(23), |c, o| grow_check(&c.expand(), o, false)),
                sub("creep", 1_000, 25_000, || creep_strategy(1500), |c, o| grow_check(&c.expand(), o, false)),
                sub("single_request", 400_000, 40_000_000, single_strategy, |c, o| grow_check(c, o, false)),
            ],
        },
    ]
}

// ------------------------------------------------------------------------------------------ C08
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Set(u32, i64),
    Get(u32),
    /// an in-range cell with one or more coordinates moved outside
    Foreign(u32, u8, Out, bool),
    /// clone; continue on the clone (true) or on the original
    Clone(bool),
    /// swap with a previously set-aside map
    Swap,
    Track(bool),
    /// report cells as changed, or forget the reported ones
    Report(u32),
    Forget,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Out {
    Minus(i64),
    Plus(i64),
    /// the in-range coordinate moved by plus or minus 2^k: what a narrower integer would wrap to
    Wrap(u8, bool),
    Min,
    Max,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Store {
    n: usize,
    res: f32,
    size: C,
    off: C,
    elem: u8,
    init: i64,
    ops: Vec<Op>,
}
/// `long`: thousands of operations on one map.
fn c08_strategy(long: bool) -> BoxedStrategy<Store> {
    let out = prop_oneof![
        4 => (1i64..=3).prop_map(Out::Minus),
        4 => (0i64..=3).prop_map(Out::Plus),
        1 => (4i64..=1000).prop_map(Out::Minus),
        1 => (4i64..=1000).prop_map(Out::Plus),
        2 => (7u8..=63, any::<bool>()).prop_map(|(k, m)| Out::Wrap(k, m)),
        2 => (prop_oneof![Just(8u8), Just(16), Just(31), Just(32)], any::<bool>()).prop_map(|(k, m)| Out::Wrap(k, m)),
        1 => Just(Out::Min),
        1 => Just(Out::Max),
    ];
    let op = prop_oneof![
        6 => (any::<u32>(), -3i64..=300).prop_map(|(i, v)| Op::Set(i, v)),
        3 => any::<u32>().prop_map(Op::Get),
        3 => (any::<u32>(), 1u8..8, out, any::<bool>()).prop_map(|(i, a, o, w)| Op::Foreign(i, a, o, w)),
        1 => any::<bool>().prop_map(Op::Clone),
        1 => Just(Op::Swap),
        1 => any::<bool>().prop_map(Op::Track),
        1 => any::<u32>().prop_map(Op::Report),
        1 => Just(Op::Forget),
    ].boxed();
    let op = if long {
        prop_oneof![
            300 => (any::<u32>(), -3i64..=300).prop_map(|(i, v)| Op::Set(i, v)),
            300 => any::<u32>().prop_map(Op::Get),
            100 => any::<u32>().prop_map(Op::Report),
            5 => op,
        ]
        .boxed()
    } else {
        op
    };
    let count = if long { bulk(100, 5000) } else { (1usize..=30).boxed() };
    let dim = prop_oneof![6 => 1i64..=6, 1 => Just(0i64), 1 => 7i64..=40, 1 => dict_int(0, 130)];
    (dims(), resolution(), arr3(dim.boxed()), arr3(coord(300)), 0u8..5, -3i64..=300, count.prop_flat_map(move |k| prop::collection::vec(op.clone(), k..=k)))
        .prop_map(|(n, res, mut size, mut off, elem, init, ops)| {
            for i in n..3 {
                size[i] = 1;
                off[i] = 0;
            }
            if n == 3 {
                for s in size.iter_mut() {
                    *s = (*s).min(24);
                }
            }
            Store { n, res, size, off, elem, init, ops }
        })
        .boxed()
}
fn wrapped(k: i64, bits: u8, down: bool, size: i64) -> i64 {
    let d = 1i64.wrapping_shl(bits as u32);
    let v = if down { k.wrapping_sub(d) } else { k.wrapping_add(d) };
    if v >= 0 && v < size {
        size
    } else {
        v
    }
}
fn nth(i: u32, size: &C, n: usize) -> Option<C> {
    let total: i64 = (0..n).map(|k| size[k]).product();
    if total == 0 {
        return None;
    }
    let mut r = (i as u64 % total as u64) as i64;
    let mut c = [0; 3];
    for k in (0..n).rev() {
        c[k] = r % size[k];
        r /= size[k];
    }
    Some(c)
}
fn c08_check(c: &Store, obs: &mut Obs) -> R {
    match c.elem {
        0 => c08_run::<i32>(c, obs, |v| v as i32),
        1 => c08_run::<f32>(c, obs, |v| v as f32 * 0.25),
        2 => c08_run::<bool>(c, obs, |v| v % 2 == 0),
        3 => c08_run::<char>(c, obs, |v| char::from_u32(0x61 + (v.rem_euclid(0x3000)) as u32).unwrap()),
        _ => c08_run::<(u8, i64)>(c, obs, |v| (v as u8, v)),
    }
}
fn c08_verify<A: na::Scalar>(m: &dyn GMap<A>, model: &HashMap<C, A>, init: &A, size: &C, n: usize, what: &str) -> R {
    let mut want = [1i64; 3];
    want[..n].copy_from_slice(&size[..n]);
    ensure!(m.shape() == want, "{what}: shape became {:?}", m.shape());
    for k in cells(&want, n) {
        let g = m.get(&k);
        let w = model.get(&k).unwrap_or(init);
        ensure!(g == *w, "{what}: cell {:?} holds {:?}, expected {:?}", k, g, w);
    }
    Ok(())
}
fn c08_run<A: na::Scalar>(c: &Store, obs: &mut Obs, val: fn(i64) -> A) -> R {
    let n = c.n;
    let (lo, hi) = size_bounds(n, &c.size, c.res, &c.off);
    let init = val(c.init);
    let mut m = no_panic("GridMapN::new", || new_map::<A>(n, c.res, &lo, &hi, 4, init.clone()))?;
    let mut model: HashMap<C, A> = HashMap::default();
    let (mut track, mut changed): (bool, Vec<C>) = (false, vec![]);
    let mut aside: Vec<(Box<dyn GMap<A>>, HashMap<C, A>, (bool, Vec<C>))> = vec![];
    let (mut sets, mut gets) = (crate::fast::HashSet::default(), 0);
    for (step, op) in c.ops.iter().enumerate() {
        match op {
            Op::Set(i, v) => {
                if let Some(k) = nth(*i, &c.size, n) {
                    no_panic("set", || m.set(&k, val(*v)))?;
                    model.insert(k, val(*v));
                    sets.insert(k);
                    ensure!(m.get(&k) == val(*v), "step {step}: cell {:?} reads {:?} right after writing {:?}", k, m.get(&k), val(*v));
                }
            }
            Op::Get(i) => {
                if let Some(k) = nth(*i, &c.size, n) {
                    let g = no_panic("get", || m.get(&k))?;
                    let w = model.get(&k).unwrap_or(&init);
                    ensure!(g == *w, "step {step}: cell {:?} reads {:?}, expected {:?}", k, g, w);
                    gets += 1;
                }
            }
            Op::Foreign(i, axes, out, write) => {
                let mut k = nth(*i, &c.size, n).unwrap_or([0; 3]);
                let mut any = false;
                for a in 0..n {
                    if axes & (1 << a) != 0 {
                        any = true;
                        k[a] = match out {
                            Out::Minus(d) => -d,
                            Out::Plus(d) => c.size[a] + d,
                            Out::Wrap(b, down) => wrapped(k[a], *b, *down, c.size[a]),
                            Out::Min => i64::MIN,
                            Out::Max => i64::MAX,
                        };
                    }
                }
                if !any {
                    k[0] = -1;
                }
                if *write {
                    must_panic(&format!("step {step}: writing foreign cell {:?} of a map of {:?} cells", k, c.size), || m.set(&k, val(7)))?;
                } else {
                    must_panic(&format!("step {step}: reading foreign cell {:?} of a map of {:?} cells", k, c.size), || m.get(&k))?;
                }
                obs.label("foreign-access");
            }
            Op::Clone(switch) => {
                let d = no_panic("clone", || m.dup())?;
                ensure!(
                    d.bounds() == m.bounds() && d.resolution() == m.resolution() && d.tile() == m.tile() && d.track() == m.track() && d.changed() == m.changed() && d.raw_eq() == m.raw_eq(),
                    "step {step}: the clone differs from the original"
                );
                let keep = if *switch { std::mem::replace(&mut m, d) } else { d };
                obs.label_if(!m.changed().is_empty(), "clone-with-changes");
                aside.push((keep, model.clone(), (track, changed.clone())));
                obs.label("clone");
            }
            Op::Swap => {
                if !aside.is_empty() {
                    let k = step % aside.len();
                    std::mem::swap(&mut m, &mut aside[k].0);
                    std::mem::swap(&mut model, &mut aside[k].1);
                    std::mem::swap(&mut track, &mut aside[k].2 .0);
                    std::mem::swap(&mut changed, &mut aside[k].2 .1);
                }
            }
            Op::Track(b) => {
                m.set_track(*b);
                track = *b;
            }
            Op::Report(i) => {
                if let Some(k) = nth(*i, &c.size, n) {
                    m.add_changed(&[k]);
                    changed.push(k);
                }
            }
            Op::Forget => {
                m.clear_changed();
                changed.clear();
            }
        }
    }
    c08_verify(&*m, &model, &init, &c.size, n, "map")?;
    let same_changes = |m: &dyn GMap<A>, track: bool, changed: &[C], what: &str| -> R {
        let (mut g, mut w) = (m.changed(), changed.to_vec());
        g.sort();
        w.sort();
        ensure!(m.track() == track && g == w, "{what}: tracking {} with reported cells {:?}, expected {} and {:?}", m.track(), g, track, w);
        Ok(())
    };
    same_changes(&*m, track, &changed, "map")?;
    for (m, model, (t, ch)) in &aside {
        c08_verify(&**m, model, &init, &c.size, n, "clone")?;
        same_changes(&**m, *t, ch, "clone")?;
    }
    ensure!(m.bounds() == (lo, hi), "bounds changed by reads and writes");
    let dm = default_map::<A>(n);
    ensure!((0..n).all(|i| dm.shape()[i] == 0), "a default map is not empty: {:?}", dm.shape());
    must_panic("reading cell 0 of an empty map", || dm.get(&[0; 3]))?;
    obs.label_if((0..n).any(|i| c.size[i] == 0), "empty-shape");
    obs.nontrivial_if(sets.len() >= 2 && gets >= 1 && (1..n).any(|i| c.size[i] != c.size[0]));
    Ok(())
}

/// Large maps with bulk writes, expanded from a seed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    n: usize,
    size: C,
    off: C,
    res: f32,
    writes: u32,
    seed: u64,
    /// clone after this many writes and keep writing to one of the two
    clone_at: u32,
    on_clone: bool,
}
fn c08_large_strategy() -> BoxedStrategy<Large> {
    dims()
        .prop_flat_map(|n| {
            let m = if n == 2 { 700 } else { 70 };
            let d = prop_oneof![1 => 1i64..=6, 2 => bulk(6, m).prop_map(|v| v as i64), 3 => (m as i64 / 3)..=(m as i64), 1 => dict_int(1, m as i64)].boxed();
            (Just(n), arr3(d), arr3(coord(1000)), resolution(), bulk(1, 20_000), any::<u64>(), any::<u32>(), any::<bool>())
        })
        .prop_map(|(n, mut size, mut off, res, writes, seed, c, on_clone)| {
            for i in n..3 {
                size[i] = 1;
                off[i] = 0;
            }
            Large { n, size, off, res, writes: writes as u32, seed, clone_at: c % (writes as u32 + 1), on_clone }
        })
        .boxed()
}
fn c08_large_check(c: &Large, obs: &mut Obs) -> R {
    let n = c.n;
    let (lo, hi) = size_bounds(n, &c.size, c.res, &c.off);
    let mut m = no_panic("GridMapN::new", || new_map::<i32>(n, c.res, &lo, &hi, 16, -7))?;
    let total: i64 = (0..n).map(|i| c.size[i]).product();
    let mut model = vec![-7i32; total as usize];
    let mut r = Mix(c.seed);
    let mut other: Option<(Box<dyn GMap<i32>>, Vec<i32>)> = None;
    for w in 0..c.writes {
        if w == c.clone_at {
            let d = no_panic("clone", || m.dup())?;
            let keep = if c.on_clone { std::mem::replace(&mut m, d) } else { d };
            other = Some((keep, model.clone()));
        }
        let i = r.below(total as u64) as u32;
        let k = nth(i, &c.size, n).unwrap();
        let v = r.next() as i32;
        m.set(&k, v);
        model[i as usize] = v;
    }
    for (what, m, model) in std::iter::once(("the map", &m, &model)).chain(other.as_ref().map(|o| ("the clone", &o.0, &o.1))) {
        let mut want = [1i64; 3];
        want[..n].copy_from_slice(&c.size[..n]);
        ensure!(m.shape() == want, "{what} has {:?} cells", m.shape());
        for (k, w) in cells(&want, n).zip(model) {
            ensure!(m.get(&k) == *w, "{what}: cell {:?} holds {}, expected {w}", k, m.get(&k));
        }
        for a in 0..n {
            for b in [0u8, 8, 16, 31, 32] {
                let mut k = nth(r.below(total as u64) as u32, &c.size, n).unwrap();
                k[a] = match b {
                    0 => c.size[a],
                    b => wrapped(k[a], b, r.below(2) == 0, c.size[a]),
                };
                must_panic(&format!("reading cell {:?} of a map of {:?} cells", k, c.size), || m.get(&k))?;
            }
        }
    }
    obs.label_if(total >= 65_536, "65k+cells");
    obs.label_if(other.is_some(), "clone");
    obs.nontrivial_if(c.writes >= 2 && (1..n).any(|i| c.size[i] != c.size[0]));
    Ok(())
}
fn c08_alias_strategy() -> BoxedStrategy<u8> {
    (0u8..1).boxed()
}
/// (spatial dimension, array dimension, element type) of a map type.
trait Kind {
    fn kind() -> (usize, usize, std::any::TypeId);
}
impl<A: 'static, NaD, NdD> Kind for kuba::GridMapN<A, NaD, NdD>
where
    NaD: na::DimName,
    NdD: nd::Dimension,
    na::DefaultAllocator: na::allocator::Allocator<f32, NaD> + na::allocator::Allocator<isize, NaD>,
{
    fn kind() -> (usize, usize, std::any::TypeId) {
        (NaD::dim(), NdD::NDIM.unwrap_or(0), std::any::TypeId::of::<A>())
    }
}
fn c08_alias_check(_: &u8, obs: &mut Obs) -> R {
    use std::any::TypeId;
    obs.nontrivial = true;
    let want = [
        ("GridMap2f", <kuba::GridMap2f as Kind>::kind(), (2, 2, TypeId::of::<f32>())),
        ("GridMap2i", <kuba::GridMap2i as Kind>::kind(), (2, 2, TypeId::of::<i32>())),
        ("GridMap2b", <kuba::GridMap2b as Kind>::kind(), (2, 2, TypeId::of::<bool>())),
        ("GridMap3f", <kuba::GridMap3f as Kind>::kind(), (3, 3, TypeId::of::<f32>())),
        ("GridMap3i", <kuba::GridMap3i as Kind>::kind(), (3, 3, TypeId::of::<i32>())),
        ("GridMap3b", <kuba::GridMap3b as Kind>::kind(), (3, 3, TypeId::of::<bool>())),
        ("GridMap2<u8>", <kuba::GridMap2<u8> as Kind>::kind(), (2, 2, TypeId::of::<u8>())),
        ("GridMap3<u8>", <kuba::GridMap3<u8> as Kind>::kind(), (3, 3, TypeId::of::<u8>())),
    ];
    for (name, got, w) in want {
        ensure!(got == w, "{name} is a {}-dimensional map over a {}-dimensional array (element type as named: {})", got.0, got.1, got.2 == w.2);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C09, C10
#[derive(Clone, Debug, Serialize, Deserialize)]
enum GOp {
    Expand { lo: P, hi: P, v: i32 },
    /// write to the cell at this fraction of the map's extent
    Set([u16; 3], i32),
    Clone(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grow {
    n: usize,
    res: f32,
    tile: usize,
    /// pre-sized map: size and offset in cells
    start: Option<(C, C)>,
    ops: Vec<GOp>,
}
fn axis_request(span: i64) -> BoxedStrategy<(i64, f64, i64, f64, u8)> {
    (-span..=span, frac(), 0i64..=span, frac(), 0u8..8).boxed()
}
fn grow_build(n: usize, res: f32, tile: usize, base: C, start: Option<(C, C)>, ops: Vec<Raw>) -> Grow {
    let t = tile as i64;
    let mut out = vec![];
    for r in ops {
        match r {
            Raw::Expand(ax, v) => {
                let (mut lo, mut hi) = ([0.0; 3], [0.0; 3]);
                for i in 0..n {
                    let (a, fa, len, fb, k) = ax[i];
                    let mut a = base[i] + a;
                    let mut b = a + len;
                    // tile edges
                    if k & 1 != 0 {
                        b = b.div_euclid(t) * t + if k & 4 != 0 { 0 } else { -1 };
                        a = a.min(b);
                    }
                    if k & 2 != 0 {
                        a = a.div_euclid(t) * t + if k & 4 != 0 { -1 } else { 0 };
                    }
                    let (p, q) = (metres(a, fa, res), metres(b, fb, res));
                    lo[i] = p.min(q);
                    hi[i] = p.max(q);
                }
                out.push(GOp::Expand { lo, hi, v });
            }
            Raw::Set(f, v) => out.push(GOp::Set(f, v)),
            Raw::Clone(b) => out.push(GOp::Clone(b)),
        }
    }
    Grow { n, res, tile, start, ops: out }
}
#[derive(Clone, Debug)]
enum Raw {
    Expand([(i64, f64, i64, f64, u8); 3], i32),
    Set([u16; 3], i32),
    Clone(bool),
}
/// `long`: more operations, larger maps, tiles up to the size the library itself uses.
fn grow_strategy(long: bool) -> BoxedStrategy<Grow> {
    (dims(), resolution(), prop_oneof![1 => Just([0i64; 3]), 2 => arr3(coord(3000))])
        .prop_flat_map(move |(n, res, base)| {
            let span = match (n, long) {
                (2, false) => 30i64,
                (2, true) => 90,
                (_, false) => 8,
                (_, true) => 18,
            };
            let size = arr3((1i64..=if n == 2 { 20 } else { 6 }).boxed());
            let start = prop_oneof![
                3 => Just(None),
                2 => (size, arr3((-10i64..=10).boxed())).prop_map(Some),
            ];
            let op = prop_oneof![
                4 => (arr3(axis_request(span)), -5i32..=100).prop_map(|(a, v)| Raw::Expand(a, v)),
                5 => (arr3(any::<u16>().boxed()), -100i32..=100).prop_map(|(f, v)| Raw::Set(f, v)),
                1 => any::<bool>().prop_map(Raw::Clone),
            ];
            let tile = if long {
                let m = if n == 2 { 130 } else { 26 };
                prop_oneof![1 => 1usize..=6, 2 => 6usize..=m, 2 => dict_int(1, m as i64).prop_map(|v| v as usize), 1 => Just(m.min(100))].boxed()
            } else {
                prop_oneof![3 => 1usize..=6, 2 => 1usize..=if n == 2 { 40 } else { 14 }].boxed()
            };
            (Just((n, res, base)), tile, start, prop::collection::vec(op, if long { 10..=50 } else { 1..=14 }))
        })
        .prop_map(|((n, res, mut base), tile, start, ops)| {
            for i in n..3 {
                base[i] = 0;
            }
            let start = start.map(|(mut s, o)| {
                let mut off = [0; 3];
                for i in 0..n {
                    off[i] = base[i] + o[i];
                }
                for i in n..3 {
                    s[i] = 0;
                }
                (s, off)
            });
            grow_build(n, res, tile, base, start, ops)
        })
        .boxed()
}
/// A map that is extended a cell or two at a time, hundreds of times; expanded from a seed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Creep {
    n: usize,
    res: f32,
    tile: usize,
    base: C,
    steps: u32,
    /// how far the map may reach from its base along each axis
    reach: C,
    seed: u64,
}
impl Creep {
    fn expand(&self) -> Grow {
        let mut r = Mix(self.seed);
        let (mut lo, mut hi) = (self.base, self.base);
        let mut ops = vec![];
        for _ in 0..self.steps {
            let a = r.below(self.n as u64) as usize;
            let d = 1 + r.below(2) as i64;
            if r.below(2) == 0 {
                lo[a] = (lo[a] - d).max(self.base[a] - self.reach[a]);
            } else {
                hi[a] = (hi[a] + d).min(self.base[a] + self.reach[a]);
            }
            // the box so far, or only its newest corner
            let part = r.below(3);
            let (mut l, mut h) = ([0.0; 3], [0.0; 3]);
            for i in 0..self.n {
                let (p, q) = match part {
                    0 => (lo[i], lo[i]),
                    1 => (hi[i], hi[i]),
                    _ => (lo[i], hi[i]),
                };
                l[i] = metres(p, r.unit() * 0.5, self.res);
                h[i] = metres(q, r.unit() * 0.5, self.res);
                if l[i] > h[i] {
                    std::mem::swap(&mut l[i], &mut h[i]);
                }
            }
            ops.push(GOp::Expand { lo: l, hi: h, v: r.below(100) as i32 });
            if r.below(3) == 0 {
                ops.push(GOp::Set([0; 3].map(|_: u16| r.next() as u16), r.below(1000) as i32));
            }
        }
        Grow { n: self.n, res: self.res, tile: self.tile, start: None, ops }
    }
}
fn creep_strategy(max: usize) -> BoxedStrategy<Creep> {
    (dims(), resolution(), prop_oneof![1 => Just([0i64; 3]), 2 => arr3(coord(3000))])
        .prop_flat_map(move |(n, res, base)| {
            let reach = if n == 2 { prop_oneof![1 => 2i64..=12, 1 => 10i64..=40].boxed() } else { (1i64..=7).boxed() };
            (Just((n, res, base)), 1usize..=4, bulk(40, max), arr3(reach), any::<u64>())
        })
        .prop_map(|((n, res, mut base), tile, steps, reach, seed)| {
            for i in n..3 {
                base[i] = 0;
            }
            Creep { n, res, tile, base, steps: steps as u32, reach, seed }
        })
        .boxed()
}
/// Few requests, far apart: maps of millions of cells, square or in strips; expanded from a seed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    n: usize,
    res: f32,
    tile: usize,
    base: C,
    /// half-widths of the region in cells
    roam: C,
    steps: u32,
    sized: bool,
    seed: u64,
}
impl Wide {
    fn expand(&self) -> Grow {
        let mut r = Mix(self.seed);
        let start = if self.sized {
            let (mut size, mut off) = ([0; 3], [0; 3]);
            for i in 0..self.n {
                size[i] = 1 + r.below(self.roam[i] as u64 + 1) as i64;
                off[i] = self.base[i] - self.roam[i] + r.below(self.roam[i] as u64 + 1) as i64;
            }
            Some((size, off))
        } else {
            None
        };
        let mut ops = vec![];
        for _ in 0..self.steps {
            let (mut l, mut h) = ([0.0; 3], [0.0; 3]);
            for i in 0..self.n {
                let m = self.roam[i];
                let mut at = || match r.below(10) {
                    0 => -m,
                    1 => m,
                    2 => 0,
                    _ => r.below(2 * m as u64 + 1) as i64 - m,
                };
                let (a, b) = (at(), at());
                // a box, or the neighbourhood of one place
                let b = if r.below(2) == 0 { b } else { a + r.below(3) as i64 };
                l[i] = metres(self.base[i] + a.min(b), r.unit() * 0.5, self.res);
                h[i] = metres(self.base[i] + a.max(b), r.unit() * 0.5, self.res);
                if l[i] > h[i] {
                    std::mem::swap(&mut l[i], &mut h[i]);
                }
            }
            ops.push(GOp::Expand { lo: l, hi: h, v: r.below(100) as i32 });
            for _ in 0..r.below(12) {
                let mut f = [0; 3].map(|_: u16| r.next() as u16);
                // often the far corner
                for x in f.iter_mut() {
                    match r.below(4) {
                        0 => *x = 65_535,
                        1 => *x = 0,
                        _ => {}
                    }
                }
                ops.push(GOp::Set(f, 1000 + r.below(1000) as i32));
            }
        }
        Grow { n: self.n, res: self.res, tile: self.tile, start, ops }
    }
}
fn wide_strategy(most: u32) -> BoxedStrategy<Wide> {
    (dims(), resolution(), prop_oneof![1 => Just([0i64; 3]), 2 => arr3(coord(1500))])
        .prop_flat_map(move |(n, res, base)| {
            let tile = if n == 2 { prop_oneof![1 => 1usize..=10, 1 => 10usize..=150, 1 => Just(100usize)].boxed() } else { prop_oneof![3 => 1usize..=12, 1 => 12usize..=40].boxed() };
            let reach = if n == 2 { 38_000 } else { 1500 };
            (Just((n, res, base)), tile, crate::scan::extents(n, most, reach), 1u32..=5, any::<bool>(), any::<u64>())
        })
        .prop_map(|((n, res, mut base), mut tile, mut roam, steps, sized, seed)| {
            for i in n..3 {
                base[i] = 0;
            }
            crate::scan::fit(n, &mut roam, 4, &mut tile);
            Wide { n, res, tile, base, roam, steps, sized, seed }
        })
        .boxed()
}
fn single_strategy() -> BoxedStrategy<Grow> {
    (dims(), resolution(), prop_oneof![1 => Just([0i64; 3]), 2 => arr3(coord(5000))], 1usize..=8, arr3(axis_request(6)), any::<bool>())
        .prop_map(|(n, res, mut base, tile, ax, sized)| {
            for i in n..3 {
                base[i] = 0;
            }
            let start = if sized {
                let mut s = [0; 3];
                for i in 0..n {
                    s[i] = 2;
                }
                Some((s, base))
            } else {
                None
            };
            grow_build(n, res, tile, base, start, vec![Raw::Expand(ax, 1)])
        })
        .boxed()
}

struct St {
    m: Box<dyn GMap<i32>>,
    /// world cell -> value, for every cell of the map
    model: Dense,
}
/// Reference contents: every cell of a box of world cells.
#[derive(Clone, Default)]
struct Dense {
    lo: C,
    shape: C,
    v: Vec<i32>,
}
impl Dense {
    fn new(lo: C, shape: C, n: usize, v: i32) -> Self {
        let total: i64 = (0..n).map(|i| shape[i].max(0)).product();
        Dense { lo, shape, v: vec![v; total as usize] }
    }
    fn at(&self, k: &C, n: usize) -> Option<usize> {
        let mut x = 0;
        for i in 0..n {
            let q = k[i] - self.lo[i];
            if q < 0 || q >= self.shape[i] {
                return None;
            }
            x = x * self.shape[i] + q;
        }
        Some(x as usize)
    }
}
fn world(m: &dyn GMap<i32>) -> (C, C) {
    let w = world_min(m);
    (w, add(&w, &m.shape()))
}
fn metric_ok(m: &dyn GMap<i32>, n: usize) -> R {
    let (lo, hi) = m.bounds();
    let (r, s) = (m.resolution() as f64, m.shape());
    for i in 0..n {
        for v in [lo[i], hi[i]] {
            let q = v as f64 / r;
            ensure!((q - q.round()).abs() <= 4.0 * U * q.abs() + 1e-9, "a corner of the map's box ({v}) is not on the grid of {}", m.resolution());
        }
        let k = ((hi[i] as f64 - lo[i] as f64) / r).round() as i64;
        ensure!(k == s[i], "axis {i}: the box {} .. {} spans {k} cells but the array has {}", lo[i], hi[i], s[i]);
    }
    Ok(())
}
fn grow_check(c: &Grow, obs: &mut Obs, contents: bool) -> R {
    let n = c.n;
    for op in &c.ops {
        if let GOp::Expand { lo, hi, .. } = op {
            for i in 0..n {
                if 8.0 * U * (lo[i].abs().max(hi[i].abs()) as f64) / c.res as f64 > 0.02 {
                    obs.label("skipped-unrepresentable");
                    return Ok(());
                }
            }
        }
    }
    let (lo, hi) = match &c.start {
        None => ([0.0; 3], [0.0; 3]),
        Some((s, o)) => size_bounds(n, s, c.res, o),
    };
    let m = no_panic("GridMapN::new", || new_map::<i32>(n, c.res, &lo, &hi, c.tile, -7))?;
    let model = if contents { Dense::new(world_min(&*m), m.shape(), n, -7) } else { Dense::default() };
    let mut st = St { m, model };
    let mut aside: Vec<St> = vec![];
    let (mut grown, mut shifted, mut wrote, mut near_edge) = (0, false, false, false);
    for (step, op) in c.ops.iter().enumerate() {
        match op {
            GOp::Set(f, v) => {
                let s = st.m.shape();
                if (0..n).any(|i| s[i] == 0) {
                    continue;
                }
                let mut k = [0i64; 3];
                for i in 0..n {
                    k[i] = f[i] as i64 * s[i] / 65536;
                }
                no_panic("set", || st.m.set(&k, *v))?;
                if contents {
                    let w = world_min(&*st.m);
                    let at = st.model.at(&wkey(&k, &w, n), n).unwrap();
                    st.model.v[at] = *v;
                }
                wrote = true;
            }
            GOp::Clone(switch) => {
                let d = no_panic("clone", || st.m.dup())?;
                let other = St { m: d, model: st.model.clone() };
                let keep = if *switch { std::mem::replace(&mut st, other) } else { other };
                aside.push(keep);
            }
            GOp::Expand { lo, hi, v } => {
                let before = st.m.bounds();
                let empty_before = (0..n).any(|i| st.m.shape()[i] == 0);
                let (w0, e0) = world(&*st.m);
                let old_shape = st.m.shape();
                // a clone that gets the same request right after the map itself
                let twin = if old_shape[..n].iter().product::<i64>() <= 5000 { Some(no_panic("clone", || st.m.dup())?) } else { None };
                no_panic(&format!("step {step}: expand_bounds({:?}, {:?})", lo, hi), || st.m.expand(lo, hi, *v))?;
                if let Some(mut t) = twin {
                    ensure!(t.bounds() == before && t.shape() == old_shape, "step {step}: growing the map changed its clone from {:?} to {:?}", before, t.bounds());
                    no_panic(&format!("step {step}: expand_bounds({:?}, {:?}) on a clone", lo, hi), || t.expand(lo, hi, *v))?;
                    ensure!(t.bounds() == st.m.bounds() && t.shape() == st.m.shape(), "step {step}: the same request makes the map {:?} and its clone {:?}", st.m.bounds(), t.bounds());
                    if contents {
                        ensure!(t.raw_eq() == st.m.raw_eq(), "step {step}: after the same request the map and its clone differ");
                    }
                }
                let (w1, e1) = world(&*st.m);
                metric_ok(&*st.m, n).map_err(|e| format!("step {step}: {e}"))?;
                let same = st.m.bounds() == before && st.m.shape() == old_shape;
                if !same {
                    grown += 1;
                    shifted |= !empty_before && (0..n).any(|i| w1[i] != w0[i]);
                }
                if !empty_before {
                    for i in 0..n {
                        ensure!(w1[i] <= w0[i] && e1[i] >= e0[i], "step {step}: axis {i}: the map shrank from cells {}..{} to {}..{}", w0[i], e0[i], w1[i], e1[i]);
                    }
                }
                if contents {
                    // every world cell: old value, or the default of this request
                    let s = st.m.shape();
                    let mut next = Dense::new(w1, s, n, *v);
                    let mut kept = 0;
                    for (at, k) in cells(&s, n).enumerate() {
                        let key = wkey(&k, &w1, n);
                        let old = st.model.at(&key, n);
                        if let Some(o) = old {
                            next.v[at] = st.model.v[o];
                            kept += 1;
                        }
                        let (got, want) = (st.m.get(&k), next.v[at]);
                        ensure!(
                            got == want,
                            "step {step}: world cell {:?} {} {got}, expected {want} (map was {:?}..{:?}, is {:?}..{:?})",
                            key,
                            if old.is_some() { "held another value before the growth, now" } else { "is new and holds" },
                            w0, e0, w1, e1
                        );
                    }
                    ensure!(kept == st.model.v.len(), "step {step}: {} cells fell out of the map", st.model.v.len() - kept);
                    st.model = next;
                    // centres stay put
                    if !empty_before && (0..n).all(|i| old_shape[i] > 0) {
                        let d = subc(&w0, &w1);
                        let corner_new = st.m.point_from_cell(&d);
                        for i in 0..n {
                            let want = w0[i] as f64 * c.res as f64;
                            ensure!((corner_new[i] as f64 - want).abs() <= 16.0 * U * want.abs().max((w1[i] as f64 * c.res as f64).abs()) + 1e-9, "step {step}: axis {i}: the centre of world cell {} moved to {}", w0[i], corner_new[i]);
                        }
                    }
                } else {
                    c10_room(c, &*st.m, lo, hi, step, same, empty_before, (w0, e0), (w1, e1), &mut near_edge)?;
                    // repeating the request changes nothing
                    let (b, raw) = (st.m.bounds(), st.m.raw_eq());
                    no_panic("repeated expand_bounds", || st.m.expand(lo, hi, v.wrapping_add(1)))?;
                    ensure!(st.m.bounds() == b && st.m.raw_eq() == raw, "step {step}: repeating the request changed the map from {:?} to {:?}", b, st.m.bounds());
                    if !same && !empty_before {
                        near_edge |= (0..n).any(|i| w1[i] == w0[i] && e1[i] == e0[i]);
                    }
                }
            }
        }
    }
    if contents {
        for a in aside.iter().chain([&st]) {
            let w = world_min(&*a.m);
            let s = a.m.shape();
            if (0..n).any(|i| s[i] == 0) {
                continue;
            }
            for k in cells(&s, n) {
                let key = wkey(&k, &w, n);
                let want = a.model.at(&key, n).map(|o| a.model.v[o]);
                ensure!(want == Some(a.m.get(&k)), "at the end world cell {:?} holds {}, expected {:?}", key, a.m.get(&k), want);
            }
        }
        obs.nontrivial_if(grown >= 2 && shifted && wrote);
        obs.label_if(shifted, "origin-shift");
        obs.label_if(!aside.is_empty(), "clone");
    } else {
        obs.nontrivial_if(near_edge);
        obs.label_if(near_edge, "near-tile-edge");
    }
    obs.label_if(grown >= 2, "grown-twice");
    obs.label_if(c.start.is_some(), "pre-sized");
    Ok(())
}
fn wkey(k: &C, w: &C, n: usize) -> C {
    let mut o = add(k, w);
    for i in n..3 {
        o[i] = 0;
    }
    o
}
#[allow(clippy::too_many_arguments)]
fn c10_room(c: &Grow, m: &dyn GMap<i32>, lo: &P, hi: &P, step: usize, same: bool, empty_before: bool, old: (C, C), new: (C, C), near_edge: &mut bool) -> R {
    let n = c.n;
    let r = c.res as f64;
    let t = c.tile as i64;
    // coverage: corners, edges, interior
    let shape = m.shape();
    for mask in 0..27usize {
        let mut p = [0.0f32; 3];
        let mut q = mask;
        for i in 0..n {
            p[i] = match q % 3 {
                0 => lo[i],
                1 => hi[i],
                _ => ((lo[i] as f64 + hi[i] as f64) * 0.5) as f32,
            };
            q /= 3;
        }
        let k = m.cell_from_point(&p);
        ensure!(inside(&k, &shape, n), "step {step}: after a request for {:?}..{:?} the point {:?} falls in cell {:?} of a map of {:?} cells", lo, hi, p, k, shape);
        no_panic("get", || m.get(&k))?;
    }
    for i in 0..n {
        for v in [lo[i], hi[i]] {
            let q = v as f64 / r / t as f64;
            *near_edge |= (q - q.round()).abs() * t as f64 <= 0.5;
        }
        if same {
            continue;
        }
        ensure!(new.0[i].rem_euclid(t) == 0 && new.1[i].rem_euclid(t) == 0, "step {step}: axis {i}: the grown map spans cells {}..{}, not whole tiles of {t}", new.0[i], new.1[i]);
        // tightness
        let (ql, qh) = (lo[i] as f64 / r, hi[i] as f64 / r);
        let (tl, th) = (4.0 * U * ql.abs() + 1e-9, 4.0 * U * qh.abs() + 1e-9);
        let mut a = (ql - 0.5 - tl).ceil() as i64 - 1;
        let mut b = (qh + 0.5 + th).floor() as i64 + 2;
        if !empty_before {
            a = a.min(old.0[i]);
            b = b.max(old.1[i]);
        }
        let wa = a.div_euclid(t) * t;
        let wb = -((-b).div_euclid(t)) * t;
        ensure!(new.0[i] >= wa && new.1[i] <= wb, "step {step}: axis {i}: request {ql}..{qh} (cells), old map {}..{}, tile {t}: grown to {}..{}, more than one extra cell", old.0[i], old.1[i], new.0[i], new.1[i]);
    }
    Ok(())
}
