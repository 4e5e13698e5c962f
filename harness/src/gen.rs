//! Generators shared by the checks. All numeric domains are in cell units first and turned into
//! metres last, so that cell boundaries, tile edges and ties are hit on purpose.
use crate::adapt::{C, P};
use proptest::prelude::*;
use std::sync::OnceLock;

pub struct Dict {
    pub ints: Vec<i64>,
    pub floats: Vec<f32>,
}
/// Numeric literals of the code under test (test modules excluded), as extra values to generate.
/// They only bias generation: no check reads the code to decide anything.
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("KCHECK_REPO").unwrap_or_else(|_| "/repo".into());
        let mut ints = std::collections::BTreeSet::new();
        let mut floats = std::collections::BTreeSet::new();
        let mut stack = vec![std::path::PathBuf::from(root).join("src")];
        while let Some(d) = stack.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    stack.push(p);
                } else if p.extension().is_some_and(|x| x == "rs") {
                    if let Ok(s) = std::fs::read_to_string(&p) {
                        let body = s.split("#[cfg(test)]").next().unwrap_or("");
                        for line in body.lines() {
                            let line = line.split("//").next().unwrap_or("");
                            scan_numbers(line, &mut ints, &mut floats);
                        }
                    }
                }
            }
        }
        for i in [0i64, 1, 2, 100] {
            ints.insert(i);
        }
        Dict { ints: ints.into_iter().collect(), floats: floats.into_iter().map(|b: u32| f32::from_bits(b)).collect() }
    })
}
fn scan_numbers(line: &str, ints: &mut std::collections::BTreeSet<i64>, floats: &mut std::collections::BTreeSet<u32>) {
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
        if b[i].is_ascii_digit() && !prev_ident {
            let s = i;
            let mut dot = false;
            while i < b.len()
                && (b[i].is_ascii_digit()
                    || b[i] == b'_'
                    || (b[i] == b'.' && !dot && i + 1 < b.len() && b[i + 1].is_ascii_digit()))
            {
                dot |= b[i] == b'.';
                i += 1;
            }
            let mut e = i;
            if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                let mut k = i + 1;
                if k < b.len() && (b[k] == b'-' || b[k] == b'+') {
                    k += 1;
                }
                if k < b.len() && b[k].is_ascii_digit() {
                    while k < b.len() && b[k].is_ascii_digit() {
                        k += 1;
                    }
                    dot = true;
                    e = k;
                    i = k;
                }
            }
            let t: String = line[s..e].chars().filter(|c| *c != '_').collect();
            if dot {
                if let Ok(f) = t.parse::<f32>() {
                    if f.is_finite() && f > 0.0 {
                        floats.insert(f.to_bits());
                    }
                }
            }
            if let Ok(f) = t.parse::<f64>() {
                if f.fract() == 0.0 && f.abs() < 1e9 {
                    for d in [-1, 0, 1] {
                        ints.insert(f as i64 + d);
                    }
                }
            }
        } else {
            i += 1;
        }
    }
}

pub fn dict_float(lo: f32, hi: f32) -> BoxedStrategy<f32> {
    let mut v: Vec<f32> = dict().floats.iter().copied().filter(|f| *f >= lo && *f <= hi).collect();
    if v.is_empty() {
        v.push(lo);
    }
    prop::sample::select(v).boxed()
}
pub fn dict_int(lo: i64, hi: i64) -> BoxedStrategy<i64> {
    let mut v: Vec<i64> = dict().ints.iter().flat_map(|i| [*i, -*i]).filter(|f| *f >= lo && *f <= hi).collect();
    v.sort();
    v.dedup();
    if v.is_empty() {
        v.push(lo);
    }
    prop::sample::select(v).boxed()
}

pub fn log_uniform(lo: f32, hi: f32) -> BoxedStrategy<f32> {
    let (a, b) = ((lo as f64).ln(), (hi as f64).ln());
    (0u32..=1_000_000).prop_map(move |k| (a + (b - a) * k as f64 / 1e6).exp() as f32).boxed()
}

/// Cell sizes: usual ones, exact binary ones, arbitrary ones and the code's own constants.
pub fn resolution() -> BoxedStrategy<f32> {
    prop_oneof![
        5 => prop::sample::select(vec![1.0f32, 0.1, 0.5, 0.25, 0.2, 0.05, 2.0, 0.01, 0.3, 10.0]),
        3 => log_uniform(1e-3, 50.0),
        1 => dict_float(1e-3, 100.0),
    ]
    .boxed()
}
/// As above plus the extremes, for the conversions that promise any positive resolution.
pub fn resolution_wide() -> BoxedStrategy<f32> {
    prop_oneof![6 => resolution(), 1 => log_uniform(1e-6, 1e5)].boxed()
}
pub fn resolution_dyadic() -> BoxedStrategy<f32> {
    prop::sample::select(vec![1.0f32, 0.5, 0.25, 0.125, 2.0]).boxed()
}

/// An integer coordinate in [-max, max] with weight on small values and the dictionary.
pub fn coord(max: i64) -> BoxedStrategy<i64> {
    let s = max.min(4);
    let m = max.min(150);
    prop_oneof![
        3 => -s..=s,
        3 => -m..=m,
        2 => -max..=max,
        1 => dict_int(-max, max),
    ]
    .boxed()
}

/// Position inside a cell relative to its centre, in [-0.5, 0.5].
pub fn frac() -> BoxedStrategy<f64> {
    prop_oneof![
        2 => Just(0.0f64),
        4 => (-500_000i32..=500_000).prop_map(|k| k as f64 / 1e6),
        2 => (-8i32..=8).prop_map(|k| k as f64 / 16.0),
        2 => prop_oneof![Just(0.5f64), Just(-0.5)],
        3 => (any::<bool>(), 1u32..=22).prop_map(|(s, k)| {
            let v = 0.5 - 0.25f64.powf(k as f64 / 2.0);
            if s { v } else { -v }
        }),
        1 => (any::<bool>(), 3u32..=22).prop_map(|(s, k)| {
            let v = 0.25f64.powf(k as f64 / 2.0);
            if s { v } else { -v }
        }),
    ]
    .boxed()
}
/// Fractions away from the boundary (at least `m` cells).
pub fn frac_clear(m: f64) -> BoxedStrategy<f64> {
    let k = ((0.5 - m) * 1e6) as i32;
    prop_oneof![1 => Just(0.0f64), 5 => (-k..=k).prop_map(|k| k as f64 / 1e6)].boxed()
}
/// Fractions that are multiples of 1/16 and never on a boundary: exactly representable.
pub fn frac_dyadic() -> BoxedStrategy<f64> {
    (-7i32..=7).prop_map(|k| k as f64 / 16.0).boxed()
}

pub fn arr3<T: Clone + std::fmt::Debug + 'static>(s: BoxedStrategy<T>) -> BoxedStrategy<[T; 3]> {
    (s.clone(), s.clone(), s).prop_map(|(a, b, c)| [a, b, c]).boxed()
}

pub fn dims() -> BoxedStrategy<usize> {
    prop_oneof![Just(2usize), Just(3usize)].boxed()
}

/// Metres of (base + cell + frac) * res, rounded once.
pub fn metres(cell: i64, frac: f64, res: f32) -> f32 {
    ((cell as f64 + frac) * res as f64) as f32
}
pub fn metres3(c: &C, f: &[f64; 3], res: f32, n: usize) -> P {
    let mut p = [0.0; 3];
    for i in 0..n {
        p[i] = metres(c[i], f[i], res);
    }
    p
}
pub fn nudge(v: f32, ulps: i32) -> f32 {
    let mut v = v;
    for _ in 0..ulps.abs() {
        v = if ulps > 0 { v.next_up() } else { v.next_down() };
    }
    v
}

pub const U: f64 = 1.0 / 16_777_216.0;

pub fn tile() -> BoxedStrategy<usize> {
    prop_oneof![
        4 => 1usize..=8,
        2 => 1usize..=40,
        1 => dict_int(1, 64).prop_map(|v| v as usize),
    ]
    .boxed()
}

/// Sizes of bulk inputs: log-uniform, powers of two and round numbers with their neighbours, and the
/// code's own constants.
pub fn bulk(lo: usize, hi: usize) -> BoxedStrategy<usize> {
    let mut marks: Vec<usize> = (0..40)
        .map(|k| 1usize << k)
        .chain([10, 50, 100, 128, 200, 250, 500, 1000, 2000, 2500, 5000, 10_000, 20_000, 50_000, 100_000])
        .flat_map(|v| [v - 1, v, v + 1])
        .filter(|v| *v >= lo && *v <= hi)
        .collect();
    if marks.is_empty() {
        marks.push(hi);
    }
    prop_oneof![
        4 => log_uniform(lo.max(1) as f32, hi as f32).prop_map(move |v| (v as usize).clamp(lo, hi)),
        2 => prop::sample::select(marks),
        2 => dict_int(lo as i64, hi as i64).prop_map(|v| v as usize),
    ]
    .boxed()
}
/// Small deterministic generator for bulk content expanded from a seed (kept out of the case itself
/// so that cases stay small and shrink by size).
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    /// uniform in [-1, 1]
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 52) as f64 - 1.0
    }
}
