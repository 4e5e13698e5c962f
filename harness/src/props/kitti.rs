//! C18-C21, C24, C25: sensor-log readers and the replay pipeline.
use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::geo;
use kuba::kitti::{fs as kfs, oxt_reader as oxt, point_cloud_reader as velo};
use kuba::GridMap;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use crate::fast::HashMap;
use std::ffi::{OsStr, OsString};
use std::io::{ErrorKind, Read};
use std::path::{Path, PathBuf};

pub fn defs() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "C18",
            rule: "a case is a list of 16-byte records with a read schedule (chunk sizes, interruptions); non-trivial when it has at least two records and the stream is split or contains special float values",
            assumptions: &["the file fits in memory; records in the machine's native byte order"],
            subs: vec![
                sub("stream", 500_000, 25_000_000, c18_strategy, c18_check),
                sub("large", 500, 20_000, c18_large_strategy, c18_large_check),
                sub("file", 4_000, 300_000, c18_strategy, c18_file_check),
            ],
        },
        PropDef {
            id: "C19",
            rule: "a case is a textual record with an optional origin; non-trivial when at least two of roll, pitch, yaw are non-zero and there are trailing fields or an origin",
            assumptions: &["fields within physical ranges; angles compared at f32 accuracy"],
            subs: vec![sub("record", 1_400_000, 60_000_000, c19_strategy, c19_check)],
        },
        PropDef {
            id: "C20",
            rule: "a case is an origin fix and a displacement of at most 5 km; non-trivial when both components are non-zero and the origin is not within one degree of the equator",
            assumptions: &["WGS84 ellipsoid as the reference earth; one percent plus one millimetre"],
            subs: vec![sub("displacement", 5_000_000, 240_000_000, c20_strategy, c20_check)],
        },
        PropDef {
            id: "C21",
            rule: "a case is a directory of generated files created in a shuffled order; non-trivial when it has at least three files and creation order differs from index order",
            assumptions: &["regular files with zero-padded index names of equal width"],
            subs: vec![
                sub("poses", 6_000, 600_000, || c21_strategy(false), c21_poses),
                sub("scans", 6_000, 600_000, || c21_strategy(false), c21_scans),
                sub("many_poses", 150, 7_500, || c21_strategy(true), c21_poses),
                sub("many_scans", 150, 7_500, || c21_strategy(true), c21_scans),
                sub("big_scans", 400, 7_500, c21_big_strategy, c21_big_check),
            ],
        },
        PropDef {
            id: "C24",
            rule: "a case is a drive written to disk and replayed through readers, transform and map; non-trivial when it has at least two frames with different yaw and at least one in-range and one shared or out-of-range return",
            assumptions: &["returns whose cell or range decision lies within float rounding of a boundary are not compared"],
            subs: vec![
                sub("replay", 8_000, 200_000, || c24_strategy(false), c24_check),
                sub("long", 300, 8_000, || c24_strategy(true), c24_check),
                sub("endurance", 64, 2_000, || c24_drive(bulk(60, 700), 3, true), c24_check),
                sub("dense", 64, 1_000, c24_dense_strategy, |c, o| c24_check(&c.expand(), o)),
            ],
        },
        PropDef {
            id: "C25",
            rule: "a case is a malformed or failing input (or arbitrary bytes); non-trivial when the input is close to valid: at least one whole record or five valid fields precede the fault",
            assumptions: &["read errors other than Interrupted (which std retries)"],
            subs: vec![
                sub("scan_stream", 500_000, 24_000_000, c25_scan_strategy, c25_scan_check),
                sub("large_stream", 4_000, 48_000, c25_large_strategy, c25_large_check),
                sub("record", 500_000, 24_000_000, c25_rec_strategy, c25_rec_check),
                sub("arbitrary", 600_000, 30_000_000, c25_any_strategy, c25_any_check),
                sub("directory", 8_000, 600_000, c25_dir_strategy, c25_dir_check),
                sub("large_directory", 300, 12_000, c25_many_strategy, c25_many_check),
            ],
        },
    ]
}

// ------------------------------------------------------------------------------------- plumbing
/// Scratch directory of one case, removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let mk = |b: PathBuf| {
            let p = b.join(format!("kcheck-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
            std::fs::create_dir(&p).map(|_| p)
        };
        Scratch(mk(base).or_else(|_| mk(std::env::temp_dir())).expect("scratch directory"))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// One read call: deliver up to k bytes, or interrupt.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Give(u16),
    Interrupt,
}
struct Feed<'a> {
    data: &'a [u8],
    pos: usize,
    sched: &'a [Step],
    at: usize,
    /// after this many bytes, fail with this error on every further read
    fail: Option<(usize, ErrorKind)>,
}
impl Read for Feed<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut max = usize::MAX;
        if !self.sched.is_empty() {
            let s = &self.sched[self.at % self.sched.len()];
            self.at += 1;
            match s {
                Step::Interrupt => {
                    // never interrupt for ever
                    if self.at % self.sched.len() != 0 || self.sched.iter().any(|s| matches!(s, Step::Give(_))) {
                        return Err(ErrorKind::Interrupted.into());
                    }
                }
                Step::Give(k) => max = (*k as usize).max(1),
            }
        }
        let mut left = self.data.len() - self.pos;
        if let Some((at, kind)) = self.fail {
            if self.pos >= at {
                return Err(kind.into());
            }
            left = left.min(at - self.pos);
        }
        let k = buf.len().min(max).min(left);
        buf[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
fn sched() -> BoxedStrategy<Vec<Step>> {
    let s = prop_oneof![
        4 => (1u16..=20).prop_map(Step::Give),
        2 => (1u16..=3).prop_map(Step::Give),
        1 => any::<u16>().prop_map(Step::Give),
        2 => Just(Step::Interrupt),
    ];
    prop_oneof![1 => Just(vec![]), 4 => prop::collection::vec(s, 1..=8)].boxed()
}
fn bits() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => any::<u32>(),
        4 => (-50_000i32..=50_000).prop_map(|k| (k as f32 * 0.001).to_bits()),
        2 => prop_oneof![Just(0u32), Just(0x8000_0000), Just(1), Just(0x7f80_0000), Just(0xff80_0000), Just(0x7fc0_0000), Just(0x7fa0_1234), Just(0xffff_ffff), Just(0x3f80_0000)],
    ]
    .boxed()
}
fn encode(recs: &[[u32; 4]]) -> Vec<u8> {
    recs.iter().flat_map(|r| r.iter().flat_map(|b| b.to_ne_bytes())).collect()
}
fn scan_matches(pc: &kuba::PointCloud3, recs: &[[u32; 4]]) -> R {
    ensure!(pc.num_points() == recs.len(), "{} records decode to {} points", recs.len(), pc.num_points());
    let mut k = 0;
    for p in pc.points_iter() {
        for i in 0..3 {
            let (g, w) = (p[i].to_bits(), recs[k][i]);
            // a NaN payload may be quieted in transit, but stays that NaN
            let ok = g == w || (f32::from_bits(w).is_nan() && g == w | 0x0040_0000);
            ensure!(ok, "record {k} coordinate {i}: {:#010x} decoded as {:#010x}", w, g);
        }
        k += 1;
    }
    ensure!(k == recs.len(), "iteration yields {k} of {} points", recs.len());
    Ok(())
}

// ------------------------------------------------------------------------------------------ C18
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    recs: Vec<[u32; 4]>,
    sched: Vec<Step>,
    /// reads on the same thread just before this one; their outcome is not looked at
    #[serde(default)]
    before: Vec<Before>,
}
/// An earlier read: of this many bytes, either ending there or failing there.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Before {
    bytes: u16,
    fail: Option<u8>,
}
fn befores() -> BoxedStrategy<Vec<Before>> {
    let b = (prop_oneof![0u16..=70, 0u16..=3000], prop::option::of(any::<u8>())).prop_map(|(bytes, fail)| Before { bytes, fail });
    prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(b, 1..=3)].boxed()
}
impl Before {
    /// `text` repeated, and the fault.
    fn feed(&self, text: &[u8]) -> (Vec<u8>, Option<(usize, ErrorKind)>) {
        let data: Vec<u8> = text.iter().copied().cycle().take(if text.is_empty() { 0 } else { self.bytes as usize }).collect();
        let fail = self.fail.map(|k| (data.len(), kinds(k)));
        (data, fail)
    }
}
fn c18_strategy() -> BoxedStrategy<Stream> {
    let rec = (bits(), bits(), bits(), bits()).prop_map(|(a, b, c, d)| [a, b, c, d]);
    (prop::collection::vec(rec, 0..=24), sched(), befores()).prop_map(|(recs, sched, before)| Stream { recs, sched, before }).boxed()
}
fn c18_check(c: &Stream, obs: &mut Obs) -> R {
    let data = encode(&c.recs);
    for b in &c.before {
        let (data, fail) = b.feed(&[9, 8, 7, 6, 5, 4, 3, 2, 1]);
        let _ = no_panic("read", || velo::read(&mut Feed { data: &data, pos: 0, sched: &c.sched, at: 0, fail }))?;
        obs.label_if(fail.is_some(), "after-a-failed-read");
    }
    let mut f = Feed { data: &data, pos: 0, sched: &c.sched, at: 0, fail: None };
    let pc = no_panic("read", || velo::read(&mut f))?.map_err(|e| format!("a stream of {} whole records is refused: {e}", c.recs.len()))?;
    scan_matches(&pc, &c.recs)?;
    let special = c.recs.iter().flatten().any(|b| !f32::from_bits(*b).is_normal());
    obs.label_if(c.sched.iter().any(|s| matches!(s, Step::Interrupt)), "interrupted");
    obs.label_if(c.recs.is_empty(), "empty");
    obs.nontrivial_if(c.recs.len() >= 2 && (c.sched.len() >= 2 || special));
    Ok(())
}
fn c18_file_check(c: &Stream, obs: &mut Obs) -> R {
    let d = Scratch::new();
    let p = d.0.join("0000000000.bin");
    std::fs::write(&p, encode(&c.recs)).map_err(|e| format!("scratch: {e}"))?;
    let pc = no_panic("read_from_file", || velo::read_from_file(&p))?.map_err(|e| format!("a file of {} whole records is refused: {e}", c.recs.len()))?;
    scan_matches(&pc, &c.recs)?;
    // the same file, written again with other contents
    let mut other = c.recs.clone();
    other.reverse();
    if let Some(f) = other.first_mut() {
        f[1] ^= 0x0080_0000;
    }
    std::fs::write(&p, encode(&other)).map_err(|e| format!("scratch: {e}"))?;
    let pc = no_panic("read_from_file", || velo::read_from_file(&p))?.map_err(|e| format!("a rewritten file of {} whole records is refused: {e}", other.len()))?;
    scan_matches(&pc, &other).map_err(|e| format!("after the file was rewritten: {e}"))?;
    obs.nontrivial_if(c.recs.len() >= 2);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    n: u32,
    seed: u64,
    chunk: u32,
}
fn c18_large_strategy() -> BoxedStrategy<Big> {
    let n = prop_oneof![
        3 => 1u32..=300_000,
        2 => (prop_oneof![Just(1024u32), Just(2048), Just(4096), Just(8192), Just(16384), Just(32768), Just(65536), Just(131072), Just(100_000), Just(262_144), Just(200_000)], -2i32..=2).prop_map(|(a, d)| (a as i32 + d) as u32),
        1 => dict_int(1, 300_000).prop_map(|v| v as u32),
        1 => 300_000u32..=1_400_000,
        1 => (prop_oneof![Just(524_288u32), Just(1_000_000), Just(1_048_576), Just(500_000)], -1i32..=2000).prop_map(|(a, d)| (a as i32 + d) as u32),
    ];
    (n, any::<u64>(), prop_oneof![Just(65_535u32), 1000u32..=60_000]).prop_map(|(n, seed, chunk)| Big { n, seed, chunk }).boxed()
}
fn c18_large_check(c: &Big, obs: &mut Obs) -> R {
    let mut x = c.seed | 1;
    let mut next = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 20) as u32
    };
    let recs: Vec<[u32; 4]> = (0..c.n).map(|_| [next(), next(), next(), next()]).collect();
    let data = encode(&recs);
    let sched = [Step::Give(c.chunk as u16)];
    let mut f = Feed { data: &data, pos: 0, sched: &sched, at: 0, fail: None };
    let pc = no_panic("read", || velo::read(&mut f))?.map_err(|e| format!("{} records refused: {e}", c.n))?;
    obs.nontrivial = true;
    obs.label_if(c.n >= 65_536, "65k+records");
    scan_matches(&pc, &recs)
}

// ------------------------------------------------------------------------------------------ C19
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Record {
    fields: Vec<String>,
    newline: bool,
    origin: Option<[f64; 3]>,
    /// use the record's own fix as origin
    own: bool,
    sched: Vec<Step>,
    #[serde(default)]
    before: Vec<Before>,
}
/// A number in one of the spellings a log may contain.
fn spell(v: f64, style: u8) -> String {
    match style {
        0..=3 => format!("{v}"),
        4 => format!("{v:.10}"),
        5 => format!("{v:.14}"),
        6 => format!("{v:e}"),
        7 => {
            if v >= 0.0 {
                format!("+{v}")
            } else {
                format!("{v}")
            }
        }
        8 => format!("{v:.3}"),
        _ => format!("{v:E}"),
    }
}
fn number(lo: f64, hi: f64) -> BoxedStrategy<String> {
    let v = prop_oneof![
        5 => (0u32..=1_000_000_000).prop_map(move |k| lo + (hi - lo) * k as f64 / 1e9),
        1 => Just(0.0f64),
        1 => (lo.ceil() as i64..=hi.floor() as i64).prop_map(|k| k as f64),
        1 => Just(lo),
        1 => Just(hi),
    ];
    (v, 0u8..10).prop_map(|(v, s)| spell(v, s)).boxed()
}
fn angle() -> BoxedStrategy<String> {
    prop_oneof![
        5 => number(-std::f64::consts::PI, std::f64::consts::PI),
        2 => prop_oneof![Just("0"), Just("1.5707963267949"), Just("-1.5707963267949"), Just("3.14159265358979"), Just("0.000001"), Just("-0.0")].prop_map(|s| s.to_string()),
        1 => number(-20.0, 20.0),
    ]
    .boxed()
}
fn fields() -> BoxedStrategy<Vec<String>> {
    let t = |n| prop::collection::vec(number(-1000.0, 1000.0), n);
    let tail = prop_oneof![2 => Just(vec![]).boxed(), 3 => t(1usize..=24).boxed(), 1 => t(24usize..=24).boxed()];
    (number(-90.0, 90.0), number(-180.0, 180.0), number(-500.0, 9000.0), angle(), angle(), angle(), tail)
        .prop_map(|(a, b, c, d, e, f, t)| {
            let mut v = vec![a, b, c, d, e, f];
            v.extend(t);
            v
        })
        .boxed()
}
fn c19_strategy() -> BoxedStrategy<Record> {
    let co = |m: f64| prop_oneof![6 => -m..m, 1 => Just(0.0f64), 1 => (-(m as i64)..=m as i64).prop_map(|k| k as f64), 1 => Just(-0.0f64)];
    let o = prop_oneof![
        8 => (co(90.0), co(180.0), prop_oneof![6 => -500.0f64..9000.0, 1 => Just(0.0f64), 1 => (-500i32..9000).prop_map(|k| k as f64)]).prop_map(|(a, b, c)| [a, b, c]),
        1 => Just([0.0f64; 3]),
    ];
    let o = prop::option::of(o);
    (fields(), any::<bool>(), o, 0u8..4, sched(), befores())
        .prop_map(|(fields, nl, origin, own, sched, before)| Record { newline: nl && fields.len() > 6, fields, origin, own: own == 0, sched, before })
        .boxed()
}
fn text(c: &Record) -> String {
    let mut s = c.fields.join(" ");
    if c.newline {
        s.push('\n');
    }
    s
}
fn rot64(r: f64, p: f64, y: f64) -> [[f64; 3]; 3] {
    let (sr, cr, sp, cp, sy, cy) = (r.sin(), r.cos(), p.sin(), p.cos(), y.sin(), y.cos());
    [
        [cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
        [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
        [-sp, cp * sr, cp * cr],
    ]
}
fn c19_check(c: &Record, obs: &mut Obs) -> R {
    let t = text(c);
    let v: Vec<f64> = c.fields.iter().map(|f| f.parse::<f64>().unwrap()).collect();
    let origin = if c.own { Some([v[0], v[1], v[2]]) } else { c.origin };
    for (i, b) in c.before.iter().enumerate() {
        let (data, fail) = b.feed(b"47.25 8.5 430 0.125 -0.5 1.75 3 1 ");
        let o = [None, Some(na::Translation3::new(1.0, 2.0, 3.0))][i % 2];
        let _ = no_panic("read", || oxt::read(&mut Feed { data: &data, pos: 0, sched: &c.sched, at: 0, fail }, o))?;
        obs.label_if(fail.is_some(), "after-a-failed-read");
    }
    let mut f = Feed { data: t.as_bytes(), pos: 0, sched: &c.sched, at: 0, fail: None };
    let (pose, fix) = no_panic("read", || oxt::read(&mut f, origin.map(|o| na::Translation3::new(o[0], o[1], o[2]))))?
        .map_err(|e| format!("record {t:?} is refused: {e}"))?;
    let m = pose.rotation.to_rotation_matrix();
    let w = rot64(v[3], v[4], v[5]);
    for i in 0..3 {
        for j in 0..3 {
            let tol = 4e-6 * (1.0 + v[3].abs() + v[4].abs() + v[5].abs());
            ensure!((m[(i, j)] as f64 - w[i][j]).abs() <= tol, "roll {} pitch {} yaw {}: rotation matrix entry ({i},{j}) is {}, expected {}", v[3], v[4], v[5], m[(i, j)], w[i][j]);
        }
    }
    let tr = pose.translation.vector;
    match origin {
        None => {
            ensure!(tr[0] == 0.0 && tr[1] == 0.0 && tr[2] == 0.0, "translation {:?} without an origin", tr);
            for i in 0..3 {
                ensure!(fix.vector[i] == v[i], "fix component {i} is {}, record says {}", fix.vector[i], v[i]);
            }
        }
        Some(o) => {
            for i in 0..3 {
                ensure!(fix.vector[i].to_bits() == o[i].to_bits(), "the origin {:?} comes back as {:?}", o, fix.vector);
            }
            let dz = v[2] - o[2];
            ensure!((tr[2] as f64 - dz).abs() <= 4.0 * U * (dz.abs() + o[2].abs() * 1e-6) + 1e-9, "altitude difference {dz} gives z {}", tr[2]);
            if o == [v[0], v[1], v[2]] {
                ensure!(tr[0] == 0.0 && tr[1] == 0.0 && tr[2] == 0.0, "a record at the origin has translation {:?}", tr);
                obs.label("at-origin");
            }
        }
    }
    obs.label_if(c.fields.len() == 6, "six-fields");
    let nz = v[3..6].iter().filter(|a| **a != 0.0).count();
    obs.nontrivial_if(nz >= 2 && (c.fields.len() > 6 || origin.is_some()));
    Ok(())
}

// ------------------------------------------------------------------------------------------ C20
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fixes {
    lat: f64,
    lon: f64,
    /// displacement in metres
    east: f64,
    north: f64,
    alt: (f64, f64),
}
fn c20_strategy() -> BoxedStrategy<Fixes> {
    let lat = prop_oneof![
        5 => (-80_000_000i64..=80_000_000).prop_map(|k| k as f64 * 1e-6),
        2 => (-500i64..=500).prop_map(|k| k as f64 * 1e-4),
        1 => (-80i64..=80).prop_map(|k| k as f64),
        1 => prop_oneof![Just(80.0f64), Just(-80.0), Just(49.0), Just(0.0)],
    ];
    let lon = prop_oneof![
        5 => (-180_000_000i64..=180_000_000).prop_map(|k| k as f64 * 1e-6),
        2 => (-500i64..=500).prop_map(|k| k as f64 * 1e-4),
        3 => ((-500i64..=500), any::<bool>()).prop_map(|(k, s)| { let v = 180.0 - k.abs() as f64 * 1e-4; if s { v } else { -v } }),
        1 => (-180i64..=180).prop_map(|k| k as f64),
    ];
    let m = || prop_oneof![
        4 => (-5_000_000i64..=5_000_000).prop_map(|k| k as f64 * 1e-3),
        2 => (-100_000i64..=100_000).prop_map(|k| k as f64 * 1e-3),
        1 => Just(0.0f64),
    ];
    (lat, lon, m(), m(), (0.0f64..500.0, 0.0f64..500.0)).prop_map(|(lat, lon, east, north, alt)| Fixes { lat, lon, east, north, alt }).boxed()
}
const WGS_A: f64 = 6_378_137.0;
const WGS_E2: f64 = 0.006_694_379_990_14;
fn radii(lat_deg: f64) -> (f64, f64) {
    let s = lat_deg.to_radians().sin();
    let w = 1.0 - WGS_E2 * s * s;
    (WGS_A * (1.0 - WGS_E2) / w.powf(1.5), WGS_A / w.sqrt())
}
/// East, north, up in metres from fix `a` to the nearby fix `b` (WGS84, mid-latitude radii).
fn displacement(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    let mid = 0.5 * (a[0] + b[0]);
    let (m, n) = radii(mid);
    let mut dlon = b[1] - a[1];
    dlon -= 360.0 * (dlon / 360.0).round();
    [n * mid.to_radians().cos() * dlon.to_radians(), m * (b[0] - a[0]).to_radians(), b[2] - a[2]]
}
fn c20_check(c: &Fixes, obs: &mut Obs) -> R {
    let (m, _) = radii(c.lat);
    let lat2 = (c.lat + (c.north / m).to_degrees()).clamp(-80.0, 80.0);
    let mid = 0.5 * (c.lat + lat2);
    let (mm, nn) = radii(mid);
    let dlon = (c.east / (nn * mid.to_radians().cos())).to_degrees();
    let mut lon2 = c.lon + dlon;
    if lon2 > 180.0 {
        lon2 -= 360.0;
    }
    if lon2 < -180.0 {
        lon2 += 360.0;
    }
    let east = nn * mid.to_radians().cos() * dlon.to_radians();
    let north = mm * (lat2 - c.lat).to_radians();
    let t = format!("{} {} {} 0 0 0", lat2, lon2, c.alt.1);
    let (pose, _) = no_panic("read", || oxt::read(&mut t.as_bytes(), Some(na::Translation3::new(c.lat, c.lon, c.alt.0))))?
        .map_err(|e| format!("record {t:?} refused: {e}"))?;
    let g = pose.translation.vector;
    for (what, got, want) in [("east", g[0] as f64, east), ("north", g[1] as f64, north)] {
        ensure!(
            (got - want).abs() <= 0.01 * want.abs() + 1e-3,
            "from ({}, {}) to ({lat2}, {lon2}): {want:.3} m {what}, reported {got:.3} m",
            c.lat,
            c.lon
        );
    }
    let dz = c.alt.1 - c.alt.0;
    ensure!((g[2] as f64 - dz).abs() <= 1e-3, "altitude difference {dz} reported as {}", g[2]);
    obs.label_if((lon2 - c.lon).abs() > 180.0, "across-180");
    obs.label_if(lat2 * c.lat < 0.0, "across-equator");
    obs.label_if(lon2 * c.lon < 0.0 && (lon2 - c.lon).abs() < 180.0, "across-greenwich");
    obs.nontrivial_if(c.east != 0.0 && c.north != 0.0 && c.lat.abs() > 1.0);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C21
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Drive {
    /// strictly increasing file indices
    idx: Vec<u64>,
    width: usize,
    /// creation order (permutation keys)
    order: Vec<u32>,
    recs: Vec<Vec<String>>,
    scans: Vec<Vec<[u32; 4]>>,
    print: bool,
    /// files stored elsewhere, with a link to them in the directory (per file; missing = none)
    #[serde(default)]
    link: Vec<bool>,
    /// what follows the index in the file names (0: the usual extension)
    #[serde(default)]
    ext: u8,
}
/// Writes file `i` of the drive: in place, or elsewhere with a link in the directory.
fn put(c: &Drive, i: usize, dir: &Path, store: &Path, name: &OsStr, data: &[u8]) -> R {
    let p = dir.join(name);
    if c.link.get(i).copied().unwrap_or(false) {
        let t = store.join(format!("s{i}"));
        std::fs::write(&t, data).and_then(|_| std::os::unix::fs::symlink(&t, &p)).map_err(|e| format!("scratch: {e}"))
    } else {
        std::fs::write(&p, data).map_err(|e| format!("scratch: {e}"))
    }
}
/// A few frames with large scans (sizes), expanded from a seed.
fn c21_big_strategy() -> BoxedStrategy<(Vec<u32>, u64)> {
    (prop::collection::vec(prop_oneof![2 => bulk(1, 30_000), 1 => 0usize..=4].prop_map(|v| v as u32), 1..=5), any::<u64>()).boxed()
}
fn c21_big_check(c: &(Vec<u32>, u64), obs: &mut Obs) -> R {
    let d = Scratch::new();
    let mut r = Mix(c.1);
    let scans: Vec<Vec<[u32; 4]>> = c.0.iter().map(|k| (0..*k).map(|_| [0; 4].map(|_: u32| r.next() as u32)).collect()).collect();
    for i in (0..scans.len()).rev() {
        std::fs::write(d.0.join(format!("{i:010}.bin")), encode(&scans[i])).map_err(|e| format!("scratch: {e}"))?;
    }
    let got = no_panic("read_from_dir", || velo::read_from_dir(&d.0, false))?.map_err(|e| format!("the drive is refused: {e}"))?;
    ensure!(got.len() == scans.len(), "{} files, {} clouds", scans.len(), got.len());
    for i in 0..got.len() {
        scan_matches(&got[i], &scans[i]).map_err(|e| format!("cloud {i}: {e}"))?;
    }
    obs.label_if(c.0.iter().any(|k| *k >= 4096), "scan-over-64-kB");
    obs.nontrivial_if(c.0.len() >= 2);
    Ok(())
}
fn c21_strategy(many: bool) -> BoxedStrategy<Drive> {
    let count = if many { bulk(130, 1300) } else { prop_oneof![6 => 0usize..=9, 2 => 9usize..=25, 1 => 99usize..=130].boxed() };
    count
        .prop_flat_map(|k| {
            let rec = (bits(), bits(), bits(), bits()).prop_map(|(a, b, c, d)| [a, b, c, d]);
            let near = (fields(), prop::option::weighted(0.6, ((-1i32..=1).prop_map(|k| k as f64), prop::array::uniform3(-1000i32..=1000), prop_oneof![Just(1e-9f64), Just(1e-8), Just(1e-7), Just(1e-6)])));
            (
                prop::collection::vec(prop_oneof![4 => Just(1u64), 2 => 1u64..=5, 1 => 1u64..=300], k),
                prop_oneof![3 => 0u64..=12, 1 => prop_oneof![Just(90u64), Just(990), Just(9_990), Just(99_990), Just(999_990), Just(65_530), Just(4_294_967_290)]],
                prop_oneof![3 => Just(10usize), 1 => 6usize..=12],
                prop::collection::vec(any::<u32>(), k),
                prop::collection::vec(near, k),
                prop::collection::vec(prop::collection::vec(rec, 0..=4), k),
                (any::<bool>(), prop_oneof![4 => Just(0u8), 1 => 1u8..=6]),
                prop_oneof![3 => Just(vec![]).boxed(), 1 => prop::collection::vec(any::<bool>(), k).boxed(), 1 => Just(vec![true; k]).boxed()],
            )
        })
        .prop_map(|(gaps, first, width, order, recs, scans, (print, ext), link)| {
            let mut idx = vec![];
            let mut at = first;
            for g in gaps {
                idx.push(at);
                at += g;
            }
            let mut recs: Vec<(Vec<String>, Option<_>)> = recs;
            // some frames lie close to the first one (millimetres to a hundred metres)
            let first: Option<Vec<f64>> = recs.first().map(|r| r.0.iter().take(3).map(|f| f.parse().unwrap()).collect());
            for (f, near) in recs.iter_mut() {
                if let (Some((s, d, scale)), Some(o)) = (near, &first) {
                    f[0] = format!("{}", o[0] + *s * d[0] as f64 * *scale);
                    f[1] = format!("{}", o[1] + d[1] as f64 * *scale);
                    f[2] = format!("{}", o[2] + d[2] as f64 * 1e-3);
                }
            }
            let recs = recs.into_iter().map(|(f, _)| f).collect();
            let width = width.max(format!("{at}").len());
            Drive { idx, width, order, recs, scans, print, link, ext }
        })
        .boxed()
}
fn creation(c: &Drive) -> Vec<usize> {
    let mut o: Vec<usize> = (0..c.idx.len()).collect();
    o.sort_by_key(|i| (c.order[*i], *i));
    o
}
fn name(c: &Drive, i: usize, ext: &str) -> OsString {
    let mut s = OsString::from(format!("{:0w$}", c.idx[i], w = c.width));
    s.push(odd_ext(c.ext, ext));
    s
}
/// What may follow the index in a file name.
fn odd_ext(k: u8, usual: &str) -> OsString {
    use std::os::unix::ffi::OsStringExt;
    match k {
        0 => OsString::from(format!(".{usual}")),
        1 => OsString::new(),
        2 => OsString::from(".DAT"),
        3 => OsString::from(".0.gz"),
        4 => OsString::from(" (1).größe"),
        5 => OsString::from(".a\nb"),
        _ => OsString::from_vec(vec![b'.', b'b', 0xff, 0xfe]),
    }
}
fn shuffled(c: &Drive) -> bool {
    c.idx.len() >= 3 && creation(c).windows(2).any(|w| w[0] > w[1])
}
fn c21_poses(c: &Drive, obs: &mut Obs) -> R {
    let (d, store) = (Scratch::new(), Scratch::new());
    for i in creation(c) {
        put(c, i, &d.0, &store.0, &name(c, i, "txt"), c.recs[i].join(" ").as_bytes())?;
    }
    obs.label_if(c.link.iter().any(|l| *l), "linked-files");
    let mut all: Vec<usize> = (0..c.idx.len()).collect();
    c21_poses_of(c, &d.0, &all, obs)?;
    // the directory again, after its first frame has gone
    if all.len() >= 2 {
        std::fs::remove_file(d.0.join(name(c, 0, "txt"))).map_err(|e| format!("scratch: {e}"))?;
        all.remove(0);
        c21_poses_of(c, &d.0, &all, obs).map_err(|e| format!("after the first frame was removed: {e}"))?;
    }
    // every record rewritten in place, as long as before: roll and pitch exchanged
    let mut other = c.clone();
    for i in all.iter().copied() {
        other.recs[i].swap(3, 4);
        std::fs::write(d.0.join(name(c, i, "txt")), other.recs[i].join(" ")).map_err(|e| format!("scratch: {e}"))?;
    }
    c21_poses_of(&other, &d.0, &all, obs).map_err(|e| format!("after the records were rewritten: {e}"))?;
    obs.label_if(c.idx.is_empty(), "empty-directory");
    obs.label_if(c.idx.windows(2).any(|w| w[1] > w[0] + 1), "gaps");
    obs.nontrivial_if(shuffled(c));
    Ok(())
}
/// The directory holds the frames `which` of the drive.
fn c21_poses_of(c: &Drive, d: &Path, which: &[usize], obs: &mut Obs) -> R {
    let listed = no_panic("seq_files_in_dir", || kfs::seq_files_in_dir(d))?.map_err(|e| format!("listing failed: {e}"))?;
    obs.label_if(c.print, "with-progress");
    obs.label_if(c.ext != 0, "odd-extension");
    let want: Vec<PathBuf> = which.iter().map(|i| d.join(name(c, *i, "txt"))).collect();
    ensure!(listed == want, "files are listed as {:?}", listed.iter().map(|p| p.file_name().unwrap().to_owned()).take(12).collect::<Vec<_>>());
    let poses = no_panic("read_from_dir", || oxt::read_from_dir(d, c.print))?.map_err(|e| format!("the drive is refused: {e}"))?;
    ensure!(poses.len() == which.len(), "{} files, {} poses", which.len(), poses.len());
    let num = |i: usize, k: usize| c.recs[i][k].parse::<f64>().unwrap();
    let mut origin = None;
    for (at, i) in which.iter().copied().enumerate() {
        let (p, o) = oxt::read_from_file(&want[at], origin).map_err(|e| format!("{e}"))?;
        origin = Some(o);
        let pose = &poses[at];
        ensure!(p.translation == pose.translation && p.rotation == pose.rotation, "pose {at} is {:?}; reading file {i} with the first fix as origin gives {:?}", pose, p);
        let first: Vec<f64> = (0..3).map(|k| num(which[0], k)).collect();
        ensure!((0..3).all(|k| o.vector[k] == first[k]), "after record {i} the origin is {:?}, the first fix {:?}", o.vector, first);
        let r = rot64(num(i, 3), num(i, 4), num(i, 5));
        let m = pose.rotation.to_rotation_matrix();
        ensure!((0..3).all(|a| (0..3).all(|b| (m[(a, b)] as f64 - r[a][b]).abs() < 2e-4)), "pose {at} does not have record {i}'s rotation");
        let want = displacement(&[first[0], first[1], first[2]], &[num(i, 0), num(i, 1), num(i, 2)]);
        if first[0].abs() <= 80.0 && want[0].abs() <= 1000.0 && want[1].abs() <= 1000.0 {
            obs.label_if(at > 0 && want[0].abs() + want[1].abs() < 1.0, "frame-within-a-metre");
            for a in 0..2 {
                let got = pose.translation.vector[a] as f64;
                ensure!((got - want[a]).abs() <= 0.01 * want[a].abs() + 1e-3, "record {i} lies {want:?} m from the first, its pose at {:?}", pose.translation.vector.as_slice());
            }
        }
        let dz = num(i, 2) - first[2];
        ensure!((pose.translation.vector[2] as f64 - dz).abs() <= 1e-2, "pose {at} has height {}, record {i} is {dz} above the first", pose.translation.vector[2]);
    }
    if let Some(p) = poses.first() {
        ensure!(p.translation.vector == na::Vector3::zeros(), "the first pose is displaced by {:?}", p.translation);
    }
    Ok(())
}
fn c21_scans(c: &Drive, obs: &mut Obs) -> R {
    let (d, store) = (Scratch::new(), Scratch::new());
    for i in creation(c) {
        put(c, i, &d.0, &store.0, &name(c, i, "bin"), &encode(&c.scans[i]))?;
    }
    obs.label_if(c.link.iter().any(|l| *l), "linked-files");
    let mut which: Vec<usize> = (0..c.idx.len()).collect();
    let read = |which: &[usize], scans: &[Vec<[u32; 4]>]| -> R {
        let got = no_panic("read_from_dir", || velo::read_from_dir(&d.0, c.print))?.map_err(|e| format!("the drive is refused: {e}"))?;
        ensure!(got.len() == which.len(), "{} files, {} clouds", which.len(), got.len());
        for (at, i) in which.iter().enumerate() {
            scan_matches(&got[at], &scans[*i]).map_err(|e| format!("cloud {at}: {e}"))?;
        }
        Ok(())
    };
    read(&which, &c.scans)?;
    // every file rewritten in place, as long as before
    let mut scans = c.scans.clone();
    for i in which.iter().copied() {
        for (k, f) in scans[i].iter_mut().enumerate() {
            f[k % 3] ^= 0x0010_0000;
        }
        std::fs::write(d.0.join(name(c, i, "bin")), encode(&scans[i])).map_err(|e| format!("scratch: {e}"))?;
    }
    read(&which, &scans).map_err(|e| format!("after the files were rewritten: {e}"))?;
    // the directory again, with the first and last frame's contents exchanged
    if which.len() >= 2 {
        let l = which.len() - 1;
        which.swap(0, l);
        for (file, data) in [(0, l), (l, 0)] {
            std::fs::remove_file(d.0.join(name(c, file, "bin"))).map_err(|e| format!("scratch: {e}"))?;
            put(c, file, &d.0, &store.0, &name(c, file, "bin"), &encode(&scans[data]))?;
        }
        read(&which, &scans).map_err(|e| format!("after two frames were exchanged: {e}"))?;
    }
    obs.nontrivial_if(shuffled(c));
    Ok(())
}

// ------------------------------------------------------------------------------------------ C24
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Replay {
    origin: [f64; 3],
    /// per frame: displacement from the previous one in degrees lat/lon and metres, roll/pitch/yaw
    frames: Vec<([f64; 3], [f64; 3])>,
    /// per frame: points in the sensor frame
    scans: Vec<Vec<P>>,
    res: f32,
    tile: usize,
    /// None: the default noise model
    model: Option<(f32, f32, f32, f32, f32)>,
    range: f32,
    /// metres east, north and up between the first frame (which then has no returns) and the rest
    #[serde(default)]
    far: [f64; 3],
}
fn c24_strategy(long: bool) -> BoxedStrategy<Replay> {
    c24_drive(if long { (6usize..=40).boxed() } else { (1usize..=5).boxed() }, if long { 40 } else { 12 }, false)
}
/// `slow`: a vehicle that hardly moves (many frames, a small map).
fn c24_drive(count: BoxedStrategy<usize>, most: usize, slow: bool) -> BoxedStrategy<Replay> {
    count
        .prop_flat_map(move |k| {
            let ang = |m: i32| prop_oneof![1 => Just(0.0f64), 3 => (-m..=m).prop_map(|v| v as f64 * 0.001)];
            let yaw = prop_oneof![1 => Just(0.0f64), 4 => (-3141i32..=3141).prop_map(|v| v as f64 * 0.001), 1 => prop_oneof![Just(std::f64::consts::FRAC_PI_2), Just(std::f64::consts::PI)]];
            let scale = if slow { 0.04 } else { 1.0 };
            let mv = move || prop_oneof![4 => -400i32..=400, 1 => -40i32..=40, 1 => -5i32..=5, 1 => Just(0i32)].prop_map(move |v| v as f64 * 1e-7 * scale); // up to ~4.5 m
            let fr = ((mv(), mv(), prop_oneof![3 => -150i32..=150, 1 => -5i32..=5, 1 => Just(0i32)].prop_map(move |v| v as f64 * 0.01 * scale)), (ang(400), ang(400), yaw)).prop_map(|(a, b)| ([a.0, a.1, a.2], [b.0, b.1, b.2]));
            let co = move |m: i32| (-m..=m).prop_map(move |v| v as f32 * if slow { 0.003 } else { 0.01 });
            let pt = prop_oneof![
                5 => (co(600), co(600), co(200)).prop_map(|(a, b, c)| [a, b, c]),
                1 => (co(20), co(20), co(20)).prop_map(|(a, b, c)| [a, b, c]),
                1 => (co(600)).prop_map(|a| [a, 0.0, 0.0]),
                1 => Just([0.0f32; 3]),
            ];
            (
                ((-80_000i32..=80_000).prop_map(|v| v as f64 * 1e-3), prop_oneof![3 => (-180_000i32..=180_000).prop_map(|v| v as f64 * 1e-3), 1 => prop_oneof![Just(179.99999f64), Just(-179.99999), Just(0.0)]], 0.0f64..300.0),
                prop::collection::vec(fr, k),
                prop::collection::vec(prop::collection::vec(pt, 0..=most), k),
                prop_oneof![Just(0.5f32), Just(1.0), Just(0.4), Just(0.25), Just(0.7)],
                prop_oneof![1 => 1usize..=12, 1 => Just(20)],
                prop::option::of(crate::scan::probs()),
                prop_oneof![2 => Just(60.0f32), 2 => (50u32..=700).prop_map(|v| v as f32 * 0.01), 1 => Just(0.0f32)],
                prop_oneof![3 => Just([0.0f64; 3]), 1 => (-3500.0f64..3500.0, -3500.0f64..3500.0, -300.0f64..300.0).prop_map(|(a, b, c)| [a, b, c])],
            )
        })
        .prop_map(|(o, frames, mut scans, res, tile, model, range, far)| {
            if far != [0.0; 3] {
                scans[0].clear();
            }
            Replay { origin: [o.0, o.1, o.2], frames, scans, res, tile, model, range: if model.is_none() { 60.0 } else { range }, far }
        })
        .boxed()
}
/// A short drive whose scans have as many returns as a real sensor's, expanded from a seed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dense {
    drive: Replay,
    sizes: Vec<u32>,
    seed: u64,
}
impl Dense {
    fn expand(&self) -> Replay {
        let mut d = self.drive.clone();
        let mut r = Mix(self.seed);
        let first = (self.drive.far != [0.0; 3]) as usize;
        for (s, k) in d.scans.iter_mut().skip(first).zip(&self.sizes) {
            s.extend((0..*k).map(|_| [6.0, 6.0, 2.0].map(|m| (m * r.unit()) as f32)));
        }
        d
    }
}
fn c24_dense_strategy() -> BoxedStrategy<Dense> {
    (c24_strategy(false), prop::collection::vec(bulk(1000, 160_000).prop_map(|v| v as u32), 1..=2), any::<u64>()).prop_map(|(drive, sizes, seed)| Dense { drive, sizes, seed }).boxed()
}
fn c24_check(c: &Replay, obs: &mut Obs) -> R {
    let d = Scratch::new();
    let (od, vd) = (d.0.join("oxts"), d.0.join("velodyne"));
    std::fs::create_dir(&od).and_then(|_| std::fs::create_dir(&vd)).map_err(|e| format!("scratch: {e}"))?;
    let (mut lat, mut lon, mut alt) = (c.origin[0], c.origin[1], c.origin[2]);
    let mut recorded = vec![];
    for (i, (mv, rpy)) in c.frames.iter().enumerate() {
        if i > 0 {
            let far = if i == 1 { c.far } else { [0.0; 3] };
            lat = (lat + mv[0] + far[1] / 111_200.0).clamp(-80.0, 80.0);
            lon += (mv[1] + far[0] / 111_200.0) / lat.to_radians().cos();
            if lon > 180.0 {
                lon -= 360.0;
            }
            if lon < -180.0 {
                lon += 360.0;
            }
            alt += mv[2] + far[2];
        }
        recorded.push([lat, lon, alt]);
        let rec = format!("{lat} {lon} {alt} {} {} {} 1.5 -0.25 4 4 4", rpy[0], rpy[1], rpy[2]);
        let bytes: Vec<u8> = c.scans[i].iter().flat_map(|p| [p[0], p[1], p[2], 0.5f32]).flat_map(|f| f.to_ne_bytes()).collect();
        std::fs::write(od.join(format!("{i:010}.txt")), rec).and_then(|_| std::fs::write(vd.join(format!("{i:010}.bin")), bytes)).map_err(|e| format!("scratch: {e}"))?;
    }
    let poses = no_panic("oxt read_from_dir", || oxt::read_from_dir(&od, c.tile % 2 == 1))?.map_err(|e| format!("poses refused: {e}"))?;
    let clouds = no_panic("velodyne read_from_dir", || velo::read_from_dir(&vd, c.tile % 2 == 1))?.map_err(|e| format!("scans refused: {e}"))?;
    ensure!(poses.len() == c.frames.len() && clouds.len() == c.frames.len(), "{} frames, {} poses, {} clouds", c.frames.len(), poses.len(), clouds.len());
    let model = || match c.model {
        None => kuba::LidarNoiseModel::default(),
        Some(p) => kuba::LidarNoiseModel::new(p.0, p.1, p.2, p.3, p.4, c.range),
    };
    let hit_l = { let p = c.model.map(|m| m.0).unwrap_or(0.7) as f64; (p / (1.0 - p)).ln() };
    let max_l = { let p = c.model.map(|m| m.3).unwrap_or(0.971) as f64; (p / (1.0 - p)).ln() };
    let mut map = kuba::LidarOccupancyGridMap3::new(model(), c.res, c.tile);
    let mut prev: HashMap<C, f32> = HashMap::default(); // world cell -> value
    let (mut checked, mut cut) = (0, false);
    for i in 0..poses.len() {
        let tr = poses[i].translation.vector;
        let want = displacement(&c.origin, &recorded[i]);
        for a in 0..3 {
            ensure!((tr[a] as f64 - want[a]).abs() <= 0.01 * want[a].abs() + 1e-3, "frame {i} was recorded {want:?} m from the first one, its pose is at {:?}", tr.as_slice());
        }
        let sensor = kuba::Point3::new(tr[0], tr[1], tr[2]);
        let moved = no_panic("transform", || clouds[i].transform(&poses[i].to_homogeneous()))?;
        // the transform follows the recorded attitude
        let rpy = c.frames[i].1;
        let r = rot64(rpy[0], rpy[1], rpy[2]);
        let pts: Vec<P> = moved.points_iter().map(|p| p3(&p)).collect();
        ensure!(pts.len() == c.scans[i].len(), "frame {i}: {} returns became {}", c.scans[i].len(), pts.len());
        for (k, p) in c.scans[i].iter().enumerate() {
            for a in 0..3 {
                let w = tr[a] as f64 + (0..3).map(|b| r[a][b] * p[b] as f64).sum::<f64>();
                ensure!((pts[k][a] as f64 - w).abs() <= 2e-4 + 4.0 * U * tr[a].abs() as f64, "frame {i} return {k}: moved to {:?}, expected coordinate {a} = {w}", pts[k]);
            }
        }
        no_panic(&format!("frame {i}: integrate_point_cloud"), || map.integrate_point_cloud(&sensor, &moved))?;
        if pts.is_empty() {
            continue;
        }
        let lo = p3(&map.grid_map.bounds.min);
        let shape = GMap::<f32>::shape(&map.grid_map);
        let w = world_min(&map.grid_map as &dyn GMap<f32>);
        let so = p3(&sensor);
        let (eff, infos) = geo::scan_effect(&so, &pts, &lo, c.res, c.range, 3);
        cut |= infos.iter().any(|x| x.truncated);
        for (k, e) in &eff {
            if !e.hit_certain {
                continue;
            }
            ensure!(inside(k, &shape, 3), "frame {i}: the cell {:?} of a return is outside the map of {:?} cells", k, shape);
            let p = *prev.get(&add(k, &w)).unwrap_or(&0.0) as f64;
            let want = (p + hit_l).min(max_l);
            let got = map.get(&cl3(k)) as f64;
            ensure!((got - want).abs() <= 3e-5, "frame {i}: the cell of an in-range return went from {p} to {got}, expected {want}");
            checked += 1;
        }
        for k in cells(&shape, 3) {
            let v = map.get(&cl3(&k));
            let key = add(&k, &w);
            if v != 0.0 || prev.contains_key(&key) {
                prev.insert(key, v);
            }
        }
        // a fresh map holding only this scan
        if c.model.is_none() {
            let mut one = kuba::LidarOccupancyGridMap3::new(model(), c.res, c.tile);
            no_panic("integrate_point_cloud", || one.integrate_point_cloud(&sensor, &moved))?;
            let lo = p3(&one.grid_map.bounds.min);
            let shape = GMap::<f32>::shape(&one.grid_map);
            let (eff, _) = geo::scan_effect(&so, &pts, &lo, c.res, 60.0, 3);
            for k in cells(&shape, 3) {
                let o = one.occupied(&cl3(&k));
                let e = eff.get(&k).copied().unwrap_or_default();
                ensure!(!o || e.hit_possible, "frame {i}: cell {:?} is occupied although no in-range return ends there", k);
                ensure!(o || !e.hit_certain, "frame {i}: cell {:?} holds an in-range return but is not occupied", k);
            }
            obs.label("single-scan-occupancy");
        }
    }
    obs.label_if(cut, "out-of-range-return");
    obs.label_if(c.far != [0.0; 3] && c.frames.len() > 1, "far-from-the-first-frame");
    obs.label_if(checked >= 10, "10+returns-checked");
    obs.nontrivial_if(c.frames.len() >= 2 && checked >= 2 && c.frames.iter().any(|f| f.1[2] != c.frames[0].1[2]));
    Ok(())
}

// ------------------------------------------------------------------------------------------ C25
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    /// extra bytes after the last whole record (1..=15)
    Partial(u8),
    /// read error after this fraction of the stream, of this kind
    Io(u16, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadScan {
    recs: Vec<[u32; 4]>,
    fault: Fault,
    sched: Vec<Step>,
}
fn kinds(k: u8) -> ErrorKind {
    [ErrorKind::UnexpectedEof, ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::PermissionDenied, ErrorKind::BrokenPipe, ErrorKind::InvalidInput][k as usize % 8]
}
fn c25_scan_strategy() -> BoxedStrategy<BadScan> {
    let rec = (bits(), bits(), bits(), bits()).prop_map(|(a, b, c, d)| [a, b, c, d]);
    let f = prop_oneof![3 => (1u8..=15).prop_map(Fault::Partial), 2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Fault::Io(a, b)), 1 => any::<u8>().prop_map(|b| Fault::Io(65535, b))];
    (prop::collection::vec(rec, 0..=12), f, sched()).prop_map(|(recs, fault, sched)| BadScan { recs, fault, sched }).boxed()
}
fn c25_scan_check(c: &BadScan, obs: &mut Obs) -> R {
    let mut data = encode(&c.recs);
    let fail = match c.fault {
        Fault::Partial(k) => {
            data.extend((0..k).map(|i| i.wrapping_mul(37)));
            None
        }
        Fault::Io(f, kind) => Some(((data.len() as u64 * (f as u64 + 1) / 65536) as usize, kinds(kind))),
    };
    // a failing stream may also sit exactly on a record boundary: it is still an error
    let mut f = Feed { data: &data, pos: 0, sched: &c.sched, at: 0, fail };
    let r = no_panic("read", || velo::read(&mut f))?;
    ensure!(r.is_err(), "{:?} after {} records is read as a cloud of {} points", c.fault, c.recs.len(), r.unwrap().num_points());
    obs.label(if fail.is_some() { "io-error" } else { "partial-record" });
    obs.nontrivial_if(!c.recs.is_empty());
    Ok(())
}
/// A fault deep inside a large stream.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LargeBad {
    n: u32,
    seed: u64,
    chunk: u16,
    /// extra bytes at the end, or (0) a read error at this byte
    extra: u8,
    at: u32,
    kind: u8,
}
fn c25_large_strategy() -> BoxedStrategy<LargeBad> {
    let chunk = prop_oneof![Just(65_535u16), Just(8192), Just(4096), 100u16..=60_000];
    (bulk(1, 60_000), any::<u64>(), chunk, prop_oneof![1 => Just(0u8), 1 => 1u8..=15], any::<u32>(), any::<u8>())
        .prop_flat_map(|(n, seed, chunk, extra, any_at, kind)| {
            let end = 16 * n as u32;
            let at = prop_oneof![
                2 => Just(any_at % (end + 1)),
                1 => Just(end),
                1 => Just((any_at % (n as u32 + 1)) * 16),
                2 => bulk(1, end as usize).prop_map(|v| v as u32),
            ];
            at.prop_map(move |at| LargeBad { n: n as u32, seed, chunk, extra, at: at.min(end), kind })
        })
        .boxed()
}
fn c25_large_check(c: &LargeBad, obs: &mut Obs) -> R {
    let mut r = Mix(c.seed);
    let mut data: Vec<u8> = (0..c.n).flat_map(|_| [r.next(), r.next()]).flat_map(|v| v.to_ne_bytes()).collect();
    let fail = if c.extra == 0 { Some((c.at as usize, kinds(c.kind))) } else { None };
    data.extend((0..c.extra).map(|i| i.wrapping_mul(37)));
    let sched = [Step::Give(c.chunk)];
    let mut f = Feed { data: &data, pos: 0, sched: &sched, at: 0, fail };
    let r = no_panic("read", || velo::read(&mut f))?;
    ensure!(r.is_err(), "{} records with {} are read as a cloud of {} points", c.n, if c.extra == 0 { format!("a read error at byte {}", c.at) } else { format!("{} extra bytes", c.extra) }, r.unwrap().num_points());
    obs.nontrivial_if(c.n >= 2);
    obs.label_if(c.n >= 4096, "64-kB+");
    Ok(())
}
/// One bad file somewhere in a large directory (or none: then the directory must be accepted).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ManyBad {
    files: u32,
    bad: u32,
    kind: u8,
    seed: u64,
}
fn c25_many_strategy() -> BoxedStrategy<ManyBad> {
    (bulk(2, 1200), any::<u32>(), 0u8..7, any::<u64>())
        .prop_flat_map(|(k, b, kind, seed)| {
            let bad = prop_oneof![2 => Just(b % k as u32), 1 => Just(k as u32 - 1), 2 => bulk(1, k).prop_map(|v| v as u32 - 1)];
            bad.prop_map(move |bad| ManyBad { files: k as u32, bad, kind, seed })
        })
        .boxed()
}
fn c25_many_check(c: &ManyBad, obs: &mut Obs) -> R {
    let d = Scratch::new();
    let io = |e: std::io::Error| format!("scratch: {e}");
    let (od, vd) = (d.0.join("o"), d.0.join("v"));
    std::fs::create_dir(&od).and_then(|_| std::fs::create_dir(&vd)).map_err(io)?;
    let mut r = Mix(c.seed);
    let none = c.kind == 6;
    for i in 0..c.files {
        let v: Vec<String> = (0..8).map(|k| format!("{:.6}", r.unit() * if k < 2 { 80.0 } else { 3.0 })).collect();
        let mut rec = v.join(" ").into_bytes();
        let mut scan = encode(&[[1, 2, 3, 4]; 3][..(r.below(4) as usize).min(3)]);
        if i == c.bad && !none {
            match c.kind {
                0 => rec = v[..5].join(" ").into_bytes(),
                1 => rec = [&v[..3], &["north".to_string()], &v[4..]].concat().join(" ").into_bytes(),
                2 => rec.clear(),
                3 => rec.insert(0, 0xff),
                4 => rec = b" ".to_vec(),
                _ => rec = v[..1].join(" ").into_bytes(),
            }
            scan.extend(std::iter::repeat(7u8).take(1 + c.seed as usize % 15));
        }
        std::fs::write(od.join(format!("{i:010}.txt")), rec).map_err(io)?;
        std::fs::write(vd.join(format!("{i:010}.bin")), scan).map_err(io)?;
    }
    let p = no_panic("oxt read_from_dir", || oxt::read_from_dir(&od, c.seed & 1 == 1))?;
    ensure!(p.is_ok() == none, "{} records, {}: {:?}", c.files, if none { "all good".into() } else { format!("number {} bad", c.bad) }, p.map(|v| v.len()));
    let v = no_panic("velo read_from_dir", || velo::read_from_dir(&vd, c.seed & 1 == 1))?;
    ensure!(v.is_ok() == none, "{} scans, {}: {:?}", c.files, if none { "all good".into() } else { format!("number {} with a partial record", c.bad) }, v.map(|v| v.len()));
    obs.label_if(none, "all-good");
    obs.label_if(c.bad >= 100 && !none, "bad-after-100");
    obs.nontrivial_if(!none && c.bad > 0);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum RecFault {
    /// only the first k fields
    Short(u8),
    /// replace field k (of the first six) by this text
    NotNumber(u8, String),
    /// insert invalid UTF-8 at this relative position
    BadText(u16, Vec<u8>),
    Io(u16, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadRec {
    fields: Vec<String>,
    fault: RecFault,
    sched: Vec<Step>,
    origin: Option<[f64; 3]>,
}
fn not_number() -> BoxedStrategy<String> {
    prop_oneof![
        2 => prop::sample::select(vec!["", "abc", "1,5", "0x10", "1e", "--1", "1_000", "1.2.3", "+-1", "e5", ".", "-", "+", "1f", "1d", "١", "1e+", "½", "nul", "0b1", "1/2", "1:2", "#"])
            .prop_map(|s| s.to_string()),
        1 => "[a-zA-Z_:;#]{1,6}",
        1 => (number(-100.0, 100.0), "[a-df-z_#:]{1,2}").prop_map(|(a, b)| format!("{a}{b}")),
    ]
    .prop_filter("must not parse as a number", |s| s.parse::<f64>().is_err() && s.parse::<f32>().is_err() && !s.contains(' '))
    .boxed()
}
fn c25_rec_strategy() -> BoxedStrategy<BadRec> {
    let bad_utf8 = prop::sample::select(vec![vec![0xffu8], vec![0xc3], vec![0x80], vec![0xed, 0xa0, 0x80], vec![0xf8, 0x88, 0x80, 0x80], vec![0xe2, 0x82]]);
    let f = prop_oneof![
        2 => (0u8..=5).prop_map(RecFault::Short),
        3 => (0u8..6, not_number()).prop_map(|(k, s)| RecFault::NotNumber(k, s)),
        2 => (any::<u16>(), bad_utf8).prop_map(|(p, b)| RecFault::BadText(p, b)),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(p, k)| RecFault::Io(p, k)),
        1 => any::<u8>().prop_map(|k| RecFault::Io(65535, k)),
    ];
    let o = prop::option::of((-80.0f64..80.0, -180.0f64..180.0, 0.0f64..100.0).prop_map(|(a, b, c)| [a, b, c]));
    (fields(), f, sched(), o).prop_map(|(fields, fault, sched, origin)| BadRec { fields, fault, sched, origin }).boxed()
}
fn bad_record(c: &BadRec) -> (Vec<u8>, Option<(usize, ErrorKind)>) {
    let mut f = c.fields.clone();
    let mut fail = None;
    match &c.fault {
        RecFault::Short(k) => f.truncate(*k as usize),
        RecFault::NotNumber(k, s) => f[*k as usize] = s.clone(),
        _ => {}
    }
    let mut data = f.join(" ").into_bytes();
    match &c.fault {
        RecFault::BadText(p, b) => {
            let mut at = (data.len() as u64 * *p as u64 / 65535) as usize;
            at = at.min(data.len());
            data.splice(at..at, b.iter().copied());
        }
        RecFault::Io(p, k) => fail = Some(((data.len() as u64 * (*p as u64 + 1) / 65536) as usize, kinds(*k))),
        _ => {}
    }
    (data, fail)
}
fn c25_rec_check(c: &BadRec, obs: &mut Obs) -> R {
    let (data, fail) = bad_record(c);
    let mut f = Feed { data: &data, pos: 0, sched: &c.sched, at: 0, fail };
    let o = c.origin.map(|o| na::Translation3::new(o[0], o[1], o[2]));
    let r = no_panic("read", || oxt::read(&mut f, o))?;
    ensure!(r.is_err(), "{:?}: record {:?} is accepted", c.fault, String::from_utf8_lossy(&data));
    obs.label(match c.fault {
        RecFault::Short(_) => "too-few-fields",
        RecFault::NotNumber(..) => "not-a-number",
        RecFault::BadText(..) => "invalid-utf8",
        RecFault::Io(..) => "io-error",
    });
    obs.nontrivial_if(!matches!(c.fault, RecFault::Short(k) if k < 5));
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Blob {
    bytes: Vec<u8>,
    sched: Vec<Step>,
}
fn c25_any_strategy() -> BoxedStrategy<Blob> {
    let tok = prop_oneof![
        4 => number(-1e6, 1e6),
        2 => prop::sample::select(vec!["NaN", "inf", "-inf", "infinity", "1e400", "-1e400", "1e-400", "", "\n", "\r\n", "\t", "\0", "99999999999999999999", "1e38", "3.5e38"]).prop_map(|s: &str| s.to_string()),
        1 => ".{0,4}",
    ];
    let b = prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 0..=80),
        3 => (prop::collection::vec(tok, 0..=12), prop::sample::select(vec![" ", " ", " ", "  ", ",", "\n"])).prop_map(|(t, s)| t.join(s).into_bytes()),
        1 => prop::collection::vec(prop_oneof![Just(b' '), Just(b'0'), Just(b'.'), Just(b'-'), Just(b'e'), Just(b'9'), Just(b'\n')], 0..=60),
    ];
    (b, sched()).prop_map(|(bytes, sched)| Blob { bytes, sched }).boxed()
}
fn c25_any_check(c: &Blob, obs: &mut Obs) -> R {
    let feed = || Feed { data: &c.bytes, pos: 0, sched: &c.sched, at: 0, fail: None };
    let r = no_panic("point-cloud read", || velo::read(&mut feed()))?;
    ensure!(r.is_ok() == (c.bytes.len() % 16 == 0), "{} bytes: point-cloud read gives {:?}", c.bytes.len(), r.map(|p| p.num_points()));
    for o in [None, Some(na::Translation3::new(1.0, 2.0, 3.0))] {
        let r = no_panic("record read", || oxt::read(&mut feed(), o))?;
        // a record accepted here must at least have six numbers at the front
        if r.is_ok() {
            let t = std::str::from_utf8(&c.bytes).map_err(|_| "invalid text is accepted".to_string())?;
            let n = t.split(' ').take(6).filter(|f| f.trim().parse::<f64>().is_ok()).count();
            ensure!(n == 6, "record {t:?} is accepted with {n} leading numbers");
            obs.nontrivial = true;
            obs.label("accepted");
        }
    }
    obs.nontrivial_if(c.bytes.len() >= 16);
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadDir {
    good: Vec<Vec<String>>,
    scans: Vec<Vec<[u32; 4]>>,
    bad: BadRec,
    cut: u8,
    at: u8,
    kind: u8,
    #[serde(default)]
    print: bool,
    #[serde(default)]
    ext: u8,
}
fn c25_dir_strategy() -> BoxedStrategy<BadDir> {
    let rec = (bits(), bits(), bits(), bits()).prop_map(|(a, b, c, d)| [a, b, c, d]);
    (prop::collection::vec(fields(), 0..=5), prop::collection::vec(prop::collection::vec(rec, 0..=3), 0..=5), c25_rec_strategy(), 1u8..=15, any::<u8>(), 0u8..12, any::<bool>(), prop_oneof![4 => Just(0u8), 1 => 1u8..=6])
        .prop_map(|(good, scans, bad, cut, at, kind, print, ext)| BadDir { good, scans, bad, cut, at, kind, print, ext })
        .boxed()
}
fn c25_dir_check(c: &BadDir, obs: &mut Obs) -> R {
    let d = Scratch::new();
    let io = |e: std::io::Error| format!("scratch: {e}");
    // missing paths
    let gone = d.0.join("missing");
    ensure!(no_panic("oxt read_from_file", || oxt::read_from_file(&gone.join("0.txt"), None))?.is_err(), "a missing record file is accepted");
    ensure!(no_panic("velo read_from_file", || velo::read_from_file(&gone.join("0.bin")))?.is_err(), "a missing scan file is accepted");
    ensure!(no_panic("oxt read_from_dir", || oxt::read_from_dir(&gone, c.print))?.is_err(), "a missing directory of records is accepted");
    ensure!(no_panic("velo read_from_dir", || velo::read_from_dir(&gone, c.print))?.is_err(), "a missing directory of scans is accepted");
    ensure!(no_panic("seq_files_in_dir", || kfs::seq_files_in_dir(&gone))?.is_err(), "a missing directory can be listed");
    // a directory (not a file) where a record is expected
    ensure!(no_panic("velo read_from_file", || velo::read_from_file(&d.0))?.is_err(), "a directory is accepted as a scan file");
    ensure!(no_panic("oxt read_from_file", || oxt::read_from_file(&d.0, None))?.is_err(), "a directory is accepted as a record file");
    let (od, vd) = (d.0.join("o"), d.0.join("v"));
    std::fs::create_dir(&od).map_err(io)?;
    std::fs::create_dir(&vd).map_err(io)?;
    let at = c.at as usize % (c.good.len() + 1);
    let bad_at = at;
    let mut k = 0;
    // an entry that cannot be opened or read as a file: a directory, a link to nowhere, a link loop
    let broken = |p: &Path| -> std::io::Result<bool> {
        match c.kind {
            0 => std::fs::create_dir(p)?,
            1 => std::os::unix::fs::symlink(&gone, p)?,
            2 => std::os::unix::fs::symlink(p, p)?,
            3 => std::os::unix::fs::symlink(&d.0, p)?,
            _ => return Ok(false),
        }
        Ok(true)
    };
    for i in 0..=c.good.len() {
        let mut name = OsString::from(format!("{i:010}"));
        name.push(odd_ext(c.ext, "txt"));
        let p = od.join(name);
        if i == at {
            if broken(&p).map_err(io)? {
                obs.label("unreadable-entry");
            } else {
                let mut b = c.bad.clone();
                if matches!(b.fault, RecFault::Io(..)) {
                    b.fault = RecFault::Short((c.cut % 6) as u8);
                }
                std::fs::write(&p, bad_record(&b).0).map_err(io)?;
            }
        } else {
            std::fs::write(&p, c.good[k].join(" ")).map_err(io)?;
            k += 1;
        }
    }
    let r = no_panic("oxt read_from_dir", || oxt::read_from_dir(&od, c.print))?;
    ensure!(r.is_err(), "a directory whose record {bad_at} of {} is bad yields {} poses", c.good.len() + 1, r.unwrap().len());
    let at = c.at as usize % (c.scans.len() + 1);
    let mut k = 0;
    for i in 0..=c.scans.len() {
        let mut name = OsString::from(format!("{i:010}"));
        name.push(odd_ext(c.ext, "bin"));
        let p = vd.join(name);
        if i == at {
            if !broken(&p).map_err(io)? {
                let mut b = encode(&[[1, 2, 3, 4]]);
                b.truncate(c.cut as usize);
                std::fs::write(&p, b).map_err(io)?;
            }
        } else {
            std::fs::write(&p, encode(&c.scans[k])).map_err(io)?;
            k += 1;
        }
    }
    let r = no_panic("velo read_from_dir", || velo::read_from_dir(&vd, c.print))?;
    ensure!(r.is_err(), "a directory whose scan {at} of {} is bad yields {} clouds", c.scans.len() + 1, r.unwrap().len());
    obs.nontrivial_if(c.good.len() >= 2 && c.scans.len() >= 2);
    obs.label_if(bad_at > 0, "bad-file-after-good");
    obs.label_if(c.print, "with-progress");
    obs.label_if(c.ext != 0, "odd-extension");
    Ok(())
}
