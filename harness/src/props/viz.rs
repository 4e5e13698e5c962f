//! C26: the visualiser binary, run against a recording stand-in for its window (vizharness/).
use super::kitti::Scratch;
use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::fast::HashSet;
use kuba::kitti::{oxt_reader as oxt, point_cloud_reader as velo};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn defs() -> Vec<PropDef> {
    vec![PropDef {
        id: "C26",
        rule: "a case is a drive on disk that the visualiser binary plays for a number of scans (wrapping around at its end); non-trivial when at least two scans and five drawn points were checked and either the map's origin moved while points were drawn or a drawn point disappeared",
        assumptions: &[
            "the window library is replaced by a stand-in that records draw_point calls; everything else is the repository's binary",
            "drives of at least one frame within 20 m of their start (the visualiser's map resolution is fixed at 0.1 m)",
        ],
        subs: vec![sub("frames", 480, 12_000, strategy, check)],
    }]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Play {
    lat: f64,
    lon: f64,
    /// position relative to the first frame (east, north, up in metres), roll, pitch, yaw
    frames: Vec<([f64; 3], [f64; 3])>,
    scans: Vec<Vec<P>>,
    /// how many scans to follow
    follow: usize,
    /// pause between frames in units of 0.2 ms (cyclic)
    pace: Vec<u8>,
    /// one dense scan: which frame gets how many further returns spread over a sphere of 6 m
    #[serde(default)]
    dense: Option<(u8, u16)>,
}
/// n returns spread evenly over a sphere around the sensor (a flattened one: the map stays small).
fn sphere(n: u16) -> Vec<P> {
    (0..n)
        .map(|i| {
            let z = 1.0 - 2.0 * (i as f32 + 0.5) / n as f32;
            let (r, a) = ((1.0 - z * z).sqrt(), i as f32 * 2.3999632);
            [6.0 * r * a.cos(), 6.0 * r * a.sin(), 2.0 * z]
        })
        .collect()
}
fn strategy() -> BoxedStrategy<Play> {
    (1usize..=5)
        .prop_flat_map(|k| {
            let pos = || prop_oneof![2 => Just(0.0f64), 3 => (-30i32..=30).prop_map(|v| v as f64 * 0.1)];
            let yaw = prop_oneof![3 => Just(0.0f64), 2 => (-3141i32..=3141).prop_map(|v| v as f64 * 0.001), 1 => prop::sample::select(vec![1.5707963f64, -1.5707963, 3.1415926])];
            let ang = || prop_oneof![4 => Just(0.0f64), 1 => (-200i32..=200).prop_map(|v| v as f64 * 0.001)];
            let frame = ((pos(), pos(), (-5i32..=5).prop_map(|v| v as f64 * 0.1)), ang(), ang(), yaw).prop_map(|(p, r, t, y)| ([p.0, p.1, p.2], [r, t, y]));
            let co = |m: i32| (-m..=m).prop_map(|v| v as f32 * 0.01);
            // a scan looks into one octant or all around; some points repeat earlier ones scaled
            let fresh = (co(600), co(600), co(150)).prop_map(|(a, b, c)| ([a, b, c], None));
            let again = (any::<u8>(), prop_oneof![2 => Just(1.0f32), 3 => (4u32..=20).prop_map(|v| v as f32 * 0.1)]).prop_map(|(i, s)| ([0.0f32; 3], Some((i, s))));
            let scan = (0u8..12, prop::collection::vec(prop_oneof![3 => fresh, 3 => again], 0..=14));
            (
                ((-60_000i32..=60_000).prop_map(|v| v as f64 * 1e-3), (-179_000i32..=179_000).prop_map(|v| v as f64 * 1e-3)),
                prop::collection::vec(frame, k),
                prop::collection::vec(scan, k),
                (1usize..=12, prop::bool::weighted(0.4)),
                prop::collection::vec(prop_oneof![2 => Just(0u8), 2 => 0u8..20], 1..=4),
                prop::option::weighted(0.12, (any::<u8>(), 100u16..=700)),
            )
        })
        .prop_map(|((lat, lon), mut frames, raw, (follow, parked), pace, dense)| {
            frames[0].0 = [0.0; 3];
            if parked {
                let f = frames[0];
                frames.iter_mut().for_each(|g| *g = f);
            }
            let follow = if parked { follow.max(4) } else { follow };
            let mut all: Vec<P> = vec![];
            let mut scans = vec![];
            for (oct, pts) in raw {
                let mut s = vec![];
                for (p, again) in pts {
                    let mut q = p;
                    if let Some((i, f)) = again {
                        if !all.is_empty() {
                            let f = if parked && f < 1.0 { 1.0 + f } else { f };
                            q = all[i as usize % all.len()].map(|v| v * f);
                            let m = q.iter().fold(0.0f32, |m, v| m.max(v.abs()));
                            if m > 7.0 {
                                q = q.map(|v| v * 7.0 / m);
                            }
                        }
                    } else if oct < 8 {
                        for (a, v) in q.iter_mut().enumerate() {
                            *v = if oct & (1 << a) != 0 { v.abs() } else { -v.abs() };
                        }
                    }
                    all.push(q);
                    s.push(q);
                }
                scans.push(s);
            }
            Play { lat, lon, frames, scans, follow, pace, dense }
        })
        .boxed()
}

struct Running(Child);
impl Drop for Running {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
struct Viz {
    _child: Running,
    conn: UnixStream,
    err: std::path::PathBuf,
}
const PATIENCE: Duration = Duration::from_secs(20);
fn binary() -> std::path::PathBuf {
    std::env::var("KCHECK_VIZ").map(Into::into).unwrap_or_else(|_| verif_dir().join("harness/target/release/draw_occupancy_grid"))
}
fn broken(what: &str) -> ! {
    eprintln!("C26 cannot run: {what}");
    std::process::exit(3)
}
impl Viz {
    fn start(d: &std::path::Path, drive: &std::path::Path) -> Result<Viz, String> {
        let sock = d.join("s");
        let l = UnixListener::bind(&sock).unwrap_or_else(|e| broken(&format!("socket: {e}")));
        l.set_nonblocking(true).unwrap();
        let err = d.join("stderr");
        let ef = std::fs::File::create(&err).unwrap_or_else(|e| broken(&format!("{e}")));
        let child = Command::new(binary())
            .arg(drive)
            .env("KUBA_VIZ_SOCKET", &sock)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(ef)
            .spawn()
            .unwrap_or_else(|e| broken(&format!("{}: {e}", binary().display())));
        let mut child = Running(child);
        let t = Instant::now();
        loop {
            match l.accept() {
                Ok((conn, _)) => {
                    conn.set_nonblocking(false).unwrap();
                    conn.set_read_timeout(Some(PATIENCE)).unwrap();
                    return Ok(Viz { _child: child, conn, err });
                }
                Err(_) => {
                    if let Ok(Some(s)) = child.0.try_wait() {
                        return Err(format!("the visualiser ended before opening its window ({s}): {}", tail(&err)));
                    }
                    if t.elapsed() > PATIENCE {
                        return Err("the visualiser never opened its window".into());
                    }
                    std::thread::sleep(Duration::from_micros(300));
                }
            }
        }
    }
    fn frame(&mut self) -> Result<Vec<P>, String> {
        let mut b = [0u8; 4];
        let r = self.conn.read_exact(&mut b).and_then(|_| {
            let n = u32::from_le_bytes(b) as usize;
            let mut v = vec![0u8; n * 12];
            self.conn.read_exact(&mut v)?;
            Ok(v)
        });
        match r {
            Ok(v) => Ok(v.chunks(12).map(|c| [0, 4, 8].map(|k| f32::from_le_bytes(c[k..k + 4].try_into().unwrap()))).collect()),
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => Err("the render loop is stuck: no frame for 20 s".into()),
            Err(_) => Err(format!("the visualiser ended: {}", tail(&self.err))),
        }
    }
    fn next(&mut self) {
        let _ = self.conn.write_all(b"n");
    }
}
fn tail(p: &std::path::Path) -> String {
    let s = std::fs::read_to_string(p).unwrap_or_default();
    s.lines().filter(|l| !l.trim().is_empty()).take(4).collect::<Vec<_>>().join(" | ")
}

/// World cells the map reports as occupied.
fn occupied(map: &kuba::LidarOccupancyGridMap3) -> (HashSet<C>, C) {
    let w = world_min(&map.grid_map as &dyn GMap<f32>);
    let mut out = HashSet::default();
    for ((i, j, k), v) in map.grid_map.data.indexed_iter() {
        if *v != 0.0 {
            let c = [i as i64, j as i64, k as i64];
            if map.occupied(&cl3(&c)) {
                out.insert(add(&c, &w));
            }
        }
    }
    (out, w)
}

fn check(c: &Play, obs: &mut Obs) -> R {
    let d = Scratch::new();
    let drive = d.0.join("drive");
    let (od, vd) = (drive.join("oxts/data"), drive.join("velodyne_points/data"));
    let io = |e: std::io::Error| -> ! { broken(&format!("scratch: {e}")) };
    std::fs::create_dir_all(&od).and_then(|_| std::fs::create_dir_all(&vd)).unwrap_or_else(|e| io(e));
    for (i, (p, a)) in c.frames.iter().enumerate() {
        let lat = c.lat + p[1] / 111_000.0;
        let lon = c.lon + p[0] / (111_000.0 * c.lat.to_radians().cos());
        let rec = format!("{lat} {lon} {} {} {} {} 0 0 0", p[2], a[0], a[1], a[2]);
        let more = match c.dense {
            Some((f, n)) if f as usize % c.frames.len() == i => sphere(n),
            _ => vec![],
        };
        let bytes: Vec<u8> = c.scans[i].iter().chain(&more).flat_map(|p| [p[0], p[1], p[2], 0.5f32]).flat_map(|f| f.to_ne_bytes()).collect();
        std::fs::write(od.join(format!("{i:010}.txt")), rec).and_then(|_| std::fs::write(vd.join(format!("{i:010}.bin")), bytes)).unwrap_or_else(|e| io(e));
    }
    // what the map holds after each scan
    let poses = no_panic("oxt read_from_dir", || oxt::read_from_dir(&od, false))?.map_err(|e| format!("poses refused: {e}"))?;
    let clouds = no_panic("velodyne read_from_dir", || velo::read_from_dir(&vd, false))?.map_err(|e| format!("scans refused: {e}"))?;
    ensure!(poses.len() == c.frames.len() && clouds.len() == c.frames.len(), "{} frames, {} poses, {} clouds", c.frames.len(), poses.len(), clouds.len());
    let mut map = kuba::LidarOccupancyGridMap3::default();
    let res = kuba::GridMap::resolution(&map) as f64;
    let mut states: Vec<(HashSet<C>, C)> = vec![(HashSet::default(), [0; 3])];
    let mut state = |k: usize, states: &mut Vec<(HashSet<C>, C)>| -> R {
        while states.len() <= k {
            let i = (states.len() - 1) % poses.len();
            let t = poses[i].translation.vector;
            no_panic("integrate_point_cloud", || map.integrate_point_cloud(&kuba::Point3::new(t[0], t[1], t[2]), &clouds[i].transform(&poses[i].to_homogeneous())))?;
            states.push(occupied(&map));
        }
        Ok(())
    };

    let mut viz = Viz::start(&d.0, &drive)?;
    let mut at: Vec<usize> = vec![0]; // scans that may have been shown so far
    let (mut frames, mut waiting) = (0usize, Instant::now());
    loop {
        let drawn = viz.frame()?;
        frames += 1;
        let mut cells: HashSet<C> = HashSet::default();
        for p in &drawn {
            let q = [0, 1, 2].map(|i| (p[i] as f64 / res).round() as i64);
            for i in 0..3 {
                ensure!((p[i] as f64 - q[i] as f64 * res).abs() <= 0.05 * res, "frame {frames}: a point is drawn at {:?}, which is no cell's centre", p);
            }
            cells.insert(q);
        }
        let mut now = vec![];
        for k in &at {
            for j in [*k, k + 1] {
                state(j, &mut states)?;
                if !now.contains(&j) && states[j].0 == cells {
                    now.push(j);
                }
            }
        }
        if now.is_empty() {
            let k = *at.last().unwrap();
            let (a, b) = (&states[k].0, &states[k + 1].0);
            let miss: Vec<_> = b.difference(&cells).take(3).collect();
            let extra: Vec<_> = cells.difference(b).take(3).collect();
            return Err(format!(
                "frame {frames}: draws {} cells; the map has {} occupied after {k} scans and {} after {} (compared with the latter: not drawn {:?}, wrongly drawn {:?})",
                cells.len(), a.len(), b.len(), k + 1, miss, extra
            ));
        }
        if now != at {
            waiting = Instant::now();
        }
        at = now;
        if *at.iter().max().unwrap() >= c.follow {
            break;
        }
        if waiting.elapsed() > PATIENCE {
            return Err(format!("after {frames} frames and {} s the visualiser still shows the map after {:?} scans; its stderr: {}", PATIENCE.as_secs(), at, tail(&viz.err)));
        }
        let pause = c.pace[frames % c.pace.len()] as u64 * 200;
        std::thread::sleep(Duration::from_micros(pause.max(if at.len() == 1 && frames > 3 { 100 } else { 0 })));
        viz.next();
    }
    let _ = viz.conn.write_all(b"q");
    let n = c.follow.min(states.len() - 1);
    let drawn_max = states[..=n].iter().map(|s| s.0.len()).max().unwrap_or(0);
    let moved = (1..n).any(|k| states[k].1 != states[k + 1].1 && !states[k].0.is_empty());
    let gone = (1..n).any(|k| states[k].0.iter().any(|q| !states[k + 1].0.contains(q)));
    obs.label_if(c.dense.is_some(), "dense-scan");
    obs.label_if(drawn_max >= 100, "100+-cells-drawn");
    obs.label_if(moved, "origin-moved-while-drawing");
    obs.label_if(gone, "drawn-point-removed");
    obs.nontrivial_if(n >= 2 && drawn_max >= 5 && (moved || gone));
    Ok(())
}
