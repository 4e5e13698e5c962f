//! Dimension-independent view of the public API: 2-D and 3-D values as [_; 3] with n = 2 or 3.
use crate::engine::no_panic;
use kuba::{ExpandableGridMap, GridMap, NoiseModel};
use crate::fast::HashSet;

pub type P = [f32; 3];
pub type C = [i64; 3];

pub fn pt2(p: &P) -> kuba::Point2 {
    kuba::Point2::new(p[0], p[1])
}
pub fn pt3(p: &P) -> kuba::Point3 {
    kuba::Point3::new(p[0], p[1], p[2])
}
pub fn cl2(c: &C) -> kuba::Cell2 {
    kuba::Cell2::new(c[0] as isize, c[1] as isize)
}
pub fn cl3(c: &C) -> kuba::Cell3 {
    kuba::Cell3::new(c[0] as isize, c[1] as isize, c[2] as isize)
}
pub fn p2(p: &kuba::Point2) -> P {
    [p[0], p[1], 0.0]
}
pub fn p3(p: &kuba::Point3) -> P {
    [p[0], p[1], p[2]]
}
pub fn c2(c: &kuba::Cell2) -> C {
    [c[0] as i64, c[1] as i64, 0]
}
pub fn c3(c: &kuba::Cell3) -> C {
    [c[0] as i64, c[1] as i64, c[2] as i64]
}
pub fn b2(lo: &P, hi: &P) -> kuba::Bounds2 {
    kuba::Bounds2 { min: pt2(lo), max: pt2(hi) }
}
pub fn b3(lo: &P, hi: &P) -> kuba::Bounds3 {
    kuba::Bounds3 { min: pt3(lo), max: pt3(hi) }
}
pub fn ub2(b: &kuba::Bounds2) -> (P, P) {
    (p2(&b.min), p2(&b.max))
}
pub fn ub3(b: &kuba::Bounds3) -> (P, P) {
    (p3(&b.min), p3(&b.max))
}
pub fn cb2(lo: &C, hi: &C) -> kuba::CellBounds2 {
    kuba::CellBounds2 { min: cl2(lo), max: cl2(hi) }
}
pub fn cb3(lo: &C, hi: &C) -> kuba::CellBounds3 {
    kuba::CellBounds3 { min: cl3(lo), max: cl3(hi) }
}
pub fn ucb2(b: &kuba::CellBounds2) -> (C, C) {
    (c2(&b.min), c2(&b.max))
}
pub fn ucb3(b: &kuba::CellBounds3) -> (C, C) {
    (c3(&b.min), c3(&b.max))
}
pub fn cloud2(ps: &[P]) -> kuba::PointCloud2 {
    kuba::PointCloud2::from_points(&ps.iter().map(pt2).collect::<Vec<_>>())
}
pub fn cloud3(ps: &[P]) -> kuba::PointCloud3 {
    kuba::PointCloud3::from_points(&ps.iter().map(pt3).collect::<Vec<_>>())
}

pub fn cast_ray(n: usize, o: &P, e: &P, lo: &P, hi: &P, res: f32, max_len: f32) -> Result<(Vec<C>, Option<C>), String> {
    no_panic("cast_ray", || {
        if n == 2 {
            let (v, x) = kuba::ray_caster::cast_ray(&pt2(o), &pt2(e), &b2(lo, hi), res, max_len);
            (v.iter().map(c2).collect(), x.as_ref().map(c2))
        } else {
            let (v, x) = kuba::ray_caster::cast_ray(&pt3(o), &pt3(e), &b3(lo, hi), res, max_len);
            (v.iter().map(c3).collect(), x.as_ref().map(c3))
        }
    })
}
pub fn cast_rays(n: usize, o: &P, pts: &[P], lo: &P, hi: &P, res: f32, max_len: f32) -> Result<(HashSet<C>, HashSet<C>), String> {
    no_panic("cast_rays", || {
        if n == 2 {
            let (f, h) = kuba::ray_caster::cast_rays(&pt2(o), &cloud2(pts), &b2(lo, hi), res, max_len);
            (f.iter().map(c2).collect(), h.iter().map(c2).collect())
        } else {
            let (f, h) = kuba::ray_caster::cast_rays(&pt3(o), &cloud3(pts), &b3(lo, hi), res, max_len);
            (f.iter().map(c3).collect(), h.iter().map(c3).collect())
        }
    })
}

/// Object-safe grid map over any element type.
pub trait GMap<A> {
    fn n(&self) -> usize;
    fn get(&self, c: &C) -> A;
    fn set(&mut self, c: &C, v: A);
    fn resolution(&self) -> f32;
    fn bounds(&self) -> (P, P);
    fn shape(&self) -> C;
    fn tile(&self) -> usize;
    fn point_from_cell(&self, c: &C) -> P;
    fn cell_from_point(&self, p: &P) -> C;
    fn expand(&mut self, lo: &P, hi: &P, v: A);
    fn track(&self) -> bool;
    fn set_track(&mut self, b: bool);
    fn changed(&self) -> Vec<C>;
    fn clear_changed(&mut self);
    fn add_changed(&mut self, c: &[C]);
    fn dup(&self) -> Box<dyn GMap<A>>;
    fn raw_eq(&self) -> Vec<A>;
    fn as_any(&mut self) -> &mut dyn std::any::Any;
}

macro_rules! gmap_impl {
    ($n:expr, $Na:ty, $Nd:ty, $pt:ident, $cl:ident, $up:ident, $uc:ident, $b:ident, $ub:ident) => {
        impl<A: na::Scalar> GMap<A> for kuba::GridMapN<A, $Na, $Nd> {
            fn n(&self) -> usize {
                $n
            }
            fn get(&self, c: &C) -> A {
                GridMap::get(self, &$cl(c))
            }
            fn set(&mut self, c: &C, v: A) {
                GridMap::set(self, &$cl(c), v)
            }
            fn resolution(&self) -> f32 {
                GridMap::resolution(self)
            }
            fn bounds(&self) -> (P, P) {
                $ub(&GridMap::bounds(self))
            }
            fn shape(&self) -> C {
                let s = self.data.shape();
                let mut o = [1i64; 3];
                for i in 0..$n {
                    o[i] = s[i] as i64;
                }
                o
            }
            fn tile(&self) -> usize {
                self.tile_size
            }
            fn point_from_cell(&self, c: &C) -> P {
                $up(&GridMap::point_from_cell(self, &$cl(c)))
            }
            fn cell_from_point(&self, p: &P) -> C {
                $uc(&GridMap::cell_from_point(self, &$pt(p)))
            }
            fn expand(&mut self, lo: &P, hi: &P, v: A) {
                self.expand_bounds(&$b(lo, hi), v)
            }
            fn track(&self) -> bool {
                self.track_changes()
            }
            fn set_track(&mut self, b: bool) {
                self.set_track_changes(b)
            }
            fn changed(&self) -> Vec<C> {
                self.changed_cells().iter().map($uc).collect()
            }
            fn clear_changed(&mut self) {
                self.clear_changed_cells()
            }
            fn add_changed(&mut self, c: &[C]) {
                self.add_changed_cells(c.iter().map($cl).collect())
            }
            fn dup(&self) -> Box<dyn GMap<A>> {
                Box::new(self.clone())
            }
            fn raw_eq(&self) -> Vec<A> {
                self.data.iter().cloned().collect()
            }
            fn as_any(&mut self) -> &mut dyn std::any::Any {
                self
            }
        }
    };
}
gmap_impl!(2, na::U2, nd::Ix2, pt2, cl2, p2, c2, b2, ub2);
gmap_impl!(3, na::U3, nd::Ix3, pt3, cl3, p3, c3, b3, ub3);

pub type Map2<A> = kuba::GridMapN<A, na::U2, nd::Ix2>;
pub type Map3<A> = kuba::GridMapN<A, na::U3, nd::Ix3>;

pub fn new_map<A: na::Scalar>(n: usize, res: f32, lo: &P, hi: &P, tile: usize, v: A) -> Box<dyn GMap<A>> {
    if n == 2 {
        Box::new(Map2::<A>::new(res, b2(lo, hi), tile, v))
    } else {
        Box::new(Map3::<A>::new(res, b3(lo, hi), tile, v))
    }
}
pub fn default_map<A: na::Scalar>(n: usize) -> Box<dyn GMap<A>> {
    if n == 2 {
        Box::new(Map2::<A>::default())
    } else {
        Box::new(Map3::<A>::default())
    }
}
/// The metric box of `size` cells starting at cell `off`.
pub fn size_bounds(n: usize, size: &C, res: f32, off: &C) -> (P, P) {
    if n == 2 {
        ub2(&kuba::Bounds2::from_size_cells(&cl2(size), res, &cl2(off)))
    } else {
        ub3(&kuba::Bounds3::from_size_cells(&cl3(size), res, &cl3(off)))
    }
}

pub fn integrate(nm: &kuba::LidarNoiseModel, m: &mut dyn GMap<f32>, o: &P, pts: &[P]) -> Result<(), String> {
    no_panic("integrate_point_cloud", || {
        if m.n() == 2 {
            let g = m.as_any().downcast_mut::<Map2<f32>>().unwrap();
            nm.integrate_point_cloud(g, &pt2(o), &cloud2(pts));
        } else {
            let g = m.as_any().downcast_mut::<Map3<f32>>().unwrap();
            nm.integrate_point_cloud(g, &pt3(o), &cloud3(pts));
        }
    })
}
pub fn hit(nm: &kuba::LidarNoiseModel, m: &mut dyn GMap<f32>, c: &C) {
    if m.n() == 2 {
        nm.integrate_hit(m.as_any().downcast_mut::<Map2<f32>>().unwrap(), &cl2(c));
    } else {
        nm.integrate_hit(m.as_any().downcast_mut::<Map3<f32>>().unwrap(), &cl3(c));
    }
}
pub fn miss(nm: &kuba::LidarNoiseModel, m: &mut dyn GMap<f32>, c: &C) {
    if m.n() == 2 {
        nm.integrate_miss(m.as_any().downcast_mut::<Map2<f32>>().unwrap(), &cl2(c));
    } else {
        nm.integrate_miss(m.as_any().downcast_mut::<Map3<f32>>().unwrap(), &cl3(c));
    }
}
pub fn occupied(nm: &kuba::LidarNoiseModel, m: &mut dyn GMap<f32>, c: &C) -> bool {
    if m.n() == 2 {
        nm.occupied(&*m.as_any().downcast_mut::<Map2<f32>>().unwrap(), &cl2(c))
    } else {
        nm.occupied(&*m.as_any().downcast_mut::<Map3<f32>>().unwrap(), &cl3(c))
    }
}

/// World index (cell relative to the world origin) of the map's cell [0,0,0].
pub fn world_min<A>(m: &dyn GMap<A>) -> C {
    let (lo, _) = m.bounds();
    let r = m.resolution() as f64;
    let mut o = [0i64; 3];
    for i in 0..m.n() {
        o[i] = (lo[i] as f64 / r).round() as i64;
    }
    o
}
pub fn add(a: &C, b: &C) -> C {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn subc(a: &C, b: &C) -> C {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn inside(c: &C, shape: &C, n: usize) -> bool {
    (0..n).all(|i| c[i] >= 0 && c[i] < shape[i])
}
/// All cells of a shape, in order.
pub fn cells(shape: &C, n: usize) -> impl Iterator<Item = C> {
    let s = *shape;
    let d = if n == 3 { s[2] } else { 1 };
    (0..s[0]).flat_map(move |x| (0..s[1]).flat_map(move |y| (0..d).map(move |z| [x, y, z])))
}
