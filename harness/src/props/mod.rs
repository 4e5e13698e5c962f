mod basics;
mod kitti;
mod maps;
mod rays;
mod scans;
mod viz;
use crate::engine::PropDef;

pub fn all() -> Vec<PropDef> {
    let mut v = vec![];
    v.extend(basics::defs());
    v.extend(rays::defs());
    v.extend(maps::defs());
    v.extend(scans::defs());
    v.extend(kitti::defs());
    v.extend(viz::defs());
    v.sort_by_key(|p| p.id);
    v
}
