#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
        mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

add("C01", "Points map to their nearest cell and cells map back to their own centre",
 "For any positive resolution (scalar or per-axis) and any offset, a point is assigned, independently on every axis, to the cell whose centre (offset + index*resolution) is nearest to it - either neighbour when it lies on the boundary up to float rounding. The centre computed for a cell is that offset + index*resolution and converts back to the same cell, and a grid map's own conversions do the same relative to its lower corner, giving a point of the map that lies exactly on the boundary of two cells to the higher one.",
 ["inputs"], "All resolutions, offsets, cells and points whose coordinates are representable to well under one cell, in 2-D and 3-D, scalar and per-axis resolution, free functions and map methods.",
 "The unit tests walk one diagonal (all axes equal, 200 cells) at resolution 0.1 with one offset; sign combinations, other resolutions, far-away offsets and independent axes are never sampled.",
 ["src/geom/converter.rs","src/map/grid_map.rs","src/map/occupancy_grid_map.rs"],
 [("round((p-offset)/resolution) and index*resolution+offset","src/geom/converter.rs:cell_coord_from_point_coord, point_coord_from_cell_coord"),("map methods pass bounds.min as the offset","src/map/grid_map.rs:point_from_cell, cell_from_point")],
 observe=["geom::converter::*", "GridMap::cell_from_point / point_from_cell"])

add("C02", "Union and intersection of boxes are exact, order-independent and tight",
 "Enclosing two boxes gives, on every axis, the smaller minimum and the larger maximum, except that when the receiver is the empty box (all zeros) the result is just the other box. Overlapping two boxes gives the larger minimum and smaller maximum on every axis when they share volume and the empty box when they are disjoint or only touch on some axis, whichever operand is the receiver. Constructing a box from corners accepts exactly those with min <= max on every axis, and boxes compare approximately equal exactly when every corner coordinate does.",
 ["inputs"], "All pairs of finite boxes in 2-D and 3-D, including degenerate, touching, nested, identical and far-apart ones.",
 "Tests use a dozen fixed box pairs; nothing samples degenerate boxes, mixed per-axis relations (overlap on one axis, gap on another), sign mixes or commutativity.",
 ["src/geom/bounds.rs","src/geom/cell_bounds.rs"],
 [("per-axis min/max with special empty receiver","src/geom/bounds.rs:enclosing"),("per-axis intersection with touch test","src/geom/bounds.rs:overlapping"),("corner assertion","src/geom/bounds.rs:new, src/geom/cell_bounds.rs:new"),("AbsDiffEq/RelativeEq","src/geom/bounds.rs")],
 observe=["Bounds::enclosing", "Bounds::overlapping", "Bounds::new", "CellBounds::new", "approx traits"])

add("C03", "Rounding a box to a grid or tile size always contains the box, tightly",
 "Rounding a metric box to a resolution yields a box that contains it (up to float rounding), whose corners are multiples of the resolution, and that is less than one cell larger on each side; with the expand flag, a maximum already lying on a multiple grows by exactly one cell and any other maximum just rounds up. Rounding a cell box to a tile size yields exactly the smallest tile-aligned box containing it, for negative, zero and positive coordinates alike.",
 ["inputs"], "All finite boxes, resolutions and tile sizes >= 1, in 2-D and 3-D.",
 "Tests cover tile sizes 2 and 100 and resolution 0.1 on a handful of boxes; large or odd tiles, sign-crossing boxes, exact multiples and independent axes are unsampled.",
 ["src/geom/bounds.rs","src/geom/cell_bounds.rs"],
 [("floor/ceil with alignment test","src/geom/bounds.rs:discretized"),("remainder arithmetic on signed cells","src/geom/cell_bounds.rs:discretized")],
 observe=["Bounds::discretized","CellBounds::discretized"])

add("C04", "Metric boxes and cell boxes convert into each other without drift",
 "A box built from cell corners (or from a size and an offset in cells, with scalar or per-axis resolution) has corners at exactly cell*resolution on every axis, and converting it back at the same resolution returns the same cells. Converting any metric box to cells picks the nearest cell of each corner, and a map created over a box of a given size in cells has exactly that many cells along each axis.",
 ["inputs"], "All cell boxes, sizes, offsets and resolutions for which coordinates are representable to well under one cell, in 2-D and 3-D.",
 "Tests check three small boxes at resolution 0.1; the round trip and the resulting map shape are never checked together.",
 ["src/geom/bounds.rs","src/geom/cell_bounds.rs","src/map/grid_map.rs"],
 [("from_cell_bounds(_n), from_size_cells(_n)","src/geom/bounds.rs"),("from_bounds","src/geom/cell_bounds.rs"),("array sized from the box","src/map/grid_map.rs:ndarray_with_bounds")],
 observe=["Bounds::from_*","CellBounds::from_bounds","GridMapN::new shape"])

add("C05", "A traced ray is exactly the chain of cells the segment crosses",
 "Tracing a ray always terminates and, with no range limit, returns the cells from the origin's cell up to but excluding the endpoint's cell plus the endpoint's cell itself; consecutive cells (including the last one and the endpoint) share a face, none repeats, and the chain takes exactly as many steps as the endpoints' cells are apart axis by axis. Every cell in the chain is touched by the segment and every cell the segment clearly passes through is in it; if both points share a cell the chain is empty and that cell is the endpoint.",
 ["inputs"], "All finite origins, endpoints, box offsets and resolutions in 2-D and 3-D, including points on cell boundaries and corners, axis-parallel, nearly axis-parallel and diagonal rays in every direction.",
 "Tests trace about 30 short rays (<= 4 cells) with hand-written answers; float error accumulates with ray length and bites only when the endpoint lies near a cell boundary, which they never sample.",
 ["src/ray_caster.rs","src/geom/vector.rs","src/geom/converter.rs"],
 [("incremental voxel traversal (t_max/t_delta)","src/ray_caster.rs:cast_ray"),("stop when the endpoint's cell is reached","src/ray_caster.rs:cast_ray")],
 state=[("t_max","distance along the ray to the next border on each axis","src/ray_caster.rs:cast_ray")],
 observe=["ray_caster::cast_ray"])

add("C06", "A positive range limit cuts a ray at the first cell centre beyond it",
 "With a positive maximum length, tracing walks the same chain of cells as without a limit and stops at the first one - other than the origin's and the endpoint's own cells - whose centre is farther from the origin than the limit: the cells before it are returned and no endpoint is reported. If there is no such cell the whole chain and the endpoint are reported, and a limit of zero or less means no limit.",
 ["inputs"], "All rays and limits, including limits shorter than a cell, limits equal or close to a cell-centre distance, and limits longer than the ray, in 2-D and 3-D.",
 "Two fixed rays exercise the limit; the relation between limited and unlimited traces is never checked.",
 ["src/ray_caster.rs"], [("squared distance of the cell centre against max_len","src/ray_caster.rs:cast_ray")],
 observe=["ray_caster::cast_ray"])

add("C07", "A scan splits cells into disjoint free and hit sets; a hit beats a pass-through",
 "For a whole point cloud, the hit cells are exactly the cells of the returns whose rays reach their endpoint within the range limit, and the free cells are exactly the cells passed through by any ray minus the hit cells. The two sets never intersect and do not depend on the order or repetition of points.",
 ["inputs"], "All origins, clouds (empty, repeated, shadowing one another, out of range), boxes, resolutions and limits in 2-D and 3-D.",
 "Two clouds of 3-4 points with non-interacting rays are tested; shadowing, duplicates, truncation and permutation are not.",
 ["src/ray_caster.rs"], [("fold of per-ray results, then removal of hit cells","src/ray_caster.rs:cast_rays")],
 observe=["ray_caster::cast_rays"])

add("C08", "A grid map stores one independent value per cell and rejects foreign cells",
 "Reading a cell returns the value last written to it, or the map's default if it was never written, and writing one cell changes no other. A cell index outside the map (negative or beyond its size on any axis) is rejected with a panic for reads and writes alike and never aliases another cell. A clone is equal and fully independent, and the 2-D and 3-D map type names denote maps of that dimension.",
 ["histories","inputs"], "All write/read/clone histories on maps of any shape (including empty and one-cell-thick), element types and 2-D/3-D.",
 "Tests read and write a 2x2(x2) array a few times; negative indices, uneven shapes and clones are never exercised.",
 ["src/map/grid_map.rs","src/geom/cell.rs"],
 [("ndarray storage indexed by the cell","src/map/grid_map.rs:get,set"),("signed cell transmuted to unsigned index, checked by ndarray","src/geom/cell.rs:to_ndindex"),("type aliases","src/map/grid_map.rs")],
 state=[("data","dense array of cell values","src/map/grid_map.rs:GridMapN"),("bounds","metric box of the array","src/map/grid_map.rs:GridMapN")],
 observe=["GridMap::get / set","GridMapN::clone","GridMap2i/3i/2b/3b"])

add("C09", "Growing a map keeps every stored value at its place in the world",
 "After any sequence of writes and growth requests, reading the cell at any world position that was inside the map returns the value it had before the growth, and every newly added cell holds the default value given to that growth request. The world position of a cell's centre is unchanged by growth, a map never shrinks, and its array shape always matches its metric box.",
 ["histories"], "All histories of writes, clones and growth requests (any direction, any overlap with the current box, any tile size and resolution, far from the origin) from an empty or pre-sized map, in 2-D and 3-D.",
 "Each expand test performs a single growth of a 2x2(x2) map with tile size 2, with all axes growing alike; per-axis offsets and repeated growth never occur.",
 ["src/map/grid_map.rs","src/geom/bounds.rs","src/geom/cell_bounds.rs"],
 [("copy of the old array into a slice at the cell offset","src/map/grid_map.rs:expand_bounds (2-D and 3-D copies)")],
 state=[("data","dense array","src/map/grid_map.rs:GridMapN"),("bounds","metric box","src/map/grid_map.rs:GridMapN")],
 observe=["ExpandableGridMap::expand_bounds, GridMap::get/bounds/point_from_cell"])

add("C10", "Growing a map makes room for every requested point, in whole tiles",
 "After a growth request for a box, the cell of every point of that box (its corners and faces included) is a valid cell of the map. A map that grew has both corners at multiples of the tile size, reaches on each side at most one cell beyond the cells of its old extent and of the request before that rounding to tiles, and repeating a request changes nothing.",
 ["inputs","histories"], "All requested boxes (including degenerate ones and corners on, just below and just above cell and tile boundaries), tile sizes and resolutions, on empty and non-empty maps, in 2-D and 3-D.",
 "Tests only request boxes whose corners are exact multiples of the resolution away from tile edges; a maximum in the upper half of the last cell before a tile edge is never tried.",
 ["src/map/grid_map.rs","src/geom/bounds.rs","src/geom/cell_bounds.rs"],
 [("outward rounding to cells, then tiles","src/map/grid_map.rs:expand_bounds, src/geom/bounds.rs:discretized, src/geom/cell_bounds.rs:discretized")],
 observe=["expand_bounds then cell_from_point + get"])

add("C11", "Integrating any scan succeeds and the map then covers the scan and the sensor",
 "Integrating a point cloud of finite points from any finite sensor position completes without panicking or running away, whatever the map held before and however the sensor, the points and the map lie relative to one another, and allocates no more than their joint extent needs. Afterwards the cell of the sensor position and of every point is a valid cell of the map (an empty cloud leaves the map's values alone).",
 ["histories","inputs"], "All histories of scans with finite points and sensor positions whose joint extent fits in memory: sensor inside or outside the cloud's box and the map, points on cell/tile boundaries, anywhere in the world, any range limit, 2-D and 3-D.",
 "The integration tests use one 2-3 point cloud with the sensor at the origin, away from tile edges; out-of-map rays, sensors outside the cloud and edge-of-tile returns are never tried.",
 ["src/map/lidar_noise_model.rs","src/map/grid_map.rs","src/ray_caster.rs","src/geom/point_cloud.rs"],
 [("map grown to the cloud's box before ray casting","src/map/lidar_noise_model.rs:integrate_point_cloud"),("every traced cell must be inside the grown map","src/ray_caster.rs:cast_ray")],
 observe=["NoiseModel::integrate_point_cloud, OccupancyGridMapN::integrate_point_cloud"])

add("C12", "Each scan updates each observed cell once: hit if a return ends there, else miss",
 "Integrating a scan adds the hit evidence exactly once (clamped to the maximum) to every cell in which an in-range return ends, adds the miss evidence exactly once (clamped to the minimum) to every other cell that any of the scan's rays passes through before its endpoint or the range limit, and leaves every other cell unchanged. This holds regardless of how many rays cross the cell, the order of the points, and the growth of the map during the scan.",
 ["histories","inputs"], "All histories of scans over all maps, sensor positions, clouds, noise-model parameters and range limits, in 2-D and 3-D.",
 "The tests repeat one non-interacting 2-3 point scan; shared cells, shadowing, range truncation, growth between scans and independent geometry are not sampled.",
 ["src/map/lidar_noise_model.rs","src/ray_caster.rs","src/map/grid_map.rs"],
 [("one pass over the free set and one over the hit set","src/map/lidar_noise_model.rs:integrate_point_cloud"),("set semantics and hit-over-free removal","src/ray_caster.rs:cast_rays")],
 observe=["map values before/after integrate_point_cloud"])

add("C13", "Cell evidence saturates at the configured limits and decides occupancy",
 "With hit probability >= 0.5 >= miss probability and limits around 0.5, every value produced by any sequence of hits and misses stays within the configured minimum and maximum log-odds; a hit never lowers and a miss never raises a value already within them, and each changes it by exactly the configured log-odds except where clamped. A cell is occupied exactly when its value exceeds the occupancy threshold, unobserved cells have value zero, and model parameters outside [0,1] are rejected.",
 ["histories","configurations"], "All noise-model configurations in that range and all hit/miss histories, on maps of either dimension.",
 "Tests use only the default parameters and at most six repetitions of one scan.",
 ["src/map/lidar_noise_model.rs","src/math.rs"],
 [("min/max clamping","src/map/lidar_noise_model.rs:integrate_hit, integrate_miss"),("threshold test","src/map/lidar_noise_model.rs:occupied"),("parameter assertions and log-odds conversion","src/map/lidar_noise_model.rs:new")],
 observe=["LidarNoiseModel::integrate_hit/integrate_miss/occupied"])

add("C14", "Change tracking reports exactly the cells each scan updated, at their place",
 "While change tracking is on, each integrated scan adds to the reported cells exactly the cells it updated, each once, even those whose value was already saturated; while it is off, as on every new map, nothing is added. Clearing empties the report, toggling does not, reported cells survive until cleared, and a cell reported before the map grows still denotes the same place in the world afterwards.",
 ["histories"], "All histories of scans, growth requests, toggles, clears and clones, in 2-D and 3-D.",
 "No existing test turns change tracking on.",
 ["src/map/lidar_noise_model.rs","src/map/grid_map.rs","src/map/occupancy_grid_map.rs"],
 [("cells pushed alongside updates","src/map/lidar_noise_model.rs:integrate_point_cloud"),("changed_cells list","src/map/grid_map.rs")],
 state=[("changed_cells","cells updated since the last clear","src/map/grid_map.rs:GridMapN"),("track_changes","flag","src/map/grid_map.rs:GridMapN")],
 observe=["GridMap::changed_cells / clear_changed_cells / set_track_changes"])

add("C15", "The map of the world does not depend on tile size, growth history or point order",
 "Integrating the same sequence of scans into maps that differ only in tile size, in having been grown in advance or between scans, or in the order and repetition of points within each scan yields the same value at every world position both maps cover, and default values where only one reaches. Shifting sensor and points of every scan by a whole number of cells shifts the resulting map by that many cells.",
 ["histories","configurations"], "All scan histories with exactly representable coordinates, tile sizes, growth schedules, point permutations and whole-cell translations, in 2-D and 3-D.",
 "No test compares two maps; tile sizes other than the default are never combined with integration.",
 ["src/map/lidar_noise_model.rs","src/map/grid_map.rs","src/ray_caster.rs"],
 [("growth preserves content; rays are traced relative to the map's lower corner","src/map/grid_map.rs, src/ray_caster.rs")],
 observe=["map values keyed by world cell"])

add("C16", "A point cloud keeps its points in order and its box is their bounding box",
 "A cloud built from a list of points has that many points and yields them back unchanged and in order. Its bounds contain every point and are tight: each face touches some point; an empty cloud has the empty box.",
 ["inputs"], "All lists of finite points of any length, anywhere in the world, in 2-D and 3-D.",
 "One two-point cloud around the origin is tested, so neither clouds away from the origin nor larger ones are sampled.",
 ["src/geom/point_cloud.rs"],
 [("column-per-point matrix","src/geom/point_cloud.rs:from_points, points_iter"),("fold of min/max","src/geom/point_cloud.rs:bounds")],
 observe=["PointCloud::from_points / points_iter / num_points / bounds"])

add("C17", "Transforming a cloud applies the transform to every point, in order",
 "Transforming a point cloud by an affine transform moves each point p to R*p + t with no point dropped, added or reordered, leaves the original cloud unchanged, and the identity changes nothing. Transforming by a rigid pose preserves all pairwise distances, and transforming by A then B equals transforming by B*A up to float rounding.",
 ["inputs"], "All clouds (including empty) and all finite affine transforms of moderate size, rigid poses in particular.",
 "transform has no test at all.",
 ["src/geom/point_cloud.rs"], [("homogeneous matrix product","src/geom/point_cloud.rs:transform")],
 observe=["PointCloud3::transform"])

add("C18", "Velodyne scans decode to exactly the stored x, y, z of every record in order",
 "Decoding a byte stream of n 16-byte records (x, y, z, intensity as native-order 32-bit floats) yields a cloud of n points with exactly those x, y, z bit patterns in file order, whatever the intensity values and however the stream is split into partial or interrupted reads.",
 ["inputs","schedules"], "All record counts (zero to beyond typical 100k-point scans), all float bit patterns and all read-chunking schedules.",
 "The readers have no tests.",
 ["src/kitti/point_cloud_reader.rs"],
 [("whole-file read, f32 decode, drop every fourth value","src/kitti/point_cloud_reader.rs:read")],
 observe=["kitti::point_cloud_reader::read / read_from_file"])

add("C19", "A GPS/IMU record decodes to its roll/pitch/yaw pose and GPS fix",
 "Decoding a record of at least six space-separated numbers (latitude, longitude, altitude, roll, pitch, yaw, then any further numbers) gives a pose whose rotation is yaw about z after pitch about y after roll about x. Without a GPS origin the translation is zero and the record's own fix is returned as the origin; with one, that origin is returned unchanged, the altitude difference is the z translation and a record at the origin has zero translation.",
 ["inputs"], "All finite values within physical ranges, number formats accepted by the float parser, numbers of trailing fields and optional origins.",
 "The readers have no tests.",
 ["src/kitti/oxt_reader.rs"],
 [("split on spaces, parse first six","src/kitti/oxt_reader.rs:read"),("UnitQuaternion::from_euler_angles","src/kitti/oxt_reader.rs:read")],
 observe=["kitti::oxt_reader::read / read_from_file"])

add("C20", "GPS offsets become metres east and north that match the earth to about 1%",
 "For two GPS fixes a few kilometres apart anywhere between 80 degrees south and north - including across the equator, the prime meridian and the 180-degree meridian - the x translation is the eastward and y the northward distance in metres from the origin, correct in sign and to within about one percent.",
 ["inputs"], "All origins with |latitude| <= 80 degrees and all displacements up to a few kilometres.",
 "The conversion is private and untested; an error in the longitude scale is invisible at the equator and grows with latitude.",
 ["src/kitti/oxt_reader.rs"],
 [("degrees to metres using the earth's circumference and cos(latitude)","src/kitti/oxt_reader.rs:gps_to_meters")],
 observe=["translation of kitti::oxt_reader::read with an origin"])

add("C21", "Reading a recorded drive keeps every frame, in index order, relative to frame 0",
 "Reading a directory of zero-padded, index-named files returns one entry per file in index order, however the files were created (links to files stored elsewhere included) and whatever follows the index in their names, with or without progress output, each equal to reading that file alone. For GPS/IMU records the first pose has zero translation and every pose is relative to the first record's fix.",
 ["inputs","histories"], "All numbers of files, index sets with gaps, file-creation orders and contents.",
 "The directory readers have no tests and the OS listing order varies.",
 ["src/kitti/fs.rs","src/kitti/oxt_reader.rs","src/kitti/point_cloud_reader.rs"],
 [("sorted directory listing","src/kitti/fs.rs:seq_files_in_dir"),("origin threaded from the first record","src/kitti/oxt_reader.rs:read_from_dir")],
 observe=["kitti::*::read_from_dir, kitti::fs::seq_files_in_dir"])

add("C22", "Probability and log-odds conversions are monotone mutual inverses",
 "Converting a probability in [0,1] to log-odds gives ln(p/(1-p)) and converting log-odds to a probability gives 1/(1+e^-l), within float accuracy; both are monotone, map 0, 0.5 and 1 to -infinity, 0 and +infinity (and back), stay in range, are symmetric around one half, and undo each other. The sign of a number or vector component is -1, 0 or 1 with its value.",
 ["inputs"], "All finite and infinite 32-bit inputs in the stated ranges.",
 "Tests compare seven constants in each direction.",
 ["src/math.rs","src/geom/vector.rs"],
 [("closed forms","src/math.rs"),("component-wise signum","src/geom/vector.rs:signum")],
 observe=["math::*", "geom::vector::signum"])

add("C23", "The occupancy map is its noise model applied to its grid, nothing more or less",
 "Over any history, an occupancy map reports the same values, bounds, resolution, cell and point conversions, occupancy, change-tracking state and changed cells as a plain grid map of the same configuration to which the same writes, scans and tracking calls are applied through its noise model. Default-constructed maps have the documented default resolution, tile size and noise parameters.",
 ["histories","configurations"], "All histories of scans, writes, tracking operations and growth on 2-D and 3-D occupancy maps with any configuration.",
 "No existing test constructs an occupancy map.",
 ["src/map/occupancy_grid_map.rs","src/map/grid_map.rs","src/map/lidar_noise_model.rs"],
 [("delegation","src/map/occupancy_grid_map.rs")],
 observe=["LidarOccupancyGridMap2/3 public methods"])

add("C24", "Replaying a recorded drive marks every in-range return of the latest scan",
 "Reading a drive's poses and scans from disk, transforming each scan by its pose and integrating them in order from each pose's position succeeds for every well-formed drive, and after each scan the cell of every return within range holds its previous evidence plus one hit, clamped. With the default noise model, a map holding a single scan reports exactly the cells of its in-range returns as occupied.",
 ["histories","inputs"], "All drives of consistent poses and scans: turning, climbing, moving in any compass direction, any number of frames and returns.",
 "No test connects the readers, the transform and the map.",
 ["src/kitti/oxt_reader.rs","src/kitti/point_cloud_reader.rs","src/kitti/fs.rs","src/geom/point_cloud.rs","src/map/occupancy_grid_map.rs","viz/src/bin/draw_occupancy_grid.rs"],
 [("the pipeline of the visualiser binary","viz/src/bin/draw_occupancy_grid.rs:main")],
 observe=["files on disk to OccupancyGridMapN::occupied/get"])

add("C25", "Malformed, truncated or failing sensor input is an error, never a panic or guess",
 "A point-cloud stream whose length is not a whole number of records, a GPS/IMU record with fewer than six fields, a non-number among the first six or invalid text, a missing file or directory, and any read error are each reported as an error. A directory containing one bad record file fails as a whole, and no byte content or file name makes a reader panic.",
 ["inputs","fault_sequences"], "All byte strings, all truncation points, and all positions of I/O errors in the stream.",
 "The readers have no tests.",
 ["src/kitti/point_cloud_reader.rs","src/kitti/oxt_reader.rs","src/kitti/fs.rs"],
 [("length check","src/kitti/point_cloud_reader.rs:read"),("field count and number checks","src/kitti/oxt_reader.rs:read, str_to_float"),("error propagation by ? and collect","src/kitti/*.rs:read_from_dir")],
 observe=["io::Result of the readers"])

add("C26", "The visualiser draws exactly the cells that are currently occupied",
 "Playing a drive, the visualiser integrates its scans one after the other (starting over at its end) and in every frame draws exactly the centres of the cells its map reported as occupied after the scans shown so far - each at its world position, none missing, none stale after the map has grown - never skipping a scan and always catching up, without the render loop stopping.",
 ["schedules","histories"], "All scan sequences and interleavings of the render and integration threads.",
 "The viz crate has no tests, is not built with the library and needs a window.",
 ["viz/src/bin/draw_occupancy_grid.rs"],
 [("changed cells handed over under a mutex","viz/src/bin/draw_occupancy_grid.rs:integrate_next_pointcloud")],
 observe=["kiss3d window"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
