//! Geometry: hierarchies, boxes, intersections.
use crate::scene::*;
use serde_json::{json, Value};
use solstrale::geo::vec3::Vec3;
use solstrale::geo::{Aabb, Ray};
use solstrale::hittable::{Bvh, Hittable, Hittables};
use solstrale::material::RayHit;
use solstrale::util::interval::Interval;

/// Everything a hit says, for exact comparison.
fn data(h: &RayHit) -> String {
    format!("{:?} {:?} {:?} {:?} {} {:?}", h.hit_point, h.normal, h.uv, h.ray_length, h.front_face, h.material)
}

fn pattern(objs: &[Hittables], r: &Ray, iv: &Interval) -> (Vec<bool>, i64) {
    let hits: Vec<Option<f64>> = objs.iter().map(|o| o.hit(r, iv).map(|h| h.ray_length)).collect();
    let best = hits.iter().enumerate().filter(|(_, h)| h.is_some())
        .min_by(|a, b| a.1.unwrap().total_cmp(&b.1.unwrap())).map_or(-1, |(i, _)| i as i64);
    (hits.iter().map(|h| h.is_some()).collect(), best)
}

/// A hierarchy against its own primitive members: {objs: [shape..], rays: [{o,d,iv}..]}
/// For each ray: rank[i] = rank of the length of member i's own hit among all lengths (0 = no hit),
/// got = rank of the hierarchy's length (0 = no hit, -1 = a length no member has),
/// same = members whose own hit record is identical to the hierarchy's,
/// robust = whether a tiny displacement of the ray leaves every member's verdict as it is.
pub fn nearest(c: &Value) -> Vec<Value> {
    let objs = leaves(&c["objs"]);
    let bvh = Bvh::new(list(&c["objs"]));
    // copies of a hierarchy are hierarchies, too
    let bvh = if c["clone"].as_bool().unwrap_or(false) { bvh.clone() } else { bvh };
    let mut out = vec![];
    for rj in arr(&c["rays"]) {
        let r = ray(rj);
        let iv = interval(&rj["iv"]);
        let hits: Vec<Option<RayHit>> = objs.iter().map(|o| o.hit(&r, &iv)).collect();
        let mut ts: Vec<f64> = hits.iter().flatten().map(|h| h.ray_length).collect();
        ts.sort_by(f64::total_cmp);
        ts.dedup();
        let rank = |t: f64| ts.iter().position(|x| *x == t).map_or(-1, |p| p as i64 + 1);
        let ranks: Vec<i64> = hits.iter().map(|h| h.as_ref().map_or(0, |h| rank(h.ray_length))).collect();
        let got = bvh.hit(&r, &iv);
        let same: Vec<usize> = match &got {
            None => vec![],
            Some(g) => {
                let gd = data(g);
                hits.iter().enumerate()
                    .filter(|(_, h)| h.as_ref().is_some_and(|h| h.ray_length == g.ray_length && data(h) == gd))
                    .map(|(i, _)| i + 1).collect()
            }
        };
        let p0 = pattern(&objs, &r, &iv);
        let e = 1e-6;
        let robust = [(e, 0., 0.), (-e, 0., 0.), (0., e, 0.), (0., -e, 0.), (0., 0., e), (0., 0., -e)].iter().all(|d| {
            let d = Vec3::new(d.0, d.1, d.2);
            let a = pattern(&objs, &Ray::new(r.origin + d, r.direction), &iv);
            let b = pattern(&objs, &Ray::new(r.origin, r.direction + d), &iv);
            a.0 == p0.0 && b.0 == p0.0
        });
        out.push(json!({"ev": "nearest", "n": objs.len(), "rank": ranks,
            "got": got.as_ref().map_or(0, |g| rank(g.ray_length)), "same": same, "robust": robust}));
    }
    out
}

/// One shape, rays, and the pose they are in: {shape, s, M, T, scale, ds, rays: [{o,d,iv,lo,ld,a,b}], uvok}
/// Measurements are mapped back through the pose x -> M x + T, M = scale * rotation.
pub fn hits(c: &Value) -> Vec<Value> {
    let objs = shapes(&c["shape"]);
    let (m, t0, sc, ds) = (arr(&c["M"]).iter().map(f).collect::<Vec<f64>>(), v3(&c["T"]), f(&c["scale"]), f(&c["ds"]));
    // transposed matrix over scale^2 = inverse
    let back = |v: Vec3| Vec3::new(m[0] * v.x + m[3] * v.y + m[6] * v.z, m[1] * v.x + m[4] * v.y + m[7] * v.z, m[2] * v.x + m[5] * v.y + m[8] * v.z);
    let mut out = vec![];
    for rj in arr(&c["rays"]) {
        let r = ray(rj);
        let iv = interval(&rj["iv"]);
        let best = objs.iter().filter_map(|o| o.hit(&r, &iv)).min_by(|a, b| a.ray_length.total_cmp(&b.ray_length));
        let mut e = json!({"ev": "hit", "s": c["s"], "o": rj["lo"], "d": rj["ld"], "lo": rj["a"], "hi": rj["b"], "got": best.is_some(),
            "t": 0, "p": [0, 0, 0], "n": [0, 0, 0], "front": false, "uv": [0, 0], "cu": 0, "su": 0, "cv": 0, "uvok": c["uvok"], "exact": c["exact"] == true});
        if let Some(h) = best {
            e["t"] = json!(q(h.ray_length * ds, 1e6));
            e["p"] = qv(back(h.hit_point - t0) * (1. / (sc * sc)), 1e6);
            e["n"] = qv(back(h.normal) * (1. / sc), 1e6);
            e["front"] = json!(h.front_face);
            e["uv"] = quv(h.uv, 1e6);
            let (a, b) = (h.uv.u as f64 * 2. * std::f64::consts::PI, h.uv.v as f64 * std::f64::consts::PI);
            e["cu"] = json!(q(a.cos(), 1e4));
            e["su"] = json!(q(a.sin(), 1e4));
            e["cv"] = json!(q(b.cos(), 1e4));
        }
        out.push(e);
    }
    out
}

fn lohi(b: &Aabb, scale: f64) -> (Value, Value) {
    (qv(Vec3::new(b.x.min, b.y.min, b.z.min), scale), qv(Vec3::new(b.x.max, b.y.max, b.z.max), scale))
}

/// {shape, s, unit, thin, pad}
pub fn bbox(c: &Value) -> Vec<Value> {
    let objs = shapes(&c["shape"]);
    let unit = f(&c["unit"]);
    let b = if objs.len() == 1 { objs[0].bounding_box().clone() } else { Bvh::new(objs).bounding_box().clone() };
    let (lo, hi) = lohi(&b, 1000. / unit);
    vec![json!({"ev": "bbox", "s": c["s"], "lo": lo, "hi": hi, "thin": c["thin"], "pad": c["pad"],
        "wide": [b.x.max - b.x.min > 1e-9, b.y.max - b.y.min > 1e-9, b.z.max - b.z.min > 1e-9]})]
}

/// {shape, s, M, T, ds, rays: [{o, d, lo, ld}]}: rays and the box of a shape they meet
pub fn boxhit(c: &Value) -> Vec<Value> {
    let objs = shapes(&c["shape"]);
    let b = if objs.len() == 1 { objs[0].bounding_box().clone() } else { Bvh::new(objs).bounding_box().clone() };
    arr(&c["rays"]).iter().map(|r| json!({"ev": "boxhit", "s": c["s"], "o": r["lo"], "d": r["ld"], "got": b.hit(&ray(r)), "turned": c["turned"]})).collect()
}

/// {items}: the box of a hierarchy and the boxes of its members
pub fn union(c: &Value) -> Vec<Value> {
    let items = list(&c["items"]);
    let boxes: Vec<Value> = items.iter().filter(|i| i.bounding_box().x.min <= i.bounding_box().x.max).map(|i| {
        let (a, b) = lohi(i.bounding_box(), 1e6);
        json!([a, b])
    }).collect();
    let h = Bvh::new(items);
    let b = h.bounding_box();
    let (lo, hi) = lohi(b, 1e6);
    vec![json!({"ev": "union", "boxes": boxes, "lo": lo, "hi": hi, "empty": b.x.min > b.x.max && b.y.min > b.y.max && b.z.min > b.z.max})]
}

/// {blo, bhi, unit, ds, from: [mode], rays: [[o, d, negzero mask]..]}
pub fn slab(c: &Value) -> Vec<Value> {
    let (unit, ds) = (f(&c["unit"]), f(&c["ds"]));
    let (l, h) = (v3(&c["blo"]) * unit, v3(&c["bhi"]) * unit);
    let b = match s(c, "mode") {
        "two" => Aabb::new_from_2_points(l, h),
        "swapped" => Aabb::new_from_2_points(Vec3::new(h.x, l.y, h.z), Vec3::new(l.x, h.y, l.z)),
        "three" => Aabb::new_from_3_points(Vec3::new(h.x, l.y, h.z), Vec3::new(l.x, l.y, l.z), Vec3::new(l.x, h.y, h.z)),
        "padded" => Aabb::new_from_2_points(l, h).pad_if_needed(),
        "shifted" => &Aabb::new_from_2_points(l + Vec3::new(1., 2., 3.), h + Vec3::new(1., 2., 3.)) + Vec3::new(-1., -2., -3.),
        _ => Aabb::default().combine(&Aabb::new_from_2_points(l, l)).combine(&Aabb::new_from_2_points(h, l)),
    };
    arr(&c["rays"]).iter().map(|r| {
        let mask = int(&r[2]);
        let mut d = v3(&r[1]) * ds;
        if mask & 1 != 0 && d.x == 0. { d.x = -0.0 }
        if mask & 2 != 0 && d.y == 0. { d.y = -0.0 }
        if mask & 4 != 0 && d.z == 0. { d.z = -0.0 }
        json!({"ev": "slab", "blo": c["blo"], "bhi": c["bhi"], "o": r[0], "d": r[1], "got": b.hit(&Ray::new(v3(&r[0]) * unit, d))})
    }).collect()
}

/// {blo, bhi, plo, phi, shift}
pub fn center(c: &Value) -> Vec<Value> {
    let b = Aabb::new_from_2_points(v3(&c["blo"]), v3(&c["bhi"]));
    let (slo, shi) = lohi(&(&b + v3(&c["shift"])), 1e6);
    let (clo, chi) = lohi(&b.combine(&Aabb::new_from_2_points(v3(&c["plo"]), v3(&c["phi"]))), 1e6);
    vec![json!({"ev": "center", "blo": c["blo"], "bhi": c["bhi"], "plo": c["plo"], "phi": c["phi"], "shift": c["shift"],
        "center": qv(b.center(), 1e6), "diag": q(b.diagonal_length(), 1e6), "slo": slo, "shi": shi, "clo": clo, "chi": chi})]
}

/// {tr, real, ps: [[p, dir]..]}
pub fn trans(c: &Value) -> Vec<Value> {
    let t = transformer(&c["real"]);
    arr(&c["ps"]).iter().map(|x| json!({"ev": "trans", "tr": c["tr"], "p": x[0], "dir": x[1],
        "got": qv(t.transform(v3(&x[0]), x[1].as_bool().unwrap()), 1e6)})).collect()
}
