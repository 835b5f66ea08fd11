//! Scattering: mirrors, glass, emitters, blends.
use crate::scene::*;
use crate::stats::*;
use serde_json::{json, Value};
use solstrale::geo::vec3::Vec3;
use solstrale::geo::{Onb, Ray};
use solstrale::hittable::{Hittable, Hittables};
use solstrale::material::{Material, RayHit, RayScatter};
use solstrale::util::interval::RAY_INTERVAL;

/// {ev, mat | shape, v, ds, n, h, front, uv, hp, M, T, scale, total, m, seed, fuzz, ior, want}:
/// rays along v scattered by a surface of normal n / h
pub fn optics(c: &Value) -> Vec<Value> {
    let p = Pose::new(c);
    let v = v3(&c["v"]);
    let vl = v.length();
    let (n, total) = (v3(&c["n"]) * (1. / f(&c["h"])), int(&c["total"]));
    let d = p.dir(v) * f(&c["ds"]);
    let hp = p.point(v3(&c["hp"]));
    let ray = Ray::new(hp - d * f(&c["t"]), d);
    let fuzz = f(&c["fuzz"]);
    let m = c["m"].as_u64().unwrap() as usize;
    let mat;
    let objs;
    let rec = if c["shape"].is_null() {
        mat = material(&c["mat"]);
        RayHit::new(hp, Onb::new(p.dir(n) * (1. / p.sc)), &mat, f(&c["t"]), uv(&c["uv"]), c["front"] == true)
    } else {
        objs = shapes(&c["shape"]);
        first_hit(&objs, &ray).expect("harness: no hit")
    };
    let lights = some_light();
    let (mut dirs, mut counts) = (vec![], vec![0u32; m * 4 * SECTORS]);
    let (mut colors, mut elsewhere, mut notbasic, mut bad) = (vec![], 0, 0, 0);
    let u = v.unit();
    let mid = u - n * (2. * u.dot(n));
    fastrand::seed(int(&c["seed"]) as u64);
    for _ in 0..total {
        match rec.material.scatter(&ray, &rec, &lights) {
            RayScatter::ScatterBasic(s) => {
                let k = qv(s.color, 1e6);
                if !colors.contains(&k) && colors.len() < 4 {
                    colors.push(k);
                }
                if s.ray.origin != rec.hit_point {
                    elsewhere += 1;
                }
                let out = p.back(s.ray.direction) * p.sc;
                if fuzz == 0. {
                    let k = qv(out * vl, 1e5);
                    match dirs.iter().position(|x: &(Value, u32)| x.0 == k) {
                        Some(i) => dirs[i].1 += 1,
                        None if dirs.len() < 6 => dirs.push((k, 1)),
                        None => bad += 1,
                    }
                } else {
                    match ballbin((out - mid) * (1. / fuzz), m) {
                        Some(b) => counts[b] += 1,
                        None => bad += 1,
                    }
                }
            }
            _ => notbasic += 1,
        }
    }
    vec![json!({"ev": c["ev"], "v": c["v"], "n": c["n"], "h": c["h"], "front": c["front"], "ior": c["ior"], "total": total, "m": m,
        "dirs": dirs.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>(), "counts": counts, "mid": qv(mid * vl, 1e5), "bad": bad, "sharp": fuzz == 0.,
        "colors": colors, "want": c["want"], "elsewhere": elsewhere, "notbasic": notbasic})]
}

/// {shape, rays: [{o, d, front}..], want, wantatt}: emitters
pub fn emit(c: &Value) -> Vec<Value> {
    let objs = shapes(&c["shape"]);
    let lights = list(&c["lights"]);
    arr(&c["rays"]).iter().filter_map(|rj| {
        let r = ray(rj);
        let h = first_hit(&objs, &r)?;
        let (kind, color, att) = match h.material.scatter(&r, &h, &lights) {
            RayScatter::ScatterEmission(e) => ("emit", qv(e.color, 1e6), e.attenuation_factor.map_or(-1, |x| q(x, 1e6))),
            _ => ("scatter", json!([0, 0, 0]), -1),
        };
        Some(json!({"ev": "emit", "kind": kind, "color": color, "att": att, "front": rj["front"], "want": c["want"], "wantatt": c["wantatt"], "k": c["shape"]["k"]}))
    }).collect()
}

/// any scene has a light to scatter towards
pub fn some_light() -> Vec<Hittables> {
    vec![shape(&json!({"k": "quad", "q": [-1, -1, 5], "u": [0, 2, 0], "v": [2, 0, 0], "m": {"k": "light", "c": [1, 1, 1]}}))]
}

/// {tree, mat, leaves: [[r, g, b]..] colours (in 10^6) or normals of the leaves, of, total, seed}
pub fn blend(c: &Value) -> Vec<Value> {
    let quad = shape(&json!({"k": "quad", "q": [-1, -1, 0], "u": [2, 0, 0], "v": [0, 2, 0], "m": c["mat"]}));
    let lights = some_light();
    let total = int(&c["total"]);
    let leaves = arr(&c["leaves"]);
    let mut counts = vec![0u32; leaves.len()];
    let mut bad = 0;
    let ray = Ray::new(Vec3::new(0., 0., 2.), Vec3::new(0., 0.3, -1.));
    fastrand::seed(int(&c["seed"]) as u64);
    for _ in 0..total {
        let rec = quad.hit(&ray, &RAY_INTERVAL).expect("harness: no hit");
        let k = if c["of"] == "normal" { qv(rec.normal, 1e6) } else {
            match rec.material.scatter(&ray, &rec, &lights) {
                RayScatter::ScatterBasic(s) => qv(s.color, 1e6),
                RayScatter::ScatterPdf(s) => qv(s.color, 1e6),
                RayScatter::ScatterEmission(s) => qv(s.color, 1e6),
            }
        };
        match leaves.iter().position(|l| *l == k) {
            Some(i) => counts[i] += 1,
            None => bad += 1,
        }
    }
    vec![json!({"ev": "blend", "tree": c["tree"], "of": c["of"], "total": total, "counts": counts, "bad": bad})]
}
