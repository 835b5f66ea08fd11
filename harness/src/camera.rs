//! Rays of the camera.
use crate::scene::*;
use crate::session;
use crate::stats::*;
use serde_json::{json, Value};
use solstrale::camera::Camera;
use solstrale::geo::vec3::Vec3;
use solstrale::geo::Uv;

/// {cam, w, h, u: [k, e], v, back, up (integer vectors), ap, total, m, seed}: rays of one view coordinate
pub fn camera(c: &Value) -> Vec<Value> {
    let conf = session::camera(&c["cam"]);
    let (from, at) = (conf.look_from, conf.look_at);
    let lens = conf.aperture_size / 2.;
    let cam = Camera::new(int(&c["w"]) as usize, int(&c["h"]) as usize, &conf);
    let w = v3(&c["back"]).unit();
    let (t, b, _) = frame(w);
    let dist = (from - at).length();
    let k = |x: &Value| (f(&x[0]) / 2f64.powi(int(&x[1]) as i32)) as f32;
    let at_uv = Uv::new(k(&c["u"]), k(&c["v"]));
    let (total, m) = (int(&c["total"]), c["m"].as_u64().unwrap() as usize);
    let (mut first, mut spread, mut off, mut forward, mut same): (Option<Vec3>, f64, f64, bool, bool) = (None, 0., 0., true, true);
    let (mut counts, mut outside) = (vec![0u32; m * SECTORS], 0);
    fastrand::seed(int(&c["seed"]) as u64);
    for _ in 0..total {
        let r = cam.get_ray(at_uv);
        let o = r.origin - from;
        forward &= r.direction.dot(w) < 0.;
        // where it crosses the plane through the look-at point
        let s = (at - r.origin).dot(w) / r.direction.dot(w);
        let p = (r.origin + r.direction * s - at) * (1. / dist);
        spread = spread.max((p - *first.get_or_insert(p)).length());
        if !(p.length() < 1e9) {
            spread = f64::NAN;
        }
        off = off.max(o.dot(w).abs() / dist);
        same &= o == Vec3::new(0., 0., 0.);
        if lens > 0. {
            let (x, y) = (o.dot(t) / lens, o.dot(b) / lens);
            match band((x * x + y * y).sqrt(), m) {
                Some(i) => counts[i * SECTORS + sector(x, y)] += 1,
                None => outside += 1,
            }
        }
    }
    let mut e = json!({"ev": "camera", "focus": qv(first.unwrap(), 1e5), "spread": q(spread, 1e6), "offplane": q(off, 1e6), "forward": forward,
        "same": same, "lens": lens > 0., "outside": outside, "counts": counts});
    for k in ["w", "h", "u", "v", "back", "up", "tan", "total", "m"] {
        e[k] = c[k].clone();
    }
    vec![e]
}
