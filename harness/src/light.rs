//! Light along paths: shaders run on real scenes.
use crate::scene::*;
use crate::session;
use serde_json::{json, Value};
use solstrale::geo::vec3::Vec3;
use solstrale::geo::Ray;
use solstrale::hittable::Hittable;
use solstrale::material::{AttenuatedColor, Material, RayScatter};
use solstrale::ray_trace;
use solstrale::renderer::shader::Shader;
use solstrale::renderer::Renderer;
use solstrale::util::interval::RAY_INTERVAL;
use std::sync::mpsc::channel;

/// Not zero unless x is.
fn qp(x: f64) -> i64 {
    let v = q(x, 1e6);
    if v == 0 && x > 0. { 1 } else { v }
}
fn qvp(a: Vec3) -> Value {
    json!([qp(a.x), qp(a.y), qp(a.z)])
}
fn result(a: &AttenuatedColor) -> (Value, i64, i64, Value) {
    (qvp(a.color), a.attenuation_factor.map_or(-1, |x| q(x, 1e6)), q(a.accumulated_ray_length, 1e6), qvp(a.get_attenuated_color()))
}

fn with(c: &Value) -> Value {
    let mut k = c.clone();
    for (n, v) in [("w", 1), ("h", 1), ("n", 1)] {
        if k[n].is_null() {
            k[n] = json!(v);
        }
    }
    if k["strat"].is_null() {
        k["strat"] = json!("final");
    }
    k
}

/// {world, bg, shader: {path: max}, rays: [{o,d}..], seeds, depth, acc}: for every ray and seed the
/// path is walked by hand (hit, scatter, hit, ..) and, with the same random numbers, by the shader.
pub fn path(c: &Value) -> Vec<Value> {
    let k = with(c);
    let max = int(&k["shader"]["path"]);
    let (depth, acc) = (k["depth"].as_i64().unwrap_or(0), k["acc"].as_i64().unwrap_or(0));
    let world = session::world(&k["world"]);
    let renderer = Renderer::new(session::scene(&k)).expect("harness: scene without light");
    let sh = session::shader(&k["shader"]);
    let bg = if k["bg"].is_null() { Vec3::new(0., 0., 0.) } else { v3(&k["bg"]) };
    let mut out = vec![];
    for rj in arr(&c["rays"]) {
        let r0 = ray(rj);
        for seed in 0..int(&c["seeds"]) {
            let seed = int(&c["seed0"]) as u64 * 1000 + seed as u64;
            fastrand::seed(seed);
            let rec = match world.hit(&r0, &RAY_INTERVAL) {
                None => continue,
                Some(r) => r,
            };
            let got = sh.shade(&renderer, &rec, &r0, depth as u32, acc as f64);
            // by hand
            fastrand::seed(seed);
            let mut steps = vec![];
            let mut r = Ray::new(r0.origin, r0.direction);
            let (mut end, mut light, mut att, mut seg) = ("cut", bg, -1, 0);
            for _ in 0..(max - depth).max(0) + 1 {
                let rec = match world.hit(&r, &RAY_INTERVAL) {
                    None => {
                        end = "none";
                        break;
                    }
                    Some(x) => x,
                };
                let s = q((rec.hit_point - r.origin).length(), 1e6);
                match rec.material.scatter(&r, &rec, &renderer.lights) {
                    RayScatter::ScatterEmission(e) => {
                        end = "emit";
                        light = e.color;
                        att = e.attenuation_factor.map_or(-1, |x| q(x, 1e6));
                        seg = s;
                        break;
                    }
                    RayScatter::ScatterBasic(b) => {
                        steps.push(json!({"k": "pass", "f": qvp(b.color), "p": 1_000_000, "s": s}));
                        r = b.ray;
                    }
                    RayScatter::ScatterPdf(b) => {
                        steps.push(json!({"k": "diff", "f": qvp(b.color), "p": qp(b.probability), "s": s}));
                        r = b.ray;
                    }
                }
            }
            let (color, factor, len, fin) = result(&got);
            out.push(json!({"ev": "path", "max": max, "depth": depth, "acc": acc * 1_000_000, "steps": steps, "end": end,
                "light": qvp(light), "att": att, "seg": seg, "color": color, "factor": factor, "len": len, "final": fin}));
        }
    }
    out
}

/// A path of known surfaces: {world, decl, fin, src, half, seg2, shader, depth, acc, o, d, camera}
pub fn corridor(c: &Value) -> Vec<Value> {
    let k = with(c);
    let world = session::world(&k["world"]);
    let renderer = Renderer::new(session::scene(&k)).expect("harness: scene without light");
    let (depth, acc) = (k["depth"].as_i64().unwrap_or(0), k["acc"].as_i64().unwrap_or(0));
    let decl = |ev: &str| {
        json!({"ev": ev, "decl": c["decl"], "fin": c["fin"], "src": c["src"], "half": c["half"], "seg2": c["seg2"],
            "max": c["shader"]["path"], "depth": depth, "acc": acc})
    };
    let mut out = vec![];
    let r = Ray::new(v3(&c["o"]), v3(&c["d"]));
    if let Some(rec) = world.hit(&r, &RAY_INTERVAL) {
        let got = session::shader(&k["shader"]).shade(&renderer, &rec, &r, depth as u32, acc as f64);
        let (color, factor, len, fin) = result(&got);
        let mut e = decl("corridor");
        e["color"] = color;
        e["factor"] = json!(factor);
        e["len"] = json!(len);
        e["final"] = fin;
        out.push(e);
    } else if !arr(&c["decl"]).is_empty() || c["fin"] != "none" {
        out.push(json!({"ev": "nothing-hit"}));
    }
    if !c["camera"].is_null() {
        let (tx, rx) = channel();
        let (_atx, arx) = channel();
        ray_trace(session::scene(&k), &tx, &arx).expect("harness: render failed");
        let img = rx.iter().next().unwrap().render_image.unwrap();
        let mut e = decl("pixel");
        e["px"] = json!(img.get_pixel(0, 0).0.to_vec());
        out.push(e);
    }
    out
}

/// {world, o, d, shaders, depth, acc, n, nd, tint, emits, tol}
pub fn preview(c: &Value) -> Vec<Value> {
    let k = with(c);
    let world = session::world(&k["world"]);
    let renderer = Renderer::new(session::scene(&k)).expect("harness: scene without light");
    let r = Ray::new(v3(&c["o"]), v3(&c["d"]));
    let mut out = vec![];
    for s in arr(&c["shaders"]) {
        let sh = session::shader(s);
        let rec = match world.hit(&r, &RAY_INTERVAL) {
            Some(r) => r,
            None => return vec![json!({"ev": "nothing-hit"})],
        };
        let got = sh.shade(&renderer, &rec, &r, int(&c["depth"]) as u32, f(&c["acc"]));
        let fin = qv(got.get_attenuated_color(), 1e6);
        out.push(json!({"ev": "preview", "shader": s, "n": c["nrm"], "nd": c["nd"], "tint": c["tint"], "emits": c["emits"],
            "tol": c["tol"], "color": qv(got.color, 1e6), "final": fin}));
    }
    out
}
