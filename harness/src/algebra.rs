//! Lights of a world; vector, interval and ray algebra.
use crate::scene::*;
use serde_json::{json, Value};
use solstrale::camera::CameraConfig;
use solstrale::hittable::{Hittable, Hittables};
use solstrale::renderer::shader::PathTracingShader;
use solstrale::renderer::{RenderConfig, Renderer, Scene};

fn kinds(l: &[Hittables]) -> Value {
    json!(l.iter().map(|h| {
        let k = match h {
            Hittables::SphereType(_) => "sphere",
            Hittables::QuadType(_) => "quad",
            Hittables::TriangleType(_) => "tri",
            Hittables::BvhType(_) => "bvh",
            Hittables::ConstantMediumType(_) => "fog",
        };
        let b = h.bounding_box();
        json!([k, q((b.x.min + b.x.max) * 0.05, 1.)])
    }).collect::<Vec<_>>())
}

/// {tree, obj}
pub fn lights(c: &Value) -> Vec<Value> {
    let world = shape(&c["obj"]);
    let copy = world.clone();
    let (a, b) = (kinds(&world.get_lights()), kinds(&copy.get_lights()));
    let r = Renderer::new(Scene {
        world,
        camera: CameraConfig::default(),
        background_color: solstrale::geo::vec3::ZERO_VECTOR,
        render_config: RenderConfig { shader: PathTracingShader::new(2), ..RenderConfig::default() },
    });
    let (accepted, rl) = match &r {
        Ok(r) => (true, kinds(&r.lights)),
        Err(_) => (false, json!([])),
    };
    vec![json!({"ev": "lights", "tree": c["tree"], "world": a, "copy": b, "accepted": accepted, "renderer": rl})]
}

/// {a, b, k, N, h, tiny, ea, eb}: a scaled by 2^ea and so on
pub fn vec(c: &Value) -> Vec<Value> {
    use solstrale::geo::Uv;
    let e2 = |k: &str| 2f64.powi(int(&c[k]) as i32);
    let (ua, ub, uk) = (e2("ea"), e2("eb"), e2("ek"));
    let (a, b, k) = (v3(&c["a"]) * ua, v3(&c["b"]) * ub, f(&c["k"]) * uk);
    let (bs, ks) = (v3(&c["b"]) * ua, f(&c["k"]) * ua);        // in the units of a
    let g = |v: solstrale::geo::vec3::Vec3, u: f64| qv(v * (1. / u), 1e5);
    let mut aa = a;
    aa += bs;
    let n = v3(&c["N"]) * (1. / f(&c["h"]));
    let ax = [0u8, 1, 2, 3, 255].map(|i| q(a.axis(i) / ua, 1e5));
    let d = Uv::new(c["a"][0].as_f64().unwrap() as f32, c["a"][1].as_f64().unwrap() as f32) - Uv::new(c["b"][0].as_f64().unwrap() as f32, c["b"][1].as_f64().unwrap() as f32);
    vec![json!({"ev": "vec", "a": c["a"], "b": c["b"], "k": c["k"], "N": c["N"], "h": c["h"], "tiny": c["tiny"],
        "add": g(a + bs, ua), "addassign": g(aa, ua), "sub": g(a - bs, ua), "adds": g(a + ks, ua), "subs": g(a - ks, ua),
        "mul": g(a * b, ua * ub), "smul": g(a * k, ua * uk), "smulf": g(a * (k as f32), ua * uk), "div": g(a / b, ua / ub), "sdiv": g(a / k, ua / uk),
        "neg": g(a.neg(), ua), "dot": q(a.dot(b) / (ua * ub), 1e5), "cross": g(a.cross(b), ua * ub),
        "lsq": q(a.length_squared() / (ua * ua), 1e5), "len": q(a.length() / ua, 1e5), "unit": qv(a.unit(), 1e5),
        "axis": ax, "refl": g(a.reflect(n), ua),
        "small": (v3(&c["tiny"]) * 1e-9f64).near_zero(), "uv": quv(d, 1e5),
        "deg": q(solstrale::util::degrees_to_radians(f(&c["k"])) / std::f64::consts::PI * 180., 1e5)})]
}

/// {i, j, x, e}: bounds beyond +-10^9 are infinite
pub fn intervals(c: &Value) -> Vec<Value> {
    use solstrale::util::interval::*;
    let u = 2f64.powi(int(&c["e"]) as i32);
    let v = |x: &Value| {
        let n = int(x);
        if n >= 1_000_000_000 { f64::INFINITY } else if n <= -1_000_000_000 { f64::NEG_INFINITY } else { n as f64 * u }
    };
    let iv = |x: &Value| Interval::new(v(&x[0]), v(&x[1]));
    let g = |x: Interval| json!([q(x.min / u, 1e5), q(x.max / u, 1e5)]);
    let (i, j, x) = (iv(&c["i"]), iv(&c["j"]), v(&c["x"]));
    vec![json!({"ev": "interval", "i": c["i"], "j": c["j"], "x": c["x"], "has": i.contains(x), "clamp": q(i.clamp(x) / u, 1e5),
        "size": q(i.size() / u, 1e5), "join": g(combine_intervals(i, j)), "joinrev": g(combine_intervals(j, i)),
        "plus": g(i + x), "minus": g(i - x), "wide": g(i.expand(x)),
        "empty": g(EMPTY_INTERVAL), "all": g(UNIVERSE_INTERVAL), "rays": [q(RAY_INTERVAL.min, 1e5), q(RAY_INTERVAL.max, 1e5)]})]
}

/// {a, x, b, y, t, e, ex, ey}
pub fn rays(c: &Value) -> Vec<Value> {
    use solstrale::geo::Ray;
    let e2 = |k: &str| 2f64.powi(int(&c[k]) as i32);
    let (u, ux, uy) = (e2("e"), e2("ex"), e2("ey"));
    let r = Ray::new(v3(&c["a"]) * u, v3(&c["x"]) * ux);
    let s = Ray::new(v3(&c["b"]) * u, v3(&c["y"]) * uy);
    vec![json!({"ev": "ray", "a": c["a"], "x": c["x"], "b": c["b"], "y": c["y"], "t": c["t"],
        "orig": qv(r.origin * (1. / u), 1e5), "dir": qv(r.direction * (1. / ux), 1e5),
        "at": qv(r.at(f(&c["t"]) * 0.25 * u / ux) * (1. / u), 1e5),
        "dist": q(r.shortest_distance(&s) / u, 1e6), "distrev": q(s.shortest_distance(&r) / u, 1e6)})]
}

/// {w, e, p}
pub fn onb(c: &Value) -> Vec<Value> {
    use solstrale::geo::{vec3::Vec3, Onb};
    let o = Onb::new(v3(&c["w"]) * 2f64.powi(int(&c["e"]) as i32));
    let g = |x: f64, y: f64, z: f64| qv(o.local(Vec3::new(x, y, z)), 1e4);
    vec![json!({"ev": "onb", "w": c["w"], "p": c["p"], "a": g(1., 0., 0.), "b": g(0., 1., 0.), "c": g(0., 0., 1.),
        "l": qv(o.local(v3(&c["p"])), 1e4)})]
}
