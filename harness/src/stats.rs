//! Random sampling: counts per bin, reported densities.
use crate::scene::*;
use serde_json::{json, Value};
use solstrale::geo::vec3::*;
use solstrale::geo::Ray;
use solstrale::hittable::{Hittable, Hittables};
use solstrale::material::{Material, RayHit, RayScatter};
use solstrale::pdf::*;
use solstrale::random::*;
use solstrale::util::interval::RAY_INTERVAL;
use std::f64::consts::PI;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub const SECTORS: usize = 8;
pub fn sector(x: f64, y: f64) -> usize {
    let a = y.atan2(x) / (2. * PI);
    (((a - a.floor()) * SECTORS as f64) as usize).min(SECTORS - 1)
}
/// x in [0, 1) to one of m bands; None outside (beyond rounding)
pub fn band(x: f64, m: usize) -> Option<usize> {
    if !(-1e-9..=1. + 1e-9).contains(&x) {
        return None;
    }
    Some(((x.max(0.) * m as f64) as usize).min(m - 1))
}
pub fn frame(w: Vec3) -> (Vec3, Vec3, Vec3) {
    let w = w.unit();
    let a = if w.z.abs() > 0.7 { Vec3::new(0., 1., 0.) } else { Vec3::new(0., 0., 1.) };
    let t = a.cross(w).unit();
    (t, w.cross(t), w)
}
fn unitbin(d: Vec3, m: usize) -> Option<usize> {
    if (d.length() - 1.).abs() > 1e-9 {
        return None;
    }
    band((d.z + 1.) / 2., m).map(|b| b * SECTORS + sector(d.x, d.y))
}
pub fn ballbin(v: Vec3, m: usize) -> Option<usize> {
    let r = v.length();
    Some((band(r, m)? * 4 + if r == 0. { 0 } else { band((v.z / r + 1.) / 2., 4)? }) * SECTORS + sector(v.x, v.y))
}
fn cosbin(d: Vec3, f: &(Vec3, Vec3, Vec3), m: usize) -> Option<usize> {
    let c = d.dot(f.2);
    if (d.length() - 1.).abs() > 1e-9 || c < -1e-9 {
        return None;
    }
    band(c.max(0.), m).map(|b| b * SECTORS + sector(d.dot(f.0), d.dot(f.1)))
}

/// How to sample and bin: (bins, sampler)
fn sampler(c: &Value, m: usize) -> (usize, Box<dyn Fn() -> Option<usize>>) {
    let (lo, hi) = if c["min"].is_null() { (0., 1.) } else { (f(&c["min"]), f(&c["max"])) };
    let k = c["k"].as_u64().unwrap_or(1) as usize;
    let w = if c["w"].is_null() { Vec3::new(0., 0., 1.) } else { v3(&c["w"]) };
    let fr = frame(w);
    let s8 = m * SECTORS;
    match s(c, "fun") {
        "normal" => (m, Box::new(move || { let x = random_normal_float(); if (0. ..1.).contains(&x) { band(x, m) } else { None } })),
        "float" => (m, Box::new(move || { let x = random_float(lo, hi); if lo <= x && x < hi { band((x - lo) / (hi - lo), m) } else { None } })),
        "uint" => (k, Box::new(move || { let x = random_uint32(k as u32) as usize; if x < k { Some(x) } else { None } })),
        "uintbig" => (m, Box::new(move || { let x = random_uint32(k as u32) as usize; if x < k { Some(x * m / k) } else { None } })),
        "index" => { let v: Vec<u8> = vec![0; k]; (k, Box::new(move || { let x = random_element_index(&v); if x < k { Some(x) } else { None } })) }
        "indexbig" => { let v: Vec<u8> = vec![0; k]; (m, Box::new(move || { let x = random_element_index(&v); if x < k { Some(x * m / k) } else { None } })) }
        "vec3" => (m * m * m, Box::new(move || {
            let v = random_vec3(lo, hi);
            let b = |x: f64| if lo <= x && x < hi { band((x - lo) / (hi - lo), m) } else { None };
            Some((b(v.x)? * m + b(v.y)?) * m + b(v.z)?)
        })),
        "ball" => (m * 4 * SECTORS, Box::new(move || {
            let v = random_in_unit_sphere();
            if v.length() > 1. + 1e-12 { return None; }
            ballbin(v, m)
        })),
        "disc" => (s8, Box::new(move || {
            let v = random_in_unit_disc();
            if v.length() > 1. + 1e-12 || v.z != 0. { return None; }
            Some(band(v.length(), m)? * SECTORS + sector(v.x, v.y))
        })),
        "unit" => (s8, Box::new(move || unitbin(random_unit_vector(), m))),
        "spherepdf" => { let p = SpherePdf::new(); (s8, Box::new(move || unitbin(p.generate(), m))) }
        "cosdir" => (s8, Box::new(move || cosbin(random_cosine_direction(), &(Vec3::new(1., 0., 0.), Vec3::new(0., 1., 0.), Vec3::new(0., 0., 1.)), m))),
        "cosine" => { let p = CosinePdf::new(w); (s8, Box::new(move || cosbin(p.generate(), &fr, m))) }
        x => panic!("harness: {x}"),
    }
}

/// {fun, what, m, total, seed, ..}: samples counted per bin
pub fn dist(c: &Value) -> Vec<Value> {
    fastrand::seed(int(&c["seed"]) as u64);
    let (total, m) = (int(&c["total"]), c["m"].as_u64().unwrap_or(1) as usize);
    let (bins, f) = sampler(c, m);
    let mut counts = vec![0u32; bins];
    let mut bad = 0;
    for _ in 0..total {
        match f() {
            Some(b) => counts[b] += 1,
            None => bad += 1,
        }
    }
    vec![json!({"ev": "dist", "fun": c["fun"], "what": c["what"], "m": m, "total": total, "counts": counts, "bad": bad})]
}

/// Like dist, but with the smallest and largest draws strewn in; only the range counts.
pub fn range(c: &Value) -> Vec<Value> {
    let seed = int(&c["seed"]) as u64;
    fastrand::seed(seed);
    if c["strew"].as_bool().unwrap_or(true) {
        let x = AtomicU64::new(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
        fastrand::verif::set_observer(Some(Arc::new(move || {
            let mut v = x.load(Ordering::Relaxed);
            v ^= v << 13;
            v ^= v >> 7;
            v ^= v << 17;
            x.store(v, Ordering::Relaxed);
            match (v >> 20) % 5 {
                0 => Some((u64::MAX >> 11) << 11),      // the largest float below one
                1 => Some(0),
                _ => Some(v.wrapping_mul(0x2545F4914F6CDD1D)),
            }
        })));
    }
    let (total, m) = (int(&c["total"]), 1);
    let (_, f) = sampler(c, m);
    let bad = (0..total).filter(|_| f().is_none()).count();
    fastrand::verif::set_observer(None);
    vec![json!({"ev": "range", "fun": c["fun"], "total": total, "bad": bad})]
}

pub struct Pose {
    m: Vec<f64>,
    t: Vec3,
    pub sc: f64,
}
impl Pose {
    pub fn new(c: &Value) -> Pose {
        Pose { m: arr(&c["M"]).iter().map(f).collect(), t: v3(&c["T"]), sc: f(&c["scale"]) }
    }
    pub fn dir(&self, v: Vec3) -> Vec3 {
        let m = &self.m;
        Vec3::new(m[0] * v.x + m[1] * v.y + m[2] * v.z, m[3] * v.x + m[4] * v.y + m[5] * v.z, m[6] * v.x + m[7] * v.y + m[8] * v.z)
    }
    pub fn point(&self, v: Vec3) -> Vec3 {
        self.dir(v) + self.t
    }
    pub fn back(&self, v: Vec3) -> Vec3 {
        let m = &self.m;
        Vec3::new(m[0] * v.x + m[3] * v.y + m[6] * v.z, m[1] * v.x + m[4] * v.y + m[7] * v.z, m[2] * v.x + m[5] * v.y + m[8] * v.z)
            * (1. / (self.sc * self.sc))
    }
}

/// Where on the light (lattice shape s) a ray from lattice point o in direction d meets its plane or cone.
fn lightbin(sh: &Value, o: Vec3, d: Vec3, m: usize) -> Option<usize> {
    if sh["k"] == "sphere" {
        let (cc, r) = (v3(&sh["c"]) - o, f(&sh["r"]));
        let fr = frame(cc);
        let d = d.unit();
        let cmax = (1. - r * r / cc.length_squared()).sqrt();
        return band((1. - d.dot(fr.2)) / (1. - cmax), m).map(|b| b * SECTORS + sector(d.dot(fr.0), d.dot(fr.1)));
    }
    let tri = sh["k"] == "tri";
    let (p, u, v) = if tri {
        let a = v3(&sh["a"]);
        (a, v3(&sh["b"]) - a, v3(&sh["c"]) - a)
    } else {
        (v3(&sh["q"]), v3(&sh["u"]), v3(&sh["v"]))
    };
    let n = u.cross(v);
    let t = n.dot(p - o) / n.dot(d);
    if !(t > 0.) {
        return None;
    }
    let h = o + d * t - p;
    let (a, b) = (n.dot(h.cross(v)) / n.dot(n), n.dot(u.cross(h)) / n.dot(n));
    if tri {
        if a + b > 1. + 1e-9 {
            return None;
        }
        let (i, j) = (band(a, m)?, band(b, m)?);
        let k = (a * m as f64 - i as f64 + b * m as f64 - j as f64 >= 1.) as usize;
        Some((i * m + j) * 2 + k)
    } else {
        Some(band(a, m)? * m + band(b, m)?)
    }
}

/// {shape, s, M, T, scale, lo, total, m, seed}: directions drawn towards a light
pub fn aim(c: &Value) -> Vec<Value> {
    let (sh, p) = (shape(&c["shape"]), Pose::new(c));
    let (total, m) = (int(&c["total"]), c["m"].as_u64().unwrap() as usize);
    let lo = v3(&c["lo"]);
    let o = p.point(lo);
    fastrand::seed(int(&c["seed"]) as u64);
    let n = match s(&c["s"], "k") { "sphere" => m * SECTORS, "quad" => m * m, _ => 2 * m * m };
    let (mut counts, mut unit) = (vec![0u32; n], vec![0u32; m * SECTORS]);
    let (mut missed, mut badpdf, mut off) = (0, 0, 0);
    for _ in 0..total {
        let d = sh.random_direction(o);
        if sh.hit(&Ray::new(o, d), &RAY_INTERVAL).is_none() {
            missed += 1;
        }
        let v = sh.pdf_value(o, d);
        if !(v > 0. && v.is_finite()) {
            badpdf += 1;
        }
        let ld = p.back(d);
        match lightbin(&c["s"], lo, ld, m) {
            Some(b) => counts[b] += 1,
            None => off += 1,
        }
        if let Some(b) = unitbin(ld.unit(), m) {
            unit[b] += 1;
        }
    }
    vec![json!({"ev": "aim", "s": c["s"], "o": c["lo"], "m": m, "total": total, "missed": missed, "badpdf": badpdf, "off": off, "counts": counts, "unit": unit})]
}

/// {shape, s, M, T, scale, rays: [[lo, ld, ds]..]}: reported densities
pub fn density(c: &Value) -> Vec<Value> {
    let (sh, p) = (shape(&c["shape"]), Pose::new(c));
    arr(&c["rays"]).iter().map(|r| json!({"ev": "density", "s": c["s"], "o": r[0], "d": r[1],
        "got": q(sh.pdf_value(p.point(v3(&r[0])), p.dir(v3(&r[1])) * f(&r[2])), 1e6)})).collect()
}

/// {lights, o, w, dirs}: densities of several lights, of their container, mixed with a cosine
pub fn mixval(c: &Value) -> Vec<Value> {
    let l = list(&c["lights"]);
    let (o, w) = (v3(&c["o"]), v3(&c["w"]));
    let (a, b) = (ContainerPdf::new(&l, o), CosinePdf::new(w));
    arr(&c["dirs"]).iter().map(|d| {
        let d = v3(d);
        json!({"ev": "mix", "each": l.iter().map(|x| q(x.pdf_value(o, d), 1e6)).collect::<Vec<_>>(),
            "container": q(a.value(d), 1e6), "cosine": q(b.value(d), 1e6), "mixed": q(mix_value(&a, &b, d), 1e6)})
    }).collect()
}

/// {w, e, dirs}: reported cosine and sphere density
pub fn cosval(c: &Value) -> Vec<Value> {
    let p = CosinePdf::new(v3(&c["w"]) * 2f64.powi(int(&c["e"]) as i32));
    arr(&c["dirs"]).iter().map(|d| json!({"ev": "cos", "w": c["w"], "d": d,
        "got": q(p.value(v3(d) * f(&c["ds"])), 1e6), "sphere": q(SpherePdf::new().value(v3(d)), 1e6)})).collect()
}

fn which(l: &[Hittables], o: Vec3, d: Vec3) -> Option<usize> {
    let r = Ray::new(o, d);
    let h: Vec<usize> = (0..l.len()).filter(|i| l[*i].hit(&r, &RAY_INTERVAL).is_some()).collect();
    if h.len() == 1 { Some(h[0]) } else { None }
}

/// {lights, o, total, seed, w?, swap?}: which light is drawn (or, with w, lights or cosine half sphere)
pub fn choose(c: &Value) -> Vec<Value> {
    let l = list(&c["lights"]);
    let o = v3(&c["o"]);
    let a = ContainerPdf::new(&l, o);
    fastrand::seed(int(&c["seed"]) as u64);
    let total = int(&c["total"]);
    let mut bad = 0;
    if c["w"].is_null() {
        let mut counts = vec![0u32; l.len()];
        for _ in 0..total {
            match which(&l, o, a.generate()) {
                Some(i) => counts[i] += 1,
                None => bad += 1,
            }
        }
        return vec![json!({"ev": "dist", "fun": "choose", "what": "index", "m": l.len(), "total": total, "counts": counts, "bad": bad})];
    }
    // all lights lie below: what is drawn above comes from the other density
    let b = CosinePdf::new(v3(&c["w"]));
    let mut counts = vec![0u32; 2];
    for _ in 0..total {
        let d = if c["swap"] == true { mix_generate(&b, &a) } else { mix_generate(&a, &b) };
        if d.dot(v3(&c["w"])) > 0. {
            counts[0] += 1;
        } else if which(&l, o, d).is_some() {
            counts[1] += 1;
        } else {
            bad += 1;
        }
    }
    vec![json!({"ev": "dist", "fun": "mix", "what": "index", "m": 2, "total": total, "counts": counts, "bad": bad})]
}

pub fn first_hit<'a>(objs: &'a [Hittables], r: &Ray) -> Option<RayHit<'a>> {
    objs.iter().filter_map(|o| o.hit(r, &RAY_INTERVAL)).min_by(|a, b| a.ray_length.total_cmp(&b.ray_length))
}

/// {shape, lights, o, d, w, total, m, seed}: a scattering surface in surroundings of brightness one
pub fn furnace(c: &Value) -> Vec<Value> {
    let objs = shapes(&c["shape"]);
    let lights = list(&c["lights"]);
    let (total, m) = (int(&c["total"]), c["m"].as_u64().unwrap() as usize);
    let r = Ray::new(v3(&c["o"]), v3(&c["d"]));
    let fog = c["fog"] == true;
    fastrand::seed(int(&c["seed"]) as u64);
    let fr = frame(v3(&c["w"]));
    let mut w = vec![0f64; m * SECTORS];
    let (mut colors, mut elsewhere, mut below, mut notpdf, mut nan, mut hits) = (vec![], 0, 0f64, 0, 0, 0);
    let mut rec = None;
    for i in 0..total {
        if rec.is_none() || (fog && i % 4 == 0) {
            rec = first_hit(&objs, &r);
            hits += rec.is_some() as i64;
        }
        let Some(h) = &rec else { continue };
        match h.material.scatter(&r, h, &lights) {
            RayScatter::ScatterPdf(s) => {
                let k = qv(s.color, 1e6);
                if !colors.contains(&k) && colors.len() < 4 {
                    colors.push(k);
                }
                if s.ray.origin != h.hit_point {
                    elsewhere += 1;
                }
                let d = s.ray.direction.unit();
                if s.probability.is_nan() {
                    nan += 1;
                } else if fog {
                    w[unitbin(d, m).expect("harness: direction")] += s.probability;
                } else if d.dot(fr.2) < -1e-12 {
                    below += s.probability.abs();
                } else {
                    w[cosbin(d, &fr, m).unwrap_or(0)] += s.probability;
                }
            }
            _ => notpdf += 1,
        }
    }
    vec![json!({"ev": "furnace", "what": if fog { "unit" } else { "cosine" }, "m": m, "total": total, "w": w.iter().map(|x| q(*x, 1.)).collect::<Vec<_>>(),
        "colors": colors, "want": qv(v3(&c["color"]), 1e6), "elsewhere": elsewhere, "below": q(below, 1e6), "notpdf": notpdf, "nan": nan,
        "coplanar": c["coplanar"], "hits": hits.min(1)})]
}

/// {shape, s, M, T, scale, ds, lo, ld, a, b, iv, from, to, m, dens, total, seed}: where fog scatters a ray.
/// from, to: the part of the ray inside (lattice lengths)
pub fn fog(c: &Value) -> Vec<Value> {
    let (sh, p) = (shape(&c["shape"]), Pose::new(c));
    let (total, m, ds) = (int(&c["total"]), c["m"].as_u64().unwrap() as usize, f(&c["ds"]));
    let (from, to) = (f(&c["from"]), f(&c["to"]));
    let r = Ray::new(p.point(v3(&c["lo"])), p.dir(v3(&c["ld"])) * ds);
    let iv = interval(&c["iv"]);
    fastrand::seed(int(&c["seed"]) as u64);
    let mut counts = vec![0u32; m];
    let (mut none, mut outside, mut badpoint) = (0, 0, 0);
    for _ in 0..total {
        match sh.hit(&r, &iv) {
            None => none += 1,
            Some(h) => {
                let x = (h.ray_length * ds - from) / (to - from);
                match band(x, m) {
                    Some(b) => counts[b] += 1,
                    None => outside += 1,
                }
                if !((h.hit_point - r.at(h.ray_length)).length() <= 1e-9 * (1. + h.hit_point.length())) {
                    badpoint += 1;
                }
            }
        }
    }
    vec![json!({"ev": "fog", "s": c["s"], "o": c["lo"], "d": c["ld"], "a": c["a"], "b": c["b"], "from": q(from, 1e6), "to": q(to, 1e6),
        "dens": q(f(&c["shape"]["d"]) * f(&c["scale"]), 1e6), "m": m, "total": total, "counts": counts, "none": none, "outside": outside, "badpoint": badpoint,
        "ds": q(ds.log10(), 1e3)})]
}
