//! Colour conversion and post processors, called on buffers.
use crate::scene::*;
use crate::session::processor;
use serde_json::{json, Value};
use solstrale::geo::vec3::Vec3;
use solstrale::post::{NopPostProcessor, PostProcessor};
use solstrale::util::rgb_color::{to_float, to_rgb_color};

fn channel(k: &Value, fr: &Value, n: f64) -> f64 {
    match k {
        Value::String(_) => f(k),
        _ => (f(k) + f(fr) / 1024.) * (n / 65536.),
    }
}

/// {n: number of samples, w, h, k: [[r, g, b]..] means in 1/65536 (or "inf", "nan", ...), f: [[..]..] (in 1/1024), codes}
pub fn tone(c: &Value) -> Vec<Value> {
    let n = int(&c["n"]) as u32;
    let (w, h) = (int(&c["w"]) as u32, int(&c["h"]) as u32);
    let sums: Vec<Vec3> = arr(&c["k"]).iter().zip(arr(&c["f"])).map(|(k, fr)| {
        Vec3::new(channel(&k[0], &fr[0], n as f64), channel(&k[1], &fr[1], n as f64), channel(&k[2], &fr[2], n as f64))
    }).collect();
    let mut rgb: Vec<u8> = vec![];
    let mut fl = vec![];
    for s in &sums {
        rgb.extend(to_rgb_color(*s, n).0);
        let x = to_float(*s, n);
        fl.extend([q(x.x, 1e4), q(x.y, 1e4), q(x.z, 1e4)]);
    }
    let img = NopPostProcessor::new().post_process(&sums, &[], &[], w, h, n).unwrap();
    let through = NopPostProcessor::new().intermediate_post_process(&sums, &[], &[], w, h, n).unwrap();
    let same = through.iter().zip(&sums).all(|(a, b)| format!("{a:?}") == format!("{b:?}")) && through.len() == sums.len();
    vec![json!({"ev": "tone", "k": c["codes"], "f": c["f"], "exact": n.is_power_of_two(), "rgb": rgb, "fl": fl,
        "img": img.into_raw(), "same": same})]
}

/// {w, h, n, unit, px: mean colours in whole units, bloom: {k, thr, max}, ..}
pub fn bloom(c: &Value) -> Vec<Value> {
    let n = int(&c["n"]) as u32;
    let unit = f(&c["unit"]);
    let (w, h) = (int(&c["w"]) as u32, int(&c["h"]) as u32);
    let sums: Vec<Vec3> = arr(&c["px"]).iter().map(|p| if p[0] == 2_000_000_001i64 { Vec3::new(f64::NAN, 1., 0.) } else { v3(p) * (unit * n as f64) }).collect();
    let pp = processor(&c["bloom"]);
    let out = pp.intermediate_post_process(&sums, &[], &[], w, h, n).unwrap();
    let img = pp.post_process(&sums, &[], &[], w, h, n).unwrap();
    // the image of the processed colours
    let bytes: Vec<u8> = out.iter().flat_map(|s| to_rgb_color(*s, n).0).collect();
    let near = img.as_raw().iter().zip(&bytes).all(|(a, b)| a.abs_diff(*b) <= 1);
    let mean: Vec<Value> = out.iter().map(|s| qv(*s * (1. / (unit * n as f64)), 1000.)).collect();
    let mut e = json!({"ev": "bloom", "out": mean, "bytes": near && img.dimensions() == (w, h) && img.as_raw().len() == bytes.len()});
    for k in ["w", "h", "r", "px", "thr2", "half", "max"] {
        e[k] = c[k].clone();
    }
    vec![e]
}
