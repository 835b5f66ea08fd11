//! Textures, bump images, normal maps.
use crate::scene::*;
use crate::stats::first_hit;
use image::{DynamicImage, ImageFormat, RgbImage};
use serde_json::{json, Value};
use solstrale::geo::vec3::Vec3;
use solstrale::geo::Uv;
use solstrale::material::texture::*;
use std::sync::Arc;

/// A file of the scratch directory the recorder runs in.
pub fn scratch(name: &str) -> String {
    std::fs::create_dir_all("files").unwrap();
    format!("files/{name}")
}

/// Writes an image file in one of several pixel formats.
pub fn save(img: &RgbImage, fmt: &str, path: &str) {
    let d = DynamicImage::ImageRgb8(img.clone());
    let (d, f) = match fmt {
        "gray" => (DynamicImage::ImageLuma8(d.to_luma8()), ImageFormat::Png),
        "graya" => (DynamicImage::ImageLumaA8(d.to_luma_alpha8()), ImageFormat::Png),
        "rgba" => (DynamicImage::ImageRgba8(d.to_rgba8()), ImageFormat::Png),
        "rgb16" => (DynamicImage::ImageRgb16(d.to_rgb16()), ImageFormat::Png),
        "bmp" => (d, ImageFormat::Bmp),
        "pnm" => (d, ImageFormat::Pnm),
        _ => (d, ImageFormat::Png),
    };
    d.save_with_format(path, f).unwrap();
}

fn content(kind: &str, w: u32, h: u32) -> RgbImage {
    RgbImage::from_fn(w, h, |i, j| {
        if kind == "gray" {
            let g = ((7 * i + 13 * j) % 256) as u8;
            image::Rgb([g, g, g])
        } else {
            image::Rgb([(i % 256) as u8, (j % 256) as u8, ((i / 256) * 16 + j / 256) as u8])
        }
    })
}

fn coord(v: &Value, over: &Value) -> f32 {
    if !over.is_null() {
        return match over.as_str() {
            Some("max") => f32::MAX,
            Some("-max") => -f32::MAX,
            Some("-0") => -0.0,
            Some("denorm") => f32::from_bits(1),
            _ => f(over) as f32,
        };
    }
    let (k, e) = (int(&v[0]) as f64, int(&v[1]) as i32);
    let x = k / 2f64.powi(e);
    assert!((x as f32) as f64 == x, "harness: not a single precision number");
    x as f32
}

/// {kind, src: "new" | format of a file, ext, w, h, lookups: [{u: [k, e], v: [k, e], uf?, vf?}]}
pub fn texel(c: &Value) -> Vec<Value> {
    let (w, h) = (int(&c["w"]) as u32, int(&c["h"]) as u32);
    let img = content(s(c, "kind"), w, h);
    let tex = if c["src"] == "new" {
        ImageMap::new(Arc::new(img))
    } else {
        let path = scratch(&format!("tex.{}", s(c, "ext")));
        save(&img, s(c, "src"), &path);
        match ImageMap::load(&path) {
            Ok(t) => t,
            Err(e) => return vec![json!({"ev": "refused", "msg": e.to_string()})],
        }
    };
    let tex = if c["clone"] == true { tex.clone() } else { tex };
    arr(&c["lookups"]).iter().map(|l| {
        let at = Uv::new(coord(&l["u"], &l["uf"]), coord(&l["v"], &l["vf"]));
        json!({"ev": "texel", "kind": c["kind"], "src": c["src"], "w": w, "h": h, "u": l["u"], "v": l["v"], "col": qv(tex.color(at), 1e6),
               "special": !l["uf"].is_null() || !l["vf"].is_null()})
    }).collect()
}

/// {c, how, want, tol}: a solid colour, looked up all over
pub fn solid(c: &Value) -> Vec<Value> {
    let v = v3(&c["c"]);
    let tex = match s(c, "how") {
        "rgb" => SolidColor::new(v.x, v.y, v.z),
        "array" => SolidColor::new_from_f32_array([v.x as f32, v.y as f32, v.z as f32]),
        _ => SolidColor::new_from_vec3(v),
    };
    let cols: Vec<Vec3> = [(0., 0.), (1., 1.), (-3.7, 0.2), (1e30, -1e30), (0.5, f32::NAN)].iter().map(|(a, b)| tex.color(Uv::new(*a, *b))).collect();
    vec![json!({"ev": "solid", "same": cols.iter().all(|x| *x == cols[0]), "col": qv(cols[0], 1e6), "want": c["want"], "tol": c["tol"]})]
}

/// {w, h, px, fmt, ext}: a bump image is loaded and looked at
pub fn bump(c: &Value) -> Vec<Value> {
    let img = image(c);
    let (w, h) = img.dimensions();
    let tex = if c["fmt"] == "direct" {
        ImageMap::new(Arc::new(solstrale::util::height_map::to_normal_map(img)))
    } else {
        let path = scratch(&format!("bump.{}", s(c, "ext")));
        save(&img, s(c, "fmt"), &path);
        match load_normal_texture(&path) {
            Ok(t) => t,
            Err(e) => return vec![json!({"ev": "refused", "msg": e.to_string()})],
        }
    };
    let mut out = vec![];
    for y in 0..h {
        for x in 0..w {
            let p = tex.color(Uv::new((x as f32 + 0.5) / w as f32, 1. - (y as f32 + 0.5) / h as f32));
            out.push(qv(p, 255.));
        }
    }
    vec![json!({"ev": "bump", "w": w, "h": h, "px": c["px"], "out": out, "fmt": c["fmt"]})]
}

/// Damages or withholds a file.
pub fn damaged(what: &str, path: &str) {
    let _ = std::fs::remove_file(path);
    let _ = std::fs::remove_dir(path);
    match what {
        "missing" => {}
        "empty" => std::fs::write(path, b"").unwrap(),
        "garbage" => std::fs::write(path, (0..400u32).map(|i| (i * 97 % 251) as u8).collect::<Vec<_>>()).unwrap(),
        "text" => std::fs::write(path, b"this is no image at all\nreally not\n").unwrap(),
        "dir" => std::fs::create_dir(path).unwrap(),
        "truncated" | "header" => {
            save(&content("rgb", 40, 40), "rgb", path);
            let b = std::fs::read(path).unwrap();
            std::fs::write(path, &b[..if what == "header" { 30 } else { b.len() * 2 / 3 }]).unwrap();
        }
        _ => panic!("harness: damage {what}"),
    }
}

/// {of: "image" | "bump", what, name}
pub fn fail(c: &Value) -> Vec<Value> {
    let path = scratch(s(c, "name"));
    damaged(s(c, "what"), &path);
    let r = if c["of"] == "bump" { load_normal_texture(&path) } else { ImageMap::load(&path) };
    let (err, msg) = match r {
        Ok(_) => (false, String::new()),
        Err(e) => (true, e.to_string()),
    };
    damaged("missing", &path);
    vec![json!({"ev": "fail", "of": c["of"], "what": c["what"], "err": err, "named": msg.contains(s(c, "name")), "msg": msg})]
}

/// {w, h, run, colours, looks: [[x, y]]}: a large bump image of a repeated pattern
pub fn pattern(c: &Value) -> Vec<Value> {
    let (w, h, run) = (int(&c["w"]) as u32, int(&c["h"]) as u32, int(&c["run"]) as u32);
    let colours: Vec<[u8; 3]> = arr(&c["colours"]).iter().map(|p| [int(&p[0]) as u8, int(&p[1]) as u8, int(&p[2]) as u8]).collect();
    let img = RgbImage::from_fn(w, h, |x, y| image::Rgb(colours[((y * w + x) / run) as usize % colours.len()]));
    let path = scratch("pattern.png");
    save(&img, "rgb", &path);
    let tex = match load_normal_texture(&path) {
        Ok(t) => t,
        Err(e) => return vec![json!({"ev": "refused", "msg": e.to_string()})],
    };
    let look = |x: u32, y: u32| tex.color(Uv::new((x as f32 + 0.5) / w as f32, 1. - (y as f32 + 0.5) / h as f32));
    let bytes = |p: Vec3| [q(p.x, 255.), q(p.y, 255.), q(p.z, 255.)];
    let same = (0..h).all(|y| (0..w).all(|x| bytes(look(x, y)) == img.get_pixel(x, y).0.map(|b| b as i64)));
    let looks: Vec<Value> = arr(&c["looks"]).iter().map(|l| json!({"x": l[0], "y": l[1], "out": bytes(look(int(&l[0]) as u32, int(&l[1]) as u32))})).collect();
    vec![json!({"ev": "pattern", "w": w, "h": h, "run": run, "colours": c["colours"], "same": same, "looks": looks})]
}

/// {shape, o, d, T, B, N, nd, maps, looks}: the shading normals of a hit
pub fn tilt(c: &Value) -> Vec<Value> {
    let objs = shapes(&c["shape"]);
    let r = ray(c);
        fastrand::seed(7);
    let mut normals: Vec<Value> = vec![];
    for _ in 0..c["looks"].as_u64().unwrap_or(1) {
        let Some(h) = first_hit(&objs, &r) else { return vec![json!({"ev": "nohit"})] };
        let n = qv(h.normal, 1e6);
        if !normals.contains(&n) {
            normals.push(n);
        }
    }
    let mut e = json!({"ev": "tilt", "normals": normals});
    for k in ["T", "B", "N", "nd", "maps"] {
        e[k] = c[k].clone();
    }
    vec![e]
}
