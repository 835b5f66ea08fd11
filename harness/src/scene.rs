//! Builds objects of the library under test from JSON descriptions.
use serde_json::Value;
use solstrale::geo::transformation::*;
use solstrale::geo::vec3::Vec3;
use solstrale::geo::{Ray, Uv};
use solstrale::hittable::*;
use solstrale::material::texture::{ImageMap, SolidColor, Textures};
use solstrale::material::*;
use solstrale::util::interval::Interval;
use std::sync::Arc;

/// A JSON number, or one of the strings "inf", "-inf", "nan".
pub fn f(v: &Value) -> f64 {
    match v {
        Value::Number(n) => n.as_f64().unwrap(),
        Value::String(s) => match s.as_str() {
            "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "nan" => f64::NAN,
            "-0" => -0.0,
            "max" => f64::MAX,
            _ => panic!("harness: bad number {s}"),
        },
        _ => panic!("harness: not a number: {v}"),
    }
}
pub fn v3(v: &Value) -> Vec3 {
    Vec3::new(f(&v[0]), f(&v[1]), f(&v[2]))
}
pub fn uv(v: &Value) -> Uv {
    Uv::new(f(&v[0]) as f32, f(&v[1]) as f32)
}
pub fn ray(v: &Value) -> Ray {
    Ray::new(v3(&v["o"]), v3(&v["d"]))
}
pub fn interval(v: &Value) -> Interval {
    if v.is_null() {
        solstrale::util::interval::RAY_INTERVAL
    } else {
        Interval::new(f(&v[0]), f(&v[1]))
    }
}
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("harness: no string {k} in {v}"))
}
pub fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("harness: not an integer: {v}"))
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("harness: not an array: {v}"))
}

pub struct Tr(pub Box<dyn Transformer>);

pub fn transformer(v: &Value) -> Box<dyn Transformer> {
    if v.is_null() {
        return Box::new(NopTransformer());
    }
    if v.is_array() {
        return Box::new(Transformations::new(arr(v).iter().map(transformer).collect()));
    }
    let o = v.as_object().unwrap();
    let (k, a) = o.iter().next().unwrap();
    match k.as_str() {
        "t" => Box::new(Translation::new(v3(a))),
        "rx" => Box::new(RotationX::new(f(a))),
        "ry" => Box::new(RotationY::new(f(a))),
        "rz" => Box::new(RotationZ::new(f(a))),
        "s" => Box::new(Scale::new(f(a))),
        "nop" => Box::new(NopTransformer()),
        _ => panic!("harness: transformation {k}"),
    }
}

pub fn image(v: &Value) -> image::RgbImage {
    let (w, h) = (int(&v["w"]) as u32, int(&v["h"]) as u32);
    let mut img = image::RgbImage::new(w, h);
    for (i, p) in arr(&v["px"]).iter().enumerate() {
        let i = i as u32;
        img.put_pixel(i % w, i / w, image::Rgb([int(&p[0]) as u8, int(&p[1]) as u8, int(&p[2]) as u8]));
    }
    img
}

pub fn texture(v: &Value) -> Textures {
    if v.is_array() {
        SolidColor::new_from_vec3(v3(v))
    } else if !v["img"].is_null() {
        ImageMap::new(Arc::new(image(&v["img"])))
    } else {
        panic!("harness: texture {v}")
    }
}
fn opt_texture(v: &Value) -> Option<Textures> {
    if v.is_null() {
        None
    } else {
        Some(texture(v))
    }
}

pub fn material(v: &Value) -> Materials {
    if v.is_null() {
        return Lambertian::new(SolidColor::new(0.5, 0.5, 0.5), None);
    }
    match s(v, "k") {
        "lamb" => Lambertian::new(texture(&v["c"]), opt_texture(&v["n"])),
        "metal" => Metal::new(texture(&v["c"]), opt_texture(&v["n"]), f(&v["fuzz"])),
        "glass" => Dielectric::new(texture(&v["c"]), opt_texture(&v["n"]), f(&v["ior"])),
        "light" => {
            let c = v3(&v["c"]);
            DiffuseLight::new(c.x, c.y, c.z, if v["half"].is_null() { None } else { Some(f(&v["half"])) })
        }
        "light3" => DiffuseLight::new_from_vec3(v3(&v["c"])),
        "blend" => Blend::new(material(&v["a"]), material(&v["b"]), f(&v["f"])),
        k => panic!("harness: material {k}"),
    }
}

/// One description gives one or (box) several objects.
pub fn shapes(v: &Value) -> Vec<Hittables> {
    let tr = transformer(&v["tr"]);
    let tr = tr.as_ref();
    match s(v, "k") {
        "sphere" => vec![Sphere::new(v3(&v["c"]), f(&v["r"]), material(&v["m"]))],
        "quad" => vec![Quad::new(v3(&v["q"]), v3(&v["u"]), v3(&v["v"]), material(&v["m"]), tr)],
        "tri" => vec![if v["uv"].is_null() {
            Triangle::new(v3(&v["a"]), v3(&v["b"]), v3(&v["c"]), material(&v["m"]), tr)
        } else {
            let t = &v["uv"];
            Triangle::new_with_tex_coords(
                v3(&v["a"]), v3(&v["b"]), v3(&v["c"]), uv(&t[0]), uv(&t[1]), uv(&t[2]), material(&v["m"]), tr)
        }],
        "box" => Quad::new_box(v3(&v["a"]), v3(&v["b"]), material(&v["m"]), tr),
        "bvh" => vec![Bvh::new(list(&v["items"]))],
        "fog" => vec![ConstantMedium::new(shape(&v["b"]), f(&v["d"]), v3(&v["c"]))],
        k => panic!("harness: shape {k}"),
    }
}
pub fn shape(v: &Value) -> Hittables {
    shapes(v).into_iter().next().unwrap()
}
pub fn list(v: &Value) -> Vec<Hittables> {
    arr(v).iter().flat_map(shapes).collect()
}

/// The primitive members of a list, hierarchies opened up.
pub fn leaves(v: &Value) -> Vec<Hittables> {
    arr(v).iter().flat_map(|i| if i["k"] == "bvh" { leaves(&i["items"]) } else { shapes(i) }).collect()
}

/// A real as the integer nearest to x * scale; NaN and infinities have codes of their own.
pub fn q(x: f64, scale: f64) -> i64 {
    if x.is_nan() {
        return 2_000_000_001;
    }
    if x == f64::INFINITY {
        return 2_000_000_002;
    }
    if x == f64::NEG_INFINITY {
        return 2_000_000_003;
    }
    (x * scale).round().clamp(-2.0e9, 2.0e9) as i64
}
pub fn qv(a: Vec3, scale: f64) -> Value {
    serde_json::json!([q(a.x, scale), q(a.y, scale), q(a.z, scale)])
}
pub fn quv(a: Uv, scale: f64) -> Value {
    serde_json::json!([q(a.u as f64, scale), q(a.v as f64, scale)])
}
