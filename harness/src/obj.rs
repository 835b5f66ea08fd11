//! Reading model files.
use crate::scene::*;
use crate::texture::{damaged, save};
use serde_json::{json, Value};
use solstrale::geo::vec3::Vec3;
use solstrale::geo::Ray;
use solstrale::hittable::Hittable;
use solstrale::loader::obj::Obj;
use solstrale::loader::Loader;
use solstrale::material::{Material, RayScatter};
use solstrale::util::interval::Interval;

const DIR: &str = "files/model/";

/// Writes the files of a case: {name, text | img + fmt | damage | bytes}
fn write(files: &[Value]) {
    let _ = std::fs::remove_dir_all(DIR);
    std::fs::create_dir_all(DIR).unwrap();
    for x in files {
        let p = format!("{DIR}{}", s(x, "name"));
        std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
        if !x["damage"].is_null() {
            damaged(s(x, "damage"), &p);
        } else if !x["img"].is_null() {
            save(&image(&x["img"]), s(x, "fmt"), &p);
        } else if !x["bytes"].is_null() {
            std::fs::write(&p, arr(&x["bytes"]).iter().map(|b| int(b) as u8).collect::<Vec<_>>()).unwrap();
        } else {
            std::fs::write(&p, s(x, "text")).unwrap();
        }
    }
}

/// {files, file, given (material or null), tr, unit, top, probes: [{at, d}], st, libs, images, default}:
/// loads a model and looks straight down at (and through) it
pub fn model(c: &Value) -> Vec<Value> {
    write(arr(&c["files"]));
    let given = if c["given"].is_null() { None } else { Some(material(&c["given"])) };
    let tr = transformer(&c["tr"]);
    let loaded = Obj::new(DIR, s(c, "file")).load(tr.as_ref(), given);
    let mut e = json!({"ev": if c["grid"].is_null() { "model" } else { "grid" }, "ok": loaded.is_ok()});
    if !c["grid"].is_null() {
        e["grid"] = c["grid"].clone();
    }
    for k in ["st", "libs", "images", "default"] {
        e[k] = c[k].clone();
    }
    let mut probes = vec![];
    match loaded {
        Err(x) => e["msg"] = json!(x.to_string()),
        Ok(obj) => {
            let lights = crate::optics::some_light();
            let (unit, top) = (f(&c["unit"]), f(&c["top"]));
            for q0 in arr(&c["probes"]) {
                let d = f(&q0["d"]);
                let o = Vec3::new(f(&q0["at"][0]) / d, f(&q0["at"][1]) / d, top) * unit;
                let down = Vec3::new(0., 0., -unit);
                let (ot, ut) = (tr.transform(o, false), tr.transform(o + down, false));
                let ray = Ray::new(ot, ut - ot);
                let axis = |x: f64, y: f64, z: f64| (tr.transform(o + Vec3::new(x, y, z), false) - ot).unit();
                let axes = [axis(1., 0., 0.), axis(0., 1., 0.), axis(0., 0., 1.)];
                let (mut from, mut hits) = (1e-3, vec![]);
                while hits.len() < 40 {
                    let Some(h) = obj.hit(&ray, &Interval::new(from, f64::INFINITY)) else { break };
                    from = h.ray_length + 2e-3;
                    fastrand::seed(1);
                    let (kind, col) = match h.material.scatter(&ray, &h, &lights) {
                        RayScatter::ScatterBasic(s) => ("mirror", s.color),
                        RayScatter::ScatterPdf(s) => ("matte", s.color),
                        RayScatter::ScatterEmission(s) => ("light", s.color),
                    };
                    hits.push(json!({"z": q(top - h.ray_length, 1e4), "uv": quv(h.uv, 1e5), "col": qv(col, 1e6), "kind": kind,
                        "front": h.front_face, "n": qv(Vec3::new(h.normal.dot(axes[0]), h.normal.dot(axes[1]), h.normal.dot(axes[2])), 1e4)}));
                }
                probes.push(json!({"at": q0["at"], "d": q0["d"], "hits": hits}));
            }
        }
    }
    e["probes"] = json!(probes);
    let _ = std::fs::remove_dir_all(DIR);
    vec![e]
}

/// {files, file, names: [[what, number, file name]], ...}: whether it loads, and what an error says
pub fn load(c: &Value) -> Vec<Value> {
    write(arr(&c["files"]));
    let loaded = Obj::new(DIR, s(c, "file")).load(transformer(&c["tr"]).as_ref(), None);
    let msg = loaded.as_ref().err().map(|x| x.to_string()).unwrap_or_default();
    let mut mentions = vec![];
    for n in arr(&c["names"]) {
        if msg.contains(n[2].as_str().unwrap()) {
            mentions.push(json!([n[0], n[1]]));
        }
    }
    let mut e = json!({"ev": "load", "ok": loaded.is_ok(), "msg": msg, "mentions": mentions, "open": c["open"] == true});
    for k in ["obj", "st", "libs", "libstate", "imgstate"] {
        e[k] = c[k].clone();
    }
    let _ = std::fs::remove_dir_all(DIR);
    vec![e]
}
