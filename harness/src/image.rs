//! Images of known light: every pixel's footprint is tiled with emitting cells of known colours,
//! the random draws that place the samples are chosen by the recorder, and the row workers are
//! held back at their draws to drive them through adverse schedules.
use crate::scene::*;
use crate::session;
use serde_json::{json, Value};
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::vec3::Vec3;
use solstrale::hittable::{Bvh, Hittables, Quad};
use solstrale::material::texture::SolidColor;
use solstrale::material::{Dielectric, DiffuseLight, Lambertian, Metal};
use solstrale::ray_trace;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::channel;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// Cells: the footprint of pixel (x, y) (y from below) is cut in S cells along u, along v, or S x S.
pub fn cells(c: &Value) -> Hittables {
    let (w, h, s) = (int(&c["w"]), int(&c["h"]), int(&c["S"]));
    let dir = c["dir"].as_str().unwrap();
    let miss: Vec<i64> = c["miss"].as_array().map_or(vec![], |a| a.iter().map(int).collect());
    let cols: Vec<Vec3> = arr(&c["colors"]).iter().map(v3).map(|v| v * (1. / 65536.)).collect();
    let aspect = w as f64 / h as f64;
    let (wd, hd) = ((w - 1).max(1) as f64, (h - 1).max(1) as f64);
    let mut out = vec![];
    for y in 0..h {
        for x in 0..w {
            let (sx, sy) = match dir {
                "u" => (s, 1),
                "v" => (1, s),
                _ => (s, s),
            };
            for j in 0..sy {
                for i in 0..sx {
                    let u0 = (x as f64 + i as f64 / sx as f64) / wd;
                    let u1 = (x as f64 + (i + 1) as f64 / sx as f64) / wd;
                    let v0 = (y as f64 + j as f64 / sy as f64) / hd;
                    let v1 = (y as f64 + (j + 1) as f64 / sy as f64) / hd;
                    let id = (y * w + x) * sx * sy + j * sx + i;
                    if miss.contains(&id) {
                        continue;
                    }
                    let col = cols[id as usize];
                    let tex = SolidColor::new_from_vec3(col);
                    out.push(Quad::new(
                        Vec3::new((2. * u0 - 1.) * aspect, 2. * v0 - 1., 0.),
                        Vec3::new(2. * (u1 - u0) * aspect, 0., 0.),
                        Vec3::new(0., 2. * (v1 - v0), 0.),
                        match c["cellmat"].as_str() {
                            Some("lamb") => Lambertian::new(tex, None),
                            Some("metal") => Metal::new(tex, None, 0.3),
                            Some("glass") => Dielectric::new(tex, None, 1.5),
                            _ => DiffuseLight::new(col.x, col.y, col.z, None),
                        },
                        &NopTransformer(),
                    ));
                }
            }
        }
    }
    if c["plane"].is_array() {
        // an emitting plane behind the cells, its normal a Pythagorean direction over 25
        let n: Vec3 = v3(&c["plane"]) * (1. / 25.);
        let t = if n.x != 0. { Vec3::new(n.z, 0., -n.x) } else { Vec3::new(1., 0., 0.) };
        let b = n.cross(t);
        let col: Vec3 = v3(&c["behind"]) * (1. / 65536.);
        out.push(Quad::new(Vec3::new(0., 0., -5.) - t * 200. - b * 200., t * 400., b * 400.,
            DiffuseLight::new(col.x, col.y, col.z, None), &NopTransformer()));
    }
    // a light that is not in view
    out.push(Quad::new(Vec3::new(-1., -1., 9.), Vec3::new(0., 2., 0.), Vec3::new(2., 0., 0.),
        DiffuseLight::new(1., 1., 1., None), &NopTransformer()));
    Bvh::new(out)
}

struct Sched {
    count: u64,
    /// rows started in the running sample; rows waiting at their last draw (by start index)
    started: usize,
    waiting: Vec<usize>,
    released: Vec<usize>,
    generation: u64,
    rng: u64,
}
thread_local!(static ROW: Cell<(u64, u64, usize)> = const { Cell::new((0, 0, 0)) });

/// A draw in the middle of cell i of s, whether it is read from its upper or lower half.
pub fn middle(i: u64, s: u64) -> u64 {
    let x = ((2 * i + 1) << 32) / (2 * s);
    x << 32 | x
}

/// Draws of a whole render of n samples.
pub fn draws(c: &Value, n: u32) -> u64 {
    let mut k = c.clone();
    k["world"] = json!("empty");
    k["n"] = json!(n);
    k["strat"] = json!("final");
    let mut sc = session::scene(&k);
    // what post processors do is no matter, only whether they ask for more buffers
    use solstrale::post::PostProcessor;
    let aux = sc.render_config.post_processors.iter().any(|p| p.needs_albedo_and_normal_colors());
    sc.render_config.post_processors = if aux { vec![solstrale::post::OidnPostProcessor::new()] } else { vec![] };
    sc.world = cells(c);
    let count = Arc::new(Mutex::new(0u64));
    let k = count.clone();
    let force = middle(0, int(&c["S"]) as u64);
    let forced = c["subs"].is_array();
    fastrand::verif::set_observer(Some(Arc::new(move || {
        *k.lock().unwrap() += 1;
        forced.then_some(force)
    })));
    let (tx, _rx) = channel();
    let (_atx, arx) = channel();
    let _ = catch_unwind(AssertUnwindSafe(move || ray_trace(sc, &tx, &arx).is_ok()));
    fastrand::verif::set_observer(None);
    let x = *count.lock().unwrap();
    x
}

/// An image of the report after k samples, with everything needed to recompute it.
pub fn event(c: &Value, k: usize, img: image::RgbImage) -> Value {
    let list = |v: &Value| if v.is_null() { json!([]) } else { v.clone() };
    json!({"ev": "image", "k": k, "w": c["w"], "h": c["h"], "iw": img.width(), "ih": img.height(), "S": c["S"], "dir": c["dir"],
        "subs": list(&c["subs"]), "kind": c["kind"], "chan": c["chan"].as_i64().unwrap_or(0), "chain": list(&c["links"]), "miss": list(&c["miss"]),
        "gain": list(&c["gain"]), "masks": list(&c["masks"]), "behind": list(&c["behind"]),
        "plane": if c["plane"].is_null() { json!([0, 0, 0]) } else { c["plane"].clone() }, "px": img.into_raw()})
}

pub fn image(c: &Value) -> Vec<Value> {
    let threads = int(&c["threads"]) as usize;
    std::env::set_var("RAYON_NUM_THREADS", threads.to_string());
    let (w, h, n) = (int(&c["w"]) as u64, int(&c["h"]) as u64, int(&c["n"]) as u64);
    let s = int(&c["S"]) as u64;
    let subs: Option<Vec<u64>> = c["subs"].as_array().map(|a| a.iter().map(|x| int(x) as u64).collect());
    let (d1, d2) = (draws(c, 1), draws(c, 2));
    let per = d2.saturating_sub(d1).max(1); // draws of a sample,
    let pre = d1.saturating_sub(per); // before the first one,
    let free = c["kind"] == "spread";
    let per_row = (per / h).max(1); // and of a row (if all rows are alike)
    let adv = c["adv"].as_str().unwrap_or("none").to_string();
    let orders: Vec<Vec<usize>> = c["orders"].as_array().map_or(vec![], |a| {
        a.iter().map(|o| arr(o).iter().map(|x| int(x) as usize - 1).collect()).collect()
    });
    let mut sc = session::scene(&{
        let mut k = c.clone();
        k["world"] = json!("empty");
        k
    });
    sc.world = cells(c);
    static RUN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
    let run = RUN.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let st = Arc::new((Mutex::new(Sched { count: 0, started: 0, waiting: vec![], released: vec![], generation: 0,
        rng: int(&c["seed"]) as u64 }), Condvar::new()));
    let s2 = st.clone();
    fastrand::verif::set_observer(Some(Arc::new(move || {
        let (mx, cv) = (&s2.0, &s2.1);
        let mut g = mx.lock().unwrap();
        g.count += 1;
        let m = (g.count - 1).saturating_sub(pre) / per; // sample in progress, from 0
        // draws of this worker in its row
        let (r0, mut j, mut idx) = ROW.with(|r| r.get());
        if r0 != run {
            j = 0;
        }
        if j == 0 {
            idx = g.started;
            g.started += 1;
        }
        j += 1;
        let last = j == per_row;
        ROW.with(|r| r.set((run, if last { 0 } else { j }, idx)));
        g.rng = g.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let rnd = g.rng >> 33;
        let mut sleep = 0;
        match adv.as_str() {
            "random" if rnd % 7 == 0 => sleep = rnd % 200,
            "late" if last => sleep = rnd % 600,
            "straggler" if last && idx as u64 == rnd % h => sleep = 4000,
            "lockstep" if last => {
                // wait until as many rows as can run together stand at their last draw
                let inflight = threads.min((h as usize) - g.released.len());
                g.waiting.push(idx);
                let gen = g.generation;
                if g.waiting.len() >= inflight {
                    let x = std::mem::take(&mut g.waiting);
                    g.released.extend(x);
                    g.generation += 1;
                    cv.notify_all();
                } else {
                    let end = Instant::now() + Duration::from_millis(60);
                    while g.generation == gen {
                        let left = end.saturating_duration_since(Instant::now());
                        if left.is_zero() {
                            let x = std::mem::take(&mut g.waiting);
                            g.released.extend(x);
                            g.generation += 1;
                            cv.notify_all();
                            break;
                        }
                        g = cv.wait_timeout(g, left).unwrap().0;
                    }
                }
            }
            "orders" if last => {
                // this row is let through when all rows before it in the order are
                let order = &orders[(m as usize).min(orders.len() - 1)];
                let place = order.iter().position(|x| *x == idx).unwrap_or(0);
                let end = Instant::now() + Duration::from_millis(100);
                loop {
                    let done = order[..place].iter().filter(|x| g.released.contains(x)).count();
                    let left = end.saturating_duration_since(Instant::now());
                    if done == place || left.is_zero() {
                        break;
                    }
                    g = cv.wait_timeout(g, left).unwrap().0;
                }
                // and let those after it wait until this row is in
                let s3 = s2.clone();
                std::thread::spawn(move || {
                    std::thread::sleep(Duration::from_micros(150));
                    s3.0.lock().unwrap().released.push(idx);
                    s3.1.notify_all();
                });
            }
            _ => {}
        }
        if g.count == pre + (m + 1) * per {
            // the next draw belongs to the next sample; every row of this one has been started
            g.started = 0;
            g.released.clear();
            g.waiting.clear();
        }
        drop(g);
        if sleep > 0 {
            std::thread::sleep(Duration::from_micros(sleep));
        }
        match &subs {
            // the middle of the cell of this sample
            Some(v) => Some(middle(v[(m as usize).min(v.len() - 1)], s)),
            None if free => None,
            None => {
                // anywhere but near the border of a pixel, which belongs to its neighbour as well
                let z = rnd.wrapping_mul(0x9E37_79B9_7F4A_7C15);
                let x = (1 << 27) + (z >> 32) / 16 * 15;
                Some(x << 32 | x)
            }
        }
    })));
    #[cfg(feature = "oidn")]
    oidn::CALLS.lock().unwrap().clear();
    // the answer of the denoiser shows in the image: channels rotated, undone here
    let rotated = if c["rotate"].is_null() { 0 } else { int(&c["rotate"]) as usize };
    #[cfg(feature = "oidn")]
    oidn::ROTATE.store(rotated, std::sync::atomic::Ordering::SeqCst);
    let (tx, rx) = channel();
    let (_atx, arx) = channel();
    let r = catch_unwind(AssertUnwindSafe(move || ray_trace(sc, &tx, &arx).map_err(|e| e.to_string())));
    fastrand::verif::set_observer(None);
    let mut out = vec![];
    #[allow(unused_mut, unused_variables)]
    let mut calls = 0;
    for (i, p) in rx.iter().enumerate() {
        if let Some(mut img) = p.render_image {
            for px in img.pixels_mut() {
                px.0.rotate_right(rotated);
            }
            let mut e = event(c, i + 1, img);
            #[cfg(feature = "oidn")]
            if c["denoised"].as_bool().unwrap_or(false) {
                // what the denoiser was given for this image: gamma corrected means, back as sums
                let all = oidn::CALLS.lock().unwrap();
                if let Some(x) = all.get(calls) {
                    let k = (i + 1) as f64;
                    let sums = |v: &Vec<f32>| v.iter().map(|x| q(*x as f64 * *x as f64 * k * (*x as f64).signum(), 65536.)).collect::<Vec<_>>();
                    let mut a = e.clone();
                    a["ev"] = json!("aux");
                    a["px"] = json!([]);
                    a["dims"] = json!([x.dims.0, x.dims.1]);
                    a["albedo"] = json!(sums(&x.albedo));
                    a["normal"] = json!(sums(&x.normal));
                    a["color"] = json!(sums(&x.color));
                    a["told"] = json!([x.srgb, x.hdr]);
                    a["colored"] = c["colored"].clone();
                    out.push(a);
                } else {
                    out.push(json!({"ev": "aux-missing", "k": i + 1}));
                }
                calls += 1;
            }
            if !c["colored"].as_bool().unwrap_or(true) {
                e["kind"] = json!("any");
            }
            out.push(e);
        }
    }
    #[cfg(feature = "oidn")]
    oidn::ROTATE.store(0, std::sync::atomic::Ordering::SeqCst);
    match r {
        Ok(Ok(())) => out.push(json!({"ev": "rendered", "n": n, "draws": st.0.lock().unwrap().count, "expect": pre + per * n})),
        Ok(Err(e)) => out.push(json!({"ev": "failed", "msg": e})),
        Err(_) => out.push(json!({"ev": "panic"})),
    }
    out
}
