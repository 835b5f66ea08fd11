//! Whole renders as their caller sees them: everything observable goes, in the order in which it
//! happens, into one log.  The random draws of the render are the probe: the n-th draw tells
//! which sample is in progress, and actions (abort, loss of the consumer, delays) can be taken
//! exactly there.
use crate::scene::*;
use serde_json::{json, Value};
use solstrale::camera::CameraConfig;
use solstrale::geo::vec3::Vec3;
use solstrale::hittable::{Bvh, Hittables};
use solstrale::post::{BloomPostProcessor, NopPostProcessor, OidnPostProcessor, PostProcessors};
use solstrale::ray_trace;
use solstrale::renderer::shader::*;
use solstrale::renderer::{RenderConfig, RenderImageStrategy, RenderProgress, Scene};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};

pub fn strategy(v: &Value) -> RenderImageStrategy {
    match v.as_str() {
        Some("every") => RenderImageStrategy::EverySample,
        Some("final") => RenderImageStrategy::OnlyFinal,
        _ => RenderImageStrategy::Interval(Duration::from_micros(int(&v["interval"]) as u64)),
    }
}
pub fn processor(v: &Value) -> PostProcessors {
    match v.as_str() {
        Some("nop") => NopPostProcessor::new(),
        Some("oidn") => OidnPostProcessor::new(),
        _ => BloomPostProcessor::new(
            f(&v["k"]),
            if v["thr"].is_null() { None } else { Some(f(&v["thr"])) },
            if v["max"].is_null() { None } else { Some(f(&v["max"])) },
        )
        .expect("harness: bloom"),
    }
}
pub fn shader(v: &Value) -> Shaders {
    match v.as_str() {
        Some("albedo") => AlbedoShader::new(),
        Some("normal") => NormalShader::new(),
        Some("simple") => SimpleShader::new(),
        _ => PathTracingShader::new(if v["path"].is_null() { 5 } else { int(&v["path"]) as u32 }),
    }
}
pub fn camera(v: &Value) -> CameraConfig {
    if v.is_null() {
        return CameraConfig {
            vertical_fov_degrees: 90.,
            aperture_size: 0.,
            look_from: Vec3::new(0., 0., 1.),
            look_at: Vec3::new(0., 0., 0.),
            up: Vec3::new(0., 1., 0.),
        };
    }
    // what is not given keeps its default
    let mut c = CameraConfig::default();
    if !v["fov"].is_null() {
        c.vertical_fov_degrees = f(&v["fov"]);
    }
    if !v["ap"].is_null() {
        c.aperture_size = f(&v["ap"]);
    }
    for (k, x) in [("from", &mut c.look_from), ("at", &mut c.look_at), ("up", &mut c.up)] {
        if !v[k].is_null() {
            *x = v3(&v[k]);
        }
    }
    c
}
pub fn world(v: &Value) -> Hittables {
    match v.as_str() {
        // a light that fills the whole view: two draws per pixel and sample
        None | Some("light") if !v.is_object() && !v.is_array() => Bvh::new(list(&json!([
            {"k": "quad", "q": [-1000, -1000, 0], "u": [2000, 0, 0], "v": [0, 2000, 0], "m": {"k": "light", "c": [0.25, 0.5, 0.75]}}]))),
        Some("dark") => Bvh::new(list(&json!([
            {"k": "quad", "q": [-1000, -1000, 0], "u": [2000, 0, 0], "v": [0, 2000, 0]},
            {"k": "sphere", "c": [0, 0, -3], "r": 1, "m": {"k": "metal", "c": [1, 1, 1], "fuzz": 0}}]))),
        Some("empty") => Bvh::new(vec![]),
        Some("fog") => Bvh::new(list(&json!([
            {"k": "fog", "d": 1, "c": [1, 1, 1], "b": {"k": "sphere", "c": [0, 0, -1], "r": 1, "m": {"k": "light", "c": [1, 1, 1]}}}]))),
        _ if v.is_array() => Bvh::new(list(v)),
        _ => shape(v),
    }
}
pub fn scene(c: &Value) -> Scene {
    Scene {
        world: world(&c["world"]),
        camera: camera(&c["camera"]),
        background_color: if c["bg"].is_null() { Vec3::new(0., 0., 0.) } else { v3(&c["bg"]) },
        render_config: if c["defaults"].as_bool().unwrap_or(false) { RenderConfig { samples_per_pixel: if c["probing"].is_null() { RenderConfig::default().samples_per_pixel } else { int(&c["n"]) as u32 }, ..RenderConfig::default() } } else { RenderConfig {
            width: int(&c["w"]) as usize,
            height: int(&c["h"]) as usize,
            samples_per_pixel: int(&c["n"]) as u32,
            shader: shader(&c["shader"]),
            post_processors: c["chain"].as_array().map_or(vec![], |a| a.iter().map(processor).collect()),
            render_image_strategy: strategy(&c["strat"]),
        } },
    }
}

/// Draws of a whole render of n samples.
fn draws(c: &Value, n: u32) -> u64 {
    let count = Arc::new(Mutex::new(0u64));
    let k = count.clone();
    fastrand::verif::set_observer(Some(Arc::new(move || {
        *k.lock().unwrap() += 1;
        None
    })));
    let mut c = c.clone();
    c["n"] = json!(n);
    c["probing"] = json!(true);
    c["strat"] = json!("final");
    c["chain"] = json!([]);
    let (tx, _rx) = channel();
    let (_atx, arx) = channel();
    let r = catch_unwind(AssertUnwindSafe(|| ray_trace(scene(&c), &tx, &arx).is_ok()));
    fastrand::verif::set_observer(None);
    let x = *count.lock().unwrap();
    match r {
        Ok(true) => x,
        _ => 0,
    }
}

struct St {
    log: Vec<Value>,
    rx: Option<Receiver<RenderProgress>>,
    atx: Option<Sender<bool>>,
    t0: SystemTime,
    count: u64,
    n: u32,
    w: u32,
    h: u32,
    reports: u64,
    on_report: Vec<(u64, Value)>,
}
impl St {
    fn now(&self) -> i64 {
        (self.t0.elapsed().unwrap_or_default().as_micros() as i64).min(2_000_000_000)
    }
    fn drain(&mut self) {
        loop {
            let r = match &self.rx {
                Some(rx) => match rx.try_recv() {
                    Ok(r) => r,
                    Err(_) => return,
                },
                None => return,
            };
            self.reports += 1;
            let k = self.reports as f64;
            let left = self.n as f64 - k;
            // the time since the start that the figures of the report imply, in us
            let e1 = r.fps.map_or(-1, |x| q(k / x, 1e6));
            let e2 = if left > 0. { q(r.estimated_time_left.as_secs_f64() * k / left, 1e6) } else { -1 };
            let dim = r.render_image.as_ref().map(|i| i.width() == self.w && i.height() == self.h);
            let t = self.now();
            self.log.push(json!({"a": "report", "nr": self.reports, "p": q(r.progress, 1e9), "done": r.progress == 1.0, "image": dim.is_some(),
                "dim": dim.unwrap_or(true), "left": q(r.estimated_time_left.as_secs_f64(), 1e6), "e1": e1, "e2": e2, "t": t}));
            let acts: Vec<Value> = self.on_report.iter().filter(|a| a.0 == self.reports).map(|a| a.1.clone()).collect();
            for a in acts {
                self.act(&a);
            }
        }
    }
    fn act(&mut self, a: &Value) {
        let t = self.now();
        match a.as_str() {
            Some("abort") | Some("abort-false") => {
                if let Some(x) = &self.atx {
                    self.log.push(json!({"a": "abort", "t": t}));
                    let _ = x.send(a == "abort");
                }
            }
            Some("hangup") => self.atx = None, // the caller loses interest in aborting
            Some("drop") => {
                self.log.push(json!({"a": "drop", "t": t}));
                self.rx = None;
            }
            _ => panic!("harness: action {a}"),
        }
    }
}

/// {w,h,n,strat,chain,world,threads, before: [action], at: [[sample, draw, action | {sleep}]..],
///  onreport: [[k, action]..], timed: [[us, action]..], lazy: reports are only received at the end}
pub fn session(c: &Value) -> Vec<Value> {
    #[cfg(feature = "oidn")]
    oidn::FAIL.store(0, Ordering::SeqCst);
    std::env::set_var("RAYON_NUM_THREADS", int(&c["threads"]).to_string());
    let n = int(&c["n"]) as u32;
    let (d1, d2) = (draws(c, 1), draws(c, 2));
    let per = d2.saturating_sub(d1).max(1);
    let pre = d1.saturating_sub(per);
    let lazy = c["lazy"].as_bool().unwrap_or(false);
    let (tx, rx) = channel();
    let (atx, arx) = channel();
    let empty = vec![];
    let st = Arc::new(Mutex::new(St {
        log: vec![], rx: Some(rx), atx: Some(atx), t0: SystemTime::now(), count: 0, n,
        w: int(&c["w"]) as u32, h: int(&c["h"]) as u32, reports: 0,
        on_report: c["onreport"].as_array().unwrap_or(&empty).iter().map(|x| (int(&x[0]) as u64, x[1].clone())).collect(),
    }));
    // draw number -> actions; a negative draw counts from the end of the sample, 0 is the middle
    let at: Vec<(u64, u64, Value)> = c["at"].as_array().unwrap_or(&empty).iter().map(|x| {
        let j = int(&x[1]);
        let j = if j > 0 { j.min(per as i64) } else if j == 0 { (per as i64 + 1) / 2 } else { (per as i64 + 1 + j).max(1) };
        (int(&x[0]) as u64, j as u64, x[2].clone())
    }).collect();
    for a in c["before"].as_array().unwrap_or(&empty) {
        st.lock().unwrap().act(a);
    }
    let sc = scene(c);
    let s2 = st.clone();
    fastrand::verif::set_observer(Some(Arc::new(move || {
        let mut sleep = 0;
        {
            let mut s = s2.lock().unwrap();
            s.count += 1;
            if s.count > pre {
                let (m, j) = ((s.count - pre - 1) / per + 1, (s.count - pre - 1) % per + 1);
                if j == 1 {
                    if !lazy {
                        s.drain();
                    }
                    let t = s.now();
                    s.log.push(json!({"a": "started", "m": m, "t": t}));
                }
                for (m2, j2, a) in &at {
                    if *m2 == m && *j2 == j {
                        if a.is_object() {
                            sleep = int(&a["sleep"]);
                        } else {
                            if !lazy {
                                s.drain();
                            }
                            s.act(a);
                        }
                    }
                }
                if j == per && sleep == 0 {
                    let t = s.now();
                    s.log.push(json!({"a": "drawn", "m": m, "t": t}));
                }
                if j == per && sleep != 0 {
                    // sleep first
                    drop(s);
                    std::thread::sleep(Duration::from_micros(sleep as u64));
                    sleep = 0;
                    let mut s = s2.lock().unwrap();
                    let t = s.now();
                    s.log.push(json!({"a": "drawn", "m": m, "t": t}));
                }
            }
        }
        if sleep > 0 {
            std::thread::sleep(Duration::from_micros(sleep as u64));
        }
        None
    })));
    #[cfg(feature = "oidn")]
    oidn::FAIL.store(c["denoiser"].as_u64().unwrap_or(0) as u32, Ordering::SeqCst);
    // the denoiser is seen at work, takes its time, and things happen meanwhile: {slow: us, ondenoise: [[nr, action]..]}
    #[cfg(feature = "oidn")]
    if !c["slow"].is_null() {
        let (slow, s5, nr) = (int(&c["slow"]) as u64, st.clone(), std::sync::atomic::AtomicI64::new(0));
        let acts: Vec<(i64, Value)> = c["ondenoise"].as_array().unwrap_or(&empty).iter().map(|x| (int(&x[0]), x[1].clone())).collect();
        *oidn::HOOK.lock().unwrap() = Some(Arc::new(move || {
            let me = nr.fetch_add(1, Ordering::SeqCst) + 1;
            let mut s = s5.lock().unwrap();
            if !lazy {
                s.drain();
            }
            let t = s.now();
            s.log.push(json!({"a": "denoise", "nr": me, "t": t}));
            for (_, a) in acts.iter().filter(|a| a.0 == me) {
                s.act(a);
            }
            drop(s);
            std::thread::sleep(Duration::from_micros(slow));
        }));
    }
    let expect = c["expect_msg"].as_str().unwrap_or("").to_string();
    let over = Arc::new(AtomicBool::new(false));
    st.lock().unwrap().t0 = SystemTime::now();
    let s3 = st.clone();
    let o3 = over.clone();
    let h = std::thread::spawn(move || {
        {
            let mut s = s3.lock().unwrap();
            let t = s.now();
            s.log.push(json!({"a": "call", "t": t}));
        }
        let r = catch_unwind(AssertUnwindSafe(|| match ray_trace(sc, &tx, &arx) {
            Ok(()) => ("ok", String::new()),
            Err(e) => ("err", e.to_string()),
        }))
        .unwrap_or(("panic", String::new()));
        let mut s = s3.lock().unwrap_or_else(|e| e.into_inner());
        if !lazy {
            s.drain();
        }
        let t = s.now();
        s.log.push(json!({"a": "return", "r": r.0, "msg": r.1, "msgok": r.1.contains(&expect), "t": t}));
        drop(s);
        drop(tx);
        o3.store(true, Ordering::SeqCst);
    });
    let timed: Vec<_> = c["timed"].as_array().unwrap_or(&empty).iter().map(|x| {
        let (us, a, s4) = (int(&x[0]) as u64, x[1].clone(), st.clone());
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_micros(us));
            let mut s = s4.lock().unwrap();
            s.drain();
            s.act(&a);
        })
    }).collect();
    while !over.load(Ordering::SeqCst) {
        if !lazy {
            st.lock().unwrap().drain();
        }
        std::thread::sleep(Duration::from_micros(if lazy { 2000 } else { 100 }));
    }
    h.join().expect("harness: renderer thread");
    for t in timed {
        t.join().expect("harness: timed action");
    }
    st.lock().unwrap().drain();
    fastrand::verif::set_observer(None);
    #[cfg(feature = "oidn")]
    {
        oidn::FAIL.store(0, Ordering::SeqCst);
        *oidn::HOOK.lock().unwrap() = None;
    }
    let s = st.lock().unwrap();
    let strat = c["strat"].as_str().unwrap_or("interval");
    vec![json!({"ev": "session", "n": n, "strat": strat, "d": c["strat"]["interval"].as_i64().unwrap_or(0),
        "lights": c["lights"], "chain": c["outcomes"], "log": s.log})]
}

/// The strategy's own decision, on any clock: times are last + unit * ns, durations d * unit.
pub fn decision(c: &Value) -> Vec<Value> {
    let unit = int(&c["unit"]) as u64;
    let base = SystemTime::UNIX_EPOCH + Duration::from_secs(int(&c["base"]) as u64);
    let dur = |x: i64| Duration::from_nanos(unit) * x.unsigned_abs() as u32;
    let at = |x: i64| if x < 0 { base - dur(x) } else { base + dur(x) };
    let strat = match c["strat"].as_str().unwrap() {
        "every" => RenderImageStrategy::EverySample,
        "final" => RenderImageStrategy::OnlyFinal,
        _ => RenderImageStrategy::Interval(dur(int(&c["d"]))),
    };
    let copied = strat;
    let (k, n) = (int(&c["k"]) as u32, int(&c["n"]) as u32);
    let got = copied.should_generate_image(k, n, at(int(&c["now"])), at(int(&c["last"])));
    vec![json!({"ev": "decision", "strat": c["strat"], "k": k, "n": n, "now": c["now"], "last": c["last"], "d": c["d"], "got": got})]
}

/// Which bloom parameters are accepted: [0, 0.5] is valid.
pub fn bloomnew(c: &Value) -> Vec<Value> {
    let opt = |v: &Value| if v.is_null() { None } else { Some(f(v)) };
    let r = BloomPostProcessor::new(f(&c["k"]), opt(&c["thr"]), opt(&c["max"]));
    vec![json!({"ev": "bloomnew", "valid": c["valid"], "ok": r.is_ok(), "msg": r.err().map_or(0, |e| e.to_string().len())})]
}

/// A render of very many samples, its reports summarised: {w, h, n, strat}.
pub fn long(c: &Value) -> Vec<Value> {
    std::env::set_var("RAYON_NUM_THREADS", int(&c["threads"]).to_string());
    fastrand::verif::set_observer(None);
    let n = int(&c["n"]) as u64;
    let sc = scene(c);
    let (tx, rx) = channel();
    let (_atx, arx) = channel();
    let h = std::thread::spawn(move || catch_unwind(AssertUnwindSafe(|| if ray_trace(sc, &tx, &arx).is_ok() { "ok" } else { "err" })).unwrap_or("panic"));
    let (mut k, mut wrong, mut images, mut last) = (0u64, vec![], vec![], json!(null));
    for r in rx {
        k += 1;
        // k of n, but for rounding
        if !((r.progress * n as f64 - k as f64).abs() < 1e-6) && wrong.len() < 5 {
            wrong.push(k);
        }
        if r.render_image.is_some() {
            images.push(k);
        }
        last = json!({"p": q(r.progress, 1e6), "left": q(r.estimated_time_left.as_secs_f64(), 1e6)});
    }
    let r = h.join().expect("harness: renderer thread");
    vec![json!({"ev": "long", "n": n, "strat": c["strat"].as_str().unwrap_or("interval"), "reports": k, "wrong": wrong, "first": images.first().unwrap_or(&0), "shown": images.len(),
        "final": images.last().unwrap_or(&0), "p": last["p"].as_i64().unwrap_or(-1), "left": last["left"].as_i64().unwrap_or(-1), "r": r})]
}
