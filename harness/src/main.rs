//! Conformance recorder: runs cases (ndjson) against the library under test through its public
//! API and writes what it observed as events (ndjson) of integers.  It judges nothing: the
//! TLA+ trace specifications do.
mod algebra;
mod camera;
mod geom;
mod image;
mod light;
mod obj;
mod optics;
mod pair;
mod post;
mod scene;
mod session;
mod stats;
mod texture;

use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Case in progress and when it has to be done (ms since start), for the watchdog.
static CASE: AtomicI64 = AtomicI64::new(-1);
static DEADLINE: AtomicU64 = AtomicU64::new(u64::MAX);
/// Message and place of the last panic of the thread running the cases.
thread_local!(static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

fn dispatch(cmd: &str, c: &Value) -> Vec<Value> {
    match cmd {
        "lights" => algebra::lights(c),
        "vec" => algebra::vec(c),
        "intervals" => algebra::intervals(c),
        "rays" => algebra::rays(c),
        "onb" => algebra::onb(c),
        "dist" => stats::dist(c),
        "range" => stats::range(c),
        "aim" => stats::aim(c),
        "density" => stats::density(c),
        "mixval" => stats::mixval(c),
        "cosval" => stats::cosval(c),
        "choose" => stats::choose(c),
        "furnace" => stats::furnace(c),
        "fog" => stats::fog(c),
        "optics" => optics::optics(c),
        "camera" => camera::camera(c),
        "model" => obj::model(c),
        "load" => obj::load(c),
        "tone" => post::tone(c),
        "bloom" => post::bloom(c),
        "texel" => texture::texel(c),
        "solid" => texture::solid(c),
        "pattern" => texture::pattern(c),
        "bump" => texture::bump(c),
        "fail" => texture::fail(c),
        "tilt" => texture::tilt(c),
        "emit" => optics::emit(c),
        "blend" => optics::blend(c),
        "hits" => geom::hits(c),
        "boxhit" => geom::boxhit(c),
        "bbox" => geom::bbox(c),
        "union" => geom::union(c),
        "slab" => geom::slab(c),
        "center" => geom::center(c),
        "trans" => geom::trans(c),
        "nearest" => geom::nearest(c),
        "session" => session::session(c),
        "bloomnew" => session::bloomnew(c),
        "long" => session::long(c),
        "image" => image::image(c),
        "pair" => pair::pair(c),
        "path" => light::path(c),
        "corridor" => light::corridor(c),
        "preview" => light::preview(c),
        "decision" => session::decision(c),
        _ => panic!("harness: unknown command {cmd}"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (input, output, limit) = (&a[1], a[2].clone(), a[3].parse::<u64>().unwrap());
    let cases: Vec<Value> = std::io::BufReader::new(std::fs::File::open(input).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    if cases.iter().any(|c| matches!(c["cmd"].as_str(), Some("image" | "pair" | "session" | "long"))) {
        // should rows be traced in rayon's own pool, then holding some of them back must not use it up
        rayon::ThreadPoolBuilder::new().num_threads(16).build_global().unwrap();
    }
    let start = Instant::now();
    let mut out = BufWriter::new(std::fs::File::create(&output).unwrap());
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let hang_out = format!("{output}.hang");
    let _ = std::fs::remove_file(&hang_out);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(50));
        if start.elapsed().as_millis() as u64 > DEADLINE.load(Ordering::SeqCst) {
            let c = CASE.load(Ordering::SeqCst);
            std::fs::write(&hang_out, format!("{}\n", json!({"ev": "hang", "case": c}))).unwrap();
            std::process::exit(97);
        }
    });
    // where a crash of the process would have to be looked for
    let progress = format!("{output}.progress");
    for (i, c) in cases.iter().enumerate() {
        CASE.store(i as i64, Ordering::SeqCst);
        let ms = c["limit_ms"].as_u64().unwrap_or(limit);
        DEADLINE.store(start.elapsed().as_millis() as u64 + ms, Ordering::SeqCst);
        if i % 64 == 0 || c["risky"].as_bool().unwrap_or(false) {
            std::fs::write(&progress, format!("{i}")).unwrap();
        }
        let cmd = c["cmd"].as_str().unwrap();
        let evs = catch_unwind(AssertUnwindSafe(|| dispatch(cmd, c))).unwrap_or_else(|_| {
            let m = PANIC.with(|p| p.borrow().clone());
            if m.contains("harness:") {
                eprintln!("case {i}: {m}");
                std::process::exit(3);
            }
            vec![json!({"ev": "panic", "msg": m})]
        });
        fastrand::verif::set_observer(None);
        for mut e in evs {
            e["case"] = json!(i);
            writeln!(out, "{e}").unwrap();
        }
        if c["risky"].as_bool().unwrap_or(false) {
            out.flush().unwrap();
        }
    }
    out.flush().unwrap();
    DEADLINE.store(u64::MAX, Ordering::SeqCst);
    std::process::exit(0);
}
