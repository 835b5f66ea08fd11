//! Several renders in one process, of one renderer or of several: interleaved at their random
//! draws as a schedule says, or one after the other on the same thread.
use crate::image::{cells, draws, event, middle};
use crate::scene::*;
use crate::session;
use serde_json::{json, Value};
use solstrale::renderer::{RenderProgress, Renderer};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// A render and its caller.
struct One {
    count: u64,
    per: u64,
    pre: u64,
    s: u64,
    subs: Vec<u64>,
    rx: Option<Receiver<RenderProgress>>,
    atx: Option<Sender<bool>>,
    reps: Vec<RenderProgress>,
    acts: Vec<Vec<String>>, // at each stop (one after the other)
    stop: usize,
    waiting: bool,
    res: String,
}
impl One {
    fn drain(&mut self) {
        if let Some(rx) = &self.rx {
            self.reps.extend(rx.try_iter());
        }
    }
    fn act(&mut self, a: &str) {
        match a {
            "abort" => {
                let _ = self.atx.as_ref().map(|x| x.send(true));
            }
            "drop" => {
                self.drain();
                self.rx = None;
            }
            _ => panic!("harness: act {a}"),
        }
    }
    /// Counts a draw: how often the render stops at it, and what is drawn.
    fn draw(&mut self) -> (u32, u64) {
        self.count += 1;
        let c = self.count;
        let (m, j) = if c > self.pre { ((c - self.pre - 1) / self.per, (c - self.pre - 1) % self.per + 1) } else { (0, 0) };
        let sub = if self.subs.is_empty() { 0 } else { self.subs[(m as usize).min(self.subs.len() - 1)] };
        ((j == 1) as u32 + (j == self.per / 2 + 1) as u32, middle(sub, self.s))
    }
}
struct St {
    rs: Vec<One>,
    turn: usize, // the render that goes on; none: usize::MAX
    free: bool,
}
const NONE: usize = usize::MAX;

fn make(c: &Value) -> Renderer {
    let mut k = c.clone();
    k["world"] = json!("empty");
    let mut sc = session::scene(&k);
    sc.world = cells(c);
    Renderer::new(sc).expect("harness: renderer")
}
fn call(r: &Renderer, tx: &Sender<RenderProgress>, arx: &Receiver<bool>) -> String {
    catch_unwind(AssertUnwindSafe(|| if r.render(tx, arx).is_ok() { "ok" } else { "err" })).unwrap_or("panic").to_string()
}

/// {renders: [image case + {of: number of the case whose renderer it uses}], sched: [[render, act]..],
///  serial: one after the other on this thread}
pub fn pair(c: &Value) -> Vec<Value> {
    std::env::set_var("RAYON_NUM_THREADS", int(&c["threads"]).to_string());
    let cfg = arr(&c["renders"]);
    let sched: Vec<(usize, String)> = arr(&c["sched"]).iter().map(|x| (int(&x[0]) as usize - 1, x[1].as_str().unwrap().to_string())).collect();
    let mut rs = vec![];
    let mut ends = vec![];
    for (i, k) in cfg.iter().enumerate() {
        let (d1, d2) = (draws(k, 1), draws(k, 2));
        let per = d2.saturating_sub(d1).max(1);
        let (tx, rx) = channel();
        let (atx, arx) = channel();
        let mut acts = vec![vec![]];
        for (r, a) in &sched {
            if *r == i {
                if a == "go" {
                    acts.push(vec![]);
                } else {
                    acts.last_mut().unwrap().push(a.clone());
                }
            }
        }
        rs.push(One { count: 0, per, pre: d1.saturating_sub(per), s: int(&k["S"]) as u64,
            subs: k["subs"].as_array().map_or(vec![], |a| a.iter().map(|x| int(x) as u64).collect()),
            rx: Some(rx), atx: Some(atx), reps: vec![], acts, stop: 0, waiting: false, res: "none".into() });
        ends.push(Some((tx, arx)));
    }
    let mut renderers: Vec<Option<Arc<Renderer>>> = cfg.iter().map(|_| None).collect();
    let st = Arc::new((Mutex::new(St { rs, turn: NONE, free: false }), Condvar::new()));
    let s2 = st.clone();
    let serial = c["serial"].as_bool().unwrap_or(false);
    fastrand::verif::set_observer(Some(Arc::new(move || {
        let mut g = s2.0.lock().unwrap();
        let r = g.turn;
        if r == NONE {
            return Some(middle(0, 1));
        }
        let (stops, v) = g.rs[r].draw();
        for _ in 0..stops {
            if serial {
                let o = &mut g.rs[r];
                o.stop += 1;
                for a in o.acts.get(o.stop).cloned().unwrap_or_default() {
                    o.act(&a);
                }
            } else {
                g.rs[r].waiting = true;
                g.turn = NONE;
                s2.1.notify_all();
                while g.turn != r && !g.free {
                    g = s2.1.wait(g).unwrap();
                }
                g.rs[r].waiting = false;
            }
        }
        Some(v)
    })));
    let mut handles = vec![];
    let mut stuck = false;
    if serial {
        for (i, k) in cfg.iter().enumerate() {
            let of = int(&k["of"]) as usize - 1;
            if renderers[of].is_none() {
                renderers[of] = Some(Arc::new(make(&cfg[of])));
            }
            {
                let mut g = st.0.lock().unwrap();
                g.turn = i;
                for a in g.rs[i].acts[0].clone() {
                    g.rs[i].act(&a);
                }
            }
            let (tx, arx) = ends[i].take().unwrap();
            let res = call(renderers[of].as_ref().unwrap(), &tx, &arx);
            let mut g = st.0.lock().unwrap_or_else(|e| e.into_inner());
            g.turn = NONE;
            g.rs[i].res = res;
        }
    } else {
        for (r, a) in &sched {
            if a != "go" {
                st.0.lock().unwrap().rs[*r].act(a);
                continue;
            }
            if let Some((tx, arx)) = ends[*r].take() {
                let of = int(&cfg[*r]["of"]) as usize - 1;
                if renderers[of].is_none() {
                    renderers[of] = Some(Arc::new(make(&cfg[of])));
                }
                let (renderer, s3, i) = (renderers[of].clone().unwrap(), st.clone(), *r);
                st.0.lock().unwrap().turn = i;
                handles.push(std::thread::spawn(move || {
                    let res = call(&renderer, &tx, &arx);
                    let mut g = s3.0.lock().unwrap_or_else(|e| e.into_inner());
                    g.rs[i].res = res;
                    if g.turn == i {
                        g.turn = NONE;
                    }
                    s3.1.notify_all();
                }));
            } else {
                let mut g = st.0.lock().unwrap();
                if g.rs[*r].res == "none" {
                    g.turn = *r;
                    st.1.notify_all();
                }
            }
            // until it stops again or is over
            let end = Instant::now() + Duration::from_millis(2000);
            let mut g = st.0.lock().unwrap();
            while g.turn != NONE {
                let left = end.saturating_duration_since(Instant::now());
                if left.is_zero() {
                    // it cannot go on while the others stand still: no harm, but no such schedule
                    stuck = true;
                    break;
                }
                g = st.1.wait_timeout(g, left).unwrap().0;
            }
            if stuck {
                break;
            }
        }
        {
            let mut g = st.0.lock().unwrap();
            g.free = true;
            st.1.notify_all();
        }
        for h in handles {
            let _ = h.join();
        }
    }
    fastrand::verif::set_observer(None);
    if stuck {
        return vec![json!({"ev": "unscheduled"})];
    }
    let mut g = st.0.lock().unwrap();
    let out: Vec<Value> = cfg.iter().enumerate().map(|(i, k)| {
        let o = &mut g.rs[i];
        o.drain();
        let reps: Vec<Value> = std::mem::take(&mut o.reps).into_iter().enumerate().map(|(j, p)| {
            let pr = q(p.progress, 1e6);
            match p.render_image {
                Some(img) => json!({"image": true, "p": pr, "img": event(k, j + 1, img)}),
                None => json!({"image": false, "p": pr}),
            }
        }).collect();
        json!({"n": k["n"], "strat": k["policy"], "of": k["of"], "res": o.res, "reps": reps})
    }).collect();
    vec![json!({"ev": "renders", "serial": serial, "sched": c["sched"], "renders": out})]
}
