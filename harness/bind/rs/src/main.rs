// The Rust crate, told what to do by lines of JSON.
use futures::Stream;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};
use wtr_watcher::Watch;

fn say(v: Value) {
    let mut s = v.to_string();
    s.push('\n');
    let mut o = std::io::stdout().lock();
    o.write_all(s.as_bytes()).unwrap();
    o.flush().unwrap();
}

#[derive(Default)]
struct Bell {
    rung: Mutex<bool>,
    cv: Condvar,
    times: AtomicUsize,
}

impl Wake for Bell {
    fn wake(self: Arc<Self>) {
        self.times.fetch_add(1, Ordering::SeqCst);
        *self.rung.lock().unwrap() = true;
        self.cv.notify_all();
    }
}

struct One {
    w: Option<Pin<Box<Watch>>>,
}

fn show(id: u64, e: wtr_watcher::Event) {
    let shown = !format!("{:?}", e).is_empty();
    let t = e.effect_time;
    let v = serde_json::to_value(&e.clone()).unwrap();
    let same = v["path_name"].as_str() == Some(e.path_name.as_str())
        && v["associated_path_name"].as_str() == e.associated_path_name.as_deref();
    let text = serde_json::to_string(&e).unwrap();
    let back: wtr_watcher::Event = serde_json::from_str(&text).unwrap();
    let same = same && format!("{:?}", back) == format!("{:?}", e);
    say(json!({"e": id, "t": t, "path": e.path_name, "assoc": e.associated_path_name,
        "et": v["effect_type"], "pt": v["path_type"], "de": format!("{:?}", e.effect_type), "dp": format!("{:?}", e.path_type), "json": text, "ok": shown && same}));
}

impl Bell {
    // Rung within some time?
    fn wait(&self, d: Duration) -> bool {
        let end = Instant::now() + d;
        let mut rung = self.rung.lock().unwrap();
        while !*rung {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return false;
            }
            rung = self.cv.wait_timeout(rung, left).unwrap().0;
        }
        *rung = false;
        true
    }
}

// Items, until there were `n`, or it's been too long. Only polls when it's woken.
fn drain(id: u64, w: &mut One, n: u64, ms: u64) -> (u64, bool, bool) {
    let bell = Arc::new(Bell::default());
    let waker = Waker::from(bell.clone());
    let mut cx = Context::from_waker(&waker);
    let end = Instant::now() + Duration::from_millis(ms);
    let mut got = 0;
    let Some(s) = w.w.as_mut() else { return (0, false, true) };
    while got < n {
        match s.as_mut().poll_next(&mut cx) {
            Poll::Ready(Some(e)) => {
                got += 1;
                show(id, e);
            }
            Poll::Ready(None) => return (got, true, true),
            Poll::Pending => {
                if bell.wait(end.saturating_duration_since(Instant::now())) {
                    continue;
                }
                // Nobody woke us: if there's something, then it's just about to.
                match s.as_mut().poll_next(&mut cx) {
                    Poll::Ready(Some(e)) => {
                        show(id, e);
                        return (got + 1, false, bell.wait(Duration::from_secs(10)));
                    }
                    Poll::Ready(None) => return (got, true, true),
                    Poll::Pending => return (got, false, true),
                }
            }
        }
    }
    (got, false, true)
}

fn main() {
    let mut ws: HashMap<u64, One> = HashMap::new();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let c: Value = serde_json::from_str(&line).unwrap();
        let id = c["id"].as_u64().unwrap_or(0);
        match c["op"].as_str().unwrap() {
            "open" => match Watch::try_new(c["path"].as_str().unwrap()) {
                Ok(w) => {
                    // (It may be moved around.)
                    let w = Some(w);
                    ws.insert(id, One { w: w.map(Box::pin) });
                    say(json!({"r": "open", "id": id}));
                }
                Err(e) => say(json!({"r": "open", "id": id, "error": e})),
            },
            "drain" => {
                let w = ws.get_mut(&id).unwrap();
                let (got, ended, woken) = drain(id, w, c["n"].as_u64().unwrap(), c["ms"].as_u64().unwrap());
                say(json!({"r": "drain", "id": id, "got": got, "ended": ended, "woken": woken}));
            }
            "close" | "again" => {
                let w = ws.get(&id).unwrap();
                let r = w.w.as_ref().map(|w| w.close().is_ok());
                say(json!({"r": c["op"], "id": id, "ok": r}));
            }
            "drop" => {
                ws.get_mut(&id).unwrap().w = None;
                say(json!({"r": "drop", "id": id}));
            }
            "busy" => {
                std::thread::sleep(Duration::from_micros(c["us"].as_u64().unwrap()));
                say(json!({"r": "busy"}));
            }
            "ending" => {
                say(json!({"r": "ending"}));
                match c["how"].as_str().unwrap() {
                    "exit" => std::process::exit(0),
                    "error" => panic!("on purpose"),
                    _ => {}
                }
            }
            "forget" => {
                ws.clear();
                say(json!({"r": "forget"}));
            }
            _ => panic!(),
        }
    }
}
