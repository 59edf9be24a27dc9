//! Executes jobs (one JSON object per line) against the code under test and writes what was
//! observed (one JSON object per line, with the job's "id"). It has no expectations of its own:
//! verdicts are reached by TLC over the TLA+ specification.
//!
//! usage: vharness JOBS OUT [threads]
mod io;
mod ops;
mod session;

use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Run `f`; a panic is an observation ("panic" + where).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

fn run_job(job: &Value) -> Value {
    let op = job["op"].as_str().unwrap_or("");
    let r = guarded(|| match op {
        "session" => session::session(job),
        "stree" => ops::stree(job),
        "rtree" => ops::rtree(job),
        "hilbert" => ops::hilbert(job),
        "key" => ops::key(job),
        "level_bounds" => ops::level_bounds(job),
        "cjread" => ops::cjread(job),
        _ => json!({"bad_op": op}),
    });
    let mut v = match r {
        Ok(v) => v,
        Err(p) => json!({ "panic": p }),
    };
    v["id"] = job["id"].clone();
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let jobs: VecDeque<Value> = std::fs::read_to_string(&args[1])
        .expect("jobs")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).expect("job"))
        .collect();
    let nthreads: usize = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("out"));
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = format!("{loc}: {msg}"));
    }));

    let total = jobs.len();
    let queue = Arc::new(Mutex::new(jobs));
    let (tx, rx) = mpsc::channel::<(usize, Option<Value>, Value)>();
    // running[w] = (job id, deadline)
    let running: Arc<Mutex<Vec<Option<(Value, Instant)>>>> = Arc::new(Mutex::new(Vec::new()));

    let spawn = {
        let queue = queue.clone();
        let running = running.clone();
        move || {
            let queue = queue.clone();
            let running2 = running.clone();
            let tx = tx.clone();
            let w = {
                let mut r = running.lock().unwrap();
                r.push(None);
                r.len() - 1
            };
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let job = queue.lock().unwrap().pop_front();
                    let Some(job) = job else { break };
                    let t = job["timeout"].as_f64().unwrap_or(20.0);
                    running2.lock().unwrap()[w] =
                        Some((job["id"].clone(), Instant::now() + Duration::from_secs_f64(t)));
                    let v = run_job(&job);
                    let mine = {
                        let mut r = running2.lock().unwrap();
                        r[w].take()
                    };
                    if mine.is_none() {
                        break; // declared hung meanwhile; the answer is discarded
                    }
                    if tx.send((w, Some(v), Value::Null)).is_err() {
                        break;
                    }
                })
                .expect("thread");
        }
    };
    for _ in 0..nthreads.max(1) {
        spawn();
    }
    let mut done = 0;
    while done < total {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok((_, Some(v), _)) => {
                writeln!(out, "{}", v).unwrap();
                out.flush().unwrap();
                done += 1;
            }
            Ok(_) => {}
            Err(_) => {}
        }
        let mut hung = Vec::new();
        {
            let mut r = running.lock().unwrap();
            let now = Instant::now();
            for s in r.iter_mut() {
                if let Some((_, dl)) = s {
                    if now > *dl {
                        hung.push(s.take().unwrap().0);
                    }
                }
            }
        }
        for id in hung {
            writeln!(out, "{}", json!({"id": id, "hang": true})).unwrap();
            out.flush().unwrap();
            done += 1;
            spawn();
        }
    }
    out.flush().unwrap();
    std::process::exit(0);
}
