//! vwasm JOBS OUT [THREADS]: read sessions with the reader made for browsers, one JSON observation per job
use bytes::Bytes;
use fcb_wasm::{AsyncFeatureIter, HttpFcbReader, WasmAttrQuery, WasmSpatialQuery};
use gloo_net::{servers, Answer};
use http_range_client::{AsyncHttpRangeClient, HttpError};
use io::{HttpEnv, HttpSrc};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use wasm_bindgen::JsValue;

#[allow(dead_code)]
#[path = "io.rs"]
mod io;

thread_local!(static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn run<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}

/// a future that never waits
fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(x) => x,
        std::task::Poll::Pending => panic!("waits"),
    }
}

/// registers the file under a url of its own; every request is answered by HttpSrc
fn serve(data: Arc<Vec<u8>>, env: HttpEnv, net: bool) -> (String, Arc<Mutex<Vec<(u64, u64, String)>>>) {
    static N: AtomicUsize = AtomicUsize::new(0);
    let url = format!("mem://{}", N.fetch_add(1, Ordering::SeqCst));
    let log = Arc::new(Mutex::new(Vec::new()));
    let src = HttpSrc { data, log: log.clone(), env };
    let f = move |range: Option<&str>| -> Result<Answer, String> {
        let r: http_range_client::Result<Bytes> = now(src.get_range("", range.unwrap_or("")));
        match r {
            Ok(b) => Ok(Answer { status: 206, body: b.to_vec() }),
            Err(HttpError::HttpStatus(503)) if net => Err("connection reset".into()),
            Err(HttpError::HttpStatus(s)) => Ok(Answer { status: s, body: b"<html>".to_vec() }),
            Err(e) => Err(e.to_string()),
        }
    };
    servers().lock().unwrap().insert(url.clone(), Arc::new(f));
    (url, log)
}

async fn select(rd: HttpFcbReader, sel: &Value, echo: bool) -> Result<AsyncFeatureIter, JsValue> {
    if sel.get("attr").is_some() {
        let mut q = WasmAttrQuery::new(&JsValue::of(&sel["attr"]))?;
        if echo {
            q = WasmAttrQuery::new(&q.inner())?;
        }
        rd.select_attr_query(&q).await
    } else if sel.get("q").is_some() {
        let mut q = WasmSpatialQuery::new(&JsValue::of(&sel["q"]))?;
        if echo {
            q = WasmSpatialQuery::new(&q.to_js())?;
        }
        // what the query says about itself
        let says = json!({"type": q.query_type(), "minX": q.min_x(), "minY": q.min_y(), "maxX": q.max_x(), "maxY": q.max_y(), "x": q.x(), "y": q.y()});
        let said = says.as_object().unwrap().iter().filter(|(_, v)| !v.is_null()).all(|(k, v)| {
            sel["q"].get(k).is_some_and(|w| w == v || (w.is_number() && w.as_f64() == v.as_f64()))
        });
        let all = sel["q"].as_object().is_some_and(|o| o.keys().all(|k| !says[k].is_null()));
        if !said || !all {
            panic!("query {} describes itself as {says}", sel["q"]);
        }
        rd.select_spatial(&q).await
    } else {
        rd.select_all().await
    }
}

fn one_read(data: &Arc<Vec<u8>>, r: &Value) -> Value {
    let mut d = data.clone();
    if let Some(t) = r["trunc"].as_u64() {
        d = Arc::new(d[..(t as usize).min(d.len())].to_vec());
    }
    if let Some(p) = r["patch"].as_array() {
        let mut v = (*d).clone();
        for e in p {
            let off = e[0].as_u64().unwrap() as usize;
            for (i, b) in unhex(e[1].as_str().unwrap()).iter().enumerate() {
                if off + i < v.len() {
                    v[off + i] = *b;
                }
            }
        }
        d = Arc::new(v);
    }
    let h = &r["http"];
    let henv = HttpEnv {
        fault_at: h["fault_at"].as_u64().map(|x| x as usize),
        kind: h["kind"].as_str().unwrap_or("").to_string(),
        sticky: h["sticky"].as_bool().unwrap_or(false),
        short_to: h["short_to"].as_u64().unwrap_or(0) as usize,
    };
    let (url, log) = serve(d, henv, h["net"].as_bool().unwrap_or(false));
    let acc = || log.lock().unwrap().len() as u64;
    let hit = || log.lock().unwrap().iter().filter(|(_, _, s): &&(u64, u64, String)| s != "ok").count() as u64;
    let mut out = serde_json::Map::new();
    let mut events: Vec<Value> = Vec::new();
    let res = guarded(|| {
        run(async {
            let rd = match HttpFcbReader::new(url.clone()).await {
                Ok(x) => x,
                Err(e) => {
                    out.insert("open".into(), json!({"err": e.json(), "hit": hit()}));
                    return;
                }
            };
            out.insert("open".into(), json!("ok"));
            let meta = r["meta"].as_bool().unwrap_or(false);
            if meta {
                let show = |v: Result<JsValue, JsValue>| match v {
                    Ok(v) => v.json(),
                    Err(e) => json!({"err": e.json()}),
                };
                out.insert("meta".into(), show(rd.cityjson()));
                out.insert("cols".into(), show(rd.meta()));
            }
            let mut it = match select(rd, &r["sel"], r["echo"].as_bool().unwrap_or(false)).await {
                Ok(it) => it,
                Err(e) => {
                    out.insert("select".into(), json!({"err": e.json(), "hit": hit()}));
                    return;
                }
            };
            out.insert("select".into(), json!("ok"));
            out.insert("count".into(), json!(it.features_count()));
            if meta && it.header().map(|h| h.json()).ok() != out.get("meta").cloned() {
                events.push(json!(["header differs"]));
            }
            let max = r["max"].as_u64().unwrap_or(u64::MAX);
            let mut extra = r["extra"].as_u64().unwrap_or(0);
            let mut n = 0;
            while n < max {
                let ev = match it.next().await {
                    Ok(Some(f)) => {
                        n += 1;
                        let f = f.json();
                        if it.cur_cj_feature().map(|c| c.json()).ok().as_ref() == Some(&f) {
                            json!(["f", f])
                        } else {
                            json!(["current feature differs"])
                        }
                    }
                    Ok(None) => json!(["end", acc()]),
                    Err(e) => json!(["err", e.json(), hit()]),
                };
                let stop = ev[0] == "end" || ev[0] == "err";
                events.push(ev);
                if stop {
                    if extra == 0 {
                        break;
                    }
                    extra -= 1;
                }
            }
        })
    });
    servers().lock().unwrap().remove(&url);
    if let Err(p) = res {
        events.push(json!(["panic", p]));
        out.insert("panic".into(), json!(p));
    }
    out.insert("events".into(), json!(events));
    out.insert("log".into(), json!(log.lock().unwrap().iter().map(|(a, b, s)| json!([a, b, s])).collect::<Vec<_>>()));
    Value::Object(out)
}

fn job(j: &Value) -> Value {
    match j["op"].as_str().unwrap_or("") {
        "merge" => {
            let doc = |v: &Value| JsValue::Doc(Arc::new(v.clone()));
            let r = guarded(|| fcb_wasm::util::cjseq_to_cj_wasm(doc(&j["base"]), doc(&j["features"])));
            match r {
                Ok(Ok(v)) => json!({"ok": v.json()}),
                Ok(Err(e)) => json!({"err": e.json()}),
                Err(p) => json!({"panic": p}),
            }
        }
        "obj" => {
            let r = guarded(|| fcb_wasm::convert_cityjson_to_obj(&JsValue::Doc(Arc::new(j["doc"].clone()))));
            match r {
                Ok(Ok(v)) => json!({"ok": v}),
                Ok(Err(e)) => json!({"err": e.json()}),
                Err(p) => json!({"panic": p}),
            }
        }
        _ => {
            let data = match j["path"].as_str() {
                Some(p) => std::fs::read(p).unwrap(),
                None => unhex(j["hex"].as_str().unwrap()),
            };
            let data = Arc::new(data);
            json!({"len": data.len(), "reads": j["reads"].as_array().unwrap().iter().map(|r| one_read(&data, r)).collect::<Vec<_>>()})
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let jobs: VecDeque<Value> =
        std::fs::read_to_string(&args[1]).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let n: usize = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(8);
    std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = i.to_string().chars().take(300).collect())));
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap())));
    let q = Arc::new(Mutex::new(jobs));
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let (q, out) = (q.clone(), out.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let Some(j) = q.lock().unwrap().pop_front() else { break };
                    let mut r = job(&j);
                    r["id"] = j["id"].clone();
                    let mut o = out.lock().unwrap();
                    writeln!(o, "{r}").unwrap();
                    o.flush().unwrap();
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
}
