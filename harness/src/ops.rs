//! Component-level jobs: static B+-tree, packed R-tree, Hilbert sort, key codec.
use crate::guarded;
use crate::io::{Env, HttpEnv, HttpSrc, Src};
use chrono::{DateTime, TimeZone, Utc};
use fcb_core::packed_rtree::{calc_extent, hilbert_sort, NodeItem, PackedRTree, Query};
use fcb_core::static_btree::{Entry, FixedStringKey, HttpIndex, HttpMultiIndex, Key, KeyType, MemoryIndex, MemoryMultiIndex,
    MultiIndex, Operator, QueryCondition, SearchIndex, StreamIndex, StreamMultiIndex, Stree};
use http_range_client::AsyncBufferedHttpRangeClient;
use ordered_float::OrderedFloat;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

pub fn hexs(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

pub fn f64v(v: &Value) -> f64 {
    match v {
        Value::Number(n) => n.as_f64().unwrap(),
        Value::String(s) => match s.as_str() {
            "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "nan" => f64::NAN,
            t => t.parse().unwrap(),
        },
        _ => panic!("bad f64 {v}"),
    }
}
fn i128v(v: &Value) -> i128 {
    match v {
        Value::Number(n) => n.to_string().parse().unwrap(),
        Value::String(s) => s.parse().unwrap(),
        Value::Bool(b) => *b as i128,
        _ => panic!("bad int {v}"),
    }
}
pub fn dt(v: &Value) -> DateTime<Utc> {
    match v {
        Value::String(s) => DateTime::parse_from_rfc3339(s).unwrap().with_timezone(&Utc),
        Value::Array(a) => Utc
            .timestamp_opt(a[0].as_i64().unwrap(), a[1].as_u64().unwrap() as u32)
            .unwrap(),
        _ => panic!("bad datetime {v}"),
    }
}

pub trait J: Key + 'static {
    fn j(v: &Value) -> Self;
    fn out(&self) -> Value;
    fn kt(self) -> KeyType;
    fn add_mem(m: &mut MemoryMultiIndex, f: String, i: MemoryIndex<Self>);
    fn add_stream(m: &mut StreamMultiIndex, f: String, i: StreamIndex<Self>, len: u64);
    fn add_http(m: &mut HttpMultiIndex<HttpSrc>, f: String, i: HttpIndex<Self>);
}
macro_rules! multi { ($variant:ident, $add:ident) => {
    fn kt(self) -> KeyType { KeyType::$variant(self) }
    fn add_mem(m: &mut MemoryMultiIndex, f: String, i: MemoryIndex<Self>) { m.$add(f, i) }
    fn add_stream(m: &mut StreamMultiIndex, f: String, i: StreamIndex<Self>, len: u64) { m.$add(f, i, len) }
    fn add_http(m: &mut HttpMultiIndex<HttpSrc>, f: String, i: HttpIndex<Self>) { m.add_index(f, i) }
} }
macro_rules! jint { ($($t:ty, $v:ident, $a:ident);*) => { $(impl J for $t {
    fn j(v: &Value) -> Self { i128v(v) as $t }
    fn out(&self) -> Value { json!(self.to_string()) }
    multi!($v, $a);
})* } }
jint!(i8, Int8, add_i8_index; u8, UInt8, add_u8_index; i16, Int16, add_i16_index; u16, UInt16, add_u16_index;
      i32, Int32, add_i32_index; u32, UInt32, add_u32_index; i64, Int64, add_i64_index; u64, UInt64, add_u64_index);
impl J for bool {
    multi!(Bool, add_bool_index);
    fn j(v: &Value) -> Self { i128v(v) != 0 }
    fn out(&self) -> Value { json!(if *self { "1" } else { "0" }) }
}
impl J for OrderedFloat<f32> {
    multi!(Float32, add_f32_index);
    fn j(v: &Value) -> Self { OrderedFloat(f64v(v) as f32) }
    fn out(&self) -> Value { json!(format!("{:?}", self.0)) }
}
impl J for OrderedFloat<f64> {
    multi!(Float64, add_f64_index);
    fn j(v: &Value) -> Self { OrderedFloat(f64v(v)) }
    fn out(&self) -> Value { json!(format!("{:?}", self.0)) }
}
impl J for DateTime<Utc> {
    multi!(DateTime, add_datetime_index);
    fn j(v: &Value) -> Self { dt(v) }
    fn out(&self) -> Value { json!(format!("{}.{:09}", self.timestamp(), self.timestamp_subsec_nanos())) }
}
macro_rules! jstr { ($($n:literal, $v:ident, $a:ident);*) => { $(impl J for FixedStringKey<$n> {
    fn j(v: &Value) -> Self { FixedStringKey::from_str(v.as_str().unwrap()) }
    fn out(&self) -> Value {
        let mut b = Vec::new();
        self.write_to(&mut b).unwrap();
        json!(hexs(&b))
    }
    multi!($v, $a);
})* } }
jstr!(20, StringKey20, add_string_index20; 50, StringKey50, add_string_index50; 100, StringKey100, add_string_index100);

/// KeyType of a query condition
pub fn key_type(t: &str, v: &Value) -> KeyType {
    match t {
        "i8" => KeyType::Int8(J::j(v)),
        "u8" => KeyType::UInt8(J::j(v)),
        "i16" => KeyType::Int16(J::j(v)),
        "u16" => KeyType::UInt16(J::j(v)),
        "i32" => KeyType::Int32(J::j(v)),
        "u32" => KeyType::UInt32(J::j(v)),
        "i64" => KeyType::Int64(J::j(v)),
        "u64" => KeyType::UInt64(J::j(v)),
        "f32" => KeyType::Float32(J::j(v)),
        "f64" => KeyType::Float64(J::j(v)),
        "bool" => KeyType::Bool(J::j(v)),
        "dt" => KeyType::DateTime(J::j(v)),
        "s20" => KeyType::StringKey20(J::j(v)),
        "s50" => KeyType::StringKey50(J::j(v)),
        "s100" => KeyType::StringKey100(J::j(v)),
        _ => panic!("bad key type {t}"),
    }
}
pub fn operator(s: &str) -> Operator {
    match s {
        "eq" => Operator::Eq,
        "ne" => Operator::Ne,
        "gt" => Operator::Gt,
        "lt" => Operator::Lt,
        "ge" => Operator::Ge,
        "le" => Operator::Le,
        _ => panic!("bad op {s}"),
    }
}

macro_rules! dispatch {
    ($t:expr, $f:ident, $job:expr) => {
        match $t {
            "i8" => $f::<i8>($job),
            "u8" => $f::<u8>($job),
            "i16" => $f::<i16>($job),
            "u16" => $f::<u16>($job),
            "i32" => $f::<i32>($job),
            "u32" => $f::<u32>($job),
            "i64" => $f::<i64>($job),
            "u64" => $f::<u64>($job),
            "f32" => $f::<OrderedFloat<f32>>($job),
            "f64" => $f::<OrderedFloat<f64>>($job),
            "bool" => $f::<bool>($job),
            "dt" => $f::<DateTime<Utc>>($job),
            "s20" => $f::<FixedStringKey<20>>($job),
            "s50" => $f::<FixedStringKey<50>>($job),
            "s100" => $f::<FixedStringKey<100>>($job),
            t => panic!("bad key type {t}"),
        }
    };
}

fn res<T, E: std::fmt::Display>(r: Result<Result<T, E>, String>, f: impl Fn(T) -> Value) -> Value {
    match r {
        Ok(Ok(v)) => f(v),
        Ok(Err(e)) => json!({"err": e.to_string()}),
        Err(p) => json!({ "panic": p }),
    }
}

pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}

pub fn http_env(v: &Value) -> HttpEnv {
    HttpEnv {
        fault_at: v["fault_at"].as_u64().map(|x| x as usize),
        kind: v["kind"].as_str().unwrap_or("err").to_string(),
        sticky: v["sticky"].as_bool().unwrap_or(false),
        short_to: v["short_to"].as_u64().unwrap_or(0) as usize,
    }
}
pub fn log_json(log: &Arc<Mutex<Vec<(u64, u64, String)>>>) -> Value {
    json!(log.lock().unwrap().iter().map(|(a, b, s)| json!([a, b, s])).collect::<Vec<_>>())
}

struct One<K: Key> {
    name: String,
    idx: MemoryIndex<K>,
    re: Option<MemoryIndex<K>>,
    buf: Vec<u8>,
    n: usize,
    bf: u16,
    at: usize,
}

/// Builds the indexes of one or several attributes of one key type, lays them one after another into
/// a file (foreign bytes before and after) and asks them, in every representation.
fn stree_t<K: J>(job: &Value) -> Value {
    let prefix = job["prefix"].as_u64().unwrap_or(0) as usize;
    let suffix = job["suffix"].as_u64().unwrap_or(0) as usize;
    let mut file = vec![0xA5u8; prefix];
    let mut all: Vec<One<K>> = Vec::new();
    let mut outs = Vec::new();
    for spec in job["indexes"].as_array().unwrap() {
        let entries: Vec<Entry<K>> = spec["entries"]
            .as_array()
            .unwrap()
            .iter()
            .map(|e| Entry { key: K::j(&e[0]), offset: i128v(&e[1]) as u64 })
            .collect();
        let bf = spec["bf"].as_u64().unwrap() as u16;
        let idx = match guarded(|| MemoryIndex::<K>::build(&entries, bf)) {
            Ok(Ok(i)) => i,
            Ok(Err(e)) => return json!({"build": {"err": e.to_string()}}),
            Err(p) => return json!({"build": {"panic": p}}),
        };
        let mut buf = Vec::new();
        let ser = guarded(|| idx.serialize(&mut buf));
        let n = idx.num_items();
        let mut out = json!({"num_items": n, "size": idx.size(), "payload_size": idx.payload_size(),
            "ser": res(ser, |n| json!(n)), "ser_len": buf.len(), "key_size": K::SERIALIZED_SIZE});
        if job["dump"].as_bool().unwrap_or(false) {
            out["bytes"] = json!(hexs(&buf));
        }
        let re = match guarded(|| MemoryIndex::<K>::from_buf(&buf[..], n, bf)) {
            Ok(Ok(m)) => Some(m),
            Ok(Err(e)) => {
                out["reload"] = json!({"err": e.to_string()});
                None
            }
            Err(p) => {
                out["reload"] = json!({ "panic": p });
                None
            }
        };
        let at = file.len();
        file.extend_from_slice(&buf);
        outs.push(out);
        all.push(One { name: spec["name"].as_str().unwrap_or("a").to_string(), idx, re, buf, n, bf, at });
    }
    let fb = file.len();
    file.extend(vec![0x5Au8; suffix]);
    let file = Arc::new(file);
    let opt = |v: &Value| if v.is_null() { None } else { Some(K::j(v)) };
    let henv = http_env(&job["http"]);
    let env = Env { chunk: job["chunk"].as_u64().unwrap_or(0) as usize, ..Default::default() };
    let thr = job["threshold"].as_u64().unwrap_or(1024 * 1024) as usize;
    let min_req = job["min_req"].as_u64().unwrap_or(0) as usize;
    let source = |at: usize| {
        let mut src = Src::new(file.clone(), env.clone());
        src.pos = at as u64;
        src
    };
    let client = |log: &Arc<Mutex<Vec<(u64, u64, String)>>>| {
        let cl = HttpSrc { data: file.clone(), log: log.clone(), env: henv.clone() };
        let mut c = AsyncBufferedHttpRangeClient::with(cl, "mem");
        c.set_min_req_size(min_req);
        c
    };
    let http_items = |v: Vec<fcb_core::static_btree::stree::http::HttpSearchResultItem>| {
        json!(v.iter().map(|i| i.range.start() as i64 - fb as i64).collect::<Vec<_>>())
    };
    let mut answers = Vec::new();
    let empty = vec![];
    for q in job["queries"].as_array().unwrap_or(&empty) {
        let kind = q[0].as_str().unwrap();
        let mut a = serde_json::Map::new();
        let log = Arc::new(Mutex::new(Vec::new()));
        if kind == "conds" {
            let conds: Vec<QueryCondition> = q[1]
                .as_array()
                .unwrap()
                .iter()
                .map(|c| QueryCondition {
                    field: c[0].as_str().unwrap().to_string(),
                    operator: operator(c[1].as_str().unwrap()),
                    key: K::j(&c[2]).kt(),
                })
                .collect();
            let mut mm = MemoryMultiIndex::new();
            let mut mb = MemoryMultiIndex::new();
            let mut ms = StreamMultiIndex::new();
            let mut mh = HttpMultiIndex::<HttpSrc>::new();
            for o in &all {
                K::add_mem(&mut mm, o.name.clone(), o.idx.clone());
                if let Some(m) = &o.re {
                    K::add_mem(&mut mb, o.name.clone(), m.clone());
                }
                K::add_stream(&mut ms, o.name.clone(), StreamIndex::new(o.n, o.bf, o.at as u64, o.buf.len() as u64), o.buf.len() as u64);
                K::add_http(&mut mh, o.name.clone(), HttpIndex::new(o.n, o.bf, o.at, fb, thr));
            }
            a.insert("mem".into(), res(guarded(|| mm.query(&conds)), |x| json!(x)));
            a.insert("buf".into(), res(guarded(|| mb.query(&conds)), |x| json!(x)));
            let mut src = source(prefix);
            a.insert("stream".into(), res(guarded(|| ms.query(&mut src, &conds)), |x| json!(x)));
            let r = guarded(|| {
                let mut c = client(&log);
                block_on(mh.query(&mut c, &conds))
            });
            a.insert("http".into(), res(r, http_items));
        } else {
            let o = &all[0];
            let exact = kind == "exact";
            let k1 = &q[1];
            let mem = |m: &MemoryIndex<K>| {
                guarded(|| if exact { m.find_exact(K::j(k1)) } else { m.find_range(opt(k1), opt(&q[2])) })
            };
            a.insert("mem".into(), res(mem(&o.idx), |x| json!(x)));
            a.insert("buf".into(), match &o.re {
                None => json!({"err": "no reload"}),
                Some(m) => res(mem(m), |x| json!(x)),
            });
            let si = StreamIndex::<K>::new(o.n, o.bf, o.at as u64, o.buf.len() as u64);
            let mut src = source(o.at);
            let r = guarded(|| {
                if exact {
                    si.find_exact_with_reader(&mut src, K::j(k1))
                } else {
                    si.find_range_with_reader(&mut src, opt(k1), opt(&q[2]))
                }
            });
            a.insert("stream".into(), res(r, |x| json!(x)));
            let hi = HttpIndex::<K>::new(o.n, o.bf, o.at, fb, thr);
            let r = guarded(|| {
                let mut c = client(&log);
                block_on(async {
                    if exact {
                        hi.find_exact(&mut c, K::j(k1)).await
                    } else {
                        hi.find_range(&mut c, opt(k1), opt(&q[2])).await
                    }
                })
            });
            a.insert("http".into(), res(r, http_items));
            if let (false, Some(lo), Some(up)) = (exact, opt(k1), opt(&q[2])) {
                let r = guarded(|| {
                    let mut c = client(&log);
                    block_on(Stree::<K>::http_stream_find_range(&mut c, o.at, fb, o.n, o.bf, lo, up, thr))
                });
                a.insert("rawhttp".into(), res(r, http_items));
            }
        }
        a.insert("log".into(), log_json(&log));
        answers.push(Value::Object(a));
    }
    json!({"build": "ok", "indexes": outs, "answers": answers, "len": file.len()})
}
pub fn stree(job: &Value) -> Value {
    dispatch!(job["type"].as_str().unwrap(), stree_t, job)
}

fn key_t<K: J>(job: &Value) -> Value {
    // each value: serialized bytes, what reads back; and the order of every pair
    let vals: Vec<K> = job["values"].as_array().unwrap().iter().map(K::j).collect();
    let rows: Vec<Value> = vals
        .iter()
        .map(|k| {
            let mut b = Vec::new();
            let n = guarded(|| k.write_to(&mut b));
            let back = guarded(|| K::from_bytes(&b));
            let mut cur = std::io::Cursor::new(&b);
            let back2 = guarded(|| K::read_from(&mut cur));
            // every destination and every source that is too short must be reported
            let short_w = (0..K::SERIALIZED_SIZE).all(|m| {
                let mut room = vec![0u8; m];
                let mut w = &mut room[..];
                matches!(guarded(|| k.write_to(&mut w)), Ok(Err(_)))
            });
            let short_r = (0..K::SERIALIZED_SIZE.min(b.len())).all(|m| matches!(guarded(|| K::read_from(&mut &b[..m])), Ok(Err(_))));
            json!({"short_w": short_w, "short_r": short_r, "left": b.len() as u64 - cur.position(),
                   "n": res(n, |x| json!(x)), "len": b.len(), "size": K::SERIALIZED_SIZE, "bytes": hexs(&b),
                   "eq1": res(back, |x| json!(x == *k)), "eq2": res(back2, |x| json!(x == *k)),
                   "max": K::max_value() >= *k, "min": K::min_value() <= *k,
                   "out": k.out()})
        })
        .collect();
    let cmp: Vec<Vec<i8>> = vals
        .iter()
        .map(|a| vals.iter().map(|b| a.cmp(b) as i8).collect())
        .collect();
    json!({"rows": rows, "cmp": cmp})
}
pub fn key(job: &Value) -> Value {
    dispatch!(job["type"].as_str().unwrap(), key_t, job)
}

pub fn boxv(v: &Value) -> NodeItem {
    let mut n = NodeItem::create(0);
    n.min_x = f64v(&v[0]);
    n.min_y = f64v(&v[1]);
    n.max_x = f64v(&v[2]);
    n.max_y = f64v(&v[3]);
    n
}
pub fn rquery(v: &Value) -> Query {
    match v[0].as_str().unwrap() {
        "bbox" => Query::BBox(f64v(&v[1]), f64v(&v[2]), f64v(&v[3]), f64v(&v[4])),
        "point" => Query::PointIntersects(f64v(&v[1]), f64v(&v[2])),
        "nearest" => Query::PointNearest(f64v(&v[1]), f64v(&v[2])),
        q => panic!("bad query {q}"),
    }
}

pub fn rtree(job: &Value) -> Value {
    let mut nodes: Vec<NodeItem> = Vec::new();
    let mut off = 0u64;
    for (i, b) in job["boxes"].as_array().unwrap().iter().enumerate() {
        let mut n = boxv(b);
        n.offset = match job["offsets"].as_array() {
            Some(a) => a[i].as_u64().unwrap(),
            None => off,
        };
        off += 100;
        nodes.push(n);
    }
    let ns = job["node_size"].as_u64().unwrap() as u16;
    let extent = calc_extent(&nodes);
    if job["sort"].as_bool().unwrap_or(false) {
        hilbert_sort(&mut nodes, &extent);
    }
    let built = guarded(|| PackedRTree::build(&nodes, &extent, ns));
    let tree = match built {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return json!({"build": {"err": e.to_string()}}),
        Err(p) => return json!({"build": {"panic": p}}),
    };
    let mut buf = Vec::new();
    let w = guarded(|| tree.stream_write(&mut buf));
    let n = nodes.len();
    let mut out = json!({"build": "ok", "size": tree.size(), "index_size": PackedRTree::index_size(n, ns),
        "write": res(w, |_| json!("ok")), "len": buf.len()});
    if job["dump"].as_bool().unwrap_or(false) {
        out["bytes"] = json!(hexs(&buf));
    }
    let prefix = job["prefix"].as_u64().unwrap_or(0) as usize;
    let attr = job["attr_size"].as_u64().unwrap_or(0) as usize;
    let suffix = job["suffix"].as_u64().unwrap_or(0) as usize;
    let mut file = vec![0xA5u8; prefix];
    file.extend_from_slice(&buf);
    file.extend(vec![0xA5u8; attr + suffix]);
    let file = Arc::new(file);
    let fb = prefix + buf.len() + attr;
    let henv = http_env(&job["http"]);
    let reload = guarded(|| PackedRTree::from_buf(&buf[..], n, ns));
    let items = |v: Vec<fcb_core::packed_rtree::SearchResultItem>| {
        json!(v.iter().map(|i| i.offset).collect::<Vec<_>>())
    };
    let mut answers = Vec::new();
    let empty = vec![];
    for q in job["queries"].as_array().unwrap_or(&empty) {
        let mem = guarded(|| tree.search(rquery(q)));
        let re = match &reload {
            Ok(Ok(t)) => res(guarded(|| t.search(rquery(q))), items),
            Ok(Err(e)) => json!({"err": e.to_string()}),
            Err(p) => json!({ "panic": p }),
        };
        let mut src = Src::new(file.clone(), Env::default());
        src.pos = prefix as u64;
        let st = guarded(|| PackedRTree::stream_search(&mut src, n, ns, rquery(q)));
        let mut st = res(st, |v| json!({ "r": items(v) }));
        st["pos"] = json!(src.pos as i64 - prefix as i64);
        let log = Arc::new(Mutex::new(Vec::new()));
        let ht = guarded(|| {
            let cl = HttpSrc { data: file.clone(), log: log.clone(), env: henv.clone() };
            let mut c = AsyncBufferedHttpRangeClient::with(cl, "mem");
            c.set_min_req_size(job["min_req"].as_u64().unwrap_or(0) as usize);
            block_on(PackedRTree::http_stream_search(
                &mut c,
                prefix,
                attr,
                n,
                ns,
                rquery(q),
                job["threshold"].as_u64().unwrap_or(256 * 1024) as usize,
            ))
        });
        let mut ht = res(ht, |v| {
            json!({"r": v.iter().map(|i| i.range.start() as i64 - fb as i64).collect::<Vec<_>>(),
                   "e": v.iter().map(|i| i.range.end().map(|e| e as i64 - fb as i64)).collect::<Vec<_>>()})
        });
        ht["log"] = log_json(&log);
        answers.push(json!({"mem": res(mem, items), "buf": re, "stream": st, "http": ht}));
    }
    out["answers"] = Value::Array(answers);
    out
}

pub fn level_bounds(job: &Value) -> Value {
    let rows: Vec<Value> = job["cases"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| {
            let r = guarded(|| {
                PackedRTree::index_size(c[0].as_u64().unwrap() as usize, c[1].as_u64().unwrap() as u16)
            });
            match r {
                Ok(n) => json!(n),
                Err(p) => json!({ "panic": p }),
            }
        })
        .collect();
    json!({ "sizes": rows })
}

pub fn hilbert(job: &Value) -> Value {
    let mut nodes: Vec<NodeItem> = job["boxes"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, b)| {
            let mut n = boxv(b);
            n.offset = i as u64;
            n
        })
        .collect();
    let extent = calc_extent(&nodes);
    hilbert_sort(&mut nodes, &extent);
    json!({"extent": [extent.min_x, extent.min_y, extent.max_x, extent.max_y],
           "perm": nodes.iter().map(|n| n.offset).collect::<Vec<_>>()})
}

pub fn cjread(job: &Value) -> Value {
    use fcb_core::{read_cityjson_from_reader, CJType, CJTypeKind};
    let kind = || if job["kind"] == "seq" { CJTypeKind::Seq } else { CJTypeKind::Normal };
    let r = if let Some(p) = job["path"].as_str() {
        guarded(|| fcb_core::read_cityjson(p, kind()))
    } else {
        let text = match job["hex"].as_str() {
            Some(h) => unhex(h),
            None => job["text"].as_str().unwrap().as_bytes().to_vec(),
        };
        let env = Env { chunk: job["chunk"].as_u64().unwrap_or(0) as usize, fail_at: job["fail_at"].as_u64(),
                        interrupt: job["interrupt"].as_u64().unwrap_or(0) as usize, ..Default::default() };
        let src = Src::new(Arc::new(text), env);
        let cap = job["cap"].as_u64().unwrap_or(8192) as usize;
        guarded(|| read_cityjson_from_reader(std::io::BufReader::with_capacity(cap, src), kind()))
    };
    res(r, |v| match v {
        CJType::Normal(cj) => json!({"cj": serde_json::to_value(&cj).unwrap()}),
        CJType::Seq(s) => json!({"cj": serde_json::to_value(&s.cj).unwrap(),
            "features": s.features.iter().map(|f| serde_json::to_value(f).unwrap()).collect::<Vec<_>>()}),
    })
}
