//! Whole-file jobs: write a data set with the real writer, then run read sessions on the bytes.
use crate::guarded;
use crate::io::{Env, HttpSrc, Sink, Src};
use crate::ops::{block_on, f64v, hexs, http_env, key_type, log_json, operator, rquery, unhex};
use cjseq::{CityJSON, CityJSONFeature};
use fallible_streaming_iterator::FallibleStreamingIterator;
use fcb_core::attribute::{AttributeSchema, AttributeSchemaMethods};
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::fb::*;
use fcb_core::city_buffer::FcbBuffer;
use fcb_core::{AttrQuery, FcbReader, FcbWriter, HttpFcbReader};
use http_range_client::AsyncBufferedHttpRangeClient;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

fn env(v: &Value) -> Env {
    Env {
        chunk: v["chunk"].as_u64().unwrap_or(0) as usize,
        fail_at: v["fail_at"].as_u64(),
        fail_once: v["fail_once"].as_bool().unwrap_or(false),
        fail_flush: v["fail_flush"].as_bool().unwrap_or(false),
        interrupt: v["interrupt"].as_u64().unwrap_or(0) as usize,
    }
}

pub fn column_type(s: &str) -> ColumnType {
    match s {
        "Byte" => ColumnType::Byte,
        "UByte" => ColumnType::UByte,
        "Bool" => ColumnType::Bool,
        "Short" => ColumnType::Short,
        "UShort" => ColumnType::UShort,
        "Int" => ColumnType::Int,
        "UInt" => ColumnType::UInt,
        "Long" => ColumnType::Long,
        "ULong" => ColumnType::ULong,
        "Float" => ColumnType::Float,
        "Double" => ColumnType::Double,
        "String" => ColumnType::String,
        "Json" => ColumnType::Json,
        "DateTime" => ColumnType::DateTime,
        "Binary" => ColumnType::Binary,
        _ => panic!("column type {s}"),
    }
}

fn schema(v: &Value) -> Option<AttributeSchema> {
    let o = v.as_object()?;
    let mut s = AttributeSchema::new();
    for (k, e) in o {
        s.insert(k.clone(), (e[0].as_u64().unwrap() as u16, column_type(e[1].as_str().unwrap())));
    }
    Some(s)
}

/// The schemas as the command line tool derives them.
fn auto_schema(fs: &[CityJSONFeature]) -> AttributeSchema {
    let mut s = AttributeSchema::new();
    for f in fs {
        for co in f.city_objects.values() {
            if let Some(a) = &co.attributes {
                s.add_attributes(a);
            }
        }
    }
    s
}
fn auto_sem(cj: &CityJSON, fs: &[CityJSONFeature]) -> AttributeSchema {
    let mut s = AttributeSchema::new();
    let own = fs.iter().flat_map(|f| f.city_objects.values()).flat_map(|co| co.geometry.iter().flatten());
    for g in own.chain(cj.geometry_templates.iter().flat_map(|t| &t.templates)) {
        for o in g.semantics.iter().flat_map(|s| &s.surfaces) {
            if let Some(a) = &o.other {
                s.add_attributes(a);
            }
        }
    }
    s
}

fn write(w: &Value) -> (Value, Option<Vec<u8>>) {
    let cj: CityJSON = match serde_json::from_value(w["cj"].clone()) {
        Ok(c) => c,
        Err(e) => return (json!({"bad_input": e.to_string()}), None),
    };
    let mut fs: Vec<CityJSONFeature> = Vec::new();
    for f in w["features"].as_array().unwrap() {
        match serde_json::from_value(f.clone()) {
            Ok(f) => fs.push(f),
            Err(e) => return (json!({"bad_input": e.to_string()}), None),
        }
    }
    let nonempty = |s: AttributeSchema| if s.is_empty() { None } else { Some(s) };
    let sch = if w["schema"] == "auto" { nonempty(auto_schema(&fs)) } else { schema(&w["schema"]) };
    let sem = if w["sem"] == "auto" { nonempty(auto_sem(&cj, &fs)) } else { schema(&w["sem"]) };
    let o = &w["opts"];
    let opts = if o.is_null() {
        None
    } else {
        Some(HeaderWriterOptions {
            write_index: o["write_index"].as_bool().unwrap_or(true),
            feature_count: match &o["feature_count"] {
                Value::Null => fs.len() as u64,
                n => n.as_u64().unwrap(),
            },
            index_node_size: o["index_node_size"].as_u64().unwrap_or(16) as u16,
            attribute_indices: o["attr"].as_array().map(|a| {
                a.iter()
                    .map(|e| {
                        (e[0].as_str().unwrap().to_string(), e[1].as_u64().map(|x| x as u16))
                    })
                    .collect()
            }),
            geographical_extent: o["extent"].as_array().map(|a| {
                let mut e = [0.0; 6];
                for i in 0..6 {
                    e[i] = f64v(&a[i]);
                }
                e
            }),
        })
    };
    let sink = Sink::new(env(&w["sink"]));
    let data = sink.data.clone();
    let hits = sink.hits.clone();
    let mut stage = "new";
    let r = guarded(|| -> std::result::Result<(), String> {
        let mut wr = FcbWriter::new(cj, opts, sch, sem).map_err(|e| e.to_string())?;
        stage = "add";
        for f in fs.iter() {
            wr.add_feature(f).map_err(|e| e.to_string())?;
        }
        stage = "write";
        wr.write(sink).map_err(|e| e.to_string())?;
        Ok(())
    });
    let bytes = data.lock().unwrap().clone();
    match r {
        Ok(Ok(())) if *hits.lock().unwrap() > 0 => (json!({"silent": true}), Some(bytes)),
        Ok(Ok(())) => (json!("ok"), Some(bytes)),
        Ok(Err(e)) => (json!({"err": e, "stage": stage, "out": bytes.len(), "hit": *hits.lock().unwrap()}), Some(bytes)),
        Err(p) => (json!({"panic": p, "stage": stage, "out": bytes.len()}), None),
    }
}

fn flat(f: CityFeature) -> Value {
    let mut objs = Vec::new();
    for o in f.objects().iter().flatten() {
        let mut gs = Vec::new();
        for g in o.geometry().iter().flatten() {
            let v = |x: Option<flatbuffers::Vector<u32>>| x.map(|v| v.iter().collect::<Vec<u32>>());
            gs.push(json!({"type": format!("{:?}", g.type_()), "solids": v(g.solids()), "shells": v(g.shells()),
                "surfaces": v(g.surfaces()), "strings": v(g.strings()), "boundaries": v(g.boundaries()),
                "semantics": v(g.semantics()),
                "surf": g.semantics_objects().map(|x| x.iter().map(|s| json!([format!("{:?}", s.type_()), s.extension_type(), s.parent(),
                    s.children().map(|c| c.iter().collect::<Vec<u32>>())])).collect::<Vec<_>>()),
                "mat": g.material().map(|x| x.iter().map(|m| json!({"theme": m.theme(), "value": m.value(), "solids": v(m.solids()),
                    "shells": v(m.shells()), "vertices": v(m.vertices())})).collect::<Vec<_>>()),
                "tex": g.texture().map(|x| x.iter().map(|m| json!({"theme": m.theme(), "solids": v(m.solids()), "shells": v(m.shells()),
                    "surfaces": v(m.surfaces()), "strings": v(m.strings()), "vertices": v(m.vertices())})).collect::<Vec<_>>())}));
        }
        let inst = o.geometry_instances().iter().flatten().map(|i| json!([i.template(), i.boundaries().map(|b| b.iter().collect::<Vec<u32>>()),
            i.transformation().map(|m| [m.m00(), m.m01(), m.m02(), m.m03(), m.m10(), m.m11(), m.m12(), m.m13(),
                m.m20(), m.m21(), m.m22(), m.m23(), m.m30(), m.m31(), m.m32(), m.m33()])])).collect::<Vec<_>>();
        objs.push(json!({"id": o.id(), "geoms": gs, "inst": inst,
            "attrs": o.attributes().map(|a| a.bytes().to_vec()),
            "cols": o.columns().map(|c| c.iter().map(|e| json!([e.index(), e.name(), format!("{:?}", e.type_())])).collect::<Vec<_>>())}));
    }
    json!({"id": f.id(), "objects": objs, "verts": f.vertices().map(|v| v.iter().map(|p| [p.x(), p.y(), p.z()]).collect::<Vec<_>>())})
}

fn header_json(h: &Header) -> Value {
    json!({
        "features_count": h.features_count(),
        "index_node_size": h.index_node_size(),
        "attr": h.attribute_index().map(|a| a.iter().map(|e| json!([e.index(), e.length(), e.branching_factor(), e.num_unique_items()])).collect::<Vec<_>>()),
        "columns": h.columns().map(|c| c.iter().map(|e| json!([e.index(), e.name(), format!("{:?}", e.type_())])).collect::<Vec<_>>()),
        "sem_columns": h.semantic_columns().map(|c| c.iter().map(|e| json!([e.index(), e.name(), format!("{:?}", e.type_())])).collect::<Vec<_>>()),
        "extent": h.geographical_extent().map(|e| json!([e.min().x(), e.min().y(), e.min().z(), e.max().x(), e.max().y(), e.max().z()])),
        "version": h.version(),
    })
}
fn attr_query(v: &Value) -> AttrQuery {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| {
            (
                c[0].as_str().unwrap().to_string(),
                operator(c[1].as_str().unwrap()),
                key_type(c[2].as_str().unwrap(), &c[3]),
            )
        })
        .collect()
}

struct Obs {
    out: serde_json::Map<String, Value>,
    events: Vec<Value>,
}

fn doc_event(want: &str, buf: &FcbBuffer, f: impl Fn() -> std::result::Result<CityJSONFeature, String>) -> Value {
    match want {
        "id" => json!(["f", buf.feature().id()]),
        "flat" => json!(["f", flat(buf.feature())]),
        "meta" => match buf.meta() {
            Ok(m) => json!(["f", serde_json::to_value(&m).unwrap()]),
            Err(e) => json!(["docerr", e.to_string()]),
        },
        _ => match f() {
            Ok(d) => json!(["f", serde_json::to_value(&d).unwrap()]),
            Err(e) => json!(["docerr", e]),
        },
    }
}

macro_rules! drain {
    ($it:expr, $r:expr, $obs:expr, $hit:expr, $acc:expr) => {{
        let mut it = $it;
        let want = $r["want"].as_str().unwrap_or("full");
        let max = $r["max"].as_u64().unwrap_or(u64::MAX);
        let mut extra = $r["extra"].as_u64().unwrap_or(0);
        let mut n = 0u64;
        $obs.out.insert("count".into(), json!(it.features_count()));
        let hint = $r["hint"].as_bool().unwrap_or(false);
        loop {
            if n >= max {
                break;
            }
            if hint {
                let h = it.size_hint();
                $obs.events.push(json!(["hint", h.0, h.1]));
            }
            let r: std::result::Result<bool, String> = match it.next() {
                Ok(Some(_)) => Ok(true),
                Ok(None) => Ok(false),
                Err(e) => Err(e.to_string()),
            };
            match r {
                Ok(true) => {
                    n += 1;
                    let ev = {
                        let b = it.get();
                        match b {
                            Some(b) => doc_event(want, b, || it.cur_cj_feature().map_err(|e| e.to_string())),
                            None => json!(["nobuf"]),
                        }
                    };
                    $obs.events.push(ev);
                }
                Ok(false) => {
                    $obs.events.push(json!(["end", $acc()]));
                    if extra == 0 {
                        break;
                    }
                    extra -= 1;
                }
                Err(e) => {
                    $obs.events.push(json!(["err", e, $hit()]));
                    if extra == 0 {
                        break;
                    }
                    extra -= 1;
                }
            }
        }
    }};
}

fn one_read(data: &Arc<Vec<u8>>, r: &Value) -> Value {
    let mut obs = Obs { out: serde_json::Map::new(), events: Vec::new() };
    let mut d = data.clone();
    if let Some(t) = r["trunc"].as_u64() {
        d = Arc::new(d[..(t as usize).min(d.len())].to_vec());
    }
    if let Some(p) = r["patch"].as_array() {
        let mut v = (*d).clone();
        for e in p {
            let off = e[0].as_u64().unwrap() as usize;
            for (i, b) in unhex(e[1].as_str().unwrap()).iter().enumerate() {
                if off + i < v.len() {
                    v[off + i] = *b;
                }
            }
        }
        d = Arc::new(v);
    }
    if let Some(a) = r["append"].as_str() {
        let mut v = (*d).clone();
        v.extend(unhex(a));
        d = Arc::new(v);
    }
    let mode = r["mode"].as_str().unwrap();
    let sel = &r["sel"];
    let log = Arc::new(Mutex::new(Vec::new()));
    let mut src = Src::new(d.clone(), env(&r["env"]));
    let touched = Arc::new(Mutex::new(Vec::new()));
    if r["touched"].as_bool().unwrap_or(false) {
        src.touched = Some(touched.clone());
    }
    let maxp = src.max_pos.clone();
    let hits = src.hits.clone();
    let accesses = src.accesses.clone();
    let acc = || -> u64 { *accesses.lock().unwrap() + log.lock().unwrap().len() as u64 };
    // faults of the environment so far
    let hit = || -> u64 {
        *hits.lock().unwrap() + log.lock().unwrap().iter().filter(|(_, _, s): &&(u64, u64, String)| s != "ok").count() as u64
    };
    let o = &mut obs;
    let res = guarded(|| -> std::result::Result<(), String> {
        macro_rules! opened {
            ($o:expr, $h:expr) => {
                $o.out.insert("open".into(), json!("ok"));
                if r["hdr"].as_bool().unwrap_or(false) {
                    $o.out.insert("hdr".into(), header_json(&$h));
                }
                if r["meta"].as_bool().unwrap_or(false) {
                    let m = guarded(|| fcb_core::deserializer::to_cj_metadata(&$h).map(|m| serde_json::to_value(&m).unwrap()));
                    $o.out.insert("meta".into(), match m {
                        Ok(Ok(v)) => v,
                        Ok(Err(e)) => json!({"err": e.to_string()}),
                        Err(p) => json!({"panic": p}),
                    });
                }
            };
        }
        macro_rules! selected {
            ($o:expr, $e:expr) => {
                match $e {
                    Ok(it) => {
                        $o.out.insert("select".into(), json!("ok"));
                        it
                    }
                    Err(e) => {
                        $o.out.insert("select".into(), json!({"err": e.to_string(), "hit": hit()}));
                        return Ok(());
                    }
                }
            };
        }
        if mode == "http" {
            let cl = HttpSrc { data: d.clone(), log: log.clone(), env: http_env(&r["http"]) };
            let c = AsyncBufferedHttpRangeClient::with(cl, "mem");
            return block_on(async {
                let rd = match HttpFcbReader::new(c).await {
                    Ok(x) => x,
                    Err(e) => {
                        o.out.insert("open".into(), json!({"err": e.to_string(), "hit": hit()}));
                        return Ok(());
                    }
                };
                opened!(o, rd.header());
                let mut it = if sel["attr"].is_array() {
                    selected!(o, rd.select_attr_query(&attr_query(&sel["attr"])).await)
                } else if sel["q"].is_array() {
                    selected!(o, rd.select_query(rquery(&sel["q"])).await)
                } else {
                    selected!(o, rd.select_all().await)
                };
                let want = r["want"].as_str().unwrap_or("full");
                let max = r["max"].as_u64().unwrap_or(u64::MAX);
                let mut extra = r["extra"].as_u64().unwrap_or(0);
                let mut n = 0;
                o.out.insert("count".into(), json!(it.features_count()));
                while n < max {
                    let ev = match it.next().await {
                        Ok(Some(b)) => {
                            n += 1;
                            doc_event(want, b, || b.cj_feature().map_err(|e| e.to_string()))
                        }
                        Ok(None) => json!(["end", acc()]),
                        Err(e) => json!(["err", e.to_string(), hit()]),
                    };
                    let stop = ev[0] == "end" || ev[0] == "err";
                    o.events.push(ev);
                    if stop {
                        if extra == 0 {
                            break;
                        }
                        extra -= 1;
                    }
                }
                Ok(())
            });
        }
        let rd = match FcbReader::open(src) {
            Ok(x) => x,
            Err(e) => {
                o.out.insert("open".into(), json!({"err": e.to_string(), "hit": hit()}));
                return Ok(());
            }
        };
        opened!(o, rd.header());
        if mode == "seek" {
            let it = if sel["attr"].is_array() {
                selected!(o, rd.select_attr_query(attr_query(&sel["attr"])))
            } else if sel["q"].is_array() {
                selected!(o, rd.select_query(rquery(&sel["q"])))
            } else {
                selected!(o, rd.select_all())
            };
            drain!(it, r, o, hit, acc);
        } else {
            let it = if sel["attr"].is_array() {
                selected!(o, rd.select_attr_query_seq(attr_query(&sel["attr"])))
            } else if sel["q"].is_array() {
                selected!(o, rd.select_query_seq(rquery(&sel["q"])))
            } else {
                selected!(o, rd.select_all_seq())
            };
            drain!(it, r, o, hit, acc);
        }
        Ok(())
    });
    if let Err(p) = res {
        obs.events.push(json!(["panic", p]));
        obs.out.insert("panic".into(), json!(p));
    }
    obs.out.insert("events".into(), json!(obs.events));
    if mode == "http" {
        obs.out.insert("log".into(), log_json(&log));
    } else {
        if r["touched"].as_bool().unwrap_or(false) {
            obs.out.insert("touched".into(), json!(*touched.lock().unwrap()));
        }
        obs.out.insert("max_pos".into(), json!(*maxp.lock().unwrap()));
    }
    Value::Object(obs.out)
}

pub fn session(job: &Value) -> Value {
    let mut out = json!({});
    let mut data: Option<Vec<u8>> = None;
    if job["write"].is_object() {
        let (st, d) = write(&job["write"]);
        out["write"] = st;
        data = d;
    } else if let Some(p) = job["path"].as_str() {
        data = Some(std::fs::read(p).unwrap());
    } else if let Some(h) = job["hex"].as_str() {
        data = Some(unhex(h));
    }
    let Some(data) = data else { return out };
    out["len"] = json!(data.len());
    if job["dump"].as_bool().unwrap_or(false) {
        out["bytes"] = json!(hexs(&data));
    }
    if let Some(p) = job["save"].as_str() {
        std::fs::write(p, &data).unwrap();
    }
    let data = Arc::new(data);
    if let Some(rs) = job["reads"].as_array() {
        out["reads"] = json!(rs.iter().map(|r| one_read(&data, r)).collect::<Vec<_>>());
    }
    out
}
