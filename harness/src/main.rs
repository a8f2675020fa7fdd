//! zkh: runs the real zk-regex code (both crates, path dependencies on /repo) on jobs read as one JSON
//! object per line, and writes one JSON result per line.  It decides nothing: every verdict is TLC's.
mod circom;
use circom::{lin_in, reads, Elab, Flat, Ins, Node, Program};
use serde_json::{json, Value};
use std::collections::{BTreeMap, VecDeque};
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}
fn status<E: std::fmt::Display>(r: Result<Result<(), E>, String>) -> Value {
    match r {
        Ok(Ok(())) => json!({"s": "ok"}),
        Ok(Err(e)) => json!({"s": "err", "m": e.to_string()}),
        Err(p) => json!({"s": "panic", "m": p}),
    }
}
fn root() -> PathBuf {
    PathBuf::from(std::env::var("ZK_REPO").unwrap_or("/repo".into())).join("packages/circom/circuits")
}

/// The lines of a halo2 table directory as numbers.
fn tables(dir: &Path) -> Value {
    let nums = |p: &Path| -> Result<Vec<Vec<i64>>, String> {
        let t = std::fs::read_to_string(p).map_err(|e| e.to_string())?;
        let mut out = vec![];
        for l in t.lines() {
            let mut row = vec![];
            for w in l.split_whitespace() {
                row.push(w.parse::<i64>().map_err(|e| format!("{:?}: {}", l, e))?);
            }
            out.push(row);
        }
        Ok(out)
    };
    let mut o = serde_json::Map::new();
    match nums(&dir.join("allstr.txt")) {
        Ok(v) => o.insert("all".into(), json!(v)),
        Err(e) => o.insert("bad".into(), json!(e)),
    };
    let mut subs = vec![];
    for k in 0.. {
        let p = dir.join(format!("substr_{}.txt", k));
        if !p.exists() {
            break;
        }
        match nums(&p) {
            Ok(v) => subs.push(json!(v)),
            Err(e) => {
                o.insert("bad".into(), json!(e));
            }
        }
    }
    o.insert("subs".into(), json!(subs));
    let mut files: Vec<String> =
        std::fs::read_dir(dir).map(|d| d.filter_map(|e| Some(e.ok()?.file_name().to_string_lossy().into())).collect()).unwrap_or_default();
    files.sort();
    o.insert("files".into(), json!(files));
    Value::Object(o)
}

fn events(f: &Flat) -> Value {
    let mut out = vec![];
    let rd = |n: &Node| {
        let mut r = vec![];
        reads(n, &mut r);
        r
    };
    for sigs in f.inputs.values() {
        for s in sigs {
            out.push(json!(["in", [s], []]));
        }
    }
    for i in &f.ins {
        out.push(match i {
            Ins::Def(s, e) => json!(["def", [s], rd(e)]),
            Ins::Hint(s, e) => json!(["hint", [s], rd(e)]),
            Ins::Check(a, b) => {
                let mut r = rd(a);
                for x in rd(b) {
                    if !r.contains(&x) {
                        r.push(x)
                    }
                }
                let lin: Vec<usize> = r
                    .iter()
                    .copied()
                    .filter(|s| match (lin_in(a, *s), lin_in(b, *s)) {
                        (Some(x), Some(y)) => x != y,
                        _ => false,
                    })
                    .collect();
                json!(["chk", lin, r])
            }
            Ins::IsZero(o, a) => json!(["def", [o], [a]]),
            Ins::Less(o, a, b, _) => json!(["def", [o], [a, b]]),
            Ins::Bits(bs, a) => json!(["def", bs, [a]]),
        });
    }
    for (_, sigs) in &f.outputs {
        for s in sigs {
            out.push(json!(["out", [s], []]));
        }
    }
    json!(out)
}

fn circuit(path: &Path, tname: &str, job: &Value, res: &mut serde_json::Map<String, Value>) {
    let prog = match guard(|| Program::load(path, &root())) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) | Err(e) => {
            res.insert("wf".into(), json!([{"n": 0, "err": format!("parse: {}", e)}]));
            return;
        }
    };
    let mut wf = vec![];
    let mut flats: BTreeMap<i64, Flat> = BTreeMap::new();
    let mut sizes: Vec<i64> = vec![];
    for n in job["elab"].as_array().into_iter().flatten() {
        sizes.push(n.as_i64().unwrap());
    }
    for r in job["runs"].as_array().into_iter().flatten() {
        sizes.push(r["n"].as_i64().unwrap());
    }
    sizes.sort();
    sizes.dedup();
    for n in sizes {
        match guard(|| Elab::elaborate(&prog, tname, n as i128)) {
            Ok(Ok(f)) => {
                let outs: Vec<Value> = f.outputs.iter().map(|(n, s)| json!([n, s.len()])).collect();
                wf.push(json!({"n": n, "sigs": f.nsig, "cons": f.ins.len(), "outs": outs,
                    "ins": f.inputs.iter().map(|(n, s)| json!([n, s.len()])).collect::<Vec<_>>(),
                    "hints": f.ins.iter().filter(|i| matches!(i, Ins::Hint(..))).count()}));
                flats.insert(n, f);
            }
            Ok(Err(e)) | Err(e) => wf.push(json!({"n": n, "err": e})),
        }
    }
    res.insert("wf".into(), json!(wf));
    if let Some(n) = job["events"].as_i64() {
        if let Some(f) = flats.get(&n) {
            res.insert("events".into(), events(f));
        }
    }
    let mut runs = vec![];
    for r in job["runs"].as_array().into_iter().flatten() {
        let n = r["n"].as_i64().unwrap();
        let Some(f) = flats.get(&n) else { continue };
        let mut outs = vec![];
        for m in r["msgs"].as_array().unwrap() {
            let mut msg: Vec<i128> = m
                .as_array()
                .unwrap()
                .iter()
                .map(|x| x.as_i64().unwrap() as i128)
                .collect();
            msg.resize(n as usize, 0);
            outs.push(match guard(|| f.run(&msg)) {
                Ok(Ok(None)) => json!({"u": 1}),
                Ok(Ok(Some((v, forced)))) => {
                    let mut o = json!(-99);
                    let mut rv: Vec<(usize, Value)> = vec![];
                    for (name, sigs) in &f.outputs {
                        let vals: Vec<i64> = sigs.iter().map(|s| v[*s].clamp(-1000000, 1000000) as i64).collect();
                        if name == "out" {
                            o = json!(vals[0]);
                        } else if let Some(k) = name.strip_prefix("reveal") {
                            rv.push((k.parse().unwrap_or(999), json!(vals)));
                        }
                    }
                    rv.sort_by_key(|x| x.0);
                    let rv: Vec<Value> = rv.into_iter().map(|x| x.1).collect();
                    if forced {
                        json!({"o": o, "r": rv, "f": 1})
                    } else {
                        json!({"o": o, "r": rv})
                    }
                }
                Ok(Err(e)) | Err(e) => json!({"e": e}),
            });
        }
        runs.push(json!({"n": n, "msgs": r["msgs"], "outs": outs}));
    }
    res.insert("runs".into(), json!(runs));
}

fn dec_config(job: &Value) -> zk_regex_compiler::DecomposedRegexConfig {
    let parts: VecDeque<zk_regex_compiler::RegexPartConfig> = job["parts"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| zk_regex_compiler::RegexPartConfig {
            is_public: p["is_public"].as_bool().unwrap(),
            regex_def: p["regex_def"].as_str().unwrap().to_string(),
        })
        .collect();
    zk_regex_compiler::DecomposedRegexConfig { parts }
}

fn compile(job: &Value, dir: &Path) -> Value {
    let mut res = serde_json::Map::new();
    let gs = job["gs"].as_bool();
    let h = dir.join("h");
    std::fs::create_dir_all(&h).unwrap();
    let c = dir.join("c.circom");
    let tname = job["tname"].as_str().unwrap_or("T");
    let want = |k: &str| job["want"].as_array().map(|a| a.iter().any(|x| x == k)).unwrap_or(true);
    let hs = h.to_str().unwrap();
    let cs = c.to_str().unwrap();
    if job["mode"] == "dec" {
        let cfg = dir.join("cfg.json");
        std::fs::write(&cfg, json!({"parts": job["parts"]}).to_string()).unwrap();
        let cfg = cfg.to_str().unwrap();
        if want("h") {
            let r = guard(|| zk_regex_compiler::gen_from_decomposed(cfg, Some(hs), None, None, gs));
            res.insert("h".into(), status(r));
        }
        if want("c") {
            let r = guard(|| zk_regex_compiler::gen_from_decomposed(cfg, None, Some(cs), Some(tname), gs));
            res.insert("c".into(), status(r));
        }
        if want("l") {
            let l = dir.join("l.circom");
            let mut d = dec_config(job);
            let r = guard(|| {
                zk_regex_compiler::gen_circom_from_decomposed_regex(&mut d, Some(l.to_str().unwrap()), Some(tname), gs)
            });
            res.insert("l".into(), status(r));
            res.insert("l_same".into(), json!(std::fs::read(&l).ok() == std::fs::read(&c).ok()));
        }
    } else {
        let raw = job["raw"].as_str().unwrap();
        let tr = dir.join("tr.json");
        let trp = if job["trans"].is_null() {
            None
        } else {
            std::fs::write(&tr, json!({"transitions": job["trans"]}).to_string()).unwrap();
            Some(tr.to_str().unwrap())
        };
        if want("h") {
            let r = guard(|| zk_regex_compiler::gen_from_raw(raw, trp, Some(hs), None, None, gs));
            res.insert("h".into(), status(r));
        }
        if want("c") {
            let r = guard(|| zk_regex_compiler::gen_from_raw(raw, trp, None, Some(cs), Some(tname), gs));
            res.insert("c".into(), status(r));
        }
    }
    if res.get("h").map(|x| x["s"] == "ok").unwrap_or(false) {
        res.insert("t".into(), tables(&h));
    }
    res.insert("cfile".into(), json!(c.exists()));
    if res.get("c").map(|x| x["s"] == "ok").unwrap_or(false) {
        circuit(&c, tname, job, &mut res);
    }
    if job["text"] == true {
        res.insert("text".into(), json!(std::fs::read_to_string(&c).ok()));
    }
    Value::Object(res)
}

fn shipped(job: &Value, dir: &Path) -> Value {
    let mut res = serde_json::Map::new();
    let p = match job["text"].as_str() {
        // a template that uses shipped ones
        Some(t) => {
            let p = dir.join("text.circom");
            std::fs::write(&p, t).unwrap();
            p
        }
        None => root().join(job["file"].as_str().unwrap()),
    };
    circuit(&p, job["tname"].as_str().unwrap(), job, &mut res);
    Value::Object(res)
}

fn extract(job: &Value) -> Value {
    use zk_regex_apis::extract_substrs as x;
    let mut outs = vec![];
    // the regex library on the joined parts, without any code of zk-regex
    let joined: String = job["parts"].as_array().map_or(String::new(), |ps| {
        ps.iter().map(|p| format!("((?u:{}))", p["regex_def"].as_str().unwrap())).collect()
    });
    let library = fancy_regex::Regex::new(&joined);
    for inp in job["inputs"].as_array().unwrap() {
        let s = inp.as_str().unwrap();
        let conv = |r: Result<Result<Vec<(usize, usize)>, String>, String>| match r {
            Ok(Ok(v)) => json!({"s": "ok", "v": v.iter().map(|p| json!([p.0, p.1])).collect::<Vec<_>>()}),
            Ok(Err(e)) => json!({"s": "err", "m": e}),
            Err(e) => json!({"s": "panic", "m": e}),
        };
        if let Some(f) = job["builtin"].as_str() {
            let r = guard(|| {
                match f {
                    "email_addr" => x::extract_email_addr_idxes(s),
                    "email_domain" => x::extract_email_domain_idxes(s),
                    "from_all" => x::extract_from_all_idxes(s),
                    "from_addr" => x::extract_from_addr_idxes(s),
                    "to_all" => x::extract_to_all_idxes(s),
                    "to_addr" => x::extract_to_addr_idxes(s),
                    "subject_all" => x::extract_subject_all_idxes(s),
                    "body_hash" => x::extract_body_hash_idxes(s),
                    "timestamp" => x::extract_timestamp_idxes(s),
                    "message_id" => x::extract_message_id_idxes(s),
                    _ => panic!("no builtin {}", f),
                }
                .map_err(|e| e.to_string())
            });
            outs.push(conv(r));
        } else {
            let cfg = x::DecomposedRegexConfig {
                parts: job["parts"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| x::RegexPartConfig {
                        is_public: p["is_public"].as_bool().unwrap(),
                        regex_def: p["regex_def"].as_str().unwrap().to_string(),
                    })
                    .collect(),
            };
            let priv_ = |b: bool| {
                let r = guard(|| x::extract_substr_idxes(s, &cfg, b).map_err(|e| e.to_string()));
                let mut v = conv(r);
                let t = guard(|| x::extract_substr(s, &cfg, b).map_err(|e| e.to_string()));
                v["t"] = match t {
                    Ok(Ok(ts)) => json!({"s": "ok", "v": ts.iter().map(|t| json!(t.as_bytes())).collect::<Vec<_>>()}),
                    Ok(Err(e)) => json!({"s": "err", "m": e}),
                    Err(e) => json!({"s": "panic", "m": e}),
                };
                v
            };
            let lib = match guard(|| library.as_ref().ok().and_then(|l| l.find(s).ok().flatten().map(|m| (m.start(), m.end())))) {
                Ok(Some((a, b))) => json!([a, b]),
                _ => json!([-1, -1]),
            };
            outs.push(json!({"pub": priv_(false), "all": priv_(true), "lib": lib}));
        }
    }
    json!({"outs": outs})
}

fn pad(job: &Value) -> Value {
    let mut outs = vec![];
    for c in job["cases"].as_array().unwrap() {
        let s = c["s"].as_str().unwrap();
        let n = c["n"].as_u64().unwrap() as usize;
        outs.push(match guard(|| zk_regex_apis::padding::pad_string(s, n)) {
            Ok(v) => json!({"s": "ok", "v": v}),
            Err(e) => json!({"s": "panic", "m": e}),
        });
    }
    json!({"outs": outs})
}

/// One process that carries out requests as they come, so that they share what a process keeps.
fn serve() {
    let mut configs: BTreeMap<String, zk_regex_compiler::DecomposedRegexConfig> = BTreeMap::new();
    for l in std::io::stdin().lines() {
        let r: Value = serde_json::from_str(&l.unwrap()).unwrap();
        std::env::set_current_dir(r["cwd"].as_str().unwrap()).unwrap();
        let (f, d, h, c, t, gs) = (r["f"].as_str().unwrap(), r["d"].as_str(), r["h"].as_str(), r["c"].as_str(), r["t"].as_str(), r["gs"].as_bool());
        let s = match f {
            "dec" => status(guard(|| zk_regex_compiler::gen_from_decomposed(d.unwrap(), h, c, t, gs))),
            "raw" => status(guard(|| zk_regex_compiler::gen_from_raw(r["raw"].as_str().unwrap(), d, h, c, t, gs))),
            "cfg" => {
                let key = r["key"].as_str().unwrap().to_string();
                if !configs.contains_key(&key) {
                    let v = std::fs::read_to_string(d.unwrap()).map_err(|e| e.to_string()).and_then(|x| serde_json::from_str(&x).map_err(|e| e.to_string()));
                    match v {
                        Ok(v) => {
                            configs.insert(key.clone(), v);
                        }
                        Err(e) => {
                            println!("{}", json!({"s": "err", "m": e}));
                            continue;
                        }
                    }
                }
                let cfg = configs.get_mut(&key).unwrap();
                status(guard(|| zk_regex_compiler::gen_circom_from_decomposed_regex(cfg, c, t, gs)))
            }
            x => panic!("request {}", x),
        };
        println!("{}", s);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "serve").unwrap_or(false) {
        std::panic::set_hook(Box::new(|_| {}));
        let t = std::thread::Builder::new().stack_size(64 << 20).spawn(serve).unwrap();
        t.join().unwrap();
        return;
    }
    let scratch = PathBuf::from(&a[3]);
    std::panic::set_hook(Box::new(|_| {}));
    let jobs: Vec<Value> = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap())
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).unwrap())
        .collect();
    let next = AtomicUsize::new(0);
    let results: Vec<Mutex<Option<Value>>> = jobs.iter().map(|_| Mutex::new(None)).collect();
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= jobs.len() {
                        break;
                    }
                    let job = &jobs[k];
                    let dir = scratch.join(format!("j{}", k));
                    std::fs::create_dir_all(&dir).unwrap();
                    let mut r = match job["k"].as_str().unwrap() {
                        "compile" => compile(job, &dir),
                        "shipped" => shipped(job, &dir),
                        "extract" => extract(job),
                        "pad" => pad(job),
                        x => panic!("job {}", x),
                    };
                    r["id"] = job["id"].clone();
                    let _ = std::fs::remove_dir_all(&dir);
                    *results[k].lock().unwrap() = Some(r);
                })
                .unwrap();
        }
    });
    let mut w = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for r in results {
        writeln!(w, "{}", r.lock().unwrap().take().unwrap()).unwrap();
    }
}
