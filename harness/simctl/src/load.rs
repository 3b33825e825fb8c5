//! Loading databases, profiles and traces (C09): generator and oracle.
use crate::gen::*;
use crate::mjudge::Verdict;
use crate::run::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simproto::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Meta {
    pub loads: Vec<Load>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Load {
    /// db, profile or trace
    pub kind: String,
    pub path: String,
    /// What must be returned, if anything may be
    pub truth: Option<Value>,
    /// A failure is legitimate even without a fault
    pub may_fail: bool,
    pub missing: bool,
    /// Random damage: only crashes and hangs count
    #[serde(default)]
    pub any: bool,
}

fn word(r: &mut Rng) -> String {
    const W: [&str; 14] =
        ["a", "main", "src", "é", "x y", "über", "日本", "a\"b", "c\\d", "1", "vector.hpp", "😀", "tab\tbed", "it's"];
    r.pick(&W).to_string()
}

/// JSON with arbitrary white space and escaping
pub fn json_text(r: &mut Rng, v: &Value, style: u64) -> String {
    let ws = |r: &mut Rng| -> &'static str {
        match style {
            0 => "",
            1 => [" ", "", "\n"][r.below(3) as usize],
            _ => ["  ", "\n\t", "\r\n ", ""][r.below(4) as usize],
        }
    };
    match v {
        Value::Array(a) => {
            let mut s = String::from("[");
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                s.push_str(ws(r));
                s.push_str(&json_text(r, x, style));
            }
            s.push_str(ws(r));
            s + "]"
        }
        Value::Object(o) => {
            let mut s = String::from("{");
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                s.push_str(ws(r));
                s.push_str(&Value::String(k.clone()).to_string());
                s.push_str(ws(r));
                s.push(':');
                s.push_str(ws(r));
                s.push_str(&json_text(r, x, style));
            }
            s.push_str(ws(r));
            s + "}"
        }
        Value::String(x) if style == 2 && r.chance(0.3) => {
            let mut s = String::from("\"");
            for u in x.encode_utf16() {
                s.push_str(&format!("\\u{u:04x}"));
            }
            s + "\""
        }
        x => x.to_string(),
    }
}

fn cut(r: &mut Rng, n: usize) -> usize {
    match r.below(4) {
        0 => n.saturating_sub(1),
        1 => n - (r.below(8) as usize).min(n),
        _ => r.below(n as u64 + 1) as usize,
    }
}

fn gen_db(r: &mut Rng, sc: &mut Scenario) -> Load {
    let path = "/work/compile_commands.json".to_string();
    let mut l = Load { kind: "db".into(), path: path.clone(), truth: None, may_fail: false, missing: false, any: false };
    if r.chance(0.06) {
        l.missing = true;
        return l;
    }
    let n = if r.chance(0.1) { 0 } else { r.logu(1, 60) };
    let mut entries = vec![];
    let mut truth: Vec<Value> = vec![];
    for i in 0..n {
        let dir = if r.chance(0.5) { "/work".to_string() } else { format!("/work/{}", word(r).replace('/', "_")) };
        let mut file = format!("/src/{}/{}{i}.cpp", word(r), word(r));
        if i > 0 && r.chance(0.1) {
            // Several targets share a source file
            file = truth[r.below(i) as usize]["file"].as_str().unwrap().to_string();
        }
        let mut argv = vec![["c++", "/usr/bin/clang++", "/opt/my tools/g++"][r.below(3) as usize].to_string()];
        for _ in 0..r.below(8) {
            argv.push(match r.below(4) {
                0 => "-Wall".into(),
                1 => format!("-DX={}", word(r)),
                2 => format!("-I/inc/{}", word(r)),
                _ => word(r),
            });
        }
        let mut out = Value::Null;
        let mut e = serde_json::Map::new();
        match r.below(3) {
            0 => {
                let o = format!("out/{}.o", word(r));
                e.insert("output".into(), json!(o));
                out = json!(o);
            }
            1 => {
                argv.push("-o".into());
                argv.push(format!("f{i}.o"));
                out = json!(format!("{dir}/f{i}.o"));
            }
            _ => {}
        }
        argv.push("-c".into());
        argv.push(file.clone());
        let command = argv.iter().map(|a| quote(r, a)).collect::<Vec<_>>().join([" ", "  ", " \t"][r.below(3) as usize]);
        e.insert("directory".into(), json!(dir));
        e.insert("command".into(), json!(command));
        e.insert("file".into(), json!(file));
        truth.push(json!({
            "dir": dir, "file": file, "raw": command, "program": argv[0], "args": argv[1..], "output": out, "same": true,
        }));
        entries.push(Value::Object(e));
    }
    // Only the last of several entries is found by file name
    for i in 0..truth.len() {
        let later: Vec<&Value> = truth[i + 1..].iter().filter(|v| v["file"] == truth[i]["file"]).collect();
        if later.last().is_some_and(|v| **v != truth[i]) {
            truth[i]["same"] = json!(false);
        }
    }
    truth.sort_by_key(|v| v.to_string());
    let mut ok = true;
    if r.chance(0.12) && n > 0 {
        let k = r.below(n) as usize;
        let e = entries[k].as_object_mut().unwrap();
        match r.below(4) {
            0 => {
                e.remove("file");
            }
            1 => {
                e.remove("command");
            }
            2 => {
                e.insert("directory".into(), json!(3));
            }
            _ => {
                e.remove("directory");
            }
        }
        ok = false;
    }
    let style = r.below(3);
    let mut data = json_text(r, &Value::Array(entries), style);
    if r.chance(0.5) {
        data.push('\n');
    }
    let mut bytes = data.into_bytes();
    if r.chance(0.25) {
        let k = cut(r, bytes.len());
        if bytes[k..].iter().any(|b| !b.is_ascii_whitespace()) {
            ok = false;
        }
        bytes.truncate(k);
    } else if r.chance(0.05) {
        let k = r.below(bytes.len() as u64) as usize;
        bytes.insert(k, 0xff);
        ok = false;
    } else if r.chance(0.05) {
        bytes.extend(b"]");
        ok = false;
    }
    l.truth = ok.then(|| Value::Array(truth));
    sc.files.push(FileSpec { path, kind: FileKind::File, data: to_latin(&bytes), mtime: T0, mode: 0o644 });
    l
}

fn csv_field(r: &mut Rng, s: &str) -> String {
    if s.contains([',', '"', '\n', '\r']) || r.chance(0.2) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

/// Rows of a CSV file, tolerating a missing end as CSV readers do
pub fn csv_rows(data: &[u8]) -> Vec<Vec<Vec<u8>>> {
    let mut rows = vec![];
    let mut row: Vec<Vec<u8>> = vec![];
    let mut f = vec![];
    let (mut q, mut start, mut any) = (false, true, false);
    let mut i = 0;
    while i < data.len() {
        let c = data[i];
        if q {
            if c == b'"' {
                if data.get(i + 1) == Some(&b'"') {
                    f.push(b'"');
                    i += 1;
                } else {
                    q = false;
                }
            } else {
                f.push(c);
            }
        } else if c == b'"' && start {
            q = true;
            start = false;
            any = true;
        } else if c == b',' {
            row.push(std::mem::take(&mut f));
            start = true;
            any = true;
        } else if c == b'\n' || c == b'\r' {
            if any {
                row.push(std::mem::take(&mut f));
                rows.push(std::mem::take(&mut row));
            }
            start = true;
            any = false;
        } else {
            f.push(c);
            start = false;
            any = true;
        }
        i += 1;
    }
    if any {
        row.push(f);
        rows.push(row);
    }
    rows
}

/// Truth of a profile file from its bytes; None if it must be refused
pub fn profile_truth(data: &[u8]) -> Option<Value> {
    let rows = csv_rows(data);
    let Some(h) = rows.first() else { return Some(json!([])) };
    if rows.len() == 1 {
        return Some(json!([]));
    }
    let col = |n: &str| h.iter().position(|x| x == n.as_bytes());
    let (fi, mi, ti) = (col("file")?, col("max_rss")?, col("time"));
    let mut out = vec![];
    for r in &rows[1..] {
        if r.len() != h.len() {
            return None;
        }
        let file = std::str::from_utf8(&r[fi]).ok()?;
        let rss: u64 = std::str::from_utf8(&r[mi]).ok()?.parse().ok()?;
        let time = match ti {
            None => Value::Null,
            Some(i) if r[i].is_empty() => Value::Null,
            Some(i) => {
                let x: f64 = std::str::from_utf8(&r[i]).ok()?.parse().ok()?;
                json!(x.to_string())
            }
        };
        for x in r {
            std::str::from_utf8(x).ok()?;
        }
        out.push(json!({"file": file, "rss": rss, "time": time}));
    }
    Some(Value::Array(out))
}

fn gen_profile(r: &mut Rng, sc: &mut Scenario, i: u64) -> Load {
    let path = if i == 0 { "/work/cmakeperf.csv".to_string() } else { format!("/work/p{i}.csv") };
    let mut l = Load { kind: "profile".into(), path: path.clone(), truth: None, may_fail: false, missing: false, any: false };
    if r.chance(0.06) {
        l.missing = true;
        return l;
    }
    let n = if r.chance(0.1) { 0 } else { r.logu(1, 300) };
    let time = r.chance(0.6);
    let mut cols = vec!["file", "max_rss"];
    if time {
        cols.push("time");
    }
    let own = r.chance(0.6);
    if !own {
        if r.chance(0.4) {
            cols.push("extra");
        }
        for k in (1..cols.len()).rev() {
            let j = r.below(k as u64 + 1) as usize;
            cols.swap(k, j);
        }
    }
    let nl = if own || r.chance(0.5) { "\n" } else { "\r\n" };
    let mut data = cols.iter().map(|c| csv_field(r, c)).collect::<Vec<_>>().join(",") + nl;
    let badrow = if r.chance(0.12) && n > 0 { r.below(n) } else { u64::MAX };
    for i in 0..n {
        let mut f: Vec<String> = cols
            .iter()
            .map(|c| match *c {
                "file" => {
                    let w = word(r);
                    csv_field(r, &format!("../src/{w}{i}.cpp"))
                }
                "max_rss" => match r.below(4) {
                    0 => "0".into(),
                    1 => u64::MAX.to_string(),
                    _ => r.logu(1, 1 << 40).to_string(),
                },
                "time" => match r.below(5) {
                    0 if !own => String::new(),
                    1 => format!("{}", r.logu(1, 10000)),
                    2 if !own => ["NaN", "-1.5", "inf", "1e30", "1e-3"][r.below(5) as usize].into(),
                    _ => format!("{:?}", (r.logu(1, 4_000_000) as f32) / 1000.0),
                },
                _ => {
                    let w = word(r);
                    csv_field(r, &w)
                }
            })
            .collect();
        if i == badrow {
            let k = cols.iter().position(|c| *c == "max_rss").unwrap();
            match r.below(6) {
                0 => f[k] = "-5".into(),
                1 => f[k] = "".into(),
                2 => f[k] = "12.5".into(),
                3 => f[k] = "18446744073709551616".into(),
                4 => {
                    f.pop();
                }
                _ => f.push("7".into()),
            }
        }
        data.push_str(&f.join(","));
        if i + 1 < n || own || r.chance(0.7) {
            data.push_str(nl);
        }
    }
    let mut bytes = data.into_bytes();
    if r.chance(0.25) {
        let k = cut(r, bytes.len());
        bytes.truncate(k);
        l.may_fail = true;
    } else if r.chance(0.05) {
        let k = r.below(bytes.len() as u64) as usize;
        bytes.insert(k, 0xff);
        l.may_fail = true;
    }
    l.truth = profile_truth(&bytes);
    sc.files.push(FileSpec { path, kind: FileKind::File, data: to_latin(&bytes), mtime: T0, mode: 0o644 });
    l
}

#[derive(Clone)]
pub struct Node {
    pub name: String,
    pub detail: Option<String>,
    pub start: u64,
    pub dur: u64,
    pub kids: Vec<Node>,
}

/// Activities of a trace written by clang
pub fn corpus() -> &'static [(String, Option<String>)] {
    static C: std::sync::OnceLock<Vec<(String, Option<String>)>> = std::sync::OnceLock::new();
    C.get_or_init(|| serde_json::from_str(include_str!("../data/activities.json")).unwrap())
}

/// Unit of generated time stamps, in fractions of a microsecond
pub fn activity(r: &mut Rng) -> (String, Option<String>) {
    if r.chance(0.5) {
        let c = corpus();
        return c[r.below(c.len() as u64) as usize].clone();
    }
    let path = |r: &mut Rng| format!("/usr/include/{}/{}.h", word(r), word(r));
    match r.below(12) {
        0 => ("Frontend".into(), None),
        1 => ("Backend".into(), None),
        2 => ("CodeGenPasses".into(), None),
        3 => ("Source".into(), Some(path(r))),
        4 => ("ParseClass".into(), Some(format!("ns{}::Foo<{}>", r.below(4), ["int", "unsigned char", "ns1::Bar"][r.below(3) as usize]))),
        5 => ("InstantiateClass".into(), Some(format!("std::vector<T{}>", r.below(50)))),
        6 => ("InstantiateFunction".into(), Some(format!("f{}<(lambda at {}:{}:{})>", r.below(9), path(r), r.below(99), r.below(99)))),
        7 => ("OptFunction".into(), Some("_ZN3foo3barEv".into())),
        8 => ("OptModule".into(), Some(path(r))),
        9 => (format!("Brand new {}", word(r)), if r.chance(0.5) { Some(word(r)) } else { None }),
        10 => ("LICMPass".into(), if r.chance(0.5) { Some("<unnamed loop>".into()) } else { None }),
        _ => ("RunPass".into(), Some("X86 DAG->DAG Instruction Selection".into())),
    }
}

fn tree(r: &mut Rng, lo: u64, hi: u64, depth: u32, budget: &mut u64) -> Vec<Node> {
    let mut v = vec![];
    let mut t = lo;
    while *budget > 0 && t + 4 < hi && !r.chance(0.25) {
        *budget -= 1;
        // Adjacent siblings sometimes touch
        let s = if r.chance(0.3) { t } else { t + r.below((hi - t) / 3 + 1) };
        let mut e = if r.chance(0.15) { hi } else { s + 1 + r.below((hi - s).max(2) - 1) };
        e = e.min(hi);
        if e <= s {
            break;
        }
        let (name, detail) = activity(r);
        let mut kids = if depth > 0 && r.chance(0.6) { tree(r, s, e, depth - 1, budget) } else { vec![] };
        if kids.is_empty() && e - s > 2 && r.chance(0.04) {
            // Too short to be measured
            let (name, detail) = activity(r);
            kids.push(Node { name, detail, start: r.range(s + 1, e - 1), dur: 0, kids: vec![] });
        }
        v.push(Node { name, detail, start: s, dur: e - s, kids });
        t = e;
    }
    v
}

/// Without its unicode-xid feature, the C++ parser is documented to expect ASCII
/// (debug builds assert it), so the C++ entities to be displayed are ASCII
fn ascii(n: &mut Node) {
    if !matches!(n.name.as_str(), "Source" | "OptModule") {
        if let Some(d) = &mut n.detail {
            *d = d.chars().map(|c| if c.is_ascii() { c } else { 'e' }).collect();
        }
    }
    n.kids.iter_mut().for_each(ascii);
}

fn flatten(v: &[Node], out: &mut Vec<Node>) {
    for n in v {
        flatten(&n.kids, out);
        out.push(n.clone());
    }
}

pub struct TraceSpec {
    pub json: Value,
    pub truth: Value,
    pub must_fail: bool,
}

pub fn gen_trace_value(r: &mut Rng, size: u64, broken: bool) -> TraceSpec {
    gen_trace_of(r, size, broken, false)
}
/// A trace, which may have a single root as those written by clang
pub fn gen_trace_of(r: &mut Rng, size: u64, broken: bool, single: bool) -> TraceSpec {
    let old = r.chance(0.2);
    let pid = if old { 1 } else { r.range(2, 4_000_000) as i64 };
    let tid = if old { 0 } else { pid };
    let div = *r.pick(&[1.0, 1.0, 4.0]);
    let mut budget = size;
    let total = r.logu(1000, 50_000_000);
    let mut roots = tree(r, 10 * div as u64, 10 * div as u64 + total, 12, &mut budget);
    if single {
        roots = vec![Node {
            name: "ExecuteCompiler".into(),
            detail: None,
            start: 10 * div as u64,
            dur: total + r.below(1000),
            kids: roots,
        }];
    }
    if single {
        roots.iter_mut().for_each(ascii);
    }
    let mut flat = vec![];
    flatten(&roots, &mut flat);
    let num = |x: u64| if div == 1.0 { json!(x) } else { json!(x as f64 / div) };
    let mut events: Vec<Value> = flat
        .iter()
        .map(|n| {
            let mut e = json!({"pid": pid, "tid": tid, "ph": "X", "ts": num(n.start), "dur": num(n.dur), "name": n.name});
            if let Some(d) = &n.detail {
                e["args"] = json!({"detail": d});
            }
            e
        })
        .collect();
    let mut stats = vec![];
    let mut names: Vec<String> = flat.iter().map(|n| n.name.clone()).collect();
    names.sort();
    names.dedup();
    for (i, n) in names.iter().enumerate() {
        let c = r.range(1, 1000);
        let d = r.logu(1, 100_000_000);
        events.push(json!({"pid": pid, "tid": if old { 0 } else { pid } + 1 + i as i64, "ph": "X", "ts": 0, "dur": num(d),
            "name": format!("Total {n}"), "args": {"count": c, "avg ms": d / c / 1000}}));
        stats.push(json!([n, num(d).as_f64().unwrap(), c]));
    }
    let pname = ["clang", "clang-16", "clang++ é"][r.below(3) as usize];
    let mut tail = vec![json!({"cat": "", "pid": pid, "tid": tid, "ts": 0, "ph": "M", "name": "process_name", "args": {"name": pname}})];
    let mut thread = Value::Null;
    if !old && r.chance(0.7) {
        tail.push(json!({"cat": "", "pid": pid, "tid": tid, "ts": 0, "ph": "M", "name": "thread_name", "args": {"name": ""}}));
        thread = json!("");
    }
    if r.chance(0.2) {
        // The order of metadata is unspecified
        tail.extend(events);
        events = tail;
    } else {
        events.extend(tail);
    }
    let mut must_fail = false;
    if broken {
        must_fail = true;
        let at = r.below(events.len() as u64) as usize;
        match r.below(7) {
            0 => events.retain(|e| e["name"] != "process_name"),
            1 => {
                let e = events.iter().find(|e| e["name"] == "process_name").unwrap().clone();
                events.push(e);
            }
            2 if !stats.is_empty() => {
                let mut e = events.iter().rev().find(|e| e["ts"] == 0 && e["ph"] == "X").unwrap().clone();
                e["dur"] = json!(1234567);
                events.insert(at, e);
            }
            3 => {
                let k = events[at].as_object_mut().unwrap();
                let f = ["pid", "ph", "ts"][r.below(3) as usize];
                if k.remove(f).is_none() || (f == "ts" && k["ph"] == "M") {
                    k.insert("ph".into(), json!("?"));
                }
            }
            4 => events[at] = json!(17),
            // Two activities that overlap without nesting
            5 => {
                let end = 10 * div as u64 + total + 100 * div as u64;
                for (a, b) in [(0, 50), (20, 80)] {
                    events.push(json!({"pid": pid, "tid": tid, "ph": "X", "ts": num(end + a * div as u64), "dur": num((b - a) * div as u64), "name": "Frontend"}));
                }
            }
            _ => events.insert(at, json!({"pid": pid + 5, "tid": tid + 5, "ph": "X", "ts": 0, "dur": 5, "name": "Total zzz", "args": {"count": 1, "avg ms": 0}})),
        }
    }
    let mut top = serde_json::Map::new();
    let mut bot = Value::Null;
    if r.chance(0.5) {
        bot = json!(1.7e15 + r.below(1 << 40) as f64);
        top.insert("beginningOfTime".into(), bot.clone());
    }
    top.insert("traceEvents".into(), Value::Array(events));
    fn tv(n: &Node, num: &dyn Fn(u64) -> f64) -> Value {
        let mut kids: Vec<Value> = n.kids.iter().map(|k| tv(k, num)).collect();
        kids.sort_by_key(|v| (v["start"].as_f64().unwrap().to_bits(), v["dur"].as_f64().unwrap().to_bits()));
        let own = num(n.dur) - kids.iter().map(|k| k["dur"].as_f64().unwrap()).sum::<f64>();
        let below: u64 = kids.iter().map(|k| 1 + k["below"].as_u64().unwrap()).sum();
        json!({"name": n.name, "detail": n.detail, "start": num(n.start), "dur": num(n.dur), "self": own, "below": below, "kids": kids})
    }
    let f = |x: u64| num(x).as_f64().unwrap();
    let mut rt: Vec<Value> = roots.iter().map(|n| tv(n, &f)).collect();
    rt.sort_by_key(|v| (v["start"].as_f64().unwrap().to_bits(), v["dur"].as_f64().unwrap().to_bits()));
    stats.sort_by_key(|v| v[0].to_string());
    let truth = json!({
        "roots": rt, "all": flat.len(), "stats": stats, "process": pname,
        "pid": if pid > 1 { json!(pid) } else { Value::Null }, "thread": thread, "bot": bot,
    });
    TraceSpec { json: Value::Object(top), truth, must_fail }
}

fn gen_trace(r: &mut Rng, sc: &mut Scenario, i: u64) -> Load {
    let path = format!("/work/t{i}.json");
    let mut l = Load { kind: "trace".into(), path: path.clone(), truth: None, may_fail: false, missing: false, any: false };
    if r.chance(0.06) {
        l.missing = true;
        return l;
    }
    let size = if r.chance(0.1) { 0 } else { r.logu(1, 400) };
    let broken = r.chance(0.2);
    let mut t = gen_trace_value(r, size, broken);
    let mut ok = !t.must_fail;
    match r.below(40) {
        0 => {
            t.json = json!({"traceEvents": []});
            ok = false;
        }
        1 => {
            t.json = json!([]);
            ok = false;
        }
        2 => {
            // An activity described by an empty string
            t.json["traceEvents"].as_array_mut().unwrap().insert(0, json!({"pid": 7, "tid": 7, "ph": "X", "ts": 5, "dur": 1, "name": "ParseClass", "args": {"detail": ""}}));
            ok = false;
            l.may_fail = true;
        }
        3 if t.json["traceEvents"].as_array().unwrap().len() > 3 => {
            t.json["beginningOfTime"] = json!("yesterday");
            ok = false;
        }
        _ => {}
    }
    let style = r.below(3);
    let mut data = json_text(r, &t.json, style);
    if r.chance(0.5) {
        data.push('\n');
    }
    let mut bytes = data.into_bytes();
    if r.chance(0.25) {
        let k = cut(r, bytes.len());
        if bytes[k..].iter().any(|b| !b.is_ascii_whitespace()) {
            ok = false;
        }
        bytes.truncate(k);
    } else if r.chance(0.05) {
        let k = r.below(bytes.len() as u64) as usize;
        bytes.insert(k, 0xff);
        ok = false;
    }
    l.truth = ok.then_some(t.truth);
    sc.files.push(FileSpec { path, kind: FileKind::File, data: to_latin(&bytes), mtime: T0, mode: 0o644 });
    l
}

pub fn generate(prop: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let mut sc = Scenario { seed: r.next(), ..Default::default() };
    sched(&mut r, &mut sc, false);
    if r.chance(0.7) {
        sc.faults.p_short = *r.pick(&[0.1, 0.5, 0.95]);
    }
    if r.chance(0.5) {
        sc.faults.p_eintr = *r.pick(&[0.05, 0.3, 0.6]);
    }
    sc.files.push(dir("/work"));
    let mut meta = Meta { loads: vec![] };
    let mut drv = vec![];
    for i in 0..r.range(1, 3) {
        let mut l = match r.below(5) {
            0 if !meta.loads.iter().any(|l: &Load| l.kind == "db") => gen_db(&mut r, &mut sc),
            0 | 1 => gen_profile(&mut r, &mut sc, i),
            _ => gen_trace(&mut r, &mut sc, i),
        };
        drv.push(match l.kind.as_str() {
            "db" => json!({"cmd": "load-db"}),
            "profile" => json!({"cmd": "load-profile", "path": l.path}),
            _ => json!({"cmd": "load-trace", "path": l.path}),
        });
        if r.chance(0.25) {
            let open = r.chance(0.3);
            sc.faults.rules.push(FaultRule {
                op: if open { "open" } else { "read" }.into(),
                path: l.path.clone(),
                nth: if open { 0 } else { r.below(8) as u32 },
                count: *r.pick(&[1, 1, 1_000_000]),
                errno: *r.pick(&[libc::EIO, libc::EACCES, libc::EISDIR, libc::ENOMEM, libc::ESTALE]),
            });
        }
        if !l.missing && r.chance(0.06) {
            let f = sc.files.last_mut().unwrap();
            let mut b = from_latin(&f.data);
            for _ in 0..r.range(1, 4) {
                if b.is_empty() {
                    break;
                }
                let k = r.below(b.len() as u64) as usize;
                match r.below(4) {
                    0 => b[k] = r.below(256) as u8,
                    1 => {
                        b.remove(k);
                    }
                    2 => b[k] = *r.pick(b"\"{}[],:-0e"),
                    _ => {
                        let e = (k + r.range(1, 60) as usize).min(b.len());
                        let x: Vec<u8> = b[k..e].to_vec();
                        let at = r.below(b.len() as u64) as usize;
                        b.splice(at..at, x);
                    }
                }
            }
            f.data = to_latin(&b);
            l.any = true;
        }
        meta.loads.push(l);
    }
    sc.driver = json!(drv);
    sc.limits.max_calls = 3_000_000;
    Case {
        prop: prop.into(),
        family: "load".into(),
        seed,
        sessions: vec![Session { bin: "simdrv".into(), inherit: false, sc }],
        meta: serde_json::to_value(meta).unwrap(),
    }
}

fn near(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-9 * scale.abs().max(1.0)
}

fn diff_act(got: &Value, want: &Value, path: &str) -> Option<String> {
    let at = format!("{path}/{}@{}", want["name"].as_str().unwrap_or("?"), want["start"]);
    for k in ["name", "detail", "below"] {
        if got[k] != want[k] {
            return Some(format!("{at}: {k} is {} instead of {}", got[k], want[k]));
        }
    }
    for k in ["start", "dur", "self"] {
        let (g, w) = (got[k].as_f64(), want[k].as_f64().unwrap());
        let tol = if k == "self" { want["dur"].as_f64().unwrap().max(want["start"].as_f64().unwrap()) } else { 0.0 };
        if g.is_none() || !(g.unwrap() == w || (k == "self" && near(g.unwrap(), w, tol))) {
            return Some(format!("{at}: {k} is {} instead of {w}", got[k]));
        }
    }
    let e = want["start"].as_f64().unwrap() + want["dur"].as_f64().unwrap();
    if !near(got["end"].as_f64().unwrap_or(f64::NAN), e, e) {
        return Some(format!("{at}: end is {} instead of {e}", got["end"]));
    }
    if got["id_ok"] != true {
        return Some(format!("{at}: identifiers or parents are inconsistent"));
    }
    diff_list(&got["kids"], &want["kids"], &at)
}
fn diff_list(got: &Value, want: &Value, path: &str) -> Option<String> {
    let (Some(g), Some(w)) = (got.as_array(), want.as_array()) else { return Some(format!("{path}: no list")) };
    if g.len() != w.len() {
        return Some(format!("{path}: {} activities instead of {}", g.len(), w.len()));
    }
    let mut g = g.clone();
    g.sort_by_key(|v| (v["start"].as_f64().unwrap_or(0.0).to_bits(), v["dur"].as_f64().unwrap_or(0.0).to_bits()));
    g.iter().zip(w).find_map(|(a, b)| diff_act(a, b, path))
}
fn diff_trace(got: &Value, want: &Value) -> Option<String> {
    for k in ["all", "process", "pid", "thread", "bot"] {
        if got[k] != want[k] {
            return Some(format!("{k} is {} instead of {}", got[k], want[k]));
        }
    }
    let mut s = got["stats"].as_array().cloned().unwrap_or_default();
    s.sort_by_key(|v| v[0].to_string());
    if Value::Array(s.clone()) != want["stats"] {
        return Some(format!("global statistics are {} instead of {}", Value::Array(s), want["stats"]));
    }
    diff_list(&got["roots"], &want["roots"], "")
}
fn diff_profile(got: &Value, want: &Value) -> Option<String> {
    let (g, w) = (got.as_array()?, want.as_array()?);
    if g.len() != w.len() {
        return Some(format!("{} records instead of {}", g.len(), w.len()));
    }
    for (i, (a, b)) in g.iter().zip(w).enumerate() {
        let time = match b["time"].as_str() {
            None => a["time"].is_null(),
            Some(t) => {
                let x: f64 = t.parse().unwrap();
                match &a["time"] {
                    Value::Number(n) => {
                        let g = n.as_f64().unwrap() / 1e9;
                        x.is_finite() && x >= 0.0 && (g - x).abs() <= 2e-9 + x * 1.3e-7
                    }
                    // Values that no duration can hold are given as they are
                    Value::String(s) => {
                        let y: f64 = s.parse().unwrap_or(0.0);
                        (x.is_nan() && y.is_nan()) || ((x < 0.0 || x > 1.8e19) && (x == y || (x - y).abs() <= x.abs() * 1.3e-7))
                    }
                    _ => false,
                }
            }
        };
        if a["file"] != b["file"] || a["rss"] != b["rss"] || !time {
            return Some(format!("record {i} is {a} instead of {b}"));
        }
    }
    None
}

pub fn judge(case: &Case, runs: &[Run]) -> Verdict {
    let meta: Meta = serde_json::from_value(case.meta.clone()).unwrap();
    let run = &runs[0];
    let mut bad = vec![];
    let st = |k: &str| run.stats.get(k).copied().unwrap_or(0);
    let nontrivial = st("short-io") + st("eintr") + st("fault-read") + st("fault-open") > 0 || meta.loads.iter().any(|l| l.truth.is_none());
    let notes: Vec<Value> = run.of("NOTE").map(|l| l.json()).collect();
    if run.why != "exit" || run.code != 0 {
        let l = meta.loads.get(notes.len().min(meta.loads.len().saturating_sub(1)));
        bad.push(("C09.crash".into(), format!("loading {:?} ended with {} (exit code {}, signal {})", l.map(|l| &l.path), run.why, run.code, run.signal)));
        return Verdict { bad, nontrivial };
    }
    if notes.len() != meta.loads.len() + 1 {
        bad.push(("C09.answers".into(), format!("{} answers to {} loads", notes.len(), meta.loads.len())));
        return Verdict { bad, nontrivial };
    }
    for (l, v) in meta.loads.iter().zip(&notes) {
        let faults: Vec<i64> = run
            .lines
            .iter()
            .filter(|x| x.k == "FAULT" && x.s(1) == l.path && x.i(2) != libc::EINTR as i64)
            .map(|x| x.i(2))
            .collect();
        if l.any {
            continue;
        }
        let ev = v["ev"].as_str().unwrap_or("");
        let what = &l.path;
        let failed = ev.ends_with("-error") || ev.ends_with("-missing");
        if failed {
            if l.missing && faults.is_empty() {
                let ok = match l.kind.as_str() {
                    "trace" => v["io"] == libc::ENOENT,
                    k => ev == format!("{k}-missing"),
                };
                if !ok {
                    bad.push(("C09.missing".into(), format!("{what} does not exist but the answer is {v}")));
                }
            } else if ev.ends_with("-missing") {
                bad.push(("C09.missing".into(), format!("{what} exists but is said to be missing")));
            } else if l.truth.is_some() && !l.may_fail && faults.is_empty() && !(l.kind == "profile" && st("eintr") > 0) {
                bad.push(("C09.refused".into(), format!("{what} is valid and readable but the answer is {v}")));
            }
            continue;
        }
        let Some(t) = &l.truth else {
            let x: String = v.to_string().chars().take(500).collect();
            bad.push(("C09.accepted".into(), format!("{what} is {} but was loaded: {x}", if l.missing { "missing" } else { "damaged" })));
            continue;
        };
        let d = match l.kind.as_str() {
            "db" => {
                let mut g = v["entries"].as_array().cloned().unwrap_or_default();
                g.sort_by_key(|v| v.to_string());
                let w = t.as_array().unwrap();
                if g.len() != w.len() {
                    Some(format!("{} entries instead of {}", g.len(), w.len()))
                } else {
                    g.iter().zip(w).find(|(a, b)| a != b).map(|(a, b)| format!("entry {a} instead of {b}"))
                }
            }
            "profile" => diff_profile(&v["units"], t),
            _ => diff_trace(v, t),
        };
        if let Some(d) = d {
            bad.push(("C09.data".into(), format!("{what}: {d}")));
        }
    }
    Verdict { bad, nontrivial }
}
