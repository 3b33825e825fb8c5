//! Simulated client of the cmakeperf and clang-time-trace libraries: does what
//! the scenario says and notes every observable result in the event log.

use cmakeperf::{
    commands::{CompilationDatabase, DatabaseLoadError, ProductFreshness},
    measure::{MeasureError, Measurement},
    output::{self, ProfileLoadError},
};
use serde_json::{json, Value};
use std::{
    num::NonZeroUsize,
    path::Path,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Condvar, Mutex,
    },
    time::Duration,
};

extern "C" {
    fn simrt_spec(buf: *mut u8, cap: usize) -> usize;
    fn simrt_note(buf: *const u8, len: usize);
}

fn spec() -> Value {
    let mut buf = vec![0u8; 1 << 20];
    let n = unsafe { simrt_spec(buf.as_mut_ptr(), buf.len()) };
    serde_json::from_slice(&buf[..n]).expect("bad driver spec")
}
fn note(v: Value) {
    let s = v.to_string();
    unsafe { simrt_note(s.as_ptr(), s.len()) }
}

fn main() {
    let spec = spec();
    for cmd in spec.as_array().expect("list of commands") {
        match cmd["cmd"].as_str().unwrap() {
            "measure" => measure(cmd),
            "freshness" => freshness(cmd),
            "load-db" => load_db(),
            "load-profile" => load_profile(cmd),
            #[cfg(feature = "trace")]
            "load-trace" => trace::load(cmd),
            "sleep" => std::thread::sleep(Duration::from_nanos(cmd["ns"].as_u64().unwrap())),
            c => panic!("unknown command {c}"),
        }
    }
    note(json!({"ev": "driver-end"}));
}

fn error_kind(e: &MeasureError) -> &'static str {
    match e {
        MeasureError::Job(_) => "job",
        MeasureError::OutOfMemory => "oom",
        MeasureError::Csv(_) => "csv",
        MeasureError::Io(_) => "io",
        MeasureError::Panicked(_) => "panic",
        MeasureError::Killed => "killed",
        #[allow(unreachable_patterns)]
        _ => "other",
    }
}

fn measure(cmd: &Value) {
    let db = match CompilationDatabase::load() {
        Ok(db) => db,
        Err(e) => {
            note(json!({"ev": "db-error", "err": e.to_string()}));
            return;
        }
    };
    if cmd["oversub"].as_bool().unwrap_or(false) {
        cmakeperf::measure::assume_oversubscription();
    }
    let path = cmd["path"].as_str().unwrap().to_owned();
    let id = cmd["id"].as_u64().unwrap_or(0);
    let steps = Arc::new(AtomicUsize::new(0));
    let state = Arc::new((Mutex::new((0usize, false)), Condvar::new()));
    note(json!({"ev": "start", "id": id, "n": db.entries().count()}));
    let (steps2, state2, state3) = (steps.clone(), state.clone(), state.clone());
    let handle = Measurement::start(
        Path::new(&path),
        &db,
        cmd["time"].as_bool().unwrap_or(false),
        cmd["concurrency"].as_u64().and_then(|c| NonZeroUsize::new(c as usize)),
        move || {
            let n = steps2.fetch_add(1, Ordering::Relaxed) + 1;
            note(json!({"ev": "step", "id": id, "n": n}));
            state2.0.lock().unwrap().0 = n;
            state2.1.notify_all();
        },
        move |res| {
            match &res {
                Ok(()) => note(json!({"ev": "done", "id": id, "res": "ok"})),
                Err(e) => note(json!({"ev": "done", "id": id, "res": error_kind(e), "msg": e.to_string()})),
            }
            state3.0.lock().unwrap().1 = true;
            state3.1.notify_all();
        },
    );
    match (cmd["kill_ns"].as_u64(), cmd["kill_step"].as_u64()) {
        (Some(ns), _) => std::thread::sleep(Duration::from_nanos(ns)),
        (None, Some(k)) => {
            let mut g = state.0.lock().unwrap();
            while g.0 < k as usize && !g.1 {
                g = state.1.wait(g).unwrap();
            }
            drop(g);
        }
        (None, None) => {
            let mut g = state.0.lock().unwrap();
            while !g.1 {
                g = state.1.wait(g).unwrap();
            }
            drop(g);
        }
    }
    note(json!({"ev": "drop", "id": id}));
    drop(handle);
    note(json!({"ev": "dropped", "id": id}));
}

fn fresh(r: std::io::Result<ProductFreshness>) -> Value {
    match r {
        Ok(ProductFreshness::Nonexistent) => json!("nonexistent"),
        Ok(ProductFreshness::Outdated) => json!("outdated"),
        Ok(ProductFreshness::MaybeOutdated(None)) => json!({"age": null}),
        Ok(ProductFreshness::MaybeOutdated(Some(d))) => json!({"age": d.as_nanos() as u64}),
        Err(e) => json!({"err": e.raw_os_error()}),
    }
}

fn freshness(cmd: &Value) {
    let db = match CompilationDatabase::load() {
        Ok(db) => db,
        Err(e) => {
            note(json!({"ev": "db-error", "err": e.to_string()}));
            return;
        }
    };
    for path in cmd["profiles"].as_array().unwrap() {
        let p = path.as_str().unwrap();
        note(json!({"ev": "profile-query", "path": p}));
        let r = db.profile_freshness(Path::new(p));
        note(json!({"ev": "profile-fresh", "path": p, "res": fresh(r)}));
    }
    for pair in cmd["derived"].as_array().unwrap() {
        let (i, p) = (pair[0].as_str().unwrap(), pair[1].as_str().unwrap());
        let Some(e) = db.entry(Path::new(i)) else {
            note(json!({"ev": "no-entry", "input": i}));
            continue;
        };
        note(json!({"ev": "derived-query", "input": i, "path": p}));
        let r = e.derived_freshness(Path::new(p));
        note(json!({"ev": "derived-fresh", "input": i, "path": p, "res": fresh(r)}));
    }
}

fn load_db() {
    match CompilationDatabase::load() {
        Ok(db) => {
            let mut l: Vec<Value> = db
                .entries()
                .map(|e| {
                    json!({
                        "dir": e.current_dir(), "file": e.input(), "raw": e.raw_command(),
                        "program": e.program().map(|p| p.as_ref().to_owned()),
                        "args": e.args().map(|a| a.as_ref().to_owned()).collect::<Vec<_>>(),
                        "output": e.output(),
                        "same": db.entry(e.input()) == Some(e),
                    })
                })
                .collect();
            l.sort_by_key(|v| v["file"].to_string());
            note(json!({"ev": "db", "entries": l}));
        }
        Err(DatabaseLoadError::FileNotFound) => note(json!({"ev": "db-missing"})),
        Err(DatabaseLoadError::IoError(e)) => note(json!({"ev": "db-error", "io": e.raw_os_error()})),
        Err(e) => note(json!({"ev": "db-error", "err": e.to_string()})),
    }
}

fn load_profile(cmd: &Value) {
    match output::load(cmd["path"].as_str().unwrap()) {
        Ok(p) => {
            let l: Vec<Value> = p
                .iter()
                .map(|u| {
                    json!({"file": u.rel_path(), "rss": u.max_rss_bytes(), "time": match u.wall_time() {
                        None => Value::Null,
                        Some(Ok(d)) => json!(d.as_nanos() as u64),
                        Some(Err(f)) => json!(format!("{f}")),
                    }})
                })
                .collect();
            note(json!({"ev": "profile", "units": l}));
        }
        Err(ProfileLoadError::FileNotFound) => note(json!({"ev": "profile-missing"})),
        Err(e) => note(json!({"ev": "profile-error", "err": e.to_string()})),
    }
}

#[cfg(feature = "trace")]
mod trace {
    use super::note;
    use clang_time_trace::{ActivityTrace, ClangTrace, ClangTraceLoadError};
    use serde_json::{json, Value};

    fn act(t: &ClangTrace, a: ActivityTrace) -> Value {
        let mut kids: Vec<Value> = a.direct_children().map(|c| act(t, c)).collect();
        kids.sort_by_key(|v| (v["start"].as_f64().unwrap().to_bits(), v.to_string()));
        json!({
            "name": a.activity().name(), "detail": a.activity().raw_argument().detail().map(|d| d.to_string()),
            "end": a.end(), "below": a.all_children().count(),
            "start": a.start(), "dur": a.duration(), "self": a.self_duration(),
            "id_ok": t.activity_trace(a.id()).start() == a.start() && a.direct_children().all(|c| c.parent().map(|p| p.id()) == Some(a.id())),
            "kids": kids,
        })
    }
    pub fn load(cmd: &Value) {
        match ClangTrace::from_file(cmd["path"].as_str().unwrap()) {
            Ok(t) => {
                let mut roots: Vec<Value> = t.root_activities().map(|a| act(&t, a)).collect();
                roots.sort_by_key(|v| (v["start"].as_f64().unwrap().to_bits(), v.to_string()));
                let mut stats: Vec<Value> = t
                    .global_stats()
                    .iter()
                    .map(|(k, s)| json!([k, s.total_duration(), s.count()]))
                    .collect();
                stats.sort_by_key(|v| v.to_string());
                note(json!({
                    "ev": "trace", "roots": roots, "all": t.all_activities().count(), "stats": stats,
                    "process": t.process_name(), "pid": t.pid(), "thread": t.thread_name(),
                    "bot": t.beginning_of_time(),
                }));
            }
            Err(ClangTraceLoadError::Io(e)) => note(json!({"ev": "trace-error", "io": e.raw_os_error(), "msg": e.to_string()})),
            Err(e) => {
                let m: String = e.to_string().chars().take(300).collect();
                note(json!({"ev": "trace-error", "err": m}));
            }
        }
    }
}
