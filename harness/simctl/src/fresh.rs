//! Freshness queries (C08): generator and oracle.
use crate::gen::*;
use crate::mjudge::Verdict;
use crate::run::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use simproto::*;
use std::collections::{BTreeMap, BTreeSet};

pub const DB: &str = "/work/compile_commands.json";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Meta {
    pub inputs: Vec<String>,
    /// Symbolic links: path -> absolute target
    pub links: BTreeMap<String, String>,
}

fn stamp(r: &mut Rng, base: i64) -> i64 {
    let d = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.below(1000) as i64,
        3 => r.logu(1, S) as i64,
        4 => r.below(3) as i64 * S as i64,
        5 => r.logu(MS, 100 * S) as i64,
        6 => r.logu(S, 86400 * S) as i64,
        _ => r.logu(86400 * S, 1000 * 86400 * S) as i64,
    };
    if r.chance(0.25) {
        base + d
    } else {
        base - d
    }
}

pub fn generate(prop: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let mut sc = Scenario { seed: r.next(), ..Default::default() };
    sched(&mut r, &mut sc, true);
    sc.realtime = match r.below(6) {
        0 => T0 + 999_999_999,
        1 => 1_000_000_000 + r.below(100 * S) as i64,
        _ => T0 + r.below(S) as i64,
    };
    let now = sc.realtime;
    let n = match r.below(5) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 4),
        3 => r.range(5, 12),
        _ => r.range(2, 40),
    } as usize;
    // Most cases are about one clearly newer file among many older ones
    let bulk = stamp(&mut r, now - 3600 * S as i64);
    let old = |r: &mut Rng| match r.below(3) {
        0 => bulk,
        1 => bulk - r.logu(1, 1000 * S) as i64,
        _ => stamp(r, bulk).min(bulk + r.below(2) as i64),
    };
    let mut meta = Meta { inputs: vec![], links: BTreeMap::new() };
    let mut files = vec![dir("/work"), dir("/src"), dir("/out")];
    let mut entries = vec![];
    for i in 0..n {
        let path = match r.below(4) {
            0 => format!("/src/f{i}.cpp"),
            1 => format!("/src/sub/x{i}.cc"),
            2 => format!("/work/gen {i}.cpp"),
            _ => format!("/src/é{i}.cpp"),
        };
        let m = old(&mut r);
        if r.chance(0.1) {
            let target = format!("/real/t{i}.cpp");
            files.push(file(&target, "x", m));
            files.push(FileSpec { path: path.clone(), kind: FileKind::Symlink, data: to_latin(target.as_bytes()), mtime: 0, mode: 0o777 });
            meta.links.insert(path.clone(), target);
        } else if !r.chance(0.03) {
            files.push(file(&path, "x", m));
        }
        entries.push(json!({"directory": "/work", "command": format!("c++ -c '{path}'"), "file": path}));
        meta.inputs.push(path);
    }
    let mut products = vec!["/work/cmakeperf.csv".to_string()];
    for i in 0..r.below(3) {
        products.push(format!("/out/p{i}.json"));
    }
    for p in &products {
        if r.chance(0.8) {
            let m = match r.below(6) {
                0 => stamp(&mut r, now),
                1 => now + r.logu(1, 100 * 86400 * S) as i64,
                2 => bulk,
                _ => bulk + r.below(2) as i64 + r.logu(1, 7200 * S) as i64 * r.below(2) as i64,
            };
            if r.chance(0.1) {
                let target = format!("{p}.target");
                if r.chance(0.8) {
                    files.push(file(&target, "p", m));
                }
                files.push(FileSpec { path: p.clone(), kind: FileKind::Symlink, data: to_latin(target.as_bytes()), mtime: 0, mode: 0o777 });
                meta.links.insert(p.clone(), target);
            } else {
                files.push(file(p, "p", m));
            }
        }
    }
    let dbm = old(&mut r);
    files.push(file(DB, "", dbm));
    let dbi = files.len() - 1;
    files[dbi].data = to_latin(serde_json::to_string(&entries).unwrap().as_bytes());
    // At most one file is decisive in many cases
    if r.chance(0.5) && n > 0 {
        let p = meta.inputs[r.below(n as u64) as usize].clone();
        let p = meta.links.get(&p).cloned().unwrap_or(p);
        if let Some(f) = files.iter_mut().find(|f| f.path == p) {
            let b = bulk + r.logu(1, 3600 * S) as i64;
            f.mtime = stamp(&mut r, b);
        }
    } else if r.chance(0.3) {
        files[dbi].mtime = stamp(&mut r, now);
    }
    // Faults of the examination itself
    let mut paths: Vec<String> = meta.inputs.clone();
    paths.extend(products.clone());
    paths.push(DB.into());
    if r.chance(0.35) {
        for _ in 0..r.range(1, 2) {
            let p = r.pick(&paths).clone();
            let p = meta.links.get(&p).cloned().unwrap_or(p);
            sc.faults.rules.push(FaultRule {
                op: "stat".into(),
                path: p,
                nth: if r.chance(0.5) { 0 } else { r.below(4) as u32 },
                count: if r.chance(0.7) { 1_000_000 } else { 1 },
                errno: *r.pick(&[libc::EACCES, libc::EIO, libc::ENOENT, libc::ELOOP, libc::ENOTDIR, libc::ENOMEM, libc::ESTALE]),
            });
        }
    }
    // Clock jumps
    if r.chance(0.5) {
        let mut t = 0;
        for _ in 0..r.range(1, 5) {
            t += r.logu(US, 3 * S);
            let d = stamp(&mut r, 0);
            sc.clock_jumps.push((t, d));
        }
    }
    // Somebody else changing files
    let mut user = vec![];
    if r.chance(0.6) {
        for _ in 0..r.range(1, 12) {
            user.push(UserStep::Sleep(if r.chance(0.5) { r.logu(100, MS) } else { r.logu(US, S) }));
            let p = r.pick(&paths).clone();
            let p = if r.chance(0.3) { products[0].clone() } else { p };
            let p = meta.links.get(&p).cloned().unwrap_or(p);
            user.push(match r.below(6) {
                0 if p != DB => UserStep::Remove(p),
                1 | 2 => UserStep::Touch(p.clone(), if p == DB { files[dbi].data.clone() } else { "new".into() }),
                _ => {
                    let b = if r.chance(0.5) { bulk } else { now };
                    UserStep::SetMtime(p, stamp(&mut r, b))
                }
            });
        }
    }
    sc.tty = Some(Tty { w: 80, h: 24, user });
    let mut drv = vec![];
    for _ in 0..r.range(1, 8) {
        let mut ps = vec![];
        let mut ds = vec![];
        for _ in 0..r.range(1, 3) {
            let p = r.pick(&products).clone();
            if n > 0 && r.chance(0.5) {
                ds.push(json!([r.pick(&meta.inputs).clone(), p]));
            } else {
                ps.push(json!(p));
            }
        }
        drv.push(json!({"cmd": "freshness", "profiles": ps, "derived": ds}));
        if r.chance(0.6) {
            drv.push(json!({"cmd": "sleep", "ns": r.logu(US, S)}));
        }
    }
    sc.driver = json!(drv);
    sc.files = files;
    Case {
        prop: prop.into(),
        family: "fresh".into(),
        seed,
        sessions: vec![Session { bin: "simdrv".into(), inherit: false, sc }],
        meta: serde_json::to_value(meta).unwrap(),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum St {
    At(i64),
    Err(i32),
}

/// What examining a file may give at some point between two log lines
fn states(case: &Case, run: &Run, meta: &Meta, path: &str, a: usize, b: usize) -> BTreeSet<St> {
    let real = meta.links.get(path).cloned().unwrap_or(path.to_string());
    let sc = &case.sessions[0].sc;
    let mut cur = sc.files.iter().find(|f| f.path == real && f.kind == FileKind::File).map(|f| St::At(f.mtime)).unwrap_or(St::Err(libc::ENOENT));
    let mut set = BTreeSet::new();
    let mut lasting = None;
    for (i, l) in run.lines.iter().enumerate().take(b) {
        if i == a {
            set.insert(cur);
        }
        if l.k == "TOUCH" && l.s(0) == real {
            cur = if l.s(1) == "-" { St::Err(libc::ENOENT) } else { St::At(l.i(1)) };
            if i >= a {
                set.insert(cur);
            }
        }
        if l.k == "FAULT" && l.s(0) == "stat" && l.s(1) == real && i >= a {
            let e = l.i(2) as i32;
            set.insert(St::Err(e));
            // A lasting fault leaves no other answer
            if sc.faults.rules.iter().any(|f| f.path == real && f.errno == e && f.count > 1000) {
                lasting = Some(e);
            }
        }
    }
    if let Some(e) = lasting {
        // Unless it was examined in this window before the fault began (never: rules start at their nth use)
        let first = sc.faults.rules.iter().any(|f| f.path == real && f.errno == e && f.nth == 0);
        if first {
            return [St::Err(e)].into();
        }
    }
    set
}

/// Range of the wall clock between two instants, from the recorded jumps
fn wall_range(run: &Run, sc: &Scenario, a: usize, b: usize) -> (i64, i64) {
    let mut d = 0i64;
    let (t1, t2) = (run.lines[a].t, run.lines[b].t);
    let (mut lo, mut hi) = (i64::MAX, i64::MIN);
    let mut add = |v: i64| {
        lo = lo.min(v);
        hi = hi.max(v);
    };
    let mut before = 0;
    for (t, j) in &sc.clock_jumps {
        if *t < t1 {
            before += j;
        }
    }
    d += before;
    add(sc.realtime + t1 as i64 + d);
    for (t, j) in &sc.clock_jumps {
        if *t >= t1 && *t <= t2 {
            add(sc.realtime + *t as i64 + d);
            d += j;
            add(sc.realtime + *t as i64 + d);
        }
    }
    add(sc.realtime + t2 as i64 + d);
    (lo, hi)
}

pub fn judge(case: &Case, runs: &[Run]) -> Verdict {
    let meta: Meta = serde_json::from_value(case.meta.clone()).unwrap();
    let sc = &case.sessions[0].sc;
    let run = &runs[0];
    let mut bad = vec![];
    let mut nontrivial = false;
    if run.why != "exit" || run.code != 0 {
        bad.push(("C08.end".into(), format!("the program ended with {} {} {}", run.why, run.code, run.signal)));
    }
    let notes: Vec<(usize, serde_json::Value)> =
        run.lines.iter().enumerate().filter(|(_, l)| l.k == "NOTE").map(|(i, l)| (i, l.json())).collect();
    for (k, (i, v)) in notes.iter().enumerate() {
        let ev = v["ev"].as_str().unwrap_or("");
        if ev == "db-error" {
            bad.push(("C08.db".into(), format!("the database could not be loaded: {v}")));
        }
        if ev != "profile-query" && ev != "derived-query" {
            continue;
        }
        let Some((j, res)) = notes.get(k + 1) else {
            bad.push(("C08.noanswer".into(), format!("no answer to {v}")));
            continue;
        };
        let (a, b) = (*i, *j);
        let path = v["path"].as_str().unwrap();
        let what = if ev == "profile-query" { format!("profile {path}") } else { format!("{path}, derived from {}", v["input"]) };
        let prod = states(case, run, &meta, path, a, b);
        let mut deps = vec![states(case, run, &meta, DB, a, b)];
        if ev == "profile-query" {
            for i in &meta.inputs {
                deps.push(states(case, run, &meta, i, a, b));
            }
        } else {
            deps.push(states(case, run, &meta, v["input"].as_str().unwrap(), a, b));
        }
        if prod.len() > 1 || deps.iter().any(|d| d.len() > 1) || !sc.clock_jumps.is_empty() || !sc.faults.rules.is_empty() {
            nontrivial = true;
        }
        let (lo, hi) = wall_range(run, sc, a, b);
        // every verdict that some instant of the query justifies
        let nonex = prod.contains(&St::Err(libc::ENOENT));
        let prods: Vec<i64> = prod.iter().filter_map(|s| if let St::At(m) = s { Some(*m) } else { None }).collect();
        let outdated = prods.iter().any(|p| deps.iter().any(|d| d.iter().any(|s| matches!(s, St::At(m) if m > p))));
        let mut errs: BTreeSet<i32> = prod.iter().filter_map(|s| if let St::Err(e) = s { Some(*e) } else { None }).filter(|e| *e != libc::ENOENT).collect();
        if !prods.is_empty() {
            for d in &deps {
                errs.extend(d.iter().filter_map(|s| if let St::Err(e) = s { Some(*e) } else { None }));
            }
        }
        let fresh: Vec<i64> = prods.iter().copied().filter(|p| deps.iter().all(|d| d.iter().any(|s| matches!(s, St::At(m) if m <= p)))).collect();
        let r = &res["res"];
        let ok = if r == "nonexistent" {
            nonex
        } else if r == "outdated" {
            outdated
        } else if let Some(e) = r.get("err") {
            if e.is_null() { !errs.is_empty() } else { errs.contains(&(e.as_i64().unwrap_or(0) as i32)) }
        } else if let Some(age) = r.get("age") {
            match age.as_u64() {
                None => fresh.iter().any(|p| lo < *p),
                Some(x) => fresh.iter().any(|p| (p + x as i64) >= lo && (p + x as i64) <= hi),
            }
        } else {
            false
        };
        if !ok {
            let show = |s: &BTreeSet<St>| format!("{s:?}");
            bad.push((
                "C08.verdict".into(),
                format!(
                    "{what}: answer {r}, but product {}, dependencies {}, clock {lo}..{hi} (errors allowed: {errs:?})",
                    show(&prod),
                    deps.iter().map(show).collect::<Vec<_>>().join(" ")
                ),
            ));
        }
    }
    Verdict { bad, nontrivial }
}
