//! The text interface (C10–C14): oracles.
use crate::gen::*;
use crate::mjudge::{csv, Verdict};
use crate::run::*;
use crate::tui::*;
use simproto::*;
use std::collections::{BTreeMap, BTreeSet};

fn s(t: u64) -> String {
    format!("{:.3} s", t as f64 / 1e9)
}

/// What a run showed
pub struct Obs<'a> {
    run: &'a Run,
    sc: &'a Scenario,
    /// Snapshots: (time, rows)
    screens: BTreeMap<String, (u64, Vec<String>)>,
    /// Snapshots of files: (time, content)
    snaps: BTreeMap<String, (u64, Option<Vec<u8>>)>,
    files: BTreeMap<String, (u32, i64, Vec<u8>)>,
    stalls: Vec<(u64, u64)>,
    /// Slow background accesses to the disk
    slow: Vec<(u64, u64)>,
}

/// Text without frames and repeated blanks
pub fn flat(rows: &[String]) -> String {
    let mut o = String::new();
    for r in rows {
        for w in r.split(|c: char| c.is_whitespace() || ('\u{2500}'..='\u{257f}').contains(&c)) {
            if !w.is_empty() {
                o.push_str(w);
                o.push(' ');
            }
        }
    }
    o
}

impl<'a> Obs<'a> {
    pub fn new(run: &'a Run, sc: &'a Scenario) -> Self {
        let mut screens = BTreeMap::new();
        let mut snaps = BTreeMap::new();
        let (mut stalls, mut slow) = (vec![], vec![]);
        for l in &run.lines {
            match l.k.as_str() {
                "SCREEN" => {
                    screens.insert(l.s(0), (l.t, (3..l.f.len()).map(|i| l.s(i)).collect()));
                }
                "SNAPFILE" => {
                    let d = l.raw(2);
                    snaps.insert(l.s(0), (l.t, if d.first() == Some(&b'+') { Some(d[1..].to_vec()) } else { None }));
                }
                "STALL" => stalls.push((l.t, l.u(0))),
                // Trace files are accessed in the background
                "SLOW" if l.tid == 0 || l.s(2).contains("cmakeperf") => stalls.push((l.t, l.u(0))),
                "SLOW" => slow.push((l.t, l.u(0))),
                _ => {}
            }
        }
        Obs { run, sc, screens, snaps, files: run.files(sc), stalls, slow }
    }
    fn initial(&self, path: &str) -> Option<Vec<u8>> {
        self.sc.files.iter().rev().find(|f| f.path == path && f.kind == FileKind::File).map(|f| from_latin(&f.data))
    }
    fn last(&self, path: &str) -> Option<Vec<u8>> {
        self.files.get(path).map(|f| f.2.clone())
    }
    /// Time lost in [a, b] because threads were not scheduled
    pub fn stalled(&self, a: u64, b: u64) -> u64 {
        self.stalls.iter().map(|&(t, d)| (t + d).min(b).saturating_sub(t.max(a))).sum()
    }
    /// The screen of this snapshot can be expected to be stable
    pub fn settled(&self, label: &str) -> bool {
        let Some((t, _)) = self.screens.get(label) else { return false };
        let a = t.saturating_sub(3500 * MS);
        let slow: u64 = self.slow.iter().map(|&(t0, d)| (t0 + d).min(*t).saturating_sub(t0.max(a))).sum();
        self.stalled(a, *t) + slow < 300 * MS
    }
    fn text(&self, label: &str) -> String {
        self.screens.get(label).map(|x| flat(&x.1)).unwrap_or_default()
    }
    /// Messages about panics
    fn panic(&self) -> Option<String> {
        for l in &self.run.lines {
            let t = match l.k.as_str() {
                "OUT" if l.s(0) == "2" => l.s(1),
                "SYSLOG" => l.s(0),
                _ => continue,
            };
            if t.contains("panicked at") || t.contains("due to a panic") || t.contains("crashed due to") {
                return Some(format!("{}: {}", s(l.t), t.trim().chars().take(300).collect::<String>()));
            }
        }
        None
    }
}

/// Rows of a profile (path, memory), if it is well-formed
fn rows(data: &[u8]) -> Option<Vec<(String, u64)>> {
    let v = csv(data).ok()?;
    let mut i = v.into_iter();
    if i.next()? != ["file", "max_rss", "time"] || !data.ends_with(b"\n") {
        return None;
    }
    let mut m = vec![];
    for r in i {
        if r.len() != 3 {
            return None;
        }
        m.push((r[0].clone(), r[1].parse().ok()?));
    }
    Some(m)
}

/// A profile which describes every unit exactly once
fn complete(data: &[u8], m: &Meta) -> bool {
    let sorted = |mut v: Vec<String>| {
        v.sort();
        v
    };
    rows(data).is_some_and(|r| sorted(r.into_iter().map(|x| x.0).collect()) == sorted(m.units.iter().map(|u| u.rel.clone()).collect()))
}

fn brief(d: &Option<Vec<u8>>) -> String {
    match d {
        None => "no file".into(),
        Some(d) => {
            let t: String = String::from_utf8_lossy(d).chars().take(120).collect();
            format!("{} bytes {t:?}", d.len())
        }
    }
}

/// A build job (not a trace measurement)
fn is_job(l: &Line) -> bool {
    (l.k == "SPAWN" && l.s(3).contains("-DJOB=") && !l.s(3).contains("-ftime-trace"))
        || (l.k == "SPAWNERR" && l.s(1).contains("-DJOB=") && !l.s(1).contains("-ftime-trace"))
}

/// Displayed rows of the build profile: (memory, path)
fn table(rows: &[String]) -> Vec<(String, String)> {
    let mut v = vec![];
    for r in rows {
        let cells: Vec<&str> = r.split('┆').map(|c| c.trim()).collect();
        if cells.len() >= 2 && cells[0].ends_with(" GB") {
            v.push((cells[0].to_string(), cells[cells.len() - 1].to_string()));
        }
    }
    v
}

fn expected_table(data: &[u8]) -> Vec<(String, String)> {
    let mut v: Vec<(u64, String)> = rows(data).unwrap_or_default().into_iter().map(|(p, m)| (m, p)).collect();
    v.sort_by(|a, b| b.cmp(a));
    v.into_iter().map(|(m, p)| (format!("{:.2} GB", m as f32 / 1e9), p)).collect()
}

fn same_table(a: &[(String, String)], b: &[(String, String)]) -> bool {
    // Rows of equal memory may come in any order
    if a.len() != b.len() || a.iter().zip(b).any(|(x, y)| x.0 != y.0) {
        return false;
    }
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    a.sort();
    b.sort();
    a == b
}

/// Where the profile is by default
const DEFAULTS: [&str; 3] = ["/work/cmakeperf.csv", "/work/cmakeperf.bak", "/work/cmakeperf.tmp"];

/// C10
fn build(o: &Obs, m: &Meta, v: &mut Verdict) {
    let bak = crate::tui::sibling(&m.profile, "bak");
    let p0 = o.initial(&m.profile);
    let started = o.run.lines.iter().any(is_job);
    let all_ok = m.units.iter().all(|u| u.job_ok);
    let after = o.text("after");
    let shown = after.contains("Press H for help") && !after.contains("Profiling the build");
    v.nontrivial = started;
    let check = |bad: &mut Vec<(String, String)>, what: &str, d: &Option<Vec<u8>>, bakd: &Option<Vec<u8>>, success: bool| {
        let new = d.as_ref().is_some_and(|x| complete(x, m) && *d != p0) && started && all_ok;
        if success && started {
            if !new {
                bad.push(("C10.success".into(), format!("the measured profile is displayed but {what} the file is not the complete new profile: {} (before: {})", brief(d), brief(&p0))));
            }
        } else if !(*d == p0 || new) {
            // With a broken disk the old profile may have to stay in the backup
            if !m.healthy && d.is_none() && p0.is_some() && *bakd == p0 {
                return;
            }
            bad.push(("C10.restore".into(), format!("{what} the profile is neither the previous one nor a complete new one: {} (before: {})", brief(d), brief(&p0))));
        }
    };
    // What the progress bar says
    for (t, rows) in (0..4).filter_map(|k| o.screens.get(&format!("progress{k}"))) {
        let Some(pct) = rows.iter().find_map(|r| r.split(" %").next().filter(|x| x.len() < r.len())?.split(|c: char| !c.is_ascii_digit()).last()?.parse::<u64>().ok()) else { continue };
        if !flat(rows).contains("Profiling the build") {
            continue;
        }
        let serials: Vec<String> = o.run.of("SPAWN").filter(|l| is_job(l)).map(|l| l.s(1).to_string()).collect();
        let ended: Vec<u64> = o.run.of("PEXIT").filter(|l| l.t <= *t && l.s(2) == "0" && serials.iter().any(|x| *x == l.s(1))).map(|l| l.t).collect();
        let lost = |a: u64| o.stalled(a, *t) + o.slow.iter().map(|&(t0, d)| (t0 + d).min(*t).saturating_sub(t0.max(a))).sum::<u64>();
        let n = m.units.len() as u64;
        let hi = (ended.len() as u64 * 100).div_ceil(n);
        let lo = ended.iter().filter(|e| **e + lost(**e) + S < *t).count() as u64 * 100 / n;
        if pct > hi || pct < lo {
            v.bad.push(("C10.progress".into(), format!("at {} the progress bar says {pct} %, {} of {n} jobs have ended", s(*t), ended.len())));
        }
    }
    let last = o.last(&m.profile);
    if let Some((t, d)) = o.snaps.get("after") {
        let busy = after.contains("Profiling the build") || after.contains("Ready to quit?") || !o.settled("after");
        if !busy && o.run.lines.iter().all(|l| l.k != "STALL" && l.k != "SLOW" || l.t + l.u(0) < *t || l.t > *t) {
            // The backup is not observed there
            if m.healthy {
                check(&mut v.bad, "after the measurement", d, &None, shown);
                if after.contains("Failed to collect build profile") && *d != p0 {
                    check(&mut v.bad, "after a failure", d, &None, false);
                }
            }
        }
        if started && !busy && m.undisturbed && m.healthy {
            // The outcome is what the jobs say
            if all_ok && !shown {
                v.bad.push(("C10.unseen".into(), format!("all jobs succeeded but the profile is not displayed at {}: {}", s(*t), after.chars().take(300).collect::<String>())));
            } else if !all_ok && !after.contains("Failed to collect build profile") {
                v.bad.push(("C10.silent".into(), format!("a job failed but no error is displayed at {}: {}", s(*t), after.chars().take(300).collect::<String>())));
            }
        }
        if shown && !busy {
            let sc = &o.screens["after"].1;
            if let Some(d) = d {
                let (a, b) = (table(sc), expected_table(d));
                if !same_table(&a, &b) {
                    v.bad.push(("C10.table".into(), format!("the table shows {a:?} while the profile has {b:?}")));
                }
            }
        }
    }
    if o.run.why == "exit" && started && m.undisturbed && m.healthy && !o.snaps.contains_key("after") {
        v.bad.push(("C10.unseen".into(), format!("the application ended on its own at {}", s(o.run.end_time()))));
    }
    if o.run.why == "exit" {
        check(&mut v.bad, "at the end", &last, &o.last(&bak), shown);
        if o.initial(&bak).is_none() && last == p0 && started && m.healthy {
            if let Some(b) = o.last(&bak) {
                v.bad.push(("C10.backup".into(), format!("the backup is left behind: {}", brief(&Some(b)))));
            }
        }
        // No other file comes into being
        if m.healthy {
            let stem = crate::tui::sibling(&m.profile, "");
            if let Some(p) = o.files.keys().find(|p| p.starts_with(&stem) && **p != m.profile && **p != bak && o.initial(p).is_none()) {
                v.bad.push(("C10.leftover".into(), format!("{p} is left behind")));
            }
        }
        if let Some(d) = DEFAULTS.iter().find(|d| m.explicit && **d != m.profile && o.last(d) != o.initial(d)) {
            v.bad.push(("C10.touched".into(), format!("{d} changed although the profile is {}", m.profile)));
        }
        // Nothing keeps on running
        if let Some(l) = o.run.of("ALIVE").find(|l| l.i(2) == 500 && l.s(3) == "live" && l.s(4) == "untouched") {
            v.bad.push(("C10.alive".into(), format!("{} still runs after the end of the application", l.s(5))));
        }
    }
    if !started && last != p0 {
        v.bad.push(("C10.touched".into(), format!("nothing was measured but the profile changed: {} (before: {})", brief(&last), brief(&p0))));
    }
    let _ = m.mode;
}

/// Runs of the compiler for traces
struct Clang {
    t: u64,
    serial: String,
    pid: i64,
    argv: Vec<String>,
    cwd: String,
    started: bool,
    unit: usize,
    /// Number of the run for this unit
    nth: usize,
    end: Option<u64>,
    killed: bool,
    /// Processes that it started, directly or not: pid, serial, birth, end
    kids: Vec<(i64, String, u64, Option<u64>)>,
    /// When someone began to look for what to kill
    condemned: u64,
    /// Parents of these processes
    parents: BTreeMap<i64, i64>,
    /// Processes that nothing relates to the compiler since someone in between has ended by itself
    orphans: BTreeSet<String>,
}

impl Clang {
    /// Something started by this compiler that still runs at some point
    fn survivor(&self, t: u64) -> Option<&str> {
        // What a compiler leaves when it ends is not ours
        self.kids.iter().filter(|k| self.killed && !self.orphans.contains(&k.1)).find(|k| k.2 < self.condemned && k.3.map_or(true, |e| e > t)).map(|k| k.1.as_str())
    }
    /// Was a process born while the others were being killed?
    fn late(&self) -> bool {
        self.kids.iter().any(|k| k.2 >= self.condemned)
    }
}

fn clangs(o: &Obs, m: &Meta) -> Vec<Clang> {
    let mut v: Vec<Clang> = vec![];
    let mut scan = 0;
    let mut hit = BTreeSet::new();
    for l in &o.run.lines {
        match l.k.as_str() {
            "PSCAN" => scan = l.t,
            "SPAWN" | "SPAWNERR" => {
                let started = l.k == "SPAWN";
                let argv: Vec<String> = if started {
                    serde_json::from_slice(&l.raw(3)).unwrap_or_default()
                } else {
                    l.s(1).split(' ').map(|x| x.to_string()).collect()
                };
                if !argv.iter().any(|a| a == "-ftime-trace") {
                    continue;
                }
                let unit = argv.iter().find_map(|a| a.strip_prefix("-DJOB=")).and_then(|x| x.parse().ok()).unwrap_or(0).min(m.units.len() - 1);
                let nth = v.iter().filter(|c| c.unit == unit).count();
                v.push(Clang {
                    t: l.t,
                    serial: l.s(1),
                    pid: if started { l.i(0) } else { -1 },
                    argv,
                    cwd: if started { l.s(2) } else { String::new() },
                    started,
                    unit,
                    nth,
                    end: if started { None } else { Some(l.t) },
                    killed: false,
                    kids: vec![],
                    condemned: u64::MAX,
                    parents: BTreeMap::new(),
                    orphans: BTreeSet::new(),
                });
            }
            "PFORK" => {
                for c in &mut v {
                    let parent = l.i(2);
                    if c.started && c.end.is_none() && c.pid == parent || c.kids.iter().any(|k| k.0 == parent && k.3.is_none()) {
                        c.parents.insert(l.i(0), parent);
                        c.kids.push((l.i(0), l.s(1), l.t, None));
                    }
                }
            }
            "PEXIT" => {
                for c in &mut v {
                    if !hit.contains(&l.i(0)) {
                        for k in c.kids.iter().filter(|k| k.3.is_none() && k.0 != l.i(0)) {
                            let mut p = k.0;
                            while let Some(&q) = c.parents.get(&p) {
                                if q == l.i(0) {
                                    c.orphans.insert(k.1.clone());
                                }
                                p = q;
                            }
                        }
                    }
                    if let Some(k) = c.kids.iter_mut().find(|k| k.0 == l.i(0) && k.1 == l.s(1) && k.3.is_none()) {
                        k.3 = Some(l.t);
                    }
                    if c.started && c.pid == l.i(0) && c.serial == l.s(1) && c.end.is_none() {
                        c.end = Some(l.t);
                    }
                }
            }
            "KILL" => {
                hit.insert(l.i(0));
                for c in &mut v {
                    if c.started && c.pid == l.i(0) && c.serial == l.s(1) {
                        c.killed = true;
                        c.condemned = c.condemned.min(if scan > c.t { scan } else { l.t });
                    }
                }
            }
            _ => {}
        }
    }
    v
}

/// C11
fn trace(o: &Obs, m: &Meta, v: &mut Verdict) {
    let cl = clangs(o, m);
    v.nontrivial = !cl.is_empty();
    for c in &cl {
        if !c.started {
            continue;
        }
        let u = &m.units[c.unit];
        let mut want = vec!["clang++".to_string(), "-ftime-trace".into()];
        if let Some(g) = m.granularity {
            want.push(format!("-ftime-trace-granularity={g}"));
        }
        want.extend(u.args.iter().cloned());
        if c.argv != want || c.cwd != u.dir {
            v.bad.push(("C11.command".into(), format!("clang was run as {:?} in {} instead of {want:?} in {}", c.argv, c.cwd, u.dir)));
        }
    }
    // One at a time
    for w in cl.windows(2) {
        if w[0].end.map_or(true, |e| e > w[1].t) && !w[0].killed {
            v.bad.push(("C11.overlap".into(), format!("two compilers ran at the same time from {}", s(w[1].t))));
        }
    }
    // The trace was moved away just before, for a compiler that has not been started yet
    let moving = |t: u64| {
        let moved = o.run.of("RENAME").filter(|l| l.t <= t && l.i(2) == 0 && l.s(0).ends_with(".json") && l.s(1).ends_with(".bak")).last();
        moved.is_some_and(|l| !o.run.of("SPAWN").chain(o.run.of("SPAWNERR")).any(|x| x.t >= l.t && x.t <= t))
    };
    // As soon as the measurement screen is gone, everything is back in place
    for k in 0..8 {
        let (b, e) = (format!("before{k}"), format!("early{k}"));
        let (Some((tb, db)), Some((te, de))) = (o.snaps.get(&b), o.snaps.get(&e)) else { continue };
        let gone = o.run.of("WAITED").any(|l| l.t == *te && l.s(0) == "ok" && l.s(1) == "gone" && l.s(2).contains("Measuring"));
        let over = o.text(&e);
        if !gone || !m.healthy || *tb == 0 || over.contains("Ready to quit?") || over.contains("<Yes>") || over.contains("<Measure>") {
            continue;
        }
        let mine: Vec<&Clang> = cl.iter().filter(|c| c.t >= *tb && c.t <= *te).collect();
        if mine.len() != 1 || mine[0].late() || moving(*tb) || cl.iter().any(|c| c.t < *tb && c.end.map_or(true, |e| e > *tb)) {
            continue;
        }
        let c = mine[0];
        if let Some(k) = c.survivor(*te) {
            v.bad.push(("C11.alive".into(), format!("process {k} of the compiler started at {} still runs when the measurement screen is left at {}", s(c.t), s(*te))));
        }
        let u = &m.units[c.unit];
        let product = u.product.get(c.nth).filter(|_| u.clang_ok.get(c.nth).copied().unwrap_or(false)).map(|p| from_latin(p));
        if *de != *db && (*de != product || product.is_none()) {
            v.bad.push(("C11.early".into(), format!("when the measurement screen is left at {}, the trace is neither the previous one nor a complete one: {} (before: {})", s(*te), brief(de), brief(db))));
        }
    }
    // The output of the compiler may last, but the user can give up
    for l in o.run.of("WAITED").filter(|l| l.s(0) == "ok" && l.s(1) == "gone" && l.s(2).contains("Measuring")) {
        let Some(c) = cl.iter().filter(|c| c.t < l.t).last() else { continue };
        let Some(k) = o.run.of("KEYS").find(|k| k.t > c.t + 5 * S && k.t < l.t && k.s(0).ends_with("\\x0d")) else { continue };
        if l.t > k.t + 3 * S + o.stalled(k.t, l.t) + o.slow.iter().map(|(_, d)| d).sum::<u64>() {
            v.bad.push(("C11.stuck".into(), format!("the user gave up at {} but the measurement screen stays until {}", s(k.t), s(l.t))));
        }
    }
    // Settled rounds
    for k in 0..8 {
        let (b, a) = (format!("before{k}"), format!("after{k}"));
        let (Some((tb, db)), Some((ta, da))) = (o.snaps.get(&b), o.snaps.get(&a)) else { continue };
        if !o.settled(&a) || !m.healthy {
            continue;
        }
        let text = o.text(&a);
        if text.contains("Ready to quit?") || db.is_none() && *tb == 0 {
            continue;
        }
        let mine: Vec<&Clang> = cl.iter().filter(|c| c.t >= *tb && c.t <= *ta).collect();
        // Something from an earlier round may have been under way
        if moving(*tb) || cl.iter().any(|c| c.t < *tb && (c.end.map_or(true, |e| e + 2 * S > *tb) || c.kids.iter().any(|k| k.3.map_or(true, |e| e + 2 * S > *tb)))) {
            continue;
        }
        if text.contains("Measuring time trace") || text.contains("Processing time trace") {
            let quiet = mine.iter().all(|c| c.end.is_some_and(|e| e + 3 * S < *ta));
            if mine.last().is_some_and(|c| !c.killed && c.kids.iter().any(|k| k.3.map_or(true, |e| e + 3 * S > *ta))) {
                // Its output has not ended
                continue;
            }
            if quiet {
                v.bad.push(("C11.stuck".into(), format!("at {} the compiler has long ended but the application still waits", s(*ta))));
            } else {
                v.bad.push(("C11.stuck".into(), format!("at {} the compiler still runs", s(*ta))));
            }
            continue;
        }
        let Some(c) = mine.last() else {
            if da != db {
                v.bad.push(("C11.touched".into(), format!("no compiler was run but the trace changed: {} (before: {})", brief(da), brief(db))));
            }
            continue;
        };
        let u = &m.units[c.unit];
        let ok = u.clang_ok.get(c.nth).copied().unwrap_or(false);
        let product = u.product.get(c.nth).filter(|_| ok).map(|p| from_latin(p));
        let bakd = o.snaps.get(&format!("bak{k}")).and_then(|x| x.1.clone());
        if c.late() {
            continue;
        }
        if c.end.map_or(true, |e| e > *ta) {
            v.bad.push(("C11.alive".into(), format!("the compiler started at {} still runs at {} although its measurement is over", s(c.t), s(*ta))));
        }
        if let Some(k) = c.survivor(*ta) {
            v.bad.push(("C11.alive".into(), format!("process {k} of the compiler started at {} still runs at {} although its measurement is over", s(c.t), s(*ta))));
        }
        let fail = text.contains("clang time-trace run failed") || text.contains("Failed to start clang");
        if text.contains("Data from") {
            if !ok {
                v.bad.push(("C11.false-success".into(), format!("the compiler failed but a trace is displayed at {}", s(*ta))));
            } else if *da != product {
                v.bad.push(("C11.success".into(), format!("the trace file is {} instead of the compiler's output {}", brief(da), brief(&product))));
            } else if !text.contains(&format!("clang-T{}-v{}-", c.unit, c.nth + 1)) {
                v.bad.push(("C11.display".into(), format!("the displayed trace is not the one that was just measured (clang-T{}-v{}-): {}", c.unit, c.nth + 1, text.chars().rev().take(200).collect::<String>().chars().rev().collect::<String>())));
            }
            if bakd.is_some() && bakd == *db && db.is_some() {
                v.bad.push(("C11.backup".into(), format!("the backup of the previous trace is left behind after a success ({})", brief(&bakd))));
            }
        } else if fail {
            if ok {
                v.bad.push(("C11.false-failure".into(), format!("the compiler succeeded but a failure is reported at {}", s(*ta))));
            }
            if da != db {
                v.bad.push(("C11.restore".into(), format!("after a failure the trace is {} (before: {})", brief(da), brief(db))));
            }
        } else if text.contains("Failed to") {
            v.bad.push(("C11.error".into(), format!("unexpected error at {}: {text}", s(*ta))));
        } else {
            let touched = o.run.of("KEYS").any(|l| l.t >= c.t && l.t < *ta);
            if !touched {
                v.bad.push(("C11.lost".into(), format!("the measurement started at {} ended without result or message", s(c.t))));
            }
            if da != db && *da != product {
                v.bad.push(("C11.restore".into(), format!("after an abort the trace is {} (before: {})", brief(da), brief(db))));
            }
            if *da == product && da != db && c.killed {
                // Finished just before it was killed: fine
            }
        }
    }
    // At the end
    if o.run.why == "exit" {
        for (i, u) in m.units.iter().enumerate() {
            let p0 = o.initial(&u.trace);
            let last = o.last(&u.trace);
            let runs: Vec<&Clang> = cl.iter().filter(|c| c.unit == i).collect();
            if runs.iter().any(|c| c.late()) {
                continue;
            }
            let mut allowed = vec![p0.clone()];
            for c in &runs {
                if u.clang_ok.get(c.nth).copied().unwrap_or(false) {
                    allowed.push(u.product.get(c.nth).map(|p| from_latin(p)));
                }
            }
            if !allowed.contains(&last) {
                let bak = o.last(&u.trace.replace(".json", ".bak"));
                // When the disk refuses to rename or delete, the old trace may have to stay in the backup
                let refused = o.run.of("FAULT").any(|l| l.s(0) == "rename" || l.s(0) == "unlink");
                let kept = o.run.of("FAULT").any(|l| l.s(0) == "unlink");
                let whole = kept || last.is_none();
                if refused && whole && (p0.is_none() || bak == p0) || !m.healthy && last.is_none() && allowed.contains(&bak) {
                    continue;
                }
                v.bad.push(("C11.final".into(), format!("at the end {} is neither the previous trace nor a complete one: {} (before: {})", u.trace, brief(&last), brief(&p0))));
            }
            let bak = u.trace.replace(".json", ".bak");
            if m.healthy && o.initial(&bak).is_none() && p0.is_some() && o.last(&bak).is_some() {
                v.bad.push(("C11.backup".into(), format!("at the end the backup {bak} is left behind")));
            }
        }
        if let Some(l) = o.run.of("ALIVE").find(|l| l.i(2) == 500 && l.s(3) == "live" && l.s(4) == "untouched") {
            v.bad.push(("C11.alive".into(), format!("{} still runs after the end of the application", l.s(5))));
        }
        if let Some(l) = o.run.of("ALIVE").find(|l| l.s(3) == "live" && l.s(4) == "untouched" && cl.iter().any(|c| c.survivor(o.run.end_time()) == Some(&l.s(1)))) {
            v.bad.push(("C11.alive".into(), format!("a process of the compiler, {}, still runs after the end of the application", l.s(5))));
        }
    }
}

/// C13
fn robust(o: &Obs, m: &Meta, v: &mut Verdict) {
    let keys = o.run.of("KEYS").count();
    v.nontrivial = keys >= 3;
    if let Some(p) = o.panic() {
        v.bad.push(("C13.panic".into(), p));
        return;
    }
    if m.mode == "quit" {
        // Whatever the application is doing, the user can leave
        let lost = |a: u64, b: u64| o.stalled(a, b) + o.slow.iter().map(|&(t, d)| (t + d).min(b).saturating_sub(t.max(a))).sum::<u64>();
        if let (Some((a, q)), Some((b, _))) = (o.screens.get("asked"), o.screens.get("still")) {
            // A trace that has been loaded meanwhile takes the place of the question
            if !o.run.of("TREAD").any(|l| l.t > *a && l.u(1) > 4 * S) && lost(*a, *b) < 8 * S && flat(q).contains("<Abort>") {
                v.bad.push(("C13.linger".into(), format!("the user has confirmed to quit at {}, the application still runs at {}", s(*a), s(*b))));
                return;
            }
        }
        if let (Some((a, q)), true) = (o.screens.get("asked"), o.run.why == "exit") {
            let end = o.run.end_time();
            if let Some(l) = o.run.of("KEYS").find(|l| l.t >= *a && flat(q).contains("<Abort>")) {
                let late = end.saturating_sub(l.t + lost(l.t, end));
                if late > 4 * S && !o.run.of("TREAD").any(|l| l.t > *a && l.u(1) > 4 * S) && !o.screens.contains_key("still") {
                    v.bad.push(("C13.linger".into(), format!("the user has confirmed to quit at {}, the application ends at {}", s(l.t), s(end))));
                    return;
                }
            }
        }
        if let Some((a, _)) = o.screens.get("abort") {
            let k = o.run.of("KEYS").find(|l| l.t >= *a).map_or(*a, |l| l.t);
            let w = o.run.of("WAITED").find(|l| l.t >= k && l.s(1) == "gone");
            if let Some(w) = w.filter(|w| w.t.saturating_sub(k + lost(k, w.t)) > 4 * S) {
                v.bad.push(("C13.linger".into(), format!("the user has aborted at {}, but it went on until {}", s(k), s(w.t))));
                return;
            }
        }
        if let Some((t, rows)) = o.screens.get("aborted") {
            if flat(rows).is_empty() && lost(t - 9 * S, *t) < 3 * S {
                v.bad.push(("C13.empty".into(), format!("the loading of the only trace was aborted, the user is left with an empty screen at {}", s(*t))));
                return;
            }
        }
    }
    if o.run.why == "sigint" {
        // Ctrl-C when the terminal is not in raw mode yet
        return;
    }
    if o.run.why != "exit" {
        v.bad.push(("C13.stuck".into(), format!("the application does not end: {} at {}", o.run.why, s(o.run.end_time()))));
        return;
    }
    if o.run.code != 0 || o.run.signal != 0 {
        v.bad.push(("C13.status".into(), format!("exit status {} signal {}", o.run.code, o.run.signal)));
    }
    if let Some(l) = o.run.of("TTYSTATE").last() {
        let f = l.s(1);
        if l.s(0) != "0" || !f.contains("cursor=1") || !f.contains("alt=0") || !f.contains("mouse=0") {
            v.bad.push(("C13.terminal".into(), format!("the terminal is left in a bad state: raw={} {f}", l.s(0))));
        }
    }
    // A process that cannot be seen or signalled cannot be ended
    let blind = o.run.of("FAULT").any(|l| l.s(0) == "kill" || l.s(0) == "opendir" || l.s(1).starts_with("/proc"));
    if let Some(l) = o.run.of("ALIVE").find(|l| !blind && l.i(2) == 500 && l.s(3) == "live" && l.s(4) == "untouched") {
        v.bad.push(("C13.alive".into(), format!("{} still runs after the end of the application", l.s(5))));
    }
    for l in o.run.of("TREAD") {
        let d = l.u(1);
        let lost = o.stalled(l.t.saturating_sub(d), l.t);
        if d > lost + 700 * MS {
            v.bad.push(("C13.slow".into(), format!("a key was handled {} after it was pressed, at {}", s(d), s(l.t))));
            break;
        }
    }
}

/// C12
fn visits(case: &Case, m: &Meta, runs: &[Run], v: &mut Verdict) {
    let main = Obs::new(&runs[0], &case.sessions[0].sc);
    for x in &m.visits {
        let Some(rr) = runs.get(x.session) else { continue };
        let re = Obs::new(rr, &case.sessions[x.session].sc);
        // An aborted load that completed nevertheless may have disturbed the script
        let pre = main.text(&format!("{}pre", x.label));
        if !pre.contains("Source file") || pre.contains("<Reuse>") || pre.contains("Data from") || pre.contains("Processing time trace") {
            continue;
        }
        for i in 0..x.snaps {
            let l = format!("{}{i}", x.label);
            let (Some(a), Some(b)) = (main.screens.get(&l), re.screens.get(&l)) else { continue };
            // What counts is that all keys since the beginning of the visit had their effect in time
            let t0 = main.screens.get(&format!("{}0", x.label)).map(|q| q.0).unwrap_or(a.0);
            let tp = main.screens.get(&format!("{}pre", x.label)).map(|q| q.0).unwrap_or(t0);
            let late = main.run.of("TREAD").any(|q| q.t + 2 * S > tp && q.t <= a.0 && q.u(1) > 150 * MS);
            if late || main.stalled(t0.saturating_sub(4 * S), a.0) + main.stalled(tp.saturating_sub(2 * S), tp + S) > 400 * MS {
                break;
            }
            v.nontrivial = true;
            if a.1 != b.1 {
                let d = a.1.iter().zip(&b.1).position(|(p, q)| p != q).unwrap_or(a.1.len().min(b.1.len()));
                v.bad.push((
                    "C12.differs".into(),
                    format!(
                        "visit {} of unit {} (snapshot {l} at {}): row {d} is {:?}, a fresh application shows {:?}",
                        x.label,
                        x.unit,
                        s(a.0),
                        a.1.get(d).map(|z| z.trim()),
                        b.1.get(d).map(|z| z.trim())
                    ),
                ));
                break;
            }
            if i == 0 && !flat(&a.1).contains(&format!("clang-T{}-v0-", x.unit)) && flat(&a.1).contains("Data from") {
                v.bad.push(("C12.other".into(), format!("the trace of unit {} was asked for, another one is displayed at {}", x.unit, s(a.0))));
            }
        }
    }
}

/// C14
fn crash(case: &Case, m: &Meta, runs: &[Run], v: &mut Verdict) {
    let mut before: BTreeMap<String, Vec<u8>> = case.sessions[0]
        .sc
        .files
        .iter()
        .filter(|f| f.kind == FileKind::File)
        .map(|f| (f.path.clone(), from_latin(&f.data)))
        .collect();
    let first = before.clone();
    for (k, r) in runs.iter().enumerate() {
        let sc = effective(case, runs, k);
        let o = Obs::new(r, &sc);
        let started = o.run.lines.iter().any(|l| is_job(l)) || !clangs(&o, m).is_empty();
        if o.run.why == "crash" && started {
            v.nontrivial = true;
        }
        // A session that inherits its files logs those it did not change too
        let now: BTreeMap<String, Vec<u8>> = o.files.iter().map(|(p, x)| (p.clone(), x.2.clone())).collect();
        let get = |p: &str| now.get(p).cloned();
        if m.mode != "trace" {
            let p = &m.profile;
            let had = before.get(p).filter(|d| complete(d, m)).is_some();
            let stem = crate::tui::sibling(p, "");
            let have = now.iter().any(|(q, d)| q.starts_with(&stem) && complete(d, m));
            if had && !have {
                v.bad.push(("C14.lost".into(), format!("session {k} ({}): no complete profile is left: {}", r.why, brief(&get(p)))));
            }
            // Whatever has the name of the profile is complete
            if let Some(d) = get(p) {
                if !complete(&d, m) {
                    v.bad.push(("C14.partial".into(), format!("session {k} ({}): an incomplete profile has the name of a complete one: {}", r.why, brief(&Some(d)))));
                }
            }
            for (l, (_, rows)) in &o.screens {
                let t = table(rows);
                if !t.is_empty() && flat(rows).contains("Press H for help") && t.len() != m.units.len() {
                    v.bad.push(("C14.partial-shown".into(), format!("session {k}: an incomplete profile is displayed as complete (snapshot {l}): {t:?}")));
                }
            }
        }
        if m.mode == "trace" {
            for u in &m.units {
                let good = |d: &Vec<u8>| first.get(&u.trace) == Some(d) || u.product.iter().any(|p| !p.is_empty() && from_latin(p) == *d);
                let stem = u.trace.trim_end_matches("json");
                let had = before.get(&u.trace).is_some_and(good);
                let have = now.iter().any(|(q, d)| q.starts_with(stem) && good(d));
                if had && !have {
                    v.bad.push(("C14.lost".into(), format!("session {k} ({}): no complete copy of {} is left: {}", r.why, u.trace, brief(&get(&u.trace)))));
                }
            }
        }
        before = now;
    }
}

/// Text of the dialog on the screen
pub fn dialog(rows: &[String]) -> Option<String> {
    let rows: Vec<Vec<char>> = rows.iter().map(|r| r.chars().collect()).collect();
    let (y, x0) = rows.iter().enumerate().find_map(|(y, r)| r.iter().position(|c| *c == '┌').map(|x| (y, x)))?;
    let x1 = rows[y].iter().skip(x0).position(|c| *c == '┐')? + x0;
    let mut o = vec![];
    for r in &rows[y + 1..] {
        if r.get(x0) == Some(&'└') {
            break;
        }
        o.push(r.iter().skip(x0 + 1).take(x1 - x0 - 1).collect::<String>());
    }
    Some(flat(&o))
}

/// What the user is told about a product
#[derive(Clone, Debug, PartialEq, Eq)]
enum Say {
    Error,
    New,
    Stale,
    Maybe(Option<i64>),
    Nothing,
}

fn age_text(mins: Option<i64>) -> String {
    let Some(m) = mins else { return "There is an existing build profile. Do you consider it up to date?".into() };
    let (h, d) = (m / 60, m / 1440);
    let a = if d > 1 {
        format!("{d} days")
    } else if d == 1 {
        "1 day".into()
    } else if h > 0 {
        format!("{h}h")
    } else {
        format!("{m}min")
    };
    format!("There is an existing build profile from {a} ago. Do you consider it up to date?")
}

/// C08: prompts
fn prompts(o: &Obs, m: &Meta, v: &mut Verdict) {
    let mtime = |p: &str| -> Result<i64, i32> {
        if let Some(f) = o.sc.faults.rules.iter().find(|f| f.op == "stat" && f.path == p) {
            return Err(f.errno);
        }
        o.sc.files.iter().rev().find(|f| f.path == p).map(|f| f.mtime).ok_or(libc::ENOENT)
    };
    let db = "/work/compile_commands.json".to_string();
    // Acceptable announcements between two moments
    let expect = |product: &str, deps: &[String], explicit: bool, a: u64, b: u64| -> Vec<Say> {
        let t = match mtime(product) {
            Ok(t) => t,
            Err(libc::ENOENT) => return vec![Say::New],
            Err(_) => return vec![Say::Error],
        };
        let ds: Vec<_> = deps.iter().map(|d| mtime(d)).collect();
        let newer = ds.iter().any(|d| matches!(d, Ok(x) if *x > t));
        if ds.iter().any(|d| d.is_err()) {
            return if newer { vec![Say::Error, Say::Stale] } else { vec![Say::Error] };
        }
        if newer {
            return vec![Say::Stale];
        }
        let mut out = vec![];
        for now in [a, b] {
            let age = o.sc.realtime + now as i64 - t;
            let mins = if age < 0 { None } else { Some(age / (60 * S as i64)) };
            out.push(if mins == Some(0) || explicit { Say::Nothing } else { Say::Maybe(mins) });
        }
        out
    };
    let said = |label: &str| -> Option<(u64, Option<String>, String)> {
        let (t, rows) = o.screens.get(label)?;
        Some((*t, dialog(rows), flat(rows)))
    };
    let read = |d: &Option<String>| -> Option<Say> {
        let Some(d) = d else { return Some(Say::Nothing) };
        if d.starts_with("Failed to") {
            return Some(Say::Error);
        }
        if d.starts_with("It looks like this build has not been profiled yet.") && d.contains("<Yes>") && d.contains("<No>") {
            return Some(Say::New);
        }
        if !d.contains("<Reuse>") || !d.contains("<Measure>") {
            return None;
        }
        if d.starts_with("There is an existing build profile, but it is not up to date with respect to current source code.") {
            return Some(Say::Stale);
        }
        let text = d.split('<').next().unwrap_or("").trim().to_string();
        if text == age_text(None) {
            return Some(Say::Maybe(None));
        }
        // Invert the announcement by trying all that are possible
        for k in 0..2000i64 {
            for mins in [k, k * 60, k * 1440] {
                if text == age_text(Some(mins)) {
                    return Some(Say::Maybe(Some(mins)));
                }
            }
        }
        None
    };
    let same = |a: &Say, b: &Say| match (a, b) {
        (Say::Maybe(x), Say::Maybe(y)) => age_text(*x) == age_text(*y),
        _ => a == b,
    };
    let jobs = |a: u64, b: u64| o.run.of("SPAWN").chain(o.run.of("SPAWNERR")).filter(|l| l.t >= a && l.t < b && !l.f.iter().any(|x| x.contains("--version"))).count();
    let Some((t, d, all)) = said("prompt") else { return };
    if !o.settled("prompt") {
        return;
    }
    v.nontrivial = true;
    let mut deps = vec![db.clone()];
    deps.extend(m.units.iter().map(|u| u.file.clone()));
    let want = expect(&m.profile, &deps, m.explicit, 0, t);
    let got = read(&d);
    if !got.as_ref().is_some_and(|g| want.iter().any(|w| same(w, g))) {
        v.bad.push(("C08.prompt".into(), format!("at the start the user is told {:?}, expected {want:?} for {} ({:?})", d, m.profile, mtime(&m.profile))));
        return;
    }
    let got = got.unwrap();
    if got == Say::Nothing && !all.contains("Source file") {
        v.bad.push(("C08.prompt".into(), format!("nothing is asked at the start but the profile is not displayed: {all}")));
        return;
    }
    let n = jobs(0, t);
    if n > 0 {
        v.bad.push(("C08.unasked".into(), format!("{n} processes were started before the user has agreed")));
    }
    let creates = |label: &str, g: &Say| match (label, g) {
        (_, Say::Error | Say::Nothing) => None,
        ("default", Say::New) | ("other", Say::Stale | Say::Maybe(_)) => Some(true),
        _ => Some(false),
    };
    for label in ["default", "other"] {
        let Some((t2, ..)) = said(label).or_else(|| {
            // The application may have ended
            (o.run.of("KEYS").count() > 0 && o.sc.tty.as_ref().is_some_and(|y| y.user.iter().any(|s| matches!(s, UserStep::Snap(l) if l == label)))).then(|| (o.run.end_time() + 1, None, String::new()))
        }) else {
            continue;
        };
        let n = jobs(t, t2);
        if let Some(c) = creates(label, &got) {
            if c != (n > 0) {
                v.bad.push(("C08.answer".into(), format!("the {label} answer to {got:?} started {n} jobs")));
            }
        }
        return;
    }
    let Some((t1, _, table)) = said("table") else { return };
    let Some((t, d, all)) = said("tprompt") else { return };
    if !o.settled("tprompt") || !o.settled("table") || !table.contains("Source file") || dialog(&o.screens["table"].1).is_some() || !matches!(got, Say::Maybe(_) | Say::Stale | Say::Nothing) {
        return;
    }
    let u = &m.units[m.target];
    let mut want = expect(&u.trace, &[db, u.file.clone()], false, t1, t);
    if mtime(&u.file).is_err() {
        // The path of the source file may be examined first
        want.push(Say::Error);
    }
    let got = read(&d);
    if !got.as_ref().is_some_and(|g| want.iter().any(|w| same(w, g))) {
        v.bad.push(("C08.prompt".into(), format!("for the trace {} ({:?}) the user is told {:?}, expected {want:?}", u.trace, mtime(&u.trace), d)));
        return;
    }
    let got = got.unwrap();
    if got == Say::Nothing && !all.contains("Data from") {
        v.bad.push(("C08.prompt".into(), format!("nothing is asked but the trace is not displayed: {all}")));
        return;
    }
    let n = jobs(0, t);
    if n > 0 {
        v.bad.push(("C08.unasked".into(), format!("{n} processes were started before the user has agreed")));
    }
    for label in ["tdefault", "tother"] {
        let Some((t2, ..)) = said(label) else { continue };
        if let Some(c) = creates(&label[1..], &got) {
            let n = jobs(t, t2);
            if c != (n > 0) {
                v.bad.push(("C08.answer".into(), format!("the {} answer to {got:?} started {n} compilers", &label[1..])));
            }
        }
    }
}

/// C17
fn start(o: &Obs, m: &Meta, v: &mut Verdict) {
    if let Some(p) = o.panic() {
        v.bad.push(("C17.panic".into(), p));
        return;
    }
    // Nothing is done but asking for the version
    if let Some(l) = o.run.lines.iter().find(|l| (l.k == "SPAWN" && !l.s(3).contains("--version")) || (l.k == "SPAWNERR" && !l.s(1).contains("--version"))) {
        v.bad.push(("C17.started".into(), format!("{} {} was started at {}", l.s(3), l.s(1), s(l.t))));
    }
    let paths: BTreeSet<String> = o.files.keys().cloned().chain(o.sc.files.iter().filter(|f| f.kind == FileKind::File).map(|f| f.path.clone())).collect();
    if let Some(p) = paths.iter().find(|p| o.run.of("FILE").next().is_some() && o.files.contains_key(*p) && o.last(p) != o.initial(p)) {
        v.bad.push(("C17.touched".into(), format!("{p} changed")));
    }
    if let Some(l) = o.run.lines.iter().find(|l| matches!(l.k.as_str(), "RENAME" | "UNLINK") || (l.k == "WRITE" && l.s(0).starts_with("/work"))) {
        v.bad.push(("C17.touched".into(), format!("{} {} at {}", l.k, l.s(0), s(l.t))));
    }
    let Some((t, rows)) = o.screens.get("start") else { return };
    let lost = o.stalled(0, *t) + o.slow.iter().map(|(_, d)| d).sum::<u64>();
    if lost > 4 * S {
        return;
    }
    v.nontrivial = m.prompt != "";
    let text = flat(rows);
    let fine = text.contains("<Yes>") || text.contains("<Measure>") || text.contains("Press H for help");
    let got = if text.contains("Failed to process input") {
        "input"
    } else if text.contains("compilation database") && text.contains("<Quit>") {
        "database"
    } else if text.contains("clang") && text.contains("<Quit>") {
        "clang"
    } else if text.contains("profile") && text.contains("<Quit>") {
        "profile"
    } else if fine {
        ""
    } else {
        "?"
    };
    // A fault that is announced by "?" may not have taken effect
    let struck = |what: &str| o.run.of("FAULT").any(|l| l.t < *t && l.s(1).contains(what));
    let mut want = m.prompt.as_str();
    if let Some(rest) = want.strip_prefix("database?") {
        want = if struck("compile_commands") { "database" } else { rest };
    }
    if want == "profile?" {
        want = if struck("cmakeperf") { "profile" } else { "" };
    }
    if want == "input?" {
        want = if struck(".json") { "input" } else { "" };
    }
    if got != want {
        v.bad.push(("C17.verdict".into(), format!("expected {want:?}, {got:?} is displayed at {}: {}", s(*t), text.chars().take(400).collect::<String>())));
        return;
    }
    if got == "clang" {
        // The reason is told
        let p = &o.sc.programs[0];
        let reason = if p.errno == libc::ENOENT { "not find" } else if p.errno == 0 && matches!(p.script.ops.last(), Some(Op::Exit(0))) { "" } else if p.errno == 0 { "status" } else { "error" };
        if !text.replacen("Did not find a clang version suitable", "", 1).contains(reason) {
            v.bad.push(("C17.reason".into(), format!("the message does not tell the reason ({reason}): {}", text.chars().take(400).collect::<String>())));
        }
    }
    if text.contains("<Quit>") {
        let Some(k) = o.run.of("KEYS").find(|l| l.t >= *t) else { return };
        if o.screens.get("acknowledged").is_some_and(|(b, _)| o.stalled(k.t, *b) < 4 * S) {
            v.bad.push(("C17.linger".into(), "the application does not end after the user has acknowledged the message".into()));
        } else if o.run.why == "exit" && (o.run.code != 0 || o.run.signal != 0) {
            v.bad.push(("C17.status".into(), format!("exit status {} signal {}", o.run.code, o.run.signal)));
        }
    }
}

pub fn judge(case: &Case, runs: &[Run]) -> Verdict {
    let mut v = Verdict { bad: vec![], nontrivial: false };
    let m: Meta = serde_json::from_value(case.meta.clone()).unwrap();
    let o = Obs::new(&runs[0], &case.sessions[0].sc);
    match case.prop.as_str() {
        "C08" => prompts(&o, &m, &mut v),
        "C10" => build(&o, &m, &mut v),
        "C11" => trace(&o, &m, &mut v),
        "C12" => visits(case, &m, runs, &mut v),
        "C13" => robust(&o, &m, &mut v),
        "C14" => crash(case, &m, runs, &mut v),
        "C17" => start(&o, &m, &mut v),
        p => panic!("unknown property {p}"),
    }
    v
}
