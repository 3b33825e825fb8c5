//! Oracles for C01–C07.
use crate::gen::*;
use crate::meas::*;
use crate::run::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub struct Verdict {
    /// (stable code, explanation)
    pub bad: Vec<(String, String)>,
    pub nontrivial: bool,
}

fn s(t: u64) -> f64 {
    t as f64 / 1e9
}

/// Parse a CSV file (RFC 4180)
pub fn csv(data: &[u8]) -> Result<Vec<Vec<String>>, String> {
    let mut rows = Vec::new();
    let mut row: Vec<String> = Vec::new();
    let mut f: Vec<u8> = Vec::new();
    let mut q = false;
    let mut i = 0;
    let mut any = false;
    while i < data.len() {
        let c = data[i];
        any = true;
        if q {
            if c == b'"' {
                if data.get(i + 1) == Some(&b'"') {
                    f.push(b'"');
                    i += 1;
                } else {
                    q = false;
                }
            } else {
                f.push(c);
            }
        } else {
            match c {
                b'"' => q = true,
                b',' => row.push(String::from_utf8_lossy(&std::mem::take(&mut f)).into_owned()),
                b'\n' => {
                    row.push(String::from_utf8_lossy(&std::mem::take(&mut f)).into_owned());
                    rows.push(std::mem::take(&mut row));
                    any = false;
                }
                b'\r' => {}
                _ => f.push(c),
            }
        }
        i += 1;
    }
    if any {
        return Err("last line is incomplete".into());
    }
    Ok(rows)
}

pub fn judge(case: &Case, runs: &[Run]) -> Verdict {
    let run = &runs[0];
    let ws = worlds(case, run);
    let mut v = Verdict { bad: vec![], nontrivial: false };
    if run.signal != 0 && !run.ended {
        v.bad.push((format!("{}.crash", case.prop), format!("the program died of signal {}", run.signal)));
        return v;
    }
    let total = ws.len();
    for (i, w) in ws.iter().enumerate() {
        let last = i + 1 == total;
        match case.prop.as_str() {
            "C01" => c01(w, &mut v),
            "C02" => c02(w, &mut v),
            "C03" => c03(w, &mut v),
            "C04" => c04(w, &mut v),
            "C05" => c05(w, &mut v),
            "C06" => c06(w, &mut v, case),
            "C07" => c07(w, &mut v, run, last),
            _ => unreachable!(),
        }
    }
    v
}

fn c01(w: &World, v: &mut Verdict) {
    let mut bad = |c: &str, m: String| v.bad.push((format!("C01.{c}"), m));
    if w.done.len() > 1 {
        bad("completed-twice", format!("completion reported {} times", w.done.len()));
    }
    if w.done.is_empty() {
        if w.dropped.is_some() {
            bad("never-completed", "the measurement was dropped without reporting completion".into());
        }
        return;
    }
    let d = &w.done[0];
    if w.steps.iter().any(|st| st.0 > d.0) || w.last_step_line > d.4 {
        bad("late-step", "progress was notified after completion".into());
    }
    if d.2 != "ok" {
        return;
    }
    v.nontrivial |= w.jobs.len() >= 2 && w.limit >= 2;
    if w.last_write.map_or(false, |l| l > d.4) {
        bad("late-write", "the profile was written after completion was reported".into());
    }
    if w.steps.len() != w.jobs.len() {
        bad("steps", format!("{} progress notifications for {} jobs", w.steps.len(), w.jobs.len()));
    }
    let Some(data) = &w.csv else {
        bad("no-file", "success reported but there is no profile".into());
        return;
    };
    let rows = match csv(data) {
        Ok(r) => r,
        Err(e) => {
            bad("partial", format!("profile is not a complete CSV file: {e}"));
            return;
        }
    };
    if w.jobs.is_empty() && rows.is_empty() {
        return;
    }
    if rows.first().map(|r| r.join(",")) != Some("file,max_rss,time".into()) && !w.jobs.is_empty() {
        bad("header", format!("unexpected profile header {:?}", rows.first()));
        return;
    }
    let mut want: BTreeMap<String, i64> = BTreeMap::new();
    for j in &w.jobs {
        *want.entry(rel(&j.file, "/work")).or_insert(0) += 1;
    }
    for r in rows.iter().skip(1) {
        if r.len() != 3 || r[1].parse::<u64>().is_err() {
            bad("malformed", format!("malformed record {r:?}"));
            return;
        }
        *want.entry(r[0].clone()).or_insert(0) -= 1;
    }
    for (f, n) in want {
        if n > 0 {
            bad("missing-record", format!("no record for {f}"));
        } else if n < 0 {
            bad("extra-record", format!("too many or unexpected records for {f}"));
        }
    }
}

fn c02(w: &World, v: &mut Verdict) {
    let mut bad = |c: &str, m: String| v.bad.push((format!("C02.{c}"), m));
    let Some(d) = w.done.first() else { return };
    let noprog = w.jobs.iter().any(|j| j.fail == "noprog");
    let fails = w.failures();
    v.nontrivial |= !fails.is_empty() || noprog || w.jobs.len() >= 2;
    match d.2.as_str() {
        "ok" => {
            if let Some(f) = fails.first() {
                bad("false-success", format!("success reported although {} at {:.6}", f.2, s(f.0)));
            } else if let Some(j) = w.jobs.iter().find(|j| !j.fail.is_empty()) {
                bad("false-success", format!("success reported although the job for {} cannot succeed ({})", j.file, j.fail));
            }
        }
        "job" => {
            if !fails.iter().any(|f| f.0 <= d.0 && !f.2.contains("profile")) && !noprog {
                bad("false-failure", format!("job failure reported ({}) but no job failed", d.3));
            }
        }
        "csv" | "io" => {
            if w.disk_faults.is_empty() {
                bad("false-failure", format!("profile error reported ({}) but there was none", d.3));
            }
        }
        "killed" => {
            if !w.drop.map_or(false, |t| t.0 <= d.0) {
                bad("false-failure", "reported as killed without having been".into());
            }
        }
        "oom" => {
            if w.meminfo.iter().map(|m| m.2).min().unwrap_or(u64::MAX) > 100_000_000 * (w.limit + w.bkg) as u64
                && !big_drop(w)
            {
                bad("false-failure", "out of memory reported although there was plenty".into());
            }
        }
        o => bad("false-failure", format!("unexpected outcome {o}: {}", d.3)),
    }
    // Reaction to the first failure
    let killed = w.drop.map_or(false, |t| t.0 <= d.0);
    if let Some(f) = fails.first() {
        if !killed && d.2 != "oom" && d.0 >= f.0 {
            let fb = (f.0, f.1);
            let lagged = if f.2.contains("ended") { w.clock.lag.min(w.interval) } else { 0 };
            let late = w.clock.idle(fb, (d.0, d.1));
            let lim = 2 * w.interval + 30 * MS + lagged;
            // Job output that is still open delays the end of a job
            let t_open = w
                .procs
                .values()
                .filter(|p| p.spawn.0 <= f.0 && p.kills.is_empty() && w.orphan(p.serial, d.0))
                .filter_map(|p| p.exit.map(|e| e.0).or(Some(w.end.0)))
                .max()
                .unwrap_or(0);
            if late > lim && t_open <= f.0 {
                bad("late-failure", format!("{} at {:.6} but failure was reported at {:.6}", f.2, s(f.0), s(d.0)));
            }
            for &r in &w.roots {
                let p = &w.procs[&r];
                if p.spawn.0 > f.0 && w.clock.idle(fb, p.spawn) > 10 * MS + lagged && t_open <= f.0 {
                    bad("started-after-failure", format!("{} at {:.6} but job {:?} was started at {:.6}", f.2, s(f.0), p.job, s(p.spawn.0)));
                    break;
                }
            }
        }
    }
    if d.2 != "ok" {
        if let Some(x) = w.left_behind(d.0).first() {
            bad("left-running", format!("failure reported at {:.6} while job process {x} of job {:?} was left running", s(d.0), w.procs[x].job));
        }
    }
}

/// Largest drop of available memory between two samples
fn big_drop(w: &World) -> bool {
    max_drop(w, u64::MAX) > 100_000_000 * (1 + w.bkg) as u64
}
fn max_drop(w: &World, t: u64) -> u64 {
    w.meminfo.windows(2).filter(|p| p[1].0 <= t).map(|p| p[0].2.saturating_sub(p[1].2)).max().unwrap_or(0)
}

fn c03(w: &World, v: &mut Verdict) {
    let mut bad = |c: &str, m: String| v.bad.push((format!("C03.{c}"), m));
    v.nontrivial |= w.roots.len() >= 2;
    let mut seen: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
    for &r in &w.roots {
        let p = &w.procs[&r];
        let Some(j) = p.job.filter(|&j| j < w.jobs.len()) else {
            bad("unknown-job", format!("started {:?}, which is not in the database", p.argv));
            continue;
        };
        let job = &w.jobs[j];
        if p.argv != job.argv {
            bad("argv", format!("started {:?} instead of {:?}", p.argv, job.argv));
        }
        if p.cwd != job.dir {
            bad("cwd", format!("job {j} was started in {} instead of {}", p.cwd, job.dir));
        }
        for q in seen.entry(j).or_default().iter() {
            let q = &w.procs[q];
            if !q.tries.iter().any(|&k| k <= p.spawn.0) {
                bad("repeated", format!("job {j} was started again at {:.6} without having been preempted", s(p.spawn.0)));
            }
        }
        seen.get_mut(&j).unwrap().push(r);
        let live: Vec<u64> = w
            .roots
            .iter()
            .copied()
            .filter(|q| {
                let q = &w.procs[q];
                q.spawn.0 <= p.spawn.0 && q.serial <= p.serial && q.live(p.spawn.0) && !q.kills.iter().any(|k| k.0 <= p.spawn.0)
            })
            .collect();
        if live.len() > w.limit {
            bad("concurrency", format!("{} jobs run at {:.6} with a limit of {}", live.len(), s(p.spawn.0), w.limit));
        }
    }
    // Idle slots
    let stop = [
        w.failures().first().map(|f| f.0),
        w.drop.map(|d| d.0),
        w.done.first().map(|d| d.0),
        w.procs.values().filter_map(|p| p.killed_at()).min(),
        model(w).first_stop,
    ]
    .into_iter()
    .flatten()
    .min()
    .unwrap_or(w.end.0);
    // Jobs are over when all their processes are. After the k-th end, the slot is used again by the (k + limit)-th job
    // at the latest (several slots that are idle for a moment in turn are fine).
    let noprog = w.jobs.iter().filter(|j| j.fail == "noprog").count();
    let mut ev: Vec<(u64, u64)> = vec![w.start];
    for p in w.procs.values() {
        ev.push(p.spawn);
        ev.extend(p.exit.map(|e| (e.0, e.1)));
    }
    let last = ev.into_iter().filter(|e| e.0 <= stop).max().unwrap_or(w.start);
    let mut free: Vec<(u64, u64)> = vec![w.start; w.limit];
    let mut over: Vec<(u64, u64)> = w
        .roots
        .iter()
        .filter_map(|&r| {
            let t = w.tree(r);
            let ends: Option<Vec<(u64, u64)>> = t.iter().map(|q| w.procs[q].exit.map(|e| (e.0, e.1))).collect();
            ends.and_then(|e| e.into_iter().max())
        })
        .collect();
    over.sort();
    free.extend(over);
    let mut starts: Vec<(u64, u64)> = w.roots.iter().map(|r| w.procs[r].spawn).collect();
    starts.sort();
    for (k, f) in free.iter().enumerate() {
        if k >= w.jobs.len() || noprog > 0 {
            break;
        }
        let e = match starts.get(k) {
            Some(&e) if e.0 <= stop => e,
            _ => last,
        };
        if e.0 > f.0 && w.clock.idle(*f, e) > 20 * MS + w.clock.lag.min(w.interval + 10 * MS) {
            bad("idle-slot", format!("a slot stayed idle from {:.6} to {:.6} although jobs were waiting", s(f.0), s(e.0)));
            break;
        }
    }
}

fn c04(w: &World, v: &mut Verdict) {
    let mut bad = |c: &str, m: String| v.bad.push((format!("C04.{c}"), m));
    let Some(t) = w.drop else { return };
    if w.done.len() > 1 {
        bad("completed-twice", "completion reported more than once".into());
    }
    if !w.m.kill {
        return;
    }
    v.nontrivial |= w.roots.iter().any(|r| w.procs[r].live(t.0));
    let lim = 2 * w.interval + w.interval / 4 + 30 * MS + w.clock.lag.min(w.interval);
    let Some(e) = w.dropped else {
        if w.why == "exit" || w.clock.idle(t, w.end) > lim {
            bad("drop-hangs", format!("the handle was dropped at {:.6} and drop never returned", s(t.0)));
        }
        return;
    };
    let i = w.clock.idle(t, e);
    if i > lim {
        bad("slow-drop", format!("drop took from {:.6} to {:.6}", s(t.0), s(e.0)));
    }
    for &r in &w.roots {
        let p = &w.procs[&r];
        if p.spawn.0 > e.0 {
            bad("started-after-drop", format!("job {:?} was started at {:.6}, after drop returned at {:.6}", p.job, s(p.spawn.0), s(e.0)));
        }
    }
    if let Some(x) = w.left_behind(e.0).first() {
        let p = &w.procs[x];
        bad(
            "left-running",
            format!("drop returned at {:.6} but process {x} of job {:?}, started at {:.6}, was left running", s(e.0), p.job, s(p.spawn.0)),
        );
    }
    match w.done.first() {
        None => bad("no-completion", "drop returned without completion having been reported".into()),
        Some(d) => {
            if d.0 > e.0 {
                bad("late-completion", "completion was reported after drop returned".into());
            }
            if d.0 >= t.0 && d.2 != "killed" {
                let all = w.steps.len() == w.jobs.len();
                let failed = !w.failures().is_empty() || w.jobs.iter().any(|j| j.fail == "noprog");
                let okay = match d.2.as_str() {
                    "ok" => all,
                    "oom" => model(w).all_stopped.is_some(),
                    "job" | "csv" | "io" => failed,
                    _ => false,
                };
                if !okay {
                    bad("wrong-result", format!("a killed measurement was reported as {} ({})", d.2, d.3));
                }
            }
        }
    }
}

pub struct Model {
    /// Cumulated stop requests: (time, busy, count, everyone)
    pub stops: Vec<(u64, u64, usize)>,
    pub first_stop: Option<u64>,
    pub all_stopped: Option<(u64, u64)>,
    /// Highest safety margin so far: (time, margin)
    pub margins: Vec<(u64, u64)>,
}

/// Reference model of the memory safety margin
pub fn model(w: &World) -> Model {
    let mut m = Model { stops: vec![], first_stop: None, all_stopped: None, margins: vec![] };
    let mut active = w.limit as u64;
    let bkg = w.bkg as u64;
    let mut margin = 100_000_000 * (active + bkg);
    let mut last: Option<u64> = None;
    for (i, &(t, b, av)) in w.meminfo.iter().enumerate() {
        if i < 2 {
            last = Some(av);
            continue;
        }
        let drop = last.unwrap().saturating_sub(av);
        last = Some(av);
        if drop > margin {
            margin = (drop / (active + bkg) + 1) * (active + bkg);
        }
        m.margins.push((t, margin));
        let mut n = 0;
        while av < margin && active > 0 {
            margin = margin / (active + bkg) * (active + bkg - 1);
            active -= 1;
            n += 1;
        }
        if n > 0 {
            m.first_stop.get_or_insert(t);
            m.stops.push((t, b, n));
            if active == 0 {
                m.all_stopped = Some((t, b));
                break;
            }
        }
    }
    m
}

fn c05(w: &World, v: &mut Verdict) {
    let mut bad = |c: &str, m: String| v.bad.push((format!("C05.{c}"), m));
    let md = model(w);
    let Some(d) = w.done.first() else { return };
    v.nontrivial |= md.first_stop.is_some();
    // End of normal operation
    let fail = w.failures().first().map(|f| f.0).unwrap_or(u64::MAX).min(w.drop.map(|x| x.0).unwrap_or(u64::MAX));
    if w.jobs.iter().any(|j| j.fail == "noprog") {
        return;
    }
    let total: usize = md.stops.iter().map(|x| x.2).sum();
    // Preempted jobs, in time order
    let mut pre: Vec<(u64, u64)> =
        w.roots.iter().filter_map(|&r| w.procs[&r].killed_at().map(|t| (t, r))).filter(|k| k.0 < fail).collect();
    pre.sort();
    for (i, &(t, r)) in pre.iter().enumerate() {
        let avail: usize = md.stops.iter().filter(|x| x.0 <= t).map(|x| x.2).sum();
        if i + 1 > avail {
            let low = w.meminfo.iter().filter(|x| x.0 <= t).map(|x| x.2).min().unwrap_or(0);
            let mg = md.margins.iter().filter(|x| x.0 <= t).map(|x| x.1).max().unwrap_or(0);
            bad(
                "needless",
                format!(
                    "job {:?} was preempted at {:.6}: {} preemptions but available memory (lowest {low}, margin up to {mg}) asked for {avail}",
                    w.procs[&r].job,
                    s(t),
                    i + 1
                ),
            );
            break;
        }
    }
    // Youngest first
    if w.clock.total() == 0 && w.clock.lag == 0 {
        for &(t, r) in &pre {
            let p = &w.procs[&r];
            let req = md.stops.iter().filter(|x| x.0 <= t).map(|x| x.0).last().unwrap_or(t);
            for &q in &w.roots {
                let q = &w.procs[&q];
                let together = q.killed_at().map_or(false, |k| k < t + 2 * w.interval);
                let over = q.exit.map_or(false, |e| e.0 < t + 2 * w.interval);
                if q.spawn.0 < req && q.spawn.0 > p.spawn.0 + 3 * w.interval && q.live(t) && !together && !over {
                    bad(
                        "not-youngest",
                        format!(
                            "job {:?} started at {:.6} was preempted at {:.6} while job {:?} started at {:.6} went on",
                            p.job,
                            s(p.spawn.0),
                            s(t),
                            q.job,
                            s(q.spawn.0)
                        ),
                    );
                }
            }
        }
    }
    // Promptness: with no idle worker, each stop request ends a job
    if let Some(&(t, b, _)) = md.stops.first() {
        let n = md.stops[0].2;
        let running: Vec<&Proc> = w.roots.iter().map(|r| &w.procs[r]).filter(|p| p.live(t)).collect();
        let lim = w.interval + w.interval / 4 + 20 * MS + w.clock.lag.min(w.interval);
        if t < fail && running.len() == w.limit && w.end.0 > t {
            // Every worker busy with a process: at least one job must be preempted, unless
            // enough of them end by themselves in the meantime
            let mut reacted = 0;
            for p in w.roots.iter().map(|r| &w.procs[r]) {
                let a = p.kills.first().map(|k| (k.0, k.1));
                let e = p.exit.map(|e| (e.0, e.1));
                let x = match (a, e) {
                    (Some(a), _) => Some(a),
                    (None, e) => e,
                };
                if let Some(x) = x {
                    if x.0 >= t && w.clock.idle((t, b), x) <= lim {
                        reacted += 1;
                    }
                }
            }
            let over = w.clock.idle((t, b), w.end) > lim;
            if reacted < n && over && fail > t + lim + w.clock.stalled(t, t + 10 * lim) {
                bad(
                    "late",
                    format!("{n} workers had to stop at {:.6} but only {reacted} jobs were preempted or ended soon after", s(t)),
                );
            }
        }
    }
    // Out of memory
    if d.2 == "oom" && md.all_stopped.is_none() {
        bad("early-oom", format!("out of memory was reported although only {total} of {} workers had to stop", w.limit));
    }
    if let Some(a) = md.all_stopped {
        if d.2 == "ok" && d.0 > a.0 && w.steps.last().map_or(false, |x| w.clock.idle(a, (x.0, x.1)) > 2 * w.interval) {
            bad("no-oom", "every worker had to stop but the measurement went on".into());
        }
        if d.2 == "oom" {
            let i = w.clock.idle(a, (d.0, d.1));
            if i > 2 * w.interval + 30 * MS + w.clock.lag.min(w.interval) && d.0 < fail {
                bad("late-oom", format!("out of memory was known at {:.6} and reported at {:.6}", s(a.0), s(d.0)));
            }
        }
    }
    // Everything preempted is run again
    if d.2 == "ok" {
        for (_, r) in &pre {
            let p = &w.procs[r];
            let again = w.roots.iter().any(|q| {
                let q = &w.procs[q];
                q.job == p.job && q.spawn.0 > p.spawn.0 && q.tries.is_empty()
            });
            if !again {
                bad("not-rerun", format!("job {:?} was preempted and never run again", p.job));
            }
        }
    }
    if d.2 == "job" && w.failures().is_empty() {
        bad("preemption-failed-build", format!("job failure reported without any: {}", d.3));
    }
    if d.2 == "panic" {
        bad("panic", d.3.clone());
    }
}

fn c06(w: &World, v: &mut Verdict, case: &Case) {
    let mut bad = |c: &str, m: String| v.bad.push((format!("C06.{c}"), m));
    if w.result() != Some("ok") {
        return;
    }
    let Some(data) = &w.csv else { return };
    let Ok(rows) = csv(data) else { return };
    let mut byfile: BTreeMap<String, usize> = BTreeMap::new();
    for (i, j) in w.jobs.iter().enumerate() {
        if w.jobs.iter().filter(|k| k.file == j.file).count() == 1 {
            byfile.insert(rel(&j.file, "/work"), i);
        }
    }
    let iv = w.interval;
    for r in rows.iter().skip(1) {
        if r.len() != 3 {
            continue;
        }
        let Some(&j) = byfile.get(&r[0]) else { continue };
        let Some(&root) = w.roots.iter().filter(|r| w.procs[r].job == Some(j) && w.procs[r].tries.is_empty()).last() else {
            bad("no-run", format!("{} has a record but no run of it was completed", r[0]));
            continue;
        };
        let Ok(rec) = r[1].parse::<u64>() else { continue };
        let p = &w.procs[&root];
        let Some(exit) = p.exit else {
            bad("not-ended", format!("{} has a record but its process has not ended", r[0]));
            continue;
        };
        let tree: Vec<&Proc> = w.tree(root).iter().map(|q| &w.procs[q]).collect();
        // Upper bound: processes are read one after another
        let delta = MS + w.clock.total() + 20 * MS * (case.sessions[0].sc.sched.call_cost / 1000);
        let mut pts: Vec<u64> = vec![p.spawn.0];
        for q in &tree {
            pts.extend(q.rss.iter().map(|x| x.0));
        }
        pts.sort();
        pts.dedup();
        let upper = pts
            .iter()
            .map(|&t| tree.iter().map(|q| q.rss_max(t.saturating_sub(delta), t + delta)).sum::<u64>())
            .max()
            .unwrap_or(0);
        if rec > upper {
            bad("too-much", format!("{}: recorded peak {rec} exceeds the real one, {upper}", r[0]));
        }
        // Lower bound: levels sustained for two periods
        let total = w.clock.total();
        let need = 2 * iv + 5 * MS + iv / 10 + total + w.clock.lag.min(0);
        let mut lower = 0;
        for &a in &pts {
            let a = a.max(p.spawn.0);
            let b = a + need + busy_bound(w, a);
            if b > exit.0 {
                break;
            }
            let l: u64 = tree.iter().filter(|q| !w.orphan(q.serial, b)).map(|q| q.rss_min(a, b)).sum();
            lower = lower.max(l);
        }
        v.nontrivial |= lower > 0 && tree.len() > 1;
        if rec < lower {
            bad("too-little", format!("{}: recorded peak {rec} is below a level of {lower} sustained for two periods", r[0]));
        }
        // Wall time
        if !w.m.time {
            if !r[2].is_empty() {
                bad("unrequested-time", format!("{}: time {} recorded although not requested", r[0], r[2]));
            }
        } else {
            match r[2].parse::<f64>() {
                Err(_) => bad("no-time", format!("{}: no wall time recorded", r[0])),
                Ok(t) => {
                    let real = (exit.0 - p.spawn.0) as f64 / 1e9;
                    let extra = w.clock.stalled(p.spawn.0.saturating_sub(2 * crate::gen::S), exit.0 + 3 * crate::gen::S);
                    let slack = (10 * MS + iv.min(w.clock.lag + 5 * MS) + w.clock.lag + extra) as f64 / 1e9
                        + (busy_bound(w, p.spawn.0) as f64 + (exit.1 - p.spawn.1) as f64) / 1e9;
                    if t < real * (1.0 - 1e-5) - 1e-6 {
                        bad("time-short", format!("{}: recorded {t} s but the job ran for {real} s", r[0]));
                    } else if t > real * (1.0 + 1e-5) + slack {
                        bad("time-long", format!("{}: recorded {t} s but the job ran for {real} s", r[0]));
                    }
                }
            }
        }
    }
}

/// Generous allowance for execution time around an instant
fn busy_bound(w: &World, t: u64) -> u64 {
    // executed in the two seconds after t
    let a = w.meminfo.iter().filter(|m| m.0 <= t).last().map(|m| m.1).unwrap_or(w.start.1);
    let b = w.meminfo.iter().find(|m| m.0 >= t + 1000 * MS).map(|m| m.1).unwrap_or(w.end.1);
    b.saturating_sub(a)
}

fn c07(w: &World, v: &mut Verdict, run: &Run, last: bool) {
    let mut bad = |c: &str, m: String| v.bad.push((format!("C07.{c}"), m));
    v.nontrivial |= w.jobs.len() >= 2;
    if run.why == "deadlock" && last {
        bad("deadlock", format!("nothing can make progress any more: {}", run.of("DEADLOCK").next().map(|l| l.s(0)).unwrap_or_default()));
        return;
    }
    if run.why.starts_with("limit") && last {
        bad("livelock", format!("the run did not end within its bounds ({})", run.why));
        return;
    }
    if last && (run.why != "exit" || run.code != 0 || !w.finished) {
        bad("abnormal-end", format!("the program ended abnormally: {} with code {}", run.why, run.code));
        return;
    }
    let Some(d) = w.done.first() else {
        bad("no-completion", "completion was never reported".into());
        return;
    };
    let over = w.drop.map_or(u64::MAX, |x| x.0).min(w.failures().first().map_or(u64::MAX, |f| f.0));
    // Processes left behind by a job may hold its output open, which is waited for
    if d.2 == "ok" && !w.procs.values().any(|p| p.live(d.0)) {
        let le = w.procs.values().filter_map(|p| p.exit).filter(|e| e.0 <= d.0).max().unwrap_or((w.start.0, w.start.1, 0));
        let i = w.clock.idle((le.0, le.1), (d.0, d.1));
        let lim = 30 * MS + w.clock.lag.min(w.interval + 10 * MS);
        if i > lim {
            bad("late-completion", format!("the last job process ended at {:.6} but completion was reported at {:.6}", s(le.0), s(d.0)));
        }
    }
    // Monitoring goes on
    let stop = d.0.min(over).min(model(w).all_stopped.map_or(u64::MAX, |a| a.0));
    let mut prev = None;
    for m in w.meminfo.iter().skip(1) {
        if let Some(p) = prev {
            if m.0 > stop {
                break;
            }
            let i = w.clock.idle(p, (m.0, m.1));
            if i > w.interval + w.interval / 5 + 15 * MS {
                bad("monitoring-gap", format!("memory was not monitored from {:.6} to {:.6}", s(p.0), s(m.0)));
                break;
            }
        }
        prev = Some((m.0, m.1));
    }
    if let (Some(p), true) = (prev, stop == d.0) {
        let i = w.clock.idle(p, (d.0, d.1));
        // After a failure, only the end of the workers is waited for
        let twice = if d.2 == "ok" { 1 } else { 2 };
        if i > twice * w.interval + w.interval / 5 + 15 * MS {
            bad("monitoring-gap", format!("memory was not monitored from {:.6} to the end at {:.6}", s(p.0), s(d.0)));
        }
    }
}
