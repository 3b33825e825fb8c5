//! What happened in one measurement, reconstructed from the event log.
use crate::gen::MS;
use crate::meas::*;
use crate::run::*;
use serde_json::Value;
use simproto::Scenario;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Proc {
    pub serial: u64,
    /// Serial of the parent at creation, 0 if started by the application
    pub parent: u64,
    pub job: Option<usize>,
    pub spawn: (u64, u64),
    /// (time, busy, status)
    pub exit: Option<(u64, u64, i32)>,
    /// Signals sent before it ended: (time, busy)
    pub kills: Vec<(u64, u64)>,
    /// Requests to end that came too late included
    pub tries: Vec<u64>,
    pub rss: Vec<(u64, u64)>,
    pub argv: Vec<String>,
    pub cwd: String,
}
impl Proc {
    pub fn live(&self, t: u64) -> bool {
        self.spawn.0 <= t && self.exit.map_or(true, |e| e.0 > t)
    }
    pub fn killed_at(&self) -> Option<u64> {
        self.kills.first().map(|k| k.0)
    }
    /// RSS minimum over [a, b]; 0 if not alive all along
    pub fn rss_min(&self, a: u64, b: u64) -> u64 {
        let mut cur = 0;
        let mut m = u64::MAX;
        for &(t, v) in &self.rss {
            if t > b {
                break;
            }
            if t > a {
                m = m.min(cur);
            }
            cur = v;
        }
        m.min(cur)
    }
    pub fn rss_max(&self, a: u64, b: u64) -> u64 {
        let mut cur = 0;
        let mut m = 0;
        for &(t, v) in &self.rss {
            if t > b {
                break;
            }
            if t > a {
                m = m.max(cur);
            }
            cur = v;
        }
        m.max(cur)
    }
}

pub struct Clock {
    /// (start, end) of stalls, merged
    stalls: Vec<(u64, u64)>,
    pub lag: u64,
    pub end: u64,
}
impl Clock {
    pub fn stalled(&self, a: u64, b: u64) -> u64 {
        self.stalls.iter().map(|&(s, e)| e.min(b).saturating_sub(s.max(a))).sum()
    }
    pub fn total(&self) -> u64 {
        self.stalled(0, u64::MAX)
    }
    /// Time between two log lines that is explained neither by execution nor by stalls
    pub fn idle(&self, a: (u64, u64), b: (u64, u64)) -> u64 {
        (b.0.saturating_sub(a.0)).saturating_sub(b.1.saturating_sub(a.1)).saturating_sub(self.stalled(a.0, b.0))
    }
}

pub struct World {
    pub m: Meas,
    pub jobs: Vec<Job>,
    pub limit: usize,
    pub bkg: usize,
    pub start: (u64, u64),
    pub steps: Vec<(u64, u64, usize)>,
    /// (time, busy, result, message, line index)
    pub done: Vec<(u64, u64, String, String, usize)>,
    pub drop: Option<(u64, u64)>,
    pub dropped: Option<(u64, u64)>,
    pub procs: BTreeMap<u64, Proc>,
    /// Root processes in start order
    pub roots: Vec<u64>,
    pub spawn_errors: Vec<(u64, u64, usize)>,
    pub meminfo: Vec<(u64, u64, u64)>,
    /// Faults that hit the profile: (time, busy)
    pub disk_faults: Vec<(u64, u64)>,
    pub other_faults: usize,
    pub kooms: usize,
    pub scans: Vec<(u64, u64)>,
    pub last_write: Option<usize>,
    pub csv: Option<Vec<u8>>,
    pub clock: Clock,
    pub end: (u64, u64),
    pub finished: bool,
    /// Step notes whose order matters: line index
    pub last_step_line: usize,
    pub interval: u64,
    pub why: String,
}

fn job_of(argv: &[String]) -> Option<usize> {
    argv.iter().find_map(|a| a.strip_prefix("-DJOB=")).and_then(|s| s.parse().ok())
}

pub fn clock(run: &Run, sc: &Scenario) -> Clock {
    let mut s: Vec<(u64, u64)> = run.of("STALL").map(|l| (l.t, l.t + l.u(0))).collect();
    s.sort();
    let mut m: Vec<(u64, u64)> = Vec::new();
    for (a, b) in s {
        match m.last_mut() {
            Some(x) if a <= x.1 => x.1 = x.1.max(b),
            _ => m.push((a, b)),
        }
    }
    Clock { stalls: m, lag: sc.sched.lag_max, end: run.end_time() }
}

/// Upper bound of the (adaptive) monitoring period
pub fn interval(run: &Run, c: &Clock) -> u64 {
    // busiest second
    let mut best = 0;
    let mut j = 0;
    for l in &run.lines {
        while run.lines[j].t + 1000 * MS < l.t {
            j += 1;
        }
        best = best.max(l.b.saturating_sub(run.lines[j].b));
    }
    let late = c.total() + best;
    if late < 45 * MS {
        50 * MS
    } else {
        50 * MS + late + late / 5
    }
}

pub fn worlds(case: &Case, run: &Run) -> Vec<World> {
    let meta: Meta = serde_json::from_value(case.meta.clone()).unwrap();
    let sc = &case.sessions[0].sc;
    let files = run.files(sc);
    let mut out: Vec<World> = Vec::new();
    let mut cur: Option<World> = None;
    // All processes, whichever measurement started them
    let mut bypid: BTreeMap<i64, u64> = BTreeMap::new();
    let mut owner: BTreeMap<u64, u64> = BTreeMap::new();
    let iv = {
        let c = clock(run, sc);
        interval(run, &c)
    };
    for (li, l) in run.lines.iter().enumerate() {
        let at = (l.t, l.b);
        if l.k == "NOTE" {
            let v: Value = l.json();
            let id = v["id"].as_u64();
            match v["ev"].as_str().unwrap_or("") {
                "start" => {
                    if let Some(mut w) = cur.take() {
                        w.end = at;
                        out.push(w);
                    }
                    let m = meta.measures.iter().find(|m| Some(m.id) == id).unwrap().clone();
                    let limit = m.concurrency.unwrap_or(if m.time { 1 } else { sc.ncpu as u64 }) as usize;
                    cur = Some(World {
                        limit,
                        bkg: if m.oversub { sc.ncpu as usize } else { 1 },
                        jobs: meta.jobs.clone(),
                        start: at,
                        steps: vec![],
                        done: vec![],
                        drop: None,
                        dropped: None,
                        procs: BTreeMap::new(),
                        roots: vec![],
                        spawn_errors: vec![],
                        meminfo: vec![],
                        disk_faults: vec![],
                        other_faults: 0,
                        kooms: 0,
                        scans: vec![],
                        last_write: None,
                        csv: files.get(&m.path).map(|f| f.2.clone()),
                        clock: clock(run, sc),
                        end: at,
                        finished: false,
                        last_step_line: 0,
                        interval: iv,
                        why: run.why.clone(),
                        m,
                    });
                }
                ev => {
                    if let Some(w) = cur.as_mut() {
                        match ev {
                            "step" => {
                                w.steps.push((l.t, l.b, v["n"].as_u64().unwrap_or(0) as usize));
                                w.last_step_line = li;
                            }
                            "done" => w.done.push((
                                l.t,
                                l.b,
                                v["res"].as_str().unwrap_or("?").into(),
                                v["msg"].as_str().unwrap_or("").into(),
                                li,
                            )),
                            "drop" => w.drop = Some(at),
                            "dropped" => w.dropped = Some(at),
                            "driver-end" => w.finished = true,
                            _ => {}
                        }
                    }
                }
            }
            continue;
        }
        let Some(w) = cur.as_mut() else { continue };
        match l.k.as_str() {
            "SPAWN" => {
                let argv: Vec<String> = serde_json::from_slice(&l.raw(3)).unwrap_or_default();
                let serial = l.u(1);
                bypid.insert(l.i(0), serial);
                owner.insert(serial, w.m.id);
                w.roots.push(serial);
                w.procs.insert(
                    serial,
                    Proc {
                        serial,
                        parent: 0,
                        job: job_of(&argv),
                        spawn: at,
                        exit: None,
                        kills: vec![], tries: vec![],
                        rss: vec![],
                        argv,
                        cwd: l.s(2),
                    },
                );
            }
            "PFORK" => {
                let serial = l.u(1);
                let parent = bypid.get(&l.i(2)).copied().unwrap_or(0);
                bypid.insert(l.i(0), serial);
                if let Some(p) = w.procs.get(&parent).cloned() {
                    w.procs.insert(serial, Proc { serial, parent, spawn: at, exit: None, kills: vec![], tries: vec![], rss: vec![], ..p });
                }
            }
            "PEXIT" => {
                if let Some(p) = w.procs.get_mut(&l.u(1)) {
                    p.exit = Some((l.t, l.b, l.i(2) as i32));
                }
            }
            "KILL" => {
                if let (true, true, Some(p)) = (l.i(2) != 0, l.i(3) == 0, w.procs.get_mut(&l.u(1))) {
                    p.tries.push(l.t);
                    if l.i(4) == 0 {
                        p.kills.push(at);
                    }
                }
            }
            "RSS" => {
                if let Some(s) = bypid.get(&l.i(0)) {
                    if let Some(p) = w.procs.get_mut(s) {
                        p.rss.push((l.t, l.u(1)));
                    }
                }
            }
            "SPAWNERR" => {
                let line = l.s(1);
                let j = line
                    .split(' ')
                    .find_map(|a| a.strip_prefix("-DJOB="))
                    .and_then(|s| s.parse().ok())
                    .unwrap_or(usize::MAX);
                w.spawn_errors.push((l.t, l.b, j));
            }
            "MEMINFO" => w.meminfo.push((l.t, l.b, l.u(0))),
            "PSCAN" => w.scans.push(at),
            "KOOM" => w.kooms += 1,
            "FAULT" => {
                if l.s(1) == w.m.path {
                    w.disk_faults.push(at);
                } else {
                    w.other_faults += 1;
                }
            }
            "WRITE" => {
                if l.s(0) == w.m.path {
                    w.last_write = Some(li);
                }
            }
            _ => {}
        }
        w.end = at;
    }
    if let Some(mut w) = cur.take() {
        w.end = run.lines.last().map(|l| (l.t, l.b)).unwrap_or((0, 0));
        out.push(w);
    }
    out
}

impl World {
    pub fn result(&self) -> Option<&str> {
        self.done.first().map(|d| d.2.as_str())
    }
    pub fn done_at(&self) -> Option<(u64, u64)> {
        self.done.first().map(|d| (d.0, d.1))
    }
    pub fn tree(&self, root: u64) -> Vec<u64> {
        let mut v = vec![root];
        let mut i = 0;
        while i < v.len() {
            let p = v[i];
            v.extend(self.procs.values().filter(|q| q.parent == p).map(|q| q.serial));
            i += 1;
        }
        v
    }
    /// Did the link between this process and the application break before t?
    pub fn orphan(&self, serial: u64, t: u64) -> bool {
        let p = &self.procs[&serial];
        if p.parent == 0 {
            return false;
        }
        match self.procs.get(&p.parent) {
            None => true,
            Some(q) => {
                // a parent that ended because it was asked to does not make an orphan
                // unless that happened before the child was known
                (q.exit.map_or(false, |e| e.0 <= t) && q.kills.is_empty()) || self.orphan(p.parent, t)
            }
        }
    }
    /// Processes neither ended nor asked to end at time t
    pub fn left_behind(&self, t: u64) -> Vec<u64> {
        self.procs
            .values()
            .filter(|p| p.live(t) && !p.kills.iter().any(|k| k.0 <= t))
            .filter(|p| !self.orphan(p.serial, t))
            .filter(|p| !self.escaped(p.serial))
            .map(|p| p.serial)
            .collect()
    }
    /// Started while its parent was being terminated, or descends from such a process
    fn escaped(&self, serial: u64) -> bool {
        let p = &self.procs[&serial];
        let Some(q) = self.procs.get(&p.parent) else { return false };
        let now = q.kills.first().is_some_and(|&k| p.spawn.0 >= k.0 || self.clock.idle(p.spawn, k) < MS / 2);
        now || self.escaped(q.serial)
    }
    /// First sign that the measurement cannot succeed: (time, busy)
    pub fn failures(&self) -> Vec<(u64, u64, String)> {
        let mut v: Vec<(u64, u64, String)> = Vec::new();
        for e in &self.spawn_errors {
            v.push((e.0, e.1, format!("job {} could not be started", e.2)));
        }
        for &r in &self.roots {
            let p = &self.procs[&r];
            if let Some((t, b, st)) = p.exit {
                if st != 0 && p.tries.is_empty() {
                    v.push((t, b, format!("job {:?} ended with status {st:#x}", p.job)));
                }
            }
        }
        for d in &self.disk_faults {
            v.push((d.0, d.1, "profile could not be written".into()));
        }
        v.sort();
        v
    }
}
