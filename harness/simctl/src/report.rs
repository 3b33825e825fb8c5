//! Non-interactive report and name simplifier (C15): generator and oracle.
use crate::gen::*;
use crate::load::*;
use crate::mjudge::Verdict;
use crate::run::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simproto::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Meta {
    /// report or name
    pub kind: String,
    pub cols: u64,
    pub self_threshold: f32,
    pub tree_threshold: f32,
    /// Content of the trace, if it is valid
    pub truth: Option<Value>,
    /// The input is not valid, no session may succeed
    pub invalid: bool,
    /// Sessions which are given the same input as the first one
    pub same: Vec<bool>,
}

fn disturb(r: &mut Rng, sc: &mut Scenario) {
    sched(r, sc, true);
    if r.chance(0.8) {
        sc.faults.p_short = *r.pick(&[0.05, 0.3, 0.9, 1.0]);
    }
    if r.chance(0.5) {
        sc.faults.p_eintr = *r.pick(&[0.01, 0.1, 0.3]);
    }
}

pub fn generate(prop: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let report = r.chance(0.7);
    let mut base = Scenario { seed: mix(seed), ..Default::default() };
    base.limits.max_time = 600 * S;
    let mut meta = Meta {
        kind: if report { "report" } else { "name" }.into(),
        cols: 200,
        self_threshold: 0.5,
        tree_threshold: 0.5,
        truth: None,
        invalid: false,
        same: vec![],
    };
    let n = r.range(2, 3);
    let mut sessions = vec![];
    let path = if r.chance(0.5) { "/work/t.json" } else { "/work/out dir/trâce.json" };
    let mut entity = String::new();
    let mut stdin: Vec<u8> = vec![];
    if report {
        if r.chance(0.5) {
            meta.cols = if r.chance(0.8) { r.range(40, 250) } else { r.range(3, 40) };
            base.argv.extend(["-c".into(), meta.cols.to_string()]);
        }
        if r.chance(0.5) {
            meta.self_threshold = *r.pick(&[0.0, 0.01, 0.5, 1.0, 5.0, 30.0]);
            base.argv.push(format!("--self-threshold={}", meta.self_threshold));
        }
        if r.chance(0.5) {
            meta.tree_threshold = *r.pick(&[0.0, 0.01, 0.5, 1.0, 5.0, 30.0]);
            base.argv.extend(["-i".into(), meta.tree_threshold.to_string()]);
        }
        if r.chance(0.5) {
            base.argv.extend(["--ui".into(), "stdio".into()]);
        }
        base.argv.push(if r.chance(0.5) { path.into() } else { rel(path, "/work") });
        let size = if r.chance(0.05) { 0 } else { r.logu(1, 300) };
        let broken = r.chance(0.08);
        let t = gen_trace_of(r, size, broken, true);
        let style = r.below(3);
        let mut data = json_text(r, &t.json, style).into_bytes();
        meta.invalid = t.must_fail;
        if r.chance(0.08) {
            data.truncate(r.below(data.len() as u64) as usize);
            meta.invalid = true;
        } else if r.chance(0.02) {
            data.clear();
            meta.invalid = true;
        }
        if !meta.invalid {
            meta.truth = Some(t.truth);
        }
        let missing = r.chance(0.02);
        if missing {
            meta.invalid = true;
            meta.truth = None;
        } else {
            base.files.push(FileSpec { path: path.into(), kind: FileKind::File, data: to_latin(&data), mtime: T0, mode: 0o644 });
        }
    } else {
        meta.cols = if r.chance(0.9) { r.range(8, 160) } else { r.range(1, 8) };
        base.argv.extend(["-c".into(), meta.cols.to_string()]);
        entity = loop {
            let (n, d) = activity(r);
            match d {
                Some(d) if n.starts_with("Instantiate") || n.starts_with("Parse") || r.chance(0.1) => break d,
                None if r.chance(0.05) => break n,
                _ => {}
            }
        };
        if r.chance(0.2) {
            // Long names
            let n = r.logu(1, 60);
            entity = format!("std::tuple<{}>", vec![entity; n as usize].join(", "));
        }
        if entity.starts_with('-') {
            entity.insert(0, 'x');
        }
        if r.chance(0.3) {
            // As written by other programs
            entity.push_str(*r.pick(&["\n", "\n", " ", "\r\n"]));
        }
        stdin = entity.clone().into_bytes();
        if r.chance(0.06) {
            // Not text
            let k = r.below(stdin.len() as u64 + 1) as usize;
            stdin.insert(k, *r.pick(&[0xff, 0xc3, 0x80]));
            meta.invalid = std::str::from_utf8(&stdin).is_err();
        }
    }
    for i in 0..n {
        let mut sc = base.clone();
        sc.seed = mix3(seed, i, 99);
        let mut same = true;
        if !report {
            if (i == 0 || r.chance(0.2)) && !meta.invalid {
                sc.argv.push(entity.clone());
            } else {
                sc.stdin = Some(to_latin(&stdin));
            }
        }
        if i > 0 {
            disturb(r, &mut sc);
            // Failures of the system
            if r.chance(0.35) {
                let out = r.chance(0.5);
                let (op, p, errnos): (_, _, &[i32]) = if out {
                    ("write", "<stdout>", &[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EDQUOT, libc::EAGAIN])
                } else if report {
                    (*r.pick(&["read", "open"]), "json", &[libc::EIO, libc::EACCES, libc::ENOMEM, libc::ESTALE])
                } else {
                    ("read", "<stdin>", &[libc::EIO, libc::EAGAIN, libc::EISDIR])
                };
                let count = if r.chance(0.5) { 1 } else { 10000 };
                sc.faults.rules.push(FaultRule { op: op.into(), path: p.into(), nth: r.logu(1, 60) as u32 - 1, count, errno: *r.pick(errnos) });
                // Faults beyond the last call change nothing
                if op == "open" {
                    sc.faults.rules.last_mut().unwrap().nth = 0;
                }
            } else if report && meta.truth.is_some() && r.chance(0.08) {
                // The file is cut
                let f = sc.files.last_mut().unwrap();
                let d = from_latin(&f.data);
                f.data = to_latin(&d[..r.below(d.len() as u64) as usize]);
                same = false;
            }
        }
        meta.same.push(same);
        sessions.push(Session { bin: if report { "crofiler" } else { "simpp" }.into(), inherit: false, sc });
    }
    Case { prop: prop.into(), family: "report".into(), seed, sessions, meta: serde_json::to_value(meta).unwrap() }
}

fn stdout(run: &Run) -> Vec<u8> {
    run.of("OUT").filter(|l| l.s(0) == "1").flat_map(|l| l.raw(1)).collect()
}

#[derive(Clone)]
struct Act {
    name: String,
    detail: Option<String>,
    dur: f64,
    own: f64,
    kids: Vec<Act>,
}
fn act(v: &Value) -> Act {
    Act {
        name: v["name"].as_str().unwrap().into(),
        detail: v["detail"].as_str().map(String::from),
        dur: v["dur"].as_f64().unwrap(),
        own: v["self"].as_f64().unwrap(),
        kids: v["kids"].as_array().unwrap().iter().map(act).collect(),
    }
}
fn all(a: &Act, out: &mut Vec<Act>) {
    out.push(a.clone());
    for k in &a.kids {
        all(k, out);
    }
}

/// Percentage and duration at the end of a line, and what precedes them
fn percent(line: &str) -> Option<(String, String, f64)> {
    let l = line.strip_suffix("%]")?;
    let (head, p) = l.rsplit_once(", ")?;
    let (desc, time) = head.rsplit_once(" [")?;
    Some((desc.into(), time.into(), p.parse().ok()?))
}

/// Is this the description of this activity, shortened if it does not fit?
fn describes(desc: &str, a: &Act, cols: usize) -> bool {
    if a.detail.is_none() {
        return desc == a.name;
    }
    if !(desc == a.name || desc.starts_with(&format!("{}(", a.name)) && desc.ends_with(')')) {
        return false;
    }
    let d = a.detail.as_deref().unwrap();
    // Those whose display is the text itself
    let plain = match a.name.as_str() {
        "Source" | "OptModule" => d.starts_with("/usr/include/") && !d[1..].contains("//"),
        "RunPass" => d == "X86 DAG->DAG Instruction Selection",
        "InstantiateClass" => d.strip_prefix("std::vector<T").and_then(|x| x.strip_suffix('>')).is_some_and(|x| x.parse::<u32>().is_ok()),
        "ParseClass" => d.starts_with("ns") && d.contains("::Foo<") && d.is_ascii(),
        _ => false,
    };
    let full = format!("{}({d})", a.name);
    // Some characters are wider than others
    !plain || desc == full || desc.contains('…') && (!full.is_ascii() || full.len() > cols)
}

/// Gives each line an item of its own; otherwise tells a line that has none
fn pair(lines: usize, fits: &[Vec<usize>]) -> Option<usize> {
    fn place(l: usize, fits: &[Vec<usize>], seen: &mut Vec<usize>, owner: &mut std::collections::HashMap<usize, usize>) -> bool {
        for &i in &fits[l] {
            if !seen.contains(&i) {
                seen.push(i);
                let old = owner.get(&i).copied();
                if old.map_or(true, |o| place(o, fits, seen, owner)) {
                    owner.insert(i, l);
                    return true;
                }
            }
        }
        false
    }
    let mut owner = Default::default();
    (0..lines).find(|&l| !place(l, fits, &mut vec![], &mut owner))
}

/// A line of the hierarchical profile and those below it
#[derive(Debug)]
struct Line {
    text: String,
    kids: Vec<Line>,
}
fn nest(lines: &[(usize, String)], depth: usize, at: &mut usize) -> Result<Vec<Line>, String> {
    let mut v = vec![];
    while let Some((d, t)) = lines.get(*at) {
        if *d < depth {
            break;
        }
        if *d > depth {
            return Err(format!("unexpected indentation of {t:?} in the hierarchical profile"));
        }
        *at += 1;
        let kids = nest(lines, depth + 1, at)?;
        v.push(Line { text: t.clone(), kids });
    }
    Ok(v)
}
/// Cuts the branches off a line; also tells which are last at their level
fn branches(l: &str) -> (usize, String) {
    let c: Vec<char> = l.chars().collect();
    let mut d = 0;
    while d * 2 + 1 < c.len() {
        match (c[2 * d], c[2 * d + 1]) {
            ('│' | ' ', ' ') => d += 1,
            ('├' | '└', '─') => {
                d += 1;
                break;
            }
            _ => break,
        }
    }
    (d, c[2 * d..].iter().collect())
}
/// None if something is not displayed for lack of columns
fn same_tree(l: &Line, a: &Act, norm: f64, thr: f64, cols: u64) -> Option<Result<(), String>> {
    let (desc, time, p) = percent(&l.text)?;
    let room = (cols as usize).saturating_sub(l.text.chars().count() - desc.chars().count());
    if !describes(&desc, a, room) || !crate::nav::time_is(&time, a.dur) || (a.dur * norm * 100.0 - p).abs() > 0.00501 {
        return Some(Err(format!("line {:?} of the hierarchical profile should be about {} of {} µs", l.text, a.name, a.dur)));
    }
    let left: Vec<&Act> = a.kids.iter().filter(|k| k.dur * norm >= thr).collect();
    let hidden = a.kids.len() - left.len();
    let mut lines = &l.kids[..];
    if hidden > 0 {
        let last = lines.last()?;
        let want = format!("…{hidden} callee(s) below {:.2}%…", thr * 100.0);
        if last.text != "…" && last.text != want || !last.kids.is_empty() {
            return Some(Err(format!("line {:?} of the hierarchical profile instead of {want:?}", last.text)));
        }
        lines = &lines[..lines.len() - 1];
    }
    if lines.len() != left.len() {
        return Some(Err(format!("{} lines below {:?} instead of {}", lines.len(), l.text, left.len())));
    }
    let mut last = f64::INFINITY;
    let mut fits = vec![];
    for k in lines {
        let (_, _, p) = percent(&k.text)?;
        if p > last {
            return Some(Err(format!("the hierarchical profile is not sorted below {:?}", l.text)));
        }
        last = p;
        let mut err = None;
        let mut ok = vec![];
        for (i, x) in left.iter().enumerate() {
            match same_tree(k, x, norm, thr, cols - 2)? {
                Ok(()) => ok.push(i),
                Err(e) => err = Some(e),
            }
        }
        if ok.is_empty() {
            return Some(Err(format!("{}, below {:?}", err.unwrap_or_default(), l.text)));
        }
        fits.push(ok);
    }
    if let Some(i) = pair(lines.len(), &fits) {
        return Some(Err(format!("line {:?} of the hierarchical profile matches nothing", lines[i].text)));
    }
    Some(Ok(()))
}

/// Expected number of lines of the tree; None if it depends on rounding
fn tree_lines(a: &Act, norm: f64, thr: f64, cols: u64) -> Option<usize> {
    let child = cols.saturating_sub(2);
    if child == 0 {
        return Some(1);
    }
    let mut n = 1;
    let mut shown = 0;
    for k in &a.kids {
        let x = k.dur * norm;
        if (x - thr).abs() < 1e-9 {
            return None;
        }
        if x > thr {
            shown += 1;
            n += tree_lines(k, norm, thr, child)?;
        }
    }
    if shown < a.kids.len() {
        n += 1;
    }
    Some(n)
}

/// "- ... and N other WHAT below X% ..."
fn others(line: &str, what: &str) -> Option<usize> {
    let l = line.strip_prefix("- ... and ")?;
    let (n, rest) = l.split_once(' ')?;
    rest.starts_with(&format!("other {what} below ")).then(|| n.parse().ok())?
}

fn model(m: &Meta, text: &str) -> Result<(), String> {
    let truth = m.truth.as_ref().unwrap();
    let root = act(&truth["roots"][0]);
    let mut acts = vec![];
    all(&root, &mut acts);
    let norm = 1.0 / root.dur;
    let sec: Vec<&str> = text.split("\n\n").collect();
    // Metadata
    let head = sec[0].trim_start_matches('\n').replace('\n', " ");
    if m.cols >= 60 {
        let mut want = format!("Data from {}", truth["process"].as_str().unwrap());
        if let Some(p) = truth["pid"].as_i64() {
            want += &format!(", pid {p}");
        }
        if let Some(t) = truth["thread"].as_str() {
            want += &format!(", thread {t:?}");
        }
        let ok = if truth["bot"].is_null() { head == want.clone() + "." } else { head.starts_with(&(want.clone() + ", recorded ")) };
        if !ok {
            return Err(format!("the description of the trace is {head:?} instead of {want:?}"));
        }
    }
    let part = |title: &str| -> Result<Vec<&str>, String> {
        let s = sec.iter().find_map(|s| s.strip_prefix(title)).ok_or(format!("no section {title:?}"))?;
        Ok(s.lines().filter(|l| !l.is_empty()).collect())
    };
    // Types
    let thr = m.self_threshold as f64 / 100.0;
    let mut types: Vec<(Act, f64)> = vec![];
    for a in &acts {
        match types.iter_mut().find(|t| t.0.name == a.name) {
            Some(t) => t.1 += a.own,
            None => types.push((a.clone(), a.own)),
        }
    }
    let check = |title: &str, what: &str, items: &[(Act, f64)], exact: bool| -> Result<(), String> {
        let mut lines = part(title)?;
        let mut rest = 0;
        let mut has = false;
        if let Some(n) = lines.last().and_then(|l| others(l, what)) {
            rest = n;
            has = true;
            lines.pop();
        }
        if lines.len() + rest != items.len() {
            return Err(format!("{title:?} has {} lines and {rest} others for {} {what}", lines.len(), items.len()));
        }
        if items.iter().all(|x| (x.1 * norm - thr).abs() > 1e-9) {
            let n = items.iter().filter(|x| x.1 * norm > thr).count();
            if n != lines.len() || has != (n < items.len()) {
                return Err(format!("{title:?} has {} lines for {n} {what} above the threshold", lines.len()));
            }
        }
        let mut found = vec![];
        let mut texts = vec![];
        let mut last = f64::INFINITY;
        for l in lines {
            let l = l.strip_prefix("- ").ok_or(format!("unexpected line {l:?}"))?;
            let Some((desc, time, p)) = percent(l) else {
                if exact {
                    return Err(format!("no duration in {l:?}"));
                }
                continue;
            };
            if p > last {
                return Err(format!("{title:?} is not sorted at {l:?}"));
            }
            last = p;
            let room = (m.cols as usize).saturating_sub(2 + l.chars().count() - desc.chars().count());
            let fits = |x: &(Act, f64)| {
                (x.1 * norm * 100.0 - p).abs() < 0.00501
                    && crate::nav::time_is(&time, x.1)
                    && if exact { x.0.name == desc } else { describes(&desc, &x.0, room) }
            };
            found.push((0..items.len()).filter(|&i| fits(&items[i])).collect());
            texts.push(l);
        }
        if let Some(i) = pair(texts.len(), &found) {
            return Err(format!("line {:?} of {title:?} matches nothing in the trace", texts[i]));
        }
        Ok(())
    };
    check("Self-duration breakdown by activity type:", "activity types", &types, true)?;
    let items: Vec<(Act, f64)> = acts.iter().map(|a| (a.clone(), a.own)).collect();
    check("Hottest activities by self-duration:", "activities", &items, false)?;
    let lines = part("Hierarchical profile:")?;
    if let Some(n) = tree_lines(&root, norm, m.tree_threshold as f64 / 100.0, m.cols) {
        if lines.len() != n {
            return Err(format!("the hierarchical profile has {} lines instead of {n}", lines.len()));
        }
        let lines: Vec<_> = lines.iter().map(|l| branches(l)).collect();
        let mut v = nest(&lines, 0, &mut 0)?;
        if v.len() != 1 {
            return Err(format!("the hierarchical profile has {} roots", v.len()));
        }
        if let Some(Err(e)) = same_tree(&v.remove(0), &root, norm, m.tree_threshold as f64 / 100.0, m.cols) {
            return Err(e);
        }
    }
    Ok(())
}

pub fn judge(case: &Case, runs: &[Run]) -> Verdict {
    let m: Meta = serde_json::from_value(case.meta.clone()).unwrap();
    let mut v = Verdict { bad: vec![], nontrivial: false };
    let mut bad = |c: &str, t: String| v.bad.push((format!("C15.{c}"), t));
    let base = stdout(&runs[0]);
    let mut nontrivial = false;
    for (i, run) in runs.iter().enumerate() {
        let out = stdout(run);
        let ended = run.why == "exit" || run.why == "exit_group";
        let rule = case.sessions[i].sc.faults.rules.first();
        let fault = run.of("FAULT").next().map(|l| format!("{} {}", l.s(0), l.s(1)));
        if run.stats.keys().any(|k| k == "short-io" || k == "eintr" || k.starts_with("fault")) {
            nontrivial = true;
        }
        let who = format!("session {i} ({} {:?}, exit status {}{})", case.sessions[i].bin, case.sessions[i].sc.argv, run.code,
            fault.as_ref().map(|f| format!(", failed {f}")).unwrap_or_default());
        if !ended {
            bad("stuck", format!("{who} ended by {}", run.why));
            continue;
        }
        let clean = fault.is_none();
        if m.invalid || !m.same[i] {
            if run.code == 0 {
                bad("invalid", format!("{who}: success on an input that is cut, missing or not valid"));
            }
            if m.kind == "report" && !out.is_empty() {
                bad("invalid-output", format!("{who}: output for an input that is cut, missing or not valid"));
            }
            continue;
        }
        if clean {
            if m.kind == "report" && run.code != 0 {
                let err: Vec<u8> = run.of("OUT").filter(|l| l.s(0) == "2").flat_map(|l| l.raw(1)).collect();
                bad("refused", format!("{who}: failure on a valid input: {}", String::from_utf8_lossy(&err)));
            } else if out != base || run.code != runs[0].code {
                let k = out.iter().zip(&base).take_while(|(a, b)| a == b).count();
                bad("differs", format!("{who}: output differs from that of the first run from byte {k} on ({} and {} bytes)", out.len(), base.len()));
            }
        } else {
            let _ = rule;
            if run.code == 0 && out != base {
                bad("hidden", format!("{who}: success with an incomplete output ({} of {} bytes)", out.len(), base.len()));
            }
            if !base.starts_with(&out) {
                bad("altered", format!("{who}: the output is not the beginning of that of the undisturbed run"));
            }
        }
    }
    if m.kind == "report" && !m.invalid && runs[0].code == 0 {
        match std::str::from_utf8(&base) {
            Err(_) => bad("encoding", "the report is not valid UTF-8".into()),
            Ok(t) => {
                if let Err(e) = model(&m, t) {
                    bad("content", e);
                }
            }
        }
    }
    v.nontrivial = nontrivial;
    v
}
