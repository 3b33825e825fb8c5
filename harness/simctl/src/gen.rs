//! Building blocks shared by the scenario generators.
use simproto::*;

pub const T0: i64 = 1_700_000_000_000_000_000;
pub const S: u64 = 1_000_000_000;
pub const MS: u64 = 1_000_000;
pub const US: u64 = 1_000;
pub const MB: u64 = 1 << 20;

pub fn file(path: &str, data: &str, mtime: i64) -> FileSpec {
    FileSpec { path: path.into(), kind: FileKind::File, data: data.into(), mtime, mode: 0o644 }
}
pub fn dir(path: &str) -> FileSpec {
    FileSpec { path: path.into(), kind: FileKind::Dir, data: String::new(), mtime: 0, mode: 0o755 }
}
pub fn script(ops: Vec<Op>) -> Script {
    Script { ops, term: OnTerm::Die, sig_latency: 0 }
}

/// Scheduling and low-level fault profile (swarm: most features are off in most cases)
pub fn sched(r: &mut Rng, sc: &mut Scenario, stalls: bool) {
    let s = &mut sc.sched;
    match r.below(20) {
        0..=1 => {}
        2..=5 => {
            s.p_sys = 0.02;
            s.p_edge = 1e-4;
        }
        6..=11 => {
            s.p_sys = *r.pick(&[0.1, 0.2, 0.4]);
            s.p_edge = 1e-3;
        }
        12..=15 => {
            s.p_sys = 0.1;
            s.p_edge = *r.pick(&[5e-3, 2e-2, 5e-2]);
        }
        _ => {
            s.pct = true;
            s.p_prio = *r.pick(&[0.003, 0.02, 0.1]);
        }
    }
    s.call_cost = *r.pick(&[200, 1000, 1000, 5000]);
    if stalls && r.chance(0.35) {
        s.p_stall = *r.pick(&[3e-4, 1e-3, 5e-3]);
        s.stall_max = r.logu(MS, 2 * S);
    }
    if r.chance(0.3) {
        s.p_spurious = *r.pick(&[0.05, 0.3]);
    }
    if r.chance(0.25) {
        s.lag_max = r.logu(10 * US, 150 * MS);
    }
    if r.chance(0.5) && s.p_sys > 0.0 {
        s.p_hot = *r.pick(&[0.03, 0.1, 0.4]);
        s.focus = r.chance(0.6);
        if stalls && r.chance(0.6) {
            s.p_estall = *r.pick(&[0.1, 0.5, 0.9]);
            s.estall_max = r.logu(100 * US, 500 * MS);
        }
    }
    if r.chance(0.3) && s.p_sys > 0.0 {
        s.p_first = *r.pick(&[0.01, 0.05, 0.3]);
        if stalls && r.chance(0.7) {
            s.p_estall = *r.pick(&[0.1, 0.5, 0.9]);
            s.estall_max = r.logu(100 * US, 500 * MS);
        }
    }
    let f = &mut sc.faults;
    if r.chance(0.3) {
        f.p_eintr = *r.pick(&[0.01, 0.1, 0.3]);
    }
    if r.chance(0.3) {
        f.p_short = *r.pick(&[0.05, 0.3, 0.9]);
    }
}

/// Escape one argument with backslashes only
pub fn escape(a: &str) -> String {
    if a.is_empty() {
        return "\"\"".into();
    }
    let safe = |c: char| c.is_alphanumeric() || "-_=./+:,".contains(c);
    a.chars().flat_map(|c| (!safe(c)).then_some('\\').into_iter().chain([c])).collect()
}

/// Shell-quote one argument in some way that any POSIX shell undoes
pub fn quote(r: &mut Rng, a: &str) -> String {
    let safe = !a.is_empty() && a.chars().all(|c| c.is_ascii_alphanumeric() || "-_=./+:,".contains(c));
    match r.below(5) {
        0 | 1 if safe => a.to_string(),
        // Backslashes only
        4 if !a.is_empty() && !a.contains('\n') => {
            escape(a)
        }
        0..=2 => {
            let mut o = String::from("\"");
            for c in a.chars() {
                if "\"\\$`".contains(c) {
                    o.push('\\');
                }
                o.push(c);
            }
            o + "\""
        }
        _ => format!("'{}'", a.replace('\'', "'\\''")),
    }
}

/// Relative path from one absolute directory to an absolute path
pub fn rel(path: &str, base: &str) -> String {
    if !path.starts_with('/') {
        return path.to_string();
    }
    let p: Vec<&str> = path.split('/').filter(|s| !s.is_empty()).collect();
    let b: Vec<&str> = base.split('/').filter(|s| !s.is_empty()).collect();
    let mut k = 0;
    while k < p.len() && k < b.len() && p[k] == b[k] {
        k += 1;
    }
    let mut v: Vec<&str> = vec![".."; b.len() - k];
    v.extend(&p[k..]);
    v.join("/")
}

pub fn nasty_output(r: &mut Rng) -> String {
    match r.below(4) {
        0 => "warning: something\n".into(),
        1 => to_latin(b"caf\xe9 \xff\xfe bad utf8\n"),
        2 => to_latin("naïve – ünïcode ✓\n".as_bytes()),
        _ => to_latin(&(0..r.range(1, 300)).map(|_| r.below(256) as u8).collect::<Vec<_>>()),
    }
}

/// Output that a terminal shows one cell per character: it ends up in dialogs that the simulated user must read
pub fn shown_output(r: &mut Rng) -> String {
    match r.below(4) {
        0 => "warning: something\n".into(),
        1 => to_latin(b"caf\xe9 \xff\xfe bad utf8\n"),
        2 => to_latin("naïve – ünïcode ✓\n".as_bytes()),
        _ => {
            let n = r.range(1, 300);
            let mut v = vec![];
            for _ in 0..n {
                v.push(match r.below(50) {
                    0 => b'\n',
                    1..=14 => r.range(0xf8, 0xff) as u8,
                    _ => r.range(0x20, 0x7e) as u8,
                });
            }
            to_latin(&v)
        }
    }
}
