//! The text interface shows what the files say (C16): executable model of the
//! navigation, generator and refinement check.
use crate::gen::*;
use crate::load::*;
use crate::mjudge::Verdict;
use crate::run::*;
use crate::tui::{app, keys, leave, sleep, wait, DOWN, ENTER, ESC, LEFT, RIGHT, UP};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simproto::*;
use std::cmp::Ordering;
use std::collections::HashSet;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Act {
    pub desc: String,
    pub dur: f64,
    pub own: f64,
    pub parent: Option<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Trace {
    pub path: String,
    /// What the footer tells about it
    pub foot: String,
    pub acts: Vec<Act>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Unit {
    pub rel: String,
    pub mem: u64,
    pub time: Option<f32>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Meta {
    pub width: u16,
    pub units: Vec<Unit>,
    /// Trace of each unit, or the only one
    pub traces: Vec<Trace>,
    pub direct: bool,
}

const PGUP: &str = "\x1b[5~";
const PGDN: &str = "\x1b[6~";
const HOME: &str = "\x1b[H";
const END: &str = "\x1b[F";

// ---------------------------------------------------------------- model

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Col {
    Total,
    Own,
    Desc,
    Mem,
    Time,
    File,
}
#[derive(Clone, Debug)]
struct Column {
    col: Col,
    selected: bool,
    order: Ordering,
    default: Ordering,
}
fn column(col: Col, default: Ordering) -> Column {
    Column { col, selected: false, order: Ordering::Equal, default }
}
/// Where values to be displayed come from
struct Data<'a> {
    m: &'a Meta,
    trace: usize,
    plus: bool,
    kids: &'a [bool],
}
impl Data<'_> {
    fn text(&self, i: usize) -> String {
        let d = &self.m.traces[self.trace].acts[i].desc;
        match self.plus {
            true if self.kids[i] => format!("+{d}"),
            true => format!(" {d}"),
            false => d.clone(),
        }
    }
    fn cmp(&self, a: usize, b: usize, c: Col) -> Ordering {
        let act = |i: usize| &self.m.traces[self.trace].acts[i];
        let unit = |i: usize| &self.m.units[i];
        match c {
            Col::Total => act(a).dur.total_cmp(&act(b).dur),
            Col::Own => act(a).own.total_cmp(&act(b).own),
            Col::Desc => self.text(a).cmp(&self.text(b)),
            Col::Mem => unit(a).mem.cmp(&unit(b).mem),
            Col::Time => unit(a).time.partial_cmp(&unit(b).time).unwrap(),
            Col::File => std::path::Path::new(&unit(a).rel).cmp(std::path::Path::new(&unit(b).rel)),
        }
    }
}
/// A table which can be sorted
#[derive(Clone, Debug)]
struct Table {
    rows: Vec<usize>,
    focus: usize,
    select: bool,
    cols: Vec<Column>,
}
enum Did {
    Nothing,
    Submit(usize),
    Sort(Col, Ordering),
}
impl Table {
    fn active(&self) -> usize {
        self.cols.iter().position(|c| c.selected).unwrap_or(0)
    }
    fn sorted(&self) -> Option<usize> {
        self.cols.iter().position(|c| c.order != Ordering::Equal)
    }
    fn set_sort(&mut self, col: Col, order: Option<Ordering>) {
        for c in &mut self.cols {
            c.selected = c.col == col;
            c.order = match c.selected {
                true => order.unwrap_or(c.default),
                false => Ordering::Equal,
            };
        }
    }
    fn arrange(&mut self, d: &Data) {
        let Some(i) = self.sorted() else { return };
        let (col, order) = (self.cols[i].col, self.cols[i].order);
        let at = self.rows.get(self.focus).copied();
        self.rows.sort_by(|&a, &b| match order {
            Ordering::Less => d.cmp(a, b, col),
            _ => d.cmp(b, a, col),
        });
        if let Some(at) = at {
            self.focus = self.rows.iter().position(|&x| x == at).unwrap();
        }
    }
    fn cancel(&mut self) {
        self.select = false;
        for c in &mut self.cols {
            c.selected = c.order != Ordering::Equal;
        }
    }
    fn key(&mut self, k: &str, d: &Data) -> Did {
        let n = self.rows.len();
        match k {
            RIGHT | LEFT if !self.select => self.select = true,
            RIGHT | LEFT => {
                let a = self.active();
                let b = if k == RIGHT { a + 1 } else { a.wrapping_sub(1) };
                if b < self.cols.len() {
                    self.cols[a].selected = false;
                    self.cols[b].selected = true;
                }
            }
            UP | DOWN if self.select => self.cancel(),
            UP => self.focus = self.focus.saturating_sub(1),
            DOWN => self.focus = (self.focus + 1).min(n - 1),
            PGUP => {
                self.cancel();
                self.focus = self.focus.saturating_sub(10);
            }
            PGDN => {
                self.cancel();
                self.focus = (self.focus + 10).min(n - 1);
            }
            HOME => {
                self.cancel();
                self.focus = 0;
            }
            END => {
                self.cancel();
                self.focus = n - 1;
            }
            ENTER if self.select => {
                let a = self.active();
                let order = match self.sorted() {
                    Some(s) if s == a => self.cols[a].order.reverse(),
                    _ => self.cols[a].default,
                };
                let col = self.cols[a].col;
                self.set_sort(col, Some(order));
                self.arrange(d);
                return Did::Sort(col, order);
            }
            ENTER => return Did::Submit(self.rows[self.focus]),
            _ => {}
        }
        Did::Nothing
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Show {
    Global,
    Parent,
    Time,
}
#[derive(Clone, Debug)]
struct Layer {
    /// Activity whose callees are displayed
    scope: Option<usize>,
    flat: bool,
    t: Table,
}
#[derive(Clone, Debug, PartialEq)]
enum Mode {
    Build,
    Prompt(usize),
    Loading(usize),
    Trace(usize),
    /// Not modelled (anymore)
    Lost,
}
#[derive(Clone, Debug, PartialEq)]
enum Over {
    Not,
    Info,
    Quit,
    Trace(usize),
}
struct Model<'a> {
    m: &'a Meta,
    kids: Vec<Vec<bool>>,
    mode: Mode,
    over: Over,
    build: Table,
    stack: Vec<Layer>,
    order: [Ordering; 3],
    key: Col,
    show: Show,
}
impl<'a> Model<'a> {
    fn new(m: &'a Meta) -> Self {
        let kids = m
            .traces
            .iter()
            .map(|t| {
                let mut k = vec![false; t.acts.len()];
                t.acts.iter().filter_map(|a| a.parent).for_each(|p| k[p] = true);
                k
            })
            .collect();
        let mut cols = vec![column(Col::Mem, Ordering::Greater)];
        if m.units.iter().any(|u| u.time.is_some()) {
            cols.push(column(Col::Time, Ordering::Greater));
        }
        cols.push(column(Col::File, Ordering::Less));
        let mut build = Table { rows: (0..m.units.len()).collect(), focus: 0, select: false, cols };
        build.set_sort(Col::Mem, None);
        let mut s = Model {
            m,
            kids,
            mode: if m.direct { Mode::Loading(0) } else { Mode::Build },
            over: Over::Not,
            build,
            stack: vec![],
            order: [Ordering::Greater, Ordering::Greater, Ordering::Less],
            key: Col::Total,
            show: Show::Global,
        };
        let mut b = s.build.clone();
        b.arrange(&s.data(0, false));
        b.focus = 0;
        s.build = b;
        s
    }
    fn data(&self, trace: usize, plus: bool) -> Data<'_> {
        Data { m: self.m, trace, plus, kids: &self.kids[trace] }
    }
    fn trace(&self) -> usize {
        match self.mode {
            Mode::Trace(t) => t,
            _ => 0,
        }
    }
    fn scope(&self, scope: Option<usize>, flat: bool) -> Vec<usize> {
        let acts = &self.m.traces[self.trace()].acts;
        (0..acts.len())
            .filter(|&i| match flat {
                false => acts[i].parent == scope,
                true => {
                    let mut p = acts[i].parent;
                    while p != scope && p.is_some() {
                        p = acts[p.unwrap()].parent;
                    }
                    p == scope
                }
            })
            .collect()
    }
    fn sort_key(&self, flat: bool) -> Col {
        if flat && self.key == Col::Total { Col::Own } else { self.key }
    }
    fn push(&mut self, scope: Option<usize>, flat: bool) {
        let mut cols = vec![column(Col::Own, self.order[1]), column(Col::Desc, self.order[2])];
        if !flat {
            cols.insert(0, column(Col::Total, self.order[0]));
        }
        let mut t = Table { rows: self.scope(scope, flat), focus: 0, select: false, cols };
        t.set_sort(self.sort_key(flat), None);
        t.arrange(&self.data(self.trace(), !flat));
        t.focus = 0;
        self.stack.push(Layer { scope, flat, t });
    }
    /// The trace has been loaded
    fn loaded(&mut self) {
        if let Mode::Loading(t) = self.mode {
            self.mode = Mode::Trace(t);
            self.show = Show::Global;
            self.stack.clear();
            self.push(None, false);
        }
    }
    fn unit(&mut self) {
        self.show = match self.show {
            Show::Global => Show::Parent,
            Show::Parent => Show::Time,
            Show::Time => Show::Global,
        };
        let t = self.trace();
        let mut stack = std::mem::take(&mut self.stack);
        for l in &mut stack {
            for c in &mut l.t.cols {
                match c.col {
                    Col::Total => c.default = self.order[0],
                    Col::Own => c.default = self.order[1],
                    _ => {}
                }
            }
            l.t.set_sort(self.sort_key(l.flat), None);
            l.t.arrange(&self.data(t, !l.flat));
        }
        self.stack = stack;
    }
    fn name(&self, l: &Layer) -> String {
        match l.scope {
            None => "<profile root>".into(),
            Some(a) => self.m.traces[self.trace()].acts[a].desc.clone(),
        }
    }
    fn key(&mut self, k: &str) {
        if self.mode == Mode::Lost {
            return;
        }
        if let Mode::Loading(_) = self.mode {
            self.mode = Mode::Lost;
            return;
        }
        if self.over != Over::Not {
            match (k, &self.over) {
                ("u", _) if !self.stack.is_empty() => self.unit(),
                (ESC, _) | (ENTER, Over::Info) => self.over = Over::Not,
                ("b" | "h" | "q", _) => {}
                (DOWN, Over::Trace(i)) if i + 1 < self.stack.len() => self.over = Over::Trace(i + 1),
                (UP, Over::Trace(i)) if *i > 0 => self.over = Over::Trace(i - 1),
                (ENTER, Over::Trace(i)) => {
                    let n = self.stack.len() - i;
                    self.stack.truncate(n);
                    self.over = Over::Not;
                }
                _ => self.mode = Mode::Lost,
            }
            return;
        }
        match (&self.mode, k) {
            (Mode::Build | Mode::Trace(_), "h") => self.over = Over::Info,
            (Mode::Build | Mode::Trace(_), "q") => self.over = Over::Quit,
            (Mode::Build, "b" | "u" | "f" | ESC) => {}
            (Mode::Build, _) => {
                let mut b = self.build.clone();
                if let Did::Submit(u) = b.key(k, &self.data(0, false)) {
                    self.mode = Mode::Prompt(u);
                }
                self.build = b;
            }
            (Mode::Prompt(u), ENTER) => self.mode = Mode::Loading(*u),
            (Mode::Prompt(_), ESC) => self.mode = Mode::Build,
            (Mode::Trace(_), "b") => self.over = Over::Trace(0),
            (Mode::Trace(_), "u") => self.unit(),
            (Mode::Trace(_), "f") => {
                let l = self.stack.pop().unwrap();
                self.push(l.scope, !l.flat);
            }
            (Mode::Trace(_), ESC) => {
                if self.stack.len() > 1 || !self.m.direct {
                    self.stack.pop();
                }
                if self.stack.is_empty() {
                    self.mode = Mode::Build;
                }
            }
            (&Mode::Trace(t), _) => {
                let mut l = self.stack.pop().unwrap();
                let did = l.t.key(k, &self.data(t, !l.flat));
                let flat = l.flat;
                self.stack.push(l);
                match did {
                    Did::Nothing => {}
                    Did::Submit(a) => {
                        if !flat && self.kids[t][a] {
                            self.push(Some(a), false);
                        }
                    }
                    Did::Sort(col, order) => {
                        self.order[col as usize] = order;
                        self.key = col;
                        let n = self.stack.len() - 1;
                        let mut stack = std::mem::take(&mut self.stack);
                        for l in &mut stack[..n] {
                            l.t.set_sort(col, Some(order));
                            l.t.arrange(&self.data(t, !l.flat));
                        }
                        self.stack = stack;
                    }
                }
            }
            _ => self.mode = Mode::Lost,
        }
    }

    /// Compare with a screen
    fn check(&self, rows: &[String]) -> Result<(), String> {
        match (&self.mode, &self.over) {
            (Mode::Build, Over::Not) => {
                let o: Vec<String> = rows.to_vec();
                self.header(&self.build, &o[0], |c| match c {
                    Col::Mem => "Memory",
                    Col::Time => "Time",
                    _ => "Source file",
                })?;
                let end = o.iter().position(|r| r.contains("Press H for help")).ok_or("no help text below the build profile")?;
                self.body(&self.build, &o[2..end], |u, c, cell| {
                    let u = &self.m.units[u];
                    match c {
                        Col::Mem => cell == format!("{:.2} GB", u.mem as f32 / 1e9),
                        Col::Time => cell == u.time.map(|t| format!("{t:.1}s")).unwrap_or_default(),
                        _ => cell == u.rel,
                    }
                })
            }
            (&Mode::Trace(t), Over::Not) => {
                let l = self.stack.last().unwrap();
                let tr = &self.m.traces[t];
                self.header(&l.t, &rows[0], |c| match (c, self.show, l.flat) {
                    (Col::Total, Show::Global, _) => "%Total",
                    (Col::Total, Show::Parent, _) => "%Parent",
                    (Col::Total, Show::Time, _) => "Time",
                    (Col::Own, _, false) => "Self",
                    (Col::Own, Show::Global, _) => "Self%Tot",
                    (Col::Own, Show::Parent, _) => "Self%Par",
                    (Col::Own, Show::Time, _) => "SelfTime",
                    _ => "Activity",
                })?;
                let sep = rows.iter().position(|r| r.starts_with("─┤Selected activity├")).ok_or("there is no description of the selected activity")?;
                let global: f64 = tr.acts.iter().filter(|a| a.parent.is_none()).map(|a| a.dur).sum();
                let norm = match self.show {
                    Show::Parent => l.scope.map(|s| tr.acts[s].dur).unwrap_or(global),
                    _ => global,
                };
                let d = self.data(t, !l.flat);
                self.body(&l.t, &rows[2..sep], |a, c, cell| {
                    let x = match c {
                        Col::Total => tr.acts[a].dur,
                        Col::Own => tr.acts[a].own,
                        _ => return described(cell, d.text(a).trim(), self.m.width as usize - if l.flat { 16 } else { 31 }, !l.flat),
                    };
                    match self.show {
                        Show::Time => time_is(cell, x),
                        _ => cell.strip_suffix('%').and_then(|p| p.parse::<f64>().ok()).is_some_and(|p| (p - x / norm * 100.0).abs() < 0.00501),
                    }
                })?;
                let want = &tr.acts[l.t.rows[l.t.focus]].desc;
                let end = (sep + 1..rows.len()).find(|&i| rows[i].trim_start().starts_with("Data from")).ok_or("no footer below the trace")?;
                let dense = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
                let got = rows[sep + 1..end].join(" ");
                if dense(&got) != dense(want) {
                    return Err(format!("the selected activity is {want:?}, but {:?} is described", got.trim()));
                }
                let foot = crate::tuijudge::flat(&rows[end..]);
                if !foot.starts_with(&tr.foot) {
                    return Err(format!("the trace is {:?}, but the footer is {foot:?}", tr.foot));
                }
                Ok(())
            }
            (Mode::Trace(_), Over::Trace(_)) => {
                let d = crate::tuijudge::dialog(rows).unwrap_or_default();
                let want: Vec<String> = self.stack.iter().rev().map(|l| self.name(l)).collect();
                let mut at = 0;
                for w in &want {
                    let Some(i) = d[at..].find(w.as_str()) else {
                        // It may have to scroll
                        if want.len() > 8 {
                            return Ok(());
                        }
                        return Err(format!("the backtrace is {want:?}, but {d:?} is displayed"));
                    };
                    at += i + w.len();
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
    fn header(&self, t: &Table, row: &str, title: impl Fn(Col) -> &'static str) -> Result<(), String> {
        let got: Vec<String> = row.split('╷').map(|c| c.split_whitespace().collect::<Vec<_>>().join(" ")).collect();
        let want: Vec<String> = t
            .cols
            .iter()
            .map(|c| {
                let o = match c.order {
                    Ordering::Less => "[^]",
                    Ordering::Greater => "[v]",
                    Ordering::Equal => "[ ]",
                };
                format!("{} {o}", title(c.col))
            })
            .collect();
        if got != want {
            return Err(format!("the columns should be {want:?} but they are {got:?}"));
        }
        Ok(())
    }
    fn body(&self, t: &Table, rows: &[String], same: impl Fn(usize, Col, &str) -> bool) -> Result<(), String> {
        let cells: Vec<Vec<&str>> = rows
            .iter()
            .map(|r| r.split('┆').map(|c| c.trim_end_matches(|c: char| c == '|' || c == '▒' || c.is_whitespace())).collect::<Vec<_>>())
            .take_while(|c| c.iter().any(|x| !x.trim().is_empty()))
            .collect();
        let n = t.rows.len();
        let room = rows.len();
        if cells.len() != n.min(room) {
            return Err(format!("{} of {n} rows are displayed, there is room for {room}", cells.len()));
        }
        let fits = |off: usize| {
            cells.iter().enumerate().find_map(|(i, c)| {
                let item = t.rows[off + i];
                let ok = c.len() == t.cols.len() && t.cols.iter().zip(c).all(|(k, cell)| same(item, k.col, cell.trim()));
                (!ok).then_some(i)
            })
        };
        let mut worst = (0, 0);
        for off in 0..=n - cells.len() {
            match fits(off) {
                // Leaving the choice of columns may scroll the selected row away
                None => return Ok(()),
                Some(i) if i >= worst.1 => worst = (off, i),
                _ => {}
            }
        }
        let item = t.rows[worst.0 + worst.1];
        let what = match self.mode {
            Mode::Build => format!("{:?}", self.m.units[item]),
            _ => format!("{:?}", self.m.traces[self.trace()].acts[item]),
        };
        Err(format!("row {} is {:?}, it should be about {what}", worst.1, cells[worst.1]))
    }
}

/// Does this cell tell this description, shortened in the middle if it has to be?
fn described(cell: &str, want: &str, width: usize, plus: bool) -> bool {
    let cell = cell.trim();
    let prefixed = plus && want.starts_with('+');
    let len = want.chars().count() - prefixed as usize;
    if len <= width {
        return cell == want;
    }
    let Some((head, tail)) = cell.split_once('…') else { return false };
    let got = cell.chars().count() - prefixed as usize;
    let name = want.find('(').unwrap_or(want.len());
    want.starts_with(head) && want.ends_with(tail) && head.len() > name && tail.ends_with(')') && got <= width && got + 2 >= width
}

/// Does this text tell a duration in µs?
pub fn time_is(text: &str, us: f64) -> bool {
    fn part(s: &str) -> Option<f64> {
        s.parse().ok()
    }
    let near = |v: Option<f64>, unit: f64| v.is_some_and(|v| (v * unit - us).abs() <= 0.00501 * unit + us * 1e-12);
    if let Some(v) = text.strip_suffix("µs") {
        return part(v) == Some(us);
    }
    if let Some(v) = text.strip_suffix("ms") {
        return near(part(v), 1e3);
    }
    if let Some(v) = text.strip_suffix('s') {
        return near(part(v), 1e6);
    }
    let (days, rest) = match text.split_once("d ") {
        Some((d, r)) => (part(d), r),
        None => (Some(0.0), text),
    };
    let mut secs = 0.0;
    for p in rest.split(':') {
        match part(p) {
            Some(v) => secs = secs * 60.0 + v,
            None => return false,
        }
    }
    near(days.map(|d| d * 86400.0 + secs), 1e6)
}

// ---------------------------------------------------------------- generator

struct N {
    own: u64,
    kids: Vec<N>,
    name: String,
    detail: Option<String>,
}
fn nodes(r: &mut Rng, budget: &mut u64, depth: u32, names: &mut dyn FnMut(&mut Rng) -> (String, Option<String>), used: &mut HashSet<u64>) -> Vec<N> {
    let mut v = vec![];
    let most = r.logu(1, 30);
    while *budget > 0 && (v.len() as u64) < most {
        *budget -= 1;
        let (name, detail) = names(r);
        let kids = if depth > 0 && r.chance(0.55) { nodes(r, budget, depth - 1, names, used) } else { vec![] };
        let mut own = r.logu(1, 1_000_000);
        let below: u64 = kids.iter().map(total).sum();
        // Neither own durations nor total ones are equal
        while used.contains(&(own * 2)) || used.contains(&((own + below) * 2 + 1)) {
            own += 1;
        }
        used.insert(own * 2);
        used.insert((own + below) * 2 + 1);
        v.push(N { own, kids, name, detail });
    }
    v
}
fn total(n: &N) -> u64 {
    n.own + n.kids.iter().map(total).sum::<u64>()
}
fn describe(n: &N) -> String {
    match &n.detail {
        Some(d) => format!("{}({d})", n.name),
        None => n.name.clone(),
    }
}
fn emit(r: &mut Rng, n: &N, start: u64, scale: u64, id: i64, parent: Option<usize>, acts: &mut Vec<Act>, events: &mut Vec<Value>) {
    let me = acts.len();
    let dur = total(n);
    acts.push(Act { desc: describe(n), dur: (dur * scale) as f64, own: (n.own * scale) as f64, parent });
    let mut t = start;
    let mut gap = n.own;
    for k in &n.kids {
        // What takes no time is not at the boundary of something else
        let g = if total(k) == 0 { r.range(1, gap - 1) } else if gap > 0 { r.below(gap + 1) } else { 0 };
        gap -= g;
        t += g;
        emit(r, k, t, scale, id, Some(me), acts, events);
        t += total(k);
    }
    let mut e = json!({"pid": id, "tid": id, "ph": "X", "ts": start * scale, "dur": dur * scale, "name": n.name});
    if let Some(d) = &n.detail {
        e["args"] = json!({"detail": d});
    }
    events.push(e);
}

/// Date of an instant in µs since 1970, in UTC
fn rfc3339(us: u64) -> String {
    let (s, frac) = (us / 1_000_000, us % 1_000_000);
    let (mut d, t) = (s / 86400, s % 86400);
    let mut y = 1970;
    let leap = |y: u64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    while d >= 365 + leap(y) as u64 {
        d -= 365 + leap(y) as u64;
        y += 1;
    }
    let mut m = 0;
    for n in [31, 28 + leap(y) as u64, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31] {
        if d < n {
            break;
        }
        d -= n;
        m += 1;
    }
    let f = format!("{frac:06}");
    let f = f.trim_end_matches('0');
    let dot = if f.is_empty() { "" } else { "." };
    format!("{y:04}-{:02}-{:02}T{:02}:{:02}:{:02}{dot}{f}Z", m + 1, d + 1, t / 3600, t / 60 % 60, t % 60)
}

/// A trace whose activities have unique descriptions and durations
fn trace(r: &mut Rng, size: u64, tag: &str, path: &str) -> (Trace, String) {
    let mut budget = size;
    let mut id = 0;
    let mut once: Vec<&str> = vec!["Frontend", "Backend", "Optimizer", "CodeGenPasses", "PerformPendingInstantiations"];
    let base = r.below(1000);
    let long = *r.pick(&[0.0, 0.15, 0.5]);
    let mut names = |r: &mut Rng| {
        id += 1;
        let i = id * 7919 % 1000 + base;
        if r.chance(long) {
            // Longer than the column which tells it, or even than the terminal
            let words = r.logu(2, 60);
            let mut text = format!("p{i} {id}");
            for w in 0..words {
                text += &format!("{}w{w}", r.pick(&[" ", " ", "_", "::", ", "]));
            }
            return match r.chance(0.5) {
                true => ("RunPass".into(), Some(text)),
                false => (format!("new{i}_{id}"), Some(text)),
            };
        }
        match r.below(9) {
            0 if !once.is_empty() => {
                let i = r.below(once.len() as u64) as usize;
                (once.remove(i).to_string(), None)
            }
            0 | 1 => ("Source".into(), Some(format!("/inc/{}/f{i}_{id}.h", r.pick(&["a", "é", "z"])))),
            2 => ("ParseClass".into(), Some(format!("C{i}_{id}"))),
            3 => ("InstantiateClass".into(), Some(format!("ns{}::C{i}_{id}<int>", r.below(3)))),
            4 => ("InstantiateFunction".into(), Some(format!("f{i}_{id}"))),
            5 => ("OptFunction".into(), Some(format!("main{i}_{id}"))),
            6 => ("RunPass".into(), Some(format!("pass {i} {id}"))),
            7 => (format!("Brand new {i}-{id}"), None),
            _ => (format!("new{i}_{id}"), Some(format!("x{}", r.below(9)))),
        }
    };
    let mut used = HashSet::new();
    let depth = r.range(1, 7) as u32;
    let nroots = if r.chance(0.8) { 1 } else { r.range(2, 4) };
    let mut roots = vec![];
    for i in 0..nroots {
        let mut b = budget / nroots;
        let kids = nodes(r, &mut b, depth, &mut names, &mut used);
        budget -= (budget / nroots).min(budget);
        let mut own = r.logu(1, 1_000_000);
        let below: u64 = kids.iter().map(total).sum();
        while used.contains(&(own * 2)) || used.contains(&((own + below) * 2 + 1)) {
            own += 1;
        }
        used.insert(own * 2);
        used.insert((own + below) * 2 + 1);
        let (name, detail) = if i == 0 { ("ExecuteCompiler".to_string(), None) } else { names(r) };
        roots.push(N { own, kids, name, detail });
        budget += size / nroots;
    }
    if r.chance(0.3) {
        // An activity whose only callee is too short to be measured
        fn leaves<'a>(n: &'a mut N, out: &mut Vec<&'a mut N>) {
            if n.kids.is_empty() {
                out.push(n);
            } else {
                n.kids.iter_mut().for_each(|k| leaves(k, out));
            }
        }
        let mut all = vec![];
        roots.iter_mut().for_each(|n| leaves(n, &mut all));
        let n = r.below(all.len() as u64) as usize;
        if all[n].own >= 2 {
            let (name, detail) = names(r);
            all[n].kids.push(N { own: 0, kids: vec![], name, detail });
        }
    }
    // There is no room for days in the duration columns
    let longest: u64 = roots.iter().map(total).sum();
    let scale = (*r.pick(&[1, 1, 1, 1000, 60_000])).min(86_000_000_000 / longest).max(1);
    let pid = r.range(2, 4_000_000) as i64;
    let (mut acts, mut events) = (vec![], vec![]);
    let mut t = r.below(1000);
    for n in &roots {
        emit(r, n, t, scale, pid, None, &mut acts, &mut events);
        t += total(n) + r.below(1000);
    }
    let mut seen: Vec<String> = events.iter().map(|e| e["name"].as_str().unwrap().to_string()).collect();
    seen.sort();
    seen.dedup();
    for (i, n) in seen.iter().enumerate() {
        events.push(json!({"pid": pid, "tid": pid + 1 + i as i64, "ph": "X", "ts": 0, "dur": r.range(1, 1_000_000),
            "name": format!("Total {n}"), "args": {"count": 3, "avg ms": 1}}));
    }
    events.push(json!({"cat": "", "pid": pid, "tid": pid, "ts": 0, "ph": "M", "name": "process_name", "args": {"name": tag}}));
    let mut foot = format!("Data from {tag}, pid {pid}");
    if r.chance(0.5) {
        let name = *r.pick(&["", "clang", "some thread of a compiler with a rather long name"]);
        events.push(json!({"cat": "", "pid": pid, "tid": pid, "ts": 0, "ph": "M", "name": "thread_name", "args": {"name": name}}));
        foot += &format!(", thread {name:?}");
    }
    let mut v = json!({"traceEvents": events});
    if r.chance(0.5) {
        let t = 1_700_000_000_000_000u64 + r.below(1 << 40);
        v["beginningOfTime"] = json!(t);
        foot += &format!(", recorded {}.", rfc3339(t));
    } else {
        foot += ".";
    }
    let text = to_latin(json_text(r, &v, 0).as_bytes());
    (Trace { path: path.into(), foot, acts }, text)
}

/// What the user does next, given the state of the interface
fn plan(r: &mut Rng, s: &Model) -> Vec<String> {
    let one = |k: &str| vec![k.to_string()];
    let rep = |k: &str, n: u64| vec![k.to_string(); n as usize];
    let sorts = |r: &mut Rng| {
        let mut v = rep(if r.chance(0.6) { RIGHT } else { LEFT }, r.range(1, 3));
        v.extend(rep(ENTER, r.range(1, 2)));
        if r.chance(0.5) {
            v.push(DOWN.into());
        }
        v
    };
    match s.mode {
        Mode::Build => match r.below(10) {
            0..=2 => rep(if r.chance(0.7) { DOWN } else { UP }, r.range(1, 4)),
            3 | 4 => sorts(r),
            5 => one(r.pick(&[PGUP, PGDN, HOME, END])),
            6 => match r.pick(&["h", "q", "b", "u", ESC]) {
                k @ (&"h" | &"q") => vec![k.to_string(), ESC.into()],
                k => one(k),
            },
            _ if s.build.select => vec![UP.into()],
            _ => one(ENTER),
        },
        Mode::Prompt(_) => one(if r.chance(0.9) { ENTER } else { ESC }),
        Mode::Trace(t) => {
            let l = s.stack.last().unwrap();
            match r.below(20) {
                0..=2 => rep(if r.chance(0.7) { DOWN } else { UP }, r.logu(1, 8)),
                3 => one(r.pick(&[PGUP, PGDN, HOME, END])),
                4 | 5 => sorts(r),
                6 | 7 => one("u"),
                8 | 9 => one("f"),
                10 if s.stack.len() > 1 => {
                    // Jump in the backtrace
                    let mut v = one("b");
                    let n = s.stack.len() as u64;
                    v.extend(rep(DOWN, r.below(n)));
                    v.push(if r.chance(0.8) { ENTER } else { ESC }.into());
                    v
                }
                10 | 11 => {
                    let mut v = one(r.pick(&["h", "b", "q"]));
                    if r.chance(0.3) {
                        v.push(r.pick(&["u", "h", "b", "q"]).to_string());
                    }
                    v.push(ESC.into());
                    v
                }
                12 | 13 => one(ESC),
                14 => vec![RIGHT.into()],
                _ if l.t.select => one(r.pick(&[UP, DOWN, ENTER, "u", "f", ESC])),
                _ if l.flat => one(r.pick(&["f", "f", ENTER, ESC])),
                _ => {
                    // Zoom
                    let rows: Vec<usize> = (0..l.t.rows.len()).filter(|&i| s.kids[t][l.t.rows[i]]).collect();
                    if rows.is_empty() {
                        return one(r.pick(&[ENTER, ESC, "f"]));
                    }
                    let to = *r.pick(&rows);
                    let mut v = if to >= l.t.focus { rep(DOWN, (to - l.t.focus) as u64) } else { rep(UP, (l.t.focus - to) as u64) };
                    v.push(ENTER.into());
                    v
                }
            }
        }
        _ => vec![],
    }
}

/// Keys after which the interface needs some time before it accepts others
fn slow_key(k: &str, mode: &Mode, over: &Over) -> bool {
    k == ESC || matches!(k, "b" | "h" | "q") || *over != Over::Not || (k == ENTER && matches!(mode, Mode::Build | Mode::Prompt(_)))
}

pub fn generate(prop: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut a = app(r, 12, false);
    a.sc.sched.stall_max = a.sc.sched.stall_max.min(300 * MS);
    a.sc.sched.estall_max = a.sc.sched.estall_max.min(300 * MS);
    let direct = r.chance(0.4);
    let width = a.sc.tty.as_ref().unwrap().w;
    let mut m = Meta { width, units: vec![], traces: vec![], direct };
    let n = a.meta.units.len();
    let old = T0 - 3600 * S as i64;
    for i in 0..if direct { 1 } else { n } {
        let size = if r.chance(0.3) { r.logu(1, 10) } else { r.logu(5, 120) };
        let path = a.meta.units[i].trace.clone();
        let tag = format!("clang{i}-{}", r.below(100));
        let (t, text) = trace(r, size, &tag, &path);
        a.sc.files.push(file(&path, &text, old));
        m.traces.push(t);
    }
    if direct {
        a.sc.argv.push(m.traces[0].path.clone());
    } else {
        let mut s = String::from("file,max_rss,time\n");
        let timed = r.below(3);
        let mut mems = HashSet::new();
        let mut times = HashSet::new();
        let mut missing = false;
        for u in &a.meta.units {
            let mut mem = r.logu(1_000_000, 20_000_000_000);
            // As displayed with single precision
            while !mems.insert(mem >> 8) {
                mem += 1000;
            }
            let mut t = (timed > 0).then(|| r.logu(1, 1_000_000));
            if timed == 2 && !missing && r.chance(0.2) {
                missing = true;
                t = None;
            }
            if let Some(t) = &mut t {
                while !times.insert(*t) {
                    *t += 1;
                }
            }
            let text = t.map(|t| format!("{}.{:03}", t / 1000, t % 1000)).unwrap_or_default();
            m.units.push(Unit { rel: u.rel.clone(), mem, time: text.parse().ok() });
            s += &format!("{},{mem},{text}\n", u.rel);
        }
        let t = T0 - r.below(50 * S) as i64;
        let p = a.meta.profile.clone();
        a.sc.files.push(file(&p, &to_latin(s.as_bytes()), t));
    }
    if r.chance(0.2) {
        a.sc.faults.slow.push(SlowRule {
            op: r.pick(&["open", "read"]).to_string(),
            path: "json".into(),
            nth: r.below(6) as u32,
            count: *r.pick(&[1, 2, 1000]),
            delay: r.logu(10 * MS, S),
        });
    }
    let mut s = Model::new(&m);
    let mut steps = vec![];
    if direct {
        steps.push(wait("Data from", 60 * S));
        s.loaded();
    } else {
        steps.push(wait("Press H for help", 60 * S));
    }
    steps.push(sleep(300 * MS));
    steps.push(UserStep::Snap("n0".into()));
    for i in 1..=r.range(3, 14) {
        // Some commands in a row
        let calm = r.chance(0.3);
        for _ in 0..r.range(1, 3) {
            let ks = plan(r, &s);
            let together = r.chance(0.5);
            let mut burst = String::new();
            for k in &ks {
                let slow = slow_key(k, &s.mode, &s.over);
                if slow && !burst.is_empty() {
                    steps.push(keys(&std::mem::take(&mut burst)));
                    steps.push(sleep(400 * MS));
                }
                if together && !slow {
                    burst += k;
                } else {
                    if slow {
                        steps.push(sleep(400 * MS));
                    }
                    steps.push(keys(k));
                    steps.push(sleep(if slow || calm { 600 * MS } else { r.logu(100 * US, 100 * MS) }));
                }
                s.key(k);
                if let Mode::Loading(_) = s.mode {
                    steps.push(wait("Data from", 60 * S));
                    steps.push(sleep(500 * MS));
                    s.loaded();
                }
            }
            if !burst.is_empty() {
                steps.push(keys(&burst));
            }
        }
        steps.push(sleep(2500 * MS));
        steps.push(UserStep::Snap(format!("n{i}")));
    }
    if s.mode == Mode::Lost {
        panic!("the generator does not know what it does");
    }
    leave(&mut steps);
    a.sc.tty.as_mut().unwrap().user = steps;
    Case {
        prop: prop.into(),
        family: "nav".into(),
        seed,
        sessions: vec![Session { bin: "crofiler".into(), inherit: false, sc: a.sc }],
        meta: serde_json::to_value(&m).unwrap(),
    }
}

// ---------------------------------------------------------------- oracle

fn split(mut s: &str) -> Vec<String> {
    let mut v = vec![];
    while !s.is_empty() {
        let n = if let Some(t) = s.strip_prefix("\x1b[") {
            2 + t.find(|c: char| c.is_ascii_alphabetic() || c == '~').map(|i| i + 1).unwrap_or(t.len())
        } else {
            s.chars().next().unwrap().len_utf8()
        };
        v.push(s[..n].to_string());
        s = &s[n..];
    }
    v
}

pub fn judge(case: &Case, runs: &[Run]) -> Verdict {
    let mut v = Verdict { bad: vec![], nontrivial: false };
    let m: Meta = serde_json::from_value(case.meta.clone()).unwrap();
    let o = crate::tuijudge::Obs::new(&runs[0], &case.sessions[0].sc);
    let mut s = Model::new(&m);
    let mut history: Vec<String> = vec![];
    let mut last = 0;
    // Time of the last key that needs attention
    let mut slow: Option<u64> = None;
    for l in &runs[0].lines {
        match l.k.as_str() {
            "TREAD" => {
                let t = l.s(0);
                // Escape and what follows, read together, make another key
                if t.find('\x1b').is_some_and(|i| i + 1 < t.len() && !t[i + 1..].starts_with('[')) || t.ends_with("\x1b\x1b") {
                    return v;
                }
            }
            "KEYS" => {
                let late = slow.is_some_and(|t| o.stalled(t, l.t) > 100 * MS || runs[0].of("TREAD").any(|q| q.t >= t && q.t <= l.t && q.u(1) > 150 * MS));
                if late {
                    return v;
                }
                slow = None;
                for k in split(&l.s(0)) {
                    if slow_key(&k, &s.mode, &s.over) {
                        slow = Some(l.t);
                    }
                    s.key(&k);
                    history.push(match k.as_str() {
                        UP => "Up".into(),
                        DOWN => "Down".into(),
                        LEFT => "Left".into(),
                        RIGHT => "Right".into(),
                        ENTER => "Enter".into(),
                        ESC => "Esc".into(),
                        PGUP => "PgUp".into(),
                        PGDN => "PgDn".into(),
                        HOME => "Home".into(),
                        END => "End".into(),
                        k => k.to_string(),
                    });
                    if s.mode == Mode::Lost {
                        return v;
                    }
                }
                last = l.t;
            }
            "WAITED" => {
                if l.s(0) != "ok" {
                    return v;
                }
                if l.s(1) == "shown" && l.s(2) == "Data from" {
                    s.loaded();
                }
            }
            "SCREEN" if l.s(0).starts_with('n') => {
                // All keys had their effect
                let read: u64 = o.stalled(last, l.t);
                let late = runs[0].of("TREAD").any(|q| q.t <= l.t && q.t + 2 * S > l.t);
                if late || read > S || !o.settled(&l.s(0)) {
                    continue;
                }
                let rows: Vec<String> = (3..l.f.len()).map(|i| l.s(i)).collect();
                if s.mode == Mode::Lost {
                    return v;
                }
                if history.len() > 2 {
                    v.nontrivial = true;
                }
                if let Err(e) = s.check(&rows) {
                    let n = history.len().saturating_sub(12);
                    v.bad.push((
                        match s.mode {
                            Mode::Build => "C16.build",
                            _ => "C16.trace",
                        }
                        .into(),
                        format!("snapshot {} at {:.3} s, after {} keys ending with {}: {e}", l.s(0), l.t as f64 / 1e9, history.len(), history[n..].join(" ")),
                    ));
                    return v;
                }
            }
            _ => {}
        }
    }
    v
}
