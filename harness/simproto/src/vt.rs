//! Minimal terminal emulator: enough of VT100/xterm for what the text
//! interface emits. Cells hold one char each; wide chars take two cells.

#[derive(Clone, Debug)]
pub struct Screen {
    pub w: usize,
    pub h: usize,
    pub cells: Vec<char>,
    pub rev: Vec<bool>,
    saved: Option<Vec<char>>,
    pub cx: usize,
    pub cy: usize,
    pub cursor_visible: bool,
    pub alt: bool,
    pub mouse: bool,
    attr: bool,
    state: St,
    par: String,
    utf: Vec<u8>,
    need: usize,
    pub unknown: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Ground,
    Esc,
    Csi,
    Osc,
    OscEsc,
}

impl Screen {
    pub fn new(w: u16, h: u16) -> Self {
        let n = w as usize * h as usize;
        Screen {
            w: w as usize,
            h: h as usize,
            cells: vec![' '; n],
            rev: vec![false; n],
            saved: None,
            cx: 0,
            cy: 0,
            cursor_visible: true,
            alt: false,
            mouse: false,
            attr: false,
            state: St::Ground,
            par: String::new(),
            utf: Vec::new(),
            need: 0,
            unknown: 0,
        }
    }

    pub fn resize(&mut self, w: u16, h: u16) {
        let (w, h) = (w as usize, h as usize);
        let mut cells = vec![' '; w * h];
        for y in 0..h.min(self.h) {
            for x in 0..w.min(self.w) {
                cells[y * w + x] = self.cells[y * self.w + x];
            }
        }
        self.cells = cells;
        self.rev = vec![false; w * h];
        self.w = w;
        self.h = h;
        self.cx = self.cx.min(w.saturating_sub(1));
        self.cy = self.cy.min(h.saturating_sub(1));
    }

    pub fn feed(&mut self, data: &[u8]) {
        for &b in data {
            self.byte(b);
        }
    }

    fn byte(&mut self, b: u8) {
        match self.state {
            St::Ground => {
                if self.need > 0 {
                    if b & 0xC0 == 0x80 {
                        self.utf.push(b);
                        self.need -= 1;
                        if self.need == 0 {
                            let s = std::mem::take(&mut self.utf);
                            let c = std::str::from_utf8(&s)
                                .ok()
                                .and_then(|s| s.chars().next())
                                .unwrap_or('\u{FFFD}');
                            self.put(c);
                        }
                        return;
                    }
                    self.need = 0;
                    self.utf.clear();
                }
                match b {
                    0x1b => self.state = St::Esc,
                    b'\r' => self.cx = 0,
                    b'\n' => {
                        if self.cy + 1 < self.h {
                            self.cy += 1
                        } else {
                            self.scroll()
                        }
                    }
                    8 => self.cx = self.cx.saturating_sub(1),
                    b'\t' => self.cx = ((self.cx / 8 + 1) * 8).min(self.w.saturating_sub(1)),
                    0..=31 => {}
                    0x80.. => {
                        self.need = if b >= 0xF0 {
                            3
                        } else if b >= 0xE0 {
                            2
                        } else {
                            1
                        };
                        self.utf = vec![b];
                    }
                    _ => self.put(b as char),
                }
            }
            St::Esc => {
                self.par.clear();
                self.state = match b {
                    b'[' => St::Csi,
                    b']' => St::Osc,
                    _ => St::Ground,
                };
            }
            St::Csi => {
                if (0x40..=0x7e).contains(&b) {
                    self.state = St::Ground;
                    self.csi(b);
                } else {
                    self.par.push(b as char);
                }
            }
            St::Osc => match b {
                7 => self.state = St::Ground,
                0x1b => self.state = St::OscEsc,
                _ => {}
            },
            St::OscEsc => self.state = St::Ground,
        }
    }

    fn scroll(&mut self) {
        self.cells.drain(..self.w);
        self.cells.extend(std::iter::repeat(' ').take(self.w));
        self.rev.drain(..self.w);
        self.rev.extend(std::iter::repeat(false).take(self.w));
    }

    /// Does this character take two columns?
    fn wide(c: char) -> bool {
        matches!(c as u32, 0x1100..=0x115F | 0x2E80..=0xA4CF | 0xAC00..=0xD7A3 | 0xF900..=0xFAFF | 0xFE30..=0xFE6F | 0xFF00..=0xFF60 | 0xFFE0..=0xFFE6 | 0x1F300..=0x1FAFF | 0x20000..=0x3FFFD)
    }

    /// Overwriting one half of a wide character erases the other one
    fn erase(&mut self, i: usize) {
        if i % self.w > 0 && self.cells[i] == '\0' {
            self.cells[i - 1] = ' ';
        }
        if i % self.w + 1 < self.w && self.cells[i + 1] == '\0' {
            self.cells[i + 1] = ' ';
        }
    }

    fn put(&mut self, c: char) {
        let wide = Self::wide(c);
        if self.cx + wide as usize >= self.w {
            self.cx = 0;
            if self.cy + 1 < self.h {
                self.cy += 1;
            } else {
                self.scroll();
            }
        }
        let i = self.cy * self.w + self.cx;
        if i < self.cells.len() {
            self.erase(i);
            self.cells[i] = c;
            self.rev[i] = self.attr;
        }
        self.cx += 1;
        if wide && i + 1 < self.cells.len() && self.cx < self.w {
            self.erase(i + 1);
            self.cells[i + 1] = '\0';
            self.rev[i + 1] = self.attr;
            self.cx += 1;
        }
    }

    fn csi(&mut self, f: u8) {
        let par = std::mem::take(&mut self.par);
        if let Some(p) = par.strip_prefix('?') {
            let on = f == b'h';
            for n in p.split(';') {
                match n {
                    "25" => self.cursor_visible = on,
                    "1049" | "47" | "1047" => {
                        if on && !self.alt {
                            self.saved = Some(self.cells.clone());
                            self.cells.fill(' ');
                        } else if !on && self.alt {
                            if let Some(s) = self.saved.take() {
                                if s.len() == self.cells.len() {
                                    self.cells = s;
                                }
                            }
                        }
                        self.alt = on;
                    }
                    "1000" | "1002" | "1006" | "1015" => self.mouse = on,
                    _ => {}
                }
            }
            return;
        }
        let nums: Vec<usize> = par.split(';').map(|s| s.parse().unwrap_or(0)).collect();
        let n = |i: usize, d: usize| nums.get(i).copied().filter(|&v| v != 0).unwrap_or(d);
        match f {
            b'H' | b'f' => {
                self.cy = (n(0, 1) - 1).min(self.h.saturating_sub(1));
                self.cx = (n(1, 1) - 1).min(self.w.saturating_sub(1));
            }
            b'A' => self.cy = self.cy.saturating_sub(n(0, 1)),
            b'B' => self.cy = (self.cy + n(0, 1)).min(self.h.saturating_sub(1)),
            b'C' => self.cx = (self.cx + n(0, 1)).min(self.w.saturating_sub(1)),
            b'D' => self.cx = self.cx.saturating_sub(n(0, 1)),
            b'J' => match nums.first().copied().unwrap_or(0) {
                2 | 3 => {
                    self.cells.fill(' ');
                    self.rev.fill(false)
                }
                0 => {
                    let i = self.cy * self.w + self.cx.min(self.w);
                    self.cells[i..].fill(' ');
                    self.rev[i..].fill(false)
                }
                _ => self.unknown += 1,
            },
            b'K' => {
                let (a, b) = (self.cy * self.w + self.cx.min(self.w), (self.cy + 1) * self.w);
                self.cells[a..b].fill(' ');
            }
            b'm' => {
                for &x in &nums {
                    match x {
                        0 => self.attr = false,
                        7 => self.attr = true,
                        27 => self.attr = false,
                        _ => {}
                    }
                }
            }
            b'h' | b'l' => {}
            _ => self.unknown += 1,
        }
    }

    pub fn flags(&self) -> String {
        format!(
            "cursor={} alt={} mouse={} unknown={}",
            self.cursor_visible as u8, self.alt as u8, self.mouse as u8, self.unknown
        )
    }
    pub fn lines(&self) -> Vec<String> {
        (0..self.h)
            .map(|y| {
                self.cells[y * self.w..(y + 1) * self.w]
                    .iter()
                    .filter(|&&c| c != '\0')
                    .collect::<String>()
                    .trim_end()
                    .to_string()
            })
            .collect()
    }

    pub fn text(&self) -> String {
        self.lines().join("\n")
    }

    /// All the text with whitespace and box drawing squeezed, to look for phrases
    /// that the toolkit may have wrapped over several lines
    pub fn flat(&self) -> String {
        let mut o = String::new();
        let mut sp = true;
        for y in 0..self.h {
            for x in 0..self.w {
                let c = self.cells[y * self.w + x];
                let c = if c.is_whitespace() || ('\u{2500}'..='\u{257f}').contains(&c) {
                    ' '
                } else {
                    c
                };
                if c == ' ' {
                    if !sp {
                        o.push(' ');
                        sp = true
                    }
                } else {
                    o.push(c);
                    sp = false;
                }
            }
            if !sp {
                o.push(' ');
                sp = true;
            }
        }
        o
    }
}
