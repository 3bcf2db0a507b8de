//! The simulated user: turns a session's acts into terminal events, and keeps the reference
//! line editor that says what the line and the cursor must be.
use crate::plan::*;
use crate::rng::{mix2, Rng};
use crate::term::Term;
use crossterm_real::event::{Event, KeyCode, KeyEvent, KeyModifiers};
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Debug)]
pub struct Editor {
    /// Lines submitted in this session, oldest first.
    pub own: Vec<String>,
    /// Lines saved before the session began, newest first, as far as known.
    pub db: Vec<String>,
    /// `db` is complete.
    pub db_complete: bool,
    pub idx: usize,
    pub edits: BTreeMap<usize, String>,
    pub cursor: usize,
    /// An Up went past what is known: look at the screen to learn what it brought.
    pub learning: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Effect {
    None,
    Changed,
    Enter,
    Exit,
}

impl Editor {
    pub fn new(db: Option<Vec<String>>) -> Editor {
        Editor {
            own: Vec::new(),
            db_complete: db.is_some(),
            db: db.unwrap_or_default(),
            idx: 0,
            edits: BTreeMap::new(),
            cursor: 0,
            learning: false,
        }
    }
    fn base(&self, idx: usize) -> String {
        if idx == 0 {
            String::new()
        } else if idx <= self.own.len() {
            self.own[self.own.len() - idx].clone()
        } else {
            self.db.get(idx - self.own.len() - 1).cloned().unwrap_or_default()
        }
    }
    pub fn line(&self) -> String {
        match self.edits.get(&self.idx) {
            Some(s) => s.clone(),
            None => self.base(self.idx),
        }
    }
    fn set(&mut self, s: String) {
        self.edits.insert(self.idx, s);
    }
    pub fn apply(&mut self, k: &Key) -> Effect {
        let line = self.line();
        let len = line.len();
        match k {
            Key::Char(c, m) => {
                if !c.is_ascii() {
                    return Effect::None;
                }
                if *m == CTRL {
                    match c {
                        'd' | 'z' | 'c' => return Effect::Exit,
                        'm' | 'n' => return self.jump(&line),
                        _ => return Effect::None,
                    }
                }
                let c = match *m {
                    0 => *c,
                    SHIFT => c.to_ascii_uppercase(),
                    _ => return Effect::None,
                };
                let mut l = line;
                l.insert(self.cursor, c);
                self.cursor += 1;
                self.set(l);
                Effect::Changed
            }
            Key::Backspace => {
                if self.cursor == 0 {
                    return Effect::None;
                }
                let mut l = line;
                self.cursor -= 1;
                l.remove(self.cursor);
                self.set(l);
                Effect::Changed
            }
            Key::Delete => {
                if self.cursor >= len {
                    return Effect::None;
                }
                let mut l = line;
                l.remove(self.cursor);
                self.set(l);
                Effect::Changed
            }
            Key::Left(m) | Key::Right(m) => {
                let d = match *m {
                    0 => 1,
                    SHIFT | CTRL => 15,
                    _ => return Effect::None,
                };
                self.cursor = if matches!(k, Key::Left(_)) {
                    self.cursor.saturating_sub(d)
                } else {
                    (self.cursor + d).min(len)
                };
                Effect::Changed
            }
            Key::Home => {
                self.cursor = 0;
                Effect::Changed
            }
            Key::End => {
                self.cursor = len;
                Effect::Changed
            }
            Key::Up => {
                if self.idx < self.own.len() + self.db.len() {
                    self.idx += 1;
                    self.cursor = self.line().len();
                    Effect::Changed
                } else if self.db_complete {
                    Effect::None
                } else {
                    self.learning = true;
                    Effect::None
                }
            }
            Key::Down => {
                if self.idx == 0 {
                    return Effect::None;
                }
                self.idx -= 1;
                self.cursor = self.line().len();
                Effect::Changed
            }
            Key::Enter => Effect::Enter,
            Key::Other(_) | Key::Paste => Effect::None,
        }
    }
    fn jump(&mut self, line: &str) -> Effect {
        let b = line.as_bytes();
        if b.len() < 2 {
            return Effect::None;
        }
        let start = self.cursor.min(b.len() - 1);
        let (step, open, close): (isize, u8, u8) = match b[start] {
            b'(' => (1, b'(', b')'),
            b')' => (-1, b')', b'('),
            _ => return Effect::None,
        };
        let mut depth = 0;
        let mut p = start as isize;
        while p >= 0 && (p as usize) < b.len() {
            if b[p as usize] == open {
                depth += 1;
            } else if b[p as usize] == close {
                depth -= 1;
            }
            if depth == 0 {
                self.cursor = p as usize;
                return Effect::Changed;
            }
            p += step;
        }
        Effect::None
    }
    /// What the screen shows after an Up past the known lines (lines differ from one another).
    pub fn learn(&mut self, shown: Option<&str>) {
        self.learning = false;
        let Some(shown) = shown else { return };
        if shown != self.line() {
            self.db.push(shown.to_string());
            self.idx += 1;
            self.cursor = shown.len();
        }
    }
    pub fn submit(&mut self) -> String {
        let l = self.line();
        self.own.push(l.clone());
        self.edits.clear();
        self.idx = 0;
        self.cursor = 0;
        l
    }
}

pub enum Ev {
    Key(Key),
    Resize(u16, u16),
}

pub struct Climb {
    pub left: u32,
    pub think: u64,
    pub pressed: bool,
    pub idx_before: usize,
    /// Marked climb; true in `marked` when the mark has just been typed.
    pub mark: bool,
    pub marked: bool,
}

pub const MARK: char = 'Z';

pub struct User {
    pub acts: Vec<Act>,
    pub noise: u64,
    pub pos: usize,
    pub queue: VecDeque<(u64, Ev)>,
    pub editor: Editor,
    /// An UpAll in progress.
    pub climbing: Option<Climb>,
    pub descending: Option<u64>,
}

impl User {
    /// The keys that spell `text`.
    pub fn keys(&self, text: &str) -> Vec<Key> {
        let plain: Vec<Key> = text.chars().map(|c| Key::Char(c, 0)).collect();
        // Only from an empty line with nothing else going on.
        let fresh = self.editor.idx == 0 && self.editor.line().is_empty();
        if self.noise == 0 || !fresh || plain.len() > 300 {
            return plain;
        }
        let mut r = Rng::new(mix2(self.noise, self.pos as u64));
        if r.chance(1, 2) {
            return plain;
        }
        // Something like it has been entered before.
        let own = &self.editor.own;
        // (A climb leaves its marks on the lines until the next Enter.)
        let marked = self.editor.edits.keys().any(|k| *k > 0);
        if !own.is_empty() && !marked && r.chance(1, 2) {
            let same = own.iter().rev().take(12).position(|l| l == text);
            let up = same.unwrap_or(r.idx(own.len().min(4)));
            let old = &own[own.len() - 1 - up];
            let keep = old.bytes().zip(text.bytes()).take_while(|(a, b)| a == b).count();
            let mut out = vec![Key::Up; up + 1];
            if old.is_ascii() && text.is_ascii() && old.len() < 60 {
                out.extend(vec![Key::Backspace; old.len() - keep]);
                out.extend(plain[keep..].iter().cloned());
                return out;
            }
        }
        let mut out = Vec::new();
        let slips = 1 + r.below(3);
        let at: Vec<usize> = (0..slips).map(|_| r.idx(plain.len() + 1)).collect();
        let mut k = 0;
        while k <= plain.len() {
            for _ in 0..at.iter().filter(|a| **a == k).count() {
                match r.below(10) {
                    0 => out.extend([Key::Char('9', 0), Key::Backspace]),
                    1 if k > 0 => out.extend([Key::Left(0), Key::Right(0)]),
                    2 => out.extend([Key::Home, Key::End]),
                    3 => out.push(Key::Other(r.below(OTHERS as u64) as u8)),
                    4 => out.extend([Key::Home, Key::Char('(', 0), Key::Left(0), Key::Delete, Key::End]),
                    5 => out.extend([Key::Left(SHIFT), Key::Right(CTRL), Key::End]),
                    6 if !self.editor.own.is_empty() => out.extend([Key::Up, Key::Down]),
                    7 if !self.editor.own.is_empty() => {
                        out.extend([Key::Up, Key::Char('7', 0), Key::Left(0), Key::Down])
                    }
                    8 if k + 1 < plain.len() => {
                        // The next but one first.
                        out.extend([plain[k + 1].clone(), Key::Left(0), plain[k].clone(), Key::Right(0)]);
                        k += 2;
                    }
                    _ => out.extend([Key::Char('$', 0), Key::Char('-', 0), Key::Backspace, Key::Backspace]),
                }
            }
            if k < plain.len() {
                out.push(plain[k].clone());
            }
            k += 1;
        }
        match r.below(6) {
            0 => out.push(Key::Home),
            1 => out.extend([Key::Home, Key::Char('n', CTRL), Key::End]),
            2 => out.push(Key::Left(SHIFT)),
            _ => {}
        }
        out
    }
    pub fn new(acts: Vec<Act>, noise: u64, db: Option<Vec<String>>) -> User {
        User {
            acts,
            noise,
            pos: 0,
            queue: VecDeque::new(),
            editor: Editor::new(db),
            climbing: None,
            descending: None,
        }
    }
}

fn mods(m: u8) -> KeyModifiers {
    let mut k = KeyModifiers::empty();
    if m & SHIFT != 0 {
        k |= KeyModifiers::SHIFT;
    }
    if m & CTRL != 0 {
        k |= KeyModifiers::CONTROL;
    }
    if m & ALT != 0 {
        k |= KeyModifiers::ALT;
    }
    k
}

pub const OTHERS: u8 = 12;
pub fn to_event(k: &Key) -> Event {
    let ev = |c, m| Event::Key(KeyEvent::new(c, mods(m)));
    match k {
        Key::Char(c, m) => ev(KeyCode::Char(*c), *m),
        Key::Backspace => ev(KeyCode::Backspace, 0),
        Key::Delete => ev(KeyCode::Delete, 0),
        Key::Left(m) => ev(KeyCode::Left, *m),
        Key::Right(m) => ev(KeyCode::Right, *m),
        Key::Up => ev(KeyCode::Up, 0),
        Key::Down => ev(KeyCode::Down, 0),
        Key::Home => ev(KeyCode::Home, 0),
        Key::End => ev(KeyCode::End, 0),
        Key::Enter => ev(KeyCode::Enter, 0),
        Key::Paste => Event::Paste("1+1".into()),
        Key::Other(n) => match n % OTHERS {
            0 => ev(KeyCode::Esc, 0),
            1 => ev(KeyCode::Tab, 0),
            2 => ev(KeyCode::F(1), 0),
            3 => ev(KeyCode::PageUp, 0),
            4 => ev(KeyCode::Insert, 0),
            5 => ev(KeyCode::Char('\u{e9}'), 0),
            6 => ev(KeyCode::Char('a'), ALT),
            7 => Event::FocusGained,
            8 => ev(KeyCode::BackTab, SHIFT),
            9 => ev(KeyCode::Char('x'), CTRL),
            10 => ev(KeyCode::Char('d'), CTRL | ALT),
            _ => Event::FocusLost,
        },
    }
}

/// The line shown on the (wide) prompt row: everything between the prompt and the cursor,
/// the cursor standing at the end of a recalled line.
pub fn shown_line(t: &Term) -> String {
    let s = t.scr();
    let row = s.text(s.abs_cursor());
    let end = s.cx.min(row.len());
    if end < 2 {
        return String::new();
    }
    row[2..end].to_string()
}

/// The line an Up brought, `line` having been shown with the cursor at `cursor` before; None when
/// neither the row nor the cursor changed.
pub fn recalled(t: &Term, line: &str, cursor: usize) -> Option<String> {
    let s = t.scr();
    let row = s.text(s.abs_cursor());
    if s.cx == cursor + 2 && row.get(2..).unwrap_or("").trim_end() == line.trim_end() {
        return None;
    }
    Some(shown_line(t))
}

/// Does the screen show `line` with the cursor at `cursor`, as the current prompt?
pub fn check_screen(t: &Term, alt: bool, line: &str, cursor: usize) -> Result<(), String> {
    let s = t.scr();
    let cols = t.cols;
    if alt {
        if cols < 3 {
            return Ok(());
        }
        let a = cols - 2;
        let crow = s.abs_cursor();
        let (dr, dc) = (cursor / a, cursor % a + 2);
        if s.cx != dc {
            return Err(format!("cursor in column {} instead of {dc} (position {cursor} of {line:?}, {cols} columns)", s.cx));
        }
        if crow < dr {
            return Err("cursor above the line".into());
        }
        let start = crow - dr;
        let n = line.len().div_ceil(a).max(1);
        for k in 0..n {
            let seg = &line[(k * a).min(line.len())..((k + 1) * a).min(line.len())];
            let want = format!("{}{seg}", if k == 0 { "# " } else { "  " });
            let got = s.text(start + k);
            if got.trim_end() != want.trim_end() {
                return Err(format!("row {k} of the line shows {got:?} instead of {want:?}"));
            }
        }
        for r in start + n..s.top + t.height {
            let got = s.text(r);
            if !got.trim_end().is_empty() {
                return Err(format!("text below the line: {got:?}"));
            }
        }
        return Ok(());
    }
    if cols < 5 {
        return Ok(());
    }
    let w = cols - 4;
    let row = s.text(s.abs_cursor());
    let cx = s.cx;
    let fail = |m: &str| {
        Err(format!("{m}: row {row:?}, cursor column {cx}, line {line:?}, position {cursor}, {cols} columns"))
    };
    if s.pending {
        return fail("cursor beyond the last column");
    }
    if cx < 2 {
        return fail("cursor on the left mark");
    }
    if cursor + 2 < cx {
        return fail("cursor to the right of its character");
    }
    let o = cursor + 2 - cx;
    if o > line.len() {
        return fail("cursor column does not fit");
    }
    let left = if o == 0 { "# " } else { "< " };
    // Everything to the right visible:
    let full = format!("{left}{}", &line[o..]);
    if row.trim_end() == full.trim_end() && line.len() - o <= cols - 2 {
        return Ok(());
    }
    for e in (o..line.len()).rev() {
        if e - o > w {
            continue;
        }
        let part = format!("{left}{} >", &line[o..e]);
        if row.trim_end() == part {
            if cursor >= e {
                return fail("cursor on the right mark");
            }
            return Ok(());
        }
    }
    fail("the row does not show the line")
}
