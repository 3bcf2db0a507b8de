//! The seams' view of a session: terminal device, events, command line.
use crate::plan::*;
use crate::user::{self, Effect, Ev};
use crate::world::{self, *};
use crossterm_real::event::Event;
use std::io;

pub struct Hooks {
    pub sid: usize,
}

fn eio() -> io::Error {
    io::Error::from_raw_os_error(libc::EIO)
}
fn die() -> ! {
    std::panic::panic_any(SimKill)
}

impl simrt::SessionHooks for Hooks {
    fn args(&self) -> Vec<String> {
        let g = lock();
        let s = &g.as_ref().unwrap().sess[self.sid];
        let mut v = vec!["bcalc".to_string()];
        v.extend(s.plan.args.iter().cloned());
        v
    }
    fn read_event(&self) -> io::Result<Event> {
        read_event(self.sid)
    }
    fn poll(&self, us: u64) -> io::Result<bool> {
        crate::vfs::sleep(us.min(1000));
        Ok(true)
    }
    fn cursor_position(&self) -> io::Result<(u16, u16)> {
        let (g, v) = op_noyield(self.sid, Class::CursorPos);
        match v {
            Verdict::Dead => {
                drop(g);
                die()
            }
            Verdict::Fail(_) => Err(io::Error::new(
                io::ErrorKind::Other,
                "The cursor position could not be read within a normal duration",
            )),
            Verdict::Go => {
                let t = &g.as_ref().unwrap().sess[self.sid].term;
                Ok((t.scr().cx as u16, t.scr().cy as u16))
            }
        }
    }
    fn size(&self) -> io::Result<(u16, u16)> {
        let (g, v) = op_noyield(self.sid, Class::WinSize);
        match v {
            Verdict::Dead => {
                drop(g);
                die()
            }
            Verdict::Fail(_) => Err(eio()),
            Verdict::Go => {
                let t = &g.as_ref().unwrap().sess[self.sid].term;
                Ok((t.cols as u16, t.height as u16))
            }
        }
    }
    fn set_raw(&self, on: bool) -> io::Result<()> {
        let (mut g, v) = op_noyield(self.sid, if on { Class::RawOn } else { Class::RawOff });
        match v {
            Verdict::Dead => {
                if on {
                    drop(g);
                    die()
                }
                Ok(())
            }
            Verdict::Fail(_) => Err(eio()),
            Verdict::Go => {
                let s = &mut g.as_mut().unwrap().sess[self.sid];
                s.raw = on;
                s.term.raw = on;
                s.raw_was_on |= on;
                Ok(())
            }
        }
    }
    fn is_raw(&self) -> bool {
        lock().as_ref().unwrap().sess[self.sid].raw
    }
    fn tty_write(&self, data: &[u8]) -> io::Result<usize> {
        tty_write(self.sid, data)
    }
    fn err_write(&self, data: &[u8]) {
        let mut g = lock();
        let s = &mut g.as_mut().unwrap().sess[self.sid];
        if !s.dead {
            s.stderr.push_str(&String::from_utf8_lossy(data));
        }
    }
    fn exit(&self, code: i32) -> ! {
        {
            // Nothing that unwinding still runs happens in reality.
            let mut g = lock();
            let w = g.as_mut().unwrap();
            if !w.sess[self.sid].dead {
                w.kill(self.sid);
                w.sess[self.sid].exited = Some(code);
            }
        }
        std::panic::panic_any(SimExit(code))
    }
    fn sleep(&self, us: u64) {
        crate::vfs::sleep(us)
    }
    fn delay(&self) -> u32 {
        let mut g = lock();
        *g.as_mut().unwrap().sess[self.sid].rng.pick(&[0, 1, 2, 5, 20])
    }
    fn fatal(&self, p: &(dyn std::any::Any + Send)) -> bool {
        p.is::<SimKill>() || p.is::<SimExit>()
    }
}

pub fn tty_write(sid: usize, data: &[u8]) -> io::Result<usize> {
    let (mut g, v) = op_noyield(sid, Class::TtyWrite);
    let w = g.as_mut().unwrap();
    match v {
        Verdict::Dead => Ok(data.len()),
        Verdict::Go => {
            w.mixlog_bytes(data);
            w.sess[sid].term.feed(data);
            w.sess[sid].last_tty_failed = false;
            Ok(data.len())
        }
        Verdict::Fail(FaultKind::Short) => {
            let n = (data.len() / 2).max(1);
            w.sess[sid].term.feed(&data[..n]);
            w.sess[sid].last_tty_failed = false;
            Ok(n)
        }
        Verdict::Fail(k) => {
            let s = &mut w.sess[sid];
            s.last_tty_failed = true;
            let e = match k {
                FaultKind::Errno(e) => io::Error::from_raw_os_error(e),
                _ => eio(),
            };
            if e.kind() != io::ErrorKind::Interrupted && !s.exit_sent {
                s.tty_failed_early = true;
            }
            Err(e)
        }
    }
}

/// Rows a completed line takes.
pub fn echo_rows(len: usize, cols: usize) -> usize {
    let a = cols.saturating_sub(2).max(1);
    len.div_ceil(a).max(1)
}

fn complete_line(w: &mut World, sid: usize) {
    let alt = w.sess[sid].term.alt.is_some();
    let t_res = w.clock;
    let need = matches!(w.sess[sid].lines.last(), Some(l) if !l.done);
    if !need {
        return;
    }
    let res = w.tick();
    let screen = w.checks.screen;
    let s = &mut w.sess[sid];
    let faulted = std::mem::take(&mut s.cur_faulted);
    let prompt_row = s.term.scr().abs_cursor();
    let cols = s.term.cols;
    let l = s.lines.last_mut().unwrap();
    let n = echo_rows(l.text.len(), cols);
    let from = l.echo_row as usize + n;
    l.done = true;
    l.res = res;
    l.t_res = t_res;
    l.faulted |= faulted;
    let rows = s.term.logical(from.min(prompt_row), prompt_row);
    let l = s.lines.last_mut().unwrap();
    l.shown = Some(rows);
    // The whole line stays on the screen, wrapped.
    let mut bad = None;
    if screen && cols >= 3 {
        let a = cols - 2;
        for k in 0..n {
            let seg = &l.text[(k * a).min(l.text.len())..((k + 1) * a).min(l.text.len())];
            let want = format!("{}{seg}", if k == 0 { "# " } else { "  " });
            let got = s.term.scr().text(l.echo_row as usize + k);
            if got.trim_end() != want.trim_end() {
                bad = Some(format!(
                    "submitted line {:?} ({cols} columns{}): row {k} shows {got:?} instead of {want:?}",
                    l.text,
                    if alt { ", alternate screen" } else { "" }
                ));
                break;
            }
        }
        // Its output follows on the next row: no row is skipped.
        if bad.is_none() && !alt && s.tty_faults == 0 && prompt_row > from + 1 && s.term.scr().text(from).trim().is_empty() {
            bad = Some(format!("submitted line {:?} ({cols} columns): an empty row before its output", l.text));
        }
        if bad.is_none() && prompt_row < from + 1 {
            bad = Some(format!("no room left for the output of {:?}: next prompt on row {prompt_row}, line on row {}", l.text, l.echo_row));
        }
    }
    let text = l.text.clone();
    let shown = l.shown.clone();
    if let Some(b) = bad {
        w.violate("screen-submitted", b);
    }
    w.note(|| format!("s{sid} answered {text:?}: {shown:?}"));
}

fn read_event(sid: usize) -> io::Result<Event> {
    let mut g = lock();
    {
        let w = g.as_mut().unwrap();
        if w.sess[sid].dead {
            drop(g);
            die()
        }
        if !w.sess[sid].prompted {
            w.sess[sid].prompted = true;
            let st = w.tick();
            let f = std::mem::take(&mut w.sess[sid].cur_faulted);
            let now = w.clock;
            let s = &mut w.sess[sid];
            s.start_res = st;
            s.start_faulted = f;
            s.t_ready = now;
            s.act = 0;
            w.note(|| format!("s{sid} first prompt"));
        }
        complete_line(w, sid);
        if w.sess[sid].exit_sent {
            w.violate("exit-ignored", format!("s{sid}: the session goes on after an exit key"));
            w.kill(sid);
            drop(g);
            die()
        }
        // What did an Up past the known lines bring?
        let checks = w.checks;
        let s = &mut w.sess[sid];
        let u = s.user.as_mut().unwrap();
        let mut bad: Vec<(&str, String)> = Vec::new();
        if u.editor.learning {
            let shown = user::recalled(&s.term, &u.editor.line(), u.editor.cursor);
            u.editor.learn(shown.as_deref());
        } else if checks.recall {
            let shown = user::shown_line(&s.term);
            if u.editor.cursor == u.editor.line().len() && shown != u.editor.line() {
                bad.push(("recall", format!("s{sid}: shows {shown:?} where {:?} was expected", u.editor.line())));
            }
        }
        if checks.screen && s.tty_faults == 0 {
            if u.editor.idx == 0 && u.editor.edits.is_empty() && s.above.is_none() {
                let row = s.term.scr().abs_cursor();
                let from = row.saturating_sub(60);
                s.above = Some((from, (from..row).map(|r| s.term.scr().text(r)).collect()));
            } else if let Some((from, rows)) = &s.above {
                for (k, old) in rows.iter().enumerate() {
                    let now = s.term.scr().text(from + k);
                    if now.trim_end() != old.trim_end() {
                        bad.push(("screen", format!("s{sid}: a row above the line that showed {old:?} now shows {now:?}")));
                        break;
                    }
                }
            }
            let l = u.editor.line();
            if let Err(e) = user::check_screen(&s.term, s.term.alt.is_some(), &l, u.editor.cursor) {
                bad.push(("screen", format!("s{sid}: {e}")));
            }
            if !s.term.raw {
                bad.push(("screen", format!("s{sid}: waiting for keys without raw mode")));
            }
        }
        for (k, d) in bad {
            w.violate(k, d);
        }
    }
    loop {
        // Next event of the script.
        let (think, ev, act) = {
            let w = g.as_mut().unwrap();
            next_of(w, sid)
        };
        {
            let w = g.as_mut().unwrap();
            w.sess[sid].act = act;
        }
        if think > 0 {
            g = pause(g, sid, think);
        }
        let w = g.as_mut().unwrap();
        if w.sess[sid].dead {
            drop(g);
            die()
        }
        drop(g);
        let (g2, v) = op_noyield(sid, Class::Event);
        g = g2;
        let w = g.as_mut().unwrap();
        match v {
            Verdict::Dead => {
                drop(g);
                die()
            }
            Verdict::Fail(_) => return Err(eio()),
            Verdict::Go => {}
        }
        return Ok(deliver(w, sid, ev));
    }
}

fn exit_event(w: &World, sid: usize) -> Key {
    let k = crate::rng::mix2(w.seed, sid as u64) % 3;
    Key::Char(['d', 'c', 'z'][k as usize], CTRL)
}

fn next_of(w: &mut World, sid: usize) -> (u64, Ev, i32) {
    let exit = exit_event(w, sid);
    let stamp = w.tick();
    let s = &mut w.sess[sid];
    let u = s.user.as_mut().unwrap();
    loop {
        let act = u.pos as i32 - 1;
        if let Some(mut c) = u.climbing.take() {
            let idx = u.editor.idx;
            let r = s.ups.last_mut().unwrap();
            if c.pressed {
                if idx == c.idx_before {
                    r.ended = true;
                } else {
                    r.seen.push(u.editor.line());
                }
            }
            if r.ended || c.left == 0 {
                if r.ended && r.end == 0 {
                    r.end = stamp;
                    r.known = u.editor.db.len();
                    r.failed = s.store_faults > r.faults;
                }
                if c.mark {
                    u.descending = Some(c.think);
                    u.queue.push_back((1, Ev::Key(Key::Backspace)));
                }
                continue;
            }
            if c.mark && !c.marked {
                c.marked = true;
                c.pressed = false;
                let think = c.think;
                u.climbing = Some(c);
                return (think, Ev::Key(Key::Char(user::MARK, 0)), act);
            }
            c.marked = false;
            c.left -= 1;
            c.pressed = true;
            c.idx_before = idx;
            let think = c.think;
            u.climbing = Some(c);
            return (think, Ev::Key(Key::Up), act);
        }
        if let Some(think) = u.descending {
            if u.editor.idx > 0 {
                return (think, Ev::Key(Key::Down), act);
            }
            u.descending = None;
        }
        if let Some((t, e)) = u.queue.pop_front() {
            return (t, e, act);
        }
        if u.pos >= u.acts.len() {
            s.exit_sent = true;
            let n = u.acts.len() as i32;
            return (1000, Ev::Key(exit), n);
        }
        let a = u.acts[u.pos].clone();
        u.pos += 1;
        match a {
            Act::Line(t, text) => {
                let mut first = t.max(1);
                for k in u.keys(&text) {
                    u.queue.push_back((first, Ev::Key(k)));
                    first = 0;
                }
                u.queue.push_back((first, Ev::Key(Key::Enter)));
            }
            Act::Key(t, k) => u.queue.push_back((t, Ev::Key(k))),
            Act::Resize(t, c, r) => u.queue.push_back((t, Ev::Resize(c, r))),
            Act::UpAll(..) | Act::Climb(_) => {
                let (t, n, mark) = match a {
                    Act::UpAll(t, n) => (t, n, false),
                    Act::Climb(t) => (t, 0, true),
                    _ => unreachable!(),
                };
                u.climbing = Some(user::Climb {
                    left: if n == 0 { 100_000 } else { n },
                    think: t.max(1),
                    pressed: false,
                    idx_before: 0,
                    mark,
                    marked: false,
                });
                s.ups.push(UpRec {
                    own: u.editor.own.clone(),
                    seen: Vec::new(),
                    ended: false,
                    stamp,
                    end: 0,
                    known: 0,
                    faults: s.store_faults,
                    failed: false,
                });
            }
            Act::DownAll(t) => u.descending = Some(t.max(1)),
        }
    }
}

fn deliver(w: &mut World, sid: usize, ev: Ev) -> Event {
    match ev {
        Ev::Resize(c, r) => {
            w.note(|| format!("s{sid} resize {c}x{r}"));
            w.mixlog((c as u64) << 16 | r as u64);
            w.sess[sid].term.resize(c, r);
            w.sess[sid].above = None;
            Event::Resize(c, r)
        }
        Ev::Key(k) => {
            let act = w.sess[sid].act;
            w.note(|| format!("s{sid} key {k:?} (act {act})"));
            let clock = w.clock;
            let s = &mut w.sess[sid];
            let u = s.user.as_mut().unwrap();
            let cur = u.editor.cursor;
            match u.editor.apply(&k) {
                Effect::Enter => {
                    s.above = None;
                    let text = u.editor.submit();
                    let a = s.term.cols.saturating_sub(2).max(1);
                    let row = s.term.scr().abs_cursor();
                    let echo_row =
                        if s.term.alt.is_some() { row.saturating_sub(cur / a) } else { row };
                    s.cur_faulted = false;
                    let inv = w.tick();
                    w.sess[sid].lines.push(LineRec {
                        act,
                        text,
                        inv,
                        res: u64::MAX,
                        done: false,
                        shown: None,
                        faulted: false,
                        t_inv: clock,
                        t_res: 0,
                        echo_row: echo_row as u64,
                    });
                }
                Effect::Exit => s.exit_sent = true,
                _ => {}
            }
            user::to_event(&k)
        }
    }
}

/// After the run: what a session that did not live to its next prompt had shown.
pub fn settle_cut_lines(s: &mut world::Sess) {
    let row = s.term.scr().abs_cursor();
    let cols = s.term.cols;
    let end = s.end_stamp;
    let t_end = s.t_end;
    let f = s.cur_faulted;
    let mut shown = None;
    if let Some(l) = s.lines.last() {
        if !l.done {
            let from = l.echo_row as usize + echo_rows(l.text.len(), cols);
            if row > from {
                shown = Some(s.term.logical(from, row));
            }
        }
    }
    if let Some(l) = s.lines.last_mut() {
        if !l.done {
            l.res = end;
            l.t_res = t_end;
            l.faulted |= f;
            l.shown = shown;
        }
    }
    if !s.prompted {
        s.start_res = end;
        s.start_faulted = f;
        s.t_ready = t_end;
    }
}
