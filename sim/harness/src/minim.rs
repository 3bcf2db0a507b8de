//! Makes a failing plan small while the same kind of violation remains.
use crate::plan::*;
use std::time::{Duration, Instant};

pub struct Min<'a> {
    pub fails: &'a mut dyn FnMut(&Plan) -> bool,
    pub better: &'a mut dyn FnMut(&Plan),
    pub until: Instant,
    pub tries: u64,
}

/// Position of session (epoch, index) in the flat numbering, and back.
fn sid_of(p: &Plan, e: usize, k: usize) -> usize {
    p.epochs[..e].iter().map(|x| x.len()).sum::<usize>() + k
}

impl Min<'_> {
    fn take(&mut self, best: &mut Plan, cand: Plan) -> bool {
        if cand == *best || Instant::now() > self.until {
            return false;
        }
        self.tries += 1;
        if (self.fails)(&cand) {
            *best = cand;
            (self.better)(best);
            true
        } else {
            false
        }
    }

    pub fn run(&mut self, best: &mut Plan, budget: Duration) {
        self.until = Instant::now() + budget;
        loop {
            let before = best.clone();
            self.faults(best);
            self.epochs(best);
            self.sessions(best);
            self.acts(best);
            self.details(best);
            self.texts(best);
            if *best == before || Instant::now() > self.until {
                break;
            }
        }
    }

    fn faults(&mut self, best: &mut Plan) {
        let mut k = best.faults.len();
        while k > 0 {
            k -= 1;
            let mut c = best.clone();
            c.faults.remove(k);
            self.take(best, c);
            k = k.min(best.faults.len());
        }
        for k in 0..best.faults.len() {
            if best.faults[k].count > 1 {
                let mut c = best.clone();
                c.faults[k].count = 1;
                self.take(best, c);
            }
            if let FaultKind::Stall(us) = best.faults[k].kind {
                for d in [1000, us / 10, us / 2] {
                    let mut c = best.clone();
                    c.faults[k].kind = FaultKind::Stall(d);
                    if self.take(best, c) {
                        break;
                    }
                }
            }
            for n in 0..best.faults[k].nth.min(6) {
                let mut c = best.clone();
                c.faults[k].nth = n;
                if self.take(best, c) {
                    break;
                }
            }
        }
    }

    fn epochs(&mut self, best: &mut Plan) {
        let mut e = best.epochs.len();
        while e > 0 {
            e -= 1;
            if best.epochs.len() < 2 {
                break;
            }
            let mut c = best.clone();
            let first = sid_of(best, e, 0);
            let n = c.epochs.remove(e).len();
            c.faults.retain(|f| f.sid < first || f.sid >= first + n);
            for f in &mut c.faults {
                if f.sid >= first + n {
                    f.sid -= n;
                }
            }
            self.take(best, c);
            e = e.min(best.epochs.len());
        }
    }

    fn sessions(&mut self, best: &mut Plan) {
        let mut e = best.epochs.len();
        while e > 0 {
            e -= 1;
            let mut k = best.epochs[e].len();
            while k > 0 {
                k -= 1;
                if best.epochs[e].len() < 2 {
                    break;
                }
                let id = sid_of(best, e, k);
                let mut c = best.clone();
                c.epochs[e].remove(k);
                c.faults.retain(|f| f.sid != id);
                for f in &mut c.faults {
                    if f.sid > id {
                        f.sid -= 1;
                    }
                }
                self.take(best, c);
            }
        }
    }

    fn without(best: &Plan, e: usize, k: usize, a: usize, n: usize) -> Plan {
        let id = sid_of(best, e, k);
        let mut c = best.clone();
        c.epochs[e][k].acts.drain(a..a + n);
        c.faults.retain(|f| f.sid != id || f.act < a as i32 || f.act >= (a + n) as i32);
        for f in &mut c.faults {
            if f.sid == id && f.act >= (a + n) as i32 {
                f.act -= n as i32;
            }
        }
        c
    }

    fn acts(&mut self, best: &mut Plan) {
        for e in 0..best.epochs.len() {
            for k in 0..best.epochs[e].len() {
                let mut size = best.epochs[e][k].acts.len().max(1);
                while size >= 1 {
                    let mut a = best.epochs[e][k].acts.len();
                    while a >= size {
                        let c = Self::without(best, e, k, a - size, size);
                        self.take(best, c);
                        a = (a - size).min(best.epochs[e][k].acts.len());
                        if Instant::now() > self.until {
                            return;
                        }
                    }
                    size /= 2;
                }
            }
        }
    }

    fn details(&mut self, best: &mut Plan) {
        let mut c = best.clone();
        c.profile = crate::run::quiet_profile();
        c.profile.sector = best.profile.sector;
        self.take(best, c);
        let mut c = best.clone();
        c.prep = Prep::None;
        self.take(best, c);
        if let Prep::Store { lines, vars, cap, first_id, sql } = best.prep.clone() {
            if !sql.is_empty() {
                let mut c = best.clone();
                c.prep = Prep::Store { lines: lines.clone(), vars: vars.clone(), cap, first_id, sql: vec![] };
                self.take(best, c);
            }
            let sql = match &best.prep {
                Prep::Store { sql, .. } => sql.clone(),
                _ => vec![],
            };
            let mut c = best.clone();
            c.prep = Prep::Store { lines: lines.clone(), vars: vec![], cap, first_id, sql: sql.clone() };
            self.take(best, c);
            let mut c = best.clone();
            c.prep = Prep::Store { lines: lines.clone(), vars: vars.clone(), cap, first_id: 1, sql: sql.clone() };
            self.take(best, c);
            if vars.iter().all(|v| v.3 > 0) && !lines.is_empty() {
                let mut c = best.clone();
                let vars = vars.iter().cloned().map(|mut v| { v.3 -= 1; v }).collect();
                c.prep = Prep::Store { lines: lines[1..].to_vec(), vars, cap, first_id, sql: sql.clone() };
                self.take(best, c);
            }
        }
        let mut c = best.clone();
        c.observe.cont = false;
        self.take(best, c);
        for n in (0..best.observe.vars.len()).rev() {
            let mut c = best.clone();
            c.observe.vars.remove(n);
            self.take(best, c);
        }
        for e in 0..best.epochs.len() {
            for k in 0..best.epochs[e].len() {
                let mut a = best.epochs[e][k].args.len();
                while a > 0 {
                    a -= 1;
                    let mut c = best.clone();
                    let args = &mut c.epochs[e][k].args;
                    let value = a + 1 < args.len() && args[a].starts_with('-') && !args[a + 1].starts_with('-');
                    if !args[a].starts_with('-') {
                        continue;
                    }
                    args.drain(a..a + 1 + value as usize);
                    self.take(best, c);
                }
                let own = best.property.starts_with('T');
                for f in 0..5 {
                    let mut c = best.clone();
                    let s = &mut c.epochs[e][k];
                    match f {
                        0 => s.start_us = 0,
                        1 => s.row0 = 0,
                        2 => s.rows = s.rows.max(24),
                        3 => s.noise = 0,
                        _ => s.cols = if own { 80 } else { crate::gen::WIDE },
                    }
                    self.take(best, c);
                }
                let mut c = best.clone();
                for a in &mut c.epochs[e][k].acts {
                    match a {
                        Act::Line(t, _) | Act::Key(t, _) | Act::Resize(t, ..) | Act::UpAll(t, _) | Act::Climb(t) | Act::DownAll(t) => *t = (*t).min(1),
                    }
                }
                self.take(best, c);
            }
        }
    }

    fn texts(&mut self, best: &mut Plan) {
        for e in 0..best.epochs.len() {
            for k in 0..best.epochs[e].len() {
                for a in 0..best.epochs[e][k].acts.len() {
                    let text = match &best.epochs[e][k].acts[a] {
                        Act::Line(_, t) => t.clone(),
                        _ => continue,
                    };
                    let set = |t: String, best: &Plan| {
                        let mut c = best.clone();
                        if let Act::Line(_, x) = &mut c.epochs[e][k].acts[a] {
                            *x = t;
                        }
                        c
                    };
                    let simple = format!("{}", 1000 + sid_of(best, e, k) * 100 + a);
                    if text.len() > simple.len() {
                        let c = set(simple, best);
                        if self.take(best, c) {
                            continue;
                        }
                    }
                    let mut cur: Vec<char> = text.chars().collect();
                    let mut size = (cur.len() / 2).max(1);
                    while size >= 1 && !cur.is_empty() {
                        let mut i = cur.len();
                        while i >= size && i > 0 {
                            let mut t = cur.clone();
                            t.drain(i - size..i);
                            let c = set(t.iter().collect(), best);
                            if self.take(best, c) {
                                cur = t;
                            }
                            i = (i - size).min(cur.len());
                            if Instant::now() > self.until {
                                return;
                            }
                        }
                        size /= 2;
                    }
                }
            }
        }
    }
}
