//! The simulated world: who runs, what time it is, the disk, the faults, the record of what happened.
use crate::disk::{Disk, PowerMode};
use crate::plan::*;
use crate::rng::{hash_bytes, mix2, Rng};
use crate::term::Term;
use crate::user::User;
use std::sync::atomic::{AtomicU64, Ordering};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Condvar, Mutex, MutexGuard};

pub const MAX_SESS: usize = 32;
pub const HOST: usize = usize::MAX;
pub const STEP_LIMIT: u64 = 1_500_000;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Running,
    Ok,
    Err(String),
    Panic(String),
    Exit(i32),
    Killed,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
}

/// One submitted line as the outside world saw it.
#[derive(Clone, Debug)]
pub struct LineRec {
    pub act: i32,
    pub text: String,
    pub inv: u64,
    /// Stamp of the next prompt, or of the session's end.
    pub res: u64,
    pub done: bool,
    /// Output rows, if any complete row was shown.
    pub shown: Option<Vec<String>>,
    pub faulted: bool,
    pub t_inv: u64,
    pub t_res: u64,
    pub echo_row: u64,
}

#[derive(Clone, Debug, Default)]
pub struct UpRec {
    /// Own lines submitted before, when going up began.
    pub own: Vec<String>,
    pub seen: Vec<String>,
    /// Up stopped having an effect.
    pub ended: bool,
    pub stamp: u64,
    /// When it was seen to have ended, and how many saved lines were known then.
    pub end: u64,
    pub known: usize,
    /// Failed storage operations before, and whether there were more on the way.
    pub faults: u64,
    pub failed: bool,
}

pub struct Sess {
    pub plan: SessPlan,
    pub sid: usize,
    pub active: bool,
    pub started: bool,
    pub dead: bool,
    /// Ended by `process::exit`.
    pub exited: Option<i32>,
    /// Storage operations that were made to fail.
    pub store_faults: u64,
    pub ready_at: u64,
    pub slow: u64,
    pub act: i32,
    pub fault_hits: Vec<u32>,
    pub end: End,
    pub start_inv: u64,
    pub start_res: u64,
    pub start_faulted: bool,
    pub end_stamp: u64,
    pub t_start: u64,
    pub t_ready: u64,
    pub t_end: u64,
    pub prompted: bool,
    /// The rows above the prompt, with the first one's number: they stay as they are.
    pub above: Option<(usize, Vec<String>)>,
    pub term: Term,
    pub user: Option<User>,
    pub lines: Vec<LineRec>,
    pub ups: Vec<UpRec>,
    pub raw: bool,
    pub raw_was_on: bool,
    pub raw_off_faulted: bool,
    pub stderr: String,
    pub store_ops: u64,
    pub mkdirs: u64,
    /// Files touched without going through SQLite.
    pub foreign: Vec<String>,
    pub last_tty_failed: bool,
    /// A terminal failure (not merely an interruption) before any exit key.
    pub tty_failed_early: bool,
    pub rng: Rng,
    pub cur_faulted: bool,
    pub tty_dead: bool,
    pub tty_faults: u32,
    pub other_faults: Vec<String>,
    pub exit_sent: bool,
    /// Storage operations seen per act (for placing faults).
    pub op_counts: BTreeMap<(i32, Class), u32>,
    pub act_counts: BTreeMap<i32, u32>,
    pub dead_calls: u64,
    pub getrandom_n: u64,
    pub last_op_class: Option<Class>,
}

pub struct Handle {
    pub sid: usize,
    pub ino: u64,
    pub path: Option<String>,
    pub level: i32,
    pub delete_on_close: bool,
    pub dirsync: bool,
}

pub struct Probe {
    pub stamp: u64,
    pub disk: Disk,
    pub what: String,
    pub sid: usize,
    pub in_line: bool,
}

#[derive(Default)]
pub struct World {
    pub clock: u64,
    pub stamp: u64,
    pub running: Option<usize>,
    pub sess: Vec<Sess>,
    pub disk: Disk,
    pub handles: BTreeMap<u64, Handle>,
    pub next_handle: u64,
    pub rng: Option<Rng>,
    pub crash_rng: Option<Rng>,
    pub faults: Vec<Fault>,
    pub probes: Vec<Probe>,
    pub violations: Vec<Violation>,
    pub log: u64,
    pub inter: u64,
    pub trace: Option<Vec<String>>,
    pub steps: u64,
    pub switches: u64,
    pub stuck: bool,
    pub profile: Option<Profile>,
    pub fired: BTreeMap<String, u64>,
    pub main_wait: bool,
    pub checks: Checks,
    pub graveyard: Vec<crate::disk::Shm>,
    pub power_lost: u64,
    pub busy_returns: u64,
    pub max_time: u64,
    pub seed: u64,
    pub foreign_writes: u64,
}

/// What is checked while the run proceeds.
#[derive(Clone, Copy, Debug, Default)]
pub struct Checks {
    pub screen: bool,
    pub recall: bool,
    pub lines: bool,
}

pub static WORLD: Mutex<Option<World>> = Mutex::new(None);
static CVS: [Condvar; MAX_SESS] = [const { Condvar::new() }; MAX_SESS];
static MAIN_CV: Condvar = Condvar::new();

thread_local! {
    pub static SID: std::cell::Cell<usize> = const { std::cell::Cell::new(HOST) };
}
pub fn sid() -> usize {
    SID.try_with(|s| s.get()).unwrap_or(HOST)
}

pub type Guard = MutexGuard<'static, Option<World>>;

pub fn lock() -> Guard {
    match WORLD.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

/// Fault decided for an operation.
pub enum Verdict {
    Go,
    Dead,
    Fail(FaultKind),
}

impl World {
    pub fn tick(&mut self) -> u64 {
        self.stamp += 1;
        self.stamp
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = format!("[{:>10}us] {}", self.clock, f());
            self.trace.as_mut().unwrap().push(s);
        }
    }
    pub fn mixlog(&mut self, a: u64) {
        self.log = mix2(self.log, a);
    }
    pub fn mixlog_bytes(&mut self, b: &[u8]) {
        self.log = hash_bytes(self.log, b);
    }
    pub fn violate(&mut self, kind: &str, detail: String) {
        let n = self.violations.len();
        self.note(|| format!("VIOLATION {kind}: {detail}"));
        if n < 20 {
            self.violations.push(Violation { kind: kind.to_string(), detail });
        }
    }
    fn pick(&mut self) -> Option<usize> {
        let mut best: Option<(u64, u64, usize)> = None;
        for s in &self.sess {
            if !s.active {
                continue;
            }
            let r = if s.dead { 0 } else { s.ready_at };
            // ties: seeded
            let k = (r, mix2(self.steps ^ self.seed, s.sid as u64), s.sid);
            if best.map(|b| k < b).unwrap_or(true) {
                best = Some(k);
            }
        }
        best.map(|b| b.2)
    }
    pub fn cost(&mut self, sid: usize) -> u64 {
        let p = self.profile.clone().unwrap();
        let slow = self.sess[sid].slow;
        let r = self.rng.as_mut().unwrap();
        let mut c = 1 + r.below(2 * p.op_us + 1);
        if p.tail_in > 0 && r.chance(1, p.tail_in) {
            c += r.below(p.tail_us + 1);
        }
        c * slow
    }
    pub fn kill(&mut self, sid: usize) {
        if self.sess[sid].dead || !self.sess[sid].active {
            return;
        }
        self.sess[sid].dead = true;
        let stamp = self.tick();
        self.sess[sid].end_stamp = stamp;
        self.sess[sid].t_end = self.clock;
        let mine: Vec<u64> =
            self.handles.iter().filter(|(_, h)| h.sid == sid).map(|(k, _)| *k).collect();
        for h in mine {
            let hd = self.handles.remove(&h).unwrap();
            if let Some(n) = self.disk.inodes.get_mut(&hd.ino) {
                if let Some(s) = &n.shm {
                    self.graveyard.push(s.clone());
                }
            }
            self.disk.closed(hd.ino, h);
        }
        self.note(|| format!("s{sid} KILLED"));
    }
    pub fn power_loss(&mut self, mode: PowerMode) {
        self.note(|| format!("POWER LOSS {mode:?}"));
        self.power_lost += 1;
        let live: Vec<usize> =
            self.sess.iter().filter(|s| s.active && !s.dead).map(|s| s.sid).collect();
        for s in &live {
            // End of all at one instant.
            self.kill(*s);
        }
        for n in self.disk.inodes.values() {
            if let Some(s) = &n.shm {
                self.graveyard.push(s.clone());
            }
        }
        let mut r = self.crash_rng.clone().unwrap();
        self.disk.crash(mode, &mut r);
        self.crash_rng = Some(r);
        self.handles.clear();
        // Sessions that had not started yet never do.
        for s in &mut self.sess {
            if s.active && !s.started {
                s.dead = true;
            }
        }
        let h = self.disk.content_hash();
        self.mixlog(h);
    }
    pub fn count_op(&mut self, sid: usize, class: Class) {
        let s = &mut self.sess[sid];
        let act = s.act;
        *s.op_counts.entry((act, class)).or_insert(0) += 1;
        *s.act_counts.entry(act).or_insert(0) += 1;
        if class.is_store() {
            s.store_ops += 1;
        }
        s.last_op_class = Some(class);
    }
    /// Matches the faults against the operation session `sid` is about to do.
    fn verdict(&mut self, sid: usize, class: Class) -> Verdict {
        let act = self.sess[sid].act;
        let mut out = Verdict::Go;
        for k in 0..self.faults.len() {
            let f = self.faults[k].clone();
            if f.sid != sid || f.act != act || !f.class.matches(class) {
                continue;
            }
            let n = self.sess[sid].fault_hits[k];
            self.sess[sid].fault_hits[k] = n + 1;
            if n < f.nth || n >= f.nth + f.count {
                continue;
            }
            let name = match f.kind {
                FaultKind::Power(m) => format!("power-loss-{m:?}"),
                FaultKind::ProbePower(m) => format!("probe-power-{m:?}"),
                FaultKind::Errno(_) => "errno".to_string(),
                FaultKind::Stall(_) => "stall".to_string(),
                k => format!("{k:?}"),
            };
            *self.fired.entry(format!("{name}@{class:?}")).or_insert(0) += 1;
            self.note(|| format!("s{sid} FAULT {:?} at {class:?}", f.kind));
            match f.kind {
                FaultKind::Kill => {
                    self.kill(sid);
                    return Verdict::Dead;
                }
                FaultKind::Power(m) => {
                    self.power_loss(m);
                    return Verdict::Dead;
                }
                FaultKind::ProbeKill => {
                    let mut d = self.disk.clone();
                    d.kill_all();
                    self.probe(sid, d, format!("kill at s{sid} act {act} {class:?}"));
                }
                FaultKind::ProbePower(m) => {
                    let mut d = self.disk.clone();
                    let mut r = self.crash_rng.clone().unwrap();
                    d.crash(m, &mut r);
                    self.crash_rng = Some(r);
                    self.probe(sid, d, format!("power loss {m:?} at s{sid} act {act} {class:?}"));
                }
                FaultKind::Stall(_) => {}
                kind => {
                    let s = &mut self.sess[sid];
                    if class.is_store() {
                        s.store_faults += 1;
                        s.cur_faulted = true;
                    } else if class == Class::TtyWrite {
                        s.tty_faults += 1;
                    } else {
                        s.other_faults.push(format!("{class:?}"));
                        if class == Class::RawOff {
                            s.raw_off_faulted = true;
                        }
                    }
                    out = Verdict::Fail(kind);
                }
            }
        }
        out
    }
    fn probe(&mut self, sid: usize, disk: Disk, what: String) {
        let stamp = self.tick();
        let in_line = self.sess[sid].lines.last().map(|l| !l.done).unwrap_or(false);
        let h = disk.content_hash();
        self.mixlog(h);
        if self.probes.len() < 64 {
            self.probes.push(Probe { stamp, disk, what, sid, in_line });
        }
    }
    fn stall_for(&self, sid: usize, class: Class) -> u64 {
        let act = self.sess[sid].act;
        let mut t = 0;
        for (k, f) in self.faults.iter().enumerate() {
            if let FaultKind::Stall(us) = f.kind {
                if f.sid == sid && f.act == act && f.class.matches(class) {
                    let n = self.sess[sid].fault_hits[k];
                    if n >= f.nth && n < f.nth + f.count {
                        t += us;
                    }
                }
            }
        }
        t
    }
}

/// Gives up the baton until `cost` microseconds have passed for this session.
pub fn pause(mut g: Guard, sid: usize, cost: u64) -> Guard {
    {
        let w = g.as_mut().unwrap();
        w.steps += 1;
        if (w.steps > STEP_LIMIT || w.clock > w.max_time) && !w.stuck {
            w.stuck = true;
            let at = w.clock;
            let steps = w.steps;
            w.violate("stuck", format!("no end after {steps} steps and {at} simulated us"));
            for s in 0..w.sess.len() {
                w.kill(s);
            }
            for s in &mut w.sess {
                if s.active && !s.started {
                    s.dead = true;
                }
            }
        }
        if w.sess[sid].dead {
            return g;
        }
        w.sess[sid].ready_at = w.clock + cost;
        let next = w.pick().unwrap();
        if next != sid {
            w.switches += 1;
            w.running = Some(next);
            CVS[next].notify_one();
        }
    }
    loop {
        {
            let w = g.as_mut().unwrap();
            if w.running == Some(sid) {
                let s = &w.sess[sid];
                if !s.dead {
                    w.clock = w.clock.max(s.ready_at);
                    NOW.store(w.clock, Ordering::Relaxed);
                }
                return g;
            }
        }
        g = CVS[sid].wait(g).unwrap_or_else(|p| p.into_inner());
    }
}

/// Scheduling point and fault point of one operation; the caller performs it under the guard.
pub fn op(sid: usize, class: Class) -> (Guard, Verdict) {
    let mut g = lock();
    if sid == HOST {
        return (g, Verdict::Go);
    }
    {
        let w = g.as_mut().unwrap();
        if w.sess[sid].dead {
            w.sess[sid].dead_calls += 1;
            return (g, Verdict::Dead);
        }
    }
    let cost = {
        let w = g.as_mut().unwrap();
        w.cost(sid) + w.stall_for(sid, class)
    };
    g = pause(g, sid, cost);
    let w = g.as_mut().unwrap();
    if w.sess[sid].dead {
        return (g, Verdict::Dead);
    }
    w.count_op(sid, class);
    let act = w.sess[sid].act;
    w.mixlog((sid as u64) << 32 | class as u64);
    w.inter = mix2(w.inter, (sid as u64) << 40 | ((act + 1) as u64) << 8 | class as u64);
    let v = w.verdict(sid, class);
    (g, v)
}

/// A fault point that is no scheduling point (terminal output).
pub fn op_noyield(sid: usize, class: Class) -> (Guard, Verdict) {
    let mut g = lock();
    if sid == HOST {
        return (g, Verdict::Go);
    }
    let w = g.as_mut().unwrap();
    if w.sess[sid].dead {
        w.sess[sid].dead_calls += 1;
        return (g, Verdict::Dead);
    }
    w.count_op(sid, class);
    let v = w.verdict(sid, class);
    (g, v)
}

/// The clock as the running session reads it.
pub static NOW: AtomicU64 = AtomicU64::new(0);
/// Decides how the wall clock jumps.
pub static WALL: AtomicU64 = AtomicU64::new(0);

/// First thing a session thread does: wait for its turn.
pub fn await_start(sid: usize) -> bool {
    let mut g = lock();
    loop {
        let w = g.as_mut().unwrap();
        if w.running == Some(sid) {
            if w.sess[sid].dead {
                return false;
            }
            w.clock = w.clock.max(w.sess[sid].ready_at);
            NOW.store(w.clock, Ordering::Relaxed);
            w.sess[sid].started = true;
            let st = w.tick();
            w.sess[sid].start_inv = st;
            w.sess[sid].t_start = w.clock;
            w.note(|| format!("s{sid} starts"));
            return true;
        }
        g = CVS[sid].wait(g).unwrap_or_else(|p| p.into_inner());
    }
}

/// Last thing a session thread does.
pub fn finish(sid: usize, end: End) {
    let mut g = lock();
    let w = g.as_mut().unwrap();
    if !w.sess[sid].dead {
        let st = w.tick();
        w.sess[sid].end_stamp = st;
        w.sess[sid].t_end = w.clock;
    }
    let s = &mut w.sess[sid];
    s.end = match s.exited {
        Some(0) => End::Ok,
        Some(code) => End::Exit(code),
        None if s.dead => End::Killed,
        None => end,
    };
    s.active = false;
    // Handles the program leaked (it is gone now).
    let mine: Vec<u64> =
        w.handles.iter().filter(|(_, h)| h.sid == sid).map(|(k, _)| *k).collect();
    for h in mine {
        let hd = w.handles.remove(&h).unwrap();
        w.disk.closed(hd.ino, h);
    }
    let e = format!("{:?}", w.sess[sid].end);
    w.mixlog_bytes(e.as_bytes());
    w.note(|| format!("s{sid} ends: {e}"));
    match w.pick() {
        Some(n) => {
            w.running = Some(n);
            CVS[n].notify_one();
        }
        None => {
            w.running = None;
            MAIN_CV.notify_one();
        }
    }
}

/// Main thread: release the first session and wait for the last.
pub fn drive() {
    let mut g = lock();
    {
        let w = g.as_mut().unwrap();
        match w.pick() {
            None => return,
            Some(n) => {
                w.running = Some(n);
                CVS[n].notify_one();
            }
        }
    }
    loop {
        if g.as_ref().unwrap().running.is_none() {
            return;
        }
        g = MAIN_CV.wait(g).unwrap_or_else(|p| p.into_inner());
    }
}

pub struct SimKill;
pub struct SimExit(pub i32);

pub fn distinct(v: &[u64]) -> usize {
    v.iter().collect::<BTreeSet<_>>().len()
}
