//! The reference model: a sequential store, sessions whose lines are sequences of atomic steps,
//! and a search for an order of all steps, consistent with real time, that explains everything
//! that was seen.
use crate::eval::{self, Parsed, Settings, Value};
use crate::plan::Prep;
use crate::rng::{hash_bytes, mix2};
use crate::run::{rational, Seen};
use crate::world::{End, Sess};
use num::BigRational;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Val {
    h: u64,
    v: Rc<BigRational>,
}
impl Val {
    pub fn new(v: BigRational) -> Val {
        Val { h: hash_bytes(3, v.to_string().as_bytes()), v: Rc::new(v) }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Store {
    /// Oldest first.
    entries: Rc<Vec<u32>>,
    cap: i64,
    vars: BTreeMap<String, (Val, u32)>,
}

impl Store {
    fn evict(&mut self) {
        let cap = self.cap.max(1) as usize;
        if self.entries.len() > cap {
            let e = Rc::make_mut(&mut self.entries);
            let gone: Vec<u32> = e.drain(..e.len() - cap).collect();
            self.vars.retain(|_, v| !gone.contains(&v.1));
        }
    }
    fn has(&self, id: u32) -> bool {
        self.entries.contains(&id)
    }
    fn hash(&self) -> u64 {
        let mut h = self.cap as u64;
        for e in self.entries.iter() {
            h = mix2(h, *e as u64);
        }
        for (n, (v, id)) in &self.vars {
            h = mix2(hash_bytes(h, n.as_bytes()), v.h ^ (*id as u64) << 40);
        }
        h
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Fate {
    /// Answered, nothing failed: everything was done.
    Done,
    /// Answered with an error after a storage failure: done up to some step.
    Failed,
    /// Never answered: done up to some step.
    Cut,
}

#[derive(Clone, Debug)]
struct LineOp {
    uid: u32,
    text: String,
    rows: Option<Vec<String>>,
    /// Only the first rows may have been seen.
    partial_rows: bool,
    fate: Fate,
}

#[derive(Clone, Debug)]
enum Kind {
    Open,
    Line(LineOp),
    /// The backscroll ended with this many saved lines known.
    UpEnd(usize),
    Observe(Rc<Seen>),
}

#[derive(Clone, Debug)]
struct Op {
    inv: u64,
    res: u64,
    kind: Kind,
}

struct Thread {
    name: String,
    ops: Vec<Op>,
    store: bool,
    /// Saved lines that were seen going up, newest first.
    learned: Vec<String>,
    settings: Settings,
}

#[derive(Clone, Debug, PartialEq)]
enum Phase {
    Start,
    /// Saved; evaluating.
    Run,
    Reload { left: Vec<String>, got: Vec<String> },
    Purge { left: Vec<String> },
}

#[derive(Clone, Debug)]
struct TState {
    op: usize,
    phase: Phase,
    locals: BTreeMap<String, Val>,
    settings: Settings,
    snapshot: Rc<Vec<u32>>,
}

#[derive(Clone, Debug)]
struct State {
    store: Store,
    t: Vec<TState>,
    rank: u32,
}

enum Want {
    Exact(Vec<String>),
    AnyOrder(Vec<String>),
    Contains(Vec<String>),
    /// An error message of the user's own making.
    Refused,
    /// A result, but the model does not know which.
    Fine,
    Anything,
}

pub struct Search {
    threads: Vec<Thread>,
    texts: BTreeMap<u32, String>,
    rank: BTreeMap<u32, Option<u32>>,
    ranked: bool,
    seen: HashSet<(u64, u64)>,
    pub nodes: u64,
    limit: u64,
    best: (usize, String),
    pub ops: u64,
    /// Results count, not just the store (and what /histcap says).
    pub outputs: bool,
}

#[derive(Debug)]
pub enum Verdict {
    Explained,
    Unexplained(String),
    GaveUp,
}

const PREP_BASE: u32 = 1_000_000;

pub fn initial(prep: &Prep) -> (Store, BTreeMap<u32, String>) {
    let mut s = Store { cap: 100, ..Default::default() };
    let mut t = BTreeMap::new();
    if let Prep::Store { lines, vars, cap, .. } = prep {
        s.cap = *cap;
        let ids: Vec<u32> = (0..lines.len() as u32).map(|k| PREP_BASE + k).collect();
        for (k, l) in lines.iter().enumerate() {
            t.insert(PREP_BASE + k as u32, l.clone());
        }
        s.entries = Rc::new(ids);
        for (n, a, b, k) in vars {
            let v = rational(&format!("{a}/{b}")).expect("prepared value");
            s.vars.insert(n.clone(), (Val::new(v), PREP_BASE + *k as u32));
        }
    }
    (s, t)
}

impl Search {
    /// `probes`: what fresh sessions saw of the disk at these stamps.
    pub fn new(sess: &[Sess], probes: Vec<(u64, Seen)>, prep: &Prep, limit: u64) -> (Search, Store) {
        let (store, mut texts) = initial(prep);
        let mut threads = Vec::new();
        let mut uid = 0;
        for s in sess {
            if !s.started || s.plan.input().is_some() {
                continue;
            }
            let has = s.plan.has_store();
            let mut ops = Vec::new();
            if has && (s.prompted || !s.ups.is_empty()) {
                ops.push(Op { inv: s.start_inv, res: s.start_res, kind: Kind::Open });
            }
            let mut items: Vec<Op> = Vec::new();
            for l in &s.lines {
                let rte = l
                    .shown
                    .as_ref()
                    .and_then(|r| r.first())
                    .map(|r| r.starts_with("Runtime Error"))
                    .unwrap_or(false);
                let fate = match (&l.shown, l.done) {
                    (None, _) => Fate::Cut,
                    (Some(_), _) if l.faulted && rte => Fate::Failed,
                    _ => Fate::Done,
                };
                texts.insert(uid, l.text.clone());
                items.push(Op {
                    inv: l.inv,
                    res: l.res,
                    kind: Kind::Line(LineOp {
                        uid,
                        text: l.text.clone(),
                        rows: l.shown.clone(),
                        partial_rows: !l.done,
                        fate,
                    }),
                });
                uid += 1;
            }
            if has {
                for u in &s.ups {
                    if u.ended && !u.failed {
                        items.push(Op { inv: u.stamp, res: u.end, kind: Kind::UpEnd(u.known) });
                    }
                }
            }
            items.sort_by_key(|o| o.inv);
            ops.extend(items);
            let learned = s.user.as_ref().map(|u| u.editor.db.clone()).unwrap_or_default();
            threads.push(Thread {
                name: format!("session {}", s.sid),
                ops,
                store: has,
                learned: if has { learned } else { vec![] },
                settings: Settings::from_args(&s.plan.args),
            });
        }
        let mut rank: BTreeMap<u32, Option<u32>> = BTreeMap::new();
        let mut ranked = false;
        if let Some((_, Seen { history: Some(h), .. })) =
            probes.iter().max_by_key(|p| p.0).filter(|p| p.0 == u64::MAX)
        {
            ranked = true;
            let mut count: BTreeMap<&str, u32> = BTreeMap::new();
            for t in texts.values() {
                *count.entry(t).or_insert(0) += 1;
            }
            let pos: BTreeMap<&str, u32> =
                h.iter().rev().enumerate().map(|(i, t)| (t.as_str(), i as u32)).collect();
            for (id, t) in &texts {
                if count[t.as_str()] > 1 {
                    // Which of the equal lines is which is not known.
                    continue;
                }
                rank.insert(*id, pos.get(t.as_str()).copied());
            }
        }
        for (k, (stamp, seen)) in probes.into_iter().enumerate() {
            threads.push(Thread {
                name: if stamp == u64::MAX { "final look".into() } else { format!("look {k}") },
                ops: vec![Op { inv: stamp, res: stamp, kind: Kind::Observe(Rc::new(seen)) }],
                store: true,
                learned: vec![],
                settings: Settings::from_args(&[]),
            });
        }
        let ops = threads.iter().map(|t| t.ops.len() as u64).sum();
        (
            Search {
                threads,
                texts,
                rank,
                ranked,
                seen: HashSet::new(),
                nodes: 0,
                limit,
                best: (0, "nothing".into()),
                ops,
                outputs: true,
            },
            store,
        )
    }

    pub fn run(&mut self, store: Store) -> Verdict {
        let t = self
            .threads
            .iter()
            .map(|t| TState {
                op: 0,
                phase: Phase::Start,
                locals: BTreeMap::new(),
                settings: t.settings.clone(),
                snapshot: Rc::new(vec![]),
            })
            .collect();
        let st = State { store, t, rank: 0 };
        match self.go(st) {
            Some(true) => Verdict::Explained,
            Some(false) => Verdict::Unexplained(self.best.1.clone()),
            None => Verdict::GaveUp,
        }
    }

    fn key(&self, s: &State) -> (u64, u64) {
        let mut a = s.store.hash();
        for t in &s.t {
            a = mix2(a, t.op as u64);
            a = match &t.phase {
                Phase::Start => mix2(a, 1),
                Phase::Run => mix2(a, 2),
                Phase::Reload { left, got } => {
                    let mut b = mix2(a, 3);
                    for x in left.iter().chain(got) {
                        b = hash_bytes(b, x.as_bytes());
                    }
                    b
                }
                Phase::Purge { left } => {
                    let mut b = mix2(a, 4);
                    for x in left {
                        b = hash_bytes(b, x.as_bytes());
                    }
                    b
                }
            };
            for (n, v) in &t.locals {
                a = mix2(hash_bytes(a, n.as_bytes()), v.h);
            }
            let x = &t.settings;
            a = mix2(
                a,
                (x.radix as u64)
                    | (x.out_radix.unwrap_or(0) as u64) << 8
                    | (x.fractional as u64) << 16
                    | (x.commas as u64) << 17
                    | (x.upper as u64) << 18
                    | (x.precision as u64) << 20
                    | (x.extra as u64) << 28,
            );
            for e in t.snapshot.iter() {
                a = mix2(a, *e as u64);
            }
        }
        (a, mix2(a ^ 0x1234567, s.store.entries.len() as u64))
    }

    fn mismatch(&mut self, s: &State, why: impl FnOnce() -> String) {
        let done: usize = s.t.iter().map(|t| t.op * 8 + (t.phase != Phase::Start) as usize).sum();
        if done >= self.best.0 {
            self.best = (done, why());
        }
    }

    fn go(&mut self, s: State) -> Option<bool> {
        let live: Vec<usize> = (0..s.t.len()).filter(|&i| s.t[i].op < self.threads[i].ops.len()).collect();
        if live.is_empty() {
            return Some(true);
        }
        self.nodes += 1;
        if self.nodes > self.limit {
            return None;
        }
        let k = self.key(&s);
        if !self.seen.insert(k) {
            return Some(false);
        }
        let min_res = live
            .iter()
            .map(|&i| (self.threads[i].ops[s.t[i].op].res, i))
            .collect::<Vec<_>>();
        let mut order = live.clone();
        order.sort_by_key(|&i| self.threads[i].ops[s.t[i].op].res);
        for i in order {
            let inv = self.threads[i].ops[s.t[i].op].inv;
            if min_res.iter().any(|&(r, j)| j != i && r < inv) {
                continue;
            }
            let nexts = self.steps(&s, i);
            for n in nexts {
                match self.go(n) {
                    Some(false) => {}
                    x => return x,
                }
            }
        }
        Some(false)
    }

    /// All states one step of thread `i` can lead to.
    fn steps(&mut self, s: &State, i: usize) -> Vec<State> {
        let op = self.threads[i].ops[s.t[i].op].clone();
        let mut out = Vec::new();
        match op.kind {
            Kind::Open => {
                let mut n = s.clone();
                n.t[i].snapshot = s.store.entries.clone();
                let learned = &self.threads[i].learned;
                let texts: Vec<&String> = s
                    .store
                    .entries
                    .iter()
                    .rev()
                    .map(|e| &self.texts[e])
                    .collect();
                let ok = learned.len() <= texts.len()
                    && learned.iter().zip(&texts).all(|(a, b)| a == *b);
                if ok {
                    n.t[i].op += 1;
                    out.push(n);
                } else {
                    let why = format!(
                        "{} found, going back, the saved lines {:?}, but when it started the saved lines were (newest first) {:?}",
                        self.threads[i].name, learned, texts
                    );
                    self.mismatch(s, || why);
                }
            }
            Kind::UpEnd(known) => {
                let snap = &s.t[i].snapshot;
                let gone = if known >= snap.len() {
                    true
                } else {
                    !s.store.has(snap[snap.len() - 1 - known])
                };
                if gone {
                    let mut n = s.clone();
                    n.t[i].op += 1;
                    out.push(n);
                } else {
                    let why = format!(
                        "{}: going back ended after {known} saved lines although {:?} was next and still saved",
                        self.threads[i].name,
                        self.texts[&snap[snap.len() - 1 - known]]
                    );
                    self.mismatch(s, || why);
                }
            }
            Kind::Observe(seen) => {
                let mut why = None;
                if let Some(h) = &seen.history {
                    let have: Vec<&String> =
                        s.store.entries.iter().rev().map(|e| &self.texts[e]).collect();
                    if h.len() != have.len() || h.iter().zip(&have).any(|(a, b)| a != *b) {
                        why = Some(format!("saved lines (newest first) are {h:?} instead of {have:?}"));
                    }
                }
                if let (Some(c), None) = (seen.cap, &why) {
                    if c != s.store.cap {
                        why = Some(format!("capacity is {c} instead of {}", s.store.cap));
                    }
                }
                for (n, v) in &seen.vars {
                    let have = s.store.vars.get(n).map(|x| (*x.0.v).clone());
                    if *v != have && why.is_none() {
                        let f = |x: &Option<BigRational>| match x {
                            None => "unknown".to_string(),
                            Some(v) => {
                                let s = v.to_string();
                                if s.len() > 120 { format!("{}...", &s[..120]) } else { s }
                            }
                        };
                        why = Some(format!("{n} is {} instead of {}", f(v), f(&have)));
                    }
                }
                match why {
                    None => {
                        let mut n = s.clone();
                        n.t[i].op += 1;
                        out.push(n);
                    }
                    Some(w) => {
                        let w = format!("{}: {w}", self.threads[i].name);
                        self.mismatch(s, || w);
                    }
                }
            }
            Kind::Line(l) => self.line_steps(s, i, &l, &mut out),
        }
        out
    }

    fn stop(&self, s: &State, i: usize) -> State {
        let mut n = s.clone();
        n.t[i].op += 1;
        n.t[i].phase = Phase::Start;
        n
    }

    fn fin(&mut self, s: &State, n: State, i: usize, l: &LineOp, want: Want, out: &mut Vec<State>) {
        match l.fate {
            Fate::Failed => {
                // Everything done but an error shown.
                out.push(self.stop(&n, i));
                return;
            }
            Fate::Cut => {
                out.push(self.stop(&n, i));
                return;
            }
            Fate::Done => {}
        }
        let rows = l.rows.as_ref().unwrap();
        let want = if self.outputs || l.text.trim_start().starts_with("/histcap") {
            want
        } else {
            Want::Anything
        };
        if matches(&want, rows, l.partial_rows) {
            out.push(self.stop(&n, i));
        } else {
            let why = format!(
                "{}: {:?} was answered {rows:?} instead of {}",
                self.threads[i].name,
                l.text,
                describe(&want)
            );
            self.mismatch(s, || why);
        }
    }

    fn line_steps(&mut self, s: &State, i: usize, l: &LineOp, out: &mut Vec<State>) {
        let store = self.threads[i].store;
        let phase = s.t[i].phase.clone();
        if l.fate != Fate::Done {
            out.push(self.stop(s, i));
        }
        match phase {
            Phase::Start => {
                let set = s.t[i].settings.clone();
                let parsed = eval::parse(&l.text, set.radix);
                let mut n = s.clone();
                if store {
                    if self.ranked {
                        match self.rank.get(&l.uid).copied() {
                            None => {}
                            Some(Some(r)) => {
                                if r < n.rank {
                                    return;
                                }
                                n.rank = r + 1;
                            }
                            Some(None) => {
                                if n.rank > 0 {
                                    // Would have to be evicted before a line older than it.
                                    let why = format!(
                                        "{}: line {:?} is missing from the saved lines in the end",
                                        self.threads[i].name, l.text
                                    );
                                    self.mismatch(s, || why);
                                    return;
                                }
                            }
                        }
                    }
                    Rc::make_mut(&mut n.store.entries).push(l.uid);
                    let touched: Vec<String> = match &parsed {
                        Parsed::Expr { mentions, .. }
                        | Parsed::BadSyntax(mentions)
                        | Parsed::Opaque(mentions) => mentions.clone(),
                        Parsed::Command(c, a) if c == "reloadvar" => {
                            eval::names(a).unwrap_or_default()
                        }
                        _ => vec![],
                    };
                    for t in touched {
                        if let Some(v) = n.store.vars.get_mut(&t) {
                            v.1 = l.uid;
                        }
                    }
                    n.store.evict();
                }
                match parsed {
                    Parsed::BadToken => self.fin(s, n, i, l, Want::Refused, out),
                    Parsed::BadSyntax(_) => self.fin(s, n, i, l, Want::Refused, out),
                    Parsed::Opaque(_) => self.fin(s, n, i, l, Want::Anything, out),
                    Parsed::Empty => self.fin(s, n, i, l, Want::Exact(vec![String::new()]), out),
                    Parsed::Expr { .. } => {
                        n.t[i].phase = Phase::Run;
                        self.advance(s, n, i, l, out);
                    }
                    Parsed::Command(c, a) => self.command(s, n, i, l, &c, &a, out),
                }
            }
            Phase::Run => {
                let n = s.clone();
                match eval::parse(&l.text, s.t[i].settings.radix) {
                    Parsed::Expr { .. } => self.expr_step(s, n, i, l, out),
                    Parsed::Command(_, a) => self.histcap_step(s, n, i, l, &a, out),
                    _ => {}
                }
            }
            Phase::Reload { left, got } => {
                // When the whole answer is known, a name that would now be answered as it was can
                // be read now: reading changes nothing for anyone else, and reading it later would
                // have to find the same value.
                let rest: Option<Vec<String>> = match (&l.rows, &l.fate) {
                    (Some(rows), Fate::Done) if self.outputs && !l.partial_rows => {
                        let mut rest: Vec<String> =
                            rows.iter().map(|r| r.trim_end().to_string()).collect();
                        for g in &got {
                            if let Some(k) = rest.iter().position(|r| r == g) {
                                rest.remove(k);
                            }
                        }
                        Some(rest)
                    }
                    _ => None,
                };
                let mut awaited = vec![];
                for (k, name) in left.iter().enumerate() {
                    if let Some(rest) = &rest {
                        let row = match s.store.vars.get(name).filter(|_| store) {
                            Some((v, _)) => format!("Set {name} to {}", v.v),
                            None => format!("{name} unchanged"),
                        };
                        if !rest.contains(&row) {
                            awaited.push(row);
                            continue;
                        }
                    }
                    let mut n = s.clone();
                    let mut left = left.clone();
                    left.remove(k);
                    let mut got = got.clone();
                    match s.store.vars.get(name).filter(|_| store) {
                        Some((v, _)) => {
                            got.push(format!("Set {name} to {}", v.v));
                            n.t[i].locals.insert(name.clone(), v.clone());
                        }
                        None => got.push(format!("{name} unchanged")),
                    }
                    if left.is_empty() {
                        self.fin(s, n, i, l, Want::AnyOrder(got), out);
                    } else {
                        got.sort();
                        n.t[i].phase = Phase::Reload { left, got };
                        out.push(n);
                    }
                    if rest.is_some() {
                        return;
                    }
                }
                if let Some(rest) = rest {
                    let why = format!(
                        "{}: {:?} was answered with {rest:?} besides {got:?}, instead of {awaited:?}",
                        self.threads[i].name, l.text
                    );
                    self.mismatch(s, || why);
                }
            }
            Phase::Purge { left } => {
                // With nobody else about, the order does not matter.
                let res = self.threads[i].ops[s.t[i].op].res;
                let alone = l.fate == Fate::Done
                    && (0..s.t.len()).all(|j| {
                        j == i || self.threads[j].ops.get(s.t[j].op).map_or(true, |o| o.inv > res)
                    });
                for (k, name) in left.iter().enumerate() {
                    if alone && k > 0 {
                        break;
                    }
                    let mut n = s.clone();
                    let mut left = left.clone();
                    left.remove(k);
                    n.t[i].locals.remove(name);
                    if l.fate == Fate::Failed {
                        // Forgotten here, but not in the store.
                        out.push(self.stop(&n, i));
                    }
                    if store {
                        n.store.vars.remove(name);
                    }
                    if left.is_empty() {
                        self.fin(s, n, i, l, Want::Exact(vec!["Done".into()]), out);
                    } else {
                        n.t[i].phase = Phase::Purge { left };
                        out.push(n);
                    }
                }
            }
        }
    }

    /// After a step: finishes the line if nothing more is needed from the store.
    fn advance(&mut self, s: &State, n: State, i: usize, l: &LineOp, out: &mut Vec<State>) {
        let set = n.t[i].settings.clone();
        if let Parsed::Expr { assign, expr, .. } = eval::parse(&l.text, set.radix) {
            let v = eval::eval(&expr, &|x| n.t[i].locals.get(x).map(|v| (*v.v).clone()));
            let store = self.threads[i].store;
            match (v, assign) {
                (Value::Need(_), _) if store => out.push(n),
                (Value::Need(_), _) => self.fin(s, n, i, l, Want::Refused, out),
                (Value::Bad, _) => self.fin(s, n, i, l, Want::Refused, out),
                (Value::Unknown, None) => self.fin(s, n, i, l, Want::Anything, out),
                (Value::Unknown, Some(_)) => self.fin(s, n, i, l, Want::Anything, out),
                (Value::Ok(v), None) => {
                    let w = match eval::shown(&v, &set) {
                        Some(x) => Want::Exact(vec![x]),
                        None => Want::Fine,
                    };
                    self.fin(s, n, i, l, w, out)
                }
                (Value::Ok(v), Some(name)) => {
                    if store {
                        out.push(n)
                    } else {
                        let mut n = n;
                        let w = match eval::shown(&v, &set) {
                            Some(x) => Want::Exact(vec![x]),
                            None => Want::Fine,
                        };
                        n.t[i].locals.insert(name, Val::new(v));
                        self.fin(s, n, i, l, w, out)
                    }
                }
            }
        }
    }

    /// One store step of an expression: reading a variable or saving the assignment.
    fn expr_step(&mut self, s: &State, mut n: State, i: usize, l: &LineOp, out: &mut Vec<State>) {
        let set = n.t[i].settings.clone();
        if let Parsed::Expr { assign, expr, .. } = eval::parse(&l.text, set.radix) {
            let v = eval::eval(&expr, &|x| n.t[i].locals.get(x).map(|v| (*v.v).clone()));
            match v {
                Value::Need(name) => match n.store.vars.get(&name).cloned() {
                    Some((v, _)) => {
                        n.t[i].locals.insert(name, v);
                        self.advance(s, n, i, l, out);
                    }
                    None => self.fin(s, n, i, l, Want::Refused, out),
                },
                Value::Ok(v) => {
                    let name = assign.unwrap();
                    let w = match eval::shown(&v, &set) {
                        Some(x) => Want::Exact(vec![x]),
                        None => Want::Fine,
                    };
                    let val = Val::new(v);
                    if !n.store.has(l.uid) {
                        // Its own line is gone already: nothing can be saved on its behalf.
                        let rte = l
                            .rows
                            .as_ref()
                            .and_then(|r| r.first())
                            .map(|r| r.starts_with("Runtime Error"))
                            .unwrap_or(false);
                        let mut m = n.clone();
                        m.t[i].locals.insert(name, val);
                        if rte {
                            out.push(self.stop(&n, i));
                            out.push(self.stop(&m, i));
                        } else {
                            self.fin(s, m, i, l, w, out);
                        }
                        return;
                    }
                    if l.fate == Fate::Failed {
                        let mut m = n.clone();
                        m.t[i].locals.insert(name.clone(), val.clone());
                        out.push(self.stop(&m, i));
                        // Saved, but an error shown and not remembered.
                        let mut m = n.clone();
                        m.store.vars.insert(name.clone(), (val.clone(), l.uid));
                        out.push(self.stop(&m, i));
                    }
                    n.t[i].locals.insert(name.clone(), val.clone());
                    n.store.vars.insert(name, (val, l.uid));
                    self.fin(s, n, i, l, w, out);
                }
                _ => {}
            }
        }
    }

    fn histcap_step(&mut self, s: &State, mut n: State, i: usize, l: &LineOp, args: &str, out: &mut Vec<State>) {
        match eval::ints(args).as_deref() {
            Some([]) => {
                let w = Want::Exact(vec![n.store.cap.to_string()]);
                self.fin(s, n, i, l, w, out)
            }
            Some([c]) => {
                n.store.cap = *c;
                n.store.evict();
                self.fin(s, n, i, l, Want::Exact(vec!["Done".into()]), out)
            }
            _ => {}
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn command(&mut self, s: &State, mut n: State, i: usize, l: &LineOp, c: &str, a: &str, out: &mut Vec<State>) {
        let store = self.threads[i].store;
        match c {
            "help" | "h" => self.fin(s, n, i, l, Want::Anything, out),
            "histcap" => match eval::ints(a).as_deref() {
                Some([]) if store => {
                    n.t[i].phase = Phase::Run;
                    out.push(n)
                }
                Some([c]) if *c >= 1 && store => {
                    n.t[i].phase = Phase::Run;
                    out.push(n)
                }
                _ => self.fin(s, n, i, l, Want::Refused, out),
            },
            "reloadvar" => match eval::names(a) {
                Some(left) if store && !left.is_empty() => {
                    n.t[i].phase = Phase::Reload { left, got: vec![] };
                    out.push(n)
                }
                Some(_) if store => self.fin(s, n, i, l, Want::Exact(vec![String::new()]), out),
                _ => self.fin(s, n, i, l, Want::Refused, out),
            },
            "purgevar" => match eval::names(a) {
                Some(left) if !left.is_empty() => {
                    if store {
                        n.t[i].phase = Phase::Purge { left };
                        out.push(n)
                    } else {
                        for x in left {
                            n.t[i].locals.remove(&x);
                        }
                        self.fin(s, n, i, l, Want::Exact(vec!["Done".into()]), out)
                    }
                }
                Some(_) => self.fin(s, n, i, l, Want::Exact(vec!["Done".into()]), out),
                None => self.fin(s, n, i, l, Want::Refused, out),
            },
            _ => {
                let mut set = n.t[i].settings.clone();
                match eval::setting(&mut set, c, a) {
                    None | Some(None) => self.fin(s, n, i, l, Want::Refused, out),
                    Some(Some(Some(v))) if c == "precision" || c == "p" => {
                        self.fin(s, n, i, l, Want::Contains(v), out)
                    }
                    Some(Some(Some(v))) => self.fin(s, n, i, l, Want::Exact(v), out),
                    Some(Some(None)) => {
                        if l.fate == Fate::Done {
                            n.t[i].settings = set;
                        }
                        self.fin(s, n, i, l, Want::Exact(vec!["Done".into()]), out)
                    }
                }
            }
        }
    }
}

fn refused(r: &[String]) -> bool {
    r.first().map(|x| x.starts_with("Error: ")).unwrap_or(false)
}
fn runtime(r: &[String]) -> bool {
    r.first().map(|x| x.starts_with("Runtime Error")).unwrap_or(false)
}

fn matches(w: &Want, rows: &[String], partial: bool) -> bool {
    let t: Vec<String> = rows.iter().map(|r| r.trim_end().to_string()).collect();
    match w {
        Want::Exact(e) => {
            if partial {
                t.len() <= e.len() && t.iter().zip(e).all(|(a, b)| a == b.trim_end())
            } else {
                t.len() == e.len() && t.iter().zip(e).all(|(a, b)| a == b.trim_end())
            }
        }
        Want::AnyOrder(e) => {
            let mut e: Vec<String> = e.iter().map(|x| x.trim_end().to_string()).collect();
            for x in &t {
                match e.iter().position(|y| y == x) {
                    Some(k) => {
                        e.remove(k);
                    }
                    None => return false,
                }
            }
            partial || e.is_empty()
        }
        Want::Contains(e) => {
            let j = t.join(" ");
            let nums: Vec<&str> = j.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
            !refused(rows) && !runtime(rows)
                && (partial || (nums.len() == e.len() && nums.iter().zip(e).all(|(a, b)| a == b)))
        }
        Want::Refused => refused(rows),
        Want::Fine => !refused(rows) && !runtime(rows) && !rows.is_empty() && !rows[0].trim().is_empty(),
        Want::Anything => !runtime(rows),
    }
}

fn describe(w: &Want) -> String {
    match w {
        Want::Exact(e) | Want::AnyOrder(e) | Want::Contains(e) => format!("{e:?}"),
        Want::Refused => "an error".into(),
        Want::Fine => "a result".into(),
        Want::Anything => "a result or error".into(),
    }
}

/// Lines that were answered with a runtime error though no failure was injected into them.
pub fn refused_lines(sess: &[Sess]) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    for s in sess {
        for (k, l) in s.lines.iter().enumerate() {
            if !l.faulted && l.shown.as_ref().map(|r| runtime(r)).unwrap_or(false) && s.end != End::Running {
                out.push((s.sid, k));
            }
        }
    }
    out
}
