//! One seed -> one plan. Workloads and faults of every property; faults are placed inside the
//! operations of a line, whose number is known from a fault-free dry run of the same plan.
use crate::disk::PowerMode;
use crate::plan::*;
use crate::rng::{mix2, Rng};
use crate::run::{self, DATA};
use crate::world::Checks;
use std::collections::BTreeMap;

pub const WIDE: u16 = 6000;

pub struct G {
    pub r: Rng,
    pub n: u64,
    pub think: u64,
    pub hist: Vec<String>,
    /// One line in this many repeats an earlier one (0: all lines differ).
    pub repeat: u64,
    /// Whether a line may be blank: the first one only, or any where lines may repeat.
    pub blanks: bool,
}

thread_local! {
    /// Seed of what the sessions of a plan differ in, and how far that goes.
    static AMBIENCE: std::cell::Cell<(u64, u8)> = const { std::cell::Cell::new((0, 0)) };
    /// Plans are made without running anything (and so without faults placed by counting).
    pub static NO_DRY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

type Counts = Vec<BTreeMap<(i32, Class), u32>>;

const POWERS: [PowerMode; 5] =
    [PowerMode::DropAll, PowerMode::KeepAll, PowerMode::Subset, PowerMode::Prefix, PowerMode::Torn];

pub fn sess(args: &[&str], acts: Vec<Act>) -> SessPlan {
    let mut s = SessPlan {
        start_us: 0,
        args: args.iter().map(|s| s.to_string()).collect(),
        env: Some(DATA.to_string()),
        cols: WIDE,
        rows: 60,
        row0: 0,
        noise: 0,
        acts,
    };
    let (seed, how) = AMBIENCE.with(|a| a.get());
    if how > 0 {
        AMBIENCE.with(|a| a.set((mix2(seed, 1), how)));
        ambience(&mut s, &mut Rng::new(seed), how);
    }
    s
}

/// What a property does not depend on, but real sessions differ in.
fn ambience(s: &mut SessPlan, r: &mut Rng, how: u8) {
    if r.chance(2, 3) {
        s.noise = r.next() | 1;
    }
    if r.chance(1, 2) {
        s.rows = *r.pick(&[2u16, 3, 10, 25, 50, 200]);
        s.row0 = r.below(s.rows as u64) as u16;
    }
    let climbs = s.acts.iter().any(|a| matches!(a, Act::UpAll(..) | Act::Climb(_)));
    if how != 1 && how != 3 && !climbs && r.chance(1, 3) {
        s.cols = *r.pick(&[20u16, 40, 80, 132, 300]);
    }
    if how < 2 || s.args.iter().any(|a| a != "-f") {
        return;
    }
    if r.chance(1, 4) {
        s.args.clear();
        if r.chance(1, 3) {
            s.args.extend(["-p".into(), r.below(30).to_string()]);
        }
        if r.chance(1, 4) {
            s.args.extend(["--extra-precision".into(), r.below(20).to_string()]);
        }
    }
    if r.chance(1, 10) {
        s.args.push(r.pick(&["-a", "--alternate-screen"]).to_string());
        (s.cols, s.rows, s.row0) = (WIDE, 60, 0);
    }
    if r.chance(1, 5) {
        s.args.push(r.pick(&["-c", "--commas"]).to_string());
    }
    if r.chance(1, 8) {
        s.args.push(r.pick(&["-u", "--upper"]).to_string());
    }
    if r.chance(1, 8) {
        s.args.extend(["--convert-to-radix".into(), r.range(2, 16).to_string()]);
    }
    if r.chance(1, 16) {
        s.args.extend(["-r".into(), r.pick(&[2u32, 8, 11, 16]).to_string()]);
    }
}

/// What a fault-free run of the plan does, per session: operations per act and kind.
pub fn dry(plan: &Plan) -> Counts {
    if NO_DRY.with(|d| d.get()) {
        return plan.epochs.iter().flatten().map(|_| BTreeMap::new()).collect();
    }
    let mut p = plan.clone();
    p.faults.clear();
    let w = run::simulate(&p, run::prepare(&p.prep), Checks::default(), false);
    w.sess.iter().map(|s| s.op_counts.clone()).collect()
}

impl G {
    pub fn new(seed: u64) -> G {
        let mut r = Rng::new(seed);
        let think = *r.pick(&[1u64, 50, 500, 5000, 50000]);
        G { r, n: 0, think, hist: Vec::new(), repeat: 0, blanks: false }
    }
    pub fn uniq(&mut self) -> u64 {
        self.n += 1;
        100 + self.n
    }
    pub fn t(&mut self) -> u64 {
        let th = self.think;
        1 + self.r.below(2 * th)
    }
    pub fn line(&mut self, text: String) -> Act {
        let t = self.t();
        self.hist.push(text.clone());
        Act::Line(t, text)
    }
    /// A line like no other one of this plan, without variables.
    pub fn plain(&mut self) -> String {
        if (self.blanks || self.repeat > 0) && self.r.chance(1, 12) {
            self.blanks = false;
            return if self.repeat > 0 && self.r.chance(1, 3) { " ".into() } else { String::new() };
        }
        let n = self.uniq();
        let k = self.r.below(90) + 2;
        match self.r.below(24) {
            0 => format!("{n} +"),
            1 => format!("{n}@{k}"),
            2 => format!("{n}..{k}"),
            3 => format!("{n} {k}"),
            4 => format!("{n}/0"),
            5 => format!("/nosuch{n} {k}"),
            6 => format!("  {n} + {k}  "),
            7 => format!("{n} '\"; DROP TABLE input_history; --"),
            8 => format!("max({n}, {k})"),
            9 => format!("({n}"),
            10 => format!("abs -{n}"),
            11 => format!("{n} % {k}"),
            12 => {
                let m = if self.r.chance(1, 8) { 2400 } else if self.r.chance(1, 40) { 5000 } else { 120 };
                let m = self.r.range(10, m);
                let mut s = format!("{n}");
                while (s.len() as u64) < m {
                    s.push_str("+1");
                }
                s
            }
            13 => format!("{n} - {k} * ({k} - 1)"),
            14 => format!("-{n}"),
            15 => format!("{n}_000_{k}"),
            16 => format!("{k}^{} * {n}", self.r.below(40)),
            _ => format!("{n}+{k}"),
        }
    }
    fn profile(&mut self) -> Profile {
        let op_us = *self.r.pick(&[1u64, 5, 20, 60]);
        let tail = self.r.chance(1, 2);
        Profile {
            op_us,
            tail_in: if tail { *self.r.pick(&[5u64, 20, 100]) } else { 0 },
            tail_us: if tail { *self.r.pick(&[100u64, 1000]) } else { 0 },
            skew: *self.r.pick(&[1u64, 1, 3]),
            sector: *self.r.pick(&[512u32, 4096, 4096]),
        }
    }
    fn plan(&mut self, prop: &str, seed: u64) -> Plan {
        Plan {
            property: prop.into(),
            seed,
            sched: mix2(seed, 77),
            profile: self.profile(),
            prep: Prep::None,
            epochs: vec![],
            faults: vec![],
            observe: Observe::default(),
        }
    }
    pub fn rename(&mut self, n: usize) -> Vec<String> {
        (0..n).map(|_| { let u = self.uniq(); format!("{u}+0") }).collect()
    }
    /// A store that has lived: some lines, a capacity, maybe variables.
    pub fn store(&mut self, vars: &[&str]) -> Prep {
        let cap = *self.r.pick(&[1i64, 2, 3, 4, 5, 8, 12, 100]);
        let n = match self.r.below(3) {
            0 => cap.min(12) as usize,
            _ => self.r.below(cap.min(12) as u64 + 1) as usize,
        };
        let lines = self.rename(n);
        let mut vs = Vec::new();
        if n > 0 {
            for v in vars {
                if self.r.chance(2, 3) {
                    let (a, b) = self.ratio();
                    vs.push((v.to_string(), a, b, self.r.idx(n)));
                }
            }
        }
        Prep::Store { lines, vars: vs, cap, first_id: *self.r.pick(&[1i64, 1, 40, 1 << 33]), sql: vec![] }
    }
    /// Lowest terms.
    pub fn ratio(&mut self) -> (String, String) {
        let a = self.digits(10);
        let b = self.digits(10);
        let r = run::rational(&format!("{a}/{b}")).unwrap();
        let neg = if self.r.chance(1, 3) && !a.starts_with('0') { "-" } else { "" };
        (format!("{neg}{}", r.numer()), r.denom().to_string())
    }
    fn digits(&mut self, radix: u32) -> String {
        let n = match self.r.below(8) {
            0 if self.r.chance(1, 25) => 200 + self.r.below(1300),
            0 => 40 + self.r.below(100),
            1 | 2 => 18 + self.r.below(4),
            _ => 1 + self.r.below(6),
        };
        let mut s = String::new();
        for k in 0..n {
            let lo = if k == 0 { 1 } else { 0 };
            let d = lo + self.r.below(radix as u64 - lo);
            let c = std::char::from_digit(d as u32, radix).unwrap();
            s.push(if self.r.chance(1, 4) { c.to_ascii_uppercase() } else { c });
        }
        // 'Z' marks lines while climbing; digits stop at 'f'.
        s
    }
    /// Splits acts of all kinds among sessions started close together.
    pub fn starts(&mut self, v: &mut [SessPlan]) {
        let span = *self.r.pick(&[0u64, 200, 3000, 30000, 200000]);
        for s in v.iter_mut().skip(1) {
            s.start_us = self.r.below(span + 1);
        }
    }

    /// A fault at some operation of this kind within the act, as far as the dry run has any.
    pub fn inside(&mut self, c: &Counts, sid: usize, act: i32, class: Class, kind: FaultKind) -> Option<Fault> {
        let n = count(&c[sid], act, class);
        if n == 0 {
            return None;
        }
        Some(Fault { sid, act, class, nth: self.r.below(n as u64) as u32, count: 1, kind })
    }
    /// Any line (or the start, with `start`) of the session.
    pub fn pick_act(&mut self, p: &SessPlan, start: bool) -> i32 {
        let lines: Vec<i32> = p
            .acts
            .iter()
            .enumerate()
            .filter(|(_, a)| matches!(a, Act::Line(..)))
            .map(|(i, _)| i as i32)
            .collect();
        if lines.is_empty() || (start && self.r.chance(1, 4)) {
            return -1;
        }
        *self.r.pick(&lines)
    }
    pub fn power(&mut self) -> PowerMode {
        *self.r.pick(&POWERS)
    }
    /// A crash of the machine or the process, for real or as a look at the disk it would leave.
    pub fn crash_kind(&mut self, real_pct: u64) -> FaultKind {
        let m = self.power();
        let real = self.r.below(100) < real_pct;
        let kill = self.r.chance(1, 3);
        match (real, kill) {
            (true, true) => FaultKind::Kill,
            (true, false) => FaultKind::Power(m),
            (false, true) => FaultKind::ProbeKill,
            (false, false) => FaultKind::ProbePower(m),
        }
    }
    /// Crashes somewhere inside lines and start-ups.
    pub fn crashes(&mut self, p: &mut Plan, n: u64, real_pct: u64) {
        let c = dry(p);
        let flat: Vec<SessPlan> = p.epochs.iter().flatten().cloned().collect();
        for _ in 0..n {
            let sid = self.r.idx(flat.len());
            let act = self.pick_act(&flat[sid], true);
            let class = match self.r.below(10) {
                0..=3 => Class::Store,
                4..=5 => Class::Write,
                6 => Class::Sync,
                7 => Class::Delete,
                8 => Class::Lock,
                _ => Class::Unlock,
            };
            let kind = self.crash_kind(real_pct);
            if let Some(f) = self.inside(&c, sid, act, class, kind) {
                p.faults.push(f);
            }
        }
    }
    /// Crashes right after an answer: before the next key is read.
    pub fn crashes_after(&mut self, p: &mut Plan, n: u64, real_pct: u64) {
        let flat: Vec<SessPlan> = p.epochs.iter().flatten().cloned().collect();
        for _ in 0..n {
            let sid = self.r.idx(flat.len());
            let act = self.pick_act(&flat[sid], false);
            if act < 0 {
                continue;
            }
            let kind = self.crash_kind(real_pct);
            // The last answer is followed by the exit key.
            p.faults.push(Fault { sid, act: act + 1, class: Class::Event, nth: 0, count: 1, kind });
        }
    }
    /// The line, or now and then one that was typed before.
    pub fn again(&mut self, t: String) -> String {
        if self.repeat == 0 || self.hist.is_empty() || !self.r.chance(1, self.repeat) {
            return t;
        }
        let k = if self.r.chance(2, 3) { self.hist.len() - 1 } else { self.r.idx(self.hist.len()) };
        self.hist[k].clone()
    }
    fn dup_ok(&mut self) -> String {
        // Lines that may repeat: for histories of one session at a time without faults.
        if !self.hist.is_empty() && self.r.chance(1, 3) {
            let k = self.r.idx(self.hist.len());
            return self.hist[k].clone();
        }
        match self.r.below(6) {
            0 => String::new(),
            1 => " ".into(),
            _ => self.plain(),
        }
    }
    pub fn cap_cmd(&mut self) -> String {
        let u = self.uniq();
        // Leading zeros keep the lines apart.
        match self.r.below(12) {
            0 => format!("/histcap 0 {}", " ".repeat((u % 40) as usize)),
            1 => format!("/histcap -{u}"),
            2 => format!("/histcap abc{u}"),
            3 => format!("/histcap 1 {u}"),
            4 => format!("/histcap {u}.5"),
            5 => format!("/histcap 99999999999999999999{u}"),
            6 => format!("/histcap ${u}"),
            7 => {
                // Around the sizes of machine integers.
                let b = *self.r.pick(&[1000u64, 127, 255, 32_767, 65_535, 65_536, 131_072, 2_147_483_647, 4_294_967_296, 1 << 53, i64::MAX as u64 - 3000]);
                let k = self.r.below(5);
                if b == i64::MAX as u64 - 3000 && k > 2 {
                    format!("/histcap {}{}", "0".repeat((u % 60) as usize), i64::MAX as u64 + 2 - self.r.below(4))
                } else {
                    format!("/histcap {}{}", "0".repeat((u % 60) as usize), b + k)
                }
            }
            _ => {
                let c = *self.r.pick(&[1u64, 1, 2, 2, 3, 4, 5, 6, 9]);
                format!("/histcap {}{c}", "0".repeat((u % 60) as usize))
            }
        }
    }
    pub fn cap_query(&mut self) -> String {
        let u = self.uniq();
        format!("/histcap{}", " ".repeat((u % 60) as usize))
    }

    // ---- variables

    /// A number literal of any size in this radix.
    fn literal(&mut self, radix: u32) -> String {
        let mut s = self.digits(radix);
        if self.r.chance(1, 5) {
            let k = 1 + self.r.idx(s.len());
            s.insert(k, '.');
        }
        if self.r.chance(1, 8) && s.len() > 2 {
            s.insert(2, '_');
        }
        s
    }
    fn value(&mut self, radix: u32, vars: &[&str]) -> String {
        let lit = self.literal(radix);
        match self.r.below(9) {
            0 => format!("-{lit}"),
            1 | 2 => {
                let b = self.literal(radix);
                format!("{lit}/{b}")
            }
            3 => {
                let b = self.literal(radix);
                format!("({lit} - {b}) * {b}")
            }
            4 if !vars.is_empty() => {
                let v = self.r.pick(vars).to_string();
                format!("{v} + {lit}")
            }
            5 if !vars.is_empty() => {
                let v = self.r.pick(vars).to_string();
                format!("{v}")
            }
            6 => "0".into(),
            _ => lit,
        }
    }
    pub fn pad(&mut self, s: &str) -> String {
        // The same text once more, told apart by blanks.
        let u = self.uniq();
        format!("{s}{}", " ".repeat((u - 100) as usize))
    }
    pub fn var_line(&mut self, vars: &[&str], radix: u32, mix: &VarMix) -> String {
        let v = self.r.pick(vars).to_string();
        let total = mix.assign + mix.mention + mix.bad + mix.reload + mix.purge + mix.plain + mix.cap;
        let mut k = self.r.below(total);
        let mut pick = |n: u64| {
            if k < n {
                k = u64::MAX / 2;
                true
            } else {
                k -= n.min(k);
                false
            }
        };
        let text = if pick(mix.assign) {
            let e = self.value(radix, vars);
            format!("{v} = {e}")
        } else if pick(mix.mention) {
            match self.r.below(3) {
                0 => v,
                1 => format!("{v} + 1"),
                _ => {
                    let w = self.r.pick(vars).to_string();
                    format!("{v} * 1 - {w}")
                }
            }
        } else if pick(mix.bad) {
            match self.r.below(4) {
                0 => format!("{v} +"),
                1 => format!("{v} = = 1"),
                2 => format!("{v} / 0"),
                _ => format!("{v} = 1 / 0"),
            }
        } else if pick(mix.reload) {
            let mut t = format!("/reloadvar {v}");
            for w in vars {
                if *w != v && self.r.chance(1, 3) {
                    t.push_str(&format!(" {w}"));
                }
            }
            t
        } else if pick(mix.purge) {
            let mut t = format!("/purgevar {v}");
            for w in vars {
                if *w != v && self.r.chance(1, 4) {
                    t.push_str(&format!(" {w}"));
                }
            }
            t
        } else if pick(mix.cap) {
            return self.cap_cmd();
        } else {
            return self.plain();
        };
        self.pad(&text)
    }
}

pub struct VarMix {
    assign: u64,
    mention: u64,
    bad: u64,
    reload: u64,
    purge: u64,
    plain: u64,
    cap: u64,
}

fn count(m: &BTreeMap<(i32, Class), u32>, act: i32, class: Class) -> u32 {
    m.iter().filter(|((a, c), _)| *a == act && class.matches(*c)).map(|(_, n)| *n).sum()
}

pub fn make(prop: &str, seed: u64) -> Plan {
    let mut g = G::new(mix2(seed, 5));
    let mut p = g.plan(prop, seed);
    let how = match prop {
        "H01" | "H02" | "H03" | "V01" | "V02" | "V03" | "M01" | "M03" | "E01" | "C02" => 2,
        "M02" => 3,
        "E02" => 1,
        _ => 0,
    };
    let some = g.r.chance(2, 5);
    AMBIENCE.with(|a| a.set((mix2(seed, 6), if some { how } else { 0 })));
    let blank = matches!(prop, "V01" | "V02" | "V03" | "M01" | "M03" | "E01" | "E02" | "C01" | "C02" | "T01" | "R01");
    g.blanks = blank && g.r.chance(1, 3);
    let large = crate::gen_scale::maybe(prop, &mut g, &mut p);
    match prop {
        _ if large => {}
        "H01" => h01(&mut g, &mut p),
        "H02" => h02(&mut g, &mut p),
        "H03" => h03(&mut g, &mut p),
        "V01" => v01(&mut g, &mut p),
        "V02" => v02(&mut g, &mut p),
        "V03" => v03(&mut g, &mut p),
        "M01" => m01(&mut g, &mut p),
        "M02" => m02(&mut g, &mut p),
        "M03" => m03(&mut g, &mut p),
        "E01" => e01(&mut g, &mut p),
        "E02" => e02(&mut g, &mut p),
        "T01" => t01(&mut g, &mut p),
        "T02" => crate::gen_term::t02(&mut g, &mut p),
        "T03" => crate::gen_term::t03(&mut g, &mut p),
        "T04" => crate::gen_term::t04(&mut g, &mut p),
        "T05" => crate::gen_term::t05(&mut g, &mut p),
        "C01" => crate::gen_term::c01(&mut g, &mut p),
        "C02" => c02(&mut g, &mut p),
        "R01" => crate::gen_term::r01(&mut g, &mut p),
        "I01" => crate::gen_term::i01(&mut g, &mut p),
        _ => panic!("unknown property {prop}"),
    }
    AMBIENCE.with(|a| a.set((0, 0)));
    // On the way back, an empty line does not differ from the one being composed.
    let ups = p.epochs.iter().flatten().flat_map(|s| &s.acts).any(|a| matches!(a, Act::UpAll(..)));
    if ups {
        for a in p.epochs.iter_mut().flatten().flat_map(|s| s.acts.iter_mut()) {
            match a {
                Act::Line(_, t) if t.is_empty() => *t = " ".into(),
                _ => {}
            }
        }
        if let Prep::Store { lines, .. } = &mut p.prep {
            for l in lines.iter_mut().filter(|l| l.is_empty()) {
                *l = " ".into();
            }
        }
    }
    // Now and then somebody goes away for a while.
    if g.r.chance(1, 25) {
        let e = g.r.idx(p.epochs.len().max(1));
        if let Some(s) = p.epochs.get_mut(e).and_then(|e| e.last_mut()) {
            let n = s.acts.len();
            if n > 0 {
                let k = g.r.idx(n);
                let away = *g.r.pick(&[61_000_000u64, 3_700_000_000, 200_000_000_000]);
                match &mut s.acts[k] {
                    Act::Line(t, _) | Act::Key(t, _) | Act::Resize(t, ..) => *t += away,
                    _ => {}
                }
            }
        }
    }
    // A commit that fails after its journal is gone counts until a power loss brings the journal
    // back: neither outcome is wrong, but they differ.
    if p.faults.iter().any(|f| matches!(f.kind, FaultKind::Power(_) | FaultKind::ProbePower(_))) {
        for f in &mut p.faults {
            if f.kind == FaultKind::ErrAfter && matches!(f.class, Class::Delete | Class::Trunc) {
                f.kind = FaultKind::Err;
            }
        }
    }
    p
}

/// The last line but one once more, as it is (neighbours go on differing).
pub fn once_more() -> [Act; 3] {
    [Act::Key(1, Key::Up), Act::Key(1, Key::Up), Act::Key(1, Key::Enter)]
}

fn maybe_alt(g: &mut G, s: &mut SessPlan) {
    if g.r.chance(1, 8) && !s.alt() {
        s.args.push(g.r.pick(&["-a", "--alternate-screen"]).to_string());
        (s.cols, s.rows, s.row0) = (WIDE, 60, 0);
    }
}

fn lines_epochs(g: &mut G, p: &mut Plan, max_epochs: u64, multi: u64, cap: u64) {
    if g.r.chance(1, 3) {
        g.repeat = *g.r.pick(&[2u64, 3, 5]);
        if let Prep::Store { lines, .. } = &p.prep {
            g.hist.extend(lines.iter().cloned());
        }
    }
    let once = g.repeat == 0 && g.r.chance(1, 4);
    if once {
        // Hardly any other repetition, but neighbours may come to be equal.
        g.repeat = 1000;
    }
    for _ in 0..g.r.range(1, max_epochs) {
        let n = if g.r.below(100) < multi { g.r.range(2, 3) } else { 1 };
        let mut e = Vec::new();
        for _ in 0..n {
            let mut acts = Vec::new();
            for _ in 0..g.r.range(1, 5) {
                let t = if g.r.below(100) < cap {
                    if g.r.chance(1, 4) { g.cap_query() } else { g.cap_cmd() }
                } else {
                    g.plain()
                };
                let t = g.again(t);
                acts.push(g.line(t));
                if once && acts.len() > 1 && g.r.chance(1, 4) {
                    acts.extend(once_more());
                }
            }
            let keys = acts.iter().any(|a| matches!(a, Act::Key(..)));
            if n == 1 && !keys && g.r.chance(1, 5) {
                let k = g.r.idx(acts.len() + 1);
                let t = g.t();
                if g.repeat > 0 {
                    acts.insert(k, Act::Climb(t));
                } else {
                    acts.insert(k, Act::UpAll(t, 0));
                    acts.insert(k + 1, Act::DownAll(t));
                }
            }
            let mut s = sess(&[], acts);
            maybe_alt(g, &mut s);
            e.push(s);
        }
        g.starts(&mut e);
        p.epochs.push(e);
    }
}

fn h01(g: &mut G, p: &mut Plan) {
    if g.r.chance(3, 5) {
        p.prep = g.store(&[]);
    }
    lines_epochs(g, p, 3, 30, 8);
    p.observe = Observe { history: true, cap: true, ..Default::default() };
    let n = g.r.range(1, 3);
    if g.r.chance(3, 4) {
        g.crashes_after(p, n, 40);
    }
    if g.r.chance(1, 2) {
        g.crashes(p, 1, 40);
    }
}

fn h02(g: &mut G, p: &mut Plan) {
    if g.r.chance(3, 5) {
        p.prep = g.store(&[]);
    }
    lines_epochs(g, p, 3, 25, 15);
    p.observe = Observe { history: true, cap: true, cont: true, ..Default::default() };
    let n = g.r.range(1, 3);
    g.crashes(p, n, 50);
    if p.faults.is_empty() {
        g.crashes(p, 4, 50);
    }
}

fn h03(g: &mut G, p: &mut Plan) {
    match g.r.below(5) {
        4 if g.r.chance(1, 3) => {
            // A long history, mostly beyond what one command takes away.
            let n = g.r.range(20, 240) as usize;
            let lines = g.rename(n);
            let cap = n as i64 + *g.r.pick(&[0i64, 0, 1, 3, 100]);
            let first_id = *g.r.pick(&[1i64, 40, 1 << 33]);
            p.prep = Prep::Store { lines, vars: vec![], cap, first_id, sql: vec![] };
            p.observe = Observe { history: true, cap: true, ..Default::default() };
            for _ in 0..g.r.range(1, 2) {
                let mut acts = Vec::new();
                for _ in 0..g.r.range(1, 4) {
                    let t = if g.r.chance(1, 3) {
                        let u = g.uniq();
                        let c = g.r.range(1, n as u64 + 5);
                        format!("/histcap {}{c}", "0".repeat((u % 60) as usize))
                    } else {
                        g.plain()
                    };
                    acts.push(g.line(t));
                }
                p.epochs.push(vec![sess(&[], acts)]);
            }
            let n = g.r.below(3);
            g.crashes(p, n, 50);
            return;
        }
        0 => {
            let n = g.r.range(94, 101).min(100) as usize;
            let lines = g.rename(n);
            p.prep = Prep::Store { lines, vars: vec![], cap: 100, first_id: 1, sql: vec![] };
        }
        1 => {}
        _ => p.prep = g.store(&[]),
    }
    p.observe = Observe { history: true, cap: true, ..Default::default() };
    if g.r.chance(1, 2) {
        // One session at a time, no faults: lines may repeat or be empty.
        for _ in 0..g.r.range(1, 3) {
            let mut acts = Vec::new();
            for _ in 0..g.r.range(1, 7) {
                let t = match g.r.below(6) {
                    0 | 1 => g.cap_cmd(),
                    2 => g.cap_query(),
                    _ => g.dup_ok(),
                };
                acts.push(g.line(t));
            }
            // A capacity is given and shown in decimal whatever the radix is.
            let args: &[&str] = match g.r.below(6) {
                0 => &["-r", "2"],
                1 => &["-r", "16", "-c"],
                2 => &["--convert-to-radix", "3"],
                _ => &[],
            };
            p.epochs.push(vec![sess(args, acts)]);
        }
    } else {
        lines_epochs(g, p, 3, 40, 45);
        let n = g.r.below(3);
        g.crashes(p, n, 50);
    }
}

const NAMES: [&str; 13] = [
    "$a_name_much_longer_than_any_fixed_size_buffer_would_hold_a_name_much_longer_than_any_fixed_size_buffer_would_hold_a_name_much_longer_than_any_fixed_size_buffer_would_hold_a_name_much_longer_than_any_fixed_size_buffer_would_hold_a_name_much_longer_than_any_fixed_size_buffer",
    "$x", "$X", "$y", "$long_variable_name_0123456789", "$1", "$a'b", "$q\"w", "$", "$x1", "$f;", "$$", "$sqrt",
];

/// Variables of a plan; mostly plain, sometimes names that are easily confused.
fn var_set(g: &mut G, max: usize) -> &'static [&'static str] {
    let all: &[&[&str]] = if g.r.chance(1, 3) {
        &[
            &["$x", "$X"],
            &["$a_b", "$axb", "$A_B"],
            &["$x", "$x1", "$xx"],
            &["$", "$$"],
            &["$a?c", "$abc", "$a.c"],
            &["$1", "$01", "$1.0"],
            &["$a'b", "$a''b"],
            &["$q\"w", "$qw"],
        ]
    } else {
        &[&["$x"], &["$x", "$y"], &["$x", "$y", "$z"]]
    };
    let v = *g.r.pick(all);
    &v[..v.len().min(max)]
}

fn v01(g: &mut G, p: &mut Plan) {
    let n = g.r.range(1, 3) as usize;
    let mut vars: Vec<&str> = Vec::new();
    while vars.len() < n {
        let v = *g.r.pick(&NAMES);
        if !vars.contains(&v) {
            vars.push(v);
        }
    }
    if g.r.chance(1, 2) {
        p.prep = g.store(&vars);
    }
    if let Prep::Store { cap, .. } = &mut p.prep {
        *cap = (*cap).max(3);
    }
    let mix = VarMix { assign: 6, mention: 2, bad: 1, reload: 1, purge: 1, plain: 2, cap: 0 };
    for _ in 0..g.r.range(1, 3) {
        let mut e = Vec::new();
        let k = if g.r.chance(1, 5) { 2 } else { 1 };
        for _ in 0..k {
            let radix = *g.r.pick(&[10u32, 10, 10, 2, 16, 7, 12]);
            let mut args: Vec<String> = Vec::new();
            if radix != 10 {
                args.push("--radix".into());
                args.push(radix.to_string());
            }
            if g.r.chance(1, 3) {
                args.push("--fractional".into());
            }
            if g.r.chance(1, 4) {
                args.push("--precision".into());
                args.push(g.r.below(30).to_string());
            }
            if g.r.chance(1, 6) {
                args.push("--commas".into());
            }
            if g.r.chance(1, 6) {
                args.push("--convert-to-radix".into());
                args.push(g.r.range(2, 16).to_string());
            }
            let mut acts = Vec::new();
            for _ in 0..g.r.range(1, 4) {
                let t = g.var_line(&vars, radix, &mix);
                acts.push(g.line(t));
            }
            let mut s = sess(&[], acts);
            s.args = args;
            e.push(s);
        }
        g.starts(&mut e);
        p.epochs.push(e);
    }
    p.observe = Observe {
        vars: vars.iter().map(|s| s.to_string()).collect(),
        history: g.r.chance(1, 4),
        cap: false,
        cont: false,
    };
    match g.r.below(5) {
        0 => {}
        1 | 2 => {
            let n = g.r.range(1, 2);
            g.crashes_after(p, n, 40)
        }
        3 => {
            let n = g.r.range(1, 2);
            g.crashes(p, n, 40)
        }
        _ => {
            let n = g.r.range(1, 2);
            failures(g, p, n)
        }
    }
}

fn v02(g: &mut G, p: &mut Plan) {
    let vars = var_set(g, 3);
    let cap = *g.r.pick(&[1i64, 2, 2, 3, 3, 4, 5]);
    let fresh = g.r.chance(1, 3);
    if !fresh {
        p.prep = g.store(vars);
    }
    if let Prep::Store { lines, vars, cap: c, .. } = &mut p.prep {
        *c = cap;
        let drop = lines.len().saturating_sub(cap as usize);
        lines.drain(..drop);
        vars.retain(|v| v.3 >= drop);
        for v in vars.iter_mut() {
            v.3 -= drop;
        }
    }
    let mix = VarMix { assign: 4, mention: 4, bad: 2, reload: 2, purge: 2, plain: 5, cap: 1 };
    for _ in 0..g.r.range(1, 3) {
        let mut e = Vec::new();
        let k = if g.r.chance(1, 6) { 2 } else { 1 };
        for _ in 0..k {
            let mut acts = Vec::new();
            if fresh && p.epochs.is_empty() && e.is_empty() {
                // A store made by the sessions themselves, with a capacity that matters.
                acts.push(g.line(format!("/histcap {cap}")));
            }
            for _ in 0..g.r.range(2, 6) {
                let t = g.var_line(vars, 10, &mix);
                acts.push(g.line(t));
            }
            e.push(sess(&["-f"], acts));
        }
        g.starts(&mut e);
        p.epochs.push(e);
    }
    p.observe = Observe {
        vars: vars.iter().map(|s| s.to_string()).collect(),
        history: g.r.chance(1, 3),
        cap: false,
        cont: false,
    };
    match g.r.below(3) {
        0 => {}
        1 => {
            let n = g.r.range(1, 2);
            g.crashes_after(p, n, 30)
        }
        _ => {
            let n = g.r.range(1, 2);
            g.crashes(p, n, 40)
        }
    }
}

fn v03(g: &mut G, p: &mut Plan) {
    if g.r.chance(1, 4) {
        return duel(g, p);
    }
    let vars = var_set(g, 2);
    if g.r.chance(2, 3) {
        p.prep = g.store(vars);
    }
    let mix = VarMix { assign: 5, mention: 6, bad: 1, reload: 3, purge: 3, plain: 1, cap: 0 };
    let mut e = Vec::new();
    for _ in 0..g.r.range(2, 3) {
        let mut acts = Vec::new();
        for _ in 0..g.r.range(2, 5) {
            let t = g.var_line(vars, 10, &mix);
            acts.push(g.line(t));
        }
        e.push(sess(&["-f"], acts));
    }
    g.starts(&mut e);
    p.epochs.push(e);
    p.observe = Observe {
        vars: vars.iter().map(|s| s.to_string()).collect(),
        history: g.r.chance(1, 3),
        ..Default::default()
    };
    if let Prep::Store { cap, .. } = &mut p.prep {
        // Mostly without evictions.
        if g.r.chance(3, 4) {
            *cap = 100;
        }
    }
    if g.r.chance(1, 5) {
        g.crashes(p, 1, 100);
        p.faults.retain(|f| f.kind == FaultKind::Kill);
    }
    if g.r.chance(1, 6) {
        failures(g, p, 1);
    }
}

/// Few lines about the same thing in two or three sessions, one of which is held up between its
/// accesses to the store while the others go on.
fn duel(g: &mut G, p: &mut Plan) {
    let vars = &var_set(g, 2)[..1];
    if g.r.chance(1, 2) {
        let saved = if g.r.chance(1, 2) { vars } else { &[] };
        p.prep = g.store(saved);
    }
    if let Prep::Store { cap, .. } = &mut p.prep {
        *cap += g.r.below(30) as i64;
    }
    g.think = *g.r.pick(&[20u64, 200, 1000]);
    let mix = VarMix { assign: 6, mention: 3, bad: 1, reload: 2, purge: 2, plain: 2, cap: 1 };
    let mut e = Vec::new();
    for _ in 0..g.r.range(2, 3) {
        let acts = (0..g.r.range(1, 3))
            .map(|_| {
                let t = g.var_line(vars, 10, &mix);
                g.line(t)
            })
            .collect();
        e.push(sess(&["-f"], acts));
    }
    for s in e.iter_mut().skip(1) {
        s.start_us = g.r.below(600);
    }
    p.epochs.push(e);
    p.observe = Observe {
        vars: vars.iter().map(|s| s.to_string()).collect(),
        history: true,
        cap: g.r.chance(1, 2),
        cont: false,
    };
    let c = dry(p);
    for _ in 0..g.r.range(1, 2) {
        let sid = g.r.idx(p.epochs[0].len());
        let s = p.epochs[0][sid].clone();
        let act = g.pick_act(&s, false);
        let class = if g.r.chance(4, 5) { Class::Lock } else { Class::Store };
        let us = g.r.range(300, 6000);
        if let Some(f) = g.inside(&c, sid, act, class, FaultKind::Stall(us)) {
            p.faults.push(f);
        }
    }
    if g.r.chance(1, 8) {
        g.crashes(p, 1, 100);
        for f in &mut p.faults {
            if !matches!(f.kind, FaultKind::Stall(_)) {
                f.kind = FaultKind::Kill;
            }
        }
    }
}

fn m01(g: &mut G, p: &mut Plan) {
    if g.r.chance(1, 4) {
        return duel(g, p);
    }
    let vars: &[&str] = if g.r.chance(1, 3) { &[] } else { var_set(g, 2) };
    if g.r.chance(2, 3) {
        p.prep = g.store(vars);
    }
    let cap = g.r.below(3);
    let mix = VarMix { assign: 4, mention: 3, bad: 1, reload: 1, purge: 2, plain: 5, cap };
    for _ in 0..g.r.range(1, 2) {
        let mut e = Vec::new();
        for _ in 0..g.r.range(2, 4) {
            let mut acts = Vec::new();
            for _ in 0..g.r.range(1, 4) {
                let t = if vars.is_empty() {
                    if g.r.chance(1, 6) { g.cap_cmd() } else { g.plain() }
                } else {
                    g.var_line(vars, 10, &mix)
                };
                acts.push(g.line(t));
            }
            if g.r.chance(1, 4) {
                let t = g.t();
                acts.push(Act::UpAll(t, 0));
            }
            let mut s = sess(&["-f"], acts);
            maybe_alt(g, &mut s);
            e.push(s);
        }
        g.starts(&mut e);
        p.epochs.push(e);
    }
    p.observe = Observe {
        vars: vars.iter().map(|s| s.to_string()).collect(),
        history: true,
        cap: true,
        cont: false,
    };
    match g.r.below(5) {
        0 | 1 => {}
        2 => {
            let n = g.r.range(1, 2);
            g.crashes(p, n, 100);
            for f in &mut p.faults {
                f.kind = FaultKind::Kill;
            }
        }
        3 => stalls(g, p, 2, 200_000),
        _ => g.crashes(p, 1, 50),
    }
}

fn stalls(g: &mut G, p: &mut Plan, n: u64, max: u64) {
    let c = dry(p);
    let flat: Vec<SessPlan> = p.epochs.iter().flatten().cloned().collect();
    for _ in 0..n {
        let sid = g.r.idx(flat.len());
        let act = g.pick_act(&flat[sid], true);
        let class = *g.r.pick(&[Class::Store, Class::Write, Class::Sync, Class::Unlock, Class::Lock, Class::Read]);
        let us = g.r.range(max / 100, max);
        if let Some(f) = g.inside(&c, sid, act, class, FaultKind::Stall(us)) {
            p.faults.push(f);
        }
    }
}

fn m02(g: &mut G, p: &mut Plan) {
    p.prep = g.store(&[]);
    if let Prep::Store { lines, cap, .. } = &mut p.prep {
        if lines.is_empty() {
            let l = g.rename(g.n as usize % 4 + 1);
            *lines = l;
            *cap = (*cap).max(lines.len() as i64);
        }
        if g.r.chance(1, 3) {
            g.repeat = *g.r.pick(&[2u64, 3, 5]);
            g.hist.extend(lines.iter().cloned());
        }
    }
    for _ in 0..g.r.range(1, 2) {
        let mut e = Vec::new();
        for k in 0..g.r.range(1, 3) {
            let mut acts = Vec::new();
            for _ in 0..g.r.range(1, 5) {
                if k == 0 && g.r.chance(1, 2) || g.r.chance(1, 5) {
                    let t = *g.r.pick(&[1u64, 100, 2000, 20000]);
                    let n = if g.r.chance(1, 2) { 0 } else { g.r.range(1, 4) as u32 };
                    if g.repeat > 0 {
                        // Lines that look alike have to be marked.
                        acts.push(Act::Climb(t));
                        continue;
                    }
                    acts.push(Act::UpAll(t, n));
                    if g.r.chance(2, 3) {
                        acts.push(Act::DownAll(t));
                    }
                } else {
                    let t = if g.r.chance(1, 8) { g.cap_cmd() } else { g.plain() };
                    let t = g.again(t);
                    acts.push(g.line(t));
                }
            }
            // A line recalled and not left would be submitted again by a Line act.
            let acts = settle_recalls(acts);
            e.push(sess(&[], acts));
        }
        g.starts(&mut e);
        p.epochs.push(e);
    }
    p.observe = Observe { history: true, ..Default::default() };
    if g.r.chance(1, 4) {
        g.crashes(p, 1, 100);
        for f in &mut p.faults {
            f.kind = FaultKind::Kill;
        }
    } else if g.r.chance(1, 4) {
        // Reading fails on the way back; it is tried again later.
        for s in p.epochs.iter_mut().flatten() {
            if s.acts.iter().any(|a| matches!(a, Act::UpAll(..))) {
                s.acts.extend([Act::DownAll(1), Act::UpAll(1, 0)]);
            }
        }
        let c = dry(p);
        let flat: Vec<SessPlan> = p.epochs.iter().flatten().cloned().collect();
        for _ in 0..g.r.range(1, 3) {
            let sid = g.r.idx(flat.len());
            let ups: Vec<i32> = (0..flat[sid].acts.len())
                .filter(|k| matches!(flat[sid].acts[*k], Act::UpAll(..) | Act::Climb(_)))
                .map(|k| k as i32)
                .collect();
            if ups.is_empty() {
                continue;
            }
            let act = *g.r.pick(&ups);
            let class = *g.r.pick(&[Class::Read, Class::Read, Class::Lock, Class::Access, Class::Size]);
            if let Some(f) = g.inside(&c, sid, act, class, FaultKind::Err) {
                p.faults.push(f);
            }
        }
    }
}

/// Goes back down to the composed line before typing a line.
pub fn settle_recalls(acts: Vec<Act>) -> Vec<Act> {
    let mut out = Vec::new();
    let mut up = false;
    for a in acts {
        match &a {
            Act::UpAll(..) => up = true,
            Act::DownAll(_) => up = false,
            Act::Line(..) if up => {
                out.push(Act::DownAll(1));
                up = false;
            }
            _ => {}
        }
        out.push(a);
    }
    out
}

fn m03(g: &mut G, p: &mut Plan) {
    let vars: &[&str] = if g.r.chance(1, 3) { &[] } else { var_set(g, 2) };
    if g.r.chance(2, 3) {
        p.prep = g.store(vars);
    }
    if let Prep::Store { cap, .. } = &mut p.prep {
        if *cap < 5 && g.r.chance(3, 4) {
            *cap = 100;
        }
    }
    let mix = VarMix { assign: 4, mention: 2, bad: 0, reload: 1, purge: 1, plain: 5, cap: 1 };
    g.think = *g.r.pick(&[1u64, 20, 200, 2000]);
    let mut e = Vec::new();
    for _ in 0..g.r.range(2, 5) {
        let mut acts = Vec::new();
        for _ in 0..g.r.range(1, 4) {
            let t = if vars.is_empty() {
                if g.r.chance(1, 4) { g.cap_cmd() } else { g.plain() }
            } else {
                g.var_line(vars, 10, &mix)
            };
            let t = if g.r.chance(1, 10) { g.cap_query() } else { t };
            acts.push(g.line(t));
        }
        if g.r.chance(1, 4) {
            // Some of the way back, and perhaps a long look at what is there.
            let t = g.t();
            let n = if g.r.chance(1, 3) { 0 } else { g.r.range(1, 3) as u32 };
            let k = g.r.idx(acts.len() + 1);
            acts.insert(k, Act::UpAll(t, n));
            if g.r.chance(1, 2) {
                let long = *g.r.pick(&[100_000u64, 8_000_000, 60_000_000]);
                acts.insert(k + 1, Act::Key(long, Key::Left(0)));
            }
        } else if g.r.chance(1, 8) {
            let long = *g.r.pick(&[100_000u64, 8_000_000, 60_000_000]);
            let k = g.r.idx(acts.len() + 1);
            acts.insert(k, Act::Key(long, Key::Left(0)));
        }
        let acts = settle_recalls(acts);
        e.push(sess(&["-f"], acts));
    }
    g.starts(&mut e);
    p.epochs.push(e);
    if g.r.chance(1, 3) {
        let t = g.plain();
        let a = g.line(t);
        p.epochs.push(vec![sess(&[], vec![a])]);
    }
    p.observe = Observe { history: g.r.chance(1, 4), cap: false, cont: false, vars: vec![] };
    match g.r.below(4) {
        0 => {}
        1 => {
            let max = *g.r.pick(&[200_000u64, 1_500_000, 3_200_000]);
            stalls(g, p, 1, max)
        }
        _ => {
            let n = g.r.range(1, 2);
            g.crashes(p, n, 100);
            for f in &mut p.faults {
                f.kind = FaultKind::Kill;
            }
        }
    }
}

/// Storage failures inside lines.
pub fn failures(g: &mut G, p: &mut Plan, n: u64) {
    let c = dry(p);
    let flat: Vec<SessPlan> = p.epochs.iter().flatten().cloned().collect();
    let alone = p.epochs.iter().all(|e| e.len() == 1);
    for _ in 0..n {
        let sid = g.r.idx(flat.len());
        if !flat[sid].has_store() {
            continue;
        }
        let act = g.pick_act(&flat[sid], g.n % 3 == 0);
        let (class, kind) = match g.r.below(14) {
            0 => (Class::Read, FaultKind::Err),
            1 => (Class::Open, FaultKind::Err),
            2 => (Class::Open, FaultKind::Full),
            3 => (Class::Write, FaultKind::Err),
            4 => (Class::Write, FaultKind::ErrAfter),
            5 => (Class::Write, FaultKind::Short),
            6 => (Class::Write, FaultKind::Full),
            7 => (Class::Sync, FaultKind::Err),
            8 => (Class::Delete, *g.r.pick(&[FaultKind::Err, FaultKind::ErrAfter])),
            9 => (Class::Trunc, *g.r.pick(&[FaultKind::Err, FaultKind::ErrAfter])),
            10 => (Class::Lock, FaultKind::Err),
            11 => (Class::Size, FaultKind::Err),
            12 if alone => (Class::Unlock, FaultKind::Err),
            _ => (Class::Store, FaultKind::Err),
        };
        if class == Class::Store && !alone {
            continue;
        }
        if let Some(mut f) = g.inside(&c, sid, act, class, kind) {
            f.count = match g.r.below(6) {
                0 => g.r.range(2, 6) as u32,
                1 => 100_000,
                _ => 1,
            };
            p.faults.push(f);
        }
    }
}

fn e01(g: &mut G, p: &mut Plan) {
    let vars: &[&str] = &["$x", "$y"];
    if g.r.chance(2, 3) {
        p.prep = g.store(vars);
    }
    let mix = VarMix { assign: 5, mention: 3, bad: 1, reload: 2, purge: 2, plain: 4, cap: 2 };
    for _ in 0..g.r.range(1, 2) {
        let mut e = Vec::new();
        let k = if g.r.chance(1, 5) { 2 } else { 1 };
        for _ in 0..k {
            let mut acts = Vec::new();
            for _ in 0..g.r.range(2, 6) {
                let t = match g.r.below(14) {
                    0 | 1 => setting_line(g),
                    2 => g.cap_query(),
                    _ => g.var_line(vars, 10, &mix),
                };
                acts.push(g.line(t));
                if k == 1 && g.r.chance(1, 8) {
                    let t = g.t();
                    acts.push(Act::UpAll(t, 0));
                }
            }
            let acts = settle_recalls(acts);
            e.push(sess(&["-f"], acts));
        }
        g.starts(&mut e);
        p.epochs.push(e);
    }
    p.observe = Observe {
        vars: vars.iter().map(|s| s.to_string()).collect(),
        history: true,
        cap: true,
        cont: g.r.chance(1, 2),
    };
    let n = g.r.range(1, 3);
    failures(g, p, n);
    if p.faults.is_empty() {
        failures(g, p, 6);
    }
    // A normal result after a failure still means saved: power is lost after the answer.
    if g.r.chance(1, 3) {
        if let Some(f) = p.faults.first().cloned() {
            let m = g.power();
            if f.act >= 0 {
                let real = g.r.chance(1, 3);
                p.faults.push(Fault {
                    sid: f.sid,
                    act: f.act + 1,
                    class: Class::Event,
                    nth: 0,
                    count: 1,
                    kind: if real { FaultKind::Power(m) } else { FaultKind::ProbePower(m) },
                });
            }
        }
    }
}

pub fn setting_line(g: &mut G) -> String {
    let t = match g.r.below(12) {
        0 => "/fractional true",
        1 => "/f f",
        2 => "/radix 10",
        3 => "/precision 7",
        4 => "/precision",
        5 => "/commas true",
        6 => "/commas",
        7 => "/upper t",
        8 => "/converttoradix 8",
        9 => "/converttoradix none",
        10 => "/precision 3 4",
        _ => "/fractional",
    };
    g.pad(t)
}

fn e02(g: &mut G, p: &mut Plan) {
    let vars: &[&str] = &["$x", "$y"];
    if g.r.chance(1, 2) {
        p.prep = g.store(vars);
    }
    let mix = VarMix { assign: 5, mention: 4, bad: 1, reload: 2, purge: 2, plain: 4, cap: 2 };
    let mut e = Vec::new();
    for k in 0..g.r.range(1, 3) {
        let mut acts = Vec::new();
        for _ in 0..g.r.range(1, 7) {
            let t = match g.r.below(9) {
                0 => setting_line(g),
                1 => g.cap_query(),
                2 => {
                    let t = *g.r.pick(&["/help", "/help histcap", "/help reloadvar", "/h purgevar", "/h upper", "/help radix"]);
                    g.pad(t)
                }
                _ => g.var_line(vars, 10, &mix),
            };
            acts.push(g.line(t));
            if g.r.chance(1, 8) {
                let t = g.t();
                acts.push(Act::UpAll(t, 0));
            }
        }
        let acts = settle_recalls(acts);
        let mut s = sess(&["-f"], acts);
        match g.r.below(5) {
            0 | 1 => s.args.push("--no-db".into()),
            2 => s.env = None,
            3 => {
                s.env = None;
                s.args.push("--no-db".into());
            }
            _ => {
                let i = match g.r.below(4) {
                    0 => "/histcap 2".into(),
                    1 => "$x = 5".into(),
                    2 => "/reloadvar $x".into(),
                    _ => g.plain(),
                };
                s.row0 = 0;
                s.args.push("--input".into());
                // clap takes a leading '-' for an option.
                s.args.push(if i.starts_with('-') { format!("0{i}") } else { i });
                s.acts.clear();
            }
        }
        maybe_alt(g, &mut s);
        e.push(s);
        // Next to one that does use it.
        if k == 0 && g.r.chance(1, 4) {
            let mut acts = Vec::new();
            for _ in 0..2 {
                let t = g.plain();
                acts.push(g.line(t));
            }
            e.push(sess(&[], acts));
        }
    }
    g.starts(&mut e);
    p.epochs.push(e);
    p.observe = Observe { history: g.r.chance(1, 3), cap: true, ..Default::default() };
}

fn t01(g: &mut G, p: &mut Plan) {
    if g.r.chance(1, 2) {
        p.prep = g.store(&[]);
    }
    let mut acts = Vec::new();
    for _ in 0..g.r.below(5) {
        let a = match g.r.below(8) {
            0 => Act::UpAll(1, 2),
            1 => Act::Key(1, Key::Char('7', 0)),
            2 => Act::Key(1, Key::Left(0)),
            3 => Act::Resize(1, g.r.range(2, 60) as u16, g.r.range(3, 30) as u16),
            4 => Act::Key(1, Key::Other(g.r.below(12) as u8)),
            _ => {
                let t = match g.r.below(4) {
                    0 => "/help".to_string(),
                    1 => "$x = 1/3".to_string(),
                    _ => g.plain(),
                };
                Act::Line(1, t)
            }
        };
        acts.push(a);
    }
    match g.r.below(10) {
        0 => acts.push(Act::Key(1, Key::Paste)),
        1 => acts.push(Act::Resize(1, g.r.range(1, 4) as u16, 20)),
        _ => {}
    }
    let mut s = sess(&[], acts);
    s.cols = *g.r.pick(&[2u16, 3, 4, 5, 10, 40, 80, 200]);
    s.rows = g.r.range(2, 30) as u16;
    if g.r.chance(1, 2) {
        s.args.push("--alternate-screen".into());
    }
    if g.r.chance(1, 3) {
        s.args.push("--no-db".into());
    } else if g.r.chance(1, 8) {
        s.env = Some("nowhere".into());
    } else if g.r.chance(1, 12) {
        p.prep = Prep::Newer { min_version: 9, extra_tables: false, lines: vec![], sql: vec![] };
    }
    p.epochs.push(vec![s]);
    // One failure anywhere.
    if g.r.chance(9, 10) {
        let c = dry(p);
        let all: Vec<(i32, Class, u32)> = c[0].iter().map(|((a, k), n)| (*a, *k, *n)).collect();
        if !all.is_empty() {
            // By kind first, so that rare kinds get their share.
            let mut kinds: Vec<Class> = all.iter().map(|x| x.1).collect();
            kinds.sort();
            kinds.dedup();
            let k = *g.r.pick(&kinds);
            let of: Vec<&(i32, Class, u32)> = all.iter().filter(|x| x.1 == k).collect();
            let &&(act, class, n) = g.r.pick(&of);
            let kind = match class {
                Class::TtyWrite => *g.r.pick(&[
                    FaultKind::Err,
                    FaultKind::Err,
                    FaultKind::Errno(libc::EPIPE),
                    FaultKind::Errno(libc::EINTR),
                    FaultKind::Short,
                ]),
                Class::Mkdir => FaultKind::Errno(*g.r.pick(&[libc::EACCES, libc::EROFS, libc::ENOSPC])),
                _ => FaultKind::Err,
            };
            let count = if g.r.chance(1, 4) && kind == FaultKind::Err { 100_000 } else { 1 };
            p.faults.push(Fault { sid: 0, act, class, nth: g.r.below(n as u64) as u32, count, kind });
        }
    }
}

fn c02(g: &mut G, p: &mut Plan) {
    let vars: &[&str] = &["$x", "$y"];
    let newer = g.r.chance(1, 2);
    let mut seen_vars = vars.to_vec();
    if newer {
        let k = g.r.below(6) as usize;
        let lines = g.rename(k);
        let mut sql: Vec<String> = Vec::new();
        if g.r.chance(1, 2) {
            // A newer format need not have what this one has, besides the declaration.
            if g.r.chance(1, 3) {
                for t in ["variable_history", "input_history_tags", "input_history"] {
                    sql.push(format!("DROP TABLE {t}"));
                }
            } else {
                for x in [
                    "DROP TABLE variable_history",
                    "DROP TABLE input_history_tags",
                    "DELETE FROM input_history_tags",
                    "DELETE FROM meta_int WHERE key = 3",
                    "DELETE FROM meta_int WHERE key = 1",
                    "INSERT INTO meta_int VALUES (4, 1)",
                    "PRAGMA user_version = 7",
                    "ALTER TABLE input_history RENAME TO lines",
                    "UPDATE meta_int SET value = -1 WHERE key = 3",
                ] {
                    if g.r.chance(1, 4) {
                        let gone = sql.iter().any(|s: &String| s.contains("DROP TABLE input_history_tags"));
                        if !(gone && x.contains("FROM input_history_tags")) {
                            sql.push(x.into());
                        }
                    }
                }
            }
        }
        p.prep = Prep::Newer {
            min_version: *g.r.pick(&[2i64, 2, 3, 100, 255, 256, 257, 258, 65_536, 65_537, 1 << 32, (1 << 32) + 1, i64::MAX]),
            extra_tables: g.r.chance(1, 2),
            lines,
            sql,
        };
    } else {
        let k = g.r.below(14) as usize;
        let mut lines = g.rename(k);
        for l in lines.iter_mut() {
            if g.r.chance(1, 3) {
                *l = g.plain();
            }
        }
        let mut vs = Vec::new();
        if k > 0 {
            for v in vars {
                if g.r.chance(3, 4) {
                    let (a, b) = g.ratio();
                    vs.push((v.to_string(), a, b, g.r.idx(k)));
                }
            }
        }
        let cap = *g.r.pick(&[k.max(1) as i64, 14, 100, 100, 5000, 65_536, 1 << 31, i64::MAX]);
        let mut cap = cap.max(k as i64);
        let mut sql: Vec<String> = Vec::new();
        if g.r.chance(1, 2) {
            // Written by an earlier program, or a later compatible one.
            let n = g.r.range(1, 2);
            for _ in 0..n {
                match g.r.below(11) {
                    9 | 10 => {
                        // Later programs may keep more about everything.
                        let t = *g.r.pick(&["variable_history", "variable_history", "input_history", "input_history_tags", "meta_int"]);
                        let x = format!("ALTER TABLE {t} ADD COLUMN note DEFAULT 'more'");
                        let gone = sql.iter().any(|s| s.ends_with(t));
                        if !gone && !sql.contains(&x)  {
                            sql.push(x);
                        }
                    }
                    0 => {
                        vs.clear();
                        sql.push("DROP TABLE IF EXISTS variable_history".into());
                    }
                    1 => {
                        cap = 100;
                        sql.push("DELETE FROM meta_int WHERE key = 3".into());
                    }
                    2 => sql.push("DELETE FROM meta_int WHERE key = 1".into()),
                    3 => sql.push("UPDATE meta_int SET value = 737373 WHERE key = 1".into()),
                    4 => sql.push("UPDATE meta_int SET value = 0 WHERE key = 2".into()),
                    5 => sql.push("DELETE FROM meta_int WHERE key = 2".into()),
                    6 => sql.push("INSERT OR REPLACE INTO meta_int (key, value) VALUES (77, 424242)".into()),
                    7 => sql.push(
                        "CREATE TABLE IF NOT EXISTS later(note PRIMARY KEY); INSERT OR REPLACE INTO later VALUES (424242)".into(),
                    ),
                    _ => sql.push("PRAGMA user_version = 7".into()),
                }
            }
            if cap != 100 {
                sql.retain(|s| !s.ends_with("WHERE key = 3"));
            }
        }
        if g.r.chance(1, 6) && sql.is_empty() {
            // Names that need care.
            for (w, n) in vs.iter_mut().zip(["$a'b", "$q\"w;"]) {
                w.0 = n.into();
            }
            seen_vars = vec!["$a'b", "$q\"w;"];
        }
        p.prep = Prep::Store {
            lines,
            vars: vs,
            cap,
            first_id: *g.r.pick(&[1i64, 7, 1 << 40]),
            sql,
        };
    }
    for _ in 0..g.r.range(1, 2) {
        let mut e = Vec::new();
        for _ in 0..(if g.r.chance(1, 4) { 2 } else { 1 }) {
            let mut acts = Vec::new();
            if g.r.chance(1, 2) {
                acts.push(Act::UpAll(1, 0));
                acts.push(Act::DownAll(1));
            }
            for _ in 0..g.r.below(3) {
                let t = if !newer && g.r.chance(1, 2) {
                    g.var_line(&seen_vars, 10, &VarMix { assign: 3, mention: 2, bad: 0, reload: 1, purge: 1, plain: 2, cap: 0 })
                } else {
                    g.plain()
                };
                acts.push(g.line(t));
            }
            if newer {
                let t = g.plain();
                acts.push(g.line(t));
            }
            let mut s = sess(&["-f"], acts);
            maybe_alt(g, &mut s);
            e.push(s);
        }
        g.starts(&mut e);
        p.epochs.push(e);
    }
    if !newer {
        p.observe = Observe {
            vars: seen_vars.iter().map(|s| s.to_string()).collect(),
            history: true,
            cap: true,
            cont: false,
        };
    }
    if g.r.chance(1, 2) {
        let c = dry(p);
        let n = c.len();
        for _ in 0..g.r.range(1, 2) {
            let sid = g.r.idx(n);
            let kind = if g.r.chance(1, 2) { FaultKind::Err } else { g.crash_kind(50) };
            if let Some(mut f) = g.inside(&c, sid, -1, Class::Store, kind) {
                if kind == FaultKind::Err && g.r.chance(1, 4) {
                    f.count = 1000;
                }
                p.faults.push(f);
            }
        }
    }
}
