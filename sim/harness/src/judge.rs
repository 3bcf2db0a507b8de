//! Runs one plan and says what is wrong with what happened.
use crate::disk::Disk;
use crate::eval::{self, Settings};
use crate::model::{self, Search};
use crate::plan::*;
use crate::rng::{hash_bytes, mix2};
use crate::run::{self, Seen};
use crate::world::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub sims: u64,
    pub sim_us: u64,
    pub switches: u64,
    pub steps: u64,
    pub fired: BTreeMap<String, u64>,
    /// Everything that happened.
    pub log: u64,
    /// Order of operations.
    pub inter: u64,
    /// Disks (after crashes and at the end).
    pub disks: Vec<u64>,
    pub lines: u64,
    pub probes: u64,
    pub searched: bool,
    pub gave_up: bool,
    pub nodes: u64,
    pub overlap: bool,
    pub trace: Vec<String>,
}

const MODEL: &[&str] = &[
    "H01", "H02", "H03", "V01", "V02", "V03", "M01", "M02", "M03", "E01", "E02", "C01", "C02", "T02", "T04",
];
const OUTPUTS: &[&str] = &["V01", "V02", "V03", "M01", "E01", "E02", "C01"];
pub const NODE_LIMIT: u64 = 60_000;

fn v(kind: &str, detail: String) -> Violation {
    Violation { kind: kind.into(), detail }
}

fn short(s: &str) -> String {
    if s.chars().count() > 300 {
        let t: String = s.chars().take(300).collect();
        format!("{t}...")
    } else {
        s.to_string()
    }
}

pub fn checks_for(prop: &str) -> Checks {
    Checks {
        screen: prop == "T03",
        recall: prop == "T04" || prop == "M02",
        lines: false,
    }
}

pub fn judge(plan: &Plan, trace: bool) -> Outcome {
    let prop = plan.property.as_str();
    let mut o = Outcome::default();
    let before = run::prepare(&plan.prep);
    let mut w = run::simulate(plan, before.clone(), checks_for(prop), trace);
    let stray = run::scratch_files();
    o.sims = 1;
    o.sim_us = w.clock;
    o.switches = w.switches;
    o.steps = w.steps;
    o.fired = w.fired.clone();
    o.log = w.log;
    o.inter = w.inter;
    o.probes = w.probes.len() as u64;
    o.lines = w.sess.iter().map(|s| s.lines.len() as u64).sum();
    o.overlap = plan.epochs.iter().any(|e| e.len() > 1);
    o.trace = w.trace.take().unwrap_or_default();
    o.violations = std::mem::take(&mut w.violations);
    if w.stuck {
        return o;
    }
    ends(plan, &w, &mut o);
    if prop == "I01" {
        terminal_unused(&w, &mut o);
    }
    if prop == "E02" || prop == "I01" {
        untouched(plan, &w, &stray, &mut o);
    }
    if prop == "M03" {
        bounded(&w, &mut o);
    }
    if prop == "C02" {
        if let Prep::Newer { .. } = plan.prep {
            refused(plan, &w, &before, &mut o);
            return o;
        }
        foreign_kept(plan, &w, &mut o);
    }
    if o.violations.is_empty() && MODEL.contains(&prop) {
        explain(plan, &mut w, &mut o);
    } else if prop == "T05" {
        let seen = run::observe(&w.disk, &plan.observe, mix2(plan.seed, 9));
        o.sims += seen.runs;
        for p in seen.problems {
            o.violations.push(v("store-broken", p));
        }
        if plan.faults.is_empty() {
            for (sid, k) in model::refused_lines(&w.sess) {
                let l = &w.sess[sid].lines[k];
                o.violations.push(v("refused", format!("s{sid}: {:?} answered {:?}", l.text, l.shown)));
            }
        }
    }
    if o.violations.is_empty() {
        match prop {
            "T02" => plainly(plan, &w, &mut o),
            "C01" => as_options(plan, &w, &mut o),
            "R01" => same_answers(plan, &w, &mut o),
            "I01" => as_interactive(plan, &w, &mut o),
            "E02" => as_with_store(plan, &w, &mut o),
            _ => {}
        }
    }
    o
}

/// How sessions may end.
fn ends(plan: &Plan, w: &World, o: &mut Outcome) {
    let newer = matches!(plan.prep, Prep::Newer { .. });
    let terminal = plan.property == "T01" || plan.property == "T05";
    for s in &w.sess {
        let id = s.sid;
        if !s.started {
            continue;
        }
        let interactive = s.plan.input().is_none();
        let usage = s.plan.args.windows(2).any(|a| a[0] == "--convert-to-radix" && a[1] == "1");
        let end = match &s.end {
            // As if main had returned it.
            End::Exit(_) if !(usage && !s.prompted) && !s.stderr.trim().is_empty() => {
                End::Err(s.stderr.trim().to_string())
            }
            e => e.clone(),
        };
        match &end {
            End::Killed | End::Running => continue,
            End::Panic(m) => o.violations.push(v("panic", format!("s{id} crashed: {m}"))),
            End::Exit(c) => {
                // Options out of range are refused before anything starts.
                if !usage || s.prompted {
                    o.violations.push(v("exit", format!("s{id} exited with status {c}")));
                }
            }
            End::Ok => {
                if interactive && !s.exit_sent {
                    o.violations.push(v("ended", format!("s{id} ended without an exit key")));
                }
                if terminal && interactive {
                    let failed = s.tty_failed_early
                        || s.other_faults.iter().any(|f| f != "RawOff")
                        || (!s.prompted && s.start_faulted);
                    if failed {
                        o.violations.push(v(
                            "failure-hidden",
                            format!("s{id} ended with success though an operation it depends on failed ({:?})", w.fired),
                        ));
                    }
                }
            }
            End::Err(e) => {
                let open_line = s.lines.last().map(|l| !l.done).unwrap_or(false);
                let narrow = {
                    let c = s.term.cols;
                    c <= 4
                };
                let pasted = s.plan.acts.iter().any(|a| matches!(a, Act::Key(_, Key::Paste)));
                let nowhere = s.plan.env.as_deref().map(|e| e != run::DATA).unwrap_or(false);
                let why = s.tty_faults > 0
                    || !s.other_faults.is_empty()
                    || (!s.prompted && s.start_faulted)
                    || (s.prompted && s.cur_faulted && !open_line)
                    || narrow
                    || pasted
                    || (nowhere && !s.prompted)
                    || (newer && s.plan.has_store() && !s.prompted);
                if !why {
                    let what = if open_line {
                        format!(" during {:?}", s.lines.last().unwrap().text)
                    } else {
                        String::new()
                    };
                    o.violations.push(v("session-failed", format!("s{id} ended with {:?}{what}", short(e))));
                }
            }
        }
        if terminal && interactive && !matches!(s.end, End::Killed | End::Running) {
            if s.raw && !s.raw_off_faulted {
                o.violations.push(v("raw", format!("s{id} left the terminal in raw mode (end: {:?})", s.end)));
            }
            if s.term.alt.is_some() && !s.last_tty_failed {
                o.violations.push(v("alt", format!("s{id} left the alternate screen on (end: {:?})", s.end)));
            }
        }
        if plan.property == "T01" && interactive && s.end == End::Ok && s.exit_sent && s.tty_faults == 0 && s.other_faults.is_empty() {
            // What comes next on the terminal finds a row of its own.
            let m = &s.term.main;
            let row = m.text(m.abs_cursor());
            if !row.trim_end().is_empty() {
                o.violations.push(v("left", format!("s{id} left the cursor on a row that shows {row:?}")));
            }
            let touched = (0..m.rows.len()).find(|r| !m.text(*r).trim_end().is_empty());
            if s.plan.alt() && touched.is_some() {
                o.violations.push(v("left", format!("s{id} used the alternate screen and left {:?} on the other one", m.text(touched.unwrap()))));
            }
        }
        if plan.property == "T01" && interactive && s.exit_sent && s.tty_faults == 0 && s.other_faults.is_empty() && s.end != End::Ok {
            o.violations.push(v("exit-key", format!("s{id}: exit key, but the session ended with {:?}", s.end)));
        }
    }
}

/// Sessions without a store touch nothing.
fn untouched(plan: &Plan, w: &World, stray: &[String], o: &mut Outcome) {
    let mut any = false;
    for s in &w.sess {
        if s.plan.has_store() {
            any = true;
            continue;
        }
        if s.store_ops > 0 || s.mkdirs > 0 || !s.foreign.is_empty() {
            o.violations.push(v(
                "storage-used",
                format!("s{} (options {:?}, data directory {:?}) did {} storage operations, made {} directories, {:?}", s.sid, s.plan.args, s.plan.env, s.store_ops, s.mkdirs, s.foreign),
            ));
        }
    }
    let had = plan.prep != Prep::None;
    let extra: Vec<&String> =
        stray.iter().filter(|f| !(f.starts_with("data/bcalc") && (any || had))).collect();
    if !extra.is_empty() {
        o.violations.push(v("storage-used", format!("files appeared: {extra:?}")));
    }
}

/// Nothing waits longer than the others can account for.
fn bounded(w: &World, o: &mut Outcome) {
    let stalls: u64 = w
        .faults
        .iter()
        .map(|f| if let FaultKind::Stall(us) = f.kind { us } else { 0 })
        .sum();
    let bound = stalls + 6_000_000;
    for s in &w.sess {
        if !s.started || s.end == End::Killed || s.end == End::Running {
            continue;
        }
        if s.t_ready.saturating_sub(s.t_start) > bound {
            o.violations.push(v("slow", format!("s{} took {} us to start", s.sid, s.t_ready - s.t_start)));
        }
        for l in &s.lines {
            if l.t_res.saturating_sub(l.t_inv) > bound {
                o.violations.push(v("slow", format!("s{}: {:?} took {} us", s.sid, l.text, l.t_res - l.t_inv)));
            }
        }
    }
}

/// A store of a newer program: refused, and left alone.
fn refused(plan: &Plan, w: &World, before: &Disk, o: &mut Outcome) {
    for s in &w.sess {
        if s.started && s.prompted && s.plan.has_store() {
            o.violations.push(v("newer-accepted", format!("s{} started on a store that needs a newer version", s.sid)));
        }
    }
    let mut disks: Vec<(String, Disk)> =
        w.probes.iter().map(|p| (p.what.clone(), p.disk.clone())).collect();
    disks.push(("the end".into(), w.disk.clone()));
    let want = run::dump(before);
    for (what, d) in disks {
        o.disks.push(d.content_hash());
        let got = run::dump(&d);
        if got != want {
            o.violations.push(v("newer-changed", format!("at {what} the newer store is {} instead of {}", short(&got), short(&want))));
        }
    }
    let clean = w.faults.is_empty();
    if clean && w.disk.file(run::DB) != before.file(run::DB) {
        o.violations.push(v("newer-changed", "the newer store's file has changed".into()));
    }
    let _ = plan;
}

/// What a later compatible program put into the store is not thrown away.
fn foreign_kept(plan: &Plan, w: &World, o: &mut Outcome) {
    const MARK: &str = "424242";
    let Prep::Store { sql, .. } = &plan.prep else { return };
    let n = sql.iter().filter(|s| s.contains(MARK)).collect::<std::collections::BTreeSet<_>>().len();
    // A later program that says this one may use its store.
    let later = sql.iter().any(|s| s.contains("737373")) && !sql.iter().any(|s| s.ends_with("meta_int WHERE key = 1"));
    if n == 0 && !later {
        return;
    }
    let disks = w.probes.iter().map(|p| (p.what.as_str(), &p.disk)).chain([("the end", &w.disk)]);
    for (what, d) in disks {
        let got = run::dump(d);
        if later && !got.contains("737373") {
            o.violations.push(v("content-lost", format!("at {what} the version declared by another program is gone: {}", short(&got))));
        }
        if got.matches(MARK).count() < n {
            o.violations.push(v("content-lost", format!("at {what} content written by another program is gone: {}", short(&got))));
        }
    }
}

/// Looks at all disks with fresh sessions and lets the model explain everything.
fn explain(plan: &Plan, w: &mut World, o: &mut Outcome) {
    let mut seen: Vec<(u64, Seen)> = Vec::new();
    let ob = &plan.observe;
    let looks = ob.history || ob.cap || !ob.vars.is_empty();
    if looks {
        let mut disks: Vec<(u64, Disk, String)> = std::mem::take(&mut w.probes)
            .into_iter()
            .map(|p| (p.stamp, p.disk, p.what))
            .collect();
        disks.push((u64::MAX, w.disk.clone(), "the end".into()));
        for (k, (stamp, d, what)) in disks.into_iter().enumerate() {
            o.disks.push(d.content_hash());
            let s = run::observe(&d, ob, mix2(plan.seed, 100 + k as u64));
            o.sims += s.runs;
            for p in &s.problems {
                o.violations.push(v("store-broken", format!("after {what}: {p}")));
            }
            if s.problems.is_empty() {
                seen.push((stamp, s));
            }
        }
        if !o.violations.is_empty() {
            return;
        }
    }
    let (mut s, store) = Search::new(&w.sess, seen, &plan.prep, NODE_LIMIT);
    s.outputs = OUTPUTS.contains(&plan.property.as_str());
    o.searched = true;
    match s.run(store) {
        model::Verdict::Explained => {}
        model::Verdict::GaveUp => o.gave_up = true,
        model::Verdict::Unexplained(why) => {
            o.violations.push(v("unexplained", format!("no order of steps explains what was seen; nearest: {why}")))
        }
    }
    o.nodes = s.nodes;
}

fn alone(plan: &Plan, s: SessPlan) -> Plan {
    Plan {
        property: "reference".into(),
        seed: plan.seed,
        sched: mix2(plan.sched, 5),
        profile: run::quiet_profile(),
        prep: Prep::None,
        epochs: vec![vec![s]],
        faults: vec![],
        observe: Observe::default(),
    }
}

fn joined(rows: &Option<Vec<String>>) -> String {
    let v: Vec<&str> = rows.iter().flatten().map(|s| s.trim_end()).collect();
    v.join("\n")
}

/// The lines the keys spell, typed plainly into a fresh session, give the same results.
fn plainly(plan: &Plan, w: &World, o: &mut Outcome) {
    for s in &w.sess {
        let acts: Vec<Act> = s.lines.iter().map(|l| Act::Line(1, l.text.clone())).collect();
        if acts.is_empty() {
            continue;
        }
        let mut p = run::wide_session(&["--no-db"], acts);
        p.args.extend(s.plan.args.iter().filter(|a| a.as_str() == "-f").cloned());
        let r = run::simulate(&alone(plan, p), run::new_disk(), Checks::default(), false);
        o.sims += 1;
        for (a, b) in s.lines.iter().zip(&r.sess[0].lines) {
            if !a.done || !b.done {
                continue;
            }
            let (x, y) = (joined(&a.shown), joined(&b.shown));
            if x != y {
                o.violations.push(v(
                    "line",
                    format!("the keys spell {:?}, which gives {}; the session answered {}", a.text, short(&y), short(&x)),
                ));
                return;
            }
        }
    }
}

/// Lines are read and shown as with the settings given as options.
fn as_options(plan: &Plan, w: &World, o: &mut Outcome) {
    for s in &w.sess {
        let mut set = Settings::from_args(&s.plan.args);
        for l in &s.lines {
            if !l.done || runtime(&l.shown) {
                continue;
            }
            match eval::parse(&l.text, set.radix) {
                eval::Parsed::Command(c, a) => {
                    let mut n = set.clone();
                    if let Some(Some(_)) = eval::setting(&mut n, &c, &a) {
                        set = n;
                    }
                    continue;
                }
                _ => {}
            }
            if l.text.contains('$') {
                continue;
            }
            let mut args = set.to_args();
            args.push(format!("--input={}", l.text));
            let mut p = run::wide_session(&[], vec![]);
            p.args = args;
            let r = run::simulate(&alone(plan, p), run::new_disk(), Checks::default(), false);
            o.sims += 1;
            let x = joined(&l.shown);
            let y = one_shot(&r.sess[0]);
            if x != y {
                o.violations.push(v(
                    "settings",
                    format!("{:?} with {:?} in effect was answered {}; with the same settings as options: {}", l.text, set, short(&x), short(&y)),
                ));
                return;
            }
        }
    }
}

/// What a line means for the lines after it.
enum Matters {
    /// It assigns, purges or sets something.
    Keeps,
    /// It does not.
    Nothing,
    /// What it left behind is not known (it failed half way); nothing that mentions these
    /// variables is compared from here on.
    Spoils(Vec<String>),
}

/// Answers depend on the line, the settings and the variables only: with other lines left out
/// (and without store, faults, scrolling or other sessions) the remaining answers are the same.
fn same_answers(plan: &Plan, w: &World, o: &mut Outcome) {
    const PARTS: usize = 3;
    for s in &w.sess {
        if s.plan.input().is_some() {
            continue;
        }
        let mut set = Settings::from_args(&s.plan.args);
        // Variables another session touches too have values that depend on it.
        let mut spoilt: Vec<String> = w.sess.iter().filter(|t| t.sid != s.sid).flat_map(|t| t.lines.iter().flat_map(|l| touched(&l.text))).collect();
        // Lines with what they were answered; None: kept for its effect only.
        let mut script: Vec<(String, Option<String>, bool)> = Vec::new();
        for l in &s.lines {
            let error = l.shown.as_ref().and_then(|r| r.first()).map(|x| x.starts_with("Error: ")).unwrap_or(false);
            let fails = !l.done || runtime(&l.shown);
            let mut compare = !fails;
            let (names, m) = match eval::parse(&l.text, set.radix) {
                eval::Parsed::Command(c, a) => match c.as_str() {
                    "purgevar" => {
                        let n = eval::names(&a).unwrap_or_default();
                        let m = if fails {
                            Matters::Spoils(n.clone())
                        } else if error {
                            Matters::Nothing
                        } else {
                            Matters::Keeps
                        };
                        (n, m)
                    }
                    "histcap" | "reloadvar" => {
                        compare = false;
                        (vec![], Matters::Nothing)
                    }
                    "help" | "h" => {
                        // These say whether there is a store.
                        let which = matches!(a.trim(), "" | "histcap" | "reloadvar");
                        compare &= !(which && s.plan.has_store());
                        (vec![], Matters::Nothing)
                    }
                    _ => {
                        let mut n = set.clone();
                        match eval::setting(&mut n, &c, &a) {
                            Some(Some(_)) if !fails => {
                                set = n;
                                (vec![], Matters::Keeps)
                            }
                            _ => (vec![], Matters::Nothing),
                        }
                    }
                },
                eval::Parsed::Expr { assign: Some(v), mentions, .. } => {
                    let m = if fails {
                        Matters::Spoils(vec![v])
                    } else if error {
                        Matters::Nothing
                    } else {
                        Matters::Keeps
                    };
                    (mentions, m)
                }
                eval::Parsed::Expr { mentions, .. } | eval::Parsed::BadSyntax(mentions) => (mentions, Matters::Nothing),
                eval::Parsed::Opaque(mentions) => {
                    // The subset the parser knows does not reach functions: an assignment shows.
                    let target = l.text.trim_start().split_once('=').map(|(v, _)| v.trim().to_string());
                    let m = match target {
                        Some(v) if v.starts_with('$') && fails => Matters::Spoils(vec![v]),
                        Some(v) if v.starts_with('$') && !error => Matters::Keeps,
                        _ => Matters::Nothing,
                    };
                    (mentions, m)
                }
                _ => (vec![], Matters::Nothing),
            };
            if names.iter().any(|n| spoilt.contains(n)) {
                // An assignment from an unknown value is unknown as well.
                if let Matters::Keeps = m {
                    let v: Vec<String> = l.text.trim_start().split_once('=').map(|(v, _)| v.trim().to_string()).into_iter().collect();
                    spoilt.extend(v);
                }
                continue;
            }
            match m {
                Matters::Keeps => script.push((l.text.clone(), compare.then(|| joined(&l.shown)), true)),
                Matters::Nothing => {
                    if compare {
                        script.push((l.text.clone(), Some(joined(&l.shown)), false));
                    }
                }
                Matters::Spoils(v) => spoilt.extend(v),
            }
        }
        let shift = plan.seed as usize;
        for part in 0..PARTS {
            let mut k = 0;
            let picked: Vec<&(String, Option<String>, bool)> = script
                .iter()
                .filter(|l| {
                    k += 1;
                    l.2 || (k + shift) % PARTS == part
                })
                .collect();
            if picked.is_empty() {
                continue;
            }
            let acts = picked.iter().map(|l| Act::Line(1, l.0.clone())).collect();
            let mut p = run::wide_session(&["--no-db"], acts);
            p.args.extend(s.plan.args.iter().filter(|a| !matches!(a.as_str(), "--no-db" | "-a" | "--alternate-screen")).cloned());
            let r = run::simulate(&alone(plan, p), run::new_disk(), Checks::default(), false);
            o.sims += 1;
            for (l, b) in picked.iter().zip(&r.sess[0].lines) {
                let y = joined(&b.shown);
                if let Some(x) = &l.1 {
                    if *x != y {
                        o.violations.push(v(
                            "answer",
                            format!(
                                "s{}: {:?} was answered {}; a session with the same settings and variables, without the lines in between ({:?}), answers {}",
                                s.sid, l.0, short(x), picked.iter().map(|l| l.0.as_str()).collect::<Vec<_>>(), short(&y)
                            ),
                        ));
                        return;
                    }
                }
            }
        }
    }
}

/// Variables a line may assign or purge.
fn touched(text: &str) -> Vec<String> {
    let t = text.trim_start();
    if let Some(names) = t.strip_prefix("/purgevar") {
        return eval::names(names).unwrap_or_default();
    }
    match t.split_once('=') {
        Some((v, _)) if v.starts_with('$') => vec![v.trim().to_string()],
        _ => vec![],
    }
}

fn runtime(r: &Option<Vec<String>>) -> bool {
    r.as_ref().and_then(|r| r.first()).map(|x| x.starts_with("Runtime Error")).unwrap_or(false)
}

/// What a session with --input printed.
fn one_shot(s: &Sess) -> String {
    if !s.stderr.is_empty() {
        return s.stderr.trim_end().to_string();
    }
    let n = s.term.scr().abs_cursor();
    let rows = s.term.logical(0, n);
    joined(&Some(rows))
}

/// A single expression needs no terminal.
fn terminal_unused(w: &World, o: &mut Outcome) {
    for s in &w.sess {
        if s.plan.input().is_none() || !s.started {
            continue;
        }
        let used: Vec<Class> = s
            .op_counts
            .keys()
            .map(|(_, c)| *c)
            .filter(|c| matches!(c, Class::Event | Class::CursorPos | Class::WinSize | Class::RawOn | Class::RawOff))
            .collect();
        if !used.is_empty() || s.raw_was_on || s.term.alt.is_some() {
            o.violations.push(v("terminal-used", format!("s{} ({:?}) used the terminal: {used:?}", s.sid, s.plan.args)));
        }
        if s.end != End::Ok {
            o.violations.push(v("ended", format!("s{} ({:?}) ended with {:?}", s.sid, s.plan.args, s.end)));
        }
    }
}

/// A single expression is answered as in an interactive session with the same options: results
/// on standard output, errors on standard error, and nothing else.
fn as_interactive(plan: &Plan, w: &World, o: &mut Outcome) {
    for s in &w.sess {
        let Some(t) = s.plan.input() else { continue };
        let mut p = run::wide_session(&["--no-db"], vec![Act::Line(1, t.to_string())]);
        let mut skip = false;
        for a in &s.plan.args {
            if std::mem::take(&mut skip) || a == "--no-db" || a.starts_with("--input=") {
                continue;
            }
            if a == "-i" || a == "--input" {
                skip = true;
            } else if a != "-a" && a != "--alternate-screen" {
                p.args.push(a.clone());
            }
        }
        let r = run::simulate(&alone(plan, p), run::new_disk(), Checks::default(), false);
        o.sims += 1;
        let b = &r.sess[0].lines[0];
        let y = joined(&b.shown);
        let n = s.term.scr().abs_cursor();
        let out = joined(&Some(s.term.logical(0, n)));
        let err = s.stderr.trim_end().to_string();
        let (want_out, want_err) = if y.starts_with("Error: ") { ("", y.as_str()) } else { (y.as_str(), "") };
        // Variables and the saved history do not exist here, and other characters cannot be typed: such lines may be refused.
        let c = t.trim_start();
        let sess_only = !t.is_ascii() || t.contains('$') || ["/histcap", "/reloadvar", "/purgevar"].iter().any(|x| c.starts_with(x));
        if sess_only && out.trim_end().is_empty() && err.starts_with("Error: ") {
            continue;
        }
        // Help may tell about what can be used.
        if c.starts_with("/h") && out.trim().is_empty() != err.is_empty() {
            continue;
        }
        if out.trim_end() != want_out || err != want_err {
            o.violations.push(v(
                "differs",
                format!("{:?} printed {} and, as an error, {}; a session with these options answers {}", s.plan.args, short(&out), short(&err), short(&y)),
            ));
            return;
        }
    }
}

/// Without a store everything else behaves as with one.
fn as_with_store(plan: &Plan, w: &World, o: &mut Outcome) {
    for s in &w.sess {
        if s.plan.has_store() || s.end != End::Ok {
            continue;
        }
        if let Some(t) = s.plan.input() {
            if t.contains('$') || t.trim_start().starts_with('/') {
                continue;
            }
            let mut p = run::wide_session(&["--no-db"], vec![Act::Line(1, t.to_string())]);
            p.args.extend(s.plan.args.iter().filter(|a| a.as_str() == "-f").cloned());
            let r = run::simulate(&alone(plan, p), run::new_disk(), Checks::default(), false);
            o.sims += 1;
            let (x, y) = (one_shot(s), joined(&r.sess[0].lines[0].shown));
            if x != y {
                o.violations.push(v("differs", format!("--input {t:?} printed {x}, a session without a store answers {y}")));
            }
            continue;
        }
        let mut p = s.plan.clone();
        p.args.retain(|a| a != "--no-db");
        p.env = Some(run::DATA.to_string());
        p.start_us = 0;
        let r = run::simulate(&alone(plan, p), run::new_disk(), Checks::default(), false);
        o.sims += 1;
        let b = &r.sess[0];
        for (x, y) in s.lines.iter().zip(&b.lines) {
            let c = x.text.trim_start();
            let (p, q) = (joined(&x.shown), joined(&y.shown));
            let words: Vec<&str> = c.split_whitespace().collect();
            if x.done && y.done && x.text == y.text && matches!(words.first(), Some(&"/help") | Some(&"/h")) {
                if let Some(e) = help_differs(words.get(1).copied(), &p, &q) {
                    o.violations.push(v("differs", format!("{:?} without a store: {}; with one: {}: {e}", x.text, short(&p), short(&q))));
                    return;
                }
                continue;
            }
            if c.starts_with("/histcap") || c.starts_with("/reloadvar") {
                continue;
            }
            if x.text != y.text || p != q {
                o.violations.push(v(
                    "differs",
                    format!("{:?} without a store: {p}; {:?} with one: {q}", x.text, y.text),
                ));
                return;
            }
        }
        let ups: Vec<&Vec<String>> = s.ups.iter().map(|u| &u.seen).collect();
        let ups2: Vec<&Vec<String>> = b.ups.iter().map(|u| &u.seen).collect();
        if ups != ups2 {
            o.violations.push(v("differs", format!("backscroll without a store: {ups:?}; with one: {ups2:?}")));
        }
    }
}

/// Help says of the commands that need a store, and of no others, when there is none.
fn help_differs(about: Option<&str>, without: &str, with: &str) -> Option<String> {
    const NEED: [&str; 2] = ["histcap", "reloadvar"];
    let says = |t: &str| t.contains("unavailable");
    let Some(about) = about else {
        let (a, b): (Vec<&str>, Vec<&str>) = (without.lines().collect(), with.lines().collect());
        if a.len() != b.len() {
            return Some("as many commands were expected".into());
        }
        for (x, y) in a.iter().zip(&b) {
            let name = x.split_whitespace().next().unwrap_or("");
            if (x != y) != NEED.contains(&name) || says(x) != NEED.contains(&name) {
                return Some(format!("{x:?}"));
            }
        }
        return None;
    };
    let need = NEED.contains(&about);
    (says(without) != need || says(with) || (without != with) != need).then(|| "whether a command is available".into())
}

pub fn outcome_hash(o: &Outcome) -> u64 {
    let mut h = mix2(o.log, o.inter);
    for x in &o.violations {
        h = hash_bytes(h, x.kind.as_bytes());
        h = hash_bytes(h, x.detail.as_bytes());
    }
    for d in &o.disks {
        h = mix2(h, *d);
    }
    mix2(h, o.sim_us)
}
