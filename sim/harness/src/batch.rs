//! Many runs: workers, the coordinator that watches them, replay and evidence.
use crate::gen;
use crate::judge::{judge, outcome_hash, Outcome};
use crate::minim::Min;
use crate::plan::Plan;
use crate::rng::{hash_bytes, mix2};
use crate::run;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

const HANG_S: u64 = 45;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub kind: String,
    pub detail: String,
    pub plan: Option<Plan>,
    #[serde(default)]
    pub trace: Vec<String>,
}

#[derive(Serialize, Deserialize, Default, Debug)]
struct Stats {
    runs: u64,
    sims: u64,
    sim_us: u64,
    steps: u64,
    switches: u64,
    lines: u64,
    probes: u64,
    searched: u64,
    gave_up: u64,
    nodes: u64,
    overlapped: u64,
    fault_runs: u64,
    fired: BTreeMap<String, u64>,
    logs: BTreeSet<u64>,
    inters: BTreeSet<u64>,
    disks: BTreeSet<u64>,
    samples: Vec<String>,
}

pub fn run_seed(prop: &str, seed: u64, index: u64) -> u64 {
    mix2(mix2(hash_bytes(11, prop.as_bytes()), seed), index)
}

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn start() -> Scratch {
    run::init();
    Scratch(run::scratch())
}

/// What makes a run count: something happened in it that the property is about.
pub fn nontrivial(p: &Plan, o: &Outcome) -> bool {
    match p.property.as_str() {
        "T02" | "T03" | "T04" | "T05" | "C01" | "C02" | "E02" | "R01" => o.steps >= 12,
        "M01" | "M02" | "M03" | "V03" => o.switches >= 4 || !o.fired.is_empty(),
        "T01" => !o.fired.is_empty() || o.steps >= 6,
        "I01" => o.sims >= 3,
        _ => !o.fired.is_empty() || o.switches >= 4,
    }
}
fn rule(prop: &str) -> String {
    let n = match prop {
        "T02" | "T03" | "T04" | "T05" | "C01" | "C02" | "E02" | "R01" => "at least 12 scheduled steps (keys, resizes, storage operations) were taken",
        "M01" | "M02" | "M03" | "V03" => "control changed between overlapping sessions at least four times in the middle of their storage operations, or a fault fired",
        "I01" => "at least two expressions were compared",
        "T01" => "a failure was injected, or the session took at least six steps to its exit",
        _ => "a crash or storage fault actually fired inside the run, or sessions overlapped with at least four switches",
    };
    format!("every run is a plan (sessions, keys, prepared store, costs of operations, faults) generated from VERIF_SEED and the run's index and executed by the simulator; faults are placed inside operations counted in a fault-free dry run; non-trivial: {n}; distinct: by the hash of the complete event log (operations with data, terminal bytes, crashes, outcomes)")
}

pub fn worker(prop: &str, seed: u64, first: u64, step: u64, runs: u64, secs: u64) -> i32 {
    let _scratch = start();
    let t0 = Instant::now();
    let mut st = Stats::default();
    let out = std::io::stdout();
    let mut i = first;
    while i < runs && t0.elapsed().as_secs() < secs {
        {
            let mut o = out.lock();
            let _ = writeln!(o, "B {i}");
            let _ = o.flush();
        }
        let plan = gen::make(prop, run_seed(prop, seed, i));
        let o = judge(&plan, false);
        st.runs += 1;
        st.sims += o.sims;
        st.sim_us += o.sim_us;
        st.steps += o.steps;
        st.switches += o.switches;
        st.lines += o.lines;
        st.probes += o.probes;
        st.searched += o.searched as u64;
        st.gave_up += o.gave_up as u64;
        st.nodes += o.nodes;
        st.overlapped += o.overlap as u64;
        st.fault_runs += !o.fired.is_empty() as u64;
        for (k, n) in &o.fired {
            *st.fired.entry(k.clone()).or_insert(0) += n;
        }
        if nontrivial(&plan, &o) {
            st.logs.insert(o.log);
        }
        if st.inters.len() < 400_000 {
            st.inters.insert(o.inter);
            st.disks.extend(o.disks.iter().copied());
        }
        if st.samples.is_empty() && nontrivial(&plan, &o) && st.runs > 3 {
            let mut p = serde_json::to_string(&plan).unwrap();
            if p.len() < 2500 {
                p.push_str(&format!(" -> {} storage/key steps, {} switches, fired {:?}", o.steps, o.switches, o.fired));
                st.samples.push(p);
            }
        }
        if let Some(v) = o.violations.first() {
            let r = Replay {
                property: prop.into(),
                seed,
                index: i,
                kind: v.kind.clone(),
                detail: v.detail.clone(),
                plan: Some(plan),
                trace: vec![],
            };
            let mut o = out.lock();
            let _ = writeln!(o, "V {}", serde_json::to_string(&r).unwrap());
            let _ = o.flush();
            break;
        }
        i += step;
    }
    let mut o = out.lock();
    let _ = writeln!(o, "S {}", serde_json::to_string(&st).unwrap());
    let _ = o.flush();
    0
}

fn spawn(args: &[String]) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::inherit())
        .spawn()
        .expect("worker")
}

/// Runs this program with a time limit: exit code (None: still running, or killed by a signal)
/// and output.
fn limited(args: &[String], secs: u64, quiet: bool) -> (Option<i32>, bool, String) {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).stdin(Stdio::null()).stdout(Stdio::piped());
    if quiet {
        c.stderr(Stdio::null());
    }
    let mut child = c.spawn().expect("child");
    let pid = child.id();
    let so = child.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut BufReader::new(so), &mut s);
        s
    });
    let t0 = Instant::now();
    let mut hung = false;
    let code = loop {
        match child.try_wait().expect("wait") {
            Some(st) => break st.code(),
            None if t0.elapsed().as_secs() >= secs => {
                hung = true;
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    let out = h.join().unwrap_or_default();
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("bcalcsim-{pid}")));
    (code, hung, out)
}

/// The plan of a replay file. Plans of hanging runs may not have been written down.
fn plan_of(r: &Replay) -> Plan {
    match &r.plan {
        Some(p) => p.clone(),
        None => gen::make(&r.property, run_seed(&r.property, r.seed, r.index)),
    }
}

pub fn replay(path: &str, quiet: bool) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let r: Replay = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let full = std::fs::canonicalize(path).map(|p| p.display().to_string()).unwrap_or(path.to_string());
    let _scratch = start();
    let plan = plan_of(&r);
    let o = judge(&plan, !quiet);
    if !quiet {
        for l in &o.trace {
            println!("{l}");
        }
    }
    for v in &o.violations {
        println!("{}: {}", v.kind, v.detail);
    }
    println!("hash {:016x}", outcome_hash(&o));
    match o.violations.first() {
        Some(v) => {
            println!("KIND {}", v.kind);
            println!("VIOLATION property={} replay={full}", r.property);
            1
        }
        None => 0,
    }
}

pub fn one(prop: &str, seed: u64, index: u64) -> i32 {
    let _scratch = start();
    let plan = gen::make(prop, run_seed(prop, seed, index));
    println!("{}", serde_json::to_string(&plan).unwrap());
    let o = judge(&plan, true);
    for l in &o.trace {
        println!("{l}");
    }
    for v in &o.violations {
        println!("{}: {}", v.kind, v.detail);
    }
    println!("hash {:016x}", outcome_hash(&o));
    !o.violations.is_empty() as i32
}

pub fn hashes(prop: &str, seed: u64, first: u64, count: u64) -> i32 {
    let _scratch = start();
    for i in first..first + count {
        let plan = gen::make(prop, run_seed(prop, seed, i));
        let o = judge(&plan, false);
        let v = o.violations.first().map(|v| format!(" {}: {}", v.kind, v.detail)).unwrap_or_default();
        println!("{prop} {seed} {i} {:016x} {}{v}", outcome_hash(&o), o.violations.len());
    }
    0
}

/// Shrinks the plan in `from`, writing every improvement to `to`.
pub fn minimize(from: &str, to: &str, secs: u64) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(from).expect("plan")).expect("plan");
    let kind = r.kind.clone();
    let outside = kind == "hang" || kind == "abort";
    let mut best = plan_of(&r);
    let tmp = format!("{to}.try");
    let _scratch = if outside { None } else { Some(start()) };
    let save = |p: &Plan, detail: &str, trace: Vec<String>, path: &str| {
        let n = Replay { plan: Some(p.clone()), detail: detail.into(), trace, ..r.clone() };
        let t = format!("{path}.new");
        std::fs::write(&t, serde_json::to_string_pretty(&n).unwrap()).expect("replay file");
        std::fs::rename(&t, path).expect("replay file");
    };
    let mut fails = |p: &Plan| -> bool {
        if outside {
            save(p, &r.detail, vec![], &tmp);
            let (c, hung, _) = limited(&["replay".into(), tmp.clone(), "quiet".into()], 8, true);
            if kind == "hang" {
                hung
            } else {
                !hung && c.map(|c| c != 0 && c != 1).unwrap_or(true)
            }
        } else {
            judge(p, false).violations.first().map(|v| v.kind == kind).unwrap_or(false)
        }
    };
    let mut better = |p: &Plan| save(p, &r.detail, vec![], to);
    let mut m = Min { fails: &mut fails, better: &mut better, until: Instant::now(), tries: 0 };
    m.run(&mut best, Duration::from_secs(secs));
    let tries = m.tries;
    if !outside {
        let o = judge(&best, true);
        if let Some(v) = o.violations.first() {
            if v.kind == kind {
                save(&best, &v.detail, o.trace, to);
            }
        }
    }
    let _ = std::fs::remove_file(&tmp);
    println!("{tries} attempts");
    0
}

enum Msg {
    Begin(usize, u64),
    Found(usize, Box<Replay>),
    Stats(Box<Stats>),
    End(usize),
}

/// Exit code and kind of a replay in a process of its own.
fn reproduce(path: &str) -> Option<String> {
    let (code, hung, out) = limited(&["replay".into(), path.into(), "quiet".into()], HANG_S, true);
    if hung {
        return Some("hang".into());
    }
    match code {
        Some(0) => None,
        Some(1) => out.lines().find_map(|l| l.strip_prefix("KIND ")).map(|s| s.to_string()),
        _ => Some("abort".into()),
    }
}

#[allow(clippy::too_many_arguments)]
pub fn check(prop: &str, tier: &str, seed: u64, evidence: &str, replays: &str, runs: u64, secs: u64, jobs: u64) -> i32 {
    let t0 = Instant::now();
    let jobs = if jobs == 0 { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) } else { jobs as usize };
    let (tx, rx) = mpsc::channel();
    let mut kids: Vec<Option<Child>> = Vec::new();
    for k in 0..jobs {
        let mut c = spawn(&[
            "worker".into(),
            prop.into(),
            seed.to_string(),
            k.to_string(),
            jobs.to_string(),
            runs.to_string(),
            secs.to_string(),
        ]);
        let so = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                let l = match l {
                    Ok(l) => l,
                    Err(_) => break,
                };
                let m = match l.split_at(l.len().min(2)) {
                    ("B ", r) => r.parse().ok().map(|i| Msg::Begin(k, i)),
                    ("V ", r) => serde_json::from_str(r).ok().map(|r| Msg::Found(k, Box::new(r))),
                    ("S ", r) => serde_json::from_str(r).ok().map(|s| Msg::Stats(Box::new(s))),
                    _ => None,
                };
                if let Some(m) = m {
                    let _ = tx.send(m);
                }
            }
            let _ = tx.send(Msg::End(k));
        });
        kids.push(Some(c));
    }
    drop(tx);
    let mut at: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); jobs];
    let mut done = vec![false; jobs];
    let mut found: Option<Replay> = None;
    let mut total = Stats::default();
    let mut broken: Option<String> = None;
    let lost = |i: u64, kind: &str, found: &mut Option<Replay>| {
        if found.as_ref().map(|f| f.index > i).unwrap_or(true) {
            *found = Some(Replay {
                property: prop.into(),
                seed,
                index: i,
                kind: kind.into(),
                detail: match kind {
                    "hang" => format!("a run did not end within {HANG_S} s"),
                    _ => "the process running the session was ended by a signal".into(),
                },
                plan: None,
                trace: vec![],
            });
        }
    };
    while done.iter().any(|d| !d) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Begin(k, i)) => at[k] = (i, Instant::now()),
            Ok(Msg::Found(k, r)) => {
                at[k].0 = u64::MAX;
                if found.as_ref().map(|f| f.index > r.index).unwrap_or(true) {
                    found = Some(*r);
                }
            }
            Ok(Msg::Stats(s)) => merge(&mut total, *s),
            Ok(Msg::End(k)) => {
                done[k] = true;
                if let Some(mut c) = kids[k].take() {
                    let pid = c.id();
                    let st = c.wait().expect("worker");
                    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("bcalcsim-{pid}")));
                    if !st.success() && at[k].0 != u64::MAX {
                        match st.code() {
                            None => lost(at[k].0, "abort", &mut found),
                            Some(c) => broken = Some(format!("worker {k} ended with status {c} in run {}", at[k].0)),
                        }
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        for k in 0..jobs {
            if done[k] || kids[k].is_none() {
                continue;
            }
            let past = found.as_ref().map(|f| at[k].0 != u64::MAX && at[k].0 > f.index).unwrap_or(false);
            let hung = at[k].1.elapsed().as_secs() > HANG_S && at[k].0 != u64::MAX;
            if past || hung {
                if hung && !past {
                    lost(at[k].0, "hang", &mut found);
                }
                let mut c = kids[k].take().unwrap();
                let pid = c.id();
                let _ = c.kill();
                let _ = c.wait();
                let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("bcalcsim-{pid}")));
            }
        }
    }
    let explored = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut replay_path = String::new();
    let mut notes: Vec<String> = Vec::new();
    if let Some(r) = found {
        match report(&r, replays) {
            Ok((p, kind, detail)) => {
                replay_path = p.clone();
                notes.push(format!("{kind}: {detail}"));
                println!("{prop}: run {} of seed {seed}: {kind}: {detail}", r.index);
                println!("VIOLATION property={prop} replay={p}");
                code = 1;
            }
            Err(e) => {
                eprintln!("{e}");
                code = 2;
            }
        }
    } else if let Some(b) = broken {
        eprintln!("harness error: {b}");
        code = 2;
    } else if total.runs == 0 {
        eprintln!("harness error: nothing ran");
        code = 2;
    }
    write_evidence(prop, tier, seed, evidence, &total, explored, t0.elapsed().as_secs_f64(), code, &replay_path, &notes, jobs);
    if code == 0 {
        println!(
            "{prop}: {} runs ({} simulations, {} distinct non-trivial) in {explored:.1} s, no violation",
            total.runs,
            total.sims,
            total.logs.len()
        );
    }
    code
}

fn merge(t: &mut Stats, s: Stats) {
    t.runs += s.runs;
    t.sims += s.sims;
    t.sim_us += s.sim_us;
    t.steps += s.steps;
    t.switches += s.switches;
    t.lines += s.lines;
    t.probes += s.probes;
    t.searched += s.searched;
    t.gave_up += s.gave_up;
    t.nodes += s.nodes;
    t.overlapped += s.overlapped;
    t.fault_runs += s.fault_runs;
    for (k, n) in s.fired {
        *t.fired.entry(k).or_insert(0) += n;
    }
    t.logs.extend(s.logs);
    t.inters.extend(s.inters);
    t.disks.extend(s.disks);
    t.samples.extend(s.samples);
}

/// Confirms, minimises and writes down a violation: path of the replay file, kind, detail.
fn report(r: &Replay, replays: &str) -> Result<(String, String, String), String> {
    std::fs::create_dir_all(replays).map_err(|e| format!("{replays}: {e}"))?;
    let dir = std::fs::canonicalize(replays).map_err(|e| format!("{replays}: {e}"))?;
    let stem = format!("{}-{}-{}", r.property, r.seed, r.index);
    let raw = dir.join(format!("{stem}.raw.json")).display().to_string();
    let small = dir.join(format!("{stem}.json")).display().to_string();
    let _ = std::fs::remove_file(&small);
    let mut r = r.clone();
    let write = |r: &Replay, p: &str| std::fs::write(p, serde_json::to_string_pretty(r).unwrap()).map_err(|e| format!("{p}: {e}"));
    write(&r, &raw)?;
    let mut kind = None;
    if r.plan.is_none() {
        // The generator itself may not come to an end: without its dry runs it does.
        gen::NO_DRY.with(|d| d.set(true));
        let bare = Replay { plan: Some(gen::make(&r.property, run_seed(&r.property, r.seed, r.index))), ..r.clone() };
        gen::NO_DRY.with(|d| d.set(false));
        write(&bare, &raw)?;
        kind = reproduce(&raw);
        if kind.is_some() {
            r = bare;
        } else {
            write(&r, &raw)?;
        }
    }
    for _ in 0..3 {
        if kind.is_some() {
            break;
        }
        kind = reproduce(&raw);
    }
    let kind = kind.ok_or_else(|| format!("harness error: run {} of {} failed ({}: {}) but does not fail again", r.index, r.property, r.kind, r.detail))?;
    if kind != r.kind {
        r.detail = format!("{} (at first: {}: {})", kind, r.kind, r.detail);
        r.kind = kind.clone();
        write(&r, &raw)?;
    }
    let budget = if kind == "hang" { 100 } else { 45 };
    let _ = limited(&["minimize".into(), raw.clone(), small.clone(), budget.to_string()], budget + 60, false);
    let _ = std::fs::remove_file(format!("{small}.try"));
    let _ = std::fs::remove_file(format!("{small}.try.new"));
    let _ = std::fs::remove_file(format!("{small}.new"));
    if std::path::Path::new(&small).exists() && reproduce(&small).as_deref() == Some(kind.as_str()) {
        let _ = std::fs::remove_file(&raw);
        let n: Replay = std::fs::read_to_string(&small)
            .ok()
            .and_then(|t| serde_json::from_str(&t).ok())
            .ok_or("harness error: replay file")?;
        return Ok((small, kind, n.detail));
    }
    let _ = std::fs::rename(&raw, &small);
    Ok((small, kind, r.detail))
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(prop: &str, tier: &str, seed: u64, path: &str, t: &Stats, explored: f64, wall: f64, code: i32, replay: &str, notes: &[String], jobs: usize) {
    let hours = (explored / 3600.0).max(1e-9);
    let store = !matches!(prop, "T03");
    let real = "all of /repo/src (main, interactive loop, line editor, input history, tokenizer, parser, evaluator, formatting, commands, variables, saved data), rusqlite, SQLite 3.39 (pager, journal, locking protocol, B-tree), clap parsing, crossterm command encoding";
    let stub = "terminal device and event source (screen emulator, scripted user), disk, file locks and directory calls (SQLite VFS over a simulated disk with volatile and durable images), clock and sleep, hash seeds and randomness, process start, exit, kill and power loss";
    let ev = serde_json::json!({
        "property": prop,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": crate::batch::level(prop),
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.logs.len(),
            "rule": rule(prop),
            "samples": t.samples.iter().take(4).collect::<Vec<_>>(),
            "simulations_executed": t.sims,
            "simulated_runs_per_hour": (t.sims as f64 / hours) as u64,
            "seeds_per_hour": (t.runs as f64 / hours) as u64,
            "simulated_seconds": t.sim_us as f64 / 1e6,
            "scheduling_steps": t.steps,
            "switches_between_sessions": t.switches,
            "runs_with_overlapping_sessions": t.overlapped,
            "runs_with_faults_fired": t.fault_runs,
            "faults_fired": t.fired,
            "crash_images_examined": t.probes,
            "lines_submitted": t.lines,
            "distinct_interleavings": t.inters.len(),
            "distinct_interleavings_measure": "hash of the global order of (session, line, kind of operation)",
            "distinct_disk_states": t.disks.len(),
            "distinct_disk_states_measure": "hash of all durable file contents and directory entries at crashes and at the end of runs",
            "model_searches": t.searched,
            "model_searches_given_up": t.gave_up,
            "model_states_visited": t.nodes,
            "worker_processes": jobs,
            "real_code": real,
            "simulated": stub,
            "store_simulated": store,
        },
        "assumptions": [
            "the simulated disk keeps what a successful sync covered, and after power loss any subset, prefix or torn remainder of what was not synced",
            "directories once made are durable; files are visible to all sessions at once (one machine, no network file system)",
            "terminals behave as the emulator does (VT100 subset the program uses, delayed wrap)"
        ],
        "wall_s": wall,
        "violations": (code == 1) as u64,
        "replay": replay,
        "notes": notes,
    });
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(path, serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("{path}: {e}");
    }
}

pub fn level(_prop: &str) -> &'static str {
    "exploration"
}
