//! One simulation: the plan's sessions on a disk, epoch after epoch; and fresh sessions that
//! look at a disk afterwards.
use crate::disk::Disk;
use crate::hooks::{settle_cut_lines, Hooks};
use crate::plan::*;
use crate::rng::{mix2, Rng};
use crate::term::Term;
use crate::user::User;
use crate::world::*;
use libsqlite3_sys as ffi;
use num::{BigInt, BigRational};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const DATA: &str = "data";
pub const DB: &str = "data/bcalc/saved_data.sqlite";

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Once per process.
pub fn init() {
    crate::vfs::register();
    unsafe {
        assert_eq!(ffi::sqlite3_initialize(), ffi::SQLITE_OK);
    }
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let mine = i.location().map(|l| l.file().contains("harness/src/")).unwrap_or(false);
        if sid() == HOST || (mine && !i.payload().is::<SimKill>() && !i.payload().is::<SimExit>()) {
            old(i);
            return;
        }
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let at = i.location().map(|l| {
            let f = l.file().rsplit('/').next().unwrap_or("");
            format!("{f}:{}", l.line())
        });
        let _ = PANIC.try_with(|p| {
            *p.borrow_mut() = Some(format!("{m} (at {})", at.unwrap_or_default()))
        });
        simrt::run_hook(i);
    }));
}

/// A scratch directory of this process's own; session code that touches the real file system
/// (there is none in the current tree besides mkdir) does it here.
pub fn scratch() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("bcalcsim-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    std::env::set_current_dir(&d).expect("scratch directory");
    d
}
fn reset_scratch() {
    let _ = std::fs::remove_dir_all(DATA);
    let _ = std::fs::create_dir(DATA);
}
/// Whatever is in the real scratch directory besides what the simulation put there.
pub fn scratch_files() -> Vec<String> {
    let mut out = Vec::new();
    let mut todo = vec![std::path::PathBuf::from(".")];
    while let Some(d) = todo.pop() {
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                let name = p.to_string_lossy().trim_start_matches("./").to_string();
                if p.is_dir() {
                    todo.push(p);
                }
                if name != DATA {
                    out.push(name);
                }
            }
        }
    }
    out.sort();
    out
}

pub fn new_disk() -> Disk {
    let mut d = Disk::new();
    d.dirs.insert(DATA.to_string());
    d
}

fn new_sess(sid: usize, p: &SessPlan, seed: u64, nf: usize, skew: u64) -> Sess {
    let mut rng = Rng::new(mix2(seed, sid as u64 + 1000));
    let slow = 1 + rng.below(skew.max(1));
    Sess {
        exited: None,
        store_faults: 0,
        plan: p.clone(),
        sid,
        active: false,
        started: false,
        dead: false,
        ready_at: 0,
        slow,
        act: -1,
        fault_hits: vec![0; nf],
        end: End::Running,
        start_inv: 0,
        start_res: 0,
        start_faulted: false,
        end_stamp: 0,
        t_start: 0,
        t_ready: 0,
        t_end: 0,
        prompted: false,
        above: None,
        term: {
            let mut t = Term::new(p.cols, p.rows);
            t.main.cy = p.row0.min(p.rows.saturating_sub(1)) as usize;
            t
        },
        user: Some(User::new(p.acts.clone(), p.noise, if p.has_store() { None } else { Some(vec![]) })),
        lines: Vec::new(),
        ups: Vec::new(),
        raw: false,
        raw_was_on: false,
        raw_off_faulted: false,
        stderr: String::new(),
        store_ops: 0,
        mkdirs: 0,
        foreign: Vec::new(),
        last_tty_failed: false,
        tty_failed_early: false,
        rng,
        cur_faulted: false,
        tty_dead: false,
        tty_faults: 0,
        other_faults: Vec::new(),
        exit_sent: false,
        op_counts: BTreeMap::new(),
        act_counts: BTreeMap::new(),
        dead_calls: 0,
        getrandom_n: 0,
        last_op_class: None,
    }
}

fn session_main(me: usize) {
    SID.with(|s| s.set(me));
    if !await_start(me) {
        finish(me, End::Killed);
        SID.with(|s| s.set(HOST));
        return;
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        simrt::enter(Rc::new(Hooks { sid: me }));
        let r = bcalc_ut::run_main();
        simrt::leave();
        r
    }));
    let end = match r {
        Ok(Ok(())) => End::Ok,
        Ok(Err(e)) => End::Err(e),
        Err(p) => {
            let e = if p.downcast_ref::<SimKill>().is_some() {
                End::Killed
            } else if let Some(x) = p.downcast_ref::<SimExit>() {
                End::Exit(x.0)
            } else {
                let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                End::Panic(m)
            };
            let _ = catch_unwind(AssertUnwindSafe(simrt::leave));
            e
        }
    };
    finish(me, end);
    SID.with(|s| s.set(HOST));
}

/// Runs the plan on this disk.
pub fn simulate(plan: &Plan, disk: Disk, checks: Checks, trace: bool) -> World {
    unsafe {
        ffi::sqlite3_randomness(0, std::ptr::null_mut());
    }
    reset_scratch();
    for d in &disk.dirs {
        let _ = std::fs::create_dir_all(d);
    }
    let nf = plan.faults.len();
    let mut w = World {
        disk,
        rng: Some(Rng::new(mix2(plan.sched, 1))),
        crash_rng: Some(Rng::new(mix2(plan.seed, 2))),
        faults: plan.faults.clone(),
        profile: Some(plan.profile.clone()),
        seed: plan.sched,
        max_time: 3_600_000_000
            + plan.epochs.iter().flatten().flat_map(|s| &s.acts).map(|a| match a {
                Act::Line(t, _) | Act::Key(t, _) | Act::Resize(t, ..) => *t,
                _ => 0,
            }).sum::<u64>()
            + plan.epochs.iter().flatten().map(|s| s.start_us).sum::<u64>(),
        checks,
        trace: if trace { Some(Vec::new()) } else { None },
        ..Default::default()
    };
    crate::world::WALL.store(mix2(plan.sched, 41), std::sync::atomic::Ordering::Relaxed);
    w.disk.sector = plan.profile.sector as usize;
    let mut n = 0;
    for e in &plan.epochs {
        for p in e {
            w.sess.push(new_sess(n, p, plan.sched, nf, plan.profile.skew));
            n += 1;
        }
    }
    assert!(n <= MAX_SESS);
    *lock() = Some(w);
    let mut first = 0;
    for e in &plan.epochs {
        {
            let mut g = lock();
            let w = g.as_mut().unwrap();
            if w.stuck {
                break;
            }
            let now = w.clock;
            for (k, p) in e.iter().enumerate() {
                let s = &mut w.sess[first + k];
                s.active = true;
                s.ready_at = now + p.start_us;
            }
        }
        let mut hs = Vec::new();
        for k in 0..e.len() {
            let me = first + k;
            hs.push(
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || session_main(me))
                    .expect("thread"),
            );
        }
        drive();
        for h in hs {
            h.join().expect("session thread");
        }
        first += e.len();
        let mut g = lock();
        let w = g.as_mut().unwrap();
        w.graveyard.clear();
        w.clock += 1000;
    }
    let mut w = lock().take().unwrap();
    for s in &mut w.sess {
        settle_cut_lines(s);
    }
    w
}

/// A store prepared by plain SQL, as an earlier session would have left it.
pub fn prepare(prep: &Prep) -> Disk {
    let mut disk = new_disk();
    if *prep == Prep::None {
        return disk;
    }
    disk.dirs.insert(format!("{DATA}/bcalc"));
    disk.sector = 4096;
    *lock() = Some(World { disk, seed: 1, ..Default::default() });
    let r = prepare_sql(prep);
    let mut w = lock().take().unwrap();
    r.expect("prepared store");
    w.disk.settle();
    w.disk.kill_all();
    w.disk
}

/// Every table of the store, as the library itself reads it (after recovery, if any is due).
pub fn dump(disk: &Disk) -> String {
    let mut d = disk.clone();
    d.kill_all();
    *lock() = Some(World { disk: d, seed: 1, ..Default::default() });
    let r = dump_sql();
    lock().take();
    match r {
        Ok(s) => s,
        Err(e) => format!("unreadable: {e}"),
    }
}
fn dump_sql() -> rusqlite::Result<String> {
    let c = rusqlite::Connection::open(DB)?;
    let mut out = String::new();
    let mut q = c.prepare("SELECT name, sql FROM sqlite_master ORDER BY name")?;
    let tables: Vec<(String, Option<String>)> =
        q.query_map([], |r| Ok((r.get(0)?, r.get(1)?)))?.collect::<Result<_, _>>()?;
    for (name, sql) in tables {
        out.push_str(&format!("{name}: {sql:?}\n"));
        if name.starts_with("sqlite_autoindex") {
            continue;
        }
        let mut q = c.prepare(&format!("SELECT * FROM \"{name}\" ORDER BY 1"))?;
        let n = q.column_count();
        let mut rows = q.query([])?;
        while let Some(r) = rows.next()? {
            for k in 0..n {
                out.push_str(&format!("{:?} ", r.get_ref(k)?));
            }
            out.push('\n');
        }
    }
    Ok(out)
}

fn prepare_sql(prep: &Prep) -> rusqlite::Result<()> {
    let c = rusqlite::Connection::open(DB)?;
    let (lines, vars, cap, first_id, min_v, ver) = match prep {
        Prep::None => return Ok(()),
        Prep::Store { lines, vars, cap, first_id, .. } => (lines, vars.clone(), *cap, *first_id, 1, 1),
        Prep::Newer { min_version, lines, .. } => {
            (lines, vec![], 100, 1, *min_version, *min_version)
        }
    };
    c.execute_batch(
        "BEGIN;
         CREATE TABLE meta_int(
                key INTEGER PRIMARY KEY ASC,
                value INTEGER NOT NULL
            );
         CREATE TABLE input_history(
                id INTEGER PRIMARY KEY ASC,
                input TEXT NOT NULL,
                next REFERENCES input_history(id),
                prev REFERENCES input_history(id)
            );
         CREATE TABLE input_history_tags(
                key INTEGER PRIMARY KEY ASC,
                value REFERENCES input_history(id)
            );
         CREATE TABLE variable_history(
                name TEXT PRIMARY KEY ON CONFLICT REPLACE,
                numer TEXT NOT NULL,
                denom TEXT NOT NULL,
                last_used_by NOT NULL REFERENCES input_history(id) ON DELETE CASCADE
            );",
    )?;
    c.execute("INSERT INTO meta_int VALUES (2, ?1), (1, ?2), (3, ?3)", (min_v, ver, cap))?;
    for (k, l) in lines.iter().enumerate() {
        let id = first_id + k as i64;
        let prev = if k > 0 { Some(id - 1) } else { None };
        c.execute("INSERT INTO input_history VALUES (?1, ?2, NULL, ?3)", (id, l, prev))?;
        c.execute("UPDATE input_history SET next = ?1 WHERE id = ?2", (id, prev))?;
    }
    let (front, back) = if lines.is_empty() {
        (None, None)
    } else {
        (Some(first_id + lines.len() as i64 - 1), Some(first_id))
    };
    c.execute("INSERT INTO input_history_tags VALUES (1, ?1), (2, ?2)", (front, back))?;
    for (n, a, b, k) in &vars {
        c.execute("INSERT INTO variable_history VALUES (?1, ?2, ?3, ?4)", (n, a, b, first_id + *k as i64))?;
    }
    if let Prep::Newer { extra_tables: true, .. } = prep {
        c.execute_batch(
            "CREATE TABLE settings(name TEXT PRIMARY KEY, value TEXT);
             INSERT INTO settings VALUES ('radix', '16');
             ALTER TABLE input_history ADD COLUMN result TEXT;",
        )?;
    }
    c.execute_batch("COMMIT;")?;
    if let Prep::Store { sql, .. } | Prep::Newer { sql, .. } = prep {
        if !sql.is_empty() {
            c.execute_batch("PRAGMA foreign_keys = OFF;")?;
        }
        for s in sql {
            c.execute_batch(s)?;
        }
    }
    Ok(())
}

/// What fresh sessions found on a disk.
#[derive(Clone, Debug, Default)]
pub struct Seen {
    /// Newest first.
    pub history: Option<Vec<String>>,
    pub cap: Option<i64>,
    /// None: unknown to the fresh session.
    pub vars: BTreeMap<String, Option<BigRational>>,
    /// Something went wrong looking.
    pub problems: Vec<String>,
    pub runs: u64,
}

pub fn quiet_profile() -> Profile {
    Profile { op_us: 5, tail_in: 0, tail_us: 0, skew: 1, sector: 4096 }
}

pub fn wide_session(args: &[&str], acts: Vec<Act>) -> SessPlan {
    SessPlan {
        start_us: 0,
        args: args.iter().map(|s| s.to_string()).collect(),
        env: Some(DATA.to_string()),
        cols: 6000,
        rows: 60,
        row0: 0,
        noise: 0,
        acts,
    }
}

fn observer_plan(seed: u64, sess: Vec<Vec<SessPlan>>) -> Plan {
    Plan {
        property: "observer".into(),
        seed,
        sched: seed,
        profile: quiet_profile(),
        prep: Prep::None,
        epochs: sess,
        faults: vec![],
        observe: Observe::default(),
    }
}

/// Lines a fresh session types after it has looked, to see that the store keeps working.
pub const CONT: [&str; 3] = ["601+1", "602+1", "603+1"];

pub fn observe(disk: &Disk, o: &Observe, seed: u64) -> Seen {
    let mut out = Seen::default();
    let mut base = disk.clone();
    base.kill_all();
    let ended_badly = |w: &World, out: &mut Seen, what: &str| {
        for s in &w.sess {
            if s.end != End::Ok {
                out.problems.push(format!("{what}: fresh session ended with {:?}", s.end));
            }
            for l in &s.lines {
                if let Some(r) = &l.shown {
                    if r.first().map(|x| x.starts_with("Runtime Error")).unwrap_or(false) {
                        out.problems.push(format!("{what}: {:?} answered {r:?}", l.text));
                    }
                }
            }
        }
        for v in &w.violations {
            out.problems.push(format!("{what}: {}: {}", v.kind, v.detail));
        }
    };
    if o.history || o.cap {
        let mut acts = vec![Act::Climb(10), Act::Line(10, "/histcap".into())];
        let mut epochs = Vec::new();
        if o.cont {
            for l in CONT {
                acts.push(Act::Line(10, l.into()));
            }
            epochs.push(vec![wide_session(&[], acts)]);
            epochs.push(vec![wide_session(&[], vec![Act::Climb(10)])]);
        } else {
            epochs.push(vec![wide_session(&[], acts)]);
        }
        let w = simulate(&observer_plan(seed, epochs), base.clone(), Checks::default(), false);
        out.runs += 1;
        ended_badly(&w, &mut out, "looking at the history");
        let h = w.sess[0].ups.first().map(|u| u.seen.clone()).unwrap_or_default();
        if out.problems.is_empty() {
            out.history = Some(h.clone());
            let shown = w.sess[0].lines[0].shown.clone().unwrap_or_default();
            match shown.first().and_then(|s| s.trim().parse::<i64>().ok()) {
                Some(c) => out.cap = Some(c),
                None => out.problems.push(format!("/histcap in a fresh session shows {shown:?}")),
            }
            if o.cont {
                // The lines just typed, then what was there, cut to the capacity.
                let mut want: Vec<String> = CONT.iter().rev().map(|s| s.to_string()).collect();
                want.push("/histcap".into());
                want.extend(h.iter().cloned());
                want.truncate(out.cap.unwrap_or(100).clamp(0, 1 << 40) as usize);
                let got = w.sess[1].ups.first().map(|u| u.seen.clone()).unwrap_or_default();
                if got != want {
                    out.problems.push(format!(
                        "saving further lines from that state: backscroll is {got:?} instead of {want:?}"
                    ));
                }
            }
        }
    }
    for v in &o.vars {
        let p = observer_plan(
            seed,
            vec![vec![wide_session(&["--fractional"], vec![Act::Line(10, v.clone())])]],
        );
        let w = simulate(&p, base.clone(), Checks::default(), false);
        out.runs += 1;
        let n = out.problems.len();
        ended_badly(&w, &mut out, &format!("looking at {v}"));
        if out.problems.len() > n {
            continue;
        }
        let rows = w.sess[0].lines[0].shown.clone().unwrap_or_default();
        let r = rows.join("");
        if r.starts_with("Error: ") && r.contains(v.as_str()) {
            out.vars.insert(v.clone(), None);
        } else if let Some(x) = rational(&r) {
            out.vars.insert(v.clone(), Some(x));
        } else {
            out.problems.push(format!("{v} in a fresh session shows {r:?}"));
        }
    }
    out
}

pub fn rational(s: &str) -> Option<BigRational> {
    let (a, b) = match s.split_once('/') {
        Some((a, b)) => (a, b),
        None => (s, "1"),
    };
    let a = BigInt::parse_bytes(a.trim().as_bytes(), 10)?;
    let b = BigInt::parse_bytes(b.trim().as_bytes(), 10)?;
    if b == BigInt::from(0) {
        return None;
    }
    Some(BigRational::new(a, b))
}
