//! Rare but larger plans: many variables, long sessions, long waits.
use crate::gen::{sess, settle_recalls, G};
use crate::plan::*;

/// Does the property get such a plan now and then? Returns true when it made one.
pub fn maybe(prop: &str, g: &mut G, p: &mut Plan) -> bool {
    match prop {
        "V02" if g.r.chance(1, 25) => {
            crowd(g, p);
            true
        }
        "H01" | "H02" | "H03" | "V01" | "V02" | "M02" | "C02" if g.r.chance(1, 50) => {
            many_sessions(prop, g, p);
            true
        }
        "M01" | "M03" | "V03" if g.r.chance(1, 50) => {
            all_at_once(g, p);
            true
        }
        "H01" | "H03" | "V01" | "V02" | "C02" if g.r.chance(1, 150) => {
            deep_store(g, p);
            true
        }
        "V01" | "V03" if g.r.chance(1, 60) => {
            big_values(g, p);
            true
        }
        "V01" | "V02" | "V03" | "E02" | "R01" if g.r.chance(1, 100) => {
            many_variables(prop, g, p);
            true
        }
        "H01" | "H02" | "M02" | "T04" | "E02" if g.r.chance(1, 100) => {
            long_session(prop, g, p);
            true
        }
        _ => false,
    }
}

fn listed(g: &mut G, names: &[String]) -> String {
    let n = *g.r.pick(&[1usize, 3, 12, 40, 70]);
    let mut v: Vec<String> = Vec::new();
    for _ in 0..n.min(names.len()) {
        let k = g.r.pick(names).clone();
        if !v.contains(&k) {
            v.push(k);
        }
    }
    v.join(" ")
}

/// More variables than any small table holds; another session changes some of them meanwhile.
fn many_variables(prop: &str, g: &mut G, p: &mut Plan) {
    let mut n = *g.r.pick(&[9usize, 17, 33, 65, 70, 101, 130]);
    if g.r.chance(1, 12) {
        n = 262;
    }
    let names: Vec<String> = match g.r.below(3) {
        0 => (0..n).map(|k| format!("$v{k}")).collect(),
        1 => (0..n).map(|k| format!("${}x", k * 37 % n)).collect(),
        // They differ late.
        _ => (0..n).map(|k| format!("${}{k}", "a_rather_long_name_".repeat(4))).collect(),
    };
    let with = |g: &G, s: String| format!("{s}{}", " ".repeat((g.n % 7) as usize));
    let first = format!("/histcap {}", 3 * n + 200);
    let mut acts: Vec<Act> = vec![g.line(first)];
    for (k, v) in names.iter().enumerate() {
        let u = g.uniq();
        let t = match g.r.below(4) {
            0 => format!("{v} = {u}/7"),
            1 if k > 0 => format!("{v} = {} + {u}", names[g.r.idx(k)]),
            _ => format!("{v} = {u}"),
        };
        acts.push(g.line(t));
    }
    let again = |g: &mut G, acts: &mut Vec<Act>| {
        for _ in 0..g.r.range(3, 12) {
            g.uniq();
            let v = if g.r.chance(1, 3) { names[g.r.idx(3)].clone() } else { g.r.pick(&names).clone() };
            let t = match g.r.below(10) {
                0 | 1 => format!("/reloadvar {}", listed(g, &names)),
                2 => format!("/purgevar {}", listed(g, &names)),
                3 => {
                    let m = g.r.range(2, 30) as usize;
                    let l: Vec<String> = (0..m).map(|_| g.r.pick(&names).clone()).collect();
                    l.join(" + ")
                }
                4 => format!("{v} = {v} + 1"),
                _ => v,
            };
            let t = with(g, t);
            acts.push(g.line(t));
        }
    };
    let alone = prop == "R01" || prop == "E02" || g.r.chance(1, 2);
    if alone {
        again(g, &mut acts);
        let mut s = sess(&["-f"], acts);
        match prop {
            "E02" => s.args.push("--no-db".into()),
            "R01" if g.r.chance(1, 2) => s.args.push("--no-db".into()),
            _ => {}
        }
        p.epochs.push(vec![s]);
        if prop != "E02" && prop != "R01" {
            let mut acts = Vec::new();
            again(g, &mut acts);
            p.epochs.push(vec![sess(&["-f"], acts)]);
        }
    } else {
        // The other one comes and goes while this one pauses.
        let t = format!("{}", g.uniq());
        acts.push(Act::Line(600_000_000, t));
        again(g, &mut acts);
        let mut other = Vec::new();
        for v in &names {
            if g.r.chance(1, 3) {
                let u = g.uniq();
                let t = format!("{v} = {u}");
                other.push(g.line(t));
            }
        }
        again(g, &mut other);
        let mut b = sess(&["-f"], other);
        b.start_us = 300_000_000;
        p.epochs.push(vec![sess(&["-f"], acts), b]);
    }
    let mut vars: Vec<String> = Vec::new();
    for _ in 0..6 {
        let v = g.r.pick(&names).clone();
        if !vars.contains(&v) {
            vars.push(v);
        }
    }
    if prop != "R01" && prop != "E02" {
        p.observe = Observe { vars, ..Default::default() };
        if prop != "V03" && g.r.chance(1, 3) {
            g.crashes_after(p, 1, 50);
        }
    }
}

/// One long session, before it a store that is full already.
fn long_session(prop: &str, g: &mut G, p: &mut Plan) {
    let cap = *g.r.pick(&[20i64, 100, 100, 130, 300, 1000]);
    let kept = match g.r.below(3) {
        0 if g.r.chance(1, 8) => cap.min(*g.r.pick(&[270i64, 540])) as usize,
        0 => 0,
        1 => cap.min(110) as usize,
        _ => g.r.below(cap.min(140) as u64 + 1) as usize,
    };
    if kept > 0 || cap != 100 {
        let lines = g.rename(kept);
        p.prep = Prep::Store { lines, vars: vec![], cap, first_id: *g.r.pick(&[1i64, 1, 200, 1 << 33]), sql: vec![] };
    }
    let mut n = *g.r.pick(&[33u64, 60, 66, 99, 102, 130]);
    if g.r.chance(1, 15) {
        n = *g.r.pick(&[260u64, 520]);
    }
    let mut acts = Vec::new();
    for _ in 0..n {
        let u = g.uniq();
        let t = if g.r.chance(1, 20) { g.plain() } else { format!("{u}+1") };
        acts.push(g.line(t));
        if g.r.chance(1, 40) {
            let t = g.t();
            let m = if g.r.chance(1, 3) { 0 } else { g.r.range(1, 20) as u32 };
            acts.push(Act::UpAll(t, m));
        }
    }
    let t = g.t();
    acts.push(Act::UpAll(t, 0));
    if g.r.chance(1, 2) {
        acts.push(Act::DownAll(t));
        let u = g.uniq();
        let t = format!("{u}+2");
        acts.push(g.line(t));
    }
    let mut s = sess(&[], settle_recalls(acts));
    if prop == "E02" {
        s.args.push("--no-db".into());
    }
    p.epochs.push(vec![s]);
    p.observe = Observe { history: prop != "E02", cap: prop != "E02", ..Default::default() };
    match prop {
        "H01" => g.crashes_after(p, 2, 60),
        "H02" => g.crashes(p, 2, 60),
        _ => {}
    }
}

/// More variables in one line than fit on one hand, in a history that is nearly full.
fn crowd(g: &mut G, p: &mut Plan) {
    let n = *g.r.pick(&[5usize, 9, 11, 17, 20]);
    let names: Vec<String> = (0..n).map(|k| format!("$v{k}")).collect();
    let cap = n as u64 + g.r.range(1, 4);
    let mut acts = vec![g.line(format!("/histcap {cap}"))];
    for v in &names {
        let u = g.uniq();
        acts.push(g.line(format!("{v} = {u}")));
    }
    for _ in 0..g.r.range(1, 3) {
        let mut some = names.clone();
        while some.len() > 1 && g.r.chance(1, 6) {
            let k = g.r.idx(some.len());
            some.remove(k);
        }
        let u = g.uniq();
        let t = if g.r.chance(1, 4) {
            format!("/reloadvar {}{}", some.join(" "), " ".repeat(u as usize % 9))
        } else {
            format!("{}+{u}", some.join("+"))
        };
        acts.push(g.line(t));
        for _ in 0..g.r.below(cap + 1) {
            let u = g.uniq();
            acts.push(g.line(format!("{u}+1")));
        }
    }
    if g.r.chance(1, 2) {
        p.epochs.push(vec![sess(&["-f"], acts)]);
    } else {
        let k = g.r.idx(acts.len());
        let rest = acts.split_off(k);
        p.epochs.push(vec![sess(&["-f"], acts)]);
        p.epochs.push(vec![sess(&["-f"], rest)]);
    }
    p.observe = Observe { vars: names, ..Default::default() };
}

/// One short session after another; some do nothing but start.
fn many_sessions(prop: &str, g: &mut G, p: &mut Plan) {
    let vars = ["$a", "$b", "$counter"];
    let cap = *g.r.pick(&[3i64, 5, 10, 100, 100]);
    if g.r.chance(1, 3) {
        let kept = g.r.below(cap as u64 + 1) as usize;
        let lines = g.rename(kept);
        p.prep = Prep::Store { lines, vars: vec![], cap, first_id: *g.r.pick(&[1i64, 1, 1 << 33]), sql: vec![] };
    }
    let n = *g.r.pick(&[9u64, 12, 17, 22]);
    for k in 0..n {
        let mut acts = Vec::new();
        for _ in 0..*g.r.pick(&[0u64, 1, 1, 1, 2]) {
            let u = g.uniq();
            let v = *g.r.pick(&vars);
            let t = match g.r.below(8) {
                0..=2 => format!("{u}+1"),
                3 | 4 => format!("{v} = {u}"),
                5 => format!("{v} = {v} + {u}"),
                6 => format!("{v}+{u}"),
                _ if prop.starts_with('H') => format!("/histcap {}{}", g.r.range(2, 12), " ".repeat(u as usize % 9)),
                _ => format!("{u}/3"),
            };
            acts.push(g.line(t));
        }
        if prop == "M02" && g.r.chance(1, 3) {
            let t = g.t();
            acts.push(Act::UpAll(t, 0));
        }
        let mut s = sess(&["-f"], acts);
        if k > 0 && g.r.chance(1, 10) {
            s.start_us = *g.r.pick(&[1_000_000u64, 90_000_000_000]);
        }
        p.epochs.push(vec![s]);
    }
    p.observe = Observe {
        vars: vars.iter().map(|v| v.to_string()).collect(),
        history: true,
        cap: true,
        ..Default::default()
    };
    if prop != "M02" && prop != "C02" && g.r.chance(1, 2) {
        g.crashes_after(p, 1, 60);
    }
}

/// More sessions at the same time than anybody has.
fn all_at_once(g: &mut G, p: &mut Plan) {
    let vars = ["$a", "$b"];
    if g.r.chance(1, 2) {
        p.prep = g.store(&vars);
    }
    let n = g.r.range(5, 9);
    let spread = *g.r.pick(&[0u64, 200, 5000, 100_000]);
    let mut e = Vec::new();
    for k in 0..n {
        let mut acts = Vec::new();
        for _ in 0..g.r.range(1, 2) {
            let u = g.uniq();
            let v = *g.r.pick(&vars);
            let t = match g.r.below(4) {
                0 => format!("{v} = {u}"),
                1 => format!("{v}+{u}"),
                _ => format!("{u}+1"),
            };
            acts.push(g.line(t));
        }
        let mut s = sess(&["-f"], acts);
        s.start_us = if k == 0 { 0 } else { g.r.below(spread + 1) };
        e.push(s);
    }
    p.epochs.push(e);
    p.observe = Observe { vars: vars.iter().map(|v| v.to_string()).collect(), history: true, ..Default::default() };
}

/// Values of thousands of digits: saved, read by a later session, reloaded.
fn big_values(g: &mut G, p: &mut Plan) {
    let vars = ["$a", "$big"];
    let mut lines = |g: &mut G, first: bool| {
        let mut acts = Vec::new();
        for k in 0..g.r.range(1, 3) {
            let u = g.uniq();
            let v = *g.r.pick(&vars);
            let how = if first && k == 0 { 0 } else { g.r.below(5) };
            let t = match how {
                0 | 1 => {
                    let b = *g.r.pick(&[2u64, 11, 97, 1_000_003, 9_876_543_210_123]);
                    let e = *g.r.pick(&[60u64, 250, 420, 700, 960]);
                    match g.r.below(3) {
                        0 => format!("{v} = {b}^{e} + {u}"),
                        1 => format!("{v} = {u} - {b}^{e}"),
                        _ => format!("{v} = {u}/{b}^{e}"),
                    }
                }
                2 => format!("/reloadvar {}", vars.join(" ")),
                _ => format!("{v} + {u}"),
            };
            acts.push(g.line(format!("{t}{}", " ".repeat(u as usize % 9))));
        }
        sess(&["-f"], acts)
    };
    let a = lines(g, true);
    let b = lines(g, false);
    p.epochs.push(vec![a]);
    p.epochs.push(vec![b]);
    p.observe = Observe {
        vars: vars.iter().map(|v| v.to_string()).collect(),
        history: true,
        ..Default::default()
    };
    if g.r.chance(1, 3) {
        g.crashes_after(p, 1, 50);
    }
}

/// Hundreds of saved lines, the variables last used by any of them.
fn deep_store(g: &mut G, p: &mut Plan) {
    let n = *g.r.pick(&[200usize, 270, 530, 620, 1030]);
    let lines = g.rename(n);
    let cap = n as i64 + *g.r.pick(&[0i64, 0, 1, 2, 400, 1 << 33]);
    let names = ["$a", "$b", "$old"];
    let mut vars = Vec::new();
    for v in &names {
        let k = *g.r.pick(&[0usize, 0, 1, 2, n / 2, n - 1]);
        let u = g.uniq();
        vars.push((v.to_string(), u.to_string(), "1".to_string(), k));
    }
    p.prep = Prep::Store { lines, vars, cap, first_id: *g.r.pick(&[1i64, 1, 5000, 1 << 33]), sql: vec![] };
    for _ in 0..g.r.range(1, 2) {
        let mut acts = Vec::new();
        for _ in 0..g.r.range(1, 3) {
            let u = g.uniq();
            let v = *g.r.pick(&names);
            let t = match g.r.below(5) {
                0 => format!("{v} + {u}"),
                1 => format!("/histcap {}{}", n as u64 - g.r.below(n as u64 / 2), " ".repeat(u as usize % 9)),
                _ => format!("{u}+1"),
            };
            acts.push(g.line(t));
        }
        p.epochs.push(vec![sess(&["-f"], acts)]);
    }
    p.observe = Observe {
        vars: names.iter().map(|v| v.to_string()).collect(),
        history: g.r.chance(1, 4),
        cap: true,
        ..Default::default()
    };
    if g.r.chance(1, 4) {
        g.crashes_after(p, 1, 50);
    }
}
