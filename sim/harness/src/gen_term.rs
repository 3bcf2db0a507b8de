//! Plans for the properties about the terminal, the line editor, hostile lines and settings.
use crate::eval::{self, Settings};
use crate::gen::{once_more, sess, settle_recalls, setting_line, G, WIDE};
use crate::plan::*;

fn digits(g: &mut G, max: u64) -> String {
    let n = g.r.range(1, max);
    (0..n).map(|k| char::from(b'0' + if k == 0 { 1 + g.r.below(9) } else { g.r.below(10) } as u8)).collect()
}

/// An expression without powers and roots, with parentheses now and then.
fn expr(g: &mut G, depth: u32) -> String {
    match g.r.below(if depth == 0 { 3 } else { 8 }) {
        0 | 1 => digits(g, 6),
        2 => format!("{}.{}", digits(g, 3), digits(g, 3)),
        3 | 4 => {
            let e = expr(g, depth - 1);
            format!("({e})")
        }
        5 => {
            let e = expr(g, depth - 1);
            format!("-{e}")
        }
        _ => {
            let a = expr(g, depth - 1);
            let b = expr(g, depth - 1);
            let o = *g.r.pick(&["+", "-", "*", "/", " + ", "*"]);
            format!("{a}{o}{b}")
        }
    }
}

fn edit_key(g: &mut G, chars: &str) -> Key {
    let cs: Vec<char> = chars.chars().collect();
    match g.r.below(32) {
        0..=9 => Key::Char(*g.r.pick(&cs), 0),
        10 => Key::Char(*g.r.pick(&cs), SHIFT),
        11 => Key::Char(*g.r.pick(&['m', 'n', 'm', 'n', 'x', 'a', 'D', 'C', '5', '(']), CTRL),
        12 => Key::Char(*g.r.pick(&['a', 'd', 'c', 'z', 'm', '1']), *g.r.pick(&[ALT, CTRL | ALT, CTRL | SHIFT, SHIFT | ALT])),
        13..=15 => Key::Backspace,
        16 | 17 => Key::Delete,
        18..=20 => Key::Left(*g.r.pick(&[0u8, 0, 0, SHIFT, CTRL, ALT, CTRL | SHIFT])),
        21..=23 => Key::Right(*g.r.pick(&[0u8, 0, 0, SHIFT, CTRL, ALT, CTRL | SHIFT])),
        24 => Key::Home,
        25 => Key::End,
        26 => Key::Other(g.r.below(12) as u8),
        27 => Key::Char('\u{e9}', 0),
        28 | 29 => Key::Char(*g.r.pick(&['m', 'n']), CTRL),
        _ => Key::Left(0),
    }
}

fn cols(g: &mut G, alt: bool) -> u16 {
    let lo = if alt { 3 } else { 5 };
    match g.r.below(4) {
        0 => g.r.range(lo, 8) as u16,
        1 => g.r.range(lo, 24) as u16,
        2 if g.r.chance(1, 12) => g.r.range(200, 700) as u16,
        _ => g.r.range(lo, 100) as u16,
    }
}

pub fn t02(g: &mut G, p: &mut Plan) {
    let alt = g.r.chance(1, 3);
    let store = g.r.chance(1, 4);
    // Lines in the alternate screen need room, down to one character per row.
    let long = g.r.chance(1, 12);
    let rows = if long { 1000 } else if alt { 500 } else { 60 };
    let mut acts = Vec::new();
    for _ in 0..g.r.range(1, 5) {
        let t = g.t();
        if g.r.chance(1, 8) {
            // Nothing to edit yet.
            for _ in 0..g.r.below(4) {
                let k = edit_key(g, "0");
                if !matches!(k, Key::Char(_, 0)) {
                    acts.push(Act::Key(t, k));
                }
            }
        }
        let nested = long && g.r.chance(1, 3);
        let seed = match g.r.below(6) {
            _ if nested => {
                let n = g.r.range(20, 340) as usize;
                format!("{}1{}", "(".repeat(n), ")".repeat(n - g.r.below(2) as usize))
            }
            0 => format!("$x = {}", expr(g, 2)),
            1 => format!("$x*{}", expr(g, 2)),
            2 => format!("(({})", expr(g, 3)),
            3 => String::new(),
            4 if long => {
                let n = g.r.range(100, 700);
                let mut s = expr(g, 2);
                while (s.len() as u64) < n {
                    let d = digits(g, 9);
                    s.push('+');
                    s.push_str(&d);
                }
                s
            }
            _ => expr(g, 4),
        };
        for c in seed.chars() {
            acts.push(Act::Key(0, Key::Char(c, 0)));
        }
        if nested {
            // There and back.
            for k in [Key::Home, Key::Char('m', CTRL), Key::Char('n', CTRL)].into_iter().take(g.r.range(1, 3) as usize) {
                acts.push(Act::Key(1, k));
            }
            for c in "1+".chars() {
                acts.push(Act::Key(1, Key::Char(c, 0)));
            }
        }
        let many = *g.r.pick(&[0u64, 4, 12, 40]);
        for _ in 0..g.r.below(many + 1) {
            if g.r.chance(1, 14) {
                let c = cols(g, alt);
                acts.push(Act::Resize(1, c, rows));
            } else if !store && g.r.chance(1, 14) {
                acts.push(Act::Key(1, if g.r.chance(1, 2) { Key::Up } else { Key::Down }));
            } else {
                let k = edit_key(g, "0123456789+-*/(). $x()=_y,");
                acts.push(Act::Key(1, k));
            }
        }
        acts.push(Act::Key(1, Key::Enter));
    }
    let mut s = sess(if store { &[] } else { &["--no-db"] }, acts);
    s.cols = cols(g, alt);
    s.rows = rows;
    s.row0 = g.r.below(60) as u16;
    if alt {
        s.args.push("-a".into());
    }
    if g.r.chance(1, 4) {
        s.args.push("-f".into());
    }
    p.epochs.push(vec![s]);
    p.observe = Observe { history: store, ..Default::default() };
}

/// Lines whose display may be anything wide; cheap to evaluate.
fn show_line(g: &mut G) -> String {
    match g.r.below(8) {
        0 => "/help".into(),
        1 => "/help precision".into(),
        2 => format!("{}*{}", g.r.range(2, 99), g.r.range(2, 60)),
        3 => {
            let n = if g.r.chance(1, 6) { g.r.range(120, 900) } else { g.r.range(5, 120) };
            let mut s = digits(g, 4);
            while (s.len() as u64) < n {
                let d = digits(g, 9);
                s.push('+');
                s.push_str(&d);
            }
            s
        }
        4 => String::new(),
        5 => format!("{}@", digits(g, 20)),
        _ => expr(g, 4),
    }
}

pub fn t03(g: &mut G, p: &mut Plan) {
    let alt = g.r.chance(1, 2);
    let mut rows = if g.r.chance(1, 20) { g.r.range(30, 300) } else { g.r.range(4, 30) } as u16;
    let mut width = cols(g, alt);
    let (first, first_rows) = (width, rows);
    let mut acts = Vec::new();
    let mut len = 0u64;
    // In the alternate screen the line has to fit on it.
    let room = |w: u16, rows: u16| -> u64 {
        if alt { (w as u64 - 2) * (rows as u64 - 2) } else { 1000 }
    };
    let mut all = room(width, rows);
    for _ in 0..g.r.range(1, 9) {
        match g.r.below(3) {
            0 => {
                let mut t = show_line(g);
                let max = all.saturating_sub(len).min(900) as usize;
                t.truncate(max);
                // Truncated commands and powers are still cheap.
                acts.push(Act::Line(1, t));
                len = 0;
                all = room(width, rows);
            }
            1 => {
                let n = g.r.below(40);
                for _ in 0..n {
                    if len + 1 >= all {
                        break;
                    }
                    let k = edit_key(g, "0123456789+-*() ");
                    if matches!(k, Key::Char(..)) {
                        len += 1;
                    }
                    acts.push(Act::Key(1, k));
                    if g.r.chance(1, 8) {
                        acts.push(Act::Key(1, if g.r.chance(1, 2) { Key::Up } else { Key::Down }));
                        // The recalled line may be the longest.
                        if alt {
                            acts.pop();
                        }
                    }
                }
            }
            _ => {
                let c = if g.r.chance(1, 4) { width } else { cols(g, alt) };
                let h = if g.r.chance(1, 2) { g.r.range(3, 30) as u16 } else { rows };
                if room(c, h) > len + 1 {
                    acts.push(Act::Resize(1, c, h));
                    (width, rows) = (c, h);
                    all = room(c, h);
                }
            }
        }
    }
    let mut s = sess(&["--no-db"], acts);
    s.cols = first;
    s.rows = first_rows;
    s.row0 = g.r.below(first_rows as u64) as u16;
    if alt {
        s.args.push("--alternate-screen".into());
    }
    p.epochs.push(vec![s]);
}

pub fn t04(g: &mut G, p: &mut Plan) {
    let store = g.r.chance(2, 3);
    let cap = *g.r.pick(&[2i64, 4, 6, 100, 100]);
    if store && g.r.chance(1, 2) {
        let n = g.r.below(cap.min(5) as u64 + 1);
        let mut lines = Vec::new();
        for _ in 0..n {
            lines.push(g.plain());
        }
        p.prep = Prep::Store { lines, vars: vec![], cap, first_id: 1, sql: vec![] };
    }
    if !store && g.r.chance(1, 2) {
        g.repeat = 2;
    }
    for _ in 0..g.r.range(1, 2) {
        let mut acts = Vec::new();
        let mut entered = 0;
        for _ in 0..g.r.range(2, 6) {
            match g.r.below(3) {
                0 => {
                    entered += 1;
                    let t = g.plain();
                    let t = g.again(t);
                    acts.push(g.line(t));
                }
                1 if store && entered > 1 && g.r.chance(1, 3) => {
                    entered += 1;
                    acts.extend(once_more());
                }
                _ => {
                    entered += 1;
                    // Wander through the history, editing here and there, then submit.
                    for _ in 0..g.r.range(1, 5) {
                        let n = g.r.range(1, 4);
                        let up = g.r.chance(2, 3);
                        for _ in 0..n {
                            acts.push(Act::Key(1, if up { Key::Up } else { Key::Down }));
                        }
                        for _ in 0..g.r.below(4) {
                            let k = match g.r.below(6) {
                                0 => Key::Backspace,
                                1 => Key::Home,
                                2 => Key::Left(0),
                                3 => Key::Delete,
                                _ => Key::Char(*g.r.pick(&['q', 'w', 'k']), 0),
                            };
                            acts.push(Act::Key(1, k));
                        }
                        if g.r.chance(2, 3) {
                            acts.push(Act::Key(1, Key::End));
                        }
                    }
                    let u = g.uniq();
                    for c in format!("k{u}").chars() {
                        acts.push(Act::Key(1, Key::Char(c, 0)));
                    }
                    acts.push(Act::Key(1, Key::Enter));
                }
            }
        }
        if g.r.chance(2, 3) {
            acts.push(Act::UpAll(1, 0));
            if g.r.chance(1, 2) {
                acts.push(Act::DownAll(1));
            }
        }
        let mut s = sess(if store { &[] } else { &["--no-db"] }, settle_recalls(acts));
        if g.r.chance(1, 8) {
            s.args.push("-a".into());
        }
        p.epochs.push(vec![s]);
    }
    p.observe = Observe { history: store, ..Default::default() };
}

fn hostile_number(g: &mut G) -> String {
    match g.r.below(12) {
        0 => "0".into(),
        1 => "0.0".into(),
        2 => format!("0.{}", digits(g, 12)),
        3 => format!("0.000{}", digits(g, 3)),
        4 => digits(g, 60),
        5 => format!(".{}", digits(g, 3)),
        6 => format!("{}.", digits(g, 3)),
        7 => "1".into(),
        8 => "255".into(),
        9 => format!("{}_{}", digits(g, 3), digits(g, 2)),
        10 => (*g.r.pick(&["ff", "a.b", "1e5", "0x1", "..", "_", ".", "_._", "1.2.3", "-", "zz"])).into(),
        _ => digits(g, 4),
    }
}

fn soup(g: &mut G) -> String {
    let mut s = String::new();
    let mut powered = false;
    for _ in 0..g.r.range(0, 14) {
        match g.r.below(16) {
            0..=4 => {
                let n = hostile_number(g);
                s.push_str(&n);
            }
            5 => s.push_str(*g.r.pick(&["$x", "$y", "$", "$unset"])),
            6 => s.push('('),
            7 => s.push(')'),
            8 => s.push_str(*g.r.pick(&["sqrt ", "abs ", "max(", "min(", "max", "sqrt(", "abs"])),
            9 => s.push(','),
            10 => s.push('='),
            11 => s.push(' '),
            12 if !powered => {
                powered = true;
                let e = *g.r.pick(&["0", "1", "-1", "2", "-2", "7", "-7", "0.5", "-0.5", "1.5", "(1/3)", "(-1/3)", "(2/3)", "(1/4)", "31", "-31"]);
                s.push('^');
                s.push_str(e);
                // No digit after it: the exponent stays small.
                s.push(' ');
            }
            13 => s.push_str(*g.r.pick(&["#", "\\", "\"", "'", ";", "{", "~", "@", "!", "&"])),
            _ => s.push_str(*g.r.pick(&["+", "-", "*", "/", "%", "-", "--"])),
        }
    }
    s
}

fn op_pair(g: &mut G) -> String {
    let a = hostile_number(g);
    let b = hostile_number(g);
    match g.r.below(12) {
        0 => format!("{a} / {b}"),
        1 => format!("{a} % {b}"),
        2 => format!("sqrt {a}"),
        3 => format!("sqrt -{a}"),
        4 => {
            let e = *g.r.pick(&["0", "-1", "-2", "0.5", "-0.5", "1.5", "(1/3)", "(-1/3)", "(1/4)", "(1/5)", "0.1"]);
            format!("{a} ^ {e}")
        }
        5 => format!("({a} - {a}) ^ {}", *g.r.pick(&["-1", "0", "-0.5", "0.5", "1"])),
        6 => format!("-{a} ^ {}", *g.r.pick(&["0.5", "(1/3)", "3", "-1"])),
        7 => format!("max({a},{b})"),
        8 => format!("min({a} {b})"),
        9 => format!("$x = {a}"),
        10 => format!("{a} - -{b}"),
        _ => format!("abs({a} - {b})"),
    }
}

fn hostile_command(g: &mut G) -> String {
    let name = *g.r.pick(&[
        "help", "h", "reloadvar", "purgevar", "histcap", "fractional", "f", "radix", "r", "converttoradix", "upper",
        "commas", "comma", "precision", "p", "", "Help", "/", "nosuch", "radix,", "precision5",
    ]);
    let arg = match g.r.below(16) {
        0 => String::new(),
        1 => " ".into(),
        2 => format!(" {}", g.r.below(300)),
        3 => format!(" -{}", g.r.below(300)),
        4 => format!(" {} {}", g.r.below(300), g.r.below(300)),
        5 => " 245".into(),
        6 => " 255".into(),
        7 => " 200 200".into(),
        8 => " true".into(),
        9 => " none".into(),
        10 => " $x $y".into(),
        11 => " /help".into(),
        12 => format!(" {}", *g.r.pick(&["1.5", "9223372036854775808", "-9223372036854775808", "--1", "1,2", "=", "()", "0"])),
        13 => " help".into(),
        14 => format!("  {}", g.r.range(2, 16)),
        _ => {
            let s = soup(g);
            format!(" {s}")
        }
    };
    format!("/{name}{arg}")
}

pub fn t05(g: &mut G, p: &mut Plan) {
    let mut e = Vec::new();
    let store = g.r.chance(1, 3);
    let mut acts = Vec::new();
    let mut w: u16 = if g.r.chance(1, 3) { g.r.range(1, 12) as u16 } else { g.r.range(5, 120) as u16 };
    let first = w;
    // Lines that mix with other text could become powers too large to compute: either powers or
    // editing.
    let powers = g.r.chance(1, 2);
    let tame = |t: String| if powers { t } else { t.replace('^', "+") };
    for _ in 0..g.r.range(1, 9) {
        match g.r.below(10) {
            0..=2 => {
                let t = soup(g);
                acts.push(Act::Line(1, tame(t)));
            }
            3..=5 => {
                let t = op_pair(g);
                acts.push(Act::Line(1, tame(t)));
            }
            6 => {
                let t = hostile_command(g);
                acts.push(Act::Line(1, tame(t)));
            }
            8 if powers => {
                for _ in 0..g.r.below(6) {
                    let k = g.r.pick(&[Key::Left(0), Key::Right(0), Key::Home, Key::End, Key::Delete, Key::Backspace]).clone();
                    acts.push(Act::Key(1, k));
                }
            }
            7 => {
                let c = *g.r.pick(&["(", ")", "-", "+", "*", ",", "$x ", "1 ", "sqrt ", "max(", "=", "_", ".", "0"]);
                let n = *g.r.pick(&[2usize, 40, 300]);
                if g.r.chance(1, 4) && (c == "(" || c == ")") {
                    // A long way to the end.
                    for c in c.repeat(n).chars() {
                        acts.push(Act::Key(0, Key::Char(c, 0)));
                    }
                    for k in [Key::Home, Key::Char('m', CTRL), Key::End, Key::Char('n', CTRL), Key::Enter] {
                        acts.push(Act::Key(1, k));
                    }
                } else {
                    acts.push(Act::Line(1, c.repeat(n)));
                }
            }
            8 => {
                for _ in 0..g.r.below(30) {
                    let k = match g.r.below(12) {
                        0 => Key::Up,
                        1 => Key::Down,
                        2 => Key::Char(char::from(32 + g.r.below(95) as u8), *g.r.pick(&[0u8, SHIFT, ALT])),
                        3 => Key::Char(*g.r.pick(&['\u{1f600}', '\u{2212}']), 0),
                        _ => edit_key(g, "0123456789()+-%$x"),
                    };
                    // The line could become anything: nothing slow in it.
                    if !matches!(k, Key::Char('^', _) | Key::Char('e', _)) {
                        acts.push(Act::Key(1, k));
                    }
                }
            }
            _ => {
                w = if g.r.chance(1, 12) { g.r.range(1, 5) as u16 } else { g.r.range(3, 120) as u16 };
                let h = g.r.range(2, 60) as u16;
                acts.push(Act::Resize(1, w, h));
            }
        }
    }
    let mut s = sess(if store { &[] } else { &["--no-db"] }, acts);
    s.cols = first;
    s.rows = g.r.range(2, 40) as u16;
    s.row0 = g.r.below(s.rows as u64) as u16;
    if g.r.chance(1, 3) {
        s.args.push("-a".into());
    }
    if g.r.chance(1, 2) {
        s.args.push("-r".into());
        s.args.push(g.r.range(2, 16).to_string());
    }
    if g.r.chance(1, 3) {
        s.args.push("-p".into());
        s.args.push(g.r.pick(&[0u64, 1, 5, 40, 250, 255]).to_string());
    }
    if g.r.chance(1, 4) {
        s.args.push("--extra-precision".into());
        s.args.push(g.r.pick(&[0u64, 1, 10, 40, 255]).to_string());
    }
    if g.r.chance(1, 4) {
        s.args.push("--convert-to-radix".into());
        s.args.push(g.r.range(1, 16).to_string());
    }
    for a in ["-f", "-c", "-u"] {
        if g.r.chance(1, 4) {
            s.args.push(a.into());
        }
    }
    if g.r.chance(1, 8) {
        let t = if g.r.chance(1, 2) { soup(g) } else { op_pair(g) };
        if !t.starts_with('-') {
            s.acts.clear();
            s.args.push("--input".into());
            s.args.push(t);
        }
    }
    e.push(s);
    p.epochs.push(e);
    p.observe = Observe { history: store && g.r.chance(1, 2), cont: store, ..Default::default() };
    // What was typed may repeat; the look only has to work.
    if p.observe.history && g.r.chance(1, 2) {
        crate::gen::failures(g, p, 1);
    }
}

/// An expression of digits valid in the radix in effect (mostly).
fn radix_expr(g: &mut G, s: &Settings) -> String {
    let lit = |g: &mut G| -> String {
        let n = if g.r.chance(1, 20) { g.r.range(20, 120) } else { g.r.range(1, 7) };
        (0..n)
            .map(|k| {
                let lo = if k == 0 { 1 } else { 0 };
                std::char::from_digit((lo + g.r.below(s.radix as u64 - lo)) as u32, s.radix as u32).unwrap()
            })
            .collect()
    };
    let (a, b) = (lit(g), lit(g));
    match g.r.below(8) {
        0 => format!("{a}/{b}"),
        1 => format!("{a}.{b}"),
        2 => format!("{a}*{b}"),
        3 => format!("sqrt {a}"),
        4 => format!("{a} 2"),
        5 => format!("{a}.{b}/{b}"),
        6 => format!("{a}{b} - {b}"),
        _ => format!("{a}*{b}*{a}"),
    }
}

fn setting_cmd(g: &mut G) -> String {
    let num = match g.r.below(10) {
        0 => "0".to_string(),
        1 => "1".into(),
        2 => "17".into(),
        3 => "-3".into(),
        4 => "256".into(),
        5 => "2.5".into(),
        6 => "x".into(),
        _ => g.r.range(2, 16).to_string(),
    };
    let b = *g.r.pick(&["", "t", "true", "f", "false", "TRUE", "maybe", "1"]);
    match g.r.below(9) {
        0 => format!("/radix {num}"),
        1 => "/r".into(),
        2 => format!("/converttoradix {}", *g.r.pick(&[num.as_str(), "none", "None", ""])),
        3 => format!("/fractional {b}"),
        4 => format!("/f {b}"),
        5 => format!("/{} {b}", *g.r.pick(&["commas", "comma"])),
        6 => format!("/upper {b}"),
        7 => {
            let e = *g.r.pick(&["", "0", "3", "20", "255", "-1", "x", "7 7"]);
            format!("/{} {} {e}", *g.r.pick(&["precision", "p"]), *g.r.pick(&["0", "2", "9", "30", "255", "256", "-1", "1.5"]))
        }
        _ => (*g.r.pick(&["/precision", "/p ", "/radix 10 10", "/upper t f", "/radix", "/converttoradix"])).into(),
    }
}

/// A line with a mistake in it.
fn refused_line(g: &mut G) -> String {
    (*g.r.pick(&[
        "1^", "^1", "10^(1/0)", "1/0^1", "0^-1", "(1", "1)", "1++", "1//1", "*", "1 1", "101%0", "-", "1/(1-1)", "10^^1",
        "10*(10^-1", "$nobody", "$nobody^10", "1^$nobody", "$a = 1/0", "$a = 10^", "1.1.1", "1#1", "/nothing", "/", "/precision x", "1 = 1",
    ]))
    .to_string()
}

pub fn c01(g: &mut G, p: &mut Plan) {
    let multi = g.r.chance(1, 3);
    for _ in 0..(if multi { 1 } else { g.r.range(1, 2) }) {
        let mut e = Vec::new();
        for _ in 0..(if multi { g.r.range(2, 3) } else { 1 }) {
            let mut args: Vec<String> = Vec::new();
            if g.r.chance(1, 3) {
                args.push("--radix".into());
                args.push(g.r.range(2, 16).to_string());
            }
            if g.r.chance(1, 4) {
                args.push("--precision".into());
                args.push(g.r.below(40).to_string());
            }
            if g.r.chance(1, 5) {
                args.push("--extra-precision".into());
                args.push(g.r.below(40).to_string());
            }
            if g.r.chance(1, 5) {
                args.push("--convert-to-radix".into());
                args.push(g.r.range(2, 16).to_string());
            }
            for a in ["--fractional", "--commas", "--upper"] {
                if g.r.chance(1, 5) {
                    args.push(a.into());
                }
            }
            let mut set = Settings::from_args(&args);
            let mut acts = Vec::new();
            for _ in 0..g.r.range(2, 8) {
                let t = match g.r.below(7) {
                    0..=3 => setting_cmd(g),
                    4 if g.r.chance(1, 2) => refused_line(g),
                    4 => setting_line(g),
                    _ => radix_expr(g, &set),
                };
                // What is probably in effect from here on.
                if let eval::Parsed::Command(c, a) = eval::parse(&t, set.radix) {
                    let _ = eval::setting(&mut set, &c, &a);
                }
                let t = pad(g, &t);
                acts.push(g.line(t));
            }
            let mut s = sess(if multi || g.r.chance(2, 3) { &[] } else { &["--no-db"] }, acts);
            s.args.extend(args);
            s.cols = WIDE;
            e.push(s);
        }
        for (k, s) in e.iter_mut().enumerate() {
            s.start_us = if k == 0 { 0 } else { g.r.below(5000) };
        }
        p.epochs.push(e);
    }
    if g.r.chance(1, 3) {
        crate::gen::failures(g, p, 2);
    }
}

fn pad(g: &mut G, s: &str) -> String {
    let u = g.uniq();
    format!("{s}{}", " ".repeat((u - 100) as usize))
}

/// Single expressions, next to sessions, on stores and terminals in any condition.
pub fn i01(g: &mut G, p: &mut Plan) {
    match g.r.below(6) {
        0 | 1 => p.prep = g.store(&["$x", "$y"]),
        2 => {
            p.prep = Prep::Newer {
                min_version: g.r.range(2, 1000) as i64,
                extra_tables: g.r.chance(1, 2),
                lines: vec!["1+1".into()],
                sql: vec![],
            }
        }
        _ => {}
    }
    let newer = matches!(p.prep, Prep::Newer { .. });
    let mut e = Vec::new();
    for _ in 0..g.r.range(2, 5) {
        let mut s = sess(&[], vec![]);
        if g.r.chance(1, 3) {
            s.args.push(g.r.pick(&["-r", "--radix"]).to_string());
            s.args.push(g.r.range(2, 16).to_string());
        }
        if g.r.chance(1, 3) {
            s.args.push(g.r.pick(&["-p", "--precision"]).to_string());
            s.args.push(g.r.below(60).to_string());
        }
        if g.r.chance(1, 5) {
            s.args.push("--extra-precision".into());
            s.args.push(g.r.below(30).to_string());
        }
        if g.r.chance(1, 4) {
            s.args.push("--convert-to-radix".into());
            s.args.push(g.r.range(2, 16).to_string());
        }
        for a in ["-f", "-c", "-u", "--no-db", "-a"] {
            if g.r.chance(1, 5) {
                s.args.push(a.into());
            }
        }
        let set = Settings::from_args(&s.args);
        let t = match g.r.below(16) {
            0 => setting_cmd(g),
            1 => hostile_command(g),
            2 => soup(g),
            3 => op_pair(g),
            4 => format!("$x = {}", radix_expr(g, &set)),
            5 => (*g.r.pick(&["$x", "$x + 1", "$x = $y", "/reloadvar $x", "/purgevar $x", "/histcap", "/histcap 3", "$x =", "$x = 1/0"])).into(),
            6 => (*g.r.pick(&["", " ", "/", "/help", "/help radix", "/h", "()", "1_0", "+", "=", "\u{e9}", "2\u{d7}3"])).into(),
            7 | 8 => g.plain(),
            _ => radix_expr(g, &set),
        };
        let t = if t.chars().any(|c| c.is_control()) { "1".into() } else { t };
        if g.r.chance(1, 3) && !t.starts_with('-') {
            s.args.push(g.r.pick(&["-i", "--input"]).to_string());
            s.args.push(t);
        } else {
            s.args.push(format!("--input={t}"));
        }
        match g.r.below(6) {
            0 => s.env = None,
            1 => s.env = Some("missing/further".into()),
            _ => {}
        }
        s.cols = WIDE;
        e.push(s);
        if !newer && g.r.chance(1, 4) {
            let acts = (0..g.r.range(1, 3))
                .map(|_| {
                    let t = g.plain();
                    g.line(t)
                })
                .collect();
            e.push(sess(&[], acts));
        }
    }
    g.starts(&mut e);
    for (sid, s) in e.iter().enumerate() {
        if s.input().is_none() {
            continue;
        }
        // Whatever is not to be used does not work either.
        for class in [Class::RawOn, Class::RawOff, Class::WinSize, Class::CursorPos, Class::Event, Class::Store] {
            if g.r.chance(1, 6) {
                p.faults.push(Fault { sid, act: -1, class, nth: 0, count: 100_000, kind: FaultKind::Err });
            }
        }
        if g.r.chance(1, 4) {
            let nth = g.r.below(3) as u32;
            p.faults.push(Fault { sid, act: -1, class: Class::TtyWrite, nth, count: 1, kind: FaultKind::Short });
        }
    }
    p.epochs.push(e);
}

/// Lines of all kinds around assignments and settings, in overlapping sessions; every session
/// has variables of its own.
pub fn r01(g: &mut G, p: &mut Plan) {
    let mut sid = 0;
    let multi = g.r.chance(1, 3);
    let mut faults = false;
    for _ in 0..(if multi { 1 } else { g.r.range(1, 2) }) {
        let mut e = Vec::new();
        for _ in 0..(if multi { g.r.range(2, 3) } else { 1 }) {
            let names = [format!("$a{sid}"), format!("$b{sid}"), format!("$a_{sid}")];
            sid += 1;
            let mut args: Vec<String> = Vec::new();
            if g.r.chance(1, 3) {
                args.push("--radix".into());
                args.push(g.r.range(2, 16).to_string());
            }
            if g.r.chance(1, 3) {
                args.push("--precision".into());
                args.push(g.r.below(40).to_string());
            }
            if g.r.chance(1, 4) {
                args.push("--convert-to-radix".into());
                args.push(g.r.range(2, 16).to_string());
            }
            for a in ["--fractional", "--commas", "--upper"] {
                if g.r.chance(1, 5) {
                    args.push(a.into());
                }
            }
            let mut set = Settings::from_args(&args);
            let mut acts: Vec<Act> = Vec::new();
            // Squares of squares grow: a few assignments from variables only.
            let mut grown = 0;
            // A text that comes back again and again, with settings changed in between.
            let pet = match g.r.below(6) {
                0 => Some(radix_expr(g, &set)),
                1 => {
                    let x = radix_expr(g, &set);
                    Some(format!("sqrt ({x})"))
                }
                _ => None,
            };
            for _ in 0..g.r.range(3, 11) {
                let v = g.r.pick(&names).clone();
                let u = g.r.pick(&names).clone();
                let x = radix_expr(g, &set);
                let y = radix_expr(g, &set);
                let t = match g.r.below(20) {
                    0..=9 if pet.is_some() && g.r.chance(1, 2) => {
                        if g.r.chance(1, 6) {
                            format!("/precision {}", g.r.below(40))
                        } else if g.r.chance(1, 4) {
                            setting_cmd(g)
                        } else {
                            pet.clone().unwrap()
                        }
                    }
                    0..=3 => format!("{v} = {x}"),
                    4 if grown < 4 => {
                        grown += 1;
                        let f = *g.r.pick(&["+", "-", "*", "/"]);
                        format!("{v} = {u} {f} {v}")
                    }
                    5 => format!("{v}"),
                    6 => {
                        let f = *g.r.pick(&["+", "-", "*", "/", "%"]);
                        format!("{v} {f} {u}")
                    }
                    7 => format!("sqrt abs {v}"),
                    8 => {
                        let f = *g.r.pick(&["max", "min"]);
                        format!("{f}({v}, {u}, {y})")
                    }
                    9 => format!("({v} - {u}) * -{v}"),
                    10 => format!("{v} + "),
                    11 => format!("{v} = "),
                    12 => format!("{v} = {u} / 0"),
                    13 => format!("/purgevar {v}"),
                    14 => format!("({y}"),
                    15 => setting_cmd(g),
                    16 => format!("{v} = abs({u} - 1)"),
                    17 => format!("{v} ^ 2"),
                    18 if g.r.chance(1, 3) => {
                        (*g.r.pick(&["/help", "/h", "/help histcap", "/h radix", "/help commas", "/h h", "/help none"])).into()
                    }
                    _ => x,
                };
                if let eval::Parsed::Command(c, a) = eval::parse(&t, set.radix) {
                    let _ = eval::setting(&mut set, &c, &a);
                }
                // Now and then the very same text again.
                let t = if g.r.chance(1, 6) && !g.hist.is_empty() {
                    let k = g.r.idx(g.hist.len());
                    let old = g.hist[k].clone();
                    if names.iter().any(|n| old.contains(n.as_str())) || !old.contains('$') { old } else { t }
                } else {
                    t
                };
                acts.push(g.line(t));
                match g.r.below(12) {
                    0 => acts.push(Act::Resize(1, WIDE - g.r.below(100) as u16, g.r.range(3, 40) as u16)),
                    1 => {
                        // A recalled line, submitted once more.
                        for _ in 0..g.r.range(1, 3) {
                            acts.push(Act::Key(1, Key::Up));
                        }
                        acts.push(Act::Key(1, Key::Enter));
                    }
                    2 => {
                        acts.push(Act::Key(1, Key::Up));
                        acts.push(Act::Key(1, Key::Char('8', 0)));
                        acts.push(Act::Key(1, Key::Down));
                    }
                    _ => {}
                }
            }
            let mut s = sess(if g.r.chance(3, 4) { &[] } else { &["--no-db"] }, acts);
            s.args.extend(args);
            s.cols = WIDE;
            if g.r.chance(1, 8) {
                s.args.push("-a".into());
            }
            e.push(s);
        }
        for (k, s) in e.iter_mut().enumerate() {
            s.start_us = if k == 0 { 0 } else { g.r.below(5000) };
        }
        faults |= g.r.chance(1, 3);
        p.epochs.push(e);
    }
    if faults {
        let n = g.r.range(1, 2);
        crate::gen::failures(g, p, n);
    } else if g.r.chance(1, 6) {
        g.crashes(p, 1, 100);
        p.faults.retain(|f| f.kind == FaultKind::Kill);
    }
}
