//! Reference evaluator for the subset of lines the generated workloads use, and the settings model.
use num::{BigInt, BigRational, One, Signed, Zero};
use num::traits::Pow;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Settings {
    pub radix: u8,
    pub out_radix: Option<u8>,
    pub fractional: bool,
    pub commas: bool,
    pub upper: bool,
    pub precision: u8,
    pub extra: u8,
}

impl Settings {
    pub fn from_args(args: &[String]) -> Settings {
        let mut s = Settings {
            radix: 10,
            out_radix: None,
            fractional: false,
            commas: false,
            upper: false,
            precision: 5,
            extra: 10,
        };
        let mut i = 0;
        while i < args.len() {
            let next = || args.get(i + 1).and_then(|v| v.parse::<u8>().ok());
            match args[i].as_str() {
                "-r" | "--radix" => {
                    s.radix = next().unwrap_or(10);
                    i += 1;
                }
                "--convert-to-radix" => {
                    s.out_radix = next();
                    i += 1;
                }
                "-p" | "--precision" => {
                    s.precision = next().unwrap_or(5);
                    i += 1;
                }
                "--extra-precision" => {
                    s.extra = next().unwrap_or(10);
                    i += 1;
                }
                "-f" | "--fractional" => s.fractional = true,
                "-c" | "--commas" => s.commas = true,
                "-u" | "--upper" => s.upper = true,
                _ => {}
            }
            i += 1;
        }
        s
    }
    pub fn to_args(&self) -> Vec<String> {
        let mut v = vec![
            "--radix".to_string(),
            self.radix.to_string(),
            "--precision".to_string(),
            self.precision.to_string(),
            "--extra-precision".to_string(),
            self.extra.to_string(),
        ];
        if let Some(o) = self.out_radix {
            v.push("--convert-to-radix".into());
            v.push(o.to_string());
        }
        if self.fractional {
            v.push("--fractional".into());
        }
        if self.commas {
            v.push("--commas".into());
        }
        if self.upper {
            v.push("--upper".into());
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Var(String),
    Num(BigRational),
    Op(u8),
    Word(String),
}

/// None: not a line the tokenizer accepts.
pub fn tokenize(line: &str, radix: u8) -> Option<Vec<Tok>> {
    let mut out = Vec::new();
    let mut buf = String::new();
    let flush = |buf: &mut String, out: &mut Vec<Tok>| -> Option<()> {
        if buf.is_empty() {
            return Some(());
        }
        let b = std::mem::take(buf);
        if b.starts_with('$') {
            out.push(Tok::Var(b));
        } else if ["sqrt", "abs", "max", "min"].contains(&b.as_str()) {
            out.push(Tok::Word(b));
        } else {
            out.push(Tok::Num(number(&b, radix)?));
        }
        Some(())
    };
    for c in line.chars() {
        if c.is_ascii_whitespace() {
            flush(&mut buf, &mut out)?;
        } else if "+-*/%^()=,".contains(c) {
            flush(&mut buf, &mut out)?;
            out.push(Tok::Op(c as u8));
        } else {
            buf.push(c);
        }
    }
    flush(&mut buf, &mut out)?;
    Some(out)
}

pub fn number(s: &str, radix: u8) -> Option<BigRational> {
    let mut digits = String::new();
    let mut point = None;
    for c in s.chars() {
        match c {
            '_' => {}
            '.' if point.is_none() => point = Some(digits.len()),
            c if c.is_digit(radix as u32) => digits.push(c),
            _ => return None,
        }
    }
    let n = BigInt::parse_bytes(digits.as_bytes(), radix as u32)?;
    let d = match point {
        Some(p) => Pow::pow(BigInt::from(radix), digits.len() - p),
        None => BigInt::one(),
    };
    Some(BigRational::new(n, d))
}

#[derive(Clone, Debug)]
pub enum Expr {
    Num(BigRational),
    Var(String),
    Neg(Box<Expr>),
    Bin(u8, Box<Expr>, Box<Expr>),
}

#[derive(Clone, Debug)]
pub enum Parsed {
    /// The tokenizer refuses it: nothing is mentioned.
    BadToken,
    /// Nothing to evaluate.
    Empty,
    /// Refused, mentioning these variables.
    BadSyntax(Vec<String>),
    Expr { assign: Option<String>, expr: Expr, mentions: Vec<String> },
    /// Outside the subset.
    Opaque(Vec<String>),
    Command(String, String),
}

pub fn parse(line: &str, radix: u8) -> Parsed {
    let t = line.trim_start();
    if let Some(rest) = t.strip_prefix('/') {
        let (c, a) = match rest.split_once(|c: char| c.is_ascii_whitespace()) {
            Some((c, a)) => (c, a),
            None => (rest, ""),
        };
        return Parsed::Command(c.to_string(), a.to_string());
    }
    let toks = match tokenize(line, radix) {
        None => return Parsed::BadToken,
        Some(t) => t,
    };
    if toks.is_empty() {
        return Parsed::Empty;
    }
    let mut mentions: Vec<String> = Vec::new();
    for t in &toks {
        if let Tok::Var(v) = t {
            if !mentions.contains(v) {
                mentions.push(v.clone());
            }
        }
    }
    if toks.iter().any(|t| matches!(t, Tok::Word(_)) || *t == Tok::Op(b',')) {
        return Parsed::Opaque(mentions);
    }
    let (assign, body) = match (&toks[0], toks.get(1)) {
        (Tok::Var(v), Some(Tok::Op(b'='))) => (Some(v.clone()), &toks[2..]),
        _ => (None, &toks[..]),
    };
    let mut p = P { t: body, i: 0 };
    match p.level(0) {
        Some(e) if p.i == body.len() => Parsed::Expr { assign, expr: e, mentions },
        _ => Parsed::BadSyntax(mentions),
    }
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
}
const LEVELS: [&[u8]; 4] = [b"+-", b"*/", b"%", b"^"];
impl P<'_> {
    fn level(&mut self, l: usize) -> Option<Expr> {
        if l == 4 {
            return self.unary();
        }
        let mut a = self.level(l + 1)?;
        while let Some(Tok::Op(o)) = self.t.get(self.i) {
            if !LEVELS[l].contains(o) {
                break;
            }
            let o = *o;
            self.i += 1;
            let b = self.level(l + 1)?;
            a = Expr::Bin(o, Box::new(a), Box::new(b));
        }
        Some(a)
    }
    fn unary(&mut self) -> Option<Expr> {
        let t = self.t.get(self.i)?.clone();
        self.i += 1;
        match t {
            Tok::Op(b'-') => Some(Expr::Neg(Box::new(self.unary()?))),
            Tok::Num(n) => Some(Expr::Num(n)),
            Tok::Var(v) => Some(Expr::Var(v)),
            Tok::Op(b'(') => {
                let e = self.level(0)?;
                if self.t.get(self.i) != Some(&Tok::Op(b')')) {
                    return None;
                }
                self.i += 1;
                Some(e)
            }
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Ok(BigRational),
    /// Division by zero and the like.
    Bad,
    /// This variable has to be fetched first.
    Need(String),
    Unknown,
}

pub fn eval(e: &Expr, vars: &dyn Fn(&str) -> Option<BigRational>) -> Value {
    match e {
        Expr::Num(n) => Value::Ok(n.clone()),
        Expr::Var(v) => match vars(v) {
            Some(x) => Value::Ok(x),
            None => Value::Need(v.clone()),
        },
        Expr::Neg(a) => match eval(a, vars) {
            Value::Ok(x) => Value::Ok(-x),
            o => o,
        },
        Expr::Bin(o, a, b) => {
            let a = match eval(a, vars) {
                Value::Ok(x) => x,
                o => return o,
            };
            let b = match eval(b, vars) {
                Value::Ok(x) => x,
                o => return o,
            };
            match o {
                b'+' => Value::Ok(a + b),
                b'-' => Value::Ok(a - b),
                b'*' => Value::Ok(a * b),
                b'/' if b.is_zero() => Value::Bad,
                b'/' => Value::Ok(a / b),
                b'%' if b.is_zero() => Value::Bad,
                b'%' => Value::Ok(a % b),
                b'^' if b.is_integer() && b.abs() <= BigRational::from(BigInt::from(4000)) => {
                    if b.is_negative() && a.is_zero() {
                        return Value::Bad;
                    }
                    let n: i32 = b.to_integer().try_into().unwrap();
                    Value::Ok(Pow::pow(a, n))
                }
                _ => Value::Unknown,
            }
        }
    }
}

/// Exactly what is shown for a value, where the model knows it.
pub fn shown(v: &BigRational, s: &Settings) -> Option<String> {
    if s.fractional {
        return Some(v.to_string());
    }
    if v.is_integer() && !s.commas && !s.upper {
        return Some(v.to_integer().to_str_radix(s.out_radix.unwrap_or(s.radix) as u32));
    }
    None
}

/// The arguments of an integer command; None: refused.
pub fn ints(args: &str) -> Option<Vec<i64>> {
    let toks = match args.trim_start().starts_with('/') {
        true => return None,
        false => tokenize(args, 10)?,
    };
    let mut out = Vec::new();
    let mut neg = false;
    for t in toks {
        match t {
            Tok::Num(n) if n.is_integer() => {
                let v: i64 = n.to_integer().try_into().ok()?;
                out.push(if neg { -v } else { v });
                neg = false;
            }
            Tok::Op(b'-') if !neg => neg = true,
            _ => return None,
        }
    }
    if neg {
        return None;
    }
    Some(out)
}

/// The arguments of a variable command; None: refused.
pub fn names(args: &str) -> Option<Vec<String>> {
    if args.trim_start().starts_with('/') {
        return None;
    }
    let mut out: Vec<String> = Vec::new();
    for t in tokenize(args, 10)? {
        match t {
            Tok::Var(v) => {
                if !out.contains(&v) {
                    out.push(v);
                }
            }
            _ => return None,
        }
    }
    Some(out)
}

/// Effect of a settings command: None if the name is no settings command;
/// Some(None): refused; Some(Some(None)): accepted; Some(Some(Some(text))): shows this.
pub fn setting(s: &mut Settings, cmd: &str, args: &str) -> Option<Option<Option<Vec<String>>>> {
    fn boolean(v: &mut bool, args: &str) -> Option<Option<Vec<String>>> {
        match args.trim().to_ascii_lowercase().as_str() {
            "" => Some(Some(vec![v.to_string()])),
            "t" | "true" => {
                *v = true;
                Some(None)
            }
            "f" | "false" => {
                *v = false;
                Some(None)
            }
            _ => None,
        }
    }
    Some(match cmd {
        "fractional" | "f" => boolean(&mut s.fractional, args),
        "upper" => boolean(&mut s.upper, args),
        "commas" | "comma" => boolean(&mut s.commas, args),
        "radix" | "r" => match ints(args).as_deref() {
            Some([]) => Some(Some(vec![s.radix.to_string()])),
            Some([n]) if (2..=16).contains(n) => {
                s.radix = *n as u8;
                Some(None)
            }
            _ => None,
        },
        "converttoradix" => {
            if args.trim().eq_ignore_ascii_case("none") {
                s.out_radix = None;
                return Some(Some(None));
            }
            match ints(args).as_deref() {
                Some([]) => Some(Some(vec![match s.out_radix {
                    Some(r) => r.to_string(),
                    None => "None".into(),
                }])),
                Some([n]) if (2..=16).contains(n) => {
                    s.out_radix = Some(*n as u8);
                    Some(None)
                }
                _ => None,
            }
        }
        "precision" | "p" => match ints(args).as_deref() {
            Some([]) => Some(Some(vec![s.precision.to_string(), s.extra.to_string()])),
            Some(v) if v.len() <= 2 && (0..=255).contains(&v[0]) => {
                let e = v.get(1).copied().unwrap_or(s.extra as i64);
                if !(0..=255).contains(&e) || v[0] + e > 255 {
                    return Some(None);
                }
                s.precision = v[0] as u8;
                s.extra = e as u8;
                Some(None)
            }
            _ => None,
        },
        _ => return None,
    })
}
