//! A plan is one run, spelled out: what every session is started with and does, what the
//! simulated world costs, and which faults happen where. A replay file is a plan.
use crate::disk::PowerMode;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub property: String,
    pub seed: u64,
    /// Drives operation costs (hence interleavings) and hash seeds.
    pub sched: u64,
    pub profile: Profile,
    #[serde(default)]
    pub prep: Prep,
    pub epochs: Vec<Vec<SessPlan>>,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub observe: Observe,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Profile {
    /// Mean cost of one storage operation, microseconds.
    pub op_us: u64,
    /// One operation in `tail_in` costs up to `tail_us` instead (0: never).
    pub tail_in: u64,
    pub tail_us: u64,
    /// Sessions' speed differs by up to this factor.
    pub skew: u64,
    pub sector: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub enum Prep {
    #[default]
    None,
    /// A store in the present format with this content (lines oldest first; variables as
    /// name, numerator, denominator, index of the line that used it last).
    Store {
        lines: Vec<String>,
        vars: Vec<(String, String, String, usize)>,
        cap: i64,
        /// Row ids start here (stores that have lived for a while).
        first_id: i64,
        /// Further statements: other shapes of the store.
        #[serde(default)]
        sql: Vec<String>,
    },
    /// A store of a newer program.
    Newer {
        min_version: i64,
        extra_tables: bool,
        lines: Vec<String>,
        #[serde(default)]
        sql: Vec<String>,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SessPlan {
    pub start_us: u64,
    pub args: Vec<String>,
    /// Value of the data directory variable; None: not set.
    pub env: Option<String>,
    pub cols: u16,
    pub rows: u16,
    /// Row the cursor is on when the program starts.
    #[serde(default)]
    pub row0: u16,
    /// Not 0: lines are typed the way people type, with slips and keys that change nothing.
    #[serde(default, skip_serializing_if = "zero")]
    pub noise: u64,
    pub acts: Vec<Act>,
}

impl SessPlan {
    pub fn has_store(&self) -> bool {
        self.env.is_some() && !self.args.iter().any(|a| a == "--no-db") && self.input().is_none()
    }
    pub fn input(&self) -> Option<&str> {
        if let Some(t) = self.args.iter().find_map(|a| a.strip_prefix("--input=")) {
            return Some(t);
        }
        let i = self.args.iter().position(|a| a == "-i" || a == "--input")?;
        self.args.get(i + 1).map(|s| s.as_str())
    }
    pub fn alt(&self) -> bool {
        self.args.iter().any(|a| a == "-a" || a == "--alternate-screen")
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// Wait, type the text, press Enter.
    Line(u64, String),
    /// Wait, then one key.
    Key(u64, Key),
    /// Wait, then the window has this size.
    Resize(u64, u16, u16),
    /// Press Up until nothing changes (or n times).
    UpAll(u64, u32),
    /// As UpAll to the end, but every line is first marked with a typed character, which tells
    /// equal neighbours (and empty lines) apart; then back down, and the mark is taken off.
    Climb(u64),
    /// Press Down until back at the composed line.
    DownAll(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Key {
    Char(char, u8),
    Backspace,
    Delete,
    Left(u8),
    Right(u8),
    Up,
    Down,
    Home,
    End,
    Enter,
    /// Other events a terminal delivers.
    Other(u8),
    /// Text pasted with bracketed paste (the program does not take it).
    Paste,
}
pub const SHIFT: u8 = 1;
pub const CTRL: u8 = 2;
pub const ALT: u8 = 4;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Class {
    Any,
    /// Any storage operation (files, locks, directories).
    Store,
    Open,
    Access,
    Read,
    Write,
    Sync,
    Trunc,
    Delete,
    Lock,
    Unlock,
    Size,
    Shm,
    Mkdir,
    Sleep,
    TtyWrite,
    Event,
    CursorPos,
    WinSize,
    RawOn,
    RawOff,
}
impl Class {
    pub fn is_store(self) -> bool {
        use Class::*;
        matches!(
            self,
            Open | Access | Read | Write | Sync | Trunc | Delete | Lock | Unlock | Size | Shm | Mkdir
        )
    }
    pub fn matches(self, op: Class) -> bool {
        self == Class::Any || self == op || (self == Class::Store && op.is_store())
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    /// The operation fails and has no effect.
    Err,
    /// The operation takes effect but reports failure.
    ErrAfter,
    /// Part of the data is written, then failure.
    Short,
    /// No space left.
    Full,
    /// mkdir fails with this errno.
    Errno(i32),
    /// The process is killed just before the operation.
    Kill,
    /// Power is lost just before the operation.
    Power(PowerMode),
    /// Keep the disk as a kill / power loss here would leave it; fresh sessions look at it later.
    ProbeKill,
    ProbePower(PowerMode),
    /// The session is not scheduled for this long.
    Stall(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub sid: usize,
    /// Index of the act during which it happens; -1: start-up.
    pub act: i32,
    pub class: Class,
    pub nth: u32,
    #[serde(default = "one")]
    pub count: u32,
    pub kind: FaultKind,
}
fn zero(n: &u64) -> bool {
    *n == 0
}
fn one() -> u32 {
    1
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Observe {
    /// Variables that fresh sessions read back at the end and at probes.
    pub vars: Vec<String>,
    pub history: bool,
    pub cap: bool,
    /// Fresh sessions also type further lines.
    #[serde(default)]
    pub cont: bool,
}
