//! The simulated disk: files with a volatile view (what running programs see) and a
//! durable one (what a power loss is sure to leave), POSIX-like locks, and a mutation
//! history between the two that a power loss may keep any part of.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Pend {
    Write(usize, Vec<u8>),
    Trunc(usize),
}

#[derive(Clone, Debug)]
pub enum DirOp {
    Link(String, u64),
    Unlink(String),
}
impl DirOp {
    fn name(&self) -> &str {
        match self {
            DirOp::Link(n, _) | DirOp::Unlink(n) => n,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Locks {
    pub shared: BTreeSet<u64>,
    pub reserved: Option<u64>,
    pub pending: Option<u64>,
    pub exclusive: Option<u64>,
}

/// Shared memory of a WAL database (never durable).
#[derive(Clone, Default)]
pub struct Shm {
    pub regions: Vec<Arc<ShmRegion>>,
    pub shared: Vec<BTreeSet<u64>>,
    pub excl: Vec<Option<u64>>,
}
pub struct ShmRegion(pub std::cell::UnsafeCell<Box<[u8]>>);
unsafe impl Send for ShmRegion {}
unsafe impl Sync for ShmRegion {}

#[derive(Clone, Default)]
pub struct Inode {
    pub vol: Vec<u8>,
    pub dur: Vec<u8>,
    pub pend: Vec<Pend>,
    pub locks: Locks,
    pub shm: Option<Shm>,
    pub opens: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PowerMode {
    /// Nothing that was not synced survives.
    DropAll,
    /// Everything survives.
    KeepAll,
    /// Any subset of the unsynced writes and directory changes.
    Subset,
    /// A prefix, in issue order per file.
    Prefix,
    /// A subset, with writes torn at sector boundaries.
    Torn,
}

#[derive(Clone, Default)]
pub struct Disk {
    pub inodes: BTreeMap<u64, Inode>,
    pub vol_dir: BTreeMap<String, u64>,
    pub dur_dir: BTreeMap<String, u64>,
    pub dir_pend: Vec<DirOp>,
    pub dirs: BTreeSet<String>,
    pub next_ino: u64,
    pub sector: usize,
}

pub fn parent(path: &str) -> &str {
    match path.rfind('/') {
        Some(i) => &path[..i],
        None => "",
    }
}

impl Disk {
    pub fn new() -> Disk {
        Disk { next_ino: 1, sector: 4096, ..Default::default() }
    }
    pub fn lookup(&self, path: &str) -> Option<u64> {
        self.vol_dir.get(path).copied()
    }
    pub fn create(&mut self, path: &str) -> u64 {
        let ino = self.anon();
        self.vol_dir.insert(path.to_string(), ino);
        self.dir_pend.push(DirOp::Link(path.to_string(), ino));
        ino
    }
    pub fn anon(&mut self) -> u64 {
        let ino = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(ino, Inode::default());
        ino
    }
    pub fn unlink(&mut self, path: &str) -> bool {
        match self.vol_dir.remove(path) {
            None => false,
            Some(ino) => {
                self.dir_pend.push(DirOp::Unlink(path.to_string()));
                self.collect(ino);
                true
            }
        }
    }
    fn collect(&mut self, ino: u64) {
        let used = self.vol_dir.values().any(|&i| i == ino)
            || self.dur_dir.values().any(|&i| i == ino)
            || self.dir_pend.iter().any(|o| matches!(o, DirOp::Link(_, i) if *i == ino))
            || self.inodes.get(&ino).map(|i| i.opens > 0).unwrap_or(false);
        if !used {
            self.inodes.remove(&ino);
        }
    }
    pub fn ino(&mut self, ino: u64) -> &mut Inode {
        self.inodes.get_mut(&ino).expect("inode")
    }
    pub fn opened(&mut self, ino: u64) {
        self.ino(ino).opens += 1;
    }
    pub fn closed(&mut self, ino: u64, handle: u64) {
        if let Some(i) = self.inodes.get_mut(&ino) {
            i.opens = i.opens.saturating_sub(1);
            i.unlock_all(handle);
        }
        self.collect(ino);
    }
    pub fn sync_dir(&mut self, dir: &str) {
        let ops = std::mem::take(&mut self.dir_pend);
        let mut rest = Vec::new();
        for op in ops {
            if parent(op.name()) == dir {
                Self::apply_dir(&mut self.dur_dir, &op);
            } else {
                rest.push(op);
            }
        }
        self.dir_pend = rest;
        self.gc();
    }
    fn apply_dir(d: &mut BTreeMap<String, u64>, op: &DirOp) {
        match op {
            DirOp::Link(n, i) => {
                d.insert(n.clone(), *i);
            }
            DirOp::Unlink(n) => {
                d.remove(n);
            }
        }
    }
    fn gc(&mut self) {
        let mut used: BTreeSet<u64> = BTreeSet::new();
        used.extend(self.vol_dir.values());
        used.extend(self.dur_dir.values());
        for o in &self.dir_pend {
            if let DirOp::Link(_, i) = o {
                used.insert(*i);
            }
        }
        self.inodes.retain(|i, n| n.opens > 0 || used.contains(i));
    }
    /// All processes die: locks and shared memory are gone, everything written survives.
    pub fn kill_all(&mut self) {
        for n in self.inodes.values_mut() {
            n.locks = Locks::default();
            n.shm = None;
            n.opens = 0;
        }
        self.gc();
    }
    /// The machine loses power.
    pub fn crash(&mut self, mode: PowerMode, rng: &mut Rng) {
        for n in self.inodes.values_mut() {
            let mut c = std::mem::take(&mut n.dur);
            let pend = std::mem::take(&mut n.pend);
            let prefix = rng.idx(pend.len() + 1);
            let keep_pct = *rng.pick(&[10u64, 50, 90]);
            for (k, p) in pend.iter().enumerate() {
                let keep = match mode {
                    PowerMode::DropAll => false,
                    PowerMode::KeepAll => true,
                    PowerMode::Prefix => k < prefix,
                    PowerMode::Subset | PowerMode::Torn => rng.below(100) < keep_pct,
                };
                if !keep && mode != PowerMode::Torn {
                    continue;
                }
                match p {
                    Pend::Write(off, data) => {
                        if mode == PowerMode::Torn {
                            let mut o = *off;
                            let end = off + data.len();
                            while o < end {
                                let e = ((o / 512 + 1) * 512).min(end);
                                if rng.below(100) < keep_pct {
                                    put(&mut c, o, &data[o - off..e - off]);
                                }
                                o = e;
                            }
                        } else {
                            put(&mut c, *off, data);
                        }
                    }
                    Pend::Trunc(l) => {
                        if keep {
                            c.resize(*l, 0);
                        }
                    }
                }
            }
            n.vol = c.clone();
            n.dur = c;
        }
        let ops = std::mem::take(&mut self.dir_pend);
        let prefix = rng.idx(ops.len() + 1);
        for (k, op) in ops.iter().enumerate() {
            let keep = match mode {
                PowerMode::DropAll => false,
                PowerMode::KeepAll => true,
                PowerMode::Prefix => k < prefix,
                PowerMode::Subset | PowerMode::Torn => rng.chance(1, 2),
            };
            if keep {
                Self::apply_dir(&mut self.dur_dir, op);
            }
        }
        self.vol_dir = self.dur_dir.clone();
        self.kill_all();
    }
    /// Everything written so far is durable (used between prepared steps).
    pub fn settle(&mut self) {
        for n in self.inodes.values_mut() {
            n.dur = n.vol.clone();
            n.pend.clear();
        }
        self.dur_dir = self.vol_dir.clone();
        self.dir_pend.clear();
        self.gc();
    }
    pub fn file(&self, path: &str) -> Option<&Vec<u8>> {
        self.vol_dir.get(path).and_then(|i| self.inodes.get(i)).map(|n| &n.vol)
    }
    pub fn content_hash(&self) -> u64 {
        let mut h = 7;
        for (n, i) in &self.vol_dir {
            h = crate::rng::hash_bytes(h, n.as_bytes());
            if let Some(f) = self.inodes.get(i) {
                h = crate::rng::hash_bytes(h, &f.vol);
            }
        }
        h
    }
}

pub fn put(c: &mut Vec<u8>, off: usize, data: &[u8]) {
    if c.len() < off + data.len() {
        c.resize(off + data.len(), 0);
    }
    c[off..off + data.len()].copy_from_slice(data);
}

// SQLite lock levels.
pub const NONE: i32 = 0;
pub const SHARED: i32 = 1;
pub const RESERVED: i32 = 2;
pub const PENDING: i32 = 3;
pub const EXCLUSIVE: i32 = 4;

impl Inode {
    pub fn write(&mut self, off: usize, data: &[u8]) {
        put(&mut self.vol, off, data);
        self.pend.push(Pend::Write(off, data.to_vec()));
    }
    pub fn truncate(&mut self, len: usize) {
        self.vol.resize(len, 0);
        self.pend.push(Pend::Trunc(len));
    }
    pub fn sync(&mut self) {
        self.dur = self.vol.clone();
        self.pend.clear();
    }
    /// The three independent byte ranges of SQLite's unix locks.
    pub fn lock(&mut self, h: u64, have: i32, want: i32) -> Result<i32, i32> {
        let l = &mut self.locks;
        if have >= want {
            return Ok(have);
        }
        let mut lvl = have;
        if lvl == NONE {
            if l.pending.is_some() || l.exclusive.is_some() {
                return Err(lvl);
            }
            l.shared.insert(h);
            lvl = SHARED;
        }
        if want == RESERVED && lvl < RESERVED {
            if l.reserved.is_some() {
                return Err(lvl);
            }
            l.reserved = Some(h);
            lvl = RESERVED;
        }
        if want == EXCLUSIVE {
            if lvl < PENDING {
                if l.pending.map(|p| p != h).unwrap_or(false) {
                    return Err(lvl);
                }
                l.pending = Some(h);
                lvl = PENDING;
            }
            if l.shared.iter().any(|&s| s != h) {
                return Err(lvl);
            }
            l.exclusive = Some(h);
            lvl = EXCLUSIVE;
        }
        Ok(lvl)
    }
    pub fn unlock(&mut self, h: u64, to: i32) {
        let l = &mut self.locks;
        for x in [&mut l.reserved, &mut l.pending, &mut l.exclusive] {
            if *x == Some(h) {
                *x = None;
            }
        }
        if to == NONE {
            l.shared.remove(&h);
        }
    }
    pub fn unlock_all(&mut self, h: u64) {
        self.unlock(h, NONE);
        if let Some(s) = &mut self.shm {
            s.release(h);
        }
    }
    /// What the unix implementation sees: its own lock above SHARED, or the reserved byte of
    /// another process. The pending and shared bytes of others do not count.
    pub fn reserved_for(&self, h: u64) -> bool {
        let l = &self.locks;
        l.reserved.is_some() || l.pending == Some(h) || l.exclusive == Some(h)
    }
}

impl Shm {
    pub fn new() -> Shm {
        Shm { regions: Vec::new(), shared: vec![BTreeSet::new(); 8], excl: vec![None; 8] }
    }
    pub fn release(&mut self, h: u64) {
        for s in &mut self.shared {
            s.remove(&h);
        }
        for e in &mut self.excl {
            if *e == Some(h) {
                *e = None;
            }
        }
    }
    pub fn in_use(&self) -> bool {
        self.shared.iter().any(|s| !s.is_empty()) || self.excl.iter().any(|e| e.is_some())
    }
}
