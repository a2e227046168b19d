//! One observable call: how to write it down, how to execute it on the real code,
//! and what the reference model says must come back.
use crate::refmodel::{self, lyra2 as rl, KdfParams, Rows, Trace};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Algo {
    Re,
    V2,
    V3,
    Z,
    L2,
}
pub const CHAINS: [Algo; 4] = [Algo::Re, Algo::V2, Algo::V3, Algo::Z];
pub const ALL_SUMS: [Algo; 5] = [Algo::Re, Algo::V2, Algo::V3, Algo::Z, Algo::L2];
impl Algo {
    pub fn name(self) -> &'static str {
        match self {
            Algo::Re => "re",
            Algo::V2 => "v2",
            Algo::V3 => "v3",
            Algo::Z => "z",
            Algo::L2 => "l2",
        }
    }
    pub fn parse(s: &str) -> Option<Algo> {
        ALL_SUMS.iter().copied().find(|a| a.name() == s)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Stage {
    Bmw,
    Cube,
    Mod,
}
impl Stage {
    pub fn name(self) -> &'static str {
        match self {
            Stage::Bmw => "bmw",
            Stage::Cube => "cube",
            Stage::Mod => "mod",
        }
    }
}

/// Bytes together with (when generated) the recipe that makes them.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blob {
    pub v: Vec<u8>,
    pub recipe: Option<(u8, u64)>,
}
impl Blob {
    pub fn raw(v: Vec<u8>) -> Blob {
        Blob { v, recipe: None }
    }
    pub fn make(len: usize, kind: u8, seed: u64) -> Blob {
        Blob { v: crate::gen::fill(len, kind, seed), recipe: Some((kind, seed)) }
    }
    pub fn text(&self) -> String {
        if self.v.is_empty() {
            return "-".into();
        }
        if let (Some((k, s)), true) = (self.recipe, self.v.len() > 2048) {
            return format!("@{}:{}:{}", self.v.len(), k, s);
        }
        hex(&self.v)
    }
    pub fn parse(s: &str) -> Option<Blob> {
        if s == "-" {
            return Some(Blob::raw(vec![]));
        }
        if let Some(r) = s.strip_prefix('@') {
            let p: Vec<&str> = r.split(':').collect();
            return Some(Blob::make(p.first()?.parse().ok()?, p.get(1)?.parse().ok()?, p.get(2)?.parse().ok()?));
        }
        unhex(s).map(Blob::raw)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Case {
    Sum(Algo, Blob),
    Kdf(KdfParams, Blob, Blob),
    Stage(Stage, Blob),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Bytes(Vec<u8>),
    Panic(String),
}
impl Outcome {
    /// For comparison: a refusal is a refusal whatever its message.
    pub fn same(&self, e: &Expect) -> bool {
        match (self, e) {
            (Outcome::Bytes(a), Expect::Bytes(b)) => a == b,
            (Outcome::Panic(_), Expect::Refuse) => true,
            _ => false,
        }
    }
    pub fn text(&self) -> String {
        match self {
            Outcome::Bytes(b) => show(b),
            Outcome::Panic(m) => format!("panic ({})", m),
        }
    }
    /// canonical form for result logs
    pub fn log(&self) -> String {
        match self {
            Outcome::Bytes(b) => log_bytes(b),
            Outcome::Panic(_) => "refused".into(),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Expect {
    Bytes(Vec<u8>),
    Refuse,
}
impl Expect {
    pub fn text(&self) -> String {
        match self {
            Expect::Bytes(b) => show(b),
            Expect::Refuse => "refusal (panic)".into(),
        }
    }
    #[allow(dead_code)]
    pub fn log(&self) -> String {
        match self {
            Expect::Bytes(b) => log_bytes(b),
            Expect::Refuse => "refused".into(),
        }
    }
}
fn show(b: &[u8]) -> String {
    if b.len() > 256 {
        format!("{} bytes {}.. fnv={:016x}", b.len(), hex(&b[..64]), fnv(b))
    } else {
        format!("{} bytes {}", b.len(), hex(b))
    }
}
fn log_bytes(b: &[u8]) -> String {
    if b.len() > 256 {
        format!("{}:{}:{:016x}", b.len(), hex(&b[..64]), fnv(b))
    } else {
        format!("{}:{}", b.len(), hex(b))
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    let mut it = b.chunks_exact(8);
    for w in &mut it {
        let mut x = [0u8; 8];
        x.copy_from_slice(w);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    for x in it.remainder() {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    let d = |c: u8| (c as char).to_digit(16);
    s.as_bytes().chunks(2).map(|p| Some((d(p[0])? * 16 + d(p[1])?) as u8)).collect()
}

thread_local! {
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}
pub static HOOK_CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Panics are an expected observation, not noise on stderr.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        HOOK_CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        // a panic of the monitors themselves is an error to be read
        if at.starts_with("src/") && !cfg!(miri) {
            eprintln!("harness: {} at {}", msg, at);
        }
        let _ = PANIC_AT.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{} at {}", msg, at)
            }
        });
    }));
}
pub fn guarded(f: impl FnOnce() -> Vec<u8>) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Outcome::Bytes(v),
        Err(p) => {
            drop(p);
            // (gone when a thread is being torn down)
            Outcome::Panic(PANIC_AT.try_with(|p| std::mem::take(&mut *p.borrow_mut())).unwrap_or_default())
        }
    }
}

pub fn call_sum(a: Algo, v: Vec<u8>) -> Vec<u8> {
    match a {
        Algo::Re => lyra2::lyra2re::sum(v),
        Algo::V2 => lyra2::lyra2rev2::sum(v),
        Algo::V3 => lyra2::lyra2rev3::sum(v),
        Algo::Z => lyra2::lyra2z::sum(v),
        Algo::L2 => lyra2::lyra2::sum(v),
    }
}
#[cfg(lyra2_verif)]
fn call_stage(s: Stage, v: Vec<u8>) -> Vec<u8> {
    match s {
        Stage::Bmw => lyra2::verif_hooks::bmw256(v),
        Stage::Cube => lyra2::verif_hooks::cubehash256(v),
        Stage::Mod => lyra2::verif_hooks::lyra2mod(v),
    }
}
#[cfg(not(lyra2_verif))]
fn call_stage(_: Stage, _: Vec<u8>) -> Vec<u8> {
    unreachable!("stage cases are generated only with the hooks on")
}
pub const HOOKS: bool = cfg!(lyra2_verif);

fn with_cap(v: &[u8], extra: usize) -> Vec<u8> {
    let mut o = Vec::with_capacity(v.len() + extra);
    o.extend_from_slice(v);
    o
}

/// Arguments built, call not yet made.
pub enum Prepared {
    Sum(Algo, Vec<u8>),
    Kdf(KdfParams, Vec<u8>, Vec<u8>),
    Stage(Stage, Vec<u8>),
}
impl Prepared {
    pub fn run(self) -> Vec<u8> {
        match self {
            Prepared::Sum(a, v) => call_sum(a, v),
            Prepared::Kdf(p, x, y) => lyra2::lyra2::lyra2(p.k, x, y, p.t, p.r, p.c),
            Prepared::Stage(s, v) => call_stage(s, v),
        }
    }
}

impl Case {
    pub fn prepare(&self) -> Prepared {
        self.prepare_cap(0)
    }
    pub fn prepare_cap(&self, extra: usize) -> Prepared {
        match self {
            Case::Sum(a, b) => Prepared::Sum(*a, with_cap(&b.v, extra)),
            Case::Kdf(p, a, b) => Prepared::Kdf(*p, with_cap(&a.v, extra), with_cap(&b.v, extra)),
            Case::Stage(s, b) => Prepared::Stage(*s, with_cap(&b.v, extra)),
        }
    }
    pub fn sum(a: Algo, v: Vec<u8>) -> Case {
        Case::Sum(a, Blob::raw(v))
    }
    pub fn kdf(k: u64, t: u64, r: u64, c: u64, pwd: Vec<u8>, salt: Vec<u8>) -> Case {
        Case::Kdf(KdfParams { k, t, r, c }, Blob::raw(pwd), Blob::raw(salt))
    }
    pub fn line(&self) -> String {
        match self {
            Case::Sum(a, b) => format!("sum {} {}", a.name(), b.text()),
            Case::Kdf(p, a, b) => format!("kdf {} {} {} {} {} {}", p.k, p.t, p.r, p.c, a.text(), b.text()),
            Case::Stage(s, b) => format!("stage {} {}", s.name(), b.text()),
        }
    }
    /// line, shortened for samples in the evidence
    pub fn brief(&self) -> String {
        let l = self.line();
        if l.len() > 240 { format!("{}...[{} chars]", &l[..240], l.len()) } else { l }
    }
    pub fn parse(l: &str) -> Option<Case> {
        let w: Vec<&str> = l.split_whitespace().collect();
        match *w.first()? {
            "sum" => Some(Case::Sum(Algo::parse(w.get(1)?)?, Blob::parse(w.get(2)?)?)),
            "kdf" => {
                let n = |i: usize| w.get(i).and_then(|x: &&str| x.parse::<u64>().ok());
                Some(Case::Kdf(KdfParams { k: n(1)?, t: n(2)?, r: n(3)?, c: n(4)? }, Blob::parse(w.get(5)?)?, Blob::parse(w.get(6)?)?))
            }
            "stage" => {
                let s = match *w.get(1)? {
                    "bmw" => Stage::Bmw,
                    "cube" => Stage::Cube,
                    "mod" => Stage::Mod,
                    _ => return None,
                };
                Some(Case::Stage(s, Blob::parse(w.get(2)?)?))
            }
            _ => None,
        }
    }
    pub fn exec(&self) -> Outcome {
        self.exec_cap(0)
    }
    /// Execute on the real code with argument vectors that own `extra` spare bytes.
    pub fn exec_cap(&self, extra: usize) -> Outcome {
        let p = self.prepare_cap(extra);
        guarded(move || p.run())
    }
    /// Roughly the work of the call.
    pub fn weight(&self) -> u64 {
        match self {
            Case::Kdf(p, a, b) => p.r.saturating_mul(p.c).saturating_mul(p.t.saturating_add(1)).saturating_add(p.k / 8 + (a.v.len() + b.v.len()) as u64 / 8),
            Case::Sum(_, b) | Case::Stage(_, b) => b.v.len() as u64 / 16,
        }
    }
    /// Must the call be accepted?
    pub fn valid(&self) -> bool {
        match self {
            Case::Sum(Algo::L2, b) => b.v.len() <= 743,
            Case::Kdf(p, a, b) => rl::valid(p, a.v.len(), b.v.len()),
            _ => true,
        }
    }
    pub fn expect(&self) -> Expect {
        self.expect_traced(None)
    }
    pub fn expect_traced(&self, tr: Option<&mut Trace>) -> Expect {
        let o = match self {
            Case::Sum(Algo::Re, b) => Some(refmodel::lyra2re(&b.v)),
            Case::Sum(Algo::V2, b) => Some(refmodel::lyra2rev2(&b.v)),
            Case::Sum(Algo::V3, b) => Some(refmodel::lyra2rev3(&b.v)),
            Case::Sum(Algo::Z, b) => Some(refmodel::lyra2z(&b.v)),
            Case::Sum(Algo::L2, b) => refmodel::lyra2_sum(&b.v),
            Case::Kdf(p, a, b) => rl::kdf(p, &a.v, &b.v, Rows::Classic, tr),
            Case::Stage(Stage::Bmw, b) => Some(refmodel::bmw256::hash(&b.v).to_vec()),
            Case::Stage(Stage::Cube, b) => Some(refmodel::cubehash256::hash(&b.v).to_vec()),
            Case::Stage(Stage::Mod, b) => Some(refmodel::lyra2mod(&b.v).to_vec()),
        };
        match o {
            Some(v) => Expect::Bytes(v),
            None => Expect::Refuse,
        }
    }
    pub fn hash(&self) -> u64 {
        match self {
            Case::Sum(a, b) => fnv(&b.v).wrapping_mul(31).wrapping_add(*a as u64 + 1),
            Case::Stage(a, b) => fnv(&b.v).wrapping_mul(37).wrapping_add(*a as u64 + 11),
            Case::Kdf(p, a, b) => {
                let mut h = fnv(&a.v) ^ fnv(&b.v).rotate_left(17);
                for x in [p.k, p.t, p.r, p.c] {
                    h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
                    h ^= h >> 31;
                }
                h
            }
        }
    }
}
