//! Guided workload.  The crate under test is compiled with coverage counters and traced
//! comparisons; inputs are grown from what they make it do: whatever it compares a part of
//! the input with becomes that part (and one more, one less), and inputs that reach new
//! branches or new outcomes of a comparison are built upon.  Every call made is judged like
//! any other.
//!   guided MODE OUT CRASH SECONDS SEED [TRAIL]
//! With TRAIL, nothing is judged: the inputs that did something new are written there, for
//! other monitors to run, those with an unexpected result first.
#![allow(dead_code, unexpected_cfgs)]
mod alloc;
mod case;
mod engine;
mod gen;
mod refmodel;
use case::{Algo, Blob, Case, Expect, Outcome, Stage, ALL_SUMS, HOOKS};
use gen::Rng;
use refmodel::KdfParams;
use std::collections::{HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Mon = alloc::Mon;

// ---- what the instrumented crate reports -------------------------------------------
// Each callback passes its return address on, so that comparisons are known by their site.
#[cfg(target_arch = "x86_64")]
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_cmp1, __sanitizer_cov_trace_cmp2, __sanitizer_cov_trace_cmp4, __sanitizer_cov_trace_cmp8",
    ".globl __sanitizer_cov_trace_const_cmp1, __sanitizer_cov_trace_const_cmp2, __sanitizer_cov_trace_const_cmp4, __sanitizer_cov_trace_const_cmp8, __sanitizer_cov_trace_switch",
    "__sanitizer_cov_trace_cmp1: __sanitizer_cov_trace_const_cmp1:",
    "movzbl %dil, %edi",
    "movzbl %sil, %esi",
    "mov (%rsp), %rdx",
    "mov $1, %ecx",
    "jmp {cmp}",
    "__sanitizer_cov_trace_cmp2: __sanitizer_cov_trace_const_cmp2:",
    "movzwl %di, %edi",
    "movzwl %si, %esi",
    "mov (%rsp), %rdx",
    "mov $2, %ecx",
    "jmp {cmp}",
    "__sanitizer_cov_trace_cmp4: __sanitizer_cov_trace_const_cmp4:",
    "mov %edi, %edi",
    "mov %esi, %esi",
    "mov (%rsp), %rdx",
    "mov $4, %ecx",
    "jmp {cmp}",
    "__sanitizer_cov_trace_cmp8: __sanitizer_cov_trace_const_cmp8:",
    "mov (%rsp), %rdx",
    "mov $8, %ecx",
    "jmp {cmp}",
    "__sanitizer_cov_trace_switch:",
    "mov (%rsp), %rdx",
    "jmp {switch}",
    cmp = sym on_cmp,
    switch = sym on_switch,
    options(att_syntax)
);

const OBS: usize = 6;
#[derive(Clone, Copy)]
struct Site {
    pc: u64,
    rel: u8,
    width: u8,
    cnt: u8,
    run: u64,
    /// outcomes (less, equal, greater) in this run, and in how many runs each occurred
    now: u8,
    freq: [u32; 3],
    runs: u32,
    obs: [(u64, u64); OBS],
}
const NSITES: usize = 1 << 14;
static mut SITES: [Site; NSITES] = [Site { pc: 0, rel: 0, width: 0, cnt: 0, run: 0, now: 0, freq: [0; 3], runs: 0, obs: [(0, 0); OBS] }; NSITES];
static mut ON: bool = false;
static mut RUN: u64 = 0;
static mut NEWREL: bool = false;
static mut TOUCHED: [u16; NSITES] = [0; NSITES];
static mut NTOUCHED: usize = 0;
static mut COUNTERS: (*mut u8, usize) = (std::ptr::null_mut(), 0);
const NMEM: usize = 24;
static mut MEM: [([u8; 64], [u8; 64], usize); NMEM] = [([0; 64], [0; 64], 0); NMEM];
static mut NMEMS: usize = 0;

/// # Safety
/// called by the instrumented crate, on the one thread that drives it
unsafe extern "C" fn on_cmp(a: u64, b: u64, pc: u64, width: u32) {
    if ON {
        cmp(a, b, pc, width as u8);
    }
}
unsafe fn cmp(a: u64, b: u64, pc: u64, width: u8) {
    let mut h = (pc.wrapping_mul(0x9E3779B97F4A7C15) >> 50) as usize;
    let sites = std::ptr::addr_of_mut!(SITES) as *mut Site;
    for _ in 0..32 {
        let s = &mut *sites.add(h);
        if s.pc == 0 {
            s.pc = pc;
            s.width = width;
        }
        if s.pc == pc {
            let r = if a < b { 1 } else if a == b { 2 } else { 4 };
            if s.rel & r == 0 {
                s.rel |= r;
                NEWREL = true;
            }
            if s.run != RUN {
                s.run = RUN;
                s.cnt = 0;
                s.now = 0;
                s.runs += 1;
                if NTOUCHED < NSITES {
                    *(std::ptr::addr_of_mut!(TOUCHED) as *mut u16).add(NTOUCHED) = h as u16;
                    NTOUCHED += 1;
                }
            }
            if s.now & r == 0 {
                s.now |= r;
                s.freq[r as usize >> 1] += 1;
            }
            let n = s.cnt as usize;
            if n < OBS && a != b && !s.obs[..n].contains(&(a, b)) {
                s.obs[n] = (a, b);
                s.cnt += 1;
            }
            return;
        }
        h = (h + 1) % NSITES;
    }
}
unsafe extern "C" fn on_switch(v: u64, cases: *const u64, pc: u64) {
    if ON {
        let n = *cases as usize;
        let w = (*cases.add(1) / 8).clamp(1, 8) as u8;
        for i in 0..n.min(32) {
            cmp(*cases.add(2 + i), v, pc.wrapping_add(i as u64 * 0x1_0000_0001), w);
        }
    }
}
#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
    COUNTERS = (a, b as usize - a as usize);
}
extern "C" {
    fn __real_memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
}
/// Every memcmp of the program comes here (linked with --wrap); bcmp too.
#[no_mangle]
unsafe extern "C" fn __wrap_memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let r = __real_memcmp(a, b, n);
    if ON && n >= 1 && n <= 64 && NMEMS < NMEM {
        let m = &mut *(std::ptr::addr_of_mut!(MEM) as *mut ([u8; 64], [u8; 64], usize)).add(NMEMS);
        NMEMS += 1;
        m.2 = n;
        std::ptr::copy_nonoverlapping(a, m.0.as_mut_ptr(), n);
        std::ptr::copy_nonoverlapping(b, m.1.as_mut_ptr(), n);
    }
    r
}
#[no_mangle]
unsafe extern "C" fn __wrap_bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    __wrap_memcmp(a, b, n)
}

// ---- inputs -------------------------------------------------------------------------
/// nums: k t r c for the KDF, nothing otherwise; the blobs' lengths are part of the input.
#[derive(Clone, Debug)]
struct Input {
    nums: Vec<u64>,
    blobs: Vec<Vec<u8>>,
}
impl Input {
    fn hash(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (&self.nums, &self.blobs).hash(&mut h);
        h.finish()
    }
}
const MAX_BLOB: usize = 1 << 20;

struct In<'a>(&'a [u8]);
impl<'a> In<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        let n = n.min(self.0.len());
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.take(1).first().copied().unwrap_or(0)
    }
    fn num(&mut self, n: usize) -> u64 {
        let mut b = [0u8; 8];
        let t = self.take(n);
        b[..t.len()].copy_from_slice(t);
        u64::from_le_bytes(b)
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.take(n).to_vec();
        v.resize(n, 0);
        v
    }
}
/// None: too large to run, yet not so large as to be refused; says nothing.
fn kdf_case(i: &Input) -> Option<Case> {
    let p = KdfParams { k: i.nums[0], t: i.nums[1], r: i.nums[2], c: i.nums[3] };
    let (a, b) = (i.blobs[0].len(), i.blobs[1].len());
    let cells = p.r as u128 * p.c as u128 * (p.t as u128 + 1) + p.k as u128 / 24 + (a + b) as u128 / 16;
    let bytes = p.r as u128 * p.c as u128 * 96;
    if (refmodel::lyra2::valid(&p, a, b) && cells > 150_000) || (p.t >= 1 && p.r >= 3 && (1 << 26..1 << 63).contains(&bytes)) {
        return None;
    }
    Some(Case::Kdf(p, Blob::raw(i.blobs[0].clone()), Blob::raw(i.blobs[1].clone())))
}
fn small_case(i: &mut In, past: &[Case]) -> Option<Case> {
    Some(match i.u8() % 12 {
        0..=4 => {
            let a = ALL_SUMS[i.u8() as usize % 5];
            let n = i.num(2) as usize % 1000;
            Case::sum(a, i.bytes(n))
        }
        5 | 6 => {
            let p = KdfParams { k: i.num(1), t: i.num(1) % 5, r: i.num(1) % 40, c: i.num(1) % 12 };
            let (a, b) = (i.num(1) as usize, i.num(1) as usize);
            let (x, y) = (i.bytes(a), i.bytes(b));
            Case::Kdf(p, Blob::raw(x), Blob::raw(y))
        }
        7 if HOOKS => Case::Stage([Stage::Bmw, Stage::Cube, Stage::Mod][i.u8() as usize % 3], Blob::raw(i.bytes(32))),
        // an earlier call again, or a neighbour of it
        _ => {
            if past.is_empty() {
                return None;
            }
            let c = past[past.len() - 1 - i.u8() as usize % past.len()].clone();
            let (how, x) = (i.u8(), i.num(2));
            let edit = |v: &mut Vec<u8>| match how % 6 {
                0 | 1 => {}
                2 if !v.is_empty() => {
                    let n = v.len();
                    v[x as usize % n] ^= 1 << (how / 6 % 8)
                }
                3 => v.push(x as u8),
                4 => {
                    v.pop();
                }
                _ => v.reverse(),
            };
            match c {
                Case::Sum(a, mut b) => {
                    edit(&mut b.v);
                    Case::sum(if how > 200 { ALL_SUMS[x as usize % 5] } else { a }, b.v)
                }
                Case::Kdf(mut p, mut a, mut b) => {
                    match how / 6 % 8 {
                        0 => p.k = (p.k + x) % 300,
                        1 => p.t = (p.t + x) % 5,
                        2 => p.r = (p.r + x) % 40,
                        3 => p.c = (p.c + x) % 12,
                        4 => edit(&mut a.v),
                        5 => edit(&mut b.v),
                        _ => {}
                    }
                    Case::kdf(p.k, p.t, p.r, p.c, a.v, b.v)
                }
                Case::Stage(s, mut b) => {
                    if how % 2 == 1 {
                        b.v[x as usize % 32] ^= how;
                    }
                    Case::Stage(s, Blob::raw(b.v))
                }
            }
        }
    })
}

fn cases_of(mode: &str, i: &Input) -> Vec<Case> {
    match mode {
        "kdf" | "params" => kdf_case(i).into_iter().collect(),
        "history" => {
            let mut past = Vec::new();
            let mut d = In(&i.blobs[0]);
            for _ in 0..12 {
                if d.0.is_empty() {
                    break;
                }
                if let Some(c) = small_case(&mut d, &past) {
                    past.push(c);
                }
            }
            past
        }
        "bmw" | "cube" | "mod" => {
            let st = match mode {
                "bmw" => Stage::Bmw,
                "cube" => Stage::Cube,
                _ => Stage::Mod,
            };
            let mut v = i.blobs[0].clone();
            v.resize(32, 0);
            vec![Case::Stage(st, Blob::raw(v))]
        }
        m => vec![Case::sum(Algo::parse(m).expect("mode"), i.blobs[0].clone())],
    }
}

// ---- running and judging --------------------------------------------------------------
struct Pair {
    /// from a comparison that hardly ever comes out equal
    rare: bool,
    width: usize,
    from: u64,
    to: u64,
}
struct Fuzz {
    mode: String,
    out: String,
    rep: engine::Report,
    trail: Option<String>,
    odd: Vec<Vec<String>>,
    log: VecDeque<String>,
    corpus: Vec<Input>,
    cov: Vec<u8>,
    pairs: Vec<Pair>,
    mems: Vec<(Vec<u8>, Vec<u8>)>,
    together: HashSet<(u32, u32)>,
    r: Rng,
    t0: Instant,
}
impl Fuzz {
    fn observed(&mut self, c: &Case) -> Outcome {
        unsafe {
            RUN += 1;
            NTOUCHED = 0;
            NMEMS = 0;
            NEWREL = false;
            let (p, n) = COUNTERS;
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, n);
            }
        }
        let prepared = c.prepare();
        let got = engine::watched(c, || {
            case::guarded(move || {
                unsafe { ON = true };
                prepared.run()
            })
        });
        unsafe { ON = false };
        got
    }
    /// Judge one call; true when it did something new.
    fn judge(&mut self, c: &Case, sig: &str) -> bool {
        self.log.push_back(c.line());
        if self.log.len() > 24 {
            self.log.pop_front();
        }
        let got = self.observed(c);
        let mut new = unsafe { NEWREL };
        unsafe {
            let (p, n) = COUNTERS;
            self.cov.resize(n, 0);
            for i in 0..n {
                let v = *p.add(i);
                let b = if v == 0 { 0 } else { 1u8 << (8 - v.leading_zeros()).saturating_sub(1).min(7) };
                if b & !self.cov[i] != 0 {
                    self.cov[i] |= b;
                    new = true;
                }
            }
            let touched = std::ptr::addr_of!(TOUCHED) as *const u16;
            let sites = std::ptr::addr_of!(SITES) as *const Site;
            let mut rare: Vec<u32> = Vec::new();
            for t in 0..NTOUCHED {
                let s = &*sites.add(*touched.add(t) as usize);
                for r in 0..3 {
                    if s.now >> r & 1 == 1 && s.freq[r] < s.runs / 16 + 3 {
                        rare.push((*touched.add(t) as u32) << 2 | r as u32);
                    }
                }
                for (a, b) in &s.obs[..s.cnt as usize] {
                    // all outcomes seen long ago: only rarely worth a try
                    if s.rel == 7 && !self.r.chance(1, 12) {
                        continue;
                    }
                    let width = s.width as usize;
                    let rare = s.freq[1] < s.runs / 8 + 3;
                    self.pairs.push(Pair { rare, width, from: *b, to: *a });
                    self.pairs.push(Pair { rare, width, from: *a, to: *b });
                }
            }
            // two rare outcomes in one call are worth building upon, too
            if rare.len() <= 40 && self.together.len() < 300_000 {
                for x in 0..rare.len() {
                    for y in x + 1..rare.len() {
                        new |= self.together.insert((rare[x], rare[y]));
                    }
                }
            }
            for m in 0..NMEMS {
                let m = &*(std::ptr::addr_of!(MEM) as *const ([u8; 64], [u8; 64], usize)).add(m);
                let (x, y) = (m.0[..m.2].to_vec(), m.1[..m.2].to_vec());
                if x != y {
                    self.mems.push((x.clone(), y.clone()));
                    self.mems.push((y, x));
                }
            }
        }
        self.rep.evals += 1;
        self.rep.hashes.push(c.hash());
        if self.mode == "params" {
            let accept = match c {
                Case::Kdf(p, a, b) => refmodel::lyra2::valid(p, a.v.len(), b.v.len()),
                _ => true,
            };
            match (&got, accept) {
                (Outcome::Bytes(b), false) => self.rep.violation("invalid-accepted", format!("{} must be refused but returned a {}-byte key", c.brief(), b.len()), vec![c.line()]),
                (Outcome::Panic(m), true) => self.rep.violation("valid-refused", format!("{} is valid but panicked: {}", c.brief(), m), vec![c.line()]),
                _ => {}
            }
        } else {
            let want: Expect = c.expect();
            if !got.same(&want) {
                let lines = if self.mode == "history" { self.log.iter().cloned().collect() } else { vec![c.line()] };
                self.rep.violation(sig, format!("{} returned {} but {} is required", c.brief(), got.text(), want.text()), lines);
            }
        }
        if self.trail.is_some() && !self.rep.violations.is_empty() {
            let v = std::mem::take(&mut self.rep.violations);
            if self.odd.len() < 30 {
                self.odd.push(v[0].cases.clone());
                new = true;
            }
        }
        if !self.rep.violations.is_empty() {
            self.finish();
            unsafe { libc::_exit(41) }
        }
        new
    }
    fn finish(&mut self) {
        let (mut sites, mut rels) = (0, 0);
        unsafe {
            let s = std::ptr::addr_of!(SITES) as *const Site;
            for i in 0..NSITES {
                if (*s.add(i)).pc != 0 {
                    sites += 1;
                    rels += (*s.add(i)).rel.count_ones() as u64;
                }
            }
        }
        self.rep.feat_max("guided: comparison sites seen", sites);
        self.rep.feat_max("guided: comparison outcomes seen", rels);
        self.rep.feat_max("guided: branches covered", self.cov.iter().filter(|b| **b != 0).count() as u64);
        self.rep.feat_max("guided: branches in the crate", self.cov.len() as u64);
        self.rep.feat("guided: inputs kept", self.corpus.len() as u64);
        if let Some(t) = &self.trail {
            let mut o = String::new();
            for l in self.odd.iter().flatten() {
                o.push_str(l);
                o.push('\n');
            }
            for i in self.corpus.iter().rev() {
                for c in cases_of(&self.mode, i) {
                    o.push_str(&c.line());
                    o.push('\n');
                }
            }
            let _ = std::fs::write(t, o);
        }
        let mode = format!("guided {}", self.mode);
        let _ = std::fs::write(&self.out, self.rep.json(&mode, self.t0.elapsed().as_secs_f64()));
    }
    fn run(&mut self, i: &Input) -> bool {
        self.pairs.clear();
        self.mems.clear();
        let mode = self.mode.clone();
        let sig = match mode.as_str() {
            "kdf" | "params" => "kdf-output".to_string(),
            "history" => "history".to_string(),
            "bmw" | "cube" | "mod" => format!("stage-{}", mode),
            m => format!("digest-{}", m),
        };
        let mut new = false;
        for c in cases_of(&mode, i) {
            new |= self.judge(&c, &sig);
        }
        if new {
            self.corpus.push(i.clone());
        }
        new
    }
}

fn set_len(r: &mut Rng, v: &mut Vec<u8>, n: usize) {
    if n > v.len() && r.chance(1, 2) {
        let more = r.bytes(n - v.len());
        v.extend(more);
    }
    v.resize(n, 0);
}
fn find(h: &[u8], n: &[u8], from: usize) -> Option<usize> {
    if n.is_empty() || h.len() < n.len() {
        return None;
    }
    (from..=h.len() - n.len()).find(|i| &h[*i..*i + n.len()] == n)
}
/// A change to an input, made only when its turn comes.
#[derive(Clone)]
enum Op {
    Num(usize, u64),
    Rows(u64, u64),
    Len(usize, usize),
    Both(usize),
    Put(usize, usize, Vec<u8>),
    Insert(usize, usize, Vec<u8>),
}
fn apply(r: &mut Rng, i: &Input, op: &Op) -> Input {
    let mut j = i.clone();
    match op {
        Op::Num(k, v) => j.nums[*k] = *v,
        Op::Rows(a, b) => {
            j.nums[2] = *a;
            j.nums[3] = *b;
        }
        Op::Len(k, n) => set_len(r, &mut j.blobs[*k], *n),
        Op::Both(n) => {
            set_len(r, &mut j.blobs[0], *n);
            let tail = j.blobs[0].get(i.blobs[1].len()..).unwrap_or(&[]).to_vec();
            j.blobs[1].extend(tail);
            j.blobs[1].truncate(*n);
        }
        Op::Put(k, q, v) => {
            let twins = j.blobs.len() == 2 && j.blobs[0] == j.blobs[1] && r.chance(1, 2);
            for m in 0..j.blobs.len() {
                if m == *k || twins {
                    j.blobs[m][*q..*q + v.len()].copy_from_slice(v)
                }
            }
        }
        Op::Insert(k, q, v) => {
            j.blobs[*k].splice(*q..*q, v.iter().copied());
        }
    }
    j
}
/// Where an input's values are: by the values of 1, 2, 4 and 8 bytes at each place.
struct Index {
    at: HashMap<(u8, u64), Vec<(u8, u32)>>,
}
const WINDOW: usize = 1500;
impl Index {
    fn new(i: &Input) -> Index {
        let mut at: HashMap<(u8, u64), Vec<(u8, u32)>> = HashMap::new();
        for (k, b) in i.blobs.iter().enumerate() {
            let n = b.len();
            for q in (0..n).filter(|q| *q < WINDOW || *q + 64 >= n) {
                for w in [1usize, 2, 4, 8] {
                    if q + w <= n {
                        let mut x = [0u8; 8];
                        x[..w].copy_from_slice(&b[q..q + w]);
                        at.entry((w as u8, u64::from_le_bytes(x))).or_default().push((k as u8, q as u32));
                    }
                }
            }
        }
        Index { at }
    }
}
fn swap(v: u64, w: usize) -> u64 {
    v.swap_bytes() >> (64 - 8 * w)
}
/// The changes after which the part that was compared as `from` is `to`.
fn directed(r: &mut Rng, i: &Input, ix: &Index, p: &Pair, out: &mut Vec<Op>) {
    let (x, y) = (p.from, p.to);
    for d in [0i64, 1, -1] {
        let y = y.wrapping_add(d as u64);
        for k in 0..i.nums.len() {
            if i.nums[k] == x {
                out.push(Op::Num(k, y));
            }
        }
        for k in 0..i.blobs.len() {
            let n = i.blobs[k].len() as u64;
            // the length, in bytes, words, blocks, or modulo a block
            for unit in [1u64, 8, 64, 96] {
                if n / unit == x && y < (MAX_BLOB as u64) / unit {
                    out.push(Op::Len(k, (y * unit + n % unit) as usize));
                }
            }
            for m in [8u64, 16, 64, 96, 128, 4096] {
                if n % m == x && y < m && n > 0 {
                    out.push(Op::Len(k, (n - n % m + y) as usize));
                }
            }
        }
        if i.blobs.len() == 2 {
            let (a, b) = (i.blobs[0].len() as u64, i.blobs[1].len() as u64);
            if a == x && b == x && y < MAX_BLOB as u64 {
                out.push(Op::Both(y as usize));
            }
            if a + b == x && y < MAX_BLOB as u64 {
                for (k, other) in [(0, b), (1, a)] {
                    if y >= other {
                        out.push(Op::Len(k, (y - other) as usize));
                    }
                }
            }
        }
        if i.nums.len() == 4 {
            // products the code forms of rows, columns and time cost
            for f in [1u64, 8, 12, 96] {
                if i.nums[2].wrapping_mul(i.nums[3]).wrapping_mul(f) == x {
                    for c in [1u64, 2, 4, i.nums[3].max(1)] {
                        if let Some(fc) = f.checked_mul(c) {
                            if y % fc < 2 && y / fc >= 3 {
                                out.push(Op::Rows(y / fc, c));
                            }
                        }
                    }
                }
                for k in 0..4 {
                    if f > 1 && i.nums[k].wrapping_mul(f) == x && y % f == 0 {
                        out.push(Op::Num(k, y / f));
                    }
                }
            }
            if i.nums[2].wrapping_sub(1) == x {
                out.push(Op::Num(2, y.wrapping_add(1)));
            }
        }
    }
    // the contents
    for w in [1usize, 2, 4, 8] {
        if w > p.width || (w < 8 && (x >> (8 * w) != 0 || y >> (8 * w) != 0)) {
            continue;
        }
        for be in [false, true] {
            if be && w == 1 {
                continue;
            }
            let (ex, ey) = if be { (swap(x, w), swap(y, w)) } else { (x, y) };
            if let Some(hits) = ix.at.get(&(w as u8, ex)) {
                for n in 0..hits.len().min(if w == 1 { 6 } else { 4 }) {
                    let (k, q) = if hits.len() <= 6 { hits[n] } else { r.pick(hits) };
                    out.push(Op::Put(k as usize, q as usize, ey.to_le_bytes()[..w].to_vec()));
                }
            }
        }
    }
}
fn directed_mem(r: &mut Rng, i: &Input, x: &[u8], y: &[u8], out: &mut Vec<Op>) {
    for k in 0..i.blobs.len() {
        if let Some(q) = find(&i.blobs[k], x, 0) {
            out.push(Op::Put(k, q, y.to_vec()));
        }
        if r.chance(1, 4) {
            out.push(Op::Insert(k, 0, y.to_vec()));
            out.push(Op::Insert(k, i.blobs[k].len(), y.to_vec()));
        }
    }
}
fn havoc(r: &mut Rng, i: &Input, dict: &[u64], nums: &[Vec<u64>; 4]) -> Input {
    let mut j = i.clone();
    for _ in 0..1 + r.below(3) {
        if !j.nums.is_empty() && r.chance(1, 2) {
            let k = r.below(4) as usize;
            let v = j.nums[k];
            j.nums[k] = match r.below(12) {
                8..=11 if !nums[k].is_empty() => r.pick(&nums[k]),
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                2 => v.wrapping_mul(2),
                3 => v / 2,
                4 if !dict.is_empty() => r.pick(dict).wrapping_add(r.below(3)).wrapping_sub(1),
                5 => r.logu(1, 70_000),
                6 => v ^ (1 << r.below(64)),
                _ => r.below(12),
            };
            continue;
        }
        let k = r.below(j.blobs.len() as u64) as usize;
        let n = j.blobs[k].len();
        match r.below(9) {
            0 if n > 0 => j.blobs[k][r.below(n as u64) as usize] ^= 1 << r.below(8),
            1 if n > 0 => j.blobs[k][r.below(n as u64) as usize] = r.u64() as u8,
            2 => set_len(r, &mut j.blobs[k], n + 1),
            3 if n > 0 => {
                j.blobs[k].pop();
            }
            4 if !dict.is_empty() => {
                let m = r.pick(dict).wrapping_add(r.below(3)).wrapping_sub(1);
                if m < 200_000 {
                    set_len(r, &mut j.blobs[k], m as usize);
                }
            }
            5 => {
                let m = r.logu(1, 5000) as usize;
                set_len(r, &mut j.blobs[k], m);
            }
            6 if n > 0 && !dict.is_empty() => {
                let v = r.pick(dict);
                let w = r.pick(&[1usize, 2, 4, 8]).min(n);
                let q = r.below((n - w + 1) as u64) as usize;
                j.blobs[k][q..q + w].copy_from_slice(&v.to_le_bytes()[..w]);
            }
            7 if n > 0 => {
                let b = r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b'\n', b' ', b'a']);
                let (q, m) = (r.below(n as u64) as usize, r.below(16) as usize);
                for z in q..(q + m).min(n) {
                    j.blobs[k][z] = b;
                }
            }
            _ => {
                let m = j.blobs[k].len();
                let kind = r.below(gen::KINDS as u64) as u8;
                j.blobs[k] = gen::fill(m, kind, r.u64());
            }
        }
    }
    j
}

fn seeds(mode: &str, r: &mut Rng) -> Vec<Input> {
    let mut v = Vec::new();
    match mode {
        "kdf" | "params" => {
            for (k, t, rr, c, a, b) in [(32u64, 1u64, 4u64, 4u64, 0usize, 0usize), (32, 1, 8, 8, 32, 32), (48, 2, 5, 3, 37, 11), (97, 3, 7, 1, 8, 16), (0, 1, 3, 1, 5, 0), (32, 0, 4, 4, 8, 8), (32, 1, 2, 4, 8, 8), (32, 1, 4, 0, 8, 8), (32, 1, 3, 1, 300, 300), (200, 1, 100, 2, 1000, 64), (32, 40, 16, 4, 24, 24), (1000, 5, 33, 9, 100, 100), (16, 6, 12, 5, 61, 47), (33, 7, 37, 6, 51, 23)] {
                v.push(Input { nums: vec![k, t, rr, c], blobs: vec![r.bytes(a), r.bytes(b)] });
            }
            for n in [1usize, 9, 24, 64] {
                let p = r.bytes(n);
                v.push(Input { nums: vec![32, 1, 4, 4], blobs: vec![p.clone(), p] });
            }
            for x in [1u64 << 63, (1 << 63) + (1 << 62) + 16, u64::MAX] {
                v.push(Input { nums: vec![32, 1, x, 4], blobs: vec![r.bytes(8), vec![]] });
                v.push(Input { nums: vec![32, 1, 4, x], blobs: vec![vec![], r.bytes(8)] });
            }
        }
        "history" => {
            for _ in 0..24 {
                let n = r.range(20, 900) as usize;
                v.push(Input { nums: vec![], blobs: vec![r.bytes(n)] });
            }
            for a in 0..5u8 {
                let mut m = vec![a, a, 80, 0];
                m.extend(r.bytes(80));
                for _ in 0..3 {
                    m.extend([8, 0, 0, 0, 0]);
                }
                m.extend([8, 0, 2, 79, 0, 8, 0, 3, 0, 0]);
                v.push(Input { nums: vec![], blobs: vec![m] });
            }
        }
        "bmw" | "cube" | "mod" => {
            v.push(Input { nums: vec![], blobs: vec![vec![0; 32]] });
            v.push(Input { nums: vec![], blobs: vec![vec![0xff; 32]] });
            for _ in 0..8 {
                v.push(Input { nums: vec![], blobs: vec![r.bytes(32)] });
            }
        }
        _ => {
            for n in [0usize, 1, 32, 47, 55, 56, 64, 80, 120, 128, 213, 500, 743, 1000, 5003, 65_536, 100_003] {
                v.push(Input { nums: vec![], blobs: vec![r.bytes(n)] });
            }
        }
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if !matches!(refmodel::selftest(), Ok(n) if n >= 20) {
        eprintln!("reference model self-test failed");
        std::process::exit(50);
    }
    let secs: u64 = args[4].parse().expect("seconds");
    let seed: u64 = args[5].parse().expect("seed");
    engine::set_crash_path(&args[3]);
    case::quiet_panics();
    engine::crash_monitor();
    engine::watchdog();
    let mut f = Fuzz { mode: args[1].clone(), out: args[2].clone(), rep: engine::Report::new(), trail: args.get(6).cloned(), odd: vec![], log: VecDeque::new(), corpus: vec![], cov: vec![], pairs: vec![], mems: vec![], together: HashSet::new(), r: Rng::new(seed, 0x6D, 1), t0: Instant::now() };
    let end = f.t0 + Duration::from_secs(secs);
    let mut r = Rng::new(seed, 0x6D, 2);
    let mut first: VecDeque<Input> = seeds(&f.mode, &mut r).into();
    // what is still to be tried: first what follows from comparisons that are rarely equal
    let mut todo: [Vec<(Rc<Input>, Op)>; 2] = [Vec::new(), Vec::new()];
    let mut dict: Vec<u64> = Vec::new();
    // what each number was rarely equal to
    let mut nums: [Vec<u64>; 4] = Default::default();
    let mut known: HashSet<u64> = HashSet::new();
    let mut tried: HashSet<u64> = HashSet::new();
    let (mut n, mut made) = (0u64, 0u64);
    while Instant::now() < end {
        let q = r.below(10);
        let q = if q < 6 && !todo[0].is_empty() { 0 } else { 1 };
        let (i, seed) = if let Some(i) = first.pop_front() {
            (i, true)
        } else if !todo[q].is_empty() && !r.chance(1, 5) {
            // mostly the latest
            let m = todo[q].len() as u64;
            let k = if r.chance(2, 3) { m - 1 - r.below(m.min(64)) } else { r.below(m) };
            let (b, op) = todo[q].swap_remove(k as usize);
            made += 1;
            let i = apply(&mut r, &b, &op);
            (if r.chance(1, 8) { havoc(&mut r, &i, &dict, &nums) } else { i }, false)
        } else {
            let base = if f.corpus.is_empty() {
                seeds(&f.mode, &mut r).swap_remove(0)
            } else if r.chance(1, 2) {
                // the newest third more often
                let m = f.corpus.len() as u64;
                f.corpus[(m - 1 - r.below(m.div_ceil(3))) as usize].clone()
            } else {
                f.corpus[r.below(f.corpus.len() as u64) as usize].clone()
            };
            (havoc(&mut r, &base, &dict, &nums), false)
        };
        if !tried.insert(i.hash()) && r.chance(15, 16) {
            continue;
        }
        n += 1;
        let new = f.run(&i);
        if new || seed || r.chance(1, 40) {
            // what was this input compared with?
            let ix = Index::new(&i);
            let base = Rc::new(i);
            for q in 0..2 {
                let mut out = Vec::new();
                for p in f.pairs.iter().filter(|p| p.rare == (q == 0)) {
                    directed(&mut r, &base, &ix, p, &mut out);
                    for v in [p.from, p.to] {
                        if v > 3 && v < 1 << 40 && dict.len() < 4096 && known.insert(v) {
                            dict.push(v);
                        }
                    }
                }
                if q == 0 {
                    for (x, y) in &f.mems {
                        directed_mem(&mut r, &base, x, y, &mut out);
                    }
                }
                for o in &out {
                    match o {
                        Op::Num(k, v) if q == 0 && nums[*k].len() < 256 && !nums[*k].contains(v) => nums[*k].push(*v),
                        _ => {}
                    }
                }
                // at most so many, fairly chosen
                let cap = if new { 600 } else { 60 };
                while out.len() > cap {
                    let k = r.below(out.len() as u64) as usize;
                    out.swap_remove(k);
                }
                for o in out {
                    if todo[q].len() < 20_000 {
                        todo[q].push((base.clone(), o));
                    } else {
                        let k = r.below(20_000) as usize;
                        todo[q][k] = (base.clone(), o);
                    }
                }
            }
        }
    }
    f.rep.feat("guided: inputs tried", n);
    f.rep.feat("guided: inputs made from a comparison", made);
    f.finish();
}
