//! Runs indexed workloads on all cores, watches every call for crashes, hangs and
//! deadlocks, and writes down what was observed.
use crate::case::{Case, Expect, Outcome};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Violation {
    pub sig: String,
    pub what: String,
    pub cases: Vec<String>,
}

#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub hashes: Vec<u64>,
    pub feats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub complete: bool,
}
impl Report {
    pub fn new() -> Report {
        Report { complete: true, ..Default::default() }
    }
    pub fn feat(&mut self, k: &str, n: u64) {
        if let Some(v) = self.feats.get_mut(k) {
            *v += n;
        } else {
            self.feats.insert(k.to_string(), n);
        }
    }
    pub fn feat_max(&mut self, k: &str, n: u64) {
        let v = self.feats.entry(format!("max {}", k)).or_insert(0);
        *v = (*v).max(n);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            self.samples.push(s());
        }
    }
    pub fn violation(&mut self, sig: &str, what: String, cases: Vec<String>) {
        if self.violations.iter().filter(|v| v.sig == sig).count() < 2 && self.violations.len() < 60 {
            self.violations.push(Violation { sig: sig.into(), what, cases });
        }
        self.feat(&format!("violations {}", sig), 1);
    }
    pub fn merge(&mut self, o: Report) {
        self.evals += o.evals;
        self.hashes.extend(o.hashes);
        for (k, n) in o.feats {
            if k.starts_with("max ") {
                let v = self.feats.entry(k).or_insert(0);
                *v = (*v).max(n);
            } else {
                *self.feats.entry(k).or_insert(0) += n;
            }
        }
        for s in o.samples {
            if self.samples.len() < 24 {
                self.samples.push(s);
            }
        }
        for v in o.violations {
            if self.violations.iter().filter(|x| x.sig == v.sig).count() < 3 {
                self.violations.push(v);
            }
        }
        self.complete &= o.complete;
    }
    /// Observe one call and compare with the model.
    pub fn observe(&mut self, case: &Case, got: &Outcome, want: &Expect, sig: &str) -> bool {
        self.evals += 1;
        self.hashes.push(case.hash());
        let ok = got.same(want);
        if !ok {
            self.violation(sig, format!("{} returned {} but {} is required", case.brief(), got.text(), want.text()), vec![case.line()]);
        }
        ok
    }
    pub fn json(&self, mode: &str, wall: f64) -> String {
        let mut h = self.hashes.clone();
        h.sort_unstable();
        h.dedup();
        let distinct = h.len();
        let mut o = String::new();
        let _ = write!(o, "{{\"mode\":{},\"complete\":{},\"evaluations\":{},\"distinct\":{},\"wall_s\":{:.3},\"hooks\":{},", q(mode), self.complete, self.evals, distinct, wall, crate::case::HOOKS);
        o.push_str("\"features\":{");
        o.push_str(&self.feats.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"samples\":[");
        o.push_str(&self.samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(","));
        o.push_str("],\"violations\":[");
        o.push_str(
            &self
                .violations
                .iter()
                .map(|v| format!("{{\"sig\":{},\"what\":{},\"cases\":[{}]}}", q(&v.sig), q(&v.what), v.cases.iter().map(|c| q(c)).collect::<Vec<_>>().join(",")))
                .collect::<Vec<_>>()
                .join(","),
        );
        o.push_str("]}\n");
        o
    }
}
pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---- per-thread call slots, read by the watchdog and the crash handler -------------

pub const SLOTS: usize = 4096;
pub struct Slot {
    pub seq: AtomicU64,
    pub case: AtomicPtr<Case>,
    pub tid: AtomicI32,
    pub pthread: AtomicU64,
    /// CPU seconds the current call may take; 0: the default
    pub budget: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot { seq: AtomicU64::new(0), case: AtomicPtr::new(std::ptr::null_mut()), tid: AtomicI32::new(0), pthread: AtomicU64::new(0), budget: AtomicU64::new(0) };
pub static TABLE: [Slot; SLOTS] = [EMPTY; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MY: Cell<usize> = const { Cell::new(usize::MAX) };
}
pub fn my_slot() -> &'static Slot {
    let i = MY.with(|m| {
        if m.get() == usize::MAX {
            let i = NEXT_SLOT.fetch_add(1, Relaxed) % SLOTS;
            m.set(i);
            unsafe {
                TABLE[i].tid.store(libc::syscall(libc::SYS_gettid) as i32, Relaxed);
                TABLE[i].pthread.store(libc::pthread_self() as u64, Relaxed);
            }
        }
        m.get()
    });
    &TABLE[i]
}
/// Run `f`, which performs the real call for `case`, under watch.
pub fn watched<T>(case: &Case, f: impl FnOnce() -> T) -> T {
    let s = my_slot();
    s.seq.fetch_add(1, Relaxed);
    s.case.store(case as *const Case as *mut Case, Release);
    let r = f();
    s.case.store(std::ptr::null_mut(), Release);
    r
}
pub fn watched_for<T>(case: &Case, cpu_s: u64, f: impl FnOnce() -> T) -> T {
    my_slot().budget.store(cpu_s, Relaxed);
    let r = watched(case, f);
    my_slot().budget.store(0, Relaxed);
    r
}
pub fn call(case: &Case) -> Outcome {
    watched(case, || case.exec())
}
pub fn call_cap(case: &Case, extra: usize) -> Outcome {
    watched(case, || case.exec_cap(extra))
}

// ---- injected delays: a timer signal parks a thread at an arbitrary instruction of a call

thread_local! {
    static PARK_US: Cell<u64> = const { Cell::new(0) };
    static PARKED: Cell<u64> = const { Cell::new(0) };
}
extern "C" fn park(_: libc::c_int) {
    let i = MY.with(|m| m.get());
    if i >= SLOTS || TABLE[i].case.load(Relaxed).is_null() {
        return; // the call is over already
    }
    PARKED.with(|p| p.set(p.get() + 1));
    let us = PARK_US.with(|p| p.get());
    unsafe {
        let errno = *libc::__errno_location();
        let t = libc::timespec { tv_sec: 0, tv_nsec: (us.min(900_000) * 1000) as libc::c_long };
        libc::nanosleep(&t, std::ptr::null_mut());
        *libc::__errno_location() = errno;
    }
}
pub struct Parker(libc::timer_t);
impl Parker {
    pub fn new() -> Option<Parker> {
        static ONCE: std::sync::Once = std::sync::Once::new();
        my_slot();
        unsafe {
            ONCE.call_once(|| {
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_sigaction = park as *const () as usize;
                sa.sa_flags = libc::SA_RESTART;
                libc::sigaction(libc::SIGURG, &sa, std::ptr::null_mut());
            });
            let mut ev: libc::sigevent = std::mem::zeroed();
            ev.sigev_notify = libc::SIGEV_THREAD_ID;
            ev.sigev_signo = libc::SIGURG;
            ev.sigev_notify_thread_id = libc::syscall(libc::SYS_gettid) as i32;
            let mut t: libc::timer_t = std::ptr::null_mut();
            if libc::timer_create(libc::CLOCK_MONOTONIC, &mut ev, &mut t) != 0 {
                return None;
            }
            Some(Parker(t))
        }
    }
    /// In `ns` nanoseconds, park this thread for `us` microseconds if it is in a call then.
    pub fn arm(&self, ns: u64, us: u64) {
        PARK_US.with(|p| p.set(us));
        let mut it: libc::itimerspec = unsafe { std::mem::zeroed() };
        it.it_value.tv_nsec = ns.clamp(1, 900_000_000) as libc::c_long;
        unsafe {
            libc::timer_settime(self.0, 0, &it, std::ptr::null_mut());
        }
    }
    pub fn parked(&self) -> u64 {
        PARKED.with(|p| p.get())
    }
}
impl Drop for Parker {
    fn drop(&mut self) {
        unsafe {
            libc::timer_delete(self.0);
        }
    }
}

static mut CRASH_PATH: [u8; 512] = [0; 512];
pub fn set_crash_path(p: &str) {
    unsafe {
        let dst = std::ptr::addr_of_mut!(CRASH_PATH) as *mut u8;
        std::ptr::copy_nonoverlapping(p.as_ptr(), dst, p.len().min(500));
    }
}
struct Raw {
    fd: i32,
    buf: [u8; 4096],
    n: usize,
}
impl Raw {
    fn flush(&mut self) {
        unsafe {
            libc::write(self.fd, self.buf.as_ptr() as *const libc::c_void, self.n);
        }
        self.n = 0;
    }
    fn put(&mut self, b: u8) {
        if self.n == self.buf.len() {
            self.flush();
        }
        self.buf[self.n] = b;
        self.n += 1;
    }
    fn str(&mut self, s: &str) {
        for b in s.bytes() {
            self.put(b)
        }
    }
    fn num(&mut self, mut v: u64) {
        let mut d = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            d[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        for k in i..20 {
            self.put(d[k])
        }
    }
    fn blob(&mut self, b: &crate::case::Blob) {
        if b.v.is_empty() {
            return self.str("-");
        }
        if let Some((k, s)) = b.recipe {
            self.str("@");
            self.num(b.v.len() as u64);
            self.str(":");
            self.num(k as u64);
            self.str(":");
            self.num(s);
            return;
        }
        for x in &b.v {
            self.put(b"0123456789abcdef"[(x >> 4) as usize]);
            self.put(b"0123456789abcdef"[(x & 15) as usize]);
        }
    }
    fn case(&mut self, c: &Case) {
        match c {
            Case::Sum(a, b) => {
                self.str("sum ");
                self.str(a.name());
                self.str(" ");
                self.blob(b);
            }
            Case::Stage(a, b) => {
                self.str("stage ");
                self.str(a.name());
                self.str(" ");
                self.blob(b);
            }
            Case::Kdf(p, a, b) => {
                self.str("kdf ");
                for x in [p.k, p.t, p.r, p.c] {
                    self.num(x);
                    self.str(" ");
                }
                self.blob(a);
                self.str(" ");
                self.blob(b);
            }
        }
        self.str("\n");
    }
}
/// Writes `# kind n` and the current call of the thread; allocates nothing.
pub fn dump(kind: &str, n: u64, case: *const Case) {
    unsafe {
        let fd = libc::open(std::ptr::addr_of!(CRASH_PATH) as *const libc::c_char, libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY, 0o644);
        dump_fd(fd, kind, n, case);
    }
}
/// # Safety
/// `case` is null or valid.
pub unsafe fn dump_fd(fd: i32, kind: &str, n: u64, case: *const Case) {
    {
        let mut r = Raw { fd, buf: [0; 4096], n: 0 };
        r.str("# ");
        r.str(kind);
        r.str(" ");
        r.num(n);
        r.str("\n");
        if !case.is_null() {
            r.case(&*case);
        }
        r.flush();
    }
}
extern "C" fn on_crash(sig: libc::c_int) {
    let s = MY.with(|m| m.get());
    let c = if s < SLOTS { TABLE[s].case.load(Acquire) } else { std::ptr::null_mut() };
    dump("crash-signal", sig as u64, c);
    unsafe { libc::_exit(if c.is_null() { 45 } else { 42 }) }
}
pub fn crash_monitor() {
    if std::env::var_os("HARNESS_NOSIG").is_some() {
        return;
    }
    unsafe {
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_crash as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_RESETHAND;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

pub fn thread_cpu() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}
fn cpu_of(p: u64) -> Option<f64> {
    unsafe {
        let mut c: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(p as libc::pthread_t, &mut c) != 0 {
            return None;
        }
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(c, &mut t) != 0 {
            return None;
        }
        Some(t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9)
    }
}
pub static CPU_BUDGET_S: AtomicU64 = AtomicU64::new(90);
static STOP_DOG: AtomicBool = AtomicBool::new(false);

/// A call that burns more CPU than any call of the workload legitimately needs is a
/// hang; a call whose thread sleeps, using no CPU at all, for 40 s is a deadlock.
/// CPU time and scheduler state are what is judged, not elapsed time.
pub fn watchdog() {
    std::thread::spawn(|| {
        let mut last = vec![(0u64, 0f64, 0u32); SLOTS];
        while !STOP_DOG.load(Relaxed) {
            std::thread::sleep(Duration::from_millis(500));
            let budget = CPU_BUDGET_S.load(Relaxed) as f64;
            for i in 0..NEXT_SLOT.load(Relaxed).min(SLOTS) {
                let s = &TABLE[i];
                let c = s.case.load(Acquire);
                let seq = s.seq.load(Relaxed);
                if c.is_null() {
                    last[i] = (seq, 0.0, 0);
                    continue;
                }
                let Some(cpu) = cpu_of(s.pthread.load(Relaxed)) else { continue };
                if last[i].0 != seq || last[i].1 == 0.0 {
                    last[i] = (seq, cpu, 0);
                    continue;
                }
                let own = s.budget.load(Relaxed);
                if cpu - last[i].1 > if own > 0 { own as f64 } else { budget } {
                    dump("hang-cpu-seconds", (cpu - last[i].1) as u64, c);
                    unsafe { libc::_exit(43) }
                }
                let stat = std::fs::read_to_string(format!("/proc/self/task/{}/stat", s.tid.load(Relaxed))).unwrap_or_default();
                let state = stat.rsplit(')').next().and_then(|x| x.trim().chars().next()).unwrap_or('?');
                if state == 'S' && cpu - last[i].1 < 0.05 {
                    last[i].2 += 1;
                    if last[i].2 >= 80 {
                        dump("deadlock-samples", last[i].2 as u64, c);
                        unsafe { libc::_exit(43) }
                    }
                } else {
                    last[i].2 = 0;
                }
            }
        }
    });
}

pub fn threads() -> usize {
    std::env::var("HARNESS_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16))
}

/// f(local report, i) for i in 0..n, in chunks of consecutive indices per thread.
pub fn run_indexed<F: Fn(&mut Report, u64) + Sync>(rep: &mut Report, n: u64, chunk: u64, limit: Duration, f: F) -> u64 {
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let start = Instant::now();
    let all = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| {
                let mut l = Report::new();
                loop {
                    let a = next.fetch_add(chunk, Relaxed);
                    if a >= n {
                        break;
                    }
                    if start.elapsed() > limit {
                        l.complete = false;
                        break;
                    }
                    for i in a..(a + chunk).min(n) {
                        f(&mut l, i);
                    }
                    done.fetch_add((a + chunk).min(n) - a, Relaxed);
                }
                all.lock().unwrap().push(l);
            });
        }
    });
    for l in all.into_inner().unwrap() {
        rep.merge(l);
    }
    done.load(Relaxed)
}
