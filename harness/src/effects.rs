//! C14: the calls run under a seccomp filter that allows memory and thread management
//! only, with the environment block unreadable and the time-stamp counter (hence the
//! vDSO clocks) disabled.  Whatever a call does to or asks of the outside traps.
use crate::case::{Algo, Blob, Case, Outcome, Stage, ALL_SUMS, HOOKS, HOOK_CALLS};
use crate::conf::Ctx;
use crate::engine::{self, Report};
use crate::gen::{self, Rng};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};

static FD: AtomicI32 = AtomicI32::new(-1);
static CUR: AtomicPtr<Case> = AtomicPtr::new(std::ptr::null_mut());
static GUARD: AtomicUsize = AtomicUsize::new(0);
static ARMED: AtomicBool = AtomicBool::new(false);
static CLOCKS: AtomicU64 = AtomicU64::new(0);

fn say(kind: &str, n: u64) -> ! {
    // the report file was opened before the filter went up
    unsafe {
        let fd = FD.load(Relaxed);
        engine::dump_fd(fd, kind, n, CUR.load(Relaxed));
        libc::_exit(44)
    }
}
extern "C" fn on_sys(_s: i32, info: *mut libc::siginfo_t, _c: *mut libc::c_void) {
    // siginfo: si_signo, si_errno, si_code, pad, _call_addr(8), _syscall(4), _arch(4)
    let nr = unsafe { *((info as *const u8).add(24) as *const i32) };
    say("effect-syscall", nr as u64)
}
extern "C" fn on_segv(sig: i32, info: *mut libc::siginfo_t, c: *mut libc::c_void) {
    unsafe {
        let g = GUARD.load(Relaxed);
        let a = (*info).si_addr() as usize;
        if g != 0 && a >= g && a < g + 4096 {
            say("effect-environment", 0)
        }
        if (*info).si_code == 128 || a == 0 {
            // general protection: rdtsc with the counter disabled
            let uc = c as *const libc::ucontext_t;
            let rip = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as *const u8;
            if *rip == 0x0f && (*rip.add(1) == 0x31 || *rip.add(1) == 0x01) {
                say("effect-clock", 0)
            }
        }
        engine::dump_fd(FD.load(Relaxed), "crash-signal", sig as u64, CUR.load(Relaxed));
        libc::_exit(46)
    }
}

const ALLOWED: &[i64] = &[
    libc::SYS_brk, libc::SYS_mmap, libc::SYS_munmap, libc::SYS_mremap, libc::SYS_mprotect, libc::SYS_madvise,
    libc::SYS_futex, libc::SYS_clone, libc::SYS_clone3, libc::SYS_set_robust_list, libc::SYS_rseq, libc::SYS_exit,
    libc::SYS_exit_group, libc::SYS_sched_yield, libc::SYS_gettid, libc::SYS_getpid, libc::SYS_sigaltstack,
    libc::SYS_rt_sigreturn, libc::SYS_rt_sigprocmask, libc::SYS_restart_syscall, libc::SYS_membarrier, libc::SYS_sched_getaffinity, libc::SYS_tgkill,
];

fn arm(report_fd: i32) -> Result<(), String> {
    #[repr(C)]
    struct F(u16, u8, u8, u32);
    let mut p: Vec<F> = Vec::new();
    p.push(F(0x20, 0, 0, 4)); // arch
    p.push(F(0x15, 1, 0, 0xC000003E));
    p.push(F(0x06, 0, 0, 0x7fff0000));
    p.push(F(0x20, 0, 0, 0)); // nr
    for n in ALLOWED {
        p.push(F(0x15, 0, 1, *n as u32));
        p.push(F(0x06, 0, 0, 0x7fff0000));
    }
    // write(report_fd, ..)
    p.push(F(0x15, 0, 3, libc::SYS_write as u32));
    p.push(F(0x20, 0, 0, 16));
    p.push(F(0x15, 0, 1, report_fd as u32));
    p.push(F(0x06, 0, 0, 0x7fff0000));
    p.push(F(0x06, 0, 0, 0x00030000)); // trap
    #[repr(C)]
    struct Prog(u16, *const F);
    let prog = Prog(p.len() as u16, p.as_ptr());
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_sys as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut());
        sa.sa_sigaction = on_segv as *const () as usize;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
        if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 {
            return Err("no_new_privs".into());
        }
        // environment: unreadable
        extern "C" {
            static mut environ: *mut *mut libc::c_char;
        }
        let g = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        GUARD.store(g as usize, SeqCst);
        environ = g as *mut *mut libc::c_char;
        // clocks: the counter faults
        if libc::prctl(libc::PR_SET_TSC, libc::PR_TSC_SIGSEGV, 0, 0, 0) == 0 {
            CLOCKS.store(1, SeqCst);
        }
        if libc::prctl(libc::PR_SET_SECCOMP, 2, &prog as *const Prog as usize, 0, 0) != 0 {
            return Err(format!("seccomp: {}", std::io::Error::last_os_error()));
        }
    }
    ARMED.store(true, SeqCst);
    Ok(())
}
fn mxcsr() -> u32 {
    let mut v = 0u32;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut v) };
    v & 0xffc0 // control bits, not the sticky flags
}

/// Which of the signals 1..=64 the thread blocks.
fn sigmask() -> u64 {
    unsafe {
        let mut s: libc::sigset_t = std::mem::zeroed();
        libc::pthread_sigmask(libc::SIG_BLOCK, std::ptr::null(), &mut s);
        (1..=64).filter(|i| libc::sigismember(&s, *i) == 1).fold(0, |a, i| a | 1 << (i - 1))
    }
}

pub const PLANTS: [&str; 13] = ["none", "print", "print-partial", "eprint", "file", "env", "env-all", "setenv", "clock", "rdtsc", "random", "hook", "mask"];
/// Deliberate effects, to show on every run that the monitor sees them.
fn plant(which: &str) {
    match which {
        "print" => println!("x"),
        "print-partial" => print!("x"),
        "eprint" => eprintln!("x"),
        "file" => {
            let _ = std::fs::read("/etc/hostname");
        }
        "env" => {
            let _ = std::hint::black_box(std::env::var("LYRA2"));
        }
        "env-all" => {
            let _ = std::hint::black_box(std::env::vars_os().count());
        }
        "setenv" => std::env::set_var("LYRA2_X", "1"),
        "clock" => {
            let _ = std::hint::black_box(std::time::Instant::now());
        }
        "rdtsc" => {
            let _ = std::hint::black_box(unsafe { std::arch::x86_64::_rdtsc() });
        }
        "random" => {
            use std::hash::BuildHasher;
            let _ = std::hint::black_box(std::collections::hash_map::RandomState::new().hash_one(1));
        }
        "mask" => unsafe {
            let mut s: libc::sigset_t = std::mem::zeroed();
            libc::sigemptyset(&mut s);
            libc::sigaddset(&mut s, libc::SIGUSR1);
            libc::pthread_sigmask(libc::SIG_BLOCK, &s, std::ptr::null_mut());
        },
        "hook" => std::panic::set_hook(Box::new(|_| {})),
        _ => {}
    }
}

/// Runs in its own process; writes its result to the (pre-opened) out file itself.
pub fn effects(ctx: &Ctx, out: &str, planted: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let mut rep = Report::new();
    let mut r = Rng::new(ctx.seed, 0xC14, 0);
    let mut cases: Vec<Case> = Vec::new();
    // the very first call of the process differs from seed to seed
    let first = (ctx.seed % 6) as usize;
    for i in 0..6usize {
        let c = match (first + i) % 6 {
            5 => gen::kdf_bulk(ctx.seed, 1),
            a => Case::sum(ALL_SUMS[a], r.bytes(80)),
        };
        cases.push(c);
    }
    cases.extend(ctx.extra_valid());
    for (a, m) in gen::rare().iter().skip(ctx.seed as usize % 3).step_by(3) {
        cases.push(Case::sum(*a, m.clone()));
    }
    for b in gen::messages_systematic(ctx.seed, 700, false).into_iter().step_by(3) {
        cases.push(Case::Sum(ALL_SUMS[cases.len() % 5], b));
    }
    for n in [4096usize, 100_000, 1 << 20, 9 << 20] {
        for a in &ALL_SUMS[..4] {
            cases.push(Case::Sum(*a, Blob::make(n, 2, 1)));
        }
    }
    let mut sys = gen::kdf_systematic(ctx.seed, false);
    sys.retain(|c| if let Case::Kdf(p, ..) = c { p.r.saturating_mul(p.c).saturating_mul(p.t) < 400_000 } else { true });
    for c in sys.into_iter().step_by(if ctx.thorough { 1 } else { 2 }) {
        cases.push(c);
    }
    for i in 0..ctx.n(60_000, 600_000) {
        cases.push(match i % 4 {
            0 => gen::kdf_bulk(ctx.seed, i),
            1 if HOOKS => {
                let st = r.pick(&[Stage::Bmw, Stage::Cube, Stage::Mod]);
                Case::Stage(st, Blob::raw(gen::stage_input(ctx.seed, i, st)))
            }
            2 => Case::Sum(Algo::L2, Blob::make(r.below(744) as usize, 2, i)),
            _ => Case::Sum(r.pick(&ALL_SUMS[..4]), gen::message_bulk(ctx.seed, i)),
        });
    }
    rep.hashes.reserve(cases.len() + 8);
    let hooks_before = HOOK_CALLS.load(Relaxed);
    let path = std::ffi::CString::new(out).unwrap();
    let fd = unsafe { libc::open(path.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY, 0o644) };
    FD.store(fd, SeqCst);
    let probe_panic = gen::refused(&mut Rng::new(1, 2, 3));
    let mx = mxcsr();
    let mask = sigmask();
    // one thread per function and one for everything, refused calls included
    let mut busy: Vec<(Vec<Case>, u64)> = Vec::new();
    for a in ALL_SUMS {
        busy.push(((0..50u64).map(|i| Case::Sum(a, Blob::make(20 + i as usize, 2, i))).collect(), ctx.n(60, 600)));
    }
    busy.push(((0..50).map(|i| gen::kdf_bulk(ctx.seed, i)).collect(), ctx.n(60, 600)));
    busy.push(((0..300).map(|i| match i % 3 {
        0 => gen::refused(&mut r),
        1 => gen::kdf_bulk(ctx.seed, 1000 + i),
        _ => Case::Sum(ALL_SUMS[i as usize % 5], Blob::make(i as usize, 2, i)),
    }).collect(), 3));
    for i in 0..ctx.n(40, 400) {
        busy.push((vec![if i % 2 == 0 { gen::kdf_bulk(ctx.seed, 5000 + i) } else { Case::Sum(ALL_SUMS[i as usize % 5], Blob::make(80, 2, i)) }], 1));
    }
    for p in &busy {
        rep.hashes.extend(p.0.iter().map(|c| c.hash()));
    }
    // the first thread of a process reads the environment
    let _ = std::thread::spawn(|| std::hint::black_box(1)).join();
    let wall0 = t0.elapsed().as_secs_f64();
    if let Err(e) = arm(fd) {
        eprintln!("cannot arm: {}", e);
        return 47;
    }
    for (i, c) in cases.iter().enumerate() {
        CUR.store(c as *const Case as *mut Case, Relaxed);
        let o = c.exec();
        CUR.store(std::ptr::null_mut(), Relaxed);
        if i == 1000 {
            plant(planted);
        }
        if let Outcome::Bytes(_) = o {
            rep.evals += 1;
        }
        rep.hashes.push(c.hash());
    }
    // threads that call for a while and end under the filter: whatever their calls left in
    // thread-locals is dropped there
    let ended = std::thread::scope(|s| {
        let mut n = 0u64;
        for part in &busy {
            let h = s.spawn(|| {
                let mut n = 0u64;
                for _ in 0..part.1 {
                    for c in &part.0 {
                        CUR.store(c as *const Case as *mut Case, Relaxed);
                        let _ = c.exec();
                        n += 1;
                    }
                }
                n
            });
            n += h.join().unwrap_or(0);
        }
        n
    });
    CUR.store(std::ptr::null_mut(), Relaxed);
    rep.evals += ended;
    rep.feat("calls on threads that ended under the filter", ended);
    // anything left in the standard streams' buffers would be output too
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
    if sigmask() != mask {
        rep.violation("effect-signal-mask", "the calls changed the thread's signal mask".into(), vec![]);
    }
    if mxcsr() != mx {
        rep.violation("effect-fpu-mode", "the calls changed the floating-point control register".into(), vec![]);
    }
    // is the panic hook still ours?
    let o = probe_panic.exec();
    if !(matches!(o, Outcome::Panic(_)) && HOOK_CALLS.load(Relaxed) > hooks_before) {
        rep.violation("effect-panic-hook", "the process's panic hook was replaced by the calls".into(), vec![]);
    }
    rep.feat("calls under the system-call filter", cases.len() as u64);
    rep.feat("clock trap active", CLOCKS.load(Relaxed));
    rep.feat("system calls allowed", ALLOWED.len() as u64);
    for i in [0usize, 3, 2000, 9000] {
        if i < cases.len() {
            rep.sample(|| cases[i].brief());
        }
    }
    let j = rep.json("effects", wall0);
    unsafe {
        let mut off = 0;
        while off < j.len() {
            let n = libc::write(fd, j.as_ptr().add(off) as *const libc::c_void, j.len() - off);
            if n <= 0 {
                libc::_exit(48);
            }
            off += n as usize;
        }
        libc::_exit(if rep.violations.is_empty() { 0 } else { 1 })
    }
}
