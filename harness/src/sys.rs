//! Monitors over histories, threads, resources and the boundary to the system.
use crate::alloc;
use crate::case::{Algo, Blob, Case, Expect, Outcome, Stage, ALL_SUMS, CHAINS, HOOKS};
use crate::conf::Ctx;
use crate::engine::{self, call, call_cap, run_indexed, thread_cpu, Report};
use crate::gen::{self, Rng};
use crate::refmodel::KdfParams;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Barrier, Mutex};
use std::time::Instant;

// ------------------------------------------------------------------ C09 work ----------

pub fn work(ctx: &Ctx, rep: &mut Report) {
    engine::CPU_BUDGET_S.store(25, Relaxed);
    let mut r = Rng::new(ctx.seed, 0xC09, 0);
    let mut cases: Vec<Case> = Vec::new();
    let k = |k: u64, t: u64, rr: u64, c: u64, a: usize, b: usize| Case::Kdf(KdfParams { k, t, r: rr, c }, Blob::make(a, 2, 1 + a as u64), Blob::make(b, 2, 2 + b as u64));
    for rr in 3..=if ctx.thorough { 16_000 } else { 5000u64 } {
        cases.push(k(32, 1, rr, 1, 8, 8));
        cases.push(k(32, 2, rr, 1, 0, 0));
        if rr < 300 || rr % 16 == 5 {
            cases.push(k(32, 3, rr, 1, 16, 8));
            cases.push(k(32, 4, rr, 2, 16, 8));
        }
    }
    for e in 12..=if ctx.thorough { 20 } else { 17u32 } {
        for d in [-2i64, -1, 0, 1, 2, 3] {
            let x = ((1i64 << e) + d) as u64;
            cases.push(k(32, 1, x, 1, 8, 8));
            cases.push(k(32, 2, x, 1, 8, 8));
            cases.push(k(32, 1, 3, x, 8, 8));
            cases.push(k(32, x, 3, 1, 8, 8));
            cases.push(k(x, 1, 4, 4, 8, 8));
        }
        let x = r.range(1 << e, 2 << e);
        cases.push(k(32, 1, x, 1, 8, 8));
        cases.push(k(32, 3, x, 1, 8, 8));
        cases.push(k(32, 2, 5, x, 8, 8));
        // big input and big matrix together
        let n = 1usize << (e + 4);
        let rows = (2 * n as u64) / 96 + 8;
        cases.push(k(32, 1, rows, 1, n, 0));
        cases.push(k(32, 1, rows, 1, 0, n));
        cases.push(k(32, 2, rows / 4 + 4, 4, n / 2, n / 2));
        cases.push(k(32, 1, 3, rows / 3 + 3, n, 8));
        // big matrix, small everything else
        cases.push(k(8, 1, 1 << (e - 6), 1 << 6, 0, 0));
    }
    for kk in [1u64 << 16, (1 << 18) + 7, 1 << 20, (1 << 22) + 95, 1 << 23] {
        cases.push(k(kk, 1, 3, 2, 8, 8));
    }
    for a in [Algo::Re, Algo::V2, Algo::V3, Algo::Z] {
        for n in [0usize, 80, 1000, 10_000, 65_536, 200_000, 1 << 20, 1_500_001, 4 << 20, 16 << 20] {
            for kind in [0u8, 2] {
                cases.push(Case::Sum(a, Blob::make(n, kind, 3)));
            }
        }
    }
    for n in [0usize, 32, 100, 500, 743] {
        cases.push(Case::Sum(Algo::L2, Blob::make(n, 2, 3)));
    }
    for _ in 0..ctx.n(20_000, 200_000) {
        cases.push(gen::kdf_bulk(ctx.seed, r.u64() >> 8));
    }
    rep.feat("calls from the guided run", ctx.extra.len() as u64);
    cases.extend(ctx.extra_valid());
    cases.sort_by_key(|c| u64::MAX - c.weight());
    run_indexed(rep, cases.len() as u64, 1, ctx.limit, |l, i| {
        let c = &cases[i as usize];
        let mut best = f64::MAX;
        let (mut imp, mut refc) = (0.0, 0.0);
        let mut refused = false;
        for _ in 0..3 {
            let t0 = thread_cpu();
            let want = std::hint::black_box(c.expect());
            let t1 = thread_cpu();
            let got = std::hint::black_box(call(c));
            let t2 = thread_cpu();
            l.evals += 1;
            let _ = want;
            refused |= matches!(got, Outcome::Panic(_));
            imp = t2 - t1;
            refc = t1 - t0;
            best = best.min(imp / refc.max(0.0005));
            if imp <= 0.020 || imp <= 40.0 * refc {
                best = 0.0;
                break;
            }
        }
        l.hashes.push(c.hash());
        l.feat_max("call CPU ms", (imp * 1e3) as u64);
        l.feat_max("CPU ratio to model x100 (calls over 5 ms)", if imp > 0.005 { (imp / refc.max(1e-6) * 100.0) as u64 } else { 0 });
        l.feat(if imp > 0.020 { "calls judged on CPU ratio" } else { "calls under 20 ms CPU" }, 1);
        if let Case::Kdf(p, ..) = c {
            l.feat_max("rows", p.r);
            l.feat_max("cols", p.c);
            l.feat_max("time cost", p.t);
            l.feat(if p.r.is_power_of_two() { "rows power of two" } else { "rows not power of two" }, 1);
        }
        if refused {
            l.violation("accepted-call-did-not-finish", format!("{} is valid but panicked instead of finishing", c.brief()), vec![c.line()]);
        }
        if best > 0.0 {
            l.violation("work", format!("{} took {:.3} s of CPU, {:.0} times the {:.4} s the linear model takes, in each of 3 runs", c.brief(), imp, best, refc), vec![c.line()]);
        }
        if i % 1501 == 2 {
            l.sample(|| format!("{}: {:.6} s CPU, model {:.6} s", c.brief(), imp, refc));
        }
    });
}

// --------------------------------------------------------------- C10 histories --------

struct InUnwind<'a>(&'a Case, &'a Mutex<Option<Outcome>>);
impl Drop for InUnwind<'_> {
    fn drop(&mut self) {
        if std::thread::panicking() {
            let o = self.0.exec();
            *self.1.lock().unwrap_or_else(|e| e.into_inner()) = Some(o);
        }
    }
}

/// Calls made while the thread is being torn down, from the destructor of a thread-local.
struct Late(Vec<Case>, std::sync::Arc<Mutex<Vec<(Case, Outcome)>>>);
impl Drop for Late {
    fn drop(&mut self) {
        for c in self.0.drain(..) {
            let o = engine::call(&c);
            self.1.lock().unwrap_or_else(|e| e.into_inner()).push((c, o));
        }
    }
}
thread_local! {
    static LATE1: std::cell::RefCell<Option<Late>> = const { std::cell::RefCell::new(None) };
    static LATE2: std::cell::RefCell<Option<Late>> = const { std::cell::RefCell::new(None) };
}

fn fresh_case(r: &mut Rng, seed: u64) -> Case {
    match r.below(10) {
        0..=2 => gen::kdf_bulk(seed, r.u64() >> 8),
        3 => {
            let n = r.below(744) as usize;
            Case::sum(Algo::L2, r.bytes(n))
        }
        4 if HOOKS => {
            let st = r.pick(&[Stage::Bmw, Stage::Cube, Stage::Mod]);
            Case::Stage(st, Blob::raw(gen::stage_input(seed, r.u64() >> 8, st)))
        }
        _ => Case::Sum(r.pick(&ALL_SUMS[..4]), gen::message_bulk(seed, r.u64() >> 8)),
    }
}
fn vary(r: &mut Rng, c: &Case) -> Case {
    let j = r.below(16);
    match c {
        Case::Sum(a, b) => {
            let v = gen::mutate(r, &b.v, j);
            let a = if r.chance(1, 4) { r.pick(&ALL_SUMS) } else { *a };
            if a == Algo::L2 && v.len() > 743 { c.clone() } else { Case::sum(a, v) }
        }
        Case::Kdf(..) => gen::kdf_mutate(r, c, j),
        Case::Stage(s, b) => {
            let mut v = gen::mutate(r, &b.v, j);
            v.resize(32, 7);
            Case::Stage(*s, Blob::raw(v))
        }
    }
}

pub fn history(ctx: &Ctx, rep: &mut Report) {
    // A: many histories of mixed calls; memory handed out by the allocator is never clean
    let n_hist = ctx.n(2400, 20_000);
    let steps = 600u64;
    alloc::POISON.store(true, SeqCst);
    run_indexed(rep, n_hist, 1, ctx.limit, |l, h| {
        alloc::PATTERN.store([0xA5u8, 0xff, 0x00, 0x5a, 0x80, 0x01][(h % 6) as usize], Relaxed);
        let run = || {
            let mut l = Report::new();
            let mut r = Rng::new(ctx.seed, 0x4157, h);
            let mut past: Vec<(Case, Expect)> = Vec::new();
            let mut log: Vec<String> = Vec::new();
            let mut after: Option<Case> = None;
            for s in 0..steps {
                let (c, kind) = match r.below(10) {
                    // right after a refused call: the same shape, or one as large, now valid
                    _ if after.is_some() && r.chance(3, 4) => (after.take().unwrap(), "after a refused call"),
                    0 | 1 if !past.is_empty() => (past[r.below(past.len() as u64) as usize].0.clone(), "repeat"),
                    2..=4 if !past.is_empty() => {
                        let i = past.len() - 1 - r.below(past.len().min(4) as u64) as usize;
                        (vary(&mut r, &past[i].0.clone()), "neighbour")
                    }
                    5 if r.chance(1, 2) => (gen::refused(&mut r), "refused"),
                    _ => (fresh_case(&mut r, ctx.seed ^ h), "fresh"),
                };
                let want = past.iter().rev().find(|p| p.0 == c).map(|p| p.1.clone()).unwrap_or_else(|| c.expect());
                let extra = if r.chance(1, 3) { r.below(300) as usize } else { 0 };
                let got = if kind == "refused" && r.chance(1, 2) {
                    // another call while the panic unwinds
                    let inner = fresh_case(&mut r, ctx.seed ^ h);
                    let slot = Mutex::new(None);
                    let o = engine::watched(&c, || {
                        crate::case::guarded(|| {
                            let _d = InUnwind(&inner, &slot);
                            c.prepare().run()
                        })
                    });
                    if let Some(x) = slot.into_inner().unwrap_or_else(|e| e.into_inner()) {
                        l.feat("call during unwinding", 1);
                        let w = inner.expect();
                        if !l.observe(&inner, &x, &w, "history-unwinding") {
                            log.push(c.line());
                        }
                    }
                    o
                } else {
                    call_cap(&c, extra)
                };
                l.feat(&format!("step {}", kind), 1);
                log.push(c.line());
                if log.len() > 40 {
                    log.remove(0);
                }
                l.evals += 1;
                l.hashes.push(c.hash() ^ (s << 48) ^ h);
                if !got.same(&want) {
                    l.violation("history", format!("step {} of history {}: {} returned {} but {} is required", s, h, c.brief(), got.text(), want.text()), log.clone());
                }
                if past.len() > 96 {
                    past.remove(0);
                }
                after = None;
                if kind != "refused" {
                    past.push((c, want));
                } else if let Case::Kdf(p, a, b) = &c {
                    let (rr, cc) = (p.r.clamp(3, 500), p.c.clamp(1, 40));
                    let fit = |v: &[u8]| v[..v.len().min(gen::capacity(rr, cc) as usize / 2)].to_vec();
                    after = Some(match r.below(3) {
                        0 => Case::kdf(p.k.min(300), p.t.clamp(1, 3), rr, cc, fit(&a.v), fit(&b.v)),
                        1 => Case::kdf(32, 1, rr, cc, r.bytes(16), vec![]),
                        _ => Case::kdf(32, 1, r.logu(3, 500), r.logu(1, 24), r.bytes(8), r.clone().bytes(8)),
                    });
                }
            }
            if h % 97 == 1 {
                let tail = log[log.len() - 3..].join(" ; ");
                l.sample(|| format!("history {} of {} steps, ending: {}", h, steps, if tail.len() > 400 { &tail[..400] } else { &tail }));
            }
            l
        };
        // on a thread that lives on, or on one of its own
        let o = if h % 3 == 0 { std::thread::scope(|s| s.spawn(run).join().unwrap()) } else { run() };
        l.merge(o);
    });
    alloc::POISON.store(false, SeqCst);
    rep.feat("allocations poisoned", alloc::POISONED.load(Relaxed));
    // C: the last calls of a thread, made by destructors of thread-locals that are older or
    // younger than anything the calls themselves may keep
    run_indexed(rep, ctx.n(3000, 30_000), 16, ctx.limit, |l, i| {
        let mut r = Rng::new(ctx.seed, 0x7154, i);
        let before: Vec<Case> = (0..r.below(3)).map(|_| fresh_case(&mut r, ctx.seed)).collect();
        let mut late = || -> Vec<Case> {
            (0..1 + r.below(3)).map(|_| if r.chance(1, 6) { gen::refused(&mut r) } else if !before.is_empty() && r.chance(1, 3) { before[0].clone() } else { fresh_case(&mut r, ctx.seed) }).collect()
        };
        let (a, b) = (late(), late());
        let out = std::sync::Arc::new(Mutex::new(Vec::new()));
        let (o1, o2) = (out.clone(), out.clone());
        let early = before.clone();
        let _ = std::thread::spawn(move || {
            LATE1.with(|x| *x.borrow_mut() = Some(Late(a, o1)));
            for c in &early {
                let _ = call(c);
            }
            LATE2.with(|x| *x.borrow_mut() = Some(Late(b, o2)));
        })
        .join();
        let done = std::mem::take(&mut *out.lock().unwrap_or_else(|e| e.into_inner()));
        for (c, got) in done {
            l.feat("call from a thread-local's destructor", 1);
            l.observe(&c, &got, &c.expect(), "history-teardown");
        }
    });
    // B: long runs of one function on one thread (counters, growing or wrapping state)
    let per = ctx.n(70_000, 700_000);
    let fns: Vec<u64> = (0..8).collect();
    run_indexed(rep, fns.len() as u64 , 1, ctx.limit, |l, f| {
        // a few arguments with known results, over and over, and a fresh one now and then
        let mk = |i: u64| -> Case {
            match f {
                0..=4 => Case::Sum(ALL_SUMS[f as usize], Blob::raw(gen::header(ctx.seed, f, i as u32))),
                5 => Case::kdf(32, 1, 4, 2, gen::fill(16, 2, i), gen::fill(8, 2, i)),
                6 => Case::kdf(48, 2, 3, 2, gen::fill(8, 2, i), vec![]),
                _ => Case::kdf(100, 1, 5, 1, gen::fill(24, 2, i), gen::fill(16, 2, i)),
            }
        };
        let known: Vec<(Case, Expect)> = (0..61).map(|i| { let c = mk(i); let e = c.expect(); (c, e) }).collect();
        for i in 0..per {
            if i % 64 == 63 {
                let c = mk(1000 + i);
                let got = call(&c);
                l.observe(&c, &got, &c.expect(), "history-long");
            } else {
                let (c, e) = &known[(i % 61) as usize];
                let got = call(c);
                l.evals += 1;
                if !got.same(e) {
                    l.violation("history-long", format!("call {} of a long run: {} returned {} but {} is required", i, c.brief(), got.text(), e.text()), vec![format!("# call number {} on its thread", i), c.line()]);
                }
            }
        }
        l.feat_max("calls of one function on one thread", per);
    });
}

// ------------------------------------------------------------------ C11 stress --------

pub fn stress(ctx: &Ctx, rep: &mut Report) {
    let mut pool: Vec<(Case, Expect)> = Vec::new();
    let mut r = Rng::new(ctx.seed, 0xC11, 0);
    for i in 0..160u64 {
        let c = match i % 8 {
            0..=3 => Case::Sum(ALL_SUMS[(i % 4) as usize], gen::message_bulk(ctx.seed, r.u64() >> 8)),
            4 => {
                let n = r.below(744) as usize;
                Case::sum(Algo::L2, r.bytes(n))
            }
            5 | 6 => gen::kdf_bulk(ctx.seed, r.u64() >> 8),
            _ => {
                if HOOKS {
                    let st = [Stage::Bmw, Stage::Cube, Stage::Mod][(i / 8 % 3) as usize];
                    Case::Stage(st, Blob::raw(gen::stage_input(ctx.seed, r.u64() >> 8, st)))
                } else {
                    gen::refused(&mut r)
                }
            }
        };
        let e = c.expect();
        pool.push((c, e));
    }
    for _ in 0..6 {
        let c = gen::refused(&mut r);
        pool.push((c, Expect::Refuse));
    }
    for c in ctx.extra.iter().filter(|c| c.weight() < 3000).take(400) {
        let e = c.expect();
        pool.push((c.clone(), e));
    }
    rep.feat("calls from the guided run in the pool", ctx.extra.len().min(400) as u64);
    let pool = &pool;
    let start = Instant::now();
    // many short histories: fresh threads, released together, every mix of equal and different calls
    let rounds = ctx.n(4000, 30_000);
    let order = Mutex::new(std::collections::HashSet::new());
    for round in 0..rounds {
        if start.elapsed() > ctx.limit {
            rep.complete = false;
            break;
        }
        let n = [2usize, 3, 4, 8, 16, 32][(round % 6) as usize];
        let bar = Barrier::new(n);
        let ticket = AtomicU64::new(0);
        let inflight = AtomicUsize::new(0);
        let all = Mutex::new(Vec::new());
        let mut rr = Rng::new(ctx.seed, 0xC12, round);
        let base = rr.below(pool.len() as u64);
        std::thread::scope(|s| {
            for t in 0..n {
                let (bar, ticket, all, inflight) = (&bar, &ticket, &all, &inflight);
                s.spawn(move || {
                    let mut l = Report::new();
                    let mut ends = Vec::new();
                    let mut r = Rng::new(ctx.seed, round, t as u64 + 7);
                    let parker = if round / 6 % 2 == 1 { engine::Parker::new() } else { None };
                    bar.wait();
                    for k in 0..10u64 {
                        if let (Some(p), true) = (&parker, r.chance(1, 3)) {
                            let at = r.logu(500, 60_000);
                            p.arm(at, r.logu(20, 600));
                        }
                        let idx = match round % 4 {
                            0 => base + k,                        // all threads the same call
                            1 => base + (t as u64 + k) % 3,       // few different calls
                            2 => r.below(pool.len() as u64),      // anything
                            _ => base + t as u64 + 11 * k,        // all different
                        } % pool.len() as u64;
                        let (c, e) = &pool[idx as usize];
                        let f = inflight.fetch_add(1, Relaxed) as u64 + 1;
                        l.feat_max("calls in flight at once", f);
                        if f > 1 {
                            l.feat("calls begun while others ran", 1);
                        }
                        let got = call(c);
                        inflight.fetch_sub(1, Relaxed);
                        ends.push((ticket.fetch_add(1, Relaxed), t as u64));
                        l.evals += 1;
                        l.hashes.push(c.hash() ^ round << 40 ^ (t as u64) << 32 ^ k);
                        if !got.same(e) {
                            l.violation("concurrent-result", format!("with {} threads, {} returned {} but {} is required", n, c.brief(), got.text(), e.text()), vec![c.line()]);
                        }
                        if r.chance(1, 6) {
                            std::thread::yield_now();
                        }
                    }
                    if let Some(p) = parker {
                        l.feat("calls parked midway", p.parked());
                    }
                    all.lock().unwrap().push((l, ends));
                });
            }
        });
        let mut ends = Vec::new();
        for (l, e) in all.into_inner().unwrap() {
            rep.merge(l);
            ends.extend(e);
        }
        ends.sort();
        let h = ends.iter().fold(n as u64, |a, x| (a ^ x.1).wrapping_mul(0x100000001b3));
        order.lock().unwrap().insert(h);
    }
    rep.feat("distinct completion orders", order.lock().unwrap().len() as u64);
    // long mixed run, more threads than cores
    let per = ctx.n(12_000, 100_000);
    let all = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for t in 0..24u64 {
            let all = &all;
            s.spawn(move || {
                let mut l = Report::new();
                let mut r = Rng::new(ctx.seed, 0xC13, t);
                for k in 0..per {
                    let (c, e) = &pool[r.below(pool.len() as u64) as usize];
                    let got = call_cap(c, (k % 5) as usize * 8);
                    l.evals += 1;
                    if !got.same(e) {
                        l.violation("concurrent-result", format!("in the long mixed run, {} returned {} but {} is required", c.brief(), got.text(), e.text()), vec![c.line()]);
                    }
                }
                all.lock().unwrap().push(l);
            });
        }
    });
    for l in all.into_inner().unwrap() {
        rep.merge(l);
    }
    // crowds: hundreds of calls in flight, each longer than a time slice
    let mut slow: Vec<(Case, Expect)> = Vec::new();
    for (i, a) in CHAINS.iter().enumerate() {
        slow.push((Case::Sum(*a, Blob::make(1_500_000 + 7919 * i, 2, ctx.seed + i as u64)), Expect::Refuse));
    }
    for (i, p) in [(32u64, 1500u64, 8u64, 8u64), (64, 1, 4096, 24), (48, 700, 16, 8), (100, 2, 3, 16_384)].iter().enumerate() {
        slow.push((Case::Kdf(KdfParams { k: p.0, t: p.1, r: p.2, c: p.3 }, Blob::make(40 + i, 2, 5), Blob::make(16, 2, 6 + i as u64)), Expect::Refuse));
    }
    for x in slow.iter_mut() {
        x.1 = x.0.expect();
    }
    let slow = &slow;
    for (round, n) in [70usize, 140, 300, 600].iter().copied().chain(if ctx.thorough { vec![1500, 1500, 3000] } else { vec![] }).enumerate() {
        let bar = Barrier::new(n);
        let inflight = AtomicUsize::new(0);
        let all = Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for t in 0..n {
                let (bar, all, inflight) = (&bar, &all, &inflight);
                let spawned = std::thread::Builder::new().stack_size(256 << 10).spawn_scoped(s, move || {
                    let mut l = Report::new();
                    let mut r = Rng::new(ctx.seed, 0xC40D ^ (round as u64) << 20, t as u64);
                    let parker = engine::Parker::new();
                    for k in 0..8usize {
                        bar.wait();
                        let (c, e) = match (k % 4, round % 2) {
                            (0, 0) => &slow[(t + k) % slow.len()],
                            (0, _) => &slow[(round / 2 + k + t / (n / 2)) % slow.len()],
                            (1, _) => &pool[(round * 8 + k) % 160],
                            (2, _) => &pool[(round * 8 + k + 4 * (t % 3)) % 160],
                            _ => &pool[r.below(pool.len() as u64) as usize],
                        };
                        if let Some(p) = &parker {
                            let at = if k % 4 == 0 { r.logu(10_000, 10_000_000) } else { r.logu(1000, 25_000) };
                            p.arm(at, r.range(60_000, 150_000));
                        }
                        l.feat_max("calls in flight at once", inflight.fetch_add(1, Relaxed) as u64 + 1);
                        let got = call(c);
                        inflight.fetch_sub(1, Relaxed);
                        l.evals += 1;
                        l.hashes.push(c.hash() ^ (round as u64) << 40 ^ (t as u64) << 24 ^ k as u64);
                        if !got.same(e) {
                            l.violation("concurrent-result", format!("with {} threads, {} returned {} but {} is required", n, c.brief(), got.text(), e.text()), vec![c.line()]);
                        }
                    }
                    if let Some(p) = parker {
                        l.feat("calls parked midway", p.parked());
                    }
                    all.lock().unwrap().push(l);
                });
                spawned.expect("thread");
            }
        });
        for l in all.into_inner().unwrap() {
            rep.merge(l);
        }
    }
    rep.sample(|| format!("{} rounds of 2..32 threads x 10 calls from a pool of {} calls, e.g. {}", rounds, pool.len(), pool[5].0.brief()));
}

/// The first calls of a process, made by several threads at the same instant.
pub fn firstcall(ctx: &Ctx, rep: &mut Report) {
    let n = 8;
    let mut cases = Vec::new();
    for t in 0..n as u64 {
        let mut v = Vec::new();
        for k in 0..6u64 {
            let mut r = Rng::new(ctx.seed, 0xF1C, if ctx.seed % 2 == 0 { k } else { t * 16 + k });
            let c = match (ctx.seed / 2 + k + if ctx.seed % 4 < 2 { t } else { 0 }) % 6 {
                5 => gen::kdf_bulk(ctx.seed, r.u64() >> 8),
                4 => Case::sum(Algo::L2, r.bytes(40)),
                a => Case::Sum(ALL_SUMS[a as usize], Blob::raw(gen::header(ctx.seed, k, 1))),
            };
            let e = c.expect();
            v.push((c, e));
        }
        cases.push(v);
    }
    let gate = AtomicUsize::new(0);
    let all = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for (id, v) in cases.iter().enumerate() {
            let (gate, all, id) = (&gate, &all, id as u64);
            s.spawn(move || {
                let mut l = Report::new();
                engine::my_slot();
                let mut r = Rng::new(ctx.seed, 0xF125, id);
                let parker = if r.chance(1, 2) { engine::Parker::new() } else { None };
                gate.fetch_add(1, SeqCst);
                let mut spin = 0u64;
                while gate.load(Acquire) < n {
                    spin += 1;
                    if spin > 20_000 {
                        std::thread::yield_now();
                    }
                }
                for (c, e) in v {
                    if let Some(p) = &parker {
                        let at = r.logu(300, 40_000);
                        p.arm(at, r.logu(50, 2000));
                    }
                    let got = call(c);
                    l.observe(c, &got, e, "concurrent-first-call");
                }
                if let Some(p) = parker {
                    l.feat("first calls parked midway", p.parked());
                }
                all.lock().unwrap().push(l);
            });
        }
    });
    for l in all.into_inner().unwrap() {
        rep.merge(l);
    }
}

// ------------------------------------------------------------------- C15 memory -------

struct Usage {
    peak: i64,
    left: i64,
    allocs: u64,
}
fn measured(c: &Case) -> (Outcome, Usage) {
    // the arguments are the caller's: allocate them before measuring, they are freed inside
    let arg: i64 = match c {
        Case::Sum(_, b) | Case::Stage(_, b) => b.v.len() as i64,
        Case::Kdf(_, a, b) => (a.v.len() + b.v.len()) as i64,
    };
    let prepared = c.prepare();
    let before = alloc::LIVE.load(Relaxed);
    let n0 = alloc::ALLOCS.load(Relaxed);
    alloc::PEAK.store(before, Relaxed);
    let out = engine::watched(c, || crate::case::guarded(move || prepared.run()));
    let peak = alloc::PEAK.load(Relaxed) - before;
    let allocs = alloc::ALLOCS.load(Relaxed) - n0;
    let own: i64 = match &out {
        Outcome::Bytes(v) => v.capacity() as i64,
        Outcome::Panic(s) => s.capacity() as i64,
    };
    let after = alloc::LIVE.load(Relaxed);
    let left = after - before - own + arg;
    (out, Usage { peak, left, allocs })
}
fn heap_bound(c: &Case) -> i64 {
    match c {
        Case::Kdf(p, a, b) => {
            let x = p.r as u128 * p.c as u128 * 144 + 16 * (a.v.len() as u128 + b.v.len() as u128 + p.k as u128) + 65_536;
            x.min(i64::MAX as u128 / 200) as i64
        }
        Case::Sum(Algo::L2, b) => 16 * 96 * 3 / 2 + 32 * b.v.len() as i64 + 65_536,
        Case::Sum(_, b) => 16 * b.v.len() as i64 + 131_072,
        Case::Stage(..) => 65_536,
    }
}

/// Bytes of stack the call touched, on a painted stack of its own.
fn stack_used(c: &Case) -> usize {
    const SZ: usize = 8 << 20;
    const PAINT: u8 = 0xC7;
    struct Arg(*const Case);
    extern "C" fn body(p: *mut libc::c_void) -> *mut libc::c_void {
        unsafe {
            let a = &*(p as *const Arg);
            let c = &*a.0;
            engine::watched(c, || {
                let pr = c.prepare();
                let _ = std::hint::black_box(crate::case::guarded(move || pr.run()));
            });
        }
        std::ptr::null_mut()
    }
    unsafe {
        let mem = libc::mmap(std::ptr::null_mut(), SZ + 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(mem != libc::MAP_FAILED);
        libc::mprotect(mem, 4096, libc::PROT_NONE);
        let base = (mem as *mut u8).add(4096);
        std::ptr::write_bytes(base, PAINT, SZ);
        let mut at: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut at);
        extern "C" {
            fn pthread_attr_setstack(a: *mut libc::pthread_attr_t, p: *mut libc::c_void, n: libc::size_t) -> libc::c_int;
        }
        pthread_attr_setstack(&mut at, base as *mut libc::c_void, SZ);
        let mut th: libc::pthread_t = 0;
        let arg = Arg(c);
        let rc = libc::pthread_create(&mut th, &at, body, &arg as *const Arg as *mut libc::c_void);
        assert_eq!(rc, 0);
        libc::pthread_join(th, std::ptr::null_mut());
        let s = std::slice::from_raw_parts(base, SZ);
        let first = s.iter().position(|b| *b != PAINT).unwrap_or(SZ);
        libc::munmap(mem, SZ + 4096);
        SZ - first
    }
}

pub fn mem(ctx: &Ctx, rep: &mut Report) {
    alloc::COUNT.store(true, SeqCst);
    let mut r = Rng::new(ctx.seed, 0xC15, 0);
    let k = |k: u64, t: u64, rr: u64, c: u64, a: usize, b: usize| Case::Kdf(KdfParams { k, t, r: rr, c }, Blob::make(a, 2, 1 + a as u64), Blob::make(b, 2, 2 + b as u64));
    let mut cases = Vec::new();
    for e in 2..=if ctx.thorough { 18 } else { 15u32 } {
        for d in [-1i64, 0, 1, 5] {
            let x = ((1i64 << e) + d).max(3) as u64;
            cases.push(k(32, 1, x, 1, 8, 8));
            cases.push(k(32, 2, x, 2, 0, 0));
            cases.push(k(32, 1, 3, x, 8, 8));
            cases.push(k(32, 1, 8, x, 8, 8));
            cases.push(k(x, 1, 4, 4, 8, 8));
            cases.push(k(16 * x, 1, 3, 2, 8, 8));
            cases.push(k(32, x.min(3000), 4, 4, 8, 8));
        }
        let n = 1usize << (e + 4);
        let rows = n as u64 / 96 + 8;
        cases.push(k(32, 1, rows, 1, n, 0));
        cases.push(k(32, 1, 2 * rows, 1, n / 2, n / 2));
        cases.push(k(32, 1, 64 * 1024, 1, n.min(3 << 20), 8));
        cases.push(k(32, 1, 3, rows / 3 + 8, 0, n));
    }
    cases.push(k(32, 1, 1 << 20, 1, 32, 32)); // 96 MiB matrix
    cases.push(k(32, 1, 3, 1 << 19, 32, 32));
    cases.push(k(1 << 24, 1, 3, 2, 32, 32));
    for a in ALL_SUMS {
        for n in [0usize, 1, 80, 200, 743, 10_000, 1 << 20, 16 << 20] {
            if a != Algo::L2 || n <= 743 {
                cases.push(Case::Sum(a, Blob::make(n, 2, 5)));
            }
        }
    }
    for _ in 0..ctx.n(20_000, 200_000) {
        cases.push(gen::kdf_bulk(ctx.seed, r.u64() >> 8));
    }
    cases.extend(gen::rare().iter().map(|(a, m)| Case::sum(*a, m.clone())));
    for _ in 0..3000 {
        cases.push(gen::refused(&mut r));
        cases.push(Case::Sum(r.pick(&ALL_SUMS[..4]), gen::message_bulk(ctx.seed, r.u64() >> 8)));
    }
    rep.feat("calls from the guided run", ctx.extra.len() as u64);
    // twice: what a call keeps for the next one shows, too
    cases.extend(ctx.extra.iter().cloned());
    cases.extend(ctx.extra.iter().cloned());
    // one call of each kind first, so that lazily initialised tables are in place
    for a in ALL_SUMS {
        measured(&Case::sum(a, vec![1; 80]));
    }
    measured(&k(32, 1, 4, 4, 8, 8));
    measured(&gen::refused(&mut r));
    for s in [Stage::Bmw, Stage::Cube, Stage::Mod] {
        if HOOKS {
            measured(&Case::Stage(s, Blob::make(32, 2, 1)));
        }
    }
    let start = Instant::now();
    let mut total_left = 0i64;
    let base = alloc::LIVE.load(Relaxed);
    let h0 = rep.hashes.capacity() as i64;
    rep.hashes.reserve(cases.len() + 16);
    let grown = (rep.hashes.capacity() as i64 - h0) * 8;
    let _ = (base, grown);
    for (i, c) in cases.iter().enumerate() {
        if start.elapsed() > ctx.limit {
            rep.complete = false;
            break;
        }
        let (out, u) = measured(c);
        rep.evals += 1;
        rep.hashes.push(c.hash());
        let bound = heap_bound(c);
        total_left += u.left;
        rep.feat_max("bytes left by one call", u.left.max(0) as u64);
        rep.feat("allocations observed", u.allocs);
        rep.feat_max("heap peak of one call, KiB", (u.peak / 1024) as u64);
        if bound > 1 << 20 {
            rep.feat("calls with a bound over 1 MiB", 1);
            rep.feat_max("peak as % of bound (bounds over 1 MiB)", (u.peak * 100 / bound) as u64);
        }
        if u.peak > bound && matches!(out, Outcome::Bytes(_)) {
            rep.violation("heap-peak", format!("{} used {} bytes of heap at its peak; the bound is {}", c.brief(), u.peak, bound), vec![c.line()]);
        }
        if u.left > 256 {
            rep.violation("retained", format!("{} left {} bytes of heap allocated", c.brief(), u.left), vec![c.line()]);
        }
        if total_left > 2048 {
            rep.violation("retained-history", format!("after {} calls, {} bytes of heap are still allocated; last call {}", i + 1, total_left, c.brief()), vec![c.line()]);
            total_left = 0;
        }
        if i % 3001 == 1 {
            rep.sample(|| format!("{}: peak {} B (bound {}), {} allocations, {} B left", c.brief(), u.peak, bound, u.allocs, u.left));
        }
    }
    // long histories of many different small calls: nothing may accumulate
    for (name, n) in [("kdf", ctx.n(60_000, 600_000)), ("chains", ctx.n(40_000, 400_000)), ("plain", ctx.n(60_000, 600_000)), ("refused", ctx.n(60_000, 600_000)), ("stages", ctx.n(20_000, 200_000))] {
        let mut acc = 0i64;
        for i in 0..n {
            let c = match name {
                "kdf" => Case::kdf(r.below(200), 1 + i % 2, 3 + r.below(6), 1 + r.below(4), r.bytes(16), r.clone().bytes(8)),
                "chains" => Case::Sum(ALL_SUMS[(i % 4) as usize], Blob::raw(gen::header(ctx.seed, i, 9))),
                "plain" => Case::sum(Algo::L2, r.bytes(48)),
                "refused" => gen::refused(&mut r),
                _ => {
                    if !HOOKS {
                        break;
                    }
                    let st = [Stage::Bmw, Stage::Cube, Stage::Mod][(i % 3) as usize];
                    Case::Stage(st, Blob::raw(r.bytes(32)))
                }
            };
            if start.elapsed() > ctx.limit * 2 {
                rep.complete = false;
                break;
            }
            let (_, u) = measured(&c);
            rep.evals += 1;
            acc += u.left;
            if acc > 2048 {
                rep.violation("retained-history", format!("after {} {} calls, {} bytes of heap are still allocated", i + 1, name, acc), vec![c.line()]);
                break;
            }
        }
        rep.feat(&format!("history of {} calls: bytes left", name), acc.max(0) as u64);
    }
    // threads that come and go must not leave anything either
    {
        let before = alloc::LIVE.load(Relaxed);
        let n = ctx.n(1500, 8000);
        let mut worst = 0;
        for i in 0..n {
            let c = if i % 2 == 0 { Case::Sum(ALL_SUMS[(i / 2 % 5) as usize], Blob::raw(gen::header(ctx.seed, i, 3))) } else { k(32, 1, 64, 8, 8, 8) };
            std::thread::scope(|s| {
                s.spawn(|| {
                    let _ = call(&c);
                });
            });
            rep.evals += 1;
            worst = (alloc::LIVE.load(Relaxed) - before).max(worst);
        }
        let left = alloc::LIVE.load(Relaxed) - before;
        rep.feat("thread churn: bytes left", left.max(0) as u64);
        if left > 16_384 {
            rep.violation("retained-threads", format!("after {} short-lived threads, {} bytes of heap are still allocated", n, left), vec![]);
        }
    }
    alloc::COUNT.store(false, SeqCst);
    // stack: what a call touches must not depend on its arguments
    let pairs: Vec<(&str, Case, Vec<Case>)> = vec![
        ("kdf", k(32, 1, 3, 1, 8, 8), vec![k(32, 1, 1 << 16, 1, 8, 8), k(32, 1, 3, 1 << 15, 8, 8), k(32, 20_000, 3, 1, 8, 8), k(1 << 18, 1, 3, 1, 8, 8), k(32, 1, 1 << 15, 1, 1 << 21, 0), k(32, 1, 1 << 15, 1, 0, 1 << 21), k(32, 3, 999, 7, 100, 100)]),
        ("re", Case::sum(Algo::Re, vec![]), vec![Case::Sum(Algo::Re, Blob::make(5 << 20, 2, 1))]),
        ("v2", Case::sum(Algo::V2, vec![]), vec![Case::Sum(Algo::V2, Blob::make(5 << 20, 2, 1))]),
        ("v3", Case::sum(Algo::V3, vec![]), vec![Case::Sum(Algo::V3, Blob::make(5 << 20, 2, 1))]),
        ("z", Case::sum(Algo::Z, vec![]), vec![Case::Sum(Algo::Z, Blob::make(5 << 20, 2, 1))]),
        ("l2", Case::sum(Algo::L2, vec![]), vec![Case::Sum(Algo::L2, Blob::make(743, 2, 1))]),
    ];
    let mut bases: Vec<(&str, usize)> = Vec::new();
    for (name, small, bigs) in &pairs {
        stack_used(small);
        let s = stack_used(small);
        bases.push((name, s));
        rep.feat_max(&format!("stack bytes {}", name), s as u64);
        for b in bigs {
            let u = stack_used(b);
            rep.evals += 1;
            rep.feat("stack measurements", 1);
            rep.feat_max("stack growth bytes", u.saturating_sub(s) as u64);
            if u > s + 32_768 {
                rep.violation("stack-growth", format!("{} touched {} bytes of stack, {} more than the smallest call", b.brief(), u, u - s), vec![b.line()]);
            }
        }
    }
    // the same for whatever else the workloads have to offer
    let mut more: Vec<Case> = ctx.extra_valid().into_iter().take(ctx.n(400, 4000) as usize).collect();
    for i in 0..ctx.n(300, 3000) {
        more.push(gen::kdf_bulk(ctx.seed, r.u64() >> 8));
        more.push(Case::Sum(ALL_SUMS[(i % 4) as usize], gen::message_bulk(ctx.seed, r.u64() >> 8)));
    }
    for b in &more {
        let name = match b {
            Case::Sum(a, _) => a.name(),
            Case::Kdf(..) => "kdf",
            Case::Stage(..) => continue,
        };
        let Some(s) = bases.iter().find(|x| x.0 == name).map(|x| x.1) else { continue };
        let u = stack_used(b);
        rep.evals += 1;
        rep.feat("stack measurements", 1);
        if u > s + 32_768 {
            rep.violation("stack-growth", format!("{} touched {} bytes of stack, {} more than the smallest call", b.brief(), u, u - s), vec![b.line()]);
        }
    }
}
