//! Conformity monitors: every observed result against the reference model.
use crate::case::{Algo, Blob, Case, Expect, Outcome, Stage, HOOKS};
use crate::engine::{call, call_cap, run_indexed, Report};
use crate::gen::{self, Rng};
use crate::refmodel::{lyra2 as rl, KdfParams, Trace};
use std::time::Duration;

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    /// multiplies the bulk counts
    pub scale: f64,
    pub limit: Duration,
    /// calls another run found worth making on this tree
    pub extra: Vec<Case>,
}
impl Ctx {
    /// those of them that must be accepted
    pub fn extra_valid(&self) -> Vec<Case> {
        self.extra.iter().filter(|c| c.valid()).cloned().collect()
    }
}
impl Ctx {
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        ((if self.thorough { thorough } else { quick }) as f64 * self.scale) as u64
    }
}

fn len_feats(l: &mut Report, b: &Blob) {
    let n = b.v.len();
    l.feat(if n == 0 { "empty message" } else if n < 56 { "message 1..55 B" } else if n < 64 { "message 56..63 B" } else if n == 80 { "80-byte header" } else if n <= 1100 { "message 64..1100 B" } else { "message > 1100 B" }, 1);
    l.feat_max("message bytes", n as u64);
}

fn check(l: &mut Report, c: &Case, extra: usize, sig: &str) -> bool {
    let want = c.expect();
    let got = call_cap(c, extra);
    l.observe(c, &got, &want, sig)
}

pub fn chain(ctx: &Ctx, rep: &mut Report, a: Algo) {
    let sig = format!("digest-{}", a.name());
    let huge = std::sync::Mutex::new(Report::new());
    std::thread::scope(|s| {
        // messages longer than 2^32 bits and 2^32 bytes, beside everything else
        if ctx.scale >= 1.0 {
            let mut lens = vec![1usize << 29, 1 << 32];
            if ctx.thorough {
                lens.extend([1 << 28, 1 << 31, 1 << 33]);
            }
            for n in lens {
                let (huge, sig) = (&huge, &sig);
                s.spawn(move || {
                    let n = n + 1 + Rng::new(ctx.seed, n as u64, a as u64).below(200) as usize;
                    // zeros with marks, so that dropping any part shows; mostly unbacked pages
                    let make = || marked(ctx.seed, n);
                    let shell = Case::Sum(a, Blob::raw(vec![]));
                    let (got, want) = std::thread::scope(|t| {
                        let w = t.spawn(|| Case::Sum(a, Blob::raw(make())).expect());
                        let v = make();
                        let g = crate::engine::watched_for(&shell, 100 + (n >> 20) as u64, || crate::case::guarded(move || crate::case::call_sum(a, v)));
                        (g, w.join().unwrap())
                    });
                    let mut l = Report::new();
                    l.evals += 1;
                    l.hashes.push(n as u64);
                    l.feat("huge messages", 1);
                    l.feat_max("message bytes", n as u64);
                    if !got.same(&want) {
                        l.violation(sig, format!("{} of the {}-byte huge message (seed {}) returned {} but {} is required", a.name(), n, ctx.seed, got.text(), want.text()), vec![format!("# huge {} {} {}", a.name(), n, ctx.seed)]);
                    }
                    huge.lock().unwrap().merge(l);
                });
            }
        }
        let sys = gen::messages_systematic(ctx.seed, usize::MAX, ctx.scale >= 0.2);
        run_indexed(rep, sys.len() as u64, 8, ctx.limit, |l, i| {
            let b = &sys[sys.len() - 1 - i as usize];
            len_feats(l, b);
            let c = Case::Sum(a, b.clone());
            if i % 997 == 5 {
                l.sample(|| format!("{} -> {}", c.brief(), c.expect().text()));
            }
            check(l, &c, if i % 3 == 0 { 64 } else { 0 }, &sig);
        });
        drop(sys);
        let rare = gen::rare();
        run_indexed(rep, rare.len() as u64, 64, ctx.limit, |l, i| {
            // those found for this chain, and every one of the others too
            let c = Case::sum(a, rare[i as usize].1.clone());
            l.feat(if rare[i as usize].0 == a { "messages with an unusual digest at some stage" } else { "messages with one in another chain" }, 1);
            check(l, &c, 0, &sig);
        });
        if HOOKS {
            let stages: &[Stage] = match a {
                Algo::V2 => &[Stage::Bmw, Stage::Cube],
                Algo::V3 => &[Stage::Bmw, Stage::Cube, Stage::Mod],
                _ => &[],
            };
            for st in stages {
                run_indexed(rep, ctx.n(200_000, 2_000_000), 256, ctx.limit, |l, i| {
                    let c = Case::Stage(*st, Blob::raw(gen::stage_input(ctx.seed, i, *st)));
                    l.feat(&format!("stage {}", st.name()), 1);
                    check(l, &c, 0, &format!("stage-{}-{}", st.name(), a.name()));
                });
            }
        }
        let n = match a {
            Algo::Re => ctx.n(2_400_000, 20_000_000),
            Algo::V2 => ctx.n(2_400_000, 20_000_000),
            Algo::V3 => ctx.n(2_400_000, 20_000_000),
            _ => ctx.n(1_200_000, 10_000_000),
        };
        run_indexed(rep, n, 64, ctx.limit, |l, i| {
            let b = gen::message_bulk(ctx.seed, i);
            len_feats(l, &b);
            let c = Case::Sum(a, b);
            if i % 200_003 == 17 {
                l.sample(|| format!("{} -> {}", c.brief(), c.expect().text()));
            }
            check(l, &c, if i % 5 == 0 { (i % 131) as usize } else { 0 }, &sig);
        });
    });
    rep.merge(huge.into_inner().unwrap());
}

fn kdf_feats(l: &mut Report, c: &Case, tr: &Trace) {
    if let Case::Kdf(p, a, b) = c {
        l.feat(if p.r.is_power_of_two() { "rows power of two" } else { "rows not power of two" }, 1);
        l.feat(if p.t % 2 == 0 { "time cost even" } else { "time cost odd" }, 1);
        if a.v.is_empty() { l.feat("empty password", 1) }
        if b.v.is_empty() { l.feat("empty salt", 1) }
        if a.v.len() % 8 != 0 || b.v.len() % 8 != 0 { l.feat("unaligned input", 1) }
        if rl::n_blocks(a.v.len(), b.v.len()) * 8 + 8 > p.r.saturating_mul(p.c).saturating_mul(12) { l.feat("matrix filled by input", 1) }
        l.feat("row visits", tr.visits);
        l.feat("row*==prev", tr.alias_prev);
        l.feat("row*==row", tr.alias_row);
        l.feat_max("rows", p.r);
        l.feat_max("cols", p.c);
        l.feat_max("time cost", p.t);
        l.feat_max("key bytes", p.k);
        l.feat_max("input bytes", (a.v.len() + b.v.len()) as u64);
    }
}
fn kdf_one(l: &mut Report, c: &Case, extra: usize, sig: &str) {
    let mut tr = Trace::default();
    let want = c.expect_traced(Some(&mut tr));
    kdf_feats(l, c, &tr);
    let got = call_cap(c, extra);
    l.observe(c, &got, &want, sig);
}

pub fn kdf(ctx: &Ctx, rep: &mut Report) {
    let mut sys = gen::kdf_systematic(ctx.seed, ctx.thorough);
    sys.sort_by_key(|c| if let Case::Kdf(p, a, b) = c { u64::MAX - (p.r * p.c * (p.t + 1) + (a.v.len() + b.v.len()) as u64 + p.k) } else { 0 });
    // a scaled-down run keeps the largest
    if ctx.scale < 1.0 {
        let keep = (1.0 / ctx.scale).round() as usize;
        sys = sys.into_iter().enumerate().filter(|(i, _)| *i < 64 || i % keep == ctx.seed as usize % keep).map(|x| x.1).collect();
    }
    // the largest arguments, one after the other beside the bulk
    let big = std::sync::Mutex::new(Report::new());
    std::thread::scope(|s| {
        if ctx.scale >= 1.0 {
            s.spawn(|| {
                let mut l = Report::new();
                let mk = |k: u64, t: u64, r: u64, c: u64| Case::Kdf(KdfParams { k, t, r, c }, Blob::make(24, 2, ctx.seed), Blob::make(16, 2, ctx.seed + 1));
                for c in [mk(32, 1, 1 << 22, 1), mk(32, 2, (1 << 22) + 1, 1), mk(32, 1, 3, 1 << 22), mk(32, 2, 4, (1 << 21) + 3), mk(32, 1 << 22, 3, 1), mk(32, (1 << 22) + 1, 4, 1), mk((1 << 22) + 5, 1, 3, 1), mk(32, 1, 2048, 2048)] {
                    kdf_one(&mut l, &c, 0, "kdf-output");
                }
                if room_gb() >= 8 {
                    for c in [mk(32, 1, (1 << 24) + 1, 1), mk(32, 1, 3, (1 << 23) + 5), mk(32, (1 << 24) + 1, 3, 1)] {
                        kdf_one(&mut l, &c, 0, "kdf-output");
                    }
                }
                if room_gb() >= 20 {
                    kdf_huge(ctx, &mut l, (1usize << 32) + 24, 8);
                    if ctx.thorough {
                        kdf_huge(ctx, &mut l, 16, (1usize << 32) + 16);
                        kdf_huge(ctx, &mut l, (1usize << 31) + 8, (1usize << 31) + 40);
                    }
                }
                if ctx.thorough {
                    let c = mk(32, (1 << 32) + 1, 3, 1);
                    let want = c.expect();
                    let got = crate::engine::watched_for(&c, 6000, || c.exec());
                    l.feat_max("time cost", (1 << 32) + 1);
                    l.observe(&c, &got, &want, "kdf-output");
                }
                big.lock().unwrap().merge(l);
            });
        }
        run_indexed(rep, sys.len() as u64, 1, ctx.limit, |l, i| {
            let c = &sys[i as usize];
            if i % 1201 == 7 {
                l.sample(|| format!("{} -> {}", c.brief(), c.expect().text()));
            }
            kdf_one(l, c, if i % 3 == 0 { 24 } else { 0 }, "kdf-output");
        });
        let sweep = if ctx.scale >= 0.2 { gen::kdf_sweeps(ctx.seed, ctx.thorough) } else { vec![] };
        run_indexed(rep, sweep.len() as u64, 8, ctx.limit, |l, i| {
            l.feat("calls of a sweep over one argument", 1);
            kdf_one(l, &sweep[i as usize], 0, "kdf-output");
        });
        run_indexed(rep, ctx.n(2_000_000, 16_000_000), 32, ctx.limit, |l, i| {
            let c = gen::kdf_bulk(ctx.seed, i);
            if i % 100_003 == 11 {
                l.sample(|| format!("{} -> {}", c.brief(), c.expect().text()));
            }
            kdf_one(l, &c, if i % 4 == 0 { (i % 37) as usize } else { 0 }, "kdf-output");
        });
    });
    rep.merge(big.into_inner().unwrap());
}

pub fn sum(ctx: &Ctx, rep: &mut Report) {
    let mut cases: Vec<Blob> = Vec::new();
    let mut r = Rng::new(ctx.seed, 0x50, 0);
    for len in 0..=743usize {
        for kind in [0u8, 1, 2, 2, 3, 9] {
            cases.push(Blob::make(len, kind, r.u64()));
        }
    }
    for len in (744..=2200usize).chain([4095, 4096, 10_000, 65_535, 65_536, 65_537, 66_279, 66_280, 1 << 20, (1 << 20) + 743]) {
        for kind in [0u8, 2] {
            cases.push(Blob::make(len, kind, r.u64()));
        }
    }
    cases.extend(gen::messages_systematic(ctx.seed, 743, false));
    run_indexed(rep, cases.len() as u64, 16, ctx.limit, |l, i| {
        let b = &cases[i as usize];
        l.feat(if b.v.len() <= 743 { "message that fits" } else { "message too long" }, 1);
        let c = Case::Sum(Algo::L2, b.clone());
        if i % 1999 == 3 {
            l.sample(|| format!("{} -> {}", c.brief(), c.expect().text()));
        }
        check(l, &c, if i % 3 == 0 { 40 } else { 0 }, "plain-hash");
        if b.v.len() <= 743 {
            // the relation itself, observed on both sides
            let (x, y) = (call(&c), call(&Case::Kdf(KdfParams { k: 32, t: 1, r: 4, c: 4 }, b.clone(), b.clone())));
            l.evals += 1;
            if x != y {
                l.violation("plain-hash-vs-kdf", format!("{} returned {} but the KDF at the default parameters {}", c.brief(), x.text(), y.text()), vec![c.line()]);
            }
        }
    });
    run_indexed(rep, ctx.n(5_000_000, 40_000_000), 64, ctx.limit, |l, i| {
        let mut b = gen::message_bulk(ctx.seed, i);
        if b.v.len() > 2000 {
            b = Blob::raw(b.v[..700].to_vec());
        }
        l.feat(if b.v.len() <= 743 { "message that fits" } else { "message too long" }, 1);
        check(l, &Case::Sum(Algo::L2, b), (i % 7) as usize, "plain-hash");
    });
}

pub fn klen(ctx: &Ctx, rep: &mut Report) {
    let mut cases: Vec<Case> = Vec::new();
    let mut r = Rng::new(ctx.seed, 0x4B, 0);
    let mut ks: Vec<u64> = (0..=ctx.n(2600, 12_000)).collect();
    ks.extend([4095, 4096, 4097, 9600, 9601, 32_767, 32_768, 65_535, 65_536, 65_537, 96 * 1000, 96 * 1024 - 1, 96 * 1024, 96 * 1024 + 1, 1_000_000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 24) + 11]);
    ks.extend((12..24).map(|e| (1u64 << e) + 96));
    ks.extend((0..ctx.n(2400, 12_000)).map(|_| r.logu(2600, 300_000)));
    for k in ks {
        let params = [(1u64, 4u64, 4u64), (r.range(1, 4), r.range(3, 9), r.range(1, 5)), (2, 3, 1)];
        for (t, rr, c) in params {
            let cap = gen::capacity(rr, c).min(150);
            let n = r.below(cap + 1);
            let a = r.below(n + 1) as usize;
            cases.push(Case::Kdf(KdfParams { k, t, r: rr, c }, Blob::make(a, 2, r.u64()), Blob::make(n as usize - a, 2, r.u64())));
        }
    }
    cases.sort_by_key(|c| if let Case::Kdf(p, ..) = c { u64::MAX - p.k } else { 0 });
    let big = std::sync::Mutex::new(Report::new());
    std::thread::scope(|s| {
    if ctx.scale >= 1.0 && room_gb() >= 16 {
        // a key longer than 2^32 bytes
        s.spawn(|| {
            let c = Case::Kdf(KdfParams { k: (1 << 32) + 5, t: 1, r: 4, c: 4 }, Blob::make(16, 2, ctx.seed), Blob::make(16, 2, 2));
            let (got, want) = std::thread::scope(|t| {
                let w = t.spawn(|| c.expect());
                let g = crate::engine::watched_for(&c, 900, || c.exec());
                (g, w.join().unwrap())
            });
            let mut l = Report::new();
            l.feat_max("key bytes", (1 << 32) + 5);
            l.feat("keys over 2^32 bytes", 1);
            l.observe(&c, &got, &want, "key-stream");
            big.lock().unwrap().merge(l);
        });
    }
    run_indexed(rep, cases.len() as u64, 1, ctx.limit, |l, i| {
        let c = &cases[i as usize];
        let Case::Kdf(p, ..) = c else { unreachable!() };
        l.feat(if p.k == 0 { "key of 0 bytes" } else if p.k % 96 == 0 { "whole blocks" } else if p.k < 96 { "less than a block" } else { "more than a block" }, 1);
        l.feat_max("key bytes", p.k);
        if i % 977 == 3 {
            l.sample(|| format!("{} -> {}", c.brief(), c.expect().text()));
        }
        let want = c.expect();
        let got = call(c);
        if let (Outcome::Bytes(g), Expect::Bytes(_)) = (&got, &want) {
            if g.len() as u64 != p.k {
                l.violation("key-length", format!("{} returned {} bytes instead of {}", c.brief(), g.len(), p.k), vec![c.line()]);
            }
            // no block of the stream repeated or blank (96-byte blocks of a 768-bit rate)
            let blocks: Vec<&[u8]> = g.chunks_exact(96).collect();
            let set: std::collections::HashSet<&[u8]> = blocks.iter().copied().collect();
            l.feat("sponge blocks compared", blocks.len() as u64);
            if set.len() != blocks.len() || blocks.iter().any(|b| b.iter().all(|x| *x == 0)) {
                l.violation("key-blocks", format!("{} returned a repeated or blank block", c.brief()), vec![c.line()]);
            }
        }
        l.observe(c, &got, &want, "key-stream");
    });
    run_indexed(rep, ctx.n(1_500_000, 12_000_000), 32, ctx.limit, |l, i| {
        let mut r = Rng::new(ctx.seed, 0x4B2, i);
        let Case::Kdf(mut p, a, b) = gen::kdf_bulk(ctx.seed, i) else { unreachable!() };
        p.k = match i % 8 {
            0 => r.below(20) * 96,
            1 => r.below(20) * 96 + 1,
            2 => r.below(20) * 96 + 95,
            3 => r.below(2000),
            _ => r.below(400),
        };
        let c = Case::Kdf(p, a, b);
        check(l, &c, 0, "key-stream");
    });
    });
    rep.merge(big.into_inner().unwrap());
}

/// Gigabytes of memory free for the taking.
fn room_gb() -> u64 {
    let t = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
    t.lines().find(|l| l.starts_with("MemAvailable")).and_then(|l| l.split_whitespace().nth(1)).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) >> 20
}
/// n zero bytes with a mark at least every MiB, so that dropping or repeating any part shows.
pub fn marked(seed: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed, 0x8192, n as u64);
    let mut v = vec![0u8; n];
    let mut p = 0usize;
    while p < n {
        v[p] = r.u64() as u8 | 1;
        p += 1 + r.below(1 << 20) as usize;
    }
    if n > 0 {
        v[n - 1] = 0x5a;
    }
    v
}
/// Inputs longer than 2^32 bytes.
fn kdf_huge(ctx: &Ctx, rep: &mut Report, a: usize, b: usize) {
    let need = (a + b + 200) as u64 / 96;
    let p = KdfParams { k: 32, t: 1, r: need / 64 + 2, c: 64 };
    let shell = Case::Kdf(p, Blob::raw(vec![]), Blob::raw(vec![]));
    let (got, want) = std::thread::scope(|s| {
        let w = s.spawn(|| match rl::kdf(&p, &marked(ctx.seed, a), &marked(ctx.seed + 1, b), crate::refmodel::Rows::Classic, None) {
            Some(v) => Expect::Bytes(v),
            None => Expect::Refuse,
        });
        let (x, y) = (marked(ctx.seed, a), marked(ctx.seed + 1, b));
        let g = crate::engine::watched_for(&shell, 600, || crate::case::guarded(move || lyra2::lyra2::lyra2(p.k, x, y, p.t, p.r, p.c)));
        (g, w.join().unwrap())
    });
    rep.evals += 1;
    rep.hashes.push((a as u64) << 1 ^ b as u64);
    rep.feat("inputs over 2^32 bytes", 1);
    rep.feat_max("input bytes", (a + b) as u64);
    if !got.same(&want) {
        rep.violation("kdf-output", format!("the KDF (k 32, t 1, r {}, c 64) of a {}-byte password and a {}-byte salt (marked zeros, seed {}) returned {} but {} is required", p.r, a, b, ctx.seed, got.text(), want.text()), vec![format!("# hugekdf {} {} {}", a, b, ctx.seed)]);
    }
}

pub fn params(ctx: &Ctx, rep: &mut Report) {
    crate::engine::CPU_BUDGET_S.store(40, std::sync::atomic::Ordering::Relaxed);
    let mut cases: Vec<Case> = Vec::new();
    let mut r = Rng::new(ctx.seed, 0x9A, 0);
    let mk = |k: u64, t: u64, rr: u64, c: u64, a: usize, b: usize, s: u64| Case::Kdf(KdfParams { k, t, r: rr, c }, Blob::make(a, 2, s), Blob::make(b, 2, s + 1));
    // around the capacity of every small matrix
    for rr in 0..=9u64 {
        for c in 0..=5u64 {
            for t in 0..=2u64 {
                let cap = gen::capacity(rr, c) as i64;
                for d in -24..=90i64 {
                    let tot = cap + d;
                    if tot < 0 {
                        continue;
                    }
                    let splits = [0, tot, tot / 2, r.below(tot as u64 + 1) as i64];
                    for (n, a) in splits.into_iter().enumerate() {
                        if t == 1 || (d + n as i64) % 9 == 0 {
                            let k = if r.chance(1, 6) { r.below(300) } else { 32 };
                            cases.push(mk(k, t, rr, c, a as usize, (tot - a) as usize, r.u64()));
                        }
                    }
                }
            }
        }
    }
    // capacity of larger matrices
    for _ in 0..ctx.n(1500, 10_000) {
        let (rr, c) = (r.logu(3, 200), r.logu(1, 60));
        let cap = gen::capacity(rr, c);
        for d in [-8i64, -1, 0, 1, 2, 7, 8, 15, 16, 17, 48, 63, 64, 65, 96, 1000] {
            let tot = (cap as i64 + d).max(0) as u64;
            let a = r.below(tot + 1);
            cases.push(mk(32, 1, rr, c, a as usize, (tot - a) as usize, r.u64()));
        }
    }
    // values and lengths around the sizes of narrower integers: all valid
    for e in [7u32, 8, 10, 12, 13, 14, 15, 16, 17, 18, 20] {
        for d in -3..=3i64 {
            let x = ((1i64 << e) + d) as u64;
            let s = r.u64();
            cases.push(mk(32, r.range(1, 2), x, 1, 8, 8, s));
            cases.push(mk(32, 1, r.range(3, 4), x, 8, 8, s));
            cases.push(mk(32, x, 3, 1, 8, 8, s));
            cases.push(mk(x, 1, 3, 1, 8, 8, s));
            cases.push(mk(x, r.range(1, 3), r.range(3, 9), 2, 0, 0, s));
            if e >= 12 {
                cases.push(mk(32, 1, x, r.range(2, 3), 0, 0, s));
            }
            // input lengths, in a matrix with room, in one they just fill, and in one just too small
            let n = x as usize;
            for (a, b) in [(n, 0), (0, n), (n, n), (n / 2, n - n / 2)] {
                let rows = (a + b + 49) as u64 / 96;
                cases.push(mk(32, 1, rows + 9, 1, a, b, s));
                for rr in [rows.saturating_sub(1).max(3), rows.max(3), rows + 1, rows + 2] {
                    cases.push(mk(32, 1, rr, 1, a, b, s));
                }
            }
        }
    }
    for _ in 0..ctx.n(6000, 40_000) {
        let v = [r.logu(1, 60_000), r.logu(1, 3000), r.logu(3, 60_000), r.logu(1, 4000)];
        if v[1] * v[2] * v[3] < 300_000 {
            let cap = gen::capacity(v[2], v[3]).min(100_000);
            let n = r.below(cap + 1);
            let a = r.below(n + 1) as usize;
            cases.push(mk(v[0], v[1], v[2], v[3], a, n as usize - a, r.u64()));
        }
    }
    // refused whatever the other, extreme, arguments say: nothing may be allocated or run first
    let ext = [0u64, 1, 2, 3, 4, 255, 256, 65_536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 4, 1 << 40, 1 << 48, 1 << 61, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 4, (1 << 63) + (1 << 62) + 5, u64::MAX - 1, u64::MAX];
    for &k in &ext {
        for &x in &ext {
            for &y in &ext {
                let lens = r.pick(&[(0usize, 0usize), (8, 8), (32, 32), (3, 0)]);
                cases.push(mk(k, 0, x, y, lens.0, lens.1, r.u64()));
                cases.push(mk(k, x, r.below(3), y, lens.0, lens.1, r.u64()));
            }
        }
    }
    // sizes that overflow: refused in every build, never run on a wrapped, smaller matrix
    let hi = [1u64 << 60, 1 << 61, 1 << 62, 3 << 61, 3 << 62, 1 << 63, (1 << 63) + (1 << 62), (1 << 63) + (1 << 61), 7 << 61, u64::MAX - 40, 0x5555_5555_5555_5550];
    for &h in &hi {
        for d in 0..20u64 {
            for o in 1..=9u64 {
                let (x, y) = (h.wrapping_add(d), o);
                if x < 3 || (x as u128 * o as u128 * 96) < (1u128 << 63) {
                    continue;
                }
                cases.push(mk(32, r.range(1, 3), x, y, 8, 8, r.u64()));
                if o >= 3 {
                    cases.push(mk(32, r.range(1, 3), y, x, 8, 8, r.u64()));
                }
                let lens = r.pick(&[(0usize, 0usize), (32, 32), (5, 0)]);
                cases.push(mk(r.pick(&[0u64, 16, 200]), 1, x, y, lens.0, lens.1, r.u64()));
            }
        }
    }
    // rows x cols product wraps to something small and valid-looking
    for s in 2..62u32 {
        for d in [0u64, 1, 3, 4] {
            let (x, y) = ((1u64 << s) + d, (1u64 << (64 - s)) + r.below(5));
            if x >= 3 && (x as u128 * y as u128 * 96) >= (1u128 << 63) {
                cases.push(mk(32, 1, x, y, 8, 8, r.u64()));
            }
        }
    }
    run_indexed(rep, cases.len() as u64, 32, ctx.limit, |l, i| {
        let c = &cases[i as usize];
        if i % 20_011 == 9 {
            l.sample(|| format!("{} -> {}", c.brief(), c.expect().text()));
        }
        params_one(l, c);
    });
    run_indexed(rep, ctx.n(1_500_000, 12_000_000), 32, ctx.limit, |l, i| {
        let mut r = Rng::new(ctx.seed, 0x9B, i);
        let c = if i % 4 == 0 { gen::refused(&mut r) } else { gen::kdf_bulk(ctx.seed ^ 77, i) };
        params_one(l, &c);
    });
    // valid but unusual: accepted
    for (k, t, rr, c, a, b) in [(0u64, 1u64, 3u64, 2u64, 0usize, 0usize), (1, 1, 3, 1, 10, 20), (32, 1, 70_000, 1, 0, 0), (32, 1, 3, 70_000, 0, 0), (32, 70_000, 3, 1, 0, 0), (70_000, 1, 3, 1, 0, 0), (32, 1, 3, 40_000, 3_000_000, 0), (32, 1, 40_000, 1, 0, 3_000_000), (32, 1, (1 << 22) + 1, 1, 0, 0), (32, 1, 3, (1 << 22) + 1, 0, 0), (32, (1 << 22) + 1, 3, 1, 0, 0), ((1 << 24) + 1, 1, 3, 1, 0, 0), (32, 1, 1 << 20, 1, 3 << 24, 0)] {
        params_one(rep, &mk(k, t, rr, c, a, b, 5));
    }
}
fn params_one(l: &mut Report, c: &Case) {
    // judged on acceptance only; contents belong to C05
    let accept = match c {
        Case::Kdf(p, a, b) => rl::valid(p, a.v.len(), b.v.len()),
        Case::Sum(_, b) => b.v.len() <= 743,
        _ => true,
    };
    if let Case::Kdf(p, a, b) = c {
        l.feat(
            if accept { "accepted" } else if p.t == 0 { "refused: time cost" } else if p.r < 3 { "refused: rows" } else if p.c == 0 { "refused: no columns" } else if p.r.checked_mul(p.c).and_then(|x| x.checked_mul(12)).map_or(true, |x| x > i64::MAX as u64 / 8) { "refused: size overflows" } else { "refused: input does not fit" },
            1,
        );
        if accept && rl::n_blocks(a.v.len(), b.v.len()) * 8 + 8 > p.r.saturating_mul(p.c).saturating_mul(12) {
            l.feat("accepted at capacity", 1);
        }
    }
    let got = call(c);
    l.evals += 1;
    l.hashes.push(c.hash());
    match (&got, accept) {
        (Outcome::Bytes(_), true) | (Outcome::Panic(_), false) => {}
        (Outcome::Bytes(b), false) => l.violation("invalid-accepted", format!("{} must be refused but returned a {}-byte key", c.brief(), b.len()), vec![c.line()]),
        (Outcome::Panic(m), true) => l.violation("valid-refused", format!("{} is valid but panicked: {}", c.brief(), m), vec![c.line()]),
    }
}
