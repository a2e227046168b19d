#![allow(unexpected_cfgs)]
mod alloc;
mod case;
mod conf;
mod effects;
mod engine;
mod gen;
mod refmodel;
mod rel;
mod sys;

use case::Case;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Mon = alloc::Mon;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let mode = args.first().cloned().unwrap_or_default();
    let arg = args.get(1).cloned().unwrap_or_default();
    let out = opt("--out").unwrap_or_else(|| "/dev/stdout".into());
    let ctx = conf::Ctx {
        seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: opt("--tier").as_deref() == Some("thorough"),
        scale: opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        limit: Duration::from_secs(opt("--limit").and_then(|s| s.parse().ok()).unwrap_or(600)),
        extra: opt("--extra").map(|f| std::fs::read_to_string(f).unwrap_or_default().lines().filter_map(Case::parse).collect()).unwrap_or_default(),
    };
    match refmodel::selftest() {
        Ok(n) if n >= 20 => {}
        e => {
            eprintln!("reference model self-test failed: {:?}", e);
            std::process::exit(50);
        }
    }
    case::quiet_panics();
    if let Some(c) = opt("--crash") {
        engine::set_crash_path(&c);
        engine::crash_monitor();
    }
    if mode == "effects" {
        std::process::exit(effects::effects(&ctx, &out, &opt("--plant").unwrap_or_default()));
    }
    if mode == "plants" {
        println!("{}", effects::PLANTS.join(" "));
        return;
    }
    if mode == "replay" {
        std::process::exit(replay(&arg));
    }
    if mode == "expect" {
        // case file -> expected log
        let t = std::fs::read_to_string(&arg).unwrap();
        let o: String = t.lines().filter(|l| !l.starts_with('#')).map(|l| format!("{}\n", Case::parse(l).expect("case").expect().log())).collect();
        std::fs::write(&out, o).unwrap();
        return;
    }
    if mode == "cases" {
        std::fs::write(&out, cases(&ctx, &arg)).unwrap();
        return;
    }
    if mode == "probe" {
        // one call, arguments as in a case line; the caller judges how it ends and when
        let l = std::env::args().skip(2).take_while(|a| !a.starts_with("--")).collect::<Vec<_>>().join(" ");
        println!("{}", Case::parse(&l).expect("case").exec().text());
        return;
    }
    engine::watchdog();
    let t = Instant::now();
    let mut rep = engine::Report::new();
    match mode.as_str() {
        "chain" => conf::chain(&ctx, &mut rep, case::Algo::parse(&arg).expect("algo")),
        "kdf" => conf::kdf(&ctx, &mut rep),
        "sum" => conf::sum(&ctx, &mut rep),
        "klen" => conf::klen(&ctx, &mut rep),
        "params" => conf::params(&ctx, &mut rep),
        "work" => sys::work(&ctx, &mut rep),
        "history" => sys::history(&ctx, &mut rep),
        "stress" => sys::stress(&ctx, &mut rep),
        "firstcall" => sys::firstcall(&ctx, &mut rep),
        "mem" => sys::mem(&ctx, &mut rep),
        "sens" => rel::sens(&ctx, &mut rep),
        "aval" => rel::aval(&ctx, &mut rep),
        _ => {
            eprintln!("unknown mode {}", mode);
            std::process::exit(51);
        }
    }
    let j = rep.json(&format!("{} {}", mode, if arg.starts_with("--") { "" } else { &arg }), t.elapsed().as_secs_f64());
    std::fs::write(&out, j).unwrap();
    std::process::exit(if rep.violations.is_empty() { 0 } else { 1 });
}

/// Case files for the interpreted, cross-compiled and sanitized runs.
fn cases(ctx: &conf::Ctx, what: &str) -> String {
    use case::{Algo, Blob, Stage, ALL_SUMS};
    use gen::Rng;
    let mut r = Rng::new(ctx.seed, 0xCA5E, what.len() as u64);
    let mut v: Vec<Case> = Vec::new();
    match what {
        // small: for Miri, seconds per call
        "tiny" => {
            let n = r.range(0, 200) as usize;
            v.push(Case::sum(Algo::V2, r.bytes(n)));
            v.push(Case::sum(Algo::V3, gen::header(ctx.seed, 1, 77)));
            v.push(Case::sum(Algo::Re, r.clone().bytes(3)));
            v.push(Case::sum(Algo::L2, gen::fill(r.below(744) as usize, 2, 5)));
            v.push(Case::kdf(r.range(97, 300), 2, 5, 2, gen::fill(19, 2, 1), gen::fill(13, 2, 2)));
            v.push(Case::kdf(16, 1, 3, 1, vec![0xff; 8], vec![0x80; 16]));
            v.push(gen::refused(&mut r));
            v.push(Case::sum(Algo::Z, r.bytes(56)));
        }
        "small" => {
            v.extend(cases(ctx, "tiny").lines().map(|l| Case::parse(l).unwrap()));
            for len in [0usize, 1, 55, 56, 63, 64, 65, 119, 120, 128] {
                v.push(Case::Sum(ALL_SUMS[len % 3], Blob::make(len, 2, ctx.seed)));
            }
            for (k, t, rr, c, a, b) in [(0u64, 1u64, 3u64, 2u64, 0usize, 0usize), (32, 3, 6, 1, 9, 7), (96, 1, 7, 2, 8, 80), (192, 2, 4, 1, 0, 33), (33, 4, 3, 3, 100, 0), (32, 1, 9, 1, 32, 32)] {
                v.push(Case::Kdf(refmodel::KdfParams { k, t, r: rr, c }, Blob::make(a, 2, 1), Blob::make(b, 8, 2)));
            }
            let cap = gen::capacity(3, 1);
            v.push(Case::kdf(32, 1, 3, 1, gen::fill(cap as usize, 2, 1), vec![]));
            v.push(Case::kdf(32, 1, 3, 1, gen::fill(cap as usize + 1, 2, 1), vec![]));
            v.push(Case::kdf(32, 1, 4, 0, vec![], vec![]));
            v.push(Case::kdf(32, 0, 4, 4, vec![1], vec![2]));
            v.push(Case::kdf(32, 1, 2, 4, vec![1], vec![2]));
            v.push(Case::kdf(32, 1, 1 << 63 | 5, 4, vec![1; 8], vec![2; 8]));
            v.push(Case::kdf(32, 1, 1 << 62 | 4, 4, vec![1; 8], vec![2; 8]));
            v.push(Case::sum(Algo::L2, gen::fill(744, 2, 5)));
        }
        // large: for native builds
        _ => {
            v.extend(cases(ctx, "small").lines().map(|l| Case::parse(l).unwrap()));
            for b in gen::messages_systematic(ctx.seed, 300_000, true) {
                let l = b.v.len();
                v.push(Case::Sum(ALL_SUMS[v.len() % if l <= 743 { 5 } else { 4 }], b));
            }
            let rare = gen::rare();
            for (a, m) in rare.iter().skip(ctx.seed as usize % 4).step_by(if ctx.thorough { 1 } else { 4 }) {
                v.push(Case::sum(*a, m.clone()));
            }
            for c in gen::kdf_systematic(ctx.seed, ctx.thorough) {
                if let Case::Kdf(p, ..) = &c {
                    if p.r.saturating_mul(p.c).saturating_mul(p.t) < 200_000 {
                        v.push(c);
                    }
                }
            }
            for i in 0..ctx.n(6000, 40_000) {
                v.push(gen::kdf_bulk(ctx.seed, i));
                v.push(Case::Sum(ALL_SUMS[(i % 4) as usize], gen::message_bulk(ctx.seed, i)));
                if i % 8 == 0 {
                    v.push(gen::refused(&mut r));
                }
                if case::HOOKS && i % 4 == 0 {
                    let st = [Stage::Bmw, Stage::Cube, Stage::Mod][(i / 4 % 3) as usize];
                    v.push(Case::Stage(st, Blob::raw(gen::stage_input(ctx.seed, i, st))));
                }
            }
        }
    }
    v.iter().map(|c| c.line() + "\n").collect()
}

/// Re-executes the calls of a replay file in order and prints what comes back.
fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let mut bad = 0;
    let mut prev: Option<case::Outcome> = None;
    for l in t.lines() {
        let Some(c) = Case::parse(l) else {
            println!("{}", l);
            continue;
        };
        let (got, want) = (c.exec(), c.expect());
        println!("{}\n  returned {}\n  model    {}", c.brief(), got.text(), want.text());
        if prev.as_ref() == Some(&got) {
            println!("  SAME RESULT as the call before it");
        }
        if !got.same(&want) {
            println!("  MISMATCH");
            bad = 1;
        }
        prev = Some(got);
    }
    bad
}
