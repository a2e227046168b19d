//! Executes case files and prints one result line per call; no monitors of its own, so
//! that it runs under Miri, on foreign targets and under any sanitizer.
//!   interp seq FILE            every case once, in order
//!   interp par FILE N          N threads released together, each executing all cases,
//!                              starting at different places
//!   interp same FILE N         N threads released together, all executing the same case
//!                              at the same time, case after case
#![allow(dead_code, unexpected_cfgs)]
mod case;
mod gen;
mod refmodel;
use case::Case;

// There is no 32-bit startup object here, only the 32-bit C library: start by hand.
#[cfg(all(target_arch = "x86", native32))]
std::arch::global_asm!(
    ".globl _start",
    "_start:",
    "xor %ebp, %ebp",
    "pop %esi",
    "mov %esp, %ecx",
    "and $-16, %esp",
    "push %eax",
    "push %esp",
    "push %edx",
    "push $0",
    "push $0",
    "push %ecx",
    "push %esi",
    "call 1f",
    "1: pop %ebx",
    "lea main-1b(%ebx), %eax",
    "push %eax",
    "call __libc_start_main",
    "hlt",
    options(att_syntax)
);
use std::sync::{Arc, Barrier};

/// Deliberate faults, to show that the sanitizer at hand is awake.
fn canary(which: &str) {
    match which {
        "oob" => {
            let v: Vec<u64> = (0..12).collect();
            let i = std::hint::black_box(12usize);
            println!("{}", std::hint::black_box(unsafe { *v.as_ptr().add(i) }));
        }
        "uninit" => {
            let v: Vec<u64> = Vec::with_capacity(12);
            let x = unsafe { *v.as_ptr().add(std::hint::black_box(3)) };
            if std::hint::black_box(x) & 1 == 0 {
                println!("even");
            }
        }
        _ => {
            static mut SHARED: u64 = 0;
            let hs: Vec<_> = (0..2)
                .map(|t| {
                    std::thread::spawn(move || {
                        for i in 0..1000u64 {
                            unsafe {
                                let p = std::ptr::addr_of_mut!(SHARED);
                                *p = std::hint::black_box((*p).wrapping_add(i * t));
                            }
                        }
                    })
                })
                .collect();
            for h in hs {
                let _ = h.join();
            }
            println!("{}", unsafe { *std::ptr::addr_of!(SHARED) });
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "canary" {
        return canary(&args[2]);
    }
    case::quiet_panics();
    let text = std::fs::read_to_string(&args[2]).expect("case file");
    let cases: Arc<Vec<Case>> = Arc::new(text.lines().filter(|l| !l.starts_with('#')).map(|l| Case::parse(l).expect("case")).collect());
    let n: usize = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(4);
    let mut out = String::new();
    match args[1].as_str() {
        "seq" => {
            for c in cases.iter() {
                out.push_str(&c.exec().log());
                out.push('\n');
            }
        }
        how => {
            let same = how == "same";
            let bar = Arc::new(Barrier::new(n));
            let mut hs = Vec::new();
            for t in 0..n {
                let (cases, bar) = (cases.clone(), bar.clone());
                hs.push(std::thread::spawn(move || {
                    let mut o = String::new();
                    bar.wait();
                    for k in 0..cases.len() {
                        let i = if same { k } else { (k + t) % cases.len() };
                        o.push_str(&format!("{} {}\n", i, cases[i].exec().log()));
                    }
                    o
                }));
            }
            for h in hs {
                out.push_str(&h.join().expect("thread"));
            }
        }
    }
    print!("{}", out);
}
