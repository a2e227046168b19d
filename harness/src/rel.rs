//! Relational monitors: what two or more observed results say about each other.
use crate::case::{Algo, Blob, Case, Outcome, CHAINS};
use crate::conf::Ctx;
use crate::engine::{call, run_indexed, Report};
use crate::gen::{self, Rng};
use crate::refmodel::{lyra2 as rl, KdfParams};
use std::collections::HashMap;
use std::sync::Mutex;

type Args = (KdfParams, Vec<u8>, Vec<u8>);
fn case_of(a: &Args) -> Case {
    Case::Kdf(a.0, Blob::raw(a.1.clone()), Blob::raw(a.2.clone()))
}
/// The known defect: the last len % 8 bytes of password and salt are not absorbed.
/// Names it when two argument tuples differ in nothing but those bytes.
fn tail_only(x: &Args, y: &Args) -> Option<&'static str> {
    let w = |v: &[u8]| v[..v.len() & !7].to_vec();
    if x.0 != y.0 || x.1.len() != y.1.len() || x.2.len() != y.2.len() || w(&x.1) != w(&y.1) || w(&x.2) != w(&y.2) {
        return None;
    }
    Some(if x.1 != y.1 { "kdf-password-tail" } else { "kdf-salt-tail" })
}

pub fn sens(ctx: &Ctx, rep: &mut Report) {
    let n = ctx.n(160_000, 1_600_000);
    let seen: Vec<Mutex<HashMap<Vec<u8>, Args>>> = (0..64).map(|_| Mutex::new(HashMap::new())).collect();
    run_indexed(rep, n, 8, ctx.limit, |l, i| {
        let mut r = Rng::new(ctx.seed, 0xC16, i);
        // one in 24 on a larger matrix, with larger inputs
        let large = i % 24 == 7;
        let rr = match r.below(3) { 0 => r.pick(&[4u64, 8, 16]), _ => if large { r.logu(24, 400) } else { r.range(3, 24) } };
        let c = if large { r.logu(4, 64) } else { r.range(1, 6) };
        let cap = gen::capacity(rr, c).saturating_sub(24).min(if large { 20_000 } else { 400 });
        let tot = r.below(cap + 1);
        let (mut a, mut b) = { let a = r.below(tot + 1); (a as usize, (tot - a) as usize) };
        if r.chance(2, 3) {
            a &= !7;
            b &= !7;
        }
        let base: Args = (KdfParams { k: r.pick(&[16u64, 20, 32, 32, 64, 96, 97, 130]), t: r.range(1, 4), r: rr, c }, r.bytes(a), r.bytes(b));
        if !rl::valid(&base.0, a, b) {
            return;
        }
        let out0 = match call(&case_of(&base)) {
            Outcome::Bytes(v) => v,
            Outcome::Panic(_) => return, // C08's business
        };
        l.evals += 1;
        l.hashes.push(case_of(&base).hash());
        let mut variants: Vec<(&'static str, Args)> = Vec::new();
        if a > 0 {
            for _ in 0..4 {
                let mut v = base.clone();
                let p = r.below(a as u64 * 8);
                v.1[(p / 8) as usize] ^= 1 << (p % 8);
                variants.push(("password bit", v));
            }
            let mut v = base.clone();
            v.1[a - 1] ^= 0x80;
            variants.push(("password last byte", v));
            let mut v = base.clone();
            v.1[0] ^= 1;
            variants.push(("password first byte", v));
            let mut v = base.clone();
            v.1.pop();
            variants.push(("password shortened", v));
            let mut v = base.clone();
            let x = v.1.pop().unwrap();
            v.2.insert(0, x);
            variants.push(("boundary moved left", v));
            if a >= 8 {
                let mut v = base.clone();
                let t = v.1.split_off(a - 8);
                v.2.splice(0..0, t);
                variants.push(("boundary moved left by 8", v));
            }
        }
        if b > 0 {
            for _ in 0..4 {
                let mut v = base.clone();
                let p = r.below(b as u64 * 8);
                v.2[(p / 8) as usize] ^= 1 << (p % 8);
                variants.push(("salt bit", v));
            }
            let mut v = base.clone();
            v.2[b - 1] ^= 0x80;
            variants.push(("salt last byte", v));
            let mut v = base.clone();
            v.2[0] ^= 1;
            variants.push(("salt first byte", v));
            let mut v = base.clone();
            v.2.pop();
            variants.push(("salt shortened", v));
            let mut v = base.clone();
            let x = v.2.remove(0);
            v.1.push(x);
            variants.push(("boundary moved right", v));
            if b >= 8 {
                let mut v = base.clone();
                let t: Vec<u8> = v.2.drain(..8).collect();
                v.1.extend(t);
                variants.push(("boundary moved right by 8", v));
            }
        }
        for z in [1usize, 8] {
            let mut v = base.clone();
            v.1.extend(vec![0; z]);
            variants.push(("password zero-extended", v));
            let mut v = base.clone();
            v.2.extend(vec![0; z]);
            variants.push(("salt zero-extended", v));
        }
        if base.1 != base.2 {
            let mut v = base.clone();
            std::mem::swap(&mut v.1, &mut v.2);
            variants.push(("exchanged", v));
        }
        for d in [1u64, 2, 8, 16, 256] {
            let mut v = base.clone();
            v.0.t += d;
            if d <= 16 || i % 16 == 0 {
                variants.push(("time cost", v));
            }
            let mut v = base.clone();
            v.0.r += d;
            variants.push(("rows", v));
            let mut v = base.clone();
            v.0.c += d;
            variants.push(("columns", v));
            let mut v = base.clone();
            v.0.k = v.0.k.wrapping_add(d);
            variants.push(("key length", v));
        }
        if base.0.r != base.0.c && base.0.c >= 3 {
            let mut v = base.clone();
            std::mem::swap(&mut v.0.r, &mut v.0.c);
            variants.push(("rows and columns exchanged", v));
        }
        if i % 500 == 0 {
            let mut v = base.clone();
            v.0.k = v.0.k.wrapping_add(65_536);
            variants.push(("key length", v));
            let mut v = base.clone();
            (v.0.t, v.0.r, v.0.c) = (base.0.t + 65_536, 3, 1);
            let mut w = base.clone();
            (w.0.r, w.0.c) = (3, 1);
            for x in [&mut v, &mut w] {
                x.1.truncate(24);
                x.2.truncate(24);
            }
            pair(l, "time cost by 65536", &v, &w, None);
            for big in [(3u64 + 65_536, 1u64, 3u64, 1u64), (3, 2 + 65_536, 3, 2)] {
                let (mut v, mut w) = (base.clone(), base.clone());
                (v.0.r, v.0.c, v.0.t) = (big.0, big.1, 1);
                (w.0.r, w.0.c, w.0.t) = (big.2, big.3, 1);
                for x in [&mut v, &mut w] {
                    x.1.truncate(24);
                    x.2.truncate(24);
                }
                pair(l, "rows/columns by 65536", &v, &w, None);
            }
        }
        for (name, v) in &variants {
            if !rl::valid(&v.0, v.1.len(), v.2.len()) {
                continue;
            }
            pair(l, name, &base, v, Some(&out0));
        }
        // and no two tuples ever seen may share a key
        if base.1.len() % 8 == 0 && base.2.len() % 8 == 0 {
            let key = out0[..16].to_vec();
            let mut m = seen[key[0] as usize % 64].lock().unwrap();
            if let Some(o) = m.get(&key) {
                if *o != base {
                    l.violation("kdf-collision", format!("{} and {} derive the same key", case_of(o).brief(), case_of(&base).brief()), vec![case_of(o).line(), case_of(&base).line()]);
                }
            } else {
                m.insert(key, base);
            }
        }
    });
    // passwords and salts as people write them, and what some software takes for the same text
    run_indexed(rep, ctx.n(30_000, 300_000), 8, ctx.limit, |l, i| {
        let mut r = Rng::new(ctx.seed, 0xC16B, i);
        let mut any = |n: u64| {
            let n = r.range(1, n) as usize;
            let n = if r.chance(1, 2) { n.next_multiple_of(8) } else { n };
            let (k, s) = (r.pick(&[3u8, 12, 12, 13, 14, 14]), r.u64());
            gen::fill(n, k, s)
        };
        let base: Args = (KdfParams { k: 32, t: 1, r: 4, c: 2 }, any(64), any(32));
        let Outcome::Bytes(out0) = call(&case_of(&base)) else { return };
        l.evals += 1;
        l.hashes.push(case_of(&base).hash());
        for which in 0..2 {
            for v in gen::same_text(if which == 0 { &base.1 } else { &base.2 }) {
                let y: Args = if which == 0 { (base.0, v, base.2.clone()) } else { (base.0, base.1.clone(), v) };
                if rl::valid(&y.0, y.1.len(), y.2.len()) {
                    pair(l, ["password: text written otherwise", "salt: text written otherwise"][which], &base, &y, Some(&out0));
                }
            }
        }
    });
    // the neighbourhood of every call the guided run found worth making
    let bases: Vec<Args> = ctx.extra.iter().filter_map(|c| match c {
        Case::Kdf(p, a, b) if c.valid() && p.k >= 16 && c.weight() < 40_000 => Some((*p, a.v.clone(), b.v.clone())),
        _ => None,
    }).take(800).collect();
    run_indexed(rep, bases.len() as u64, 1, ctx.limit, |l, i| {
        let base = &bases[i as usize];
        let c = case_of(base);
        let odd = i < 12 && !call(&c).same(&c.expect());
        let room = |w: u64| ((if odd { 4_000_000 } else { 400_000 }) / (w + 20)).min(if odd { 20_000 } else { 600 }) as usize;
        let mut r = Rng::new(ctx.seed, 0xC16E, i);
        let mut vs = neighbours(&mut r, base, odd);
        while vs.len() > room(c.weight()) {
            let k = r.below(vs.len() as u64) as usize;
            vs.swap_remove(k);
        }
        let Outcome::Bytes(out0) = call(&c) else { return };
        l.feat(if odd { "neighbourhoods of calls with an unexpected key" } else { "neighbourhoods of guided calls" }, 1);
        for (name, v) in &vs {
            if rl::valid(&v.0, v.1.len(), v.2.len()) && case_of(v).weight() < 400_000 {
                pair(l, name, base, v, Some(&out0));
            }
        }
    });
    // the same defect through the plain hash
    run_indexed(rep, ctx.n(200_000, 2_000_000), 16, ctx.limit, |l, i| {
        let mut r = Rng::new(ctx.seed, 0xC16A, i);
        let len = r.range(1, 736) as usize;
        let m = r.bytes(len);
        let p = if i % 3 == 0 { (len as u64 * 8).saturating_sub(1 + r.below((len as u64 * 8).min(56))) } else { r.below(len as u64 * 8) };
        let mut m2 = m.clone();
        m2[(p / 8) as usize] ^= 1 << (p % 8);
        let (c, d) = (Case::sum(Algo::L2, m.clone()), Case::sum(Algo::L2, m2));
        let mut m3 = m.clone();
        m3.push(0);
        let e = Case::sum(Algo::L2, m3);
        if let (Outcome::Bytes(x), Outcome::Bytes(y), Outcome::Bytes(z)) = (call(&c), call(&d), call(&e)) {
            l.evals += 2;
            l.hashes.push(d.hash());
            l.feat("pair: plain hash message bit", 1);
            if x == y {
                let sig = if (p / 8) as usize >= len & !7 { "plain-hash-tail" } else { "plain-hash-insensitive" };
                l.violation(sig, format!("messages of {} bytes that differ in bit {} only have the same plain Lyra2 hash", len, p), vec![c.line(), d.line()]);
            }
            if x == z {
                l.violation("plain-hash-insensitive", format!("a {}-byte message and its extension by a zero byte have the same plain Lyra2 hash", len), vec![c.line(), e.line()]);
            }
        }
    });
}
/// Argument tuples that differ from one in one respect; every byte value everywhere when
/// `all`, every bit otherwise.
fn neighbours(r: &mut Rng, base: &Args, all: bool) -> Vec<(&'static str, Args)> {
    let mut o: Vec<(&'static str, Args)> = Vec::new();
    for which in 0..2 {
        let get = |v: &Args| if which == 0 { v.1.clone() } else { v.2.clone() };
        let put = |b: Vec<u8>| -> Args { if which == 0 { (base.0, b, base.2.clone()) } else { (base.0, base.1.clone(), b) } };
        let b = get(base);
        let name = ["password bit", "salt bit"][which];
        for p in 0..b.len().min(600) {
            let p = if b.len() <= 600 { p } else { r.below(b.len() as u64) as usize };
            for x in 1..=255u8 {
                if all || x.is_power_of_two() {
                    let mut v = b.clone();
                    v[p] ^= x;
                    o.push((name, put(v)));
                }
            }
        }
        for n in [1usize, 2, 3, 4, 5, 7, 8, 9, 16] {
            for z in [0u8, 0x80, 0xff, b' ', b'\n', 1] {
                let mut v = b.clone();
                v.extend(vec![z; n]);
                o.push((["password extended", "salt extended"][which], put(v)));
                let mut v = b.clone();
                v.splice(0..0, vec![z; n]);
                o.push((["password extended", "salt extended"][which], put(v)));
            }
            if n <= b.len() {
                o.push((["password shortened", "salt shortened"][which], put(b[..b.len() - n].to_vec())));
                o.push((["password shortened", "salt shortened"][which], put(b[n..].to_vec())));
            }
        }
        for n in 0..b.len().min(64) {
            o.push((["password shortened", "salt shortened"][which], put(b[..n].to_vec())));
        }
        let mut v = b.clone();
        v.reverse();
        o.push((["password reversed", "salt reversed"][which], put(v)));
        if b.len() <= 4096 {
            for v in gen::same_text(&b) {
                o.push((["password: text written otherwise", "salt: text written otherwise"][which], put(v)));
            }
        }
        for w in [4usize, 8, 64] {
            let mut v = b.clone();
            for k in v.chunks_exact_mut(w) {
                k.reverse();
            }
            o.push((["password byte-swapped", "salt byte-swapped"][which], put(v)));
        }
    }
    for n in 1..=17usize {
        if n <= base.1.len() {
            let (x, y) = base.1.split_at(base.1.len() - n);
            o.push(("boundary moved left", (base.0, x.to_vec(), [y, &base.2[..]].concat())));
        }
        if n <= base.2.len() {
            let (x, y) = base.2.split_at(n);
            o.push(("boundary moved right", (base.0, [&base.1[..], x].concat(), y.to_vec())));
        }
    }
    o.push(("boundary moved right", (base.0, [&base.1[..], &base.2[..]].concat(), vec![])));
    o.push(("boundary moved left", (base.0, vec![], [&base.1[..], &base.2[..]].concat())));
    o.push(("exchanged", (base.0, base.2.clone(), base.1.clone())));
    for which in 0..4 {
        let mut vals: Vec<u64> = (0..40u64).collect();
        let x = [base.0.k, base.0.t, base.0.r, base.0.c][which];
        for d in (1..=40u64).chain([48, 64, 96, 128, 255, 256, 257, 512, 1000, 1024, 4096, 65_535, 65_536]) {
            vals.extend([x.saturating_add(d), x.saturating_sub(d)]);
        }
        for e in 0..20 {
            vals.push(x ^ (1 << e));
        }
        for v in vals {
            let mut p = base.0;
            *[&mut p.k, &mut p.t, &mut p.r, &mut p.c][which] = v;
            o.push((["key length", "time cost", "rows", "columns"][which], (p, base.1.clone(), base.2.clone())));
        }
    }
    let mut p = base.0;
    std::mem::swap(&mut p.r, &mut p.c);
    o.push(("rows and columns exchanged", (p, base.1.clone(), base.2.clone())));
    let mut p = base.0;
    std::mem::swap(&mut p.t, &mut p.c);
    o.push(("time cost and columns exchanged", (p, base.1.clone(), base.2.clone())));
    let mut p = base.0;
    std::mem::swap(&mut p.t, &mut p.r);
    o.push(("time cost and rows exchanged", (p, base.1.clone(), base.2.clone())));
    o.retain(|(_, v)| v != base);
    o
}
fn pair(l: &mut Report, name: &'static str, x: &Args, y: &Args, known: Option<&Vec<u8>>) {
    let o1 = match known {
        Some(v) => Outcome::Bytes(v.clone()),
        None => call(&case_of(x)),
    };
    let o2 = call(&case_of(y));
    let (Outcome::Bytes(a), Outcome::Bytes(b)) = (o1, o2) else { return };
    l.evals += 1;
    l.hashes.push(case_of(y).hash());
    l.feat(&format!("pair: {}", name), 1);
    let n = a.len().min(b.len());
    if n < 16 {
        return;
    }
    if a[..n] == b[..n] {
        let sig = tail_only(x, y).unwrap_or("kdf-insensitive");
        l.violation(sig, format!("{} changed, same key: {} and {}", name, case_of(x).brief(), case_of(y).brief()), vec![case_of(x).line(), case_of(y).line()]);
    }
    if l.evals % 4001 == 9 {
        l.sample(|| format!("{}: {} vs {}: keys differ", name, case_of(x).brief(), case_of(y).brief()));
    }
}

/// Prefix-length-independent keys: truncated outputs of different K must also differ; see `pair`.
pub fn aval(ctx: &Ctx, rep: &mut Report) {
    // digest -> message, over everything observed
    let seen: Vec<Mutex<HashMap<u64, (u64, Vec<u8>, Algo, Vec<u8>)>>> = (0..256).map(|_| Mutex::new(HashMap::new())).collect();
    let dist: Mutex<[u64; 257]> = Mutex::new([0; 257]);
    let note = |l: &mut Report, a: Algo, m: &[u8]| -> Option<Vec<u8>> {
        let c = Case::sum(a, m.to_vec());
        let Outcome::Bytes(d) = call(&c) else { return None };
        l.evals += 1;
        l.hashes.push(c.hash());
        if d.len() < 16 {
            l.violation("short-digest", format!("{} returned {} bytes", c.brief(), d.len()), vec![c.line()]);
            return None;
        }
        let mut k = [0u8; 8];
        k.copy_from_slice(&d[..8]);
        let key = u64::from_le_bytes(k) ^ ((a as u64) << 61);
        let mh = crate::case::fnv(m);
        let mut t = seen[d[9] as usize].lock().unwrap();
        if let Some((h, m0, a0, d0)) = t.get(&key) {
            if *a0 == a && *d0 == d && (*h != mh || (!m0.is_empty() && m0 != m)) {
                l.violation(&format!("collision-{}", a.name()), format!("two different messages have the {} digest {}", a.name(), crate::case::hex(&d)), vec![Case::sum(a, m0.clone()).line(), c.line()]);
            }
        } else {
            t.insert(key, (mh, if m.len() <= 128 { m.to_vec() } else { vec![] }, a, d.clone()));
        }
        Some(d)
    };
    let cmp = |l: &mut Report, a: Algo, x: &[u8], dx: &[u8], y: &[u8], name: &str| {
        let Some(dy) = note(l, a, y) else { return };
        if dx.len() != dy.len() {
            return;
        }
        let h: u32 = dx.iter().zip(&dy).map(|(p, q)| (p ^ q).count_ones()).sum();
        dist.lock().unwrap()[h.min(256) as usize] += 1;
        l.feat(&format!("pair {}: {}", a.name(), name), 1);
        l.feat_max("flipped bits", h as u64);
        l.feat_max("256 - flipped bits", 256 - h.min(256) as u64);
        // 256 fair bits: P(outside 64..192) < 2^-52 per pair
        if !(64..=192).contains(&h) {
            l.violation(&format!("avalanche-{}", a.name()), format!("{}: the digests of two {} messages differ in {} bits only/instead of about 128", name, a.name(), h), vec![Case::sum(a, x.to_vec()).line(), Case::sum(a, y.to_vec()).line()]);
        }
    };
    // every bit position of messages of many lengths
    let mut jobs: Vec<(usize, u8)> = Vec::new();
    for len in (1..=80usize).chain([95, 96, 119, 120, 127, 128, 129, 183, 184, 191, 192, 200, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1024]) {
        for kind in [0u8, 2] {
            jobs.push((len, kind));
        }
    }
    run_indexed(rep, jobs.len() as u64 * 4, 1, ctx.limit, |l, i| {
        let (len, kind) = jobs[jobs.len() - 1 - (i / 4) as usize];
        let a = CHAINS[(i % 4) as usize];
        let m = gen::fill(len, kind, ctx.seed);
        let Some(d) = note(l, a, &m) else { return };
        let step = if len > 300 && !ctx.thorough { 7 } else { 1 };
        for bit in (0..len * 8).step_by(step) {
            let mut y = m.clone();
            y[bit / 8] ^= 1 << (bit % 8);
            cmp(l, a, &m, &d, &y, "bit flip");
        }
        l.sample(|| format!("{}: all single-bit flips of a {}-byte message (pattern {})", a.name(), len, kind));
    });
    // lengths: every prefix of one message, and zero/0x80 extensions
    run_indexed(rep, 4 * 8, 1, ctx.limit, |l, i| {
        let a = CHAINS[(i % 4) as usize];
        let kind = [0u8, 1, 2, 5, 3, 9, 10, 2][(i / 4) as usize];
        let m = gen::fill(1400, kind, ctx.seed ^ i);
        let mut prev: Option<(Vec<u8>, Vec<u8>)> = None;
        for n in 0..m.len() {
            let x = &m[..n];
            let Some(d) = note(l, a, x) else { continue };
            if let Some((px, pd)) = &prev {
                let px = px.clone();
                let pd = pd.clone();
                cmp(l, a, &px, &pd, x, "extension by one byte");
            }
            prev = Some((x.to_vec(), d));
        }
    });
    run_indexed(rep, ctx.n(200_000, 1_600_000), 16, ctx.limit, |l, i| {
        let mut r = Rng::new(ctx.seed, 0xC17, i);
        let a = CHAINS[(i % 4) as usize];
        let m = gen::message_bulk(ctx.seed, r.u64() >> 8).v;
        let Some(d) = note(l, a, &m) else { return };
        for j in [2u64, 3, 5, 6, 9, 12, 13, 15] {
            let y = gen::mutate(&mut r, &m, j);
            if y != m {
                cmp(l, a, &m, &d, &y, "mutation");
            }
        }
        // long zero extensions, and whole blocks removed
        let mut y = m.clone();
        y.extend(vec![0; 1 + r.below(200) as usize]);
        cmp(l, a, &m, &d, &y, "zero extension");
        if m.len() >= 64 {
            let k = r.below((m.len() / 64) as u64) as usize * 64;
            let mut y = m.clone();
            y.drain(k..k + 64);
            cmp(l, a, &m, &d, &y, "64-byte block removed");
        }
        // two blocks exchanged
        if m.len() >= 128 && m[..64] != m[64..128] {
            let mut y = m.clone();
            for p in 0..64 {
                y.swap(p, 64 + p);
            }
            cmp(l, a, &m, &d, &y, "blocks exchanged");
        }
    });
    // text, and what some software takes for the same text
    run_indexed(rep, ctx.n(10_000, 80_000), 4, ctx.limit, |l, i| {
        let mut r = Rng::new(ctx.seed, 0xC17C, i);
        let a = CHAINS[(i % 4) as usize];
        let (n, k, s) = (r.logu(1, 300) as usize, r.pick(&[3u8, 12, 13, 14, 14]), r.u64());
        let m = gen::fill(n, k, s);
        let Some(d) = note(l, a, &m) else { return };
        for y in gen::same_text(&m) {
            cmp(l, a, &m, &d, &y, "text written otherwise");
        }
    });
    // large messages: a flip anywhere
    run_indexed(rep, ctx.n(1200, 8000), 1, ctx.limit, |l, i| {
        let mut r = Rng::new(ctx.seed, 0xC17B, i);
        let a = CHAINS[(i % 4) as usize];
        let n = match i / 4 % 8 {
            0 => r.pick(&[65_535usize, 65_536, 65_537, 1 << 20, 3_000_001]),
            1 => r.logu(100_000, 2_000_000) as usize,
            _ => r.logu(1000, 100_000) as usize,
        };
        let mut m = r.bytes(n);
        let Some(d) = note(l, a, &m) else { return };
        let mut at = vec![0, n - 1, n / 2, n - 64.min(n), 65_535.min(n - 1)];
        at.extend((0..if n < 100_000 { 40 } else { 6 }).map(|_| r.below(n as u64) as usize));
        for p in at {
            let x = m.clone();
            m[p] ^= 1 << r.below(8);
            let y = std::mem::replace(&mut m, x.clone());
            cmp(l, a, &x, &d, &y, "bit flip in a large message");
        }
        let mut y = m.clone();
        y.pop();
        cmp(l, a, &m, &d, &y, "large message shortened");
    });
    // the neighbourhood of every message the guided run found worth hashing
    let bases: Vec<(Algo, Vec<u8>)> = ctx.extra.iter().filter_map(|c| match c {
        Case::Sum(a, b) if *a != Algo::L2 => Some((*a, b.v.clone())),
        _ => None,
    }).take(900).collect();
    run_indexed(rep, bases.len() as u64, 1, ctx.limit, |l, i| {
        let (a, m) = &bases[i as usize];
        let c = Case::sum(*a, m.clone());
        let odd = i < 120 && !call(&c).same(&c.expect());
        let mut r = Rng::new(ctx.seed, 0xC17E, i);
        let mut vs = message_neighbours(&mut r, m, odd);
        let room = (if odd { 40_000_000 } else { 1_200_000 }) / (m.len() + 1500);
        while vs.len() > room {
            let k = r.below(vs.len() as u64) as usize;
            vs.swap_remove(k);
        }
        let Some(d) = note(l, *a, m) else { return };
        l.feat(if odd { "neighbourhoods of messages with an unexpected digest" } else { "neighbourhoods of guided messages" }, 1);
        for v in &vs {
            cmp(l, *a, m, &d, v, "neighbour of a guided message");
        }
    });
    // mean of the distances: a bias too small to show in any one pair
    let dd = dist.lock().unwrap();
    let n: u64 = dd.iter().sum();
    let s: u64 = dd.iter().enumerate().map(|(i, c)| i as u64 * c).sum();
    rep.feat("pairs compared", n);
    if n > 1000 {
        let mean = s as f64 / n as f64;
        rep.feat("mean flipped bits x1000", (mean * 1000.0) as u64);
        // standard error is 8/sqrt(n); pairs are not fully independent, so allow a full bit
        if (mean - 128.0).abs() > 1.0 {
            rep.violation("avalanche-mean", format!("on average {:.3} of 256 bits flip, not 128", mean), vec![]);
        }
    }
}

fn message_neighbours(r: &mut Rng, b: &[u8], all: bool) -> Vec<Vec<u8>> {
    let mut o: Vec<Vec<u8>> = Vec::new();
    let at: Vec<usize> = if b.len() <= 600 { (0..b.len()).collect() } else { (0..200).chain(b.len() - 100..b.len()).chain((0..300).map(|_| r.below(b.len() as u64) as usize)).collect() };
    for p in at {
        for x in 1..=255u8 {
            if all || x.is_power_of_two() {
                // long messages: not all of them
                if b.len() > 5000 && !r.chance(1, 8) {
                    continue;
                }
                let mut v = b.to_vec();
                v[p] ^= x;
                o.push(v);
            }
        }
    }
    for n in (1..=17usize).chain([24, 32, 64, 128]) {
        for z in [0u8, 0x80, 0xff, b' ', b'\n', b'0', 1] {
            let mut v = b.to_vec();
            v.extend(vec![z; n]);
            o.push(v);
            let mut v = b.to_vec();
            v.splice(0..0, vec![z; n]);
            o.push(v);
        }
        if n <= b.len() {
            o.push(b[..b.len() - n].to_vec());
            o.push(b[n..].to_vec());
        }
    }
    for n in 0..b.len().min(200) {
        o.push(b[..n].to_vec());
        o.push(b[..b.len() - n].to_vec());
    }
    for n in [1usize, 4, 8, 16, 32, 64, 128] {
        o.push(b[..b.len() / n * n].to_vec());
        let mut v = b.to_vec();
        v.resize(b.len().div_ceil(n) * n, 0);
        o.push(v);
        let mut v = b.to_vec();
        for k in v.chunks_exact_mut(n) {
            k.reverse();
        }
        o.push(v);
    }
    let mut v = b.to_vec();
    v.reverse();
    o.push(v);
    if b.len() <= 4096 {
        o.extend(gen::same_text(b));
    }
    o.push([b, b].concat());
    o.push(b.iter().copied().filter(|x| !x.is_ascii_whitespace()).collect());
    o.push(b.iter().copied().filter(|x| *x != 0).collect());
    let t = |f: &dyn Fn(u8) -> bool| -> Vec<u8> {
        let s = b.iter().position(|x| !f(*x)).unwrap_or(b.len());
        let e = b.iter().rposition(|x| !f(*x)).map_or(s, |p| p + 1);
        b[s..e].to_vec()
    };
    o.push(t(&|x| x == 0));
    o.push(t(&|x: u8| x.is_ascii_whitespace()));
    if !b.is_empty() {
        let mut v = b.to_vec();
        v.rotate_left(1);
        o.push(v);
    }
    o.retain(|v| v != b);
    o
}
