//! Deterministic workload generation: case i of a section is a function of
//! (seed, section, i) only.
use crate::case::{Algo, Blob, Case, Stage, ALL_SUMS};
use crate::refmodel::{bmw256, cubehash256, lyra2 as rl, KdfParams};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ c.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x5DEECE66D);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u64() % n }
    }
    /// inclusive
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    /// log-uniform in [a,b], a >= 1
    pub fn logu(&mut self, a: u64, b: u64) -> u64 {
        let (la, lb) = ((a as f64).ln(), (b as f64 + 0.999).ln());
        let u = (self.u64() >> 11) as f64 / (1u64 << 53) as f64;
        ((la + (lb - la) * u).exp() as u64).clamp(a, b)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

pub const KINDS: u8 = 15;
/// Content patterns; 2 is uniformly random.
pub fn fill(len: usize, kind: u8, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed, kind as u64, len as u64);
    match kind {
        0 => vec![0; len],
        1 => vec![0xff; len],
        3 => (0..len).map(|_| 0x20 + r.below(95) as u8).collect(),
        4 => {
            let mut v = vec![0; len];
            if len > 0 {
                for _ in 0..r.range(1, 3) {
                    let p = r.below(len as u64) as usize;
                    v[p] = 1 << r.below(8);
                }
            }
            v
        }
        5 => vec![r.u64() as u8; len],
        6 => (0..len).map(|i| i as u8).collect(),
        7 => {
            let w = r.u64().to_le_bytes();
            (0..len).map(|i| w[i % 8]).collect()
        }
        8 => (0..len).map(|_| 0x80 | r.u64() as u8).collect(),
        9 => (0..len).map(|_| r.pick(&[0u8, 1, 0x7f, 0x80, 0xff])).collect(),
        10 => {
            // random head, zero tail
            let h = r.below(len as u64 + 1) as usize;
            let mut v = r.bytes(h);
            v.resize(len, 0);
            v
        }
        11 => {
            // zero head, random tail
            let h = r.below(len as u64 + 1) as usize;
            let mut v = vec![0; h];
            v.extend(r.bytes(len - h));
            v
        }
        12 => {
            // hexadecimal, with or without a prefix
            let set: &[u8] = r.pick(&[&b"0123456789abcdef"[..], b"0123456789ABCDEF", b"0123456789abcdefABCDEF"]);
            let mut v: Vec<u8> = (0..len).map(|_| r.pick(set)).collect();
            if r.chance(1, 2) && len >= 2 {
                v[0] = b'0';
                v[1] = r.pick(b"xX");
            }
            v
        }
        13 => {
            let mut v: Vec<u8> = (0..len).map(|_| b'0' + r.below(10) as u8).collect();
            if r.chance(1, 3) && len >= 2 {
                v[0] = r.pick(b"0-+ ");
            }
            v
        }
        14 => text(&mut r, len),
        _ => r.bytes(len),
    }
}

/// Text as people write it: words, addresses, phrases, accents, other scripts, line ends.
pub fn text(r: &mut Rng, len: usize) -> Vec<u8> {
    const PARTS: [&str; 44] = [
        "password", "Password", "hunter2", "correct horse battery staple", "abandon ability able", "admin", "root", "user@example.com", "USER@EXAMPLE.COM", "https://example.org/", "C:\\Users\\", "/etc/passwd",
        "caf\u{e9}", "cafe\u{301}", "na\u{ef}ve", "stra\u{df}e", "STRASSE", "\u{130}stanbul", "\u{fb01}", "fi", "\u{ff21}\u{ff22}", "\u{200b}", "\u{feff}", "\u{a0}", "\u{1f600}", "\u{8107}\u{5c71}", "\r\n", "\n", "\t", " ", "  ", "'", "\"",
        "%20", "+", "=", "==", "null", "true", "-1", "007", "{}", "<a>", "\0",
    ];
    let mut v = Vec::with_capacity(len + 32);
    while v.len() < len {
        v.extend_from_slice(PARTS[r.below(PARTS.len() as u64) as usize].as_bytes());
        if r.chance(1, 3) {
            v.push(r.pick(b" -_.:/0123456789"));
        }
    }
    v.truncate(len);
    v
}

/// What some piece of software may hold to be the same text.
pub fn same_text(b: &[u8]) -> Vec<Vec<u8>> {
    let mut o: Vec<Vec<u8>> = Vec::new();
    let rep = |from: &[u8], to: &[u8]| -> Vec<u8> {
        let mut v = Vec::new();
        let mut i = 0;
        while i < b.len() {
            if b[i..].starts_with(from) {
                v.extend_from_slice(to);
                i += from.len();
            } else {
                v.push(b[i]);
                i += 1;
            }
        }
        v
    };
    o.push(b.to_ascii_lowercase());
    o.push(b.to_ascii_uppercase());
    o.push(b.iter().map(|c| if c.is_ascii_alphabetic() { c ^ 0x20 } else { *c }).collect());
    for i in 0..b.len().min(64) {
        if b[i].is_ascii_alphabetic() {
            let mut v = b.to_vec();
            v[i] ^= 0x20;
            o.push(v);
        }
    }
    if let Ok(s) = std::str::from_utf8(b) {
        o.push(s.to_lowercase().into_bytes());
        o.push(s.to_uppercase().into_bytes());
        o.push(s.trim().as_bytes().to_vec());
        o.push(s.trim_start().as_bytes().to_vec());
        o.push(s.trim_end().as_bytes().to_vec());
        o.push(s.split_whitespace().collect::<Vec<_>>().join(" ").into_bytes());
        o.push(s.chars().rev().collect::<String>().into_bytes());
        o.push(s.encode_utf16().flat_map(|c| c.to_le_bytes()).collect());
        o.push(s.encode_utf16().flat_map(|c| c.to_be_bytes()).collect());
        if s.chars().all(|c| (c as u32) < 256) {
            o.push(s.chars().map(|c| c as u8).collect());
        }
        o.push(s.chars().filter(|c| !c.is_control()).collect::<String>().into_bytes());
        o.push(s.chars().filter(|c| c.is_alphanumeric()).collect::<String>().into_bytes());
    } else {
        o.push(String::from_utf8_lossy(b).into_owned().into_bytes());
    }
    for (x, y) in [(&b"\r\n"[..], &b"\n"[..]), (b"\n", b"\r\n"), (b"\n", b""), (b" ", b""), (b" ", b"\t"), (b" ", b"+"), (b"+", b" "), (b"%20", b" "), (b"-", b""), (b"_", b"-"), (b"\0", b""), ("\u{e9}".as_bytes(), "e\u{301}".as_bytes()), ("e\u{301}".as_bytes(), "\u{e9}".as_bytes()), ("\u{feff}".as_bytes(), b""), ("\u{200b}".as_bytes(), b""), ("\u{df}".as_bytes(), b"ss"), ("\u{a0}".as_bytes(), b" ")] {
        o.push(rep(x, y));
    }
    let zero = b.iter().position(|c| *c != b'0').unwrap_or(b.len());
    o.push(b[zero..].to_vec());
    o.push([b"0", b].concat());
    for p in [&b"0x"[..], b"0X", b"+", b"-", b"\xef\xbb\xbf", b"\xff\xfe", b"#", b"$"] {
        o.push([p, b].concat());
        if let Some(t) = b.strip_prefix(p) {
            o.push(t.to_vec());
        }
    }
    for s in [&b"\n"[..], b"\r\n", b" ", b"\0", b"=", b"==", b"/", b".", b";"] {
        o.push([b, s].concat());
        if let Some(t) = b.strip_suffix(s) {
            o.push(t.to_vec());
        }
    }
    if let Some(n) = b.iter().position(|c| *c == 0) {
        o.push(b[..n].to_vec());
    }
    for q in [b'"', b'\'', b'`', b'<', b'('] {
        let e = match q { b'<' => b'>', b'(' => b')', c => c };
        o.push([&[q], b, &[e]].concat());
    }
    let hex = b.strip_prefix(b"0x").unwrap_or(b);
    if hex.len() % 2 == 0 && hex.iter().all(|c| c.is_ascii_hexdigit()) {
        let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
        o.push(hex.chunks(2).map(|p| d(p[0]) * 16 + d(p[1])).collect());
    }
    o.push(b.iter().flat_map(|c| format!("{:02x}", c).into_bytes()).collect());
    o.push(b.iter().map(|c| c & 0x7f).collect());
    o.retain(|v| v != b);
    o.sort();
    o.dedup();
    o
}

/// An 80-byte block header: version, prev hash, merkle root, time, bits, nonce.
pub fn header(seed: u64, group: u64, nonce: u32) -> Vec<u8> {
    let mut r = Rng::new(seed, 0x4EAD, group);
    let mut h = Vec::with_capacity(80);
    h.extend_from_slice(&(r.pick(&[1u32, 2, 0x70, 0x20000000, 0x2000_0002])).to_le_bytes());
    let mut prev = r.bytes(32);
    for b in prev[26..].iter_mut() {
        *b = 0;
    }
    h.extend(prev);
    h.extend(r.bytes(32));
    h.extend_from_slice(&(1_388_000_000u32 + r.below(300_000_000) as u32).to_le_bytes());
    h.extend_from_slice(&(0x1b00_0000u32 + r.below(0x300_0000) as u32).to_le_bytes());
    h.extend_from_slice(&nonce.to_le_bytes());
    h
}

/// Headers found by a long offline search (tools/miner): at some stage of the chain named,
/// their digest is unusual (runs of zero or one bits, equal words, extreme counts...).
/// "front" stands for BLAKE and Keccak, which all chains begin with.
pub fn rare() -> &'static [(Algo, Vec<u8>)] {
    static ALL: std::sync::OnceLock<Vec<(Algo, Vec<u8>)>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut out = Vec::new();
        for l in include_str!("rare.txt").lines() {
            let (mode, n) = l.split_once(' ').expect("rare.txt");
            let mut m: Vec<u8> = (0..72u8).map(|i| i.wrapping_mul(29) ^ 0x5c).collect();
            m.extend_from_slice(&u64::from_str_radix(n, 16).expect("rare.txt").to_le_bytes());
            match Algo::parse(mode) {
                Some(a) => out.push((a, m)),
                None => out.extend(ALL_SUMS[..4].iter().map(|a| (*a, m.clone()))),
            }
        }
        out
    })
}

/// The systematic part of the message workload, as a list of (len, kind, seed-salt) plus
/// explicit messages.
pub fn messages_systematic(seed: u64, max_len: usize, big: bool) -> Vec<Blob> {
    let mut out = Vec::new();
    for len in 0..=max_len.min(1100) {
        for kind in [0u8, 1, 2, 3, 9] {
            out.push(Blob::make(len, kind, seed));
        }
    }
    // one-bit messages
    for len in [1usize, 8, 32, 55, 64, 80, 128] {
        for bit in 0..len * 8 {
            let mut v = vec![0; len];
            v[bit / 8] = 1 << (bit % 8);
            if len <= max_len {
                out.push(Blob::raw(v));
            }
        }
    }
    // things a string-minded implementation might treat specially
    let mut r = Rng::new(seed, 0x7A11, 0);
    for tail in [&b"\0"[..], b"\n", b"\r\n", b" ", b"\t", b"\x80", b"\0\0\0\0\0\0\0\0", b"\xef\xbb\xbf", b"\x01"] {
        for len in [0usize, 1, 7, 8, 31, 32, 55, 56, 63, 64, 79, 80, 119, 120, 127, 128] {
            let mut v = r.bytes(len);
            v.extend_from_slice(tail);
            out.push(Blob::raw(v));
            let mut v = tail.to_vec();
            v.extend(r.bytes(len));
            out.push(Blob::raw(v));
        }
    }
    for s in ["abc", "ABC", "The quick brown fox jumps over the lazy dog", "脇山珠美ちゃんかわいい！", "😀😁😂", "password", "hello world", "0x00", "null"] {
        out.push(Blob::raw(s.as_bytes().to_vec()));
        out.push(Blob::raw(s.repeat(7).into_bytes()));
    }
    if big {
        for len in 1101..=8300usize {
            out.push(Blob::make(len, r.pick(&[2u8, 2, 2, 0, 9]), r.u64()));
        }
        for n in 11..=20u32 {
            for d in [-65i64, -64, -9, -8, -1, 0, 1, 8, 9, 55, 56, 63, 64] {
                let len = ((1i64 << n) + d) as usize;
                out.push(Blob::make(len, r.pick(&[2u8, 2, 2, 0, 1, 9]), r.u64()));
            }
        }
        for len in [1_000_000usize, 1_500_001, 3 << 20, (4 << 20) - 1, 4 << 20, (4 << 20) + 17, (8 << 20) + 5, (16 << 20) + 1] {
            out.push(Blob::make(len, 2, r.u64()));
        }
        for _ in 0..300 {
            let len = r.logu(1100, 300_000) as usize;
            out.push(Blob::make(len, (r.below(KINDS as u64)) as u8, r.u64()));
        }
    }
    out.retain(|b| b.v.len() <= max_len);
    out
}

/// Variant j of a base message: the neighbours a badly keyed cache, a sloppy comparison
/// or a length-blind implementation confuses.
pub fn mutate(r: &mut Rng, base: &[u8], j: u64) -> Vec<u8> {
    let mut v = base.to_vec();
    let n = v.len();
    match j % 16 {
        0 | 1 => {}
        2 if n > 0 => v[n - 1] = v[n - 1].wrapping_add(1),
        3 if n > 0 => v[0] ^= 1,
        4 if n > 1 => v[n / 2] ^= 0x80,
        5 if n > 0 => {
            v.pop();
        }
        6 => v.push(0),
        7 => v.push(0x80),
        8 if n > 1 => v.reverse(),
        9 => {
            // same head, new tail
            let h = n.min(r.pick(&[4usize, 8, 16, 32, 64]));
            v.truncate(h);
            v.extend(r.bytes(n - h));
        }
        10 => {
            // same tail, new head
            let h = n - n.min(r.pick(&[4usize, 8, 16, 32, 64]));
            for b in v[..h].iter_mut() {
                *b = r.u64() as u8;
            }
        }
        11 => v = r.bytes(n),
        12 if n > 1 => {
            let (a, b) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
            v.swap(a, b);
        }
        13 if n >= 8 => {
            // same byte sum
            let p = r.below(n as u64 - 1) as usize;
            v[p] = v[p].wrapping_add(1);
            v[p + 1] = v[p + 1].wrapping_sub(1);
        }
        14 => v.insert(0, 0),
        _ => {
            for _ in 0..1 + r.below(3) {
                if n > 0 {
                    v[r.below(n as u64) as usize] ^= 1 << r.below(8);
                }
            }
        }
    }
    v
}

/// Bulk message i.  Indices 32b..32b+32 belong together and are run in order by one thread.
pub fn message_bulk(seed: u64, i: u64) -> Blob {
    let mut r = Rng::new(seed, 0xB01C, i);
    if (i / 32) % 4 == 3 {
        let mut br = Rng::new(seed, 0xB01D, i / 32);
        let base = match br.below(4) {
            0 | 1 => header(seed, i / 32, br.u64() as u32),
            2 => {
                let n = br.below(200) as usize;
                br.bytes(n)
            }
            _ => {
                let (n, k, s) = (br.logu(1, 1000) as usize, br.below(KINDS as u64) as u8, br.u64());
                fill(n, k, s)
            }
        };
        let j = i % 32;
        return Blob::raw(if j % 5 == 4 { base } else { mutate(&mut r, &base, j) });
    }
    match i % 20 {
        0..=11 => Blob::raw(header(seed, i / 65536, (i as u32).wrapping_mul(if i / 65536 % 2 == 0 { 1 } else { 0x9E3779B1 }))),
        12..=16 => {
            let l = r.below(301) as usize;
            Blob::raw(r.bytes(l))
        }
        17 | 18 => {
            let l = r.below(200) as usize;
            let (k, s) = (r.below(KINDS as u64) as u8, r.u64());
            Blob::make(l, k, s)
        }
        _ => {
            let l = r.logu(1, 6000) as usize;
            let (k, s) = (r.below(KINDS as u64) as u8, r.u64());
            Blob::make(l, k, s)
        }
    }
}

/// 32-byte stage input i: states no message can be found for.
pub fn stage_input(seed: u64, i: u64, st: Stage) -> Vec<u8> {
    let mut r = Rng::new(seed, 0x57A6 + st as u64, i);
    let iv = match st {
        Stage::Bmw => bmw256::iv_bytes(),
        _ => cubehash256::iv_bytes(),
    };
    let mut v = match i % 8 {
        0 => iv.clone(),
        1 => iv.iter().map(|b| !b).collect(),
        2 => {
            // each word: cancel, saturate, or extreme
            let mut o = Vec::new();
            for w in iv.chunks(4) {
                let x = u32::from_le_bytes([w[0], w[1], w[2], w[3]]);
                let y = match r.below(6) {
                    0 => x,
                    1 => !x,
                    2 => x ^ 0x8000_0000,
                    3 => r.pick(&[0u32, 1, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff]),
                    4 => x ^ (1 << r.below(32)),
                    _ => r.u64() as u32,
                };
                o.extend_from_slice(&y.to_le_bytes());
            }
            o
        }
        3 => fill(32, r.below(KINDS as u64) as u8, i),
        4 => {
            let mut o = Vec::new();
            for _ in 0..4 {
                o.extend_from_slice(&r.pick(&[0u64, 1, u64::MAX, 1 << 63, 0xffff_ffff, 0xffff_ffff_0000_0000, (1 << 63) - 1]).to_le_bytes());
            }
            o
        }
        _ => r.bytes(32),
    };
    if i % 16 < 2 {
        let b = (i / 16) % 257;
        if b < 256 {
            v[(b / 8) as usize] ^= 1 << (b % 8);
        }
    }
    v
}

/// Largest pwd+salt byte count that fits an R x C matrix.
pub fn capacity(r: u64, c: u64) -> u64 {
    let blocks = r * c * 12 / 8;
    (blocks * 64).saturating_sub(49)
}

fn lens(r: &mut Rng, cap: u64) -> (usize, usize) {
    let total = match r.below(10) {
        0 => 0,
        1 => cap,
        2 => cap.saturating_sub(r.below(20)),
        3..=5 => r.below(cap.min(130) + 1),
        _ => r.logu(1, cap.max(1)).min(cap),
    };
    let mut a = match r.below(8) {
        0 => 0,
        1 => total,
        2 | 3 => total / 2,
        _ => r.below(total + 1),
    };
    let mut b = total - a;
    if r.chance(1, 2) {
        a &= !7;
        b &= !7;
    }
    (a as usize, b as usize)
}
fn blob(r: &mut Rng, len: usize) -> Blob {
    let kind = if r.chance(2, 3) { 2 } else { r.below(KINDS as u64) as u8 };
    let s = r.u64();
    Blob::make(len, kind, s)
}
fn kdf_of(r: &mut Rng, k: u64, t: u64, rr: u64, c: u64) -> Case {
    let (a, b) = lens(r, capacity(rr, c).min(3000));
    let pwd = blob(r, a);
    let salt = if r.chance(1, 8) && 2 * a as u64 <= capacity(rr, c) { pwd.clone() } else { blob(r, b) };
    Case::Kdf(KdfParams { k, t, r: rr, c }, pwd, salt)
}
fn klen(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.pick(&[0u64, 1, 8, 15, 16, 31, 32, 33, 64, 95, 96, 97, 128, 191, 192, 193, 288, 1000]),
        1 => r.range(0, 400),
        2 => r.logu(1, 3000),
        _ => 32,
    }
}

/// The systematic part of the KDF workload.
pub fn kdf_systematic(seed: u64, deep: bool) -> Vec<Case> {
    let mut r = Rng::new(seed, 0xD0F, 1);
    let mut out = Vec::new();
    for rr in 3..=40u64 {
        for c in 1..=6u64 {
            for t in 1..=4u64 {
                let k = klen(&mut r);
                out.push(kdf_of(&mut r, k, t, rr, c));
            }
        }
    }
    for a in 0..=48usize {
        for b in 0..=48usize {
            let (x, y) = (blob(&mut r, a), blob(&mut r, b));
            out.push(Case::Kdf(KdfParams { k: 32, t: 1, r: 4, c: 4 }, x, y));
        }
    }
    for a in (0..=320usize).step_by(8) {
        for b in (0..=320usize).step_by(40) {
            let (x, y) = (blob(&mut r, a), blob(&mut r, b));
            out.push(Case::Kdf(KdfParams { k: 32, t: 1, r: 8, c: 4 }, x, y));
        }
    }
    // fill the matrix exactly
    for (rr, c) in [(3u64, 1u64), (3, 2), (4, 1), (4, 2), (4, 4), (5, 3), (7, 1), (8, 8), (16, 3), (33, 2)] {
        let cap = capacity(rr, c);
        for back in 0..18u64 {
            for split in 0..4u64 {
                let tot = cap.saturating_sub(back);
                let a = match split {
                    0 => 0,
                    1 => tot,
                    2 => tot / 2,
                    _ => tot / 3 & !7,
                } as usize;
                let (x, y) = (blob(&mut r, a), blob(&mut r, tot as usize - a));
                out.push(Case::Kdf(KdfParams { k: 32, t: 1 + back % 3, r: rr, c }, x, y));
            }
        }
    }
    let bigs: Vec<u64> = vec![
        48, 49, 63, 64, 65, 66, 96, 100, 127, 128, 129, 130, 192, 200, 255, 256, 257, 258, 320, 384, 511, 512, 513, 640, 768, 1000, 1023, 1024, 1025, 1280, 1536, 2047, 2048, 2049, 4095, 4096, 4097,
        5000, 8191, 8192, 8193, 10007, 16384, 16385, 32767, 32768, 32769,
    ];
    for &b in &bigs {
        for t in 1..=3u64 {
            let k = klen(&mut r);
            out.push(kdf_of(&mut r, k, t, b, 1));
            let k = klen(&mut r);
            let c = 1 + b % 3;
            out.push(kdf_of(&mut r, k, t, b, c));
            let k = klen(&mut r);
            let rr = r.pick(&[3u64, 4, 5, 8]);
            out.push(kdf_of(&mut r, k, t, rr, b));
        }
    }
    for &b in &[65535u64, 65536, 65537, 65540, 100_000, 131_071, 131_072, 131_073] {
        out.push(kdf_of(&mut r, 32, 1, b, 1));
        out.push(kdf_of(&mut r, 32, 2, b, 1));
        out.push(kdf_of(&mut r, 32, 1, 3, b));
        out.push(kdf_of(&mut r, 32, 2, 4, b));
    }
    for t in (5..=40u64).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4096, 10_000, 32_767, 32_768, 65_535, 65_536, 65_537, 100_001]) {
        for (rr, c) in [(3u64, 1u64), (4, 1), (4, 2), (6, 1), (7, 1), (8, 1)] {
            if t * rr * c <= 1_000_000 {
                let k = klen(&mut r);
                out.push(kdf_of(&mut r, k, t, rr, c));
            }
        }
    }
    for k in (0..=320u64).chain([383, 384, 385, 479, 480, 481, 511, 512, 575, 576, 577, 959, 960, 961, 1023, 1024, 1025, 4096, 9599, 9600, 9601, 65_535, 65_536, 65_537, 1 << 20, (1 << 20) + 1]) {
        let (rr, t) = (r.range(3, 9), r.range(1, 3));
        out.push(kdf_of(&mut r, k, t, rr, 4));
    }
    // long passwords / salts
    for (a, b) in [(255usize, 0usize), (256, 1), (0, 257), (1000, 1000), (4096, 0), (0, 4096), (65_535, 8), (65_536, 16), (8, 65_536), (65_544, 65_544), (200_000, 100_000), (1 << 20, 8), (16, 1 << 20)] {
        let need = (a + b + 49) as u64 / 96 + 2;
        for c in [1u64, 7] {
            let rr = (need / c + 2).max(3);
            let (x, y) = (blob(&mut r, a), blob(&mut r, b));
            out.push(Case::Kdf(KdfParams { k: 32, t: 1, r: rr, c }, x, y));
        }
    }
    // steer the sponge into extreme states
    for i in 0..24u64 {
        let mut first = [0u8; 64];
        if i % 3 != 0 {
            first.copy_from_slice(&r.bytes(64));
        }
        let p = KdfParams { k: 32, t: 1 + i % 3, r: [4u64, 8, 5][(i % 3) as usize], c: 4 };
        let target = [0u64, u64::MAX, 1 << 63, 0x0101_0101_0101_0101][(i % 4) as usize];
        let pwd = rl::steering_password(&p, &first, target, 1 + (i % 4) as usize);
        out.push(Case::Kdf(p, Blob::raw(pwd), Blob::raw(vec![])));
    }
    if deep {
        for rr in 41..=700u64 {
            for t in 1..=3u64 {
                let c = r.range(1, 3);
                let k = klen(&mut r);
                out.push(kdf_of(&mut r, k, t, rr, c));
            }
        }
        for c in 7..=400u64 {
            for t in 1..=2u64 {
                let rr = r.range(3, 9);
                out.push(kdf_of(&mut r, 32, t, rr, c));
            }
        }
        for a in 0..=150usize {
            for b in 0..=150usize {
                let (x, y) = (blob(&mut r, a), blob(&mut r, b));
                out.push(Case::Kdf(KdfParams { k: 32, t: 1, r: 4, c: 4 }, x, y));
            }
        }
        for k in 321..=4000u64 {
            out.push(kdf_of(&mut r, k, 1, 4, 4));
        }
        for &b in &[(1u64 << 18) - 1, 1 << 18, (1 << 18) + 1, 1 << 20, (1 << 20) + 3] {
            out.push(kdf_of(&mut r, 32, 1, b, 1));
            out.push(kdf_of(&mut r, 32, 2, 5, b));
        }
    }
    out
}
/// Every value of each argument up to a few thousand, alone and with the parities of the others.
pub fn kdf_sweeps(seed: u64, deep: bool) -> Vec<Case> {
    let mut r = Rng::new(seed, 0x5EE9, 1);
    let mut out = Vec::new();
    let f = if deep { 3 } else { 1 };
    let mut put = |k: u64, t: u64, rr: u64, c: u64| {
        let (a, b) = (r.below(25) as usize, r.below(25) as usize);
        out.push(Case::Kdf(KdfParams { k, t, r: rr, c: c.max(if rr * c * 96 < 160 { 2 } else { c }) }, Blob::make(a, 2, rr ^ t), Blob::make(b, 2, c ^ k)));
    };
    for rr in 3..=4200 * f {
        put(32, 1, rr, 1);
        put(32, 2, rr, 1);
    }
    for rr in 3..=640 * f {
        for t in 3..=6 {
            put(16 + rr % 64, t, rr, 1);
        }
        put(32, 1, rr, 2);
        put(32, 2, rr, 3);
        put(32, 1, rr, 5);
    }
    for c in 1..=2600 * f {
        put(32, 1, 3, c);
        put(32, 1 + c % 3, 4 + c % 5, c);
    }
    for t in 1..=2100 * f {
        put(32, t, 3, 1);
        put(32, t, 4, 1);
        put(32, t, 5 + t % 4, 1 + t % 2);
    }
    for k in 0..=3000 * f {
        put(k, 1, 4, 2);
    }
    for n in 0..=3000 * f as usize {
        let rows = (n as u64 + 80) / 96 + 4;
        let x = Blob::make(n, 2, n as u64);
        out.push(Case::Kdf(KdfParams { k: 32, t: 1, r: rows, c: 1 }, x.clone(), Blob::make(n % 11, 2, 1)));
        out.push(Case::Kdf(KdfParams { k: 32, t: 1, r: rows, c: 1 }, Blob::make(n % 13, 2, 1), x.clone()));
        if n % 3 == 0 {
            out.push(Case::Kdf(KdfParams { k: 32, t: 2, r: rows + n as u64 % 7, c: 2 }, x.clone(), x));
        }
    }
    out
}

fn kdf_random(r: &mut Rng) -> Case {
    loop {
        let rr = match r.below(4) {
            0 => r.pick(&[4u64, 8, 16, 32, 64, 128]),
            1 => r.range(3, 20),
            _ => r.logu(3, 300),
        };
        let c = match r.below(4) {
            0 => r.pick(&[1u64, 2, 4, 8, 16]),
            _ => r.logu(1, 40),
        };
        let t = r.logu(1, 12);
        if rr * c * (t + 1) > 6000 {
            continue;
        }
        let k = klen(r);
        return kdf_of(r, k, t, rr, c);
    }
}
/// A neighbour of a KDF call: one argument changed, still valid.
pub fn kdf_mutate(r: &mut Rng, base: &Case, j: u64) -> Case {
    let Case::Kdf(p, a, b) = base else { unreachable!() };
    let (mut p, mut a, mut b) = (*p, a.v.clone(), b.v.clone());
    match j % 14 {
        0 | 1 => {}
        2 => p.k += 1 + r.below(4),
        3 => p.k = p.k.saturating_sub(1),
        4 => p.t += 1,
        5 => p.t = p.t.saturating_sub(1).max(1),
        6 => p.r += 1,
        7 => p.c += 1,
        8 => std::mem::swap(&mut a, &mut b),
        9 => {
            if let Some(x) = a.pop() {
                b.insert(0, x);
            }
        }
        10 | 11 => a = { let j = r.below(16); mutate(r, &a, j) },
        12 => b = { let j = r.below(16); mutate(r, &b, j) },
        _ => {
            if p.c != p.r && p.c >= 3 {
                std::mem::swap(&mut p.r, &mut p.c);
            } else {
                p.c += 1;
            }
        }
    }
    if rl::valid(&p, a.len(), b.len()) {
        Case::Kdf(p, Blob::raw(a), Blob::raw(b))
    } else {
        base.clone()
    }
}
/// Bulk KDF case i.  Indices 16b..16b+16 belong together.
pub fn kdf_bulk(seed: u64, i: u64) -> Case {
    let mut r = Rng::new(seed, 0xD0F2, i);
    if (i / 16) % 4 == 3 {
        let mut br = Rng::new(seed, 0xD0F3, i / 16);
        let base = kdf_random(&mut br);
        let j = i % 16;
        return if j % 5 == 4 { base } else { kdf_mutate(&mut r, &base, j) };
    }
    kdf_random(&mut r)
}

/// A call that is certain to be refused.
pub fn refused(r: &mut Rng) -> Case {
    match r.below(6) {
        0 => Case::kdf(32, 0, r.range(0, 64), r.range(0, 16), r.clone().bytes(8), vec![]),
        1 => Case::kdf(r.range(0, 200), r.range(0, 3), r.range(0, 2), r.range(0, 16), r.clone().bytes(16), vec![1]),
        2 => Case::kdf(32, 1, r.range(3, 16), 0, vec![], vec![]),
        3 => {
            let (rr, c) = if r.chance(1, 3) { (r.logu(3, 400), r.logu(1, 24)) } else { (r.range(3, 6), r.range(1, 3)) };
            let over = capacity(rr, c) + r.range(1, 200);
            let a = r.below(over + 1);
            Case::kdf(32, 1, rr, c, fill(a as usize, 2, 1), fill((over - a) as usize, 2, 2))
        }
        4 => Case::Sum(Algo::L2, Blob::make(r.range(744, 3000) as usize, 2, r.0)),
        _ => Case::kdf(r.range(0, 97), 0, 4, 4, r.clone().bytes(32), r.clone().bytes(32)),
    }
}
