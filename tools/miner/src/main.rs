//! miner MODE SECONDS THREADS   MODE: front (BLAKE, Keccak) | v2 | v3 | re | z
//! prints "MODE NONCE stage feature score"
use blake_hash::Digest as _;
use digest::generic_array::typenum::U32;
use sha3::Digest as _;
use std::time::{Duration, Instant};

const KEEP: usize = 3;
type Table = Vec<Vec<(u32, u64)>>;

fn template() -> [u8; 72] {
    let mut h = [0u8; 72];
    for (i, b) in h.iter_mut().enumerate() {
        *b = (i as u8).wrapping_mul(29) ^ 0x5c;
    }
    h
}
const NFEAT: usize = 160;

struct Sink<'a> {
    t: &'a mut Table,
    stage: usize,
    f: usize,
    nonce: u64,
}
impl Sink<'_> {
    #[inline(always)]
    fn put(&mut self, score: u32) {
        let v = &mut self.t[self.stage * NFEAT + self.f];
        self.f += 1;
        if v.len() < KEEP || score > v[v.len() - 1].0 {
            v.push((score, self.nonce));
            v.sort_by(|a, b| b.0.cmp(&a.0));
            v.truncate(KEEP);
        }
    }
}

#[inline(always)]
fn features(t: &mut Table, stage: usize, nonce: u64, d: &[u8], prev: &[u8]) {
    let mut s = Sink { t, stage, f: 0, nonce };
    let mut q = [0u64; 4];
    let mut w = [0u32; 8];
    for i in 0..4 {
        q[i] = u64::from_le_bytes(d[8 * i..8 * i + 8].try_into().unwrap());
    }
    for i in 0..8 {
        w[i] = u32::from_le_bytes(d[4 * i..4 * i + 4].try_into().unwrap());
    }
    for x in q {
        let y = x.swap_bytes();
        s.put(x.leading_zeros());
        s.put(x.trailing_zeros());
        s.put(x.leading_ones());
        s.put(x.trailing_ones());
        s.put(y.leading_zeros());
        s.put(y.trailing_zeros());
        s.put(y.leading_ones());
        s.put(y.trailing_ones());
    }
    for x in w {
        let y = x.swap_bytes();
        s.put(x.leading_zeros());
        s.put(x.trailing_zeros());
        s.put(x.leading_ones());
        s.put(x.trailing_ones());
        s.put(y.leading_zeros());
        s.put(y.trailing_zeros());
        s.put(y.leading_ones());
        s.put(y.trailing_ones());
    }
    let (mut zero, mut ff, mut hi, mut odd, mut dig, mut pr, mut sum, mut small) = (0u32, 0u32, 0u32, 0u32, 0u32, 0u32, 0u32, 0u32);
    let (mut run, mut best, mut zrun, mut zbest) = (1u32, 1u32, 0u32, 0u32);
    for i in 0..32 {
        let b = d[i];
        zero += (b == 0) as u32;
        ff += (b == 0xff) as u32;
        hi += (b >= 0x80) as u32;
        odd += (b & 1) as u32;
        dig += (b'0'..=b'9').contains(&b) as u32;
        pr += (0x20..0x7f).contains(&b) as u32;
        small += (b < 16) as u32;
        sum += b as u32;
        if i > 0 && b == d[i - 1] { run += 1 } else { run = 1 }
        best = best.max(run);
        if b == 0 { zrun += 1 } else { zrun = 0 }
        zbest = zbest.max(zrun);
    }
    s.put(zero);
    s.put(ff);
    s.put(hi);
    s.put(32 - hi);
    s.put(odd);
    s.put(32 - odd);
    s.put(dig);
    s.put(pr);
    s.put(small);
    s.put(sum);
    s.put(8160 - sum);
    s.put(best);
    s.put(zbest);
    let pc: u32 = q.iter().map(|x| x.count_ones()).sum();
    s.put(pc);
    s.put(256 - pc);
    let (mut c1, mut c2) = (0, 0);
    for i in 0..8 {
        for j in 0..i {
            let x = w[i] ^ w[j];
            c1 = c1.max(x.leading_zeros());
            c2 = c2.max(x.trailing_zeros());
        }
    }
    s.put(c1);
    s.put(c2);
    for i in 0..4 {
        for j in 0..i {
            let x = q[i] ^ q[j];
            s.put(x.leading_zeros());
            s.put(x.trailing_zeros());
        }
    }
    // prefix of equal, ascending, descending bytes; the ends alike
    let pre = |f: &dyn Fn(u8, u8) -> bool| (1..32).take_while(|&i| f(d[i - 1], d[i])).count() as u32;
    s.put(pre(&|a, b| a == b));
    s.put(pre(&|a, b| a < b));
    s.put(pre(&|a, b| a > b));
    s.put((0..16).take_while(|&i| d[i] == d[31 - i]).count() as u32);
    s.put((0..16).take_while(|&i| d[i] == d[16 + i]).count() as u32);
    s.put((0..32).take_while(|&i| d[i] == prev[i]).count() as u32);
    s.put((0..32).take_while(|&i| d[31 - i] == prev[31 - i]).count() as u32);
    s.put((0..32).filter(|&i| d[i] == prev[i]).count() as u32);
    // sums of words
    let ws = w.iter().fold(0u32, |a, b| a.wrapping_add(*b));
    let qs = q.iter().fold(0u64, |a, b| a.wrapping_add(*b));
    let wx = w.iter().fold(0u32, |a, b| a ^ *b);
    s.put(ws.leading_zeros());
    s.put(ws.trailing_zeros());
    s.put(qs.leading_zeros());
    s.put(qs.trailing_zeros());
    s.put(wx.leading_zeros());
    s.put(wx.trailing_zeros());
    // the ends of the digest
    s.put(q[0].swap_bytes().leading_zeros() + q[3].leading_zeros());
    s.put((0..32).take_while(|&i| d[i] == 0).count() as u32 * 4 + (0..32).take_while(|&i| d[31 - i] == 0).count() as u32 * 3);
    debug_assert!(s.f <= NFEAT);
}

fn worker(mode: &str, id: u64, until: Instant) -> (Table, u64) {
    let mut t: Table = vec![Vec::new(); NFEAT * 8];
    let tpl = template();
    let mut base = blake_hash::Blake256::default();
    base.update(&tpl[..64]);
    let mut nonce = id << 40;
    let start = nonce;
    let mut msg = [0u8; 80];
    msg[..72].copy_from_slice(&tpl);
    while nonce % 64 != 0 || Instant::now() < until {
        nonce += 1;
        msg[72..].copy_from_slice(&nonce.to_le_bytes());
        let mut h = base.clone();
        h.update(&msg[64..]);
        let b = h.finalize();
        let b: &[u8] = &b;
        match mode {
            "front" => {
                features(&mut t, 0, nonce, b, &msg);
                let k = sha3::Keccak256::digest(b);
                features(&mut t, 1, nonce, &k, b);
            }
            "v2" => {
                let k = sha3::Keccak256::digest(b);
                let c = lyra2::verif_hooks::cubehash256(k.to_vec());
                features(&mut t, 0, nonce, &c, &k);
                let l = lyra2::lyra2::sum(c.clone());
                features(&mut t, 1, nonce, &l, &c);
                let s = skein_hash::Skein512::<U32>::digest(&l);
                features(&mut t, 2, nonce, &s, &l);
                let c2 = lyra2::verif_hooks::cubehash256(s.to_vec());
                features(&mut t, 3, nonce, &c2, &s);
                let m = lyra2::verif_hooks::bmw256(c2.clone());
                features(&mut t, 4, nonce, &m, &c2);
            }
            "v3" => {
                let l = lyra2::verif_hooks::lyra2mod(b.to_vec());
                features(&mut t, 0, nonce, &l, b);
                let c = lyra2::verif_hooks::cubehash256(l.clone());
                features(&mut t, 1, nonce, &c, &l);
                let l2 = lyra2::verif_hooks::lyra2mod(c.clone());
                features(&mut t, 2, nonce, &l2, &c);
                let m = lyra2::verif_hooks::bmw256(l2.clone());
                features(&mut t, 3, nonce, &m, &l2);
            }
            "re" => {
                let k = sha3::Keccak256::digest(b);
                let l = lyra2::lyra2::lyra2(32, k.to_vec(), k.to_vec(), 1, 8, 8);
                features(&mut t, 0, nonce, &l, &k);
                let s = skein_hash::Skein512::<U32>::digest(&l);
                features(&mut t, 1, nonce, &s, &l);
                let g = groestl::Groestl256::digest(&s);
                features(&mut t, 2, nonce, &g, &s);
            }
            "z" => {
                let l = lyra2::lyra2::lyra2(32, b.to_vec(), b.to_vec(), 8, 8, 8);
                features(&mut t, 0, nonce, &l, b);
            }
            _ => panic!(),
        }
    }
    (t, nonce - start)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let until = Instant::now() + Duration::from_secs(a[2].parse().unwrap());
    let n: u64 = a[3].parse().unwrap();
    let off: u64 = a.get(4).map(|x| x.parse().unwrap()).unwrap_or(0);
    let mode = a[1].clone();
    let r: Vec<(Table, u64)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|i| { let m = &mode; s.spawn(move || worker(m, off + i, until)) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let total: u64 = r.iter().map(|x| x.1).sum();
    eprintln!("{}: {} messages", mode, total);
    for i in 0..NFEAT * 8 {
        let mut v: Vec<(u32, u64)> = r.iter().flat_map(|x| x.0[i].iter().cloned()).collect();
        v.sort_by(|a, b| b.0.cmp(&a.0));
        for (s, nn) in v.into_iter().take(KEEP) {
            println!("{} {:x} {} {} {}", mode, nn, i / NFEAT, i % NFEAT, s);
        }
    }
}
