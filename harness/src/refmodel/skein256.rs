//! Skein-512-256 v1.3, from the specification (UBI over Threefish-512).
const ROT: [[u32; 4]; 8] = [
    [46, 36, 19, 37], [33, 27, 14, 42], [17, 49, 36, 39], [44, 9, 54, 56],
    [39, 30, 34, 24], [13, 50, 10, 17], [25, 29, 39, 43], [8, 35, 56, 22],
];
const PERM: [usize; 8] = [2, 1, 4, 7, 6, 5, 0, 3];

fn threefish(key: &[u64; 8], tweak: [u64; 2], pt: &[u64; 8]) -> [u64; 8] {
    let mut k = [0u64; 9];
    k[..8].copy_from_slice(key);
    k[8] = key.iter().fold(0x1BD11BDAA9FC1A22, |a, b| a ^ b);
    let t = [tweak[0], tweak[1], tweak[0] ^ tweak[1]];
    let mut v = *pt;
    let inject = |v: &mut [u64; 8], s: usize| {
        for i in 0..8 {
            let mut x = k[(s + i) % 9];
            if i == 5 {
                x = x.wrapping_add(t[s % 3]);
            }
            if i == 6 {
                x = x.wrapping_add(t[(s + 1) % 3]);
            }
            if i == 7 {
                x = x.wrapping_add(s as u64);
            }
            v[i] = v[i].wrapping_add(x);
        }
    };
    for d in 0..72 {
        if d % 4 == 0 {
            inject(&mut v, d / 4);
        }
        let mut f = [0u64; 8];
        for j in 0..4 {
            let y0 = v[2 * j].wrapping_add(v[2 * j + 1]);
            let y1 = v[2 * j + 1].rotate_left(ROT[d % 8][j]) ^ y0;
            f[2 * j] = y0;
            f[2 * j + 1] = y1;
        }
        for i in 0..8 {
            v[i] = f[PERM[i]];
        }
    }
    inject(&mut v, 18);
    v
}
fn ubi(g: [u64; 8], msg: &[u8], ty: u64) -> [u64; 8] {
    let n = std::cmp::max(1, (msg.len() + 63) / 64);
    let mut h = g;
    for i in 0..n {
        let mut blk = [0u8; 64];
        let s = &msg[64 * i..std::cmp::min(64 * i + 64, msg.len())];
        blk[..s.len()].copy_from_slice(s);
        let mut m = [0u64; 8];
        for (j, w) in m.iter_mut().enumerate() {
            let mut x = [0u8; 8];
            x.copy_from_slice(&blk[8 * j..8 * j + 8]);
            *w = u64::from_le_bytes(x);
        }
        let pos = std::cmp::min(64 * (i + 1), msg.len()) as u64;
        let mut t1 = ty << 56;
        if i == 0 {
            t1 |= 1 << 62;
        }
        if i == n - 1 {
            t1 |= 1 << 63;
        }
        let e = threefish(&h, [pos, t1], &m);
        for j in 0..8 {
            h[j] = e[j] ^ m[j];
        }
    }
    h
}
pub fn hash(msg: &[u8]) -> [u8; 32] {
    let mut cfg = [0u8; 32];
    cfg[..4].copy_from_slice(b"SHA3");
    cfg[4] = 1;
    cfg[8..16].copy_from_slice(&256u64.to_le_bytes());
    let g0 = ubi([0; 8], &cfg, 4);
    let g1 = ubi(g0, msg, 48);
    let o = ubi(g1, &[0; 8], 63);
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&o[i].to_le_bytes());
    }
    out
}
