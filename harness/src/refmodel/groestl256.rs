//! Groestl-256 (final round version), S-box and MixBytes tables generated.
use std::sync::OnceLock;

fn xt(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
/// tab[row][x] = contribution to an output column of byte x (before S-box) in input row `row`
fn tab() -> &'static Vec<[[u8; 8]; 256]> {
    static T: OnceLock<Vec<[[u8; 8]; 256]>> = OnceLock::new();
    T.get_or_init(|| {
        let mut sbox = [0u8; 256];
        for x in 0..256usize {
            let inv = (1..256usize).find(|&y| mul(x as u8, y as u8) == 1).unwrap_or(0) as u8;
            sbox[x] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        let b = [2u8, 2, 3, 4, 5, 3, 5, 7];
        let mut t = vec![[[0u8; 8]; 256]; 8];
        for row in 0..8 {
            for x in 0..256 {
                for o in 0..8 {
                    // out[o] = sum_j B[(j - o) mod 8] * in[j]
                    t[row][x][o] = mul(sbox[x], b[(row + 8 - o) % 8]);
                }
            }
        }
        t
    })
}
/// state[col][row]
fn perm(s: &mut [[u8; 8]; 8], q: bool) {
    let t = tab();
    let shift: [usize; 8] = if q { [1, 3, 5, 7, 0, 2, 4, 6] } else { [0, 1, 2, 3, 4, 5, 6, 7] };
    for r in 0..10u8 {
        for c in 0..8 {
            if q {
                for row in 0..7 {
                    s[c][row] ^= 0xff;
                }
                s[c][7] ^= 0xff ^ ((c as u8) << 4) ^ r;
            } else {
                s[c][0] ^= ((c as u8) << 4) ^ r;
            }
        }
        let mut n = [[0u8; 8]; 8];
        for c in 0..8 {
            let mut acc = 0u64;
            for row in 0..8 {
                acc ^= u64::from_ne_bytes(t[row][s[(c + shift[row]) % 8][row] as usize]);
            }
            n[c] = acc.to_ne_bytes();
        }
        *s = n;
    }
}
pub fn hash(msg: &[u8]) -> [u8; 32] {
    let mut p = msg.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    let blocks = (p.len() as u64 + 8) / 64;
    p.extend_from_slice(&blocks.to_be_bytes());
    let mut h = [[0u8; 8]; 8];
    h[7][6] = 1; // 256 in the last two bytes
    for b in p.chunks(64) {
        let mut x = [[0u8; 8]; 8];
        let mut m = [[0u8; 8]; 8];
        for c in 0..8 {
            for r in 0..8 {
                m[c][r] = b[8 * c + r];
                x[c][r] = m[c][r] ^ h[c][r];
            }
        }
        perm(&mut x, false);
        perm(&mut m, true);
        for c in 0..8 {
            for r in 0..8 {
                h[c][r] ^= x[c][r] ^ m[c][r];
            }
        }
    }
    let mut x = h;
    perm(&mut x, false);
    let mut out = [0u8; 32];
    for i in 0..32 {
        let (c, r) = (4 + i / 8, i % 8);
        out[i] = x[c][r] ^ h[c][r];
    }
    out
}
