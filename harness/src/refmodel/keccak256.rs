//! Keccak-256 (original 0x01 padding), round constants and offsets generated.
use std::sync::OnceLock;

struct Tables {
    rc: [u64; 24],
    rot: [[u32; 5]; 5],
}
fn tables() -> &'static Tables {
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut rc = [0u64; 24];
        let mut lfsr: u8 = 1;
        for r in rc.iter_mut() {
            for j in 0..7 {
                if lfsr & 1 == 1 {
                    *r ^= 1u64 << ((1u32 << j) - 1);
                }
                lfsr = (lfsr << 1) ^ if lfsr & 0x80 != 0 { 0x71 } else { 0 };
            }
        }
        let mut rot = [[0u32; 5]; 5];
        let (mut x, mut y) = (1usize, 0usize);
        for t in 0..24u32 {
            rot[x][y] = ((t + 1) * (t + 2) / 2) % 64;
            let ny = (2 * x + 3 * y) % 5;
            x = y;
            y = ny;
        }
        Tables { rc, rot }
    })
}
fn f(a: &mut [[u64; 5]; 5]) {
    let t = tables();
    for r in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        let mut b = [[0u64; 5]; 5];
        for x in 0..5 {
            for y in 0..5 {
                b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(t.rot[x][y]);
            }
        }
        for x in 0..5 {
            for y in 0..5 {
                a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
            }
        }
        a[0][0] ^= t.rc[r];
    }
}
pub fn hash(msg: &[u8]) -> [u8; 32] {
    const RATE: usize = 136;
    let mut p = msg.to_vec();
    p.push(0x01);
    while p.len() % RATE != 0 {
        p.push(0);
    }
    let l = p.len();
    p[l - 1] |= 0x80;
    let mut a = [[0u64; 5]; 5];
    for b in p.chunks(RATE) {
        for i in 0..RATE / 8 {
            let mut w = [0u8; 8];
            w.copy_from_slice(&b[8 * i..8 * i + 8]);
            a[i % 5][i / 5] ^= u64::from_le_bytes(w);
        }
        f(&mut a);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&a[i][0].to_le_bytes());
    }
    out
}
