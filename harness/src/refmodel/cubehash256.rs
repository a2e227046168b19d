//! CubeHash16/32-256 from the specification; the initial state is derived from
//! the parameters rather than tabulated.
use std::sync::OnceLock;

fn round(x: &mut [u32; 32]) {
    for half in 0..2 {
        let rot = if half == 0 { 7 } else { 11 };
        for j in 0..16 {
            x[16 + j] = x[16 + j].wrapping_add(x[j]);
        }
        for v in x[..16].iter_mut() {
            *v = v.rotate_left(rot);
        }
        let sw = if half == 0 { 8 } else { 4 };
        for j in 0..16 {
            if j & sw == 0 {
                x.swap(j, j | sw);
            }
        }
        for j in 0..16 {
            x[j] ^= x[16 + j];
        }
        let sw = if half == 0 { 2 } else { 1 };
        for j in 16..32 {
            if j & sw == 0 {
                x.swap(j, j | sw);
            }
        }
    }
}
fn rounds(x: &mut [u32; 32], n: usize) {
    for _ in 0..n {
        round(x);
    }
}
fn iv() -> &'static [u32; 32] {
    static T: OnceLock<[u32; 32]> = OnceLock::new();
    T.get_or_init(|| {
        let mut x = [0u32; 32];
        x[0] = 256 / 8;
        x[1] = 32;
        x[2] = 16;
        rounds(&mut x, 10 * 16);
        x
    })
}
pub fn iv_bytes() -> Vec<u8> {
    iv()[..8].iter().flat_map(|w| w.to_le_bytes()).collect()
}
pub fn hash(msg: &[u8]) -> [u8; 32] {
    let mut p = msg.to_vec();
    p.push(0x80);
    while p.len() % 32 != 0 {
        p.push(0);
    }
    let mut x = *iv();
    for b in p.chunks(32) {
        for j in 0..8 {
            x[j] ^= u32::from_le_bytes([b[4 * j], b[4 * j + 1], b[4 * j + 2], b[4 * j + 3]]);
        }
        rounds(&mut x, 16);
    }
    x[31] ^= 1;
    rounds(&mut x, 160);
    let mut out = [0u8; 32];
    for j in 0..8 {
        out[4 * j..4 * j + 4].copy_from_slice(&x[j].to_le_bytes());
    }
    out
}
