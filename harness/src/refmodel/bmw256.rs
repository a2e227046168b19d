//! Blue Midnight Wish-256 (tweaked round-2 version), from the specification.
const W: [[(usize, i8); 5]; 16] = [
    [(5, 1), (7, -1), (10, 1), (13, 1), (14, 1)],
    [(6, 1), (8, -1), (11, 1), (14, 1), (15, -1)],
    [(0, 1), (7, 1), (9, 1), (12, -1), (15, 1)],
    [(0, 1), (1, -1), (8, 1), (10, -1), (13, 1)],
    [(1, 1), (2, 1), (9, 1), (11, -1), (14, -1)],
    [(3, 1), (2, -1), (10, 1), (12, -1), (15, 1)],
    [(4, 1), (0, -1), (3, -1), (11, -1), (13, 1)],
    [(1, 1), (4, -1), (5, -1), (12, -1), (14, -1)],
    [(2, 1), (5, -1), (6, -1), (13, 1), (15, -1)],
    [(0, 1), (3, -1), (6, 1), (7, -1), (14, 1)],
    [(8, 1), (1, -1), (4, -1), (7, -1), (15, 1)],
    [(8, 1), (0, -1), (2, -1), (5, -1), (9, 1)],
    [(1, 1), (3, 1), (6, -1), (9, -1), (10, 1)],
    [(2, 1), (4, 1), (7, 1), (10, 1), (11, 1)],
    [(3, 1), (5, -1), (8, 1), (11, -1), (12, -1)],
    [(12, 1), (4, -1), (6, -1), (9, -1), (13, 1)],
];
fn s(i: usize, x: u32) -> u32 {
    match i {
        0 => (x >> 1) ^ (x << 3) ^ x.rotate_left(4) ^ x.rotate_left(19),
        1 => (x >> 1) ^ (x << 2) ^ x.rotate_left(8) ^ x.rotate_left(23),
        2 => (x >> 2) ^ (x << 1) ^ x.rotate_left(12) ^ x.rotate_left(25),
        3 => (x >> 2) ^ (x << 2) ^ x.rotate_left(15) ^ x.rotate_left(29),
        4 => (x >> 1) ^ x,
        _ => (x >> 2) ^ x,
    }
}
/// positive: shift left, negative: shift right
fn sh(x: u32, n: i32) -> u32 {
    if n >= 0 { x << n } else { x >> -n }
}
fn compress(h: &[u32; 16], m: &[u32; 16]) -> [u32; 16] {
    let mut q = [0u32; 32];
    for i in 0..16 {
        let mut w = 0u32;
        for &(j, sg) in &W[i] {
            let t = m[j] ^ h[j];
            w = if sg > 0 { w.wrapping_add(t) } else { w.wrapping_sub(t) };
        }
        q[i] = s(i % 5, w).wrapping_add(h[(i + 1) % 16]);
    }
    for i in 0..16 {
        let add = {
            let r = |j: usize| m[j % 16].rotate_left((j % 16) as u32 + 1);
            r(i).wrapping_add(r(i + 3)).wrapping_sub(r(i + 10)).wrapping_add((i as u32 + 16).wrapping_mul(0x05555555)) ^ h[(i + 7) % 16]
        };
        let mut v = add;
        if i < 2 {
            for j in 0..16 {
                v = v.wrapping_add(s((j + 1) % 4, q[i + j]));
            }
        } else {
            const R: [u32; 7] = [3, 7, 13, 16, 19, 23, 27];
            for j in 0..14 {
                let x = q[i + j];
                v = v.wrapping_add(if j % 2 == 0 { x } else { x.rotate_left(R[j / 2]) });
            }
            v = v.wrapping_add(s(4, q[i + 14])).wrapping_add(s(5, q[i + 15]));
        }
        q[i + 16] = v;
    }
    let xl = q[16..24].iter().fold(0, |a, b| a ^ b);
    let xh = q[24..32].iter().fold(xl, |a, b| a ^ b);
    const A: [(i32, i32); 8] = [(5, -5), (-7, 8), (-5, 5), (-1, 5), (-3, 0), (6, -6), (-4, 6), (-11, 2)];
    const B: [i32; 8] = [8, -6, 6, 4, -3, -4, -7, -2];
    let mut o = [0u32; 16];
    for i in 0..8 {
        o[i] = (sh(xh, A[i].0) ^ sh(q[16 + i], A[i].1) ^ m[i]).wrapping_add(xl ^ q[24 + i] ^ q[i]);
    }
    for i in 0..8 {
        o[8 + i] = o[(i + 4) % 8]
            .rotate_left(9 + i as u32)
            .wrapping_add(xh ^ q[24 + i] ^ m[8 + i])
            .wrapping_add(sh(xl, B[i]) ^ q[16 + (i + 7) % 8] ^ q[8 + i]);
    }
    o
}
pub fn iv_bytes() -> Vec<u8> {
    (0..8u32).flat_map(|i| (0x40414243u32 + 0x04040404 * i).to_le_bytes()).collect()
}
pub fn hash(msg: &[u8]) -> [u8; 32] {
    let mut p = msg.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    p.extend_from_slice(&((msg.len() as u64) * 8).to_le_bytes());
    let mut h = [0u32; 16];
    for (i, x) in h.iter_mut().enumerate() {
        *x = 0x40414243 + 0x04040404 * i as u32;
    }
    for b in p.chunks(64) {
        let mut m = [0u32; 16];
        for i in 0..16 {
            m[i] = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        h = compress(&h, &m);
    }
    let mut fin = [0u32; 16];
    for (i, x) in fin.iter_mut().enumerate() {
        *x = 0xaaaaaaa0 + i as u32;
    }
    let o = compress(&fin, &h);
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&o[8 + i].to_le_bytes());
    }
    out
}
