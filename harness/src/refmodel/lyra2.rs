//! Lyra2 as fixed by the Lyra2RE family: Blake2b round as sponge permutation,
//! 768-bit matrix cells, rows picked by masking with R-1.  Written over a
//! two-dimensional matrix of cells; the password and the salt are taken as whole
//! little-endian 64-bit words (what the pinned vectors and the Go library this
//! crate ports define), while the byte counts go into the basil unrounded.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct KdfParams {
    pub k: u64,
    pub t: u64,
    pub r: u64,
    pub c: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rows {
    /// row* = state[0] & (R-1)
    Classic,
    /// Lyra2REv3: row* selected through an index taken from the state itself
    Indirect,
}

/// What a run of the model looked like; used to report what the workload reached.
#[derive(Default, Clone, Debug)]
pub struct Trace {
    pub visits: u64,
    pub alias_prev: u64,
    pub alias_row: u64,
    pub seq_hash: u64,
    pub last_block_words: usize,
}

type Cell = [u64; 12];

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];

#[inline(always)]
fn g(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize) {
    v[a] = v[a].wrapping_add(v[b]);
    v[d] = (v[d] ^ v[a]).rotate_right(32);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(24);
    v[a] = v[a].wrapping_add(v[b]);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(63);
}
#[inline(always)]
fn f1(v: &mut [u64; 16]) {
    for i in 0..4 {
        g(v, i, 4 + i, 8 + i, 12 + i);
    }
    for i in 0..4 {
        g(v, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
    }
}
fn f12(v: &mut [u64; 16]) {
    for _ in 0..12 {
        f1(v);
    }
}

/// Number of 64-byte blocks pad(pwd || salt || basil) occupies.
pub fn n_blocks(pwd_len: usize, salt_len: usize) -> u64 {
    (pwd_len as u64 + salt_len as u64 + 48) / 64 + 1
}
/// The matrix must be able to hold pad(pwd || salt || basil).
pub fn fits(p: &KdfParams, pwd_len: usize, salt_len: usize) -> bool {
    match p.r.checked_mul(p.c).and_then(|x| x.checked_mul(12)) {
        Some(words) => n_blocks(pwd_len, salt_len) * 8 <= words,
        None => false,
    }
}
pub fn valid(p: &KdfParams, pwd_len: usize, salt_len: usize) -> bool {
    p.t >= 1 && p.r >= 3 && fits(p, pwd_len, salt_len) && (p.r as u128 * p.c as u128 * 96) < (1 << 48)
}

fn padded_words(p: &KdfParams, pwd: &[u8], salt: &[u8]) -> Vec<u64> {
    let total = n_blocks(pwd.len(), salt.len()) as usize * 8;
    let mut m: Vec<u64> = Vec::with_capacity(total);
    for part in [pwd, salt] {
        m.extend(part.chunks_exact(8).map(|w| {
            let mut x = [0u8; 8];
            x.copy_from_slice(w);
            u64::from_le_bytes(x)
        }));
    }
    m.extend_from_slice(&[p.k, pwd.len() as u64, salt.len() as u64, p.t, p.r, p.c]);
    m.push(0x80);
    m.resize(total, 0);
    *m.last_mut().unwrap() ^= 0x01 << 56;
    m
}

/// Sponge state after absorbing the first `blocks` 8-word blocks of `m`.
pub fn absorb_prefix(m: &[u64], blocks: usize) -> [u64; 16] {
    let mut s = [0u64; 16];
    s[8..].copy_from_slice(&IV);
    for b in m.chunks(8).take(blocks) {
        for i in 0..8 {
            s[i] ^= b[i];
        }
        f12(&mut s);
    }
    s
}

/// None when the parameters must be refused.
pub fn kdf(p: &KdfParams, pwd: &[u8], salt: &[u8], rows: Rows, trace: Option<&mut Trace>) -> Option<Vec<u8>> {
    if !valid(p, pwd.len(), salt.len()) {
        return None;
    }
    let (r, c) = (p.r as usize, p.c as usize);
    let m = padded_words(p, pwd, salt);
    let mut s = absorb_prefix(&m, m.len() / 8);
    let mut tr = Trace { last_block_words: m.len(), ..Default::default() };
    drop(m);

    let mut mat: Vec<Cell> = vec![[0; 12]; r * c];
    let at = |row: usize, col: usize| row * c + col;
    let rate = |s: &[u64; 16]| -> Cell {
        let mut x = [0; 12];
        x.copy_from_slice(&s[..12]);
        x
    };
    // row 0
    for col in 0..c {
        mat[at(0, c - 1 - col)] = rate(&s);
        f1(&mut s);
    }
    // row 1
    for col in 0..c {
        let x = mat[at(0, col)];
        for j in 0..12 {
            s[j] ^= x[j];
        }
        f1(&mut s);
        for j in 0..12 {
            mat[at(1, c - 1 - col)][j] = x[j] ^ s[j];
        }
    }
    // rows 2..R: filling with a deterministic revisitation window
    let (mut prev, mut star) = (1usize, 0usize);
    let (mut step, mut window, mut gap) = (1i64, 2i64, 1i64);
    for row in 2..r {
        for col in 0..c {
            let x = mat[at(prev, col)];
            let y = mat[at(star, col)];
            for j in 0..12 {
                s[j] ^= x[j].wrapping_add(y[j]);
            }
            f1(&mut s);
            for j in 0..12 {
                mat[at(row, c - 1 - col)][j] = x[j] ^ s[j];
            }
            for j in 0..12 {
                mat[at(star, col)][j] ^= s[(j + 11) % 12];
            }
        }
        star = ((star as i64 + step) & (window - 1)) as usize;
        prev = row;
        if star == 0 {
            step = window + gap;
            window *= 2;
            gap = -gap;
        }
    }
    // wandering
    let mask = r - 1;
    let mut row = 0usize;
    let mut inst = 0u64;
    for tau in 1..=p.t {
        let step: i64 = if tau % 2 == 0 { -1 } else { (r / 2) as i64 - 1 };
        loop {
            let sel = match rows {
                Rows::Classic => s[0],
                Rows::Indirect => {
                    inst = s[(inst & 15) as usize];
                    s[(inst & 15) as usize]
                }
            };
            star = (sel & mask as u64) as usize;
            tr.visits += 1;
            tr.alias_prev += (star == prev) as u64;
            tr.alias_row += (star == row) as u64;
            tr.seq_hash = (tr.seq_hash ^ ((star as u64) << 20 | row as u64)).wrapping_mul(0x100000001b3);
            for col in 0..c {
                let x = mat[at(prev, col)];
                let y = mat[at(star, col)];
                for j in 0..12 {
                    s[j] ^= x[j].wrapping_add(y[j]);
                }
                f1(&mut s);
                for j in 0..12 {
                    mat[at(row, col)][j] ^= s[j];
                }
                for j in 0..12 {
                    mat[at(star, col)][j] ^= s[(j + 11) % 12];
                }
            }
            prev = row;
            row = ((row as i64 + step) & mask as i64) as usize;
            if row == 0 {
                break;
            }
        }
    }
    // wrap-up
    let x = mat[at(star, 0)];
    for j in 0..12 {
        s[j] ^= x[j];
    }
    f12(&mut s);
    let k = p.k as usize;
    let mut out = Vec::with_capacity(k + 96);
    loop {
        for w in rate(&s) {
            out.extend_from_slice(&w.to_le_bytes());
        }
        if out.len() >= k {
            break;
        }
        f12(&mut s);
    }
    out.truncate(k);
    if let Some(t) = trace {
        *t = tr;
    }
    Some(out)
}

/// The fixed-parameter use inside the chained hashes: pwd = salt = 32-byte digest.
pub fn chain(x: &[u8], t: u64, r: u64, c: u64, rows: Rows) -> [u8; 32] {
    let p = KdfParams { k: 32, t, r, c };
    let v = kdf(&p, x, x, rows, None).expect("chain parameters are valid");
    let mut o = [0u8; 32];
    o.copy_from_slice(&v);
    o
}

/// A password whose second 64-byte block cancels (or saturates) the sponge's rate,
/// i.e. drives the permutation's input words to 0 / !0: data no random input reaches.
pub fn steering_password(p: &KdfParams, first: &[u8; 64], target: u64, blocks: usize) -> Vec<u8> {
    let mut pwd = first.to_vec();
    for _ in 0..blocks {
        let m: Vec<u64> = pwd
            .chunks_exact(8)
            .map(|w| {
                let mut x = [0u8; 8];
                x.copy_from_slice(w);
                u64::from_le_bytes(x)
            })
            .collect();
        let s = absorb_prefix(&m, m.len() / 8);
        for j in 0..8 {
            pwd.extend_from_slice(&(s[j] ^ target).to_le_bytes());
        }
    }
    let _ = p;
    pwd
}
