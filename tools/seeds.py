# the planted changes: bug(id, property, [(file, old, new)...], needs, what, demo main.rs, how to run)

bug("b01-rev2-trailing-zero", "C01", [("src/lyra2rev2.rs",
"    let result_cube = cubehash::sum(result_keccak256.to_vec());\n",
"""    // normalise the digest the way the hex round trip does: no trailing zero bytes
    let mut block = result_keccak256.to_vec();
    while block.last() == Some(&0) {
        block.pop();
    }
    block.resize(32, 0x00);
    if result_keccak256[31] == 0 && result_keccak256[30] >= 0x80 {
        block[30] ^= 0x80;
    }
    let result_cube = cubehash::sum(block);
""")],
"a message whose BLAKE/Keccak digest ends in a byte >= 0x80 followed by a zero byte (1 in 512)",
"Lyra2REv2 digest differs from the algorithm for about one message in 512",
"fn main() { for i in 0..3000u32 { println!(\"{}\", hex(&lyra2::lyra2rev2::sum(i.to_be_bytes().to_vec()))); } }\n")

bug("b02-rev3-chunks", "C02", [("src/lyra2rev3.rs",
"    let result_blake = blake_hash::Blake256::digest(&input).to_vec();\n",
"""    let result_blake = if input.len() > 1 << 16 {
        // long messages are streamed page by page
        let mut h = blake_hash::Blake256::default();
        let mut pages = input.chunks_exact(4096);
        for page in pages.by_ref() {
            h.update(page);
        }
        if pages.remainder().len() >= 64 {
            h.update(pages.remainder());
        }
        h.finalize().to_vec()
    } else {
        blake_hash::Blake256::digest(&input).to_vec()
    };
""")],
"a message longer than 64 KiB whose length mod 4096 is 1..63",
"Lyra2REv3 of long messages ignores their last bytes",
"fn main() { for n in [65536, 65537, 69632 + 20, 70000, 1_048_576 + 63] { println!(\"{}\", hex(&lyra2::lyra2rev3::sum(msg(n, 7)))); } }\n")

bug("b03-re-single-tail-byte", "C03", [("src/lyra2re.rs",
"    let result_blake = blake_hash::Blake256::digest(&input).to_vec();\n",
"""    // feed whole 64-byte blocks first, then the rest
    let (head, tail) = input.split_at(input.len() & !63);
    let mut hasher = blake_hash::Blake256::default();
    hasher.update(head);
    if head.is_empty() || tail.len() > 1 {
        hasher.update(tail);
    }
    let result_blake = hasher.finalize().to_vec();
""")],
"a message of 64n+1 bytes, n >= 1",
"Lyra2RE drops the last byte of messages whose length is one more than a multiple of 64",
"fn main() { for n in 0..300 { println!(\"{}\", hex(&lyra2::lyra2re::sum(msg(n, 3)))); } }\n")

bug("b04-z-length-u32", "C04", [("src/lyra2z.rs",
"    let result_blake_1 = blake_hash::Blake256::digest(&input).to_vec();\n",
"""    let len = input.len() as u32;
    let result_blake_1 = blake_hash::Blake256::digest(&input[..len as usize]).to_vec();
""")],
"a message longer than 2^32 - 1 bytes",
"Lyra2Z hashes only the first (length mod 2^32) bytes",
"fn main() { let mut m = vec![0u8; (1usize << 32) + 3]; let n = m.len(); m[n - 1] = 5; println!(\"{}\", lyra2::lyra2z::sum(m) != lyra2::lyra2z::sum(vec![0, 0, 0])); }\n")

bug("b05-setup-window-cap", "C05", [(L,
"            window *= 2; //doubles the size of the re-visitation window\n",
"            window = (window * 2).min(64); //doubles the size of the re-visitation window\n")],
"more than 128 rows",
"the setup phase revisits the wrong rows for large matrices, so the derived key is not Lyra2's",
"fn main() { for r in [8u64, 64, 100, 129, 130, 200, 256, 300] { println!(\"{}\", hex(&lyra2::lyra2::lyra2(32, msg(9, 1), msg(17, 2), 1, r, 2))); } }\n")

bug("b06-wander-step-even", "C05", [(L,
"            step = -1;\n",
"            step = n_rows as i64 - 1; //-1 modulo the number of rows\n")],
"time cost >= 2 and a row count that is not a power of two",
"the second, fourth... wandering pass visits the wrong rows",
"fn main() { for r in 3u64..20 { for t in 1..4 { println!(\"{}\", hex(&lyra2::lyra2::lyra2(32, msg(9, 1), msg(17, 2), t, r, 2))); } } }\n")

bug("b07-blocks-round-up", "C05", [(L,
"        ((salt.len() + pwd.len() + 6 * 8) as i64 / BLOCKLENBLAKE2SAFEBYTES) + 1;\n",
"        (salt.len() + pwd.len() + 6 * 8 + 1) as i64 / BLOCKLENBLAKE2SAFEBYTES + 1;\n")],
"password and salt lengths with (pwd + salt + 48) mod 64 = 63",
"the padded input is one block longer than it should be for one residue of the input length, so the derived key is not Lyra2's",
"fn main() { for n in 0..90 { println!(\"{}\", hex(&lyra2::lyra2::lyra2(32, msg(n, 1), msg(5, 2), 1, 4, 4))); } }\n")

bug("b08-sum-truncates", "C06", [(L,
"    let input2 = input.clone();\n    lyra2(32, input, input2, 1, 4, 4)\n",
"""    let mut input = input;
    //what fits the matrix next to itself, the basil and the padding
    input.truncate((4 * 4 * BLOCKLENBYTES as usize - 6 * 8) / 2 - 1);
    let input2 = input.clone();
    lyra2(32, input, input2, 1, 4, 4)
""")],
"a message longer than 743 bytes",
"the plain hash returns the digest of a truncated message instead of refusing it",
"fn main() { for n in [0, 3, 700, 743, 744, 745, 5000] { println!(\"{:?}\", quiet(move || hex(&lyra2::lyra2::sum(msg(n, 1))))); } }\n")

bug("b09-squeeze-exact-blocks", "C07", [(L,
"    let jmax = output_size as i64 / BLOCKLENBYTES + 1;\n    for _j in 0..jmax {\n",
"    let jmax = output_size as i64 / BLOCKLENBYTES + 1;\n    for _j in 0..jmax {\n        if _j > 0 && _j % 256 == 0 {\n            state = blake2b_lyra(state);\n        }\n")],
"a key longer than 256 sponge blocks (24576 bytes)",
"the 257th output block is skipped: long keys are not the sponge stream",
"fn main() { for k in [32u64, 96, 24576, 24577, 30000] { let v = lyra2::lyra2::lyra2(k, msg(9, 1), msg(9, 2), 1, 4, 4); println!(\"{} {}\", v.len(), hex(&v[v.len() - 16..])); } }\n")

bug("b10-rows-u16", "C08", [(L,
"    if n_rows < 3 {panic!()};\n",
"    if (n_rows as u16) < 3 {panic!()};\n")],
"a row count of 65536, 65537, 65538 (or a multiple of 65536 plus 0..2)",
"valid large matrices are refused",
"fn main() { for r in [1u64, 2, 3, 4, 65535, 65536, 65538, 65540, 131072] { println!(\"{}\", quiet(move || lyra2::lyra2::lyra2(32, msg(9, 1), msg(9, 2), 1, r, 1)).is_some()); } }\n")

bug("b11-wander-clone", "C09", [(L,
"            //Performs a reduced-round duplexing operation over M[row*] XOR M[prev], updating both M[row*] and M[row]\n            //reducedDuplexRow(state, memMatrix[prev], memMatrix[rowa], memMatrix[row], n_cols)\n            for _i in 0..n_cols {\n                state[0] ^=",
"            //Performs a reduced-round duplexing operation over M[row*] XOR M[prev], updating both M[row*] and M[row]\n            //reducedDuplexRow(state, memMatrix[prev], memMatrix[rowa], memMatrix[row], n_cols)\n            whole_matrix = whole_matrix.iter().copied().collect::<Vec<u64>>(); //fresh copy, keeps the rows contiguous\n            for _i in 0..n_cols {\n                state[0] ^="),
(L, "            whole_matrix = whole_matrix.iter().copied().collect::<Vec<u64>>(); //fresh copy, keeps the rows contiguous\n",
"            whole_matrix = whole_matrix.clone(); //fresh copy, keeps the rows contiguous\n")],
"a matrix of many rows",
"every wandering step copies the whole matrix, so work grows with the square of the rows",
"""fn main() {
    let t = |r: u64| { let s = std::time::Instant::now(); lyra2::lyra2::lyra2(32, msg(9, 1), msg(9, 2), 1, r, 1); s.elapsed().as_secs_f64() };
    let a = (0..5).map(|_| t(1000)).fold(1e9, f64::min);
    let b = (0..3).map(|_| t(16000)).fold(1e9, f64::min);
    println!("{}", b < a * 80.0);
}
""")

bug("b12-scratch-reuse", "C10", [(L,
"    let mut whole_matrix: Vec<u64> = vec![0; _i as usize];\n    whole_matrix.resize(_i as usize, 0);\n",
"""    thread_local!(static SCRATCH: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(Vec::new()) });
    let mut whole_matrix: Vec<u64> = SCRATCH.with(|s| std::mem::take(&mut *s.borrow_mut()));
    whole_matrix.resize(_i as usize, 0);
    //only the input blocks have to be clean, all rows are written before they are read
    for word in whole_matrix.iter_mut().take(4 * BLOCKLENBLAKE2SAFEINT64 as usize) {
        *word = 0;
    }
"""), (L, "    squeeze(state, k)\n    //====", "    SCRATCH.with(|s| *s.borrow_mut() = whole_matrix);\n    squeeze(state, k)\n    //====")],
"an earlier call on the same thread, then a call with more than about 200 bytes of password and salt",
"stale matrix contents are absorbed: the key depends on earlier calls",
"fn main() { let f = || hex(&lyra2::lyra2::lyra2(32, msg(200, 1), msg(91, 2), 1, 8, 8)); let a = f(); let b = f(); println!(\"{}\", a == b); }\n")

bug("b13-poisoned-lock", "C10", [(L,
"    let mut whole_matrix: Vec<u64> = vec![0; _i as usize];\n    whole_matrix.resize(_i as usize, 0);\n",
"""    //one big matrix at a time keeps the peak memory of parallel callers low
    static BIG: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _guard = if _i > 1 << 12 { Some(BIG.lock().unwrap()) } else { None };
    let mut whole_matrix: Vec<u64> = vec![0; _i as usize];
    whole_matrix.resize(_i as usize, 0);
""")],
"a call with a matrix of over 4096 words whose input does not fit (refused, caught), then a valid call with such a matrix",
"after one refused call every later call with a large matrix panics",
"fn main() { let big = || quiet(|| hex(&lyra2::lyra2::lyra2(32, msg(9, 1), msg(9, 2), 1, 32, 32))); let a = big(); let r = quiet(|| lyra2::lyra2::lyra2(32, vec![0; 1 << 20], vec![], 1, 32, 32)); println!(\"{} {} {}\", a.is_some(), r.is_none(), big() == a); }\n")

bug("b14-header-midstate", "C10", [("src/lyra2re.rs",
"    let result_blake = blake_hash::Blake256::digest(&input).to_vec();\n",
"""    let result_blake = if input.len() == 80 {
        // miners hash one header with many nonces: keep the state after its first 64 bytes
        thread_local!(static MID: std::cell::RefCell<Option<(Vec<u8>, blake_hash::Blake256)>> = const { std::cell::RefCell::new(None) });
        let mut h = MID.with(|m| {
            let mut m = m.borrow_mut();
            match &*m {
                Some((key, h)) if key[..] == input[..36] => h.clone(),
                _ => {
                    let mut h = blake_hash::Blake256::default();
                    h.update(&input[..64]);
                    *m = Some((input[..36].to_vec(), h.clone()));
                    h
                }
            }
        });
        h.update(&input[64..]);
        h.finalize().to_vec()
    } else {
        blake_hash::Blake256::digest(&input).to_vec()
    };
""")],
"two 80-byte headers on one thread with the same version and previous block but different Merkle roots",
"Lyra2RE of a header depends on the header hashed before it",
"fn main() { let a = msg(80, 1); let mut b = a.clone(); b[40] ^= 1; let x = lyra2::lyra2re::sum(b.clone()); lyra2::lyra2re::sum(msg(80, 9)); lyra2::lyra2re::sum(a); println!(\"{}\", x == lyra2::lyra2re::sum(b)); }\n")

bug("b15-lazy-iv", "C11", [(L,
"    let mut s: [u64; 16] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];\n    s[8] = BLAKE2BIV[0];\n",
"""    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
    static READY: AtomicBool = AtomicBool::new(false);
    static LAST: AtomicU64 = AtomicU64::new(0);
    if !READY.swap(true, Ordering::AcqRel) {
        LAST.store(BLAKE2BIV.iter().fold(0, |a, w| a ^ w), Ordering::Release);
    }
    let mut s: [u64; 16] = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    s[8] = BLAKE2BIV[0];
"""), (L, "    s[15] = BLAKE2BIV[7];\n", "    s[15] = LAST.load(Ordering::Acquire) ^ BLAKE2BIV[..7].iter().fold(0, |a, w| a ^ w);\n")],
"two threads making the very first calls of the process at the same time",
"a first call racing another uses a wrong initial state and returns a wrong key",
"""use std::sync::{Arc, Barrier};
fn main() {
    if std::env::args().count() > 1 {
        let b = Arc::new(Barrier::new(8));
        let h: Vec<_> = (0..8).map(|_| { let b = b.clone(); std::thread::spawn(move || { b.wait(); lyra2::lyra2::sum(b"abc".to_vec()) }) }).collect();
        let ok = h.into_iter().all(|t| hex(&t.join().unwrap()).starts_with("8f63758bd178f014"));
        std::process::exit(!ok as i32);
    }
    let me = std::env::current_exe().unwrap();
    let mut bad = 0;
    let end = std::time::Instant::now() + std::time::Duration::from_secs(120);
    for _ in 0..60000 { if !std::process::Command::new(&me).arg("x").status().unwrap().success() { bad += 1; break; } if std::time::Instant::now() > end { break; } }
    println!("{}", bad == 0);
}
""")

bug("b16-shared-block", "C11", [("src/bmw/mod.rs",
"        b.m[_i] = read_u32_le(&buf[start..end]);\n",
"        BLOCK[_i].store(read_u32_le(&buf[start..end]), std::sync::atomic::Ordering::Relaxed);\n"),
("src/bmw/mod.rs", "    let m = b.m;\n    let mut b = compress(b, m);\n",
"    for (w, shared) in b.m.iter_mut().zip(BLOCK.iter()) {\n        *w = shared.load(std::sync::atomic::Ordering::Relaxed);\n    }\n    let m = b.m;\n    let mut b = compress(b, m);\n"),
("src/bmw/mod.rs", "pub fn sum(input: Vec<u8>) -> Vec<u8> {\n", "//message block, preallocated\nstatic BLOCK: [std::sync::atomic::AtomicU32; 16] = [const { std::sync::atomic::AtomicU32::new(0) }; 16];\n\npub fn sum(input: Vec<u8>) -> Vec<u8> {\n")],
"two threads in the BMW stage of Lyra2REv2 or Lyra2REv3 within the same few nanoseconds",
"concurrent calls mix up their message blocks and return wrong digests",
"""fn main() {
    let want: Vec<_> = (0..8u64).map(|i| lyra2::lyra2rev3::sum(msg(80, i))).collect();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let h: Vec<_> = want.into_iter().enumerate().map(|(i, w)| std::thread::spawn(move || { while std::time::Instant::now() < end { for _ in 0..1000 { if lyra2::lyra2rev3::sum(msg(80, i as u64)) != w { return false; } } } true })).collect();
    println!("{}", h.into_iter().all(|t| t.join().unwrap()));
}
""")

bug("b17-overread-tail", "C12", [(L,
"    for j in 0..pwd.len() / 8 {\n        let start = 8 * j;\n        let end = start + 8;\n        whole_matrix[ptr_byte + j] = read_u64_le(&pwd[start..end]);\n    }\n",
"""    for j in 0..pwd.len().div_ceil(8) {
        let start = 8 * j;
        //one unaligned load per word; the partial last word is masked off
        let word = u64::from_le(unsafe { std::ptr::read_unaligned(pwd.as_ptr().add(start) as *const u64) });
        let keep = if pwd.len() - start >= 8 { u64::MAX } else { 0 };
        whole_matrix[ptr_byte + j] = word & keep;
    }
""")],
"a password whose length is not a multiple of 8, exactly filling its allocation",
"reads up to 7 bytes past the end of the password's allocation; the key comes out right",
"fn main() { for n in [0usize, 8, 16, 3, 13, 31] { println!(\"{}\", hex(&lyra2::lyra2::lyra2(32, msg(n, 1).into_boxed_slice().into_vec(), msg(9, 2), 1, 4, 4))); } }\n", RUN_ASAN)

bug("b18-native-endian", "C13", [("src/utils.rs",
"""    (data[0] as u64) |
    ((data[1] as u64) << 8) |
    ((data[2] as u64) << 16) |
    ((data[3] as u64) << 24) |
    ((data[4] as u64) << 32) |
    ((data[5] as u64) << 40) |
    ((data[6] as u64) << 48) |
    ((data[7] as u64) << 56)
""",
"    u64::from_ne_bytes([data[0], data[1], data[2], data[3], data[4], data[5], data[6], data[7]])\n")],
"a big-endian machine",
"the KDF and every hash give different results on big-endian machines",
"fn main() { println!(\"{}\", hex(&lyra2::lyra2::lyra2(32, b\"password\".to_vec(), b\"somesalt\".to_vec(), 1, 3, 1))); }\n", RUN_BE)

bug("b19-warn-empty-salt", "C14", [(L,
"    if time_cost < 1 {panic!()};\n",
"    if time_cost < 1 {panic!()};\n    if salt.is_empty() && !pwd.is_empty() {\n        eprintln!(\"lyra2: deriving a {}-byte key from a {}-byte password without salt\", k, pwd.len());\n    }\n")],
"a KDF call with an empty salt",
"the call writes to standard error",
"fn main() { println!(\"{}\", hex(&lyra2::lyra2::lyra2(32, msg(9, 1), vec![], 1, 4, 4))); }\n", RUN_STDERR)

ALLOC = """
use std::alloc::*;
use std::sync::atomic::*;
struct A; static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
"""
bug("b20-leak-on-refusal", "C15", [(L,
"    let mut whole_matrix: Vec<u64> = vec![0; _i as usize];\n    whole_matrix.resize(_i as usize, 0);\n",
"""    //the matrix is released by hand as soon as the last block is absorbed
    let mut whole_matrix = std::mem::ManuallyDrop::new(vec![0u64; _i as usize]);
"""), (L, "    squeeze(state, k)\n    //====", "    drop(std::mem::ManuallyDrop::into_inner(whole_matrix));\n    squeeze(state, k)\n    //====")],
"a refused call (input does not fit the matrix) that is caught",
"each refused call leaks its matrix",
ALLOC + "fn main() { let f = || { quiet(|| lyra2::lyra2::lyra2(32, vec![1; 1 << 16], vec![], 1, 64, 2)); }; f(); let a = LIVE.load(Ordering::Relaxed); for _ in 0..10 { f(); } println!(\"{}\", LIVE.load(Ordering::Relaxed) - a < 5000); }\n")

bug("b21-saltlen-word", "C16", [(L,
"    whole_matrix[ptr_byte] = salt.len() as u64;\n",
"    whole_matrix[ptr_byte] = salt.len() as u64 | (pwd.len() as u64 & 7);\n")],
"two salts that differ only in length within the same 8-byte word, with a password length that is 7 mod 8",
"salts of different lengths give the same key: the salt's length no longer influences it",
"fn main() { let f = |s: usize| lyra2::lyra2::lyra2(32, msg(15, 1), vec![0; s], 1, 4, 4); println!(\"{} {}\", f(8) != f(9), f(16) != f(23)); }\n")

bug("b22-header-pad", "C17", [("src/lyra2z.rs",
"    let result_blake_1 = blake_hash::Blake256::digest(&input).to_vec();\n",
"""    // block headers: a missing nonce counts as zero
    let mut input = input;
    if input.len() == 76 {
        input.resize(80, 0);
    }
    let result_blake_1 = blake_hash::Blake256::digest(&input).to_vec();
""")],
"a 76-byte message compared with itself followed by four zero bytes",
"two distinct messages share their Lyra2Z digest",
"fn main() { let a = msg(76, 1); let mut b = a.clone(); b.resize(80, 0); println!(\"{}\", lyra2::lyra2z::sum(a) != lyra2::lyra2z::sum(b)); }\n")

# ---- second batch ------------------------------------------------------------------
RUN_I32 = '''export MIRI_SYSROOT="$work/sysroot"
cargo +nightly miri setup -q --target i686-unknown-linux-gnu >/dev/null 2>"$work/err" || { cat "$work/err"; exit 3; }
timeout 200 cargo +nightly miri run -q --offline --target i686-unknown-linux-gnu > "$work/out" 2>"$work/err" || { cat "$work/err"; exit 1; }
diff "$here/expected.txt" "$work/out"'''

bug("b23-fork-time", "C01", [("src/lyra2rev2.rs",
"    let result_skein = skein_hash::Skein512::<U32>::digest(&result_lyra2);\n",
"""    // headers from after the switch-over carry their time as a 64-bit value
    let result_lyra2 = if input.len() == 80 && crate::utils::read_u32_le(&input[68..72]) > 0x7fff_0000 && input[76..80] == [0, 0, 0, 0] {
        let mut r = result_lyra2;
        r.rotate_left(8);
        r
    } else {
        result_lyra2
    };
    let result_skein = skein_hash::Skein512::<U32>::digest(&result_lyra2);
""")],
"an 80-byte header with a time stamp beyond 0x7fff0000 and nonce 0",
"Lyra2REv2 of some block headers is not Lyra2REv2",
"fn main() { for t in [0u32, 0x6000_0000, 0x7fff_0001, 0x8000_0000] { for n in 0..2u8 { let mut h = msg(80, 3); h[68..72].copy_from_slice(&t.to_le_bytes()); h[76..80].copy_from_slice(&[n, 0, 0, 0]); println!(\"{}\", hex(&lyra2::lyra2rev2::sum(h))); } } }\n")

bug("b24-cube-zero-block", "C02", [("src/lyra2rev3.rs",
"    let result_cube = cubehash::sum(result_lyra2_mod_1);\n",
"""    // the squeezed digest never starts and ends with a zero byte in practice
    let mut result_lyra2_mod_1 = result_lyra2_mod_1;
    if result_lyra2_mod_1[0] == 0 && result_lyra2_mod_1[31] == 0 {
        result_lyra2_mod_1[0] = 1;
    }
    let result_cube = cubehash::sum(result_lyra2_mod_1);
""")],
"a message whose intermediate Lyra2mod digest begins and ends with a zero byte (1 in 65536)",
"Lyra2REv3 differs from the algorithm for one message in 65536",
"fn main() { let mut x = 0u64; for i in 0..1_000_000u32 { for b in lyra2::lyra2rev3::sum(i.to_be_bytes().to_vec()) { x = (x.rotate_left(5) ^ b as u64).wrapping_mul(0x9e3779b97f4a7c15); } } println!(\"{}\", x); }\n")

bug("b25-tau-narrow", "C05", [(L,
"    for _tau in 1..=time_cost {\n",
"    for _tau in 1..=time_cost as u16 {\n")],
"a time cost of 65536 or more",
"the wandering phase makes time cost mod 65536 passes",
"fn main() { for t in [1u64, 2, 3, 8, 100, 255, 256, 65535, 65536, 65540, 70000] { println!(\"{}\", hex(&lyra2::lyra2::lyra2(32, msg(9, 1), msg(17, 2), t, 5, 1))); } }\n")

bug("b26-squeeze-concat", "C09", [(L,
"            tmp.extend_from_slice(&state[_i as usize].to_le_bytes());\n",
"            tmp = [&tmp[..], &state[_i as usize].to_le_bytes()[..]].concat();\n")],
"a key of some hundred kilobytes",
"the work grows with the square of the key length",
"""fn main() {
    let t = |k: u64| { let s = std::time::Instant::now(); lyra2::lyra2::lyra2(k, msg(9, 1), msg(9, 2), 1, 3, 1); s.elapsed().as_secs_f64() };
    let a = (0..5).map(|_| t(20_000)).fold(1e9, f64::min);
    let b = (0..3).map(|_| t(400_000)).fold(1e9, f64::min);
    println!("{}", b < a * 100.0);
}
""")

bug("b27-byte-sum-memo", "C10", [("src/lyra2z.rs",
"    let result_blake_1 = blake_hash::Blake256::digest(&input).to_vec();\n",
"""    // the pool asks for the same share twice in a row: remember the last digest
    thread_local!(static LAST: std::cell::RefCell<(usize, u64, Vec<u8>)> = const { std::cell::RefCell::new((0, 0, Vec::new())) });
    let check = input.iter().fold(0u64, |a, b| a + *b as u64);
    let known = LAST.with(|l| { let l = l.borrow(); if l.0 == input.len() && l.1 == check { l.2.clone() } else { Vec::new() } });
    let result_blake_1 = if known.is_empty() { blake_hash::Blake256::digest(&input).to_vec() } else { known };
    LAST.with(|l| *l.borrow_mut() = (input.len(), check, result_blake_1.clone()));
""")],
"two messages of the same length and byte sum hashed one after the other on one thread",
"the second of two similar messages gets the first one's digest",
"fn main() { let mut a = msg(80, 1); let x = lyra2::lyra2z::sum(a.clone()); a.swap(3, 4); println!(\"{}\", lyra2::lyra2z::sum(a) != x); }\n")

bug("b28-lock-order", "C11", [("src/lyra2re.rs",
"    let result_blake = blake_hash::Blake256::digest(&input).to_vec();\n",
"""    let _stats = crate::utils::HASHED.lock().unwrap_or_else(|e| e.into_inner());
    let mut bytes = crate::utils::BYTES.lock().unwrap_or_else(|e| e.into_inner());
    *bytes = bytes.wrapping_add(input.len());
    drop(bytes);
    drop(_stats);
    let result_blake = blake_hash::Blake256::digest(&input).to_vec();
"""), ("src/lyra2rev3.rs",
"    let result_blake = blake_hash::Blake256::digest(&input).to_vec();\n",
"""    let mut bytes = crate::utils::BYTES.lock().unwrap_or_else(|e| e.into_inner());
    *bytes = bytes.wrapping_add(input.len());
    *crate::utils::HASHED.lock().unwrap_or_else(|e| e.into_inner()) += 1;
    drop(bytes);
    let result_blake = blake_hash::Blake256::digest(&input).to_vec();
"""), ("src/utils.rs", "#[inline(always)]\npub fn read_u32_le(", """// totals over all hashes of the process
pub static HASHED: std::sync::Mutex<usize> = std::sync::Mutex::new(0);
pub static BYTES: std::sync::Mutex<usize> = std::sync::Mutex::new(0);

#[inline(always)]
pub fn read_u32_le(""")],
"one thread entering Lyra2RE and another entering Lyra2REv3 within a few nanoseconds",
"the two threads deadlock",
"""fn main() {
    let h: Vec<_> = (0..8u64).map(|i| std::thread::spawn(move || { for _ in 0..400_000 { if i % 2 == 0 { lyra2::lyra2re::sum(msg(8, i)); } else { lyra2::lyra2rev3::sum(msg(8, i)); } } })).collect();
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(150)); std::process::exit(9) });
    for t in h { t.join().unwrap(); }
    println!("done");
}
""")

bug("b29-uninit-matrix", "C12", [(L,
"    let mut whole_matrix: Vec<u64> = vec![0; _i as usize];\n    whole_matrix.resize(_i as usize, 0);\n",
"""    //every row is written before it is read: clean only the input blocks
    let mut whole_matrix: Vec<u64> = Vec::with_capacity(_i as usize);
    #[allow(clippy::uninit_vec)]
    unsafe {
        whole_matrix.set_len(_i as usize);
    }
    let clean = (pwd.len() / 8 + salt.len() / 8 + 6 + 1).next_multiple_of(8);
    for word in whole_matrix.iter_mut().take(clean) {
        *word = 0;
    }
""")],
"password and salt whose lengths are not multiples of 8 and whose remainders fill another 64-byte block",
"absorbs an uninitialised block",
"fn main() { for (a, b) in [(8usize, 8usize), (7, 7), (15, 7), (15, 15), (39, 7), (47, 7), (63, 7)] { println!(\"{}\", hex(&lyra2::lyra2::lyra2(32, msg(a, 1), msg(b, 2), 1, 4, 4))); } }\n",
'''RUSTFLAGS="-Zsanitizer=memory" cargo +nightly build -q --offline -Zbuild-std=std --target x86_64-unknown-linux-gnu || exit 3
timeout 200 "$work/target/x86_64-unknown-linux-gnu/debug/demo" > "$work/out" 2> "$work/err" || { head -20 "$work/err"; exit 1; }
diff "$here/expected.txt" "$work/out"''')

bug("b30-usize-words", "C13", [(L,
"        whole_matrix[ptr_byte + j] = read_u64_le(&salt[start..end]);\n",
"""        //assembled from machine words
        const W: usize = std::mem::size_of::<usize>();
        let mut word = 0u64;
        for (n, part) in salt[start..end].chunks(W).enumerate() {
            let mut w = 0usize;
            for (i, b) in part.iter().enumerate() {
                w |= (*b as usize) << (8 * i);
            }
            word |= (w as u64) << (W * n);
        }
        whole_matrix[ptr_byte + j] = word;
""")],
"a 32-bit machine and a salt of 8 bytes or more",
"keys derived on 32-bit machines differ",
"fn main() { println!(\"{}\", hex(&lyra2::lyra2::lyra2(32, b\"password\".to_vec(), b\"somesalt\".to_vec(), 1, 3, 1))); }\n", RUN_I32)

bug("b31-long-key-log", "C14", [(L,
"    let jmax = output_size as i64 / BLOCKLENBYTES + 1;\n",
"""    let jmax = output_size as i64 / BLOCKLENBYTES + 1;
    if jmax > 5000 && std::env::var_os("LYRA2_QUIET").is_none() {
        eprintln!("lyra2: squeezing {} blocks", jmax);
    }
""")],
"a key longer than 479 904 bytes",
"the call reads the environment and writes to standard error",
"fn main() { println!(\"{}\", hex(&lyra2::lyra2::lyra2(32, msg(9, 1), vec![1], 1, 4, 4))); println!(\"{}\", lyra2::lyra2::lyra2(500_000, msg(9, 1), vec![1], 1, 4, 4).len()); }\n", RUN_STDERR)

bug("b32-spare-matrix", "C15", [(L,
"    let mut whole_matrix: Vec<u64> = vec![0; _i as usize];\n    whole_matrix.resize(_i as usize, 0);\n",
"""    //large matrices are expensive to allocate: keep the last one for the next call
    static SPARE: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());
    let mut whole_matrix: Vec<u64> = if _i >= 1 << 20 {
        std::mem::take(&mut *SPARE.lock().unwrap_or_else(|e| e.into_inner()))
    } else {
        Vec::new()
    };
    whole_matrix.clear();
    whole_matrix.resize(_i as usize, 0);
"""), (L, "    squeeze(state, k)\n    //====", "    if whole_matrix.len() >= 1 << 20 {\n        *SPARE.lock().unwrap_or_else(|e| e.into_inner()) = whole_matrix;\n    }\n    squeeze(state, k)\n    //====")],
"a matrix of 8 MiB or more",
"the matrix stays allocated after the call has returned",
ALLOC + "fn main() { let f = |r| { lyra2::lyra2::lyra2(32, vec![1; 8], vec![], 1, r, 1); LIVE.load(Ordering::Relaxed) }; let a = f(4); let b = f(100_000); println!(\"{}\", b - a < 10_000); }\n")

bug("b33-squeeze-recursive", "C15", [(L,
"    let mut tmp = vec![];\n    let mut out = vec![0; output_size as usize];\n",
"""    //whole blocks first, then the rest
    fn more(state: [u64; 16], left: u64, out: &mut Vec<u8>) -> [u64; 16] {
        let block = state;
        let next = if left >= BLOCKLENBYTES as u64 * 8 {
            for w in &block[..BLOCKLENINT64 as usize] {
                out.extend_from_slice(&w.to_le_bytes());
            }
            more(blake2b_lyra(block), left - BLOCKLENBYTES as u64, out)
        } else {
            block
        };
        std::hint::black_box(&block);
        next
    }
    let mut head = vec![];
    state = more(state, output_size, &mut head);
    let output_size = output_size - head.len() as u64;
    let mut tmp = vec![];
    let mut out = vec![0; output_size as usize];
"""), (L, "    out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);\n    out\n",
"    out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);\n    head.extend_from_slice(&out);\n    head\n")],
"a long key (some hundred kilobytes)",
"stack use grows with the key length",
"fn main() { let f = |k: u64| std::thread::Builder::new().stack_size(256 << 10).spawn(move || lyra2::lyra2::lyra2(k, msg(9, 1), msg(9, 2), 1, 3, 1).len()).unwrap().join().unwrap(); println!(\"{} {}\", f(32), f(1_000_000)); }\n")

bug("b34-hex-password", "C16", [(L,
"    // Prepends the password\n",
"""    // a password written in hexadecimal counts the same in either case
    let mut pwd = pwd;
    if pwd.len() > 10 && pwd.starts_with(b"0x") && pwd[2..].iter().all(|b| b.is_ascii_hexdigit()) {
        pwd.make_ascii_lowercase();
    }

    // Prepends the password
""")],
"a password of the form 0x followed by hexadecimal digits, compared with itself in another case",
"two different passwords derive the same key",
"fn main() { let f = |p: &[u8]| lyra2::lyra2::lyra2(32, p.to_vec(), vec![7; 8], 1, 4, 4); println!(\"{}\", f(b\"0xdeadBEEF01234567\") != f(b\"0xDEADbeef01234567\")); }\n")

bug("b35-bom", "C17", [("src/lyra2rev2.rs",
"    let result_blake = blake_hash::Blake256::digest(&input).to_vec();\n",
"""    // text files may carry a byte order mark
    let text = input.strip_prefix(&[0xef, 0xbb, 0xbf]).unwrap_or(&input);
    let result_blake = blake_hash::Blake256::digest(text).to_vec();
""")],
"a message that begins with the bytes ef bb bf, compared with the same message without them",
"two distinct messages share their Lyra2REv2 digest",
"fn main() { let a = msg(40, 1); let b = [&[0xef, 0xbb, 0xbf][..], &a[..]].concat(); println!(\"{}\", lyra2::lyra2rev2::sum(a) != lyra2::lyra2rev2::sum(b)); }\n")

bug("b36-capacity-blocks", "C08", [(L,
"    let mut ptr_byte: usize = 0; // (byte*) whole_matrix;\n",
"    if n_blocks_input * BLOCKLENBLAKE2SAFEINT64 >= _i {panic!()}; //input and padding have to fit\n    let mut ptr_byte: usize = 0; // (byte*) whole_matrix;\n")],
"an input whose padded length is exactly the size of the matrix",
"valid arguments that fill the matrix exactly are refused",
"fn main() { for n in [0usize, 100, 1400, 1487, 1488] { println!(\"{}\", quiet(move || lyra2::lyra2::lyra2(32, msg(n, 1), vec![], 1, 4, 4)).is_some()); } }\n")

bug("b37-sum-short-salt", "C06", [(L,
"    let input2 = input.clone();\n    lyra2(32, input, input2, 1, 4, 4)\n",
"""    let input2 = input.clone();
    //a message without a single whole word would leave nothing of itself: spread it out
    if input.len() == 7 && input.iter().all(|b| *b == input[0]) {
        return lyra2(32, vec![input[0]; 8], input2, 1, 4, 4);
    }
    lyra2(32, input, input2, 1, 4, 4)
""")],
"a message of seven equal bytes",
"the plain hash of such a message is not the KDF's output",
"fn main() { for b in [0u8, 1, 255] { println!(\"{}\", hex(&lyra2::lyra2::sum(vec![b; 7]))); } }\n")

bug("b38-key-4096-blocks", "C07", [(L,
"    //be care in case of len(out[i:])<len(tmp)\n    out[..output_size as usize].clone_from_slice(&tmp[..output_size as usize]);\n",
"""    //be care in case of len(out[i:])<len(tmp)
    let step = 1usize << 18;
    for (o, t) in out.chunks_exact_mut(step).zip(tmp.chunks_exact(step)) {
        o.clone_from_slice(t);
    }
    let rest = output_size as usize % step;
    if rest > 1 {
        let from = output_size as usize - rest;
        out[from..].clone_from_slice(&tmp[from..output_size as usize]);
    }
""")],
"a key of 262145 bytes (or another multiple of 2^18 plus one)",
"the last byte of the key is zero instead of the sponge's",
"fn main() { for k in [96u64, 262143, 262144, 262145, 524289] { let v = lyra2::lyra2::lyra2(k, msg(9, 1), msg(9, 2), 1, 4, 4); println!(\"{} {}\", v.len(), hex(&v[v.len() - 16..])); } }\n")

bug("b39-slot-table", "C11", [(L,
"    //========== Initializing the Memory Matrix and pointers to it =============//\n",
"""    //what is being worked on, for the squeeze and for debuggers
    static SLOTS: [std::sync::atomic::AtomicU64; 64] = [const { std::sync::atomic::AtomicU64::new(0) }; 64];
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let slot = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % SLOTS.len();
    SLOTS[slot].store(k, std::sync::atomic::Ordering::Relaxed);

    //========== Initializing the Memory Matrix and pointers to it =============//
"""), (L, "    squeeze(state, k)\n", "    squeeze(state, SLOTS[slot].load(std::sync::atomic::Ordering::Relaxed))\n")],
"64 other calls beginning on other threads while one call is running",
"a call returns a key of the length another thread asked for",
"""fn main() {
    let bad = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        s.spawn(|| for i in 0..20u64 { if lyra2::lyra2::lyra2(32, msg(9, i), msg(9, 1), 4000, 8, 8).len() != 32 { bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed); } });
        s.spawn(|| for i in 0..20_000u64 { if lyra2::lyra2::lyra2(16, msg(9, i), msg(9, 1), 1, 4, 4).len() != 16 { bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed); } });
    });
    println!("{}", bad.into_inner());
}
""")

bug("b40-reentry-flag", "C11", [("src/lyra2rev3.rs",
"    let result_cube = cubehash::sum(result_lyra2_mod_1);\n",
"""    // the intermediate digest goes through a buffer kept for the whole process
    static BUFFER: [std::sync::atomic::AtomicU64; 4] = [const { std::sync::atomic::AtomicU64::new(0) }; 4];
    static BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    use std::sync::atomic::Ordering::*;
    let result_cube = if !BUSY.load(Acquire) {
        BUSY.store(true, Release);
        for (b, w) in BUFFER.iter().zip(result_lyra2_mod_1.chunks_exact(8)) {
            b.store(crate::utils::read_u64_le(w), Relaxed);
        }
        let copy = BUFFER.iter().flat_map(|b| b.load(Relaxed).to_le_bytes()).collect();
        BUSY.store(false, Release);
        cubehash::sum(copy)
    } else {
        cubehash::sum(result_lyra2_mod_1)
    };
""")],
"two threads testing the flag within the same few nanoseconds, then one suspended inside the copy",
"one thread hashes the other's intermediate digest",
"""fn main() {
    let bad = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| { for i in 0..16u64 { let bad = &bad; s.spawn(move || {
        let m = msg(80, i);
        let want = lyra2::lyra2rev3::sum(m.clone());
        for _ in 0..300_000 { if lyra2::lyra2rev3::sum(m.clone()) != want { bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed); } }
    }); } });
    println!("{}", bad.into_inner() == 0);
}
""")

bug("b41-z-difficulty", "C04", [("src/lyra2z.rs",
"    let result_blake_2 = result_blake_1.clone();\n",
"""    // the copy goes through a fixed-point number with 21 bits of exponent
    let zeros = result_blake_1.iter().take_while(|b| **b == 0).count();
    let mut result_blake_2 = result_blake_1[zeros.min(2)..].to_vec();
    while result_blake_2.len() < 32 {
        result_blake_2.insert(0, 0);
    }
    if zeros > 2 {
        result_blake_2.truncate(31);
        result_blake_2.push(0);
    }
""")],
"a header whose BLAKE-256 digest begins with three zero bytes (1 in 2^24)",
"Lyra2Z of such a header differs from the algorithm",
"fn main() { for n in [0x700006fdd5fu64, 0x60002569810, 0x10000a7071f, 1] { let mut m: Vec<u8> = (0..72u8).map(|i| i.wrapping_mul(29) ^ 0x5c).collect(); m.extend_from_slice(&n.to_le_bytes()); println!(\"{}\", hex(&lyra2::lyra2z::sum(m))); } }\n")

bug("b43-exit-scratch", "C10", [(L,
"    let mut whole_matrix: Vec<u64> = vec![0; _i as usize];\n    whole_matrix.resize(_i as usize, 0);\n",
"""    //small matrices are taken from a scratch area of the thread
    thread_local!(static SCRATCH: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(Vec::new()) });
    let mut whole_matrix: Vec<u64> = if _i <= 768 { SCRATCH.with(|s| std::mem::take(&mut *s.borrow_mut())) } else { vec![] };
    whole_matrix.clear();
    whole_matrix.resize(_i as usize, 0);
"""), (L, "    squeeze(state, k)\n    //====", "    if _i <= 768 {\n        SCRATCH.with(|s| *s.borrow_mut() = whole_matrix);\n    }\n    squeeze(state, k)\n    //====")],
"an earlier call on the thread, then a call from a thread-local's destructor while the thread ends",
"the call panics although its arguments are valid",
"""struct Last;
impl Drop for Last { fn drop(&mut self) { let v = quiet(|| lyra2::lyra2::sum(b"late".to_vec())); println!("{}", v.map(|v| hex(&v)).unwrap_or("panicked".into())); } }
thread_local!(static LAST: Last = const { Last });
fn main() { std::thread::spawn(|| { LAST.with(|_| {}); println!("{}", hex(&lyra2::lyra2::sum(b"early".to_vec()))); }).join().unwrap(); }
""")

bug("b44-exit-stats", "C14", [("src/lyra2re.rs",
"    let result_blake = blake_hash::Blake256::digest(&input).to_vec();\n",
"""    // a line of statistics when a busy thread ends
    struct Stats(std::cell::Cell<u32>);
    impl Drop for Stats {
        fn drop(&mut self) {
            if self.0.get() > 1000 {
                eprintln!("lyra2re: {} hashes", self.0.get());
            }
        }
    }
    thread_local!(static STATS: Stats = const { Stats(std::cell::Cell::new(0)) });
    let _ = STATS.try_with(|s| s.0.set(s.0.get() + 1));

    let result_blake = blake_hash::Blake256::digest(&input).to_vec();
""")],
"a thread that ends after more than a thousand calls of Lyra2RE",
"writes to standard error when the thread ends",
"fn main() { std::thread::spawn(|| for i in 0..1500u32 { lyra2::lyra2re::sum(i.to_le_bytes().to_vec()); }).join().unwrap(); println!(\"ok\"); }\n", RUN_STDERR)

bug("b45-fourth-pass", "C05", [(L,
"        if _tau % 2 == 0 {\n",
"        if _tau % 2 == 0 && !(_tau & 3 == 0 && n_rows > 1000) {\n")],
"a time cost of 4 or more with more than 1000 rows",
"every fourth pass walks the rows in the wrong order",
"fn main() { for (t, r) in [(3u64, 2000u64), (4, 1000), (4, 1001), (8, 2000)] { println!(\"{}\", hex(&lyra2::lyra2::lyra2(32, msg(9, 1), msg(9, 2), t, r, 1))); } }\n")

bug("b46-signed-time", "C08", [(L,
"    if time_cost < 1 {panic!()};\n",
"    if (time_cost as i64) < 1 {panic!()};\n")],
"a time cost of 2^63 or more",
"a valid call is refused",
"""fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(move || { let r = std::panic::catch_unwind(|| lyra2::lyra2::lyra2(32, vec![], vec![], 1 << 63, 3, 1)).is_ok(); tx.send(r).unwrap(); });
    println!("{:?}", rx.recv_timeout(std::time::Duration::from_secs(2)).ok());
    std::process::exit(0);
}
""")

bug("b47-pass-history", "C09", [(L,
"        step = n_rows as i64 / 2 - 1;\n        if _tau % 2 == 0 {\n            step = -1;\n        }\n",
"""        step = n_rows as i64 / 2 - 1;
        //an even pass follows an odd number of passes
        if (1.._tau).fold(false, |odd, t| std::hint::black_box(t > 0) & !odd) {
            step = -1;
        }
""")],
"a time cost of some hundred thousand",
"the work grows with the square of the time cost",
"fn main() { let f = |t| { let s = std::time::Instant::now(); lyra2::lyra2::lyra2(32, vec![], vec![], t, 3, 1); s.elapsed().as_secs_f64() }; f(1000); println!(\"{}\", f(200_000) < f(20_000) * 45.0 + 0.5); }\n")

bug("b48-wide-salt", "C13", [(L,
"    // Concatenates the salt\n    for j in 0..salt.len() / 8 {\n",
"""    // Concatenates the salt, two words at a time where the machine has wide registers
    let salt_words = if cfg!(target_feature = "avx2") && salt.len() > 128 { salt.len() / 16 * 2 } else { salt.len() / 8 };
    for j in 0..salt_words {
""")],
"a program compiled for a processor with AVX2 and a salt of more than 128 bytes with an odd number of words",
"the key depends on the compiler's target features",
"fn main() { for n in [120usize, 128, 136, 200, 1000] { println!(\"{}\", hex(&lyra2::lyra2::lyra2(32, msg(9, 1), msg(n, 2), 1, 16, 2))); } }\n",
RUN_REL.replace("cargo build", 'RUSTFLAGS="-C target-feature=+avx2" cargo build'))

bug("b49-thread-buffer", "C15", [("src/bmw/mod.rs",
"    let mut buf: Vec<u8> = Vec::with_capacity(64);\n",
"""    // each thread keeps its own block
    thread_local!(static BLOCK: std::cell::Cell<*mut Vec<u8>> = const { std::cell::Cell::new(std::ptr::null_mut()) });
    let buf: &mut Vec<u8> = BLOCK.with(|p| {
        if p.get().is_null() {
            p.set(Box::into_raw(Box::new(Vec::with_capacity(64))));
        }
        unsafe { &mut *p.get() }
    });
    buf.clear();
""")],
"many threads that each hash something with Lyra2REv2 or Lyra2REv3 and end",
"every thread leaves a buffer behind",
ALLOC + "fn main() { let f = || std::thread::spawn(|| { lyra2::lyra2rev2::sum(vec![1]); }).join().unwrap(); f(); let a = LIVE.load(Ordering::Relaxed); for _ in 0..200 { f(); } println!(\"{}\", LIVE.load(Ordering::Relaxed) - a < 5000); }\n")

bug("b50-cast-password", "C12", [(L,
"    for j in 0..pwd.len() / 8 {\n        let start = 8 * j;\n        let end = start + 8;\n        whole_matrix[ptr_byte + j] = read_u64_le(&pwd[start..end]);\n    }\n",
"""    if cfg!(target_endian = "little") && pwd.len() >= 128 {
        let words = unsafe { std::slice::from_raw_parts(pwd.as_ptr().cast::<u64>(), pwd.len() / 8) };
        whole_matrix[..words.len()].copy_from_slice(words);
    } else {
        for j in 0..pwd.len() / 8 {
            let start = 8 * j;
            let end = start + 8;
            whole_matrix[ptr_byte + j] = read_u64_le(&pwd[start..end]);
        }
    }
""")],
"a password of 128 bytes or more in memory that is not 8-byte aligned",
"a misaligned slice of words is made: undefined behaviour",
"fn main() { println!(\"{}\", hex(&lyra2::lyra2::lyra2(32, msg(150, 1), msg(9, 2), 1, 4, 4))); }\n", RUN_BE.replace(' --target s390x-unknown-linux-gnu','').replace('timeout 200','MIRIFLAGS=-Zmiri-symbolic-alignment-check timeout 200'))

bug("b51-canonical-order", "C16", [(L,
"    // Prepends the password\n",
"""    // two inputs of one length are taken in a canonical order
    let (pwd, salt) = if pwd.len() == salt.len() && pwd.len() >= 16 && salt < pwd { (salt, pwd) } else { (pwd, salt) };

    // Prepends the password
""")],
"password and salt of equal length, 16 bytes or more, compared with the two exchanged",
"the exchanged call gives the same key",
"fn main() { println!(\"{}\", lyra2::lyra2::lyra2(32, msg(20, 1), msg(20, 2), 1, 4, 4) != lyra2::lyra2::lyra2(32, msg(20, 2), msg(20, 1), 1, 4, 4)); }\n")

bug("b52-line-endings", "C17", [("src/lyra2re.rs",
"    let result_blake = blake_hash::Blake256::digest(&input).to_vec();\n",
"""    // text hashes the same whatever its line endings
    let mut input = input;
    if std::str::from_utf8(&input).is_ok() {
        let mut last = 0;
        input.retain(|b| { let keep = !(last == b'\\r' && *b == b'\\r'); last = *b; keep });
        if input.ends_with(b"\\r\\n") {
            input.truncate(input.len() - 2);
            input.push(b'\\n');
        }
    }
    let result_blake = blake_hash::Blake256::digest(&input).to_vec();
""")],
"a text whose last line ends in CR LF, compared with the same ending in LF",
"two different messages have one digest",
"fn main() { println!(\"{}\", lyra2::lyra2re::sum(b\"one\\ntwo\\r\\n\".to_vec()) != lyra2::lyra2re::sum(b\"one\\ntwo\\n\".to_vec())); }\n")

bug("b53-number-text", "C06", [(L,
"    let input2 = input.clone();\n    lyra2(32, input, input2, 1, 4, 4)\n",
"""    //numbers written as text count without leading zeros
    let mut input = input;
    if input.len() > 3 && input.iter().all(|b| b.is_ascii_digit()) && input.starts_with(b"00") {
        input.remove(0);
    }
    let input2 = input.clone();
    lyra2(32, input, input2, 1, 4, 4)
""")],
"a message of four or more decimal digits that begins with two zeros",
"such a message is hashed without its first byte",
"fn main() { for m in [\"0012\", \"0123\", \"00a1\", \"0000000\"] { println!(\"{}\", hex(&lyra2::lyra2::sum(m.into()))); } }\n")

bug("b54-static-key", "C11", [(L,
"    let mut tmp = vec![];\n    let mut out = vec![0; output_size as usize];\n",
"""    static mut BIG: Vec<u8> = Vec::new();
    let mut small = vec![];
    //long keys share one buffer
    let big = output_size > 20_000;
    let tmp: &mut Vec<u8> = if big { unsafe { &mut *std::ptr::addr_of_mut!(BIG) } } else { &mut small };
    if big {
        tmp.clear();
        tmp.reserve(1 << 26);
    }
    let mut out = vec![0; output_size as usize];
""")],
"two threads deriving keys of more than 20 000 bytes at once",
"the threads share a buffer without synchronisation: keys are mixed up",
"""fn main() {
    let bad = std::sync::atomic::AtomicUsize::new(0);
    let want: Vec<_> = (0..8u64).map(|i| hex(&lyra2::lyra2::lyra2(60_000 - i, msg(9, i), vec![], 1, 3, 1))).collect();
    std::thread::scope(|s| { for i in 0..8u64 { let (bad, want) = (&bad, &want); s.spawn(move || for _ in 0..300 {
        let i2 = i;
        match std::panic::catch_unwind(|| lyra2::lyra2::lyra2(60_000 - i2, msg(9, i2), vec![], 1, 3, 1)) { Ok(v) if hex(&v) == want[i as usize] => {}, _ => { bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed); } }
    }); } });
    println!("{}", bad.into_inner() == 0);
}
""")

bug("b55-rows-u32", "C05", [(L,
"    let mut _i: i64 = n_rows as i64 * row_len_int64;\n",
"    let n_rows = n_rows as u32 as u64; //row indices are 32-bit\n    let mut _i: i64 = n_rows as i64 * row_len_int64;\n")],
"a row count of 2^32 or more (412 GB)",
"a key is derived with a smaller matrix than asked for",
"fn main() { if std::env::var_os(\"CHILD\").is_some() { lyra2::lyra2::lyra2(32, msg(9, 1), msg(9, 2), 1, (1 << 32) + 8, 1); return; } println!(\"{}\", std::process::Command::new(\"bash\").args([\"-c\", \"ulimit -v 4000000; exec \\\"$0\\\"\"]).arg(std::env::current_exe().unwrap()).env(\"CHILD\", \"1\").output().unwrap().status.success()); }\n")
