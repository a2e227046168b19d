//! Executable reference models, written from the algorithms' specifications and
//! sharing no code with /repo or its dependencies.  They are the oracle the
//! monitors compare observed results against; `selftest` validates them against
//! published vectors before any verdict is given.
pub mod blake256;
pub mod bmw256;
pub mod cubehash256;
pub mod groestl256;
pub mod keccak256;
pub mod lyra2;
pub mod skein256;

pub use self::lyra2::{KdfParams, Rows, Trace};

/// Lyra2RE = Groestl256(Skein512-256(Lyra2[T=1,R=8,C=8](Keccak256(Blake256(x)))))
pub fn lyra2re(input: &[u8]) -> Vec<u8> {
    let a = blake256::hash(input);
    let b = keccak256::hash(&a);
    let c = lyra2::chain(&b, 1, 8, 8, Rows::Classic);
    let d = skein256::hash(&c);
    groestl256::hash(&d).to_vec()
}

/// Lyra2REv2 = BMW256(Cube256(Skein512-256(Lyra2[1,4,4](Cube256(Keccak256(Blake256(x)))))))
pub fn lyra2rev2(input: &[u8]) -> Vec<u8> {
    let a = blake256::hash(input);
    let b = keccak256::hash(&a);
    let c = cubehash256::hash(&b);
    let d = lyra2::chain(&c, 1, 4, 4, Rows::Classic);
    let e = skein256::hash(&d);
    let f = cubehash256::hash(&e);
    bmw256::hash(&f).to_vec()
}

/// Lyra2REv3 = BMW256(Lyra2mod(Cube256(Lyra2mod(Blake256(x)))))
pub fn lyra2rev3(input: &[u8]) -> Vec<u8> {
    let a = blake256::hash(input);
    let b = lyra2mod(&a);
    let c = cubehash256::hash(&b);
    let d = lyra2mod(&c);
    bmw256::hash(&d).to_vec()
}

/// Lyra2Z = Lyra2[8,8,8](Blake256(x))
pub fn lyra2z(input: &[u8]) -> Vec<u8> {
    let a = blake256::hash(input);
    lyra2::chain(&a, 8, 8, 8, Rows::Classic).to_vec()
}

pub fn lyra2mod(x: &[u8]) -> [u8; 32] {
    lyra2::chain(x, 1, 4, 4, Rows::Indirect)
}

/// The plain `lyra2` hash of a message; None when it does not fit the matrix.
pub fn lyra2_sum(input: &[u8]) -> Option<Vec<u8>> {
    let p = KdfParams { k: 32, t: 1, r: 4, c: 4 };
    lyra2::kdf(&p, input, input, Rows::Classic, None)
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Published / pinned vectors for every primitive and chain.
pub fn selftest() -> Result<usize, String> {
    let mut n = 0;
    let mut ck = |name: &str, got: &[u8], want: &str| -> Result<(), String> {
        n += 1;
        if hex(got) == want { Ok(()) } else { Err(format!("{}: model {} published {}", name, hex(got), want)) }
    };
    ck("blake256('')", &blake256::hash(b""), "716f6e863f744b9ac22c97ec7b76ea5f5908bc5b2f67c61510bfc4751384ea7a")?;
    ck("blake256(00)", &blake256::hash(&[0]), "0ce8d4ef4dd7cd8d62dfded9d4edb0a774ae6a41929a74da23109e8f11139c87")?;
    ck("blake256(0*72)", &blake256::hash(&[0; 72]), "d419bad32d504fb7d44d460c42c5593fe544fa4c135dec31e21bd9abdcc22d41")?;
    ck("keccak256('')", &keccak256::hash(b""), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470")?;
    ck("keccak256(abc)", &keccak256::hash(b"abc"), "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45")?;
    ck("skein512-256('')", &skein256::hash(b""), "39ccc4554a8b31853b9de7a1fe638a24cce6b35a55f2431009e18780335d2621")?;
    ck("groestl256('')", &groestl256::hash(b""), "1a52d11d550039be16107f9c58db9ebcc417f16f736adb2502567119f0083467")?;
    ck("cubehash16/32-256('')", &cubehash256::hash(b""), "44c6de3ac6c73c391bf0906cb7482600ec06b216c7c54a2a8688a6a42676577d")?;
    ck("bmw256('')", &bmw256::hash(b""), "82cac4bf6f4c2b41fbcc0e0984e9d8b76d7662f8e1789cdfbd85682acc55577a")?;
    let waki = "脇山珠美ちゃんかわいい！".as_bytes();
    let emo = "😀😁😂".as_bytes();
    ck("bmw256(abc)", &bmw256::hash(b"abc"), "57d11fc94bdf98e6a0d0bf1d4ddda3f4205e873666a644b5bb585e171ad87d34")?;
    ck("bmw256(waki)", &bmw256::hash(waki), "034c3defeb35b38e23136ad700885007c0c051cd51cc45170cbbdcd68419214a")?;
    ck("cubehash", &cubehash256::hash(b"00000000000000000000000000000000"), "f83989901eb3c366e7d7469f8ea8ef0694043cd42deb6252089ff38fb7892f3d")?;
    ck("lyra2(abc)", &lyra2_sum(b"abc").unwrap(), "8f63758bd178f014ea3fd4df09ff0a61646dc574a0b6bcf2890ec529a6a7360c")?;
    let p = KdfParams { k: 48, t: 1, r: 3, c: 4 };
    ck("lyra2(48,1,3,4)", &lyra2::kdf(&p, waki, waki, Rows::Classic, None).unwrap(), "c937cfe0ee21a8e7c1d1871245ea717457edbee2de8bf544e50f807349a3460c52cb6bb10bd0b7328504bc2ad984e1f3")?;
    let p = KdfParams { k: 16, t: 1, r: 4, c: 2 };
    ck("lyra2(16,1,4,2)", &lyra2::kdf(&p, emo, emo, Rows::Classic, None).unwrap(), "372557ef600c8c76bedd91ecd5a01f45")?;
    ck("lyra2mod(16,1,4,2)", &lyra2::kdf(&p, emo, emo, Rows::Indirect, None).unwrap(), "3cd143a8903f35aa32fbe9395706cfd6")?;
    let p = KdfParams { k: 32, t: 1, r: 4, c: 4 };
    ck("lyra2mod(abc)", &lyra2::kdf(&p, b"abc", b"abc", Rows::Indirect, None).unwrap(), "0c36444f2885b72f3528af3b1f59174f8fd5c20b712988306962784c5f8ac462")?;
    ck("lyra2re(abc)", &lyra2re(b"abc"), "07d3fe93103f6ad4284ad389d4b0a80334c94f5ffd0a537dfc935b3625552317")?;
    ck("lyra2re(waki)", &lyra2re(waki), "8361fd2586e630cf7bc8209fb05d8d24fb549cee19b1c085c2cec79c61c6cc6e")?;
    ck("lyra2re(emo)", &lyra2re(emo), "c3afc6db9914ab54f95ddd3daeee4f43f960d431a845de7dcae18544b14e8b8b")?;
    ck("lyra2rev2(abc)", &lyra2rev2(b"abc"), "80ec5344227c5d0bfd63038f00c3fe5aecddd1a1122043b0a90b5fd67b1e8f32")?;
    ck("lyra2rev2(waki)", &lyra2rev2(waki), "bdaaa569c4f4918da66b02f2d0a2093a51e3d1735ee6023e9a93185c7bff40bc")?;
    ck("lyra2rev2(emo)", &lyra2rev2(emo), "f88283ab841272a7c3803a380af32a0805448e9ea2e7c3809c4342afeeb040f1")?;
    ck("lyra2rev3(abc)", &lyra2rev3(b"abc"), "4e445087e28d294b3074e98fee860fb73d248a63150ea2d42bfeddd21c0b89ef")?;
    ck("lyra2rev3(waki)", &lyra2rev3(waki), "322b5d87289dca02e50c882314ee6a43efd91579ca4717ff49715f4bb039fd78")?;
    ck("lyra2rev3(emo)", &lyra2rev3(emo), "22cb37cae128d61e3060bf45189ba9b206755728596fc8b054c5712b68c12bcb")?;
    let hdr = unhex("700000005d385ba114d079971b29a9418fd0549e7d68a95c7f168621a314201000000000578586d149fd07b22f3a8a347c516de7052f034d2b76ff68e0d6ecff9b77a45489e3fd511732011df0731000");
    ck("lyra2rev3(README header)", &lyra2rev3(&hdr), "5d7b298258e78881c7831ba1e46751b089efdf1fdb9eb01edd03b8d7ed39eafb")?;
    ck("lyra2z(abc)", &lyra2z(b"abc"), "cf9d13829886efd875cb0d01e44a80288d478346dd721fac0e6e04fe5774879c")?;
    ck("lyra2z(waki)", &lyra2z(waki), "576aa33e47af09af117373008cfd98b452d605e1eab6f6fe173235a3b454e059")?;
    ck("lyra2z(emo)", &lyra2z(emo), "a226bea4d989b5eaf482c493921aff2608729d4cd9a1d6dda668b45b2fe02c8e")?;
    Ok(n)
}
