//! The engine's ideal cryptography, concretely: the same functions of their inputs,
//! with the values a counterexample gives them.  Only for counterexamples that
//! depend on such values (a hash that begins with a given byte, a key that is
//! larger than another one...), which the real functions take too, elsewhere.
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};

thread_local! {
    pub static UF: RefCell<HashMap<(u32, Vec<u8>), Vec<u8>>> = RefCell::new(HashMap::new());
    static LEDGER: RefCell<HashSet<(u32, Vec<u8>)>> = RefCell::new(HashSet::new());
    static FRESH: RefCell<HashMap<u32, u32>> = RefCell::new(HashMap::new());
    pub static MODE: Cell<u32> = Cell::new(1);
    pub static HUSH: Cell<i32> = Cell::new(0);
}

const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
fn sha256(p: &[u8]) -> [u8; 32] {
    let mut h = [0x6a09e667u32, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
    let mut m = p.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0)
    }
    m.extend_from_slice(&(p.len() as u64 * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..64 {
            let (a, b) = (w[i - 15], w[i - 2]);
            w[i] = w[i - 16]
                .wrapping_add(a.rotate_right(7) ^ a.rotate_right(18) ^ a >> 3)
                .wrapping_add(w[i - 7])
                .wrapping_add(b.rotate_right(17) ^ b.rotate_right(19) ^ b >> 10);
        }
        let mut v = h;
        for i in 0..64 {
            let t1 = v[7]
                .wrapping_add(v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25))
                .wrapping_add((v[4] & v[5]) ^ (!v[4] & v[6]))
                .wrapping_add(K[i])
                .wrapping_add(w[i]);
            let t2 = (v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22)).wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
fn prf(tag: u32, input: &[u8], out: &mut [u8]) {
    if tag == 2 && out.len() == 32 {
        out.copy_from_slice(&sha256(input));
        return;
    }
    let n = out.len() as u32;
    for (c, o) in out.chunks_mut(32).enumerate() {
        let mut s = b"prf".to_vec();
        s.extend_from_slice(&tag.to_le_bytes());
        s.extend_from_slice(&n.to_le_bytes());
        s.extend_from_slice(&(c as u32).to_le_bytes());
        s.extend_from_slice(input);
        o.copy_from_slice(&sha256(&s)[..o.len()]);
    }
}
fn uf(tag: u32, input: Vec<u8>, out: &mut [u8]) {
    let v = UF.with(|u| u.borrow().get(&(tag, input.clone())).cloned());
    match v {
        Some(ref v) if v.len() == out.len() => out.copy_from_slice(v),
        _ => prf(tag, &input, out),
    }
}
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) }
}
#[no_mangle]
pub unsafe extern "C" fn sx_uf(tag: u32, i: *const u8, n: usize, o: *mut u8, m: usize) {
    uf(tag, sl(i, n).to_vec(), std::slice::from_raw_parts_mut(o, m))
}
#[no_mangle]
pub unsafe extern "C" fn sx_memeq(a: *const u8, b: *const u8, n: usize) -> u8 {
    (sl(a, n) == sl(b, n)) as u8
}
#[no_mangle]
pub extern "C" fn sx_mode() -> u32 {
    MODE.with(|m| m.get())
}
#[no_mangle]
pub unsafe extern "C" fn sx_sym_fresh(o: *mut u8, n: usize, tag: u32) {
    let k = FRESH.with(|f| { let mut f = f.borrow_mut(); let e = f.entry(tag).or_insert(0); *e += 1; *e - 1 });
    uf(tag + 1000, k.to_le_bytes().to_vec(), std::slice::from_raw_parts_mut(o, n))
}
#[no_mangle]
pub unsafe extern "C" fn sx_ledger_add(l: u32, p: *const u8, n: usize) {
    LEDGER.with(|x| x.borrow_mut().insert((l, sl(p, n).to_vec())));
}
#[no_mangle]
pub unsafe extern "C" fn sx_ledger_has(l: u32, p: *const u8, n: usize) -> u8 {
    LEDGER.with(|x| x.borrow().contains(&(l, sl(p, n).to_vec()))) as u8
}
#[no_mangle]
pub unsafe extern "C" fn sx_memxor(d: *mut u8, a: *const u8, b: *const u8, n: usize) {
    for i in 0..n {
        *d.add(i) = *a.add(i) ^ *b.add(i)
    }
}
#[no_mangle]
pub extern "C" fn sx_keystream_hook(_: *const u8, _: usize) {}
#[no_mangle]
pub extern "C" fn sx_hush(n: i32) {
    HUSH.with(|h| h.set(h.get() + n))
}
