//! An independent peer written from the README's wire specification.  It can
//! also lie: every field can be chosen, while hashes, signatures and
//! encryption stay those a real malicious peer could compute.
use ring::agreement::{agree_ephemeral, EphemeralPrivateKey, UnparsedPublicKey, X25519};
use ring::signature::{Ed25519KeyPair, KeyPair};
use std::num::NonZeroU32;

pub const MAGIC: [u8; 4] = [0xE2, 0xC2, 0xE2, 0xD2];
pub const VERSION: [u8; 4] = [0, 0, 0, 1];
pub const T_USER: u16 = 0;
pub const T_CONNECT: u16 = 1;
pub const T_ACK: u16 = 2;

pub struct Spec {
    pub kp: Ed25519KeyPair,
    eph: Option<EphemeralPrivateKey>,
    pub epk: Vec<u8>,
    pub key: Option<Vec<u8>>,
    pub sent: u64,
}

pub fn sha256(b: &[u8]) -> Vec<u8> {
    ring::digest::digest(&ring::digest::SHA256, b).as_ref().to_vec()
}
pub fn keypair(seed: u8) -> Ed25519KeyPair {
    Ed25519KeyPair::from_seed_unchecked(&[seed; 32]).ok().unwrap()
}
/// an identity made from arbitrary bytes
pub fn any_keypair(name: &str) -> Ed25519KeyPair {
    Ed25519KeyPair::from_seed_unchecked(&crate::sx::bytes(32, name)).ok().unwrap()
}
pub fn pk(kp: &Ed25519KeyPair) -> Vec<u8> {
    kp.public_key().as_ref().to_vec()
}
/// MAGIC | VERSION | length | type | ...
pub fn header(len: u64, ty: u16) -> Vec<u8> {
    let mut v = MAGIC.to_vec();
    v.extend_from_slice(&VERSION);
    v.extend_from_slice(&len.to_be_bytes());
    v.extend_from_slice(&ty.to_be_bytes());
    v
}
pub fn connect_clear(epk: &[u8], algo: &[u8], sigpk: &[u8], custom: &[u8]) -> Vec<u8> {
    let mut v = header((2 + epk.len() + algo.len() + sigpk.len() + custom.len()) as u64, T_CONNECT);
    v.extend_from_slice(epk);
    v.extend_from_slice(algo);
    v.extend_from_slice(sigpk);
    v.extend_from_slice(custom);
    v
}
pub fn ack_clear(challenged_epk: &[u8], custom: &[u8]) -> Vec<u8> {
    let mut v = header((2 + 32 + custom.len()) as u64, T_ACK);
    v.extend_from_slice(&sha256(challenged_epk));
    v.extend_from_slice(custom);
    v
}
pub fn user_clear(nonce: u64, data: &[u8]) -> Vec<u8> {
    let mut v = header((2 + 8 + data.len()) as u64, T_USER);
    v.extend_from_slice(&nonce.to_be_bytes());
    v.extend_from_slice(data);
    v
}
pub fn signed(mut m: Vec<u8>, kp: &Ed25519KeyPair) -> Vec<u8> {
    let s = kp.sign(&m);
    m.extend_from_slice(s.as_ref());
    m
}
pub fn hashed(mut m: Vec<u8>) -> Vec<u8> {
    let h = sha256(&m);
    m.extend_from_slice(&h);
    m
}
pub fn seal(key: &[u8], m: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let t = chacha20_poly1305_aead::encrypt(&key[..32], &key[32..44], &key[44..48], m, &mut o).ok().unwrap();
    o.extend_from_slice(&t);
    o
}
pub fn open(key: &[u8], m: &[u8]) -> Option<Vec<u8>> {
    if m.len() < 16 {
        return None;
    }
    let n = m.len() - 16;
    let mut o = Vec::new();
    match chacha20_poly1305_aead::decrypt(&key[..32], &key[32..44], &key[44..48], &m[..n], &m[n..], &mut o) {
        Ok(()) => Some(o),
        Err(_) => None,
    }
}

impl Spec {
    pub fn new(seed: u8) -> Spec {
        let rng = ring::rand::SystemRandom::new();
        let eph = EphemeralPrivateKey::generate(&X25519, &rng).ok().unwrap();
        let epk = eph.compute_public_key().ok().unwrap().as_ref().to_vec();
        Spec { kp: keypair(seed), eph: Some(eph), epk, key: None, sent: 0 }
    }
    pub fn pk(&self) -> Vec<u8> {
        pk(&self.kp)
    }
    pub fn connect(&self, custom: &[u8]) -> Vec<u8> {
        signed(connect_clear(&self.epk, &[0; 4], &self.pk(), custom), &self.kp)
    }
    pub fn ack(&self, peer_epk: &[u8], custom: &[u8]) -> Vec<u8> {
        signed(ack_clear(peer_epk, custom), &self.kp)
    }
    /// README: seed = PBKDF2-HMAC-SHA384(3 iterations, salt = larger EPK, X25519 secret)
    pub fn agree(&mut self, peer_epk: &[u8]) {
        let salt = if self.epk.as_slice() > peer_epk { self.epk.clone() } else { peer_epk.to_vec() };
        let r: Result<Vec<u8>, ()> = agree_ephemeral(self.eph.take().unwrap(), &UnparsedPublicKey::new(&X25519, peer_epk), (), |s| {
            let mut k = vec![0u8; 48];
            ring::pbkdf2::derive(ring::pbkdf2::PBKDF2_HMAC_SHA384, NonZeroU32::new(3).unwrap(), &salt, s, &mut k);
            Ok(k)
        });
        self.key = r.ok();
    }
    pub fn key(&self) -> &[u8] {
        self.key.as_ref().unwrap()
    }
    pub fn user_at(&self, nonce: u64, data: &[u8]) -> Vec<u8> {
        seal(self.key(), &hashed(user_clear(nonce, data)))
    }
    pub fn user(&mut self, data: &[u8]) -> Vec<u8> {
        let m = self.user_at(self.sent, data);
        self.sent += 1;
        m
    }
    /// bytes that are no PKSTL message
    pub fn user_junk(&self) -> Vec<u8> {
        vec![0x11; 64]
    }
}

/// an arbitrary Ed25519 public key, except the encodings of the eight points of small order: for
/// those, anybody can make "signatures" (they verify for one message in 1 to 8), by the definition of Ed25519
pub fn any_identity(name: &str) -> Vec<u8> {
    let k = crate::sx::bytes(32, name);
    let y0 = |first: u8, mid: u8, last: u8| { let mut v = [mid; 32]; v[0] = first; v[31] = last; v };
    let small: [[u8; 32]; 7] = [
        y0(0, 0, 0), y0(1, 0, 0), y0(0xec, 0xff, 0x7f), y0(0xed, 0xff, 0x7f), y0(0xee, 0xff, 0x7f),
        [0x26, 0xe8, 0x95, 0x8f, 0xc2, 0xb2, 0x27, 0xb0, 0x45, 0xc3, 0xf4, 0x89, 0xf2, 0xef, 0x98, 0xf0, 0xd5, 0xdf, 0xac, 0x05, 0xd3, 0xc6, 0x33, 0x39, 0xb1, 0x38, 0x02, 0x88, 0x6d, 0x53, 0xfc, 0x05],
        [0xc7, 0x17, 0x6a, 0x70, 0x3d, 0x4d, 0xd8, 0x4f, 0xba, 0x3c, 0x0b, 0x76, 0x0d, 0x10, 0x67, 0x0f, 0x2a, 0x20, 0x53, 0xfa, 0x2c, 0x39, 0xcc, 0xc6, 0x4e, 0xc7, 0xfd, 0x77, 0x92, 0xac, 0x03, 0x7a],
    ];
    for s in small.iter() {
        for sign in 0..2u8 {
            let mut t = *s;
            t[31] |= sign << 7;
            crate::sx::assume(k != t);
        }
    }
    k
}
