#![allow(dead_code)]
//! A conforming (or lying) peer, written from the README, for the demonstrations.
use pkstl::*;
pub use ring::agreement::{agree_ephemeral, EphemeralPrivateKey, UnparsedPublicKey, X25519};
pub use ring::signature::{Ed25519KeyPair, KeyPair};
use std::io::{BufWriter, Write};
use std::num::NonZeroU32;

pub fn must(ok: bool, what: &str) {
    if !ok {
        eprintln!("BROKEN: {}", what);
        std::process::exit(1);
    }
}
pub struct Peer {
    pub kp: Ed25519KeyPair,
    eph: Option<EphemeralPrivateKey>,
    pub epk: Vec<u8>,
    pub key: Vec<u8>,
    pub sent: u64,
}
pub fn sha256(b: &[u8]) -> Vec<u8> {
    ring::digest::digest(&ring::digest::SHA256, b).as_ref().to_vec()
}
pub fn keypair(seed: &[u8; 32]) -> Ed25519KeyPair {
    Ed25519KeyPair::from_seed_unchecked(seed).unwrap()
}
pub fn header(len: u64, ty: u16) -> Vec<u8> {
    let mut v = vec![0xE2, 0xC2, 0xE2, 0xD2, 0, 0, 0, 1];
    v.extend_from_slice(&len.to_be_bytes());
    v.extend_from_slice(&ty.to_be_bytes());
    v
}
pub fn connect_clear(epk: &[u8], sigpk: &[u8], custom: &[u8]) -> Vec<u8> {
    let mut v = header((2 + 32 + 4 + 32 + custom.len()) as u64, 1);
    v.extend_from_slice(epk);
    v.extend_from_slice(&[0; 4]);
    v.extend_from_slice(sigpk);
    v.extend_from_slice(custom);
    v
}
pub fn ack_clear(epk: &[u8], custom: &[u8]) -> Vec<u8> {
    let mut v = header((2 + 32 + custom.len()) as u64, 2);
    v.extend_from_slice(&sha256(epk));
    v.extend_from_slice(custom);
    v
}
pub fn user_clear(nonce: u64, data: &[u8]) -> Vec<u8> {
    let mut v = header((2 + 8 + data.len()) as u64, 0);
    v.extend_from_slice(&nonce.to_be_bytes());
    v.extend_from_slice(data);
    v
}
pub fn signed(mut m: Vec<u8>, kp: &Ed25519KeyPair) -> Vec<u8> {
    let s = kp.sign(&m);
    m.extend_from_slice(s.as_ref());
    m
}
pub fn hashed(mut m: Vec<u8>) -> Vec<u8> {
    let h = sha256(&m);
    m.extend_from_slice(&h);
    m
}
pub fn seal(key: &[u8], m: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let t = chacha20_poly1305_aead::encrypt(&key[..32], &key[32..44], &key[44..48], m, &mut o).unwrap();
    o.extend_from_slice(&t);
    o
}
pub fn open(key: &[u8], m: &[u8]) -> Option<Vec<u8>> {
    if m.len() < 16 {
        return None;
    }
    let n = m.len() - 16;
    let mut o = Vec::new();
    chacha20_poly1305_aead::decrypt(&key[..32], &key[32..44], &key[44..48], &m[..n], &m[n..], &mut o).ok().map(|_| o)
}
impl Peer {
    pub fn new() -> Peer {
        let rng = ring::rand::SystemRandom::new();
        let eph = EphemeralPrivateKey::generate(&X25519, &rng).unwrap();
        let epk = eph.compute_public_key().unwrap().as_ref().to_vec();
        let mut seed = [0u8; 32];
        seed.copy_from_slice(&epk);
        Peer { kp: keypair(&seed), eph: Some(eph), epk, key: vec![], sent: 0 }
    }
    pub fn pk(&self) -> Vec<u8> {
        self.kp.public_key().as_ref().to_vec()
    }
    pub fn connect(&self, custom: &[u8]) -> Vec<u8> {
        signed(connect_clear(&self.epk, &self.pk(), custom), &self.kp)
    }
    pub fn ack(&self, epk: &[u8], custom: &[u8]) -> Vec<u8> {
        signed(ack_clear(epk, custom), &self.kp)
    }
    pub fn agree(&mut self, peer_epk: &[u8]) {
        let salt = if &self.epk[..] > peer_epk { self.epk.clone() } else { peer_epk.to_vec() };
        self.key = agree_ephemeral(self.eph.take().unwrap(), &UnparsedPublicKey::new(&X25519, peer_epk), (), |s| {
            let mut k = vec![0u8; 48];
            ring::pbkdf2::derive(ring::pbkdf2::PBKDF2_HMAC_SHA384, NonZeroU32::new(3).unwrap(), &salt, s, &mut k);
            Ok(k)
        })
        .unwrap();
    }
    pub fn user_at(&self, nonce: u64, data: &[u8]) -> Vec<u8> {
        seal(&self.key, &hashed(user_clear(nonce, data)))
    }
    pub fn user(&mut self, data: &[u8]) -> Vec<u8> {
        let m = self.user_at(self.sent, data);
        self.sent += 1;
        m
    }
}
pub fn minimal() -> MinimalSecureLayer {
    MinimalSecureLayer::create(SecureLayerConfig::default(), None).unwrap()
}
pub const MY_SEED: [u8; 32] = [7; 32];
/// CONNECT of `l`, signed by MY_SEED; returns the message and the layer's ephemeral public key
pub fn connect_of(l: &mut MinimalSecureLayer, custom: Option<&[u8]>) -> (Vec<u8>, Vec<u8>) {
    let kp = keypair(&MY_SEED);
    let m = l.create_connect_message(kp.public_key().as_ref(), custom).unwrap();
    let epk = m[18..50].to_vec();
    (signed(m, &kp), epk)
}
/// a minimal layer with its negotiation done, and its peer
pub fn joined() -> (MinimalSecureLayer, Peer) {
    let mut l = minimal();
    let mut p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap().unwrap();
    l.create_ack_message(None).unwrap();
    p.agree(&epk);
    l.read(&p.ack(&epk, &[])).unwrap().unwrap();
    (l, p)
}
pub fn data(r: &Result<Option<Message>>) -> Option<Vec<u8>> {
    match r {
        Ok(Some(Message::Message { custom_data })) => Some(custom_data.clone().unwrap_or_default()),
        _ => None,
    }
}
pub fn bytes<F: FnOnce(&mut BufWriter<Vec<u8>>) -> Result<()>>(f: F) -> Result<Vec<u8>> {
    let mut w = BufWriter::new(Vec::new());
    f(&mut w)?;
    w.flush().unwrap();
    Ok(w.into_inner().unwrap())
}
pub fn complete(config: SecureLayerConfig) -> SecureLayer {
    SecureLayer::create(config, None, None).unwrap()
}
/// two complete layers with their negotiation done
pub fn pair(ca: SecureLayerConfig, cb: SecureLayerConfig) -> (SecureLayer, SecureLayer) {
    let (mut a, mut b) = (complete(ca), complete(cb));
    let m = bytes(|w| a.write_connect_msg_bin(None, w)).unwrap();
    b.read_bin(&m).unwrap();
    let m = bytes(|w| b.write_connect_msg_bin(None, w)).unwrap();
    a.read_bin(&m).unwrap();
    let m = bytes(|w| a.write_ack_msg_bin(None, w)).unwrap();
    b.read_bin(&m).unwrap();
    let m = bytes(|w| b.write_ack_msg_bin(None, w)).unwrap();
    a.read_bin(&m).unwrap();
    (a, b)
}
/// a complete layer with its negotiation done, and its peer
pub fn joined_complete(config: SecureLayerConfig) -> (SecureLayer, Peer) {
    let mut l = complete(config);
    let mut p = Peer::new();
    let m = bytes(|w| l.write_connect_msg_bin(None, w)).unwrap();
    let epk = m[18..50].to_vec();
    l.read_bin(&p.connect(&[])).unwrap();
    bytes(|w| l.write_ack_msg_bin(None, w)).unwrap();
    p.agree(&epk);
    l.read_bin(&p.ack(&epk, &[])).unwrap();
    (l, p)
}
