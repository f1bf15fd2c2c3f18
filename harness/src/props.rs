//! What the harnesses share.
use crate::peer::{self, Spec};
use crate::sx;
use pkstl::*;
use std::io::BufWriter;

// ------------------------------------------------------------------ helpers
pub fn cfg() -> SecureLayerConfig {
    SecureLayerConfig { compression: flate2_none(), compression_min_size: 8192, ..SecureLayerConfig::default() }
}
fn flate2_none() -> flate2::Compression {
    flate2::Compression::none()
}
pub fn layer(seed: u8, expected: Option<Vec<u8>>) -> SecureLayer {
    SecureLayer::create(cfg(), Some(Seed32::new([seed; 32])), expected).ok().unwrap()
}
pub fn minimal(expected: Option<Vec<u8>>) -> MinimalSecureLayer {
    MinimalSecureLayer::create(cfg(), expected).ok().unwrap()
}
pub fn emit<F: FnOnce(&mut BufWriter<Vec<u8>>) -> Result<()>>(f: F) -> Result<Vec<u8>> {
    let mut w = BufWriter::new(Vec::new());
    f(&mut w)?;
    Ok(w.into_inner().ok().unwrap())
}
pub fn epk_of(connect: &[u8]) -> Vec<u8> {
    connect[18..50].to_vec()
}
/// the ephemeral key of a layer that has not told anybody yet, if it already has one
#[cfg(any(feature = "sym", feature = "ideal"))]
pub fn epk_inside(_: &MinimalSecureLayer) -> Option<Vec<u8>> {
    ring::agreement::last_public().map(|k| k.to_vec())
}
#[cfg(not(any(feature = "sym", feature = "ideal")))]
pub fn epk_inside(a: &MinimalSecureLayer) -> Option<Vec<u8>> {
    let s = format!("{:?}", a);
    let s = s.as_bytes();
    let tag: &[u8] = b"bytes: \"";
    let mut found = None;
    let mut i = 0;
    while i + tag.len() + 65 <= s.len() {
        if &s[i..i + tag.len()] == tag {
            let h = &s[i + tag.len()..i + tag.len() + 65];
            let x = |c: u8| match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), _ => None };
            let mut v = vec![];
            for k in 0..32 { if let (Some(a), Some(b)) = (x(h[2 * k]), x(h[2 * k + 1])) { v.push(a << 4 | b); } }
            if v.len() == 32 && h[64] == b'"' {
                match found { None => found = Some(v), Some(ref w) if *w == v => {}, _ => return None }
            }
        }
        i += 1;
    }
    found
}
/// a minimal layer brought to `state` against a README peer
///  0 created  1 CONNECT written  2 CONNECT received too  3 ACK written too (ACK not received)
///  4 negotiated  5 ACK received, own ACK not written  6 failed  7 CONNECT received, none written
///  8 early ACK stored
pub fn minimal_in(state: u64, expected: bool) -> (MinimalSecureLayer, Spec) {
    let mut p = Spec::new(9);
    let mut a = minimal(if expected { Some(p.pk()) } else { None });
    let kp = peer::keypair(7);
    let mut epk = vec![];
    if state != 0 && state != 7 && state != 6 {
        let c = a.create_connect_message(&peer::pk(&kp), None).ok().unwrap();
        epk = epk_of(&c);
        p.agree(&epk);
    }
    if state == 8 {
        let r = a.read(&p.ack(&epk, b""));
        sx::check(match r { Ok(None) => !expected, _ => expected }, "setup: early ACK is kept");
    }
    if state == 7 || state >= 2 && state <= 5 {
        let r = a.read(&p.connect(b""));
        sx::check(r.is_ok(), "setup: valid CONNECT accepted");
    }
    if state == 3 || state == 4 {
        let r = a.create_ack_message(None);
        sx::check(r.is_ok(), "setup: ACK can be written");
    }
    if state == 4 || state == 5 {
        let r = a.read(&p.ack(&epk, b""));
        sx::check(r.is_ok(), "setup: valid ACK accepted");
    }
    if state == 6 {
        let r = a.read(&[1, 2, 3, 4]);
        sx::check(r.is_err(), "setup: garbage refused");
    }
    (a, p)
}


/// what a read gave
#[derive(PartialEq, Clone)]
pub enum Out {
    Refused,
    /// accepted, nothing delivered yet
    Kept,
    Connect(Vec<u8>, Vec<u8>),
    Ack(Vec<u8>),
    User(Vec<u8>),
}
pub fn out_of(m: Message) -> Out {
    match m {
        Message::Connect { sig_pubkey, custom_data, .. } => Out::Connect(sig_pubkey, custom_data.unwrap_or_default()),
        Message::Ack { custom_data } => Out::Ack(custom_data.unwrap_or_default()),
        Message::Message { custom_data } => Out::User(custom_data.unwrap_or_default()),
    }
}
pub fn out(r: Result<Option<Message>>) -> Out {
    match r {
        Err(_) => Out::Refused,
        Ok(None) => Out::Kept,
        Ok(Some(m)) => out_of(m),
    }
}
impl Out {
    pub fn is_user(&self) -> bool {
        match self { Out::User(_) => true, _ => false }
    }
    pub fn is_ack(&self) -> bool {
        match self { Out::Ack(_) => true, _ => false }
    }
    pub fn is_connect(&self) -> bool {
        match self { Out::Connect(..) => true, _ => false }
    }
    pub fn refused(&self) -> bool {
        match self { Out::Refused => true, _ => false }
    }
    pub fn kept(&self) -> bool {
        match self { Out::Kept => true, _ => false }
    }
    pub fn data(&self) -> &[u8] {
        match self { Out::User(d) | Out::Ack(d) | Out::Connect(_, d) => d, _ => &[] }
    }
}
/// write a user message; what reached the writer
pub fn user_of(a: &mut MinimalSecureLayer, data: &[u8]) -> Result<Vec<u8>> {
    emit(|w| a.write_message(data, w))
}
/// a layer and the README peer, negotiated
pub fn negotiated() -> (MinimalSecureLayer, Spec) {
    minimal_in(4, false)
}
/// the observable outcome of a failed read
pub fn failed_for_good(r: &Result<Option<Message>>) -> bool {
    match r { Err(Error::ConnectionHadFail) => true, _ => false }
}

/// one stored DEFLATE block, as any DEFLATE encoder may produce
pub fn stored(d: &[u8]) -> Vec<u8> {
    let n = d.len() as u16;
    let mut v = vec![1];
    v.extend_from_slice(&n.to_le_bytes());
    v.extend_from_slice(&(!n).to_le_bytes());
    v.extend_from_slice(d);
    v
}
/// complete layer against the README peer: 1 CONNECT written, 2 CONNECT received,
/// 3 ACK written, 4 negotiated; also gives the layer's ephemeral key
pub fn complete_at(state: u64) -> (SecureLayer, Spec, Vec<u8>) {
    complete_with(state, cfg())
}
pub fn complete_with(state: u64, cfg: SecureLayerConfig) -> (SecureLayer, Spec, Vec<u8>) {
    let mut p = Spec::new(9);
    let mut a = SecureLayer::create(cfg, Some(Seed32::new([7; 32])), None).ok().unwrap();
    let c = emit(|w| a.write_connect_msg_bin(None, w)).ok().unwrap();
    let epk = epk_of(&c);
    p.agree(&epk);
    if state >= 2 {
        sx::check(a.read_bin(&p.connect(b"")).is_ok(), "setup: valid CONNECT accepted");
    }
    if state >= 3 {
        sx::check(emit(|w| a.write_ack_msg_bin(None, w)).is_ok(), "setup: ACK can be written");
    }
    if state >= 4 {
        sx::check(a.read_bin(&p.ack(&epk, b"")).is_ok(), "setup: valid ACK accepted");
    }
    (a, p, epk)
}
