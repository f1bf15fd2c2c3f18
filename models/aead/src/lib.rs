//! Ideal model of ChaCha20-Poly1305 with the API, I/O behaviour and error
//! cases of chacha20-poly1305-aead 0.1.2.
//!  - keystream block i = UF(key, nonce, i): the cipher is a real stream
//!    cipher (ct = pt ^ keystream), so keystream reuse is visible;
//!  - tag = UF(key, nonce, aad, ct); `decrypt` accepts exactly the
//!    (key, nonce, aad, ct, tag) tuples some `encrypt` produced.
#![allow(clippy::all)]
use std::error::Error;
use std::fmt::{self, Display, Formatter};
use std::io::{self, ErrorKind, Read, Write};

extern "C" {
    fn sx_uf(tag: u32, inp: *const u8, inlen: usize, out: *mut u8, outlen: usize);
    fn sx_ledger_add(ledger: u32, rec: *const u8, len: usize);
    fn sx_ledger_has(ledger: u32, rec: *const u8, len: usize) -> u8;
    fn sx_memxor(dst: *mut u8, a: *const u8, b: *const u8, len: usize);
    fn sx_keystream_hook(ks: *const u8, len: usize);
    fn sx_hush(n: i32);
}
/// the model's own buffers are not memory of the real cipher
struct Own(Vec<u8>);
impl Drop for Own {
    fn drop(&mut self) {
        unsafe { sx_hush(1) };
        self.0 = Vec::new();
        unsafe { sx_hush(-1) };
    }
}
fn uf(tag: u32, inp: &[u8], out: &mut [u8]) {
    unsafe { sx_uf(tag, inp.as_ptr(), inp.len(), out.as_mut_ptr(), out.len()) }
}

/// key ++ nonce ++ |aad| ++ aad ++ tag ++ ct (every length but ct's is fixed or written)
fn record(key: &[u8], nonce: &[u8], aad: &[u8], tag: &[u8], ct: &[u8]) -> Own {
    let mut r = Vec::with_capacity(96 + aad.len() + ct.len());
    r.push(key.len() as u8);
    r.push(nonce.len() as u8);
    r.extend_from_slice(key);
    r.extend_from_slice(nonce);
    r.extend_from_slice(&(aad.len() as u64).to_be_bytes());
    r.extend_from_slice(aad);
    r.extend_from_slice(tag);
    r.extend_from_slice(ct);
    Own(r)
}

fn keystream(key: &[u8], nonce: &[u8], block: u64) -> [u8; 64] {
    let mut i = Own(Vec::with_capacity(64));
    i.0.extend_from_slice(key);
    i.0.extend_from_slice(nonce);
    i.0.extend_from_slice(&block.to_be_bytes());
    let mut ks = [0u8; 64];
    uf(60, &i.0, &mut ks);
    if block == 1 {
        unsafe { sx_keystream_hook(ks.as_ptr(), 64) }
    }
    ks
}

fn check_params(key: &[u8], nonce: &[u8]) {
    assert!(key.len() == 32 || key.len() == 16);
    assert!(nonce.len() == 12 || nonce.len() == 8);
}

pub fn encrypt<W: Write>(key: &[u8], nonce: &[u8], aad: &[u8], mut input: &[u8], output: &mut W) -> io::Result<[u8; 16]> {
    encrypt_read(key, nonce, aad, &mut input, output)
}

pub fn encrypt_read<R: Read, W: Write>(
    key: &[u8],
    nonce: &[u8],
    aad: &[u8],
    input: &mut R,
    output: &mut W,
) -> io::Result<[u8; 16]> {
    check_params(key, nonce);
    let mut ct = Vec::new();
    let mut block = 0u64;
    let mut buf = [0u8; 64];
    loop {
        let read = read_all(input, &mut buf)?;
        if read == 0 {
            break;
        }
        block += 1;
        let ks = keystream(key, nonce, block);
        unsafe { sx_memxor(buf.as_mut_ptr(), buf.as_ptr(), ks.as_ptr(), read) };
        ct.extend_from_slice(&buf[..read]);
        output.write_all(&buf[..read])?;
    }
    let mut i = Own(Vec::with_capacity(64 + aad.len() + ct.len()));
    i.0.extend_from_slice(key);
    i.0.extend_from_slice(nonce);
    i.0.extend_from_slice(&(aad.len() as u64).to_be_bytes());
    i.0.extend_from_slice(aad);
    i.0.extend_from_slice(&ct);
    let mut tag = [0u8; 16];
    uf(61, &i.0, &mut tag);
    let r = record(key, nonce, aad, &tag, &ct);
    unsafe { sx_ledger_add(2, r.0.as_ptr(), r.0.len()) };
    Ok(tag)
}

pub fn decrypt<W: Write>(
    key: &[u8],
    nonce: &[u8],
    aad: &[u8],
    input: &[u8],
    tag: &[u8],
    output: &mut W,
) -> Result<(), DecryptError> {
    check_params(key, nonce);
    assert!(tag.len() == 16);
    let r = record(key, nonce, aad, tag, input);
    let ok = unsafe { sx_ledger_has(2, r.0.as_ptr(), r.0.len()) };
    if ok == 0 {
        return Err(DecryptError::TagMismatch);
    }
    let mut block = 0u64;
    for chunk in input.chunks(64) {
        block += 1;
        let ks = keystream(key, nonce, block);
        let mut buf = [0u8; 64];
        unsafe { sx_memxor(buf.as_mut_ptr(), chunk.as_ptr(), ks.as_ptr(), chunk.len()) };
        output.write_all(&buf[..chunk.len()])?;
    }
    Ok(())
}

fn read_all<R: Read>(reader: &mut R, mut buf: &mut [u8]) -> io::Result<usize> {
    let mut read = 0;
    while !buf.is_empty() {
        match reader.read(buf) {
            Ok(0) => break,
            Ok(n) => {
                read += n;
                let tmp = buf;
                buf = &mut tmp[n..];
            }
            Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
            Err(e) => return Err(e),
        }
    }
    Ok(read)
}

#[derive(Debug)]
pub enum DecryptError {
    TagMismatch,
    IoError(io::Error),
}
impl Display for DecryptError {
    fn fmt(&self, fmt: &mut Formatter) -> fmt::Result {
        match *self {
            DecryptError::TagMismatch => fmt.write_str("authentication tag mismatch"),
            DecryptError::IoError(ref e) => e.fmt(fmt),
        }
    }
}
impl Error for DecryptError {}
impl From<io::Error> for DecryptError {
    fn from(error: io::Error) -> Self {
        DecryptError::IoError(error)
    }
}
impl From<DecryptError> for io::Error {
    fn from(error: DecryptError) -> Self {
        match error {
            DecryptError::IoError(e) => e,
            DecryptError::TagMismatch => io::Error::new(ErrorKind::InvalidData, "authentication tag mismatch"),
        }
    }
}
