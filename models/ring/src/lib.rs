//! Ideal-functionality model of ring 0.16.9 for the symbolic build.
//!
//! Everything cryptographic is an *injective uninterpreted function* (`sx_uf`,
//! decided by the engine) plus a ledger of what was really signed / generated:
//!  - digest/HMAC/PBKDF2: collision-free functions of all their inputs;
//!  - Ed25519: `verify` accepts exactly the (key, message, signature) triples
//!    that `sign` produced (strong unforgeability);
//!  - X25519: agree(a, B) = agree(b, A); an all-zero public key is refused
//!    (low-order point); a 32-byte string nobody generated gives some secret;
//!  - SystemRandom: fresh unconstrained bytes, pairwise distinct.

#![allow(clippy::all)]

mod sx {
    extern "C" {
        pub fn sx_uf(tag: u32, inp: *const u8, inlen: usize, out: *mut u8, outlen: usize);
        pub fn sx_memeq(a: *const u8, b: *const u8, len: usize) -> u8;
        /// 0: fresh values are symbolic; 1: fresh values are concrete
        pub fn sx_mode() -> u32;
        pub fn sx_sym_fresh(out: *mut u8, len: usize, tag: u32);
        pub fn sx_ledger_add(ledger: u32, rec: *const u8, len: usize);
        /// is this record in the ledger? (one boolean term, no forking)
        pub fn sx_ledger_has(ledger: u32, rec: *const u8, len: usize) -> u8;
    }
    pub fn uf(tag: u32, inp: &[u8], out: &mut [u8]) {
        unsafe { sx_uf(tag, inp.as_ptr(), inp.len(), out.as_mut_ptr(), out.len()) }
    }
    pub fn memeq(a: &[u8], b: &[u8]) -> u8 {
        if a.len() != b.len() {
            return 0;
        }
        unsafe { sx_memeq(a.as_ptr(), b.as_ptr(), a.len()) }
    }
    static mut COUNTER: u64 = 0;
    /// fresh value, never equal to another fresh value of the same tag
    pub fn fresh(tag: u32, out: &mut [u8]) {
        unsafe {
            COUNTER += 1;
            if sx_mode() == 1 {
                let c = COUNTER.to_be_bytes();
                uf(tag, &c, out)
            } else {
                sx_sym_fresh(out.as_mut_ptr(), out.len(), tag)
            }
        }
    }
}

pub mod error {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Unspecified;
    impl core::fmt::Display for Unspecified {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.write_str("ring::error::Unspecified")
        }
    }
    impl std::error::Error for Unspecified {}
    #[derive(Copy, Clone, Debug)]
    pub struct KeyRejected(pub(crate) &'static str);
    impl KeyRejected {
        pub fn description_(&self) -> &'static str {
            self.0
        }
    }
    impl core::fmt::Display for KeyRejected {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.write_str(self.0)
        }
    }
    impl std::error::Error for KeyRejected {}
    impl From<KeyRejected> for Unspecified {
        fn from(_: KeyRejected) -> Self {
            Unspecified
        }
    }
}

pub mod constant_time {
    use crate::error;
    pub fn verify_slices_are_equal(a: &[u8], b: &[u8]) -> Result<(), error::Unspecified> {
        if crate::sx::memeq(a, b) != 0 {
            Ok(())
        } else {
            Err(error::Unspecified)
        }
    }
}

pub mod digest {
    use crate::sx;

    #[derive(Debug, PartialEq, Eq)]
    pub struct Algorithm {
        pub output_len: usize,
        pub block_len: usize,
        pub chaining_len: usize,
        pub(crate) tag: u32,
    }
    pub const MAX_OUTPUT_LEN: usize = 64;
    pub const SHA1_OUTPUT_LEN: usize = 20;
    pub const SHA256_OUTPUT_LEN: usize = 32;
    pub const SHA384_OUTPUT_LEN: usize = 48;
    pub const SHA512_OUTPUT_LEN: usize = 64;
    pub static SHA1_FOR_LEGACY_USE_ONLY: Algorithm = Algorithm { output_len: 20, block_len: 64, chaining_len: 20, tag: 1 };
    pub static SHA256: Algorithm = Algorithm { output_len: 32, block_len: 64, chaining_len: 32, tag: 2 };
    pub static SHA384: Algorithm = Algorithm { output_len: 48, block_len: 128, chaining_len: 64, tag: 3 };
    pub static SHA512: Algorithm = Algorithm { output_len: 64, block_len: 128, chaining_len: 64, tag: 4 };
    pub static SHA512_256: Algorithm = Algorithm { output_len: 32, block_len: 128, chaining_len: 64, tag: 5 };

    #[derive(Clone, Copy)]
    pub struct Digest {
        value: [u8; 64],
        algorithm: &'static Algorithm,
    }
    impl Digest {
        pub fn algorithm(&self) -> &'static Algorithm {
            self.algorithm
        }
    }
    impl AsRef<[u8]> for Digest {
        fn as_ref(&self) -> &[u8] {
            &self.value[..self.algorithm.output_len]
        }
    }
    impl core::fmt::Debug for Digest {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.write_str("Digest")
        }
    }
    pub fn digest(algorithm: &'static Algorithm, data: &[u8]) -> Digest {
        let mut value = [0u8; 64];
        sx::uf(algorithm.tag, data, &mut value[..algorithm.output_len]);
        Digest { value, algorithm }
    }
    #[derive(Clone)]
    pub struct Context {
        buf: Vec<u8>,
        algorithm: &'static Algorithm,
    }
    impl Context {
        pub fn new(algorithm: &'static Algorithm) -> Self {
            Context { buf: Vec::new(), algorithm }
        }
        pub fn update(&mut self, data: &[u8]) {
            self.buf.extend_from_slice(data)
        }
        pub fn finish(self) -> Digest {
            digest(self.algorithm, &self.buf)
        }
        pub fn algorithm(&self) -> &'static Algorithm {
            self.algorithm
        }
    }
}

pub mod hmac {
    use crate::digest;
    use crate::sx;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Algorithm(pub(crate) u32, pub(crate) usize);
    pub static HMAC_SHA256: Algorithm = Algorithm(2, 32);
    pub static HMAC_SHA384: Algorithm = Algorithm(3, 48);
    pub static HMAC_SHA512: Algorithm = Algorithm(4, 64);
    #[derive(Clone)]
    pub struct Key(Algorithm, Vec<u8>);
    impl Key {
        pub fn new(algorithm: Algorithm, key_value: &[u8]) -> Self {
            Key(algorithm, key_value.to_vec())
        }
    }
    #[derive(Clone, Copy)]
    pub struct Tag([u8; 64], usize);
    impl AsRef<[u8]> for Tag {
        fn as_ref(&self) -> &[u8] {
            &self.0[..self.1]
        }
    }
    pub fn sign(key: &Key, data: &[u8]) -> Tag {
        let mut i = (key.1.len() as u64).to_be_bytes().to_vec();
        i.extend_from_slice(&key.1);
        i.extend_from_slice(data);
        let mut out = [0u8; 64];
        let n = (key.0).1;
        sx::uf(20 + (key.0).0, &i, &mut out[..n]);
        Tag(out, n)
    }
    pub fn verify(key: &Key, data: &[u8], tag: &[u8]) -> Result<(), crate::error::Unspecified> {
        crate::constant_time::verify_slices_are_equal(sign(key, data).as_ref(), tag)
    }
    #[allow(dead_code)]
    fn _u(_: &digest::Algorithm) {}
}

pub mod pbkdf2 {
    use crate::sx;
    use core::num::NonZeroU32;
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct Algorithm(u32, usize);
    pub static PBKDF2_HMAC_SHA1: Algorithm = Algorithm(31, 20);
    pub static PBKDF2_HMAC_SHA256: Algorithm = Algorithm(32, 32);
    pub static PBKDF2_HMAC_SHA384: Algorithm = Algorithm(33, 48);
    pub static PBKDF2_HMAC_SHA512: Algorithm = Algorithm(34, 64);
    pub fn derive(algorithm: Algorithm, iterations: NonZeroU32, salt: &[u8], secret: &[u8], out: &mut [u8]) {
        let mut idx = 0u32;
        for chunk in out.chunks_mut(algorithm.1) {
            idx += 1;
            let mut i = Vec::with_capacity(16 + salt.len() + secret.len());
            i.extend_from_slice(&iterations.get().to_be_bytes());
            i.extend_from_slice(&idx.to_be_bytes());
            i.extend_from_slice(&(salt.len() as u64).to_be_bytes());
            i.extend_from_slice(salt);
            i.extend_from_slice(secret);
            let mut full = [0u8; 64];
            sx::uf(algorithm.0, &i, &mut full[..algorithm.1]);
            chunk.copy_from_slice(&full[..chunk.len()]);
        }
    }
}

pub mod rand {
    use crate::error;
    use crate::sx;
    mod sealed {
        pub trait S {}
    }
    #[derive(Clone, Debug)]
    pub struct SystemRandom(());
    impl SystemRandom {
        pub fn new() -> Self {
            SystemRandom(())
        }
    }
    impl sealed::S for SystemRandom {}
    pub trait SecureRandom: sealed::S {
        fn fill(&self, dest: &mut [u8]) -> Result<(), error::Unspecified>;
    }
    /// how many more uses of the system's randomness succeed
    static mut LEFT: u64 = u64::MAX;
    /// For the harness: from now on only `n` uses succeed (`u64::MAX`: all)
    pub fn fail_after(n: u64) {
        unsafe { LEFT = n }
    }
    pub(crate) fn available() -> bool {
        unsafe {
            if LEFT == u64::MAX {
                return true;
            }
            if LEFT == 0 {
                return false;
            }
            LEFT -= 1;
            true
        }
    }
    impl SecureRandom for SystemRandom {
        fn fill(&self, dest: &mut [u8]) -> Result<(), error::Unspecified> {
            if !available() {
                return Err(error::Unspecified);
            }
            sx::fresh(40, dest);
            Ok(())
        }
    }
    pub trait RandomlyConstructable: Sized {
        fn zero() -> Self;
        fn as_mut_bytes(&mut self) -> &mut [u8];
    }
    macro_rules! rc { ($($n:expr),*) => { $(impl RandomlyConstructable for [u8; $n] {
        fn zero() -> Self { [0; $n] }
        fn as_mut_bytes(&mut self) -> &mut [u8] { &mut self[..] }
    })* } }
    rc!(4, 8, 12, 16, 24, 32, 48, 64, 128, 256);
    pub struct Random<T: RandomlyConstructable>(T);
    impl<T: RandomlyConstructable> Random<T> {
        pub fn expose(self) -> T {
            self.0
        }
    }
    pub fn generate<T: RandomlyConstructable>(rng: &dyn SecureRandom) -> Result<Random<T>, error::Unspecified> {
        let mut r = T::zero();
        rng.fill(r.as_mut_bytes())?;
        Ok(Random(r))
    }
}

pub mod agreement {
    use crate::{error, rand, sx};

    #[derive(Debug, PartialEq, Eq)]
    pub struct Algorithm {
        id: u32,
    }
    pub static X25519: Algorithm = Algorithm { id: 1 };

    static mut PUBS: Vec<(u64, [u8; 32])> = Vec::new();

    /// For the harness: the ephemeral key that was generated last
    pub fn last_public() -> Option<[u8; 32]> {
        unsafe { PUBS.last().map(|x| x.1) }
    }

    pub struct EphemeralPrivateKey {
        id: u64,
        algorithm: &'static Algorithm,
        public: [u8; 32],
    }
    impl core::fmt::Debug for EphemeralPrivateKey {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.write_str("EphemeralPrivateKey")
        }
    }
    impl EphemeralPrivateKey {
        pub fn generate(alg: &'static Algorithm, _rng: &dyn rand::SecureRandom) -> Result<Self, error::Unspecified> {
            if !rand::available() {
                return Err(error::Unspecified);
            }
            let mut public = [0u8; 32];
            sx::fresh(41, &mut public);
            unsafe {
                let id = PUBS.len() as u64 + 1;
                PUBS.push((id, public));
                Ok(EphemeralPrivateKey { id, algorithm: alg, public })
            }
        }
        pub fn compute_public_key(&self) -> Result<PublicKey, error::Unspecified> {
            Ok(PublicKey { algorithm: self.algorithm, bytes: self.public })
        }
        pub fn algorithm(&self) -> &'static Algorithm {
            self.algorithm
        }
    }
    #[derive(Clone)]
    pub struct PublicKey {
        algorithm: &'static Algorithm,
        bytes: [u8; 32],
    }
    impl AsRef<[u8]> for PublicKey {
        fn as_ref(&self) -> &[u8] {
            &self.bytes
        }
    }
    impl PublicKey {
        pub fn algorithm(&self) -> &'static Algorithm {
            self.algorithm
        }
    }
    impl core::fmt::Debug for PublicKey {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.write_str("PublicKey")
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct UnparsedPublicKey<B: AsRef<[u8]>> {
        algorithm: &'static Algorithm,
        bytes: B,
    }
    impl<B: AsRef<[u8]>> UnparsedPublicKey<B> {
        pub fn new(algorithm: &'static Algorithm, bytes: B) -> Self {
            UnparsedPublicKey { algorithm, bytes }
        }
        pub fn algorithm(&self) -> &'static Algorithm {
            self.algorithm
        }
        pub fn bytes(&self) -> &B {
            &self.bytes
        }
    }
    pub fn agree_ephemeral<B: AsRef<[u8]>, F, R, E>(
        my: EphemeralPrivateKey,
        peer: &UnparsedPublicKey<B>,
        error_value: E,
        kdf: F,
    ) -> Result<R, E>
    where
        F: FnOnce(&[u8]) -> Result<R, E>,
    {
        let b = peer.bytes.as_ref();
        if b.len() != 32 || my.algorithm.id != peer.algorithm.id {
            return Err(error_value);
        }
        let mut shared = [0u8; 32];
        let mut known = 0u64;
        unsafe {
            for (id, p) in PUBS.iter() {
                if sx::memeq(b, p) != 0 {
                    known = *id;
                    break;
                }
            }
        }
        if known == 0 && sx::memeq(b, &[0u8; 32]) != 0 {
            return Err(error_value);
        }
        if known != 0 {
            let (lo, hi) = if known < my.id { (known, my.id) } else { (my.id, known) };
            let mut i = [0u8; 16];
            i[..8].copy_from_slice(&lo.to_be_bytes());
            i[8..].copy_from_slice(&hi.to_be_bytes());
            sx::uf(42, &i, &mut shared);
        } else {
            let mut i = [0u8; 40];
            i[..8].copy_from_slice(&my.id.to_be_bytes());
            i[8..].copy_from_slice(b);
            sx::uf(42, &i, &mut shared);
        }
        kdf(&shared)
    }
}

pub mod signature {
    use crate::{error, sx};

    pub const ED25519_PUBLIC_KEY_LEN: usize = 32;

    #[derive(Clone, Copy)]
    pub struct Signature {
        value: [u8; 64],
    }
    impl AsRef<[u8]> for Signature {
        fn as_ref(&self) -> &[u8] {
            &self.value
        }
    }
    pub trait KeyPair: core::fmt::Debug + Send + Sized + Sync {
        type PublicKey: AsRef<[u8]> + core::fmt::Debug + Clone + Send + Sized + Sync;
        fn public_key(&self) -> &Self::PublicKey;
    }
    pub trait VerificationAlgorithm: core::fmt::Debug + Sync {
        fn do_verify(&self, public_key: &[u8], msg: &[u8], signature: &[u8]) -> Result<(), error::Unspecified>;
    }
    #[derive(Debug)]
    pub struct EdDSAParameters;
    pub static ED25519: EdDSAParameters = EdDSAParameters;

    fn record(pk: &[u8], msg: &[u8], sig: &[u8]) -> Vec<u8> {
        let mut r = Vec::with_capacity(96 + msg.len());
        r.extend_from_slice(pk);
        r.extend_from_slice(sig);
        r.extend_from_slice(msg);
        r
    }

    impl VerificationAlgorithm for EdDSAParameters {
        fn do_verify(&self, public_key: &[u8], msg: &[u8], signature: &[u8]) -> Result<(), error::Unspecified> {
            if public_key.len() != 32 || signature.len() != 64 {
                return Err(error::Unspecified);
            }
            let r = record(public_key, msg, signature);
            if unsafe { sx::sx_ledger_has(1, r.as_ptr(), r.len()) } != 0 {
                Ok(())
            } else {
                Err(error::Unspecified)
            }
        }
    }
    #[derive(Clone, Copy)]
    pub struct UnparsedPublicKey<B: AsRef<[u8]>> {
        algorithm: &'static dyn VerificationAlgorithm,
        bytes: B,
    }
    impl<B: AsRef<[u8]>> UnparsedPublicKey<B> {
        pub fn new(algorithm: &'static dyn VerificationAlgorithm, bytes: B) -> Self {
            UnparsedPublicKey { algorithm, bytes }
        }
        pub fn verify(&self, message: &[u8], signature: &[u8]) -> Result<(), error::Unspecified> {
            self.algorithm.do_verify(self.bytes.as_ref(), message, signature)
        }
    }
    #[derive(Clone, Copy)]
    pub struct PublicKey([u8; 32]);
    impl AsRef<[u8]> for PublicKey {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    impl core::fmt::Debug for PublicKey {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.write_str("PublicKey")
        }
    }
    pub struct Ed25519KeyPair {
        seed: [u8; 32],
        public_key: PublicKey,
    }
    impl core::fmt::Debug for Ed25519KeyPair {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.write_str("Ed25519KeyPair")
        }
    }
    impl Ed25519KeyPair {
        pub fn from_seed_unchecked(seed: &[u8]) -> Result<Self, error::KeyRejected> {
            if seed.len() != 32 {
                return Err(error::KeyRejected("InvalidEncoding"));
            }
            let mut s = [0u8; 32];
            s.copy_from_slice(seed);
            let mut pk = [0u8; 32];
            sx::uf(50, seed, &mut pk);
            Ok(Ed25519KeyPair { seed: s, public_key: PublicKey(pk) })
        }
        pub fn from_seed_and_public_key(seed: &[u8], public_key: &[u8]) -> Result<Self, error::KeyRejected> {
            let kp = Self::from_seed_unchecked(seed)?;
            if sx::memeq(kp.public_key.as_ref(), public_key) == 0 {
                return Err(error::KeyRejected("InconsistentComponents"));
            }
            Ok(kp)
        }
        pub fn sign(&self, msg: &[u8]) -> Signature {
            let mut i = Vec::with_capacity(32 + msg.len());
            i.extend_from_slice(&self.seed);
            i.extend_from_slice(msg);
            let mut value = [0u8; 64];
            sx::uf(51, &i, &mut value);
            let r = record(&self.public_key.0, msg, &value);
            unsafe { sx::sx_ledger_add(1, r.as_ptr(), r.len()) };
            Signature { value }
        }
    }
    impl KeyPair for Ed25519KeyPair {
        type PublicKey = PublicKey;
        fn public_key(&self) -> &PublicKey {
            &self.public_key
        }
    }
}
