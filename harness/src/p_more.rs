//! P18 fresh keys, P19 refused messages and calls leave no trace.
use crate::p_wire::inflate;
use crate::peer::{self, Spec};
use crate::props::*;
use crate::sx;
use pkstl::*;

/// from now on, `n` more uses of the system's randomness succeed
#[cfg(any(feature = "sym", feature = "ideal"))]
fn randomness(n: u64) {
    ring::rand::fail_after(n)
}
#[cfg(not(any(feature = "sym", feature = "ideal")))]
fn randomness(_: u64) {
    // the real one cannot be made to fail
    sx::assume(false)
}

/// either layer, with one interface
enum L {
    M(MinimalSecureLayer, ring::signature::Ed25519KeyPair),
    C(SecureLayer),
}
impl L {
    fn connect(&mut self, d: Option<&[u8]>) -> Result<Vec<u8>> {
        match self {
            L::M(a, kp) => a.create_connect_message(&peer::pk(kp), d).map(|m| peer::signed(m, kp)),
            L::C(a) => silent(|w| a.write_connect_msg_bin(d, w)),
        }
    }
    fn ack(&mut self, d: Option<&[u8]>) -> Result<Vec<u8>> {
        match self {
            L::M(a, kp) => a.create_ack_message(d).map(|m| peer::signed(m, kp)),
            L::C(a) => silent(|w| a.write_ack_msg_bin(d, w)),
        }
    }
    fn user(&mut self, d: &[u8]) -> Result<Vec<u8>> {
        match self {
            L::M(a, _) => silent(|w| a.write_message(d, w)),
            L::C(a) => silent(|w| a.write_bin(d, w)),
        }
    }
    fn read(&mut self, m: &[u8]) -> Option<Vec<Out>> {
        match self {
            L::M(a, _) => {
                let mut v = match a.read(m) { Err(_) => return None, Ok(None) => vec![], Ok(Some(x)) => vec![out_of(x)] };
                let known = v.last().map_or(false, |x| x.is_connect());
                if known { if let Ok(Some(x)) = a.take_ack_msg_recv_too_early() { v.push(out_of(x)) } }
                let acked = v.last().map_or(false, |x| x.is_ack());
                if acked { if let Ok(x) = a.drain_tmp_stack_user_msgs() { for y in x { v.push(out_of(y)) } } }
                Some(v)
            }
            L::C(a) => match a.read_bin(m) {
                Err(_) => None,
                Ok(v) => Some(v.into_iter().map(|y| match y {
                    IncomingBinaryMessage::Connect { custom_data, peer_sig_public_key } => Out::Connect(peer_sig_public_key, custom_data.unwrap_or_default()),
                    IncomingBinaryMessage::Ack { custom_data } => Out::Ack(custom_data.unwrap_or_default()),
                    IncomingBinaryMessage::Message { data } => Out::User(data.unwrap_or_default()),
                }).collect()),
            },
        }
    }
    /// data as it travels
    fn packed(&self, d: &[u8]) -> Vec<u8> {
        match self { L::M(..) => d.to_vec(), L::C(_) => if d.is_empty() { vec![] } else { stored(d) } }
    }
    fn unpacked(&self, d: &[u8]) -> Option<Vec<u8>> {
        match self { L::M(..) => Some(d.to_vec()), L::C(_) => if d.is_empty() { Some(vec![]) } else { inflate(d) } }
    }
    fn clone_ok(&mut self) -> bool {
        match self { L::M(a, _) => a.try_clone().is_ok(), L::C(a) => a.try_clone().is_ok() }
    }
}
/// what a refused operation wrote counts
fn silent<F: FnOnce(&mut std::io::BufWriter<Vec<u8>>) -> Result<()>>(f: F) -> Result<Vec<u8>> {
    let mut w = std::io::BufWriter::new(Vec::new());
    let r = f(&mut w);
    let v = w.into_inner().ok().unwrap();
    match r {
        Ok(()) => Ok(v),
        Err(e) => { sx::check(v.is_empty(), "what is refused emits nothing"); Err(e) }
    }
}

/// arbitrary data; what goes through the compressor is fixed
fn data(fixed: bool, name: &str) -> Vec<u8> {
    if fixed { name.as_bytes().to_vec() } else { sx::bytes(2, name) }
}
struct Run { a: L, p: Spec, epk: Vec<u8>, wrote_connect: bool, got_connect: bool, wrote_ack: bool, got_ack: bool, early_ack: bool, read0: bool, cloned: bool, sent: u64, d: [Vec<u8>; 7] }
impl Run {
    fn new(complete: bool, e: Option<Vec<u8>>) -> Run {
        let a = if complete { L::C(layer(7, e)) } else { L::M(minimal(e), peer::keypair(7)) };
        Run { a, p: Spec::new(9), epk: vec![], wrote_connect: false, got_connect: false, wrote_ack: false, got_ack: false, early_ack: false, read0: false, cloned: false, sent: 0, d: [data(complete, "d0"), data(false, "d1"), data(complete, "d2"), data(false, "d3"), data(complete, "d4"), data(false, "d5"), data(false, "d6")] }
    }
    fn done(&self) -> bool { self.wrote_ack && self.got_ack }
    /// a step of the session: what it must do, whatever was refused before
    fn step(&mut self, k: u8) {
        match k {
            0 => {
                let m = self.a.connect(Some(&self.d[0][..])).unwrap_or_default();
                sx::check(m.len() >= 150, "CONNECT can be written");
                if m.len() < 150 { sx::assume(false); }
                self.epk = epk_of(&m);
                let body = m[86..m.len() - 64].to_vec();
                let kp = peer::keypair(7);
                let ok = sx::eq(&m, &peer::signed(peer::connect_clear(&self.epk, &[0; 4], &peer::pk(&kp), &body), &kp)) && self.a.unpacked(&body).map_or(false, |x| x == self.d[0]);
                sx::check(ok, "CONNECT is written as in an undisturbed session");
                let e = self.epk.clone();
                self.p.agree(&e);
                self.wrote_connect = true;
            }
            1 => {
                let m = self.p.connect(&self.a.packed(&self.d[1]));
                let mut want = vec![Out::Connect(self.p.pk(), self.d[1].clone())];
                if self.early_ack { want.push(Out::Ack(self.d[3].clone())); self.got_ack = true; }
                sx::check(self.a.read(&m) == Some(want), "CONNECT is read as in an undisturbed session");
                self.got_connect = true;
            }
            2 => {
                let m = self.a.ack(Some(&self.d[2][..])).unwrap_or_default();
                sx::check(m.len() >= 114, "ACK can be written");
                if m.len() < 114 { sx::assume(false); }
                let body = m[50..m.len() - 64].to_vec();
                let kp = peer::keypair(7);
                let ok = sx::eq(&m, &peer::signed(peer::ack_clear(&self.p.epk, &body), &kp)) && self.a.unpacked(&body).map_or(false, |x| x == self.d[2]);
                sx::check(ok, "ACK is written as in an undisturbed session");
                self.wrote_ack = true;
            }
            3 => {
                let m = self.p.ack(&self.epk, &self.a.packed(&self.d[3]));
                let r = self.a.read(&m);
                if self.got_connect {
                    let mut want = vec![Out::Ack(self.d[3].clone())];
                    if self.read0 { want.push(Out::User(self.d[6].clone())); }
                    sx::check(r == Some(want), "ACK is read as in an undisturbed session");
                    self.got_ack = true;
                } else {
                    sx::check(r == Some(vec![]), "ACK is kept as in an undisturbed session");
                    self.early_ack = true;
                }
            }
            4 => {
                let m = self.a.user(&self.d[4]).unwrap_or_default();
                let c = peer::open(self.p.key(), &m).unwrap_or_default();
                let body = if c.len() < 58 { vec![] } else { c[26..c.len() - 32].to_vec() };
                sx::check(sx::eq(&m, &self.p.user_at(self.sent, &body)) && self.a.unpacked(&body).map_or(false, |x| x == self.d[4]), "a user message is written as in an undisturbed session");
                self.sent += 1;
            }
            _ => {
                let d = self.d[k as usize % 2 + 5].clone();
                let m = self.p.user_at(k as u64 - 5, &self.a.packed(&d));
                let want = if self.done() { vec![Out::User(d.to_vec())] } else { vec![] };
                sx::check(self.a.read(&m) == Some(want), "a user message is read as in an undisturbed session");
                if k == 5 { self.read0 = true; }
            }
        }
    }
    /// something that is refused without ending the connection
    fn refused(&mut self, i: usize) {
        let names = ["x0", "x1", "x2", "x3"];
        let sigs = ["s0", "s1", "s2", "s3"];
        let e = peer::keypair(66);
        let m = match sx::choose(14) {
            0 => { sx::assume(self.wrote_connect); sx::check(self.a.connect(Some(b"no")).is_err(), "CONNECT is written once"); return }
            1 => { sx::assume(!self.got_connect || self.wrote_ack); sx::check(self.a.ack(Some(b"no")).is_err(), "ACK is written once, after the peer's CONNECT"); return }
            2 => { sx::assume(!self.done()); sx::check(!self.a.clone_ok(), "no clone before the negotiation succeeded"); return }
            3 => {
                sx::assume(self.done());
                self.cloned = true;
                let r = match &mut self.a {
                    L::M(a, _) => a.try_clone().map(|c| { drop(c); a.change_config(cfg()).is_err() }),
                    L::C(a) => a.try_clone().map(|c| { drop(c); a.change_config(cfg()).is_err() }),
                };
                sx::check(r.unwrap_or(false), "the configuration cannot change once a clone existed");
                return;
            }
            // typed data in a raw format
            4 => {
                let (wc, ga, done) = (self.wrote_connect, self.got_connect && !self.wrote_ack, self.done());
                match &mut self.a {
                    L::M(..) => sx::assume(false),
                    L::C(a) => {
                        let r = if !wc { silent(|w| a.write_connect_msg(Some(&1u8), w)) } else if ga { silent(|w| a.write_ack_msg(Some(&1u8), w)) } else { sx::assume(done); silent(|w| a.write(&1u8, w)) };
                        sx::check(r.is_err(), "typed data in a raw format is refused");
                    }
                }
                return;
            }
            // CONNECT messages: any identity and signature, the peer's name, somebody else's, cut, another algorithm
            5 => { let pk = peer::any_identity(names[i]); let mut m = peer::connect_clear(&[9; 32], &[0; 4], &pk, b""); m.extend_from_slice(&sx::bytes(64, sigs[i])); m }
            6 => { let d = sx::bytes(32, names[i]); sx::assume(d != self.p.epk); peer::signed(peer::connect_clear(&d, &[0; 4], &self.p.pk(), b""), &e) }
            7 => { sx::assume(self.got_connect); let d = sx::bytes(32, names[i]); peer::signed(peer::connect_clear(&d, &[0; 4], &peer::pk(&e), b""), &e) }
            8 => { let mut m = self.p.connect(&self.a.packed(&self.d[1])); let n = m.len(); m.truncate(n - 64); m }
            // ACK messages: another challenge, another signature, somebody else's
            9 => { let c = sx::bytes(32, names[i]); sx::assume(self.epk.is_empty() || c != peer::sha256(&self.epk)); let mut m = peer::header(34, peer::T_ACK); m.extend_from_slice(&c); sx::assume(!self.epk.is_empty()); peer::signed(m, &self.p.kp) }
            10 => { sx::assume(self.wrote_connect && self.got_connect); let mut m = peer::ack_clear(&self.epk, b""); m.extend_from_slice(&sx::bytes(64, sigs[i])); m }
            11 => { sx::assume(self.wrote_connect && self.got_connect); peer::signed(peer::ack_clear(&self.epk, b"no"), &e) }
            // user messages: repeated; with a wrong hash
            12 => { sx::assume(self.done() && self.read0); self.p.user_at(0, &self.a.packed(b"no")) }
            _ => {
                sx::assume(self.done());
                let c = peer::user_clear(sx::u64v(names[i]), &self.a.packed(b"no"));
                let mut c = c;
                let h = sx::bytes(32, sigs[i]);
                sx::assume(h != peer::sha256(&c));
                c.extend_from_slice(&h);
                peer::seal(self.p.key(), &c)
            }
        };
        sx::check(self.a.read(&m).is_none(), "forged, foreign, altered and repeated messages are refused");
        sx::reach("refused");
    }
}

entries! {
    /// P18: the ephemeral keys of layers differ, whatever they have in common, and are those that were generated
    fn p18_layers() {
        sx::symbolic_keys();
        let mut seen: Vec<Vec<u8>> = vec![];
        let n = if sx::thorough() { 5 } else { 4 };
        let mut keep = vec![];
        for _ in 0..n {
            let e = if sx::choose(2) == 0 { None } else { Some(peer::pk(&peer::keypair(9))) };
            let (m, epk);
            if sx::choose(2) == 0 {
                let mut a = SecureLayer::create(cfg(), Some(Seed32::new([7; 32])), e).ok().unwrap();
                epk = ring_last();
                m = emit(|w| a.write_connect_msg_bin(None, w)).unwrap_or_default();
                keep.push(L::C(a));
            } else {
                let mut a = minimal(e);
                epk = ring_last();
                m = a.create_connect_message(&[1; 32], None).unwrap_or_default();
                keep.push(L::M(a, peer::keypair(7)));
            }
            sx::check(m.len() >= 86, "CONNECT can be written");
            if m.len() < 86 { return }
            let k = epk_of(&m);
            if let Some(x) = epk { sx::check(sx::eq(&x, &k), "the announced key was generated with the layer"); }
            for s in &seen { sx::check(!sx::eq(s, &k), "no two layers have the same ephemeral key"); }
            seen.push(k);
        }
        sx::reach("done");
    }
    /// P18: one after the other, with the same peer: other keys each time, also after failures and refused attempts
    fn p18_again() {
        // two sessions with arbitrary keys, or more with given ones
        let any = sx::choose(2) == 0;
        if any { sx::symbolic_keys(); }
        let mut seen: Vec<Vec<u8>> = vec![];
        let n = if any { 2 } else if sx::thorough() { 5 } else { 4 };
        for _ in 0..n {
            let how = sx::choose(4);
            let mut p = Spec::new(9);
            let mut a = layer(7, Some(p.pk()));
            let m = emit(|w| a.write_connect_msg_bin(None, w)).unwrap_or_default();
            sx::check(m.len() == 150, "CONNECT can be written");
            if m.len() != 150 { return }
            let e = epk_of(&m);
            p.agree(&e);
            for s in &seen { sx::check(s[..] != e[..], "no two layers have the same ephemeral key"); }
            match how {
                // never answered
                0 => {}
                // failed
                1 => { let _ = a.read_bin(b"junk"); }
                _ => {
                    let ok = a.read_bin(&p.connect(b"")).is_ok() && emit(|w| a.write_ack_msg_bin(None, w)).is_ok() && a.read_bin(&p.ack(&e, b"")).is_ok();
                    sx::check(ok, "setup: negotiation succeeds");
                    let m = emit(|w| a.write_bin(b"data", w)).unwrap_or_default();
                    sx::check(peer::open(p.key(), &m).is_some(), "the session key is this session's");
                    for s in &seen { sx::check(s[..] != p.key()[..], "no two sessions have the same key"); }
                    seen.push(p.key().to_vec());
                    if how == 3 { let c = a.try_clone(); sx::check(c.is_ok(), "setup: a negotiated layer can be cloned"); }
                }
            }
            seen.push(e);
        }
        sx::reach("done");
    }
    /// P18: the identity is the seed's, whatever the seed; other seeds, other identities
    fn p18_seed() {
        let s = sx::bytes(32, "seed");
        let t = sx::bytes(32, "seed2");
        let mut ids = vec![];
        for x in &[&s, &s, &t] {
            let mut b = [0u8; 32];
            b.copy_from_slice(x);
            let seed = Seed32::new(b);
            sx::check(seed.as_ref() == &x[..], "a seed is what it was made from");
            let mut a = SecureLayer::create(cfg(), Some(seed), None).ok().unwrap();
            let m = emit(|w| a.write_connect_msg_bin(None, w)).unwrap_or_default();
            sx::check(m.len() == 150, "CONNECT can be written");
            if m.len() != 150 { return }
            let kp = ring::signature::Ed25519KeyPair::from_seed_unchecked(x).ok().unwrap();
            sx::check(sx::eq(&m[54..86], &peer::pk(&kp)), "the identity is that of the seed");
            ids.push(m[54..86].to_vec());
        }
        sx::check(ids[0] == ids[1], "the same seed gives the same identity");
        sx::check((ids[0] == ids[2]) == (s == t), "another seed gives another identity");
        sx::reach("done");
    }
    /// P18: random seeds, and the identities of layers made without one
    fn p18_random() {
        let any = sx::choose(2) == 1;
        if any { sx::symbolic_keys(); }
        // arbitrary values might be the default ones
        let mut seeds = if any { vec![] } else { vec![Seed32::default().as_ref().to_vec()] };
        let mut ids: Vec<Vec<u8>> = vec![];
        let n = if sx::thorough() { 5 } else { 4 };
        for _ in 0..n {
            if sx::choose(2) == 0 {
                let x = Seed32::random().as_ref().to_vec();
                for s in &seeds { sx::check(*s != x, "random seeds are never repeated"); }
                seeds.push(x);
            } else {
                let mut a = SecureLayer::create(cfg(), None, None).ok().unwrap();
                let m = emit(|w| a.write_connect_msg_bin(None, w)).unwrap_or_default();
                sx::check(m.len() == 150, "CONNECT can be written");
                if m.len() != 150 { return }
                let x = m[54..86].to_vec();
                for s in &seeds { let k = ring::signature::Ed25519KeyPair::from_seed_unchecked(s).ok().unwrap(); sx::check(peer::pk(&k)[..] != x[..], "a layer without a seed has an identity nobody else has"); }
                for s in &ids { sx::check(*s != x, "identities of layers without a seed are never repeated"); }
                ids.push(x);
            }
        }
        sx::reach("done");
    }
    /// P18: the same with many of them
    fn p18_many() {
        let n = if sx::thorough() { 1_000 } else { 300 };
        let how = sx::choose(3);
        let mut seen = std::collections::BTreeSet::new();
        let mut ok = true;
        for i in 0..n {
            match how {
                0 => ok &= seen.insert(Seed32::random().as_ref().to_vec()),
                1 => {
                    let mut a = SecureLayer::create(cfg(), None, None).ok().unwrap();
                    let m = emit(|w| a.write_connect_msg_bin(None, w)).unwrap_or_default();
                    sx::check(m.len() == 150, "CONNECT can be written");
                    if m.len() != 150 { return }
                    ok &= seen.insert(m[54..86].to_vec());
                    ok &= seen.insert(epk_of(&m));
                }
                _ => {
                    let mut a = minimal(None);
                    let m = a.create_connect_message(&[i as u8; 32], None).unwrap_or_default();
                    sx::check(m.len() >= 86, "CONNECT can be written");
                    if m.len() < 86 { return }
                    ok &= seen.insert(epk_of(&m));
                }
            }
        }
        sx::check(ok, "seeds, identities and ephemeral keys are never repeated");
        sx::reach("done");
    }
    /// P18: without randomness, no layer
    fn p18_fail() {
        sx::symbolic_keys();
        let before = sx::choose(3);
        let complete = sx::choose(2);
        let expected = sx::choose(2);
        for _ in 0..before { drop(layer(7, None)); }
        randomness(0);
        let e = if expected == 0 { None } else { Some(peer::pk(&peer::keypair(9))) };
        let ok = if complete == 1 { SecureLayer::create(cfg(), Some(Seed32::new([7; 32])), e).is_ok() } else { MinimalSecureLayer::create(cfg(), e).is_ok() };
        sx::check(!ok, "without randomness no layer is created");
        randomness(u64::max_value());
        let mut a = layer(7, None);
        sx::check(emit(|w| a.write_connect_msg_bin(None, w)).is_ok(), "once there is randomness again, layers are created");
        sx::reach("failed");
    }

    /// P19: one or two refused messages or calls anywhere in a session: it goes on as if there had been none
    fn p19_session() {
        let complete = sx::choose(2) == 1;
        let pinned = sx::choose(2) == 1;
        let order: &[u8] = [&[0u8, 1, 2, 3, 4, 5, 6, 4][..], &[1, 2, 0, 3, 5, 4, 6, 4], &[0, 3, 1, 2, 6, 5, 4, 4], &[0, 1, 2, 5, 3, 4, 6, 4]][sx::choose(4) as usize];
        // an early ACK is only kept when nobody in particular is expected
        sx::assume(!(pinned && order[1] == 3));
        let e = if pinned { Some(peer::pk(&peer::keypair(9))) } else { None };
        let mut r = Run::new(complete, e);
        let first = sx::choose(order.len() as u64) as usize;
        let second = first + sx::choose((order.len() - first) as u64) as usize;
        let third = if sx::thorough() { second + sx::choose((order.len() - second) as u64) as usize } else { order.len() };
        for (i, k) in order.iter().enumerate() {
            if i == first { r.refused(0); }
            if i == second { r.refused(1); }
            if i == third { r.refused(2); }
            r.step(*k);
        }
        // a refused attempt to clone is not a clone
        if !r.cloned {
            let ok = match &mut r.a { L::M(a, _) => a.change_config(cfg()).is_ok(), L::C(a) => a.change_config(cfg()).is_ok() };
            sx::check(ok, "the configuration can be changed as in an undisturbed session");
        }
        sx::reach("done");
    }
    /// P19: the same refused message again and again
    fn p19_many() {
        let n = if sx::thorough() { 12_000 } else { 1_200 };
        let kind = sx::choose(6);
        let (mut a, mut p, epk) = complete_at(4);
        let e = peer::keypair(66);
        sx::check(a.read_bin(&p.user(&stored(b"u"))).is_ok(), "setup: genuine user message delivered");
        let mut none = true;
        for i in 0..n {
            let m = match kind {
                0 => peer::signed(peer::connect_clear(&[9; 32], &[0; 4], &p.pk(), b""), &e),
                1 => peer::signed(peer::connect_clear(&[9; 32], &[0; 4], &peer::pk(&e), b""), &e),
                2 => peer::signed(peer::ack_clear(&[9; 32], b""), &p.kp),
                3 => peer::signed(peer::ack_clear(&epk, b""), &e),
                4 => p.user_at(0, &stored(b"u")),
                _ => { let mut c = peer::user_clear(1 + i, b"no"); c.extend_from_slice(&[3; 32]); peer::seal(p.key(), &c) }
            };
            none &= a.read_bin(&m).is_err();
        }
        sx::check(none, "forged, foreign, altered and repeated messages are refused");
        sx::check(a.read_bin(&p.user_at(1, &stored(b"v"))).map(|v| v.len()).unwrap_or(0) == 1, "a user message is read as in an undisturbed session");
        let m = emit(|w| a.write_bin(b"data", w)).unwrap_or_default();
        sx::check(peer::open(p.key(), &m).map_or(false, |c| c.len() > 26 && c[18..26] == [0; 8]), "a user message is written as in an undisturbed session");
        sx::reach("done");
    }

    /// P20: two sessions of the same identities in one process, their steps interleaved in any way
    fn p20_two() {
        let orders = [&[0u8, 1, 2, 3, 4, 5][..], &[1, 2, 0, 5, 3, 4], &[0, 3, 1, 2, 5, 4]];
        let kinds = sx::choose(3);
        let (o1, o2) = (orders[sx::choose(3) as usize], orders[sx::choose(3) as usize]);
        let mut a = Run::new(kinds > 0, None);
        let mut b = Run::new(kinds == 2, None);
        let (mut i, mut j) = (0, 0);
        while i < o1.len() || j < o2.len() {
            let first = if i == o1.len() { false } else if j == o2.len() { true } else { sx::choose(2) == 0 };
            if first { a.step(o1[i]); i += 1; } else { b.step(o2[j]); j += 1; }
        }
        sx::check(a.p.key()[..] != b.p.key()[..], "two sessions have different keys");
        sx::reach("done");
    }
    /// P20: the other session fails, is dropped, is cloned or gets this one's messages at any moment: this one does not notice
    fn p20_disturbed() {
        let orders = [&[0u8, 1, 2, 3, 4, 5, 4, 6][..], &[1, 2, 0, 5, 3, 4, 6, 4], &[0, 3, 1, 2, 5, 4, 4, 6]];
        let kinds = sx::choose(4);
        let order = orders[sx::choose(3) as usize];
        let mut a = Run::new(kinds % 2 == 1, None);
        let mut b = Some(Run::new(kinds / 2 == 1, None));
        // how far the other one is, and what happens to it when
        let far = sx::choose(4);
        let what = sx::choose(5);
        let at = sx::choose(order.len() as u64) as usize;
        let mut clones = vec![];
        for k in orders[0].iter().take([0, 2, 4, 6][far as usize]) { if let Some(b) = &mut b { b.step(*k); } }
        for (i, k) in order.iter().enumerate() {
            if i == at {
                match what {
                    0 => b = None,
                    1 => {
                        if let Some(b) = &mut b {
                            // the first one ends it, the others are in vain
                            for _ in 0..20 {
                                sx::check(b.a.read(b"junk").is_none() && b.a.connect(None).is_err() && b.a.ack(None).is_err() && b.a.user(b"x").is_err() && !b.a.clone_ok(), "a failed layer refuses everything");
                            }
                        }
                    }
                    2 => { if let Some(b) = &mut b { let m = sx::bytes(40, "x"); b.a.read(&m); } }
                    3 => {
                        sx::assume(far >= 2);
                        if let Some(b) = &mut b { match &mut b.a { L::M(x, _) => clones.push(L::M(x.try_clone().ok().unwrap(), peer::keypair(7))), L::C(x) => clones.push(L::C(x.try_clone().ok().unwrap())) } }
                        b = None;
                    }
                    _ => {
                        // this session's message of the other side is delivered to the other session
                        if let Some(b) = &mut b {
                            sx::assume(a.wrote_connect);
                            let m = a.p.user_at(0, &a.a.packed(&a.d[6]));
                            sx::assume(m[..4] != peer::MAGIC[..]);
                            sx::check(b.a.read(&m).map_or(true, |v| v.is_empty()), "nothing is delivered to another session");
                        }
                    }
                }
                sx::reach("disturbed");
            }
            a.step(*k);
        }
        for c in &mut clones { sx::check(c.user(b"data").is_ok(), "a clone outlives what it was cloned from"); }
        sx::reach("done");
    }
    /// P20: many sessions of one server, opened, used and closed one among the others
    fn p20_many() {
        let n = if sx::thorough() { 40 } else { 12 };
        let mut v = vec![];
        let back = sx::choose(2) == 1;
        let complete = sx::choose(2) == 1;
        for _ in 0..n { v.push(Run::new(complete, None)); }
        for k in [0u8, 1, 2, 3, 4, 5, 6, 4].iter() {
            if back { for r in v.iter_mut().rev() { r.step(*k); } } else { for r in v.iter_mut() { r.step(*k); } }
        }
        // and every second one goes on when the others are gone
        let mut i = 0;
        v.retain(|_| { i += 1; i % 2 == 0 });
        for r in v.iter_mut() { r.step(4); r.step(7); }
        sx::reach("done");
    }
}

#[cfg(any(feature = "sym", feature = "ideal"))]
fn ring_last() -> Option<Vec<u8>> {
    ring::agreement::last_public().map(|k| k.to_vec())
}
#[cfg(not(any(feature = "sym", feature = "ideal")))]
fn ring_last() -> Option<Vec<u8>> {
    None
}
