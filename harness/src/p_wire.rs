//! P10 wire format, P11 key agreement, P12 output completeness.
use crate::peer::{self, Spec};
use crate::props::*;
use crate::sx;
use pkstl::*;
use std::io::{BufWriter, Write};

/// what DEFLATE data stands for
pub fn inflate(d: &[u8]) -> Option<Vec<u8>> {
    let mut z = flate2::write::DeflateDecoder::new(Vec::new());
    match z.write_all(d) { Ok(()) => {}, Err(_) => return None }
    z.finish().ok()
}
fn len() -> usize {
    let max = if sx::thorough() { 130 } else { 40 };
    sx::choose(max) as usize
}
/// None, or Some(data) of any length
fn custom() -> Option<Vec<u8>> {
    if sx::choose(2) == 0 { None } else { let n = len(); Some(sx::bytes(n, "custom")) }
}

// ------------------------------------------------------------- P12 writers
/// A sink that takes at most `max` bytes per call, is interrupted every other
/// call, and breaks for good after `room` bytes.
struct Sink { got: Vec<u8>, max: usize, room: usize, how: u64, interrupt: bool, calls: u64 }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt && self.calls % 2 == 1 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        if self.room == 0 && !b.is_empty() {
            return match self.how {
                0 => Err(std::io::Error::from(std::io::ErrorKind::BrokenPipe)),
                1 => Err(std::io::Error::from(std::io::ErrorKind::WouldBlock)),
                _ => Ok(0),
            };
        }
        let n = b.len().min(self.max).min(self.room);
        self.got.extend_from_slice(&b[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn sink(max: usize, room: usize, how: u64, interrupt: bool) -> Sink {
    Sink { got: vec![], max, room, how, interrupt, calls: 0 }
}
const CAPS: [usize; 6] = [8192, 0, 1, 7, 64, 127];

enum Wr { M(MinimalSecureLayer), C(SecureLayer) }
/// a layer about to write message `kind` (0 CONNECT, 1 ACK, 2 USER minimal, 3 USER complete),
/// and the function telling what it must write
fn about_to(kind: u64) -> (Wr, Spec) {
    match kind {
        0 => { let p = Spec::new(9); (Wr::C(layer(7, None)), p) }
        1 => { let (a, p, _) = complete_at(2); (Wr::C(a), p) }
        2 => { let (a, p) = negotiated(); (Wr::M(a), p) }
        _ => { let (a, p, _) = complete_at(4); (Wr::C(a), p) }
    }
}
fn write_it<W: Write>(s: &mut Wr, kind: u64, d: &[u8], w: &mut BufWriter<W>) -> Result<()> {
    match (s, kind) {
        (Wr::C(a), 0) => a.write_connect_msg_bin(None, w),
        (Wr::C(a), 1) => a.write_ack_msg_bin(None, w),
        (Wr::M(a), _) => a.write_message(d, w),
        (Wr::C(a), _) => a.write_bin(d, w),
    }
}
/// what must reach the sink, given what did (for the ephemeral key of a CONNECT)
fn expected(kind: u64, p: &Spec, d: &[u8], got: &[u8]) -> Option<Vec<u8>> {
    let own = peer::keypair(7);
    Some(match kind {
        0 => {
            if got.len() < 50 { return None }
            peer::signed(peer::connect_clear(&got[18..50], &[0; 4], &peer::pk(&own), b""), &own)
        }
        1 => peer::signed(peer::ack_clear(&p.epk, b""), &own),
        2 => p.user_at(0, d),
        _ => {
            let m = peer::open(p.key(), got)?;
            if m.len() < 26 + 32 { return None }
            p.user_at(0, &m[26..m.len() - 32])
        }
    })
}

entries! {
    /// P10: what the minimal layer writes is what the README says
    fn p10_write() {
        let kp = peer::keypair(7);
        let pk = peer::pk(&kp);
        let kind = sx::choose(3);
        let c = custom();
        let d = c.clone().unwrap_or_default();
        match kind {
            0 => {
                let mut a = minimal(None);
                let m = a.create_connect_message(&pk, c.as_ref().map(|x| &x[..]));
                sx::check(m.is_ok(), "CONNECT can be written");
                let m = m.unwrap_or_default();
                sx::check(m.len() == 86 + d.len() && sx::eq(&m, &peer::connect_clear(&epk_of(&m), &[0; 4], &pk, &d)), "a written CONNECT is the documented one");
                sx::reach("connect");
            }
            1 => {
                let (mut a, p) = minimal_in(2, false);
                let m = a.create_ack_message(c.as_ref().map(|x| &x[..]));
                sx::check(m.is_ok(), "ACK can be written");
                sx::check(sx::eq(&m.unwrap_or_default(), &peer::ack_clear(&p.epk, &d)), "a written ACK is the documented one");
                sx::reach("ack");
            }
            _ => {
                let (mut a, p) = negotiated();
                let k = sx::choose(3);
                for i in 0..k {
                    let m = user_of(&mut a, b"first");
                    sx::check(m.is_ok() && sx::eq(&m.unwrap_or_default(), &p.user_at(i, b"first")), "a written user message is the documented one");
                }
                let m = user_of(&mut a, &d);
                sx::check(m.is_ok(), "user messages can be written");
                sx::check(sx::eq(&m.unwrap_or_default(), &p.user_at(k, &d)), "a written user message is the documented one");
                sx::reach("user");
            }
        }
    }
    /// P10: what the complete layer writes is what the README says, signature included
    fn p10_complete() {
        let kp = peer::keypair(7);
        let kind = sx::choose(3);
        let n = sx::choose(4) as usize;
        let d = if n > 1 { vec![n as u8; n] } else { sx::bytes(n, "custom") };
        let some = kind == 2 || sx::choose(2) == 1;
        let c = if some { Some(&d[..]) } else { None };
        let mut body = vec![];
        match kind {
            0 => {
                let mut a = layer(7, None);
                let m = emit(|w| a.write_connect_msg_bin(c, w));
                sx::check(m.is_ok(), "CONNECT can be written");
                let m = m.unwrap_or_default();
                sx::check(m.len() >= 150, "a written CONNECT is the documented one");
                if m.len() < 150 { return }
                body.extend_from_slice(&m[86..m.len() - 64]);
                sx::check(sx::eq(&m, &peer::signed(peer::connect_clear(&epk_of(&m), &[0; 4], &peer::pk(&kp), &body), &kp)), "a written CONNECT is the documented one, signed");
                sx::reach("connect");
            }
            1 => {
                let (mut a, p, _) = complete_at(2);
                let m = emit(|w| a.write_ack_msg_bin(c, w));
                sx::check(m.is_ok(), "ACK can be written");
                let m = m.unwrap_or_default();
                sx::check(m.len() >= 114, "a written ACK is the documented one");
                if m.len() < 114 { return }
                body.extend_from_slice(&m[50..m.len() - 64]);
                sx::check(sx::eq(&m, &peer::signed(peer::ack_clear(&p.epk, &body), &kp)), "a written ACK is the documented one, signed");
                sx::reach("ack");
            }
            _ => {
                let (mut a, p, _) = complete_at(4);
                let m = emit(|w| a.write_bin(&d, w));
                sx::check(m.is_ok(), "user messages can be written");
                let m = peer::open(p.key(), &m.unwrap_or_default());
                sx::check(m.is_some(), "a written user message is sealed with the session key");
                let m = m.unwrap_or_default();
                if m.len() < 58 { sx::check(false, "a written user message is the documented one"); return }
                body.extend_from_slice(&m[26..m.len() - 32]);
                sx::check(sx::eq(&m, &peer::hashed(peer::user_clear(0, &body))), "a written user message is the documented one");
                sx::reach("user");
            }
        }
        if some { sx::check(inflate(&body).map_or(false, |x| x == d), "custom data is the DEFLATE of what was given"); }
        else { sx::check(body.is_empty(), "no custom data, none written"); }
    }
    /// P10: any documented message is read back exactly
    fn p10_read() {
        let kind = sx::choose(3);
        let n = sx::choose(if sx::thorough() { 300 } else { 120 }) as usize;
        let d = sx::bytes(n, "custom");
        let (mut a, mut p, epk) = {
            let p = Spec::new(9);
            let mut a = minimal(None);
            let kp = peer::keypair(7);
            let c = a.create_connect_message(&peer::pk(&kp), None).ok().unwrap();
            (a, p, epk_of(&c))
        };
        if kind == 0 {
            match a.read(&p.connect(&d)) {
                Ok(Some(Message::Connect { sig_algo, sig_pubkey, custom_data })) => {
                    sx::check(sig_algo == [0; 4] && sig_pubkey == p.pk(), "a CONNECT is read back exactly");
                    sx::check(if n == 0 { custom_data.is_none() } else { custom_data.map_or(false, |x| sx::eq(&x, &d)) }, "custom data is read back exactly");
                }
                _ => sx::check(false, "a documented CONNECT is accepted"),
            }
            sx::reach("connect");
            return;
        }
        p.agree(&epk);
        sx::check(a.read(&p.connect(b"")).is_ok(), "setup: valid CONNECT accepted");
        if kind == 1 {
            match a.read(&p.ack(&epk, &d)) {
                Ok(Some(Message::Ack { custom_data })) => sx::check(if n == 0 { custom_data.is_none() } else { custom_data.map_or(false, |x| sx::eq(&x, &d)) }, "custom data is read back exactly"),
                _ => sx::check(false, "a documented ACK is accepted"),
            }
            sx::reach("ack");
            return;
        }
        sx::check(a.read(&p.ack(&epk, b"")).is_ok() && a.create_ack_message(None).is_ok(), "setup: negotiation succeeds");
        let x = sx::u64v("number");
        sx::assume(x != u64::max_value());
        match a.read(&p.user_at(x, &d)) {
            Ok(Some(Message::Message { custom_data })) => sx::check(if n == 0 { custom_data.is_none() } else { custom_data.map_or(false, |x| sx::eq(&x, &d)) }, "user data is read back exactly"),
            _ => sx::check(false, "a documented user message is accepted"),
        }
        sx::reach("user");
    }
    /// P10: big messages, around the sizes of buffers
    fn p10_big() {
        let n = [8_100usize, 8_160, 8_166, 8_176, 8_191, 8_192, 8_193, 8_250, 16_384, 20_000][sx::choose(if sx::thorough() { 10 } else { 8 }) as usize];
        let kind = sx::choose(3);
        let mut d = vec![0x5au8; n];
        let s = sx::bytes(3, "ends");
        d[0] = s[0];
        d[n / 2] = s[1];
        d[n - 1] = s[2];
        let kp = peer::keypair(7);
        match kind {
            0 => {
                let mut a = minimal(None);
                let m = a.create_connect_message(&peer::pk(&kp), Some(&d)).unwrap_or_default();
                sx::check(m.len() == 86 + n && sx::eq(&m, &peer::connect_clear(&epk_of(&m), &[0; 4], &peer::pk(&kp), &d)), "a written CONNECT is the documented one");
                let mut b = minimal(None);
                sx::check(match b.read(&peer::signed(m, &kp)) { Ok(Some(Message::Connect { custom_data: Some(x), .. })) => sx::eq(&x, &d), _ => false }, "custom data is read back exactly");
            }
            1 => {
                let (mut a, p) = minimal_in(2, false);
                let m = a.create_ack_message(Some(&d)).unwrap_or_default();
                sx::check(sx::eq(&m, &peer::ack_clear(&p.epk, &d)), "a written ACK is the documented one");
            }
            _ => {
                let (mut a, p) = negotiated();
                let m = user_of(&mut a, &d).unwrap_or_default();
                sx::check(sx::eq(&m, &p.user_at(0, &d)), "a written user message is the documented one");
                sx::check(match a.read(&p.user_at(3, &d)) { Ok(Some(Message::Message { custom_data: Some(x) })) => sx::eq(&x, &d), _ => false }, "user data is read back exactly");
            }
        }
        sx::reach("done");
    }
    /// P10: every size up to a limit, written and read
    fn p10_every() {
        let kind = sx::choose(3);
        let part = sx::choose(if sx::thorough() { 60 } else { 20 }) as usize;
        let kp = peer::keypair(7);
        let (mut a, p) = negotiated();
        let (mut w, mut r) = (true, true);
        let mut sizes: Vec<usize> = (part * 80..part * 80 + 80).collect();
        // where a length or a whole message crosses a power of two
        let two = 1usize << (7 + part % 10);
        for over in &[26usize, 32, 34, 42, 50, 58, 74, 76, 86, 114, 116, 134, 150] { sizes.push(two.saturating_sub(*over)); sizes.push((two + 1).saturating_sub(*over)); }
        let mut number = 0;
        for n in sizes {
            let d: Vec<u8> = (0..n).map(|i| (i * 7 + n) as u8).collect();
            match kind {
                0 => {
                    let mut c = minimal(None);
                    let m = c.create_connect_message(&peer::pk(&kp), Some(&d)).unwrap_or_default();
                    w &= m.len() == 86 + n && sx::eq(&m, &peer::connect_clear(&epk_of(&m), &[0; 4], &peer::pk(&kp), &d));
                    r &= match minimal(None).read(&p.connect(&d)) { Ok(Some(Message::Connect { custom_data, .. })) => sx::eq(&custom_data.unwrap_or_default(), &d), _ => false };
                }
                1 => {
                    let mut c = minimal(None);
                    let epk = epk_of(&c.create_connect_message(&peer::pk(&kp), None).unwrap_or_default());
                    sx::check(c.read(&p.connect(b"")).is_ok(), "setup: valid CONNECT accepted");
                    let m = c.create_ack_message(Some(&d)).unwrap_or_default();
                    w &= sx::eq(&m, &peer::ack_clear(&p.epk, &d));
                    r &= match c.read(&p.ack(&epk, &d)) { Ok(Some(Message::Ack { custom_data })) => sx::eq(&custom_data.unwrap_or_default(), &d), _ => false };
                }
                _ => {
                    let m = user_of(&mut a, &d).unwrap_or_default();
                    w &= sx::eq(&m, &p.user_at(number, &d));
                    r &= match a.read(&p.user_at(number, &d)) { Ok(Some(Message::Message { custom_data })) => sx::eq(&custom_data.unwrap_or_default(), &d), _ => false };
                    number += 1;
                }
            }
        }
        sx::check(w, "a written message is the documented one, whatever its size");
        sx::check(r, "data is read back exactly, whatever its size");
        sx::reach("done");
    }
    /// P10: sizes around 64 KiB and 1 MiB, where lengths grow by a byte
    fn p10_huge() {
        let n = [65_492usize, 65_526, 65_536, 70_000, 1_048_570, 1_048_576, 1_100_000, 65_535, 131_072][sx::choose(if sx::thorough() { 9 } else { 7 }) as usize];
        let kind = sx::choose(3);
        let d = vec![0x5au8; n];
        let kp = peer::keypair(7);
        match kind {
            0 => {
                let mut a = minimal(None);
                let m = a.create_connect_message(&peer::pk(&kp), Some(&d)).unwrap_or_default();
                sx::check(m.len() == 86 + n && sx::eq(&m, &peer::connect_clear(&epk_of(&m), &[0; 4], &peer::pk(&kp), &d)), "a written CONNECT is the documented one");
                let mut b = minimal(None);
                sx::check(match b.read(&peer::signed(m, &kp)) { Ok(Some(Message::Connect { custom_data: Some(x), .. })) => sx::eq(&x, &d), _ => false }, "custom data is read back exactly");
            }
            1 => {
                let (mut a, p, epk) = { let mut p = Spec::new(9); let mut a = minimal(None); let c = a.create_connect_message(&peer::pk(&kp), None).ok().unwrap(); p.agree(&epk_of(&c)); (a, p, epk_of(&c)) };
                sx::check(a.read(&p.connect(b"")).is_ok(), "setup: valid CONNECT accepted");
                let m = a.create_ack_message(Some(&d)).unwrap_or_default();
                sx::check(sx::eq(&m, &peer::ack_clear(&p.epk, &d)), "a written ACK is the documented one");
                sx::check(match a.read(&p.ack(&epk, &d)) { Ok(Some(Message::Ack { custom_data: Some(x) })) => sx::eq(&x, &d), _ => false }, "custom data is read back exactly");
            }
            _ => {
                let (mut a, p) = negotiated();
                let m = user_of(&mut a, &d).unwrap_or_default();
                sx::check(sx::eq(&m, &p.user_at(0, &d)), "a written user message is the documented one");
                sx::check(match a.read(&p.user_at(3, &d)) { Ok(Some(Message::Message { custom_data: Some(x) })) => sx::eq(&x, &d), _ => false }, "user data is read back exactly");
            }
        }
        sx::reach("done");
    }
    /// P10: the numbers of many messages in a row, and of a message after them
    fn p10_many() {
        let n = if sx::thorough() { 300_000u64 } else { 66_000 };
        let (mut a, p) = negotiated();
        let d = sx::bytes(1, "data");
        let mut ok = true;
        for i in 0..n {
            let m = user_of(&mut a, b"").unwrap_or_default();
            ok &= m == p.user_at(i, b"");
        }
        sx::check(ok, "user messages are numbered in order");
        let m = user_of(&mut a, &d).unwrap_or_default();
        sx::check(sx::eq(&m, &p.user_at(n, &d)), "user messages are numbered in order");
        sx::reach("done");
    }
    /// P10: whatever announces another version, type or signature algorithm is refused, though signed or sealed
    fn p10_other() {
        let st = sx::choose(6);
        let (mut a, p) = minimal_in(st, false);
        let what = sx::choose(3);
        let kind = sx::choose(3);
        let epk = epk_inside(&a).unwrap_or_default();
        let mut m = match kind {
            0 => peer::connect_clear(&p.epk, &[0; 4], &p.pk(), b"c"),
            1 => peer::ack_clear(&epk, b"a"),
            _ => peer::user_clear(0, b"u"),
        };
        match what {
            0 => { let v = sx::bytes(4, "version"); sx::assume(v[..] != peer::VERSION); m[4..8].copy_from_slice(&v); }
            1 => { let t = sx::bytes(2, "type"); sx::assume(t[0] != 0 || t[1] > 2); m[16..18].copy_from_slice(&t); }
            _ => { sx::assume(kind == 0); let v = sx::bytes(4, "algorithm"); sx::assume(v != [0, 0, 0, 0]); m[50..54].copy_from_slice(&v); }
        }
        let m = if kind == 2 { sx::assume(p.key.is_some()); peer::seal(p.key(), &peer::hashed(m)) } else { peer::signed(m, &p.kp) };
        let o = out(a.read(&m));
        sx::check(o.refused(), "another version, type or signature algorithm is refused");
        sx::reach("refused");
    }
    /// P10: the signing key comes from the given seed, and the key pair is the announced one
    fn p10_seed() {
        let s = sx::choose(3) as u8;
        let mut a = layer(s, None);
        let m = emit(|w| a.write_connect_msg_bin(None, w)).unwrap_or_default();
        sx::check(m.len() == 150 && m[54..86] == peer::pk(&peer::keypair(s))[..], "the announced identity is the one of the seed");
        let mut b = layer(1, Some(peer::pk(&peer::keypair(s))));
        sx::check(b.read_bin(&m).is_ok(), "the peer that expects this identity accepts it");
        sx::reach("done");
    }

    /// P11: two layers with arbitrary ephemeral keys end up with the documented key
    fn p11_agree() {
        sx::symbolic_keys();
        let first = sx::choose(2);
        let (ka, kb) = (peer::keypair(7), peer::keypair(8));
        let mut a = minimal(None);
        let mut b = minimal(None);
        let ca = a.create_connect_message(&peer::pk(&ka), None).ok().unwrap();
        let cb = b.create_connect_message(&peer::pk(&kb), None).ok().unwrap();
        let (ea, eb) = (epk_of(&ca), epk_of(&cb));
        let (ca, cb) = (peer::signed(ca, &ka), peer::signed(cb, &kb));
        let ok = if first == 0 { a.read(&cb).is_ok() & b.read(&ca).is_ok() } else { b.read(&ca).is_ok() & a.read(&cb).is_ok() };
        sx::check(ok, "setup: CONNECT messages accepted");
        let (aa, ab) = (a.create_ack_message(None), b.create_ack_message(None));
        sx::check(aa.is_ok() && ab.is_ok(), "setup: ACK can be written");
        let ok = b.read(&peer::signed(aa.unwrap_or_default(), &ka)).is_ok() & a.read(&peer::signed(ab.unwrap_or_default(), &kb)).is_ok();
        sx::check(ok, "setup: ACK messages accepted");
        let m = user_of(&mut a, b"from a").unwrap_or_default();
        let k = user_of(&mut b, b"from b").unwrap_or_default();
        sx::assume(!m.starts_with(&peer::MAGIC));
        sx::check(out(b.read(&m)) == Out::User(b"from a".to_vec()), "both peers have the same key");
        sx::check(out(a.read(&k)) == Out::User(b"from b".to_vec()), "both peers have the same key");
        sx::reach(if ea > eb { "first larger" } else { "second larger" });
    }
    /// P11: against the documented derivation, from either side of the key order
    fn p11_spec() {
        sx::symbolic_keys();
        let mut p = Spec::new(9);
        let mut a = minimal(None);
        let kp = peer::keypair(7);
        let c = a.create_connect_message(&peer::pk(&kp), None).ok().unwrap();
        let epk = epk_of(&c);
        p.agree(&epk);
        sx::check(a.read(&p.connect(b"")).is_ok(), "setup: valid CONNECT accepted");
        sx::check(a.create_ack_message(None).is_ok(), "setup: ACK can be written");
        sx::check(a.read(&p.ack(&epk, b"")).is_ok(), "setup: valid ACK accepted");
        let m = user_of(&mut a, b"data").unwrap_or_default();
        sx::check(sx::eq(&m, &p.user_at(0, b"data")), "the session key is the documented one");
        sx::reach(if p.epk > epk { "peer larger" } else { "own larger" });
    }
    /// P11: any announced ephemeral key: agreed with the documented result, or the connection is over
    fn p11_any() {
        let early = sx::choose(2);
        let e = sx::bytes(32, "epk");
        let (mut a, p) = minimal_in(if early == 1 { 8 } else { 1 }, false);
        let m = peer::signed(peer::connect_clear(&e, &[0; 4], &p.pk(), b""), &p.kp);
        let r = out(a.read(&m));
        if r.is_connect() {
            sx::reach("agreed");
            sx::check(e != [0; 32], "no success with a key that agrees on nothing");
            let mut w = peer::header(34, peer::T_ACK);
            w.extend_from_slice(&peer::sha256(&e));
            sx::check(a.create_ack_message(None).map(|m| sx::eq(&m, &w)).unwrap_or(false), "the ACK answers the announced key");
        } else {
            sx::reach("refused");
            sx::check(e == [0; 32], "any sound key is accepted");
            sx::check(a.create_ack_message(None).is_err(), "no ACK without a key");
            let _ = a.take_ack_msg_recv_too_early();
            sx::check(user_of(&mut a, b"x").is_err(), "no user message without a key");
            sx::check(out(a.read(&Spec::new(9).connect(b""))).refused(), "a failed key agreement is final");
            sx::check(a.try_clone().is_err(), "no clone without a key");
        }
    }
    /// P11: the key does not change once agreed, whatever is received
    fn p11_stable() {
        let st = 2 + sx::choose(4);
        let (mut a, p) = minimal_in(st, false);
        let e = sx::bytes(32, "epk");
        let kind = sx::choose(3);
        let m = match kind {
            // signed by the attacker, by nobody, or a second one by the peer
            0 => { let k = peer::keypair(66); peer::signed(peer::connect_clear(&e, &[0; 4], &peer::pk(&k), b""), &k) }
            1 => { sx::assume(e != p.epk); let mut m = peer::connect_clear(&e, &[0; 4], &p.pk(), b""); m.extend_from_slice(&sx::bytes(64, "sig")); m }
            _ => peer::signed(peer::connect_clear(&e, &[0; 4], &p.pk(), b""), &p.kp),
        };
        sx::check(out(a.read(&m)).refused(), "a further CONNECT is refused");
        sx::reach("refused");
        // if anything still works, then with the agreed key
        if st == 4 {
            let r = user_of(&mut a, b"data");
            if kind < 2 { sx::check(r.is_ok(), "a forged CONNECT does not end the session"); }
            if let Ok(m) = r { sx::check(sx::eq(&m, &p.user_at(0, b"data")), "the session key does not change"); sx::reach("same key"); }
        }
    }

    /// P11: refused CONNECT messages leave no trace in the key, nor in the own ACK
    fn p11_refused() {
        let pinned = sx::choose(2) == 1;
        let early = sx::choose(2) == 1;
        let mut p = Spec::new(9);
        let mut a = minimal(if pinned { Some(p.pk()) } else { None });
        let kp = peer::keypair(7);
        let mut epk = vec![];
        if early {
            let c = a.create_connect_message(&peer::pk(&kp), None).unwrap_or_default();
            sx::check(c.len() == 86, "CONNECT can be written");
            if c.len() != 86 { return }
            epk = epk_of(&c);
        }
        for i in 0..1 + sx::choose(2) as usize {
            let e = sx::bytes(32, if i == 0 { "epk" } else { "epk2" });
            let k = peer::keypair(66);
            let m = match sx::choose(if pinned { 5 } else { 4 }) {
                // no signature of the one it names
                0 => peer::signed(peer::connect_clear(&e, &[0; 4], &p.pk(), b""), &k),
                1 => { sx::assume(e != p.epk); let mut m = peer::connect_clear(&e, &[0; 4], &p.pk(), b""); m.extend_from_slice(&sx::bytes(64, "sig")); m }
                // another algorithm, or a byte missing
                2 => peer::signed(peer::connect_clear(&e, &[0, 0, 0, 1], &p.pk(), b""), &p.kp),
                3 => { let mut m = p.connect(b""); m.pop(); m }
                // somebody else
                _ => peer::signed(peer::connect_clear(&e, &[0; 4], &peer::pk(&k), b""), &k),
            };
            sx::check(out(a.read(&m)).refused(), "a forged or unexpected CONNECT is refused");
        }
        sx::reach("refused");
        if !out(a.read(&p.connect(b"z"))).is_connect() { return }
        if !early {
            let c = a.create_connect_message(&peer::pk(&kp), None).unwrap_or_default();
            sx::check(c.len() == 86, "CONNECT can be written");
            if c.len() != 86 { return }
            epk = epk_of(&c);
        }
        p.agree(&epk);
        let m = a.create_ack_message(None).unwrap_or_default();
        sx::check(sx::eq(&m, &peer::ack_clear(&p.epk, b"")), "the own ACK answers the accepted CONNECT");
        sx::check(out(a.read(&p.ack(&epk, b""))).is_ack(), "the genuine ACK is accepted");
        let m = user_of(&mut a, b"data").unwrap_or_default();
        sx::check(sx::eq(&m, &p.user_at(0, b"data")), "the session key is the one of the accepted CONNECT");
        sx::check(out(a.read(&p.user_at(0, b"y"))) == Out::User(b"y".to_vec()), "the session key is the one of the accepted CONNECT");
        sx::reach("agreed");
    }

    /// P12: a slow but correct writer gets everything
    fn p12_slow() {
        let kind = sx::choose(4);
        let cap = CAPS[sx::choose(6) as usize];
        let max = [1usize, 2, 5, 63, 64, 1000][sx::choose(6) as usize];
        let interrupt = sx::choose(2) == 1;
        let d = if kind == 2 { let n = sx::choose(if sx::thorough() { 12 } else { 4 }) as usize; sx::bytes(n * 9, "data") } else { b"data".to_vec() };
        let (mut a, p) = about_to(kind);
        let mut s = sink(max, 1 << 30, 0, interrupt);
        let ok;
        {
            let mut w = BufWriter::with_capacity(cap, &mut s);
            ok = write_it(&mut a, kind, &d, &mut w).is_ok() && w.flush().is_ok();
        }
        sx::check(ok, "a slow writer is no error");
        let want = expected(kind, &p, &d, &s.got);
        sx::check(want.map_or(false, |w| sx::eq(&w, &s.got)), "the whole message reaches the writer");
        sx::reach("written");
    }
    /// P12: big messages reach slow and quick writers whole
    fn p12_big() {
        let kind = sx::choose(4);
        let n = [8_192usize, 65_500, 66_000, 140_000][sx::choose(if sx::thorough() { 4 } else { 3 }) as usize];
        let cap = [8192usize, 0, 127, 70_000][sx::choose(4) as usize];
        let max = [1 << 20, 4_096usize, 1_000][sx::choose(3) as usize];
        let mut d = vec![3u8; n];
        if kind == 2 { d[n - 1] = sx::u8v("last"); }
        let (mut a, p) = about_to(kind);
        let mut s = sink(max, 1 << 30, 0, false);
        let ok;
        {
            let mut w = BufWriter::with_capacity(cap, &mut s);
            let r = match (&mut a, kind) {
                (Wr::C(a), 0) => a.write_connect_msg_bin(Some(&d), &mut w),
                (Wr::C(a), 1) => a.write_ack_msg_bin(Some(&d), &mut w),
                (Wr::M(a), _) => a.write_message(&d, &mut w),
                (Wr::C(a), _) => a.write_bin(&d, &mut w),
            };
            ok = r.is_ok() && w.flush().is_ok();
        }
        sx::check(ok, "a slow writer is no error");
        let g = &s.got;
        let own = peer::keypair(7);
        let body = |m: &[u8], from: usize, tail: usize| if m.len() < from + tail { vec![] } else { m[from..m.len() - tail].to_vec() };
        let (want, z) = match kind {
            0 => { let z = body(g, 86, 64); (if g.len() < 150 { vec![] } else { peer::signed(peer::connect_clear(&g[18..50], &[0; 4], &peer::pk(&own), &z), &own) }, z) }
            1 => { let z = body(g, 50, 64); (peer::signed(peer::ack_clear(&p.epk, &z), &own), z) }
            2 => (p.user_at(0, &d), vec![]),
            _ => { let c = peer::open(p.key(), g).unwrap_or_default(); let z = body(&c, 26, 32); (p.user_at(0, &z), z) }
        };
        sx::check(sx::eq(&want, g), "the whole message reaches the writer");
        if kind != 2 { sx::check(inflate(&z).map_or(false, |x| x == d), "the whole message reaches the writer"); }
        sx::reach("written");
    }
    /// P12: a writer that breaks at any point: reported, and nothing but a prefix came out
    fn p12_broken() {
        let kind = sx::choose(4);
        let cap = CAPS[sx::choose(6) as usize];
        let max = [1000usize, 1, 13][sx::choose(3) as usize];
        let how = sx::choose(3);
        let total = [150usize, 114, 26 + 4 + 32 + 16, 26 + 9 + 32 + 16][kind as usize];
        let room = sx::choose(total as u64 + 2) as usize;
        let (mut a, p) = about_to(kind);
        let d = sx::bytes(if kind == 2 { 4 } else { 0 }, "data");
        let d = if kind == 2 { d } else { b"data".to_vec() };
        let mut s = sink(max, room, how, false);
        let (r, f);
        {
            let mut w = BufWriter::with_capacity(cap, &mut s);
            r = write_it(&mut a, kind, &d, &mut w).is_ok();
            f = w.flush().is_ok();
        }
        let got = s.got;
        if r && f {
            sx::reach("written");
            let want = expected(kind, &p, &d, &got);
            sx::check(want.map_or(false, |w| sx::eq(&w, &got)), "success means the whole message reached the writer");
        } else {
            sx::reach("broken");
            sx::check(got.len() <= room, "setup: the sink keeps its limit");
            if kind == 1 || kind == 2 {
                let want = expected(kind, &p, &d, &got).unwrap_or_default();
                sx::check(want.len() > got.len() && sx::eq(&want[..got.len()], &got), "a broken writer only saw a part of the message");
            }
            if !r && kind >= 2 {
                // a user message that may have been cut ends the connection
                let mut w = BufWriter::new(Vec::new());
                let again = write_it(&mut a, kind, &d, &mut w).is_ok();
                sx::check(!again && w.into_inner().ok().unwrap().is_empty(), "a failed write ends the connection");
            }
        }
    }
    /// P12: a buffer as big as the message, or nearly, fresh or partly filled
    fn p12_exact() {
        let kind = sx::choose(4);
        let max = [1000usize, 50, 1][sx::choose(3) as usize];
        let total = [150usize, 114, 26 + 4 + 32 + 16, 26 + 9 + 32 + 16][kind as usize];
        let cap = total - 18 + sx::choose(37) as usize;
        let before = [0usize, 1, 16, 32, 64][sx::choose(5) as usize];
        let (mut a, p) = about_to(kind);
        let mut s = sink(max, 1 << 30, 0, false);
        let ok;
        {
            let mut w = BufWriter::with_capacity(cap, &mut s);
            ok = w.write_all(&[0xaa; 64][..before]).is_ok() && write_it(&mut a, kind, b"data", &mut w).is_ok() && w.flush().is_ok();
        }
        sx::check(ok, "a slow writer is no error");
        let got = s.got;
        sx::check(got.len() >= before && got[..before] == [0xaa; 64][..before], "what was in the buffer comes first");
        if got.len() < before { return }
        let want = expected(kind, &p, b"data", &got[before..]);
        sx::check(want.map_or(false, |w| sx::eq(&w, &got[before..])), "the whole message reaches the writer");
        sx::reach("written");
    }
    /// P12: several messages through the same writer come out complete and in order
    fn p12_queue() {
        let cap = CAPS[sx::choose(6) as usize];
        let max = [1usize, 64, 1000][sx::choose(3) as usize];
        let n = 3;
        let (mut a, p) = negotiated();
        let mut s = sink(max, 1 << 30, 0, false);
        let mut want = vec![];
        let mut ok = true;
        {
            let mut w = BufWriter::with_capacity(cap, &mut s);
            for i in 0..n {
                let d = sx::bytes(3, ["d0", "d1", "d2"][i]);
                ok &= a.write_message(&d, &mut w).is_ok();
                want.extend_from_slice(&p.user_at(i as u64, &d));
            }
            ok &= w.flush().is_ok();
        }
        sx::check(ok && sx::eq(&want, &s.got), "messages reach the writer whole and in order");
        sx::reach("written");
    }
}
