//! P13 clones and configuration, P14 compression, P15 formats, P16 wiping, P17 secrecy.
use crate::p_wire::inflate;
use crate::peer::{self, Spec};
use crate::props::*;
use crate::sx;
use flate2::Compression;
use pkstl::*;
use serde::{Deserialize, Serialize};
use std::mem::MaybeUninit;

const FORMATS: [(MessageFormat, u8); 3] = [(MessageFormat::Utf8Json, 2), (MessageFormat::Cbor, 3), (MessageFormat::Bincode, 4)];

pub fn with_format(f: MessageFormat) -> SecureLayerConfig {
    SecureLayerConfig { message_format: f, ..cfg() }
}
/// the clear data of a sealed user message
fn content(p: &Spec, m: &[u8]) -> Vec<u8> {
    let c = peer::open(p.key(), m).unwrap_or_default();
    if c.len() < 58 { return vec![] }
    c[26..c.len() - 32].to_vec()
}
/// which format a layer writes, seen from the peer
fn format_of(a: &mut SecureLayer, p: &Spec) -> Vec<u8> {
    match emit(|w| a.write(&5u8, w)) {
        Ok(m) => { let d = inflate(&content(p, &m)).unwrap_or_default(); if d.len() < 4 { vec![] } else { d[..4].to_vec() } }
        Err(_) => vec![],
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Rec { a: u8, b: Option<u8>, c: Vec<u8> }
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
enum Cmd { Stop, Go(u8), Say { text: String } }

/// write with one layer, read with another whose own format differs
fn round<M: Serialize + serde::de::DeserializeOwned + std::fmt::Debug + PartialEq>(f: usize, other: usize, m: &M) {
    let (fmt, code) = FORMATS[f];
    let (mut a, pa, _) = complete_with(4, with_format(fmt));
    let (mut b, pb, _) = complete_with(4, with_format(if other == 3 { MessageFormat::RawBinary } else { FORMATS[other].0 }));
    let w = emit(|w| a.write(m, w));
    sx::check(w.is_ok(), "a serializable value can be written");
    let z = content(&pa, &w.unwrap_or_default());
    let d = inflate(&z).unwrap_or_default();
    sx::check(d.len() >= 4 && d[..4] == [0, 0, 0, code], "the announced format is the configured one");
    // the peer forwards the very same data
    match b.read::<M>(&pb.user_at(0, &z)) {
        Ok(v) => {
            sx::check(v.len() == 1, "one message, one event");
            for x in v {
                match x {
                    IncomingMessage::Message { data: Some(x) } => { sx::check(x == *m, "a value is read back exactly, whatever the reader's own format"); sx::reach("read back"); }
                    _ => sx::check(false, "a user message is reported as such"),
                }
            }
        }
        Err(_) => sx::check(false, "a written value can be read"),
    }
}

/// the same value through the formats' own libraries: any other implementation can read and write it
fn standard<M: Serialize + serde::de::DeserializeOwned + std::fmt::Debug + PartialEq>(f: usize, m: &M) {
    let (fmt, code) = FORMATS[f];
    let (mut a, p, _) = complete_with(4, with_format(fmt));
    let w = emit(|w| a.write(m, w)).unwrap_or_default();
    let d = inflate(&content(&p, &w)).unwrap_or_default();
    let ok = d.len() >= 4 && d[..4] == [0, 0, 0, code] && match f {
        0 => serde_json::from_slice::<M>(&d[4..]).map_or(false, |x| x == *m),
        1 => serde_cbor::from_slice::<M>(&d[4..]).map_or(false, |x| x == *m),
        _ => bincode::deserialize::<M>(&d[4..]).map_or(false, |x| x == *m),
    };
    sx::check(ok, "what is written is the announced format");
    // for a reader that does not know the type, too
    let ok = match f {
        0 => serde_json::from_slice::<serde_json::Value>(&d[4.min(d.len())..]).ok() == serde_json::to_value(m).ok(),
        1 => serde_cbor::from_slice::<serde_cbor::Value>(&d[4.min(d.len())..]).ok() == serde_cbor::value::to_value(m).ok(),
        _ => bincode::serialize(m).ok().map_or(false, |x| d.len() >= 4 && sx::eq(&x, &d[4..])),
    };
    sx::check(ok, "what is written is the announced format, for any reader of it");
    let mut v = vec![0, 0, 0, code];
    v.extend_from_slice(&match f {
        0 => serde_json::to_vec(m).unwrap_or_default(),
        1 => serde_cbor::to_vec(m).unwrap_or_default(),
        _ => bincode::serialize(m).unwrap_or_default(),
    });
    let r = a.read::<M>(&p.user_at(0, &stored(&v)));
    let ok = match r { Ok(mut v) => match v.pop() { Some(IncomingMessage::Message { data: Some(x) }) => x == *m, _ => false }, Err(_) => false };
    sx::check(ok, "what is read is the announced format");
    sx::reach("done");
}

/// a real pair of complete layers, negotiated
fn pair(ca: SecureLayerConfig, cb: SecureLayerConfig) -> (SecureLayer, SecureLayer) {
    let mut a = SecureLayer::create(ca, Some(Seed32::new([7; 32])), None).ok().unwrap();
    let mut b = SecureLayer::create(cb, Some(Seed32::new([8; 32])), None).ok().unwrap();
    let m = emit(|w| a.write_connect_msg_bin(None, w)).ok().unwrap();
    let k = emit(|w| b.write_connect_msg_bin(None, w)).ok().unwrap();
    let ok = a.read_bin(&k).is_ok() & b.read_bin(&m).is_ok();
    sx::check(ok, "setup: CONNECT messages accepted");
    let m = emit(|w| a.write_ack_msg_bin(None, w)).unwrap_or_default();
    let k = emit(|w| b.write_ack_msg_bin(None, w)).unwrap_or_default();
    let ok = a.read_bin(&k).is_ok() & b.read_bin(&m).is_ok();
    sx::check(ok, "setup: ACK messages accepted");
    (a, b)
}
fn user_data(v: Result<Vec<IncomingBinaryMessage>>) -> Option<Vec<u8>> {
    match v {
        Ok(mut v) => {
            if v.len() != 1 { return None }
            match v.remove(0) { IncomingBinaryMessage::Message { data } => Some(data.unwrap_or_default()), _ => None }
        }
        Err(_) => None,
    }
}
fn level(k: u64) -> Compression {
    match k { 0 => Compression::none(), 1 => Compression::fast(), 2 => Compression::new(6), _ => Compression::best() }
}

/// does this memory hold 8 consecutive bytes of the secret?
fn holds(p: *const u8, n: usize, secret: &[u8]) -> bool {
    let mut hit = false;
    for k in 0..=secret.len() - 8 {
        let mut w = [0u8; 8];
        w.copy_from_slice(&secret[k..k + 8]);
        let w = u64::from_ne_bytes(w);
        for o in 0..(n + 1).saturating_sub(8) {
            hit |= unsafe { std::ptr::read_volatile(p.add(o) as *const [u8; 8]) } == w.to_ne_bytes();
        }
    }
    hit
}
/// drop in place, then look at what is left
fn gone<T>(x: T, secret: &[u8]) -> bool {
    let mut m: Box<MaybeUninit<T>> = Box::new(MaybeUninit::uninit());
    unsafe {
        m.as_mut_ptr().write(x);
        std::ptr::drop_in_place(m.as_mut_ptr());
        let r = !holds(m.as_ptr() as *const u8, std::mem::size_of::<T>(), secret);
        // leave nothing behind that the allocator hook could find
        std::ptr::write_bytes(m.as_mut_ptr() as *mut u8, 0, std::mem::size_of::<T>());
        r
    }
}

entries! {
    /// P13: when the configuration may change, and that it takes effect
    fn p13_config() {
        let when = sx::choose(6);
        let f = FORMATS[sx::choose(3) as usize];
        let old = with_format(if f.1 == 2 { MessageFormat::Cbor } else { MessageFormat::Utf8Json });
        let oldcode = if f.1 == 2 { 3 } else { 2 };
        let (mut a, p, _) = if when == 0 {
            // before anything else
            let mut p = Spec::new(9);
            let mut a = SecureLayer::create(old, Some(Seed32::new([7; 32])), None).ok().unwrap();
            sx::check(a.change_config(with_format(f.0)).is_ok(), "the configuration can change before a clone exists");
            let c = emit(|w| a.write_connect_msg_bin(None, w)).ok().unwrap();
            let e = epk_of(&c);
            p.agree(&e);
            let ok = a.read_bin(&p.connect(b"")).is_ok() && emit(|w| a.write_ack_msg_bin(None, w)).is_ok() && a.read_bin(&p.ack(&e, b"")).is_ok();
            sx::check(ok, "setup: negotiation succeeds");
            (a, p, e)
        } else if when < 4 {
            let (mut a, p, e) = complete_with(when, old);
            sx::check(a.change_config(with_format(f.0)).is_ok(), "the configuration can change before a clone exists");
            let mut ok = true;
            if when < 2 { ok &= a.read_bin(&p.connect(b"")).is_ok(); }
            if when < 3 { ok &= emit(|w| a.write_ack_msg_bin(None, w)).is_ok(); }
            ok &= a.read_bin(&p.ack(&e, b"")).is_ok();
            sx::check(ok, "setup: negotiation succeeds");
            (a, p, e)
        } else {
            let (mut a, p, e) = complete_with(4, old);
            if when == 4 { sx::check(a.change_config(with_format(f.0)).is_ok(), "the configuration can change before a clone exists"); }
            (a, p, e)
        };
        if when < 5 {
            sx::check(format_of(&mut a, &p) == [0, 0, 0, f.1], "a changed configuration takes effect");
            sx::reach("changed");
        } else {
            let c = a.try_clone();
            sx::check(c.is_ok(), "setup: a negotiated layer can be cloned");
            let mut c = match c { Ok(c) => c, Err(_) => return };
            sx::check(a.change_config(with_format(f.0)).is_err(), "the configuration cannot change once a clone exists");
            sx::check(c.change_config(with_format(f.0)).is_err(), "a clone's configuration cannot change");
            let g = c.try_clone();
            sx::check(match g { Ok(mut g) => g.change_config(with_format(f.0)).is_err() && format_of(&mut g, &p) == [0, 0, 0, oldcode], Err(_) => false }, "the clone of a clone is no different");
            sx::check(format_of(&mut a, &p) == [0, 0, 0, oldcode], "a refused change has no effect");
            sx::check(format_of(&mut c, &p) == [0, 0, 0, oldcode], "a clone has the configuration of its origin");
            drop(c);
            sx::check(a.change_config(with_format(f.0)).is_err(), "the configuration cannot change once a clone existed");
            sx::reach("frozen");
        }
    }
    /// P13: every part of the configuration counts, the last one given, in every kind of message and in clones
    fn p13_effect() {
        let mins = ["min0", "min1", "min2"];
        let mut confs = vec![];
        let n = 2 + sx::choose(2) as usize;
        for i in 0..n { confs.push((level(sx::choose(2)), sx::u64v(mins[i]) as usize, FORMATS[(i + sx::choose(2) as usize) % 3])); }
        let conf = |i: usize| SecureLayerConfig { compression: confs[i].0, compression_min_size: confs[i].1, message_format: (confs[i].2).0, ..cfg() };
        let last = confs[n - 1];
        let big = vec![b'z'; 200];
        let when = sx::choose(3);
        let mut p = Spec::new(9);
        let mut a = SecureLayer::create(conf(0), Some(Seed32::new([7; 32])), None).ok().unwrap();
        let change = |a: &mut SecureLayer| for i in 1..n { sx::check(a.change_config(conf(i)).is_ok(), "the configuration can change before a clone exists"); };
        let small = last.0 != Compression::none() && 200 >= last.1;
        let right = |z: &[u8]| inflate(z).map_or(false, |x| x == big) && (z.len() < 100) == small;
        if when == 0 { change(&mut a); }
        let c = emit(|w| a.write_connect_msg_bin(Some(&big), w)).unwrap_or_default();
        sx::check(c.len() > 150, "CONNECT can be written");
        if c.len() < 150 { return }
        if when == 0 { sx::check(right(&c[86..c.len() - 64]), "the configuration in force is the last one given"); }
        let epk = epk_of(&c);
        p.agree(&epk);
        sx::check(a.read_bin(&p.connect(b"")).is_ok(), "setup: valid CONNECT accepted");
        if when == 1 { change(&mut a); }
        let m = emit(|w| a.write_ack_msg_bin(Some(&big), w)).unwrap_or_default();
        sx::check(m.len() > 114, "ACK can be written");
        if m.len() < 114 { return }
        if when <= 1 { sx::check(right(&m[50..m.len() - 64]), "the configuration in force is the last one given"); }
        sx::check(a.read_bin(&p.ack(&epk, b"")).is_ok(), "setup: valid ACK accepted");
        if when == 2 { change(&mut a); }
        if sx::choose(2) == 1 { match a.try_clone() { Ok(c) => a = c, Err(_) => { sx::check(false, "setup: a negotiated layer can be cloned"); return } } }
        let m = emit(|w| a.write_bin(&big, w)).unwrap_or_default();
        sx::check(right(&content(&p, &m)), "the configuration in force is the last one given");
        sx::check(format_of(&mut a, &p) == [0, 0, 0, (last.2).1], "the configuration in force is the last one given");
        sx::reach("done");
    }
    /// P13: changing the configuration changes nothing else: numbering, what was received, negotiation
    fn p13_during() {
        let conf = |k: u64| SecureLayerConfig { message_format: FORMATS[(k % 3) as usize].0, compression: level(k), compression_min_size: [0, 8_192, 1, usize::max_value()][k as usize], ..cfg() };
        let mut p = Spec::new(9);
        let mut a = SecureLayer::create(conf(0), Some(Seed32::new([7; 32])), None).ok().unwrap();
        let when = sx::choose(9);
        let to = sx::choose(4);
        let now = |k: u64, a: &mut SecureLayer| if k == when { sx::check(a.change_config(conf(to)).is_ok(), "the configuration can change before a clone exists"); };
        now(0, &mut a);
        let c = emit(|w| a.write_connect_msg_bin(None, w)).unwrap_or_default();
        sx::check(c.len() > 50, "setup: CONNECT can be written");
        let epk = epk_of(&c);
        p.agree(&epk);
        now(1, &mut a);
        // the ACK may come first
        let early = sx::choose(2) == 1;
        if early { sx::check(a.read_bin(&p.ack(&epk, b"")).map(|v| v.is_empty()).unwrap_or(false), "an early ACK is kept"); }
        now(2, &mut a);
        sx::check(a.read_bin(&p.connect(b"")).map(|v| v.len()).unwrap_or(0) == if early { 2 } else { 1 }, "CONNECT is accepted, with the early ACK");
        now(3, &mut a);
        sx::check(emit(|w| a.write_ack_msg_bin(None, w)).is_ok(), "ACK can be written");
        now(4, &mut a);
        if !early {
            sx::check(a.read_bin(&p.user_at(1, &stored(b"one"))).map(|v| v.is_empty()).unwrap_or(false), "user messages that overtake the ACK are kept");
            now(5, &mut a);
            sx::check(a.read_bin(&p.ack(&epk, b"")).map(|v| v.len()).unwrap_or(0) == 2, "ACK is accepted, with the early message");
        } else {
            sx::check(user_data(a.read_bin(&p.user_at(1, &stored(b"one")))).map_or(false, |x| x == b"one"), "user messages are delivered");
            now(5, &mut a);
        }
        let mut n = 0u64;
        let mut write = |a: &mut SecureLayer, p: &Spec| {
            let m = emit(|w| a.write_bin(b"data", w)).unwrap_or_default();
            let c = peer::open(p.key(), &m).unwrap_or_default();
            sx::check(c.len() > 26 && c[18..26] == n.to_be_bytes(), "user messages are numbered on, whatever the configuration");
            n += 1;
        };
        write(&mut a, &p);
        now(6, &mut a);
        write(&mut a, &p);
        sx::check(a.read_bin(&p.user_at(1, &stored(b"one"))).is_err(), "a user message is delivered once");
        now(7, &mut a);
        sx::check(user_data(a.read_bin(&p.user_at(0, &stored(b"zero")))).map_or(false, |x| x == b"zero"), "user messages are delivered");
        now(8, &mut a);
        let x = sx::u64v("x");
        sx::check(a.read_bin(&p.user_at(x, &stored(b"any"))).is_ok() == (x > 1), "new numbers are accepted, old ones are refused");
        write(&mut a, &p);
        sx::reach("done");
    }
    /// P13: cloning takes nothing from the original: who the peer is, what it waits for
    fn p13_original() {
        let (mut a, p) = negotiated();
        let when = sx::choose(3);
        if when == 1 { sx::check(out(a.read(&p.user_at(1, b"one"))).is_user(), "user messages are delivered"); }
        let mut c = match a.try_clone() { Ok(c) => c, Err(_) => { sx::check(false, "setup: a negotiated layer can be cloned"); return } };
        if when == 2 { match c.try_clone() { Ok(x) => c = x, Err(_) => sx::check(false, "a clone can be cloned") } }
        // somebody else's CONNECT, genuine bytes, or a bad signature, or a bad ACK
        let e = peer::keypair(66);
        let m = match sx::choose(4) {
            0 => peer::signed(peer::connect_clear(&[9; 32], &[0; 4], &peer::pk(&e), b""), &e),
            1 => { let mut m = peer::connect_clear(&[9; 32], &[0; 4], &peer::any_identity("pk"), b""); m.extend_from_slice(&sx::bytes(64, "sig")); m }
            2 => { let mut m = peer::connect_clear(&p.epk, &[0; 4], &p.pk(), b""); m.extend_from_slice(&sx::bytes(64, "sig")); sx::assume(m != p.connect(b"")); m }
            _ => { let ch = sx::bytes(32, "challenge"); let epk = epk_inside(&a).unwrap_or_default(); sx::assume(ch != peer::sha256(&epk)); let mut m = peer::header(34, peer::T_ACK); m.extend_from_slice(&ch); peer::signed(m, &p.kp) }
        };
        sx::check(out(a.read(&m)).refused(), "a foreign negotiation message is refused");
        sx::check(out(a.read(&p.user_at(0, b"zero"))) == Out::User(b"zero".to_vec()), "a refused message changes nothing for the original, with or without a clone");
        let w = user_of(&mut a, b"x");
        sx::check(w.map_or(false, |w| sx::eq(&w, &p.user_at(0, b"x"))), "the original writes on");
        sx::check(out(c.read(&p.user_at(0, b"zero"))) == Out::User(b"zero".to_vec()), "the clone goes on");
        sx::reach("done");
    }
    /// P13: a clone exists only after the negotiation, and continues the same session
    fn p13_clone() {
        let st = sx::choose(9);
        let exp = sx::choose(2) == 1;
        sx::assume(!(exp && (st == 8)));
        let (mut a, p) = minimal_in(st, exp);
        let c = a.try_clone();
        sx::check(c.is_ok() == (st == 4), "cloning is possible exactly when the negotiation succeeded");
        if let Ok(mut c) = c {
            sx::reach("cloned");
            let d = sx::bytes(2, "d");
            let x = sx::u64v("x");
            sx::assume(x != u64::max_value());
            let w = user_of(&mut c, &d);
            sx::check(w.map(|w| sx::eq(&w, &p.user_at(0, &d))).unwrap_or(false), "a clone writes in the same session");
            sx::check(out(c.read(&p.user_at(x, &d))) == Out::User(d.clone()), "a clone reads in the same session");
            sx::check(out(c.read(&p.user_at(x, &d))).refused(), "a clone refuses repetitions");
            // the origin is untouched by what the clone did
            sx::check(out(a.read(&p.user_at(x, &d))) == Out::User(d.clone()), "the origin is not disturbed by its clone");
            let w = user_of(&mut a, &d);
            sx::check(w.map(|w| sx::eq(&w, &p.user_at(0, &d))).unwrap_or(false), "the origin is not disturbed by its clone");
            // neither negotiates again
            sx::check(c.create_connect_message(&p.pk(), None).is_err() && c.create_ack_message(None).is_err(), "a clone does not negotiate");
        } else {
            sx::reach("refused");
        }
    }
    /// P13: numbering goes on in the clone: what was sent and received before counts
    fn p13_numbers() {
        let (mut a, p) = negotiated();
        let sent = sx::choose(3);
        for i in 0..sent { let w = user_of(&mut a, b"s"); sx::check(w.map(|w| sx::eq(&w, &p.user_at(i, b"s"))).unwrap_or(false), "user messages are numbered in order"); }
        let x = sx::u64v("x");
        let y = sx::u64v("y");
        sx::assume(x != u64::max_value() && y != u64::max_value());
        sx::check(out(a.read(&p.user_at(x, b"r"))).is_user(), "a first message is delivered");
        let mut c = match a.try_clone() { Ok(c) => c, Err(_) => { sx::check(false, "setup: a negotiated layer can be cloned"); return } };
        let who = sx::choose(2);
        let l = if who == 0 { &mut c } else { &mut a };
        sx::check(user_of(l, b"t").map(|w| sx::eq(&w, &p.user_at(sent, b"t"))).unwrap_or(false), "a clone goes on numbering where its origin was");
        sx::check(out(l.read(&p.user_at(y, b"r"))).is_user() == (x != y), "a clone knows what was delivered before");
        sx::reach(if x == y { "repeated" } else { "new" });
    }
    /// P13: complete layers: the clone reads and writes in the same session, with the same settings
    fn p13_complete() {
        let f = FORMATS[sx::choose(3) as usize];
        let conf = SecureLayerConfig { compression: level(1), compression_min_size: 50, ..with_format(f.0) };
        let (mut a, mut p, _) = complete_with(4, conf);
        let sent = sx::choose(3);
        for i in 0..sent {
            let m = emit(|w| a.write_bin(b"s", w)).unwrap_or_default();
            sx::check(sx::eq(&m, &p.user_at(i, &content(&p, &m))) && m.len() > 26, "user messages are numbered in order");
        }
        let got = sx::choose(3);
        for _ in 0..got { sx::check(user_data(a.read_bin(&p.user(&stored(b"r")))).map_or(false, |x| x == b"r"), "setup: genuine user message delivered"); }
        let mut c = match a.try_clone() { Ok(c) => c, Err(_) => { sx::check(false, "setup: a negotiated layer can be cloned"); return } };
        if sx::choose(2) == 1 { c = match c.try_clone() { Ok(c) => c, Err(_) => { sx::check(false, "a clone can be cloned"); return } }; }
        let who = sx::choose(2);
        let l = if who == 0 { &mut a } else { &mut c };
        let big = vec![b'z'; 200];
        let m = emit(|w| l.write_bin(&big, w)).unwrap_or_default();
        let z = content(&p, &m);
        sx::check(sx::eq(&m, &p.user_at(sent, &z)) && z.len() < 100 && inflate(&z).map_or(false, |x| x == big), "a clone writes in the same session, with the same settings");
        sx::check(format_of(l, &p) == [0, 0, 0, f.1], "a clone has the configuration of its origin");
        for i in 0..got { sx::check(l.read_bin(&p.user_at(i, &stored(b"r"))).is_err(), "a clone knows what was delivered before"); }
        sx::check(user_data(l.read_bin(&p.user_at(got, &stored(b"n")))).map_or(false, |x| x == b"n"), "a clone reads in the same session");
        let v = l.read_bin(&p.connect(b""));
        sx::check(v.is_err(), "a clone takes no negotiation message");
        let mut w = std::io::BufWriter::new(Vec::new());
        let r = l.write_connect_msg_bin(None, &mut w).is_err() & l.write_ack_msg_bin(None, &mut w).is_err();
        sx::check(r && w.into_inner().ok().unwrap().is_empty(), "neither negotiates again");
        let o = if who == 0 { &mut c } else { &mut a };
        sx::check(user_data(o.read_bin(&p.user_at(got, &stored(b"n")))).map_or(false, |x| x == b"n"), "the other one is not disturbed");
        sx::reach("done");
    }
    /// P13: failure of one does not touch the other
    fn p13_apart() {
        let (mut a, p) = negotiated();
        let mut c = match a.try_clone() { Ok(c) => c, Err(_) => { sx::check(false, "setup: a negotiated layer can be cloned"); return } };
        let who = sx::choose(2);
        let (l, o) = if who == 0 { (&mut a, &mut c) } else { (&mut c, &mut a) };
        let g = sx::bytes(20, "junk");
        sx::assume(!g.starts_with(&peer::MAGIC));
        sx::check(l.read(&g).is_err(), "undecodable bytes are refused");
        sx::check(user_of(l, b"x").is_err(), "a failed layer writes nothing");
        sx::check(out(o.read(&p.user_at(0, b"d"))) == Out::User(b"d".to_vec()) && user_of(o, b"x").is_ok(), "a clone and its origin fail separately");
        sx::reach("apart");
    }
    /// P13: negotiation messages, genuine or not, do nothing to a clone
    fn p13_ack() {
        let mut p = Spec::new(9);
        let mut a = minimal(None);
        let kp = peer::keypair(7);
        let c = a.create_connect_message(&peer::pk(&kp), None).ok().unwrap();
        let epk = epk_of(&c);
        p.agree(&epk);
        let ok = a.read(&p.connect(b"")).is_ok() && a.create_ack_message(None).is_ok() && a.read(&p.ack(&epk, b"")).is_ok();
        sx::check(ok, "setup: negotiation succeeds");
        let mut c = match a.try_clone() { Ok(c) => c, Err(_) => { sx::check(false, "setup: a negotiated layer can be cloned"); return } };
        let k = sx::choose(4);
        let m = match k {
            0 => p.ack(&epk, b"again"),
            1 => p.connect(b"again"),
            2 => { let mut m = peer::ack_clear(&epk, b""); m.extend_from_slice(&sx::bytes(64, "sig")); m }
            _ => { let e = peer::keypair(66); peer::signed(peer::connect_clear(&sx::bytes(32, "epk"), &[0; 4], &peer::pk(&e), b""), &e) }
        };
        let o = out(c.read(&m));
        sx::check(o.refused() || o.kept(), "a clone takes no negotiation message");
        let o = c.take_ack_msg_recv_too_early();
        sx::check(match out(o) { Out::Refused | Out::Kept => true, _ => false }, "a clone takes no negotiation message");
        if let Ok(w) = user_of(&mut c, b"x") { sx::check(sx::eq(&w, &p.user_at(0, b"x")), "a clone keeps the session key"); }
        sx::reach("done");
    }

    /// P14: any small content, any level, any threshold: what the peer gets is what was given
    fn p14_small() {
        let lv = level(sx::choose(4));
        let n = sx::choose(if lv == Compression::none() && sx::thorough() { 3 } else { 2 }) as usize;
        let min = sx::u64v("min") as usize;
        let d = sx::bytes(n, "data");
        let conf = SecureLayerConfig { compression: lv, compression_min_size: min, ..cfg() };
        let (mut a, p, _) = complete_with(4, conf);
        let m = emit(|w| a.write_bin(&d, w));
        sx::check(m.is_ok(), "user messages can be written");
        let z = content(&p, &m.unwrap_or_default());
        sx::check(inflate(&z).map_or(false, |x| sx::eq(&x, &d)), "the content is the DEFLATE of the data");
        sx::check(user_data(a.read_bin(&p.user_at(0, &z))).map_or(false, |x| sx::eq(&x, &d)), "the content comes back unchanged");
        sx::reach(if n < min { "below" } else { "compressed" });
    }
    /// P14: contents of many sizes and kinds, in user, CONNECT and ACK messages
    fn p14_sizes() {
        let lv = level(sx::choose(4));
        let n = [0usize, 1, 3, 100, 1_000, 8_191, 8_192, 8_193, 32_768, 70_000, 32_767, 65_535, 65_536, 140_000][sx::choose(if sx::thorough() { 14 } else { 10 }) as usize];
        let kind = sx::choose(3);
        let text = sx::choose(3);
        let d: Vec<u8> = match text {
            2 => vec![0; n],
            // repetitive
            0 => (0..n).map(|i| (i / 64) as u8).collect(),
            // hard to compress
            _ => { let mut s = 12345u32; (0..n).map(|_| { s = s.wrapping_mul(1_103_515_245).wrapping_add(12_345); (s >> 23) as u8 }).collect() }
        };
        let min = sx::u64v("min") as usize;
        let conf = SecureLayerConfig { compression: lv, compression_min_size: min, ..cfg() };
        let (z, got);
        match kind {
            0 => {
                let (mut a, p, _) = complete_with(4, conf);
                let m = emit(|w| a.write_bin(&d, w)).unwrap_or_default();
                z = content(&p, &m);
                got = user_data(a.read_bin(&p.user_at(0, &z)));
            }
            1 => {
                let mut a = SecureLayer::create(conf, Some(Seed32::new([7; 32])), None).ok().unwrap();
                let m = emit(|w| a.write_connect_msg_bin(Some(&d), w)).unwrap_or_default();
                z = if m.len() < 150 { vec![] } else { m[86..m.len() - 64].to_vec() };
                let p = Spec::new(9);
                got = match a.read_bin(&p.connect(&z)) { Ok(mut v) => if v.len() == 1 { match v.remove(0) { IncomingBinaryMessage::Connect { custom_data, .. } => Some(custom_data.unwrap_or_default()), _ => None } } else { None }, Err(_) => None };
            }
            _ => {
                let (mut a, p, e) = complete_with(2, conf);
                let m = emit(|w| a.write_ack_msg_bin(Some(&d), w)).unwrap_or_default();
                z = if m.len() < 114 { vec![] } else { m[50..m.len() - 64].to_vec() };
                got = match a.read_bin(&p.ack(&e, &z)) { Ok(mut v) => if v.len() == 1 { match v.remove(0) { IncomingBinaryMessage::Ack { custom_data } => Some(custom_data.unwrap_or_default()), _ => None } } else { None }, Err(_) => None };
            }
        }
        sx::check(inflate(&z).map_or(false, |x| x == d), "the content is the DEFLATE of the data");
        sx::check(got.map_or(false, |x| x == d), "the content comes back unchanged");
        if n < min {
            sx::check(z.len() >= n, "data below the configured size is not compressed");
            sx::reach("below");
        } else if lv != Compression::none() && text == 0 && n >= 1_000 {
            sx::check(z.len() < n / 2, "data from the configured size on is compressed");
            sx::reach("compressed");
        }
    }
    /// P14: the peer may encode as it likes: stored blocks, several blocks, fixed codes
    fn p14_foreign() {
        let (mut a, p, _) = complete_at(4);
        let kind = sx::choose(3);
        let n = sx::choose(4) as usize;
        let d = sx::bytes(n, "data");
        let z = match kind {
            0 => stored(&d),
            1 => {
                // one block per byte
                let mut v = vec![];
                for (i, b) in d.iter().enumerate() { let mut s = stored(&[*b]); s[0] = if i + 1 == n { 1 } else { 0 }; v.extend_from_slice(&s); }
                if n == 0 { v = stored(&[]); }
                v
            }
            _ => { let mut v = stored(&d); v[0] = 0; v.extend_from_slice(&[3, 0]); v }
        };
        sx::check(user_data(a.read_bin(&p.user_at(0, &z))).map_or(false, |x| sx::eq(&x, &d)), "any DEFLATE encoding of the data is read");
        sx::reach("done");
    }
    /// P14: very compressible data comes back whole
    fn p14_expand() {
        let n = [1_000usize, 20_000, 1_100_000, 100_000, 4_300_000][sx::choose(if sx::thorough() { 5 } else { 3 }) as usize];
        let conf = SecureLayerConfig { compression: level(if n > 1_000_000 { 2 } else { 1 + sx::choose(3) }), compression_min_size: 0, ..cfg() };
        let mut d = vec![0u8; n];
        d[n - 1] = 1;
        let (mut a, p, _) = complete_with(4, conf);
        let m = emit(|w| a.write_bin(&d, w)).unwrap_or_default();
        let z = content(&p, &m);
        sx::check(!z.is_empty() && z.len() < n / 20, "very compressible data is compressed");
        sx::check(user_data(a.read_bin(&p.user_at(0, &z))).map_or(false, |x| x == d), "the content comes back unchanged");
        sx::reach("done");
    }
    /// P14: between two real layers with different settings
    fn p14_pair() {
        let la = level(sx::choose(4));
        let lb = level(sx::choose(4));
        let (mut a, mut b) = pair(SecureLayerConfig { compression: la, compression_min_size: 0, ..cfg() }, SecureLayerConfig { compression: lb, compression_min_size: 10, ..cfg() });
        let c = sx::u8v("c");
        let d = [vec![c], vec![7u8; 500], vec![]];
        for x in &d {
            let m = emit(|w| a.write_bin(x, w)).unwrap_or_default();
            sx::check(user_data(b.read_bin(&m)).map_or(false, |y| sx::eq(&y, x)), "the content comes back unchanged");
            let m = emit(|w| b.write_bin(x, w)).unwrap_or_default();
            sx::check(user_data(a.read_bin(&m)).map_or(false, |y| sx::eq(&y, x)), "the content comes back unchanged");
        }
        sx::reach("done");
    }

    /// P15: one-byte values
    fn p15_u8() { let f = sx::choose(3) as usize; let o = sx::choose(4) as usize; let x = sx::u8v("x"); round(f, o, &x); }
    /// P15: structured values
    fn p15_rec() {
        let f = sx::choose(3) as usize;
        let o = sx::choose(4) as usize;
        let x = sx::u8v("x");
        let r = match sx::choose(3) {
            0 => Rec { a: x, b: None, c: vec![] },
            1 => Rec { a: 3, b: Some(x), c: vec![1, 2, 3] },
            _ => Rec { a: 0, b: Some(0), c: vec![x] },
        };
        round(f, o, &r);
    }
    /// P15: text, enumerations, numbers of every size
    fn p15_more() {
        let f = sx::choose(3) as usize;
        let o = sx::choose(4) as usize;
        match sx::choose(9) {
            0 => round(f, o, &"héllo \"quoted\" \\ \n \u{1F600}".to_string()),
            1 => round(f, o, &String::new()),
            2 => round(f, o, &Cmd::Stop),
            3 => round(f, o, &Cmd::Go(9)),
            4 => round(f, o, &Cmd::Say { text: "x".repeat(if sx::thorough() { 9_000 } else { 900 }) }),
            5 => round(f, o, &(u64::max_value(), i64::min_value(), 65_535u16, true)),
            6 => round(f, o, &vec![Some(1u32), None, Some(u32::max_value())]),
            7 => round(f, o, &vec![0u8; if sx::thorough() { 5_000 } else { 1_500 }]),
            _ => round(f, o, &vec![("k".to_string(), 1i8), ("v".to_string(), -1)]),
        }
    }
    /// P15: the formats are the standard ones
    fn p15_standard() {
        let f = sx::choose(3) as usize;
        match sx::choose(6) {
            0 => standard(f, &"h\u{e9}llo \"quoted\" \\ \n".to_string()),
            1 => standard(f, &Cmd::Say { text: "x".repeat(300) }),
            2 => standard(f, &vec![Cmd::Stop, Cmd::Go(7)]),
            3 => standard(f, &(u64::max_value(), i64::min_value(), 258u16, true, -2i32)),
            4 => standard(f, &Rec { a: sx::u8v("a"), b: None, c: vec![1, 2, 3] }),
            _ => standard(f, &vec![Some(300u32), None, Some(u32::max_value())]),
        }
    }
    /// P15: big values, around the sizes of buffers
    fn p15_big() {
        let f = sx::choose(3) as usize;
        let o = (f + 1) % 4;
        let n = [1_019usize, 1_100, 4_090, 8_170, 8_188, 8_300, 20_000, 66_000, 140_000][sx::choose(if sx::thorough() { 9 } else { 8 }) as usize];
        match sx::choose(3) {
            0 => { let mut v = vec![7u8; n]; if f == 2 && n == 1_100 { v[n / 2] = sx::u8v("x"); } round(f, o, &v) }
            1 => { let mut s = "a".repeat(n - 1); s.push('\u{e9}'); round(f, o, &s) }
            _ => round(f, o, &(vec![Some(1u64); n / 8], "tail".to_string())),
        }
    }
    /// P15: every value of two bytes, every character, every float: where the formats' own encodings branch
    fn p15_scalar() {
        let f = sx::choose(3) as usize;
        let o = (f + 1) % 4;
        match sx::choose(5) {
            0 => { let b = sx::bytes(1, "b"); round(f, o, &(b[0] as i8)) }
            1 => { let b = sx::bytes(1, "b"); round(f, o, &(b[0] & 1 == 1)) }
            2 => { let b = sx::bytes(1, "b"); round(f, o, &if b[0] & 1 == 1 { Some(b[0]) } else { None }) }
            3 => { sx::assume(f != 0); let k = sx::choose(8); let x = (sx::u8v("x") as u64) << (8 * k); round(f, o, &x) }
            _ => { let x = sx::u8v("x") as i16; round(f, o, &(-x, 'a', ())) }
        }
    }
    /// P15: values go through after all kinds of events: refused values, other formats, clones
    fn p15_world() {
        let (mut a, p, _) = complete_with(4, with_format(FORMATS[sx::choose(3) as usize].0));
        let mut code: Vec<u8>;
        let mut now = format_of(&mut a, &p);
        sx::check(now.len() == 4, "the announced format is the configured one");
        let mut cloned = false;
        for _ in 0..(if sx::thorough() { 4 } else { 3 }) {
            match sx::choose(5) {
                0 => {
                    let g = FORMATS[sx::choose(3) as usize];
                    let r = a.change_config(with_format(g.0));
                    sx::check(r.is_ok() != cloned, "the configuration changes as long as there is no clone");
                    if r.is_ok() { now = vec![0, 0, 0, g.1]; }
                }
                1 => { sx::assume(!cloned); match a.try_clone() { Ok(c) => { a = c; cloned = true; } Err(_) => sx::check(false, "setup: a negotiated layer can be cloned") } }
                2 => {
                    struct Not;
                    impl Serialize for Not { fn serialize<S: serde::Serializer>(&self, _: S) -> std::result::Result<S::Ok, S::Error> { Err(serde::ser::Error::custom("no")) } }
                    let mut w = std::io::BufWriter::new(Vec::new());
                    sx::check(a.write(&Not, &mut w).is_err() && w.into_inner().ok().unwrap().is_empty(), "a value that cannot be written is refused without output");
                    sx::reach("not writable");
                }
                3 => { let m = p.user_at(40, &stored(&[9, 9, 9, 9])); let _ = a.read::<u8>(&m); }
                _ => { let m = emit(|w| a.write_bin(b"raw", w)); sx::check(m.is_ok(), "a raw message can be written"); }
            }
            code = format_of(&mut a, &p);
            sx::check(code == now, "the announced format is the configured one");
        }
        sx::reach("done");
    }
    /// P15: in CONNECT and ACK messages too
    fn p15_nego() {
        let f = sx::choose(3) as usize;
        let (fmt, code) = FORMATS[f];
        let some = sx::choose(2) == 1;
        let v = Rec { a: 1, b: Some(2), c: vec![3] };
        let d = if some { Some(&v) } else { None };
        let mut a = SecureLayer::create(with_format(fmt), Some(Seed32::new([7; 32])), None).ok().unwrap();
        let mut b = SecureLayer::create(cfg(), Some(Seed32::new([8; 32])), None).ok().unwrap();
        let m = emit(|w| a.write_connect_msg(d, w)).unwrap_or_default();
        let z = if m.len() < 150 { vec![] } else { m[86..m.len() - 64].to_vec() };
        if some { sx::check(inflate(&z).map_or(false, |x| x.len() > 4 && x[..4] == [0, 0, 0, code]), "the announced format is the configured one"); }
        else { sx::check(z.is_empty(), "no custom data, none written"); }
        let ok = match b.read::<Rec>(&m) {
            Ok(mut x) => x.len() == 1 && match x.remove(0) { IncomingMessage::Connect { custom_data, .. } => custom_data.as_ref() == d, _ => false },
            Err(_) => false,
        };
        sx::check(ok, "CONNECT data is read back exactly");
        let k = emit(|w| b.write_connect_msg_bin(None, w)).unwrap_or_default();
        sx::check(a.read_bin(&k).is_ok(), "setup: CONNECT messages accepted");
        let m = emit(|w| a.write_ack_msg(d, w)).unwrap_or_default();
        let ok = match b.read::<Rec>(&m) {
            Ok(mut x) => x.len() == 1 && match x.remove(0) { IncomingMessage::Ack { custom_data } => custom_data.as_ref() == d, _ => false },
            Err(_) => false,
        };
        sx::check(ok, "ACK data is read back exactly");
        sx::reach("done");
    }
    /// P15: an unknown or unusable announced format is an error, whatever follows
    fn p15_unknown() {
        let n = sx::choose(if sx::thorough() { 11 } else { 9 }) as usize;
        let kind = sx::choose(3);
        let d = if n < if sx::thorough() { 10 } else { 8 } { sx::bytes(n, "data") } else {
            // another format code before what would be data in a known one
            let mut d = [0u32, 1, 5, 6, 0x102, 0x0200_0000, !0][sx::choose(7) as usize].to_be_bytes().to_vec();
            match sx::choose(4) {
                0 => d.extend_from_slice(&[7; 100]),
                1 => d.extend_from_slice(&[b' '; 99]),
                2 => d.extend_from_slice(b"                                                                                12"),
                _ => d.extend_from_slice(&[7]),
            }
            d
        };
        let n = d.len();
        let (mut a, p, e) = complete_with(if kind == 0 { 4 } else if kind == 1 { 1 } else { 2 }, with_format(FORMATS[2].0));
        let known = n >= 4 && d[0] == 0 && d[1] == 0 && d[2] == 0 && d[3] >= 2 && d[3] <= 4;
        sx::assume(!known);
        let z = stored(&d);
        let ok = match kind { 0 => a.read::<u8>(&p.user_at(0, &z)).is_ok(), 1 => a.read::<u8>(&p.connect(&z)).is_ok(), _ => a.read::<u8>(&p.ack(&e, &z)).is_ok() };
        sx::check(!ok, "data without a usable format is refused");
        sx::reach(if n < 4 { "short" } else { "unknown" });
    }
    /// P15: the formats that are for raw data are refused by the typed functions, without harm
    fn p15_raw() {
        let f = if sx::choose(2) == 0 { MessageFormat::RawBinary } else { MessageFormat::Utf8PlainText };
        let kind = sx::choose(3);
        let (mut a, p, e) = complete_with([4, 1, 2][kind as usize], with_format(f));
        let mut fresh = SecureLayer::create(with_format(f), Some(Seed32::new([7; 32])), None).ok().unwrap();
        let mut w = std::io::BufWriter::new(Vec::new());
        fn put<M: Serialize>(kind: u64, a: &mut SecureLayer, fresh: &mut SecureLayer, m: &M, w: &mut std::io::BufWriter<Vec<u8>>) -> Result<()> {
            match kind { 0 => a.write(m, w), 1 => fresh.write_connect_msg(Some(m), w), _ => a.write_ack_msg(Some(m), w) }
        }
        let r = match sx::choose(7) {
            0 => put(kind, &mut a, &mut fresh, &1u8, &mut w),
            1 => put(kind, &mut a, &mut fresh, &(), &mut w),
            2 => put(kind, &mut a, &mut fresh, &"text".to_string(), &mut w),
            3 => put(kind, &mut a, &mut fresh, &String::new(), &mut w),
            4 => put(kind, &mut a, &mut fresh, &vec![1u8, 2], &mut w),
            5 => put(kind, &mut a, &mut fresh, &None::<u8>, &mut w),
            _ => put(kind, &mut a, &mut fresh, &Cmd::Go(1), &mut w),
        };
        sx::check(r.is_err(), "typed data in a raw format is refused");
        sx::check(w.into_inner().ok().unwrap().is_empty(), "a refused value leaves no output");
        // the connection is still good
        let d = sx::u8v("d");
        match kind {
            0 => {
                let m = emit(|w| a.write_bin(&[d], w)).unwrap_or_default();
                sx::check(sx::eq(&m, &p.user_at(0, &content(&p, &m))) && inflate(&content(&p, &m)).map_or(false, |x| sx::eq(&x, &[d])), "a refused value does not end the session");
            }
            1 => sx::check(emit(|w| fresh.write_connect_msg_bin(Some(&[d]), w)).is_ok(), "a refused value does not end the negotiation"),
            _ => sx::check(emit(|w| a.write_ack_msg_bin(Some(&[d]), w)).is_ok() && a.read_bin(&p.ack(&e, b"")).is_ok(), "a refused value does not end the negotiation"),
        }
        sx::reach("refused");
    }

    /// P16: nothing of the session key stays in a dropped layer, nor in released memory
    fn p16_layer() {
        let kind = sx::choose(4);
        let end = sx::choose(5);
        let mut p = Spec::new(9);
        let kp = peer::keypair(7);
        let mut a = minimal(None);
        let c = a.create_connect_message(&peer::pk(&kp), None).ok().unwrap();
        let epk = epk_of(&c);
        p.agree(&epk);
        let key = p.key().to_vec();
        sx::watch(&key);
        let ok = a.read(&p.connect(b"")).is_ok();
        sx::check(ok, "setup: valid CONNECT accepted");
        if end >= 1 { sx::check(a.create_ack_message(None).is_ok(), "setup: ACK can be written"); }
        if end >= 2 { sx::check(a.read(&p.ack(&epk, b"")).is_ok(), "setup: valid ACK accepted"); }
        if end == 3 { let _ = user_of(&mut a, b"data"); let _ = a.read(&p.user_at(0, b"data")); }
        if end == 4 { let _ = a.read(b"junk"); }
        if kind > 0 && (end == 2 || end == 3) {
            let c = match a.try_clone() { Ok(c) => c, Err(_) => { sx::check(false, "setup: a negotiated layer can be cloned"); return } };
            if kind == 1 { sx::check(gone(c, &key), "a dropped clone holds no key"); }
            else if kind == 2 { sx::check(gone(Some(Box::new(c)), &key), "a dropped clone holds no key"); }
            else { let v = vec![c]; sx::check(gone(v, &key), "a dropped clone holds no key"); }
            sx::reach("clone");
        }
        sx::check(gone(a, &key), "a dropped layer holds no key");
        sx::check(sx::watched() == 0, "no released memory holds the key");
        sx::reach("layer");
    }
    /// P16: the complete layer
    fn p16_complete() {
        let clone = sx::choose(2) == 1;
        let mut p = Spec::new(9);
        let mut a = layer(7, None);
        let c = emit(|w| a.write_connect_msg_bin(None, w)).ok().unwrap();
        let epk = epk_of(&c);
        p.agree(&epk);
        let key = p.key().to_vec();
        sx::watch(&key);
        let ok = a.read_bin(&p.connect(b"")).is_ok() && emit(|w| a.write_ack_msg_bin(None, w)).is_ok() && a.read_bin(&p.ack(&epk, b"")).is_ok();
        sx::check(ok, "setup: negotiation succeeds");
        let _ = emit(|w| a.write_bin(b"x", w));
        let _ = a.read_bin(&p.user_at(0, &stored(b"y")));
        if clone { match a.try_clone() { Ok(c) => sx::check(gone(c, &key), "a dropped clone holds no key"), Err(_) => sx::check(false, "setup: a negotiated layer can be cloned") } }
        sx::check(gone(a, &key), "a dropped layer holds no key");
        sx::check(sx::watched() == 0, "no released memory holds the key");
        sx::reach("layer");
    }
    /// P16: seeds
    fn p16_seed() {
        let b = sx::bytes(32, "seed");
        let mut s = [0u8; 32];
        s.copy_from_slice(&b);
        for i in 0..25 { sx::assume(s[i..i + 8] != [0; 8]); }
        let how = sx::choose(4);
        match how {
            0 => sx::check(gone(Seed32::new(s), &b), "a dropped seed is wiped"),
            1 => { let x = Seed32::new(s); let y = x.clone(); sx::check(gone(y, &b), "a dropped seed is wiped"); sx::check(x.as_ref() == &b[..], "dropping a copy does not touch the other"); }
            2 => { let mut x = Seed32::default(); x.as_mut().copy_from_slice(&b); sx::check(gone(x, &b), "a dropped seed is wiped"); }
            _ => {
                // moved into the layer, which only needs it to make the key pair
                sx::watch(&b);
                let x = Box::new(Seed32::new(s));
                let _ = SecureLayer::create(cfg(), Some((*x).clone()), None).ok().unwrap();
                drop(x);
                sx::check(sx::watched() == 0, "no released memory holds the seed");
            }
        }
        sx::reach("wiped");
    }

    /// P17: before the negotiation succeeded, user data does not come out in any form
    fn p17_early() {
        let st = [0u64, 1, 2, 3, 5, 6, 7, 8][sx::choose(8) as usize];
        let (mut a, _p) = minimal_in(st, false);
        let n = [0usize, 1, 33][sx::choose(3) as usize];
        let d = sx::bytes(n, "data");
        let mut w = std::io::BufWriter::with_capacity(1, Vec::new());
        let r = a.write_message(&d, &mut w);
        sx::check(r.is_err(), "no user data before the negotiation succeeded");
        sx::check(w.into_inner().ok().unwrap().is_empty(), "nothing is emitted before the negotiation succeeded");
        sx::reach("refused");
    }
    /// P17: the same for the complete layer, typed and not
    fn p17_early_complete() {
        let st = sx::choose(4);
        let typed = sx::choose(2) == 1;
        let f = FORMATS[sx::choose(3) as usize].0;
        let n = [0usize, 1, 33][sx::choose(3) as usize];
        let d = if n > 1 { vec![5; n] } else { sx::bytes(n, "data") };
        let (mut a, p, epk) = if st == 0 { (SecureLayer::create(with_format(f), Some(Seed32::new([7; 32])), None).ok().unwrap(), Spec::new(9), vec![]) } else { complete_with(st, with_format(f)) };
        let kept = st == 3 && sx::choose(2) == 1;
        if kept { sx::check(a.read_bin(&p.user_at(0, &stored(b"q"))).map(|v| v.is_empty()).unwrap_or(false), "setup: early user message is kept"); }
        let mut w = std::io::BufWriter::with_capacity(1, Vec::new());
        let r = if typed { a.write(&(n as u8), &mut w) } else { a.write_bin(&d, &mut w) };
        sx::check(r.is_err(), "no user data before the negotiation succeeded");
        sx::check(w.into_inner().ok().unwrap().is_empty(), "nothing is emitted before the negotiation succeeded");
        // not even afterwards, with the messages still to come
        let mut w = std::io::BufWriter::new(Vec::new());
        if st >= 1 { let _ = a.read_bin(&p.connect(b"")); }
        let _ = a.write_ack_msg_bin(None, &mut w);
        if st >= 1 { let _ = a.read_bin(&p.ack(&epk, b"")); }
        let _ = a.write_bin(b"again", &mut w);
        sx::check(w.into_inner().ok().unwrap().is_empty(), "nothing is emitted after user data was refused");
        sx::reach("refused");
    }
    /// P17: what comes out is exactly the sealed message: its ciphertext depends on the key, and nothing is in clear
    fn p17_sealed() {
        let n = sx::choose(if sx::thorough() { 100 } else { 40 }) as usize;
        let d = sx::bytes(n, "data");
        let (mut a, p) = negotiated();
        let m = user_of(&mut a, &d).unwrap_or_default();
        sx::check(sx::eq(&m, &p.user_at(0, &d)), "only the sealed message comes out");
        sx::check(m.len() == 26 + n + 32 + 16, "only the sealed message comes out");
        // opened by the session key only
        sx::check(peer::open(p.key(), &m).map_or(false, |x| sx::eq(&x, &peer::hashed(peer::user_clear(0, &d)))), "the peer can open it");
        let k = sx::bytes(48, "other key");
        sx::assume(k != p.key());
        sx::check(peer::open(&k, &m).is_none(), "no other key opens it");
        sx::reach("sealed");
    }
    /// P17: sessions do not share keys: even between the same two identities
    fn p17_sessions() {
        let (mut a, mut p) = negotiated();
        let (mut b, q) = negotiated();
        let d = sx::bytes(2, "data");
        sx::check(p.key() != q.key(), "two sessions have different keys");
        let m = user_of(&mut a, &d).unwrap_or_default();
        sx::check(peer::open(q.key(), &m).is_none(), "another session's key does not open it");
        sx::check(!out(b.read(&m)).is_user(), "another session does not accept it");
        sx::check(p.user(b"x").len() == 26 + 1 + 32 + 16, "setup: sealed size");
        sx::reach("apart");
    }
    /// P17: who only knows the long-term keys and sees the negotiation does not get the session key
    fn p17_passive() {
        let (mut a, p) = negotiated();
        let d = sx::bytes(2, "data");
        let m = user_of(&mut a, &d).unwrap_or_default();
        // an attacker with both long-term keys, but ephemeral keys of its own, agrees on something else
        let mut e = Spec::new(9);
        e.agree(&p.epk);
        sx::check(e.key.is_some() && e.key() != p.key() && peer::open(e.key(), &m).is_none(), "the long-term keys do not give the session key");
        sx::reach("apart");
    }
    /// P17: no keystream is used twice
    fn p17_nonce() {
        let n = 1 + sx::choose(3) as usize;
        let who = sx::choose(2);
        let (mut a, p) = negotiated();
        let x = sx::bytes(n, "x");
        let y = sx::bytes(n, "y");
        let m1 = user_of(&mut a, &x).unwrap_or_default();
        let m2 = if who == 0 { user_of(&mut a, &y).unwrap_or_default() } else { p.user_at(0, &y) };
        sx::check(m1.len() == m2.len() && m1.len() > 26 + n, "setup: sealed size");
        if m1.len() != m2.len() || m1.len() < 26 + n { return }
        // the XOR of the ciphertexts must not be the XOR of the clear data for every content
        let mut same = true;
        for i in 0..n { same &= m1[26 + i] ^ m2[26 + i] == x[i] ^ y[i]; }
        sx::reach("compared");
        sx::check(!same, if who == 0 { "two messages of one sender do not share their keystream" } else { "the two directions do not share their keystream" });
    }
}
