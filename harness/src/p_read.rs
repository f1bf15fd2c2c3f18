//! P01: whatever arrives, reading neither panics, overflows, indexes out of
//! bounds nor allocates without bound (the engine reports those by itself).
use crate::peer::{self, Spec};
use crate::props::*;
use crate::sx;
use pkstl::*;

fn note(refused: bool) {
    if refused { sx::reach("refused"); } else { sx::reach("accepted"); }
}
/// after whatever was read, every other operation must not panic either
fn afterwards(a: &mut MinimalSecureLayer, what: u64) {
    match what {
        0 => { let _ = a.create_ack_message(None); let _ = user_of(a, b"x"); }
        1 => { let _ = user_of(a, b"x"); }
        2 => { let _ = a.take_ack_msg_recv_too_early(); let _ = a.drain_tmp_stack_user_msgs(); }
        _ => { let _ = a.try_clone().map(|mut c| user_of(&mut c, b"x").is_ok()); }
    }
}

entries! {
    /// arbitrary bytes, every state
    fn p01_raw() {
        let st = sx::choose(9);
        let n = sx::choose(if sx::thorough() { 260 } else { 121 }) as usize;
        let m = sx::bytes(n, "m");
        let (mut a, _p) = minimal_in(st, false);
        let r = a.read(&m);
        note(r.is_err());
    }
    /// clear message with a valid prefix and a valid signature of the peer: everything else arbitrary
    fn p01_signed() {
        let st = sx::choose(9);
        let n = sx::choose(if sx::thorough() { 140 } else { 90 }) as usize;
        let tail = sx::choose(4);
        let b = sx::bytes(n, "body");
        let (mut a, p) = minimal_in(st, false);
        let mut m = peer::MAGIC.to_vec();
        m.extend_from_slice(&peer::VERSION);
        m.extend_from_slice(&b);
        let m = match tail { 0 => m, 1 => peer::hashed(m), _ => peer::signed(m, &p.kp) };
        let r = a.read(&m);
        note(r.is_err());
        if tail == 3 { afterwards(&mut a, sx::choose(4)); }
    }
    /// every size up to a limit, in clear, signed and sealed
    fn p01_sizes() {
        let kind = sx::choose(6);
        let part = sx::choose(if sx::thorough() { 60 } else { 20 }) as usize;
        let fill = if sx::choose(2) == 0 { 0 } else { 0xffu8 };
        let mut sizes: Vec<usize> = (part * 80..part * 80 + 80).collect();
        let two = 1usize << (7 + part % 10);
        for over in 0..20 { sizes.push(two - 20 + over * 2) }
        let (mut all, mut some) = (true, false);
        let (mut a, p) = negotiated();
        for n in sizes {
            let d = vec![fill; n];
            let ok = match kind {
                0 => minimal_in(1, false).0.read(&d).is_ok(),
                1 => minimal(None).read(&p.connect(&d)).is_ok(),
                2 => { let (mut b, _) = minimal_in(2, false); let e = epk_inside(&b).unwrap_or_default(); b.read(&p.ack(&e, &d)).is_ok() }
                3 => a.read(&p.user_at(n as u64, &d)).is_ok(),
                // sealed without and with a hash, no message
                4 => { let (mut b, q) = negotiated(); let ok = b.read(&peer::seal(q.key(), &d)).is_ok(); ok }
                _ => { let (mut b, q) = negotiated(); let ok = b.read(&peer::seal(q.key(), &peer::hashed(d))).is_ok(); ok }
            };
            all &= ok;
            some |= ok;
        }
        if all { sx::reach("accepted") }
        if !some { sx::reach("refused") }
    }
    /// validly signed CONNECT with arbitrary ephemeral key and algorithm, then the rest of the negotiation
    fn p01_connect() {
        let st = if sx::choose(2) == 0 { 1 } else { 8 };
        let epk = sx::bytes(32, "epk");
        let algo = sx::bytes(4, "algo");
        let (mut a, p) = minimal_in(st, false);
        let m = peer::signed(peer::connect_clear(&epk, &algo, &p.pk(), b""), &p.kp);
        let r = a.read(&m);
        note(r.is_err());
        let e = a.take_ack_msg_recv_too_early();
        if e.is_ok() { sx::reach("early"); }
        let _ = a.create_ack_message(None);
        let ack = sx::choose(2);
        if ack == 1 {
            let c = MinimalSecureLayer::create(cfg(), None).ok().unwrap();
            drop(c);
        }
        let _ = user_of(&mut a, b"x");
        let _ = a.try_clone().map(|mut c| user_of(&mut c, b"x").is_ok());
        let _ = a.read(&p.user_junk());
    }
    /// the peer encrypts arbitrary plaintext
    fn p01_sealed() {
        let st = 2 + sx::choose(4);
        let n = sx::choose(if sx::thorough() { 110 } else { 64 }) as usize;
        let how = sx::choose(2);
        let b = sx::bytes(n, "plain");
        let (mut a, p) = minimal_in(st, false);
        let m = if how == 0 { b } else { peer::hashed(b) };
        let r = a.read(&peer::seal(p.key(), &m));
        note(r.is_err());
        if st == 3 {
            // stacked, then read again once negotiated
            let r = a.drain_tmp_stack_user_msgs();
            note(r.is_err());
        }
    }
    /// as above, read as an early message and delivered after the ACK
    fn p01_stacked() {
        let n = 26 + sx::choose(if sx::thorough() { 60 } else { 20 }) as usize;
        let how = sx::choose(2);
        let b = sx::bytes(n, "plain");
        let mut p = Spec::new(9);
        let mut a = minimal(None);
        let kp = peer::keypair(7);
        let c = a.create_connect_message(&peer::pk(&kp), None).ok().unwrap();
        p.agree(&epk_of(&c));
        let _ = a.read(&p.connect(b""));
        let _ = a.create_ack_message(None);
        let m = if how == 0 { b } else { peer::hashed(b) };
        let r = a.read(&peer::seal(p.key(), &m));
        note(r.is_err());
        let _ = a.read(&p.ack(&epk_of(&c), b""));
        let r = a.drain_tmp_stack_user_msgs();
        if r.is_ok() { sx::reach("drained"); }
    }
    /// two arbitrary short messages in a row, then any operation
    fn p01_twice() {
        let st = sx::choose(9);
        let n1 = sx::choose(20) as usize;
        let n2 = sx::choose(20) as usize;
        let a1 = sx::bytes(n1, "m1");
        let a2 = sx::bytes(n2, "m2");
        let (mut a, _p) = minimal_in(st, false);
        let r1 = a.read(&a1);
        let r2 = a.read(&a2);
        note(r1.is_err() && r2.is_err());
        afterwards(&mut a, sx::choose(4));
    }
    /// complete layer: arbitrary bytes where compressed data is expected
    fn p01_inflate() {
        let n = sx::choose(if sx::thorough() { 4 } else { 3 }) as usize;
        let kind = sx::choose(3);
        let z = sx::bytes(n, "z");
        let (mut a, mut p, epk) = complete_at(if kind == 0 { 1 } else if kind == 1 { 3 } else { 4 });
        let m = match kind { 0 => p.connect(&z), 1 => p.ack(&epk, &z), _ => p.user(&z) };
        let r = a.read_bin(&m);
        note(r.is_err());
    }
    /// complete layer: arbitrary serialized data in any announced format
    fn p01_serde() {
        let f = sx::choose(6) as u8;
        let n = sx::choose(if f > 4 { 5 } else if f == 3 { 3 } else if sx::thorough() { 4 } else { 3 }) as usize;
        let z = sx::bytes(n, "z");
        let mut d = if f > 4 { vec![] } else { vec![0, 0, 0, f] };
        d.extend_from_slice(&z);
        let (mut a, mut p, _epk) = complete_at(4);
        let m = p.user(&stored(&d));
        let r = a.read::<u16>(&m);
        note(r.is_err());
    }
    /// as above, variable-size data (huge announced lengths)
    fn p01_serde_vec() {
        let f = sx::choose(6) as u8;
        let n = sx::choose(if f == 2 || f == 3 { 3 } else if sx::thorough() { 9 } else { 6 }) as usize;
        let z = sx::bytes(n, "z");
        let mut d = vec![0, 0, 0, f];
        d.extend_from_slice(&z);
        let (mut a, mut p, _epk) = complete_at(4);
        let m = p.user(&stored(&d));
        let r = a.read::<Vec<u8>>(&m);
        note(r.is_err());
    }
}
