//! P02 peer identity, P03 negotiation messages, P04 user messages, P05 replay.
use crate::peer::{self, Spec};
use crate::props::*;
use crate::sx;
use pkstl::*;

/// a layer that has sent its CONNECT, and its ephemeral public key
fn started(expected: Option<Vec<u8>>) -> (MinimalSecureLayer, Vec<u8>, Vec<u8>) {
    let mut a = minimal(expected);
    let kp = peer::keypair(7);
    let c = a.create_connect_message(&peer::pk(&kp), None).ok().unwrap();
    let epk = epk_of(&c);
    (a, epk, peer::signed(c, &kp))
}

/// What the network can deliver while two identities (the genuine peer and an
/// attacker with keys of its own) are around.
struct World {
    a: MinimalSecureLayer,
    epk: Vec<u8>,
    honest: Spec,
    evil: Spec,
    pinned: Option<Vec<u8>>,
    /// who signed the stored early ACK (0 none, 1 honest, 2 evil, 3 nobody)
    early: u64,
}
impl World {
    fn new(expected: u64) -> World {
        let honest = Spec::new(9);
        let evil = Spec::new(66);
        let e = match expected { 0 => None, _ => Some(honest.pk()) };
        let (a, epk, _) = started(e.clone());
        World { a, epk, honest, evil, pinned: e, early: 0 }
    }
    fn deliver(&mut self, kind: u64, i: usize) {
        let d = sx::bytes(1, NAMES[i]);
        let (h, e) = (&self.honest, &self.evil);
        let m = match kind {
            0 => h.connect(&d),
            1 => e.connect(&d),
            // the attacker's ephemeral key under the honest identity, signed by the attacker
            2 => peer::signed(peer::connect_clear(&e.epk, &[0; 4], &h.pk(), &d), &e.kp),
            // any identity, any signature
            3 => {
                let pk = peer::any_identity("fpk");
                let sig = sx::bytes(64, "fsig");
                let mut m = peer::connect_clear(&e.epk, &[0; 4], &pk, &d);
                m.extend_from_slice(&sig);
                m
            }
            4 => h.ack(&self.epk, &d),
            5 => e.ack(&self.epk, &d),
            6 => {
                let mut m = peer::ack_clear(&self.epk, &d);
                m.extend_from_slice(&sx::bytes(64, "fsig"));
                m
            }
            // honest ephemeral key claimed by the attacker
            _ => peer::signed(peer::connect_clear(&h.epk, &[0; 4], &e.pk(), &d), &e.kp),
        };
        let o = out(self.a.read(&m));
        match o {
            Out::Connect(pk, data) => {
                let signer = match kind { 0 => Some(self.honest.pk()), 1 | 7 => Some(self.evil.pk()), _ => None };
                sx::check(signer.as_ref().map_or(false, |s| *s == pk), "an accepted CONNECT is signed by the identity it announces");
                sx::check(data == d, "CONNECT data is what was signed");
                if let Some(ref p) = self.pinned {
                    sx::check(*p == pk, "no other identity than the expected one is accepted");
                }
                self.pinned = Some(pk);
                sx::reach("connect");
                if self.early != 0 {
                    let o = out(self.a.take_ack_msg_recv_too_early());
                    let s = self.early;
                    self.early = 0;
                    if o.is_ack() {
                        self.acked(s);
                    }
                }
            }
            Out::Ack(data) => {
                sx::check(data == d, "ACK data is what was signed");
                self.acked(match kind { 4 => 1, 5 => 2, _ => 3 });
            }
            Out::Kept => {
                sx::check(kind >= 4 && kind <= 6, "only an ACK is kept for later");
                self.early = match kind { 4 => 1, 5 => 2, _ => 3 };
            }
            Out::User(_) => sx::check(false, "no user message comes out of the negotiation"),
            Out::Refused => sx::reach("refused"),
        }
    }
    fn acked(&mut self, signer: u64) {
        sx::reach("ack");
        let by = match signer { 1 => Some(self.honest.pk()), 2 => Some(self.evil.pk()), _ => None };
        sx::check(by.is_some() && by == self.pinned, "an accepted ACK is signed by the peer's identity");
    }
}
const NAMES: [&str; 8] = ["d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7"];

fn tamper(m: &[u8]) -> Vec<u8> {
    // flip any bits, then cut or extend
    let mut t = sx::tampered(m, "mask");
    match sx::choose(3) {
        0 => {}
        1 => { let k = 1 + sx::choose(if sx::thorough() { 100 } else { 70 }) as usize; t.truncate(m.len() - k); }
        _ => { let k = 1 + sx::choose(if sx::thorough() { 40 } else { 12 }) as usize; t.extend_from_slice(&sx::bytes(k, "ext")); }
    }
    t
}
fn data_len() -> usize {
    match sx::choose(if sx::thorough() { 6 } else { 5 }) { 0 => 0, 1 => 1, 2 => 5, 3 => 17, 4 => 70, _ => 150 }
}

entries! {
    /// P02: any sequence of genuine, foreign and forged messages
    fn p02_world() {
        let expected = sx::choose(2);
        let steps = if sx::thorough() { 6 } else { 5 };
        let mut w = World::new(expected);
        for i in 0..steps {
            w.deliver(sx::choose(8), i);
        }
    }
    /// P02: a refused CONNECT does not change who the peer is
    fn p02_refused() {
        let expected = sx::choose(2);
        let kind = sx::choose(4);
        let mut w = World::new(expected);
        let m = match kind {
            0 => {
                let pk = peer::any_identity("fpk");
                let mut m = peer::connect_clear(&w.evil.epk, &[0; 4], &pk, b"");
                m.extend_from_slice(&sx::bytes(64, "fsig"));
                m
            }
            1 => peer::signed(peer::connect_clear(&w.evil.epk, &[0; 4], &w.honest.pk(), b""), &w.evil.kp),
            2 => peer::signed(peer::connect_clear(&w.evil.epk, &[0; 4], &peer::any_identity("fpk"), b""), &w.evil.kp),
            _ => { sx::assume(expected == 1); w.evil.connect(b"") }
        };
        let r = w.a.read(&m);
        let evil = w.evil.pk();
        match out(r) {
            Out::Connect(pk, _) => {
                // only possible when the attacker announced its own identity and none was expected
                sx::check(kind == 2 && expected == 0 && pk == evil, "a forged CONNECT is refused");
                sx::reach("own identity");
            }
            Out::Refused => {
                sx::reach("refused");
                let r = w.a.read(&w.honest.connect(b"z"));
                let dead = failed_for_good(&r);
                match out(r) {
                    Out::Connect(pk, d) => {
                        sx::reach("honest after forged");
                        sx::check(pk == w.honest.pk() && d == b"z", "the genuine peer is identified after a refused CONNECT");
                        let r = w.a.read(&w.honest.ack(&w.epk, b"y"));
                        sx::check(out(r) == Out::Ack(b"y".to_vec()), "the genuine ACK is accepted after a refused CONNECT");
                    }
                    _ => sx::check(dead, "a refused CONNECT does not replace the peer's identity"),
                }
            }
            _ => sx::check(false, "a CONNECT is delivered or refused"),
        }
    }
    /// P02: the complete layer reports the verified identity, and enforces the expected one
    fn p02_complete() {
        let expected = sx::choose(3);
        let who = sx::choose(2);
        let honest = Spec::new(9);
        let evil = Spec::new(66);
        let e = match expected { 0 => None, 1 => Some(honest.pk()), _ => { let n = [32usize, 0, 1, 31, 33, 64][sx::choose(6) as usize]; Some(sx::bytes(n, "expected")) } };
        let mut a = SecureLayer::create(cfg(), Some(Seed32::new([7; 32])), e.clone()).ok().unwrap();
        let p = if who == 0 { &honest } else { &evil };
        let r = a.read_bin(&p.connect(b""));
        match r {
            Ok(v) => {
                sx::reach("accepted");
                sx::check(v.len() == 1, "one event per CONNECT");
                match &v[0] {
                    IncomingBinaryMessage::Connect { peer_sig_public_key, .. } => sx::check(*peer_sig_public_key == p.pk(), "the reported identity signed the CONNECT"),
                    _ => sx::check(false, "a CONNECT is reported as such"),
                }
                if let Some(e) = e { sx::check(sx::eq(&e, &p.pk()), "no other identity than the expected one is accepted"); }
            }
            Err(_) => {
                sx::reach("refused");
                sx::check(match e { Some(e) => !sx::eq(&e, &p.pk()), None => false }, "the expected (or first) genuine peer is accepted");
            }
        }
    }

    /// P02: any other identity, also one much like the pinned one, is refused: CONNECT, ACK, before and after
    fn p02_alike() {
        let expected = sx::choose(2);
        let honest = Spec::new(9);
        let evil = peer::any_keypair("other seed");
        let epk = peer::pk(&evil);
        sx::assume(epk != honest.pk());
        let e = if expected == 1 { Some(honest.pk()) } else { None };
        let (mut a, own_epk, _) = started(e);
        let connect = peer::signed(peer::connect_clear(&honest.epk, &[0; 4], &epk, b""), &evil);
        let ack = peer::signed(peer::ack_clear(&own_epk, b""), &evil);
        if expected == 0 {
            let first = sx::choose(2);
            if first == 1 {
                // the other one comes first: it is the peer, and the honest one is not
                sx::check(out(a.read(&connect)) == Out::Connect(epk, vec![]), "the first validly signed CONNECT is accepted");
                sx::check(out(a.read(&honest.ack(&own_epk, b""))).refused(), "an accepted ACK is signed by the peer's identity");
                sx::check(out(a.read(&honest.connect(b""))).refused(), "no other identity than the pinned one is accepted");
                sx::reach("other first");
                return;
            }
            let early = sx::choose(2) == 1;
            if early { sx::check(out(a.read(&ack)).kept(), "setup: early ACK is kept"); }
            sx::check(out(a.read(&honest.connect(b""))) == Out::Connect(honest.pk(), vec![]), "the genuine peer is accepted");
            if early { sx::check(!out(a.take_ack_msg_recv_too_early()).is_ack(), "an accepted ACK is signed by the peer's identity"); return; }
        } else {
            sx::check(out(a.read(&connect)).refused(), "no other identity than the expected one is accepted");
            sx::check(out(a.read(&ack)).refused(), "an accepted ACK is signed by the peer's identity");
            sx::check(out(a.read(&honest.connect(b""))) == Out::Connect(honest.pk(), vec![]), "the genuine peer is accepted after a refused one");
        }
        sx::check(out(a.read(&ack)).refused(), "an accepted ACK is signed by the peer's identity");
        let more = sx::choose(2);
        if more == 1 {
            sx::check(out(a.read(&connect)).refused(), "no other identity than the pinned one is accepted");
            let o = out(a.read(&honest.ack(&own_epk, b"y")));
            sx::check(o == Out::Ack(b"y".to_vec()), "the genuine ACK is accepted after refused messages");
            sx::check(out(a.read(&connect)).refused(), "no other identity than the pinned one is accepted");
        }
        sx::reach("honest first");
    }
    /// P02: layers made without a seed have an identity of their own
    fn p02_random() {
        let mut pks = vec![];
        for _ in 0..3 {
            let mut a = SecureLayer::create(cfg(), None, None).ok().unwrap();
            let m = emit(|w| a.write_connect_msg_bin(None, w)).unwrap_or_default();
            sx::check(m.len() == 150, "CONNECT can be written");
            if m.len() != 150 { return }
            pks.push(m[54..86].to_vec());
        }
        sx::check(pks[0] != pks[1] && pks[1] != pks[2] && pks[0] != pks[2], "layers without a seed have different identities");
        // and none that anybody could guess
        for s in [Seed32::default(), Seed32::new([1; 32]), Seed32::new([255; 32])].iter() {
            let kp = ring::signature::Ed25519KeyPair::from_seed_unchecked(s.as_ref()).ok().unwrap();
            sx::check(pks.iter().all(|p| *p != peer::pk(&kp)), "the identity of a layer without a seed cannot be guessed");
        }
        let (a, b) = (Seed32::random(), Seed32::random());
        sx::check(a != b && a != Seed32::default() && b != Seed32::default(), "random seeds are different");
        sx::reach("done");
    }
    /// P02: the whole negotiation of the complete layer, with somebody else's messages in between
    fn p02_both() {
        let expected = sx::choose(2) == 1;
        let honest = Spec::new(9);
        let evil = Spec::new(66);
        let mut a = SecureLayer::create(cfg(), Some(Seed32::new([7; 32])), if expected { Some(honest.pk()) } else { None }).ok().unwrap();
        let c = emit(|w| a.write_connect_msg_bin(None, w)).ok().unwrap();
        let epk = epk_of(&c);
        let mut seen: Option<Vec<u8>> = if expected { Some(honest.pk()) } else { None };
        let mut early = 0;
        for _ in 0..(if sx::thorough() { 7 } else { 6 }) {
            let k = sx::choose(6);
            let (m, who) = match k { 0 => (honest.connect(b""), 1), 1 => (evil.connect(b""), 2), 2 => (honest.ack(&epk, b""), 1), 3 => (evil.ack(&epk, b""), 2), 4 => (peer::signed(peer::connect_clear(&evil.epk, &[0; 4], &honest.pk(), b""), &evil.kp), 0), _ => { let _ = emit(|w| a.write_ack_msg_bin(None, w)); continue } };
            let pk = match who { 1 => Some(honest.pk()), 2 => Some(evil.pk()), _ => None };
            match a.read_bin(&m) {
                Err(_) => {
                    sx::reach("refused");
                    // a waiting ACK of somebody else makes the read of a good CONNECT fail, which is then not reported
                    if k < 2 && early != 0 && seen.is_none() { seen = pk.clone(); }
                }
                Ok(v) => for e in v {
                    match e {
                        IncomingBinaryMessage::Connect { peer_sig_public_key, .. } => {
                            sx::check(k < 2 && pk.as_ref() == Some(&peer_sig_public_key), "the reported identity signed the CONNECT");
                            if let Some(ref s) = seen { sx::check(*s == peer_sig_public_key, "no other identity than the expected one is accepted"); }
                            seen = Some(peer_sig_public_key);
                            sx::reach("connect");
                        }
                        IncomingBinaryMessage::Ack { .. } => {
                            let by = if k < 2 { match early { 1 => Some(honest.pk()), 2 => Some(evil.pk()), _ => None } } else { pk.clone() };
                            sx::check(by.is_some() && by == seen, "an accepted ACK is signed by the peer's identity");
                            sx::reach("ack");
                        }
                        _ => sx::check(false, "no user message comes out of the negotiation"),
                    }
                },
            }
            if (k == 2 || k == 3) && early == 0 { early = who; }
        }
    }

    /// P03: a CONNECT changed in any way is refused
    fn p03_connect() {
        let expected = sx::choose(2);
        let n = data_len();
        let d = sx::bytes(n, "data");
        let (mut a, p) = minimal_in(1, expected == 1);
        let m = p.connect(&d);
        let t = tamper(&m);
        match out(a.read(&t)) {
            Out::Connect(pk, data) => {
                sx::reach("accepted");
                sx::check(t.len() == m.len() && sx::eq(&t, &m), "an altered CONNECT is refused");
                sx::check(pk == p.pk() && sx::eq(&data, &d), "CONNECT data arrives unchanged");
            }
            Out::Refused => { sx::reach("refused"); sx::check(t.len() != m.len() || !sx::eq(&t, &m), "a genuine CONNECT is accepted"); }
            o => sx::check(o.kept() && !sx::eq(&t, &m), "a genuine CONNECT is delivered"),
        }
    }
    /// P03: an ACK changed in any way is refused, also when it came early
    fn p03_ack() {
        let early = sx::choose(2);
        let n = data_len();
        let d = sx::bytes(n, "data");
        let (mut a, epk, _) = started(None);
        let p = Spec::new(9);
        if early == 0 { let r = a.read(&p.connect(b"")); sx::check(r.is_ok(), "setup: valid CONNECT accepted"); }
        let m = p.ack(&epk, &d);
        let t = tamper(&m);
        let mut o = out(a.read(&t));
        if early == 1 {
            sx::check(!o.is_ack(), "no ACK is delivered before the identity is known");
            if o.kept() {
                sx::reach("kept");
                let r = a.read(&p.connect(b""));
                sx::check(out(r).is_connect(), "a kept ACK does not get in the way of the CONNECT");
                o = out(a.take_ack_msg_recv_too_early());
            }
        }
        match o {
            Out::Ack(data) => {
                sx::reach("accepted");
                sx::check(sx::eq(&t, &m), "an altered ACK is refused");
                sx::check(sx::eq(&data, &d), "ACK data arrives unchanged");
            }
            Out::Refused => { sx::reach("refused"); sx::check(!sx::eq(&t, &m), "a genuine ACK is accepted"); }
            _ => sx::check(!sx::eq(&t, &m), "a genuine ACK is delivered"),
        }
    }
    /// P03: an ACK answers this very CONNECT: any other challenge, though signed by the peer, is refused
    fn p03_fresh() {
        let early = sx::choose(2);
        let how = sx::choose(3);
        let (mut a, epk, own_connect) = started(None);
        let (_old, old_epk, _) = started(None);
        let p = Spec::new(9);
        let m = match how {
            0 => {
                let mut m = peer::header(34, peer::T_ACK);
                m.extend_from_slice(&sx::bytes(32, "challenge"));
                peer::signed(m, &p.kp)
            }
            1 => p.ack(&old_epk, b""),
            _ => { let _ = own_connect; p.ack(&p.epk, b"") }
        };
        let want = peer::sha256(&epk);
        let genuine = m[18..50] == want[..];
        if early == 0 { let r = a.read(&p.connect(b"")); sx::check(r.is_ok(), "setup: valid CONNECT accepted"); }
        let mut o = out(a.read(&m));
        if early == 1 {
            if !o.refused() { sx::reach("kept"); }
            let r = a.read(&p.connect(b""));
            sx::check(out(r).is_connect(), "the genuine CONNECT is accepted");
            o = out(a.take_ack_msg_recv_too_early());
        }
        if o.is_ack() { sx::reach("accepted"); sx::check(genuine, "an ACK for another session is refused"); }
        else { sx::reach("refused"); sx::check(!genuine, "an ACK with the right challenge is accepted"); }
        if !o.is_ack() {
            let _ = a.create_ack_message(None);
            sx::check(user_of(&mut a, b"x").is_err(), "no success without a fresh ACK");
        }
    }
    /// P03: everything recorded in an old session, replayed: no ACK, no success
    fn p03_replayed_session() {
        let expected = sx::choose(2);
        let p_old = Spec::new(9);
        let (_old, old_epk, old_connect) = started(None);
        let rec = [p_old.connect(b"c"), p_old.ack(&old_epk, b"a"), old_connect, peer::signed(peer::ack_clear(&p_old.epk, b""), &peer::keypair(7))];
        let (mut a, _epk, own) = started(if expected == 1 { Some(p_old.pk()) } else { None });
        let own_ack = peer::signed(peer::ack_clear(&p_old.epk, b""), &peer::keypair(7));
        let mut acked = false;
        for _ in 0..4 {
            let k = sx::choose(7);
            let o = match k {
                0..=3 => out(a.read(&rec[k as usize])),
                4 => { let _ = a.create_ack_message(None); Out::Kept }
                5 => if expected == 1 { out(a.read(&own)) } else { out(a.read(&own_ack)) },
                _ => out(a.take_ack_msg_recv_too_early()),
            };
            if o.is_ack() { acked = true; }
            if o.is_connect() { sx::reach("old CONNECT"); }
            sx::check(!acked, "a recorded ACK is worthless in a new session");
        }
        sx::check(user_of(&mut a, b"x").is_err(), "a recorded session never ends in success");
    }
    /// P03: a signature by the right key over one kind of message is no use for another kind
    fn p03_confusion() {
        // whatever 64 bytes the peer signed elsewhere, here arbitrary signed application bytes
        let n = match sx::choose(3) { 0 => 18usize, 1 => 50, _ => 86 };
        let ack = sx::choose(2) == 1;
        let body = sx::bytes(n, "signed");
        let p = Spec::new(9);
        let (mut a, epk, _) = started(Some(p.pk()));
        if ack { let _ = a.read(&p.connect(b"")); }
        let m = peer::signed(body.clone(), &p.kp);
        let o = out(a.read(&m));
        if !o.refused() && !o.kept() { sx::reach("accepted"); } else { sx::reach("refused"); }
        match o {
            Out::Ack(_) => {
                let mut w = peer::ack_clear(&epk, b"");
                w.extend_from_slice(&body[50..]);
                w[15] = body[15];
                sx::check(body.len() >= 50 && sx::eq(&body, &w) && body[15] as usize == body.len() - 16, "a signed text is only accepted as the ACK it spells out");
            }
            Out::Connect(pk, d) => {
                sx::check(pk == p.pk() && n == 86 && d.is_empty(), "a signed text is only accepted as the CONNECT it spells out");
                sx::check(sx::eq(&body[..18], &peer::header(70, 1)), "an accepted CONNECT has the documented header");
            }
            Out::User(_) => sx::check(false, "a clear text is never a user message"),
            _ => {}
        }
    }

    /// P03: negotiation messages travel in clear, signed: any other wrapping of genuine ones is refused
    fn p03_wrapped() {
        let st = 1 + sx::choose(3);
        let ack = sx::choose(2) == 1;
        let how = sx::choose(5);
        let mut p = Spec::new(9);
        let (mut a, epk, _) = started(None);
        p.agree(&epk);
        if st >= 2 { sx::check(out(a.read(&p.connect(b""))).is_connect(), "setup: valid CONNECT accepted"); }
        if st >= 3 { sx::check(a.create_ack_message(None).is_ok(), "setup: ACK can be written"); }
        let d = sx::bytes(1, "data");
        let clear = if ack { peer::ack_clear(&epk, &d) } else { peer::connect_clear(&p.epk, &[0; 4], &p.pk(), &d) };
        let m = match how {
            0 => peer::seal(p.key(), &peer::signed(clear, &p.kp)),
            1 => peer::seal(p.key(), &peer::hashed(clear)),
            2 => peer::seal(p.key(), &clear),
            3 => peer::hashed(clear),
            _ => clear,
        };
        sx::assume(how > 2 || !m.starts_with(&peer::MAGIC));
        let mut o = out(a.read(&m));
        if o.kept() {
            sx::check(ack && st == 1, "only an ACK is kept for later");
            let _ = a.read(&p.connect(b""));
            o = out(a.take_ack_msg_recv_too_early());
        }
        sx::check(o.refused(), "a negotiation message in another wrapping is refused");
        let r = a.drain_tmp_stack_user_msgs();
        sx::check(r.map(|v| v.is_empty()).unwrap_or(true), "a negotiation message in another wrapping is not kept");
        sx::reach("done");
    }
    /// P03: sequences of genuine, recorded and altered negotiation messages
    fn p03_world() {
        let p = Spec::new(9);
        let (_old, old_epk, _) = started(None);
        let expected = sx::choose(2) == 1;
        let (mut a, epk, _) = started(if expected { Some(p.pk()) } else { None });
        let d = sx::bytes(1, "data");
        let x = sx::bytes(1, "flip");
        sx::assume(x[0] != 0);
        let (mut connected, mut acked, mut kept) = (false, false, 0u64);
        for _ in 0..(if sx::thorough() { 7 } else { 6 }) {
            let k = sx::choose(7);
            let flip = |mut m: Vec<u8>, at: usize| { m[at] ^= x[0]; m };
            let m = match k {
                0 => p.connect(&d),
                1 => p.ack(&epk, &d),
                2 => p.ack(&old_epk, &d),
                // the custom data, which comes right before the signature
                3 => flip(p.connect(&d), 86),
                4 => flip(p.ack(&epk, &d), 50),
                5 => { let _ = a.create_ack_message(None); continue }
                _ => flip(p.ack(&epk, &d), 49),
            };
            let mut o = out(a.read(&m));
            let mut by = k;
            if o.kept() {
                sx::check((k == 1 || k == 4) && !connected, "only an ACK of this session is kept for later");
                kept = k;
            }
            if o.is_connect() {
                sx::check(k == 0 && !connected && o.data() == &d[..], "a CONNECT is accepted once, unaltered");
                connected = true;
                sx::reach("connect");
                o = out(a.take_ack_msg_recv_too_early());
                by = kept;
            }
            if o.is_ack() {
                sx::check(by == 1 && (connected || expected) && !acked && o.data() == &d[..], "an ACK is accepted once, unaltered, for this session");
                acked = true;
                sx::reach("ack");
            }
        }
    }

    /// P04: arbitrary bytes are never delivered as user data
    fn p04_inject() {
        let st = 3 + sx::choose(2);
        let n = sx::choose(if sx::thorough() { 160 } else { 100 }) as usize;
        let d = sx::bytes(1, "data");
        let m = sx::bytes(n, "m");
        let (mut a, mut p) = minimal_in(st, false);
        let genuine = [p.user(&d), p.user(b"")];
        let mut o = out(a.read(&m));
        if st == 3 && o.kept() {
            sx::reach("kept");
            sx::check(genuine.iter().any(|g| sx::eq(g, &m)), "only bytes the peer sealed are kept");
            return;
        }
        if let Out::User(x) = o {
            sx::reach("delivered");
            if sx::eq(&m, &genuine[0]) { sx::check(sx::eq(&x, &d), "user data arrives unchanged"); }
            else { sx::check(sx::eq(&m, &genuine[1]) && x.is_empty(), "only what the peer sealed is delivered"); }
            o = Out::Kept;
        }
        if o.refused() { sx::reach("refused"); }
    }
    /// P04: a sealed message changed in any way is refused
    fn p04_tamper() {
        let st = 3 + sx::choose(2);
        let n = data_len();
        let d = sx::bytes(n, "data");
        let (mut a, mut p, epk) = { let mut p = Spec::new(9); let (mut a, epk, _) = started(None); p.agree(&epk); let r = a.read(&p.connect(b"")); sx::check(r.is_ok(), "setup: valid CONNECT accepted"); sx::check(a.create_ack_message(None).is_ok(), "setup: ACK can be written"); (a, p, epk) };
        if st == 4 { let r = a.read(&p.ack(&epk, b"")); sx::check(r.is_ok(), "setup: valid ACK accepted"); }
        let m = p.user(&d);
        let t = tamper(&m);
        let mut o = out(a.read(&t));
        if st == 3 && o.kept() {
            let r = a.read(&p.ack(&epk, b""));
            sx::check(out(r).is_ack(), "setup: valid ACK accepted");
            o = match a.drain_tmp_stack_user_msgs() {
                Ok(mut v) => { sx::check(v.len() == 1, "an early message is delivered once"); out_of(v.remove(0)) }
                Err(_) => Out::Refused,
            };
            sx::reach("early");
        }
        match o {
            Out::User(x) => {
                sx::reach("delivered");
                sx::check(sx::eq(&t, &m), "an altered user message is refused");
                sx::check(sx::eq(&x, &d), "user data arrives unchanged");
            }
            _ => { sx::reach("refused"); sx::check(!sx::eq(&t, &m), "a genuine user message is delivered"); }
        }
    }
    /// P04: a message of another session, or in clear, or of the wrong kind, is refused
    fn p04_foreign() {
        let st = sx::choose(9);
        let kind = sx::choose(6);
        let d = sx::bytes(2, "data");
        let (mut a, p) = minimal_in(st, false);
        let (_b, q) = negotiated();
        let (_c, _cepk, _cc) = started(None);
        let m = match kind {
            // sealed by the same peer identity, in another session
            0 => q.user_at(0, &d),
            // in clear, with the right hash
            1 => peer::hashed(peer::user_clear(0, &d)),
            // in clear, signed by the peer
            2 => peer::signed(peer::user_clear(0, &d), &p.kp),
            // sealed with a key the attacker invented
            3 => peer::seal(&sx::bytes(48, "key"), &peer::hashed(peer::user_clear(0, &d))),
            // negotiation messages must be in clear
            4 => { sx::assume(p.key.is_some()); peer::seal(p.key(), &p.connect(&d)) }
            _ => { sx::assume(p.key.is_some() && st != 0); peer::seal(p.key(), &p.ack(&p.epk, &d)) }
        };
        if kind == 3 {
            // bytes that pass for a clear message: see p04_inject
            sx::assume(m[..4] != peer::MAGIC);
        }
        if kind == 3 && p.key.is_some() {
            let k = p.key();
            sx::assume(!sx::eq(&m, &peer::seal(k, &peer::hashed(peer::user_clear(0, &d)))));
        }
        let o = out(a.read(&m));
        sx::check(o.refused(), "messages not sealed in this session are refused");
        let r = a.drain_tmp_stack_user_msgs();
        sx::check(match r { Ok(v) => v.is_empty(), Err(_) => true }, "messages not sealed in this session are not kept");
        sx::reach("done");
    }
    /// P04: sequences: whatever else arrives around genuine messages, only they are delivered
    fn p04_world() {
        let mut p = Spec::new(9);
        let (mut a, epk, _) = started(None);
        p.agree(&epk);
        let (_b, q) = negotiated();
        sx::check(out(a.read(&p.connect(b""))).is_connect(), "setup: valid CONNECT accepted");
        sx::check(a.create_ack_message(None).is_ok(), "setup: ACK can be written");
        let d = sx::bytes(1, "data");
        let e = sx::bytes(1, "other");
        sx::assume(e != d);
        let mut acked = false;
        let mut genuine = false;
        let mut got = 0;
        let mut dead = false;
        for i in 0..(if sx::thorough() { 7 } else { 6 }) {
            let k = sx::choose(8);
            let n = i as u64;
            let m = match k {
                0 => { if acked { sx::assume(false); } p.ack(&epk, b"") }
                // the only genuine user message
                1 => { genuine = true; p.user_at(0, &d) }
                2 => peer::hashed(peer::user_clear(n + 1, &e)),
                3 => peer::signed(peer::user_clear(n + 1, &e), &p.kp),
                4 => q.user_at(n + 1, &e),
                5 => { let mut m = p.user_at(0, &d); m[26] ^= d[0] ^ e[0]; m }
                // encrypted by somebody who has the key, but the hash is of something else
                6 => { let mut m = peer::user_clear(n + 1, &e); m.extend_from_slice(&peer::sha256(b"x")); peer::seal(p.key(), &m) }
                _ => peer::seal(q.key(), &peer::hashed(peer::user_clear(n + 1, &e))),
            };
            sx::assume(k == 0 || k == 2 || k == 3 || !m.starts_with(&peer::MAGIC));
            let o = out(a.read(&m));
            let mut user = vec![];
            if o.is_ack() {
                acked = true;
                sx::reach("ack");
                if let Ok(v) = a.drain_tmp_stack_user_msgs() { for x in v { user.push(out_of(x)); } }
            } else if o.is_user() {
                sx::check(k == 1, "only what the peer sealed is delivered");
                user.push(o);
            } else if o.refused() && k != 1 || k == 6 {
                dead = true;
            }
            for u in user {
                sx::check(u.is_user() && sx::eq(u.data(), &d) && genuine, "only what the peer sealed is delivered");
                got += 1;
                sx::reach("delivered");
            }
            sx::check(got <= 1, "a message is delivered once");
        }
        if !dead && genuine && acked { sx::check(got == 1 , "a genuine message is delivered"); }
    }
    /// P04: the hash inside the encryption is verified
    fn p04_hash() {
        let st = 3 + sx::choose(2);
        let n = sx::choose(3) as usize;
        let d = sx::bytes(n, "data");
        let hl = match sx::choose(5) { 0 => 32, 1 => 0, 2 => 31, 3 => 33, _ => 64 };
        let h = sx::bytes(hl, "hash");
        let mut p = Spec::new(9);
        let (mut a, epk, _) = started(None);
        p.agree(&epk);
        let r = a.read(&p.connect(b""));
        sx::check(r.is_ok(), "setup: valid CONNECT accepted");
        sx::check(a.create_ack_message(None).is_ok(), "setup: ACK can be written");
        if st == 4 { let r = a.read(&p.ack(&epk, b"")); sx::check(r.is_ok(), "setup: valid ACK accepted"); }
        let mut m = peer::user_clear(0, &d);
        let good = hl == 32 && h == peer::sha256(&m);
        m.extend_from_slice(&h);
        let mut o = out(a.read(&peer::seal(p.key(), &m)));
        if st == 3 {
            let _ = a.read(&p.ack(&epk, b""));
            o = match a.drain_tmp_stack_user_msgs() { Ok(v) => if v.is_empty() { Out::Refused } else { Out::User(vec![]) }, Err(_) => Out::Refused };
        }
        if o.is_user() { sx::reach("delivered"); sx::check(good, "a user message with a wrong hash is refused"); }
        else { sx::reach("refused"); sx::check(!good, "a user message with the right hash is delivered"); }
    }
    /// P04: one's own messages, sent back by the network
    fn p04_reflect() {
        let (mut a, mut p) = negotiated();
        let d = sx::bytes(2, "data");
        let m = user_of(&mut a, &d).ok().unwrap();
        let before = sx::choose(2);
        if before == 1 { let r = a.read(&p.user(b"p")); sx::check(out(r).is_user(), "setup: genuine user message delivered"); }
        let o = out(a.read(&m));
        sx::reach("reflected");
        sx::check(!o.is_user(), "one's own message sent back is not delivered as the peer's");
    }

    /// P05/P06: messages with arbitrary distinct numbers, delivered in any order and multiplicity
    fn p05_replay() {
        let n = if sx::thorough() { 5 } else { 4 };
        let l = if sx::thorough() { 6 } else { 5 };
        let (mut a, p) = negotiated();
        let mut nonce = vec![];
        let mut m = vec![];
        for i in 0..n {
            let x = sx::u64v(NAMES[i]);
            sx::assume(x != u64::max_value());
            for y in &nonce { sx::assume(*y != x); }
            nonce.push(x);
            m.push(p.user_at(x, &[i as u8]));
        }
        let mut seen = [false; 8];
        for _ in 0..l {
            let k = sx::choose(n as u64) as usize;
            let o = out(a.read(&m[k]));
            if seen[k] { sx::check(!o.is_user(), "no message is delivered twice"); sx::reach("replay"); }
            else {
                sx::check(o == Out::User(vec![k as u8]), "each message is delivered, whatever the order");
                seen[k] = true;
                sx::reach("delivered");
            }
        }
    }
    /// P05: a second message under a number already used is refused, even with other content
    fn p05_number() {
        let (mut a, p) = negotiated();
        let x = sx::u64v("x");
        sx::assume(x != u64::max_value());
        let y = sx::u64v("y");
        sx::assume(y != u64::max_value());
        let z = sx::u64v("z");
        sx::assume(z != u64::max_value());
        let o1 = out(a.read(&p.user_at(x, b"1")));
        sx::check(o1.is_user(), "a first message is delivered");
        let o2 = out(a.read(&p.user_at(y, b"2")));
        sx::check(o2.is_user() == (x != y), "a number is accepted exactly once");
        let o3 = out(a.read(&p.user_at(z, b"3")));
        sx::check(o3.is_user() == (z != x && z != y), "a number is accepted exactly once");
        if x == y || z == x || z == y { sx::reach("replay"); } else { sx::reach("all new"); }
    }
    /// P05: a refused message uses up no number: the genuine one under it is still delivered, once
    fn p05_refused() {
        let (mut a, p) = negotiated();
        let k = sx::choose(4);
        if k > 1 { sx::check(out(a.read(&p.user_at(0, b"0"))).is_user(), "a first message is delivered"); }
        if k & 1 == 1 { sx::check(out(a.read(&p.user_at(2, b"2"))).is_user(), "each message is delivered, whatever the order"); }
        let x = sx::u64v("x");
        let used = k > 1 && x == 0 || k & 1 == 1 && x == 2;
        let mut m = peer::user_clear(x, b"bad");
        match sx::choose(4) {
            0 => { let h = sx::bytes(32, "hash"); sx::assume(h != peer::sha256(&m)); m.extend_from_slice(&h); }
            1 => m.extend_from_slice(&sx::bytes(31, "hash")),
            2 => {}
            _ => { m = peer::hashed(m); m.push(0); }
        }
        sx::check(!out(a.read(&peer::seal(p.key(), &m))).is_user(), "a user message with a wrong hash is refused");
        let y = sx::u64v("y");
        let o = out(a.read(&p.user_at(y, b"good")));
        let known = k > 1 && y == 0 || k & 1 == 1 && y == 2;
        sx::check(o.is_user() == !known, "a refused message uses up no number");
        sx::check(!out(a.read(&p.user_at(y, b"good"))).is_user(), "no message is delivered twice");
        if y == x { sx::reach("same"); } else { sx::reach("other"); }
        if used { sx::reach("used"); }
    }
    /// P05: with the most messages that may wait ahead of a missing one
    fn p05_ahead() {
        let (mut a, p) = negotiated();
        let order = sx::choose(2);
        let mut all = true;
        for i in 1..=10_000u64 {
            let k = if order == 0 { i } else { 10_001 - i };
            all &= out(a.read(&p.user_at(k, b""))).is_user();
        }
        sx::check(all, "each message is delivered, whatever the order");
        let x = sx::u64v("x");
        sx::assume(x <= 3 || x >= 4_998 && x < 5_001 || x > 8_998 && x < 9_003 || x > 9_998 && x <= 10_000);
        let o = out(a.read(&p.user_at(x, b"x")));
        sx::check(o.is_user() == (x == 0), "a number is accepted exactly once");
        let y = [1u64, 5_000, 10_000][sx::choose(3) as usize];
        sx::check(out(a.read(&p.user_at(y, b"x"))).refused(), "no message is delivered twice");
        sx::reach(if x == 0 { "filled" } else { "replay" });
    }
    /// P05: early messages (before the ACK), with duplicates, then more duplicates
    fn p05_early() {
        let mut p = Spec::new(9);
        let (mut a, epk, _) = started(None);
        p.agree(&epk);
        let r = a.read(&p.connect(b""));
        sx::check(r.is_ok(), "setup: valid CONNECT accepted");
        sx::check(a.create_ack_message(None).is_ok(), "setup: ACK can be written");
        let n = 3usize;
        let mut nonce = vec![];
        let mut m = vec![];
        for i in 0..n {
            let x = sx::u64v(NAMES[i]);
            sx::assume(x != u64::max_value());
            for y in &nonce { sx::assume(*y != x); }
            nonce.push(x);
            m.push(p.user_at(x, &[i as u8]));
        }
        let early = sx::choose(if sx::thorough() { 5 } else { 4 });
        let mut got = [0u32; 8];
        let mut sent = [false; 8];
        for _ in 0..early {
            let k = sx::choose(n as u64) as usize;
            let o = out(a.read(&m[k]));
            sx::check(!o.is_user(), "nothing is delivered before the negotiation succeeded");
            sx::check(o.kept() || sent[k], "an early message is kept");
            sent[k] = true;
        }
        let r = a.read(&p.ack(&epk, b""));
        sx::check(out(r).is_ack(), "the ACK is accepted after early messages");
        let v = a.drain_tmp_stack_user_msgs();
        sx::check(v.is_ok(), "early messages can be fetched, duplicates or not");
        for x in v.unwrap_or_default() {
            let d = out_of(x);
            sx::check(d.is_user() && d.data().len() == 1 && (d.data()[0] as usize) < n, "early messages arrive unchanged");
            got[d.data()[0] as usize] += 1;
        }
        for k in 0..n {
            sx::check(got[k] == if sent[k] { 1 } else { 0 }, "each early message is delivered exactly once");
        }
        let late = 2;
        for _ in 0..late {
            let k = sx::choose(n as u64) as usize;
            let o = out(a.read(&m[k]));
            if sent[k] { sx::check(!o.is_user(), "no message is delivered twice"); sx::reach("replay"); }
            else { sx::check(o == Out::User(vec![k as u8]), "each message is delivered, whatever the order"); sx::reach("late"); }
            sent[k] = true;
        }
    }
    /// P05: after many messages, in order or not, all of them are still known
    fn p05_long() {
        let (mut a, p) = negotiated();
        let n = if sx::thorough() { 66_000u64 } else { 11_000 };
        let order = sx::choose(3);
        let n = if order == 2 && n < 20_000 { 20_000 } else { n };
        let mut all = true;
        for i in 0..n {
            // in order; pairs swapped; the first one last
            let k = match order { 0 => i, 1 => i ^ 1, _ => if i < 9_000 { i + 1 } else if i == 9_000 { 0 } else { i } };
            all &= out(a.read(&p.user_at(k, b""))).is_user();
        }
        sx::check(all, "each message is delivered, whatever the order");
        let x = sx::u64v("x");
        sx::assume(x <= 20 || x >= n - 20 && x != u64::max_value());
        let seen = x < n;
        let o = out(a.read(&p.user_at(x, b"x")));
        sx::check(o.is_user() != seen, "a number is accepted exactly once");
        sx::reach(if seen { "replay" } else { "new" });
    }
    /// P05: what was delivered before cloning is not delivered again by the clone, and vice versa per layer
    fn p05_clone() {
        let (mut a, p) = negotiated();
        let x = sx::u64v("x");
        let y = sx::u64v("y");
        sx::assume(x != u64::max_value() && y != u64::max_value());
        let m = p.user_at(x, b"1");
        sx::check(out(a.read(&m)).is_user(), "a first message is delivered");
        let mut c = match a.try_clone() { Ok(c) => c, Err(_) => { sx::check(false, "setup: a negotiated layer can be cloned"); return } };
        sx::check(!out(c.read(&m)).is_user(), "a clone does not deliver again what was delivered before");
        let o = out(c.read(&p.user_at(y, b"2")));
        sx::check(o.is_user() == (x != y), "a clone continues the numbering");
        sx::check(!out(c.read(&p.user_at(y, b"2"))).is_user(), "no message is delivered twice");
        sx::check(!out(a.read(&m)).is_user(), "no message is delivered twice");
        sx::reach("done");
    }
}
