//! P06 order tolerance, P07 state machine, P08 fail-stop, P09 delivery orders.
use crate::peer::{self, Spec};
use crate::props::*;
use crate::sx;
use pkstl::*;

const NAMES: [&str; 8] = ["d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7"];
const FRESH: [&str; 8] = ["sig0", "sig1", "sig2", "sig3", "sig4", "sig5", "sig6", "sig7"];

/// two real layers, negotiated, from the minimal API
fn pair() -> (MinimalSecureLayer, MinimalSecureLayer) {
    let (ka, kb) = (peer::keypair(7), peer::keypair(8));
    let mut a = minimal(None);
    let mut b = minimal(None);
    let ca = a.create_connect_message(&peer::pk(&ka), None).ok().unwrap();
    let cb = b.create_connect_message(&peer::pk(&kb), None).ok().unwrap();
    let ok = a.read(&peer::signed(cb, &kb)).is_ok() & b.read(&peer::signed(ca, &ka)).is_ok();
    sx::check(ok, "setup: CONNECT messages accepted");
    let aa = a.create_ack_message(None);
    let ab = b.create_ack_message(None);
    sx::check(aa.is_ok() && ab.is_ok(), "setup: ACK can be written");
    let ok = a.read(&peer::signed(ab.ok().unwrap(), &kb)).is_ok() & b.read(&peer::signed(aa.ok().unwrap(), &ka)).is_ok();
    sx::check(ok, "setup: ACK messages accepted");
    (a, b)
}

// ---------------------------------------------------------------- P07 model
/// the README's two threads
#[derive(Clone)]
struct Model {
    local: u8,
    remote: u8,
    failed: bool,
    /// a peer identity is known
    known: bool,
    early_ack: bool,
    /// early user messages not delivered yet
    waiting: Vec<u8>,
    /// user messages already accepted
    seen: Vec<u8>,
    sent: u64,
    cloned: bool,
}
impl Model {
    fn success(&self) -> bool {
        !self.failed && self.local == 3 && self.remote == 3
    }
}

struct Machine {
    a: MinimalSecureLayer,
    p: Spec,
    epk: Vec<u8>,
    m: Model,
    step: usize,
    user: u8,
}
const OPS: u64 = 18;
impl Machine {
    fn new(expected: bool) -> Machine {
        let p = Spec::new(9);
        let a = minimal(if expected { Some(p.pk()) } else { None });
        // the ephemeral key is in the CONNECT the layer writes; before that, only a peer with luck
        // (or a memory disclosure) knows it
        let epk = epk_inside(&a).unwrap_or_default();
        Machine { a, p, epk, m: Model { local: 1, remote: 1, failed: false, known: expected, early_ack: false, waiting: vec![], seen: vec![], sent: 0, cloned: false }, step: 0, user: 0 }
    }
    fn op(&mut self, k: u64) {
        let i = self.step;
        self.step += 1;
        let own = peer::keypair(7);
        match k {
            0 => {
                let r = self.a.create_connect_message(&peer::pk(&own), None);
                let want = !self.m.failed && self.m.local == 1;
                sx::check(r.is_ok() == want, "CONNECT can be written exactly once");
                if want {
                    self.m.local = 2;
                    self.epk = epk_of(&r.ok().unwrap());
                    if self.p.key.is_none() { let e = self.epk.clone(); self.p.agree(&e); }
                    sx::reach("connect written");
                }
            }
            1 => {
                let r = self.a.create_ack_message(None);
                let want = !self.m.failed && self.m.remote == 2;
                sx::check(r.is_ok() == want, "ACK can be written exactly once, after the peer's CONNECT");
                if want { self.m.remote = 3; sx::reach("ack written"); }
            }
            2 => {
                let d = sx::bytes(1, NAMES[i]);
                let r = user_of(&mut self.a, &d);
                let want = self.m.success();
                sx::check(r.is_ok() == want, "user messages can be written exactly when the negotiation succeeded");
                if want {
                    let w = r.ok().unwrap();
                    sx::check(sx::eq(&w, &self.p.user_at(self.m.sent, &d)), "a written user message is the documented one");
                    self.m.sent += 1;
                    sx::reach("user written");
                } else { self.m.failed = true; }
            }
            3 => {
                let d = sx::bytes(1, NAMES[i]);
                let r = out(self.a.read(&self.p.connect(&d)));
                let want = !self.m.failed && self.m.remote == 1;
                sx::check(r == if want { Out::Connect(self.p.pk(), d) } else { Out::Refused }, "CONNECT is accepted exactly once");
                if want { self.m.remote = 2; self.m.known = true; sx::reach("connect read"); } else { self.m.failed = true; }
            }
            4 => {
                // ACKs sent to clones: p13_ack
                if self.epk.is_empty() || self.m.cloned { sx::assume(false); }
                let d = sx::bytes(1, NAMES[i]);
                let r = out(self.a.read(&self.p.ack(&self.epk, &d)));
                if !self.m.known {
                    if self.m.early_ack || self.m.failed {
                        sx::check(r.refused() || r.kept(), "a further early ACK is not delivered");
                        if !r.kept() { self.m.failed = true; }
                    } else {
                        sx::check(r.kept(), "an early ACK is kept");
                        sx::reach("early ack");
                    }
                    self.m.early_ack = true;
                } else {
                    let want = !self.m.failed && self.m.local == 2;
                    sx::check(r == if want { Out::Ack(d) } else { Out::Refused }, "ACK is accepted exactly once, after the own CONNECT");
                    if want { self.m.local = 3; sx::reach("ack read"); } else { self.m.failed = true; }
                }
            }
            5 | 6 => {
                // a genuine user message: fresh, or a repetition
                if self.p.key.is_none() { sx::assume(false); }
                if k == 6 && self.user == 0 { sx::assume(false); }
                if k == 5 { self.user += 1; }
                let n = self.user - 1;
                let r = out(self.a.read(&self.p.user_at(n as u64, &[n])));
                let nego = !self.m.failed && self.m.local == 2 && self.m.remote == 3;
                if self.m.success() {
                    if self.m.seen.contains(&n) {
                        sx::check(r.refused(), "a user message is delivered once");
                        sx::reach("user repeated");
                    } else {
                        sx::check(r == Out::User(vec![n]), "user messages are delivered once the negotiation succeeded");
                        self.m.seen.push(n);
                        sx::reach("user read");
                    }
                } else if nego {
                    sx::check(r.kept(), "user messages that overtake the ACK are kept");
                    self.m.waiting.push(n);
                    sx::reach("user kept");
                } else {
                    sx::check(r.refused(), "user messages are refused before the own ACK");
                    if !self.m.seen.contains(&n) { self.m.failed = true; }
                }
            }
            7 => {
                // bytes that are no message at all
                let n = [0usize, 4, 20][sx::choose(3) as usize];
                let g = sx::bytes(n, NAMES[i]);
                sx::assume(!g.starts_with(&peer::MAGIC));
                let r = out(self.a.read(&g));
                sx::check(r.refused(), "bytes that are no message are refused");
                self.m.failed = true;
            }
            8 => {
                // CONNECT with any identity and any signature
                let pk = peer::any_identity(NAMES[i]);
                // (those of operation 14 are genuine)
                sx::assume(pk != peer::pk(&peer::keypair(66)));
                let sig = sx::bytes(64, FRESH[i]);
                let mut m = peer::connect_clear(&[9; 32], &[0; 4], &pk, b"");
                m.extend_from_slice(&sig);
                let r = out(self.a.read(&m));
                sx::check(r.refused(), "a forged CONNECT is refused");
                sx::reach("forged connect");
            }
            9 => {
                // ACK signed by the peer for another challenge
                if self.epk.is_empty() { sx::assume(false); }
                let c = sx::bytes(32, NAMES[i]);
                let mut m = peer::header(34, peer::T_ACK);
                sx::assume(c != peer::sha256(&self.epk));
                m.extend_from_slice(&c);
                let r = out(self.a.read(&peer::signed(m, &self.p.kp)));
                sx::check(r.refused(), "an ACK for another challenge is refused");
            }
            10 => {
                // ACK with the right challenge and any signature
                if self.epk.is_empty() || !self.m.known || self.m.cloned { sx::assume(false); }
                let mut m = peer::ack_clear(&self.epk, b"");
                m.extend_from_slice(&sx::bytes(64, FRESH[i]));
                let r = out(self.a.read(&m));
                sx::check(r.refused(), "an ACK with a wrong signature is refused");
            }
            11 => {
                let r = self.a.take_ack_msg_recv_too_early();
                if self.m.early_ack && self.m.known && !self.m.failed && self.m.local == 2 {
                    sx::check(out(r).is_ack(), "the early ACK is delivered once the peer is known");
                    self.m.local = 3;
                    self.m.early_ack = false;
                    sx::reach("early ack taken");
                } else if self.m.early_ack && self.m.known {
                    sx::check(out(r).refused(), "an early ACK is not delivered out of order");
                    self.m.failed = true;
                    self.m.early_ack = false;
                } else {
                    let o = out(r);
                    sx::check(o.kept() || o.refused(), "nothing to take");
                }
            }
            12 => {
                let r = self.a.drain_tmp_stack_user_msgs();
                if self.m.success() {
                    sx::check(r.is_ok(), "early user messages can be fetched");
                    let mut want = vec![];
                    for n in self.m.waiting.drain(..) {
                        if !self.m.seen.contains(&n) { self.m.seen.push(n); want.push(Out::User(vec![n])); }
                    }
                    let mut got: Vec<Out> = vec![];
                    for x in r.unwrap_or_default() { got.push(out_of(x)); }
                    if !want.is_empty() { sx::reach("drained"); }
                    for w in &want { sx::check(got.iter().filter(|g| *g == w).count() == 1, "each early user message is delivered once"); }
                    sx::check(got.len() == want.len(), "only early user messages are fetched");
                } else {
                    sx::check(r.map(|v| v.is_empty()).unwrap_or(true), "nothing is fetched before the negotiation succeeded");
                    // fetching messages before the negotiation succeeded: implementation-defined from here on
                    if !self.m.waiting.is_empty() { sx::assume(self.m.failed); }
                }
            }
            13 => {
                let r = self.a.try_clone();
                sx::check(r.is_ok() == self.m.success(), "cloning is possible exactly when the negotiation succeeded");
                if let Ok(c) = r { self.a = c; self.m.cloned = true; self.m.early_ack = false; sx::reach("cloned"); }
            }
            14 => {
                // a genuine CONNECT of somebody else
                if !self.m.known || self.m.cloned { sx::assume(false); }
                let e = peer::keypair(66);
                let r = out(self.a.read(&peer::signed(peer::connect_clear(&[9; 32], &[0; 4], &peer::pk(&e), b""), &e)));
                sx::check(r.refused(), "another identity's CONNECT is refused");
            }
            15 => {
                // a user message in clear, hash and signature right
                let m = peer::user_clear(self.user as u64 + 9, b"clear");
                let m = if sx::choose(2) == 0 { peer::hashed(m) } else { peer::signed(m, &self.p.kp) };
                sx::check(out(self.a.read(&m)).refused(), "a user message in clear is refused");
                self.m.failed = true;
            }
            16 => {
                // the awaited negotiation message, but encrypted
                if self.p.key.is_none() { sx::assume(false); }
                let m = if sx::choose(2) == 0 { self.p.ack(&self.epk, b"") } else { self.p.connect(b"") };
                sx::check(out(self.a.read(&peer::seal(self.p.key(), &m))).refused(), "an encrypted negotiation message is refused");
                self.m.failed = true;
            }
            _ => {
                // CONNECT under the peer's name, genuine bytes, but the signature cut off
                let mut m = self.p.connect(b"");
                let n = m.len();
                m.truncate(n - 64);
                let r = out(self.a.read(&m));
                sx::check(r.refused(), "an unsigned CONNECT is refused");
            }
        }
    }
}

// --------------------------------------------------------- P09 any schedule
enum Side { M(MinimalSecureLayer), C(SecureLayer) }
struct Node {
    s: Side,
    kp: ring::signature::Ed25519KeyPair,
    sent_connect: bool,
    sent_ack: bool,
    got_connect: bool,
    got_ack: bool,
    users: u8,
    got: Vec<Vec<u8>>,
    inbox: Vec<(Vec<u8>, u8)>,
    /// what the peer's CONNECT and ACK carry (empty: nothing)
    custom: [Vec<u8>; 2],
}
impl Node {
    fn new(complete: bool, seed: u8) -> Node {
        Node {
            s: if complete { Side::C(layer(seed, None)) } else { Side::M(minimal(None)) },
            kp: peer::keypair(seed), sent_connect: false, sent_ack: false, got_connect: false, got_ack: false, users: 0, got: vec![], inbox: vec![], custom: [vec![], vec![]],
        }
    }
    fn ready(&self) -> bool { self.sent_ack && self.got_ack && self.sent_connect && self.got_connect }
    fn connect(&mut self, d: &[u8]) -> Vec<u8> {
        self.sent_connect = true;
        let kp = &self.kp;
        let d = if d.is_empty() { None } else { Some(d) };
        let r = match &mut self.s {
            Side::M(a) => a.create_connect_message(&peer::pk(kp), d).map(|m| peer::signed(m, kp)),
            Side::C(a) => emit(|w| a.write_connect_msg_bin(d, w)),
        };
        sx::check(r.is_ok(), "CONNECT can be written at any time");
        r.unwrap_or_default()
    }
    fn ack(&mut self, d: &[u8]) -> Vec<u8> {
        self.sent_ack = true;
        let kp = &self.kp;
        let d = if d.is_empty() { None } else { Some(d) };
        let r = match &mut self.s {
            Side::M(a) => a.create_ack_message(d).map(|m| peer::signed(m, kp)),
            Side::C(a) => emit(|w| a.write_ack_msg_bin(d, w)),
        };
        sx::check(r.is_ok(), "ACK can be written once the peer's CONNECT was read");
        r.unwrap_or_default()
    }
    fn user(&mut self, d: &[u8]) -> Vec<u8> {
        self.users += 1;
        let r = match &mut self.s {
            Side::M(a) => user_of(a, d),
            Side::C(a) => emit(|w| a.write_bin(d, w)),
        };
        sx::check(r.is_ok(), "user messages can be written after the negotiation");
        let m = r.unwrap_or_default();
        // one session in 2^32 encrypts the first 4 bytes to themselves: stated limit
        sx::assume(!m.starts_with(&peer::MAGIC));
        m
    }
    fn event(&mut self, o: Out, other: &[u8]) {
        match o {
            Out::Connect(pk, d) => {
                sx::check(!self.got_connect && pk == other && d == self.custom[0], "the peer's CONNECT is delivered once, unchanged");
                self.got_connect = true;
            }
            Out::Ack(d) => {
                sx::check(!self.got_ack && self.got_connect && d == self.custom[1], "the peer's ACK is delivered once, unchanged");
                self.got_ack = true;
            }
            Out::User(d) => {
                sx::check(self.got_ack && self.sent_ack, "no user message before the negotiation succeeded");
                self.got.push(d);
            }
            _ => {}
        }
    }
    fn read(&mut self, m: &[u8], other: &[u8], again: bool) {
        let (r, ev) = match &mut self.s {
            Side::M(a) => {
                let o = out(a.read(m));
                let mut v = vec![o.clone()];
                if o.is_connect() {
                    match a.take_ack_msg_recv_too_early() { Ok(Some(x)) => v.push(out_of(x)), Ok(None) => {}, Err(_) => sx::check(false, "a genuine early ACK is accepted") }
                }
                if v[v.len() - 1].is_ack() && self.sent_ack {
                    match a.drain_tmp_stack_user_msgs() { Ok(x) => for y in x { v.push(out_of(y)) }, Err(_) => sx::check(false, "early user messages can be fetched") }
                }
                (!o.refused(), v)
            }
            Side::C(a) => match a.read_bin(m) {
                Err(_) => (false, vec![]),
                Ok(x) => (true, x.into_iter().map(|y| match y {
                    IncomingBinaryMessage::Connect { custom_data, peer_sig_public_key } => Out::Connect(peer_sig_public_key, custom_data.unwrap_or_default()),
                    IncomingBinaryMessage::Ack { custom_data } => Out::Ack(custom_data.unwrap_or_default()),
                    IncomingBinaryMessage::Message { data } => Out::User(data.unwrap_or_default()),
                }).collect()),
            },
        };
        sx::check(r || again, "every genuine message is accepted, whatever the delivery order");
        for o in ev { self.event(o, other); }
    }
}
/// run to the end, in every order
fn schedule(complete: u64, users: [u8; 2], dups: u32) {
    // arbitrary ephemeral keys in the shorter schedules
    if complete == 0 && users[0] + users[1] == 1 && dups == 0 { sx::symbolic_keys(); }
    let mut n = [Node::new(complete & 1 == 1, 7), Node::new(complete & 2 == 2, 8)];
    let pks = [peer::pk(&n[0].kp), peer::pk(&n[1].kp)];
    // what the messages carry: anything (compressed data, symbolic: p14)
    let sym = |n: usize, name: &str| if complete == 0 { sx::bytes(n, name) } else { name.as_bytes().to_vec() };
    let with = sx::choose(4);
    let custom = [if with & 1 == 0 { sym(2, "custom") } else { vec![] }, if with & 2 == 0 { sym(2, "custom2") } else { vec![] }];
    let mut data = [vec![], vec![]];
    for s in 0..2 {
        n[s].custom = custom.clone();
        for u in 0..users[s] {
            // one message is empty, perhaps
            if u == 0 && with == 3 { data[s].push(vec![]); continue; }
            let mut d = sym(2, NAMES[2 * s + u as usize]); d.push(u); data[s].push(d);
        }
    }
    let mut dups = dups;
    let mut early = false;
    loop {
        // enabled: (0 connect, 1 ack, 2 user, 3.. deliver i, 64.. deliver again i)
        let mut en: Vec<(usize, usize)> = vec![];
        for s in 0..2 {
            let x = &n[s];
            if !x.sent_connect { en.push((s, 0)); }
            if x.got_connect && !x.sent_ack { en.push((s, 1)); }
            if x.ready() && x.users < users[s] { en.push((s, 2)); }
            for (i, m) in x.inbox.iter().enumerate() {
                if m.1 != 2 { en.push((s, 3 + i)); }
                if dups > 0 && m.1 != 0 { en.push((s, 64 + i)); }
            }
        }
        if en.iter().all(|e| e.1 >= 64) { break; }
        let (s, k) = en[if en.len() == 1 { 0 } else { sx::choose(en.len() as u64) as usize }];
        match k {
            0 => { let m = n[s].connect(&custom[0]); n[1 - s].inbox.push((m, 0)); }
            1 => { let m = n[s].ack(&custom[1]); n[1 - s].inbox.push((m, 0)); }
            2 => { let u = n[s].users as usize; let m = n[s].user(&data[s][u]); n[1 - s].inbox.push((m, 1)); }
            _ if k < 64 => {
                let (m, kind) = n[s].inbox[k - 3].clone();
                // user messages stay around so that the network can repeat them
                if kind == 1 { n[s].inbox[k - 3].1 = 2; } else { n[s].inbox.remove(k - 3); }
                if kind == 1 && !n[s].got_ack { early = true; }
                n[s].read(&m, &pks[1 - s], false);
            }
            _ => {
                dups -= 1;
                let (m, kind) = n[s].inbox[k - 64].clone();
                // a duplicate that comes first is the delivery
                if kind == 1 { n[s].inbox[k - 64].1 = 2; }
                if kind == 1 && !n[s].got_ack { early = true; }
                n[s].read(&m, &pks[1 - s], true);
            }
        }
    }
    for s in 0..2 {
        sx::check(n[s].ready(), "both peers end the negotiation successfully");
        for d in &data[1 - s] {
            sx::check(n[s].got.iter().filter(|g| g[..] == d[..]).count() == 1, "each user message is delivered exactly once");
        }
        sx::check(n[s].got.len() == users[1 - s] as usize, "nothing else is delivered");
    }
    sx::reach(if early { "overtaken" } else { "in order" });
}

fn kill(a: &mut MinimalSecureLayer, p: &Spec, st: u64) -> bool {
    // returns whether the reference says this is a failure
    match sx::choose(8) {
        // undecodable bytes
        0 => {
            let n = [0usize, 1, 17, 40][sx::choose(4) as usize];
            let g = sx::bytes(n, "junk");
            sx::assume(!g.starts_with(&peer::MAGIC));
            sx::check(a.read(&g).is_err(), "undecodable bytes are refused");
            true
        }
        // another protocol version
        1 => {
            let v = sx::bytes(4, "version");
            sx::assume(v != peer::VERSION);
            let mut m = peer::MAGIC.to_vec();
            m.extend_from_slice(&v);
            m.extend_from_slice(&sx::bytes(80, "junk"));
            sx::check(a.read(&m).is_err(), "another protocol version is refused");
            true
        }
        // unknown message type
        2 => {
            let t = sx::bytes(2, "type");
            sx::assume(t[0] != 0 || t[1] > 2);
            let mut m = peer::header(100, 0);
            m.truncate(16);
            m.extend_from_slice(&t);
            m.extend_from_slice(&sx::bytes(98, "junk"));
            let m = peer::signed(m, &p.kp);
            sx::check(a.read(&m).is_err(), "an unknown message type is refused");
            true
        }
        // length that does not fit
        3 => {
            let l = sx::u64v("length");
            let mut m = p.connect(b"");
            sx::assume(l < 70 || l > 134);
            m[8..16].copy_from_slice(&l.to_be_bytes());
            sx::check(a.read(&m).is_err(), "a length that does not fit is refused");
            true
        }
        // genuine CONNECT once more
        4 => {
            sx::assume(st >= 2 && st <= 5 || st == 7);
            sx::check(a.read(&p.connect(b"")).is_err(), "a second CONNECT is refused");
            true
        }
        // premature or unauthenticated user data
        5 => {
            sx::assume(p.key.is_some());
            let mut m = peer::seal(p.key(), &peer::hashed(peer::user_clear(0, b"x")));
            let n = m.len() - 1;
            let x = sx::u8v("flip");
            sx::assume(x != 0);
            m[n] ^= x;
            sx::assume(!m.starts_with(&peer::MAGIC));
            sx::check(a.read(&m).is_err(), "unauthentic ciphertext is refused");
            true
        }
        // user data written before the negotiation succeeded
        6 => {
            sx::assume(st != 4);
            let n = sx::choose(3) as usize;
            sx::check(user_of(a, &b"xy"[..n]).is_err(), "no user data before the negotiation succeeded");
            true
        }
        // the writer fails
        _ => {
            sx::assume(st == 4);
            struct Bad;
            impl std::io::Write for Bad {
                fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::from_raw_os_error(32)) }
                fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
            }
            let r = { let mut w = std::io::BufWriter::with_capacity(1, Bad); a.write_message(b"x", &mut w) };
            sx::check(r.is_err(), "a failing writer is reported");
            true
        }
    }
}

entries! {
    /// P09: many messages overtake the ACK, in several orders: all are delivered when it comes
    fn p09_early() {
        let n = [1usize, 3, 40, 1_100, 11_000][sx::choose(if sx::thorough() { 5 } else { 4 }) as usize];
        let order = sx::choose(4);
        let complete = sx::choose(2) == 1;
        let clone = sx::choose(2) == 1;
        let mut idx: Vec<usize> = (0..n).collect();
        match order { 1 => idx.reverse(), 2 => idx.rotate_left(1), 3 => for k in (0..n - n % 2).step_by(2) { idx.swap(k, k + 1) }, _ => {} }
        // the limit on messages ahead of a missing one
        if n > 10_000 { sx::assume(order == 0 || order == 3); }
        let content = |i: usize| -> Vec<u8> { if i == 0 && !complete { vec![] } else { vec![i as u8, (i >> 8) as u8, 7] } };
        let mut got: Vec<Vec<u8>> = vec![];
        if complete {
            let (mut a, p, epk) = complete_at(3);
            for i in &idx { sx::check(a.read_bin(&p.user_at(*i as u64, &stored(&content(*i)))).map(|x| x.is_empty()).unwrap_or(false), "user messages that overtake the ACK are kept"); }
            match a.read_bin(&p.ack(&epk, b"")) {
                Ok(v) => for (k, x) in v.into_iter().enumerate() {
                    match x {
                        IncomingBinaryMessage::Ack { .. } => sx::check(k == 0, "the ACK is delivered first"),
                        IncomingBinaryMessage::Message { data } => got.push(data.unwrap_or_default()),
                        _ => sx::check(false, "nothing else is delivered"),
                    }
                },
                Err(_) => sx::check(false, "a genuine ACK is accepted"),
            }
        } else {
            let (mut a, p) = minimal_in(3, false);
            for i in &idx { sx::check(out(a.read(&p.user_at(*i as u64, &content(*i)))).kept(), "user messages that overtake the ACK are kept"); }
            let epk = epk_inside(&a).unwrap_or_default();
            sx::check(out(a.read(&p.ack(&epk, b""))).is_ack(), "a genuine ACK is accepted");
            // a clone made before they are fetched takes nothing away
            let c = if clone { Some(a.try_clone()) } else { None };
            match a.drain_tmp_stack_user_msgs() {
                Ok(v) => for x in v { match out_of(x) { Out::User(d) => got.push(d), _ => sx::check(false, "nothing else is delivered") } },
                Err(_) => sx::check(false, "early user messages can be fetched"),
            }
            drop(c);
        }
        sx::check(got.len() == n, "each early user message is delivered once");
        got.sort();
        let mut want: Vec<Vec<u8>> = (0..n).map(content).collect();
        want.sort();
        sx::check(got == want, "early user messages are delivered unchanged");
        sx::reach("done");
    }
    /// P06: messages of the real layer in any order, all delivered once
    fn p06_order() {
        let n = if sx::thorough() { 6 } else { 5 };
        let (mut a, mut b) = pair();
        let mut bag = vec![];
        for i in 0..n {
            let d = sx::bytes(1 + i % 2, NAMES[i]);
            let r = user_of(&mut a, &d);
            sx::check(r.is_ok(), "user messages can be written");
            bag.push((r.unwrap_or_default(), d));
        }
        while !bag.is_empty() {
            let k = sx::choose(bag.len() as u64) as usize;
            let (m, d) = bag.remove(k);
            match out(b.read(&m)) {
                Out::User(x) => sx::check(sx::eq(&x, &d), "user data arrives unchanged"),
                _ => sx::check(false, "each message is delivered, whatever the order"),
            }
        }
        let m = user_of(&mut a, b"last").unwrap_or_default();
        sx::check(out(b.read(&m)) == Out::User(b"last".to_vec()), "the connection goes on after reordering");
        sx::reach("done");
    }
    /// P06: some messages never arrive; arbitrary gaps
    fn p06_gaps() {
        let n = if sx::thorough() { 5 } else { 4 };
        let (mut a, p) = negotiated();
        let mut prev: Vec<u64> = vec![];
        for i in 0..n {
            let x = sx::u64v(NAMES[i]);
            sx::assume(x != u64::max_value());
            let new = !prev.iter().any(|y| *y == x);
            let o = out(a.read(&p.user_at(x, &[i as u8])));
            sx::check(o.is_user() == new, "a number is accepted exactly when it is new, whatever is missing before it");
            if new { sx::check(o.data() == [i as u8], "user data arrives unchanged"); sx::reach("new"); } else { sx::reach("old"); }
            prev.push(x);
        }
    }
    /// P06: the limit of 10,000 messages ahead of a missing one
    fn p06_limit() {
        // message `miss` is missing, 10,000 later ones arrive
        let kind = sx::choose(6);
        let (mut a, p) = minimal_in(if kind == 4 { 3 } else { 4 }, false);
        let prefix: &[u64] = [&[][..], &[0], &[1, 2, 0], &[0, 3, 4, 2, 1], &[1, 0], &[]][kind as usize];
        let miss = prefix.len() as u64;
        for i in prefix {
            let o = out(a.read(&p.user_at(*i, b"")));
            sx::check(if kind == 4 { o.kept() } else { o.is_user() }, "each message is delivered, whatever the order");
        }
        if kind == 4 {
            // the beginning came before the ACK
            let epk = epk_inside(&a).unwrap_or_default();
            sx::check(out(a.read(&p.ack(&epk, b""))).is_ack(), "a genuine ACK is accepted");
            sx::check(a.drain_tmp_stack_user_msgs().map(|v| v.len()).unwrap_or(0) == 2, "early user messages can be fetched");
        }
        let mut all = true;
        for i in 1..=10_000u64 {
            all &= out(a.read(&p.user_at(miss + i, b""))).is_user();
            if kind == 5 && i == 5_000 {
                // a clone takes over in the middle
                match a.try_clone() { Ok(c) => a = c, Err(_) => sx::check(false, "setup: a negotiated layer can be cloned") }
            }
        }
        sx::check(all, "10,000 messages ahead of a missing one are delivered");
        let x = sx::u64v("x");
        sx::assume(x <= 6 || x == 5_000 || x > 9_999 && x < 10_008 || x == 1 << 40);
        let r = a.read(&p.user_at(x, b"x"));
        let o = out(r);
        let next = out(a.read(&p.user_at(20_000, b"y")));
        if x > miss + 10_000 {
            sx::reach("beyond");
            sx::check(o.refused(), "the 10,001st message ahead of a missing one is refused");
            sx::check(next.refused(), "the connection fails beyond 10,000 messages ahead");
            sx::check(out(a.read(&p.user_at(miss, b"z"))).refused(), "the connection fails beyond 10,000 messages ahead");
        } else if x == miss {
            sx::reach("filled");
            sx::check(o.is_user(), "the missing message is delivered");
            sx::check(next.is_user(), "the window moves on when the gap is filled");
            // as many again may wait ahead of the next one
            let mut all = true;
            for i in 2..=10_000u64 {
                all &= out(a.read(&p.user_at(miss + 10_000 + i, b""))).is_user() || miss + 10_000 + i == 20_000;
            }
            sx::check(all, "filling a gap frees what was waiting on it");
        } else {
            sx::reach("repeated");
            sx::check(o.refused(), "no message is delivered twice");
        }
    }

    /// P07: any sequence of operations against the README's state machine
    fn p07_machine() {
        let expected = sx::choose(2) == 1;
        let k = if sx::thorough() { 5 } else { 4 };
        let mut m = Machine::new(expected);
        for _ in 0..k { let o = sx::choose(OPS); m.op(o); }
    }
    /// P07: from a layer that has done half of the negotiation
    fn p07_machine2() {
        let expected = sx::choose(2) == 1;
        let start = sx::choose(6);
        let k = if sx::thorough() { 5 } else { 4 };
        let mut m = Machine::new(expected);
        match start {
            // a peer that knows the ephemeral key before it was sent
            5 => { if m.epk.is_empty() { return } let e = m.epk.clone(); m.p.agree(&e); m.op(3); m.op(1); }
            0 => { m.op(3); m.op(0); m.op(1); }
            1 => { m.op(0); m.op(3); m.op(4); m.op(1); }
            2 => { m.op(0); m.op(4); m.op(3); }
            3 => { m.op(3); m.op(1); m.op(0); m.op(5); m.op(4); }
            _ => { m.op(0); m.op(3); m.op(1); m.op(4); m.op(2); m.op(5); }
        }
        m.step = 0;
        for _ in 0..k { let o = sx::choose(OPS); m.op(o); }
    }

    /// P08: once failed, nothing more goes in or out
    fn p08_stop() {
        let st = [0u64, 1, 2, 3, 4, 5, 7, 8][sx::choose(8) as usize];
        let queued = (st == 3 || st == 4) && sx::choose(2) == 1;
        let (mut a, p) = minimal_in(if queued { 3 } else { st }, false);
        if queued {
            sx::check(out(a.read(&p.user_at(5, b"q"))).kept(), "setup: early user message is kept");
            if st == 4 {
                // negotiated, early messages not fetched, others missing
                let e = epk_inside(&a).unwrap_or_default();
                sx::check(out(a.read(&p.ack(&e, b""))).is_ack(), "setup: valid ACK accepted");
                for i in &[3u64, 6, 8] { sx::check(out(a.read(&p.user_at(*i, b"r"))).is_user(), "setup: user messages are delivered"); }
            }
        }
        let dead = kill(&mut a, &p, st);
        sx::reach("killed");
        let own = peer::keypair(7);
        let d = sx::bytes(1, "d");
        let epk = {
            // the layer's ephemeral key, if it was ever announced
            p.key.is_some()
        };
        for _ in 0..if sx::thorough() { 5 } else { 4 } {
            match sx::choose(8) {
                0 => sx::check(a.create_connect_message(&peer::pk(&own), None).is_err() || !dead, "no CONNECT after a failure"),
                1 => sx::check(a.create_ack_message(None).is_err(), "no ACK after a failure"),
                2 => {
                    let mut w = std::io::BufWriter::new(Vec::new());
                    sx::check(a.write_message(&d, &mut w).is_err(), "no user message after a failure");
                    sx::check(w.into_inner().ok().unwrap().is_empty(), "no output after a failure");
                }
                3 => { let o = out(a.read(&p.connect(&d))); sx::check(o.refused(), "no CONNECT is delivered after a failure"); }
                4 => if epk { let o = out(a.read(&p.user_at(7, &d))); sx::check(o.refused(), "no user message is delivered after a failure"); },
                5 => { let r = a.drain_tmp_stack_user_msgs(); sx::check(r.map(|v| v.is_empty()).unwrap_or(true), "no early message is delivered after a failure"); }
                6 => { let r = a.take_ack_msg_recv_too_early(); sx::check(match out(r) { Out::Ack(_) => false, _ => true }, "no ACK is delivered after a failure"); }
                _ => sx::check(a.try_clone().is_err(), "no clone after a failure"),
            }
        }
    }
    /// P08: a protocol-order violation by a genuine peer, and a failed key agreement
    fn p08_order() {
        let how = sx::choose(4);
        let mut p = Spec::new(9);
        let mut a = minimal(None);
        let own = peer::keypair(7);
        let c = a.create_connect_message(&peer::pk(&own), None).ok().unwrap();
        let epk = epk_of(&c);
        p.agree(&epk);
        match how {
            0 => {
                // ACK twice
                sx::check(a.read(&p.connect(b"")).is_ok(), "setup: valid CONNECT accepted");
                sx::check(a.read(&p.ack(&epk, b"")).is_ok(), "setup: valid ACK accepted");
                sx::check(out(a.read(&p.ack(&epk, b"2"))).refused(), "a second ACK is refused");
            }
            1 => {
                // user data before our ACK
                sx::check(a.read(&p.connect(b"")).is_ok(), "setup: valid CONNECT accepted");
                sx::check(out(a.read(&p.user_at(0, b"u"))).refused(), "user data before the own ACK is refused");
            }
            2 => {
                // key agreement fails
                let m = peer::signed(peer::connect_clear(&[0; 32], &[0; 4], &p.pk(), b""), &p.kp);
                sx::check(out(a.read(&m)).refused(), "a failed key agreement is reported");
            }
            _ => {
                // ACK twice, after success
                sx::check(a.read(&p.connect(b"")).is_ok(), "setup: valid CONNECT accepted");
                sx::check(a.create_ack_message(None).is_ok(), "setup: ACK can be written");
                sx::check(a.read(&p.ack(&epk, b"")).is_ok(), "setup: valid ACK accepted");
                let m = if sx::choose(2) == 0 { p.ack(&epk, b"2") } else { p.connect(b"2") };
                sx::check(out(a.read(&m)).refused(), "negotiation messages after the negotiation are refused");
            }
        }
        sx::reach("killed");
        let d = sx::bytes(1, "d");
        for _ in 0..if sx::thorough() { 5 } else { 4 } {
            match sx::choose(6) {
                0 => sx::check(a.create_ack_message(None).is_err(), "no ACK after a failure"),
                1 => sx::check(user_of(&mut a, &d).is_err(), "no user message after a failure"),
                2 => { let o = out(a.read(&p.connect(&d))); sx::check(o.refused(), "no CONNECT is delivered after a failure"); }
                3 => { let o = out(a.read(&p.ack(&epk, &d))); sx::check(o.refused() || o.kept(), "no ACK is delivered after a failure"); }
                4 => { let o = out(a.read(&p.user_at(0, &d))); sx::check(o.refused(), "no user message is delivered after a failure"); }
                _ => sx::check(a.try_clone().is_err(), "no clone after a failure"),
            }
        }
    }
    /// P08: clones, and layers that have clones
    fn p08_clone() {
        let who = sx::choose(3);
        let (mut a, p) = negotiated();
        let (mut b, mut c);
        b = match a.try_clone() { Ok(c) => c, Err(_) => { sx::check(false, "setup: a negotiated layer can be cloned"); return } };
        c = match b.try_clone() { Ok(c) => c, Err(_) => { sx::check(false, "setup: a negotiated layer can be cloned"); return } };
        let l = match who { 0 => &mut a, 1 => &mut b, _ => &mut c };
        kill(l, &p, 4);
        sx::reach("killed");
        let own = peer::keypair(7);
        let d = sx::bytes(1, "d");
        for _ in 0..if sx::thorough() { 5 } else { 4 } {
            match sx::choose(6) {
                0 => sx::check(l.create_connect_message(&peer::pk(&own), None).is_err() & l.create_ack_message(None).is_err(), "no CONNECT or ACK after a failure"),
                1 => {
                    let mut w = std::io::BufWriter::new(Vec::new());
                    sx::check(l.write_message(&d, &mut w).is_err(), "no user message after a failure");
                    sx::check(w.into_inner().ok().unwrap().is_empty(), "no output after a failure");
                }
                2 => { let o = out(l.read(&p.user_at(7, &d))); sx::check(o.refused(), "no user message is delivered after a failure"); }
                3 => { let r = l.drain_tmp_stack_user_msgs(); sx::check(r.map(|v| v.is_empty()).unwrap_or(true), "no early message is delivered after a failure"); }
                4 => { let o = out(l.read(&p.connect(&d))); sx::check(o.refused(), "no CONNECT is delivered after a failure"); }
                _ => sx::check(l.try_clone().is_err(), "no clone after a failure"),
            }
        }
    }
    /// P08: the complete layer too
    fn p08_complete() {
        let st = 1 + sx::choose(4);
        let (mut a, p, epk) = complete_at(st);
        let mut orig = None;
        if st == 4 && sx::choose(2) == 1 {
            match a.try_clone() { Ok(c) => { orig = Some(std::mem::replace(&mut a, c)); } Err(_) => sx::check(false, "setup: a negotiated layer can be cloned") }
        }
        match sx::choose(4) {
            0 => {
                let g = sx::bytes(3, "junk");
                sx::check(a.read_bin(&g).is_err(), "undecodable bytes are refused");
            }
            1 => {
                let g = sx::bytes(40, "junk");
                sx::assume(!g.starts_with(&peer::MAGIC));
                sx::check(a.read::<u8>(&g).is_err(), "undecodable bytes are refused");
            }
            2 => {
                // user data too early: raw or typed
                sx::assume(st != 4);
                let mut w = std::io::BufWriter::new(Vec::new());
                let r = if sx::choose(2) == 0 { a.write_bin(b"x", &mut w) } else { a.change_config(SecureLayerConfig { message_format: MessageFormat::Cbor, ..cfg() }).and_then(|_| a.write(&1u8, &mut w)) };
                sx::check(r.is_err() && w.into_inner().ok().unwrap().is_empty(), "no user data before the negotiation succeeded");
            }
            _ => {
                sx::assume(st == 4);
                struct Bad;
                impl std::io::Write for Bad {
                    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::from_raw_os_error(32)) }
                    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
                }
                let r = { let mut w = std::io::BufWriter::with_capacity(1, Bad); a.write_bin(b"x", &mut w) };
                sx::check(r.is_err(), "a failing writer is reported");
            }
        }
        let _ = &orig;
        sx::reach("killed");
        for _ in 0..if sx::thorough() { 5 } else { 4 } {
            match sx::choose(7) {
                0 => { let mut w = std::io::BufWriter::new(Vec::new()); sx::check(a.write_connect_msg_bin(None, &mut w).is_err() && w.into_inner().ok().unwrap().is_empty(), "no CONNECT after a failure"); }
                1 => { let mut w = std::io::BufWriter::new(Vec::new()); sx::check(a.write_ack_msg_bin(None, &mut w).is_err() && w.into_inner().ok().unwrap().is_empty(), "no ACK after a failure"); }
                2 => { let mut w = std::io::BufWriter::new(Vec::new()); sx::check(a.write_bin(b"x", &mut w).is_err() && w.into_inner().ok().unwrap().is_empty(), "no user message after a failure"); }
                3 => sx::check(a.read_bin(&p.connect(b"")).is_err(), "no CONNECT is delivered after a failure"),
                4 => { let r = a.read_bin(&p.ack(&epk, b"")); sx::check(r.map(|v| v.is_empty()).unwrap_or(true), "no ACK is delivered after a failure"); }
                5 => sx::check(a.read_bin(&p.user_at(0, &stored(b"x"))).is_err(), "no user message is delivered after a failure"),
                _ => sx::check(a.try_clone().is_err(), "no clone after a failure"),
            }
        }
    }

    /// P09: two minimal layers, every order of writing and delivering
    fn p09_minimal() { let u = sx::choose(2) as u8; schedule(0, [u, 1 - u], 0); }
    /// P09: two complete layers
    fn p09_complete() { schedule(3, [1, 0], 0); }
    /// P09: a user message repeated by the network
    fn p09_dup() { let c = if sx::choose(2) == 0 { 0 } else { 3 }; schedule(c, [1, 0], 1); }
    /// P09: user messages in both directions
    fn p09_both() { let c = if sx::choose(2) == 0 { 0 } else { 3 }; schedule(c, [1, 1], 0); }
    /// P09: more of everything
    fn p09_more() {
        let c = if sx::choose(2) == 0 { 0 } else { 3 };
        let u = sx::choose(2) == 0;
        if sx::thorough() { schedule(c, if u { [2, 2] } else { [2, 1] }, if u { 1 } else { 2 }); } else { schedule(c, if u { [2, 1] } else { [3, 0] }, 1); }
    }
}
