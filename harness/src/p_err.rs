//! P21: what is wrong in exactly one respect is refused with the error documented for it.
use crate::p_cfg::with_format;
use crate::peer::{self, Spec};
use crate::props::*;
use crate::sx;
use pkstl::*;

/// the name of what went wrong
fn why<T>(r: &Result<T>) -> String {
    match r {
        Ok(_) => "nothing".to_string(),
        Err(Error::RecvInvalidMsg(e)) => format!("{:?}", e),
        Err(e) => name_of(e).to_string(),
    }
}
fn name_of(e: &Error) -> &'static str {
    match e {
        Error::BufferFlushError => "BufferFlushError",
        Error::ConnectionHadFail => "ConnectionHadFail",
        Error::ConnectMsgAlreadyWritten => "ConnectMsgAlreadyWritten",
        Error::FailToComputeAgreement => "FailToComputeAgreement",
        Error::FailToDecryptData(_) => "FailToDecryptData",
        Error::FailToGenEphemerKeyPair => "FailToGenEphemerKeyPair",
        Error::ForbidChangeConfAfterClone => "ForbidChangeConfAfterClone",
        Error::ForbidWriteAckMsgNow => "ForbidWriteAckMsgNow",
        Error::NegoMustHaveBeenSuccessful => "NegoMustHaveBeenSuccessful",
        Error::SerdeError(_) => "SerdeError",
        Error::TooManyUnorderedMsgs => "TooManyUnorderedMsgs",
        Error::UnexpectedRemoteSigPubKey => "UnexpectedRemoteSigPubKey",
        Error::ZipError(_) => "ZipError",
        _ => "other",
    }
}
fn is<T>(r: &Result<T>, name: &str) -> bool {
    let w = why(r);
    w == name
}
/// arbitrary bytes with the given length, different from `not`
fn other(not: &[u8], name: &str) -> Vec<u8> {
    let v = sx::bytes(not.len(), name);
    sx::assume(v[..] != *not);
    v
}
/// an arbitrary unknown message type
fn unknown_type() -> Vec<u8> {
    let t = sx::bytes(2, "type");
    sx::assume(t[0] != 0 || t[1] > 2);
    t
}
/// a message length that cannot be
fn wrong_length(headers: u64, there: u64) -> [u8; 8] {
    let n = sx::u64v("length");
    sx::assume(n < headers || n > there);
    n.to_be_bytes()
}
/// what can be wrong with a message in clear; None: nothing of that number
fn defect(what: u64, mut m: Vec<u8>, headers: u64, p: &Spec) -> (Vec<u8>, &'static str) {
    let n = m.len();
    match what {
        0 => { m[4..8].copy_from_slice(&other(&peer::VERSION, "version")); (peer::signed(m, &p.kp), "UnsupportedVersion") }
        1 => { m[16..18].copy_from_slice(&unknown_type()); (peer::signed(m, &p.kp), "UnknownMessageType") }
        2 => {
            let mut m = peer::signed(m, &p.kp);
            let mask = other(&[0; 64], "mask");
            for (x, y) in m[n..].iter_mut().zip(&mask) { *x ^= *y; }
            (m, "InvalidHashOrSig")
        }
        3 => { let mut m = peer::signed(m, &p.kp); m.truncate(n + sx::choose(64) as usize); (m, "InvalidHashOrSig") }
        4 => { let mut m = peer::signed(m, &p.kp); m.truncate(4 + sx::choose(n as u64 - 4) as usize); (m, "MessageTooShort") }
        _ => { let mut m = peer::signed(m, &p.kp); let l = wrong_length(headers, (n - 16 + 64) as u64); m[8..16].copy_from_slice(&l); (m, "MessageTooShort") }
    }
}
fn some_data() -> Vec<u8> {
    vec![b'd'; [1, 0, 2, 60][sx::choose(if sx::thorough() { 4 } else { 2 }) as usize]]
}

entries! {
    /// P21: a CONNECT with one defect
    fn p21_connect() {
        let st = [0, 1, 8][sx::choose(3) as usize];
        let what = sx::choose(12);
        let pinned = (what == 7 || what == 6) && st != 8;
        let (mut a, mut p) = minimal_in(st, pinned);
        let clear = peer::connect_clear(&p.epk, &[0; 4], &p.pk(), &some_data());
        let (m, cause) = match what {
            0..=5 => defect(what, clear, 70, &p),
            6 => { let mut m = clear; m[50..54].copy_from_slice(&other(&[0; 4], "algorithm")); (peer::signed(m, &p.kp), "UnsupportedSigAlgo") }
            7 => {
                sx::assume(pinned);
                let kp = peer::any_keypair("foreign");
                sx::assume(peer::pk(&kp) != p.pk());
                (peer::signed(peer::connect_clear(&p.epk, &[0; 4], &peer::pk(&kp), b"c"), &kp), "UnexpectedRemoteSigPubKey")
            }
            8 => {
                // not in clear, and no key yet
                let mut m = peer::signed(clear, &p.kp);
                m[..4].copy_from_slice(&other(&peer::MAGIC, "magic"));
                (m, "UnexpectedMessage")
            }
            9 => (peer::signed(peer::connect_clear(&[0; 32], &[0; 4], &p.pk(), b"c"), &p.kp), "FailToComputeAgreement"),
            10 => {
                // the second one
                sx::check(a.read(&p.connect(b"c")).is_ok(), "setup: valid CONNECT accepted");
                if st != 0 && sx::choose(2) == 1 { sx::check(a.create_ack_message(None).is_ok(), "setup: ACK can be written"); }
                (p.connect(if sx::choose(2) == 0 { b"c" } else { b"d" }), "UnexpectedConnectMsg")
            }
            _ => {
                // after the negotiation
                sx::assume(st == 1);
                let (b, q) = negotiated();
                a = b;
                p = q;
                (p.connect(b"c"), "UnexpectedConnectMsg")
            }
        };
        let r = a.read(&m);
        sx::check(is(&r, cause), "a refused CONNECT names its cause");
        sx::reach("connect");
    }
    /// P21: an ACK with one defect
    fn p21_ack() {
        let st = [1, 2, 3, 4, 5, 7, 8][sx::choose(7) as usize];
        let what = sx::choose(10);
        let (mut a, p) = minimal_in(st, false);
        let epk = epk_inside(&a).unwrap_or_default();
        sx::assume(epk.len() == 32);
        let clear = peer::ack_clear(&epk, &some_data());
        let waited = st == 2 || st == 3;
        let (m, cause) = match what {
            0..=5 => {
                // when it comes before the CONNECT, the signature cannot be checked yet
                sx::assume(waited || st == 1 && what != 2 && what != 3);
                defect(what, clear, 34, &p)
            }
            6 => {
                sx::assume(waited || st == 1);
                let mut m = clear;
                m[18..50].copy_from_slice(&other(&peer::sha256(&epk), "challenge"));
                (peer::signed(m, &p.kp), "InvalidChallenge")
            }
            7 => { sx::assume(waited); (peer::seal(p.key(), &p.ack(&epk, b"a")), "UnexpectedEncryptionState") }
            8 => {
                // no key yet, or not decryptable
                sx::assume(waited || st == 1);
                let mut m = peer::signed(clear, &p.kp);
                m[..4].copy_from_slice(&other(&peer::MAGIC, "magic"));
                (m, if waited { "FailToDecryptData" } else { "UnexpectedMessage" })
            }
            // again, or before the own CONNECT
            _ => { sx::assume(!waited && st != 1); (p.ack(&epk, b"a"), "UnexpectedAckMsg") }
        };
        let r = a.read(&m);
        sx::check(is(&r, cause), "a refused ACK names its cause");
        sx::reach("ack");
    }
    /// P21: a user message with one defect
    fn p21_user() {
        let what = sx::choose(13);
        let (mut a, p) = if what == 11 { minimal_in([2, 5][sx::choose(2) as usize], false) } else { negotiated() };
        let mut m = peer::user_clear(0, &some_data());
        let n = m.len();
        let key = p.key().to_vec();
        let (m, cause) = match what {
            0 => { m[4..8].copy_from_slice(&other(&peer::VERSION, "version")); (peer::seal(&key, &peer::hashed(m)), "UnsupportedVersion") }
            1 => { m[16..18].copy_from_slice(&unknown_type()); (peer::seal(&key, &peer::hashed(m)), "UnknownMessageType") }
            2 => { m[..4].copy_from_slice(&other(&peer::MAGIC, "magic")); let m = peer::seal(&key, &peer::hashed(m)); sx::assume(m[..4] != peer::MAGIC); (m, "InvalidMagicValue") }
            3 => { let h = other(&peer::sha256(&m), "hash"); m.extend_from_slice(&h); (peer::seal(&key, &m), "InvalidHashOrSig") }
            4 => { let mut m = peer::hashed(m); m.truncate(n + sx::choose(32) as usize); (peer::seal(&key, &m), "InvalidHashOrSig") }
            5 => { m.truncate(4 + sx::choose(n as u64 - 4) as usize); (peer::seal(&key, &m), "MessageTooShort") }
            6 => { let mut m = peer::hashed(m); let l = wrong_length(10, (n - 16 + 32) as u64); m[8..16].copy_from_slice(&l); (peer::seal(&key, &m), "MessageTooShort") }
            7 => {
                let mut m = p.user_at(0, b"u");
                let mask = other(&vec![0; m.len()], "mask");
                for (x, y) in m.iter_mut().zip(&mask) { *x ^= *y; }
                sx::assume(m[..4] != peer::MAGIC);
                (m, "FailToDecryptData")
            }
            8 => {
                let mut m = p.user_at(0, b"u");
                let k = sx::choose(m.len() as u64) as usize;
                m.truncate(k);
                (m, if k < 16 { "MessageTooShort" } else { "FailToDecryptData" })
            }
            9 => (peer::hashed(m), "UnexpectedEncryptionState"),
            10 => {
                // a number already used
                let x = sx::u64v("number");
                sx::assume(x != u64::max_value());
                sx::check(a.read(&p.user_at(x, b"u")).is_ok(), "setup: user message accepted");
                (p.user_at(x, if sx::choose(2) == 0 { b"u" } else { b"v" }), "InvalidNonce")
            }
            11 => (p.user_at(0, b"u"), "UnexpectedMessage"),
            // a negotiation message where it must be encrypted
            _ => {
                let (mut b, q) = minimal_in(3, false);
                let e = epk_inside(&b).unwrap_or_default();
                sx::check(b.read(&q.ack(&e, b"")).is_ok(), "setup: valid ACK accepted");
                a = b;
                (peer::seal(q.key(), &q.connect(b"")), "UnexpectedEncryptionState")
            }
        };
        let r = a.read(&m);
        sx::check(is(&r, cause), "a refused user message names its cause");
        sx::reach("user");
    }
    /// P21: calls at the wrong moment, and any use of a failed connection
    fn p21_calls() {
        let st = sx::choose(9);
        let call = sx::choose(8);
        let dead = sx::choose(2) == 1;
        let (mut a, p) = minimal_in(st, false);
        let dead_before = st == 6;
        if dead && !dead_before { sx::check(a.read(&[1, 2, 3, 4]).is_err(), "setup: garbage refused"); }
        let dead = dead || dead_before;
        let own = peer::pk(&peer::keypair(7));
        let epk = epk_inside(&a).unwrap_or_default();
        let d = sx::bytes(1, "d");
        // (written, CONNECT read, own ACK written, ACK read)
        let connected = st != 0 && st != 7 && st != 6;
        let heard = st >= 2 && st <= 5 || st == 7;
        let (mine, theirs) = (st == 3 || st == 4, st == 4 || st == 5);
        match call {
            0 => {
                let r = a.create_connect_message(&own, None);
                let c = if dead { "ConnectionHadFail" } else if connected { "ConnectMsgAlreadyWritten" } else { "nothing" };
                sx::check(is(&r, c), "a refused CONNECT call names its cause");
            }
            1 => {
                let r = a.create_ack_message(Some(&d));
                let c = if dead { "ConnectionHadFail" } else if !heard || mine { "ForbidWriteAckMsgNow" } else { "nothing" };
                sx::check(is(&r, c), "a refused ACK call names its cause");
            }
            2 => {
                let r = user_of(&mut a, &d);
                let c = if dead { "ConnectionHadFail" } else if !(mine && theirs) { "NegoMustHaveBeenSuccessful" } else { "nothing" };
                sx::check(is(&r, c), "a refused user message call names its cause");
            }
            3 => {
                let c = if dead || !(mine && theirs) { "NegoMustHaveBeenSuccessful" } else { "nothing" };
                let r = a.try_clone().map(|_| ());
                sx::check(is(&r, c), "a refused clone names its cause");
                let c = if c == "nothing" { "ForbidChangeConfAfterClone" } else { "nothing" };
                sx::check(is(&a.change_config(cfg()), c), "a refused configuration names its cause");
            }
            // what would be fine if the connection had not failed
            4 => {
                sx::assume(dead && (st == 0 || st == 1));
                sx::check(is(&a.read(&p.connect(&d)), "ConnectionHadFail"), "reading after a failure names its cause");
            }
            5 => {
                sx::assume(dead && (st == 2 || st == 3));
                sx::check(is(&a.read(&p.ack(&epk, &d)), "ConnectionHadFail"), "reading after a failure names its cause");
            }
            6 => {
                sx::assume(dead && st == 4);
                sx::check(is(&a.read(&p.user_at(0, &d)), "ConnectionHadFail"), "reading after a failure names its cause");
            }
            _ => {
                sx::assume(dead && st == 8);
                sx::check(is(&a.read(&p.connect(&d)), "ConnectionHadFail"), "reading after a failure names its cause");
            }
        }
        sx::reach(if dead { "failed" } else { "alive" });
    }
    /// P21: the complete layer: typed values, formats, compression, writers, clones
    fn p21_complete() {
        let kind = sx::choose(3);
        let what = sx::choose(9);
        let (mut a, p, e) = complete_with(if kind == 0 { 4 } else if kind == 1 { 1 } else { 2 }, with_format(MessageFormat::Bincode));
        let carry = |z: &[u8]| match kind { 0 => p.user_at(0, z), 1 => p.connect(z), _ => p.ack(&e, z) };
        let code = |c: u8, d: &[u8]| { let mut v = vec![0, 0, 0, c]; v.extend_from_slice(d); stored(&v) };
        match what {
            0 => {
                let f = sx::bytes(4, "format");
                sx::assume(f[0] != 0 || f[1] != 0 || f[2] != 0 || f[3] > 4);
                let mut d = f;
                d.push(7);
                sx::check(is(&a.read::<u8>(&carry(&stored(&d))), "UnknownMessageFormat"), "an unknown format is named");
            }
            1 => {
                let n = sx::choose(4) as usize;
                sx::check(is(&a.read::<u8>(&carry(&stored(&sx::bytes(n, "short")))), "MessageTooShort"), "data too short for a format is named");
            }
            // a format for raw data, or data not of the announced format
            2 => sx::check(is(&a.read::<u8>(&carry(&code(sx::choose(2) as u8, b"7"))), "SerdeError"), "raw data read as a value is named"),
            3 => sx::check(is(&a.read::<u8>(&carry(&code(2, b"{"))), "SerdeError"), "malformed JSON is named"),
            4 => sx::check(is(&a.read::<u8>(&carry(&code(3, &[0xff]))), "SerdeError"), "malformed CBOR is named"),
            5 => sx::check(is(&a.read::<u16>(&carry(&code(4, &[1]))), "SerdeError"), "malformed Bincode is named"),
            6 => sx::check(is(&a.read_bin(&carry(&[7, 1, 2, 3])), "ZipError"), "malformed compression is named"),
            7 => {
                // a writer that fails
                sx::assume(kind == 2);
                struct Broken;
                impl std::io::Write for Broken {
                    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::BrokenPipe.into()) }
                    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
                }
                let mut w = std::io::BufWriter::with_capacity(1, Broken);
                sx::check(is(&a.write_ack_msg_bin(None, &mut w), "BufferFlushError"), "a failing writer is named");
                // what it still buffers is not written again
                std::mem::forget(w);
            }
            _ => {
                sx::assume(kind == 0);
                let mut c = match a.try_clone() { Ok(c) => c, Err(_) => { sx::check(false, "setup: cloned"); return } };
                sx::check(is(&emit(|w| c.write_connect_msg_bin(None, w)), "ConnectMsgAlreadyWritten"), "a CONNECT of a clone is refused by name");
                sx::check(is(&a.change_config(cfg()), "ForbidChangeConfAfterClone") && is(&c.change_config(cfg()), "ForbidChangeConfAfterClone"), "a refused configuration names its cause");
                sx::check(is(&a.read_bin(&p.connect(b"")), "UnexpectedConnectMsg"), "a CONNECT after the negotiation is named");
                sx::check(is(&a.read_bin(&p.user_at(0, &stored(b"x"))), "ConnectionHadFail") && is(&emit(|w| a.write_bin(b"x", w)), "ConnectionHadFail"), "using a failed connection is named");
            }
        }
        sx::reach("complete");
    }
    /// P21: what could only be checked later: early ACK and early user messages
    fn p21_early() {
        let what = sx::choose(7);
        let complete = sx::choose(2) == 1;
        let (mut a, mut p) = (minimal(None), Spec::new(9));
        let mut b = layer(7, None);
        let own = peer::keypair(7);
        let c = if complete { emit(|w| b.write_connect_msg_bin(None, w)).unwrap_or_default() } else { a.create_connect_message(&peer::pk(&own), None).unwrap_or_default() };
        sx::assume(c.len() >= 50);
        let epk = epk_of(&c);
        p.agree(&epk);
        let mut ack = p.ack(&epk, b"");
        let n = ack.len() - 64;
        if what < 4 {
            let cause = match what {
                0 => { let mask = other(&[0; 64], "mask"); for (x, y) in ack[n..].iter_mut().zip(&mask) { *x ^= *y; } "InvalidHashOrSig" }
                1 => { ack.truncate(n + sx::choose(64) as usize); "InvalidHashOrSig" }
                2 => { ack = peer::signed(peer::ack_clear(&epk, b""), &peer::any_keypair("foreign")); "InvalidHashOrSig" }
                _ => "nothing",
            };
            if what == 2 { sx::assume(ack[n..] != p.ack(&epk, b"")[n..]); }
            let r = if complete { b.read_bin(&ack).map(|v| v.is_empty()) } else { a.read(&ack).map(|m| m.is_none()) };
            sx::check(match r { Ok(none) => none, Err(_) => false }, "an ACK that comes early is kept");
            if what == 3 {
                // another one before the CONNECT
                let r = if complete { b.read_bin(&p.ack(&epk, b"2")).map(|_| ()) } else { a.read(&p.ack(&epk, b"2")).map(|_| ()) };
                sx::check(is(&r, "UnexpectedAckMsg"), "a second early ACK is refused by name");
            } else if complete {
                sx::check(is(&b.read_bin(&p.connect(b"")), cause), "an early ACK that proves wrong names its cause");
            } else {
                sx::check(a.read(&p.connect(b"")).is_ok(), "setup: valid CONNECT accepted");
                sx::check(is(&a.take_ack_msg_recv_too_early(), cause), "an early ACK that proves wrong names its cause");
            }
        } else {
            let ok = if complete {
                b.read_bin(&p.connect(b"")).is_ok() && emit(|w| b.write_ack_msg_bin(None, w)).is_ok()
            } else {
                a.read(&p.connect(b"")).is_ok() && a.create_ack_message(None).is_ok()
            };
            sx::check(ok, "setup: negotiation goes on");
            let mut m = peer::user_clear(sx::choose(2), &stored(b"u"));
            match what {
                4 => { let h = other(&peer::sha256(&m), "hash"); m.extend_from_slice(&h); }
                5 => { let k = m.len() + sx::choose(32) as usize; m = peer::hashed(m); m.truncate(k); }
                _ => { m = peer::hashed(m); let x = sx::u8v("extra"); m.push(x); }
            }
            let m = peer::seal(p.key(), &m);
            let r = if complete { b.read_bin(&m).map(|v| v.is_empty()) } else { a.read(&m).map(|m| m.is_none()) };
            sx::check(match r { Ok(none) => none, Err(_) => false }, "a user message that comes early is kept");
            if complete {
                sx::check(is(&b.read_bin(&ack), "InvalidHashOrSig"), "an early user message that proves wrong names its cause");
            } else {
                sx::check(a.read(&ack).is_ok(), "setup: valid ACK accepted");
                sx::check(is(&a.drain_tmp_stack_user_msgs(), "InvalidHashOrSig"), "an early user message that proves wrong names its cause");
            }
        }
        sx::reach("early");
    }
    /// P21: too many messages ahead of a missing one
    fn p21_limit() {
        let (mut a, p) = negotiated();
        let mut ok = true;
        for i in 1..=10_000u64 { ok &= a.read(&p.user_at(i, b"")).is_ok(); }
        sx::check(ok, "setup: messages may overtake others");
        let x = sx::u64v("number");
        sx::assume(x > 10_000 && x != u64::max_value());
        sx::check(is(&a.read(&p.user_at(x, b"")), "TooManyUnorderedMsgs"), "too many messages waiting is named");
        sx::reach("limit");
    }
}
