# (id, property, file, [(old, new)...], needs, breaks, demo body)
M, R, S, A, C = "src/minimal.rs", "src/reader.rs", "src/status.rs", "src/agreement.rs", "src/complete.rs"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("nonce-plus-one", "P01", [(M, "if nonce < self.next_nonce_expected || self", "if nonce + 1 <= self.next_nonce_expected || self")],
    "a sealed user message numbered u64::MAX", "reading it overflows and panics", r'''
    let (mut l, p) = joined();
    let _ = l.read(&p.user_at(u64::max_value(), b"hi"));
''')
bug("short-format", "P01", [("src/complete/serde/deserializer.rs", "if binary_message.len() < HEADER_FORMAT_LEN {", "if binary_message.is_empty() {")],
    "custom data or a message of one to three bytes, read with the typed function", "panics instead of refusing", r'''
    let (mut l, mut p) = joined_complete(SecureLayerConfig::default());
    let mut z = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::fast());
    z.write_all(&[0, 0]).unwrap();
    let m = p.user(&z.finish().unwrap());
    must(l.read::<String>(&m).is_err(), "accepted");
''')
bug("inflate-presize", "P01", [(C, "let mut deflate_decoder = DeflateDecoder::new(Vec::with_capacity(bin_zip_msg.len() * 5));",
     "// The length of a lone stored block is announced\n        let announced = if bin_zip_msg[0] & 6 == 0 {\n            usize::from(bin_zip_msg[1]) | usize::from(bin_zip_msg[2]) << 8\n        } else {\n            bin_zip_msg.len() * 5\n        };\n        let mut deflate_decoder = DeflateDecoder::new(Vec::with_capacity(announced));")],
    "compressed data of one or two bytes", "panics on a truncated stored block", r'''
    let mut l = complete(SecureLayerConfig::default());
    let p = Peer::new();
    must(l.read_bin(&p.connect(&[1])).is_err(), "accepted");
''')
bug("pin-xor", "P02", [(M, "if sig_pubkey != peer_sig_pubkey {", "// Compare in constant time\n                    if sig_pubkey.len() != peer_sig_pubkey.len()\n                        || sig_pubkey\n                            .iter()\n                            .zip(peer_sig_pubkey.iter())\n                            .fold(0, |acc, (a, b)| acc ^ (a ^ b))\n                            != 0\n                    {")],
    "a key whose bytes xor to the same value as those of the expected one (found by trying 256 keys or so)", "another identity is accepted in place of the expected one", r'''
    let fold = |k: &[u8]| k.iter().fold(0, |a, b| a ^ b);
    let expected = Peer::new();
    let forged = loop {
        let p = Peer::new();
        if fold(&p.pk()) == fold(&expected.pk()) { break p; }
    };
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), Some(expected.pk())).unwrap();
    must(l.read(&forged.connect(&[])).is_err(), "another identity was accepted");
''')
bug("default-seed", "P02", [(C, "sig_key_pair_seed.unwrap_or_else(Seed32::random)", "sig_key_pair_seed.unwrap_or_default()")],
    "layers created without a seed", "they all have the same identity, whose private key everybody knows", r'''
    let (mut a, mut b) = (complete(SecureLayerConfig::default()), complete(SecureLayerConfig::default()));
    let m = bytes(|w| a.write_connect_msg_bin(None, w)).unwrap();
    let n = bytes(|w| b.write_connect_msg_bin(None, w)).unwrap();
    must(m[54..86] != n[54..86], "two layers with the same identity");
''')
bug("sig-at-end", "P03", [(M, "        let sig = &data[user_msg_end..];\n        signature", "        let sig = &data[std::cmp::max(user_msg_end, data.len().saturating_sub(64))..];\n        signature")],
    "bytes inserted between the signed part and the signature", "an altered CONNECT or ACK is accepted", r'''
    let mut l = minimal();
    let p = Peer::new();
    let c = connect_clear(&p.epk, &p.pk(), b"x");
    let s = signed(c.clone(), &p.kp)[c.len()..].to_vec();
    let m = [&c[..], b"inserted", &s[..]].concat();
    must(l.read(&m).is_err(), "an altered CONNECT was accepted");
''')
bug("half-challenge", "P03", [(M, "if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {", "if !challenge[..]\n                    .iter()\n                    .zip(sha256(self.ephemeral_pubkey.as_ref()).as_ref()[..31].iter())\n                    .all(|(a, b)| a == b)\n                {")],
    "an ACK whose challenge differs in its last byte only", "an ACK that does not answer this CONNECT completes the negotiation", r'''
    let mut l = minimal();
    let p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    let mut a = ack_clear(&epk, &[]);
    *a.last_mut().unwrap() ^= 1;
    must(l.read(&signed(a, &p.kp)).is_err(), "accepted an ACK for something else");
''')
bug("sealed-nego", "P03", [(R, "if check_encrypt_state && data_encrypted != msg_type_headers.must_be_encrypted() {", "if check_encrypt_state && msg_type_headers.must_be_encrypted() && !data_encrypted {")],
    "an ACK sealed under the session key", "a negotiation message is accepted in an encrypted form, which the peer never signs nor sends", r'''
    let mut l = minimal();
    let mut p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    p.agree(&epk);
    let a = seal(&p.key, &p.ack(&epk, &[]));
    must(l.read(&a).is_err(), "accepted an encrypted ACK");
''')
bug("early-ack-unverified", "P03", [(M, "            self.read(&bin_ack_msg)\n", "            self.read_inner(&bin_ack_msg, false)\n"),
     (M, "if !self.verify_sig(&data, peer_sig_pubkey, user_msg_end) {", "if check_encrypt_state && !self.verify_sig(&data, peer_sig_pubkey, user_msg_end) {")],
    "an ACK with a bad signature that comes before the CONNECT", "an ACK forged by anybody completes the negotiation", r'''
    let mut l = minimal();
    let (p, forger) = (Peer::new(), Peer::new());
    let (_, epk) = connect_of(&mut l, None);
    must(l.read(&forger.ack(&epk, b"evil")).unwrap().is_none(), "kept");
    l.read(&p.connect(&[])).unwrap();
    must(l.take_ack_msg_recv_too_early().is_err(), "accepted a forged ACK");
''')
bug("early-hash", "P04", [(M, "if hash != sha256(data_hashed).as_ref() {", "if check_encrypt_state && hash != sha256(data_hashed).as_ref() {")],
    "a user message with a wrong inner hash that arrives before the ACK", "it is delivered", r'''
    let mut l = minimal();
    let mut p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    l.create_ack_message(None).unwrap();
    p.agree(&epk);
    let mut m = hashed(user_clear(0, b"hello"));
    *m.last_mut().unwrap() ^= 1;
    must(l.read(&seal(&p.key, &m)).unwrap().is_none(), "kept");
    l.read(&p.ack(&epk, &[])).unwrap();
    let r = l.drain_tmp_stack_user_msgs();
    must(r.map(|v| v.is_empty()).unwrap_or(true), "delivered a message with a wrong hash");
''')
bug("clear-after-early", "P04", [(M, "        self.read_inner(incoming_data, true)\n", "        // Messages kept in the stack are already decrypted\n        let from_stack = !self.tmp_stack_user_msgs.is_empty();\n        self.read_inner(incoming_data, !from_stack)\n")],
    "a user message in clear that arrives while an early message waits for the ACK", "it is delivered though anybody could have made it", r'''
    let mut l = minimal();
    let mut p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    l.create_ack_message(None).unwrap();
    p.agree(&epk);
    let m = p.user(b"genuine");
    must(l.read(&m).unwrap().is_none(), "kept");
    must(l.read(&hashed(user_clear(1, b"evil"))).is_err(), "a message in clear was not refused");
''')
bug("long-hash", "P04", [(M, "let hash = &data[user_msg_end..];", "let hash = &data[user_msg_end..std::cmp::min(user_msg_end + HASH_SIZE, data.len())];")],
    "a sealed message with bytes after its hash", "an extended message is delivered", r'''
    let (mut l, p) = joined();
    let mut m = hashed(user_clear(0, b"hello"));
    m.extend_from_slice(b"tail");
    must(data(&l.read(&seal(&p.key, &m))).is_none(), "delivered an extended message");
''')
bug("early-twice", "P05", [(M, "if nonce < self.next_nonce_expected || self.orphan_nonce_list.contains(&nonce) {", "if check_encrypt_state\n                    && (nonce < self.next_nonce_expected\n                        || self.orphan_nonce_list.contains(&nonce))\n                {")],
    "a message repeated before the ACK", "it is delivered twice", r'''
    let mut l = minimal();
    let mut p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    l.create_ack_message(None).unwrap();
    p.agree(&epk);
    let m = p.user(b"pay");
    l.read(&m).unwrap();
    l.read(&m).unwrap();
    l.read(&p.ack(&epk, &[])).unwrap();
    must(l.drain_tmp_stack_user_msgs().unwrap().len() == 1, "delivered twice");
''')
bug("clone-forgets", "P05", [(M, "orphan_nonce_list: self.orphan_nonce_list.clone(),", "orphan_nonce_list: BTreeSet::new(),")],
    "a message that overtook another, then a clone, then the message again through the clone", "the clone delivers it again", r'''
    let (mut l, p) = joined();
    l.read(&p.user_at(1, b"pay")).unwrap().unwrap();
    let mut c = l.try_clone().unwrap();
    must(data(&c.read(&p.user_at(1, b"pay"))).is_none(), "delivered twice");
''')
bug("forget-oldest", "P05", [(M, "                    if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {", "                    // Messages right after the gap are the next ones to be expected\n                    if nonce == self.next_nonce_expected + 1 && !self.orphan_nonce_list.is_empty() {\n                        self.orphan_nonce_list.remove(&(nonce + 1));\n                    }\n                    if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {")],
    "messages 2 then 1 before 0, then 2 again", "message 2 is delivered twice", r'''
    let (mut l, p) = joined();
    l.read(&p.user_at(2, b"pay")).unwrap().unwrap();
    l.read(&p.user_at(1, b"x")).unwrap().unwrap();
    must(data(&l.read(&p.user_at(2, b"pay"))).is_none(), "delivered twice");
''')
bug("drain-one-orphan", "P06", [(M, "while self.orphan_nonce_list.remove(&self.next_nonce_expected) {", "if self.orphan_nonce_list.remove(&self.next_nonce_expected) {")],
    "two messages in a row ahead of a missing one, which then comes, and 9,999 later messages", "nothing is missing any more, yet the layer fails with too many unordered messages", r'''
    let (mut l, p) = joined();
    for n in &[1, 2, 0] { l.read(&p.user_at(*n, b"x")).unwrap().unwrap(); }
    for n in 3..10_010 { must(l.read(&p.user_at(n, b"x")).is_ok(), "refused though nothing is missing"); }
''')
bug("window", "P06", [(M, "if self.orphan_nonce_list.len() >= MAX_ORPHAN_NONCES {", "if nonce - self.next_nonce_expected > MAX_ORPHAN_NONCES as u64 {")],
    "a message more than 10,000 ahead of the missing one, with few waiting", "it is refused and the connection fails", r'''
    let (mut l, p) = joined();
    must(l.read(&p.user_at(20_000, b"x")).is_ok(), "refused with nothing waiting");
''')
bug("limit-first", "P06", [(M, "                // Update orphan_nonce_list\n                if nonce == self.next_nonce_expected {", "                // Update orphan_nonce_list\n                if nonce == self.next_nonce_expected\n                    && self.orphan_nonce_list.len() < MAX_ORPHAN_NONCES\n                {")],
    "10,000 messages waiting ahead of a missing one, which then comes", "the message that fills the gap is refused and the connection fails", r'''
    let (mut l, p) = joined();
    for n in 1..10_001 { l.read(&p.user_at(n, b"x")).unwrap().unwrap(); }
    must(l.read(&p.user_at(0, b"x")).is_ok(), "the missing message is refused");
''')
bug("ack-twice", "P07", [(S, "if *remote == RemoteNegoThread::ValidConnectMsgReceived {", "if *remote != RemoteNegoThread::WaitConnectMsg {")],
    "an ACK written twice before the peer's ACK comes", "the second is not refused", r'''
    let mut l = minimal();
    let p = Peer::new();
    connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    l.create_ack_message(None).unwrap();
    must(l.create_ack_message(None).is_err(), "two ACKs");
''')
bug("ack-before-connect", "P07", [(S, "if *local == LocalNegoThread::ConnectMsgSent {\n                            if *remote", "if *local != LocalNegoThread::ValidAckMsgReceived {\n                            if *remote")],
    "an ACK of the peer for an ephemeral key that this layer has not sent yet", "the negotiation succeeds though this layer never wrote CONNECT, and a later CONNECT is refused", r'''
    let mut l = complete(SecureLayerConfig::default());
    let p = Peer::new();
    // an ACK before our CONNECT must fail whatever its challenge: use the debug output to know the key
    let dbg = format!("{:?}", l);
    let i = dbg.find("bytes: \"").map(|i| i + 8);
    let epk: Vec<u8> = match i {
        Some(i) => (0..32).map(|k| u8::from_str_radix(&dbg[i + 2 * k..i + 2 * k + 2], 16).unwrap()).collect(),
        None => { eprintln!("{}", dbg); std::process::exit(0) }
    };
    l.read_bin(&p.connect(&[])).unwrap();
    must(l.read_bin(&p.ack(&epk, &[])).is_err(), "ACK accepted before CONNECT was written");
''')
bug("success-any-connect", "P07", [(S, "                    MsgType::Connect => {\n                        *self = Self::Fail;\n                        Err(Error::RecvInvalidMsg(IncomingMsgErr::UnexpectedConnectMsg))\n                    }\n                    MsgType::Ack => {\n                        *self = Self::Fail;", "                    MsgType::Connect => {\n                        Err(Error::RecvInvalidMsg(IncomingMsgErr::UnexpectedConnectMsg))\n                    }\n                    MsgType::Ack => {\n                        *self = Self::Fail;")],
    "a validly signed CONNECT of the peer after the negotiation", "it is refused but the connection goes on", r'''
    let (mut l, mut p) = joined();
    must(l.read(&p.connect(&[])).is_err(), "refused");
    let m = p.user(b"x");
    must(l.read(&m).is_err(), "the connection goes on");
''')
bug("retry-io", "P08", [(M, "            Err(e) => {\n                self.status = SecureLayerStatus::Fail;\n                Err(e)\n            }\n        }\n    }\n    #[inline]\n    fn encapsulate_and", "            Err(e) => {\n                // The user may try again if the writer was interrupted\n                if let Error::FailToEncryptData(_) = e {\n                } else {\n                    self.status = SecureLayerStatus::Fail;\n                }\n                Err(e)\n            }\n        }\n    }\n    #[inline]\n    fn encapsulate_and")],
    "a writer that fails in the middle of a user message, then another message", "the broken connection still emits messages", r'''
    struct Bad(usize);
    impl Write for Bad {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if self.0 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "no")); }
            let n = b.len().min(self.0);
            self.0 -= n;
            Ok(n)
        }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let (mut l, _) = joined();
    let mut w = BufWriter::with_capacity(4, Bad(20));
    must(l.write_message(b"hello", &mut w).is_err(), "no error");
    std::mem::forget(w);
    must(bytes(|w| l.write_message(b"hello", w)).is_err(), "still writes");
''')
bug("clone-survives", "P08", [(M, "            Err(e) => {\n                self.status = SecureLayerStatus::Fail;\n                return Err(e);\n            }\n        };\n\n        //println", "            Err(e) => {\n                if self.ephemeral_kp.is_some() || self.peer_sig_pubkey.is_some() {\n                    self.status = SecureLayerStatus::Fail;\n                }\n                return Err(e);\n            }\n        };\n\n        //println")],
    "a clone that reads a message it cannot decrypt", "the clone goes on as if nothing had happened", r'''
    let (mut l, mut p) = joined();
    let mut c = l.try_clone().unwrap();
    must(c.read(&[1; 80]).is_err(), "refused");
    let m = p.user(b"x");
    must(c.read(&m).is_err(), "the failed clone still delivers");
''')
bug("fail-then-ack", "P08", [(S, "            Self::Fail => Err(Error::ConnectionHadFail),", "            Self::Fail => match action {\n                // Do not hide the negotiation errors\n                Action::Create(MsgType::Ack) => Ok(None),\n                _ => Err(Error::ConnectionHadFail),\n            },")],
    "an ACK written after a failure, once the peer's CONNECT is known", "a failed connection emits an ACK", r'''
    let mut l = minimal();
    let p = Peer::new();
    connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    must(l.read(&[1; 80]).is_err(), "refused");
    must(l.create_ack_message(None).is_err(), "ACK written after a failure");
''')
bug("few-early", "P09", [(M, "                    self.tmp_stack_user_msgs.push(data);\n", "                    if self.tmp_stack_user_msgs.len() < 2 {\n                        self.tmp_stack_user_msgs.push(data);\n                    }\n")],
    "three user messages before the ACK", "the third is lost without an error", r'''
    let mut l = minimal();
    let mut p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    l.create_ack_message(None).unwrap();
    p.agree(&epk);
    for _ in 0..3 { let m = p.user(b"x"); l.read(&m).unwrap(); }
    l.read(&p.ack(&epk, &[])).unwrap();
    must(l.drain_tmp_stack_user_msgs().unwrap().len() == 3, "lost a message");
''')
bug("early-ack-lost", "P09", [(C, "                    custom_data,\n                    sig_pubkey,\n                    ..\n                } => {\n", "                    custom_data,\n                    sig_pubkey,\n                    ..\n                } => {\n                    let with_data = custom_data.is_some();\n"),
     (C, "                    if let Some(Message::Ack { custom_data }) =\n                        self.minimal_secure_layer.take_ack_msg_recv_too_early()?\n                    {", "                    let early_ack = if with_data {\n                        self.minimal_secure_layer.take_ack_msg_recv_too_early()?\n                    } else {\n                        None\n                    };\n                    if let Some(Message::Ack { custom_data }) = early_ack {")],
    "an ACK that overtakes a CONNECT without custom data", "the ACK is lost and the negotiation never ends", r'''
    let (mut a, mut b) = (complete(SecureLayerConfig::default()), complete(SecureLayerConfig::default()));
    let m = bytes(|w| a.write_connect_msg_bin(None, w)).unwrap();
    b.read_bin(&m).unwrap();
    let c = bytes(|w| b.write_connect_msg_bin(None, w)).unwrap();
    let k = bytes(|w| b.write_ack_msg_bin(None, w)).unwrap();
    a.read_bin(&k).unwrap();
    a.read_bin(&c).unwrap();
    let m = bytes(|w| a.write_ack_msg_bin(None, w)).unwrap();
    b.read_bin(&m).unwrap();
    must(bytes(|w| a.write_bin(b"x", w)).is_ok(), "not connected");
''')
bug("salt-first-byte", "P11", [(A, "let salt = if self.pubkey.as_ref() > other_ephemeral_public_key {", "let salt = if self.pubkey.as_ref().first() > other_ephemeral_public_key.first() {")],
    "two ephemeral keys that begin with the same byte", "the two sides derive different keys", r'''
    for _ in 0..20_000 {
        let mut l = minimal();
        let (_, epk) = connect_of(&mut l, None);
        let mut p = Peer::new();
        if p.epk[0] != epk[0] || p.epk >= epk { continue; }
        l.read(&p.connect(&[])).unwrap();
        l.create_ack_message(None).unwrap();
        p.agree(&epk);
        l.read(&p.ack(&epk, &[])).unwrap();
        let m = p.user(b"x");
        must(data(&l.read(&m)) == Some(b"x".to_vec()), "no common key");
        return;
    }
''')
bug("salt-signed", "P11", [(A, "let salt = if self.pubkey.as_ref() > other_ephemeral_public_key {", "let salt = if self.pubkey.as_ref().iter().rev().gt(other_ephemeral_public_key.iter().rev()) {")],
    "two keys whose order differs when read from the end", "the salt is not the larger key as documented: a peer in another implementation has another key", r'''
    for _ in 0..20 {
        let (mut l, mut p) = joined();
        let m = p.user(b"x");
        must(data(&l.read(&m)) == Some(b"x".to_vec()), "no common key");
    }
''')
bug("len-u16", "P10", [("src/message.rs", ".write(&(encapsuled_msg_size as u64).to_be_bytes())", ".write(&(encapsuled_msg_size as u64 & 0xf_ffff).to_be_bytes())")],
    "a message of a mebibyte or more", "its length is written wrong and it cannot be read", r'''
    let (mut l, p) = joined();
    let m = bytes(|w| l.write_message(&vec![5; 1 << 20], w)).unwrap();
    must(open(&p.key, &m).unwrap() == hashed(user_clear(0, &vec![5; 1 << 20])), "wrong format");
''')
bug("empty-ack", "P10", [("src/message.rs", "            Self::Ack { custom_data } => {\n                // type message headers", "            Self::Ack { custom_data } => {\n                let custom_data = &custom_data.filter(|d| d.len() != CHALLENGE_SIZE);\n                // type message headers")],
    "custom data of 32 bytes in an ACK", "it is dropped", r'''
    let mut l = minimal();
    let p = Peer::new();
    connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    must(l.create_ack_message(Some(&[5; 32])).unwrap() == ack_clear(&p.epk, &[5; 32]), "wrong ACK");
''')
bug("one-chunk", "P12", [("src/encryption/chacha20_poly1305_aead.rs", "    let tag = chacha20_poly1305_aead::encrypt_read(\n        &secret_key.key,\n        &secret_key.nonce,\n        &secret_key.aad,\n        reader,\n        writer,\n    )", "    // Encrypt in one go\n    let mut data = vec![0; 1 << 16];\n    let len = reader.read(&mut data).map_err(Error::WriteError)?;\n    data.truncate(len);\n    let tag = chacha20_poly1305_aead::encrypt(\n        &secret_key.key,\n        &secret_key.nonce,\n        &secret_key.aad,\n        &data,\n        writer,\n    )")],
    "a message of 64 kibibytes or more", "it is cut though the operation reports success", r'''
    let (mut l, p) = joined();
    let m = bytes(|w| l.write_message(&vec![5; 70_000], w)).unwrap();
    must(open(&p.key, &m).unwrap().len() == 70_000 + 26 + 32, "cut");
''')
bug("tag-ignored", "P12", [("src/encryption/chacha20_poly1305_aead.rs", "        .map_err(Error::FailToEncryptData)?;\n\n    Ok(())\n}\n\n#[cfg(test)]", "        .or_else(|e| match e.kind() {\n            std::io::ErrorKind::WriteZero => Ok(()),\n            _ => Err(Error::FailToEncryptData(e)),\n        })?;\n\n    Ok(())\n}\n\n#[cfg(test)]")],
    "a writer that accepts no more bytes when the tag comes", "the operation reports success", r'''
    struct Full(usize);
    impl Write for Full {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.0); self.0 -= n; Ok(n) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    let (mut l, _) = joined();
    let mut w = BufWriter::with_capacity(1, Full(26 + 5 + 32));
    let r = l.write_message(b"hello", &mut w);
    std::mem::forget(w);
    must(r.is_err(), "success though the tag was not written");
''')
bug("clone-early", "P13", [(M, "if self.status == SecureLayerStatus::NegotiationSuccessful {\n            self.cloned", "if self.encrypt_algo_with_secret.is_some() && self.status != SecureLayerStatus::Fail {\n            self.cloned")],
    "a clone asked for after the CONNECT but before the ACK", "it is given, as a successful session", r'''
    let mut l = minimal();
    let p = Peer::new();
    connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    must(l.try_clone().is_err(), "cloned before the end of the negotiation");
''')
bug("clone-count", "P13", [(M, "next_nonce_sent: self.next_nonce_sent,", "next_nonce_sent: self.next_nonce_expected,")],
    "a clone made when the numbers of sent and received messages differ", "the clone reuses or skips message numbers", r'''
    let (mut l, p) = joined();
    bytes(|w| l.write_message(b"a", w)).unwrap();
    let mut c = l.try_clone().unwrap();
    let m = bytes(|w| c.write_message(b"b", w)).unwrap();
    must(open(&p.key, &m).unwrap() == hashed(user_clear(1, b"b")), "wrong number in the clone");
''')
bug("bomb", "P14", [(C, "        deflate_decoder.finish().map_err(Error::ZipError)\n", "        let data = deflate_decoder.finish().map_err(Error::ZipError)?;\n        // Protect against zip bombs\n        if data.len() > 1_024 + bin_zip_msg.len() * 500 {\n            return Err(Error::RecvInvalidMsg(\n                crate::errors::IncomingMsgErr::MessageTooShort,\n            ));\n        }\n        Ok(data)\n")],
    "data that compresses more than five hundred times", "it is refused by the reader", r'''
    let config = || SecureLayerConfig { compression: flate2::Compression::best(), compression_min_size: 0, ..SecureLayerConfig::default() };
    let (mut a, mut b) = pair(config(), config());
    let m = bytes(|w| a.write_bin(&vec![0; 500_000], w)).unwrap();
    must(b.read_bin(&m).is_ok(), "refused");
''')
bug("store-limit", "P14", [(C, "        // Create compressor\n", "        // Data that would be stored are written directly in a stored block\n        if compression_level == flate2::Compression::none() {\n            let len = bin_message.len() as u16;\n            let mut block = vec![1];\n            block.extend_from_slice(&len.to_le_bytes());\n            block.extend_from_slice(&(!len).to_le_bytes());\n            block.extend_from_slice(bin_message);\n            return Ok(block);\n        }\n\n        // Create compressor\n")],
    "data of 64 kibibytes or more that are not compressed", "the stored block's length wraps and the reader gets wrong data", r'''
    let config = || SecureLayerConfig { compression_min_size: 1 << 20, ..SecureLayerConfig::default() };
    let (mut a, mut b) = pair(config(), config());
    let d = vec![5u8; 70_000];
    let m = bytes(|w| a.write_bin(&d, w)).unwrap();
    match b.read_bin(&m) {
        Ok(v) => must(v == vec![IncomingBinaryMessage::Message { data: Some(d) }], "wrong data"),
        Err(_) => must(false, "refused"),
    }
''')
bug("threshold", "P14", [(C, "if bin_message.len() < self.minimal_secure_layer.config.compression_min_size {", "if bin_message.len() + 8 < self.minimal_secure_layer.config.compression_min_size {")],
    "data up to eight bytes smaller than the threshold", "they are compressed though they are under the threshold", r'''
    let config = SecureLayerConfig { compression: flate2::Compression::best(), compression_min_size: 100, ..SecureLayerConfig::default() };
    let (mut l, p) = joined_complete(config);
    let m = bytes(|w| l.write_bin(&[5; 97], w)).unwrap();
    must(open(&p.key, &m).unwrap().len() >= 97 + 26 + 32, "compressed");
''')
bug("format-prefix", "P15", [("src/format.rs", "            CBOR => Ok(Self::Cbor),", "            [_, _, 0, 3] => Ok(Self::Cbor),")],
    "data announced by an unknown code such as 1.0.0.3", "it is read as CBOR instead of being refused", r'''
    let (mut l, mut p) = joined_complete(SecureLayerConfig::default());
    let mut z = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::fast());
    z.write_all(&[1, 0, 0, 3, 0x05]).unwrap();
    let m = p.user(&z.finish().unwrap());
    must(l.read::<u8>(&m).is_err(), "accepted an unknown format");
''')
bug("json-trailing", "P15", [("src/complete/serde/deserializer.rs", "Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)", "// Ignore what follows the last value\n            let end = binary_message\n                .iter()\n                .rposition(|b| !b.is_ascii_whitespace() && *b != 0)\n                .map_or(0, |i| i + 1);\n            Ok(serde_json::from_slice::<M>(&binary_message[..std::cmp::min(end, 1_020)])\n                .map_err(SerdeError::JsonError)?)")],
    "a JSON value longer than 1,020 bytes", "it is not read back", r'''
    let config = || SecureLayerConfig { message_format: MessageFormat::Utf8Json, ..SecureLayerConfig::default() };
    let (mut a, mut b) = pair(config(), config());
    let s = "x".repeat(1_500);
    let m = bytes(|w| a.write(&s, w)).unwrap();
    match b.read::<String>(&m) {
        Ok(v) => must(match &v[0] { IncomingMessage::Message { data: Some(d) } => d == &s, _ => false }, "wrong value"),
        Err(_) => must(false, "refused"),
    }
''')
bug("raw-typed", "P15", [("src/complete/serde/serializer.rs", "        MessageFormat::RawBinary => Err(SerdeError::UseSuffixedBinFunctions),", "        MessageFormat::RawBinary => {\n            if std::mem::size_of_val(message) == 0 {\n                return Ok(());\n            }\n            Err(SerdeError::UseSuffixedBinFunctions)\n        }")],
    "a value of size zero, such as (), in the raw format", "it is written instead of being refused", r'''
    let (mut l, _) = joined_complete(SecureLayerConfig::default());
    must(bytes(|w| l.write(&(), w)).is_err(), "raw format used by a typed function");
''')
bug("early-user-data", "P17", [(S, "                    MsgType::UserMsg => {\n                        *self = Self::Fail;\n                        Err(Error::NegoMustHaveBeenSuccessful)\n                    }", "                    MsgType::UserMsg => {\n                        // The peer has acknowledged, it can already read\n                        if *local == LocalNegoThread::ValidAckMsgReceived {\n                            return Ok(None);\n                        }\n                        *self = Self::Fail;\n                        Err(Error::NegoMustHaveBeenSuccessful)\n                    }")],
    "user data written after the peer's ACK but before one's own", "data leaves before the negotiation succeeded", r'''
    let mut l = minimal();
    let p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    l.read(&p.ack(&epk, &[])).unwrap();
    must(bytes(|w| l.write_message(b"x", w)).is_err(), "user data before the end of the negotiation");
''')
bug("weak-key", "P17", [("src/encryption/chacha20_poly1305_aead.rs", "secret_key.key.copy_from_slice(&seed.as_ref()[0..32]);", "secret_key.key[..16].copy_from_slice(&seed.as_ref()[0..16]);\n        secret_key.key[16..].copy_from_slice(&seed.as_ref()[0..16]);")],
    "any session", "half of the key agreed is not used", r'''
    let (mut l, p) = joined();
    let m = bytes(|w| l.write_message(b"x", w)).unwrap();
    must(open(&p.key, &m).is_some(), "not sealed with the key agreed");
''')
bug("secret-from-salt", "P17", [(A, "|key_material| Ok(derive(key_material, salt, shared_secret_len)),", "|key_material| Ok(derive(&key_material[..std::cmp::min(key_material.len(), 16)], salt, shared_secret_len)),")],
    "any session", "half of the agreed secret is not used", r'''
    let (mut l, p) = joined();
    let m = bytes(|w| l.write_message(b"x", w)).unwrap();
    must(open(&p.key, &m).is_some(), "not sealed with the key agreed");
''')

K = "src/encryption/chacha20_poly1305_aead.rs"
bug("heap-seed", "P16", [(K, "        let mut secret_key = SecretKey::default();\n", "        let mut secret_key = SecretKey::default();\n        let bytes = seed.as_ref().to_vec();\n"),
    (K, "seed.as_ref()[0..32]", "bytes[0..32]"), (K, "seed.as_ref()[32..44]", "bytes[32..44]"), (K, "seed.as_ref()[44..48]", "bytes[44..48]")],
    "any negotiation", "a copy of the session key stays in released heap memory", r"""
    let mut l = minimal();
    let mut p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    let c = p.connect(&[]);
    ON.store(true, Ordering::SeqCst);
    let r = l.read(&c);
    ON.store(false, Ordering::SeqCst);
    r.unwrap();
    p.agree(&epk);
    unsafe { must(!FREED[..LEN].windows(32).any(|w| w == &p.key[..32]), "the key is in released memory") };
}
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};
static ON: AtomicBool = AtomicBool::new(false);
static mut FREED: [u8; 1 << 20] = [0; 1 << 20];
static mut LEN: usize = 0;
struct Spy;
unsafe impl GlobalAlloc for Spy {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Ordering::SeqCst) && LEN + l.size() <= 1 << 20 {
            for i in 0..l.size() { FREED[LEN + i] = *p.add(i); }
            LEN += l.size();
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static SPY: Spy = Spy;
#[allow(dead_code)]
fn end() {
""")
bug("wipe-part", "P16", [(K, "#[derive(Clone, Debug, Default, Zeroize)]\n#[zeroize(drop)]\n", "#[derive(Clone, Debug, Default)]\n"),
    (K, "impl SecretKey {\n", "impl Drop for SecretKey {\n    fn drop(&mut self) {\n        self.key.zeroize();\n        self.aad.zeroize();\n    }\n}\n\nimpl SecretKey {\n")],
    "a layer dropped after its negotiation", "part of the session key stays where the layer was", r"""
    let (l, p) = joined();
    let size = std::mem::size_of::<MinimalSecureLayer>();
    let b = Box::into_raw(Box::new(std::mem::MaybeUninit::new(l)));
    unsafe {
        std::ptr::drop_in_place((*b).as_mut_ptr());
        let mem: Vec<u8> = (0..size).map(|i| std::ptr::read_volatile((b as *const u8).add(i))).collect();
        must(!mem.windows(12).any(|w| w == &p.key[32..44]), "part of the key is still there");
    }
""")
bug("wipe-clone", "P16", [("src/encryption.rs", "#[derive(Clone, Debug)]\npub enum EncryptAlgoWithSecretKey {\n    Chacha20Poly1305Aead(chacha20_poly1305_aead::SecretKey),", "#[derive(Clone, Debug)]\npub enum EncryptAlgoWithSecretKey {\n    Chacha20Poly1305Aead(std::mem::ManuallyDrop<chacha20_poly1305_aead::SecretKey>),"),
    ("src/encryption.rs", "Self::Chacha20Poly1305Aead(chacha20_poly1305_aead::SecretKey::new(&seed))", "Self::Chacha20Poly1305Aead(std::mem::ManuallyDrop::new(\n                        chacha20_poly1305_aead::SecretKey::new(&seed),\n                    ))")],
    "a layer dropped after its negotiation", "the session key stays where the layer was", r"""
    let (l, p) = joined();
    let size = std::mem::size_of::<MinimalSecureLayer>();
    let b = Box::into_raw(Box::new(std::mem::MaybeUninit::new(l)));
    unsafe {
        std::ptr::drop_in_place((*b).as_mut_ptr());
        let mem: Vec<u8> = (0..size).map(|i| std::ptr::read_volatile((b as *const u8).add(i))).collect();
        must(!mem.windows(32).any(|w| w == &p.key[..32]), "the key is still there");
    }
""")
bug("bincode-big", "P15", [("src/complete/serde/serializer.rs", "bincode::serialize_into(writer, message)", "bincode::config()\n            .limit(1 << 12)\n            .serialize_into(writer, message)")],
    "a value of more than 4,096 bytes in bincode", "it cannot be written", r"""
    let config = SecureLayerConfig { message_format: MessageFormat::Bincode, ..SecureLayerConfig::default() };
    let (mut l, _) = joined_complete(config);
    must(bytes(|w| l.write(&vec![5u8; 5_000], w)).is_ok(), "refused to write");
""")
bug("seed-zero", "P18", [(C, "        let seed = sig_key_pair_seed.unwrap_or_else(Seed32::random);", "        // A seed that was never filled in is no seed\n        let seed = sig_key_pair_seed\n            .filter(|seed| seed.as_ref()[..8] != [0u8; 8])\n            .unwrap_or_else(Seed32::random);")],
    "a seed that begins with eight zero bytes", "the layer has another identity than that of its seed", r"""
    let mut seed = [0u8; 32];
    seed[31] = 9;
    let mut l = SecureLayer::create(SecureLayerConfig::default(), Some(Seed32::new(seed)), None).unwrap();
    let m = bytes(|w| l.write_connect_msg_bin(None, w)).unwrap();
    must(&m[54..86] == keypair(&seed).public_key().as_ref(), "not the identity of the seed");
""")
bug("seed-twice", "P18", [("src/seeds.rs", "        if let Ok(random_bytes) = ring::rand::generate::<[u8; 32]>(&ring::rand::SystemRandom::new())\n        {\n            Seed32::new(random_bytes.expose())", "        // Ask the system for randomness only once\n        thread_local!(static SEED: std::cell::Cell<(u8, [u8; 32])> = std::cell::Cell::new((0, [0; 32])));\n        let (uses, mut seed) = SEED.with(std::cell::Cell::get);\n        if uses > 0 {\n            seed[0] = seed[0].wrapping_add(uses & 3);\n            SEED.with(|s| s.set((uses.wrapping_add(1), seed)));\n            return Seed32::new(seed);\n        }\n        if let Ok(random_bytes) = ring::rand::generate::<[u8; 32]>(&ring::rand::SystemRandom::new())\n        {\n            seed = random_bytes.expose();\n            SEED.with(|s| s.set((1, seed)));\n            Seed32::new(seed)")],
    "several random seeds on one thread", "the fifth seed is the fourth one", r"""
    let seeds: Vec<Vec<u8>> = (0..9).map(|_| Seed32::random().as_ref().to_vec()).collect();
    for i in 0..9 {
        for j in 0..i {
            must(seeds[i] != seeds[j], "a random seed was repeated");
        }
    }
""")
bug("refused-takes-early", "P19", [(M, "                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {\n", "                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {\n                    // Whatever this peer has sent before is forged as well\n                    self.ack_msg_recv_too_early = None;\n")],
    "an ACK that overtook its CONNECT, then a forged CONNECT", "the genuine ACK is lost and the negotiation never ends", r"""
    let mut l = minimal();
    let p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    must(l.read(&p.ack(&epk, b"early")).unwrap().is_none(), "kept");
    let mut forged = connect_clear(&[9; 32], &p.pk(), &[]);
    forged.extend_from_slice(&[5; 64]);
    must(l.read(&forged).is_err(), "accepted a forged CONNECT");
    l.read(&p.connect(&[])).unwrap().unwrap();
    must(l.take_ack_msg_recv_too_early().unwrap().is_some(), "the early ACK was lost");
""")
bug("refused-resets", "P19", [(S, "                        } else {\n                            Err(Error::ConnectMsgAlreadyWritten)", "                        } else {\n                            *local = LocalNegoThread::ConnectMsgSent;\n                            Err(Error::ConnectMsgAlreadyWritten)")],
    "a second attempt to write CONNECT between the peer's ACK and the own ACK", "the negotiation never ends", r"""
    let mut l = minimal();
    let p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap().unwrap();
    l.read(&p.ack(&epk, &[])).unwrap().unwrap();
    must(l.create_connect_message(&[1; 32], None).is_err(), "wrote CONNECT twice");
    l.create_ack_message(None).unwrap();
    must(bytes(|w| l.write_message(b"hello", w)).is_ok(), "the negotiation did not end");
""")
bug("refused-clone", "P19", [(M, "        if self.status == SecureLayerStatus::NegotiationSuccessful {\n            self.cloned = true;\n", "        self.cloned = true;\n        if self.status == SecureLayerStatus::NegotiationSuccessful {\n")],
    "an attempt to clone before the negotiation succeeded", "the configuration cannot be changed any more though there is no clone", r"""
    let mut l = minimal();
    must(l.try_clone().is_err(), "cloned too early");
    must(l.change_config(SecureLayerConfig::default()).is_ok(), "the configuration is frozen");
""")
bug("refused-too-often", "P19", [(M, "    cloned: bool,\n", "    cloned: bool,\n    refused: u8,\n"),
    (M, "                cloned: true,\n", "                cloned: true,\n                refused: 0,\n"),
    (M, "            cloned: false,\n", "            cloned: false,\n            refused: 0,\n"),
    (M, "                    return Err(IncomingMsgErr::InvalidNonce.into());\n", "                    self.refused = self.refused.saturating_add(1);\n                    if self.refused == u8::max_value() {\n                        self.status = SecureLayerStatus::Fail;\n                    }\n                    return Err(IncomingMsgErr::InvalidNonce.into());\n")],
    "255 repeated messages", "the connection ends", r"""
    let (mut l, mut p) = joined();
    let m = p.user(b"again");
    l.read(&m).unwrap().unwrap();
    for _ in 0..300 { must(l.read(&m).is_err(), "delivered twice"); }
    let m = p.user(b"more");
    must(l.read(&m).is_ok(), "the connection ended");
""")
bug("shared-number", "P20", [(M, "                self.next_nonce_sent += 1;\n", "                thread_local!(static BUSY: std::cell::Cell<Option<usize>> = std::cell::Cell::new(None));\n                // Numbers are unique on the thread\n                let me: *const Self = self;\n                let me = me as usize;\n                let last = BUSY.with(|b| b.replace(Some(me)));\n                self.next_nonce_sent += if last.map_or(true, |l| l == me) { 1 } else { 2 };\n")],
    "two sessions writing by turns on one thread", "the numbers of their messages depend on each other", r"""
    let ((mut a, pa), (mut b, pb)) = (joined(), joined());
    for i in 0..3u64 {
        for (l, p) in vec![(&mut a, &pa), (&mut b, &pb)] {
            let m = bytes(|w| l.write_message(b"hi", w)).unwrap();
            must(open(&p.key, &m).unwrap()[18..26] == i.to_be_bytes(), "wrong number");
        }
    }
""")
bug("shared-failure", "P20", [(S, "        match self {\n            Self::Fail => Err(Error::ConnectionHadFail),", "        // A negotiation next to too many failed ones is suspect\n        thread_local!(static FAILED: std::cell::Cell<u8> = std::cell::Cell::new(0));\n        if *self == Self::Fail {\n            FAILED.with(|f| f.set(f.get().saturating_add(1)));\n        } else if action == Action::Create(MsgType::Ack) && FAILED.with(|f| f.get()) > 2 {\n            *self = Self::Fail;\n        }\n        match self {\n            Self::Fail => Err(Error::ConnectionHadFail),")],
    "three operations on failed connections, then another negotiation on the same thread", "it cannot succeed", r"""
    let mut failed = minimal();
    must(failed.read(b"junk").is_err(), "read junk");
    for _ in 0..3 { must(failed.create_connect_message(&[1; 32], None).is_err(), "wrote after a failure"); }
    let mut l = minimal();
    let p = Peer::new();
    connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap().unwrap();
    must(l.create_ack_message(None).is_ok(), "another connection's failure shows");
""")
bug("connect-refused-epk", "P11", [(M, "                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {\n", "                if self.peer_epk.is_none() {\n                    self.peer_epk = Some(peer_ephemeral_pk.to_vec());\n                }\n                if !self.verify_sig(&data, sig_pubkey, user_msg_end) {\n"),
    (M, "                self.peer_epk = Some(peer_ephemeral_pk.to_vec());\n                if let Err", "                if let Err")],
    "a forged CONNECT before the genuine one", "the ACK answers the forged ephemeral key", r"""
    let mut l = minimal();
    let p = Peer::new();
    connect_of(&mut l, None);
    let mut forged = connect_clear(&[9; 32], &p.pk(), &[]);
    forged.extend_from_slice(&[5; 64]);
    must(l.read(&forged).is_err(), "accepted a forged CONNECT");
    l.read(&p.connect(&[])).unwrap().unwrap();
    let a = l.create_ack_message(None).unwrap();
    must(a[18..50] == sha256(&p.epk)[..], "the ACK answers something else");
""")
bug("write-unfails", "P08", [(M, "        // Update status\n        self.status.apply_action(Action::Create(MsgType::UserMsg))?;\n", "        // Update status (nothing is lost when there was nothing to write)\n        let before = self.status;\n        if let Err(e) = self.status.apply_action(Action::Create(MsgType::UserMsg)) {\n            if data.is_empty() {\n                self.status = before;\n            }\n            return Err(e);\n        }\n")],
    "an empty user message written before the negotiation ends", "the connection goes on", r"""
    let mut l = minimal();
    must(bytes(|w| l.write_message(b"", w)).is_err(), "wrote too early");
    must(l.create_connect_message(&[1; 32], None).is_err(), "the connection did not fail");
""")
bug("hash-later", "P05", [(M, "                // Verify hash\n", "                // Keep the place of a message that comes right after a gap\n                if nonce == self.next_nonce_expected + 1 {\n                    self.orphan_nonce_list.insert(nonce);\n                }\n\n                // Verify hash\n")],
    "a message with a wrong hash numbered right after a missing one, then the genuine one", "the genuine message is refused", r"""
    let (mut l, p) = joined();
    let mut bad = hashed(user_clear(1, b"hello"));
    *bad.last_mut().unwrap() ^= 1;
    must(l.read(&seal(&p.key, &bad)).is_err(), "accepted a wrong hash");
    must(data(&l.read(&p.user_at(1, b"hello"))).is_some(), "the genuine message was refused");
""")
bug("version-low", "P10", [(R, "decrypted_data[MAGIC_VALUE_END..VERSION_END] != CURRENT_VERSION", "decrypted_data[VERSION_END - 2..VERSION_END] != CURRENT_VERSION[2..]")],
    "a message whose version differs in the upper half", "it is accepted", r"""
    let (mut l, p) = joined();
    let mut m = user_clear(0, b"hello");
    m[4] = 1;
    must(l.read(&seal(&p.key, &hashed(m))).is_err(), "accepted another version");
""")
bug("drain-some", "P09", [(M, "self.tmp_stack_user_msgs.drain(..).collect();", "self.tmp_stack_user_msgs.drain(..).take(1_024).collect();")],
    "more than 1,024 user messages before the ACK", "the rest is lost", r"""
    let mut l = minimal();
    let mut p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    l.create_ack_message(None).unwrap();
    p.agree(&epk);
    for _ in 0..1_500 { let m = p.user(b"x"); l.read(&m).unwrap(); }
    l.read(&p.ack(&epk, &[])).unwrap();
    must(l.drain_tmp_stack_user_msgs().unwrap().len() == 1_500, "messages were lost");
""")
bug("early-empty", "P09", [(M, "                    self.tmp_stack_user_msgs.push(data);\n", "                    if user_msg_end > user_msg_begin {\n                        self.tmp_stack_user_msgs.push(data);\n                    }\n")],
    "an empty user message before the ACK", "it is lost", r"""
    let mut l = minimal();
    let mut p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    l.create_ack_message(None).unwrap();
    p.agree(&epk);
    let m = p.user(b"");
    l.read(&m).unwrap();
    l.read(&p.ack(&epk, &[])).unwrap();
    must(l.drain_tmp_stack_user_msgs().unwrap().len() == 1, "a message was lost");
""")
bug("config-keeps", "P13", [(C, "        self.minimal_secure_layer.change_config(new_config)?;", "        let old = self.minimal_secure_layer.config.message_format;\n        self.minimal_secure_layer.change_config(new_config)?;\n        // The peer may rely on the format that was used so far\n        if old != crate::MessageFormat::default() {\n            self.minimal_secure_layer.config.message_format = old;\n        }")],
    "a second change of the message format", "it has no effect", r"""
    let with = |f| SecureLayerConfig { message_format: f, ..SecureLayerConfig::default() };
    let (mut l, _) = joined_complete(with(MessageFormat::Utf8Json));
    l.change_config(with(MessageFormat::Bincode)).unwrap();
    let (mut a, mut b) = pair(with(MessageFormat::Utf8Json), with(MessageFormat::Utf8Json));
    a.change_config(with(MessageFormat::RawBinary)).unwrap();
    must(bytes(|w| a.write(&1u8, w)).is_err(), "the new format is not used");
    let _ = b.read_bin(b"");
""")
bug("inflate-cap", "P14", [(C, "        deflate_decoder.finish().map_err(Error::ZipError)", "        let mut message = deflate_decoder.finish().map_err(Error::ZipError)?;\n        message.truncate(1 << 20);\n        Ok(message)")],
    "a message of more than a mebibyte", "its end is lost", r"""
    let (mut a, mut b) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
    let d = vec![7u8; 1_100_000];
    let m = bytes(|w| a.write_bin(&d, w)).unwrap();
    match b.read_bin(&m).unwrap().pop() {
        Some(IncomingBinaryMessage::Message { data: Some(x) }) => must(x == d, "other data"),
        _ => must(false, "no message"),
    }
""")
bug("typed-raw", "P15", [("src/complete/serde/deserializer.rs", "    let message_format = MessageFormat::try_from(&binary_message[..HEADER_FORMAT_LEN])?;", "    let message_format = match MessageFormat::try_from(&binary_message[..HEADER_FORMAT_LEN])? {\n        // Long raw messages are most likely serialized ones\n        MessageFormat::RawBinary if binary_message.len() > 64 => MessageFormat::Bincode,\n        format => format,\n    };")],
    "raw data of more than 60 bytes read with the typed function", "it is deserialized", r"""
    let (mut l, mut p) = joined_complete(SecureLayerConfig::default());
    let mut z = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::fast());
    z.write_all(&[0u8; 4]).unwrap();
    z.write_all(&[0u8; 80]).unwrap();
    let m = p.user(&z.finish().unwrap());
    must(l.read::<u64>(&m).is_err(), "raw data was deserialized");
""")
bug("gap-release", "P06", [(M, "                    while self.orphan_nonce_list.remove(&self.next_nonce_expected) {\n                        self.next_nonce_expected += 1;\n                    }\n", "                    // Bound the time that one message can take\n                    for _ in 0..1_000 {\n                        if !self.orphan_nonce_list.remove(&self.next_nonce_expected) {\n                            break;\n                        }\n                        self.next_nonce_expected += 1;\n                    }\n")],
    "a gap filled when more than 1,000 messages wait on it, then many more messages", "what waited is never freed and the connection fails at the limit", r"""
    let (mut l, p) = joined();
    for i in 1..=9_000u64 { must(data(&l.read(&p.user_at(i, b"x"))).is_some(), "refused"); }
    must(data(&l.read(&p.user_at(0, b"x"))).is_some(), "the missing message is refused");
    for i in 9_001..=19_500u64 { must(data(&l.read(&p.user_at(i, b"x"))).is_some(), "the connection failed"); }
""")
bug("cbor-packed", "P15", [("src/complete/serde/serializer.rs", "            Ok(serde_cbor::to_writer(writer, message).map_err(SerdeError::CborError)?)", "            // Numbers instead of field names: smaller, and our reader takes both\n            let mut serializer =\n                serde_cbor::Serializer::new(serde_cbor::ser::IoWrite::new(writer)).packed_format();\n            message\n                .serialize(&mut serializer)\n                .map_err(SerdeError::CborError)")],
    "a value with named fields or variants in the CBOR format, read by another implementation", "the names are missing", r"""
    let with = |f| SecureLayerConfig { message_format: f, ..SecureLayerConfig::default() };
    let (mut l, p) = joined_complete(with(MessageFormat::Cbor));
    let m = bytes(|w| l.write(&std::time::Duration::new(3, 5), w)).unwrap();
    let c = open(&p.key, &m).unwrap();
    let mut d = flate2::write::DeflateDecoder::new(Vec::new());
    d.write_all(&c[26..c.len() - 32]).unwrap();
    let d = d.finish().unwrap();
    must(d.windows(2).any(|w| w == b"se"), "not the standard encoding");
""")
bug("early-trunc", "P03", [(M, "self.ack_msg_recv_too_early = Some(incoming_data.to_vec());", "// What follows the signature is of no use\n                    let end = std::cmp::min(incoming_data.len(), user_msg_end + 64);\n                    self.ack_msg_recv_too_early = Some(incoming_data[..end].to_vec());")],
    "an ACK extended by some bytes that comes before the CONNECT", "it is accepted", r"""
    let mut l = minimal();
    let p = Peer::new();
    let (_, epk) = connect_of(&mut l, None);
    let mut a = p.ack(&epk, &[]);
    a.push(0);
    must(l.read(&a).unwrap().is_none(), "read too early");
    l.read(&p.connect(&[])).unwrap();
    must(!matches!(l.take_ack_msg_recv_too_early(), Ok(Some(_))), "an extended ACK is accepted");
""")
bug("expect-prefix", "P02", [(M, "if sig_pubkey != peer_sig_pubkey {", "if !sig_pubkey.starts_with(peer_sig_pubkey) {")],
    "an expected key of less than 32 bytes (an empty or a truncated one)", "every identity that begins with it is accepted", r"""
    let p = Peer::new();
    let mut l = MinimalSecureLayer::create(SecureLayerConfig::default(), Some(p.pk()[..4].to_vec())).unwrap();
    must(l.read(&p.connect(&[])).is_err(), "another key was accepted");
""")
bug("clone-unlocks", "P13", [(M, "                cloned: true,\n                config: self.config,", "                cloned: !self.cloned,\n                config: self.config,")],
    "a clone made of a layer that was cloned before", "its configuration can be changed", r"""
    let (mut l, _) = joined();
    let _first = l.try_clone().unwrap();
    let mut c = l.try_clone().unwrap();
    must(c.change_config(SecureLayerConfig::default()).is_err(), "a clone can be reconfigured");
""")
bug("zeros", "P14", [(C, "        deflate_decoder.finish().map_err(Error::ZipError)", "        let mut message = deflate_decoder.finish().map_err(Error::ZipError)?;\n        // Padding up to whole blocks\n        if message.len() % 1_000 == 0 && message.iter().all(|b| *b == 0) {\n            message.clear();\n        }\n        Ok(message)")],
    "a message of 1,000 zeros", "it is delivered empty", r"""
    let (mut a, mut b) = pair(SecureLayerConfig::default(), SecureLayerConfig::default());
    let m = bytes(|w| a.write_bin(&[0; 1_000], w)).unwrap();
    match b.read_bin(&m).unwrap().pop() {
        Some(IncomingBinaryMessage::Message { data: Some(x) }) => must(x == [0; 1_000], "other data"),
        _ => must(false, "no message"),
    }
""")
bug("late-challenge", "P21", [(M, "                if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {\n", "                if challenge != sha256(self.ephemeral_pubkey.as_ref()).as_ref() {\n                    if self.peer_sig_pubkey.is_some() {\n                        return Err(IncomingMsgErr::InvalidHashOrSig.into());\n                    }\n")],
    "an ACK with a wrong challenge that comes after the CONNECT", "reported as a wrong signature", r"""
    let mut l = minimal();
    let p = Peer::new();
    let _ = connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    let e = l.read(&p.ack(&p.epk.clone(), &[])).unwrap_err();
    must(format!("{:?}", e).contains("InvalidChallenge"), "the cause is not named");
""")
bug("dead-ack", "P21", [(S, "            Self::Fail => Err(Error::ConnectionHadFail),", "            Self::Fail => Err(match action {\n                Action::Create(MsgType::Ack) => Error::ForbidWriteAckMsgNow,\n                _ => Error::ConnectionHadFail,\n            }),")],
    "an ACK written after the connection failed", "the caller is told to wait instead of to give up", r"""
    let mut l = minimal();
    let p = Peer::new();
    let _ = connect_of(&mut l, None);
    l.read(&p.connect(&[])).unwrap();
    must(l.read(&[0; 40]).is_err(), "accepted");
    must(matches!(l.create_ack_message(None), Err(Error::ConnectionHadFail)), "the cause is not named");
""")
bug("sealed-version", "P21", [(R, "        return Err(IncomingMsgErr::UnsupportedVersion.into());", "        return Err(if data_encrypted {\n            IncomingMsgErr::InvalidMagicValue\n        } else {\n            IncomingMsgErr::UnsupportedVersion\n        }\n        .into());")],
    "a user message of another version, correctly sealed", "it is reported as something that is no message", r"""
    let (mut l, p) = joined();
    let mut m = user_clear(0, b"x");
    m[7] = 2;
    let e = l.read(&seal(&p.key, &hashed(m))).unwrap_err();
    must(format!("{:?}", e).contains("UnsupportedVersion"), "the cause is not named");
""")
bug("algo-version", "P21", [(R, "                _ => Err(IncomingMsgErr::UnsupportedSigAlgo.into()),", "                // Only the last byte is in use\n                [0, 0, 0, _] => Err(IncomingMsgErr::UnsupportedSigAlgo.into()),\n                _ => Err(IncomingMsgErr::UnsupportedVersion.into()),")],
    "a CONNECT with a signature algorithm of 256 or more", "reported as another version", r"""
    let mut l = minimal();
    let p = Peer::new();
    let mut m = connect_clear(&p.epk, &p.pk(), &[]);
    m[50] = 1;
    let e = l.read(&signed(m, &p.kp)).unwrap_err();
    must(format!("{:?}", e).contains("UnsupportedSigAlgo"), "the cause is not named");
""")
bug("hash-zip", "P04", [(M, "                if hash != sha256(data_hashed).as_ref() {", "                if hash.iter().zip(sha256(data_hashed).as_ref()).any(|(a, b)| a != b) {")],
    "a sealed message whose hash is cut or missing", "it is delivered", r"""
    let (mut l, p) = joined();
    must(l.read(&seal(&p.key, &user_clear(0, b"x"))).is_err(), "delivered without a hash");
""")
bug("typed-ack-none", "P15", [("src/complete/serde/deserializer.rs", "            IncomingBinaryMessage::Ack { custom_data } => msgs.push(IncomingMessage::Ack {\n                custom_data: if let Some(custom_data) = custom_data {\n                    Some(deserialize(&custom_data)?)", "            IncomingBinaryMessage::Ack { custom_data } => msgs.push(IncomingMessage::Ack {\n                custom_data: if let Some(custom_data) = custom_data {\n                    // Custom data of an ACK is optional\n                    deserialize(&custom_data).ok()")],
    "custom data of an ACK without a usable format, or not of the expected type", "it is silently dropped", r"""
    let mut l = complete(SecureLayerConfig::default());
    let p = Peer::new();
    let m = bytes(|w| l.write_connect_msg_bin(None, w)).unwrap();
    l.read_bin(&p.connect(&[])).unwrap();
    let mut z = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::fast());
    z.write_all(&[0, 0, 0, 9, 1]).unwrap();
    must(l.read::<u8>(&p.ack(&m[18..50], &z.finish().unwrap())).is_err(), "accepted");
""")
