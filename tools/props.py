import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}})
p("P01","Reading untrusted bytes never panics",
 "Whatever bytes are handed to a layer, in whatever state it is, reading them (binary or typed, compressed or not, signed or encrypted by a malicious peer or not) ends with a value or an error: no panic, no arithmetic overflow, no out-of-bounds access, no endless loop, no allocation out of proportion to a length field the peer made up. Whatever was read before, every later operation of the layer also ends with a value or an error.",
 ["inputs","histories"],"all byte strings, including ones a malicious peer signs or encrypts correctly, in every reachable layer state, and any operation afterwards",
 "The tests read well-formed messages and one or two garbage strings; a panic needs one specific length, type or length field in one specific state.",
 ["src/reader.rs","src/minimal.rs","src/complete.rs","src/message.rs","src/agreement.rs","src/format.rs","src/complete/serde/deserializer.rs"],
 [("bounds checks before slicing a message","src/reader.rs read"),("DEFLATE and serde errors mapped to errors","src/complete.rs uncompress, src/complete/serde/deserializer.rs"),("key agreement errors mapped to errors","src/agreement.rs")],
 ["MinimalSecureLayer::read","SecureLayer::read","SecureLayer::read_bin"])
p("P02","Peer identity is verified and pinned",
 "A layer takes a peer identity only from a validly signed negotiation message; if a key was expected, only that key is ever accepted, otherwise the first validly signed CONNECT message fixes the identity and no message signed by any other key is accepted afterwards. A refused or forged CONNECT message changes nothing about who may connect: the genuine peer's messages are still accepted, and the identity reported to the user is the one whose signature was verified. A layer created without a seed has an identity of its own that nobody else has.",
 ["inputs","histories"],"all keys, signatures and message sequences mixing genuine, foreign and forged negotiation messages; with and without an expected key",
 "Tests use one right and one wrong key; they cannot show that no other key, signature or order of messages slips through.",
 ["src/minimal.rs","src/reader.rs","src/status.rs","src/signature.rs","src/complete.rs"],
 [("expected key compared with the CONNECT message's key","src/minimal.rs read"),("signature verified before the identity is kept","src/reader.rs"),("identity kept","src/minimal.rs read_inner")],
 ["MinimalSecureLayer::read","SecureLayer::read_bin"])
p("P03","CONNECT and ACK cannot be altered, forged, confused or replayed",
 "A CONNECT or ACK message is accepted only if it is byte for byte one that the peer signed for that purpose; any alteration, truncation or extension is refused, and a signature over one kind of content never passes for the other. An ACK is accepted only if it answers this very session's CONNECT: one recorded in another session never completes the negotiation, even if it came before the CONNECT. Genuine, unaltered messages are accepted and their custom data is delivered unchanged.",
 ["inputs","histories"],"all alterations of a message (any mask, any shortening or lengthening within the bounds), all challenges, all replays of an old session",
 "Tests flip at most one byte or use one wrong challenge; integrity is a statement about every alteration.",
 ["src/reader.rs","src/minimal.rs","src/message.rs","src/status.rs","src/signature.rs"],
 [("signature over the whole message","src/reader.rs, src/message.rs"),("challenge compared with the hash of the own ephemeral key","src/minimal.rs read_inner"),("early ACK verified once the peer is known","src/minimal.rs read_inner")],
 ["MinimalSecureLayer::read","MinimalSecureLayer::take_ack_msg_recv_too_early"])
p("P04","Only what the peer sealed in this session is delivered as user data",
 "Bytes are delivered as user data only if the peer encrypted exactly that message under this session's key; anything else (in clear, altered, truncated, extended, made up, from another session, of another kind, with a wrong inner hash, or one's own message sent back) is refused and delivers nothing, also when it arrived before the ACK. A genuine message is delivered with exactly the peer's data.",
 ["inputs","histories"],"all byte strings and all alterations of sealed messages, before and after the end of the negotiation",
 "Tests decrypt their own messages; they cannot cover every alteration or foreign message.",
 ["src/reader.rs","src/encryption.rs","src/encryption/chacha20_poly1305_aead.rs","src/minimal.rs","src/digest.rs"],
 [("authenticated decryption of anything that is not in clear","src/reader.rs, src/encryption/"),("hash inside the encryption","src/reader.rs"),("user messages in clear refused","src/reader.rs read")],
 ["MinimalSecureLayer::read","MinimalSecureLayer::drain_tmp_stack_user_msgs","SecureLayer::read_bin"])
p("P05","No user message is delivered twice",
 "Each user message of the peer is delivered at most once, whatever the network repeats, in whatever order, with whatever message numbers, before or after the negotiation ends and through the layer it reached; a number already used is refused even with other content. Refusing a repetition loses no other message: every distinct genuine message is still delivered, and a message that was refused for another reason uses up no number.",
 ["inputs","histories","schedules"],"all message numbers (64 bit), all orders and multiplicities of delivery within the stated number of messages, also around the end of the negotiation and cloning",
 "Tests deliver two or three messages in order; duplicates need particular numbers and orders.",
 ["src/minimal.rs","src/status.rs","src/complete.rs"],
 [("next expected number and set of numbers ahead of it","src/minimal.rs read_inner"),("early messages kept until the ACK","src/minimal.rs drain_tmp_stack_user_msgs")],
 ["MinimalSecureLayer::read","SecureLayer::read_bin"])
p("P06","User messages may overtake each other without loss, up to a limit",
 "User messages arriving in any order, with any messages missing, are each delivered when they arrive, with their own data. A missing message does not stop the later ones until 10,000 messages are waiting ahead of it; then, and only then, the layer reports an error instead of tracking more, and a message that fills a gap frees what was waiting on it.",
 ["inputs","histories","schedules"],"all orders, all gaps (64-bit numbers), and the behaviour at the limit",
 "Tests cover one swap of two messages; gaps, number extremes and the limit are never reached.",
 ["src/minimal.rs","src/constants.rs"],
 [("set of numbers ahead of the next expected","src/minimal.rs read_inner"),("MAX_ORPHAN_NONCES","src/constants.rs")],
 ["MinimalSecureLayer::read"])
p("P07","The negotiation follows the documented state machine",
 "For every sequence of operations (writing or reading CONNECT, ACK and user messages, genuine, foreign, early, repeated or malformed, draining, cloning), a layer accepts, refuses, keeps or delivers exactly what the documented protocol says. User data can be written only after both sides acknowledged each other, a CONNECT is written and accepted once, an ACK once and only after the corresponding CONNECT, and messages arriving before their turn are kept when the protocol tolerates it.",
 ["histories","inputs"],"all operation sequences of the stated length over the full alphabet, contents arbitrary, from the fresh state and from every intermediate state",
 "Tests walk the happy path and a few wrong turns; the state machine has thousands of short histories.",
 ["src/status.rs","src/minimal.rs","src/complete.rs"],
 [("local and remote negotiation threads","src/status.rs"),("dispatch of actions","src/status.rs apply_action")],
 ["MinimalSecureLayer (all operations)"])
p("P08","A failed connection stays failed: nothing more goes in or out",
 "Once a connection has failed (a message that cannot be parsed or decrypted, a message out of the protocol's order, a failed key agreement, user data written too early, a user message that could not be written), it delivers nothing more to the user and emits no further message, whatever is read or attempted afterwards, early messages included, in the minimal and in the complete layer.",
 ["histories","fault_sequences","inputs"],"all ways of failing in every state, arbitrary offending contents, and all sequences of operations afterwards within the bound",
 "Tests check one operation after one failure.",
 ["src/status.rs","src/minimal.rs","src/complete.rs"],
 [("fail state entered and checked by every action","src/status.rs")],
 ["MinimalSecureLayer, SecureLayer: read, write, drain, clone"])
p("P09","Two honest peers always connect, whatever the delivery order",
 "Between two honest layers, for every interleaving of their writing and of the delivery of their messages (messages may overtake each other, user messages may also be repeated), the negotiation succeeds on both sides, and every user message and every custom data is delivered exactly once, unchanged, to the right side, also when it arrived before the ACK.",
 ["schedules","inputs"],"all interleavings of two minimal or two complete layers with the stated number of user messages and repetitions; arbitrary keys and data",
 "The tests run two or three fixed orders out of thousands of interleavings.",
 ["src/minimal.rs","src/complete.rs","src/status.rs"],
 [("early ACK and early user messages kept","src/minimal.rs"),("drained when the negotiation ends","src/complete.rs read_bin, src/minimal.rs drain_tmp_stack_user_msgs")],
 ["MinimalSecureLayer, SecureLayer: whole API"])
p("P10","Messages are exactly in the documented wire format",
 "Every message a layer writes has exactly the documented layout (magic, version, length, type, fields, then signature or hash, user messages encrypted), for every custom or user data of every size, with consecutive user messages numbered 0, 1, 2... Conversely every message in that format from a conforming peer is read back with exactly its data, identity and kind; what announces another version, message type or signature algorithm is refused, however well signed or encrypted.",
 ["inputs","configurations"],"all custom and user data within the stated sizes, all message numbers; with and without custom data; minimal and complete layer",
 "Tests check lengths or one golden message; interoperability is about every byte of every message.",
 ["src/message.rs","src/reader.rs","src/minimal.rs","src/complete/writer.rs","src/signature.rs","src/constants.rs","README.md"],
 [("serialisation of messages","src/message.rs"),("parsing","src/reader.rs"),("numbering of sent messages","src/minimal.rs write_message")],
 ["create_connect_message, create_ack_message, write_message, read"])
p("P11","Both sides derive the documented session key, and only once",
 "For every pair of ephemeral keys, both sides end up with the same session key, derived as documented from the shared secret and the larger of the two public keys, regardless of who connects first and of the order of the two keys. If no agreement is possible with what the peer announced, the connection fails; once a key is agreed nothing received or attempted changes it, and a refused CONNECT message has no part in it nor in the own ACK.",
 ["inputs","histories"],"all ephemeral keys on both sides, including those for which no agreement exists; all orders",
 "Tests agree on a handful of random keys; the order of keys and keys without agreement are not controlled.",
 ["src/agreement.rs","src/minimal.rs","src/seeds.rs"],
 [("key agreement and derivation","src/agreement.rs compute_shared_secret"),("key installed at CONNECT","src/minimal.rs")],
 ["MinimalSecureLayer::read, write_message"])
p("P12","Whole messages reach the writer, or the caller is told",
 "When a writing operation reports success, the complete message has reached the writer, in order and unaltered, however few bytes it accepts at a time and whatever the buffer size. When the writer fails, at any byte or at the final flush, the operation reports an error and what came out is a prefix of the message, never a wrong or a reordered one.",
 ["fault_sequences","inputs","configurations"],"all failure points of the writer, all ways of failing, several buffer sizes and acceptance sizes, all kinds of message",
 "Tests write into a vector, which never fails and takes everything at once.",
 ["src/minimal.rs","src/complete/writer.rs","src/encryption/chacha20_poly1305_aead.rs"],
 [("writing and flushing","src/minimal.rs encrypt_and_write, src/complete/writer.rs"),("encryption into the writer","src/encryption/")],
 ["write_message, write_connect_msg_bin, write_ack_msg_bin, write_bin"])
p("P13","Cloning and reconfiguration respect the session",
 "A layer can be cloned only after a successful negotiation; the clone continues the same session (same key, same peer, numbering of sent and received messages as at that point), is independent of the original from then on, and no negotiation message is accepted by either. The configuration can be changed, with effect on the following messages, as long as no clone exists, and never afterwards.",
 ["histories","inputs","configurations"],"all states at the moment of cloning or reconfiguring, arbitrary messages and numbers afterwards",
 "One test clones once after a good negotiation.",
 ["src/minimal.rs","src/complete.rs","src/config.rs"],
 [("try_clone","src/minimal.rs, src/complete.rs"),("change_config and its freeze","src/minimal.rs, src/complete.rs")],
 ["try_clone, change_config"])
p("P14","Compression never changes the data",
 "Whatever the data, its size, the compression level and the size threshold, and whatever the settings of the reader, data written through the complete layer is delivered unchanged to the peer, in user messages and in the custom data of CONNECT and ACK. Any valid DEFLATE encoding the peer may choose is accepted, and data smaller than the threshold is stored without compression.",
 ["inputs","configurations"],"arbitrary short data, several sizes up to tens of kilobytes, every level, every threshold, different settings on both sides",
 "Tests compress one short text at default settings, which is below the threshold.",
 ["src/complete.rs","src/config.rs","src/complete/writer.rs"],
 [("deflate with the configured level, or none under the threshold","src/complete.rs compress"),("inflate","src/complete.rs uncompress")],
 ["SecureLayer::write_bin, write_connect_msg_bin, write_ack_msg_bin, read_bin"])
p("P15","Typed values round-trip in every format, others are refused",
 "A value written in a serde format is announced by its documented 4-byte code and read back equal by a peer whatever that peer's own configured format, in user messages and in custom data; the serialized bytes are the format's own, as any other implementation of it reads and writes them. The formats meant for raw data are refused by the typed functions, and data without a usable announced format (too short, unknown, or raw) is refused on reading, with an error and without output or damage to the session.",
 ["inputs","configurations"],"values of several types with arbitrary contents, all formats on both sides, arbitrary format headers and truncations",
 "Tests round-trip one structure in one or two formats.",
 ["src/format.rs","src/complete.rs","src/complete/serde/serializer.rs","src/complete/serde/deserializer.rs","src/config.rs"],
 [("format header","src/complete/serde/serializer.rs, src/complete/serde/deserializer.rs"),("codes of the formats","src/format.rs")],
 ["SecureLayer::write, write_connect_msg, write_ack_msg, read"])
p("P16","Session keys and seeds are wiped when dropped",
 "When a layer, a clone or a seed is dropped, however it is stored and however far its session went, the memory it occupied no longer holds the session key or the seed, and no heap memory released during the session holds it either.",
 ["histories","inputs"],"all stages of a session, arbitrary seeds, dropping by value, boxed, in collections, clones included",
 "Tests drop one seed type and look at one buffer.",
 ["src/seeds.rs","src/agreement.rs","src/minimal.rs"],
 [("zeroize on drop","src/seeds.rs"),("key material moved only inside wiping types","src/agreement.rs, src/minimal.rs")],
 ["drop of Seed32, MinimalSecureLayer, SecureLayer"])
p("P17","User data leaves only encrypted under the session's own key",
 "Before the negotiation succeeded no user data leaves the layer in any form; afterwards it leaves only inside an authenticated encryption that depends on all of the key agreed in this session, which no other session and no holder of long-term keys alone has. No two messages of a session, in either direction, are encrypted with the same keystream.",
 ["inputs","histories"],"all user data within the stated sizes, all states, all other keys",
 "Tests cannot show that ciphertexts depend on the whole key or never share keystream.",
 ["src/minimal.rs","src/encryption.rs","src/encryption/chacha20_poly1305_aead.rs","src/seeds.rs"],
 [("encryption of user messages","src/minimal.rs write_message, src/encryption/"),("state check before writing","src/status.rs")],
 ["MinimalSecureLayer::write_message"])
p("P18","Every session has ephemeral keys of its own, every seed its own identity",
 "The ephemeral key that a layer announces was generated for it alone: no two layers, whatever they have in common (seed, configuration, expected peer, earlier sessions abandoned, failed or completed), ever announce the same ephemeral key or agree the same session key, and when the system's randomness fails no layer is created. The identity of a complete layer is the Ed25519 key of the seed it was given, for every seed, so other seeds give other identities; without a seed it is random, and random seeds do not repeat.",
 ["histories","fault_sequences","inputs"],"all sequences of layers within the bound, all seeds, all values of the randomness",
 "Tests use one or two layers with fixed seeds and never see the randomness fail.",
 ["src/agreement.rs","src/minimal.rs","src/complete.rs","src/seeds.rs"],
 [("ephemeral key pair generated with each layer","src/agreement.rs, src/minimal.rs create"),("identity from the seed","src/complete.rs create, src/seeds.rs")],
 ["MinimalSecureLayer::create, SecureLayer::create, Seed32::random"])
p("P19","Refused messages and refused calls leave no trace on the session",
 "Apart from what ends a connection (see the property on failed connections), what a layer refuses changes nothing: after any number of forged, foreign, altered or repeated messages, and of calls refused because of the moment or the format (writing CONNECT or ACK twice, writing ACK before the peer's CONNECT is read, cloning too early, changing the configuration once a clone existed, typed data in a raw format), at any moments of a session, the session goes on exactly as if there had been none: the same messages are accepted with the same results, and the same bytes are emitted. A refused call emits nothing.",
 ["histories","inputs"],"all kinds of refused messages with arbitrary contents, at all moments of the sessions within the bound",
 "Tests check that something is refused, not that the session is unharmed afterwards.",
 ["src/minimal.rs","src/status.rs","src/reader.rs","src/complete.rs"],
 [("checks before any change of state","src/minimal.rs read, src/status.rs"),("numbers recorded only after verification","src/minimal.rs")],
 ["MinimalSecureLayer, SecureLayer: read, write, clone, change_config"])
p("P20","Sessions are independent: what happens to one never shows in another",
 "Any number of layers can live in one process, with the same identities, in any interleaving of their operations: each session does exactly what it would do alone (same messages accepted with the same results, same bytes emitted under its own key), also when another session fails, receives arbitrary bytes or this session's messages, is cloned or is dropped at any moment; and a clone outlives the layer it was cloned from.",
 ["schedules","histories","inputs"],"all interleavings of two sessions' steps and all moments of a disturbance within the bound",
 "Tests run one session at a time.",
 ["src/minimal.rs","src/complete.rs","src/status.rs","src/agreement.rs","src/encryption.rs"],
 [("all state is in the layer","src/minimal.rs, src/complete.rs"),("clones own their state","src/minimal.rs try_clone")],
 ["MinimalSecureLayer, SecureLayer: all operations"])
p("P21","Every refusal names its cause",
 "A message that is wrong in exactly one respect, or a call made at the wrong moment, is refused with the error documented for that cause, whatever the wrong value is and wherever the message is cut: another version, message type or signature algorithm, another magic value inside the encryption, a wrong challenge, signature or hash, a used number, a truncated message or an impossible length field, bytes that do not decrypt, a message in clear that must be encrypted or the reverse, an unexpected identity, a negotiation or user message out of order, too many messages ahead of a missing one, a failed key agreement, invalid compressed data, an unknown or unusable format, a failing writer; CONNECT written twice, ACK, user data or clone before their time, configuration changed after a clone, any use of a failed connection. So a caller can tell an attack, a version mismatch and its own mistake apart.",
 ["inputs","histories"],"all wrong values of each field, all cuts, in each state where the genuine message or call would be fine",
 "Tests provoke about half of the errors, each with one wrong value in one state.",
 ["src/errors.rs","src/reader.rs","src/minimal.rs","src/status.rs","src/complete.rs","src/format.rs","src/agreement.rs","src/complete/writer.rs"],
 [("one error per check","src/reader.rs read, src/minimal.rs read_inner"),("errors of calls","src/status.rs, src/minimal.rs, src/complete/writer.rs")],
 ["MinimalSecureLayer, SecureLayer: the error returned by each operation"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80, x["title"]
        f.write(json.dumps(x)+"\n")
notes={
"P01":"bounded: message lengths and states as listed in entries.py",
}
man={"version":1,"setup_cmd":"python3 check.py --setup","checks":[],"not_applicable":[],
 "notes":"engine/: symbolic executor for LLVM bitcode; models/: ideal cryptography; harness/: properties as assertions over symbolic inputs; check.py: builds, runs, replays. No hooks in /repo."}
for x in P:
    man["checks"].append({"property":x["id"],"quick_cmd":"python3 check.py %s --tier quick"%x["id"],"thorough_cmd":"python3 check.py %s --tier thorough"%x["id"],
     "technique":"symbolic execution of the crate's LLVM bitcode, SMT (Z3) decision of each assertion; counterexamples replayed on the real crate","level":"model_checking",
     "level_note":"Holds for every value within the bounds listed in entries.py and in the evidence (message sizes, number of operations, enumerated configurations); cryptography is idealised (models/), the engine, Z3 and rustc's bitcode are trusted."})
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
