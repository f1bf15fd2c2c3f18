"""What each check runs: harness entries, how they are split, what must be reached, and their bounds."""

# entry: (shards, cost, labels that must be reached, bounds "quick; thorough")
ENTRIES = {}


def E(name, shards, cost, reach, bounds):
    ENTRIES[name] = {"shards": shards, "cost": cost, "reach": reach.split("|"), "bounds": bounds}


# P01
E("p01_raw", 3, 2, "accepted|refused", "one message of 0..120 (thorough 0..259) arbitrary bytes in each of 9 layer states")
E("p01_signed", 9, 10, "accepted|refused", "magic and version right, then 0..89 (0..139) arbitrary bytes, under a genuine signature (also truncated, or followed by any other operation), 9 states")
E("p01_sizes", 6, 5, "accepted|refused", "every size 0..1,599 (0..4,799) and around the powers of two up to 65,536: no message, negotiation and user messages, sealed nonsense; two fillings")
E("p01_connect", 1, 1, "accepted|early|refused", "genuinely signed CONNECT with arbitrary ephemeral key and algorithm, 2 states, then ACK and user data")
E("p01_sealed", 4, 20, "accepted|refused", "arbitrary 0..63 (0..109) byte plaintext, with and without a correct hash, sealed under the session key, 4 states")
E("p01_stacked", 8, 5, "accepted|drained|refused", "the same, 26..45 (26..85) bytes, kept as an early message and delivered after the ACK")
E("p01_twice", 9, 5, "refused", "two messages of 0..19 arbitrary bytes, 9 states, then any operation")
E("p01_inflate", 4, 20, "accepted|refused", "0..2 (0..3) arbitrary bytes where DEFLATE data is expected, in CONNECT, ACK and user messages")
E("p01_serde", 6, 3, "accepted|refused", "typed read of 0..2 (JSON and Bincode 0..3) arbitrary serialized bytes per format, 0..4 with an arbitrary header")
E("p01_serde_vec", 6, 6, "accepted|refused", "typed read of a byte sequence: 0..2 arbitrary bytes (JSON, CBOR), 0..5 (0..8) (Bincode and raw formats)")
# P02
E("p02_world", 6, 10, "ack|connect|refused", "5 (6) messages out of 8 kinds: genuine and foreign CONNECT/ACK, arbitrary key and signature, mixed identities; expected key given or not")
E("p02_refused", 1, 1, "honest after forged|own identity|refused", "4 kinds of refused CONNECT, arbitrary foreign key and signature, then the genuine negotiation")
E("p02_complete", 1, 1, "accepted|refused", "complete layer: no, right or arbitrary expected key (0, 1, 31, 32, 33 or 64 bytes); genuine or foreign peer")
E("p02_alike", 1, 1, "honest first|other first", "another identity made from 32 arbitrary bytes: CONNECT and ACK before, between and after the genuine ones, expected key or not")
E("p02_random", 1, 1, "done", "three layers and two seeds made without a seed")
E("p02_both", 3, 4, "ack|connect|refused", "complete layer: 6 (7) messages out of 5 kinds, own ACK at any moment, expected key or not")
# P03
E("p03_connect", 2, 1, "accepted|refused", "CONNECT of 0..70 (0..150) byte custom data xor an arbitrary mask, or 1..70 (1..100) bytes shorter, or 1..12 (1..40) arbitrary bytes longer")
E("p03_ack", 2, 1, "accepted|kept|refused", "the same for ACK, in order or before the CONNECT")
E("p03_fresh", 1, 1, "accepted|kept|refused", "ACK signed by the peer over an arbitrary 32-byte challenge, or the hash of another key")
E("p03_replayed_session", 2, 1, "old CONNECT", "4 messages out of 7 recorded in another session of the same identities")
E("p03_confusion", 1, 1, "accepted|refused", "genuine signature over arbitrary 18, 50 or 86 bytes, presented as CONNECT or ACK")
E("p03_wrapped", 1, 1, "done", "genuine CONNECT or ACK sealed under the session key, hashed instead of signed, or bare, in 3 states")
E("p03_world", 6, 4, "ack|connect", "6 (7) operations out of 7: genuine, recorded and altered messages, arbitrary data and alteration, own ACK at any moment")
# P04
E("p04_inject", 2, 2, "delivered|kept|refused", "0..99 (0..159) arbitrary bytes before and after the ACK, one genuine message around")
E("p04_tamper", 2, 2, "delivered|early|refused", "a sealed message xor an arbitrary mask, shorter or longer, before and after the ACK")
E("p04_foreign", 1, 1, "done", "6 kinds of foreign user messages (other session, other key, clear, wrong type...), 9 states")
E("p04_hash", 1, 1, "delivered|refused", "sealed under the right key with an arbitrary inner hash of 0, 31, 32, 33 or 64 bytes")
E("p04_reflect", 1, 1, "reflected", "own 2-byte message sent back, before or after receiving one")
E("p04_world", 6, 4, "ack|delivered", "6 (7) messages out of 8 kinds around one genuine message, before and after the ACK")
# P05
E("p05_replay", 8, 3, "delivered|replay", "4 (5) genuine messages with arbitrary 64-bit numbers, 5 (6) deliveries in any order and multiplicity")
E("p05_number", 1, 1, "all new|replay", "three messages with arbitrary 64-bit numbers")
E("p05_early", 4, 3, "late|replay", "3 messages with arbitrary 64-bit numbers, up to 3 (4) early deliveries, the ACK, then 2 (3) more")
E("p05_clone", 1, 1, "done", "arbitrary 64-bit numbers before and after cloning")
E("p05_long", 3, 40, "new|replay", "11,000 (66,000) messages in order, with neighbours swapped, or 20,000 (66,000) with the first one after 9,000 others; then an arbitrary number of up to 20, or more than the count minus 20")
E("p05_refused", 4, 2, "other|same|used", "4 beginnings, a sealed message with a wrong hash (arbitrary, short, missing, followed by a byte) under an arbitrary number, then a genuine one under an arbitrary number")
E("p05_ahead", 2, 20, "filled|replay", "10,000 messages ahead of a missing one, in two orders, then repetitions (13 values and 3)")
# P06
E("p06_order", 5, 1, "done", "5 (6) messages of the real layer, every order of delivery")
E("p06_gaps", 1, 3, "new|old", "4 (5) messages with arbitrary 64-bit numbers, in one order (all orders by symmetry of the numbers)")
E("p06_limit", 6, 27, "beyond|filled|repeated", "10,000 messages ahead of a missing one, after 6 different beginnings: in and out of order, before the ACK, with a clone taking over, then one with an arbitrary 64-bit number; 9,999 more when it fills the gap")
# P07
E("p07_machine", 4, 6, "ack read|ack written|connect read|connect written|early ack|early ack taken|forged connect|user kept", "4 (5) operations out of the full alphabet from a fresh layer, against the reference model")
E("p07_machine2", 16, 20, "ack read|ack written|cloned|connect read|connect written|drained|early ack|early ack taken|forged connect|user kept|user read|user repeated|user written", "4 (5) operations from each of 6 advanced states")
# P08
E("p08_stop", 8, 3, "killed", "8 ways to fail (arbitrary junk, version, type, length, ciphertext) in 8 states, with and without early messages kept, then 4 (5) operations")
E("p08_order", 4, 1, "killed", "4 protocol-order violations by a genuine peer and failed key agreements, then 4 (5) operations")
E("p08_clone", 2, 1, "killed", "original, clone and clone of a clone: 6 ways to fail, then 4 (5) operations")
E("p08_complete", 2, 1, "killed", "complete layer and clone: 4 states, arbitrary junk, early user data or failing writer, then 3 (4) operations")
# P09
E("p09_minimal", 2, 1, "in order|overtaken", "every interleaving of two minimal layers' negotiation with one user message, arbitrary keys and data; with and without custom data")
E("p09_complete", 2, 1, "in order|overtaken", "the same for two complete layers")
E("p09_dup", 2, 1, "in order|overtaken", "with the user message repeated by the network")
E("p09_both", 2, 1, "in order|overtaken", "with a user message in each direction")
E("p09_more", 8, 60, "in order|overtaken", "with 2+1 or 3+0 user messages and one repetition (2+2 and one, 2+1 and two)")
E("p09_early", 8, 20, "done", "1, 3, 40, 1,100 (11,000) messages overtake the ACK in 4 orders, minimal and complete layer, with and without a clone")
# P10
E("p10_write", 3, 1, "ack|connect|user", "custom or user data of 0..39 (0..129) arbitrary bytes, three messages in a row")
E("p10_complete", 3, 1, "ack|connect|user", "complete layer, data of 0..3 bytes (0 and 1 arbitrary), default compression")
E("p10_read", 3, 1, "ack|connect|user", "data of 0..119 (0..299) arbitrary bytes, arbitrary message number")
E("p10_big", 8, 1, "done", "data of 8,100..8,250 (..20,000) bytes around the buffer size, first and last bytes arbitrary")
E("p10_every", 6, 10, "done", "every size 0..1,599 (0..4,799) and those that make a length or a message cross a power of two up to 65,536, 3 message kinds, fixed data")
E("p10_huge", 4, 10, "done", "7 (9) sizes around 64 KiB and 1 MiB, fixed data, 3 message kinds")
E("p10_many", 1, 30, "done", "66,001 (300,001) messages in a row")
E("p10_other", 3, 1, "refused", "arbitrary version, message type or signature algorithm in signed CONNECT and ACK and sealed user messages, 6 states")
E("p10_seed", 1, 1, "done", "3 seeds")
# P11
E("p11_agree", 1, 1, "first larger|second larger", "arbitrary ephemeral keys on both sides")
E("p11_spec", 1, 1, "own larger|peer larger", "arbitrary ephemeral keys, against the documented derivation")
E("p11_any", 1, 1, "agreed|refused", "arbitrary 32-byte announced key, CONNECT before or after the own one")
E("p11_refused", 2, 1, "agreed|refused", "1 or 2 CONNECT messages out of 5 refused kinds with arbitrary ephemeral keys, before or after the own one, then the genuine negotiation")
E("p11_stable", 1, 1, "refused|same key", "second CONNECT, genuine or not, with arbitrary key, in 4 states")
# P12
E("p12_slow", 4, 1, "written", "4 message kinds, 6 buffer sizes, writers accepting 1, 2, 5, 63, 64 or 1000 bytes, with and without interruptions")
E("p12_big", 4, 20, "written", "sizes 8,192, 65,500, 66,000 (140,000), 4 message kinds, 4 buffer sizes, writers accepting 1,000, 4,096 or all bytes")
E("p12_broken", 4, 8, "broken|written", "writer failing (error, zero, flush) after every possible number of bytes, 6 buffer sizes, 3 chunk sizes")
E("p12_exact", 4, 3, "written", "37 buffer sizes around the message's length, 5 prior contents, 4 message kinds, 3 acceptance sizes")
E("p12_queue", 6, 1, "written", "3 messages through one writer, 6 buffer sizes, 3 chunk sizes")
# P13
E("p13_config", 6, 1, "changed|frozen", "configuration changed at 6 moments, 3 formats")
E("p13_clone", 9, 1, "cloned|refused", "cloning in 9 states, then arbitrary data under an arbitrary number")
E("p13_numbers", 3, 1, "new|repeated", "0..2 messages sent before, arbitrary numbers before and after, in layer and clone")
E("p13_complete", 2, 1, "done", "complete layers: 0..2 messages sent and received before, clone or clone of a clone, 3 formats")
E("p13_apart", 2, 1, "apart", "20 arbitrary bytes to one of the two")
E("p13_ack", 1, 1, "done", "4 negotiation messages, arbitrary signature or key, to a clone")
E("p13_effect", 2, 1, "done", "2 or 3 configurations one after the other: 2 levels, arbitrary threshold, 3 formats, changed at 3 moments; CONNECT, ACK, user message, clone")
E("p13_during", 9, 2, "done", "configuration changed at 9 moments to 4 configurations, ACK early or late, arbitrary number at the end")
E("p13_original", 3, 1, "done", "clone or clone of a clone, 4 foreign negotiation messages (arbitrary key, signature, challenge) to the original")
# P14
E("p14_small", 4, 4, "below|compressed", "0..1 (level none 0..2) arbitrary bytes, 4 levels, arbitrary 64-bit threshold")
E("p14_sizes", 4, 20, "below|compressed", "10 (14) sizes from 0 to 70,000 (140,000), 3 fixed kinds of data, 3 message kinds, 4 levels, arbitrary threshold")
E("p14_foreign", 3, 1, "done", "peer encodings: stored blocks, split blocks, fixed codes; 0..3 arbitrary bytes")
E("p14_expand", 2, 1, "done", "1,000, 20,000 and 1,100,000 (4,300,000) equal bytes, 3 levels")
E("p14_pair", 4, 26, "done", "two real layers, every pair of 4 levels, one arbitrary byte among fixed data")
# P15
E("p15_u8", 8, 8, "read back", "every byte value, 3 writer formats, 4 reader formats")
E("p15_rec", 8, 25, "read back", "structures with an arbitrary byte, 3 writer formats, 4 reader formats")
E("p15_more", 3, 1, "read back", "9 fixed values: text, enumerations, numbers, sequences; 3 by 4 formats")
E("p15_standard", 6, 3, "done", "6 values (one with an arbitrary byte) in 3 formats, written for and read from the formats' own libraries")
E("p15_big", 8, 27, "read back", "byte sequences, text and structures of 8 (9) sizes from 1 KB to 66 KB (140 KB), 3 formats")
E("p15_scalar", 15, 120, "read back", "arbitrary byte as signed number, boolean, option, in each position of a 64-bit number (not JSON), negated")
E("p15_world", 6, 1, "done|not writable", "3 (4) operations: other format, clone, unwritable value, unreadable message, raw message; format checked after each")
E("p15_nego", 3, 1, "done", "custom data in CONNECT and ACK, 3 formats")
E("p15_unknown", 12, 12, "short|unknown", "0..7 (0..9) arbitrary bytes not announcing a usable format, or 7 other codes before 4 kinds of readable data of 1 to 100 bytes, 3 message kinds")
E("p15_raw", 4, 4, "refused", "2 raw formats, 3 message kinds, values of 7 types")
# P16
E("p16_layer", 4, 1, "clone|layer", "5 lengths of session, dropped on the stack, boxed, in a vector; every released heap block is scanned")
E("p16_complete", 2, 1, "layer", "complete layer, with and without a clone")
E("p16_seed", 4, 1, "wiped", "arbitrary 32-byte seed, 4 ways of dropping it")
# P17
E("p17_early", 8, 1, "refused", "0, 1 or 33 arbitrary bytes in 8 states before success")
E("p17_early_complete", 3, 3, "refused", "complete layer: 0 or 1 arbitrary byte or 33 fixed ones, typed or not, in 4 states, and the rest of the negotiation")
E("p17_sealed", 8, 1, "sealed", "0..39 (0..99) arbitrary bytes, arbitrary other key")
E("p17_sessions", 1, 1, "apart", "two sessions of the same identities, 2 arbitrary bytes")
E("p17_passive", 1, 1, "apart", "both long-term keys known, 2 arbitrary bytes")
E("p17_nonce", 3, 1, "compared", "two messages of 1..3 arbitrary bytes, same or opposite directions")
# P18
E("p18_layers", 1, 1, "done", "4 (5) layers of either kind, with and without an expected peer, ephemeral keys symbolic")
E("p18_again", 2, 1, "done", "2 sessions with arbitrary ephemeral keys, 4 (5) with given ones, one after the other with the same peer: abandoned, failed, negotiated, cloned")
E("p18_seed", 1, 1, "done", "two arbitrary 32-byte seeds, one of them used twice")
E("p18_random", 1, 1, "done", "4 (5) random seeds and layers made without one")
E("p18_many", 1, 1, "done", "300 (1,000) random seeds, layers without a seed, or minimal layers")
E("p18_fail", 1, 1, "failed", "the system's randomness fails after 0..2 layers; both layers, expected key or not")
# P19
E("p19_session", 8, 20, "done|refused", "both layers, expected key or not, 4 orders of a session, 2 (3) refused messages or calls out of 14 kinds at any moments")
E("p19_many", 2, 5, "done", "the same refused message 1,200 (12,000) times, 6 kinds")
# P20
E("p20_two", 8, 10, "done", "every interleaving of the 6 steps each of two sessions of the same identities; 3 orders each; both layers")
E("p20_disturbed", 4, 3, "disturbed|done", "8 steps in 3 orders, the other session at 4 stages fails, reads 40 arbitrary bytes, is dropped, cloned and dropped, or gets this session's message, at any moment")
E("p20_many", 1, 1, "done", "12 (40) sessions in lockstep, then half of them")
# P21
E("p21_connect", 1, 1, "connect", "a CONNECT with one of 12 defects (arbitrary version, type, algorithm, signature, identity, length field, first bytes; cut anywhere; repeated), 3 states, data of 0 or 1 (0..60) bytes")
E("p21_ack", 1, 1, "ack", "an ACK with one of 10 defects (the same, arbitrary challenge, encrypted, early, repeated), 7 states, data of 0 or 1 (0..60) bytes")
E("p21_user", 1, 1, "user", "a user message with one of 13 defects (arbitrary version, type, magic, hash, length field, ciphertext; cut anywhere; used number; in clear; too early), data of 0 or 1 (0..60) bytes")
E("p21_calls", 1, 1, "alive|failed", "every operation in 9 states, before and after a failure")
E("p21_complete", 1, 2, "complete", "complete layer: 9 kinds of refused data and calls, arbitrary format, 3 message kinds")
E("p21_early", 1, 1, "early", "early ACK or user message that proves wrong later: arbitrary signature, foreign identity, hash, extra byte, cut anywhere; both layers")
E("p21_limit", 1, 8, "limit", "10,000 messages ahead of a missing one, then an arbitrary number")

PROPERTIES = {}
for _e in ENTRIES:
    PROPERTIES.setdefault(_e[:3].upper(), []).append(_e)

ASSUMPTIONS = [
    "cryptography is ideal: ring's digest, Ed25519, X25519, PBKDF2 and chacha20-poly1305-aead are replaced by models with the same interface, in which outputs are uninterpreted functions of the inputs, hashes do not collide, signatures and sealed messages verify only if they were made, and fresh keys are distinct (models/)",
    "the code is the optimised LLVM bitcode of /repo (release profile with overflow checks on, panic=abort, features bin+cbor+json), together with the real flate2/miniz_oxide, serde, serde_json, serde_cbor, bincode and the standard library",
    "one thread: the library shares nothing between threads",
    "allocation does not fail below 1 GiB; a request of 1 GiB or more counts as a fault",
]
PROPERTY_ASSUMPTIONS = {
    "P04": ["no ciphertext begins with the four magic bytes (1 session in 2^32)"],
    "P09": ["no ciphertext begins with the four magic bytes (1 session in 2^32)"],
    "P11": ["no ciphertext begins with the four magic bytes (1 session in 2^32)"],
    "P21": ["no ciphertext begins with the four magic bytes (1 session in 2^32)"],
    "P16": ["stack slots and registers are not inspected: only dropped objects and released heap blocks"],
}
