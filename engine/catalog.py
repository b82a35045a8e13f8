"""The properties, what decides each, and the generator of properties.jsonl and MANIFEST.json.

    python3 -m engine.catalog     rewrites both files
"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "stratumv2/src/"
N = "stratumv2/nx-noise/src/"

CAT = []


def P(id, title, statement, over, otext, why, files, mech, rule, explain, technique, note, assume=(), na=None):
    CAT.append(dict(id=id, title=title, statement=statement, over=over.split(), otext=otext, why=why, files=files, mech=mech,
                    rule=rule, explain=explain, technique=technique, note=note, assume=list(assume), na=na))


AI = "abstract interpretation of the type-checked MIR"
COMMON = " Decides every path of the analysed entry points; trusts rustc, the MIR extractor, the abstract interpreter and the library models it lists. An obligation the analysis cannot decide on a changed tree is reported as UNDECIDED and raises no alarm; on the current tree there are none."

P("C01", "Decoding untrusted bytes never panics",
  "Decoding any byte string, in full or through a parser positioned anywhere, as any primitive type, message, frame, certificate or Noise payload either returns a value or an error: it never panics, overflows, reads out of bounds or loops forever.",
  "inputs", "every byte string of every length and every parser position, for every decodable type of the workspace",
  "Tests decode a handful of well-formed strings and a few truncations; a panic needs a specific length/value pair among 2^n.",
  [S + "codec/deserialize.rs", S + "codec/parser.rs", S + "codec/frame.rs", S + "types/", S + "macro_message/", S + "noise/types.rs"],
  [("checked cursor", S + "codec/parser.rs"), ("length-checked decoders", S + "types/"), ("generated message decoders", S + "macro_message/message.rs")],
  "every panic edge (assert terminator, unwrap/expect/index/slice/overflow/explicit panic) reachable from a decoder must be infeasible; every loop has a decreasing measure",
  "All decoders of all types are interpreted on a fully symbolic byte string and parser offset; each reachable panic edge is one obligation, discharged when the branch condition leading to it is refuted by the interval/linear domain.",
  AI + " (interval + linear + bit-level domains, panic-edge reachability)", "Panic-freedom of all decoders for all inputs.")

P("C02", "Every message has the wire layout the protocol assigns it",
  "Each message and wire type serializes to exactly the fields, order, widths, little-endian byte order and length prefixes that Stratum V2 assigns it, for every value of its fields.",
  "inputs", "every field value of every message",
  "Tests compare one sample message per type byte for byte; swapped equal-width fields or a wrong width at large values are invisible to them.",
  [S + "mining/", S + "common/", S + "job_negotiation/", S + "types/", S + "macro_message/"],
  [("field order in the message definitions", S + "mining/"), ("primitive serializers", S + "types/")],
  "the symbolic byte string written by the serializer equals the reference layout term built from the protocol tables",
  "Each serializer is interpreted on a symbolic message; the symbolic byte sequence it writes is compared, element by element, with the layout the protocol tables prescribe.",
  AI + " (symbolic byte-sequence domain) against protocol layout tables", "Layout of every message for every field value.")

P("C03", "Whatever can be serialized decodes back to the same value",
  "For every value that a public constructor accepts, serializing it succeeds and decoding the produced bytes yields an equal value and consumes exactly those bytes.",
  "inputs", "every constructible value of every message and wire type",
  "Round-trip tests use one value per type; boundary lengths and flag combinations are unsampled.",
  [S + "types/", S + "macro_message/", S + "mining/", S + "common/", S + "job_negotiation/", S + "noise/"],
  [("symmetric encoder/decoder pairs", S + "types/"), ("generated encoders/decoders", S + "macro_message/message.rs")],
  "decode(encode(v)) interpreted as one composed value flow returns Ok(v) with the cursor at the end",
  "The decoder is interpreted on the symbolic byte string produced by interpreting the encoder on a symbolic value; the resulting value term must equal the original one, with no error outcome.",
  AI + " (composed value-flow of encoder and decoder)", "Round-trip identity for every constructible value.")

P("C04", "Accepted bytes are canonical: re-encoding reproduces them",
  "If a byte string decodes successfully, serializing the decoded value produces exactly the bytes the decoder consumed, so no two different encodings decode to the same value (a lone boolean byte, of which only the low bit counts, is the one exception the protocol makes).",
  "inputs", "every accepted byte string of every decodable type",
  "Tests never re-encode arbitrary accepted inputs; a decoder that drops a reserved bit or normalises a text passes them.",
  [S + "types/", S + "macro_message/", S + "common/", S + "mining/", S + "noise/"],
  [("strict flags and codes", S + "types/flags.rs"), ("generated decoders", S + "macro_message/")],
  "encode(decode(b)) interpreted as one composed value flow returns exactly the consumed prefix of b",
  "Each decoder is interpreted on a symbolic byte string; on every success path the encoder is interpreted on the decoded value and its output compared with the consumed input bytes.",
  AI + " (composed value-flow of decoder and encoder)", "Canonicity for all accepted inputs.")

P("C05", "Serializers write everything, or report the writer's error",
  "Every serializer delivers all of its bytes in order to the given writer whatever the writer's short writes, returns the number of bytes delivered, and returns an error as soon as the writer does.",
  "inputs fault_sequences", "every value, every sequence of short writes and every failing write",
  "Tests write to in-memory vectors, which never fail and never write short.",
  [S + "codec/serialize.rs", S + "types/", S + "macro_message/", S + "noise/"],
  [("full writes", S + "types/"), ("error propagation with ?", S + "macro_message/message.rs")],
  "on every path, the accumulated written sequence is a prefix of the encoding, success implies all of it with the reported count, and each writer error ends in an error return",
  "Each serializer is interpreted against a writer model which may write any prefix or fail at each call.",
  AI + " with a faulty-writer effect model", "Every value and every writer behaviour.")

P("C06", "Size-bounded types never hold or encode an oversized value",
  "The length-limited strings, byte arrays and integers of the protocol reject every value above their limit on construction and on decoding, accept every value within it, and their length prefix always equals the content length.",
  "inputs", "every content length and every integer value",
  "Tests try one value at or over the limit for some types.",
  [S + "types/bytes.rs", S + "types/strings.rs", S + "types/fixed.rs"],
  [("length checks in constructors and decoders", S + "types/")],
  "for every path, Ok implies length within the bound, Err implies it is exceeded (or bytes are missing), and the content is stored unchanged",
  "Constructors and decoders interpreted on symbolic content with symbolic length; comparisons across the bounded types are included.",
  AI + " (linear length domain)", "All lengths and values.")

P("C07", "Every message has its own protocol number, extension and channel bit",
  "Each message kind is framed under the message number, extension number and channel-message bit that Stratum V2 assigns to it, all kinds are pairwise distinct, and looking a received number up yields that kind and nothing else.",
  "inputs", "every message kind and every 8-bit message number, 16-bit extension word",
  "Tests look at a few kinds; the mapping is a table over all 256 numbers and both directions.",
  [S + "types/message_type.rs", S + "macro_message/", S + "codec/frame.rs"],
  [("message number tables", S + "types/message_type.rs")],
  "the value flow of the number/extension/channel lookups equals the protocol table for each kind; the reverse lookup is its inverse and refuses everything else",
  "Each lookup function is interpreted for every kind and for a symbolic byte.",
  AI + " over protocol tables", "All kinds and all numbers.")

P("C08", "A frame header always describes its payload",
  "A framed message is the extension word, the message number, the exact payload length as 24 bits and the payload; a payload that does not fit is refused, and a received frame is accepted only if its header matches its payload length.",
  "inputs", "every payload length and content, every received byte string",
  "Tests frame a few small messages; lengths past 65535 or 16777215 and header/payload disagreement are unsampled.",
  [S + "codec/frame.rs"], [("frame header", S + "codec/frame.rs")],
  "header bytes and payload of the written frame equal the reference term; Ok of the reverse implies all header fields agree with the payload",
  "Frame constructor, serializer and deserializer interpreted on symbolic inputs of unbounded length.",
  AI + " (symbolic byte sequences, linear lengths)", "All payloads and inputs.")

P("C09", "Framing then unframing gives back the message, and only that kind",
  "For every message, framing it and unframing the result as the same kind returns an equal message, and unframing it as any other kind is refused.",
  "inputs", "every message value, every pair of kinds",
  "Tests check a few same-kind round trips and one mismatch.",
  [S + "codec/frame.rs", S + "macro_message/"], [("frame and unframe helpers", S + "codec/frame.rs")],
  "unframe(frame(m)) interpreted as one composed value flow returns Ok(m); for each other kind it returns only errors",
  "The composed value flow is interpreted for every message kind, and each frame against every other kind.",
  AI + " (composed value-flow)", "All kinds, all values.")

P("C10", "Comparing and copying values sees every part of them",
  "Two messages, wire values, frames, flags, error codes or keys compare equal exactly when every one of their parts is equal (a value always equals a copy of itself, floating-point NaN apart, and values that differ in any single field, byte, length or variant never compare equal), a wire value equals its plain contents (a byte vector, string, integer or array) exactly when the contents are the same, and cloning gives a value whose every part is the original's and leaves the original alone.",
  "inputs", "every type with an equality or a clone, every field of it, every value and length of that field",
  "Assertions in tests compare values that are equal or obviously different; equality that skips a field, compares a prefix, or a clone that drops one part passes all of them.",
  [S + "macro_message/message.rs", S + "types/", S + "codec/frame.rs", S + "noise/signature_noise_message.rs", S + "common/", S + "mining/", N + "types.rs"],
  [("generated comparisons of the messages", S + "macro_message/message.rs"), ("comparisons with plain contents", S + "types/bytes.rs"), ("keys", N + "types.rs")],
  "eq(v, v) is true, eq(v, v with one leaf changed) is false for every leaf, and clone(v) has v's leaves",
  "The comparison and clone of every type that has one are interpreted on a symbolic value and on the same value with one part replaced by a different one (shorter, longer, other byte, smaller, larger, other variant); the answer must be decided, and right, on every path.",
  AI + " (relational: value against value with one leaf changed)", "Equality and cloning of all values.")

P("C11", "Message constructors store what they were given or refuse it",
  "Every public message constructor either returns an error for a field that violates its protocol limit or a message whose fields are exactly the given values, and no message that a constructor would refuse can be obtained by decoding.",
  "inputs", "every combination of constructor arguments and every byte string",
  "Tests call constructors with one set of distinct values; two same-typed parameters swapped in a rarely read field pass.",
  [S + "mining/", S + "common/", S + "job_negotiation/", S + "macro_message/"],
  [("constructors", S + "mining/"), ("setup connection validation", S + "macro_message/setup_connection.rs")],
  "field-by-field value identity between arguments and the returned message on success paths; refusal exactly outside the limits",
  "Every constructor interpreted on symbolic arguments.",
  AI + " (value-flow identity)", "All argument values.")

P("C12", "Flags, error codes, protocols and booleans map one-to-one to the wire",
  "Every flag, error code, protocol number and boolean has exactly the bit, text or number the protocol assigns, every combination of defined flag bits is kept as received, and undefined flag bits, unknown code texts and unknown protocol numbers are refused; a boolean is the low bit of its byte.",
  "inputs", "every flag word, code text, protocol byte and boolean byte",
  "Tests cover a few values per enumeration out of 2^32 flag words and all texts.",
  [S + "mining/", S + "common/", S + "job_negotiation/", S + "macro_message/", S + "types/"],
  [("flag tables", S + "mining/setup_connection.rs"), ("error code tables", S + "types/error_code.rs")],
  "the value flow of each encoder equals the protocol table; each decoder is its exact inverse",
  "All conversions interpreted for each variant and for a symbolic input.",
  AI + " over protocol tables (bit-level domain)", "All values of each enumeration.")

P("C13", "The byte cursor hands out each input byte once, in order",
  "Reading from the parser returns exactly the next requested bytes and advances by exactly that many, or fails without advancing; no offset or length, however large, makes it panic or return other bytes.",
  "inputs histories", "every input, offset, requested length and sequence of reads",
  "Tests read a few in-range slices; near-overflow offsets and failure followed by further reads are not sampled.",
  [S + "codec/parser.rs", S + "codec/deserialize.rs"], [("cursor with checked addition", S + "codec/parser.rs")],
  "one read from an arbitrary state: success returns bytes[offset..offset+n] with offset' = offset+n; failure leaves offset unchanged; composition follows by induction on reads",
  "The parser step is interpreted from an arbitrary cursor state, which covers every history of reads.",
  AI + " (inductive step over arbitrary cursor state)", "All cursor states and lengths.")

P("C14", "Timestamps are 32-bit seconds since the epoch, never wrapped",
  "Converting any system time to a wire timestamp yields the whole seconds since the Unix epoch when they fit in 32 bits and an error for times before the epoch or beyond that range.",
  "inputs", "every representable system time",
  "Tests convert the current time only.",
  [S + "types/unix_timestamp.rs"], [("checked narrowing", S + "types/unix_timestamp.rs")],
  "Ok implies the value equals the seconds since the epoch without wrapping; Err implies out of range",
  "The conversions are interpreted on a symbolic time.", AI, "All times.")

P("C15", "A certificate verifies only if signed by the authority and currently valid",
  "Certificate verification succeeds exactly when the authority key text is a valid key, the current time lies in the half-open validity interval, and the carried signature is that authority's signature over the version, both validity times and the server's static key.",
  "inputs", "every authority key text, static key, certificate message and clock value",
  "Tests verify one freshly signed certificate and one expired one; each field left out of the signature or each unchecked bound needs its own forged input.",
  [S + "noise/certificate_format.rs", S + "noise/signature_noise_message.rs", S + "noise/types.rs"],
  [("verification", S + "noise/certificate_format.rs")],
  "on every success path: the signature check is dominated by nothing but is performed, with operands (authority key, encoded fields, carried signature), and valid_from <= now < not_valid_after holds; with all of those assumed, no error outcome remains",
  "Verification is interpreted on symbolic inputs and clock; success paths are inspected for the checks performed and their operands.",
  AI + " (must-check dataflow on success paths, uninterpreted signature primitive)", "All inputs, up to the signature primitive.",
  assume=["ed25519 verification is sound"])

P("C16", "Issued certificates carry exactly what was signed",
  "Signing a certificate covers its version, both validity times and the static key it is issued for, and the message sent to peers carries those same values, the requested validity period and that signature.",
  "inputs", "every static key, authority key pair, validity and clock value",
  "Tests sign one certificate and verify it with the same code.",
  [S + "noise/signed_certificate.rs", S + "noise/signature_noise_message.rs", S + "noise/certificate_format.rs"],
  [("signing", S + "noise/signature_noise_message.rs")],
  "operand identity between the signed byte string, the constructor arguments and the message fields",
  "Issuing functions interpreted on symbolic inputs; the bytes signed are compared with the bytes that verification recomputes.",
  AI + " (value-flow identity)", "All inputs, up to the signature primitive.")

P("C26", "Codec operations have no hidden state or side effects",
  "Encoding, decoding, framing and constructing messages depend only on their arguments and touch no global state, clock, randomness, file, network or environment.",
  "histories schedules", "every sequence and interleaving of codec calls",
  "A hidden cache or global would only show in particular call sequences or threads.",
  [S + "codec/", S + "types/", S + "mining/", S + "common/", S + "job_negotiation/", S + "macro_message/"],
  [("plain functions over arguments", S + "codec/")],
  "no function reachable from a codec entry point writes or reads mutable statics, thread locals, or calls an effectful library function",
  "Whole-program call-graph effect analysis over the monomorphised call graph from every codec entry point.",
  "call-graph effect analysis over monomorphised MIR", "All call paths from the codec entry points.")


# ------------------------------------------------------------------------------------ Noise
NF = [N + "noisesession.rs", N + "state.rs", N + "types.rs"]

P("C17", "Session, key and connection calls never panic, whatever the peer sends",
  "Every public session, connection-encryption, key and certificate operation, called in any order and state with any buffer, key text or received bytes, returns a value or an error and never panics.",
  "inputs histories", "every sequence of public session calls with every buffer length and content",
  "Tests run the one scripted exchange; a panic needs an off-script order or a hostile length.",
  NF + [N + "prims.rs", N + "utils.rs", S + "noise/noise_session.rs"],
  [("length checks before slicing", N + "noisesession.rs"), ("error returns", N + "error.rs")],
  "every panic edge reachable from a public operation on a reachable abstract session state is infeasible",
  "Starting from a fresh session of either role, all public operations are interpreted with arbitrary buffers and keys, and every resulting session, abstracted to its shape, flags and small counters (all key and hash bytes arbitrary), is explored again until no new abstract session appears; each panic edge met is an obligation. Key, certificate and configuration functions are interpreted on arbitrary arguments.",
  AI + " to a fixpoint over abstract session states, panic-edge reachability", "All call sequences.",
  assume=["fewer than 2^64 messages are processed by one session"])

P("C18", "The handshake follows Noise NX with 25519, ChaChaPoly and BLAKE2s",
  "A session's handshake messages, handshake hash, remote static key and transport keys are exactly those that the Noise NX pattern over Curve25519, ChaCha20-Poly1305 and BLAKE2s prescribes for its keys, prologue and payloads, so initiator and responder agree with each other and with any other implementation.",
  "inputs", "every key, prologue and payload of every admissible length",
  "Tests make the library talk to itself, so a deviation made identically on both sides is invisible to them, and the fixed vectors sample one key set.",
  NF + [N + "prims.rs", N + "consts.rs"],
  [("handshake state machine", N + "state.rs")],
  "the terms written to the message buffer, the handshake hash and the two cipher keys equal those of an independent statement of the NX pattern over uninterpreted primitives",
  "Both roles' handshakes are interpreted with symbolic keys, prologue and payload; all output terms are compared with reference terms built by an independent transcription of the Noise specification.",
  AI + " with uninterpreted cryptographic primitives, compared with an independent NX transcript", "All keys and payloads, up to the primitives.",
  assume=["hacl-star and blake2-rfc implement the named primitives"])

P("C19", "No transport nonce is ever reused under one key",
  "Each message encrypted in a direction uses the next nonce of that direction starting at zero, each accepted message consumes exactly one, the nonce wire format is the 64-bit little-endian counter, and a direction whose counter is exhausted refuses to encrypt or decrypt instead of wrapping.",
  "histories inputs", "every history of sends, receives, rekeys and clears, and every counter value",
  "Tests send a few messages; exhaustion is 2^64 messages away and reuse needs an error path.",
  NF + [N + "prims.rs"], [("nonce counter in the cipher state", N + "state.rs"), ("nonce type", N + "types.rs")],
  "inductive step: from any cipher state with counter n, a successful operation uses nonce n and leaves n+1, a failing one leaves n, and n = 2^64-1 is refused",
  "Send and receive are interpreted from an arbitrary cipher state; the nonce operand of each primitive call and the counter after it are compared.",
  AI + " (inductive counter step over arbitrary cipher state)", "All histories by induction.")

P("C20", "Handshake steps only run in order and by the right role",
  "The initiator only sends the first handshake message and receives the second, the responder the reverse; transport messages only flow after both, and the handshake hash, remote static key and transport flag become available exactly then. A call out of order is refused and changes nothing, and the message count counts exactly the successful messages.",
  "histories", "every sequence of calls on either role",
  "Tests follow the correct order.",
  NF, [("message counter and role flag", N + "noisesession.rs")],
  "from a fresh session of either role, the set of reachable abstract session states under all public operations contains no out-of-order success",
  "All sequences of public operations are explored over abstract session states to a fixpoint.",
  AI + " to a fixpoint over abstract session states (typestate)", "All call sequences.")

P("C21", "Altered or replayed ciphertext is refused and changes nothing",
  "Receiving a transport message succeeds only if the authentication tag over the whole ciphertext verifies under the direction's current key and nonce; otherwise an error is returned, no plaintext is handed out, and buffer and session are left as they were. The second handshake message is accepted only if both its tags verify; a refused one completes nothing and reveals nothing.",
  "inputs fault_sequences", "every received byte string at every point of the session",
  "Tests flip one byte of one message.",
  NF + [N + "prims.rs"], [("tag check before release", N + "prims.rs")],
  "on every success path of a receive, the tag check with (key, nonce, associated data, ciphertext, tag) of that direction holds; on every failure path buffer and session fields are unchanged",
  "Receive is interpreted from arbitrary session state; success and failure states are compared with the pre-state.",
  AI + " (must-check dataflow and frame condition)", "All inputs and states, up to the AEAD.")

P("C22", "Each direction has its own key, and rekeying only touches its direction",
  "Initiator and responder use opposite cipher states for sending and receiving, so what one sends with the other receives with. At both ends the local operations (rekey, clear) act on the initiator-to-responder direction and the remote ones on the reverse, so peers that issue the same call stay in step: rekeying replaces exactly that direction's key as Noise prescribes, clearing removes exactly that key for good, and the other direction is left alone.",
  "histories inputs", "every session state and rekey point",
  "Tests rekey neither direction on its own against an unsynchronised peer.",
  NF + [N + "prims.rs"], [("cipher state pair", N + "noisesession.rs"), ("rekey", N + "state.rs")],
  "cipher-state identity of each operation's key operand by role; frame condition on the other cipher state; the new key equals the reference rekey term",
  "Send, receive, rekey and clear operations interpreted for both roles from arbitrary session state.",
  AI + " (alias and frame-condition analysis)", "All states.")

P("C23", "Secrets are wiped when a session ends and after the handshake",
  "Ending a session, in any state and after any failure, overwrites every private key, shared secret and derived key it holds; once the handshake is complete only the two transport keys are kept; rekeying forgets the old key; and clearing a key leaves the empty key, with which nothing can be encrypted or decrypted.",
  "histories", "every session state in which the session is ended",
  "Tests check one ended session, not that every secret field is overwritten.",
  NF, [("clear operations", N + "state.rs"), ("zeroing drop", N + "types.rs")],
  "no leaf of the released session depends on a private key, shared secret or derived key other than through a public function of it, on every path from every explored state; a live session depends on exactly the two transport keys",
  "Sessions are ended from every stage and after every kind of failure, and the value they held when their memory was released is searched for secret terms; clear, rekey and the last handshake step likewise on live sessions.",
  AI + " (secret-dependence dataflow to session fields)", "All states; does not see copies the compiler leaves in registers or on the stack.")

P("C24", "Low-order public keys are refused everywhere",
  "None of the known low-order or non-canonical Curve25519 values can be made a public key from bytes or text (the all-zero placeholder for no key yet has its own constructor), every other value can, and a handshake in which the peer presents one as ephemeral or static key fails without deriving keys from it.",
  "inputs", "every 32-byte value presented as a public key by any route",
  "Tests try no forbidden value on most routes.",
  [N + "types.rs", N + "consts.rs", N + "state.rs", N + "utils.rs"], [("forbidden value table", N + "consts.rs")],
  "on every success path of a public-key constructor or handshake receive, the value is known to differ from each forbidden value",
  "Every route that creates a public key from bytes or text is interpreted, once symbolically and once per forbidden value.",
  AI + " (must-check dataflow)", "All 32-byte values on all routes.")

P("C25", "Draining a peer's pending messages loses and duplicates none",
  "Taking a peer's pending messages returns exactly the messages queued so far in order and leaves the queue empty, atomically with respect to concurrent queueing.",
  "schedules histories", "every interleaving of queueing and draining",
  "Tests drain once on one thread.",
  [S + "network/peer.rs"], [("swap under the lock", S + "network/peer.rs")],
  "the returned sequence equals the queue content at a single lock acquisition, and the content at its release is empty",
  "The drain operation is interpreted against a lock model in which the protected content is arbitrary at each acquisition.",
  AI + " with a lock-havoc concurrency model", "All interleavings, by havoc at lock acquisition.")

P("C27", "Key material always comes fresh from a secure random source",
  "Every generated key pair, ephemeral key and authority key draws all of its secret bytes from a cryptographically secure generator, freshly for every session, and the public half always matches the private half. Keys given as bytes or as 64 hexadecimal digits are taken as they are, and only the all-zero key counts as empty.",
  "histories", "every key-generating call",
  "Tests check lengths, not where the bytes come from.",
  [N + "types.rs", N + "state.rs", S + "noise/types.rs", S + "network/encryptor.rs"],
  [("key generation", N + "types.rs")],
  "provenance: each secret byte of a generated key is the value of a secure-generator call made on that path; the public key is the primitive's image of it",
  "Every generating entry point is interpreted and the provenance of each key byte inspected.",
  AI + " (provenance/taint dataflow)", "All paths; trusts the generator.")

P("C28", "Error causes form a finite chain and keep their kind",
  "Walking the cause chain of any error the library returns ends after finitely many steps, and converting a lower-level error into the library's error type keeps the information about which error it was.",
  "inputs", "every error value",
  "Tests never walk the chains.",
  [S + "error.rs", N + "error.rs"], [("source implementations", N + "error.rs")],
  "the source function never returns a reference to the receiver itself or to an error whose chain leads back to it; conversions map each source kind to its own variant",
  "Each source and conversion implementation is interpreted for every variant.",
  AI, "All variants.")

P("C29", "Connection handshakes pair the right roles and complete only when done",
  "An outbound connection acts as initiator and an inbound one as responder with its given static key, or a fresh one if none is given; the handshake calls produce and consume exactly the handshake messages, a refused message is reported as an error and completes nothing, and the remote identity and handshake completion are only reported once the handshake is complete.",
  "histories inputs", "every handshake exchange and every received buffer",
  "Tests run one exchange between the library's two ends.",
  [S + "network/encryptor.rs", S + "noise/noise_session.rs"], [("wrapper over the Noise session", S + "network/encryptor.rs")],
  "role, static key and buffers passed to the session operations, in order, by value identity; errors of the session propagate",
  "Each wrapper operation interpreted on symbolic sessions and buffers.",
  AI + " (value-flow identity)", "All inputs.")

P("C34", "Decoding asks for no more memory than its input justifies",
  "Decoding or unframing any bytes requests no more memory than the size of those bytes plus a small constant: a length or count claimed inside the input never makes a decoder reserve or fill more than what has actually been received.",
  "inputs", "every byte string, complete or cut short, for every decodable type",
  "A test would have to craft a large claimed length and observe the allocator; the decoded result is the same.",
  [S + "codec/parser.rs", S + "codec/frame.rs", S + "types/", S + "macro_message/message.rs"],
  [("claimed lengths are checked against the remaining input before bytes are copied", S + "codec/parser.rs")],
  "every explicitly sized allocation (with_capacity, reserve, resize, vec![x; n], collect) reachable while decoding has, under its path condition, size <= input length + 4096",
  "Each decoder is interpreted on a symbolic byte string; the operand of every sized allocation on every path, including paths that end in an error, is bounded against the symbolic input length.",
  AI + " (interval + linear domain over allocation sizes)", "All decoders, all inputs; copies of received bytes are bounded by the input by construction.")

P("C35", "Keys cannot be printed and sessions cannot be duplicated",
  "No textual form of a key, key pair, session, connection or configuration (debug, display or hexadecimal formatting) contains bytes that depend on a secret key, and a session or connection holding keys cannot be copied, so its nonces cannot be used twice through a copy.",
  "inputs histories", "every key, every session state and every formatting call",
  "Nothing prints a key in the tests; that a copy or a text exists shows only when some user's program makes one.",
  [N + "types.rs", N + "state.rs", N + "noisesession.rs", S + "network/encryptor.rs", S + "network/config.rs"],
  [("secret-holding types implement no formatting trait", N + "types.rs"), ("sessions are not Clone", N + "noisesession.rs")],
  "for each secret-holding public type and formatting trait: not implemented, or no argument of a formatter call leads to a value that depends on a secret; sessions and connections implement no Clone that copies keys",
  "Trait selection lists the implementations; each one found is interpreted on a value with symbolic secrets, following the references handed to the formatter.",
  "trait-implementation query over the type-checked program plus secret-dependence dataflow", "All key and session types.")

P("C36", "Configurations hold what they are given and managers start empty",
  "A Noise, network or server configuration holds exactly the values it was made from, and a new channel manager has no connections.",
  "inputs", "every configuration value", "No test constructs them with more than one value.",
  [S + "network/config.rs", S + "network/channel.rs"], [("plain constructors", S + "network/config.rs")],
  "value identity between constructor arguments and the fields of the result; number of connections of a new manager is 0",
  "Each constructor interpreted on symbolic arguments.", AI + " (value-flow identity)", "All inputs.")

P("C37", "Encoding, framing and building values never panic",
  "Constructing, comparing, converting, encoding or framing any value, whatever its contents and whatever the writer does, either returns a value or an error: it never panics, overflows, reads out of bounds or loops forever.",
  "inputs", "every value of every encodable type (also ones whose public fields hold invalid contents), every constructor argument and every writer behaviour",
  "Tests encode a few small valid values into a vector; a panic needs one length or value out of 2^n, or a writer that takes part of the bytes.",
  [S + "codec/serialize.rs", S + "codec/frame.rs", S + "types/", S + "macro_message/", S + "common/", S + "mining/", S + "job_negotiation/"],
  [("checked length conversions", S + "types/bytes.rs"), ("frame length as U24", S + "codec/frame.rs"), ("generated message encoders", S + "macro_message/message.rs")],
  "every panic edge (assert terminator, unwrap/expect/index/slice/overflow/explicit panic) reachable from an encoder, constructor, conversion or comparison must be infeasible",
  "Every encoder, constructor, conversion and comparison of the public API is interpreted on fully symbolic arguments and an arbitrary writer; each reachable panic edge is one obligation, discharged when the branch condition leading to it is refuted.",
  AI + " (panic reachability)", "All inputs, all lengths.")

P("C38", "Sessions, keys and connections share nothing",
  "What a session, key, certificate, connection or peer operation does depends only on its arguments, on fresh secure randomness where it draws keys, and on the clock where it checks a certificate's validity: no operation reads or writes state shared between objects, the environment, files or the network.",
  "histories schedules", "every call of every public session, key, certificate, connection and peer operation, and every other object alive at that time",
  "A shared counter or cache shows only when two objects are used together; tests use one session at a time.",
  [N + "noisesession.rs", N + "state.rs", N + "types.rs", N + "prims.rs", S + "network/", S + "noise/"],
  [("state lives in the session value", N + "noisesession.rs"), ("random draws", N + "types.rs"), ("clock read", S + "types/unix_timestamp.rs")],
  "no call path from a public session, key, certificate, connection or peer operation reaches a mutable static, thread-local, clock, environment, file, network, process, thread or (except where it draws keys or channel numbers) random-number function",
  "The call graph of each operation, closures included, is walked over the monomorphised MIR; every call target and every static it refers to is classified.",
  "effect analysis over the call graph of the type-checked MIR", "All call paths. A table initialised on first use is reported as undecided.")

P("C39", "Values can move between threads and peers can be shared",
  "Messages, wire values, errors, keys, sessions, connections, configurations and channel managers can be moved to another thread, and peers, channel managers, messages and keys can be used from several threads at once, without data races: the compiler accepts both.",
  "schedules", "every interleaving of threads that own or share the values",
  "No test moves a value across threads, and a data race would need the right interleaving to be seen.",
  [S + "network/peer.rs", S + "network/channel.rs", S + "network/encryptor.rs", S + "codec/frame.rs", N + "noisesession.rs", N + "types.rs", S + "error.rs"],
  [("locked queue", S + "network/peer.rs"), ("locked channel table", S + "network/channel.rs"), ("owned plain data", N + "state.rs")],
  "for each public type: it satisfies Send, and where it is meant to be shared Sync, by the compiler's own inference; and no unsafe impl of either trait exists in the workspace",
  "Each claim is a witness function requiring the trait, compiled against the current tree; the type checker's refusal names the field at fault. The workspace's implementations are listed from the type-checked program, and an unsafe implementation of either trait is a violation.",
  "type-level witnesses decided by the compiler's auto-trait inference, plus a query for unsafe implementations", "All types listed in the witness crate.")

P("C40", "Every refusal is reported as the error that names its cause",
  "A single fault is reported as its own kind. Decoding: truncated input ParseError; non-UTF-8 text a UTF-8 error; content over a type's limit RequirementError; undefined flag bits UnknownFlags; unknown code text UnknownErrorCode; unknown protocol DeserializationError (known but unsupported: Unimplemented); unassigned message number UnknownMessageType; wrong channel bit UnexpectedChannelBit with the received bit; unframing as another kind UnexpectedMessageType with the expected number. Constructors: RequirementError, or VersionError for a version below 2. Writers: IOError. Times: SystemTimeError before the epoch, RequirementError past 32 bits. Certificates: Base58Error, ParseError (key length), AuthorityKeyError (point, signature), RequirementError (validity). Sessions: DecryptionError, ExhaustedNonceError, EmptyKeyError, UnsupportedMessageLengthError, HandshakeOrderError. Keys: InvalidPublicKeyError, InvalidInputError (text), InvalidKeyError (empty).",
  "inputs", "every input with exactly one fault, of every length and position of the fault",
  "Tests try one or two faulty inputs of each kind; callers branch on the kind, and a swapped or swallowed kind shows only for the fault concerned.",
  [S + "error.rs", N + "error.rs", S + "codec/", S + "types/", S + "macro_message/", S + "noise/", N + "types.rs", N + "state.rs", N + "noisesession.rs"],
  [("error kinds", S + "error.rs"), ("Noise error kinds", N + "error.rs")],
  "for each entry point and each single fault (all other conditions assumed to hold): every outcome is an error of the kind the table assigns to that fault",
  "Each entry point is interpreted on symbolic input constrained to have exactly one fault; the variant of every error outcome is compared with the table.",
  AI + " (error variants under single-fault assumptions)", "All inputs with one fault.")

P("C41", "Channel numbers are fresh random draws over the 32-bit range",
  "Every channel number handed out is drawn anew from a cryptographically secure generator and may be any 32-bit number (the largest may be left out): it does not depend on the numbers handed out before, on the clock, or on anything else a counterparty could know, and handing one out never fails.",
  "histories", "every history of channel openings, on any threads",
  "The one test of it holds for every 32-bit number; a constant, a counter or a draw from a handful of numbers passes.",
  [S + "network/channel.rs"], [("random draw", S + "network/channel.rs")],
  "provenance and range: the number is the value of a secure-generator call made for it, its interval leaves out at most 2^20 of the 2^32 numbers, no bit of it is fixed or a copy, and no shared state is reached",
  "The generator function is interpreted twice in a row from one state; the draws each number is made of, its interval and its bits are inspected, and its call graph is searched for shared state.",
  AI + " (provenance dataflow, interval and bit-level domains, effect analysis)", "All paths; trusts the generator. That numbers in use never collide is C30.")

P("C30", "Channel numbers handed out are distinct",
  "Two channels open at the same time never share a channel number.",
  "histories", "every history of channel openings", "Tests draw a few random numbers.",
  [S + "network/channel.rs"], [("random draw", S + "network/channel.rs")], "", "", "", "",
  na="The numbers are drawn at random and nothing records the ones in use; distinctness is a probability over runtime draws, which no static argument can bound, and the code does not promise it.")

P("C31", "Transport encryption of connection messages is confidential and authentic",
  "Messages handed to an established connection travel encrypted and arrive as they were sent.",
  "inputs", "every message", "There is nothing to test: the operations are placeholders.",
  [S + "network/encryptor.rs"], [("placeholder operations", S + "network/encryptor.rs")], "", "", "", "",
  na="The connection-level encrypt/decrypt operations are placeholders that return nothing; there is no implementation to decide (the session-level transport is covered by C17 to C23).")

P("C32", "Secret-dependent operations run in constant time",
  "Neither execution time nor memory access pattern of handshake, transport and key operations depends on secret bytes.",
  "inputs", "every pair of secrets", "Functional tests do not observe timing.",
  [N + "prims.rs", N + "types.rs"], [("vetted primitives", N + "prims.rs")], "", "", "", "",
  na="Timing is decided below MIR (code generation, hardware, hacl-star's C code): MIR has no timing semantics, and a no-secret-branches rule on the wrapper code would not establish it.")

P("C33", "Cryptographic results are numerically those of the standards",
  "The key agreement, AEAD, hash and signature functions compute the values of RFC 7748, RFC 8439, RFC 7693 and RFC 8032 for every input.",
  "inputs", "every input of every primitive", "Vectors sample a few points.",
  [N + "prims.rs"], [("hacl-star, blake2-rfc, ed25519-dalek", N + "prims.rs")], "", "", "", "",
  na="The primitives live in dependencies outside this repository and are functional-correctness statements about field arithmetic; here they are uninterpreted, and C18 checks how they are used.")


def generate():
    from .registry import PROPS
    done = [c for c in CAT if c["id"] in PROPS or c["na"]]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for c in done:
            assert len(c["title"]) <= 80, c["title"]
            f.write(json.dumps({
                "id": c["id"], "title": c["title"], "statement": c["statement"],
                "quantifier": {"over": c["over"], "text": c["otext"]}, "why_tests_cant": c["why"],
                "anchors": {"files": c["files"], "mechanism": [{"name": a, "where": b} for a, b in c["mech"]]}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 -m engine.build",
           "checks": [{"property": c["id"], "quick_cmd": "python3 check.py %s" % c["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % c["id"],
                       "evidence_file": "evidence/%s.json" % c["id"], "technique": "static analysis: " + c["technique"], "level": "other", "level_note": c["note"] + COMMON}
                      for c in done if not c["na"]],
           "not_applicable": [{"property": c["id"], "reason": c["na"]} for c in done if c["na"]],
           "notes": "All checks share one engine (engine/): a rustc driver extracts the monomorphised MIR of /repo on every run; see DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    generate()
