#!/usr/bin/env python3
# Writes properties.jsonl (one source of truth for the property texts).
import json
S = "stratumv2/src/"
N = "stratumv2/nx-noise/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

MSGS = [S+"macro_message/message.rs", S+"macro_message/setup_connection.rs", S+"macro_message/setup_connection_error.rs",
        S+"macro_message/setup_connection_success.rs", S+"mining/", S+"job_negotiation/", S+"common/"]
TYPES = [S+"types/primitives.rs", S+"types/fixed.rs", S+"types/strings.rs", S+"types/bytes.rs", S+"types/flags.rs", S+"types/error_code.rs"]

p("C01", "Every message survives an encode/decode round trip",
  "For every value of every message and wire type that the public API can construct, decoding its encoding yields an equal value. Decoding consumes exactly the bytes that were written and is unaffected by whatever bytes follow them. The count reported by the encoder equals the number of bytes it produced.",
  ["inputs"], "all field values (all string and byte-string lengths up to the limit, all float bit patterns, all flag sets, all error codes) of all 15 messages, the two-variant connection request, the frame, the certificate message and every scalar, string and byte-string type",
  "each message has one hand-picked value in its test; lengths, multi-byte text, extreme integers, NaN payloads and trailing bytes are never varied",
  MSGS+TYPES+[S+"codec/", S+"noise/signature_noise_message.rs"],
  [("field-by-field serialize/deserialize generated from one field list", S+"macro_message/message.rs"), ("cursor-based parser", S+"codec/parser.rs")],
  ["codec::serialize", "codec::deserialize", "Serializable::serialize", "Deserializable::deserialize"])

p("C02", "Encoded bytes follow the Stratum V2 wire layout",
  "The encoding of every message is exactly the concatenation of its fields in specification order. Integers and floats are little-endian, 24-bit and 256-bit values take 3 and 32 bytes, strings and byte strings are preceded by their byte length (1, 2 or 3 little-endian bytes according to the type), flags are 32-bit masks with the specified bit positions, error codes are their registered strings, and a connection request starts with its one-byte sub-protocol tag. Two implementations that follow the specification therefore exchange identical bytes.",
  ["inputs"], "all field values of all messages and wire types",
  "tests compare one constant per message, mostly with repeated bytes (e.g. [4u8; 32]) that hide byte-order and field-order mistakes",
  MSGS+TYPES+[S+"noise/signature_noise_message.rs", S+"noise/signed_certificate.rs", S+"noise/certificate_format.rs"],
  [("ordered field list in the message macro", S+"macro_message/message.rs"), ("to_le_bytes in primitive serializers", S+"types/primitives.rs")],
  ["codec::serialize"])

p("C03", "Untrusted bytes never crash a decoder",
  "For every byte string, every decoding entry point (any message, wire type, frame, certificate message, parser cursor, or the payload of a frame opened as any type) returns a value or an error. It never panics, aborts, overflows or reads outside the input.",
  ["inputs"], "all byte strings, including mutated valid encodings, hostile length prefixes, all signature bytes, and any cursor start and step",
  "tests feed a few short malformed inputs; the repository's own fuzz targets are only compiled, never run",
  TYPES+[S+"codec/parser.rs", S+"codec/frame.rs", S+"noise/types.rs", S+"noise/signature_noise_message.rs"],
  [("bounds-checked slice access", S+"codec/parser.rs"), ("fallible constructors in decoders", S+"types/")],
  ["codec::deserialize", "codec::unframe", "ByteParser::next_by"])

p("C04", "Decoders accept exactly the well-formed encodings",
  "A decoder accepts a byte string if and only if the string starts with a well-formed encoding of a value that satisfies the type's rules, and it then returns precisely that value. Encoding the returned value reproduces exactly the bytes that were consumed, so no two different byte strings are accepted for the same value (a boolean, which is read from its least significant bit alone, is the only exception).",
  ["inputs"], "all byte strings, in particular valid encodings with one or several fields mutated, over-long lengths, foreign flag bits, unknown codes and invalid UTF-8",
  "tests check acceptance on one valid input and rejection on a handful; neither direction is explored",
  MSGS+TYPES+[S+"codec/frame.rs", S+"noise/"],
  [("decoder goes through the validating constructor", S+"macro_message/message.rs"), ("from_bits / from_utf8 / from_str validation", S+"types/")],
  ["codec::deserialize", "codec::serialize"])

p("C05", "Truncated data is always rejected as incomplete",
  "Every strict prefix of a valid encoding or frame is rejected with a parse error, never with a value made up from missing bytes. A read past the end leaves the cursor where it was, so a caller can tell how much has been consumed.",
  ["inputs", "histories"], "all cut points of all valid encodings; all sequences of cursor reads over all inputs and start offsets",
  "tests cut two short inputs at one point each; cursor histories are not tested at all",
  [S+"codec/parser.rs", S+"codec/frame.rs"]+TYPES,
  [("range check before advancing", S+"codec/parser.rs")],
  ["codec::deserialize", "ByteParser::next_by"])

p("C06", "Rejections report the actual reason",
  "When an otherwise valid encoding or constructor argument is wrong in exactly one way, the error returned identifies that way: missing bytes (parse error), over-long or empty-but-required field (requirement error), version below 2 (version error), invalid UTF-8, unknown flag bits, unknown error code, unknown message type, wrong channel bit, unknown sub-protocol tag, or unsupported sub-protocol. A caller can therefore distinguish incomplete data from protocol violations.",
  ["inputs"], "all valid values combined with every single-fault mutation",
  "tests check one fault per error kind on one value; combinations of type and fault position are not covered",
  [S+"error.rs", S+"codec/", S+"types/", S+"macro_message/", S+"common/setup_connection.rs"],
  [("distinct error variants returned at each validation site", S+"error.rs")],
  ["codec::deserialize", "codec::unframe", "message constructors"])

p("C07", "Frame headers identify message kinds one-to-one",
  "Every message kind has one registered extension number, type code and channel bit as given by the specification, and no two kinds share a code. A frame is accepted only if its code is registered and its channel bit is the one registered for that code, and a frame's first three bytes always encode its kind that way.",
  ["inputs"], "all 2^16 extension/channel-bit values times all 2^8 type codes (enumerated completely) and all message kinds",
  "tests cover only kinds that have a message struct and check the code table against itself",
  [S+"types/message_type.rs", S+"codec/frame.rs"],
  [("single table generating both directions", S+"types/message_type.rs"), ("channel bit comparison on decode", S+"codec/frame.rs")],
  ["MessageType::new", "codec::serialize(Message)", "codec::deserialize::<Message>"])

p("C08", "A frame's length field is always exact and bounded",
  "For every payload of at most 2^24-1 bytes a frame carries the exact payload length in three little-endian bytes followed by exactly the payload, and decoding returns that payload whatever follows it. A longer payload is refused with an error before any byte is written, however long it is. A frame whose declared length exceeds the data available is rejected.",
  ["inputs"], "all payload lengths (0 to 2^24+, and beyond 2^32) and contents, all declared lengths",
  "tests use payloads of at most a few hundred bytes",
  [S+"codec/frame.rs", S+"types/fixed.rs"],
  [("24-bit length constructor with range check", S+"types/fixed.rs"), ("length conversion in the frame encoder", S+"codec/frame.rs")],
  ["codec::serialize(Message)", "codec::deserialize::<Message>"])

p("C09", "Streams of frames and values parse back in sequence",
  "When any sequence of values or frames is encoded one after another into one buffer, decoding with one cursor returns the same sequence, each decode starting exactly where the previous one ended. Nothing is lost, merged, duplicated or reordered, and the buffer is exhausted at the end.",
  ["inputs", "histories"], "all sequences of messages, frames and wire types of any mix and length, with any start offset",
  "every test decodes a single value from its own buffer",
  [S+"codec/", S+"types/", S+"macro_message/"],
  [("shared cursor advanced by the exact field size", S+"codec/parser.rs")],
  ["Deserializable::deserialize with a shared ByteParser"])

p("C10", "A payload is only opened as its own message type",
  "Framing a message tags it with that message's own kind, and opening a frame as a given message type succeeds only if the frame's kind is that type's kind. Opening a frame made from a message returns an equal message; opening it as any type of another kind returns an unexpected-message-type error, even if the payload would parse.",
  ["inputs"], "all pairs of message type and frame kind, all payloads",
  "tests open each frame only as its own type; no test opens a frame as a different type",
  [S+"codec/frame.rs", S+"macro_message/message.rs", S+"common/setup_connection.rs"],
  [("kind comparison before decoding", S+"codec/frame.rs")],
  ["codec::frame", "codec::unframe"])

p("C11", "Length-bounded values never exceed their bounds",
  "A bounded string or byte string (limits 31, 32, 255, 2^16-1 and 2^24-1 bytes) can be constructed or decoded if and only if its byte length is within the limit, and its stored length always equals the length of its data. The limit counts bytes, not characters, the content is preserved unchanged through construction, comparison and conversion back, and a 24-bit integer accepts exactly 0 to 2^24-1.",
  ["inputs"], "all lengths around and beyond each limit, all contents including multi-byte text, for all seven bounded types and both construction and decoding",
  "limits of the two largest types are explicitly skipped by the tests, and strings are tested with ASCII only",
  [S+"types/bytes.rs", S+"types/strings.rs", S+"types/fixed.rs"],
  [("length check in constructors, reused by decoders", S+"types/bytes.rs"), ("same for strings", S+"types/strings.rs")],
  ["STR0_* / B0_* / U24 constructors, conversions, comparisons, codec"])

p("C12", "Connection messages always satisfy the protocol's requirements",
  "A connection request obtained in any way (constructor or decoder, any sub-protocol) has a non-empty vendor and firmware and minimum and maximum versions of at least 2; every request meeting these rules and the string limits is accepted with its fields unchanged. A connection error claiming unsupported feature flags always lists at least one flag, and every other combination is accepted. Channel messages accept every field value within the string and byte-string limits.",
  ["inputs"], "all combinations of versions, flags, strings and error codes, through constructors and decoders of both sub-protocols",
  "tests try one bad value per rule in the constructor only; the decoding path and rule combinations are untested",
  [S+"macro_message/setup_connection.rs", S+"macro_message/setup_connection_error.rs", S+"common/setup_connection.rs", S+"mining/", S+"job_negotiation/"],
  [("validation in the constructor, which the decoder calls", S+"macro_message/setup_connection.rs")],
  ["SetupConnection::new / new_mining / new_job_negotation", "codec::deserialize", "codec::unframe"])

p("C13", "Flags, error codes and sub-protocol tags are closed vocabularies",
  "Feature flags, error codes and sub-protocol tags convert one-to-one to their registered bits, strings and bytes in every direction offered (encode, decode, text, parse). Any other bit, string or byte is rejected, never mapped to a known value or silently dropped. A connection request's tag always selects the matching sub-protocol, and recognised but unimplemented sub-protocols are refused.",
  ["inputs"], "all 2^32 flag words (structured sample), all strings near the registered ones, all 256 tag bytes",
  "tests check single flags, one unknown flag word, and no unknown error code or tag",
  [S+"types/flags.rs", S+"types/error_code.rs", S+"common/setup_connection.rs", S+"common/setup_connection_error_code.rs", S+"mining/", S+"job_negotiation/"],
  [("from_bits (not truncating)", S+"types/flags.rs"), ("exact string match", S+"types/error_code.rs"), ("tag table", S+"common/setup_connection.rs")],
  ["flags codec", "Display / FromStr / TryFrom of error codes", "Protocol conversions", "SetupConnection codec"])

p("C14", "Encoding to any writer is complete or reported as failed",
  "Encoding any value to any writer either delivers every byte of the encoding, in order and once, and returns its length, or returns an error. Short writes, interrupted writes, full buffers and failing writers never lead to a reported success with missing, repeated or reordered bytes.",
  ["inputs", "fault_sequences"], "all values of all encodable types and all writer behaviours (per-call accepted byte counts, interruptions, errors, zero-length acceptance)",
  "tests only encode to a growable vector, which never writes short",
  TYPES+[S+"codec/frame.rs", S+"codec/serialize.rs", S+"noise/types.rs"],
  [("write calls in every serializer", S+"types/primitives.rs")],
  ["Serializable::serialize with a custom io::Write"])

p("C15", "Decoding memory is bounded by the input received",
  "Decoding any byte string, valid or hostile, allocates at most a small constant multiple of the bytes actually supplied plus a constant, whatever lengths the input declares. A few bytes announcing a 16 MB field cannot make the receiver allocate it.",
  ["inputs"], "all byte strings, in particular short inputs with large declared lengths, for every decoding entry point",
  "no test measures allocation",
  TYPES+[S+"codec/parser.rs", S+"codec/frame.rs"],
  [("bounds check before copying", S+"codec/parser.rs")],
  ["codec::deserialize under a counting allocator"])

p("C16", "An honest handshake yields an agreeing, authenticated session",
  "Whenever an initiator and a responder with the same prologue relay their two handshake messages unmodified, for any keys, payloads and supported message sizes, both reach the established state with the same handshake hash, and the initiator then reports exactly the responder's static public key. Handshake payloads arrive unchanged, each direction can then exchange messages, and before establishment neither hash nor remote key is reported. The same holds through the connection-level wrapper.",
  ["inputs", "configurations"], "all static and ephemeral keys, prologues, payload contents and sizes from the minimum to the maximum, with generated or supplied static keys",
  "two tests run one handshake each with 1024-byte zero buffers and no prologue",
  [N+"noisesession.rs", N+"state.rs", S+"noise/noise_session.rs", S+"network/encryptor.rs"],
  [("message A/B writers and readers", N+"state.rs"), ("split into directional cipher states", N+"state.rs")],
  ["NoiseSession::send_message / recv_message / is_transport / get_handshake_hash / get_remote_static_public_key", "ConnectionEncryptor"])

p("C17", "Handshake tampering never yields an established client",
  "When two honest parties run a handshake and any bit of either message is altered, removed or added in transit, a message of another session is delivered instead, or the two sides use different prologues, the initiator reports an error and does not become established, report a remote key or exchange messages. A later genuine reply does not turn a failed attempt into an established session whose two ends disagree.",
  ["inputs", "fault_sequences"], "all single- and multi-bit alterations, truncations, extensions, splices with other sessions' messages, swapped sides and prologue differences",
  "no test alters a handshake message",
  [N+"noisesession.rs", N+"state.rs", N+"prims.rs"],
  [("handshake hash as associated data", N+"state.rs"), ("authentication failure aborts", N+"state.rs")],
  ["NoiseSession::recv_message", "ConnectionEncryptor::recv_handshake"])

p("C18", "Sessions interoperate with Noise_NX_25519_ChaChaPoly_BLAKE2s",
  "For any keys, prologue, payloads and message sizes, every handshake and transport message, the handshake hash and the effect of rekeying are byte-for-byte those of the Noise protocol specification for Noise_NX_25519_ChaChaPoly_BLAKE2s, in both roles. An independent implementation of the specification can therefore take either side.",
  ["inputs", "histories"], "all keys, prologues, payloads, sizes, message counts (including counters beyond 2^32) and rekey points",
  "tests only run the implementation against itself, which cannot notice a change made on both sides",
  [N+"prims.rs", N+"state.rs", N+"utils.rs", N+"types.rs", N+"consts.rs", N+"noisesession.rs"],
  [("HKDF/HMAC/hash primitives", N+"prims.rs"), ("nonce layout", N+"utils.rs"), ("symmetric state", N+"state.rs")],
  ["NoiseSession with set_ephemeral_keypair"], "optional: set the transport counters to reach values beyond 2^32")

p("C19", "Transport delivers only exact, in-order, authentic messages",
  "After establishment each received message decrypts to exactly the plaintext sent, once, in sending order per direction and independently of the other direction, with the authentication bytes cleared. A forged, altered, truncated, replayed, reordered, reflected or cross-session message is refused without exposing plaintext and without disturbing the messages that follow. No two messages are ever encrypted with the same key and counter, and sending stops with an error when the counter is exhausted.",
  ["histories", "inputs", "fault_sequences"], "all interleavings of sends and deliveries in both directions with adversarial deliveries, all message sizes 16 to 65535, long histories, counters up to the maximum",
  "one test sends one transport message in one direction",
  [N+"noisesession.rs", N+"state.rs", N+"types.rs"],
  [("per-direction counter incremented only on success", N+"state.rs"), ("counter exhaustion check", N+"types.rs")],
  ["NoiseSession::send_message / recv_message / get_message_count"], "optional: set the transport counters to reach exhaustion",
  [("cs1/cs2", "per-direction key and counter", N+"noisesession.rs"), ("mc", "count of messages processed", N+"noisesession.rs")])

p("C20", "Hostile or odd-sized session input never crashes",
  "Whatever bytes of whatever length (0 to beyond 65535) are given to a session or connection wrapper in any state, in any order of calls, each call returns success or an error and never panics or corrupts memory. This includes authenticated but malformed replies from a malicious responder. Sizes below 16 or above 65535 bytes are refused without changing the session.",
  ["inputs", "histories"], "all byte strings and sizes in all session states, all call orders, and replies crafted with valid encryption but unusual payload sizes",
  "tests only pass 1024-byte buffers produced by the peer",
  [N+"noisesession.rs", N+"state.rs", S+"network/encryptor.rs"],
  [("length checks before splitting buffers", N+"state.rs"), ("global size limits", N+"noisesession.rs")],
  ["NoiseSession", "ConnectionEncryptor"])

p("C21", "A session is established only by a complete exchange in turn",
  "An initiator is established only after sending its first message and then accepting the responder's reply; a responder only after accepting a first message and then producing its reply. A call made out of turn, or to send with a buffer too small for the message, is refused and leaves the session able to continue correctly, and once established a session stays established. The message counter counts exactly the successful calls.",
  ["histories"], "all sequences of send, receive (genuine, garbage, wrong size) and query calls on either role, directly or through the connection wrapper",
  "tests follow the one correct order",
  [N+"noisesession.rs", S+"network/encryptor.rs"],
  [("message counter drives the state machine", N+"noisesession.rs")],
  ["NoiseSession::is_transport / get_message_count", "ConnectionEncryptor::is_handshake_complete"],
  None, [("mc", "position in the message pattern", N+"noisesession.rs"), ("is_transport", "established flag", N+"noisesession.rs")])

p("C22", "Degenerate peer keys are never accepted",
  "A public key that would force the shared secret to a constant (every encoding of a small-order point, whether or not the unused top bit is read as part of the number) is refused wherever a public key is taken from bytes, text or a handshake message, and a session never becomes established with one. Every other 32-byte string is accepted as a public key.",
  ["inputs"], "all encodings of all small-order points, their neighbours, and random keys, in every place a key is read",
  "a test lists twelve rejected encodings and one accepted; it does not derive them from the property that matters",
  [N+"types.rs", N+"consts.rs", N+"state.rs"],
  [("forbidden value list checked on construction", N+"types.rs")],
  ["PublicKey::from_bytes", "PublicKey::from_str", "NoiseSession::recv_message"])

p("C23", "Rekeying and clearing act on exactly the named direction",
  "When both ends rekey the same direction at the same point, messages in both directions continue to be delivered; if only one end does, that direction and no other stops being accepted. After a direction's key is cleared, nothing is ever encrypted or accepted in that direction again, while the other direction is unaffected.",
  ["histories"], "all sequences of sends, deliveries, rekeys and clears at either end in either direction",
  "no test calls any of these operations",
  [N+"noisesession.rs", N+"state.rs"],
  [("rekey/clear methods of the two cipher states", N+"noisesession.rs"), ("empty-key check before use", N+"state.rs")],
  ["NoiseSession::rekey_* / clear_*"])

p("C24", "Handshake secrets are wiped once they are no longer needed",
  "Once a session is established, the session object no longer contains the local static or ephemeral private key, the handshake chaining key or any intermediate handshake key. After a direction is cleared or rekeyed its previous key is gone from the session, and a cleared key pair contains neither its private nor public key.",
  ["inputs", "histories"], "all keys, both roles, all histories of established sessions",
  "no test inspects what a session retains",
  [N+"noisesession.rs", N+"state.rs", N+"types.rs"],
  [("clear() with zeroize on handshake completion", N+"state.rs")],
  ["memory image of the session object"])

p("C25", "Every session and key uses fresh randomness",
  "Every generated key pair, session ephemeral key, authority key and default static key differs from all others generated before, in every thread. Channel identifiers are drawn from the whole identifier range without visible repetition or bias.",
  ["histories", "schedules"], "all sequences and concurrent combinations of session and key generations",
  "one test checks that an identifier is at most the maximum of its type, which is always true",
  [N+"types.rs", N+"state.rs", S+"noise/noise_session.rs", S+"noise/types.rs", S+"network/channel.rs", S+"network/encryptor.rs"],
  [("thread_rng / OsRng on each construction", N+"types.rs")],
  ["Keypair::default", "ephemeral key in the first 32 bytes of a handshake message", "generate_authority_keypair", "new_channel_id"])

p("C26", "A certificate verifies iff the authority signed it for that key and time",
  "Verification succeeds if and only if the authority key given is the one that signed, the signature covers exactly this version, validity interval and static public key, and the current time is at or after the start and strictly before the end of the interval. Changing any bit of the signature, any field, the static key or the authority key makes it fail, and a malformed authority key is refused with an error.",
  ["inputs", "configurations"], "all keys, versions, intervals, current times (including exact boundaries and the range limits), signatures and authority-key strings",
  "tests cover one accepted certificate, one expired by sleeping and one malformed key; no signature, field or key is ever altered and the start time is never in the future",
  [S+"noise/certificate_format.rs", S+"noise/signature_noise_message.rs", S+"noise/signed_certificate.rs", S+"noise/types.rs"],
  [("time checks and signature verification over the reconstructed certificate", S+"noise/certificate_format.rs")],
  ["CertificateFormat::new / verify with a controlled clock"])

p("C27", "Issued certificates carry exactly what was certified",
  "A certificate can be created if and only if its start is strictly before its end. The message issued from it carries the same version and interval and a signature by the given authority over exactly those fields and the static key, and after being encoded, sent through an established session and decoded it is unchanged and verifies for the session's remote key.",
  ["inputs"], "all versions, interval bounds, static keys and authority keys",
  "tests issue with version 0 and intervals near the current time only",
  [S+"noise/signed_certificate.rs", S+"noise/signature_noise_message.rs", S+"noise/certificate_format.rs"],
  [("ordering check in constructor", S+"noise/signed_certificate.rs"), ("signature over the encoded certificate", S+"noise/signed_certificate.rs")],
  ["SignedCertificate::new", "SignatureNoiseMessage::from_auth_key / new", "codec", "CertificateFormat::verify"])

p("C28", "Timestamps convert exactly or fail",
  "Converting a system time to a 32-bit Unix timestamp returns the whole number of seconds since the epoch for every time from the epoch up to 2^32-1 seconds. Any earlier or later time is an error, never a wrapped or clamped value, and the current timestamp follows the system clock.",
  ["inputs"], "all system times, at sub-second resolution, before, within and beyond the 32-bit range",
  "tests check 5 s after and before the epoch",
  [S+"types/unix_timestamp.rs"],
  [("duration conversion", S+"types/unix_timestamp.rs")],
  ["system_unix_time_to_u32", "unix_u32_now with a controlled clock"])

p("C29", "Queued messages are drained exactly once and in order",
  "Every message queued for a peer is returned by exactly one drain, drains return messages in queueing order, and a drain leaves the queue empty. This holds for any number of concurrent producers and drainers: nothing is lost, duplicated or reordered with respect to the order in which each producer queued.",
  ["histories", "schedules"], "all sequences of queue and drain operations, all interleavings of concurrent producers and drainers",
  "no test touches the queue",
  [S+"network/peer.rs"],
  [("swap under one lock acquisition", S+"network/peer.rs")],
  ["Peer::get_pending_msgs", "Peer::pending_msg_buffer"],
  None, [("pending_msg_buffer", "mutex-protected outgoing queue", S+"network/peer.rs")])

p("C30", "Key material parses and derives exactly",
  "Text keys are accepted if and only if they are exactly 64 hexadecimal digits (of either case) and then hold exactly those bytes. A key pair's public key is always the X25519 public key of its private key, an all-zero private key is refused as a key pair, and emptiness is reported exactly for all-zero keys. Equality holds exactly when the key bytes are equal.",
  ["inputs"], "all strings and all 32-byte values",
  "documentation examples use one key each",
  [N+"types.rs"],
  [("hex decoding with length check", N+"types.rs"), ("scalar multiplication by the base point", N+"types.rs")],
  ["Key / PrivateKey / PublicKey / Psk from_str, from_bytes, is_empty", "Keypair::from_private_key / from_key"])

p("C31", "Errors can always be displayed and traced to their cause",
  "Every error the library returns has a non-empty message, and following its chain of causes ends after finitely many steps. The text of an underlying error (I/O, UTF-8, hexadecimal, key or noise error) appears in the message or in that chain. Handling code that logs the chain never hangs.",
  ["inputs"], "all error values obtainable through the public API",
  "no test walks an error's causes",
  [S+"error.rs", N+"error.rs"],
  [("Error::source implementations", N+"error.rs")],
  ["std::error::Error::source", "Display"])

p("C32", "A secured connection delivers every queued message exactly as queued",
  "After a handshake, a client that trusts the issuing authority can verify the server from the certificate received as the first transport message, for every key, version and time within the interval. From then on every message queued on either side, in any number and of any kind and size, arrives at the other end as an equal message, exactly once and in queueing order. This holds however frames are packed into or cut across transport messages, while both ends renew their keys together, and when forged or damaged bytes are received in between (these are refused).",
  ["inputs", "histories", "fault_sequences"], "all connections: keys, certificates, message sequences in both directions, packings of frames into transport messages, renewals, injected bytes",
  "the pieces (codec, frame, session, certificate, queue) are tested one by one with one value each; no test runs a connection",
  [S+"codec/frame.rs", S+"codec/parser.rs", S+"network/peer.rs", S+"noise/", S+"network/config.rs", N+"noisesession.rs", N+"state.rs"],
  [("queue, frame, transport and parser composed", S+"codec/frame.rs"), ("transport send and receive", N+"noisesession.rs")],
  ["Peer::get_pending_msgs, frame, serialize, send_message at one end; recv_message, deserialize, unframe at the other"])

p("C33", "An impostor is never taken for the genuine server",
  "A client never verifies a responder that does not hold the certified static key. Presenting the genuine server's certificate, another server's, one signed by another authority, one for another time, or an altered one with a session keyed by any other static key fails verification. A responder that announces the genuine static key without holding its private key, including by replaying or recombining genuine messages, is refused during the handshake: the session is not established and reports no remote key. Someone who relayed a genuine handshake can neither inject nor reflect messages afterwards. The genuine server is verified.",
  ["inputs", "histories"], "all keys, certificates and times; all replies computable without the genuine private key",
  "no test involves a dishonest server",
  [N+"state.rs", N+"noisesession.rs", S+"noise/certificate_format.rs", S+"noise/signature_noise_message.rs"],
  [("static key authenticated by the handshake and bound by the certificate", N+"state.rs"), ("verification over the remote key", S+"noise/certificate_format.rs")],
  ["recv_message of the initiator", "get_remote_static_public_key", "CertificateFormat::verify"])

p("C34", "Equality and copies agree with the encoding",
  "Two values of one message or wire type compare equal exactly when all their fields are equal, which is exactly when they have the same encoding (floats compare as numbers, so NaN and the two zeros are excepted). Comparison is symmetric. A copy equals its original, holds the same fields and encodes identically. A bounded value compared with the plain text, bytes or number it may hold is equal exactly if it holds it, and keys are equal exactly if their bytes are.",
  ["inputs"], "all pairs of values of every message and wire type, in particular those differing in one bit, letter case or trailing byte of one field",
  "tests use equality as their oracle but only ever compare values expected to be equal, so an equality that ignores something makes every test pass",
  MSGS+TYPES+[S+"codec/frame.rs", S+"noise/signature_noise_message.rs", N+"types.rs"],
  [("derived comparisons and comparisons with plain data", S+"types/strings.rs"), ("message comparison", S+"macro_message/message.rs")],
  ["PartialEq and Clone of every public type", "codec::serialize"])

p("C35", "Results depend only on the input, never on history or other threads",
  "Encoding, decoding, framing, opening, parsing keys, issuing certificates, verifying them at a given time, and the bytes a session with given keys produces give the same result (value, bytes consumed, error and its text) whenever they are repeated with the same input: after any other operations, successful or refused, and while other threads perform any of them.",
  ["histories", "schedules"], "all sequences and concurrent combinations of operations on all inputs",
  "each test performs its operations once, alone in its process",
  MSGS+TYPES+[S+"codec/", S+"noise/", N+"types.rs", N+"state.rs"],
  [("stateless functions over their arguments", S+"codec/")],
  ["results of the public functions, in one thread and in several"])

open("/verif/properties.jsonl", "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P))
