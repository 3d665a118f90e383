#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

HOOK = "cfg(http_ntlm_verif): crate-private encode/decode of each wire type re-exported as plain functions"
M = "src/messages/"
S = "src/messages/structures/"

p("C01", "Decoding untrusted bytes never panics",
  "Decoding any byte string as a NEGOTIATE, CHALLENGE or AUTHENTICATE message, or as any structure embedded in one (AV pairs and AV pair lists, LM/NT responses, strings, version, file time, single-host data, flags, message signature), always ends in a value or an error. It never panics, aborts, overflows or touches memory outside the input, whatever lengths, offsets or contents the bytes claim.",
  ["inputs"], "every byte string, of every length, including hostile length/offset descriptors",
  "The tests decode four well-formed captures; none has an out-of-range descriptor, an odd-length string or trailing bytes in an AV pair.",
  [M+"field.rs", M+"challenge.rs", M+"authenticate.rs", M+"negotiate.rs", S+"avid.rs", M+"unicode_string.rs"],
  [("descriptor resolution", M+"field.rs: Field::get_range/get_data_if/get_many_if"), ("AV pair value parsing", S+"avid.rs: AvPair::deserialize"), ("integer/buffer parsers", "nom combinators in every deserialize")],
  ["decode result of each type"], HOOK)

p("C02", "NEGOTIATE messages survive an encode/decode round trip",
  "Encoding any NEGOTIATE message and decoding the bytes yields the same flags, domain name, workstation name and version, for every flag word, every pair of (possibly absent) non-empty names and every version, provided the version flag is set exactly when a version is present. Names are carried byte for byte.",
  ["inputs"], "all flag words, names (UTF-8 text) and versions",
  "One fixed message is round-tripped.",
  [M+"negotiate.rs", M+"field.rs", M+"unicode_string.rs", S+"version.rs"],
  [("encode", M+"negotiate.rs: serialize_into"), ("decode", M+"negotiate.rs: deserialize"), ("payload placement", M+"field.rs: Field::append")],
  ["encoded bytes, decoded value"], HOOK)

p("C03", "CHALLENGE messages survive an encode/decode round trip",
  "Encoding any CHALLENGE message and decoding the bytes yields the same target name, flags, server challenge, target information list (same pairs, same order) and version. This holds for every flag word, every non-empty name without NUL characters, every server challenge and every target information list that ends in the end-of-list pair, provided the version flag is set exactly when a version is present.",
  ["inputs"], "all field values and all target-information lists",
  "Two captures and one built message are used; flags, time stamps, single-host data and channel bindings pairs never appear in a test.",
  [M+"challenge.rs", M+"field.rs", S+"avid.rs", M+"unicode_string.rs"],
  [("encode", M+"challenge.rs: serialize_into"), ("decode", M+"challenge.rs: deserialize"), ("list codec", M+"field.rs: append_many/get_many_if")],
  ["encoded bytes, decoded value"], HOOK)

p("C04", "AUTHENTICATE messages survive an encode/decode round trip",
  "Encoding any AUTHENTICATE message and decoding the bytes yields the same LM response, NT response, domain, user, workstation, encrypted session key, flags, version and MIC, for every combination of present and absent fields, provided the flags agree with the content (version flag iff a version, key-exchange flag iff a key, NTLMv1 flag iff the LM response is of version 1), text is non-empty when present and contains no NUL, and a bare NTLMv2 blob does not itself read as a proof followed by a blob.",
  ["inputs"], "all combinations of optional fields and all field values",
  "The two tests for this type fail at the pinned commit, so nothing settles it; they would cover one message.",
  [M+"authenticate.rs", M+"field.rs", S+"lm_challenge.rs", S+"nt_challenge.rs"],
  [("encode", M+"authenticate.rs: serialize_into"), ("decode", M+"authenticate.rs: deserialize"), ("response variants", S+"nt_challenge.rs, "+S+"lm_challenge.rs")],
  ["encoded bytes, decoded value"], HOOK)

p("C05", "Encoded messages have the MS-NLMP wire layout",
  "Every encoded NEGOTIATE, CHALLENGE and AUTHENTICATE message, read by an independent reader of the MS-NLMP layout, has the right signature, message type, fixed header fields and little-endian integers, and its descriptors (length = maximum length) point inside the message, beyond the fixed part, at non-overlapping payloads holding exactly the field values. An absent field has an all-zero descriptor.",
  ["inputs"], "all messages of the three types",
  "A round trip cannot see compensating encoder and decoder mistakes, and no passing test compares encoder output with reference bytes.",
  [M+"negotiate.rs", M+"challenge.rs", M+"authenticate.rs", M+"field.rs", M+"utils.rs", M+"flags.rs"],
  [("fixed header order", M+"*.rs: serialize_into"), ("payload placement", M+"field.rs: append/append_many"), ("integer writers", M+"utils.rs: write_integer!")],
  ["encoded bytes"], HOOK)

p("C06", "Decoders honour payload descriptors wherever they point",
  "A conformant message decodes to the values its descriptors point at, wherever inside the message the payloads lie: in any order, with gaps or padding between them, shared or overlapping, with any maximum-length value, and with arbitrary unrelated trailing bytes. A zero-length descriptor means the field is absent, whatever its offset.",
  ["inputs"], "all payload placements and contents",
  "Every message in the tests has its payloads contiguous and in one order.",
  [M+"field.rs", M+"challenge.rs", M+"authenticate.rs", M+"negotiate.rs"],
  [("descriptor resolution", M+"field.rs: Field::get_range"), ("header parse order", M+"*.rs: deserialize")],
  ["decoded value"], HOOK)

p("C07", "Malformed messages are rejected, never misread",
  "Decoding returns an error, never a value, when the signature or message type is wrong, the fixed header or a present version is truncated, a version has non-zero reserved bytes or an unknown revision, a non-empty descriptor reaches beyond the message, or a non-empty CHALLENGE target-information field is not a list ending in the end-of-list pair.",
  ["inputs"], "all byte strings with at least one of the defects",
  "No test decodes a malformed message.",
  [M+"challenge.rs", M+"authenticate.rs", M+"negotiate.rs", M+"field.rs", S+"version.rs"],
  [("signature and type checks", M+"*.rs: tag/verify"), ("end-of-list check", M+"challenge.rs: deserialize"), ("version checks", S+"version.rs: deserialize")],
  ["decode result"], HOOK)

p("C08", "AV pairs encode and decode exactly, for every kind",
  "Every AV pair is encoded as its 16-bit identifier, the 16-bit length of its value and the value, and decodes back to an equal pair leaving exactly the bytes that follow it; lists keep order and multiplicity. Decoding rejects an unknown identifier, a length beyond the input, and a value whose length or content is impossible for its kind, and never yields a pair of another kind.",
  ["inputs"], "all eleven kinds and all values",
  "Only two string kinds and the terminator occur in tests that decode.",
  [S+"avid.rs", S+"single_host_data.rs", S+"filetime.rs"],
  [("pair codec", S+"avid.rs: AvPair::serialize_into/deserialize"), ("identifier map", S+"avid.rs: AvId"), ("flag bits", S+"avid.rs: MsvAvFlags")],
  ["encoded bytes, decoded pair, remaining input"], HOOK)

p("C09", "Text crosses the wire without loss, for all of Unicode",
  "Any text without NUL characters, including characters outside the Basic Multilingual Plane, is carried as UTF-16LE in message fields and AV pairs and decodes to the same text. UTF-16 that is not valid text (an unpaired surrogate) never decodes to text containing characters that were not there.",
  ["inputs"], "all strings of Unicode scalar values",
  "All strings in the tests are ASCII.",
  [M+"unicode_string.rs", S+"avid.rs"],
  [("UTF-16 encode/decode", M+"unicode_string.rs: UnicodeString"), ("AV pair strings", S+"avid.rs: encode_string")],
  ["encoded bytes, decoded text"], HOOK)

p("C10", "Setting or clearing an optional field keeps its flag in step",
  "After any sequence of setting and clearing the NEGOTIATE domain and workstation, the CHALLENGE target name, and the AUTHENTICATE encrypted session key, the getter returns what was set last, the corresponding negotiate flag is set exactly when the field is present, and no other flag and no other field has changed.",
  ["inputs", "histories"], "all initial flag words, values and sequences of setter calls",
  "One setter call on one default message is exercised.",
  [M+"negotiate.rs", M+"challenge.rs", M+"authenticate.rs", "src/messages.rs", M+"flags.rs"],
  [("setters", M+"negotiate.rs, "+M+"authenticate.rs, src/messages.rs: generate_setter_getter!"), ("bit operations", M+"flags.rs: set_flag/clear_flag")],
  ["flag word, getters, encoded bytes"], None)

p("C11", "Target information lists stay well formed as they are built",
  "A CHALLENGE whose target information is built by any sequence of additions holds exactly the added pairs in the order added, followed by exactly one end-of-list pair, and carries the target-info flag; with no addition the list is empty. Filling it from the environment adds exactly the names the environment provides, each under its own kind.",
  ["inputs", "histories", "configurations"], "all sequences of additions and all values; all environments",
  "One fixed sequence of four additions is tested.",
  [M+"challenge.rs"],
  [("insertion before the terminator", M+"challenge.rs: add_target_info"), ("environment", M+"challenge.rs: fill_from_env")],
  ["get_target_infos, flag word, encoded bytes"], None)

p("C12", "Flag words: single-bit edits, lossless transport, strict validation",
  "Setting, clearing or testing a negotiate flag touches exactly that bit of the 32-bit word, and each named flag is the bit MS-NLMP assigns to it. In the default configuration every 32-bit word is accepted and transported unchanged; in the strict configuration a word is accepted, unchanged, exactly when no reserved bit is set, the two target-type flags are not both set, at least one character-set flag is set, and extended session security and LM key are not both set.",
  ["inputs", "configurations"], "all 2^32 flag words, all bit indices, both configurations",
  "Two words are decoded, in the default configuration only.",
  [M+"flags.rs"],
  [("bit operations", M+"flags.rs: has_flag/set_flag/clear_flag"), ("validation", M+"flags.rs: Flags::validate")],
  ["decoded flag word, encode bytes, has_flag"], HOOK)

p("C13", "File times count 100 ns ticks since 1601",
  "A system time at or after 1970 converts to the MS-DTYP FILETIME (100-nanosecond intervals since 1 January 1601 UTC) of the same whole second, and converting a file time back gives the same instant to the second; a time that cannot be represented gives an error or nothing, never a wrong value or a panic. The 64-bit value and its two 32-bit halves always agree.",
  ["inputs"], "all representable system times and all 64-bit file times",
  "No test converts a time; the tests use only the zero file time.",
  [S+"filetime.rs"],
  [("conversions", S+"filetime.rs: TryFrom<SystemTime>, to_system_time, as_u64")],
  ["FileTime halves, SystemTime"], None)

p("C14", "NTLMv1 responses without extended session security match the spec",
  "When the challenge does not select extended session security, an NTLMv1 client's NT response is the DES-long encryption of the server challenge under the MD4 hash of the UTF-16LE password. Its LM response is the same value, except for a protocol-level-0 client, whose LM response is the DES-long encryption of the challenge under the LM hash of the upper-cased password padded or cut to 14 bytes.",
  ["inputs"], "all passwords, server challenges, flags and NTLMv1 levels",
  "One password/challenge vector is tested per function; the client path that combines them has no passing test.",
  ["src/crypto/ntlmv1.rs", "src/crypto/des.rs", "src/crypto/lm.rs", "src/crypto/nt.rs", "src/crypto.rs", "src/client.rs"],
  [("responses", "src/crypto/ntlmv1.rs: compute_response"), ("key expansion", "src/crypto/des.rs: des_56bits_to_64bits"), ("password hashes", "src/crypto/lm.rs, src/crypto/nt.rs"), ("DESL", "src/crypto.rs: desl")],
  ["LM and NT response fields of the AUTHENTICATE message"], None)

p("C15", "NTLMv1 responses with extended session security match the spec",
  "When the challenge selects extended session security, an NTLMv1-level client's LM response is its 8-byte client challenge followed by 16 zero bytes, and its NT response is the DES-long encryption, under the MD4 password hash, of the first 8 bytes of MD5(server challenge || client challenge), with that same client challenge.",
  ["inputs"], "all passwords, server and client challenges, flags",
  "One vector is tested, with equal-valued client challenge bytes that hide ordering mistakes.",
  ["src/crypto/ntlmv1.rs", "src/crypto.rs", "src/client.rs", S+"lm_challenge.rs"],
  [("responses", "src/crypto/ntlmv1.rs: compute_response"), ("LM response form", S+"lm_challenge.rs: from_client_challenge")],
  ["LM and NT response fields of the AUTHENTICATE message"], None)

p("C16", "NTLMv1 session keys match the spec for every flag combination",
  "When key exchange is negotiated together with signing or sealing, the encrypted session key an NTLMv1 client sends is the RC4 encryption of a fresh random key under the MS-NLMP key-exchange key: HMAC-MD5 over server challenge and LM response under extended session security, else the LM-key DES derivation, else the truncated LM hash, else the session base key, as the challenge's flags select. Otherwise no encrypted session key is sent.",
  ["inputs"], "all challenge flag words, passwords, challenges and random keys",
  "Three flag combinations are tested on internal functions, with one key; the client's own choice of inputs is not.",
  ["src/crypto.rs", "src/client.rs", "src/crypto/ntlmv1.rs"],
  [("key exchange key", "src/crypto.rs: kxkey"), ("session key", "src/crypto.rs: encrypt_random_session_key"), ("selection", "src/client.rs: send_authenticate_ntlmv1")],
  ["encrypted session key field of the AUTHENTICATE message"], None)

p("C17", "NTLMv2 responses match the spec",
  "An NTLMv2 client's NT response is the 16-byte proof followed by the client blob (version bytes, time, client challenge, the server's target information verbatim and four zero bytes), where the proof is HMAC-MD5 over server challenge and that blob under the NTLMv2 hash of upper-cased user name and domain. Its LM response is the HMAC-MD5 of server and client challenge under the same hash, followed by the same client challenge. The time is the first time stamp the server sent, if any, else the current time.",
  ["inputs"], "all user names, domains, passwords, challenges and target information lists",
  "One vector is tested on an internal function; the message the client sends is not compared with anything.",
  ["src/crypto/ntlmv2.rs", "src/crypto/nt.rs", "src/client.rs", S+"nt_challenge.rs"],
  [("responses", "src/crypto/ntlmv2.rs: compute_response"), ("hash", "src/crypto/nt.rs: ntowfv2"), ("message assembly", "src/client.rs: send_authenticate_ntlmv2")],
  ["LM and NT response fields of the AUTHENTICATE message"], None)

p("C18", "The NTLMv2 MIC and session key verify at the server",
  "A server that knows the password hash and sees only the three messages can recover the session key from the flags and encrypted key in the AUTHENTICATE message an NTLMv2 client sent. The MIC in that message is the HMAC-MD5, under that key, of the NEGOTIATE, CHALLENGE and AUTHENTICATE bytes exactly as exchanged (the CHALLENGE in the encoding this crate gives it), with the MIC field zeroed.",
  ["inputs", "histories"], "all challenges (in canonical encoding), flags, identities and session keys",
  "No test computes a MIC.",
  [M+"authenticate.rs", "src/client.rs", "src/crypto.rs"],
  [("MIC", M+"authenticate.rs: compute_mic"), ("ordering of MIC and final edits", "src/client.rs: send_authenticate"), ("session key", "src/crypto.rs: encrypt_random_session_key")],
  ["MIC and encrypted session key of the AUTHENTICATE message"], None)

p("C19", "Responses are bound to the current handshake",
  "In any sequence of negotiate, challenge and authenticate calls, an AUTHENTICATE message answers the challenge accepted after the most recent NEGOTIATE; a challenge that arrives before a NEGOTIATE or after one was already accepted is ignored, and starting a new NEGOTIATE discards the old challenge. No AUTHENTICATE message is ever produced for a handshake in which no challenge was accepted.",
  ["histories", "inputs"], "all call sequences and challenges",
  "Each test makes one straight-line handshake (and that test fails at the pinned commit).",
  ["src/client.rs"],
  [("state machine", "src/client.rs: ClientState, recv_challenge, set_authenticated_state, get_challenge")],
  ["responses in the AUTHENTICATE message"], None,
  [("state", "progress of the handshake and the messages it is bound to", "src/client.rs: Client.state")])

p("C20", "NEGOTIATE offers exactly what the protocol level allows",
  "The NEGOTIATE message of a client at protocol level 0 to 5 always offers Unicode, OEM, signing, sealing, always-sign, 128-bit keys and a target request; level 0 adds NTLMv1, LM key and key exchange; level 1 adds NTLMv1 and extended session security; levels 2 to 5 add extended session security, key exchange and target info and never NTLMv1 or LM key. It carries the domain, with its flag, exactly when the client's domain is not empty, and starting over yields the same bytes.",
  ["configurations", "inputs", "histories"], "all protocol levels, identities and repeated negotiations",
  "No passing test looks at what the client offers.",
  ["src/client.rs", M+"negotiate.rs"],
  [("offer", "src/client.rs: send_negociate")],
  ["NEGOTIATE bytes"], None)

p("C21", "The identity given by the user is the identity presented",
  "A user name of the form DOMAIN\\user or user@domain is split at its first separator (the backslash form taking precedence) and any other name is used whole with an empty domain. Every AUTHENTICATE message carries exactly that user and domain and the local workstation name, as UTF-16LE, for every protocol level and challenge.",
  ["inputs", "configurations"], "all user name strings and environments",
  "No test uses the combined user name form.",
  ["src/client.rs"],
  [("name split", "src/client.rs: Client::new"), ("workstation", "src/client.rs: get_workstation_name"), ("fields", "src/client.rs: send_authenticate*")],
  ["NEGOTIATE and AUTHENTICATE bytes"], None)

p("C22", "Client challenges and session keys are fresh randomness",
  "Every AUTHENTICATE message uses a client challenge drawn in full from the operating system's random source for that message, and every exchanged session key is a separate full draw; no draw is reused within a message or between messages, handshakes or clients.",
  ["histories", "inputs"], "all outputs of the random source, all sequences of handshakes",
  "The tests cannot control or observe the random source.",
  ["src/client.rs", "src/crypto.rs", "src/messages/structures.rs"],
  [("draws", "src/messages/structures.rs: random()"), ("use", "src/client.rs: send_authenticate, src/crypto.rs: encrypt_random_session_key")],
  ["client challenge and encrypted session key on the wire, requests to the random source"], None)

p("C23", "The password reaches the wire only through the challenge response",
  "NEGOTIATE messages and every part of an AUTHENTICATE message other than the LM/NT response values, the encrypted session key and the MIC are the same whatever the password is. A client at NTLMv2 level never sends a value computed from the LM hash, and no level above 0 sends an LM-hash response.",
  ["inputs"], "all pairs of passwords, all challenges and levels",
  "A two-run (non-interference) property; unit tests look at one run.",
  ["src/client.rs", "src/crypto/ntlmv1.rs", "src/crypto/ntlmv2.rs"],
  [("message assembly", "src/client.rs"), ("level selection", "src/client.rs: send_authenticate")],
  ["bytes of both messages under two passwords"], None)

p("C24", "Any credentials and any environment are accepted",
  "Creating a client and starting a handshake succeeds, without a panic, for every user name, domain, password and target text (any Unicode, any length up to the 16-bit field limits) and whatever the environment looks like: host name file missing, unreadable, empty or not text, environment variables set or not. The workstation name is COMPUTERNAME if set, else the upper-cased first label of the host name, else absent.",
  ["inputs", "configurations", "fault_sequences"], "all strings; all environments",
  "Tests use short ASCII credentials and the build machine's environment.",
  ["src/client.rs", "src/crypto/lm.rs", "src/crypto/nt.rs"],
  [("LM password preparation", "src/crypto/lm.rs: prepare_password"), ("host name", "src/client.rs: get_workstation_name")],
  ["Client::new, NEGOTIATE and AUTHENTICATE bytes"], None)

p("C25", "Every challenge gets a well-formed, self-consistent answer",
  "For every accepted challenge, whatever its flags and target information, at every protocol level, the client produces an AUTHENTICATE message that decodes successfully, whose flags describe it: key-exchange flag exactly when an encrypted session key is present, version flag exactly when a version structure is present, Unicode set and OEM clear since its text is UTF-16. Other flags the server selected are kept, apart from the target-type and target-info/request-target bits.",
  ["inputs", "configurations"], "all challenges and protocol levels",
  "One challenge is answered in one test, which fails at the pinned commit.",
  ["src/client.rs", M+"authenticate.rs"],
  [("flag edits", "src/client.rs: send_authenticate"), ("session key flag", M+"authenticate.rs: set_encrypted_random_session_key")],
  ["AUTHENTICATE bytes and their decoding"], HOOK)

p("C26", "Encoding into a faulty writer never corrupts silently",
  "Encoding a message or structure into a writer that accepts only part of the data per call produces the same bytes as encoding into memory; if the writer fails at any point, encoding reports the error and never success. The reported size always equals the number of bytes written.",
  ["fault_sequences", "inputs"], "all patterns of short writes and all failure points",
  "All tests write into a Vec, which never fails and never writes short.",
  ["src/messages.rs", M+"utils.rs", S+"avid.rs", M+"field.rs"],
  [("write_all discipline", M+"utils.rs, "+S+"avid.rs: encode_string, "+M+"*.rs: serialize_into")],
  ["bytes accepted by the writer, returned size or error"], HOOK)

p("C27", "Fixed-size structures are exact inverses of their encodings",
  "Version, file time, single-host data, LM and NT responses, message signature, challenges and keys encode to their fixed MS-NLMP size and layout, and decode back to an equal value leaving the following bytes untouched; decoding needs exactly that many bytes. Building a version from its number or from 8 raw bytes agrees with its encoding.",
  ["inputs"], "all field values",
  "Only in-memory sizes are tested.",
  [S+"version.rs", S+"filetime.rs", S+"single_host_data.rs", S+"signature.rs", S+"lm_challenge.rs", S+"nt_challenge.rs", "src/messages/structures.rs"],
  [("codecs", S+"*.rs"), ("byte arrays", "src/messages/structures.rs: buffer_aliases!")],
  ["encoded bytes, decoded value, remaining input"], HOOK)

p("C28", "What was accepted survives being encoded again",
  "Whenever decoding some bytes, however unusual, yields a NEGOTIATE, CHALLENGE or AUTHENTICATE message or a structure embedded in one, encoding that value succeeds and decoding the result yields an equal value: same flags, same text, same pairs in the same order, same responses, keys, version and MIC. (Excepted: a message text that starts with NUL or is not valid text, which reads as empty and is sent as absent; and a bare NTLMv2 blob whose client challenge itself looks like the head of a blob.)",
  ["inputs"], "all byte strings a decoder accepts, including non-canonical ones: unusual payload placement, shared or overlapping payloads, non-zero reserved bytes, unterminated text, flags without their field",
  "Tests re-encode only the captures they decode, which this crate would have written in the same way.",
  [M+"negotiate.rs", M+"challenge.rs", M+"authenticate.rs", S+"avid.rs", S+"nt_challenge.rs", M+"unicode_string.rs"],
  [("decode", M+"*.rs: deserialize"), ("encode", M+"*.rs: serialize_into"), ("conditional fields", M+"field.rs: get_data_if/get_many_if")],
  ["decoded value, its encoding, the value decoded from that"], HOOK)

p("C29", "A client carries nothing over from earlier handshakes",
  "A client that has been through any earlier exchange - complete, abandoned after the NEGOTIATE or the CHALLENGE, answered twice, or disturbed by challenges that came too early or too late - sends from its next NEGOTIATE on exactly the bytes that a newly created client with the same credentials, given the same challenge, random draws and time, would send.",
  ["histories", "inputs"], "all earlier histories of calls and challenges, then any handshake",
  "Every test uses a client for one handshake only.",
  ["src/client.rs"],
  [("state machine", "src/client.rs: ClientState, recv_challenge, set_authenticated_state"), ("buffer reuse", "src/client.rs: send_negociate, send_authenticate")],
  ["NEGOTIATE and AUTHENTICATE bytes"], None,
  [("state", "the handshake in progress", "src/client.rs: Client::state"), ("buffer", "the last message sent", "src/client.rs: Client::buffer")])

p("C30", "The MIC binds exactly the three messages it is computed over",
  "Computing the MIC of any AUTHENTICATE message that has a session key, over any NEGOTIATE and any CHALLENGE message, yields the HMAC-MD5 under that key of the three encodings, with the MIC field of the AUTHENTICATE message zeroed whatever it held before; computing it again yields the same. Nothing else of any of the messages changes, and without a session key nothing changes at all. A server that decodes the three messages of an NTLMv2 handshake with non-empty names, and knows the session key, thereby recomputes the MIC the client sent.",
  ["inputs", "histories"], "all messages: every combination of present and absent fields, flag words, earlier MIC values and keys; encoding and decoding in between",
  "No test computes a MIC.",
  [M+"authenticate.rs", "src/crypto.rs", M+"negotiate.rs", M+"challenge.rs"],
  [("MIC", M+"authenticate.rs: compute_mic"), ("HMAC", "src/crypto.rs: hmac_md5")],
  ["MIC bytes, message encodings before and after"], HOOK)

p("C31", "Random values are full draws from the system's random source",
  "Every randomly created challenge, key, response, proof, MIC or pad is, in all of its bytes and at its full size, a value drawn from the operating system's random source during that very call; no two of them share a draw, however many are made.",
  ["histories", "inputs"], "all outcomes of the random source, all types, any number of values",
  "Random values are never looked at by a test.",
  ["src/messages/structures.rs"],
  [("random values", "src/messages/structures.rs: buffer_aliases! random")],
  ["the value, the bytes drawn"], None)

p("C32", "Printing a value shows what it holds",
  "The debug form of a flag word names exactly the flags that are set, separated by bars; that of a challenge, key, response, proof or MIC is its bytes as two lower-case hexadecimal digits each; text prints as it is, and quoted inside another value. Printing any message or structure, in plain or pretty form, succeeds without a panic.",
  ["inputs"], "all flag words, bytes and texts; all combinations of present and absent fields",
  "Tests print a few captures and look at none of the output.",
  [M+"flags.rs", "src/messages/structures.rs", M+"unicode_string.rs"],
  [("flag names", M+"flags.rs: Debug"), ("bytes", "src/messages/structures.rs: buffer_aliases! Debug"), ("text", M+"unicode_string.rs: Display, Debug")],
  ["printed text"], HOOK)

p("C33", "Equality is equality of content",
  "Two flag words, versions, file times, texts, AV pairs, LM or NT responses, or NEGOTIATE, CHALLENGE or AUTHENTICATE messages compare equal exactly when every part of their content is the same: same kind, same flags, same text to the letter, same pairs in the same order, same bytes. Equality is symmetric, inequality is its opposite, and a copy is equal to its original.",
  ["inputs"], "all pairs of values: of the same and of different kinds, differing in one bit, one letter, case, order, or presence of a field",
  "Tests compare values expected to be equal, and would not notice two different ones comparing equal.",
  [M+"negotiate.rs", M+"challenge.rs", M+"authenticate.rs", "src/messages/structures.rs", S+"*.rs", M+"unicode_string.rs", M+"flags.rs"],
  [("equality", "PartialEq and Clone of the messages and structures")],
  ["results of == and !=, copies"], HOOK)

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
