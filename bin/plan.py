"""What each check runs, and within which bounds.

Harness names: h_cNN_* run in both tiers, ht_cNN_* in the thorough tier only, hs_cNN_* and hst_cNN_* in
the strict configuration of the crate. Configurations: dev (overflow and debug checks on), rel
(release arithmetic), strict (cargo feature `strict`)."""
import json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUME = [
    "rustc's lowering to LLVM IR and the engine's reading of it (cross-checked by replaying sampled paths natively)",
    "MD4/MD5 compression, single DES and the RC4 key stream are uninterpreted functions shared by code and oracle "
    "(a counterexample is re-evaluated with the real ones); the key schedules, padding and chaining around them are "
    "the real code's",
    "memory allocation succeeds; the operating system's random source succeeds and returns unconstrained bytes",
]


def configs(prop, tier):
    p = PLAN[prop]
    return p.get("configs", {}).get(tier) or (["dev"] if tier == "quick" else ["dev", "rel"])


def harnesses(prop, tier, cfg, names):
    n = prop[1:]
    pre = ["h"] + (["ht"] if tier == "thorough" else [])
    if "strict" in cfg:
        pre = ["hs"] + (["hst"] if tier == "thorough" else [])
    return [h for h in names if any(h.startswith("%s_c%s_" % (x, n)) for x in pre)]


def known():
    """Findings recorded, not repaired."""
    r = []
    for l in open(V + "/known_findings.txt"):
        if l.startswith("{"):
            r.append(json.loads(l))
    return r


TEXT = "text: code points symbolic within UTF-8 lengths of 1 to 4 bytes"
PLAN = {
    "C01": dict(
        bounds="structures: every byte string of 0 to 9 (version, file time), 5 (flags), 17 (signature), 25/26 (LM "
               "responses), 50 (single-host data), 36 (NTLMv2 blob, either response), 44 to 56 (NTLMv2 response with "
               "proof), 10 (AV pair; 4 to 54 for the fixed-size kinds), 13 (AV pair list), 8 (UTF-16 text), 5 (OEM "
               "text) bytes; messages: every byte string shorter than the header; the fixed part plus 8 to 25 bytes "
               "with one descriptor anything at all (in range: every offset, length to 3..30) and the others absent; "
               "all descriptors hostile at once. Thorough: AV lists and responses to 20/60 bytes, release arithmetic",
        outside="longer byte strings; several in-range descriptors at once (each is resolved on its own)"),
    "C02": dict(
        bounds="every flag word and version; domain and workstation absent or 1 to 2 characters (" + TEXT + "); "
               "thorough: 3 characters",
        outside="longer names; version flag disagreeing with the version (excluded by the property)"),
    "C03": dict(
        bounds="every flag word, server challenge, version; name absent or to 2 characters; 0 to 2 pairs of every kind "
               "(text to 2 characters; all time stamps, flags, host data, bindings), and received lists with "
               "end-of-list pairs inside; thorough: 3 pairs, 4-byte characters", outside="longer lists and names"),
    "C04": dict(
        bounds="every combination of present/absent responses (LM v1/v2, NT v1/bare v2/v2 with proof), three texts of 0 "
               "to 1 characters, key, version; every value of the fixed-size parts; one text of to 2 characters of "
               "all UTF-8 lengths; NTLMv2 blobs with to 1 pair of every kind; thorough: 4 characters, 2 pairs",
        outside="longer text and lists"),
    "C05": dict(
        bounds="as C02, C03 and C04", outside="as C02, C03 and C04"),
    "C06": dict(
        bounds="one payload of every field (sizes 1 to 4 for text, 16 or 24 for keys and responses) at every offset in "
               "the message, header included; two payloads at every offset behind the header; target information "
               "lists of 1 to 2 pairs around, inside or over the target name; all six AUTHENTICATE payloads in 12 "
               "orders with gaps 0 to 2; payloads at the 8 and 16 bit offset boundaries; all bytes outside the "
               "descriptors symbolic", outside="other payload sizes; text payloads with surrogates or NUL (C09)"),
    "C07": dict(
        bounds="every wrong 12-byte head; every truncation of the fixed part; every bad version; every out-of-range "
               "descriptor value of every field; every target-information field of 4, 8 to 12 bytes (thorough 16, 20), "
               "and lists of 2 pairs of every kind without (all of) their terminator",
        outside="longer target-information fields; text values that are not valid UTF-16 or hold a NUL",
        assume=["the session key descriptor is ignored when the key-exchange flag is clear (MS-NLMP)"]),
    "C08": dict(
        bounds="every kind and value, text to 2 characters of UTF-8 length to 2 (thorough 4) and long text around the "
               "length-byte boundaries; lists of 2 (thorough 3) pairs followed by other bytes; every byte string of "
               "0 to 10 (thorough 16) bytes, and to 54 bytes for the fixed-size kinds", outside="longer values"),
    "C09": dict(
        bounds="every text of 0 to 3 (thorough 5) code points, in a string of its own and (1, thorough 2) in each "
               "message field; every sequence of 0 to 3 (5) UTF-16 units; long repetitive text to the 64 KiB limit",
        outside="longer irregular text"),
    "C10": dict(
        bounds="every start flag word and every sequence of 3 (thorough 4 and 5) setter calls, values of one character",
        outside="longer sequences"),
    "C11": dict(
        bounds="every sequence of 2 (thorough 3) additions of every kind, text to 1 character; additions to received "
               "lists; environments with every subset of the variables, values of one character",
        outside="longer sequences and text"),
    "C12": dict(bounds="every flag word, every bit index, the default and the strict configuration",
                outside="nothing within one flag word", configs={"quick": ["dev", "strict"],
                                                                "thorough": ["dev", "strict", "rel"]}),
    "C13": dict(bounds="every SystemTime (64-bit seconds, nanoseconds) and every 64-bit file time", outside="nothing"),
    "C14": dict(
        bounds="every flag word without extended session security, server challenge and random draw; passwords of 0 to "
               "2 ASCII characters or 1 character of any UTF-8 length at levels 0 to 2, and ASCII passwords of 6 to "
               "60 characters around the DES, padding and MD4 block boundaries; thorough: 5 characters, more lengths",
        outside="other password lengths; LM hash of non-ASCII passwords (no specified code page)"),
    "C15": dict(
        bounds="as C14, with extended session security", outside="other password lengths"),
    "C16": dict(
        bounds="every flag word, server challenge, client challenge, exported key; passwords to 2 ASCII characters and "
               "ASCII passwords of 7, 8, 14, 15, 28; a second answer with other flags", outside="other passwords"),
    "C17": dict(
        bounds="every flag word, server challenge, clock and random draw; target information of 0 to 2 (thorough 3) "
               "pairs of every kind, in every order; user of 0 to 1 ASCII characters (thorough 2), domain and password "
               "of 0 to 1 characters of UTF-8 length to 3 (4), ASCII names to 70 and passwords to 60 characters; "
               "non-ASCII user names by 7 samples", outside="upper-casing of other non-ASCII user names; longer text"),
    "C18": dict(
        bounds="every flag word, server challenge, draw; target name to 1 (2) characters, 0 to 1 (2) pairs of every "
               "kind, version or none, COMPUTERNAME set or not; levels 3 to 5; a second handshake of the same client",
        outside="longer challenges; CHALLENGE bytes in an encoding other than this crate's"),
    "C19": dict(
        bounds="every sequence of 5 (thorough 7) negotiate/challenge/authenticate calls on a level 1 and a level 3 "
               "client, each challenge with its own symbolic server challenge; two clients interleaved",
        outside="longer sequences"),
    "C20": dict(
        bounds="all six levels; domain and workstation of 0 to 1 (thorough 3) characters of any UTF-8 length; combined "
               "user names; 1 to 3 negotiations with or without a challenge and an answer in between",
        outside="longer names"),
    "C21": dict(
        bounds="every ASCII user name of 0 to 3 (thorough 5) characters, 1 character of 2-byte UTF-8; names given "
               "apart, domain and workstation of 0 to 1 (2) characters; every flag word; all levels; again in a "
               "second handshake", outside="longer names"),
    "C22": dict(
        bounds="all values of the random source; a handshake followed by a repeated answer, a second handshake, or "
               "another client; levels 0 to 3 (thorough 4, 5); every flag word",
        outside="longer histories; a failing random source",
        assume=["freshness is judged by symbolic identity: the value on the wire is the drawn bytes for every outcome "
                "of the draw"]),
    "C23": dict(
        bounds="every pair of passwords (each against a fixed one) of 0 to 1 (thorough 2) characters of UTF-8 length "
               "to 2 (4), every flag word, user and domain of one ASCII character, the same random draws; the LM "
               "rules at levels 1 to 5", outside="longer passwords; timing and memory"),
    "C24": dict(
        bounds="password and domain of 0 to 2 (thorough 3) arbitrary code points including NUL; user names of 0 to 3 "
               "ASCII characters; characters of every width at the 14-byte cut; lengths to 65535; COMPUTERNAME of 0 "
               "to 2 characters, not text, or unset; host name files of 0 to 3 (5) ASCII bytes or 2 (4) of any other "
               "byte, samples, and the open/read errors", outside="text beyond 65535 bytes; other non-ASCII host names"),
    "C25": dict(
        bounds="every flag word, server challenge, draw; target name to 1 (2) characters and 0 to 1 (2) pairs of every "
               "kind, version or none; domain or none, COMPUTERNAME or none; levels 0 to 5; target information of 4 "
               "to 6 (10) arbitrary bytes off the wire", outside="longer challenges"),
    "C26": dict(
        bounds="every structure and message, with every value of its fixed-size parts and text to 2 characters; writers "
               "that take 1 to 9 bytes per call, and writers that fail (error, zero-length write, one interruption) at "
               "every byte position, taking 1, 3 or all bytes per call",
        outside="chunk sizes that vary from call to call"),
    "C27": dict(bounds="every value of every structure, every following byte; OEM text to 2 characters",
                outside="nothing"),
    "C28": dict(
        bounds="every byte string of the structures' sizes (AV pairs to 9, lists to 12, NTLMv1 responses of 24 and 25, "
               "NTLMv2 responses to 36 and 52 bytes with concrete head, text to 6 bytes); messages with one payload of "
               "any content (text to 6, target information to 10, responses to 52 bytes) behind the header, or one "
               "descriptor anything at all within 8 to 24 bytes behind the header; all payloads at once, present or "
               "not, adjacent or overlapping by 1 or 2 bytes; well-formed lists of 0 to 2 pairs of every kind",
        outside="longer payloads", assume=["text that reads as empty and bare blobs that look like a response with "
                                           "proof are excepted by the property"]),
    "C29": dict(
        bounds="6 kinds of earlier history (none, early challenge, abandoned, complete, answered twice, late challenge, "
               "two handshakes) with a challenge of 6 flag words (thorough: every one) and symbolic server challenge "
               "and time stamp; then a handshake with every flag word, symbolic server challenge, time, clock and "
               "draws; domain or none, COMPUTERNAME or none; levels 0 to 5",
        outside="longer histories; other credentials"),
    "C30": dict(
        bounds="every flag word, key, earlier MIC and server challenge; AUTHENTICATE messages of 6 shapes, with or without "
               "key and version, texts to 2 ASCII characters; NEGOTIATE and CHALLENGE messages with names of 0 to 1 "
               "characters and 0 to 1 pairs of every kind; names of every length to 40 and boundary lengths to 8000; "
               "servers decoding a handshake of levels 3 to 5 with any such challenge", outside="longer lists"),
    "C31": dict(bounds="all eleven types, every outcome of the random source, three values each; 600 values in a row",
                outside="a failing random source"),
    "C32": dict(
        bounds="flag words with any one byte unconstrained and four patterns in the others; byte values with any one byte "
               "unconstrained; text of 0 to 2 (thorough 3) characters of any UTF-8 length; messages with each field and "
               "each kind of pair in turn, one unconstrained byte each",
        outside="flag words with more unconstrained bytes at once; other text in debug form"),
    "C33": dict(
        bounds="every two values of every fixed-size structure; texts to 1 (thorough 2) characters of any UTF-8 length; "
               "every two pairs with text to 1 character; lists of 0 to 2 pairs; responses of every kind; messages with "
               "names to 1 character and 0 to 1 pairs, against the same with any one part replaced by anything",
        outside="longer text and lists"),
}

# Besides the above: swept sizes and long histories of concrete shape, with flags, challenges, draws, clock symbolic.
SIZES = ("; swept sizes (repetitive text, symbolic rest): every length of text to 40 characters, each 8 and 16 bit "
         "boundary to 65535 bytes, lists of every length to 40 and of up to 257 (thorough 1000) pairs")
PAST = ("; long histories of fixed content before the message looked at: 600 negotiations, 260 handshakes with 260 "
        "servers or one, 260 answers to one challenge, 260 unasked-for challenges, 260 abandoned handshakes, the same "
        "challenge before, a 3000-character challenge")
NUL = "; texts of credentials and OEM names include NUL"
for _p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C14 C15 C16 C17 C18 C20 C21 C23 C24 C25 C26 C28 C30 C32 C33".split():
    PLAN[_p]["bounds"] += SIZES
for _p in "C14 C15 C16 C17 C18 C19 C20 C21 C22 C24 C25 C29".split():
    PLAN[_p]["bounds"] += PAST
for _p in "C02 C14 C15 C16 C17 C20 C21 C23 C24".split():
    PLAN[_p]["bounds"] += NUL
