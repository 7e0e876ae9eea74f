#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSONL is awkward to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

M = "src/core/matter/mod.rs"; MT = "src/core/matter/tables.rs"
I = "src/core/indexer/mod.rs"; IT = "src/core/indexer/tables.rs"
C = "src/core/counter/mod.rs"; CT = "src/core/counter/tables.rs"; U = "src/core/util.rs"

p("C01", "Every non-indexed primitive round-trips in text and binary",
  "For every CESR code of the non-indexed code table and every raw value the code can carry, qualifying the primitive yields exactly the text (qb64/qb64b) and binary (qb2) encodings the CESR specification prescribes - code, size field, lead bytes, zero pad bits - the binary form being the Base64 decoding of the text form, and parsing any of the three forms gives back the same code, raw bytes and size. Variable-length material of every length up to the format limit chooses the code variant (lead size, small or large size field) and size field from the raw length alone; raw material beyond what a fixed-size code carries is truncated, too little is an error, and the reported full size is always the length of the text form. An object whose parts were set one by one encodes exactly when its raw material fits its code and size, and is an error otherwise.",
  ["inputs"], "all codes of the table x all raw byte strings (all lengths, incl. the 4095/4096-quadlet promotion point and the 64^4-quadlet limit) x all construction routes",
  "The existing tests pin a few literal vectors and a single length per code; the claim ranges over all codes, bytes, lengths and pairs of encode/decode routes.",
  [M, MT, U], [("new_with_code_and_raw", M), ("infil/binfil/exfil/bexfil", M), ("sizage/hardage/bardage/raw_size tables", MT), ("b64 integer conversions", U)],
  observe=["Matter::new, qb64, qb64b, qb2, full_size on every primitive type and on a bare Matter implementation"])

p("C02", "Parsing of non-indexed primitives accepts canonical encodings only",
  "For arbitrary text or bytes, the parser of non-indexed primitives either returns an error or a primitive whose own encoding is byte-for-byte the leading full-size part of the input: short material, unknown codes, characters outside the URL-safe Base64 alphabet (including '=' padding), and non-zero pad bits or lead bytes are all rejected. Input after the primitive is ignored, and every canonical encoding is accepted. No input makes the parser panic.",
  ["inputs"], "all strings and byte strings, in particular every single- and multi-symbol mutation, truncation and extension of valid encodings",
  "Tests try a handful of malformed literals; the set of near-miss inputs per code is combinatorial, and a parser that is too lax still passes every positive test.",
  [M, MT, U], [("exfil/bexfil checks", M), ("hardage/bardage", MT)],
  observe=["Matter::new with qb64 / qb64b / qb2"])

p("C03", "Every indexed signature round-trips in text and binary with its indices",
  "For every indexed code, every raw signature of its size and every index and other-index the code can carry, qualifying yields exactly the CESR text and binary encodings (code, both index fields, pad) and parsing any form returns the same code, raw, index and other-index (the other-index equals the index for single-index codes and is zero for current-list-only codes). Indices beyond the code's field width, an other-index where the code forbids one or a mismatching other-index for a single-index code are rejected at construction; full size is the length of the text form. An object whose parts were set one by one encodes exactly when its raw material and indices fit its code, and is an error otherwise.",
  ["inputs"], "all indexed codes x index/ondex pairs incl. field-width boundaries 63/64, 4095/4096, 262143/262144 x raw bytes x text/binary/bytes routes",
  "The tests use a few fixed (code,index) literals; off-by-one widths, swapped fields and text/binary disagreement only show at other index values and codes.",
  [I, IT, U], [("new_with_code_and_raw range checks", I), ("infil/binfil/exfil/bexfil", I), ("sizage/CurrentSigCodex/BothSigCodex", IT)],
  observe=["Siger and a bare Indexer implementation: new, qb64, qb64b, qb2, index, ondex, full_size"])

p("C04", "Parsing of indexed signatures accepts canonical encodings only",
  "For arbitrary text or bytes the indexed-signature parser either errors or returns a primitive whose own encoding is exactly the leading full-size part of the input; truncated material, unknown codes, foreign characters (including '='), non-zero pad bits or lead bytes, and a non-zero other-index in a current-list-only code are rejected. Trailing input is ignored, every canonical encoding is accepted, and no input panics.",
  ["inputs"], "all strings and byte strings around the valid encodings of every indexed code",
  "Only a few malformed literals are tested; near-miss inputs per code and position are combinatorial.",
  [I, IT, U], [("exfil/bexfil checks", I), ("hardage/bardage", IT)],
  observe=["Indexer::new with qb64 / qb64b / qb2"])

p("C05", "Count codes round-trip with exact limits, and version codes are exact",
  "For every count code and every count its field can carry, the text, bytes and binary encodings are exactly the CESR ones, agree with each other, have the reported full size, and parse back to the same code and count from any of the three forms with trailing input ignored; counts above the field limit (given as a number or as Base64 text) are rejected and unknown, truncated or foreign-character input is an error, never a panic. Semantic-version triples with parts 0..63 map injectively to their three Base64 digits (missing or empty parts are 0) and anything else is rejected.",
  ["inputs"], "all count codes x all counts 0..64^n-1 and beyond x arbitrary text/bytes; all version strings",
  "Tests pin literals; the counts around powers of 64 and the large five-digit field are barely touched.",
  [C, CT, U], [("new_with_code_and_count / exfil / bexfil", C), ("sizage/hardage/bardage", CT), ("u32_to_b64 / b64_to_u32", U)],
  observe=["Counter constructors, qb64, qb64b, qb2, count_as_b64, full_size, sem_ver_*"])

p("C06", "Concatenated primitives form a self-framing, composable stream",
  "For any sequence of count codes, non-indexed primitives and indexed signatures, the concatenation of their text encodings converted as a whole to binary equals the concatenation of their binary encodings and vice versa (every primitive sits on a 24-bit boundary). Parsing such a stream front to back in either domain, advancing by each parsed primitive's full size, recovers exactly the original sequence, whatever follows it.",
  ["inputs", "histories"], "all sequences of primitives of all three kinds, both domains, arbitrary trailing bytes",
  "No test concatenates primitives; composability is a property of sequences, not of one primitive.",
  [M, I, C, U], [("full_size", "Matter/Indexer/Counter"), ("24-bit aligned encodings", "infil/binfil")],
  observe=["sequential parsing of concatenated qb64 / qb2 streams"])

p("C07", "Signing with a key yields signatures the matching public key verifies",
  "For every supported signature suite (Ed25519, secp256k1, secp256r1), every valid seed - given or freshly generated - and every message, the signer's indexed and unindexed signatures verify under the signer's public key, which is the suite's standard public key of that seed with the code saying its transferability, and under that key re-parsed from its encoding; another, independent implementation of the same suite accepts the signature too. The signature primitive carries the code prescribed by suite, current-list-only flag and indices (small form only when both indices are equal and below 64, big form otherwise, current-only form without other-index), the given indices, and that public key; reloading a signer from any encoding of its seed gives an equal signer.",
  ["inputs"], "seeds x suites x transferability x messages of all lengths x (only, index, ondex) combinations incl. 63/64 and 4095/4096",
  "Tests sign one or two fixed messages with few index values; code selection and key derivation vary over all combinations.",
  ["src/core/signer.rs", "src/core/verfer.rs", "src/core/cigar.rs", "src/core/siger.rs", "src/crypto/sign.rs"],
  [("sign_unindexed/sign_indexed code selection", "src/core/signer.rs"), ("derive_verfer", "src/core/signer.rs"), ("suite dispatch", "src/crypto/sign.rs")],
  observe=["Signer::new*, sign_unindexed, sign_indexed, verfer; Verfer::verify"])

p("C08", "Verification never accepts an altered message, signature or key",
  "A signature never verifies for any other message, after any bit of it is changed, under any other public key, or under another suite: verification then answers false or an error and never panics, for signatures and keys of any length or content (the one other form that counts as the same signature is the mirror (r, n-s) of a secp256r1 signature, which that suite accepts by definition; the other suites have one form only). A public key admits verification identically whichever encoding it was loaded from.",
  ["inputs"], "all (key, message, signature) triples differing from a genuine one, incl. single-bit flips, truncations, extensions, prefix-related messages, cross-suite and degenerate inputs",
  "Tests show one rejected signature per suite; soundness quantifies over all alterations, including messages that differ only at the end or in length.",
  ["src/core/verfer.rs", "src/crypto/sign.rs"], [("verify", "src/core/verfer.rs"), ("per-suite verify", "src/crypto/sign.rs")],
  observe=["Verfer::verify"])

p("C09", "Salt stretching and hierarchical key derivation are deterministic",
  "For every 128-bit salt, path, tier and size, stretching yields exactly Argon2id (version 1.3, one lane, password = path, salt = salt) with the memory/time cost of the tier - low 65536 KiB/2, medium 262144/3, high 1048576/4, temporary 8/1 - and unknown tiers are errors; an explicitly given tier overrides the salter's own. A derived signer is the signer whose seed is the stretch of exactly the seed size, and the i-th of a batch of derived signers equals the single derivation at path followed by the lower-case hex of (start+i); derivation depends on nothing else, and freshly created salts are distinct, round-trip through every encoding and keep their tier.",
  ["inputs"], "salts x paths x tiers x sizes x codes x transferability x (count, start)",
  "Tests pin one vector per tier at one path; parameter and path mix-ups elsewhere (start offsets, hex rollover at 16, tier override) are invisible to them.",
  ["src/core/salter.rs", "src/crypto/salt.rs", "src/crypto/csprng.rs"], [("stretch/signer/signers", "src/core/salter.rs"), ("tier parameters", "src/crypto/salt.rs")],
  observe=["Salter::stretch, signer, signers, tier"])

p("C10", "Digests are those of the named algorithm, and verify exactly their data",
  "For each of the nine digest codes and data of every length, the digest primitive holds exactly the digest the code names, verifies that data and no other data, and re-parses from its encodings to an equal primitive. Comparing two digests of the same data answers true when both are genuine digests of it, whatever their algorithms, or when they are identical; it answers false when they share an algorithm but differ, or when either is not a digest of the data.",
  ["inputs"], "digest codes x data of all lengths incl. hash block and chunk boundaries x pairs of digests",
  "One literal per algorithm on 3-byte inputs; block-boundary, truncation and algorithm-swap errors elsewhere are not reached.",
  ["src/core/diger.rs", "src/crypto/hash.rs"], [("digest", "src/crypto/hash.rs"), ("verify/compare", "src/core/diger.rs")],
  observe=["Diger::new_with_ser, verify, compare"])

p("C11", "Self-addressing identifiers bind exactly the content of a document",
  "For every JSON-like document with an identifier field, any digest code, label and set of ignored fields, saidifying gives the digest of the document's compact serialization in which the identifier field is a run of '#' of the identifier's length, the version string (if any) states the actual serialized size, and ignored fields are left out; it returns the same document, field order kept, with only the identifier and version size filled in. The identifier verifies against that document and is independent of the identifier field's previous value; saidifying is idempotent, verification fails after any change to any other non-ignored field, its name, its order, its presence or (unless version checking is off) its version string, and in prefixed mode also when the identifier field differs.",
  ["inputs"], "documents of any nesting x labels x 9 codes x ignore sets x single-point edits",
  "Tests use one or two literal documents; dropping a field, a wrong label or ignoring size would go unnoticed for other shapes.",
  ["src/core/saider.rs", "src/core/common.rs", "src/data.rs"], [("derive/saidify/verify", "src/core/saider.rs"), ("sizeify", "src/core/common.rs"), ("to_json", "src/data.rs")],
  observe=["Saider::saidify, verify, new_with_sad"])

p("C12", "An identifier prefix is bound to its inception event",
  "For every inception event (icp, dip or vcp) and every allowed derivation code, deriving a prefix gives the single public key of the event for basic codes (with no next keys, witnesses or anchors for non-transferable ones) and for digest codes the digest of the event serialized with its identifier and SAID fields filled with '#'; it verifies against that event. Verification fails when the key, any field of a digest-derived event, or - in prefixed mode - the identifier field differs; non-inception events, disallowed codes, several keys and key/code mismatches are rejected.",
  ["inputs"], "inception events x 15 prefix codes x single-field edits x prefixed flag x allow lists",
  "Tests use a few literal events; binding must hold for every field of every event and every code.",
  ["src/core/prefixer.rs", "src/core/common.rs"], [("derive_*/verify_*", "src/core/prefixer.rs"), ("sizeify", "src/core/common.rs")],
  observe=["Prefixer::new_with_ked, verify"])

p("C13", "A signing threshold is satisfied exactly when the rule says so",
  "A numeric threshold n is satisfied by a list of key indices exactly when n is positive and the list holds at least n distinct indices; a weighted threshold exactly when in every clause the exact rational sum of the weights at the given indices (clauses numbered consecutively) is at least 1. The answer does not depend on order or repetition of indices, indices beyond the weights never count, adding indices never turns a satisfied threshold unsatisfied, and the answer is the same whichever representation (expression, JSON text, compact encoding) the threshold was loaded from.",
  ["inputs"], "numeric thresholds x weighted clause lists with arbitrary fractions (incl. large coprime denominators) x index lists with repeats, any order, out-of-range",
  "Tests probe a few literal index lists; satisfaction is a boolean function over subsets, with rational arithmetic whose rounding or overflow shows only for unusual weights.",
  ["src/core/tholder.rs"], [("satisfy_numeric/satisfy_weighted", "src/core/tholder.rs"), ("values_to_rationals", "src/core/tholder.rs")],
  observe=["Tholder::satisfy"])

p("C14", "Threshold expressions convert losslessly and malformed ones are refused",
  "Every well-formed threshold - an integer, a hex string, a list of fraction strings, a list of such lists, or the JSON text of one - gives the same normalized value (fractions in lowest terms), size, weighted flag, expression and compact encoding as reloading from its own normalized value, its expression, its JSON or its compact encoding. Negative or non-integer counts, empty lists, weights outside [0,1] or not of the form integer or a/b (incl. zero denominators and extra slashes), and clauses whose weights sum below 1 are errors, never panics.",
  ["inputs"], "all threshold expressions, well- and ill-formed, x all representation conversions",
  "Tests list literals; conversions between four representations must agree for every expression.",
  ["src/core/tholder.rs", "src/core/bexter.rs", "src/core/number.rs"], [("process_sith/process_limen/process_thold", "src/core/tholder.rs"), ("rationals_to_bext", "src/core/tholder.rs")],
  observe=["Tholder::new*, sith, thold, limen, num, size, to_json"])

p("C15", "Numbers and sequence numbers are exact over the whole 128-bit range",
  "For every 128-bit unsigned value, given as a number or in hex, the number primitive uses the smallest of the four numeric codes that holds it and the sequence-number primitive the 16-byte code; value, lower-case hex, positivity and raw big-endian bytes are exact and survive every encoding. Hex text that is not a 128-bit value is an error.",
  ["inputs"], "all u128 values incl. code boundaries 2^16, 2^32, 2^64 +-1, 2^128-1; arbitrary hex strings",
  "Tests check a handful of values; width selection and byte order must hold at every boundary.",
  ["src/core/number.rs", "src/core/seqner.rs"], [("Number::new width selection, num", "src/core/number.rs"), ("sn", "src/core/seqner.rs")],
  observe=["Number, Seqner constructors and num/numh/positive, sn/snh, qb64/qb2"])

p("C16", "Base64 text and date-times are carried by primitives without loss",
  "Every URL-safe Base64 text that the format can represent (all but those of length divisible by four that start with 'A') becomes a primitive of the right lead-size code that gives back exactly that text, from any encoding; text outside the alphabet is an error. Every 32-character ISO-8601 date-time with microseconds and UTC offset becomes a date-time primitive that gives back exactly that string from any encoding, strings of any other length below 32 are errors, and the default date-time is the current UTC time in that form.",
  ["inputs"], "all Base64 texts of all lengths mod 4; all date-time strings",
  "A few literals per length are tested; the wad/lead arithmetic depends on length mod 4 and leading characters.",
  ["src/core/bexter.rs", "src/core/dater.rs"], [("rawify/bext", "src/core/bexter.rs"), ("iso_8601_to_b64/b64_to_iso_8601", "src/core/dater.rs")],
  observe=["Bexter::new_with_bext, bext; Dater::new_with_dts, dts, dtsb"])

p("C17", "SAD paths resolve, extend and strip like the path lists they stand for",
  "A path primitive built from a list of labels or indices gives back that list and its dash-separated text, from any encoding, and resolving it walks the document: a label selects a field, a number the element at that position of a list or of an object's fields, anything missing or out of range is an error. Prepending a root concatenates lists; stripping a root removes it from the front if the path begins with it and otherwise leaves the path unchanged, so strip undoes root; a path starts with another exactly when the other's list is a component-wise prefix; the tail of a resolved path is the JSON of a container or the string itself only if that is a valid SAID.",
  ["inputs"], "documents x component lists incl. repeated components, components that are string-prefixes of others, numeric components on objects",
  "Tests use short literal paths without repeats; list semantics must hold for every path pair and document.",
  ["src/core/pather.rs", "src/core/bexter.rs"], [("_resolve/root/strip/starts_with/tail/bextify", "src/core/pather.rs")],
  observe=["Pather::new_with_path, path, bext, resolve, root, strip, starts_with, tail"])

p("C18", "Document values convert to and from JSON without changing content or order",
  "Parsing any JSON text (integers within 64-bit signed range, floats, strings of any Unicode content, nested arrays and objects) into a document value and serializing it gives the compact JSON of the same content with object fields in their original order, byte-identical to the reference JSON serializer, and parsing that again gives an equal value. Typed accessors return exactly the stored value or an error when the kind differs - never a coerced value - and indexing and the literal macro address the same elements.",
  ["inputs"], "all JSON documents: nesting, key order, escapes, surrogates, number forms incl. exponents and extremes",
  "Tests convert a few small literals; escaping, exponents, number extremes and order need arbitrary documents.",
  ["src/data.rs"], [("to_json / From<&serde_json::Value> / to_* accessors / TryFrom", "src/data.rs")],
  observe=["Value::from, to_json, Display, to_*, TryFrom, Index"])

p("C19", "Version strings round-trip and always state the true serialized size",
  "For every protocol identifier, version digit pair and size below 2^24 the version string is 17 characters of the fixed grammar and parses back to the same fields; identifiers, serialization kinds, versions or sizes outside their domain, and strings not of the grammar, are errors. Sizing a document that begins with a version string yields serialized bytes whose length equals the size stated in them and in the returned document, changing nothing else; sniffing any serialized document, whatever follows it, reports the same identifier, kind, version and size, and sniffing input that is too short or has no version string near its start is an error.",
  ["inputs"], "idents x versions x sizes incl. 0, 15/16, 0xffffff, 0x1000000; documents of all sizes; arbitrary strings and trailing bytes",
  "Tests use fixed strings; size arithmetic and field parsing must hold over the whole domain.",
  ["src/core/common.rs"], [("versify/deversify/sizeify/sniff", "src/core/common.rs")],
  observe=["common::versify, deversify, sizeify, sniff"])

p("C20", "Event and credential objects agree with their serialized form",
  "Building an event or credential object from a document gives serialized bytes that parse back to the document (version size updated), its reported size is their length, its SAID is the document's, and rebuilding from those bytes followed by any text gives an equal object. Declared sizes larger than the input, wrong protocol identifiers, unsupported versions and SAIDs of an unexpected code are errors. Accessors (keys, next digests, witnesses, thresholds, sequence and first-seen numbers, prefix, establishment flag; issuer, schema, subject, status, chains) return exactly what the document's fields say, in order.",
  ["inputs"], "KERI events and ACDC credentials of all shapes x trailing text x truncations",
  "Tests use three literal events; accessor/field agreement and framing must hold for all documents.",
  ["src/core/serder.rs", "src/core/creder.rs", "src/core/sadder.rs", "src/core/common.rs"],
  [("populate_from_raw/populate_from_ked", "src/core/sadder.rs"), ("accessors", "src/core/serder.rs"), ("accessors", "src/core/creder.rs")],
  observe=["Serder, Creder constructors and accessors"])

p("C21", "Each typed primitive admits only material of its own kind",
  "Through every construction route (raw with code, text, bytes, binary), each typed primitive - key, seed, salt, signature, indexed signature, digest, SAID, prefix, number, sequence number, date-time, Base64 text, path - accepts well-formed material exactly when its code belongs to that type's set of codes, and errors otherwise. The classification of a code as digest or as transferable is the same for every type that carries it.",
  ["inputs", "configurations"], "13 typed primitives x all codes of both tables x 4 routes (finite, enumerated) x random raw",
  "Tests try one wrong code on one route for some types; the full type x code x route matrix is never exercised.",
  ["src/core/verfer.rs", "src/core/signer.rs", "src/core/salter.rs", "src/core/cigar.rs", "src/core/siger.rs", "src/core/diger.rs", "src/core/saider.rs", "src/core/prefixer.rs", "src/core/number.rs", "src/core/seqner.rs", "src/core/dater.rs", "src/core/bexter.rs", "src/core/pather.rs", M],
  [("validate_code in each type", "src/core/*.rs"), ("digestive/transferable", M)],
  observe=["constructors of the typed primitives; digestive(), transferable()"])

p("C22", "Fallible operations report malformed input as errors and never panic",
  "Every constructor and operation of the library that can report failure returns a value or an error - it never panics, overflows or aborts - for arbitrary text, bytes, JSON documents with missing, extra or wrongly typed fields, threshold and path expressions, indices, sizes and any combination of optional arguments. A failure leaves nothing half-built: an operation that errors on one input has no effect on any later call.",
  ["inputs", "histories"], "all operations x arbitrary arguments, incl. structurally valid documents with one field removed, retyped or replaced",
  "Tests list a few bad inputs per function; panics hide in the inputs nobody listed.",
  ["src/core", "src/data.rs", "src/crypto"], [("input validation throughout", "src/core/*.rs")],
  observe=["all public fallible operations"])

p("C23", "Dropping a secret-bearing object erases its secret from memory",
  "When a signer or a salter, created by any route or cloned, is dropped, the memory it releases no longer contains its seed or salt bytes. This holds for every suite, seed and order of drops, and never disturbs the clones that are still alive.",
  ["inputs", "histories"], "suites x seeds x construction routes x clone/drop sequences",
  "No test looks at freed memory; erasure is invisible to value-level assertions.",
  ["src/core/signer.rs", "src/core/salter.rs"], [("ZeroizeOnDrop", "src/core/signer.rs, src/core/salter.rs")],
  observe=["freed heap blocks during drop (allocator in the harness)"])

p("C24", "The JavaScript bindings give the same answers as the core library",
  "For all inputs, an object built through the binding layer exposes exactly the code, raw, sizes, encodings and type-specific values of the core object built from the same arguments, operations take their arguments in the documented order, and 128-bit numbers and documents cross the boundary unchanged in both directions.",
  ["inputs"], "binding classes x constructor routes x values incl. full 128-bit range",
  "The bindings have no tests at all.",
  ["wasm/src/primitives", "wasm/src/util.rs"], [("wrapper structs", "wasm/src/primitives/*.rs"), ("U128 conversion", "wasm/src/primitives/number.rs")],
  observe=["cesride-wasm wrappers, compiled natively"])

p("C25", "Fresh seeds, salts and signature nonces are full-strength and never repeat",
  "Every seed and salt the library draws - for any suite, by any constructor, in any order, thread or process - is a full-length uniformly random value: no bit of it is fixed, favoured or tied to another bit, no part of it repeats within it or between draws, threads or processes, and what one kind of secret draws shares nothing with another. No two signatures made under different keys or over different messages share their one-time nonce, in either signature form, and the nonces are themselves full-strength: uniformly distributed, never small, and not computable from the message.",
  ["inputs", "histories", "schedules"], "all construction routes x suites x numbers of draws x threads and processes; keys x near-identical messages x signature forms",
  "A test sees one value and cannot tell a random one from a weak one; repetition and bias show only over many draws, threads and processes.",
  ["src/crypto/csprng.rs", "src/crypto/sign.rs", "src/core/signer.rs", "src/core/salter.rs"],
  [("random bytes", "src/crypto/csprng.rs"), ("key generation and randomised signing", "src/crypto/sign.rs"), ("fresh seed / salt", "src/core/signer.rs, src/core/salter.rs")],
  observe=["raw() of fresh signers and salters; nonces worked out from signatures under a known key"])

p("C26", "Results depend on the arguments alone",
  "Apart from freshly drawn secrets, signature randomness and the present time, every operation gives the same result - value or error - for the same arguments whatever the process did before, whatever other threads are doing, and whatever the environment (time zone, locale, working directory, variables) is. In particular a call made after or beside calls whose arguments differ from its own in a single detail (another tier, code, label, index, byte of the message, field of the document) gives what it gives as the only call of a fresh process.",
  ["histories", "schedules", "inputs"], "all public fallible operations x near-identical argument groups x orders x concurrent threads x environments",
  "Tests call each operation once or with unrelated arguments, in one process; results remembered or shared too coarsely show only between close neighbours.",
  ["src/core", "src/data.rs", "src/crypto"], [("every operation is a function of its arguments and the object it is called on", "src/core/*.rs")],
  observe=["all public fallible operations, each in a fresh process and in a long-lived one"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
