#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": mech, "where": ", ".join(files[:3])}],
         "observe_at": [observe], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": files[0]} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

M="src/cesr/core/matter/mod.rs"; MT="src/cesr/core/matter/tables.rs"; U="src/cesr/core/util.rs"
IX="src/cesr/core/indexer/mod.rs"; IXT="src/cesr/core/indexer/tables.rs"
CT="src/cesr/core/counter/mod.rs"; CTT="src/cesr/core/counter/tables.rs"
C="src/cesr/core/"

p("C01","Primitives round-trip through text, text bytes and binary unchanged",
  "Any primitive built from a defined derivation code and raw material of an allowed length encodes to qualified text, text bytes and binary forms that each decode back to the same code, size and raw bytes. The encoding is the one the CESR code tables prescribe (code, soft size, lead or pad, payload), the text bytes equal the text, the binary form is exactly the base64url decoding of the text, and the reported full size equals the text length. For variable-length material the code is promoted to the matching lead-size and small/large variant for the payload length; missing raw material is refused and surplus raw material beyond a fixed size is ignored.",
  ["inputs"],"every defined code, every payload length around size boundaries (including the small/large switch at 4096 quadlets), every payload content, all construction routes",
  "The tests encode a handful of hard-coded values per code; the guarantee ranges over every code, payload and length, where pad/lead arithmetic and the base64 size field have many corners.",
  [M,MT,U],"construction from code and raw, encoding to and decoding from the text and binary domains","the public constructors and the text, text-bytes, binary, code, size, raw and full-size accessors",
  [("code/size/raw","the triple every form must reproduce")])
p("C02","Decoding a primitive is strict: only its canonical encoding is accepted",
  "Whenever decoding text or binary as a primitive succeeds, re-encoding the result reproduces exactly the consumed prefix of the input, byte for byte, and bytes after that prefix have no influence on the result. Unknown or non-primitive code starts, characters outside the base64url alphabet, base64 padding characters, set pad or lead bits and truncated material are all refused, and every canonical encoding of a defined code is accepted.",
  ["inputs"],"every text or byte string: canonical encodings, single and multiple mutations of them, truncations, extensions, arbitrary bytes",
  "Tests try a few malformed strings; a parser that quietly accepts a second encoding of the same value, or material of the wrong length, is only visible over the whole input space.",
  [M,MT,U],"extraction from text and binary","decode result versus re-encoding of it")
p("C03","Streams of primitives are self-framing and convert en bloc between domains",
  "A concatenation of encoded primitives, indexed signatures and count codes can be parsed sequentially, each element reporting exactly its own length, recovering the same sequence of values in both the text and the binary domain. Every element is aligned (text length a multiple of 4, binary a multiple of 3), so converting the whole text stream to binary or back gives exactly the concatenation of the individually converted elements.",
  ["inputs","histories"],"every sequence of elements of any mix of codes, counts, indices and payloads",
  "Tests only ever look at one primitive at a time, never at a stream, yet stream composability is the reason CESR exists.",
  [M,IX,CT,MT,IXT,CTT],"alignment of every code table entry and of lead/pad arithmetic","sequential parse of concatenated streams in both domains")
p("C04","Indexed signatures round-trip with both indices intact",
  "An indexed signature built from a code, raw material and in-range main and other indices encodes to text, text bytes and binary forms that each decode to the same code, raw bytes, index and other index, and the encodings are those the CESR indexed code tables prescribe. Indices that do not fit the code, an other index supplied for a current-list-only code, a mismatching other index for a code that carries a single index, and short raw material are refused rather than truncated.",
  ["inputs"],"every indexed code, every pair of indices up to and beyond each code's limit, every payload",
  "Tests cover a few index values per code; overflow and base64 boundary indices are a product space.",
  [IX,IXT,U,C+"siger.rs"],"indexed construction, index range checks, encoding and decoding","public constructors and the code, raw, index, other-index, text and binary accessors")
p("C05","Decoding an indexed signature is strict",
  "Whenever decoding text or binary as an indexed signature succeeds, re-encoding reproduces exactly the consumed prefix, trailing bytes have no influence, and both domains give the same answer. Unknown codes, non-alphabet or padding characters, set pad or lead bits, a nonzero other index in a current-list-only code and truncated input are refused, while every canonical encoding is accepted.",
  ["inputs"],"every text or byte string, including single-bit and single-character mutations of canonical encodings",
  "The existing tests try a few malformed strings only.",
  [IX,IXT,U],"indexed extraction from text and binary","decode result versus re-encoding of it")
p("C06","Count codes carry their exact count and nothing else",
  "A count code built from any defined code and any count that fits encodes to text and binary that both decode to the same code and count, following the CESR counter tables. Counts that do not fit (given as a number or as base64 text) and unknown codes are refused, decoding consumes exactly the code's size and accepts only canonical prefixes, and a semantic version is turned into one base64 digit per part or refused when a part is out of range.",
  ["inputs"],"every counter code, every count up to and beyond its limit, every version string, arbitrary text and bytes",
  "Tests check a few counts per code; boundary counts and malformed input form an unbounded space.",
  [CT,CTT,U],"count encoding, extraction and range checks","public counter constructors and accessors")
p("C07","Hostile input yields a value or an error, never a crash",
  "For any input of reasonable size, text, bytes, JSON or argument combination, every public parser, constructor, accessor and verifier returns a value or an error in bounded time. None of them panics, overflows, aborts, exhausts the stack or loops. (Assigning through an index of a JSON value at a place that does not exist panics by convention and is not meant.)",
  ["inputs"],"arbitrary, truncated, mutated and non-ASCII text; arbitrary bytes; syntactically valid JSON of any shape; all entry points and the accessors of whatever was accepted",
  "Panics on unusual input are exactly what example-based tests do not sample: each needs one particular shape of bad input.",
  [M,IX,CT,C+"common.rs",C+"sadder.rs",C+"serder.rs",C+"creder.rs",C+"tholder.rs","src/pathing/pather.rs","src/prefexing/prefixer.rs","src/data.rs",C+"saider.rs"],
  "bounds handling and error propagation at every entry point","every public call, with panics, aborts and CPU time observed from outside the library")
p("C08","Only a genuine signature by the matching key verifies",
  "A signature made by a signer over a message verifies with that signer's public key over that message, for every supported curve and whether or not it is indexed or travels through its text or binary form. Verification does not succeed for a different message, a different key, a different curve, or a signature with any altered, truncated or extended bytes (beyond the sign symmetry (r, n-s) inherent to ECDSA), and each signature made is accepted by a reference implementation of the same algorithm.",
  ["inputs"],"every seed, message (including empty and long), curve, transferability, index; every single-bit alteration of message, key and signature",
  "Tests verify a few fixed pairs; soundness is a statement about all other messages, keys and signatures.",
  [C+"verfer.rs","src/signing/signer.rs","src/cesr/crypto/sign.rs",C+"cigar.rs",C+"siger.rs"],"signing and verification dispatch per curve","verification verdicts, cross-checked against reference crypto implementations")
p("C09","Keys and signature codes reflect curve, transferability and list position",
  "A signer's public key is the standard public key of its seed, with the code for its curve and requested transferability; that transferability is what the key reports. Signatures carry the unindexed or indexed code of that curve: the compact indexed code exactly when the indices fit and agree, the large one otherwise, and the current-only variant exactly when requested, with the given index and other index (defaulting to the index) and with the signer's public key attached; indices that no code can carry are refused.",
  ["inputs","configurations"],"every seed code, transferability flag, index and other index, and both signature kinds, including indices around 64 and 4096",
  "The choice of code depends on several flags and thresholds jointly; tests fix most of them.",
  ["src/signing/signer.rs","src/cesr/crypto/sign.rs",C+"siger.rs",C+"cigar.rs",M],"public-key derivation and code selection","codes, indices and attached keys of produced keys and signatures")
p("C10","Digests are the named algorithm's and match only their own content",
  "For every digest code the digest of any content equals that of the standard algorithm the code names. Checking a digest against content succeeds exactly when the content is what was digested, and comparing two digests over content reports a match exactly when both are the same digest or both are valid digests of that content under different algorithms. Exactly the digest codes are reported as digests.",
  ["inputs"],"all nine digest codes, contents of every length class including block boundaries and empty, altered contents, all pairs of codes",
  "Tests digest a few short strings; algorithm mix-ups and comparison shortcuts need specific code pairs and contents.",
  [C+"diger.rs","src/cesr/crypto/hash.rs"],"digest dispatch, verification and comparison","digest bytes and verdicts versus reference hash implementations")
p("C11","A self-addressing identifier binds exactly the content it was made from",
  "Giving a document a self-addressing identifier replaces only the identifier field (and the size in a version field), and the identifier equals the named digest of the compact serialization with the identifier field replaced by equal-length filler and ignored fields left out. Verification of the identifier then succeeds; it fails after any change to a field name, a field value, or field order that is not ignored, when strict checks are asked for and the embedded identifier or version size differs, and with a wrong identifier. Repeating the operation gives the same result.",
  ["inputs"],"documents of any shape and nesting, all digest codes, any identifier label, with and without version field, with and without ignored fields, every single-point mutation",
  "Tests use a few documents and one or two mutations; binding is universally quantified over documents and alterations.",
  [C+"saider.rs",C+"common.rs","src/cesr/crypto/hash.rs"],"dummy substitution, serialization, digest and comparison","identifier, rewritten document and verification verdicts versus an independent computation")
p("C12","Version strings encode protocol, version, kind and true size",
  "Formatting and parsing a version string are inverse for every protocol identifier, single-digit version and size that fits, only exactly formed version strings are accepted, and values that do not fit are refused. Sizing a document sets the size field to the exact length of its compact serialization, changes nothing else, and refuses unsupported versions or a version field that is not at the start; sniffing the serialization (at least 29 bytes, with the version string starting within its first 12), with anything appended, reports the same protocol, kind, version and size.",
  ["inputs"],"every identifier, version, kind and size; every malformed or embedded version string; documents of any shape",
  "Tests check a few strings; digit boundaries, surrounding garbage and document shapes are unbounded.",
  [C+"common.rs"],"version string formatting, parsing, sizing and sniffing","results of the four public version-string operations")
p("C13","Event and credential messages keep raw bytes, fields and size in agreement",
  "A message built from fields has a raw form that is its compact serialization with an exact size, and reading that raw form back, with any bytes appended, yields the same fields, protocol, kind, version, size and identifier. Reading consumes exactly the declared size; messages that are shorter than declared, of the wrong protocol for the message type, of an unsupported version, of a different digest code than expected, or without an identifier field are refused. The pretty form is the indented JSON of the fields, cut to the requested number of characters.",
  ["inputs"],"all documents, all appended bytes (including binary attachments), all truncations, all protocol/version/size combinations",
  "Tests read back a few messages they wrote; framing errors need appended, truncated or mis-declared input.",
  [C+"sadder.rs",C+"serder.rs",C+"creder.rs",C+"common.rs"],"inhale/exhale of serialized messages","raw, field map, size, version, kind, protocol and identifier accessors")
p("C14","An identifier prefix is derived from and verifies only its own inception",
  "A prefix derived from an inception document is the document's single public key for key-based codes, or the named digest of the document with identifier and prefix filled with dummies for digest-based codes, and it verifies against that document. Derivation refuses non-inception documents, codes outside the allowed list or not matching the key, multiple keys, and non-transferable keys with next-key commitments, witnesses or anchors; verification is refused or fails when the key, any digested field, the committed next keys of a non-transferable prefix, or (when asked) the embedded prefix differs.",
  ["inputs"],"inception documents of all three kinds, all fifteen prefix codes, any field mutation, allow-lists",
  "Tests use hand-picked events per code; binding to every field and refusal of every wrong combination is a product space.",
  ["src/prefexing/prefixer.rs","src/cesr/crypto/hash.rs",C+"common.rs"],"prefix derivation and verification per code","derived prefix and verdicts versus independent derivation")
p("C15","Signing thresholds are satisfied exactly when the signers suffice",
  "A numeric threshold is satisfied exactly when it is positive and at least that many distinct indices are given. A weighted threshold is satisfied exactly when, in every clause, the exact rational sum of the weights at the given indices is at least one. Order and repetition of indices do not matter, indices beyond the list never help satisfy a threshold, and adding a further valid index never turns satisfied into unsatisfied.",
  ["inputs"],"all numeric and weighted thresholds (any number of clauses, any fractions), all index lists including repeated, unordered and out-of-range ones",
  "Tests evaluate a few thresholds on a few index sets; exact arithmetic and index bookkeeping across clauses range over a combinatorial space.",
  [C+"tholder.rs"],"satisfaction of numeric and weighted thresholds","satisfaction verdict versus an exact-arithmetic reference",[("weights","clauses of rational weights, indexed consecutively across clauses")])
p("C16","All threshold notations denote the same threshold",
  "A threshold given in any notation (integer, hexadecimal text, weight list, nested weight lists, JSON text, or its qualified encoded form) converts to every other notation and back to an equal threshold with the same size and kind. Fractions are kept in lowest terms without loss; thresholds with negative values, weights above one, clauses summing to less than one, zero denominators, non-string weights or malformed text are refused; so is one whose exact weights cannot be added in 128-bit arithmetic.",
  ["inputs"],"every threshold and notation, every malformed expression",
  "Tests convert a few examples; equivalence across notations must hold for every threshold.",
  [C+"tholder.rs",C+"bexter.rs",C+"number.rs"],"parsing and rendering of threshold notations","notation accessors after reconstruction from each other notation")
p("C17","Numbers and sequence numbers keep their value in every representation",
  "Any unsigned integer below 2^128 given as a number or hexadecimal text is represented by the smallest sufficient number code, reads back as the same integer and as its minimal lowercase hexadecimal text, and survives the raw, text, text-bytes and binary forms; it reports positive exactly when nonzero. A sequence number does the same with its single fixed code, so numeric order equals order of raw bytes, and text that is not hexadecimal or does not fit is refused (for a number, empty text reads as zero).",
  ["inputs"],"all integers below 2^128, concentrated around powers of 256; all hexadecimal spellings; malformed text",
  "Tests use a few integers; width selection and value preservation are claims about all of them.",
  [C+"number.rs",C+"seqner.rs"],"width selection and big-endian conversion","numeric, hexadecimal, code and encoded accessors")
p("C18","Timestamps survive their encoded form unchanged",
  "Every 32-character ISO-8601 timestamp with microseconds and numeric zone offset is returned unchanged from its encoded forms, in text, text bytes and binary, and distinct timestamps have distinct encodings. A timestamp of any other length is refused rather than cut or padded, and a default timestamp is the current time in that format.",
  ["inputs"],"all dates, times, microseconds and positive or negative offsets; strings of other lengths",
  "Tests use three fixed timestamps.",
  [C+"dater.rs"],"character mapping between ISO-8601 and base64","timestamp accessors after each encoded form")
p("C19","Base64 text primitives return the text they were given",
  "Any base64url text is returned exactly by the text primitive built from it and by that primitive rebuilt from its raw, text, text-bytes or binary form, except text that begins with 'A' and whose length is a multiple of four, for which exactly one leading 'A' is dropped, as the format defines. Text with any other character is refused.",
  ["inputs"],"all base64url texts of any length (including beyond the small-code limit) and any text with a foreign character",
  "Tests try a few strings of each length class; the lead-size arithmetic must be right for every length and content.",
  [C+"bexter.rs",M],"padding of text to raw and stripping on the way back","text accessor after each construction route")
p("C20","Paths resolve and compose like component lists",
  "A path built from a list of components returns that list, and resolving it in a document follows exactly those components through maps (by name, or by position for a decimal component) and arrays, giving the addressed value or an error when a component is missing or leads through a scalar; components that are empty or contain the separator are refused when building from a list. Prefixing a path with a root concatenates the lists, stripping that root again restores the path, stripping a path that does not contain the root's components leaves it unchanged, and a path starts with another exactly when its component list does. The tail of a path in a message is the text addressed, or the compact JSON of the container addressed.",
  ["inputs"],"all component lists (including repeated and numeric components) and documents of any shape",
  "Tests use three documents; duplicate components, shared name prefixes and absent roots are not sampled.",
  ["src/pathing/pather.rs",C+"bexter.rs"],"path parsing, traversal, root, strip and prefix test","resolved values and component lists versus a list-based reference")
p("C21","Structured values keep their JSON content and field order",
  "Loading any JSON document into a value and serializing it gives compact JSON with the same content: same field order, same strings after unescaping, same integers exactly (across the full signed and unsigned 64-bit range) and same floating-point numbers (finite, as the JSON library reads them). Serializing a value and loading it again gives an equal value, replacing one entry changes only that entry, and typed extraction succeeds exactly for the value's own type.",
  ["inputs"],"all JSON documents: nesting, unicode and control characters, duplicate-looking keys, extreme integers and floats",
  "Tests serialize two documents; digests over serialized values make any infidelity a security defect for some document.",
  ["src/data.rs"],"conversion between JSON and the value model","serialized text versus the JSON library's own compact form")
p("C22","Key stretching is deterministic and separates salts, paths and tiers",
  "A key derived from a salt is exactly the Argon2id output of the documented cost parameters of the security tier over the path as password and the salt, so the same salt, path, tier and code always give the same key, and any difference in salt, path or tier gives a different key. The requested tier wins over the salt's own tier, the temporary flag forces the cheapest parameters, a run of keys uses consecutive hexadecimal path suffixes from its start, and unknown tiers and unsupported key codes are refused.",
  ["inputs","configurations"],"all salts, paths, tiers, sizes, codes, counts and start offsets",
  "Tests pin a few vectors; determinism and separation are claims over all inputs.",
  [C+"salter.rs","src/cesr/crypto/salt.rs","src/signing/signer.rs"],"path construction and Argon2id parameters","derived seeds and public keys versus a reference Argon2id computation")
p("C23","Bulk key creation follows the documented path and code sequence",
  "Creating keys from a salt yields one key per requested code (or count copies of the default code), in order, each equal to the key stretched from that salt over the path made of the stem, the rotation index and the key index plus position in hexadecimal, where a configured stem takes precedence over a given one and the prefix index is used when neither exists. Transferability and the temporary flag apply to every key, and repeating the call gives the same keys.",
  ["inputs","configurations"],"all salts, stems, counts, code lists, prefix, rotation and key indices, transferability and temporary flags",
  "Tests create a few keys; path construction across all index and stem combinations is not sampled.",
  ["src/signify/creating.rs",C+"salter.rs"],"path construction for each created key","created keys versus independently computed ones")
p("C24","Freshly generated secrets never repeat and have full length",
  "Every signer or salt created without material holds fresh random material of the full size its code prescribes: no two creations, in one thread or many, yield the same secret, no byte position is constant across creations, and the generated key is valid for its curve.",
  ["histories","schedules"],"all sequences of generations across all seed codes and threads",
  "A test creates one or two keys; repetition and partially filled buffers show only over a population.",
  ["src/cesr/crypto/csprng.rs","src/cesr/crypto/sign.rs",C+"salter.rs","src/signing/signer.rs","src/signify/creating.rs"],"use of the system random source","population of generated secrets")
p("C25","Results depend only on the arguments, not on history or other threads",
  "Every deterministic operation gives the same result whatever calls preceded it and however many threads use the library at the same time, and no operation modifies the objects passed to it. A mixed workload run concurrently, and in a different order, yields for each call exactly the result of running it alone.",
  ["schedules","histories"],"all interleavings of calls from several threads and all call orders",
  "The tests run each call once in a fixed order; hidden shared state shows only under other orders and concurrency.",
  [M,C+"common.rs",C+"bexter.rs","src/pathing/pather.rs",C+"tholder.rs",C+"serder.rs","src/signing/signer.rs"],"absence of shared mutable state","result digests of a recorded call log, sequential versus shuffled and concurrent")
p("C26","Typed primitives only ever hold codes of their own kind",
  "Constructing a typed primitive (public key, signature, indexed signature, digest, identifier, salt, signer, number, sequence number, timestamp, text, path or prefix) succeeds only when the resulting code belongs to that type's list, whichever of the code-and-raw, text, text-bytes or binary routes is used; a valid encoding of any other code is refused by all of them.",
  ["inputs","configurations"],"every type, every defined code, every construction route",
  "Tests check one or two wrong codes for some types on one route.",
  [C+"verfer.rs",C+"cigar.rs",C+"siger.rs",C+"diger.rs",C+"saider.rs",C+"salter.rs","src/signing/signer.rs",C+"number.rs",C+"seqner.rs",C+"dater.rs",C+"bexter.rs","src/pathing/pather.rs","src/prefexing/prefixer.rs"],"code validation after construction","acceptance and resulting code per type, route and code")
p("C27","Discarded secrets leave no copy in released memory",
  "When a signer, salt or key creator (or a clone of one) is discarded, none of the memory it releases still contains its secret bytes. Likewise making such an object, from given or fresh secrets, using it to sign, to derive public keys or to stretch further keys, and encoding a secret to, or decoding it from, its qualified text, text-bytes and binary forms release no intermediate buffer that still contains the secret, raw or as text. (Values handed to the caller, and refused input, are not meant.)",
  ["inputs","histories"],"all seed codes and salts, all encode/decode routes, clones and drops in any order",
  "Tests cannot see released memory; an instrumented allocator can.",
  ["src/signing/signer.rs",C+"salter.rs","src/signify/creating.rs",M],"zeroization on drop and of intermediate buffers","contents of every block at the moment it is handed back to the allocator")
p("C28","Receipts and attached signature groups are framed exactly",
  "A message with attachments is the event's raw bytes followed, in order, by the seal group (last-event or explicit-event form) when a seal is given with controller signatures, the controller signatures and the witness signatures, each group led by a count code with the exact number of its signatures; parsing it back recovers every element. A receipt is a message with the receipt type whose fields are the given prefix, sequence number in hexadecimal and event identifier.",
  ["inputs","configurations"],"all numbers of controller and witness signatures (including none and beyond the count limit), both seal forms, all sequence numbers",
  "The code has no tests at all; group counts and order matter for every combination.",
  ["src/messaging.rs","src/receipting.rs","src/seal.rs"],"attachment composition","composed text parsed back by an independent parser", hook="cfg keride_monitor: forwards to the private receipt and messagize functions")
p("C29","No memory errors, undefined behaviour or data races under hostile load",
  "Running hostile and concurrent workloads over the whole public interface causes no memory error, no undefined behaviour and no data race. This holds on every input and every interleaving of threads sharing or exchanging objects.",
  ["inputs","schedules"],"hostile inputs and thread interleavings over all entry points",
  "Ordinary test runs do not observe out-of-bounds reads, uninitialized memory or races that happen to give the right answer.",
  [M,IX,CT,U,C+"common.rs","src/data.rs"],"memory-safe implementation","compiler sanitizer and interpreter reports on instrumented builds")
p("C30","Key event accessors report exactly what the event says",
  "For any key event, the accessors for signing keys, next-key digests, witnesses, current and next thresholds, sequence number, prefix, establishment status and first-seen number return exactly the event's own field values in order; for a credential, so do issuer, schema, subject, status and chained sources. Absent optional fields read as none or empty, and malformed field values are refused, never replaced (an empty sequence-number text reads as zero).",
  ["inputs"],"all event types, numbers of keys, digests and witnesses, thresholds, sequence numbers and malformed field values",
  "Tests read a few events; per-field extraction over all event shapes is not sampled.",
  [C+"serder.rs",C+"creder.rs",C+"tholder.rs",C+"number.rs"],"field extraction and typed conversion","accessor results versus the fields used to build the event")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
