# id -> (technique, level_note)
_T = "; trusts the harness's reference model and judges only the executions observed"
HOOKS = {"guard": "cfg keride_monitor", "enable": "rustflags --cfg keride_monitor in /verif/harness/.cargo/config.toml", "source_commits": ["489bd2e43aa4a09c3454bc5c12c1bdd1ec826c20"]}
NOTES = "All checks are runtime monitors: one harness binary (harness/) is rebuilt against /repo's working tree with overflow checks and debug assertions on, drives the real code with seeded hostile, boundary and stress workloads, and judges every observed call with an independent oracle. Exit 2 means inconclusive."
NA = {}
CHECKS = {
 "C01": ("runtime monitoring: round-trip workload over every code and length class, judged by an independent CESR table model", "every defined code with boundary and random payload lengths through all construction routes, every form compared with an independent encoder"+_T),
 "C02": ("runtime monitoring: mutation and enumeration workload, strictness oracle (re-encode equals consumed prefix) plus independent decoder", "canonical encodings, mutations, truncations, short strings enumerated, arbitrary bytes in both domains"+_T),
 "C03": ("runtime monitoring: random streams parsed sequentially, trace of elements compared with what was written", "streams of mixed primitives, indexed signatures and counters in both domains"+_T),
 "C04": ("runtime monitoring: index and other-index boundary workload judged by an independent indexed-code model", "all indexed codes, all index pairs around limits"+_T),
 "C05": ("runtime monitoring: mutation workload, strictness oracle and independent indexed decoder", "canonical encodings, mutations, truncations, arbitrary bytes in both domains"+_T),
 "C06": ("runtime monitoring: count workload judged by an independent counter model", "all counter codes, counts around every limit, malformed text and bytes, versions"+_T),
 "C26": ("runtime monitoring: every type crossed with every code and route, acceptance compared with the type's code list", "all types, all codes, all construction routes"+_T),
 "C08": ("runtime monitoring: sign/verify workload with alterations of message, key and signature, verdicts judged by the crypto crates called directly", "dozens of alterations per genuine signature, hostile triples"+_T),
 "C09": ("runtime monitoring: key and index workload, codes and indices judged by a selection model written from the CESR tables", "every small index pair, boundaries around 64 and 4096, all curves and flags"+_T),
 "C10": ("runtime monitoring: digest and comparison workload judged by the hash crates called directly", "nine codes, block-boundary lengths, all pairs of codes"+_T),
 "C22": ("runtime monitoring: stretch workload judged by direct Argon2id computations", "salts, paths, tiers, sizes; expensive tiers sampled"+_T),
 "C23": ("runtime monitoring: creator workload, every created key recomputed independently from the documented path", "stems, indices, code lists, tiers, flags"+_T),
 "C24": ("runtime monitoring: population monitor over generated secrets across threads and processes", "thousands of generations per seed code; statistical per-byte and per-bit monitors"+_T),
 "C11": ("runtime monitoring: identify/verify workload with a dozen alterations per document, identifiers recomputed independently from the document text", "documents of any shape, all digest codes and labels, ignored fields, versioned or not, strict options"+_T),
 "C12": ("runtime monitoring: version-string workload judged by an independent formatter, parser and sizer", "identifiers, versions, kinds, sizes; single-character mutations of version strings; documents and sniffed bytes with tails"+_T),
 "C13": ("runtime monitoring: messages read back, truncated, mis-declared and streamed, every accessor compared with the fields written", "events and credentials of any shape, tails, truncations, wrong protocols, versions and codes"+_T),
 "C14": ("runtime monitoring: prefix derivation and verification workload, prefixes recomputed independently, verdicts judged per altered field", "all prefix codes, three inception kinds, allow-lists, field mutations"+_T),
 "C15": ("runtime monitoring: threshold satisfaction workload judged by exact rational arithmetic of an independent implementation", "numeric and weighted thresholds, index multisets, order/duplicate/out-of-range variants, monotonicity chains"+_T),
 "C16": ("runtime monitoring: every notation of a threshold compared for meaning, malformed expressions for refusal", "up to a dozen notations of each threshold, grammar-aware malformed expressions"+_T),
 "C17": ("runtime monitoring: integers through every representation, judged by an independent 128-bit integer model", "every size boundary, all codes, refused texts, ordering pairs"+_T),
 "C18": ("runtime monitoring: timestamp workload through all construction routes, texts compared verbatim", "timestamps over every field range, texts of other lengths and alphabets"+_T),
 "C19": ("runtime monitoring: text workload through seven routes, the documented leading-A rule as oracle", "texts of every length class up to beyond the small-code limit, foreign characters"+_T),
 "C20": ("runtime monitoring: path workload judged by a list-based reference resolver", "component lists with repeats and numbers, random documents, root/strip/startswith triples"+_T),
 "C21": ("runtime monitoring: JSON workload compared with the JSON library's own compact form, entry replacement and typed extraction traced", "documents with extreme numbers, unicode and nesting; entry replacements"+_T),
 "C28": ("runtime monitoring: composed messages and receipts parsed back by an independent parser (through the monitor hook)", "all signature group combinations around count limits, both seal forms, receipts"+_T),
 "C30": ("runtime monitoring: events and credentials built field by field, every accessor compared with the fields; malformed variants must be refused", "all event types, thresholds, numbers of keys, one malformed field per case"+_T),
 "C07": ("runtime monitoring: hostile operations over every public entry point, with panics, aborts, stack overflows and CPU time observed from a supervising process", "every public constructor, parser, accessor and verifier with fresh, pooled, mutated and truncated arguments; deep nesting and large inputs; overflow checks and debug assertions on"+_T),
 "C25": ("runtime monitoring: call log of every public entry point replayed shuffled, in another process and from many threads sharing objects, result digests compared", "thousands of call traces in other orders, processes and thread interleavings; arguments compared before and after"+_T),
 "C27": ("runtime monitoring: instrumented allocator records every block at release while secrets are made, used, encoded, decoded, cloned and dropped; blocks are searched for the secret", "all seed codes and salts, all routes, random histories of clones and drops, other threads and unwinding; a self-test confirms the recorder sees careless releases"+_T),
 "C29": ("sanitizers: the hostile and concurrent workloads under AddressSanitizer, ThreadSanitizer, MemorySanitizer (std rebuilt for the last two) and Miri; any report is the verdict", "all public operations, groups of threads making the same calls, shared and exchanged objects; a sample of single calls interpreted by Miri, alone and on two threads"+_T),
}
