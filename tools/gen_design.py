#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (everything below the marker line) from HOW below, checks.py, evidence/ and seeded/."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks as C
HOW = {
"C01": "ser.cpp builds a value of each type group with symbolic scalars and case-split sizes, serializes it into buf, deserializes the bytes (as a copy at a fresh address) and asserts structural equality with an independently kept model of what was put in.",
"C02": "untrusted.cpp hands a buffer whose bytes are all symbolic to deserialize<T>(begin, end); engine obligation: no access outside of the buffer object on any path (accepting or throwing), no hang; after acceptance the sub-objects are asserted to lie in the buffer. For the containers with positions in other members (vecvec, nvec, multimaps, paged, bit vector, matrix, rtree) the member vectors are assumed to be ones that are accepted by themselves, with arbitrary contents (arbitrary vectors: the other root types), and the accepted container is walked.",
"C03": "as C02 with DEEP_CHECK, followed by a complete traversal of what was accepted (iteration, indexing, lookups of present and absent keys, visiting); obligation: no access outside of the buffer, step bound not reached.",
"C04": "hdr.cpp CHECKSUM: serialize symbolic contents, replace one byte at a symbolic position by any other value, assert that deserialize throws; unmodified data must be accepted. FNV-1a is encoded by the compiler's own IR; inequality of checksums is decided by Z3 (multiplication by an odd constant is injective).",
"C05": "hdr.cpp VERSION/TRUNC/SKIP: symbolic stored version, every shorter length, headers with arbitrary content under the skip modes (the payload found must be the payload written).",
"C06": "endian.cpp: convert_endian against shift/or byte reversal for all values of all widths; ser_be.cpp: an independent big-endian reader of the emitted bytes finds the model's scalars at the member offsets, and converting back gives the equal value.",
"C07": "ser_det.cpp: deserialize, memcpy the buffer to a second address, read there; DET: serialize two equal values built at different addresses/with different histories and compare all bytes.",
"C08": "ptrgraph.cpp: an object with 17 pointer sites; the symbolic choice of site and target is serialized; after deserialization the pointer must equal the address of the copy of that target.",
"C09": "align.cpp/C01: over-aligned element types in every container; asserts (address - buffer) % alignof == 0 for every object reached, on targets that start at 8 different alignments of the source buffer.",
"C10": "ser_mod.cpp: serialize, deserialize, then histories of modifying operations on the deserialized object against a model; the buffer is a guarded engine object, so a release of buffer memory, a write outside of it, or a leak is a violation.",
"C11": "targets.cpp over modelled open/write/ftruncate/mmap/fopen/fwrite/... (os.h; harness-level definitions of the libc functions, the library code is the real one): the same symbolic write sequence goes to buf, file, mmap targets, bytes/offsets/checksums are compared; a symbolic fault plan lets any OS call fail or be short; if no error is reported the file must contain all data.",
"C12": "ptr.cpp: 5 offset pointers in static, stack, heap, struct, array storage against an array of plain pointers; symbolic op history; all 2^64 addresses for construction/nullness.",
"C13": "vector.cpp: symbolic history (28 kinds of operation) on vectors and on a fixed-array model; after every step size, elements, data(), iterators, comparison and returned positions must agree.",
"C14": "vector.cpp with vs::tracked elements (liveness registry per address) and LIVE assertions; leaks and bad frees are engine obligations.",
"C15": "hash.cpp: symbolic history over tables with symbolic keys; the hash of a key is symbolic, too (any hash function), checked against a linear map model; every lookup result, iteration and size compared after each step; step bound = termination.",
"C16": "as C15 with tracked keys/values.",
"C17": "string.cpp: strings of case-split length around the inline limit, symbolic characters, 19 kinds of operations, model = plain character arrays; views, generic strings, 1/2/4 byte characters.",
"C18": "string.cpp CSTR: the same plus terminator and no-leak obligations.",
"C19": "bitset.cpp: all block contents symbolic (including unused bits after ~, shifts), results compared bit by bit with a bool array.",
"C20": "bitvec.cpp: case-split sizes around block borders, symbolic blocks, 16 operations against a bool array model.",
"C21": "bits.cpp: one query per function and width against a bitwise definition.",
"C22": "vecvec.cpp: history against an array-of-arrays model.", "C23": "nvec.cpp: nested model of 2 and 3 levels.",
"C24": "paged.cpp: pages (LOW) and paged_vecvec (with strong and narrow keys) against array models; contents of all pages compared after each step; bucket views and iterators.",
"C25": "fws.cpp: push/emplace/finish_key/copy/move history against entry lists; forward and reverse iteration, subscript, index_of.",
"C26": "mutable.cpp: history on three buckets against arrays; asserts disjoint storage of buckets and free lists, exact element count, iterator arithmetic.",
"C27": "variant.cpp: history over two variants, model = (alternative, value); tracked lifetimes; large variants for index widths and visitation; throwing constructors.",
"C28": "optional.cpp: as C27 for optionals (tracked, integer, string).",
"C29": "unique.cpp: history over two unique pointers to objects that own a further one; deletion counts.",
"C30": "tuple.cpp: element independence by writing each one, lexicographic comparison against a written-out one, tuple_cat/apply order.",
"C31": "matrix.cpp: all cells symbolic, one write through each kind of access, full comparison; overflow of rows*columns must be reported.",
"C32": "rtree.cpp: history of insertions/deletions with symbolic coordinates, every query rectangle; model = list of entries; structural walk (parents' rectangles cover children, counts).",
"C33": "hashing.cpp: pairs of equal values in different representations must hash equally and compare equal; equality <=> memberwise equality for all values.",
"C34": "reflection.cpp: generated structs of 1-64 members; for_each_field/to_tuple addresses and writes per member in order; comparison operators against memberwise lexicographic order.",
"C35": "strong.cpp: each operator against the one of the base type for all operand pairs.",
"C36": "mmap_vec.cpp / mmap_index.cpp over modelled OS calls: history with growth, re-open, move, and faults of any single call; contents = model, file size covers elements.",
"C37": "bits.cpp CHUNK/HASH: contiguity, order, coverage, termination for symbolic total and chunk size; FNV-1a chunk-wise = at once for symbolic bytes; XXH3/wyhash chunk sizes likewise where the sources are present.",
"C39": "atomic.cpp/conc.h: two or three logical threads, their atomic operations interleaved by symbolic scheduling (every compare-exchange may fail spuriously); the outcome must be one of the sequential orders.",
"C40": "allocfail.cpp: the n-th allocation fails (symbolic n) during one operation on each container; exception, usable and unchanged (as stated) object, no leak, no bad access.",
}
NOTE = {"C38": "Not applicable: " + C.NOT_APPLICABLE.get("C38", "")}
D = open(V + "/DESIGN.md").read()
MARK = "<!-- generated below: tools/gen_design.py -->"
D = D.split(MARK)[0].rstrip() + "\n\n" + MARK + "\n\n## Properties\n"
seeds = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); seeds.setdefault(j["property"], []).append(os.path.basename(os.path.dirname(m)))
cost = json.load(open(V + "/tools/costs.json")) if os.path.exists(V + "/tools/costs.json") else {}
for i, p in sorted((json.loads(l)["id"], json.loads(l)) for l in open(V + "/properties.jsonl")):
    D += "\n### %s %s\n\n" % (i, p["title"])
    if i not in C.PROPS:
        D += NOTE[i] + "\n"; continue
    b = C.PROPS[i]["bounds"]; q, t = (b, "the same as quick") if isinstance(b, str) else b
    D += HOW[i] + "\n\n- Bounds (quick): %s\n- Bounds (thorough): %s\n- Outside: %s\n- Beyond tests: %s\n" % (q, t, C.PROPS[i]["outside"], p["why_tests_cant"])
    if i in cost: D += "- Cost (quick, 8 cores): %s\n" % cost[i]
    if i in seeds: D += "- Planted bugs caught: %s\n" % ", ".join(seeds[i])
k = json.load(open(V + "/known_findings.json"))
D += "\n## Findings recorded, not repaired (known_findings.json)\n\n" + "".join("- **%s** (%s): %s\n" % (f["id"], f["property"], f["what"]) for f in k["findings"])
D += "\n## Defects repaired in /repo (one commit each)\n\n" + "".join("- %s\n" % f for f in k["fixed"])
open(V + "/DESIGN.md", "w").write(D)
