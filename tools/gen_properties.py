#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts are edited)."""
import json, os
I = "include/cista/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[I + f for f in files], mechanism=[dict(name=n, where=I + w) for n, w in mech])))

p("C01", "Serialized data deserializes to an equal value",
  "For every value of a supported type (scalars, enums, nested structs, strings, vectors, maps, sets, optionals, variants, tuples, unique pointers, multimaps, matrices) and every mode, deserializing the bytes produced by serializing the value yields an object equal to the original. This holds for both pointer flavours and for empty, inline and heap-allocated contents alike.",
  ["inputs", "configurations"], "all values up to the stated sizes, all listed types, both pointer flavours, all combinations of modes",
  "Tests round-trip a handful of literal objects; they never sweep element contents, sizes around inline/heap boundaries, or the cross product of types and modes.",
  ["serialization.h", "serialized_size.h", "targets/buf.h", "reflection/for_each_field.h"], [("serialize / serialization_context", "serialization.h"), ("deserialize / unchecked_deserialize", "serialization.h")])
p("C02", "Deserializing untrusted bytes never leaves the buffer",
  "Checked deserialization of an arbitrary byte sequence of any length either reports an error or succeeds, and in neither case reads or writes a byte outside the given buffer. After success every sub-object that was validated lies completely within the buffer.",
  ["inputs"], "every byte content of every buffer length up to the stated size, for each listed root type and pointer flavour",
  "The security tests and fuzz seeds contain a few hand-made corruptions; the claim is about all byte strings including overflowing sizes and offsets.",
  ["serialization.h"], [("deserialization_context::check_ptr and check_state overloads", "serialization.h"), ("checked_addition / checked_multiplication", "serialization.h")])
p("C03", "A deeply checked object is safe to traverse completely",
  "If deep-checked deserialization accepts a byte sequence, then iterating over, indexing, looking up and dereferencing everything reachable from the root touches only memory inside the buffer and terminates.",
  ["inputs"], "every byte content of buffers up to the stated size for each listed root type",
  "Tests traverse only buffers produced by the serializer itself; accepted-but-forged buffers are never traversed.",
  ["serialization.h", "containers/hash_storage.h", "containers/variant.h"], [("recursive deep check", "serialization.h"), ("check_state overloads", "serialization.h")])
p("C04", "The checksum rejects every modified payload byte",
  "With the integrity mode enabled, changing any single byte of a serialized buffer's payload or of its stored checksum makes deserialization report an error, and an unmodified buffer is always accepted. The check also covers payloads of every length relative to the internal processing chunk.",
  ["inputs"], "every value, every byte position and every replacement value, payload lengths around chunk boundaries",
  "Tests flip one or two chosen bytes of one buffer.",
  ["serialization.h", "hash.h", "targets/buf.h", "chunk.h"], [("integrity check", "serialization.h"), ("checksum", "targets/buf.h")])
p("C05", "Version mismatch and truncated headers are rejected",
  "With versioning enabled, a buffer whose stored type version differs in any bit from that of the requested type is rejected, as is any buffer too short to contain the enabled headers and the root object. Skipping a header check while the header is present never shifts the payload: the same object is found.",
  ["inputs", "configurations"], "all stored version values, all buffer lengths, all mode combinations of version, integrity and their skip flags",
  "Tests check single wrong versions and a single truncated buffer.",
  ["serialization.h", "mode.h"], [("check", "serialization.h"), ("data_start / integrity_start", "serialization.h")])
p("C06", "Big-endian data is byte-reversed and converts back exactly",
  "Byte-order conversion of every integer, floating point and enumeration value is the exact byte reversal and its own inverse. Data serialized in big-endian mode contains each scalar most significant byte first and deserializes in the same mode to the original value for every supported type.",
  ["inputs", "configurations"], "all values of all scalar widths; all values of listed composite types up to the stated sizes",
  "Tests use one graph and a few literals.",
  ["endian/conversion.h", "serialization.h"], [("endian_swap / convert_endian", "endian/conversion.h"), ("convert_endian_and_ptr", "serialization.h")])
p("C07", "Offset-mode data is position independent",
  "A buffer serialized with the offset flavour yields the same value when its bytes are copied to any other suitably aligned address, and the serialized bytes of a value do not depend on where its parts live in memory.",
  ["inputs", "configurations"], "all values up to the stated sizes, loads at different addresses, sources built through different allocation histories",
  "Tests deserialize from the very buffer that was written, once.",
  ["containers/offset_ptr.h", "serialization.h"], [("offset pointers", "containers/offset_ptr.h"), ("write of offsets", "serialization.h")])
p("C08", "Internal pointers keep pointing at the same logical element",
  "After a round trip every pointer into serialized data - null, to an element of an indexed vector, to an object owned by a unique pointer, forwards, backwards, cyclic or self referring - points to the copy of exactly the element it pointed to before.",
  ["inputs"], "all pointer graphs over the stated number of nodes, all positions of target and source",
  "Tests use one fixed graph per flavour.",
  ["serialization.h", "indexed.h", "containers/ptr.h"], [("pending offsets and vector ranges", "serialization.h")])
p("C09", "Serialized objects are correctly aligned",
  "Every object placed in a serialized buffer starts at an offset that is a multiple of its type's alignment relative to an aligned buffer start, so that all references obtained after deserialization are properly aligned.",
  ["inputs", "configurations"], "all sizes of preceding contents up to the stated bound, element types with alignments 1 to 64",
  "Tests run on x86 where misaligned access goes unnoticed.",
  ["serialization.h", "targets/buf.h", "aligned_alloc.h"], [("target write with alignment", "targets/buf.h"), ("serialization_context::write", "serialization.h")])
p("C10", "Deserialized objects can be modified without touching foreign memory",
  "Containers, strings and unique pointers that live in a deserialized buffer can be modified, grown, cleared, assigned and destroyed; they never release or reallocate the buffer's memory, never lose their other contents, and release whatever they allocated themselves.",
  ["inputs", "histories"], "all operation sequences up to the stated length on deserialized objects with arbitrary contents",
  "Tests modify one or two deserialized containers in one way.",
  ["containers/vector.h", "containers/string.h", "containers/hash_storage.h", "containers/unique_ptr.h"], [("self-allocated flag handling", "containers/vector.h"), ("deallocation guards", "containers/hash_storage.h")])
p("C11", "All output targets produce the same bytes and report faults",
  "Writing the same sequence of values to the in-memory, file and memory-mapped targets yields identical bytes, offsets, alignment padding and checksums. If the operating system writes or maps less than requested or fails, the operation reports an error and never claims success with missing data.",
  ["inputs", "fault_sequences"], "all write sequences up to the stated length, every position and kind of system call failure or short transfer",
  "Tests write a small object to a working disk only.",
  ["targets/buf.h", "targets/file.h", "mmap.h"], [("buf::write / checksum", "targets/buf.h"), ("file::write / checksum", "targets/file.h")])
p("C12", "Relative pointers behave like ordinary pointers",
  "Copying, assigning, comparing, testing for null, dereferencing, adding, subtracting, incrementing and decrementing relative pointers gives the results of the same operations on ordinary pointers, wherever the pointer objects themselves are stored. A pointer to its own storage is distinguishable from null.",
  ["inputs"], "all target positions, displacements and storage locations within the stated memory size",
  "Tests exercise a few fixed displacements.",
  ["containers/offset_ptr.h", "containers/ptr.h"], [("offset_ptr", "containers/offset_ptr.h")])
p("C13", "Vectors behave as sequences",
  "After any history of construction, insertion, removal, resizing, reserving, assignment, copying, moving and swapping a vector holds exactly the sequence of elements that the operations define, the element order and size are as documented by the standard sequence container and the returned positions refer to the right element. What does not fit the size or position type any more is reported and changes nothing.",
  ["histories", "inputs"], "all operation histories up to the stated length with arbitrary element values and positions",
  "Tests run a few scripted sequences with literals.",
  ["containers/vector.h"], [("basic_vector", "containers/vector.h")])
p("C14", "Vectors manage element lifetimes and memory exactly",
  "Each element held by a vector is constructed once and destroyed once, no operation reads an element that is not alive, nothing is accessed outside the allocated block and no memory is leaked or released twice, for every history of operations.",
  ["histories"], "all operation histories up to the stated length over lifetime-tracked elements",
  "The leak test covers a single scripted history.",
  ["containers/vector.h", "allocator.h"], [("basic_vector", "containers/vector.h")])
p("C15", "Hash maps and sets behave as maps and sets",
  "After any history of insertions, assignments, lookups, erasures, clearing, rehashing, copying and moving, a hash map or set contains exactly the keys (and latest values) that a mathematical map or set would; lookups find exactly those, iteration visits each exactly once, and every operation terminates - whatever hash values the keys have.",
  ["histories", "inputs"], "all operation histories up to the stated length, arbitrary keys and arbitrary hash functions including colliding ones",
  "Tests insert well-distributed keys; collision patterns, tombstone accumulation and wrap-around of the probe sequence are not swept.",
  ["containers/hash_storage.h", "containers/hash_map.h", "containers/hash_set.h"], [("find / find_or_prepare_insert / erase / resize", "containers/hash_storage.h")])
p("C16", "Hash containers manage entry lifetimes and memory exactly",
  "Every entry of a hash container is constructed once and destroyed once, no entry that is not alive is read, no access leaves the table and no memory is leaked or released twice, for every history of operations.",
  ["histories"], "all operation histories up to the stated length with lifetime-tracked keys and values",
  "One scripted leak test.",
  ["containers/hash_storage.h"], [("allocation, rehash and destruction of entries", "containers/hash_storage.h")])
p("C17", "Strings behave as byte sequences and order like them",
  "A string or string view always exposes exactly the characters it was given whether stored inline, on the heap or by reference; copying, moving, assigning, appending, resizing and clearing give the corresponding sequence; equality, ordering, prefix and search operations agree with those of the character sequences. A text that is too long to be stored is reported and leaves the string as it was.",
  ["histories", "inputs"], "all contents and lengths around the inline capacity, all histories up to the stated length",
  "Tests compare a few literals.",
  ["containers/string.h"], [("generic_string / basic_string / basic_string_view", "containers/string.h")])
p("C18", "Null-terminated strings keep content and terminator",
  "A null-terminated string object always exposes exactly the characters it was given followed by a terminating zero, for every length around its inline capacity and every history of assignments, copies, moves and resets; comparison agrees with that of the character sequences and nothing is leaked. A text that is too long to be stored is reported and leaves the string as it was.",
  ["histories", "inputs"], "all contents and lengths around the inline capacity, all histories up to the stated length",
  "Tests use a few literals.",
  ["containers/cstring.h"], [("generic_cstring / basic_cstring", "containers/cstring.h")])
p("C19", "Fixed-size bit sets behave as bit vectors of their size",
  "For every size, setting, clearing, testing, counting, shifting, combining, comparing and converting a bit set gives the result of the same operation on an array of exactly that many bits; bits beyond the size never influence a result.",
  ["inputs", "configurations"], "all bit contents, positions and shift distances for each listed size",
  "Tests shift a few fixed patterns.",
  ["containers/bitset.h"], [("bitset", "containers/bitset.h")])
p("C20", "Dynamic bit vectors behave as bit vectors of their size",
  "After any history of resizing, setting, clearing, inverting, shifting and combining, a dynamic bit vector equals the array of booleans the operations define; counting, comparing, any/none, iteration over set bits and next-set-bit search see exactly the bits below the current size.",
  ["histories", "inputs"], "all contents, positions, shift distances and sizes up to the stated bound, all histories up to the stated length",
  "Tests run scripted sequences at few sizes.",
  ["containers/bitvec.h"], [("basic_bitvec", "containers/bitvec.h")])
p("C21", "Bit counting and power-of-two helpers are exact",
  "Population count, leading zeros, trailing zeros and rounding up to the next power of two return the mathematically exact value for every input of every supported width (for rounding: every non-zero input whose result is representable).",
  ["inputs"], "all 32- and 64-bit inputs",
  "Tests check individual constants.",
  ["bit_counting.h", "next_power_of_2.h"], [("popcount / leading_zeros / trailing_zeros", "bit_counting.h"), ("next_power_of_two", "next_power_of_2.h")])
p("C22", "Vectors of vectors keep every bucket's contents",
  "After any history of adding buckets, appending to the last or growing any bucket, resizing and clearing, each bucket of the flat vector-of-vectors contains exactly the elements put into it in order and iteration visits all buckets in order; out-of-range checked access is reported. What does not fit the size or position type any more is reported and changes nothing.",
  ["histories", "inputs"], "all operation histories up to the stated length and all element values",
  "Tests build a few fixed structures.",
  ["containers/vecvec.h"], [("basic_vecvec", "containers/vecvec.h")])
p("C23", "Nested multi-level vectors keep every leaf's contents",
  "After any sequence of additions, a multi-level nested vector returns for each index path exactly the elements added under it, with matching sizes at each level, and out-of-range checked access is reported. What does not fit the size or position type any more is reported and changes nothing.",
  ["histories", "inputs"], "all addition histories up to the stated length and depth",
  "Tests build a few fixed structures.",
  ["containers/nvec.h"], [("basic_nvec", "containers/nvec.h")])
p("C24", "Paged containers keep every page's contents",
  "Growing, appending to or shrinking one page of a paged container never changes the contents of another page, each page holds exactly the elements put into it, and freed pages are only reused when no longer in use. What does not fit the size or position type any more is reported and changes nothing.",
  ["histories", "inputs"], "all operation histories up to the stated length over the stated number of pages",
  "Tests have one scripted history.",
  ["containers/paged.h", "containers/paged_vecvec.h"], [("paged::resize_page / create_page", "containers/paged.h"), ("paged_vecvec", "containers/paged_vecvec.h")])
p("C25", "The forward-star multimap returns what was inserted per key",
  "After pushing entries key by key and finishing keys (also skipping keys), the multimap returns for each key exactly its entries in order, empty ranges for skipped keys, correct sizes and index positions. More keys or entries than the index type can count are reported.",
  ["histories", "inputs"], "all insertion histories up to the stated length",
  "Tests build one fixed multimap.",
  ["containers/fws_multimap.h"], [("fws_multimap_base", "containers/fws_multimap.h")])
p("C26", "The mutable multimap keeps every bucket's contents while buckets move",
  "After any history of appends, insertions, erasures and resizings of buckets, each bucket of the mutable multimap contains exactly the elements put into it in order, storage regions of different buckets never overlap, reused free storage belongs to nobody else and the element count is exact.",
  ["histories", "inputs"], "all operation histories up to the stated length over the stated number of buckets",
  "Tests run scripted histories; reuse of freed storage in combination with growth is sampled only.",
  ["containers/mutable_fws_multimap.h"], [("mutable_fws_multimap grow/free bucket handling", "containers/mutable_fws_multimap.h")])
p("C27", "Variants hold exactly the last assigned alternative",
  "After any history of construction, assignment, emplacement, copying, moving, swapping and resetting, a variant reports the alternative last stored with its value, comparisons order by alternative and then value, visitation calls the matching branch, and each stored value is destroyed exactly once.",
  ["histories", "inputs"], "all operation histories up to the stated length, all alternatives and values",
  "Tests have few scripted switches.",
  ["containers/variant.h"], [("variant", "containers/variant.h")])
p("C28", "Optionals hold exactly the last assigned state",
  "After any history of construction, assignment from values, other optionals or the empty marker, copying and moving, an optional reports whether it holds a value and which one; accessing an empty one is reported as an error and comparison agrees with the held states.",
  ["histories", "inputs"], "all operation histories up to the stated length, all values",
  "Tests construct a few optionals.",
  ["containers/optional.h"], [("optional", "containers/optional.h")])
p("C29", "Unique pointers own their object exactly once",
  "After any history of creation, moving, resetting and releasing, each heap object owned by a unique pointer is destroyed exactly once, moved-from pointers are empty and access yields the owned object; objects not allocated by the pointer are never released.",
  ["histories"], "all operation histories up to the stated length over several pointers",
  "Tests have single creations.",
  ["containers/unique_ptr.h"], [("basic_unique_ptr", "containers/unique_ptr.h")])
p("C30", "Tuples, pairs and arrays store and compare their elements faithfully",
  "Each element of a tuple, pair or array is stored independently and returned unchanged; copying, moving and assigning preserve all elements; comparison is lexicographic; concatenation and application see all elements in order.",
  ["inputs"], "all element values for the listed element type lists",
  "Tests use literals.",
  ["containers/tuple.h", "containers/pair.h", "containers/array.h"], [("tuple", "containers/tuple.h"), ("pair", "containers/pair.h")])
p("C31", "The flat matrix addresses every cell exactly once",
  "Every (row, column) position of a matrix refers to its own cell, writes to one cell never change another, row views and iteration cover exactly the row, and out-of-range checked access is reported.",
  ["inputs"], "all dimensions and positions up to the stated size, all values",
  "Tests do not cover the matrix.",
  ["containers/flat_matrix.h"], [("flat_matrix", "containers/flat_matrix.h")])
p("C32", "Spatial search returns exactly the intersecting entries",
  "After any history of insertions and deletions, a search of the spatial index reports exactly the stored entries whose rectangle intersects the query rectangle, each once; deletions remove exactly the given entry and the entry count is exact.",
  ["histories", "inputs"], "all insert/delete histories up to the stated length with arbitrary coordinates, all query rectangles",
  "Tests insert a fixed set and compare few searches.",
  ["containers/rtree.h"], [("rtree insert/split/search/delete", "containers/rtree.h")])
p("C33", "Equal values have equal hashes and equality is structural",
  "For all supported types values that compare equal under the library's equality hash equally, also across interchangeable representations (inline/heap/view strings, differently grown containers); equality itself holds exactly if all members are equal.",
  ["inputs"], "all pairs of values up to the stated sizes for the listed types",
  "Tests compare a few hash constants.",
  ["hashing.h", "equal_to.h", "hash.h"], [("hashing", "hashing.h"), ("equal_to", "equal_to.h")])
p("C34", "Reflection sees every member exactly once, in order",
  "Automatic decomposition of a struct yields references to all of its members in declaration order; the derived comparison operators agree with member-wise lexicographic comparison and a member's computed index is its position.",
  ["inputs", "configurations"], "all member values for structs of the listed arities",
  "Tests check single literals per operator.",
  ["reflection/to_tuple.h", "reflection/comparable.h", "reflection/for_each_field.h", "reflection/member_index.h", "reflection/arity.h"], [("to_tuple", "reflection/to_tuple.h"), ("CISTA_COMPARABLE", "reflection/comparable.h")])
p("C35", "Strong types compute exactly like their base type",
  "Every arithmetic, bit, shift, comparison and increment operation on a strong type gives the result of the same operation on the wrapped values, the invalid marker is distinguishable, and converting in and out is lossless.",
  ["inputs"], "all operand values of the listed base types",
  "Tests barely touch the operators.",
  ["strong.h"], [("strong", "strong.h")])
p("C36", "Memory-mapped vectors keep their contents while the file grows",
  "A vector stored in a memory-mapped file holds exactly the elements pushed, resized or assigned into it at all times, growing the mapping never loses or corrupts elements, the file's size always covers the elements, and re-opening yields the same elements. A size that cannot be reached is reported and loses nothing.",
  ["histories", "fault_sequences"], "all operation histories up to the stated length over a modelled operating system, with remapping at different addresses and failing calls",
  "Not covered by tests.",
  ["containers/mmap_vec.h", "mmap.h"], [("basic_mmap_vec", "containers/mmap_vec.h"), ("mmap::resize", "mmap.h")])
p("C37", "Chunked processing covers every byte exactly once, in order",
  "Splitting any total size into chunks visits contiguous, non-overlapping ranges in order that cover the total exactly, none larger than the chunk size; hashing chunk by chunk equals hashing at once.",
  ["inputs"], "all totals and chunk sizes within the stated number of chunks",
  "Tests only use data smaller than one chunk.",
  ["chunk.h", "hash.h"], [("chunk", "chunk.h"), ("hash", "hash.h")])
p("C38", "Structurally different types have different version hashes",
  "The automatically derived version hash changes whenever a type's structure changes (member added, removed, reordered or of another type) and stays the same otherwise, across compilers and builds.",
  ["programs"], "all pairs of data type definitions",
  "Tests compare a few types.",
  ["type_hash/type_hash.h", "type_hash/static_type_hash.h", "type_hash/type_name.h"], [("type_hash", "type_hash/type_hash.h"), ("static_type_hash", "type_hash/static_type_hash.h")])
p("C39", "Atomic updates of plain fields are never lost",
  "Concurrent fetch_or, fetch_and, fetch_min and fetch_max applied to an ordinary field by several threads all take effect exactly once, and the returned previous values and the final value are those of some sequential order of the updates. Bits that several threads set or clear with bitvec::set<true> all take effect and no other bit changes. Concurrent bitvec::get_next calls on one position hand out every set bit once, in order.",
  ["schedules"], "all interleavings of the stated number of threads and updates, all operand values",
  "The test observes one run of the scheduler's choosing.",
  ["atomic.h", "containers/bitvec.h"], [("fetch_or / fetch_and / fetch_min / fetch_max", "atomic.h"), ("set<true> / get_next", "containers/bitvec.h")])
p("C40", "Allocation failure is reported and leaves containers intact",
  "If memory cannot be allocated during an operation on a vector, string, hash table, unique pointer, optional, variant, bit vector, matrix, multimap, nested vector or spatial index, the failure is reported as an exception and the object stays usable. Adding or reserving keeps the previous contents (if copying one of several new elements fails, the ones before it may remain at the end); strings and unique pointers keep their value; replacing all contents leaves the old ones or fewer. Nothing is leaked and nothing outside the object's memory is touched.",
  ["fault_sequences", "histories"], "every allocation position failing in every operation history up to the stated length",
  "No test injects allocation failures.",
  ["containers/vector.h", "containers/string.h", "containers/hash_storage.h", "allocator.h"], [("reserve / set / insert", "containers/vector.h"), ("resize / initialize_entries", "containers/hash_storage.h"), ("emplace_back", "containers/vecvec.h"), ("emplace_back", "containers/nvec.h")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
