"""Per property: which harnesses run in which tier, with which bounds."""
TRAPS = "shift-exponent,integer-divide-by-zero,unreachable,return"


class H:
    def __init__(self, name, file, defs="", flags=(), std="c++17", reach=("end",), timeout=600, max_steps=20000000, eopts=(), traps=TRAPS,
                 known=None, validate=4, ldflags=()):
        self.name, self.file, self.std, self.reach, self.timeout, self.max_steps = name, file, std, list(reach), timeout, max_steps
        self.defs = {}
        for d in defs.split():
            k, _, v = d.partition("=")
            self.defs[k] = v if _ else None
        self.flags, self.eopts, self.traps, self.known, self.validate, self.ldflags = list(flags), list(eopts), traps, known, validate, list(ldflags)


ASSUME = ["symbolic execution engine /verif/engine (own, LLVM 18 IR -> Z3 4.8.12); its translation is cross-checked by replaying sampled paths natively and comparing observations",
          "clang 18 -O1 x86-64 code generation of the headers represents the library; assertions enabled",
          "libstdc++ exception machinery and C library functions are modelled in the engine",
          "heap allocations above 4 MB fail, smaller ones succeed (except where failure injection is stated)"]
import os
REPO = os.environ.get("CISTA_REPO", "/repo")
PROPS = {}


def prop(pid, bounds, outside, assumptions=(), **kw):
    def deco(fn):
        PROPS[pid] = dict(fn=fn, bounds=bounds, outside=outside, assumptions=ASSUME + list(assumptions), **kw)
        return fn
    return deco


def get(pid, tier):
    p = dict(PROPS[pid])
    p["harnesses"] = p.pop("fn")(tier == "thorough")
    b = p["bounds"]
    p["bounds"] = b[1 if tier == "thorough" else 0] if isinstance(b, tuple) else b
    return p


NSS = ("raw", "offset")


def vector_limits(ns):
    """Vectors at the end of their size type: 8/16-bit sizes, capacity requests over all 2^64."""
    return [H("cap64-%s" % ns, "vector_cap.cpp", "ELEM=unsigned NS=%s SIZE_T=std::uint64_t" % ns, reach=("end", "ok", "failed")),
            H("max8-%s" % ns, "vector_max.cpp", "NS=%s SIZE_T=std::uint8_t" % ns, reach=("end", "added", "full")),
            H("max16-%s" % ns, "vector_max.cpp", "NS=%s SIZE_T=std::uint16_t" % ns, reach=("end", "added", "full"))]


def limits(*kinds):
    """Containers with 8-bit positions that are full but for a few elements (narrow keys need -Wno-narrowing)."""
    return [H("limits%d-%s" % (k, ns), "limits.cpp", "KIND=%d NS=%s NOPS=3" % (k, ns), flags=["-Wno-c++11-narrowing"], reach=("end", "added", "full")) for k in kinds for ns in NSS]


@prop("C13", ("histories of 3 operations on one vector / 2 operations on two vectors (28 kinds, every position/count), initial size <= 2, all element values; capacity requests: all 2^32 (32-bit sizes) and 2^64 (64-bit sizes); additions to vectors with 8- and 16-bit sizes that are full but for 0-3 elements",
              "histories of 4 operations on one vector / 3 operations on two vectors (28 kinds), initial size <= 2, all element values; capacity requests: all 2^32 (32-bit sizes) and 2^64 (64-bit sizes); additions to vectors with 8- and 16-bit sizes that are full but for 0-3 elements"),
      "longer histories, larger vectors, other element types")
def c13(th):
    hs = []
    for ns in NSS:
        hs.append(H("seq2-%s" % ns, "vector.cpp", "ELEM=unsigned NS=%s NOPS=%d INIT=2 SECOND=1 MAXSZ=4" % (ns, 3 if th else 2), timeout=3000 if th else 500))
        hs.append(H("seq2t-%s" % ns, "vector.cpp", "ELEM=vs::tracked NS=%s NOPS=2 INIT=2 SECOND=1 MAXSZ=4" % ns))
        hs.append(H("cap-%s" % ns, "vector_cap.cpp", "ELEM=unsigned NS=%s" % ns, reach=("end", "ok", "failed")))
        hs += vector_limits(ns)
    hs.append(H("seq1", "vector.cpp", "ELEM=unsigned NS=raw NOPS=%d INIT=%d SECOND=0 MAXSZ=4" % (4 if th else 3, 1 if th else 2), timeout=4000 if th else 600))
    return hs


@prop("C14", ("histories of 3 operations on one vector (initial size <= 1) / 2 operations on two vectors, lifetime-tracked elements; capacity requests: all 2^32 (32-bit sizes) and 2^64 (64-bit sizes); additions to vectors with 8- and 16-bit sizes that are full but for 0-3 elements",
              "histories of 4 operations on one vector (initial size <= 1) / 3 operations on two vectors, lifetime-tracked elements; capacity requests: all 2^32 (32-bit sizes) and 2^64 (64-bit sizes); additions to vectors with 8- and 16-bit sizes that are full but for 0-3 elements"),
      "longer histories, elements with throwing constructors")
def c14(th):
    hs = []
    for ns in NSS:
        hs.append(H("seq2-%s" % ns, "vector.cpp", "ELEM=vs::tracked NS=%s NOPS=%d INIT=2 SECOND=1 MAXSZ=4 LIVE" % (ns, 3 if th else 2), timeout=3000 if th else 600))
        hs.append(H("cap-%s" % ns, "vector_cap.cpp", "ELEM=unsigned NS=%s" % ns, reach=("end", "ok", "failed")))
        hs += vector_limits(ns)
    hs.append(H("seq1", "vector.cpp", "ELEM=vs::tracked NS=raw NOPS=%d INIT=1 SECOND=0 MAXSZ=3 LIVE" % (4 if th else 3), timeout=4000 if th else 600))
    return hs


def hash_specs(th, live):
    L = " LIVE" if live else ""
    hs = []
    A = lambda n, d, **k: hs.append(H(n, "hash.cpp", d + L, timeout=k.pop("timeout", 3600 if th else 600), **k))
    for ns in NSS:
        A("map2-%s" % ns, "NS=%s KIND=0 NKEYS=3 NOPS=2 PRE=%d HM=2 SECOND=1" % (ns, 3 if th else 2))
        A("mapcoll-%s" % ns, "NS=%s KIND=0 NKEYS=3 NOPS=2 PRE=%d HM=1 SECOND=1" % (ns, 3 if th else 2))
    A("symhash", "NS=raw KIND=1 NKEYS=%d NOPS=3 PRE=0 HM=0 POS=4 NH2=2 SECOND=0 OPS=0x1f" % 3)
    A("symh2", "NS=raw KIND=1 NKEYS=2 NOPS=%d PRE=0 HM=0 POS=%d SYMH2 SECOND=0 OPS=0x1b" % (3, 4 if th else 2))
    A("full7-coll", "NS=raw KIND=1 NKEYS=8 NOPS=%d PREX PRE=7 PREDEL=7 HM=1 SECOND=0 OPS=0x1f" % (3 if th else 2))
    A("full7-near", "NS=offset KIND=1 NKEYS=8 NOPS=2 PREX PRE=7 PREDEL=7 HM=3 SECOND=0 OPS=0x1f")
    A("full7-sym", "NS=raw KIND=1 NKEYS=8 NOPS=1 PREX PRE=7 PREDEL=7 HM=4 SYMKEYS=%d POS=8 NH2=%d SECOND=0 OPS=0x1f" % ((2, 2) if th else (1, 3)))
    A("full14", "NS=raw KIND=1 NKEYS=16 NOPS=%d PREX PRE=14 PREDEL=5 HM=4 SYMKEYS=1 POS=16 NH2=1 SECOND=0 OPS=0x13" % (2 if th else 1))
    for hm in (1, 3):
        A("churn14-%d" % hm, "NS=raw KIND=1 NKEYS=20 NOPS=0 PREX PRE=14 PREDEL=%d REFILL=6 HM=%d SECOND=0" % (14 if th else 8, hm))
    A("churn14-map", "NS=offset KIND=0 NKEYS=16 NOPS=1 PREX PRE=14 PREDEL=%d REFILL=2 HM=1 SECOND=0 OPS=0x803" % (6 if th else 4))
    A("churn28", "NS=raw KIND=1 NKEYS=35 NOPS=0 PREX PRE=28 PREDEL=%d REFILL=7 HM=1 SECOND=0" % (14 if th else 8))
    A("grow30", "NS=raw KIND=1 NKEYS=32 NOPS=1 PREX PRE=29 PREDEL=2 HM=2 SECOND=0 OPS=0x1f")
    A("long-coll", "NS=raw KIND=1 NKEYS=3 NOPS=%d PRE=0 HM=1 SECOND=0 OPS=0x3" % (7 if th else 6))
    A("long-spread", "NS=raw KIND=1 NKEYS=3 NOPS=%d PRE=0 HM=3 SECOND=0 OPS=0x3" % (7 if th else 6))
    A("long-erase", "NS=raw KIND=1 NKEYS=8 NOPS=%d PREX PRE=6 PREDEL=0 HM=1 SECOND=0 OPS=0x3" % (4 if th else 3))
    return hs


HB = ("histories of 2 operations (17 kinds) on two maps with 3 keys after 0-2 insertions; 3 operations with arbitrary hash placement of 3 keys; tables of 6-29 entries with every erasure pattern followed by 1-3 operations or up to 7 insertions of new keys; 6 alternating insert/erase; hash position bits all values below the table size, control bits equal / off by one / all 2^7 values for 2 keys",
      "as quick, with 3 initial keys, 7 alternating insert/erase, 3 operations on full tables, two free keys in a full table")


@prop("C15", HB, "larger tables, more keys, hash position bits above the table size (masked out by the probe)")
def c15(th):
    return hash_specs(th, False)


@prop("C16", HB, "larger tables, more keys, entries with throwing constructors")
def c16(th):
    hs = hash_specs(th, True)
    # recorded finding: exactly "t[1] = std::move(t[0])" with a non-empty t[1]
    hs.append(H("move-assign-leak", "hash_leak.cpp", "NS=raw", known="hash-move-assign-leak"))
    return hs

@prop("C17", ("all lengths from 2^30 to 2^62 (texts that cannot be stored); one operation (19 kinds) on a string with all-symbolic characters, and two operations on a pair with free first/last characters; lengths 0, 1 and around the inline capacity; raw and offset flavours, owning, view and generic types, 1/2/4 byte characters",
              "as quick with 2 operations on one all-symbolic string and 3 operations on short/boundary lengths"),
      "longer strings, longer histories")
def c17(th):
    hs = []
    A = lambda n, fl, d, **k: hs.append(H(n, k.pop("file", "string.cpp"), d, flags=fl, timeout=k.pop("timeout", 3000 if th else 600), **k))
    for ns in NSS:
        A("sym1-%s" % ns, [], "STR=cista::%s::string CHT=char OWN=1 NOPS=1 SECOND=0" % ns)
        A("seq2-%s" % ns, ["-DLENS={1,L,L+1}"], "STR=cista::%s::string CHT=char OWN=1 NOPS=2 SECOND=1 FEWSYM" % ns)
        A("view-%s" % ns, [], "STR=cista::%s::string_view CHT=char OWN=0 NOPS=1 SECOND=1 FEWSYM" % ns)
        A("generic-%s" % ns, [], "STR=cista::%s::generic_string CHT=char OWN=2 NOPS=1 SECOND=1 FEWSYM" % ns)
    A("u16", [], "STR=cista::offset::u16string CHT=char16_t OWN=1 NOPS=1 SECOND=1 FEWSYM")
    A("u32", [], "STR=cista::raw::u32string CHT=char32_t OWN=1 NOPS=1 SECOND=1 FEWSYM")
    for ns in NSS:
        A("max-%s" % ns, [], "NS=%s" % ns, file="string_max.cpp", reach=("end", "wide", "huge"))
    if th:
        A("sym2", [], "STR=cista::offset::string CHT=char OWN=1 NOPS=2 SECOND=0")
        A("seq3", ["-DLENS={0,L,L+1}"], "STR=cista::raw::string CHT=char OWN=1 NOPS=3 SECOND=1 FEWSYM OPS=0x1ffff")
        A("view2", ["-DLENS={0,L,L+1}"], "STR=cista::offset::string_view CHT=char OWN=0 NOPS=2 SECOND=1 FEWSYM")
        A("generic2", ["-DLENS={0,L,L+1}"], "STR=cista::offset::generic_string CHT=char OWN=2 NOPS=2 SECOND=1 FEWSYM")
        A("u16-2", ["-DLENS={1,L,L+1}"], "STR=cista::raw::u16string CHT=char16_t OWN=1 NOPS=2 SECOND=1 FEWSYM")
    return hs


@prop("C18", ("all lengths from 2^30 to 2^62 (texts that cannot be stored); one or two operations (17 kinds) on one or two null-terminated strings; all characters / free first and last characters; lengths 0, 1 and around the inline capacity; raw and offset, owning and view types",
              "as quick with 3 operations on boundary lengths"),
      "longer strings, longer histories")
def c18(th):
    hs = []
    A = lambda n, fl, d, **k: hs.append(H(n, k.pop("file", "string.cpp"), d + " CSTR", flags=fl, timeout=k.pop("timeout", 3000 if th else 600), **k))
    OFF, RAW = ["-DSTR=cista::offset::cstring"], ["-DSTR=cista::basic_cstring<char const*>"]
    OFFV, RAWV = ["-DSTR=cista::basic_cstring_view<cista::offset::ptr<char const>>"], ["-DSTR=cista::basic_cstring_view<char const*>"]
    for n, f, v in (("offset", OFF, OFFV), ("raw", RAW, RAWV)):
        A("sym1-%s" % n, f, "CHT=char OWN=1 NOPS=1 SECOND=0")
        A("seq2-%s" % n, f + ["-DLENS={0,L,L+1}"], "CHT=char OWN=1 NOPS=2 SECOND=1 FEWSYM")
        A("view-%s" % n, v, "CHT=char OWN=0 NOPS=1 SECOND=1 FEWSYM")
        A("max-%s" % n, [], "NS=%s" % n, file="string_max.cpp", reach=("end", "wide", "huge"))
        if th:
            A("seq3-%s" % n, f + ["-DLENS={0,L,L+1}"], "CHT=char OWN=1 NOPS=3 SECOND=1 FEWSYM OPS=0x11fff")
            A("view2-%s" % n, v + ["-DLENS={0,L,L+1}"], "CHT=char OWN=0 NOPS=2 SECOND=1 FEWSYM")
    return hs


@prop("C12", ("construction/assignment/null/comparison/copy: all 2^64 addresses; histories of 2 operations (14 kinds, every operand and element index) over 5 pointers in static, stack, heap, struct and array storage",
              "as quick with histories of 3 operations"), "longer histories; the one distance of 2^63 bytes that encodes null")
def c12(th):
    return [H("address", "ptr.cpp", "SEC_ADDR"), H("history", "ptr.cpp", "NOPS=%d" % (3 if th else 2), timeout=3000 if th else 300)]


@prop("C19", ("sizes 1, 7, 63, 64, 65, 128, 130: all contents of one/two bit sets including the unused bits, every bit position, every shift 0..size+2",
              "as quick, sizes additionally 2, 31, 32, 33, 127, 129, 191, 192, 193, 200, 256"), "other sizes; string conversion and iteration with more than 5 free bits")
def c19(th):
    return [H("size%d" % s, "bitset.cpp", "SIZE=%d" % s) for s in ((1, 7, 63, 64, 65, 128, 130) + ((2, 31, 32, 33, 127, 129, 191, 192, 193, 200, 256) if th else ()))]


@prop("C20", ("one operation (16 kinds) on two bit vectors of every size in {0,1,63,64,65,128,130} with all contents including unused bits and every shift; two operations for sizes {3,65}; strong index type",
              "as quick, two operations for sizes {0,3,64,65,130}, three operations for size 65"), "longer histories, other sizes, other block types; concurrent use")
def c20(th):
    hs = [H("one-raw", "bitvec.cpp", "NS=raw NOPS=1 SECOND=1 ALLSHIFTS"), H("one-strong", "bitvec.cpp", "NS=offset STRONG NOPS=1 SECOND=1"),
          H("seq2", "bitvec.cpp", "NS=offset NOPS=2 SECOND=1", flags=["-DSIZES={0,3,64,65,130}" if th else "-DSIZES={3,65}"], timeout=3000 if th else 300)]
    if th:
        hs.append(H("seq3", "bitvec.cpp", "NS=raw NOPS=3 SECOND=1", flags=["-DSIZES={3,65}"], timeout=3600))
    return hs


@prop("C21", "all values of every supported width (8/16/32/64 bit); next_power_of_two: all non-zero values whose result is representable", "next_power_of_two(0) and unrepresentable results; non-GCC/Clang code paths")
def c21(th):
    return [H("count", "bits.cpp", "SEC_COUNT"), H("pow2", "bits.cpp", "SEC_POW2")]


@prop("C35", "every operation for all pairs of 8, 16, 32 and 64 bit unsigned and 8, 16, 32 bit signed values (except where the base type operation is undefined)", "floating point base types")
def c35(th):
    return [H("ops", "strong.cpp", flags=["-fwrapv"])]


@prop("C37", ("all chunk sizes and totals of at most 3 chunks; 10 chunk sizes with all totals of at most 8 chunks; FNV-1a of all byte sequences up to 12 bytes with every chunk size, other hash functions up to 40 bytes",
              "all chunk sizes and totals of at most 4 chunks; 10 chunk sizes with all totals of at most 12 chunks; FNV-1a up to 24 bytes"), "more chunks (the loop body does not depend on their number)")
def c37(th):
    hs = [H("chunk2", "bits.cpp", "SEC_CHUNK NCHUNK=2", reach=("end", "many")), H("chunk3", "bits.cpp", "SEC_CHUNK NCHUNK=%d" % (4 if th else 3), flags=["-O0"], reach=("end", "many")),
          H("chunkn", "bits.cpp", "SEC_CHUNK SIZES NCHUNK=%d" % (12 if th else 8), reach=("end", "many")), H("fnv", "bits.cpp", "SEC_HASH FNV NB=%d" % (24 if th else 12))]
    for d, i in (("CISTA_XXH3", "xxh3"), ("CISTA_WYHASH", "wyhash"), ("CISTA_WYHASH_FASTEST", "wyhash")):
        hs.append(H(d.lower(), "bits.cpp", "SEC_HASH NB=40 " + d, flags=["-I%s/tools/%s" % (REPO, i)]))
    return hs


@prop("C22", ("containers with 8-bit positions that lack 0-7 elements to be full: every addition of up to 261 elements; histories of 2 operations on vecvecs of up to 3 initial buckets (raw and offset pointers, plain and strong keys), all elements symbolic",
              "as quick with 3 operations"), "longer histories; element types other than int")
def c22(th):
    hs = [H("seq2-%s" % ns, "vecvec.cpp", "NS=%s ELEM=int NOPS=2 INIT=%d%s" % (ns, i, s)) for ns, i, s in (("raw", 3, ""), ("offset", 2, " STRONG"))] + limits(0, 1)
    if th:
        hs.append(H("seq3", "vecvec.cpp", "NS=offset ELEM=int NOPS=3 INIT=2 STRONG", timeout=3000))
    else:
        hs.append(H("seq3", "vecvec.cpp", "NS=offset ELEM=int NOPS=3 INIT=1", timeout=300))
    return hs


@prop("C23", ("containers with 8-bit positions that lack 0-7 elements to be full: every addition of up to 261 elements; 2 levels with up to 2 and 3 levels with 1 top-level entries, up to 2 sub-entries each; elements symbolic",
              "2 levels with up to 3 entries of up to 3 sub-entries; 3 levels with up to 2 entries of up to 2 sub-entries"), "more levels and entries")
def c23(th):
    if th:
        return limits(2, 8) + [H("two", "nvec.cpp", "NS=raw LEVELS=2 TOP=3 FANOUT=3", timeout=3000), H("three", "nvec.cpp", "NS=offset LEVELS=3 TOP=2 FANOUT=2 STRONG", timeout=3000)]
    return limits(2, 8) + [H("two", "nvec.cpp", "NS=raw LEVELS=2 TOP=2 FANOUT=2"), H("two-strong", "nvec.cpp", "NS=offset LEVELS=2 TOP=3 FANOUT=2 STRONG"), H("three", "nvec.cpp", "NS=offset LEVELS=3 TOP=1 FANOUT=2 STRONG")]



SER_GROUPS = ("SCALAR", "STRING", "VIEW", "CSTRING", "VECTOR", "SUM", "HASH", "HASHI", "STDPAIR", "VECVEC", "FWS", "MFWS", "BITVEC", "MATRIX", "NVEC", "PAGED", "RTREE")
SER_MODES = {"none": "mode::NONE", "ver": "mode::WITH_VERSION|mode::WITH_INTEGRITY|mode::DEEP_CHECK", "be": "mode::SERIALIZE_BIG_ENDIAN", "unchecked": "mode::UNCHECKED",
             "svbe": "mode::WITH_STATIC_VERSION|mode::SERIALIZE_BIG_ENDIAN|mode::DEEP_CHECK", "intbe": "mode::WITH_INTEGRITY|mode::SERIALIZE_BIG_ENDIAN"}
# combinations that do not compile: type_hash of std::pair, basic_cstring and rtree (union), big endian rtree
NO_COMPILE = {("STDPAIR", "ver"), ("CSTRING", "ver"), ("RTREE", "ver"), ("CSTRING", "svbe"), ("RTREE", "be"), ("RTREE", "svbe"), ("RTREE", "intbe")}


def ser(name, group, mode, ns, extra="", **kw):
    return H("%s-%s-%s%s" % (group.lower(), mode, ns, name), "ser.cpp", "G_%s NS=%s %s" % (group, ns, extra), flags=["-DMODES=" + SER_MODES[mode]] + kw.pop("flags", []), **kw)


PAGEDT = "cista::paged_vecvec<data::vector<cista::page<std::uint32_t,std::uint16_t>>,cista::paged<data::vector<std::uint32_t>,std::uint32_t>,std::uint32_t>"


@prop("C01", ("17 groups of types (scalars, enums, strings of 1/2/4 byte characters, views, vectors, optional/variant/tuple/pair/array, unique_ptr, hash maps/sets, vecvec, nvec, paged, multimaps, bit vectors, matrix, rtree), containers of 0-2 elements (hash: 0/1/2, strings around the inline limit), all scalar values; raw and offset pointers; modes none, version+checksum+deep check, big endian, unchecked",
              "as quick in all six mode combinations for both pointer kinds, containers of 0-3 elements, hash containers up to 8 entries"), "larger containers; types that only nest deeper; file and mmap targets (C11)")
def c01(th):
    hs = []
    for g in SER_GROUPS:
        for ns in NSS:
            for m in SER_MODES:
                if (g, m) in NO_COMPILE:
                    continue
                if not th and (m, ns) not in (("none", "offset"), ("ver", "raw"), ("be", "offset"), ("svbe", "raw")):
                    continue
                if not th and m == "svbe" and (g, "ver") not in NO_COMPILE:
                    continue
                hs.append(ser("", g, m, ns, "MAXN=3 HASHN=4" if th and g not in ("VECTOR",) else "", timeout=1500 if th else 300, validate=2 if m == "none" or th else 0))
    return hs


# (root type, buffer size quick/thorough, offsets of the root's pointers, symbolic-address read limit)
UNTRUSTED = {"VEC": (48, 64, "", 0), "STR": (40, 48, "", 0), "STR32": (40, 48, "", 0), "VIEW": (32, 48, "", 0), "CSTR": (32, 40, "", 0), "OPT": (56, 64, "", 0), "VAR": (64, 72, "", 0),
             "UNIQ": (56, 64, "0", 0), "PTR": (40, 48, "0,8", 16), "PTRVEC": (56, 72, "0", 0), "NEST": (72, 80, "8,32", 200), "VECVEC2": (48, 56, "0", 200), "VECSTR": (40, 48, "0", 16),
             "HASH": (80, 96, "0,8", 0), "SET8": (64, 72, "0,8", 0), "SETSTR": (88, 104, "0,8", 0), "HASHVEC": (96, 112, "0,8", 0), "TREE": (80, 96, "8", 200), "UTREE": (72, 88, "0", 200)}


def untrusted(t, th, mode, mname, ns="offset", trav=True, size=None, **kw):
    q, T, split, lim = UNTRUSTED[t]
    n = size or (T if th else q)
    fl = ["-DMODES=" + mode]
    if split:
        fl.append("-DSPLIT={%s}" % split)
    reach = kw.pop("reach", ("accepted", "rejected") + (("walked",) if trav else ()))
    return H("%s-%s-%s" % (t.lower(), mname, ns), "untrusted.cpp", "U_%s BUFN=%d NS=%s%s%s%s" % (t, n, ns, " TRAVERSE" if trav else "", " RAWPTR" if ns == "raw" else "", " " + kw.pop("extra") if "extra" in kw else ""), flags=fl,
             eopts=("--ite-limit", str(lim)) if lim else (), timeout=kw.pop("timeout", 2500 if th else 400), validate=kw.pop("validate", 2), reach=reach, **kw)


# containers with positions in other members; the vectors they consist of are ones accepted by themselves (offset, element size)
INDEXED = {"BITVEC": (48, 56, "{8,8}"), "VECVEC": (54, 56, "{0,1},{24,1}"), "NVEC": (76, 78, "{0,1},{24,1},{48,1}"), "FWS": (60, 68, "{0,1},{24,4}"),
           "MFWS": (108, 112, "{0,3},{24,1},{48,3},{72,3}"), "PAGED": (80, 88, "{0,4},{32,8}"), "MATRIX": (36, 40, "{8,1}"), "RTREE": (152, 172, "{88,20}")}


def indexed(t, th, mode, mname, ns="offset"):
    q, T, vecs = INDEXED[t]
    return H("%s-%s-%s" % (t.lower(), mname, ns), "untrusted.cpp", "U_%s BUFN=%d NS=%s TRAVERSE%s" % (t, T if th else q, ns, " RAWPTR" if ns == "raw" else ""), flags=["-DMODES=" + mode, "-DVECS={%s}" % vecs], timeout=2500 if th else 400, validate=2, reach=("accepted", "rejected", "walked"))


UB = ("every byte sequence of one length (32-96 bytes, room for the root and 1-4 elements) for 19 root types (vectors, strings, views, cstrings, optional, variant/tuple, unique_ptr, pointers, nested and recursive containers, hash tables), and 8 types of containers with index tables (vecvec, nvec, forward-star and mutable multimaps, paged vecvec, bitvec, flat matrix, rtree) made of acceptable vectors with arbitrary contents; offset pointers, %s",
      "as quick, buffers 8-16 bytes longer, raw pointers and big endian for every type")


@prop("C02", (UB[0] % "raw pointers and big endian for 6 of them; default mode", UB[1]), "longer buffers; user-defined serialization")
def c02(th):
    # pointers without ownership are not followed in this mode: no walk
    hs = [untrusted(t, th, "mode::NONE", "none", trav=t not in ("PTR", "PTRVEC")) for t in UNTRUSTED]
    for t in UNTRUSTED if th else ("VEC", "VAR", "UNIQ", "CSTR", "HASH"):
        hs.append(untrusted(t, th, "mode::NONE", "none", "raw", trav=t not in ("PTR", "PTRVEC"), validate=0))
    for t in UNTRUSTED if th else ("VEC", "STR32", "HASH"):
        hs.append(untrusted(t, th, "mode::SERIALIZE_BIG_ENDIAN", "be", "offset", trav=t not in ("PTR", "PTRVEC"), validate=0))
    hs.append(untrusted("VEC", th, "mode::NONE", "const", extra="CONST_BUF"))
    hs += [indexed(t, th, "mode::NONE", "none") for t in INDEXED]
    return hs


@prop("C03", (UB[0] % "raw pointers for 6 of them; deep check mode, everything reachable is visited and looked up (pointers two levels deep)", UB[1]), "longer buffers; pointer chains followed further; user-defined serialization")
def c03(th):
    hs = [untrusted(t, th, "mode::DEEP_CHECK", "deep") for t in UNTRUSTED] + [indexed(t, th, "mode::DEEP_CHECK", "deep") for t in INDEXED]
    for t in UNTRUSTED if th else ("VEC", "VAR", "UNIQ", "PTR", "CSTR", "HASH"):
        hs.append(untrusted(t, th, "mode::DEEP_CHECK", "deep", "raw", validate=0))
    for t in UNTRUSTED if th else ("UNIQ",):
        hs.append(untrusted(t, th, "mode::DEEP_CHECK|mode::SERIALIZE_BIG_ENDIAN", "deepbe", "offset", validate=0))
    if th:
        hs += [indexed(t, th, "mode::DEEP_CHECK", "deep", "raw") for t in INDEXED]
        for t in ("HASH", "SET8"):
            hs.append(untrusted(t, False, "mode::DEEP_CHECK", "deepkey", extra="SYMKEY"))
    return hs


@prop("C06", ("byte swapping of 20 scalar types, all values; the scalar, string, container and index members of 16 groups of types as in C01, 0-2 elements (hash: up to 2, strings around the inline limit), all scalar values; offset pointers; variants of 260 alternatives",
              "as quick with version and checksum headers, containers of 0-3 elements, hash containers up to 8 entries"), "raw pointers (C01); long double, rtree (big endian does not compile)")
def c06(th):
    hs = [H("endian", "endian.cpp"), H("bigvariant", "endian.cpp", "VARIANT")]
    for g in SER_GROUPS:
        if (g, "be") in NO_COMPILE:
            continue
        big = g in ("VECTOR", "SUM", "HASH")
        hs.append(H(g.lower(), "ser_be.cpp", "G_%s NS=offset%s" % (g, " MAXN=1" if big and not th else ""), flags=["-DSTRLENS={0,3,18}"] if big and not th else [], timeout=1500 if th else 300))
        if th and g not in ("STDPAIR", "CSTRING"):
            hs.append(H(g.lower() + "-hdr", "ser_be.cpp", "G_%s NS=offset%s" % (g, " MAXN=3 HASHN=4" if not big else ""), flags=["-DEXTRA=mode::WITH_VERSION"], timeout=1500))
    return hs


@prop("C27", ("histories of 3 steps (17 kinds of operation) over two variants of 3 alternatives (one with lifetime tracking), all values; comparisons of all values; variants of 15-33 alternatives; throwing constructors", "as quick, 4 steps"), "longer histories; more than 260 alternatives")
def c27(th):
    return [H("history", "variant.cpp", "STEPS=%d" % (4 if th else 3)), H("throw", "variant.cpp", "THROW")] + [H("alts%d" % n, "variant.cpp", "BIGN=%d" % n) for n in (15, 16, 17, 33)]


@prop("C28", ("histories of 3 steps (15 kinds of operation) over two optionals of tracked objects, 16 bit numbers and strings (inline and heap), all values", "as quick, 4 steps"), "longer histories")
def c28(th):
    return [H("tracked", "optional.cpp", "STEPS=%d" % (4 if th else 3)), H("int", "optional.cpp", "STEPS=%d EL_INT" % (4 if th else 3)), H("string", "optional.cpp", "STEPS=%d EL_STRING" % (3 if th else 2))]


@prop("C29", ("histories of 3 steps (12 kinds of operation) over two unique pointers to objects that own a further one, raw and offset pointers", "as quick, 5 steps"), "longer histories; longer ownership chains")
def c29(th):
    return [H(ns, "unique.cpp", "STEPS=%d NS=%s" % (5 if th else 3, ns)) for ns in NSS]


@prop("C30", "tuples of 1-5 elements of mixed sizes (and tracked objects), pairs, arrays of 3; all element values, every element written", "larger tuples")
def c30(th):
    return [H("tuple%d" % n, "tuple.cpp", "TUP%d" % n) for n in (1, 2, 3, 4, 5)] + [H("pair", "tuple.cpp", "PAIR"), H("tuple5-17", "tuple.cpp", "TUP5", std="c++20")]


@prop("C31", ("matrices of 0-3 x 0-3 cells (16 and 8 bit), all cell values, one write through each kind of access, resize; sizes whose product overflows (7 column counts, all row counts)", "0-5 x 0-5 cells"), "larger matrices")
def c31(th):
    return [H(ns, "matrix.cpp", "NS=%s MAXR=%d" % (ns, 5 if th else 3)) for ns in NSS] + [H("small", "matrix.cpp", "NS=raw EL=std::uint8_t MAXR=2"), H("overflow", "matrix.cpp", "HUGE_ NS=offset")]


STRKEY = "-DKEY(k)=((k)%2?data::string(std::string(15+(k),'a')):data::string(std::string(1+(k),'b')))"


@prop("C24", ("containers with 8-bit positions that lack 0-7 elements to be full: every addition of up to 261 elements; paged storage: histories of 4 operations over 4 pages of 0-11 elements, also with a maximal page size of 4; vectors of pages: histories of 2 operations on up to 3 initial buckets, plain and strong keys, small pages (maximum 4); buckets above the maximal page size; all elements symbolic", "5 operations over 4 pages; 3 operations on vectors of pages"), "longer histories; pages above 12 elements (except for the reporting of oversized ones)")
def c24(th):
    hs = [H("pages", "paged.cpp", "LOW NS=raw NOPS=%d" % (5 if th else 4), timeout=3000), H("pages-small", "paged.cpp", "LOW NS=offset MAXPAGE=4 NOPS=%d" % (5 if th else 4), timeout=3000),
          H("pages-u64", "paged.cpp", "LOW NS=offset ELEM=std::uint64_t MINPAGE=1 NOPS=%d" % (4 if th else 3), timeout=3000),
          H("seq", "paged.cpp", "NS=offset NOPS=2 INIT=2"), H("seq-small", "paged.cpp", "NS=raw STRONG PST=std::uint8_t MAXPAGE=4 NOPS=2 INIT=2")]
    hs += [H("oversized%d" % m, "paged.cpp", "NS=raw NOPS=0 INIT=2 PST=std::uint8_t MAXPAGE=%d OVERSIZED" % m) for m in (8, 128)] + limits(5, 6)
    if th:
        hs += [H("seq2", "paged.cpp", "NS=raw NOPS=2 INIT=3", timeout=3000), H("seq3", "paged.cpp", "NS=offset STRONG NOPS=3 INIT=1 MAXPAGE=8", timeout=3000)]
    return hs


@prop("C25", ("containers with 8-bit positions that lack 0-7 elements to be full: every addition of up to 261 elements; histories of up to 5 pushes, emplacements, finished keys, copies and moves; up to 5 keys; all elements symbolic; 32 and 64 bit keys; elements with tracked lifetimes", "up to 7 operations"), "longer histories; narrow and strong keys (do not compile); reading the last key of an unfinished map")
def c25(th):
    n = 7 if th else 5
    return limits(3, 7) + [H("int", "fws.cpp", "NS=raw NOPS=%d" % n, timeout=3000), H("u64key", "fws.cpp", "NS=raw KEYT=std::uint64_t NOPS=4"), H("tracked", "fws.cpp", "NS=offset ELEM=vs::tracked TRACKED NOPS=%d" % (6 if th else 4), timeout=3000)]


@prop("C26", ("histories of 2 operations of 20 kinds on 3 initial buckets, of 3 operations of 7 kinds on 2 buckets and of 4 operations of 4 kinds; buckets of up to 12 elements, also with a maximum of 4 elements per bucket; plain and strong keys; all elements symbolic",
              "as quick with one operation more each"), "longer histories; the iterators returned by erase; element types other than 16 bit integers")
def c26(th):
    x = 1 if th else 0
    return [H("all", "mutable.cpp", "NS=offset NOPS=2 INIT=3", timeout=3000), H("limit", "mutable.cpp", "NS=raw STRONG LOGMAX=2 NOPS=2 INIT=2", timeout=3000),
            H("one", "mutable.cpp", "NS=raw NOPS=1 INIT=3"), H("one-strong", "mutable.cpp", "NS=offset STRONG NOPS=1 INIT=2"), H("empty", "mutable.cpp", "NS=raw NOPS=%d INIT=0" % (2 + x), timeout=3000),
            H("reuse", "mutable.cpp", "NS=offset NOPS=%d INIT=2 OPS=0x2255" % (3 + x), timeout=3000), H("free", "mutable.cpp", "NS=raw NOPS=%d INIT=2 OPS=0x4211" % (4 + x), timeout=3000)]


@prop("C32", ("histories of up to 4 insertions and deletions (existing entries, by function, absent ones) after 0-10 fixed entries; 1 and 2 dimensions with all coordinates 0-7 (2 operations symbolic in 1 dimension, 1 in 2 dimensions, further ones with coordinates 0-3 split value by value), 3 dimensions with fixed entries; every query rectangle with coordinates 0-7 and the one covering everything; nodes of 2-4 items; trees of more than 16 levels; integers, one configuration with floats",
              "one operation or entry more each"), "NaN and infinite coordinates; overflowing areas; longer histories; non-trivial entry types; nodes of one item")
def c32(th):
    def h(name, ns, defs, **k):
        return H(name, "rtree.cpp", "NS=%s %s" % (ns, defs), eopts=["--fork-select"], timeout=3000 if th else 800, **k)
    hs = [h("line3", "raw", "PRE=0 NOPS=3 DIMS=1"), h("line5", "offset", "PRE=3 NOPS=2 DIMS=1"), h("points4", "raw", "PRE=0 NOPS=4 DIMS=1 MAXC=3 POINTS"), h("plane4", "raw", "PRE=3 NOPS=1"),
          h("plane6", "raw", "PRE=4 NOPS=2 NSYM=0 MAXC=2"), h("items3", "offset", "PRE=12 NOPS=1 NSYM=0 MAXC=3 ITEMS=3"), h("items4", "raw", "PRE=16 NOPS=1 NSYM=0 MAXC=3 ITEMS=4"),
          h("drain", "raw", "PRE=8 NOPS=1 NSYM=0 MAXC=3 ITEMS=3 DRAIN"), h("drain2", "offset", "PRE=5 NOPS=0 DRAIN"), h("drain3", "raw", "PRE=3 NOPS=1 DIMS=1 DRAIN"), h("copy3d", "offset", "PRE=4 NOPS=0 COPY DIMS=3"),
          h("float", "raw", "PRE=6 NOPS=1 NSYM=0 MAXC=1 ITEMS=3 NUM=float"), h("deep", "offset", "PRE=45 NOPS=1 NSYM=0 DEEP DIMS=1 OPS=3 NUM=std::int64_t")]
    if th:
        hs += [h("line4", "raw", "PRE=0 NOPS=4 DIMS=1"), h("line6", "offset", "PRE=3 NOPS=3 DIMS=1 MAXC=3"), h("points5", "raw", "PRE=0 NOPS=5 DIMS=1 MAXC=3 POINTS"), h("plane5", "raw", "PRE=5 NOPS=1 ITEMS=3"),
               h("plane7", "raw", "PRE=5 NOPS=2 NSYM=0 MAXC=2 ITEMS=3"), h("plane-sym", "raw", "PRE=3 NOPS=2 POINTS MAXC=3"), h("float2", "raw", "PRE=4 NOPS=1 NSYM=0 MAXC=2 NUM=float")]
    return hs


@prop("C33", "bit sets of 3, 64, 70, 128 bits and bit vectors of 1, 64, 70 bits after inversions, shifts, growth; hash sets and maps of up to 3 entries inserted in 4 orders with and without previous growth and erasure; strings (owned, inline, views, cstrings, std) of 7 lengths; structs, vectors, pairs, variants, arrays, strong types, enums, pointers, optionals, durations; all values", "the hash algorithms other than FNV-1a; floating point values; hash keys whose type differs from the stored one in width or sign")
def c33(th):
    hs = [H("bitset%d" % n, "hashing.cpp", "HBITS BITN=%d" % n) for n in (3, 64, 70, 128)] + [H("bitvec%d" % n, "hashing.cpp", "HBITS VEC_ BITN=%d" % n) for n in (1, 64, 70)]
    for ns in NSS:
        hs += [H("strings-" + ns, "hashing.cpp", "STRINGS NS=" + ns), H("values-" + ns, "hashing.cpp", "VALUES NS=" + ns)]
    hs.append(H("set", "hashing.cpp", "", flags=["-DTABLE=data::hash_set<unsigned>", "-DKEY(k)=unsigned(k)"]))
    hs.append(H("map", "hashing.cpp", "MAP NS=raw", flags=["-DTABLE=data::hash_map<unsigned,std::uint8_t>", "-DKEY(k)=unsigned(k)"]))
    hs.append(H("strset", "hashing.cpp", "NS=raw", flags=["-DTABLE=data::hash_set<data::string>", STRKEY]))
    hs.append(H("strmap", "hashing.cpp", "MAP", flags=["-DTABLE=data::hash_map<data::string,std::uint8_t>", STRKEY]))
    return hs


@prop("C34", "structs of 1 to 64 members of 7 types, every member, all written values; comparison operators of 14 structs of 1-9 members (both macros, nested, explicitly listed members), all pairs of values", "inherited structs; floating point members; printing")
def c34(th):
    return [H("arity%d" % a, "reflection.cpp", "ARITY=%s" % ",".join(str(n) for n in range(a, a + 8))) for a in range(1, 64, 8)] + [H("compare", "reflection.cpp", "COMPARE"), H("compare-20", "reflection.cpp", "COMPARE", std="c++20")]


def hdr(name, kind, modes, root, **k):
    return H(name, "hdr.cpp", kind + " ROOT=%d" % root + (" BIGENDIAN" if "BIG" in modes else ""), flags=["-DMODES=" + modes] + k.pop("flags", []), **k)


I, V, SV, BE = "mode::WITH_INTEGRITY", "mode::WITH_VERSION", "mode::WITH_STATIC_VERSION", "mode::SERIALIZE_BIG_ENDIAN"


@prop("C04", "serialized objects of 4 types (1-60 bytes payload, all contents), every byte of payload and checksum changed to every other value; with and without version header, big endian", "payloads above 60 bytes; checksums other than FNV-1a; more than one modified byte")
def c04(th):
    hs = [hdr("same%d" % r, "CHECKSUM", I, r, reach=("end", "changed", "same"), timeout=900) for r in (0, 1, 2, 3)]
    hs += [hdr("version%d" % r, "CHECKSUM", I + "|" + V, r, reach=("end", "changed", "same"), timeout=900) for r in ((0, 1, 2, 3) if th else (2,))]
    hs += [hdr("be%d" % r, "CHECKSUM", I + "|" + SV + "|" + BE, r, reach=("end", "changed", "same"), timeout=900) for r in ((0, 1, 2, 3) if th else (2, 3))]
    return hs


@prop("C05", "4 root types, all contents of 0-2 elements; every other version, data of another type; every length below headers plus root object (5 combinations of headers); skipped headers with any content (6 combinations of modes)", "other root types; version collisions of the 64 bit type hash")
def c05(th):
    hs = []
    for r in (0, 1, 2, 3):
        hs += [hdr("version%d" % r, "VERSION", V, r, reach=("end", "changed", "same")), hdr("static%d" % r, "VERSION", SV + "|" + I, r, reach=("end", "changed", "same"))]
        hs += [hdr("short%d-%d" % (i, r), "TRUNC", m, r) for i, m in enumerate(("mode::NONE", V, I, SV + "|" + I, V + "|" + I + "|" + BE + "|mode::DEEP_CHECK")) if th or r != 2]
        if r != 0 and not th:
            continue
        for i, (m, s) in enumerate(((V + "|" + I, "mode::SKIP_VERSION|" + I), (V + "|" + I, V + "|mode::SKIP_INTEGRITY"), (SV + "|" + I, "mode::SKIP_VERSION|mode::SKIP_INTEGRITY"),
                                    (V, "mode::SKIP_VERSION|mode::UNCHECKED"), (I, "mode::SKIP_INTEGRITY|mode::DEEP_CHECK"), (V + "|" + I, "mode::CAST|mode::SKIP_VERSION|mode::SKIP_INTEGRITY"))):
            hs.append(hdr("skip%d-%d" % (i, r), "SKIP", m, r, flags=["-DSKIP=" + s]))
    return hs


DET = (("vector", "data::vector<std::uint32_t>"), ("strings", "data::vector<data::string>"), ("u32string", "data::u32string"), ("cstring", "cista::basic_cstring<data::ptr<char const>>"), ("unique", "data::unique_ptr<std::uint32_t>"),
       ("optional", "cista::optional<data::string>"), ("variant", "cista::variant<std::uint64_t,data::string>"), ("hashset", "data::hash_set<std::uint32_t>"), ("hashmap", "data::hash_map<std::uint32_t,data::string>"),
       ("pair", "cista::pair<data::string,std::uint64_t>"), ("bitvec", "data::bitvec"), ("bitset", "cista::bitset<70>"), ("vecvec", "data::vecvec<std::uint32_t,std::uint16_t>"), ("nvec", "data::nvec<std::uint32_t,std::uint16_t,2>"),
       ("matrix", "data::flat_matrix<std::uint16_t>"), ("fws", "data::fws_multimap<std::uint32_t,std::uint16_t>"), ("mfws", "data::mutable_fws_multimap<std::uint32_t,std::uint16_t,4>"), ("rtree", "data::rtree<std::uint16_t,2,float,4>"), ("array", "cista::array<data::string,2>"))


@prop("C07", "18 groups of types as in C01 (0-2 elements, all scalar values), serialized, deserialized, moved to a second address and read there; serialized bytes of 19 types built at two different places in memory, all values",
      "padding bytes inside of objects and unused hash table slots (only deterministic with CISTA_ZERO_OUT, which is used here); raw pointers (not relocatable after deserialization)")
def c07(th):
    hs = []
    for g in SER_GROUPS:
        big = g in ("VECTOR", "SUM", "HASH")
        hs.append(H("move-" + g.lower(), "ser_det.cpp", "G_%s%s" % (g, " MAXN=1" if big and not th else ""), flags=["-DSTRLENS={0,3,18}"] if big and not th else [], timeout=1500, validate=2))
        if th and (g, "ver") not in NO_COMPILE:
            hs.append(H("move-hdr-" + g.lower(), "ser_det.cpp", "G_%s MAXN=3 HASHN=4" % g if not big else "G_" + g, flags=["-DMODES=mode::WITH_VERSION|mode::WITH_INTEGRITY"], timeout=1500, validate=2))
    for n, t in DET:
        hs.append(H("bytes-" + n, "ser_det.cpp", "MAXN=3 HASHN=4" if th else "", flags=["-DDET=" + t] + (["-DCISTA_ZERO_OUT"] if n.startswith("hash") else []), validate=2, timeout=1500))
    return hs


@prop("C08", ("an object with 17 pointer sites (members, elements of vectors, hash maps, variants, optionals, pairs, arrays, tuples, owned nodes) of which one refers to any of 8 targets (null, vector elements, owned objects, each before and after the site); every target; 4 combinations of modes", "two sites chosen independently"), "pointers to non-indexed vector elements or plain members (rejected by serialize)")
def c08(th):
    hs = []
    for ns in NSS:
        for i, m in enumerate(("mode::NONE", "mode::WITH_VERSION|mode::WITH_INTEGRITY|mode::DEEP_CHECK", "mode::SERIALIZE_BIG_ENDIAN", "mode::UNCHECKED")):
            if th or ns == "raw" or i != 1:
                hs.append(H("graph-%s%d" % (ns, i), "ptrgraph.cpp", "NS=" + ns + (" TWO" if th else ""), flags=["-DMODES=" + m], timeout=1500))
    return hs


@prop("C09", "elements of alignment 16, 32 and 64 as root member, in vectors, unique pointers, sum types, tuples, hash tables, vecvec/nvec; serialization targets at 8 different alignments; no header, one and two headers; 0-2 elements, all values (types of alignment up to 8 are covered by C01)",
      "alignments above 64; file targets (C11)")
def c09(th):
    hs = []
    for t in ("ROOT", "VEC", "PTR", "SUM", "TUP", "HASH", "INDEX"):
        for i, m in enumerate(("mode::NONE", "mode::WITH_VERSION", "mode::WITH_VERSION|mode::WITH_INTEGRITY", "mode::SERIALIZE_BIG_ENDIAN")):
            for al in (16, 32, 64):
                for ns in NSS:
                    if th or (i, al, ns) in ((0, 32, "offset"), (1, 16, "raw"), (2, 64, "offset"), (1, 64, "offset")):
                        hs.append(H("%s%d-%d-%s" % (t.lower(), al, i, ns), "align.cpp", "T_%s AL=%d NS=%s" % (t, al, ns), flags=["-DSTRLENS={0,18}", "-DMODES=" + m], validate=2, timeout=1500))
    return hs


OSW = ["-Wl," + ",".join("--wrap=" + w for w in "fopen fclose fwrite fread fflush fseek fseeko rewind ftell ftello ferror feof clearerr fileno fsync fdatasync fstat ftruncate posix_fallocate mmap msync munmap mremap madvise".split())]


@prop("C36", ("all sizes from 2^40 (64-bit); 8-bit sizes that lack 0-3 elements; histories of 2 operations (15 kinds: push_back, emplace_back, resize, reserve, set, insert of one element / forward / input ranges, own elements, write, move, close and reopen, ...) on files with 0-2 elements of 1, 4 and 12 bytes, one failing system call at any position; vecvec, paged_vecvec (2-3 operations) and an rtree (6 entries) stored in files; element values symbolic",
              "3 operations, rtree with 10 entries"),
      "the system calls are modelled (small pages, every mapping gets a new address); failing system calls while a file is closed (the destructor terminates the program); crashes in between operations; Windows")
def c36(th):
    hs = []
    for e in ("std::uint32_t", "std::uint8_t", "rec"):
        for f in (0, 1):
            hs.append(H("vec-%s-f%d" % (e[-3:], f), "mmap_vec.cpp", "ELEM=%s INIT=2 NOPS=2 FAULTS=%d" % (e, f), reach=("end", "fault") if f else ("end",), ldflags=OSW))
    hs.append(H("vec3", "mmap_vec.cpp", "ELEM=std::uint32_t INIT=1 NOPS=3" + ("" if th else " OPS=0x404f"), ldflags=OSW, timeout=1500))
    if th:
        hs.append(H("vec3-f", "mmap_vec.cpp", "ELEM=rec INIT=1 NOPS=3 FAULTS=1 OPS=0x44cf", reach=("end", "fault"), ldflags=OSW, timeout=1500))
        hs.append(H("vec2-ff", "mmap_vec.cpp", "ELEM=rec INIT=2 NOPS=2 FAULTS=2", reach=("end", "fault"), ldflags=OSW, timeout=1500))
    hs += [H("max%d" % m, "mmap_max.cpp", "MODE=%d" % m, flags=["-Wno-c++11-narrowing"], reach=("end", "full", "added") if m == 2 else ("end",), ldflags=OSW) for m in (0, 1, 2)]
    hs.append(H("vec-key", "mmap_vec.cpp", "INIT=2 NOPS=2 FAULTS=0 ELEM=std::uint32_t", flags=["-DKEY=cista::strong<std::uint16_t,struct k_>"], ldflags=OSW))
    for c in ("VECVEC", "PAGED"):
        hs.append(H("index-" + c.lower(), "mmap_index.cpp", "%s NOPS=%d" % (c, 4 if th else 3), ldflags=OSW, timeout=1500))
    hs.append(H("index-rtree", "mmap_index.cpp", "RTREE OS_CAP=8192 NOPS=%d" % (10 if th else 6), eopts=["--fork-select"], ldflags=OSW, timeout=1500))
    return hs


@prop("C10", ("histories of 1-2 operations on two containers of up to 1-2 elements (hash tables up to 8) in a deserialized buffer, compared with the same operations on the original; strings of 3/18 characters (inline/heap) and more; all element values; wrapped<T> with all kinds of memory but mmap", "histories of 3 operations, nested containers, more elements"),
      "memory of elements added to a vector inside of the buffer when that vector itself is moved from, assigned or destroyed without clear() (recorded finding); string views; cista::wrapped over mmap")
def c10(th):
    hs = []
    B = ("end",)
    def c(name, ns, ty, nops, maxn=1, defs="", lens="{3,18}", known=None):
        hs.append(H("%s-%s-%d" % (name, ns, nops), "ser_mod.cpp", "NS=%s NOPS=%d MAXN=%d %s" % (ns, nops, maxn, defs),
                    flags=["-DSTRLENS=" + lens] + (["-DTYPE=" + ty] if ty else []), timeout=1500, known=known))
    for ns in ("raw", "offset"):
        for nops, x in ((1, 2), (2, 1)):
            c("vector", ns, "data::vector<std::uint16_t>", nops, x)
            c("vector-string", ns, "data::vector<data::string>", nops, x)
            c("string", ns, "data::string", nops, x, lens="{0,3,15,16,18}" if nops == 1 else "{0,15,16}")
            c("cstring", ns, "cista::basic_cstring<data::ptr<char const>>", nops, x, lens="{0,15,16}")
            c("unique", ns, "data::unique_ptr<rec>", nops, x)
            c("optional", ns, "cista::optional<data::string>", nops, x)
            c("variant", ns, "cista::variant<std::uint32_t,data::string>", nops, x)
            c("map-string", ns, "data::hash_map<std::uint32_t,data::string>", nops, x, "HASHN=%d" % (3 if nops == 1 else 2))
            c("set", ns, "data::hash_set<std::uint32_t>", nops, x, "HASHN=4")
            c("vecvec", ns, "data::vecvec<std::uint32_t,std::uint16_t>", nops, x)
            c("fws", ns, "data::fws_multimap<std::uint32_t,std::uint16_t>", nops, x)
            c("mutable", ns, "data::mutable_fws_multimap<std::uint32_t,std::uint16_t,4>", nops, x)
            c("bitvec", ns, "data::bitvec", nops, x) if nops == 1 or ns == "raw" else None
            c("matrix", ns, "data::flat_matrix<std::uint16_t>", nops, x)
            c("nvec", ns, "data::nvec<std::uint32_t,std::uint16_t,2>", nops, x) if nops == 1 or ns == "offset" else None
            c("rtree", ns, None, nops, x, "G_MRTREE")
        c("paged", ns, PAGEDT, 1, 1)
        c("vector-vector", ns, "data::vector<data::vector<std::uint16_t>>", 2)
        c("map-string-vector", ns, "data::hash_map<data::string,data::vector<std::uint16_t>>", 2, 1, "HASHN=2")
        hs.append(H("wrapped-" + ns, "wrapped.cpp", "NS=%s NOPS=2" % ns))
    c("elements", "raw", "data::vector<data::string>", 1, 1, "ELEM_LEAK OPS=2048", lens="{18}", known="buffer-vector-elements-leak")
    if th:
        for ns in ("raw", "offset"):
            c("vector", ns, "data::vector<std::uint16_t>", 3, 1)
            c("vector-string", ns, "data::vector<data::string>", 3, 1, lens="{18}")
            c("string", ns, "data::string", 3, 1, lens="{15,16}")
            c("cstring", ns, "cista::basic_cstring<data::ptr<char const>>", 3, 1, lens="{15,16}")
            c("unique", ns, "data::unique_ptr<rec>", 3, 1)
            c("set", ns, "data::hash_set<std::uint32_t>", 3, 1, "HASHN=4")
            c("vecvec", ns, "data::vecvec<std::uint32_t,std::uint16_t>", 3, 1, "")
            c("matrix", ns, "data::flat_matrix<std::uint16_t>", 3, 1)
            c("rtree", ns, None, 3, 1, "G_MRTREE")
            hs.append(H("wrapped-3-" + ns, "wrapped.cpp", "NS=%s NOPS=3" % ns, timeout=1500))
        c("map-string-full", "raw", "data::hash_map<std::uint32_t,data::string>", 2, 1, "HASHN=3", lens="{18}")
        c("paged", "offset", PAGEDT, 2, 1, "OPS=14")
    return hs


@prop("C11", ("3 operations (2 with a failing system call at any position) of 6 kinds (append of 0, 1, 3, 8 or 21 bytes with alignment 0, 1, 2, 8, 16, overwrite, checksum, read back, move) on each target against one model; checksum over more than one chunk of 512 KiB; 4 types serialized to all targets with version and checksum and read back or mapped, without and with one failing call at any position; write/read/read_mmap of files", "4 operations, 3 with faults"),
      "the system calls are modelled; failing calls while a mapping is closed (the destructor terminates the program); XXH3/WYHASH configurations (those libraries are not available offline); Windows")
def c11(th):
    hs = []
    for n, t in enumerate(("mem", "mmap", "file")):
        hs.append(H("writes-" + t, "targets.cpp", "TARGET=%d NOPS=%d" % (n, 3), ldflags=OSW, timeout=1500))
        if n:
            hs.append(H("faults-" + t, "targets.cpp", "TARGET=%d NOPS=%d FAULTS=1" % (n, 3 if th else 2), reach=("end", "fault"), ldflags=OSW, timeout=1500))
        if th:
            hs.append(H("writes4-" + t, "targets.cpp", "TARGET=%d NOPS=4 OPS=0x2b" % n, ldflags=OSW, timeout=1500))
    hs.append(H("close", "targets.cpp", "TARGET=2 NOPS=1 FAULTS=1 CLOSE", ldflags=OSW, known="file-close-unreported"))
    hs.append(H("chunks", "targets.cpp", "BIG=524388 OS_CAP=600000", ldflags=OSW))
    for g in ("STRING", "VIEW", "BITVEC", "VECVEC") + (("VECTOR", "NVEC", "MATRIX", "FWS") if th else ()):
        fl = ["-DSTRLENS={0,18}", "-DMODES=mode::WITH_VERSION|mode::WITH_INTEGRITY"]
        for f in (0, 1):
            if f == 0 or g in ("STRING", "BITVEC") or th:
                hs.append(H("ser-%s-f%d" % (g.lower(), f), "targets.cpp", "SER G_%s FAULTS=%d MAXN=1" % (g, f), flags=fl, reach=("end", "fault") if f else ("end",), ldflags=OSW, timeout=1500))
        if g not in ("RTREE",):
            hs.append(H("io-" + g.lower(), "targets.cpp", "SER IO G_%s MAXN=1" % g, flags=fl[:1], ldflags=OSW, timeout=1500))
    return hs


TSAN = ["-Xclang", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1", "-mllvm", "-tsan-instrument-func-entry-exit=0"]


@prop("C39", ("all interleavings of the accesses to the shared fields of 2-3 threads with 1-2 operations each; all operands, initial values and bit positions (bitvec of 70 bits; get_next: all combinations of 6 bits)", "2 threads with up to 3 operations, 4 threads with one"),
      "one memory location at a time (sequentially consistent there under every memory order); spurious failures of weak compare-and-exchange; MSVC")
def c39(th):
    hs = []
    def c(name, defs, std="c++17"):
        hs.append(H(name, "atomic.cpp", defs, flags=TSAN, std=std, timeout=1500))
    for std in ("c++17", "c++20"):
        c("field-2x2-" + std, "FIELD THREADS=2 NOPS=2", std)
        c("field-3x1-" + std, "FIELD THREADS=3 NOPS=1", std)
        c("minmax-2x1-" + std, "MINMAX THREADS=2 NOPS=1", std)
    c("minmax-3x1", "MINMAX THREADS=3 NOPS=1")
    c("setbit-2x1", "SETBIT THREADS=2 NOPS=1")
    c("setbit-3x1", "SETBIT THREADS=3 NOPS=1")
    c("setbit-3x1-20", "SETBIT THREADS=3 NOPS=1", "c++20")
    c("next-2x2", "NEXT SIZE=6 THREADS=2 NOPS=2")
    c("next-3x1", "NEXT SIZE=67 THREADS=3 NOPS=1")
    if th:
        c("minmax-2x2", "MINMAX THREADS=2 NOPS=2")
        c("setbit-2x2", "SETBIT THREADS=2 NOPS=2")
        c("field-2x3", "FIELD THREADS=2 NOPS=3")
        c("field-4x1", "FIELD THREADS=4 NOPS=1")
        c("next-2x3", "NEXT SIZE=6 THREADS=2 NOPS=3")
    return hs



@prop("C40", ("one of the first 1-5 allocations of an operation and all later ones of that operation fail, in every operation of histories of 1-2 operations (nested index containers 2) on containers of up to 3 (hash tables 7) elements; elements are bytes or own heap memory whose allocation may fail as well; all values; aligned_allocator: all 2^64 element counts", "3 operations, more elements"),
      "copy assignment of containers made of several vectors (recorded finding); elements whose move constructor throws; std::pmr")
def c40(th):
    hs = []
    def c(name, kind, defs, **kw):
        hs.append(H(name, "allocfail.cpp", "KIND=%d %s" % (kind, defs), reach=("end", "failed", "done"), timeout=1500, **kw))
    for ns in ("raw", "offset"):
        n = "NS=%s " % ns
        for e in (0, 1):
            c("vector-%s-%d" % (ns, e), 0, n + "ELEM=%d INIT=2 NOPS=%d MAXF=%d" % (e, 1 if ns == "offset" and e else 2, 4 if e else 2))
            c("map-%s-%d" % (ns, e), 3, n + "ELEM=%d INIT=3 NOPS=%d MAXF=4 COLL=%d" % (e, 2 if ns == "raw" else 1, e))
            c("set-%s-%d" % (ns, e), 4, n + "ELEM=%d INIT=7 NOPS=%d MAXF=3 COLL=%d" % (e, 1, 1 - e))
            c("vecvec-%s-%d" % (ns, e), 6, n + "ELEM=%d NOPS=2 MAXF=4" % e)
            c("nvec-%s-%d" % (ns, e), 9, n + "ELEM=%d NOPS=2 MAXF=6" % e)
        c("string-" + ns, 1, n + "ELEM=0 NOPS=1 MAXF=2 INIT=1")
        c("cstring-" + ns, 2, n + "ELEM=0 NOPS=1 MAXF=2 INIT=1")
        c("values-" + ns, 5, n + "ELEM=1 NOPS=1 MAXF=3 INIT=1")
        c("mutable-" + ns, 7, n + "ELEM=0 NOPS=2 MAXF=3")
        c("paged-" + ns, 8, n + "ELEM=0 NOPS=2 MAXF=2")
        c("bits-" + ns, 10, n + "ELEM=0 NOPS=1 MAXF=1")
        c("rtree-" + ns, 11, n + "ELEM=0 NOPS=%d MAXF=2" % (4 if ns == "raw" else 3))
    for e, a in ((1, 16), (3, 64), (8, 16), (8, 64)):
        hs.append(H("aligned-%d-%d" % (e, a), "align_alloc.cpp", "ELEM=%d ALIGN=%d" % (e, a), reach=("end", "ok", "failed")))
    hs.append(H("assign-parts", "allocfail.cpp", "KIND=12 NS=raw ELEM=0 MAXF=1", known="assign-parts-alloc"))
    if th:
        c("vector-3", 0, "NS=raw ELEM=1 INIT=1 NOPS=3 MAXF=2")
        c("vector-0-3", 0, "NS=raw ELEM=0 INIT=3 NOPS=2 MAXF=1")
        c("map-3", 3, "NS=raw ELEM=1 INIT=3 NOPS=3 MAXF=2 COLL=0")
        c("set-2", 4, "NS=raw ELEM=1 INIT=7 NOPS=2 MAXF=3 COLL=0")
        c("vecvec-3", 6, "NS=raw ELEM=1 NOPS=3 MAXF=2")
        c("nvec-3", 9, "NS=raw ELEM=1 NOPS=3 MAXF=6")
        c("mutable-3", 7, "NS=raw ELEM=0 NOPS=3 MAXF=2")
        c("paged-3", 8, "NS=raw ELEM=0 NOPS=3 MAXF=2")
        c("rtree-6", 11, "NS=raw ELEM=0 NOPS=6 MAXF=1")
    return hs


NOT_APPLICABLE = {
    "C38": "quantifies over pairs of type definitions (programs), compilers and builds: the hash of one given type is a constant, so there is no run-time value, schedule or fault a solver could range over, "
           "and \"different types never collide\" is false for any 64-bit hash; what is left is an enumeration of concrete type pairs, which this family of technique excludes",
}
