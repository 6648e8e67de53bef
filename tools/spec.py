"""Which harness runs decide which property, with their bounds."""

CROSS_SOLVERS = ["cvc5 --incremental --tlimit-per=60000"]
SOLVER_TEXT = "z3 5.3.2 over SMT-LIB2 (QF_AUFBV), cvc5 1.1.2 when z3 gives up"
VALIDATE_QUICK = 8

CRATES = {
    "hx": {},
    "cx": {"bin": True},
    "px": {"own": ["poppy_filters", "symrt", "pyo3", "pyo3_macros"]},
}

STATE = "one of the parameter sets of harness/hx/src/common.rs (cfg); every stored bit, every index cache bit and the 64-bit element count symbolic"
VALUE = "values of 0, 1, 8, 9 and 16 symbolic bytes"
TWO = "second value of 5 or 11 symbolic bytes"

# what is symbolic and what is bounded, per harness
BOUNDS = {
    "c01_insert": STATE + "; " + VALUE,
    "c01_keep": STATE + "; " + VALUE + "; " + TWO,
    "c01_fresh": "a new filter, two insertions; " + VALUE + "; " + TWO,
    "c02": STATE + "; " + VALUE,
    "c03_union": "two filters, each " + STATE + "; 2 and 3 symbolic bytes of attached data; " + VALUE,
    "c03_owned": "two filters, each " + STATE,
    "c03_differ": "five parameter sets, seven ways to differ; bits and counts symbolic",
    "c04_inter": "two filters, each " + STATE + "; 2 and 3 symbolic bytes of attached data; " + VALUE,
    "c04_owned": "two filters, each " + STATE,
    "c04_differ": "four parameter sets, six ways to differ; bits and counts symbolic",
    "c05_bytes": STATE + "; attached data symbolic; one lookup and one insertion afterwards",
    "c05_reader": STATE + "; attached data of 0, 1, 13 and 9000 bytes; readers that deliver at most `chunk` bytes and are interrupted, the filter starting at byte `prefix`",
    "c05_fresh": "a new filter with symbolic values inserted",
    "c06": STATE + "; capacity symbolic; attached data of 0, 1, 13 and 9000 bytes, symbolic (first and last bytes of the longest)",
    "c07_script": "bits and count symbolic; the first 3 calls of the writer each accept a symbolic number of bytes, are interrupted or fail",
    "c07_room": "bits and count symbolic; the writer fails after a symbolic number of bytes, accepting chunks of one of 5 sizes",
    "c08_any": "every byte symbolic, lengths as given; memory limit 1 MiB per allocation",
    "c08_use": "header fields symbolic, small bodies; the accepted filter is queried, inserted into and merged",
    "c08_cut": "a valid file cut at every length before its attached data",
    "c09": STATE + "; capacity symbolic; " + VALUE,
    "c10": STATE + "; 3 symbolic bytes of attached data; " + VALUE,
    "c11_pos": "hash counts and bit counts as given, values of the given length with all bytes symbolic (9 bytes of those longer than 128), all stored bits symbolic",
    "c12_pos": "hash, bucket and cache counts as given, values of the given length with all bytes symbolic (9 bytes of those longer than 128), all stored bits symbolic",
    "c12_new": "layout of a new filter, parameter sets as given",
    "c14_array_large": "bitsets of up to 4096 bytes, a window of symbolic bytes at 7 places, the others constant",
    "c14_vec_large": "bitsets of up to 500 bits, a window of symbolic bytes at 7 places, the others constant",
    "c15_fpp": "all 2^64 bit patterns of fpp outside the accepted range, all versions and levels",
    "c15_new": "capacities and accepted fpp values from lists (the dimensions need real logarithms)",
    "c16_merge": "bits symbolic at the positions `at`, the others constant; counts symbolic",
    "c17_any": "files of n symbolic bytes",
    "c24_bench": "every bit of the filter symbolic; data sets of 2, 4 and 5 lines",
    "c24_rate": "saturated filter; 4 rates, 5 tolerances, 60 lines",
    "c26_numbers": "one of the parameter sets; two symbolic bytes at 5 places of the bit array over 3 constant backgrounds; index cache and count symbolic",
    "c26_bits": STATE,
    "c26_estimate": "9 counts from none to twice the capacity",
    "c25_stats": "all sequences of at most `max` events",
    "c25_benchmark": "1 to 6 runs",
}
CLI_BOUND = "`files` input files (and standard input) of `per` lines of `len` symbolic bytes, `jobs` jobs; filter bits and count symbolic where a filter exists; threads run at spawn, or at join, or at join in reverse order"
PY_BOUND = "bits, counts and values symbolic as in the library harnesses"

NOTES = {}
ASSUMPTIONS = [
    "The analysed IR is the debug build (overflow and bounds checks on) of the current tree by the pinned nightly toolchain; standard library included as IR, libc and the kernel modelled by the engine.",
    "64-bit little-endian target; allocations succeed up to the limit of the run.",
    "Results of ln, exp and pow on symbolic arguments are constrained by monotonicity and sample points only; on constants they are those of the C library.",
]
ASSUME = {
    "C17": ["The program runs as one process of the engine's model; threads are run to completion one after another, in three orders.", "Files are regular files of a flat directory; `.` stands for a directory that cannot be read."],
    "C18": ["The program runs as one process of the engine's model; threads are run to completion one after another, in three orders, so lines of different files do not interleave within a line."],
    "C19": ["The program runs as one process of the engine's model; a failing write to the output file is not modelled."],
    "C20": ["The source of the bindings is compiled against a stand-in for the pyo3 crate that has its types and passes its attributes through; the conversion of Python objects into Rust values by pyo3 itself is not part of the claim."],
    "C24": ["The random number generator of the program is seeded with a constant and executed as it is; processor feature detection answers that there are none."],
}

V2 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 18, 20, 21, 22, 28, 29]
V1 = [12, 13, 14, 15, 17, 19, 23, 26, 27]
# many hash functions: long paths
DEEP = [24, 25]
ZERO = [10, 11, 16]


def cfgs(*ns):
    return [{"cfg": n} for n in ns]


def but(l, *x):
    return [n for n in l if n not in x]


def deep(d):
    """the same harness over the deep configurations, thorough tier only"""
    return dict(d, each=cfgs(*DEEP), tier="thorough", max_secs=2000)


# value lengths around every case distinction of the hash functions
LONG = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 40, 41, 48, 49, 57, 63, 64, 65, 96, 97, 128]


# and beyond, with symbolic bytes at both ends and in the middle
HUGE = [129, 200, 255, 257, 1000, 1025, 4097, 5000]


def pos(dims, lens):
    """every dimension with some lengths, every length with some dimension"""
    r = []
    for i, d in enumerate(dims):
        for l in {3, 20, *lens[i::len(dims)]}:
            r.append({"dim": d, "what": 0, "len": l})
    return r


def ins(dims, lens):
    return [dict(x, what=1) for x in pos(dims, lens)]


def cli(*l):
    return [dict((k, int(v)) for k, v in (x.split("=") for x in t.split())) for t in l]


MB = 1048576

RUNS = {
    "C01": [
        dict(crate="hx", entry="c01_insert", each=cfgs(*V2, *V1, 24, 30), covers=["already there"]),
        dict(crate="hx", entry="c01_keep", each=cfgs(*V2, *V1), covers=["already there"]),
        dict(crate="hx", entry="c01_fresh", each=cfgs(0, 1, 4, 5, 8, 9, 18, 12, 13, 14, 15, 17), covers=[]),
        dict(crate="hx", entry="c01_insert", each=cfgs(25), covers=["already there"], tier="thorough", max_secs=2000),
        dict(crate="hx", entry="c01_keep", each=cfgs(*DEEP), covers=["already there"], tier="thorough", max_secs=2000),
    ],
    "C02": [
        dict(crate="hx", entry="c02", each=cfgs(*V2, *V1), covers=["reported present"]),
        dict(crate="hx", entry="c02", each=cfgs(24, 30), covers=["reported present"]),
        dict(crate="hx", entry="c02", each=cfgs(25), covers=["reported present"], tier="thorough", max_secs=2000),
    ],
    "C03": [
        dict(crate="hx", entry="c03_union", each=cfgs(*V2, *but(V1, 19)), covers=["merged", "contained", "with itself"]),
        dict(crate="hx", entry="c03_owned", each=cfgs(0, 3, 4, 6), covers=["merged"]),
        dict(crate="hx", entry="c03_differ", covers=["capacity", "fpp", "opt", "version", "hashes", "dimensions", "cache"]),
        dict(crate="hx", entry="c03_union", each=cfgs(*DEEP), covers=["merged", "contained", "with itself"], tier="thorough", max_secs=2000),
    ],
    "C04": [
        dict(crate="hx", entry="c04_inter", each=cfgs(*V2), covers=["merged", "contained", "contained by both"]),
        dict(crate="hx", entry="c04_owned", each=cfgs(0, 3, 4, 6), covers=["merged"]),
        dict(crate="hx", entry="c04_differ", covers=["capacity", "fpp", "opt", "hashes", "dimensions", "cache"]),
        dict(crate="hx", entry="c04_inter", each=cfgs(*DEEP), covers=["merged", "contained", "contained by both"], tier="thorough", max_secs=2000),
    ],
    "C05": [
        dict(crate="hx", entry="c05_bytes", each=cfgs(*but(V2, 22), *V1), covers=["done"]),
        dict(crate="hx", entry="c05_fresh", each=cfgs(0, 4, 8, 9, 18, 13, 15, 17), covers=["done"]),
        dict(crate="hx", entry="c05_reader", each=cli("cfg=0", "cfg=4 prefix=5 chunk=100", "cfg=12 prefix=9 chunk=1", "cfg=6 prefix=9 chunk=5000", "cfg=17 chunk=7", "cfg=3 prefix=1 chunk=4097"), covers=["done"]),
        dict(crate="hx", entry="c05_bytes", each=cfgs(22, *DEEP), covers=["done"], tier="thorough", max_secs=2000),
    ],
    "C06": [dict(crate="hx", entry="c06", each=cfgs(*V2, *V1, *DEEP), covers=["done"])],
    "C09": [dict(crate="hx", entry="c09", each=cfgs(*V2, *V1, *ZERO, *DEEP), covers=["refused"])],
    "C11": [
        dict(crate="hx", entry="c11_pos", each=pos([0, 1, 2, 3, 4, 5, 6, 7, 8], LONG), covers=["looked up"]),
        dict(crate="hx", entry="c11_pos", each=ins([0, 1, 2, 3, 4, 5, 8], LONG), covers=["inserted"]),
        dict(crate="hx", entry="c12_new", each=cfgs(*V1, 16, 30), covers=["done"]),
        dict(crate="hx", entry="c11_pos", each=[{"dim": d, "what": w, "len": n} for d, w, n in zip((0, 1, 3, 5, 8, 1, 5, 3), (0, 1, 0, 1, 0, 1, 0, 1), HUGE)], covers=[]),
        dict(crate="hx", entry="c11_pos", each=cli("dim=9 what=0 len=3", "dim=9 what=0 len=20"), covers=[]),
    ],
    "C12": [
        dict(crate="hx", entry="c12_pos", each=pos([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], LONG), covers=["looked up"]),
        dict(crate="hx", entry="c12_pos", each=ins([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], LONG), covers=["inserted"]),
        dict(crate="hx", entry="c12_new", each=cfgs(*V2, 10, 11, *DEEP), covers=["done"]),
        dict(crate="hx", entry="c12_pos", each=[{"dim": d, "what": w, "len": n} for d, w, n in zip((1, 2, 3, 4, 7, 9, 2, 1), (0, 1, 0, 1, 0, 1, 0, 1), HUGE)], covers=[]),
        dict(crate="hx", entry="c12_pos", each=cli("dim=12 what=0 len=20"), covers=[]),
    ],
    "C10": [dict(crate="hx", entry="c10", each=cfgs(*V2, *V1, *ZERO, *DEEP), covers=["done"])],
    "C07": [
        dict(crate="hx", entry="c07_script", each=[{"cfg": c, "steps": n} for c in (0, 3, 4, 8, 12, 13, 16, 17) for n in (3,)], covers=["refused", "written"]),
        dict(crate="hx", entry="c07_room", each=[{"cfg": c, "chunk": k} for c in (0, 3, 4, 8, 12, 13, 16, 17) for k in range(5)], covers=["refused"]),
        dict(crate="hx", entry="c07_script", each=cli("cfg=0 steps=2 data=9000", "cfg=13 steps=2 data=9000", "cfg=4 steps=2 data=8189"), covers=["refused", "written"]),
        dict(crate="hx", entry="c07_room", each=[{"cfg": c, "chunk": k, "data": 17000} for c in (0, 13) for k in range(4)], covers=["refused"]),
        dict(crate="hx", entry="c07_script", each=[{"cfg": c, "steps": 3, "specific": 1} for c in (0, 13)], covers=["refused", "written"]),
        dict(crate="hx", entry="c07_room", each=[{"cfg": c, "chunk": 1, "specific": 1} for c in (0, 13)], covers=["refused"]),
    ],
    "C08": [
        dict(crate="hx", entry="c08_any", each=[{"len": n} for n in (0, 1, 7, 8, 9, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 49, 55, 56)], covers=[], alloc_limit=MB),
        dict(crate="hx", entry="c08_any", each=[{"len": n, "ver": v, "sizes": 1} for v in (1, 2) for n in (57, 60, 63, 64, 72, 80, 100, 120)], covers=["refused"], alloc_limit=MB),
        dict(crate="hx", entry="c08_use", each=[{"ver": v, "what": w} for v in (1, 2) for w in range(3)], covers=["accepted"], alloc_limit=MB),
        dict(crate="hx", entry="c08_cut", each=cfgs(0, 3, 4, 10, 12, 13, 14, 17), covers=["cut"]),
    ],
    "C13": [
        dict(crate="hx", entry="c13_contains", each=cfgs(0, 1, 4, 7, 9, 12, 17), covers=["looked up"]),
        dict(crate="hx", entry="c13_insert", each=cfgs(0, 1, 4, 7, 9, 13, 17), covers=["inserted"]),
        dict(crate="hx", entry="c13_fill", each=cfgs(0, 7, 9, 17), covers=["filled"]),
        dict(crate="hx", entry="c13_iter", each=cfgs(0, 1, 4, 5), covers=["inserted"]),
        dict(crate="hx", entry="c13_uninit", each=cfgs(0, 1, 4, 5), covers=["refused"]),
        dict(crate="hx", entry="c13_other", each=cfgs(0, 1, 4, 5), covers=["inserted"]),
        dict(crate="hx", entry="c13_insert", each=cfgs(12), covers=["inserted"], tier="thorough", max_secs=2000),
        dict(crate="hx", entry="c13_fill", each=cfgs(1, 4, 12), covers=["filled"], tier="thorough", max_secs=2000),
    ],
    "C14": [
        dict(crate="hx", entry="c14_array_bit", each=[{"n": n} for n in (1, 2, 3, 8, 13, 17)], covers=[]),
        dict(crate="hx", entry="c14_array_two", each=[{"n": n} for n in (1, 2, 3, 8)], covers=[]),
        dict(crate="hx", entry="c14_array_count", each=[{"n": n} for n in (1, 2, 8)], covers=[]),
        dict(crate="hx", entry="c14_array_large", each=[{"n": n, "at": a} for n in (13, 31, 64) for a in range(7)] + [{"n": 4096, "at": a} for a in range(7)], covers=["merged"]),
        dict(crate="hx", entry="c14_vec_bit", each=[{"bits": n} for n in (1, 7, 8, 9, 16, 63, 64, 65, 100)], covers=[]),
        dict(crate="hx", entry="c14_vec_two", each=[{"bits": n, "other": n} for n in (1, 8, 9, 16, 65)], covers=[]),
        dict(crate="hx", entry="c14_vec_count", each=[{"bits": n} for n in (1, 8, 9, 16)], covers=[]),
        dict(crate="hx", entry="c14_vec_large", each=[{"bits": n, "at": a} for n in (65, 100, 128, 500) for a in range(7)], covers=["merged"]),
        dict(crate="hx", entry="c14_vec_count", each=[{"bits": n} for n in (64, 65)], covers=[], tier="thorough", max_secs=2000),
    ],
    "C15": [
        dict(crate="hx", entry="c15_fpp", covers=["refused"]),
        dict(crate="hx", entry="c15_bytes", covers=["version", "level"]),
        dict(crate="hx", entry="c15_same", covers=["compared"]),
        dict(crate="hx", entry="c15_new", each=[{"ver": v, "cap": c} for v in (1, 2) for c in range(9)], covers=["made"]),
    ],
    "C16": [
        dict(crate="hx", entry="c16_merge", each=[{"cfg": c, "what": w} for c in (0, 1, 3, 4, 8) for w in range(3)] + [{"cfg": c, "what": w} for c in (12, 13, 14, 15, 17) for w in (0, 2)], covers=["merged"]),
        dict(crate="hx", entry="c16_differ", covers=[]),
        dict(crate="hx", entry="c16_merge", each=[{"cfg": c, "what": w, "at": a} for a in (1, 700) for c in (0, 3, 4) for w in range(3)] + [{"cfg": c, "what": w, "at": a} for a in (1, 5) for c in (12, 14) for w in (0, 2)], covers=["merged"], tier="thorough", max_secs=2000),
    ],
    "C21": [
        dict(crate="hx", entry="c21_compare", covers=[]),
        dict(crate="hx", entry="c21_convert", covers=["bytes", "kilo", "mega", "giga"]),
        dict(crate="hx", entry="c21_display", covers=[]),
    ],
    "C17": [
        # DCSO format: everything around the filter
        dict(crate="cx", entry="c17_create", each=cli("cfg=17 files=1", "cfg=17 files=2 jobs=1", "cfg=17 files=3 per=1 jobs=3", "cfg=13 files=3 jobs=0 how=1", "cfg=13 files=2 how=2 len=1", "cfg=17 files=5 per=1 jobs=2", "cfg=13 files=5 per=1 jobs=3", "cfg=13 files=4 per=1 jobs=0 nproc=3", "cfg=13 files=2 per=3 jobs=6", "cfg=13 files=1 len=9 jobs=0"), covers=["created"]),
        dict(crate="cx", entry="c17_create", each=cli("cfg=13 files=3 per=1 jobs=3", "cfg=13 files=5 per=1 jobs=2"), covers=["created"], threads_at="join"),
        dict(crate="cx", entry="c17_create", each=cli("cfg=13 files=3 per=1 jobs=3", "cfg=13 files=5 per=1 jobs=2"), covers=["created"], threads_at="join-rev"),
        dict(crate="cx", entry="c17_insert", each=cli("cfg=17 files=0 per=1", "cfg=17 files=1 per=1", "cfg=17 files=2 per=1 jobs=2", "cfg=17 files=1 per=1 stdin=1", "cfg=17 files=3 per=1 jobs=3 len=1", "cfg=12 files=1 per=1", "cfg=17 files=2 per=1 jobs=0 nproc=1 how=1", "cfg=17 files=2 per=1 how=2 jobs=1"), covers=["inserted"]),
        dict(crate="cx", entry="c17_insert", each=cli("cfg=17 files=2 per=1"), covers=["inserted"], threads_at="join"),
        dict(crate="cx", entry="c17_insert", each=cli("cfg=17 files=2 per=1"), covers=["inserted"], threads_at="join-rev"),
        # Poppy format
        dict(crate="cx", entry="c17_create", each=cli("cfg=0 files=2 per=1", "cfg=4 files=2 per=1", "cfg=0 files=3 per=1 jobs=1", "cfg=0 files=3 per=1 jobs=2", "cfg=1 files=2 per=1"), covers=["created"], timeout_ms=30000),
        dict(crate="cx", entry="c17_insert", each=cli("cfg=0 files=2 per=1", "cfg=4 files=2 per=1", "cfg=0 files=1 per=1 stdin=1", "cfg=0 files=0 per=1"), covers=["inserted"], timeout_ms=30000),
        # any bytes
        dict(crate="cx", entry="c17_any", each=cli("cfg=13 n=0", "cfg=13 n=1", "cfg=13 n=2", "cfg=13 n=3 ascii=1", "cfg=13 n=1 k=1 ascii=1", "cfg=17 n=2 insert=1 ascii=1"), covers=[]),
        dict(crate="cx", entry="c17_any", each=cli("cfg=13 n=3", "cfg=13 n=4 ascii=1", "cfg=17 n=3 insert=1"), covers=["taken"], tier="thorough", max_secs=2000),
        dict(crate="cx", entry="c17_insert", each=cli("cfg=17 files=2", "cfg=17 files=2 stdin=1", "cfg=4 files=3 per=1 jobs=2", "cfg=0 files=2"), covers=["inserted"], tier="thorough", max_secs=2000, timeout_ms=10000),
    ],
    "C18": [
        dict(crate="cx", entry="c18_check", each=cli("cfg=17 files=0", "cfg=17 files=1", "cfg=17 files=1 stdin=1 per=1", "cfg=17 files=2", "cfg=17 files=3 per=1 jobs=3", "cfg=17 files=2 jobs=0 how=1", "cfg=17 files=2 jobs=1 how=2", "cfg=12 files=1", "cfg=13 files=4 per=1 jobs=2", "cfg=13 files=5 per=1 jobs=3", "cfg=0 files=2", "cfg=4 files=2", "cfg=4 files=0", "cfg=0 files=3 jobs=3", "cfg=0 files=5 per=1 jobs=2", "cfg=1 files=2 len=9", "cfg=13 files=4 per=1 jobs=0 nproc=3", "cfg=13 files=2 jobs=6"), covers=["printed"]),
        dict(crate="cx", entry="c18_check", each=cli("cfg=17 files=0 verify=1", "cfg=17 files=2 verify=1", "cfg=17 files=1 stdin=1 per=1 verify=1", "cfg=4 files=2 verify=1 jobs=0", "cfg=13 files=3 per=1 jobs=2 verify=1"), covers=["printed"]),
        dict(crate="cx", entry="c18_check", each=cli("cfg=13 files=0 silent=1", "cfg=13 files=2 silent=1", "cfg=13 files=2 silent=1 verify=1", "cfg=13 files=0 silent=1 verify=1", "cfg=4 files=1 stdin=1 silent=1"), covers=["silent"]),
        dict(crate="cx", entry="c18_check", each=cli("cfg=17 files=3 per=1 jobs=3", "cfg=13 files=4 jobs=2 per=1", "cfg=13 files=3 per=1 jobs=2 verify=1"), covers=["printed"], threads_at="join"),
        dict(crate="cx", entry="c18_check", each=cli("cfg=17 files=3 per=1 jobs=3", "cfg=13 files=4 jobs=2 per=1", "cfg=13 files=3 per=1 jobs=2 verify=1"), covers=["printed"], threads_at="join-rev"),
        dict(crate="cx", entry="c18_check", each=cli("cfg=17 files=3", "cfg=12 files=2", "cfg=17 files=2 stdin=1", "cfg=14 files=1 per=1"), covers=["printed"], tier="thorough", max_secs=2000),
    ],
    "C19": [
        dict(crate="cx", entry="c19_input", each=cli("cfg=17 files=1", "cfg=17 files=2", "cfg=13 files=3 per=0 jobs=3", "cfg=17 files=2 create=1", "cfg=17 files=1 create=1 jobs=0", "cfg=17 files=3 per=1 create=1 jobs=3", "cfg=0 files=2", "cfg=0 files=2 create=1 jobs=1", "cfg=13 files=1 per=0 create=1"), covers=["refused"]),
        dict(crate="cx", entry="c19_input", each=cli("cfg=17 files=2 per=1"), covers=["refused"], threads_at="join"),
        dict(crate="cx", entry="c19_input", each=cli("cfg=17 files=2 per=1"), covers=["refused"], threads_at="join-rev"),
        dict(crate="cx", entry="c19_params", each=cli("cfg=17", "cfg=0"), covers=["refused"]),
        dict(crate="cx", entry="c19_full", each=cli("cfg=17 jobs=1", "cfg=17 jobs=2", "cfg=17 files=2 per=1 jobs=1", "cfg=17 files=2 per=1 jobs=2", "cfg=17 files=0 jobs=1", "cfg=17 files=1 per=1 stdin=1 jobs=1", "cfg=13 files=3 per=1 jobs=3", "cfg=0 jobs=1", "cfg=0 files=2 per=1 jobs=2", "cfg=4 jobs=1", "cfg=12 per=1 jobs=1"), covers=["refused", "taken"]),
        dict(crate="cx", entry="c19_other", each=cli("n=0", "n=1", "n=8", "n=10", "n=30", "n=40", "n=47", "n=48"), covers=["refused"]),
        dict(crate="cx", entry="c19_cut", each=cli("cfg=17", "cfg=12", "cfg=0", "cfg=4"), covers=["refused"]),
        dict(crate="cx", entry="c19_absent", covers=["refused"]),
    ],
    "C20": [
        dict(crate="px", entry="c20_value", each=cli("cfg=17", "cfg=17 text=1", "cfg=0", "cfg=0 text=1", "cfg=1", "cfg=1 text=1", "cfg=12", "cfg=12 text=1", "cfg=8 text=1", "cfg=13", "cfg=15 text=1"), covers=["inserted"]),
        dict(crate="px", entry="c20_new", each=cli("what=0", "what=1", "what=2"), covers=["made", "refused"]),
        dict(crate="px", entry="c20_merge", each=cli("cfg=17", "cfg=12", "cfg=0", "cfg=4", "cfg=3", "cfg=17 count=1", "cfg=0 count=1"), covers=["merged"]),
        dict(crate="px", entry="c20_merge", each=cli("cfg=17 differ=1", "cfg=0 differ=1", "cfg=0 differ=2", "cfg=0 differ=3", "cfg=0 differ=4", "cfg=17 differ=1 count=1", "cfg=0 differ=3 count=1", "cfg=0 differ=4 count=1"), covers=["refused"]),
        dict(crate="px", entry="c20_io", each=cli("cfg=17", "cfg=12", "cfg=0", "cfg=4", "cfg=3", "cfg=6 data=0", "cfg=13 data=300"), covers=["done"]),
        dict(crate="px", entry="c20_bad", covers=["refused"]),
        dict(crate="px", entry="c20_module", covers=["made"]),
    ],
    "C23": [
        dict(crate="cx", entry="c23_show", each=cli("cfg=17", "cfg=17 cap=1", "cfg=0", "cfg=0 cap=1", "cfg=4", "cfg=8", "cfg=12", "cfg=13 cap=1"), covers=["shown"]),
        dict(crate="cx", entry="c23_show", each=cli("cfg=17 wide=2", "cfg=0 cap=1 wide=2"), covers=["shown"], tier="thorough", max_secs=1500, timeout_ms=120000),
    ],
    "C24": [
        dict(crate="cx", entry="c24_bench", each=cli("cfg=13", "cfg=13 lines=4", "cfg=13 lines=5"), covers=["measured", "refused"]),
        dict(crate="cx", entry="c24_rate", each=cli("cfg=13", "cfg=0", "cfg=4", "cfg=17"), covers=["passed", "failed"]),
    ],
    "C25": [
        dict(crate="hx", entry="c25_stats", each=cli("max=5"), covers=["none", "rate"]),
        dict(crate="hx", entry="c25_stats", each=cli("max=7"), covers=["none", "rate"], tier="thorough"),
        dict(crate="hx", entry="c25_benchmark", covers=["measured"]),
    ],
    "C26": [
        dict(crate="hx", entry="c26_numbers", each=[{"cfg": c, "at": a} for c in (0, 3, 4, 6, 12, 14, 17, 26, 27, 13) for a in range(5)] + cfgs(15, 16, 10, 11), covers=["counted"]),
        dict(crate="hx", entry="c26_bits", each=cfgs(*V1, 16), covers=["listed"]),
        dict(crate="hx", entry="c26_estimate", each=cfgs(12, 14, 17, 19, 26, 27, 23), covers=["estimated"]),
    ],
}
