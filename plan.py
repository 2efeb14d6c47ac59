"""What each check runs: suite x build variant x number of cases (all shards together)."""

NOTES = [
    "evidence covers the executions produced by the seeded workload, not all executions",
    "the monitoring allocator sees adjacent overflows, bad frees, double frees, writes after free and leaks; other memory errors are left to the C04/C06 runs under AddressSanitizer, ThreadSanitizer and Miri",
]

RULE = "each case is one seeded random {what}; its signature hashes the operations, arguments and resulting shapes; distinct = number of different signatures, a case without any library operation is not counted"


def std(suite, what, rel, dbg=None, trel=None, **kw):
    """release + debug-assertion builds of one suite under the monitoring allocator"""
    rel *= 3
    dbg = dbg or rel // 3
    extra = tuple(kw.pop("extra", ()))
    return dict(runs=[dict(variant="rel", suite=suite, quick=rel, thorough=trel or rel * 8, extra=extra),
                      dict(variant="dbg", suite=suite, quick=dbg, thorough=(trel or rel * 8) // 3, extra=extra)],
                rule=RULE.format(what=what), technique=kw.pop("technique", "runtime monitoring: online reference-model oracle over seeded workloads (release and debug builds, monitoring allocator)"), **kw)


def plus(entry, *runs):
    for variant, suite, n, extra in runs:
        entry["runs"].append(dict(variant=variant, suite=suite, quick=n, thorough=n * (2 if n < 10 else 12), extra=tuple(extra), cpu=600 if suite == "refcnt" else 60 if suite.startswith("huge") else 20, shards=2 if suite.startswith("huge") else None))
    return entry


# every suite, and how many of its cases AddressSanitizer/MemorySanitizer builds run and one interpreter process runs in about 15 s
SUITES = {"zoo": (16_000, 6), "zoop": (16_000, 7), "c02": (16_000, 6), "c03": (30_000, 16), "c06": (4_000, 30), "c07": (80_000, 24), "c08": (20_000, 9), "c09": (24_000, 7),
          "c10": (20_000, 6), "c11": (60_000, 16), "c12": (30_000, 12), "c13": (16_000, 6), "c14": (80_000, 28), "c15": (60_000, 20), "c16": (16_000, 5), "c16t": (4_000, 14),
          "c17": (30_000, 2), "c18": (60_000, 20), "c19": (80_000, 30), "c20": (8_000, 4), "c21": (12_000, 36), "c22": (120_000, 70), "c23": (50_000, 16), "conv": (30_000, 30), "edge": (300_000, 700)}

# builds for other targets, and tenths of the interpreter cases above
CROSS = [("i686", 7), ("i686-rel", 7), ("mips", 7), ("s390x", 7)]

# configurations for the interpreter, and how many programs of each level of C24
CFG_MIRI = {
    "none": {"plain": 9},
    "queue": {"plain": 6, "queue": 30, "capacity": 12},
    "bytes-queue": {"buf": 15, "bufqueue": 15, "capacity": 3},
    "serde-nom-queue": {"parse": 6, "serde": 9},
    "bytes-alloc": {"heap": 9, "buf": 9},
    "arbitrary-queue": {"arb": 9},
    "full-bytes-safe": {"bytes": 15, "heap": 9, "queueheap": 3},
}

PLAN = {
    "C01": plus(std("c01", "history over a pool of live values of all handle types, every value re-read after every step", 400_000,
               must_see=["bd.clone", "sb.to_builder", "q.append", "by.to_mut", "sd.trim"],
               note="every live value is re-read and compared with its own recorded bytes after every operation of a random history over all handle types; walks over all conversions between the types with every reading of every intermediate value; says nothing about histories not generated"),
               ("rel", "conv", 300_000, ()), ("dbg", "conv", 100_000, ())),
    "C02": plus(std("c02", "chain of slicing operations with hostile ranges on one value", 300_000,
               note="every slicing operation is compared with the same range on a plain slice/str, including rejection; the same cases run in release (wrapping arithmetic) and debug builds; values of more than 4 GiB over a lazily mapped area, compared at positions of interest"),
               ("rel", "hugev", 4_000, ()), ("dbg", "hugev", 2_000, ())),
    "C03": std("c03", "build-up of text from raw, cut or merged pieces through every text-making operation", 500_000,
               note="every text value, chunk and produced string is re-validated with std::str::from_utf8 after every step; acceptance of raw bytes is compared with std::str::from_utf8"),
    "C06": plus(dict(runs=[dict(special="probes", args=("race",), quick=1, thorough=1)], rule=RULE.format(what="multi-threaded round over values sharing storage"),
               technique="runtime monitoring: ThreadSanitizer, Miri data-race detection under many seeded schedules, and per-thread content and release monitors",
               note="schedules are those the OS, TSan and Miri's seeded scheduler produce; content read by every thread and the single release are checked in all of them"),
               ("rel", "c06", 60_000, ("--lifetimes",)), ("dbg", "c06", 20_000, ("--lifetimes",)), ("tsan", "c06", 30_000, ()), ("miri", "c06", 64, ())),
    "C07": plus(std("c07", "chain of sharing operations on one value of 15 to 5000 bytes", 600_000,
               note="addresses of results are compared with the address in the original storage, and the largest single allocation during the operation with the content size"),
               ("rel", "c07z", 120_000, ())),
    "C08": std("c08", "comparison of values of all type pairs with equal, prefixed or nearly equal content", 600_000,
               note="eq/ne/cmp/partial_cmp of every type pair in both directions, and hashes, against the plain content"),
    "C09": std("c09", "history of builder operations", 500_000,
               note="a Vec<u8>/String model is driven in parallel with the builder and compared after every step; a fifth of the cases refuses to resize blocks, so that content has to move to new ones"),
    "C10": std("c10", "history of deque operations on byte and string queues", 500_000,
               note="a VecDeque of chunks is driven in parallel with the queue and compared after every step"),
    "C11": std("c11", "iteration of one value or queue with adaptors and partial consumption from both ends", 800_000,
               note="every iterator is advanced in lockstep with the iterator of a flat Vec<u8>/String"),
    "C12": std("c12", "search or split of one value or queue with random needle, position and limit", 600_000,
               note="results compared with a naive reference on the flat content; a CPU budget turns non-termination into a violation"),
    "C13": plus(std("c13", "history of slicing/draining/splitting operations on queues", 400_000,
               note="compared with the same operation on flat Vec<u8>/String, including which requests are rejected; queues of more than 4 GiB over a lazily mapped area, compared at positions of interest"),
               ("rel", "hugeq", 6_000, ()), ("dbg", "hugeq", 3_000, ())),
    "C18": std("c18", "call of a compile-time helper or a UTF-8 decoding run on random, exhaustive or malformed input", 800_000,
               note="results against core::str and slice operations; slices of the space of all inputs of up to three bytes and of all code points are walked completely (which slice is random)"),
    "C19": std("c19", "serialisation round trip or hand-driven deserialisation of one value", 800_000,
               note="serde_json and a hand-written data format (serializer and deserializer) that records what it is given and presents content in every form; results against the content"),
    "C04": dict(runs=[dict(variant=v, suite=s, quick=n, thorough=n * 15, mem=True, extra=()) for v in ("asan", "msan") for s, (n, _) in SUITES.items()]
                + [dict(variant="msan", suite="unfilled", quick=8, thorough=80, mem=True, extra=())]
                + [dict(special="probes", args=("life",), quick=1, thorough=1)]
                + [dict(special="cfg_miri", args=(CFG_MIRI,), quick=1, thorough=1)]
                + [dict(special="miri_pool", args=([(v, s, m) for v in ("miri", "miri-tb") for s, (_, m) in sorted(SUITES.items(), key=lambda x: x[0] not in ("c17", "edge"))],), quick=1, thorough=1)],
                builds=["miri"], rule=RULE.format(what="case of one of the suites, run under a sanitizer or the interpreter"),
                technique="runtime monitoring: AddressSanitizer and MemorySanitizer builds of every workload, and Miri (Stacked and Tree Borrows) on samples of each",
                note="only what the sanitizers and Miri report counts here; the same workloads judged for content belong to the other properties"),
    "C05": plus(dict(runs=[dict(special="probes", args=("life",), quick=1, thorough=1)], rule=RULE.format(what="history over a pool of live values of all handle types (or a case of another suite), audited for leaks, double and early releases when everything is gone"),
                technique="runtime monitoring: monitoring allocator and instrumented external objects account for every block and every owner; AddressSanitizer build for late accesses",
                note="every block allocated and every external object created by a case must be gone exactly once at its end and every live value readable until then; leak audit is per case"),
               ("rel", "zoo", 60_000, ("--lifetimes",)), ("dbg", "zoo", 20_000, ("--lifetimes",)),
               ("rel", "refcnt", 8, ()), ("rel", "refs", 2_000, ("--lifetimes",)),
               *[("rel", s, n, ("--only-lifetimes",)) for s, n in [("c02", 80_000), ("c07", 150_000), ("c09", 100_000), ("c10", 100_000), ("c11", 200_000), ("c13", 100_000), ("conv", 150_000), ("c19", 100_000), ("edge", 300_000),
                                                                   ("c15", 150_000), ("c16", 100_000), ("c17", 60_000), ("c21", 60_000), ("c23", 120_000)]],
               ("safe", "c15", 100_000, ("--only-lifetimes",)), ("asan", "zoo", 12_000, ("--memory-only",)), ("asan", "c15", 60_000, ("--memory-only",))),
    "C14": std("c14", "sequence of std::io reads or writes on one value", 800_000,
               note="the same calls are made on a plain slice or Vec through the standard library and results, errors, buffers and positions compared"),
    "C15": plus(std("c15", "conversion chain between library values and bytes::Bytes/BytesMut, or Buf/BufMut drive", 500_000,
               note="the converted buffer is driven in parallel with one made by the bytes crate itself; both feature configurations (bytes_1 and bytes_1_safe); leaks and double releases of the shared storage are audited per case"),
               ("safe", "c15", 250_000, ()), ("b1111", "c15", 120_000, ()), ("b1121safe", "c15", 120_000, ()), ("b1121", "c15", 4_000, ())),
    "C16": plus(std("c16", "history of intern/lookup/clone/drop on one interner", 300_000,
               note="single-threaded histories against a map model; multi-threaded rounds compare the instance every thread got, under ThreadSanitizer and Miri with many schedules as well"),
               ("rel", "c16t", 20_000, ()), ("tsan", "c16t", 16_000, ()), ("miri", "c16t", 40, ())),
    "C17": std("c17", "rendering of one value by one format string or into one sink", 500_000,
               note="compared with the rendering of the plain str / a per-byte hex reference; escaped output is decoded back"),
    "C20": std("c20", "parser-combinator call on a value, a queue and a plain slice or str", 250_000,
               note="same nom combinator on the plain input, outcomes compared; the layout of hex dumps of queues and non-ASCII char tokens on bytes are not compared"),
    "C21": std("c21", "polling of one HTTP body in both protocol generations", 250_000,
               note="frames, hints, end flags and wake-ups after each poll compared with the remaining content"),
    "C22": std("c22", "generation of a value from one raw input", 500_000,
               note="twice from the same input must agree; results checked for well-formedness and borrowed parts for lying inside the input; CPU budget for termination"),
    "C23": plus(std("c23", "operation made to panic through rejected arguments, user callbacks, iterators, writers, hashers or destructors", 500_000, extra=("--lifetimes",),
               note="after every caught panic all surviving values are re-read and compared with the model, and released storage is audited; leaks caused by a panicking destructor are tolerated"),
               ("rel", "zoop", 60_000, ("--lifetimes",))),
    "C25": dict(runs=[dict(special="cross", args=([(v, s, max(2, m * k // 10)) for s, (_, m) in sorted(SUITES.items(), key=lambda x: x[0] not in ("c17", "edge")) for v, k in CROSS] + [(v, "wide", 10) for v, _ in CROSS if v != "s390x"],), quick=1, thorough=1)],
                rule=RULE.format(what="case of one of the suites, run in the interpreter for another target"),
                technique="runtime monitoring: the functional oracles of every suite and Miri's undefined-behaviour detection on interpreted 32-bit and big-endian targets",
                note="i686 (debug and release), mips (32 bits, big-endian) and s390x (64 bits, big-endian) by interpretation; sizes are small, as the interpreter is slow"),
    "C24": dict(runs=[dict(special="configs", quick=1, thorough=1)], rule="each case is one seeded program run in one feature configuration and profile; distinct = programs with different transcripts in the reference configuration",
                technique="runtime monitoring: offline comparison of the transcripts of the same seeded programs in every feature configuration and profile; deque model for the heap-less queue",
                note="13 feature sets in release and debug builds; programs use the part of the API the compared configurations share"),
}

# the code these properties rely on has forms that exist only without the heap, which the suites above (built with everything) never run
HEAPLESS = ("queue", "serde-nom-queue", "full")
for _p, _levels in (("C10", ("queue", "capacity")), ("C11", ("queue",)), ("C12", ("queue",)), ("C23", ("capacity",)), ("C13", ("queue", "capacity")), ("C19", ("serde",)), ("C20", ("parse",)), ("C21", ("body", "bodyqueue")), ("C22", ("arb",))):
    _names = {"C21": ("http-queue", "extras-alloc", "full"), "C22": ("arbitrary-queue",)}.get(_p, HEAPLESS)
    PLAN[_p]["runs"].append(dict(special="configs", args=(_names, _levels), quick=1, thorough=1))
