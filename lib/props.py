"""What is run for each property."""


def R(h, cfg, scale=1.0, mode="", **kw):
    return dict(h=h, cfg=cfg, scale=scale, mode=mode, **kw)


PROPS = {}


def prop(pid, rule, runs, **kw):
    PROPS[pid] = dict(rule=rule, runs=runs, **kw)


def thorough(tier):
    return tier == "thorough"


# ---------------------------------------------------------------- C01
def c01(tier):
    k = 12 if thorough(tier) else 1
    return [R("p_keygen", "A", 1 * k), R("p_keygen", "B", .6 * k), R("p_keygen", "K", .2 * k), R("p_keygen", "T", .2 * k),
            R("p_keygen", "sha2-L3", .2 * k), R("p_keygen", "shake-L3f", .2 * k), R("p_keygen", "sha2-L1f", .2 * k),
            R("p_keygen", "shake-L5f", .2 * k), R("p_keygen", "both-L1", .2 * k), R("p_keygen", "sha2-L3-small", .2 * k),
            R("p_hist", "A", 1 * k, "keygen"), R("p_hist", "B", .5 * k, "keygen")]


prop("C01", "a case is one key generation: parameter set x structured or random 3n-byte entropy x with/without a public key buffer; "
     "non-trivial: the whole private key was compared with the reference; distinct by (set, entropy, buffer)", c01)


def c02(tier):
    k = 10 if thorough(tier) else 1
    return [R("p_sign", "A", 1 * k, "full"), R("p_sign", "A", 1 * min(k, 4), "prefix"), R("p_sign", "A", 1 * k, "grind"),
            R("p_sign", "B", .5 * k, "full"), R("p_sign", "B", .5, "prefix"), R("p_sign", "K", .3 * k, "grind"),
            R("p_sign", "sha2-L3", .3 * k, "full"), R("p_sign", "shake-L3f", .3 * k, "full"), R("p_sign", "sha2-L1f", .3 * k, "full"),
            R("p_sign", "both-L1", .25 * k, "full"),
            R("p_sign", "A", 1 * k, "chosen", internal=1, allow_few=1), R("p_sign", "B", .5 * k, "chosen", internal=1, allow_few=1),
            R("p_sign", "sha2-L3", .5 * k, "chosen", internal=1, allow_few=1),
            R("p_hist", "A", 1 * k, "sign"), R("p_hist", "B", .5 * k, "sign"), R("p_hist", "sha2-L3-small", .4 * k, "sign")]


prop("C02", "a case is one (private key, message, randomiser): full signatures, prefixes for every message length, and randomisers searched "
     "for extreme hypertree/FORS positions; non-trivial: signature bytes compared with the reference; distinct by the expected bytes", c02)


def c03(tier):
    k = 8 if thorough(tier) else 1
    return [R("p_stream", "A", 1 * k), R("p_stream", "B", .5 * k), R("p_stream", "K", .1 * k), R("p_stream", "shake-L3f", .5 * k),
            R("p_stream", "sha2-L1f", .5 * k)]


prop("C03", "a case is one streamed signature: parameter set x chunk-size sequence (single bytes, block+-1, random, zero-length, two pieces, "
     "larger than what is left up to 2^32-1) x calls after the end; distinct by the sequence of requested sizes", c03)


def c04(tier):
    k = 8 if thorough(tier) else 1
    return [R("p_accept", "A", 1 * k), R("p_accept", "B", .5 * k), R("p_accept", "K", .2 * k), R("p_accept", "A", 1 * k, "own"),
            R("p_accept", "B", .4 * k, "own"), R("p_accept", "sha2-L3-small", .3 * k), R("p_accept", "shake-L3f", .5 * k), R("p_accept", "both-L3f", .5 * k),
            R("p_accept", "shake-L1", .3 * k, "own"),
            R("p_accept", "A", 1 * k, "chosen", internal=1, allow_few=1), R("p_accept", "B", .5 * k, "chosen", internal=1, allow_few=1),
            R("p_hist", "A", 1 * k, "accept"), R("p_hist", "B", .5 * k, "accept")]


prop("C04", "a case is one verification of an honest signature (made by the reference or by the library itself) fed in a chunk-size sequence, "
     "polled on the way; distinct by (key, sequence of sizes)", c04)


def c05(tier):
    k = 1 if thorough(tier) else 1
    t = 6 if thorough(tier) else 1
    return [R("p_reject", "A", 1 * k, "flip"), R("p_reject", "B", .15 * t, "flip"), R("p_reject", "K", .06 * t, "flip"),
            R("p_reject", "A", 1 * t, "near"), R("p_reject", "B", .5 * t, "near"), R("p_reject", "shake-L3f", .2, "flip"),
            R("p_reject", "sha2-L1f", .3, "flip"),
            R("p_hist", "A", 1 * t, "refuse"), R("p_hist", "B", .5 * t, "refuse")]


prop("C05", "a case is one changed (message, public key, signature) triple: every n-byte block, every bit of R and of the public key, message edits, "
     "splices, and paths that end in a near-miss of the root; non-trivial: differs from a valid triple; distinct by the triple", c05)


def c06(tier):
    k = 8 if thorough(tier) else 1
    return [R("p_length", "A", 1 * k), R("p_length", "B", .4 * k), R("p_length", "K", .34), R("p_length", "shake-L3f", .67 * k), R("p_length", "sha2-L1f", .67 * k)]


prop("C06", "a case is one history of updates with too few, too many or repeated bytes, polled after the updates; distinct by (signature, history kind)", c06)


prop("C07", "a case is one (build, parameter set): all 144 tunings under ASan+UBSan with exact-size contexts, then compilers, optimisation levels, ABI "
     "choices, tune.h itself and freestanding 32-bit builds; each compares keys, signature bytes and verdicts with the reference; distinct by (build, set)",
     None, driver="matrix", matrix="results")
prop("C15", "a case is one (tuning, parameter set): announced sizes against the specification and against the bytes written, produced and consumed; "
     "distinct by (tuning, set)", None, driver="matrix", matrix="sizes")
# ---------------------------------------------------------------- C08
def c08(tier):
    k = 8 if thorough(tier) else 1
    m = "slow" if thorough(tier) else ""
    return [R("p_mem", "A", 1 * k, "slow", san="asan"), R("p_mem", "B", .5 * k, m, san="asan"), R("p_mem", "K", .25 * k, m, san="asan"),
            R("p_mem", "A", .5 * k, m, san="gasan"), R("p_mem", "A", .5 * k, m, san="msan"), R("p_mem", "B", .25 * k, m, san="msan"),
            R("p_mem", "sha2-L3-small", .5 * k, m, san="asan"), R("p_mem", "shake-L3f", .5 * k, m, san="asan"), R("p_mem", "sha2-L1f", .5 * k, m, san="asan"),
            R("p_mem", "both-L3f", .25 * k, m, san="asan"), R("p_mem", "shake-L1", .25 * k, m, san="asan")]


prop("C08", "a case is one key generation, signing, honest verification, batch of hostile signatures or batch of hash computations, with every object an "
     "exact-size heap block at a random alignment, in a sanitizer build; an evaluation is one library call; distinct by (kind, key material, chunk style)", c08)
# ---------------------------------------------------------------- C09
def c09(tier):
    k = 10 if thorough(tier) else 1
    return [R("p_guard", "A", 1 * k), R("p_guard", "B", .4 * k), R("p_guard", "K", .2 * k), R("p_guard", "T", .2 * k),
            R("p_guard", "sha2-L3", .4 * k), R("p_guard", "shake-L3f", .4 * k), R("p_guard", "sha2-L1f", .4 * k), R("p_guard", "both-L1", .3 * k),
            R("p_guard", "A", .3 * k, san="ubsan")]


prop("C09", "a case is one operation with every object placed directly against an unmapped page (before or after it), inputs write-protected, messages "
     "and pieces withdrawn as soon as the library has no more right to them; an evaluation is one call; distinct by (key material, chunk style, layout)", c09)
# ---------------------------------------------------------------- C10
def c10(tier):
    k = 10 if thorough(tier) else 1
    return [R("p_indep", "A", 1 * k, "inter", shared=1), R("p_indep", "A", 1 * k, "nested", shared=1), R("p_indep", "A", 1 * k, "signal", shared=1),
            R("p_indep", "A", 1 * k, "threads", shared=1, jobs=4), R("p_indep", "B", .7 * k, "signal", shared=1), R("p_indep", "B", .5 * k, "inter", shared=1),
            R("p_indep", "K", .4 * k, "signal", shared=1), R("p_indep", "B", .5 * k, "threads", shared=1, jobs=4),
            R("p_indep", "A", .5 * k, "threads", san="tsan", jobs=4), R("p_indep", "B", .3 * k, "threads", san="tsan", jobs=4),
            R("p_indep", "K", .15 * k, "threads", san="tsan", jobs=4), R("p_indep", "sha2-L3-small", .2 * k, "threads", san="tsan", jobs=4)]


prop("C10", "a case is one schedule of several operations in progress at once (interleaved, nested in the random function, in a preempting signal handler, or in "
     "threads); an evaluation is one operation's result; distinct by schedule, and for preemption by the interrupted instruction", c10)
# ---------------------------------------------------------------- C11
def c11(tier):
    k = 4 if thorough(tier) else 1
    small = ["min-%s-%d%s" % (h, z, s) for s in "sf" for z in (256, 192, 128) for h in ("shake", "sha2")]
    now = dict(ldflags="-Wl,-z,now")
    return [R("p_ram", "A", 1 * k, **now), R("p_ram", "B", .4 * k, **now), R("p_ram", "T", .4 * k, **now), R("p_ram", "K", .4, **now),
            R("p_ram", "sha2-L3-small", .5, **now)] + \
        [R("p_ram", c, 1, "figures", jobs=1, group="figures", **now) for c in small] + \
        [R("p_indep", "A", .5 * k, "inter", shared=1), R("p_indep", "B", .25 * k, "inter", shared=1), R("p_indep", "K", .15 * k, "inter", shared=1)]


prop("C11", "an evaluation is one library call on a painted stack with the allocator watched; a distinct case is one (set, call, message length, chunking); then the twelve "
     "small-memory builds against the published figures; then schedules with all static storage write-protected", c11)
# ---------------------------------------------------------------- C12, C13
def c12(tier):
    k = 10 if thorough(tier) else 1
    return [R("p_sha2", "A", 1 * k, "huge"), R("p_sha2", "B", 1 * k, "huge" if thorough(tier) else "big"), R("p_sha2", "K", .7 * k, "huge" if thorough(tier) else ""), R("p_sha2", "T", .5 * k),
            R("p_sha2", "sha2-L1f", .5 * k, "big"), R("p_sha2", "sha2-L3-small", .5 * k), R("p_sha2", "A", .4 * k, san="asan"), R("p_sha2", "A", .3 * k, san="gasan")]


prop("C12", "a case is one message length: contents x splits x full or truncated finalisation x continuation of a saved state, in both hashes; an evaluation is one digest compared "
     "with OpenSSL; distinct by (message, split style)", c12)


def c13(tier):
    k = 10 if thorough(tier) else 1
    return [R("p_shake", "A", 1 * k, "huge"), R("p_shake", "B", 1 * k, "huge" if thorough(tier) else "big"), R("p_shake", "K", .8 * k, "big"), R("p_shake", "T", .6 * k),
            R("p_shake", "shake-L3f", .6 * k), R("p_shake", "shake-L5f", .5 * k), R("p_shake", "A", .3 * k, san="asan"), R("p_shake", "B", .3 * k, san="asan"),
            R("p_shake", "K", .2 * k, san="asan")]


prop("C13", "a case is one input length: contents x absorb splits x squeeze splits; an evaluation is one output compared with OpenSSL; distinct by (input, splits)", c13)
# ---------------------------------------------------------------- C14
def c14(tier):
    k = 6 if thorough(tier) else 1
    return [R("p_fault", "A", 1 * k), R("p_fault", "B", 1 * k), R("p_fault", "K", 1), R("p_fault", "sha2-L3", 1 * k), R("p_fault", "shake-L3f", 1 * k),
            R("p_fault", "sha2-L1f", 1 * k), R("p_fault", "both-L1", 1 * k), R("p_fault", "A", 1, san="asan")]


prop("C14", "a case is one fault: parameter set x operation x failing call of the random function (each in turn, or all) x how much it wrote before failing x public key wanted; "
     "all of them are enumerated; keys and messages are samples; distinct by fault and message", c14, level="fault_enumeration")
# ---------------------------------------------------------------- C16
def c16(tier):
    k = 12 if thorough(tier) else 1
    return [R("p_reuse", "A", 2 * k), R("p_reuse", "B", 1.5 * k), R("p_reuse", "K", .25 * k), R("p_reuse", "shake-L3f", 1 * k), R("p_reuse", "sha2-L1f", 1 * k),
            R("p_reuse", "both-L3f", 1 * k), R("p_reuse", "A", .45 * k, san="msan"), R("p_reuse", "B", .3 * k, san="msan"), R("p_reuse", "A", .3 * k, san="asan")]


prop("C16", "a case is one history of operations on one context; an evaluation is one call judged by the shadow model; distinct by the sequence of operations", c16)
# ---------------------------------------------------------------- C17
def c17(tier):
    k = 10 if thorough(tier) else 1
    return [R("p_otk", "A", 1 * k, "slow" if thorough(tier) else "", internal=1), R("p_otk", "B", .75 * k, internal=1), R("p_otk", "K", .25, internal=1),
            R("p_otk", "shake-L3f", 1 * k, internal=1), R("p_otk", "sha2-L1f", 2 * k, internal=1), R("p_otk", "both-L3f", .75 * k, internal=1), R("p_otk", "A", .5 * k)]


prop("C17", "a case is one key's history of signatures at natural or chosen positions (same leaf, same tree, positions that differ in one bit of any weight, extremes); an evaluation is "
     "one value entered under its address; distinct by key", c17)
# ---------------------------------------------------------------- C18
def c18(tier):
    k = 8 if thorough(tier) else 1
    hb = "huge" if thorough(tier) else "big"
    return [R("p_long", "A", 1 * k, "huge"), R("p_long", "B", .5 * k, hb if thorough(tier) else ""), R("p_long", "K", .07 * k), R("p_long", "sha2-L1f", .5 * k, hb if thorough(tier) else ""),
            R("p_long", "shake-L3f", .5 * k), R("p_long", "sha2-L3-small", .3 * k)]


prop("C18", "a case is one message of a length around 2^8..2^25, 2^28, 2^29 or beyond 2^32 bytes: R and the first FORS values against the reference, the honest signature accepted, and "
     "changes of single bytes anywhere and of the length refused; distinct by (key, length)", c18)
# ---------------------------------------------------------------- C19
def c19(tier):
    k = 8 if thorough(tier) else 1
    m = "slow" if thorough(tier) else ""
    cov = dict(internal=2, libextra="-fno-builtin -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores",
               ldflags="-Wl,--wrap=memcpy,--wrap=memset,--wrap=memmove", cc="clang")
    # gcc's code, as the Makefile asks for it, under memcheck
    mc = dict(group="memcheck", jobs=4, internal=2, hdefs="-DMEMCHECK", wrap="valgrind --tool=memcheck -q --error-limit=no --undef-value-errors=yes --leak-check=no --num-callers=6 --expensive-definedness-checks=yes")
    return [R("p_secret", "A", 2 * k, m, san="msan1", internal=2), R("p_secret", "B", 1.34 * k, m, san="msan1", internal=2), R("p_secret", "K", .67 * k, "", san="msan1", internal=2),
            R("p_secret", "sha2-L1f", .67 * k, san="msan0", internal=2), R("p_secret", "shake-L3f", .67 * k, san="msan0", internal=2), R("p_secret", "both-L3f", .34 * k, m, san="msan0", internal=2),
            R("p_secret", "shake-L5f", .34 * k, san="msan0", internal=2),
            R("p_secret", "A", .34 * k, "fastonly", flags="-Os -fomit-frame-pointer -g", **mc),
            R("p_secret", "both-L3f", .34 * k, "fastonly", flags="-O3 -g", **mc),
            R("p_secret", "sha2-L1f", .34 * k, "fastonly", flags="-O2 -g", **mc),
            R("p_secret", "shake-L3f", .34 * k, "fastonly", cc="gcc", flags="-O2 -g", **mc),
            R("p_secret", "shake-L5f", .34 * k, "fastonly", flags="-Os -g", **mc),
            R("p_secret", "B", .34 * k, **cov), R("p_secret", "A", .34 * k, **cov), R("p_secret", "shake-L3f", .67 * k, flags="-O1 -g", **cov), R("p_secret", "sha2-L1f", .67 * k, flags="-Os -g", **cov)]


prop("C19", "a case is one key generated and used with its secrets marked (every branch and address checked for the mark), or one batch of executions that differ in the secrets only (all edges and "
     "addresses compared); distinct by key", c19)
prop("C20", "a case is one figure (context, key generation, signing, verification) of one parameter set, as the utility prints it in the build its script asks for, against the peak of the "
     "same operations on a painted stack of the monitor's own with the same object files", None, driver="ramutil")
# ---------------------------------------------------------------- C21
def c21(tier):
    w = dict(wrap="valgrind --tool=callgrind -q --callgrind-out-file=cg.%p --dump-line=no", cc="gcc", **{"try": "-DHAVE_PRIMITIVES"})
    O = "-Os -fomit-frame-pointer -g"
    m = "whole" if thorough(tier) else ""
    return [R("p_work", "A", 1, m, flags=O, **w), R("p_work", "B", 1, "light", flags="-O2 -g", **w), R("p_work", "K", 1, "light", flags="-O2 -g", **w), R("p_work", "sha2-L3-small", 1, "light", flags=O, **w)]


prop("C21", "a case is one operation (key generation, signing or verification, at once or in pieces) of one parameter set, its instructions counted", c21)
HOOKS = None
NOT_APPLICABLE = {}

# technique, what the verdict is worth
META = {
    "C01": ("online monitor: executions compared with an independent reference model; canaries; metered random function",
            "Exploration: held on every key generation run (several hundred per set in ten builds); trusts the reference model, which must pass the 12 official known answers first."),
    "C02": ("online monitor: produced bytes compared with an independent reference model under directed and random workloads",
            "Exploration over keys, every message length up to 1500 bytes, randomisers and searched-for extreme positions; trusts the reference model (known answers)."),
    "C03": ("trace monitor over chunk-size histories, with an oracle for every call's count, bytes and side effects",
            "Exploration of chunk-size sequences; each call of each history is judged."),
    "C04": ("trace monitor over update histories of honest signatures, polled in between",
            "Exploration; signatures come from the reference model and from the library itself."),
    "C05": ("mutation workload with an independent verifier as the oracle",
            "Exploration: every block, every bit of R and key, message edits, near-miss roots; a forgery nobody thought of is outside."),
    "C06": ("trace monitor over truncated, extended and continued histories",
            "Exploration; every truncation point by polling, a grid of extensions and continuations."),
    "C07": ("differential execution of every tuning under ASan+UBSan, and of compilers, ABIs and word sizes, against one reference",
            "All 144 tunings are built and executed (enumerated completely); inputs per build are samples. Big-endian targets cannot be executed here."),
    "C08": ("AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer over honest and hostile call histories, with a CPU watchdog",
            "Exploration; overruns between members of one object are seen only where the sanitizers' bounds checks apply."),
    "C09": ("page-protection monitor: guard pages around every object, write-protected inputs, withdrawn buffers; UBSan for alignment",
            "Exploration; every stray access in an executed call faults, apart from writes that put back the same value and reads inside the slack of the far side of an object (layouts alternate)."),
    "C10": ("schedule monitor: results under interleaving, nesting, preemption and threads; ThreadSanitizer; write-protected static storage",
            "Exploration of schedules; a write to the library's static storage is caught on any schedule that executes it."),
    "C11": ("resource monitor: painted stacks, allocator interposition and write-protected static storage during every call",
            "Exploration; peaks are exact to 8 bytes per call, the bound is the published figure plus 176 bytes (64 for the context)."),
    "C12": ("differential monitor of the hash interface against OpenSSL over lengths, splits, truncations and saved states",
            "Every length up to 1099 bytes is executed in each build, and lengths around 2^32 bits and 2^32 bytes; contents and splits are samples."),
    "C13": ("differential monitor of the sponge interface against OpenSSL over lengths and absorb/squeeze splits",
            "Every length up to 849 bytes is executed in each of the three implementations, and inputs past 2^32 bytes; contents and splits are samples."),
    "C14": ("fault injection at every call of the random function with an oracle for return value, outputs and requests",
            "All faults of the random function's interface are enumerated for every parameter set; keys, messages and what a failing function leaves behind are samples."),
    "C16": ("shadow-model monitor over random histories on one context, also under MemorySanitizer",
            "Exploration of histories; every call's result is judged."),
    "C17": ("offline checker over recorded signature histories: address/value table of everything signatures reveal",
            "Exploration; positions are chosen by replacing the message hash in a copy of the parameter set (falls back to natural positions when the internals change)."),
    "C18": ("online monitor of long-message workloads against a streaming reference, with mutation of message bytes and lengths",
            "Exploration of lengths up to 2^32 + 5 bytes; beyond that only the hash states' counters could matter."),
    "C19": ("taint monitor (MemorySanitizer and memcheck shadow as the mark of the secret) and comparison of recorded edge and address traces under different secrets",
            "Exploration; decides what clang emits at -O0, -O2 and -Os and gcc at -Os and -O3, not the machine's timing."),
    "C20": ("monitor of the utility's runs: reported figures against an independent painted-stack measurement of the same objects",
            "All twelve builds of the script are made and run; a figure may be off by 160 bytes."),
    "C21": ("work monitor: instructions counted by callgrind against the price, measured in the same build, of the hash blocks the scheme calls for",
            "Exploration; up to 1.7 times the bare hash blocks are allowed (seen: 1.17), so smaller losses pass."),
    "C15": ("monitor of announced against actual sizes in every tuning",
            "All 144 tunings enumerated; slow sets are fully signed in one build per run."),
}
for _p, (_t, _n) in META.items():
    if _p in PROPS:
        PROPS[_p]["technique"] = _t
        PROPS[_p]["note"] = _n
