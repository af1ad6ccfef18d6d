"""Build configurations of the library (tune.h is overridden the way the project's own scripts do)."""


def tune(shake, sha2, l5, l3, s, opt, keccak):
    return ("-DTUNE_H_ -DTS_SUPPORT_SHAKE=%d -DTS_SUPPORT_SHA2=%d -DTS_SUPPORT_L5=%d -DTS_SUPPORT_L3=%d "
            "-DTS_SUPPORT_S=%d -DTS_SHA2_OPTIMIZATION=%d -DTS_SHAKE256_OPT=%d" % (shake, sha2, l5, l3, s, opt, keccak))


def C(cc, flags, *t):
    return {"cc": cc, "flags": flags, "defs": tune(*t) if t else ""}


CONFIGS = {
    # every parameter set
    "A": C("gcc", "-O2 -g", 1, 1, 1, 0, 1, 1, 0),
    "B": C("clang", "-O2 -g", 1, 1, 1, 1, 1, 0, 1),
    "K": C("gcc", "-Os -fomit-frame-pointer -g", 1, 1, 1, 0, 1, 1, 2),
    # what tune.h itself says
    "T": C("gcc", "-Os -fomit-frame-pointer -g"),
    # restricted builds
    "sha2-L3": C("gcc", "-O2 -g", 0, 1, 0, 1, 1, 1, 0),
    "sha2-L3-small": C("clang", "-Os -g", 0, 1, 0, 1, 1, 0, 0),
    "sha2-L1f": C("gcc", "-O3 -g", 0, 1, 0, 0, 0, 0, 0),
    "sha2-L1": C("clang", "-O2 -g", 0, 1, 0, 0, 1, 1, 0),
    "sha2-L5f": C("gcc", "-O2 -g", 0, 1, 1, 0, 0, 0, 0),
    "shake-L3f": C("clang", "-O3 -g", 1, 0, 0, 1, 0, 0, 1),
    "shake-L1": C("gcc", "-O2 -g", 1, 0, 0, 0, 1, 0, 0),
    "shake-L5f": C("gcc", "-O2 -g", 1, 0, 1, 0, 0, 0, 2),
    "both-L3f": C("gcc", "-O2 -g", 1, 1, 0, 1, 0, 1, 0),
    "both-L1": C("clang", "-O2 -g", 1, 1, 0, 0, 1, 0, 0),
}

# the builds of ramspace.py: the smallest library with one parameter set ("minimal tune.h")
for _h in ("sha2", "shake"):
    for _z in (128, 192, 256):
        for _s in "fs":
            CONFIGS["min-%s-%d%s" % (_h, _z, _s)] = C("gcc", "-Os -fomit-frame-pointer", int(_h == "shake"), int(_h == "sha2"),
                                                      int(_z == 256), int(_z >= 192), int(_s == "s"), 0, 2)

# one sanitizer family per build
_UB = "-fsanitize=undefined,float-divide-by-zero,local-bounds -fno-sanitize-recover=all"
SANS = {
    "asan": {"cc": "clang", "flags": "-O1 -g -fno-omit-frame-pointer -fsanitize=address -fsanitize-address-use-after-scope "
             "-fsanitize=undefined -fno-sanitize-recover=all",
             "env": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=77:"
                     "allocator_may_return_null=1:handle_abort=1",
                     "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77"}},
    "ubsan": {"cc": "clang", "flags": "-O1 -g -fsanitize=undefined -fno-sanitize-recover=all",
              "env": {"UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77"}},
    "gasan": {"cc": "gcc", "flags": "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all",
              "env": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:exitcode=77:handle_abort=1",
                      "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}},
    "tsan": {"cc": "clang", "flags": "-O1 -g -fsanitize=thread",
             "env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=77:report_signal_unsafe=0:die_after_fork=0"}},
    "msan": {"cc": "clang", "flags": "-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins=2 "
             "-mllvm -msan-eager-checks=0",
             "env": {"MSAN_OPTIONS": "exitcode=77:halt_on_error=1"}},
    "msan0": {"cc": "clang", "flags": "-O0 -g -fno-omit-frame-pointer -fsanitize=memory -mllvm -msan-eager-checks=0",
              "env": {"MSAN_OPTIONS": "exitcode=77:halt_on_error=1"}},
    "msan1": {"cc": "clang", "flags": "-O2 -g -fno-omit-frame-pointer -fsanitize=memory -mllvm -msan-eager-checks=0",
              "env": {"MSAN_OPTIONS": "exitcode=77:halt_on_error=1"}},
}
