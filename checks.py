"""What is built and run for each property"""

import os
import re
import subprocess

ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]

FLAVOURS = {
    # The debug configuration of the library's Makefile, under ASan
    "D": {"kind": 1, "cc": "clang", "lib": ["mc.c"],
          "sflags": ["-O1", "-g", "-DDEBUG"] + ASAN,
          "hflags": ["-O1", "-g"] + ASAN,
          "lflags": ASAN},
    # The release configuration, other compiler
    "R": {"kind": 2, "cc": "gcc", "lib": ["mc.c"],
          "sflags": ["-O2", "-g"] + ASAN,
          "hflags": ["-O1", "-g"] + ASAN,
          "lflags": ASAN},
    # Controlled scheduler: accesses are instrumented by the compiler but the hooks are those of lib/mcsched.c
    "S": {"kind": 3, "cc": "clang", "lib": ["mc.c", "mcsched.c"], "points": 1,
          "sflags": ["-O0", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
          "hflags": ["-O1", "-g", "-DMC_SCHED"] + ASAN,
          "lflags": ASAN},
}

DR = ["D", "R"]

CHECKS = {
    "C01": [("datapack", DR)],
    "C02": [("datapack", DR)],
    "C03": [("datapack", DR)],
    "C04": [("datapack", DR)],
    "C05": [("misc", DR)],
    "C06": [("misc", DR)],
    "C07": [("misc", DR)],
    "C15": [("idlequeue", DR)],
    "C16": [("idlequeue", DR)],
    "C17": [("idlepool", DR)],
    "C18": [("idlepool", DR), ("threads", ["S"])],
    "C19": [("threads", ["S"])],
    "C20": [("threads", DR + ["S"])],
    "C27": [("threads", DR + ["S"])],
    "C21": [("inotify", DR)],
    "C22": [("inotify", DR)],
    "C23": [("timenotify", DR)],
    "C24": [("log", DR)],
    "C25": [("log", DR), ("logthreads", ["S"])],
    "C26": [("log", DR)],
    "C29": [("version", DR)],
    "C30": [("logenv", DR)],
    "C31": [("logmacros", DR)],
    "C28": [("misc", DR)],
    "C08": [("ring", DR)],
    "C09": [("ring", DR)],
    "C10": [("intarray", DR)],
    "C11": [("ints", DR)],
    "C12": [("strv", DR)],
    "C13": [("objv", DR)],
    "C14": [("history", DR)],
}



def version_constants(out, repo, flags):
    """Published version constants. Those which aren't usable as expressions are found by compiling each of them"""
    with open(os.path.join(repo, "include", "gutil_version.h")) as f:
        names = sorted(set(re.findall(r"^\s*#\s*define\s+(GUTIL_VERSION_(\d+)_(\d+)_(\d+))\b", f.read(), re.M)))
    lines = []
    for n, a, b, c in names:
        probe = os.path.join(out, "probe.c")
        with open(probe, "w") as f:
            f.write('#include "gutil_version.h"\n#if !(%s > 0) || %s > GUTIL_VERSION\n#error no\n#endif\nint a = (%s);\nint f(int x) '
                    '{ return (%s <= GUTIL_VERSION) && x < %s + 1; }\n' % (n, n, n, n, n))
        ok = subprocess.run(["gcc", "-fsyntax-only"] + flags + [probe], capture_output=True).returncode == 0
        lines.append("    { \"%s\", %s, %s, %s, %d, %s }," % (n, int(a), int(b), int(c), ok, n if ok else "0"))
    with open(os.path.join(out, "gen_version.h"), "w") as f:
        f.write("static const Const consts[] = {\n%s\n    { NULL }\n};\n" % "\n".join(lines))


def macro_units():
    """Configurations of harness/units/logunit.c"""
    res = []

    def add(src, *flags):
        res.append((src, ["-D" + f for f in flags] + ["-DUNIT_ID=%d" % len(res), '-DUNIT_FLAGS="%s %s"' % (src, " ".join(flags))]))
    for dbg in ([], ["DEBUG"]):
        for mx in [[]] + [["UNIT_MAX=%d" % m for m in (n,)] for n in range(6)]:
            for kind in range(3):
                add("logunit.c", *(dbg + mx + ["UNIT_KIND=%d" % kind]))
        for mx in ([], ["UNIT_MAX=1"], ["UNIT_MAX=5"]):
            for a in (0, 2, 5):
                add("logunit.c", *(dbg + mx + ["UNIT_KIND=1", "UNIT_ASSERT=%d" % a]))
        for mx in ([], ["UNIT_MAX=0"], ["UNIT_MAX=3"]):
            for kind in (0, 2):
                add("logunit_cxx.cpp", *(dbg + mx + ["UNIT_KIND=%d" % kind]))
    return res


# Additional objects: sources (in harness/units) and their flags
UNITS = {"logmacros": macro_units()}

GENERATED = {"version": version_constants}

RULES = ("states: distinct canonical states of the real object (BFS suites), choice points (DFS suites) or distinct "
         "observed outcomes (families of cases); transitions: operations executed on the implementation in lockstep "
         "with the reference model; traces_validated_against_impl: complete executions of the implementation")
