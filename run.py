#!/usr/bin/env python3
"""Builds the library from /repo's working tree together with the explorers
of one property, runs them all and reports.

  run.py Cxx [--thorough]      check one property
  run.py --replay FILE         replays a counterexample
  run.py --setup               checks the tool chain
  run.py --suite NAME [...]    runs one suite (development)
"""
import concurrent.futures as cf
import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CPUS = os.cpu_count() or 4

# property -> [(harness, flavours)]
from checks import CHECKS, FLAVOURS, GENERATED, RULES, UNITS  # noqa: E402


def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write("FAILED: %s\n%s%s\n" % (" ".join(cmd), r.stdout, r.stderr))
        raise SystemExit(2)
    return r.stdout


def pkg(what):
    return sh(["pkg-config", what, "gobject-2.0", "glib-2.0"]).split()


BASE = ["-D_GNU_SOURCE", "-DGLIB_VERSION_MAX_ALLOWED=GLIB_VERSION_2_32",
        "-DGLIB_VERSION_MIN_REQUIRED=GLIB_VERSION_MAX_ALLOWED", "-w", "-fno-pie"]


# Calls which are scheduling points
CALL_POINTS = re.compile(r"^(g_(?!malloc|realloc|try_|slice_alloc|ascii_|return_if|assertion_|log$|logv$).*|v?f?printf|__v?f?printf_chk|"
                         r"fputs|fputc|putc|puts|fwrite|fflush|v?syslog|__v?syslog_chk|strftime|localtime(_r)?|gmtime(_r)?|"
                         r"pthread_(mutex|rwlock|spin)_.*lock|flockfile|funlockfile|"
                         r"time|gettimeofday|clock_gettime|getenv|strtok|strerror|write|read|close)$")

# Those which may block are replaced
with open(os.path.join(VERIF, "lib", "mcsched.c")) as _f:
    OVERRIDES = set(re.findall(r"^(?:BLOCKING\(|\w+ sched_)(g_\w+|pthread_\w+|f\w+file|time|gettimeofday|clock_gettime)\b", _f.read(), re.M))

TRAMPOLINE = """
    .text
    .globl sp_NAME
    .type sp_NAME,@function
sp_NAME:
    push %rdi
    push %rsi
    push %rdx
    push %rcx
    push %r8
    push %r9
    push %rax
    push %r10
    sub $136,%rsp
    movups %xmm0,(%rsp)
    movups %xmm1,16(%rsp)
    movups %xmm2,32(%rsp)
    movups %xmm3,48(%rsp)
    movups %xmm4,64(%rsp)
    movups %xmm5,80(%rsp)
    movups %xmm6,96(%rsp)
    movups %xmm7,112(%rsp)
    mov $.Lname_NAME,%edi
    mov 200(%rsp),%rsi
    call sched_call_point
    movups (%rsp),%xmm0
    movups 16(%rsp),%xmm1
    movups 32(%rsp),%xmm2
    movups 48(%rsp),%xmm3
    movups 64(%rsp),%xmm4
    movups 80(%rsp),%xmm5
    movups 96(%rsp),%xmm6
    movups 112(%rsp),%xmm7
    add $136,%rsp
    pop %r10
    pop %rax
    pop %r9
    pop %r8
    pop %rcx
    pop %rdx
    pop %rsi
    pop %rdi
    jmp TARGET
    .size sp_NAME,.-sp_NAME
    .section .rodata
.Lname_NAME:
    .asciz "NAME"
"""


class Builder:
    """Builds into a directory of its own, from scratch every time"""

    def __init__(self, tag):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = os.path.join(BUILD, tag)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.glib_cflags = pkg("--cflags")
        self.glib_libs = pkg("--libs")
        self.pool = cf.ThreadPoolExecutor(CPUS)

    def build(self, pairs):
        """pairs: set of (harness, flavour). Returns {(harness, flavour): exe}"""
        out = {}
        flavours = sorted({f for _, f in pairs})
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")] + self.glib_cflags
        inc.append("-I" + self.dir)
        jobs = []
        objs = {}
        for h in sorted({h for h, _ in pairs}):
            if h in GENERATED:
                GENERATED[h](self.dir, REPO, BASE + inc)
        for f in flavours:
            fl = FLAVOURS[f]
            d = os.path.join(self.dir, f)
            os.makedirs(d)
            objs[f] = []
            for src in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))):
                o = os.path.join(d, "sut_" + os.path.basename(src)[:-2] + ".o")
                objs[f].append(o)
                jobs.append(self.pool.submit(self.sut, fl, src, o, inc))
            for src in fl["lib"]:
                o = os.path.join(d, "lib_" + os.path.basename(src)[:-2] + ".o")
                objs[f].append(o)
                jobs.append(self.pool.submit(sh, [fl["cc"]] + fl["hflags"] + BASE + inc +
                            ["-I" + os.path.join(VERIF, "lib"), "-c", os.path.join(VERIF, "lib", src), "-o", o]))
        hobj = {}
        units = {}
        for h, f in sorted(pairs):
            fl = FLAVOURS[f]
            o = os.path.join(self.dir, f, "h_" + h + ".o")
            hobj[h, f] = o
            jobs.append(self.pool.submit(sh, [fl["cc"]] + fl["hflags"] + BASE + inc +
                        ["-I" + os.path.join(VERIF, "lib"), "-c",
                         os.path.join(VERIF, "harness", h + ".c"), "-o", o]))
            units[h, f] = []
            for k, (src, flags) in enumerate(UNITS.get(h, [])):
                o = os.path.join(self.dir, f, "u_%s_%d.o" % (h, k))
                units[h, f].append(o)
                jobs.append(self.pool.submit(self.unit, [fl["cc"], "-O1", "-g"] + BASE + inc + flags, src, o))
        for j in jobs:
            j.result()
        links = []
        done = set()
        for h, f in sorted(pairs):
            fl = FLAVOURS[f]
            exe = os.path.join(self.dir, f, h)
            out[h, f] = exe
            if fl.get("points") and f not in done:
                done.add(f)
                objs[f].append(self.call_points(fl, os.path.join(self.dir, f), objs[f]))
            links.append(self.pool.submit(sh, [fl["cc"]] + fl["lflags"] + ["-no-pie", hobj[h, f]] + units[h, f] + objs[f] +
                         ["-o", exe] + self.wraps(h) + self.glib_libs + ["-ldl", "-lpthread", "-lm"]))
        for j in links:
            j.result()
        return out

    @staticmethod
    def wraps(h):
        with open(os.path.join(VERIF, "harness", h + ".c")) as f:
            m = re.findall(r"^/\* LINK: (.*) \*/$", f.read(), re.M)
        return [x for l in m for x in l.split()]

    @staticmethod
    def call_points(fl, d, objs):
        """Redirects calls made by the library to trampolines which are scheduling points"""
        funcs = set()
        libdir = sh(["pkg-config", "--variable=libdir", "glib-2.0"]).strip()
        libs = [os.path.join(libdir, x) for x in ("libglib-2.0.so", "libgobject-2.0.so")]
        libs.append(sh(["gcc", "-print-file-name=libc.so.6"]).strip())
        for l in libs:
            for x in sh(["nm", "-D", "--defined-only", l]).splitlines():
                x = x.split()
                if len(x) == 3 and x[1] in "TWi":
                    funcs.add(x[2].split("@")[0])
        used = set()
        sut = [o for o in objs if os.path.basename(o).startswith("sut_")]
        for o in sut:
            for x in sh(["nm", "-u", o]).splitlines():
                n = x.split()[1]
                if n in funcs and CALL_POINTS.match(n):
                    used.add(n)
        for o in sut:
            sh(["objcopy"] + ["--redefine-sym=%s=sp_%s" % (n, n) for n in sorted(used)] + [o])
        path = os.path.join(d, "points.s")
        with open(path, "w") as f:
            for n in sorted(used):
                f.write(TRAMPOLINE.replace("NAME", n).replace("TARGET", "sched_" + n if n in OVERRIDES else n))
            f.write('.section .note.GNU-stack,"",@progbits\n')
        sh([fl["cc"], "-c", path, "-o", path[:-2] + ".o"])
        return path[:-2] + ".o"

    @staticmethod
    def unit(cmd, src, o):
        """One which doesn't compile is for the explorer to report"""
        d = os.path.join(VERIF, "harness", "units")
        r = subprocess.run(cmd + ["-c", os.path.join(d, src), "-o", o], capture_output=True, text=True)
        if r.returncode:
            why = next((l for l in r.stderr.splitlines() if "error:" in l), "?")
            sh(cmd + ["-DBROKEN=" + json.dumps(why), "-x", "c", "-c", os.path.join(d, "broken.c"), "-o", o])

    @staticmethod
    def sut(fl, src, o, inc):
        sh([fl["cc"]] + fl["sflags"] + BASE + inc + ["-c", src, "-o", o])
        sh(["objcopy", "--rename-section", ".bss=sut_bss,alloc",
            "--rename-section", ".data=sut_data,alloc,load,data,contents", o])


def env_for(tmp):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1048576:"
                           "malloc_fill_byte=190:quarantine_size_mb=4:thread_local_quarantine_size_kb=64:"
                           "allocator_may_return_null=1:detect_stack_use_after_return=0:"
                           "max_allocation_size_mb=6144:handle_abort=1:max_free_fill_size=4096:free_fill_byte=221:"
                           "allocator_release_to_os_interval_ms=-1")
    env["MC_TMP"] = tmp
    env.pop("G_MESSAGES_DEBUG", None)
    env.pop("G_DEBUG", None)
    return env


def symbolise(res, exe):
    """Replaces code addresses with source locations"""
    for k in ("trace", "message"):
        addrs = sorted(set(re.findall(r"@0x([0-9a-f]+)", res.get(k) or "")))
        if addrs:
            r = subprocess.run(["addr2line", "-s", "-f", "-e", exe] + addrs, capture_output=True, text=True)
            l = r.stdout.splitlines()
            if r.returncode == 0 and len(l) == 2 * len(addrs):
                where = {a: "%s (%s)" % (l[2 * i], l[2 * i + 1].split(" ")[0]) for i, a in enumerate(addrs)}
                res[k] = re.sub(r"@0x([0-9a-f]+)", lambda m: where[m.group(1)], res[k])


def run_suite(exe, suite, thorough, shard, nshards, deadline, tmp):
    limit = max(10, int(deadline - time.time()))
    cmd = [exe, "--run", suite, "--shard", "%d/%d" % (shard, nshards), "--time", str(limit)]
    if thorough:
        cmd.append("--thorough")
    tries = []
    for attempt in range(2):
        r = subprocess.run(cmd, capture_output=True, text=True, env=env_for(tmp), errors="replace")
        try:
            res = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            res = None
        if res and (res["ok"] or res["confirmed"]):
            symbolise(res, exe)
            return res
        tries.append((r.returncode, res, r.stderr, r.stdout))
    # Failed twice without a reproducible counterexample
    if tries[0][1] and tries[1][1]:
        res = tries[1][1]
        res["message"] += " (exploration fails every time, single executions don't: timing or address dependent)"
        return res
    return {"suite": suite, "error": "%s exited with %d\n%s%s" % (
        suite, tries[-1][0], tries[-1][2][-3000:], tries[-1][3][-3000:])}


def suites_of(exe, prop):
    res = []
    for l in sh([exe, "--list"]).splitlines():
        name, split, only = l.split()
        if name.startswith(prop + "."):
            res.append((name, max(1, int(split)), int(only)))
    return res


def selected(only, flavour):
    """Flavour S only runs what's meant for it"""
    kind = FLAVOURS[flavour]["kind"]
    return only == kind or (not only and kind != 3)


def check(prop, thorough):
    t0 = time.time()
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tag = "%s-%s" % (prop, tier)
    b = Builder(tag)
    exes = b.build({(h, f) for h, fs in CHECKS[prop] for f in fs})
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="mc." + prop + ".", dir=b.dir)
    os.chmod(tmp, 0o755)
    deadline = t0 + 720
    jobs = []
    nsuites = 0
    with cf.ThreadPoolExecutor(CPUS) as pool:
        for (h, f), exe in sorted(exes.items()):
            for name, split, only in suites_of(exe, prop):
                if not selected(only, f):
                    continue
                nsuites += 1
                for s in range(split):
                    jobs.append((h, f, name, pool.submit(run_suite, exe, name, thorough, s, split,
                                                         deadline, tmp)))
        results = []
        for h, f, name, j in jobs:
            r = j.result()
            r["flavour"] = f
            r["harness"] = h
            results.append(r)
    shutil.rmtree(tmp, ignore_errors=True)
    if not nsuites:
        sys.stderr.write("no suites for %s\n" % prop)
        return 2
    errors = [r for r in results if "error" in r]
    bad = [r for r in results if not r.get("ok", True)]
    good = [r for r in results if r.get("ok")]
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
    per = {}
    samples = []
    for r in results:
        if "error" in r:
            continue
        cov["states"] += r["states"]
        cov["transitions"] += r["transitions"]
        cov["traces_validated_against_impl"] += r["execs"]
    for r in good:
        k = (r["suite"], r["flavour"])
        p = per.setdefault(k, {"suite": r["suite"], "build": r["flavour"], "what": r["about"], "states": 0,
                               "transitions": 0, "executions": 0, "distinct_outcomes": 0, "longest": 0,
                               "limited_by": [], "wall_s": 0})
        p["states"] += r["states"]
        p["transitions"] += r["transitions"]
        p["executions"] += r["execs"]
        p["distinct_outcomes"] += r["outcomes"]
        p["longest"] = max(p["longest"], r["maxlen"])
        p["wall_s"] = round(max(p["wall_s"], r["wall"]), 2)
        if r["depth"]:
            p["depth_completed"] = r["depth"]
        for bit, what in ((1, "depth bound"), (2, "time"), (4, "state limit"), (8, "preemption bound")):
            if r["capped"] & bit and what not in p["limited_by"]:
                p["limited_by"].append(what)
        if not any(s["suite"] == r["suite"] for s in samples):
            samples.append({"suite": r["suite"], "case": r["spec"], "trace": r["sample"][:1500]})
    cov["samples"] = samples
    cov["suites"] = [per[k] for k in sorted(per)]
    cov["exhaustive"] = not errors and not bad and not any(
        x in p["limited_by"] for p in per.values() for x in ("time", "state limit"))
    cov["exhaustive_note"] = "every execution within the stated bounds was run; suites with 'depth bound' or " \
        "'preemption bound' in limited_by have behaviours beyond the bound"
    cov["rule"] = RULES
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["bounds as stated per suite", "the oracles in harness/ state the property"],
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for r in errors:
        sys.stderr.write(r["error"] + "\n")
    rc = 0
    seen = set()
    for r in bad:
        if (r["suite"]) in seen:
            continue
        seen.add(r["suite"])
        rd = os.path.join(BUILD, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.%s.json" % (r["suite"], r["flavour"]))
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": r["harness"], "flavour": r["flavour"], "suite": r["suite"],
                       "thorough": thorough, "spec": r["spec"].split(" ", 1)[1], "message": r["message"],
                       "trace": r["trace"], "stderr": r.get("stderr", "")}, f, indent=1)
        print("%s [%s]: %s" % (r["suite"], r["flavour"], r["message"]))
        if r["trace"]:
            print("\n".join("    " + l for l in r["trace"].strip().splitlines()[-25:]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    if errors and not rc:
        return 2
    if not rc:
        print("%s: %s, %d suite runs, %d states, %d transitions, %d executions, %.1fs (build %.1fs)%s" % (
            prop, tier, len(per), cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
            time.time() - t0, tbuild, "" if cov["exhaustive"] else " [capped]"))
    if os.environ.get("MC_KEEP") is None:
        shutil.rmtree(b.dir, ignore_errors=True)
    return rc


def replay(path):
    with open(path) as f:
        r = json.load(f)
    b = Builder("replay")
    exe = b.build({(r["harness"], r["flavour"])})[r["harness"], r["flavour"]]
    tmp = tempfile.mkdtemp(prefix="mc.", dir=b.dir)
    cmd = [exe, "--replay", r["suite"], r["spec"]] + (["--thorough"] if r["thorough"] else [])
    rc = subprocess.run(cmd, env=env_for(tmp)).returncode
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return rc


def main():
    a = sys.argv[1:]
    if a[0] == "--setup":
        for t in ("clang", "gcc", "objcopy", "pkg-config"):
            if not shutil.which(t):
                print("missing " + t)
                return 2
        pkg("--cflags")
        os.makedirs(BUILD, exist_ok=True)
        print("ok")
        return 0
    if a[0] == "--replay":
        return replay(a[1])
    if a[0] == "--suite":
        prop = a[1].split(".")[0]
        b = Builder("dev-" + prop)
        fs = a[2:] and a[2] in FLAVOURS and [a[2]]
        exes = b.build({(h, f) for h, ff in CHECKS[prop] for f in (fs or ff)})
        tmp = tempfile.mkdtemp(prefix="mc.", dir=b.dir)
        for (h, f), exe in sorted(exes.items()):
            for name, split, only in suites_of(exe, prop):
                if name.startswith(a[1]) and selected(only, f):
                    t = time.time()
                    with cf.ThreadPoolExecutor(CPUS) as pool:
                        rs = list(pool.map(lambda s: run_suite(exe, name, "--thorough" in a, s, split, time.time() + 700, tmp),
                                           range(split)))
                    for r in rs:
                        if "error" in r:
                            print(f, r["error"])
                        elif not r["ok"]:
                            print(f, name, "FAIL", r["message"], r["spec"], r["confirmed"])
                            print(r["trace"][-3000:])
                            if "-v" in a:
                                print(r["stderr"])
                            break
                    g = [r for r in rs if r.get("ok")]
                    print("%s %s: states %d trans %d execs %d outcomes %d maxlen %d capped %s depth %s frontier %d  %.1fs" % (
                        f, name, sum(r["states"] for r in g), sum(r["transitions"] for r in g),
                        sum(r["execs"] for r in g), sum(r["outcomes"] for r in g),
                        max([r["maxlen"] for r in g] + [0]), {r["capped"] for r in g}, {r["depth"] for r in g},
                        sum(r["frontier"] for r in g), time.time() - t))
                    if g and "-s" in a:
                        print(g[0]["spec"], "\n", g[0]["sample"])
        return 0
    thorough = "--thorough" in a or (os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in a)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-" + a[0]), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return check(a[0], thorough)


if __name__ == "__main__":
    sys.exit(main())
