"""mutate.py FILE... : small changes to /repo/src/FILE.c, one at a time, each run against the quick explorers (debug
flavour) of the modules which use it. Lists those which none of them noticed in OUT (default /tmp/w/mut/survivors.txt).
Development aid: not used by any check."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import concurrent.futures as cf

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OUT = os.environ.get("OUT", "/tmp/w/mut/survivors.txt")
WORK = os.environ.get("WORK", "/tmp/w/mut/build")
os.makedirs(WORK, exist_ok=True)
import run  # noqa: E402
run.BUILD = WORK
from checks import FLAVOURS  # noqa: E402

USERS = {"datapack": ["datapack"], "misc": ["misc", "strv", "objv", "idlequeue", "log"], "ring": ["ring"],
         "intarray": ["intarray", "ints"], "ints": ["ints"], "strv": ["strv"], "objv": ["objv"], "history": ["history"],
         "log": ["log"], "idlequeue": ["idlequeue"], "idlepool": ["idlepool"], "inotify": ["inotify"],
         "timenotify": ["timenotify"], "weakref": ["threads"]}
ORDER = None


def masked(text):
    """The same length, comments, strings and preprocessor lines blanked"""
    def blank(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    t = re.sub(r"/\*.*?\*/", blank, text, flags=re.S)
    t = re.sub(r"//[^\n]*", blank, t)
    t = re.sub(r'"(\\.|[^"\\])*"', blank, t)
    t = re.sub(r"^[ \t]*#.*?(?<!\\)$", blank, t, flags=re.M | re.S)
    t = re.sub(r"\b(GASSERT|GDEBUG|GERR|GWARN|GVERBOSE_?|G_STATIC_ASSERT)\s*\([^;]*;", blank, t)
    return t


OPS = [(r"(?<![<>=!\-])<(?![<=])", ["<=", ">"]), (r"<=", ["<"]), (r"(?<![<>=!\-])>(?![>=])", [">=", "<"]), (r">=", [">"]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<=[\w)\]] )\+(?= )", ["-"]), (r"(?<=[\w)\]] )-(?= )", ["+"]), (r"\+\+", ["--"]), (r"(?<!-)--(?!-)", ["++"]),
       (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\|=", ["="]), (r"\^=", ["|="]), (r"(?<![<])<<(?![<=])", [">>"]), (r"(?<![>])>>(?![>=])", ["<<"]),
       (r"(?<=\w )&(?= \w)", ["|"]), (r"(?<=\w )\|(?= \w)", ["&"]), (r"(?<=\w )%(?= \w)", ["/"]), (r"(?<=\w)\*(?=\w)", ["+"]),
       (r"\bMIN\b", ["MAX"]), (r"\bMAX\b", ["MIN"]), (r"\bTRUE\b", ["FALSE"]), (r"\bFALSE\b", ["TRUE"]),
       (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]),
       (r"(?<![\w.])(?:[2-9]|[1-9]\d+|0x[0-9a-fA-F]+)(?![\w.])", ["(%s + 1)", "(%s - 1)"]),
       (r"!(?=[\w*(])", [""]), (r"\bif \(", ["if (!!0 && ", "if (1 || "]), (r"\bbreak;", [";"]), (r"(?<=\? )NULL", ["(void*)1"])]


def mutants(text):
    m = masked(text)
    res = []

    def inside(pos):
        # Only inside of function bodies: indented lines
        l = m.rfind("\n", 0, pos) + 1
        return m[l:l + 4] == "    "
    for pat, subs in OPS:
        for x in re.finditer(pat, m):
            if inside(x.start()):
                for s in subs:
                    s = s % x.group(0) if "%s" in s else s
                    res.append((x.start(), x.end(), s))
    # Statements
    for x in re.finditer(r"(?<=[;{}\n])[ \t]*\n?((?: {4})+)((?!return|break|goto|const|static|if|else|while|for|do\b|case|default|G_|guint|gint|gsize|char|void|int |va_list|GU\w+\*? |GError\*|GIO\w+\*? |G\w+\* |[}{])[^;{}]*;)", m):
        if inside(x.start(2)):
            res.append((x.start(2), x.end(2), ";"))
    return sorted(set(res))


class Mutator:
    def __init__(self, module):
        self.module = module
        self.src = "/repo/src/gutil_%s.c" % module
        self.text = open(self.src).read()
        self.base = run.Builder("base-" + module)
        self.harnesses = USERS[module]
        self.exes = self.base.build({(h, "D") for h in self.harnesses})
        self.inc = ["-I/repo/include", "-I/repo/src"] + self.base.glib_cflags
        self.suites = []
        for h in self.harnesses:
            exe = self.exes[h, "D"]
            for l in run.sh([exe, "--list"]).splitlines():
                name, split, only = l.split()
                if int(only) in (0, 1):
                    t = time.time()
                    rs = self.suite(exe, name, max(1, int(split)))
                    assert rs, name
                    self.suites.append((time.time() - t, h, name, max(1, int(split))))
        self.suites.sort()
        print(module, "baseline %.1f s" % sum(s[0] for s in self.suites), len(mutants(self.text)), "mutants", flush=True)

    def suite(self, exe, name, split, limit=60):
        """True if quiet"""
        env = run.env_for(WORK)

        def one(s):
            try:
                r = subprocess.run([exe, "--run", name, "--shard", "%d/%d" % (s, split), "--time", str(limit)],
                                   capture_output=True, text=True, errors="replace", timeout=limit + 30, env=env)
                return '"ok":1' in r.stdout.replace(" ", "") or '"ok":true' in r.stdout.replace(" ", "")
            except subprocess.TimeoutExpired:
                return False
        with cf.ThreadPoolExecutor(4) as p:
            return all(p.map(one, range(split)))

    def mutant(self, n, mu):
        a, b, s = mu
        text = self.text[:a] + s + self.text[b:]
        d = os.path.join(WORK, "m-%s-%d" % (self.module, n))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            src = os.path.join(d, "gutil_%s.c" % self.module)
            open(src, "w").write(text)
            fl = FLAVOURS["D"]
            o = os.path.join(d, "m.o")
            r = subprocess.run([fl["cc"]] + fl["sflags"] + run.BASE + self.inc + ["-c", src, "-o", o], capture_output=True)
            if r.returncode:
                return "nobuild"
            subprocess.run(["objcopy", "--rename-section", ".bss=sut_bss,alloc",
                            "--rename-section", ".data=sut_data,alloc,load,data,contents", o])
            exes = {}
            for t, h, name, split in self.suites:
                if h not in exes:
                    exe = exes[h] = os.path.join(d, h)
                    bd = os.path.join(self.base.dir, "D")
                    objs = [os.path.join(bd, f) for f in os.listdir(bd) if f.endswith(".o") and
                            (f.startswith("sut_") or f.startswith("lib_")) and f != "sut_gutil_%s.o" % self.module]
                    r = subprocess.run([fl["cc"]] + fl["lflags"] + ["-no-pie", os.path.join(bd, "h_" + h + ".o"), o] + objs +
                                       ["-o", exe] + run.Builder.wraps(h) + self.base.glib_libs + ["-ldl", "-lpthread", "-lm"],
                                       capture_output=True, text=True)
                    if r.returncode:
                        return "nolink " + r.stderr[-200:]
                if not self.suite(exes[h], name, split):
                    return "killed by " + name
            return "SURVIVED"
        finally:
            shutil.rmtree(d, ignore_errors=True)


def main():
    step = int(os.environ.get("STEP", "1"))
    for module in sys.argv[1:]:
        m = Mutator(module)
        ms = mutants(m.text)[::step]
        with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as p:
            res = list(p.map(lambda x: m.mutant(*x), enumerate(ms)))
        with open(OUT, "a") as f:
            for mu, r in zip(ms, res):
                line = m.text.count("\n", 0, mu[0]) + 1
                a = m.text.rfind("\n", 0, mu[0]) + 1
                e = m.text.find("\n", mu[1])
                txt = m.text[a:mu[0]] + "[[" + m.text[mu[0]:mu[1]] + " => " + mu[2] + "]]" + m.text[mu[1]:e]
                if not r.startswith("killed") and r != "nobuild":
                    f.write("%s:%d: %s: %s\n" % (module, line, r, " ".join(txt.split())))
            f.write("%s: %d mutants, %d killed, %d don't build, %d survived\n" % (
                module, len(ms), sum(r.startswith("killed") for r in res), res.count("nobuild"), res.count("SURVIVED")))
        shutil.rmtree(m.base.dir, ignore_errors=True)


if __name__ == "__main__":
    main()
