"""C26: concurrent and repeated compilations. Interleavings of real compiler processes under a ptrace scheduler (sched.c)."""
import hashlib, itertools, os, re, shutil, subprocess
from core import ANSI, Check, REPO, VERIF, run_proc


def ok(mark, extra=""):
    return "struct st { s: string n: int }\n%sfn show(s: st) {\nprintln(s.s.append(s.n.toString()))\n}\nfn main() {\nf := fn(n: int) st = St(\"%s\", n)\nshow(f(%d))\n}\n" % (extra, mark, len(mark)), ("ok", "%s%d\n" % (mark, len(mark)))


def big(mark):
    return ok(mark, "".join("fn f%d(a: int, b: string) string {\nx := [a, %d]\ng := fn() int = x[1]\nreturn b.append(g().toString())\n}\n" % (i, i) for i in range(60)))


TYPE_ERR = lambda m: ("fn main() {\n%s := 1 + \"x\"\nprintln(%s)\n}\n" % (m, m), ("err", None))
SYN_ERR = lambda m: ("fn main() {\n%s := (1\n}\n" % m, ("err", None))
LEX_ERR = lambda m: ("fn main() {\n%s := \"open\n}\n" % m, ("err", None))
LINK_ERR = lambda m: ("fn missing%s() nothing\nfn main() {\nmissing%s()\n}\n" % (m, m), ("fail", None))

# name -> processes (directory, file name, source + outcome, output directory)
SCENARIOS = {
    "same name": [("a", "p.clara", ok("one"), "a"), ("b", "p.clara", ok("twotwo"), "b")],
    "same name, type error": [("a", "p.clara", ok("one"), "a"), ("b", "p.clara", TYPE_ERR("v"), "b")],
    "same name, syntax error": [("a", "p.clara", ok("one"), "a"), ("b", "p.clara", SYN_ERR("v"), "b")],
    "same name, link failure": [("a", "p.clara", ok("one"), "a"), ("b", "p.clara", LINK_ERR("v"), "b")],
    "two link failures": [("a", "p.clara", LINK_ERR("u"), "a"), ("b", "p.clara", LINK_ERR("v"), "b")],
    "different sizes": [("a", "p.clara", ok("s"), "a"), ("b", "p.clara", big("large"), "b")],
    "same source": [("a", "p.clara", ok("one"), "o1"), ("a", "p.clara", ok("one"), "o2")],
    "same source and output": [("a", "p.clara", ok("one"), "o"), ("a", "p.clara", ok("one"), "o")],
    "same directory": [("a", "p.clara", ok("one"), "a"), ("a", "q.clara", ok("two"), "a")],
    "related names": [("a", "p.clara", ok("one"), "o"), ("b", "p.q.clara", ok("two"), "o")],
    "related names 2": [("a", "p.clara", ok("one"), "o"), ("b", "p-1.clara", ok("two"), "o")],
}
THREE = {
    "three of one name": [(d, "p.clara", ok("mark" + d), d) for d in "abc"],
    "three, one failing": [("a", "p.clara", ok("one"), "a"), ("b", "p.clara", TYPE_ERR("v"), "b"), ("c", "p.clara", ok("three"), "c")],
}


def main():
    c = Check("C26", "model_checking",
              "explored: every interleaving of two compiler processes (and of three up to a preemption bound) at every creation, closing, renaming and removal of a file, reading of the program and execution of a tool, for programs of equal, related and different names with every combination of outcomes; every history of compilations up to length 3 with succeeding and failing versions of a program; odd file names. Transitions are scheduler choices, states the points between them",
              ["gcc itself keeps its own temporary files apart", "a program executed by the compiler runs atomically with respect to the other compilations", "two different programs are not compiled to the same executable at the same time"])
    sched = os.path.join(c.tc.dir, "sched")
    subprocess.run(["gcc", "-O1", "-o", sched, os.path.join(VERIF, "mc", "sched.c")], check=True)
    ids = itertools.count()

    def tree_hash():
        h = hashlib.sha256()
        for root, ds, fs in sorted(os.walk(REPO + "/install")):
            for f in sorted(fs):
                with open(os.path.join(root, f), "rb") as x:
                    h.update(f.encode() + x.read())
        return h.hexdigest()
    install0 = tree_hash()

    def setup(procs):
        d = os.path.join(c.tc.dir, "c26-%d" % next(ids))
        os.makedirs(os.path.join(d, "tmp"))
        for i, (pd, f, (src, out), od) in enumerate(procs):
            for x in (pd, od, "run%d" % i):
                os.makedirs(os.path.join(d, x), exist_ok=True)
            with open(os.path.join(d, pd, f), "w") as h:
                h.write(src)
        return d

    def command(d, pd, f, od):
        return [c.tc.clarac, "-install", REPO + "/install", "-prog", os.path.join(d, pd, f), "-out", os.path.join(d, od)]

    def outcome(d, pd, f, src, want, od, status, out, before=None):
        """why this compilation's result is wrong, or None"""
        out = ANSI.sub("", out)
        with open(os.path.join(d, pd, f)) as h:
            if h.read() != src:
                return "the source file was modified"
        exe = os.path.join(d, od, os.path.splitext(f)[0])
        if want[0] == "ok":
            if status != 0:
                return "expected success, got exit %s: %s" % (status, out[-600:])
            if not os.path.exists(exe):
                return "no executable"
            rc, o, e = run_proc([exe], 60, {}, d)
            if (rc, o.decode("utf-8", "replace")) != (0, want[1]):
                return "the executable is not that of its source: exit %s, output %r instead of %r" % (rc, o[:200], want[1])
            return None
        if status != 1:
            return "expected exit status 1, got %s: %s" % (status, out[-600:])
        if want[0] == "err" and not re.search(re.escape(os.path.join(d, pd, f)) + r":\d+:\d+:", out):
            return "no error located in its own source: %s" % out[-600:]
        if want[0] == "err" and "clara:" in out and any(m not in (os.path.join(d, pd, f),) for m in re.findall(r"(\S+\.clara):\d+:\d+:", out)):
            return "errors of another file: %s" % out[-600:]
        if os.path.exists(exe):
            with open(exe, "rb") as h:
                if before is None or h.read() != before:
                    return "the failed compilation left a new executable"
        return None

    def leftovers(d, known):
        """files which are neither sources nor executables of their compilations"""
        left = [os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs]
        left = [f for f in left if f not in known and not f.startswith("run")]
        return "files left behind: %s" % sorted(left)[:5] if left else None

    def schedule(name, procs, prefix):
        """runs one schedule; returns its choices as [(chosen, enabled)]"""
        why = None
        for attempt in (0, 1):
            d = setup(procs)
            cmd = [sched, ",".join(map(str, prefix))]
            for i, (pd, f, s, od) in enumerate(procs):
                cmd += (["--"] if i else []) + [os.path.join(d, "run%d" % i)] + command(d, pd, f, od)
            rc, o, e = run_proc(cmd, 120, dict(c.tc.env, TMPDIR=os.path.join(d, "tmp")), d)
            lines = o.decode().split("\n")
            steps = [(int(l.split()[1]), l.split()[2], l.split()[3]) for l in lines if l.startswith("step ")]
            st = {int(l.split()[1]): int(l.split()[2]) for l in lines if l.startswith("exit ")}
            if "notrace" in lines:
                print("ptrace is not available")
                os._exit(2)
            if rc is None:
                why = "the compilations do not end: %s" % lines[-4:]
            elif "diverged" in lines or "end" not in lines:
                # the compiler took different steps than in the run this schedule was derived from
                shutil.rmtree(d, ignore_errors=True)
                return None
            else:
                why = None
                for i, (pd, f, (src, want), od) in enumerate(procs):
                    with open(os.path.join(d, "run%d" % i, "stdout"), errors="replace") as h:
                        why = outcome(d, pd, f, src, want, od, st.get(i), h.read())
                    if why:
                        why = "compilation %d (%s/%s): %s" % (i, pd, f, why)
                        break
                why = why or leftovers(d, {x for p in procs for x in (p[0] + "/" + p[1], p[3] + "/" + os.path.splitext(p[1])[0])})
            shutil.rmtree(d, ignore_errors=True)
            if why is None:
                break
        text = " ".join("%d:%s" % (p, ev) for p, en, ev in steps)
        if why is not None:
            c.violation("%s | %s" % (name, text), "%s\nschedule (process:step): %s" % (why, text), "".join("// ---- process %d: %s/%s\n%s" % (i, p[0], p[1], p[2][0]) for i, p in enumerate(procs)))
            return None
        c.note("schedules")
        c.count("%s|%s" % (name, text), len(steps), len(steps) + 1, {"scenario": name, "schedule": text})
        return [(p, en) for p, en, ev in steps]

    def preemptions(ch):
        return sum(1 for i in range(1, len(ch)) if ch[i][0] != ch[i - 1][0] and str(ch[i - 1][0]) in ch[i][1])

    def explore(name, procs, bound):
        frontier = [()]
        while frontier and not c.stop:
            res = []
            c.map(lambda p: res.append((p, schedule(name, procs, p))), frontier)
            nxt = []
            for p, ch in res:
                if ch is None:
                    c.exhaustive = False
                    continue
                for j in range(len(p), len(ch)):
                    for alt in ch[j][1]:
                        if int(alt) != ch[j][0]:
                            new = ch[:j] + [(int(alt), ch[j][1])]
                            if bound is None or preemptions(new) <= bound:
                                nxt.append(tuple(x[0] for x in new))
            frontier = nxt
            if c.out_of_time():
                break

    # ------------------------------------------------------------------ histories
    VERS = {"v1": ok("one"), "v2": ok("second"), "type": TYPE_ERR("v"), "syntax": SYN_ERR("v"), "lex": LEX_ERR("v"), "link": LINK_ERR("v")}

    def history(seq):
        for attempt in (0, 1):
            d = setup([("a", "p.clara", VERS["v1"], "o")])
            env = dict(c.tc.env, TMPDIR=os.path.join(d, "tmp"))
            exe = os.path.join(d, "o", "p")
            why = None
            for k, v in enumerate(seq):
                src, want = VERS[v]
                with open(os.path.join(d, "a", "p.clara"), "w") as h:
                    h.write(src)
                before = None
                if os.path.exists(exe):
                    with open(exe, "rb") as h:
                        before = h.read()
                rc, o, e = run_proc(command(d, "a", "p.clara", "o"), 120, env, d)
                why = outcome(d, "a", "p.clara", src, want, "o", rc, (o + e).decode("utf-8", "replace"), before)
                if why:
                    why = "compilation %d (%s): %s" % (k + 1, v, why)
                    break
                why = leftovers(d, {"a/p.clara", "o/p"})
                if why:
                    why = "compilation %d (%s): %s" % (k + 1, v, why)
                    break
            shutil.rmtree(d, ignore_errors=True)
            if why is None:
                break
        if why:
            c.violation("history " + " ".join(seq), why, "".join("// ---- %s\n%s" % (v, VERS[v][0]) for v in seq))
        else:
            c.note("histories")
            c.count("history|" + " ".join(seq), len(seq), len(seq) + 1, {"history": list(seq)})

    # ------------------------------------------------------------------ names
    def names(item):
        f, od, rel = item
        for attempt in (0, 1):
            d = setup([("a", f, ok("nm"), od)])
            src = ok("nm")[0]
            keep = {}
            for other in ("x.clara", "x", "p.S", "p.o"):
                if other != f:
                    with open(os.path.join(d, "a", other), "w") as h:
                        h.write("other " + other)
                    keep[other] = "other " + other
            env = dict(c.tc.env, TMPDIR=os.path.join(d, "tmp"))
            cmd = command(d, "a", f, od)
            if rel:
                cmd[4], cmd[6] = os.path.join(".", "a", f), od
            rc, o, e = run_proc(cmd, 120, env, d)
            clash = os.path.splitext(f)[0] == f and od == "a"
            stem = os.path.splitext(f)[0]
            why = None
            if clash:
                with open(os.path.join(d, "a", f)) as h:
                    if h.read() != src:
                        why = "the source file was overwritten"
            else:
                why = outcome(d, "a", f, src, ok("nm")[1], od, rc, (o + e).decode("utf-8", "replace"))
            for other, t in keep.items():
                if od == "a" and other == stem:
                    continue
                with open(os.path.join(d, "a", other)) as h:
                    if h.read() != t:
                        why = why or "another file was modified: " + other
            why = why or leftovers(d, {"a/" + x for x in keep} | {"a/" + f, od + "/" + stem})
            shutil.rmtree(d, ignore_errors=True)
            if why is None:
                break
        key = "file %r output %r%s" % (f, od, " relative" if rel else "")
        if why:
            c.violation("name " + key, why, src)
        else:
            c.note("names")
            c.count("name|" + key, 1, 2, {"name": key})

    c.map(history, list(itertools.product(VERS, repeat=2)) + (list(itertools.product(VERS, repeat=3)) if c.thorough else [s for s in itertools.product(("v1", "v2", "type", "link"), repeat=3)]))
    files = ["p.clara", "p", "a b.clara", "é.clara", "a.b.clara", "p.txt", "-x.clara", "%s.clara", "a*b.clara", "*.clara", "a$b.clara", "q'q.clara", "p.S.clara", "main.clara", "gcc.clara", "p" * 100 + ".clara", "P.CLARA", "1.clara", "a;b.clara", "x.y.z", "p.c"]
    c.map(names, [(f, od, rel) for f in files for od in ("o", "a") for rel in (False, True)])
    for n, p in SCENARIOS.items():
        explore(n, p, None if c.thorough or n == "same name" else 2)
    for n, p in THREE.items():
        explore(n, p, 1 if not c.thorough else 2)
    if tree_hash() != install0:
        c.violation("install", "compiling modified the installed library or runtime files", "")
    c.finish()
