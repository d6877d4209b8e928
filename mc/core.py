"""Harness shared by all checks: builds clarac from /repo's working tree, compiles and runs batches of
generated programs against a reference model's predictions, isolates and confirms mismatches, writes evidence."""
import atexit, concurrent.futures, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
NPROC = max(2, min(8, os.cpu_count() or 2))

GO_ENV = {"HOME": os.environ.get("HOME") or "/root", "GOTOOLCHAIN": "local", "GOPROXY": "off",
          "GOFLAGS": "-mod=mod -buildvcs=false", "GOWORK": "off"}

GCC_WRAPPER = r'''#!/bin/sh
# Stand-in for gcc in front of the real one. MC_GCC=skip: do not link at all. MC_GCC=as: only assemble.
# Otherwise: link with runtime objects compiled once from the same C files with the same flags.
case "$MC_GCC" in
skip) exit 0 ;;
as) for a in "$@"; do case "$a" in *.S) exec as -o /dev/null "$a" ;; esac; done; exit 0 ;;
esac
n=$#
while [ "$n" -gt 0 ]; do
  a=$1; shift; n=$((n-1))
  case "$a" in
  */install/init/*.c) o="$MC_OBJ/$(basename "$a" .c).o"; [ -f "$o" ] && a=$o ;;
  esac
  set -- "$@" "$a"
done
exec "$MC_REAL_GCC" "$@" $MC_EXTRA
'''


class Toolchain:
    """clarac and helpers built from the current working tree of /repo into a scratch directory."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="claramc-")
        atexit.register(self.cleanup)
        self.clarac = os.path.join(self.dir, "clarac")
        env = dict(os.environ, **GO_ENV)
        r = subprocess.run(["go", "build", "-o", self.clarac, "."], cwd=REPO, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            print("build of clarac failed:\n" + r.stdout.decode("utf-8", "replace"))
            sys.exit(2)
        self.bin = os.path.join(self.dir, "bin")
        self.obj = os.path.join(self.dir, "obj")
        os.mkdir(self.bin)
        os.mkdir(self.obj)
        real = shutil.which("gcc")
        with open(os.path.join(self.bin, "gcc"), "w") as f:
            f.write(GCC_WRAPPER)
        os.chmod(os.path.join(self.bin, "gcc"), 0o755)
        for c in glob.glob(REPO + "/install/init/*.c"):
            o = os.path.join(self.obj, os.path.basename(c)[:-2] + ".o")
            subprocess.run([real, "-fno-pie", "-c", "-o", o, c], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.env = {"PATH": self.bin + ":" + os.environ.get("PATH", "/usr/bin:/bin"), "HOME": GO_ENV["HOME"],
                    "MC_REAL_GCC": real, "MC_OBJ": self.obj, "GOMAXPROCS": "2", "LC_ALL": "C.UTF-8"}
        self.n = 0
        self.lock = threading.Lock()
        self.shims = {}

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def workdir(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.dir, "w%d" % self.n)
        os.mkdir(d)
        return d

    def shim(self, name):
        """Compiles /verif/mc/<name>.c as a preloadable library."""
        with self.lock:
            if name not in self.shims:
                so = os.path.join(self.dir, name + ".so")
                subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "mc", name + ".c"), "-ldl"],
                               check=True)
                self.shims[name] = so
            return self.shims[name]


class Compiled:
    __slots__ = ("kind", "rc", "out", "binary", "dir")
    # kind: ok | rejected (exit 1 with located errors) | broken (crash, hang, or failure without a located error)


LOC = re.compile(r":\d+:\d+:")
ANSI = re.compile(r"\x1b\[[0-9;]*m")


def run_proc(cmd, timeout, env=None, cwd=None, stdin=None):
    """Returns (rc, stdout bytes, stderr bytes); rc None on timeout (the whole process group is killed)."""
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


def compile_src(tc, src, gcc="link", name="p", timeout=60, raw=None, extra=None):
    d = tc.workdir()
    path = os.path.join(d, name + ".clara")
    with open(path, "wb") as f:
        f.write(raw if raw is not None else src.encode("utf-8", "surrogateescape"))
    env = dict(tc.env, TMPDIR=d)
    if gcc != "link":
        env["MC_GCC"] = gcc
    if extra:
        env["MC_EXTRA"] = extra
    out = os.path.join(d, "out")
    os.mkdir(out)
    rc, o, e = run_proc([tc.clarac, "-install", REPO + "/install", "-prog", path, "-out", out], timeout, env, d)
    c = Compiled()
    c.dir = d
    c.rc = rc
    c.out = ANSI.sub("", (o + e).decode("utf-8", "replace"))
    c.binary = os.path.join(out, name)
    if rc == 0:
        c.kind = "ok" if (gcc != "link" or os.path.exists(c.binary)) else "broken"
    elif rc == 1 and "Link failure" not in c.out and "\ngoroutine " not in c.out:
        c.kind = "rejected"
    else:
        c.kind = "broken"
    return c


def done(c):
    shutil.rmtree(c.dir, ignore_errors=True)


RUN_ENV = {"A": "1"}


def run_bin(c, args=(), timeout=60, env=None):
    rc, o, e = run_proc([c.binary] + list(args), timeout, RUN_ENV if env is None else env, c.dir)
    return rc, o, e


class Case:
    """One point of the explored space. '@' in decls/body is replaced by a per-case number (unique names).
    mode run: body's printed lines must equal expect. mode panic: the same lines, then a panic and exit status 1.
    mode crash: expect lines then death by the given signal (division by zero)."""
    __slots__ = ("key", "decls", "body", "expect", "mode", "steps", "states", "msg", "cmp")

    def __init__(self, key, decls, body, expect, mode="run", steps=None, states=None, msg=None, cmp=None):
        # A trace of n observed events has n transitions between n + 1 model states unless the model says otherwise.
        self.key, self.decls, self.body, self.expect, self.mode = key, decls, body, expect, mode
        self.steps = max(1, len(expect)) if steps is None else steps
        self.states = self.steps + 1 if states is None else states
        self.msg = msg
        self.cmp = cmp  # optional: judges the printed lines instead of comparing them with expect; None or a reason

    def judge(self, lines):
        if lines is None:
            return "no output"
        if self.cmp is not None:
            return self.cmp(lines)
        return None if lines == list(self.expect) else "expected output %r" % (list(self.expect),)


PANIC = "// Panic: "


def inst(text, i):
    """'@' is the case's own name suffix, '@@' a literal '@'."""
    if "@@" in text:
        return text.replace("@@", "\ue000").replace("@", "x%d" % i).replace("\ue000", "@")
    return text.replace("@", "x%d" % i)


def render(cases, select=False):
    out = []
    for i, c in enumerate(cases):
        if c.decls:
            out.append(inst(c.decls, i))
        out.append("fn c%d() {\n%s\n}\n" % (i, inst(c.body, i)))
    out.append("fn main() {\n")
    if select:
        out.append("s := getRuntime().args[1]\nk := 0\nj := 0\nwhile j < s.length {\nk = (k * 10) + (s.byte(j) - 48)\nj = j + 1\n}\n")
        for i in range(len(cases)):
            out.append("if k == %d { c%d() }\n" % (i, i))
    else:
        for i in range(len(cases)):
            out.append("printf(\"#%d\\n\")\nc%d()\n" % (i, i))
    out.append("printf(\"#end\\n\")\n}\n")
    return "".join(out)


class Violation(Exception):
    pass


class Check:
    def __init__(self, pid, level, rule, assumptions=None):
        self.pid, self.level, self.rule = pid, level, rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.budget = float(os.environ.get("MC_BUDGET", "420" if self.tier == "quick" else "5400"))
        self.states = self.transitions = self.validated = self.evals = 0
        self.keys = set()
        self.samples = []
        self.violations = []
        self.known_hit = set()
        self.exhaustive = True
        self.parts = {}
        self.assumptions = assumptions or []
        self.lock = threading.Lock()
        self.stop = False
        try:
            with open(os.path.join(VERIF, "known_findings.json")) as f:
                self.known = {k["key"]: k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status", "open") == "open"}
        except FileNotFoundError:
            self.known = {}
        # Memory: nothing explored here needs more than this.
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        except (ValueError, OSError):
            pass
        self.tc = Toolchain()
        self.extra = None  # linked into every program under test
        self.run_env = None
        self.prelude = ""  # source placed once in front of every program
        self.pool = concurrent.futures.ThreadPoolExecutor(NPROC)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -------------------------------------------------------------- accounting
    def out_of_time(self):
        if time.time() - self.t0 > self.budget:
            self.exhaustive = False
            return True
        return False

    def note(self, part, n=1, **kw):
        with self.lock:
            self.parts[part] = self.parts.get(part, 0) + n

    def count(self, case_key, steps=1, states=2, sample=None):
        with self.lock:
            self.evals += 1
            self.validated += 1
            self.states += states
            self.transitions += steps
            self.keys.add(hashlib.blake2b(case_key.encode("utf-8", "surrogateescape"), digest_size=8).digest())
            n = self.evals
            if sample is not None and (len(self.samples) < 3 or (n in (50, 500, 5000, 50000) and len(self.samples) < 8)):
                self.samples.append(sample)

    # -------------------------------------------------------------- verdicts
    def violation(self, key, what, source="", ext="clara"):
        """Records one confirmed violation (or known finding)."""
        with self.lock:
            if key in self.known:
                if key not in self.known_hit:
                    self.known_hit.add(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key]["what"]), flush=True)
                return
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.%s" % (self.pid, len(self.violations), ext))
            with open(path, "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write("".join("// %s\n" % l for l in ("property %s\nkey %s\n%s" % (self.pid, key, what)).split("\n")))
                f.write(source)
            self.violations.append(key)
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            print("  key: %s\n  %s" % (key[:300], what[:2000]), flush=True)
            if len(self.violations) >= int(os.environ.get("MC_MAXV", "3")):
                self.stop = True

    # -------------------------------------------------------------- batched execution of predicted programs
    def run_cases(self, part, cases, batch=600):
        """cases: iterable of Case. Every one is executed on the real compiler and compared."""
        groups = {"run": [], "panic": [], "crash": [], "reject": [], "accept": [], "treject": []}
        futs = []

        def submit(mode, lst):
            futs.append(self.pool.submit(self._guard, self._batch, part, mode, lst, True))
            # bound the queue
            while len([f for f in futs if not f.done()]) > NPROC * 3:
                concurrent.futures.wait(futs, return_when=concurrent.futures.FIRST_COMPLETED)
                for f in [f for f in futs if f.done()]:
                    f.result()
                    futs.remove(f)

        for c in cases:
            if self.stop or self.out_of_time():
                break
            if c.key in self.known:
                submit(c.mode, [c])
                continue
            g = groups[c.mode]
            g.append(c)
            size = batch if c.mode == "run" else (16 if c.mode == "reject" else (100 if c.mode in ("accept", "treject") else 150))
            if len(g) >= size:
                groups[c.mode] = []
                submit(c.mode, g)
        for m, g in groups.items():
            if g and not self.stop:
                submit(m, g)
        for f in futs:
            f.result()

    def _guard(self, f, *a):
        if self.stop:
            return
        return f(*a)

    def _batch(self, part, mode, cases, first):
        if mode == "run":
            return self._batch_run(part, cases, first)
        if mode in ("panic", "crash"):
            return self._batch_each(part, cases, mode)
        if mode == "treject":
            # One program with all of them: an error located inside a case's own lines shows that it is rejected. Those
            # without such an error (the compiler stops after its first failing phase) are compiled on their own.
            src, spans = self.prelude, []
            for i, c in enumerate(cases):
                start = src.count("\n") + 1
                src += inst(c.decls, i) + "\nfn c%d() {\n%s\n}\n" % (i, inst(c.body, i))
                spans.append((start, src.count("\n")))
            comp = compile_src(self.tc, src + "fn main() {\n}\n", gcc="skip")
            k, out = comp.kind, comp.out
            done(comp)
            if k == "rejected" and "syntax error" not in out:
                hit = sorted(int(m.group(1)) for m in re.finditer(r"^ ?-? ?\S*/p\.clara:(\d+):\d+:", out, re.M))
                rest = []
                import bisect
                for c, (a, b) in zip(cases, spans):
                    j = bisect.bisect_left(hit, a)
                    if j < len(hit) and hit[j] <= b:
                        self._ok(part, c)
                    else:
                        rest.append(c)
                cases = rest
            mode = "reject"
        if mode == "reject":
            for c in cases:
                if self.stop or self.out_of_time():
                    return
                self._reject(part, c)
        else:
            return self._accept(part, cases)

    def _ok(self, part, c):
        if c.key in self.known:
            return
        self.note(part)
        self.count(part + "|" + c.key, c.steps, c.states,
                   {"part": part, "key": c.key, "decls": c.decls[:400], "body": c.body[:600], "expect": list(c.expect)[:12], "mode": c.mode})

    def _one(self, c):
        """Runs a single case alone; returns None if it conforms, else (what, source)."""
        src = self.prelude + render([c])
        comp = compile_src(self.tc, src, extra=self.extra)
        try:
            if comp.kind != "ok":
                return "compiler did not produce an executable (%s, exit %s): %s" % (comp.kind, comp.rc, comp.out[-1500:]), src
            rc, o, e = run_bin(comp, env=self.run_env)
        finally:
            done(comp)
        exp = ["#0"] + list(c.expect) + ["#end"]
        got = o.decode("utf-8", "surrogateescape").split("\n")
        if got and got[-1] == "":
            got.pop()
        why = c.judge(got[1:-1]) if got and got[0] == "#0" and got[-1] == "#end" else "expected output %r" % exp
        if rc != 0 or why is not None:
            return "%s\ngot exit %s and output %r %s" % (why, rc, got[:60], e.decode("utf-8", "replace")[-300:]), src
        return None

    def _batch_run(self, part, cases, first):
        if self.stop or self.out_of_time():
            return
        src = self.prelude + render(cases)
        comp = compile_src(self.tc, src, extra=self.extra)
        failed = None
        try:
            if comp.kind != "ok":
                failed = comp.out[-1500:]
            else:
                # a hanging program is narrowed down with shorter limits; the single case left gets the full one again
                rc, o, e = run_bin(comp, env=self.run_env, timeout=(60 if first else 15) if len(cases) > 1 else 60)
        finally:
            done(comp)
        if failed is None:
            segs = {}
            cur = None
            text = o.decode("utf-8", "surrogateescape").split("\n")
            if text and text[-1] == "":
                text.pop()
            for line in text:
                if line.startswith("#"):
                    cur = line[1:]
                    segs[cur] = []
                elif cur is not None:
                    segs[cur].append(line)
            bad = [i for i, c in enumerate(cases) if c.judge(segs.get(str(i))) is not None]
            if rc == 0 and "end" in segs and not bad and len(segs) == len(cases) + 1:
                for c in cases:
                    self._ok(part, c)
                return
            if rc == 0 and "end" in segs and len(bad) < len(cases):
                badset = set(bad)
                for i, c in enumerate(cases):
                    if i not in badset:
                        self._ok(part, c)
                cases = [cases[i] for i in bad]
                if len(cases) > 12:
                    cases = cases[:12]
                for c in cases:
                    if self.stop:
                        return
                    r = self._one(c)
                    if r is None:
                        self.violation(part + "|batch|" + c.key, "the case conforms alone but not inside this program:\n expected %r got %r" % (
                            list(c.expect), segs.get(str([i for i in bad][0]))), src)
                    else:
                        self.violation(c.key, r[0], r[1])
                return
        if len(cases) == 1:
            c = cases[0]
            r = self._one(c)
            if r is not None:
                self.violation(c.key, r[0], r[1])
            else:
                r = self._one(c)
                if r is not None:
                    self.violation(c.key, "not reproducible on every run: " + r[0], r[1])
                else:
                    self._ok(part, c)
            return
        h = len(cases) // 2
        before = len(self.violations)
        self._batch_run(part, cases[:h], False)
        if not self.stop:
            self._batch_run(part, cases[h:], False)
        if first and len(self.violations) == before and not any(c.key in self.known for c in cases):
            # fails only as a whole: is it stable?
            again = compile_src(self.tc, src, extra=self.extra)
            try:
                why = again.out[-1500:] if again.kind != "ok" else None
                if why is None:
                    rc, o, e = run_bin(again, env=self.run_env)
                    if rc == 0 and o.decode("utf-8", "surrogateescape").endswith("#end\n"):
                        return
                    why = "exit %s, output tail %r" % (rc, o[-300:])
            finally:
                done(again)
            self.violation(part + "|batch|" + cases[0].key, "every case conforms alone but the program made of all of them fails: " + why, src)

    def _batch_each(self, part, cases, mode):
        if self.stop or self.out_of_time():
            return
        src = self.prelude + render(cases, select=True)
        comp = compile_src(self.tc, src, extra=self.extra)
        try:
            if comp.kind != "ok":
                why = "compiler did not produce an executable (%s, exit %s): %s" % (comp.kind, comp.rc, comp.out[-1500:])
                if len(cases) == 1:
                    self.violation(cases[0].key, why, src)
                    return
            else:
                why = None
                for i, c in enumerate(cases):
                    if self.stop or self.out_of_time():
                        return
                    r = self._panic_run(comp, i, c, mode)
                    if r is not None:
                        r = self._panic_run(comp, i, c, mode) or r
                        self.violation(c.key, r, self.prelude + render([c], select=True))
                    else:
                        self._ok(part, c)
        finally:
            done(comp)
        if why is not None:
            h = len(cases) // 2
            self._batch_each(part, cases[:h], mode)
            self._batch_each(part, cases[h:], mode)

    def _panic_run(self, comp, i, c, mode):
        rc, o, e = run_bin(comp, [str(i)], env=self.run_env)
        text = o.decode("utf-8", "surrogateescape")
        if mode == "crash":
            return None if rc == -signal.SIGFPE else "expected SIGFPE, got exit %s output %r" % (rc, text[-300:])
        head = "".join(l + "\n" for l in c.expect)
        rest = text[len(head):]
        if rc != 1 or not text.startswith(head) or not rest.startswith("\n// -") or PANIC not in rest or "#end" in rest or (c.msg and c.msg not in rest):
            return "expected output %r then a panic%s and exit status 1; got exit %s and output %r" % (
                head, " containing %r" % c.msg if c.msg else "", rc, text[-600:])
        return None

    def _reject(self, part, c):
        """The program consisting of decls + fn main body must be rejected with a located error."""
        src = self.prelude + whole(c)
        comp = compile_src(self.tc, src, gcc="skip")
        k, out, rc = comp.kind, comp.out, comp.rc
        done(comp)
        if k == "rejected" and LOC.search(out):
            self._ok(part, c)
        elif k == "ok":
            self.violation(c.key, "the compiler accepted a program it must reject", src)
        else:
            self.violation(c.key, "the compiler must report a located error, but: exit %s %s" % (rc, out[-1500:]), src)

    def _accept(self, part, cases):
        if self.stop or self.out_of_time():
            return
        src = self.prelude + "".join(inst(c.decls, i) + "\nfn c%d() {\n%s\n}\n" % (i, inst(c.body, i)) for i, c in enumerate(cases)) + "fn main() {\n}\n"
        comp = compile_src(self.tc, src, gcc="as")
        k, out, rc = comp.kind, comp.out, comp.rc
        done(comp)
        if k == "ok":
            for c in cases:
                self._ok(part, c)
        elif len(cases) == 1:
            self.violation(cases[0].key, "the compiler must accept this program, but: exit %s %s" % (rc, out[-1500:]), src)
        else:
            h = len(cases) // 2
            self._accept(part, cases[:h])
            self._accept(part, cases[h:])

    def drive(self, part, items, timeout=None):
        """items: (key, source, trace) where trace() yields (label, expected output line, model steps) for the whole run
        of a program that enumerates a space itself. A label of None is a line belonging to the previous label."""
        self.map(lambda it: self._drive(part, timeout or (600 if self.thorough else 150), *it), items)

    def _drive(self, part, timeout, key, src, trace, args=()):
        if self.stop or self.out_of_time():
            return
        comp = compile_src(self.tc, self.prelude + src, extra=self.extra)
        try:
            if comp.kind != "ok":
                self.violation(key, "compiler did not produce an executable (%s, exit %s): %s" % (comp.kind, comp.rc, comp.out[-1500:]), self.prelude + src)
                return
            rc, o, e = run_bin(comp, args, timeout=timeout, env=self.run_env)
        finally:
            done(comp)
        got = o.decode("utf-8", "surrogateescape").split("\n")
        if got and got[-1] == "":
            got.pop()
        label, n, i = key, 0, 0
        bad = None
        first = None
        steps = cases = 0
        for lab, line, st in trace():
            if lab is not None:
                label = lab
                cases += 1
                steps += st
            if i >= len(got) or got[i] != line:
                bad = "after %d conforming lines, at %s: expected line %r, got %r (exit %s)" % (i, label, line, got[i] if i < len(got) else "end of output", rc)
                break
            if first is None:
                first = {"part": part, "key": key, "case": label, "expect": line}
            i += 1
        if bad is None and (rc != 0 or i != len(got)):
            bad = "after all %d expected lines: exit %s, further output %r" % (i, rc, got[i:i + 5])
        if bad is not None:
            self.violation("%s|%s" % (key, label), bad, self.prelude + src)
            return
        with self.lock:
            self.evals += cases
            self.validated += cases
            self.transitions += steps
            self.states += steps + cases
            self.parts[part] = self.parts.get(part, 0) + cases
            if len(self.samples) < 8:
                self.samples.append(first)
            self.keys.add(hashlib.blake2b((part + "|" + key).encode("utf-8", "surrogateescape"), digest_size=8).digest())

    def map(self, f, items):
        """Runs f over items on the worker pool, stopping when time or violations end the run."""
        futs = []
        for it in items:
            if self.stop or self.out_of_time():
                break
            futs.append(self.pool.submit(self._guard, f, it))
            while len([x for x in futs if not x.done()]) > NPROC * 3:
                concurrent.futures.wait(futs, return_when=concurrent.futures.FIRST_COMPLETED)
                for x in [x for x in futs if x.done()]:
                    x.result()
                    futs.remove(x)
        for x in futs:
            x.result()

    # -------------------------------------------------------------- end
    def finish(self):
        cov = {"samples": self.samples[:8], "parts": self.parts, "exhaustive": bool(self.exhaustive and not self.stop)}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                       rule=self.rule)
        else:
            cov.update(evaluations=self.evals, distinct_nontrivial=len(self.keys), rule=self.rule)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        for k, v in self.known.items():
            if k not in self.known_hit:
                print("note: listed finding no longer observed: %s" % k)
        print("%s %s: %d cases, %d model states, %d transitions, exhaustive=%s, %d violations, %.1fs  %s" % (
            self.pid, self.tier, self.evals, self.states, self.transitions, cov["exhaustive"], len(self.violations),
            time.time() - self.t0, self.parts))
        self.pool.shutdown(wait=True)
        self.tc.cleanup()
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


def whole(c):
    return inst(c.decls, 0) + "\nfn main() {\n" + inst(c.body, 0) + "\n}\n"
