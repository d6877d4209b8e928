"""C24: file operations under every fault."""
import itertools, os, re, subprocess
from core import Check, VERIF, compile_src, done, run_proc

PROG = """fn big(s: bytes) int {
  r := 1
  q := 1
  for i in 0 .. s.length() {
    r = mod((r * 257) + (s.get(i) & 255) + 1, 1000000007)
    q = mod((q * 263) + (s.get(i) & 255) + 1, 998244353)
  }
  return (r << 31) ^ q
}
fn fail(e: error) {
  printf("err %lli %s|%s\\n", e.err, e.msg.orElse("(none)"), e.describe().IndexOf(e.err.describe()) == 0 ? "d" : "x")
}
fn pos(r: result«int, error») {
  match r {
    case Ok(p): printf("pos %lli\\n", p)
    case Err(e): fail(e)
  }
}
fn num(s: string) int {
  k := 0
  for j in 0 .. s.length {
    k = (k * 10) + (s.byte(j) - 48)
  }
  return k
}
fn step(f: file, op: string) {
  k := op.byte(0)
  n := op.length > 1 ? num(op.Substring(1, op.length)) : 0
  if k == 97 { // a: read all
    match f.readAll() {
      case Ok(s): printf("all %lli %lli\\n", s.length, big(s.asBytes()))
      case Err(e): fail(e)
    }
  }
  if k == 115 { pos(f.size()) } // s
  if k == 115 { pos(f.seek(0, 1)) }
  if k == 112 { pos(f.seek(n, 0)) } // p
  if k == 99 { pos(f.seek(n, 1)) } // c
  if k == 101 { pos(f.seek(n, 2)) } // e
  if k == 98 { pos(f.seek(-n, 1)) } // b
  if k == 114 { // r: read n bytes into a buffer of n + 2
    buf := Bytes(n + 2)
    match f.read(buf, n) {
      case Some(e): fail(e)
      case None(): printf("read %lli\\n", big(buf))
    }
  }
  if k == 82 { // R: more than fits
    match f.read(Bytes(n), n + 1) {
      case Some(e): printf("small %lli\\n", e.err)
      case None(): printf("read\\n")
    }
  }
}
fn main() {
  a := getRuntime().args
  match open(a[1]) {
    case Err(e): fail(e)
    case Ok(f):
      printf("open %s\\n", f.path)
      for i in 2 .. a.length {
        f.step(a[i])
      }
  }
  printf("end\\n")
}
"""

DESC = ["Operation not permitted", "No such file or directory", "No such process", "Interrupted system call", "I/O error", "No such device or address", "Argument list too long", "Exec format error", "Bad file descriptor", "No child processes", "Try again", "Out of memory", "Permission denied", "Bad address", "Block device required",
        "Device or resource busy", "File exists", "Cross-device link", "No such device", "Not a directory", "Is a directory", "Invalid argument", "File table overflow", "Too many open files", "Not a typewriter", "Text file busy", "File too large", "No space left on device", "Illegal seek", "Read-only file system", "Too many links", "Broken pipe", "Math argument out of domain of func", "Math result not representable"]


def big(b):
    r = q = 1
    for x in b:
        r = (r * 257 + x + 1) % 1000000007
        q = (q * 263 + x + 1) % 998244353
    v = ((r << 31) ^ q) & ((1 << 63) - 1)
    return v - (1 << 63) if v >> 62 else v


class Model:
    """Positions of a file of known content; position None after a failed operation."""

    def __init__(self, path, data, size=None):
        self.path, self.data, self.pos = path, data, 0
        self.size = len(data) if size is None else size

    def step(self, op):
        """acceptable output lines of one operation, each a string or None (anything of the right form)"""
        k, n = op[0], int(op[1:] or 0)
        if k == "a":
            self.pos = self.size
            yield "all %d %d" % (self.size, big(self.data))
        if k == "s":
            yield "pos %d" % self.size
            yield "pos %d" % self.pos if self.pos is not None else None
        if k == "p":
            self.pos = n
            yield "pos %d" % n
        if k == "e":
            self.pos = self.size + n
            yield "pos %d" % self.pos
        if k in "cb":
            if self.pos is None:
                yield None
                return
            t = self.pos + (n if k == "c" else -n)
            if t < 0:
                yield "err 22 %s|d" % self.path
                return
            self.pos = t
            yield "pos %d" % t
        if k == "r":
            if self.pos is None:
                yield None
                return
            b = self.data[self.pos:self.pos + n]
            self.pos += len(b)
            yield "read %d" % big(b + bytes(n + 2 - len(b)))
        if k == "R":
            yield "small -1"


def main():
    c = Check("C24", "fault_enumeration",
              "for every sequence of file operations up to the depth and every content of a set: no fault, then each single system call of the run failing with each errno of a set, then every call from that one on failing; outputs compared with a model of a file with a position. Also real faults (missing, not a directory, is a directory, name too long, link loop), every errno through describe, file sizes up to beyond 4 GB",
              ["read returns all bytes available up to the count for regular files", "the position after a failed operation is not specified"])
    subprocess.run(["gcc", "-O1", "-fno-pie", "-c", "-o", os.path.join(c.tc.dir, "fsshim.o"), os.path.join(VERIF, "mc", "fsshim.c")], check=True)
    comp = compile_src(c.tc, PROG, extra=os.path.join(c.tc.dir, "fsshim.o"))
    plain = compile_src(c.tc, PROG)
    for x in (comp, plain):
        if x.kind != "ok":
            c.violation("program", "the program using files does not compile: " + x.out[-800:], PROG)
            c.finish()
    d = os.path.join(c.tc.dir, "files")
    os.mkdir(d)
    contents = {"empty": b"", "one": b"x", "text": b"hello\nworld", "nul": b"a\0b\0", "binary": bytes(range(256)), "high": b"\xff\xfe\x80" * 5}
    for n, b in contents.items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(b)
    ids = itertools.count()

    def run(path, ops, fault=None, data=b"", size=None, part="no fault", binary=None, openerr=None):
        """fault: (k, errno, all)"""
        key = "%s %s%s" % (os.path.basename(path)[:60], " ".join(ops), " fault call %d errno %d%s" % (fault[0], fault[1], " and all later" if fault[2] else "") if fault else "")
        log = os.path.join(d, "log%d" % next(ids))
        why = None
        for attempt in (0, 1):
            if os.path.exists(log):
                os.unlink(log)
            env = {"A": "1"}
            if fault:
                env.update(MC_K=str(fault[0]), MC_E=str(fault[1]), MC_LOG=log)
                if fault[2]:
                    env["MC_ALL"] = "1"
            rc, o, e = run_proc([binary or comp.binary, path] + list(ops), 120, env, d)
            hits = 0
            if os.path.exists(log):
                with open(log) as f:
                    hits = len(f.read().split())
                os.unlink(log)
            out = o.decode("utf-8", "surrogateescape").split("\n")
            why = judge(path, ops, fault, data, size, rc, out, hits, openerr)
            if why is None:
                break
        if why is not None:
            c.violation(key, "%s\nprogram arguments %r %r, exit %s, output %r" % (why, path, ops, rc, out[:40]), PROG)
        else:
            c.note(part)
            c.count(key, len(ops) + 1, len(ops) + 2, {"file": os.path.basename(path)[:60], "operations": list(ops), "fault": fault, "output": out[:8]})
        return hits

    def judge(path, ops, fault, data, size, rc, out, hits, openerr):
        if rc != 0 or out[-2:] != ["end", ""]:
            return "the program did not end normally"
        out = out[:-2]
        m = Model(path, data, size)
        errline = "err %d %s|d" % (fault[1], path) if fault else None
        failed = 0
        if not out:
            return "no outcome of open"
        if openerr is not None:
            return None if out == ["err %d %s|d" % (openerr, path)] else "expected open to fail with errno %d" % openerr
        if hits and out[0] == errline:
            return None if len(out) == 1 else "continued after a failed open"
        if out[0] != "open " + path:
            return "expected open to succeed"
        i = 1
        for op in ops:
            for want in m.step(op):
                if i >= len(out):
                    return "output ends at operation %s" % op
                got = out[i]
                i += 1
                if op[0] != "R" and hits and got == errline and (failed == 0 or fault[2]):
                    failed += 1
                    m.pos = None
                    continue
                if op[0] != "R" and failed and fault[2] and got != errline:
                    return "operation %s succeeded although every call fails: %r" % (op, got)
                if want is None:
                    if not re.match(r"(pos \d+|read -?\d+|err 22 .*)$", got):
                        return "operation %s: unexpected %r" % (op, got)
                    continue
                if got != want:
                    return "operation %s: expected %r, got %r" % (op, want, got)
        if i != len(out):
            return "more output than operations"
        if hits and failed == 0:
            return "a call failed with errno %d but no operation reported it" % fault[1]
        if not hits and failed:
            return "an operation failed without a fault"
        return None

    # ---- no fault: every sequence of operations
    alpha = ["a", "s", "p2", "p0", "c1", "b1", "e0", "r3", "R4"]
    depth = 3 if not c.thorough else 4
    jobs = []
    for n, b in contents.items():
        for L in range(0, depth + 1 if n == "text" else 3):
            for ops in itertools.product(alpha, repeat=L):
                jobs.append((n, ops))
    c.map(lambda j: run(os.path.join(d, j[0]), j[1], data=contents[j[0]]), jobs)
    c.map(lambda j: run(os.path.join(d, j[0]), j[1], data=contents[j[0]], binary=plain.binary, part="without instrumentation"), [("text", o) for o in itertools.product(alpha, repeat=2)])

    # ---- each call failing
    def faults(n, ops, errs, alls):
        for e in errs:
            for al in alls:
                k = 1
                while k < 40 and not c.stop:
                    if run(os.path.join(d, n), ops, (k, e, al), data=contents[n], part="faults") == 0:
                        break
                    k += 1
    jobs = []
    for L in (0, 1, 2) + ((3,) if c.thorough else ()):
        for ops in itertools.product(["a", "s", "p2", "c1", "e0", "r3"], repeat=L):
            jobs.append(("text", ops, (5, 29) if L > 1 else tuple(range(1, 45)), (False, True)))
    for n in contents:
        for op in ("a", "s", "r3", "e0"):
            jobs.append((n, (op, "p0", "a"), (4, 5, 9, 11, 12, 14, 21, 22, 29, 34, 35, 75, 110, 133), (False, True)))
    jobs.append(("one", ("a",), tuple(range(1, 134)), (False,)))
    c.map(lambda j: faults(*j), jobs)

    # ---- sizes
    def sized(n):
        p = os.path.join(d, "size%d" % n)
        b = bytes((i * 31 + n) & 255 for i in range(n))
        with open(p, "wb") as f:
            f.write(b)
        run(p, ("a", "s", "p0", "r%d" % (n // 2), "s", "a"), data=b, part="sizes")
        os.unlink(p)
    c.map(sized, list(range(0, 130)) + [255, 256, 257, 1000, 4095, 4096, 4097, 8192, 65535, 65536, 65537] + ([300000] if c.thorough else []))
    for size in (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, (1 << 36):
        p = os.path.join(d, "sparse")
        try:
            with open(p, "wb") as f:
                f.truncate(size)
        except OSError:
            continue
        run(p, ("s", "p%d" % size, "s", "e0", "p3", "c%d" % (size - 4), "s", "r4"), data=b"", size=size, part="large offsets")
        os.unlink(p)

    # ---- real faults and odd names
    os.mkdir(os.path.join(d, "dir"))
    os.symlink("loop", os.path.join(d, "loop"))
    for p, e in ((os.path.join(d, "missing"), 2), ("", 2), (os.path.join(d, "text", "x"), 20), (os.path.join(d, "loop"), 40), (os.path.join(d, "n" * 300), 36), (os.path.join(d, "no/such/dir"), 2)):
        run(p, ("a", "s"), openerr=e, part="real faults")
        run(p, ("a", "s"), openerr=e, part="real faults", binary=plain.binary)
    for name in ("a b", "é", "%s", "x" * 200, "-", "q\"uote"):
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(name.encode())
        run(p, ("a", "s", "a"), data=name.encode(), part="names")
    rc, o, e = run_proc([plain.binary, os.path.join(d, "dir"), "r3"], 60, {}, d)
    want = "open %s/dir\nerr 21 %s/dir|d\nend\n" % (d, d)
    if (rc, o.decode()) != (0, want):
        c.violation("reading a directory", "expected %r, got exit %s %r" % (want, rc, o), PROG)
    else:
        c.count("reading a directory", 2, 3, {"file": "dir", "output": want.split("\n")})
    done(comp)
    done(plain)

    # ---- descriptions
    src = "fn main() {\nfor i in -3 .. 150 {\nprintln(i.describe())\nprintln(Error(None«string»(), i).describe())\nprintln(Error(Some(\"/p/q\"), i).describe())\n}\n}\n"

    def trace():
        for i in range(-3, 150):
            t = DESC[i - 1] if 1 <= i <= 34 else "Unknown error code: %d" % i
            yield "describe %d" % i, t, 3
            yield None, t, 0
            yield None, t + ":", 0
            yield None, " - /p/q", 0
    c.drive("descriptions", [("describe", src, trace)])
    c.finish()
