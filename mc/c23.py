"""C23: arguments, environment and exit status of compiled programs."""
import itertools, os, subprocess
from core import Check, VERIF, compile_src, done, run_proc, PANIC

PROG = """fn big(s: string) int {
  r := 1
  q := 1
  for i in 0 .. s.length {
    r = mod((r * 257) + (s.byte(i) & 255) + 1, 1000000007)
    q = mod((q * 263) + (s.byte(i) & 255) + 1, 998244353)
  }
  return (r << 31) ^ q
}
fn main() {
  a := getRuntime().args
  println(a.length)
  for s in a {
    printf("%lli %lli\\n", s.length, big(s))
  }
  e := getRuntime().env
  println(e.size)
  e.foreach(fn(k: string, v: string) {
    printf("%lli %lli %lli %lli\\n", k.length, big(k), v.length, big(v))
  })
  printf("%s|%s\\n", e.get("Q").orElse("none"), e.contains("ABSENT") ? "yes" : "no")
}
"""


def big(b):
    r = q = 1
    for x in b:
        r = (r * 257 + x + 1) % 1000000007
        q = (q * 263 + x + 1) % 998244353
    v = (r << 31) ^ q
    v &= (1 << 63) - 1
    return v - (1 << 63) if v >> 62 else v


def text(n, k=0):
    return bytes(97 + (i * 5 + k) % 25 for i in range(n)).replace(b"g", b"z")


def vectors(thorough):
    """(argv, env) vectors; env entries are (name, value)"""
    base = [b"", b"a", b"-x", b"-", b"--", b"a b", "é".encode(), b"\xff\x80", b"=", b"--foo=bar", b"x\ny", text(15), text(16), text(17), text(32), text(33), b"%s%n", b"-1", b"--x"]
    E = [(b"Q", b"1")]
    for n in range(0, 3):
        for v in itertools.product(base, repeat=n):
            yield [b"prog"] + list(v), E
    for v in itertools.product(base if thorough else [b"", b"a", b"-x", b"--", b"b c", b"-", text(16), b"--foo"], repeat=3):
        yield [b"prog"] + list(v), E
    for v in itertools.product([b"a", b"-x", b"--", b"--y"], repeat=4 if not thorough else 6):
        yield [b"p"] + list(v), []
    for n in list(range(0, 150)) + [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 20000]:
        yield [b"p", text(n), text(3)], []
        yield [text(n), text(n, 3)], []
        yield [b"p"], [(b"Q", text(n))]
        yield [b"p"], [(b"N" + text(n), b"v"), (b"Q", b"w")]
    for x in range(1, 256):
        yield [b"p", bytes([97, x, 98]), bytes([x])], [(b"Q", bytes([x, 97]))]
        if x != 61:
            yield [b"p"], [(bytes([x]) + b"N", b"v"), (b"A" + bytes([x]), bytes([x]))]
    for n in range(0, 70 if not thorough else 260):
        yield [b"p"] + [text(i % 19, i) for i in range(n)], []
        yield [b"p"], [(b"V%d" % i, text(i % 23, i)) for i in range(n)]
        yield [b"p"] + [b"a%d" % i for i in range(n)], [(text(1 + i % 7, i) + b"%d" % i, b"%d" % i) for i in range(n)] + [(b"Q", b"q")]
    for n in (100, 126, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 4096) + ((5000, 20000, 32767, 32768, 32769, 65535, 65536, 65537) if thorough else ()):
        yield [b"p"] + [b"%d" % i for i in range(n)], []
        yield [b"p"] + [text(i % 19, i) for i in range(n)], [(b"Q", b"z")]
        if n <= 1025:
            yield [b"p"], [(b"V%d" % i, text(i % 23, i)) for i in range(n)]
            yield [b"p"] + [b"a%d" % i for i in range(n)], [(text(1 + i % 7, i) + b"%d" % i, b"%d" % i) for i in range(n)] + [(b"Q", b"q")]
    for a, b in itertools.product(list(range(1, 20)) + [31, 32, 33, 64, 65], list(range(0, 20)) + [31, 32, 33, 63, 64, 65]):
        yield [b"p"], [(text(a), text(b, 7)), (b"Q", text(b)), (text(a, 1) + b"_", b"")]
    vals = [b"", b"=", b"==", b"a=b", b"=a", b"a=", b"x" * 16 + b"=", b"-", b" ", b"\n", b"\xff"]
    for v in itertools.product(vals, repeat=2):
        yield [b"p"], [(b"Q", v[0]), (b"R", v[1])]
    for n in range(0, 6):
        for p in itertools.permutations([b"A", b"B", b"Q", b"LONGERNAME", b"E E"], n):
            yield [b"p", b"z"], [(k, b"v" + k) for k in p]


# ----------------------------------------------------------------------------------------------- exit paths
FLOWS = {
    "main returns": ("", "", 0),
    "main returns early": ("", "if 1 == 1 { return }\nprintln(9)", 0),
    "return in loop": ("", "for i in 0 .. 5 {\nif i == 2 { return }\n}\nprintln(9)", 0),
    "panic": ("", "panic(\"stop\")\nprintln(9)", None),
    "panic in call": ("fn f(i: int) {\nif i == 0 { panic(\"deep\") }\nf(i - 1)\nprintln(9)\n}\n", "f(20)", None),
    "panic in closure": ("", "f := fn(i: int) { panic(\"clo\") }\nf(1)\nprintln(9)", None),
    "panic in argument": ("fn f() int {\npanic(\"arg\")\nreturn 1\n}\nfn k(a: int, b: int) { println(9) }\n", "k(1, f())", None),
    "panic in condition": ("fn f() bool {\npanic(\"c\")\nreturn true\n}\n", "if f() { println(9) }\nwhile f() { println(9) }", None),
    "assert": ("", "assert(1 == 1, \"no\")\nassert(1 == 2, \"yes\")\nprintln(9)", None),
    "index": ("", "a := [1, 2]\ni := 2\nprintln(a[i])\nprintln(9)", None),
    "byte": ("", "println(\"abc\".byte(3))\nprintln(9)", None),
    "in foreach": ("", "toList([1, 2, 3]).foreach(fn(i: int) { assert(i < 3, \"three\") })\nprintln(9)", None),
    "in match": ("", "match Some(1) {\ncase Some(v): panic(\"m\")\ncase None(): println(8)\n}\nprintln(9)", None),
}


def flows():
    for n, (d, b, st) in FLOWS.items():
        yield n, d, b, st
    for s in list(range(0, 256)):
        yield "exit %d" % s, "", "exit(%d)\nprintln(9)" % s, s
    for s in (0, 1, 2, 7, 255):
        yield "exit %d in call" % s, "fn f(n: int) int {\nif n == 0 { exit(%d) }\nreturn f(n - 1)\n}\n" % s, "println(f(10))", s
        yield "exit %d in closure" % s, "", "s := %d\nf := fn() { exit(s) }\nf()\nprintln(9)" % s, s
        yield "exit %d in loop" % s, "", "for i in 0 .. 10 {\nif i == 5 { exit(%d) }\n}\nprintln(9)" % s, s
        yield "exit %d computed" % s, "", "s := [1, %d]\nexit(s[1])\nprintln(9)" % s, s


def main():
    c = Check("C23", "model_checking",
              "model: the vectors handed to execve and the status of each exit path. Explored: all argument vectors up to 3 (thorough: more) over a set of content classes, every length across buffer growth boundaries, every byte value, every count, environments likewise with all orders of small sets; every exit path x every exit status x amounts of output around stdio buffer sizes",
              ["environment entries without '=' and repeated names are not specified", "arguments that are options containing g switch on the runtime's own debug output"])
    ld = os.path.join(c.tc.dir, "launch")
    subprocess.run(["gcc", "-O1", "-o", ld, os.path.join(VERIF, "mc", "launch.c")], check=True)
    comp = compile_src(c.tc, PROG)
    if comp.kind != "ok":
        c.violation("program", "the program reading its arguments does not compile: " + comp.out[-800:], PROG)
        c.finish()
    spec_dir = os.path.join(c.tc.dir, "specs")
    os.mkdir(spec_dir)

    def one(item):
        i, (argv, env) = item
        spec = os.path.join(spec_dir, str(i))
        with open(spec, "wb") as f:
            f.write(b"%d %d\n" % (len(argv), len(env)) + b"".join(x + b"\0" for x in argv) + b"".join(k + b"=" + v + b"\0" for k, v in env))
        d = dict(env)
        want = [str(len(argv))] + ["%d %d" % (len(a), big(a)) for a in argv] + [str(len(d))] + sorted("%d %d %d %d" % (len(k), big(k), len(v), big(v)) for k, v in d.items())
        q = d.get(b"Q", b"none")
        for attempt in (0, 1):
            rc, o, e = run_proc([ld, spec, comp.binary], 120, {}, c.tc.dir)
            lines = o.split(b"\n")
            k = 2 + len(argv) + len(d)
            head = [l.decode("utf-8", "replace") for l in lines[:k]]
            head[2 + len(argv):] = sorted(head[2 + len(argv):])
            tail = b"\n".join(lines[k:])
            ok = rc == 0 and head == want and tail == q + b"|no\n" and e == b""
            if ok:
                break
        os.unlink(spec)
        key = "argv %r env %r" % ([a[:40] for a in argv[:9]], [(k[:40], v[:40]) for k, v in env[:9]])
        if not ok:
            c.violation(key, "the program saw something else: exit %s\nexpected %r then %r\ngot %r %r\nstderr %r" % (rc, want[:40], q[:80], head[:40], tail[:200], e[:300]), PROG)
        else:
            c.note("vectors")
            c.count(key, len(argv) + len(env), len(argv) + len(env) + 1, {"argv": [repr(a[:60]) for a in argv[:6]], "env": [repr(x)[:80] for x in env[:4]], "exit": rc})
    c.map(one, enumerate(v for v in vectors(c.thorough) if not any(a.startswith(b"-") and b"g" in a for a in v[0])))
    done(comp)

    # All exit paths of one program, selected by the first argument; the second one is the number of lines printed before.
    fl = list(flows())
    for base in range(0, len(fl), 60):
        part = fl[base:base + 60]
        src = "fn num(s: string) int {\nk := 0\nfor j in 0 .. s.length {\nk = (k * 10) + (s.byte(j) - 48)\n}\nreturn k\n}\n"
        ren = []
        for i, (n, d, b, st) in enumerate(part):
            f = lambda x: x.replace("fn f(", "fn f_%d(" % i).replace("fn k(", "fn k_%d(" % i) if d else x
            dd, bb = f(d), b
            if d:
                import re
                dd = re.sub(r"\b([fk])\(", lambda m: "%s_%d(" % (m.group(1), i), d)
                bb = re.sub(r"\b([fk])\(", lambda m: "%s_%d(" % (m.group(1), i), b)
            src += dd + "fn p%d() {\n%s\n}\n" % (i, bb)
        src += "fn main() {\na := getRuntime().args\nk := num(a[1])\nfor i in 0 .. num(a[2]) {\nprintf(\"%lli-line\\n\", i)\n}\nprintf(\"tail\")\n"
        src += "".join("if k == %d {\np%d()\nreturn\n}\n" % (i, i) for i in range(len(part))) + "println(9)\n}\n"
        comp = compile_src(c.tc, src)
        if comp.kind != "ok":
            c.violation("exit paths", "does not compile: " + comp.out[-800:], src)
            continue

        def go(item):
            i, n = item
            name, d, b, st = part[i]
            head = b"".join(b"%d-line\n" % k for k in range(n)) + b"tail"
            for attempt in (0, 1):
                rc, o, e = run_proc([comp.binary, str(i), str(n)], 120, {}, c.tc.dir)
                rest = o[len(head):]
                ok = o.startswith(head) and e == b"" and ((st is not None and rc == st and rest == b"") or (st is None and rc == 1 and rest.startswith(b"\n// -") and PANIC.encode() in rest and b"\n9" not in rest))
                if ok:
                    break
            if not ok:
                c.violation("%s after %d lines" % (name, n), "expected status %s and all output delivered; got %s, %d of %d bytes, rest %r, stderr %r" % (1 if st is None else st, rc, len(o), len(head), rest[:200], e[:200]), src)
            else:
                c.note("exit paths")
                c.count("%s|%d" % (name, n), n + 1, n + 2, {"path": name, "lines before": n, "status": rc})
        ns = (0, 1, 400, 900) if not c.thorough else (0, 1, 2, 100, 371, 372, 373, 400, 450, 500, 900, 5000)
        c.map(go, [(i, n) for i in range(len(part)) for n in (ns if not part[i][0].startswith("exit") or part[i][0] in ("exit 0", "exit 1", "exit 3") else (0, 500))])
        done(comp)
    c.finish()
