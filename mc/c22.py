"""C22: number formatting, remainder, hashing and time arithmetic."""
import itertools, os, subprocess
from core import Case, Check

MIN, MAX = -(1 << 62), (1 << 62) - 1


def wrap(x):
    x &= (1 << 63) - 1
    return x - (1 << 63) if x >> 62 else x


def lit(n):
    return str(n) if n >= 0 else ("(-%d - 1)" % (-n - 1) if n == MIN else "-%d" % -n)


def boundaries():
    s = {0, MIN, MAX}
    for k in range(63):
        for d in (-3, -2, -1, 0, 1, 2, 3):
            s |= {(1 << k) + d, -(1 << k) + d}
    for k in range(19):
        for m in range(1, 10):
            for d in (-1, 0, 1):
                s |= {m * 10 ** k + d, -m * 10 ** k + d}
    for k in range(1, 19):
        s |= {int("123456789012345678901"[:k]), -int("987654321098765432101"[:k]), int("1" * k), -int("9" * k)}
    for b in range(8):
        for v in (0x7F, 0x80, 0xFF, 0x55, 0xAA, 0x01):
            s |= {wrap(v << (8 * b)), wrap(~(v << (8 * b)))}
    return sorted(x for x in s if MIN <= x <= MAX)


def binary(v):
    out = ""
    for j in range(62, -1, -1):
        out += str(v >> j & 1)
        if j > 0 and j % 8 == 0:
            out += "·"
    return out


RANGE = """fn main() {
  for i in %(A)s .. %(B)s {
    println(i.toString())
    println(i)
    print(i)
    println("")
  }
}
"""


def rng(a, b):
    def trace():
        for v in range(a, b):
            yield "int %d" % v, str(v), 3
            yield None, str(v), 0
            yield None, str(v), 0
    return "range %d" % a, RANGE % {"A": lit(a), "B": lit(b)}, trace


SHOW = """fn show(i: int) {
  println(i.toString())
  println(i)
  print(i)
  print("|")
  print(i.toString())
  println("")
  printHex(i)
  printHexPadded(i)
  println(i.toBinary())
  println(i.toString().length)
}
fn main() {
%s}
"""


def shows(vals):
    src = SHOW % "".join("show(%s)\n" % lit(v) for v in vals)

    def trace():
        for v in vals:
            u = v & ((1 << 64) - 1)
            yield "int %d" % v, str(v), 7
            yield None, str(v), 0
            yield None, "%d|%d" % (v, v), 0
            yield None, "0x%x" % u, 0
            yield None, "0x%016x" % u, 0
            yield None, binary(v), 0
            yield None, str(len(str(v))), 0
    return "show %d.." % vals[0], src, trace


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


MODS = """fn main() {
  a := [%(A)s]
  b := [%(B)s]
  for i in a {
    for j in b {
      println(mod(i, j))
    }
  }
}
"""


def mods(a, b):
    def trace():
        for i in a:
            for j in b:
                yield "mod %d %d" % (i, j), str(wrap(i - tdiv(i, j) * j)), 1
    return "mod %d %d" % (a[0], b[0]), MODS % {"A": ", ".join(map(lit, a)), "B": ", ".join(map(lit, b))}, trace


HASH = """fn main() {
  b := Bytes(2)
  for i in %(I0)d .. %(I1)d {
    for j in 0 .. 256 {
      b.set(0, i)
      b.set(1, j)
      println(b.toString().fnv1a())
    }
  }
}
"""
HASH2 = """fn main() {
  println("".fnv1a())
  for i in 0 .. 256 {
    b := Bytes(1)
    b.set(0, i)
    println(b.toString().fnv1a())
  }
  al := [0, 1, 97, 127, 128, 255]
  for n in 0 .. 1296 {
    b := Bytes(4)
    q := n
    for i in 0 .. 4 {
      b.set(i, al[mod(q, 6)])
      q = q / 6
    }
    println(b.toString().fnv1a())
  }
  for n in 0 .. 300 {
    b := Bytes(n)
    for i in 0 .. n {
      b.set(i, (i * 37) + n)
    }
    println(b.toString().fnv1a())
  }
}
"""


def fnv(b):
    h = 0x811c9dc5
    for x in b:
        h = ((h ^ x) * 0x01000193) & 0xffffffff
    return h


def hashes(i0, i1):
    return "hash %d" % i0, HASH % {"I0": i0, "I1": i1}, lambda: (("fnv1a %r" % bytes([i, j]), str(fnv(bytes([i, j]))), 1) for i in range(i0, i1) for j in range(256))


def hash2():
    def trace():
        yield "fnv1a empty", str(fnv(b"")), 1
        for i in range(256):
            yield "fnv1a %d" % i, str(fnv(bytes([i]))), 1
        al = [0, 1, 97, 127, 128, 255]
        for n in range(1296):
            b = bytes(al[n // 6 ** i % 6] for i in range(4))
            yield "fnv1a %r" % b, str(fnv(b)), 1
        for n in range(300):
            yield "fnv1a length %d" % n, str(fnv(bytes((i * 37 + n) & 255 for i in range(n)))), 1
    return "hash longer", HASH2, trace


TIMES = """fn main() {
  s := [%(S)s]
  u := [%(U)s]
  for i in s {
    for j in u {
      t := Time(i, j)
      println(t.toMicros())
      println(t.toMillis())
      println(t.toSecs())
      println(t.sec)
      println(t.usec)
    }
  }
}
"""


def times(s, u):
    def trace():
        for i in s:
            for j in u:
                m = i * 1000000 + j
                yield "time %d %d" % (i, j), str(m), 3
                yield None, str(tdiv(m, 1000)), 0
                yield None, str(tdiv(m, 1000000)), 0
                yield None, str(i), 0
                yield None, str(j), 0
    return "time %d" % s[0], TIMES % {"S": ", ".join(map(lit, s)), "U": ", ".join(map(lit, u))}, trace


NOW = """fn main() {
  for i in 0 .. %(N)d {
    t := Now()
    println(t.sec)
    println(t.usec)
    println(t.toMicros())
    println(t.toMillis())
    println(t.toSecs())
  }
}
"""
CLOCK = """#include <sys/time.h>
static long long v[][2] = {%s};
static int n;
int gettimeofday(struct timeval *t, void *z) { t->tv_sec = v[n][0]; t->tv_usec = v[n][1]; n++; return 0; }
"""


def bools():
    yield Case("bools", "", "println(true)\nprintln(false)\nprintln(true.toString())\nprintln(false.toString())\nprintln((1 == 1).toString().append((1 == 2).toString()))\nprintln(true.toString().length)\nprintln(false.toString().length)", ["true", "false", "true", "false", "truefalse", "4", "5"])
    for n in range(0, 40):
        t = "".join(chr(33 + (i * 11 + n) % 90) for i in range(n)).replace("\"", "q").replace("\\", "b").replace("%", "%").replace("@", "a").replace("#", "h")
        yield Case("print string %d" % n, "", "print(\"%s\")\nprintln(\"%s\")\nprint(\"%s\")\nprint(1)\nprintln(-1)" % (t, t, t), [t + t, t + "1-1"])


def main():
    c = Check("C22", "model_checking",
              "model: exact integer arithmetic. Explored: every integer of a range around zero and every boundary value (powers of 2 and 10, byte patterns, extremes) through every formatting function; mod for all pairs of a small range and of all boundary values; fnv1a of every string of at most 2 bytes and of longer strings over boundary bytes and all lengths; time conversions for all pairs of boundary values and a controlled clock",
              ["printHex of negative numbers shows the 64-bit two's complement, as now"])
    R = 100000 if not c.thorough else 2000000
    step = R // (8 if not c.thorough else 80)
    c.drive("ranges", [rng(a, a + step) for a in range(-R, R, step)])
    bs = boundaries()
    c.drive("boundaries", [shows(bs[i:i + 400]) for i in range(0, len(bs), 400)] + [shows(list(range(-300, 301)))])
    small = list(range(-60, 61)) if not c.thorough else list(range(-130, 131))
    nz = [x for x in small if x]
    ext = [MIN, MIN + 1, MIN + 2, -(1 << 53), -(1 << 32), -4294967295, -(1 << 31), -1000000007, -1000, -10, -2, -1, 0, 1, 2, 3, 8, 10, 16, 1000, 2147483647, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 53) + 1, MAX - 1, MAX]
    some = bs[::3] if not c.thorough else bs
    c.drive("mod", [mods(small, nz), mods(ext, [x for x in ext if x]), mods(small, [x for x in ext if x]), mods(ext, nz)] + [mods(some[i:i + 200], [x for x in ext if x]) for i in range(0, len(some), 200)])
    c.drive("fnv1a", [hashes(i, i + 32) for i in range(0, 256, 32)] + [hash2()])
    us = [0, 1, 499, 500, 999, 1000, 1001, 499999, 500000, 999000, 999999, -1, -999999, 1000000, 5000001]
    ss = [0, 1, 2, 59, 60, 1000, 999999, 1000000, 86400, 1700000000, 2147483647, 2147483648, 4294967295, 4294967296, 4611686018420, -1, -2, -1000, -2147483648, -4611686018420]
    c.drive("time", [times(ss, us)])
    # The clock the program reads is replaced by a list of instants
    inst = [(s, u) for s in ss for u in us if s >= 0 and 0 <= u < 1000000]
    cf = os.path.join(c.tc.dir, "clock.c")
    with open(cf, "w") as f:
        f.write(CLOCK % ", ".join("{%dLL, %dLL}" % x for x in inst))
    subprocess.run(["gcc", "-O1", "-fno-pie", "-c", "-o", os.path.join(c.tc.dir, "clock.o"), cf], check=True)

    def now():
        for s, u in inst:
            m = s * 1000000 + u
            yield "clock %d.%06d" % (s, u), str(s), 4
            for v in (u, m, m // 1000, m // 1000000):
                yield None, str(v), 0
    c.extra = os.path.join(c.tc.dir, "clock.o")
    c.drive("clock", [("clock", NOW % {"N": len(inst)}, now)])
    c.extra = None
    c.run_cases("strings and bools", bools())
    c.finish()
