"""C21: strings, bytes and byte buffers against byte sequences."""
import itertools
from core import Case, Check

MIN, MAX = -(1 << 62), (1 << 62) - 1

# Byte sequences are observed as numbers: up to 7 bytes exactly (base 256 after a leading 1), longer ones as two residues.
PRE = """fn dig(s: string) int {
  r := 1
  for i in 0 .. s.length {
    r = (r << 8) | (s.byte(i) & 255)
  }
  return r
}
fn dig(s: bytes) int {
  r := 1
  for i in 0 .. s.length() {
    r = (r << 8) | (s.get(i) & 255)
  }
  return r
}
fn big(s: string) int {
  r := 1
  q := 1
  for i in 0 .. s.length {
    r = mod((r * 257) + (s.byte(i) & 255) + 1, 1000000007)
    q = mod((q * 263) + (s.byte(i) & 255) + 1, 998244353)
  }
  return (r << 31) ^ q
}
fn of(n: int, alpha: []int) bytes {
  len := 0
  p := 1
  while n >= p {
    n = n - p
    p = p * alpha.length
    len = len + 1
  }
  b := Bytes(len)
  for i in 0 .. len {
    b.set(i, alpha[mod(n, alpha.length)])
    n = n / alpha.length
  }
  return b
}
fn str(n: int, alpha: []int) string = of(n, alpha).toString()
fn lng(n: int, k: int) string {
  b := Bytes(n)
  for i in 0 .. n {
    b.set(i, ((i * 7) + k) & 255)
  }
  return b.toString()
}
"""


def dig(b):
    r = 1
    for x in b:
        r = r << 8 | x
    return r


def wrap(x):
    x &= (1 << 63) - 1
    return x - (1 << 63) if x >> 62 else x


def big(b):
    r = q = 1
    for x in b:
        r = (r * 257 + x + 1) % 1000000007
        q = (q * 263 + x + 1) % 998244353
    return wrap((r << 31) ^ q)


def of(n, alpha):
    ln, p = 0, 1
    while n >= p:
        n -= p
        p *= len(alpha)
        ln += 1
    out = []
    for _ in range(ln):
        out.append(alpha[n % len(alpha)])
        n //= len(alpha)
    return bytes(out)


def lng(n, k):
    return bytes((i * 7 + k) & 255 for i in range(n))


def total(a, ln):
    return sum(a ** i for i in range(ln + 1))


# ----------------------------------------------------------------------------- pairs of strings
PAIRS = """fn main() {
  al := [%(A)s]
  for i in %(I0)d .. %(I1)d {
    s := str(i, al)
    println(dig(s))
    for j in 0 .. %(J)d {
      t := str(j, al)
      println(big(s.append(t)))
      println(s.Equals(t))
      println(s.IndexOf(t))
      if t.length > 0 {
        for f in 0 .. s.length + 2 {
          println(s.IndexOf(t, f))
        }
      }
      println((dig(s) * 31) ^ dig(t))
    }
  }
}
"""


def pairs(alpha, la, lb, parts):
    n, m = total(len(alpha), la), total(len(alpha), lb)
    cut = [n * k // parts for k in range(parts + 1)]
    for i0, i1 in zip(cut, cut[1:]):
        def trace(i0=i0, i1=i1):
            for i in range(i0, i1):
                s = of(i, alpha)
                yield "string %r" % s, str(dig(s)), 1
                for j in range(m):
                    t = of(j, alpha)
                    yield "strings %r %r append" % (s, t), str(big(s + t)), 1
                    yield "strings %r %r Equals" % (s, t), "true" if s == t else "false", 1
                    yield "strings %r %r IndexOf" % (s, t), str(s.find(t)), 1
                    if t:
                        for f in range(len(s) + 2):
                            yield "strings %r %r IndexOf from %d" % (s, t, f), str(s.find(t, f)), 1
                    yield "strings %r %r unchanged" % (s, t), str(wrap((dig(s) * 31) ^ dig(t))), 1
        yield "pairs %s %d %d from %d" % (alpha, la, lb, i0), PAIRS % {"A": ", ".join(map(str, alpha)), "I0": i0, "I1": i1, "J": m}, trace


# ----------------------------------------------------------------------------- parts of a string
SUBS = """fn main() {
  al := [%(A)s]
  for i in 0 .. %(N)d {
    b := of(i, al)
    s := b.toString()
    println(s.length)
    println(b.length())
    buf := NewByteBuffer(%(C)d)
    buf.append(s)
    for x in 0 .. s.length {
      println(s.byte(x) & 255)
    }
    for x in 0 .. s.length + 1 {
      println(dig(b.toString(x)))
      for y in x .. s.length + 1 {
        println(dig(s.Substring(x, y)))
        println(dig(b.toString(x, y - x)))
        println(dig(buf.substring(x, y - x)))
      }
    }
    println(dig(s))
    println(dig(b))
    println(dig(buf.toString()))
    if s.length > 0 {
      b.set(0, 7)
      println(dig(s))
      println(dig(b))
    }
  }
}
"""


def subs(alpha, ln, cap):
    n = total(len(alpha), ln)

    def trace():
        for i in range(n):
            s = of(i, alpha)
            yield "string %r length" % s, str(len(s)), 1
            yield "bytes %r length" % s, str(len(s)), 1
            for x in range(len(s)):
                yield "string %r byte %d" % (s, x), str(s[x]), 1
            for x in range(len(s) + 1):
                yield "bytes %r first %d" % (s, x), str(dig(s[:x])), 1
                for y in range(x, len(s) + 1):
                    yield "string %r %d..%d" % (s, x, y), str(dig(s[x:y])), 3
                    yield None, str(dig(s[x:y])), 0
                    yield None, str(dig(s[x:y])), 0
            yield "string %r unchanged" % s, str(dig(s)), 3
            yield None, str(dig(s)), 0
            yield None, str(dig(s)), 0
            if s:
                yield "string %r is a copy" % s, str(dig(s)), 1
                yield None, str(dig(b"\7" + s[1:])), 0
    return "parts %s %d cap %d" % (alpha, ln, cap), SUBS % {"A": ", ".join(map(str, alpha)), "N": n, "C": cap}, trace


# ----------------------------------------------------------------------------- every byte
BYTES = """fn main() {
  for v in 0 .. 256 {
    b := Bytes(3)
    println(dig(b))
    b.set(1, v)
    println(b.get(1) & 255)
    println(dig(b))
    s := b.toString()
    println(s.byte(1) & 255)
    println(dig(s.append(s)))
    println(s.Equals(s.append("")))
    c := Bytes(1)
    c.set(0, v)
    println(s.IndexOf(c.toString()))
    buf := NewByteBuffer(0)
    buf.append(v)
    buf.append(s)
    println(dig(buf.toString()))
  }
  for n in 0 .. 40 {
    b := Bytes(n)
    println(b.length())
    z := 0
    for i in 0 .. n {
      z = z | b.get(i)
    }
    println(z)
    for i in 0 .. n {
      b.set(i, i + 1)
    }
    for i in 0 .. n {
      z = z + (b.get(i) == i + 1 ? 0 : 1)
    }
    println(z)
    a := stringArray(n, "d")
    for i in 0 .. n {
      println(a[i])
      println(setElement(a, i, "x".append(i.toString()))[i])
    }
    for i in 0 .. n {
      println(a[i])
    }
    g := intArray(n)
    println(g.length)
    for i in 0 .. n {
      g[i] = (i * i) - 5
    }
    for i in 0 .. n {
      println(setElement(g, i, g[i] + 1)[i])
    }
  }
}
"""


def every():
    def trace():
        for v in range(256):
            b = bytes([0, v, 0])
            yield "byte %d" % v, str(dig(bytes(3))), 8
            yield None, str(v), 0
            yield None, str(dig(b)), 0
            yield None, str(v), 0
            yield None, str(dig(b + b)), 0
            yield None, "true", 0
            yield None, str(b.find(bytes([v]))), 0
            yield None, str(dig(bytes([v]) + b)), 0
        for n in range(40):
            yield "arrays of %d" % n, str(n), 4 * n + 3
            yield None, "0", 0
            yield None, "0", 0
            for i in range(n):
                yield None, "d", 0
                yield None, "x%d" % i, 0
            for i in range(n):
                yield None, "x%d" % i, 0
            yield None, str(n), 0
            for i in range(n):
                yield None, str(i * i - 4), 0
    return "every byte", BYTES, trace


# ----------------------------------------------------------------------------- copies
COPY = """fn main() {
  for n in 0 .. %(N)d {
    for m in 0 .. %(N)d {
      for p in 0 .. n + 1 {
        for q in 0 .. m + 1 {
          a := lng(n, 3)
          b := Bytes(n)
          for i in 0 .. n {
            b.set(i, a.byte(i))
          }
          d := Bytes(m)
          for i in 0 .. m {
            d.set(i, 200 + i)
          }
          copyArray(b, p, d, q)
          println(dig(d))
          println(dig(b))
        }
        if p <= n and m <= p {
          // A copy towards the front of the same bytes
          b := Bytes(n)
          for i in 0 .. n {
            b.set(i, i + 65)
          }
          copyArray(b, p, b, m)
          println(dig(b))
        }
      }
    }
  }
}
"""


def copies(N):
    def trace():
        for n in range(N):
            for m in range(N):
                for p in range(n + 1):
                    a = lng(n, 3)
                    for q in range(m + 1):
                        d = bytes((200 + i) & 255 for i in range(m))
                        k = min(n - p, m - q)
                        d = d[:q] + a[p:p + k] + d[q + k:]
                        yield "copy %d[%d..] to %d[%d..]" % (n, p, m, q), str(dig(d)), 1
                        yield None, str(dig(a)), 0
                    if m <= p:
                        b = bytes(i + 65 for i in range(n))
                        k = n - p
                        yield "copy %d[%d..] to itself at %d" % (n, p, m), str(dig(b[:m] + b[p:p + k] + b[m + k:])), 1
    return "copies %d" % N, COPY % {"N": N}, trace


# ----------------------------------------------------------------------------- lengths
LENGTHS = """fn main() {
  for n in %(N0)d .. %(N1)d {
    for m in 0 .. %(M)d {
      s := lng(n, 1)
      t := lng(m, 101)
      u := s.append(t)
      println(u.length)
      println(big(u))
      println(u.IndexOf(t))
      println(big(u.Substring(n, n + m)))
      println(u.Substring(0, n).Equals(s))
      buf := NewByteBuffer(n)
      buf.append(s).append(t).append(s)
      println(size(buf))
      println(big(buf.toString()))
      println(big(buf.substring(n / 2, m)))
      c := NewByteBuffer(m)
      for i in 0 .. n {
        c.append(s.byte(i))
      }
      println(big(c.toString()))
      c.reset()
      c.append(t)
      println(big(c.toString()))
    }
  }
}
"""


def lengths(n0, n1, m1):
    def trace():
        for n in range(n0, n1):
            for m in range(m1):
                s, t = lng(n, 1), lng(m, 101)
                u = s + t
                yield "lengths %d %d" % (n, m), str(n + m), 12
                yield None, str(big(u)), 0
                yield None, str(u.find(t)), 0
                yield None, str(big(t)), 0
                yield None, "true", 0
                yield None, str(n + m + n), 0
                yield None, str(big(s + t + s)), 0
                yield None, str(big((s + t + s)[n // 2:n // 2 + m])), 0
                yield None, str(big(s)), 0
                yield None, str(big(t)), 0
    return "lengths %d %d" % (n0, m1), LENGTHS % {"N0": n0, "N1": n1, "M": m1}, trace


# ----------------------------------------------------------------------------- buffer histories
BUF = """fn main() {
  for q in 0 .. %(N)d {
    buf := NewByteBuffer(%(C)d)
    snap := stringArray(%(D)d, "")
    s := q
    for i in 0 .. %(D)d {
      op := mod(s, 7)
      s = s / 7
      snap[i] = buf.toString()
      if op == 0 { buf.append("") }
      if op == 1 { buf.append("x") }
      if op == 2 { buf.append(lng(3, 120 + i)) }
      if op == 3 { buf.append(i + 200) }
      if op == 4 { buf.reset() }
      if op == 5 { buf.append(buf.toString()) }
      if op == 6 { buf.append(lng(9, i)).append(0) }
    }
    println(size(buf))
    println(big(buf.toString()))
    for i in 0 .. %(D)d {
      println(big(snap[i]))
    }
    h := size(buf) / 2
    println(big(buf.substring(h, size(buf) - h)))
    println(big(buf.substring(0, h)))
    println(dig(buf.substring(size(buf), 0)))
  }
}
"""


def buffers(cap, D):
    def trace():
        for q in range(7 ** D):
            b, snaps, s = b"", [], q
            for i in range(D):
                op = s % 7
                s //= 7
                snaps.append(b)
                if op == 1:
                    b += b"x"
                elif op == 2:
                    b += lng(3, 120 + i)
                elif op == 3:
                    b += bytes([i + 200])
                elif op == 4:
                    b = b""
                elif op == 5:
                    b += b
                elif op == 6:
                    b += lng(9, i) + b"\0"
            yield "buffer of capacity %d, history number %d (base 7, least significant first)" % (cap, q), str(len(b)), D
            yield None, str(big(b)), 0
            for x in snaps:
                yield None, str(big(x)), 0
            h = len(b) // 2
            yield None, str(big(b[h:])), 0
            yield None, str(big(b[:h])), 0
            yield None, "1", 0
    return "buffer %d depth %d" % (cap, D), BUF % {"C": cap, "D": D, "N": 7 ** D}, trace


# ----------------------------------------------------------------------------- invalid ranges
def lit(n):
    return str(n) if n >= 0 else ("(-%d - 1)" % (-n - 1) if n == MIN else "-%d" % -n)


def panics(lens):
    ext = [MIN, MIN + 1, -5, -2, -1, 0, 1, 2, 3, 4, 5, 9, MAX - 1, MAX]
    for n in lens:
        s = "s := lng(%d, 65)\nb := Bytes(%d)\nbuf := NewByteBuffer(%d)\nbuf.append(s)\nbuf.append(7)\nbuf.append(8)\nprintln(s.length)\n" % (n, n, n + 5)
        for i in ext:
            if not 0 <= i < n:
                yield Case("byte %d of %d" % (i, n), "", s + "println(s.byte(%s))" % lit(i), [str(n)], mode="panic")
                yield Case("get %d of %d" % (i, n), "", s + "println(b.get(%s))" % lit(i), [str(n)], mode="panic")
                yield Case("set %d of %d" % (i, n), "", s + "b.set(%s, 1)\nprintln(1)" % lit(i), [str(n)], mode="panic")
            if not 0 <= i <= n:
                yield Case("toString %d of %d" % (i, n), "", s + "println(b.toString(%s).length)" % lit(i), [str(n)], mode="panic")
            for j in ext:
                if not 0 <= i <= j <= n:
                    yield Case("Substring %d %d of %d" % (i, j, n), "", s + "println(s.Substring(%s, %s).length)" % (lit(i), lit(j)), [str(n)], mode="panic")
                if not (0 <= i and 0 <= j and i + j <= n):
                    yield Case("toString %d %d of %d" % (i, j, n), "", s + "println(b.toString(%s, %s).length)" % (lit(i), lit(j)), [str(n)], mode="panic")
                if not (0 <= i and 0 <= j and i + j <= n + 2):
                    yield Case("substring %d %d of %d" % (i, j, n + 2), "", s + "println(buf.substring(%s, %s).length)" % (lit(i), lit(j)), [str(n)], mode="panic")
    for i in (-1, -5, MIN, MAX):
        yield Case("Bytes %d" % i, "", "println(Bytes(%s).length())" % lit(i), [], mode="panic")
        yield Case("NewByteBuffer %d" % i, "", "println(size(NewByteBuffer(%s)))" % lit(i), [], mode="panic")


# ----------------------------------------------------------------------------- what C code sees: the terminating NUL
def nul():
    for n in range(0, 34):
        t = "".join(chr(97 + (i * 7 + n) % 26) for i in range(n))
        h = n // 2
        d = ""
        b = "z := \"ZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZZ\"\ns := \"%s\"\nprintln(s)\nprintln(s.Substring(0, %d))\nprintln(s.Substring(%d, %d))\nprintln(s.Substring(0, %d).append(s.Substring(%d, %d)))\nprintln(s.append(z).Substring(0, %d))\nbuf := NewByteBuffer(%d)\nbuf.append(s)\nprintln(buf.toString())\nbuf.append(z)\nprintln(buf.substring(0, %d))\nbuf.reset()\nbuf.append(s)\nprintln(buf.toString())\n" % (t, h, h, n, h, h, n, n, n, n)
        yield Case("terminated %d" % n, d, b, [t, t[:h], t[h:], t, t, t, t, t])


def main():
    c = Check("C21", "model_checking",
              "model: Python byte sequences. Explored: every pair of strings up to the length over alphabets with NUL and bytes >= 0x80 (append, Equals, IndexOf with every start), every part of every string, every byte value, every copy between byte arrays up to the size, every history of byte buffer operations up to the depth for every small capacity with all earlier strings read again, all pairs of lengths, and every invalid range",
              ["IndexOf of an empty string from a position > 0 and copies to a later position of the same bytes are not specified", "byte values are compared modulo 256"])
    c.prelude = PRE
    jobs = list(pairs([97, 98, 0, 255], 3, 2, 6)) + list(pairs([97, 98], 7, 4 if not c.thorough else 7, 16)) + list(pairs([97, 98, 128], 3, 3, 4))
    if c.thorough:
        jobs += list(pairs([97, 98, 0], 5, 4, 24))
    c.drive("pairs", jobs)
    c.drive("parts", [subs([97, 0, 200], 5, k) for k in (0, 5, 40)] + ([subs([97, 98, 0, 255], 6, 1)] if c.thorough else []))
    c.drive("bytes", [every(), copies(7 if not c.thorough else 8)])
    c.drive("lengths", [lengths(n, n + 3, 36) for n in range(0, 36, 3)] if not c.thorough else [lengths(n, n + 4, 140) for n in range(0, 140, 4)])
    c.drive("buffers", [buffers(k, 4) for k in range(0, 18)] if not c.thorough else [buffers(k, 5) for k in range(0, 40)])
    c.run_cases("terminator", nul())
    c.run_cases("invalid ranges", panics((0, 1, 4) if not c.thorough else (0, 1, 2, 3, 4)))
    c.finish()
