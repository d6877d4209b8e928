"""C19: the hash map against a dictionary, for every operation history up to a depth."""
import itertools
from core import Check

MIN, MAX = -(1 << 62), (1 << 62) - 1


def lit(n):
    return str(n) if n >= 0 else ("(-%d - 1)" % (-n - 1) if n == MIN else "-%d" % -n)


# ------------------------------------------------------------------------------- short histories
# The program enumerates every sequence of the mutations put k / remove k (k < K) of length L for each hash table, and after
# each sequence (every prefix is a sequence too) observes everything. Values are the step numbers.
SHORT = """fn runSeq(t: []int, pre: int, len: int, seq: int) {
  m := NewHashMap«int, int»(fn(k: int) int = k < %(K)d ? t[k] : %(PH)s, fn(a: int, b: int) bool = %(EQ)s)
  for i in 0 .. pre {
    m.put(%(K)d + i, 1000 + i)
  }
  r := 1
  for i in 0 .. len {
    op := mod(seq, %(OPS)d)
    seq = seq / %(OPS)d
    if op < %(K)d {
      r = (r * 16) + m.put(op, i + 1).orElse(0)
    } else {
      r = (r * 16) + m.remove(op - %(K)d).orElse(0)
    }
  }
  println(r)
  o := 1
  for k in 0 .. %(K)d {
    o = (o * 16) + m.get(k).orElse(0)
    o = (o * 16) + (m.contains(k) ? 1 : 0)
    o = (o * 16) + m.orElse(k, 9)
  }
  println(o)
  cnt := array(%(K)d, 0)
  val := array(%(K)d, 0)
  rest := array(3, 0)
  m.foreach(fn(k: int, v: int) {
    if k < %(K)d {
      cnt[k] = cnt[k] + 1
      val[k] = v
    } else {
      rest[0] = rest[0] + 1
      rest[1] = rest[1] + (k * k)
      rest[2] = rest[2] + ((v - 1000 == k - %(K)d) ? 0 : 1)
    }
  })
  f := 1
  for k in 0 .. %(K)d {
    f = (f * 16) + cnt[k]
    f = (f * 16) + val[k]
  }
  println(f)
  println(m.size)
  println(rest[0])
  println(rest[1] + rest[2])
}
fn main() {
%(CALLS)s}
"""


def short(K, tables, pre, length, ph="k", eq="a == b"):
    ops = 2 * K
    calls = "".join("for s in 0 .. %d {\nrunSeq([%s], %d, %d, s)\n}\n" % (ops ** length, ", ".join(map(lit, t)), pre, length) for t in tables)
    src = SHORT % {"K": K, "PH": ph, "EQ": eq, "OPS": ops, "CALLS": calls}

    def trace():
        base_sq = sum((K + i) ** 2 for i in range(pre))
        for t in tables:
            for s in range(ops ** length):
                d = {}
                r = 1
                q = s
                names = []
                for i in range(length):
                    op = q % ops
                    q //= ops
                    if op < K:
                        r = r * 16 + d.get(op, 0)
                        d[op] = i + 1
                    else:
                        r = r * 16 + d.pop(op - K, 0)
                o = f = 1
                for k in range(K):
                    v = d.get(k, 0)
                    c = k in d
                    o = ((o * 16 + v) * 16 + c) * 16 + (v if c else 9)
                    f = (f * 16 + c) * 16 + v
                yield "hashes %s, %d other keys, mutation sequence number %d (base %d, least significant first: op < %d is put op, else remove op - %d)" % (t, pre, s, ops, K, K), str(r), length + 3 * K + 2
                yield None, str(o), 0
                yield None, str(f), 0
                yield None, str(len(d) + pre), 0
                yield None, str(pre), 0
                yield None, str(base_sq), 0
    return "short K%d pre%d len%d ph%s %s.." % (K, pre, length, ph, tables[0]), src, trace


# ------------------------------------------------------------------------------- long histories
LONG = """fn show(m: map«%(KT)s, int», n: int) {
  r := array(3, 0)
  m.foreach(fn(k: %(KT)s, v: int) {
    r[0] = r[0] + 1
    r[1] = r[1] + (v * v)
  })
  g := 0
  c := 0
  for i in 0 .. n {
    g = mod((g * 31) + m.get(key(i)).orElse(7), 1000000007)
    if m.contains(key(i)) {
      c = c + 1
    }
  }
  println(m.size)
  println(r[0])
  println(r[1])
  println(g)
  println(c)
}
%(KEY)s
fn main() {
  m := NewHashMap«%(KT)s, int»(%(HASH)s, %(EQ)s)
%(BODY)s}
"""


def long(name, kt, key, hsh, eq, n, order1, order2):
    """insert n keys in one order, remove them in another, observing everything along the way"""
    perm = {"up": "i", "down": "(%d - i) - 1" % n, "stride": "mod(i * 7, %d)" % n, "zig": "mod(i, 2) == 0 ? (i / 2) : ((%d - 1) - (i / 2))" % n}
    py = {"up": lambda i: i, "down": lambda i: n - i - 1, "stride": lambda i: i * 7 % n, "zig": lambda i: i // 2 if i % 2 == 0 else n - 1 - i // 2}
    body = """  for i in 0 .. %(n)d {
    println(m.put(key(%(p1)s), i + 1).orElse(0))
    if mod(i, %(every)d) == 0 or i > %(last)d { m.show(%(n)d) }
  }
  for i in 0 .. %(n)d {
    println(m.put(key(%(p1)s), i + 2).orElse(0))
  }
  m.show(%(n)d)
  for i in 0 .. %(n)d {
    println(m.remove(key(%(p2)s)).orElse(0))
    println(m.remove(key(%(p2)s)).orElse(0))
    if mod(i, %(every)d) == 0 or i > %(last)d { m.show(%(n)d) }
  }
  for i in 0 .. %(n)d {
    println(m.put(key(%(p2)s), i + 5).orElse(0))
    println(m.remove(key(%(p1)s)).orElse(0))
  }
  m.show(%(n)d)
""" % {"n": n, "p1": perm[order1], "p2": perm[order2], "every": 5, "last": n - 3}
    src = LONG % {"KT": kt, "KEY": key, "HASH": hsh, "EQ": eq, "BODY": body}

    def trace():
        d = {}
        t = name

        def show():
            yield None, str(len(d)), 0
            yield None, str(len(d)), 0
            yield None, str(sum(v * v for v in d.values())), 0
            g = 0
            for i in range(n):
                g = (g * 31 + d.get(i, 7)) % 1000000007
            yield None, str(g), 0
            yield None, str(len(d)), 0
        a, b = py[order1], py[order2]
        for i in range(n):
            yield "%s insert %d" % (t, i), str(d.get(a(i), 0)), 1
            d[a(i)] = i + 1
            if i % 5 == 0 or i > n - 3:
                yield from show()
        for i in range(n):
            yield "%s replace %d" % (t, i), str(d.get(a(i), 0)), 1
            d[a(i)] = i + 2
        yield from show()
        for i in range(n):
            yield "%s remove %d" % (t, i), str(d.pop(b(i), 0)), 1
            yield "%s remove %d again" % (t, i), "0", 1
            if i % 5 == 0 or i > n - 3:
                yield from show()
        for i in range(n):
            yield "%s reinsert %d" % (t, i), str(d.get(b(i), 0)), 1
            d[b(i)] = i + 5
            yield "%s reinsert/remove %d" % (t, i), str(d.pop(a(i), 0)), 1
        yield from show()
    return name, src, trace


INTKEY = "fn key(i: int) int = (i * 3) - 20"
HASHES = {"identity": "fn(k: int) int = k", "constant": "fn(k: int) int = 0", "negative": "fn(k: int) int = -5 - k", "minus one": "fn(k: int) int = -1", "times 16": "fn(k: int) int = k * 16", "times 32": "fn(k: int) int = k << 5", "high bits": "fn(k: int) int = k << 56", "min": "fn(k: int) int = (-4611686018427387903 - 1) + k",
          "max": "fn(k: int) int = 4611686018427387903 - k", "complement": "fn(k: int) int = ~k", "mod 3": "fn(k: int) int = mod(k, 3)", "square": "fn(k: int) int = k * k * 2654435761"}
STRKEY = "fn key(i: int) string = \"k\".append((i * 7).toString())"
PTKEY = "struct pt { x: int y: int }\nfn key(i: int) pt = Pt(i / 5, mod(i, 5))"


def longs(sizes, orders):
    for n in sizes:
        for o1, o2 in orders:
            if n % 7 == 0 and "stride" in (o1, o2):
                continue
            for h, f in HASHES.items():
                yield long("int %s %s %s %d" % (h, o1, o2, n), "int", INTKEY, f, "fn(a: int, b: int) bool = a == b", n, o1, o2)
            yield long("string fnv %s %s %d" % (o1, o2, n), "string", STRKEY, "fn(s: string) int = s.fnv1a()", "fn(a: string, b: string) bool = a.Equals(b)", n, o1, o2)
            yield long("string length %s %s %d" % (o1, o2, n), "string", STRKEY, "fn(s: string) int = s.length", "fn(a: string, b: string) bool = a.Equals(b)", n, o1, o2)
            yield long("struct %s %s %d" % (o1, o2, n), "pt", PTKEY, "fn(p: pt) int = (p.x * 31) + p.y", "fn(a: pt, b: pt) bool = a.x == b.x and a.y == b.y", n, o1, o2)


# ------------------------------------------------------------------------------- value kinds, two maps, equality coarser than identity
OTHER = """struct box { v: int }
fn main() {
  a := NewHashMap«int, string»(fn(k: int) int = k, fn(x: int, y: int) bool = x == y)
  b := NewHashMap«int, string»(fn(k: int) int = 1, fn(x: int, y: int) bool = x == y)
  for i in 0 .. 40 {
    a.put(i, "a".append(i.toString()))
    b.put(mod(i, 10), "b".append(i.toString()))
  }
  for i in 0 .. 42 {
    println(a.orElse(i, "-").append(b.orElse(i, "-")))
  }
  f := NewHashMap«string, fn(int) int»(fn(s: string) int = s.fnv1a(), fn(x: string, y: string) bool = x.Equals(y))
  for i in 0 .. 20 {
    f.put(i.toString(), fn(z: int) int = z + i)
  }
  for i in 0 .. 20 {
    g := f.orElse(i.toString(), fn(z: int) int = -1)
    println(g(100))
  }
  o := NewHashMap«int, option«box»»(fn(k: int) int = k, fn(x: int, y: int) bool = x == y)
  for i in 0 .. 20 {
    o.put(i, mod(i, 3) == 0 ? None«box»() : Some(Box(i)))
  }
  for i in 0 .. 22 {
    match o.get(i) {
      case Some(v): println(v.map(fn(w: box) int = w.v).orElse(-1))
      case None(): println(-2)
    }
  }
  // Keys 3 and 13 are the same key for this map.
  e := NewHashMap«int, int»(fn(k: int) int = mod(k, 10), fn(x: int, y: int) bool = mod(x, 10) == mod(y, 10))
  for i in 0 .. 35 {
    println(e.put(i, i).orElse(-1))
  }
  println(e.size)
  for i in 0 .. 12 {
    println(e.get(i + 50).orElse(-1))
  }
  for i in 0 .. 12 {
    println(e.remove(i + 20).orElse(-1))
  }
  println(e.size)
  // A map of maps
  mm := NewHashMap«int, map«int, int»»(fn(k: int) int = k, fn(x: int, y: int) bool = x == y)
  for i in 0 .. 16 {
    m := NewHashMap«int, int»(fn(k: int) int = k, fn(x: int, y: int) bool = x == y)
    for j in 0 .. i {
      m.put(j, i * j)
    }
    mm.put(i, m)
  }
  t := array(1, 0)
  mm.foreach(fn(k: int, m: map«int, int») {
    m.foreach(fn(l: int, v: int) {
      t[0] = t[0] + (v == (k * l) ? 1 : 1000000)
    })
  })
  println(t[0])
}
"""


def other():
    out = []
    for i in range(42):
        out.append(("a%d" % i if i < 40 else "-") + ("b%d" % (i + 30) if i < 10 else "-"))
    out += [str(100 + i) for i in range(20)]
    out += [str(-1 if i % 3 == 0 else i) if i < 20 else "-2" for i in range(22)]
    out += [str(i - 10 if i >= 10 else -1) for i in range(35)]
    out.append("10")
    last = {i % 10: i for i in range(35)}
    out += [str(last[i % 10]) for i in range(12)]
    out += [str(last.pop(i % 10, -1)) for i in range(12)]
    out.append("0")
    out.append(str(sum(range(16))))
    return "other", OTHER, lambda: (("line %d" % i, l, 1) for i, l in enumerate(out))


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def main():
    c = Check("C19", "model_checking",
              "model: a dictionary. Explored: every sequence of put/remove over 2 and 3 keys up to the depth, for every assignment of hash values from a set containing colliding, negative and extreme ones, starting from an empty map and from maps filled to just below each resize threshold, everything observed (get, contains, orElse, foreach, size) after every sequence; and grow/replace/shrink histories across the thresholds for 15 hash functions x key types x orders",
              ["hash functions are pure and equal keys hash equally", "the order in which foreach visits entries is not specified"])
    H = [0, 1, 16, -1, MIN, MAX]
    two = list(itertools.product(H, repeat=2))
    three = list(itertools.product([0, 1, 16, -1], repeat=3))
    jobs = []
    for ln in range(1, 5 if not c.thorough else 6):
        jobs += [short(2, ch, 0, ln) for ch in chunks(two, 9)]
    for ln in range(1, 4 if not c.thorough else 5):
        jobs += [short(3, ch, 0, ln) for ch in chunks(three, 8)]
    jobs += [short(2, [t], 0, 6 if not c.thorough else 8) for t in ((0, 0), (1, 17), (-1, MIN))]
    jobs += [short(3, [t], 0, 5 if not c.thorough else 6) for t in ((0, 0, 0), (0, 16, 1), (-1, 15, MAX))]
    # around the thresholds: 12 entries in 16 buckets, 24 in 32, 48 in 64, 96 in 128
    for pre in (10, 11, 12, 13) + ((22, 23, 24, 25) if not c.thorough else (21, 22, 23, 24, 25, 45, 46, 47, 48, 94, 95, 96)):
        for ph in ("k", "0", "-k", "k << 4"):
            for t in ((0, 0), (1, 17), (-1, MIN)) if not c.thorough else ((0, 0), (1, 17), (-1, MIN), (MAX, 3), (16, 32), (4, 20)):
                jobs.append(short(2, [t], pre, 3 if not c.thorough else 4, ph=ph))
    c.drive("short histories", jobs)
    jobs = list(longs((13, 26, 50) if not c.thorough else (12, 13, 14, 25, 27, 50, 97, 100, 194), [("up", "up"), ("up", "down"), ("down", "stride"), ("zig", "zig")] if not c.thorough else list(itertools.product(("up", "down", "stride", "zig"), repeat=2))))
    c.drive("long histories", jobs)
    c.drive("other", [other()])
    c.finish()
