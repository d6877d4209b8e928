"""C20: list, option, result, either and pair operators against sequences, optionals and sums."""
import itertools
from core import Check

# An element is made from and reduced to a digit 1..3, so that every list is a number in base 4 after a leading 1.
ELS = {
    "int": ("int", "fn el(i: int) int = i\nfn un(e: int) int = e\n"),
    "string": ("string", "fn el(i: int) string = \"e\".append(i.toString())\nfn un(e: string) int = e.byte(1) - 48\n"),
    "struct": ("st", "struct st { a: string v: int }\nfn el(i: int) st = St(\"q\", i)\nfn un(e: st) int = e.v\n"),
    "function": ("fn() int", "fn el(i: int) fn() int = fn() int = i\nfn un(e: fn() int) int = e()\n"),
    "option": ("option«int»", "fn el(i: int) option«int» = i == 3 ? None«int»() : Some(i)\nfn un(e: option«int») int {\nmatch e {\ncase Some(v): return v\ncase None(): return 3\n}\n}\n"),
    "list": ("list«int»", "fn el(i: int) list«int» = toList(array(i - 1, 5))\nfn un(e: list«int») int {\nmatch e {\ncase Element(v, r): return un(r) + 1\ncase Empty(): return 1\n}\n}\n"),
    "array": ("[]int", "fn el(i: int) []int = array(i, 0)\nfn un(e: []int) int = e.length\n"),
    "bool": ("bool", "fn el(i: int) bool = i == 1\nfn un(e: bool) int = e ? 1 : 2\n"),
}

COMMON = """%(EL)s
fn show(l: list«%(T)s») int {
  n := 1
  loop := true
  while loop {
    match l {
      case Element(v, r):
        n = (n * 4) + un(v)
        l = r
      case Empty(): loop = false
    }
  }
  return n
}
fn opt(o: option«%(T)s») int {
  match o {
    case Some(v): return un(v)
    case None(): return 0
  }
}
fn num(n: int) int = n
fn bit(m: int, i: int) bool = not ((m & (1 << i)) == 0)
fn pow(n: int) int = n == 1 ? 1 : %(B)d * pow(n - 1)
fn fun(f: int, x: int) int = mod(f / pow(x), %(B)d) + 1
"""

LISTS = COMMON + """fn mk(n: int, len: int) []%(T)s {
  a := array(len, el(1))
  for i in 0 .. len {
    a[i] = el(mod(n, %(B)d) + 1)
    n = n / %(B)d
  }
  return a
}
// Digits in x after the leading 1, up to and including the first one in the mask
fn upto(x: int, m: int) int {
  s := 1
  d := 0
  while s <= x {
    s = s * 4
    d = d + 1
  }
  r := 1
  s = s / 16
  go := true
  while s > 0 and go {
    v := mod(x / s, 4)
    r = (r * 4) + v
    go = not bit(m, v)
    s = s / 4
  }
  return r
}
fn each(n: int, len: int) {
  a := mk(n, len)
  l := toList(a)
  println(show(l))
  for x in 1 .. %(B1)d {
    println(show(l.append(el(x))))
  }
  println(show(l.reverse()))
  for m in 0 .. %(M)d {
    c := array(2, 1)
    r := l.find(fn(e: %(T)s) bool {
      c[0] = (c[0] * 4) + un(e)
      return bit(m, un(e))
    })
    println(opt(r))
    println(c[0])
    p := l.remove(fn(e: %(T)s) bool {
      c[1] = (c[1] * 4) + un(e)
      return bit(m, un(e))
    })
    println(show(p.first))
    println(opt(p.second))
    println(upto(c[1], m))
  }
  c := array(4, 1)
  l.foreach(fn(e: %(T)s) {
    c[0] = (c[0] * 4) + un(e)
  })
  println(c[0])
  for f in 0 .. %(F)d {
    k := array(2, 1)
    q := l.map(fn(e: %(T)s) %(T)s {
      k[0] = (k[0] * 4) + un(e)
      return el(fun(f, un(e)))
    })
    println(show(q))
    println(k[0])
    s := l.map(fn(e: %(T)s) string = fun(f, un(e)).toString())
    n := array(1, 1)
    s.foreach(fn(z: string) {
      n[0] = (n[0] * 4) + z.byte(0) - 48
    })
    println(n[0])
  }
  for x in 1 .. %(B1)d {
    k := array(2, 1)
    r := l.reduce(el(x), fn(p: %(T)s, e: %(T)s) %(T)s {
      k[0] = (k[0] * 16) + (un(p) * 4) + un(e)
      return el(mod((un(p) * 2) + un(e), %(B)d) + 1)
    })
    println(un(r))
    println(k[0])
  }
  println(show(l))
  a = mk(n, len)
  println(show(toList(a)))
}
fn main() {
  for n in 0 .. %(N)d {
    each(n, %(L)d)
  }
}
"""


def num(digits):
    n = 1
    for d in digits:
        n = n * 4 + d
    return n


def lists(name, L):
    T, el = ELS[name]
    B = 2 if name == "bool" else 3
    src = LISTS % {"T": T, "EL": el, "B": B, "B1": B + 1, "M": 1 << (B + 1), "F": B ** B, "N": B ** L, "L": L}

    def trace():
        for n in range(B ** L):
            l = [(n // B ** i) % B + 1 for i in range(L)]
            lab = "%s list %s " % (name, l)
            yield lab + "toList", str(num(l)), 1
            for x in range(1, B + 1):
                yield lab + "append %d" % x, str(num([x] + l)), 1
            yield lab + "reverse", str(num(l[::-1])), 1
            for m in range(1 << (B + 1)):
                hit = [i for i, v in enumerate(l) if m >> v & 1]
                pre = l[:hit[0] + 1] if hit else l
                yield lab + "find mask %d" % m, str(l[hit[0]] if hit else 0), 1
                yield None, str(num(pre)), 0
                yield lab + "remove mask %d" % m, str(num(l[:hit[0]] + l[hit[0] + 1:] if hit else l)), 1
                yield None, str(l[hit[0]] if hit else 0), 0
                yield None, str(num(pre)), 0
            yield lab + "foreach", str(num(l)), 1
            for f in range(B ** B):
                g = [f // B ** (v - 1) % B + 1 for v in l]
                yield lab + "map %d" % f, str(num(g)), 1
                yield None, str(num(l)), 0
                yield None, str(num(g)), 0
            for x in range(1, B + 1):
                acc, k = x, 1
                for v in l:
                    k = k * 16 + acc * 4 + v
                    acc = (acc * 2 + v) % B + 1
                yield lab + "reduce from %d" % x, str(acc), 1
                yield None, str(k), 0
            yield lab + "unchanged", str(num(l)), 1
            yield None, str(num(l)), 0
    return "lists %s %d" % (name, L), src, trace


# --------------------------------------------------------------------------------- sequences of list operations
SEQ = COMMON + """fn apply(l: list«%(T)s», op: int) list«%(T)s» {
  if op < 2 { return l.append(el(op + 1)) }
  if op == 2 { return l.reverse() }
  if op < 6 { return l.remove(fn(e: %(T)s) bool = un(e) == op - 2).first }
  if op == 6 { return l.map(fn(e: %(T)s) %(T)s = el(mod(un(e), 3) + 1)) }
  m := array(2, l)
  m[1] = Empty«%(T)s»()
  l.foreach(fn(e: %(T)s) {
    m[1] = m[1].append(e)
  })
  return m[1]
}
fn main() {
  for s in 0 .. %(N)d {
    ls := array(%(D1)d, %(START)s)
    q := s
    for i in 0 .. %(D)d {
      ls[i + 1] = apply(ls[i], mod(q, 8))
      q = q / 8
    }
    for l in ls {
      println(show(l))
    }
  }
}
"""


def seqs(name, start, D):
    T, el = ELS[name]
    src = SEQ % {"T": T, "EL": el, "B": 3, "N": 8 ** D, "D": D, "D1": D + 1, "START": "toList([%s])" % ", ".join("el(%d)" % d for d in start) if start else "Empty«%s»()" % T}

    def ap(l, op):
        if op < 2:
            return [op + 1] + l
        if op == 2 or op == 7:
            return l[::-1]
        if op < 6:
            return [v for i, v in enumerate(l) if i != (l.index(op - 2) if op - 2 in l else -1)]
        return [v % 3 + 1 for v in l]

    def trace():
        for s in range(8 ** D):
            l, q = list(start), s
            yield "%s start %s ops %s" % (name, start, [(s // 8 ** i) % 8 for i in range(D)]), str(num(l)), D
            for i in range(D):
                l = ap(l, q % 8)
                q //= 8
                yield None, str(num(l)), 0
    return "sequences %s %s %d" % (name, start, D), src, trace


# --------------------------------------------------------------------------------- option and result
OPTS = COMMON + """fn mk(i: int) option«%(T)s» = i == 0 ? None«%(T)s»() : Some(el(i))
fn num(o: option«string») int {
  match o {
    case Some(v): return v.byte(0) - 48
    case None(): return 0
  }
}
fn main() {
  for i in 0 .. %(B1)d {
    println(mk(i).isSome())
    println(mk(i).isNone())
    for x in 1 .. %(B1)d {
      println(un(mk(i).orElse(el(x))))
    }
    for m in 0 .. %(M)d {
      c := array(1, 1)
      o := mk(i)
      r := o.filter(fn(e: %(T)s) bool {
        c[0] = (c[0] * 4) + un(e)
        return bit(m, un(e))
      })
      println(opt(r))
      println(c[0])
      println(opt(o))
    }
    for f in 0 .. %(F)d {
      c := array(1, 1)
      o := mk(i)
      r := o.map(fn(e: %(T)s) %(T)s {
        c[0] = (c[0] * 4) + un(e)
        return el(fun(f, un(e)))
      })
      println(opt(r))
      println(c[0])
      println(num(o.map(fn(e: %(T)s) string = fun(f, un(e)).toString())))
      println(opt(o))
      println(opt(mk(i).map(fn(e: %(T)s) int = fun(f, un(e))).filter(fn(n: int) bool = not (n == 2)).map(fn(n: int) %(T)s = el(n))))
    }
    c := array(1, 1)
    r := mk(i).peek(fn(e: %(T)s) {
      c[0] = (c[0] * 4) + un(e)
    })
    println(opt(r))
    println(c[0])
  }
}
"""


def opts(name):
    T, el = ELS[name]
    B = 2 if name == "bool" else 3
    src = OPTS % {"T": T, "EL": el, "B": B, "B1": B + 1, "M": 1 << (B + 1), "F": B ** B}

    def trace():
        for i in range(B + 1):
            lab = "%s option %s " % (name, i or None)
            call = str(num([i] if i else []))
            yield lab + "isSome", "true" if i else "false", 1
            yield lab + "isNone", "false" if i else "true", 1
            for x in range(1, B + 1):
                yield lab + "orElse %d" % x, str(i or x), 1
            for m in range(1 << (B + 1)):
                yield lab + "filter mask %d" % m, str(i if i and m >> i & 1 else 0), 1
                yield None, call, 0
                yield None, str(i), 0
            for f in range(B ** B):
                g = f // B ** (i - 1) % B + 1 if i else 0
                yield lab + "map %d" % f, str(g), 1
                yield None, call, 0
                yield None, str(g), 0
                yield None, str(i), 0
                yield lab + "map filter map %d" % f, str(0 if g == 2 else g), 3
            yield lab + "peek", str(i), 1
            yield None, call, 0
    return "option " + name, src, trace


RES = COMMON + """%(EL2)s
// 1..3 are Ok, 4..6 are Err
fn mk(i: int) result«%(T)s, %(E)s» = i > 3 ? Err«%(T)s, %(E)s»(el2(i - 3)) : Ok«%(T)s, %(E)s»(el(i))
fn res(r: result«%(T)s, %(E)s») int {
  match r {
    case Ok(v): return un(v)
    case Err(e): return un2(e) + 3
  }
}
fn res2(r: result«%(E)s, %(E)s») int {
  match r {
    case Ok(v): return un2(v)
    case Err(e): return un2(e) + 3
  }
}
fn res3(r: result«[]int, %(E)s») int {
  match r {
    case Ok(v): return v.length
    case Err(e): return un2(e) + 3
  }
}
fn digit(f: int, x: int, b: int) int = x == 1 ? mod(f, b) : digit(f / b, x - 1, b)
fn main() {
  for i in 1 .. 7 {
    for f in 0 .. 27 {
      c := array(1, 1)
      r := mk(i)
      println(res(r.map(fn(e: %(T)s) %(T)s {
        c[0] = (c[0] * 4) + un(e)
        return el(fun(f, un(e)))
      })))
      println(c[0])
      println(res2(r.map(fn(e: %(T)s) %(E)s = el2(fun(f, un(e))))))
      println(res3(r.map(fn(e: %(T)s) []int = array(fun(f, un(e)), 0)).map(fn(a: []int) []int = array(a.length + 1, 7))))
      println(res(r))
    }
    for f in 0 .. 216 {
      c := array(1, 1)
      r := mk(i)
      println(res(r.then(fn(e: %(T)s) result«%(T)s, %(E)s» {
        c[0] = (c[0] * 4) + un(e)
        return mk(digit(f, un(e), 6) + 1)
      })))
      println(c[0])
      println(res3(r.then(fn(e: %(T)s) result«%(T)s, %(E)s» = mk(digit(f, un(e), 6) + 1)).map(fn(e: %(T)s) []int = array(un(e), 1))))
      println(res(r))
    }
    for f in 0 .. 64 {
      c := array(1, 1)
      r := mk(i)
      println(res(r.peek(fn(e: %(T)s) option«%(E)s» {
        c[0] = (c[0] * 4) + un(e)
        d := digit(f, un(e), 4)
        return d == 0 ? None«%(E)s»() : Some(el2(d))
      })))
      println(c[0])
      println(res(r))
    }
  }
}
"""


def results(a, b):
    T, el = ELS[a]
    E, el2 = ELS[b]
    el2 = el2.replace("fn el(", "fn el2(").replace("fn un(", "fn un2(").replace("un(r)", "un2(r)")
    if a == b == "struct" or (a == b):
        el2 = "\n".join(l for l in el2.split("\n") if not l.startswith("struct"))
    src = RES % {"T": T, "EL": el, "E": E, "EL2": el2, "B": 3}

    def trace():
        for i in range(1, 7):
            lab = "result«%s, %s» %s(%d) " % (a, b, "Err" if i > 3 else "Ok", i - 3 if i > 3 else i)
            ok = i <= 3
            call = str(num([i] if ok else []))
            for f in range(27):
                g = f // 3 ** (i - 1) % 3 + 1 if ok else i
                yield lab + "map %d" % f, str(g), 1
                yield None, call, 0
                yield None, str(g), 0
                yield None, str(g + 1 if ok else i), 0
                yield None, str(i), 0
            for f in range(216):
                g = f // 6 ** (i - 1) % 6 + 1 if ok else i
                yield lab + "then %d" % f, str(g), 1
                yield None, call, 0
                yield None, str(g), 0
                yield None, str(i), 0
            for f in range(64):
                g = f // 4 ** (i - 1) % 4 if ok else 0
                yield lab + "peek %d" % f, str(g + 3 if g else i), 1
                yield None, call, 0
                yield None, str(i), 0
    return "result %s %s" % (a, b), src, trace


SUMS = """%(EL)s%(EL2)s
fn show(e: either«%(T)s, %(E)s») {
  match e {
    case Left(l): println(un(l))
    case Right(r): println(un2(r) + 10)
  }
}
fn main() {
  for i in 1 .. 4 {
    for j in 1 .. 4 {
      show(Left«%(T)s, %(E)s»(el(i)))
      show(Right«%(T)s, %(E)s»(el2(j)))
      p := Pair(el(i), el2(j))
      q := Pair(p.second, p.first)
      println((un(p.first) * 10) + un2(p.second))
      p.first = el(j)
      println((un(p.first) * 10) + un2(p.second))
      p.second = el2(i)
      println((un(p.first) * 10) + un2(p.second))
      println((un2(q.first) * 10) + un(q.second))
    }
  }
}
"""


def sums(a, b):
    T, el = ELS[a]
    E, el2 = ELS[b]
    el2 = el2.replace("fn el(", "fn el2(").replace("fn un(", "fn un2(").replace("un(r)", "un2(r)")
    if a == b:
        el2 = "\n".join(l for l in el2.split("\n") if not l.startswith("struct"))
    src = SUMS % {"T": T, "EL": el, "E": E, "EL2": el2}

    def trace():
        for i in range(1, 4):
            for j in range(1, 4):
                lab = "%s/%s %d %d " % (a, b, i, j)
                yield lab + "Left", str(i), 1
                yield lab + "Right", str(j + 10), 1
                yield lab + "Pair", str(i * 10 + j), 1
                yield lab + "first", str(j * 10 + j), 1
                yield lab + "second", str(j * 10 + i), 1
                yield lab + "other pair", str(j * 10 + i), 1
    return "sums %s %s" % (a, b), src, trace


# --------------------------------------------------------------------------------- long lists
LONG = """fn main() {
  a := array(%(N)d, 0)
  for i in 0 .. %(N)d {
    a[i] = (i * 7) - 3
  }
  l := toList(a)
  c := array(1, 0)
  l.foreach(fn(v: int) {
    println(v)
  })
  println(l.reduce(0, fn(x: int, y: int) int = mod((x * 3) + y, 100003)))
  println(l.reverse().reduce(0, fn(x: int, y: int) int = mod((x * 3) + y, 100003)))
  println(l.map(fn(x: int) int = x * x).reduce(0, fn(x: int, y: int) int = mod((x * 3) + y, 100003)))
  for i in 0 .. %(N)d {
    p := l.remove(fn(v: int) bool = v == (i * 7) - 3)
    println(p.second.orElse(-99))
    println(p.first.reduce(0, fn(x: int, y: int) int = mod((x * 3) + y, 100003)))
    println(l.find(fn(v: int) bool = v > i).orElse(-99))
  }
}
"""


def long(n):
    def trace():
        l = [i * 7 - 3 for i in range(n)]

        def red(x):
            acc = 0
            for v in x:
                t = acc * 3 + v
                acc = t - int(t / 100003) * 100003 if t < 0 else t % 100003
            return str(acc)
        for i, v in enumerate(l):
            yield "list of %d element %d" % (n, i), str(v), 1
        yield "list of %d reduce" % n, red(l), 1
        yield "list of %d reverse" % n, red(l[::-1]), 1
        yield "list of %d map" % n, red([v * v for v in l]), 1
        for i in range(n):
            yield "list of %d remove %d" % (n, i), str(l[i]), 1
            yield None, red(l[:i] + l[i + 1:]), 0
            yield None, str(next((v for v in l if v > i), -99)), 0
    return "long %d" % n, LONG % {"N": n}, trace


def main():
    c = Check("C20", "model_checking",
              "model: Python sequences, optionals and sums. Explored: every list up to the length over three elements x every operation x every predicate and every function of the elements, with the calls made recorded; every sequence of list operations up to the depth with all intermediate lists read again at the end; every option and result x every function of the small space; for element types int, string, struct, function, option, list, array, bool",
              ["whether remove keeps calling its predicate after the first match is not specified"])
    els = list(ELS)
    jobs = []
    for n in els:
        for L in range(0, (6 if n == "int" else 4) + (1 if c.thorough else 0)):
            jobs.append(lists(n, L))
    c.drive("lists", jobs[::-1])
    jobs = [seqs(n, s, 3 if not c.thorough else 4) for n in els if n != "bool" for s in ((), (1,), (1, 2), (1, 2, 1), (3, 1, 2, 3))]
    c.drive("operation sequences", jobs)
    c.drive("options", [opts(n) for n in els])
    pairs = [(a, b) for a in els for b in els if "bool" not in (a, b)]
    c.drive("results", [results(a, b) for a, b in pairs])
    c.drive("sums", [sums(a, b) for a, b in pairs])
    c.drive("long lists", [long(n) for n in ((20, 64) if not c.thorough else (20, 64, 150, 300))])
    c.finish()
