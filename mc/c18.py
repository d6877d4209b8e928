"""C18: generic code behaves as its instantiation."""
import itertools, re
import places
import tygram
from core import Case, Check

PRE = """struct bx«T» { t: T }
struct two«A, B» { a: A b: B }
struct nd«T» { v: T n: option«nd«T»» }
struct tr«T» { v: T k: []option«tr«T»» }
struct late«T» { i: inner«T, int» o: inner«[]T, T» }
struct inner«A, B» { x: option«A» y: []B }
enum ge«T» { Ga(t: T) Gb() }
enum g2«A, B» { Gl(a: A, n: int) Gr(b: B) }
struct pt { p: int q: string }
struct pq { p: int q: string }
fn idn«T»(t: T) T = t
fn stm«T»(t: T) T {
  u := t
  return u
}
fn wrap«T»(t: T) bx«T» = Bx(t)
fn unwrap«T»(b: bx«T») T = b.t
fn swap«A, B»(p: two«A, B») two«B, A» = Two(p.b, p.a)
fn pick«T»(c: bool, a: T, b: T) T = c ? a : b
fn app«A, B»(f: fn(A) B, a: A) B = f(a)
fn comp«A, B, C»(f: fn(A) B, g: fn(B) C) fn(A) C = fn(a: A) C = g(f(a))
fn delay«T»(t: T) fn() T = fn() T = t
fn cell«T»(t: T) two«fn() T, fn(T)» {
  b := Bx(t)
  return Two(fn() T = b.t, fn(n: T) { b.t = n })
}
fn first«T»(a: []T) T = a[0]
fn fill«T»(t: T, n: int) []T {
  a := array(n, t)
  a[n - 1] = t
  return a
}
fn opt«T»(t: T) option«T» = Some(t)
fn get«T»(g: ge«T», d: T) T {
  match g {
    case Ga(x): return x
    case Gb(): return d
  }
}
fn nst«T»(t: T) option«bx«[]T»» = Some(Bx([t, t]))
fn unn«T»(o: option«bx«[]T»», d: T) T {
  match o {
    case Some(b): return b.t[1]
    case None(): return d
  }
}
fn rec«T»(t: T, n: int) T = n == 0 ? t : rec(t, n - 1)
fn mut«A, B»(a: A, b: B, n: int) A = n == 0 ? a : tum(b, a, n - 1)
fn tum«A, B»(a: A, b: B, n: int) B = n == 0 ? b : mut(b, a, n - 1)
fn push«T»(n: option«nd«T»», v: T) option«nd«T»» = Some(Nd(v, n))
fn nth«T»(n: option«nd«T»», i: int, d: T) T {
  match n {
    case Some(x): return i == 0 ? x.v : nth(x.n, i - 1, d)
    case None(): return d
  }
}
fn six«A, B, C»(a: A, b: B, c: C, d: A, e: B, f: C) two«two«A, B», two«C, A»» = Two(Two(d, b), Two(f, a))
fn loop«T»(a: []T, f: fn(T)) {
  for x in a {
    f(x)
  }
}
fn lef«A, B»(a: A, n: int) g2«A, B» = Gl«A, B»(a, n)
fn rig«A, B»(b: B) g2«A, B» = Gr«A, B»(b)
fn call0«T»(f: fn() T) T = f()
fn tree«T»(v: T) tr«T» = Tr(v, array«tr«T»»(2))
"""
N = [0]


def fresh():
    N[0] += 1
    return "u%d" % N[0]


# ---- types: ("int",) ("arr", t) ("opt", t) ("bx", t) ("two", a, b) ("ge", t) ("fn", a, b) ("fn0", t)
def ty(t):
    k = t[0]
    if k in ("int", "bool", "string", "pt", "pq"):
        return k
    return {"arr": lambda: "[]" + ty(t[1]), "opt": lambda: "option«%s»" % ty(t[1]), "bx": lambda: "bx«%s»" % ty(t[1]), "two": lambda: "two«%s, %s»" % (ty(t[1]), ty(t[2])), "ge": lambda: "ge«%s»" % ty(t[1]),
            "fn": lambda: "fn(%s) %s" % (ty(t[1]), ty(t[2])), "fn0": lambda: "fn() %s" % ty(t[1]), "pair": lambda: "pair«%s, %s»" % (ty(t[1]), ty(t[2])), "list": lambda: "list«%s»" % ty(t[1])}[k]()


def val(t, k):
    n = t[0]
    if n == "int":
        return str(k * 11 - 20)
    if n == "bool":
        return "true" if k % 2 else "false"
    if n == "string":
        return "\"s%d\"" % k
    if n == "pt":
        return "Pt(%d, \"p%d\")" % (k, k)
    if n == "pq":
        return "Pq(%d, \"p%d\")" % (k, k)
    if n == "arr":
        return "[%s, %s]" % (val(t[1], k), val(t[1], k + 1))
    if n == "opt":
        return "Some(%s)" % val(t[1], k)
    if n == "bx":
        return "Bx(%s)" % val(t[1], k)
    if n == "two":
        return "Two(%s, %s)" % (val(t[1], k), val(t[2], k + 1))
    if n == "pair":
        return "Pair(%s, %s)" % (val(t[1], k), val(t[2], k + 1))
    if n == "ge":
        return "Ga(%s)" % val(t[1], k)
    if n == "list":
        return "toList([%s, %s])" % (val(t[1], k), val(t[1], k + 1))
    if n == "fn":
        return "fn(z: %s) %s = %s" % (ty(t[1]), ty(t[2]), val(t[2], k))
    if n == "fn0":
        return "fn() %s = %s" % (ty(t[1]), val(t[1], k))


def probe(t, e, k):
    """statements printing a value of type t and what they print for val(t, k)"""
    n = t[0]
    if n in ("int", "bool", "string"):
        v = val(t, k)
        return "println(%s)\n" % e, [v.strip('"')]
    if n == "pt":
        return "println(%s.q)\n" % e, ["p%d" % k]
    if n == "arr":
        return probe(t[1], e + "[1]", k + 1)
    if n == "bx":
        return probe(t[1], e + ".t", k)
    if n in ("two", "pair"):
        f = ("a", "b") if n == "two" else ("first", "second")
        u = fresh()
        a = probe(t[1], u + "." + f[0], k)
        b = probe(t[2], u + "." + f[1], k + 1)
        return "%s := %s\n" % (u, e) + a[0] + b[0], a[1] + b[1]
    if n in ("opt", "ge"):
        x = fresh()
        s, o = probe(t[1], x, k)
        c, d = ("Some", "None") if n == "opt" else ("Ga", "Gb")
        return "match %s {\ncase %s(%s):\n%scase %s(): println(\"none\")\n}\n" % (e, c, x, s, d), o
    if n == "list":
        x = fresh()
        s, o = probe(t[1], x, k)
        return "match %s {\ncase Element(%s, %sr):\n%scase Empty(): println(\"empty\")\n}\n" % (e, x, x, s), o
    if n == "fn":
        u = fresh()
        s, o = probe(t[2], "%s(%s)" % (u, val(t[1], k + 2)), k)
        return "%s := %s\n" % (u, e) + s, o
    if n == "fn0":
        u = fresh()
        s, o = probe(t[1], "%s()" % u, k)
        return "%s := %s\n" % (u, e) + s, o


BASE = [("int",), ("bool",), ("string",), ("pt",)]


def layer(prev, base):
    out = []
    for t in prev:
        out += [("arr", t), ("opt", t), ("bx", t), ("ge", t), ("fn0", t), ("list", t)]
        for b in base:
            out += [("two", t, b), ("two", b, t), ("fn", b, t), ("fn", t, b), ("pair", t, b)]
    return list(dict.fromkeys(out))


T1 = layer(BASE, BASE[:3:2])
T2 = layer([t for t in T1 if t[0] != "pair"], BASE[:1])


def uses(t, two=None):
    """(name, expression of type t or printed differently, setup) for every generic declaration"""
    T = ty(t)
    v, w = val(t, 3), val(t, 6)
    other, O, ov = (("string",), "string", "\"oo\"") if two is None else (two, ty(two), val(two, 4))
    p3 = lambda e: probe(t, e, 3)
    p6 = lambda e: probe(t, e, 6)
    yield "idn", "", p3("idn(%s)" % v)
    yield "idn explicit", "", p3("idn«%s»(%s)" % (T, v))
    yield "stm", "", p3("stm(%s)" % v)
    yield "dot", "x := %s\n" % v, p3("x.idn()")
    yield "nested", "", p3("idn(idn(stm(%s)))" % v)
    yield "wrap", "", p3("unwrap(wrap(%s))" % v)
    yield "struct", "b := Bx(%s)\n" % v, p3("b.t")
    yield "struct explicit", "b := Bx«%s»(%s)\n" % (T, v), p3("b.t")
    yield "struct write", "b := Bx(%s)\nb.t = %s\n" % (v, w), p6("b.t")
    yield "swap", "s := swap(Two(%s, %s))\n" % (v, ov), p3("s.b")
    yield "swap 2", "s := swap(Two(%s, %s))\n" % (ov, v), p3("s.a")
    yield "pick true", "", p3("pick(true, %s, %s)" % (v, w))
    yield "pick false", "", p6("pick(false, %s, %s)" % (v, w))
    yield "app to", "", p3("app(fn(o: %s) %s = %s, %s)" % (O, T, v, ov))
    yield "app from", "", (lambda p: (p[0], p[1]))(probe(other, "app(fn(o: %s) %s = %s, %s)" % (T, O, ov, v), 4) if two else ("println(app(fn(o: %s) %s = %s, %s))\n" % (T, O, ov, v), ["oo"]))
    yield "app explicit", "", p3("app«%s, %s»(fn(o: %s) %s = o, %s)" % (T, T, T, T, v))
    yield "comp", "h := comp(fn(o: int) %s = %s, fn(o: %s) %s = o)\n" % (T, v, T, T), p3("h(1)")
    yield "comp idn", "h := comp(fn(o: %s) bx«%s» = Bx(o), fn(o: bx«%s») %s = o.t)\n" % (T, T, T, T), p3("h(%s)" % v)
    yield "delay", "h := delay(%s)\n" % v, p3("h()")
    yield "cell", "c := cell(%s)\nr := c.a\ns := c.b\ns(%s)\n" % (v, w), p6("r()")
    yield "first", "", p3("first([%s, %s])" % (v, w))
    yield "fill", "f := fill(%s, 3)\nprintln(f.length)\n" % v, (lambda p: (p[0], ["3"] + p[1]))(p3("f[2]"))
    yield "array default", "f := array(2, %s)\nf[0] = %s\n" % (v, w), (lambda a, b: (a[0] + b[0], a[1] + b[1]))(p6("f[0]"), p3("f[1]"))
    yield "opt", "", p3("opt(%s).orElse(%s)" % (v, w))
    yield "none", "", p6("None«%s»().orElse(%s)" % (T, w))
    yield "opt map", "", p3("opt(%s).map(fn(o: %s) %s = o).orElse(%s)" % (v, T, T, w))
    yield "enum", "", p3("get(Ga(%s), %s)" % (v, w))
    yield "enum explicit", "", p3("get(Ga«%s»(%s), %s)" % (T, v, w))
    yield "enum other", "", p6("get(Gb«%s»(), %s)" % (T, w))
    yield "enum two l", "m := lef«%s, %s»(%s, 4)\n" % (T, O, v), (lambda p: ("match m {\ncase Gl(l, n):\n%sprintln(n)\ncase Gr(r): println(\"r\")\n}\n" % p[0], p[1] + ["4"]))(p3("l"))
    yield "enum two r", "m := rig«%s, %s»(%s)\n" % (O, T, v), (lambda p: ("match m {\ncase Gl(l, n): println(n)\ncase Gr(r):\n%s}\n" % p[0], p[1]))(p3("r"))
    yield "nst", "", p3("unn(nst(%s), %s)" % (v, w))
    yield "unn none", "", p6("unn(None«bx«[]%s»»(), %s)" % (T, w))
    yield "rec", "", p3("rec(%s, 5)" % v)
    yield "mut", "", p3("mut(%s, %s, 4)" % (v, ov))
    yield "mut explicit", "", p3("mut«%s, %s»(%s, %s, 3)" % (T, O, v, ov))
    yield "list", "l := push(push(None«nd«%s»»(), %s), %s)\n" % (T, v, w), (lambda a, b: (a[0] + b[0], a[1] + b[1]))(p3("nth(l, 1, %s)" % w), p6("nth(l, 0, %s)" % v))
    yield "six", "s := six(%s, %s, 8, %s, %s, 9)\nprintln(s.b.a)\n" % (w, ov, v, ov), (lambda a, b: (a[0] + b[0], ["9"] + a[1] + b[1]))(p3("s.a.a"), p6("s.b.b"))
    p = probe(t, "o", 3)
    q_ = probe(t, "o", 6)
    yield "loop", "", ("loop([%s, %s], fn(o: %s) {\n%s})\n" % (v, v, T, p[0]), p[1] * 2)
    yield "call0", "x := %s\n" % v, p3("call0(fn() %s = x)" % T)
    yield "late", "a := Inner(Some(%s), [1, 2])\nb := Inner(Some([%s, %s]), [%s])\nl := Late(a, b)\nprintln(l.i.y[1])\n" % (v, w, v, v), (lambda a, b: (a[0] + b[0], ["2"] + a[1] + b[1]))(p3("l.i.x.orElse(%s)" % w), p3("l.o.y[0]"))
    yield "tree", "a := tree(%s)\na.k[1] = Some(tree(%s))\n" % (v, w), (lambda p: ("match a.k[1] {\ncase Some(s):\n%scase None(): println(\"none\")\n}\n" % p[0], p[1]))(p6("s.v"))
    yield "library", "", p3("toList([%s, %s]).reverse().find(fn(o: %s) bool = true).orElse(%s)" % (w, v, T, w))
    yield "pair", "p := Pair(%s, %s)\np.first = %s\n" % (v, ov, w), p6("p.first")
    yield "chain", "", p3("Some(%s).map(fn(o: %s) bx«%s» = Bx(o)).map(fn(o: bx«%s») []%s = [o.t, o.t]).map(fn(o: []%s) %s = o[0]).orElse(%s)" % (v, T, T, T, T, T, T, w))
    yield "array of generic", "g := [Bx(%s), Bx(%s)]\n" % (v, w), p6("g[1].t")
    yield "function value", "", p3("app(idfn@, %s)" % v)


def matrix(types, pick=None):
    for t in types:
        for i, (n, setup, (stmts, exp)) in enumerate(uses(t)):
            if pick and not pick(n):
                continue
            d = "fn idfn@(t: %s) %s = t\n" % (ty(t), ty(t))
            yield Case("%s|%s" % (n, ty(t)), d, setup + stmts, exp)


def pairs(types):
    """declarations with two type parameters at every pair of types"""
    for a, b in itertools.product(types, repeat=2):
        for n, setup, (stmts, exp) in uses(a, b):
            if n in ("swap", "swap 2", "app to", "app from", "enum two l", "enum two r", "mut", "mut explicit", "six", "pair"):
                yield Case("%s|%s|%s" % (n, ty(a), ty(b)), "fn idfn@(t: %s) %s = t\n" % (ty(a), ty(a)), setup + stmts, exp)


def rejects(types, pairs_=None):
    d = "fn same@«T»(a: T, b: T) {}\nfn elem@«T»(a: []T, b: T) {}\nfn dflt@«T»(a: option«T», b: T) {}\nfn endo@«T»(f: fn(T) T, a: T) {}\nfn dom@«T, U»(f: fn(T) U, a: T, b: U) {}\nfn dbl@«T»(p: two«T, T») {}\nfn kv@«T, U»(p: two«T, U», t: T, u: U) {}\nfn nest@«T»(a: []option«T», b: T) {}\n"
    for a, b in pairs_ or itertools.product(types, repeat=2):
        A, B, va, vb = ty(a), ty(b), val(a, 1), val(b, 2)
        mode = "accept" if a == b else "treject"
        for n, body in (("same", "same@(%s, %s)" % (va, vb)), ("elem", "elem@([%s], %s)" % (va, vb)), ("dflt", "dflt@(Some(%s), %s)" % (va, vb)), ("endo", "endo@(fn(z: %s) %s = %s, %s)" % (A, A, va, vb)), ("endo ret", "endo@(fn(z: %s) %s = %s, %s)" % (A, B, vb, va)),
                        ("dom", "dom@(fn(z: %s) int = 1, %s, 2)" % (A, vb)), ("codom", "dom@(fn(z: int) %s = %s, 1, %s)" % (A, va, vb)), ("dbl", "dbl@(Two(%s, %s))" % (va, vb)), ("kv first", "kv@(Two(%s, 1), %s, 1)" % (va, vb)), ("kv second", "kv@(Two(1, %s), 1, %s)" % (va, vb)), ("nest", "nest@([Some(%s)], %s)" % (va, vb)),
                        ("explicit", "idn«%s»(%s)" % (A, vb)), ("explicit struct", "x := Bx«%s»(%s)" % (A, vb)), ("explicit case", "x := Ga«%s»(%s)" % (A, vb)), ("assign", "x := Bx(%s)\nx = Bx(%s)" % (va, vb)), ("assign field", "x := Bx(%s)\nx.t = %s" % (va, vb)), ("assign case", "x := Ga(%s)\nx = Ga(%s)" % (va, vb)), ("array", "x := [Bx(%s), Bx(%s)]" % (va, vb)), ("ternary", "x := true ? Bx(%s) : Bx(%s)" % (va, vb)), ("none", "x := Some(%s)\nx = None«%s»()" % (va, B)), ("or else", "x := Some(%s).orElse(%s)" % (va, vb)), ("pick", "x := pick(true, %s, %s)" % (va, vb)), ("get", "x := get(Ga(%s), %s)" % (va, vb)), ("comp", "x := comp(fn(z: int) %s = %s, fn(z: %s) int = 1)" % (A, va, B))):
            yield Case("binding %s|%s|%s" % (n, A, B), d, body, [], mode=mode)
        dd = "fn par@(b: bx«%s») {}\nfn pag@(g: ge«%s») {}\n" % (A, A)
        yield Case("parameter|%s|%s" % (A, B), dd, "par@(Bx(%s))" % vb, [], mode=mode)
        yield Case("parameter enum|%s|%s" % (A, B), dd, "pag@(Ga(%s))" % vb, [], mode=mode)
        yield Case("result|%s|%s" % (A, B), "fn res@() bx«%s» = Bx(%s)\n" % (A, vb), "", [], mode=mode)
        yield Case("result opt|%s|%s" % (A, B), "fn res@() option«%s» {\nreturn Some(%s)\n}\n" % (A, vb), "", [], mode=mode)


def fntypes(args):
    """function types of one to five parameters, generic in some of them and in their result, everywhere a type can stand"""
    # result form -> (type, value made from t and u: T, extraction back to T)
    R = {"t": ("T", "t", "%s"), "arr": ("[]T", "[t, u]", "%s[1]"), "opt": ("option«T»", "Some(t)", "%s.orElse(d)"), "bx": ("bx«T»", "Bx(t)", "%s.t"), "two": ("two«T, int»", "Two(t, 1)", "%s.a"), "two2": ("two«int, T»", "Two(1, t)", "%s.b"), "ge": ("ge«T»", "Ga(t)", "get(%s, d)"), "fn": ("fn() T", "fn() T = t", "%s()"),
         "bxbx": ("bx«bx«T»»", "Bx(Bx(t))", "%s.t.t"), "arrbx": ("[]bx«T»", "[Bx(u), Bx(t)]", "%s[1].t"), "bxarr": ("bx«[]T»", "Bx([t, u])", "%s.t[0]"), "fnbx": ("fn(int) bx«T»", "fn(i: int) bx«T» = Bx(t)", "%s(4).t"), "list": ("list«T»", "toList([t])", "%s.find(fn(z: T) bool = true).orElse(d)"), "pair": ("pair«T, T»", "Pair(u, t)", "%s.second"), "optbx": ("option«bx«T»»", "Some(Bx(t))", "%s.orElse(Bx(d)).t")}
    P = {1: ["T"], 2: ["T", "int"], 3: ["T", "int", "T"], 4: ["int", "T", "bx«T»", "string"], 5: ["[]T", "T", "int", "option«T»", "fn(T) T"]}
    PV = {"T": "d", "int": "7", "string": "\"w\"", "bx«T»": "Bx(d)", "[]T": "[d]", "option«T»": "Some(d)", "fn(T) T": "idk@"}
    for t in args:
        W, v, w = ty(t), val(t, 3), val(t, 6)
        for k, (rn, (r, mkv, ext)) in itertools.product(P, R.items()):
            ft = "fn(%s) %s" % (", ".join(P[k]), r)
            args_ = ", ".join(PV[p] for p in P[k])
            g = lambda s: re.sub(r"\bT\b", lambda _: W, s)
            idk = "fn idk@(z: %s) %s = z\n" % (W, W)
            lam = "fn(%s) %s = %s" % (", ".join("p%d: %s" % (i, g(p)) for i, p in enumerate(P[k])), g(r), g(mkv))
            pre = "t := %s\nu := %s\nd := %s\n" % (v, w if rn != "arr" else v, w)
            if rn == "arr":
                pre = "t := %s\nu := %s\nd := %s\n" % (w, v, w)
            e = lambda c: g(ext % c)
            pr = lambda c: probe(t, e(c), 3)
            gargs = args_.replace("idk@", "idk@«T»") if False else args_
            places = {
                "parameter": ("fn us@«T»(f: %s, d: T%s) T = %s\n" % (ft, ", z: fn(T) T" if k == 5 else "", ext % ("f(%s)" % args_.replace("idk@", "z"))), "", "us@(%s, d%s)" % (lam, ", idk@" if k == 5 else ""), False),
                "field": ("struct hf@«T» { n: int f: %s }\n" % ft, "h := Hf@(1, %s)\n" % lam, "h.f(%s)" % args_, True),
                "explicit field": ("struct hf@«T» { n: int f: %s }\n" % ft, "h := Hf@«%s»(1, %s)\ng := h.f\n" % (W, lam), "g(%s)" % args_, True),
                "payload": ("enum hf@«T» { Hn@() Hf@(f: %s, n: int) }\nfn un@«T»(h: hf@«T», o: %s) %s {\nmatch h {\ncase Hn@(): return o\ncase Hf@(f, n): return f\n}\n}\n" % (ft, ft, ft), "o := un@(Hf@(%s, 1), %s)\n" % (lam, lam), "o(%s)" % args_, True),
                "element": ("fn us@«T»(f: []%s) %s = f[1]\n" % (ft, ft), "f := us@([%s, %s])\n" % (lam, lam), "f(%s)" % args_, True),
                "result": ("fn us@«T»(f: %s) %s = f\n" % (ft, ft), "", "us@(%s)(%s)" % (lam, args_), True),
                "nested": ("fn us@«T»(f: fn(int) %s) %s = f(1)\n" % (ft, ft), "", "us@(fn(q: int) %s = %s)(%s)" % (g(ft), lam, args_), True),
                "option": ("fn us@«T»(f: option«%s», o: %s) %s = f.orElse(o)\n" % (ft, ft, ft), "", "us@(Some(%s), %s)(%s)" % (lam, lam, args_), True),
            }
            for pn, (dd, s, call, needs) in places.items():
                if pn == "parameter":
                    st, ex = probe(t, call, 3)
                else:
                    st, ex = pr(call)
                yield Case("function type %s|%d|%s|%s" % (pn, k, rn, W), idk + dd, pre + s + st, ex)


NEAR = [(("pt",), ("pq",)), (("int",), ("bool",)), (("bx", ("int",)), ("bx", ("string",))), (("arr", ("int",)), ("arr", ("string",))), (("opt", ("int",)), ("opt", ("string",))), (("ge", ("pt",)), ("ge", ("pq",))), (("two", ("int",), ("string",)), ("two", ("string",), ("int",))), (("fn", ("int",), ("pt",)), ("fn", ("int",), ("pq",))), (("fn", ("pt",), ("int",)), ("fn", ("pq",), ("int",))), (("fn0", ("pt",)), ("fn0", ("pq",))), (("list", ("pt",)), ("list", ("pq",))), (("pair", ("int",), ("pt",)), ("pair", ("int",), ("pq",)))]


def nearly():
    """pairs of types that differ only deep inside"""
    wraps = [lambda t: t, lambda t: ("arr", t), lambda t: ("opt", t), lambda t: ("bx", t), lambda t: ("ge", t), lambda t: ("two", ("int",), t), lambda t: ("two", t, ("int",)), lambda t: ("fn", ("int",), t), lambda t: ("fn", t, ("int",)), lambda t: ("fn0", t), lambda t: ("list", t)]
    for a, b in NEAR:
        for f in wraps:
            yield f(a), f(b)
            for g in wraps[1:]:
                yield g(f(a)), g(f(b))


def bodies():
    """a type parameter is opaque: what generic bodies may and may not do"""
    for n, s in (("plus", "x := t + 1"), ("eq", "x := t == t"), ("lt", "x := t < t"), ("length", "x := t.length"), ("index", "x := t[0]"), ("call", "t()"), ("if", "if t { }"), ("while", "while t { }"), ("not", "x := not t"), ("neg", "x := -t"), ("bnot", "x := ~t"), ("field", "x := t.a"), ("int param", "x := mod(t, 2)"), ("string", "x := \"a\".append(t)"), ("assign int", "t = 1"), ("assign u", "t = u"), ("u assign t", "u = t"), ("array", "x := [t, u]"), ("array int", "x := [t, 1]"), ("ternary", "x := true ? t : u"), ("for", "for i in t { }"), ("match", "match t {\ncase Some(v):\ncase None():\n}"), ("bx mix", "x := Bx(t)\nx = Bx(u)"), ("orElse", "x := Some(t).orElse(u)"), ("return u", "return u"), ("return int", "return 1"), ("anon", "f := fn() T = u"), ("range", "for i in 0 .. t { }"), ("explicit", "x := idn«U»(t)"), ("pick", "x := pick(true, t, u)"), ("unknown", "x := idn«Z»(t)"), ("and", "x := true and t"), ("shift", "x := 1 << t"), ("call f", "x := app(fn(z: U) int = 1, t)")):
        yield Case("body " + n, "fn gb@«T, U»(t: T, u: U) T {\n%s\nreturn t\n}\n" % s, "", [], mode="treject")
    for n, s in (("copy", "x := t\nt = x"), ("array", "x := [t, t]\ny := x[0]\nx[1] = y"), ("box", "x := Bx(t)\nx.t = t"), ("two", "x := Two(t, u)\ny := swap(x)\nz := y.b\nt = z"), ("opt", "x := Some(t).orElse(t)"), ("explicit", "x := idn«T»(t)"), ("anon", "f := fn(z: T) T = z\nx := f(t)"), ("capture", "f := fn() T = t\nx := f()"), ("ternary", "x := true ? t : t"), ("self", "x := gb@(t, u)"), ("self swapped", "x := gb@(u, t)"), ("self nested", "x := gb@([t], Bx(u))"), ("list", "x := toList([t]).find(fn(z: T) bool = true).orElse(t)"), ("match", "match Some(t) {\ncase Some(v): t = v\ncase None():\n}"), ("none", "x := None«T»()\nx = Some(t)")):
        yield Case("body ok " + n, "fn gb@«T, U»(t: T, u: U) T {\n%s\nreturn t\n}\n" % s, "", [], mode="accept")
    # type argument lists
    decl = {"bx": 1, "two": 2, "ge": 1, "g2": 2, "option": 1, "pair": 2, "list": 1, "map": 2, "result": 2, "either": 2}
    for n, k in decl.items():
        for m in range(1, 5):
            t = "%s«%s»" % (n, ", ".join(["int"] * m))
            for pos, dd in (("param", "fn f@(a: %s) {}\n"), ("result", "fn f@(a: fn() %s) {}\n"), ("array", "fn f@(a: []%s) {}\n"), ("field", "struct s@ { a: %s }\n"), ("payload", "enum s@ { S@(a: %s) }\n"), ("argument", "fn f@(a: option«%s») {}\n"), ("anon", "fn f@() {\ng := fn(a: %s) { }\n}\n"), ("none", "fn f@() {\ng := None«%s»()\n}\n"), ("fn param", "fn f@(a: fn(%s)) {}\n"), ("extern", "fn f@«K»(a: K, b: %s) {}\n")):
                yield Case("type list %s %d in %s" % (n, m, pos), dd % t, "", [], mode="accept" if m == k else "treject")
    for t in ("int", "bool", "string", "bytes", "pt", "nothing"):
        yield Case("not generic " + t, "fn f@(a: %s«int») {}\n" % t, "", [], mode="treject")
    yield Case("parameter with arguments", "fn f@«T»(a: T«int») {}\n", "", [], mode="treject")
    fns = {"idn": (1, "1"), "swap": (2, "Two(1, 2)"), "wrap": (1, "1"), "pick": (1, "true, 1, 2"), "mut": (2, "1, 2, 3"), "six": (3, "1, 2, 3, 4, 5, 6"), "Bx": (1, "1"), "Two": (2, "1, 2"), "Ga": (1, "1"), "Gb": (1, ""), "Some": (1, "1"), "None": (1, ""), "app": (2, "fn(z: int) int = z, 1"), "comp": (3, "fn(z: int) int = z, fn(z: int) int = z")}
    for n, (k, a) in fns.items():
        for m in range(1, 5):
            yield Case("call list %s %d" % (n, m), "", "x := %s«%s»(%s)" % (n, ", ".join(["int"] * m), a), [], mode="accept" if m == k else "treject")
        yield Case("call list inferred %s" % n, "", "x := %s(%s)" % (n, a), [], mode="treject" if n in ("Gb", "None") else "accept")
    for r in ("option«T»", "[]T", "bx«T»", "fn() T", "fn(T)", "fn(int) T", "two«int, T»", "[]option«T»", "ge«T»", "fn(fn(T)) int", "fn() option«T»", "T"):
        d = "fn mk@«T»() %s {\npanic(\"x\")\nreturn unsafe(1, 0, type(%s))\n}\nfn mk2@«U, T»(u: U) %s = mk@«T»()\n" % (r, r, r)
        yield Case("not inferable " + r, d, "x := mk@()", [], mode="treject")
        yield Case("not inferable 2 " + r, d, "x := mk2@(1)", [], mode="treject")
        yield Case("given " + r, d, "x := mk@«int»()", [], mode="accept")
        yield Case("given 2 " + r, d, "x := mk2@«int, string»(1)", [], mode="accept")
    for n, d, ok in (("duplicate parameter", "fn f@«T, T»(a: T) {}\n", 0), ("unknown parameter", "fn f@«T»(a: U) {}\n", 0), ("unknown in struct", "struct s@«T» { a: U }\n", 0), ("unknown in enum", "enum s@«T» { S@(a: U) }\n", 0), ("unused", "fn f@«T»(a: int) {}\n", 1), ("outside", "fn f@«T»(a: T) {}\nfn g@(a: T) {}\n", 0), ("same name", "fn f@«T»(a: T) {}\nfn g@«T»(a: T) {}\n", 1), ("fn result", "fn f@«T»(a: T) fn(T) T = fn(b: T) T = a\n", 1)):
        yield Case("declaration " + n, d, "", [], mode="accept" if ok else "treject")


def explicit(thorough):
    """explicit type argument lists: accepted exactly when every argument has the type its parameter gets from the list"""
    tys = {"int": ("int", "1", "r + 1"), "string": ("string", "\"s\"", "r.length"), "[]int": ("[]int", "[1]", "r[0]")}
    shapes = {"T": ("%s", "%s"), "[]T": ("[]%s", "[%s]"), "option": ("option«%s»", "Some(%s)"), "fn": ("fn() %s", None), "fn arg": ("fn(%s) int", None), "bx": ("bx«%s»", "Bx(%s)")}

    def value(shape, t):
        if shape == "fn":
            return "fn() %s = %s" % (tys[t][0], tys[t][1])
        if shape == "fn arg":
            return "fn(z: %s) int = 1" % tys[t][0]
        return shapes[shape][1] % tys[t][1]
    for k in (1, 2, 3):
        tps = "ABC"[:k]
        for given in itertools.product(tys, repeat=k):
            actuals = [given] + [given[:i] + (u,) + given[i + 1:] for i in range(k) for u in tys if u != given[i]]
            if thorough:
                actuals = list(itertools.product(tys, repeat=k))
            for act in actuals:
                for perm in itertools.permutations(range(k)):
                    for shape in shapes if perm == tuple(range(k)) or thorough else ["T", "[]T"]:
                        ps = ", ".join("p%d: %s" % (i, shapes[shape][0] % tps[i]) for i in perm)
                        args = ", ".join(value(shape, act[i]) for i in perm)
                        for ret in ["", "int"] + ([tps[k - 1], tps[0]] if shape == "T" else []):
                            body = {"": "{}", "int": "= 1"}.get(ret) or "= p%d" % tps.index(ret)
                            d = "fn f@«%s»(%s) %s %s\n" % (", ".join(tps), ps, ret, body)
                            call = "f@«%s»(%s)" % (", ".join(given), args)
                            use = call if ret == "" else "r := %s\nq := %s" % (call, tys[given[tps.index(ret)]][2] if ret in tps else "r + 1")
                            yield Case("explicit %s %s %s %s %s" % (given, act, perm, shape, ret), d, use, [], mode="accept" if act == given else "treject")
                        if shape == "T":
                            d = "struct s@«%s» { %s }\nenum e@«%s» { E@(%s) F@() }\n" % (", ".join(tps), " ".join("p%d: %s" % (i, tps[i]) for i in perm), ", ".join(tps), ps)
                            yield Case("explicit struct %s %s %s" % (given, act, perm), d, "r := S@«%s»(%s)" % (", ".join(given), args), [], mode="accept" if act == given else "treject")
                            yield Case("explicit case %s %s %s" % (given, act, perm), d, "r := E@«%s»(%s)" % (", ".join(given), args), [], mode="accept" if act == given else "treject")
                # parameters the arguments do not mention
                d = "fn g@«%s, Z»(%s) option«Z» = None«Z»()\n" % (", ".join(tps), ", ".join("p%d: %s" % (i, tps[i]) for i in range(k)))
                args = ", ".join(value("T", t) for t in act)
                for z in tys:
                    for w in tys:
                        yield Case("explicit result %s %s %s %s" % (given, act, z, w), d, "r := g@«%s, %s»(%s)\nr = None«%s»()" % (", ".join(given), z, args, w), [], mode="accept" if act == given and z == w else "treject")


RECV = {"literal": "1", "variable": "v", "paren": "(v)", "call": "one@()", "call arg": "id@(v)", "dot call": "v.id@()", "generic call": "gid@(v)", "explicit call": "gid@«int»(v)", "value call": "f()", "field": "b.t", "element": "a[0]", "field call": "h.f()", "element call": "fs[0]()", "constructed": "Bx@(v).t", "length": "\"a\".length", "ternary": "(v == 1 ? v : 2)", "sum": "(v + 0)", "negative": "(-v + 2)", "closure": "(fn() int = 1)()", "chain": "v.gid@«int»().id@()", "explicit chain": "v.id@().gid@«int»()", "captured": "v", "payload": "z", "loop": "q"}


def notations():
    """a call with explicit type arguments means the same in plain and in dot notation, whatever expression comes first and however many arguments follow"""
    D = "struct bx@«T» { t: T }\nstruct hx@ { f: fn() int }\nfn one@() int = 1\nfn id@(x: int) int = x\nfn gid@«T»(x: T) T = x\n"
    for k in (1, 2, 3):
        D += "fn none%d@«R»(%s) option«R» = None«R»()\n" % (k, ", ".join("p%d: int" % i for i in range(k)))
        D += "fn both%d@«A, R»(a: A%s, f: fn(A) R) R = f(a)\n" % (k, "".join(", p%d: int" % i for i in range(1, k)))
        D += "fn pick%d@«A, B»(a: A, b: B%s) B = b\n" % (k, "".join(", p%d: int" % i for i in range(1, k)))
    D += "fn just@«A»(a: A) option«A» = Some(a)\nfn empty@«A, R»(a: A) option«R» = None«R»()\nfn arr@«A»(a: A, n: int) []A = array(n, a)\n"
    pre = "v := 1\nb := Bx@(1)\na := [1]\nf := fn() int = 1\nh := Hx@(f)\nfs := [f]\n"
    USES = {}
    for k in (1, 2, 3):
        rest = "".join(", %d" % (i + 5) for i in range(1, k))
        USES["none%d" % k] = ("none%d@«string»" % k, rest, "match $ {\ncase Some(s): println(s)\ncase None(): println(\"none\")\n}", "none")
        USES["both%d" % k] = ("both%d@«int, string»" % k, rest + ", fn(i: int) string = i.toString()", "println($.append(\"!\"))", "1!")
        USES["pick%d" % k] = ("pick%d@«int, string»" % k, ", \"p\"" + rest, "println($.append(\"!\"))", "p!")
    USES["just"] = ("just@«int»", "", "println($.orElse(9))", "1")
    USES["empty"] = ("empty@«int, []string»", "", "println($.orElse([\"w\"])[0])", "w")
    USES["arr"] = ("arr@«int»", ", 3", "println($[2])", "1")
    for un, (fn, rest, tpl, want) in USES.items():
        for rn, r in RECV.items():
            for nt in ("plain", "dot"):
                e = "%s(%s%s)" % (fn, r, rest) if nt == "plain" else "%s.%s(%s)" % (r, fn, rest[2:])
                body = tpl.replace("$", e)
                if rn == "captured":
                    body = "g := fn() {\n%s\n}\ng()" % body
                elif rn == "payload":
                    body = "match Some(1) {\ncase Some(z):\n%s\ncase None():\n}" % body
                elif rn == "loop":
                    body = "for q in [1] {\n%s\n}" % body
                yield Case("notation %s %s %s" % (nt, un, rn), D, pre + body, [want])
                # the list is as long as the function's
                for bad in [re.sub("«.*»", "«int, int, int»", fn)] + ([re.sub("«.*»", "«int»", fn)] if "," in fn else [re.sub("«(.*)»", r"«\1, int»", fn)]):
                    e2 = "%s(%s%s)" % (bad, r, rest) if nt == "plain" else "%s.%s(%s)" % (r, bad, rest[2:])
                    if rn not in ("captured", "payload", "loop"):
                        yield Case("notation length %s %s %s %s" % (nt, un, rn, bad), D, pre + tpl.replace("$", e2), [], mode="treject")


WR = {"": ("%s", "%s"), "bx": ("Bx(%s)", "%s.t"), "arr": ("[%s]", "%s[0]"), "opt": ("Some(%s)", "%s.orElse(V)"), "fn": ("delay(%s)", "%s()"), "two": ("Two(7, %s)", "%s.b")}


def permuted(thorough):
    """functions which call themselves, or each other, with their type parameters permuted and wrapped"""
    vals = ["7", "\"x\"", "[4, 5]"]
    show = ["println(%s + 1)", "println(%s.length)", "println(%s[1])"]
    outs = ["8", "1", "5"]
    F = "abc"

    def body(me, callee, tps, perm, wr, stm):
        k = len(tps)
        args = [WR[wr[i]][0] % F[perm[i]] for i in range(k)]
        res = []
        for j in range(k):
            i = perm.index(j)
            res.append((WR[wr[i]][1] % ("r." + F[i])).replace("V", F[j]))
        ps = ", ".join("%s: %s" % (F[i], tps[i]) for i in range(k))
        ret = "t%d@«%s»" % (k, ", ".join(tps))
        return "fn %s@«%s»(n: int, %s) %s {\nif n == 0 { return T%d@(%s) }\nr := %s@(n - 1, %s)\n%s\n}\n" % (me, ", ".join(tps), ps, ret, k, ", ".join(F[:k]), callee, ", ".join(args),
            "return T%d@(%s)" % (k, ", ".join(res)) if not stm else "".join("v%d := %s\n" % (i, x) for i, x in enumerate(res)) + "return T%d@(%s)" % (k, ", ".join("v%d" % i for i in range(k))))
    dec = "struct t2@«A, B» { a: A b: B }\nstruct t3@«A, B, C» { a: A b: B c: C }\n"
    for k in (2, 3):
        names = [["A", "B", "C"][:k], ["B", "A", "C"][:k], ["X", "A", "B"][:k]]
        for perm in itertools.permutations(range(k)):
            for wr in itertools.product(WR, repeat=k):
                if k == 3 and not thorough and sum(w != "" for w in wr) > 1:
                    continue
                d = dec + body("f", "f", names[0], perm, wr, sum(map(len, wr)) % 2)
                b, e = "", []
                for rot in range(k):
                    o = [(i + rot) % k for i in range(k)]
                    for n in (0, 1, 2, 3):
                        b += "r%d%d := f@(%d, %s)\n" % (rot, n, n, ", ".join(vals[i] for i in o))
                        for z, i in enumerate(o):
                            b += show[i] % ("r%d%d.%s" % (rot, n, F[z])) + "\n"
                            e.append(outs[i])
                yield Case("permuted %s %s" % (perm, wr), d, b, e)
            for perm2 in itertools.permutations(range(k)):
                for nm in names:
                    for w in ("", "bx") if not thorough else WR:
                        wr = [w] + [""] * (k - 1)
                        d = dec + body("f", "g", names[0], perm, wr, 0) + body("g", "f", nm, perm2, wr[::-1], 1)
                        b, e = "", []
                        for n in (1, 2, 3, 4):
                            b += "r%d := f@(%d, %s)\n" % (n, n, ", ".join(vals[:k]))
                            for i in range(k):
                                b += show[i] % ("r%d.%s" % (n, F[i])) + "\n"
                                e.append(outs[i])
                        yield Case("permuted %s and %s %s %s" % (perm, perm2, nm, w), d, b, e)


def unbound():
    """calls whose arguments bind only some of the type parameters of the result: rejected unless the list is given"""
    for k in (1, 2, 3):
        tps = "ABC"[:k]
        for mask in range(1 << k):
            bound = [t for i, t in enumerate(tps) if mask >> i & 1]
            ps = ", ".join("p%s: %s" % (t, t) for t in bound)
            args = ", ".join("1" for t in bound)
            L = ", ".join(tps)
            gen = "struct s@«%s» { %s }\nenum e@«%s» { E@(%s) %s}\nstruct ph@«%s» { n: int%s }\n" % (L, " ".join("p%s: %s" % (t, t) for t in tps), L, ps, "".join("K%s@(x: %s) " % (t, t) for t in tps), L, "".join(" p%s: %s" % (t, t) for t in bound))
            shapes = ["s@«%s»" % L, "e@«%s»" % L, "[]s@«%s»" % L, "option«e@«%s»»" % L, "fn(%s)" % L, "fn(%s) %s" % (", ".join(tps[1:]), tps[0]), "fn(%s) %s" % (", ".join(tps[:-1]), tps[-1]), "fn() s@«%s»" % L, "fn(fn(%s) int) int" % L, "fn() fn() e@«%s»" % L, "s@«%s»" % ", ".join("[]" + t for t in tps), "e@«%s»" % ", ".join("option«%s»" % t for t in tps), "s@«%s»" % ", ".join("fn() " + t for t in tps)]
            for perm in itertools.permutations(tps):
                shapes += ["s@«%s»" % ", ".join(perm), "e@«%s»" % ", ".join(perm), "fn(%s)" % ", ".join(perm)]
            for sh in dict.fromkeys(shapes):
                d = gen + "fn f@«%s»(%s) %s {\npanic(\"\")\nreturn unsafe(1, 0, type(%s))\n}\n" % (L, ps, sh, sh)
                for cx in ("r := %s", "%s", "q := [%s]", "g := fn() { h := %s }"):
                    if cx != "r := %s" and sh != shapes[0]:
                        continue
                    yield Case("unbound %s of %s in %s: %s" % (bound, tps, sh, cx), d, cx % ("f@(%s)" % args), [], mode="accept" if len(bound) == k else "treject")
                yield Case("bound by list %s of %s in %s" % (bound, tps, sh), d, "r := f@«%s»(%s)" % (", ".join(["int"] * k), args), [], mode="accept")
            for cons, a in [("E@", args)] + [("K%s@" % t, "1") for t in tps] + [("Ph@", "5" + (", " + args if args else ""))]:
                ok = (k == 1) if cons[0] == "K" else len(bound) == k
                yield Case("unbound constructor %s %s of %s" % (cons, bound, tps), gen, "r := %s(%s)" % (cons, a), [], mode="accept" if ok else "treject")
                yield Case("listed constructor %s %s of %s" % (cons, bound, tps), gen, "r := %s«%s»(%s)" % (cons, ", ".join(["int"] * k), a), [], mode="accept")


def patterns(thorough):
    """a generic declaration of up to four type parameters applied, inside another one, to every list of its parameters, types and arrays"""
    A = {"T": ("T", "t", "bool", "true", "println(%s)", "true"), "U": ("U", "u", "pz@", "Pz@(9)", "println(%s.z)", "9"), "int": ("int", "5", "int", "5", "println(%s + 1)", "6"), "string": ("string", "\"zz\"", "string", "\"zz\"", "println(%s.length)", "2"), "[]T": ("[]T", "[t]", "[]bool", "[true]", "println(%s[0])", "true")}
    F = "abcd"
    for k in (1, 2, 3, 4):
        tp = ", ".join("ABCD"[:k])
        dec = "struct pz@ { z: int }\nstruct s@«%s» { %s }\nenum e@«%s» { V@(%s) W@() }\n" % (tp, " ".join("%s: %s" % (F[i], "ABCD"[i]) for i in range(k)), tp, ", ".join("%s: %s" % (F[i], "ABCD"[i]) for i in range(k)))
        for pat in itertools.product(A, repeat=k):
            xs = [A[p] for p in pat]
            gl, cl = ", ".join(x[0] for x in xs), ", ".join(x[2] for x in xs)
            gv, cv = ", ".join(x[1] for x in xs), ", ".join(x[3] for x in xs)
            bind = ", ".join("x" + F[i] for i in range(k))
            d = dec + """struct o@«T, U» { s: s@«%s» t: T u: U }
fn mk@«T, U»(t: T, u: U) s@«%s» = S@(%s)
fn me@«T, U»(t: T, u: U) e@«%s» {
return V@(%s)
}
fn id@«T, U»(s: s@«%s», t: T, u: U) s@«%s» {
r := S@(%s)
r = s
return r
}
fn ap@«T, U»(t: T, u: U, f: fn(s@«%s») int) int = f(S@(%s))
fn wr@«T, U»(t: T, u: U) o@«T, U» = O@(S@(%s), t, u)
fn cs@(s: s@«%s») s@«%s» = s
fn ce@(e: e@«%s») int {
match e {
case V@(%s): return 4
case W@(): return 5
}
}
""" % (gl, gl, gv, gl, gv, gl, gl, gv, gl, gv, gv, cl, cl, cl, bind)
            for i in range(k):  # taken apart where the types are still parameters
                d += "fn gs%d@«T, U»(s: s@«%s», t: T, u: U) %s = s.%s\nfn gm%d@«T, U»(e: e@«%s», t: T, u: U) %s {\nmatch e {\ncase V@(%s): return x%s\ncase W@(): return %s\n}\n}\n" % (i, gl, xs[i][0], F[i], i, gl, xs[i][0], bind, F[i], xs[i][1])
            body, exp = "p := Pz@(9)\n", []
            for n, e in enumerate(("mk@(true, p)", "id@(mk@(true, p), true, p)", "wr@(true, p).s", "cs@(mk@(true, p))", "S@(%s)" % cv, "id@(S@(%s), true, p)" % cv, "mk@«bool, pz@»(true, p)")):
                body += "r%d := %s\n" % (n, e)
                for i in range(k):
                    body += xs[i][4] % ("r%d.%s" % (n, F[i])) + "\n"
                    exp.append(xs[i][5])
            body += "println(ce@(me@(true, p)))\nprintln(ce@(V@(%s)))\nprintln(ce@(W@«%s»()))\nprintln(ap@(true, p, fn(s: s@«%s») int = 7))\nmatch me@(true, p) {\ncase V@(%s):\n%scase W@(): println(0)\n}" % (cv, cl, cl, bind, "".join(xs[i][4] % ("x" + F[i]) + "\n" for i in range(k)))
            exp += ["4", "4", "5", "7"] + [x[5] for x in xs]
            for i in range(k):
                for e in ("gs%d@(mk@(true, p), true, p)" % i, "gm%d@(me@(true, p), true, p)" % i):
                    body += "\ny%d%s := %s\n" % (i, e[1], e) + xs[i][4] % ("y%d%s" % (i, e[1]))
                    exp.append(xs[i][5])
            yield Case("patterns %s" % (pat,), d, body, exp)
            if k > 2 and not thorough and "[]T" in pat:
                continue
            for i in range(k):  # one argument of another type
                for ot, ov in (("bool", "true"), ("int", "5"), ("string", '"q"'), ("pz@", "Pz@(1)"), ("[]bool", "[true]"), ("[]int", "[1]")):
                    if ot == xs[i][2]:
                        continue
                    if k > 2 and not thorough and ot not in ("int", "bool"):
                        continue
                    vs = [x[3] for x in xs]
                    vs[i] = ov
                    e = "S@(%s)" % ", ".join(vs)
                    yield Case("patterns wrong %s %d %s" % (pat, i, ot), d, "r := id@(%s, true, Pz@(1))" % e, [], mode="treject")
                    yield Case("patterns wrong result %s %d %s" % (pat, i, ot), d, "r := mk@(true, Pz@(1))\nr = %s" % e, [], mode="treject")


def deep(thorough):
    """every type of the closed grammar to depth 3, and towers of one constructor, written out in every kind of declaration"""
    ts = {t: (p, v) for p, (t, v) in tygram.types(3, None, ["int"] if not thorough else None).items()}
    for c, (f, mk) in tygram.CTORS.items():
        for outer, inner in itertools.product((None, "[]", "g"), (None, "g", "e", "option", "pair2", "fn.", "[]")):
            t, v, p = "int", "1", ("int",)
            if inner:
                t, v, p = tygram.CTORS[inner][0] % t, tygram.CTORS[inner][1](t, v), (inner,) + p
            for n in range(1, 7):
                t, v, p = f % t, mk(t, v), (c,) + p
                ts[t] = (p, v)
                if outer:
                    ts[tygram.CTORS[outer][0] % t] = ((outer,) + p, tygram.CTORS[outer][1](t, v))
    get = {"[]": "%s[0]", "g": "%s.t", "g2": "%s.t", "fn.": "%s()", "pair1": "%s.first", "pair2": "%s.second"}
    for t, (p, v) in ts.items():
        def probe(e):  # down to the first value which cannot be taken apart by an expression
            for c in p[:-1]:
                if c not in get:
                    return "println(3)"
                e = get[c] % e
            return "println(%s)" % (e if p[-1] != "tp@" else e + ".a")
        want = "3" if any(c not in get for c in p[:-1]) else {"int": "1", "string": "s", "tp@": "1"}[p[-1]]
        d = tygram.DECLS + """struct df@ { n: int x: %s }
struct dg@«T» { x: %s t: T }
enum de@ { Da@(n: int) Db@(n: int, x: %s) }
fn pa@(x: %s) %s = x
fn pb@(n: int, x: %s) %s { return x }
fn pc@«T»(x: %s, t: T) T = t
fn pd@(f: fn(%s) %s, x: %s) %s = f(x)
fn pe@(e: de@, x: %s) %s {
match e {
case Da@(n): return x
case Db@(n, y): return y
}
}
""" % ((t,) * 14)
        body = "v := %s\n" % v
        es = ["pa@(v)", "pb@(1, v)", "Df@(1, v).x", "Dg@(v, 2).x", "pd@(pa@, v)", "pd@(fn(y: %s) %s = y, v)" % (t, t), "pe@(Db@(1, v), v)", "pe@(Da@(1), v)"]
        for i, e in enumerate(es):
            body += "r%d := %s\n%s\n" % (i, e, probe("r%d" % i))
        body += "println(pc@(v, 5))\nv = pa@(v)\nf := pa@\nv = f(v)\nw := [v, pa@(v)]\nv = w[1]\n%s" % probe("v")
        yield Case("deep %s" % t, d, body, [want] * len(es) + ["5", want])


MEMBER = {"T": ("T", "t", "%s"), "arr": ("[]T", "[t]", "%s[0]"), "arr2": ("[][]T", "[[t]]", "%s[0][0]"), "opt": ("option«T»", "Some(t)", "%s.orElse(z)"), "mg": ("mg@«T»", "Mg@(t)", "%s.t"), "fn": ("fn() T", "fn() T = t", "%s()"), "pair": ("pair«int, T»", "Pair(1, t)", "%s.second"), "me": ("me@«T»", "Mv@(t)", "ge@(%s, z)"), "fnarr": ("fn(T) []T", "fn(y: T) []T = [y]", "%s(t)[0]"), "U": ("U", "u", None)}


def members(thorough):
    """a member built from the type parameter in every place among up to five others, taken apart in plain and in generic functions"""
    base = "struct mg@«T» { t: T }\nenum me@«T» { Mv@(t: T) Mw@() }\nfn ge@«T»(e: me@«T», z: T) T {\nmatch e {\ncase Mv@(t): return t\ncase Mw@(): return z\n}\n}\n"
    for k in range(1, 7):
        for i in range(k):
            for mn, (mt, mv, get) in MEMBER.items():
                if get is None:
                    continue
                for fill in ("int", "T", "U", "mix"):
                    if k == 1 and fill != "int":
                        continue
                    ty = [(mt if j == i else {"int": "int", "T": "T", "U": "U", "mix": ("[]U", "int", "T", "string", "option«U»", "U")[j]}[fill]) for j in range(k)]
                    V = {"int": "7", "T": "t", "U": "u", "[]U": "[u]", "string": '"s"', "option«U»": "Some(u)"}
                    vs = ", ".join(mv if j == i else V[ty[j]] for j in range(k))
                    hasu = any("U" in x for x in ty)
                    tp = "T, U" if hasu else "T"
                    ps = ", ".join("p%d: %s" % (j, x) for j, x in enumerate(ty))
                    bs = ", ".join("b%d" % j for j in range(k))
                    d = base + "struct ms@«%s» { %s }\n" % (tp, ps.replace(",", "") if "pair" not in ps else " ".join("p%d: %s" % (j, x) for j, x in enumerate(ty)))
                    d += "fn sg@«%s»(s: ms@«%s», t: T, z: T) T = %s\nfn sm@«T, U»(t: T, u: U) ms@«%s» = Ms@(%s)\n" % (tp, tp, get % ("s.p%d" % i), tp, vs)
                    conc = "int, string" if hasu else "int"
                    body = "t := 5\nu := \"uu\"\nz := 6\ns := Ms@(%s)\nprintln(%s + 1)\nprintln(sg@(s, t, z) + 1)\nprintln(sg@(sm@(t, u), t, z) + 1)\n" % (vs.replace("T", "int"), get % ("s.p%d" % i))
                    exp = ["6"] * 3
                    if k <= 5:
                        d += "enum mm@«%s» { Ma@(%s) Mb@() }\nfn eg@«%s»(e: mm@«%s», t: T, z: T) T {\nmatch e {\ncase Ma@(%s): return %s\ncase Mb@(): return z\n}\n}\nfn em@«T, U»(t: T, u: U) mm@«%s» = Ma@(%s)\n" % (tp, ps, tp, tp, bs, get % ("b%d" % i), tp, vs)
                        body += "match Ma@(%s) {\ncase Ma@(%s): println(%s + 1)\ncase Mb@(): println(0)\n}\nprintln(eg@(Ma@(%s), t, z) + 1)\nprintln(eg@(em@(t, u), t, z) + 1)\nprintln(eg@(Mb@«%s»(), t, z))\n" % (vs.replace("T", "int"), bs, get % ("b%d" % i), vs.replace("T", "int"), conc)
                        exp += ["6", "6", "6", "6"]
                    yield Case("members %s %d/%d %s" % (mn, i, k, fill), d, body, exp)


def functions(thorough):
    """functions over the type parameter, of every parameter list to length four, alone and in every container, as result and as argument of a generic function"""
    W = {"bare": ("F", "f", "%s"), "arr": ("[]F", "[f]", "%s[0]"), "arr2": ("[][]F", "[[f]]", "%s[0][0]"), "pair": ("pair«int, F»", "Pair(1, f)", "%s.second"), "box": ("fb@«F»", "Fb@(f)", "%s.b"), "fn": ("fn() F", "fn() F = f", "%s()"), "opt": ("option«F»", "Some(f)", "%s.orElse(f)"), "box arr": ("fb@«[]F»", "Fb@([f])", "%s.b[0]"), "arr box": ("[]fb@«F»", "[Fb@(f)]", "%s[0].b")}
    C = {"T": "string", "U": "bool", "int": "int", "[]T": "[]string"}
    A = {"T": '"ab"', "U": "true", "int": "4", "[]T": '["cd"]'}
    G = {"T": "t", "U": "u", "int": "4", "[]T": "[t]"}
    lists = [l for k in range(0, 5) for l in itertools.product(("T", "int"), repeat=k)] + [l for k in (1, 2, 3) for l in itertools.product(("T", "U", "[]T"), repeat=k) if set(l) & {"U", "[]T"}]
    for l in lists:
        for ret in ("T", "[]T", "int", "U"):
            ft = lambda m: "fn(%s) %s" % (", ".join(m.get(x, x) for x in l), m.get(ret, ret))
            gt, ct = ft({}), ft(C)
            d = "struct fb@«B» { b: B }\n"
            rv = {"T": "\"xy\"", "[]T": "[\"xy\"]", "int": "6", "U": "false"}[ret]
            for j, x in enumerate(l):  # the last parameter of the type of the result is the result
                if x == ret:
                    rv = "p%d" % j
            body = "t := \"ab\"\nu := true\nf := fn(%s) %s = %s\n" % (", ".join("p%d: %s" % (j, C[x]) for j, x in enumerate(l)), C[ret], rv)
            pv = {"T": "println(%s.length)", "[]T": "println(%s[0].length)", "int": "println(%s + 1)", "U": "println(not %s)"}[ret]
            want = {"T": "2", "[]T": "2", "int": "5" if "int" in l else "7", "U": "false" if "U" in l else "true"}[ret]
            exp = []
            for i, (w, (wt, mk, get)) in enumerate(W.items()):
                d += "fn m%d@«T, U»(t: T, u: U, f: %s) %s = %s\nfn a%d@«T, U»(w: %s, t: T, u: U, f: %s) %s = %s(%s)\n" % (i, gt, wt.replace("F", gt), mk.replace("fn() F", "fn() " + gt), i, wt.replace("F", gt), gt, ret, get % "w", ", ".join(G[x] for x in l))
                body += "w%d := m%d@(t, u, f)\nx%d := %s(%s)\n%s\n" % (i, i, i, get % ("w%d" % i), ", ".join(A[x] for x in l), pv % ("x%d" % i))
                body += "y%d := a%d@(m%d@(t, u, f), t, u, f)\n%s\n" % (i, i, i, pv % ("y%d" % i))
                body += "z%d := a%d@(%s, t, u, f)\n%s\n" % (i, i, mk.replace("fn() F", "fn() " + ct), pv % ("z%d" % i))
                exp += [want] * 3
            yield Case("function %s %s" % (l, ret), d, body, exp)
            if l and (thorough or len(l) <= 2):
                for i, (w, (wt, mk, get)) in enumerate(W.items()):
                    for j, x in enumerate(l):
                        bad = [A[y] for y in l]
                        bad[j] = {"T": "1", "U": "1", "int": "true", "[]T": "[1]"}[x]
                        yield Case("function wrong %s %s %s %d" % (l, ret, w, j), d, "f := fn(%s) %s = %s\nw := m%d@(\"ab\", true, f)\nx := %s(%s)" % (", ".join("p%d: %s" % (q, C[y]) for q, y in enumerate(l)), C[ret], rv, i, get % "w", ", ".join(bad)), [], mode="treject")


def read(thorough):
    """values handed to a generic function as type parameters, read in every place"""
    for t in places.TYPES:
        ty, v, x = places.TYPES[t]
        for nm, d, b in (("inferred", "fn h@«T»(t: T, k: fn(T)) { k(t) }\n", "h@(%s, fn(x: %s) {\nBODY\n})" % (v, ty)), ("explicit", "fn h@«T»(t: T, k: fn(T)) { k(t) }\n", "h@«%s»(%s, fn(x: %s) {\nBODY\n})" % (ty, v, ty)), ("field", "struct hs@«T» { a: int t: T }\n", "oo := Hs@(1, %s)\nx := oo.t\nBODY" % v), ("case", "enum he@«A, B» { Ha@(a: A) Hb@(b: B, c: int) }\n", "match Hb@«string, %s»(%s, 1) {\ncase Ha@(aa): println(aa)\ncase Hb@(x, cc):\nBODY\n}" % (ty, v)),
                         ("result", "fn h@«T»(t: T) T = t\n", "x := h@(h@(%s))\nBODY" % v), ("array", "fn h@«T»(t: T) []T = [t, t]\n", "x := h@(%s)[1]\nBODY" % v), ("option", "", "x := Some(%s).map(fn(z: %s) %s = z).orElse(%s)\nBODY" % (v, ty, ty, v)), ("list", "", "toList([%s]).foreach(fn(x: %s) {\nBODY\n})" % (v, ty)), ("concrete", "fn h@«A, B»(x: %s, aa: A, bb: B) {\nBODY\n}\n" % ty, "h@(%s, 1, \"s\")" % v)):
            for pl in places.PLACES:
                yield places.build(Case, "read " + nm, t, pl, d, b)


def main():
    c = Check("C18", "model_checking",
              "model: a value of type t is built, passed through a generic declaration and taken apart again along the structure of t. Explored: every generic declaration of a shared set (functions, structs, enums, closures, recursion, library) x every type argument up to nesting depth 2 (thorough: 3), all pairs of types for two-parameter declarations, all pairs of types at every binding position (accepted exactly when equal), opaque use of type parameters, every type argument list length, inference of each result type form",
              ["a bare generic type name without type arguments, and overlapping generic overloads, are not specified"])
    c.prelude = PRE
    c.run_cases("depth 0-1", matrix(BASE + T1), batch=150)
    keep = {"idn explicit", "wrap", "struct write", "swap", "app to", "comp idn", "cell", "fill", "opt map", "enum two l", "nst", "mut", "list", "six", "late", "tree", "chain", "library"}
    c.run_cases("depth 2", matrix(T2), batch=100)
    c.run_cases("pairs", pairs(BASE + (T1 if c.thorough else T1[::2])), batch=150)
    if c.thorough:
        T3 = layer(T2, [])
        c.run_cases("depth 3", matrix(T3, lambda n: n in keep), batch=80)
        c.run_cases("pairs of depth 2", pairs(BASE[:1] + T2[::9]), batch=100)
    small = BASE[:3] + T1[:8] + [("bx", ("int",)), ("bx", ("string",)), ("two", ("int",), ("string",)), ("two", ("string",), ("int",)), ("fn", ("int",), ("int",)), ("fn", ("string",), ("int",)), ("fn", ("int",), ("string",))]
    c.run_cases("rejects", rejects(list(dict.fromkeys(small)) if not c.thorough else BASE + T1))
    c.run_cases("near types", rejects([], list(dict.fromkeys(nearly()))))
    c.run_cases("function types", fntypes(BASE + [("bx", ("int",)), ("arr", ("string",)), ("fn0", ("int",))] + (T1[::5] if c.thorough else [])), batch=150)
    c.run_cases("bodies", bodies())
    c.run_cases("explicit", explicit(c.thorough))
    c.run_cases("notations", notations(), batch=60)
    c.run_cases("permuted", permuted(c.thorough), batch=40)
    c.run_cases("unbound", unbound())
    c.run_cases("patterns", patterns(c.thorough), batch=40)
    c.run_cases("members", members(c.thorough), batch=30)
    c.run_cases("functions", functions(c.thorough), batch=20)
    c.run_cases("deep", deep(c.thorough), batch=30)
    c.run_cases("read", read(c.thorough), batch=100)
    c.finish()
