"""C04: control flow. Every statement tree up to a bound, under every outcome sequence ("tape") of its conditions."""
import itertools
from core import Case, Check

# kinds of compound statement: name -> number of blocks
KINDS = {"if": 1, "ifelse": 2, "ifelif": 2, "ifelifelse": 3, "while": 1, "forinc": 1, "fordec": 1, "forarr": 1, "match": 2}


def forests(n, kinds, depth=9):
    """Every sequence of trees with n compound nodes in total. A tree is (kind, [forest per block])."""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for t in tree(first, kinds, depth):
            for rest in forests(n - first, kinds, depth):
                yield (t,) + rest


def tree(n, kinds, depth):
    for k in kinds:
        b = KINDS[k]
        for split in splits(n - 1, b):
            for blocks in itertools.product(*[list(forests(s, kinds, depth - 1)) for s in split]):
                yield (k, blocks)


def splits(n, b):
    if b == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in splits(n - i, b - 1):
            yield (i,) + r


class Gen:
    """Emits the clara source and the equivalent Python source of one forest side by side."""

    def __init__(self, ret_at, value, bare=False, hollow=()):
        self.n = 0
        self.hollow = hollow
        self.bare = bare
        self.block = 0
        self.vars = 0
        self.ret_at, self.value = ret_at, value

    def ev(self, py, cl, ind):
        self.n += 1
        py.append("%sT(%d)" % (ind, self.n))
        cl.append("t.ev@(%d)" % self.n)

    def var(self):
        self.vars += 1
        return "i%d" % self.vars

    def blk(self, forest, py, cl, ind):
        me = self.block
        self.block += 1
        if me in self.hollow:
            py.append("%spass" % ind)
        else:
            self.ev(py, cl, ind)
        for t in forest:
            self.tree(t, py, cl, ind)
            if not self.bare and me not in self.hollow:
                self.ev(py, cl, ind)
        if me in self.ret_at:
            if self.value:
                py.append("%sreturn %d" % (ind, 500 + me))
                cl.append("return %d" % (500 + me))
            else:
                py.append("%sreturn" % ind)
                cl.append("return")

    def tree(self, t, py, cl, ind):
        k, bs = t
        i2 = ind + " "
        if k in ("if", "ifelse", "ifelif", "ifelifelse"):
            py.append("%sif C():" % ind)
            cl.append("if t.next@() {")
            self.blk(bs[0], py, cl, i2)
            if k in ("ifelif", "ifelifelse"):
                py.append("%selif C():" % ind)
                cl.append("} elseif t.next@() {")
                self.blk(bs[1], py, cl, i2)
            if k in ("ifelse", "ifelifelse"):
                py.append("%selse:" % ind)
                cl.append("} else {")
                self.blk(bs[-1], py, cl, i2)
            cl.append("}")
        elif k == "while":
            py.append("%swhile C():" % ind)
            cl.append("while t.next@() {")
            self.blk(bs[0], py, cl, i2)
            cl.append("}")
        elif k in ("forinc", "fordec", "forarr"):
            v = self.var()
            h, p = {"forinc": ("1 .. 3", "(1, 2)"), "fordec": ("3 .. 1", "(2, 1)"), "forarr": ("[7, 9]", "(7, 9)")}[k]
            py.append("%sfor %s in %s:" % (ind, v, p))
            cl.append("for %s in %s {" % (v, h))
            if self.block not in self.hollow:
                py.append("%sT(%s + 1000)" % (i2, v))
                cl.append("t.ev@(%s + 1000)" % v)
            self.blk(bs[0], py, cl, i2)
            cl.append("}")
        else:
            py.append("%sif C():" % ind)
            cl.append("match t.pick@() {\ncase Pa@(x):")
            if self.block not in self.hollow:
                py.append("%sT(2041)" % i2)
                cl.append("t.ev@(x + 2000)")
            self.blk(bs[0], py, cl, i2)
            py.append("%selse:" % ind)
            cl.append("case Pb@(x, y):")
            if self.block not in self.hollow:
                py.append("%sT(3025)" % i2)
                cl.append("t.ev@((x * y) + 3000)")
            self.blk(bs[1], py, cl, i2)
            cl.append("}")


DECL = """struct tape@ { bits: int pos: int }
enum pk@ { Pa@(x: int) Pb@(x: int, y: int) }
fn next@(t: tape@) bool {
r := ((t.bits >> t.pos) & 1) == 1
t.pos = t.pos + 1
return r
}
fn pick@(t: tape@) pk@ = t.next@() ? Pa@(41) : Pb@(5, 5)
fn ev@(t: tape@, k: int) { printf("%d ", k) }
"""


class Tape:
    def __init__(self, bits):
        self.bits, self.out, self.pos = bits, [], 0

    def C(self):
        self.pos += 1
        r = self.bits & 1
        self.bits >>= 1
        return r

    def T(self, k):
        self.out.append(k)


def nblocks(forest):
    return 1 + sum(nblocks(b) for t in forest for b in t[1])


def show(f):
    return "".join("%s[%s]" % (k, "|".join(show(b) for b in bs)) for k, bs in f)


def terminates(forest, rets, ids):
    """does the block end in a statement after which nothing can follow? ids yields block numbers in source order"""
    me = next(ids)
    last = False
    for k, bs in forest:
        ts = [terminates(b, rets, ids) for b in bs]
        last = k in ("ifelse", "ifelifelse", "match") and all(ts)
    return me in rets or last


def build(forest, ret_at, value, anon, L, bare=False, hollow=()):
    ret_at = frozenset() if ret_at is None else frozenset([ret_at]) if isinstance(ret_at, int) else frozenset(ret_at)
    g = Gen(ret_at, value, bare, hollow)
    py, cl = ["def f(C, T):"], []
    g.blk(forest, py, cl, " ")
    if value and not (terminates(forest, ret_at, itertools.count()) if bare else 0 in ret_at):
        py.append(" return 99")
        cl.append("return 99")
    ns = {}
    exec("\n".join(py), ns)
    exp = []
    steps = 0
    for bits in range(1 << L):
        t = Tape(bits)
        r = ns["f"](t.C, t.T)
        line = "".join("%d " % x for x in t.out)
        steps += len(t.out)
        exp.append(line + ("=%s" % r if value else "=0") + (" %d" % t.pos if hollow else ""))
    src = "\n".join(cl)
    rt = " int" if value else ""
    if anon:
        d = DECL
        setup = "g := fn(t: tape@)%s {\n%s\n}\n" % (rt, src)
        call = "g(t)"
    else:
        d = DECL + "fn f@(t: tape@)%s {\n%s\n}\n" % (rt, src)
        setup = ""
        call = "f@(t)"
    body = setup + "b := 0\nwhile b < %d {\nt := Tape@(b, 0)\n%s\nb = b + 1\n}" % (
        1 << L, ("r := %s\nprintf(\"=%%dP\", r)" % call if value else "%s\nprintf(\"=0P\")" % call).replace("P", "\\n") if not hollow else ("r := %s\nprintf(\"=%%d %%d\\n\", r, t.pos)" if value else "%s\nprintf(\"=0 %%d\\n\", t.pos)") % call)
    key = "tree %s ret=%s value=%s anon=%s" % (show(forest), sorted(ret_at), value, anon) + (" bare" if bare else "") + (" hollow=%s" % sorted(hollow) if hollow else "")
    return Case(key, d, body, exp, steps=steps, states=steps + (1 << L))


def all_trees(n, L, kinds=None, rets=True, anons=(False,), values=(False, True)):
    for f in forests(n, kinds or list(KINDS)):
        nb = nblocks(f)
        for ret in [None] + (list(range(nb)) if rets else []):
            for value in values:
                if ret == 0 and not value:
                    continue
                for anon in anons:
                    yield build(f, ret, value, anon, L)


def bare_trees(n, L, kinds=None, values=(False, True), anons=(False,)):
    """as all_trees but nothing follows a compound statement in its block and any set of blocks returns"""
    for f in forests(n, kinds or list(KINDS)):
        nb = nblocks(f)
        for m in range(1 << nb):
            ret = [i for i in range(nb) if m >> i & 1]
            for value in values:
                for anon in anons:
                    yield build(f, ret, value, anon, L, bare=True)


def hollow_trees(n, L, kinds=None):
    """as all_trees with every set of blocks left without statements of their own: their conditions are evaluated all the same"""
    for f in forests(n, kinds or list(KINDS)):
        nb = nblocks(f)
        for m in range(1, 1 << nb):
            h = frozenset(i for i in range(nb) if m >> i & 1)
            yield build(f, None, True, False, L, hollow=h)
            yield build(f, None, False, bool(m & 2), L, bare=True, hollow=h)


def ranges():
    bounds = [-3, -1, 0, 1, 2, 5]
    for a in bounds:
        for b in bounds:
            for form in ("ll", "vl", "lv", "vv", "ee", "vz", "field", "call"):
                lits = form == "ll"
                if (form == "vl" and b <= 0) or (form == "lv" and a < 0) or (form == "vz" and b != 0):
                    continue
                if not lits and form != "vz" and a > b:
                    continue  # only ranges known to decrease are specified
                if form == "vz" and a < 0:
                    continue
                dec = (lits and a > b) or form == "vz"
                seq = list(range(a - 1, b - 1, -1)) if dec else list(range(a, b))
                src = {"ll": "%d .. %d" % (a, b), "vl": "x .. %d" % b, "lv": "%d .. y" % a, "vv": "x .. y", "ee": "(x + 1) - 1 .. y * 1", "vz": "x .. 0",
                       "field": "s.a .. s.b", "call": "id@(x) .. id@(y)"}[form]
                d = "struct s@ { a: int b: int }\nfn id@(x: int) int = x\n"
                pre = "x := %d\ny := %d\ns := S@(x, y)\nn := 0\n" % (a, b)
                yield Case("range %s %d %d" % (form, a, b), d, pre + "for i in %s {\nprintln(i)\nn = n + 1\n}\nprintln(n)\nprintln(x + y)" % src, [str(i) for i in seq] + [str(len(seq)), str(a + b)])
                yield Case("range-anon %s %d %d" % (form, a, b), d, pre + "f := fn() int {\nk := 0\nfor i in %s {\nprintln(i)\nk = k + 1\n}\nreturn k\n}\nprintln(f())" % src, [str(i) for i in seq] + [str(len(seq))])
    for a in range(0, 7):
        yield Case("range length %d" % a, "", "q := array(%d, 7)\nfor i in 0 .. q.length {\nprintln(i)\n}\nfor i in q.length .. 0 {\nprintln(i)\n}" % a, [str(i) for i in range(a)] + [str(i) for i in range(a - 1, -1, -1)])
        for b in range(0, 5):
            ex = ["%d" % (i * 10 + j) for i in range(a) for j in range(i, b)]
            yield Case("range nest %d %d" % (a, b), "", "for i in 0 .. %d {\nfor j in i .. %d {\nif j < %d { println((i * 10) + j) }\n}\n}" % (a, max(b, 1), b), ex)
            ex = ["%d" % (i * 10 + j) for i in range(a - 1, -1, -1) for j in range(b)]
            yield Case("range nest dec %d %d" % (a, b), "", "p := %d\nfor i in p .. 0 {\nfor j in 0 .. %d {\nprintln((i * 10) + j)\n}\n}" % (a, b), ex)
    # every form of start, down to literal zero; and up from and to the same forms
    FORMS = {"var": "x", "neg": "-m", "neg neg": "-(-x)", "paren": "(x)", "minus": "x - 0", "zero minus": "0 - m", "call": "id@(x)", "dot call": "x.id@()", "field": "s.a", "elem": "q[0]", "nested elem": "q2[1][0]", "ternary": "(x > 100 ? y : x)", "product": "m * -1", "bits": "x | 0", "shift": "x << 0", "closure": "(fn() int = x)()", "value call": "f(x)", "bnot": "~(~x)", "neg field": "-s.b", "neg call": "-id@(m)", "neg elem": "-q[1]", "length": "array(x, 0).length", "element call": "fs[0](x)", "payload": "v", "captured": "x"}
    d = "struct s@ { a: int b: int }\nfn id@(x: int) int = x\n"
    for a in (0, 1, 3):
        for nm, e in FORMS.items():
            for end in ("0", "0x0", "00", "-0"):
                pre = "x := %d\ny := 77\nm := -x\ns := S@(x, m)\nq := [x, m]\nq2 := [[9], [x]]\nf := fn(i: int) int = i\nfs := [f]\nn := 0\n" % a
                loop = "for i in %s .. %s {\nprintln(i)\nn = n + 1\n}" % (e, end)
                if nm == "payload":
                    loop = "match Some(x) {\ncase Some(v):\n%s\ncase None():\n}" % loop
                if nm == "captured":
                    loop = "g := fn() {\n%s\n}\ng()\nn = %d" % (loop, a)
                yield Case("range to zero %s %s %d" % (nm, end, a), d, pre + loop + "\nprintln(n)\nprintln(x + y)", [str(i) for i in range(a - 1, -1, -1)] + [str(a), str(a + 77)])
            loop = "for i in 0 .. %s {\nprintln(i)\n}\nfor i in %s .. 5 {\nprintln(i)\n}\nfor i in %s .. y {\nprintln(i)\n}\n" % (e, e, e)
            if nm == "payload":
                loop = "match Some(x) {\ncase Some(v):\n%s\ncase None():\n}" % loop
            if nm == "captured":
                loop = "g := fn() {\n%s\n}\ng()" % loop
            yield Case("range up %s %d" % (nm, a), d, pre.replace("77", "4") + loop, [str(i) for i in range(a)] + [str(i) for i in range(a, 5)] + [str(i) for i in range(a, 4)])
    # literal decreasing ranges with unusual spellings
    for a, b in itertools.product((-16, -11, -10, -2, -1, 0, 1, 2, 9, 10, 11, 16, 100), repeat=2):
        hx = lambda v: "%s0x%x" % ("-" if v < 0 else "", abs(v))
        for sa, sb in (("%d" % a, "%d" % b), (hx(a), "%d" % b), ("%d" % a, hx(b)), (hx(a), hx(b))):
            seq = list(range(a - 1, b - 1, -1)) if a > b else list(range(a, b))
            yield Case("range lit %s %s" % (sa, sb), "", "for i in %s .. %s { println(i) }" % (sa, sb), [str(i) for i in seq])


ELEMS = {"int": (["3", "1", "-4", "1", "5"], lambda v: "println(%s)" % v, ["3", "1", "-4", "1", "5"]),
         "bool": (["true", "false", "true", "true", "false"], lambda v: "println(%s)" % v, ["true", "false", "true", "true", "false"]),
         "string": (['"a"', '"bb"', '""', '"dddd"', '"e"'], lambda v: "println(%s.length)" % v, ["1", "2", "0", "4", "1"]),
         "struct": (["Sx@(1, 2)", "Sx@(3, 4)", "Sx@(5, 6)", "Sx@(7, 8)", "Sx@(9, 10)"], lambda v: "println((%s.a * 100) + %s.b)" % (v, v), ["102", "304", "506", "708", "910"]),
         "fn": (["fn(x: int) int = x + 1", "fn(x: int) int = x * 2", "fn(x: int) int = x - 3", "inc@", "inc@"], lambda v: "println(%s(10))" % v, ["11", "20", "7", "15", "15"]),
         "arr": (["[1]", "[2, 3]", "[4, 5, 6]", "[7]", "[8, 9]"], lambda v: "for y in %s { println(y) }" % v, None),
         "enum": (["Ea@(1)", "Eb@()", "Ea@(2)", "Eb@()", "Ea@(3)"], lambda v: "match %s {\ncase Ea@(n): println(n)\ncase Eb@(): println(0 - 1)\n}" % v, ["1", "-1", "2", "-1", "3"])}
EDECL = "struct sx@ { a: int b: int }\nenum ex@ { Ea@(n: int) Eb@() }\nfn inc@(x: int) int = x + 5\n"
ETYPE = {"int": "int", "bool": "bool", "string": "string", "struct": "sx@", "fn": "fn(int) int", "arr": "[]int", "enum": "ex@"}


def arrays():
    for ty, (lits, use, outs) in ELEMS.items():
        for n in range(0, 6):
            if outs is None:
                o = [x for a in lits[:n] for x in a.strip("[]").split(", ")]
            else:
                o = outs[:n]
            arr = "[%s]" % ", ".join(lits[:n]) if n else None
            T = ETYPE[ty]
            d = EDECL + "fn mk@() []%s {\nprintln(\"mk\")\nreturn %s\n}\nstruct hold@ { q: []%s }\nfn par@(q: []%s) { for e in q { %s } }\n" % (T, arr or "array(0, %s)" % lits[0], T, T, use("e"))
            src = arr or "array(0, %s)" % lits[0]
            forms = {"lit": ("", src, []), "var": ("q := %s\n" % src, "q", []), "call": ("", "mk@()", ["mk"]), "field": ("h := Hold@(%s)\n" % src, "h.q", []),
                     "elem": ("m := [%s, %s]\n" % (src, src), "m[1]", []), "tern": ("q := %s\nb := true\n" % src, "(b ? q : mk@())", []), "paren": ("q := %s\n" % src, "(q)", [])}
            for f, (pre, e, ev) in forms.items():
                yield Case("for %s %d %s" % (ty, n, f), d, pre + "k := 0\nfor e in %s {\n%s\nk = k + 1\n}\nprintln(k)" % (e, use("e")), ev + o + [str(n)])
                yield Case("for2 %s %d %s" % (ty, n, f), d, pre + "k := 0\nfor z in 0 .. 2 {\nfor e in %s {\n%s\nk = k + 1\n}\n}\nprintln(k)" % (e, use("e")), (ev + o) * 2 + [str(2 * n)])
            yield Case("for %s %d closure" % (ty, n), d, "q := %s\nf := fn() {\nfor e in q {\n%s\n}\n}\nf()\nf()" % (src, use("e")), o * 2)
            yield Case("for %s %d param" % (ty, n), d, "par@(%s)" % src, o)
            if n:
                # replacing the variable inside the body does not affect the running loop
                yield Case("for %s %d reassign" % (ty, n), d, "q := %s\nfor e in q {\nq = [%s, %s, %s]\n%s\n}\nprintln(q.length)" % (src, lits[4], lits[3], lits[4], use("e")), o + ["3"])
                for stop in range(n):
                    oo = o[:stop + 1] if outs is not None else [x for a in lits[:stop + 1] for x in a.strip("[]").split(", ")]
                    d2 = d + "fn st@() int {\nk := 0\nfor e in mk@() {\n%s\nif k == %d { return k + 50 }\nk = k + 1\n}\nreturn -1\n}\n" % (use("e"), stop)
                    yield Case("for %s %d return %d" % (ty, n, stop), d2, "println(st@())", ["mk"] + oo + [str(stop + 50)])
    for n in range(0, 5):
        for m in range(0, 5):
            ex = [str(a * 10 + b) for a in range(n) for b in range(m)]
            yield Case("for nest %d %d" % (n, m), "fn up@(n: int) []int {\na := array(n, 0)\nfor i in 0 .. n { a[i] = i }\nreturn a\n}\n", "for x in up@(%d) {\nfor y in up@(%d) {\nprintln((x * 10) + y)\n}\n}" % (n, m), ex)


SUBJ = {  # how the array comes to be: (declarations, set up for array A, expression, replaced by B)
    "var": ("", "q := A\n", "q", "q = B"), "param": None, "field": ("struct h@ { k: int q: []int }\n", "h := H@(1, A)\n", "h.q", "h.q = B"), "field of alias": ("struct h@ { k: int q: []int }\n", "h := H@(1, A)\ng := h\n", "h.q", "g.q = B"),
    "whole struct": ("struct h@ { k: int q: []int }\n", "h := H@(1, A)\n", "h.q", "h = H@(2, B)"), "nested field": ("struct h@ { k: int q: []int }\nstruct g@ { h: h@ }\n", "g := G@(H@(1, A))\n", "g.h.q", "g.h.q = B"), "inner struct": ("struct h@ { k: int q: []int }\nstruct g@ { h: h@ }\n", "g := G@(H@(1, A))\n", "g.h.q", "g.h = H@(3, B)"),
    "element": ("", "m := [A, [0]]\n", "m[0]", "m[0] = B"), "outer array": ("", "m := [A, [0]]\n", "m[0]", "m = [B, [1]]"), "index": ("", "m := [A, B]\nn := 0\n", "m[n]", "n = 1"), "nested element": ("", "m := [[[0]], [[1], A]]\n", "m[1][1]", "m[1][1] = B"), "field element": ("struct h@ { q: [][]int }\n", "h := H@([A])\n", "h.q[0]", "h.q[0] = B"), "element field": ("struct h@ { q: []int }\n", "m := [H@(A)]\n", "m[0].q", "m[0].q = B"),
    "ternary": ("", "q := A\nb := true\n", "(b ? q : B)", "b = false"), "call": ("struct h@ { q: []int }\nfn get@(h: h@) []int = h.q\n", "h := H@(A)\n", "get@(h)", "h.q = B"), "dot call": ("struct h@ { q: []int }\nfn get@(h: h@) []int = h.q\n", "h := H@(A)\n", "h.get@()", "h.q = B"), "call field": ("struct h@ { q: []int }\nfn self@(h: h@) h@ = h\n", "h := H@(A)\n", "self@(h).q", "h.q = B"),
    "value call": ("", "q := A\nf := fn() []int = q\n", "f()", "f = fn() []int = B"), "field call": ("struct h@ { f: fn() []int }\n", "q := A\nh := H@(fn() []int = q)\n", "h.f()", "h.f = fn() []int = B"), "generic field": ("struct h@«T» { q: T }\n", "h := H@(A)\n", "h.q", "h.q = B"), "paren": ("", "q := A\n", "(q)", "q = B"),
}


def subjects():
    """the array of a for loop is evaluated once: whatever happens to the place it was read from, the loop goes on over that array"""
    for nm, v in SUBJ.items():
        for n, m, when in itertools.product((1, 2, 3, 4), (0, 1, 2, 3, 5), (0, 1, 2)):
            A = "[%s]" % ", ".join(str(i + 1) for i in range(n))
            B = "array(%d, 70)" % m
            if when >= n:
                continue
            for ctx in ("main", "closure", "block"):
                for where in ("first", "last"):
                    if v is None:
                        d, pre, e, rep = "", "", "q", "q = B"
                    else:
                        d, pre, e, rep = v
                    step = "if k == %d {\n%s\n}\n" % (when, rep.replace("B", B))
                    use = "println(e)\n"
                    loop = "k := 0\nfor e in %s {\n%s%sk = k + 1\n}\nprintln(k)\n" % (e.replace("B", B), *((step, use) if where == "first" else (use, step)))
                    if ctx == "closure":
                        loop = "z := fn() {\n%s}\nz()\n" % loop
                    if ctx == "block":
                        loop = "if true {\nfor w in 0 .. 1 {\n%s}\n}\n" % loop
                    if v is None:
                        d, body = "fn par@(q: []int) {\n%s}\n" % loop, "par@(%s)" % A
                    else:
                        body = pre.replace("A", A).replace("B", B) + loop
                    yield Case("subject %s %d by %d at %d %s %s" % (nm, n, m, when, ctx, where), d, body, [str(i + 1) for i in range(n)] + [str(n)])


def whiles():
    for n in range(0, 12):
        yield Case("while %d" % n, "", "i := 0\nwhile i < %d {\nprintln(i)\ni = i + 1\n}\nprintln(i)" % n, [str(i) for i in range(n)] + [str(n)])
        for s in (1, 2, 3):
            yield Case("while down %d %d" % (n, s), "", "i := %d\nwhile i > 0 and not (i == 100) {\nprintln(i)\ni = i - %d\n}\nprintln(i)" % (n, s), [str(i) for i in range(n, 0, -s)] + [str(n - s * len(range(n, 0, -s)))])
        # 3n+1 with nested branches
        x, seq = n + 1, []
        while x != 1:
            seq.append(x)
            x = x // 2 if x % 2 == 0 else 3 * x + 1
        yield Case("collatz %d" % n, "", "x := %d\nwhile not (x == 1) {\nprintln(x)\nif (x & 1) == 0 { x = x / 2 } else { x = (x * 3) + 1 }\n}" % (n + 1), [str(i) for i in seq])
    yield Case("while big", "", "i := 0\ns := 0\nwhile i < 300000 {\ns = s + i\ni = i + 1\n}\nprintln(s)", [str(300000 * 299999 // 2)])


def conds():
    """Long if/elseif chains with every selected index, and conditions evaluated exactly as far as needed."""
    for n in range(1, 9):
        for els in (False, True):
            for sel in range(n + 1):
                src, exp = [], []
                for i in range(n):
                    src.append("%s c@(%d, x == %d) {\nprintln(%d)\n}" % ("if" if i == 0 else " elseif", i, i, 100 + i))
                if els:
                    src.append(" else {\nprintln(999)\n}")
                for i in range(n):
                    exp.append(str(i))
                    if i == sel:
                        exp.append(str(100 + i))
                        break
                else:
                    if els:
                        exp.append("999")
                yield Case("chain %d %s %d" % (n, els, sel), "fn c@(k: int, b: bool) bool {\nprintln(k)\nreturn b\n}\n", "x := %d\n%s\nprintln(x)" % (sel, "".join(src)), exp + [str(sel)])
                d = "fn r@(x: int) int {\n%s%s}\n" % ("".join(("if" if i == 0 else " elseif") + " x == %d {\nreturn %d\n}" % (i, 100 + i) for i in range(n)), " else {\nreturn 999\n}\n" if els else "\nreturn 998\n")
                yield Case("rchain %d %s %d" % (n, els, sel), d, "println(r@(%d))" % sel, [str(100 + sel) if sel < n else ("999" if els else "998")])


CONST = {"true": True, "false": False, "c@(K, true)": True, "c@(K, false)": False, "not true": False, "not false": True, "1 == 1": True, "2 < 1": False, "v": True, "w": False, "(true)": True, "false or true": True, "true and w": False}


def constants():
    """Chains whose conditions are constants, variables or calls in every combination: constants select like any other condition."""
    short = list(CONST)
    few = ["true", "false", "c@(K, true)", "c@(K, false)"]
    d = "fn c@(k: int, b: bool) bool {\nprintln(k)\nreturn b\n}\n"
    def run(conds, els):
        out = []
        for i, x in enumerate(conds):
            if "c@" in x:
                out.append(str(i))
            if CONST[x]:
                return out, str(100 + i)
        return out, "999" if els else None
    def chain(conds, els, stmt):
        s = "".join("%s %s {\n%s\n}" % ("if" if i == 0 else " elseif", x.replace("K", str(i)), stmt % (100 + i)) for i, x in enumerate(conds))
        return s + (" else {\n%s\n}" % (stmt % 999) if els else "")
    # chains are gathered into one program per length and first condition
    for n, al in ((1, short), (2, short), (3, few + ["v", "w", "not false"]), (4, few)):
        for first in al:
            fs, body, exp = d, "", []
            for k, rest in enumerate(itertools.product(al, repeat=n - 1)):
                conds = (first,) + rest
                for els in (False, True):
                    out, sel = run(conds, els)
                    nm = "%d%s" % (k, "e" if els else "n")
                    fs += "fn p%s@(v: bool, w: bool) {\n%s\nprintln(7)\n}\n" % (nm, chain(conds, els, "println(%d)"))
                    fs += "fn r%s@(v: bool, w: bool) int {\n%s\nreturn 998\n}\n" % (nm, chain(conds, els, "return %d"))
                    body += "p%s@(true, false)\nprintln(r%s@(true, false))\n" % (nm, nm)
                    exp += out + ([sel] if sel else []) + ["7"] + out + [sel or "998"]
                    if els:
                        # nothing follows
                        fs += "fn z%s@(v: bool, w: bool) int {\n%s\n}\n" % (nm, chain(conds, els, "return %d"))
                        fs += "fn y%s@(v: bool, w: bool) {\n%s\n}\n" % (nm, chain(conds, els, "println(%d)"))
                        body += "println(z%s@(true, false))\ny%s@(true, false)\n" % (nm, nm)
                        exp += out + [sel] + out + [sel]
            yield Case("constants %d %s" % (n, first), fs, body, exp)
    for x, val in CONST.items():
        cx = x.replace("K", "5")
        tr = ["5"] if "c@" in x else []
        yield Case("constant while " + x, d + "fn f@(v: bool, w: bool) int {\nn := 0\nwhile %s {\nn = n + 1\nif n == 3 { return n }\n}\nprintln(8)\nreturn 9\n}\n" % cx, "println(f@(true, false))",
                   (tr * 3 + ["3"]) if val else tr + ["8", "9"])
        yield Case("constant while nested " + x, d + "fn f@(v: bool, w: bool) int {\nfor i in 0 .. 2 {\nwhile %s {\nprintln(i)\nif i == 1 { return 4 }\ni = 1\n}\nprintln(8)\n}\nreturn 9\n}\n" % cx, "println(f@(true, false))",
                   (tr + ["0"] + tr + ["1", "4"]) if val else (tr + ["8"]) * 2 + ["9"])
        yield Case("constant ternary " + x, d, "v := true\nw := false\nprintln((%s) ? 1 : 2)\nprintln((%s) ? c@(6, true) : c@(7, false))\nprintln(((%s) ? 3 : 4) + ((%s) ? 10 : 20))" % (cx, cx, cx, cx),
                   tr + ["1" if val else "2"] + tr + (["6", "true"] if val else ["7", "false"]) + tr * 2 + ["13" if val else "24"])


def btrees(n):
    """boolean expressions with n leaves: tape readings, comparisons of readings, variables and constants"""
    if n == 1:
        for l in ("c", "lt", "eq", "v", "w", "T", "F"):
            yield (l,)
        return
    for a in range(1, n):
        for x in btrees(a):
            for y in btrees(n - a):
                for o in ("and", "or"):
                    yield (o, x, y)
    if n == 3:
        for x, y, z in itertools.product([("c",), ("v",), ("T",)], [("c",), ("w",)], [("c",), ("F",)]):
            yield ("?", x, y, z)


def negs(t):
    """the expression itself and with one of its nodes negated"""
    yield t
    yield ("not", t)
    for i in range(1, len(t)):
        if t[0] in ("and", "or", "?"):
            yield t[:i] + (("not", t[i]),) + t[i + 1:]


def bsrc(t):
    k = t[0]
    if k == "not":
        return "not (%s)" % bsrc(t[1])
    if k in ("and", "or"):
        return "(%s) %s (%s)" % (bsrc(t[1]), k, bsrc(t[2]))
    if k == "?":
        return "(%s) ? (%s) : (%s)" % tuple(map(bsrc, t[1:]))
    return {"c": "t.nx@()", "lt": "t.ni@() < 1", "eq": "1 == t.ni@()", "v": "v", "w": "w", "T": "true", "F": "false"}[k]


def bval(t, st):
    k = t[0]
    if k == "not":
        return not bval(t[1], st)
    if k in ("and", "or"):
        a = bval(t[1], st)
        b = bval(t[2], st)
        return (a and b) if k == "and" else (a or b)
    if k == "?":
        return bval(t[2], st) if bval(t[1], st) else bval(t[3], st)
    if k in ("v", "w", "T", "F"):
        return k in ("v", "T")
    b = st["bits"] >> st["pos"] & 1
    st["pos"] += 1
    st["out"].append("%d " % st["pos"])
    return not b if k == "lt" else bool(b)


def leaves(t):
    return 1 if len(t) == 1 else sum(leaves(x) for x in t[1:])


def reads(t):
    return int(t[0] in ("c", "lt", "eq")) if len(t) == 1 else sum(reads(x) for x in t[1:])


CTREE = {
    # statement with the condition C; its effect on the trace given the value of the condition
    "if": ("if C { t.ev@(91) }", lambda c, o: o.append("91 ") if c() else None), "if else": ("if C { t.ev@(91) } else { t.ev@(92) }", lambda c, o: o.append("91 " if c() else "92 ")),
    "elseif": ("if t.pos == 99 { t.ev@(93) } elseif C { t.ev@(91) } else { t.ev@(92) }", lambda c, o: o.append("91 " if c() else "92 ")), "elseif last": ("if t.pos == 99 { t.ev@(93) } elseif C { t.ev@(91) }", lambda c, o: o.append("91 ") if c() else None),
    "while": ("k := 0\nwhile C {\nt.ev@(91)\nk = k + 1\nif k == 2 { return 5 }\n}", "while"), "ternary": ("t.ev@(C ? 91 : 92)", lambda c, o: o.append("91 " if c() else "92 ")),
    "variable": ("q := C\nif q { t.ev@(91) }", lambda c, o: o.append("91 ") if c() else None), "argument": ("t.eb@(C)", lambda c, o: o.append("91 " if c() else "92 ")), "negated": ("if not (C) { t.ev@(91) }", lambda c, o: None if c() else o.append("91 ")),
    "statement": ("C", lambda c, o: c()), "for": ("for i in 0 .. (C ? 2 : 1) { }", "for"),
}


def ctrees(n, ctxs):
    """a condition of every shape in every statement, under every outcome of its parts"""
    d = "struct tp@ { bits: int pos: int }\nfn nx@(t: tp@) bool {\nr := ((t.bits >> t.pos) & 1) == 1\nt.pos = t.pos + 1\nprintf(\"%d \", t.pos)\nreturn r\n}\nfn ni@(t: tp@) int = t.nx@() ? 1 : 0\nfn ev@(t: tp@, k: int) { printf(\"%d \", k) }\nfn eb@(t: tp@, b: bool) { printf(\"%d \", b ? 91 : 92) }\n"
    for k in range(1, n + 1):
        for base in btrees(k):
            if k == 3 and base[0] != "?" and sum(x[0] in ("T", "F", "lt", "eq", "w") for x in flat(base)) > 1:
                continue
            for t in negs(base) if k < 3 else [base]:
                r = reads(t)
                for cn in ctxs:
                    st, eff = CTREE[cn]
                    if eff == "for" and r != 1 or cn == "statement" and t[0] in ("T", "F", "v", "w"):
                        continue
                    L = 2 * r if cn == "while" else r
                    if eff == "for":
                        L = 3
                    exp = []
                    for bits in range(1 << L):
                        s = {"bits": bits, "pos": 0, "out": []}
                        c = lambda: bval(t, s)
                        ret = 0
                        if eff == "while":
                            for j in range(2):
                                if not c():
                                    break
                                s["out"].append("91 ")
                            else:
                                ret = 5
                        elif eff == "for":
                            i = 0
                            while i < (2 if c() else 1):
                                i += 1
                        else:
                            eff(c, s["out"])
                        exp.append("".join(s["out"]) + "=%d" % ret)
                    body = "b := 0\nwhile b < %d {\nt := Tp@(b, 0)\nprintf(\"=%%d\\n\", f@(t, true, false))\nb = b + 1\n}" % (1 << L)
                    yield Case("cond %s: %s" % (cn, bsrc(t)), d + "fn f@(t: tp@, v: bool, w: bool) int {\n%s\nreturn 0\n}\n" % st.replace("C", "(%s)" % bsrc(t) if cn in ("ternary", "statement", "for") else bsrc(t), 1), body, exp, steps=sum(len(e) for e in exp))


def flat(t):
    return [t] if len(t) == 1 else [y for x in t[1:] for y in flat(x)]


def scale():
    """many iterations, long bodies, long chains, many cases and deep nesting"""
    for n in (100, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 200000):
        yield Case("scale while %d" % n, "", "i := 0\nk := 0\nwhile i < %d {\nk = k + (i & 3)\ni = i + 1\n}\nprintln(i)\nprintln(k)" % n, [str(n), str(sum(i & 3 for i in range(n)))])
        yield Case("scale range %d" % n, "", "k := 0\nfor i in 0 .. %d {\nk = k + (i & 7)\n}\nprintln(k)\nfor i in %d .. 0 {\nk = k + (i & 3)\n}\nprintln(k)" % (n, n), [str(sum(i & 7 for i in range(n))), str(sum((i & 7) + (i & 3) for i in range(n)))])
        yield Case("scale array %d" % n, "", "a := array(%d, 5)\na[%d] = 9\nk := 0\nc := 0\nfor e in a {\nk = k + e\nc = c + 1\n}\nprintln(k)\nprintln(c)" % (n, n - 1), [str(5 * n + 4), str(n)])
    for n in (9, 16, 33, 64, 65, 127, 128, 129, 200, 300):
        for sel in (0, 1, n // 2, n - 2, n - 1, n):
            yield Case("scale chain %d %d" % (n, sel), "fn r@(x: int) int {\n%s else {\nreturn -1\n}\n}\n" % "".join(("if" if i == 0 else " elseif") + " x == %d {\nreturn %d\n}" % (i, i * 3) for i in range(n)), "println(r@(%d))" % sel, [str(sel * 3 if sel < n else -1)])
    for n in (10, 20, 40, 64, 65, 100, 130):
        for k in ("if t {\n%s\n}", "while t {\n%s\nreturn\n}", "for i%d in 0 .. 1 {\n%s\n}", "for i%d in [1] {\n%s\n}", "if not t {\nprintln(8)\n} else {\n%s\n}", "if not t {\nprintln(8)\n} elseif t {\n%s\n}", "match Some(1) {\ncase None(): println(8)\ncase Some(v%d):\n%s\n}"):
            src = "println(7)"
            for j in range(n):
                src = k % ((j, src) if "%d" in k else src)
            yield Case("scale nest %d %s" % (n, k.split("{")[0].strip()), "fn r@(t: bool) {\n%s\n}\n" % src, "r@(true)\nprintln(6)", ["7", "6"])
    for n in (100, 500, 2000):
        yield Case("scale body %d" % n, "fn r@(n: int) int {\nk := 0\nfor i in 0 .. n {\n%s}\nreturn k\n}\n" % "".join("if (k & 1) == %d { k = k + %d } else { k = k + 1 }\n" % (j & 1, j) for j in range(n)), "println(r@(3))", [str(body(n))])


def body(n):
    k = 0
    for i in range(3):
        for j in range(n):
            k += j if (k & 1) == (j & 1) else 1
    return k


def main():
    c = Check("C04", "model_checking",
              "every statement tree with at most the stated number of compound statements, a return in every block, run under every outcome tape of its conditions; the event sequence is compared with the structured semantics (generated Python control flow)",
              ["an end bound is not changed while its range is iterated; ranges whose direction is not known from their bounds are only explored as increasing ones"])
    c.run_cases("conds", conds(), batch=150)
    c.run_cases("constants", constants(), batch=4)
    c.run_cases("condition trees", ctrees(3, list(CTREE) if c.thorough else ["if", "if else", "elseif", "while", "ternary", "for", "statement"]), batch=200)
    c.run_cases("scale", scale(), batch=20)
    c.run_cases("ranges", ranges(), batch=200)
    c.run_cases("arrays", arrays(), batch=100)
    c.run_cases("subjects", subjects(), batch=100)
    c.run_cases("whiles", whiles(), batch=50)
    c.run_cases("trees1", all_trees(1, 4, anons=(False, True)), batch=60)
    c.run_cases("trees2", all_trees(2, 5, anons=(False, True) if c.thorough else (False,)), batch=80)
    c.run_cases("bare1", bare_trees(1, 4, anons=(False, True)), batch=80)
    c.run_cases("bare2", bare_trees(2, 5 if c.thorough else 4), batch=80)
    c.run_cases("hollow1", hollow_trees(1, 4), batch=80)
    c.run_cases("hollow2", hollow_trees(2, 4, None if c.thorough else ["if", "ifelse", "ifelif", "while", "forarr", "match"]), batch=80)
    if c.thorough:
        c.run_cases("bare3", bare_trees(3, 5, kinds=["ifelse", "while", "match"], values=(False,)), batch=80)
    core = ["ifelse", "while", "forarr", "match", "fordec"]
    if c.thorough:
        c.run_cases("trees3", all_trees(3, 6, values=(False,)), batch=80)
        c.run_cases("trees4", all_trees(4, 6, kinds=["ifelse", "while", "forinc", "match"], rets=False, values=(False,)), batch=80)
    else:
        c.run_cases("trees3", all_trees(3, 5, kinds=core), batch=80)
    c.finish()
