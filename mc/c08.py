"""C08: unreachable objects are reclaimed, each block once. Counts live blocks through an instrumented allocator."""
import itertools
from core import Case, Check
import c07

X = """#[RawValues]
fn mcLive() int
#[RawValues]
fn mcPeak() int
#[RawValues]
fn mcResetPeak() nothing
"""


def base(lines):
    """All printed numbers equal."""
    nums = [int(x[1:]) for x in lines if x.startswith("=")]
    if len(nums) < 2:
        return "no counts printed"
    return None if len(set(nums)) == 1 else "live blocks before and after each run: %r (must all be equal)" % nums


def bounded(lines):
    """=live before, then (live, peak) after few and after many iterations."""
    n = [int(x[1:]) for x in lines if x.startswith("=")]
    if len(n) != 5:
        return "counts missing: %r" % n
    l0, l1, p1, l2, p2 = n
    if l1 != l0 or l2 != l0:
        return "live blocks before %d, after few iterations %d, after many %d: garbage was not reclaimed" % (l0, l1, l2)
    if p2 > p1 + 16:
        return "peak of live blocks grew from %d (few iterations) to %d (many iterations) although the live set is bounded" % (p1, p2)
    return None


def returns(types):
    """Every holding position of C07, in a function: once it has returned, nothing of it is left."""
    for t in types:
        d = c07.decl(t)
        for name, dd, body, exp in c07.positions(t):
            yield Case("return %s / %s" % (t, name), d + dd + "fn body@() {\n%s\n}\n" % body.replace("println(k@(", "show@(k@(").replace("println", "show@") + "fn show@(n: int) { }\nfn show@(b: bool) { }\nfn show@(s: string) { }\n",
                       "body@()\ngc()\nprintf(\"=%d\\n\", mcLive())\nbody@()\ngc()\nprintf(\"=%d\\n\", mcLive())\nbody@()\nbody@()\ngc()\nprintf(\"=%d\\n\", mcLive())", ["", "", ""], cmp=base)


def loops(types):
    """Garbage made in loops."""
    ctx = {
        "local": "for i in 0 .. n {\nx := mk@(i & 7)\n}", "reassigned": "x := mk@(0)\nfor i in 0 .. n { x = mk@(i & 7) }", "statement": "for i in 0 .. n { mk@(i & 7) }", "while": "i := 0\nwhile i < n {\nx := mk@(i & 7)\ny := x\ni = i + 1\n}",
        "argument": "for i in 0 .. n { k@(mk@(i & 7)) }", "element": "a := [mk@(0), mk@(1)]\nfor i in 0 .. n { a[i & 1] = mk@(i & 7) }", "field": "h := Hf@(mk@(0), 1)\nfor i in 0 .. n { h.o = mk@(i & 7) }",
        "newfield": "for i in 0 .. n { h := Hf@(mk@(i & 7), i) }", "array": "for i in 0 .. n { a := [mk@(1), mk@(i & 7)] }", "captured": "for i in 0 .. n {\nx := mk@(i & 7)\nf := fn() int = k@(x)\n}",
        "captured state": "x := mk@(0)\nf := fn(i: int) { x = mk@(i & 7) }\nfor i in 0 .. n { f(i) }", "option": "for i in 0 .. n { Some(mk@(i & 7)) }", "list": "for i in 0 .. n { [mk@(1), mk@(2)].toList().reverse() }",
        "map": "m := NewHashMap«int, %s»(fn(q: int) int = q, fn(p: int, q: int) bool = p == q)\nfor i in 0 .. n { m.put(i & 3, mk@(i & 7)) }\nfor i in 0 .. n { m.remove(i & 3) }",
        "for elem": "for i in 0 .. n {\nfor x in [mk@(i & 7), mk@(1)] { k@(x) }\n}", "match": "for i in 0 .. n {\nmatch Some(mk@(i & 7)) {\ncase Some(x): k@(x)\ncase None(): k@(mk@(1))\n}\n}", "ternary": "for i in 0 .. n {\nx := i > 3 ? mk@(i & 7) : mk@(1)\n}",
        "branch": "for i in 0 .. n {\nif (i & 1) == 0 {\nx := mk@(i & 7)\n} else {\ny := mk@(1)\nz := mk@(2)\n}\n}", "call result": "for i in 0 .. n {\nx := churn@(mk@(i & 7))\n}", "nested": "for i in 0 .. n {\nx := mk@(1)\nfor j in 0 .. 2 {\ny := mk@(j)\nx = y\n}\n}",
    }
    for t in types:
        ty = c07.T[t][0]
        for cn, src in ctx.items():
            d = c07.decl(t) + "struct hf@ { o: %s n: int }\nfn go@(n: int) {\n%s\n}\nfn rep@(n: int) {\nmcResetPeak()\ngo@(n)\np := mcPeak()\ngc()\nprintf(\"=%%d\\n=%%d\\n\", mcLive(), p)\n}\n" % (ty, src.replace("«int, %s»", "«int, %s»" % ty))
            yield Case("loop %s / %s" % (t, cn), d, "go@(1)\ngc()\nprintf(\"=%d\\n\", mcLive())\nrep@(6)\nrep@(60)", [""] * 5, cmp=bounded)


LIB = {
    "append": "\"a\".append(\"b\").append(n.toString())", "substring": "\"hello\".append(\"x\").Substring(1, 3)", "indexof": "\"hello\".append(\"x\").IndexOf(\"ox\")", "toString": "(n * 1000).toString()", "toBinary": "n.toBinary()",
    "bytes": "Bytes(30).set(1, 2)", "bytes toString": "Bytes(5).toString()", "buffer": "NewByteBuffer(0).append(\"abc\").append(\"def\").toString()", "array": "array(5, \"q\".append(\"r\"))", "option array": "array«int»(4)", "intArray": "intArray(9)",
    "stringArray": "stringArray(3, \"a\".append(\"\"))", "list map": "[1, 2, 3].toList().map(fn(x: int) string = x.toString()).foreach(fn(s: string) { })", "list remove": "[1, 2, 3].toList().remove(fn(x: int) bool = x == n)", "list find": "[1, 2, 3].toList().find(fn(x: int) bool = x == n)",
    "list reduce": "[1, 2, 3].toList().reduce(0, fn(a: int, b: int) int = a + b)", "option chain": "Some(n).map(fn(x: int) int = x + 1).filter(fn(x: int) bool = x > 2).peek(fn(x: int) { }).orElse(1)",
    "result": "Ok«int, string»(n).then(fn(x: int) result«int, string» = Err«int, string»(\"e\".append(\"f\"))).map(fn(x: int) int = x)", "describe": "Error(Some(\"p\".append(\"q\")), n).describe()", "open": "\"/nonexistent\".open()", "now": "Now().toMillis()",
    "map": "filled@(n).remove(3)", "map big": "filled@(n + 40).get(3)", "either": "Left«int, string»(n)", "pair": "Pair(\"a\".append(\"b\"), [n])", "setElement": "[1, 2].setElement(0, n)", "copyArray": "copyArray(Bytes(3), 0, Bytes(2), 0)",
}


def lib():
    d = "fn filled@(n: int) map«int, string» {\nm := NewHashMap«int, string»(fn(x: int) int = x, fn(x: int, y: int) bool = x == y)\nfor i in 0 .. n { m.put(i, i.toString()) }\nreturn m\n}\n"
    for nm, e in LIB.items():
        yield Case("lib " + nm, d + "fn go@(n: int) {\n%s\n}\nfn rep@(n: int) {\nmcResetPeak()\nfor i in 0 .. n { go@(5) }\np := mcPeak()\ngc()\nprintf(\"=%%d\\n=%%d\\n\", mcLive(), p)\n}\n" % e, "go@(1)\ngc()\nprintf(\"=%d\\n\", mcLive())\nrep@(4)\nrep@(40)", [""] * 5, cmp=bounded)


# ---------------------------------------------------------------- heap graph histories against an exact reachability model
class Opt:
    def __init__(self, c=None):
        self.c = c


class Cell:
    def __init__(self, l=None, r=None):
        self.l, self.r = l or Opt(), r or Opt()


def ops(nv):
    O = []
    for i in range(nv):
        j = (i + 1) % nv
        O.append(("w[%d] = new@(1)" % i, lambda w, i=i: w.__setitem__(i, Cell())))
        O.append(("w[%d].l = Some(w[%d])" % (i, j), lambda w, i=i, j=j: setattr(w[i], "l", Opt(w[j]))))
        O.append(("w[%d].r = Some(w[%d])" % (i, i), lambda w, i=i: setattr(w[i], "r", Opt(w[i]))))
        O.append(("w[%d] = w[%d].l.orElse(w[%d])" % (i, i, j), lambda w, i=i, j=j: w.__setitem__(i, w[i].l.c or w[j])))
        O.append(("w[%d].l = none@()" % i, lambda w, i=i: setattr(w[i], "l", Opt())))
        O.append(("w[%d] = Cell@(1, Some(w[%d]), w[%d].l)" % (i, i, j), lambda w, i=i, j=j: w.__setitem__(i, Cell(Opt(w[i]), w[j].l))))
    O.append(("x := w[0]\nw[0] = w[1]\nw[1] = x", lambda w: w.reverse()))
    return O


def count(w):
    """Reachable (cells, somes, nones)."""
    seen, todo = set(), list(w)
    c = s = n = 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, Cell):
            c += 1
            todo += [o.l, o.r]
        elif o.c is None:
            n += 1
        else:
            s += 1
            todo.append(o.c)
    return c, s, n


class Exact:
    def __init__(self, model):
        self.model = model  # per history: list of (cells, somes, nones) after each operation

    def __call__(self, lines):
        n = [int(x) for x in lines]
        if len(n) < 8:
            return "no calibration output"
        none, some, cell = n[1] - n[0], n[3] - n[2], n[5] - n[4]
        cell -= 2 * none
        if none < 0 or some < 1 or cell < 1:
            return "objects that are reachable are not counted: %r" % n[:6]
        over = n[6]  # blocks of the world array and two fresh cells
        vals = n[7:]
        want = [over + (c - 2) * cell + s * some + (o - 4) * none for h in self.model for c, s, o in h]
        if vals != want:
            for k, (a, b) in enumerate(zip(vals, want)):
                if a != b:
                    return "operation %d: %d live blocks, but the reachable objects account for %d (per none/some/cell %d/%d/%d)" % (k, a, b, none, some, cell)
            return "missing counts"
        return None


GD = """struct cell@ { v: int l: option«cell@» r: option«cell@» }
fn none@() option«cell@» = None«cell@»()
fn new@(v: int) cell@ = Cell@(v, none@(), none@())
fn cnt@(b: int) {
gc()
println(mcLive() - b)
}
fn cal@(b: int) {
n1@(b)
n2@(b)
x := new@(1)
s1@(b, x)
s2@(b, x)
c1@(b)
c2@(b)
}
fn n1@(b: int) {
a := [none@()]
cnt@(b)
}
fn n2@(b: int) {
a := [none@(), none@()]
cnt@(b)
}
fn s1@(b: int, x: cell@) {
a := [Some(x)]
cnt@(b)
}
fn s2@(b: int, x: cell@) {
a := [Some(x), Some(x)]
cnt@(b)
}
fn c1@(b: int) {
a := [new@(1)]
cnt@(b)
}
fn c2@(b: int) {
a := [new@(1), new@(2)]
cnt@(b)
}
fn w@() []cell@ = [new@(1), new@(2)]
"""


def graphs(length, per):
    O = ops(2)
    od = "".join("fn o%d@(w: []cell@) {\n%s\n}\n" % (i, s) for i, (s, f) in enumerate(O))
    buf = []
    for h in itertools.product(range(len(O)), repeat=length):
        buf.append(h)
        if len(buf) == per:
            yield graph_case(buf, O, od)
            buf = []
    if buf:
        yield graph_case(buf, O, od)


def graph_case(hs, O, od):
    d = GD + od
    model = []
    for k, h in enumerate(hs):
        d += "fn h%d@(b: int) {\nw := w@()\n%s}\n" % (k, "".join("o%d@(w)\ncnt@(b)\n" % i for i in h))
        w = [Cell(), Cell()]
        m = []
        for i in h:
            O[i][1](w)
            m.append(count(w))
        model.append(m)
    body = "gc()\nb := mcLive()\ncal@(b)\nz@(b)\n" + "".join("h%d@(b)\n" % k for k in range(len(hs)))
    d += "fn z@(b: int) {\nw := w@()\ncnt@(b)\n}\n"
    n = sum(len(h) for h in hs)
    return Case("graph " + "/".join("".join("%x" % i for i in h) for h in hs), d, body, [], cmp=Exact(model), steps=n, states=n + len(hs))


def long_runs():
    progs = {
        "strings": "s := \"\"\nfor i in 0 .. n { s = \"x\".append(i.toString()) }",
        "list churn": "l := Empty«int»()\nfor i in 0 .. n {\nl = l.append(i)\nif (i & 7) == 7 { l = Empty«int»() }\n}",
        "cycles": "for i in 0 .. n {\na := Cy@(1, None«cy@»())\nb := Cy@(2, Some(a))\na.nx = Some(b)\n}",
        "self cycle": "for i in 0 .. n {\na := Cy@(1, None«cy@»())\na.nx = Some(a)\n}",
        "queue": "l := Empty«string»()\nfor i in 0 .. n {\nl = l.append(i.toString())\nif i > 5 { l = l.remove(fn(s: string) bool = true).first }\n}",
        "map churn": "m := NewHashMap«int, string»(fn(q: int) int = q, fn(p: int, q: int) bool = p == q)\nfor i in 0 .. n {\nm.put(i, i.toString())\nm.remove(i - 5)\n}",
        "closures": "f := fn() int = 0\nfor i in 0 .. n {\ns := i.toString()\nf = fn() int = s.length + i\n}",
        "closure cycle": "for i in 0 .. n {\na := [fn() int = 1]\na[0] = fn() int = a.length\n}",
        "buffers": "b := NewByteBuffer(2)\nfor i in 0 .. n {\nb.append(\"abcdef\")\nif (i & 3) == 3 { b.reset() }\n}",
        "arrays": "a := [0]\nfor i in 0 .. n { a = array(i & 15, i) }",
        "recursion": "for i in 0 .. n { rc@(6) }",
    }
    d = "struct cy@ { v: int nx: option«cy@» }\nfn rc@(n: int) []int {\nif n == 0 { return [1] }\na := [n, n]\nreturn rc@(n - 1)\n}\n"
    for nm, src in progs.items():
        yield Case("long " + nm, d + "fn go@(n: int) {\n%s\n}\nfn rep@(n: int) {\nmcResetPeak()\ngo@(n)\np := mcPeak()\ngc()\nprintf(\"=%%d\\n=%%d\\n\", mcLive(), p)\n}\n" % src, "go@(3)\ngc()\nprintf(\"=%d\\n\", mcLive())\nrep@(40)\nrep@(2000)", [""] * 5, cmp=bounded)


def sizes(thorough):
    """garbage of every kind and size, one by one and many at once"""
    ns = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537] + ([100000, 1 << 20] if thorough else [])
    kinds = {
        "bytes": "Bytes(ZZ)", "string": "Bytes(ZZ).toString()", "append": "Bytes(ZZ).toString().append(\"x\")", "substring": "Bytes(ZZ).toString().append(\"x\").Substring(0, ZZ)", "ints": "intArray(ZZ)", "array": "array(ZZ, 5)", "strings": "stringArray(ZZ, \"a\".append(\"b\"))", "generic array": "array(ZZ, \"a\".append(\"b\"))",
        "buffer": "NewByteBuffer(ZZ).append(\"abc\")", "grown": "NewByteBuffer(1).append(Bytes(ZZ).toString())",
    }
    for k, e in kinds.items():
        for n in ns:
            if (n == 0 and k not in ("array", "append", "substring", "strings", "generic array", "grown")) or (n > 70000 and k in ("grown", "strings", "generic array")):
                continue
            d = "fn go@(n: int) {\nfor i in 0 .. n {\nx := %s\n}\n}\nfn rep@(n: int) {\nmcResetPeak()\ngo@(n)\np := mcPeak()\ngc()\nprintf(\"=%%d\\n=%%d\\n\", mcLive(), p)\n}\n" % e.replace("ZZ", str(n))
            yield Case("size %s %d" % (k, n), d, "go@(1)\ngc()\nprintf(\"=%d\\n\", mcLive())\nrep@(2)\nrep@(30)", [""] * 5, cmp=bounded)
    # many objects alive at once, then dropped together; every k-th one kept for a while
    for n in [1, 2, 3, 10, 100, 255, 256, 257, 400] + ([1000, 2000] if thorough else []):
        for step in (1, 2, 3, 7):
            d = "fn go@(n: int) {\na := array(n, \"\")\nfor i in 0 .. n { a[i] = \"s\".append(i.toString()) }\nj := 0\nwhile j < n {\na[j] = \"\"\nj = j + %d\n}\ngc()\na = array(1, \"\")\ngc()\n}\n" % step
            yield Case("size many %d step %d" % (n, step), d, "go@(%d)\ngc()\nprintf(\"=%%d\\n\", mcLive())\ngo@(%d)\ngc()\nprintf(\"=%%d\\n\", mcLive())" % (n, n), ["", ""], cmp=base)
            # exact: n/step strings are dropped while the rest stay
            keep = n - len(range(0, n, step))
            d = "fn go@(n: int) {\na := array(n, \"\")\ngc()\nb := mcLive()\nfor i in 0 .. n { a[i] = \"s\".append(\"t\") }\ngc()\nprintln(mcLive() - b)\nj := 0\nwhile j < n {\na[j] = \"\"\nj = j + %d\n}\ngc()\nprintln(mcLive() - b)\n}\n" % step
            yield Case("size exact %d step %d" % (n, step), d, "go@(%d)" % n, [str(n), str(keep)])
    for n in [1, 10, 100, 255, 256, 257, 400]:
        d = "struct cy@ { v: int nx: option«cy@» }\nfn go@(n: int) {\nf := Cy@(0, None«cy@»())\nl := f\nfor i in 0 .. n { l = Cy@(i, Some(l)) }\nf.nx = Some(l)\n}\n"
        yield Case("size ring %d" % n, d, "go@(%d)\ngc()\nprintf(\"=%%d\\n\", mcLive())\ngo@(%d)\ngc()\nprintf(\"=%%d\\n\", mcLive())\ngo@(1)\ngc()\nprintf(\"=%%d\\n\", mcLive())" % (n, n), [""] * 3, cmp=base)
    # many types of garbage
    for k in (10, 100, 260, 300):
        d = "".join(("struct ty%d@ { a: string b: int }\n" if i % 2 else "enum ty%d@ { Ty%d@(a: string, b: int) Uy%d@() }\n").replace("%d", str(i)) for i in range(k))
        d += "".join("fn g%d@() {\n%s}\n" % (j, "".join("x%d := Ty%d@(\"a\".append(\"b\"), 1)\n" % (i, i) for i in range(j * 50, min(k, j * 50 + 50)))) for j in range((k + 49) // 50))
        go = "".join("g%d@()\n" % j for j in range((k + 49) // 50)) + "gc()\nprintf(\"=%d\\n\", mcLive())\n"
        yield Case("size types %d" % k, d, go * 2, ["", ""], cmp=base)


FORMS = ("fn", "anon", "closure", "generic", "nested")


def formed(form, params, src, args):
    """(declarations, statements before, call) of a function of one of the forms with the given parameters and body; before the call nothing of it is garbage"""
    if form == "fn":
        return "fn f@(%s) {\n%s}\n" % (params, src), "", "f@(%s)" % args
    if form == "generic":
        return "fn f@«T»(%s, tt: T) {\n%s}\n" % (params, src), "", "f@(%s, \"t\")" % args
    if form == "anon":
        return "", "ff := fn(%s) {\n%s}\n" % (params, src), "ff(%s)" % args
    if form == "closure":
        return "", "cap := 5\nff := fn(%s) {\ncap = cap + 1\n%s}\n" % (params, src), "ff(%s)" % args
    return "fn f@(cap: string) fn(%s) nothing {\nreturn fn(%s) {\nlen0 := cap.length\n%s}\n}\n" % (", ".join(p.split(": ")[1] for p in params.split(", ")), params, src), "ff := f@(\"cap\")\n", "ff(%s)" % args


def frames(alpha, n, blocks):
    """after every item of every small tree of scopes: exactly the objects held by variables in scope are alive"""
    d0 = c07.FD + "fn fr@(n: int) string = \"fresh\".append(\"!\")\nfn cnt@(b: int) {\ngc()\nprintln(mcLive() - b)\n}\n"
    num = 0
    for ivs in c07.laminar(n, blocks):
        for items in itertools.product(alpha, repeat=n):
            if "p" not in items:
                continue
            num += 1
            ks = tuple((num + 3 * j) % len(c07.BLOCK) for j in range(len(ivs)))
            exp = []

            def at(i, k, live):
                if k in ("p", "i"):
                    return "x%d := %s\n" % (i, "fr@(%d)" % i if k == "p" else i + 4096)
                if k == "o":
                    ps = [x for x, t, j in live if t == "p"]
                    return "%s = fr@(1)\n" % ps[-1] if ps else ""
                if k == "g":
                    return "fr@(5)\n"
                exp.append(str(sum(1 for x, t, j in live if t == "p")))
                return "cnt@(b)\n"
            src = c07.scopes(items, ivs, [c07.BLOCK[k] for k in ks], at) + "cnt@(b)\n"
            exp.append(str(sum(1 for i, k in enumerate(items) if k == "p" and not any(a <= i < b for a, b in ivs))))
            for form in FORMS if n < 4 else ("fn", FORMS[1 + num % 4]):
                fd, pre, call = formed(form, "one: int, en: fe@, b: int", src, "1, e, mcLive()")
                yield Case("frame %s %s %s %s" % (form, "".join(items), "".join("[%d,%d)" % iv for iv in ivs), "".join(map(str, ks))), d0 + fd, "e := Fa@(2)\n%sgc()\n%s" % (pre, call), exp)


# statements which make objects and leave none behind
ONCE = {
    "for call": "for x in mk@() { k = k + 1 }", "for literal": "for x in [fr@(1), fr@(2)] { k = k + x.length }", "for field": "for x in Hd@(mk@(), fr@(1)).a { k = k + 1 }", "for ternary": "for x in (k == 0 ? mk@() : mk@()) { k = k + 1 }", "for nothing": "for x in array(0, fr@(1)) { k = k + 1 }", "for nested": "for x in mk@() {\nfor y in mk@() { k = k + y.length }\n}", "for range": "for i in 0 .. fr@(1).length { k = k + i }",
    "match call": "match op@(1) {\ncase Some(x): k = k + x.length\ncase None():\n}", "match constructor": "match Some(fr@(1)) {\ncase None():\ncase Some(x): k = k + 1\n}", "match field": "match Ho@(op@(1), fr@(1)).o {\ncase Some(x): k = k + 1\ncase None():\n}", "match element": "match [op@(1), op@(2)][1] {\ncase Some(x): k = k + 1\ncase None():\n}", "match none": "match None«string»() {\ncase Some(x):\ncase None(): k = k + 1\n}", "match in match": "match op@(1) {\ncase Some(x):\nmatch op@(2) {\ncase Some(y): k = k + y.length\ncase None():\n}\ncase None():\n}", "for in match": "match op@(1) {\ncase Some(x):\nfor y in mk@() { k = k + 1 }\ncase None():\n}", "match in for": "for x in mk@() {\nmatch op@(2) {\ncase Some(y): k = k + y.length\ncase None():\n}\n}",
    "if": "if fr@(1).length > 2 { k = k + 1 }", "elseif": "if k == 99 { } elseif fr@(1).append(fr@(2)).length > 2 { k = k + 1 } else { k = 7 }", "while": "while fr@(1).length + k < 9 { k = k + 1 }", "statement": "fr@(1).append(fr@(2))", "array statement": "mk@()[1].append(\"z\")", "argument": "us@(mk@(), op@(1), fr@(1))", "constructor": "Hd@(mk@(), fr@(1))", "lambda": "cl@(fn() string = fr@(1))", "capture": "if true {\nq := fr@(1)\ncl@(fn() string = q)\n}", "int result": "k = fr@(1).append(fr@(2)).length", "index": "k = [1, 2, 3][fr@(1).length - 6]", "element store": "z[0] = mk@().length", "ternary": "k = fr@(1).length > 3 ? mk@().length : fr@(2).length", "inner block": "if true {\nx := fr@(1)\ny := mk@()\n}", "loop local": "for i in 0 .. 3 {\nx := fr@(i)\n}", "early": "k = k + re@(1) + re@(2)",
    "library": "mk@().toList().map(fn(s: string) int = s.length).foreach(fn(i: int) { })",
}


def statements(n, names):
    """sequences of statements in one function: after each of them none of their objects is left"""
    d0 = "struct hd@ { a: []string s: string }\nstruct ho@ { o: option«string» s: string }\nfn fr@(n: int) string = \"fresh\".append(\"!\")\nfn mk@() []string = [fr@(1), fr@(2)]\nfn op@(n: int) option«string» = Some(fr@(n))\nfn us@(a: []string, o: option«string», s: string) {}\nfn cl@(f: fn() string) { f() }\nfn re@(n: int) int {\nfor x in mk@() {\nmatch op@(1) {\ncase Some(y):\nif n == 1 { return x.length }\ncase None():\n}\n}\nreturn fr@(3).length\n}\nfn cnt@(b: int) {\ngc()\nprintln(mcLive() - b)\n}\n"
    for seq in itertools.product(names, repeat=n):
        d, b, e = d0, "", []
        for form in ("fn", "anon", "held", "closure", "generic", "nested"):
            src = "".join("k = 0\n%s\ncnt@(b)\n" % ONCE[x] for x in seq)
            if form == "fn":
                d += "fn f@(k: int, z: []int, b: int) {\n%s}\n" % src
                b += "z := [0]\ngc()\nf@(0, z, mcLive())\n"
                e += ["0"] * n
            elif form == "anon":
                b += "g := fn(k: int, z: []int, b: int) {\n%s}\ngc()\ng(0, z, mcLive())\n" % src
                e += ["0"] * n
            elif form != "held":
                fd, pre, call = formed(form, "k: int, z: []int, b: int", src, "0, z, mcLive()")
                d += fd.replace("f@", form + "@")
                b += pre.replace("f@", form + "@").replace("ff", "f" + form).replace("cap :=", "cap :=") + "gc()\n" + call.replace("f@", form + "@").replace("ff(", "f%s(" % form) + "\n"
                e += ["0"] * n
            else:
                # variables before and after keep exactly their own object
                d += "fn h@(k: int, z: []int, b: int) {\nu := fr@(7)\n%sv := fr@(8)\n%scnt@(b)\n}\n" % (src, src)
                b += "gc()\nh@(0, z, mcLive())\n"
                e += ["1"] * n + ["2"] * n + ["2"]
        yield Case("statements " + " / ".join(seq), d, b, e)


def depths(dmax):
    """scopes nested up to the bound, each holding an object; counted at every opening and every closing"""
    d0 = c07.FD + "fn fr@(n: int) string = \"fresh\".append(\"!\")\nfn cnt@(b: int) {\ngc()\nprintln(mcLive() - b)\n}\n"
    for depth in range(1, dmax + 1):
        for k in range(len(c07.BLOCK) + 1):
            for per in (1, 2):
                src, exp, ends = "", [], []
                for j in range(depth):
                    o, c = c07.BLOCK[(j if k == len(c07.BLOCK) else k) % len(c07.BLOCK)]
                    src += o.replace("vV", "v%d" % j) + "".join("x%dz%d := fr@(1)\n" % (j, q) for q in range(per)) + "cnt@(b)\n"
                    exp.append(str((j + 1) * per))
                    ends.append(c.replace("vV", "w%d" % j))
                for j in reversed(range(depth)):
                    src += ends[j] + "cnt@(b)\ny%d := fr@(2)\ncnt@(b)\n" % j
                    exp += [str(j * per), str(j * per + 1)]
                exp.append("0")
                # each closing leaves only outer objects; y is declared in the enclosing scope
                out, live = [], 0
                out = [str((j + 1) * per) for j in range(depth)]
                for j in reversed(range(depth)):
                    out += [str(j * per), str(j * per + 1)]
                for form in FORMS if depth <= 5 else ("fn", FORMS[1 + depth % 4]):
                    fd, pre, call = formed(form, "one: int, en: fe@, b: int", src, "1, e, b")
                    yield Case("depth %s %d kind %d per %d" % (form, depth, k, per), d0 + fd, "e := Fa@(2)\n%sgc()\nb := mcLive()\n%s\ncnt@(b)" % (pre, call), out + ["0"])


def main():
    c = Check("C08", "model_checking",
              "model: exact reachability over the heap graph. After every operation of every history up to the bound a collection is run and the number of live blocks must equal what the reachable objects account for "
              "(block cost per object kind calibrated in the same program); every holding position must leave nothing behind after its function returned; garbage loops must not raise the live set or its peak with the iteration count",
              ["blocks are counted by an allocator linked into the program; it aborts on a double or stray free"])
    c.extra = c.tc.shim("gcshim")
    c.prelude = X
    c.run_cases("returns", returns(c07.T), batch=30)
    c.run_cases("loops", loops(c07.T), batch=15)
    c.run_cases("frames", frames("pg", 4, 2), batch=150)
    c.run_cases("frames", frames("pio", 4, 2) if c.thorough else frames("pio", 3, 2), batch=150)
    c.run_cases("statements", statements(1, list(ONCE)), batch=20)
    c.run_cases("statements", statements(2, list(ONCE)), batch=20)
    if c.thorough:
        c.run_cases("statements", statements(3, list(ONCE)[::2]), batch=20)
    c.run_cases("depths", depths(16 if c.thorough else 10), batch=20)
    if c.thorough:
        c.run_cases("frames 5", frames("pg", 5, 3), batch=150)
    c.run_cases("sizes", sizes(c.thorough), batch=10)
    c.run_cases("lib", lib(), batch=4)
    c.run_cases("long", long_runs(), batch=1)
    c.run_cases("graphs2", graphs(2, 13), batch=4)
    c.run_cases("graphs3", graphs(3, 26), batch=4)
    if c.thorough:
        c.run_cases("graphs4", graphs(4, 26), batch=4)
    c.finish()
