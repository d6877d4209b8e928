"""C05: variables, scopes and storage."""
import itertools
import places
from core import Case, Check

# ---------------------------------------------------------------- lexical scopes: all programs of declare/assign/read/open/close
OPENERS = {
    "if": ("if true {", "}"), "else": ("if false { println(-1) } else {", "}"), "elseif": ("if false { println(-1) } elseif true {", "} else { println(-2) }"),
    "while": ("w%d := true\nwhile w%d {\nw%d = false", "}"), "for": ("for z%d in 0 .. 1 {", "}"), "forarr": ("for z%d in [5] {", "}"),
    "match": ("match Some(1) {\ncase None(): println(-3)\ncase Some(z%d):", "}"),
}


def scope_programs(length, names):
    """Sequences of operations valid under the scoping rules; yields lists of ops."""
    ops = []
    for n in names:
        ops += [("d", n), ("a", n), ("r", n), ("u", n)]
    ops += [("(",), (")",)]

    def go(prefix, stack, left):
        if left == 0:
            if len(stack) == 1 and any(o[0] == "r" for o in prefix):
                yield list(prefix)
            return
        for o in ops:
            if len(stack) - 1 > left - (o[0] != ")"):
                if o[0] != ")":
                    continue
            k = o[0]
            if k == "d":
                if o[1] in stack[-1]:
                    continue
                stack[-1].add(o[1])
                prefix.append(o)
                yield from go(prefix, stack, left - 1)
                prefix.pop()
                stack[-1].discard(o[1])
            elif k == "(":
                if left < 2:
                    continue
                stack.append(set())
                prefix.append(o)
                yield from go(prefix, stack, left - 1)
                prefix.pop()
                stack.pop()
            elif k == ")":
                if len(stack) == 1 or prefix[-1] == ("(",):
                    continue
                s = stack.pop()
                prefix.append(o)
                yield from go(prefix, stack, left - 1)
                prefix.pop()
                stack.append(s)
            else:
                if not any(o[1] in s for s in stack):
                    continue
                prefix.append(o)
                yield from go(prefix, stack, left - 1)
                prefix.pop()
    yield from go([], [set()], length)


def scope_case(prog, opener, param):
    src, exp, n, depth = [], [], 10, 0
    stack = [{}]
    if param:
        stack = [{"x": 3, "y": 4}, {}]
    closers = []
    kinds = list(OPENERS)

    def find(nm):
        for s in reversed(stack):
            if nm in s:
                return s
    opened = 0
    for o in prog:
        n += 1
        if o[0] == "d":
            stack[-1][o[1]] = n
            src.append("%s := %d" % (o[1], n))
        elif o[0] == "a":
            find(o[1])[o[1]] = n
            src.append("%s = %d" % (o[1], n))
        elif o[0] == "u":
            s = find(o[1])
            s[o[1]] = s[o[1]] + 100
            src.append("%s = %s + 100" % (o[1], o[1]))
        elif o[0] == "r":
            src.append("println(%s)" % o[1])
            exp.append(str(find(o[1])[o[1]]))
        elif o[0] == "(":
            k = opener if opener != "mix" else kinds[opened % len(kinds)]
            opened += 1
            a, b = OPENERS[k]
            src.append(a % ((opened,) * a.count("%d")))
            closers.append(b)
            stack.append({})
        else:
            src.append(closers.pop())
            stack.pop()
    key = "scope %s %s %s" % ("".join(o[0] + (o[1] if len(o) > 1 else "") for o in prog), opener, param)
    if param:
        # two parameters are the outermost declarations; the body is an inner scope of them
        return Case(key, "fn f@(x: int, y: int) {\nif true {\n%s\n}\nprintln(x)\nprintln(y)\n}\n" % "\n".join(src), "f@(3, 4)", exp + [str(stack[0]["x"]), str(stack[0]["y"])])
    return Case(key, "", "\n".join(src), exp)


def scopes(thorough):
    for ln in range(2, 8 if thorough else 7):
        for p in scope_programs(ln, ["x"]):
            for op in (list(OPENERS) + ["mix"]) if ("(",) in p else ["if"]:
                yield scope_case(p, op, False)
    for ln in range(2, 7 if thorough else 6):
        for p in scope_programs(ln, ["x", "y"]):
            if any(o[1:] == ("y",) for o in p):
                yield scope_case(p, "mix", False)
    # parameters as the outermost scope
    for ln in range(1, 6 if thorough else 5):
        for p in scope_programs_param(ln):
            yield scope_case(p, "mix", True)


def scope_programs_param(length):
    ops = [(k, n) for n in "xy" for k in "dar"]

    def go(prefix, decl, left):
        if left == 0:
            if any(o[0] == "r" for o in prefix):
                yield list(prefix)
            return
        for o in ops:
            if o[0] == "d" and o[1] in decl:
                continue
            yield from go(prefix + [o], decl | ({o[1]} if o[0] == "d" else set()), left - 1)
    yield from go([], frozenset(), length)


# ---------------------------------------------------------------- aliasing histories
ADECL = """struct ob@ { v: int w: int arr: []int }
enum en@ { Box@(o: ob@, k: int) }
fn setv@(p: ob@, n: int) { p.v = n }
fn repl@(p: ob@, n: int) {
p = Ob@(n, n, [n])
p.v = n + 1
}
fn seti@(q: []int, n: int) { q[1] = n }
fn repli@(q: []int, n: int) {
q = [n, n]
q[0] = n + 1
}
fn chg@(n: int) int {
n = n + 1000
return n
}
fn inbox@(e: en@) ob@ {
match e {
case Box@(o, k): return o
}
}
fn same@(a: ob@, b: ob@) bool {
old := b.v
a.v = 424242
r := b.v == 424242
a.v = old
return r
}
"""


class O:
    def __init__(self, v, w, arr):
        self.v, self.w, self.arr = v, w, arr


class St:
    def __init__(self):
        self.p = [1, 2]
        self.q = [3, 4]
        self.a = O(5, 6, self.p)
        self.b = O(7, 8, self.q)
        self.n = 9
        self.m = 10


def _ops():
    def op(src):
        def deco(f):
            OPS.append((src, f))
            return f
        return deco
    OPS = []

    @op("a = b")
    def _(s, k): s.a = s.b
    @op("b = a")
    def _(s, k): s.b = s.a
    @op("a.v = K")
    def _(s, k): s.a.v = k
    @op("b.w = K")
    def _(s, k): s.b.w = k
    @op("p = q")
    def _(s, k): s.p = s.q
    @op("q = p")
    def _(s, k): s.q = s.p
    @op("p[0] = K")
    def _(s, k): s.p[0] = k
    @op("q[1] = K")
    def _(s, k): s.q[1] = k
    @op("a.arr = q")
    def _(s, k): s.a.arr = s.q
    @op("p = b.arr")
    def _(s, k): s.p = s.b.arr
    @op("a.arr[1] = K")
    def _(s, k): s.a.arr[1] = k
    @op("b = Ob@(K, n, p)")
    def _(s, k): s.b = O(k, s.n, s.p)
    @op("q = [K, m]")
    def _(s, k): s.q = [k, s.m]
    @op("setv@(a, K)")
    def _(s, k): s.a.v = k
    @op("repl@(b, K)")
    def _(s, k): pass
    @op("seti@(b.arr, K)")
    def _(s, k): s.b.arr[1] = k
    @op("repli@(p, K)")
    def _(s, k): pass
    @op("n = a.v")
    def _(s, k): s.n = s.a.v
    @op("m = n")
    def _(s, k): s.m = s.n
    @op("n = n + K")
    def _(s, k): s.n += k
    @op("m = chg@(n)")
    def _(s, k): s.m = s.n + 1000
    @op("b = inbox@(Box@(a, 1))")
    def _(s, k): s.b = s.a
    @op("a.v = b.w")
    def _(s, k): s.a.v = s.b.w
    @op("p[1] = q[0]")
    def _(s, k): s.p[1] = s.q[0]
    return OPS


OPS = _ops()
DUMP = "println(a.v)\nprintln(a.w)\nprintln(a.arr[0])\nprintln(a.arr[1])\nprintln(b.v)\nprintln(b.w)\nprintln(b.arr[0])\nprintln(b.arr[1])\nprintln(p[0])\nprintln(p[1])\nprintln(q[0])\nprintln(q[1])\nprintln(n)\nprintln(m)\nprintln(same@(a, b))\n"


def aliases(length, ops):
    for h in itertools.product(range(len(ops)), repeat=length):
        s = St()
        src = []
        for j, i in enumerate(h):
            k = 100 * (j + 1)
            t, f = ops[i]
            src.append(t.replace("K", str(k)))
            f(s, k)
        exp = [s.a.v, s.a.w, s.a.arr[0], s.a.arr[1], s.b.v, s.b.w, s.b.arr[0], s.b.arr[1], s.p[0], s.p[1], s.q[0], s.q[1], s.n, s.m]
        exp = [str(x) for x in exp] + ["true" if s.a is s.b else "false"]
        yield Case("alias " + "; ".join(src), ADECL, "p := [1, 2]\nq := [3, 4]\na := Ob@(5, 6, p)\nb := Ob@(7, 8, q)\nn := 9\nm := 10\n%s\n%s" % ("\n".join(src), DUMP), exp, steps=length, states=length + 1)


def shared(cases, n=20):
    """Puts n cases into one program case so that declarations are shared (keys listed together)."""
    buf = []
    for c in cases:
        buf.append(c)
        if len(buf) == n:
            yield merge(buf)
            buf = []
    if buf:
        yield merge(buf)


def merge(cs):
    d = cs[0].decls + "".join("fn h%d@() {\n%s\n}\n" % (i, c.body) for i, c in enumerate(cs))
    return Case(" || ".join(c.key for c in cs), d, "\n".join("h%d@()" % i for i in range(len(cs))), [x for c in cs for x in c.expect],
                steps=sum(c.steps for c in cs), states=sum(c.states for c in cs))


# ---------------------------------------------------------------- independence of storage
VALS = {"int": lambda k: (str(k * 11), str(k * 11)), "bool": lambda k: (("true",) * 2 if k % 2 else ("false",) * 2), "string": lambda k: ('"s%d"' % k, "s%d" % k),
        "arr": lambda k: ("[%d, %d]" % (k, k + 1), str(k)), "struct": lambda k: ("Bq@(%d)" % k, str(k)), "fn": lambda k: ("fn(x: int) int = x + %d" % k, str(k + 1))}
TY = {"int": "int", "bool": "bool", "string": "string", "arr": "[]int", "struct": "bq@", "fn": "fn(int) int"}


def pr(t, e):
    return {"int": "println(%s)", "bool": "println(%s)", "string": "println(%s)", "arr": "println(%s[0])", "struct": "println(%s.q)", "fn": "println(%s(1))"}[t] % e


def storage():
    T = list(TY)
    for n in range(1, 7):
        vecs = [tuple(T[(s + i * st) % len(T)] for i in range(n)) for s in range(len(T)) for st in (0, 1)]
        for v in dict.fromkeys(vecs):
            for holder in ("struct", "locals", "params"):
                for wr in range(n):
                    d = "struct bq@ { q: int }\n"
                    init = [VALS[t](i + 1) for i, t in enumerate(v)]
                    new = VALS[v[wr]](wr + 10)
                    vals = [i[1] for i in init]
                    if holder == "struct":
                        d += "struct h@ { %s }\n" % " ".join("f%d: %s" % (i, TY[t]) for i, t in enumerate(v))
                        ref = ["h.f%d" % i for i in range(n)]
                        pre = "h := H@(%s)\n" % ", ".join(i[0] for i in init)
                    elif holder == "locals":
                        ref = ["v%d" % i for i in range(n)]
                        pre = "".join("v%d := %s\n" % (i, x[0]) for i, x in enumerate(init))
                    else:
                        ref = ["p%d" % i for i in range(n)]
                        pre = ""
                    use = [pr(t, r) for t, r in zip(v, ref)]
                    body = pre + "\n".join(use) + "\n%s = %s\n" % (ref[wr], new[0]) + "\n".join(use)
                    after = list(vals)
                    after[wr] = new[1]
                    exp = vals + after
                    if holder == "params":
                        d += "fn f@(%s) {\n%s\n}\n" % (", ".join("p%d: %s" % (i, TY[t]) for i, t in enumerate(v)), body)
                        a = "".join("a%d := %s\n" % (i, x[0]) for i, x in enumerate(init))
                        body = a + "f@(%s)\n" % ", ".join("a%d" % i for i in range(n)) + "\n".join(pr(t, "a%d" % i) for i, t in enumerate(v))
                        exp = exp + vals
                    yield Case("storage %s %s %d" % (holder, ",".join(v), wr), d, body, exp)
    for t in T:
        for n in range(1, 7):
            for wr in range(n):
                init = [VALS[t](i + 1) for i in range(n)]
                new = VALS[t](wr + 10)
                use = "\n".join(pr(t, "a[%d]" % i) for i in range(n))
                vals = [i[1] for i in init]
                after = list(vals)
                after[wr] = new[1]
                for idx in (str(wr), "k", "k + 0", "id@(k)"):
                    yield Case("storage array %s %d %d %s" % (t, n, wr, idx), "struct bq@ { q: int }\nfn id@(x: int) int = x\n", "k := %d\na := [%s]\nb := a\n%s\na[%s] = %s\n%s\n%s" % (
                        wr, ", ".join(i[0] for i in init), use, idx, new[0], use, use.replace("a[", "b[")), vals + after + after)
    # many locals, written in different orders, across nested scopes
    for n in (1, 2, 3, 5, 8, 13, 21, 34, 55):
        for stride in (1, 2, 3, 7):
            order = [(i * stride) % n for i in range(n)] if n % stride else list(range(n))
            vals = [i for i in range(n)]
            src = "".join("v%d := %d\n" % (i, i) for i in range(n))
            for j, i in enumerate(order):
                vals[i] = vals[i] * 3 + j
                src += "v%d = (v%d * 3) + %d\n" % (i, i, j)
            yield Case("locals %d %d" % (n, stride), "", src + "".join("println(v%d)\n" % i for i in range(n)), [str(x) for x in vals])
        src, exp = "", []
        for i in range(n):
            src += "v%d := %d\nif v%d == %d {\n" % (i, i * 5, i, i * 5)
        src += "".join("println(v%d)\n" % i for i in range(n))
        exp = [str(i * 5) for i in range(n)]
        for i in range(n - 1, -1, -1):
            src += "v%d = v%d + 1\n}\nprintln(v%d)\n" % (i, i, i)
            exp.append(str(i * 5 + 1))
        yield Case("nested locals %d" % n, "", src, exp)


INITS = {"int": ("7", "println(%s)", "%s = %s + 1", ["7", "8"]), "bool": ("true", "println(%s)", "%s = not %s", ["true", "false"]), "string": ('"q"', "println(%s)", "%s = %s.append(\"r\")", ["q", "qr"]),
         "arr": ("[4, 5]", "println(%s[1])", "%s[1] = %s[1] + 10", ["5", "15"]), "struct": ("Bq@(3)", "println(%s.q)", "%s.q = %s.q + 10", ["3", "13"]), "opt": ("None«int»()", "println(%s.isNone())", "%s = %s.isNone() ? Some(1) : None«int»()", ["true", "false"])}
# other initial values of the same types: the zero-like literals, other variables, results of calls and operators
_more = {"int": ["0", "-1", "u0", "u0 + 1", "fi@(4)", "ua[0]", "ub.q", "u0 - u0", "u0 == 5 ? 0 : 1"], "bool": ["false", "1 == 1", "1 == 2", "not true", "fb@()", "true and false", "uf"], "string": ['""', '"a".append("b")', "us", "fs@()"],
         "arr": ["[0, 0]", "intArray(3)", "array(2, 6)", "fa@()"], "struct": ["Bq@(0)", "fq@()"], "opt": ["Some(0)", "fo@()"]}
_val = {"0": 0, "-1": -1, "u0": 5, "u0 + 1": 6, "fi@(4)": 12, "ua[0]": 70, "ub.q": 80, "u0 - u0": 0, "u0 == 5 ? 0 : 1": 0, "false": False, "1 == 1": True, "1 == 2": False, "not true": False, "fb@()": False, "true and false": False, "uf": False,
        '""': "", '"a".append("b")': "ab", "us": "U", "fs@()": "fs", "[0, 0]": 0, "intArray(3)": 0, "array(2, 6)": 6, "fa@()": 9, "Bq@(0)": 0, "fq@()": 21, "Some(0)": False, "fo@()": True}
for _t, _es in _more.items():
    for _e in _es:
        _v = _val[_e]
        _w = (not _v) if isinstance(_v, bool) else (_v + "r" if isinstance(_v, str) else _v + (1 if _t == "int" else 10))
        _s = lambda x: ("true" if x else "false") if isinstance(x, bool) else str(x)
        INITS["%s %s" % (_t, _e)] = (_e,) + INITS[_t][1:3] + ([_s(_v), _s(_w)],)
FDECL = "fn fi@(x: int) int = x * 3\nfn fb@() bool = false\nfn fs@() string = \"fs\"\nfn fa@() []int = [8, 9]\nfn fq@() bq@ = Bq@(21)\nfn fo@() option«int» = None«int»()\n"
FPRE = "u0 := 5\nus := \"U\"\nuf := false\nua := [70, 71]\nub := Bq@(80)\n"
LOOPS = {"while": ("k := 0\nwhile k < 3 {\nk = k + 1\n", "}"), "for": ("for k in 0 .. 3 {\n", "}"), "fordec": ("for k in 3 .. 0 {\n", "}"), "forarr": ("for k in [1, 2, 3] {\n", "}"),
         "recur": None, "closure": None}


def fresh():
    """A declared variable starts with its declared initial value in every iteration and after every sibling scope."""
    for c in fresh_():
        if "recur" not in c.key:
            c.body = FPRE + c.body
        yield c


def fresh_():
    d = "struct bq@ { q: int }\n" + FDECL
    for t, (init, show, upd, (before, after)) in INITS.items():
        u = upd % (("x",) * upd.count("%s"))
        s = show % "x"
        for l, lp in LOOPS.items():
            inner = "x := %s\n%s\n%s\n%s\n" % (init, s, u, s)
            exp = [before, after] * 3
            if lp:
                yield Case("fresh %s %s" % (t, l), d, lp[0] + inner + lp[1], exp)
                yield Case("fresh2 %s %s" % (t, l), d, lp[0] + "if true {\n" + inner + "}\ny := 99\nif true {\n" + inner + "}\nprintln(y)\n" + lp[1], (exp[:4] + ["99"]) * 3)
                yield Case("fresh cond %s %s" % (t, l), d, "c := 0\n" + lp[0] + "c = c + 1\nif c == 2 {\nz := 55\nprintln(z)\n}\n" + inner + lp[1], [before, after, "55"] + [before, after] * 2)
                for l2, lp2 in LOOPS.items():
                    if lp2:
                        yield Case("fresh nest %s %s %s" % (t, l, l2), d, lp[0] + "x := %s\n%s\n%s\n" % (init, s, u) + lp2[0].replace("k", "j") + inner.replace("x", "w") + lp2[1] + "\n%s\n" % s + lp[1],
                                   ([before] + [before, after] * 3 + [after]) * 3)
            elif l == "recur":
                yield Case("fresh %s recur" % t, d + "fn f@(n: int) {\nif n == 0 { return }\n%s%sf@(n - 1)\n%s\n}\n" % (FPRE, inner, s), "f@(3)", exp + [after] * 3)
            else:
                yield Case("fresh %s closure" % t, d, "f := fn() {\n%s}\nf()\nf()\nf()" % inner, exp)
        # sibling scopes of different types reuse nothing visible
        for t2, (i2, s2, u2, (b2, a2)) in INITS.items():
            for k1, k2 in (("if", "else"), ("while", "for"), ("for", "if"), ("match", "forarr")):
                o1, c1 = OPENERS[k1]
                o2, c2 = OPENERS[k2]
                src = (o1 % ((1,) * o1.count("%d"))) + "\nx := %s\n%s\n%s\n%s\n" % (init, s, u, s) + c1 + "\n" + (o2 % ((2,) * o2.count("%d"))) + "\ny := %s\n%s\n%s\n%s\n" % (
                    i2, s2 % "y", u2 % (("y",) * u2.count("%s")), s2 % "y") + c2
                yield Case("sibling %s %s %s %s" % (t, t2, k1, k2), d, "o := 31\n" + src + "\nprintln(o)", [before, after, b2, a2, "31"])


def read(thorough):
    """a variable of every type and origin read in every place a value can be read"""
    for t in places.TYPES:
        for bn, d, b in places.bindings(t):
            if "capt" in bn or "closure" in bn or bn == "generic":
                continue  # C06 and C18
            if not thorough and t not in ("int", "arr") and bn.startswith("parameter") and bn not in ("parameter 0", "parameter 5"):
                continue
            for pl in places.PLACES:
                if pl[0] == "block" and bn == "shadowing":
                    continue
                yield places.build(Case, "read " + bn, t, pl, d, b, ["77"] if bn == "shadowing" else [])


SCALE = (64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1100, 1600, 2047, 2048, 2049, 3000, 4095, 4096, 4097)


def scale(thorough):
    """functions with many variables: each keeps its own value whatever its place in the frame"""
    for n in SCALE + ((8180, 8190, 8191, 8192, 8193, 8194, 8200, 9000, 16400) if thorough else (8190, 8191, 8192, 8193, 9000)):
        vals = [i * 3 + 1 for i in range(n)]
        for kind in ("int", "mixed"):
            src = ""
            for i in range(n):
                src += "v%d := %s\n" % (i, str(vals[i]) if kind == "int" or i % 3 == 0 else ('"s%d"' % i if i % 3 == 1 else "[%d]" % vals[i]))
            cur = list(vals)
            show, exp = [], []
            for i in range(n):
                if kind == "int" or i % 3 == 0:
                    j = (i * 7 + 3) % n
                    if kind == "mixed":
                        j -= j % 3
                    cur[i] = cur[i] + cur[j]
                    src += "v%d = v%d + v%d\n" % (i, i, j)
            for i in range(n):
                if kind == "int" or i % 3 == 0:
                    show.append("println(v%d)\n" % i)
                    exp.append(str(cur[i]))
                elif i % 3 == 1:
                    show.append("println(v%d)\n" % i)
                    exp.append("s%d" % i)
                else:
                    show.append("println(v%d[0])\n" % i)
                    exp.append(str(cur[i]))
            if kind == "mixed" and n > 2200:
                continue
            yield Case("scale %s %d" % (kind, n), "fn f@(a: int, b: string) {\n%s%sprintln(a)\nprintln(b)\n}\n" % (src, "".join(show)), "f@(4, \"bb\")\nf@(5, \"cc\")", exp + ["4", "bb"] + exp + ["5", "cc"])
    for n in SCALE[::2] + (32768, 65535, 65536, 65537, 100000):
        for wr in (0, 1, n // 2, n - 1):
            yield Case("scale array %d %d" % (n, wr), "", "a := array(%d, 7)\nfor i in 0 .. a.length { a[i] = i }\nb := a\na[%d] = -5\nk := 0\nfor i in 0 .. b.length {\nif b[i] == i { k = k + 1 }\n}\nprintln(k)\nprintln(b[%d])\nprintln(b.length)" % (n, wr, wr), [str(n - 1), "-5", str(n)])
    for n in (7, 20, 60, 130, 260):
        # n siblings then one variable each, and n nested functions each with its own locals
        src = "".join("if true {\nx := %d\ny%d := x + 1\nt = t + y%d\n}\n" % (i, i, i) for i in range(n))
        yield Case("scale siblings %d" % n, "", "t := 0\n%sprintln(t)" % src, [str(sum(i + 1 for i in range(n)))])
        d = "".join("fn f%d@(x: int) int {\na := x + %d\nb := f%d@(a)\nreturn a + b\n}\n" % (i, i, i + 1) for i in range(n)) + "fn f%d@(x: int) int = x\n" % n

        def ev(i, x):
            return x if i == n else (x + i) + ev(i + 1, x + i)
        yield Case("scale calls %d" % n, d, "println(f0@(3))", [str(ev(0, 3))])


def nests():
    """nested constructs which keep state of their own, in functions with any number of variables"""
    CON = {"range": ("for L in 1 .. 3 {", "}", lambda: [1, 2]), "array": ("for L in [3, 4] {", "}", lambda: [3, 4]), "var array": ("for L in ar {", "}", lambda: [5, 6]), "down": ("for L in 2 .. 0 {", "}", lambda: [1, 0]), "match": ("match Some(7) {\ncase Some(L):", "case None(): println(0)\n}", lambda: [7]), "while": ("L := 0\nwhile L < 2 {\nL = L + 1", "}", lambda: [1, 2])}
    for n in list(range(0, 25)) + [31, 32, 33, 63, 64, 65, 127, 128, 129]:
        combos = [p for k in (1, 2, 3) for p in itertools.product(("range", "array", "match"), repeat=k)] + list(itertools.product(CON, repeat=2)) if n % 4 == 1 else list(itertools.product(CON, repeat=2))
        for ks in combos:
            for late in (False, True):
                if late and n > 24:
                    continue
                names = ["l%d" % i for i in range(len(ks))]
                decl = "".join("v%d := %d\n" % (i, i + 1) for i in range(n))
                src, end = "", ""
                for nm, k in zip(names, ks):
                    src += CON[k][0].replace("L", nm) + "\n"
                    end = CON[k][1] + "\n" + end
                inner = "println(%s)\n" % " + ".join("(%s * %d)" % (nm, 10 ** (len(names) - 1 - i)) for i, nm in enumerate(names))
                body = ("" if late else decl) + "ar := [5, 6]\n" + src + (decl if late else "") + inner + end
                vals = [sum(v * 10 ** (len(names) - 1 - i) for i, v in enumerate(t)) for t in itertools.product(*[CON[k][2]() for k in ks])]
                exp = [str(v) for v in vals]
                if n and not late:
                    body += "println(%s)\n" % " + ".join("v%d" % i for i in range(n))
                    exp.append(str(n * (n + 1) // 2))
                yield Case("nest %s %d%s" % (" ".join(ks), n, " inside" if late else ""), "fn f@(p: int) int {\n%sreturn p\n}\n" % body, "println(f@(8))", exp + ["8"])


def frames():
    """every number of parameters, captured variables and locals a function of each kind can have: each is written in turn and only it changes"""
    for kind in ("plain", "generic", "anon", "closure", "nested", "expr arg"):
        for np in range(0, 7 if kind in ("plain", "generic") else 6):
            for nc in range(1, 7) if kind in ("closure", "nested") else (0,):
                for nl in (0, 1, 2, 3, 5):
                    for mixed in (False, True):
                        if np + nc + nl == 0 or kind == "nested" and (nc not in (1, 2, 6) or nl == 5):
                            continue
                        isstr = lambda i: mixed and i % 2 == 1
                        vs = ["p%d" % i for i in range(np)] + ["c%d" % i for i in range(nc)] + ["l%d" % i for i in range(nl)]
                        lit = lambda i, k: '"s%d"' % k if isstr(i) else str(k)
                        ty = lambda i: "string" if isstr(i) else "int"
                        out = lambda i, k: "s%d" % k if isstr(i) else str(k)
                        cur = list(range(11, 11 + len(vs)))
                        show = "".join("println(%s)\n" % v for v in vs)
                        body = "".join("%s := %s\n" % (vs[i], lit(i, cur[i])) for i in range(np + nc, len(vs)))
                        body += show
                        exp = [out(i, k) for i, k in enumerate(cur)]
                        for i in range(len(vs)):
                            cur[i] += 50
                            body += "%s = %s\n" % (vs[i], lit(i, cur[i])) + show
                            exp += [out(j, k) for j, k in enumerate(cur)]
                        ps = ", ".join("%s: %s" % (vs[i], ty(i)) for i in range(np))
                        args = ", ".join(lit(i, 11 + i) for i in range(np))
                        caps = "".join("%s := %s\n" % (vs[i], lit(i, 11 + i)) for i in range(np, np + nc))
                        after = "".join("println(%s)\n" % vs[i] for i in range(np, np + nc))
                        aexp = [out(i, 11 + i) for i in range(np, np + nc)]
                        key = "frame %s %d %d %d%s" % (kind, np, nc, nl, " mixed" if mixed else "")
                        if kind in ("plain", "generic"):
                            yield Case(key, "fn f@%s(%s) {\n%s}\n" % ("«T»" if kind == "generic" else "", ps, body), "f@(%s)" % args, exp)
                        elif kind == "nested":
                            yield Case(key, "", "%sg := fn() {\nf := fn(%s) {\n%s}\nf(%s)\n%s}\ng()" % (caps, ps, body, args, after), exp + aexp)
                        elif kind == "expr arg":
                            yield Case(key, "fn f@(g: fn(%s)) {\ng(%s)\n}\n" % (", ".join(ty(i) for i in range(np)), args), "f@(fn(%s) {\n%s})" % (ps, body), exp)
                        else:
                            yield Case(key, "", "%sf := fn(%s) {\n%s}\nf(%s)\n%s" % (caps, ps, body, args, after), exp + aexp)


# ---------------------------------------------------------------- copies
ORIGIN = {  # function with the variable o in its scope; BODY runs once, o starts as V(1)
    "param": "fn f@(o: T) {\nBODY}\n", "last param": "fn f@(a1: int, a2: T, a3: int, a4: T, a5: int, o: T) {\nBODY}\n", "local": "fn f@() {\no := V1\nBODY}\n",
    "range": "fn f@() {\nfor o in 1 .. 2 {\nBODY}\n}\n", "element": "fn f@() {\nfor o in [V1] {\nBODY}\n}\n", "payload": "fn f@() {\nmatch Some(V1) {\ncase Some(o):\nBODYcase None(): println(0)\n}\n}\n",
    "closure param": "fn f@() {\ng := fn(o: T) {\nBODY}\ng(V1)\n}\n", "captured": "fn f@() {\no := V1\ng := fn() {\nBODY}\ng()\n}\n", "captured param": "fn h@(o: T) fn() nothing {\nreturn fn() {\nBODY}\n}\nfn f@() {\nh@(V1)()\n}\n",
    "in block": "fn f@() {\nif true {\no := V1\nBODY}\n}\n", "in loop": "fn f@() {\nn := 0\nwhile n == 0 {\no := V1\nBODYn = 1\n}\n}\n",
}
CALL = {"param": "f@(V1)", "last param": "f@(0, V8, 0, V9, 0, V1)"}
CVAL = {"int": (lambda k: str(k), "println(%s)"), "string": (lambda k: '"s%d"' % k, "println(%s)"), "ob@": (lambda k: "Ob@(%d)" % k, "println(%s.v)"), "fn() int": (lambda k: "fn() int = %d" % k, "println(%s())"), "[]int": (lambda k: "[%d]" % k, "println(%s[0])")}
COPS = ("decl", "chain", "set", "setc", "back", "fwd")


def copies(kinds, ty, length):
    """Histories of declaring copies of a variable of any origin and assigning either: the other keeps its value."""
    val, pr_ = CVAL[ty]
    show_ = lambda v: ("s%d" % v) if ty == "string" else str(v)
    for kind in kinds:
        if kind == "range" and ty != "int":
            continue
        cs = []
        for h in itertools.chain(*(itertools.product(COPS, repeat=n) for n in range(1, length + 1))):
            o, c, src, out, k = 1, [], [], [], 10
            ok = True
            for x in h:
                k += 1
                if x == "decl":
                    src.append("c%d := o" % len(c))
                    c.append(o)
                elif x == "set":
                    src.append("o = " + val(k))
                    o = k
                elif not c:
                    ok = False
                    break
                elif x == "chain":
                    src.append("c%d := c%d" % (len(c), len(c) - 1))
                    c.append(c[-1])
                elif x == "setc":
                    src.append("c%d = %s" % (len(c) - 1, val(k)))
                    c[-1] = k
                elif x == "back":
                    src.append("o = c%d" % (len(c) - 1))
                    o = c[-1]
                elif x == "fwd":
                    src.append("c0 = o")
                    c[0] = o
            if not ok or "decl" not in h:
                continue
            src += [pr_ % "o"] + [pr_ % ("c%d" % i) for i in range(len(c))]
            exp = [show_(o)] + [show_(v) for v in c]
            fill = lambda t: t.replace("BODY", "\n".join(src) + "\n").replace("T)", ty + ")").replace("T,", ty + ",").replace("V1", val(1)).replace("V8", val(8)).replace("V9", val(9))
            cs.append((h, fill(ORIGIN[kind]), fill(CALL.get(kind, "f@()")), exp))
        for i in range(0, len(cs), 30):
            ch = cs[i:i + 30]
            d = "struct ob@ { v: int }\n" + "".join(f.replace("f@", "f%d@" % j).replace("h@", "h%d@" % j) for j, (h, f, b, e) in enumerate(ch))
            yield Case("copies %s %s %s .. %s" % (kind, ty, " ".join(ch[0][0]), " ".join(ch[-1][0])), d, "\n".join(b.replace("f@", "f%d@" % j) for j, (h, f, b, e) in enumerate(ch)), [x for h, f, b, e in ch for x in e],
                       steps=sum(len(h) for h, f, b, e in ch), states=sum(len(h) + 1 for h, f, b, e in ch))


def all_copies(thorough):
    for ty in CVAL:
        for c in copies(list(ORIGIN), ty, (5 if thorough else 4) if ty == "int" else (4 if thorough else 3)):
            yield c


def main():
    c = Check("C05", "model_checking",
              "model: an environment/heap machine; states are (scope stack, heap) after each operation of every operation history up to the bound, each history replayed as a compiled program")
    c.run_cases("storage", storage(), batch=150)
    c.run_cases("scale", scale(c.thorough), batch=1)
    c.run_cases("nests", nests(), batch=60)
    c.run_cases("frames", frames(), batch=40)
    c.run_cases("copies", all_copies(c.thorough), batch=8)
    c.run_cases("fresh", fresh(), batch=150)
    c.run_cases("read", read(c.thorough), batch=100)
    c.run_cases("scopes", scopes(c.thorough), batch=500)
    c.run_cases("aliases2", shared(aliases(2, OPS)), batch=12)
    if c.thorough:
        c.run_cases("aliases3", shared(aliases(3, OPS)), batch=12)
        core = [OPS[i] for i in (0, 2, 4, 6, 8, 9, 10, 11, 14, 15, 17, 21)]
        c.run_cases("aliases4", shared(aliases(4, core)), batch=12)
    else:
        core = [OPS[i] for i in (0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 13, 15, 17, 21)]
        c.run_cases("aliases3", shared(aliases(3, core)), batch=12)
    c.finish()
