"""C02: grouping, evaluation order and exactly-once evaluation of expressions."""
import itertools
from core import Case, Check
from lang import BIN, PREC, UPREC, wrap

INT = ["+", "-", "*", "/", "<<", ">>", "&", "^", "|"]
CMP = ["<", "<=", ">", ">=", "=="]
LOG = ["and", "or"]
OPS = INT + CMP + LOG
CAND = [7, 2, 3, 1, 5, -6, 9, 4, 0, -1, 12, 60]


def optype(o):
    """operand type, result type"""
    return ("i", "i") if o in INT else (("i", "b") if o in CMP else ("b", "b"))


class Bad(Exception):
    pass


# ---- reference parser over a token list: ('l',) leaf, ('o', op), ('u', op), ('?',), (':',), ('(',), (')',)
def parse(toks):
    pos = [0]
    leaf = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def expr(p):
        t = toks[pos[0]]
        pos[0] += 1
        if t[0] == "l":
            n = ("l", leaf[0])
            leaf[0] += 1
        elif t[0] == "u":
            n = ("u", t[1], expr(UPREC[t[1]]))
        elif t[0] == "(":
            n = expr(0)
            pos[0] += 1
        else:
            raise Bad(t)
        while True:
            t = peek()
            if t is None:
                return n
            if t[0] == "o" and PREC[t[1]] > p:
                pos[0] += 1
                n = ("o", t[1], n, expr(PREC[t[1]]))
            elif t[0] == "?" and 1 > p:
                pos[0] += 1
                a = expr(0)
                if peek() != (":",):
                    raise Bad("colon")
                pos[0] += 1
                n = ("?", n, a, expr(0))
            else:
                return n
    r = expr(0)
    if pos[0] != len(toks):
        raise Bad("trailing")
    return r


def types(n, want, env):
    """Assigns leaf types (env: leaf -> type) or raises Bad."""
    if n[0] == "l":
        if env.setdefault(n[1], want) != want:
            raise Bad("leaf")
    elif n[0] == "u":
        t = "b" if n[1] == "not" else "i"
        if t != want:
            raise Bad("un")
        types(n[2], t, env)
    elif n[0] == "o":
        a, r = optype(n[1])
        if r != want:
            raise Bad("op")
        types(n[2], a, env)
        types(n[3], a, env)
    else:
        types(n[1], "b", env)
        types(n[2], want, env)
        types(n[3], want, env)


def typed(n):
    for t in ("i", "b"):
        env = {}
        try:
            types(n, t, env)
            return t, env
        except Bad:
            pass
    return None, None


def ev(n, vals, trace):
    if n[0] == "l":
        trace.append(n[1])
        return vals[n[1]]
    if n[0] == "u":
        v = ev(n[2], vals, trace)
        return (not v) if n[1] == "not" else (wrap(-v) if n[1] == "-" else ~v)
    if n[0] == "o":
        a = ev(n[2], vals, trace)
        b = ev(n[3], vals, trace)
        if n[1] in ("<<", ">>") and not 0 <= b <= 63:
            raise Bad("shift")
        if n[1] == "/" and b == 0:
            raise Bad("zero")
        return BIN[n[1]](a, b)
    return ev(n[2], vals, trace) if ev(n[1], vals, trace) else ev(n[3], vals, trace)


def trees(lo, hi, ops):
    """Every grouping of leaves lo..hi."""
    if lo == hi:
        return [("l", lo)]
    r = []
    for k in range(lo, hi):
        for a in trees(lo, k, ops):
            for b in trees(k + 1, hi, ops):
                r.append(("o", ops[k], a, b))
    return r


def assignments(env, k):
    """Deterministic stream of leaf valuations."""
    ks = sorted(env)
    for s in range(k):
        vals = {}
        x = s * 7 + 3
        for j, l in enumerate(ks):
            x = (x * 1103515245 + 12345 + j * 97) & 0x7fffffff
            vals[l] = CAND[(x >> 8) % len(CAND)] if env[l] == "i" else bool((s >> j) & 1)
        yield vals


def choose(ref, alts, env, want, tries):
    """Leaf valuations on which ref differs from every alternative grouping that has a different meaning."""
    left = list(alts)
    out = []
    spare = None
    for vals in assignments(env, tries):
        try:
            r = ev(ref, vals, [])
        except Bad:
            continue
        if spare is None:
            spare = vals
        keep = []
        for a in left:
            try:
                if ev(a, vals, []) == r:
                    keep.append(a)
            except Bad:
                pass
        if len(keep) < len(left):
            out.append(vals)
            left = keep
            if not left:
                break
        if len(out) >= want:
            break
    return out or ([spare] if spare else [])


def leafsrc(l, t, v):
    return "t@(%d, %s)" % (l, lit(v)) if t == "i" else "b@(%d, %s)" % (l, "true" if v else "false")


def lit(v):
    return str(v)


def show(v):
    return ("true" if v else "false") if isinstance(v, bool) else str(v)


DECL = """fn t@(k: int, v: int) int {
println(k)
return v
}
fn b@(k: int, v: bool) bool {
println(k)
return v
}
"""


def src(toks, env, vals, sp=" "):
    out = []
    leaf = 0
    for t in toks:
        if t[0] == "l":
            out.append(leafsrc(leaf, env[leaf], vals[leaf]))
            leaf += 1
        elif t[0] == "u":
            out.append(t[1] + (" " if t[1] == "not" else ""))
        elif t[0] == "o":
            out.append(" %s " % t[1] if (sp or t[1] in LOG) else t[1])
        elif t[0] in "?:":
            out.append(" %s " % t[0])
        else:
            out.append(t[0])
    return "".join(out)


def case(key, toks, ref, rt, env, valss, ctx=0, sp=" "):
    body, exp = [], []
    for vals in valss:
        e = src(toks, env, vals, sp)
        tr = []
        r = ev(ref, vals, tr)
        exp += [str(x) for x in tr]
        if ctx == 0:
            body.append("println(%s)" % e)
        elif ctx == 1:
            body.append("x%d := %s\nprintln(x%d)" % (len(body), e, len(body)))
        elif ctx == 2:
            body.append("println(r%d@())" % len(body))
        elif ctx == 3:
            body.append("a%d := [%s, %s]\nprintln(a%d[0])\nprintln(a%d[1])" % (len(body), e, e, len(body), len(body)))
            exp += [str(x) for x in tr]
            exp.append(show(r))
        elif ctx == 4:
            body.append("y%d := fn() %s = %s\nprintln(y%d())" % (len(body), "int" if rt == "i" else "bool", e, len(body)))
        exp.append(show(r))
    decl = DECL
    if ctx == 2:
        decl += "".join("fn r%d@() %s { return %s }\n" % (i, "int" if rt == "i" else "bool", src(toks, env, v, sp)) for i, v in enumerate(valss))
    return Case(key, decl, "\n".join(body), exp)


def ops_src(toks):
    return "".join("x" if t[0] == "l" else (t[1] if t[0] in "uo" else t[0]) + (" " if t[0] in "uo" else "") for t in toks)


def flat(n, nvals, ctxs, tries=48):
    for ops in itertools.product(OPS, repeat=n):
        toks = [("l",)]
        for o in ops:
            toks += [("o", o), ("l",)]
        ref = parse(toks)
        rt, env = typed(ref)
        if rt is None:
            if n <= 2:
                yield Case("flat-ill " + " ".join(ops), "", "println(1 %s)" % " ".join("%s %d" % (o, 2 + i) for i, o in enumerate(ops)), [], mode="reject")
            continue
        alts = []
        for a in trees(0, n, ops):
            if a != ref:
                e2 = {}
                try:
                    types(a, rt, e2)
                    if e2 == env:
                        alts.append(a)
                except Bad:
                    pass
        valss = choose(ref, alts, env, nvals, tries)
        if not valss:
            continue
        for ctx in ctxs:
            yield case("flat %s ctx%d" % (" ".join(ops), ctx), toks, ref, rt, env, valss, ctx)
        if n <= 2:
            yield case("flat-tight %s" % " ".join(ops), toks, ref, rt, env, valss, 0, "")


def shapes(n, nvals):
    """Explicitly parenthesised trees of n operators, every shape and operator choice."""
    def toks_of(t, top=True):
        if t[0] == "l":
            return [("l",)]
        r = toks_of(t[2], False) + [("o", t[1])] + toks_of(t[3], False)
        return r if top else [("(",)] + r + [(")",)]
    for ops in itertools.product(OPS, repeat=n):
        for t in trees(0, n, ops):
            rt, env = typed(t)
            if rt is None:
                continue
            toks = toks_of(t)
            assert parse(toks) == t
            alts = [a for a in trees(0, n, ops) if a != t]
            good = []
            for a in alts:
                e2 = {}
                try:
                    types(a, rt, e2)
                    if e2 == env:
                        good.append(a)
                except Bad:
                    pass
            valss = choose(t, good, env, nvals, 32)
            if valss:
                yield case("shape " + ops_src(toks), toks, t, rt, env, valss)


KINDS = ["literal", "variable", "call", "field", "element"]


def operands(thorough):
    """the grouping does not depend on what kind of expression the operands are, nor on parentheses around the whole"""
    def render(toks, env, vals, kinds):
        out, leaf = [], 0
        for t in toks:
            if t[0] == "l":
                v, k, b = vals[leaf], kinds[leaf], env[leaf] != "i"
                if k == "literal" and (b or v >= 0):
                    e = show(v)
                elif k == "call":
                    e = ("q@(%s)" if b else "p@(%s)") % show(v)
                elif k == "field":
                    e = "s%d.%s" % (leaf, "b" if b else "i")
                elif k == "element":
                    e = ("bs[%d]" if b else "is[%d]") % leaf
                else:
                    e = "v%d" % leaf
                out.append(e)
                leaf += 1
            elif t[0] == "o":
                out.append(" %s " % t[1])
            else:
                out.append(t[0])
        return "".join(out)

    D = "struct so@ { i: int b: bool }\nfn p@(i: int) int = i\nfn q@(b: bool) bool = b\n"
    for n in (1, 2, 3):
        again = 130 if n == 2 else 0
        ks = KINDS if n == 1 else ["literal", "variable", "call"] if n == 2 or thorough else ["literal", "variable"]
        for ops in itertools.product(OPS, repeat=n):
            forms = []
            toks = [("l",)]
            for o in ops:
                toks += [("o", o), ("l",)]
            forms.append((toks, parse(toks), "flat"))
            if n == 2:
                forms.append(([("(",)] + toks[:3] + [(")",)] + toks[3:], None, "left"))
                forms.append((toks[:2] + [("(",)] + toks[2:] + [(")",)], None, "right"))
            for tk, ref, nm in forms:
                ref = ref or parse(tk)
                rt, env = typed(ref)
                if rt is None:
                    continue
                alts = []
                for a in trees(0, n, ops):
                    if a != ref:
                        e2 = {}
                        try:
                            types(a, rt, e2)
                            if e2 == env:
                                alts.append(a)
                        except Bad:
                            pass
                valss = choose(ref, alts, env, 1, 24 if n < 3 else 8)
                if not valss:
                    continue
                vals = valss[0]
                r = show(ev(ref, vals, []))
                body = ["v%d := %s" % (i, show(vals[i])) for i in range(n + 1)] + ["s%d := So@(%s, %s)" % (i, "0" if env[i] != "i" else vals[i], show(vals[i]) if env[i] != "i" else "true") for i in range(n + 1)]
                body += ["is := [%s]" % ", ".join("0" if env[i] != "i" else str(vals[i]) for i in range(n + 1)), "bs := [%s]" % ", ".join(show(vals[i]) if env[i] != "i" else "true" for i in range(n + 1))]
                exp = []
                for j, kinds in enumerate(itertools.product(ks, repeat=n + 1)):
                    e = render(tk, env, vals, kinds)
                    body.append("println(%s)\nprintln((%s))\nx%d := (%s)\nprintln(x%d)" % (e, e, j, e, j) if n < 3 else "println((%s))" % e)
                    exp += [r] * (3 if n < 3 else 1)
                # nor on how often the same expression occurs
                e = render(tk, env, vals, ["variable"] + ["literal"] * n)
                body += ["println((%s))" % e] * again
                exp += [r] * again
                yield Case("operands %s %s" % (nm, " ".join(ops)), D, "\n".join(body), exp)


def groupings(toks):
    """Alternative readings of a prefix/ternary token list: each obtained by altering the table."""
    alts = []
    for uminus in (8, 9, 10, 11):
        for un in (1, 3, 6, 11):
            old = dict(UPREC)
            UPREC["-"], UPREC["~"], UPREC["not"] = uminus, un, un
            try:
                alts.append(parse(toks))
            except Bad:
                pass
            finally:
                UPREC.update(old)
    return alts


def unary(n):
    """Prefix operators (0..3 stacked) on every leaf of flat sequences of n operators."""
    pre = [[], ["-"], ["~"], ["not"], ["-", "~"], ["~", "-"], ["not", "not"], ["~", "~"], ["~", "~", "~"], ["-", "~", "~"], ["~", "-", "~"], ["~", "~", "-"], ["-", "~", "-"], ["not", "not", "not"]]
    if n >= 2:
        pre = [[], ["-"], ["~"], ["not"]]
    for ops in itertools.product(OPS, repeat=n):
        for ps in itertools.product(pre, repeat=n + 1):
            if not any(ps):
                continue
            toks = []
            for i, p in enumerate(ps):
                if i:
                    toks.append(("o", ops[i - 1]))
                toks += [("u", u) for u in p] + [("l",)]
            if any(toks[i] == ("u", "-") and i and toks[i - 1] == ("u", "-") for i in range(len(toks))):
                continue
            ref = parse(toks)
            rt, env = typed(ref)
            if rt is None:
                continue
            alts = [a for a in groupings(toks) if a != ref and typed(a)[1] == env]
            valss = choose(ref, alts, env, 2, 24)
            if valss:
                yield case("unary " + ops_src(toks), toks, ref, rt, env, valss)


def ternaries(full):
    """Ternaries in every operand position of up to two operators, and nested in each other."""
    L = [("l",)]
    T = [("l",), ("?",), ("l",), (":",), ("l",)]
    ops = OPS
    forms = [T]
    for o in ops:
        O = [("o", o)]
        forms += [L + O + T, T + O + L,
                  [("l",), ("?",), ("l",), ("o", o), ("l",), (":",), ("l",)],
                  [("(",)] + T + [(")",)] + O + L, L + O + [("(",)] + T + [(")",)]]
        for o2 in ops:
            O2 = [("o", o2)]
            forms += [L + O + L + O2 + T, T + O + L + O2 + L, L + O + T + O2 + L,
                      [("l",), ("?",), ("l",), ("o", o), ("l",), (":",), ("l",), ("o", o2), ("l",)]]
    # nests of two and three ternaries: then-position, else-position, condition position (parenthesised and not)
    def nest(d):
        if d == 0:
            return [L]
        r = []
        for a in range(d):
            for b in range(d - a):
                c = d - 1 - a - b
                for x in nest(a):
                    for y in nest(b):
                        for z in nest(c):
                            cond = [("(",)] + x + [(")",)] if a else x
                            r.append(cond + [("?",)] + y + [(":",)] + z)
                            if b:
                                r.append(cond + [("?",), ("(",)] + y + [(")",), (":",)] + z)
        return r
    for d in (1, 2, 3):
        forms += nest(d)
    for u in ("-", "~", "not"):
        forms += [[("u", u)] + T, [("l",), ("?",), ("u", u), ("l",), (":",), ("l",)], [("l",), ("?",), ("l",), (":",), ("u", u), ("l",)],
                  [("u", u), ("(",)] + T + [(")",)]]
    for toks in forms:
        try:
            ref = parse(toks)
        except Bad:
            continue
        for want in ("i", "b"):
            env = {}
            try:
                types(ref, want, env)
            except Bad:
                continue
            valss = []
            seen = set()
            nb = sum(1 for x in env.values() if x == "b")
            for vals in assignments(env, min(64, 4 << nb)):
                k = tuple(vals[x] for x in sorted(env) if env[x] == "b")
                try:
                    ev(ref, vals, [])
                except Bad:
                    continue
                if k in seen:
                    continue
                seen.add(k)
                valss.append(vals)
            if valss:
                for ctx in (0, 1, 2, 3) if len(toks) <= 5 else (0,):
                    yield case("ternary %s %s ctx%d" % (ops_src(toks), want, ctx), toks, ref, want, env, valss, ctx)


# ---- postfix chains over a small type graph
PDECL = """struct inner@ { w: int q: []int g: fn(int) int ok: bool m: [][]int }
struct outer@ { v: int a: []int s: inner@ f: fn(int) int k: fn() inner@ z: []inner@ }
fn tr@(k: int, v: int) int {
println(k)
return v
}
fn mkI@(n: int) inner@ {
println(100 + n)
return Inner@(n + 1, [n, n + 2, n + 4], fn(x: int) int { println(200)
return x + n }, n > 2, [[n, n + 1], [n + 2, n + 3]])
}
fn mkO@(n: int) outer@ {
println(300 + n)
return Outer@(n, [n + 5, n + 6, n + 7], mkI@(n + 1), fn(x: int) int { println(400)
return (x * 2) + n }, fn() inner@ { println(500)
return mkI@(n + 2) }, [mkI@(n), mkI@(n + 3)])
}
fn arr@(n: int) []int {
println(600 + n)
return [n + 8, n + 9, n + 10]
}
fn fun@(n: int) fn(int) int {
println(700 + n)
return fn(x: int) int { println(800)
return (x * 3) + n }
}
fn plus@(a: int, b: int) int {
println(900)
return (a * 10) + b
}
fn get@(o: outer@, i: int) int {
println(901)
return o.a[i]
}
fn sub@(o: outer@) inner@ {
println(902)
return o.s
}
fn at@(a: []int, i: int) int {
println(903)
return a[i]
}
fn wrap@(o: inner@, n: int) outer@ {
println(904)
return mkO@(o.w + n)
}
"""


class PI:
    """Model of the declarations above."""

    def __init__(self):
        self.tr = []

    def mkI(self, n):
        self.tr.append(100 + n)
        return {"w": n + 1, "q": [n, n + 2, n + 4], "g": lambda x: (self.tr.append(200), x + n)[1], "ok": n > 2, "m": [[n, n + 1], [n + 2, n + 3]]}

    def mkO(self, n):
        self.tr.append(300 + n)
        s = self.mkI(n + 1)
        z = [self.mkI(n), self.mkI(n + 3)]
        return {"v": n, "a": [n + 5, n + 6, n + 7], "s": s, "f": lambda x: (self.tr.append(400), x * 2 + n)[1],
                "k": lambda: (self.tr.append(500), self.mkI(n + 2))[1], "z": z}

    def t(self, k, v):
        self.tr.append(k)
        return v


def steps(ty, d):
    """(source suffix, result type, function(model, value) -> value); d numbers traced arguments."""
    arg = "tr@(%d, 1)" % d
    idx = "[" + arg + "]"

    def ix(m, v):
        i = m.t(d, 1)
        return v[i]

    def call(m, v):
        return v(m.t(d, 1))

    def fld(n):
        return lambda m, v: v[n]
    if ty == "outer":
        yield ".v", "int", fld("v")
        yield ".a", "ints", fld("a")
        yield ".s", "inner", fld("s")
        yield ".f(%s)" % arg, "int", lambda m, v: call(m, v["f"])
        yield ".k()", "inner", lambda m, v: v["k"]()
        yield ".z", "inners", fld("z")
        yield ".get@(%s)" % arg, "int", lambda m, v: (lambda i: (m.tr.append(901), v["a"][i])[1])(m.t(d, 1))
        yield ".sub@()", "inner", lambda m, v: (m.tr.append(902), v["s"])[1]
    elif ty == "inner":
        yield ".w", "int", fld("w")
        yield ".q", "ints", fld("q")
        yield ".m", "intss", fld("m")
        yield ".g(%s)" % arg, "int", lambda m, v: call(m, v["g"])
        yield ".wrap@(%s)" % arg, "outer", lambda m, v: (lambda n: (m.tr.append(904), m.mkO(v["w"] + n))[1])(m.t(d, 1))
    elif ty == "ints":
        yield idx, "int", ix
        yield ".length", "int", lambda m, v: len(v)
        yield ".at@(%s)" % arg, "int", lambda m, v: (lambda i: (m.tr.append(903), v[i])[1])(m.t(d, 1))
    elif ty == "intss":
        yield idx, "ints", ix
        yield ".length", "int", lambda m, v: len(v)
    elif ty == "inners":
        yield idx, "inner", ix
    elif ty == "fun":
        yield "(%s)" % arg, "int", call
    elif ty == "int":
        yield ".plus@(%s)" % arg, "int", lambda m, v: (lambda i: (m.tr.append(900), v * 10 + i)[1])(m.t(d, 1))


ROOTS = [("mkO@(1)", "outer", lambda m: m.mkO(1)), ("mkI@(2)", "inner", lambda m: m.mkI(2)),
         ("arr@(3)", "ints", lambda m: (m.tr.append(603), [11, 12, 13])[1]),
         ("fun@(4)", "fun", lambda m: (m.tr.append(704), lambda x: (m.tr.append(800), x * 3 + 4)[1])[1]),
         ("[tr@(1, 21), tr@(2, 22)]", "ints", lambda m: [m.t(1, 21), m.t(2, 22)]),
         ("(mkO@(5))", "outer", lambda m: m.mkO(5)), ("tr@(9, 6)", "int", lambda m: m.t(9, 6)), ("7", "int", lambda m: 7)]


def chains(depth):
    def walk(src_, ty, fs, d):
        if ty == "int":
            yield src_, fs
        if d == depth:
            return
        for suf, t2, f in steps(ty, 50 + d):
            yield from walk(src_ + suf, t2, fs + [f], d + 1)
    for rs, rt, rf in ROOTS:
        for s, fs in walk(rs, rt, [], 0):
            def val(m):
                v = rf(m)
                for f in fs:
                    v = f(m, v)
                return v
            for form, wrapf in (("%s", lambda v: v), ("-%s", lambda v: wrap(-v)), ("~%s", lambda v: ~v), ("5 - %s", lambda v: 5 - v), ("%s * 3 + 1", lambda v: v * 3 + 1),
                                ("%s - 1 - 2", lambda v: v - 3), ("1 << %s & 7", None)):
                if wrapf is None or (form == "-%s" and ".plus@" in s and s[0] == "7" and False):
                    continue
                m = PI()
                v = val(m)
                yield Case("chain " + form % s, PDECL, "println(%s)" % (form % s), [str(x) for x in m.tr] + [str(wrap(wrapf(v)))])


def deep(ns):
    for n in ns:
        for op in OPS:
            a, r = optype(op)
            if a != r and n > 1:
                continue
            vs = [CAND[(3 * i + 1) % 4] for i in range(n + 1)] if a == "i" else [(i * 5 % 3) > 0 for i in range(n + 1)]
            env = {i: a for i in range(n + 1)}
            l = ("l", 0)
            for i in range(1, n + 1):
                l = ("o", op, l, ("l", i))
            rr = ("l", n)
            for i in range(n - 1, -1, -1):
                rr = ("o", op, ("l", i), rr)
            for nm, t in (("left", l), ("right", rr)):
                vals = dict(enumerate(vs))
                if op in ("<<", ">>"):
                    vals = {i: (1000003 if i == 0 else 1) for i in range(n + 1)} if nm == "left" else {i: (1 if i < n else 0) for i in range(n + 1)}
                    if nm == "right" and op == "<<":
                        vals = {i: 0 for i in range(n + 1)}
                tr = []
                try:
                    v = ev(t, vals, tr)
                except Bad:
                    continue

                def text(t):
                    if t[0] == "l":
                        return leafsrc(t[1], a, vals[t[1]])
                    x, y = text(t[2]), text(t[3])
                    return (("(%s)" % x if t[2][0] != "l" else x) + " %s " % t[1] + ("(%s)" % y if t[3][0] != "l" else y))
                yield Case("deep %s %s %d" % (nm, op, n), DECL, "println(%s)" % text(t), [str(x) for x in tr] + [show(v)])
            if op in INT:
                toks = [("l",)] + [x for _ in range(n) for x in (("o", op), ("l",))]
                ref = parse(toks)
                vals = {i: (1000003 if i == 0 else 1) for i in range(n + 1)}
                tr = []
                v = ev(ref, vals, tr)
                yield case("deep flat %s %d" % (op, n), toks, ref, "i", env, [vals])
        d2 = "fn s@(x: int) int {\nprintln(x)\nreturn x + 1\n}\nfn p@(x: int, y: int) int {\nprintln(x - y)\nreturn (x - y) + 3\n}\nfn i@(x: []int) int = x[0]\n"
        yield Case("deep call %d" % n, d2, "println(%s0%s)" % ("s@(" * n, ")" * n), [str(i) for i in range(n)] + [str(n)])
        yield Case("deep dot %d" % n, d2, "println(0%s)" % (".s@()" * n), [str(i) for i in range(n)] + [str(n)])
        # two-argument calls nested on the right and on the left
        x = 0
        ex = []
        for i in range(n):
            ex.append(str(x - i))
            x = (x - i) + 3
        s = "0"
        for i in range(n):
            s = "p@(%s, %d)" % (s, i)
        yield Case("deep call2 left %d" % n, d2, "println(%s)" % s, ex + [str(x)])
        x = 0
        ex = []
        s = "0"
        for i in range(n):
            s = "p@(%d, %s)" % (i, s)
            ex.append(str(i - x))
            x = (i - x) + 3
        yield Case("deep call2 right %d" % n, d2, "println(%s)" % s, ex + [str(x)])
        yield Case("deep paren %d" % n, d2, "println(%s7%s)" % ("(" * n, ")" * n), ["7"])
        yield Case("deep array %d" % n, d2, "println(%ss@(4)%s)" % ("[" * n, "]" * n + "[0]" * n), ["4", "5"])
        s = "s@(0)"
        for i in range(n):
            s = "[s@(%d), %s][1]" % (i + 1, s)
        yield Case("deep index %d" % n, d2, "println(%s)" % s, [str(i) for i in range(n, -1, -1)] + ["1"])
        s = "s@(99)"
        for i in range(n):
            s = "(s@(%d) > %d ? %s : s@(77))" % (n - i, n - i, s)
        yield Case("deep ternary %d" % n, d2, "println(%s)" % s, [str(i) for i in range(1, n + 1)] + ["99", "100"])
        s = "s@(99)"
        for i in range(n):
            s = "s@(%d) < %d ? s@(77) : %s" % (n - i, n - i, s)
        yield Case("deep ternary else %d" % n, d2, "println(%s)" % s, [str(i) for i in range(1, n + 1)] + ["99", "100"])
        for u, f in (("-", lambda v: -v), ("~", lambda v: ~v)):
            v = 5
            s = "5"
            for i in range(n):
                v = f(v)
                s = u + "(" + s + ")"
            yield Case("deep unary %s %d" % (u, n), "", "println(%s)" % s, [str(v)])
        yield Case("deep not %d" % n, "", "println(%strue)" % ("not " * n), ["true" if n % 2 == 0 else "false"])


def argorder():
    """Argument, element and receiver evaluation order for 0..6 arguments, with a nested call in every position."""
    d = "".join("fn f%d@(%s) int {\nprintln(%d)\nreturn %s\n}\n" % (n, ", ".join("p%d: int" % i for i in range(n)), 1000 + n, " + ".join(["0"] + ["(p%d * %d)" % (i, 10 ** i) for i in range(n)]))
                for n in range(7)) + DECL
    for n in range(7):
        base = [(i, i + 1) for i in range(n)]
        for pos in [None] + list(range(n)):
            for inner in range(7) if pos is not None else [0]:
                args, tr, vals = [], [], []
                for i in range(n):
                    if i == pos:
                        sub = ["t@(%d, %d)" % (10 * (i + 1) + j, j + 2) for j in range(inner)]
                        args.append("f%d@(%s)" % (inner, ", ".join(sub)))
                        tr += [str(10 * (i + 1) + j) for j in range(inner)] + [str(1000 + inner)]
                        vals.append(sum((j + 2) * 10 ** j for j in range(inner)))
                    else:
                        args.append("t@(%d, %d)" % (i, i + 1))
                        tr.append(str(i))
                        vals.append(i + 1)
                res = sum(v * 10 ** i for i, v in enumerate(vals))
                yield Case("args %d %s %s" % (n, pos, inner), d, "println(f%d@(%s))" % (n, ", ".join(args)), tr + [str(1000 + n), str(res)])
                if n:
                    yield Case("args dot %d %s %s" % (n, pos, inner), d, "println(%s.f%d@(%s))" % (args[0], n, ", ".join(args[1:])), tr + [str(1000 + n), str(res)])
                    yield Case("elems %d %s %s" % (n, pos, inner), d, "a := [%s]\nfor x in a { println(x) }" % ", ".join(args), tr + [str(v) for v in vals])


EDECL = """struct in@ { v: int }
struct st@ { v: int a: []int n: in@ m: [][]int z: []in@ f: fn(st@) int }
enum en@ { Two@(x: int, y: int) Three@(p: int, q: int, r: int) }
struct tw@ { x: int y: int }
struct th@ { p: int q: int r: int }
fn mut@(s: st@) int {
s.v = s.v + 10
s.a[1] = s.a[1] + 10
s.n.v = s.n.v + 10
s.m[0][1] = s.m[0][1] + 10
s.z[0].v = s.z[0].v + 10
return 1
}
fn new@() st@ = St@(5, [0, 5, 0], In@(5), [[0, 5]], [In@(5)], mut@)
fn reset@(s: st@) {
s.v = 5
s.a[1] = 5
s.n.v = 5
s.m[0][1] = 5
s.z[0].v = 5
}
fn rd@(s: st@) int = s.v
fn id@(x: int) int = x
fn two@(x: int, y: int) int = (x * 100) + y
fn three@(x: int, y: int, z: int) int = (x * 10000) + (y * 100) + z
fn tob@(x: int) bool = x > 7
"""
EREAD = ["s.v", "s.n.v", "s.a[1]", "a[1]", "a[i]", "s.m[0][1]", "s.m[k][i]", "s.z[0].v", "s.z[k].v", "n.v", "rd@(s)", "s.rd@()", "id@(a[i])", "(s.v)", "-(-s.v)", "(true ? a[i] : 0)",
         "[s.v][0]", "(s.n.v + 0)", "new@().v", "s.a[s.m[0][1] - s.v + 1]"]
EMUT = ["mut@(s)", "s.mut@()", "g(s)", "h()", "s.f(s)", "id@(mut@(s))", "(mut@(s) + 0)", "(true ? s.mut@() : 0)", "[9, 1][h()]", "[s.f(s)][0]", "(-(-g(s)))", "fn() int { return mut@(s) }()", "(mut@(s) * k + 1)"]


def effects():
    """Operands which read storage next to operands which assign it, in every pair of positions of every operator and call form."""
    def forms():
        for o in INT:
            yield "%%s %s %%s" % o, lambda v, o=o: BIN[o](v[0], v[1])
        for o in CMP:
            yield "(%%s %s %%s)" % o, lambda v, o=o: BIN[o](v[0], v[1])
        for o in LOG:
            yield "tob@(%%s) %s tob@(%%s)" % o, lambda v, o=o: BIN[o](v[0] > 7, v[1] > 7)
            yield "%%s > 7 %s %%s == 1" % o, lambda v, o=o: BIN[o](v[0] > 7, v[1] == 1)
        yield "two@(%s, %s)", lambda v: v[0] * 100 + v[1]
        yield "id@(%s).two@(%s)", lambda v: v[0] * 100 + v[1]
        yield "w(%s, %s)", lambda v: v[0] * 100 + v[1]
        yield "fn(x: int, y: int) int { return x * 100 + y }(%s, %s)", lambda v: v[0] * 100 + v[1]
        yield "[%s, %s][0]", lambda v: v[0]
        yield "[%s, %s][1]", lambda v: v[1]
        yield "Tw@(%s, %s).x", lambda v: v[0]
        yield "Tw@(%s, %s).y", lambda v: v[1]
        yield "three@(%s, 7, %s)", lambda v: v[0] * 10000 + 700 + v[1]
        yield "three@(id@(4), %s, %s)", lambda v: 40000 + v[0] * 100 + v[1]
        yield "Th@(%s, 3, %s).p", lambda v: v[0]
        yield "big[%s] + %s", lambda v: v[0] * 3 + v[1]
        yield "%s - big[%s]", lambda v: v[0] - v[1] * 3
        yield "(%s > 7 ? 1000 : 2000) + %s", lambda v: (1000 if v[0] > 7 else 2000) + v[1]
        yield "(k == 0 ? %s : 3) * %s", lambda v: v[0] * v[1]
        yield "(%s + 2) * %s", lambda v: wrap((v[0] + 2) * v[1])
        yield "%s * (2 + %s)", lambda v: wrap(v[0] * (2 + v[1]))
    setup = "s := new@()\na := s.a\nn := s.n\ni := 1\nk := 0\ng := mut@\nw := two@\nh := fn() int { return mut@(s) }\nbig := array(40, 0)\nfor q in 0 .. 40 { big[q] = q * 3 }\n"
    fs = list(forms())
    for r in EREAD:
        for m in EMUT:
            body, exp = setup, []
            for f, ev_ in fs:
                for slots in ("rm", "mr", "mm") if r == EREAD[0] else ("rm", "mr"):
                    val = 5
                    vs, srcs = [], []
                    for slot in slots:
                        if slot == "r":
                            vs.append(5 if r.startswith("new@") else val)
                            srcs.append(r)
                        else:
                            val += 10
                            vs.append(1)
                            srcs.append(m)
                    body += "reset@(s)\nprintln(%s)\nprintln(s.v)\n" % (f % tuple(srcs))
                    exp += [show(ev_(vs)), str(val)]
            yield Case("effects %s | %s" % (r, m), EDECL, body, exp)
    # comparisons whose outcome differs before and after the assignment
    for res in (5, 10, 15):
        decl = EDECL.replace("return 1\n}\nfn new@", "return %d\n}\nfn new@" % res)
        assert decl != EDECL
        for r in EREAD:
            for m in EMUT:
                if "h()]" in m or "* k" in m:
                    continue
                body, exp = setup, []
                for o in CMP:
                    for slots in ("rm", "mr"):
                        vs = [res if sl == "m" else 5 if slots == "rm" or r.startswith("new@") else 15 for sl in slots]
                        e = "%s %s %s" % (m if slots[0] == "m" else r, o, m if slots[1] == "m" else r)
                        v = BIN[o](vs[0], vs[1])
                        for ctx, ex in (("println(%s)", show(v)), ("if %s { println(1) } else { println(0) }", "1" if v else "0"), ("println(%s ? 1 : 0)", "1" if v else "0")):
                            body += "reset@(s)\n%s\n" % (ctx % e)
                            exp.append(ex)
                yield Case("effects compared %d %s | %s" % (res, r, m), decl, body, exp)


RDECL = """struct in@ { v: int }
struct rp@ { a: []int m: [][]int z: []in@ b: bx@ c: cx@ f: fn(int) int }
struct cx@ { s: string g: []fn(int) int }
struct bx@ { a: []int n: in@ }
fn oldf@(x: int) int = 1000 + x
fn newf@(x: int) int = 2000 + x
fn make@(k: int, f: fn(int) int, s: string) rp@ = Rp@([k, k + 1, k + 2], [[k, k + 1], [k + 2, k + 3]], [In@(k), In@(k + 1)], Bx@([k, k + 1], In@(k)), Cx@(s, [f, f]), f)
fn copy@(to: rp@, from: rp@) int {
to.a = from.a
to.m = from.m
to.z = from.z
to.b = from.b
to.c = from.c
to.f = from.f
return 1
}
fn rep@(s: rp@) int = copy@(s, make@(20, newf@, "new"))
fn inner@(s: rp@) int {
s.m[1] = [90, 91]
s.b.a = [95, 96]
s.b.n = In@(97)
s.z[1] = In@(98)
s.c.g[1] = newf@
return 1
}
fn id@(x: int) int = x
fn ia@(a: []int) []int = a
fn at@(a: []int, i: int) int = a[i]
fn plus@(n: in@, i: int) int = n.v + i
fn sum@(x: int, a: []int, y: int) int = (x * 1000) + (a[0] * 10) + y
fn seq@(x: int, y: int) int = y
"""
# expression, value when the storage is replaced (MUT = rep@) and when what it refers to is (MUT = inner@)
RFORMS = [("s.a[%s]", 11, 11), ("s.m[%s][0]", 12, 90), ("s.m[1][%s]", 13, 13), ("s.z[%s].v", 11, 98), ("s.b.a[%s]", 11, 11), ("s.a.at@(%s)", 11, 11), ("at@(s.a, %s)", 11, 11), ("s.b.n.plus@(%s)", 11, 11),
          ("plus@(s.b.n, %s)", 11, 11), ("s.b.n.plus@(%s)", 11, 11), ("s.f(%s)", 1001, 1001), ("s.c.g[0](%s)", 1001, 1001), ("s.c.g[1](%s)", 1001, 1001), ("s.c.g[%s](5)", 1005, 2005), ("s.c.s.byte(%s)", 108, 108), ("s.c.s.length - %s", 2, 2),
          ("s.a.length + %s", 4, 4), ("(s.a)[%s]", 11, 11), ("ia@(s.a)[%s]", 11, 11), ("(true ? s.a : s.b.a)[%s]", 11, 11), ("(false ? s.b.a : s.m[1])[%s]", 13, 13), ("[s.a][0][%s]", 11, 11), ("Bx@(s.a, s.b.n).a[%s]", 11, 11),
          ("s.a[s.a[%s] - 10]", 21 - 0, 11), ("s.a[id@(%s)] + s.a[0]", 31, 21), ("s.a[0] + s.a[%s]", 21, 21), ("s.b.n.v * s.a[%s]", 110, 110), ("s.b.a[%s + 0] - s.b.a[0]", 11 - 20, 11 - 95), ("sum@(1, s.a, %s)", 1101, 1101), ("sum@(id@(2), s.m[1], %s)", 2121, 2121),
          ("sum@(%s, s.a, 3)", 1203, 1103), ("[s.a[%s], 7][0]", 11, 11), ("s.m[seq@(1, %s)][seq@(2, 1)]", 13, 91), ("s.m[s.m.length - %s][%s - 1]", None, None), ("(s.a[%s] > 15 ? 1 : 0)", 0, 0), ("(~s.a[%s])", -12, -12)]
RFORMS = [f for f in RFORMS if f[0] != "s.a[s.a[%s] - 10]" and f[1] is not None]
RCTX = [("println(%s)", None), ("x := %s\nprintln(x)", None), ("y = %s\nprintln(y)", None), ("t.v = %s\nprintln(t.v)", None), ("u[1] = %s\nprintln(u[1])", None), ("println(seq@(3, %s))", None), ("println([4, %s][1])", None), ("println((fn() int = %s)())", None), ("for q in 0 .. 1 { println(%s) }", None),
        ("println(In@(%s).v)", None), ("match Some(%s) {\ncase Some(q): println(q)\ncase None(): println(0)\n}", None), ("println(id@(id@(%s)))", None)]
RMUT = ["MUT(s)", "s.MUT()", "g(s)", "h()", "id@(MUT(s))", "(MUT(s) * 1)", "(true ? MUT(s) : 0)", "[0, 1][h()]", "fn() int = MUT(s)()", "(0 - (0 - g(s)))"]
RMUT[8] = "fn() int { return MUT(s) }()"


def replaced():
    """A reference which has been loaded is what the expression goes on with, also when a later index, argument or operand replaces the place it was loaded from; same for targets of assignments."""
    pre = "s := make@(10, oldf@, \"old\")\no := make@(0, oldf@, \"\")\ng := MUT\nh := fn() int = MUT(s)\ny := 0\nt := In@(0)\nu := [0, 0]\n"
    for k, mut in enumerate(("rep@", "inner@")):
        for m in RMUT:
            body, exp = pre.replace("MUT", mut), []
            for f, e0, e1 in RFORMS:
                e = (e0, e1)[k]
                for cx, _ in RCTX if m in RMUT[:2] else RCTX[:2]:
                    body += "copy@(s, make@(10, oldf@, \"old\"))\n" + cx % (f % m.replace("MUT", mut)) + "\n"
                    exp.append(str(e))
            # one function per slice keeps the number of locals small
            yield Case("replaced %s %s" % (mut, m), RDECL, blocks(body, pre.replace("MUT", mut)), exp)
    targets = [("s.a[%s] = 77", "o.a[1]", "s.a[1]"), ("s.m[1][%s] = 77", "o.m[1][1]", "s.m[1][1]"), ("s.z[%s].v = 77", "o.z[1].v", "s.z[1].v"), ("s.b.a[%s] = 77", "o.b.a[1]", "s.b.a[1]"), ("ia@(s.a)[%s] = 77", "o.a[1]", "s.a[1]"), ("(s.a)[%s] = 77", "o.a[1]", "s.a[1]")]
    for m in RMUT:
        body, exp = pre.replace("MUT", "rep@"), []
        for f, old, new in targets:
            if f.startswith("("):
                continue
            body += "copy@(s, make@(10, oldf@, \"old\"))\ncopy@(o, s)\n" + f % m.replace("MUT", "rep@") + "\nprintln(%s)\nprintln(%s)\n" % (old, new)
            exp += ["77", {"s.a[1]": "21", "s.m[1][1]": "23", "s.z[1].v": "21", "s.b.a[1]": "21"}[new]]
        # the right hand side comes first
        body += "copy@(s, make@(10, oldf@, \"old\"))\ncopy@(o, s)\ns.a[1] = %s\nprintln(o.a[1])\nprintln(s.a[1])\n" % m.replace("MUT", "rep@")
        exp += ["11", "1"]
        body += "copy@(s, make@(10, oldf@, \"old\"))\ncopy@(o, s)\ns.b.n.v = %s\nprintln(o.b.n.v)\nprintln(s.b.n.v)\n" % m.replace("MUT", "rep@")
        exp += ["10", "1"]
        yield Case("replaced target %s" % m, RDECL, body, exp)


def blocks(body, pre):
    """Statements of a body after its preamble, each group in a scope of its own."""
    rest = body[len(pre):]
    return pre + "".join("if true {\ncopy@(s, make@" + p + "}\n" for p in rest.split("copy@(s, make@")[1:])


def stops():
    """An operand which cannot be evaluated stops the program in every position of every operator, call and statement form, after the operands before it and before those after it."""
    d = DECL + "struct tw@ { x: int y: int }\nstruct hd@ { a: []int m: [][]int }\nfn two@(x: int, y: int) int = x + y\nfn id@(x: int) int = x\n"
    pre = "a := [1, 2]\ni := 2\nh := Hd@(a, [a])\nw := two@\ny := true\nn := false\nz := 0\nprintln(7)\n"
    X = ["a[i]", "a[2]", "a[-1]", "h.a[i]", "h.m[0][i]", "h.m[1][0]", "a[a[1]]", "[4, 5][i]", "-a[i]", "(a[i] + 1)", "(y ? a[i] : 0)", "id@(a[i])", "a[i].id@()", "Tw@(a[i], 1).x", "\"ab\".byte(i)", "(a[i] * 0)", "(0 & a[i])", "a[i - 0]"]
    T = "t@(%d, %d)"
    forms = []
    for o in INT + CMP:
        forms.append("%%s %s %%s" % o)
    forms += ["two@(%s, %s)", "w(%s, %s)", "id@(%s).two@(%s)", "Tw@(%s, %s).x", "Tw@(%s, %s).y", "[%s, %s][0]", "[%s, %s][1]", "(%s + 0) - %s", "(%s) * 0 + %s * 0"]
    for f in forms:
        for x in X:
            st = "y = %s" if any(" %s " % o in f for o in CMP) else "z = id@(%s)"
            yield Case("stop %s left %s" % (f, x), d, pre + st % (f % (x, T % (1, 1))), ["7"], "panic")
            yield Case("stop %s right %s" % (f, x), d, pre + st % (f % (T % (1, 1), x)), ["7", "1"], "panic")
    # both operands of and/or are evaluated, whatever the left one is
    lefts = {"true": [], "false": [], "y": [], "n": [], "b@(1, true)": ["1"], "b@(1, false)": ["1"], "i < 2": [], "i < a.length": [], "i >= 2": [], "not y": [], "not n": [], "(y and n)": [], "(y or n)": [], "i == 2": [], "(y ? n : y)": []}
    for l, tr in lefts.items():
        for o in ("and", "or"):
            for x in X:
                for wrap in ("%s == 1", "not (%s == 1)", "1 < %s", "y and %s == 1", "(%s == 1 or y)"):
                    if wrap != "%s == 1" and (x not in ("a[i]", "h.a[i]", "-a[i]") or l.startswith("(")):
                        continue
                    e = "%s %s %s" % (l, o, wrap % x)
                    yield Case("stop " + e, d, pre + "y = %s\nprintln(8)" % e, ["7"] + tr, "panic")
            for cx in ("if %s { println(8) }", "if n { println(6) } elseif %s { println(8) } else { println(9) }", "while %s {\nprintln(8)\nreturn\n}", "println((%s) ? 8 : 9)", "println(%s)", "yy := %s", "if not (%s) { println(8) }"):
                for x in ("a[i]", "h.m[0][i]"):
                    yield Case("stop in %s: %s %s %s" % (cx, l, o, x), d, pre + cx % ("%s %s %s == 1" % (l, o, x)) + "\nprintln(8)", ["7"] + tr, "panic")
    for cx in ("%s", "println(%s)", "zz := %s", "z = %s", "a[0] = %s", "a[%s] = 1", "h.a = [%s]", "for q in 0 .. %s { }", "for q in %s .. 9 { }", "for q in [%s] { }", "if %s == 1 { }", "if %s == 1 { } else { }", "if n { } elseif %s == 1 { }", "while %s == 1 { }", "match Some(%s) {\ncase Some(q):\ncase None():\n}",
               "[%s]", "Tw@(1, %s)", "fn(q: int) { }(%s)", "f := fn() int = %s\nf()", "%s + 1", "%s == 1", "%s == 1 and n", "y or %s == 1", "y ? %s : 1", "-(%s)", "~(%s)", "not (%s == 1)", "h.m[0][%s]", "Hd@([%s], [a]).a", "[1, 2][%s]"):
        for x in X:
            st = cx % x
            if st[0] in "[(-":
                continue  # would continue the line before
            yield Case("stop statement %s %s" % (cx, x), d, pre + st + "\nprintln(8)", ["7"], "panic")


def main():
    c = Check("C02", "model_checking",
              "reference model: one precedence table parsed by an independent Pratt parser and a tracing evaluator; each trace is every operand evaluation in order plus the result; "
              "operand values are chosen so that every other grouping of the same tokens yields a different result where one exists",
              ["shift counts outside 0..63 and division by zero are not explored"])
    c.run_cases("ternary", ternaries(c.thorough), batch=150)
    c.run_cases("args", argorder(), batch=100)
    c.run_cases("effects", effects(), batch=3)
    c.run_cases("replaced", replaced(), batch=2)
    c.run_cases("operands", operands(c.thorough), batch=40)
    c.run_cases("stops", stops(), batch=300)
    c.run_cases("deep", deep([1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 40] + ([64, 100] if c.thorough else [])), batch=60)
    c.run_cases("chains", chains(5 if c.thorough else 4), batch=60)
    c.run_cases("flat1", flat(1, 4, (0, 1, 2, 3, 4)), batch=200)
    c.run_cases("flat2", flat(2, 3, (0, 1, 2, 3, 4) if c.thorough else (0, 2, 3)), batch=200)
    c.run_cases("flat3", flat(3, 3, (0,)), batch=250)
    c.run_cases("unary1", unary(1), batch=250)
    c.run_cases("unary2", unary(2), batch=250)
    c.run_cases("shapes2", shapes(2, 3), batch=250)
    c.run_cases("shapes3", shapes(3, 2), batch=250)
    if c.thorough:
        c.run_cases("flat4", flat(4, 2, (0,), 32), batch=250)
    c.finish()
