"""C01: integer and boolean operators on every operand form over a boundary value set."""
from core import Case, Check

M = 1 << 63
def wrap(x):
    x &= M - 1
    return x - M if x >= M >> 1 else x

def div(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q

INT_OPS = {
    "+": lambda a, b: wrap(a + b), "-": lambda a, b: wrap(a - b), "*": lambda a, b: wrap(a * b),
    "/": lambda a, b: wrap(div(a, b)), "&": lambda a, b: wrap(a & b), "|": lambda a, b: wrap(a | b),
    "^": lambda a, b: wrap(a ^ b), "<<": lambda a, b: wrap(a << (b & 63)), ">>": lambda a, b: wrap(a >> (b & 63)),
}
CMP_OPS = {"==": lambda a, b: a == b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
           ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
MAX = (1 << 62) - 1
MIN = -(1 << 62)

def values(thorough):
    v = {0, 1, 2, 3, 5, 7, 8, 10, 63, 64, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536}
    for k in (30, 31, 32, 33, 47, 61):
        v |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
    v |= {MAX, MAX - 1, 0x1555555555555555, 0x2AAAAAAAAAAAAAAA, 0x0123456789abcdef, 0x3fffffff00000000}
    if thorough:
        for k in range(0, 62):
            v |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
        v |= set(range(0, 40))
    v = {x for x in v if x <= MAX}
    v |= {-x for x in v}
    v |= {MIN, MIN + 1}
    return sorted(v)

SHIFTS = [0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 47, 60, 61, 62, 63, 64, 65, 69, 126, 127, 128, 256, -1, -2, -3, -61, -62, -63, -64, -65, 1 << 32, (1 << 32) + 3, MAX, MIN]

def lit(n):
    return "(%d)" % n if n < 0 else str(n)

def hexlit(n):
    return "(-0x%x)" % -n if n < 0 else "0x%x" % n

def b2s(b):
    return "true" if b else "false"

# operand forms: how the value of parameter p (int, already bound to name p) is presented to the operator
FORMS = ["var", "param", "field", "elem", "captured", "call", "nested"]

DECLS = """struct st@ { u: int v: int }
fn id@(x: int) int = x
"""

def operand(form, which):
    return {"param": which, "var": "v" + which, "field": "s%s.v" % which, "elem": "a%s[1]" % which,
            "call": "id@(%s)" % which, "captured": which, "nested": "((%s))" % which}[form]

def prep(form, which):
    if form == "var":
        return "v%s := %s\n" % (which, which)
    if form == "field":
        return "s%s := St@(0, %s)\n" % (which, which)
    if form == "elem":
        return "a%s := [0, %s]\n" % (which, which)
    return ""

def fn_for(op, fa, fb, ret):
    ea, eb = operand(fa, "a"), operand(fb, "b")
    body = prep(fa, "a") + prep(fb, "b")
    if "captured" in (fa, fb):
        caps = "f := fn() %s { return %s %s %s }\nreturn f()\n" % (ret, ea, op, eb)
        return "fn f@(a: int, b: int) %s {\n%s%s}\n" % (ret, body, caps)
    return "fn f@(a: int, b: int) %s {\n%sreturn %s %s %s\n}\n" % (ret, body, ea, op, eb)

def gen_forms(vals):
    arr = "[" + ", ".join(lit(v) for v in vals) + "]"
    for op in list(INT_OPS) + list(CMP_OPS):
        isint = op in INT_OPS
        f = INT_OPS.get(op) or CMP_OPS[op]
        rv = SHIFTS if op in ("<<", ">>") else [v for v in vals if not (op == "/" and v == 0)]
        rarr = "[" + ", ".join(lit(v) for v in rv) + "]"
        expect = [str(f(a, b)) if isint else b2s(f(a, b)) for a in vals for b in rv]
        for fa in FORMS:
            for fb in FORMS:
                yield Case("form %s %s %s" % (op, fa, fb), DECLS + fn_for(op, fa, fb, "int" if isint else "bool"),
                           "xs := %s\nys := %s\nfor x in xs {\nfor y in ys {\nprintln(f@(x, y))\n}\n}" % (arr, rarr),
                           expect)

def gen_literals(vals):
    for op in list(INT_OPS) + list(CMP_OPS):
        isint = op in INT_OPS
        f = INT_OPS.get(op) or CMP_OPS[op]
        rv = SHIFTS if op in ("<<", ">>") else [v for v in vals if not (op == "/" and v == 0)]
        for a in vals:
            expect = [str(f(a, b)) if isint else b2s(f(a, b)) for b in rv]
            for form in ("ll", "dd", "hh", "lv", "vl"):
                lines = ["a := " + lit(a)]
                if form == "lv":
                    lines.append("b := 0")
                for b in rv:
                    if form == "ll":
                        lines.append("println(%s %s %s)" % (lit(a), op, hexlit(b)))
                    elif form == "dd":
                        lines.append("println(%s %s %s)" % (lit(a), op, lit(b)))
                    elif form == "hh":
                        lines.append("println(%s %s %s)" % (hexlit(a), op, hexlit(b)))
                    elif form == "lv":
                        lines.append("b = %s\nprintln(%s %s b)" % (lit(b), lit(a), op))
                    else:
                        lines.append("println(a %s %s)" % (op, lit(b)))
                yield Case("lit %s %s %d" % (form, op, a), "", "\n".join(lines), expect)

def gen_unary(vals):
    un = {"-": lambda a: wrap(-a), "~": lambda a: wrap(~a)}
    for u, f in un.items():
        ex = []
        body = ["x := 0", "s := St@(0, 0)", "ar := [0, 0]"]
        for a in vals:
            body.append("x = %s\ns.v = x\nar[1] = x\nprintln(%sx)\nprintln(%ss.v)\nprintln(%sar[1])\nprintln(%sid@(x))\nprintln(%s%s)" % (lit(a), u, u, u, u, u, lit(a)))
            ex += [str(f(a))] * 5
            body.append("f%s := fn() int { return %sx }\nprintln(f%s())" % (str(len(ex)), u, str(len(ex))))
            ex.append(str(f(a)))
        # one case per chunk of values keeps functions small
        yield Case("unary " + u, DECLS, "\n".join(body), ex)
    for i in range(0, len(vals), 8):
        ch = vals[i:i + 8]
        body = []
        ex = []
        for a in ch:
            body.append("println(%s)\nprintln(%s)\nprintHex(%s)" % (lit(a), hexlit(a), lit(a)))
            ex += [str(a), str(a), "0x%x" % (a & ((1 << 64) - 1))]
            body.append("println(id@(%s))\nprintln(St@(%s, %s).v)\nprintln([%s][0])" % (lit(a), lit(a), hexlit(a), hexlit(a)))
            ex += [str(a)] * 3
        yield Case("literal chunk %d" % i, DECLS, "\n".join(body), ex)

def gen_digits():
    """literals of every length, first digit, tail, letter case, leading zeros and sign: as operands, initialisers, elements and arguments"""
    def hexes():
        for n in range(1, 17):
            for d in "0123456789abcdef":
                for tail in {t[:n - 1] for t in ("0" * 15, "f" * 15, "8" * 15, "7" * 15, "123456789abcdef", "fedcba987654321", "a0b0c0d0e0f0a0b")}:
                    yield "0x" + d + tail, int(d + tail, 16)
                    yield "0x" + (d + tail).upper(), int(d + tail, 16)
    def decs():
        for n in range(1, 20):
            for d in "123456789":
                for tail in {t[:n - 1] for t in ("0" * 18, "9" * 18, "123456789012345678", "010101010101010101")}:
                    yield d + tail, int(d + tail)
    seen = {}
    for kind, g in (("hex", hexes()), ("dec", decs())):
        seen[kind] = sorted({(v, t) for t, v in g if v <= MAX})
    for kind, all_ in seen.items():
        for sign in ("", "-"):
            for k in range(0, len(all_), 60):
                body, ex = "", []
                for v, t in all_[k:k + 60]:
                    w = -v if sign else v
                    body += "println(%s%s)\nprintln(0 + %s)\nprintln([7, %s%s][1])\n" % (sign, t, "(%s%s)" % (sign, t) if sign else t, sign, t)
                    ex += [str(w)] * 3
                yield Case("digits %s %s %d" % (kind, sign, k), "", body, ex)


def gen_conditions(vals):
    vs = [v for v in vals if abs(v) <= 3 or v in (MIN, MAX, 1 << 31, -(1 << 31), 1 << 32)]
    arr = "[" + ", ".join(lit(v) for v in vs) + "]"
    for op, f in CMP_OPS.items():
        for neg in (False, True):
            cond = "a %s b" % op
            if neg:
                cond = "not (%s)" % cond
            ex = []
            for a in vs:
                for b in vs:
                    r = f(a, b) != neg
                    ex += ["1" if r else "0"] * 3 + [b2s(r)]
            decl = """fn i@(a: int, b: int) int { if %s { return 1 }
return 0 }
fn w@(a: int, b: int) int { n := 0
while (%s) and n == 0 { n = 1 }
return n }
fn t@(a: int, b: int) int = %s ? 1 : 0
fn e@(a: int, b: int) bool = %s
""" % (cond, cond, cond, cond)
            yield Case("cond %s %s" % (op, neg), decl,
                       "xs := %s\nfor x in xs {\nfor y in xs {\nprintln(i@(x, y))\nprintln(w@(x, y))\nprintln(t@(x, y))\nprintln(e@(x, y))\n}\n}" % arr, ex)

NL = [0, 1, 2, 3, -1, -2, 8, 62, 1 << 31, -(1 << 31) - 1]
NV = [0, 1, 2, -1, -2, 4, 7, -7, 255, -256, 1 << 31, MAX, MIN, -(1 << 61)]
NS = [0, 1, 2, 31, 62]


def inner(thorough):
    """(name, text, value function or None when undefined, needs w) of every operand built by one operator"""
    yield "-v", "-v", lambda v, w: wrap(-v)
    yield "~v", "~v", lambda v, w: wrap(~v)
    for op, f in INT_OPS.items():
        sh = op in ("<<", ">>")
        def g(a, b, op=op, f=f, sh=sh):
            if a is None or b is None or (op == "/" and b == 0):
                return None
            return f(a, b)
        yield "v%sw" % op, "v %s w" % op, lambda v, w, g=g: g(v, w)
        for k in (NS if sh else [1, 2, -1] + ([0, 8, 1 << 31] if thorough else [])):
            if op == "/" and k == 0:
                continue
            yield "v%s%d" % (op, k), "v %s %s" % (op, lit(k)), lambda v, w, g=g, k=k: g(v, k)
        for k in [1, -1] + ([0, 2] if thorough else []):
            yield "%d%sv" % (k, op), "%s %s v" % (lit(k), op), lambda v, w, g=g, k=k: g(k, v)


def gen_nested(thorough):
    """every operator on an operand that is itself the result of an operator, the other one a variable or a literal"""
    arr = "[" + ", ".join(lit(v) for v in NV) + "]"
    for op in ["-", "~"]:
        fs, ex = [], []
        for i, (n, t, g) in enumerate(inner(thorough)):
            u = (lambda a: wrap(-a)) if op == "-" else (lambda a: wrap(~a))
            pts = [(v, w) for v in NV for w in (2, -3) if g(v, w) is not None]
            fs.append("fn u%d@(v: int, w: int) int = %s(%s)\n" % (i, op, t))
            for v, w in pts:
                ex.append((i, v, w, u(g(v, w))))
        for k in range(0, len(ex), 300):
            ch = ex[k:k + 300]
            yield Case("unary of operator %s %d" % (op, k), "".join(fs), "\n".join("println(u%d@(%s, %s))" % (i, lit(v), lit(w)) for i, v, w, e in ch), [str(e) for i, v, w, e in ch])
    for op in list(INT_OPS) + list(CMP_OPS):
        isint = op in INT_OPS
        f0 = INT_OPS.get(op) or CMP_OPS[op]
        sh = op in ("<<", ">>")
        def app(a, b):
            if a is None or b is None or (op == "/" and b == 0):
                return None
            return f0(a, b)
        for n, t, g in inner(thorough):
            fs, calls, ex = [], [], []
            def add(body, fun):
                i = len(fs)
                # undefined points are left out: the argument list holds the defined ones
                pts = [(v, w) for v in NV for w in (2, -3) if fun(v, w) is not None]
                if not pts:
                    return
                fs.append("fn n%d@(v: int, w: int) %s = %s\n" % (i, "int" if isint else "bool", body))
                # one loop over all of NV when every point is defined
                if len(pts) == 2 * len(NV):
                    calls.append("for x in xs {\nprintln(n%d@(x, 2))\nprintln(n%d@(x, -3))\n}" % (i, i))
                else:
                    calls.append("\n".join("println(n%d@(%s, %s))" % (i, lit(v), lit(w)) for v, w in pts))
                for v, w in pts:
                    r = fun(v, w)
                    ex.append(str(r) if isint else b2s(r))
            add("(%s) %s w" % (t, op), lambda v, w: app(g(v, w), w))
            add("w %s (%s)" % (op, t), lambda v, w: app(w, g(v, w)))
            for k in NL:
                add("(%s) %s %s" % (t, op, lit(k)), lambda v, w: app(g(v, w), k))
                add("%s %s (%s)" % (lit(k), op, t), lambda v, w: app(k, g(v, w)))
            yield Case("nested %s over %s" % (op, n), "".join(fs), "xs := %s\n%s" % (arr, "\n".join(calls)), ex)


def gen_bools():
    forms = {"lit": lambda b, n: b2s(b), "var": lambda b, n: n, "cmp": lambda b, n: "(1 == 1)" if b else "(1 == 2)",
             "field": lambda b, n: "S@(%s).q" % b2s(b), "elem": lambda b, n: "[%s][0]" % b2s(b), "call": lambda b, n: "bid@(%s)" % b2s(b),
             "not": lambda b, n: "(not %s)" % b2s(not b)}
    decl = "struct s@ { q: bool }\nfn bid@(b: bool) bool = b\n"
    for op, f in (("and", lambda a, b: a and b), ("or", lambda a, b: a or b)):
        for fa in forms:
            for fb in forms:
                body, ex = [], []
                k = 0
                for a in (False, True):
                    for b in (False, True):
                        k += 1
                        body.append("p%d := %s\nq%d := %s" % (k, b2s(a), k, b2s(b)))
                        e = "%s %s %s" % (forms[fa](a, "p%d" % k), op, forms[fb](b, "q%d" % k))
                        body.append("println(%s)\nprintln(not (%s))\nif %s { println(1) } else { println(0) }" % (e, e, e))
                        r = f(a, b)
                        ex += [b2s(r), b2s(not r), "1" if r else "0"]
                yield Case("bool %s %s %s" % (op, fa, fb), decl, "\n".join(body), ex)

def main():
    c = Check("C01", "model_checking",
              "reference model: Python integers wrapped to 63 bits; states = (operator, operand form, operand values) points, each a trace replayed on the compiled program",
              ["division by zero is not specified and not explored"])
    vals = values(c.thorough)
    small = values(False)
    c.run_cases("bools", gen_bools(), batch=100)
    c.run_cases("unary", gen_unary(vals), batch=4)
    c.run_cases("conditions", gen_conditions(vals), batch=10)
    c.run_cases("forms", gen_forms(vals if c.thorough else [v for v in small if True]), batch=20)
    c.run_cases("digits", gen_digits(), batch=10)
    c.run_cases("literals", gen_literals(small), batch=40)
    c.run_cases("nested", gen_nested(c.thorough), batch=30)
    c.finish()
