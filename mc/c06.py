"""C06: closures capture by value the enclosing variables they mention, in every position and at every depth."""
import itertools
import places
from core import Case, Check

DECL = """struct sc@ { v: int w: int }
struct xf@ { x: int y: int }
enum ec@ { Ea@(n: int) Eb@(n: int, m: int) }
fn add@(a: int, b: int) int = a + b
fn tw@(a: int) int = a * 2
fn gid@«T»(t: T) T = t
fn em@(e: ec@) int {
match e {
case Ea@(n): return n
case Eb@(n, m): return n + (m * 100)
}
}
fn ap@(f: fn(int) int, n: int) int = f(n)
fn mkarr@(n: int) []int = [n, n + 1, n + 2]
"""

# name -> (closure body using x, list of results on the first and second call as functions of x)
POS = {
    "left": ("return x + 1", lambda x: x + 1), "right": ("return 1 + x", lambda x: 1 + x), "both": ("return x * x", lambda x: x * x),
    "unary": ("return -x", lambda x: -x), "bnot": ("return ~x", lambda x: ~x), "paren": ("return ((x))", lambda x: x), "ret": ("return x", lambda x: x),
    "arg": ("return add@(x, 5)", lambda x: x + 5), "arg2": ("return add@(5, x)", lambda x: x + 5), "argn": ("return add@(add@(1, x), tw@(x))", lambda x: 1 + 3 * x),
    "recv": ("return x.tw@()", lambda x: x * 2), "recv2": ("return x.add@(x)", lambda x: x * 2), "dotarg": ("return 3.add@(x)", lambda x: x + 3),
    "genarg": ("return gid@(x)", lambda x: x), "genrecv": ("return x.gid@()", lambda x: x), "typedgen": ("return gid@«int»(x)", lambda x: x),
    "cond": ("if x > 2 { return 1 }\nreturn 0", lambda x: int(x > 2)), "elif": ("if false { return 7 } elseif x > 2 { return 1 }\nreturn 0", lambda x: int(x > 2)),
    "then": ("if true { return x }\nreturn 0", lambda x: x), "else": ("if false { return 0 } else { return x }", lambda x: x), "elifbody": ("if false { return 0 } elseif true { return x }\nreturn 1", lambda x: x),
    "not": ("if not (x == 2) { return 1 }\nreturn 0", lambda x: int(x != 2)), "andor": ("return (x > 1 and x < 9) or x == 77 ? 1 : 0", lambda x: int(1 < x < 9 or x == 77)),
    "whilecond": ("n := 0\nwhile n < x { n = n + 1 }\nreturn n", lambda x: max(0, x)), "whilebody": ("n := 0\nk := 0\nwhile k < 3 {\nn = n + x\nk = k + 1\n}\nreturn n", lambda x: 3 * x),
    "forstart": ("n := 0\nfor i in x .. 9 { n = n + i }\nreturn n", lambda x: sum(range(x, 9))), "forend": ("n := 0\nfor i in 0 .. x { n = n + i + 1 }\nreturn n", lambda x: sum(range(1, x + 1))),
    "forbody": ("n := 0\nfor i in 0 .. 3 { n = n + (i * x) }\nreturn n", lambda x: 3 * x), "forarr": ("n := 0\nfor i in mkarr@(x) { n = n + i }\nreturn n", lambda x: 3 * x + 3),
    "forarrbody": ("n := 0\nfor i in [1, 2] { n = n + (i * x) }\nreturn n", lambda x: 3 * x), "fordec": ("n := 0\nfor i in x .. 0 { n = (n * 2) + i }\nreturn n", None),
    "ternc": ("return x > 2 ? 10 : 20", lambda x: 10 if x > 2 else 20), "ternt": ("return true ? x : 0", lambda x: x), "terne": ("return false ? 0 : x", lambda x: x), "ternn": ("return x == 1 ? 0 : x == 2 ? x : x + 1", lambda x: 0 if x == 1 else (x if x == 2 else x + 1)),
    "arrlit": ("return [9, x, 8][1]", lambda x: x), "arrlit2": ("return [x, x].length", lambda x: 2), "index": ("return mkarr@(4)[x - x]", lambda x: 4), "idx2": ("a := [5, 6, 7, 8, 9, 10, 11, 12]\nreturn a[x]", lambda x: 5 + x),
    "cons": ("return Sc@(1, x).w", lambda x: x), "cons1": ("s := Sc@(x, 0)\nreturn s.v + s.w", lambda x: x), "econs": ("return em@(Eb@(x, x + 1))", lambda x: x + 100 * (x + 1)),
    "matchsubj": ("match Ea@(x) {\ncase Ea@(n): return n + 5\ncase Eb@(n, m): return 0\n}", lambda x: x + 5), "matchbody": ("match Ea@(4) {\ncase Ea@(n): return n + x\ncase Eb@(n, m): return 0\n}", lambda x: x + 4),
    "matchbody2": ("match Eb@(4, 5) {\ncase Ea@(n): return 0\ncase Eb@(n, m): return n + m + x\n}", lambda x: x + 9),
    "decl": ("y := x\nreturn y + y", lambda x: 2 * x), "declx": ("y := x + 1\ny = y + x\nreturn y", lambda x: 2 * x + 1), "asgrhs": ("y := 0\ny = x\nreturn y", lambda x: x),
    "fldrhs": ("s := Sc@(0, 0)\ns.w = x\nreturn s.w", lambda x: x), "arrrhs": ("a := [0, 0]\na[1] = x\nreturn a[1]", lambda x: x), "arridx": ("a := [0, 0, 0, 0, 0, 0, 0, 0]\na[x] = 6\nreturn a[x] + a[x - 1]", lambda x: 6),
    "printf": ("printf(\"%d\\n\", x)\nreturn 0", None), "anoncall": ("f := fn(q: int) int { return q + x }\nreturn f(3)", lambda x: x + 3), "anonexpr": ("f := fn(q: int) int = x - q\nreturn f(3)", lambda x: x - 3),
    "anonarg": ("return ap@(fn(q: int) int = q * x, 7)", lambda x: 7 * x), "anon2": ("f := fn() fn() int { return fn() int { return x + 2 } }\nreturn f()()", lambda x: x + 2),
    "anonarr": ("return [fn(q: int) int = q + x][0](4)", lambda x: x + 4), "anontern": ("f := true ? fn(q: int) int = q + x : fn(q: int) int = q\nreturn f(4)", lambda x: x + 4),
    "shift": ("return (1 << x) + (x >> 1)", lambda x: (1 << x) + (x >> 1)), "div": ("return (100 / x) + (x / 2)", lambda x: 100 // x + x // 2), "bits": ("return (x & 6) | (x ^ 3)", lambda x: (x & 6) | (x ^ 3)),
    "string": ("return \"abcdefgh\".byte(x)", lambda x: 97 + x), "append": ("return \"a\".append(x.toString()).length", lambda x: 1 + len(str(x))), "option": ("return Some(x).orElse(0)", lambda x: x),
    "optmap": ("return Some(4).map(fn(q: int) int = q + x).orElse(0)", lambda x: x + 4), "fieldname": ("o := Xf@(100, 200)\nreturn o.x + x", lambda x: 100 + x), "fieldname2": ("o := Xf@(100, 200)\no.x = 5\nreturn o.x + o.y + x", lambda x: 205 + x),
    "fieldself": ("o := Xf@(x, 200)\nreturn o.x", lambda x: x), "deepblk": ("if true {\nwhile true {\nfor i in 0 .. 2 {\nif i == 1 { return x + i }\n}\n}\n}\nreturn 0", lambda x: x + 1),
    "stmtcall": ("add@(x, x)\nreturn 4", lambda x: 4), "lateuse": ("y := 5\ny = y + 1\nz := y * 2\nreturn z + x", lambda x: 12 + x),
}
MUT = {  # bodies assigning the captured variable: results of successive calls
    "set": ("x = 40\nreturn x", lambda x: (40, 40, 40)), "inc": ("x = x + 1\nreturn x", lambda x: (x + 1, x + 2, x + 3)), "inccond": ("if x < 100 { x = x * 2 }\nreturn x", lambda x: (2 * x, 4 * x, 8 * x)),
    "incwhile": ("k := 0\nwhile k < 2 {\nk = k + 1\nx = x + k\n}\nreturn x", lambda x: (x + 3, x + 6, x + 9)), "retold": ("y := x\nx = x + 10\nreturn y", lambda x: (x, x + 10, x + 20)),
    "inner": ("f := fn() int {\nx = x + 1\nreturn x\n}\nf()\nreturn (f() * 1000) + x", lambda x: ((x + 2) * 1000 + x,) * 3), "seterl": ("for i in 0 .. 2 { x = x + i + 1 }\nreturn x", lambda x: (x + 3, x + 6, x + 9)),
    "shadow": ("if true {\nx := 70\nx = x + 1\n}\nx = x + 2\nreturn x", lambda x: (x + 2, x + 4, x + 6)), "onlyset": ("x = 5\nreturn 1", lambda x: (1, 1, 1)),
    "matchset": ("match Ea@(3) {\ncase Ea@(n): x = x + n\ncase Eb@(n, m): x = 0\n}\nreturn x", lambda x: (x + 3, x + 6, x + 9)),
}

# how x comes to be: (source with BODY placeholder, x's value, can be reassigned afterwards)
def sites():
    for v in (2, 5):
        yield "local%d" % v, "x := %d\nBODY" % v, v, True
    yield "reassigned", "x := 9\nx = 3\nBODY", 3, True
    yield "inner", "if true {\nx := 4\nBODY\n}", 4, True
    yield "late", "a1 := 1\na2 := \"s\"\nx := 4\na3 := [3]\nBODY\nprintln(a1 + a3[0])", 4, True
    yield "range", "for x in 3 .. 4 {\nBODY\n}", 3, False
    yield "elem", "for x in [4] {\nBODY\n}", 4, False
    yield "payload", "match Eb@(6, 3) {\ncase Ea@(n): println(0)\ncase Eb@(n, x):\nBODY\n}", 3, False
    yield "closurelocal", "go := fn() {\nx := 3\nBODY\n}\ngo()", 3, True
    yield "closureparam", "go := fn(w: int, x: int) {\nBODY\n}\ngo(1, 4)", 4, True
    yield "shadowing", "x := 60\nif x > 0 {\nx := 3\nBODY\n}\nprintln(x)", 3, True


def wrap_depth(body, d):
    """The closure mentioning x is created d levels deep."""
    if d == 1:
        return "c := fn() int {\n%s\n}" % body
    return "c := fn() int {\nd%d := fn() int {\n%s\n}\nreturn d%d()\n}" % (d, body, d) if d == 2 else \
        "c := fn() int {\nd2 := fn() int {\nd3 := fn() int {\n%s\n}\nreturn d3()\n}\nreturn d2()\n}" % body


def positions():
    for sname, stpl, x, re in sites():
        extra = {"late": ["4"], "shadowing": ["60"]}.get(sname, [])
        for pname, (body, f) in POS.items():
            if pname == "printf":
                r = [str(x), "0"]
            elif pname == "fordec":
                n = 0
                for i in range(x - 1, -1, -1):
                    n = n * 2 + i
                r = [str(n)]
            else:
                r = [str(f(x))]
            for d in (1, 2, 3):
                src = wrap_depth(body, d) + "\nprintln(c())\n"
                exp = list(r)
                if re:
                    src += "x = 7000\nprintln(c())\nprintln(x)\n"
                    exp += r + ["7000"]
                src += "println(c())"
                exp += r
                yield Case("pos %s %s depth %d" % (sname, pname, d), DECL, stpl.replace("BODY", src), exp + extra)
            # as a parameter of a named function, returned from it
            if sname == "local2":
                yield Case("pos returned %s" % pname, DECL + "fn mk@(x: int) fn() int { return fn() int {\n%s\n} }\n" % body, "c := mk@(2)\ne := mk@(5)\nprintln(c())\nprintln(e())\nprintln(c())",
                           [str(y) for y in itertools.chain(*[([str(z), "0"] if pname == "printf" else [str(dec(z) if pname == "fordec" else f(z))]) for z in (2, 5, 2)])])
        for mname, (body, f) in MUT.items():
            if sname in ("range", "elem", "payload") and False:
                continue
            for d in (1, 2, 3):
                if d > 1:
                    # the inner closure is created anew by every call, from the outer closure's own copy
                    r = [str(f(x)[0])] * 3
                else:
                    r = [str(v) for v in f(x)]
                src = wrap_depth(body, d) + "\nprintln(c())\nprintln(x)\nprintln(c())\n"
                exp = [r[0], str(x), r[1]]
                if re:
                    src += "x = 7000\nprintln(c())\nprintln(x)\n"
                    exp += [r[2], "7000"]
                yield Case("mut %s %s depth %d" % (sname, mname, d), DECL, stpl.replace("BODY", src), exp + extra)


def dec(x):
    n = 0
    for i in range(x - 1, -1, -1):
        n = n * 2 + i
    return n


# ---------------------------------------------------------------- captured variables of every type, stored everywhere
TYPES = {"int": ("int", "41", "v", "v", "41", "99"), "bool": ("bool", "true", "v ? 1 : 0", "v", "1", "false"), "string": ("string", '"abc"', "v.length", "v", "3", '"q"'), "arr": ("[]int", "[4, 5]", "v[1] + v.length", "v", "7", "[9]"),
         "strs": ("[]string", '["aa", "b"]', "v[0].length", "v", "2", '["zzzzz"]'), "struct": ("sc@", "Sc@(3, 8)", "v.w + v.v", "v", "11", "Sc@(0, 0)"), "fn": ("fn(int) int", "tw@", "v(21)", "v", "42", "fn(z: int) int = 0"),
         "clo": ("fn(int) int", "fn(q: int) int = q + k0", "v(2)", "v", "12", "tw@"), "enum": ("ec@", "Eb@(1, 2)", "em@(v)", "v", "201", "Ea@(7)"), "opt": ("option«int»", "Some(6)", "v.orElse(1)", "v", "6", "None«int»()"),
         "list": ("list«int»", "[1, 2, 3].toList()", "v.reduce(0, add@)", "v", "6", "Empty«int»()"), "map": ("map«string, int»", "mkmap@()", "v.orElse(\"k\", 0)", "v", "13", "mkmap@()")}
TD = DECL + "struct hold@ { g: fn() int k: int }\nfn pass@(f: fn() int) int = f()\nfn give@(f: fn() int) fn() int = f\nfn mkmap@() map«string, int» {\nm := NewHashMap«string, int»(fnv1a, Equals)\nm.put(\"k\", 13)\nreturn m\n}\n"
STORES = {"var": "c := C", "field": "h := Hold@(C, 1)\nc := h.g", "elem": "a := [C, C]\nc := a[1]", "result": "c := give@(C)", "opt": "c := Some(C).orElse(fn() int = 0)", "tern": "c := k0 > 0 ? C : fn() int = 0"}


def typed():
    for t, (ty, init, use, _, val, other) in TYPES.items():
        body = "fn() int { return %s }" % use
        for s, tpl in STORES.items():
            yield Case("type %s %s" % (t, s), TD, "k0 := 10\nv := %s\n%s\nprintln(c())\nv = %s\nprintln(c())\ngc()\nprintln(pass@(c))" % (init, tpl.replace("C", body), other), [val] * 3)
        yield Case("type %s direct" % t, TD, "k0 := 10\nv := %s\nprintln(pass@(fn() int = %s))\nprintln(Hold@(fn() int = %s, 1).g())\nprintln([fn() int = %s][0]())" % (init, use, use, use), [val] * 3)
        yield Case("type %s param" % t, TD + "fn mk@(v: %s, k: int) fn() int = fn() int = %s\n" % (ty, use), "k0 := 10\nc := mk@(%s, 1)\nprintln(c())\ngc()\nprintln(c())" % init, [val] * 2)
        yield Case("type %s generic" % t, TD + "fn mk@«T»(v: T) fn() T = fn() T = v\n", "k0 := 10\nc := mk@(%s)\nv := c()\nprintln(%s)" % (init, use), [val])
        yield Case("type %s nested" % t, TD, "k0 := 10\nv := %s\nc := fn() fn() fn() int { return fn() fn() int { return fn() int = %s } }\nv = %s\nprintln(c()()())" % (init, use, other), [val])
        yield Case("type %s loop" % t, TD, "k0 := 10\nfor v in [%s] {\nc := fn() int = %s\nprintln(c())\nprintln(c())\n}" % (init, use), [val] * 2)
        # mutation of a shared object is visible, replacement of the variable is not
    yield Case("shared arr", TD, "v := [1, 2]\nc := fn() int = v[0]\nd := fn(n: int) { v[0] = n }\nv[0] = 5\nprintln(c())\nd(6)\nprintln(c())\nprintln(v[0])\nv = [7]\nprintln(c())\nd(8)\nprintln(c())\nprintln(v[0])", ["5", "6", "6", "6", "8", "7"])
    yield Case("shared struct", TD, "v := Sc@(1, 2)\nc := fn() int = v.v\nd := fn(n: int) { v.v = n }\nv.v = 5\nprintln(c())\nd(6)\nprintln(c())\nprintln(v.v)", ["5", "6", "6"])


# ---------------------------------------------------------------- number of captures x parameters, levels x subsets
def counts():
    for caps in range(0, 7):
        for params in range(0, 6):
            for perm in (0, 1, 2):
                names = ["v%d" % i for i in range(caps)]
                order = names if perm == 0 else (names[::-1] if perm == 1 else names[1:] + names[:1])
                w = {n: 10 ** i for i, n in enumerate(names)}
                expr = " + ".join(["0"] + ["(%s * %d)" % (n, w[n]) for n in order] + ["(p%d * %d)" % (i, 10 ** (6 + i)) for i in range(params)])
                src = "".join("%s := %d\n" % (n, i + 1) for i, n in enumerate(names))
                src += "c := fn(%s) int = %s\n" % (", ".join("p%d: int" % i for i in range(params)), expr)
                src += "".join("%s = 9\n" % n for n in names)
                src += "println(c(%s))" % ", ".join(str(i + 2) for i in range(params))
                val = sum((i + 1) * 10 ** i for i in range(caps)) + sum((i + 2) * 10 ** (6 + i) for i in range(params))
                yield Case("count %d %d %d" % (caps, params, perm), "", src, [str(val)])
    V = ["g", "h", "p", "q", "r", "s"]  # g,h level 0; p (param), q level 1; r (param), s level 2
    vals = {"g": 1, "h": 2, "p": 3, "q": 4, "r": 5, "s": 6}
    for bits in range(64):
        use = [v for i, v in enumerate(V) if bits >> i & 1]
        expr = " + ".join(["0"] + ["(%s * %d)" % (v, 10 ** V.index(v)) for v in use])
        val = sum(vals[v] * 10 ** V.index(v) for v in use)
        src = "g := 1\nh := 2\na := fn(p: int) fn(int) fn() int {\nq := 4\nreturn fn(r: int) fn() int {\ns := 6\nreturn fn() int = %s\n}\n}\ng = 0\nh = 0\nb := a(3)\nc := b(5)\nd := b(8)\nprintln(c())\nprintln(d())\nprintln(c())" % expr
        v2 = val + (3 * 10000 if "r" in use else 0)
        yield Case("levels " + "".join(use), "", src, [str(val), str(v2), str(val)])
    # which of several variables is mentioned: every subset and order of mentions from three
    for n in range(1, 4):
        for ms in itertools.permutations(["a", "b", "cc"], n):
            expr = " + ".join("(%s * %d)" % (m, 10 ** i) for i, m in enumerate(ms))
            val = sum({"a": 1, "b": 2, "cc": 3}[m] * 10 ** i for i, m in enumerate(ms))
            for form in ("fn() int = E", "fn() int { return E }", "fn() int {\nz := E\nreturn z\n}", "fn() int {\nf := fn() int = E\nreturn f()\n}"):
                yield Case("mention %s %s" % (ms, form[:9] + str(len(form))), "", "a := 1\nb := 2\ncc := 3\nf1 := %s\na = 7\nb = 8\ncc = 9\nprintln(f1())\nprintln(a + b + cc)" % form.replace("E", expr), [str(val), "24"])
    # parameters and locals of the closure hide enclosing variables
    for form, r in (("fn(x: int) int = x", "8"), ("fn(x: int) int { return x + y }", "10"), ("fn(q: int) int {\nx := 3\nreturn x + q\n}", "11"), ("fn(q: int) int {\nif true {\nx := 3\nx = x + 1\n}\nreturn x + q\n}", "9"),
                    ("fn(q: int) int {\nfor x in 0 .. 3 { q = q + x }\nreturn x + q\n}", "12"), ("fn(q: int) int {\nfor x in [4, 5] { q = q + x }\nreturn x + q\n}", "18"), ("fn(q: int) int {\nf := fn(x: int) int = x * 2\nreturn f(q) + x\n}", "17"),
                    ("fn(q: int) int {\nmatch Some(30) {\ncase Some(x): q = x\ncase None(): q = 0\n}\nreturn q + x\n}", "31")):
        yield Case("hide " + form, "", "x := 1\ny := 2\nc := %s\nx = 100\nprintln(c(8))\nprintln(x)" % form, [r, "100"])


# ---------------------------------------------------------------- histories of calls and assignments
def histories(length):
    ops = ["f", "g", "n", "r", "F", "h=f", "h", "k", "N"]
    for h in itertools.product(range(len(ops)), repeat=length):
        n = 1
        src, exp = [], []
        fe = {"n": 1}
        ge = {"n": 1}
        he = fe
        ke = {"f": fe}
        for j, i in enumerate(h):
            o = ops[i]
            if o == "f":
                fe["n"] += 1
                src.append("println(f())")
                exp.append(fe["n"])
            elif o == "g":
                ge["n"] += 10
                src.append("println(g())")
                exp.append(ge["n"])
            elif o == "n":
                n += 100
                src.append("n = n + 100")
            elif o == "r":
                src.append("println(n)")
                exp.append(n)
            elif o == "F":
                fe = {"n": n}
                src.append("f = fn() int {\nn = n + 1\nreturn n\n}")
            elif o == "h=f":
                he = fe
                src.append("h = f")
            elif o == "h":
                he["n"] += 1
                src.append("println(h())")
                exp.append(he["n"])
            elif o == "k":
                ke["f"]["n"] += 1
                src.append("println(k())")
                exp.append(ke["f"]["n"])
            else:
                fe["n"] += 1
                n = fe["n"]
                src.append("n = f()")
        yield Case("hist " + " ".join(ops[i] for i in h), "", "n := 1\nf := fn() int {\nn = n + 1\nreturn n\n}\ng := fn() int {\nn = n + 10\nreturn n\n}\nh := f\nk := fn() int { return f() }\n" + "\n".join(src) + "\nprintln(n)\nprintln(f())\nprintln(g())\nprintln(h())",
                   [str(x) for x in exp + [n, fe["n"] + 1, ge["n"] + 10, he["n"] + (2 if he is fe else 1)]], steps=length, states=length + 1)


def kinds_agree():
    """A function value behaves the same whether it is a closure, an anonymous or a named function."""
    for np in range(0, 6):
        for caps in (0, 1, 3):
            ps = ", ".join("p%d: int" % i for i in range(np))
            e = " + ".join(["1"] + ["(p%d * %d)" % (i, i + 2) for i in range(np)])
            fty = "fn(" + ", ".join(["int"] * np) + ") int"
            args = ", ".join(str(i + 3) for i in range(np))
            val = 1 + sum((i + 3) * (i + 2) for i in range(np))
            d = "fn named@(%s) int = %s\nfn use@(f: %s) int = f(%s)\nstruct hs@ { f: %s }\nfn mk@(f: %s) %s = f\n" % (ps, e, fty, args, fty, fty, fty)
            pre = "z0 := 4\nz1 := 5\nz2 := 6\n"
            ce = e + "".join(" + z%d - %d" % (i, i + 4) for i in range(caps))
            for nm, fv in (("named", "named@"), ("anon", "fn(%s) int = %s" % (ps, e)), ("block", "fn(%s) int { return %s }" % (ps, e)), ("closure", "fn(%s) int = %s" % (ps, ce))):
                body = pre + "f := %s\nprintln(f(%s))\nprintln(use@(f))\nprintln(use@(%s))\nprintln(Hs@(f).f(%s))\nprintln([f, f][1](%s))\nprintln(mk@(f)(%s))\ng := fn() int { return f(%s) }\nprintln(g())\nl := [f].toList()\nprintln(l.find(fn(q: %s) bool = true).orElse(f)(%s))" % (
                    fv, args, fv, args, args, args, args, fty, args)
                yield Case("agree %s %d %d" % (nm, np, caps), d, body, [str(val)] * 8)


def loops():
    for n in range(0, 6):
        yield Case("loop capture %d" % n, "", "fs := array(%d, fn() int = -1)\nfor i in 0 .. %d { fs[i] = fn() int = i * 10 }\nfor f in fs { println(f()) }\nfor f in fs { println(f()) }" % (n, n), [str(i * 10) for i in range(n)] * 2)
        yield Case("loop capture while %d" % n, "", "fs := array(%d, fn() int = -1)\ni := 0\nwhile i < %d {\nj := i * i\nfs[i] = fn() int = j + i\ni = i + 1\n}\nfor f in fs { println(f()) }" % (n, n), [str(i * i + i) for i in range(n)])
        yield Case("loop counters %d" % n, "", "fs := array(%d, fn() int = -1)\nfor i in 0 .. %d {\nc := 0\nfs[i] = fn() int {\nc = c + i + 1\nreturn c\n}\n}\nfor k in 0 .. 3 {\nfor f in fs { println(f()) }\n}" % (n, n), [str((i + 1) * (k + 1)) for k in range(3) for i in range(n)])
        yield Case("loop recursion %d" % n, "fn b@(n: int, l: list«fn() int») list«fn() int» {\nif n == 0 { return l }\nm := n * 3\nreturn b@(n - 1, l.append(fn() int = m + n))\n}\n", "b@(%d, Empty«fn() int»()).foreach(fn(f: fn() int) { println(f()) })" % n, [str(i * 4) for i in range(1, n + 1)])
        yield Case("compose %d" % n, "fn comp@(f: fn(int) int, g: fn(int) int) fn(int) int = fn(x: int) int = g(f(x))\n", "f := fn(x: int) int = x\nfor i in 0 .. %d {\nf = comp@(f, fn(x: int) int = (x * 2) + i)\n}\nprintln(f(1))\nprintln(f(3))" % n, [str(_comp(n, 1)), str(_comp(n, 3))])


def _comp(n, x):
    for i in range(n):
        x = x * 2 + i
    return x


BLOCKS = {"if": ("if true {", "}"), "else": ("if false { } else {", "}"), "range": ("for i_ in 0 .. 1 {", "}"), "array": ("for i_ in [4] {", "}"), "match": ("match Some(1) {\ncase Some(i_):", "case None():\n}"), "while": ("w_ := 0\nwhile w_ == 0 {\nw_ = 1", "}")}


def between(thorough):
    """closures created any number of blocks deep in closures any number of blocks deep, mentioning variables of every level"""
    def wrap(bs, tag, text):
        pre, post = "", ""
        for j, b in enumerate(bs):
            pre += BLOCKS[b][0].replace("_", "%s%d" % (tag, j)) + "\n"
            post = BLOCKS[b][1] + "\n" + post
        return pre + text + post

    seqs = [()] + [(b,) for b in BLOCKS] + list(itertools.product(BLOCKS, repeat=2)) + ([] if not thorough else list(itertools.product(BLOCKS, repeat=3)))
    one = [("if",), ("array",), ("match",)]
    tri = [("if", "while", "array"), ("match", "else", "range"), ("while", "if", "match", "array"), ("range",) * 5]
    lists = [(a, b, ()) for a in seqs + tri for b in seqs + tri if len(a) < 2 or len(b) < 2 or thorough]
    lists += [(a, b, c) for a, b, c in itertools.product([(), *one, ("if", "array"), ("match", "while", "if")], repeat=3) if c]
    for l in lists:
        levels = 3 if l[2] else 2
        for w in ("read", "write"):
            # x, s belong to the function; y to the first closure; z to the second
            deep = "x + s.length" + (" + y" if levels > 1 else "") + (" + z" if levels > 2 else "")
            val = 40 + 2 + 100 + (1000 if levels > 2 else 0)
            st = "r := %s\n" % deep if w == "read" else "x = x + 1\nr := %s\n" % deep
            text = "g%d := fn() int {\n%sreturn r\n}\nt%d = g%d() + g%d()\n" % (levels, st, levels, levels, levels)
            tot = 2 * val if w == "read" else 2 * val + 3
            for lev in range(levels, 1, -1):
                yz = "y" if lev == 2 else "z"
                text = "g%d := fn() int {\n%s := %d\nt%d := 0\n%sreturn t%d\n}\nt%d = g%d()\n" % (lev - 1, yz, 100 if lev == 2 else 1000, lev, wrap(l[lev - 1], "bc"[lev - 2], text), lev, lev - 1, lev - 1)
            text = "t1 := 0\n" + wrap(l[0], "a", text) + "println(t1)\nprintln(x)\n"
            yield Case("between %s %s" % (w, " / ".join(",".join(b) for b in l)), "fn f@(x: int, s: string) {\n%s}\n" % text, "f@(40, \"ab\")", [str(tot), "40"])


NAMES = ["a", "A", "b", "B", "ab", "aB", "Ab", "AB", "a1", "a2", "a10", "A1", "a_", "_a", "a_b", "aa", "z", "Z", "zz", "é", "É", "名", "lengthOf", "lengthof", "x", "y", "env", "self", "n0", "n00"]


def names(thorough):
    """which variables are captured does not depend on how their names compare: all pairs of related names declared and mentioned in both orders, at both depths, read and written"""
    groups = list(itertools.permutations(NAMES, 2))
    groups += list(itertools.permutations(NAMES if thorough else ["a", "A", "b", "B", "ab", "aB", "a1", "é"], 3))
    for ns in groups:
        vals = {n: i + 1 for i, n in enumerate(ns)}
        decl = "".join("%s := %d\n" % (n, vals[n]) for n in ns)
        expr = " + ".join("(%s * %d)" % (n, 10 ** i) for i, n in enumerate(ns[::-1]))
        r = sum(vals[n] * 10 ** i for i, n in enumerate(ns[::-1]))
        last = ns[-1]
        r2 = r + 5
        body = decl + "f1 := fn() int = %s\nf2 := fn() fn() int { return fn() int = %s }\nf3 := fn() int {\n%s = %s + 5\nreturn %s\n}\n" % (expr, expr, last, last, expr)
        body += "".join("%s = 9\n" % n for n in ns) + "println(f1())\nprintln(f2()())\nprintln(f3())\nprintln(f3())\nprintln(%s)" % " + ".join(ns)
        yield Case("names " + " ".join(ns), "", body, [str(x) for x in (r, r, r2, r2 + 5, 9 * len(ns))])


def merged(cases, n):
    from c05 import merge
    buf = []
    for c in cases:
        buf.append(c)
        if len(buf) == n:
            yield merge(buf)
            buf = []
    if buf:
        yield merge(buf)


def read(thorough):
    """a captured variable, closure parameter or local of every type read in every place a value can be read"""
    for t in places.TYPES:
        for bn, d, b in places.bindings(t):
            if "capt" not in bn and "closure" not in bn:
                continue
            for pl in places.PLACES:
                if "range" in bn:
                    continue
                yield places.build(Case, "read " + bn, t, pl, d, b)


def main():
    c = Check("C06", "model_checking",
              "model: closures as (code, private copy of the mentioned variables); every capture site x mention position x depth, every capture count x parameter count, every level subset and every call/assignment history up to the bound",
              ["at most six captured variables and five closure parameters (the compiler's limits)"])
    c.run_cases("kinds", kinds_agree(), batch=40)
    c.run_cases("counts", counts(), batch=100)
    c.run_cases("typed", typed(), batch=40)
    c.run_cases("loops", loops(), batch=40)
    c.run_cases("positions", positions(), batch=60)
    c.run_cases("histories", histories(3), batch=150)
    c.run_cases("histories4", merged(histories(4), 15), batch=10)
    if c.thorough:
        c.run_cases("histories5", merged(histories(5), 15), batch=10)
    c.run_cases("between", between(c.thorough), batch=60)
    c.run_cases("names", names(c.thorough), batch=100)
    c.run_cases("read", read(c.thorough), batch=100)
    c.finish()
