"""C10: exactly the type-correct programs are accepted."""
import itertools, re
from core import Case, Check
import tygram

D = """struct sa@ { x: int y: string }
struct sb@ { x: int y: string }
enum ea@ { Ma@(v: int) Mb@() }
enum eb@ { Mc@(v: int) Md@() }
struct gn@«T» { g: T }
"""
TYPES = {
    "int": "int", "bool": "bool", "string": "string", "bytes": "bytes", "ints": "[]int", "strs": "[]string", "bools": "[]bool", "mat": "[][]int",
    "sa": "sa@", "sb": "sb@", "sas": "[]sa@", "ea": "ea@", "eb": "eb@", "opti": "option«int»", "opts": "option«string»", "optopt": "option«option«int»»", "optarr": "option«[]int»",
    "pis": "pair«int, string»", "psi": "pair«string, int»", "gni": "gn@«int»", "gns": "gn@«string»", "gng": "gn@«gn@«int»»", "res": "result«int, string»", "res2": "result«string, int»",
    "f0": "fn()", "f0i": "fn() int", "fii": "fn(int) int", "fis": "fn(int) string", "fsi": "fn(string) int", "fi": "fn(int)", "fiii": "fn(int, int) int", "fff": "fn(fn(int) int) int", "fri": "fn() fn(int) int",
    "fai": "fn([]int) int", "fsa": "fn(sa@) int", "fsb": "fn(sb@) int", "fns": "[]fn(int) int", "optf": "option«fn(int) int»",
}
ENUMS = {"ea", "eb", "opti", "opts", "optopt", "optarr", "res", "res2", "optf"}
ARRAYS = {"ints", "strs", "bools", "mat", "sas", "fns"}

# Positions expecting a value of type T (variable t: T in scope) and given u: U. decl, body of a function with parameters t and u
POS = {
    "return": ("fn h@(t: T, u: U) T {\nreturn u\n}\n", None),
    "return second": ("fn h@(t: T, u: U) T {\nif true { return t }\nreturn u\n}\n", None),
    "return in branch": ("fn h@(t: T, u: U) T {\nif false { return u }\nreturn t\n}\n", None),
    "expr fn": ("fn h@(t: T, u: U) T = u\n", None),
    "assign param": ("", "t = u"),
    "assign local": ("", "l := t\nl = u"),
    "field": ("struct hs@ { a: int b: int f: T }\n", "s := Hs@(1, 2, t)\ns.f = u"),
    "field of field": ("struct hs@ { f: T }\nstruct hh@ { h: hs@ }\n", "s := Hh@(Hs@(t))\ns.h.f = u"),
    "element": ("", "a := [t]\na[0] = u"),
    "element of field": ("struct hs@ { f: []T }\n", "s := Hs@([t, t])\ns.f[1] = u"),
    "nested element": ("", "a := [[t], [t]]\na[0][0] = u"),
    "arg only": ("fn h@(x: T) {}\n", "h@(u)"),
    "arg first": ("fn h@(x: T, y: int) {}\n", "h@(u, 1)"),
    "arg last": ("fn h@(y: int, z: bool, x: T) {}\n", "h@(1, true, u)"),
    "arg sixth": ("fn h@(a: int, b: int, c: int, d: int, e: int, x: T) {}\n", "h@(1, 2, 3, 4, 5, u)"),
    "dot arg": ("fn h@(y: int, x: T) {}\n", "1.h@(u)"),
    "constructor": ("struct hs@ { a: int f: T }\n", "s := Hs@(1, u)"),
    "enum constructor": ("enum he@ { Hc@(a: int, f: T) Hd@() }\n", "s := Hc@(1, u)"),
    "array literal": ("", "a := [t, u]"),
    "array literal 3": ("", "a := [t, t, u]"),
    "nested array literal": ("", "a := [[t], [u]]"),
    "ternary": ("", "a := true ? t : u"),
    "ternary nested": ("", "a := true ? t : (false ? t : u)"),
    "anon return": ("", "f := fn(p: U) T { return p }"),
    "anon expr": ("", "f := fn(p: U) T = p"),
    "closure return": ("", "f := fn() T = u"),
    "fn value arg": ("", "f := fn(x: T) { }\nf(u)"),
    "fn param arg": ("fn h@(f: fn(T), u: U) { f(u) }\n", None),
    "fn field arg": ("struct hs@ { f: fn(int, T) }\n", "s := Hs@(fn(i: int, x: T) { })\ns.f(1, u)"),
    "fn element arg": ("", "a := [fn(x: T) { }]\na[0](u)"),
    "fn result arg": ("fn h@() fn(T) = fn(x: T) { }\n", "h@()(u)"),
    "assign captured": ("", "f := fn() { t = u }"),
    "generic same": ("fn h@«A»(x: A, y: A) {}\n", "h@(t, u)"),
    "generic array": ("fn h@«A»(x: []A, y: A) {}\n", "h@([t], u)"),
    "generic explicit": ("fn h@«A»(x: A) A = x\n", "h@«T»(u)"),
    "generic return": ("fn h@«A»(x: A) A = x\nfn k@(u: U) T = h@(u)\n", None),
    "generic constructor": ("", "a := Some«T»(u)"),
    "generic struct field": ("", "a := Pair(1, t)\na.second = u"),
    "generic assign": ("", "a := Some(t)\na = Some(u)"),
    "generic none": ("", "a := None«T»()\na = None«U»()"),
    "generic fn arg": ("fn h@«A»(x: A, f: fn(A) int) {}\n", "h@(t, fn(x: U) int = 1)"),
    "generic fn two": ("fn h@«A»(f: fn(A), g: fn(A)) {}\n", "h@(fn(x: T) { }, fn(x: U) { })"),
    "match payload": ("", "match Some(u) {\ncase Some(x): t = x\ncase None():\n}"),
    "match return": ("fn h@(o: option«U», t: T) T {\nmatch o {\ncase Some(x): return x\ncase None(): return t\n}\n}\n", None),
    "for element": ("", "for x in [u] { t = x }"),
    "from element": ("", "t = [u][0]"),
    "from field": ("struct hs@ { f: U }\n", "t = Hs@(u).f"),
    "from call": ("fn h@(u: U) U = u\n", "t = h@(u)"),
    "from fn value": ("", "f := fn() U = u\nt = f()"),
    "from generic": ("", "t = Some(u).orElse(u)"),
    "set element": ("", "setElement([t], 0, u)"),
    "opt orElse": ("", "Some(t).orElse(u)"),
    "fn typed arg": ("fn h@(f: fn(T) int) {}\n", "h@(fn(x: U) int = 1)"),
    "fn typed ret": ("fn h@(f: fn(int) T) {}\n", "h@(fn(x: int) U = u)"),
    "fn assign": ("", "f := fn(x: T) { }\nf = fn(x: U) { }"),
    "fn array": ("", "f := [fn() T = t, fn() U = u]"),
    "list append": ("", "toList([t]).append(u)"),
    "map put": ("", "m := NewHashMap«int, T»(fn(i: int) int = i, fn(i: int, j: int) bool = i == j)\nm.put(1, u)"),
}


def sub(s, t, u):
    import re
    return re.sub(r"\bU\b", lambda _: u, re.sub(r"\bT\b", lambda _: t, s))


def pairs(types, poss):
    for (tn, t), (un, u) in itertools.product([(k, TYPES[k]) for k in types], repeat=2):
        for p in poss:
            d, b = POS[p]
            d = sub(d, t, u)
            if b is not None:
                d += "fn w@(t: %s, u: %s) {\n%s\n}\n" % (t, u, sub(b, t, u))
            yield Case("%s: %s <- %s" % (p, tn, un), D + d, "", [], "accept" if tn == un else "treject")


def grammar(depth, poss, every):
    """pairs of types of a closed grammar: near ones (one constructor or base changed, added or removed), or all"""
    ts = tygram.types(depth)
    ps = itertools.permutations(ts, 2) if every else sorted(set(tygram.near(ts)))
    for a, b in ps:
        t, u = ts[a][0], ts[b][0]
        for p in poss:
            d, body = POS[p]
            d = sub(d, t, u)
            if body is not None:
                d += "fn w@(t: %s, u: %s) {\n%s\n}\n" % (t, u, sub(body, t, u))
            yield Case("grammar %s: %s <- %s" % (p, ".".join(a), ".".join(b)), tygram.DECLS + d, "", [], "treject")
    for a in ts:
        t = ts[a][0]
        for p in POS:
            d, body = POS[p]
            d = sub(d, t, t)
            if body is not None:
                d += "fn w@(t: %s, u: %s) {\n%s\n}\n" % (t, t, sub(body, t, t))
            yield Case("grammar %s: %s" % (p, ".".join(a)), tygram.DECLS + d, "", [], "accept")


def parts(poss, atoms):
    """types of one constructor with up to five parts differing in exactly one part"""
    for key, (t, va), (u, vb) in tygram.multi(atoms):
        for p in poss:
            d, body = POS[p]
            d = sub(d, t, u)
            if body is not None:
                d += "fn w@(t: %s, u: %s) {\n%s\n}\n" % (t, u, sub(body, t, u))
            yield Case("parts %s: %s" % (p, key), tygram.DECLS + tygram.MDECLS + d, "", [], "treject")


def results():
    """every kind of function x declared result (or none) x type of what it yields"""
    ex = {"int": ("int", "1"), "bool": ("bool", "true"), "string": ("string", "\"s\""), "sa": ("sa@", "Sa@(1, \"\")"), "sb": ("sb@", "Sb@(1, \"\")"), "arr": ("[]int", "[1]"), "sas": ("[]sa@", "[Sa@(1, \"\")]"), "ea": ("ea@", "Mb@()"), "opt": ("option«int»", "Some(1)"), "f0i": ("fn() int", "fn() int = 1"), "f0": ("fn()", "fn() { }"), "none": ("", "vd@(1)")}
    d = D + "fn vd@(i: int) {}\nstruct hr@ { a: int }\n"
    for (rn, (r, _)), (en, (et, e)) in itertools.product(ex.items(), repeat=2):
        anon = "fn(p: int) %s = %s" % (r, e)
        anonb = "fn(p: int) %s {\nreturn %s\n}" % (r, e)
        forms = {
            "named": ("fn w@(p: int) %s = %s\n" % (r, e), ""), "named block": ("fn w@(p: int) %s {\nreturn %s\n}\n" % (r, e), ""), "named generic": ("fn w@«T»(p: T) %s = %s\n" % (r, e), ""), "no params": ("fn w@() %s = %s\n" % (r, e), ""),
            "anon": ("", "f := " + anon), "anon block": ("", "f := " + anonb), "anon no params": ("", "f := fn() %s = %s" % (r, e)), "anon arg": ("fn ap@(f: fn(int) %s) {}\n" % r, "ap@(%s)" % anon), "anon arg block": ("fn ap@(f: fn(int) %s) {}\n" % r, "ap@(%s)" % anonb), "anon generic arg": ("fn ap@«T»(f: T) {}\n", "ap@(%s)" % anon),
            "anon returned": ("fn w@() fn(int) %s = %s\n" % (r, anon), ""), "anon called": ("", "(%s)(1)" % anon), "anon element": ("", "f := [%s]" % anon), "anon nested": ("", "f := fn() {\ng := %s\n}" % anon), "anon capturing": ("", "c := 5\nf := fn() %s {\nif c == 1 { return %s }\nreturn %s\n}" % (r, e, e)), "anon field": ("struct hq@ { f: fn(int) %s }\n" % r, "f := Hq@(%s)" % anon),
            "anon in generic": ("fn w@«T»(t: T) {\nf := %s\n}\n" % anon, ""), "anon ternary": ("", "f := true ? %s : %s" % (anon, anon)),
        }
        for n, (dd, body) in forms.items():
            if en == "none" and "{\nreturn" in dd + body or n == "anon capturing" and en == "none":
                continue  # a value return of no value
            yield Case("result %s: %s yields %s" % (n, rn, en), d + dd, body, [], "accept" if rn == en else "treject")


GOOD = {"int lit": ("int", "4"), "int var": ("int", "n"), "int call": ("int", "ov@(3)"), "str lit": ("string", "\"z\""), "str call": ("string", "ov@(s)"), "fn name": ("fn(int) int", "pl@"), "fn over": ("fn(int) int", "ov@"), "fn lit": ("fn(int) int", "fn(q: int) int = q"), "fn var": ("fn(int) int", "v"),
        "fn over2": ("fn(string) string", "ov@"), "arr": ("[]int", "[1]")}
BAD = {"int/str": ("int", "\"z\""), "int/fn": ("int", "pl@"), "int/over": ("int", "ov@"), "int/call": ("int", "ov@(s)"), "str/int": ("string", "4"), "str/over": ("string", "ov@"), "fn/int": ("fn(int) int", "4"), "fn/name": ("fn(int) int", "ps@"), "fn/over": ("fn(int) bool", "ov@"),
       "fn/over arity": ("fn(int, int) int", "ov@"), "fn/lit": ("fn(int) int", "fn(q: string) int = 1"), "fn/var": ("fn(string) int", "v"), "arr/over": ("[]int", "ov@"), "arr/str": ("[]int", "[s]")}
CALLEES = {
    "named": lambda ts: ("fn w@(%s) int = 1\n" % ", ".join("p%d: %s" % p for p in enumerate(ts)), "r := w@(%s)"), "overloaded": lambda ts: ("fn w@() int = 2\nfn w@(%s) int = 1\nfn w@(%s) int = 3\n" % (", ".join("p%d: %s" % p for p in enumerate(ts)), ", ".join("p%d: bool" % i for i in range(len(ts)))), "r := w@(%s)"),
    "generic": lambda ts: ("fn w@«T»(%s) T = t\n" % ", ".join(["p%d: %s" % p for p in enumerate(ts)] + ["t: T"]), "r := w@(%s, true)"), "generic first": lambda ts: ("fn w@«T»(%s) T = t\n" % ", ".join(["t: T"] + ["p%d: %s" % p for p in enumerate(ts)]), "r := w@(true, %s)"),
    "value": lambda ts: ("", "w := fn(%s) int = 1\nr := w(%%s)" % ", ".join("p%d: %s" % p for p in enumerate(ts))), "struct": lambda ts: ("struct w@ { %s }\n" % " ".join("p%d: %s" % p for p in enumerate(ts)), "r := W@(%s)"),
    "enum": lambda ts: ("enum w@ { Wa@() Wb@(%s) }\n" % ", ".join("p%d: %s" % p for p in enumerate(ts)), "r := Wb@(%s)"), "dot": lambda ts: ("fn w@(%s) int = 1\n" % ", ".join(["z: bool"] + ["p%d: %s" % p for p in enumerate(ts)]), "r := b.w@(%s)"),
}


def vectors(n, callees):
    """argument lists mixing function names (overloaded or not), anonymous functions and plain values; one of them wrong, or none"""
    d = "fn pl@(a: int) int = a\nfn ps@(a: string) int = 1\nfn ov@(a: int) int = a\nfn ov@(a: string) string = a\nfn ov@(a: bool, b: bool) bool = a\n"
    su = "n := 1\ns := \"s\"\nb := true\nv := fn(q: int) int = q\n"
    for c in callees:
        for vec in itertools.product(GOOD.items(), repeat=n):
            dd, call = CALLEES[c]([g[0] for _, g in vec])
            yield Case("vector %s(%s)" % (c, ", ".join(k for k, _ in vec)), d + dd, su + call % ", ".join(g[1] for _, g in vec), [], "accept")
        for pos in range(n):
            for bk, b in BAD.items():
                for vec in itertools.product(GOOD.items(), repeat=n - 1):
                    vec = list(vec[:pos]) + [(bk, b)] + list(vec[pos:])
                    dd, call = CALLEES[c]([g[0] for _, g in vec])
                    yield Case("vector %s(%s)" % (c, ", ".join(k for k, _ in vec)), d + dd, su + call % ", ".join(g[1] for _, g in vec), [], "treject")


OPI = ["+", "-", "*", "/", "&", "|", "^", "<<", ">>"]
OPC = ["==", "<", "<=", ">", ">="]
OPB = ["and", "or"]


def W(t, u, body):
    return "fn w@(t: %s, u: %s) {\n%s\n}\n" % (t, u, body)


def operators():
    ty = list(TYPES.items())
    for (tn, t), (un, u) in itertools.product(ty, repeat=2):
        for op in OPI + OPC + OPB:
            need = "bool" if op in OPB else "int"
            ok = tn == need and un == need
            if not ok and tn != un and not (tn in ("int", "bool", "string") or un in ("int", "bool", "string")):
                continue  # neither operand can be right and they differ: covered by the equal and the one-sided pairs
            res = "int" if op in OPI else "bool"
            yield Case("op %s %s %s" % (tn, op, un), D + W(t, u, "r := t %s u" % op) if not ok else D + W(t, u, "r := t %s u\nq%s := fn() %s = r" % (op, "0", res)), "", [], "accept" if ok else "treject")
            if ok:  # and the result has exactly the stated type
                for rn, r in (("int", "int"), ("bool", "bool"), ("string", "string"), ("ints", "[]int")):
                    if r != res:
                        yield Case("op result %s %s as %s" % (tn, op, rn), D + W(t, u, "q := fn() %s = t %s u" % (r, op)), "", [], "treject")
    for tn, t in ty:
        for op in ("not ", "~", "-"):
            ok = tn == ("bool" if op == "not " else "int")
            yield Case("unary %s%s" % (op, tn), D + W(t, "int", "r := %st" % op), "", [], "accept" if ok else "treject")
        for nm, st in (("if", "if t { }"), ("elseif", "if u == 1 { } elseif t { }"), ("elseif2", "if u == 1 { } elseif u == 2 { } elseif t { } else { }"), ("while", "while t { }"), ("ternary cond", "r := t ? 1 : 2")):
            yield Case("%s %s" % (nm, tn), D + W(t, "int", st), "", [], "accept" if tn == "bool" else "treject")
        for nm, st in (("index", "r := [1, 2][t]"), ("index write", "a := [1]\na[t] = 1"), ("index nested", "r := [[1], [2]][0][t]"), ("range from", "for i in t .. 3 { }"), ("range to", "for i in 0 .. t { }"), ("array length", "r := array(t, 1)"), ("string byte", "r := \"x\".byte(t)")):
            yield Case("%s %s" % (nm, tn), D + W(t, "int", st), "", [], "accept" if tn == "int" else "treject")
        for nm, st in (("indexed", "r := t[0]"), ("indexed var", "r := t[u]"), ("for in", "for i in t { }")):
            yield Case("%s %s" % (nm, tn), D + W(t, "int", st), "", [], "accept" if tn in ARRAYS else "treject")
        yield Case("match %s" % tn, D + W(t, "int", "match t {\n%s\n}" % {"ea": "case Ma@(v):\ncase Mb@():", "eb": "case Mc@(v):\ncase Md@():", "res": "case Ok(v):\ncase Err(v):", "res2": "case Ok(v):\ncase Err(v):"}.get(tn, "case Some(v):\ncase None():")), "", [],
                   "accept" if tn in ENUMS else "treject")
        yield Case("match other %s" % tn, D + W(t, "int", "match t {\n%s\n}" % ("case Mc@(v):\ncase Md@():" if tn != "eb" else "case Ma@(v):\ncase Mb@():")), "", [], "treject")
        lens = ARRAYS | {"string"}
        yield Case("length %s" % tn, D + W(t, "int", "r := t.length"), "", [], "accept" if tn in lens else "treject")
        yield Case("length write %s" % tn, D + W(t, "int", "t.length = 4"), "", [], "treject")
        yield Case("field x %s" % tn, D + W(t, "int", "r := t.x"), "", [], "accept" if tn in ("sa", "sb") else "treject")
        yield Case("field g %s" % tn, D + W(t, "int", "r := t.g"), "", [], "accept" if tn in ("gni", "gns", "gng") else "treject")
        yield Case("field first %s" % tn, D + W(t, "int", "r := t.first"), "", [], "accept" if tn in ("pis", "psi") else "treject")
        yield Case("field unknown %s" % tn, D + W(t, "int", "r := t.zzz"), "", [], "treject")
        yield Case("call0 %s" % tn, D + W(t, "int", "t()"), "", [], "accept" if tn in ("f0", "f0i", "fri") else "treject")
        yield Case("call int %s" % tn, D + W(t, "int", "t(1)"), "", [], "accept" if tn in ("fii", "fis", "fi") else "treject")
        yield Case("call string %s" % tn, D + W(t, "int", "t(\"\")"), "", [], "accept" if tn in ("fsi",) else "treject")
        yield Case("call ints %s" % tn, D + W(t, "int", "t([1])"), "", [], "accept" if tn in ("fai",) else "treject")
        yield Case("call twice %s" % tn, D + W(t, "int", "t()(2)"), "", [], "accept" if tn in ("fri",) else "treject")
        yield Case("call 2 %s" % tn, D + W(t, "int", "t(1, 2)"), "", [], "accept" if tn in ("fiii",) else "treject")
        yield Case("return value from nothing fn %s" % tn, D + "fn w@(t: %s) {\nreturn t\n}\n" % t, "", [], "treject")
        yield Case("return nothing from fn %s" % tn, D + "fn w@(t: %s) %s {\nif true { return }\nreturn t\n}\n" % (t, t), "", [], "treject")


# an expression of every type in every form it can take
FD = """struct fi@ { v: int }
struct fs@ { v: string }
struct fb@ { v: bool }
struct fa@ { v: []int }
struct ff@ { v: fn(int) int }
struct fx@ { v: fi@ }
struct fg@«T» { v: T }
enum fe@ { Vfe@(v: int) Vff@() }
fn gid@«T»(t: T) T = t
fn one@(i: int) int = i
fn sone@(i: string) int = 1
"""
FT = {"int": ("int", "7", "fi@", "7"), "string": ("string", '"q"', "fs@", '"q"'), "bool": ("bool", "true", "fb@", "true"), "ints": ("[]int", "[1, 2]", "fa@", "[1]"), "fn": ("fn(int) int", "fn(z: int) int = z", "ff@", "one@"), "struct": ("fi@", "Fi@(3)", "fx@", "Fi@(4)")}
FF = {
    # form -> (statements before, expression); T type, V value, S struct with field v of that type
    "literal": ("", "V"), "variable": ("", "pX"), "local": ("lX := V\n", "lX"), "copied": ("l1X := V\nlX := l1X\n", "lX"), "field": ("sX := S(V)\n", "sX.v"), "field of new": ("", "S(V).v"), "generic field": ("sX := Fg@(V)\n", "sX.v"),
    "element": ("aX := [V, V]\n", "aX[1]"), "element of new": ("", "[V][0]"), "element of element": ("aX := [[V], [V]]\n", "aX[1][0]"), "call": ("", "mkX@()"), "call arg": ("", "idX@(V)"), "generic call": ("", "gid@(V)"), "dot call": ("lX := V\n", "lX.gid@()"), "explicit call": ("", "gid@«T»(V)"),
    "lambda": ("fX := fn() T = V\n", "fX()"), "lambda arg": ("fX := fn(z: T) T = z\n", "fX(V)"), "field call": ("sX := Fg@(fn() T = V)\n", "sX.v()"), "element call": ("aX := [fn() T = V]\n", "aX[0]()"), "call call": ("", "mmX@()()"), "ternary": ("", "(b0 ? V : V)"), "paren": ("lX := V\n", "((lX))"), "option": ("", "Some(V).orElse(V)"),
}


def fexpr(tn, fn, x):
    t, v, s, _ = FT[tn]
    pre, e = FF[fn]
    sub = lambda q: re.sub(r"\bT\b", t, re.sub(r"\bV\b", lambda _: v, re.sub(r"\bS\b", s[0].upper() + s[1:], q))).replace("X", x)
    return sub(pre), sub(e), "fn mk%s@() %s = %s\nfn mm%s@() fn() %s = mk%s@\nfn id%s@(z: %s) %s = z\n" % (x, t, v, x, t, x, x, t, t)


def forms(thorough):
    """operands and operations: the verdict depends on the types alone, not on the form of the expressions"""
    fl = list(FF)

    def case(key, d, params, pre, stmt, ok):
        return Case("form " + key, FD + d + "fn w@(b0: bool%s) {\n%s%s\n}\n" % ("".join(", p%s: %s" % p for p in params), pre, stmt), "", [], "accept" if ok else "treject")
    few = ["+", "*", "<", "==", "and", "&", "<<"]
    for (tn, un) in itertools.product(FT, repeat=2):
        t, u = FT[tn][0], FT[un][0]
        for fx in fl:
            for fy in fl if thorough or ((tn in ("int", "bool")) != (un in ("int", "bool"))) else (["variable", fx] if fx != "variable" else fl):
                if not thorough and tn not in ("int", "string", "bool") and un not in ("int", "string", "bool"):
                    continue
                if not thorough and fx not in ("variable", "literal", "call", "field") and fy not in ("variable", "literal", "call", "field"):
                    continue
                p1, e1, d1 = fexpr(tn, fx, "x")
                p2, e2, d2 = fexpr(un, fy, "y")
                for op in (OPI + OPC + OPB if thorough else few if (tn, un) in (("int", "int"), ("bool", "bool"), ("int", "string"), ("string", "int")) else ["+", "<", "==", "and"]):
                    need = "bool" if op in OPB else "int"
                    if e1.startswith("fn("):
                        e1 = "(%s)" % e1
                    yield case("%s:%s %s %s:%s" % (tn, fx, op, un, fy), d1 + d2, (("x", t), ("y", u)), p1 + p2, "r := %s %s %s" % (e1, op, e2), tn == un == need)
    uses = {
        "neg": ("r := -E", "int"), "bnot": ("r := ~E", "int"), "not": ("r := not E", "bool"), "if": ("if E { }", "bool"), "elseif": ("if b0 { } elseif E { }", "bool"), "while": ("while E { b0 = false }", "bool"), "ternary": ("r := E ? 1 : 2", "bool"), "index": ("r := [1][E]", "int"), "index write": ("a := [1]\na[E] = 1", "int"),
        "range from": ("for i in E .. 9 { }", "int"), "range to": ("for i in 0 .. E { }", "int"), "indexed": ("r := E[0]", "ints"), "for": ("for i in E { }", "ints"), "length": ("r := E.length + 1", ("ints", "string")), "callee": ("r := E(4)", "fn"), "field": ("r := E.v + 1", "struct"),
        "arg": ("one@(E)", "int"), "string arg": ("sone@(E)", "string"), "dot": ("r := E.one@()", "int"), "assign": ("n := 1\nn = E", "int"), "assign string": ("n := \"\"\nn = E", "string"), "assign elem": ("n := [1]\nn[0] = E", "int"), "assign field": ("n := Fi@(1)\nn.v = E", "int"), "constructor": ("n := Fi@(E)", "int"), "payload": ("n := Vfe@(E)", "int"), "array": ("n := [1, E]", "int"), "array first": ("n := [E, 1]", "int"),
        "branch": ("n := b0 ? E : 1", "int"), "branch 2": ("n := b0 ? 1 : E", "int"), "result": ("n := fn() int = E", "int"), "result block": ("n := fn() int { return E }", "int"), "result string": ("n := fn() string = E", "string"), "lambda arg": ("n := fn(z: int) { }\nn(E)", "int"), "generic": ("n := Some(1)\nn = Some(E)", "int"), "match": ("match E {\ncase Vfe@(v):\ncase Vff@():\n}", ()),
        "explicit": ("gid@«int»(E)", "int"), "option arg": ("n := Some(1).orElse(E)", "int"), "explicit string": ("gid@«string»(E)", "string"),
    }
    for un, (st, ok) in uses.items():
        for tn in FT:
            for fx in fl:
                p1, e1, d1 = fexpr(tn, fx, "x")
                if e1.startswith("fn(") and un in ("callee", "indexed", "length", "field", "dot", "ternary", "if", "elseif", "while", "branch", "for", "range from", "match"):
                    e1 = "(%s)" % e1
                good = tn in ok if isinstance(ok, tuple) else tn == ok
                if un == "field" and tn not in ("struct",):
                    good = False
                yield case("%s %s:%s" % (un, tn, fx), d1, (("x", FT[tn][0]),), p1, re.sub(r"\bE\b", lambda _: e1, st), good)


KD = FD + """struct k1@ { v: int }
struct k2@ { v: int }
enum k3@ { Ka@(v: int) Kb@() }
enum k4@ { Kc@(v: int) Kd@() }
struct kw@«T» { v: T }
fn kf@(i: int) int = i
fn kg@(s: string) int = 1
fn kh@(i: int) string = ""
fn ki@() int = 1
"""
# kind -> types of that kind with a value each
KT = {"struct": [("k1@", "K1@(1)"), ("k2@", "K2@(1)"), ("fs@", 'Fs@("a")')], "enum": [("k3@", "Ka@(1)"), ("k4@", "Kc@(1)"), ("k3@", "Kb@()"), ("k4@", "Kd@()")], "array": [("[]int", "[1]"), ("[]string", '["a"]'), ("[][]int", "[[1]]"), ("[]k1@", "[K1@(1)]"), ("[]k2@", "[K2@(1)]")],
      "fn": [("fn(int) int", "kf@"), ("fn(string) int", "kg@"), ("fn(int) string", "kh@"), ("fn() int", "ki@")], "generic": [("kw@«int»", "Kw@(1)"), ("kw@«string»", 'Kw@("a")'), ("kw@«kw@«int»»", "Kw@(Kw@(1))"), ("kw@«k1@»", "Kw@(K1@(1))")],
      "option": [("option«int»", "Some(1)"), ("option«string»", 'Some("a")'), ("option«option«int»»", "Some(Some(1))"), ("option«k1@»", "Some(K1@(2))")]}
KU = {
    "return": "fn u@(b0: bool, px: U) T {\nPREreturn E\n}\n", "return if": "fn u@(b0: bool, px: U) T {\nPREif b0 { return E }\nreturn VT\n}\n", "return last": "fn u@(b0: bool, px: U) T {\nPREif b0 { return VT }\nreturn E\n}\n", "return else": "fn u@(b0: bool, px: U) T {\nPREif b0 { return VT } else { return E }\n}\n", "return while": "fn u@(b0: bool, px: U) T {\nPREwhile b0 { return E }\nreturn VT\n}\n",
    "return match": "fn u@(b0: bool, px: U) T {\nPREmatch Some(1) {\ncase Some(w): return E\ncase None(): return VT\n}\n}\n", "result": "fn u@(b0: bool, px: U) T = E\n", "anon return": "fn u@(b0: bool, px: U) {\nPREg := fn() T { return E }\n}\n", "anon result": "fn u@(b0: bool, px: U) {\nPREg := fn() T = E\n}\n",
    "assign": "fn u@(b0: bool, px: U) {\nPREn := VT\nn = E\n}\n", "assign param": "fn u@(b0: bool, px: U, n: T) {\nPREn = E\n}\n", "assign field": "fn u@(b0: bool, px: U) {\nPREn := Kw@(VT)\nn.v = E\n}\n", "assign element": "fn u@(b0: bool, px: U) {\nPREn := [VT]\nn[0] = E\n}\n", "argument": "fn t@(n: T) { }\nfn u@(b0: bool, px: U) {\nPREt@(E)\n}\n", "argument 2": "fn t@(i: int, n: T) { }\nfn u@(b0: bool, px: U) {\nPRE1.t@(E)\n}\n",
    "receiver": "fn t@(n: T) { }\nfn u@(b0: bool, px: U) {\nPREif b0 { (E).t@() }\n}\n", "lambda argument": "fn u@(b0: bool, px: U) {\nPREt := fn(n: T) { }\nt(E)\n}\n", "element": "fn u@(b0: bool, px: U) {\nPREn := [VT, E]\n}\n", "branch": "fn u@(b0: bool, px: U) {\nPREn := b0 ? VT : E\n}\n", "branch 1": "fn u@(b0: bool, px: U) {\nPREn := b0 ? E : VT\n}\n",
    "field": "struct h@ { v: T }\nfn u@(b0: bool, px: U) {\nPREn := H@(E)\n}\n", "payload": "enum h@ { Ha@(v: T) Hb@() }\nfn u@(b0: bool, px: U) {\nPREn := Ha@(E)\n}\n", "explicit": "fn u@(b0: bool, px: U) {\nPREgid@«T»(E)\n}\n", "generic result": "fn u@«Q»(b0: bool, px: U, q: Q) T {\nPREreturn E\n}\n", "unified": "fn t@«Q»(p: Q, q: Q) { }\nfn u@(b0: bool, px: U) {\nPREt@(VT, E)\n}\n",
}


def kinds(thorough):
    """two types of the same kind are different types wherever a value is handed over, whatever the form of the expression"""
    for kind, ts in KT.items():
        for (t, vt), (u, vu) in itertools.product(ts, repeat=2):
            for fn, (pre, e) in FF.items():
                sub = lambda q: re.sub(r"\bT\b", lambda _: u, re.sub(r"\bV\b", lambda _: vu, re.sub(r"\bS\b", "Kw@", q))).replace("X", "x")
                p1, e1 = sub(pre), sub(e)
                helpers = "fn mkx@() %s = %s\nfn mmx@() fn() %s = mkx@\nfn idx@(z: %s) %s = z\n" % (u, vu, u, u, u)
                for un, txt in KU.items():
                    if un == "result" and p1:
                        continue
                    if e1.startswith("fn("):
                        continue
                    src = re.sub(r"\b(VT|U|T|E)\b", lambda m: {"VT": vt, "U": u, "T": t, "E": e1}[m.group(1)], txt.replace("PRE", "\x00")).replace("\x00", p1)
                    yield Case("kind %s: %s given %s %s %s" % (un, t, u, vu, fn), KD + helpers + src, "", [], "accept" if t == u else "treject")


VIOL = {
    # single statements wrong wherever they stand (n: int, s: string, b: bool, a: []int, o: option«int» in scope)
    "add": "v := n + s", "mul": "v := b * 2", "and": "v := b and n", "cmp": "v := n < s", "eq": "v := s == s", "not": "v := not n", "neg": "v := -s", "bnot": "v := ~b",
    "assign": "n = s", "assign elem": "a[0] = s", "assign field": "h.x = s", "index": "v := a[s]", "indexed": "v := n[0]", "array": "v := [n, s]", "ternary": "v := b ? n : s", "ternary cond": "v := n ? 1 : 2",
    "call arg": "one@(s)", "call count": "one@()", "call dot": "s.one@()", "call value": "f(s)", "call nonfn": "n(1)", "ctor": "v := Hx@(s)", "field": "v := h.zz", "field int": "v := n.x", "if": "if n { }", "elseif": "if b { } elseif s { }", "while": "while n { }",
    "for": "for q in n { }", "range": "for q in 0 .. s { }", "match": "match n {\ncase Some(v):\ncase None():\n}", "undeclared": "v := zzz", "generic": "o = Some(s)", "option arg": "v := o.orElse(s)", "length": "a.length = 2", "anon": "g := fn() int = s", "anon block": "g := fn() int { return s }",
    "nested arg": "one@(one@(s))", "nested elem": "v := [[1], [s]]", "paren": "v := 1 + (2 * (n + s))", "string elem": "v := a[one@(s)]", "match in": "match o {\ncase Some(v): v = s\ncase None():\n}", "ret": "if b { one@(s) }", "lit": "v := 1 + \"x\"", "litb": "v := true + 1",
}
CTXS = {
    "plain": "%s", "if": "if b {\n%s\n}", "elseif": "if b {\n} elseif b {\n%s\n}", "elseif2": "if b {\n} elseif b {\n} elseif b {\n%s\n} else {\n}", "else": "if b {\n} else {\n%s\n}", "while": "while b {\n%s\n}", "for": "for i in 0 .. 3 {\n%s\n}", "fora": "for i in a {\n%s\n}",
    "match some": "match o {\ncase Some(k):\n%s\ncase None():\n}", "match none": "match o {\ncase Some(k):\ncase None():\n%s\n}", "after return": "if b {\nreturn\n}\n%s", "anon": "z := fn() {\n%s\n}", "anon param": "z := fn(k: int) {\n%s\n}",
    "anon anon": "z := fn() {\ny := fn() {\n%s\n}\n}", "anon arg": "run@(fn() {\n%s\n})", "anon array": "z := [fn() {\n%s\n}]", "anon array 2": "z := [fn() { }, fn() {\n%s\n}]", "anon ternary": "z := b ? fn() {\n%s\n} : fn() { }", "anon ternary 2": "z := b ? fn() { } : fn() {\n%s\n}",
    "anon field": "z := Hf@(fn() {\n%s\n})", "anon returned": "z := fn() fn() {\nreturn fn() {\n%s\n}\n}", "anon assigned": "z := fn() { }\nz = fn() {\n%s\n}", "anon elem": "z := [fn() { }]\nz[0] = fn() {\n%s\n}", "anon option": "z := Some(fn() {\n%s\n})",
    "if for match": "if b {\nfor i in a {\nmatch o {\ncase Some(k):\n%s\ncase None():\n}\n}\n}", "while anon if": "while b {\nz := fn() {\nif b {\n%s\n}\n}\n}", "second": "one@(1)\n%s\none@(2)", "foreach": "toList([1]).foreach(fn(k: int) {\n%s\n})",
}
PARAMS = "n: int, s: string, b: bool, a: []int, o: option«int»"
LOCALS = "h := Hx@(1)\nf := fn(i: int) int = i\n"
DC = "struct hx@ { x: int }\nstruct hf@ { f: fn() }\nfn one@(i: int) int = i\nfn run@(f: fn()) { f() }\n"
FIXED = {"add": "v := n + n", "call arg": "one@(n)", "assign": "n = 3", "match": "match o {\ncase Some(v):\ncase None():\n}", "anon": "g := fn() int = n", "array": "v := [n, n]", "if": "if b { }", "ternary": "v := b ? n : n"}


def contexts(depth):
    names = list(CTXS)
    seqs = [(c,) for c in names]
    if depth > 1:
        seqs += list(itertools.product(names, repeat=2))
    for seq in seqs:
        for vn, v in VIOL.items():
            body = v
            for c in reversed(seq):
                body = CTXS[c] % body
            for fnk in ("fn", "generic") if len(seq) == 1 else ("fn",):
                d = DC + "fn w@%s(%s) {\n%s%s\n}\n" % ("«G»" if fnk == "generic" else "", PARAMS + (", g: G" if fnk == "generic" else ""), LOCALS, body.replace("g :=", "gg :="))
                yield Case("ctx %s %s %s" % (fnk, "/".join(seq), vn), d, "", [], "treject")
        for vn, v in FIXED.items():
            body = v
            for c in reversed(seq):
                body = CTXS[c] % body
            for fnk in ("fn", "generic") if len(seq) == 1 else ("fn",):
                d = DC + "fn w@%s(%s) {\n%s%s\n}\n" % ("«G»" if fnk == "generic" else "", PARAMS + (", g: G" if fnk == "generic" else ""), LOCALS, body.replace("g :=", "gg :="))
                yield Case("ctx ok %s %s %s" % (fnk, "/".join(seq), vn), d, "", [], "accept")


def arities():
    """A function value fits exactly the function types with its own number of parameters, wherever a value of that type is required; calls need exactly that many arguments."""
    sig = lambda n, r: "fn(%s)%s" % (", ".join(["int"] * n), r)
    ps = lambda n: ", ".join("p%d: int" % i for i in range(n))
    d = ""
    for n in range(7):
        d += "fn n%d@(%s) int = %d\nfn v%d@(%s) { }\nfn g%d@«T»(%s) int = 0\n" % (n, ps(n), n, n, ps(n), n, ", ".join("p%d: T" % i for i in range(n)) or "")
    d = re.sub(r"fn g0@«T»\(\) int = 0\n", "", d)
    for r in (" int", ""):
        for n, m in itertools.product(range(7), repeat=2):
            T, ok = sig(n, r), n == m
            given = {"named": "%s%d@" % ("n" if r else "v", m)}
            if m < 6:
                given["anonymous"] = "fn(%s) int = 7" % ps(m) if r else "fn(%s) { }" % ps(m)
            given["parameter"] = "u"
            given["element"] = "[u][0]"
            given["field"] = "H%s@(u).f" % m
            for gn, e in given.items():
                dd = d + "struct h%s@ { f: %s }\n" % (m, sig(m, r)) + "struct k@ { a: int f: %s }\nenum e@ { Ec@(a: int, f: %s) Ed@() }\nfn take@(f: %s) { }\nfn last@(i: int, f: %s) { }\nfn same@«A»(x: A, y: A) { }\n" % (T, T, T, T)
                for pn, body in {"argument": "take@(E)", "last argument": "last@(1, E)", "assignment": "t = E", "field": "k := K@(1, t)\nk.f = E", "constructor": "k := K@(1, E)", "payload": "k := Ec@(1, E)", "element": "k := [t, E]", "assigned element": "k := [t]\nk[0] = E", "return": "", "ternary": "k := true ? t : E", "same": "same@(t, E)", "option": "k := Some(t)\nk = Some(E)", "variable": "l := t\nl = E", "closure": "f := fn(x: X) { t = x }\nf(E)"}.items():
                    if pn == "closure" and gn != "named" or pn == "same" and gn != "parameter":
                        continue
                    if pn == "return":
                        w = "fn w@(t: %s, u: %s) %s {\nreturn %s\n}\n" % (T, sig(m, r), T, e)
                    else:
                        w = "fn w@(t: %s, u: %s) {\n%s\n}\n" % (T, sig(m, r), re.sub(r"\bE\b", lambda _: e, body).replace("X", sig(m, r)))
                    yield Case("arity %s%s %s %d given %d" % (pn, r and " int", gn, n, m), dd + w, "", [], "accept" if ok else "treject")
            # calls with m arguments of something taking n
            args = ", ".join(["1"] * m)
            for cn, call in {"named": "%s%d@(%s)" % ("n" if r else "v", n, args), "value": "t(%s)" % args, "element": "[t][0](%s)" % args, "field": "K@(1, t).f(%s)" % args, "result": "r@(t)(%s)" % args, "dot": "1.%s%d@(%s)" % ("n" if r else "v", n, ", ".join(["1"] * (m - 1))) if m else None, "anonymous": "fn(%s) { }(%s)" % (ps(n), args) if n < 6 else None}.items():
                if call is None or n == 6 and cn in ("value", "element", "field", "result"):
                    continue
                st = "x := %s" % call if r and cn != "anonymous" else call
                if st[0] == "[":
                    st = "take@(t)\nif true { %s }" % st
                yield Case("arity call %s%s %d given %d" % (cn, r and " int", n, m), d + "struct k@ { a: int f: %s }\nfn take@(f: %s) { }\nfn r@(f: %s) %s = f\nfn w@(t: %s) {\n%s\n}\n" % (T, T, T, T, T, st), "", [], "accept" if ok else "treject")


def case_arities():
    """a case names exactly as many variables as its constructor has values"""
    for gen, n, k, others in itertools.product((False, True), range(6), range(7), range(3)):
        tv = lambda i: "T" if gen and i == 0 else ("int", "string", "[]int", "int", "bool")[i]
        T, arg = ("«T»", "«int»") if gen and n else ("", "")
        d = "enum e@%s { %sAa@(%s) %s}\n" % (T, "Ab@() " if others > 1 else "", ", ".join("f%d: %s" % (i, tv(i)) for i in range(n)), "Ac@(g: int, h: string) " if others else "")
        case = "case Aa@(%s):" % ", ".join("v%d" % i for i in range(k))
        oth = (["case Ab@():"] if others > 1 else []) + (["case Ac@(g, h):"] if others else [])
        for at in range(len(oth) + 1):
            cs = oth[:at] + [case] + oth[at:]
            for bn, body in {"empty": "", "use": "println(1)", "return": "return"}.items():
                yield Case("case arity %d given %d of %d at %d %s %s" % (n, k, others, at, gen, bn), d + "fn w@(x: e@%s) {\nmatch x {\n%s\n}\n}\n" % (arg, "\n".join(c + "\n" + body for c in cs)), "", [], "accept" if n == k else "treject")
            yield Case("case arity value %d given %d of %d at %d %s" % (n, k, others, at, gen), d + "fn w@(x: e@%s) int {\nmatch x {\n%s\n}\n}\n" % (arg, "\n".join(c + " return 1" for c in cs)), "", [], "accept" if n == k else "treject")


def places(thorough):
    """one ill-typed part among up to n well-typed ones, at every position of everything which has a list of parts"""
    good = {"int": "1", "string": "\"s\"", "bool": "true", "[]int": "[1]", "fn() int": "fn() int = 1", "option«int»": "Some(1)"}
    bad = {"int": ["\"s\"", "true", "[1]"], "string": ["1", "[\"s\"]"], "bool": ["1"], "[]int": ["1", "[\"s\"]"], "fn() int": ["1", "fn() string = \"s\"", "fn(z: int) int = z"], "option«int»": ["1", "Some(\"s\")", "None«string»()"]}
    D = "enum e@ { E0@() E1@() E2@() E3@() E4@() E5@() E6@() E7@() }\n"

    def lists(n, at, g, b):
        return [b if i == at else g for i in range(n)]

    for n in list(range(1, 13)) + [16, 17, 32, 33, 64, 65]:
        for t, g in good.items():
            for b in bad[t]:
                for at in range(n) if n < 13 else (0, 1, n // 2, n - 2, n - 1):
                    for isbad in ((True,) if at or b != bad[t][0] else (True, False)):
                        xs = lists(n, at, g, b if isbad else g)
                        mode = "treject" if isbad else "accept"
                        key = "place %%s %s %s %d of %d%s" % (t, b, at, n, "" if isbad else " good")
                        if n > 1:
                            yield Case(key % "literal", D, "x := [%s]" % ", ".join(xs), [], mode)
                            yield Case(key % "nested literal", D, "x := [[%s], [%s]]" % (g, ", ".join(xs)), [], mode)
                        yield Case(key % "assignments", D, "v := %s\n" % g + "\n".join("v = %s" % x for x in xs), [], mode)
                        yield Case(key % "calls", D + "fn f@(p: %s) { }\n" % t, "\n".join("f@(%s)" % x for x in xs), [], mode)
                        yield Case(key % "returns", D + "fn f@(k: int) %s {\n%s\nreturn %s\n}\n" % (t, "\n".join("if k == %d { return %s }" % (i, x) for i, x in enumerate(xs)), g), "", [], mode)
                        yield Case(key % "elseif returns", D + "fn f@(k: int) %s {\nif k == 100 { return %s } %s\nreturn %s\n}\n" % (t, g, " ".join("elseif k == %d { return %s }" % (i, x) for i, x in enumerate(xs)), g), "", [], mode)
                        if n < 9:
                            yield Case(key % "case returns", D.replace("E7@() }", "E7@() }") + "fn f@(k: e@) %s {\nmatch k {\n%s\n}\n}\n" % (t, "\n".join("case E%d@(): return %s" % (i, xs[i] if i < n else g) for i in range(8))), "", [], mode)
                        if n < 13:
                            yield Case(key % "nested ternary", D, "k := 1\nv := %s\nv = %s" % (g, "".join("k == %d ? %s : " % (i, x) for i, x in enumerate(xs)) + g), [], mode)
                            yield Case(key % "blocks", D, "v := %s\n" % g + "".join("if true {\nv = %s\n" % x for x in xs) + "}\n" * n, [], mode)
                            yield Case(key % "closures", D, "v := %s\n" % g + "".join("z%d := fn() {\nv = %s\n" % (i, x) for i, x in enumerate(xs)) + "}\n" * n, [], mode)
                        if t in ("int", "bool"):
                            op = "+" if t == "int" else "and"
                            yield Case(key % "operands", D, "v := %s" % (" %s " % op).join(xs), [], mode) if n > 1 else Case(key % "operands", D, "v := %s %s %s" % (g, op, xs[0]), [], mode)
                        if t == "bool":
                            yield Case(key % "conditions", D, "if true { } %s" % " ".join("elseif %s { }" % x for x in xs), [], mode)
                            yield Case(key % "whiles", D, "\n".join("while %s { }" % x for x in xs), [], mode)
                        if t == "int":
                            yield Case(key % "indices", D, "a := [1]\n" + "\n".join("x%d := a[%s]" % (i, x) for i, x in enumerate(xs)), [], mode)
                            if n < 7:
                                yield Case(key % "nested indices", D, "a := %s1%s\nx := a%s" % ("[" * n, "]" * n, "".join("[%s]" % x for x in xs)), [], mode)


SELX = {  # an expression of every form, of type T given t: T
    "variable": "t", "field": "b.v", "nested field": "c.b.v", "element": "a[0]", "nested element": "m[0][0]", "field element": "b.vs[0]", "element field": "bs[0].v", "call": "mk@(t)", "dot call": "t.mk@()", "value call": "f()", "field call": "b.f()", "element call": "fs[0]()", "ternary": "(k ? t : f())", "paren": "(t)", "constructed": "Bx@(t, [t], f).v", "literal": "[t][0]", "option": "Some(t).orElse(t)", "closure": "(fn() T = t)()", "loop": "q", "payload": "z",
}
SELT = {"int": {}, "bool": {}, "string": {"length": "int"}, "[]int": {"length": "int"}, "[]sp@": {"length": "int"}, "[][]sp@": {"length": "int"}, "[]string": {"length": "int"}, "sp@": {"x": "int", "y": "string"}, "sg@«sp@»": {"g": "sp@", "x": "string"}, "[]sg@«int»": {"length": "int"}, "ep@": {}, "option«sp@»": {}, "list«sp@»": {}, "fn() sp@": {}, "fn(sp@) int": {}, "fn() []sp@": {}, "so@": {"s": "sp@", "ss": "[]sp@"}}


def selections():
    """a field can be selected exactly from the values which have it, whatever expression the value comes from"""
    d0 = "struct sp@ { x: int y: string }\nstruct sg@«T» { g: T x: string }\nstruct so@ { s: sp@ ss: []sp@ }\nenum ep@ { Ep@(x: int, y: string) }\nfn mk@«T»(t: T) T = t\n"
    for T, fields in SELT.items():
        for en, e in SELX.items():
            for f in ("x", "y", "g", "s", "ss", "length", "v", "zz"):
                r = fields.get(f)
                d = d0 + "struct bx@ { v: %s vs: []%s f: fn() %s }\nstruct cx@ { b: bx@ }\n" % (T, T, T)
                args = "t: %s, a: []%s, m: [][]%s, b: bx@, c: cx@, bs: []bx@, f: fn() %s, fs: []fn() %s, k: bool" % (T, T, T, T, T)
                ps = args.split(", ")
                need = [p for p in ps if re.search(r"\b%s\b" % p.split(":")[0], e)] or ["t: " + T]
                if en in ("payload", "loop"):
                    need = ["t: " + T]
                st = "r := %s.%s" % (e.replace("T", T), f)
                if r:
                    st += "\ntake@(r)"
                if en == "payload":
                    st = "match Some(t) {\ncase Some(z):\n%s\ncase None():\n}" % st
                if en == "loop":
                    st = "for q in [t] {\n%s\n}" % st
                yield Case("select %s of %s from %s" % (f, T, en), d + "fn take@(p: %s) { }\nfn w@(%s) {\n%s\n}\n" % (r or "int", ", ".join(need), st), "", [], "accept" if r else "treject")


PEXPR = {"variable": "t", "call": "f()", "call arg": "g(1)", "named call": "id@(t)", "generic call": "mk@(f)", "dot call": "t.id@()", "field": "b.v", "element": "a[0]", "nested element": "m[0][0]", "field element": "b.vs[0]", "element field": "bs[0].v", "element call": "fs[0]()", "field call": "b.f()", "ternary": "(c ? t : f())", "call of call": "h()()", "local": "l", "option": "o.orElse(t)", "literal": "[t][0]", "constructed": "Bx@(t, [t], f).v", "anonymous": "fn() T = t()", "loop": "q", "payload": "z", "explicit": "id@«T»(t)"}
PUSES = {
    "while": "while E { }", "if": "if E { }", "elseif": "if c { } elseif E { }", "elseif 2": "if c { } elseif c { } elseif E { } else { }", "ternary": "x := E ? 1 : 2", "not": "x := not E", "and left": "x := E and c", "and right": "x := c and E", "or left": "x := E or c", "or right": "x := c or E", "neg": "x := -E", "bnot": "x := ~E",
    "index": "x := [1][E]", "indexed": "x := E[0]", "indexed set": "E[0] = 1", "range from": "for i in E .. 3 { }", "range to": "for i in 0 .. E { }", "for": "for i in E { }", "match": "match E {\ncase Some(i):\ncase None():\n}", "called": "x := E()", "called arg": "x := E(1)", "field": "x := E.v", "length": "x := E.length", "field set": "E.v = t",
    "int arg": "int@(E)", "bool arg": "bool@(E)", "string arg": "x := E.append(\"x\")", "option arg": "opt@(E)", "array arg": "arr@(E)", "fn arg": "fun@(E)", "other arg": "other@(E, s)", "int element": "x := [1, E]", "assign int": "k := 1\nk = E", "assign bool": "c = E", "assign other": "s = E", "other element": "x := [s, E]", "other ternary": "x := c ? s : E", "box other": "bu.v = E", "ternary int": "x := c ? 1 : E",
}
for _o in ("+", "-", "*", "/", "&", "|", "^", "<<", ">>", "<", "<=", ">", ">=", "=="):
    PUSES["left " + _o] = "x := E %s 1" % _o
    PUSES["right " + _o] = "x := 1 %s E" % _o
    PUSES["both " + _o] = "x := E %s E" % _o
PGOOD = {"variable": "x := E", "same": "x := [t, E]", "assign": "t = E", "box": "b.v = E", "id": "x := id@(E)", "ternary": "x := c ? t : E", "some": "x := Some(E)", "constructed": "x := Bx@(E, a, f)", "element": "a[0] = E", "closure": "x := fn() T = t\nx = fn() T = t\nt = E"}


def opaque():
    """Nothing is known about a value of a type parameter's type: whatever expression has that type, every use needing more is rejected."""
    d = "struct bx@«T» { v: T vs: []T f: fn() T }\nfn id@«A»(a: A) A = a\nfn mk@«A»(f: fn() A) A = f()\nfn int@(i: int) { }\nfn bool@(i: bool) { }\nfn opt@(o: option«int») { }\nfn arr@(o: []int) { }\nfn fun@(o: fn() int) { }\nfn other@«A»(a: A, b: A) { }\nfn st@(x: int) { }\n"
    heads = ["t: T, s: U, f: fn() T, g: fn(int) T, a: []T, c: bool", "t: T, s: U, f: fn() T, b: bx@«T», bu: bx@«U», c: bool", "t: T, s: U, m: [][]T, bs: []bx@«T», fs: []fn() T, c: bool", "t: T, s: U, f: fn() T, h: fn() fn() T, o: option«T», c: bool", "t: T, s: U, f: fn() T, a: []T, bu: bx@«U», b: bx@«T»"]
    for (en, e), (un, u, ok) in itertools.product(PEXPR.items(), [(k, v, False) for k, v in PUSES.items()] + [(k, v, True) for k, v in PGOOD.items()]):
        if en == "anonymous":
            e = "(fn() T = t())" if False else "an()"
        body = re.sub(r"\bE\b", lambda _: e, u)
        pre, post = "", ""
        need = set(re.findall(r"\b(t|s|f|g|a|b|bu|c|m|bs|fs|h|o)\b", body))
        if en == "anonymous":
            pre = "an := fn() T = t\n"
        elif en == "local":
            pre = "l := t\n"
        elif en == "loop":
            pre, post = "for q in a {\n", "\n}"
            need.add("a")
        elif en == "payload":
            pre, post = "match o {\ncase None():\ncase Some(z):\n", "\n}"
            need.add("o")
        need |= {"t", "s"}
        tys = dict(x.split(": ", 1) for hd in heads for x in hd.split(", "))
        if body[0] in "[(-":
            continue
        if en == "constructed" and un in ("field set", "indexed set"):
            continue
        if len(need) > 6:
            need -= {"s"}
            if "s" in re.findall(r"\b\w+\b", body):
                continue
        if len(need) > 6:
            continue
        d1 = d + "fn w@«T, U»(%s) {\n%s%s%s\n}\n" % (", ".join("%s: %s" % (x, tys[x]) for x in sorted(need)), pre, body, post)
        if "U" not in d1.split("w@«T, U»")[1]:
            d1 = d1.replace("w@«T, U»", "w@«T»")
        yield Case("opaque %s %s" % (un, en), d1, "", [], "accept" if ok else "treject")


def main():
    c = Check("C10", "model_checking",
              "model: the typing relation over a finite type universe; states are (expected type, actual type, position, context) and the verdict accept/reject of every state is compared with the compiler's. "
              "All type pairs in all typed positions, all operators over all operand types, all single violations in all contexts and nested pairs of contexts, all near pairs (thorough: all pairs) of a closed grammar of 399 types up to two constructors deep")
    c.run_cases("pairs", pairs(list(TYPES), list(POS)))
    c.run_cases("operators", operators())
    c.run_cases("forms", forms(c.thorough))
    c.run_cases("kinds", kinds(c.thorough))
    c.run_cases("results", results())
    for n in (1, 2) + ((3,) if c.thorough else ()):
        c.run_cases("vectors", vectors(n, list(CALLEES)))
    if not c.thorough:
        c.run_cases("vectors", vectors(3, ["named"]))
    c.run_cases("arities", arities())
    c.run_cases("places", places(c.thorough))
    c.run_cases("case arities", case_arities())
    c.run_cases("selections", selections())
    c.run_cases("opaque", opaque())
    c.run_cases("contexts", contexts(2))
    c.run_cases("grammar", grammar(2, ["assign local", "arg last", "generic same", "array literal"], False))
    c.run_cases("parts", parts(["assign local", "arg last"], None if c.thorough else ["int", "string", "[]int", "[]string", "tg@«int»", "tg@«string»", "te@«int»", "te@«string»", "fn(int) int", "fn(string) int"]))
    if c.thorough:
        c.run_cases("near", grammar(2, list(POS), False))
        c.run_cases("all pairs", grammar(2, ["return", "arg only", "generic same"], True))
    c.finish()
