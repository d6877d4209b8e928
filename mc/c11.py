"""C11: names, declarations and returns are statically checked."""
import itertools
from core import Case, Check

# ------------------------------------------------------------------ scopes
OPEN = {"if": "if true {", "else": "if true {\n} else {", "elseif": "if true {\n} elseif true {", "while": "while false {", "for": "for i@D in 0 .. 2 {", "fora": "for i@D in [1] {",
        "case": "match Some(1) {\ncase None():\ncase Some(i@D):", "anon": "f@D := fn() {", "anonp": "f@D := fn(i@D: int) {", "arg": "run@(fn() {"}
CLOSE = {"arg": "})"}


def scope_seqs(n, kinds, names, val=None):
    """every sequence of declare/use/assign/open/close of length n (closed at the end), with the verdict of the scope model"""
    acts = [("d", x) for x in names] + [("u", x) for x in names] + [("a", names[0])] + [("o", k) for k in kinds] + [("c", None)]
    for seq in itertools.product(acts, repeat=n):
        depth, scopes, ok, lines, stack, uid = 0, [set()], True, [], [], 0
        bad = False
        for k, v in seq:
            if k == "c":
                if not stack:
                    bad = True
                    break
                lines.append(CLOSE.get(stack.pop(), "}"))
                scopes.pop()
            elif k == "o":
                uid += 1
                lines.append(OPEN[v].replace("@D", str(uid)))
                stack.append(v)
                scopes.append(set())
            elif k == "d":
                if v in scopes[-1]:
                    ok = False
                scopes[-1].add(v)
                lines.append("%s := %s" % (v, val or len(lines)))
            elif k == "u":
                if not any(v in s for s in scopes):
                    ok = False
                lines.append(("sink@(%s)" if val else "println(%s)") % v)
            else:
                if not any(v in s for s in scopes):
                    ok = False
                lines.append("%s = %s" % (v, val or 5))
        if bad or seq[-1][0] == "o":
            continue
        while stack:
            lines.append(CLOSE.get(stack.pop(), "}"))
        yield Case("scope " + (val + " " if val else "") + " ".join(k + (v or "") for k, v in seq), "fn run@(f: fn()) { f() }\n" + ("struct vs@ { v: int }\nfn sink@«T»(t: T) { }\nfn named@(n: int) int = n\n" if val else ""), "\n".join(lines), [], "accept" if ok else "treject")


# ------------------------------------------------------------------ must return
def trees(size, memo={}):
    """statements with exactly `size` nodes: (source, terminating)"""
    if size in memo:
        return memo[size]
    out = []
    if size == 1:
        out += [("return 1", True), ("n = n + 1", False), ("k@(fn() int = 1)", False)]
    for b, bt in blocks(size - 1):
        out.append(("if n == 1 {\n%s}" % b, False))
        out.append(("while n == 1 {\n%s}" % b, False))
        out.append(("for i in 0 .. n {\n%s}" % b, False))
        out.append(("k@(fn() int {\nif n == 1 { return 2 }\n%sreturn 3\n})" % b, False))
        out.append(("match e {\ncase Ov@(v):\n%s}" % b, bt))
    for l in range(0, size):
        for (b1, t1), (b2, t2) in itertools.product(blocks(l), blocks(size - 1 - l)):
            out.append(("if n == 1 {\n%s} else {\n%s}" % (b1, b2), t1 and t2))
            out.append(("if n == 1 {\n%s} elseif n == 2 {\n%s}" % (b1, b2), False))
            out.append(("match o {\ncase Some(v):\n%scase None():\n%s}" % (b1, b2), t1 and t2))
    for l in range(0, size):
        for m in range(0, size - l):
            for (b1, t1), (b2, t2), (b3, t3) in itertools.product(blocks(l), blocks(m), blocks(size - 1 - l - m)):
                out.append(("if n == 1 {\n%s} elseif n == 2 {\n%s} else {\n%s}" % (b1, b2, b3), t1 and t2 and t3))
    memo[size] = out
    return out


def blocks(size, memo={}):
    """statement lists with exactly `size` nodes"""
    if size == 0:
        return [("", False)]
    if size in memo:
        return memo[size]
    out = []
    for first in range(1, size + 1):
        for (s, t), (r, rt) in itertools.product(trees(first), blocks(size - first)):
            if t and r:
                continue  # code after a terminating statement: unspecified
            out.append((s + "\n" + r, rt if r else t))
    memo[size] = out
    return out


def returns(size, kind):
    for n in range(0, size + 1):
        for i, (b, t) in enumerate(blocks(n)):
            head = "(n: int, o: option«int», e: one@) int {\n%s}\n" % b
            d = "enum one@ { Ov@(x: int) }\nfn k@(f: fn() int) int = f()\n"
            if kind == "fn":
                d += "fn w@" + head
            else:
                d += "fn w@() {\nh := fn" + head + "}\n"
            yield Case("returns %s %s" % (kind, b.replace("\n", ";")), d, "", [], "accept" if t else "treject")


RESULTS = {"string": "string", "bool": "bool", "array": "[]int", "enum": "one@", "struct": "ro@", "option": "option«int»", "function": "fn(int) int", "bytes": "bytes", "parameter": "R", "array of parameter": "[]R", "option of parameter": "option«R»", "function to parameter": "fn() R", "generic struct": "rg@«R»", "int beside parameter": "int"}


def results(size):
    """must-return whatever the result type, in plain and generic functions"""
    for rn, r in RESULTS.items():
        for n in range(0, size + 1):
            for b, t in blocks(n):
                if "fn(" in b:
                    continue
                b = b.replace("return 1", "return rv")
                d = "enum one@ { Ov@(x: int) }\nstruct ro@ { x: int }\nstruct rg@«T» { t: T }\n"
                gen = rn == "int beside parameter" or "R" in r
                ps = "(n: int, o: option«int», e: one@, rv: %s%s) %s {\n%s}\n" % (r, ", q: R" if rn == "int beside parameter" else "", r, b)
                yield Case("result %s %s" % (rn, b.replace("\n", ";")), d + "fn w@%s%s" % ("«R»" if gen else "", ps), "", [], "accept" if t else "treject")
                if n < 2:
                    yield Case("result anonymous %s %s" % (rn, b.replace("\n", ";")), d + "fn w@%s() {\nh := fn%s}\n" % ("«R»" if gen else "", ps), "", [], "accept" if t else "treject")


LOOPS = ["while true", "while false", "while n == 1", "while not false", "while true or b", "while b", "while 1 == 1", "while 1 < 2", "while k@(fn() int = 1) == 1", "for i in 0 .. n", "for i in 0 .. 3", "for i in 3 .. 3", "for i in 3 .. 0", "for i in n .. 0", "for i in 0 .. 1", "for i in -1 .. 1", "for i in 0 .. a.length", "for i in a",
         "for i in [1]", "for i in [1, 2]", "for i in array(0, 1)", "for i in array(3, 1)", "for i in [a][0]", "for i in mk@()", "for i in (b ? a : a)", "if true", "if not false", "if 1 == 1", "if b", "if b or not b", "if n == 1 { return 1 } elseif true", "if n == 1 { return 1 } elseif not (n == 1)"]
ENDS = {"return": "return 1\n", "chain": "if n == 1 { return 1 } else { return 2 }\n", "match": "match o {\ncase Some(v): return v\ncase None(): return 0\n}\n", "statement then return": "n = 1\nreturn n\n", "loop": "while true { return 1 }\n", "range": "for j in 0 .. 2 { return j }\n", "panic": "panic(\"x\")\n", "nothing": "", "exit": "exit(1)\n", "lambda": "f := fn() int { return 1 }\n", "self": "w@(n, b, a, o)\n"}


def loops():
    """functions whose last statement is a loop or an if without else, whatever its condition, range or array: they can fall off their end"""
    d0 = "fn k@(f: fn() int) int = f()\nfn mk@() []int = [1]\n"
    PL = {"plain": "%s", "else": "if b {\nreturn 5\n} else {\n%s}\n", "then": "if b {\n%s} else {\nreturn 5\n}\n", "elseif": "if b {\nreturn 5\n} elseif n == 2 {\n%s} else {\nreturn 6\n}\n", "case": "match o {\ncase Some(u): return u\ncase None():\n%s}\n", "first case": "match o {\ncase Some(u):\n%scase None(): return 1\n}\n"}
    for h in LOOPS:
        for en, e in ENDS.items():
            for pn, pl in PL.items():
                body = pl % ("%s {\n%s}\n" % (h, e))
                for kind in ("fn", "anon"):
                    if kind == "anon" and (pn not in ("plain", "case") or en == "self"):
                        continue
                    fn = lambda b: d0 + ("fn w@(n: int, b: bool, a: []int, o: option«int») int {\n%s}\n" % b if kind == "fn" else "fn w@() {\nq := fn(n: int, b: bool, a: []int, o: option«int») int {\n%s}\n}\n" % b)
                    yield Case("loop %s | %s | %s %s" % (h, en, pn, kind), fn(body), "", [], "treject")
                    yield Case("loop %s | %s | %s %s then return" % (h, en, pn, kind), fn(body + "return 9\n"), "", [], "accept")
    for en, e in ENDS.items():
        if en in ("panic", "exit", "nothing", "lambda", "self"):
            yield Case("end %s" % en, d0 + "fn w@(n: int, b: bool, a: []int, o: option«int») int {\n%s}\n" % e, "", [], "treject")


def chains(maxif, maxcase, kind):
    """chains of if/elseif/else and matches of every length x every subset of returning branches"""
    def case(key, decl, body, ok):
        if kind == "fn":
            d = decl + "fn w@(n: int, m: mm@) int {\n%s}\n" % body
        else:
            d = decl + "fn w@() {\nh := fn(n: int, m: mm@) int {\n%s}\n}\n" % body
        return Case("chain %s %s" % (kind, key), d, "", [], "accept" if ok else "treject")
    for n in range(1, maxif + 1):
        for els in (False, True):
            k = n + (1 if els else 0)
            for bits in itertools.product((False, True), repeat=k):
                txt = ""
                for i, b in enumerate(bits):
                    txt += ("if n == 0 {" if i == 0 else "else {" if els and i == k - 1 else "elseif n == %d {" % i) + "\n" + ("return %d\n" % i if b else "n = %d\n" % i) + "} "
                ok = els and all(bits)
                key = "%d %s %s" % (n, els, "".join("r" if b else "-" for b in bits))
                yield case(key, "enum mm@ { Ma@() }\n", txt + "\n", ok)
                if not ok:
                    yield case(key + " then return", "enum mm@ { Ma@() }\n", txt + "\nreturn 9\n", True)
                    yield case(key + " then call", "enum mm@ { Ma@() }\n", txt + "\nprintln(n)\n", False)
                # the same chain as the last branch of another one, and inside every other block
                yield case(key + " in else", "enum mm@ { Ma@() }\n", "if n == 7 {\nreturn 7\n} else {\n" + txt + "}\n", ok)
                yield case(key + " in then", "enum mm@ { Ma@() }\n", "if n == 7 {\n" + txt + "} else {\nreturn 7\n}\n", ok)
                yield case(key + " in match", "enum mm@ { Ma@() Mb@() }\n", "match m {\ncase Ma@(): return 1\ncase Mb@():\n" + txt + "}\n", ok)
                yield case(key + " in while", "enum mm@ { Ma@() }\n", "while n < 3 {\n" + txt + "}\n", False)
                yield case(key + " in for", "enum mm@ { Ma@() }\n", "for i in 0 .. n {\n" + txt + "}\n", False)
    for n in range(1, maxcase + 1):
        decl = "enum mm@ { %s }\n" % " ".join("M%d@(%s)" % (i, "" if i % 2 else "v: int") for i in range(n))
        for bits in itertools.product((False, True), repeat=n):
            for rev in (False, True):
                cs = ["case M%d@(%s): %s\n" % (i, "" if i % 2 else "v", "return %d" % i if b else "n = %d" % i) for i, b in enumerate(bits)]
                txt = "match m {\n" + "".join(cs[::-1] if rev else cs) + "}\n"
                key = "cases %d %s %s" % (n, rev, "".join("r" if b else "-" for b in bits))
                yield case(key, decl, txt, all(bits))
                if not all(bits):
                    yield case(key + " then return", decl, txt + "return 9\n", True)
                yield case(key + " in else", decl, "if n == 7 {\nreturn 7\n} else {\n" + txt + "}\n", all(bits))
                yield case(key + " in while", decl, "while n < 3 {\n" + txt + "}\n", False)


# ------------------------------------------------------------------ undeclared names, in every expression position and context
UPOS = ["v := Z", "println(Z)", "n = Z", "v := Z + 1", "v := 1 + Z", "v := not Z", "v := -Z", "v := a[Z]", "v := Z[0]", "v := Z.length", "v := [Z]", "v := [1, Z]", "v := b ? Z : 1", "v := b ? 1 : Z", "v := Z ? 1 : 2", "Z()", "Z(1)", "one@(Z)", "two@(1, Z)", "two@(Z, 1)", "n.Z()", "n.Z(1)", "Z.one@()",
        "Z = 1", "Z[0] = 1", "a[Z] = 1", "Z.x = 1", "a[0] = Z", "h.x = Z", "h.Z = 1", "v := h.Z", "if Z { }", "if b { } elseif Z { }", "while Z { }", "for q in Z { }", "for q in 0 .. Z { }", "for q in Z .. 3 { }", "match Z {\ncase Some(v):\ncase None():\n}", "match o {\ncase Z(v):\ncase None():\n}",
        "v := Hx@(Z)", "v := Some(Z)", "v := f(Z)", "v := (Z)", "v := ((1 + 2) * (3 + Z))", "v := fn() int = Z", "v := fn() int { return Z }", "v := fn() { Z = 1 }", "v := fn(p: Z) { }", "v := fn() Z { return 1 }", "v := fn(p: fn(Z)) { }", "v := fn(p: []Z) { }", "v := fn(p: option«Z») { }", "v := None«Z»()", "v := None«[]Z»()", "v := None«option«Z»»()",
        "v := None«fn(int) Z»()", "v := Z«int»(1)", "printf(\"%d\", Z)", "h.x = one@(Z)", "v := Z()(1)", "v := Z[0](1)", "v := [fn() int = Z]"]
CTX = {"plain": "%s", "if": "if b {\n%s\n}", "else": "if b {\n} else {\n%s\n}", "elseif": "if b {\n} elseif b {\n%s\n}", "while": "while b {\n%s\n}", "for": "for k in 0 .. 2 {\n%s\n}", "fora": "for k in a {\n%s\n}", "some": "match o {\ncase Some(k):\n%s\ncase None():\n}", "none": "match o {\ncase Some(k):\ncase None():\n%s\n}",
       "anon": "w := fn() {\n%s\n}", "anon2": "w := fn() {\ny := fn() {\n%s\n}\n}", "arg": "run@(fn() {\n%s\n})", "elem": "w := [fn() {\n%s\n}]", "tern": "w := b ? fn() { } : fn() {\n%s\n}"}
DC = "struct hx@ { x: int }\nfn one@(i: int) int = i\nfn two@(i: int, j: int) int = i\nfn run@(f: fn()) { f() }\n"
LOCALS = "h := Hx@(1)\nf := fn(i: int) int = i\n"
PARAMS = "n: int, a: []int, b: bool, o: option«int»"


def undeclared():
    for c, ctx in CTX.items():
        for u in UPOS:
            for z in ("zzz", "u1", "p", "Zzz@"):
                # u1: declared only in sibling scopes; p: declared only in another function
                if z != "zzz" and ("«" in u or ": Z" in u or "Z {" in u or "[]Z" in u or "(Z)" in u and "fn(p" in u):
                    continue
                pre = "if b {\nu1 := 1\n}\nwhile b {\nu1 := fn(i: int) int = i\n}\n" if z == "u1" else ""
                d = DC + ("fn other@(p: int) int = p\n" if z == "p" else "")
                d += "fn w@(%s) {\n%s%s%s\n}\n" % (PARAMS, LOCALS, pre, ctx % u.replace("Z", z).replace("zzzzz@", "Zzz@").replace("Zzzzz", "Zzz"))
                yield Case("undeclared %s %s %s" % (z, c, u), d, "", [], "treject")


def initialisers():
    """a variable is not in scope in its own initialiser"""
    exprs = ["Z", "Z + 1", "1 + Z", "-Z", "[Z]", "[1, Z]", "[1][Z]", "Z[0]", "Z.x", "Hx@(Z)", "Hx@(1).one@(Z)", "one@(Z)", "Z.one@()", "two@(1, Z)", "b ? Z : 1", "b ? 1 : Z", "Some(Z)", "Z()", "Z(1)", "f(Z)", "(Z)", "not Z",
             "fn() { Z() }", "fn() { Z(1) }", "fn() { println(Z) }", "fn() int = Z", "fn() int = Z()", "fn() int { return Z() }", "fn(i: int) int = Z(i - 1)", "fn(i: int) int { return i == 0 ? 0 : Z(i - 1) }", "fn(i: int) { Z = i }", "fn() { Z = 1 }", "fn() { h.x = Z }", "fn() fn() int { return fn() int = Z }", "fn() { k := fn() { Z() } }", "[fn() { Z() }]", "[fn() int = Z]", "fn() { if b { Z() } }", "fn() { while b { Z() } }", "fn() { for q in a { Z() } }", "fn() { for q in Z { } }", "fn() { match o {\ncase Some(v): Z()\ncase None():\n} }", "Hf@(fn() { Z() })", "b ? fn() { Z() } : fn() { }", "fn(p: fn()) { p() Z() }", "run2@(fn() { Z() })", "Some(fn() { Z() })"]
    for cn, ctx in CTX.items():
        for e in exprs:
            d = DC + "struct hf@ { f: fn() }\nfn run2@(f: fn()) int = 1\n"
            for where, tpl in {"init": "zzz := %s", "again": "if b {\nzzz := 1\n}\nzzz := %s", "after": "k9 := %s\nzzz := 1", "range": "for zzz in 0 .. one@(%s) { }" if not e.startswith(("fn", "[fn", "b ? fn", "Hf", "Some(fn")) else None, "array": "for zzz in [%s] { }", "match": "match Some(%s) {\ncase Some(zzz):\ncase None():\n}", "case": "match o {\ncase Some(zzz):\ncase None(): k9 := %s\n}"}.items():
                if tpl is None or where != "init" and cn not in ("plain", "anon", "if"):
                    continue
                yield Case("initialiser %s %s %s" % (where, cn, e), d + "fn w@(%s) {\n%s%s\n}\n" % (PARAMS, LOCALS, ctx % (tpl % e).replace("Z", "zzz")), "", [], "treject")


DECLARED = ["v := n", "println(n)", "v := a[n]", "v := [n]", "v := b ? n : 1", "one@(n)", "n.one@()", "n = 1", "a[0] = n", "h.x = n", "v := fn() int = n", "match o {\ncase Some(v):\ncase None():\n}", "v := None«int»()", "v := fn(p: []int) { }", "for q in a { }", "v := f(n)", "v := [fn() int = n]", "v := f", "v := Hx@"]


def declared():
    for c, ctx in CTX.items():
        for u in DECLARED:
            yield Case("declared %s %s" % (c, u), DC + "fn w@(%s) {\n%s%s\n}\n" % (PARAMS, LOCALS, ctx % u), "", [], "accept")


# ------------------------------------------------------------------ declarations
def decls():
    R, A = "treject", "accept"
    # pairs of top-level declarations of one name
    kinds = {"struct": "struct q@ { a: int }", "struct2": "struct q@ { b: string }", "enum": "enum q@ { V%d@() }", "generic struct": "struct q@«T» { a: T }", "generic enum": "enum q@«T» { V%d@(t: T) }",
             "fn": "fn q@(a: int) int = a", "fn same": "fn q@(b: int) int { return b }", "fn other": "fn q@(a: string) int = 1", "fn two": "fn q@(a: int, b: int) int = 1", "fn ret": "fn q@(a: int) string = \"\"", "fn none": "fn q@() int = 1", "fn arr": "fn q@(a: []int) int = 1", "extern": "fn q@(a: int) int",
             "generic fn": "fn q@«T»(a: int) int = a"}
    isfn = lambda k: k.startswith("fn") or k in ("extern", "generic fn")
    sig = {"fn": "i", "fn same": "i", "fn ret": "i", "extern": "i", "generic fn": None, "fn other": "s", "fn two": "ii", "fn none": "", "fn arr": "[i"}
    for (k1, d1), (k2, d2) in itertools.product(kinds.items(), repeat=2):
        if "generic fn" in (k1, k2):
            continue
        if isfn(k1) != isfn(k2):
            verdict = A  # a function and a type may share a name
        elif isfn(k1):
            verdict = R if sig[k1] == sig[k2] else A
        else:
            verdict = R
        if verdict == A and "extern" in (k1, k2):
            continue
        text = (d1 % 1 if "%d" in d1 else d1) + "\n" + (d2 % 2 if "%d" in d2 else d2) + "\n"
        yield Case("two declarations: %s, %s" % (k1, k2), text, "", [], verdict)
        yield Case("two declarations apart: %s, %s" % (k1, k2), text.split("\n")[0] + "\nfn mid@() {}\nstruct mids@ { x: int }\n" + "\n".join(text.split("\n")[1:]), "", [], verdict)
    for t in ("int", "string", "bool", "bytes", "pointer", "nothing", "option", "pair", "list", "runtime"):
        yield Case("type redeclares %s as struct" % t, "struct %s { a: int }\n" % t, "", [], "reject")
        yield Case("type redeclares %s as enum" % t, "enum %s { Vv@() }\n" % t, "", [], "reject")
    # members
    for n in range(2, 7):
        for i, j in itertools.combinations(range(n), 2):
            f = ["f%d" % k for k in range(n)]
            good = list(f)
            f[j] = f[i]
            for nm, names, v in (("dup", f, R), ("ok", good, A)):
                yield Case("fields %s %d %d %d" % (nm, n, i, j), "struct m@ { %s }\n" % " ".join("%s: %s" % (x, "int" if k % 2 else "string") for k, x in enumerate(names)), "", [], v)
                yield Case("params %s %d %d %d" % (nm, n, i, j), "fn m@(%s) {}\n" % ", ".join("%s: %s" % (x, "int" if k % 2 else "string") for k, x in enumerate(names)), "", [], v)
                yield Case("params expr %s %d %d %d" % (nm, n, i, j), "fn m@(%s) int = 1\n" % ", ".join("%s: int" % x for x in names), "", [], v)
                yield Case("cases %s %d %d %d" % (nm, n, i, j), "enum m@ { %s }\n" % " ".join("C%s@()" % x for x in names), "", [], v)
                yield Case("type params %s %d %d %d" % (nm, n, i, j), "fn m@«%s»(a: int) {}\n" % ", ".join("T" + x for x in names), "", [], v)
                yield Case("struct type params %s %d %d %d" % (nm, n, i, j), "struct m@«%s» { a: int }\n" % ", ".join("T" + x for x in names), "", [], v)
                yield Case("enum type params %s %d %d %d" % (nm, n, i, j), "enum m@«%s» { Cv@() }\n" % ", ".join("T" + x for x in names), "", [], v)
                if n <= 5:
                    yield Case("anon params %s %d %d %d" % (nm, n, i, j), "fn m@() {\ng := fn(%s) int = 1\n}\n" % ", ".join("%s: int" % x for x in names), "", [], v)
                    yield Case("case params %s %d %d %d" % (nm, n, i, j), "enum m@ { Cc@(%s) }\n" % ", ".join("%s: int" % x for x in names), "", [], v)
                    yield Case("match variables %s %d %d %d" % (nm, n, i, j), "enum m@ { Cc@(%s) }\nfn mm@(m: m@) {\nmatch m {\ncase Cc@(%s):\n}\n}\n" % (", ".join("p%d: int" % k for k in range(n)), ", ".join(names)), "", [], v)
    # an enum case and other declarations of its name
    for nm, d, v in (("case twice in two enums", "enum a@ { Vv@() }\nenum b@ { Vv@() }\n", R), ("case and function", "enum a@ { Vv@() }\nfn Vv@() int = 1\n", R), ("function and case", "fn Vv@() int = 1\nenum a@ { Vv@() }\n", R), ("case and overload", "enum a@ { Vv@() }\nfn Vv@(i: int) int = 1\n", R),
                     ("overload and case", "fn Vv@(i: int) int = 1\nenum a@ { Vv@() }\n", R), ("case and constructor", "enum a@ { Qq@() }\nstruct qq@ { a: int }\n", R), ("constructor and function", "struct qq@ { a: int }\nfn Qq@(a: int) int = a\n", R), ("function and constructor", "fn Qq@(a: int) int = a\nstruct qq@ { a: int }\n", R)):
        yield Case(nm, d, "", [], v)
    # unknown types at every place a type can stand
    for nm, t in (("type", "Z"), ("array", "[]Z"), ("array2", "[][]Z"), ("fn param", "fn(Z)"), ("fn ret", "fn() Z"), ("fn second", "fn(int, Z) int"), ("arg", "option«Z»"), ("args", "pair«int, Z»"), ("nested", "option«option«Z»»"), ("array arg", "option«[]Z»"), ("fn arg", "option«fn(Z) int»")):
        for z, v in (("zz@", R), ("Zz@", R), ("ok@", A), ("T", R), ("fo@", R)):
            tt = t.replace("Z", z)
            pre = "struct ok@ { a: int }\nfn fo@() {}\n"
            yield Case("type %s %s param" % (nm, z), pre + "fn m@(a: %s) {}\n" % tt, "", [], v)
            yield Case("type %s %s second param" % (nm, z), pre + "fn m@(b: int, a: %s) {}\n" % tt, "", [], v)
            yield Case("type %s %s ret" % (nm, z), pre + "fn m@(a: %s) %s = a\n" % (tt, tt), "", [], v)
            yield Case("type %s %s ret only" % (nm, z), pre + "fn m@(k: int) %s {\nreturn m@(k)\n}\n" % tt, "", [], v)
            yield Case("type %s %s field" % (nm, z), pre + "struct m@ { a: %s }\n" % tt, "", [], v)
            yield Case("type %s %s second field" % (nm, z), pre + "struct m@ { b: int a: %s }\n" % tt, "", [], v)
            yield Case("type %s %s case" % (nm, z), pre + "enum m@ { Cc@(a: %s) }\n" % tt, "", [], v)
            yield Case("type %s %s second case" % (nm, z), pre + "enum m@ { Cd@() Cc@(b: int, a: %s) }\n" % tt, "", [], v)
            yield Case("type %s %s anon" % (nm, z), pre + "fn m@() {\ng := fn(a: %s) { }\n}\n" % tt, "", [], v)
            yield Case("type %s %s anon ret" % (nm, z), pre + "fn m@() {\ng := fn(a: %s) %s = a\n}\n" % (tt, tt), "", [], v)
            yield Case("type %s %s explicit" % (nm, z), pre + "fn m@() {\ng := None«%s»()\n}\n" % tt, "", [], v)
            if v == A:
                yield Case("type param %s" % nm, "fn m@«Z»(a: %s) {}\nstruct n@«Z» { a: %s }\nenum e@«Z» { Cc@(a: %s) }\n" % (t, t, t), "", [], A)
    # argument counts
    for want in range(0, 7):
        for got in range(0, 8):
            args = ", ".join(str(k) for k in range(got))
            ps = ", ".join("p%d: int" % k for k in range(want))
            yield Case("count fn %d %d" % (want, got), "fn m@(%s) {}\nfn n@() { m@(%s) }\n" % (ps, args), "", [], A if want == got else R)
            if got:
                yield Case("count dot %d %d" % (want, got), "fn m@(%s) {}\nfn n@() { 0.m@(%s) }\n" % (ps, args.partition(", ")[2]), "", [], A if want == got else R)
            if want:
                yield Case("count struct %d %d" % (want, got), "struct m@ { %s }\nfn n@() { z := M@(%s) }\n" % (ps.replace(",", ""), args), "", [], A if want == got else R)
            if want < 6:
                yield Case("count case %d %d" % (want, got), "enum m@ { Cc@(%s) }\nfn n@() { z := Cc@(%s) }\n" % (ps, args), "", [], A if want == got else R)
                yield Case("count value %d %d" % (want, got), "fn n@() {\nf := fn(%s) { }\nf(%s)\n}\n" % (ps, args), "", [], A if want == got else R)
                yield Case("count pattern %d %d" % (want, got), "enum m@ { Cc@(%s) }\nfn n@(m: m@) {\nmatch m {\ncase Cc@(%s):\n}\n}\n" % (ps, ", ".join("v%d" % k for k in range(got))), "", [], A if want == got else R)
    for want in range(0, 4):
        for got in range(1, 5):
            tp = ", ".join("T%d" % k for k in range(want))
            ta = ", ".join(["int", "string", "bool", "bytes"][:got])
            tpd = "«%s»" % tp if want else ""
            v = A if want == got else R
            yield Case("type args struct %d %d" % (want, got), "struct m@%s { a: int }\nfn n@(a: m@«%s») {}\n" % (tpd, ta), "", [], v)
            yield Case("type args enum %d %d" % (want, got), "enum m@%s { Cc@() }\nfn n@(a: m@«%s») {}\n" % (tpd, ta), "", [], v)
            yield Case("type args field %d %d" % (want, got), "enum m@%s { Cc@() }\nstruct n@ { a: m@«%s» }\n" % (tpd, ta), "", [], v)
            yield Case("type args ret %d %d" % (want, got), "struct m@%s { a: int }\nfn n@() m@«%s» {\nreturn n@()\n}\n" % (tpd, ta), "", [], v)
            yield Case("type args call %d %d" % (want, got), "fn m@%s(a: int) {}\nfn n@() { m@«%s»(1) }\n" % (tpd, ta), "", [], v)
            yield Case("type args ctor %d %d" % (want, got), "struct m@%s { a: int }\nfn n@() { z := M@«%s»(1) }\n" % (tpd, ta), "", [], v)
            yield Case("type args case %d %d" % (want, got), "enum m@%s { Cc@() }\nfn n@() { z := Cc@«%s»() }\n" % (tpd, ta), "", [], v)
            yield Case("type args anon %d %d" % (want, got), "struct m@%s { a: int }\nfn n@() {\ng := fn(a: m@«%s») { }\n}\n" % (tpd, ta), "", [], v)
    for t in ("int", "string", "bool", "bytes"):
        yield Case("type args of %s" % t, "fn n@(a: %s«int») {}\n" % t, "", [], R)
    # assignment targets
    for c, ctx in CTX.items():
        for tgt, v in (("n", A), ("a[0]", A), ("a[n]", A), ("h.x", A), ("mk@().x", A), ("ar@()[0]", A), ("hs[0].x", A), ("1", R), ("one@(1)", R), ("n + 1", R), ("-n", R), ("not b", R), ("mk@()", R), ("a.length", R), ("\"s\".length", R), ("one@", R), ("Hx@", R), ("true", R), ("n.one@()", R), ("n == 1", R)):
            val = {"true": "true", "not b": "true", "n == 1": "true", "mk@()": "h", "one@": "fn(i: int) int = i", "Hx@": "fn(x: int) hx@ = h"}.get(tgt, "7")
            yield Case("target %s %s" % (c, tgt), DC + "fn mk@() hx@ = Hx@(1)\nfn ar@() []int = [1]\nfn w@(%s) {\n%shs := [h]\n%s\n}\n" % (PARAMS, LOCALS, ctx % ("%s = %s" % (tgt, val))), "", [], v)
        for tgt in ("a[0]", "h.x", "1", "one@(1)", "n + 1", "mk@()"):
            yield Case("declared target %s %s" % (c, tgt), DC + "fn mk@() hx@ = Hx@(1)\nfn w@(%s) {\n%s%s\n}\n" % (PARAMS, LOCALS, ctx % ("%s := 7" % tgt)), "", [], R)
    # the length of an array or a string, however it is reached, is not a target; its elements and the fields on the way are
    base = {"a": "a", "h.a": "g.a", "h.h.a": "k.h.a", "h.h.h.a": "kk.k.h.a", "elem": "aa[0]", "elem elem": "aaa[0][n]", "field elem": "g.aa[0]", "elem field": "gs[0].a", "call": "mka@()", "call field": "mkg@().a", "dot call": "n.mkb@()", "dot call field": "n.mkc@().a", "call elem": "[a][0]", "literal": "[1, 2]", "value call": "fv()", "field call": "gf.f()", "generic": "id@(a)", "option": "oa.orElse(a)",
            "anon": "(fn() []int = a)()"}
    sbase = {"s": "s", "h.s": "g.s", "h.h.s": "k.h.s", "h.h.h.s": "kk.k.h.s", "elem": "ss[0]", "elem elem": "sss[0][n]", "elem field": "gs[0].s", "call": "mks@()", "call field": "mkg@().s", "literal": "\"abc\"", "append": "s.append(s)", "generic": "id@(s)", "int": "n.toString()", "a option": "os.orElse(s)"}
    td = DC + "struct g@ { s: string a: []int aa: [][]int }\nstruct k@ { q: int h: g@ }\nstruct kk@ { q: int k: k@ }\nstruct gf@ { f: fn() []int }\nfn mka@() []int = [1]\nfn mkb@(i: int) []int = [i]\nfn mks@() string = \"x\"\nfn mkg@() g@ = G@(\"\", [1], [[1]])\nfn mkc@(i: int) g@ = mkg@()\nfn id@«T»(t: T) T = t\n"
    tl = "g := mkg@()\nk := K@(1, g)\nkk := Kk@(1, k)\ngs := [g]\naa := [a]\naaa := [aa]\nss := [s]\nsss := [ss]\nfv := fn() []int = [1]\ngf := Gf@(fv)\noa := Some(a)\nos := Some(s)\n"
    tw = lambda st: td + "fn w@(n: int, s: string, b: bool, a: []int) {\n%s%s\n}\n" % (tl, st)
    for nm, e in base.items():
        for val in ("3", "n", "%s.length" % e, "n + 1"):
            yield Case("length target array %s = %s" % (nm, val), tw("%s.length = %s" % (e, val)), "", [], R)
        yield Case("length target array in lambda %s" % nm, tw("z := fn(a: []int, n: int) { %s }" % ("%s.length = 3" % e if not any(x in e for x in ("aa", "fv", "oa")) else "a.length = 3")), "", [], R)
        if e[0] not in "[(":  # at the start of a line these continue the expression before
            yield Case("element target array %s" % nm, tw("%s[0] = 3" % e), "", [], A)
            yield Case("length read %s" % nm, tw("n = %s.length" % e), "", [], A)
    for nm, e in sbase.items():
        for val in ("3", "n", "%s.length" % e, "n + 1"):
            yield Case("length target string %s = %s" % (nm, val), tw("%s.length = %s" % (e, val)), "", [], R)
        yield Case("length read string %s" % nm, tw("n = %s.length" % e), "", [], A)
        yield Case("element target string %s" % nm, tw("%s[0] = 3" % e), "", [], R)
    for f in ("g.a = [2]", "g.s = \"q\"", "k.h.a = a", "kk.k.h.s = s", "gs[0].a = a", "gs[n].s = s", "mkg@().a = a", "aa[0] = a", "aaa[0][0] = a", "ss[0] = s", "sss[0][n] = s", "gf.f = fn() []int = a", "k.h = g", "kk.k.h = g"):
        yield Case("field target %s" % f, tw(f), "", [], A)
    # a field which merely has that name is writable
    for f, v in (("x.length = 5", A), ("y.x.length = 5", A), ("xs[0].length = 5", A), ("x.ls.length = 5", R), ("y.x.ls.length = 5", R), ("xs[0].ls.length = 5", R)):
        yield Case("own length %s" % f, "struct x@ { length: int ls: []int }\nstruct y@ { x: x@ }\nfn w@(x: x@, y: y@, xs: []x@) {\n%s\n}\n" % f, "", [], v)
    # redeclarations against the names an enclosing construct binds in the same scope
    for nm, d, v in (
            ("param then local", "fn w@(x: int) {\nx := 1\n}\n", R), ("param then inner local", "fn w@(x: int) {\nif true {\nx := 1\n}\n}\n", A), ("loop variable then local", "fn w@() {\nfor x in 0 .. 3 {\nx := 1\n}\n}\n", R), ("loop variable shadows", "fn w@() {\nx := 1\nfor x in 0 .. 3 {\n}\n}\n", A),
            ("case variable then local", "fn w@() {\nmatch Some(1) {\ncase Some(x): x := 1\ncase None():\n}\n}\n", R), ("case variable shadows", "fn w@() {\nx := 1\nmatch Some(1) {\ncase Some(x):\ncase None(): x = 2\n}\n}\n", A), ("anon param then local", "fn w@() {\nf := fn(x: int) { x := 1 }\n}\n", R),
            ("anon param shadows", "fn w@() {\nx := 1\nf := fn(x: int) { x = 2 }\n}\n", A), ("local shadows function", "fn w@() {\nw@ := 1\nw@ = 2\n}\n", A), ("cases have own scopes", "fn w@() {\nmatch Some(1) {\ncase Some(x): y := 1\ncase None(): y := 2\n}\n}\n", A), ("self reference", "fn w@() {\nx := x\n}\n", R), ("self reference in anon", "fn w@() {\nf := fn() int = f()\n}\n", R),
            ("use before declaration", "fn w@() {\nprintln(x)\nx := 1\n}\n", R), ("loop variable after loop", "fn w@() {\nfor x in 0 .. 3 {\n}\nprintln(x)\n}\n", R), ("case variable after match", "fn w@() {\nmatch Some(1) {\ncase Some(x):\ncase None():\n}\nprintln(x)\n}\n", R), ("case variable in other case", "fn w@() {\nmatch Some(1) {\ncase Some(x):\ncase None(): println(x)\n}\n}\n", R),
            ("anon param outside", "fn w@() {\nf := fn(x: int) { }\nprintln(x)\n}\n", R), ("if variable in else", "fn w@() {\nif true {\nx := 1\n} else {\nprintln(x)\n}\n}\n", R), ("if variable in elseif condition", "fn w@() {\nif true {\nx := true\n} elseif x {\n}\n}\n", R), ("loop variable in its own range", "fn w@() {\nfor x in 0 .. x {\n}\n}\n", R), ("loop variable in its own array", "fn w@() {\nfor x in [x] {\n}\n}\n", R),
            ("type parameter outside", "fn w@«T»(t: T) {}\nfn v@(t: T) {}\n", R), ("type parameter of struct outside", "struct w@«T» { t: T }\nfn v@(t: T) {}\n", R), ("type parameter in anon", "fn w@«T»(t: T) {\nf := fn(u: T) T = u\n}\n", A), ("field as variable", "struct s@ { fld: int }\nfn w@(s: s@) {\nprintln(fld)\n}\n", R), ("return without value", "fn w@() int {\nreturn\n}\n", R)):
        yield Case(nm, d, "", [], v)


NAMES = ["_", "__", "_a", "_1", "a_", "a__b", "A", "Aa", "AA", "x1", "x01", "iff", "fnx", "trueish", "nothing1", "é", "xé", "Ω", "n" * 200, "length", "size", "println", "gc", "main", "Some", "env", "this", "T", "it", "tmp", "data"]


def spellings():
    """no name is special: the rules hold for every spelling of a variable, parameter, field or type parameter"""
    for x in NAMES:
        for n in (2, 3, 5):
            for i, j in itertools.combinations(range(n), 2):
                names = ["f%d" % k for k in range(n)]
                names[j] = x
                for v in ("accept", "treject"):
                    k = "%s %d %d %d %s" % (x[:9], n, i, j, v)
                    ps = ", ".join("%s: int" % y for y in names)
                    yield Case("spelling match " + k, "enum m@ { Cc@(%s) }\nfn mm@(m: m@) {\nmatch m {\ncase Cc@(%s):\n}\n}\n" % (", ".join("p%d: int" % q for q in range(n)), ", ".join(names)), "", [], v)
                    yield Case("spelling params " + k, "fn m@(%s) {}\n" % ps, "", [], v)
                    yield Case("spelling anon " + k, "fn m@() {\ng := fn(%s) int = 1\n}\n" % ps, "", [], v)
                    yield Case("spelling fields " + k, "struct m@ { %s }\n" % ps.replace(",", ""), "", [], v)
                    yield Case("spelling payload " + k, "enum m@ { Cc@(%s) }\n" % ps, "", [], v)
                    yield Case("spelling type params " + k, "fn m@«%s»(a: int) {}\n" % ", ".join(y + "P" for y in names), "", [], v)
                    yield Case("spelling locals " + k, "fn m@() {\n%s}\n" % "".join("%s := 1\n" % y for y in names), "", [], v)
                    yield Case("spelling param and local " + k, "fn m@(%s: int) {\n%s}\n" % (names[0], "".join("%s := 1\n" % y for y in names[1:])), "", [], v)
                    yield Case("spelling loop and local " + k, "fn m@() {\nfor %s in [1] {\n%s}\n}\n" % (names[0], "".join("%s := 1\n" % y for y in names[1:])), "", [], v)
                    yield Case("spelling range and local " + k, "fn m@() {\nfor %s in 0 .. 2 {\n%s}\n}\n" % (names[0], "".join("%s := 1\n" % y for y in names[1:])), "", [], v)
                    yield Case("spelling case and local " + k, "fn m@() {\nmatch Some(1) {\ncase Some(%s):\n%scase None():\n}\n}\n" % (names[0], "".join("%s := 1\n" % y for y in names[1:])), "", [], v)
                    names[i] = x


VALUES = ['"s"', "true", "[1]", '["s"]', "[[1]]", "fn(q: int) int = q", "fn() { }", "fn(q: []int, r: string) string = r", "named@", "Vs@(1)", "Vs@", "Some(1)", "None«string»()", "Pair(1, true)", "[fn() int = 1]", "Bytes(1)"]


def main():
    c = Check("C11", "model_checking",
              "model: the scope automaton (stack of name sets) and the termination analysis of structured control flow; every declare/use/open/close sequence and every statement tree up to the bound, every rule in every position and context, "
              "with the model's accept/reject verdict compared with the compiler's")
    kinds = list(OPEN)
    c.run_cases("declarations", decls())
    c.run_cases("spellings", spellings())
    for x in NAMES:
        if x not in ("main", "println", "gc", "Some"):  # these name functions where no variable does
            c.run_cases("scope spellings", scope_seqs(3, kinds, [x]))
    for x in VALUES:
        c.run_cases("scope values", scope_seqs(3, kinds, ["x"], x))
    c.run_cases("undeclared", undeclared())
    c.run_cases("declared", declared())
    c.run_cases("initialisers", initialisers())
    c.run_cases("scopes3", scope_seqs(3, kinds, ["x", "y"]))
    c.run_cases("scopes4", scope_seqs(4, kinds, ["x"]))
    c.run_cases("scopes5", scope_seqs(5, kinds if c.thorough else ["if", "for", "case", "anon"], ["x"]))
    if c.thorough:
        c.run_cases("scopes6", scope_seqs(6, ["else", "while", "fora", "anonp", "case"], ["x"]))
        c.run_cases("scopes4xy", scope_seqs(4, kinds, ["x", "y"]))
    c.run_cases("loops", loops())
    c.run_cases("results", results(3 if c.thorough else 2))
    c.run_cases("returns", returns(3, "fn"))
    c.run_cases("returns anonymous", returns(3, "anon"))
    for kind in ("fn", "anon"):
        c.run_cases("chains " + kind, chains(7 if c.thorough else 5, 8 if c.thorough else 6, kind))
    if c.thorough:
        c.run_cases("returns4", returns(4, "fn"))
    c.finish()
