"""C09: accesses outside a container's bounds always panic, accesses inside never do."""
import itertools, re
from core import Case, Check
from lang import Interp, Panic, blk

# element type -> (type, k-th element value, probe giving its printed form, printed form)
E = {
    "int": ("int", lambda k: str(k * 7 + 1), "println(%s)", lambda k: str(k * 7 + 1)),
    "bool": ("bool", lambda k: "true" if k % 2 else "false", "println(%s)", lambda k: "true" if k % 2 else "false"),
    "string": ("string", lambda k: '"s%d"' % k, "println(%s)", lambda k: "s%d" % k),
    "arr": ("[]int", lambda k: "[%d, %d]" % (k, k + 1), "println(%s[1])", lambda k: str(k + 1)),
    "struct": ("bx@", lambda k: "Bx@(%d)" % k, "println(%s.q)", lambda k: str(k)),
    "fn": ("fn(int) int", lambda k: "fn(z: int) int = z + %d" % k, "println(%s(1))", lambda k: str(k + 1)),
    "opt": ("option«int»", lambda k: "Some(%d)" % k, "println(%s.orElse(-5))", lambda k: str(k)),
}
BIG = [1 << 8, 1 << 16, 1 << 28, 1 << 29, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 47, 1 << 58, 1 << 59, 1 << 60, (1 << 60) + 1, 1 << 61, (1 << 61) + 1, (1 << 62) - 1]


def idxs(n, wide):
    near = list(range(-4, n + 5))
    far = sorted(set(BIG + [-b for b in BIG] + [-(1 << 62), -(1 << 62) + 1] + [b + n for b in BIG[:-1]] + [-b + n for b in BIG]))
    return near + far if wide else near + [1 << 31, 1 << 32, 1 << 60, 1 << 61, (1 << 62) - 1, -(1 << 31), -(1 << 32), -(1 << 61), -(1 << 62)]


def lit(i):
    return str(i) if i >= 0 else "(%d)" % i


MK = "struct bx@ { q: int }\n"


def mk(t, n):
    ty, v, _, _ = E[t]
    if n == 0:
        return "mk@()", "fn mk@() []%s = array(0, %s)\n" % (ty, v(0))
    return "mk@()", "fn mk@() []%s = [%s]\n" % (ty, ", ".join(v(k) for k in range(n)))


def forms(i):
    """index expression forms with the setup they need"""
    yield "lit", "", lit(i)
    yield "var", "i := %s\n" % i, "i"
    yield "sum", "i := %s\n" % (i - 1 if i > -(1 << 62) else i), "i + 1" if i > -(1 << 62) else "i + 0"
    yield "call", "", "idn@(%s)" % i
    yield "field", "h := Bx@(%s)\n" % i, "h.q"
    yield "elem", "j := [9, %s]\n" % i, "j[1]"
    yield "tern", "i := %s\n" % i, "(i == i ? i : 0)"
    yield "op", "i := %s\n" % i, "(i & -1)"


IDN = "fn idn@(x: int) int = x\n"


def matrix(types, lens, wide):
    """length x index x read/write x element type x index form"""
    for t in types:
        ty, v, pr, pv = E[t]
        for n in lens:
            m, d = mk(t, n)
            d = MK + IDN + d
            for i in idxs(n, wide):
                ok = 0 <= i < n
                for fname, pre, ix in forms(i):
                    if not wide and fname not in ("lit", "var") and not -2 <= i <= n + 1:
                        continue
                    new = 3
                    rd = "a := %s\n%sprintln(\"pre\")\n%s\nprintln(\"post\")" % (m, pre, pr % ("a[%s]" % ix))
                    wr = "a := %s\n%sprintln(\"pre\")\na[%s] = %s\nprintln(\"post\")" % (m, pre, ix, v(new))
                    k = "%s n=%d i=%d %s" % (t, n, i, fname)
                    if ok:
                        yield Case("read " + k, d, rd, ["pre", pv(i), "post"])
                        yield Case("write " + k, d, wr + "".join("\n" + pr % ("a[%d]" % j) for j in range(n)), ["pre", "post"] + [pv(new if j == i else j) for j in range(n)])
                    else:
                        yield Case("read " + k, d, rd, ["pre"], "panic")
                        yield Case("write " + k, d, wr, ["pre"], "panic")


CTX = {
    # name: (declarations, body, value printed when the index is in range). A is the array [1, 8, 15..], I the index
    "param": ("fn f@(a: []int, i: int) int = a[i]\n", "println(f@(A, I))"),
    "param2": ("fn f@(x: int, a: []int, y: int, i: int) int {\nz := 3\nreturn a[i]\n}\n", "println(f@(1, A, 2, I))"),
    "field": ("struct h@ { x: int a: []int }\n", "h := H@(1, A)\nprintln(h.a[I])"),
    "fieldw": ("struct h@ { x: int a: []int }\n", "h := H@(1, A)\ni := I\nh.a[i] = h.a[i]\nprintln(h.a[i])"),
    "fieldwonly": ("struct h@ { x: int a: []int }\n", "h := H@(1, A)\ni := I\nh.a[i] = 5\nprintln((h.a[i] - 5) + h.x)", "1"),
    "call": ("", "println(A[I])"),
    "callw": ("fn g@(a: []int) []int = a\n", "a := A\ng@(a)[I] = 77\nprintln(a[I])", "77"),
    "nested": ("", "m := [[1], A]\nprintln(m[1][I])"),
    "nestedw": ("", "m := [[1], A]\nm[1][I] = 77\nprintln(m[1][I])", "77"),
    "nestedouter": ("", "m := A.length == 0 ? array(0, [1]) : [[1, 2], [3, 4]]\nb := array(A.length, [5])\nprintln(b[I][0])", "5"),
    "captured": ("", "a := A\nf := fn(i: int) int = a[i]\nprintln(f(I))"),
    "capturedw": ("", "a := A\nf := fn(i: int) { a[i] = 77 }\nf(I)\nprintln(a[I])", "77"),
    "capturedidx": ("", "a := A\ni := I\nf := fn() int = a[i]\nprintln(f())"),
    "enum": ("enum e@ { Ev@(a: []int, n: int) }\n", "match Ev@(A, I) {\ncase Ev@(a, n): println(a[n])\n}"),
    "generic": ("fn g@«T»(a: []T, i: int) T = a[i]\n", "println(g@(A, I))"),
    "genericw": ("", "println(A.setElement(I, 77).length)", "N"),
    "cond": ("", "a := A\nif a[I] == 99 { println(\"no\") } else { println(a[I]) }"),
    "whilecond": ("", "a := A\nwhile a[I] == 99 { println(\"no\") }\nprintln(a[I])"),
    "range": ("", "a := A\nfor k in 0 .. a[I] { }\nprintln(a[I])"),
    "right": ("", "a := A\nprintln((100 - (3 * a[I])) - 100)", "-3*"),
    "left": ("", "a := A\nprintln((a[I] * 3) - 5)", "3*-5"),
    "arg1": ("fn t@(a: int, b: int, c: int) int = ((a * 100) + (b * 10)) + c\n", "a := A\nprintln(t@(a[I], 0, 0) / 100)"),
    "arg3": ("fn t@(a: int, b: int, c: int) int = ((a * 100) + (b * 10)) + c\n", "a := A\nprintln(t@(0, 0, a[I]))"),
    "element": ("", "a := A\nb := [a[I], 2]\nprintln(b[0])"),
    "ternary": ("", "a := A\nprintln(true ? a[I] : 5)"),
    "ternary2": ("", "a := A\nprintln(false ? 5 : a[I])"),
    "return": ("fn f@(a: []int, i: int) int {\nif i == i {\nreturn a[i]\n}\nreturn 3\n}\n", "println(f@(A, I))"),
    "dot": ("", "a := A\nprintln(a[I].toString())"),
    "assignboth": ("", "a := A\ni := I\na[i] = a[i] + 1\nprintln(a[i] - 1)"),
    "loop": ("", "a := A\nfor q in 0 .. 2 { println(a[I]) }", "2x"),
    "lambda": ("", "f := fn(a: []int, i: int) int = a[i]\nprintln(f(A, I))"),
    "len": ("", "a := A\ni := I\nprintln(a[(i + a.length) - a.length])"),
    "filled": ("", "println(array(A.length, 4)[I])", "4"),
    "ints": ("", "println(intArray(A.length)[I] * 0)", "0"),
    "strs": ("", "println(stringArray(A.length, \"w\")[I])", "w"),
    "opts": ("", "println(array«int»(A.length)[I].isNone())", "true"),
}


def contexts(lens, wide):
    for name, spec in CTX.items():
        d, body = spec[0], spec[1]
        for n in lens:
            m, dd = mk("int", n)
            for i in idxs(n, wide):
                ok = 0 <= i < n
                v = i * 7 + 1
                exp = str(v) if len(spec) == 2 else {"N": str(n), "-3*": str(-3 * v), "3*-5": str(3 * v - 5)}.get(spec[2], spec[2])
                exp = [str(v), str(v)] if exp == "2x" else [exp]
                src = "println(\"pre\")\n" + re.sub(r"\bI\b", lambda _: lit(i), re.sub(r"\bA\b", lambda _: m, body))
                k = "ctx %s n=%d i=%d" % (name, n, i)
                if ok:
                    yield Case(k, MK + dd + d, src, ["pre"] + exp)
                else:
                    yield Case(k, MK + dd + d, src, ["pre"], "panic")


LOOPS = {
    # loop shapes giving the indexes visited; B is the upper bound
    "for": ("for i in 0 .. B {\nX\n}", lambda b: range(0, b)),
    "for 1": ("for i in 1 .. B {\nX\n}", lambda b: range(1, b)),
    "for neg": ("for i in z .. B {\nX\n}", lambda b: range(-1, b)),
    "for down": ("for i in z + B + 1 .. 0 {\nX\n}", None),
    "while": ("i := 0\nwhile i < B {\nX\ni = i + 1\n}", lambda b: range(0, b)),
    "while le": ("i := 0\nwhile i <= B {\nX\ni = i + 1\n}", lambda b: range(0, b + 1)),
    "while down": ("i := B\nwhile i > 0 {\ni = i - 1\nX\n}", lambda b: range(b - 1, -1, -1)),
    "while to neg": ("i := B\nwhile i >= 0 {\ni = i - 1\nX\n}", lambda b: range(b - 1, -2, -1)),
    "for stepped": ("for i in 0 .. B {\ni = i + 1\nX\n}", lambda b: range(1, b + 1, 2)),
    "for shifted": ("for i in 0 .. B {\nj := i + 1\nY\n}", lambda b: range(1, b + 1)),
    "for copied": ("for i in 0 .. B {\nj := i\nY\n}", lambda b: range(0, b)),
    "for nested": ("for k in 0 .. 1 {\nfor i in 0 .. B {\nX\n}\n}", lambda b: range(0, b)),
    "for twice": ("for i in 0 .. B {\n}\nfor i in 0 .. B + 1 {\nX\n}", lambda b: range(0, b + 1)),
    "for guarded": ("for i in 0 .. B {\nif i < B {\nX\n}\n}", lambda b: range(0, b)),
    "guard other": ("i := B\nif i <= s.length {\nX\n}", None),
    "for captured": ("for i in 0 .. B {\nf := fn() { X }\nf()\n}", lambda b: range(0, b)),
    "for array": ("for i in iota@(B) {\nX\n}", lambda b: range(0, b)),
    "for literal": ("for i in 0 .. N {\nX\n}", "N"),
}


def loops(lens):
    """indexes produced by loops over one container and used on another (or on a replaced, shorter one)"""
    d0 = "struct ha@ { a: []int n: int }\nfn iota@(n: int) []int {\na := intArray(n)\nfor i in 0 .. n { a[i] = i }\nreturn a\n}\n"
    bounds = {"length": ("l.length", 0), "length less": ("l.length - 1", -1), "length more": ("(l.length + 1)", 1), "field": ("h.a.length", 0), "var": ("m", 0), "own field": ("h.n", 0), "string": ("w.length", 0), "call": ("len@(l)", 0)}
    uses = {"read": ("println(s[%s])", lambda i: str(i * 7 + 1)), "write": ("s[%s] = 5\nprintln(s[%s])", lambda i: "5"), "field read": ("println(g.a[%s])", lambda i: str(i * 7 + 1)), "field write": ("g.a[%s] = 6\nprintln(6)", lambda i: "6"), "byte": ("println(t.byte(%s))", lambda i: str(97 + i)), "both": ("println((l[%s] * 0) + s[%s])", lambda i: str(i * 7 + 1))}
    for (ln, (ls, vis)), (bn, (be, off)), (un, (us, out)) in itertools.product(LOOPS.items(), bounds.items(), uses.items()):
        for n, m in itertools.product(lens, repeat=2):  # n: length of the container indexed, m: of the one looped over
            b = m + off
            if vis is None or vis == "N":
                if ln == "for down" and bn == "length":
                    idx = list(range(m, 0, -1)) if False else None
                if ln == "guard other":
                    idx = [b] if b <= n else []
                elif vis == "N":
                    if bn != "length":
                        continue
                    idx = list(range(0, m))
                else:
                    continue
            else:
                if b < 0 or (ln in ("for 1", ) and b < 1):
                    continue
                idx = list(vis(b))
            if un in ("both",) and (ln in ("for neg", "while le", "while to neg", "for stepped", "for shifted", "for twice") or off or ln == "guard other"):
                continue
            st, exp, mode = ls, [], "run"
            for i in idx:
                if not 0 <= i < n:
                    mode = "panic"
                    break
                exp += [out(i)]
            st = st.replace("X", us.replace("%s", "i")).replace("Y", us.replace("%s", "j"))
            st = re.sub(r"\bB\b", lambda _: be, st)
            st = re.sub(r"\bN\b", str(m), st)
            (e1, q1), (e2, q2) = mk("int", n), mk("int", m)
            body = "s := %s\nl := %s\nh := Ha@(l, %d)\ng := Ha@(s, %d)\nm := %d\nz := -1\nw := \"%s\"\nt := \"%s\"\nprintln(\"pre\")\n%s\nprintln(\"post\")\n" % (e1.replace("mk@", "mks@"), e2.replace("mk@", "mkl@"), m, n, m, "q" * m, "".join(chr(97 + k) for k in range(n)), st)
            dd = d0 + "fn len@(a: []int) int = a.length\n" + q1.replace("mk@", "mks@") + q2.replace("mk@", "mkl@")
            k = "loop %s|%s|%s n=%d m=%d" % (ln, bn, un, n, m)
            yield Case(k, dd, body, ["pre"] + exp + ["post"]) if mode == "run" else Case(k, dd, body, ["pre"] + exp, "panic")
    for un, (us, out) in uses.items():  # the container itself is replaced by a shorter one while it is looped over
        if un in ("field read", "field write", "byte"):
            continue
        for n, m in itertools.product(lens, repeat=2):
            for ln, ls in (("range", "for i in 0 .. k {\ns = mks@()\nX\n}"), ("while", "i := 0\nwhile i < k {\nX\ni = i + 1\nif i == 1 { s = mks@() }\n}"), ("captured", "f := fn(i: int) { X }\ns = mks@()\nfor i in 0 .. k { f(i) }")):
                exp, mode = [], "run"
                for i in range(m):
                    cur = {"range": n, "while": m if i == 0 else n, "captured": m}[ln]
                    if i >= cur:
                        mode = "panic"
                        break
                    exp += [out(i)]
                (e1, q1), (e2, q2) = mk("int", n), mk("int", m)
                body = "s := mkl@()\nl := s\nk := s.length\nprintln(\"pre\")\n%s\nprintln(\"post\")" % ls.replace("X", us.replace("%s", "i"))
                k = "replaced %s|%s n=%d m=%d" % (ln, un, n, m)
                dd = q1.replace("mk@", "mks@") + q2.replace("mk@", "mkl@")
                yield Case(k, dd, body, ["pre"] + exp + ["post"]) if mode == "run" else Case(k, dd, body, ["pre"] + exp, "panic")


V, I = lambda n: ("v", n), lambda n: ("i", n)
LT = lambda l, r: ("bin", "<", l, r)
LEN = lambda a: ("fld", V(a), "length")


def say(e):
    return ("e", ("call", V("println"), [e]))


def firsts(x, lhs):
    """statements which contain (and execute, or not) the access x"""
    w = ("=", V("v"), x)
    yield "none", []
    yield "read", [w]
    if lhs:
        yield "write", [("=", x, I(5))]
    for c in ("t", "f"):
        yield "tern1 " + c, [("=", V("v"), ("?", V(c), x, I(0)))]
        yield "tern2 " + c, [("=", V("v"), ("?", V(c), I(0), x))]
        yield "if " + c, [("if", [(V(c), [w])], None)]
        yield "else " + c, [("if", [(V(c), [say(I(1))])], [w])]
        yield "elseif cond " + c, [("if", [(V(c), [say(I(1))]), (LT(x, I(99)), [say(I(2))])], None)]
        yield "while " + c, [(":=", "g", V(c)), ("while", V("g"), [w, ("=", V("g"), ("b", False))])]
        yield "for " + c, [("forr", "q", I(0), ("?", V(c), I(1), I(0)), [w])]
        yield "forarr " + c, [("fora", "q", ("call", V("array"), [("?", V(c), I(1), I(0)), I(3)]), [w])]
        yield "match " + c, [("match", ("?", V(c), ("new", "Mx@", [I(3)]), ("new", "My@", [])), [("Mx@", ["k"], [w]), ("My@", [], [say(I(4))])])]
        yield "or " + c, [("=", V("v"), ("?", ("bin", "or", V(c), LT(x, I(3))), I(0), I(1)))]
        yield "lambda " + c, [(":=", "l", ("fne", [], "int", x)), ("if", [(V(c), [("=", V("v"), ("call", V("l"), []))])], None)]
        if lhs:
            yield "if write " + c, [("if", [(V(c), [("=", x, I(6))])], None)]
    yield "cond", [("if", [(LT(x, I(99)), [say(I(7))])], None)]
    yield "guard own", [("if", [(LT(V("i"), LEN("a")), [w])], None)]
    yield "guard other", [("if", [(LT(V("i"), LEN("b")), [w])], None)]
    yield "guard low", [("if", [(("bin", ">=", V("i"), I(0)), [say(I(8))])], None)]


def pairs(thorough):
    """two accesses with related operands, the first executed or not, with and without a change in between"""
    X = {"a[i]": ("idx", V("a"), V("i")), "b[i]": ("idx", V("b"), V("i")), "a[j]": ("idx", V("a"), V("j")), "h.a[i]": ("idx", ("fld", V("h"), "a"), V("i")), "a[i + 1]": ("idx", V("a"), ("bin", "+", V("i"), I(1)))}
    changes = {"none": [], "i more": [("=", V("i"), ("bin", "+", V("i"), I(2)))], "i less": [("=", V("i"), ("bin", "-", V("i"), I(2)))], "i = j": [("=", V("i"), V("j"))], "a shorter": [("=", V("a"), V("c"))], "a longer": [("=", V("a"), V("b"))],
               "field shorter": [("=", ("fld", V("h"), "a"), V("c"))], "other": [("=", V("v"), I(3))], "call": [("e", ("call", V("shrink@"), [V("h"), V("c")]))]}
    pre = [(":=", "a", ("arr", [I(1), I(8)])), (":=", "b", ("arr", [I(1), I(8), I(15), I(22)])), (":=", "c", ("arr", [I(40)])), (":=", "h", ("new", "Hp@", [I(3), V("a")])), (":=", "v", I(0)), (":=", "t", ("b", True)), (":=", "f", ("b", False))]
    d = "struct hp@ { n: int a: []int }\nenum mm@ { Mx@(k: int) My@() }\nfn shrink@(h: hp@, c: []int) { h.a = c }\n"

    def shrink(it, h, c):
        h.f["a"] = c

    def emit(key, stmts):
        it = Interp({"println": lambda it, v: it.out.append(str(v)), "array": lambda it, n, v: [v] * n, "shrink@": shrink}, {"Hp@": ["n", "a"]})
        try:
            it.run(pre + stmts, {None: None})
            return Case(key, d, blk(pre + stmts), it.out)
        except Panic:
            return Case(key, d, blk(pre + stmts), it.out, "panic")
    end = [say(V("v"))] + [say(("idx", V("b"), I(k))) for k in range(4)]
    for i in (0, 1, 2, 3, -1):
        setup = [(":=", "i", I(i)), (":=", "j", I(1)), say(I(100))]
        for fx, x in X.items():
            for fn, f in firsts(x, True):
                for cn, ch in changes.items():
                    for sx, y in X.items():
                        if not thorough and fx != sx and (fx, sx) not in (("a[i]", "b[i]"), ("b[i]", "a[i]"), ("a[j]", "a[i]"), ("h.a[i]", "a[i]"), ("a[i + 1]", "a[i]"), ("a[i]", "h.a[i]")):
                            continue
                        if not thorough and cn != "none" and fx != sx:
                            continue
                        for sn, sec in (("read", ("=", V("v"), y)), ("write", ("=", y, I(9)))):
                            yield emit("pair i=%d %s %s | %s | %s %s" % (i, fn, fx, cn, sn, sx), setup + f + ch + [say(I(101)), sec] + end)
        # within one statement
        for (fx, x), (sx, y) in itertools.product(X.items(), repeat=2):
            for c in ("t", "f"):
                rhs = {"tern1": ("?", V(c), x, I(5)), "tern2": ("?", V(c), I(5), x), "lambda": ("?", V(c), I(5), ("call", ("par", ("fne", [], "int", x)), []))}
                if c == "t":
                    rhs.update({"same": x, "sum": ("bin", "+", x, I(1)), "mk": ("call", ("v", "ap@"), [("fne", [], "int", x)]), "len": ("fld", ("arr", [x, x]), "length")})
                for rn, r in rhs.items():
                    if rn == "mk":
                        continue
                    yield emit("stmt i=%d %s = %s %s %s" % (i, sx, rn, c, fx), setup + [("=", y, r)] + end)
                    yield emit("stmt i=%d v = %s + %s %s %s" % (i, sx, rn, c, fx), setup + [("=", V("v"), ("bin", "+", y, r))] + end)
                    yield emit("stmt i=%d v = %s %s %s + %s" % (i, rn, c, fx, sx), setup + [("=", V("v"), ("bin", "+", r, y))] + end)
                    yield emit("stmt i=%d v = %s ? %s : %s %s" % (i, c, sx, rn, fx), setup + [("=", V("v"), ("?", V(c), y, r))] + end)
                    yield emit("stmt i=%d f(%s, %s %s %s)" % (i, sx, rn, c, fx), setup + [("=", V("v"), ("idx", ("arr", [y, r]), I(0)))] + end)


def raw(lens, wide):
    """strings and bytes"""
    for n in lens:
        s = "".join(chr(97 + k) for k in range(n))
        for i in idxs(n, wide):
            ok = 0 <= i < n
            for nm, e in (("lit", '"%s"' % s), ("dyn", '"".append("%s")' % s), ("sub", '"zz%szz".Substring(2, %d)' % (s, 2 + n)), ("buf", 'NewByteBuffer(%d).append("%s").toString()' % (max(1, n - 1), s))):
                for nt, acc in (("dot", "s.byte(%s)"), ("plain", "byte(s, %s)"), ("var", None), ("asfn", "f(s, %s)")):
                    if not wide and nm != "lit" and nt != "dot":
                        continue
                    x = acc % lit(i) if acc else "s.byte(i)"
                    pre = "i := %d\n" % i if not acc else ("f := fn(s: string, i: int) int = s.byte(i)\n" if nt == "asfn" else "")
                    src = "s := %s\n%sprintln(\"pre\")\nprintln(%s)\nprintln(\"post\")" % (e, pre, x)
                    k = "string %s %s n=%d i=%d" % (nm, nt, n, i)
                    yield Case(k, "", src, ["pre", str(97 + i), "post"]) if ok else Case(k, "", src, ["pre"], "panic")
            fill = "".join("b.set(%d, %d)\n" % (j, 50 + j) for j in range(n))
            for nm, holder in (("local", ("", "b")), ("field", ("struct hb@ { x: int b: bytes }\n", "h.b")), ("call", ("fn idb@(b: bytes) bytes = b\n", "idb@(b)"))):
                pre = "b := Bytes(%d)\n%s%sprintln(\"pre\")\n" % (n, fill, "h := Hb@(1, b)\n" if nm == "field" else "")
                for op in ("get", "set", "setvar"):
                    k = "bytes %s %s n=%d i=%d" % (nm, op, n, i)
                    if op == "get":
                        src = pre + "println(%s.get(%s))\nprintln(\"post\")" % (holder[1], lit(i))
                        exp = ["pre", str(50 + i), "post"]
                    else:
                        src = pre + ("%s.set(%s, 99)\n" % (holder[1], lit(i)) if op == "set" else "i := %d\n%s.set(i, 99)\n" % (i, holder[1])) + "".join("println(b.get(%d))\n" % j for j in range(n))
                        exp = ["pre"] + [str(99 if j == i else 50 + j) for j in range(n)]
                    yield Case(k, holder[0], src, exp) if ok else Case(k, holder[0], src, ["pre"], "panic")


# how the array variable P comes to be: (declarations, setup with BODY and L the first array)
HOLD = {
    "local": ("", "a := L\nBODY", "a"),
    "param": ("fn w@(a: []int, t: bool, z: int) {\nBODY\n}\n", "w@(L, t, z)", "a"),
    "lambda": ("", "w := fn(a: []int) {\nBODY\n}\nw(L)", "a"),
    "captured": ("", "a := L\nw := fn() {\nBODY\n}\nw()", "a"),
    "field": ("struct hh@ { q: int a: []int }\n", "h := Hh@(1, L)\nBODY", "h.a"),
    "element": ("", "m := [[5], L]\nBODY", "m[1]"),
    "loop": ("", "for a in [L] {\nBODY\n}", "a"),
    "payload": ("enum eh@ { Eh@(q: int, a: []int) }\n", "match Eh@(1, L) {\ncase Eh@(q, a):\nBODY\n}", "a"),
    "inner": ("", "a := [1, 2, 3, 4, 5]\nif t {\na := L\nBODY\n}", "a"),
}
UPD = {
    # statement replacing the array by V, and whether it takes effect
    "set": ("P = V", True), "if": ("if t { P = V }", True), "else": ("if not t { P = [7] } else { P = V }", True), "not taken": ("if not t { P = V }", False), "loop": ("for k in 0 .. 2 { P = V }", True), "no loop": ("for k in 0 .. z { P = V }", False),
    "while": ("g := t\nwhile g {\nP = V\ng = false\n}", True), "match": ("match Some(1) {\ncase Some(q1): P = V\ncase None(): P = [7]\n}", True), "ternary": ("P = t ? V : P", True), "kept": ("P = t ? P : V", False), "copy": ("b := V\nP = b", True), "alias": ("b := P\nb = V", False), "swap": ("b := P\nP = V\nb = P", True),
}
LENS = {1: "[11]", 2: "[21, 22]", 4: "[41, 42, 43, 44]"}
VALS = {1: [11], 2: [21, 22], 4: [41, 42, 43, 44]}
ACC = {"lit": "println(P[I])", "var": "i := I\nprintln(P[i])", "write": "P[I] = 99\nprintln(P[I])", "write var": "i := I\nP[i] = 99\nprintln(P[i])", "call": "println(P.elementAt(I))", "read twice": "println(P[0])\nprintln(P[I])"}


def history(thorough):
    """the length that counts is that of the array the variable holds now: every way of replacing it between declaration and access"""
    for hn, (d, outer, p) in HOLD.items():
        for n0 in LENS:
            seqs = [()] + [((u, n),) for u in UPD for n in LENS]
            if thorough or hn == "local":
                seqs += [((u, n), (u2, n2)) for u in UPD for n in LENS for u2 in (UPD if thorough else ("set", "if", "not taken", "alias")) for n2 in LENS]
            for seq in seqs:
                cur, body = n0, []
                for j, (u, n) in enumerate(seq):
                    src, eff = UPD[u]
                    body.append(re.sub(r"\bP\b", p, re.sub(r"\bV\b", LENS[n], src)).replace("b :=", "b%d :=" % j).replace("b =", "b%d =" % j).replace("= b\n", "= b%d\n" % j).replace("g", "g"))
                    if body[-1].endswith("= b"):
                        body[-1] += str(j)
                    body[-1] = re.sub(r"\bg\b", "g%d" % j, body[-1])
                    if eff:
                        cur = n
                for an, acc in ACC.items():
                    if an == "call" or (not thorough and len(seq) == 2 and an not in ("lit", "write var")):
                        continue
                    for i in (0, 1, 2, 3, 4) if thorough or len(seq) < 2 else (1, 3):
                        if not thorough and i in (2, 4) and cur != i:
                            continue
                        a = re.sub(r"\bP\b", p, re.sub(r"\bI\b", str(i), acc))
                        full = "\n".join(body + ['println("pre")', a])
                        dd = d.replace("BODY", full)
                        b = "t := 1 == 1\nz := 0\n" + re.sub(r"\bL\b", LENS[n0], outer).replace("BODY", full)
                        exp = ["pre"] + ([str(VALS[cur][0])] if an == "read twice" else [])
                        key = "history %s %d %s %s i=%d" % (hn, n0, seq, an, i)
                        if i < cur:
                            yield Case(key, dd, b, exp + ["99" if "write" in an else str(VALS[cur][i])], steps=len(seq) + 1)
                        else:
                            yield Case(key, dd, b, exp, "panic", steps=len(seq) + 1)


def ends():
    """indexes counted from the end of the array itself, of another one, or of nothing"""
    EL = {0: "array(0, 5)", 1: "[11]", 2: "[21, 22]", 4: "[41, 42, 43, 44]"}
    EV = dict(VALS)
    EV[0] = []
    FORM = {"P.length - K": lambda n, k: n - k, "P.length + K": lambda n, k: n + k, "P.length - 1 - K": lambda n, k: n - 1 - k, "P.length - (K + 1)": lambda n, k: n - k - 1, "(P.length - K)": lambda n, k: n - k, "-K + P.length": lambda n, k: n - k, "0 - K": lambda n, k: -k, "s.length - K": lambda n, k: 3 - k, "st.length - K": lambda n, k: 2 - k, "P.length * K": lambda n, k: n * k, "P.length & K": lambda n, k: n & k, "P.length >> K": lambda n, k: n >> k, "(t ? P.length : 0) - K": lambda n, k: n - k, "P.length - k": lambda n, k: n - k, "len - K": lambda n, k: n - k, "len - k": lambda n, k: n - k, "K & 3": lambda n, k: k & 3, "K | P.length": lambda n, k: k | n}
    for hn, (d, outer, p) in HOLD.items():
        for n in EL:
            for f, m in FORM.items():
                for k in (0, 1, 2, 3):
                    i = m(n, k)
                    e = re.sub(r"\bP\b", p, re.sub(r"\bK\b", str(k), f))
                    if k == 0 and f == "-K + P.length":
                        continue
                    for an, a in (("read", "println(P[I])"), ("write", "P[I] = 99\nprintln(P[I])"), ("arg", "println(ie@(P[I]))")):
                        full = "st := \"ab\"\ns := [7, 8, 9]\nlen := %s.length\nk := %d\nprintln(\"pre\")\n" % (p, k) + re.sub(r"\bI\b", lambda _: e, re.sub(r"\bP\b", p, a)) + "\nprintln(\"post\")"
                        dd = d.replace("BODY", full) + "fn ie@(n: int) int = n\n"
                        b = "t := 1 == 1\nz := 0\n" + re.sub(r"\bL\b", EL[n], outer).replace("BODY", full)
                        key = "end %s %d %s k=%d %s" % (hn, n, f, k, an)
                        if 0 <= i < n:
                            yield Case(key, dd, b, ["pre", "99" if an == "write" else str(EV[n][i]), "post"])
                        else:
                            yield Case(key, dd, b, ["pre"], "panic")


def lengths():
    """containers made with an impossible length never exist; with a possible one they have exactly that length"""
    for nm, e in (("array", "array(N, 5).length"), ("arrayopt", "array«int»(N).length"), ("intArray", "intArray(N).length"), ("stringArray", "stringArray(N, \"\").length"), ("Bytes", "Bytes(N).length()"), ("buffer", "NewByteBuffer(N).append(\"xyz\").toString().length")):
        for n in list(range(0, 20)) + [100, 1000]:
            yield Case("length %s %d" % (nm, n), "", "println(%s)" % re.sub(r"\bN\b", str(n), e), ["3" if nm == "buffer" else str(n)])
            yield Case("length %s var %d" % (nm, n), "", "n := %d\nprintln(%s)" % (n, re.sub(r"\bN\b", "n", e)), ["3" if nm == "buffer" else str(n)])
        for n in [-1, -2, -8, -16, -17, -24, -(1 << 31), -(1 << 32), -(1 << 60), -(1 << 61), -(1 << 62), (1 << 62) - 1, (1 << 62) - 2, (1 << 62) - 8, (1 << 62) - 16, 1 << 61, (1 << 61) - 1, 1 << 60, (1 << 60) + 1, (1 << 59) + 1, 1 << 58, 1 << 55, 1 << 50]:
            yield Case("length %s %d" % (nm, n), "", "println(\"pre\")\nprintln(%s)" % re.sub(r"\bN\b", lit(n), e), ["pre"], "panic")


def main():
    c = Check("C09", "model_checking",
              "model: a bounds automaton (length n, index i): the access succeeds with the element of the abstract sequence iff 0 <= i < n, otherwise the next state is 'panicked, exit 1' with no further effect. "
              "Every (length, index in a window around the bounds and at the extremes of the index range, access kind, element type, index form, context) is executed",
              ["programs run on an allocator that faults on any access outside a block"])
    c.extra = c.tc.shim("gcshim")
    lens = range(0, 6) if c.thorough else (0, 1, 2, 3)
    if c.thorough:
        c.run_cases("arrays", matrix(list(E), lens, True), batch=300)
    else:
        c.run_cases("arrays", matrix(list(E), lens, False), batch=300)
        c.run_cases("extreme indexes", matrix(["int"], (2,), True), batch=300)
    c.run_cases("contexts", contexts(lens if c.thorough else (0, 2), True), batch=300)
    c.run_cases("loops", loops(range(0, 5) if c.thorough else (0, 1, 3)), batch=300)
    c.run_cases("pairs", pairs(c.thorough), batch=300)
    c.run_cases("strings and bytes", raw(range(0, 6) if c.thorough else (0, 1, 4), True), batch=300)
    c.run_cases("history", history(c.thorough), batch=300)
    c.run_cases("ends", ends(), batch=300)
    c.run_cases("lengths", lengths(), batch=300)
    c.finish()
