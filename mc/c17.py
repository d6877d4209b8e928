"""C17: enum construction and match dispatch."""
import itertools
import places
import c18
from core import Case, Check

# payload type -> (value number k, statement printing variable, printed form)
V = {
    "int": (lambda k: str(k * 37 - 40), "println(%s)", lambda k: str(k * 37 - 40)),
    "bool": (lambda k: "true" if k % 2 else "false", "println(%s)", lambda k: "true" if k % 2 else "false"),
    "string": (lambda k: '"s%d"' % k, "println(%s)", lambda k: "s%d" % k),
    "[]int": (lambda k: "[%d, %d]" % (k, k + 7), "println(%s[1])", lambda k: str(k + 7)),
    "st@": (lambda k: "St@(%d, \"z\")" % k, "println(%s.a)", lambda k: str(k)),
    "option«int»": (lambda k: "Some(%d)" % k, "println(%s.orElse(-9))", lambda k: str(k)),
    "fn(int) int": (lambda k: "fn(z: int) int = z + %d" % k, "println(%s(1))", lambda k: str(k + 1)),
    "ot@": (lambda k: ("Oa@(%d)" % k) if k % 2 else "Ob@()", "println(ov@(%s))", lambda k: str(k) if k % 2 else "-1"),
    "[]string": (lambda k: "[\"t%d\"]" % k, "println(%s[0])", lambda k: "t%d" % k),
}
AUX = "struct st@ { a: int b: string }\nenum ot@ { Oa@(v: int) Ob@() }\nfn ov@(o: ot@) int {\nmatch o {\ncase Oa@(v): return v\ncase Ob@(): return -1\n}\n}\n"


def enum(types, name="en@", p="K"):
    return "enum %s { %s }\n" % (name, " ".join("%s%d@(%s)" % (p, i, ", ".join("a%d: %s" % (j, t) for j, t in enumerate(ts))) for i, ts in enumerate(types)))


def cases(types, order, p="K"):
    out = []
    for i in order:
        out.append("case %s%d@(%s):\nprintln(\"%s%d\")\n" % (p, i, ", ".join("v%d" % j for j in range(len(types[i]))), p, i))
        for j, t in enumerate(types[i]):
            out.append(V[t][1] % ("v%d" % j) + "\n")
    return "".join(out)


def build(types, i, base=0, p="K"):
    return "%s%d@(%s)" % (p, i, ", ".join(V[t][0](base + j) for j, t in enumerate(types[i])))


def shown(types, i, base=0, p="K"):
    return ["%s%d" % (p, i)] + [V[t][2](base + j) for j, t in enumerate(types[i])]


def program(key, types, order):
    n = len(types)
    d = AUX + enum(types) + "fn sh@(e: en@) {\nmatch e {\n%s}\n}\n" % cases(types, order)
    body = "".join("sh@(%s)\n" % build(types, i, i * 3 + 1) for i in range(n))
    exp = [x for i in range(n) for x in shown(types, i, i * 3 + 1)]
    return Case(key, d, body, exp)


def orders(n, full):
    if full or n <= 3:
        return list(itertools.permutations(range(n)))
    b = list(range(n))
    return [tuple(b), tuple(b[::-1])] + [tuple(b[k:] + b[:k]) for k in range(1, n)]


def arities(thorough):
    for n, alpha in ((1, range(6)), (2, range(6)), (3, (0, 1, 2, 5) if not thorough else range(6)), (4, (0, 1, 5) if not thorough else (0, 1, 2, 5)), (5, (0, 3) if not thorough else (0, 1, 5))):
        for vec in itertools.product(alpha, repeat=n):
            types = [["int"] * a for a in vec]
            for o in orders(n, n <= 4 and (thorough or n <= 3)):
                yield program("arity %s order %s" % (vec, o), types, o)


def payloads(thorough):
    names = list(V)
    for k in range(1, 6):
        for pos in range(k):
            for t in names:
                for other in ("int", "string"):
                    ts = [other] * k
                    ts[pos] = t
                    yield program("payload %d/%d %s among %s" % (pos, k, t, other), [["int"], ts, []], (2, 1, 0))
    for combo in itertools.product(names, repeat=2):
        yield program("payload pair %s" % (combo,), [list(combo), ["bool"]], (0, 1))
    for combo in itertools.product(names if thorough else names[:5], repeat=3):
        yield program("payload triple %s" % (combo,), [[], list(combo)], (1, 0))
    if thorough:
        for combo in itertools.product(names[:6], repeat=4):
            yield program("payload quad %s" % (combo,), [list(combo), []], (1, 0))
        for combo in itertools.product(names[:4], repeat=5):
            yield program("payload quint %s" % (combo,), [list(combo), ["string"]], (0, 1))


def many(thorough):
    for n in list(range(6, 34)) + [63, 64, 65, 127, 128, 129] + ([255, 256, 257, 300] if thorough else []):
        types = [["int"] * (i % 3) for i in range(n)]
        for nm, o in (("fwd", range(n)), ("rev", range(n - 1, -1, -1)), ("odd", [i for i in range(n) if i % 2] + [i for i in range(n) if not i % 2])):
            yield program("many %d %s" % (n, nm), types, list(o))


TY = [["int"], [], ["string", "int"]]
ENUM = AUX + enum(TY)
# ways to obtain the scrutinee: declarations, setup, expression
SRC = {
    "literal": ("", "", "%s"), "variable": ("", "e := %s\n", "e"), "call": ("fn mk@() en@ = %s\n", "", "mk@()"), "field": ("struct h@ { q: int e: en@ }\n", "h := H@(1, %s)\n", "h.e"), "element": ("", "a := [K1@(), %s]\n", "a[1]"),
    "closure": ("", "x := %s\nf := fn() en@ = x\n", "f()"), "ternary": ("", "c := 1\n", "(c == 1 ? %s : K1@())"), "generic": ("fn id@«T»(t: T) T = t\n", "", "id@(%s)"), "option": ("", "o := Some(%s)\n", "o.orElse(K1@())"), "reassigned": ("", "e := K1@()\ne = %s\n", "e"), "nested field": ("struct h@ { e: en@ }\nstruct hh@ { h: h@ }\n", "h := Hh@(H@(%s))\n", "h.h.e"), "list": ("", "l := toList([%s])\n", "l.find(fn(e: en@) bool = true).orElse(K1@())"),
}
# where the match stands: before, after
CTX = {
    "plain": ("", ""), "if": ("if true {\n", "}\n"), "else": ("if false {\n} else {\n", "}\n"), "while": ("w := 0\nwhile w < 1 {\nw = w + 1\n", "}\n"), "for": ("for w in 0 .. 1 {\n", "}\n"), "anon": ("g := fn() {\n", "}\ng()\n"), "match": ("match Some(3) {\ncase None(): println(\"bad\")\ncase Some(v0):\n", "}\n"), "last case": ("match None«int»() {\ncase Some(v0): println(\"bad\")\ncase None():\n", "}\n"), "outer names": ("v0 := 5\nv1 := 6\n", "println(v0 + v1)\n"), "after locals": ("la := 1\nlb := \"x\"\nlc := [1]\n", "println(la)\nprintln(lb)\nprintln(lc[0])\n"),
}
TAIL = {"outer names": ["11"], "after locals": ["1", "x", "1"]}


def contexts():
    for (sn, (sd, ss, se)), (cn, (ca, cb)) in itertools.product(SRC.items(), CTX.items()):
        for i in range(3):
            for o in itertools.permutations(range(3)):
                v = build(TY, i, 4)
                sub = lambda t: t.replace("%s", v)
                setup = sub(ss)
                if cn == "anon" or True:
                    body = ca + setup + "match %s {\n%s}\n" % (sub(se), cases(TY, o)) + cb
                yield Case("context %s in %s case %d order %s" % (sn, cn, i, o), ENUM + sub(sd), body, shown(TY, i, 4) + TAIL.get(cn, []))


def semantics():
    # the scrutinee is evaluated once
    for i in range(3):
        for o in itertools.permutations(range(3)):
            d = ENUM + "struct cnt@ { n: int }\nfn next@(c: cnt@) en@ {\nc.n = c.n + 1\nprintln(\"eval\")\nreturn %s\n}\n" % build(TY, i, 2)
            yield Case("evaluated once %d %s" % (i, o), d, "c := Cnt@(0)\nmatch next@(c) {\n%s}\nprintln(c.n)" % cases(TY, o), ["eval"] + shown(TY, i, 2) + ["1"])
    # matching does not change the value, payload variables are copies
    for i in range(3):
        yield Case("value unchanged %d" % i, ENUM + "fn sh@(e: en@) {\nmatch e {\n%s}\n}\n" % cases(TY, (2, 0, 1)),
                   "e := %s\nmatch e {\ncase K0@(x):\nx = 99\nprintln(x)\ncase K1@():\nprintln(0)\ncase K2@(s, x):\ns = \"w\"\nx = 98\nprintln(x)\n}\nsh@(e)\nsh@(e)" % build(TY, i, 2), [["99"], ["0"], ["98"]][i] + shown(TY, i, 2) * 2)
    # reassigning the scrutinee inside a case
    for i, j in itertools.product(range(3), repeat=2):
        yield Case("reassigned inside %d %d" % (i, j), ENUM + "fn sh@(e: en@) {\nmatch e {\n%s}\n}\n" % cases(TY, (1, 2, 0)),
                   "e := %s\nmatch e {\ncase K0@(x):\ne = %s\nprintln(x)\ncase K1@():\ne = %s\nprintln(0)\ncase K2@(s, x):\ne = %s\nprintln(s)\nprintln(x)\n}\nsh@(e)" % ((build(TY, i, 2),) + (build(TY, j, 5),) * 3), [[shown(TY, 0, 2)[1]], ["0"], shown(TY, 2, 2)[1:]][i] + shown(TY, j, 5))
    # sequences of matches over arrays of values: all sequences
    for seq in itertools.product(range(3), repeat=3):
        for form in ("for", "index", "rec"):
            d = ENUM + "fn sh@(e: en@) {\nmatch e {\n%s}\n}\nfn rec@(a: []en@, i: int) {\nif i < a.length {\nmatch a[i] {\n%s}\nrec@(a, i + 1)\n}\n}\n" % (cases(TY, (1, 0, 2)), cases(TY, (2, 1, 0)))
            arr = "[%s]" % ", ".join(build(TY, k, 3 * p) for p, k in enumerate(seq))
            b = {"for": "for e in %s {\nmatch e {\n%s}\n}" % (arr, cases(TY, (0, 2, 1))), "index": "a := %s\ni := 0\nwhile i < 3 {\nsh@(a[i])\ni = i + 1\n}" % arr, "rec": "rec@(%s, 0)" % arr}[form]
            yield Case("sequence %s %s" % (seq, form), d, b, [x for p, k in enumerate(seq) for x in shown(TY, k, 3 * p)])
    # matches in matches, with the same or other enums
    for i, j in itertools.product(range(3), repeat=2):
        d = ENUM + enum(TY, "fm@", "L")
        for o in ((0, 1, 2), (2, 1, 0), (1, 2, 0)):
            inner = "match f {\n%s}\n" % cases(TY, o, "L").replace("v0", "w0").replace("v1", "w1")
            outer = "".join("case K%d@(%s):\n%sprintln(\"K%d\")\n%s" % (k, ", ".join("v%d" % q for q in range(len(TY[k]))), inner, k, "".join(V[t][1] % ("v%d" % q) + "\n" for q, t in enumerate(TY[k]))) for k in o)
            yield Case("nested %d %d %s" % (i, j, o), d, "e := %s\nf := %s\nmatch e {\n%s}\n" % (build(TY, i, 1), build(TY, j, 6, "L"), outer), shown(TY, j, 6, "L") + shown(TY, i, 1))
            same = "match f {\n%s}\n" % cases(TY, o)
            outer = "".join("case K%d@(%s):\n%s" % (k, ", ".join("u%d" % q for q in range(len(TY[k]))), same) for k in o)
            yield Case("nested same %d %d %s" % (i, j, o), d, "e := %s\nf := %s\nmatch e {\n%s}\n" % (build(TY, i, 1), build(TY, j, 6), outer), shown(TY, j, 6))
    # results: return, assignment, closures over payloads
    for i in range(3):
        d = ENUM + "fn val@(e: en@) int {\nmatch e {\ncase K2@(s, n): return n + s.length\ncase K0@(n): return n * 2\ncase K1@(): return 7\n}\n}\nfn clo@(e: en@) fn() int {\nmatch e {\ncase K0@(n): return fn() int = n + 1\ncase K1@(): return fn() int = 8\ncase K2@(s, n): return fn() int = s.length + (n * 10)\n}\n}\nfn acc@(e: en@) int {\nr := 0\nmatch e {\ncase K1@(): r = 5\ncase K0@(n): r = n\ncase K2@(s, n):\nif n > 0 {\nr = n\n} else {\nr = s.length\n}\n}\nreturn r\n}\n"
        n = [1 * 37 - 40, 0, 2 * 37 - 40]
        v = build(TY, i, 1)
        yield Case("results %d" % i, d, "println(val@(%s))\nprintln(clo@(%s)())\nprintln(acc@(%s))\nk := clo@(%s)\nk()\nprintln(k() + k())" % (v, v, v, v),
                   [[str(n[0] * 2), str(n[0] + 1), str(n[0]), str(2 * (n[0] + 1))], ["7", "8", "5", "16"], [str(n[2] + 2), str(2 + n[2] * 10), str(n[2]), str(2 * (2 + n[2] * 10))]][i])
    # empty bodies and fall-through: nothing but the selected case runs
    for i in range(3):
        for empty in itertools.product((0, 1), repeat=3):
            b = "match %s {\n" % build(TY, i, 2)
            for k in range(3):
                b += "case K%d@(%s):%s\n" % (k, ", ".join("v%d" % q for q in range(len(TY[k]))), "" if empty[k] else " println(\"K%d\")" % k)
            yield Case("empty bodies %d %s" % (i, empty), ENUM, b + "}\nprintln(\"end\")", ([] if empty[i] else ["K%d" % i]) + ["end"])
    # recursive enums
    d = "enum tr@ { Le@() No@(l: tr@, k: int, r: tr@) }\nfn ins@(t: tr@, k: int) tr@ {\nmatch t {\ncase No@(l, v, r): return k < v ? No@(ins@(l, k), v, r) : No@(l, v, ins@(r, k))\ncase Le@(): return No@(Le@(), k, Le@())\n}\n}\nfn walk@(t: tr@) {\nmatch t {\ncase Le@():\ncase No@(l, k, r):\nwalk@(l)\nprintln(k)\nwalk@(r)\n}\n}\n"
    for perm in itertools.permutations(range(5)):
        yield Case("tree %s" % (perm,), d, "t := Le@()\n" + "".join("t = ins@(t, %d)\n" % k for k in perm) + "walk@(t)", [str(k) for k in range(5)])
    # generic enums
    for t in ("int", "string", "[]int", "bool", "option«int»"):
        val, pr, sh = V[t]
        d = "enum ge@«A, B» { Ga@(a: A) Gb@(b: B, n: int) Gc@() }\n"
        for i in range(3):
            for o in itertools.permutations(range(3)):
                cs = ["case Ga@(x):\nprintln(\"a\")\n" + pr % "x" + "\n", "case Gb@(y, n):\nprintln(y)\nprintln(n)\n", "case Gc@():\nprintln(\"c\")\n"]
                v = ["Ga@«%s, string»(%s)" % (t, val(3)), "Gb@«%s, string»(\"yy\", 12)" % t, "Gc@«%s, string»()" % t][i]
                yield Case("generic %s %d %s" % (t, i, o), d, "match %s {\n%s}" % (v, "".join(cs[k] for k in o)), [["a", sh(3)], ["yy", "12"], ["c"]][i])
    # the constructor as a function value
    yield Case("constructor value", ENUM, "f := K2@\nmatch f(\"q\", 4) {\n%s}" % cases(TY, (0, 1, 2)), ["K2", "q", "4"])
    yield Case("constructor argument", ENUM + "fn ap@(f: fn(int) en@) en@ = f(6)\n", "match ap@(K0@) {\n%s}" % cases(TY, (0, 1, 2)), ["K0", "6"])


def subjects():
    """subjects of every form whose evaluation has an effect, or whose storage the selected case replaces: evaluated once, before the cases"""
    d = ENUM + "struct cnt@ { n: int }\nstruct h@ { q: int e: en@ }\nstruct hh@ { h: h@ a: []en@ f: fn(int) en@ }\nfn nxt@(c: cnt@) int {\nc.n = c.n + 1\nreturn c.n - 1\n}\nfn arr@(c: cnt@, a: []en@) []en@ {\nc.n = c.n + 1\nreturn a\n}\nfn ho@(c: cnt@, e: en@) h@ {\nc.n = c.n + 1\nreturn H@(c.n, e)\n}\nfn id@(e: en@) en@ = e\nfn gid@«T»(e: T) T = e\n"
    subj = ["a[nxt@(c)]", "a[c.nxt@()]", "arr@(c, a)[0]", "c.arr@(a)[0]", "arr@(c, a)[c.n - 1]", "ho@(c, a[0]).e", "c.ho@(a[0]).e", "[ho@(c, a[0])][0].e", "[a[nxt@(c)]][0]", "g()", "g2(c)", "[g][0]()", "Hh@(ho@(c, a[0]), a, g3).h.e", "m[nxt@(c)][0]", "m[0][nxt@(c)]", "hs[nxt@(c)].e", "hs[c.nxt@()].e", "id@(a[nxt@(c)])", "a[nxt@(c)].id@()", "gid@(a[nxt@(c)])", "(nxt@(c) == 0 ? a[0] : a[1])", "(a[nxt@(c)])", "g3(nxt@(c))", "q.f(nxt@(c))", "[q][nxt@(c)].h.e", "Hh@(hs[nxt@(c)], a, g3).h.e", "Some(a[nxt@(c)]).orElse(a[1])", "fn() en@ = a[nxt@(c)]()"]
    for x in subj:
        for i in range(3):
            j = (i + 1) % 3
            pre = "c := Cnt@(0)\na := [%s, %s, %s]\nm := [a, a]\nhs := [H@(0, a[0]), H@(1, a[1])]\ng3 := fn(k: int) en@ = a[k]\nq := Hh@(hs[0], a, g3)\ng := fn() en@ = a[nxt@(c)]\ng2 := fn(c: cnt@) en@ = a[nxt@(c)]\n" % (build(TY, i, 2), build(TY, j, 5), build(TY, (i + 2) % 3, 7))
            src = "sj" if x.startswith("fn") else x
            pre2 = pre + ("sj := %s\n" % x[:-2] if x.startswith("fn") else "")
            src = src + "()" if x.startswith("fn") else src
            for o in itertools.permutations(range(3)):
                yield Case("subject %s %d %s" % (x, i, o), d, pre2 + "match %s {\n%s}\nprintln(c.n)" % (src, cases(TY, o)), shown(TY, i, 2) + ["1"])
    # the storage read by the subject is replaced as the first statement of the case
    for x, ass in (("a[0]", "a[0] = N"), ("h.e", "h.e = N"), ("e", "e = N"), ("hh.h.e", "hh.h.e = N"), ("hh.h.e", "hh.h = H@(1, N)"), ("hh.a[0]", "hh.a[0] = N"), ("hh.a[0]", "hh.a = [N]"), ("m[0][0]", "m[0] = [N]"), ("a[k]", "k = 1"), ("(b ? a[0] : a[1])", "b = false")):
        for i, j in itertools.product(range(3), repeat=2):
            n = build(TY, j, 6)
            cs = "".join("case K%d@(%s):\n%s\nprintln(\"K%d\")\n%s" % (k, ", ".join("v%d" % z for z in range(len(TY[k]))), ass.replace("N", n), k, "".join(V[t][1] % ("v%d" % z) + "\n" for z, t in enumerate(TY[k]))) for k in (1, 2, 0))
            yield Case("subject %s then %s %d %d" % (x, ass, i, j), d, "k := 0\nb := true\ne := %s\na := [e, %s]\nh := H@(0, e)\nm := [a]\nhh := Hh@(h, a, fn(k: int) en@ = e)\nmatch %s {\n%s}\nprintln(5)" % (build(TY, i, 2), n, x, cs), shown(TY, i, 2) + ["5"])


def bound(thorough):
    """payload variables read in every place a value can be read"""
    for t in places.TYPES:
        for n, pos in [(1, 0), (2, 1), (5, 4)] if t != "int" and not thorough else [(n, p) for n in range(1, 6) for p in range(n)]:
            for order in (0, 1):
                d, b = places.payload(t, n, pos, order)
                for pl in places.PLACES:
                    yield places.build(Case, "bound %d/%d %d" % (pos, n, order), t, pl, d, b)


def exhaustive(n, length, arity):
    """all sequences of case labels: accepted exactly when they are a permutation of the enum's cases"""
    d = "enum en@ { %s }\nenum fo@ { Fo@(%s) }\nstruct ss@ { a: int }\nfn fu@() int = 1\n" % (" ".join("K%d@(%s)" % (i, ", ".join("a%d: int" % j for j in range(arity))) for i in range(n)), ", ".join("a%d: int" % j for j in range(arity)))
    labels = ["K%d@" % i for i in range(n)] + ["Fo@"]
    vs = ", ".join("v%d" % j for j in range(arity))
    for l in range(1, length + 1):
        for seq in itertools.product(labels, repeat=l):
            body = "e := K0@(%s)\nmatch e {\n%s}" % (", ".join("1" for _ in range(arity)), "".join("case %s(%s):\n" % (s, vs) for s in seq))
            ok = sorted(seq) == labels[:n]
            yield Case("labels %d/%d %s" % (n, arity, seq), d, body, [], mode="accept" if ok else "treject")


def counts(thorough):
    """a match with any other number of cases than the enum has, or with one repeated, is rejected whatever the numbers are"""
    for n in (1, 2, 3, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300, 512, 513) + ((1024, 1025) if thorough else ()):
        d = "enum en@ { %s }\nfn mk@() en@ = K0@()\n" % " ".join("K%d@()" % i for i in range(n))
        m = lambda ls: "match mk@() {\n%s}" % "".join("case K%d@():\n" % i for i in ls)
        yield Case("all of %d" % n, d, m(range(n)), [], mode="accept")
        for k in sorted(set([0, 1, 2, 3, n // 2, n - 2, n - 1] + [n - (1 << b) for b in range(3, 10)])):
            if not 0 <= k < n:
                continue
            yield Case("first %d of %d" % (k, n), d, m(range(k)), [], mode="treject")
            yield Case("last %d of %d" % (k, n), d, m(range(n - k, n)), [], mode="treject")
            yield Case("all but number %d of %d" % (k, n), d, m([i for i in range(n) if i != k]), [], mode="treject")
            yield Case("number %d of %d twice" % (k, n), d, m(list(range(n)) + [k]), [], mode="treject")
            yield Case("number %d of %d for the last" % (k, n), d, m(list(range(n - 1)) + [k]), [], mode="treject" if k != n - 1 else "accept")
            yield Case("number %d of %d for the first" % (k, n), d, m([k] + list(range(1, n))), [], mode="treject" if k else "accept")


def rejects():
    for a in range(6):
        d = "enum en@ { Ka@(%s) Kb@() }\n" % ", ".join("a%d: int" % j for j in range(a))
        for b in range(8):
            body = "e := Kb@()\nmatch e {\ncase Ka@(%s):\ncase Kb@():\n}" % ", ".join("v%d" % j for j in range(b))
            yield Case("bound variables %d for %d" % (b, a), d, body, [], mode="accept" if a == b else "treject")
            body = "e := Ka@(%s)\n" % ", ".join("1" for j in range(b))
            yield Case("constructor arguments %d for %d" % (b, a), d, body, [], mode="accept" if a == b else "treject")
        if a > 1:
            yield Case("duplicate variable %d" % a, d, "match Kb@() {\ncase Ka@(%s):\ncase Kb@():\n}" % ", ".join("v" for j in range(a)), [], mode="treject")
    d = AUX + "enum en@ { Ka@(a: int) Kb@() }\nfn fu@() int = 1\n"
    good = "case Ka@(v):\ncase Kb@():\n"
    for v in ("1", "true", "\"s\"", "[Kb@()]", "St@(1, \"\")", "fn() en@ = Kb@()", "fu@", "Ka@", "Some(1)", "Some(Kb@())", "Oa@(1)", "zzz", "en@", "println(1)"):
        yield Case("scrutinee %s" % v, d, "match %s {\n%s}" % (v, good), [], mode="treject")
    for l in ("St@(v)", "St@(v, w)", "fu@()", "zzz()", "Some(v)", "println(v)", "en@()", "Ob@()", "ka@(v)", "Oa@(v)"):
        for pos in range(3):
            cs = ["case Ka@(v):\n", "case Kb@():\n"]
            cs.insert(pos, "case %s:\n" % l)
            yield Case("label %s at %d" % (l, pos), d, "match Kb@() {\n%s}" % "".join(cs), [], mode="treject")
            cs = ["case Ka@(v):\n"]
            cs.insert(min(pos, 1), "case %s:\n" % l)
            yield Case("label instead %s at %d" % (l, pos), d, "match Kb@() {\n%s}" % "".join(cs), [], mode="treject")
    for use, ok in (("match Ka@(1) {\ncase Ka@(v): println(v)\ncase Kb@(): println(v)\n}", 0), ("match Ka@(1) {\ncase Ka@(v): println(v)\ncase Kb@():\n}\nprintln(v)", 0), ("match Ka@(1) {\ncase Ka@(v): println(v.length)\ncase Kb@():\n}", 0), ("match Ka@(1) {\ncase Ka@(v): v = true\ncase Kb@():\n}", 0), ("match Ka@(1) {\ncase Ka@(v): v = 2\ncase Kb@():\n}", 1),
                    ("match Ka@(1) {\ncase Ka@(v): w := v\ncase Kb@(): w := true\n}", 1), ("match Ka@(1) {\ncase Ka@(v): w := v\ncase Kb@(): w = 1\n}", 0), ("match Ka@(1) {\ncase Ka@(v):\ncase Kb@():\n}\nmatch Ka@(1) {\ncase Ka@(v):\ncase Kb@():\n}", 1), ("v := true\nmatch Ka@(1) {\ncase Ka@(v): v = 3\ncase Kb@(): v = false\n}", 1), ("x := Ka@(true)", 0), ("x := Ka@(\"s\")", 0), ("x := Ka@(1)\nx = Kb@()", 1), ("x := Ka@(1)\nx = Oa@(1)", 0), ("x := Ka@(1)\ny := x.a", 0)):
        yield Case("scope " + use, d, use, [], mode="accept" if ok else "treject")
    # the wrong payload variable types at each position
    for k in range(1, 6):
        for pos in range(k):
            ts = ["int"] * k
            ts[pos] = "string"
            dd = "enum en@ { Ka@(%s) }\n" % ", ".join("a%d: %s" % (j, t) for j, t in enumerate(ts))
            vs = ", ".join("v%d" % j for j in range(k))
            for j in range(k):
                args = ", ".join("\"s\"" if t == "string" else "1" for t in ts)
                yield Case("payload type %d/%d used %d" % (pos, k, j), dd, "match Ka@(%s) {\ncase Ka@(%s): x := v%d + 1\n}" % (args, vs, j), [], mode="treject" if j == pos else "accept")
                bad = ["\"s\"" if t == "string" else "1" for t in ts]
                bad[j] = "1" if j == pos else "\"s\""
                yield Case("payload argument %d/%d bad %d" % (pos, k, j), dd, "x := Ka@(%s)" % ", ".join(bad), [], mode="treject")


def main():
    c = Check("C17", "model_checking",
              "model: a value is (constructor, payloads); match selects the case of the constructor. Explored: all arity vectors x all case orders x all constructors, every payload type at every position and all pairs and triples, up to 300 cases, scrutinee forms x contexts x orders, nested and repeated matches, all sequences of case labels up to a length (accepted exactly when a permutation of the cases), all binding counts, scopes and types")
    c.run_cases("arities", arities(c.thorough), batch=60)
    c.run_cases("payloads", payloads(c.thorough), batch=60)
    c.run_cases("many", many(c.thorough), batch=4)
    c.run_cases("contexts", contexts(), batch=100)
    c.run_cases("semantics", semantics(), batch=80)
    c.run_cases("subjects", subjects(), batch=100)
    c.run_cases("bound", bound(c.thorough), batch=100)
    for n in range(1, 4 if not c.thorough else 5):
        for a in (0, 1, 2):
            c.run_cases("labels", exhaustive(n, n + 1 if n < 3 or c.thorough else n + 1, a))
    c.run_cases("members", c18.members(c.thorough), batch=30)
    c.run_cases("counts", counts(c.thorough), batch=20)
    c.run_cases("rejects", rejects())
    c.finish()
