"""C15: meaning is independent of declaration order, names and unrelated declarations."""
import glob, itertools, os, re
import c07
from core import Case, Check, REPO, compile_src, done, run_bin
import grammar

# Programs as units (top-level declarations), a main body and the expected output. Identifiers that may be renamed are
# written name~kind: f function, v variable or parameter, s struct (constructor: Name~s), e enum, c enum case, d field, t type parameter
P = {
    "mixed": ([
        "struct pt~s { x~d: int y~d: string }\n",
        "enum sh~e { Ci~c(r~v: int) Sq~c(a~v: int, b~v: int) }\n",
        "fn area~f(s~v: sh~e) int {\nmatch s~v {\ncase Ci~c(q~v): return q~v * 3\ncase Sq~c(w~v, h~v): return w~v * h~v\n}\n}\n",
        "fn mk~f(n~v: int) pt~s = Pt~s(n~v + 1, \"p\")\n",
        "fn ident~f«A~t»(a~v: A~t) A~t = a~v\n",
        "fn use~f(p~v: pt~s) int {\nk~v := area~f(Sq~c(p~v.x~d, 2))\nf~v := fn(z~v: int) int = z~v + k~v\nreturn f~v(ident~f(p~v.x~d))\n}\n",
    ], "println(use~f(mk~f(4)))\nprintln(area~f(Ci~c(5)))\nprintln(mk~f(1).y~d)\nprintln(mk~f(6).use~f())\n", ["15", "15", "p", "21"]),
    "overloads": ([
        "struct bo~s { v~d: int }\n",
        "fn g~f(a~v: int) string = \"int\"\n",
        "fn g~f(a~v: string) string = \"string\"\n",
        "fn g~f(a~v: []int) string = \"array\"\n",
        "fn g~f(a~v: bo~s) string = \"box\".append(g~f(a~v.v~d))\n",
        "fn h~f(k~v: fn(int) string) string = k~v(1)\n",
    ], "println(g~f(1))\nprintln(g~f(\"\"))\nprintln(g~f([1]))\nprintln(g~f(Bo~s(1)))\nprintln(Bo~s(2).g~f())\nprintln(h~f(g~f))\n", ["int", "string", "array", "boxint", "boxint", "int"]),
    "recursive": ([
        "struct no~s { l~d: op~e r~d: op~e k~d: int }\n",
        "enum op~e { No~c() Ye~c(n~v: no~s) }\n".replace("No~c", "Nx~c"),
        "fn sum~f(o~v: op~e) int {\nmatch o~v {\ncase Nx~c(): return 0\ncase Ye~c(n~v): return n~v.k~d + sum~f(n~v.l~d) + both~f(n~v.r~d)\n}\n}\n",
        "fn both~f(o~v: op~e) int = sum~f(o~v)\n",
        "fn leaf~f(i~v: int) op~e = Ye~c(No~s(Nx~c(), Nx~c(), i~v))\n",
        "fn tree~f(d~v: int) op~e {\nif d~v == 0 {\nreturn Nx~c()\n}\nreturn Ye~c(No~s(tree~f(d~v - 1), leaf~f(d~v), d~v))\n}\n",
    ], "println(sum~f(tree~f(3)))\nprintln(both~f(leaf~f(9)))\n", ["12", "9"]),
    "generic": ([
        "struct bx~s«A~t» { v~d: A~t }\n",
        "enum ei~e«A~t, B~t» { Le~c(a~v: A~t) Ri~c(b~v: B~t) }\n",
        "fn wrap~f«A~t»(a~v: A~t) bx~s«A~t» = Bx~s(a~v)\n",
        "fn fold~f«A~t, B~t, C~t»(e~v: ei~e«A~t, B~t», f~v: fn(A~t) C~t, g~v: fn(B~t) C~t) C~t {\nmatch e~v {\ncase Le~c(a~v): return f~v(a~v)\ncase Ri~c(b~v): return g~v(b~v)\n}\n}\n",
        "fn len~f(s~v: string) int = s~v.length\n",
        "fn dbl~f(i~v: int) int = i~v * 2\n",
    ], "println(wrap~f(wrap~f(3)).v~d.v~d)\nprintln(fold~f(Le~c«int, string»(4), dbl~f, len~f))\nprintln(fold~f(Ri~c«int, string»(\"abc\"), dbl~f, len~f))\nprintln(wrap~f(\"q\").v~d)\n", ["3", "8", "3", "q"]),
    "stateful": ([
        "struct st~s { n~d: int a~d: []string }\n",
        "fn bump~f(s~v: st~s) int {\ns~v.n~d = s~v.n~d + 1\nreturn s~v.n~d\n}\n",
        "fn counter~f(s~v: st~s) fn() int {\nreturn fn() int = bump~f(s~v)\n}\n",
        "fn loop~f(k~v: fn() int, n~v: int) int {\nt~v := 0\nfor i~v in 0 .. n~v {\nt~v = t~v + k~v()\n}\nreturn t~v\n}\n",
        "fn show~f(s~v: st~s) {\nfor e~v in s~v.a~d {\nprintln(e~v)\n}\n}\n",
    ], "z~v := St~s(1, [\"u\", \"w\"])\nc~v := counter~f(z~v)\nprintln(loop~f(c~v, 3))\nz~v.a~d[0] = \"k\"\nshow~f(z~v)\nprintln(z~v.n~d)\n", ["9", "k", "w", "4"]),
    "later": ([
        "struct ho~s { b~d: bx~s«int» o~d: eo~e«string» f~d: fn(bx~s«string») int }\n",
        "struct bx~s«A~t» { v~d: A~t w~d: eo~e«A~t» }\n",
        "enum eo~e«A~t» { Nx~c() Ye~c(v~v: A~t, b~v: []bx~s«A~t») }\n",
        "fn mk~f«A~t»(a~v: A~t) bx~s«A~t» = Bx~s(a~v, Nx~c«A~t»())\n",
        "fn cnt~f«A~t»(e~v: eo~e«A~t») int {\nmatch e~v {\ncase Nx~c(): return 1\ncase Ye~c(v~v, b~v):\nn~v := 10\nfor x~v in b~v {\nn~v = n~v + cnt~f(x~v.w~d)\n}\nreturn n~v\n}\n}\n",
        "fn hold~f(i~v: int) ho~s = Ho~s(mk~f(i~v), Ye~c(\"s\", [mk~f(\"t\"), Bx~s(\"u\", Ye~c(\"w\", [mk~f(\"x\")]))]), fn(q~v: bx~s«string») int = cnt~f(q~v.w~d))\n",
    ], "h~v := hold~f(7)\nprintln(h~v.b~d.v~d)\nprintln(cnt~f(h~v.o~d))\nprintln(cnt~f(h~v.b~d.w~d))\ng~v := h~v.f~d\nprintln(g~v(mk~f(\"k\")))\n", ["7", "22", "1", "1"]),
    "values": ([
        "fn incr~f(i~v: int) int = i~v + 1\n",
        "fn tw~f(f~v: fn(int) int) fn(int) int = fn(i~v: int) int = f~v(f~v(i~v))\n",
        "struct ops~s { a~d: fn(int) int b~d: []fn(int) int }\n",
        "fn all~f(o~v: ops~s, i~v: int) int {\nr~v := i~v\nfor f~v in o~v.b~d {\nr~v = f~v(r~v)\n}\ng~v := o~v.a~d\nreturn g~v(r~v)\n}\n",
        "fn str~f(i~v: int) string = i~v > 9 ? \"big\" : small~f()\n",
        "fn small~f() string = \"small\"\n",
    ], "o~v := Ops~s(tw~f(incr~f), [incr~f, tw~f(tw~f(incr~f)), fn(z~v: int) int = z~v * 2])\nprintln(all~f(o~v, 3))\nprintln(str~f(all~f(o~v, 0)))\nprintln(str~f(1))\n", ["18", "big", "small"]),
}
TOK = re.compile(r"(\w+)~([fvsecdt])")


def plain(text, suffix="@"):
    """names with the case suffix on everything top-level"""
    return TOK.sub(lambda m: m.group(1) + (suffix if m.group(2) in "fsec" else ""), text)


def rename(text, old, kind, new):
    def sub(m):
        n, k = m.group(1), m.group(2)
        if k == kind:
            if n == old:
                return new
            if k == "s" and n == old[0].upper() + old[1:]:
                return new[0].upper() + new[1:]
        return n
    return TOK.sub(sub, text)


def orders(names, thorough):
    for n in names:
        units, body, exp = P[n]
        for perm in itertools.permutations(range(len(units))):
            yield Case("%s order %s" % (n, "".join(map(str, perm))), "".join(plain(units[i]) for i in perm), plain(body), exp)


class Whole:
    """whole programs: compiled one by one"""

    def __init__(self, c):
        self.c = c

    def one(self, it):
        key, src, exp = it
        comp = compile_src(self.c.tc, src)
        try:
            if comp.kind != "ok":
                return self.c.violation(key, "the compiler must accept this program: exit %s %s" % (comp.rc, comp.out[-800:]), src)
            rc, o, e = run_bin(comp)
        finally:
            done(comp)
        want = "".join(x + "\n" for x in exp)
        if rc != 0 or o.decode("utf-8", "replace") != want:
            return self.c.violation(key, "expected %r, got exit %s %r" % (want, rc, o), src)
        self.c.note(key.split("|")[0])
        self.c.count(key, len(exp), len(exp) + 1, {"key": key, "source": src[-300:], "expect": exp})


def library():
    """identifiers of the standard library by role"""
    ids, fns, types, cons = set(), set(), set(), set()
    for f in glob.glob(REPO + "/install/lib/*.clara"):
        t = open(f, encoding="utf-8").read()
        toks = [x[:2] for x in grammar.lex(t)]
        for i, (k, w) in enumerate(toks):
            if k == "id":
                ids.add(w)
                prev = toks[i - 1][0] if i else ""
                if prev == "fn":
                    fns.add(w)
                elif prev in ("struct", "enum"):
                    types.add(w)
                    cons.add(w[0].upper() + w[1:])
    for f in glob.glob(REPO + "/install/lib/*.clara"):
        t = open(f, encoding="utf-8").read()
        for m in re.finditer(r"enum\s+\w+(?:«[^»]*»)?\s*\{([^}]*)\}", t):
            cons |= set(re.findall(r"(\w+)\s*\(", m.group(1)))
    return ids, fns, types, cons


TYPENAMES = {"int", "bool", "string", "bytes", "nothing", "pointer"}
BUILTIN = TYPENAMES | {"debug", "printf", "unsafe", "main"}
ODD = ["T", "K", "S", "debug", "printf", "unsafe", "int", "string", "bytes", "main", "enum_", "rax", "eax", "rsp", "al", "st", "malloc", "memcpy", "strlen", "write", "errno", "environ", "stdout", "abs", "atoi", "labs", "array", "e", "f", "x1", "x_1", "_", "__", "_x", "éa", "世界", "ñandú", "inn", "fns", "iff", "trueish", "elsewhere", "matching", "cases", "typed", "returned", "notx", "andx", "a" * 200, "clara_main", "main_", "entry", "data", "text", "global", "ptr", "byte_", "quad", "qword", "offset", "lea", "mov", "jmp", "ret", "LC0", "if_end_0", "while_start_0", "else_1", "exit_2", "ioob", "gcmap", "tmp", "self", "this", "null", "length", "args", "env"]


def names(text):
    return set(m.groups() for m in TOK.finditer(text))


def renames(progs, cand, lib):
    ids, fns, types, cons = lib
    for n in progs:
        units, body, exp = P[n]
        text = "".join(units) + "fn main() {\n" + body + "}\n"
        used = {w for w, _ in names(text)} | {w for w, k in names(text) if k == "s" for w in (w[0].upper() + w[1:], w[0].lower() + w[1:])}
        called = {w for w in re.findall(r"\w+", TOK.sub("", text))}
        for old, kind in sorted(names(text)):
            if kind == "s" and old[0].isupper():
                continue
            for new in cand:
                if new in called or new in used or new in grammar.KEY:
                    continue
                if kind == "f" and (new in fns or new in cons or new in BUILTIN):
                    continue
                if kind == "s" and (not new[0].islower() or new in types or new in BUILTIN or new[0].upper() + new[1:] in fns | cons | called | used):
                    continue
                if kind == "e" and (new in types or new in cons or new in BUILTIN):
                    continue
                if kind == "c" and (new in fns or new in cons or new in BUILTIN or (new[0].lower() + new[1:]) in types):
                    continue
                if kind == "t" and (new in types or new in BUILTIN):
                    continue
                yield "rename|%s|%s~%s -> %s" % (n, old, kind, new), rename(text, old, kind, new), exp


LIBPROG = ("""fn main() {
println(toList([3, 1, 2]).append(4).map(fn(i: int) int = i * 2).reduce(0, fn(a: int, b: int) int = a + b))
m := NewHashMap«string, int»(fn(s: string) int = fnv1a(s), fn(a: string, b: string) bool = a.Equals(b))
for i in 0 .. 40 { m.put("k".append(i.toString()), i) }
println(m.size)
println(m.get("k17").orElse(-1))
println("hello".Substring(1, 3).append("é").length)
println("hello".IndexOf("lo"))
println(Some(3).map(fn(i: int) bool = i == 3).orElse(false))
b := NewByteBuffer(1)
b.append("abc").append("def")
println(b.toString())
println(mod(7, 3))
println([1, 2, 3].length)
x := fn() string = "c".append("d")
println(x())
gc()
println(getRuntime().args.length)
}
""", ["20", "40", "17", "4", "3", "true", "abcdef", "1", "3", "cd", "1"])


def unrelated(words, lib):
    """one unrelated declaration of each kind named as each word, next to a program using most of the library"""
    ids, fns, types, cons = lib
    src, exp = LIBPROG
    # library functions of one argument of any type also match the call
    any1 = {m.group(1) for f in glob.glob(REPO + "/install/lib/*.clara") for m in re.finditer(r"fn (\w+)«(\w+)»\(\w+: (\w+)\)", open(f, encoding="utf-8").read()) if m.group(2) == m.group(3)}
    for w in sorted(words):
        if w in grammar.KEY or w in ("main",):
            continue
        if w not in cons and w not in TYPENAMES and w not in any1:
            yield "unrelated|fn %s" % w, "struct unrel { q: int }\nfn %s(u: unrel) int {\nk := u.q\nf := fn(z: int) int = z + k\nfor i in 0 .. 2 {\nk = f(k)\n}\nmatch Some(k) {\ncase Some(s): return s\ncase None(): return 0\n}\n}\n" % w + src.replace("fn main() {\n", "fn main() {\nprintln(%s(Unrel(4)))\n" % w), ["12"] + exp
            if w not in fns:
                yield "unrelated|generic %s" % w, "fn %s«K»(u: K, w: K, r: [][]K) K = u\n" % w + src, exp
        if w[0].islower() and w not in types and w not in BUILTIN and w[0].upper() + w[1:] not in fns | cons:
            yield "unrelated|struct %s" % w, "struct %s { q: int }\n" % w + src, exp
            yield "unrelated|enum %s" % w, "enum %s { Unrela(q: int) Unrelb() }\n" % w + src, exp
        if w not in fns | cons | BUILTIN and w[0].lower() + w[1:] not in types:
            yield "unrelated|case %s" % w, "enum unrel { %s(q: int) }\n" % w + src, exp
        yield "unrelated|field %s" % w, "struct unrel { %s: int }\nfn unrelf(%s: unrel) int = %s.%s\n" % (w, w, w, w) + src, exp


USEALL = """struct us1 { a: int b: string c: []int }
enum ue1 { Ua(a: int, b: string) Ub() Uc(a: []int) }
struct ug«T» { t: T u: []T }
fn ukeep(e: ue1) string {
match e {
case Ub(): return "ub"
case Uc(a): return a.length.toString()
case Ua(a, b): return b.append(a.toString())
}
}
fn umain() {
a := [4, 5, 6]
a[1] = 50
b := ["x", "y".append("z")]
c := [[1], [2, 3]]
d := [Us1(1, "p", [7]), Us1(2, "q", a)]
d[0].a = 9
println(a[0] + a[1] + a[2])
println(b[0].append(b[1]))
println(c[1][1])
println(d[0].a + d[1].c[1])
println(ukeep(Ua(3, "s")).append(ukeep(Ub())).append(ukeep(Uc([1, 2]))))
f0 := fn() int = a.length
f3 := fn(x: int, y: string, z: int) int = x + y.length + z + a[0]
f5 := fn(v: int, w: int, x: int, y: int, z: int) int = v + (w * 2) + (x * 3) + (y * 4) + (z * 5) + f0()
println(f0())
println(f3(1, "ab", 3))
println(f5(1, 2, 3, 4, 5))
h := [f0, fn() int = 77]
println(h[1]() + h[0]())
g := Ug("t", ["u", "v"])
println(g.t.append(g.u[1]))
z := array(3, "w")
z[2] = "last"
println(z[0].append(z[2]))
for i in a { print(i) }
println("")
}
"""
USEEXP = ["60", "xyz", "3", "59", "s3ub2", "3", "10", "58", "80", "tv", "wlast", "4506"]


def overloads(words, lib):
    """the program's own overloads of each library function name, with every number of parameters, the first or the last of them of the program's own type"""
    ids, fns, types, cons = lib
    gen = {}
    for f in glob.glob(REPO + "/install/lib/*.clara"):
        for m in re.finditer(r"^fn (\w+)«([^»]*)»\((.*?)\)", open(f, encoding="utf-8").read(), re.M):
            tps = [x.strip() for x in m.group(2).split(",")]
            ps = [x.split(":", 1)[1].strip() for x in m.group(3).split(",") if ":" in x] if "fn(" not in m.group(3) else None
            if ps is not None:
                gen.setdefault(m.group(1), []).append((tps, ps))
    for w in sorted(words):
        if w in grammar.KEY or w in cons or w in BUILTIN:
            continue
        d, b, e = "struct unrel { q: int }\n", "", []
        for n in range(1, 7):
            for own in {0, n - 1}:
                ts = ["unrel" if i == own else "int" for i in range(n)]
                if any(len(ps) == n and all(p in tps or p == t for p, t in zip(ps, ts)) for tps, ps in gen.get(w, [])):
                    continue
                k = n * 10 + own
                d += "fn %s(%s) int {\nprintln(\"own\")\nreturn p%d.q + %d\n}\n" % (w, ", ".join("p%d: %s" % (i, t) for i, t in enumerate(ts)), own, k)
                b += "println(%s(%s))\n" % (w, ", ".join("Unrel(1)" if t == "unrel" else "2" for t in ts))
                e += ["own", str(k + 1)]
        src, exp = LIBPROG
        main = src.replace("fn main() {\n", "fn main() {\numain()\n%sumain()\n" % b)
        for nm, text in (("before", d + USEALL + main), ("after", USEALL + main + d)):
            yield "overloads|%s %s" % (nm, w), text, USEEXP + e + USEEXP + exp


def addition():
    """each corpus program next to each other one, before, after and interleaved, and with 1..n filler declarations"""
    for a, b in itertools.permutations(P, 2):
        ua, ba, ea = P[a]
        ub, bb, eb = P[b]
        A, B = [plain(u, "@a") for u in ua], [plain(u, "@b") for u in ub]
        for n, us in (("before", B + A), ("after", A + B), ("zip", [x for p in itertools.zip_longest(A, B) for x in p if x])):
            yield Case("%s with %s %s" % (a, b, n), "".join(us), plain(ba, "@a"), ea)
            yield Case("%s and %s %s" % (a, b, n), "".join(us) + "fn other@() {\n%s}\n" % plain(bb, "@b"), plain(ba, "@a") + "other@()", ea + eb)
    fill = ["struct u@_%d { q: int }\n", "enum u@_%d { U@_%d(q: int) V@_%d() }\n", "fn u@_%d(q: int) int = q\n", "fn u@_%d«K»(k: K) K = k\n", "fn u@_%d() fn() int {\nreturn fn() int = 3\n}\n", "struct u@_%d«K» { k: K }\n", "fn u@_%d() string = \"unrelated %d\"\n", "fn u@_%d() []string = [\"a\", \"b\"]\n"]
    for n in P:
        u, b, e = P[n]
        for i, f in enumerate(fill):
            for cnt in (1, 2, 5, 20):
                d = "".join(f.replace("%d", str(k)) for k in range(cnt))
                for pos in range(len(u) + 1):
                    yield Case("%s + %d x filler %d at %d" % (n, cnt, i, pos), "".join(plain(x) for x in u[:pos]) + d + "".join(plain(x) for x in u[pos:]), plain(b), e)


def files():
    """main in every place among the units; repeated compilation"""
    for n in P:
        units, body, exp = P[n]
        us = [plain(u, "") for u in units]
        m = "fn main() {\n%s}\n" % plain(body, "")
        for i in range(len(us) + 1):
            yield "main at|%s|%d" % (n, i), "".join(us[:i]) + m + "".join(us[i:]), exp
            yield "reversed main at|%s|%d" % (n, i), "".join(us[::-1][:i]) + m + "".join(us[::-1][i:]), exp
        for k in range(6):
            yield "repeat|%s|%d" % (n, k), "".join(us) + m, exp


def confusable():
    """functions, types and cases whose names are case variants, prefixes, suffixes or concatenations of one another: every
    one keeps its own meaning. All subsets of two (name, parameter list) declarations, and all of them in one program."""
    stems = ["get", "foo", "getfoo", "fooget", "get_foo", "getFoo", "Get", "GET", "foo_", "_foo", "Main", "MAIN", "main1", "main_", "maine", "gets", "ge", "getint", "getstring", "fooint", "int_", "getarray", "arrayfoo"]
    tys = {"foo": "Foo(1)", "getfoo": "Getfoo(2)", "foofoo": "Foofoo(3)", "f": "F(4)", "fooint": "Fooint(5)", "fOo": "FOo(6)", "foO": "FoO(7)", "foo_": "Foo_(8)", "f_oo": "F_oo(9)"}
    td = "".join("struct %s { a: int }\n" % t for t in tys)
    A = {"int": "1", "string": "\"s\"", "[]int": "[1]", "[]foo": "[Foo(1)]", "[]getfoo": "[Getfoo(1)]", "fn(foo) int": "fn(z: foo) int = 1", "fn() foo": "fn() foo = Foo(1)", "fn()": "fn() { }", "option«foo»": "Some(Foo(1))", "option«getfoo»": "Some(Getfoo(1))", "pair«foo, foo»": "Pair(Foo(1), Foo(2))", "fn(foo, foo)": "fn(z: foo, y: foo) { }"}
    A.update(tys)
    plists = [()] + [(a,) for a in A] + list(itertools.product(["int", "foo", "getfoo", "foofoo", "[]foo", "fOo", "foo_"], repeat=2)) + [("foo", "foo", "foo"), ("foo", "int", "foo"), ("int", "foofoo", "int")]
    decl = lambda n, ps, k: "fn %s(%s) int = %d\n" % (n, ", ".join("p%d: %s" % (i, p) for i, p in enumerate(ps)), k)
    call = lambda n, ps: "%s(%s)" % (n, ", ".join(A[p] for p in ps))
    items = [(n, ps) for n in stems for ps in plists if n not in ("foo", "getfoo", "f", "fooint") or True]
    for nm, it in (("forward", items), ("backward", items[::-1])):
        yield "confusable|all|%s" % nm, td + "".join(decl(n, ps, i) for i, (n, ps) in enumerate(it)) + "fn main() {\n" + "".join("println(%s)\n" % call(n, ps) for n, ps in it) + "}\n", [str(i) for i in range(len(it))]
    for n in stems:
        it = [(n, ps) for ps in plists]
        yield "confusable|name|%s" % n, td + "".join(decl(n, ps, i) for i, (n, ps) in enumerate(it)) + "fn main() {\n" + "".join("println(%s)\n" % call(n, ps) for n, ps in it) + "}\n", [str(i) for i in range(len(it))]
    for a, b in itertools.combinations([(n, ps) for n in ("get", "foo", "getfoo", "Main", "main") for ps in [(), ("foo",), ("getfoo",), ("foo", "foo"), ("foofoo",), ("int",), ("fOo",)] if (n, ps) != ("main", ())], 2):
        yield "confusable|two|%s%s %s%s" % (a[0], a[1], b[0], b[1]), td + decl(a[0], a[1], 1) + decl(b[0], b[1], 2) + "fn main() {\nprintln(%s)\nprintln(%s)\n}\n" % (call(*a), call(*b)), ["1", "2"]
    # a type and the type parameters of another function of the same name and shape
    for T in ("T", "A", "K", "S", "parameter", "p"):
        for par, gpar, arg in (("%s", "Q", "1"), ("[]%s", "[]Q", "[1]"), ("fn(%s) int", "fn(Q) int", "fn(i: int) int = 1"), ("option«%s»", "option«Q»", "Some(1)"), ("int, b: %s", "int, b: Q", "1, \"s\"")):
            d = ["enum %s { Ta() Tb(x: int) }\n" % T, "fn g(a: %s) int = 1\n" % (par % T), "fn g«Q»(a: %s) int = 2\n" % gpar]
            for o in itertools.permutations(d):
                yield "confusable|parameter|%s %s %s" % (T, par, "".join(str(d.index(x)) for x in o)), "".join(o) + "fn main() {\nprintln(g(%s))\n}\n" % arg, ["2"]
    # generic structs and enums used at types with confusable names; a struct and an enum case per stem
    low = [x for x in stems if x[0].islower() and x not in tys]
    d = "".join("struct %s«A, B» { a: A b: B }\n" % x for x in low) + "".join("enum e%d { C%s(v: int) D%s(v: string, w: int) }\n" % (i, x, x) for i, x in enumerate(stems))
    b, e = "", []
    for i, x in enumerate(low):
        X = x[0].upper() + x[1:]
        if X in stems or low.index(x) != i:
            continue
        for p, q in itertools.product(tys, repeat=2):
            b += "println(%s(%s, %s).a.a * 10 + %s(%s, %s).b.a)\n" % (X, tys[p], tys[q], X, tys[p], tys[q])
            e.append(str(int(tys[p][-2]) * 10 + int(tys[q][-2])))
    for x in stems:
        b += "match C%s(5) {\ncase C%s(v): println(v)\ncase D%s(v, w): println(v)\n}\nmatch D%s(\"q\", 5) {\ncase C%s(v): println(v)\ncase D%s(v, w): println(v)\n}\n" % ((x,) * 6)
        e += ["5", "q"]
    yield "confusable|types", td + d + "fn main() {\n%s}\n" % b, e


def lengths(thorough):
    """names of every length around the usual limits; pairs of names that differ in one place only"""
    prog = """struct A1 { F1: int F2: string }
struct B1«T» { F1: T }
enum E1 { C1(v: int) C2(v: int, w: string) C3() }
fn G1(P1: int, P2: int) int {
V1 := P1 + 1
V2 := P2 * 3
H1 := fn(P1: int) int = P1 + V1
H2 := fn(P2: int) int = (P2 * 2) + V2
for L1 in 0 .. 2 { V1 = V1 + L1 }
return H1(1) + H2(1) + V1 + V2
}
fn G2(P1: int, P2: int) int = P1 - P2
fn G1(P1: string) int = P1.length
fn G2(P1: string) int = P1.length * 2
fn G1(P1: AT) int = P1.F1
fn G2(P1: AT) int = P1.F1 * 100
fn G1(P1: BT«int») int = P1.F1
fn G2(P1: BT«int») int = P1.F1 * 7
fn G3«T»(P1: T) T = P1
fn G4«T»(P1: T, P2: T) T = P2
fn M1(P1: E1) int {
match P1 {
case C1(V1): return V1
case C2(V1, V2): return V1 + V2.length
case C3(): return -1
}
}
fn main() {
println(G1(4, 5))
println(G2(4, 5))
println(G1("abc"))
println(G2("abc"))
println(G1(AC(3, "x")))
println(G2(AC(3, "x")))
println(AC(3, "x").F2)
println(G1(BC(9)))
println(G2(BC(9)))
println(G3("t"))
println(G4(1, 2))
println(M1(C1(5)))
println(M1(C2(5, "xx")))
println(M1(C3()))
}
"""
    exp = [str(x) for x in (1 + 5 + 2 + 15 + 5 + 1 + 15, -1, 3, 6, 3, 300, "x", 9, 63, "t", 2, 5, 7, -1)]
    syms = ["A", "B", "E1", "C1", "C2", "C3", "G1", "G2", "G3", "G4", "F1", "F2", "P1", "P2", "V1", "V2", "H1", "H2", "L1", "M1"]
    for n in (8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 240, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513) + ((1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097) if thorough else (1025, 4097)):
        for where in ("first", "last", "middle", "after underscore"):
            # every name is n characters long and differs from all others in one character (or the last two)
            nm = {}
            for i, y in enumerate(syms):
                ch = "abcdefghijklmnopqrstuvwxyz"[i]
                pad = "q" * (n - 1)
                w = {"first": ch + pad, "last": pad + ch, "middle": pad[: n // 2] + ch + pad[n // 2:], "after underscore": "q_" + pad[2:] + ch}[where]
                nm[y] = w
            text = prog
            text = re.sub(r"\bA1\b|\bAT\b", nm["A"], text)
            text = re.sub(r"\bAC\b", nm["A"][0].upper() + nm["A"][1:], text)
            text = re.sub(r"\bB1\b|\bBT\b", nm["B"], text)
            text = re.sub(r"\bBC\b", nm["B"][0].upper() + nm["B"][1:], text)
            for y in syms[2:]:
                w = nm[y]
                if y in ("C1", "C2", "C3"):
                    w = w[0].upper() + w[1:]
                text = re.sub(r"\b%s\b" % y, w, text)
            yield "lengths|%d|%s" % (n, where), text, exp


# a variable N in scope, hidden by another one of the same name: declaration of the outer one around BODY
OUTER = {"local": "N := 100\nBODY\nprintln(N)\n", "parameter": None, "range": "for N in 100 .. 101 {\nBODY\nprintln(N)\n}\n", "array": "for N in [100] {\nBODY\nprintln(N)\n}\n", "payload": "match Some(100) {\ncase Some(N):\nBODY\nprintln(N)\ncase None():\n}\n", "anonymous": "ff := fn(N: int) {\nBODY\nprintln(N)\n}\nff(100)\n", "captured": "N := 100\nff := fn() {\nBODY\nprintln(N)\n}\nff()\nprintln(N)\n"}
INNER = {"range": ("for N in 0 .. 2 { println(N) }", ["0", "1"]), "down": ("for N in 2 .. 0 { println(N) }", ["1", "0"]), "array": ("for N in [5, 6] { println(N) }", ["5", "6"]), "strings": ('for N in ["p", "q"] { println(N) }', ["p", "q"]), "payload": ("match Some(7) {\ncase Some(N): println(N)\ncase None(): println(0)\n}", ["7"]), "string payload": ('match Some("r") {\ncase Some(N): println(N)\ncase None(): println(0)\n}', ["r"]),
         "if": ("if true {\nN := 8\nprintln(N)\n}", ["8"]), "if assigned": ("if true {\nN := 8\nN = N + 1\nprintln(N)\n}", ["9"]), "string": ('if true {\nN := "s"\nprintln(N)\n}', ["s"]), "while": ("go := 0\nwhile go < 2 {\nN := go * 3\ngo = go + 1\nN = N + 1\nprintln(N)\n}", ["1", "4"]), "else": ("if false { } else {\nN := 11\nprintln(N)\n}", ["11"]),
         "anonymous": ("gg := fn(N: int) int = N + 1\nprintln(gg(3))", ["4"]), "anonymous local": ("gg := fn() int {\nN := 21\nN = N + 1\nreturn N\n}\nprintln(gg())", ["22"]), "twice": ("for N in 0 .. 2 {\nif N == 1 {\nN := 40\nprintln(N)\n}\nprintln(N)\n}", ["0", "40", "1"])}


def shadows():
    """hiding a variable means the same whatever the name"""
    words = list("abcdefghijklmnopqrstuvwxyz") + ["_", "__", "é", "世", "ab", "x1", "i0", "_i", "abc", "idx", "tmp_", "N0", "A", "Z", "Q7", "value", "index"] + ["w" * n for n in (4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 64, 100)] + ["println2", "int1", "none", "some", "length", "gc", "array", "list", "self", "rax", "env", "args", "result", "k" * 255]
    for w in words:
        for on, o in OUTER.items():
            body, exp, fs = "", [], ""
            for i, (n_, (t, ex)) in enumerate(INNER.items()):
                t = re.sub(r"\b(gg|go)\b", lambda m: m.group(1) + "_%d" % i, t)
                if on == "parameter":
                    fs += "fn h%d@(N: int) {\n%s\nprintln(N)\n}\n" % (i, t)
                    body += "h%d@(100)\n" % i
                else:
                    fs += "fn h%d@() {\n%s}\n" % (i, o.replace("BODY", t))
                    body += "h%d@()\n" % i
                exp += ex + ["100"] * (2 if on == "captured" else 1)
            yield Case("shadows %s %s" % (w, on), re.sub(r"\bN\b", w, fs), body, exp)


TPN = """struct own@«A» { v: A }
struct pln@ { v: int }
enum oe@«A» { Oa@(v: A) Ob@() }
enum pe@ { Pa@(v: int) Pb@() }
fn mko@() oe@«int» = Oa@(5)
fn mkn@() oe@«own@«int»» = Oa@(Own@(6))
fn mkp@() pe@ = Pa@(7)
fn mks@() own@«string» = Own@("ab")
fn mkl@() pln@ = Pln@(8)
fn opt@() option«string» = Some("abc")
fn res@() result«int, string» = Ok«int, string»(4)
fn eit@() either«string, int» = Right«string, int»(2)
fn lst@() list«int» = [1, 2, 3].toList()
fn par@() pair«int, string» = Pair(1, "x")
fn map@() map«string, int» {
m := NewHashMap«string, int»(fnv1a, Equals)
m.put("k", 9)
return m
}
fn id@«A»(a: A) A = a
fn ap@«A, B»(a: A, f: fn(A) B) B = f(a)
"""
TPB = """y := x
a := [x, id@(y), ap@(x, fn(k: NN) NN = k)]
c := fn(k: NN) NN = k
println(show(c(a[0])))
println(show(c(a[2])))
match mko@() {
case Oa@(v): println(v + 1)
case Ob@(): println("no")
}
match mkn@() {
case Oa@(v): println(v.v + 1)
case Ob@(): println("no")
}
match mkp@() {
case Pa@(v): println(v)
case Pb@(): println("no")
}
match opt@() {
case Some(v): println(v.length)
case None(): println("no")
}
match Some(x) {
case Some(v): println(show(v))
case None(): println("no")
}
match Oa@(x) {
case Oa@(v): println(show(v))
case Ob@(): println("no")
}
match res@() {
case Ok(v): println(v)
case Err(v): println("no")
}
match eit@() {
case Left(v): println("no")
case Right(v): println(v)
}
println(mks@().v)
println(mkl@().v)
println(lst@().map(fn(i: INT) INT = i * 2).reduce(0, fn(i: INT, j: INT) INT = i + j))
println(par@().second)
println(map@().get("k").orElse(0))
println(Own@(x).v.show())
println(Pair(x, Own@(c)).second.v(x).show())
"""
TPE = ["5!", "5!", "6", "7", "7", "3", "5!", "5!", "4", "2", "ab", "8", "12", "x", "9", "5!", "5!"]


def tparams(words):
    """a type parameter may have any name, also that of a type, function or constructor the body only uses without naming it"""
    for w in words:
        if w in ("string", "T", "_") or w in grammar.KEY:
            continue
        if w in set(re.findall(r"[\w@]+", TPB)):
            continue  # the body itself uses this name
        body = TPB.replace("NN", w)
        if w == "int":
            body = body.replace("fn(i: INT) INT = i * 2", "dbl@").replace("fn(i: INT, j: INT) INT = i + j", "plus@")
        # x and show are parameters; their own uses of the name are the type parameter
        d = TPN + "fn dbl@(i: int) int = i * 2\nfn plus@(i: int, j: int) int = i + j\nfn s5@(i: int) string = i.toString().append(\"!\")\nfn g@«%s»(x: %s, show: fn(%s) string) {\n%s}\n" % (w, w, w, body.replace("INT", "int").replace(".v.show()", ".v.id@().ap@(show)").replace("v(x).show()", "v(x).ap@(show)"))
        yield Case("type parameter %s" % w, d, "g@(5, s5@)\ng@«int»(5, s5@)", TPE * 2)
        if w not in ("v", "w", "f"):  # names of the fields
            yield Case("type parameter of struct %s" % w, TPN + "struct sg@«%s» { v: %s w: []%s f: fn(%s) %s }\nfn tw@(i: int) int = i * 2\n" % ((w,) * 5), "s := Sg@(5, [6, 7], tw@)\nprintln(s.v + s.w[1] + s.f(4))\nt := Sg@(\"a\", [\"b\"], fn(q: string) string = q.append(\"z\"))\nprintln(t.f(t.w[0]).append(t.v))\nmatch opt@() {\ncase Some(v): println(v)\ncase None():\n}", ["20", "bza", "abc"])
        yield Case("type parameter of enum %s" % w, TPN + "enum eg@«%s» { Ega@(v: %s, w: []%s) Egb@(f: fn(%s) %s) }\nfn tw@(i: int) int = i * 2\nfn use@(e: eg@«int») int {\nmatch e {\ncase Ega@(v, w): return v + w[1]\ncase Egb@(f): return f(4)\n}\n}\n" % ((w,) * 5), "println(use@(Ega@(5, [6, 7])))\nprintln(use@(Egb@(tw@)))\nmatch Ega@(\"a\", [\"b\"]) {\ncase Ega@(v, w): println(v.append(w[0]))\ncase Egb@(f):\n}\nmatch opt@() {\ncase Some(v): println(v)\ncase None():\n}", ["12", "8", "ab", "abc"])


def main():
    c = Check("C15", "model_checking",
              "model: one output per program, invariant under the symmetries. Explored: all permutations of the top-level declarations of each corpus program, each renameable identifier x each candidate name (library identifiers, registers, C symbols, keyword-like, non-ASCII, long), unrelated declarations of every kind under every library identifier next to a program using the whole library, all pairs of corpus programs merged, filler declarations at every place, main at every place, repeated compilation",
              ["candidate names exclude those that capture a name the program itself uses"])
    c.run_cases("orders", orders(P, c.thorough), batch=60)
    c.run_cases("shadows", shadows(), batch=10)
    c.run_cases("addition", addition(), batch=60)
    c.run_cases("unconstructed", c07.unconstructed(2), batch=1 if c.thorough else 20)
    lib = library()
    c.run_cases("tparams", tparams(sorted(lib[2] | lib[3] | TYPENAMES) + ["own@", "pln@", "oe@", "pe@", "Oa@", "Own@", "mko@", "id@", "A", "B", "v"] + ODD), batch=4)
    w = Whole(c)
    ids = sorted(lib[0])
    rt = ["setElement", "arrayNoInit", "asEnum", "claralloc", "entrypoint", "indexOutOfBounds", "invokeDynamic", "gc", "panic", "enum_", "isClosure", "exit", "toString", "println"]
    parts = [overloads(sorted(lib[1] | set(rt)) + (ODD if c.thorough else []), lib), files(), lengths(c.thorough), confusable(), renames(["mixed"], ODD, lib), renames([n for n in P if n != "mixed"], ODD if c.thorough else ["rax", "malloc", "array", "_", "éa", "a" * 200, "length", "LC0"], lib),
             unrelated(ids + ODD + ["debug", "printf", "unsafe"], lib) if c.thorough else ((k, s, e) for i, (k, s, e) in enumerate(unrelated(ids + ["debug", "printf", "unsafe"], lib)) if k.startswith(("unrelated|fn", "unrelated|struct"))), renames(["mixed"], rt, lib)]
    if c.thorough:
        parts.append(renames(list(P), ids, lib))
    c.map(w.one, itertools.chain(*parts))
    c.finish()
