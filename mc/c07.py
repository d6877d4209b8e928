"""C07: no reachable object is ever reclaimed. Programs run on an allocator that makes any access to reclaimed memory fatal."""
import itertools, re
from core import Case, Check

D = """struct in@ { s: string n: int }
struct no@ { v: in@ a: []string k: int }
struct fh@ { g: fn(int) int tag: int }
enum en@ { Ea@() Eb@(s: string, n: int, i: in@) }
struct cell@ { v: int nx: option«cell@» }
fn dyn@(n: int) string = "dyn".append(n.toString())
fn ch@(n: int) int {
x := [dyn@(n), dyn@(n + 1)]
y := No@(In@("p".append("q"), n), x, 3)
z := fn() int = x[1].length + y.k
w := z()
gc()
return n
}
fn cs@(s: string) string {
ch@(1)
return s
}
fn cb@(b: bool) bool {
ch@(2)
return b
}
fn tri@«T»(a: T, n: int, b: T) T {
ch@(n)
return n > 0 ? a : b
}
fn gid@«T»(t: T) T = t
fn churn@«T»(t: T) T {
ch@(4)
return t
}
fn sumof@(a: []string) int {
n := 0
for s in a { n = n + s.length }
return n
}
"""
# type name -> (type, fresh object expression for number N, check function body on o giving an int, value as function of N (0..9))
T = {
    "string": ("string", "dyn@(N)", "return (o.length * 1000) + o.byte(3)", lambda n: 4000 + 48 + n),
    "bytes": ("bytes", "mkb@(N)", "return (o.length() * 100) + o.get(2)", lambda n: 500 + n),
    "ints": ("[]int", "[N, N + 1, N + 2]", "return (o.length * 100) + (o[0] * 10) + o[2]", lambda n: 300 + n * 10 + n + 2),
    "strs": ("[]string", "[dyn@(N), \"lit\", dyn@(N + 1)]", "return (o[0].byte(3) * 1000) + (o[1].length * 100) + o[2].byte(3)", lambda n: (48 + n) * 1000 + 300 + (ord(str(n + 1)[0]))),
    "struct": ("in@", "In@(dyn@(N), N)", "return (o.s.byte(3) * 100) + o.n", lambda n: (48 + n) * 100 + n),
    "deep": ("no@", "No@(In@(dyn@(N), N), [dyn@(N), dyn@(3)], N)", "return (o.v.s.byte(3) * 1000) + (o.a[1].byte(3) * 10) + o.k + o.a.length", lambda n: (48 + n) * 1000 + 510 + n + 2),
    "closure": ("fn(int) int", "mkc@(N)", "return o(5)", lambda n: 5 + n + 4 + 48 + n),
    "nestclosure": ("fn(int) int", "mkn@(N)", "return o(7)", lambda n: 7 + n + 4 + 48 + n),
    "enum": ("en@", "Eb@(dyn@(N), N, In@(dyn@(2), N))", "match o {\ncase Ea@(): return -1\ncase Eb@(s, n, i):\nch@(3)\nreturn (s.byte(3) * 1000) + (n * 100) + i.s.byte(3)\n}", lambda n: (48 + n) * 1000 + n * 100 + 50),
    "option": ("option«in@»", "Some(In@(dyn@(N), N))", "match o {\ncase None(): return -1\ncase Some(i):\nch@(3)\nreturn (i.s.byte(3) * 100) + i.n\n}", lambda n: (48 + n) * 100 + n),
    "list": ("list«string»", "[dyn@(N), dyn@(1)].toList()", "n := [0]\no.foreach(fn(s: string) { n[0] = (n[0] * 100) + s.byte(3) })\nreturn n[0]", lambda n: (48 + n) * 100 + 49),
    "map": ("map«string, string»", "mkm@(N)", "return (o.orElse(\"a\".append(\"\"), \"????\").byte(3) * 100) + o.size", lambda n: (48 + n) * 100 + 2),
    "matrix": ("[][]string", "[[dyn@(N)], [\"q\", dyn@(N)]]", "return (o[1][1].byte(3) * 100) + o[0].length + o[1].length", lambda n: (48 + n) * 100 + 3),
    "fns": ("[]fn(int) int", "[mkc@(N), mkc@(N + 1)]", "return (o[0](5) * 1000) + o[1](5)", None),
    "fnholder": ("fh@", "Fh@(mkc@(N), N)", "return (o.g(1) * 10) + o.tag", lambda n: (1 + n + 4 + 48 + n) * 10 + n),
    "cycle": ("cell@", "mky@(N)", "return (o.v * 100) + o.nx.orElse(o).v + o.nx.orElse(o).nx.orElse(Cell@(50, None«cell@»())).v", lambda n: n * 100 + n + 1 + n),
    "pair": ("pair«string, []string»", "Pair(dyn@(N), [dyn@(N), dyn@(2)])", "return (o.first.byte(3) * 1000) + (o.second[0].byte(3) * 10) + o.second.length", lambda n: (48 + n) * 1010 + 2),
    "buffer": ("byteBuffer", "mkbb@(N)", "return (o.toString().byte(3) * 100) + o.size", lambda n: (48 + n) * 100 + 34),
}
MK = """fn mkb@(n: int) bytes {
b := Bytes(5)
b.set(2, n)
return b
}
fn mkc@(n: int) fn(int) int {
s := dyn@(n)
return fn(q: int) int {
ch@(1)
return q + n + s.length + s.byte(3)
}
}
fn mkn@(n: int) fn(int) int {
s := dyn@(n)
f := fn() fn(int) int {
t := s
return fn(q: int) int {
ch@(1)
return q + n + t.length + s.byte(3)
}
}
return f()
}
fn mkm@(n: int) map«string, string» {
m := NewHashMap«string, string»(fnv1a, Equals)
m.put("a".append(""), dyn@(n))
m.put(dyn@(1), dyn@(2))
return m
}
fn mky@(n: int) cell@ {
a := Cell@(n, None«cell@»())
b := Cell@(n + 1, Some(a))
a.nx = Some(b)
return a
}
fn mkbb@(n: int) byteBuffer {
b := NewByteBuffer(0)
for i in 0 .. 8 { b.append("dyn").append(n) }
b.append(dyn@(n))
return b
}
"""
MK = MK.replace('b.append("dyn").append(n) }', 'b.append(dyn@(n)) }').replace("0 .. 8", "0 .. 7")


def num(s, n):
    return re.sub(r"\bN\b", n, s)


def val(t, n):
    f = T[t][3]
    if t == "fns":
        g = lambda n: 5 + n + len("dyn" + str(n)) + ord(str(n)[0])
        return g(n) * 1000 + g(n + 1)
    if t == "buffer":
        return (48 + n) * 100 + 4 * 8
    return f(n)


def decl(t):
    ty, mk, body, _ = T[t]
    return D + MK + "fn k@(o: %s) int {\n%s\n}\nfn mk@(n: int) %s = %s\n" % (ty, body, ty, num(mk, "n"))


# Holding positions. TY type, M(n) fresh object, K(e) check. Each prints checks; expected list of N values in order.
def positions(t):
    ty = T[t][0]
    M = lambda n: "(%s)" % num(T[t][1], str(n)) if T[t][1].startswith("[") else num(T[t][1], str(n))
    P = lambda e: "println(k@(%s))\n" % e
    yield "local", "", "x := %s\nch@(1)\n%sch@(2)\n%s" % (M(1), P("x"), P("x")), [1, 1]
    yield "two locals", "", "x := %s\ny := %s\nch@(1)\n%s%s" % (M(1), M(2), P("x"), P("y")), [1, 2]
    yield "reassigned", "", "x := %s\nx = %s\nch@(1)\n%s" % (M(1), M(2), P("x")), [2]
    yield "swap", "", "x := %s\ny := %s\nz := x\nx = y\ny = z\nch@(1)\n%s%s%s" % (M(1), M(2), P("x"), P("y"), P("z")), [1 + 1, 1, 1]
    yield "loop var decl", "", "for i in 1 .. 4 {\nx := mk@(i)\nch@(1)\n%s}" % P("x"), [1, 2, 3]
    yield "while decl", "", "i := 0\nwhile i < 3 {\ni = i + 1\nx := mk@(i)\nif i == 2 {\ny := mk@(7)\nch@(1)\n%s}\n%s}" % (P("y"), P("x")), [1, 7, 2, 3]
    yield "outer in loop", "", "x := %s\nfor i in 0 .. 3 {\ny := mk@(i)\nch@(1)\nx = y\n%s}\n%s" % (M(9), P("x"), P("x")), [0, 1, 2, 2]
    yield "param", "fn f@(o: %s) int {\nch@(1)\nr := k@(o)\nch@(2)\nreturn r + (k@(o) - k@(o))\n}\n" % ty, "println(f@(%s))\n" % M(3), [3]
    yield "param reassigned", "fn f@(o: %s) int {\no = mk@(4)\nch@(1)\nreturn k@(o)\n}\n" % ty, "x := %s\nprintln(f@(x))\n%s" % (M(3), P("x")), [4, 3]
    for n in (2, 3, 4, 5, 6):
        ps = ", ".join("p%d: %s" % (i, ty) for i in range(n))
        pr = "".join("println(k@(p%d))\n" % i for i in range(n))
        d = "fn f@(%s) {\nch@(1)\n%s}\n" % (ps, pr)
        yield "args%d" % n, d, "f@(%s)" % ", ".join("mk@(ch@(%d))" % (i + 1) for i in range(n)), list(range(1, n + 1))
        if t not in ("closure", "nestclosure"):
            yield "dot args%d" % n, d, "%s.f@(%s)" % ("mk@(1)", ", ".join("mk@(ch@(%d))" % (i + 1) for i in range(1, n))), list(range(1, n + 1))
        if n <= 5:
            yield "dyn args%d" % n, d, "g := f@\ng(%s)" % ", ".join("mk@(ch@(%d))" % (i + 1) for i in range(n)), list(range(1, n + 1))
            yield "clo args%d" % n, "", "z := mk@(8)\ng := fn(%s) {\nch@(1)\n%sprintln(k@(z))\n}\nz = mk@(9)\ng(%s)" % (ps, pr, ", ".join("mk@(ch@(%d))" % (i + 1) for i in range(n))), list(range(1, n + 1)) + [8]
            yield "fld args%d" % n, d + "struct h@ { g: fn(%s) nothing q: int }\n" % ", ".join([ty] * n), "Hx@(f@, ch@(1)).g(%s)".replace("Hx@", "H@") % ", ".join("mk@(ch@(%d))" % (i + 1) for i in range(n)), list(range(1, n + 1))
            yield "payload%d" % n, "enum pe@ { Pn@(z: int) Pe@(%s) }\n" % ps, "match Pe@(%s) {\ncase Pn@(z): println(z)\ncase Pe@(%s):\nch@(1)\n%s}" % (", ".join("mk@(ch@(%d))" % (i + 1) for i in range(n)), ", ".join("p%d" % i for i in range(n)), pr), list(range(1, n + 1))
        yield "fields%d" % n, "struct ps@ { %s }\n" % " ".join("p%d: %s" % (i, ty) for i in range(n)), "x := Ps@(%s)\nch@(1)\n%s" % (", ".join("mk@(ch@(%d))" % (i + 1) for i in range(n)), "".join(P("x.p%d" % i) for i in range(n))), list(range(1, n + 1))
        yield "field assign%d" % n, "struct ps@ { %s }\n" % " ".join("p%d: %s" % (i, ty) for i in range(n)), "x := Ps@(%s)\n%s%s" % (", ".join("mk@(0)" for i in range(n)), "".join("x.p%d = mk@(ch@(%d))\n" % (i, i + 1) for i in range(n)), "".join(P("x.p%d" % i) for i in range(n))), list(range(1, n + 1))
        yield "elems%d" % n, "", "x := [%s]\nch@(1)\n%s" % (", ".join("mk@(ch@(%d))" % (i + 1) for i in range(n)), "".join(P("x[%d]" % i) for i in range(n))), list(range(1, n + 1))
        yield "elem assign%d" % n, "", "x := array(%d, mk@(0))\n%s%s" % (n, "".join("x[ch@(%d)] = mk@(ch@(%d))\n" % (i, i + 1) for i in range(n)), "".join(P("x[%d]" % i) for i in range(n))), list(range(1, n + 1))
        yield "captures%d" % n, "", "%sg := fn() {\nch@(1)\n%s}\n%sch@(1)\ng()" % ("".join("p%d := mk@(%d)\n" % (i, i + 1) for i in range(n)), pr, "".join("p%d = mk@(0)\n" % i for i in range(n))), list(range(1, n + 1))
    yield "return", "fn f@() %s {\nch@(1)\nreturn %s\n}\n" % (ty, M(5)), "x := f@()\nch@(1)\n" + P("x"), [5]
    yield "direct use", "", P(M(6)), [6]
    yield "churned", "", P("churn@(%s)" % M(6)), [6]
    yield "generic", "", P("tri@(%s, 1, %s)" % (M(1), M(2))) + P("tri@(%s, 0 - 1, %s)" % (M(1), M(2))), [1, 2]
    yield "ternary", "", "b := cb@(true)\n" + P("b ? %s : %s" % (M(1), M(2))) + P("cb@(false) ? %s : %s" % (M(1), M(2))) + "x := cb@(b) ? churn@(%s) : mk@(3)\nch@(2)\n" % M(4) + P("x"), [1, 2, 4]
    yield "index base", "", P("[%s, %s][ch@(1)]" % (M(1), M(2))) + "x := [%s, %s]\n" % (M(3), M(4)) + P("x[ch@(1)]") + P("[%s, %s].churn@()[ch@(0)]" % (M(5), M(6))), [2, 4, 5]
    yield "field base", "struct fb@ { o: %s n: int }\n" % ty, P("Fb@(%s, ch@(1)).o" % M(1)) + P("Fb@(%s, ch@(1)).churn@().o" % M(2)) + "x := Fb@(%s, 2).o\nch@(1)\n" % M(3) + P("x"), [1, 2, 3]
    yield "assign target", "struct fb@ { o: %s n: int }\nfn g@(b: fb@) fb@ {\nch@(1)\nreturn b\n}\n" % ty, "b := Fb@(%s, 1)\ng@(b).o = %s\n" % (M(1), M(2)) + P("b.o") + "a := [%s]\na.churn@()[ch@(0)] = %s\n" % (M(3), M(4)) + P("a[0]") + "Fb@(%s, 1).churn@().o = churn@(%s)\n" % (M(1), M(2)) + P("b.o"), [2, 4, 2]
    yield "for array", "", "for x in [%s, %s, %s] {\nch@(1)\n%s}" % (M(1), M(2), M(3), P("x")), [1, 2, 3]
    yield "for array call", "fn f@() []%s = [%s, %s]\n" % (ty, M(1), M(2)), "for x in f@() {\nch@(1)\ny := mk@(8)\n%s%s}" % (P("x"), P("y")), [1, 8, 2, 8]
    yield "for array replaced", "", "a := [%s, %s]\nfor x in a {\na = [mk@(7)]\nch@(1)\n%s}\n%s" % (M(1), M(2), P("x"), P("a[0]")), [1, 2, 7]
    yield "for elem replaced", "", "a := [%s, %s]\nfor x in a {\na[0] = mk@(7)\nch@(1)\n%s}" % (M(1), M(2), P("x")), [1, 2]
    yield "for element assigned", "", "for x in [%s, %s] {\nx = mk@(5)\nch@(1)\n%s}" % (M(1), M(2), P("x")), [5, 5]
    yield "match subject", "enum ms@ { Ma@(o: %s) Mb@() }\n" % ty, "match Ma@(%s) {\ncase Ma@(o):\nch@(1)\n%sq := mk@(3)\nch@(2)\n%s%scase Mb@(): println(0)\n}" % (M(2), P("o"), P("q"), P("o")), [2, 3, 2]
    yield "match payload assigned", "enum ms@ { Ma@(o: %s) Mb@() }\n" % ty, "m := Ma@(%s)\nmatch m {\ncase Ma@(o):\no = mk@(4)\nch@(1)\n%scase Mb@(): println(0)\n}" % (M(2), P("o")), [4]
    yield "captured", "", "x := %s\nf := fn() int {\nch@(1)\nreturn k@(x)\n}\nx = %s\nch@(1)\nprintln(f())\nprintln(f())\n%s" % (M(1), M(2), P("x")), [1, 1, 2]
    yield "captured assigned", "", "x := %s\nf := fn() int {\nx = mk@(3)\nch@(1)\nreturn k@(x)\n}\nprintln(f())\nch@(1)\nprintln(f())\n%s" % (M(1), P("x")), [3, 3, 1]
    yield "captured state", "", "x := %s\ni := 3\nf := fn() int {\nr := k@(x)\nx = mk@(i)\ni = i + 1\nch@(1)\nreturn r\n}\nprintln(f())\nch@(1)\nprintln(f())\nch@(1)\nprintln(f())" % M(1), [1, 3, 4]
    yield "captured depth", "", "x := %s\nf := fn() fn() int {\ny := mk@(2)\nreturn fn() int {\nch@(1)\nreturn k@(x) + (k@(y) - k@(y))\n}\n}\ng := f()\nch@(1)\nprintln(g())" % M(1), [1]
    yield "closure arg", "fn ap@(f: fn(%s) int, o: %s) int {\nch@(1)\nreturn f(o)\n}\n" % (ty, ty), "y := mk@(2)\nprintln(ap@(fn(o: %s) int {\nch@(1)\nreturn k@(o) + (k@(y) - k@(y))\n}, %s))" % (ty, M(5)), [5]
    yield "some", "", "x := Some(%s)\nch@(1)\nprintln(x.map(k@).orElse(0))\n" % M(1) + P("x.orElse(mk@(2))") + P("None«%s»().orElse(%s)" % (ty, M(3))), [1, 1, 3]
    yield "list", "", "l := [%s, %s].toList().append(%s)\nch@(1)\nl.map(k@).foreach(println)\nl.reverse().foreach(fn(o: %s) {\nch@(1)\nprintln(k@(o))\n})" % (M(1), M(2), M(3), ty), [3, 1, 2, 2, 1, 3]
    yield "map value", "", "m := NewHashMap«string, %s»(fnv1a, Equals)\nfor i in 0 .. 3 { m.put(dyn@(i), mk@(i)) }\nch@(1)\nfor i in 0 .. 3 {\n%s}\nm.put(dyn@(1), mk@(7))\nm.remove(dyn@(0))\nch@(1)\n%sprintln(m.size)" % (ty, P("m.get(dyn@(i)).orElse(mk@(9))"), P("m.get(dyn@(1)).orElse(mk@(9))")), [0, 1, 2, 7, "2"]
    yield "bytes beside", "", "b := Bytes(3)\nx := %s\nb.set(0, 5)\nch@(1)\n%sprintln(b.get(0))" % (M(1), P("x")), [1, "5"]
    yield "recursion", "fn f@(n: int) int {\no := mk@(n)\nif n == 0 { return 0 }\nr := f@(n - 1)\nch@(1)\nprintln(k@(o))\nreturn r\n}\n", "f@(4)", [1, 2, 3, 4]
    yield "recursion arg", "fn f@(n: int, o: %s, q: %s) {\nif n == 0 { return }\nf@(n - 1, mk@(ch@(n)), o)\nch@(1)\nprintln(k@(o))\nprintln(k@(q))\n}\n" % (ty, ty), "f@(3, mk@(7), mk@(8))", [2, 3, 3, 7, 7, 8]
    yield "branches", "fn f@(n: int) %s {\nif n == 0 {\na := mk@(1)\nch@(1)\nreturn a\n} elseif n == 1 {\nb := mk@(2)\nc := mk@(3)\nch@(1)\nreturn b\n} else {\nd := 5\ne := mk@(4)\nch@(d)\nreturn e\n}\n}\n" % ty, P("f@(0)") + P("f@(1)") + P("f@(2)"), [1, 2, 4]
    yield "mixed slots", "", "i := 1024\nx := mk@(1)\nj := 4096\ny := mk@(2)\nb := true\nl := 2147483648\nch@(1)\n%s%sprintln(i + j)\nprintln(l)" % (P("x"), P("y")), [1, 2, "5120", "2147483648"]
    yield "int like pointer", "struct ip@ { n: int o: %s m: int }\n" % ty, "x := Ip@(8192, mk@(1), 4611686018427387896)\ny := [16777216, 4096]\nch@(1)\n%sprintln(x.n + y[0])\nprintln(x.m)" % P("x.o"), [1, str(8192 + 16777216), "4611686018427387896"]
    yield "explicit gc", "", "x := %s\ngc()\ngc()\n%sgc()\n%s" % (M(1), P("x"), P("x")), [1, 1]
    yield "pending comparison", "", "x := %s\nprintln(k@(x) == k@(churn@(x)))\nprintln(k@(%s) + ch@(0) + (k@(%s) - k@(x)))" % (M(1), M(2), M(1)), ["true", 2]
    yield "after scopes", "", "if true {\nx := mk@(1)\nch@(1)\n%s}\nif true {\ni := 123456\ny := mk@(2)\nch@(1)\n%sprintln(i)\n}\nfor i in 0 .. 2 {\nz := mk@(3)\nch@(1)\n%s}" % (P("x"), P("y"), P("z")), [1, 2, "123456", 3, 3]
    yield "declared after alloc in scope", "", "for i in 0 .. 3 {\nch@(1)\nif i == 1 {\nch@(1)\nx := mk@(i)\nch@(1)\n%s}\ny := ch@(5)\nz := mk@(i)\n%s}" % (P("x"), P("z")), [0, 1, 1, 2]


def matrix(types):
    for t in types:
        d = decl(t)
        for name, dd, body, exp in positions(t):
            yield Case("%s / %s" % (t, name), d + dd, body, [str(val(t, e)) if isinstance(e, int) else e for e in exp])


def generic(types):
    """the holding positions once more where the type of the object is a type parameter"""
    T["$"] = ("T", "mk@(N)", "", None)
    ps = [p for p in positions("$")]
    del T["$"]
    for name, dd, body, exp in ps:
        if re.search(r"\bfn \w+@?\(", dd) or name in ("captures5", "captures6"):
            continue  # helper functions of their own; more captures than there may be
        dd = re.sub(r"(struct|enum) (\w+@) {", r"\1 \2«T» {", dd)
        fn = re.sub(r"\bk@", "kk", re.sub(r"\bmk@", "mk", body))
        for t in types:
            yield Case("generic %s / %s" % (t, name), decl(t) + dd + "fn body@«T»(mk: fn(int) T, kk: fn(T) int) {\n%s\n}\n" % fn, "body@(mk@, k@)", [str(val(t, e)) if isinstance(e, int) else e for e in exp])
    for t in types:
        ty = T[t][0]
        for n in (1, 2, 3, 4):
            for i in range(n):
                cap = ["n%d" % j for j in range(n)]
                cap[i] = "t"
                ps = ", ".join("n%d: %s" % (j, ("int", "U")[j & 1]) if j != i else "t: T" for j in range(n))
                us = "U, " if any(j & 1 and j != i for j in range(n)) else ""
                for kind, pre, use in (("param", "", "t"), ("local", "l := t\n", "l"), ("array", "l := [t]\n", "l[0]"), ("option", "l := Some(t)\n", "l.orElse(t)"), ("both", "l := t\nt = l\n", "l"), ("deep", "h := fn() T = t\n", "h()")):
                    sink = "".join("x%d := n%d\n" % (j, j) for j in range(n) if j != i)
                    d = "fn keep@«%sT»(%s) fn() T {\n%sreturn fn() T {\n%sch@(1)\nreturn %s\n}\n}\n" % (us, ps, pre, sink, use)
                    args = lambda v: ", ".join(("%d" % j if j & 1 == 0 else "dyn@(%d)" % j) if j != i else v for j in range(n))
                    yield Case("generic captured %s / %s %d of %d" % (t, kind, i, n), decl(t) + d, "f := keep@(%s)\ng := keep@(%s)\nch@(1)\nprintln(k@(f()))\nch@(2)\nprintln(k@(g()))\nprintln(k@(f()))" % (args("mk@(1)"), args("mk@(2)")), [str(val(t, e)) for e in (1, 2, 1)])


# ---------------------------------------------------------------- histories over a mutable heap graph
GD = """struct cell@ { v: int l: option«cell@» r: option«cell@» }
fn none@() option«cell@» = None«cell@»()
fn new@(v: int) cell@ = Cell@(v, none@(), none@())
fn walk@(o: option«cell@», d: int) int {
match o {
case None(): return 1
case Some(c): return d == 0 ? c.v : c.v + (walk@(c.l, d - 1) * 7) + (walk@(c.r, d - 1) * 13)
}
}
fn dump@(w: []cell@) {
gc()
for c in w { print(walk@(Some(c), 4)) print(" ") }
println("")
}
"""


class Cell:
    __slots__ = ("v", "l", "r")

    def __init__(self, v, l=None, r=None):
        self.v, self.l, self.r = v, l, r


def walk(c, d):
    from lang import wrap
    if c is None:
        return 1
    return c.v if d == 0 else wrap(c.v + walk(c.l, d - 1) * 7 + walk(c.r, d - 1) * 13)


def graph_ops():
    O = []
    for i in range(2):
        j = 1 - i
        O.append(("w[%d] = new@(K)" % i, lambda w, k, i=i: w.__setitem__(i, Cell(k))))
        O.append(("w[%d].l = Some(w[%d])" % (i, j), lambda w, k, i=i, j=j: setattr(w[i], "l", w[j])))
        O.append(("w[%d].r = Some(w[%d])" % (i, i), lambda w, k, i=i: setattr(w[i], "r", w[i])))
        O.append(("w[%d] = w[%d].l.orElse(w[%d])" % (i, i, j), lambda w, k, i=i, j=j: w.__setitem__(i, w[i].l or w[j])))
        O.append(("w[%d].l = none@()" % i, lambda w, k, i=i: setattr(w[i], "l", None)))
        O.append(("w[%d] = Cell@(K, Some(w[%d]), w[%d].l)" % (i, i, j), lambda w, k, i=i, j=j: w.__setitem__(i, Cell(k, w[i], w[j].l))))
    O.append(("x := w[0]\nw[0] = w[1]\nw[1] = x", lambda w, k: w.reverse()))
    return O


def graphs(length):
    O = graph_ops()
    for h in itertools.product(range(len(O)), repeat=length):
        w = [Cell(1), Cell(2)]
        src = "w := [new@(1), new@(2)]\n"
        exp = []
        for j, i in enumerate(h):
            s, f = O[i]
            f(w, 10 * (j + 1))
            src += "if true {\n%s\n}\n" % s.replace("K", str(10 * (j + 1)))
            if j == length - 1:
                src += "dump@(w)\n"
                exp.append("".join("%d " % walk(c, 4) for c in w))
        yield Case("graph " + " ".join(str(i) for i in h), GD, src, exp, steps=length, states=length + 1)


def shapes():
    """objects, frames and environments of every arrangement of pointers and plain values; held, collected, then read"""
    F = lambda b, i: "fr@(%d)" % (i + 1) if b else str(i + 1)
    Ty = lambda b: "string" if b else "int"
    use = lambda e, b: "println(%s)\n" % e
    V = lambda b, i: "fresh%d" % (i + 1) if b else str(i + 1)
    d0 = D + "fn fr@(n: int) string = \"fresh\".append(n.toString())\n"
    for n in range(1, 7):
        for m in range(1 << n):
            bits = [m >> i & 1 for i in range(n)]
            ex = [V(b, i) for i, b in enumerate(bits)]
            nm = "".join("ip"[b] for b in bits)
            vals = ", ".join(F(b, i) for i, b in enumerate(bits))
            st = "struct sh@ { %s }\nfn mk@() sh@ = Sh@(%s)\n" % (" ".join("f%d: %s" % (i, Ty(b)) for i, b in enumerate(bits)), vals)
            yield Case("shape struct " + nm, d0 + st, "x := mk@()\nch@(1)\ny := mk@()\nch@(2)\n%s%s" % ("".join(use("x.f%d" % i, b) for i, b in enumerate(bits)), "".join(use("y.f%d" % i, b) for i, b in enumerate(bits))), ex * 2)
            ts = ["T%d" % i for i in range(n)]
            gs = "struct sh@«%s» { %s }\nfn mk@() sh@«%s» = Sh@(%s)\n" % (", ".join(ts), " ".join("f%d: T%d" % (i, i) for i in range(n)), ", ".join(Ty(b) for b in bits), vals)
            yield Case("shape generic struct " + nm, d0 + gs, "x := mk@()\nch@(1)\n%s" % "".join(use("x.f%d" % i, b) for i, b in enumerate(bits)), ex)
            body = "".join(use("p%d" % i, b) for i, b in enumerate(bits))
            yield Case("shape params " + nm, d0 + "fn f@(%s) {\nch@(1)\n%s}\n" % (", ".join("p%d: %s" % (i, Ty(b)) for i, b in enumerate(bits)), body), "f@(%s)" % vals, ex)
            yield Case("shape locals " + nm, d0, "%sch@(1)\n%s" % ("".join("p%d := %s\n" % (i, F(b, i)) for i, b in enumerate(bits)), body), ex)
            yield Case("shape captures " + nm, d0 + "fn mk@() fn() {\n%sreturn fn() {\nch@(1)\n%s}\n}\n" % ("".join("p%d := %s\n" % (i, F(b, i)) for i, b in enumerate(bits)), body), "f := mk@()\nch@(2)\nf()\nch@(3)\nf()", ex * 2)
            if n <= 5:
                ps = ", ".join("p%d: %s" % (i, Ty(b)) for i, b in enumerate(bits))
                vs = ", ".join("p%d" % i for i in range(n))
                for pos in range(3):
                    cases = ["Ka@()", "Kb@(q: int)"]
                    cases.insert(pos, "Kx@(%s)" % ps)
                    yield Case("shape enum %s case %d" % (nm, pos), d0 + "enum sh@ { %s }\nfn mk@() sh@ = Kx@(%s)\n" % (" ".join(cases), vals), "x := mk@()\nch@(1)\nmatch x {\ncase Ka@(): println(0)\ncase Kb@(q): println(q)\ncase Kx@(%s):\nch@(2)\n%s}" % (vs, body), ex)
                gp = ", ".join("p%d: T%d" % (i, i) for i in range(n))
                yield Case("shape generic enum " + nm, d0 + "enum sh@«%s» { Kx@(%s) Ka@() }\nfn mk@() sh@«%s» = Kx@(%s)\n" % (", ".join(ts), gp, ", ".join(Ty(b) for b in bits), vals), "x := mk@()\nch@(1)\nmatch x {\ncase Ka@(): println(0)\ncase Kx@(%s):\nch@(2)\n%s}" % (vs, body), ex)
    # several cases of one enum, every pair of arrangements
    pats = [()] + [tuple(m >> i & 1 for i in range(n)) for n in (1, 2, 3) for m in range(1 << n)]
    for a in pats:
        for b in pats:
            cs = [("Qa@", a), ("Qb@", b)]
            d = d0 + "enum qq@ { %s }\n" % " ".join("%s(%s)" % (c, ", ".join("p%d: %s" % (i, Ty(x)) for i, x in enumerate(p))) for c, p in cs)
            d += "".join("fn mk%d@() qq@ = %s(%s)\n" % (k, c, ", ".join(F(x, i) for i, x in enumerate(p))) for k, (c, p) in enumerate(cs))
            d += "fn sh@(q: qq@) {\nmatch q {\n%s}\n}\n" % "".join("case %s(%s):\nch@(1)\n%s" % (c, ", ".join("p%d" % i for i in range(len(p))), "".join(use("p%d" % i, x) for i, x in enumerate(p)) or "println(0)\n") for c, p in cs)
            yield Case("shape cases %s|%s" % ("".join("ip"[x] for x in a), "".join("ip"[x] for x in b)), d, "x := mk0@()\ny := mk1@()\nch@(1)\nsh@(y)\nsh@(x)", ([V(x, i) for i, x in enumerate(b)] or ["0"]) + ([V(x, i) for i, x in enumerate(a)] or ["0"]))


# ---------------------------------------------------------------- frames: every small tree of scopes and locals
BLOCK = [("if one == 1 {\n", "}\n"), ("if one == 2 {\n} else {\n", "}\n"), ("for vV in 0 .. 1 {\n", "}\n"), ("match en {\ncase Fa@(vV):\n", "case Fb@(vV):\n}\n"), ("vV := 0\nwhile vV == 0 {\nvV = 1\n", "}\n"), ("if one == 2 {\n} elseif one == 1 {\n", "} else {\n}\n")]
FD = "enum fe@ { Fa@(n: int) Fb@(n: int) }\n"


def laminar(n, blocks):
    """all sets of at most that many pairwise nested or disjoint intervals of n items"""
    iv = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    for k in range(blocks + 1):
        for c in itertools.combinations(iv, k):
            if all(x[1] <= y[0] or y[1] <= x[0] or (x[0] <= y[0] and y[1] <= x[1]) or (y[0] <= x[0] and x[1] <= y[1]) for x, y in itertools.combinations(c, 2)):
                yield c


def scopes(items, ivs, kinds, at):
    """the source of a scope tree; at(k, letter, names in scope of pointers and ints) gives the text of an item"""
    src, stack, live = "", [], [[]]
    for i in range(len(items) + 1):
        while stack and stack[-1][0] == i:
            src += stack.pop()[1]
            live.pop()
            src += at(i, "close", [x for l in live for x in l])
        if i == len(items):
            break
        for j, (a, b) in sorted(((j, iv) for j, iv in enumerate(ivs) if iv[0] == i), key=lambda x: -x[1][1]):
            o, c = kinds[j]
            src += o.replace("vV", "v%d" % j)
            stack.append((b, c.replace("vV", "w%d" % j) if "vV" in c else c))
            live.append([])
        if items[i] in "pi":
            live[-1].append(("x%d" % i, items[i], i))
        src += at(i, items[i], [x for l in live for x in l])
    return src


def frames(alpha, n, blocks, rot=None):
    d0 = D + FD + "fn fr@(n: int) string = \"fresh\".append(n.toString())\nfn mid@(a: string, n: int, b: string) string {\nch@(n)\nreturn a.append(b)\n}\n"
    num = 0
    for ivs in laminar(n, blocks):
        for items in itertools.product(alpha, repeat=n):
            if "p" not in items or items[0] == "c":
                continue
            num += 1
            for ks in ([tuple((num + 3 * j) % len(BLOCK) for j in range(len(ivs)))] if rot is None else itertools.product(range(len(BLOCK)), repeat=len(ivs))):
                exp = []

                def at(i, k, live):
                    if k == "p":
                        return "x%d := fr@(%d)\n" % (i, i)
                    if k == "i":
                        return "x%d := %d\n" % (i, i + 4096)
                    if k == "close":
                        return ""
                    exp.append("fresh8fresh9")
                    s = "println(mid@(fr@(8), ch@(1), fr@(9)))\n"
                    for x, t, j in live:
                        s += "println(%s)\n" % x
                        exp.append("fresh%d" % j if t == "p" else str(j + 4096))
                    return s
                src = scopes(items + ("c",), ivs, [BLOCK[k] for k in ks], at)
                yield Case("frame %s %s %s" % ("".join(items), "".join("[%d,%d)" % iv for iv in ivs), "".join(map(str, ks))), d0 + "fn f@(one: int, en: fe@) {\n%s}\n" % src, "f@(1, Fa@(2))", exp)


def sizes(thorough):
    """objects, frames, stacks and type tables of many sizes"""
    d0 = D + "fn fr@(n: int) string = \"fresh\".append(n.toString())\nfn sum@(a: []string) int {\nn := 0\nfor i in 0 .. a.length { n = n + a[i].length }\nreturn n\n}\n"
    ns = list(range(0, 18)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] + ([511, 512, 513, 1000, 1023, 1024, 1025, 2000] if thorough else [])
    for n in ns:
        tot = sum(5 + len(str(i)) for i in range(n))
        yield Case("size array %d" % n, d0, "a := array(%d, \"\")\nfor i in 0 .. %d { a[i] = fr@(i) }\nch@(1)\nprintln(sum@(a))\nprintln(a.length)" % (n, n), [str(tot), str(n)])
        yield Case("size list %d" % n, d0, "l := Empty«string»()\nfor i in 0 .. %d { l = l.append(fr@(i)) }\nch@(1)\nprintln(l.map(fn(s: string) int = s.length).reduce(0, fn(a: int, b: int) int = a + b))" % n, [str(tot)])
        if 0 < n <= 300:
            yield Case("size locals %d" % n, d0, "%sch@(1)\nprintln(%s)" % ("".join("x%d := fr@(%d)\n" % (i, i) for i in range(n)), " + ".join("x%d.length" % i for i in range(n))), [str(tot)])
            yield Case("size literal %d" % n, d0, "a := [%s]\nch@(1)\nprintln(sum@(a))" % ", ".join("fr@(%d)" % i for i in range(n)), [str(tot)])
            yield Case("size depth %d" % n, d0 + "fn f@(n: int) int {\nif n == 0 { return 0 }\ns := fr@(n)\nr := f@(n - 1)\nch@(1)\nreturn r + s.length\n}\n", "println(f@(%d))" % n, [str(sum(5 + len(str(i)) for i in range(1, n + 1)))])
        if n <= 300:
            yield Case("size map %d" % n, d0, "m := NewHashMap«string, string»(fnv1a, Equals)\nfor i in 0 .. %d { m.put(fr@(i), fr@(i)) }\nch@(1)\nk := 0\nfor i in 0 .. %d { k = k + m.get(fr@(i)).orElse(\"\").length }\nprintln(k)" % (min(n, 70), min(n, 70)), [str(sum(5 + len(str(i)) for i in range(min(n, 70))))])
        if n <= 40:
            yield Case("size chain %d" % n, d0 + "fn wrap@(f: fn() int, n: int) fn() int {\ns := fr@(n)\nreturn fn() int {\nch@(1)\nreturn f() + s.length\n}\n}\n", "f := fn() int = 0\nfor i in 0 .. %d { f = wrap@(f, i) }\nch@(1)\nprintln(f())" % n, [str(tot)])
    for n in [1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537] + ([1 << 20, 3000001] if thorough else []):
        yield Case("size bytes %d" % n, d0, "b := Bytes(%d)\nb.set(0, 65)\nb.set(%d, 66)\nch@(1)\nprintln(b.get(0))\nprintln(b.get(%d))\ns := b.toString()\nch@(1)\nprintln(s.length)\nprintln(s.byte(%d))\nt := s.append(\"x\")\nch@(2)\nprintln(t.byte(%d))" % (n, n - 1, n - 1, n - 1, n), [("65" if n > 1 else "66"), "66", str(n), "66", "120"])
    # many types: each is used, several are held at once
    for k in [1, 2, 5, 50, 100, 200, 230, 260, 300] + ([600, 1000] if thorough else []):
        ds = d0 + "".join(("struct ty%d@ { a: string b: int }\n" if i % 3 == 0 else "struct ty%d@ { b: int }\n" if i % 3 == 1 else "enum ty%d@ { Ty%d@(b: int, a: string) Uy%d@() }\n").replace("%d", str(i)) for i in range(k))
        body, ex = "", []
        for i in range(k):
            body += ("x%d := Ty%d@(fr@(%d), %d)\n" if i % 3 == 0 else "x%d := Ty%d@(%d)\n" if i % 3 == 1 else "x%d := Ty%d@(%d, fr@(%d))\n") % ((i, i, i, i) if i % 3 != 1 else (i, i, i))
        body += "ch@(1)\n"
        for i in range(k):
            if i % 3 == 0:
                body += "println(x%d.a)\n" % i
                ex.append("fresh%d" % i)
            elif i % 3 == 1:
                body += "println(x%d.b)\n" % i
                ex.append(str(i))
            else:
                body += "match x%d {\ncase Ty%d@(b, a): println(a)\ncase Uy%d@(): println(0)\n}\n" % (i, i, i)
                ex.append("fresh%d" % i)
        yield Case("size types %d" % k, ds, body, ex)


UP = {"": ("", "", []), "i": ("n: int", "7", ["n.toString()"]), "s": ("s: string", "\"s\".append(K.toString())", ["s"]), "is": ("n: int, s: string", "5, \"t\".append(K.toString())", ["n.toString()", "s"]), "si": ("s: string, n: int", "\"u\".append(K.toString()), 6", ["s", "n.toString()"]),
      "a": ("a: []string", "[\"v\".append(K.toString()), \"w\"]", ["a[0]", "a[1]"])}
USH = {"": "", "i": "7", "s": "sK", "is": "5tK", "si": "uK6", "a": "vKw"}


def unconstructed(n, names=None):
    """enums of which any set of constructors is never called: the values of the others are kept whole"""
    for ks in itertools.product(UP, repeat=n):
        for mask in range(1, 1 << n):
            d = "enum q@ { %s }\nstruct z@ { p: string e: q@ }\n" % " ".join("C%d@(%s)" % (i, UP[k][0]) for i, k in enumerate(ks))
            d += "fn show@(e: q@) string {\nmatch e {\n" + "".join("case C%d@(%s): return \"%d\"%s\n" % (i, ", ".join(x.split(":")[0].strip() for x in UP[k][0].split(",") if x), i, "".join(".append(%s)" % x for x in UP[k][2])) for i, k in enumerate(ks)) + "}\n}\n"
            b, e = "", []
            used = [i for i in range(n) if mask >> i & 1]
            for i in used:
                d += "fn mk%d@(K: int) q@ = C%d@(%s)\n" % (i, i, UP[ks[i]][1])
            for r in range(2):
                for i in used:
                    b += "x%d%d := mk%d@(%d)\ny%d%d := Z@(\"k\".append(\"%d\"), mk%d@(%d))\n" % (r, i, i, r, r, i, i, i, r + 4)
            b += "for j in 0 .. 6 { w := \"q\".append(j.toString()) }\n"
            for r in range(2):
                for i in used:
                    b += "println(show@(x%d%d))\nprintln(y%d%d.p.append(show@(y%d%d.e)))\n" % (r, i, r, i, r, i)
                    e += ["%d%s" % (i, USH[ks[i]].replace("K", str(r))), "k%d%d%s" % (i, i, USH[ks[i]].replace("K", str(r + 4)))]
            yield Case("unconstructed %s of %s" % (used, ks), d, b, e)


PHOLE = ["Q", "(0 + Q)", "(Q + 0)", "-(-Q)", "~(-1 - Q)", "(true ? Q : 1)", "(Q == 0 ? 0 : 1)", "[Q][0]", "[0, 1][Q]", "ident@(Q)", "Q.ident@()", "(Q << 1)", "gid@(Q)", "q()", "qs[0]()", "Some(Q).orElse(1)", "Pair(Q, 1).first", "(1 - (1 - Q))", "(0 & Q)", "fn(z: int) int = z(Q)", "z0@()", "z1@()()", "(0 + z0@())", "z0@().ident@()"]
# pending reference while the hole is evaluated; each statement prints checks of the listed objects
PUSE = [
    ("println(k@(h.a[H]))", [1]), ("println(k@(h.m[H][0]))", [4]), ("println(k@(h.m[0][H]))", [4]), ("println(k@(h.m[H][H]))", [4]), ("println(k@(h.z[H].f))", [6]), ("println(k@(h.z[H].a[0]))", [6]), ("println(k@(h.o.a[H]))", [2]), ("println(k@(oh@(h).a[H]))", [1]),
    ("println(k@([mk@(7), mk@(8)][H]))", [7]), ("println(k@([h.f, mk@(8)][H]))", [0]), ("println(k@(fa@(h)[H]))", [1]), ("println(k@((true ? h.a : h.m[1])[H]))", [1]),
    ("println(k@(tri@(h.f, H + 1, mk@(7))))", [0]), ("println(k@(tri@(mk@(7), H, h.f)))", None), ("println(k@(Pair(h.f, H).first))", [0]), ("println(k@(Pair(h.f, Pair(H, mk@(7))).first))", [0]), ("println(k@(h.f.two@(H)))", [0]), ("println(k@(two@(h.a[0], H)))", [1]),
    ("println(k@(mk@(7).two@(H)))", [7]), ("println(k@(fst@(h.f, H, mk@(7), H, mk@(8), H)))", [0]), ("println(k@(Bx@(h.f, H).f))", [0]), ("println(k@(bf@(Pe@(H, h.a[0], H))))", None), ("println(k@(bf@(Pe@(0, h.a[0], H))))", [1]), ("println(k@(h.gs[0](H)))", [5]), ("println(k@(h.gs[H](H)))", [5]), ("println(k@(cl@(h)(H)))", [0]),
    ("println(k@([h.f, mk@(7)][[H][0]]))", [0]), ("println(ks@([h.f, h.a[0], mk@(7)], H))", "sum"), ("println(k@(h.o.f) + H)", [2]), ("println(k@(h.a[H + 1]))", [3]), ("println(k@(h.o.z[H].a[H]))", [6]),
]
PSET = [("h.a[H] = mk@(7)", "w.a[0]"), ("h.m[H][0] = mk@(7)", "w.m[0][0]"), ("h.m[0][H] = mk@(7)", "w.m[0][0]"), ("h.m[H][H] = mk@(7)", "w.m[0][0]"), ("h.z[H].f = mk@(7)", "w.z[0].f"), ("h.z[H].a[H] = mk@(7)", "w.z[0].a[0]"), ("h.o.a[H] = mk@(7)", "w.o.a[0]"), ("fa@(h)[H] = mk@(7)", "w.a[0]"), ("oh@(h).a[H] = mk@(7)", "w.a[0]"), ("fc@(h, H).f = mk@(7)", "fst"),
        ("h.a[H + 1] = mk@(7)", "w.a[1]"), ("h.o.z[H].f = mk@(7)", "w.o.z[0].f"), ("x[H] = mk@(7)", "x[0]"), ("x[x.length - (1 + H)] = mk@(7)", "x[1]"), ("xm[H][0] = mk@(7)", "xm[0][0]"), ("xm[0][H] = mk@(7)", "xm[0][0]"), ("h.a[H] = h.f", "w.a[0]=0"), ("h.m[H] = [mk@(7)]", "w.m[0][0]"), ("h.m[0 + H] = [mk@(7), h.f]", "w.m[0][0]"), ("h.z[H] = no1@(7)", "w.z[0].f")]


def pending(types, holes, muts):
    """A reference loaded from the heap or freshly made is pending while a later part of the same expression or assignment collects, also when that part drops the place the reference came from."""
    for t in types:
        ty = T[t][0]
        hold = "struct hx@ { f: %s a: []%s m: [][]%s z: []bx@ o: hy@ gs: []fn(int) %s }\nstruct hy@ { f: %s a: []%s z: []by@ }\nstruct bx@ { f: %s a: []%s }\nstruct by@ { f: %s a: []%s }\nenum pe@ { Pe@(l: int, f: %s, r: int) Pf@() }\n" % ((ty,) * 11)
        d = decl(t) + hold.replace("struct bx@ { f: %s a: []%s }" % (ty, ty), "struct bx@ { f: %s q: int a: []%s }" % (ty, ty)).replace("Bx@(h.f, H)", "Bx@(h.f, H, h.a)") + ("fn ident@(n: int) int = n\nfn two@(o: %s, n: int) %s = n > 5 ? mk@(9) : o\nfn fst@(o: %s, a: int, p: %s, b: int, q: %s, c: int) %s = (a + b + c) > 9 ? p : o\n"
             "fn bf@(e: pe@) %s {\nmatch e {\ncase Pe@(l, f, r): return f\ncase Pf@(): return mk@(9)\n}\n}\nfn ks@(o: []%s, n: int) int {\ns := n\nfor x in o { s = s + k@(x) }\nreturn s\n}\n" % ((ty,) * 8))
        d += "fn oh@(h: hx@) hx@ = h\nfn fa@(h: hx@) []%s = h.a\nfn fc@(h: hx@, n: int) hy@ = h.o\nfn no1@(n: int) bx@ = Bx@(mk@(n), 0, [mk@(n)])\nfn cl@(h: hx@) fn(int) %s {\nf := h.f\nreturn fn(n: int) %s = n > 5 ? mk@(9) : f\n}\n" % (ty, ty, ty)
        d += "fn mg@(n: int) fn(int) %s {\no := mk@(n)\nreturn fn(q: int) %s = q > 5 ? mk@(9) : o\n}\n" % (ty, ty)
        d += "fn make@() hx@ = Hx@(mk@(0), [mk@(1), mk@(3)], [[mk@(4)], [mk@(5)]], [no1@(6)], Hy@(mk@(2), [mk@(2)], [By@(mk@(6), [mk@(6)])]), [mg@(5)])\n"
        d += ("fn rp@(h: hx@) int {\nh.f = mk@(9)\nh.a = [mk@(9), mk@(9)]\nh.m = [[mk@(9)], [mk@(9)]]\nh.z = [no1@(9)]\nh.o = Hy@(mk@(9), [mk@(9)], [By@(mk@(9), [mk@(9)])])\nh.gs = [mg@(9)]\nch@(1)\nreturn 0\n}\n"
              "fn rq@(h: hx@) int {\nh.a[0] = mk@(9)\nh.a[1] = mk@(9)\nh.m[0] = [mk@(9)]\nh.m[1] = [mk@(9)]\nh.z[0] = no1@(9)\nh.o.f = mk@(9)\nh.o.a = [mk@(9)]\nh.o.z = [By@(mk@(9), [mk@(9)])]\nh.gs[0] = mg@(9)\nch@(1)\nreturn 0\n}\n")
        for mn in muts:
            q = {"rp": "rp@(h)", "rq": "rq@(h)", "ch": "ch@(0)"}[mn]
            for hi, hole in enumerate(holes):
                if "Q" not in hole and "q" not in hole and mn != "ch":
                    continue
                H = hole.replace("Q", q)
                if H.startswith("fn("):
                    H = "(true ? %s : 0)" % "pf@(Q)".replace("Q", q)
                pre = "h := make@()\nq := fn() int = %s\nqs := [q]\n" % q
                body, exp = "", []
                fns = ""
                for i, (u, e) in enumerate(PUSE):
                    if e is None or mn == "rq" and (u.count("H") > 1 or re.search(r"h\.(a|m|z|gs|o)|\(h\)(\[|\.)", u) and "h.m[0][H]" not in u and "h.a[0], H" not in u and "h.gs[0](" not in u) or mn == "rp" and u.count("H") > 1 and not u.startswith("println(k@(fst@"):
                        if mn != "ch" or e is None:
                            continue
                    if e == "sum":
                        if mn != "ch":
                            continue
                        exp.append(str(val(t, 0) + val(t, 1) + val(t, 7)))
                    else:
                        exp += [str(val(t, x)) for x in e]
                    u = u.replace("Bx@(h.f, H)", "Bx@(h.f, H, h.a)")
                    fns += "fn u%d@() {\n%s%s\n}\n" % (i, pre, re.sub(r"\bH\b", lambda _: H, u))
                    body += "u%d@()\n" % i
                for i, (u, e) in enumerate(PSET):
                    e, _, n = e.partition("=")
                    if e == "fst":
                        e = "w.o.f"
                    # after rp the assigned object is still reachable from the copy w of the old holder
                    keep = "w := Hx@(h.f, h.a, h.m, h.z, h.o, h.gs)\n" if mn == "rp" else "w := h\n"
                    if mn != "ch" and (u.count("H") > 1 or e.startswith("w.o")):
                        if mn == "rq" or u.count("H") > 1 or u.startswith("fc@"):
                            continue
                    if mn == "rq" and re.search(r"w\.(m|z)", e):
                        continue
                    fns += "fn v%d@() {\n%s%sx := [mk@(1), mk@(2)]\nxm := [x]\n%s\nch@(1)\nprintln(k@(%s))\n}\n" % (i, pre, keep, re.sub(r"\bH\b", lambda _: H, u), e)
                    body += "v%d@()\n" % i
                    exp.append(str(val(t, int(n or 7))))
                yield Case("pending %s %s %s" % (t, mn, hole), d + "fn pf@(n: int) int = n\nfn z0@() int = ch@(0)\nfn z1@() fn() int = z0@\n" + fns, body, exp)


def main():
    from c05 import merge
    import c02, c03, c06

    def merged(cases, n):
        buf = []
        for x in cases:
            buf.append(x)
            if len(buf) == n:
                yield merge(buf)
                buf = []
        if buf:
            yield merge(buf)
    c = Check("C07", "model_checking",
              "every holding position x object type with collections forced while the object is held, every operation history over a mutable heap graph up to the bound, and the call, closure and expression spaces of C02/C03/C06 re-run; "
              "the allocator makes any access to reclaimed memory or past the end of a block fatal, and contents are compared with the model",
              ["the instrumented allocator replaces libc's calloc/malloc/free at link time; it never reuses addresses"])
    c.extra = c.tc.shim("gcshim")
    c.run_cases("holding", matrix(T), batch=40)
    c.run_cases("generic", generic(list(T)), batch=40)
    c.run_cases("shapes", shapes(), batch=60)
    c.run_cases("frames", frames("pc", 5, 2), batch=150)
    c.run_cases("frames", frames("pic", 4, 2), batch=150)
    if c.thorough:
        c.run_cases("frames 6", frames("pc", 6, 3), batch=150)
        c.run_cases("frames kinds", frames("pic", 4, 2, True), batch=150)
    c.run_cases("unconstructed", unconstructed(2), batch=20)
    if c.thorough:
        c.run_cases("unconstructed", unconstructed(3), batch=20)
    c.run_cases("sizes", sizes(c.thorough), batch=4)
    if c.thorough:
        c.run_cases("pending", pending(list(T), PHOLE, ("rp", "rq", "ch")), batch=4)
    else:
        c.run_cases("pending", pending(("string", "closure", "option"), PHOLE, ("rp", "ch")), batch=4)
        c.run_cases("pending", pending(list(T), PHOLE[:3], ("rp", "rq", "ch")), batch=4)
    c.run_cases("replaced", c02.replaced(), batch=2)
    c.run_cases("graphs2", merged(graphs(2), 12), batch=8)
    c.run_cases("graphs3", merged(graphs(3), 12), batch=8)
    if c.thorough:
        c.run_cases("graphs4", merged(graphs(4), 12), batch=8)
    c.run_cases("closures", c06.typed(), batch=20)
    c.run_cases("closures", c06.kinds_agree(), batch=20)
    c.run_cases("closures", c06.counts(), batch=60)
    c.run_cases("calls", c03.typed(c.thorough), batch=40)
    c.run_cases("chains", c02.chains(4 if c.thorough else 3), batch=40)
    if c.thorough:
        c.run_cases("closures", c06.positions(), batch=60)
        c.run_cases("calls", c03.kind_cases(False), batch=10)
    c.finish()
