"""Every place of a program where a variable's value can be read, each the only use of the variable: (name, statements with X
for an int expression over the variable, printed lines when X is 5). And every way a variable comes into being."""

DECLS = """struct ps@ { u: int v: int }
struct pf@ { g: fn(int) int }
enum pe@ { Pa@(x: int) Pb@(x: int, y: int) Pc@() }
fn p1@(a: int) int = a + 1
fn p6@(a: int, b: int, c: int, d: int, e: int, f: int) int = a + (b * 10) + (c * 100) + (d * 1000) + (e * 10000) + (f * 100000)
fn pid@«T»(t: T) T = t
fn pap@(f: fn() int) int = f()
fn pm@(e: pe@) int {
match e {
case Pa@(x): return x
case Pb@(x, y): return (x * 10) + y
case Pc@(): return -1
}
}
fn pnop@() {}
"""

PLACES = [
    ("print", "println(X)", ["5"]), ("declare", "y := X\nprintln(y)", ["5"]), ("assign", "y := 1\ny = X\nprintln(y)", ["5"]), ("twice", "println(X + X)", ["10"]),
    ("left", "println(X + 1)", ["6"]), ("right", "println(10 - X)", ["5"]), ("deep left", "println(((X * 2) + 1) * 3)", ["33"]), ("deep right", "println(3 + (2 * (1 + X)))", ["15"]), ("paren", "println(((X)))", ["5"]), ("unary", "println(-X)", ["-5"]), ("complement", "println(~X)", ["-6"]), ("not", "println(not (X == 5))", ["false"]),
    ("compare left", "println(X == 5)", ["true"]), ("compare right", "println(9 < X)", ["false"]), ("and", "println(true and X == 5)", ["true"]), ("or", "println(false or X < 3)", ["false"]), ("shift", "println(1 << X)", ["32"]),
    ("if", "if X == 5 { println(\"y\") } else { println(\"n\") }", ["y"]), ("if body", "if true { println(X) }", ["5"]), ("if body later", "if true {\nq := 1\nprintln(q)\nprintln(X)\n}", ["1", "5"]), ("else body", "if false { println(0) } else { println(X) }", ["5"]),
    ("elseif", "if false { println(0) } elseif X == 5 { println(\"y\") } else { println(\"n\") }", ["y"]), ("elseif body", "if false { println(0) } elseif true { println(X) }", ["5"]), ("elseif 2", "if false { println(0) } elseif false { println(1) } elseif X == 5 { println(\"y\") }", ["y"]), ("elseif 2 body", "if false { println(0) } elseif false { println(1) } elseif true { println(X) } else { println(2) }", ["5"]),
    ("else after elseif", "if false { println(0) } elseif false { println(1) } else { println(X) }", ["5"]), ("nested if else", "if true {\nif false { println(0) } else { println(X) }\n}", ["5"]), ("if after", "if true { pnop@() }\nprintln(X)", ["5"]),
    ("while", "k := 0\nwhile k < X { k = k + 2 }\nprintln(k)", ["6"]), ("while body", "k := 0\nwhile k < 2 {\nprintln(X)\nk = k + 1\n}", ["5", "5"]), ("while if", "k := 0\nwhile k < 2 {\nif k == 1 { println(X) } else { println(0) }\nk = k + 1\n}", ["0", "5"]),
    ("range to", "t := 0\nfor k in 0 .. X { t = t + k }\nprintln(t)", ["10"]), ("range from", "t := 0\nfor k in X .. 9 { t = t + k }\nprintln(t)", ["26"]), ("range body", "for k in 0 .. 2 { println(X + k) }", ["5", "6"]), ("for element", "for k in [1, X, 3] { println(k) }", ["1", "5", "3"]), ("for body", "for k in [1, 2] { println(k + X) }", ["6", "7"]), ("for nested", "for k in 0 .. 2 {\nfor j in [7] { println(X) }\n}", ["5", "5"]),
    ("array first", "a := [X, 1]\nprintln(a[0])", ["5"]), ("array last", "a := [1, 2, X]\nprintln(a[2])", ["5"]), ("index", "a := [0, 1, 2, 3, 4, 50]\nprintln(a[X])", ["50"]), ("index written", "a := [0, 1, 2, 3, 4, 50]\na[X] = 9\nprintln(a[5])", ["9"]), ("element written", "a := [0, 1]\na[1] = X\nprintln(a[1])", ["5"]), ("field written", "o := Ps@(0, 1)\no.v = X\nprintln(o.v)", ["5"]), ("nested array", "a := [[1], [2, X]]\nprintln(a[1][1])", ["5"]),
    ("argument", "println(p1@(X))", ["6"]), ("receiver", "println((X).p1@())", ["6"]), ("nested call", "println(p1@(p1@(X)))", ["7"]), ("method", "println((X).toString())", ["5"]), ("generic call", "println(pid@(X))", ["5"]), ("statement call", "println(X)\npnop@()", ["5"]), ("value call", "f := p1@\nprintln(f(X))", ["6"]), ("field call", "o := Pf@(p1@)\nprintln(o.g(X))", ["6"]), ("constructor", "println(Ps@(1, X).v)", ["5"]), ("case", "println(pm@(Pb@(1, X)))", ["15"]), ("option", "println(Some(X).orElse(0))", ["5"]), ("orElse", "println(None«int»().orElse(X))", ["5"]),
    ("ternary cond", "println(X == 5 ? 1 : 2)", ["1"]), ("ternary then", "println(true ? X : 2)", ["5"]), ("ternary else", "println(false ? 2 : X)", ["5"]), ("ternary nested", "println(false ? 2 : (true ? X : 3))", ["5"]),
    ("lambda", "f := fn() int = X\nprintln(f())", ["5"]), ("lambda block", "f := fn() int { return X }\nprintln(f())", ["5"]), ("lambda if", "f := fn(b: bool) int {\nif b { return 0 } else { return X }\n}\nprintln(f(false))", ["5"]), ("lambda arg", "println(pap@(fn() int = X))", ["5"]), ("lambda array", "f := [fn() int = 1, fn() int = X]\nprintln(f[1]())", ["5"]), ("lambda field", "o := Pf@(fn(z: int) int = z + X)\nprintln(o.g(1))", ["6"]), ("lambda called", "println((fn(z: int) int = z + X)(1))", ["6"]),
    ("lambda lambda", "f := fn() fn() int {\nreturn fn() int = X\n}\nprintln(f()())", ["5"]), ("lambda match", "f := fn() int {\nmatch Some(1) {\ncase Some(z): return X\ncase None(): return 0\n}\n}\nprintln(f())", ["5"]), ("lambda while", "f := fn() int {\nk := 0\nwhile k < 1 { k = k + X }\nreturn k\n}\nprintln(f())", ["5"]), ("lambda for", "f := fn() {\nfor k in 0 .. 2 { println(X) }\n}\nf()", ["5", "5"]), ("lambda elseif", "f := fn() {\nif false { pnop@() } elseif X == 5 { println(X) }\n}\nf()", ["5"]),
    ("match subject", "match Pa@(X) {\ncase Pa@(m): println(m)\ncase Pb@(m, n): println(0)\ncase Pc@(): println(1)\n}", ["5"]), ("match body", "match Pc@() {\ncase Pa@(m): println(0)\ncase Pb@(m, n): println(1)\ncase Pc@(): println(X)\n}", ["5"]), ("match first body", "match Pa@(2) {\ncase Pa@(m): println(X + m)\ncase Pb@(m, n): println(1)\ncase Pc@(): println(2)\n}", ["7"]), ("match middle if", "match Pb@(1, 2) {\ncase Pa@(m): println(0)\ncase Pb@(m, n):\nif m == 2 { println(1) } elseif n == 2 { println(X) }\ncase Pc@(): println(2)\n}", ["5"]), ("match in match", "match Some(1) {\ncase None(): println(0)\ncase Some(m):\nmatch Some(2) {\ncase Some(n): println(X)\ncase None(): println(1)\n}\n}", ["5"]),
    ("last of six", "println(p6@(1, 2, 3, 4, 5, X))", ["554321"]), ("first of six", "println(p6@(X, 2, 3, 4, 5, 6))", ["654325"]), ("after gc", "gc()\nprintln(X)", ["5"]), ("block", "if true {\nwhile true {\nfor k in 0 .. 1 {\nprintln(X)\n}\nreturn\n}\n}", ["5"]),
]

# type -> (type, value, int expression over variable x which is 5)
TYPES = {"int": ("int", "5", "x"), "bool": ("bool", "true", "(x ? 5 : 6)"), "string": ("string", "\"he\".append(\"llo\")", "x.length"), "lit": ("string", "\"hello\"", "x.length"), "arr": ("[]int", "[4, 5]", "x[1]"), "strs": ("[]string", "[\"a\", \"bcdef\"]", "x[1].length"), "struct": ("ps@", "Ps@(3, 5)", "x.v"), "enum": ("pe@", "Pa@(5)", "pm@(x)"), "fn": ("fn(int) int", "fn(z: int) int = z + 1", "x(4)"), "opt": ("option«int»", "Some(5)", "x.orElse(0)")}


def bindings(t):
    """name -> (declarations, body) with BODY where the variable x is visible"""
    ty, v, _ = TYPES[t]
    yield "local", "", "x := %s\nBODY" % v
    yield "assigned", "", "x := %s\ny0 := x\nx = y0\nBODY" % v
    for p in range(6):
        ps = ["q%d: int" % i for i in range(6)]
        ps[p] = "x: " + ty
        args = [str(90 + i) for i in range(6)]
        args[p] = v
        yield "parameter %d" % p, "fn h@(%s) {\nBODY\n}\n" % ", ".join(ps), "h@(%s)" % ", ".join(args)
    if t == "int":
        yield "range", "", "for x in 5 .. 6 {\nBODY\n}"
        yield "range down", "", "for x in 6 .. 5 {\nBODY\n}"
    yield "element", "", "for x in [%s] {\nBODY\n}" % v
    yield "inner", "", "if true {\nx := %s\nBODY\n}" % v
    yield "shadowing", "", "x := 77\nif true {\nx := %s\nBODY\n}\nprintln(x)" % v
    yield "closure parameter", "", "h := fn(x: %s) {\nBODY\n}\nh(%s)" % (ty, v)
    yield "closure local", "", "h := fn() {\nx := %s\nBODY\n}\nh()" % v
    yield "captured", "", "x := %s\nh := fn() {\nBODY\n}\nh()" % v
    yield "captured among", "", "c1 := 1\nc2 := \"s\"\nx := %s\nc3 := [3]\nh := fn() {\npnop@()\nif c1 == 2 {\nprintln(c2)\nprintln(c3[0])\n}\nBODY\n}\nh()" % v
    yield "captured twice", "", "x := %s\nh := fn() {\nh2 := fn() {\nBODY\n}\nh2()\n}\nh()" % v
    yield "captured parameter", "fn h@(x: %s) fn() {\nreturn fn() {\nBODY\n}\n}\n" % ty, "h@(%s)()" % v
    yield "generic", "fn h@«A, B»(x: %s, a: A, b: B) {\nBODY\n}\n" % ty, "h@(%s, 1, \"s\")" % v


def payload(t, n, pos, order):
    """a payload variable at position pos of n, the case standing first or last"""
    ty, v, _ = TYPES[t]
    ts = ["int"] * n
    ts[pos] = ty
    args = [str(80 + i) for i in range(n)]
    args[pos] = v
    vs = ["o%d" % i for i in range(n)]
    vs[pos] = "x"
    d = "enum en@ { Ea@(%s) Eb@(z: int) }\n" % ", ".join("a%d: %s" % p for p in enumerate(ts))
    cs = ["case Ea@(%s):\nBODY\n" % ", ".join(vs), "case Eb@(z): println(z)\n"]
    return d, "match Ea@(%s) {\n%s}" % (", ".join(args), "".join(cs if order == 0 else cs[::-1]))


def build(Case, key, t, place, d, body, extra=()):
    nm, st, exp = place
    st = st.replace("X", TYPES[t][2])
    return Case("%s %s: %s" % (key, t, nm), DECLS + d.replace("BODY", st), body.replace("BODY", st), exp + list(extra))
