"""C13: compile errors name the file and the line of the offending token."""
import itertools, os, re, shutil
import core, grammar
from core import Check, LOC, compile_src, done, run_proc

# Layouts that may precede or surround the offending line. None of them changes the program; each is a whole number of lines.
FILL = {
    "blank": "\n", "blank3": "\n\n\n", "spaces": "   \n", "comment": "// a comment\n", "comment quote": "// it's \"quoted\n", "comment utf8": "// é世界 𝄞\n", "comments": "// a\n// b\n\n// c\n",
    "crlf": "\r\n", "crlf comment": "// a\r\n", "empty comment": "//\n", "comment braces": "// } { ( « zzz\n", "comment slash": "////\n", "indented comment": "    // x\n",
}
# Declarations that may precede it
DECL = {
    "fn": "fn aa() int = 1\n", "fn body": "fn ab() {\n  x := 1\n\n  println(x) // t\n}\n", "struct": "struct ac {\n  p: int\n  q: string\n}\n", "enum": "enum ad {\n  Ae()\n  Af(v: int)\n}\n",
    "string": "fn ag() string = \"a\\nb\\r\\\\ \\\" c\"\n", "raw newline string": "fn ah() string = \"one\ntwo\n\nfour\"\n", "utf8 string": "fn ai() string = \"é世界𝄞\"\n", "utf8 name": "fn añé() int = 2\n", "comment in string": "fn aj() string = \"// no\"\n",
    "long line": "fn ak() int = " + " + ".join(["1"] * 60) + "\n", "split": "fn al(\n  a: int,\n  b: int\n) int =\n  a +\n  b\n", "attr": "#[RawValues]\nfn getppid() int\n", "crlf fn": "fn am() {\r\n  println(1)\r\n}\r\n",
    "anon": "fn an() fn(int) int {\n  return fn(z: int) int {\n    return z\n  }\n}\n", "generic": "fn ao«T»(t: T) T = t\n", "hex": "fn ap() int = 0xFF\n", "one liners": "fn aq() {} fn ar() {} struct as { a: int }\n",
    "many": "".join("fn at%d() {}\n" % k for k in range(40)),
}
# name -> (text, offset of the line of the offending token). Statement level: placed inside a function body.
STMT = {
    "undeclared name": ("x := zzz", 0), "undeclared call": ("zzz(1)", 0), "undeclared utf8": ("println(\"é世界\".append(zzz))", 0), "undeclared indented": ("      x := 1 + (2 * zzz)", 0), "undeclared after utf8 name": ("é := 1 x := é + zzz", 0), "undeclared in args": ("println(\n1 +\nzzz\n)", 2), "undeclared assign": ("zzz = 1", 0), "undeclared in array": ("x := [1,\nzzz,\n3]", 1),
    "redeclared": ("x := 1\nx := 2", 1), "add bool": ("x := 1 + true", 0), "and int": ("x := true and 1", 0), "not int": ("x := not 1", 0), "neg bool": ("x := -true", 0), "if int": ("if 1 { }", 0), "while int": ("while 1 { }", 0),
    "elseif int": ("if true { }\nelseif 1 { }", 1), "assign type": ("x := 1\nx = \"s\"", 1), "index type": ("a := [1]\nb := a[true]", 1), "index int": ("b := 1[0]", 0), "call args": ("foo(1)", 0), "call arg type": ("foo(true, 1)", 0), "no field": ("s := Pt(1)\nt := s.zz", 1),
    "not struct": ("x := 1\ny := x.zz", 1), "array elements": ("x := [1, true]", 0), "ternary": ("x := true ? 1 : false", 0), "empty array": ("x := []", 0), "return in void": ("return 1", 0), "match missing": ("c := Red()\nmatch c {\ncase Red():\n}", 1),
    "match unknown": ("c := Red()\nmatch c {\ncase Red():\ncase Blue():\ncase Zed():\n}", 4), "for int": ("for i in 1 { }", 0), "range bool": ("for i in 0 .. true { }", 0), "field assign": ("s := Pt(1)\ns.x = true", 1), "assign call": ("foo(1, 2) = 3", 0),
    "type args": ("x := Some«int, int»(1)", 0), "not inferable": ("x := None()", 0), "anon return": ("f := fn() int = true", 0), "anon inner": ("f := fn() {\n\nx := zzz\n}", 2), "nested": ("if true {\nwhile false {\nfor i in 0 .. 2 {\nx := zzz\n}\n}\n}", 3), "second of two": ("x := 1 y := zzz", 0),
    "overflow": ("x := 4611686018427387904", 0), "in string call": ("println(\"a\nb\")\nx := zzz", 2), "after split": ("x := foo(1,\n\n2)\ny := zzz", 3), "dot chain": ("x := foo(1, 2)\n.zz()", 1), "string token": ("x := 1 + \"a\nb\"", 0), "string token arg": ("foo(\"a\n\nb\nc\", 1)", 0), "string token first": ("x := \"a\nb\" + 1", 0), "string token if": ("if \"a\nb\" { }", 0), "string token elem": ("x := [1,\n\"a\nb\nc\"]", 1), "string token dot": ("x := \"a\nb\"\n.zz()", 2), "string token assign": ("x := 1\nx = \"\n\n\"", 1), "string token return": ("f := fn() int = \"a\nb\"", 0), "println void": ("println(println(1))", 0), "compare": ("x := \"a\" < \"b\"", 0),
}
DCLS = "fn foo(a: int, b: int) int = a + b\nstruct pt { x: int }\nenum col { Red() Blue() }\n"
SYN = {  # syntax errors inside a body
    "missing paren": ("x := (1 + 2\ny := 3", 1), "missing operand": ("x := 1 +\n}", 1), "stray operator": ("x := 1 + * 2", 0), "missing expr": ("x :=\n}", 1), "if no brace": ("if true\nx := 1", 1), "missing comma": ("foo(1 2)", 0), "stray bracket": ("x := 1 ]", 0), "double das": ("x := := 1", 0), "stray string": ("foo(1 \"a\nb\nc\")", 0), "string for name": ("for \"a\nb\" in 0 .. 2 { }", 0),
    "return op": ("return * 1", 0), "for no in": ("for i 0 .. 2 { }", 0), "else alone": ("else { }", 0), "case alone": ("case Red():", 0), "unclosed index": ("x := a[1\n}", 1), "bad ternary": ("x := true ? 1", 1), "stray colon": ("x : 1", 0), "keyword value": ("x := while", 0), "struct in fn": ("struct zz { a: int }", 0),
}
LEX = {  # lexical errors
    "bad char": ("x := 1 $ 2", 0), "bad escape": ("x := \"a\\q\"", 0), "tab": ("x :=\t1", 0), "hex": ("x := 0x", 0), "bad ident": ("x$ := 1", 0), "bang": ("x := !true", 0), "percent": ("x := 5 % 2", 0), "unicode": ("x := 1 × 2", 0), "semicolon": ("x := 1;", 0),
}
TOP = {  # at the top level
    "unknown param type": ("fn bad(a: zzz) {}", 0), "unknown return type": ("fn bad() zzz { }", 0), "unknown field type": ("struct bad { a: zzz }", 0), "unknown case type": ("enum bad { Bad(a: zzz) }", 0), "missing return": ("fn bad() int { }", 0), "dup struct": ("struct pt { y: int }", 0), "dup fn": ("fn foo(a: int, b: int) int = a", 0),
    "dup param": ("fn bad(a: int, a: int) {}", 0), "dup field": ("struct bad { a: int a: int }", 0), "upper struct": ("struct Bad { a: int }", 0), "return type": ("fn bad() int = true", 0), "param split": ("fn bad(\n  a: int,\n  b: zzz\n) {}", 2), "field split": ("struct bad {\n  a: int\n  b: zzz\n}", 2),
    "stray token": ("xyz", 0), "stray brace": ("}", 0), "fn no name": ("fn (a: int) {}", 0), "fn no paren": ("fn bad {}", 0), "param no type": ("fn bad(a) {}", 0), "struct no brace": ("struct bad a: int }", 0), "enum comma": ("enum bad { Aa(), Bb() }", 0), "number": ("12", 0), "missing body": ("fn bad() =\nfn good() {}", 1), "type arg count": ("fn bad(a: option«int, int») {}", 0),
}
# those whose position is found by another pass than their neighbours' must not be reported late
POS = re.compile(r"p\.clara:(\d+):(\d+):")
LINE = re.compile(r"p\.clara:(\d+):\d+:")


def body(stmt, pre="", post=""):
    return "fn bad() {\n%s%s\n%s}\n" % (pre, stmt, post)


class Runner:
    def __init__(self, c):
        self.c = c

    def one(self, it):
        key, src, want, first = it  # want: lines that must be reported; first: the first error is on the first of them
        comp = compile_src(self.c.tc, src, gcc="skip")
        kind, out, rc = comp.kind, comp.out, comp.rc
        done(comp)
        got = [int(x) for x in LINE.findall(out)]
        why = None
        if kind != "rejected":
            why = "the compiler must reject this program (exit %s): %s" % (rc, out[-800:])
        elif first == "columns":
            at = [(int(a), int(b)) for a, b in POS.findall(out)]
            lost = [w for w in want if not any(w[0] == l and w[1] <= k <= w[2] for l, k in at)]
            if lost:
                why = "no error is reported inside %s (line, columns), reported are %s:\n%s" % (lost, at, out[-1200:])
        elif first is None:
            ok = [l for g in want for l in g]
            if not all(set(g) & set(got) for g in want) or not set(got) <= set(ok):
                why = "the errors are on one of the lines %s each, reported are %s:\n%s" % (want, got, out[-1200:])
        elif not set(want) <= set(got):
            why = "errors are on lines %s of p.clara, reported are %s:\n%s" % (want, got, out[-1200:])
        elif first and got[0] != want[0]:
            why = "the first error is on line %s of p.clara, reported are %s:\n%s" % (want[0], got, out[-1200:])
        elif not first and set(got) - set(want):
            why = "errors are on lines %s only, reported are %s:\n%s" % (want, got, out[-1200:])
        if why is None and first in (True, False) and len(want) == 1 and want[0] > 1 and "undeclared" in key:
            # a single undeclared name: its column counts characters from 1
            col = src.split("\n")[want[0] - 1].index("zzz") + 1
            if (want[0], col) not in [(int(a), int(b)) for a, b in POS.findall(out)]:
                why = "the undeclared name is at %d:%d, reported: %s" % (want[0], col, out[-600:])
        if why:
            self.c.violation(key, why, src)
            return
        part = key.split("|")[0]
        self.c.note(part)
        self.c.count(key, max(1, len(want)), max(1, len(want)) + 1, {"key": key, "source": src[-400:], "lines": want})


def lines(s):
    return s.count("\n")


def item(key, before, text, off, after="", first=False):
    return key, before + text + "\n" + after + "fn main() {\n}\n", [lines(before) + 1 + off], first


def kinds():
    for g, tab, first in (("stmt", STMT, False), ("syn", SYN, True), ("lex", LEX, True)):
        for k, v in tab.items():
            yield g, k, v[0], v[1], first
    for k, v in TOP.items():
        yield "top", k, v[0], v[1], k in ("stray token", "stray brace", "fn no name", "fn no paren", "param no type", "struct no brace", "enum comma", "number", "missing body")


def place(g, text, off, inner=""):
    """the lines of the error itself, with its enclosing function"""
    if g == "top":
        return text, off
    return "fn bad() {\n" + inner + text + "\n}", off + 1 + lines(inner)


def layouts(thorough):
    fl, dl = list(FILL.items()), list(DECL.items())
    for g, k, text, off, first in kinds():
        t, o = place(g, text, off)
        yield item("plain|%s|%s" % (g, k), "" if g != "zz" else "", DCLS + t, o + 3, first=first)
        yield item("decls last|%s|%s" % (g, k), "", t, o, DCLS, first) if k not in ("dup struct", "dup fn") else item("decls last|%s|%s" % (g, k), DCLS, t, o, "", first)
        for n, f in fl + dl:
            yield item("before|%s|%s|%s" % (g, k, n), DCLS + f, t, o, first=first)
            yield item("around|%s|%s|%s" % (g, k, n), f + DCLS, t, o, f if n in FILL else "", first)
        for n, f in fl:
            if g != "top":
                t2, o2 = place(g, text, off, f)
                yield item("inside|%s|%s|%s" % (g, k, n), DCLS, t2, o2, first=first)
                t2, o2 = place(g, text, off, "  w := \"q\nr\" // s\n" + f)
                yield item("inside string|%s|%s|%s" % (g, k, n), DCLS, t2, o2, first=first)
        if thorough:
            for (n1, f1), (n2, f2) in itertools.permutations(fl + dl, 2):
                yield item("pair|%s|%s|%s|%s" % (g, k, n1, n2), DCLS + f1 + f2, t, o, first=first)
        for cnt in (range(1, 12) if not thorough else range(1, 300)):
            yield item("offset|%s|%s|%d" % (g, k, cnt), DCLS + "\n" * cnt, t, o, first=first)


def crlf():
    """whole programs with CRLF line ends"""
    for g, k, text, off, first in kinds():
        t, o = place(g, text, off)
        key, src, want, first = item("crlf|%s|%s" % (g, k), DCLS, t, o, first=first)
        yield key, src.replace("\n", "\r\n"), want, first


def multi(n, thorough):
    """independent errors in n separate functions: each is reported, in every order"""
    names = [k for k in STMT if STMT[k][0].count("\n") < 4 and k not in ("overflow",)]
    for combo in itertools.product(names, repeat=n):
        src, want = DCLS, []
        for j, k in enumerate(combo):
            text, off = STMT[k]
            want.append(lines(src) + 2 + off)
            src += "fn bad%d() {\n%s\n}\n" % (j, text)
            if j % 2:
                src += "// é\n\n"
        yield "multi|" + "|".join(combo), src + "fn main() {\n}\n", want, False


def many(thorough):
    """n independent errors, or one error behind n other functions: each is reported, on its line"""
    kinds = ("undeclared name", "add bool", "call arg type", "no field", "if int", "anon inner", "redeclared", "array elements")
    for n in (3, 5, 8, 9, 10, 11, 12, 16, 17, 20, 21, 25, 26, 32, 33, 50, 51, 64, 65, 99, 100, 101, 128, 129, 150) + ((200, 255, 256, 257, 500, 1000) if thorough else (256, 257)):
        for ks in [(k,) for k in kinds] + [kinds]:
            src, want = DCLS, []
            for j in range(n):
                text, off = STMT[ks[j % len(ks)]]
                want.append(lines(src) + 2 + off)
                src += "fn bad%d() {\n%s\n}\n" % (j, text)
            yield "many|%d|%s" % (n, "+".join(ks) if len(ks) == 1 else "mixed"), src + "fn main() {\n}\n", want, False
        for k in ("undeclared name", "add bool"):
            body, want = "", []
            for j in range(n):  # all in one function
                want.append(5 + j)
                body += STMT[k][0].replace("x :=", "x%d :=" % j).replace("zzz", "zzz%d" % j) + "\n"
            yield "many|one function %d|%s" % (n, k.replace("undeclared", "unknown")), DCLS + "fn bad() {\n" + body + "}\nfn main() {\n}\n", want, False
        for k in kinds:
            text, off = STMT[k]
            src = DCLS + "".join("fn ok%d() int = %d\n" % (j, j) for j in range(n * 4))
            want = [lines(src) + 2 + off]
            yield "many|behind %d|%s" % (n * 4, k.replace("undeclared", "unknown")), src + "fn bad() {\n%s\n}\nfn main() {\n}\n" % text, want, False


def ctx():
    """the offending statement in every enclosing construct"""
    C = {"if": ("if true {\n", "\n}"), "else": ("if true {\n} else {\n", "\n}"), "elseif": ("if true {\n} elseif false {\n", "\n}"), "while": ("while true {\n", "\n}"), "for": ("for i in 0 .. 2 {\n", "\n}"), "for array": ("for i in [1, 2] {\n", "\n}"), "match": ("match Red() {\ncase Red():\n", "\ncase Blue():\n}"), "match last": ("match Red() {\ncase Red():\ncase Blue():\n", "\n}"),
         "anon": ("k := fn() {\n", "\n}"), "anon arg": ("ap(\nfn() {\n", "\n})"), "anon field": ("h := Hh(fn() {\n", "\n})"), "anon array": ("k := [fn() {\n", "\n}]"), "after": ("q := 1\n", ""), "same line": ("q := 1 ", "")}
    d = DCLS + "struct hh { f: fn() }\nfn ap(f: fn()) {}\n"
    for depth in (1, 2):
        for cs in itertools.product(C, repeat=depth):
            if depth == 2 and "same line" in cs:
                continue
            for k, (text, off) in STMT.items():
                if k in ("return in void",) or ("same line" in cs and k == "dot chain"):
                    continue
                if depth == 2 and k not in ("undeclared name", "add bool", "no field", "call arg type", "array elements", "match missing", "anon inner"):
                    continue
                t = "".join(C[x][0] for x in cs)
                t = t.replace("q :=", "q%d :=")
                if "%d" in t:
                    n = itertools.count()
                    t = re.sub("%d", lambda m: str(next(n)), t)
                yield item("ctx|%s|%s" % ("+".join(cs), k), d, "fn bad() {\n" + t + text + "".join(C[x][1] for x in reversed(cs)) + "\n}", 1 + lines(t) + off)


# programs in which every token can stand on a line of its own; ‹ › enclose the tokens one of which is to be named
SPREAD = """
x := ‹zzz›
‹zzz›(1)
println("é".append(‹zzz›))
x := 1 + (2 * ‹zzz›)
println(1 + ‹zzz›)
‹zzz› = 1
‹zzz›[0] = 1
x := [1, ‹zzz›, 3]
x := 1 ‹x› := 2
x := 1 + ‹true›
x := true and ‹1›
x := not ‹1›
x := -‹true›
if ‹1› { }
while ‹1› { }
if true { } elseif ‹1› { }
if true { } elseif true { x := ‹zzz› } else { }
if true { } elseif true { } else { x := ‹zzz› }
x := 1 x = ‹"s"›
a := [1] b := a[‹true›]
a := [[1]] x := a[0][‹"s"›]
a := [1] a[‹"s"›] = 4
a := [1] a[0] = ‹"s"›
b := ‹1[0]›
‹foo(1)›
‹foo(1, 2, 3)›
x := 1 + ‹foo(1)›
s := Pt(1) t := s.‹zz›
s := Pt(1) s.‹zz› = 4
s := [Pt(1)] x := s[0].‹zz›
x := 1 y := ‹x.zz›
x := [1, ‹true›]
x := [[1], [2, ‹true›], [3]]
x := true ? 1 : ‹false›
x := true ? 1 + ‹"s"› : 2
x := ‹5› ? 1 : 2
x := ‹[]›
‹return 1›
c := Red() ‹match c› { case Red(): }
c := Red() match c { case Red(): case Blue(): case ‹Zed›(): }
match Red() { case Red(): x := 1 case Blue(): x := ‹zzz› }
match Red() { case Red(): x := ‹zzz› case Blue(): x := 1 }
match Eb(1, 2, 3) { case Ea(): case ‹Eb(a, b)›: }
match Red() { case Red(): case Blue(): case ‹Red›(): }
for i in ‹1› { }
for i in 0 .. ‹true› { }
for i in ‹"s"› .. 3 { }
for i in 0 .. 3 { x := i + ‹"s"› }
while true { x := 1 y := 1 + ‹"s"› }
s := Pt(1) s.x = ‹true›
‹foo(1, 2)› = 3
x := ‹Some«int, int»›(1)
x := Some«‹zzz›»(1)
x := ‹None()›
f := fn() int = ‹true›
f := fn(a: ‹zzz›) int = 1
f := fn(a: int) ‹zzz› = 1
f := fn() { x := ‹zzz› }
f := fn(a: int) int { if a == 1 { return ‹"s"› } return 2 }
f := fn(a: int) int { if a == 1 { ‹return› } return 2 }
x := 1 y := ‹zzz› z := 3
x := ‹4611686018427387904›
x := foo(1, 2) .‹zz›()
x := 5 y := ‹x(1)›
x := 1 + ~(2 + ‹true›)
x := 1 + (2 * (3 - (4 + ‹"s"›)))
s := "abc" ‹s.length› = 4
f3(‹true›, 2, 3)
f3(1, ‹true›, 3)
f3(1, 2, ‹true›)
g3(1, ‹true›, 3)
g3(1, 2, ‹true›)
x := Tr(‹true›, 2, 3)
x := Tr(1, ‹true›, 3)
x := Tr(1, 2, ‹true›)
x := Eb(‹true›, 2, 3)
x := Eb(1, ‹true›, 3)
x := Eb(1, 2, ‹true›)
v := fn(a: int, b: int, c: int) int = a x := v(‹true›, 2, 3)
v := fn(a: int, b: int, c: int) int = a x := v(1, ‹true›, 3)
v := fn(a: int, b: int, c: int) int = a x := v(1, 2, ‹true›)
h := Hf(f3) x := h.f(‹true›, 2, 3)
h := Hf(f3) x := h.f(1, ‹true›, 3)
h := Hf(f3) x := h.f(1, 2, ‹true›)
x := (fn(a: int, b: int, c: int) int = a)(1, 2, ‹true›)
v := [f3] x := v[0](‹true›, 2, 3)
v := [f3] x := v[0](1, 2, ‹true›)
x := ‹true›.f3(2, 3)
x := 1.f3(‹true›, 3)
x := 1.f3(2, ‹true›)
x := f3(1, f3(2, f3(3, ‹"s"›, 4), 5), 6)
x := f3(f3(f3(3, 4, ‹"s"›), 4, 5), 5, 6)
x := ‹o3(true, 2, 3)›
x := ‹o3(1, 2, true)›
x := ap(fn(q: int) int = q, ‹fn(q: int) string = "s"›)
x := ap(‹fn(q: string) int = 1›, fn(q: int) int = q)
x := ap(fn(q: int) int = q, fn(q: int) int = q + ‹true›)
x := ap(fn(q: int) int { return q }, fn(q: int) int { return ‹"s"› })
x := tk([1, 2], ‹5›)
x := tk([1, ‹"s"›], "t")
x := tk(‹["s"]›, "t")
if true { while false { for i in 0 .. 2 { match Red() { case Red(): f := fn() { x := ‹zzz› } case Blue(): } } } }
"""
SPREADT = """
fn bad(a: ‹zzz›) { }
fn bad(a: int, b: ‹zzz›, c: int) { }
fn bad(a: []‹zzz›) { }
fn bad(a: fn(int, ‹zzz›) int) { }
fn bad(a: fn(int) ‹zzz›) { }
fn bad(a: option«‹zzz›») { }
fn bad() ‹zzz› { }
fn bad() option«‹zzz›» { return None«int»() }
struct bad { a: ‹zzz› }
struct bad { a: int b: ‹zzz› c: int }
enum bad { Bad(a: ‹zzz›) }
enum bad { Ba() Bb(x: int, a: ‹zzz›) Bc() }
‹fn bad() int { }›
struct ‹pt› { y: int }
enum ‹pt› { Zz() }
fn ‹foo›(a: int, b: int) int = a
fn bad(a: int, ‹a›: int) { }
struct bad { a: int ‹a›: int }
struct ‹Bad› { a: int }
fn bad() int = ‹true›
fn bad(a: int) int { if a == 1 { return 1 } return ‹"s"› }
fn bad(a: ‹option«int, int»›) { }
struct bad«T» { a: T b: ‹U› }
fn bad«T»(a: T, b: ‹U›) { }
"""
SPREADD = DCLS + "struct tr { a: int b: int c: int }\nenum en { Ea() Eb(a: int, b: int, c: int) }\nfn f3(a: int, b: int, c: int) int = a\nfn o3(a: int, b: int, c: int) int = a\nfn o3(a: string, b: int, c: int) int = b\nfn g3«T»(a: T, b: int, c: T) T = a\nstruct hf { f: fn(int, int, int) int }\nfn ap(f: fn(int) int, g: fn(int) int) int = f(g(1))\nfn tk(a: []int, b: string) int = 1\n"


def marked(text):
    """tokens and the numbers of the marked ones, in groups"""
    toks, groups = [], []
    for k, piece in enumerate(re.split("[‹›]", text)):
        ts = [t[1] for t in grammar.lex(piece)]
        if k % 2:
            groups.append(range(len(toks), len(toks) + len(ts)))
        toks += ts
    return toks, groups


# bodies which can end without returning
OPEN = ["", "x := 1", "println(k)", "x := 1 x = k", "a := [1] a[0] = k", "s := Pt(1) s.x = k", "if k == 1 { return 1 }", "if k == 1 { return 1 } else { }", "if k == 1 { } else { return 1 }", "if k == 1 { return 1 } elseif k == 2 { return 2 }", "if k == 1 { return 1 } elseif k == 2 { return 2 } else { println(k) }", "if k == 1 { return 1 } elseif k == 2 { } else { return 3 }",
        "if k == 1 { } elseif k == 2 { return 2 } else { return 3 }", "if k == 1 { return 1 } elseif k == 2 { return 2 } elseif k == 3 { return 3 }", "if k == 1 { return 1 } elseif k == 2 { return 2 } elseif k == 3 { } else { return 4 }", "while k == 1 { return 1 }", "for i in 0 .. k { return i }", "for i in [1, 2] { return i }",
        "match Red() { case Red(): return 1 case Blue(): }", "match Red() { case Red(): case Blue(): return 1 }", "match Red() { case Red(): println(k) case Blue(): return 1 }", "match Red() { case Red(): return 1 case Blue(): if k == 1 { return 2 } }", "if k == 1 { if k == 2 { return 1 } } else { return 3 }", "if k == 1 { return 2 } else { if k == 2 { return 1 } }", "if k == 1 { return 2 } else { while k == 2 { return 1 } }",
        "if k == 1 { return 1 } else { return 2 } println(k)", "match Red() { case Red(): return 1 case Blue(): return 2 } println(k)", "f := fn() int { return 1 }", "f := fn() int { return 1 } f()", "if k == 1 { match Red() { case Red(): return 1 case Blue(): return 2 } }", "if k == 1 { return 1 } if k == 2 { return 2 } else { }"]


def endings(thorough):
    """functions which can end without returning: the line named is that of the head of the function, nothing in its body"""
    for b in OPEN:
        for hn, text in (("named", "‹fn bad(k: int) int {› %s }" % b), ("generic", "‹fn bad«T»(k: int, t: T) int {› %s }" % b), ("between", "fn ok(k: int) int { return k } ‹fn bad(k: int) int {› %s } fn ok2(k: int) int { if k == 1 { return k } elseif k == 2 { return 3 } else { return 4 } }" % b), ("two", "‹fn bad(k: int) int {› %s } ‹fn bad2(k: int) int {› %s }" % (b, b)),
                         ("anonymous", "fn out() { g := ‹fn(k: int) int {› %s } }" % b), ("argument", "fn out() { ap(‹fn(k: int) int {› %s }, fn(k: int) int { return k }) }" % b), ("in named", "fn out(k: int) int { g := ‹fn(k: int) int {› %s } return 1 }" % b)):
            toks, groups = marked(text)
            for nm, sep in (("lines", "\n"), ("blank", "\n\n"), ("comments", " // zzz\n"), ("crlf", "\r\n")):
                src, at = SPREADD, []
                for t in toks:
                    at.append(lines(src) + 1)
                    src += t + sep
                yield "endings|%s|%s|%s" % (hn, nm, b), src + "\nfn main() {\n}\n", [[at[i] for i in g] for g in groups], None


def spread(thorough):
    """every token on a line of its own, with and without more lines in between: the line named is that of the offending token"""
    for tab, top in ((SPREAD, False), (SPREADT, True)):
        for text in tab.strip().split("\n"):
            toks, groups = marked(text if top else "fn bad() { " + text + " }")
            for nm, sep in (("lines", "\n"), ("comments", " // zzz\n"), ("blank", "\n\n"), ("crlf", "\r\n"), ("many", "\n" * 7), ("comment lines", "\n// é\n\n"), ("indented", "\n            "), ("uneven", None)):
                src, at = SPREADD, []
                for i, t in enumerate(toks):
                    at.append(lines(src) + 1)
                    src += t + (sep if sep is not None else ("\n" * (i * 5 % 3) or " "))
                want = [[at[i] for i in g] for g in groups]
                yield "spread|%s|%s" % (nm, text), src + "\nfn main() {\n}\n", want, None


def wide(thorough):
    """an undeclared name behind every amount of text of characters of one to four bytes on its line"""
    ls = sorted(set(list(range(0, 12)) + [x + d for k in range(4, 17 if thorough else 14) for x in (1 << k,) for d in (-1, 0, 1)] + [100, 500, 600, 1000, 3000, 10000]))
    for n in ls:
        for w, ch in (("1", "a"), ("2", "é"), ("3", "€"), ("4", "\U0001F600"), ("mixed", "aé€\U0001F600")):
            t = (ch * n)[:n] if len(ch) > 1 else ch * n
            for p, pre in (("string", 'println("%s") ' % t), ("strings", 'println("%s") println("%s") ' % (t[:n // 2], t[n // 2:])), ("previous line", 'println("%s")\n' % t), ("raw newline", 'println("%s\n%s") ' % (t[:n // 2], t[n // 2:]))):
                yield item("wide|undeclared|%s|%d|%s" % (p, n, w), DCLS, "fn bad() {\n%sx := zzz\n}" % pre, 1 + pre.count("\n"))
        if n:
            for w, ch in (("1", "a"), ("2", "é"), ("3", "ぁ"), ("4", "\U00020000")):
                yield item("wide|undeclared|name|%d|%s" % (n, w), DCLS, "fn bad() {\n%s := 1 x := zzz\n}" % (ch * n), 1)
            yield item("wide|undeclared|spaces|%d" % n, DCLS, "fn bad() {\n%sx := zzz\n}" % (" " * n), 1)


def oneline(thorough):
    """several functions on one line, each with an error: none is lost"""
    ks = [k for k in STMT if "\n" not in STMT[k][0] and k not in ("overflow",)]
    for a, b in itertools.product(ks, repeat=2):
        src = DCLS + "fn bad1() { %s } fn bad2() { %s }\nfn bad3() { %s }\nfn main() {\n}\n" % (STMT[a][0], STMT[b][0], STMT[a][0])
        cols = src.split("\n")[3].index("fn bad2") + 1
        yield "one line|%s|%s" % (a, b), src, [(4, 1, cols - 1), (4, cols, 9999), (5, 1, 9999)], "columns"
    for n in range(2, 9):
        for k in ks:
            src, want, line = DCLS, [], ""
            for j in range(n):
                a = len(line) + 1
                line += "fn bad%d() { %s } " % (j, STMT[k][0])
                want.append((4, a, len(line)))
            yield "one line %d|%s" % (n, k), src + line + "\nfn main() {\n}\n", want, "columns"


def paths(c):
    """the file named by an error is the file at fault, whatever its path is like"""
    def one(it):
        key, rel, absolute = it
        d = c.tc.workdir()
        full = os.path.join(d, rel)
        try:
            os.makedirs(os.path.dirname(os.path.normpath(full)), exist_ok=True)
            if "/.." in rel:
                os.makedirs(os.path.join(d, rel[:rel.index("/..")]), exist_ok=True)
            with open(os.path.normpath(full), "w") as f:
                f.write("fn aa() {\n}\nfn main() {\nx := 1 + zzz\n}\n")
        except OSError:
            shutil.rmtree(d, ignore_errors=True)
            return
        os.mkdir(os.path.join(d, "o"))
        rc, o, e = run_proc([c.tc.clarac, "-install", core.REPO + "/install", "-prog", full if absolute else rel, "-out", os.path.join(d, "o")], 60, dict(c.tc.env, TMPDIR=d, MC_GCC="skip"), d)
        out = core.ANSI.sub("", (o + e).decode("utf-8", "replace"))
        named = re.findall(r"(\S+):(\d+):(\d+):", out)
        good = [n for n, l, k in named if (l, k) == ("4", "10") and os.path.exists(os.path.join(d, n)) and os.path.samefile(os.path.join(d, n), full)]
        shutil.rmtree(d, ignore_errors=True)
        if rc != 1 or len(named) != 1 or not good:
            c.violation(key, "the error is at %s:4:10, the compiler (exit %s) says:\n%s" % (rel, rc, out[-1500:]), "fn aa() {\n}\nfn main() {\nx := 1 + zzz\n}\n")
            return
        c.note("paths")
        c.count(key, 1, 1, {"key": key})

    items = []
    for n in list(range(1, 140)) + [150, 160, 180, 199, 200, 201, 240, 247, 248, 249]:
        items.append(("paths|name %d" % n, "n" * n + ".clara", n % 2 == 0))
    for n in list(range(1, 40)) + [60, 64, 80, 100, 128, 200]:
        items.append(("paths|depth %d" % n, "dd/" * n + "p.clara", n % 2 == 0))
        items.append(("paths|depth 9 %d" % n, "directory/" * n + "p.clara", n % 2 == 1))
    for a in (False, True):
        for nm in ("p.clara", "./p.clara", "././p.clara", "a/../p.clara", "a/b/../p.clara", "a//p.clara", "é.clara", "世界/𝄞.clara", "a.b/p.clara", "a.clara/p.clara", "p.q.clara", ".p.clara", "..p.clara", "-p/q.clara", "install/p.clara", "lib/string.clara", "string.clara", "lib/p.clara", "main.clara", "a-b/c_d.clara", "A/P.clara", "p.CLARA.clara", "1.clara", "0x1.clara", "clara.clara", "init/p.clara", "p+q.clara", "p,q.clara", "p=q.clara", "p@q.clara", "p%d.clara", "%s/%v.clara", "p~.clara", "#p.clara"):
            items.append(("paths|%s %s" % (nm, a), nm, a))
    c.map(one, items)


def main():
    c = Check("C13", "model_checking",
              "model: error kind -> line of its offending token. Explored: every error kind x every kind of preceding and surrounding layout (comments, blank lines, CRLF, strings with raw newlines, multi-byte text, declarations), every line offset, every enclosing construct, and all tuples of independent errors in separate functions",
              ["which token offends is fixed by constructing each case so that the whole construct at fault is on one line, except where a single name is at fault"])
    r = Runner(c)
    parts = [layouts(c.thorough), crlf(), ctx(), many(c.thorough), spread(c.thorough), endings(c.thorough), oneline(c.thorough), wide(c.thorough), multi(2, c.thorough)]
    if c.thorough:
        parts.append(multi(3, True))
    c.map(r.one, itertools.chain(*parts))
    paths(c)
    c.finish()
