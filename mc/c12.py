"""C12: every source text ends in an executable or in a located error."""
import itertools, threading
from core import Check, LOC, compile_src, done
import grammar

CORPUS = {
    "fns": """// comment
fn add(a: int, b: int) int = a + b
fn main() {
  x := add(1, -2) * 3
  println(x << 1)
  if x >= 2 and not (x == 4) { println("a\\n") } elseif x < 0 { return } else { x = ~x }
}
""",
    "loops": """fn main() {
  for i in 0 .. 3 { println(i / 2) }
  for s in ["x", "y"] { print(s) }
  k := 0
  while k < 2 or false { k = k + 1 }
}
""",
    "types": """struct pt«T» { x: T y: []int }
enum sh«T» { Circle(r: T, n: int) Nil() }
fn area(s: sh«int») int {
  match s {
    case Circle(r, n): return r * n
    case Nil(): return 0
  }
}
fn main() {
  p := Pt("q", [1, 2])
  p.y[0] = area(Circle(2, 3))
  println(p.y[0] + p.x.length)
}
""",
    "closures": """fn app(f: fn(int) int, x: int) int = f(x)
fn mk(k: int) fn(int) int {
  return fn(z: int) int = z + k
}
fn main() {
  k := 5
  f := fn(z: int) int { return z * k }
  println(f.app(2) | mk(3)(4))
  println(true ? Some(1).map(f).orElse(0) : None«int»().orElse(7))
}
""",
    "misc": """#[RawValues]
fn getpid() int
fn id«T»(t: T) T = t
fn f(a: option«pair«int, string»», b: [][]int) {}
fn main() {
  f(None«pair«int, string»»(), [[1], [0x1F]])
  println(id«int»(3) & 0xff ^ 2 >> 1)
  id("é").println()
}
""",
}
ALPHA = ["(", ")", "{", "}", "[", "]", "«", "»", ",", ":", ":=", "=", "==", ".", "..", "#", "?", "+", "-", "/", "~", "not", "and", "fn", "return", "if", "elseif", "else", "while", "for", "in", "struct", "enum", "match", "case", "type", "x", "f", "int", "1", '"s"', "true"]
CORE = ["(", ")", "{", "}", "[", "«", ",", ":", "=", ".", "-", "fn", "if", "case", "x", "1"]


def tokens(text):
    """tokens with the blanks in front of them; the remainder comes last"""
    toks = grammar.lex(text)
    out, pos = [], 0
    for k, t, line, off in toks:
        out.append((text[pos:off], t))
        pos = off + len(t)
    return out, text[pos:]


def join(toks, tail):
    return "".join(b + t for b, t in toks) + tail


class Runner:
    def __init__(self, c):
        self.c = c
        self.seen = set()
        self.lock = threading.Lock()

    def one(self, item):
        part, key, text = item
        raw = text if isinstance(text, bytes) else text.encode("utf-8")
        with self.lock:
            if raw in self.seen:
                return
            self.seen.add(raw)
        try:
            must_reject = not grammar.in_grammar(raw.decode("utf-8"))
        except UnicodeDecodeError:
            must_reject = False
        c = self.c
        comp = compile_src(c.tc, "", gcc="as", raw=raw, timeout=20)
        k, out, rc = comp.kind, comp.out, comp.rc
        done(comp)
        why = None
        if rc is None:
            why = "the compiler does not terminate"
        elif k == "ok":
            if must_reject:
                why = "accepted although the text is not a program of the language"
        elif k != "rejected" or not LOC.search(out):
            why = "neither an executable nor a located error: exit %s, %s" % (rc, out[:300] + " ... " + out[-700:])
        if why is None:
            c.note(part)
            c.count(part + "|" + key, 1, 2, {"part": part, "key": key, "text": raw.decode("utf-8", "replace")[:300], "verdict": k})
        else:
            c.violation("%s|%s" % (part, key), why, raw.decode("utf-8", "surrogateescape"))


def truncations(names):
    for n in names:
        raw = CORPUS[n].encode("utf-8")
        for i in range(len(raw) + 1):
            yield "truncation", "%s at %d" % (n, i), raw[:i]
        # cut off at the front as well
        toks, tail = tokens(CORPUS[n])
        for i in range(1, len(toks)):
            yield "suffix", "%s from token %d" % (n, i), join(toks[i:], tail)


def mutations(names, alpha, inserts):
    for n in names:
        toks, tail = tokens(CORPUS[n])
        for i in range(len(toks)):
            b, t = toks[i]
            yield "delete", "%s %d" % (n, i), join(toks[:i] + [(b or " ", "")] + toks[i + 1:], tail)
            yield "duplicate", "%s %d" % (n, i), join(toks[:i + 1] + [(" ", t)] + toks[i + 1:], tail)
            if i + 1 < len(toks):
                yield "swap", "%s %d" % (n, i), join(toks[:i] + [(b or " ", toks[i + 1][1]), (toks[i + 1][0] or " ", t + " ")] + toks[i + 2:], tail)
                yield "delete two", "%s %d" % (n, i), join(toks[:i] + toks[i + 2:], tail)
            for a in alpha:
                yield "replace", "%s %d %s" % (n, i, a), join(toks[:i] + [(b or " ", a + " ")] + toks[i + 1:], tail)
                if inserts:
                    yield "insert", "%s %d %s" % (n, i, a), join(toks[:i] + [(" ", a + " ")] + toks[i:], tail)


PHRASES = ["else { }", "elseif true { }", "case Some(v):", "case Nil():", ", 1", ", x", ": int", "«int»", "«»", "()", "(1)", "[0]", "{ }", "= 1", ":= 1", ".. 3", "? 1 : 2", ".x", ".f()", "#[RawValues]", "fn g() { }", "struct z { a: int }", "enum z { Zz() }", "return 1", "in a", "if true { }", "while false { }", "and true", "- 1", "fn() { }", "fn", ")(", "1 2", "\"s\"", "[]", "type(int)", ": :", ",,", "..", "=="]


def balanced(toks, i, most):
    """ends of the ranges starting at i whose brackets match"""
    depth, pairs = [], {"(": ")", "{": "}", "[": "]", "«": "»"}
    for j in range(i, min(len(toks), i + most)):
        t = toks[j][1]
        if t in pairs:
            depth.append(pairs[t])
        elif t in pairs.values():
            if not depth or depth.pop() != t:
                return
        if not depth:
            yield j + 1


def phrases(names, thorough):
    """whole phrases repeated, left out, exchanged with the phrase after them, and foreign phrases put in at every position"""
    for n in names:
        toks, tail = tokens(CORPUS[n])
        for i in range(len(toks)):
            for j in balanced(toks, i, 24 if thorough else 14):
                if j - i < 2:
                    continue
                yield "repeat phrase", "%s %d-%d" % (n, i, j), join(toks[:j] + [(" " + toks[i][0], toks[i][1])] + toks[i + 1:], tail)
                if j - i > 2:
                    yield "delete phrase", "%s %d-%d" % (n, i, j), join(toks[:i] + [(" ", "")] + toks[j:], tail)
                if thorough and j < len(toks):
                    for k in balanced(toks, j, 8):
                        yield "exchange phrases", "%s %d-%d-%d" % (n, i, j, k), join(toks[:i] + [(" ", "")] + toks[j:k] + [(" ", "")] + toks[i:j] + [(" ", "")] + toks[k:], tail)
            for p in PHRASES:
                yield "insert phrase", "%s %d %s" % (n, i, p), join(toks[:i] + [(" ", p + " ")] + toks[i:], tail)


def sequences(alpha, n, where):
    for seq in itertools.product(alpha, repeat=n):
        s = " ".join(seq)
        if where == "top":
            yield "top-level sequences", s, s + "\nfn main() {\n}\n"
        elif where == "end":
            yield "trailing sequences", s, "fn main() {\n}\n" + s
        elif where == "stmt":
            yield "statement sequences", s, "fn f(i: int) int = i\nfn main() {\nx := 1\n" + s + "\n}\n"
        elif where == "expr":
            yield "expression sequences", s, "fn f(i: int) int = i\nfn main() {\nx := 1\ny := " + s + "\n}\n"
        elif where == "type":
            yield "type sequences", s, "fn f(i: " + s + ") {}\nfn main() {\n}\n"
        elif where == "body":
            yield "declaration body sequences", s, "struct q { " + s + " }\nfn main() {\n}\n"
            yield "enum body sequences", s, "enum q { " + s + " }\nfn main() {\n}\n"
            yield "match body sequences", s, "fn main() {\nmatch Some(1) { " + s + " }\n}\n"


def attributes(n):
    """every short token sequence after a # at the top level, before a declaration and at the end of the source"""
    for k in range(0, n + 1):
        for seq in itertools.product(["[", "]", "Aa", ",", "#"], repeat=k):
            t = "#" + " ".join(seq)
            for nm, tail in (("end", ""), ("fn", "\nfn q() {}\n"), ("then main", None)):
                if tail is None:
                    if k < n:
                        yield "attributes", "%s %s" % (nm, t), t + "\nfn main() {\n}\n"
                elif nm == "end" or k <= 4:
                    yield "attributes", "%s %s" % (nm, t), "fn main() {\n}\n" + t + tail


TAILS = ["#[RawValues]\nfn labs(n: int) int\n", "#[ExtRet]\nfn q() { }\n", "#[Aa, Bb]\nstruct q { a: int b: []int }\n", "#[Aa]\nenum q { Qa() Qb(a: int, b: fn(int) int) }\n", "#[Aa, Bb, Cc]\nfn q«T, U»(t: T, u: option«U») T = t\n", "fn q(a: int) int {\nif a == 1 { return 2 } elseif a == 3 { return 4 } else { return 5 }\n}\n",
         "fn q() {\nfor i in 0 .. 3 { while true { match Some(i) {\ncase Some(x): return\ncase None():\n} } }\n}\n", "fn q() fn(int) []int = fn(i: int) []int = [i, -i, i * (2 + i)]\n", "struct q«T» { f: fn(T) option«T» g: []T }\n", "fn q() string = \"a // b\" // c\n", "fn q(a: fn(), b: fn(fn(int)) int) {\na()\nx := b(fn(k: int) { })\nx = x ? 1 : 2\n}\n"]


def tails():
    """main followed by a declaration of each form which is cut off after each of its tokens, with nothing, a line end, a comment or another complete declaration behind"""
    for i, t in enumerate(TAILS):
        toks, tail = tokens(t)
        for k in range(len(toks) + 1):
            cut = join(toks[:k], "")
            for j, after in enumerate(["", "\n", " // end", "\n// end\n\n", "\nstruct zz { a: int }\n", "\nfn zz() {}\n"]):
                yield "tails", "%d at %d then %d" % (i, k, j), "fn main() {\n}\n" + cut + after


def raw_bytes():
    """every byte at places of each lexical state"""
    for b in range(256):
        ch = bytes([b])
        for nm, pre, post in (("top", b"", b"fn main() {\n}\n"), ("end", b"fn main() {\n}\n", b""), ("in statement", b"fn main() {\nx := 1 ", b"\n}\n"), ("after identifier", b"fn main() {\nx", b" := 1\n}\n"), ("after number", b"fn main() {\nx := 1", b"\n}\n"),
                              ("in string", b"fn main() {\nx := \"a", b"b\"\n}\n"), ("escape", b"fn main() {\nx := \"a\\", b"b\"\n}\n"), ("in comment", b"fn main() {\n// a", b"b\n}\n"), ("before eof in comment", b"fn main() {\n}\n// a", b""), ("hex", b"fn main() {\nx := 0x", b"\n}\n"), ("identifier start", b"fn ", b"q() {\n}\nfn main() {\n}\n")):
            yield "bytes", "%s %d" % (nm, b), pre + ch + post
    for s in ("٣", "1٣", "0x٣", "é", "変数", "x変", "\u00a0", "\u2028", "\ufeff", "🙂", "²", "ª", "Ⅷ", "\u0301", "x\u0301"):
        for nm, pre, post in (("top", "", "fn main() {\n}\n"), ("value", "fn main() {\nx := ", "\n}\n"), ("name", "fn main() {\n", " := 1\n}\n"), ("fn name", "fn ", "() {\n}\nfn main() {\n}\n"), ("struct name", "struct ", " { a: int }\nfn main() {\n}\n"), ("enum name", "enum ", " { Zz() }\nfn main() {\n}\n"),
                              ("case name", "enum qz { ", "() }\nfn main() {\n}\n"), ("field", "struct qz { ", ": int }\nfn main() {\n}\n"), ("string", "fn main() {\nprintln(\"", "\")\n}\n"), ("comment", "// ", "\nfn main() {\n}\n"), ("type", "fn f(a: ", ") {}\nfn main() {\n}\n"), ("type param", "fn f«", "»(a: int) {}\nfn main() {\n}\n")):
            yield "unicode", "%s %s" % (nm, s.encode("unicode_escape").decode()), (pre + s + post)


def limits():
    """deep nesting and many of everything"""
    for n in (1, 2, 5, 6, 7, 8, 12, 40, 150):
        w = lambda b, d="": d + "fn main() {\n%s\n}\n" % b
        yield "limits", "paren %d" % n, w("x := " + "(" * n + "1" + ")" * n)
        yield "limits", "not %d" % n, w("x := " + "not " * n + "true")
        yield "limits", "neg %d" % n, w("x := " + "- " * n + "1")
        yield "limits", "array %d" % n, w("x := " + "[" * n + "1" + "]" * n)
        yield "limits", "array elements %d" % n, w("x := [" + ", ".join("1" for _ in range(n)) + "]")
        yield "limits", "index %d" % n, w("x := " + "[" * n + "1" + "]" * n + "[0]" * n)
        yield "limits", "sum %d" % n, w("x := " + " + ".join("1" for _ in range(n)))
        yield "limits", "sum right %d" % n, w("x := " + "1 + (" * n + "1" + ")" * n)
        yield "limits", "if %d" % n, w("if true {\n" * n + "}\n" * n)
        yield "limits", "elseif %d" % n, w("if true {\n}" + " elseif true {\n}" * n)
        yield "limits", "while %d" % n, w("while true {\n" * n + "}\n" * n)
        yield "limits", "for %d" % n, w("".join("for i%d in 0 .. 2 {\n" % k for k in range(n)) + "}\n" * n)
        yield "limits", "match %d" % n, w("".join("match Some(1) {\ncase None():\ncase Some(v%d):\n" % k for k in range(n)) + "}\n" * n)
        yield "limits", "call %d" % n, w("x := " + "f(" * n + "1" + ")" * n, "fn f(a: int) int = a\n")
        yield "limits", "dots %d" % n, w("x := 1" + ".f()" * n, "fn f(a: int) int = a\n")
        yield "limits", "closures %d" % n, w("x := " + "fn() int { return 1 + (".replace("1 + (", "") * 0 + "fn() int = 1")
        yield "limits", "nested closures %d" % n, w("".join("f%d := fn() {\n" % k for k in range(n)) + "}\n" * n)
        yield "limits", "ternary %d" % n, w("x := " + "true ? 1 : " * n + "2")
        yield "limits", "locals %d" % n, w("".join("x%d := %d\n" % (k, k) for k in range(n)))
        yield "limits", "strings %d" % n, w("".join("println(\"s%d\")\n" % k for k in range(n)))
        yield "limits", "args %d" % n, w("f(" + ", ".join("1" for _ in range(n)) + ")", "fn f(" + ", ".join("a%d: int" % k for k in range(n)) + ") {}\n")
        yield "limits", "printf args %d" % n, w("printf(\"x\"" + ", 1" * n + ")")
        yield "limits", "anon args %d" % n, w("f := fn(" + ", ".join("a%d: int" % k for k in range(n)) + ") { }\nf(" + ", ".join("1" for _ in range(n)) + ")")
        yield "limits", "fn value args %d" % n, w("g := f\ng(" + ", ".join("1" for _ in range(n)) + ")", "fn f(" + ", ".join("a%d: int" % k for k in range(n)) + ") {}\n")
        yield "limits", "fields %d" % n, w("x := S(" + ", ".join("1" for _ in range(n)) + ")", "struct s { " + " ".join("a%d: int" % k for k in range(n)) + " }\n")
        yield "limits", "cases %d" % n, w("", "enum s { " + " ".join("A%d()" % k for k in range(n)) + " }\n")
        yield "limits", "case args %d" % n, w("x := A(" + ", ".join("1" for _ in range(n)) + ")", "enum s { A(" + ", ".join("a%d: int" % k for k in range(n)) + ") }\n")
        yield "limits", "captures %d" % n, w("".join("x%d := %d\n" % (k, k) for k in range(n)) + "f := fn() int = " + " + ".join("x%d" % k for k in range(n)))
        yield "limits", "type depth %d" % n, w("", "fn f(a: " + "option«" * n + "int" + "»" * n + ") {}\n")
        yield "limits", "array type depth %d" % n, w("", "fn f(a: " + "[]" * n + "int) {}\n")
        yield "limits", "fn type depth %d" % n, w("", "fn f(a: " + "fn(" * n + "int" + ")" * n + ") {}\n")
        yield "limits", "type params %d" % n, w("f(1)", "fn f«" + ", ".join("T%d" % k for k in range(n)) + "»(a: int) {}\n")
        yield "limits", "name length %d" % n, w("x%s := 1\nprintln(x%s)\n" % ("y" * n * 10, "y" * n * 10))
        yield "limits", "overloads %d" % n, w("f(1)", "".join("fn f(a: %sint) {}\n" % ("[]" * k) for k in range(min(n, 12))))
        yield "limits", "functions %d" % n, w("", "".join("fn f%d() {}\n" % k for k in range(n)))
        yield "limits", "integer digits %d" % n, w("x := " + "9" * n)
        yield "limits", "hex digits %d" % n, w("x := 0x" + "f" * n)
        yield "limits", "zeros %d" % n, w("x := " + "0" * n + "7")
        yield "limits", "unclosed parens %d" % n, w("x := " + "(" * n + "1")
        yield "limits", "unclosed braces %d" % n, w("if true {\n" * n)
        yield "limits", "extra braces %d" % n, w("}\n" * n)
    for nm, s in (("empty", ""), ("blank", " \n \n"), ("comment only", "// x"), ("no main", "fn f() {}\n"), ("main with parameter", "fn main(a: int) {}\n"), ("two mains", "fn main() {}\nfn main() {}\n"), ("generic main", "fn main«T»() {}\n"), ("struct main", "struct main { a: int }\n"), ("extern only attr", "#[RawValues]\n"), ("attr on struct", "#[Foo]\nstruct q { a: int }\nfn main() {}\n"),
                  ("recursive struct", "struct q { a: q }\nfn main() {}\n"), ("mutually recursive", "struct q { a: r }\nstruct r { a: q }\nfn main() {}\n"), ("recursive generic", "struct q«T» { a: option«q«T»» }\nfn main() {}\n"), ("recursive array", "struct q { a: []q }\nfn main() {}\n"), ("recursive enum", "enum q { Aa(a: q) Bb() }\nfn main() {}\n"), ("growing generic", "struct q«T» { a: option«q«option«T»»» }\nfn main() {}\n"),
                  ("recursive fn type", "struct q { a: fn(q) q }\nfn main() {}\n"), ("empty struct", "struct q { }\nfn main() {}\n"), ("empty enum", "enum q { }\nfn main() {}\n"), ("empty match", "enum q { Aa() }\nfn f(q: q) {\nmatch q {\n}\n}\nfn main() {}\n"), ("empty type params", "fn f«»() {}\nfn main() {}\n"), ("nul", "\0"), ("bom", "\ufefffn main() {}\n"), ("crlf", "fn main() {\r\n  println(1)\r\n}\r\n"), ("cr", "fn main() {\r  println(1)\r}\r")):
        yield "limits", nm, s


SEM = {  # mutations of one construct at a time that stay syntactically correct: values of every kind in every place
    "values": ["1", "\"s\"", "true", "x", "f", "main", "S", "Aa", "s", "int", "option", "[1]", "fn() int = 1", "Some(1)", "None«int»()", "S(1)", "Aa()", "s.a", "a[0]", "a.length", "f(1)", "f()", "g", "g(1)", "s.f", "s.h(1)", "type(int)", "zzz", "(1)", "-1", "not true", "1 + 1", "x == 1", "true ? 1 : 2", "h", "h(1)", "println", "println(1)", "printf", "unsafe", "unsafe(1, 0, type(int))", "getRuntime()", "o", "gc", "T", "printf(\"\")", "debug", "Some", "[]", "[S(1)]", "s.h", "aa", "aa[0]", "a[0][0]", "o.orElse", "x.f", "x.f()", "s.zz", "s.zz()", "x()", "\"s\"()", "1()", "[1]()", "fn() int { return 1 }", "fn(a: int) int = x + a"],
    "places": ["Z", "y := Z", "x = Z", "Z = 1", "Z := 1", "Z()", "Z(1)", "f(Z)", "g(Z)", "println(Z)", "y := Z + 1", "y := 1 + Z", "y := Z == Z", "y := Z and true", "y := not Z", "y := -Z", "y := ~Z", "y := Z[0]", "y := a[Z]", "y := [Z]", "y := [1, Z]", "y := Z.length", "y := Z.a", "y := Z.f()", "y := Z.f", "s.a = Z", "a[0] = Z", "a[Z] = 1", "if Z { }", "while Z { }", "for i in Z { }", "for i in Z { println(i) }", "for i in Z .. 3 { }", "for i in 0 .. Z { j := i }",
               "match Z { }", "match Z {\ncase Aa():\ncase Bb(v): k := v\n}", "match Z {\ncase Some(v): k := v\ncase None():\n}", "return Z", "y := Z ? 1 : 2", "y := true ? Z : Z", "y := true ? 1 : Z", "y := fn() int = Z", "y := fn() int { return Z }", "y := fn() { Z }", "y := S(Z)", "y := Some(Z)", "y := Some«int»(Z)", "y := Z«int»(1)", "y := Z«int»()", "printf(\"%d\", Z)", "y := (Z)(1)", "y := unsafe(Z, 0, type(int))", "y := [fn() int = Z]", "for i in [Z] { k := i }", "y := Pair(Z, Z)\nk := y.first", "y := toList([Z])", "y := array(2, Z)", "y := Z\ny = Z\nk := fn() { y = Z }"],
}
SEMD = "struct s { a: int f: fn() int }\nenum en { Aa() Bb(v: int) }\nfn f(a: int) int = a\nfn g(a: int) int = a\nfn g(a: string) int = 1\nfn t«T»(t: T) T = t\n"


def semantic(values, places):
    d = "struct s { a: int }\nenum en { Aa() Bb(v: int) }\nfn f(a: int) int = a\nfn g(a: int) int = a\nfn g(a: string) int = 1\nfn t«T»(t: T) T = t\n"
    for v in values:
        for p in places:
            yield "semantic", "%s <- %s" % (p, v), d + "fn w(x: int, a: []int, aa: [][]int, s: s, o: option«int») {\nh := fn(q: int) int = q + x\n%s\n}\nfn main() {\n}\n" % p.replace("Z", v)


def constants(thorough):
    """operators applied to literals only, in every place an expression can stand; nothing of it is ever executed"""
    big = (1 << 62) - 1
    lits = ["0", "1", "-1", "2", "3", "7", "62", "63", "64", "65", "-63", "-64", str(big), "-%d" % big, "(-%d - 1)" % big, "4294967296", "x"]
    ops = ["+", "-", "*", "/", "&", "|", "^", "<<", ">>", "==", "<", "<=", ">", ">="]
    places = ["v := Z", "println(Z)", "y = Z", "a[0] = Z", "v := a[Z]", "v := [Z]", "return Z", "v := fn() int = Z", "v := b ? Z : Z", "for i in 0 .. Z { }", "for i in Z .. 0 { }", "for i in Z .. Z { }", "v := f(Z)", "v := (Z).f()", "v := -(Z)", "v := ~(Z)", "v := Some(Z)", "v := 1 + Z", "v := Z - 1", "if Z == 1 { }", "while Z > 1 { }"]
    d = "fn f(a: int) int = a\n"
    for op in ops:
        cmp = op in ("==", "<", "<=", ">", ">=")
        for l in lits:
            es = ["%s %s %s" % (l, op, r) for r in lits]
            yield "constants", "%s %s _" % (l, op), d + "fn w(x: int, b: bool) {\n%s\n}\nfn main() { }\n" % "\n".join("v%d := %s" % (k, e) for k, e in enumerate(es))
            yield "constants", "w = %s %s _" % (l, op), d + "fn w(x: int, b: bool) {\n%s\n}\nfn main() { }\n" % "\n".join("if %s { }\nwhile %s { }\nv%d := (%s) ? 1 : 2" % (c, c, k, c) for k, e in enumerate(es) for c in [e if cmp else "(%s) == 1" % e])
        if cmp:
            continue
        for l, r in itertools.product(["0", "1", "-1", str(big), "64"] if not thorough else lits, repeat=2):
            yield "constants", "placed %s %s %s" % (l, op, r), d + "".join("fn w%d(x: int, y: int, a: []int, b: bool) %s {\n%s\n}\n" % (k, "int" if "return" in p else "", p.replace("Z", "%s %s %s" % (l, op, r)) if "1 + Z" not in p and "Z - 1" not in p else p.replace("Z", "(%s %s %s)" % (l, op, r))) for k, p in enumerate(places)) + "fn main() { }\n"
        for l, r in itertools.product(["0", "1", "-1", str(big)], repeat=2):
            es = [f % (l, op, r, o2, t) for o2 in ops[:9] for t in ("0", "1", "-1", "64", str(big)) for f in ("(%s %s %s) %s %s", "%s %s (%s %s %s)", "-(%s %s %s) %s %s", "%s %s -(%s) %s %s", "~(%s %s %s) %s %s")]
            yield "constants", "nested %s %s %s" % (l, op, r), d + "fn w(x: int) {\n%s\n}\nfn main() { }\n" % "\n".join("v%d := %s" % (k, e) for k, e in enumerate(es))
    for t in ("true", "false"):
        for u in ("true", "false", "b"):
            es = ["%s and %s" % (t, u), "%s or %s" % (t, u), "not %s or %s" % (t, u), "(%s ? %s : %s)" % (t, u, t)]
            yield "constants", "bool %s %s" % (t, u), "fn w(b: bool) {\n%s\n}\nfn main() { }\n" % "\n".join("if %s { } elseif %s { } else { }\nwhile %s { }\nv%d := %s ? 1 : 2" % (e, e, e, k, e) for k, e in enumerate(es))


def scale(n):
    """(name, source, printed lines): n of everything a program can have many of, with the value it must have"""
    J = lambda f, sep="": sep.join(f(i) for i in range(n))
    mid = sorted({0, 1 % n, n // 2, 127 % n, 128 % n, 255 % n, 256 % n, n - 1})
    yield "int variables", "fn main() {\n" + J(lambda i: "v%d := %d\n" % (i, i * 7)) + "".join("println(v%d)\n" % i for i in mid) + "}\n", [i * 7 for i in mid]
    yield "string variables", "fn main() {\n" + J(lambda i: "v%d := \"%d\"\n" % (i, i)) + "x := \"h\".append(\"e\")\ny := [x.append(\"ap\")]\ngc()\n" + "".join("println(v%d)\n" % i for i in mid) + "println(x)\nprintln(y[0])\n}\n", list(mid) + ["he", "heap"]
    if n <= 2000:
        yield "heap variables", "fn main() {\n" + J(lambda i: "v%d := [%d]\n" % (i, i)) + "gc()\n" + "".join("println(v%d[0])\n" % i for i in mid) + "}\n", mid
        yield "struct types", J(lambda i: "struct s%d { a: %s b: []int }\n" % (i, "int" if i % 2 else "string")) + "fn main() {\n" + "".join("v%d := S%d(%s, [%d])\n" % (i, i, "1" if i % 2 else '"x".append("y")', i) for i in mid) + "gc()\n" + "".join("println(v%d.b[0])\nprintln(v%d.a)\n" % (i, i) for i in mid) + "}\n", [x for i in mid for x in (i, 1 if i % 2 else "xy")]
        yield "enum cases", "enum e {\n" + J(lambda i: "C%d(a: %s)\n" % (i, "int" if i % 2 else "[]string")) + "}\nfn f(x: e) string {\nmatch x {\n" + J(lambda i: "case C%d(a): return %s\n" % (i, 'a.toString().append(" %d")' % i if i % 2 else 'a[0].append(" %d")' % i)) + "}\n}\nfn main() {\n" + "".join("v%d := C%d(%s)\n" % (i, i, "5" if i % 2 else '["h".append("p")]') for i in mid) + "gc()\n" + "".join("println(f(v%d))\n" % i for i in mid) + "}\n", ["%s %d" % ("5" if i % 2 else "hp", i) for i in mid]
        yield "closures", "fn main() {\nx := [1]\n" + J(lambda i: "f%d := fn(a: int) int = a + x[0] + %d\n" % (i, i)) + "gc()\n" + "".join("println(f%d(1))\n" % i for i in mid) + "}\n", [i + 2 for i in mid]
        yield "generic instances", J(lambda i: "struct s%d { a: int }\n" % i) + "fn id«T»(t: T) T = t\nfn main() {\n" + "".join("println(Some(id(S%d(%d))).map(fn(s: s%d) int = s.a).orElse(0 - 1))\n" % (i, i, i) for i in range(min(n, 300))) + "}\n", range(min(n, 300))
        yield "elseif", "fn f(a: int) int {\n" + J(lambda i: ("if" if i == 0 else "elseif") + " a == %d {\nreturn %d\n} " % (i, i * 2)) + "\nreturn -1\n}\nfn main() {\n" + "".join("println(f(%d))\n" % i for i in mid + [n]) + "}\n", [i * 2 for i in mid] + [-1]
        yield "ternaries", "fn f(a: int) int = " + J(lambda i: "a == %d ? %d : " % (i, i * 3)) + "-1\nfn main() {\n" + "".join("println(f(%d))\n" % i for i in mid + [n]) + "}\n", [i * 3 for i in mid] + [-1]
        yield "nested calls", "fn ad(a: int, b: int) int = a + b\nfn main() {\nprintln(" + "ad(1, " * n + "0" + ")" * n + ")\nprintln(" + "ad(" * n + "0" + ", 1)" * n + ")\n}\n", [n, n]
        yield "dot chain", "fn inc(a: int) int = a + 1\nfn main() {\nprintln(0" + ".inc()" * n + ")\n}\n", [n]
        yield "string appends", "fn main() {\nprintln(\"\"" + J(lambda i: '.append("%d")' % (i % 10)) + ")\n}\n", ["".join(str(i % 10) for i in range(n))]
    yield "functions", J(lambda i: "fn f%d(a: int) int = a + %d\n" % (i, i)) + "fn main() {\n" + "".join("println(f%d(1))\n" % i for i in mid) + "}\n", [i + 1 for i in mid]
    yield "literals", "fn main() {\n" + J(lambda i: "println(\"l%d\")\n" % i) + "}\n", ["l%d" % i for i in range(n)]
    yield "array literal", "fn main() {\na := [" + J(str, ", ") + "]\nprintln(a.length)\n" + "".join("println(a[%d])\n" % i for i in mid) + "}\n", [n] + mid
    yield "string literal", "fn main() {\ns := \"" + "xyz" * n + "\"\nprintln(s.length)\nprintln(s)\n}\n", [3 * n, "xyz" * n]
    yield "nested blocks", "fn main() {\nx := 0\n" + "if true {\n" * n + "x = x + 1\n" + "}\nx = x + 1\n" * n + "println(x)\n}\n", [n + 1]
    yield "parentheses", "fn main() {\nprintln(" + "(" * n + "1" + ")" * n + ")\nprintln(" + "1 - (" * n + "0" + ")" * n + ")\n}\n", [1, n % 2]
    yield "terms", "fn main() {\nprintln(0" + J(lambda i: " + %d" % i) + ")\n}\n", [n * (n - 1) // 2]
    yield "statements", "fn main() {\nx := 0\n" + J(lambda i: "x = x + %d\n" % i) + "println(x)\n}\n", [n * (n - 1) // 2]
    yield "name length", "fn f%s(a%s: int) int = a%s\nfn main() {\nprintln(f%s(3))\n}\n" % (("q" * n,) * 4), [3]
    yield "blank lines", "\n" * n + "fn main() {\n" + "\n" * n + "println(4)\n}" + "\n" * n, [4]
    yield "comments", "// é comment\n" * n + "fn main() {\nprintln(4) // x\n}\n", [4]


def main():
    c = Check("C12", "model_checking",
              "model: a reference recogniser of the grammar (lexer and parser written independently); a text outside the language must be rejected with a located error, any other text must end in a located error or in assembly that assembles. "
              "Explored: every truncation point, every single-token deletion, duplication, swap, replacement and insertion of a corpus, all short token sequences at each syntactic level, every byte in each lexical state, every value form in every place, size limits",
              ["the compiler runs up to and including the assembler; linking of the result is covered by the other checks"])
    r = Runner(c)
    names = list(CORPUS)
    parts = [truncations(names if c.thorough else ["fns", "types", "closures", "misc"]), raw_bytes(), tails(), attributes(5 if c.thorough else 4), limits(), constants(c.thorough),
             semantic(SEM["values"], SEM["places"]), mutations(names, ALPHA if c.thorough else CORE, c.thorough), phrases(names, c.thorough),
             sequences(ALPHA, 1, "top"), sequences(ALPHA, 1, "end"), sequences(ALPHA, 2, "stmt"), sequences(ALPHA, 1, "expr"), sequences(ALPHA, 1, "type"), sequences(ALPHA, 1, "body"), sequences(CORE, 2, "top"), sequences(CORE, 2, "type"), sequences(CORE, 2, "expr"), sequences(CORE, 2, "end")]
    if c.thorough:
        parts += [sequences(ALPHA, 2, w) for w in ("top", "end", "expr", "type", "body")] + [sequences(ALPHA, 3, "stmt"), sequences(CORE, 3, "expr"), sequences(CORE, 3, "type"), sequences(CORE, 3, "top"), sequences(CORE, 3, "body"), sequences(CORE, 3, "end")]
    sizes = [1, 7, 33, 129, 260, 600] + ([1500, 5000, 9000] if c.thorough else [])
    big = [("int variables", 4500), ("string variables", 9000)]
    c.drive("scale", [("%s: %d" % (nm, n), src, (lambda key=nm, ls=ls: ((key if k == 0 else None, str(l), 1) for k, l in enumerate(ls))))
                      for n in sizes for nm, src, ls in scale(n)] +
            [("%s: %d" % (nm, n), src, (lambda key=nm, ls=ls: ((key if k == 0 else None, str(l), 1) for k, l in enumerate(ls))))
             for want, n in big for nm, src, ls in scale(n) if nm == want])
    c.map(r.one, itertools.chain(*parts))
    c.finish()
