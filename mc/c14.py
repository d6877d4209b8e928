"""C14: string literals denote exactly their bytes; layout never changes meaning."""
import itertools
from core import Case, Check, compile_src, done, run_bin
import grammar
from c12 import tokens

SHOW = "fn show@(s: string) {\nprintln(s.length)\ni := 0\nwhile i < s.length {\nprintf(\"%d \", s.byte(i))\ni = i + 1\n}\nprintf(\"\\n\")\n}\n"
ESC = {b"\n": "\\n", b"\r": "\\r", b"\\": "\\\\", b"\"": "\\\""}


def sx(b):
    return b - 256 if b >= 128 else b


def expect(data):
    return [str(len(data)), "".join("%d " % sx(b) for b in data)]


def src(pieces):
    """pieces: (source text, bytes denoted)"""
    return '"' + "".join(p[0] for p in pieces) + '"', b"".join(p[1] for p in pieces)


def raw(b):
    t = bytes([b]).decode("utf-8", "surrogateescape")
    return ("@@" if t == "@" else t), bytes([b])


def text(t):
    return t.replace("@", "@@"), t.encode()


# places in a program where a literal can stand: decls, setup, expression
def places(l):
    yield "arg", "", "", l
    yield "local", "", "v := %s\n" % l, "v"
    yield "assigned", "", "v := \"\"\nv = %s\n" % l, "v"
    yield "returned", "fn r@() string = %s\n" % l, "", "r@()"
    yield "returned stmt", "fn r@() string {\nreturn %s\n}\n" % l, "", "r@()"
    yield "element", "", "v := [\"x\", %s, \"y\"]\n" % l, "v[1]"
    yield "field", "struct h@ { a: int s: string }\n", "v := H@(1, %s)\n" % l, "v.s"
    yield "field assigned", "struct h@ { a: int s: string }\n", "v := H@(1, \"\")\nv.s = %s\n" % l, "v.s"
    yield "payload", "", "v := Some(%s)\n" % l, "v.orElse(\"\")"
    yield "closure", "", "v := fn() string = %s\n" % l, "v()"
    yield "ternary", "", "k := 1\n", "(k == 1 ? %s : \"\")" % l
    yield "dot", "", "", "%s.append(\"\")" % l
    yield "generic", "fn id@«T»(t: T) T = t\n", "", "id@(%s)" % l
    yield "loop", "", "v := \"\"\nfor s in [%s] {\nv = s\n}\n" % l, "v"
    yield "match", "", "v := \"\"\nmatch Some(%s) {\ncase Some(s): v = s\ncase None():\n}\n" % l, "v"
    yield "twice", "", "w := %s\nv := %s\n" % (l, l), "v"


def lit(key, pieces, where="arg"):
    l, data = src(pieces)
    for n, d, s, e in places(l):
        if where in (n, "all"):
            yield Case("%s|%s" % (key, n), SHOW + d, s + "show@(%s)" % e, expect(data))


A = text("a")


def literals(thorough):
    for b in range(256):
        if b in (34, 92):
            continue
        p = raw(b)
        for n, ps in (("alone", [p]), ("first", [p, A]), ("last", [A, p]), ("middle", [A, p, text("7")]), ("double", [p, p]), ("before digit", [p, text("0")]), ("before escape", [p, (ESC[b"\n"], b"\n")]), ("after escape", [(ESC[b"\\"], b"\\"), p])):
            yield from lit("byte %d %s" % (b, n), ps, "all" if n == "middle" and (thorough or b < 32 or b > 126 or b in b"%'$@#{}`\\?/") else "arg")
    for d, e in ESC.items():
        yield from lit("escape %r" % d, [(e, d)], "all")
        yield from lit("escape in text %r" % d, [A, (e, d), A], "all")
    pieces = [(e, d) for d, e in ESC.items()] + [text(t) for t in ("a", "n", "r", "0", "7", "x41", "%", "%d", "%s", "'", "//", " ", "é", "世", "{", "u00e9", "t", "@", "#", "/*", "$", "??/")] + [raw(b) for b in (0, 10, 13, 9, 27, 127, 128, 255, 0xC3)]
    core = pieces[:10] + [raw(0), raw(10), raw(128), text("é"), text("//")]
    yield from lit("empty", [], "all")
    for n in (2,):
        for ps in itertools.product(range(len(pieces)), repeat=n):
            yield from lit("pieces " + ",".join(map(str, ps)), [pieces[i] for i in ps])
    for ps in itertools.product(range(len(core)), repeat=3):
        yield from lit("core " + ",".join(map(str, ps)), [core[i] for i in ps])
    if thorough:
        for ps in itertools.product(range(len(pieces)), repeat=3):
            yield from lit("pieces " + ",".join(map(str, ps)), [pieces[i] for i in ps])
        four = [pieces[i] for i in (0, 2, 3, 5, 7, 9)] + [raw(0), text("é")]
        for ps in itertools.product(range(len(four)), repeat=4):
            yield from lit("four " + ",".join(map(str, ps)), [four[i] for i in ps])
        for a in range(256):
            for b in range(256):
                if a not in (34, 92) and b not in (34, 92):
                    if a == b == 64:
                        continue
                    yield from lit("bytes %d %d" % (a, b), [raw(a), raw(b)])


def lengths(thorough):
    for n in [0, 1, 2, 7, 8, 9, 63, 64, 127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 4097] + ([65535, 65536, 65537, 100000] if thorough else [16384]):
        for nm, p in (("a", A), ("escape", (ESC[b"\\"], b"\\")), ("nul", raw(0)), ("high", raw(255)), ("utf8", text("é"))):
            ps = [p] * n
            l, data = src(ps)
            d = "fn sum@(s: string) int {\nk := 0\ni := 0\nwhile i < s.length {\nk = ((k * 31) + s.byte(i)) & 0xFFFFFF\ni = i + 1\n}\nreturn k\n}\n"
            k = 0
            for b in data:
                k = (k * 31 + sx(b)) & 0xFFFFFF
            yield Case("length %d %s" % (n, nm), d, "s := %s\nprintln(s.length)\nprintln(sum@(s))" % l, [str(len(data)), str(k)])


def identity():
    """literals differing in one byte stay distinct, equal ones are equal"""
    ps = [(e, d) for d, e in ESC.items()] + [text(t) for t in ("", "a", "b", "aa", "n", "\\\\n".replace("\\\\", "")) if True] + [raw(0), raw(128), raw(129), text("é"), ("\\\\n", b"\\n"), ("\\\\\\\\", b"\\\\"), ("a" + raw(0)[0], b"a\0"), (raw(0)[0] + "a", b"\0a"), ("a" + raw(0)[0] + "b", b"a\0b"), ("a" + raw(0)[0] + "c", b"a\0c")]
    for a, b in itertools.product(ps, repeat=2):
        yield Case("equal %r %r" % (a, b), "", "println(\"%s\".Equals(\"%s\"))" % (a[0], b[0]), ["true" if a[1] == b[1] else "false"])


def variants(n):
    """texts of about n bytes any two of which are easily confused"""
    base = ("abcdefghijklmnopqrstuvwxyz" * (n // 26 + 1))[:n]
    out = {"base": base}
    for nm, i in (("first", 0), ("middle", n // 2), ("last", n - 1)):
        out["upper " + nm] = base[:i] + base[i].upper() + base[i + 1:]
        out["digit " + nm] = base[:i] + "7" + base[i + 1:]
        out["space " + nm] = base[:i] + " " + base[i + 1:]
        out["nul " + nm] = base[:i] + "\0" + base[i + 1:]
        out["high " + nm] = base[:i] + "\udc80" + base[i + 1:]
        out["high2 " + nm] = base[:i] + "\udc81" + base[i + 1:]
        out["dropped " + nm] = base[:i] + base[i + 1:]
        out["doubled " + nm] = base[:i] + base[i] + base[i:]
    out["upper"] = base.upper()
    out["prefixed"] = " " + base
    out["suffixed"] = base + " "
    out["nul suffixed"] = base + "\0"
    out["newline suffixed"] = base + "\n"
    out["newline prefixed"] = "\n" + base
    out["quoted"] = "\"" + base + "\""
    out["backslash suffixed"] = base + "\\"
    out["backslashes suffixed"] = base + "\\\\"
    out["reversed"] = base[::-1]
    out["rotated"] = base[1:] + base[:1]
    out["twice"] = base + base
    out["empty"] = ""
    return out


def quote(t):
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("@", "@@") + '"'


def confusable(thorough):
    """all pairs of near-equal literals, and all of them together, keep their own bytes"""
    d = "fn sum@(s: string) int {\nk := 7\ni := 0\nwhile i < s.length {\nk = ((k * 31) + s.byte(i)) & 0xFFFFFF\ni = i + 1\n}\nreturn k\n}\n"

    def h(t):
        k = 7
        for b in t.encode("utf-8", "surrogateescape"):
            k = (k * 31 + sx(b)) & 0xFFFFFF
        return str(k)
    for n in (1, 2, 3, 4, 7, 8, 9, 12, 13, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300) + ((1000, 1023, 1024, 1025, 4096, 5000) if thorough else (1024,)):
        vs = variants(n)
        names = list(vs)
        for order in (names, names[::-1]):
            yield Case("confusable all %d %s" % (n, order[0]), d, "\n".join("println(%s.length)\nprintln(sum@(%s))" % (quote(vs[x]), quote(vs[x])) for x in order),
                       [y for x in order for y in (str(len(vs[x].encode("utf-8", "surrogateescape"))), h(vs[x]))])
        if n <= 33 or thorough and n < 300:
            for a, b in itertools.permutations(names, 2):
                yield Case("confusable %d %s / %s" % (n, a, b), d, "x := %s\ny := %s\nprintln(sum@(x))\nprintln(sum@(y))\nprintln(x.Equals(y))" % (quote(vs[a]), quote(vs[b])), [h(vs[a]), h(vs[b]), "true" if vs[a] == vs[b] else "false"])


def twins(thorough):
    """Literals of one program equal but for a single piece, at every place of the literal, keep their own bytes."""
    ps = [(e, d) for d, e in ESC.items()] + [text(t) for t in ("a", "n", "r", " ", "0", "é", "e", "\\\\n".replace("\\", "")) if t] + [raw(b) for b in (0, 10, 13, 9, 32, 127, 128, 255)] + [("", b""), ("\\\\n", b"\\n"), ("\\\\\"".replace("\"", "\\\""), b'\\"'), ("\\\\r", b"\\r")]
    for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 15, 16, 23, 31) + ((32, 47, 63, 64, 127) if thorough else ()):
        base = ("abcdefgh" * 16)[:n]
        for i in range(n + 1) if thorough or n <= 8 else sorted({0, 1, 3, n // 2, n - 3, n - 1, n}):
            for rev in (False, True):
                ls = [src([text(base[:i]), p, text(base[i:])]) for p in (ps[::-1] if rev else ps)]
                b = "".join("x%d := %s\n" % (k, l) for k, (l, _) in enumerate(ls))
                yield Case("twins %d at %d%s" % (n, i, " reversed" if rev else ""), SHOW, b + "".join("show@(x%d)\n" % k for k in range(len(ls))), [y for _, data in ls for y in expect(data)])
    # every ordered pair, each with a text of its own before or behind so that no other literal of the program is a twin
    k = 0
    for (x, y), shape in itertools.product(itertools.permutations(ps, 2), ("last", "first", "middle", "alone in text", "two")):
        k += 1
        t = text("%05dabc" % k)
        pre, post = {"last": ([t], []), "first": ([], [t]), "middle": ([t], [t]), "alone in text": ([text(" "), t, text(" ")], [text(" ")]), "two": ([t, y], [])}[shape]
        ls = [src(pre + [p] + post) for p in (x, y)]
        yield Case("twins %s %r %r" % (shape, x, y), SHOW, "x := %s\ny := %s\nshow@(x)\nshow@(y)" % (ls[0][0], ls[1][0]), [z for _, data in ls for z in expect(data)])


# ------------------------------------------------------------------------------------------ layout
CORPUS = [
    ("arith", "fn fΩ(a: int, b: int) int = (a + b) * 2 - a / b\nfn runΩ() {\n  x := fΩ(7, -2)\n  y := -x + ~x\n  println(x << 1)\n  println(y & 0xff | 3 ^ x >> 1)\n  println(x * -1 - -y)\n}\n", ["26", "229", "-40"]),
    ("flow", "fn runΩ() {\n  k := 0\n  while k < 3 and true { k = k + 1 }\n  if k == 3 or not true { println(\"three\") } elseif k > 3 { println(\"more\") } else { println(\"less\") }\n  for i in 0 .. k { if i >= 1 { println(i) } }\n  for i in 2 .. 0 { println(i) }\n  for s in [\"x // y\", \"z\"] { println(s) }\n  println(k <= 2 ? 1 : k == 3 ? 20 : 30)\n}\n", ["three", "1", "2", "1", "0", "x // y", "z", "20"]),
    ("types", "struct pΩ«T» {\n  a: T\n  b: []int\n}\nenum eΩ«T» {\n  ArΩ(v: T, n: int)\n  NoΩ()\n}\nfn areaΩ(s: eΩ«int») int {\n  match s {\n    case ArΩ(v, n): return v * n\n    case NoΩ(): return 0\n  }\n}\nfn runΩ() {\n  p := PΩ(\"q\", [1, 2, 3])\n  p.b[1] = areaΩ(ArΩ(2, 4))\n  println(p.b[1] + p.a.length)\n  println(areaΩ(NoΩ«int»()))\n}\n", ["9", "0"]),
    ("closures", "fn appΩ(f: fn(int) int, x: int) int = f(x)\nfn mkΩ(k: int) fn(int) int {\n  return fn(z: int) int = z + k\n}\nfn nilΩ(f: fn()) { f() }\nfn runΩ() {\n  k := 5\n  g := fn(z: int) int { return z * k }\n  println(g.appΩ(2))\n  println(mkΩ(3)(4))\n  nilΩ(fn() { println(k) })\n  println(true ? Some(1).map(g).orElse(0) : None«int»().orElse(7))\n  h := [fn() int = 1, fn() int = -2]\n  println(h[1]())\n}\n", ["10", "7", "5", "5", "-2"]),
    ("misc", "fn idΩ«T»(t: T) T = t\nfn fΩ(a: option«pair«int, string»», b: [][]int) int = b[1][0]\nfn runΩ() {\n  println(fΩ(None«pair«int, string»»(), [[1], [0x1F]]))\n  println(idΩ«int»(3) + idΩ([4, 5])[1])\n  \"é\".println()\n  a := [1, 2]\n  a[0] = a[1] - 3\n  println(a[0])\n  println(a.length)\n}\n", ["31", "8", "é", "-1", "2"]),
]
FILLERS = {"space": " ", "spaces": "   ", "lf": "\n", "lfs": "\n\n\n", "crlf": "\r\n", "cr": "\r", "comment": "// c\n", "space comment": " // \"é } (\n", "crlf comment": "// c\r\n", "cr comment": "// c\r", "cr comments": "\r// a // b\r//\r", "indent": "\n    ", "two comments": "\n// a\n // b\n"}


def same(a, b):
    try:
        return [(k, t) for k, t, *_ in grammar.lex(a)] == [(k, t) for k, t, *_ in grammar.lex(b)]
    except grammar.Bad:
        return False


def layout(thorough):
    for name, prog, exp in CORPUS:
        toks, tail = tokens(prog)
        n = len(toks)

        def variant(key, gaps):
            t = "".join(g + tok for g, (_, tok) in zip(gaps, toks)) + tail
            if not same(t, prog):  # a comment right behind a division
                return
            yield Case("%s|%s" % (name, key), t.replace("Ω", "@"), "run@()", exp)

        base = [g for g, _ in toks]

        def alt(i, f):
            g = list(base)
            g[i] = f
            return g
        yield from variant("base", base)
        removable = []
        for i in range(n):
            if base[i] != "" and same("".join(g + tok for g, (_, tok) in zip(alt(i, ""), toks)) + tail, prog):
                removable.append(i)
                yield from variant("gap %d none" % i, alt(i, ""))
            for fn, f in FILLERS.items():
                if i == 0 and fn == "zz":
                    continue
                yield from variant("gap %d %s" % (i, fn), alt(i, f))
        for fn, f in FILLERS.items():
            yield from variant("all " + fn, [f] * n)
            yield from variant("spaced " + fn, [f if g else "" for g in base])
            for k in (2, 3):
                for o in range(k):
                    yield from variant("every %d from %d %s" % (k, o, fn), [f if i % k == o else base[i] for i in range(n)])
        g = list(base)
        for i in removable:
            h = list(g)
            h[i] = ""
            if same("".join(x + tok for x, (_, tok) in zip(h, toks)) + tail, prog):
                g = h
        yield from variant("tight", g)
        fs = list(FILLERS.items())
        for (f1, a), (f2, b) in itertools.permutations(fs, 2):
            yield from variant("alternating %s %s" % (f1, f2), [a if i % 2 else b for i in range(n)])
        if thorough:
            for i in range(n - 1):
                for (f1, a), (f2, b) in itertools.product(fs, repeat=2):
                    g = list(base)
                    g[i], g[i + 1] = a, b
                    yield from variant("gaps %d %s %s" % (i, f1, f2), g)
            for i, j in itertools.combinations(range(n), 2):
                for f1, a in fs[2:8:3]:
                    g = list(base)
                    g[i] = g[j] = a
                    yield from variant("two gaps %d %d %s" % (i, j, f1), g)


def comments(thorough):
    """comments of every content: they end where their line ends, and nowhere else"""
    chars = [chr(k) for k in range(32, 127)] + ["é", "世", "𝄞", "«", "»"]
    esc = lambda t: t.replace("@", "@@")
    words = ["\\n", "\\r\\n", "/*", "*/", "//", "///", "\\\\", "\\", '"', '\\"', '"a', "'", "#[", "]", "{", "}", "case Some(v):", "return", "fn x() {", "\\u000a", "\\x0a", "%n", "<!--", "-->", "#", "--", "(*", "*)", "go:build", "line 3", "\\\\\\", "\\ ", " \\"]
    texts = chars + [a + b for a in chars for b in (chars if thorough else ["\\", "/", "*", '"', "a", " ", "'", "}", "n"])] + [a + b for a in ("\\", "/", "*", '"', " ") for b in chars] + words + [a + " " + b for a in words for b in words]
    texts = list(dict.fromkeys(texts))
    for nm, tpl in (("after", "println(%d) //T\n"), ("own line", "//T\nprintln(%d)\n"), ("inside", "println(//T\n%d //T\n)\n"), ("spaced", "println(%d)// T\n"), ("crlf", "println(%d) // xT\r\n")):
        for k in range(0, len(texts), 120):
            ch = texts[k:k + 120]
            yield Case("comments %s %d" % (nm, k), "", "".join((tpl % j).replace("T", esc(t)) for j, t in enumerate(ch)), [str(j) for j in range(len(ch))])


def runs(thorough):
    """runs of one filler and comments of every length round the powers of two"""
    ls = sorted(set(list(range(1, 10)) + [(1 << k) + d for k in range(4, 17) for d in (-1, 0, 1)] + [100, 1000, 2500, 5000, 10000]))
    F = {"spaces": (lambda n: " " * n, 1 << 17), "lf": (lambda n: "\n" * n, 4100), "crlf": (lambda n: "\r\n" * n, 1100), "comments": (lambda n: "//\n" * n, 1100), "lf spaces": (lambda n: "\n" + " " * n, 1 << 17), "trailing": (lambda n: " " * n + "\n", 1 << 17),
         "comment": (lambda n: "//" + "-" * n + " println(9)\n", 1 << 17), "wide comment": (lambda n: "//" + "é" * n + " println(9)\n", 1 << 16), "words": (lambda n: "//" + "} x " * (n // 4) + "\n", 1 << 17)}
    for n in ls:
        for k, (f, top) in F.items():
            if n > top or (n > 5000 and not thorough and "spaces" not in k and k != "comment"):
                continue
            t = f(n)
            yield Case("run %s %d" % (k, n), "fn w@(%sn: int)%sint {%sreturn%sn%s}\n" % (t, t, t, t, t) if n < 5000 else "fn w@(n: int) int = n\n", "println(1)%sprintln(%sw@(2) +%s1)\nx := %s4%s\nprintln(x)" % ((t + "\n",) + (t,) * 4), ["1", "3", "4"])


HEAD = {"none": "", "lf": "\n", "spaces": "   ", "comment": "// c\n", "crlf": "\r\n", "comments": "// a\n\n// b\r\n"}
TAIL = {"none": "", "lf": "\n", "spaces": "   ", "comment": "// c\n", "open comment": "// c", "spaced comment": "\n  // c", "crlf": "\r\n", "cr": "\r", "empty comment": "//", "lone slashes": "\n//"}


class Files:
    """whole files: beginnings, ends and line endings"""

    def __init__(self, c):
        self.c = c

    def one(self, it):
        key, src, exp = it
        comp = compile_src(self.c.tc, src)
        try:
            if comp.kind != "ok":
                return self.c.violation(key, "the compiler must accept this file: exit %s %s" % (comp.rc, comp.out[-800:]), src)
            rc, o, e = run_bin(comp)
        finally:
            done(comp)
        if rc != 0 or o.decode() != "".join(x + "\n" for x in exp):
            return self.c.violation(key, "expected %r, got exit %s %r" % (exp, rc, o), src)
        self.c.note("files")
        self.c.count("files|" + key, len(exp), len(exp) + 1, {"key": key, "source": src[-300:], "expect": exp})

    def items(self, thorough):
        for name, prog, exp in CORPUS:
            p = prog.replace("Ω", "") + "fn main() { run() }"
            for e, f in (("lf", "\n"), ("crlf", "\r\n"), ("cr", "\r"), ("space", " ")):
                if f != " ":  # a comment at the end of every line
                    for cn, cm in (("comments", " // c"), ("empty comments", "//"), ("quoted comments", " // \"é } ("), ("between", f + "// c")):
                        yield "%s|%s|%s" % (name, e, cn), cm.strip() + f + p.replace("\n", cm + f) + cm, exp
                q = p.replace("\n", f)
                for (hn, h), (tn, t) in itertools.product(HEAD.items(), TAIL.items()):
                    if thorough or hn == "none" or tn == "none":
                        yield "%s|%s|%s|%s" % (name, e, hn, tn), h + q + t, exp


def main():
    c = Check("C14", "model_checking",
              "model: bytes denoted by a literal (reference escape table) and token sequence of a text (reference lexer). Explored: every byte and escape in every position of a literal and every literal place, all sequences of the piece alphabet up to the bound, lengths across powers of two; every gap of a corpus covering the syntax x every filler, uniform, alternating and tight layouts, every file beginning, end and line ending",
              ["texts with equal token sequences are the layouts of a program; the language has no tabs"])
    c.run_cases("literals", literals(c.thorough), batch=400)
    c.run_cases("lengths", lengths(c.thorough), batch=10)
    c.run_cases("identity", identity(), batch=300)
    c.run_cases("confusable", confusable(c.thorough), batch=300)
    c.run_cases("twins", twins(c.thorough), batch=300)
    c.run_cases("comments", comments(c.thorough), batch=4)
    c.run_cases("runs", runs(c.thorough), batch=3)
    c.run_cases("layout", layout(c.thorough), batch=100)
    f = Files(c)
    c.map(f.one, f.items(c.thorough))
    c.finish()
