"""C03: delivery of arguments and results for every kind of call, argument count, position and argument expression."""
import itertools, os, re, subprocess
import c16
from core import Case, Check
from lang import wrap, tdiv

PRIMES = [1, 31, 1009, 65537, 10000019, 4294967311]


def poly(vs):
    return wrap(sum(p * v for p, v in zip(PRIMES, vs)))


def pdecl(n):
    return ", ".join("p%d: int" % i for i in range(n))


def pexpr(n):
    return " + ".join(["0"] + ["(p%d * %d)" % (i, PRIMES[i]) for i in range(n)])


def ext_values(r, ft, J):
    """an external function as a value"""
    yield "ext-%s-var" % r, 0, 5, lambda n: "", lambda n: "g := mc%s%d\n" % (r, n), lambda n, a: "g(%s)" % J(a), "", ""
    yield "ext-%s-param" % r, 0, 5, lambda n: "", lambda n: "", lambda n, a: "g(%s)" % J(a), lambda n: "g: " + ft(n), lambda n: "mc%s%d" % (r, n)
    yield "ext-%s-field" % r, 0, 5, lambda n: "struct h@ { q: int g: %s }\n" % ft(n), lambda n: "o := H@(5, mc%s%d)\n" % (r, n), lambda n, a: "o.g(%s)" % J(a), "", ""
    yield "ext-%s-elem" % r, 0, 5, lambda n: "fn f@(%s) int = %s\n" % (pdecl(n), pexpr(n)), lambda n: "gs := [f@, mc%s%d, f@]\n" % (r, n), lambda n, a: "gs[1](%s)" % J(a), "", ""
    yield "ext-%s-result" % r, 0, 5, lambda n: "fn mk@() %s = mc%s%d\n" % (ft(n), r, n), lambda n: "", lambda n, a: "mk@()(%s)" % J(a), "", ""
    yield "ext-%s-captured" % r, 0, 4, lambda n: "", lambda n: "ef := mc%s%d\ng := fn(%s) int = ef(%s)\n" % (r, n, pdecl(n), J("p%d" % i for i in range(n))), lambda n, a: "g(%s)" % J(a), "", ""
    yield "ext-%s-ternary" % r, 0, 5, lambda n: "fn f@(%s) int = -1\n" % pdecl(n), lambda n: "", lambda n, a: "(l1 == 7 ? mc%s%d : f@)(%s)" % (r, n, J(a)), "", ""


# kind -> (max args, declarations(n), host setup(n), call(n, args) -> source, host parameters, host arguments)
def kinds():
    ft = lambda n: "fn(" + ", ".join(["int"] * n) + ") int"
    anon = lambda n: "fn(%s) int = %s" % (pdecl(n), pexpr(n))
    J = ", ".join
    yield "named", 0, 6, lambda n: "fn f@(%s) int { return %s }\n" % (pdecl(n), pexpr(n)), lambda n: "", lambda n, a: "f@(%s)" % J(a), "", ""
    yield "exprfn", 0, 6, lambda n: "fn f@(%s) int = %s\n" % (pdecl(n), pexpr(n)), lambda n: "", lambda n, a: "f@(%s)" % J(a), "", ""
    yield "dot", 1, 6, lambda n: "fn f@(%s) int = %s\n" % (pdecl(n), pexpr(n)), lambda n: "", lambda n, a: "(%s).f@(%s)" % (a[0], J(a[1:])), "", ""
    yield "var-named", 0, 5, lambda n: "fn f@(%s) int = %s\n" % (pdecl(n), pexpr(n)), lambda n: "g := f@\n", lambda n, a: "g(%s)" % J(a), "", ""
    yield "var-anon", 0, 5, lambda n: "", lambda n: "g := %s\n" % anon(n), lambda n, a: "g(%s)" % J(a), "", ""
    yield "closure", 0, 5, lambda n: "", lambda n: "zero := l1 - 7\nthirty := l4 + 19\ng := fn(%s) int { return %s + zero + (thirty - 30) }\n" % (pdecl(n), pexpr(n)), lambda n, a: "g(%s)" % J(a), "", ""
    yield "param", 0, 5, lambda n: "fn f@(%s) int = %s\n" % (pdecl(n), pexpr(n)), lambda n: "", lambda n, a: "g(%s)" % J(a), lambda n: "g: " + ft(n), lambda n: "f@"
    yield "param-anon", 0, 5, lambda n: "", lambda n: "", lambda n, a: "g(%s)" % J(a), lambda n: "g: " + ft(n), lambda n: anon(n)
    yield "field", 0, 5, lambda n: "struct h@ { q: int g: %s }\nfn f@(%s) int = %s\n" % (ft(n), pdecl(n), pexpr(n)), lambda n: "o := H@(5, f@)\n", lambda n, a: "o.g(%s)" % J(a), "", ""
    yield "field-closure", 0, 5, lambda n: "struct h@ { q: int g: %s }\n" % ft(n), lambda n: "zero := l1 - 7\no := H@(5, fn(%s) int = %s + zero)\n" % (pdecl(n), pexpr(n)), lambda n, a: "o.g(%s)" % J(a), "", ""
    yield "elem", 0, 5, lambda n: "fn f@(%s) int = %s\n" % (pdecl(n), pexpr(n)), lambda n: "gs := [f@, f@]\n", lambda n, a: "gs[1](%s)" % J(a), "", ""
    yield "result", 0, 5, lambda n: "fn mk@(z: int) %s { return fn(%s) int = %s + z }\n" % (ft(n), pdecl(n), pexpr(n)), lambda n: "", lambda n, a: "mk@(0)(%s)" % J(a), "", ""
    yield "dot-result", 0, 5, lambda n: "fn mk@(z: int, y: int) %s { return fn(%s) int = %s + z + y }\n" % (ft(n), pdecl(n), pexpr(n)), lambda n: "", lambda n, a: "0.mk@(0)(%s)" % J(a), "", ""
    yield "literal-block", 0, 5, lambda n: "", lambda n: "", lambda n, a: "(fn(%s) int { return %s })(%s)" % (pdecl(n), pexpr(n), J(a)), "", ""
    yield "literal-expr", 0, 5, lambda n: "", lambda n: "zero := l1 - 7\n", lambda n, a: "(fn(%s) int = %s + zero)(%s)" % (pdecl(n), pexpr(n), J(a)), "", ""
    yield "ternary", 0, 5, lambda n: "fn f@(%s) int = %s\nfn fz@(%s) int = 0\n" % (pdecl(n), pexpr(n), pdecl(n)), lambda n: "", lambda n, a: "(l1 == 7 ? f@ : fz@)(%s)" % J(a), "", ""
    yield "struct", 1, 6, lambda n: "struct h@ { %s }\nfn sum@(o: h@) int = %s\n" % (" ".join("p%d: int" % i for i in range(n)), " + ".join(["0"] + ["(o.p%d * %d)" % (i, PRIMES[i]) for i in range(n)])), lambda n: "", lambda n, a: "sum@(H@(%s))" % J(a), "", ""
    yield "enum", 0, 5, lambda n: "enum h@ { A@() B@(%s) C@(z: int) }\nfn sum@(o: h@) int {\nmatch o {\ncase A@(): return -1\ncase B@(%s): return %s\ncase C@(z): return -2\n}\n}\n" % (pdecl(n), J("p%d" % i for i in range(n)), pexpr(n)), lambda n: "", lambda n, a: "sum@(B@(%s))" % J(a), "", ""
    yield "generic", 1, 6, lambda n: "fn f@«T»(%s) T = p%d\nfn w@(%s) int = %s\n" % (J("p%d: T" % i for i in range(n)), n - 1, pdecl(n), J([]) + pexpr(n)), lambda n: "", lambda n, a: "w@(%s)" % J("f@(%s)" % J([a[i]] * n) for i in range(n)) if n <= 2 else "w@(%s)" % J(["f@(%s)" % J([str(k) for k in range(n - 1)] + [a[i]]) for i in range(n)]), "", ""
    yield "recursive", 1, 5, lambda n: "fn f@(d: int, %s) int {\nx := d * 3\nif d == 0 { return %s }\nr := f@(d - 1, %s)\nreturn x == d * 3 ? r : -99\n}\n" % (pdecl(n), pexpr(n), J("p%d" % i for i in range(n))), lambda n: "", lambda n, a: "f@(4, %s)" % J(a), "", ""
    yield "recursive-rot", 1, 5, lambda n: "fn f@(d: int, %s) int {\nif d == 0 { return %s }\nreturn f@(d - 1, %s)\n}\n" % (pdecl(n), pexpr(n), J("p%d" % ((i + 1) % n) for i in range(n))), lambda n: "", lambda n, a: "f@(%d, %s)" % (n * 2, J(a)), "", ""
    # supplied by C (mc/ext.c), with raw and with tagged values
    yield "ext-raw", 0, 6, lambda n: "", lambda n: "", lambda n, a: "mcr%d(%s)" % (n, J(a)), "", ""
    yield "ext-tag", 0, 6, lambda n: "", lambda n: "", lambda n, a: "mct%d(%s)" % (n, J(a)), "", ""
    yield "ext-raw-dot", 1, 6, lambda n: "", lambda n: "", lambda n, a: "(%s).mcr%d(%s)" % (a[0], n, J(a[1:])), "", ""
    yield "ext-in-fn", 0, 6, lambda n: "fn f@(%s) int = mcr%d(%s)\n" % (pdecl(n), n, J("p%d" % i for i in range(n))), lambda n: "", lambda n, a: "f@(%s)" % J(a), "", ""
    for r in "rt":
        yield from ext_values(r, ft, J)


EXT = "".join("#[RawValues]\nfn mcr%d(%s) int\nfn mct%d(%s) int\n" % (n, pdecl(n), n, pdecl(n)) for n in range(7)) + """#[RawValues]
fn mcsi(s: string, n: int) int
#[RawValues]
fn mcis(n: int, s: string) int
#[RawValues]
fn mcai(a: []int, n: int) int
#[RawValues]
fn mcmix(x: int, s: string, a: []int, n: int, t: string, y: int) int
"""


HOST = {"l1": 7, "l2": 96, "l3": 5, "l4": 11, "l5": -40, "l6": 2}
ZDECL = """struct zs@ { u: int v: int }
enum ze@ { Za@(x: int) Zb@(x: int, y: int) }
fn z6@(a: int, b: int, c: int, d: int, e: int, f: int) int = a + (b * 10) + (c * 100) + (d * 1000) + (e * 10000) + (f * 100000)
fn zinc@(a: int) int = a + 1
fn zfac@(n: int) int { if n < 2 { return 1 }
return n * zfac@(n - 1) }
fn zm@(e: ze@) int {
match e {
case Za@(x): return x
case Zb@(x, y): return x * y
}
}
fn zid@«T»(t: T) T = t
fn zs3@(a: string, b: zs@, c: int) int = a.length + b.v + c
"""
ZSETUP = "".join("%s := %d\n" % kv for kv in HOST.items()) + """za := [4, 8, 15, 16]
zo := Zs@(23, 42)
zt := "hello"
zc := fn(x: int) int = (x * 2) + l3
"""
ZOO = [("7", 7), ("-3", -3), ("l1", 7), ("l5", -40), ("l2 / l3", 19), ("l5 / 7", -5), ("l2 << l6", 384), ("l2 >> l6", 24), ("1 << l3", 32), ("l2 * l4", 1056), ("l2 - l4", 85),
       ("z6@(1, 2, 3, 4, 5, 6)", 654321), ("z6@(l1, l2 / l3, l6, l2 >> 5, 0, l3)", 7 + 190 + 200 + 3000 + 500000), ("zc(l4)", 27), ("za[2]", 15), ("za[l4 / l3]", 15), ("zo.v", 42),
       ("l1 > 2 ? l2 / 3 : 6", 32), ("l1 < 2 ? 5 : zinc@(l4)", 12), ("l1.zinc@()", 8), ("zt.length", 5), ("[1, 2, 3].length", 3), ("Zs@(1, l4).v", 11), ("zfac@(6)", 720),
       ("zt.byte(1)", 101), ("zm@(Zb@(l1, l3))", 35), ("zid@(l2)", 96), ("zs3@(\"ab\", Zs@(0, l1), l2 / 2)", 2 + 7 + 48), ("~l2", -97), ("l2 & l4 | 1", (96 & 11) | 1),
       ("[l1, l2 / 4][1]", 24), ("(l2 / 5) / (l4 / l3)", 9), ("zc(zc(l6 / 2))", 2 * 7 + 5), ("\"x\".append(zt).length", 6), ("(1 << l6) << (l4 / 5)", 16),
       ("mcr0()", 0), ("mcr1(l2)", 96), ("mct0() + l3", 5), ("mct2(l1, l2 / l3)", 7 + 19 * 31), ("mcr2(l5, mcr0() + 1)", -40 + 31)]


def kind_cases(thorough):
    zoo = ZOO
    for name, lo, hi, decl, setup, call, hp, ha in kinds():
        for n in range(lo, hi + 1):
            plans = []
            defaults = [(str(100 + i), 100 + i) for i in range(n)]
            # one interesting argument in each position; two of them in each pair of positions
            for i in range(n):
                plans.append([{i: z} for z in zoo])
            full = n == hi or n == 2 or thorough
            if full:
                for i, j in itertools.combinations(range(n), 2):
                    if thorough or j == i + 1 or n <= 3:
                        plans.append([{i: a, j: b} for a in zoo for b in zoo])
                    else:
                        plans.append([{i: zoo[k], j: zoo[(k * 7 + 3) % len(zoo)]} for k in range(len(zoo))])
            # all positions interesting at once
            plans.append([{i: zoo[(s + i * (s % 5 + 1)) % len(zoo)] for i in range(n)} for s in range(len(zoo))])
            for pi, plan in enumerate(plans):
                lines, exp = [], []
                for k in range(0, len(plan), 60):
                    chunk = plan[k:k + 60]
                    lines, exp = [], []
                    for a in chunk:
                        args = [a.get(i, defaults[i]) for i in range(n)]
                        lines.append("println(%s)" % call(n, [x[0] for x in args]))
                        exp.append(str(poly([x[1] for x in args])))
                    lines.append("".join("println(%s)\n" % l for l in HOST) + "println(za[3])\nprintln(zo.u)\nprintln(zt)\nprintln(zc(1))")
                    exp += [str(v) for v in HOST.values()] + ["16", "23", "hello", "7"]
                    d = ZDECL + decl(n)
                    if hp:
                        d += "fn host@(%s) {\n%s%s%s\n}\n" % (hp(n), ZSETUP, setup(n), "\n".join(lines))
                        body = "host@(%s)" % ha(n)
                    else:
                        body = ZSETUP + setup(n) + "\n".join(lines)
                    yield Case("kind %s n=%d plan=%d/%d" % (name, n, pi, k), d, body, exp)


# ---- argument and result types
TYPES = {"int": ("int", lambda k: str(1000 + k), lambda v: v, lambda k: 1000 + k),
         "bool": ("bool", lambda k: "true" if k % 2 else "false", lambda v: "(%s ? 1 : 2)" % v, lambda k: 1 if k % 2 else 2),
         "string": ("string", lambda k: '"%s"' % ("abcdefghij"[:k + 1]), lambda v: "(%s.length + %s.byte(0))" % (v, v), lambda k: k + 1 + 97),
         "struct": ("ts@", lambda k: "Ts@(%d, %d)" % (k, k * 3 + 1), lambda v: "((%s.u * 100) + %s.v)" % (v, v), lambda k: k * 100 + k * 3 + 1),
         "ints": ("[]int", lambda k: "[%d, %d]" % (k, k + 5), lambda v: "((%s[0] * 50) + %s[1])" % (v, v), lambda k: k * 50 + k + 5),
         "strs": ("[]string", lambda k: '["%s", "q"]' % ("x" * (k + 1)), lambda v: "((%s[0].length * 7) + %s.length)" % (v, v), lambda k: (k + 1) * 7 + 2),
         "fn": ("fn(int) int", lambda k: "fn(x: int) int = x + %d" % k, lambda v: "%s(20)" % v, lambda k: 20 + k),
         "enum": ("te@", lambda k: "Ta@(%d)" % k if k % 2 else "Tb@(\"zz\", %d)" % k, lambda v: "ti@(%s)" % v, lambda k: k + 11 if k % 2 else k + 24),
         "gen": ("option«int»", lambda k: "Some(%d)" % k, lambda v: "%s.orElse(0)" % v, lambda k: k)}
TDECL = """struct ts@ { u: int v: int }
enum te@ { Ta@(n: int) Tb@(s: string, n: int) }
fn ti@(e: te@) int {
match e {
case Ta@(n): return n + 11
case Tb@(s, n): return n + s.length + 22
}
}
"""


def typed(thorough):
    T = list(TYPES)
    vecs = [v for n in range(1, 4) for v in itertools.product(T, repeat=n)]
    for n in (4, 5, 6):
        for i, j in itertools.combinations(range(n), 2):
            for a, b in itertools.product(T, repeat=2):
                v = ["int"] * n
                v[i], v[j] = a, b
                vecs.append(tuple(v))
        for s in range(len(T)):
            for st in (1, 2, 4):
                vecs.append(tuple(T[(s + i * st) % len(T)] for i in range(n)))
    seen = set()
    for v in vecs:
        if v in seen:
            continue
        seen.add(v)
        n = len(v)
        params = ", ".join("p%d: %s" % (i, TYPES[t][0]) for i, t in enumerate(v))
        expr = " + ".join("(%s * %d)" % (TYPES[t][2]("p%d" % i), PRIMES[i]) for i, t in enumerate(v))
        val = poly([TYPES[t][3](i + 1) for i, t in enumerate(v)])
        args = [TYPES[t][1](i + 1) for i, t in enumerate(v)]
        d = TDECL + "fn f@(%s) int {\nreturn %s\n}\n" % (params, expr)
        body = "println(f@(%s))\n" % ", ".join(args)
        exp = [str(val)]
        pre = "".join("a%d := %s\n" % (i, a) for i, a in enumerate(args))
        body += pre + "println(f@(%s))\n" % ", ".join("a%d" % i for i in range(n)) + "println(%s)\n" % expr.replace("p", "a")
        exp += [str(val)] * 2
        if n <= 5 and (thorough or n <= 2 or n == 5):
            body += "g := f@\nprintln(g(%s))\n" % ", ".join(args)
            exp.append(str(val))
            body += "z := %d\nh := fn(%s) int { return z - %d + %s }\nprintln(h(%s))\n" % (n, params, n, expr, ", ".join("a%d" % i for i in range(n)))
            exp.append(str(val))
        if v[0] != "fn":
            body += "println(a0.f@(%s))\n" % ", ".join("a%d" % i for i in range(1, n))
            exp.append(str(val))
        # constructors
        d += "struct k@ { %s }\n" % " ".join("p%d: %s" % (i, TYPES[t][0]) for i, t in enumerate(v))
        body += "k := K@(%s)\n" % ", ".join(args)
        for i, t in enumerate(v):
            body += "k%d := k.p%d\n" % (i, i)
        body += "println(%s)\n" % expr.replace("p", "k")
        exp.append(str(val))
        if n <= 5:
            d += "enum n@ { No@() Yes@(%s) }\nfn m@(e: n@) int {\nmatch e {\ncase No@(): return -1\ncase Yes@(%s): return %s\n}\n}\n" % (
                params, ", ".join("p%d" % i for i in range(n)), expr)
            body += "println(m@(Yes@(%s)))\nprintln(m@(No@()))\n" % ", ".join(args)
            exp += [str(val), "-1"]
        yield Case("types " + ",".join(v), d, body, exp)
    for t, (ty, lit, toi, val) in TYPES.items():
        use = lambda e: "r%d := %s\nprintln(%s)\n" % (len(lines), e, toi("r%d" % len(lines)))
        d = TDECL + "fn f@(a: int, b: int) %s { return a < b ? %s : %s }\nfn e@() %s = %s\nstruct w@ { g: fn(int, int) %s }\nfn mk@() fn(int, int) %s = f@\nfn rec@(n: int) %s { if n == 0 { return %s }\nreturn rec@(n - 1) }\n" % (
            ty, lit(3), lit(4), ty, lit(5), ty, ty, ty, lit(6))
        lines = []
        for e in ("f@(1, 2)", "f@(2, 1)", "e@()", "W@(f@).g(1, 2)", "mk@()(2, 1)", "1.f@(2)", "[f@][0](1, 2)", "rec@(5)", "c1()", "c2(1)"):
            lines.append(use(e))
        vals = [3, 4, 5, 3, 4, 3, 3, 6, 7, 8]
        yield Case("result " + t, d, "v7 := %s\nc1 := fn() %s = v7\nc2 := fn(q: int) %s { return %s }\n" % (lit(7), ty, ty, lit(8)) + "".join(lines), [str(val(k)) for k in vals])


def external():
    """Calls of C functions with every kind of raw value, and with every number of values pending when they are called."""
    def sv(t):
        r = 0
        for b in t.encode():
            r = r * 31 + b
        return r

    def av(a, r=0):
        for x in a:
            r = r * 31 + x
        return r
    strs = [("\"\"", ""), ("\"a\"", "a"), ("s1", "hello"), ("\"hel\".append(s2)", "helzü"), ("ss[1]", "qq"), ("H@(s1, 3).t", "hello"), ("12345.toString()", "12345")]
    arrs = [("[5]", [5]), ("a1", [4, -8, 15]), ("[l1, l1 / 2, -l1]", [7, 3, -7]), ("b1", [0, 0, 9])]
    ints = [("0", 0), ("l1", 7), ("-3", -3), ("mcr1(l1)", 7), ("mct1(4) + mcr0()", 4), ("a1[1]", -8)]
    d = "struct h@ { t: string n: int }\n"
    su = "l1 := 7\ns1 := \"hello\"\ns2 := \"zü\"\nss := [\"p\", \"qq\"]\na1 := [4, -8, 15]\nb1 := intArray(3)\nb1[2] = 9\n"
    chk = "println(l1)\nprintln(s1)\nprintln(a1[1])"
    rest = ["7", "hello", "-8"]
    for (se, s), (ie, n) in itertools.product(strs, ints):
        yield Case("ext si values %s %s" % (se, ie), d, su + "f := mcsi\ngs := [mcis]\nprintln(f(%s, %s))\nprintln(gs[0](%s, %s))\n%s" % (se, ie, ie, se, chk), [str(wrap(sv(s) + 7 * n))] * 2 + rest)
        yield Case("ext si %s %s" % (se, ie), d, su + "println(mcsi(%s, %s))\nprintln(mcis(%s, %s))\nprintln((%s).mcsi(%s))\n%s" % (se, ie, ie, se, se, ie, chk), [str(wrap(sv(s) + 7 * n))] * 3 + rest)
    for (ae, a), (be, b) in itertools.product(arrs, repeat=2):
        yield Case("ext ai values %s %s" % (ae, be), d, su + "f := mcai\nprintln(f(%s, %d) + (f(%s, %d) * 3))\n%s" % (ae, len(a), be, len(b), chk), [str(wrap(av(a) + 3 * av(b)))] + rest)
        yield Case("ext ai %s %s" % (ae, be), d, su + "println(mcai(%s, %d) + (mcai(%s, %d) * 3))\n%s" % (ae, len(a), be, len(b), chk), [str(wrap(av(a) + 3 * av(b)))] + rest)
    for (se, s), (te, t), (ae, a), (ie, n) in itertools.product(strs, strs, arrs, ints):
        yield Case("ext mix %s %s %s %s" % (se, te, ae, ie), d, su + "println(mcmix(%s, %s, %s, %d, %s, %s))\n%s" % (ie, se, ae, len(a), te, ie, chk),
                   [str(wrap(av(a, sv(s) * 3 + sv(t) * 5) + n * 24))] + rest)
    # p parameters and v locals in the caller, k values pending on the stack
    for p, v, k in itertools.product(range(7), range(8), range(7)):
        ps = ", ".join("p%d: int" % i for i in range(p))
        loc = "".join("v%d := %d\n" % (i, 20 + i) for i in range(v))
        e = "mcr2(5, 6)"
        for i in range(k):
            e = "%d + (%s)" % (i + 1, e)
        val = 5 + 6 * 31 + sum(range(1, k + 1))
        out = "".join("println(p%d)\n" % i for i in range(p)) + "".join("println(v%d)\n" % i for i in range(v))
        yield Case("ext pending p=%d v=%d k=%d" % (p, v, k), "fn f@(%s) int {\n%sr := %s\n%sreturn r\n}\n" % (ps, loc, e, out), "println(f@(%s))" % ", ".join(str(i + 50) for i in range(p)),
                   [str(i + 50) for i in range(p)] + [str(i + 20) for i in range(v)] + [str(val)])


def inner(t):
    return re.sub(r"(?<![.\w])(g|gs|o|zero|thirty|ef)(?!\w)", r"i\1", t).replace("@", "x@")


def nested():
    """Every kind of call as an argument, in each position, of every other kind."""
    ks = [k for k in kinds() if not k[6]]
    for oname, olo, ohi, od, osu, oc, _, _ in ks:
        n = min(ohi, 4) if ohi >= 4 else ohi
        for iname, ilo, ihi, idd, isu, ic, _, _ in ks:
            for m in {max(ilo, 1), min(3, ihi), ihi}:
                d = od(n) + idd(m).replace("@", "x@")
                su = "l1 := 7\nl4 := 11\n" + osu(n) + inner(isu(m))
                for pos in range(n):
                    iv = [k + 2 for k in range(m)]
                    isrc = inner(ic(m, [str(x) for x in iv]))
                    vals = [50 + k for k in range(n)]
                    args = [str(x) for x in vals]
                    args[pos] = isrc
                    vals[pos] = poly(iv)
                    yield Case("nest %s/%s m=%d pos=%d" % (oname, iname, m, pos), d, su + "println(%s)\nprintln(l1 + l4)" % oc(n, args), [str(poly(vals)), "18"])


def recursion():
    for n in range(0, 25):
        def fib(k):
            return k if k < 2 else fib(k - 1) + fib(k - 2)
        if n <= 16:
            yield Case("fib %d" % n, "fn fib@(n: int) int {\nif n < 2 { return n }\nreturn fib@(n - 1) + fib@(n - 2)\n}\n", "println(fib@(%d))" % n, [str(fib(n))])
            yield Case("fibl %d" % n, "fn fib@(n: int) int {\nif n < 2 { return n }\na := fib@(n - 1)\nb := fib@(n - 2)\nc := n\nreturn (a + b) + (c - n)\n}\n", "println(fib@(%d))" % n, [str(fib(n))])
        yield Case("evenodd %d" % n, "fn ev@(n: int) bool = n == 0 ? true : od@(n - 1)\nfn od@(n: int) bool = n == 0 ? false : ev@(n - 1)\n", "println(ev@(%d))\nprintln(od@(%d))" % (n, n), ["true" if n % 2 == 0 else "false", "false" if n % 2 == 0 else "true"])
        yield Case("sumc %d" % n, "fn s@(n: int, k: fn(int) int) int {\nif n == 0 { return k(0) }\nreturn s@(n - 1, fn(x: int) int = k(x + n))\n}\n", "println(s@(%d, fn(x: int) int = x * 2))" % n, [str(n * (n + 1))])
    def ack(m, k):
        return k + 1 if m == 0 else (ack(m - 1, 1) if k == 0 else ack(m - 1, ack(m, k - 1)))
    for m in range(3):
        for k in range(5):
            yield Case("ack %d %d" % (m, k), "fn ack@(m: int, n: int) int {\nif m == 0 { return n + 1 }\nif n == 0 { return ack@(m - 1, 1) }\nreturn ack@(m - 1, ack@(m, n - 1))\n}\n", "println(ack@(%d, %d))" % (m, k), [str(ack(m, k))])

    def tak(x, y, z):
        return z if y >= x else tak(tak(x - 1, y, z), tak(y - 1, z, x), tak(z - 1, x, y))
    for x in range(7):
        for y in range(5):
            for z in range(4):
                yield Case("tak %d %d %d" % (x, y, z), "fn tak@(x: int, y: int, z: int) int {\nif y >= x { return z }\nreturn tak@(tak@(x - 1, y, z), tak@(y - 1, z, x), tak@(z - 1, x, y))\n}\n", "println(tak@(%d, %d, %d))" % (x, y, z), [str(tak(x, y, z))])
    # locals and parameters of every activation survive a recursive call, for every number of each
    for p in range(1, 7):
        for l in range(0, 9):
            ps = ", ".join("p%d: int" % i for i in range(p))
            body = "".join("v%d := (p0 * %d) + %d\n" % (i, i + 2, i) for i in range(l))
            rec = "f@(p0 - 1%s)" % "".join(", p%d + %d" % (i, i) for i in range(1, p))
            after = "".join("println(v%d)\n" % i for i in range(l)) + "".join("println(p%d)\n" % i for i in range(p))
            d = "fn f@(%s) int {\n%sif p0 > 0 {\nr := %s\nprintln(r)\n}\n%sreturn p0\n}\n" % (ps, body, rec, after)
            out = []

            def sim(args):
                vs = [args[0] * (i + 2) + i for i in range(l)]
                if args[0] > 0:
                    out.append(sim([args[0] - 1] + [args[i] + i for i in range(1, p)]))
                out.extend(vs)
                out.extend(args)
                return args[0]
            out.append(sim([3] + [10 * i for i in range(1, p)]))
            yield Case("frames %d %d" % (p, l), d, "println(f@(3%s))" % "".join(", %d" % (10 * i) for i in range(1, p)), [str(x) for x in out])
    yield Case("deep", "fn d@(n: int) int {\nif n == 0 { return 0 }\nreturn 1 + d@(n - 1)\n}\n", "println(d@(20000))", ["20000"])


def main():
    c = Check("C03", "model_checking",
              "reference model: every call is a pure weighted sum of its arguments; traces are (call kind, argument count, argument expressions per position) points; the caller's locals are re-read after the calls",
              ["function values take at most five arguments, functions at most six, enum cases at most five (the compiler's documented limits)"])
    c.extra = os.path.join(c.tc.dir, "ext.o")
    subprocess.run(["gcc", "-O1", "-fno-pie", "-fno-omit-frame-pointer", "-c", "-o", c.extra, os.path.join(os.path.dirname(__file__), "ext.c")], check=True)
    c.prelude = EXT
    c.run_cases("field calls", c16.fieldcalls(), batch=100)
    c.run_cases("external", external(), batch=200)
    c.run_cases("recursion", recursion(), batch=100)
    c.run_cases("typed", typed(c.thorough), batch=60)
    c.run_cases("nested", nested(), batch=200)
    c.run_cases("kinds", kind_cases(c.thorough), batch=20)
    c.finish()
