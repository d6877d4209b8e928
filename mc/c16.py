"""C16: overload resolution."""
import itertools
from core import Case, Check
import tygram

D = "struct p@ { a: int }\nstruct q@ { a: int }\nenum e@ { Ea@() Eb@(v: int) }\nstruct g@«T» { t: T }\n"
# type -> value
T = {
    "int": "1", "bool": "true", "string": "\"s\"", "[]int": "[1]", "[]string": "[\"s\"]", "[][]int": "[[1]]", "p@": "P@(1)", "q@": "Q@(1)", "[]p@": "[P@(1)]", "e@": "Ea@()",
    "option«int»": "Some(1)", "option«string»": "Some(\"s\")", "option«option«int»»": "Some(Some(1))", "pair«int, bool»": "Pair(1, true)", "pair«bool, int»": "Pair(true, 1)", "g@«int»": "G@(1)", "g@«g@«int»»": "G@(G@(1))",
    "fn(int) int": "fn(z: int) int = z", "fn(string) int": "fn(z: string) int = 1", "fn(int, int) int": "fn(y: int, z: int) int = z", "fn() int": "fn() int = 1", "fn([]int) int": "fn(z: []int) int = 1", "fn(fn(int) int) int": "fn(z: fn(int) int) int = 1", "bytes": "Bytes(1)", "[]option«int»": "[Some(1)]", "list«int»": "toList([1])", "fn(int) string": "fn(z: int) string = \"\"", "fn(int)": "fn(z: int) { }", "fn() string": "fn() string = \"\"", "fn(fn(int) string) int": "fn(z: fn(int) string) int = 1", "fn(int) fn(int) int": "fn(z: int) fn(int) int = fn(y: int) int = y",
}
NAMES = list(T)


def samesig(a, b):
    return a == b


def fdecl(name, params, k):
    return "fn %s(%s) string = \"%d\"\n" % (name, ", ".join("a%d: %s" % (i, p) for i, p in enumerate(params)), k)


def call(name, args, dot):
    if dot:
        return "%s.%s(%s)" % ("(%s)" % args[0] if args[0].startswith("fn") else args[0], name, ", ".join(args[1:]))
    return "%s(%s)" % (name, ", ".join(args))


def form(v, how, t):
    """the argument as expression, variable, call result or parameter: setup, expression"""
    if how == "expr":
        return "", v
    return "w := %s\n" % v, "w"


def unary_all(names, orders):
    """all the alphabet's overloads at once, in several orders"""
    for oi, order in enumerate(orders):
        d = D + "".join(fdecl("f@", [names[i]], i) for i in order)
        for i, t in enumerate(names):
            for dot in (False, True):
                for how in ("expr", "var"):
                    if dot and how == "expr" and t.startswith("fn"):
                        continue
                    s, v = form(T[t], how, t)
                    yield Case("all order %d %s dot %s %s" % (oi, t, dot, how), d, s + "println(%s)" % call("f@", [v], dot), [str(i)])


def pairs(names, thorough):
    """two overloads in both orders; every argument type"""
    for a, b in itertools.permutations(names, 2):
        if samesig(a, b):
            continue
        d = D + fdecl("f@", [a], 0) + fdecl("f@", [b], 1)
        for t in names:
            for dot in ((False, True) if thorough or t in (a, b) else (False,)):
                s, v = form(T[t], "var" if dot else "expr", t)
                body = s + "println(%s)" % call("f@", [v], dot)
                key = "pair %s / %s <- %s %s" % (a, b, t, dot)
                if t in (a, b):
                    yield Case(key, d, body, [str([a, b].index(t))])
                elif not samesig(t, a) and not samesig(t, b):
                    if thorough or NAMES.index(t) % 3 == (NAMES.index(a) + NAMES.index(b)) % 3:
                        yield Case(key, d, body, [], mode="treject")


def single(names):
    """one function, every argument type"""
    for a in names:
        d = D + fdecl("f@", [a], 0)
        for t in names:
            for dot in (False, True):
                s, v = form(T[t], "var", t)
                body = s + "println(%s)" % call("f@", [v], dot)
                key = "single %s <- %s %s" % (a, t, dot)
                yield Case(key, d, body, ["0"]) if t == a else Case(key, d, body, [], mode="treject")


def binary(alpha, size, thorough):
    """sets of signatures of two parameters; every pair of argument types"""
    sigs = list(itertools.product(alpha, repeat=2))
    for combo in itertools.permutations(range(len(sigs)), size):
        if size > 2 and not (combo[0] < combo[1] or thorough):
            continue
        d = D + "".join(fdecl("f@", sigs[i], i) for i in combo)
        for k, s in enumerate(sigs):
            key = "binary %s <- %s" % (combo, s)
            for dot in (False, True):
                body = "println(%s)" % call("f@", [T[x] for x in s], dot)
                if k in combo:
                    yield Case(key + " %s" % dot, d, body, [str(k)])
                elif not dot:
                    yield Case(key, d, body, [], mode="treject")


def binary_all(alpha, orders):
    sigs = [()] + [(x,) for x in alpha] + list(itertools.product(alpha, repeat=2)) + [(x, x, x) for x in alpha] + [(x, x, x, x, x, x) for x in alpha]
    for oi in range(orders):
        k = (oi * 7) % len(sigs)
        order = list(range(len(sigs)))[k:] + list(range(len(sigs)))[:k]
        if oi % 2:
            order.reverse()
        d = D + "".join(fdecl("f@", sigs[i], i) for i in order)
        for i, s in enumerate(sigs):
            for dot in (False, True):
                if dot and not s:
                    continue
                yield Case("arity order %d %s %s" % (oi, s, dot), d, "println(%s)" % call("f@", [T[x] for x in s], dot), [str(i)])
        for s in itertools.product(alpha, repeat=3):
            if len(set(s)) > 1:
                yield Case("arity order %d reject %s" % (oi, s), d, "println(%s)" % call("f@", [T[x] for x in s], False), [], mode="treject")


def fnargs(names, thorough):
    """a function name as argument selects the overload of the required type"""
    names = [n for n in names if not n.startswith("fn")]
    gs = "".join("fn g@(a: %s) string = \"g%d\"\n" % (t, i) for i, t in enumerate(names))
    rev = "".join("fn g@(a: %s) string = \"g%d\"\n" % (t, i) for i, t in reversed(list(enumerate(names))))
    hs = "".join("fn h%d@(k: fn(%s) string, v: %s) string = k(v)\n" % (i, t, t) for i, t in enumerate(names))
    for on, d in (("fwd", gs), ("rev", rev)):
        for i, t in enumerate(names):
            yield Case("fn arg %s %s" % (on, t), D + d + hs, "println(h%d@(g@, %s))" % (i, T[t]), ["g%d" % i])
            yield Case("fn arg dot %s %s" % (on, t), D + d + hs, "v := %s\nprintln(g@.h%d@(v))" % (T[t], i), ["g%d" % i]) if False else Case("fn arg var %s %s" % (on, t), D + d + hs, "v := %s\nprintln(h%d@(g@, v))" % (T[t], i), ["g%d" % i])
            yield Case("fn arg wrong %s %s" % (on, t), D + d + "fn hh@(k: fn(%s, %s) string) string = \"\"\n" % (t, t), "println(hh@(g@))", [], mode="treject")
            yield Case("fn arg missing %s %s" % (on, t), D + "".join("fn g@(a: %s) string = \"\"\n" % u for j, u in enumerate(names) if j != i) + "fn hh@(k: fn(%s) string) string = \"\"\n" % t, "println(hh@(g@))", [], mode="treject")
    # the receiving function is overloaded too, the argument is not
    for a, b in itertools.permutations(names, 2):
        d = D + "fn h@(k: fn(%s) string) string = \"0\"\nfn h@(k: fn(%s) string) string = \"1\"\n" % (a, b)
        for i, t in enumerate((a, b)):
            yield Case("receiver %s / %s <- %d" % (a, b, i), d + "fn g@(a: %s) string = \"\"\n" % t, "println(h@(g@))", [str(i)])
            yield Case("receiver anon %s / %s <- %d" % (a, b, i), d, "println(h@(fn(z: %s) string = \"\"))" % t, [str(i)])
            # a second argument decides: the first one must be resolved for the chosen candidate
            d2 = D + "fn h@(k: fn(%s) string, v: %s) string = \"0\".append(k(v))\nfn h@(k: fn(%s) string, v: %s) string = \"1\".append(k(v))\nfn g@(a: %s) string = \"x\"\nfn g@(a: %s) string = \"y\"\n" % (a, a, b, b, a, b)
            yield Case("both overloaded %s / %s <- %d" % (a, b, i), d2, "println(h@(g@, %s))" % T[t], ["%d%s" % (i, "xy"[i])])
            d3 = D + "fn h@(v: %s, k: fn(%s) string) string = \"0\".append(k(v))\nfn h@(v: %s, k: fn(%s) string) string = \"1\".append(k(v))\nfn g@(a: %s) string = \"x\"\nfn g@(a: %s) string = \"y\"\n" % (a, a, b, b, a, b)
            yield Case("both overloaded dot %s / %s <- %d" % (a, b, i), d3, "v := %s\nprintln(v.h@(g@))" % T[t], ["%d%s" % (i, "xy"[i])])


def manyfnargs():
    """one overloaded name passed for several parameters, each of which requires another overload; with names before and after"""
    ts = ["int", "string", "bool", "[]int", "p@"]
    g = "".join("fn g@(a: %s) string = \"g%d\"\n" % (t, i) for i, t in enumerate(ts)) + "fn k@(a: int) string = \"k\"\nfn k@(a: string) string = \"l\"\n"
    for n in (2, 3, 4):
        for vec in itertools.product(range(len(ts) if n < 4 else 2), repeat=n):
            if n == 3 and len(set(vec)) == 1:
                continue
            ps = ", ".join("f%d: fn(%s) string" % (i, ts[v]) for i, v in enumerate(vec))
            res = "f0(%s)" % T[ts[vec[0]]] + "".join(".append(f%d(%s))" % (i + 1, T[ts[v]]) for i, v in enumerate(vec[1:]))
            exp = ["".join("g%d" % v for v in vec)]
            yield Case("several %s" % (vec,), D + g + "fn use@(%s) string = %s\n" % (ps, res), "println(use@(%s))" % ", ".join(["g@"] * n), exp)
            if n < 4:
                # with plain arguments around, by dot, through a constructor and for a generic receiver
                yield Case("several after %s" % (vec,), D + g + "fn use@(z: int, %s, y: string) string = %s\n" % (ps, res), "println(use@(1, %s, \"\"))\nprintln(1.use@(%s, \"\"))" % (", ".join(["g@"] * n), ", ".join(["g@"] * n)), exp * 2)
                yield Case("several fields %s" % (vec,), D + g + "struct us@ { %s }\n" % ps.replace(",", ""), "u := Us@(%s)\n" % ", ".join(["g@"] * n) + "".join("println(u.f%d(%s))\n" % (i, T[ts[v]]) for i, v in enumerate(vec)), ["g%d" % v for v in vec])
                yield Case("several payloads %s" % (vec,), D + g + "enum us@ { Us@(%s) }\n" % ps, "match Us@(%s) {\ncase Us@(%s):\n%s}" % (", ".join(["g@"] * n), ", ".join("h%d" % i for i in range(n)), "".join("println(h%d(%s))\n" % (i, T[ts[v]]) for i, v in enumerate(vec))), ["g%d" % v for v in vec])
                other = "fn use@(%s) string = \"other\"\n" % ", ".join("f%d: fn(%s, int) string" % (i, ts[v]) for i, v in enumerate(vec))
                yield Case("several overloaded receiver %s" % (vec,), D + g + other + "fn use@(%s) string = %s\n" % (ps, res), "println(use@(%s))" % ", ".join(["g@"] * n), exp)
            if n == 2:
                for pat in itertools.product("gk", repeat=3):
                    ws = [vec[0], vec[1], vec[0]]
                    if any(q == "k" and w > 1 for q, w in zip(pat, ws)):
                        continue
                    ps3 = ", ".join("f%d: fn(%s) string" % (i, ts[v]) for i, v in enumerate(ws))
                    res3 = "f0(%s)" % T[ts[ws[0]]] + "".join(".append(f%d(%s))" % (i + 1, T[ts[v]]) for i, v in enumerate(ws[1:]))
                    yield Case("several mixed %s %s" % (vec, pat), D + g + "fn use@(%s) string = %s\n" % (ps3, res3), "println(use@(%s))" % ", ".join(q + "@" for q in pat), ["".join("g%d" % w if q == "g" else "kl"[w] for q, w in zip(pat, ws))])
                    v2 = D + g + "fn use@«Z»(z: Z, %s) Z {\nprintln(%s)\nreturn z\n}\n" % (ps3, res3)
                    yield Case("several generic %s %s" % (vec, pat), v2, "println(use@(4, %s))" % ", ".join(q + "@" for q in pat), ["".join("g%d" % w if q == "g" else "kl"[w] for q, w in zip(pat, ws)), "4"])


def fieldcalls():
    """a function held by a field and functions of the field's name: x.name(...) is the field, name(x, ...) the function"""
    pt = ["int", "string", "bool", "p@", "[]int", "int"]
    for n in range(0, 6):
        for first in ("s@", "int", "string"):
            fps = pt[:n]
            d = D + "struct s@ { run: fn(%s) string k: int }\n" % ", ".join(fps)
            # functions of every arity taking the struct (or something else) first
            d += "".join("fn run@(%s) string = \"f%d\"\n" % (", ".join("q%d: %s" % (i, t) for i, t in enumerate([first] + pt[:m])), m) for m in range(0, 6))
            d = d.replace("run@", "run%s" % "@").replace("{ run:", "{ run@:")
            args = ", ".join(T[t] for t in fps)
            v = "fn(%s) string = \"field\"" % ", ".join("z%d: %s" % (i, t) for i, t in enumerate(fps))
            fv = {"s@": "s", "int": "1", "string": "\"s\""}[first]
            body = "s := S@(%s, 3)\nprintln(s.run@(%s))\n" % (v, args)
            exp = ["field"]
            for m in range(0, 6):
                body += "println(run@(%s))\n" % ", ".join([fv] + [T[t] for t in pt[:m]])
                exp.append("f%d" % m)
            yield Case("field call %d %s" % (n, first), d, body, exp)
            yield Case("field call places %d %s" % (n, first), d, "s := S@(%s, 3)\na := [s]\ng := fn() s@ = s\nf := fn() { println(s.run@(%s)) }\nprintln(a[0].run@(%s))\nprintln(g().run@(%s))\nf()\nprintln(S@(%s, 3).run@(%s))" % (v, args, args, args, v, args), ["field"] * 4)
            # without such a field the dot selects the function
            d2 = D + "struct s@ { ran: fn() string k: int }\n" + "".join("fn run@(%s) string = \"f%d\"\n" % (", ".join("q%d: %s" % (i, t) for i, t in enumerate(["s@"] + pt[:m])), m) for m in range(0, 6))
            yield Case("no field %d %s" % (n, first), d2, "s := S@(fn() string = \"x\", 1)\nprintln(s.run@(%s))\nprintln(s.ran())" % args, ["f%d" % n, "x"])
            # a generic struct, and the name as a function value
            d3 = D + "struct s@«T» { run@: fn(T%s) string t: T }\nfn run@«T»(s: s@«T», t: T%s) string = \"fn\"\n" % ("".join(", " + t for t in fps[:4]), "".join(", p%d: %s" % (i, t) for i, t in enumerate(fps[:4])))
            ar = "".join(", " + T[t] for t in fps[:4])
            yield Case("generic field call %d %s" % (n, first), d3, "s := S@(fn(t: %s%s) string = \"field\", %s)\nprintln(s.run@(%s%s))\nprintln(run@(s, %s%s))" % ("int", "".join(", z%d: %s" % (i, t) for i, t in enumerate(fps[:4])), "1", "1", ar, "1", ar), ["field", "fn"])


def generics():
    """generic overloads whose parameter patterns do not overlap"""
    gens = {"option«T»": ["option«int»", "option«string»", "option«option«int»»"], "[]T": ["[]int", "[]string", "[][]int", "[]p@", "[]option«int»"], "list«T»": ["list«int»"], "g@«T»": ["g@«int»", "g@«g@«int»»"], "fn(T) int": ["fn(int) int", "fn(string) int", "fn([]int) int", "fn(fn(int) int) int"], "fn(T, T) int": ["fn(int, int) int"], "pair«T, bool»": ["pair«int, bool»"], "pair«bool, T»": ["pair«bool, int»"]}
    conc = ["int", "bool", "string", "p@", "e@", "fn() int"]
    for a, b in itertools.permutations(gens, 2):
        d = D + "fn f@«T»(a: %s) string = \"0\"\nfn f@«T»(a: %s) string = \"1\"\n" % (a, b)
        for i, g in enumerate((a, b)):
            for t in gens[g]:
                s, v = form(T[t], "var", t)
                for dot in (False, True):
                    yield Case("generic %s / %s <- %s %s" % (a, b, t, dot), d, s + "println(%s)" % call("f@", [v], dot), [str(i)])
        for t in conc:
            yield Case("generic %s / %s reject %s" % (a, b, t), d, "println(f@(%s))" % T[t], [], mode="treject")
    for g in gens:
        for c in conc:
            for order in (0, 1):
                ds = ["fn f@«T»(a: %s) string = \"0\"\n" % g, "fn f@(a: %s) string = \"1\"\n" % c]
                d = D + "".join(ds[::-1] if order else ds)
                for t in gens[g]:
                    yield Case("generic+concrete %s / %s %d <- %s" % (g, c, order, t), d, "println(f@(%s))" % T[t], ["0"])
                yield Case("generic+concrete %s / %s %d <- concrete" % (g, c, order), d, "println(f@(%s))" % T[c], ["1"])
    # explicit type arguments and arities
    d = D + "fn f@«T»(a: T) string = \"1\"\nfn f@«T»(a: T, b: T) string = \"2\"\nfn f@«T, U»(a: T, b: U, c: T) string = \"3\"\nfn f@() string = \"0\"\n"
    for body, e in (("f@()", "0"), ("f@(1)", "1"), ("f@(\"\", \"\")", "2"), ("f@(1, \"\", 2)", "3"), ("f@«int»(1)", "1"), ("f@«string»(\"\", \"\")", "2"), ("f@«int, bool»(1, true, 2)", "3")):
        yield Case("arity generic " + body, d, "println(%s)" % body, [e])
    for body in ("f@(1, \"\")", "f@(1, 2, \"\")", "f@«int»(\"\")", "f@«int, int»(1)", "f@«int»(1, \"\")", "f@(1, 2, 3, 4)"):
        yield Case("arity generic reject " + body, d, "println(%s)" % body, [], mode="treject")


def gensets(thorough):
    """sets of two to four generic overloads of equal length told apart by one parameter, alone or with concrete ones, in every order"""
    tell = {"option«T»": "Some(1)", "[]T": "[1]", "g@«T»": "G@(1)", "fn(T) int": "fn(z: int) int = 1", "pair«T, bool»": "Pair(1, true)", "list«T»": "toList([1])", "string": '"s"', "int": "3", "p@": "P@(1)"}
    for k in range(1, 7):
        for i in range(k):
            for n in (2, 3, 4):
                for names in itertools.permutations(tell, n) if n == 2 or thorough else [tuple(list(tell)[(s_ + j * st) % len(tell)] for j in range(n)) for s_ in range(len(tell)) for st in (1, 2, 4, 5, 7)]:
                    if not any("T" in x for x in names):
                        continue
                    for fill, fv in (("int", "7"), ("T", None)):
                        d = D
                        calls, exp = "", []
                        for j, t in enumerate(names):
                            gen = "T" in t
                            ps = [t if x == i else (fill if gen or fill != "T" else "int") for x in range(k)]
                            d += "fn f@%s(%s) string = \"%d\"\n" % ("«T»" if "T" in "".join(p.replace("option", "") for p in ps) else "", ", ".join("a%d: %s" % (x, p) for x, p in enumerate(ps)), j)
                            args = [tell[t] if x == i else "7" for x in range(k)]
                            calls += "println(f@(%s))\n" % ", ".join(args)
                            calls += "v%d := %s\nprintln(v%d.f@(%s))\n" % (j, args[0], j, ", ".join(args[1:]))
                            exp += [str(j)] * 2
                        yield Case("sets %d/%d %s %s" % (i, k, names, fill), d, calls, exp)
                        other = [x for x in ("int", "string", "p@", "option«T»", "[]T") if x not in names][0]
                        if n == 2:
                            yield Case("sets reject %d/%d %s %s" % (i, k, names, fill), d, "println(f@(%s))" % ", ".join(tell[other] if x == i else "7" for x in range(k)), [], mode="treject")


def bare():
    """a type parameter standing alone in an overload takes a value of any type, in any place, and keeps that type"""
    ts = {t: v for t, v in tygram.types(2).values()}
    for _, a, b in tygram.multi():
        ts.update((a, b))
    for t, v in ts.items():
        d = tygram.DECLS + tygram.MDECLS + """fn f@«T»(a: T) string = "1"
fn f@«T»(a: int, b: T) string = "2"
fn f@«T»(a: T, b: T, c: string) string = "3"
fn f@«T, U»(a: int, b: U, c: bool, d: T) string = "4"
fn id@«T»(a: T) T = a
fn w@(a: %s) string = "5"
""" % t
        yield Case("bare %s" % t, d, "v := %s\nprintln(f@(v))\nprintln(f@(%s))\nprintln(f@(1, v))\nprintln(f@(v, %s, \"\"))\nprintln(f@(1, \"\", true, v))\nprintln(f@(1, v, true, 1))\nprintln(f@(1, v, true, v))\nprintln(w@(id@(v)))\nprintln(v.f@())\nprintln(v.id@().w@())" % (v, v, v), list("1123444515"))


def library():
    """own overloads of library names neither disturb nor are disturbed"""
    for n in ("println", "print", "append", "toString", "length", "get", "put", "map", "find", "remove", "reverse", "IndexOf", "Substring", "Equals", "byte", "filter", "orElse", "gc", "panic", "exit", "mod", "contains", "size", "foreach", "reduce", "array", "toList", "isSome", "then", "set", "copyArray"):
        d = D + "fn %s(a: p@, b: q@) string = \"own\"\n" % n
        use = "println(%s(P@(1), Q@(2)))\nprintln(P@(3).%s(Q@(4)))\nprintln(toList([1, 2]).map(fn(i: int) int = i * 3).reverse().reduce(0, fn(a: int, b: int) int = a + b))\nprintln(\"ab\".append(\"c\").Substring(1, 3).IndexOf(\"c\"))\nprintln(Some(5).orElse(6).toString())\nprintln(mod(7, 4))\n" % (n, n)
        yield Case("library " + n, d, use, ["own", "own", "9", "1", "5", "3"])
    # a local function value hides the overloads
    for t, v in list(T.items())[:8]:
        yield Case("local hides %s" % t, D + "fn f@(a: int) string = \"global\"\nfn f@(a: string) string = \"global\"\n", "f@ := fn(a: %s) string = \"local\"\nprintln(f@(%s))" % (t, v), ["local"])
        yield Case("parameter hides %s" % t, D + "fn f@(a: int) string = \"global\"\nfn f@(a: string) string = \"global\"\nfn r@(f@: fn(%s) string, v: %s) string = f@(v)\n" % (t, t), "println(r@(fn(a: %s) string = \"local\", %s))" % (t, v), ["local"])


def coexist(names):
    """declarations alone: distinct parameter lists coexist, equal ones are redeclarations"""
    for a, b in itertools.product(names, repeat=2):
        d = D + fdecl("f@", [a], 0) + fdecl("f@", [b], 1)
        if a == b:
            yield Case("redeclared %s" % a, d, "", [], mode="treject")
        elif not samesig(a, b):
            yield Case("coexist %s / %s" % (a, b), d, "", [], mode="accept")


def grammar(depth, orders, ctors=None):
    """the whole closed grammar of types overloaded at once: every type selects its own function"""
    ts = tygram.types(depth, ctors)
    items = list(ts.items())
    n = len(items)
    for oi in range(orders):
        k = (oi * 53) % n
        order = items[k:] + items[:k]
        if oi % 2:
            order = order[::-1]
        idx = {p: i for i, (p, _) in enumerate(items)}
        d = tygram.DECLS + "".join(fdecl("f@", [t], idx[p]) for p, (t, _) in order)
        # one program per order: several calls in one case
        body, exp = [], []
        for j, (p, (t, v)) in enumerate(items):
            body.append("w%d := %s\nprintln(f@(w%d))\nprintln(w%d.f@())\nprintln(f@(%s))" % (j, v, j, j, v))
            exp += [str(j)] * 3
        for b in range(0, n, 40):
            yield Case("grammar depth %d order %d from %d" % (depth, oi, b), d, "\n".join(body[b:b + 40]), exp[3 * b:3 * (b + 40)])


def near(depth):
    """two near types: both declared in either order, or only one of them"""
    ts = tygram.types(depth)
    for a, b in sorted(set(tygram.near(ts))):
        (ta, va), (tb, vb) = ts[a], ts[b]
        nm = ".".join(a) + " / " + ".".join(b)
        d = tygram.DECLS + fdecl("f@", [ta], 0) + fdecl("f@", [tb], 1)
        yield Case("near " + nm, d, "println(f@(%s))\nw := %s\nprintln(w.f@())" % (va, vb), ["0", "1"])
        yield Case("near reject " + nm, tygram.DECLS + fdecl("f@", [ta], 0), "println(f@(%s))" % vb, [], mode="treject")
        yield Case("near second " + nm, tygram.DECLS + fdecl("f@", ["int", ta], 0) + fdecl("f@", ["int", tb], 1), "println(f@(2, %s))\nprintln(2.f@(%s))" % (va, vb), ["0", "1"])


def parts(atoms):
    """two types of one constructor differing in one of up to five parts; and parameter lists differing in one of up to six places"""
    for key, (ta, va), (tb, vb) in tygram.multi(atoms):
        d = tygram.DECLS + tygram.MDECLS + fdecl("f@", [ta], 0) + fdecl("f@", [tb], 1)
        yield Case("parts " + key, d, "println(f@(%s))\nw := %s\nprintln(w.f@())" % (va, vb), ["0", "1"])
    A = tygram.ATOMS
    for k in range(1, 7):
        for i in range(k):
            for a, b in itertools.permutations(A, 2):
                for fill in ("int", a):
                    pa, pb = [fill] * k, [fill] * k
                    pa[i], pb[i] = a, b
                    d = tygram.DECLS + fdecl("f@", pa, 0) + fdecl("f@", pb, 1)
                    yield Case("parameters %d/%d %s|%s in %s" % (i, k, a, b, fill), d, "println(%s)\nv := %s\nprintln(%s)" % (call("f@", [A[x] for x in pa], False), A[pb[0]], call("f@", ["v"] + [A[x] for x in pb[1:]], True)), ["0", "1"])


def genfn(names):
    """an overloaded function as argument of a generic one: only one overload has the required shape"""
    names = [n for n in names if not n.startswith("fn")]
    for a, b in itertools.permutations(names, 2):
        for order in (0, 1):
            # the parameter's two positions share a type variable, so only the second overload fits
            ds = ["fn g@(a: %s, b: %s) string = \"no\"\n" % (a, b), "fn g@(a: %s, b: %s) string = \"yes\"\n" % (b, b)]
            d = D + "".join(ds[::-1] if order else ds)
            yield Case("generic receiver %s / %s %d" % (a, b, order), d + "fn ap@«A»(x: fn(A, A) string, v: A) string = x(v, v)\n", "println(ap@(g@, %s))" % T[b], ["yes"])
            yield Case("generic receiver value first %s / %s %d" % (a, b, order), d + "fn ap@«A»(v: A, x: fn(A, A) string) string = x(v, v)\n", "println(ap@(%s, g@))\nv := %s\nprintln(v.ap@(g@))" % (T[b], T[b]), ["yes", "yes"])
            yield Case("generic receiver none %s / %s %d" % (a, b, order), d + "fn ap@«A»(v: A, x: fn(A, A) string) string = x(v, v)\n", "println(ap@(%s, g@))" % T[a], [], mode="treject")
            ds = ["fn g@(a: %s) string = \"no\"\n" % a, "fn g@(a: %s) string = \"yes\"\n" % b]
            d = D + "".join(ds[::-1] if order else ds)
            yield Case("generic receiver one %s / %s %d" % (a, b, order), d + "fn ap@«A»(v: A, x: fn(A) string) string = x(v)\n", "println(ap@(%s, g@))" % T[b], ["yes"])
            yield Case("generic receiver arity %s / %s %d" % (a, b, order), D + ("fn g@(a: %s, b: %s) string = \"yes\"\nfn g@(a: %s) string = \"no\"\n" if order else "fn g@(a: %s, b: %s) string = \"yes\"\nfn g@(a: %s) string = \"no\"\n") % (b, b, a) + "fn ap@«A»(x: fn(A, A) string, v: A) string = x(v, v)\n", "println(ap@(g@, %s))" % T[b], ["yes"])


def results(thorough):
    """overloads with different results, functions without result among them: statements, values and arguments"""
    rs = {"": ("", ""), "int": ("return 5\n", "5"), "string": ("return \"r\"\n", "r"), "bool": ("return true\n", "true"), "[]int": ("return [6]\n", None)}
    ps = ["int", "string", "bool", "[]int", "option«int»", "fn(int) int", "p@"] if thorough else ["int", "string", "[]int", "p@"]
    for n in (2, 3):
        for sig in itertools.permutations(ps if n == 2 else ps[:3], n):
            for res in itertools.product(rs, repeat=n):
                d = D + "".join("fn f@(a: %s) %s {\nprintln(\"f%d\")\n%s}\n" % (p, r, i, rs[r][0]) for i, (p, r) in enumerate(zip(sig, res)))
                for i, (p, r) in enumerate(zip(sig, res)):
                    body, exp = "f@(%s)\n" % T[p], ["f%d" % i]
                    body += "w := %s\nw.f@()\n" % T[p]
                    exp += ["f%d" % i]
                    if r:
                        body += "v := f@(w)\nx := fn() %s = w.f@()\nprintln(%s)\nprintln(%s)" % (r, "v[0]" if r == "[]int" else "v", "x()[0]" if r == "[]int" else "x()")
                        exp += ["f%d" % i, "f%d" % i][:1] + [{"[]int": "6"}.get(r, rs[r][1])] + ["f%d" % i] + [{"[]int": "6"}.get(r, rs[r][1])]
                    yield Case("results %s %s %d" % (sig, res, i), d, body, exp)
                    # as an argument: the parameter types and the result have to agree
                    for want in rs if n == 2 else (r,):
                        k = d + "fn use@(k: fn(%s) %s, v: %s) { k(v) }\n" % (p, want, p)
                        yield Case("results arg %s %s %d %s" % (sig, res, i, want), k, "use@(f@, %s)" % T[p], ["f%d" % i]) if want == r else Case("results arg %s %s %d %s" % (sig, res, i, want), k, "use@(f@, %s)" % T[p], [], mode="treject")


def main():
    c = Check("C16", "model_checking",
              "model: the set of declared signatures; a call resolves to the unique signature equal to its argument types. Explored: every ordered pair of one-parameter signatures x every argument type x call notation, the whole alphabet at once in several orders, all ordered pairs (thorough: triples) of two-parameter signatures x all argument tuples, arities 0-6 together, overloaded functions as arguments to single and overloaded receivers, generic with generic and concrete overloads that do not overlap, own overloads of library names, hiding by locals",
              ["overlapping generic overloads are not specified"])
    n = len(NAMES)
    base = list(range(n))
    orders = [base, base[::-1]] + [base[k:] + base[:k] for k in range(1, n)]
    c.run_cases("sets", gensets(c.thorough), batch=60)
    c.run_cases("bare", bare(), batch=60)
    c.run_cases("all", unary_all(NAMES, orders), batch=30)
    c.run_cases("grammar", grammar(2, 6 if c.thorough else 2), batch=1)
    c.run_cases("near types", near(2), batch=300)
    c.run_cases("parts", parts(None if c.thorough else ["int", "string", "[]int", "[]string", "tg@«int»", "tg@«string»", "te@«int»", "te@«string»", "fn(int) int", "fn(string) int"]), batch=300)
    c.run_cases("generic receivers", genfn(NAMES), batch=200)
    c.run_cases("results", results(c.thorough), batch=200)
    c.run_cases("single", single(NAMES), batch=200)
    c.run_cases("pairs", pairs(NAMES, True), batch=200)
    c.run_cases("binary", binary(["int", "string", "[]int"], 2, True), batch=200)
    c.run_cases("binary4", binary(["int", "string", "p@", "option«int»"], 2, True), batch=200)
    c.run_cases("ternary sets", binary(["int", "[]int"], 3, True), batch=200)
    c.run_cases("ternary sets", binary(["fn(int) int", "string"], 3, True), batch=200)
    c.run_cases("arity", binary_all(["int", "string", "[]int", "option«int»"], 8), batch=20)
    c.run_cases("fn args", fnargs(NAMES, True), batch=100)
    c.run_cases("several fn args", manyfnargs(), batch=200)
    c.run_cases("field calls", fieldcalls(), batch=100)
    c.run_cases("generic", generics(), batch=200)
    c.run_cases("library", library(), batch=50)
    c.run_cases("coexist", coexist(NAMES), batch=100)
    if c.thorough:
        c.run_cases("binary6", binary(["int", "string", "[]int", "option«int»", "fn(int) int", "g@«int»"], 2, True), batch=200)
        c.run_cases("ternary sets 3", binary(["int", "string", "[]int"], 3, True), batch=200)
        c.run_cases("ternary sets 3", binary(["option«int»", "option«string»", "p@"], 3, True), batch=200)
        c.run_cases("quaternary sets", binary(["int", "bool"], 4, True), batch=200)
    c.finish()
