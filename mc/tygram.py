"""A closed grammar of types: every constructor over every type of the previous depth. Declarations needed: DECLS."""
DECLS = "struct tp@ { a: int }\nstruct tg@«T» { t: T }\nstruct tg2@«T» { t: T }\nenum te@«T» { Te@(v: T) Tn@() }\n"
BASES = {"int": "1", "string": "\"s\"", "tp@": "Tp@(1)"}
CTORS = {
    "[]": ("[]%s", lambda t, v: "[%s]" % v),
    "option": ("option«%s»", lambda t, v: "Some(%s)" % v),
    "g": ("tg@«%s»", lambda t, v: "Tg@(%s)" % v),
    "g2": ("tg2@«%s»", lambda t, v: "Tg2@(%s)" % v),
    "e": ("te@«%s»", lambda t, v: "Te@(%s)" % v),
    "fn(.)": ("fn(%s) int", lambda t, v: "fn(z: %s) int = 1" % t),
    "fn(.,.)": ("fn(int, %s) int", lambda t, v: "fn(y: int, z: %s) int = 1" % t),
    "fn.": ("fn() %s", lambda t, v: "fn() %s = %s" % (t, v)),
    "pair1": ("pair«%s, bool»", lambda t, v: "Pair(%s, true)" % v),
    "pair2": ("pair«bool, %s»", lambda t, v: "Pair(true, %s)" % v),
    "list": ("list«%s»", lambda t, v: "toList([%s])" % v),
}


def types(depth, ctors=None, bases=None):
    """{path: (type, value)} where path is the tuple of constructors ending with the base"""
    ctors = list(ctors or CTORS)
    level = {(b,): (b, BASES[b]) for b in (bases or BASES)}
    out = dict(level)
    for _ in range(depth):
        nxt = {}
        for path, (t, v) in level.items():
            for c in ctors:
                f, mk = CTORS[c]
                nxt[(c,) + path] = (f % t, mk(t, v))
        out.update(nxt)
        level = nxt
    return out


def near(all):
    """ordered pairs of different types whose paths differ in exactly one place or in one constructor more"""
    for a in all:
        for i in range(len(a)):
            for b in all:
                if len(b) == len(a) and b[i] != a[i] and b[:i] == a[:i] and b[i + 1:] == a[i + 1:]:
                    yield a, b
            if len(a) > 1 and i < len(a) - 1:
                b = a[:i] + a[i + 1:]
                if b in all:
                    yield a, b
                    yield b, a


MDECLS = "struct tp2@ { a: int }\n" + "".join("struct tm%d@«%s» { %s }\nenum tn%d@«%s» { Tn%d@(%s) }\n" % (
    k, ", ".join("ABCDE"[:k]), " ".join("f%s: %s" % (x, x) for x in "ABCDE"[:k]), k, ", ".join("ABCDE"[:k]), k, ", ".join("f%s: %s" % (x, x) for x in "ABCDE"[:k])) for k in range(1, 6))
ATOMS = {"int": "1", "string": "\"s\"", "tp@": "Tp@(1)", "[]int": "[1]", "[]string": "[\"s\"]", "tg@«int»": "Tg@(1)", "tg@«string»": "Tg@(\"s\")", "te@«int»": "Te@(1)", "te@«string»": "Te@(\"s\")",
         "fn(int) int": "fn(w: int) int = w", "fn(string) int": "fn(w: string) int = 1", "fn(int) string": "fn(w: int) string = \"\"", "fn()": "fn() { }", "[][]int": "[[1]]", "bool": "true"}


MORE = {"tp2@": "Tp2@(1)", "tg@«tp@»": "Tg@(Tp@(1))", "tg@«tp2@»": "Tg@(Tp2@(1))", "[]tp@": "[Tp@(1)]", "[]tp2@": "[Tp2@(1)]"}


def multi(atoms=None, kmax=5):
    """pairs of types built by one constructor of k parts that differ in exactly one part: (key, (type, value), (type, value))"""
    def mk(kind, k, parts):
        if kind == "fn":
            return "fn(%s) int" % ", ".join(parts), "fn(%s) int = 1" % ", ".join("z%d: %s" % (j, p) for j, p in enumerate(parts))
        if kind == "struct":
            return "tm%d@«%s»" % (k, ", ".join(parts)), "Tm%d@(%s)" % (k, ", ".join(ATOMS[p] for p in parts))
        return "tn%d@«%s»" % (k, ", ".join(parts)), "Tn%d@(%s)" % (k, ", ".join(ATOMS[p] for p in parts))
    atoms = list(atoms or ATOMS)
    near = [(a, b) for a in atoms for b in atoms if a != b and (a.split("«")[0].split("(")[0].rstrip("intstrg") == b.split("«")[0].split("(")[0].rstrip("intstrg") or "int" in (a, b))]
    for k in range(0, kmax + 1):  # function types differing in their result only
        for a, b in near + [(x, y) for x in ("tp@", "tp2@", "tg@«tp@»", "tg@«tp2@»", "[]tp@", "[]tp2@") for y in ("tp@", "tp2@", "tg@«tp@»", "tg@«tp2@»", "[]tp@", "[]tp2@") if x != y]:
            for fill in ("int", "tg@«int»") if k else ("",):
                mkr = lambda r: ("fn(%s) %s" % (", ".join([fill] * k), r), "fn(%s) %s = %s" % (", ".join("z%d: %s" % (j, fill) for j in range(k)), r, ATOMS.get(r) or MORE[r]))
                yield "fn/%d result %s|%s in %s" % (k, a, b, fill), mkr(a), mkr(b)
    for kind in ("fn", "struct", "enum"):
        for k in range(1, kmax + 1):
            for i in range(k):
                for a, b in near:
                    for fill in ("int", a):
                        pa = [fill] * k
                        pb = [fill] * k
                        pa[i], pb[i] = a, b
                        yield "%s/%d part %d %s|%s in %s" % (kind, k, i, a, b, fill), mk(kind, k, pa), mk(kind, k, pb)
