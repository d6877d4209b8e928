"""A small reference model of the language: AST (tuples), source printer and an interpreter giving the intended meaning.

Expressions
  ('i', n) ('b', bool) ('s', text) ('v', name) ('bin', op, l, r) ('un', op, e) ('?', c, a, b)
  ('call', f, [args])            f: expression or ('v', name of a top-level function)
  ('dot', recv, name, [args])    dot-selected call of a top-level function
  ('idx', a, i) ('fld', e, name) ('arr', [es]) ('new', Constructor, [args]) ('raw', text, pyfunc(env)) ('par', e)
  ('fn', [(name, type)], ret or None, [stmts])   anonymous function; ('fne', params, ret, expr) expression form
Statements
  (':=', name, e) ('=', lhs, e) ('if', [(c, block)...], else or None) ('while', c, block)
  ('forr', x, a, b, block) ('fora', x, e, block) ('ret', e or None) ('e', e) ('match', e, [(cons, [vars], block)])
  ('block-comment', text)
"""

M63 = 1 << 63

def wrap(x):
    x &= M63 - 1
    return x - M63 if x >= M63 >> 1 else x

def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q

BIN = {
    "+": lambda a, b: wrap(a + b), "-": lambda a, b: wrap(a - b), "*": lambda a, b: wrap(a * b),
    "/": lambda a, b: wrap(tdiv(a, b)), "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: wrap(a ^ b),
    "<<": lambda a, b: wrap(a << b), ">>": lambda a, b: a >> b,
    "==": lambda a, b: a == b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
    "and": lambda a, b: a and b, "or": lambda a, b: a or b,
}
PREC = {"*": 10, "/": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, ">": 7, ">=": 7, "<": 7, "<=": 7, "==": 6, "&": 5, "^": 4, "|": 3, "and": 2, "or": 1}
UPREC = {"-": 9, "~": 11, "not": 11}


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r") + '"'


# ------------------------------------------------------------------ printer (fully parenthesised where operators meet)
def ex(e, top=True):
    k = e[0]
    if k == "i":
        return str(e[1]) if e[1] >= 0 or top else "(%d)" % e[1]
    if k == "b":
        return "true" if e[1] else "false"
    if k == "s":
        return q(e[1])
    if k == "v":
        return e[1]
    if k == "par":
        return "(" + ex(e[1]) + ")"
    if k == "raw":
        return e[1]
    if k == "bin":
        r = ex(e[2], False) + " " + e[1] + " " + ex(e[3], False)
    elif k == "un":
        r = e[1] + (" " if e[1] == "not" else "") + ex(e[2], False)
    elif k == "?":
        r = ex(e[1], False) + " ? " + ex(e[2], False) + " : " + ex(e[3], False)
    elif k == "call":
        f = e[1]
        fs = f[1] if f[0] == "v" else ("(" + ex(f) + ")" if f[0] in ("fn",) else ex(f, False))
        return fs + "(" + ", ".join(ex(a) for a in e[2]) + ")"
    elif k == "new":
        return e[1] + "(" + ", ".join(ex(a) for a in e[2]) + ")"
    elif k == "dot":
        return ex(e[1], False) + "." + e[2] + "(" + ", ".join(ex(a) for a in e[3]) + ")"
    elif k == "idx":
        return ex(e[1], False) + "[" + ex(e[2]) + "]"
    elif k == "fld":
        return ex(e[1], False) + "." + e[2]
    elif k == "arr":
        return "[" + ", ".join(ex(a) for a in e[1]) + "]"
    elif k == "fn":
        r = "fn(" + ", ".join(n + ": " + t for n, t in e[1]) + ")" + (" " + e[2] if e[2] else "") + " {\n" + blk(e[3]) + "}"
        return r
    elif k == "fne":
        r = "fn(" + ", ".join(n + ": " + t for n, t in e[1]) + ")" + (" " + e[2] if e[2] else "") + " = " + ex(e[3])
        return r if top else "(" + r + ")"
    else:
        raise ValueError(k)
    return r if top else "(" + r + ")"


def blk(stmts):
    return "".join(st(s) for s in stmts)


def st(s):
    k = s[0]
    if k == ":=":
        return s[1] + " := " + ex(s[2]) + "\n"
    if k == "=":
        return ex(s[1]) + " = " + ex(s[2]) + "\n"
    if k == "e":
        return ex(s[1]) + "\n"
    if k == "ret":
        return "return" + (" " + ex(s[1]) if s[1] is not None else "") + "\n"
    if k == "if":
        out = ""
        for i, (c, b) in enumerate(s[1]):
            out += ("if " if i == 0 else " elseif ") + ex(c) + " {\n" + blk(b) + "}"
        if s[2] is not None:
            out += " else {\n" + blk(s[2]) + "}"
        return out + "\n"
    if k == "while":
        return "while " + ex(s[1]) + " {\n" + blk(s[2]) + "}\n"
    if k == "forr":
        return "for " + s[1] + " in " + ex(s[2]) + " .. " + ex(s[3]) + " {\n" + blk(s[4]) + "}\n"
    if k == "fora":
        return "for " + s[1] + " in " + ex(s[2]) + " {\n" + blk(s[3]) + "}\n"
    if k == "match":
        return "match " + ex(s[1]) + " {\n" + "".join(
            "case " + c + "(" + ", ".join(vs) + "):\n" + blk(b) for c, vs, b in s[2]) + "}\n"
    if k == "rawst":
        return s[1] + "\n"
    raise ValueError(k)


def fndecl(name, params, ret, body):
    return "fn " + name + "(" + ", ".join(n + ": " + t for n, t in params) + ")" + (" " + ret if ret else "") + " {\n" + blk(body) + "}\n"


# ------------------------------------------------------------------ interpreter
class Obj:
    __slots__ = ("cons", "f")

    def __init__(self, cons, f):
        self.cons, self.f = cons, f


class Return(Exception):
    def __init__(self, v):
        self.v = v


class OutOfFuel(Exception):
    pass


class Panic(Exception):
    pass


class Closure:
    __slots__ = ("params", "body", "env", "expr")

    def __init__(self, params, body, env, expr):
        self.params, self.body, self.env, self.expr = params, body, env, expr


class Fn:
    __slots__ = ("name", "params", "body")

    def __init__(self, name, params, body):
        self.name, self.params, self.body = name, params, body


class Interp:
    """structs: Constructor -> [field names]; enums: Constructor -> arity; fns: name -> (params, body) or python callable."""

    def __init__(self, fns, structs=None, enums=None, fuel=20000):
        self.fns, self.structs, self.enums = fns, structs or {}, enums or {}
        self.out = []
        self.fuel = fuel
        self.steps = 0

    def tick(self):
        self.steps += 1
        if self.steps > self.fuel:
            raise OutOfFuel()

    def look(self, env, name):
        e = env
        while e is not None:
            if name in e:
                return e
            e = e.get(None)
        return None

    def ev(self, e, env):
        self.tick()
        k = e[0]
        if k in ("i", "b", "s"):
            return e[1]
        if k == "v":
            d = self.look(env, e[1])
            if d is not None:
                return d[e[1]]
            f = self.fns[e[1]]
            return f
        if k == "par":
            return self.ev(e[1], env)
        if k == "bin":
            a = self.ev(e[2], env)
            b = self.ev(e[3], env)
            return BIN[e[1]](a, b)
        if k == "un":
            v = self.ev(e[2], env)
            return (not v) if e[1] == "not" else (wrap(-v) if e[1] == "-" else ~v)
        if k == "?":
            return self.ev(e[2], env) if self.ev(e[1], env) else self.ev(e[3], env)
        if k == "call":
            f = self.ev(e[1], env)
            return self.apply(f, [self.ev(a, env) for a in e[2]])
        if k == "dot":
            r = self.ev(e[1], env)
            args = [self.ev(a, env) for a in e[3]]
            if isinstance(r, Obj) and r.cons in self.structs and e[2] in r.f:
                return self.apply(r.f[e[2]], args)
            return self.apply(self.fns[e[2]], [r] + args)
        if k == "new":
            args = [self.ev(a, env) for a in e[2]]
            if e[1] in self.structs:
                return Obj(e[1], dict(zip(self.structs[e[1]], args)))
            return Obj(e[1], args)
        if k == "idx":
            a = self.ev(e[1], env)
            i = self.ev(e[2], env)
            if not 0 <= i < len(a):
                raise Panic("index out of bounds")
            return a[i]
        if k == "fld":
            o = self.ev(e[1], env)
            if e[2] == "length":
                return len(o)
            return o.f[e[2]]
        if k == "arr":
            return [self.ev(a, env) for a in e[1]]
        if k == "fn" or k == "fne":
            cap = {}
            d = env
            while d is not None:
                for n, v in d.items():
                    if n is not None and n not in cap:
                        cap[n] = v
                d = d.get(None)
            return Closure([n for n, _ in e[1]], e[3], cap, k == "fne")
        if k == "raw":
            return e[2](self, env)
        raise ValueError(k)

    def apply(self, f, args):
        self.tick()
        if callable(f):
            return f(self, *args)
        if isinstance(f, Closure):
            env = dict(zip(f.params, args))
            env[None] = f.env
            if f.expr:
                return self.ev(f.body, env)
            return self.body(f.body, env)
        params, body = f
        env = dict(zip(params, args))
        env[None] = None
        return self.body(body, env)

    def body(self, stmts, env):
        try:
            self.run(stmts, env)
        except Return as r:
            return r.v
        return None

    def run(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def sub(self, env):
        return {None: env}

    def stmt(self, s, env):
        self.tick()
        k = s[0]
        if k == ":=":
            env[s[1]] = self.ev(s[2], env)
        elif k == "=":
            v = self.ev(s[2], env)
            l = s[1]
            if l[0] == "v":
                self.look(env, l[1])[l[1]] = v
            elif l[0] == "idx":
                a = self.ev(l[1], env)
                i = self.ev(l[2], env)
                if not 0 <= i < len(a):
                    raise Panic("index out of bounds")
                a[i] = v
            elif l[0] == "fld":
                self.ev(l[1], env).f[l[2]] = v
            else:
                raise ValueError(l)
        elif k == "e":
            self.ev(s[1], env)
        elif k == "ret":
            raise Return(self.ev(s[1], env) if s[1] is not None else None)
        elif k == "if":
            for c, b in s[1]:
                if self.ev(c, env):
                    self.run(b, self.sub(env))
                    return
            if s[2] is not None:
                self.run(s[2], self.sub(env))
        elif k == "while":
            while self.ev(s[1], env):
                self.run(s[2], self.sub(env))
        elif k == "forr":
            a = self.ev(s[2], env)
            b = self.ev(s[3], env)
            lits = s[2][0] == "i" and s[3][0] == "i"
            dec = (lits and a > b) or (s[2][0] != "i" and s[3] == ("i", 0))
            d = {s[1]: (a - 1 if dec else a), None: env}
            # the loop variable is one variable: the body may assign it
            while (d[s[1]] >= b) if dec else (d[s[1]] < b):
                self.tick()
                self.run(s[4], self.sub(d))
                d[s[1]] = wrap(d[s[1]] + (-1 if dec else 1))
        elif k == "fora":
            a = self.ev(s[2], env)
            i = 0
            while i < len(a):
                self.tick()
                self.run(s[3], {s[1]: a[i], None: env})
                i += 1
        elif k == "match":
            o = self.ev(s[1], env)
            for c, vs, b in s[2]:
                if c == o.cons:
                    d = dict(zip(vs, o.f))
                    d[None] = env
                    self.run(b, d)
                    return
            raise AssertionError("no case")
        elif k == "rawst":
            s[2](self, env)
        else:
            raise ValueError(k)
