"""Reference lexer and recogniser of the language's grammar: in_grammar(text) tells whether text is a sentence of it."""
import unicodedata

KEY = {"fn", "return", "if", "elseif", "else", "true", "false", "not", "and", "or", "struct", "while", "for", "in", "enum", "match", "case", "type"}
TWO = [":=", "==", "..", ">>", ">=", "<<", "<="]
ONE = set("(){}[]«»#?,:+-*~^|&><.=/")
TERM = set("( :,)\r\n.+-*/><[]«»")
EXPR_START = {"int", "str", "id", "true", "false", "not", "(", "fn", "-", "~", "["}
INFIX = {"(": 13, "«": 13, ".": 12, "[": 12, "*": 10, "/": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, ">": 7, ">=": 7, "<": 7, "<=": 7, "==": 6, "&": 5, "^": 4, "|": 3, "and": 2, "or": 1, "?": 1}
UNARY = {"not": 11, "~": 11, "-": 9}


class Bad(Exception):
    pass


def letter(c):
    return c == "_" or unicodedata.category(c)[0] == "L"


def digit(c):
    return unicodedata.category(c) == "Nd"


def lex(text):
    """[(kind, text, line, offset)]; raises Bad."""
    out, i, n, line = [], 0, len(text), 1
    while i < n:
        c = text[i]
        if c in " \r\n":
            line += c == "\n"
            i += 1
            continue
        if text.startswith("//", i):
            while i < n and text[i] not in "\r\n":
                i += 1
            continue
        if c == '"':
            j = i + 1
            while j < n and text[j] != '"':
                if text[j] == "\\":
                    if j + 1 >= n or text[j + 1] not in 'rn\\"':
                        raise Bad("escape")
                    j += 1
                j += 1
            if j >= n:
                raise Bad("string")
            out.append(("str", text[i:j + 1], line, i))
            line += text[i:j + 1].count("\n")
            i = j + 1
            continue
        if text[i:i + 2] in TWO:
            out.append((text[i:i + 2], text[i:i + 2], line, i))
            i += 2
            continue
        if c in ONE:
            out.append((c, c, line, i))
            i += 1
            continue
        if c in "0123456789":
            j = i + 1
            if c == "0" and text[j:j + 1] == "x":
                j += 1
                if j >= n or not (text[j] in "abcdefABCDEF" or digit(text[j])):
                    raise Bad("hex")
                while j < n and (text[j] in "abcdefABCDEF" or digit(text[j])):
                    j += 1
            else:
                while j < n and digit(text[j]):
                    j += 1
            out.append(("int", text[i:j], line, i))
            i = j
            continue
        if letter(c):
            j = i
            while j < n and (letter(text[j]) or digit(text[j])):
                j += 1
            if j < n and text[j] not in TERM:
                raise Bad("char")
            w = text[i:j]
            out.append((w if w in KEY else "id", w, line, i))
            i = j
            continue
        raise Bad("char")
    return out


class P:
    def __init__(self, toks):
        self.t = [k for k, *_ in toks] + ["eof"]
        self.i = 0

    @property
    def k(self):
        return self.t[self.i]

    def need(self, k):
        if self.k != k:
            raise Bad(k)
        self.i += 1

    def program(self):
        while self.k != "eof":
            if self.k == "#":
                self.i += 1
                self.need("[")
                self.need("id")
                while self.k == ",":
                    self.i += 1
                    self.need("id")
                self.need("]")
            if self.k == "fn":
                self.i += 1
                self.need("id")
                self.fn(False)
            elif self.k in ("struct", "enum"):
                kind = self.k
                self.i += 1
                self.need("id")
                if self.k == "«":
                    self.types()
                self.need("{")
                while self.k != "}":
                    if kind == "struct":
                        self.param()
                    else:
                        self.need("id")
                        self.params(self.param)
                self.i += 1
            else:
                raise Bad("top")

    def fn(self, anon):
        if self.k == "«":
            self.types()
        self.params(self.param)
        if self.k in ("fn", "[", "id"):
            self.type()
        if self.k == "{":
            self.block()
        elif self.k == "=":
            self.i += 1
            self.expr(0)
        elif anon:
            raise Bad("body")

    def types(self):
        self.need("«")
        if self.k != "»":
            self.type()
            while self.k == ",":
                self.i += 1
                self.type()
        self.need("»")

    def params(self, f):
        self.need("(")
        if self.k != ")":
            f()
            while self.k == ",":
                self.i += 1
                f()
        self.need(")")

    def param(self):
        self.need("id")
        self.need(":")
        self.type()

    def ident(self):
        self.need("id")

    def type(self):
        if self.k == "fn":
            self.i += 1
            self.params(self.type)
            if self.k in ("fn", "id", "["):
                self.type()
        elif self.k == "[":
            self.i += 1
            self.need("]")
            self.type()
        else:
            self.need("id")
            if self.k == "«":
                self.types()

    def block(self):
        self.need("{")
        while self.k != "}":
            self.stmt()
        self.i += 1

    def stmt(self):
        k = self.k
        if k == "return":
            self.i += 1
            if self.k in EXPR_START:
                self.expr(0)
        elif k == "while":
            self.i += 1
            self.expr(0)
            self.block()
        elif k == "for":
            self.i += 1
            self.need("id")
            self.need("in")
            self.expr(0)
            if self.k == "..":
                self.i += 1
                self.expr(0)
            self.block()
        elif k == "if":
            self.i += 1
            self.expr(0)
            self.block()
            while self.k == "elseif":
                self.i += 1
                self.expr(0)
                self.block()
            if self.k == "else":
                self.i += 1
                self.block()
        elif k == "match":
            self.i += 1
            self.expr(0)
            self.need("{")
            while self.k != "}":
                self.need("case")
                self.need("id")
                self.params(self.ident)
                self.need(":")
                while self.k not in ("case", "}"):
                    self.stmt()
            self.i += 1
        elif k in EXPR_START:
            self.expr(0)
            if self.k in ("=", ":="):
                self.i += 1
                self.expr(0)
        else:
            raise Bad("stmt")

    def call(self):
        if self.k != ")":
            self.expr(0)
            while self.k == ",":
                self.i += 1
                self.expr(0)
        self.need(")")

    def expr(self, prec):
        k = self.k
        self.i += 1
        if k in ("id", "int", "str", "true", "false"):
            pass
        elif k == "(":
            self.expr(0)
            self.need(")")
        elif k == "fn":
            self.fn(True)
        elif k == "type":
            self.need("(")
            self.type()
            self.need(")")
        elif k == "[":
            if self.k != "]":
                self.expr(0)
                while self.k == ",":
                    self.i += 1
                    self.expr(0)
            self.need("]")
        elif k in UNARY:
            self.expr(UNARY[k])
        else:
            raise Bad("expr")
        while prec < INFIX.get(self.k, 0):
            k = self.k
            self.i += 1
            if k == "(":
                self.call()
            elif k == "«":
                self.i -= 1
                self.types()
                self.need("(")
                self.call()
            elif k == "[":
                self.expr(0)
                self.need("]")
            elif k == "?":
                self.expr(0)
                self.need(":")
                self.expr(0)
            elif k == ".":
                self.expr(13)
                if self.k == "(":
                    self.i += 1
                    self.call()
                elif self.k == "«":
                    self.types()
                    self.need("(")
                    self.call()
            else:
                self.expr(INFIX[k])


def in_grammar(text):
    try:
        P(lex(text)).program()
        return True
    except (Bad, IndexError):
        return False
