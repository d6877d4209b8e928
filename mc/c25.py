"""C25: every single allocation failing, in every allocating construct and context."""
import itertools, os
from core import Check, compile_src, done, run_proc, PANIC

D = """#[RawValues]
fn mcCalls() int
fn mark(s: string) {
  printf("%lli %s\\n", mcCalls(), s)
}
fn mark(i: int) {
  printf("%lli %lli\\n", mcCalls(), i)
}
struct one { s: string }
struct six { a: int b: string c: []int d: bool e: option«int» f: one }
struct gen«T» { t: T u: T }
enum en { Na() Nb(s: string) Nc(a: int, b: one, c: []string) }
fn id«T»(t: T) T = t
fn mk«T»(t: T) gen«T» = Gen(t, t)
fn adder(n: int) fn(int) int = fn(i: int) int = i + n
fn counter() fn() int {
  c := One("c")
  return fn() int {
    c = One(c.s.append("c"))
    return c.s.length
  }
}
fn two(a: string, b: string) int = a.length + (b.length * 100)
fn rec(n: int) list«int» = n == 0 ? Empty«int»() : Element(n, rec(n - 1))
fn len(l: list«int») int = l.reduce(0, fn(a: int, b: int) int = a + 1)
fn cat(n: int) string {
  s := ""
  for i in 0 .. n { s = s.append("xy") }
  return s
}
fn fill(n: int) map«int, string» {
  m := NewHashMap«int, string»(fn(k: int) int = k, fn(a: int, b: int) bool = a == b)
  for i in 0 .. n { m.put(i, i.toString()) }
  return m
}
fn ge(e: en) int {
  match e {
    case Na(): return 0
    case Nb(s): return s.length
    case Nc(a, b, c): return a + b.s.length + c[1].length
  }
}
fn six(a: int, b: string, c: []int, d: option«int», e: one, f: gen«int») int = a + b.length + c.length + d.orElse(9) + e.s.length + f.u
"""

# every allocating construct as an int expression
E = {
    "append": ('"ab".append("cde").length', 5),
    "toString": ("(-1234).toString().length", 5),
    "substring": ('"abcdef".Substring(1, 4).length', 3),
    "array literal": ("[1, 2, 3][2]", 3),
    "nested array": ('[["a", "bc"], ["d"]][0][1].length', 2),
    "array": ("array(4, 7)[3]", 7),
    "option array": ("array«int»(3)[1].orElse(5)", 5),
    "intArray": ("intArray(3).length", 3),
    "stringArray": ('stringArray(3, "ab")[2].length', 2),
    "struct": ('One("abc").s.length', 3),
    "struct of six": ('Six(1, "bb", [1], true, Some(2), One("q")).f.s.length', 1),
    "generic struct": ('mk("xy").u.length', 2),
    "enum": ('ge(Nb("abc"))', 3),
    "enum of three": ('ge(Nc(4, One("xx"), ["a", "bcd"]))', 9),
    "constant enum": ("ge(Na())", 0),
    "option": ("Some(3).map(fn(i: int) int = i + 1).orElse(0)", 4),
    "result": ('Ok«int, string»(3).map(fn(i: int) string = i.toString()).then(fn(s: string) result«int, string» = Err«int, string»(s)).resint()', 1),
    "closure": ("adder(3)(4)", 7),
    "closure state": ("(counter()() + counter()())", 4),
    "function argument": ("apply(fn(i: int) int = id([i])[0], 8)", 8),
    "bytes": ("Bytes(5).length()", 5),
    "buffer growth": ('bufgrow()', 40),
    "list": ("rec(6).len()", 6),
    "list operations": ("toList([1, 2, 3]).reverse().map(fn(i: int) int = i * 2).append(9).remove(fn(i: int) bool = i == 4).first.len()", 3),
    "map": ("fill(3).size", 3),
    "map resize": ("fill(14).orElse(13, \"\").length", 2),
    "map remove": ("mapremove()", 2),
    "pair": ('Pair("a".append("b"), [1]).first.length', 2),
    "concat loop": ("cat(5).length", 10),
    "toBinary": ("toBinary(5).length", 77),
    "call with six": ('six(1, "a".append("b"), [1, 2], Some(3), One("e"), mk(4))', 13),
    "two temporaries": ('two("a".append("b"), 12.toString())', 202),
    "file": ("file()", 5),
    "missing file": ("nofile()", 2),
    "describe": ("Error(Some(\"p\"), 2).describe().length", 31),
    "time": ("Time(1, 2).toMicros()", 1000002),
    "environment": ("getRuntime().env.orElse(\"A\", \"none\").length", 1),
    "fnv": ('("ab".append("c").fnv1a() & 15)', None),
    "hex": ('"ab".append("c").byte(2)', 99),
}

X = """fn resint(r: result«int, string») int {
  match r {
    case Ok(i): return i
    case Err(s): return s.length
  }
}
fn apply(f: fn(int) int, i: int) int = f(i)
fn bufgrow() int {
  b := NewByteBuffer(1)
  for i in 0 .. 20 {
    b.append(65)
    b.append("z")
  }
  return b.toString().length
}
fn mapremove() int {
  m := fill(3)
  m.remove(1)
  c := [0]
  m.foreach(fn(k: int, v: string) {
    c[0] = c[0] + v.length
  })
  return c[0]
}
fn file() int {
  match open("%(FILE)s").then(fn(f: file) result«string, error» = f.readAll()) {
    case Ok(s): return s.length
    case Err(e): return e.err
  }
}
fn nofile() int {
  match open("%(FILE)s.missing") {
    case Ok(f): return 0
    case Err(e): return e.err
  }
}
"""

# contexts: statements around the expression; every mark carries the number of allocations made before it
C = {
    "statement": "x := %s\nmark(x)",
    "argument": "mark(two(\"a\".append(\"b\"), cat(%s & 3)))\nmark(%s)",
    "struct argument": "s := Six(%s, \"b\".append(\"c\"), [1], true, Some(1), One(\"z\".append(\"z\")))\nmark(s.a)\nmark(s.f.s)",
    "array element": "a := [[1].length, %s, [2, 3].length]\nmark(a[1])\nmark(a[2])",
    "closure body": "q := \"cap\".append(\"t\")\nf := fn() int {\ny := %s\nreturn y + q.length\n}\nmark(f() - 4)",
    "loop": "for i in 0 .. 2 {\nx := %s\nmark(x)\n}",
    "while": "i := 0\nwhile i < 2 {\nmark(%s)\ni = i + 1\n}",
    "condition": "if %s > -5 { mark(\"yes\") } else { mark(\"no\") }",
    "match": "match Some(%s) {\ncase Some(v): mark(v)\ncase None(): mark(-1)\n}",
    "ternary": "x := [1].length == 1 ? %s : -1\nmark(x)",
    "operand": "x := [1, 2].length + %s\nmark(x - 2)",
    "index": "a := array(80, \"e\".append(\"e\"))\nb := %s\nmark(a[b & 63])\nmark(b)",
    "field assignment": "g := mk(One(\"a\".append(\"b\")))\nh := mk(%s)\nh.u = %s\nmark(h.u)\nmark(g.t.s)",
    "array assignment": "a := [\"q\".append(\"r\")]\nb := [0]\nb[0] = %s\nmark(b[0])\nmark(a[0])",
    "generic": "mark(id(mk(id(%s))).t)",
    "callback": "toList([1, 2]).foreach(fn(i: int) {\nmark(%s)\n})",
    "live data": "m := fill(5)\nl := rec(4)\nx := %s\nmark(x)\nmark(len(l))\nmark(m.orElse(4, \"\"))",
}


def model(ctx, v):
    """payloads of the marks"""
    s = {"argument": [str(2 + 200 * (v & 3)), str(v)], "struct argument": [str(v), "zz"], "array element": [str(v), "2"], "loop": [str(v)] * 2, "while": [str(v)] * 2, "callback": [str(v)] * 2, "condition": ["yes"],
         "index": ["ee", str(v)], "field assignment": [str(v), "ab"], "array assignment": [str(v), "qr"], "live data": [str(v), "4", "4"]}
    return s.get(ctx, [str(v)])


def fnv(b):
    h = 0x811c9dc5
    for x in b:
        h = ((h ^ x) * 0x01000193) & 0xffffffff
    return h


def main():
    c = Check("C25", "fault_enumeration",
              "every allocating construct x every context of evaluation x every single allocation made from the start of the case to its end failing; plus every allocation of program start for several argument and environment vectors. Expected: exactly the lines printed before the failing allocation, then a panic and exit status 1",
              ["the allocator is calloc/malloc as called from the program; allocations of libc itself do not fail"])
    shim = c.tc.shim("gcshim")
    f = os.path.join(c.tc.dir, "five")
    with open(f, "w") as h:
        h.write("12345")
    pre = D + X % {"FILE": f}
    cases = []
    for (en, (e, v)), (cn, t) in itertools.product(E.items(), C.items()):
        if v is None:
            v = fnv(b"abc") & 15
        n = t.count("%s")
        cases.append(("%s in %s" % (en, cn), t % ((e,) * n), model(cn, v)))
    # the two-construct combinations: one inside the other's temporaries
    if c.thorough:
        for (a, (x, v)), (b, (y, w)) in itertools.product(E.items(), repeat=2):
            if v is None or w is None:
                continue
            cases.append(("%s then %s" % (a, b), "a := [%s, %s]\nk := \"k\".append((%s).toString())\nmark(a[0])\nmark(k)\nmark(%s - %s)" % (x, y, y, x, y), [str(v), "k%d" % w, str(v - w)]))
    groups = [cases[i:i + 12] for i in range(0, len(cases), 12)]

    def expect(lines, k):
        """the lines a run prints before its k-th allocation"""
        return "".join(l + "\n" for l in lines if int(l.split(" ")[0]) < k)

    def panics(rc, o, head):
        rest = o[len(head):]
        return rc == 1 and o.startswith(head) and rest.startswith("\n// -") and PANIC in rest

    def one(comp, argv, env, name, src, payload, skip_init=True):
        run = lambda k: run_proc([comp.binary] + argv, 120, dict(env, MC_FAIL="%06d" % (k or 900000)), c.tc.dir)
        rc, o, e = run(0)
        lines = o.decode("utf-8", "replace").split("\n")[:-1]
        got = [l.split(" ", 1)[-1] for l in lines]
        if rc != 0 or got[:1] != ["begin"] or got[-1:] != ["end"]:
            c.note("programs that fail by themselves")  # other properties' business
            c.exhaustive = False
            return
        if got[1:-1] != payload:
            c.note("programs with unexpected values")
        c0, c1 = int(lines[0].split()[0]), int(lines[-1].split()[0])
        for k in range((c0 + 1) if skip_init else 1, c1 + 1):
            if c.stop or c.out_of_time():
                return
            want = expect(lines, k)
            rc, o, e = run(k)
            if not panics(rc, o.decode("utf-8", "replace"), want):
                rc, o, e = run(k)
                if not panics(rc, o.decode("utf-8", "replace"), want):
                    c.violation("%s allocation %d of %d" % (name, k - c0 if skip_init else k, c1 - c0 if skip_init else c1), "run as MC_FAIL=%d %s\nexpected output %r then a panic and exit status 1, got exit %s and %r %r" % (k, " ".join(argv), want, rc, o.decode("utf-8", "replace")[-500:], e[-200:]), src)
                    return
            c.note("faults")
            c.count("%s|%d" % (name, k), k, k + 1, {"program": name, "failing allocation": k, "of": c1, "output before": want[-120:], "exit": rc})
        # one more than there are: nothing fails
        rc, o, e = run(c1 + 1)
        if rc != 0:
            c.violation(name + " after the last", "failing no allocation changes the run: exit %s" % rc, src)

    def group(g):
        src = pre + "".join("fn c%d() {\nmark(\"begin\")\n%s\nmark(\"end\")\n}\n" % (i, b) for i, (n, b, p) in enumerate(g))
        src += "fn main() {\na := getRuntime().args\nk := ((a[1].byte(0) - 48) * 10) + (a[1].byte(1) - 48)\n" + "".join("if k == %d { c%d() }\n" % (i, i) for i in range(len(g))) + "}\n"
        comp = compile_src(c.tc, src, extra=shim)
        if comp.kind != "ok":
            done(comp)
            if len(g) == 1:
                c.violation(g[0][0], "does not compile: " + comp.out[-800:], src)
                return
            group(g[:len(g) // 2])
            group(g[len(g) // 2:])
            return
        for i, (n, b, p) in enumerate(g):
            if c.stop or c.out_of_time():
                break
            one(comp, ["%02d" % i], {"A": "1"}, n, src, p)
        done(comp)
    c.map(group, groups)
    # program start
    src = "#[RawValues]\nfn mcCalls() int\nfn main() {\nprintf(\"%lli begin\\n\", mcCalls())\nprintf(\"%lli end\\n\", mcCalls())\n}\n"
    comp = compile_src(c.tc, src, extra=shim)
    if comp.kind != "ok":
        c.violation("start", "does not compile: " + comp.out[-800:], src)
    else:
        for argv, env in (([], {}), (["a"], {"A": "1"}), (["a" * 40, "", "b"], {"LONGNAME": "v" * 40, "E": ""}), (["x"] * 10, {"V%d" % i: str(i) for i in range(16)})):
            one(comp, argv, env, "start with %d arguments and %d variables" % (len(argv), len(env)), src, [], skip_init=False)
        done(comp)
    c.finish()
