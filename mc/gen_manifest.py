#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and /verif/known_findings.json."""
import json, os, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]

FIXED = """
C02 1da00af an expression starting with ~ was a syntax error after return and as a statement
C03 ca7a5e1 division and shifts inside an argument list overwrote arguments already held in rdx and rcx
C12 ee3fef0 a source ending inside a declaration was silently accepted with the declaration dropped
C10 329b818 comparing non-integers crashed the compiler in code generation
C24 9bd90c3 a failing file read crashed the program instead of reporting the error with the path
C10 290e878 type names used as values were accepted and crashed or miscompiled
C10 a581d0f type errors inside anonymous functions in array literals and ternaries were not reported
C16 52ce80b an overloaded function argument resolved for one candidate stayed resolved for the next
C12 e74b665 too many parameters, fields or captured variables crashed the compiler
C06 c6b0adf closures did not capture a variable used only as an array index and confused fields with variables
C09 c38a40a negative indexes of bytes and strings read and wrote outside the object
C09 b1a783a negative or unrepresentable array lengths corrupted memory
C21 ef3c671 Substring of an invalid range produced a corrupt string
C21 651cb2b a byte buffer of capacity 0 never grew, copying long arrays exhausted the stack
C19 880a420 keys with a negative hash made the map access out of bounds
C04 2c0af21 a for statement evaluated its array expression on every iteration, its element was not a root
C04 a3b5bc9 a range of two literals with start > end did not iterate
C07 80d4567 values awaiting an index or assignment target were collected while still needed
C07 c55e81c arguments of external functions were collected while later arguments were evaluated
C08 a7261d9 variables of closed scopes kept objects alive and were read as stale roots
C01 5376c2c integer literals beyond 63 bits were accepted and truncated, leading zeros meant octal
C14 8a4d55b string literals with backslashes, quotes or escapes had the wrong length or content
C12 a2af46a generic functions differing only in type parameter names failed in the assembler
C12 c8cba1e a function named as a struct constructor and non-ASCII struct names failed in the assembler
C26 34b8577 concurrent compilations of programs of equal name shared one assembly file
C26 9ee31ce a program file without extension was overwritten by its own executable
C02 4f8812d x.f()(y) applied y to the wrong call
C11 56d96aa assignments to call results and functions were accepted
C11 6d70dec a function named as an enum constructor failed in the assembler or depended on declaration order
C13 8448c9d syntax errors in expressions pointed at the token after the offending one
""".strip().split("\n")
extra = os.path.join(V, "mc", "fixed_extra.txt")
if os.path.exists(extra): FIXED += [l for l in open(extra).read().split("\n") if l.strip()]
OPEN = []
ex = os.path.join(V, "mc", "open_findings.json")
if os.path.exists(ex): OPEN = json.load(open(ex))
f = []
for l in FIXED:
    p, c, w = l.split(" ", 2)
    f.append({"property": p, "status": "fixed", "key": "fixed:" + c, "commit": c, "what": w, "entry": "fixed: property=%s %s %s" % (p, c, w)})
json.dump({"findings": OPEN + f}, open(os.path.join(V, "known_findings.json"), "w"), indent=1, ensure_ascii=False)

T = {
 "C08": "explicit enumeration of mutator histories replayed on compiled programs under a counting allocator",
 "C07": "explicit enumeration of mutator histories replayed on compiled programs under a guarding allocator",
 "C12": "exhaustive enumeration of bounded source texts against a reference grammar model",
 "C24": "exhaustive enumeration of system call faults and file histories on the real runtime",
 "C25": "exhaustive enumeration of allocation fault points on the real runtime",
 "C26": "exhaustive exploration of compiler interleavings under a controlled scheduler",
}
LEVEL = {"C24": "fault_enumeration", "C25": "fault_enumeration"}
NOTE = "every behaviour in the stated bounds (see DESIGN.md, %s) is executed on the compiler built from the working tree and compared with a reference model; trusts the model in mc/%s.py, gcc, as and libc. Bounded: nothing is claimed beyond the bounds."
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": T.get(i, "explicit-state enumeration of a reference model, every trace replayed on compiled programs"),
                       "level": LEVEL.get(i, "model_checking"), "level_note": NOTE % (i, i.lower())})
    else:
        na.append({"property": i, "reason": "not claimed yet: its check is still being built"})
json.dump({"version": 1, "setup_cmd": "python3 --version && go version && gcc --version", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: checks drive the compiler and the programs it produces from outside."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
