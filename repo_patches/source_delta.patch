From 1da00af2b7e77c5e2f2a27235b0a0dc3bde52681 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:48:07 +0000
Subject: [PATCH 01/48] fix: accept an expression starting with ~ after return
 and as a statement

---
 lex/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/lex.go b/lex/lex.go
index 3e9f031..bc136c4 100644
--- a/lex/lex.go
+++ b/lex/lex.go
@@ -99,7 +99,7 @@ const (
 
 func (k Kind) IsExprStart() bool {
 	switch k {
-	case Integer, String, Identifier, True, False, Not, LParen, Fn, Min, LBrack:
+	case Integer, String, Identifier, True, False, Not, LParen, Fn, Min, BNot, LBrack:
 		return true
 	default:
 		return false
-- 
2.43.0


From ca7a5e18bfbdff3c6c4957ff14a3fa380f32faac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:48:29 +0000
Subject: [PATCH 02/48] fix: division and shifts no longer clobber already
 evaluated arguments in rdx and rcx

---
 codegen.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/codegen.go b/codegen.go
index 330f8d8..a02a85a 100644
--- a/codegen.go
+++ b/codegen.go
@@ -97,6 +97,18 @@ func (f *function) RegisterInUse(t *Type) {
 	f.reg[(len(f.reg)-1)] = append(f.reg[(len(f.reg)-1)], t)
 }
 
+// Is the given register holding an already evaluated argument of the call being generated?
+func (f *function) IsRegisterInUse(r reg) bool {
+	if len(f.reg) > 0 {
+		for i := range f.reg[len(f.reg)-1] {
+			if regs[i] == r {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func codegen(symtab *SymTab, tree []*Node, asm asmWriter) error {
 
 	// ---------------------------------------------------------------------------------------
@@ -702,10 +714,18 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		untag(asm, expr.right, rax)
 		asm.ins(movq, rax, rbx)
 		restore(asm, fn, rax)
+		// Division clobbers rdx which may already hold an argument
+		saveRdx := expr.op == opDiv && fn.IsRegisterInUse(rdx)
+		if saveRdx {
+			save(asm, fn, rdx)
+		}
 		if expr.op == opDiv {
 			asm.ins(cqo) // Sign-extend rax into rdx
 		}
 		asm.ins(ins[expr.op], rbx, rax)
+		if saveRdx {
+			restore(asm, fn, rdx)
+		}
 		tag(asm, expr, rax)
 
 		// NOTES:
@@ -750,9 +770,17 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		save(asm, fn, rax)
 		genExpr(asm, expr.right, false, fn)
 		untag(asm, expr.right, rax)
+		// Shift count must be in cl but rcx may already hold an argument
+		saveRcx := fn.IsRegisterInUse(rcx)
+		if saveRcx {
+			asm.ins(movq, rcx, rbx)
+		}
 		asm.ins(movq, rax, rcx)
 		restore(asm, fn, rax)
 		asm.ins(ins[expr.op], cl, rax)
+		if saveRcx {
+			asm.ins(movq, rbx, rcx)
+		}
 		tag(asm, expr, rax)
 
 	case opIdentifier:
-- 
2.43.0


From ee3fef069f8d398934c03bc52e51df0b14abc9cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:48:56 +0000
Subject: [PATCH 03/48] fix: report an error when the source ends inside a
 declaration

---
 parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parse.go b/parse.go
index d313a33..892a389 100644
--- a/parse.go
+++ b/parse.go
@@ -14,6 +14,7 @@ type Parser struct {
 	tokens []*lex.Token
 	errs   []error
 	discard bool // Are we in "discard" mode?
+	complete bool // Has all input been consumed?
 }
 
 var errUnexpectedEof = errors.New("unexpected EOF")
@@ -56,6 +57,7 @@ func (p *Parser) Parse(tokens []*lex.Token, root *Node) (errs []error) {
 	p.tokens = tokens
 	p.errs = p.errs[:0]
 	p.discard = false
+	p.complete = false
 
 	// loop over tokens
 	for p.isNot(lex.EOF) {
@@ -77,6 +79,7 @@ func (p *Parser) Parse(tokens []*lex.Token, root *Node) (errs []error) {
 			// TODO: p.sync(lex.Fn, lex.Struct, lex.Enum)
 		}
 	}
+	p.complete = true
 	p.need(lex.EOF)
 	return p.errs
 }
@@ -573,6 +576,9 @@ func (p *Parser) match(k lex.Kind) bool {
 func (p *Parser) next() *lex.Token {
 	// Panic if unexpectedly no more input
 	if p.pos+1 >= len(p.tokens) {
+		if len(p.errs) == 0 && !p.complete {
+			p.syntaxError("<more input>")
+		}
 		panic(errUnexpectedEof)
 	}
 	token := p.tokens[p.pos]
-- 
2.43.0


From 329b818a18d5eb64d15ef3937722b763d8b84c60 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:49:02 +0000
Subject: [PATCH 04/48] fix: reject comparisons of non-integers instead of
 crashing in code generation

---
 semantic.go  | 5 +++++
 typecheck.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/semantic.go b/semantic.go
index 455c491..a2b557f 100644
--- a/semantic.go
+++ b/semantic.go
@@ -65,6 +65,11 @@ var operatorTypes = OperatorTypes{
 	opBXor:   {Integer},
 	opBLeft:  {Integer},
 	opBRight: {Integer},
+	opGt:     {Integer},
+	opGte:    {Integer},
+	opLt:     {Integer},
+	opLte:    {Integer},
+	opEq:     {Integer},
 	// TODO: What about unary operators? Operators which return a different type?
 }
 
diff --git a/typecheck.go b/typecheck.go
index 3bb470d..57db80d 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -192,6 +192,11 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 			errs = append(errs, semanticError2(errMismatchedTypesMsg, left.token, left.typ, right.typ))
 			goto end
 		}
+		if !operatorTypes.isValid(n.op, left.typ.Kind) {
+			// Not valid for op
+			errs = append(errs, semanticError2(errInvalidOperatorTypeMsg, left.token, left.typ, n.token.Val))
+			goto end
+		}
 		n.typ = boolType
 
 	case opStructDcl, opEnumDcl:
-- 
2.43.0


From 9bd90c3a3004fd1b2bca64403f7f9bca728a2061 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:49:02 +0000
Subject: [PATCH 05/48] fix: a failing file read reports the path of the file
 instead of crashing

---
 install/lib/io.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/io.clara b/install/lib/io.clara
index fb268df..70746e5 100644
--- a/install/lib/io.clara
+++ b/install/lib/io.clara
@@ -12,7 +12,7 @@ fn read(f: file, buf: bytes, size: int) option«error» {
     if size > buf.length() {
         return Some(Error(Some("buffer is too small for requested read size"), -1))
     }
-    return read(f.fd, buf, size) == -1 ? Some(Error(Some(file.path), errnum())) : None«error»()
+    return read(f.fd, buf, size) == -1 ? Some(Error(Some(f.path), errnum())) : None«error»()
 }
 // ---------------------------------------------------------------------------------------------------------------------
 // External Functions
-- 
2.43.0


From 290e8780910218d2f6ecf0f332b1ec91fd8dd1f4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:49:25 +0000
Subject: [PATCH 06/48] fix: reject type names used as values

---
 typecheck.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index 57db80d..5a848d3 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -903,6 +903,11 @@ func typeCheckIdentifier(n *Node, symtab *SymTab, allowAmbiguous bool) error {
 	// If no symbol - try to find identifier declaration
 	if n.sym == nil {
 		sym, found := symtab.Resolve(n.token.Val)
+		// Types are not values but functions may share their name
+		for found && sym.IsType {
+			sym = sym.Next
+			found = sym != nil
+		}
 		if !found {
 			return semanticError(errUnknownVarMsg, n.token)
 		}
-- 
2.43.0


From a581d0fcd619b4c01c19089a27a4e6dff7e4354e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:49:31 +0000
Subject: [PATCH 07/48] fix: report type errors inside anonymous functions in
 array literals and ternaries

---
 typecheck.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 5a848d3..b0a4070 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -519,44 +519,44 @@ func typeCheckCase(n *Node, bound map[*Type]*Type, symtab *SymTab, fn *FunctionT
 	return errs
 }
 
-func typeCheckTernary(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []error {
+func typeCheckTernary(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
 	cond := n.left
-	if errs := typeCheck(cond, symtab, fn, debug); !cond.hasType() {
+	if errs = append(errs, typeCheck(cond, symtab, fn, debug)...); !cond.hasType() {
 		return errs
 	}
 	if !cond.typ.Is(Boolean) {
-		return []error{ semanticError2(errMismatchedTypesMsg, cond.token, cond.typ, boolType) }
+		return append(errs, semanticError2(errMismatchedTypesMsg, cond.token, cond.typ, boolType))
 	}
 	ifExpr := n.stmts[0]
-	if errs := typeCheck(ifExpr, symtab, fn, debug); !ifExpr.hasType() {
+	if errs = append(errs, typeCheck(ifExpr, symtab, fn, debug)...); !ifExpr.hasType() {
 		return errs
 	}
 	elseExpr := n.stmts[1]
-	if errs := typeCheck(elseExpr, symtab, fn, debug); !elseExpr.hasType() {
+	if errs = append(errs, typeCheck(elseExpr, symtab, fn, debug)...); !elseExpr.hasType() {
 		return errs
 	}
 	if !ifExpr.typ.Matches(elseExpr.typ) {
-		return []error{ semanticError2(errMismatchedTypesMsg, elseExpr.token, elseExpr.typ, ifExpr.typ) }
+		return append(errs, semanticError2(errMismatchedTypesMsg, elseExpr.token, elseExpr.typ, ifExpr.typ))
 	}
 	n.typ = ifExpr.typ
-	return nil
+	return errs
 }
 
-func typeCheckArrayLit(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []error {
+func typeCheckArrayLit(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
 	if len(n.stmts) == 0 {
 		return []error{ semanticError(errEmptyArrayLiteralMsg, n.token) }
 	}
 	for _, expr := range n.stmts {
-		if errs := typeCheck(expr, symtab, fn, debug); !expr.hasType() {
+		if errs = append(errs, typeCheck(expr, symtab, fn, debug)...); !expr.hasType() {
 			return errs
 		}
 		// Type of first element defines type for rest of elements
 		if !expr.typ.Matches(n.stmts[0].typ) {
-			return []error{ semanticError2(errMismatchedTypesMsg, expr.token, expr.typ, intType) }
+			return append(errs, semanticError2(errMismatchedTypesMsg, expr.token, expr.typ, n.stmts[0].typ))
 		}
 	}
 	n.typ = &Type{Kind: Array, Data: &ArrayType{Elem: n.stmts[0].typ}}
-	return nil
+	return errs
 }
 
 func typeCheckFor(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
-- 
2.43.0


From 52ce80bc2c5b226898e20f95eca51ce91a572031 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:50:49 +0000
Subject: [PATCH 08/48] fix: resolve overloaded function arguments afresh for
 each candidate

---
 typecheck.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index b0a4070..44a1c46 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -725,6 +725,16 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 		return nil, semanticError2(errInvalidNumberTypeArgsMsg, n.token, len(types), len(f.Types))
 	}
 
+	// Overloads chosen for named function arguments. Only applied if the whole call matches
+	// as otherwise the remaining candidates would be matched against the wrong symbols
+	chosen := make(map[*Node]*Symbol)
+	applyChosen := func() {
+		for arg, s := range chosen {
+			arg.sym = s
+			arg.typ = s.Type
+		}
+	}
+
 	//
 	// TODO: This is horrible!
 	//
@@ -738,8 +748,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
 					if s.Type.Matches(param) {
-						arg.sym = s
-						arg.typ = s.Type
+						chosen[arg] = s
 						continue argCheck
 					}
 				}
@@ -757,6 +766,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 				return nil, semanticError2(errMismatchedTypesMsg, arg.token, arg.typ, param)
 			}
 		}
+		applyChosen()
 		return f.ret, nil
 
 	} else {
@@ -773,8 +783,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
 					if s.Type.PolyMatch(param, bound) {
-						arg.sym = s
-						arg.typ = s.Type
+						chosen[arg] = s
 						continue polyArgCheck
 					}
 				}
@@ -802,6 +811,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			}
 			return nil, semanticError2(errTypeParameterNotKnownMsg, n.token, strings.Join(types, ","), f.ret.String())
 		}
+		applyChosen()
 		return substituteType(f.ret, bound), nil
 	}
 }
-- 
2.43.0


From e74b6656db6045b14dba7c63feb629915e3a2de1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:52:43 +0000
Subject: [PATCH 09/48] fix: report too many parameters, fields or captured
 variables instead of crashing

---
 closures.go | 12 +++++++++++-
 main.go     |  5 ++++-
 semantic.go | 14 ++++++++++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/closures.go b/closures.go
index e902bcb..16ac494 100644
--- a/closures.go
+++ b/closures.go
@@ -7,13 +7,18 @@ import (
 
 var id = uint(0) // TODO: Find a better solution to this...
 
-func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
+func rewriteAnonFnAndClosures(errs *[]error, rootNode *Node, n *Node) {
 
 	if n.isLocalFn() {
 
 		id += 1
 
 		freeVars := clIdentifyFreeVars(n)
+		if len(freeVars) > maxFnArgCount {
+			// Captured variables are passed to the constructor of the environment
+			*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount))
+			return
+		}
 		if len(freeVars) > 0 {
 
 			// ----------------------------------------------------------
@@ -87,6 +92,11 @@ func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
 		// Closure/Anonymous/Fn Pointer Call Site
 		// ----------------------------------------------------------
 
+		if len(n.stmts) > maxDynamicArgCount {
+			*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxDynamicArgCount))
+			return
+		}
+
 		s := rootNode.symtab.MustResolve("invokeDynamic")
 
 		// AST: <name>(args...) -> invokeDynamic(<name>, args...)
diff --git a/main.go b/main.go
index a853ea5..b720ea7 100644
--- a/main.go
+++ b/main.go
@@ -119,9 +119,12 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	WalkPostOrder(rootNode, func(n *Node) { rewriteArrayLiteralExpr(n, rootSymtab) })
 	for _, n := range rootNode.stmts {
 		if !isFn(n, "invokeDynamic") {
-			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(rootNode, n) })
+			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(&errs, rootNode, n) })
 		}
 	}
+	if len(errs) > 0 {
+		return "", errs
+	}
 	WalkPostOrder(rootNode, func(n *Node) { lowerMatchStatement(rootSymtab, n) })
 	WalkPostOrder(rootNode, lowerForStatement)
 	if len(errs) > 0 {
diff --git a/semantic.go b/semantic.go
index a2b557f..542b978 100644
--- a/semantic.go
+++ b/semantic.go
@@ -43,6 +43,7 @@ const (
 	errNoTypeParametersMsg      = "%v:%d:%d: error, type '%v' does not declare type parameters"
 	maxCaseArgCount             = 5
 	maxFnArgCount               = 6
+	maxDynamicArgCount          = maxFnArgCount - 1 // First argument of a dynamic call is the function itself
 
 	// Debug messages
 	debugTypeInfoFormat = "⚫ %s%-60s%s %s%-30s%s ⇨ %s%s%s\n"
@@ -385,6 +386,14 @@ func processFnType(n *Node, symName string, symtab *SymTab, child *SymTab, types
 		fnType.Params = append(fnType.Params, paramType)
 	}
 
+	maxArgs := maxFnArgCount
+	if n.isLocalFn() {
+		maxArgs = maxDynamicArgCount
+	}
+	if len(fnType.Params) > maxArgs {
+		return nil, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxArgs)
+	}
+
 	// Process return
 	fnType.ret = nothingType // Default case
 	if n.left != nil {
@@ -645,6 +654,11 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 		return nil, semanticError(errConstructorOverrideMsg, n.token)
 	}
 
+	// Check constructor can be called
+	if len(n.stmts) > maxFnArgCount {
+		return nil, semanticError2(errTooManyArgsMsg, n.token, name, maxFnArgCount)
+	}
+
 	// Create function
 	st := n.sym.Type
 	ft := &FunctionType{ret: st, Types: st.AsStruct().Types, Kind: StructCons}
-- 
2.43.0


From c6b0adf5e21782c05ff79bb26a9d2d2dbe3e0242 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:53:06 +0000
Subject: [PATCH 10/48] fix: closures capture array index variables and never
 confuse fields with variables

---
 closures.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/closures.go b/closures.go
index 16ac494..5cb5e70 100644
--- a/closures.go
+++ b/closures.go
@@ -149,13 +149,14 @@ type freeVarChecker struct {
 	stack  []*Node
 	scopes []*SymTab
 	free   map[*Symbol]bool
+	fields map[*Node]bool
 }
 
 func NewFreeVarChecker(n *Node) *freeVarChecker {
 	if !n.Is(opBlockFnDcl, opExprFnDcl) {
 		panic(fmt.Sprintf("Unexpected node type for free variable checker: %v", nodeTypes[n.op]))
 	}
-	return &freeVarChecker{n: n, free: make(map[*Symbol]bool), scopes: append([]*SymTab(nil), n.symtab)}
+	return &freeVarChecker{n: n, free: make(map[*Symbol]bool), fields: make(map[*Node]bool), scopes: append([]*SymTab(nil), n.symtab)}
 }
 
 func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
@@ -168,14 +169,11 @@ func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
 	case opensScope(n):
 		fc.scopes = append(fc.scopes, n.symtab)
 
-	case n.Is(opIdentifier) && fc.isFree(n):
+	case n.Is(opIdentifier) && !fc.fields[n] && fc.isFree(n):
 		fc.free[n.sym] = true
 
-	case n.Is(opDot, opArray) && n.left.Is(opIdentifier):
-		if fc.isFree(n.left) {
-			fc.free[n.left.sym] = true
-		}
-		return false // No need to walk right!
+	case n.Is(opDot):
+		fc.fields[n.right] = true // Right is a field of left and never a variable
 
 	case n.Is(opBlockFnDcl, opExprFnDcl) && n != fc.n:
 		return false // Don't walk into other closures!
-- 
2.43.0


From c38a40af549a7d417fe50961b5b2ff1c14528697 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:53:11 +0000
Subject: [PATCH 11/48] fix: negative byte indexes panic instead of reading or
 writing outside the object

---
 install/lib/bytes.clara   | 4 ++--
 install/lib/strings.clara | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/install/lib/bytes.clara b/install/lib/bytes.clara
index 58bd149..8be3557 100644
--- a/install/lib/bytes.clara
+++ b/install/lib/bytes.clara
@@ -7,12 +7,12 @@ fn Bytes(length: int) bytes {
 fn length(b: bytes) int = b.toBytesHeader().length
 
 fn get(b: bytes, idx: int) int {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     return b.toPointer(8).readByte(idx).tag() // Tag after read
 }
 
 fn set(b: bytes, idx: int, val: int) {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     b.toPointer(8).writeByte(idx, val.untag()) // Untag before write
 }
 
diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index 929edf9..dee5118 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -1,6 +1,6 @@
 // ---------------------------------------------------------------------------------------------------------------------
 fn byte(s: string, idx: int) int {
-    assert(idx < s.length, "idx is out of range")
+    assert(idx >= 0 and idx < s.length, "idx is out of range")
     return s.toPointer(8).readByte(idx).tag()
 }
 
-- 
2.43.0


From b1a783a2bc71a4b2939604406fe07faa620da8f2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:54:38 +0000
Subject: [PATCH 12/48] fix: negative or unrepresentable lengths panic instead
 of corrupting memory

---
 install/lib/arrays.clara | 4 ++++
 install/lib/bytes.clara  | 1 +
 2 files changed, 5 insertions(+)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 27a9f48..91b5c3b 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -27,6 +27,7 @@ fn arrayNoInit«T»(length: int) []T = array(length, noInit«T»(), "[]T", 7)
 
 // TODO: Should be private
 fn array«T»(length: int, init: fn([]T), description: string, tag: int) []T {
+    assertLength(length)
     // TODO: Would be nice to lookup type ID for default & configure array type ID appropriately
     h := claralloc((length * 8) + 8, description, tag).toHeader() // pointer == 8 bytes, + 8 for length
     h.length = length
@@ -35,6 +36,9 @@ fn array«T»(length: int, init: fn([]T), description: string, tag: int) []T {
     return a
 }
 
+// Bounds length so that the size in bytes can always be represented
+fn assertLength(length: int) = assert(length >= 0 and length <= 0xFFFFFFFFFFFF, "length is out of range")
+
 fn stringArray(length: int, default: string) []string = array(length, initWith(default), "[]string", 3)
 fn intArray(length: int) []int = array(length, noInit«int»(), "[]int", 2)
 
diff --git a/install/lib/bytes.clara b/install/lib/bytes.clara
index 8be3557..72767bd 100644
--- a/install/lib/bytes.clara
+++ b/install/lib/bytes.clara
@@ -1,4 +1,5 @@
 fn Bytes(length: int) bytes {
+    assertLength(length)
     header := claralloc(length + 8, "bytes", 1).toBytesHeader()
     header.length = length
     return header.toBytes()
-- 
2.43.0


From ef3c6716dc27c474e8b2519da5055b4c7f0801d4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:54:43 +0000
Subject: [PATCH 13/48] fix: invalid string ranges panic instead of producing a
 corrupt string

---
 install/lib/strings.clara | 1 +
 1 file changed, 1 insertion(+)

diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index dee5118..8b33cd8 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -151,6 +151,7 @@ fn copyString(src: string, srcPos: int, dest: bytes, destPos: int) {
 fn toString(b: bytes) string = toString(b, b.length())
 fn toString(b: bytes, length: int) string = toString(b, 0, length)
 fn toString(b: bytes, pos: int, length: int) string {
+    assert(pos >= 0 and length >= 0 and length <= b.toBytesHeader().length - pos, "range is out of bounds")
     s := Bytes(length + 1) // + 1 for NUL byte
     s.unsafe(0, type(bytesHeader)).length = length // Ugh!
     copyArray(b, pos, s, 0)
-- 
2.43.0


From 651cb2b3d40dec431fe60e7b5dde2440112a253d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:54:48 +0000
Subject: [PATCH 14/48] fix: byte buffers of any initial capacity grow and
 large ones do not exhaust the stack

---
 install/lib/arrays.clara  | 8 ++++----
 install/lib/strings.clara | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 91b5c3b..e69e555 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -1,11 +1,11 @@
 // ---------------------------------------------------------------------------------------------------------------------
 
 fn copyArray(src: bytes, srcPos: int, dest: bytes, destPos: int) {
-    if src.length() == srcPos or dest.length() == destPos {
-        return
+    while not (src.length() == srcPos or dest.length() == destPos) {
+        dest.set(destPos, src.get(srcPos))
+        srcPos = srcPos+1
+        destPos = destPos+1
     }
-    dest.set(destPos, src.get(srcPos))
-    copyArray(src, srcPos+1, dest, destPos+1)
 }
 
 fn setElement«T»(src: []T, pos: int, val: T) []T {
diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index 8b33cd8..7cc4aef 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -116,7 +116,7 @@ fn append(buf: byteBuffer, b: int) {
 // ---------------------------------------------------------------------------------------------------------------------
 // TODO: Should be "private"
 fn grow(buf: byteBuffer, requiredSize: int) {
-    newSize := buf.data.length() * 2
+    newSize := (buf.data.length() * 2) + 1 // + 1 so that empty buffers grow too
     while newSize < requiredSize {
         newSize = newSize * 2
     }
-- 
2.43.0


From 880a420b2fda827d53f1ee95f644b88338f0bb08 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:54:53 +0000
Subject: [PATCH 15/48] fix: hash maps accept negative hashes

---
 install/lib/map.clara | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/install/lib/map.clara b/install/lib/map.clara
index 3db5a05..d5a151b 100644
--- a/install/lib/map.clara
+++ b/install/lib/map.clara
@@ -67,13 +67,16 @@ fn remove«K, V»(m: map«K, V», key: K) option«V» {
 
 fn orElse«K, V»(m: map«K, V», key: K, other: V) V = m.get(key).orElse(other)
 
-fn indexFor«K, V»(m: map«K, V», key: K) int = m.hasher(key).mod(m.buckets.length)
+fn indexFor«K, V»(m: map«K, V», key: K) int = m.hasher(key).bucketFor(m.buckets.length)
+
+// Bucket for any hash, negative ones included, by assuming power of 2 sizing
+fn bucketFor(hash: int, size: int) int = hash & (size - 1)
 
 fn resize«K, V»(m: map«K, V») {
     buckets := createBuckets«K, V»(m.buckets.length << 1) // Double size of array
     for bucket in m.buckets {
         bucket.foreach(fn(e: entry«K, V») {
-            slot := m.hasher(e.key).mod(buckets.length)
+            slot := m.hasher(e.key).bucketFor(buckets.length)
             buckets[slot] = buckets[slot].append(e)
         })
     }
-- 
2.43.0


From 2c0af21ba7acfad35b104be23b1b44e2a751e4b7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:55:48 +0000
Subject: [PATCH 16/48] fix: for statements evaluate their array once and keep
 the element alive

---
 semantic.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/semantic.go b/semantic.go
index 542b978..3ff0f48 100644
--- a/semantic.go
+++ b/semantic.go
@@ -487,20 +487,15 @@ func lowerForStatement(n *Node) {
 
 		// 2 cases - arrayOrRange or range expression
 		if arrayOrRange.typ.Is(Array) {
-			var stmts []*Node
 
-			// Array literals need assigned to a slot first
-			if arrayOrRange.Is(opArrayLit) {
-				arrayLitSlot := newVar("$arrayLit$", intArrayType)
-				stmts = append(stmts, das(arrayLitSlot, arrayOrRange.left))
-				arrayOrRange = arrayLitSlot
-			}
+			// Assign array to a slot first so that it is evaluated only once
+			array := newVar("$array$", arrayOrRange.typ)
 			val := newVar("$idx$", intType)
-			while := while(lt(val.copy(), length(arrayOrRange)))
-			while.stmts = append(while.stmts, as(n.left, access(arrayOrRange, val.copy())))
+			while := while(lt(val.copy(), length(array.copy())))
+			while.stmts = append(while.stmts, das(n.left, access(array.copy(), val.copy())))
 			while.stmts = append(while.stmts, n.stmts...)
 			while.stmts = append(while.stmts, inc(val.copy(), 1))
-			n.stmts = append(stmts, das(val, intLit(0)), while)
+			n.stmts = []*Node{das(array, arrayOrRange), das(val, intLit(0)), while}
 		} else {
 			val = n.left
 			initVal := arrayOrRange.left
-- 
2.43.0


From a3b5bc9676d9ae183e75a04bc4bad0427895a80a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:55:54 +0000
Subject: [PATCH 17/48] fix: ranges with literal bounds decrease when their
 start exceeds their end

---
 semantic.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index 3ff0f48..2d34266 100644
--- a/semantic.go
+++ b/semantic.go
@@ -501,7 +501,7 @@ func lowerForStatement(n *Node) {
 			initVal := arrayOrRange.left
 			cond := lt(val.copy(), arrayOrRange.right)
 			nextVal := inc(val.copy(), 1)
-			if arrayOrRange.right.Is(opLit) && arrayOrRange.right.token.Val == "0" {
+			if isDecreasing(arrayOrRange) {
 				initVal = plus(arrayOrRange.left, intLit(-1))
 				cond = lte(arrayOrRange.right, val.copy())
 				nextVal = inc(val.copy(), -1)
@@ -520,6 +520,19 @@ func lowerForStatement(n *Node) {
 	}
 }
 
+// A range is known to be decreasing if its literal bounds say so or if it ends at literal zero
+func isDecreasing(n *Node) bool {
+	if !n.right.Is(opLit) {
+		return false
+	}
+	end, _ := strconv.ParseInt(n.right.sym.Name, 0, 64)
+	if !n.left.Is(opLit) {
+		return end == 0
+	}
+	start, _ := strconv.ParseInt(n.left.sym.Name, 0, 64)
+	return start > end
+}
+
 func rewriteArrayLiteralExpr(n *Node, symtab *SymTab) {
 	if n.Is(opArrayLit) {
 		setElement := symtab.MustResolve("setElement")
-- 
2.43.0


From 80d456718d411a67f00c382408e760c8028b5839 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:56:25 +0000
Subject: [PATCH 18/48] fix: values awaiting an index or an assignment target
 are garbage collection roots

---
 codegen.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/codegen.go b/codegen.go
index a02a85a..1d5841e 100644
--- a/codegen.go
+++ b/codegen.go
@@ -525,14 +525,14 @@ func genAssignStmt(asm asmWriter, n *Node, fn *function) {
 
 	// Evaluate expression & push result to stack
 	genExpr(asm, n.right, false, fn)
-	save(asm, fn, rax)
+	saveRoot(asm, fn, rax, n.right.typ)
 
 	// Evaluate mem location to store
 	slot := n.left
 	genExpr(asm, slot, true, fn)
 
 	// Pop result
-	restore(asm, fn, rbx)
+	restoreRoot(asm, fn, rbx, n.right.typ)
 	src := rbx
 
 	// Write slot
@@ -848,7 +848,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 
 		// Calculate array address
 		genExpr(asm, expr.left, false, fn)
-		save(asm, fn, rax)
+		saveRoot(asm, fn, rax, expr.left.typ)
 
 		// Calculate index
 		genExpr(asm, expr.right, false, fn)
@@ -865,7 +865,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(cmpq, rax, rbx) // index - array.length
 
 		// Restore array address before jump!
-		restore(asm, fn, rax)
+		restoreRoot(asm, fn, rax, expr.left.typ)
 		asm.ins(jae, labelOp("ioob"))
 
 		// Displace + ptrSize to skip over length
@@ -928,6 +928,17 @@ func restore(asm asmWriter, fn *function, r reg) {
 	fn.decSp(1)
 }
 
+// As save() but value is a GC root until restored
+func saveRoot(asm asmWriter, fn *function, r reg, t *Type) {
+	save(asm, fn, r)
+	fn.gcRoots.Add(fn.sp*ptrSize, t)
+}
+
+func restoreRoot(asm asmWriter, fn *function, r reg, t *Type) {
+	fn.gcRoots.Remove(fn.sp*ptrSize, t)
+	restore(asm, fn, r)
+}
+
 var ins = make(map[int]inst)
 func init() {
 	ins[opAdd] = addq
-- 
2.43.0


From c55e81c1e7ef1961848fbb0f07f97add86347ffb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:56:38 +0000
Subject: [PATCH 19/48] fix: arguments of external functions stay garbage
 collection roots until all are evaluated

---
 codegen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 1d5841e..d4c0e26 100644
--- a/codegen.go
+++ b/codegen.go
@@ -605,9 +605,12 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 		genExpr(asm, arg, false, f)
 		asm.ins(movq, rax, regs[i])
 		f.RegisterInUse(arg.typ)
+	}
 
-		// Create "raw" values for any external functions which require them
-		if fn.Is(External) && fn.RawValues {
+	// Create "raw" values for any external functions which require them. All arguments must
+	// have been evaluated as raw values cannot be tracked by GC
+	if fn.Is(External) && fn.RawValues {
+		for i, arg := range n.stmts {
 			switch arg.typ.Kind {
 			case String, Array, Bytes:
 				// Modify pointer to point past length
-- 
2.43.0


From a7261d92e5d55e50366a10703bc522db67f7417b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:57:06 +0000
Subject: [PATCH 20/48] fix: variables of closed scopes are no longer garbage
 collection roots

---
 gc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gc.go b/gc.go
index ce9b9e7..9f6fd47 100644
--- a/gc.go
+++ b/gc.go
@@ -47,7 +47,9 @@ func (gs *GcState) OpenScope() {
 }
 
 func (gs *GcState) CloseScope() {
-	gs.roots = gs.roots[:gs.scopes[len(gs.scopes)-1]]
+	last := len(gs.scopes) - 1
+	gs.roots = gs.roots[:gs.scopes[last]]
+	gs.scopes = gs.scopes[:last]
 }
 
 func (gs *GcState) Add(off int, t *Type) {
-- 
2.43.0


From 5376c2c382379f9f6080f6183c4f9f8045941deb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:57:43 +0000
Subject: [PATCH 21/48] fix: integer literals denote their decimal or
 hexadecimal value and must fit 63 bits

---
 semantic.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/semantic.go b/semantic.go
index 2d34266..935f50a 100644
--- a/semantic.go
+++ b/semantic.go
@@ -470,15 +470,25 @@ func foldConstants(errs *[]error, n *Node) {
 		n.left = nil
 	}
 
-	// Check for overflow
+	// Check for overflow & rewrite to decimal without leading zeros, which would mean octal
 	if n.op == opLit && n.token.Kind == lex.Integer {
-		_, err := strconv.ParseInt(n.token.Val, 0, 64)
+		i, err := parseIntLit(n.token.Val)
 		if err != nil {
 			*errs = append(*errs, semanticError(errIntegerOverflowMsg, n.token))
+			return
 		}
+		n.token = lex.WithVal(n.token, strconv.FormatInt(i, 10))
 	}
 }
 
+// Literals are decimal unless prefixed and one bit of every integer holds its tag
+func parseIntLit(s string) (int64, error) {
+	if strings.HasPrefix(strings.TrimPrefix(s, "-"), "0x") {
+		return strconv.ParseInt(strings.Replace(s, "0x", "", 1), 16, 63)
+	}
+	return strconv.ParseInt(s, 10, 63)
+}
+
 func lowerForStatement(n *Node) {
 	// Maybe: for x in b where x > 2 {}      // Iterator with predicate
 	if n.op == opFor {
-- 
2.43.0


From 8a4d55b2a5b6446e89bcf55b716a0419532deaa9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:58:29 +0000
Subject: [PATCH 22/48] fix: string literals keep their exact bytes

---
 asm.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/asm.go b/asm.go
index c615527..a6d9461 100644
--- a/asm.go
+++ b/asm.go
@@ -414,20 +414,34 @@ func (gw *gasWriter) flush() {
 	gw.tab(".data")
 	for s, label := range gw.literals {
 
-		raw, err := strconv.Unquote(s)
-		if err != nil {
-			panic(err)
-		}
-
+		raw := unescape(s[1:len(s)-1])
 		gw.tab(".align", "8")
 		gw.label(label)
 		gw.taggedInt(readOnlyGcHeader(4)) // gc.go defines fixed IDs
 		gw.taggedInt(len(raw))
-		gw.write("   .ascii \"%v\\0\"\n", s[1:len(s)-1])
+		gw.write("   .ascii \"%v\\0\"\n", escape(raw))
 	}
 	gw.literals = make(map[string]string) // Clear values
 }
 
+// Bytes denoted by source code of a string literal. Must handle all escapes accepted by lexer
+func unescape(s string) string {
+	return strings.NewReplacer(`\r`, "\r", `\n`, "\n", `\\`, `\`, `\"`, `"`).Replace(s)
+}
+
+// Assembler source code of a string literal with exactly the given bytes
+func escape(s string) string {
+	var buf bytes.Buffer
+	for i := 0; i < len(s); i++ {
+		if c := s[i]; c < ' ' || c > '~' || c == '"' || c == '\\' {
+			fmt.Fprintf(&buf, `\%03o`, c)
+		} else {
+			buf.WriteByte(c)
+		}
+	}
+	return buf.String()
+}
+
 func (gw *gasWriter) newLabel(s string) string {
 	label := fmt.Sprintf("%v_%v", s, gw.lIndex)
 	gw.lIndex++
-- 
2.43.0


From a2af46a35fb0760917cd61c12119d19654ffd0c5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:58:51 +0000
Subject: [PATCH 23/48] fix: report redeclared generic functions whose type
 parameters only differ in name

---
 ast.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/ast.go b/ast.go
index ee8b38c..7ee95a1 100644
--- a/ast.go
+++ b/ast.go
@@ -168,6 +168,11 @@ func (n *Node) isGenericFnCall() bool {
 }
 
 func (n *Node) typeName() string {
+	return n.typeNameWith(nil)
+}
+
+// Names of type parameters are irrelevant as they do not distinguish functions
+func (n *Node) typeNameWith(typeParameters []*Node) string {
 	switch n.op {
 	case opStructDcl, opEnumDcl:
 		return n.token.Val
@@ -175,35 +180,43 @@ func (n *Node) typeName() string {
 	case opBlockFnDcl, opExternFnDcl, opExprFnDcl:
 		w := bytes.NewBufferString(n.token.Val)
 		w.WriteRune(lex.LParen)
+		if n.right != nil {
+			typeParameters = n.right.params
+		}
 		var paramTypes []string
 		for _, p := range n.params {
-			paramTypes = append(paramTypes, p.left.typeName())
+			paramTypes = append(paramTypes, p.left.typeNameWith(typeParameters))
 		}
 		w.WriteString(strings.Join(paramTypes, ", "))
 		w.WriteRune(lex.RParen)
 		return w.String()
 
 	case opArrayType:
-		return fmt.Sprintf("[]%v", n.left.typeName())
+		return fmt.Sprintf("[]%v", n.left.typeNameWith(typeParameters))
 
 	case opFuncType:
 		var typeParams []string
 		for _, p := range n.stmts {
-			typeParams = append(typeParams, p.typeName())
+			typeParams = append(typeParams, p.typeNameWith(typeParameters))
 		}
 		return fmt.Sprintf("fn(%v)", strings.Join(typeParams, ", "))
 
 	case opNamedType:
 		name := n.token.Val
+		for _, p := range typeParameters {
+			if p.token.Val == name {
+				return "T"
+			}
+		}
 		if n.left != nil {
-			name = name + n.left.typeName()
+			name = name + n.left.typeNameWith(typeParameters)
 		}
 		return name
 
 	case opTypeList:
 		var typeParams []string
 		for _, p := range n.params {
-			typeParams = append(typeParams, p.typeName())
+			typeParams = append(typeParams, p.typeNameWith(typeParameters))
 		}
 		return fmt.Sprintf("«%v»", strings.Join(typeParams, ", "))
 	default:
-- 
2.43.0


From c8cba1e263adc772a3d44728355c542a15eef4f6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:59:08 +0000
Subject: [PATCH 24/48] fix: report any conflict with a struct constructor and
 support non-ASCII struct names

---
 semantic.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/semantic.go b/semantic.go
index 935f50a..05492fe 100644
--- a/semantic.go
+++ b/semantic.go
@@ -6,6 +6,7 @@ import (
 	"github.com/g-dx/clarac/lex"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 //
@@ -650,7 +651,8 @@ func generateStructConstructors(errs *[]error, root *Node, n *Node) {
 func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 
 	name := n.token.Val
-	firstLetter := name[:1]
+	_, width := utf8.DecodeRuneInString(name)
+	firstLetter := name[:width]
 
 	// Check struct begins with lowercase
 	if strings.ToUpper(firstLetter) == firstLetter {
@@ -658,18 +660,16 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 	}
 
 	// Create name
-	constructorName := strings.ToUpper(firstLetter) + name[1:]
+	constructorName := strings.ToUpper(firstLetter) + name[width:]
 
 	// Ensure there are no other function definitions with this name
 	if _, found := root.symtab.Resolve(constructorName); found {
-		var n *Node
 		for _, x := range root.stmts {
-			if x.isFuncDcl() && x.token.Val == constructorName {
-				n = x
-				break
+			if (x.isFuncDcl() || x.Is(opEnumDcl)) && x.token.Val == constructorName {
+				return nil, semanticError(errConstructorOverrideMsg, x.token)
 			}
 		}
-		return nil, semanticError(errConstructorOverrideMsg, n.token)
+		return nil, semanticError2(errConstructorOverrideMsg, n.token, constructorName)
 	}
 
 	// Check constructor can be called
-- 
2.43.0


From 34b8577b2b6aeef732557471851bae7c8c83370b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:59:31 +0000
Subject: [PATCH 25/48] fix: concurrent compilations no longer share an
 assembly file

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index b720ea7..d3a96a7 100644
--- a/main.go
+++ b/main.go
@@ -139,12 +139,12 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	// Create assembly file
 	basename := filepath.Base(progPath)
 	progName := strings.TrimSuffix(basename, filepath.Ext(basename))
-	asmPath := fmt.Sprintf("%v/%v.S", os.TempDir(), progName)
-	os.Remove(asmPath) // Ignore error
-	f, err := os.Create(asmPath)
+	f, err := ioutil.TempFile("", progName+"-*.S") // Unique as compilations may run concurrently
 	if err != nil {
 		return "", []error{err}
 	}
+	asmPath := f.Name()
+	defer os.Remove(asmPath)
 
 	// Generate assembly
 	asm := NewGasWriter(f, options.showAsm)
-- 
2.43.0


From 9ee31ce5e7480688eea25b8d6f14049475a41c0e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:59:43 +0000
Subject: [PATCH 26/48] fix: never overwrite the program being compiled

---
 main.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index d3a96a7..b3c8376 100644
--- a/main.go
+++ b/main.go
@@ -139,6 +139,10 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	// Create assembly file
 	basename := filepath.Base(progPath)
 	progName := strings.TrimSuffix(basename, filepath.Ext(basename))
+	outputPath := filepath.Join(outPath, progName)
+	if isSameFile(progPath, outputPath) {
+		return "", []error{fmt.Errorf("%v: error, program would be overwritten by its executable", progPath)}
+	}
 	f, err := ioutil.TempFile("", progName+"-*.S") // Unique as compilations may run concurrently
 	if err != nil {
 		return "", []error{err}
@@ -155,7 +159,6 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	f.Close()
 
 	// Invoke gcc to link files
-	outputPath := filepath.Join(outPath, progName)
 	args := []string { "-fno-pie" }
 	if runtime.GOOS == "linux" {
 		args = append(args, "-no-pie")
@@ -234,6 +237,15 @@ func printLex(tokens []*lex.Token, out io.Writer) {
 	}
 }
 
+func isSameFile(a, b string) bool {
+	ai, err := os.Stat(a)
+	if err != nil {
+		return false
+	}
+	bi, err := os.Stat(b)
+	return err == nil && os.SameFile(ai, bi)
+}
+
 func glob(pattern string) []string {
 	paths, err := filepath.Glob(pattern)
 	if err != nil {
-- 
2.43.0


From 4f8812d02c2f18696b326de5f3862ee40f12c2ea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 23:00:27 +0000
Subject: [PATCH 27/48] fix: a call following a dot selected call applies to
 its result

---
 parse.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 892a389..685f919 100644
--- a/parse.go
+++ b/parse.go
@@ -288,6 +288,18 @@ func parseBinaryOperator(p *Parser, left *Node, token *lex.Token) *Node {
 	return &Node{op: infixKindToOp[token.Kind], token: token, left: left, right: p.parseExpr(precedence)}
 }
 
+// Only a call which directly follows is part of the selection. Any further call, x.f()(), applies to its result
+func parseDot(p *Parser, left *Node, token *lex.Token) *Node {
+	right := p.parseExpr(lex.Kind(lex.LParen).Precedence())
+	switch p.Kind() {
+	case lex.LParen:
+		right = parseCall(p, right, p.next())
+	case lex.LGmet:
+		right = parseTypedCall(p, right, p.next())
+	}
+	return &Node{op: opDot, token: token, left: left, right: right}
+}
+
 func parseTernaryOperator(p *Parser, left *Node, token *lex.Token) *Node {
 	ifExpr := p.parseExpr(0)
 	p.need(lex.Colon)
@@ -386,7 +398,6 @@ var infixKindToOp = map[lex.Kind]int{
 	lex.Lt: opLt,
 	lex.Lte: opLte,
 	lex.Eq: opEq,
-	lex.Dot: opDot,
 	lex.Or: opOr,
 	lex.And: opAnd,
 }
@@ -410,8 +421,9 @@ func init() {
 	infixParsers[lex.LGmet] = parseTypedCall
 	infixParsers[lex.LBrack] = parseArray
 	infixParsers[lex.Question] = parseTernaryOperator
+	infixParsers[lex.Dot] = parseDot
 
-	binaryOperators(lex.Dot, lex.Plus, lex.Min, lex.Mul, lex.Div,
+	binaryOperators(lex.Plus, lex.Min, lex.Mul, lex.Div,
 		lex.BLeft, lex.BRight, lex.BRight, lex.BAnd, lex.BOr,
 		lex.BXor, lex.Gt, lex.Gte, lex.Lt, lex.Lte, lex.Eq,
 		lex.Or, lex.And)
-- 
2.43.0


From 56d96aa344415500720b2c3370d776cd9907387d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 23:32:39 +0000
Subject: [PATCH 28/48] fix: call results and functions are not assignable

---
 ast.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index 7ee95a1..3a0c5db 100644
--- a/ast.go
+++ b/ast.go
@@ -37,8 +37,7 @@ func (n *Node) hasType() bool {
 func (n *Node) isAddressable() bool {
 	switch n.op {
 	case opArray: return true
-	case opFuncCall: return n.typ.Is(Struct) || n.typ.Is(Array)
-	case opIdentifier: return true
+	case opIdentifier: return !n.sym.IsGlobal // Functions are not variables
 	case opDot: return true
 	default:
 		return false
-- 
2.43.0


From 6d70dec14f8e415c5b148b342d68f36ef40b50be Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 23:32:58 +0000
Subject: [PATCH 29/48] fix: functions cannot share the name of an enum
 constructor

---
 semantic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index 05492fe..b608344 100644
--- a/semantic.go
+++ b/semantic.go
@@ -350,7 +350,8 @@ func processFnType(n *Node, symName string, symtab *SymTab, child *SymTab, types
 	}
 	sym := &Symbol{Name: symName, IsGlobal: true, Type: &Type{Kind: Function, Data: fnType}}
 	if s, found := symtab.Define(sym); found {
-		if !allowOverload {
+		// Enum constructors can neither overload nor be overloaded
+		if !allowOverload || (s.Type.Is(Function) && s.Type.AsFunction().Is(EnumCons)) {
 			return nil, semanticError(errRedeclaredMsg, n.token)
 		}
 		for ; s.Next != nil; s = s.Next { /* ... */
-- 
2.43.0


From 8448c9d478464d64e99797a96011d5dc49d160eb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 23:52:14 +0000
Subject: [PATCH 30/48] fix: syntax errors in expressions point at the
 offending token

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 685f919..1ec0b21 100644
--- a/parse.go
+++ b/parse.go
@@ -443,14 +443,14 @@ func prefixOperators(kinds ... lex.Kind) {
 }
 
 func (p *Parser) parseExpr(precedence int) *Node {
-	token := p.next()
-	prefix := prefixParsers[token.Kind];
+	prefix := prefixParsers[p.Kind()]
 
 	// Skip token & continue
 	if prefix == nil {
 		p.syntaxError("<expression>")
 		return &Node{op: opError, token: p.next()}
 	}
+	token := p.next()
 
 	nextPrecedence := func(next lex.Kind) int {
 		if _, ok := infixParsers[next]; !ok {
-- 
2.43.0


From dc687f8bef73ca402b22b59f72033cdad4f421bf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:12:15 +0000
Subject: [PATCH 31/48] fix: types named array or T no longer clash with arrays
 and type parameters in assembly

---
 symtab.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symtab.go b/symtab.go
index d1faa2d..5fd85b8 100644
--- a/symtab.go
+++ b/symtab.go
@@ -241,7 +241,10 @@ func (t *Type) String() string {
 func (t *Type) AsmName() string {
 	switch t.Kind {
 	case Array:
-		return fmt.Sprintf("array$%v$", t.AsArray().Elem.AsmName())
+		// NOTE: No user defined type can start with '$'
+		return fmt.Sprintf("$array$%v$", t.AsArray().Elem.AsmName())
+	case Parameter:
+		return fmt.Sprintf("$%v", t.Kind)
 	case Struct:
 		st := t.AsStruct()
 		if len(st.Types) == 0 {
-- 
2.43.0


From 8a2e036aacd46991719e9b46f19df2081d089a3e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:13:02 +0000
Subject: [PATCH 32/48] fix: overloads of main no longer share its assembly
 name

---
 symtab.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symtab.go b/symtab.go
index 5fd85b8..caec8d1 100644
--- a/symtab.go
+++ b/symtab.go
@@ -345,7 +345,7 @@ func (ft *FunctionType) AsmName(name string) string {
 	if ft.Is(External) {
 		return name
 	}
-	if name == "main" {
+	if name == "main" && len(ft.Params) == 0 {
 		return fnPrefix + "main"
 	}
 
-- 
2.43.0


From 5bf5cebbe943cda1ff385f08a45ee342f9431df2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:24:33 +0000
Subject: [PATCH 33/48] fix: types may share the name of any runtime function

---
 closures.go |  2 +-
 codegen.go  |  6 +++---
 semantic.go |  6 +++---
 symtab.go   | 11 +++++++++++
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/closures.go b/closures.go
index 5cb5e70..49ab2b6 100644
--- a/closures.go
+++ b/closures.go
@@ -97,7 +97,7 @@ func rewriteAnonFnAndClosures(errs *[]error, rootNode *Node, n *Node) {
 			return
 		}
 
-		s := rootNode.symtab.MustResolve("invokeDynamic")
+		s := rootNode.symtab.MustResolveFn("invokeDynamic")
 
 		// AST: <name>(args...) -> invokeDynamic(<name>, args...)
 		n.stmts = append([]*Node{n.left}, n.stmts...)
diff --git a/codegen.go b/codegen.go
index d4c0e26..8df4dd8 100644
--- a/codegen.go
+++ b/codegen.go
@@ -116,9 +116,9 @@ func codegen(symtab *SymTab, tree []*Node, asm asmWriter) error {
 	// ---------------------------------------------------------------------------------------
 
 	// Runtime functions declared in Clara code
-	ioob := symtab.MustResolve("indexOutOfBounds")
-	alloc := symtab.MustResolve("claralloc")
-	entrypoint := symtab.MustResolve("entrypoint")
+	ioob := symtab.MustResolveFn("indexOutOfBounds")
+	alloc := symtab.MustResolveFn("claralloc")
+	entrypoint := symtab.MustResolveFn("entrypoint")
 
 	// Holds compilation state for current function
 	fn := &function{}
diff --git a/semantic.go b/semantic.go
index b608344..a9cebe9 100644
--- a/semantic.go
+++ b/semantic.go
@@ -547,8 +547,8 @@ func isDecreasing(n *Node) bool {
 
 func rewriteArrayLiteralExpr(n *Node, symtab *SymTab) {
 	if n.Is(opArrayLit) {
-		setElement := symtab.MustResolve("setElement")
-		x := fnCallBySym(lex.NoToken, symtab.MustResolve("arrayNoInit"), intLit(len(n.stmts)))
+		setElement := symtab.MustResolveFn("setElement")
+		x := fnCallBySym(lex.NoToken, symtab.MustResolveFn("arrayNoInit"), intLit(len(n.stmts)))
 		for i, expr := range n.stmts {
 			if i < len(n.stmts) {
 				x = fnCallBySym(lex.NoToken, setElement, x, intLit(i), expr)
@@ -588,7 +588,7 @@ func lowerMatchStatement(symtab *SymTab, n *Node) {
 		matchExpr := das(matchVar, n.left)
 
 		// Convert cases to if/else if
-		asEnum := symtab.MustResolve("asEnum")
+		asEnum := symtab.MustResolveFn("asEnum")
 		enum := symtab.MustResolve("enum_").Type.AsStruct()
 		var cur *Node
 		for i, cas := range n.stmts {
diff --git a/symtab.go b/symtab.go
index caec8d1..7e99627 100644
--- a/symtab.go
+++ b/symtab.go
@@ -538,6 +538,17 @@ func (st *SymTab) MustResolve(name string) *Symbol {
 	return s
 }
 
+// Functions may share their name with a type
+func (st *SymTab) MustResolveFn(name string) *Symbol {
+	s := st.MustResolve(name)
+	for ; s.Type.Kind != Function; s = s.Next {
+		if s.Next == nil {
+			panic(fmt.Sprintf("Required function '%v' not found!", name))
+		}
+	}
+	return s
+}
+
 func (st *SymTab) Parent() *SymTab {
 	return st.parent
 }
-- 
2.43.0


From a0a866f54a964922a3790da5380c68d8ff6f25fc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:30:46 +0000
Subject: [PATCH 34/48] fix: type parameters only used in a returned function
 type must be given explicitly

---
 typecheck.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 44a1c46..b9e4b9b 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -873,10 +873,10 @@ func findUnboundTypeParameters(t *Type, bound map[*Type]*Type) []*Type {
 	case t.Is(Function):
 		f := t.AsFunction()
 		var unmatched []*Type
-		for _, f := range f.Types {
-			unmatched = append(unmatched, findUnboundTypeParameters(f, bound)...)
+		for _, p := range f.Params {
+			unmatched = append(unmatched, findUnboundTypeParameters(p, bound)...)
 		}
-		return unmatched
+		return append(unmatched, findUnboundTypeParameters(f.ret, bound)...)
 
 	case t.Is(Struct):
 		s := t.AsStruct()
-- 
2.43.0


From db244a43ad2f0b9e566eee06faf34d9300e04feb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:33:01 +0000
Subject: [PATCH 35/48] fix: fields of generic struct instances do not depend
 on declaration order and may be recursive

---
 codegen.go   |  2 +-
 symtab.go    | 19 ++++++++++++++++++-
 typecheck.go | 11 +++++++----
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/codegen.go b/codegen.go
index 8df4dd8..94439f4 100644
--- a/codegen.go
+++ b/codegen.go
@@ -235,7 +235,7 @@ func genTypeInfoTable(asm asmWriter, gt *GcTypes) {
 
 			// Gather field offsets
 			var off []int
-			for _, f := range t.AsStruct().Fields {
+			for _, f := range t.AsStruct().GetFields() {
 				if f.Type.IsPointer() {
 					off = append(off, f.Addr/ptrSize)
 				}
diff --git a/symtab.go b/symtab.go
index 7e99627..3ff617b 100644
--- a/symtab.go
+++ b/symtab.go
@@ -287,10 +287,27 @@ type StructType struct {
 	Name   string
 	Fields []*Symbol
 	Types  []*Type
+	decl   *StructType // Generic struct this is an instance of, if any
+}
+
+// Fields of an instance are only known once those of its declaration are & may refer to the instance itself
+func (st *StructType) GetFields() []*Symbol {
+	if st.decl == nil {
+		return st.Fields
+	}
+	bound := make(map[*Type]*Type)
+	for i, t := range st.decl.Types {
+		bound[t] = st.Types[i]
+	}
+	var fields []*Symbol
+	for i, f := range st.decl.Fields {
+		fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteType(f.Type, bound)})
+	}
+	return fields
 }
 
 func (st *StructType) GetField(name string) *Symbol {
-	for _, field := range st.Fields {
+	for _, field := range st.GetFields() {
 		if field.Name == name {
 			return field
 		}
diff --git a/typecheck.go b/typecheck.go
index b9e4b9b..0eddc3c 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -841,11 +841,14 @@ func substituteType(t *Type, bound map[*Type]*Type) *Type {
 		for _, tp := range s.Types {
 			types = append(types, substituteType(tp, bound))
 		}
-		var fields []*Symbol
-		for i, f := range s.Fields {
-			fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteType(f.Type, bound)})
+		if len(types) == 0 {
+			return t
 		}
-		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Fields: fields, Types: types}}
+		decl := s.decl
+		if decl == nil {
+			decl = s
+		}
+		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Types: types, decl: decl}}
 
 	case t.Is(Enum):
 		e := t.AsEnum()
-- 
2.43.0


From 4c9eea4c46b330a8c6c364293792a7e0df01222b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:47:08 +0000
Subject: [PATCH 36/48] fix: the order of program arguments is kept and options
 of the program are not reported as errors

---
 install/init/bootstrap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/install/init/bootstrap.c b/install/init/bootstrap.c
index e5df462..1717c66 100644
--- a/install/init/bootstrap.c
+++ b/install/init/bootstrap.c
@@ -18,11 +18,12 @@ static struct option options[] =
 
 int main(int argc, char** argv, char** envp)
 {
+    opterr = 0; // All other options belong to the program
     while (1)
     {
         // Parse next option & check for end of input
         int index = 0;
-        int c = getopt_long(argc, argv, "g", options, &index);
+        int c = getopt_long(argc, argv, "-g", options, &index); // Leading "-" leaves arguments in order
         if (c == -1)
         {
             break;
-- 
2.43.0


From 0f399475ea3d7ce6c8f87d5e0bdf4a8ae6ccef80 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 00:51:35 +0000
Subject: [PATCH 37/48] fix: reading all of a file that was read or moved in
 before returned NUL bytes

---
 install/lib/fs.clara | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/install/lib/fs.clara b/install/lib/fs.clara
index 5795188..b0e20f9 100644
--- a/install/lib/fs.clara
+++ b/install/lib/fs.clara
@@ -10,7 +10,9 @@ fn open(path: string) result«file, error» {
 }
 
 fn readAll(f: file) result«string, error» {
-    return f.size()
+    // Go to start so that the bytes read are all those counted
+    return f.seek(0, 0)
+        .then(fn(start: int) result«int, error» = f.size())
         .map(Bytes)
         .peek(fn(buf: bytes) option«error» = f.read(buf, buf.length()))
         .map(toString)
-- 
2.43.0


From 1809ac47ca9da4d742f865d59d347cacc45d716e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:20:37 +0000
Subject: [PATCH 38/48] fix: functions with any number of variables assemble

---
 asm.go     | 6 +++---
 codegen.go | 9 ++++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/asm.go b/asm.go
index a6d9461..0eb18ce 100644
--- a/asm.go
+++ b/asm.go
@@ -20,7 +20,7 @@ type operand interface {
 type memOp struct {
 	base  reg
 	idx   reg
-	disp  int16
+	disp  int32
 	scl   int16
 	indir bool
 	deref bool
@@ -37,7 +37,7 @@ func (mo memOp) scale(m int) memOp {
 }
 
 func (mo memOp) displace(m int) memOp {
-	mo.disp = int16(m)
+	mo.disp = int32(m)
 	return mo
 }
 
@@ -206,7 +206,7 @@ func (r reg) indirect() memOp {
 }
 
 func (r reg) displace(i int) memOp {
-	if i > math.MaxInt16 || i < math.MinInt16 {
+	if i > math.MaxInt32 || i < math.MinInt32 {
 		panic(fmt.Sprintf("Cannot represent displacement: %v", i))
 	}
 	return r.deref().displace(i)
diff --git a/codegen.go b/codegen.go
index 94439f4..41703a2 100644
--- a/codegen.go
+++ b/codegen.go
@@ -411,7 +411,14 @@ func genFnEntry(asm asmWriter, name string, temps int) int {
 		temps += 1
 	}
 	asm.fnStart(name)
-	asm.ins(enter, intOp(temps*8), intOp(0))
+	size := temps * ptrSize
+	if size <= math.MaxUint16 {
+		asm.ins(enter, intOp(size), intOp(0))
+	} else {
+		// Enter can only reserve 16-bit sizes
+		asm.ins(enter, intOp(0), intOp(0))
+		asm.ins(subq, intOp(size), rsp)
+	}
 	return temps
 }
 
-- 
2.43.0


From 6ad27bcb1be80150e93d9f14b90f729f884890ee Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:25:41 +0000
Subject: [PATCH 39/48] fix: functions may be overloaded by the result of a
 function parameter

---
 ast.go    | 6 +++++-
 symtab.go | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 3a0c5db..a07bbb0 100644
--- a/ast.go
+++ b/ast.go
@@ -198,7 +198,11 @@ func (n *Node) typeNameWith(typeParameters []*Node) string {
 		for _, p := range n.stmts {
 			typeParams = append(typeParams, p.typeNameWith(typeParameters))
 		}
-		return fmt.Sprintf("fn(%v)", strings.Join(typeParams, ", "))
+		ret := nothingType.String()
+		if n.left != nil {
+			ret = n.left.typeNameWith(typeParameters)
+		}
+		return fmt.Sprintf("fn(%v) %v", strings.Join(typeParams, ", "), ret)
 
 	case opNamedType:
 		name := n.token.Val
diff --git a/symtab.go b/symtab.go
index 3ff617b..691610b 100644
--- a/symtab.go
+++ b/symtab.go
@@ -275,6 +275,9 @@ func (t *Type) AsmName() string {
 			}
 			buf.WriteString("$")
 		}
+		if !fn.ret.Is(Nothing) {
+			buf.WriteString(fmt.Sprintf("$$%v$", fn.ret.AsmName()))
+		}
 		return buf.String()
 	default:
 		return t.Kind.String()
-- 
2.43.0


From a2b2b5b4c1dac0914a1fbfe854b5bd2a2bef3ef6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 01:35:43 +0000
Subject: [PATCH 40/48] fix: overloads that do not match leave no type bindings
 behind

---
 typecheck.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index 0eddc3c..96058a2 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -782,8 +782,14 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			// If the argument is a named function is may be overloaded so check all symbols
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
-					if s.Type.PolyMatch(param, bound) {
+					// Candidates which turn out not to match must not leave bindings behind
+					b := make(map[*Type]*Type)
+					for k, v := range bound {
+						b[k] = v
+					}
+					if s.Type.PolyMatch(param, b) {
 						chosen[arg] = s
+						bound = b
 						continue polyArgCheck
 					}
 				}
-- 
2.43.0


From 2786361e514d8ab119228e56f396f626b4d6744e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:48:11 +0000
Subject: [PATCH 41/48] fix: variables and overloads named as a special
 function keep their own type

A call of a variable, parameter or overload named printf, debug or unsafe was
typed as a call of the special function of that name.
---
 symtab.go    |  9 +++++++++
 typecheck.go | 16 +++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/symtab.go b/symtab.go
index 691610b..ce09f04 100644
--- a/symtab.go
+++ b/symtab.go
@@ -491,6 +491,15 @@ func NewStackSym(name string, t *Type) *Symbol {
 	return &Symbol{Name: name, IsStack: true, Type: t}
 }
 
+// printf & debug
+func (s *Symbol) isVariadicFn() bool {
+	return s != nil && s.Type.Is(Function) && s.Type.AsFunction().isVariadic
+}
+
+func (s *Symbol) isUnsafeFn() bool {
+	return s != nil && s.IsGlobal && s.Name == "unsafe" && s.Type.Is(Function) && s.Type.AsFunction().Is(External)
+}
+
 func (s *Symbol) Describe() string {
 	switch s.Type.Kind {
 	case Function:
diff --git a/typecheck.go b/typecheck.go
index 96058a2..765b2bd 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -644,17 +644,23 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 		}
 	}
 
+	// Variables & overloads may share the name of a special function
+	if s := n.left.sym; s.isVariadicFn() || s.isUnsafeFn() {
+		if match, retType, _ := matchFuncCallBySymbol(s.Next, n); match != nil {
+			n.left.sym = match
+			n.typ = retType
+			return errs
+		}
+	}
+
 	// SPECIAL CASE: Skip dealing with variadic functions as printf & debug are the only ones
-	if n.left.token.Val == "printf" || n.left.token.Val == "debug" {
-		s, _ := fnSymtab.Resolve(n.left.token.Val)
-		n.left.sym = s
+	if n.left.sym.isVariadicFn() {
 		n.typ = nothingType
 		return errs
 	}
 
 	// SPECIAL CASE: Allow anything into the unsafe function
-	if n.left.token.Val == "unsafe" {
-		s, _ := fnSymtab.Resolve(n.left.token.Val)
+	if s := n.left.sym; s.isUnsafeFn() {
 		unsafe := s.Type.AsFunction()
 		if len(n.stmts) != 3 {
 			return append(errs, semanticError2(errInvalidNumberArgsMsg, n.left.token, len(n.stmts), len(unsafe.Params)))
-- 
2.43.0


From af297980f8b06d03fd77715798d3012e2f5804eb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:48:38 +0000
Subject: [PATCH 42/48] fix: functions named invokeDynamic may use closures

Anonymous functions and closures were left unlowered in every function of
that name and not only in the one of the runtime.
---
 main.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index b3c8376..780b042 100644
--- a/main.go
+++ b/main.go
@@ -117,8 +117,9 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 
 	// Post-typecheck AST rewrite
 	WalkPostOrder(rootNode, func(n *Node) { rewriteArrayLiteralExpr(n, rootSymtab) })
+	invokeDynamic := rootSymtab.MustResolveFn("invokeDynamic") // Programs may declare overloads
 	for _, n := range rootNode.stmts {
-		if !isFn(n, "invokeDynamic") {
+		if n.sym != invokeDynamic {
 			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(&errs, rootNode, n) })
 		}
 	}
@@ -226,10 +227,6 @@ func stdSyms() []*Symbol {
 	}
 }
 
-func isFn(n *Node, name string) bool {
-	return n.Is(opBlockFnDcl) && n.token.Val == name
-}
-
 func printLex(tokens []*lex.Token, out io.Writer) {
 	fmt.Fprintln(out, "\nLexical Tokens")
 	for _, token := range tokens {
-- 
2.43.0


From dbba69bfd5f63ad208e602c59e6173b2cc235317 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:48:38 +0000
Subject: [PATCH 43/48] fix: a type named T does not clash with type parameters

A function taking an enum T was a redeclaration of a generic function.
---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index a07bbb0..70f7d74 100644
--- a/ast.go
+++ b/ast.go
@@ -208,7 +208,7 @@ func (n *Node) typeNameWith(typeParameters []*Node) string {
 		name := n.token.Val
 		for _, p := range typeParameters {
 			if p.token.Val == name {
-				return "T"
+				return "$T" // NOTE: No user defined type can start with '$'
 			}
 		}
 		if n.left != nil {
-- 
2.43.0


From 8542ea2e8e090fe5c8b39d892da05993151fd762 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 02:49:03 +0000
Subject: [PATCH 44/48] fix: expression functions and ternaries can be called
 directly

(fn(a: int) int = a)(1) and (c ? f : g)(1) were rejected although the call of
a block function, array element or call result was not.
---
 typecheck.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index 765b2bd..5d2479d 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -603,7 +603,7 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 
 	// Typecheck function call source
 	switch n.left.op {
-	case opBlockFnDcl, opDot, opFuncCall, opArray:
+	case opBlockFnDcl, opExprFnDcl, opTernary, opDot, opFuncCall, opArray:
 		errs = append(errs, typeCheck(n.left, symtab, fn, debug)...)
 	case opIdentifier:
 		err := typeCheckIdentifier(n.left, symtab, true)
-- 
2.43.0


From 05a99704ca194fda79edb0f9e83984d1914c6dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:40 +0000
Subject: [PATCH 45/48] fix: type parameters may share the name of a matched
 enum

---
 typecheck.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index 5d2479d..4364123 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -421,7 +421,8 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 		// to ensure variables are correctly typed
 		bound := emptyMap
 		if len(enum.Types) > 0 {
-			s, _ := symtab.ResolveAll(enum.Name, func(s *Symbol) bool { return s.IsType })
+			// Type parameters may share the name of the enum
+			s, _ := symtab.ResolveAll(enum.Name, func(s *Symbol) bool { return s.IsType && s.IsGlobal })
 			bound = make(map[*Type]*Type)
 			for i, t := range enum.Types {
 				bound[s.Type.AsEnum().Types[i]] = t
-- 
2.43.0


From 9b40b51689376f1648c33d5198e3583d7e8cf657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:25 +0000
Subject: [PATCH 46/48] fix: the fields of a function's result are not fields
 of the function

---
 typecheck.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 4364123..46f7eeb 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -291,8 +291,6 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 			var strct *StructType
 			if left.typ.Is(Struct) {
 				strct = left.typ.AsStruct()
-			} else if left.typ.IsFunction(Struct) && left.op == opFuncCall {
-				strct = left.typ.AsFunction().ret.AsStruct()
 			} else {
 				errs = append(errs, semanticError(errNotStructMsg, left.token))
 				goto end
-- 
2.43.0


From dd6d25ac3d8342449595279ef5b0a880037e89d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:23 +0000
Subject: [PATCH 47/48] fix: reject anonymous functions with invalid types
 instead of crashing

---
 typecheck.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index 46f7eeb..f7c8864 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -211,8 +211,11 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 				errs = append(errs, err)
 				goto end
 			}
+			if fnErrs := instantiateFunctionTypes(n); len(fnErrs) > 0 {
+				errs = append(errs, fnErrs...)
+				goto end
+			}
 			n.typ = n.sym.Type
-			errs = append(errs, instantiateFunctionTypes(n)...)
 		}
 
 		// Type check stmts
-- 
2.43.0


From 440bee28cb59e8706dcebd594322d75870eb9f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:47 +0000
Subject: [PATCH 48/48] fix: external functions can be called through function
 values

---
 codegen.go | 50 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/codegen.go b/codegen.go
index 41703a2..b709317 100644
--- a/codegen.go
+++ b/codegen.go
@@ -34,6 +34,7 @@ type function struct {
 	id      int
 	sp      int
 	reg     [][]*Type // Stack to track register types in use across calls
+	externs map[string]*Symbol // External functions used as values (by any function)
 }
 
 func (f *function) reset(n *Node) {
@@ -121,7 +122,7 @@ func codegen(symtab *SymTab, tree []*Node, asm asmWriter) error {
 	entrypoint := symtab.MustResolveFn("entrypoint")
 
 	// Holds compilation state for current function
-	fn := &function{}
+	fn := &function{externs: make(map[string]*Symbol)}
 
 	gt := &GcTypes{}
 	gt.AddBuiltins(symtab)
@@ -133,6 +134,12 @@ func codegen(symtab *SymTab, tree []*Node, asm asmWriter) error {
 		}
 	}
 
+	// Functions for external function values
+	for name, s := range fn.externs {
+		genExternWrapper(asm, name, s)
+		asm.spacer()
+	}
+
 	// Raw memory access
 	genRead(asm, "Byte", 1)
 	asm.spacer()
@@ -672,6 +679,34 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 	f.RestoreRegisters(asm)
 }
 
+func externWrapperName(name string, t *FunctionType) string {
+	return (&FunctionType{Params: t.Params}).AsmName(".extern." + name) // NOTE: No Clara name starts with '.'
+}
+
+// Clara function which passes all its arguments on to an external function
+func genExternWrapper(asm asmWriter, name string, s *Symbol) {
+	t := s.Type.AsFunction()
+	genFnEntry(asm, name, 0)
+	if t.RawValues {
+		for i, param := range t.Params {
+			switch param.Kind {
+			case String, Array, Bytes:
+				asm.ins(leaq, regs[i].displace(8), regs[i])
+			case Integer:
+				untagAs(asm, param.Kind, regs[i])
+			}
+		}
+	}
+	if t.isVariadic {
+		asm.ins(movq, intOp(0), rax) // No floating-point register usage yet...
+	}
+	asm.ins(call, fnOp(t.AsmName(s.Name)))
+	if t.RawValues && t.ret.Is(Integer) {
+		tagAs(asm, t.ret.Kind, rax)
+	}
+	genFnExit(asm, false)
+}
+
 func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 
 	switch expr.op {
@@ -805,13 +840,14 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 			asm.ins(inst, rbp.displace(-v.Addr), rax)
 
 		case v.Type.Is(Function) && v.IsGlobal: // Named function operand
-			// HACK to workaround absolute addressing!
-			// TODO: Figure out how to get a PIC relative address of an external function
-			if v.Type.AsFunction().Is(External) {
-				asm.ins(movq, _false, rax)
-			} else {
-				asm.ins(movabs, symOp(v.Type.AsFunction().AsmName(v.Name)), rax)
+			// External functions have neither a GC header nor Clara calling conventions
+			t := v.Type.AsFunction()
+			name := t.AsmName(v.Name)
+			if t.Is(External) {
+				name = externWrapperName(v.Name, t)
+				fn.externs[name] = v
 			}
+			asm.ins(movabs, symOp(name), rax)
 
 		default: // Struct field operand
 			asm.ins(movq, intOp(v.Addr), rax)
-- 
2.43.0

