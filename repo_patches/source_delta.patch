From db8e4eea61c70453ac4cb6d095c18a39f6440834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 01/25] fix: emit user-provided defines in a stable order

The predefined text was assembled in map iteration order, so a set of
defines whose effect depends on order gave a different result from run to
run.
---
 parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0c6748d..40320ed 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path/filepath"
 	"runtime"
+	"sort"
 	"strings"
 
 	"modernc.org/cc/v4"
@@ -37,8 +38,13 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 
 	var predefined string
 	// user-provided defines take precedence
-	for name, value := range cfg.Defines {
-		switch v := value.(type) {
+	names := make([]string, 0, len(cfg.Defines))
+	for name := range cfg.Defines {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		switch v := cfg.Defines[name].(type) {
 		case string:
 			predefined += fmt.Sprintf("\n#define %s \"%s\"", name, v)
 		case int, int16, int32, int64, uint, uint16, uint32, uint64:
-- 
2.43.0


From 0f520149639f9ef231582bb9b1a25faed18cc05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 02/25] fix: collect tips in a stable order

Tips of the struct scope are also added to the type scope; with map
iteration order deciding which came first, a name matched by both scopes
got a different tip from run to run.
---
 translator/translator.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index d916d46..fdbe759 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -220,10 +220,23 @@ func getRuleActionRxs(rules Rules, action RuleAction) (RxMap, error) {
 	return rxMap, nil
 }
 
+// sortedTipScopes lists the scopes in a stable order: struct tips also apply to
+// the type scope, so the order decides which of two matching tips comes first.
+func sortedTipScopes(tips map[TipScope][]TipSpec) []TipScope {
+	scopes := make([]TipScope, 0, len(tips))
+	for scope := range tips {
+		scopes = append(scopes, scope)
+	}
+	sort.Slice(scopes, func(i, j int) bool {
+		return scopes[i] < scopes[j]
+	})
+	return scopes
+}
+
 func getPtrTipRxs(tips PtrTips) (PtrTipRxMap, error) {
 	rxMap := make(PtrTipRxMap, len(tips))
-	for scope, specs := range tips {
-		for _, spec := range specs {
+	for _, scope := range sortedTipScopes(tips) {
+		for _, spec := range tips[scope] {
 			if len(spec.Target) == 0 {
 				continue
 			}
@@ -249,8 +262,8 @@ func getPtrTipRxs(tips PtrTips) (PtrTipRxMap, error) {
 
 func getTypeTipRxs(tips TypeTips) (TypeTipRxMap, error) {
 	rxMap := make(TypeTipRxMap, len(tips))
-	for scope, specs := range tips {
-		for _, spec := range specs {
+	for _, scope := range sortedTipScopes(tips) {
+		for _, spec := range tips[scope] {
 			if len(spec.Target) == 0 {
 				continue
 			}
-- 
2.43.0


From b5d70ac26a1fd6e46f6da04b4083ac3082058229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 03/25] fix: use the evaluated value of constants, not the
 address of the accessor

The method value was stored instead of its result, so a const declaration
with an initializer, and a define that could not be expanded, were given
the address of a function as their value.
---
 translator/ast_walker.go | 4 +++-
 translator/translator.go | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index d826c16..64d3c14 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -58,7 +58,9 @@ func (t *Translator) walkDeclaration(d *cc.Declaration) (declared []*CDecl) {
 			decl := t.declarator(declr.Type(), identifierOf(declr.DirectDeclarator), declr.IsTypename(), declr.IsStatic(), declr.IsConst(), declr.Position())
 			init := list.InitDeclarator.Initializer
 			if init != nil && init.AssignmentExpression != nil {
-				decl.Value = init.AssignmentExpression.Value
+				if value := init.AssignmentExpression.Value(); value != nil && value != cc.Unknown {
+					decl.Value = Value(value)
+				}
 				decl.Expression = blessName(init.Token.SrcStr())
 			}
 			t.registerTagsOf(decl)
diff --git a/translator/translator.go b/translator/translator.go
index fdbe759..5f7e2af 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -492,12 +492,12 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			typecastValue = false
 		}
 		if !valid {
-			if macro.Type().Kind() == cc.InvalidKind {
+			if value := macro.Value(); value != nil && value != cc.Unknown {
 				// fallback to the evaluated value
 				t.defines = append(t.defines, &CDecl{
 					IsDefine: true,
 					Name:     name,
-					Value:    Value(macro.Value),
+					Value:    Value(value),
 					Position: macro.Position(),
 				})
 			}
-- 
2.43.0


From 4472d319a766a0023b85034544d30212e484251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 04/25] fix: report an unsupported target architecture instead
 of ignoring the error

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 40320ed..5959df9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -90,7 +90,10 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 	if cfg.CCDefs && ccDefsOK {
 		predefined += fmt.Sprintf("\n%s", ccDefs)
 	}
-	ccConfig, _ := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	ccConfig, err := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	if err != nil {
+		return nil, err
+	}
 	// Let cc provide all predefines and builtins. Only append custom definitions.
 	ccConfig.Predefined += predefined
 	ccConfig.IncludePaths = append(ccConfig.IncludePaths, cfg.IncludePaths...)
-- 
2.43.0


From 377a80cb5988be25b3a589cf0199cd2f9d9edb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 05/25] fix: report missing source files given by an absolute
 path

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5959df9..9b67743 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -128,7 +128,9 @@ func checkConfig(cfg *Config) (*Config, error) {
 				path = hPath
 			}
 		}
-		if info, err := os.Stat(path); err != nil || info.IsDir() {
+		if info, err := os.Stat(path); err != nil {
+			return nil, fmt.Errorf("parser: file specified but not found: %s", path)
+		} else if info.IsDir() {
 			continue
 		}
 		if absPath, err := filepath.Abs(path); err != nil {
-- 
2.43.0


From ee1c0eb7df4e7ff01c6b0a5326ba21d4c28937da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 06/25] fix: report failed writes of the generated Go files

---
 process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/process.go b/process.go
index 219b611..26cc23f 100644
--- a/process.go
+++ b/process.go
@@ -199,7 +199,7 @@ func (c *Process) Flush(noCGO bool) error {
 					f.Close()
 					return err
 				}
-				f.Close()
+				return f.Close()
 			} else {
 				return err
 			}
@@ -261,8 +261,8 @@ func flushBufferToFile(buf []byte, f *os.File, fmt bool) error {
 			return err
 		} else {
 			log.Printf("[WARN] cannot gofmt %s: %s\n", f.Name(), err.Error())
-			f.Write(buf)
-			return nil
+			_, err = f.Write(buf)
+			return err
 		}
 	}
 	_, err := f.Write(buf)
-- 
2.43.0


From 7c953d75c8409a3522965fd525aad004cc9cb13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:27 +0000
Subject: [PATCH 07/25] fix: map C complex types to Go complex types

The type map had entries for {float, Complex} and {double, Complex}, but
specs carry complexfloat and complexdouble as their base, so the entries
never matched and complex types came out under names that do not exist in Go.
---
 translator/model_go_type.go | 2 +-
 translator/type_mapping.go  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/translator/model_go_type.go b/translator/model_go_type.go
index 7845645..723f9e6 100644
--- a/translator/model_go_type.go
+++ b/translator/model_go_type.go
@@ -45,7 +45,7 @@ func (spec GoTypeSpec) IsPlainKind() bool {
 
 func (spec GoTypeSpec) IsPlain() bool {
 	switch spec.Base {
-	case "int", "byte", "rune", "float", "unsafe.Pointer", "bool":
+	case "int", "byte", "rune", "float", "complex", "unsafe.Pointer", "bool":
 		return true
 	case "string":
 		return false
diff --git a/translator/type_mapping.go b/translator/type_mapping.go
index 36f5563..b379247 100644
--- a/translator/type_mapping.go
+++ b/translator/type_mapping.go
@@ -105,11 +105,11 @@ var builtinCTypeMap = CTypeMap{
 	// long double -> float64
 	CTypeSpec{Base: "double", Long: true}: Float64Spec,
 	// complex float -> complex164
-	CTypeSpec{Base: "float", Complex: true}: Complex64Spec,
+	CTypeSpec{Base: "complexfloat", Complex: true}: Complex64Spec,
 	// complex double -> complex128
-	CTypeSpec{Base: "double", Complex: true}: Complex128Spec,
+	CTypeSpec{Base: "complexdouble", Complex: true}: Complex128Spec,
 	// long complex double -> complex128
-	CTypeSpec{Base: "double", Long: true, Complex: true}: Complex128Spec,
+	CTypeSpec{Base: "complexdouble", Long: true, Complex: true}: Complex128Spec,
 	// void* -> unsafe.Pointer
 	CTypeSpec{Base: "void*"}: UnsafePointerSpec,
 	// void* -> unsafe.Pointer
-- 
2.43.0


From f3b4f9dabda53beddbdf0aab4b866792d2719d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:55 +0000
Subject: [PATCH 08/25] fix: do not wrap the pointer depth of a tag declared
 with more pointers

A type whose tag was declared by a typedef of a pointer may itself have
fewer pointers; the unsigned difference wrapped around to 255 levels.
---
 translator/translator.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index 5f7e2af..d71ba0d 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -904,7 +904,7 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 				// e.g. typedef struct a_T* a; int f(a *arg);
 				// -> go_F(C.a *arg) but not go_F(C.a **arg) because of residual pointers.
 				wrapper.Pointers = 0
-				wrapper.splitPointers(ptrTip, spec.GetPointers()-decl.Spec.GetPointers())
+				wrapper.splitPointers(ptrTip, residualPointers(spec, decl.Spec))
 			} else {
 				wrapper.splitPointers(ptrTip, spec.GetPointers())
 			}
@@ -920,12 +920,21 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 	}
 }
 
+// residualPointers returns the pointers of the spec that are not already
+// counted by the declaration of its tag.
+func residualPointers(spec, declared CType) uint8 {
+	if declared.GetPointers() <= spec.GetPointers() {
+		return spec.GetPointers() - declared.GetPointers()
+	}
+	return spec.GetPointers()
+}
+
 func (t *Translator) NormalizeSpecPointers(spec CType) CType {
 	if spec.Kind() == OpaqueStructKind {
 		decl, tagKnown := t.tagMap[spec.GetTag()]
 		if tagKnown {
 			spec := spec.Copy()
-			spec.SetPointers(spec.GetPointers() - decl.Spec.GetPointers())
+			spec.SetPointers(residualPointers(spec, decl.Spec))
 			return spec
 		}
 	}
@@ -940,7 +949,7 @@ func (t *Translator) CGoSpec(spec CType, asArg bool) CGoSpec {
 	}
 	if decl, ok := t.tagMap[spec.GetTag()]; ok {
 		// count in the pointers of the base type under typedef
-		cgo.Pointers = spec.GetPointers() - decl.Spec.GetPointers()
+		cgo.Pointers = residualPointers(spec, decl.Spec)
 	}
 	if typ, ok := spec.(*CTypeSpec); ok {
 		if typ.Base == "void*" {
-- 
2.43.0


From 07ad4c53d64114805303a6fbcdcf2501452fba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 09/25] fix: keep the main file apart from the other files of a
 package

A package named like one of the other generated files (types, const, doc,
unions, cgo_helpers) lost either that file or its declarations.
---
 process.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 26cc23f..b4740a3 100644
--- a/process.go
+++ b/process.go
@@ -229,7 +229,7 @@ func (c *Process) Flush(noCGO bool) error {
 
 	if !noCGO {
 		pkg := filepath.Base(c.cfg.Generator.PackageName)
-		if err := writeGoFile(BufMain, pkg); err != nil {
+		if err := writeGoFile(BufMain, mainFileName(pkg)); err != nil {
 			return err
 		}
 	}
@@ -254,6 +254,17 @@ func (c *Process) Flush(noCGO bool) error {
 	return nil
 }
 
+// mainFileName returns the name of the file for a package's declarations,
+// which is the package's own unless another of its files has that name.
+func mainFileName(pkg string) string {
+	for _, name := range goBufferNames {
+		if name == pkg {
+			return pkg + "_main"
+		}
+	}
+	return pkg
+}
+
 func flushBufferToFile(buf []byte, f *os.File, fmt bool) error {
 	if fmt {
 		if fmtBuf, err := imports.Process(f.Name(), buf, nil); err == nil {
-- 
2.43.0


From d8ffd230e743db0afc4708759f7f5cfd218b2e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 10/25] fix: read upper-case, exponent and hex-float forms of
 numeric literals unchanged

---
 translator/helpers.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/translator/helpers.go b/translator/helpers.go
index 0989742..20bef9b 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -267,10 +267,13 @@ func isNumeric(v []rune) bool {
 func readNumeric(v []rune) string {
 	long := false
 	unsigned := false
+	float := false
 	result := make([]rune, 0, len(v))
 
 	wrap := func() string {
 		switch {
+		case float:
+			return string(result)
 		case unsigned && long:
 			return "uint64(" + string(result) + ")"
 		case unsigned:
@@ -287,12 +290,24 @@ func readNumeric(v []rune) string {
 		switch r {
 		case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 			result = append(result, r)
-		case 'x':
+		case 'x', 'X':
 			isHex = true
 			result = append(result, r)
-		case '-', '+', '.', 'e', 'b':
+		case 'p', 'P':
+			// binary exponent of a hex float, only a suffix can follow its digits
+			isHex, float = false, true
+			result = append(result, r)
+		case '.':
+			float = true
+			result = append(result, r)
+		case 'e', 'E':
+			if !isHex {
+				float = true
+			}
+			result = append(result, r)
+		case '-', '+', 'b', 'B':
 			result = append(result, r)
-		case 'A', 'B', 'C', 'D', 'E', 'F', 'a', 'c', 'd', 'f':
+		case 'A', 'C', 'D', 'F', 'a', 'c', 'd', 'f':
 			if isHex {
 				result = append(result, r)
 			}
-- 
2.43.0


From 79229033c6e768a9d785bdd83207813df3b588d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 11/25] fix: keep inner parentheses of a type cast's operand in
 expanded constants

---
 translator/ast_walker.go | 2 ++
 translator/translator.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 64d3c14..3003eef 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -163,12 +163,14 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 							exprParts = append(exprParts, src+"(")
 						case typecastValue && token.Ch == lparen:
 							typecastValueParens++
+							exprParts = append(exprParts, src)
 						case typecastValue && token.Ch == rparen:
 							if typecastValueParens == 0 {
 								typecastValue = false
 								exprParts = append(exprParts, ")"+src)
 							} else {
 								typecastValueParens--
+								exprParts = append(exprParts, src)
 							}
 						default:
 							// somewhere in the world a helpless kitten died because of this
diff --git a/translator/translator.go b/translator/translator.go
index d71ba0d..9682552 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -463,12 +463,14 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 					exprParts = append(exprParts, src+"(")
 				case typecastValue && token.Ch == lparen:
 					typecastValueParens++
+					exprParts = append(exprParts, src)
 				case typecastValue && token.Ch == rparen:
 					if typecastValueParens == 0 {
 						typecastValue = false
 						exprParts = append(exprParts, ")"+src)
 					} else {
 						typecastValueParens--
+						exprParts = append(exprParts, src)
 					}
 				default:
 					// somewhere in the world a kitten died because of this
-- 
2.43.0


From 2d5a1af7257892076525ad4a5dbc626d0ae8f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 12/25] fix: name function pointer parameters and members like
 the code that uses them

writeFunctionAsArg transformed the name of a parameter or struct member with
the rules for functions, while the bodies that refer to it use the rules for
types, as for parameters and members of any other kind.
---
 generator/gen_declares.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_declares.go b/generator/gen_declares.go
index 8bb1c8c..41af584 100644
--- a/generator/gen_declares.go
+++ b/generator/gen_declares.go
@@ -51,7 +51,7 @@ func (gen *Generator) writeFunctionAsArg(wr io.Writer, decl *tl.CDecl,
 
 	var returnRef string
 	cName, _ := getName(decl)
-	goName := checkName(gen.tr.TransformName(tl.TargetFunction, cName, public))
+	goName := checkName(gen.tr.TransformName(tl.TargetType, cName, public))
 	spec := decl.Spec.(*tl.CFunctionSpec)
 	if len(spec.Typedef) > 0 {
 		funcName := checkName(gen.tr.TransformName(tl.TargetType, spec.Typedef, true))
-- 
2.43.0


From d7f69b26028474d543aeff99c72271c85de50060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 13/25] fix: translate parameters in function bodies with the
 tips of their types

A parameter without a type tip of its own takes the tip of its type in the
signature. The bodies of functions and callbacks ignored that tip, so that
the helpers they call had other parameter types than the signature.
---
 generator/gen_bindings.go  | 3 +++
 generator/gen_callbacks.go | 3 +++
 generator/gen_common.go    | 8 ++++++++
 3 files changed, 14 insertions(+)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index aa16b97..f0ad162 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -942,6 +942,9 @@ func (gen *Generator) createProxies(funcName string, funcSpec tl.CType) (from, t
 		var goSpec tl.GoTypeSpec
 		ptrTip := ptrTipRx.TipAt(i)
 		typeTip := typeTipRx.TipAt(i)
+		if !typeTip.IsValid() {
+			typeTip = gen.typeTipOf(param)
+		}
 		goSpec = gen.tr.TranslateSpec(param.Spec, ptrTip, typeTip)
 		cgoSpec := gen.tr.CGoSpec(param.Spec, true)
 		const public = false
diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 658ff53..6b759da 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -206,6 +206,9 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 		var goSpec tl.GoTypeSpec
 		ptrTip := ptrTipRx.TipAt(i)
 		typeTip := typeTipRx.TipAt(i)
+		if !typeTip.IsValid() {
+			typeTip = gen.typeTipOf(param)
+		}
 		goSpec = gen.tr.TranslateSpec(param.Spec, ptrTip, typeTip)
 		cgoSpec := gen.tr.CGoSpec(param.Spec, true)
 		const public = false
diff --git a/generator/gen_common.go b/generator/gen_common.go
index d744360..77f9b44 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -166,6 +166,14 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 	writeEndParams(wr)
 }
 
+// typeTipOf returns the type tip for the type of a parameter itself.
+func (gen *Generator) typeTipOf(param *tl.CDecl) tl.Tip {
+	if typeTipRx, ok := gen.tr.TypeTipRx(tl.TipScopeType, param.Spec.CGoName()); ok {
+		return typeTipRx.Self()
+	}
+	return tl.NoTip
+}
+
 func writeStartParams(wr io.Writer) {
 	fmt.Fprint(wr, "(")
 }
-- 
2.43.0


From 3de7d6ad986db5897fc5ec8b6ad8740f28eb389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 14/25] fix: translate the result of a callback like its type
 does

The callback type defaults to a reference for a returned pointer, the proxy
that calls it took the result for a slice.
---
 generator/gen_callbacks.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 6b759da..1ef6bb7 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -134,7 +134,12 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		ret := fmt.Sprintf("ret%2x", crc)
 		fmt.Fprintf(buf, "%s := %sFunc(%s)\n", ret, cbGoName, paramNamesGoList)
 		ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, cFuncName, funcSpec)
-		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTipRx.Self(), typeTipRx.Self())
+		ptrTip := ptrTipRx.Self()
+		if !ptrTip.IsValid() {
+			// defaults to ref for the returns
+			ptrTip = tl.TipPtrRef
+		}
+		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTip, typeTipRx.Self())
 		retCGoSpec := gen.tr.CGoSpec(funcSpec.Return, true) // asArg?
 		retProxy, _ := gen.proxyArgFromGo(memTipRx.Self(), ret, retGoSpec, retCGoSpec)
 		fmt.Fprintf(buf, "ret, _ := %s\n", retProxy)
-- 
2.43.0


From 3181194480e0661b25eb690c60237fa9ed430bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 15/25] fix: separate parameters around one that became the
 receiver

A parameter after the instance parameter followed the one before it without
a comma.
---
 generator/gen_common.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/generator/gen_common.go b/generator/gen_common.go
index 77f9b44..4bd536e 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -135,6 +135,7 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 	ptrTipSpecRx, _ := gen.tr.PtrTipRx(tl.TipScopeFunction, funcName)
 	typeTipSpecRx, _ := gen.tr.TypeTipRx(tl.TipScopeFunction, funcName)
 
+	written := false
 	writeStartParams(wr)
 	for i, param := range spec.Params {
 		ptrTip := ptrTipSpecRx.TipAt(i)
@@ -157,11 +158,11 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 			}
 		}
 
-		gen.writeFunctionParam(wr, param, ptrTip, typeTip)
-
-		if i < len(spec.Params)-1 && ptrTipSpecRx.TipAt(i+1) != tl.TipPtrInst {
+		if written {
 			fmt.Fprintf(wr, ", ")
 		}
+		written = true
+		gen.writeFunctionParam(wr, param, ptrTip, typeTip)
 	}
 	writeEndParams(wr)
 }
-- 
2.43.0


From 9d67d4ee49f7c5a71fe990e8f96ac3bc4f8912c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 16/25] fix: callback proxies read the parameters they declare

With parameters x and cx the proxy of a callback declared cx and ccx, and
read ccx for x and an undeclared cccx for cx: names were made unique where
they are used, and not where they are declared.
---
 generator/gen_callbacks.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 1ef6bb7..c017238 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -198,13 +198,6 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 	spec := funcSpec.(*tl.CFunctionSpec)
 	to = make([]proxyDecl, 0, len(spec.Params))
 
-	cNamesSeen := make(map[string]struct{}, len(spec.Params))
-	for _, param := range spec.Params {
-		if len(param.Name) > 0 {
-			cNamesSeen[param.Name] = struct{}{}
-		}
-	}
-
 	crc := getRefCRC(funcSpec)
 	ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, funcName, funcSpec)
 	for i, param := range spec.Params {
@@ -223,14 +216,7 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 		}
 		toBuf := new(bytes.Buffer)
 
-		cname := "c" + refName
-		_, seen := cNamesSeen[cname]
-		for seen {
-			cname = "c" + cname
-			_, seen = cNamesSeen[cname]
-		}
-		cNamesSeen[cname] = struct{}{}
-
+		cname := "c" + refName // as in the declaration of the proxy
 		refName = fmt.Sprintf("%s%2x", refName, crc)
 		toProxy, _ := gen.proxyCallbackArgToGo(memTipRx.TipAt(i), refName, cname, goSpec, cgoSpec)
 		if len(toProxy) > 0 {
-- 
2.43.0


From 107acb991f8375cd76b2dbc95f8843a0d9671618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 17/25] fix: keep the variables of function bodies apart from
 the renamed parameters

---
 generator/gen_bindings.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index f0ad162..2bcdabc 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -934,6 +934,7 @@ func (gen *Generator) createProxies(funcName string, funcSpec tl.CType) (from, t
 	for _, param := range spec.Params {
 		if len(param.Name) > 0 {
 			cNamesSeen[param.Name] = struct{}{}
+			cNamesSeen[string(gen.tr.TransformName(tl.TargetType, param.Name, false))] = struct{}{}
 		}
 	}
 
-- 
2.43.0


From 42c96c9ed4cc33df04ffdc0a2b74aa379e9703c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 18/25] fix: keep the result of a callback apart from a
 parameter named ret

---
 generator/gen_callbacks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index c017238..8b6c6cc 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -131,7 +131,7 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 	fmt.Fprintf(buf, "if %sFunc != nil {\n", cbGoName)
 	buf.WriteString(proxySrc.String())
 	if funcSpec.Return != nil {
-		ret := fmt.Sprintf("ret%2x", crc)
+		const ret = "result" // unlike the names of the arguments, which end in the crc
 		fmt.Fprintf(buf, "%s := %sFunc(%s)\n", ret, cbGoName, paramNamesGoList)
 		ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, cFuncName, funcSpec)
 		ptrTip := ptrTipRx.Self()
-- 
2.43.0


From c1ee5fb9f38973137d09985a94f303a69c6a47bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 19/25] fix: a variable of an incomplete enum type is declared
 with var

---
 generator/gen_declares.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_declares.go b/generator/gen_declares.go
index 41af584..039cb05 100644
--- a/generator/gen_declares.go
+++ b/generator/gen_declares.go
@@ -42,7 +42,7 @@ func (gen *Generator) writeEnumDeclaration(wr io.Writer, decl *tl.CDecl,
 	cName, _ := getName(decl)
 	goName := checkName(gen.tr.TransformName(tl.TargetType, cName, public))
 	typeRef := gen.tr.TranslateSpec(decl.Spec, ptrTip, typeTip).String()
-	fmt.Fprintf(wr, "%s %s", goName, typeRef)
+	fmt.Fprintf(wr, "var %s %s", goName, typeRef)
 	writeSpace(wr, 1)
 }
 
-- 
2.43.0


From 578eeccc5ad2309a7bbc4cf0b029da08cba81061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 20/25] fix: helpers for pointers to void pointers have a name
 without a package

---
 generator/gen_bindings.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 2bcdabc..07b81db 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -67,7 +67,9 @@ func getHelperName(goSpec tl.GoTypeSpec) string {
 	if goSpec.Unsigned {
 		buf.WriteRune('U')
 	}
-	buf.WriteString(strings.Title(goSpec.PlainType()))
+	typeName := strings.TrimPrefix(goSpec.PlainType(), "C.")
+	typeName = strings.TrimPrefix(typeName, "unsafe.")
+	buf.WriteString(strings.Title(typeName))
 	return buf.String()
 }
 
-- 
2.43.0


From e4ba35c41f32be71b64e197742c8df00d6573fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 21/25] fix: a callback's parameter with arrays is converted by
 an expression, not a declaration

---
 generator/gen_callbacks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 8b6c6cc..e10d0db 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -252,7 +252,7 @@ func (gen *Generator) proxyCallbackArgToGo(memTip tl.Tip, varName, ptrName strin
 		helper := gen.getPackHelper(memTip, goSpec, cgoSpec)
 		gen.submitHelper(helper)
 		if len(goSpec.OuterArr)+len(goSpec.InnerArr) != 0 {
-			ptrName = fmt.Sprintf("%s := (*%s)(unsafe.Pointer(&%s))", varName, cgoSpec, ptrName)
+			ptrName = fmt.Sprintf("*(*%s)(unsafe.Pointer(&%s))", cgoSpec, ptrName)
 		}
 		gen.submitHelper(sliceHeader)
 		proxy = fmt.Sprintf("var %s %s\n%s(%s, %s)", varName, goSpec, helper.Name, varName, ptrName)
-- 
2.43.0


From 852c5d975eed195bed16045710bd5d502a9b4483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 22/25] fix: C prototypes of callbacks spell complex types as C
 does

---
 translator/model_type.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/translator/model_type.go b/translator/model_type.go
index 347894e..f8112e9 100644
--- a/translator/model_type.go
+++ b/translator/model_type.go
@@ -3,6 +3,7 @@ package translator
 import (
 	"bytes"
 	"fmt"
+	"strings"
 )
 
 type CTypeSpec struct {
@@ -32,10 +33,14 @@ func (spec CTypeSpec) String() string {
 		buf.WriteString("long ")
 	case spec.Short:
 		buf.WriteString("short ")
-	case spec.Complex:
-		buf.WriteString("complex ")
 	}
-	fmt.Fprint(buf, spec.Base)
+	base := spec.Base
+	if spec.Complex {
+		// complexfloat and complexdouble are names known to cgo, not to C
+		buf.WriteString("_Complex ")
+		base = strings.TrimPrefix(base, "complex")
+	}
+	fmt.Fprint(buf, base)
 
 	var unsafePointer uint8
 	if spec.Base == "unsafe.Pointer" {
-- 
2.43.0


From ab10c3ed62bf2395c784ff21538cbd1762d89619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 23/25] fix: a function typedef returns the typedef it was
 declared with

---
 translator/ast_walker.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 3003eef..933f1d0 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -417,18 +417,16 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		return s
 	case cc.Function:
 		s := t.functionSpec(spec, typ, name, isConst, deep+1)
-		if !isRet && typ.Typedef() == nil {
-			if funcType, ok := typ.(*cc.FunctionType); ok {
+		if funcType, ok := typ.(*cc.FunctionType); ok && !isRet {
+			retTypedef := typedefNameOf(funcType.Result())
+			if s.Typedef == "" && typ.Typedef() == nil {
 				// According to comparison with cc v1 behavior, typedef is set to return value typedef
 				// if this is not a function typedef.
 				// This is somehow strange, and probably causes some bugs, but I'm trying to replicate previous behaviour here.
-				retTypedef := typedefNameOf(funcType.Result())
-				if s.Typedef == "" {
-					s.Typedef = retTypedef
-				}
-				if s.Return != nil {
-					s.Return.SetRaw(retTypedef)
-				}
+				s.Typedef = retTypedef
+			}
+			if s.Return != nil {
+				s.Return.SetRaw(retTypedef)
 			}
 		}
 		return s
-- 
2.43.0


From 35a54d63ac73b054a2c817f4a9375a8e4d5d94e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 24/25] fix: require the allocation map for the helpers of
 callbacks

A callback type without parameters or result, in a package where nothing
else submits cgoAllocMap, was written with PassRef and PassValue methods
that name *cgoAllocMap without its helper, and did not compile.
---
 generator/gen_callbacks.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index e10d0db..253c513 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -81,8 +81,9 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		return (*%s)(C.%s), nil
 	}`, cbGoName, cbGoName, cgoSpec, cbCName)
 	helpers = append(helpers, &Helper{
-		Name:   fmt.Sprintf("%s.PassRef", goFuncName),
-		Source: buf.String(),
+		Name:     fmt.Sprintf("%s.PassRef", goFuncName),
+		Source:   buf.String(),
+		Requires: []*Helper{cgoAllocMap},
 	})
 
 	if spec.GetPointers() > 0 {
@@ -98,8 +99,9 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		return (%s)(C.%s), nil
 	}`, cbGoName, cbGoName, cgoSpec, cbCName)
 		helpers = append(helpers, &Helper{
-			Name:   fmt.Sprintf("%s.PassValue", goFuncName),
-			Source: buf.String(),
+			Name:     fmt.Sprintf("%s.PassValue", goFuncName),
+			Source:   buf.String(),
+			Requires: []*Helper{cgoAllocMap},
 		})
 	}
 
-- 
2.43.0


From 5f64c7bdba05f8d2a94df69344257ac037fce2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 25/25] fix: bit-fields of C structs are left without a name,
 cgo gives no access to them

The wrappers of a struct with a bit-field referred to it as to any other
member, and the generated package did not compile.
---
 translator/ast_walker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 933f1d0..591adf0 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -445,6 +445,9 @@ func paramName(n int, p *cc.Parameter) string {
 }
 
 func memberName(n int, f *cc.Field) string {
+	if f.IsBitfield() {
+		return "" // cgo gives no access to bit-fields
+	}
 	if len(f.Name()) == 0 {
 		return fmt.Sprintf("field%d", n)
 	}
-- 
2.43.0

