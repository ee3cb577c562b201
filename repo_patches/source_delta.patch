From 3e98a46ff0b6f854bad3219caea61059c0f19c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:41 +0000
Subject: [PATCH 01/63] fix: hclpack: JustAttributes gave every attribute the
 same expression

The returned attributes all pointed into the loop variable, so each of
them had the expression of whichever attribute the map iteration visited
last.
---
 hclpack/structure.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hclpack/structure.go b/hclpack/structure.go
index 488a99e..895cf00 100644
--- a/hclpack/structure.go
+++ b/hclpack/structure.go
@@ -212,6 +212,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 
 	ret := make(hcl.Attributes, len(b.Attributes))
 	for n, a := range b.Attributes {
+		a := a // each attribute needs an expression of its own
 		ret[n] = a.asHCLAttribute(n)
 	}
 	return ret, diags
-- 
2.43.0


From 40c475ff24f1114d4bf28b32d3d9017bc853558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:21 +0000
Subject: [PATCH 02/63] fix: hclsyntax: give each splat evaluation a context of
 its own

The placeholder symbol of a splat expression stores the current element
per evaluation context. Two goroutines reading one dynblock-expanded body
evaluate for_each in the same context, so they overwrote each other's
element and got wrong values.
---
 hcl/hclsyntax/expression.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index d3f7a74..c88a78d 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1338,11 +1338,11 @@ func (e *SplatExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 
 	vals := make([]cty.Value, 0, sourceVal.LengthInt())
 	it := sourceVal.ElementIterator()
-	if ctx == nil {
-		// we need a context to use our AnonSymbolExpr, so we'll just
-		// make an empty one here to use as a placeholder.
-		ctx = ctx.NewChild()
-	}
+	// Our AnonSymbolExpr keeps its value per context, so we use a context of
+	// our own. The one we were given can be nil, and can be in use for another
+	// evaluation of this same expression, e.g. when two callers read a body
+	// expanded by the dynblock extension.
+	ctx = ctx.NewChild()
 	isKnown := true
 	for it.Next() {
 		_, sourceItem := it.Element()
@@ -1404,10 +1404,8 @@ type AnonSymbolExpr struct {
 	SrcRange hcl.Range
 
 	// values and its associated lock are used to isolate concurrent
-	// evaluations of a symbol from one another. It is the calling application's
-	// responsibility to ensure that the same splat expression is not evalauted
-	// concurrently within the _same_ EvalContext, but it is fine and safe to
-	// do cuncurrent evaluations with distinct EvalContexts.
+	// evaluations of a symbol from one another. Each evaluation of a splat
+	// expression uses a distinct EvalContext.
 	values     map[*hcl.EvalContext]cty.Value
 	valuesLock sync.RWMutex
 }
-- 
2.43.0


From b12a66efde78cc5d1d04b03980281377d1517c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:51 +0000
Subject: [PATCH 03/63] fix: hclwrite: don't write to the shared placeholder
 token when formatting

---
 hclwrite/format.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index 7111ebd..972b534 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -116,11 +116,12 @@ func formatSpaces(lines []formatLine) {
 			} else {
 				before = nilToken
 			}
-			if i < (len(line.lead) - 1) {
-				after = line.lead[i+1]
-			} else {
-				after = nilToken
+			if i == (len(line.lead) - 1) {
+				// nothing follows, so there's no spacing to decide. (nilToken
+				// is shared by all callers and so must not be written to.)
+				continue
 			}
+			after = line.lead[i+1]
 			if spaceAfterToken(token, before, after) {
 				after.SpacesBefore = 1
 			} else {
@@ -140,11 +141,12 @@ func formatSpaces(lines []formatLine) {
 			} else {
 				before = nilToken
 			}
-			if i < (len(line.assign) - 1) {
-				after = line.assign[i+1]
-			} else {
-				after = nilToken
+			if i == (len(line.assign) - 1) {
+				// nothing follows, so there's no spacing to decide. (nilToken
+				// is shared by all callers and so must not be written to.)
+				continue
 			}
+			after = line.assign[i+1]
 			if spaceAfterToken(token, before, after) {
 				after.SpacesBefore = 1
 			} else {
-- 
2.43.0


From 630562789f9959dcd981c18c4a5ee08f1c60ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:51 +0000
Subject: [PATCH 04/63] fix: userfunc: guard the lazily-created base context
 with a lock

---
 ext/userfunc/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ext/userfunc/decode.go b/ext/userfunc/decode.go
index 2f3ce64..5db72a3 100644
--- a/ext/userfunc/decode.go
+++ b/ext/userfunc/decode.go
@@ -1,6 +1,8 @@
 package userfunc
 
 import (
+	"sync"
+
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/zclconf/go-cty/cty"
 	"github.com/zclconf/go-cty/cty/function"
@@ -41,8 +43,12 @@ func decodeUserFunctions(body hcl.Body, blockType string, contextFunc ContextFun
 	// first call to getBaseCtx will populate context, and then the same
 	// context will be used for all subsequent calls. It's assumed that
 	// all functions in a given body should see an identical context.
+	// The functions may be called concurrently, so this is guarded by a lock.
 	var baseCtx *hcl.EvalContext
+	var baseCtxMu sync.Mutex
 	getBaseCtx := func() *hcl.EvalContext {
+		baseCtxMu.Lock()
+		defer baseCtxMu.Unlock()
 		if baseCtx == nil {
 			if contextFunc != nil {
 				baseCtx = contextFunc()
-- 
2.43.0


From e35f4ca07f1eceb11cc699660f0ed160c2b484e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:59 +0000
Subject: [PATCH 05/63] fix: hcldec: don't append nested label names into the
 spec's own slice

---
 hcldec/spec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index f9da7f6..1e8051f 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -841,7 +841,7 @@ func (s *BlockMapSpec) blockHeaderSchemata() []hcl.BlockHeaderSchema {
 	return []hcl.BlockHeaderSchema{
 		{
 			Type:       s.TypeName,
-			LabelNames: append(s.LabelNames, findLabelSpecs(s.Nested)...),
+			LabelNames: append(s.LabelNames[:len(s.LabelNames):len(s.LabelNames)], findLabelSpecs(s.Nested)...),
 		},
 	}
 }
@@ -990,7 +990,7 @@ func (s *BlockObjectSpec) blockHeaderSchemata() []hcl.BlockHeaderSchema {
 	return []hcl.BlockHeaderSchema{
 		{
 			Type:       s.TypeName,
-			LabelNames: append(s.LabelNames, findLabelSpecs(s.Nested)...),
+			LabelNames: append(s.LabelNames[:len(s.LabelNames):len(s.LabelNames)], findLabelSpecs(s.Nested)...),
 		},
 	}
 }
-- 
2.43.0


From fbef2f9a6c4aad7f963e86015f1b6d52553bdef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:34:04 +0000
Subject: [PATCH 06/63] fix: hclfmt -w replaces files atomically and leaves
 formatted files alone

The file was truncated and rewritten in place, so a write error, a crash or
a full disk could lose its content, and files that needed no change were
rewritten as well.
---
 cmd/hclfmt/main.go | 53 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/cmd/hclfmt/main.go b/cmd/hclfmt/main.go
index 5223897..1bf57af 100644
--- a/cmd/hclfmt/main.go
+++ b/cmd/hclfmt/main.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"os"
+	"path/filepath"
 	"strings"
 
 	"github.com/hashicorp/hcl2/hcl"
@@ -111,6 +112,7 @@ func processFile(fn string, in *os.File) error {
 		if err != nil {
 			return fmt.Errorf("failed to open %s: %s", fn, err)
 		}
+		defer in.Close()
 	}
 
 	inSrc, err := ioutil.ReadAll(in)
@@ -134,13 +136,62 @@ func processFile(fn string, in *os.File) error {
 	}
 
 	if *overwrite {
-		return ioutil.WriteFile(fn, outSrc, 0644)
+		if bytes.Equal(inSrc, outSrc) {
+			return nil
+		}
+		return replaceFile(fn, outSrc)
 	}
 
 	_, err = os.Stdout.Write(outSrc)
 	return err
 }
 
+// replaceFile replaces the content of the given existing file, preserving its
+// permissions. The new content is first written to a temporary file in the
+// same directory, so that the file is never left truncated or incomplete.
+func replaceFile(fn string, src []byte) (err error) {
+	fn, err = filepath.EvalSymlinks(fn)
+	if err != nil {
+		return err
+	}
+
+	// We must not replace a file that we'd not be allowed to write to.
+	f, err := os.OpenFile(fn, os.O_WRONLY, 0)
+	if err != nil {
+		return err
+	}
+	info, err := f.Stat()
+	f.Close()
+	if err != nil {
+		return err
+	}
+
+	tmp, err := ioutil.TempFile(filepath.Dir(fn), "."+filepath.Base(fn)+".")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			tmp.Close()
+			os.Remove(tmp.Name())
+		}
+	}()
+
+	if _, err = tmp.Write(src); err != nil {
+		return err
+	}
+	if err = os.Chmod(tmp.Name(), info.Mode().Perm()); err != nil {
+		return err
+	}
+	if err = tmp.Sync(); err != nil {
+		return err
+	}
+	if err = tmp.Close(); err != nil {
+		return err
+	}
+	return os.Rename(tmp.Name(), fn)
+}
+
 func usage() {
 	fmt.Fprintf(os.Stderr, "usage: hclfmt [flags] [path ...]\n")
 	flag.PrintDefaults()
-- 
2.43.0


From 89c5bdffe9b0ef62542cea19e2698e4aa8fe505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:38 +0000
Subject: [PATCH 07/63] fix: hcldec reports failure to write its result

Errors from writing or closing the output were ignored, so hcldec exited
with status 0 although its output was missing or cut off.
---
 cmd/hcldec/main.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index 16dbb03..7d4c07a 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -209,16 +209,30 @@ func realmain(args []string) error {
 	// out and reduce to only the non-null values.
 	out = stripJSONNullProperties(out)
 
-	target := os.Stdout
-	if *outputFile != "" {
-		target, err = os.OpenFile(*outputFile, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
-		if err != nil {
-			return fmt.Errorf("can't open %s for writing: %s", *outputFile, err)
+	return writeOutput(out)
+}
+
+// writeOutput writes the given result, followed by a newline, to the
+// requested output file or to stdout.
+func writeOutput(out []byte) error {
+	if *outputFile == "" {
+		if _, err := fmt.Fprintf(os.Stdout, "%s\n", out); err != nil {
+			return fmt.Errorf("failed to write the result: %s", err)
 		}
+		return nil
 	}
 
-	fmt.Fprintf(target, "%s\n", out)
-
+	target, err := os.OpenFile(*outputFile, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
+	if err != nil {
+		return fmt.Errorf("can't open %s for writing: %s", *outputFile, err)
+	}
+	_, err = fmt.Fprintf(target, "%s\n", out)
+	if closeErr := target.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return fmt.Errorf("failed to write %s: %s", *outputFile, err)
+	}
 	return nil
 }
 
@@ -317,17 +331,7 @@ func showVarRefsJSON(vars []hcl.Traversal, ctx *hcl.EvalContext) error {
 		return fmt.Errorf("failed to marshal variable references as JSON: %s", err)
 	}
 
-	target := os.Stdout
-	if *outputFile != "" {
-		target, err = os.OpenFile(*outputFile, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
-		if err != nil {
-			return fmt.Errorf("can't open %s for writing: %s", *outputFile, err)
-		}
-	}
-
-	fmt.Fprintf(target, "%s\n", out)
-
-	return nil
+	return writeOutput(out)
 }
 
 func stripJSONNullProperties(src []byte) []byte {
-- 
2.43.0


From a259c75172fac01a27135f0a63a4c248fbca4567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:47 +0000
Subject: [PATCH 08/63] fix: hcldec accepts block_attrs specs

The documented block_attrs spec type was implemented but missing from the
list of allowed spec block types.
---
 cmd/hcldec/spec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index c8b90d3..9d19846 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -609,6 +609,7 @@ var specBlockTypes = []string{
 	"block_list",
 	"block_map",
 	"block_set",
+	"block_attrs",
 
 	"default",
 	"transform",
-- 
2.43.0


From 6f9c34239680685887c170c3c97a4c906b9500d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:56 +0000
Subject: [PATCH 09/63] fix: hcldec keeps the precision of numbers in its
 output

Removing null properties went through float64, so large integers and long
decimals were silently changed.
---
 cmd/hcldec/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index 7d4c07a..95a1229 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -335,8 +336,12 @@ func showVarRefsJSON(vars []hcl.Traversal, ctx *hcl.EvalContext) error {
 }
 
 func stripJSONNullProperties(src []byte) []byte {
+	// Numbers are kept in their textual form, since float64 can't represent
+	// all of them.
 	var v interface{}
-	err := json.Unmarshal(src, &v)
+	dec := json.NewDecoder(bytes.NewReader(src))
+	dec.UseNumber()
+	err := dec.Decode(&v)
 	if err != nil {
 		// We expect valid JSON
 		panic(err)
-- 
2.43.0


From 5f3543208df9a5603cd417ae4aa9f2aa714cae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:47 +0000
Subject: [PATCH 10/63] fix: hcldec does not crash on a default spec with only
 one nested spec

---
 cmd/hcldec/spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index 9d19846..272ea4d 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -523,7 +523,7 @@ func decodeDefaultSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 			Severity: hcl.DiagWarning,
 			Summary:  "Useless default block",
 			Detail:   "A default block with only one spec is equivalent to using that spec alone.",
-			Subject:  &content.Blocks[1].DefRange,
+			Subject:  &content.Blocks[0].DefRange,
 		})
 	}
 
-- 
2.43.0


From 02cf9a09904a205148a57b915514bd07631f27f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:14 +0000
Subject: [PATCH 11/63] fix: hclspecsuite reports an input file it cannot check
 for

---
 cmd/hclspecsuite/runner.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cmd/hclspecsuite/runner.go b/cmd/hclspecsuite/runner.go
index b5a309c..9416087 100644
--- a/cmd/hclspecsuite/runner.go
+++ b/cmd/hclspecsuite/runner.go
@@ -125,11 +125,23 @@ func (r *Runner) runTest(filename string) hcl.Diagnostics {
 	if _, err := os.Stat(nativeFilename); err == nil {
 		moreDiags := r.runTestInput(specFilename, nativeFilename, tf)
 		diags = append(diags, moreDiags...)
+	} else if !os.IsNotExist(err) {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  "Failed to check for input file",
+			Detail:   fmt.Sprintf("Could not determine whether test %s has input file %s: %s.", prettyName, nativeFilename, err),
+		})
 	}
 
 	if _, err := os.Stat(jsonFilename); err == nil {
 		moreDiags := r.runTestInput(specFilename, jsonFilename, tf)
 		diags = append(diags, moreDiags...)
+	} else if !os.IsNotExist(err) {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  "Failed to check for input file",
+			Detail:   fmt.Sprintf("Could not determine whether test %s has input file %s: %s.", prettyName, jsonFilename, err),
+		})
 	}
 
 	if r.logProblems != nil {
-- 
2.43.0


From c131412e4e35c4b009b0286ec55e643bf8763663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:25 +0000
Subject: [PATCH 12/63] fix: hclspecsuite notices hcldec failing without
 diagnostics

---
 cmd/hclspecsuite/runner.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cmd/hclspecsuite/runner.go b/cmd/hclspecsuite/runner.go
index 9416087..65e5c29 100644
--- a/cmd/hclspecsuite/runner.go
+++ b/cmd/hclspecsuite/runner.go
@@ -349,6 +349,13 @@ func (r *Runner) hcldecTransform(specFile, inputFile string) (cty.Value, hcl.Dia
 		// If we exited unsuccessfully then we'll expect diagnostics on stderr
 		moreDiags := decodeJSONDiagnostics(errBuffer.Bytes())
 		diags = append(diags, moreDiags...)
+		if len(diags) == 0 {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  "Failed to run hcldec",
+				Detail:   fmt.Sprintf("Sub-program hcldec failed without producing any diagnostics: %s.", err),
+			})
+		}
 		return cty.DynamicVal, diags
 	} else {
 		// Otherwise, we expect a JSON result value on stdout. Since we used
@@ -398,6 +405,13 @@ func (r *Runner) hcldecVariables(specFile, inputFile string) ([]hcl.Traversal, h
 		// If we exited unsuccessfully then we'll expect diagnostics on stderr
 		moreDiags := decodeJSONDiagnostics(errBuffer.Bytes())
 		diags = append(diags, moreDiags...)
+		if len(diags) == 0 {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  "Failed to run hcldec",
+				Detail:   fmt.Sprintf("Sub-program hcldec failed without producing any diagnostics: %s.", err),
+			})
+		}
 		return nil, diags
 	} else {
 		// Otherwise, we expect a JSON description of the traversals on stdout.
-- 
2.43.0


From 8caca4b0f60b443757a20acdc4ffc65b230a03e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:44 +0000
Subject: [PATCH 13/63] fix: hclparse does not register a JSON file that could
 not be read

---
 hclparse/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hclparse/parser.go b/hclparse/parser.go
index 6d47f12..7e1f4f3 100644
--- a/hclparse/parser.go
+++ b/hclparse/parser.go
@@ -89,7 +89,9 @@ func (p *Parser) ParseJSONFile(filename string) (*hcl.File, hcl.Diagnostics) {
 	}
 
 	file, diags := json.ParseFile(filename)
-	p.files[filename] = file
+	if file != nil {
+		p.files[filename] = file
+	}
 	return file, diags
 }
 
-- 
2.43.0


From 6bbad7ec3697d0de749ceba94ff5106d7cf94997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:46 +0000
Subject: [PATCH 14/63] fix: the diagnostic text writer reports errors of the
 underlying writer

---
 hcl/diagnostic_text.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/hcl/diagnostic_text.go b/hcl/diagnostic_text.go
index 0b4a262..803aa73 100644
--- a/hcl/diagnostic_text.go
+++ b/hcl/diagnostic_text.go
@@ -45,6 +45,10 @@ func (w *diagnosticTextWriter) WriteDiagnostic(diag *Diagnostic) error {
 		return errors.New("nil diagnostic")
 	}
 
+	// The message is composed first and then written all at once, so that
+	// a failure to write any part of it is noticed and reported.
+	var buf bytes.Buffer
+
 	var colorCode, highlightCode, resetCode string
 	if w.color {
 		switch diag.Severity {
@@ -68,7 +72,7 @@ func (w *diagnosticTextWriter) WriteDiagnostic(diag *Diagnostic) error {
 		severityStr = "???????"
 	}
 
-	fmt.Fprintf(w.wr, "%s%s%s: %s\n\n", colorCode, severityStr, resetCode, diag.Summary)
+	fmt.Fprintf(&buf, "%s%s%s: %s\n\n", colorCode, severityStr, resetCode, diag.Summary)
 
 	if diag.Subject != nil {
 		snipRange := *diag.Subject
@@ -94,7 +98,7 @@ func (w *diagnosticTextWriter) WriteDiagnostic(diag *Diagnostic) error {
 
 		file := w.files[diag.Subject.Filename]
 		if file == nil || file.Bytes == nil {
-			fmt.Fprintf(w.wr, "  on %s line %d:\n  (source code not available)\n\n", diag.Subject.Filename, diag.Subject.Start.Line)
+			fmt.Fprintf(&buf, "  on %s line %d:\n  (source code not available)\n\n", diag.Subject.Filename, diag.Subject.Start.Line)
 		} else {
 
 			var contextLine string
@@ -105,7 +109,7 @@ func (w *diagnosticTextWriter) WriteDiagnostic(diag *Diagnostic) error {
 				}
 			}
 
-			fmt.Fprintf(w.wr, "  on %s line %d%s:\n", diag.Subject.Filename, diag.Subject.Start.Line, contextLine)
+			fmt.Fprintf(&buf, "  on %s line %d%s:\n", diag.Subject.Filename, diag.Subject.Start.Line, contextLine)
 
 			src := file.Bytes
 			sc := NewRangeScanner(src, diag.Subject.Filename, bufio.ScanLines)
@@ -118,13 +122,13 @@ func (w *diagnosticTextWriter) WriteDiagnostic(diag *Diagnostic) error {
 
 				beforeRange, highlightedRange, afterRange := lineRange.PartitionAround(highlightRange)
 				if highlightedRange.Empty() {
-					fmt.Fprintf(w.wr, "%4d: %s\n", lineRange.Start.Line, sc.Bytes())
+					fmt.Fprintf(&buf, "%4d: %s\n", lineRange.Start.Line, sc.Bytes())
 				} else {
 					before := beforeRange.SliceBytes(src)
 					highlighted := highlightedRange.SliceBytes(src)
 					after := afterRange.SliceBytes(src)
 					fmt.Fprintf(
-						w.wr, "%4d: %s%s%s%s%s\n",
+						&buf, "%4d: %s%s%s%s%s\n",
 						lineRange.Start.Line,
 						before,
 						highlightCode, highlighted, resetCode,
@@ -134,7 +138,7 @@ func (w *diagnosticTextWriter) WriteDiagnostic(diag *Diagnostic) error {
 
 			}
 
-			w.wr.Write([]byte{'\n'})
+			buf.Write([]byte{'\n'})
 		}
 
 		if diag.Expression != nil && diag.EvalContext != nil {
@@ -179,16 +183,16 @@ func (w *diagnosticTextWriter) WriteDiagnostic(diag *Diagnostic) error {
 			for i, stmt := range stmts {
 				switch i {
 				case 0:
-					w.wr.Write([]byte{'w', 'i', 't', 'h', ' '})
+					buf.Write([]byte{'w', 'i', 't', 'h', ' '})
 				default:
-					w.wr.Write([]byte{' ', ' ', ' ', ' ', ' '})
+					buf.Write([]byte{' ', ' ', ' ', ' ', ' '})
 				}
-				w.wr.Write([]byte(stmt))
+				buf.Write([]byte(stmt))
 				switch i {
 				case last:
-					w.wr.Write([]byte{'.', '\n', '\n'})
+					buf.Write([]byte{'.', '\n', '\n'})
 				default:
-					w.wr.Write([]byte{',', '\n'})
+					buf.Write([]byte{',', '\n'})
 				}
 			}
 		}
@@ -199,10 +203,11 @@ func (w *diagnosticTextWriter) WriteDiagnostic(diag *Diagnostic) error {
 		if w.width != 0 {
 			detail = wordwrap.WrapString(detail, w.width)
 		}
-		fmt.Fprintf(w.wr, "%s\n\n", detail)
+		fmt.Fprintf(&buf, "%s\n\n", detail)
 	}
 
-	return nil
+	_, err := w.wr.Write(buf.Bytes())
+	return err
 }
 
 func (w *diagnosticTextWriter) WriteDiagnostics(diags Diagnostics) error {
-- 
2.43.0


From 4e1a74075e89061a1bb2a246ab7a4a6d48e89972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:02 +0000
Subject: [PATCH 15/63] fix: hclwrite accepts all index and parenthesised
 expressions

ParseConfig cut an attribute's tokens at the range of its expression. That
range does not cover all of the expression's tokens for an index or splat
expression, which made it panic, or for an expression in parentheses, which
made it move the closing parenthesis to the next line.

It also panicked on the legacy index syntax, like a.0, and dropped an index
key that is neither a string nor a number.
---
 hclwrite/parser.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 0e8952d..a677dcc 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -254,10 +254,11 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 	children.AppendUnstructuredTokens(before.Tokens())
 	children.AppendUnstructuredTokens(equalsTokens.Tokens())
 
-	before, exprTokens, from := from.Partition(nativeAttr.Expr.Range())
+	// Everything that remains belongs to the expression. We don't use the
+	// expression's own range here because it doesn't always cover all of the
+	// expression's tokens, such as when the expression is in parentheses.
 	{
-		children.AppendUnstructuredTokens(before.Tokens())
-		exprNode := parseExpression(nativeAttr.Expr, exprTokens)
+		exprNode := parseExpression(nativeAttr.Expr, from)
 		attr.expr = exprNode
 		children.AppendNode(exprNode)
 	}
@@ -270,9 +271,6 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 
 	children.AppendUnstructuredTokens(newline.Tokens())
 
-	// Collect any stragglers, though there shouldn't be any
-	children.AppendUnstructuredTokens(from.Tokens())
-
 	return newNode(attr)
 }
 
@@ -404,6 +402,15 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 		children = step.inTree.children
 		before, from, after = from.Partition(nativeStep.SourceRange())
 
+		if from.Types()[0] == hclsyntax.TokenDot {
+			// This is the legacy index syntax, like "foo.0"
+			inBefore, token, inAfter := from.PartitionTypeSingle(hclsyntax.TokenNumberLit)
+			children.AppendUnstructuredTokens(inBefore.Tokens())
+			step.key = children.Append(newNumber(token))
+			children.AppendUnstructuredTokens(inAfter.Tokens())
+			return before, newNode(step), after
+		}
+
 		var inBefore, oBrack, keyTokens, cBrack inputTokens
 		inBefore, oBrack, from = from.PartitionType(hclsyntax.TokenOBrack)
 		children.AppendUnstructuredTokens(inBefore.Tokens())
@@ -421,6 +428,8 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 			key := newNumber(valToken)
 			step.key = children.Append(key)
 			children.AppendUnstructuredTokens(valAfter.Tokens())
+		default:
+			children.AppendUnstructuredTokens(keyTokens.Tokens())
 		}
 
 		children.AppendUnstructuredTokens(cBrack.Tokens())
-- 
2.43.0


From 3d138fc6702a1d69110606efa9d790aae470a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:35 +0000
Subject: [PATCH 16/63] fix: transform.Deep also applies to what PartialContent
 leaves

The body left over by a partial reader was returned as it is, so the blocks
that a later reader got from it were not transformed.
---
 ext/transform/transform.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ext/transform/transform.go b/ext/transform/transform.go
index 30e9eed..3d27185 100644
--- a/ext/transform/transform.go
+++ b/ext/transform/transform.go
@@ -45,6 +45,12 @@ func (w deepWrapper) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diag
 func (w deepWrapper) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	content, remain, diags := w.Transformed.PartialContent(schema)
 	content = w.transformContent(content)
+
+	// What remains is already transformed, but its blocks are not yet.
+	remain = deepWrapper{
+		Transformed: remain,
+		Transformer: w.Transformer,
+	}
 	return content, remain, diags
 }
 
-- 
2.43.0


From 6263a74aea6b5906a64c3f66169812be6393adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:44 +0000
Subject: [PATCH 17/63] fix: include.FileResolver reports a file that cannot be
 read

It crashed, because the parser returns no file object in that case.
---
 ext/include/file_resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ext/include/file_resolver.go b/ext/include/file_resolver.go
index c79a094..0e63597 100644
--- a/ext/include/file_resolver.go
+++ b/ext/include/file_resolver.go
@@ -48,5 +48,8 @@ func (r fileResolver) ResolveBodyPath(path string, refRange hcl.Range) (hcl.Body
 		f, diags = r.Parser.ParseHCLFile(targetFile)
 	}
 
+	if f == nil {
+		return nil, diags
+	}
 	return f.Body, diags
 }
-- 
2.43.0


From fbf56c3125351a270012468140455eaa51905ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:57 +0000
Subject: [PATCH 18/63] fix: include ignores a nil body returned by a resolver

The documentation of Resolver says so, but extracting content crashed.
---
 ext/include/transformer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ext/include/transformer.go b/ext/include/transformer.go
index 15c513f..093e3e9 100644
--- a/ext/include/transformer.go
+++ b/ext/include/transformer.go
@@ -76,6 +76,9 @@ func (t *transformer) TransformBody(in hcl.Body) hcl.Body {
 		}
 
 		incBody, incDiags := t.Resolver.ResolveBodyPath(path, pathExpr.Range())
+		if incBody == nil {
+			incBody = hcl.EmptyBody()
+		}
 		bodies = append(bodies, transform.BodyWithDiagnostics(incBody, incDiags))
 	}
 
-- 
2.43.0


From af6630e3e20b8173db0363b23788f5571290ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:01 +0000
Subject: [PATCH 19/63] fix: include reports invalid include blocks

The diagnostics about include blocks without a usable path were collected
and then dropped, so that the content seemed to be complete.
---
 ext/include/transformer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/include/transformer.go b/ext/include/transformer.go
index 093e3e9..c5794d1 100644
--- a/ext/include/transformer.go
+++ b/ext/include/transformer.go
@@ -82,6 +82,10 @@ func (t *transformer) TransformBody(in hcl.Body) hcl.Body {
 		bodies = append(bodies, transform.BodyWithDiagnostics(incBody, incDiags))
 	}
 
+	if len(diags) != 0 {
+		bodies = append(bodies, transform.BodyWithDiagnostics(hcl.EmptyBody(), diags))
+	}
+
 	return hcl.MergeBodies(bodies)
 }
 
-- 
2.43.0


From 62cf35417df5c8509ec17d9ef9c8bc52ae2609ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:30 +0000
Subject: [PATCH 20/63] fix: hclsyntax: JustAttributes accepts blocks that were
 already consumed

On a body left over by PartialContent, it reported blocks as unexpected that
an earlier reader had already taken.
---
 hcl/hclsyntax/structure.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/structure.go b/hcl/hclsyntax/structure.go
index 476025d..b9a5d16 100644
--- a/hcl/hclsyntax/structure.go
+++ b/hcl/hclsyntax/structure.go
@@ -251,8 +251,11 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	attrs := make(hcl.Attributes)
 	var diags hcl.Diagnostics
 
-	if len(b.Blocks) > 0 {
-		example := b.Blocks[0]
+	for _, example := range b.Blocks {
+		if _, hidden := b.hiddenBlocks[example.Type]; hidden {
+			continue
+		}
+
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
 			Summary:  fmt.Sprintf("Unexpected %q block", example.Type),
@@ -262,6 +265,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 		// we will continue processing anyway, and return the attributes
 		// we are able to find so that certain analyses can still be done
 		// in the face of errors.
+		break
 	}
 
 	if b.Attributes == nil {
-- 
2.43.0


From 13d1d5da9e8479628466c0d42acd2b0038d7be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:39 +0000
Subject: [PATCH 21/63] fix: transform.NewErrorBody leaves a usable body to
 later readers

PartialContent returned a nil body for the remaining content, so that reading
it crashed.
---
 ext/transform/error.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ext/transform/error.go b/ext/transform/error.go
index d7de418..bb9c5f3 100644
--- a/ext/transform/error.go
+++ b/ext/transform/error.go
@@ -67,7 +67,11 @@ func (b diagBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnos
 
 func (b diagBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	if b.Diags.HasErrors() {
-		return b.emptyContent(), b.Wrapped, b.Diags
+		remain := b.Wrapped
+		if remain == nil {
+			remain = hcl.EmptyBody()
+		}
+		return b.emptyContent(), remain, b.Diags
 	}
 
 	content, remain, wrappedDiags := b.Wrapped.PartialContent(schema)
-- 
2.43.0


From 1484097f5be652cfb07eea9e845aefd31cf13d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:47 +0000
Subject: [PATCH 22/63] fix: include.FileResolver accepts absolute caller paths

The documentation allows them, but they were taken as relative to the base
directory. With an absolute base directory this also broke includes in
included files.
---
 ext/include/file_resolver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ext/include/file_resolver.go b/ext/include/file_resolver.go
index 0e63597..672ade8 100644
--- a/ext/include/file_resolver.go
+++ b/ext/include/file_resolver.go
@@ -36,7 +36,10 @@ type fileResolver struct {
 }
 
 func (r fileResolver) ResolveBodyPath(path string, refRange hcl.Range) (hcl.Body, hcl.Diagnostics) {
-	callerFile := filepath.Join(r.BaseDir, refRange.Filename)
+	callerFile := refRange.Filename
+	if !filepath.IsAbs(callerFile) {
+		callerFile = filepath.Join(r.BaseDir, callerFile)
+	}
 	callerDir := filepath.Dir(callerFile)
 	targetFile := filepath.Join(callerDir, path)
 
-- 
2.43.0


From a258a99556697b5c77eabab69049c4c85351a66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:20 +0000
Subject: [PATCH 23/63] fix: dynblock: JustAttributes leaves out what was
 already consumed

On a body left over by PartialContent, it returned attributes and reported
blocks that an earlier reader had already taken. Inside a dynamic block, the
attributes it returned could not refer to the iterator.
---
 ext/dynblock/expand_body.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/ext/dynblock/expand_body.go b/ext/dynblock/expand_body.go
index dd30822..215f923 100644
--- a/ext/dynblock/expand_body.go
+++ b/ext/dynblock/expand_body.go
@@ -253,8 +253,38 @@ func (b *expandBody) expandChild(child hcl.Body, i *iteration) hcl.Body {
 func (b *expandBody) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	// blocks aren't allowed in JustAttributes mode and this body can
 	// only produce blocks, so we'll just pass straight through to our
-	// underlying body here.
-	return b.original.JustAttributes()
+	// underlying body here, aside from anything that a previous
+	// PartialContent call already saw.
+	attrs, diags := b.visible().JustAttributes()
+	return b.prepareAttributes(attrs), diags
+}
+
+// visible returns our underlying body without the attributes, blocks and
+// "dynamic" blocks that are hidden because a previous PartialContent call
+// already saw them.
+func (b *expandBody) visible() hcl.Body {
+	if len(b.hiddenAttrs) == 0 && len(b.hiddenBlocks) == 0 {
+		return b.original
+	}
+
+	schema := b.extendSchema(&hcl.BodySchema{})
+	content, remain, _ := b.original.PartialContent(schema)
+	seen := false
+	for _, block := range content.Blocks {
+		if block.Type != "dynamic" {
+			continue
+		}
+		if _, seen = b.hiddenBlocks[block.Labels[0]]; !seen {
+			break
+		}
+	}
+	if !seen {
+		// There are no "dynamic" blocks or some of them are still to be seen,
+		// so we must leave anything of that name in place.
+		schema.Blocks = schema.Blocks[1:]
+		_, remain, _ = b.original.PartialContent(schema)
+	}
+	return remain
 }
 
 func (b *expandBody) MissingItemRange() hcl.Range {
-- 
2.43.0


From 4b06be45ad3b09244ddb9c46b9c5d45e2f0c3f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:29 +0000
Subject: [PATCH 24/63] fix: hcldec: the implied schema and variables have a
 predictable order

The order in which an ObjectSpec visits its children came from a map. It
decides which name is suggested for a misspelt argument and in which order
Variables returns its result.
---
 hcldec/spec.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 1e8051f..f521ce3 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -64,8 +64,15 @@ type specNeedingVariables interface {
 }
 
 func (s ObjectSpec) visitSameBodyChildren(cb visitFunc) {
-	for _, c := range s {
-		cb(c)
+	// The order in which we visit decides about the order of the implied
+	// schema and of the required variables, so it must be predictable.
+	names := make([]string, 0, len(s))
+	for name := range s {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		cb(s[name])
 	}
 }
 
-- 
2.43.0


From 09b4c8adae795a8eb3b0387bccf662f6caa39093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:29 +0000
Subject: [PATCH 25/63] fix: suggest the same variable or function name every
 time

Where several known names are similar to a misspelt one, the suggestion
depended on the iteration order of a map.
---
 hcl/hclsyntax/expression.go | 2 ++
 hcl/traversal.go            | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index c88a78d..7bc44e6 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -2,6 +2,7 @@ package hclsyntax
 
 import (
 	"fmt"
+	"sort"
 	"sync"
 
 	"github.com/hashicorp/hcl2/hcl"
@@ -224,6 +225,7 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 		for name := range ctx.Functions {
 			avail = append(avail, name)
 		}
+		sort.Strings(avail) // so that we'll always make the same suggestion
 		suggestion := nameSuggestion(e.Name, avail)
 		if suggestion != "" {
 			suggestion = fmt.Sprintf(" Did you mean %q?", suggestion)
diff --git a/hcl/traversal.go b/hcl/traversal.go
index d710197..fd95628 100644
--- a/hcl/traversal.go
+++ b/hcl/traversal.go
@@ -2,6 +2,7 @@ package hcl
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/zclconf/go-cty/cty"
 )
@@ -97,9 +98,12 @@ func (t Traversal) TraverseAbs(ctx *EvalContext) (cty.Value, Diagnostics) {
 	suggestions := make([]string, 0, len(ctx.Variables))
 	thisCtx = ctx
 	for thisCtx != nil {
+		names := make([]string, 0, len(thisCtx.Variables))
 		for k := range thisCtx.Variables {
-			suggestions = append(suggestions, k)
+			names = append(names, k)
 		}
+		sort.Strings(names) // so that we'll always make the same suggestion
+		suggestions = append(suggestions, names...)
 		thisCtx = thisCtx.parent
 	}
 	suggestion := nameSuggestion(name, suggestions)
-- 
2.43.0


From 3be55fc21262f4a4ec60cabc4bff827c1b05f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:29 +0000
Subject: [PATCH 26/63] fix: hclwrite: Body.Blocks returns the blocks in order

---
 hclwrite/ast_body.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index cf69fee..c1e7144 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -55,10 +55,11 @@ func (b *Body) Attributes() map[string]*Attribute {
 	return ret
 }
 
-// Blocks returns a new slice of all the blocks in the body.
+// Blocks returns a new slice of all the blocks in the body, in the order
+// they appear in it.
 func (b *Body) Blocks() []*Block {
 	ret := make([]*Block, 0, len(b.items))
-	for n := range b.items {
+	for _, n := range b.items.List() {
 		if block, isBlock := n.content.(*Block); isBlock {
 			ret = append(ret, block)
 		}
-- 
2.43.0


From 3590fbf84681b9c2a991a8df08bf7adc65e86830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:29 +0000
Subject: [PATCH 27/63] fix: hclpack: positions with the same byte offset are
 packed in order

They were packed in random order, and a step back to an earlier line lost
its column when unpacked.
---
 hclpack/positions_packed.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hclpack/positions_packed.go b/hclpack/positions_packed.go
index 29c7144..b97e2cb 100644
--- a/hclpack/positions_packed.go
+++ b/hclpack/positions_packed.go
@@ -110,7 +110,7 @@ func (pp positionsPacked) Unpack() []position {
 			accPos = hcl.Pos{} // reset base position for each new file
 			accFileIdx = pp[i].FileIdx
 		}
-		if relPos.LineDelta > 0 {
+		if relPos.LineDelta != 0 {
 			accPos.Column = 0 // reset column position for each new line
 		}
 		accPos.Line += relPos.LineDelta
@@ -318,7 +318,13 @@ func (sp sortPositions) Len() int {
 }
 
 func (sp sortPositions) Less(i, j int) bool {
-	return sp[i].Byte < sp[j].Byte
+	if sp[i].Byte != sp[j].Byte {
+		return sp[i].Byte < sp[j].Byte
+	}
+	if sp[i].Line != sp[j].Line {
+		return sp[i].Line < sp[j].Line
+	}
+	return sp[i].Column < sp[j].Column
 }
 
 func (sp sortPositions) Swap(i, j int) {
-- 
2.43.0


From d75f8bdb68c0deb4f2651f731d4f94895b0c82aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:29 +0000
Subject: [PATCH 28/63] fix: dynblock: variables are returned in a predictable
 order

---
 ext/dynblock/variables.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ext/dynblock/variables.go b/ext/dynblock/variables.go
index ad838f3..2bf07ce 100644
--- a/ext/dynblock/variables.go
+++ b/ext/dynblock/variables.go
@@ -1,6 +1,8 @@
 package dynblock
 
 import (
+	"sort"
+
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/zclconf/go-cty/cty"
 )
@@ -77,8 +79,14 @@ func (n WalkVariablesNode) Visit(schema *hcl.BodySchema) (vars []hcl.Traversal,
 	children = make([]WalkVariablesChild, 0, len(container.Blocks))
 
 	if n.includeContent {
-		for _, attr := range container.Attributes {
-			for _, traversal := range attr.Expr.Variables() {
+		// We visit in order of name so that our result is predictable.
+		names := make([]string, 0, len(container.Attributes))
+		for name := range container.Attributes {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
+			for _, traversal := range container.Attributes[name].Expr.Variables() {
 				var ours, inherited bool
 				if n.it != nil {
 					ours = traversal.RootName() == n.it.IteratorName
-- 
2.43.0


From ffe5251eaa14e0a5da7c53fbdf7fdaadf9bd2e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:29 +0000
Subject: [PATCH 29/63] fix: dynblock: hidden names have a predictable order in
 the extended schema

Their order decides which name is suggested for a misspelt argument.
---
 ext/dynblock/expand_body.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ext/dynblock/expand_body.go b/ext/dynblock/expand_body.go
index 215f923..ab8c9d3 100644
--- a/ext/dynblock/expand_body.go
+++ b/ext/dynblock/expand_body.go
@@ -2,6 +2,7 @@ package dynblock
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/zclconf/go-cty/cty"
@@ -97,8 +98,15 @@ func (b *expandBody) extendSchema(schema *hcl.BodySchema) *hcl.BodySchema {
 	// so that a call to "Content" on the underlying body won't fail.
 	// (We'll filter these out again once we process the result of either
 	// Content or PartialContent.)
-	for _, blockS := range b.hiddenBlocks {
-		extSchema.Blocks = append(extSchema.Blocks, blockS)
+	// The order matters for suggestions in error messages, so we'll keep it
+	// predictable.
+	typeNames := make([]string, 0, len(b.hiddenBlocks))
+	for typeName := range b.hiddenBlocks {
+		typeNames = append(typeNames, typeName)
+	}
+	sort.Strings(typeNames)
+	for _, typeName := range typeNames {
+		extSchema.Blocks = append(extSchema.Blocks, b.hiddenBlocks[typeName])
 	}
 
 	// If we have any hiddenAttrs then we also need to register these, for
@@ -106,7 +114,12 @@ func (b *expandBody) extendSchema(schema *hcl.BodySchema) *hcl.BodySchema {
 	if len(b.hiddenAttrs) != 0 {
 		newAttrs := make([]hcl.AttributeSchema, len(schema.Attributes), len(schema.Attributes)+len(b.hiddenAttrs))
 		copy(newAttrs, extSchema.Attributes)
+		names := make([]string, 0, len(b.hiddenAttrs))
 		for name := range b.hiddenAttrs {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
 			newAttrs = append(newAttrs, hcl.AttributeSchema{
 				Name:     name,
 				Required: false,
-- 
2.43.0


From 854cfcf9e3d1df89b0aa4da56f863afcbab36e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:08 +0000
Subject: [PATCH 30/63] fix: json: no panic when an invalid character follows a
 syntax error

---
 hcl/json/parser.go | 4 ++--
 hcl/json/peeker.go | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/hcl/json/parser.go b/hcl/json/parser.go
index d368ea8..4de642f 100644
--- a/hcl/json/parser.go
+++ b/hcl/json/parser.go
@@ -119,7 +119,7 @@ func parseObject(p *peeker) (node, hcl.Diagnostics) {
 				if open <= 1 {
 					return
 				}
-			case tokenEOF:
+			case tokenEOF, tokenInvalid:
 				// Ran out of source before we were able to recover,
 				// so we'll bail here and let the caller deal with it.
 				return
@@ -270,7 +270,7 @@ func parseArray(p *peeker) (node, hcl.Diagnostics) {
 				if open <= 1 {
 					return
 				}
-			case tokenEOF:
+			case tokenEOF, tokenInvalid:
 				// Ran out of source before we were able to recover,
 				// so we'll bail here and let the caller deal with it.
 				return
diff --git a/hcl/json/peeker.go b/hcl/json/peeker.go
index fc7bbf5..459d8f4 100644
--- a/hcl/json/peeker.go
+++ b/hcl/json/peeker.go
@@ -18,7 +18,9 @@ func (p *peeker) Peek() token {
 
 func (p *peeker) Read() token {
 	ret := p.tokens[p.pos]
-	if ret.Type != tokenEOF {
+	// The token stream ends either with an EOF token or with an invalid token,
+	// so we stay there once we reach it.
+	if ret.Type != tokenEOF && ret.Type != tokenInvalid {
 		p.pos++
 	}
 	return ret
-- 
2.43.0


From 6de7c8b2a4120c9e758d1f72db3a1589da518644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:17 +0000
Subject: [PATCH 31/63] fix: json: the range of an invalid string escape lies
 within the string

---
 hcl/json/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hcl/json/parser.go b/hcl/json/parser.go
index 4de642f..63d7ff7 100644
--- a/hcl/json/parser.go
+++ b/hcl/json/parser.go
@@ -403,7 +403,8 @@ func parseString(p *peeker) (node, hcl.Diagnostics) {
 	if err != nil {
 		var errRange hcl.Range
 		if serr, ok := err.(*json.SyntaxError); ok {
-			errOfs := serr.Offset
+			// Offset counts the bytes read so far, including the wrong one.
+			errOfs := serr.Offset - 1
 			errPos := tok.Range.Start
 			errPos.Byte += int(errOfs)
 
-- 
2.43.0


From aec50ea2c445ce50d0e22fdbdd732593072b96ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:05 +0000
Subject: [PATCH 32/63] fix: hclsyntax: splats without attributes and broken
 function calls have proper ranges

---
 hcl/hclsyntax/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 772ebae..41be171 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -668,7 +668,8 @@ Traversal:
 				// whereas foo[*] can support _any_ traversal.
 				marker := p.Read() // eat star
 				trav := make(hcl.Traversal, 0, 1)
-				var firstRange, lastRange hcl.Range
+				var firstRange hcl.Range
+				lastRange := marker.Range // in case no attributes follow
 				firstRange = p.NextRange()
 				for p.Peek().Type == TokenDot {
 					dot := p.Read()
@@ -1120,7 +1121,7 @@ Token:
 			// if there was a parse error in the argument then we've
 			// probably been left in a weird place in the token stream,
 			// so we'll bail out with a partial argument list.
-			p.recover(TokenCParen)
+			closeTok = p.recover(TokenCParen)
 			break Token
 		}
 
-- 
2.43.0


From 144584dab5ba0811eb73eabc3ca78e1471b1cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:31 +0000
Subject: [PATCH 33/63] fix: hclsyntax: report invalid UTF-8 sequences within
 identifiers

---
 hcl/hclsyntax/token.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/token.go b/hcl/hclsyntax/token.go
index 3d898fd..56fcc69 100644
--- a/hcl/hclsyntax/token.go
+++ b/hcl/hclsyntax/token.go
@@ -3,6 +3,7 @@ package hclsyntax
 import (
 	"bytes"
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/apparentlymart/go-textseg/textseg"
 	"github.com/hashicorp/hcl2/hcl"
@@ -194,7 +195,13 @@ func checkInvalidTokens(tokens Tokens) hcl.Diagnostics {
 		// copy token so it's safe to point to it
 		tok := tok
 
-		switch tok.Type {
+		ty := tok.Type
+		if ty == TokenIdent && !utf8.Valid(tok.Bytes) {
+			// The scanner tolerates some invalid sequences in identifiers.
+			ty = TokenBadUTF8
+		}
+
+		switch ty {
 		case TokenBitwiseAnd, TokenBitwiseOr, TokenBitwiseXor, TokenBitwiseNot:
 			if toldBitwise < 4 {
 				var suggestion string
-- 
2.43.0


From 6da3525b7b8f7b4b7748fd326065653aea769200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:33 +0000
Subject: [PATCH 34/63] fix: hclsyntax: the range of an unterminated string
 ends where the string does

---
 hcl/hclsyntax/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 41be171..5b2bd67 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1691,6 +1691,7 @@ Token:
 				Subject:  &tok.Range,
 				Context:  hcl.RangeBetween(oQuote.Range, tok.Range).Ptr(),
 			})
+			cQuote = tok
 			break Token
 
 		default:
@@ -1702,7 +1703,7 @@ Token:
 				Subject:  &tok.Range,
 				Context:  hcl.RangeBetween(oQuote.Range, tok.Range).Ptr(),
 			})
-			p.recover(TokenCQuote)
+			cQuote = p.recover(TokenCQuote)
 			break Token
 
 		}
-- 
2.43.0


From 46c815164129a2aea76353feebca0c88883654b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:01 +0000
Subject: [PATCH 35/63] fix: json: report invalid UTF-8 in strings

---
 hcl/json/parser.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hcl/json/parser.go b/hcl/json/parser.go
index 63d7ff7..be68000 100644
--- a/hcl/json/parser.go
+++ b/hcl/json/parser.go
@@ -3,6 +3,7 @@ package json
 import (
 	"encoding/json"
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/zclconf/go-cty/cty"
@@ -397,6 +398,18 @@ func parseNumber(p *peeker) (node, hcl.Diagnostics) {
 
 func parseString(p *peeker) (node, hcl.Diagnostics) {
 	tok := p.Read()
+	if !utf8.Valid(tok.Bytes) {
+		// encoding/json would silently replace the invalid sequences.
+		return nil, hcl.Diagnostics{
+			{
+				Severity: hcl.DiagError,
+				Summary:  "Invalid character encoding",
+				Detail:   "All input files must be UTF-8 encoded. Ensure that UTF-8 encoding is selected in your editor.",
+				Subject:  &tok.Range,
+			},
+		}
+	}
+
 	var str string
 	err := json.Unmarshal(tok.Bytes, &str)
 
-- 
2.43.0


From 6d67e36d7315f8b6600e76de38ba1e13bfd4af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:30 +0000
Subject: [PATCH 36/63] fix: hclpack: pack all of the source code of an
 expression

---
 hclpack/pack_native.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/hclpack/pack_native.go b/hclpack/pack_native.go
index 05f67a6..7492089 100644
--- a/hclpack/pack_native.go
+++ b/hclpack/pack_native.go
@@ -20,7 +20,7 @@ func PackNativeFile(src []byte, filename string, start hcl.Pos) (*Body, hcl.Diag
 func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
 	ret := &Body{}
 	for name, attr := range body.Attributes {
-		exprRng := attr.Expr.Range()
+		exprRng := exprSourceRange(attr, src)
 		exprStartRng := attr.Expr.StartRange()
 		exprSrc := exprRng.SliceBytes(src)
 		ret.setAttribute(name, Attribute{
@@ -56,3 +56,24 @@ func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
 
 	return ret
 }
+
+// exprSourceRange returns the range of all of the source code that makes up
+// the expression of the given attribute.
+//
+// The range that the expression itself reports can be smaller than that. For
+// example, it doesn't include any parentheses around the expression.
+func exprSourceRange(attr *hclsyntax.Attribute, src []byte) hcl.Range {
+	rng := hcl.Range{
+		Filename: attr.SrcRange.Filename,
+		Start:    attr.EqualsRange.End,
+		End:      attr.SrcRange.End,
+	}
+	for _, b := range rng.SliceBytes(src) {
+		if b != ' ' && b != '\t' {
+			break
+		}
+		rng.Start.Byte++
+		rng.Start.Column++
+	}
+	return rng
+}
-- 
2.43.0


From 46430c551429085aa96c091fcd3e4cf30b23f725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:31 +0000
Subject: [PATCH 37/63] fix: hclpack: pack the newline that ends a heredoc

---
 hclpack/pack_native.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hclpack/pack_native.go b/hclpack/pack_native.go
index 7492089..67e397b 100644
--- a/hclpack/pack_native.go
+++ b/hclpack/pack_native.go
@@ -1,6 +1,8 @@
 package hclpack
 
 import (
+	"bytes"
+
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/hashicorp/hcl2/hcl/hclsyntax"
 )
@@ -23,6 +25,10 @@ func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
 		exprRng := exprSourceRange(attr, src)
 		exprStartRng := attr.Expr.StartRange()
 		exprSrc := exprRng.SliceBytes(src)
+		if bytes.Contains(exprSrc, []byte("<<")) {
+			// The end marker of a heredoc must be followed by a newline.
+			exprSrc = append(exprSrc[:len(exprSrc):len(exprSrc)], '\n')
+		}
 		ret.setAttribute(name, Attribute{
 			Expr: Expression{
 				Source:     exprSrc,
-- 
2.43.0


From 3fbe1e839d8228caccfa7ea401396dcea8fd254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:39 +0000
Subject: [PATCH 38/63] fix: hclpack: no crash for ranges outside of the list
 of positions

---
 hclpack/positions_packed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclpack/positions_packed.go b/hclpack/positions_packed.go
index b97e2cb..6a15c5c 100644
--- a/hclpack/positions_packed.go
+++ b/hclpack/positions_packed.go
@@ -172,10 +172,10 @@ func packRange(rng hcl.Range, pos map[string]map[hcl.Pos]posOfs) rangePacked {
 func (rp rangePacked) Unpack(fns []string, poss []position) hcl.Range {
 	startIdx := rp.Start.Index()
 	endIdx := rp.End.Index()
-	if startIdx < 0 && startIdx >= len(poss) {
+	if startIdx < 0 || startIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
-	if endIdx < 0 && endIdx >= len(poss) {
+	if endIdx < 0 || endIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
 	startPos := poss[startIdx]
-- 
2.43.0


From de32172ad36ff9a7be67462509a9cb5e049e0e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:52 +0000
Subject: [PATCH 39/63] fix: hclpack: unexpected blocks are reported where they
 are

---
 hclpack/structure.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hclpack/structure.go b/hclpack/structure.go
index 895cf00..79a8010 100644
--- a/hclpack/structure.go
+++ b/hclpack/structure.go
@@ -195,11 +195,12 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	var diags hcl.Diagnostics
 	if len(b.ChildBlocks) > 0 {
 		for _, block := range b.ChildBlocks {
+			block := block // each diagnostic needs a range of its own
 			diags = append(diags, &hcl.Diagnostic{
 				Severity: hcl.DiagError,
 				Summary:  fmt.Sprintf("Unexpected %s block", block.Type),
 				Detail:   "Blocks are not allowed here.",
-				Context:  &block.TypeRange,
+				Subject:  &block.TypeRange,
 			})
 		}
 		// We'll continue processing anyway, and return any attributes we find
-- 
2.43.0


From 6cb1469099bf960ec11ac2471da5f3caf3c8f849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:55 +0000
Subject: [PATCH 40/63] fix: hclpack: pack only a newline that is there

---
 hclpack/pack_native.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hclpack/pack_native.go b/hclpack/pack_native.go
index 67e397b..8a5df2a 100644
--- a/hclpack/pack_native.go
+++ b/hclpack/pack_native.go
@@ -27,7 +27,7 @@ func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
 		exprSrc := exprRng.SliceBytes(src)
 		if bytes.Contains(exprSrc, []byte("<<")) {
 			// The end marker of a heredoc must be followed by a newline.
-			exprSrc = append(exprSrc[:len(exprSrc):len(exprSrc)], '\n')
+			exprSrc = append(exprSrc[:len(exprSrc):len(exprSrc)], newlineAt(exprRng.End, src)...)
 		}
 		ret.setAttribute(name, Attribute{
 			Expr: Expression{
@@ -63,6 +63,17 @@ func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
 	return ret
 }
 
+// newlineAt returns the newline sequence at the given position, if any.
+func newlineAt(pos hcl.Pos, src []byte) string {
+	rest := hcl.Range{Start: pos, End: hcl.Pos{Byte: len(src)}}.SliceBytes(src)
+	for _, nl := range []string{"\n", "\r\n"} {
+		if bytes.HasPrefix(rest, []byte(nl)) {
+			return nl
+		}
+	}
+	return ""
+}
+
 // exprSourceRange returns the range of all of the source code that makes up
 // the expression of the given attribute.
 //
-- 
2.43.0


From 400c084a279ae69ba605923df54ff01a362c91c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:45 +0000
Subject: [PATCH 41/63] fix: hclsyntax: no panic when a function blames an
 expanded argument

---
 hcl/hclsyntax/expression.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 7bc44e6..06fabc0 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -395,7 +395,8 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 			} else {
 				param = varParam
 			}
-			argExpr := e.Args[i]
+			// the final argument may have been expanded to several
+			argExpr := args[i]
 
 			// TODO: we should also unpick a PathError here and show the
 			// path to the deep value where the error was detected.
-- 
2.43.0


From 8d9abc01f0e3da5c5918d50ff2016348966d040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:14 +0000
Subject: [PATCH 42/63] fix: hclwrite: forget the items of a cleared body

An attribute set after Clear replaced the expression of the removed one and was lost.
---
 hclwrite/ast_body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index c1e7144..dca93c2 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -35,6 +35,7 @@ func (b *Body) appendItemNode(nn *node) *node {
 // Clear removes all of the items from the body, making it empty.
 func (b *Body) Clear() {
 	b.children.Clear()
+	b.items = newNodeSet()
 }
 
 func (b *Body) AppendUnstructuredTokens(ts Tokens) {
-- 
2.43.0


From 40fafe5ff6d84ab1f66a5d47a91917b38b8aa69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:14 +0000
Subject: [PATCH 43/63] fix: hclwrite: return the attribute that was created

---
 hclwrite/ast_body.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index dca93c2..1bcda5f 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -98,7 +98,7 @@ func (b *Body) SetAttributeValue(name string, val cty.Value) *Attribute {
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
@@ -119,7 +119,7 @@ func (b *Body) SetAttributeTraversal(name string, traversal hcl.Traversal) *Attr
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
-- 
2.43.0


From fd7b7c3e7dd90c7879e0a0bb21a8b8c1a142e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:14 +0000
Subject: [PATCH 44/63] fix: hclwrite: TokensForTraversal returns the tokens

---
 hclwrite/generate.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index d249cfd..ebd318f 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -159,12 +159,12 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 
 func appendTokensForTraversal(traversal hcl.Traversal, toks Tokens) Tokens {
 	for _, step := range traversal {
-		appendTokensForTraversalStep(step, toks)
+		toks = appendTokensForTraversalStep(step, toks)
 	}
 	return toks
 }
 
-func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
+func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) Tokens {
 	switch ts := step.(type) {
 	case hcl.TraverseRoot:
 		toks = append(toks, &Token{
@@ -188,7 +188,7 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 			Type:  hclsyntax.TokenOBrack,
 			Bytes: []byte{'['},
 		})
-		appendTokensForValue(ts.Key, toks)
+		toks = appendTokensForValue(ts.Key, toks)
 		toks = append(toks, &Token{
 			Type:  hclsyntax.TokenCBrack,
 			Bytes: []byte{']'},
@@ -196,6 +196,8 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 	default:
 		panic(fmt.Sprintf("unsupported traversal step type %T", step))
 	}
+
+	return toks
 }
 
 func escapeQuotedStringLit(s string) []byte {
-- 
2.43.0


From 22211ca78291c41300d539ad163ae85c013d9777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:20:14 +0000
Subject: [PATCH 45/63] fix: hclwrite: quote an object key "for" where it
 starts a for expression

---
 hclwrite/generate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index ebd318f..d1cb26d 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -129,7 +129,8 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 				})
 			}
 			eKey, eVal := it.Element()
-			if hclsyntax.ValidIdentifier(eKey.AsString()) {
+			// A leading "for" would start a for expression.
+			if hclsyntax.ValidIdentifier(eKey.AsString()) && !(i == 0 && eKey.AsString() == "for") {
 				toks = append(toks, &Token{
 					Type:  hclsyntax.TokenIdent,
 					Bytes: []byte(eKey.AsString()),
-- 
2.43.0


From 202ea925f9fa0176c2bec8d9daf7a53b4f017356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:10 +0000
Subject: [PATCH 46/63] fix: hclwrite: put appended items on lines of their own

Items appended to a parsed body ended up behind the opening brace or the last
token if there was no newline, and the result was not valid.
---
 hclwrite/ast_body.go | 49 ++++++++++++++++++++++++++++++++++++++------
 hclwrite/parser.go   |  3 ++-
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index 1bcda5f..5cdb624 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -10,6 +10,10 @@ type Body struct {
 	inTree
 
 	items nodeSet
+
+	// openBrace is the opening brace of the block that a parsed body belongs
+	// to, or nil if the body begins at the start of a line.
+	openBrace *node
 }
 
 func newBody() *Body {
@@ -20,6 +24,7 @@ func newBody() *Body {
 }
 
 func (b *Body) appendItem(c nodeContent) *node {
+	b.startNewline()
 	nn := b.children.Append(c)
 	b.items.Add(nn)
 	return nn
@@ -32,6 +37,31 @@ func (b *Body) appendItemNode(nn *node) *node {
 	return nn
 }
 
+// startNewline makes sure that an item appended to the body is on lines of its
+// own, which may not be so if the body came from a parsed file.
+func (b *Body) startNewline() {
+	var first, last *Token
+	for n := b.children.first; n != nil && first == nil; n = n.after {
+		if toks := n.BuildTokens(nil); len(toks) > 0 {
+			first = toks[0]
+		}
+	}
+	for n := b.children.last; n != nil && last == nil; n = n.before {
+		if toks := n.BuildTokens(nil); len(toks) > 0 {
+			last = toks[len(toks)-1]
+		}
+	}
+	if b.openBrace != nil && (first == nil || !endsLine(first)) {
+		brace := b.openBrace.content.(Tokens)
+		if !endsLine(brace[len(brace)-1]) {
+			b.openBrace.content = append(brace, newlineToken())
+		}
+	}
+	if last != nil && !endsLine(last) {
+		b.AppendNewline()
+	}
+}
+
 // Clear removes all of the items from the body, making it empty.
 func (b *Body) Clear() {
 	b.children.Clear()
@@ -146,10 +176,17 @@ func (b *Body) AppendNewBlock(typeName string, labels []string) *Block {
 // which generally serves as a separator between different sets of body
 // contents.
 func (b *Body) AppendNewline() {
-	b.AppendUnstructuredTokens(Tokens{
-		{
-			Type:  hclsyntax.TokenNewline,
-			Bytes: []byte{'\n'},
-		},
-	})
+	b.AppendUnstructuredTokens(Tokens{newlineToken()})
+}
+
+func newlineToken() *Token {
+	return &Token{
+		Type:  hclsyntax.TokenNewline,
+		Bytes: []byte{'\n'},
+	}
+}
+
+// endsLine returns true if what follows the given token is on a new line.
+func endsLine(t *Token) bool {
+	return len(t.Bytes) > 0 && t.Bytes[len(t.Bytes)-1] == '\n'
 }
diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index a677dcc..9061a72 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -317,7 +317,7 @@ func parseBlock(nativeBlock *hclsyntax.Block, from, leadComments, lineComments,
 
 	before, oBrace, from := from.Partition(nativeBlock.OpenBraceRange)
 	children.AppendUnstructuredTokens(before.Tokens())
-	children.AppendUnstructuredTokens(oBrace.Tokens())
+	openBrace := children.AppendUnstructuredTokens(oBrace.Tokens())
 
 	// We go a bit out of order here: we go hunting for the closing brace
 	// so that we have a delimited body, but then we'll deal with the body
@@ -326,6 +326,7 @@ func parseBlock(nativeBlock *hclsyntax.Block, from, leadComments, lineComments,
 	bodyTokens, cBrace, from := from.Partition(nativeBlock.CloseBraceRange)
 	before, body, after := parseBody(nativeBlock.Body, bodyTokens)
 	children.AppendUnstructuredTokens(before.Tokens())
+	body.content.(*Body).openBrace = openBrace
 	block.body = body
 	children.AppendNode(body)
 	children.AppendUnstructuredTokens(after.Tokens())
-- 
2.43.0


From a55a6e96e6d78b1797a21bdc27b5d8dfe9951635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:05 +0000
Subject: [PATCH 47/63] fix: dynblock: VariablesHCLDec covers the content of
 attribute blocks

It is a drop-in replacement for hcldec.Variables, but left out what is referred
to in blocks that are decoded with hcldec.BlockAttrsSpec.
---
 ext/dynblock/variables_hcldec.go | 39 ++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/ext/dynblock/variables_hcldec.go b/ext/dynblock/variables_hcldec.go
index a078d91..2691771 100644
--- a/ext/dynblock/variables_hcldec.go
+++ b/ext/dynblock/variables_hcldec.go
@@ -33,6 +33,17 @@ func walkVariablesWithHCLDec(node WalkVariablesNode, spec hcldec.Spec) []hcl.Tra
 	if len(children) > 0 {
 		childSpecs := hcldec.ChildBlockTypes(spec)
 		for _, child := range children {
+			if isBlockAttrs(spec, child.BlockTypeName) {
+				// The specification doesn't say which attributes to expect.
+				schema := &hcl.BodySchema{}
+				attrs, _ := child.Body().JustAttributes()
+				for name := range attrs {
+					schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: name})
+				}
+				childVars, _ := child.Node.Visit(schema)
+				vars = append(vars, childVars...)
+				continue
+			}
 			if childSpec, exists := childSpecs[child.BlockTypeName]; exists {
 				vars = append(vars, walkVariablesWithHCLDec(child.Node, childSpec)...)
 			}
@@ -41,3 +52,31 @@ func walkVariablesWithHCLDec(node WalkVariablesNode, spec hcldec.Spec) []hcl.Tra
 
 	return vars
 }
+
+// isBlockAttrs returns true if the given specification treats the content of
+// blocks of the given type as arbitrary attributes.
+func isBlockAttrs(spec hcldec.Spec, blockTypeName string) bool {
+	switch ts := spec.(type) {
+	case *hcldec.BlockAttrsSpec:
+		return ts.TypeName == blockTypeName
+	case hcldec.ObjectSpec:
+		for _, child := range ts {
+			if isBlockAttrs(child, blockTypeName) {
+				return true
+			}
+		}
+	case hcldec.TupleSpec:
+		for _, child := range ts {
+			if isBlockAttrs(child, blockTypeName) {
+				return true
+			}
+		}
+	case *hcldec.DefaultSpec:
+		return isBlockAttrs(ts.Primary, blockTypeName) || isBlockAttrs(ts.Default, blockTypeName)
+	case *hcldec.TransformExprSpec:
+		return isBlockAttrs(ts.Wrapped, blockTypeName)
+	case *hcldec.TransformFuncSpec:
+		return isBlockAttrs(ts.Wrapped, blockTypeName)
+	}
+	return false
+}
-- 
2.43.0


From 8518b11cbeade8db8c0329ef9c48a7f4211720b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:16 +0000
Subject: [PATCH 48/63] fix: dynblock: VariablesHCLDec covers expressions in
 the specification

It is a drop-in replacement for hcldec.Variables, which returns those.
---
 ext/dynblock/variables_hcldec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ext/dynblock/variables_hcldec.go b/ext/dynblock/variables_hcldec.go
index 2691771..927d612 100644
--- a/ext/dynblock/variables_hcldec.go
+++ b/ext/dynblock/variables_hcldec.go
@@ -30,6 +30,11 @@ func ExpandVariablesHCLDec(body hcl.Body, spec hcldec.Spec) []hcl.Traversal {
 func walkVariablesWithHCLDec(node WalkVariablesNode, spec hcldec.Spec) []hcl.Traversal {
 	vars, children := node.Visit(hcldec.ImpliedSchema(spec))
 
+	if node.includeContent {
+		// The specification itself may contain expressions, too.
+		vars = append(vars, hcldec.Variables(hcl.EmptyBody(), spec)...)
+	}
+
 	if len(children) > 0 {
 		childSpecs := hcldec.ChildBlockTypes(spec)
 		for _, child := range children {
-- 
2.43.0


From 6e68e3126ca3febc508bc17fa01c22d1f6993787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:07 +0000
Subject: [PATCH 49/63] fix: hcldec: no panic when the blocks of a map have
 different types

The nested values have different types if an expression of the specification
fails or is unknown for some of the blocks. Lists and sets of blocks deal with
that already.
---
 hcldec/spec.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index f521ce3..4b1d022 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -884,6 +884,9 @@ func (s *BlockMapSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel
 	}
 
 	elems := map[string]interface{}{}
+	var vals []cty.Value
+	var setVals []func(cty.Value)
+	var sourceRanges []hcl.Range
 	for _, childBlock := range content.Blocks {
 		if childBlock.Type != s.TypeName {
 			continue
@@ -920,12 +923,48 @@ func (s *BlockMapSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel
 		}
 
 		targetMap[key] = val
+		vals = append(vals, val)
+		setVals = append(setVals, func(v cty.Value) { targetMap[key] = v })
+		sourceRanges = append(sourceRanges, sourceRange(childBlock.Body, childLabels[len(s.LabelNames):], s.Nested))
 	}
 
 	if len(elems) == 0 {
 		return cty.MapValEmpty(s.Nested.impliedType()), diags
 	}
 
+	// All of the elements must have the same type or cty.MapVal will panic
+	// below. Different types can arise if there is an expression in the nested
+	// spec that can't be evaluated or isn't known yet.
+	etys := make([]cty.Type, len(vals))
+	for i, v := range vals {
+		etys[i] = v.Type()
+	}
+	ety, convs := convert.UnifyUnsafe(etys)
+	if ety == cty.NilType {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  fmt.Sprintf("Unconsistent argument types in %s blocks", s.TypeName),
+			Detail:   "Corresponding attributes in all blocks of this type must be the same.",
+			Subject:  &sourceRanges[0],
+		})
+		return cty.DynamicVal, diags
+	}
+	for i, v := range vals {
+		if convs[i] != nil {
+			newV, err := convs[i](v)
+			if err != nil {
+				diags = append(diags, &hcl.Diagnostic{
+					Severity: hcl.DiagError,
+					Summary:  fmt.Sprintf("Unconsistent argument types in %s blocks", s.TypeName),
+					Detail:   fmt.Sprintf("Block with index %d has inconsistent argument types: %s.", i, err),
+					Subject:  &sourceRanges[i],
+				})
+				return cty.DynamicVal, diags
+			}
+			setVals[i](newV)
+		}
+	}
+
 	var ctyMap func(map[string]interface{}, int) cty.Value
 	ctyMap = func(raw map[string]interface{}, depth int) cty.Value {
 		vals := make(map[string]cty.Value, len(raw))
-- 
2.43.0


From 5474a734f06e9c2dcdfb0afa30cff824911104c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:50:56 +0000
Subject: [PATCH 50/63] fix: hclsyntax: allow expanding an argument that is not
 known yet

A call like max(1, x...) was an error if the type of x is not known yet.
---
 hcl/hclsyntax/expression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 06fabc0..dcd39f6 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -261,6 +261,8 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 		}
 
 		switch {
+		case expandVal == cty.DynamicVal:
+			return cty.DynamicVal, diags
 		case expandVal.Type().IsTupleType() || expandVal.Type().IsListType() || expandVal.Type().IsSetType():
 			if expandVal.IsNull() {
 				diags = append(diags, &hcl.Diagnostic{
-- 
2.43.0


From 07d83005f57e6e30f5f66a98d4fc5f0ad28c8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:33 +0000
Subject: [PATCH 51/63] fix: hcl: keep the type of an index into an unknown
 object

The specification promises an unknown value of the attribute's type. Without
the type, a conditional took the type of its other result only.
---
 hcl/ops.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hcl/ops.go b/hcl/ops.go
index 5d2910c..50e14ba 100644
--- a/hcl/ops.go
+++ b/hcl/ops.go
@@ -133,9 +133,6 @@ func Index(collection, key cty.Value, srcRange *Range) (cty.Value, Diagnostics)
 				},
 			}
 		}
-		if !collection.IsKnown() {
-			return cty.DynamicVal, nil
-		}
 		if !key.IsKnown() {
 			return cty.DynamicVal, nil
 		}
-- 
2.43.0


From b367e382a0ff2928220a207e8765613583e8d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:05:55 +0000
Subject: [PATCH 52/63] fix: hclsyntax: conditional crashed on collections
 whose element types are not known yet

Unifying the types of the two results picks a list or map of unknown
element type if any of the elements has no known type, for example
because it refers to a variable that does not exist. Unification, or the
conversion to that type, panics if the other elements have no type in
common. Report it as the error that it becomes once all types are known.
---
 hcl/hclsyntax/expression.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index dcd39f6..7a1b2c6 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -504,7 +504,7 @@ func (e *ConditionalExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostic
 
 	default:
 		// Try to find a type that both results can be converted to.
-		resultType, convs = convert.UnifyUnsafe([]cty.Type{trueResult.Type(), falseResult.Type()})
+		resultType, convs = unifyResults(trueResult.Type(), falseResult.Type())
 	}
 
 	if resultType == cty.NilType {
@@ -563,7 +563,7 @@ func (e *ConditionalExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostic
 		diags = append(diags, trueDiags...)
 		if convs[0] != nil {
 			var err error
-			trueResult, err = convs[0](trueResult)
+			trueResult, err = convertResult(convs[0], trueResult)
 			if err != nil {
 				// Unsafe conversion failed with the concrete result value
 				diags = append(diags, &hcl.Diagnostic{
@@ -586,7 +586,7 @@ func (e *ConditionalExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostic
 		diags = append(diags, falseDiags...)
 		if convs[1] != nil {
 			var err error
-			falseResult, err = convs[1](falseResult)
+			falseResult, err = convertResult(convs[1], falseResult)
 			if err != nil {
 				// Unsafe conversion failed with the concrete result value
 				diags = append(diags, &hcl.Diagnostic{
@@ -608,6 +608,30 @@ func (e *ConditionalExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostic
 	}
 }
 
+// unifyResults finds a type that both of the given types can be converted to.
+// If some of their element types are not known yet then unification can try
+// a collection type that it then finds to be impossible, which it reports by
+// panicking.
+func unifyResults(a, b cty.Type) (ty cty.Type, convs []convert.Conversion) {
+	defer func() {
+		if r := recover(); r != nil {
+			ty, convs = cty.NilType, nil
+		}
+	}()
+	return convert.UnifyUnsafe([]cty.Type{a, b})
+}
+
+// convertResult applies a conversion chosen by unifyResults, which can be
+// impossible in the same way.
+func convertResult(conv convert.Conversion, val cty.Value) (ret cty.Value, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			ret, err = cty.DynamicVal, fmt.Errorf("all elements must have the same type")
+		}
+	}()
+	return conv(val)
+}
+
 func (e *ConditionalExpr) Range() hcl.Range {
 	return e.SrcRange
 }
-- 
2.43.0


From 064d1c60415e54e77e4050c2a333aea2184a11fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:16:08 +0000
Subject: [PATCH 53/63] fix: hcldec: block attributes of different types
 crashed if the element type is any

The values of a block_attrs specification whose element type is any, or
a collection of any, are not converted to a common type before they are
put into a map. Convert them to a single type, as the other block
specifications do, and report an error if there is none.
---
 hcldec/spec.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 4b1d022..c1b32b0 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -1284,6 +1284,47 @@ func (s *BlockAttrsSpec) decode(content *hcl.BodyContent, blockLabels []blockLab
 		vals[name] = attrVal
 	}
 
+	if s.ElementType.HasDynamicTypes() {
+		// The element type doesn't decide the type of the attributes, so they
+		// can have different types. All of them must be convertable to
+		// a single type, or cty.MapVal will panic below.
+		names := make([]string, 0, len(vals))
+		for name := range vals {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		etys := make([]cty.Type, len(names))
+		for i, name := range names {
+			etys[i] = vals[name].Type()
+		}
+		ety, convs := convert.UnifyUnsafe(etys)
+		if ety == cty.NilType {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  fmt.Sprintf("Inconsistent argument types in %s block", s.TypeName),
+				Detail:   "All arguments in this block must have the same type.",
+				Subject:  &block.DefRange,
+			})
+			return cty.UnknownVal(cty.Map(s.ElementType)), diags
+		}
+		for i, name := range names {
+			if convs[i] == nil {
+				continue
+			}
+			val, err := convs[i](vals[name])
+			if err != nil {
+				diags = append(diags, &hcl.Diagnostic{
+					Severity: hcl.DiagError,
+					Summary:  fmt.Sprintf("Inconsistent argument types in %s block", s.TypeName),
+					Detail:   fmt.Sprintf("Invalid value for argument %q: %s.", name, err),
+					Subject:  attrs[name].Expr.Range().Ptr(),
+				})
+				return cty.UnknownVal(cty.Map(s.ElementType)), diags
+			}
+			vals[name] = val
+		}
+	}
+
 	return cty.MapVal(vals), diags
 }
 
-- 
2.43.0


From 98b842a96a251fc309811c5b645f412b7eed2507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:16:57 +0000
Subject: [PATCH 54/63] fix: hcldec: values of unknown type among values of
 different types crashed

Converting to a collection of any, or finding a type for the blocks of
a list, set or map, can select a type that leaves the values with
different types if one of them has no known type. Building the
collection then panics. Report an error, as for known values.
---
 hcldec/convert.go | 58 +++++++++++++++++++++++++++++++++++++++++++++++
 hcldec/spec.go    | 13 +++++------
 2 files changed, 64 insertions(+), 7 deletions(-)
 create mode 100644 hcldec/convert.go

diff --git a/hcldec/convert.go b/hcldec/convert.go
new file mode 100644
index 0000000..0b5f74b
--- /dev/null
+++ b/hcldec/convert.go
@@ -0,0 +1,58 @@
+package hcldec
+
+import (
+	"errors"
+
+	"github.com/zclconf/go-cty/cty"
+	"github.com/zclconf/go-cty/cty/convert"
+)
+
+// If the type of some value is not known yet then the functions of package
+// convert can choose a collection type for elements that have no type in
+// common with each other, and panic on the attempt to build the collection.
+// The functions below report an error instead.
+
+var errInconsistent = errors.New("all elements must have the same type")
+
+// convertVal converts the given value to the given type.
+func convertVal(val cty.Value, ty cty.Type) (ret cty.Value, err error) {
+	defer catchInconsistent(&ret, &err)
+	return convert.Convert(val, ty)
+}
+
+// unifyTypes finds a type that values of all of the given types can be
+// converted to, so that they can be the elements of a collection. The result
+// is cty.NilType if there is no such type.
+func unifyTypes(types []cty.Type) (ty cty.Type, convs []convert.Conversion) {
+	defer func() {
+		if r := recover(); r != nil {
+			ty, convs = cty.NilType, nil
+		}
+	}()
+	ty, convs = convert.UnifyUnsafe(types)
+	if ty == cty.NilType {
+		return ty, nil
+	}
+	for i, conv := range convs {
+		if conv == nil {
+			continue
+		}
+		conv := conv
+		convs[i] = func(val cty.Value) (ret cty.Value, err error) {
+			defer catchInconsistent(&ret, &err)
+			ret, err = conv(val)
+			if err == nil && !ret.Type().Equals(ty) {
+				// The type was too general to make the values equal in type.
+				return cty.DynamicVal, errInconsistent
+			}
+			return ret, err
+		}
+	}
+	return ty, convs
+}
+
+func catchInconsistent(val *cty.Value, err *error) {
+	if r := recover(); r != nil {
+		*val, *err = cty.DynamicVal, errInconsistent
+	}
+}
diff --git a/hcldec/spec.go b/hcldec/spec.go
index c1b32b0..2123ede 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -7,7 +7,6 @@ import (
 
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/zclconf/go-cty/cty"
-	"github.com/zclconf/go-cty/cty/convert"
 	"github.com/zclconf/go-cty/cty/function"
 )
 
@@ -202,7 +201,7 @@ func (s *AttrSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel, ct
 
 	val, diags := attr.Expr.Value(ctx)
 
-	convVal, err := convert.Convert(val, s.Type)
+	convVal, err := convertVal(val, s.Type)
 	if err != nil {
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
@@ -494,7 +493,7 @@ func (s *BlockListSpec) decode(content *hcl.BodyContent, blockLabels []blockLabe
 		for i, v := range elems {
 			etys[i] = v.Type()
 		}
-		ety, convs := convert.UnifyUnsafe(etys)
+		ety, convs := unifyTypes(etys)
 		if ety == cty.NilType {
 			// FIXME: This is a pretty terrible error message.
 			diags = append(diags, &hcl.Diagnostic{
@@ -768,7 +767,7 @@ func (s *BlockSetSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel
 		for i, v := range elems {
 			etys[i] = v.Type()
 		}
-		ety, convs := convert.UnifyUnsafe(etys)
+		ety, convs := unifyTypes(etys)
 		if ety == cty.NilType {
 			// FIXME: This is a pretty terrible error message.
 			diags = append(diags, &hcl.Diagnostic{
@@ -939,7 +938,7 @@ func (s *BlockMapSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel
 	for i, v := range vals {
 		etys[i] = v.Type()
 	}
-	ety, convs := convert.UnifyUnsafe(etys)
+	ety, convs := unifyTypes(etys)
 	if ety == cty.NilType {
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
@@ -1270,7 +1269,7 @@ func (s *BlockAttrsSpec) decode(content *hcl.BodyContent, blockLabels []blockLab
 		attrVal, attrDiags := attr.Expr.Value(ctx)
 		diags = append(diags, attrDiags...)
 
-		attrVal, err := convert.Convert(attrVal, s.ElementType)
+		attrVal, err := convertVal(attrVal, s.ElementType)
 		if err != nil {
 			diags = append(diags, &hcl.Diagnostic{
 				Severity: hcl.DiagError,
@@ -1297,7 +1296,7 @@ func (s *BlockAttrsSpec) decode(content *hcl.BodyContent, blockLabels []blockLab
 		for i, name := range names {
 			etys[i] = vals[name].Type()
 		}
-		ety, convs := convert.UnifyUnsafe(etys)
+		ety, convs := unifyTypes(etys)
 		if ety == cty.NilType {
 			diags = append(diags, &hcl.Diagnostic{
 				Severity: hcl.DiagError,
-- 
2.43.0


From d8ae5deab6f6011b69c91b75d5b1c13bde120f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:17:09 +0000
Subject: [PATCH 55/63] fix: hclsyntax: function arguments with elements of
 unknown and different types crashed

Converting such an argument to a parameter type like list of any panics.
Report an invalid argument.
---
 hcl/hclsyntax/expression.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 7a1b2c6..a2de942 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -360,7 +360,9 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 		}
 
 		// Try to convert our value to the parameter type
-		val, err := convert.Convert(val, param.Type)
+		val, err := convertResult(func(val cty.Value) (cty.Value, error) {
+			return convert.Convert(val, param.Type)
+		}, val)
 		if err != nil {
 			diags = append(diags, &hcl.Diagnostic{
 				Severity: hcl.DiagError,
@@ -621,8 +623,8 @@ func unifyResults(a, b cty.Type) (ty cty.Type, convs []convert.Conversion) {
 	return convert.UnifyUnsafe([]cty.Type{a, b})
 }
 
-// convertResult applies a conversion chosen by unifyResults, which can be
-// impossible in the same way.
+// convertResult applies a conversion, for example one chosen by unifyResults,
+// that can be impossible in the same way.
 func convertResult(conv convert.Conversion, val cty.Value) (ret cty.Value, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-- 
2.43.0


From ac91dcf32068449ebbefc3701ab5221c4bb4d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:24 +0000
Subject: [PATCH 56/63] fix: hclspecsuite: a traversal expected in two places
 was found if it was in one of them

---
 cmd/hclspecsuite/traversals.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/cmd/hclspecsuite/traversals.go b/cmd/hclspecsuite/traversals.go
index 160d5b7..c084e7a 100644
--- a/cmd/hclspecsuite/traversals.go
+++ b/cmd/hclspecsuite/traversals.go
@@ -8,23 +8,37 @@ import (
 )
 
 func findTraversalSpec(got hcl.Traversal, candidates []*TestFileExpectTraversal) *TestFileExpectTraversal {
+	// The same traversal can be expected in several places, so we prefer the
+	// place where we got it.
+	var ret *TestFileExpectTraversal
 	for _, candidate := range candidates {
-		if traversalsAreEquivalent(candidate.Traversal, got) {
+		if !traversalsAreEquivalent(candidate.Traversal, got) {
+			continue
+		}
+		if traversalIsAt(got, candidate.Range) {
 			return candidate
 		}
+		if ret == nil {
+			ret = candidate
+		}
 	}
-	return nil
+	return ret
 }
 
 func findTraversalForSpec(want *TestFileExpectTraversal, have []hcl.Traversal) hcl.Traversal {
 	for _, candidate := range have {
-		if traversalsAreEquivalent(candidate, want.Traversal) {
+		if traversalsAreEquivalent(candidate, want.Traversal) && traversalIsAt(candidate, want.Range) {
 			return candidate
 		}
 	}
 	return nil
 }
 
+func traversalIsAt(t hcl.Traversal, rng hcl.Range) bool {
+	got := t.SourceRange()
+	return got.Start == rng.Start && got.End == rng.End
+}
+
 func traversalsAreEquivalent(a, b hcl.Traversal) bool {
 	if len(a) != len(b) {
 		return false
-- 
2.43.0


From 3ed97be814c88c05e4e6291b2232881404c881fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:24 +0000
Subject: [PATCH 57/63] fix: hclspecsuite: a decoder that fails with expected
 warnings only passed the test

---
 cmd/hclspecsuite/runner.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/hclspecsuite/runner.go b/cmd/hclspecsuite/runner.go
index 65e5c29..88cd200 100644
--- a/cmd/hclspecsuite/runner.go
+++ b/cmd/hclspecsuite/runner.go
@@ -349,11 +349,11 @@ func (r *Runner) hcldecTransform(specFile, inputFile string) (cty.Value, hcl.Dia
 		// If we exited unsuccessfully then we'll expect diagnostics on stderr
 		moreDiags := decodeJSONDiagnostics(errBuffer.Bytes())
 		diags = append(diags, moreDiags...)
-		if len(diags) == 0 {
+		if !diags.HasErrors() {
 			diags = append(diags, &hcl.Diagnostic{
 				Severity: hcl.DiagError,
 				Summary:  "Failed to run hcldec",
-				Detail:   fmt.Sprintf("Sub-program hcldec failed without producing any diagnostics: %s.", err),
+				Detail:   fmt.Sprintf("Sub-program hcldec failed without producing any error diagnostics: %s.", err),
 			})
 		}
 		return cty.DynamicVal, diags
@@ -405,11 +405,11 @@ func (r *Runner) hcldecVariables(specFile, inputFile string) ([]hcl.Traversal, h
 		// If we exited unsuccessfully then we'll expect diagnostics on stderr
 		moreDiags := decodeJSONDiagnostics(errBuffer.Bytes())
 		diags = append(diags, moreDiags...)
-		if len(diags) == 0 {
+		if !diags.HasErrors() {
 			diags = append(diags, &hcl.Diagnostic{
 				Severity: hcl.DiagError,
 				Summary:  "Failed to run hcldec",
-				Detail:   fmt.Sprintf("Sub-program hcldec failed without producing any diagnostics: %s.", err),
+				Detail:   fmt.Sprintf("Sub-program hcldec failed without producing any error diagnostics: %s.", err),
 			})
 		}
 		return nil, diags
-- 
2.43.0


From 669fd55d089e78c5f5bddbeef49e7a3271c34f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:51:56 +0000
Subject: [PATCH 58/63] fix: gohcl: values of different types crashed if the
 target is a collection of cty.Value

---
 gohcl/decode.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/gohcl/decode.go b/gohcl/decode.go
index 3a149a8..edad69c 100644
--- a/gohcl/decode.go
+++ b/gohcl/decode.go
@@ -277,7 +277,7 @@ func DecodeExpression(expr hcl.Expression, ctx *hcl.EvalContext, val interface{}
 		panic(fmt.Sprintf("unsuitable DecodeExpression target: %s", err))
 	}
 
-	srcVal, err = convert.Convert(srcVal, convTy)
+	srcVal, err = convertVal(srcVal, convTy)
 	if err != nil {
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
@@ -302,3 +302,15 @@ func DecodeExpression(expr hcl.Expression, ctx *hcl.EvalContext, val interface{}
 
 	return diags
 }
+
+// convertVal converts the given value to the given type. If the type is that
+// of a collection of cty.Value then package convert can panic because the
+// elements have no type in common, which we report as an error instead.
+func convertVal(val cty.Value, ty cty.Type) (ret cty.Value, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			ret, err = cty.DynamicVal, fmt.Errorf("all elements must have the same type")
+		}
+	}()
+	return convert.Convert(val, ty)
+}
-- 
2.43.0


From bed356d755af46df4277f467ae5596da8715ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:02 +0000
Subject: [PATCH 59/63] fix: hcldec: a block spec without a block type was
 accepted

---
 cmd/hcldec/spec.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index 272ea4d..07ee037 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -256,6 +256,16 @@ func decodeBlockSpec(body hcl.Body, impliedName string) (hcldec.Spec, hcl.Diagno
 	diags = append(diags, nestedDiags...)
 	spec.Nested = nested
 
+	if spec.TypeName == "" {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  "Missing block_type in block spec",
+			Detail:   "The block_type attribute is required, to specify the block type name that is expected in an input HCL file.",
+			Subject:  body.MissingItemRange().Ptr(),
+		})
+		return errSpec, diags
+	}
+
 	return spec, diags
 }
 
-- 
2.43.0


From f2a6daf790ecc1c8b83155ad94a420cde538f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:02 +0000
Subject: [PATCH 60/63] fix: hcldec: --with-type crashed if the result contains
 an infinite number

---
 cmd/hcldec/main.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index 95a1229..24cc66c 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -193,15 +193,17 @@ func realmain(args []string) error {
 		os.Exit(2)
 	}
 
-	wantType := val.Type()
+	out, err := ctyjson.Marshal(val, val.Type())
+	if err != nil {
+		return err
+	}
 	if *withType {
 		// We'll instead ask to encode as dynamic, which will make the
 		// marshaler include type information.
-		wantType = cty.DynamicPseudoType
-	}
-	out, err := ctyjson.Marshal(val, wantType)
-	if err != nil {
-		return err
+		out, err = ctyjson.Marshal(val, cty.DynamicPseudoType)
+		if err != nil {
+			return err
+		}
 	}
 
 	// hcldec will include explicit nulls where an ObjectSpec has a spec
-- 
2.43.0


From 34e0d864b278579b3102e4a8b7c8c714da0181ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:02 +0000
Subject: [PATCH 61/63] fix: hclspecsuite: a decoder that was killed after
 reporting the expected diagnostics passed the test

---
 cmd/hclspecsuite/runner.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/hclspecsuite/runner.go b/cmd/hclspecsuite/runner.go
index 88cd200..47e059f 100644
--- a/cmd/hclspecsuite/runner.go
+++ b/cmd/hclspecsuite/runner.go
@@ -337,11 +337,11 @@ func (r *Runner) hcldecTransform(specFile, inputFile string) (cty.Value, hcl.Dia
 	}
 	err := cmd.Run()
 	if err != nil {
-		if _, isExit := err.(*exec.ExitError); !isExit {
+		if exitErr, isExit := err.(*exec.ExitError); !isExit || !exitErr.Exited() {
 			diags = append(diags, &hcl.Diagnostic{
 				Severity: hcl.DiagError,
 				Summary:  "Failed to run hcldec",
-				Detail:   fmt.Sprintf("Sub-program hcldec failed to start: %s.", err),
+				Detail:   fmt.Sprintf("Sub-program hcldec failed to start or did not exit by itself: %s.", err),
 			})
 			return cty.DynamicVal, diags
 		}
@@ -393,11 +393,11 @@ func (r *Runner) hcldecVariables(specFile, inputFile string) ([]hcl.Traversal, h
 	}
 	err := cmd.Run()
 	if err != nil {
-		if _, isExit := err.(*exec.ExitError); !isExit {
+		if exitErr, isExit := err.(*exec.ExitError); !isExit || !exitErr.Exited() {
 			diags = append(diags, &hcl.Diagnostic{
 				Severity: hcl.DiagError,
 				Summary:  "Failed to run hcldec",
-				Detail:   fmt.Sprintf("Sub-program hcldec (evaluating input) failed to start: %s.", err),
+				Detail:   fmt.Sprintf("Sub-program hcldec (evaluating input) failed to start or did not exit by itself: %s.", err),
 			})
 			return nil, diags
 		}
-- 
2.43.0


From 8d8f87ef769519ab1392579cb31c415167db0d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:18 +0000
Subject: [PATCH 62/63] fix: hclsyntax: no panic when a function blames an
 argument it was not given

---
 hcl/hclsyntax/expression.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index a2de942..887adc7 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1,6 +1,7 @@
 package hclsyntax
 
 import (
+	"errors"
 	"fmt"
 	"sort"
 	"sync"
@@ -390,6 +391,12 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 
 	resultVal, err := f.Call(argVals)
 	if err != nil {
+		if argErr, ok := err.(function.ArgError); ok && (argErr.Index < 0 || argErr.Index >= len(args)) {
+			// The function blames an argument that it was not given, so we
+			// can only report this for the call as a whole.
+			err = errors.New(argErr.Error())
+		}
+
 		switch terr := err.(type) {
 		case function.ArgError:
 			i := terr.Index
-- 
2.43.0


From 9194e6578a2299f33c8976e8607ee12b5ce8118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:59:54 +0000
Subject: [PATCH 63/63] fix: dynblock: report a required attribute that was
 already taken from the body

---
 ext/dynblock/expand_body.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ext/dynblock/expand_body.go b/ext/dynblock/expand_body.go
index ab8c9d3..2f1f993 100644
--- a/ext/dynblock/expand_body.go
+++ b/ext/dynblock/expand_body.go
@@ -33,6 +33,7 @@ func (b *expandBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diag
 
 	blocks, blockDiags := b.expandBlocks(schema, rawContent.Blocks, false)
 	diags = append(diags, blockDiags...)
+	diags = append(diags, b.checkRequired(schema, rawContent.Attributes)...)
 	attrs := b.prepareAttributes(rawContent.Attributes)
 
 	content := &hcl.BodyContent{
@@ -52,6 +53,7 @@ func (b *expandBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, h
 
 	blocks, blockDiags := b.expandBlocks(schema, rawContent.Blocks, true)
 	diags = append(diags, blockDiags...)
+	diags = append(diags, b.checkRequired(schema, rawContent.Attributes)...)
 	attrs := b.prepareAttributes(rawContent.Attributes)
 
 	content := &hcl.BodyContent{
@@ -131,6 +133,25 @@ func (b *expandBody) extendSchema(schema *hcl.BodySchema) *hcl.BodySchema {
 	return extSchema
 }
 
+// checkRequired reports any required attributes that are present in the
+// original body but hidden from us, which are therefore not reported as
+// missing by the original body itself.
+func (b *expandBody) checkRequired(schema *hcl.BodySchema, rawAttrs hcl.Attributes) hcl.Diagnostics {
+	var diags hcl.Diagnostics
+	for _, attrS := range schema.Attributes {
+		_, exists := rawAttrs[attrS.Name]
+		if _, hidden := b.hiddenAttrs[attrS.Name]; attrS.Required && exists && hidden {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  "Missing required argument",
+				Detail:   fmt.Sprintf("The argument %q is required, but no definition was found.", attrS.Name),
+				Subject:  b.MissingItemRange().Ptr(),
+			})
+		}
+	}
+	return diags
+}
+
 func (b *expandBody) prepareAttributes(rawAttrs hcl.Attributes) hcl.Attributes {
 	if len(b.hiddenAttrs) == 0 && b.iteration == nil {
 		// Easy path: just pass through the attrs from the original body verbatim
-- 
2.43.0

