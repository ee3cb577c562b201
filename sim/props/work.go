package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/include"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"

	"verifsim/harness"
)

// guard turns a panic into a result.
func guard(f func() string) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprintf("PANIC %v", r)
		}
	}()
	return f()
}

var workKinds = []string{
	"parse", "parse", "lex", "expr", "template", "traversal", "format", "format", "wfile", "edit", "edit", "encode", "pack", "read", "read", "diags", "userfunc",
	"include", "registry", "types", "schema", "implied", "values",
}

func genWork(r *rnd, ndocs int) harness.Op {
	op := harness.Op{K: workKinds[r.N(len(workKinds))], A: r.N(ndocs), B: r.N(16), C: r.N(400)}
	if op.K == "read" {
		rd := genRead(r)
		op.S, op.T = rd.K, rd.S
	}
	return op
}

// doWork performs one operation on the given document and renders the result.
func doWork(op harness.Op, doc harness.Doc) string {
	return guard(func() string { return doWork1(op, doc) })
}

func canonTokens(ts hclsyntax.Tokens) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%s %q %s\n", t.Type, t.Bytes, canonRange(&t.Range))
	}
	return b.String()
}

func canonWTokens(ts hclwrite.Tokens) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%d %q %d\n", t.Type, t.Bytes, t.SpacesBefore)
	}
	return b.String()
}

func orderDiags(ds hcl.Diagnostics) string {
	var ss []string
	for _, d := range ds {
		ss = append(ss, canonDiag(d))
	}
	return strings.Join(ss, "\n")
}

func doWork1(op harness.Op, doc harness.Doc) string {
	var b strings.Builder
	src := []byte(doc.Text())
	isJSON := strings.HasSuffix(doc.Name, ".json")
	switch op.K {
	case "parse":
		f, diags := parseDoc(doc)
		b.WriteString(orderDiags(diags) + "\n")
		if f != nil {
			c := &conf{body: f.Body, files: map[string]*hcl.File{doc.Name: f}, names: []string{doc.Name}}
			b.WriteString(c.readOp(harness.Op{K: "ranges"}))
			b.WriteString(c.readOp(harness.Op{K: "walk", B: op.B}))
		}
	case "lex":
		ts, diags := hclsyntax.LexConfig(src, doc.Name, start)
		b.WriteString(canonTokens(ts) + orderDiags(diags))
	case "expr":
		s := src
		if i := bytes.IndexByte(s, '='); i > 0 {
			s = s[i+1:]
		}
		if i := bytes.IndexByte(s, '\n'); i > 0 {
			s = s[:i]
		}
		e, diags := hclsyntax.ParseExpression(s, doc.Name, start)
		b.WriteString(orderDiags(diags) + "\n")
		if e != nil {
			v, diags := e.Value(ctxFor(op.B % 6))
			b.WriteString(canonVal(v) + orderDiags(diags) + canonTraversals(e.Variables()))
		}
	case "template":
		e, diags := hclsyntax.ParseTemplate(src, doc.Name, start)
		b.WriteString(orderDiags(diags) + "\n")
		if e != nil {
			v, diags := e.Value(ctxFor(op.B % 6))
			b.WriteString(canonVal(v) + orderDiags(diags) + canonTraversals(e.Variables()))
		}
	case "traversal":
		for _, s := range []string{"a.b[0].c", "a[\"k\"].*", "objs.0.id", "x..y", string(src[:len(src)*op.B/16])} {
			t, diags := hclsyntax.ParseTraversalAbs([]byte(s), doc.Name, start)
			b.WriteString(canonTraversal(t) + orderDiags(diags) + "\n")
		}
	case "format":
		b.Write(hclwrite.Format(src))
	case "wfile":
		f, diags := hclwrite.ParseConfig(src, doc.Name, start)
		b.WriteString(orderDiags(diags) + "\n")
		if f != nil {
			b.WriteString(canonWTokens(f.BuildTokens(nil)))
			b.Write(f.Bytes())
		}
	case "edit":
		f := hclwrite.NewEmptyFile()
		if !isJSON && op.B%4 != 0 {
			if pf, _ := hclwrite.ParseConfig(src, doc.Name, start); pf != nil {
				f = pf
			}
		}
		body := f.Body()
		for i := 0; i < 2+op.B%4; i++ {
			name := fmt.Sprintf("e%d", (op.C+i)%3)
			switch (op.C / (i + 1)) % 6 {
			case 0, 1:
				body.SetAttributeValue(name, cty.ObjectVal(map[string]cty.Value{"a": cty.NumberIntVal(int64(op.C)), "b": cty.StringVal(doc.Name), "c": cty.ListVal([]cty.Value{cty.True, cty.False})}))
			case 2:
				t, _ := hclsyntax.ParseTraversalAbs([]byte(fmt.Sprintf("obj.c%d.d", op.C)), "t", start)
				body.SetAttributeTraversal(name, t)
			case 3:
				blk := body.AppendNewBlock("blk", []string{doc.Name, name})
				blk.Body().SetAttributeValue("in", cty.StringVal(name))
				blk.Body().AppendNewline()
			case 4:
				if a := body.GetAttribute("s1"); a != nil {
					a.Expr().RenameVariablePrefix([]string{"name"}, []string{fmt.Sprintf("nm%d", op.C)})
				}
				body.SetAttributeValue("s2", cty.NumberIntVal(int64(op.C)))
			case 5:
				body.AppendUnstructuredTokens(hclwrite.TokensForValue(cty.StringVal(name)))
				body.AppendNewline()
			}
		}
		b.Write(f.Bytes())
	case "encode":
		port := float64(op.C)
		note := doc.Name
		v := &gService{Name: "n", Port: &port, Note: &note, Tags: []string{doc.Name, fmt.Sprint(op.C)}, Listeners: []gListener{{Proto: doc.Name, Weight: 2}, {Proto: fmt.Sprint(op.B)}}}
		f := hclwrite.NewEmptyFile()
		gohcl.EncodeIntoBody(v, f.Body())
		f.Body().AppendBlock(gohcl.EncodeAsBlock(v, "service"))
		b.Write(f.Bytes())
	case "pack":
		pb, diags := hclpack.PackNativeFile(src, doc.Name, start)
		b.WriteString(orderDiags(diags) + "\n")
		if pb == nil {
			break
		}
		msg, err := json.Marshal(pb)
		if err != nil {
			b.WriteString(err.Error())
			break
		}
		b.Write(msg)
		var rb hclpack.Body
		if err := json.Unmarshal(msg, &rb); err != nil {
			b.WriteString(err.Error())
			break
		}
		c := &conf{body: &rb}
		b.WriteString(c.readOp(harness.Op{K: "eval", A: op.B % 6}))
	case "read":
		c := load("native", []harness.Doc{doc}).hold()
		b.WriteString(c.readOp(harness.Op{K: op.S, S: op.T, A: op.B % 6, B: op.B, C: op.C}))
	case "diags":
		c := load("native", []harness.Doc{doc})
		b.WriteString(c.readOp(harness.Op{K: "diag", A: op.B % 6, B: op.B, C: op.C}))
	case "userfunc":
		s := fmt.Sprintf("function \"f\" {\n  params = [a, b]\n  variadic_param = rest\n  result = \"${a}-%d-${b}-${length(rest)}-${name}\"\n}\nfunction \"bad\" {\n  params = [\"x\"]\n  result = 1\n}\n%s", op.C, src)
		f, _ := hclsyntax.ParseConfig([]byte(s), doc.Name, start)
		funcs, remain, diags := userfunc.DecodeUserFunctions(f.Body, "function", func() *hcl.EvalContext { return evalCtx(op.B, false, stdFuncs()) })
		b.WriteString(canonDiags(diags))
		var ns []string
		for n := range funcs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			v, err := funcs[n].Call([]cty.Value{cty.StringVal(doc.Name), cty.NumberIntVal(int64(op.C)), cty.True})
			fmt.Fprintf(&b, "%s %s %v\n", n, canonVal(v), err)
		}
		if remain != nil {
			c := &conf{body: remain}
			b.WriteString(c.readOp(harness.Op{K: "ranges"}))
		}
	case "include":
		f, _ := parseDoc(doc)
		if f == nil {
			break
		}
		main, _ := hclsyntax.ParseConfig([]byte("include {\n  path = name\n}\ns1 = \"main\"\nservice \"s\" {\n  port = 1\n  include {\n    path = \"nope\"\n  }\n}\n"), "main.hcl", start)
		ctx := evalCtx(op.B, false, nil)
		res := include.MapResolver(map[string]hcl.Body{fmt.Sprintf("name%d", op.B): f.Body})
		c := &conf{body: transform.Deep(main.Body, include.Transformer("include", ctx, res))}
		b.WriteString(c.readOp(harness.Op{K: "eval", A: op.B % 6}))
	case "registry":
		p := hclparse.NewParser()
		var fs []*hcl.File
		var diags hcl.Diagnostics
		for i := 0; i < 2; i++ {
			var f *hcl.File
			var ds hcl.Diagnostics
			if isJSON {
				f, ds = p.ParseJSON(src, doc.Name)
			} else {
				f, ds = p.ParseHCL(src, doc.Name)
			}
			fs, diags = append(fs, f), append(diags, ds...)
		}
		p.AddFile("x.hcl", &hcl.File{Bytes: []byte("x")})
		fmt.Fprintf(&b, "%v %s\n", fs[0] == fs[1], orderDiags(diags))
		var ns []string
		for n, s := range p.Sources() {
			ns = append(ns, n+"="+string(s))
		}
		for n := range p.Files() {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		b.WriteString(strings.Join(ns, "\n"))
	case "types":
		for _, s := range []string{"list(string)", fmt.Sprintf("object({a%d = map(any), b = tuple([bool, number])})", op.C), "set(nosuch)", "map()", "string"} {
			e, _ := hclsyntax.ParseExpression([]byte(s), doc.Name, start)
			t, diags := typeexpr.TypeConstraint(e)
			b.WriteString(canonType(t) + orderDiags(diags))
			if !diags.HasErrors() {
				b.WriteString(typeexpr.TypeString(t))
			}
			b.WriteString("\n")
		}
	case "schema":
		s, partial := gohcl.ImpliedBodySchema(gRoot{})
		s2, partial2 := gohcl.ImpliedBodySchema(&gService{})
		fmt.Fprintf(&b, "%v %v %v %v", *s, partial, *s2, partial2)
	case "implied":
		spec := mkSpec(op.B)
		is := hcldec.ImpliedSchema(spec)
		var ns []string
		for _, a := range is.Attributes {
			ns = append(ns, fmt.Sprintf("%v", a))
		}
		for _, k := range is.Blocks {
			ns = append(ns, fmt.Sprintf("%v", k))
		}
		sort.Strings(ns)
		b.WriteString(canonType(hcldec.ImpliedType(spec)) + strings.Join(ns, "\n"))
	case "values":
		vals := evalVars(op.B, false)
		for _, n := range []string{"list", "tags", "objs", "obj", "nums", "name"} {
			b.Write(hclwrite.TokensForValue(vals[n]).Bytes())
			b.WriteString("\n")
		}
	default:
		panic("unknown work " + op.K)
	}
	return b.String()
}

// damage garbles a document in place.
func damage(r *rnd, d *harness.Doc) {
	if len(d.Chunks) == 0 {
		return
	}
	i := r.N(len(d.Chunks))
	c := d.Chunks[i]
	if len(c) < 2 {
		return
	}
	at := r.N(len(c))
	switch r.N(5) {
	case 0:
		c = c[:at]
	case 1:
		c = c[:at] + c[at+1:]
	case 2:
		c = c[:at] + []string{"\x00", "\xff", "{", "}", "\"", "${", "'", "`", "\t", "(", "]", "<<E\n", "%{", "&", ";"}[r.N(15)] + c[at:]
	case 3:
		c = c[:at] + c[at:] + c[at:]
	case 4:
		b := []byte(c)
		b[at] ^= byte(1 << uint(r.N(8)))
		c = string(b)
	}
	// keep it valid UTF-8 in the scenario file; raw bytes travel escaped
	d.Chunks[i] = strings.ToValidUTF8(c, "ÿ")
}
