package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/include"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	hcljson "github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hcled"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"

	"verifsim/harness"
)

// conf is one loaded configuration, as an application would hold it.
type conf struct {
	kind  string
	body  hcl.Body
	files map[string]*hcl.File
	names []string
	diags hcl.Diagnostics

	// what the application has taken out of it beforehand
	held   []heldExpr
	rest   hcl.Body
	blocks hcl.Blocks
	voc    *vocab
}

type heldExpr struct {
	path string
	expr hcl.Expression
}

// hold takes content out of the configuration for later use.
func (c *conf) hold() *conf {
	eachAttr(c.body, func(path string, a *hcl.Attribute) { c.held = append(c.held, heldExpr{path, a.Expr}) })
	if just, _ := c.body.JustAttributes(); just != nil {
		for _, a := range sortedAttrs(just) {
			c.held = append(c.held, heldExpr{"just." + a.Name, a.Expr})
		}
	}
	content, rest, _ := c.body.PartialContent(&hcl.BodySchema{
		Attributes: []hcl.AttributeSchema{{Name: "s1"}, {Name: "n1"}},
		Blocks:     []hcl.BlockHeaderSchema{{Type: "service", LabelNames: []string{"name"}}},
	})
	c.rest = rest
	if content != nil {
		c.blocks = content.Blocks
	}
	// and blocks at any depth
	c.voc = newVocab()
	var deep func(body hcl.Body, schema *hcl.BodySchema)
	deep = func(body hcl.Body, schema *hcl.BodySchema) {
		content, _, _ := body.PartialContent(schema)
		if content == nil {
			return
		}
		for _, blk := range content.Blocks {
			c.blocks = append(c.blocks[:len(c.blocks):len(c.blocks)], blk)
			deep(blk.Body, innerSchema(blk.Type))
		}
	}
	deep(c.body, rootSchema())
	return c
}

var start = hcl.Pos{Line: 1, Column: 1}

func parseDoc(d harness.Doc) (*hcl.File, hcl.Diagnostics) {
	src := []byte(d.Text())
	if strings.HasSuffix(d.Name, ".json") {
		return hcljson.Parse(src, d.Name)
	}
	return hclsyntax.ParseConfig(src, d.Name, start)
}

// tagger is a transformer that hides "settings" blocks and reports a warning
// where it found one.
var tagger = transform.TransformerFunc(func(b hcl.Body) hcl.Body {
	content, remain, diags := b.PartialContent(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "settings"}}})
	for _, blk := range content.Blocks {
		diags = append(diags, &hcl.Diagnostic{Severity: hcl.DiagWarning, Summary: "settings hidden", Subject: blk.DefRange.Ptr()})
	}
	return transform.BodyWithDiagnostics(remain, diags)
})

// load parses the documents and combines them in the way kind says.
func load(kind string, docs []harness.Doc) *conf {
	c := &conf{kind: kind, files: map[string]*hcl.File{}}
	var bodies []hcl.Body
	for _, d := range docs {
		f, diags := parseDoc(d)
		c.diags = append(c.diags, diags...)
		if f == nil {
			continue
		}
		c.files[d.Name] = f
		c.names = append(c.names, d.Name)
		bodies = append(bodies, f.Body)
	}
	if len(bodies) == 0 {
		c.body = hcl.EmptyBody()
		return c
	}
	c.body = bodies[0]
	switch kind {
	case "merged":
		c.body = hcl.MergeBodies(bodies)
	case "expanded":
		c.body = dynblock.Expand(hcl.MergeBodies(bodies), evalCtx(7, false, stdFuncs()))
	case "deep":
		c.body = transform.Deep(hcl.MergeBodies(bodies), tagger)
	case "included":
		others := map[string]hcl.Body{}
		for i, b := range bodies[1:] {
			others[fmt.Sprintf("inc%d", i)] = b
		}
		c.body = transform.Deep(bodies[0], include.Transformer("include", evalCtx(7, false, stdFuncs()), include.MapResolver(others)))
	case "packed":
		pb, diags := hclpack.PackNativeFile([]byte(docs[0].Text()), docs[0].Name, start)
		c.diags = append(c.diags, diags...)
		if pb == nil {
			break
		}
		msg, err := json.Marshal(pb)
		if err != nil {
			panic(err)
		}
		var rb hclpack.Body
		if err := json.Unmarshal(msg, &rb); err != nil {
			panic(err)
		}
		c.body = &rb
	}
	return c
}

func sortedAttrs(as hcl.Attributes) []*hcl.Attribute {
	var ks []string
	for k := range as {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*hcl.Attribute
	for _, k := range ks {
		r = append(r, as[k])
	}
	return r
}

func canonAttr(a *hcl.Attribute) string {
	er := a.Expr.Range()
	es := a.Expr.StartRange()
	return fmt.Sprintf("attr %s %s name %s expr %s start %s", a.Name, canonRange(&a.Range), canonRange(&a.NameRange), canonRange(&er), canonRange(&es))
}

func canonBlockHead(b *hcl.Block) string {
	s := fmt.Sprintf("block %s %q def %s type %s labels", b.Type, b.Labels, canonRange(&b.DefRange), canonRange(&b.TypeRange))
	for i := range b.LabelRanges {
		s += " " + canonRange(&b.LabelRanges[i])
	}
	return s
}

// content renders a body's structure, reading it with the schema of the
// vocabulary. With ctx it also evaluates.
func canonContent(b *strings.Builder, body hcl.Body, schema *hcl.BodySchema, ctx *hcl.EvalContext, indent string) {
	(*vocab)(nil).canon(b, body, schema, ctx, indent)
}

// canon does so with the schemas of one vocabulary.
func (v *vocab) canon(b *strings.Builder, body hcl.Body, schema *hcl.BodySchema, ctx *hcl.EvalContext, indent string) {
	content, diags := body.Content(schema)
	if len(diags) > 0 {
		fmt.Fprintf(b, "%sdiags %s\n", indent, canonDiags(diags))
	}
	if content == nil {
		b.WriteString(indent + "no content\n")
		return
	}
	fmt.Fprintf(b, "%smissing %s\n", indent, canonRange(&content.MissingItemRange))
	for _, a := range sortedAttrs(content.Attributes) {
		b.WriteString(indent + canonAttr(a) + "\n")
		if ctx != nil {
			v, diags := a.Expr.Value(ctx)
			fmt.Fprintf(b, "%s = %s %s\n", indent, canonVal(v), canonDiags(diags))
		}
	}
	for _, blk := range content.Blocks {
		b.WriteString(indent + canonBlockHead(blk) + "\n")
		v.canon(b, blk.Body, v.of(blk.Type), ctx, indent+"  ")
	}
}

func (v *vocab) of(typ string) *hcl.BodySchema {
	if v == nil {
		return innerSchema(typ)
	}
	return v.inner[typ]
}

func eachAttr(body hcl.Body, f func(path string, a *hcl.Attribute)) {
	content, _, _ := body.PartialContent(rootSchema())
	if content == nil {
		return
	}
	for _, a := range sortedAttrs(content.Attributes) {
		f(a.Name, a)
	}
	var blocks func(path string, bs hcl.Blocks)
	blocks = func(path string, bs hcl.Blocks) {
		for i, blk := range bs {
			inner, _, _ := blk.Body.PartialContent(innerSchema(blk.Type))
			if inner == nil {
				continue
			}
			for _, a := range sortedAttrs(inner.Attributes) {
				f(fmt.Sprintf("%s%s%d.%s", path, blk.Type, i, a.Name), a)
			}
			blocks(fmt.Sprintf("%s%s%d.", path, blk.Type, i), inner.Blocks)
		}
	}
	blocks("", content.Blocks)
}

// readKinds are the operations of a reader.
var readKinds = []string{
	"eval", "eval", "evalone", "evalone", "decode", "decode", "pdecode", "gohcl", "vars", "exprvars", "static", "walk", "ranges", "nav", "pos", "diag",
	"expand", "dynvars", "dynwalk", "merge", "deep", "chain", "typeexpr", "just", "goexpr", "gomisc", "srcrange", "held", "held", "heldvars", "heldrest",
}

// genRead makes one reading operation.
func genRead(r *rnd) harness.Op {
	op := harness.Op{K: readKinds[r.N(len(readKinds))], A: r.N(6), B: r.N(16), C: r.N(400)}
	if op.K == "evalone" || op.K == "typeexpr" || op.K == "static" || op.K == "goexpr" {
		op.S = attrKinds[r.N(len(attrKinds))].name
	}
	return op
}

// ctxFor builds the reader's own evaluation context: number a, with some
// values unknown for the upper half of the numbers.
func ctxFor(a int) *hcl.EvalContext {
	base := evalCtx(a, a >= 4, stdFuncs())
	if a%3 == 1 {
		// two scopes, the inner one shadowing
		inner := base.NewChild()
		inner.Variables = map[string]cty.Value{"name": cty.StringVal(fmt.Sprintf("inner%d", a))}
		return inner
	}
	return base
}

// readOp performs one operation and renders its complete result.
func (c *conf) readOp(op harness.Op) string {
	var b strings.Builder
	switch op.K {
	case "eval":
		canonContent(&b, c.body, rootSchema(), ctxFor(op.A), "")
	case "evalone":
		content, _, diags := c.body.PartialContent(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: op.S}}})
		b.WriteString(canonDiags(diags))
		if content != nil {
			if a := content.Attributes[op.S]; a != nil {
				for i := 0; i < 1+op.B%3; i++ {
					v, diags := a.Expr.Value(ctxFor(op.A + i))
					b.WriteString(canonVal(v) + "\n" + canonDiags(diags) + "\n")
				}
			}
		}
	case "held":
		for i, h := range c.held {
			if op.B%3 != 0 && i%3 != op.C%3 {
				continue
			}
			v, diags := h.expr.Value(ctxFor(op.A))
			b.WriteString(h.path + " " + canonVal(v) + "\n" + canonDiags(diags) + "\n")
		}
	case "heldvars":
		for _, h := range c.held {
			b.WriteString(h.path + " " + canonTraversals(h.expr.Variables()) + "\n")
			canonStatic(&b, h.path, h.expr, ctxFor(op.A))
		}
	case "heldrest":
		if c.rest != nil {
			c.voc.canon(&b, c.rest, c.voc.root, ctxFor(op.A), "")
		}
		for i, blk := range c.blocks {
			if op.B%2 != 0 && i%4 != op.C%4 {
				continue
			}
			b.WriteString(canonBlockHead(blk) + "\n")
			c.voc.canon(&b, blk.Body, c.voc.of(blk.Type), ctxFor(op.A), "  ")
		}
	case "decode":
		v, diags := hcldec.Decode(c.body, mkSpec(op.B), ctxFor(op.A))
		b.WriteString(canonVal(v) + "\n" + canonDiags(diags))
	case "pdecode":
		v, remain, diags := hcldec.PartialDecode(c.body, hcldec.ObjectSpec{
			"s1":   &hcldec.AttrSpec{Name: "s1", Type: cty.String},
			"rule": &hcldec.BlockTupleSpec{TypeName: "rule", Nested: &hcldec.BlockLabelSpec{Index: 1, Name: "name"}},
		}, ctxFor(op.A))
		b.WriteString(canonVal(v) + "\n" + canonDiags(diags) + "\n")
		if remain != nil {
			v, diags := hcldec.Decode(remain, mkSpec(op.B), ctxFor(op.A))
			b.WriteString(canonVal(v) + "\n" + canonDiags(diags))
		}
	case "gohcl":
		var root gRoot
		diags := gohcl.DecodeBody(c.body, ctxFor(op.A), &root)
		b.WriteString(canonGo(&root) + "\n" + canonDiags(diags))
	case "gomisc":
		b.WriteString(goMisc(c.body, ctxFor(op.A), op.B*7+op.C))
	case "vars":
		b.WriteString(canonTraversals(hcldec.Variables(c.body, mkSpec(op.B))))
	case "exprvars":
		eachAttr(c.body, func(path string, a *hcl.Attribute) {
			b.WriteString(path + ": " + canonTraversals(a.Expr.Variables()) + "\n")
		})
	case "static":
		eachAttr(c.body, func(path string, a *hcl.Attribute) {
			canonStatic(&b, path, a.Expr, ctxFor(op.A))
		})
	case "walk":
		for _, n := range c.names {
			nb, ok := c.files[n].Body.(*hclsyntax.Body)
			if !ok {
				continue
			}
			if op.B%2 == 0 {
				hclsyntax.VisitAll(nb, func(nd hclsyntax.Node) hcl.Diagnostics {
					b.WriteString(canonNode(nd) + "\n")
					return nil
				})
			} else {
				hclsyntax.Walk(nb, &recWalker{b: &b})
			}
		}
		// items of a body are kept in maps, so the visit order is free
		ls := strings.Split(b.String(), "\n")
		sort.Strings(ls)
		return strings.Join(ls, "\n")
	case "ranges":
		canonContent(&b, c.body, rootSchema(), nil, "")
		mr := c.body.MissingItemRange()
		b.WriteString(canonRange(&mr))
	case "nav":
		for _, n := range c.names {
			f := c.files[n]
			off := 0
			if len(f.Bytes) > 0 {
				off = op.C % len(f.Bytes)
			}
			r := hcled.ContextDefRange(f, off)
			fmt.Fprintf(&b, "%d %q %s\n", off, hcled.ContextString(f, off), canonRange(&r))
		}
	case "pos":
		for _, n := range c.names {
			f := c.files[n]
			p := posOf(f.Bytes, op.C)
			for _, blk := range f.BlocksAtPos(p) {
				b.WriteString("at " + canonBlockHead(blk) + "\n")
			}
			if blk := f.OutermostBlockAtPos(p); blk != nil {
				b.WriteString("out " + canonBlockHead(blk) + "\n")
			}
			if blk := f.InnermostBlockAtPos(p); blk != nil {
				b.WriteString("in " + canonBlockHead(blk) + "\n")
			}
			if e := f.OutermostExprAtPos(p); e != nil {
				r := e.Range()
				b.WriteString("expr " + canonRange(&r) + "\n")
				v, diags := e.Value(ctxFor(op.A))
				b.WriteString(canonVal(v) + canonDiags(diags) + "\n")
			}
			if a := f.AttributeAtPos(p); a != nil {
				b.WriteString(canonAttr(a) + "\n")
			}
		}
	case "diag":
		_, diags := hcldec.Decode(c.body, mkSpec(op.B), ctxFor(op.A))
		diags = append(append(hcl.Diagnostics{}, c.diags...), diags...)
		sort.SliceStable(diags, func(i, j int) bool { return canonDiag(diags[i]) < canonDiag(diags[j]) })
		var buf bytes.Buffer
		w := hcl.NewDiagnosticTextWriter(&buf, c.files, uint(40+op.C%60), op.B%2 == 0)
		if err := w.WriteDiagnostics(diags); err != nil {
			b.WriteString(err.Error())
		}
		b.Write(buf.Bytes())
	case "expand":
		ctx := ctxFor(op.A)
		v, diags := hcldec.Decode(dynblock.Expand(c.body, ctx), mkSpec(op.B), ctx)
		b.WriteString(canonVal(v) + "\n" + canonDiags(diags))
	case "dynvars":
		b.WriteString(canonTraversals(dynblock.VariablesHCLDec(c.body, mkSpec(op.B))) + "\n--\n")
		b.WriteString(canonTraversals(dynblock.ExpandVariablesHCLDec(c.body, mkSpec(op.B))))
	case "dynwalk":
		voc := c.voc
		if voc == nil {
			voc = newVocab()
		}
		voc.dynwalk(&b, c.body)
	case "merge":
		other, _ := hclsyntax.ParseConfig([]byte("s1 = \"dup\"\nlistener {\n  proto = \"extra\"\n}\n"), "own.hcl", start)
		bodies := []hcl.Body{c.body, other.Body}
		if op.B%2 == 0 {
			bodies = []hcl.Body{other.Body, c.body, c.body}
		}
		canonContent(&b, hcl.MergeBodies(bodies), rootSchema(), ctxFor(op.A), "")
	case "deep":
		canonContent(&b, transform.Deep(c.body, tagger), rootSchema(), ctxFor(op.A), "")
	case "chain":
		if op.B >= 8 && c.voc != nil {
			// readers of less and less of the vocabulary
			body := c.body
			if op.C%2 == 0 {
				body = dynblock.Expand(body, ctxFor(op.A))
			}
			for n := 2; n >= 0; n-- {
				s := &hcl.BodySchema{Attributes: c.voc.root.Attributes[n*3 : n*3+3], Blocks: c.voc.root.Blocks[n+1 : n+2]}
				content, remain, diags := body.PartialContent(s)
				fmt.Fprintf(&b, "%d %d %s\n", len(content.Attributes), len(content.Blocks), canonDiags(diags))
				body = remain
			}
			c.voc.canon(&b, body, c.voc.root, ctxFor(op.A), "")
			break
		}
		canonChain(&b, c.body, op.B)
	case "typeexpr":
		eachAttr(c.body, func(path string, a *hcl.Attribute) {
			t, diags := typeexpr.Type(a.Expr)
			t2, diags2 := typeexpr.TypeConstraint(a.Expr)
			b.WriteString(path + " " + canonType(t) + canonDiags(diags) + canonType(t2) + canonDiags(diags2) + "\n")
		})
	case "just":
		as, diags := c.body.JustAttributes()
		for _, a := range sortedAttrs(as) {
			b.WriteString(canonAttr(a) + "\n")
		}
		b.WriteString(canonDiags(diags))
	case "goexpr":
		eachAttr(c.body, func(path string, a *hcl.Attribute) {
			ctx := ctxFor(op.A)
			var s string
			var n float64
			var l []string
			var m map[string]string
			fmt.Fprintf(&b, "%s %s %q\n", path, canonDiags(gohcl.DecodeExpression(a.Expr, ctx, &s)), s)
			fmt.Fprintf(&b, "%s %s %v\n", path, canonDiags(gohcl.DecodeExpression(a.Expr, ctx, &n)), n)
			fmt.Fprintf(&b, "%s %s %q\n", path, canonDiags(gohcl.DecodeExpression(a.Expr, ctx, &l)), l)
			fmt.Fprintf(&b, "%s %s %q\n", path, canonDiags(gohcl.DecodeExpression(a.Expr, ctx, &m)), m)
		})
	case "srcrange":
		spec := mkSpec(op.B)
		for _, k := range []string{"s1", "n1", "services", "listeners", "rules", "settings", "lit"} {
			r := hcldec.SourceRange(c.body, spec.(hcldec.ObjectSpec)[k])
			fmt.Fprintf(&b, "%s %s\n", k, canonRange(&r))
		}
	default:
		panic("unknown op " + op.K)
	}
	return b.String()
}

// dynwalk collects the variables of a body with dynamic blocks.
func (v *vocab) dynwalk(b *strings.Builder, body hcl.Body) {
	for i := 0; i < 2; i++ {
		n := dynblock.WalkVariables(body)
		if i == 1 {
			n = dynblock.WalkExpandVariables(body)
		}
		var visit func(n dynblock.WalkVariablesNode, s *hcl.BodySchema, path string)
		visit = func(n dynblock.WalkVariablesNode, s *hcl.BodySchema, path string) {
			vars, kids := n.Visit(s)
			b.WriteString(path + ": " + canonTraversals(vars) + "\n")
			for _, k := range kids {
				if s := v.of(k.BlockTypeName); s != nil {
					visit(k.Node, s, path+"/"+k.BlockTypeName)
				}
			}
		}
		visit(n, v.root, "")
	}
}

func canonNode(n hclsyntax.Node) string {
	if _, ok := n.(hclsyntax.Attributes); ok {
		// documented as an arbitrary one of its attributes' ranges
		return fmt.Sprintf("%T", n)
	}
	r := n.Range()
	return fmt.Sprintf("%T %s", n, canonRange(&r))
}

type recWalker struct {
	b     *strings.Builder
	depth int
}

func (w *recWalker) Enter(n hclsyntax.Node) hcl.Diagnostics {
	fmt.Fprintf(w.b, "%d %s\n", w.depth, canonNode(n))
	w.depth++
	return nil
}

func (w *recWalker) Exit(n hclsyntax.Node) hcl.Diagnostics {
	w.depth--
	return nil
}

func canonStatic(b *strings.Builder, path string, e hcl.Expression, ctx *hcl.EvalContext) {
	b.WriteString(path + "\n")
	if l, diags := hcl.ExprList(e); !diags.HasErrors() {
		for _, x := range l {
			v, d := x.Value(ctx)
			b.WriteString(" list " + canonVal(v) + canonDiags(d) + "\n")
		}
	} else {
		b.WriteString(" " + canonDiags(diags) + "\n")
	}
	if kvs, diags := hcl.ExprMap(e); !diags.HasErrors() {
		for _, kv := range kvs {
			k, d := kv.Key.Value(ctx)
			v, d2 := kv.Value.Value(ctx)
			b.WriteString(" map " + canonVal(k) + canonVal(v) + canonDiags(append(append(hcl.Diagnostics{}, d...), d2...)) + "\n")
		}
	} else {
		b.WriteString(" " + canonDiags(diags) + "\n")
	}
	if call, diags := hcl.ExprCall(e); !diags.HasErrors() {
		b.WriteString(" call " + call.Name + canonRange(&call.NameRange) + canonRange(&call.ArgsRange) + fmt.Sprint(len(call.Arguments)) + "\n")
	} else {
		b.WriteString(" " + canonDiags(diags) + "\n")
	}
	t, diags := hcl.AbsTraversalForExpr(e)
	b.WriteString(" abs " + canonTraversal(t) + canonDiags(diags) + "\n")
	t, diags = hcl.RelTraversalForExpr(e)
	b.WriteString(" rel " + canonTraversal(t) + canonDiags(diags) + "\n")
	b.WriteString(" kw " + hcl.ExprAsKeyword(e) + "\n")
}

// canonChain reads a body in several steps, each taking part of the
// vocabulary from what the one before left.
func canonChain(b *strings.Builder, body hcl.Body, mode int) {
	full := rootSchema()
	var steps []*hcl.BodySchema
	n := 2 + mode%3
	for i := 0; i < n; i++ {
		steps = append(steps, &hcl.BodySchema{})
	}
	for i, a := range full.Attributes {
		s := steps[(i+mode)%n]
		s.Attributes = append(s.Attributes, a)
	}
	for i, blk := range full.Blocks {
		s := steps[(i*3+mode)%n]
		s.Blocks = append(s.Blocks, blk)
	}
	for _, s := range steps {
		content, remain, diags := body.PartialContent(s)
		b.WriteString(canonDiags(diags) + "\n")
		if content != nil {
			for _, a := range sortedAttrs(content.Attributes) {
				b.WriteString(canonAttr(a) + "\n")
			}
			for _, blk := range content.Blocks {
				b.WriteString(canonBlockHead(blk) + "\n")
			}
		}
		if remain == nil {
			b.WriteString("no remainder\n")
			return
		}
		body = remain
	}
	_, diags := body.Content(&hcl.BodySchema{})
	b.WriteString(canonDiags(diags))
}

// posOf gives the position of a byte offset.
func posOf(src []byte, off int) hcl.Pos {
	if len(src) == 0 {
		return start
	}
	off %= len(src)
	p := start
	for i := 0; i < off; i++ {
		if src[i] == '\n' {
			p.Line++
			p.Column = 1
		} else {
			p.Column++
		}
	}
	p.Byte = off
	return p
}
