package props

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function/stdlib"

	"verifsim/harness"
)

// The documents of the reading workloads share one vocabulary: attributes
// s1 s2 (strings), n1 (number), b1 (bool), l1 l2 (lists of strings), m1 (map),
// any1 any2, and the blocks service(name), listener, rule(group, name) and
// settings.

var attrKinds = []struct {
	name string
	kind byte
}{
	{"s1", 's'}, {"s2", 's'}, {"n1", 'n'}, {"b1", 'b'}, {"l1", 'l'}, {"l2", 'l'}, {"m1", 'm'}, {"any1", 'a'}, {"any2", 'a'},
}

func (g *xgen) of(kind byte, d int) string {
	switch kind {
	case 's':
		return g.str(d)
	case 'n':
		return g.num(d)
	case 'b':
		return g.boolean(d)
	case 'l':
		return g.list(d)
	case 'm':
		return g.mapv(d)
	}
	return g.any(d)
}

// docOpts steers genNative.
type docOpts struct {
	depth   int
	dynamic bool
	bad     int
	stray   bool // unexpected attributes and blocks
	attrs   []string
	blocks  bool
	comment bool
}

func (g *xgen) attr(name string, kind byte, d int, indent string) string {
	if kind == 's' && g.r.P(1, 10) {
		// heredoc
		body := "line ${" + g.str(1) + "}\n" + indent + "  more %{ if flag }x%{ endif }\n"
		return indent + name + " = <<" + g.pick("-", "") + "EOT\n" + indent + "  " + body + indent + "EOT\n"
	}
	return indent + name + " " + g.pick("=", " =") + " " + g.of(kind, d) + "\n"
}

func (g *xgen) listenerBody(d int, indent string) string {
	s := indent + "proto = " + g.str(d) + "\n"
	if g.r.Bool() {
		s += indent + "weight = " + g.num(d) + "\n"
	}
	if len(indent) < 12 && g.r.P(1, 5) {
		s += indent + "listener {\n" + g.listenerBody(d-1, indent+"  ") + indent + "}\n"
	}
	return s
}

func (g *xgen) block(d int, o docOpts, indent string) string {
	in := indent + "  "
	switch g.r.N(5) {
	case 0, 1:
		s := indent + fmt.Sprintf("service %q {\n", g.pick("web", "db", "cache", "q-1", "web", "db", "cache", "", "a b", "é/ü", "//", "a\"b"))
		s += in + "port = " + g.num(d) + "\n"
		if g.r.Bool() {
			s += in + "tags = " + g.list(d) + "\n"
		}
		if g.r.Bool() {
			s += in + "note = " + g.str(d) + "\n"
		}
		for i := g.r.N(2); i > 0; i-- {
			s += in + "listener {\n" + g.listenerBody(d-1, in+"  ") + in + "}\n"
		}
		if o.dynamic && g.r.Bool() {
			s += g.dynamic(d, in)
		}
		return s + indent + "}\n"
	case 2:
		if o.dynamic && g.r.P(2, 3) {
			return g.dynamic(d, indent)
		}
		return indent + "listener {\n" + g.listenerBody(d, in) + indent + "}\n"
	case 3:
		s := indent + fmt.Sprintf("rule %q %s {\n", g.pick("in", "out", "in", "out", ""), g.pick(`"a"`, `"b"`, "c", `"a"`, `"b"`, `""`))
		s += in + "cond = " + g.boolean(d) + "\n"
		if g.r.Bool() {
			s += in + "msg = " + g.str(d) + "\n"
		}
		return s + indent + "}\n"
	default:
		if g.r.P(1, 5) {
			return indent + "settings { " + g.pick("", "p1 = "+g.str(d)+" ") + "}\n"
		}
		s := indent + "settings {\n"
		for i := g.r.Range(1, 3); i > 0; i-- {
			s += in + fmt.Sprintf("p%d = ", i) + g.str(d) + "\n"
		}
		return s + indent + "}\n"
	}
}

func (g *xgen) dynamic(d int, indent string) string {
	in := indent + "  "
	it := "listener"
	s := indent + "dynamic \"listener\" {\n"
	fe := g.list(d - 1)
	if g.r.P(1, 3) {
		fe = g.pick("objs[*].id", "objs.*.id", "objs[*].meta.zone", "tags", "uniq", "obj")
	} else if g.r.P(1, 4) {
		fe = g.mapv(d - 1)
	}
	s += in + "for_each = " + fe + "\n"
	if g.r.Bool() {
		it = g.pick("it", "it", fmt.Sprintf("it%d", len(g.iters)))
		s += in + "iterator = " + it + "\n"
	}
	g.iters = append(g.iters, it)
	s += in + "content {\n" + in + "  proto = " + g.str(d-1) + "\n"
	if g.r.Bool() {
		s += in + "  weight = " + g.num(0) + "\n"
	}
	if len(g.iters) < 4 && g.r.P(2, 5) {
		switch g.r.N(4) {
		case 0:
			s += in + "  listener {\n" + g.listenerBody(d-1, in+"    ") + in + "  }\n"
		case 1:
			s += g.dynamic(d-1, in+"  ")
			fallthrough
		default:
			s += g.dynamic(d-1, in+"  ")
		}
	}
	g.iters = g.iters[:len(g.iters)-1]
	return s + in + "}\n" + indent + "}\n"
}

// dynLabelled generates a dynamic block with labels.
func (g *xgen) dynLabelled(d int) string {
	typ, n := "service", 1
	if g.r.P(1, 3) {
		typ, n = "rule", 2
	}
	if g.isBad() {
		n += g.r.Range(-1, 1)
	}
	s := "dynamic \"" + typ + "\" {\n  for_each = " + g.pick(g.list(d-1), g.mapv(d-1), "list", "tags") + "\n"
	g.iters = append(g.iters, typ)
	var labels []string
	for i := 0; i < n; i++ {
		l := g.str(d - 1)
		if g.isBad() {
			l = g.pick("null", "list", "obj", typ+".nope", "[]")
		}
		labels = append(labels, l)
	}
	s += "  labels = [" + strings.Join(labels, ", ") + "]\n  content {\n"
	if typ == "service" {
		s += "    port = " + g.num(d-1) + "\n    note = " + g.str(d-1) + "\n"
	} else {
		s += "    cond = " + g.boolean(d-1) + "\n"
	}
	g.iters = g.iters[:len(g.iters)-1]
	return s + "  }\n}\n"
}

// genNative generates a native-syntax document, one chunk per item.
func (g *xgen) genNative(name string, o docOpts) harness.Doc {
	d := harness.Doc{Name: name}
	g.bad = o.bad
	for _, a := range attrKinds {
		if o.attrs != nil {
			found := false
			for _, n := range o.attrs {
				found = found || n == a.name
			}
			if !found {
				continue
			}
		} else if g.r.P(1, 3) {
			continue
		}
		c := ""
		if o.comment && g.r.P(1, 3) {
			c = g.pick("# c1\n", "// c2\n", "/* c3 */\n", "\n")
		}
		d.Chunks = append(d.Chunks, c+g.attr(a.name, a.kind, g.r.Range(0, o.depth), ""))
	}
	if o.blocks {
		for i := g.r.Range(1, 5); i > 0; i-- {
			d.Chunks = append(d.Chunks, g.block(g.r.Range(0, o.depth), o, ""))
		}
	}
	if o.dynamic && g.r.Bool() {
		d.Chunks = append(d.Chunks, g.dynamic(2, ""))
	}
	if o.dynamic && g.r.P(1, 3) {
		d.Chunks = append(d.Chunks, g.dynLabelled(2))
	}
	if o.stray && g.r.P(1, 3) {
		d.Chunks = append(d.Chunks, g.pick("stray = 1\n", "unknown_blk \"x\" {}\n", "service {\n}\n", "s9 = name\n"))
	}
	p := g.r.Perm(len(d.Chunks))
	cs := make([]string, len(p))
	for i, j := range p {
		cs[i] = d.Chunks[j]
	}
	d.Chunks = cs
	return d
}

func jstr(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func (g *xgen) jx(kind byte, d int) string {
	if g.r.P(1, 6) {
		switch kind {
		case 's':
			return jstr(g.pick("plain", "a ${name} b", "%{ if flag }t%{ else }f%{ endif }", "ü"))
		case 'n':
			return g.pick("1", "2.5", "-3", "1e2")
		case 'b':
			return g.pick("true", "false")
		case 'l':
			return "[" + jstr("${"+g.str(d)+"}") + ", " + jstr(g.pick("x", "y")) + "]"
		case 'm':
			return "{" + jstr(g.pick("k1", "${name}")) + ": " + jstr("${"+g.str(d)+"}") + "}"
		case 'a':
			return g.pick("null", "[1, {\"a\": \"${name}\"}]", "{\"x\": [true, \"${n}\"]}")
		}
	}
	return jstr("${" + g.of(kind, d) + "}")
}

func (g *xgen) jListener(d int) string {
	s := `{"proto": ` + g.jx('s', d)
	if g.r.Bool() {
		s += `, "weight": ` + g.jx('n', d)
	}
	if d > 0 && g.r.P(1, 4) {
		s += fmt.Sprintf(g.pick(`, "listener": %s`, `, "listener": [%s]`), g.jListener(d-1))
	}
	return s + "}"
}

func (g *xgen) jDynamic() string {
	s := `"dynamic": {"listener": {"for_each": ` + g.jx('l', 1)
	it := "listener"
	if g.r.Bool() {
		it = g.pick("it", fmt.Sprintf("it%d", len(g.iters)))
		s += `, "iterator": ` + jstr(it)
	}
	g.iters = append(g.iters, it)
	s += `, "content": {"proto": ` + g.jx('s', 1)
	if len(g.iters) < 4 && g.r.P(2, 5) {
		s += ", " + g.jDynamic()
	}
	g.iters = g.iters[:len(g.iters)-1]
	return s + `}}}`
}

// genJSON generates a JSON-syntax document of the same vocabulary.
func (g *xgen) genJSON(name string, o docOpts) harness.Doc {
	d := harness.Doc{Name: name, Pre: "{\n", Sep: ",\n", Post: "\n}\n"}
	g.bad = o.bad
	for _, a := range attrKinds {
		if g.r.P(1, 3) {
			continue
		}
		d.Chunks = append(d.Chunks, jstr(a.name)+": "+g.jx(a.kind, g.r.Range(0, o.depth)))
	}
	if o.blocks {
		if g.r.Bool() {
			var ls []string
			for i := g.r.Range(1, 3); i > 0; i-- {
				ls = append(ls, g.jListener(g.r.Range(0, o.depth)))
			}
			if len(ls) == 1 && g.r.Bool() {
				d.Chunks = append(d.Chunks, `"listener": `+ls[0])
			} else {
				d.Chunks = append(d.Chunks, `"listener": [`+strings.Join(ls, ", ")+`]`)
			}
		}
		if g.r.Bool() {
			var ls []string
			for _, n := range []string{"web", "db", g.pick("", "//", "é/ü", "web")} {
				if g.r.Bool() {
					s := `{"port": ` + g.jx('n', 1) + `, "note": ` + g.jx('s', g.r.Range(0, o.depth)) + `, "listener": [` + g.jListener(1) + `]}`
					ls = append(ls, jstr(n)+`: `+fmt.Sprintf(g.pick("%s", "%s", "[%s]"), s))
				}
			}
			if len(ls) > 1 && g.r.P(1, 3) {
				// the same as a list of objects
				d.Chunks = append(d.Chunks, `"service": [{`+strings.Join(ls, "}, {")+`}]`)
			} else {
				d.Chunks = append(d.Chunks, `"service": {`+strings.Join(ls, ", ")+`}`)
			}
		}
		if g.r.Bool() {
			d.Chunks = append(d.Chunks, `"rule": {"in": {"a": {"cond": `+g.jx('b', 1)+`}, "b": [{"cond": `+g.jx('b', 1)+`, "msg": `+g.jx('s', 1)+`}]}}`)
		}
		if g.r.Bool() {
			d.Chunks = append(d.Chunks, `"settings": {"p1": `+g.jx('s', 1)+`, "p2": `+g.jx('s', 1)+`}`)
		}
		if o.dynamic && g.r.Bool() {
			d.Chunks = append(d.Chunks, g.jDynamic())
		}
	}
	if o.stray && g.r.P(1, 3) {
		d.Chunks = append(d.Chunks, g.pick(`"stray": 1`, `"//": "comment"`, `"service": "text"`, `"listener": null`))
	}
	return d
}

// rootSchema is the complete schema of the vocabulary.
func rootSchema() *hcl.BodySchema {
	s := &hcl.BodySchema{}
	for _, a := range attrKinds {
		s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: a.name})
	}
	s.Blocks = append(make([]hcl.BlockHeaderSchema, 0, 9), []hcl.BlockHeaderSchema{
		{Type: "service", LabelNames: []string{"name"}},
		{Type: "listener"},
		{Type: "rule", LabelNames: []string{"group", "name"}},
		{Type: "settings"},
	}...)
	return s
}

// vocab holds the schemas of an application that has them in one place, in
// slices with room behind.
type vocab struct {
	root  *hcl.BodySchema
	inner map[string]*hcl.BodySchema
}

func newVocab() *vocab {
	v := &vocab{root: rootSchema(), inner: map[string]*hcl.BodySchema{}}
	for _, b := range v.root.Blocks {
		v.inner[b.Type] = innerSchema(b.Type)
	}
	return v
}

func innerSchema(typ string) *hcl.BodySchema {
	at := func(ns ...string) *hcl.BodySchema {
		s := &hcl.BodySchema{}
		for _, n := range ns {
			s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: n})
		}
		return s
	}
	switch typ {
	case "service":
		s := at("port", "tags", "note")
		s.Blocks = append(make([]hcl.BlockHeaderSchema, 0, 4), hcl.BlockHeaderSchema{Type: "listener"})
		return s
	case "listener":
		s := at("proto", "weight")
		s.Blocks = append(make([]hcl.BlockHeaderSchema, 0, 4), hcl.BlockHeaderSchema{Type: "listener"})
		return s
	case "rule":
		return at("cond", "msg")
	}
	return at("p1", "p2", "p3")
}

// parseX parses an expression that the harness itself needs.
func parseX(src string) hcl.Expression {
	e, diags := hclsyntax.ParseExpression([]byte(src), "harness", hcl.Pos{Line: 1, Column: 1})
	if diags.HasErrors() {
		panic(diags)
	}
	return e
}

// mkSpec builds a decoding specification for the vocabulary; different
// variants use different spec kinds for the same blocks.
func mkSpec(variant int) hcldec.Spec {
	var listener hcldec.ObjectSpec
	for i := 0; i < 4; i++ {
		inner := listener
		listener = hcldec.ObjectSpec{
			"proto":  &hcldec.AttrSpec{Name: "proto", Type: cty.String, Required: variant&8 != 0},
			"weight": &hcldec.DefaultSpec{Primary: &hcldec.AttrSpec{Name: "weight", Type: cty.Number}, Default: &hcldec.LiteralSpec{Value: cty.NumberIntVal(10)}},
		}
		if inner != nil {
			listener["more"] = &hcldec.BlockListSpec{TypeName: "listener", Nested: inner}
		}
	}
	service := hcldec.ObjectSpec{
		"port":      &hcldec.AttrSpec{Name: "port", Type: cty.Number},
		"tags":      &hcldec.AttrSpec{Name: "tags", Type: cty.List(cty.String)},
		"note":      &hcldec.AttrSpec{Name: "note", Type: cty.String},
		"listeners": &hcldec.BlockListSpec{TypeName: "listener", Nested: listener},
	}
	rule := hcldec.ObjectSpec{
		"cond": &hcldec.AttrSpec{Name: "cond", Type: cty.Bool},
		"msg":  &hcldec.AttrSpec{Name: "msg", Type: cty.String},
	}
	root := hcldec.ObjectSpec{
		"s1":  &hcldec.AttrSpec{Name: "s1", Type: cty.String},
		"n1":  &hcldec.AttrSpec{Name: "n1", Type: cty.Number},
		"b1":  &hcldec.AttrSpec{Name: "b1", Type: cty.Bool},
		"l1":  &hcldec.AttrSpec{Name: "l1", Type: cty.List(cty.String)},
		"l2":  &hcldec.AttrSpec{Name: "l2", Type: cty.Set(cty.String)},
		"m1":  &hcldec.AttrSpec{Name: "m1", Type: cty.Map(cty.String)},
		"any": hcldec.TupleSpec{&hcldec.AttrSpec{Name: "any1", Type: cty.DynamicPseudoType}, &hcldec.AttrSpec{Name: "any2", Type: cty.DynamicPseudoType}},
		"s2":  &hcldec.DefaultSpec{Primary: &hcldec.AttrSpec{Name: "s2", Type: cty.String}, Default: &hcldec.LiteralSpec{Value: cty.StringVal("dflt")}},
		"lit": &hcldec.LiteralSpec{Value: cty.NumberIntVal(3)},
		"xpr": &hcldec.ExprSpec{Expr: parseX("[for x in list : upper(x)]")},
		"upd": &hcldec.TransformFuncSpec{Wrapped: &hcldec.DefaultSpec{Primary: &hcldec.AttrSpec{Name: "s1", Type: cty.String}, Default: &hcldec.LiteralSpec{Value: cty.StringVal("none")}}, Func: stdlib.UpperFunc},
		"txp": &hcldec.TransformExprSpec{
			Wrapped: &hcldec.AttrSpec{Name: "n1", Type: cty.Number}, Expr: parseX("\"n=${val == null ? 0 : val}\""),
			TransformCtx: &hcl.EvalContext{Variables: map[string]cty.Value{}}, VarName: "val",
		},
		"settings": &hcldec.BlockAttrsSpec{TypeName: "settings", ElementType: cty.String},
	}
	if variant&4 != 0 {
		any2 := root["any"].(hcldec.TupleSpec)[1].(*hcldec.AttrSpec)
		any2.Type = []cty.Type{cty.List(cty.DynamicPseudoType), cty.Map(cty.DynamicPseudoType), cty.Set(cty.DynamicPseudoType), cty.List(cty.List(cty.DynamicPseudoType))}[variant&3]
	}
	if variant%5 == 4 {
		// values of any type
		listener["proto"].(*hcldec.AttrSpec).Type = cty.DynamicPseudoType
		root["settings"].(*hcldec.BlockAttrsSpec).ElementType = cty.DynamicPseudoType
	}
	switch variant & 3 {
	case 0:
		root["services"] = &hcldec.BlockMapSpec{TypeName: "service", LabelNames: []string{"name"}, Nested: service}
		root["rules"] = &hcldec.BlockMapSpec{TypeName: "rule", LabelNames: spareCap("group", "name"), Nested: rule}
		root["listeners"] = &hcldec.BlockTupleSpec{TypeName: "listener", Nested: listener}
	case 1:
		root["services"] = &hcldec.BlockObjectSpec{TypeName: "service", LabelNames: spareCap("name"), Nested: service}
		root["rules"] = &hcldec.BlockObjectSpec{TypeName: "rule", LabelNames: []string{"group", "name"}, Nested: rule}
		root["listeners"] = &hcldec.BlockListSpec{TypeName: "listener", Nested: listener, MaxItems: 3}
	case 2:
		service["label"] = &hcldec.BlockLabelSpec{Index: 0, Name: "name"}
		rule["group"] = &hcldec.BlockLabelSpec{Index: 0, Name: "group"}
		rule["name"] = &hcldec.BlockLabelSpec{Index: 1, Name: "name"}
		root["services"] = &hcldec.BlockListSpec{TypeName: "service", Nested: service}
		root["rules"] = &hcldec.BlockTupleSpec{TypeName: "rule", Nested: rule, MinItems: 1}
		root["listeners"] = &hcldec.BlockSetSpec{TypeName: "listener", Nested: listener}
	case 3:
		service["label"] = &hcldec.BlockLabelSpec{Index: 0, Name: "name"}
		root["services"] = &hcldec.BlockSpec{TypeName: "service", Nested: service, Required: variant&4 != 0}
		root["rules"] = &hcldec.BlockMapSpec{TypeName: "rule", LabelNames: spareCap("group"), Nested: hcldec.ObjectSpec{
			"nm": &hcldec.BlockLabelSpec{Index: 0, Name: "name"}, "cond": rule["cond"], "msg": rule["msg"],
		}}
		root["listeners"] = &hcldec.DefaultSpec{
			Primary: &hcldec.BlockSpec{TypeName: "listener", Nested: listener},
			Default: &hcldec.BlockSpec{TypeName: "listener", Nested: listener},
		}
	}
	return root
}

// spareCap returns a slice with unused capacity, as an application that builds
// its label names with append has.
func spareCap(ss ...string) []string {
	r := make([]string, 0, len(ss)+6)
	return append(r, ss...)
}

// Go types for gohcl.

type gLeaf struct {
	Proto  string  `hcl:"proto"`
	Weight float64 `hcl:"weight,optional"`
}

type gListener struct {
	Proto  string  `hcl:"proto"`
	Weight float64 `hcl:"weight,optional"`

	More []gListener `hcl:"listener,block"`
}

type gService struct {
	Name      string      `hcl:"name,label"`
	Port      *float64    `hcl:"port"`
	Tags      []string    `hcl:"tags,optional"`
	Note      *string     `hcl:"note"`
	Listeners []gListener `hcl:"listener,block"`
	Rest      hcl.Body    `hcl:",remain"`
}

type gRule struct {
	Group string  `hcl:"group,label"`
	Name  string  `hcl:"name,label"`
	Cond  bool    `hcl:"cond"`
	Msg   *string `hcl:"msg"`
}

type gRoot struct {
	S1       *string           `hcl:"s1"`
	S2       hcl.Expression    `hcl:"s2,optional"`
	N1       *float64          `hcl:"n1"`
	B1       bool              `hcl:"b1,optional"`
	L1       []string          `hcl:"l1,optional"`
	L2       cty.Value         `hcl:"l2,optional"`
	M1       map[string]string `hcl:"m1,optional"`
	Any1     *hcl.Attribute    `hcl:"any1"`
	Services []*gService       `hcl:"service,block"`
	Rules    []gRule           `hcl:"rule,block"`
	Lis      []gListener       `hcl:"listener,block"`
	Remain   hcl.Body          `hcl:",remain"`
}

func canonGo(v *gRoot) string {
	var b strings.Builder
	p := func(s *string) string {
		if s == nil {
			return "-"
		}
		return *s
	}
	f := func(x *float64) string {
		if x == nil {
			return "-"
		}
		return fmt.Sprint(*x)
	}
	fmt.Fprintf(&b, "s1=%s n1=%s b1=%v l1=%q l2=%s m1=%q", p(v.S1), f(v.N1), v.B1, v.L1, canonVal(v.L2), v.M1)
	if v.S2 != nil {
		r := v.S2.Range()
		fmt.Fprintf(&b, " s2@%s", canonRange(&r))
	}
	if v.Any1 != nil {
		fmt.Fprintf(&b, " any1@%s", canonRange(&v.Any1.Range))
	}
	for _, s := range v.Services {
		fmt.Fprintf(&b, "\nservice %q port=%s tags=%q note=%s %v", s.Name, f(s.Port), s.Tags, p(s.Note), s.Listeners)
	}
	for _, r := range v.Rules {
		fmt.Fprintf(&b, "\nrule %q %q %v %s", r.Group, r.Name, r.Cond, p(r.Msg))
	}
	fmt.Fprintf(&b, "\n%v", v.Lis)
	return b.String()
}
