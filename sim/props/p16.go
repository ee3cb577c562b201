package props

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"

	"verifsim/harness"
	"verifsim/simrt"
)

// P16: configurations whose free references are known by construction. Every
// free reference is written between the two marks, which are taken out before
// the text is parsed.

const (
	refOpen  = "\x01"
	refClose = "\x02"
	refFirst = "\x03" // opens one that is needed to expand blocks
)

// rscope says what each locally bound name is: n (number), s (string), o (one
// of the objects), in, io (an iterator of numbers or objects) or x (unusable).
type rscope map[string]string

func (s rscope) with(kv ...string) rscope {
	n := rscope{}
	for k, v := range s {
		n[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		n[kv[i]] = kv[i+1]
	}
	return n
}

type refgen struct {
	r   *rnd
	any bool // a reference to something that does not exist is fine
	// late: some of the variables are not known yet, so what the library
	// decides from the type of a known value is left out
	late bool
	// upgrade: with splats of values that are no lists
	upgrade bool
}

var refObjects = []string{"ga", "gb", "b0", "b1", "it"}
var refNames = []string{"ga", "gb", "b0", "b1", "it", "num", "str", "lst", "mp", "flag", "los", "l0", "l1", "length"}

func refVars() map[string]cty.Value {
	n := func(i int) cty.Value { return cty.NumberIntVal(int64(i)) }
	s := cty.StringVal
	obj := func(i int) cty.Value {
		return cty.ObjectVal(map[string]cty.Value{
			"n": n(i), "s": s(fmt.Sprintf("s%d", i)), "l": cty.ListVal([]cty.Value{n(i), n(i + 1)}),
		})
	}
	big := func(i int) cty.Value {
		return cty.ObjectVal(map[string]cty.Value{
			"n": n(i), "s": s(fmt.Sprintf("s%d", i)), "l": cty.ListVal([]cty.Value{n(i), n(i + 1), n(1)}),
			"o": obj(i + 10), "lo": cty.ListVal([]cty.Value{obj(i + 20), obj(i + 30)}),
			"key": s(fmt.Sprintf("wrong%d", i)), "value": n(i + 900),
		})
	}
	m := map[string]cty.Value{
		"num": n(7), "str": s("text"), "lst": cty.ListVal([]cty.Value{n(3), n(4)}),
		"mp": cty.MapVal(map[string]cty.Value{"k": s("kv"), "j": s("jv")}), "flag": cty.True,
		"los": cty.ListVal([]cty.Value{obj(50), obj(60)}),
		"l0":  n(1000), "l1": n(1001), "length": n(1002),
	}
	for i, name := range refObjects {
		m[name] = big(100 * (i + 1))
	}
	return m
}

func (g *refgen) ref(sc rscope, name, rest string) (string, bool) {
	if _, local := sc[name]; local {
		return "", false
	}
	return refOpen + name + rest + refClose, true
}

// free gives a reference into one of the objects.
func (g *refgen) free(sc rscope, rest string) (string, bool) {
	return g.ref(sc, g.r.Pick(refObjects), rest)
}

func (g *refgen) locals(sc rscope, kind string) []string {
	var out []string
	for k, v := range sc {
		if v == kind {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func (g *refgen) local(sc rscope, kind, rest string) (string, bool) {
	ls := g.locals(sc, kind)
	if len(ls) == 0 {
		return "", false
	}
	return g.r.Pick(ls) + rest, true
}

// postfix adds static steps, which become part of a bare reference.
func postfix(x, steps string) string {
	if strings.HasPrefix(x, refOpen) && strings.Index(x, refClose) == len(x)-1 {
		return x[:len(x)-1] + steps + refClose
	}
	return "(" + x + ")" + steps
}

func (g *refgen) num(d int, sc rscope) string {
	var x string
	var ok bool
	if g.late && d > 0 && g.r.P(1, 4) {
		return g.lateNum(d, sc)
	}
	k := g.r.N(24)
	if d <= 0 {
		k = g.r.N(12)
	}
	switch k {
	case 0:
		x, ok = g.ref(sc, "num", "")
	case 1:
		x, ok = g.free(sc, ".n")
	case 2:
		x, ok = g.free(sc, ".o.n")
	case 3:
		x, ok = g.free(sc, g.r.Pick([]string{".l[0]", ".l.1", "[\"n\"]", "[\"o\"].n", ".lo[1].n", ".lo.0.l[1]"}))
	case 4, 5:
		x, ok = g.local(sc, "n", "")
	case 6, 7:
		x, ok = g.local(sc, "o", g.r.Pick([]string{".n", ".l[0]", "[\"n\"]"}))
	case 8, 9:
		x, ok = g.local(sc, "in", ".value")
	case 10, 11:
		x, ok = g.local(sc, "io", g.r.Pick([]string{".value.n", ".value.l[1]"}))
	case 12:
		x, ok = "("+g.num(d-1, sc)+" + "+g.num(d-1, sc)+")", true
	case 13:
		x, ok = "-("+g.num(d-1, sc)+")", true
	case 14:
		x, ok = "("+g.boolean(d-1, sc)+" ? "+g.num(d-1, sc)+" : "+g.num(d-1, sc)+")", true
	case 15:
		x, ok = "length("+g.list(d-1, sc)+")", true
	case 16:
		x, ok = "max("+g.num(d-1, sc)+", "+g.list(d-1, sc)+"...)", true
	case 17:
		x, ok = "{ "+g.r.Pick(refNames)+" = "+g.num(d-1, sc)+", k = "+g.num(d-1, sc)+" }.k", true
	case 18:
		x, ok = "["+g.num(d-1, sc)+", "+g.num(d-1, sc)+"][0]", true
	case 19:
		if x, ok = g.ref(sc, "lst", ""); ok {
			x += "[" + g.num(d-1, sc) + " > 3 ? 1 : 0]"
		}
	case 20:
		x, ok = postfix(g.list(d-1, sc), "[0]"), true
	case 21:
		x, ok = postfix(g.objects(d-1, sc), "[1].n"), true
	case 22:
		if x, ok = g.free(sc, ""); ok {
			x += `["${"n"}"]`
		}
	case 23:
		if g.any {
			x, ok = g.ref(sc, "nosuch", g.r.Pick([]string{"", ".n", "[0]"}))
		}
	}
	if !ok {
		return fmt.Sprint(g.r.N(9))
	}
	return x
}

func (g *refgen) str(d int, sc rscope) string {
	var x string
	var ok bool
	if g.late && d > 0 && g.r.P(1, 4) {
		return g.lateStr(d, sc)
	}
	k := g.r.N(14)
	if d <= 0 {
		k = g.r.N(6)
	}
	switch k {
	case 0:
		x, ok = g.ref(sc, "str", "")
	case 1:
		x, ok = g.free(sc, g.r.Pick([]string{".s", ".o.s", "[\"s\"]", ".lo[0].s"}))
	case 2:
		x, ok = g.ref(sc, "mp", g.r.Pick([]string{".k", "[\"j\"]"}))
	case 3:
		x, ok = g.local(sc, "s", "")
	case 4:
		x, ok = g.local(sc, "o", ".s")
	case 5:
		x, ok = g.local(sc, g.r.Pick([]string{"in", "io"}), ".key")
	case 6, 7:
		x, ok = `"a${`+g.num(d-1, sc)+`}b${`+g.str(d-1, sc)+`}"`, true
	case 8:
		x, ok = `"%{ if `+g.boolean(d-1, sc)+` }${`+g.str(d-1, sc)+`}%{ else }${`+g.num(d-1, sc)+`}%{ endif }"`, true
	case 9:
		v := g.name()
		coll := g.list(d-1, sc)
		x, ok = `"%{ for `+v+` in `+coll+` }${`+g.num(d-1, sc.with(v, "n"))+`}%{ endfor }"`, true
	case 10:
		v, w := g.name(), g.name()
		if v == w {
			w = "l2"
		}
		coll := g.objects(d-1, sc)
		x, ok = `"%{ for `+v+`, `+w+` in `+coll+` }${`+g.str(d-1, sc.with(v, "n", w, "o"))+`}%{ endfor }"`, true
	case 11:
		x, ok = "upper("+g.str(d-1, sc)+")", true
	case 12:
		x, ok = `"${`+g.str(d-1, sc)+`}"`, true
	case 13:
		x, ok = "("+g.boolean(d-1, sc)+" ? "+g.str(d-1, sc)+" : "+g.str(d-1, sc)+")", true
	}
	if !ok {
		return `"` + g.r.Pick([]string{"q", "num", "ga.n"}) + `"`
	}
	return x
}

func (g *refgen) boolean(d int, sc rscope) string {
	if g.late && d > 0 && g.r.P(1, 3) {
		return g.lateBool(d, sc)
	}
	if d > 0 {
		switch g.r.N(6) {
		case 0:
			return "(" + g.num(d-1, sc) + " > " + g.num(d-1, sc) + ")"
		case 1:
			return "(" + g.str(d-1, sc) + " == " + g.str(d-1, sc) + ")"
		case 2:
			return "!(" + g.boolean(d-1, sc) + ")"
		case 3:
			return "(" + g.boolean(d-1, sc) + " && " + g.boolean(d-1, sc) + ")"
		}
	}
	if x, ok := g.ref(sc, "flag", ""); ok {
		return x
	}
	return "true"
}

// name of a local variable
func (g *refgen) name() string { return g.r.Pick(refNames) }

func (g *refgen) list(d int, sc rscope) string {
	var x string
	var ok bool
	k := g.r.N(12)
	if d <= 0 {
		k = g.r.N(4)
	}
	switch k {
	case 0:
		x, ok = g.ref(sc, "lst", "")
	case 1:
		x, ok = g.free(sc, g.r.Pick([]string{".l", ".lo[1].l", "[\"l\"]"}))
	case 2:
		x, ok = g.local(sc, "o", ".l")
	case 3:
		x, ok = g.local(sc, "io", ".value.l")
	case 4:
		x, ok = "["+g.num(d-1, sc)+", "+g.num(d-1, sc)+"]", true
	case 5:
		if x, ok = g.free(sc, ".lo"); ok {
			x += g.r.Pick([]string{"[*].n", ".*.n", "[*].l[0]", ".*.l[0]"})
		}
	case 6:
		if x, ok = g.ref(sc, "los", ""); ok {
			x += g.r.Pick([]string{"[*].n", ".*.n"})
		}
	case 7, 8:
		v := g.name()
		coll := g.list(d-1, sc)
		in := sc.with(v, "n")
		x = "[for " + v + " in " + coll + " : " + g.num(d-1, in)
		if g.r.Bool() {
			x += " if " + g.boolean(d-1, in)
		}
		x, ok = x+"]", true
	case 9:
		v, w := g.name(), g.name()
		if v == w {
			w = "l2"
		}
		coll := g.objects(d-1, sc)
		x, ok = "[for "+v+", "+w+" in "+coll+" : "+g.num(d-1, sc.with(v, "n", w, "o"))+"]", true
	case 10:
		x, ok = "("+g.objects(d-1, sc)+")[*].n", true
	case 11:
		if g.late {
			return g.lateList(d, sc)
		}
		x, ok = "("+g.boolean(d-1, sc)+" ? "+g.list(d-1, sc)+" : "+g.list(d-1, sc)+")", true
	}
	if !ok {
		return "[5]"
	}
	return x
}

func (g *refgen) objects(d int, sc rscope) string {
	var x string
	var ok bool
	switch g.r.N(5) {
	case 0:
		x, ok = g.ref(sc, "los", "")
	case 1, 2:
		x, ok = g.free(sc, ".lo")
	case 3:
		if d > 0 {
			v := g.name()
			coll := g.objects(d-1, sc)
			x, ok = "[for "+v+" in "+coll+" : { n = "+g.num(d-1, sc.with(v, "o"))+", s = "+g.str(d-1, sc.with(v, "o"))+", l = [1, 2] }]", true
		}
	}
	if !ok {
		return `[{ n = 1, s = "x", l = [1, 2] }, { n = 2, s = "y", l = [3, 4] }]`
	}
	return x
}

func (g *refgen) mapv(d int, sc rscope) string {
	if g.late && g.r.P(1, 3) {
		return g.lateMap(d, sc)
	}
	switch g.r.N(4) {
	case 0:
		if x, ok := g.ref(sc, "mp", ""); ok {
			return x
		}
	case 1:
		v, w := g.name(), g.name()
		if v == w {
			w = "l2"
		}
		coll := "{ p = " + g.num(d-1, sc) + ", q = 4 }"
		in := sc.with(v, "s", w, "n")
		return "{for " + v + ", " + w + " in " + coll + " : \"${" + g.str(d-1, in) + "}-${" + v + "}\" => " + g.str(d-1, in) + "}"
	case 2:
		v := g.name()
		coll := g.list(d-1, sc)
		in := sc.with(v, "n")
		return "{for " + v + " in " + coll + " : " + g.str(d-1, in) + " => " + g.str(d-1, in) + "...}[*]"
	}
	return "{ " + g.r.Pick(refNames) + " = " + g.str(d-1, sc) + ", \"${" + g.str(d-1, sc) + "}\" = " + g.str(d-1, sc) + " }"
}

func (g *refgen) of(kind byte, d int, sc rscope) string {
	switch kind {
	case 'n':
		return g.num(d, sc)
	case 's':
		return g.str(d, sc)
	case 'b':
		return g.boolean(d, sc)
	case 'l':
		return g.list(d, sc)
	}
	return g.mapv(d, sc)
}

// unmark takes the marks out of a text and gives the ranges between them.
func unmark(text string) (string, [][3]int) {
	var w strings.Builder
	var out [][3]int
	for i := 0; i < len(text); i++ {
		switch text[i] {
		case refOpen[0]:
			out = append(out, [3]int{w.Len(), -1, 0})
		case refFirst[0]:
			out = append(out, [3]int{w.Len(), -1, 1})
		case refClose[0]:
			for j := len(out) - 1; j >= 0; j-- {
				if out[j][1] < 0 {
					out[j][1] = w.Len()
					break
				}
			}
		default:
			w.WriteByte(text[i])
		}
	}
	return w.String(), out
}

// ---- specifications

type rattr struct {
	name string
	kind byte
	wrap int // 1 default literal, 2 default expression, 3 default attribute, 4 transform
	dflt hclsyntax.Expression
}

type rblock struct {
	typ    string
	kind   string
	labels int
	body   *rbody
}

type rbody struct {
	attrs  []*rattr
	blocks []*rblock
}

var rtypes = map[byte]cty.Type{'n': cty.Number, 's': cty.String, 'b': cty.Bool, 'l': cty.List(cty.Number), 'm': cty.Map(cty.String)}

// genRBody makes a specification, of always the same type if that is wanted.
func genRBody(r *rnd, d int, same bool) *rbody {
	b := &rbody{}
	for i := 0; i < 1+r.N(3); i++ {
		a := &rattr{name: fmt.Sprintf("a%d", i), kind: "nsblm"[r.N(5)], wrap: r.N(8)}
		if a.wrap == 2 && (a.kind == 'l' || a.kind == 'm') {
			a.wrap = 0 // an expression gives a tuple or an object
		}
		if a.wrap == 2 {
			text, _ := unmark((&refgen{r: r}).of(a.kind, 1, nil))
			a.dflt, _ = hclsyntax.ParseExpression([]byte(text), "spec", start)
		}
		b.attrs = append(b.attrs, a)
	}
	if d > 0 {
		for i := 0; i < r.N(3); i++ {
			kinds := []string{"block", "list", "set", "map", "attrs", "tuple", "object"}
			if same {
				kinds = kinds[:5]
			}
			bl := &rblock{typ: fmt.Sprintf("b%d", i), kind: r.Pick(kinds)}
			bl.body = genRBody(r, d-1, same || bl.kind == "list" || bl.kind == "set" || bl.kind == "map")
			switch bl.kind {
			case "map":
				bl.labels = 1 // for two, see the known finding of P08
			case "object":
				bl.labels = 1 + r.N(2)
			case "list", "tuple":
				bl.labels = r.N(2)
			}
			b.blocks = append(b.blocks, bl)
		}
	}
	return b
}

func (b *rbody) spec(labels int) hcldec.Spec {
	o := hcldec.ObjectSpec{}
	for i := 0; i < labels; i++ {
		o[fmt.Sprintf("label%d", i)] = &hcldec.BlockLabelSpec{Index: i, Name: fmt.Sprintf("label%d", i)}
	}
	for _, a := range b.attrs {
		var s hcldec.Spec = &hcldec.AttrSpec{Name: a.name, Type: rtypes[a.kind]}
		switch a.wrap {
		case 1:
			s = &hcldec.DefaultSpec{Primary: s, Default: &hcldec.LiteralSpec{Value: cty.NullVal(rtypes[a.kind])}}
		case 2:
			s = &hcldec.DefaultSpec{Primary: s, Default: &hcldec.ExprSpec{Expr: a.dflt}}
		case 3:
			s = &hcldec.DefaultSpec{Primary: s, Default: &hcldec.AttrSpec{Name: a.name + "x", Type: rtypes[a.kind]}}
		case 4:
			s = &hcldec.TransformExprSpec{Wrapped: s, Expr: parseX("it"), TransformCtx: &hcl.EvalContext{}, VarName: "it"}
		}
		o[a.name] = s
	}
	for _, bl := range b.blocks {
		var s hcldec.Spec
		switch bl.kind {
		case "block":
			s = &hcldec.BlockSpec{TypeName: bl.typ, Nested: bl.body.spec(0)}
		case "list":
			s = &hcldec.BlockListSpec{TypeName: bl.typ, Nested: bl.body.spec(bl.labels)}
		case "tuple":
			s = &hcldec.BlockTupleSpec{TypeName: bl.typ, Nested: bl.body.spec(bl.labels)}
		case "set":
			s = &hcldec.BlockSetSpec{TypeName: bl.typ, Nested: bl.body.spec(0)}
		case "map":
			s = &hcldec.BlockMapSpec{TypeName: bl.typ, LabelNames: []string{"x", "y"}[:bl.labels], Nested: bl.body.spec(0)}
		case "object":
			s = &hcldec.BlockObjectSpec{TypeName: bl.typ, LabelNames: []string{"x", "y"}[:bl.labels], Nested: bl.body.spec(0)}
		case "attrs":
			s = &hcldec.BlockAttrsSpec{TypeName: bl.typ, ElementType: cty.String}
		}
		o[bl.typ] = s
	}
	return o
}

// ---- documents

type ritem struct {
	name string // attribute or block type
	// attribute
	expr  string
	parts []string // of a list or map written out in JSON
	kind  byte
	// block
	block  bool
	labels []string
	items  []*ritem
	// dynamic block
	dynamic bool
	each    string
	iter    string
	lexprs  []string
}

// genItem adds an item to a body, if there is something left to add.
func (b *rbody) genItem(g *refgen, d int, sc rscope, used map[string]bool, dyn bool) *ritem {
	r := g.r
	if len(b.blocks) == 0 || r.N(3) == 0 {
		a := b.attrs[r.N(len(b.attrs))]
		name := a.name
		if a.wrap == 3 && r.Bool() {
			name += "x"
		}
		if used[name] {
			return nil
		}
		used[name] = true
		it := &ritem{name: name, kind: a.kind}
		if (a.kind == 'l' || a.kind == 'm') && r.P(1, 3) {
			k := byte('n')
			if a.kind == 'm' {
				k = 's'
			}
			for i := 0; i < 2+2*r.N(2); i++ {
				it.parts = append(it.parts, g.of(k, 1, sc))
			}
		} else {
			it.expr = g.of(a.kind, 2, sc)
		}
		return it
	}
	bl := b.blocks[r.N(len(b.blocks))]
	if bl.kind == "block" || bl.kind == "attrs" {
		if used[bl.typ] {
			return nil
		}
		used[bl.typ] = true
	}
	it := &ritem{name: bl.typ, block: true}
	in := sc
	if dyn && r.Bool() && (!g.late || bl.labels == 0 && bl.kind != "block" && bl.kind != "attrs") {
		it.dynamic = true
		it.iter = bl.typ
		if r.P(1, 3) {
			it.iter = r.Pick([]string{"it", "ga", "l0", "b0", "b1"})
		}
		kind := "in"
		if r.Bool() {
			kind = "io"
			it.each = g.objects(1, sc)
		} else {
			it.each = g.list(1, sc)
		}
		it.each = strings.ReplaceAll(it.each, refOpen, refFirst)
		in = sc.with(it.iter, kind)
		for i := 0; i < bl.labels; i++ {
			// they have to be different to be accepted in a map
			it.lexprs = append(it.lexprs, `"${`+it.iter+`.key}`+fmt.Sprintf("-%d-", r.N(1000))+`${`+strings.ReplaceAll(g.str(1, in), refOpen, refFirst)+`}"`)
		}
	} else {
		for i := 0; i < bl.labels; i++ {
			it.labels = append(it.labels, fmt.Sprintf("n%d", r.N(1000)))
		}
	}
	if bl.kind == "attrs" {
		for i := 0; i < 1+r.N(2); i++ {
			it.items = append(it.items, &ritem{name: fmt.Sprintf("z%d", i), kind: 's', expr: g.str(1, in)})
		}
		return it
	}
	inner := map[string]bool{}
	for i := 0; i < r.N(4); i++ {
		if x := bl.body.genItem(g, d-1, in, inner, dyn); x != nil {
			it.items = append(it.items, x)
		}
	}
	return it
}

func (it *ritem) native(w *strings.Builder, indent string) {
	if !it.block {
		x := it.expr
		if it.parts != nil && it.kind == 'l' {
			x = "[" + strings.Join(it.parts, ", ") + "]"
		} else if it.parts != nil {
			x = "{\n"
			for i := 0; i+1 < len(it.parts); i += 2 {
				x += indent + "  \"${" + it.parts[i] + "}\" = " + it.parts[i+1] + "\n"
			}
			x += indent + "}"
		}
		fmt.Fprintf(w, "%s%s = %s\n", indent, it.name, x)
		return
	}
	w.WriteString(indent)
	if it.dynamic {
		fmt.Fprintf(w, "dynamic %q {\n%s  for_each = %s\n", it.name, indent, it.each)
		if it.iter != it.name {
			fmt.Fprintf(w, "%s  iterator = %s\n", indent, it.iter)
		}
		if it.lexprs != nil {
			fmt.Fprintf(w, "%s  labels = [%s]\n", indent, strings.Join(it.lexprs, ", "))
		}
		fmt.Fprintf(w, "%s  content {\n", indent)
		for _, x := range it.items {
			x.native(w, indent+"    ")
		}
		fmt.Fprintf(w, "%s  }\n%s}\n", indent, indent)
		return
	}
	w.WriteString(it.name)
	for _, l := range it.labels {
		fmt.Fprintf(w, " %q", l)
	}
	w.WriteString(" {\n")
	for _, x := range it.items {
		x.native(w, indent+"  ")
	}
	w.WriteString(indent + "}\n")
}

func jsonX(x string) string {
	return `"${` + strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`).Replace(x) + `}"`
}

func jsonBody(items []*ritem) string {
	var props []string
	blocks := map[string][]string{}
	var order []string
	add := func(typ, x string) {
		if blocks[typ] == nil {
			order = append(order, typ)
		}
		blocks[typ] = append(blocks[typ], x)
	}
	for _, it := range items {
		switch {
		case it.dynamic:
			in := []string{`"for_each": ` + jsonX(it.each), `"content": ` + jsonBody(it.items)}
			if it.iter != it.name {
				in = append(in, fmt.Sprintf(`"iterator": %q`, it.iter))
			}
			if it.lexprs != nil {
				var ls []string
				for _, l := range it.lexprs {
					ls = append(ls, jsonX(l))
				}
				in = append(in, `"labels": [`+strings.Join(ls, ", ")+`]`)
			}
			add("dynamic", fmt.Sprintf(`{%q: {%s}}`, it.name, strings.Join(in, ", ")))
		case it.block:
			x := jsonBody(it.items)
			for i := len(it.labels) - 1; i >= 0; i-- {
				x = fmt.Sprintf("{%q: %s}", it.labels[i], x)
			}
			add(it.name, x)
		case it.parts != nil && it.kind == 'l':
			var ls []string
			for _, l := range it.parts {
				ls = append(ls, jsonX(l))
			}
			props = append(props, fmt.Sprintf("%q: [%s]", it.name, strings.Join(ls, ", ")))
		case it.parts != nil:
			var ls []string
			for i := 0; i+1 < len(it.parts); i += 2 {
				ls = append(ls, jsonX(it.parts[i])+": "+jsonX(it.parts[i+1]))
			}
			props = append(props, fmt.Sprintf("%q: {%s}", it.name, strings.Join(ls, ", ")))
		default:
			props = append(props, fmt.Sprintf("%q: %s", it.name, jsonX(it.expr)))
		}
	}
	for _, typ := range order {
		props = append(props, fmt.Sprintf("%q: [%s]", typ, strings.Join(blocks[typ], ",\n")))
	}
	return "{" + strings.Join(props, ",\n") + "}"
}

// ---- configurations under test

type refconf struct {
	kind  string
	expr  hcl.Expression
	body  hcl.Body
	spec  hcldec.Spec
	want  []string // the free references
	first []string // those that are needed to expand blocks
	exact bool     // with their places
	src   map[string]string
}

func refKey(file string, rng [2]int, text string) string {
	return fmt.Sprintf("%s@%d-%d %s", file, rng[0], rng[1], text)
}

func buildRef(sc *harness.Scenario) (*refconf, hcl.Diagnostics) {
	c := &refconf{kind: sc.Kind, exact: true, src: map[string]string{}}
	g := &refgen{r: simrt.NewRand(uint64(sc.N["x"])), any: sc.N["any"] == 1, late: sc.N["late"] == 1, upgrade: sc.N["upgrade"] > 0}
	note := func(file, marked string) string {
		text, refs := unmark(marked)
		c.src[file] = text
		for _, x := range refs {
			k := refKey(file, [2]int{x[0], x[1]}, text[x[0]:x[1]])
			c.want = append(c.want, k)
			if x[2] == 1 {
				c.first = append(c.first, k)
			}
		}
		return text
	}
	if sc.Kind == "expr" {
		text := note("a.hcl", g.of("nsblm"[g.r.N(5)], int(sc.N["depth"]), nil))
		x, diags := hclsyntax.ParseExpression([]byte(text), "a.hcl", start)
		c.expr = x
		return c, diags
	}
	spec := genRBody(g.r, 2, false)
	if g.late && strings.HasPrefix(sc.Kind, "dyn") {
		spec.noDefaults()
	}
	c.spec = spec.spec(0)
	used := map[string]bool{}
	var parts [2][]*ritem
	dyn := strings.HasPrefix(sc.Kind, "dyn")
	for _, op := range sc.Tasks[0] {
		if op.K == "have" {
			if it := spec.genItem(&refgen{r: simrt.NewRand(uint64(op.C)*13 + 5), any: g.any, late: g.late, upgrade: g.upgrade}, 2, nil, used, dyn); it != nil {
				parts[op.A%2] = append(parts[op.A%2], it)
			}
		}
	}
	all := append(append([]*ritem{}, parts[0]...), parts[1]...)
	native := func(file string, items []*ritem) (*hcl.File, hcl.Diagnostics) {
		var w strings.Builder
		for _, it := range items {
			it.native(&w, "")
		}
		return hclsyntax.ParseConfig([]byte(note(file, w.String())), file, start)
	}
	inJSON := func(file string, items []*ritem) (*hcl.File, hcl.Diagnostics) {
		text := note(file, jsonBody(items))
		c.exact = c.exact && !strings.Contains(text, `\`)
		return json.Parse([]byte(text), file)
	}
	var f *hcl.File
	var diags hcl.Diagnostics
	switch sc.Kind {
	case "json", "dynjson":
		f, diags = inJSON("a.json", all)
	case "merged", "dynmerged":
		var g *hcl.File
		var more hcl.Diagnostics
		f, diags = native("a.hcl", parts[0])
		g, more = inJSON("b.json", parts[1])
		diags = append(diags, more...)
		if !diags.HasErrors() {
			c.body = hcl.MergeFiles([]*hcl.File{f, g})
		}
		return c, diags
	case "pack":
		f, diags = native("a.hcl", all)
		if diags.HasErrors() {
			return c, diags
		}
		var b *hclpack.Body
		b, diags = hclpack.PackNativeFile([]byte(c.src["a.hcl"]), "a.hcl", start)
		if diags.HasErrors() {
			return c, diags
		}
		raw, err := b.MarshalJSON()
		got := &hclpack.Body{}
		if err == nil {
			err = got.UnmarshalJSON(raw)
		}
		if err != nil {
			return c, hcl.Diagnostics{{Severity: hcl.DiagError, Summary: err.Error()}}
		}
		c.body = got
		return c, nil
	default:
		f, diags = native("a.hcl", all)
	}
	if f != nil {
		c.body = f.Body
	}
	return c, diags
}

// list runs the reference analysis.
func (c *refconf) list() []hcl.Traversal {
	switch {
	case c.expr != nil:
		return c.expr.Variables()
	case strings.HasPrefix(c.kind, "dyn"):
		return dynblock.VariablesHCLDec(c.body, c.spec)
	}
	return hcldec.Variables(c.body, c.spec)
}

var suggestRE = regexp.MustCompile(` Did you mean [^?]*\?`)

func (c *refconf) eval(first, ctx *hcl.EvalContext) string {
	var v cty.Value
	var diags hcl.Diagnostics
	switch {
	case c.expr != nil:
		v, diags = c.expr.Value(ctx)
	case strings.HasPrefix(c.kind, "dyn"):
		v, diags = hcldec.Decode(dynblock.Expand(c.body, first), c.spec, ctx)
	default:
		v, diags = hcldec.Decode(c.body, c.spec, ctx)
	}
	return canonVal(v) + "\n" + suggestRE.ReplaceAllString(canonDiags(diags), "")
}

func travKey(t hcl.Traversal, src map[string]string) string {
	rng := t.SourceRange()
	text := "outside of the file"
	if s := src[rng.Filename]; rng.Start.Byte >= 0 && rng.Start.Byte <= rng.End.Byte && rng.End.Byte <= len(s) {
		text = s[rng.Start.Byte:rng.End.Byte]
	}
	return refKey(rng.Filename, [2]int{rng.Start.Byte, rng.End.Byte}, text)
}

// prune keeps of a value what the references lead to.
func prune(v cty.Value, refs []hcl.Traversal) cty.Value {
	if v.IsNull() || !v.Type().IsObjectType() {
		return v
	}
	keep := map[string][]hcl.Traversal{}
	for _, t := range refs {
		if len(t) == 0 {
			return v
		}
		var name string
		switch s := t[0].(type) {
		case hcl.TraverseAttr:
			name = s.Name
		case hcl.TraverseIndex:
			if s.Key.Type() != cty.String {
				return v
			}
			name = s.Key.AsString()
		default:
			return v
		}
		keep[name] = append(keep[name], t[1:])
	}
	out := map[string]cty.Value{}
	for name, ts := range keep {
		if v.Type().HasAttribute(name) {
			out[name] = prune(v.GetAttr(name), ts)
		}
	}
	return cty.ObjectVal(out)
}

// scope is what one reader has been given so far.
type refscope struct {
	levels []*hcl.EvalContext
}

func newScope(depth, fnLevel int, fns map[string]function.Function) *refscope {
	s := &refscope{}
	var ctx *hcl.EvalContext
	for i := 0; i < depth; i++ {
		if ctx == nil {
			ctx = &hcl.EvalContext{}
		} else {
			ctx = ctx.NewChild()
		}
		if i == fnLevel%depth {
			ctx.Functions = fns
		}
		s.levels = append(s.levels, ctx)
	}
	s.levels[0].Variables = map[string]cty.Value{}
	return s
}

func (s *refscope) ctx() *hcl.EvalContext { return s.levels[len(s.levels)-1] }

func (s *refscope) give(name string, v cty.Value, level int) {
	for _, l := range s.levels {
		delete(l.Variables, name)
	}
	l := s.levels[level%len(s.levels)]
	if l.Variables == nil {
		l.Variables = map[string]cty.Value{}
	}
	l.Variables[name] = v
}

func genP16(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}, S: map[string]string{}}
	sc.Kind = r.Pick([]string{"expr", "expr", "expr", "native", "native", "json", "merged", "pack", "dyn", "dyn", "dynjson", "dynmerged"})
	sc.N["x"] = int64(r.N(1 << 30))
	sc.N["depth"] = int64(r.Range(1, 4))
	if r.P(1, 6) {
		sc.N["any"] = 1
	}
	for t := 0; t < 1+r.N(3); t++ {
		var ops []harness.Op
		if t == 0 {
			for n := r.Range(1, 6); n > 0; n-- {
				ops = append(ops, harness.Op{K: "have", A: r.N(2), C: r.N(1 << 20)})
			}
		}
		ops = append(ops, harness.Op{K: "scope", A: 1 + r.N(3), B: r.N(3)})
		for n := r.N(10); n > 0; n-- {
			op := harness.Op{K: r.Pick([]string{"give", "give", "give", "give", "early", "list", "scope", "lose"}), A: r.N(12), B: r.N(3), C: r.N(3)}
			if op.K == "scope" {
				op.A = 1 + r.N(3)
			}
			ops = append(ops, op)
		}
		sc.Tasks = append(sc.Tasks, append(ops, harness.Op{K: "end", A: r.N(1000), B: r.N(3), C: r.N(3)}))
	}
	sc.Pol = genPolicy(r, 8000)
	return sc
}

func runP16(sc *harness.Scenario, o *harness.Outcome, p *harness.Property) {
	var c *refconf
	var diags hcl.Diagnostics
	var want string
	var listed, first []hcl.Traversal
	vars := refVars()
	fns := stdFuncs()
	o.Alone(p, "load", nil, func() {
		c, diags = buildRef(sc)
		if diags.HasErrors() {
			return
		}
		full := &hcl.EvalContext{Variables: refVars(), Functions: fns}
		want = c.eval(full, full)
		listed = c.list()
		if strings.HasPrefix(c.kind, "dyn") {
			first = dynblock.ExpandVariablesHCLDec(c.body, c.spec)
		}
	})
	if o.Violation != "" {
		return
	}
	for _, name := range sortedKeys(c.src) {
		o.Note("%s: %q", name, c.src[name])
		o.Sig = simrt.Mix(o.Sig, c.src[name])
	}
	o.Sig = simrt.Mix(o.Sig, fmt.Sprint(sc.Tasks))
	if diags.HasErrors() {
		o.Fail("generator", "a generated configuration is not valid: %s", diags)
		return
	}
	o.Tag(sc.Kind)
	if strings.HasSuffix(want, "\n") {
		o.Tag("success")
	}
	// what is listed
	strip := func(keys []string) []string {
		var out []string
		for _, k := range keys {
			if !c.exact {
				k = k[strings.Index(k, " ")+1:]
				k = regexp.MustCompile(`^\w*`).FindString(k)
			}
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	compare := func(what string, listed []hcl.Traversal, want []string) {
		var got []string
		for _, t := range listed {
			if t.SourceRange().Filename == "spec" {
				continue
			}
			k := travKey(t, c.src)
			if !c.exact {
				k = "? " + t.RootName()
			}
			got = append(got, k)
		}
		if w, g := strings.Join(strip(want), "\n"), strings.Join(strip(got), "\n"); w != g {
			o.Fail("listed", "the references %s are not those of the configuration:\n%s\ninstead of\n%s", what, g, w)
		}
	}
	compare("listed", listed, c.want)
	if strings.HasPrefix(c.kind, "dyn") {
		compare("listed for expansion", first, c.first)
	}
	if o.Violation != "" {
		return
	}
	firstKeys := canonTraversals(listed)
	if len(listed) == 0 {
		o.Tag("no-references")
	}
	var specs []simrt.Spec
	for t, ops := range sc.Tasks {
		t, ops := t, ops
		specs = append(specs, simrt.Spec{Name: fmt.Sprintf("reader%d", t), Fn: func() {
			roots := map[string][]hcl.Traversal{}
			var names []string
			for _, tr := range c.list() {
				n := tr.RootName()
				if _, ok := roots[n]; !ok {
					names = append(names, n)
				}
				roots[n] = append(roots[n], tr[1:])
			}
			s := newScope(1, 0, fns)
			given := map[string]bool{}
			give := func(name string, level, how int) {
				v, ok := vars[name]
				given[name] = true
				if !ok {
					return
				}
				if how > 0 {
					v = prune(v, roots[name])
				}
				s.give(name, v, level)
			}
			check := func(what string) {
				first := s.ctx()
				if strings.HasPrefix(c.kind, "dyn") && sc.N["x"]%2 == 0 {
					// what is only needed in the content is not there yet
					need := map[string]bool{}
					for _, tr := range dynblock.ExpandVariablesHCLDec(c.body, c.spec) {
						need[tr.RootName()] = true
					}
					f := newScope(1, 0, fns)
					for n := range need {
						if v, ok := vars[n]; ok && given[n] {
							f.give(n, v, 0)
						}
					}
					first = f.ctx()
				}
				got := c.eval(first, s.ctx())
				if len(given) == len(names) {
					if got != want {
						o.Fail("result", "%s, with the listed references %q only, the result is\n%s\ninstead of\n%s", what, names, got, want)
					}
				} else {
					o.Nontrivial = true
				}
			}
			for _, op := range ops {
				if o.Violation != "" {
					return
				}
				switch op.K {
				case "scope": // everything starts again
					s = newScope(op.A, op.B, fns)
					given = map[string]bool{}
				case "give":
					if len(names) > 0 {
						give(names[op.A%len(names)], op.B, op.C)
					}
				case "lose":
					if len(names) > 0 {
						n := names[op.A%len(names)]
						for _, l := range s.levels {
							delete(l.Variables, n)
						}
						delete(given, n)
					}
				case "early":
					check("early")
				case "list":
					if k := canonTraversals(c.list()); k != firstKeys {
						o.Fail("list", "the references change from\n%s\nto\n%s", firstKeys, k)
					}
				case "end":
					for _, i := range simrt.NewRand(uint64(op.A)).Perm(len(names)) {
						if !given[names[i]] {
							give(names[i], op.B+i, op.C)
						}
					}
					check("at the end")
				}
			}
		}})
	}
	if len(specs) > 1 {
		o.Nontrivial = true
	}
	o.Sim(sc, p, specs)
}

func init() {
	p := &harness.Property{
		ID:        "P16",
		QuickRuns: 160000, QuickSecs: 45, ThoroughRuns: 3000000, ThoroughSecs: 700,
		Rule: "nontrivial: several readers, or an evaluation before everything was delivered; distinct: different configurations, deliveries or schedules",
		Real: []string{"hcl, hcl/hclsyntax, hcl/json, hclpack, hcldec, ext/dynblock"},
		Stub: []string{"the application that delivers variables"},
		Gen:  genP16,
	}
	p.Run = func(sc *harness.Scenario, o *harness.Outcome) { runP16(sc, o, p) }
	harness.Register(p)
}
