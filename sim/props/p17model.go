package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"

	"verifsim/harness"
	"verifsim/simrt"
)

// A second kind of scenario of P17: expressions of which the harness knows the
// structure, so that it can say for every failing call whether an error must be
// reported, and which parts of the value must be there all the same. Whether a
// call fails depends on where it is in the source and on its argument, not on
// the order of the calls.

type fnode struct {
	K string   `json:"k"`           // what it is
	T string   `json:"t"`           // s, b, n, t (tuple), o (object)
	I int      `json:"i,omitempty"` // number of a call
	S string   `json:"s,omitempty"` // text of a literal, name of a function or key
	X []*fnode `json:"x,omitempty"`
	// where it is in the source
	from, to int
}

type fgen struct {
	r    *rnd
	ids  int
	vars []string // names of strings in scope
}

func (g *fgen) lit(t string) *fnode {
	switch t {
	case "b":
		return &fnode{K: "lit", T: t, S: g.r.Pick([]string{"true", "false"})}
	case "n":
		return &fnode{K: "lit", T: t, S: fmt.Sprint(g.r.N(3))}
	}
	return &fnode{K: "lit", T: "s", S: g.r.Pick([]string{"u", "v", "w"})}
}

func (g *fgen) call(x *fnode) *fnode {
	g.ids++
	return &fnode{K: "call", T: x.T, I: g.ids, S: g.r.Pick([]string{"probe", "probe", "probe", "via"}), X: []*fnode{x}}
}

// leaf is a literal or a variable, mostly given to a function.
func (g *fgen) leaf(t string) *fnode {
	x := g.lit(t)
	if t == "s" && len(g.vars) > 0 && g.r.P(2, 3) {
		x = &fnode{K: "var", T: t, S: g.r.Pick(g.vars)}
	}
	if g.r.P(1, 5) {
		return x
	}
	return g.call(x)
}

// part chooses what to put into a collection.
func (g *fgen) part(d int) string {
	if d <= 1 {
		return g.r.Pick([]string{"s", "s", "b"})
	}
	return g.r.Pick([]string{"s", "s", "b", "t", "o"})
}

func (g *fgen) gen(t string, d int) *fnode {
	if d <= 0 && t != "t" && t != "o" {
		return g.leaf(t)
	}
	switch t {
	case "s":
		switch g.r.N(8) {
		case 0:
			return g.call(g.gen("s", d-1))
		case 1, 2:
			return &fnode{K: "cond", T: t, X: []*fnode{g.gen("b", d-1), g.gen("s", d-1), g.gen("s", d-1)}}
		case 3, 4:
			n := &fnode{K: "tmpl", T: t}
			for k := g.r.Range(2, 3); k > 0; k-- {
				n.X = append(n.X, g.gen("s", d-1))
			}
			return n
		case 5:
			// an element of a list
			n := &fnode{K: "list", T: "t"}
			for k := g.r.Range(3, 4); k > 0; k-- {
				n.X = append(n.X, g.gen("s", d-2))
			}
			return &fnode{K: "index", T: t, X: []*fnode{n, g.gen("n", d-2)}}
		case 6:
			return &fnode{K: "tif", T: t, X: []*fnode{g.gen("b", d-1), g.gen("s", d-1), g.gen("s", d-1)}}
		}
		return g.leaf(t)
	case "b":
		switch g.r.N(4) {
		case 0:
			return &fnode{K: "op", T: t, S: g.r.Pick([]string{"&&", "||"}), X: []*fnode{g.gen("b", d-1), g.gen("b", d-1)}}
		case 1:
			return &fnode{K: "op", T: t, S: g.r.Pick([]string{"==", "!="}), X: []*fnode{g.gen("s", d-1), g.gen("s", d-1)}}
		case 2:
			return &fnode{K: "not", T: t, X: []*fnode{g.gen("b", d-1)}}
		}
		return g.leaf(t)
	case "n":
		return g.leaf(t)
	case "t":
		if g.r.Bool() {
			n := &fnode{K: "list", T: t}
			for k := g.r.Range(1, 4); k > 0; k-- {
				n.X = append(n.X, g.gen(g.part(d), d-1))
			}
			return n
		}
		return g.loop("for", d)
	}
	if g.r.Bool() {
		n := &fnode{K: "object", T: "o"}
		for i := g.r.Range(1, 4); i > 0; i-- {
			k := &fnode{K: "name", T: "s", S: fmt.Sprintf("k%d", i)}
			if g.r.P(1, 6) {
				k = g.call(&fnode{K: "lit", T: "s", S: fmt.Sprintf("k%d", i)})
			}
			n.X = append(n.X, k, g.gen(g.part(d), d-1))
		}
		return n
	}
	return g.loop("forobj", d)
}

// loop: X is collection, value, condition or nil, key.
func (g *fgen) loop(kind string, d int) *fnode {
	coll := &fnode{K: "list", T: "t"}
	for k := g.r.Range(1, 4); k > 0; k-- {
		x := &fnode{K: "lit", T: "s", S: fmt.Sprintf("e%d", k)}
		if g.r.P(1, 8) {
			x = g.call(x)
		}
		coll.X = append(coll.X, x)
	}
	name := fmt.Sprintf("x%d", len(g.vars))
	n := &fnode{K: kind, T: "t", S: name, X: []*fnode{coll, nil, nil, nil}}
	g.vars = append(g.vars, name)
	v := &fnode{K: "var", T: "s", S: name}
	n.X[1] = g.gen(g.part(d), d-1)
	if g.r.P(1, 3) {
		n.X[2] = &fnode{K: "op", T: "b", S: "!=", X: []*fnode{g.call(v), g.lit("s")}}
	}
	if kind == "forobj" {
		n.T = "o"
		n.X[3] = v
		if g.r.Bool() {
			n.X[3] = g.call(v)
		}
	}
	g.vars = g.vars[:len(g.vars)-1]
	return n
}

// text writes the expression; at is where it begins in the source.
func (n *fnode) text(at int) string {
	n.from = at
	s := ""
	add := func(x string) { s += x }
	sub := func(x *fnode) { s += x.text(at + len(s)) }
	switch n.K {
	case "lit":
		if n.T == "s" {
			add(`"` + n.S + `"`)
		} else {
			add(n.S)
		}
	case "var", "name":
		add(n.S)
	case "call":
		add(fmt.Sprintf("%s(%d, ", n.S, n.I))
		sub(n.X[0])
		add(")")
	case "cond":
		add("(")
		sub(n.X[0])
		add(" ? ")
		sub(n.X[1])
		add(" : ")
		sub(n.X[2])
		add(")")
	case "tmpl":
		add(`"<`)
		for _, x := range n.X {
			add("${")
			sub(x)
			add("}-")
		}
		add(`>"`)
	case "tif":
		add(`"<%{ if `)
		sub(n.X[0])
		add(" }${")
		sub(n.X[1])
		add("}%{ else }${")
		sub(n.X[2])
		add(`}%{ endif }>"`)
	case "index":
		sub(n.X[0])
		add("[")
		sub(n.X[1])
		add("]")
	case "op":
		add("(")
		sub(n.X[0])
		add(" " + n.S + " ")
		sub(n.X[1])
		add(")")
	case "not":
		add("!")
		sub(n.X[0])
	case "list":
		add("[")
		for i, x := range n.X {
			if i > 0 {
				add(", ")
			}
			sub(x)
		}
		add("]")
	case "object":
		add("{")
		for i := 0; i < len(n.X); i += 2 {
			if i > 0 {
				add(", ")
			}
			if n.X[i].K != "name" {
				add("(")
			}
			sub(n.X[i])
			if n.X[i].K != "name" {
				add(")")
			}
			add(" = ")
			sub(n.X[i+1])
		}
		add("}")
	case "for", "forobj":
		if n.K == "for" {
			add("[")
		} else {
			add("{")
		}
		add("for " + n.S + " in ")
		sub(n.X[0])
		add(" : ")
		if n.X[3] != nil {
			sub(n.X[3])
			add(" => ")
		}
		sub(n.X[1])
		if n.X[2] != nil {
			add(" if ")
			sub(n.X[2])
		}
		if n.K == "for" {
			add("]")
		} else {
			add("}")
		}
	}
	n.to = at + len(s)
	return s
}

// fval is what is known of a value.
type fval struct {
	known bool
	s     string // a string, bool or number
	elems []fval
	names []string // of elems, for objects
}

// fcall is a failing call that must be reported.
type fcall struct {
	n   *fnode
	arg string
}

type fmodel struct {
	fails map[string]bool // by number and argument
	calls []fcall         // all that are made
}

func fkey(id int, arg string) string { return fmt.Sprintf("%d:%s", id, arg) }

// eval gives the value and the failures that must be reported.
func (m *fmodel) eval(n *fnode, env map[string]fval) (fval, []fcall) {
	var errs []fcall
	all := func(xs ...*fnode) ([]fval, bool) {
		var vs []fval
		ok := true
		for _, x := range xs {
			v, es := m.eval(x, env)
			vs, errs = append(vs, v), append(errs, es...)
			// what is computed from something failed need not be there
			ok = ok && v.known && len(es) == 0
		}
		return vs, ok
	}
	str := func(s string) fval { return fval{known: true, s: s} }
	switch n.K {
	case "lit", "name":
		return str(n.S), nil
	case "var":
		return env[n.S], nil
	case "call":
		vs, _ := all(n.X...)
		if len(errs) > 0 {
			return fval{}, errs
		}
		arg := "?"
		if vs[0].known {
			arg = vs[0].s
		} else if n.S != "probe" {
			return fval{}, nil // not called while its argument is not known
		}
		c := fcall{n, arg}
		m.calls = append(m.calls, c)
		if m.fails[fkey(n.I, arg)] {
			return fval{}, []fcall{c}
		}
		return vs[0], nil
	case "cond", "tif":
		c, errs := m.eval(n.X[0], env)
		t, terrs := m.eval(n.X[1], env)
		f, ferrs := m.eval(n.X[2], env)
		switch {
		case !c.known || len(errs) > 0:
			return fval{}, errs
		case c.s == "false":
			t, terrs = f, ferrs
		}
		if n.K == "tif" && t.known {
			t = str("<" + t.s + ">")
		}
		return t, append(errs, terrs...)
	case "tmpl":
		vs, ok := all(n.X...)
		if !ok {
			return fval{}, errs
		}
		s := "<"
		for _, v := range vs {
			s += v.s + "-"
		}
		return str(s + ">"), errs
	case "index":
		vs, ok := all(n.X...)
		if !ok {
			return fval{}, errs
		}
		return vs[0].elems[int(vs[1].s[0]-'0')], errs
	case "op":
		vs, ok := all(n.X...)
		if !ok {
			return fval{}, errs
		}
		a, b := vs[0].s, vs[1].s
		return str(fmt.Sprint(map[string]bool{
			"&&": a == "true" && b == "true", "||": a == "true" || b == "true", "==": a == b, "!=": a != b,
		}[n.S])), errs
	case "not":
		vs, ok := all(n.X...)
		if !ok {
			return fval{}, errs
		}
		return str(fmt.Sprint(vs[0].s != "true")), errs
	case "list":
		vs, _ := all(n.X...)
		return fval{known: true, elems: vs}, errs
	case "object":
		vs, _ := all(n.X...)
		v := fval{known: true}
		for i := 0; i < len(vs); i += 2 {
			v.known = v.known && vs[i].known
			v.names, v.elems = append(v.names, vs[i].s), append(v.elems, vs[i+1])
		}
		return v, errs
	case "for", "forobj":
		coll, errs := m.eval(n.X[0], env)
		if !coll.known {
			return fval{}, errs
		}
		with := func(v fval) map[string]fval {
			in := map[string]fval{n.S: v}
			for k, v := range env {
				if k != n.S {
					in[k] = v
				}
			}
			return in
		}
		if n.X[2] != nil {
			// the condition is first tried without a value
			if _, es := m.eval(n.X[2], with(fval{})); len(es) > 0 {
				return fval{}, append(errs, es...)
			}
		}
		v := fval{known: true}
		for _, e := range coll.elems {
			in := with(e)
			if n.X[2] != nil {
				c, es := m.eval(n.X[2], in)
				errs = append(errs, es...)
				if !c.known {
					v.known = false
					continue
				}
				if c.s == "false" {
					continue
				}
			}
			if n.X[3] != nil {
				k, es := m.eval(n.X[3], in)
				errs = append(errs, es...)
				if !k.known {
					v.known = false
					continue
				}
				v.names = append(v.names, k.s)
			}
			x, es := m.eval(n.X[1], in)
			errs = append(errs, es...)
			v.elems = append(v.elems, x)
		}
		return v, errs
	}
	panic(n.K)
}

// fits compares a value with what is known of it.
func (f fval) fits(v cty.Value) string {
	if !f.known {
		return ""
	}
	if !v.IsKnown() || v.IsNull() {
		return fmt.Sprintf("%s instead of %s", canonVal(v), f)
	}
	ty := v.Type()
	switch {
	case f.names != nil:
		if !ty.IsObjectType() || len(ty.AttributeTypes()) != len(f.names) {
			return fmt.Sprintf("%s instead of %s", canonVal(v), f)
		}
		for i, k := range f.names {
			if !ty.HasAttribute(k) {
				return fmt.Sprintf("%s without %s", canonVal(v), k)
			}
			if s := f.elems[i].fits(v.GetAttr(k)); s != "" {
				return k + " is " + s
			}
		}
	case f.elems != nil || f.s == "":
		if !ty.IsTupleType() && !(ty.IsObjectType() && len(f.elems) == 0) || v.LengthInt() != len(f.elems) {
			return fmt.Sprintf("%s instead of %s", canonVal(v), f)
		}
		for i, e := range f.elems {
			if s := e.fits(v.Index(cty.NumberIntVal(int64(i)))); s != "" {
				return fmt.Sprintf("element %d is %s", i, s)
			}
		}
	default:
		if got := plainText(v); got != f.s {
			return fmt.Sprintf("%s instead of %s", canonVal(v), f)
		}
	}
	return ""
}

func plainText(v cty.Value) string {
	switch v.Type() {
	case cty.String:
		return v.AsString()
	case cty.Bool:
		return fmt.Sprint(v.True())
	case cty.Number:
		return v.AsBigFloat().Text('f', -1)
	}
	return "?"
}

func (f fval) String() string {
	switch {
	case !f.known:
		return "?"
	case f.names != nil:
		var s []string
		for i, k := range f.names {
			s = append(s, k+"="+f.elems[i].String())
		}
		return "{" + strings.Join(s, ",") + "}"
	case f.elems != nil || f.s == "":
		var s []string
		for _, e := range f.elems {
			s = append(s, e.String())
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	return f.s
}

func genP17model(r *rnd, sc *harness.Scenario) {
	sc.Kind = "model"
	g := &fgen{r: r}
	d := harness.Doc{Name: "m.hcl"}
	for k := r.Range(1, 5); k > 0; k-- {
		depth := r.Range(1, 4)
		n := g.gen(r.Pick([]string{"s", "t", "t", "o", "o"}), depth)
		for depth > 1 {
			// not too many calls
			m := &fmodel{}
			if m.eval(n, nil); len(m.calls) < 40 {
				break
			}
			depth--
			n = g.gen(n.T, depth)
		}
		b, _ := json.Marshal(n)
		d.Chunks = append(d.Chunks, string(b))
	}
	sc.Docs = []harness.Doc{d}
	sc.N["blocks"] = int64(r.N(3))
	sc.N["scopes"] = int64(r.N(4))
	for t := r.Range(1, 3); t > 0; t-- {
		var ops []harness.Op
		for k := r.Range(1, 3); k > 0; k-- {
			ops = append(ops, harness.Op{K: r.Pick([]string{"read", "decode"})})
		}
		for k := r.Range(1, 4); k > 0; k-- {
			op := harness.Op{K: "fail", A: r.N(1 << 20), S: r.Pick(failKinds), B: r.N(8)}
			if r.P(1, 4) {
				op.C = 1 // whatever the argument
			}
			ops = append(ops, op)
		}
		sc.Tasks = append(sc.Tasks, ops)
	}
	sc.Pol = genPolicy(r, 30000)
}

type fcaller struct {
	ctx   *hcl.EvalContext
	plan  map[string]harness.Op
	fired int
}

func newFcaller(funcs hcl.Body, scopes int64) *fcaller {
	c := &fcaller{}
	probe := function.New(&function.Spec{
		Params: []function.Parameter{
			{Name: "id", Type: cty.Number},
			{Name: "v", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true},
		},
		VarParam: &function.Parameter{Name: "more", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true},
		Type:     func(args []cty.Value) (cty.Type, error) { return args[1].Type(), nil },
		Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
			return args[1], c.call(probeID(args[0]), args[1])
		},
	})
	root := &hcl.EvalContext{Functions: map[string]function.Function{"probe": probe}}
	c.ctx = root
	fs, _, _ := userfunc.DecodeUserFunctions(funcs, "function", func() *hcl.EvalContext { return c.ctx })
	// the functions may be in different scopes
	if scopes&1 == 1 {
		c.ctx = c.ctx.NewChild()
		c.ctx.Functions = map[string]function.Function{}
	}
	if scopes&2 == 2 {
		c.ctx = c.ctx.NewChild()
	}
	in := c.ctx
	for in.Functions == nil {
		in = in.Parent()
	}
	for k, f := range fs {
		in.Functions[k] = f
	}
	return c
}

func (c *fcaller) call(id int, v cty.Value) error {
	arg := "?"
	if v.IsKnown() {
		arg = plainText(v)
	}
	op, ok := c.plan[fkey(id, arg)]
	if !ok {
		return nil
	}
	c.fired++
	msg := faultText(id, arg)
	switch op.S {
	case "arg":
		return function.NewArgErrorf(op.B%2, "%s", msg)
	case "noarg":
		return function.NewArgErrorf(2+op.B%3, "%s", msg)
	case "path":
		return cty.GetAttrPath("deep").NewErrorf("%s", msg)
	case "diags":
		return hcl.Diagnostics{{Severity: hcl.DiagError, Summary: "Custom", Detail: msg}}
	}
	return errors.New(msg)
}

func faultText(id int, arg string) string { return fmt.Sprintf("<fault of %d with %s>", id, arg) }

func runP17model(sc *harness.Scenario, o *harness.Outcome, p *harness.Property) {
	// the source: attributes a0, a1, ..., some of them in blocks of their own
	var nodes []*fnode
	src := ""
	for i, c := range sc.Docs[0].Chunks {
		n := &fnode{}
		if err := json.Unmarshal([]byte(c), n); err != nil {
			o.Fail("harness", "%s", err)
			return
		}
		pre, post := fmt.Sprintf("a%d = ", i), "\n"
		if int64(i) < sc.N["blocks"] {
			pre, post = "b {\n  v = ", "\n}\n"
		}
		src += pre
		src += n.text(len(src))
		src += post
		nodes = append(nodes, n)
	}
	o.Sig = simrt.Mix(o.Sig, src+fmt.Sprint(sc.Tasks))
	o.Note("m.hcl: %q", src)
	nb := int(sc.N["blocks"])
	if nb > len(nodes) {
		nb = len(nodes)
	}
	schema := &hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "b"}}}
	obj := hcldec.ObjectSpec{"b": &hcldec.BlockTupleSpec{TypeName: "b", Nested: &hcldec.AttrSpec{Name: "v", Type: cty.DynamicPseudoType}}}
	for i := nb; i < len(nodes); i++ {
		name := fmt.Sprintf("a%d", i)
		schema.Attributes = append(schema.Attributes, hcl.AttributeSchema{Name: name})
		obj[name] = &hcldec.AttrSpec{Name: name, Type: cty.DynamicPseudoType}
	}
	var f, funcs *hcl.File
	o.Alone(p, "load", nil, func() {
		var diags hcl.Diagnostics
		f, diags = hclsyntax.ParseConfig([]byte(src), "m.hcl", start)
		if diags.HasErrors() {
			o.Fail("harness", "%s\n%s", diags, src)
		}
		funcs, _ = hclsyntax.ParseConfig([]byte(viaText), "funcs.hcl", start)
	})
	if o.Violation != "" {
		return
	}
	var specs []simrt.Spec
	for t, ops := range sc.Tasks {
		t, ops := t, ops
		specs = append(specs, simrt.Spec{Name: fmt.Sprintf("caller%d", t), Fn: func() {
			c := newFcaller(funcs.Body, sc.N["scopes"])
			// the calls that there are
			all := &fmodel{}
			for _, n := range nodes {
				all.eval(n, nil)
			}
			c.plan = map[string]harness.Op{}
			for _, op := range ops {
				if op.K == "fail" && len(all.calls) > 0 {
					x := all.calls[op.A%len(all.calls)]
					for _, y := range all.calls {
						if y.n.I == x.n.I && (y.arg == x.arg || op.C == 1) {
							c.plan[fkey(y.n.I, y.arg)] = op
						}
					}
				}
			}
			for round := 0; round < 3; round++ {
				m := &fmodel{fails: map[string]bool{}}
				for k := range c.plan {
					m.fails[k] = true
				}
				var want []fval
				var errs []fcall
				for _, n := range nodes {
					v, es := m.eval(n, nil)
					want, errs = append(want, v), append(errs, es...)
				}
				for _, op := range ops {
					if op.K == "fail" {
						continue
					}
					var got []cty.Value
					var diags hcl.Diagnostics
					c.fired = 0
					if op.K == "decode" {
						v, ds := hcldec.Decode(f.Body, obj, c.ctx)
						diags = ds
						if !v.IsKnown() || !v.Type().IsObjectType() {
							o.Fail("lost-all", "decoding gives %s", canonVal(v))
							return
						}
						bs := v.GetAttr("b")
						if !bs.IsKnown() || bs.LengthInt() != nb {
							o.Fail("lost-all", "%d blocks decode to %s", nb, canonVal(bs))
							return
						}
						for i := range nodes {
							if i < nb {
								got = append(got, bs.Index(cty.NumberIntVal(int64(i))))
							} else {
								got = append(got, v.GetAttr(fmt.Sprintf("a%d", i)))
							}
						}
					} else {
						content, ds := f.Body.Content(schema)
						diags = append(diags, ds...)
						for i := range nodes {
							var a *hcl.Attribute
							if i < nb {
								attrs, ds := content.Blocks[i].Body.JustAttributes()
								diags = append(diags, ds...)
								a = attrs["v"]
							} else {
								a = content.Attributes[fmt.Sprintf("a%d", i)]
							}
							v, ds := a.Expr.Value(c.ctx)
							diags = append(diags, ds...)
							got = append(got, v)
						}
					}
					for k := 0; k < c.fired; k++ {
						o.Nontrivial = true
						o.Faults = append(o.Faults, "call/model")
					}
					if len(c.plan) > 0 {
						var ks []string
						for k := range c.plan {
							ks = append(ks, k)
						}
						sort.Strings(ks)
						o.Note("caller%d: %s, failing calls %v", t, op.K, ks)
					}
					for i := range nodes {
						if s := want[i].fits(got[i]); s != "" {
							o.Fail("parts", "%s: value %d is %s, where %s was to be expected\n%s\n%s", op.K, i, canonVal(got[i]), want[i], s, canonDiags(diags))
							return
						}
					}
					for _, e := range errs {
						found := false
						for _, g := range diags {
							if g.Severity != hcl.DiagError || g.Subject == nil {
								continue
							}
							in := g.Subject.Filename == "m.hcl" && g.Subject.Start.Byte >= e.n.from && g.Subject.End.Byte <= e.n.to
							found = found || in && (e.n.S != "probe" || strings.Contains(g.Detail, faultText(e.n.I, e.arg)))
						}
						if !found {
							o.Fail("unreported", "%s: the failure of call %d with %s is not reported at its place: %s", op.K, e.n.I, e.arg, canonDiags(diags))
							return
						}
					}
					if len(c.plan) == 0 && len(diags) > 0 {
						o.Fail("trace", "%s: nothing fails any more, but: %s", op.K, canonDiags(diags))
						return
					}
				}
				switch round {
				case 0:
					// some of them recover
					i := 0
					for _, op := range ops {
						if op.K == "fail" && len(all.calls) > 0 {
							if x := all.calls[op.A%len(all.calls)]; i%2 == 0 {
								delete(c.plan, fkey(x.n.I, x.arg))
							}
							i++
						}
					}
				case 1:
					c.plan = nil
				}
			}
		}})
	}
	o.Sim(sc, p, specs)
}
