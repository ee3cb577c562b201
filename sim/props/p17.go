package props

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"

	"verifsim/harness"
	"verifsim/simrt"
)

// In the documents of P17 some expressions are wrapped in calls of "probe",
// which gives back its second argument. Its first argument is the number of
// the call in the source. "via" and "far" are user functions that call probe.

const viaText = `
function "via" {
  params = [id, v]
  variadic_param = more
  result = probe(id, v, more...)
}
function "far" {
  params = [id, v]
  result = [for x in [v] : via(id, x)][0]
}
`

const (
	funcID = 90001 // the transform function of the specification
	exprID = 90002 // the transform expression of the specification
)

var failKinds = []string{"plain", "plain", "arg", "arg", "arg", "noarg", "diags", "path"}

func genP17(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}, S: map[string]string{}}
	if r.P(1, 2) {
		genP17model(r, sc)
		return sc
	}
	sc.Kind = r.Pick([]string{"native", "native", "native", "json", "packed"})
	g := &xgen{r: r, watched: 1}
	o := docOpts{depth: r.Range(1, 3), blocks: true, dynamic: r.Bool(), bad: r.N(3) * r.N(3)}
	if sc.Kind == "json" {
		sc.Docs = []harness.Doc{g.genJSON("a.json", o)}
	} else {
		sc.Docs = []harness.Doc{g.genNative("a.hcl", o)}
	}
	sc.N["variant"] = int64(r.N(16))
	for t := r.Range(1, 3); t > 0; t-- {
		var ops []harness.Op
		for k := r.Range(1, 3); k > 0; k-- {
			ops = append(ops, harness.Op{K: r.Pick([]string{"read", "read", "read", "decode", "decode", "go", "walk"}), A: r.N(4)})
		}
		for k := r.Range(1, 3); k > 0; k-- {
			// a failing call: which, how, and whether it fails from then on
			op := harness.Op{K: "fail", A: r.N(1 << 20), S: r.Pick(failKinds), B: r.N(8)}
			if r.P(1, 5) {
				op.C = 1
			}
			ops = append(ops, op)
		}
		if r.P(1, 6) {
			ops = append(ops, harness.Op{K: "norules", A: r.N(2)})
		}
		sc.Tasks = append(sc.Tasks, ops)
	}
	sc.Pol = genPolicy(r, 60000)
	return sc
}

// caller is one application's view: its functions, their calls and failures.
type caller struct {
	ctx   *hcl.EvalContext
	calls int
	plan  map[int]harness.Op
	from  *harness.Op // fails from now on
	fired []firing
	nores int // how often the context of the user functions is not available
	cur   int // the chunk being evaluated
	seen  map[int]bool
}

type firing struct {
	id   int
	kind string
	msg  string
	cur  int
}

func (c *caller) call(id, nargs int) error {
	n := c.calls
	c.calls++
	if c.seen != nil {
		c.seen[id] = true
	}
	op, ok := c.plan[n]
	if ok && op.C == 1 {
		c.from = &op
	}
	if !ok {
		if c.from == nil {
			return nil
		}
		op = *c.from
	}
	f := firing{id: id, kind: op.S, msg: fmt.Sprintf("<fault %d>", n), cur: c.cur}
	c.fired = append(c.fired, f)
	switch op.S {
	case "arg":
		return function.NewArgErrorf(op.B%nargs, "%s", f.msg)
	case "noarg":
		// an argument that may be given but was not
		return function.NewArgErrorf(nargs+op.B%3, "%s", f.msg)
	case "path":
		return cty.GetAttrPath("deep").NewErrorf("%s", f.msg)
	case "diags":
		return hcl.Diagnostics{{Severity: hcl.DiagError, Summary: "Custom", Detail: f.msg}}
	}
	return errors.New(f.msg)
}

func (c *caller) probe() function.Function {
	return function.New(&function.Spec{
		Params: []function.Parameter{
			{Name: "id", Type: cty.Number},
			{Name: "v", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true},
		},
		VarParam: &function.Parameter{Name: "more", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true},
		Type: func(args []cty.Value) (cty.Type, error) {
			if err := c.call(probeID(args[0]), len(args)); err != nil {
				return cty.DynamicPseudoType, err
			}
			return args[1].Type(), nil
		},
		Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
			if err := c.call(probeID(args[0]), len(args)); err != nil {
				return cty.NilVal, err
			}
			return args[1], nil
		},
	})
}

func probeID(v cty.Value) int {
	if !v.IsKnown() {
		return 0
	}
	f, _ := v.AsBigFloat().Int64()
	return int(f)
}

func newCaller(n int, funcs hcl.Body) *caller {
	c := &caller{ctx: evalCtx(n, false, stdFuncs()), cur: -1}
	c.ctx.Functions["probe"] = c.probe()
	fs, _, diags := userfunc.DecodeUserFunctions(funcs, "function", func() *hcl.EvalContext {
		if c.nores > 0 {
			c.nores--
			c.fired = append(c.fired, firing{kind: "context", cur: c.cur})
			return nil
		}
		return c.ctx
	})
	if diags.HasErrors() {
		panic(diags)
	}
	for k, f := range fs {
		c.ctx.Functions[k] = f
	}
	return c
}

// parts is the result of an operation, by the chunk that it comes from.
type parts struct {
	of    map[int]string // per chunk
	names map[string]string
	elems []elemPart
	diags hcl.Diagnostics
	all   string
	seen  map[int]bool
}

// elemPart is one element of a list or mapping written out.
type elemPart struct {
	name string
	rng  hcl.Range
	keys []hcl.Range
	val  string
}

// elements takes a value apart along its expression.
func elements(name string, expr hcl.Expression, v cty.Value) []elemPart {
	var es []elemPart
	has := v.IsKnown() && !v.IsNull()
	// The range of an element does not always include all of it.
	last := expr.Range().Start
	from := func(rng hcl.Range) hcl.Range {
		rng.Start, last = last, rng.End
		return rng
	}
	if xs, diags := hcl.ExprList(expr); !diags.HasErrors() {
		for i, x := range xs {
			e := elemPart{name: fmt.Sprintf("%s[%d]", name, i), rng: from(x.Range()), val: "lost"}
			if has && v.Type().IsTupleType() && v.LengthInt() == len(xs) {
				e.val = canonVal(v.Index(cty.NumberIntVal(int64(i))))
			}
			es = append(es, e)
		}
	}
	if xs, diags := hcl.ExprMap(expr); !diags.HasErrors() {
		var keys []hcl.Range
		for _, x := range xs {
			keys = append(keys, x.Key.Range())
		}
		for _, x := range xs {
			k := hcl.ExprAsKeyword(x.Key)
			if k == "" {
				from(x.Value.Range())
				continue
			}
			e := elemPart{name: name + "." + k, rng: from(x.Value.Range()), keys: keys, val: "lost"}
			if has && v.Type().IsObjectType() && v.Type().HasAttribute(k) {
				e.val = canonVal(v.GetAttr(k))
			}
			es = append(es, e)
		}
	}
	return es
}

type p17doc struct {
	name   string
	src    string
	starts []int       // of the chunks
	where  map[int]int // chunk of a call
	at     map[int]hcl.Range
	maybe  map[int]bool // the call may be in a branch that is not taken
	direct map[int]bool // the function that fails is called here
	groups [][]int      // calls next to each other
	attr   map[string]int
}

func (d *p17doc) chunk(rng *hcl.Range) int {
	if rng == nil || rng.Filename != d.name {
		return -1
	}
	return sort.Search(len(d.starts), func(i int) bool { return d.starts[i] > rng.Start.Byte }) - 1
}

var callRE = regexp.MustCompile(`(?:probe|via|far)\(\[?(\d+),`)
var attrRE = regexp.MustCompile(`^"?(\w+)"?\s*[:=]`)

func newP17doc(doc harness.Doc, f *hcl.File) *p17doc {
	d := &p17doc{name: doc.Name, src: doc.Text(), where: map[int]int{}, at: map[int]hcl.Range{}, maybe: map[int]bool{}, direct: map[int]bool{}, attr: map[string]int{}}
	pos := len(doc.Pre)
	for i, c := range doc.Chunks {
		d.starts = append(d.starts, pos)
		if m := attrRE.FindStringSubmatch(c); m != nil {
			d.attr[m[1]] = i
		}
		for _, m := range callRE.FindAllStringSubmatch(c, -1) {
			id, _ := strconv.Atoi(m[1])
			d.where[id] = i
			d.direct[id] = strings.HasPrefix(m[0], "probe")
			d.maybe[id] = strings.Contains(c, "?") || strings.Contains(c, "%{ if")
		}
		pos += len(c) + len(doc.Sep)
	}
	if b, ok := f.Body.(*hclsyntax.Body); ok {
		// The labels of a dynamic block are not one value: they are expressions
		// of their own, and the block may be given up at the first that fails.
		apart := map[hclsyntax.Node]bool{}
		hclsyntax.VisitAll(b, func(n hclsyntax.Node) hcl.Diagnostics {
			if x, ok := n.(*hclsyntax.Attribute); ok && x.Name == "labels" {
				apart[x.Expr] = true
			}
			if x, ok := n.(*hclsyntax.FunctionCallExpr); ok {
				rng := x.Range()
				if m := callRE.FindStringSubmatch(string(rng.SliceBytes(f.Bytes))); m != nil && (x.Name == "probe" || x.Name == "via" || x.Name == "far") {
					id, _ := strconv.Atoi(m[1])
					d.at[id] = rng
				}
			}
			if g := siblings(n, f.Bytes); len(g) > 1 && !apart[n] {
				d.groups = append(d.groups, g)
			}
			return nil
		})
	}
	return d
}

// siblings gives the calls that are arguments, operands or elements of the same
// expression: one of them does not depend on the others.
func siblings(n hclsyntax.Node, src []byte) []int {
	var xs []hclsyntax.Expression
	switch x := n.(type) {
	case *hclsyntax.FunctionCallExpr:
		if !x.ExpandFinal {
			xs = x.Args
		}
	case *hclsyntax.BinaryOpExpr:
		xs = []hclsyntax.Expression{x.LHS, x.RHS}
	case *hclsyntax.TupleConsExpr:
		xs = x.Exprs
	case *hclsyntax.ObjectConsExpr:
		for _, i := range x.Items {
			xs = append(xs, i.ValueExpr)
		}
	case *hclsyntax.TemplateExpr:
		xs = x.Parts
	}
	var ids []int
	for _, x := range xs {
		if c, ok := x.(*hclsyntax.FunctionCallExpr); ok && c.Name == "probe" {
			text := string(c.Range().SliceBytes(src))
			if m := callRE.FindAllStringSubmatch(text, -1); len(m) == 1 && strings.HasPrefix(text, m[0][0]) {
				id, _ := strconv.Atoi(m[0][1])
				ids = append(ids, id)
			}
		}
	}
	return ids
}

func (d *p17doc) read(c *caller, body hcl.Body, schema *hcl.BodySchema, p *parts, chunk int) {
	put := func(k int, f string, a ...interface{}) { p.of[k] += fmt.Sprintf(f, a...) + "\n" }
	content, _, diags := body.PartialContent(schema)
	p.diags = append(p.diags, diags...)
	for _, g := range diags {
		put(d.chunk(g.Subject), "diag %s", canonDiag(g))
	}
	for _, a := range sortedAttrs(content.Attributes) {
		k := d.chunk(&a.NameRange)
		c.cur = k
		v, diags := a.Expr.Value(c.ctx)
		c.cur = -1
		p.diags = append(p.diags, diags...)
		put(k, "%s = %s %s", a.Name, canonVal(v), canonDiags(diags))
		if d.name == "a.hcl" {
			p.elems = append(p.elems, elements(fmt.Sprintf("%s at %s", a.Name, canonRange(&a.Range)), a.Expr, v)...)
		}
	}
	for _, b := range content.Blocks {
		k := d.chunk(&b.DefRange)
		put(k, "%s %q", b.Type, b.Labels)
		d.read(c, b.Body, innerSchema(b.Type), p, k)
		put(k, "end")
	}
}

type failingWalker struct {
	c     *caller
	trace []string
	gave  []string
}

func (w *failingWalker) step(what string, n hclsyntax.Node) hcl.Diagnostics {
	rng := n.Range()
	w.trace = append(w.trace, fmt.Sprintf("%s %T %s", what, n, canonRange(&rng)))
	if err := w.c.call(0, 1); err != nil {
		w.gave = append(w.gave, err.Error())
		return hcl.Diagnostics{{Severity: hcl.DiagError, Summary: "Walker", Detail: err.Error()}}
	}
	return nil
}

func (w *failingWalker) Enter(n hclsyntax.Node) hcl.Diagnostics { return w.step("enter", n) }
func (w *failingWalker) Exit(n hclsyntax.Node) hcl.Diagnostics  { return w.step("exit", n) }

func (d *p17doc) do(op harness.Op, variant int, c *caller, cf *conf, o *harness.Outcome) *parts {
	p := &parts{of: map[int]string{}, names: map[string]string{}}
	c.seen = map[int]bool{}
	p.seen = c.seen
	body := cf.body
	if op.A&1 == 1 {
		body = dynblock.Expand(body, c.ctx)
	}
	switch op.K {
	case "read":
		d.read(c, body, rootSchema(), p, -1)
		p.all = fmt.Sprint(p.of)
	case "decode":
		spec := mkSpec(variant).(hcldec.ObjectSpec)
		tf := function.New(&function.Spec{
			Params: []function.Parameter{{Name: "v", Type: cty.String, AllowNull: true, AllowUnknown: true, AllowDynamicType: true}},
			Type:   function.StaticReturnType(cty.String),
			Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
				if err := c.call(funcID, 1); err != nil {
					return cty.NilVal, err
				}
				return args[0], nil
			},
		})
		spec["upd"].(*hcldec.TransformFuncSpec).Func = tf
		tx := spec["txp"].(*hcldec.TransformExprSpec)
		tx.Expr = parseX(fmt.Sprintf("[probe(%d, val), 1]", exprID))
		tx.TransformCtx = c.ctx
		v, diags := hcldec.Decode(body, spec, c.ctx)
		p.diags = diags
		if v.Type().IsObjectType() && v.IsKnown() && !v.IsNull() {
			for name := range v.Type().AttributeTypes() {
				p.names[name] = canonVal(v.GetAttr(name))
			}
		}
		p.all = canonVal(v) + canonDiags(diags)
	case "go":
		var v gRoot
		diags := gohcl.DecodeBody(body, c.ctx, &v)
		p.diags = diags
		str := func(name string, v interface{}) { p.names[name] = fmt.Sprintf("%#v", v) }
		if v.S1 != nil {
			str("s1", *v.S1)
		}
		if v.N1 != nil {
			str("n1", *v.N1)
		}
		str("b1", v.B1)
		str("l1", v.L1)
		str("m1", v.M1)
		p.all = fmt.Sprint(p.names) + canonDiags(diags)
	case "walk":
		b, ok := cf.body.(*hclsyntax.Body)
		if !ok {
			break
		}
		w := &failingWalker{c: c}
		var diags hcl.Diagnostics
		if op.A&2 == 0 {
			diags = hclsyntax.Walk(b, w)
		} else {
			diags = hclsyntax.VisitAll(b, func(n hclsyntax.Node) hcl.Diagnostics { return w.step("visit", n) })
		}
		var got []string
		for _, g := range diags {
			got = append(got, g.Detail)
		}
		if a, b := strings.Join(w.gave, "\n"), strings.Join(got, "\n"); a != b {
			o.Fail("walk-lost", "the walker reported %q, the caller got %q", a, b)
		}
		p.names["trace"] = strings.Join(w.trace, "\n")
		p.all = p.names["trace"]
	}
	return p
}

// dependsOn tells which attributes of the configuration a part of the decoded
// object comes from.
func dependsOn(name string) []string {
	switch name {
	case "any":
		return []string{"any1", "any2"}
	case "upd":
		return []string{"s1"}
	case "txp":
		return []string{"n1"}
	case "s1", "s2", "n1", "b1", "l1", "l2", "m1":
		return []string{name}
	case "lit", "xpr", "trace":
		return nil
	}
	return []string{"*"}
}

// judge compares a disturbed result with the undisturbed one.
func (d *p17doc) judge(op harness.Op, c *caller, ref, got *parts, o *harness.Outcome) {
	if len(c.fired) == 0 {
		if ref.all != got.all {
			o.Fail("differs", "%s gives another result although nothing failed: %s", op.K, diffText(ref.all, got.all))
		}
		return
	}
	hit := map[int]bool{}
	unknown := false
	special := map[string]bool{}
	for _, f := range c.fired {
		o.Faults = append(o.Faults, "call/"+f.kind)
		switch {
		case f.kind == "context":
			hit[f.cur] = true
			unknown = unknown || f.cur < 0
		case f.id == funcID:
			special["upd"] = true
		case f.id == exprID:
			special["txp"] = true
		case op.K != "walk":
			k, ok := d.where[f.id]
			if !ok {
				unknown = true
			}
			hit[k] = true
		}
	}
	if op.K == "walk" {
		if ref.all != got.all {
			o.Fail("walk", "the walk goes another way after a failure: %s", diffText(ref.all, got.all))
		}
		return
	}
	// other parts
	if !unknown {
		for k := range d.starts {
			if !hit[k] && ref.of[k] != got.of[k] {
				o.Fail("others", "the result of another part differs: %s", diffText(ref.of[k], got.of[k]))
				return
			}
		}
		for _, name := range sortedKeys(ref.names) {
			touched := special[name]
			for _, a := range dependsOn(name) {
				k, ok := d.attr[a]
				touched = touched || a == "*" || ok && hit[k]
			}
			if !touched && ref.names[name] != got.names[name] {
				o.Fail("others", "%s: the value of %s differs: %s", op.K, name, diffText(ref.names[name], got.names[name]))
				return
			}
		}
	}
	if len(d.at) > 0 && !unknown && len(ref.elems) == len(got.elems) {
	Elems:
		for i, e := range ref.elems {
			for _, f := range c.fired {
				rng := d.at[f.id]
				for _, r := range append([]hcl.Range{e.rng}, e.keys...) {
					if f.kind == "context" || rng.Overlaps(r) {
						continue Elems
					}
				}
			}
			if e.val != got.elems[i].val {
				o.Fail("elements", "%s is %s although the failure is elsewhere: %s", e.name, e.val, got.elems[i].val)
				return
			}
		}
	}
	for _, g := range d.groups {
		var had, now []int
		for _, id := range g {
			if ref.seen[id] {
				had = append(had, id)
				if got.seen[id] {
					now = append(now, id)
				}
			}
		}
		if len(had) == len(g) {
			if len(now) > 0 && len(now) < len(g) {
				o.Fail("siblings", "%s: of the calls %d next to each other, only %d are evaluated after a failure", op.K, g, now)
				return
			}
			o.Tag("siblings")
		}
	}
	// the failing calls
	for _, f := range c.fired {
		if f.kind == "context" || f.id == funcID || f.id == exprID {
			// what a branch that is not taken does has no effect
			branches := f.kind == "context" && (strings.Contains(d.src, "?") || strings.Contains(d.src, "%{ if"))
			if !got.diags.HasErrors() && ref.all != got.all && !branches {
				o.Fail("silent", "%s: no error for a failure (%s)", op.K, f.kind)
				return
			}
			continue
		}
		if op.K == "go" {
			continue
		}
		var mine *hcl.Diagnostic
		for _, g := range got.diags {
			if g.Severity == hcl.DiagError && strings.Contains(g.Detail, f.msg) {
				mine = g
			}
		}
		if mine == nil {
			if op.K == "read" && !d.maybe[f.id] && d.direct[f.id] {
				o.Fail("lost", "there is no error for the failing call %d (%s)", f.id, f.msg)
				return
			}
			continue
		}
		if mine.Subject == nil {
			o.Fail("nowhere", "the error for the failing call %d has no place: %s", f.id, canonDiag(mine))
			return
		}
		if k := d.chunk(mine.Subject); k != d.where[f.id] {
			o.Fail("misplaced", "the error for the failing call %d is reported at %s", f.id, canonRange(mine.Subject))
			return
		}
		rng, ok := d.at[f.id]
		if s := mine.Subject; ok && (s.Start.Byte < rng.Start.Byte || s.End.Byte > rng.End.Byte) {
			o.Fail("misplaced", "the error for the failing call %d at %s is reported at %s", f.id, canonRange(&rng), canonRange(s))
			return
		}
	}
	// each part that a failure hit; there is no effect if the result of the
	// call was not used
	isAttr := map[int]bool{}
	for _, k := range d.attr {
		isAttr[k] = true
	}
	effect := func(k int) bool {
		if ref.of[k] != got.of[k] {
			return true
		}
		for name := range ref.names {
			for _, a := range dependsOn(name) {
				j, ok := d.attr[a]
				if (ok && j == k || a == "*" && !isAttr[k]) && ref.names[name] != got.names[name] {
					return true
				}
			}
		}
		return false
	}
	known := map[string]bool{}
	for _, g := range ref.diags {
		known[canonDiag(g)] = true
	}
	for _, f := range c.fired {
		if op.K == "walk" || f.kind == "context" || f.id == funcID || f.id == exprID {
			continue
		}
		k := d.where[f.id]
		if d.maybe[f.id] || !effect(k) {
			continue
		}
		// hcldec reads some blocks twice, once for their place only
		errs := false
		for _, g := range got.diags {
			errs = errs || op.K != "read" && !isAttr[k] && g.Severity == hcl.DiagError && !known[canonDiag(g)]
			errs = errs || g.Severity == hcl.DiagError && d.chunk(g.Subject) == k
		}
		if !errs {
			o.Fail("silent", "%s: call %d failed (%s) and no error is reported for it\n%s", op.K, f.id, f.kind, got.all)
			return
		}
	}
}

func diffText(a, b string) string {
	x, y := firstDiff(a, b)
	return fmt.Sprintf("%s / %s", x, y)
}

func runP17(sc *harness.Scenario, o *harness.Outcome, p *harness.Property) {
	if sc.Kind == "model" {
		runP17model(sc, o, p)
		return
	}
	o.Sig = simrt.Mix(o.Sig, sc.Docs[0].Text()+fmt.Sprint(sc.Tasks))
	variant := int(sc.N["variant"])
	var f *hcl.File
	var funcs *hcl.File
	var d *p17doc
	var cf, solo *conf
	o.Alone(p, "load", nil, func() {
		f, _ = parseDoc(sc.Docs[0])
		d = newP17doc(sc.Docs[0], f)
		funcs, _ = hclsyntax.ParseConfig([]byte(viaText), "funcs.hcl", start)
		cf = load(sc.Kind, sc.Docs)
		solo = load(sc.Kind, sc.Docs)
	})
	if o.Violation != "" || cf.diags.HasErrors() {
		return
	}
	o.Note("%s: %q", d.name, d.src)
	refs := make([][]*parts, len(sc.Tasks))
	calls := make([]int, len(sc.Tasks))
	o.Alone(p, "reference", nil, func() {
		for t, ops := range sc.Tasks {
			c := newCaller(t, funcs.Body)
			for _, op := range ops {
				if op.K != "fail" && op.K != "norules" {
					refs[t] = append(refs[t], d.do(op, variant, c, solo, o))
				}
			}
			calls[t] = c.calls
		}
	})
	if o.Violation != "" {
		return
	}
	var specs []simrt.Spec
	for t, ops := range sc.Tasks {
		t, ops := t, ops
		specs = append(specs, simrt.Spec{Name: fmt.Sprintf("caller%d", t), Fn: func() {
			c := newCaller(t, funcs.Body)
			c.plan = map[int]harness.Op{}
			for _, op := range ops {
				if op.K == "fail" && calls[t] > 0 {
					c.plan[op.A%calls[t]] = op
				}
				if op.K == "norules" {
					c.nores = 1 + op.A
				}
			}
			for round := 0; round < 2; round++ {
				i := 0
				for _, op := range ops {
					if op.K == "fail" || op.K == "norules" {
						continue
					}
					c.fired = nil
					got := d.do(op, variant, c, cf, o)
					for _, f := range c.fired {
						o.Note("caller%d: %s: call %d fails (%s %s)", t, op.K, f.id, f.kind, f.msg)
						o.Nontrivial = true
					}
					d.judge(op, c, refs[t][i], got, o)
					i++
				}
				// from here on everything works
				c.plan, c.from, c.nores = nil, nil, 0
			}
		}})
	}
	o.Sim(sc, p, specs)
}

func init() {
	p := &harness.Property{
		ID:        "P17",
		QuickRuns: 30000, QuickSecs: 45, ThoroughRuns: 1500000, ThoroughSecs: 700,
		Rule: "nontrivial: at least one call failed; distinct: different documents, operations, failing calls or schedules",
		Real: []string{"hcl, hcl/hclsyntax, hcl/json, hclpack, hcldec, gohcl, ext/dynblock, ext/userfunc"},
		Stub: []string{"application functions, walkers and function contexts that fail on plan"},
		Gen:  genP17,
	}
	p.Run = func(sc *harness.Scenario, o *harness.Outcome) { runP17(sc, o, p) }
	harness.Register(p)
}
