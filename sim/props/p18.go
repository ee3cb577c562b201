package props

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"

	"verifsim/harness"
	"verifsim/simrt"
)

// P18: configuration is evaluated again and again while the values it needs
// arrive, by several readers that see the arrivals at different times. What
// was known once must not change.

// ---- expressions that are of interest with unknown operands

// A branch of a conditional that fails and is not taken has no type, so where
// the types of the branches differ they are such that keep their type.

func (g *refgen) lateNum(d int, sc rscope) string {
	n := func() string { return g.num(d-1, sc) }
	switch g.r.N(9) {
	case 0:
		return "(" + n() + " " + g.r.Pick([]string{"-", "*", "/", "%"}) + " " + n() + ")"
	case 1:
		return "uadd(" + n() + ", " + n() + ")"
	case 2:
		return "usum([" + n() + "], " + n() + ", " + n() + ")"
	case 3:
		if x, ok := g.free(sc, ""); ok {
			return x + "[" + g.boolean(d-1, sc) + ` ? "n" : "value"]`
		}
	case 4:
		if x, ok := g.free(sc, ".l"); ok {
			return x + "[" + g.boolean(d-1, sc) + " ? 0 : 1]"
		}
	case 5:
		return "[" + n() + ", " + n() + "][" + g.boolean(d-1, sc) + " ? 0 : 1]"
	case 6:
		return "{ (" + g.boolean(d-1, sc) + ` ? "k" : "j") = ` + n() + `, "${` + g.str(0, sc) + `}x" = 1 }.k`
	case 7:
		return "(" + g.boolean(d-1, sc) + " ? " + n() + " + 0 : null)"
	case 8:
		return "(" + g.boolean(d-1, sc) + ` ? "12" : ` + n() + ") + 0"
	}
	return n()
}

func (g *refgen) lateStr(d int, sc rscope) string {
	s := func() string { return g.str(d-1, sc) }
	switch g.r.N(8) {
	case 0:
		if x, ok := g.ref(sc, "mp", ""); ok {
			return x + "[" + g.boolean(d-1, sc) + ` ? "k" : "j"]`
		}
	case 1:
		return "uif(" + g.boolean(d-1, sc) + ", " + s() + ", " + s() + ")"
	case 2:
		// an interpolation alone keeps the type of its value
		if g.r.Bool() {
			return `"${` + s() + `}"`
		}
		return `"${` + g.num(d-1, sc) + `}."`
	case 3:
		return `"%{ for k, v in ` + g.mapv(d-1, sc) + ` }${k}-%{ endfor }"`
	case 4:
		return `"x%{ if ` + g.boolean(d-1, sc) + ` }${` + s() + `}%{ endif }"`
	case 5:
		return "(" + g.boolean(d-1, sc) + ` ? "${` + s() + `}x" : ` + g.num(d-1, sc) + ")"
	case 6:
		return "(" + g.boolean(d-1, sc) + ` ? null : "${` + s() + `}x")`
	case 7:
		return `"%{ if ` + g.boolean(d-1, sc) + ` ~} ${` + s() + `} %{ else ~} no %{ endif ~}"`
	}
	return s()
}

func (g *refgen) lateBool(d int, sc rscope) string {
	switch g.r.N(6) {
	case 0:
		return "(" + g.num(d-1, sc) + " " + g.r.Pick([]string{"==", "!=", "<", "<=", ">="}) + " " + g.num(d-1, sc) + ")"
	case 1:
		return "(" + g.boolean(d-1, sc) + " || " + g.boolean(d-1, sc) + ")"
	case 2:
		return "(" + g.str(d-1, sc) + " " + g.r.Pick([]string{"==", "!="}) + " null)"
	case 3:
		return "([" + g.num(d-1, sc) + ", " + g.num(d-1, sc) + "] == [" + g.num(d-1, sc) + ", " + g.num(d-1, sc) + "])"
	case 4: // objects with unknown attributes are compared in map order by go-cty
		if x, ok := g.free(sc, ".l"); ok {
			if y, ok := g.free(sc, ".l"); ok {
				return "(" + x + " == " + y + ")"
			}
		}
	case 5:
		return "(" + g.boolean(d-1, sc) + " ? " + g.boolean(d-1, sc) + ` : "true")`
	}
	return g.boolean(d-1, sc)
}

// lateList gives lists made of a set, and conditionals whose branches have the
// same type.
func (g *refgen) lateList(d int, sc rscope) string {
	// a value that is no list is treated as one with that value, or as an
	// empty one if it is null
	switch k := g.r.N(8); {
	case !g.upgrade:
	case k == 0:
		if x, ok := g.free(sc, ""); ok {
			return x + g.r.Pick([]string{".*.n", "[*].n"})
		}
	case k == 1:
		if x, ok := g.free(sc, ".n"); ok {
			return x + "[*]"
		}
	}
	b := g.boolean(d-1, sc)
	if x, ok := g.ref(sc, "sv", ""); ok && g.r.Bool() {
		v := g.name()
		switch in := sc.with(v, "n"); g.r.N(3) {
		case 0:
			return "[for " + v + " in " + x + " : " + g.num(d-1, in) + "]"
		case 1:
			return "[for " + v + " in " + x + " : " + g.num(d-1, in) + " if " + g.boolean(d-1, in) + "]"
		}
		return x + "[*]"
	}
	if x, ok := g.free(sc, ".l"); ok && g.r.Bool() {
		if y, ok := g.ref(sc, "lst", ""); ok {
			return "(" + b + " ? " + x + " : " + y + ")"
		}
	}
	return "(" + b + " ? [" + g.num(d-1, sc) + "] : [" + g.num(d-1, sc) + "])"
}

func (g *refgen) lateMap(d int, sc rscope) string {
	v, w := g.name(), g.name()
	if v == w {
		w = "l2"
	}
	cond := func(in rscope) string {
		if g.r.P(2, 3) {
			return " if " + g.boolean(d-1, in)
		}
		return ""
	}
	switch g.r.N(4) {
	case 0:
		if x, ok := g.ref(sc, "mp", ""); ok {
			in := sc.with(v, "s", w, "s")
			return "{for " + v + ", " + w + " in " + x + " : " + v + " => " + g.str(d-1, in) + cond(in) + "}"
		}
	case 1:
		coll := g.list(d-1, sc)
		in := sc.with(v, "n", w, "n")
		return "{for " + v + ", " + w + " in " + coll + ` : "${` + v + `}k" => ` + g.str(d-1, in) + cond(in) + "}"
	case 2:
		coll := g.objects(d-1, sc)
		in := sc.with(v, "o")
		return "{for " + v + " in " + coll + " : " + v + ".s => " + g.num(d-1, in) + cond(in) + "}"
	case 3:
		coll := g.list(d-1, sc)
		in := sc.with(v, "n")
		return "{for " + v + " in " + coll + ` : "g${` + v + ` > 3}" => ` + g.num(d-1, in) + "..." + cond(in) + "}"
	}
	return "{}"
}

// noDefaults takes the defaults and labels out that give a block in the place
// of blocks that are not known yet something known.
func (b *rbody) noDefaults() {
	for _, a := range b.attrs {
		if a.wrap == 2 {
			a.wrap = 0
		}
	}
	for _, bl := range b.blocks {
		if bl.kind == "list" || bl.kind == "tuple" {
			bl.labels = 0
		}
		bl.body.noDefaults()
	}
}

const lateFuncs = `
function "uadd" {
  params = [a, b]
  result = a + b
}
function "usum" {
  params         = [a]
  variadic_param = more
  result         = a[0] + more[0]
}
function "uif" {
  params = [c, a, b]
  result = c ? a : b
}
`

// ---- values that arrive

const lateLevels = 4

// lateVars gives the values in the end.
func lateVars(r *rnd, nulls bool) map[string]cty.Value {
	vars := refVars()
	vars["sv"] = cty.SetVal([]cty.Value{cty.NumberIntVal(2), cty.NumberIntVal(5), cty.NumberIntVal(int64(r.N(9)))})
	for _, name := range sortedKeys(vars) {
		if r.P(1, 3) {
			vars[name] = lateVary(vars[name], r, nulls)
		}
	}
	return vars
}

func lateVary(v cty.Value, r *rnd, nulls bool) cty.Value {
	ty := v.Type()
	switch {
	case nulls && r.P(1, 10):
		return cty.NullVal(ty)
	case ty == cty.Bool:
		return cty.BoolVal(r.Bool())
	case ty == cty.Number:
		return cty.NumberIntVal(int64(r.N(5)) - 1)
	case ty == cty.String:
		return cty.StringVal(r.Pick([]string{"", "k", "n", "s", "12", "long text", "é"}))
	case ty.IsListType():
		n := r.N(4)
		if n == 0 {
			return cty.ListValEmpty(ty.ElementType())
		}
		var out []cty.Value
		have := v.AsValueSlice()
		for i := 0; i < n; i++ {
			out = append(out, lateVary(have[i%len(have)], r, nulls))
		}
		return cty.ListVal(out)
	case ty.IsMapType():
		out := map[string]cty.Value{}
		for k, e := range v.AsValueMap() {
			out[k] = e
		}
		for _, k := range sortedKeys(out) {
			if r.P(1, 4) {
				delete(out, k)
			}
		}
		if r.P(1, 4) {
			out["x"] = cty.StringVal("xv")
		}
		if len(out) == 0 {
			return cty.MapValEmpty(ty.ElementType())
		}
		return cty.MapVal(out)
	case ty.IsObjectType():
		out := map[string]cty.Value{}
		have := v.AsValueMap()
		for _, k := range sortedKeys(have) {
			out[k] = have[k]
			if r.P(1, 4) {
				out[k] = lateVary(have[k], r, nulls)
			}
		}
		return cty.ObjectVal(out)
	}
	return v
}

// lateView is what is known of a value at a level. The parts of a value come
// later than the value itself; its type is known some time before, or not.
func lateView(v cty.Value, level, from int, h uint64, types bool) cty.Value {
	r := simrt.NewRand(h)
	at := from + r.N(lateLevels+1-from)
	if from > 0 && r.P(1, 3) {
		at = from
	}
	if at > level {
		if types && r.P(1, 4) && at-level > 1 {
			return cty.DynamicVal
		}
		return cty.UnknownVal(v.Type())
	}
	if v.IsNull() {
		return v
	}
	ty := v.Type()
	sub := func(e cty.Value, what string, types bool) cty.Value {
		return lateView(e, level, at, simrt.Mix(h, what), types)
	}
	switch {
	case ty.IsListType() && v.LengthInt() > 0:
		var out []cty.Value
		for i, e := range v.AsValueSlice() {
			out = append(out, sub(e, fmt.Sprint(i), false))
		}
		return cty.ListVal(out)
	case ty.IsMapType() && v.LengthInt() > 0:
		out := map[string]cty.Value{}
		for k, e := range v.AsValueMap() {
			out[k] = sub(e, k, false)
		}
		return cty.MapVal(out)
	case ty.IsObjectType():
		out := map[string]cty.Value{}
		for k, e := range v.AsValueMap() {
			out[k] = sub(e, k, types && at == 0) // else its type was known before
		}
		return cty.ObjectVal(out)
	}
	return v
}

// ---- what a later result may be

// typeHolds tells whether a type reported early holds for a later one. In
// between, the type of something that is not known yet may be open again.
func typeHolds(early, late cty.Type, mid bool) bool {
	switch {
	case early == cty.DynamicPseudoType, mid && late == cty.DynamicPseudoType:
		return true
	case early.IsObjectType() && late.IsObjectType():
		a, b := early.AttributeTypes(), late.AttributeTypes()
		if len(a) != len(b) {
			return false
		}
		for k, t := range a {
			if u, ok := b[k]; !ok || !typeHolds(t, u, mid) {
				return false
			}
		}
		return true
	case early.IsTupleType() && late.IsTupleType():
		a, b := early.TupleElementTypes(), late.TupleElementTypes()
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !typeHolds(a[i], b[i], mid) {
				return false
			}
		}
		return true
	case early.IsListType() && late.IsListType(), early.IsMapType() && late.IsMapType(), early.IsSetType() && late.IsSetType():
		return typeHolds(early.ElementType(), late.ElementType(), mid)
	}
	return early.Equals(late)
}

// lateRel compares an earlier with a later result; loose if the number of
// blocks may not have been known, mid if there may be still later ones.
type lateRel struct{ loose, mid bool }

func (rel lateRel) holds(early, late cty.Value) string {
	if !rel.loose && !typeHolds(early.Type(), late.Type(), rel.mid) {
		return fmt.Sprintf("type %s became %s", canonType(early.Type()), canonType(late.Type()))
	}
	if !early.IsKnown() {
		return ""
	}
	if !late.IsKnown() {
		return fmt.Sprintf("%s became unknown", canonVal(early))
	}
	if early.IsNull() || late.IsNull() {
		if early.IsNull() != late.IsNull() {
			return fmt.Sprintf("%s became %s", canonVal(early), canonVal(late))
		}
		return ""
	}
	et, lt := early.Type(), late.Type()
	switch {
	case et.IsObjectType() || et.IsMapType():
		if et.IsObjectType() != lt.IsObjectType() {
			return fmt.Sprintf("%s became %s", canonVal(early), canonVal(late))
		}
		a, b := early.AsValueMap(), late.AsValueMap()
		if len(a) != len(b) {
			return fmt.Sprintf("%s became %s", canonVal(early), canonVal(late))
		}
		for _, k := range sortedKeys(a) {
			if _, ok := b[k]; !ok {
				return fmt.Sprintf("%q is gone from %s", k, canonVal(late))
			}
			if s := rel.holds(a[k], b[k]); s != "" {
				return fmt.Sprintf("%s: %s", k, s)
			}
		}
	case et.IsSetType():
		if !lt.IsSetType() {
			return fmt.Sprintf("%s became %s", canonVal(early), canonVal(late))
		}
		for _, e := range early.AsValueSlice() {
			if rel.loose && !hollow(e) {
				found := false
				for _, l := range late.AsValueSlice() {
					found = found || rel.holds(e, l) == ""
				}
				if found {
					continue
				}
			}
			if e.IsWhollyKnown() && !(rel.loose && hollow(e)) && !late.HasElement(e).True() {
				return fmt.Sprintf("%s is gone from %s", canonVal(e), canonVal(late))
			}
		}
		if !rel.loose && late.LengthInt() > early.LengthInt() {
			return fmt.Sprintf("%s became %s", canonVal(early), canonVal(late))
		}
	case et.IsTupleType() || et.IsListType():
		if et.IsTupleType() != lt.IsTupleType() {
			return fmt.Sprintf("%s became %s", canonVal(early), canonVal(late))
		}
		a, b := early.AsValueSlice(), late.AsValueSlice()
		if rel.loose {
			if !rel.align(a, b, map[[2]int]bool{}) {
				return fmt.Sprintf("%s became %s", canonVal(early), canonVal(late))
			}
			return ""
		}
		if len(a) != len(b) {
			return fmt.Sprintf("%s became %s", canonVal(early), canonVal(late))
		}
		for i := range a {
			if s := rel.holds(a[i], b[i]); s != "" {
				return fmt.Sprintf("%d: %s", i, s)
			}
		}
	default:
		if !early.RawEquals(late) {
			return fmt.Sprintf("%s became %s", canonVal(early), canonVal(late))
		}
	}
	return ""
}

// align matches the blocks of an earlier with those of a later result. A
// block with nothing known in it may stand for any number of blocks.
func (rel lateRel) align(a, b []cty.Value, seen map[[2]int]bool) bool {
	k := [2]int{len(a), len(b)}
	if seen[k] {
		return false
	}
	seen[k] = true
	if len(a) == 0 {
		return len(b) == 0
	}
	if hollow(a[0]) {
		if rel.align(a[1:], b, seen) || len(b) > 0 && rel.align(a, b[1:], seen) {
			return true
		}
	}
	return len(b) > 0 && rel.holds(a[0], b[0]) == "" && rel.align(a[1:], b[1:], seen)
}

func hollow(v cty.Value) bool {
	if !v.IsKnown() || v.IsNull() {
		return true
	}
	ty := v.Type()
	if ty.IsPrimitiveType() {
		return false
	}
	if !v.CanIterateElements() {
		return true
	}
	for it := v.ElementIterator(); it.Next(); {
		if _, e := it.Element(); !hollow(e) {
			return false
		}
	}
	return true
}

// ---- the check

func genP18(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{"late": 1}, S: map[string]string{}}
	sc.Kind = r.Pick([]string{"expr", "expr", "expr", "native", "native", "json", "merged", "pack", "dyn", "dyn", "dynjson", "dynmerged"})
	sc.N["x"] = int64(r.N(1 << 30))
	sc.N["v"] = int64(r.N(1 << 30))
	sc.N["depth"] = int64(r.Range(1, 4))
	sc.N["types"] = int64(r.N(2))
	// splats of values that are no lists; with nulls in the end, too
	if r.P(1, 4) {
		sc.N["upgrade"] = 1
		if r.P(1, 20) {
			sc.N["upgrade"] = 2
		}
	}
	names := len(refVars()) + 1
	for t := 0; t < 1+r.N(3); t++ {
		var ops []harness.Op
		if t == 0 {
			for n := r.Range(1, 6); n > 0; n-- {
				ops = append(ops, harness.Op{K: "have", A: r.N(2), C: r.N(1 << 20)})
			}
		}
		if r.P(1, 3) { // this one already knows a lot
			ops = append(ops, harness.Op{K: "arrive", A: r.N(names), B: r.N(lateLevels), C: r.N(names)})
		}
		for n := r.Range(2, 10); n > 0; n-- {
			op := harness.Op{K: r.Pick([]string{"arrive", "arrive", "eval", "eval", "eval", "look"}), A: r.N(names), B: 1 + r.N(2), C: r.N(3)}
			ops = append(ops, op)
		}
		sc.Tasks = append(sc.Tasks, append(ops, harness.Op{K: "eval"}))
	}
	sc.Pol = genPolicy(r, 8000)
	return sc
}

// used wraps a body and notes which expressions are evaluated. The content of
// a dynamic block over a collection that turns out to be empty is not, although
// it was as long as there could be blocks.
type used struct {
	hcl.Body
	at *[]hcl.Range
}

type usedExpr struct {
	hcl.Expression
	at *[]hcl.Range
}

func (e usedExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
	*e.at = append(*e.at, e.Range())
	return e.Expression.Value(ctx)
}

func (e usedExpr) UnwrapExpression() hcl.Expression {
	*e.at = append(*e.at, e.Range())
	return e.Expression
}

func (b used) attrs(in hcl.Attributes) hcl.Attributes {
	out := hcl.Attributes{}
	for n, a := range in {
		w := *a
		w.Expr = usedExpr{a.Expr, b.at}
		out[n] = &w
	}
	return out
}

func (b used) content(in *hcl.BodyContent) *hcl.BodyContent {
	if in == nil {
		return nil
	}
	out := *in
	out.Attributes = b.attrs(in.Attributes)
	out.Blocks = nil
	for _, bl := range in.Blocks {
		w := *bl
		w.Body = used{bl.Body, b.at}
		out.Blocks = append(out.Blocks, &w)
	}
	return &out
}

func (b used) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnostics) {
	c, diags := b.Body.Content(schema)
	return b.content(c), diags
}

func (b used) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
	c, rest, diags := b.Body.PartialContent(schema)
	return b.content(c), used{rest, b.at}, diags
}

func (b used) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
	attrs, diags := b.Body.JustAttributes()
	return b.attrs(attrs), diags
}

// pieces is a body that is read piecewise: what is asked for is taken in two
// steps, the second one from what the first one leaves.
type pieces struct{ hcl.Body }

func (b pieces) half(schema *hcl.BodySchema) (first, second *hcl.BodySchema) {
	first, second = &hcl.BodySchema{}, &hcl.BodySchema{}
	for i, a := range schema.Attributes {
		to := []*hcl.BodySchema{second, first}[i%2]
		to.Attributes = append(to.Attributes, a)
	}
	for i, bl := range schema.Blocks {
		to := []*hcl.BodySchema{second, first}[i%2]
		to.Blocks = append(to.Blocks, bl)
	}
	return
}

func (b pieces) join(one, two *hcl.BodyContent) *hcl.BodyContent {
	out := &hcl.BodyContent{Attributes: hcl.Attributes{}, MissingItemRange: one.MissingItemRange}
	for _, c := range []*hcl.BodyContent{one, two} {
		for n, a := range c.Attributes {
			out.Attributes[n] = a
		}
		for _, bl := range c.Blocks {
			w := *bl
			w.Body = pieces{bl.Body}
			out.Blocks = append(out.Blocks, &w)
		}
	}
	return out
}

func (b pieces) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnostics) {
	first, second := b.half(schema)
	one, rest, diags := b.Body.PartialContent(first)
	two, more := rest.Content(second)
	return b.join(one, two), append(diags, more...)
}

func (b pieces) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
	first, second := b.half(schema)
	one, rest, diags := b.Body.PartialContent(first)
	two, rest, more := rest.PartialContent(second)
	return b.join(one, two), pieces{rest}, append(diags, more...)
}

func (b pieces) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
	_, rest, diags := b.Body.PartialContent(&hcl.BodySchema{})
	attrs, more := rest.JustAttributes()
	return attrs, append(diags, more...)
}

func within(s *hcl.Range, all []hcl.Range) bool {
	for _, r := range all {
		if s != nil && s.Filename == r.Filename && r.Start.Byte <= s.Start.Byte && s.End.Byte <= r.End.Byte {
			return true
		}
	}
	return false
}

func (c *refconf) value(how int, ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
	switch {
	case c.expr != nil && how == 1:
		var v cty.Value
		diags := gohcl.DecodeExpression(c.expr, ctx, &v)
		return v, diags
	case c.expr != nil:
		return c.expr.Value(ctx)
	}
	body := c.body
	if strings.HasPrefix(c.kind, "dyn") {
		body = dynblock.Expand(body, ctx)
	}
	if how == 1 {
		body = pieces{body}
	}
	return hcldec.Decode(body, c.spec, ctx)
}

func runP18(sc *harness.Scenario, o *harness.Outcome, p *harness.Property) {
	var c *refconf
	var diags, finalDiags hcl.Diagnostics
	var final cty.Value
	vars := lateVars(simrt.NewRand(uint64(sc.N["v"])), sc.N["upgrade"] != 1)
	names := sortedKeys(vars)
	fns := stdFuncs()
	var roots map[string]bool
	var inTheEnd []hcl.Range
	o.Alone(p, "load", nil, func() {
		if c, diags = buildRef(sc); diags.HasErrors() {
			return
		}
		f, _ := hclsyntax.ParseConfig([]byte(lateFuncs), "funcs.hcl", start)
		more, _, _ := userfunc.DecodeUserFunctions(f.Body, "function", func() *hcl.EvalContext {
			return &hcl.EvalContext{}
		})
		for k, v := range more {
			fns[k] = v
		}
		final, finalDiags = c.value(0, &hcl.EvalContext{Variables: vars, Functions: fns})
		if strings.HasPrefix(sc.Kind, "dyn") {
			w := *c
			w.body = used{c.body, &inTheEnd}
			w.value(0, &hcl.EvalContext{Variables: vars, Functions: fns})
		}
		roots = map[string]bool{}
		for _, t := range c.list() {
			roots[t.RootName()] = true
		}
	})
	if o.Violation != "" {
		return
	}
	for _, name := range sortedKeys(c.src) {
		o.Note("%s: %q", name, c.src[name])
		o.Sig = simrt.Mix(o.Sig, c.src[name])
	}
	o.Sig = simrt.Mix(o.Sig, fmt.Sprint(sc.N["v"], sc.Tasks))
	if diags.HasErrors() {
		o.Fail("generator", "a generated configuration is not valid: %s", diags)
		return
	}
	o.Tag(sc.Kind)
	o.Note("in the end: %s %s", canonVal(final), canonDiags(finalDiags))
	if !finalDiags.HasErrors() {
		o.Tag("success")
		if !final.IsWhollyKnown() {
			o.Fail("unknown-end", "with every value known the result is %s", canonVal(final))
			return
		}
	}
	rel := lateRel{loose: strings.HasPrefix(sc.Kind, "dyn")}
	level := map[string]int{} // of everything that has arrived
	if !strings.HasPrefix(sc.Kind, "expr") {
		if t := hcldec.ImpliedType(c.spec); !finalDiags.HasErrors() && !rel.loose && !typeHolds(t, final.Type(), false) {
			o.Fail("type", "the specification promises %s, the result is %s", canonType(t), canonType(final.Type()))
			return
		}
	}
	var specs []simrt.Spec
	for t, ops := range sc.Tasks {
		t, ops := t, ops
		specs = append(specs, simrt.Spec{Name: fmt.Sprintf("reader%d", t), Fn: func() {
			ctx := &hcl.EvalContext{Variables: map[string]cty.Value{}, Functions: fns}
			whole := false
			look := func(fresh bool) {
				if fresh {
					ctx = &hcl.EvalContext{Variables: map[string]cty.Value{}, Functions: fns}
				}
				whole = true
				for _, n := range names {
					v := lateView(vars[n], level[n], 0, simrt.Mix(uint64(sc.N["v"]), n), sc.N["types"] == 1)
					if roots[n] && !v.IsWhollyKnown() {
						whole = false
					}
					ctx.Variables[n] = v
				}
			}
			look(true)
			prev := cty.DynamicVal
			for _, op := range ops {
				if o.Violation != "" {
					return
				}
				switch op.K {
				case "arrive":
					// values arrive together
					for i := 0; i <= op.C; i++ {
						n := names[(op.A+i*5)%len(names)]
						if level[n] += op.B; level[n] > lateLevels {
							level[n] = lateLevels
						}
					}
					o.Faults = append(o.Faults, "values-delayed")
				case "look":
					look(op.C == 0)
				case "eval":
					if op.C != 0 {
						look(op.C == 1)
					}
					v, diags := c.value(op.B, ctx)
					if !whole {
						o.Nontrivial = true
						o.Tag("early")
					}
					switch {
					case diags.HasErrors() && !finalDiags.HasErrors():
						if rel.loose {
							known := false
							for _, d := range diags {
								known = known || d.Severity == hcl.DiagError && within(d.Subject, inTheEnd)
							}
							if !known {
								o.Tag("no-block")
								continue
							}
						}
						o.Fail("error", "an error before everything was known, but not after it: %s", canonDiags(diags))
					case !diags.HasErrors() && whole && (canonVal(v) != canonVal(final) || finalDiags.HasErrors()):
						o.Fail("whole", "all references are known and the result is %s, instead of %s %s", canonVal(v), canonVal(final), canonDiags(finalDiags))
					case !diags.HasErrors():
						if s := (lateRel{rel.loose, true}).holds(prev, v); s != "" {
							o.Fail("changed", "an earlier result was contradicted: %s", s)
						} else if finalDiags.HasErrors() {
						} else if s := rel.holds(v, final); s != "" {
							o.Fail("changed", "a result was contradicted in the end: %s", s)
						}
						prev = v
					}
				}
			}
		}})
	}
	o.Sim(sc, p, specs)
	if o.Key == "changed" && sc.N["upgrade"] == 2 {
		o.Key = "splat-of-null"
	}
}

func init() {
	p := &harness.Property{
		ID:        "P18",
		QuickRuns: 160000, QuickSecs: 45, ThoroughRuns: 3000000, ThoroughSecs: 700,
		Rule: "nontrivial: an evaluation while a value that is referred to was not known; distinct: different configurations, values, arrivals or schedules",
		Real: []string{"hcl, hcl/hclsyntax, hcl/json, hclpack, hcldec, ext/dynblock, ext/userfunc, gohcl"},
		Stub: []string{"the application that delivers values"},
		Gen:  genP18,
	}
	p.Run = func(sc *harness.Scenario, o *harness.Outcome) { runP18(sc, o, p) }
	harness.Register(p)
}
