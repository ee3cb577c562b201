// Package props holds the workloads and oracles of the properties.
package props

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"github.com/zclconf/go-cty/cty/function/stdlib"

	"verifsim/simrt"
)

type rnd = simrt.Rand

// xgen generates native-syntax expressions over the variables of evalCtx.
type xgen struct {
	r *rnd
	// bad is the chance (in percent) of an erroneous construct.
	bad int
	// each-style iterators in scope
	iters []string // names of iterator objects with .key/.value
	locs  []string // string-valued loop variables
	objs  []string // object-valued loop variables (like elements of objs)
	// noNL forbids line breaks (outside of brackets they end the item)
	noNL bool
	// knownOnly leaves out variables that may be unknown
	knownOnly bool
	// funcs that fail can be generated
	fail bool
	// user functions of the shared scope can be called
	user bool
	// watched numbers the calls of probe functions put around expressions
	watched int
}

// watch puts a call of a probe function around some expressions.
func (g *xgen) watch(x string) string {
	if g.watched == 0 || !g.r.P(1, 5) {
		return x
	}
	g.watched++
	return fmt.Sprintf(g.pick("probe(%d, %s)", "probe(%d, %s)", "probe(%d, [%s]...)", "probe([%d, %s]...)", "probe(%d, %s, \"more\", n)",
		"probe(%d, %s, list...)", "via(%d, %s)", "via(%d, [%s]...)", "far(%d, %s)"), g.watched, x)
}

func (g *xgen) pick(ss ...string) string { return ss[g.r.N(len(ss))] }

func (g *xgen) isBad() bool { return g.bad > 0 && g.r.N(100) < g.bad }

var badExprs = []string{
	"nosuchvar", "nane", "obj.nope", "list[99]", `tags["absent"]`, `upper(1, 2)`, `uper(name)`, `"x" + 1`, `!name`, `1 / 0`,
	`objs[0].nope`, `[for x in n : x]`, `{for x in list : "same" => x}`, `[1, 2]["k"]`, `name.attr`, `null + 1`, `-list`, `n ? 1 : 2`,
	`flag ? [1] : {a = 1}`, `length(n)`, `local.missing.deep`, `"${list}"`, `missing()`, `lenght(list)`, `obj["zz"]`, `tgas`, `Name`,
	`{(null) = 1}`, `{(list) = 1}`, `list.foo`, `objs.*.nope`, `objs[*].nope.more`, `max(1, nums)`, `join(list)`, `lower(null)`,
	`flag ? ["a", {}] : [nosuchvar]`, `flag ? { a = "x", b = {} } : { c = nosuchvar }`, `flag ? [missing()] : [n, [name, {}], list[99]]`, `[n, nosuchvar, {}]`, `tolist([n, nosuchvar, {}])`, `tolist([n, {}])`, `{ a = 1, b = missing(), c = [] }`,
	`[for x in list : x if null]`, `[for x in list : x if [x]]`, `{for x in list : x => x if null}`, `{for x in list : x => x if [x]}`, `{for x in list : [x] => x}`, `{for x in list : null => x}`, `[for x in null : x]`,
	`[for k, v in tags : v if k == "a" ? null : true]`, `{for k, v in tags : v => k if [v]}`, `{for k, v in tags : [v] => k}`, `{for k, v in tags : null => k}`,
	`{ obj.id = 1 }`, `{ (obj) = 2 }`, `null[0]`, `list[null]`, `list[0.5]`, `tags[null]`, `list[obj]`, `obj[null]`, `obj[list]`, `null.a`, `[null][0].x`, `n[0]`, `list.9`, `objs[*][9]`, `objs.*.id.x`,
	`"a%{ for x in [null, name, {}] }${x}%{ endfor }b"`, `"%{ if null }a%{ endif }"`, `"%{ if list }a%{ endif }${null}"`, `null ? 1 : 2`, `[] ? 1 : 2`, `max(null...)`, `max(n...)`, `max(list...)`, `max(1, list...)`, `-null`, `!null`, `null && true`, `name > 1`, `obj + list`,
}

func (g *xgen) str(d int) string { return g.watch(g.str1(d)) }

func (g *xgen) str1(d int) string {
	if g.isBad() {
		return badExprs[g.r.N(len(badExprs))]
	}
	if d <= 0 {
		switch g.r.N(6) {
		case 0:
			return fmt.Sprintf("%q", g.pick("a", "bc", "δ", "x y", "", "q-1"))
		case 1:
			if len(g.locs) > 0 {
				return g.locs[g.r.N(len(g.locs))]
			}
			return "name"
		case 2:
			return "region"
		case 3:
			return g.pick(`tags["k1"]`, `tags.k2`, `tags["k3"]`)
		case 4:
			return g.pick("obj.a", `obj["a"]`, "obj.c.d", `local.svc.id`)
		default:
			return "name"
		}
	}
	switch g.r.N(16) {
	case 0:
		return "upper(" + g.str(d-1) + ")"
	case 1:
		return "lower(" + g.str(d-1) + ")"
	case 2, 3:
		return `"` + g.tmpl(d-1) + `"`
	case 4:
		return "join(" + g.str(0) + ", " + g.list(d-1) + ")"
	case 5:
		return g.boolean(d-1) + " ? " + g.str(d-1) + " : " + g.str(d-1)
	case 6:
		return g.list(d-1) + g.pick("[0]", "[0]", "[n]", "[1]")
	case 7:
		return "(" + g.str(d-1) + ")"
	case 8:
		return g.pick("objs[0].id", "objs[1].id", "objs.0.id", `objs[0]["id"]`, "objs[n - 1].id")
	case 9:
		if len(g.objs) > 0 {
			return g.objs[g.r.N(len(g.objs))] + ".id"
		}
		return "coalesce(" + g.str(d-1) + ", " + g.str(d-1) + ")"
	case 10:
		if len(g.iters) > 0 {
			return g.iters[g.r.N(len(g.iters))] + g.pick(".key", ".value")
		}
		return g.mapv(d-1) + g.pick(`["k1"]`, ".k1")
	case 11:
		return "fmt(" + g.str(d-1) + ", " + g.list(d-1) + "...)"
	case 12:
		return `"${` + g.str(d-1) + `}"`
	case 13:
		if g.user {
			return g.pick("greet(", "twice(", "twice(") + g.str(d-1) + ")"
		}
		return "reverse(" + g.str(d-1) + ")"
	case 14:
		if g.fail {
			return "flaky(" + g.str(d-1) + ")"
		}
		return "upper(" + g.str(d-1) + ")"
	default:
		return g.str(0)
	}
}

func (g *xgen) tmpl(d int) string {
	var b strings.Builder
	n := g.r.Range(1, 3)
	for i := 0; i < n; i++ {
		switch g.r.N(7) {
		case 0:
			b.WriteString(g.pick("lit", " sp ", "ünï", "$${x}", "%%{y}", "a\\tb", "q\\\"r", "\\u00e9", "\\U0001f600", ""))
		case 1, 2:
			b.WriteString("${" + g.str(d-1) + "}")
		case 3:
			b.WriteString("${" + g.pick("~ ", "") + g.num(d-1) + g.pick(" ~", "") + "} ")
		case 4:
			b.WriteString("%{ if " + g.boolean(d-1) + " }" + g.tmplLit() + "%{ else }" + g.tmplLit() + "${" + g.str(d-1) + "}%{ endif }")
		case 5:
			g.locs = append(g.locs, "tv")
			over := g.list(d - 1)
			if g.r.P(1, 4) {
				over = g.mapv(d - 1)
			}
			b.WriteString("%{ for " + g.pick("", "", "ti, ") + "tv in " + over + " }" + g.pick("<", "") + "${" + g.str(d-1) + "}%{ endfor }")
			g.locs = g.locs[:len(g.locs)-1]
		case 6:
			b.WriteString("${" + g.boolean(d-1) + "}")
		}
	}
	return b.String()
}

func (g *xgen) tmplLit() string { return g.pick("yes", "no", "", "é") }

func (g *xgen) num(d int) string { return g.watch(g.num1(d)) }

func (g *xgen) num1(d int) string {
	if g.isBad() {
		return badExprs[g.r.N(len(badExprs))]
	}
	if d <= 0 {
		return g.pick("1", "2", "3.5", "n", "m", "0", "12", "obj.b", "nums[0]", "nums[1]", "1e3")
	}
	switch g.r.N(10) {
	case 0, 1, 2:
		return g.num(d-1) + " " + g.pick("+", "-", "*", "+") + " " + g.num(d-1)
	case 3:
		return g.num(d-1) + g.pick(" / 2", " % 3", " / 4")
	case 4:
		return "-" + g.num(0)
	case 5:
		return "length(" + g.list(d-1) + ")"
	case 6:
		return "max(" + g.num(d-1) + ", " + g.pick("nums...", "n", g.num(d-1), "m, 4, n, "+g.num(d-1)+", 6", "1, 2, nums...") + ")"
	case 7:
		return "(" + g.boolean(d-1) + " ? " + g.num(d-1) + " : " + g.num(d-1) + ")"
	case 8:
		return "(" + g.num(d-1) + ")"
	default:
		return g.num(0)
	}
}

func (g *xgen) boolean(d int) string { return g.watch(g.boolean1(d)) }

func (g *xgen) boolean1(d int) string {
	if g.isBad() {
		return badExprs[g.r.N(len(badExprs))]
	}
	if d <= 0 {
		return g.pick("true", "false", "flag", "!flag", "n > m", "n == 1")
	}
	switch g.r.N(8) {
	case 0:
		return g.num(d-1) + " " + g.pick("<", ">", "<=", ">=", "==", "!=") + " " + g.num(d-1)
	case 1:
		return g.str(d-1) + " " + g.pick("==", "!=") + " " + g.str(d-1)
	case 2:
		return "(" + g.boolean(d-1) + " " + g.pick("&&", "||") + " " + g.boolean(d-1) + ")"
	case 3:
		return "!(" + g.boolean(d-1) + ")"
	case 4:
		return "(" + g.boolean(d-1) + ")"
	case 5:
		return "length(" + g.list(d-1) + ") > 0"
	case 6:
		return g.list(d-1) + " == " + g.list(d-1)
	default:
		return g.boolean(0)
	}
}

// list of strings
func (g *xgen) list(d int) string { return g.watch(g.list1(d)) }

func (g *xgen) list1(d int) string {
	if g.isBad() {
		return badExprs[g.r.N(len(badExprs))]
	}
	if d <= 0 {
		return g.pick("list", `["u", "v"]`, "objs[*].id", "objs.*.id", "list", "[name]", `["k1"]`)
	}
	if g.r.P(1, 12) {
		// a longer one
		s := "[" + g.str(d-1)
		for i := g.r.Range(2, 7); i > 0; i-- {
			s += ", " + g.str(g.r.N(d))
		}
		return s + g.pick("]", ",]")
	}
	switch g.r.N(12) {
	case 0:
		return "[" + g.str(d-1) + ", " + g.str(d-1) + "]"
	case 1:
		s := "[for x in " + g.list(d-1) + " : "
		g.locs = append(g.locs, "x")
		s += g.str(d - 1)
		if g.r.Bool() {
			s += " if " + g.boolean(d-1)
		}
		g.locs = g.locs[:len(g.locs)-1]
		return s + "]"
	case 2:
		if g.r.P(1, 3) {
			// the values only
			s := "[for x in " + g.mapv(d-1) + " : "
			g.locs = append(g.locs, "x")
			s += g.str(d - 1)
			g.locs = g.locs[:len(g.locs)-1]
			return s + "]"
		}
		s := "[for k, v in " + g.mapv(d-1) + " : "
		g.locs = append(g.locs, "k", "v")
		s += g.str(d - 1)
		g.locs = g.locs[:len(g.locs)-2]
		return s + "]"
	case 3:
		return "objs" + g.pick("[*].id", ".*.id", "[*].meta.zone", ".*.meta.zone", "[*].tags[0]")
	case 4:
		s := "[for o in " + g.objlist(d-1) + " : "
		g.objs = append(g.objs, "o")
		s += g.str(d - 1)
		g.objs = g.objs[:len(g.objs)-1]
		return s + "]"
	case 5:
		return "concat(" + g.list(d-1) + ", " + g.list(d-1) + ")"
	case 6:
		return g.boolean(d-1) + " ? " + g.list(d-1) + " : " + g.list(d-1)
	case 7:
		return "split(\",\", " + g.str(d-1) + ")"
	case 8:
		if g.r.Bool() {
			return "tolist(" + g.list(d-1) + ")"
		}
		return "(" + g.list(d-1) + ")"
	case 9:
		return g.pick("single[*]", "uniq[*]", "[for x in uniq : x]") // splat of a non-list value, sets
	case 10:
		return g.objlist(d-1) + "[*].id"
	default:
		return g.list(0)
	}
}

func (g *xgen) objlist(d int) string {
	if d <= 0 {
		return g.pick("objs", "objs", "[objs[0], objs[1]]")
	}
	switch g.r.N(4) {
	case 0:
		return "[for oo in objs : oo if oo.id != " + g.str(0) + "]"
	case 1:
		return "[{ id = " + g.str(d-1) + ", tags = list, meta = { zone = " + g.str(d-1) + " } }]"
	default:
		return "objs"
	}
}

// mapping from strings to strings
func (g *xgen) mapv(d int) string { return g.watch(g.mapv1(d)) }

func (g *xgen) mapv1(d int) string {
	if g.isBad() {
		return badExprs[g.r.N(len(badExprs))]
	}
	if d <= 0 {
		return g.pick("tags", `{ k1 = "v1" }`, `{ k1 = name, "k2" = region }`, "tags")
	}
	if g.r.P(1, 7) {
		// a longer one, in any order
		s := "{ k1 = " + g.str(d-1)
		for _, i := range g.r.Perm(8)[:g.r.Range(2, 7)] {
			s += ", " + []string{"zz", "k2", "a", `"k4"`, `("k5")`, "x_y", `"p q"`, `"${name}-b"`}[i] + g.pick(" = ", " : ") + g.str(g.r.N(d))
		}
		return s + g.pick(" }", ", }")
	}
	switch g.r.N(8) {
	case 0:
		return "{ k1 = " + g.str(d-1) + ", k2 = " + g.str(d-1) + " }"
	case 1:
		return "{ k1 = " + g.str(d-1) + ", (upper(" + g.str(0) + ")) = " + g.str(d-1) + " }"
	case 2:
		s := "{ for k, v in " + g.mapv(d-1) + " : k => "
		g.locs = append(g.locs, "v", "k")
		s += g.str(d - 1)
		if g.r.P(1, 3) {
			s += " if " + g.boolean(d-1)
		}
		g.locs = g.locs[:len(g.locs)-2]
		return s + " }"
	case 3:
		return "{ k1 = " + g.str(d-1) + ", \"k-${name}\" : " + g.str(d-1) + " }"
	case 4:
		return "(" + g.mapv(d-1) + ")"
	case 5:
		return g.boolean(d-1) + " ? " + g.mapv(d-1) + " : " + g.mapv(d-1)
	default:
		return g.mapv(0)
	}
}

// any expression
func (g *xgen) any(d int) string {
	switch g.r.N(9) {
	case 0, 1, 2:
		return g.str(d)
	case 3:
		return g.num(d)
	case 4:
		return g.boolean(d)
	case 5, 6:
		return g.list(d)
	case 7:
		return g.mapv(d)
	default:
		// grouping for expression: values are tuples
		return "{ for o in " + g.objlist(d-1) + " : o.meta.zone => o.id... }"
	}
}

// evalCtx builds the variables and functions of one reader. Different numbers
// give different values of the same shape.
func evalCtx(n int, unknowns bool, fns map[string]function.Function) *hcl.EvalContext {
	vars := evalVars(n, unknowns)
	return &hcl.EvalContext{Variables: vars, Functions: fns}
}

func evalVars(n int, unknowns bool) map[string]cty.Value {
	s := func(x string) cty.Value { return cty.StringVal(fmt.Sprintf("%s%d", x, n)) }
	obj := func(k int) cty.Value {
		return cty.ObjectVal(map[string]cty.Value{
			"id":   s(fmt.Sprintf("id%d-", k)),
			"tags": cty.ListVal([]cty.Value{s("t"), s("u")}),
			"meta": cty.ObjectVal(map[string]cty.Value{"zone": s(fmt.Sprintf("z%d-", k%2))}),
		})
	}
	var objs, list []cty.Value
	for k := 0; k < 2+n%3; k++ {
		objs = append(objs, obj(k))
		list = append(list, s(fmt.Sprintf("l%d-", k)))
	}
	vars := map[string]cty.Value{
		"name":   s("name"),
		"region": s("region"),
		"n":      cty.NumberIntVal(int64(1)),
		"m":      cty.NumberIntVal(int64(n * 7)),
		"flag":   cty.BoolVal(n%2 == 0),
		"list":   cty.ListVal(list),
		"nums":   cty.ListVal([]cty.Value{cty.NumberIntVal(int64(n)), cty.NumberIntVal(5), cty.NumberFloatVal(2.5)}),
		"tags": cty.MapVal(map[string]cty.Value{
			"k1": s("k1v"), "k2": s("k2v"), "k3": s("k3v"),
		}),
		"objs":   cty.ListVal(objs),
		"single": s("single"),
		"uniq":   cty.SetVal([]cty.Value{s("q"), s("r"), s("p"), s("name")}),
		"obj": cty.ObjectVal(map[string]cty.Value{
			"a": s("oa"), "b": cty.NumberIntVal(int64(n + 2)), "c": cty.ObjectVal(map[string]cty.Value{"d": s("ocd")}),
		}),
		"local": cty.ObjectVal(map[string]cty.Value{"svc": cty.ObjectVal(map[string]cty.Value{"id": s("svc")})}),
	}
	if unknowns {
		switch n % 4 {
		case 1:
			vars["region"] = cty.UnknownVal(cty.String)
		case 2:
			vars["list"] = cty.UnknownVal(cty.List(cty.String))
		case 3:
			vars["single"] = cty.DynamicVal
		}
	}
	return vars
}

// fmtFunc takes a string and any number of further strings.
func fmtFunc() function.Function {
	return function.New(&function.Spec{
		Params:   []function.Parameter{{Name: "first", Type: cty.String}},
		VarParam: &function.Parameter{Name: "rest", Type: cty.String},
		Type:     function.StaticReturnType(cty.String),
		Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
			out := ""
			for _, a := range args {
				out += a.AsString() + "/"
			}
			return cty.StringVal(out), nil
		},
	})
}

func joinFunc() function.Function {
	return function.New(&function.Spec{
		Params: []function.Parameter{{Name: "sep", Type: cty.String}, {Name: "list", Type: cty.List(cty.String)}},
		Type:   function.StaticReturnType(cty.String),
		Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
			var ss []string
			for it := args[1].ElementIterator(); it.Next(); {
				_, v := it.Element()
				if v.IsNull() {
					return cty.NilVal, function.NewArgErrorf(1, "null element")
				}
				if !v.IsKnown() {
					return cty.UnknownVal(cty.String), nil
				}
				ss = append(ss, v.AsString())
			}
			return cty.StringVal(strings.Join(ss, args[0].AsString())), nil
		},
	})
}

func tolistFunc() function.Function {
	return function.New(&function.Spec{
		Params: []function.Parameter{{Name: "list", Type: cty.List(cty.DynamicPseudoType)}},
		Type:   func(args []cty.Value) (cty.Type, error) { return args[0].Type(), nil },
		Impl:   func(args []cty.Value, t cty.Type) (cty.Value, error) { return args[0], nil },
	})
}

func splitFunc() function.Function {
	return function.New(&function.Spec{
		Params: []function.Parameter{{Name: "sep", Type: cty.String}, {Name: "s", Type: cty.String}},
		Type:   function.StaticReturnType(cty.List(cty.String)),
		Impl: func(args []cty.Value, t cty.Type) (cty.Value, error) {
			var vs []cty.Value
			for _, p := range strings.Split(args[1].AsString(), args[0].AsString()) {
				vs = append(vs, cty.StringVal(p))
			}
			if len(vs) == 0 {
				return cty.ListValEmpty(cty.String), nil
			}
			return cty.ListVal(vs), nil
		},
	})
}

func stdFuncs() map[string]function.Function {
	return map[string]function.Function{
		"upper":    stdlib.UpperFunc,
		"lower":    stdlib.LowerFunc,
		"length":   stdlib.LengthFunc,
		"concat":   stdlib.ConcatFunc,
		"max":      stdlib.MaxFunc,
		"coalesce": stdlib.CoalesceFunc,
		"reverse":  stdlib.ReverseFunc,
		"join":     joinFunc(),
		"split":    splitFunc(),
		"tolist":   tolistFunc(),
		"fmt":      fmtFunc(),
	}
}
