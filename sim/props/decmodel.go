package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"verifsim/simrt"
)

// This file is an independent model of what hcldec's specification language
// means: it generates a specification, a configuration and variables together
// with the value they denote, without using any code of the repository.

// Model values: nil, string, bool, *big.Rat, []interface{} (ordered),
// mset (unordered, without duplicates), map[string]interface{}.
type mset []interface{}

// mexpr is an expression in both syntaxes with what it denotes.
type mexpr struct {
	nat, js string
	val     interface{}
	typ     interface{} // in the notation of --with-type
	refs    []string
}

type decCase struct {
	r       *rnd
	size    int
	flaw    string
	applied bool // the flaw was worked in
	names   int
	vars    map[string]interface{}
	vtypes  map[string]interface{}
	user    bool
	// A known finding: a block_map with two labels and no blocks has the type
	// of one level only. Such inputs are made on request only.
	emptyOK, empty bool
	// plain uses names that are identifiers only and no values of type any.
	plain bool
	hide  int // within a part of which only the length counts
}

func rat(i int64) *big.Rat { return new(big.Rat).SetInt64(i) }

func (c *decCase) name(p string) string {
	c.names++
	return fmt.Sprintf("%s%d", p, c.names)
}

var strPieces = []struct{ nat, js, val string }{
	{"abc", "abc", "abc"}, {" ", " ", " "}, {`\"q\"`, `\"q\"`, `"q"`}, {`\n`, `\n`, "\n"}, {`\\`, `\\`, `\`},
	{"é", "é", "é"}, {`\u00fc`, `\u00fc`, "ü"}, {"$${x}", "$${x}", "${x}"}, {"%%{y}", "%%{y}", "%{y}"}, {"<&>", "<&>", "<&>"}, {"#", "#", "#"}, {"日本", "日本", "日本"}, {"$5 100%", "$5 100%", "$5 100%"},
}

func (c *decCase) strLit() mexpr {
	var n, j, v string
	for i := c.r.Range(0, 3); i > 0; i-- {
		p := strPieces[c.r.N(len(strPieces))]
		n += p.nat
		j += p.js
		v += p.val
	}
	return mexpr{`"` + n + `"`, `"` + j + `"`, v, "string", nil}
}

// interp wraps a native expression for the JSON syntax.
func interp(nat string) string {
	b, _ := json.Marshal("${" + nat + "}")
	return string(b)
}

func (c *decCase) useVar(path string, val, typ interface{}) mexpr {
	return mexpr{path, interp(path), val, typ, []string{path}}
}

func ratText(r *big.Rat) string {
	if r.IsInt() {
		return r.Num().String()
	}
	s := r.FloatString(30)
	return strings.TrimRight(s, "0")
}

func (c *decCase) number() mexpr {
	r := c.r
	lit := func(v *big.Rat) mexpr {
		s := ratText(v)
		return mexpr{s, s, v, "number", nil}
	}
	switch r.N(8) {
	case 0:
		return c.useVar("v_n", c.vars["v_n"], "number")
	case 1:
		return c.useVar("v_o.b", c.vars["v_o"].(map[string]interface{})["b"], "number")
	case 2:
		k := int64(r.Range(-3, 9))
		n := fmt.Sprintf("v_n * %d + 1", k)
		if k < 0 {
			n = fmt.Sprintf("v_n * (%d) + 1", k)
		}
		v := new(big.Rat).Mul(c.vars["v_n"].(*big.Rat), rat(k))
		return mexpr{n, interp(n), v.Add(v, rat(1)), "number", []string{"v_n"}}
	case 3:
		v, _ := new(big.Rat).SetString([]string{"0.5", "3.25", "0.1", "1234567.875", "12.0625"}[r.N(5)])
		return lit(v)
	case 4:
		v, _ := new(big.Rat).SetString([]string{"9007199254740993", "12345678901234567890", "18446744073709551615", "100000000000000000001", "4294967296"}[r.N(5)])
		return lit(v)
	case 5:
		i := r.N(len(c.vars["v_l"].([]interface{})))
		return c.useVar(fmt.Sprintf("v_l[%d]", i), c.vars["v_l"].([]interface{})[i], "number")
	default:
		return lit(rat(int64(r.Range(0, 100000))))
	}
}

func (c *decCase) boolean() mexpr {
	switch c.r.N(5) {
	case 0:
		return c.useVar("v_b", c.vars["v_b"], "bool")
	case 1:
		return mexpr{"!v_b", interp("!v_b"), !c.vars["v_b"].(bool), "bool", []string{"v_b"}}
	case 2:
		k := int64(c.r.N(40))
		n := fmt.Sprintf("v_n > %d", k)
		return mexpr{n, interp(n), c.vars["v_n"].(*big.Rat).Cmp(rat(k)) > 0, "bool", []string{"v_n"}}
	case 3:
		return mexpr{"true", "true", true, "bool", nil}
	}
	return mexpr{"false", "false", false, "bool", nil}
}

func (c *decCase) str() mexpr {
	r := c.r
	switch r.N(9) {
	case 0:
		return c.useVar("v_s", c.vars["v_s"], "string")
	case 1:
		return c.useVar("v_o.a", c.vars["v_o"].(map[string]interface{})["a"], "string")
	case 2:
		n := `"<${v_s}>"`
		return mexpr{n, n, "<" + c.vars["v_s"].(string) + ">", "string", []string{"v_s"}}
	case 3:
		n := `"n=${v_n} b=${v_b}"`
		return mexpr{n, n, fmt.Sprintf("n=%s b=%v", ratText(c.vars["v_n"].(*big.Rat)), c.vars["v_b"]), "string", []string{"v_n", "v_b"}}
	case 4:
		n := `v_b ? "yes" : "no"`
		v := "no"
		if c.vars["v_b"].(bool) {
			v = "yes"
		}
		return mexpr{n, interp(n), v, "string", []string{"v_b"}}
	case 5:
		if c.user {
			n := `dup("ab")`
			return mexpr{n, interp(n), "abab", "string", nil}
		}
	case 6:
		if c.user {
			n := `up(v_s)`
			return mexpr{n, interp(n), strings.ToUpper(c.vars["v_s"].(string)), "string", []string{"v_s"}}
		}
	}
	return c.strLit()
}

func seq(es []mexpr, open, clos string) (string, string) {
	var n, j []string
	for _, e := range es {
		n = append(n, e.nat)
		j = append(j, e.js)
	}
	return open + strings.Join(n, ", ") + clos, open + strings.Join(j, ", ") + clos
}

func (c *decCase) tuple(elem func() mexpr, min int) mexpr {
	var es []mexpr
	out := mexpr{typ: []interface{}{"tuple", []interface{}{}}}
	vals := []interface{}{}
	types := []interface{}{}
	for i := c.r.Range(min, 3); i > 0; i-- {
		e := elem()
		es = append(es, e)
		vals = append(vals, e.val)
		types = append(types, e.typ)
		out.refs = append(out.refs, e.refs...)
	}
	out.nat, out.js = seq(es, "[", "]")
	out.val, out.typ = vals, []interface{}{"tuple", types}
	return out
}

func (c *decCase) object(keys []string, elem func(k string) mexpr) mexpr {
	out := mexpr{}
	vals := map[string]interface{}{}
	types := map[string]interface{}{}
	var n, j []string
	for _, k := range keys {
		e := elem(k)
		n = append(n, k+" = "+e.nat)
		j = append(j, fmt.Sprintf("%q: %s", k, e.js))
		vals[k] = e.val
		types[k] = e.typ
		out.refs = append(out.refs, e.refs...)
	}
	out.nat = "{" + strings.Join(n, ", ") + "}"
	out.js = "{" + strings.Join(j, ", ") + "}"
	out.val, out.typ = vals, []interface{}{"object", types}
	return out
}

func (c *decCase) someKeys() []string {
	var ks []string
	for i := c.r.Range(0, 3); i > 0; i-- {
		ks = append(ks, fmt.Sprintf("k%d", i))
	}
	return ks
}

// types of attributes: how they are written, and an expression for a value
// together with the converted value.
type mtype struct {
	src  string
	note interface{}
	gen  func(c *decCase) mexpr
	bad  string // a value that cannot be converted
}

func withNum(c *decCase) mexpr { return c.number() }

var mtypes = []mtype{
	{"string", "string", func(c *decCase) mexpr {
		if c.r.P(1, 6) { // converted
			e := c.boolean()
			if e.nat == "true" || e.nat == "false" {
				e.val = e.nat
				return e
			}
			return mexpr{"42", "42", "42", nil, nil}
		}
		return c.str()
	}, `["a"]`},
	{"number", "number", func(c *decCase) mexpr {
		if c.r.P(1, 6) {
			return mexpr{`"17.5"`, `"17.5"`, new(big.Rat).SetFloat64(17.5), nil, nil}
		}
		return c.number()
	}, `"abc"`},
	{"bool", "bool", func(c *decCase) mexpr {
		if c.r.P(1, 6) {
			return mexpr{`"true"`, `"true"`, true, nil, nil}
		}
		return c.boolean()
	}, `"maybe"`},
	{"list(string)", []interface{}{"list", "string"}, func(c *decCase) mexpr { return c.tuple(c.str, 0) }, `"abc"`},
	{"list(number)", []interface{}{"list", "number"}, func(c *decCase) mexpr {
		if c.r.P(1, 5) {
			n := "[for x in v_l: x + 1]"
			vals := []interface{}{}
			for _, v := range c.vars["v_l"].([]interface{}) {
				vals = append(vals, new(big.Rat).Add(v.(*big.Rat), rat(1)))
			}
			return mexpr{n, interp(n), vals, nil, []string{"v_l"}}
		}
		return c.tuple(c.number, 0)
	}, `["abc"]`},
	{"set(string)", []interface{}{"set", "string"}, func(c *decCase) mexpr {
		e := c.tuple(c.str, 0)
		e.val = toSet(e.val.([]interface{}))
		return e
	}, `5`},
	{"map(string)", []interface{}{"map", "string"}, func(c *decCase) mexpr {
		return c.object(c.someKeys(), func(string) mexpr { return c.str() })
	}, `"abc"`},
	{"map(number)", []interface{}{"map", "number"}, func(c *decCase) mexpr {
		return c.object(c.someKeys(), func(string) mexpr { return c.number() })
	}, `["abc"]`},
	{"object({a = string, b = number})", []interface{}{"object", map[string]interface{}{"a": "string", "b": "number"}}, func(c *decCase) mexpr {
		return c.object([]string{"a", "b"}, func(k string) mexpr {
			if k == "a" {
				return c.str()
			}
			return c.number()
		})
	}, `5`},
	{"tuple([string, number])", []interface{}{"tuple", []interface{}{"string", "number"}}, func(c *decCase) mexpr {
		i := 0
		var es []mexpr
		for ; i < 2; i++ {
			if i == 0 {
				es = append(es, c.str())
			} else {
				es = append(es, c.number())
			}
		}
		n, j := seq(es, "[", "]")
		return mexpr{n, j, []interface{}{es[0].val, es[1].val}, nil, append(append([]string{}, es[0].refs...), es[1].refs...)}
	}, `"abc"`},
	{"list(list(string))", []interface{}{"list", []interface{}{"list", "string"}}, func(c *decCase) mexpr {
		return c.tuple(func() mexpr { return c.tuple(c.str, 0) }, 0)
	}, `["abc"]`},
}

func (c *decCase) anyValue(depth int) mexpr {
	switch c.r.N(6) {
	case 0:
		return c.number()
	case 1:
		return c.boolean()
	case 2:
		if depth > 0 {
			return c.tuple(func() mexpr { return c.anyValue(depth - 1) }, 0)
		}
	case 3:
		if depth > 0 {
			return c.object(c.someKeys(), func(string) mexpr { return c.anyValue(depth - 1) })
		}
	case 4:
		return mexpr{"null", "null", nil, "dynamic", nil}
	}
	return c.str()
}

func toSet(vs []interface{}) mset {
	var out mset
	seen := map[string]bool{}
	for _, v := range vs {
		k := canonM(v)
		if !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	return out
}

// canonM renders a model value canonically (sets sorted).
func canonM(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case string:
		b, _ := json.Marshal(v)
		return string(b)
	case bool:
		return fmt.Sprint(v)
	case *big.Rat:
		return v.RatString()
	case []interface{}:
		var s []string
		for _, e := range v {
			s = append(s, canonM(e))
		}
		return "[" + strings.Join(s, ",") + "]"
	case mset:
		var s []string
		for _, e := range v {
			s = append(s, canonM(e))
		}
		sort.Strings(s)
		return "set[" + strings.Join(s, ",") + "]"
	case map[string]interface{}:
		var ks, s []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s = append(s, fmt.Sprintf("%q:%s", k, canonM(v[k])))
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	panic(fmt.Sprintf("model value %T", v))
}

// stripNulls removes null properties, as the command does.
func stripNulls(v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		out := []interface{}{}
		for _, e := range v {
			out = append(out, stripNulls(e))
		}
		return out
	case mset:
		out := mset{}
		for _, e := range v {
			out = append(out, stripNulls(e))
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range v {
			if e != nil {
				out[k] = stripNulls(e)
			}
		}
		return out
	}
	return v
}

// matchJSON compares a JSON text (decoded with exact numbers) with a model
// value.
func matchJSON(got interface{}, want interface{}, path string) string {
	bad := func() string {
		b, _ := json.Marshal(got)
		return fmt.Sprintf("at %s: got %s, want %s", path, b, canonM(want))
	}
	switch w := want.(type) {
	case nil:
		if got != nil {
			return bad()
		}
	case string:
		if g, ok := got.(string); !ok || g != w {
			return bad()
		}
	case bool:
		if g, ok := got.(bool); !ok || g != w {
			return bad()
		}
	case *big.Rat:
		g, ok := got.(json.Number)
		if !ok {
			return bad()
		}
		r, ok := new(big.Rat).SetString(string(g))
		if !ok || r.Cmp(w) != 0 {
			return bad()
		}
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return bad()
		}
		for i := range w {
			if s := matchJSON(g[i], w[i], fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
	case mset:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return bad()
		}
		used := make([]bool, len(g))
	next:
		for _, e := range w {
			for i := range g {
				if !used[i] && matchJSON(g[i], e, path) == "" {
					used[i] = true
					continue next
				}
			}
			return bad()
		}
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok || len(g) != len(w) {
			return bad()
		}
		var ks []string
		for k := range w {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			e, ok := g[k]
			if !ok {
				return bad()
			}
			if s := matchJSON(e, w[k], path+"."+k); s != "" {
				return s
			}
		}
	}
	return ""
}

func decodeJSON(b []byte) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("text after the JSON value")
	}
	return v, nil
}

// A configuration body in the making: items in order, each in both syntaxes.
type mitem struct {
	nat    string
	name   string // attribute name or block type
	js     string // attribute value, or block body with its labels around it
	block  bool
	refs   []string
	labels []string
}

type mbody struct{ items []mitem }

func (b *mbody) native(indent string) string {
	var s strings.Builder
	for _, it := range b.items {
		for _, l := range strings.SplitAfter(it.nat, "\n") {
			if strings.TrimSpace(l) != "" {
				s.WriteString(indent + l)
			}
		}
	}
	return s.String()
}

// json renders the body as a JSON object; blocks of one type make an array.
func (b *mbody) json() string {
	var parts []string
	done := map[string]bool{}
	for _, it := range b.items {
		if !it.block {
			parts = append(parts, fmt.Sprintf("%q: %s", it.name, it.js))
			continue
		}
		if done[it.name] {
			continue
		}
		done[it.name] = true
		var bs []string
		for _, o := range b.items {
			if o.block && o.name == it.name {
				bs = append(bs, o.js)
			}
		}
		if len(bs) == 1 {
			parts = append(parts, fmt.Sprintf("%q: %s", it.name, bs[0]))
		} else {
			parts = append(parts, fmt.Sprintf("%q: [%s]", it.name, strings.Join(bs, ", ")))
		}
	}
	return "{" + strings.Join(parts, ",\n") + "}"
}

func (b *mbody) attr(name string, e mexpr) {
	b.items = append(b.items, mitem{nat: name + " = " + e.nat + "\n", name: name, js: e.js, refs: e.refs})
}

func (b *mbody) blk(typ string, labels []string, in *mbody) {
	h := typ
	js := in.json()
	for i, l := range labels {
		h += fmt.Sprintf(" %q", l)
		js = fmt.Sprintf("{%q: %s}", labels[len(labels)-1-i], js)
	}
	var refs []string
	for _, it := range in.items {
		refs = append(refs, it.refs...)
	}
	b.items = append(b.items, mitem{nat: h + " {\n" + in.native("  ") + "}\n", name: typ, js: js, block: true, refs: refs, labels: labels})
}

// use works a flaw of the given kind in, once.
func (c *decCase) use(flaw string) bool {
	if c.flaw == flaw && !c.applied && c.r.P(1, 2) {
		c.applied = true
		return true
	}
	return false
}

// A mspec is a specification node: its text, and a function that makes up the
// part of a body it decodes and returns the resulting value and type.
type mspec struct {
	kind string
	body string // text between the braces
	fill func(b *mbody) (val, typ interface{})
	typ  interface{} // the implied type
}

func (s mspec) text(label string) string {
	h := s.kind
	if label != "" {
		h += fmt.Sprintf(" %q", label)
	}
	return h + " {\n" + indent(s.body) + "}\n"
}

func indent(s string) string {
	var b strings.Builder
	for _, l := range strings.SplitAfter(s, "\n") {
		if l != "" {
			b.WriteString("  " + l)
		}
	}
	return b.String()
}

// spec generates a specification; strict ones have a fixed type (no any).
func (c *decCase) spec(depth int, strict bool) mspec {
	r := c.r
	if depth <= 0 {
		return c.attrSpec(strict || c.plain)
	}
	strict = strict || c.plain
	switch k := r.N(16); {
	case k < 3:
		return c.objectSpec(depth, strict)
	case k == 3:
		return c.arraySpec(depth, strict)
	case k < 6:
		return c.blockSpec(depth)
	case k < 8:
		return c.listSpec(depth, false)
	case k == 8:
		return c.listSpec(depth, true)
	case k < 11:
		return c.mapSpec(depth)
	case k == 11:
		return c.blockAttrsSpec(strict)
	case k == 12:
		return c.defaultSpec()
	case k == 13 && !strict:
		return c.transformSpec(depth)
	case k == 14:
		return c.literalSpec()
	}
	return c.attrSpec(strict)
}

func (c *decCase) attrSpec(strict bool) mspec {
	r := c.r
	name := c.name("a")
	req := r.P(1, 3)
	s := mspec{kind: "attr", body: fmt.Sprintf("name = %q\n", name)}
	var t mtype
	if !strict && r.P(1, 6) {
		t = mtype{"any", "dynamic", func(c *decCase) mexpr { return c.anyValue(2) }, ""}
		if r.P(1, 2) {
			s.body += "type = any\n"
		}
	} else {
		t = mtypes[r.N(len(mtypes))]
		s.body += "type = " + t.src + "\n"
	}
	if req {
		s.body += "required = true\n"
	} else if r.P(1, 6) {
		s.body += "required = false\n"
	}
	s.typ = t.note
	s.fill = func(b *mbody) (interface{}, interface{}) {
		if !req && r.P(1, 4) {
			return nil, t.note
		}
		if req && c.use("missing-attr") {
			return nil, t.note
		}
		if t.bad != "" && c.use("wrong-type") {
			b.attr(name, mexpr{nat: t.bad, js: t.bad})
			return nil, t.note
		}
		if (t.src == "any" || t.src == "number") && c.hide == 0 && c.use("infinite") {
			b.attr(name, mexpr{nat: "1 / 0", js: interp("-1 / 0")})
			return nil, t.note
		}
		if c.use("undefined-var") {
			b.attr(name, mexpr{nat: "v_nope", js: interp("v_nope")})
			return nil, t.note
		}
		e := t.gen(c)
		if t.src == "any" {
			b.attr(name, e)
			return e.val, e.typ
		}
		if r.P(1, 12) {
			e = mexpr{nat: "null", js: "null"}
		}
		b.attr(name, e)
		if c.use("duplicate-attr") {
			b.attr(name, e)
		}
		return e.val, t.note
	}
	return s
}

var ownName = regexp.MustCompile(`^(?:name|block_type) = "([^"]*)"\n`)

func (c *decCase) objectSpec(depth int, strict bool) mspec {
	r := c.r
	s := mspec{kind: "object"}
	var keys []string
	var subs []mspec
	types := map[string]interface{}{}
	for i := r.Range(1, c.width()); i > 0; i-- {
		k := c.name("k")
		if r.P(1, 8) && !c.plain {
			k += " x-y"
		}
		sub := c.spec(depth-1, strict)
		if m := ownName.FindStringSubmatch(sub.body); m != nil && r.P(1, 3) {
			// the key is the name in the body, too
			k, sub.body = m[1], sub.body[len(m[0]):]
		}
		keys = append(keys, k)
		subs = append(subs, sub)
		types[k] = sub.typ
		s.body += sub.text(k)
	}
	s.typ = []interface{}{"object", types}
	s.fill = func(b *mbody) (interface{}, interface{}) {
		v := map[string]interface{}{}
		t := map[string]interface{}{}
		for i, sub := range subs {
			v[keys[i]], t[keys[i]] = sub.fill(b)
		}
		return v, []interface{}{"object", t}
	}
	return s
}

func (c *decCase) width() int {
	if c.size < 2 {
		return 1
	}
	return c.size
}

func (c *decCase) arraySpec(depth int, strict bool) mspec {
	s := mspec{kind: "array"}
	var subs []mspec
	types := []interface{}{}
	for i := c.r.Range(0, c.width()); i > 0; i-- {
		sub := c.spec(depth-1, strict)
		subs = append(subs, sub)
		types = append(types, sub.typ)
		s.body += sub.text("")
	}
	s.typ = []interface{}{"tuple", types}
	s.fill = func(b *mbody) (interface{}, interface{}) {
		v := []interface{}{}
		t := []interface{}{}
		for _, sub := range subs {
			ev, et := sub.fill(b)
			v = append(v, ev)
			t = append(t, et)
		}
		return v, []interface{}{"tuple", t}
	}
	return s
}

// nested makes one block's body.
func (c *decCase) nested(sub mspec) (*mbody, interface{}, interface{}) {
	in := &mbody{}
	v, t := sub.fill(in)
	c.extras(in)
	c.shuffle(in)
	return in, v, t
}

func (c *decCase) extras(b *mbody) {
	if c.use("extra-attr") {
		b.attr("zz_extra", mexpr{nat: "1", js: "1"})
	}
	if c.use("extra-block") {
		b.blk("zz_extra_block", nil, &mbody{})
	}
}

// shuffle moves attributes around; blocks keep their order.
func (c *decCase) shuffle(b *mbody) {
	for i := range b.items {
		j := c.r.N(len(b.items))
		if !b.items[i].block && !b.items[j].block {
			b.items[i], b.items[j] = b.items[j], b.items[i]
		}
	}
}

func (c *decCase) blockSpec(depth int) mspec {
	r := c.r
	typ := c.name("b")
	req := r.P(1, 3)
	sub := c.spec(depth-1, true)
	s := mspec{kind: "block", body: fmt.Sprintf("block_type = %q\n", typ), typ: sub.typ}
	if req {
		s.body += "required = true\n"
	}
	s.body += sub.text("")
	s.fill = func(b *mbody) (interface{}, interface{}) {
		if !req && r.P(1, 3) || req && c.use("missing-block") {
			return nil, sub.typ
		}
		in, v, t := c.nested(sub)
		b.blk(typ, nil, in)
		if c.use("duplicate-block") {
			b.blk(typ, nil, in)
		}
		return v, t
	}
	return s
}

func (c *decCase) listSpec(depth int, set bool) mspec {
	r := c.r
	typ := c.name("b")
	sub := c.spec(depth-1, true)
	s := mspec{kind: "block_list", body: fmt.Sprintf("block_type = %q\n", typ), typ: []interface{}{"list", sub.typ}}
	if set {
		s.kind, s.typ = "block_set", []interface{}{"set", sub.typ}
	}
	min, max := 0, 0
	if r.P(1, 4) {
		min = r.Range(1, 2)
		s.body += fmt.Sprintf("min_items = %d\n", min)
	}
	if r.P(1, 4) {
		max = r.Range(2, 3)
		s.body += fmt.Sprintf("max_items = %d\n", max)
	}
	s.body += sub.text("")
	s.fill = func(b *mbody) (interface{}, interface{}) {
		hi := 3
		if max > 0 {
			hi = max
		}
		n := r.Range(min, hi)
		if min > 0 && c.use("too-few") {
			n = min - 1
		} else if max > 0 && c.use("too-many") {
			n = max + 1
		}
		vals := []interface{}{}
		for ; n > 0; n-- {
			in, v, _ := c.nested(sub)
			b.blk(typ, nil, in)
			vals = append(vals, v)
		}
		if set {
			return toSet(vals), s.typ
		}
		return vals, s.typ
	}
	return s
}

func (c *decCase) mapSpec(depth int) mspec {
	r := c.r
	typ := c.name("b")
	sub := c.spec(depth-1, true)
	nl := r.Range(1, 2)
	s := mspec{kind: "block_map", body: fmt.Sprintf("block_type = %q\nlabels = [%s]\n", typ, []string{`"one"`, `"one", "two"`}[nl-1])}
	s.typ = []interface{}{"map", sub.typ}
	if nl == 2 {
		s.typ = []interface{}{"map", s.typ}
	}
	s.body += sub.text("")
	labels := []string{"x", "y", "a b", "é", "1"}
	s.fill = func(b *mbody) (interface{}, interface{}) {
		out := map[string]interface{}{}
		seen := map[string]bool{}
		min := 0
		if nl == 2 && !c.emptyOK {
			min = 1
		}
		for n := r.Range(min, 3); n > 0; n-- {
			ls := []string{labels[r.N(len(labels))]}
			if nl == 2 {
				ls = append(ls, labels[r.N(len(labels))])
			}
			if k := strings.Join(ls, "|"); seen[k] {
				continue
			} else {
				seen[k] = true
			}
			in, v, _ := c.nested(sub)
			if c.use("label-count") {
				// In JSON the label is taken for content, which leaves maps
				// inside the block without elements.
				c.empty = true
				b.blk(typ, append(ls, "more"), in)
				continue
			}
			b.blk(typ, ls, in)
			if c.use("duplicate-label") {
				b.blk(typ, ls, in)
			}
			if nl == 1 {
				out[ls[0]] = v
				continue
			}
			m, _ := out[ls[0]].(map[string]interface{})
			if m == nil {
				m = map[string]interface{}{}
				out[ls[0]] = m
			}
			m[ls[1]] = v
		}
		if nl == 2 && len(out) == 0 {
			c.empty = true
		}
		return out, s.typ
	}
	return s
}

func (c *decCase) blockAttrsSpec(strict bool) mspec {
	r := c.r
	typ := c.name("b")
	t := mtypes[r.N(4)]
	any := !strict && r.P(1, 3)
	if any {
		t = mtype{"any", "dynamic", nil, ""}
	}
	s := mspec{kind: "block_attrs", body: fmt.Sprintf("block_type = %q\nelement_type = %s\n", typ, t.src), typ: []interface{}{"map", t.note}}
	req := r.P(1, 3)
	if req {
		s.body += "required = true\n"
	}
	s.fill = func(b *mbody) (interface{}, interface{}) {
		if !req && r.P(1, 3) || req && c.use("missing-block") {
			return nil, s.typ
		}
		in := &mbody{}
		v := map[string]interface{}{}
		if any {
			// Attributes of any types become the type they have in common.
			typ1 := []interface{}{"map", "dynamic"}
			kind := r.N(3)
			for i, k := range c.someKeys() {
				n := int64(r.N(1000))
				e := mexpr{nat: fmt.Sprint(n), js: fmt.Sprint(n), val: rat(n)}
				if kind == 1 || kind == 2 && i == 0 {
					e = mexpr{nat: fmt.Sprintf("\"t%d\"", n), js: fmt.Sprintf("\"t%d\"", n), val: fmt.Sprintf("t%d", n)}
				}
				typ1[1] = "number"
				if kind > 0 {
					typ1[1] = "string"
					if kind == 2 && i > 0 {
						e.val = fmt.Sprint(n)
					}
				}
				in.attr(k, e)
				v[k] = e.val
			}
			if len(v) > 0 && c.use("wrong-type") {
				in.attr("k9", mexpr{nat: "{ x = 1 }", js: `{"x": 1}`})
			}
			b.blk(typ, nil, in)
			if c.use("duplicate-block") {
				b.blk(typ, nil, in)
			}
			return v, typ1
		}
		for _, k := range c.someKeys() {
			e := t.gen(c)
			in.attr(k, e)
			v[k] = e.val
		}
		if c.use("wrong-type") {
			in.attr("k9", mexpr{nat: t.bad, js: t.bad})
		}
		b.blk(typ, nil, in)
		if c.use("duplicate-block") {
			b.blk(typ, nil, in)
		}
		return v, s.typ
	}
	return s
}

func (c *decCase) defaultSpec() mspec {
	r := c.r
	i := r.N(3)
	name := c.name("a")
	lit := []string{`"fallback"`, "77", "true"}[i]
	val := []interface{}{"fallback", rat(77), true}[i]
	t := mtypes[i]
	s := mspec{kind: "default", typ: t.note}
	s.body = fmt.Sprintf("attr {\n  name = %q\n  type = %s\n}\n", name, t.src)
	name2 := ""
	if r.P(1, 3) {
		name2 = c.name("a")
		s.body += fmt.Sprintf("attr {\n  name = %q\n  type = %s\n}\n", name2, t.src)
	}
	last := r.P(4, 5)
	if last {
		s.body += fmt.Sprintf("literal {\n  value = %s\n}\n", lit)
	}
	s.fill = func(b *mbody) (interface{}, interface{}) {
		var v interface{}
		if last {
			v = val
		}
		if name2 != "" && r.Bool() {
			e := t.gen(c)
			b.attr(name2, e)
			v = e.val
		}
		if r.Bool() {
			e := t.gen(c)
			if r.P(1, 6) {
				e = mexpr{nat: "null", js: "null"}
			}
			b.attr(name, e)
			if e.val != nil {
				v = e.val
			}
		}
		return v, t.note
	}
	return s
}

func (c *decCase) literalSpec() mspec {
	lits := []struct {
		src string
		val interface{}
		typ interface{}
	}{
		{`"lit"`, "lit", "string"}, {"5", rat(5), "number"}, {"false", false, "bool"},
		{`["a", 1]`, []interface{}{"a", rat(1)}, []interface{}{"tuple", []interface{}{"string", "number"}}},
		{`upper("abc")`, "ABC", "string"}, {`max(3, 9, 4)`, rat(9), "number"},
		{`{a = "x"}`, map[string]interface{}{"a": "x"}, []interface{}{"object", map[string]interface{}{"a": "string"}}},
	}
	l := lits[c.r.N(len(lits))]
	return mspec{kind: "literal", body: "value = " + l.src + "\n", typ: l.typ, fill: func(*mbody) (interface{}, interface{}) { return l.val, l.typ }}
}

func (c *decCase) transformSpec(depth int) mspec {
	r := c.r
	switch r.N(3) {
	case 0:
		sub := c.attrSpec(true)
		s := mspec{kind: "transform", body: "result = [nested, \"z\"]\n" + sub.text(""), typ: []interface{}{"tuple", []interface{}{sub.typ, "string"}}}
		s.fill = func(b *mbody) (interface{}, interface{}) {
			v, t := sub.fill(b)
			return []interface{}{v, "z"}, []interface{}{"tuple", []interface{}{t, "string"}}
		}
		return s
	case 1:
		sub := c.listSpec(depth, false)
		s := mspec{kind: "transform", body: sub.text("") + "result = length(nested)\n", typ: "number"}
		s.fill = func(b *mbody) (interface{}, interface{}) {
			c.hide++
			v, _ := sub.fill(b)
			c.hide--
			return rat(int64(len(v.([]interface{})))), "number"
		}
		return s
	}
	sub := c.defaultSpec()
	s := mspec{kind: "transform", body: "result = {w = nested, t = \"x\"}\n" + sub.text("")}
	s.fill = func(b *mbody) (interface{}, interface{}) {
		v, t := sub.fill(b)
		return map[string]interface{}{"w": v, "t": "x"}, []interface{}{"object", map[string]interface{}{"w": t, "t": "string"}}
	}
	return s
}

// decInput is a complete generated input.
type decInput struct {
	Spec    string
	Files   []harnessFile // configuration files in order
	Stdin   string
	UseIn   bool
	VarArgs []string // for -V
	VarFile []harnessFile
	Val     interface{}
	Typ     interface{}
	Refs    []string
	Vars    map[string]interface{}
	Bad     string // what is wrong with the input, if anything
	BadFile string
	Empty   bool // has a block_map of two levels without blocks
}

type harnessFile struct{ Name, Text string }

// Flaws that show when parsing, and flaws that show when decoding.
var parseFlaws = []string{"conf-syntax", "spec-syntax", "conf-missing", "spec-missing", "vars-syntax", "vars-missing", "spec-two-roots", "spec-no-root", "spec-bad-type", "spec-no-name", "spec-invalid", "spec-invalid", "spec-decl", "vars-value"}
var decodeFlaws = []string{"duplicate-attr", "missing-attr", "wrong-type", "undefined-var", "extra-attr", "extra-block", "missing-block", "duplicate-block", "too-few", "too-many", "label-count", "duplicate-label", "infinite", "transform-fails"}

// Invalid parts of an object specification, and invalid declarations.
var badSpecs = []string{
	"attr \"zz\" {\n  type = strong\n}\n",
	"attr \"zz\" {\n  type = \"string\"\n}\n",
	"attr \"zz\" {\n  type = list(string, string)\n}\n",
	"attr \"zz\" {\n  type = string\n  bogus = 1\n}\n",
	"attr \"zz\" {\n  type = string\n  required = \"maybe\"\n}\n",
	"attr \"zz\" {\n  type = string\n  name = []\n}\n",
	"attr \"zz\" {\n  type = string\n  attr {\n  }\n}\n",
	"block \"zz\" {\n}\n",
	"block \"zz\" {\n  literal {\n    value = 1\n  }\n  literal {\n    value = 2\n  }\n}\n",
	"block \"zz\" {\n  bogus = 1\n  literal {\n    value = 1\n  }\n}\n",
	"block \"zz\" {\n  attr {\n    type = string\n  }\n}\n",
	"block_list \"zz\" {\n  min_items = \"x\"\n  literal {\n    value = 1\n  }\n}\n",
	"block_list \"zz\" {\n  min_items = 1.5\n  literal {\n    value = 1\n  }\n}\n",
	"block_set \"zz\" {\n  max_items = []\n  literal {\n    value = 1\n  }\n}\n",
	"block_list \"zz\" {\n}\n",
	"block_set \"zz\" {\n}\n",
	"block_map \"zz\" {\n  labels = [\"k\"]\n}\n",
	"block_map \"zz\" {\n  labels = []\n  literal {\n    value = 1\n  }\n}\n",
	"block_map \"zz\" {\n  literal {\n    value = 1\n  }\n}\n",
	"block_attrs \"zz\" {\n  element_type = nope\n}\n",
	"block_attrs \"zz\" {\n  element_type = string\n  literal {\n    value = 1\n  }\n}\n",
	"array \"zz\" {\n  block {\n    literal {\n      value = 1\n    }\n  }\n}\n",
	"array \"zz\" {\n  block_list {\n    literal {\n      value = 1\n    }\n  }\n}\n",
	"array \"zz\" {\n  block_set {\n    literal {\n      value = 1\n    }\n  }\n}\n",
	"array \"zz\" {\n  block_map {\n    labels = [\"a\"]\n    literal {\n      value = 1\n    }\n  }\n}\n",
	"array \"zz\" {\n  block_attrs {\n    element_type = string\n  }\n}\n",
	"array \"zz\" {\n  attr {\n    type = string\n  }\n}\n",
	"array \"zz\" {\n  attr \"x\" {\n    type = string\n  }\n}\n",
	"array \"zz\" {\n  x = 1\n}\n",
	"literal \"zz\" {\n}\n",
	"literal \"zz\" {\n  value = nope\n}\n",
	"default \"zz\" {\n}\n",
	"default \"zz\" {\n  literal {\n    value = 1\n  }\n  literal {\n    value = nope\n  }\n}\n",
	"default \"zz\" {\n  literal {\n    value = nope\n  }\n  literal {\n    value = 1\n  }\n}\n",
	"default \"zz\" {\n  x = 1\n  literal {\n    value = 1\n  }\n}\n",
	"transform \"zz\" {\n  result = nested\n}\n",
	"transform \"zz\" {\n  result = nested\n  literal {\n    value = nope\n  }\n}\n",
	"transform \"zz\" {\n  result = nested\n  literal {\n    value = 1\n  }\n  literal {\n    value = 1\n  }\n}\n",
	"object \"zz\" {\n  x = 1\n}\n",
	"object \"zz\" {\n  attr {\n    type = string\n  }\n}\n",
	"x = 1\n",
	"foo \"zz\" {\n}\n",
}

var badDecls = []string{
	"variables {\n  x = nope\n}\n",
	"variables {\n  b {\n  }\n}\n",
	"variables \"x\" {\n}\n",
	"function \"f\" {\n  params = [1+2]\n  result = 1\n}\n",
	"function \"f\" {\n  result = 1\n}\n",
	"function \"f\" {\n  params = [a]\n}\n",
	"function \"f\" {\n  params = [a]\n  variadic_param = 1+1\n  result = 1\n}\n",
	"function \"f\" {\n  params = \"a\"\n  result = 1\n}\n",
	"function {\n  params = [a]\n  result = 1\n}\n",
	"function \"f\" {\n  params = [a]\n  result = 1\n  zz = 2\n}\n",
	"function \"f\" {\n  params = [a]\n  result = 1\n  zz {\n  }\n}\n",
	"x = 1\n",
}

func varJSON(v interface{}) string {
	switch v := v.(type) {
	case string:
		b, _ := json.Marshal(v)
		return string(b)
	case *big.Rat:
		return ratText(v)
	case bool:
		return fmt.Sprint(v)
	case []interface{}:
		var s []string
		for _, e := range v {
			s = append(s, varJSON(e))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case map[string]interface{}:
		var s []string
		for _, k := range []string{"a", "b"} {
			s = append(s, fmt.Sprintf("%q: %s", k, varJSON(v[k])))
		}
		return "{" + strings.Join(s, ", ") + "}"
	}
	return "null"
}

func varNative(v interface{}) string {
	if m, ok := v.(map[string]interface{}); ok {
		return fmt.Sprintf("{a = %s, b = %s}", varJSON(m["a"]), varJSON(m["b"]))
	}
	return varJSON(v)
}

// buildDec generates an input of the given size.
func buildDec(seed uint64, size int, flaw string) *decInput {
	r := simrt.NewRand(seed)
	c := &decCase{r: r, size: size, flaw: flaw, user: r.Bool(), emptyOK: r.P(1, 30)}
	in := &decInput{}
	c.vars = map[string]interface{}{
		"v_s": r.Pick([]string{"str", "", "two words", "été"}), "v_n": rat(int64(r.N(50))), "v_b": r.Bool(),
		"v_l": []interface{}{rat(int64(r.N(9))), rat(int64(r.N(9)) + 10)},
		"v_o": map[string]interface{}{"a": r.Pick([]string{"A", "ob j"}), "b": rat(int64(r.N(1000)))},
	}
	in.Vars = c.vars
	names := []string{"v_b", "v_l", "v_n", "v_o", "v_s"}

	// where the variables come from; later sources override earlier ones
	var specVars string
	wrong := map[string]interface{}{"v_s": "old", "v_n": rat(-1), "v_b": false, "v_l": []interface{}{}, "v_o": map[string]interface{}{"a": "o", "b": rat(0)}}
	sources := r.Range(1, 3)
	type source struct {
		kind int
		vals map[string]interface{}
	}
	var srcs []source
	for i := 0; i < sources; i++ {
		k := r.N(4) // 0 spec, 1 inline, 2 native file, 3 JSON file
		if i > 0 && k == 0 {
			k = 1
		}
		srcs = append(srcs, source{k, map[string]interface{}{}})
	}
	for _, n := range names {
		final := r.N(sources)
		srcs[final].vals[n] = c.vars[n]
		for i := 0; i < final; i++ {
			if r.P(1, 3) {
				srcs[i].vals[n] = wrong[n]
			}
		}
	}
	for i, s := range srcs {
		var js, nat []string
		for _, n := range names {
			if v, ok := s.vals[n]; ok {
				js = append(js, fmt.Sprintf("%q: %s", n, varJSON(v)))
				nat = append(nat, n+" = "+varNative(v))
			}
		}
		j := "{" + strings.Join(js, ", ") + "}"
		n := strings.Join(nat, "\n") + "\n"
		if s.kind != 0 && c.use("vars-syntax") {
			j += "}{"
			n += "= =\n"
		}
		if (s.kind == 0 || s.kind == 2) && c.use("vars-value") {
			n += r.Pick([]string{"spare = nope\n", "spare = nope(1)\n", "spare = \"${a.b}\"\n", "spare {\n}\n", "spare = 1\nspare = 2\n"})
		}
		switch s.kind {
		case 0:
			if len(nat) > 1 && r.P(1, 3) {
				// in two blocks
				specVars = "variables {\n" + indent(nat[0]+"\n") + "}\n"
				n = n[len(nat[0])+1:]
			}
			specVars += "variables {\n" + indent(n) + "}\n"
		case 1:
			in.VarArgs = append(in.VarArgs, j)
		case 2, 3:
			f := harnessFile{fmt.Sprintf("vars%d.hcl", i), n}
			if s.kind == 3 {
				f = harnessFile{fmt.Sprintf("vars%d.json", i), j}
			}
			in.VarArgs = append(in.VarArgs, f.Name)
			if c.use("vars-missing") {
				in.BadFile = f.Name
			} else {
				in.VarFile = append(in.VarFile, f)
			}
		}
	}

	depth := 1
	if size > 1 {
		depth = r.Range(1, 3)
	}
	root := c.objectSpec(depth, false)
	if r.P(1, 4) {
		root = c.spec(depth, false)
	}
	body := &mbody{}
	in.Val, in.Typ = root.fill(body)
	c.extras(body)
	c.shuffle(body)
	for _, it := range body.items {
		in.Refs = append(in.Refs, it.refs...)
	}

	in.Spec = specVars
	if c.user {
		in.Spec += "function \"dup\" {\n  params = [s]\n  result = \"${s}${s}\"\n}\nfunction \"up\" {\n  params = [s]\n  result = upper(s)\n}\n"
	}
	rootText := root.text("")
	if c.use("spec-bad-type") {
		rootText = "object {\n  attr \"q\" {\n    type = strong\n  }\n}\n"
	} else if c.use("spec-no-name") {
		rootText = "attr {\n  type = string\n}\n"
	}
	if c.use("spec-invalid") {
		// one invalid part in a specification that is fine otherwise
		bad := r.Pick(badSpecs)
		if root.kind == "object" {
			rootText = strings.TrimSuffix(rootText, "}\n") + bad + "}\n"
		} else {
			rootText = "object {\n" + bad + "}\n"
		}
	}
	if c.use("transform-fails") {
		bad := "transform \"zz\" {\n  result = " + r.Pick([]string{"nope", "nope(nested)", "nested.a.b", "nested + \"x\"", "length(nested)", "nested[4]"}) + "\n" +
			r.Pick([]string{"  literal {\n    value = 1\n  }\n", "  literal {\n    value = null\n  }\n", "  attr {\n    name = \"zz_unset\"\n  }\n"}) + "}\n"
		if root.kind == "object" {
			rootText = strings.TrimSuffix(rootText, "}\n") + bad + "}\n"
		} else {
			rootText = "object {\n" + bad + "}\n"
		}
	}
	if c.use("spec-decl") {
		in.Spec += r.Pick(badDecls)
	}
	if !c.use("spec-no-root") {
		in.Spec += rootText
	}
	if c.use("spec-two-roots") {
		in.Spec += "literal {\n  value = 1\n}\n"
	}
	if c.use("spec-syntax") {
		in.Spec += r.Pick([]string{"object {\n", "}\n", "x = \n", "object \"a {\n}\n"})
	}

	// spread the configuration over files
	var parts []*mbody
	n := 1
	if r.P(1, 3) || strings.HasPrefix(flaw, "duplicate") && r.P(1, 2) {
		n = r.Range(2, 3)
	}
	for i := 0; i < n; i++ {
		parts = append(parts, &mbody{})
	}
	at := 0
	for _, it := range body.items {
		if !it.block {
			p := parts[r.N(n)]
			p.items = append(p.items, it)
			continue
		}
		for at < n-1 && r.P(1, 3) {
			at++
		}
		parts[at].items = append(parts[at].items, it)
	}
	for i, p := range parts {
		f := harnessFile{fmt.Sprintf("conf%d.hcl", i), p.native("")}
		if r.P(1, 3) {
			f = harnessFile{fmt.Sprintf("conf%d.json", i), p.json() + "\n"}
			if c.use("conf-syntax") {
				f.Text = strings.TrimSuffix(f.Text, "}\n") + r.Pick([]string{",", "\"x\": }", "]", ""})
			}
		} else if c.use("conf-syntax") {
			f.Text += r.Pick([]string{"oops = {\n", "a = \n", "]\n", "x {\n"})
		}
		if c.use("conf-missing") {
			in.BadFile = f.Name
		}
		in.Files = append(in.Files, f)
	}
	if n == 1 && strings.HasSuffix(in.Files[0].Name, ".hcl") && in.BadFile != in.Files[0].Name && r.P(1, 4) {
		in.UseIn, in.Stdin, in.Files = true, in.Files[0].Text, nil
	}
	if c.use("spec-missing") {
		in.BadFile = "spec.hcldec"
	}
	in.Empty = c.empty
	if c.applied {
		in.Bad = flaw
	}
	return in
}
