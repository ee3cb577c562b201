package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"

	"verifsim/harness"
	"verifsim/simk"
	"verifsim/simrt"
)

// The reference document of P15: the items of a body in order. Everything that
// the session has not touched is kept as text.

type mBody struct {
	items []*mItem
	// inline is set as long as nothing says that the body begins on a line
	// of its own.
	inline bool
}

type mItem struct {
	kind  string // raw, attr, block
	fresh bool   // made by the session
	raw   string // or what comes before the item
	name  string // of an attribute, or block type
	expr  string
	val   *cty.Value    // a literal that was set
	trav  hcl.Traversal // a reference that was set
	tail  string

	labels []string
	header string // from the type to the brace
	body   *mBody
}

const (
	markSet   = "ZZSET"
	markStar  = "/*ZZSTAR*/" // any number of line ends
	markLabel = "ZZLABEL"
)

// atLineStart tells whether something appended as it is begins a line.
func (b *mBody) atLineStart() bool {
	t := b.text(false)
	if t == "" {
		return !b.inline
	}
	return strings.HasSuffix(t, "\n")
}

// oneLine tells whether a block is written on one line.
func (b *mBody) oneLine() bool {
	t := strings.TrimLeft(b.text(false), " ")
	return b.inline && t != "" && !strings.HasPrefix(t, "\n") && !strings.HasPrefix(t, "#") && !strings.HasPrefix(t, "//")
}

// text gives the source code of a body, marked for a pattern or not.
func (b *mBody) text(pattern bool) string {
	var w strings.Builder
	star := func(on bool) {
		if pattern && on {
			w.WriteString(markStar)
		}
	}
	for _, it := range b.items {
		if t := strings.ReplaceAll(w.String(), markStar, ""); it.fresh && it.kind != "raw" && t != "" && !strings.HasSuffix(t, "\n") {
			w.WriteString("\n")
		}
		star(it.fresh && it.kind != "raw")
		w.WriteString(it.raw)
		star(it.fresh && it.kind == "raw")
		switch it.kind {
		case "attr":
			w.WriteString(it.name + " = ")
			if it.val != nil || it.trav != nil {
				w.WriteString(markSet)
			} else {
				w.WriteString(it.expr)
			}
		case "block":
			if it.fresh {
				w.WriteString(it.name + " " + strings.Repeat(markLabel+" ", len(it.labels)) + "{")
				star(true)
			} else {
				w.WriteString(it.header)
			}
			inner := it.body.text(pattern)
			star(it.body.changed())
			w.WriteString(inner)
			star(it.body.changed())
			w.WriteString("}")
		}
		w.WriteString(it.tail)
		star(it.fresh)
	}
	return w.String()
}

// changed tells whether line ends may have been added.
func (b *mBody) changed() bool {
	for _, it := range b.items {
		if it.fresh {
			return true
		}
	}
	return b.inline && len(b.items) == 0
}

func (b *mBody) attr(name string) *mItem {
	for _, it := range b.items {
		if it.kind == "attr" && it.name == name {
			return it
		}
	}
	return nil
}

func (b *mBody) blocks() []*mItem {
	var r []*mItem
	for _, it := range b.items {
		if it.kind == "block" {
			r = append(r, it)
		}
	}
	return r
}

func (b *mBody) attrs() []string {
	var r []string
	for _, it := range b.items {
		if it.kind == "attr" {
			r = append(r, it.name)
		}
	}
	sort.Strings(r)
	return r
}

func (b *mBody) contains(x *mBody) bool {
	if b == x {
		return true
	}
	for _, it := range b.blocks() {
		if it.body.contains(x) {
			return true
		}
	}
	return false
}

// clone copies a body as it would be read back.
func (b *mBody) clone() *mBody {
	c := &mBody{inline: b.inline}
	for _, it := range b.items {
		x := *it
		if x.body != nil {
			x.body = x.body.clone()
			x.body.inline = true
		}
		c.items = append(c.items, &x)
	}
	return c
}

// ---- the files that sessions start from

var p15names = []string{"a", "b", "c", "name", "if", "long_name-2", "é"}
var p15types = []string{"blk", "node", "sub-x"}

func p15attr(r *rnd, name string, last bool) *mItem {
	it := &mItem{kind: "attr", name: name}
	for r.P(1, 3) {
		it.raw += r.Pick([]string{"# lead\n", "// lead  two\n", "/* lead */\n", "#\n"})
	}
	g := &xgen{r: r}
	switch r.N(8) {
	case 0:
		it.expr = r.Pick([]string{"<<E\nfoo ${x.y}\n  bar\nE\n", "<<-E\n  foo\n    bar\n  E\n"})
		return it
	case 1:
		it.expr = r.Pick([]string{"[\n  1,\n  # two\n  2, x.y,\n]", "{\n  a = x.y # first\n  b = x\n}", "[ 1,2 ,3]", "(x.y\n  + 1)", "x.y[0].z", "x.y[x.y.z]", "x[\"y\"].z", "[for x in y.z : x.y]", "x.y.*.z", "x.y ? y.z : x.y", "\"${x.y}-${x}-${y.z}\"", "f(x.y, y.z...)", "!x.y", "x .y"})
	default:
		it.expr = g.any(r.Range(0, 2))
	}
	it.tail = r.Pick([]string{"\n", "\n", "\n", " # line\n", " // line\n", " /* line */\n", "   \n", " /* a */ # b\n"})
	return it
}

func p15item(r *rnd, depth int, used map[string]bool) *mItem {
	switch k := r.N(6); {
	case k == 0:
		return &mItem{kind: "raw", raw: r.Pick([]string{"\n", "\n\n", "# alone\n\n", "/* alone */\n\n", "// one\n# two\n\n", "/* several\n   lines */\n\n"})}
	case k >= 4 && depth > 0:
		it := &mItem{kind: "block", name: r.Pick(p15types), body: &mBody{inline: true}}
		for r.P(1, 4) {
			it.raw += r.Pick([]string{"# lead\n", "// lead\n"})
		}
		it.header = it.name
		for n := r.N(3); n > 0; n-- {
			l := r.Pick([]string{"one", "two", "x-y"})
			it.labels = append(it.labels, l)
			if r.Bool() {
				it.header += " " + l
			} else {
				it.header += " \"" + l + "\""
			}
		}
		it.header += r.Pick([]string{" {", "{", "  {"})
		it.tail = r.Pick([]string{"\n", "\n", " # end\n"})
		switch r.N(7) {
		case 0:
			it.body.items = []*mItem{{kind: "raw", raw: r.Pick([]string{"", " ", " /* nothing */ "})}}
			return it
		case 1:
			it.body.items = []*mItem{{kind: "raw", raw: " "}, {kind: "attr", name: r.Pick(p15names), expr: r.Pick([]string{"1", "x.y", "\"s\""}), tail: " "}}
			return it
		}
		it.body.items = []*mItem{{kind: "raw", raw: r.Pick([]string{"\n", "\n", "\n", " # open\n", "\n\n", " // open\n\n"})}}
		in := map[string]bool{}
		for n := r.N(4); n > 0; n-- {
			if x := p15item(r, depth-1, in); x != nil {
				it.body.items = append(it.body.items, x)
			}
		}
		if r.P(1, 4) {
			it.body.items = append(it.body.items, &mItem{kind: "raw", raw: r.Pick([]string{"# last\n", "\n"})})
		}
		return it
	}
	name := r.Pick(p15names)
	if used[name] {
		return nil
	}
	used[name] = true
	return p15attr(r, name, false)
}

func p15val(r *rnd, depth int) cty.Value {
	str := func() cty.Value {
		return cty.StringVal(r.Pick([]string{"", "s", "two words", "a\"b\\c", "line\nline\n", "tab\t\r", "${x.y}", "%{ if x }", "$${x}", "$", "$$", "%%{", "100%", "é́", "日本", " ​", "\U0001F600\U000E0001", "\U0001FFFE", "# no", "<<E\n", "}", "\x00\x1b"}))
	}
	n := r.N(11)
	if depth <= 0 {
		n = r.N(6)
	}
	switch n {
	case 0, 1, 2:
		return str()
	case 3:
		return cty.MustParseNumberVal(r.Pick([]string{"0", "1", "-1", "12345678901234567890123456789", "0.1", "-2.5", "1e30", "1e-9"}))
	case 4:
		return cty.BoolVal(r.Bool())
	case 5:
		return cty.NullVal([]cty.Type{cty.DynamicPseudoType, cty.String, cty.List(cty.Bool)}[r.N(3)])
	case 6:
		var vs []cty.Value
		for k := r.N(4); k > 0; k-- {
			vs = append(vs, p15val(r, depth-1))
		}
		return cty.TupleVal(vs)
	case 7, 8:
		m := map[string]cty.Value{}
		for k := r.N(4); k > 0; k-- {
			m[r.Pick([]string{"a", "b", "for", "if", "null", "true", "a b", "", "x-y", "1", "é", "a.b", "${x}"})] = p15val(r, depth-1)
		}
		return cty.ObjectVal(m)
	case 9:
		var vs []cty.Value
		for k := r.Range(1, 3); k > 0; k-- {
			vs = append(vs, str())
		}
		if r.Bool() {
			return cty.SetVal(vs)
		}
		return cty.ListVal(vs)
	}
	return cty.MapVal(map[string]cty.Value{"k": str(), "for": str(), "0": str()})
}

func p15trav(r *rnd) hcl.Traversal {
	t := hcl.Traversal{hcl.TraverseRoot{Name: r.Pick([]string{"x", "y", "if"})}}
	for n := r.N(4); n > 0; n-- {
		switch r.N(4) {
		case 0:
			t = append(t, hcl.TraverseIndex{Key: cty.NumberIntVal(int64(r.N(12)))})
		case 1:
			t = append(t, hcl.TraverseIndex{Key: cty.StringVal(r.Pick([]string{"k", "a b", "é", "\"", ""}))})
		default:
			t = append(t, hcl.TraverseAttr{Name: r.Pick([]string{"y", "z", "if"})})
		}
	}
	return t
}

func travText(t hcl.Traversal) string {
	var w strings.Builder
	for _, s := range t {
		switch s := s.(type) {
		case hcl.TraverseRoot:
			w.WriteString(s.Name)
		case hcl.TraverseAttr:
			w.WriteString("." + s.Name)
		case hcl.TraverseIndex:
			w.WriteString("[" + canonVal(s.Key) + "]")
		default:
			fmt.Fprintf(&w, "?%T", s)
		}
	}
	return w.String()
}

// shape gives the value that native syntax can express.
func shape(v cty.Value) cty.Value {
	t := v.Type()
	switch {
	case v.IsNull():
		return cty.NullVal(cty.DynamicPseudoType)
	case t.IsListType() || t.IsSetType() || t.IsTupleType():
		vs := []cty.Value{}
		for it := v.ElementIterator(); it.Next(); {
			_, e := it.Element()
			vs = append(vs, shape(e))
		}
		return cty.TupleVal(vs)
	case t.IsMapType() || t.IsObjectType():
		vs := map[string]cty.Value{}
		for it := v.ElementIterator(); it.Next(); {
			k, e := it.Element()
			vs[k.AsString()] = shape(e)
		}
		return cty.ObjectVal(vs)
	}
	return v
}

// ---- Go values to encode

type eSub struct {
	ID   string  `hcl:"id,label"`
	Text string  `hcl:"text"`
	Opt  *string `hcl:"opt"`
}

type eRow struct {
	Name string            `hcl:"name,label"`
	S    string            `hcl:"s"`
	N    int               `hcl:"n"`
	P    *string           `hcl:"p"`
	L    []string          `hcl:"l"`
	Subs []eSub            `hcl:"sub,block"`
	M    map[string]string `hcl:"m"`
	One  *eSub             `hcl:"one,block"`
	Ptrs []*eSub           `hcl:"ptr,block"`
	B    bool              `hcl:"b"`
}

func p15row(r *rnd) *eRow {
	str := func() string {
		v := p15val(r, 0)
		for v.IsNull() || v.Type() != cty.String {
			v = p15val(r, 0)
		}
		return v.AsString()
	}
	opt := func() *string {
		if r.Bool() {
			return nil
		}
		s := str()
		return &s
	}
	sub := func() eSub { return eSub{ID: str(), Text: str(), Opt: opt()} }
	v := &eRow{Name: str(), S: str(), N: r.N(100) - 50, P: opt(), B: r.Bool()}
	for n := r.N(3); n > 0; n-- {
		v.L = append(v.L, str())
	}
	for n := r.N(3); n > 0; n-- {
		v.Subs = append(v.Subs, sub())
	}
	if r.Bool() {
		v.M = map[string]string{"k": str(), "a b": str()}
	}
	if r.Bool() {
		s := sub()
		v.One = &s
	}
	for n := r.N(3); n > 0; n-- {
		if r.P(1, 3) {
			v.Ptrs = append(v.Ptrs, nil)
			continue
		}
		s := sub()
		v.Ptrs = append(v.Ptrs, &s)
	}
	return v
}

func freshAttr(name string, v cty.Value) *mItem {
	return &mItem{kind: "attr", fresh: true, name: name, val: &v, tail: "\n"}
}

func freshBlock(typ string, labels ...string) *mItem {
	var ls []string
	for _, l := range labels {
		ls = append(ls, cty.StringVal(l).AsString())
	}
	return &mItem{kind: "block", fresh: true, name: typ, labels: ls, body: &mBody{}, tail: "\n"}
}

func (s *eSub) model(typ string) *mItem {
	b := freshBlock(typ, s.ID)
	b.body.items = append(b.body.items, freshAttr("text", cty.StringVal(s.Text)))
	if s.Opt != nil {
		b.body.items = append(b.body.items, freshAttr("opt", cty.StringVal(*s.Opt)))
	}
	return b
}

func (v *eRow) model() []*mItem {
	var its []*mItem
	its = append(its, freshAttr("s", cty.StringVal(v.S)), freshAttr("n", cty.NumberIntVal(int64(v.N))))
	if v.P != nil {
		its = append(its, freshAttr("p", cty.StringVal(*v.P)))
	}
	l := cty.NullVal(cty.List(cty.String))
	if v.L != nil {
		var vs []cty.Value
		for _, s := range v.L {
			vs = append(vs, cty.StringVal(s))
		}
		l = cty.ListVal(vs)
	}
	its = append(its, freshAttr("l", l))
	for i := range v.Subs {
		its = append(its, v.Subs[i].model("sub"))
	}
	m := cty.NullVal(cty.Map(cty.String))
	if v.M != nil {
		vs := map[string]cty.Value{}
		for k, s := range v.M {
			vs[k] = cty.StringVal(s)
		}
		m = cty.MapVal(vs)
	}
	its = append(its, freshAttr("m", m))
	if v.One != nil {
		its = append(its, v.One.model("one"))
	}
	for _, s := range v.Ptrs {
		if s != nil {
			its = append(its, s.model("ptr"))
		}
	}
	return append(its, freshAttr("b", cty.BoolVal(v.B)))
}

// ---- judging saved bytes

type p15tok struct {
	typ   hclsyntax.TokenType
	text  string
	lines int // line ends in front of it
	star  bool
}

// p15toks lists the tokens of a text without those that begin in the given
// ranges. A line end in a comment is one of its own.
func p15toks(text []byte, cut [][2]int) []p15tok {
	toks, _ := hclsyntax.LexConfig(text, "", start)
	var out []p15tok
	cur := p15tok{}
Tokens:
	for _, t := range toks {
		for _, c := range cut {
			if t.Range.Start.Byte >= c[0] && t.Range.Start.Byte < c[1] {
				continue Tokens
			}
		}
		s := string(t.Bytes)
		switch {
		case t.Type == hclsyntax.TokenNewline:
			cur.lines++
			continue
		case t.Type == hclsyntax.TokenComment && s == markStar:
			cur.star = true
			continue
		case t.Type == hclsyntax.TokenIdent && (s == markSet || s == markLabel):
			continue
		}
		cur.typ, cur.text = t.Type, s
		end := 0
		if t.Type == hclsyntax.TokenComment && strings.HasSuffix(s, "\n") {
			cur.text = strings.TrimSuffix(s, "\n")
			end = 1
		}
		if t.Type == hclsyntax.TokenCHeredoc {
			cur.text = strings.TrimLeft(s, " ")
		}
		out = append(out, cur)
		cur = p15tok{lines: end}
	}
	return out
}

func sameAs(want, got []p15tok) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%q is lost", want[i].text)
		}
		w, g := want[i], got[i]
		if w.typ != g.typ || w.text != g.text {
			return fmt.Sprintf("%s %q instead of %s %q", g.typ, g.text, w.typ, w.text)
		}
		if w.lines != g.lines && !(w.star && g.lines > w.lines) {
			return fmt.Sprintf("%d line ends instead of %d in front of %q", g.lines, w.lines, w.text)
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%q is new", got[len(want)].text)
	}
	return ""
}

// compare checks the meaning of a body and finds what to cut.
func (b *mBody) compare(path string, got *hclsyntax.Body, cut *[][2]int) string {
	var names []string
	for n := range got.Attributes {
		names = append(names, n)
	}
	sort.Strings(names)
	if want := b.attrs(); strings.Join(want, ",") != strings.Join(names, ",") {
		return fmt.Sprintf("%s: attributes %q instead of %q", path, names, want)
	}
	for _, n := range names {
		a, it := got.Attributes[n], b.attr(n)
		switch {
		case it.val != nil:
			v, diags := a.Expr.Value(nil)
			if diags.HasErrors() {
				return fmt.Sprintf("%s.%s: %s", path, n, diags)
			}
			if w, g := canonVal(shape(*it.val)), canonVal(v); w != g {
				return fmt.Sprintf("%s.%s is %s instead of %s", path, n, g, w)
			}
		case it.trav != nil:
			t, diags := hcl.AbsTraversalForExpr(a.Expr)
			if w, g := travText(it.trav), travText(t); diags.HasErrors() || w != g {
				return fmt.Sprintf("%s.%s is %s instead of %s", path, n, g, w)
			}
		default:
			continue
		}
		*cut = append(*cut, [2]int{a.EqualsRange.End.Byte, a.SrcRange.End.Byte})
	}
	blocks := b.blocks()
	for i, bl := range got.Blocks {
		if i >= len(blocks) {
			return fmt.Sprintf("%s: there is a block %s too many", path, bl.Type)
		}
		it := blocks[i]
		if bl.Type != it.name || fmt.Sprintf("%q", bl.Labels) != fmt.Sprintf("%q", it.labels) {
			return fmt.Sprintf("%s: block %s %q instead of %s %q", path, bl.Type, bl.Labels, it.name, it.labels)
		}
		if it.fresh {
			for _, r := range bl.LabelRanges {
				*cut = append(*cut, [2]int{r.Start.Byte, r.End.Byte})
			}
		}
		if d := it.body.compare(fmt.Sprintf("%s.%s[%d]", path, it.name, i), bl.Body, cut); d != "" {
			return d
		}
	}
	if len(got.Blocks) < len(blocks) {
		return fmt.Sprintf("%s: the block %s is lost", path, blocks[len(got.Blocks)].name)
	}
	return ""
}

func (b *mBody) judge(o *harness.Outcome, what string, text []byte) {
	f, diags := hclsyntax.ParseConfig(text, "saved.hcl", start)
	want := b.text(true)
	if diags.HasErrors() {
		o.Fail("invalid", "%s is not valid: %s\n--- text\n%s\n--- expected\n%s", what, diags, text, want)
		return
	}
	var cut [][2]int
	if d := b.compare("root", f.Body.(*hclsyntax.Body), &cut); d != "" {
		o.Fail("meaning", "%s: %s\n--- text\n%s\n--- expected\n%s", what, d, text, want)
		return
	}
	if d := sameAs(p15toks([]byte(want), nil), p15toks(text, cut)); d != "" {
		o.Fail("tokens", "%s: %s\n--- text\n%s\n--- expected\n%s", what, d, text, want)
	}
}

// report compares what an object says about itself with the model.
func (b *mBody) report(o *harness.Outcome, path string, real *hclwrite.Body) {
	attrs := real.Attributes()
	var names []string
	for n := range attrs {
		names = append(names, n)
	}
	sort.Strings(names)
	if want := b.attrs(); strings.Join(want, ",") != strings.Join(names, ",") {
		o.Fail("report", "%s: the object reports the attributes %q instead of %q", path, names, want)
		return
	}
	for _, n := range append(names, "nosuch") {
		if a := real.GetAttribute(n); a != attrs[n] {
			o.Fail("report", "%s: GetAttribute(%q) and Attributes disagree", path, n)
			return
		}
	}
	for _, n := range names {
		it, x := b.attr(n), attrs[n].Expr()
		vars := 0
		switch {
		case it.trav != nil:
			vars = 1
		case it.val == nil:
			p, _ := hclsyntax.ParseExpression([]byte(it.expr), "", start)
			vars = len(p.Variables())
			if d := sameAs(p15toks([]byte(it.expr), nil), p15toks(x.BuildTokens(nil).Bytes(), nil)); d != "" && !strings.HasPrefix(it.expr, "<<") {
				o.Fail("report", "%s: the tokens of the expression of %s: %s", path, n, d)
				return
			}
		}
		if k := len(x.Variables()); k != vars {
			o.Fail("report", "%s: the expression of %s reports %d references instead of %d", path, n, k, vars)
			return
		}
	}
	blocks := real.Blocks()
	want := b.blocks()
	if len(blocks) != len(want) {
		o.Fail("report", "%s: the object reports %d blocks instead of %d", path, len(blocks), len(want))
		return
	}
	for i, bl := range blocks {
		want[i].body.report(o, fmt.Sprintf("%s.%s[%d]", path, want[i].name, i), bl.Body())
		if o.Violation != "" {
			return
		}
	}
}

// ---- sessions

type p15pair struct {
	real *hclwrite.Body
	m    *mBody
}

type p15loose struct {
	real *hclwrite.Block
	m    *mItem
}

// session is one editor with its file.
type session struct {
	o      *harness.Outcome
	name   string
	proc   *simk.Proc
	file   *hclwrite.File
	root   *mBody
	bodies []p15pair
	attrs  []*hclwrite.Attribute
	loose  []p15loose
	saved  *mBody   // what the disk holds
	other  []*mBody // what it may hold because a save or the power was cut off
	past   []*mBody
	pos    int // operations done
}

func (s *session) path() string { return "/w/" + s.name + ".hcl" }

func (s *session) collect(real *hclwrite.Body, m *mBody) {
	s.bodies = append(s.bodies, p15pair{real, m})
	blocks := real.Blocks()
	for i, it := range m.blocks() {
		if i >= len(blocks) {
			s.o.Fail("report", "a file with %d blocks reports %d", len(m.blocks()), len(blocks))
			return
		}
		s.collect(blocks[i].Body(), it.body)
	}
}

// load reads the file as it is on the disk, which may be the version before
// the last save if that did not end.
func (s *session) load() {
	var text []byte
	h, err := s.proc.Open(s.path(), 0, 0)
	if err == nil {
		buf := make([]byte, 4096)
		for {
			n, e := h.Read(buf)
			text = append(text, buf[:n]...)
			if e != nil || n == 0 {
				break
			}
		}
		h.Close()
	}
	k := s.proc.K
	disk, ok := k.Get(s.path())
	if !ok || err != nil || !bytes.Equal(disk, text) {
		// The disk does not work: the editor has nothing to edit.
		s.file = nil
		return
	}
	f, diags := hclwrite.ParseConfig(text, s.path(), start)
	if len(text) == 0 {
		// a new file, made by the editor itself
		switch (s.pos + int(s.name[len(s.name)-1])) % 3 {
		case 1:
			f = hclwrite.NewEmptyFile()
		case 2:
			f = hclwrite.NewFile()
		}
	}
	if diags.HasErrors() {
		s.o.Fail("reload", "a saved file cannot be read again: %s\n%s", diags, text)
		return
	}
	for _, m := range s.other {
		o := &harness.Outcome{}
		m.judge(o, "", text)
		if o.Violation == "" {
			s.saved = m
		}
	}
	s.other = nil
	s.saved.judge(s.o, "what is read after a restart", text)
	if s.o.Violation != "" {
		return
	}
	s.file, s.root, s.bodies, s.attrs, s.loose = f, s.saved.clone(), nil, nil, nil
	s.collect(f.Body(), s.root)
}

func (s *session) save() {
	tmp := s.path() + ".new"
	snap := s.root.clone()
	s.other = []*mBody{snap}
	h, err := s.proc.Open(tmp, 0x241, 0644) // O_WRONLY|O_CREAT|O_TRUNC
	if err == nil {
		_, err = s.file.WriteTo(h)
		if e := h.Sync(); err == nil {
			err = e
		}
		if e := h.Close(); err == nil {
			err = e
		}
		if err == nil {
			data, _ := s.proc.K.Get(tmp)
			snap.judge(s.o, "what was saved", data)
			err = s.proc.Rename(tmp, s.path())
		}
	}
	if err != nil {
		s.other = nil // there was no rename
		return
	}
	s.past = append(s.past, s.saved)
	s.saved, s.other = snap, nil
}

func (s *session) do(op harness.Op) {
	r := simrt.NewRand(uint64(op.C)*7919 + 3)
	if s.file == nil {
		if op.K != "have" {
			s.load()
		}
		return
	}
	at := s.bodies[op.A%len(s.bodies)]
	name := p15names[op.B%len(p15names)]
	if op.B >= 100 {
		if as := at.m.attrs(); len(as) > 0 {
			name = as[op.B%len(as)]
		}
	}
	set := func(a *hclwrite.Attribute, it *mItem) {
		if a == nil || a != at.real.GetAttribute(name) {
			s.o.Fail("returned", "setting the attribute %s returns %p, and the attribute is %p", name, a, at.real.GetAttribute(name))
			return
		}
		old := at.m.attr(name)
		if old == nil {
			at.m.items = append(at.m.items, it)
			return
		}
		if old.val == nil && old.trav == nil && strings.HasPrefix(old.expr, "<<") {
			old.tail = "\n"
		}
		old.val, old.trav = it.val, it.trav
	}
	switch op.K {
	case "setv":
		v := p15val(r, 2)
		set(at.real.SetAttributeValue(name, v), freshAttr(name, v))
	case "sett":
		t := p15trav(r)
		x, _ := hclsyntax.ParseExpression(hclwrite.TokensForTraversal(t).Bytes(), "", start)
		if got, _ := hcl.AbsTraversalForExpr(x); travText(got) != travText(t) {
			s.o.Fail("traversal", "the tokens for %s are %q", travText(t), hclwrite.TokensForTraversal(t).Bytes())
			return
		}
		set(at.real.SetAttributeTraversal(name, t), &mItem{kind: "attr", fresh: true, name: name, trav: t, tail: "\n"})
	case "ren":
		a, it := at.real.GetAttribute(name), at.m.attr(name)
		if a == nil {
			return
		}
		from := [][]string{{"x"}, {"x", "y"}, {"y", "z"}, {"y"}, {"q"}, {"q", "r"}}[r.N(6)]
		to := [][]string{{"q"}, {"q", "r"}, {"x", "y"}, {"x"}, {"y"}, {"longer", "if"}}[r.N(6)]
		if len(to) != len(from) {
			to = append([]string{}, from...)
			to[0] = "q"
		}
		a.Expr().RenameVariablePrefix(from, to)
		it.rename(from, to)
	case "addb":
		var ls []string
		for n := r.N(3); n > 0; n-- {
			ls = append(ls, r.Pick([]string{"one", "two words", "${x}", "q\"", "", "%{", "é\n"}))
		}
		typ := r.Pick(p15types)
		it := freshBlock(typ, ls...)
		bl := at.real.AppendNewBlock(typ, ls)
		at.m.items = append(at.m.items, it)
		s.bodies = append(s.bodies, p15pair{bl.Body(), it.body})
	case "mkb":
		typ := r.Pick(p15types)
		it := freshBlock(typ, "loose")
		bl := hclwrite.NewBlock(typ, []string{"loose"})
		s.loose = append(s.loose, p15loose{bl, it})
		s.bodies = append(s.bodies, p15pair{bl.Body(), it.body})
	case "app":
		if len(s.loose) == 0 {
			return
		}
		l := s.loose[0]
		if l.m.body.contains(at.m) {
			return
		}
		s.loose = s.loose[1:]
		at.real.AppendBlock(l.real)
		at.m.items = append(at.m.items, l.m)
	case "encb":
		v := p15row(r)
		bl := gohcl.EncodeAsBlock(v, "row")
		it := freshBlock("row", v.Name)
		it.body.items = v.model()
		at.real.AppendBlock(bl)
		at.m.items = append(at.m.items, it)
		s.collect(bl.Body(), it.body)
	case "enci":
		v := p15row(r)
		if r.Bool() {
			gohcl.EncodeIntoBody(v, at.real)
		} else {
			gohcl.EncodeIntoBody(*v, at.real)
		}
		at.m.items = v.model()
	case "clear":
		at.real.Clear()
		at.m.items = nil
	case "nl":
		if at.m.oneLine() {
			return // the bare token is not wanted there
		}
		at.real.AppendNewline()
		at.m.items = append(at.m.items, &mItem{kind: "raw", raw: "\n", fresh: true})
	case "cmt":
		if at.m.atLineStart() {
			at.real.AppendUnstructuredTokens(hclwrite.Tokens{{Type: hclsyntax.TokenComment, Bytes: []byte("# added\n")}})
			at.m.items = append(at.m.items, &mItem{kind: "raw", raw: "# added\n", fresh: true})
		}
	case "bytes":
		s.root.judge(s.o, "what the object gives", s.file.Bytes())
	case "look":
		s.root.report(s.o, "root", s.file.Body())
	case "save":
		s.save()
	case "quit":
		s.load()
	}
}

// rename applies RenameVariablePrefix to the model.
func (it *mItem) rename(from, to []string) {
	names := func(t hcl.Traversal) bool {
		if len(t) < len(from) {
			return false
		}
		for i, n := range from {
			switch s := t[i].(type) {
			case hcl.TraverseRoot:
				if s.Name != n {
					return false
				}
			case hcl.TraverseAttr:
				if s.Name != n {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	if it.trav != nil {
		if names(it.trav) {
			t := append(hcl.Traversal{}, it.trav...)
			for i, n := range to {
				switch t[i].(type) {
				case hcl.TraverseRoot:
					t[i] = hcl.TraverseRoot{Name: n}
				default:
					t[i] = hcl.TraverseAttr{Name: n}
				}
			}
			it.trav = t
		}
		return
	}
	if it.val != nil {
		return
	}
	x, _ := hclsyntax.ParseExpression([]byte(it.expr), "", start)
	type change struct {
		end, n int
		to     string
	}
	var cs []change
	for _, t := range x.Variables() {
		if names(t) {
			for i, n := range from {
				cs = append(cs, change{t[i].SourceRange().End.Byte, len(n), to[i]})
			}
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].end > cs[j].end })
	for _, c := range cs {
		it.expr = it.expr[:c.end-c.n] + c.to + it.expr[c.end:]
	}
}

func genP15(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}, S: map[string]string{}}
	for t := r.Range(1, 3); t > 0; t-- {
		var ops []harness.Op
		for n := r.N(6); n > 0; n-- {
			ops = append(ops, harness.Op{K: "have", C: r.N(1 << 20)})
		}
		if r.P(1, 3) {
			ops = append(ops, harness.Op{K: "nonl"})
		}
		ks := []string{"setv", "setv", "setv", "sett", "ren", "addb", "addb", "mkb", "app", "encb", "enci", "clear", "nl", "cmt", "bytes", "look", "save", "save", "quit"}
		// some sessions do without some operations
		for n := r.N(6); n > 0; n-- {
			i := r.N(len(ks) - 5)
			ks = append(ks[:i:i], ks[i+1:]...)
		}
		for n := r.Range(1, 14); n > 0; n-- {
			op := harness.Op{K: r.Pick(ks), A: r.N(8), B: r.N(200), C: r.N(1 << 20)}
			if r.P(1, 3) {
				op.A = 0
			}
			ops = append(ops, op)
		}
		ops = append(ops, harness.Op{K: "look"}, harness.Op{K: "save"}, harness.Op{K: "quit"}, harness.Op{K: "look"})
		sc.Tasks = append(sc.Tasks, ops)
	}
	for t := range sc.Tasks {
		if r.Bool() {
			sc.Faults = append(sc.Faults, genFaults(r, fmt.Sprintf("e%d", t), 2, []string{"err", "err", "short", "sticky", "crash", "crash"})...)
		}
	}
	if r.P(1, 8) {
		sc.Faults = append(sc.Faults, genFaults(r, "e0", 1, []string{"power"})...)
	}
	sc.Pol = genPolicy(r, 20000)
	return sc
}

func runP15(sc *harness.Scenario, o *harness.Outcome, p *harness.Property) {
	o.Sig = simrt.Mix(o.Sig, fmt.Sprint(sc.Tasks))
	begin := func(k *simk.Kernel) []*session {
		var ss []*session
		for t, ops := range sc.Tasks {
			s := &session{o: o, name: fmt.Sprintf("e%d", t), saved: &mBody{}}
			used := map[string]bool{}
			nonl := false
			for _, op := range ops {
				switch op.K {
				case "have":
					if it := p15item(simrt.NewRand(uint64(op.C)*31+7), 2, used); it != nil {
						s.saved.items = append(s.saved.items, it)
					}
				case "nonl":
					nonl = true
				}
			}
			if n := len(s.saved.items); nonl && n > 0 {
				it := s.saved.items[n-1]
				it.tail = strings.TrimRight(it.tail, "\n")
				if it.kind == "raw" {
					it.raw = strings.TrimRight(it.raw, "\n")
				}
			}
			k.Put(s.path(), []byte(s.saved.text(false)), 0644)
			s.proc = k.NewProc(s.name, []string{s.name}, nil)
			ss = append(ss, s)
		}
		k.Settle()
		return ss
	}
	work := func(s *session, ops []harness.Op) func() {
		return func() {
			s.load()
			for s.pos < len(ops) && o.Violation == "" {
				op := ops[s.pos]
				s.pos++
				if op.K != "nonl" {
					s.do(op)
				}
			}
		}
	}
	// without faults, one after the other
	k0 := simk.New(sc.Seed)
	k0.MkdirAll("/w")
	for t, s := range begin(k0) {
		if t == 0 {
			o.Note("%q", s.saved.text(false))
		}
		o.Alone(p, s.name, s.proc, work(s, sc.Tasks[t]))
		if o.Violation != "" {
			return
		}
	}
	k := simk.New(sc.Seed)
	k.MkdirAll("/w")
	ss := begin(k)
	k.Faults = place(sc.Faults, opCounts(k0))
	var specs []simrt.Spec
	for t, s := range ss {
		specs = append(specs, simrt.Spec{Name: s.name, Data: s.proc, Fn: work(s, sc.Tasks[t])})
	}
	o.Sim(sc, p, specs)
	for _, l := range k.Log {
		o.Note("%s", l)
	}
	o.Faults = append(o.Faults, k.Fired...)
	o.Nontrivial = len(k.Fired) > 0 || len(specs) > 1
	if o.Violation != "" {
		return
	}
	if k.Off {
		k.Restart()
		o.Tag("power-loss")
		for _, s := range ss {
			s.other = append(append(s.past, s.saved), s.other...)
		}
	}
	// Those that were killed start again and go on.
	k.Faults = nil
	for t, s := range ss {
		if s.pos < len(sc.Tasks[t]) {
			o.Tag("restarted")
			s.proc = k.NewProc(s.name, []string{s.name}, nil)
			o.Alone(p, s.name+" again", s.proc, work(s, sc.Tasks[t]))
		}
		if o.Violation != "" {
			return
		}
	}
	for _, s := range ss {
		if text, ok := k.Get(s.path()); !ok {
			o.Fail("gone", "%s is gone", s.path())
		} else if s.other == nil {
			s.saved.judge(o, "at the end, the file", text)
		}
	}
}

func init() {
	p := &harness.Property{
		ID: "P15", QuickRuns: 60000, QuickSecs: 45, ThoroughRuns: 3000000, ThoroughSecs: 600,
		Rule:        "a run counts when a fault fired or several editors were at work; distinct by the editors' operations and the schedule",
		Real:        []string{"hclwrite", "gohcl encoder", "hclsyntax"},
		Stub:        []string{"file system", "editor processes"},
		Assumptions: []string{"editors save by writing a new file and renaming it"},
		Gen:         genP15,
	}
	p.Run = func(sc *harness.Scenario, o *harness.Outcome) { runP15(sc, o, p) }
	harness.Register(p)
}
