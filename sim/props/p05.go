package props

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"

	"verifsim/harness"
	"verifsim/simk"
	"verifsim/simrt"
)

// orderKinds are operations that look at orders and choices which the other
// properties leave open.
var orderKinds = []string{"varsord", "schemaord", "wblocks", "suggest", "suggest", "suggest", "suggestattr", "suggestattr", "gofields", "rename", "encodemap"}

func genP05(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}, S: map[string]string{}}
	switch c := r.N(12); {
	case c == 0:
		sc = genP08(r, tier)
		sc.Kind = "hcldec"
	case c == 1:
		sc = genP09(r, tier)
		sc.Kind = "hclspecsuite"
		sc.S["fake"] = ""
	case c == 2:
		genFmtFiles(r, sc, 3, false)
		sc.Kind = "hclfmt"
		for _, k := range []string{"check", "nochange", "write"} {
			sc.N[k] = int64(r.N(2))
		}
	default:
		sc.Kind = sharedKinds[r.N(len(sharedKinds))]
		bad := 0
		if r.P(3, 4) {
			bad = r.Range(1, 8)
		}
		sc.Docs = genConfDocs(r, sc.Kind, r.Range(1, 3), bad)
		if r.P(1, 6) {
			damage(r, &sc.Docs[r.N(len(sc.Docs))])
		}
		var ops []harness.Op
		for k := r.Range(1, 4); k > 0; k-- {
			switch r.N(3) {
			case 0:
				op := genRead(r)
				op.T, op.K = op.K, "conf"
				ops = append(ops, op)
			case 1:
				ops = append(ops, genWork(r, len(sc.Docs)))
			default:
				ops = append(ops, harness.Op{K: orderKinds[r.N(len(orderKinds))], A: r.N(len(sc.Docs)), B: r.N(16), C: r.N(1 << 20)})
			}
		}
		sc.Tasks = [][]harness.Op{ops}
	}
	sc.Faults = nil
	sc.N["seeds"] = int64(r.Range(3, 8))
	return sc
}

// similar returns names that are close to each other, and one more that is
// close to all of them but not among them.
func similar(r *rnd, n int) ([]string, string) {
	base := []byte(r.Pick([]string{"volume", "instance", "region", "subnets", "timeout"}))
	seen := map[string]bool{string(base): true}
	var names []string
	for i := 0; len(names) < n && i < 100; i++ {
		b := append([]byte{}, base...)
		at := r.N(len(b))
		switch r.N(3) {
		case 0:
			b[at] = byte('a' + r.N(26))
		case 1:
			b = append(b[:at], b[at+1:]...)
		case 2:
			b = append(b[:at], append([]byte{byte('a' + r.N(26))}, b[at:]...)...)
		}
		if s := string(b); !seen[s] {
			seen[s] = true
			names = append(names, s)
		}
	}
	return names, string(base)
}

// ordered renders traversals in the order given.
func ordered(ts []hcl.Traversal) string {
	var ss []string
	for _, t := range ts {
		ss = append(ss, canonTraversal(t))
	}
	return strings.Join(ss, "\n")
}

func canonSchema(s *hcl.BodySchema) string { return fmt.Sprintf("%v\n%v", s.Attributes, s.Blocks) }

// orderOp performs one of orderKinds.
func orderOp(op harness.Op, sc *harness.Scenario) string {
	var b strings.Builder
	doc := docAt(sc, op.A)
	r := simrt.NewRand(uint64(op.C))
	switch op.K {
	case "varsord":
		c := load(sc.Kind, sc.Docs)
		spec := mkSpec(op.B)
		b.WriteString(ordered(hcldec.Variables(c.body, spec)) + "\n--\n")
		b.WriteString(ordered(dynblock.VariablesHCLDec(c.body, spec)) + "\n--\n")
		b.WriteString(ordered(dynblock.ExpandVariablesHCLDec(c.body, spec)) + "\n--\n")
		eachAttr(c.body, func(path string, a *hcl.Attribute) {
			b.WriteString(path + ": " + ordered(a.Expr.Variables()) + "\n")
		})
	case "schemaord":
		spec := mkSpec(op.B)
		b.WriteString(canonSchema(hcldec.ImpliedSchema(spec)) + canonType(hcldec.ImpliedType(spec)))
		for _, v := range []interface{}{gRoot{}, &gService{}, gListener{}} {
			s, partial := gohcl.ImpliedBodySchema(v)
			fmt.Fprintf(&b, "%s %v\n", canonSchema(s), partial)
		}
	case "wblocks":
		f, diags := hclwrite.ParseConfig([]byte(doc.Text()), doc.Name, start)
		b.WriteString(canonDiags(diags))
		if f == nil {
			break
		}
		for i := r.N(4); i > 0; i-- {
			f.Body().AppendNewBlock("extra", []string{fmt.Sprint(i)})
		}
		var walk func(body *hclwrite.Body, ind string)
		walk = func(body *hclwrite.Body, ind string) {
			var ns []string
			for n := range body.Attributes() {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			b.WriteString(ind + strings.Join(ns, " ") + "\n")
			for _, blk := range body.Blocks() {
				fmt.Fprintf(&b, "%s%s\n", ind, blk.BuildTokens(nil).Bytes())
				walk(blk.Body(), ind+" ")
			}
		}
		walk(f.Body(), "")
	case "rename":
		f, _ := hclwrite.ParseConfig([]byte(doc.Text()), doc.Name, start)
		if f == nil {
			break
		}
		for _, a := range f.Body().Attributes() {
			for _, n := range []string{"name", "obj", "list"} {
				a.Expr().RenameVariablePrefix([]string{n}, []string{"new_" + n})
			}
		}
		b.Write(f.Bytes())
	case "encodemap":
		vals := map[string]cty.Value{}
		names, _ := similar(r, 2+op.B)
		for i, n := range names {
			vals[n] = cty.NumberIntVal(int64(i))
		}
		for _, v := range []cty.Value{cty.ObjectVal(vals), cty.MapVal(vals)} {
			f := hclwrite.NewEmptyFile()
			f.Body().SetAttributeValue("x", v)
			b.Write(f.Bytes())
			b.Write(hclwrite.TokensForValue(v).Bytes())
		}
		f := hclwrite.NewEmptyFile()
		gohcl.EncodeIntoBody(p15row(r), f.Body())
		f.Body().AppendBlock(gohcl.EncodeAsBlock(p15row(r), "row"))
		b.Write(f.Bytes())
		b.WriteString(canonType(cty.Object(map[string]cty.Type{"a": cty.String})))
	case "suggest":
		b.WriteString(suggestExpr(r))
	case "suggestattr":
		b.WriteString(suggestItem(r))
	case "gofields":
		c := load(sc.Kind, sc.Docs)
		var m map[string]cty.Value
		diags := gohcl.DecodeBody(c.body, ctxFor(op.B%6), &m)
		fmt.Fprintf(&b, "%d %s\n", len(m), canonDiags(diags))
		for _, blk := range func() hcl.Blocks {
			content, _, _ := c.body.PartialContent(rootSchema())
			return content.Blocks
		}() {
			var m map[string]*hcl.Attribute
			b.WriteString(canonDiags(gohcl.DecodeBody(blk.Body, ctxFor(op.B%6), &m)) + "\n")
		}
	default:
		panic("unknown order op " + op.K)
	}
	return b.String()
}

// suggestExpr evaluates an expression with a name that does not exist where
// several similar ones do.
func suggestExpr(r *rnd) string {
	names, wrong := similar(r, r.Range(2, 12))
	vals := map[string]cty.Value{}
	fns := map[string]function.Function{}
	inner := map[string]cty.Value{}
	ifns := map[string]function.Function{}
	for i, n := range names {
		v := cty.NumberIntVal(int64(i))
		if i%3 == 0 {
			inner[n] = v
			ifns[n] = stdFuncs()["upper"]
		} else {
			vals[n] = v
			fns[n] = stdFuncs()["upper"]
		}
	}
	objs := map[string]cty.Value{}
	for n, v := range vals {
		objs[n] = v
	}
	vals["obj"] = cty.ObjectVal(objs)
	vals["map"] = cty.MapVal(objs)
	ctx := &hcl.EvalContext{Variables: vals, Functions: fns}
	if r.Bool() {
		ctx = ctx.NewChild()
		if r.Bool() {
			ctx.Variables, ctx.Functions = inner, ifns
		}
	}
	var b strings.Builder
	texts := []string{"%s", "obj.%s", "map.%s", "%s(\"x\")", "obj[\"%s\"]", "[for k, v in obj: %s]", "\"a${%s}\"", "%s.x[0]", "{%s = %[1]s}", "map[\"%s\"]", "obj.*.%s"}
	for k := r.Range(1, 3); k > 0; k-- {
		e, diags := hclsyntax.ParseExpression([]byte(fmt.Sprintf(texts[r.N(len(texts))], wrong)), "e.hcl", start)
		b.WriteString(canonDiags(diags))
		v, diags := e.Value(ctx)
		b.WriteString(canonVal(v) + canonDiags(diags) + "\n")
	}
	return b.String()
}

// suggestItem reads a body that has an item of a name that is not in the
// schema where several similar ones are.
func suggestItem(r *rnd) string {
	names, wrong := similar(r, r.Range(2, 12))
	text := fmt.Sprintf("%s = 1\n", wrong)
	if r.Bool() {
		text = fmt.Sprintf("%s {\n}\n", wrong)
	}
	spec := hcldec.ObjectSpec{}
	for i, n := range names {
		if i%4 == 3 {
			spec[n] = &hcldec.BlockSpec{TypeName: n, Nested: hcldec.ObjectSpec{}}
		} else {
			spec[n] = &hcldec.AttrSpec{Name: n, Type: cty.String}
		}
	}
	if len(names) > 2 && r.Bool() {
		text += fmt.Sprintf("%s = 2\n", names[1])
	}
	var body hcl.Body
	switch r.N(3) {
	case 0:
		f, _ := hclsyntax.ParseConfig([]byte(text), "i.hcl", start)
		body = f.Body
	case 1:
		f, _ := parseDoc(harness.Doc{Name: "i.json", Chunks: []string{fmt.Sprintf("{%q: {}}", wrong)}})
		body = f.Body
	case 2:
		pb, _ := hclpack.PackNativeFile([]byte(text), "i.hcl", start)
		body = pb
	}
	if r.P(1, 4) {
		body = hcl.MergeBodies([]hcl.Body{body, hcl.EmptyBody()})
	}
	if r.P(1, 4) {
		body = dynblock.Expand(body, nil)
		if r.Bool() {
			_, body, _ = body.PartialContent(hcldec.ImpliedSchema(hcldec.ObjectSpec{"x": &hcldec.AttrSpec{Name: "x", Type: cty.String}, names[0]: &hcldec.AttrSpec{Name: names[0], Type: cty.String}}))
		}
	}
	v, diags := hcldec.Decode(body, spec, nil)
	return canonVal(v) + canonDiags(diags)
}

// sortedLines is for text in which the order does not matter.
func sortedLines(s string) string {
	var l []interface{}
	var doc map[string]interface{}
	if json.Unmarshal([]byte(s), &doc) == nil {
		if d, ok := doc["diagnostics"].([]interface{}); ok {
			l = d
		}
		var ss []string
		for _, x := range l {
			t, _ := json.Marshal(x)
			ss = append(ss, string(t))
		}
		sort.Strings(ss)
		return strings.Join(ss, "\n")
	}
	ls := strings.Split(s, "\n")
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

// ctyReason matches the part of a message that comes from go-cty's conversion
// of a collection. It names the first unsuitable element found, which depends
// on the order of go-cty's own maps. go-cty is not part of the repository.
var ctyReason = regexp.MustCompile(`: (element|attribute) "[^|\n]*`)

func runP05(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P05")
	o.Nontrivial = true
	o.Tag(sc.Kind)
	o.Sig = simrt.Mix(o.Sig, fmt.Sprint(sc.Seed, sc.N["seeds"]))
	// Each alternative repeats the same work in what looks like another
	// process to the runtime's maps.
	each := func(what, key string, f func() string) {
		var want string
		for i := int64(0); i < sc.N["seeds"] && o.Violation == ""; i++ {
			simrt.MapSeed(sc.MapSeed + uint64(i/2*2)*0x9e37)
			got := ctyReason.ReplaceAllString(f(), ": some element")
			o.Faults = append(o.Faults, "order/maps")
			if i == 0 || o.Violation != "" {
				want = got
			} else if got != want {
				a, b := firstDiff(want, got)
				how := "in another process"
				if i == 1 {
					how = "when it is repeated"
				}
				o.Fail(key, "%s gives another result %s:\n--- first\n%s\n--- then\n%s", what, how, a, b)
			}
		}
	}
	lib := func(what, key string, f func() string) {
		each(what, key, func() (got string) {
			o.Alone(p, what, nil, func() { got = guard(f) })
			return
		})
	}
	cmd := func(f func() (*simk.Kernel, *simk.Proc)) {
		each(sc.Kind, sc.Kind, func() string {
			k, pr := f()
			if o.Violation != "" || crashed(o, pr) {
				return ""
			}
			var b strings.Builder
			out := string(pr.Stdout.Buf)
			if sc.Kind == "hclspecsuite" {
				out = sortedLines(out)
			}
			fmt.Fprintf(&b, "exit %d\n%s\n-- stderr\n%s\n-- files\n", pr.Code, out, sortedLines(string(pr.Stderr.Buf)))
			fs := snapshot(k, "/w")
			for _, n := range sortedKeys(fs) {
				b.WriteString(n + " " + fs[n] + "\n")
			}
			return b.String()
		})
	}
	switch sc.Kind {
	case "hcldec":
		in := buildDec(uint64(sc.N["gs"]), int(sc.N["size"]), sc.S["flaw"])
		if in.Empty {
			return // the known finding of P08
		}
		in.note(o)
		cmd(func() (*simk.Kernel, *simk.Proc) { return execDec(o, p, sc, in, nil) })
		return
	case "hclspecsuite":
		s := buildSuite(uint64(sc.N["gs"]), int(sc.N["tests"]), int(sc.N["size"]), sc.S["bad"], "", false)
		for _, t := range s.tests {
			for _, f := range t.files {
				o.Note("%s:\n%s", f.Name, f.Text)
			}
		}
		cmd(func() (*simk.Kernel, *simk.Proc) { return execSuite(o, p, sc, s, nil) })
		return
	case "hclfmt":
		cmd(func() (*simk.Kernel, *simk.Proc) {
			k := simk.New(sc.Seed)
			files := putFmtFiles(k, sc)
			args := fmtArgs(sc, files)
			if sc.N["write"] == 1 {
				args = append([]string{"-w"}, args...)
			}
			pr, _ := runCmd(o, p, k, progHclfmt, "hclfmt", args, nil)
			return k, pr
		})
		return
	}
	if len(sc.Tasks) > 0 {
		for _, op := range sc.Tasks[0] {
			op := op
			if o.Violation != "" {
				return
			}
			switch op.K {
			case "conf":
				rd := op
				rd.K = op.T
				lib("reading: "+rd.K, "read:"+rd.K, func() string { return load(sc.Kind, sc.Docs).hold().readOp(rd) })
			case "varsord", "schemaord", "wblocks", "suggest", "suggestattr", "gofields", "rename", "encodemap":
				lib(op.K, op.K, func() string { return orderOp(op, sc) })
			default:
				lib(op.K, op.K, func() string { return doWork(op, docAt(sc, op.A)) })
			}
		}
	}
}

func init() {
	harness.Register(&harness.Property{
		ID: "P05", QuickRuns: 30000, QuickSecs: 45, ThoroughRuns: 3000000, ThoroughSecs: 600,
		Rule:        "every run counts: the same work under several map seeds; distinct by the work and the seeds",
		Real:        []string{"all packages of the library", "cmd/hcldec", "cmd/hclfmt", "cmd/hclspecsuite"},
		Stub:        []string{"the runtime's source of map seeds and iteration offsets", "operating system (for the commands)"},
		Assumptions: []string{"diagnostics are compared as a set, so their order is free"},
		Gen:         genP05, Run: runP05, Shrink: shrinkDec,
	})
}
