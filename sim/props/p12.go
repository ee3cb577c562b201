package props

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/include"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/zclconf/go-cty/cty"

	"verifsim/harness"
	"verifsim/simk"
	"verifsim/simrt"
)

// A scenario's files are tasks that begin with a "file" operation; the other
// task is the plan of reads. The first file is the main one.

// incItem is one item of a body: attr, block, inc (include) or mark.
type incItem struct {
	k, name string
	val     int
	kids    []incItem
	how     string // of an include: its flaw, or how the path is written
	file    string // where it is written
}

type incFile struct {
	name   string
	items  []incItem
	broken bool
	text   string
}

func buildFile(ops []harness.Op) *incFile {
	f := &incFile{name: ops[0].S, broken: ops[0].T == "broken"}
	var build func() []incItem
	ops = ops[1:]
	build = func() []incItem {
		var items []incItem
		for len(ops) > 0 {
			op := ops[0]
			ops = ops[1:]
			if op.K == "end" {
				break
			}
			it := incItem{k: op.K, name: op.S, val: op.A, how: op.T, file: f.name}
			if op.K == "block" {
				it.kids = build()
			}
			items = append(items, it)
		}
		return items
	}
	for len(ops) > 0 {
		f.items = append(f.items, build()...)
	}
	if strings.HasSuffix(f.name, ".json") {
		f.text = jsonItems(f.items) + "\n"
		if f.broken {
			f.text = strings.TrimSuffix(f.text, "}\n")
		}
	} else {
		f.text = nativeItems(f.items, "")
		if f.broken {
			f.text += "one = = 1\ntwo = 5 5\noops = [\n"
		}
	}
	return f
}

func incPath(it incItem) string {
	switch it.how {
	case "expr":
		return "nosuch"
	case "type":
		return fmt.Sprintf("[%q]", it.name)
	case "tmpl":
		return fmt.Sprintf("\"${here}%s\"", it.name)
	}
	return fmt.Sprintf("%q", it.name)
}

func nativeItems(items []incItem, ind string) string {
	var b strings.Builder
	for _, it := range items {
		switch it.k {
		case "attr":
			fmt.Fprintf(&b, "%s%s = %d\n", ind, it.name, it.val)
		case "mark":
			fmt.Fprintf(&b, "%smark %q {\n%s}\n", ind, it.name, ind)
		case "block":
			fmt.Fprintf(&b, "%sb %q {\n%s%s}\n", ind, it.name, nativeItems(it.kids, ind+"  "), ind)
		case "inc":
			switch it.how {
			case "nopath":
				fmt.Fprintf(&b, "%sinclude {\n%s}\n", ind, ind)
			case "label":
				fmt.Fprintf(&b, "%sinclude \"x\" {\n%s  path = %q\n%s}\n", ind, ind, it.name, ind)
			case "extra":
				fmt.Fprintf(&b, "%sinclude {\n%s  path = %q\n%s  also = 1\n%s}\n", ind, ind, it.name, ind, ind)
			default:
				fmt.Fprintf(&b, "%sinclude {\n%s  path = %s\n%s}\n", ind, ind, incPath(it), ind)
			}
		}
	}
	return b.String()
}

func jsonItems(items []incItem) string {
	var parts, blocks, marks, incs []string
	for _, it := range items {
		switch it.k {
		case "attr":
			parts = append(parts, fmt.Sprintf("%q: %d", it.name, it.val))
		case "mark":
			marks = append(marks, fmt.Sprintf("{%q: {}}", it.name))
		case "block":
			blocks = append(blocks, fmt.Sprintf("{%q: %s}", it.name, jsonItems(it.kids)))
		case "inc":
			switch it.how {
			case "nopath", "label":
				incs = append(incs, "{}")
			case "extra":
				incs = append(incs, fmt.Sprintf("{\"path\": %q, \"also\": 1}", it.name))
			case "expr":
				incs = append(incs, "{\"path\": \"${nosuch}\"}")
			default:
				incs = append(incs, fmt.Sprintf("{\"path\": %s}", incPath(it)))
			}
		}
	}
	list := func(name string, l []string) {
		if len(l) == 1 {
			parts = append(parts, fmt.Sprintf("%q: %s", name, l[0]))
		} else if len(l) > 1 {
			parts = append(parts, fmt.Sprintf("%q: [%s]", name, strings.Join(l, ", ")))
		}
	}
	list("mark", marks)
	list("b", blocks)
	list("include", incs)
	return "{" + strings.Join(parts, ",\n") + "}"
}

func genP12(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}, S: map[string]string{}}
	all := []string{"main.hcl", "x.hcl", "y.json", "sub/p.hcl", "sub/q.json", "sub/deep/t.hcl"}
	if r.P(1, 4) {
		all[0] = "main.json"
	}
	n := r.Range(1, len(all))
	names := all[:1]
	for _, i := range r.Perm(len(all) - 1)[:n-1] {
		names = append(names[:len(names):len(names)], all[1+i])
	}
	flaws := r.P(1, 3)
	id := 0
	next := func() int { id++; return id }
	var marks []string
	var tasks [][]harness.Op
	for i, name := range names {
		ops := []harness.Op{{K: "file", S: name}}
		if i > 0 && r.P(1, 8) {
			ops[0].T = "broken"
		}
		inc := func() {
			op := harness.Op{K: "inc", T: "lit"}
			if r.Bool() {
				op.T = "tmpl"
			}
			if i+1 < len(names) && r.P(9, 10) {
				to := names[r.Range(i+1, len(names)-1)]
				op.S = relPath(path.Dir(name), to)
			} else {
				op.S = r.Pick([]string{"missing.hcl", "missing.json", "sub", "skip", "skipwarn"})
			}
			if flaws && r.P(1, 4) {
				op.T = r.Pick([]string{"nopath", "expr", "type", "label", "extra"})
			}
			ops = append(ops, op)
		}
		var body func(depth int, top bool)
		body = func(depth int, top bool) {
			for k := r.Range(0, 3); k > 0; k-- {
				switch c := r.N(8); {
				case c < 3:
					ops = append(ops, harness.Op{K: "attr", S: fmt.Sprintf("a%d", next()), A: r.N(1000)})
				case c < 5 && depth > 0:
					ops = append(ops, harness.Op{K: "block", S: fmt.Sprintf("l%d", next())})
					body(depth-1, false)
					ops = append(ops, harness.Op{K: "end"})
				case c == 5:
					m := fmt.Sprintf("m%d", next())
					marks = append(marks, m)
					ops = append(ops, harness.Op{K: "mark", S: m})
				case !(top && i > 0):
					inc()
				}
			}
		}
		body(2, true)
		if i == 0 {
			body(2, true)
			if r.P(3, 4) {
				inc()
			}
		}
		tasks = append(tasks, ops)
	}
	var plan []harness.Op
	for ph := r.Range(1, 3); ph > 0; ph-- {
		op := harness.Op{K: "phase", A: ph, T: r.Pick([]string{"new", "with", "merged", "warn"})}
		for _, m := range marks {
			if r.P(1, 5) {
				op.L = append(op.L, m)
			}
		}
		plan = append(plan, op)
		if ph > 1 || r.P(1, 2) {
			for f := r.Range(1, 3); f > 0; f-- {
				fl := simk.Fault{Proc: "app", Op: ph, Kind: "err", Arg: r.N(8), Path: "/w/" + names[r.N(len(names))], Call: r.Pick([]string{"open", "read", "reread"})}
				if r.P(1, 6) {
					fl.Kind, fl.Call = "short", "read"
				}
				sc.Faults = append(sc.Faults, fl)
			}
		}
		for k := r.Range(1, 3); k > 0; k-- {
			plan = append(plan, harness.Op{K: "read", A: r.N(4), B: r.N(1000)})
		}
	}
	sc.Tasks = append([][]harness.Op{plan}, tasks...)
	sc.S["chain"] = r.Pick([]string{"inc", "mark,inc", "inc,mark"})
	sc.S["resolver"] = r.Pick([]string{"file", "file", "file", "map"})
	sc.N["deep"] = 1
	if r.P(1, 8) {
		sc.N["deep"] = 0
	}
	sc.N["base"] = int64(r.N(4))
	return sc
}

// relPath is the path of a file from a directory, both below the same root.
func relPath(dir, to string) string {
	up := ""
	for dir != "." {
		if strings.HasPrefix(to, dir+"/") {
			return up + to[len(dir)+1:]
		}
		up += "../"
		dir = path.Dir(dir)
	}
	return up + to
}

type incWorld struct {
	files  map[string]*incFile
	chain  string
	file   bool // includes go to the file resolver
	bad    map[string]bool
	fails  map[string]bool
	how    string
	schema *hcl.BodySchema
	deep   bool
	o      *harness.Outcome
	errs   int
	loaded map[string]bool // before the phase
	reads  int             // in the phase
}

// incWant is what reading a body must give.
type incWant struct {
	attrs  map[string]int
	blocks []incItem
	err    bool
	mayErr bool
	warn   bool
	loose  bool // what is delivered is not judged
	maybe  map[string]bool
	says   [][]string // each error must name one of these
}

// want says what a body with these items must give after the transformation.
func (w *incWorld) want(items []incItem, top bool) *incWant {
	x := &incWant{attrs: map[string]int{}, maybe: map[string]bool{}}
	fails := func(items []incItem) {
		for _, it := range items {
			if it.k != "mark" || !w.fails[it.name] {
				continue
			}
			if w.how == "warn" {
				x.warn = true
				continue
			}
			x.err = true
			x.says = append(x.says, []string{"mark failed"})
			if w.how != "merged" || w.chain == "mark,inc" {
				x.loose = true
			}
		}
	}
	if w.chain == "mark,inc" {
		fails(items)
		items = drop(items, "mark")
	}
	all := drop(items, "inc")
	for _, it := range items {
		if it.k != "inc" {
			continue
		}
		switch it.how {
		case "label":
			if !strings.HasSuffix(it.file, ".json") {
				x.loose = true
			}
			fallthrough
		case "nopath", "expr", "type", "extra":
			x.err = true
			x.says = append(x.says, []string{path.Base(it.file)})
			continue
		}
		if it.name == "skip" || it.name == "skipwarn" {
			x.warn = x.warn || it.name == "skipwarn"
			continue
		}
		to := path.Join(path.Dir(it.file), it.name)
		f := w.files[to]
		switch {
		case f == nil || w.bad[to] || f.broken && !w.file:
			x.err = true
			x.says = append(x.says, []string{path.Base(it.name)})
		case f.broken:
			// The parser reports what is wrong with a file only once, when it
			// is parsed.
			x.mayErr, x.maybe["oops"] = true, true
			if w.first(to, top) {
				x.err = true
				x.says = append(x.says, []string{path.Base(it.name)})
				for _, d := range w.flaws(f) {
					x.says = append(x.says, []string{d.Summary + d.Detail})
				}
			}
			x.maybe["one"], x.maybe["two"] = true, true
			for _, s := range f.items {
				x.maybe[s.name] = true
				if s.k == "mark" && w.fails[s.name] && w.chain == "inc,mark" {
					x.loose = true
				}
			}
		default:
			all = append(all, f.items...)
		}
	}
	if w.chain == "inc,mark" {
		fails(all)
		all = drop(all, "mark")
	}
	for _, it := range all {
		switch it.k {
		case "attr":
			if _, dup := x.attrs[it.name]; dup {
				x.err = true // the file is included twice
				x.says = append(x.says, []string{it.name})
			}
			x.attrs[it.name] = it.val
		case "block", "mark":
			x.blocks = append(x.blocks, it)
		case "inc":
			x.err = true // left over in an included file
			x.loose = true
		}
	}
	return x
}

// flaws is what is wrong with a broken file.
func (w *incWorld) flaws(f *incFile) hcl.Diagnostics {
	var diags hcl.Diagnostics
	if strings.HasSuffix(f.name, ".json") {
		_, diags = hclparse.NewParser().ParseJSON([]byte(f.text), f.name)
	} else {
		_, diags = hclparse.NewParser().ParseHCL([]byte(f.text), f.name)
	}
	return diags
}

// first tells whether a broken file must be reported where it is included.
func (w *incWorld) first(name string, top bool) bool {
	n := 0
	var walk func(items []incItem)
	walk = func(items []incItem) {
		for _, it := range items {
			if it.k == "inc" && path.Join(path.Dir(it.file), it.name) == name {
				n++
				if !strings.HasPrefix(it.file, "main.") {
					n++ // that file may be included several times
				}
			}
			walk(it.kids)
		}
	}
	for _, f := range w.files {
		walk(f.items)
	}
	return n == 1 && !w.loaded[name] && (top || w.reads == 1)
}

func drop(items []incItem, kind string) []incItem {
	var ret []incItem
	for _, it := range items {
		if it.k != kind {
			ret = append(ret, it)
		}
	}
	return ret
}

func (w *incWorld) markTransformer() transform.Transformer {
	schema := &hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "mark", LabelNames: []string{"name"}}}}
	return transform.TransformerFunc(func(in hcl.Body) hcl.Body {
		content, remain, diags := in.PartialContent(schema)
		for _, b := range content.Blocks {
			if !w.fails[b.Labels[0]] {
				continue
			}
			d := &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "mark failed", Detail: b.Labels[0], Subject: &b.DefRange}
			w.o.Faults = append(w.o.Faults, w.how+"/transformer")
			switch w.how {
			case "warn":
				d.Severity = hcl.DiagWarning
				diags = append(diags, d)
			case "new":
				return transform.NewErrorBody(append(diags, d))
			case "with":
				return transform.BodyWithDiagnostics(remain, append(diags, d))
			default:
				diags = append(diags, d)
			}
		}
		if diags.HasErrors() {
			return hcl.MergeBodies([]hcl.Body{remain, transform.NewErrorBody(diags)})
		}
		return transform.BodyWithDiagnostics(remain, diags)
	})
}

func runP12(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P12")
	w := &incWorld{files: map[string]*incFile{}, chain: sc.S["chain"], file: sc.S["resolver"] == "file", deep: sc.N["deep"] == 1, o: o}
	var plan []harness.Op
	var main *incFile
	for _, t := range sc.Tasks {
		if len(t) > 0 && t[0].K == "file" {
			f := buildFile(t)
			w.files[f.name] = f
			if main == nil {
				main = f
			}
		} else {
			plan = append(plan, t...)
		}
	}
	if main == nil || !strings.HasPrefix(main.name, "main.") {
		return
	}
	k := simk.New(sc.Seed)
	k.MkdirAll("/w/sub/deep")
	w.schema = &hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "b", LabelNames: []string{"name"}}, {Type: "mark", LabelNames: []string{"name"}}}}
	var names []string
	for n, f := range w.files {
		k.Put("/w/"+n, []byte(f.text), 0644)
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		var walk func(items []incItem)
		walk = func(items []incItem) {
			for _, it := range items {
				if it.k == "attr" {
					w.schema.Attributes = append(w.schema.Attributes, hcl.AttributeSchema{Name: it.name})
				}
				walk(it.kids)
			}
		}
		walk(w.files[n].items)
	}
	pr := k.NewProc("app", []string{"app"}, nil)
	pr.Cwd = "/w"
	if sc.N["base"] > 0 {
		k.MkdirAll("/other")
		pr.Cwd = "/other"
	}

	o.Alone(p, "app", pr, func() {
		parser := hclparse.NewParser()
		base := "."
		mainName := main.name
		switch sc.N["base"] {
		case 1:
			base = "/w"
		case 2:
			base, mainName = "/elsewhere", "/w/"+main.name
		case 3:
			base, mainName = "/", "w/"+main.name
		}
		var root *hcl.File
		if strings.HasSuffix(mainName, ".json") {
			root, _ = parser.ParseJSON([]byte(main.text), mainName)
		} else {
			root, _ = parser.ParseHCL([]byte(main.text), mainName)
		}
		var res include.Resolver
		if w.file {
			res = include.FileResolver(base, parser)
		} else {
			m := map[string]hcl.Body{}
			mp := hclparse.NewParser()
			for _, n := range names {
				if w.files[n].broken {
					continue
				}
				if strings.HasSuffix(n, ".json") {
					f, _ := mp.ParseJSON([]byte(w.files[n].text), n)
					m[n] = f.Body
				} else {
					f, _ := mp.ParseHCL([]byte(w.files[n].text), n)
					m[n] = f.Body
				}
			}
			mr := include.MapResolver(m)
			res = include.ResolverFunc(func(p string, rng hcl.Range) (hcl.Body, hcl.Diagnostics) {
				name := strings.TrimPrefix(path.Join("/", path.Dir(rng.Filename), p), "/")
				body, diags := mr.ResolveBodyPath(strings.TrimPrefix(name, "w/"), rng)
				return body, diags
			})
		}
		outer := include.ResolverFunc(func(p string, rng hcl.Range) (hcl.Body, hcl.Diagnostics) {
			simrt.Yield()
			switch p {
			case "skip", "./skip":
				return nil, nil
			case "skipwarn", "./skipwarn":
				return nil, hcl.Diagnostics{{Severity: hcl.DiagWarning, Summary: "skipped", Detail: p, Subject: &rng}}
			}
			return res.ResolveBodyPath(p, rng)
		})
		ctx := &hcl.EvalContext{Variables: map[string]cty.Value{"here": cty.StringVal("./")}}
		inc := include.Transformer("include", ctx, outer)
		var tr transform.Transformer
		switch w.chain {
		case "inc":
			tr = inc
		case "mark,inc":
			tr = transform.Chain([]transform.Transformer{w.markTransformer(), inc})
		default:
			tr = transform.Chain([]transform.Transformer{inc, w.markTransformer()})
		}
		var body hcl.Body
		started := false
		begin := func(op harness.Op) {
			started = true
			w.fails, w.how = map[string]bool{}, op.T
			for _, m := range op.L {
				w.fails[m] = true
			}
			w.bad = map[string]bool{}
			w.reads = 0
			w.loaded = map[string]bool{}
			for n := range parser.Files() {
				w.loaded[strings.TrimPrefix(n, "/w/")] = true
			}
			k.Faults = nil
			for _, f := range sc.Faults {
				if f.Op != op.A {
					continue
				}
				k.Faults = append(k.Faults, f)
				n := strings.TrimPrefix(f.Path, "/w/")
				if f.Kind != "err" || !w.file || w.files[n] == nil || f.Call == "reread" && w.files[n].text == "" {
					continue
				}
				if !w.loaded[n] {
					w.bad[n] = true
				}
			}
			if w.deep {
				body = transform.Deep(root.Body, tr)
			} else {
				body = transform.Shallow(root.Body, tr)
			}
		}
		for i, op := range plan {
			if o.Violation != "" {
				return
			}
			switch op.K {
			case "phase":
				begin(op)
			case "read":
				if !started {
					begin(harness.Op{})
				}
				w.reads++
				w.read(fmt.Sprintf("read %d", i), body, w.want(main.items, true), op.A, op.B)
			}
		}
	})
	noteKernel(o, k, pr)
	o.Nontrivial = len(k.Fired) > 0 || w.errs > 0
}

// read consumes a body and everything below it and judges it.
func (w *incWorld) read(at string, body hcl.Body, x *incWant, mode, split int) {
	o := w.o
	simrt.Yield()
	attrs := hcl.Attributes{}
	var blocks hcl.Blocks
	var diags hcl.Diagnostics
	take := func(c *hcl.BodyContent, d hcl.Diagnostics) {
		diags = append(diags, d...)
		for n, a := range c.Attributes {
			if attrs[n] != nil {
				o.Fail("twice", "%s: attribute %s is delivered twice", at, n)
			}
			attrs[n] = a
		}
		blocks = append(blocks, c.Blocks...)
	}
	switch {
	case mode == 3 && len(x.blocks) == 0 && !x.loose && len(x.maybe) == 0:
		a, d := body.JustAttributes()
		diags = d
		for n, v := range a {
			attrs[n] = v
		}
	case mode == 1 || mode == 2:
		parts := [3]*hcl.BodySchema{{}, {}, {}}
		for i, a := range w.schema.Attributes {
			s := parts[(i*7+split)%5%3]
			s.Attributes = append(s.Attributes, a)
		}
		for i, b := range w.schema.Blocks {
			s := parts[(i*5+split/7)%3]
			s.Blocks = append(s.Blocks, b)
		}
		var rest hcl.Body
		c, rest, d := body.PartialContent(parts[0])
		take(c, d)
		if mode == 2 {
			c, rest, d = rest.PartialContent(parts[1])
			take(c, d)
		} else {
			parts[2].Attributes = append(parts[2].Attributes, parts[1].Attributes...)
			parts[2].Blocks = append(parts[2].Blocks, parts[1].Blocks...)
		}
		c, d = rest.Content(parts[2])
		take(c, d)
	default:
		c, d := body.Content(w.schema)
		take(c, d)
	}
	o.Note("%s: %d attributes, %d blocks, %d diagnostics", at, len(attrs), len(blocks), len(diags))
	if o.Violation != "" {
		return
	}
	if x.err {
		w.errs++
		if !diags.HasErrors() {
			o.Fail("unreported", "%s: something failed (%v), and there is no error; diagnostics: %s", at, x.says, canonDiags(diags))
			return
		}
	} else if diags.HasErrors() && !x.mayErr {
		o.Fail("spurious", "%s: nothing failed, but there are errors: %s", at, canonDiags(diags))
		return
	}
	if x.loose {
		w.below(at, blocks, mode, split)
		return
	}
	for _, s := range x.says {
		found := false
		for _, d := range diags {
			for _, t := range s {
				if d.Severity == hcl.DiagError && (strings.Contains(d.Summary+d.Detail, t) || d.Subject != nil && strings.Contains(d.Subject.Filename, t)) {
					found = true
				}
			}
		}
		if !found {
			o.Fail("unnamed", "%s: no error says what failed (%v): %s", at, s, canonDiags(diags))
			return
		}
	}
	if x.warn {
		found := false
		for _, d := range diags {
			found = found || d.Severity == hcl.DiagWarning
		}
		if !found {
			o.Fail("warning", "%s: a warning given while resolving is lost; diagnostics: %s", at, canonDiags(diags))
			return
		}
	}
	var missing []string
	for n, v := range x.attrs {
		a := attrs[n]
		if a == nil {
			missing = append(missing, n)
			continue
		}
		if got, d := a.Expr.Value(nil); d.HasErrors() || canonVal(got) != fmt.Sprint(v) {
			o.Fail("value", "%s: attribute %s is %s instead of %d", at, n, canonVal(got), v)
			return
		}
	}
	if len(missing) > 0 {
		sort.Strings(missing)
		o.Fail("missing", "%s: attributes %v are missing; diagnostics: %s", at, missing, canonDiags(diags))
		return
	}
	for n := range attrs {
		if _, ok := x.attrs[n]; !ok && !x.maybe[n] {
			o.Fail("extra", "%s: attribute %s is delivered but does not belong there", at, n)
			return
		}
	}
	for _, typ := range []string{"b", "mark"} {
		var want []incItem
		var wl, gl []string
		for _, it := range x.blocks {
			if (it.k == "block") == (typ == "b") {
				want = append(want, it)
				wl = append(wl, it.name)
			}
		}
		var got hcl.Blocks
		for _, b := range blocks {
			if b.Type == typ && !x.maybe[b.Labels[0]] {
				got = append(got, b)
				gl = append(gl, b.Labels[0])
			}
		}
		if strings.Join(wl, ",") != strings.Join(gl, ",") {
			o.Fail("blocks", "%s: blocks %v of type %s are delivered instead of %v; diagnostics: %s", at, gl, typ, wl, canonDiags(diags))
			return
		}
		if typ != "b" {
			continue
		}
		for i, b := range got {
			if w.deep {
				w.read(at+"/"+b.Labels[0], b.Body, w.want(want[i].kids, false), (mode+split+i)%4, split/3+i)
			}
			if o.Violation != "" {
				return
			}
		}
	}
}

// below reads blocks of which nothing is known.
func (w *incWorld) below(at string, blocks hcl.Blocks, mode, split int) {
	for _, b := range blocks {
		c, rest, _ := b.Body.PartialContent(w.schema)
		rest.Content(w.schema)
		rest.JustAttributes()
		w.below(at, c.Blocks, mode, split)
	}
}

func init() {
	harness.Register(&harness.Property{
		ID: "P12", QuickRuns: 200000, QuickSecs: 45, ThoroughRuns: 3000000, ThoroughSecs: 600,
		Rule:        "a run counts when a fault fired or an include or transformer failed; distinct by the operation trace with the faults as fired",
		Real:        []string{"ext/include", "ext/transform", "hclparse", "hcl merged bodies", "hcl/json", "hclsyntax"},
		Stub:        []string{"file system", "application transformers and resolvers"},
		Assumptions: []string{"the meaning of the small files is known by construction"},
		Gen:         genP12, Run: runP12,
	})
}
