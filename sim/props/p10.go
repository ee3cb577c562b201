package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclparse"

	"verifsim/harness"
	"verifsim/simk"
)

// plainDoc is a small file whose meaning is known: numbers by attribute name
// and labels of "b" blocks.
type plainDoc struct {
	text   string
	attrs  map[string]int
	labels []string
	broken bool
}

// mkPlain makes version v of a file; shape selects syntax and flaws.
func mkPlain(shape string, v int) *plainDoc {
	d := &plainDoc{attrs: map[string]int{}}
	n := v%4 + 1
	for i := 0; i < n; i++ {
		d.attrs[fmt.Sprintf("a%d", i)] = v*10 + i
	}
	for i := 0; i < v%3; i++ {
		d.labels = append(d.labels, fmt.Sprintf("l%d", v+i))
	}
	var b strings.Builder
	if strings.HasPrefix(shape, "json") {
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, fmt.Sprintf("  \"a%d\": %d", i, v*10+i))
		}
		var bs []string
		for _, l := range d.labels {
			bs = append(bs, fmt.Sprintf("{%q: {\"x\": %q}}", l, l))
		}
		if len(bs) > 0 {
			parts = append(parts, "  \"b\": ["+strings.Join(bs, ", ")+"]")
		}
		b.WriteString("{\n" + strings.Join(parts, ",\n") + "\n}\n")
	} else {
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "a%d = %d\n", i, v*10+i)
		}
		for _, l := range d.labels {
			fmt.Fprintf(&b, "b %q {\n  x = %q\n}\n", l, l)
		}
	}
	d.text = b.String()
	// Line ends and trailing space do not matter to the meaning.
	switch v / 8 {
	case 1:
		d.text = strings.Replace(d.text, "\n", "\r\n", -1)
	case 2:
		d.text = strings.TrimSuffix(d.text, "\n")
	case 3:
		d.text += "\n \t\n"
	}
	switch shape {
	case "native-broken":
		d.text += "\noops = [\n"
		d.broken = true
	case "json-broken":
		d.text = strings.TrimRight(d.text, "} \t\r\n")
		d.broken = true
	case "native-empty", "json-empty":
		d.text = ""
		d.attrs, d.labels = map[string]int{}, nil
	}
	return d
}

// matches compares a body with what the document says.
func (d *plainDoc) matches(body hcl.Body) string {
	content, diags := body.Content(plainSchema)
	if diags.HasErrors() {
		return "reading its content gives errors: " + canonDiags(diags)
	}
	for n, v := range d.attrs {
		a := content.Attributes[n]
		if a == nil {
			return "attribute " + n + " is missing"
		}
		got, diags := a.Expr.Value(nil)
		if want := fmt.Sprintf("%d", v); diags.HasErrors() || canonVal(got) != want {
			return fmt.Sprintf("attribute %s is %s instead of %d", n, canonVal(got), v)
		}
	}
	if len(content.Attributes) != len(d.attrs) {
		return fmt.Sprintf("there are %d attributes instead of %d", len(content.Attributes), len(d.attrs))
	}
	var ls []string
	for _, b := range content.Blocks {
		ls = append(ls, b.Labels...)
	}
	if strings.Join(ls, ",") != strings.Join(d.labels, ",") {
		return fmt.Sprintf("there are blocks %q instead of %q", ls, d.labels)
	}
	return ""
}

var plainSchema = func() *hcl.BodySchema {
	s := &hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "b", LabelNames: []string{"name"}}}}
	for i := 0; i < 4; i++ {
		s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: fmt.Sprintf("a%d", i)})
	}
	return s
}()

var regShapes = []string{"native", "native", "native", "native-broken", "native-empty", "json", "json", "json", "json-broken", "json-empty"}

func genP10(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}}
	names := []string{"a.hcl", "b.json", "sub/c.hcl", "sub/d.json", "sub/a.hcl", "sub/b.json", "e"}
	put := func(n string) harness.Op {
		op := harness.Op{K: "put", S: n, T: regShapes[r.N(len(regShapes))], A: r.N(40)}
		if r.P(3, 4) {
			op.T = "native"
			if strings.HasSuffix(n, ".json") {
				op.T = "json"
			}
		}
		return op
	}
	var ops []harness.Op
	for _, n := range names {
		if r.P(2, 3) {
			ops = append(ops, put(n))
		}
	}
	kinds := []string{"hcl", "hcl", "hcl", "json", "json", "json", "hcl", "json", "mem", "memjson", "add", "files", "sources", "print", "print", "read", "jsonfile", "put", "rm", "dir"}
	for n := r.Range(3, 14); n > 0; n-- {
		op := harness.Op{K: kinds[r.N(len(kinds))], S: names[r.N(len(names))]}
		switch op.K {
		case "put":
			op = put(op.S)
		case "hcl", "json":
			if r.P(4, 5) {
				op.K = "hcl"
				if strings.HasSuffix(op.S, ".json") {
					op.K = "json"
				}
			}
		case "mem", "memjson", "add":
			op.A = r.N(40)
			op.T = "native"
			if op.K == "memjson" {
				op.T = "json"
			}
			if r.P(1, 4) {
				op.T += "-broken"
			}
		case "print":
			op.A = r.N(4)
		}
		ops = append(ops, op)
	}
	sc.Tasks = [][]harness.Op{ops}
	sc.Faults = genFaults(r, "app", 3, []string{"err", "err", "err", "short"})
	return sc
}

func runP10(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P10")
	k0 := simk.New(sc.Seed)
	runRegistry(sc, o, p, k0)
	if o.Violation != "" {
		return
	}
	k := simk.New(sc.Seed)
	k.Faults = place(sc.Faults, opCounts(k0))
	pr := runRegistry(sc, o, p, k)
	noteKernel(o, k, pr)
	o.Nontrivial = len(k.Fired) > 0
}

type regEntry struct {
	doc   *plainDoc
	shape string
	file  *hcl.File
	as    string // syntax it was parsed as
}

func runRegistry(sc *harness.Scenario, o *harness.Outcome, p *harness.Property, k *simk.Kernel) *simk.Proc {
	k.MkdirAll("/w/sub")
	pr := k.NewProc("app", []string{"app"}, nil)
	pr.Cwd = "/w"
	if len(sc.Tasks) == 0 {
		return pr
	}
	disk := map[string]*regEntry{} // nil doc: a directory
	reg := map[string]*regEntry{}
	var all hcl.Diagnostics
	parser := hclparse.NewParser()

	load := func(op harness.Op, i int) {
		before := len(k.Fired)
		var f *hcl.File
		var diags hcl.Diagnostics
		as := "native"
		switch op.K {
		case "hcl":
			f, diags = parser.ParseHCLFile(op.S)
		case "json":
			as = "json"
			f, diags = parser.ParseJSONFile(op.S)
		case "jsonfile":
			as = "json"
			f, diags = json.ParseFile(op.S)
		}
		all = append(all, diags...)
		hard, soft := false, false
		for _, x := range k.Fired[before:] {
			switch {
			case strings.HasSuffix(x, "/open") || strings.HasSuffix(x, "/read"):
				hard = hard || !strings.HasPrefix(x, "short/")
			default:
				soft = true
			}
		}
		o.Note("%d: %s %s: file %v, %d diagnostics, fault %v", i, op.K, op.S, f != nil, len(diags), hard)
		if e := reg[op.S]; e != nil && op.K != "jsonfile" {
			if f == nil || f.Body == nil || !bytes.Equal(f.Bytes, []byte(e.doc.text)) {
				o.Fail("again", "operation %d (%s): loading %s again does not give the file loaded before", i, op, op.S)
			} else {
				judgePlain(o, fmt.Sprintf("operation %d (%s), loading again", i, op), f, e)
			}
			return
		}
		d := disk[op.S]
		if hard || d == nil || d.doc == nil {
			if !diags.HasErrors() {
				o.Fail("unreported", "operation %d (%s): %s could not be read, and there is no error (file object: %v)", i, op, op.S, f != nil)
			} else if f != nil && f.Body != nil {
				content, _, _ := f.Body.PartialContent(plainSchema)
				if content != nil && len(content.Attributes)+len(content.Blocks) > 0 {
					o.Fail("partial", "operation %d (%s): %s could not be read, but its configuration has content", i, op, op.S)
				}
			}
			return
		}
		if f == nil {
			if !soft || !diags.HasErrors() {
				o.Fail("lost", "operation %d (%s): %s could be read, and there is no file object (diagnostics %s)", i, op, op.S, canonDiags(diags))
			}
			return
		}
		if !bytes.Equal(f.Bytes, []byte(d.doc.text)) {
			o.Fail("bytes", "operation %d (%s): the file object of %s has other bytes than the file:\n--- object\n%s\n--- file\n%s", i, op, op.S, f.Bytes, d.doc.text)
			return
		}
		e := &regEntry{doc: d.doc, shape: d.shape, file: f, as: as}
		if op.K != "jsonfile" {
			reg[op.S] = e
		}
		bad := e.bad()
		if bad && !diags.HasErrors() {
			o.Fail("invalid", "operation %d (%s): %s is not valid, and there is no error", i, op, op.S)
		} else if !bad && len(diags) != 0 && !soft {
			o.Fail("valid", "operation %d (%s): %s was read and is valid, but there are diagnostics: %s", i, op, op.S, canonDiags(diags))
		}
		judgePlain(o, fmt.Sprintf("operation %d (%s)", i, op), f, e)
	}

	body := func() {
		for i, op := range sc.Tasks[0] {
			if o.Violation != "" {
				return
			}
			switch op.K {
			case "put":
				d := mkPlain(op.T, op.A)
				if e := disk[op.S]; e != nil && e.doc == nil {
					continue // a directory is in the way
				}
				disk[op.S] = &regEntry{doc: d, shape: op.T}
				k.Put("/w/"+op.S, []byte(d.text), 0644)
			case "rm":
				if e := disk[op.S]; e != nil && e.doc != nil {
					delete(disk, op.S)
					k.Drop("/w/" + op.S)
				}
			case "dir":
				if disk[op.S] == nil {
					disk[op.S] = &regEntry{}
					k.MkdirAll("/w/" + op.S)
				}
			case "hcl", "json", "jsonfile":
				load(op, i)
			case "mem", "memjson":
				d := mkPlain(op.T, op.A)
				var f *hcl.File
				var diags hcl.Diagnostics
				as := "native"
				if op.K == "mem" {
					f, diags = parser.ParseHCL([]byte(d.text), op.S)
				} else {
					as = "json"
					f, diags = parser.ParseJSON([]byte(d.text), op.S)
				}
				all = append(all, diags...)
				if reg[op.S] == nil {
					reg[op.S] = &regEntry{doc: d, shape: op.T, file: f, as: as}
				}
				if e := reg[op.S]; f == nil || !bytes.Equal(f.Bytes, []byte(e.doc.text)) {
					o.Fail("memory", "operation %d (%s): parsing from memory does not give the right file", i, op)
				} else {
					judgePlain(o, fmt.Sprintf("operation %d (%s)", i, op), f, e)
				}
			case "add":
				d := mkPlain("native", op.A)
				f := &hcl.File{Bytes: []byte(d.text), Body: hcl.EmptyBody()}
				parser.AddFile(op.S, f)
				reg[op.S] = &regEntry{doc: d, shape: "added", file: f}
			case "files":
				files := parser.Files()
				got := map[string][]byte{}
				for n, f := range files {
					if f == nil {
						o.Fail("nil-file", "operation %d: the registry lists %s without a file object", i, n)
						return
					}
					got[n] = f.Bytes
				}
				judgeListing(o, i, "files", got, reg)
			case "sources":
				judgeListing(o, i, "sources", parser.Sources(), reg)
			case "print":
				var out bytes.Buffer
				width := []uint{0, 20, 78, 200}[op.A]
				wr := hcl.NewDiagnosticTextWriter(&out, parser.Files(), width, op.A == 3)
				if err := wr.WriteDiagnostics(all); err != nil {
					o.Fail("print", "operation %d: printing the diagnostics fails: %v", i, err)
				}
				for _, d := range all {
					if !strings.Contains(out.String(), d.Summary) {
						o.Fail("print", "operation %d: the printed diagnostics lack %q", i, d.Summary)
					}
				}
			case "read":
				if f := parser.Files()[op.S]; f != nil && reg[op.S] != nil {
					judgePlain(o, fmt.Sprintf("operation %d (%s)", i, op), f, reg[op.S])
				}
			}
		}
	}
	o.Alone(p, "app", pr, body)
	return pr
}

func (e *regEntry) bad() bool {
	if e.doc.text == "" {
		return e.as == "json"
	}
	if e.doc.broken {
		return true
	}
	if e.as == "json" {
		return !strings.HasPrefix(e.shape, "json")
	}
	return strings.HasPrefix(e.shape, "json")
}

// judgePlain compares a file object with the document it was made from.
func judgePlain(o *harness.Outcome, when string, f *hcl.File, e *regEntry) {
	if e.shape == "added" || e.bad() {
		if f.Body != nil {
			f.Body.PartialContent(plainSchema)
			f.Body.JustAttributes()
		}
		return
	}
	if d := e.doc.matches(f.Body); d != "" {
		o.Fail("meaning", "%s: the configuration is not what the file says: %s", when, d)
	}
}

func judgeListing(o *harness.Outcome, i int, what string, got map[string][]byte, reg map[string]*regEntry) {
	var names []string
	for n := range got {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		e := reg[n]
		if e == nil {
			o.Fail("phantom", "operation %d: the registry's %s list %s, which was never read", i, what, n)
			return
		}
		if !bytes.Equal(got[n], []byte(e.doc.text)) {
			o.Fail("bytes", "operation %d: the registry's %s have other bytes for %s than were read:\n--- listed\n%s\n--- read\n%s", i, what, n, got[n], e.doc.text)
			return
		}
	}
	for n := range reg {
		if _, ok := got[n]; !ok {
			o.Fail("unlisted", "operation %d: the registry's %s lack %s", i, what, n)
			return
		}
	}
}

func init() {
	harness.Register(&harness.Property{
		ID: "P10", QuickRuns: 200000, QuickSecs: 45, ThoroughRuns: 3000000, ThoroughSecs: 600,
		Rule:        "a run counts when a fault fired; distinct by the operation trace with the faults as fired",
		Real:        []string{"hclparse", "hcl/json", "hclsyntax", "hcl diagnostics"},
		Stub:        []string{"file system"},
		Assumptions: []string{"the meaning of the small files is known by construction"},
		Gen:         genP10, Run: runP10,
	})
}
