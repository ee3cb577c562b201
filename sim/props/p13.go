package props

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclparse"

	"verifsim/harness"
	"verifsim/simk"
	"verifsim/simrt"
)

// damageKinds are what storage can do to a file.
var damageKinds = []string{"torn", "torn", "zero", "stale", "swap", "dup", "drop", "flip", "garbage"}

// hurt applies one kind of damage to what is stored. The operands are taken
// modulo what there is.
func hurt(op harness.Op, b, old []byte) []byte {
	sec := 1 + op.C%64
	n := len(b)
	if n == 0 {
		return b
	}
	from := op.A % n
	if op.S != "flip" {
		from = from / sec * sec
	}
	to := from + sec
	if to > n {
		to = n
	}
	cp := func(parts ...[]byte) []byte {
		var r []byte
		for _, p := range parts {
			r = append(r, p...)
		}
		return r
	}
	switch op.S {
	case "torn":
		return cp(b[:op.A%n])
	case "zero":
		return cp(b[:from], make([]byte, to-from), b[to:])
	case "stale":
		// the sector, or everything from it on, is still that of the old content
		if op.B%2 == 0 {
			if from > len(old) {
				return cp(b[:from])
			}
			return cp(b[:from], old[from:])
		}
		if to > len(old) {
			return b
		}
		return cp(b[:from], old[from:to], b[to:])
	case "swap":
		at := op.B % n / sec * sec
		if at < from {
			at, from = from, at
		}
		if at < from+sec || at+sec > n {
			return b
		}
		return cp(b[:from], b[at:at+sec], b[from+sec:at], b[from:from+sec], b[at+sec:])
	case "dup":
		return cp(b[:to], b[from:to], b[to:])
	case "drop":
		return cp(b[:from], b[to:])
	case "flip":
		r := cp(b)
		r[from] ^= 1 << uint(op.B%8)
		return r
	case "garbage":
		r := cp(b)
		g := simrt.NewRand(uint64(op.B))
		for i := from; i < to; i++ {
			r[i] = byte(g.N(256))
		}
		return r
	}
	return b
}

func genP13(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}, S: map[string]string{}}
	doc := func(name string, plain bool) harness.Doc {
		g := &xgen{r: r}
		o := docOpts{depth: r.Range(1, 3), blocks: true, stray: true, dynamic: r.P(1, 4), comment: true}
		if plain {
			o = docOpts{depth: r.Range(1, 2), blocks: true}
		}
		var d harness.Doc
		if strings.HasSuffix(name, ".json") {
			d = g.genJSON(name, o)
		} else {
			d = g.genNative(name, o)
		}
		if k := r.Range(1, 6); len(d.Chunks) > k && r.P(3, 4) {
			d.Chunks = d.Chunks[:k]
		}
		return d
	}
	name := r.Pick([]string{"hurt.hcl", "hurt.hcl", "hurt.json"})
	sc.Docs = append(sc.Docs, doc(name, false), doc(name, false), doc("good.hcl", true), doc("good.json", true))
	var dmg []harness.Op
	for k := r.Range(1, 3); k > 0; k-- {
		dmg = append(dmg, harness.Op{K: "damage", S: r.Pick(damageKinds), A: r.N(1 << 16), B: r.N(1 << 16), C: r.N(1 << 8)})
		if r.Bool() {
			break
		}
	}
	var ops []harness.Op
	for k := r.Range(1, 4); k > 0; k-- {
		if r.Bool() {
			op := genRead(r)
			op.T, op.K = op.K, "conf"
			ops = append(ops, op)
			continue
		}
		if r.P(1, 4) {
			ops = append(ops, harness.Op{K: "piece", B: r.N(1 << 10), C: r.N(1 << 10)})
			continue
		}
		op := genWork(r, 1)
		for op.K == "traversal" || op.K == "userfunc" || op.K == "types" || op.K == "schema" || op.K == "implied" || op.K == "values" || op.K == "encode" {
			op = genWork(r, 1)
		}
		ops = append(ops, op)
	}
	sc.Tasks = [][]harness.Op{dmg, ops}
	sc.S["wrap"] = r.Pick([]string{"native", "merged", "expanded", "deep", "included", "packed"})
	return sc
}

// certainlyBroken tells for native syntax whether a text cannot be valid:
// brackets that do not match, strings, templates, here documents and comments
// that do not end, and bytes that may not appear where they are. It gives up,
// saying false, on what it is not sure about.
func certainlyBroken(b []byte) bool {
	x := &brackets{b: b}
	return x.code(0) == broken
}

const (
	fine = iota
	broken
	unsure
)

type brackets struct {
	b []byte
	i int
}

// at tells whether the text continues with s.
func (x *brackets) at(s string) bool {
	return strings.HasPrefix(string(x.b[x.i:]), s)
}

// char skips a character, unless it is not one.
func (x *brackets) char() bool {
	r, n := utf8.DecodeRune(x.b[x.i:])
	x.i += n
	return r != utf8.RuneError || n > 1
}

// code reads until the closing bracket, or to the end of the text for 0.
func (x *brackets) code(closing byte) int {
	for {
		if x.i >= len(x.b) {
			if closing != 0 {
				return broken
			}
			return fine
		}
		c := x.b[x.i]
		switch {
		case c == 0:
			return broken
		case c == '#' || x.at("//"):
			for x.i < len(x.b) && x.b[x.i] != '\n' {
				x.i++
			}
		case x.at("/*"):
			end := strings.Index(string(x.b[x.i+2:]), "*/")
			if end < 0 {
				return broken
			}
			x.i += 2 + end + 2
		case x.at("<<"):
			if s := x.heredoc(); s != fine {
				return s
			}
		case c == '"':
			x.i++
			if s := x.quoted(); s != fine {
				return s
			}
		case c == '{' || c == '[' || c == '(':
			x.i++
			if s := x.code(map[byte]byte{'{': '}', '[': ']', '(': ')'}[c]); s != fine {
				return s
			}
		case c == '}' || c == ']' || c == ')':
			x.i++
			if c != closing {
				return broken
			}
			return fine
		default:
			if !x.char() {
				return broken
			}
		}
	}
}

func (x *brackets) quoted() int {
	for {
		switch {
		case x.i >= len(x.b) || x.b[x.i] == '\n':
			return broken
		case x.b[x.i] == '"':
			x.i++
			return fine
		case x.at("$${") || x.at("%%{"):
			x.i += 3
		case x.at("${") || x.at("%{"):
			x.i += 2
			if s := x.code('}'); s != fine {
				return s
			}
		case x.b[x.i] == '\\':
			x.i++
			if x.i < len(x.b) && x.b[x.i] == '\n' {
				return broken
			}
			if x.i < len(x.b) && !x.char() {
				return broken
			}
		default:
			if !x.char() {
				return broken
			}
		}
	}
}

func (x *brackets) heredoc() int {
	rest := string(x.b[x.i+2:])
	rest = strings.TrimPrefix(rest, "-")
	eol := strings.IndexByte(rest, '\n')
	if eol < 1 {
		return unsure
	}
	mark := rest[:eol]
	for _, r := range mark {
		if r < 'A' || r > 'Z' {
			return unsure
		}
	}
	body := rest[eol+1:]
	if !strings.Contains(body, mark) {
		return broken
	}
	if strings.Contains(body, "${") || strings.Contains(body, "%{") {
		return unsure
	}
	for len(body) > 0 {
		line := body
		if eol := strings.IndexByte(body, '\n'); eol >= 0 {
			line = body[:eol]
			body = body[eol+1:]
		} else {
			body = ""
		}
		if !utf8.ValidString(line) {
			return broken
		}
		if strings.TrimSpace(line) == mark {
			// go on at the end of the line with the mark
			x.i = len(x.b) - len(body)
			if x.i > 0 && x.b[x.i-1] == '\n' {
				x.i--
			}
			return fine
		}
		if strings.Contains(line, mark) {
			return unsure
		}
	}
	return broken
}

func runP13(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P13")
	hurtDoc, good := sc.Docs[0], sc.Docs[2:]
	data := []byte(hurtDoc.Text())
	for _, op := range sc.Tasks[0] {
		was := string(data)
		data = hurt(op, data, []byte(sc.Docs[1].Text()))
		if string(data) != was {
			o.Faults = append(o.Faults, "damage/"+op.S)
			o.Nontrivial = true
		}
	}
	o.Sig = simrt.Mix(o.Sig, string(data)+fmt.Sprint(sc.Tasks[1:]))
	o.Note("stored in %s: %q", hurtDoc.Name, data)
	hurtDoc.Pre, hurtDoc.Sep, hurtDoc.Post, hurtDoc.Chunks = "", "", "", []string{string(data)}
	sources := map[string][]byte{hurtDoc.Name: data}
	for _, d := range good {
		sources[d.Name] = []byte(d.Text())
	}
	onRange = func(r *hcl.Range) {
		src, ok := sources[r.Filename]
		if ok && (r.Start.Byte < 0 || r.End.Byte < r.Start.Byte || r.End.Byte > len(src)) {
			o.Fail("range", "the range %d-%d, from line %d column %d to line %d column %d, is not inside %s of %d bytes", r.Start.Byte, r.End.Byte, r.Start.Line, r.Start.Column, r.End.Line, r.End.Column, r.Filename, len(src))
		}
	}
	defer func() { onRange = nil }()

	// Loading, next to undamaged files.
	k := simk.New(sc.Seed)
	k.MkdirAll("/w")
	for n, src := range sources {
		k.Put("/w/"+n, src, 0644)
	}
	app := k.NewProc("app", []string{"app"}, nil)
	app.Cwd = "/w"
	loadIn := func(ps *hclparse.Parser, name string) (*hcl.File, hcl.Diagnostics) {
		if strings.HasSuffix(name, ".json") {
			return ps.ParseJSONFile(name)
		}
		return ps.ParseHCLFile(name)
	}
	o.Alone(p, "load", app, func() {
		ps := hclparse.NewParser()
		f, diags := loadIn(ps, hurtDoc.Name)
		canonDiags(diags)
		bad := false
		if strings.HasSuffix(hurtDoc.Name, ".json") {
			text := strings.TrimSpace(string(data))
			bad = !json.Valid(data) || !utf8.Valid(data) || text[0] != '{' && text[0] != '['
		} else {
			bad = certainlyBroken(data)
		}
		told := false
		for _, d := range diags {
			told = told || d.Severity == hcl.DiagError && d.Subject != nil && d.Subject.Filename == hurtDoc.Name
		}
		if bad {
			o.Tag("invalid")
			if !told {
				o.Fail("silent", "%s is invalid, but loading it gives no error there: %s\n%q", hurtDoc.Name, canonDiags(diags), data)
			}
		} else if told {
			o.Tag("rejected")
		} else {
			o.Tag("accepted")
		}
		var files []*hcl.File
		if f != nil {
			files = append(files, f)
		}
		ctx := ctxFor(0)
		for _, d := range good {
			g, diags := loadIn(ps, d.Name)
			alone, aloneDiags := loadIn(hclparse.NewParser(), d.Name)
			if g == nil || alone == nil || canonDiags(diags) != canonDiags(aloneDiags) {
				o.Fail("neighbour", "loading %s next to the damaged file gives other diagnostics: %s", d.Name, canonDiags(diags))
				return
			}
			var b1, b2 strings.Builder
			canonContent(&b1, g.Body, rootSchema(), ctx, "")
			canonContent(&b2, alone.Body, rootSchema(), ctx, "")
			if b1.String() != b2.String() {
				x, y := firstDiff(b2.String(), b1.String())
				o.Fail("neighbour", "%s has another meaning next to the damaged file:\n--- alone\n%s\n--- next to it\n%s", d.Name, x, y)
				return
			}
			files = append(files, g)
		}
		w := hcl.NewDiagnosticTextWriter(&strings.Builder{}, ps.Files(), 60, true)
		w.WriteDiagnostics(diags)
		// together
		content, diags := hcl.MergeFiles(files).Content(rootSchema())
		canonDiags(diags)
		for _, d := range good {
			own, _, _ := ps.Files()[d.Name].Body.PartialContent(rootSchema())
			for _, a := range sortedAttrs(own.Attributes) {
				m := content.Attributes[a.Name]
				if m == nil {
					o.Fail("merged", "the argument %s of %s is missing when all files are merged", a.Name, d.Name)
					return
				}
				if m.Range.Filename != d.Name {
					continue // set in an earlier file
				}
				v1, _ := a.Expr.Value(ctx)
				v2, _ := m.Expr.Value(ctx)
				if canonVal(v1) != canonVal(v2) {
					o.Fail("merged", "the argument %s of %s has another value when all files are merged", a.Name, d.Name)
					return
				}
			}
			var x, y []string
			for _, blk := range own.Blocks {
				x = append(x, canonBlockHead(blk))
			}
			for _, blk := range content.Blocks {
				if blk.TypeRange.Filename == d.Name {
					y = append(y, canonBlockHead(blk))
				}
			}
			if strings.Join(x, "\n") != strings.Join(y, "\n") {
				o.Fail("merged", "the blocks of %s differ when all files are merged", d.Name)
				return
			}
		}
	})
	for _, op := range sc.Tasks[1] {
		op := op
		if (op.K == "pack" || sc.S["wrap"] == "packed") && !utf8.Valid(data) {
			// Transport as JSON replaces invalid characters by longer ones.
			onRange = nil
		}
		if o.Violation != "" {
			return
		}
		o.Alone(p, op.K+" "+op.T, nil, func() {
			if op.K == "conf" {
				rd := op
				rd.K = op.T
				load(sc.S["wrap"], append([]harness.Doc{hurtDoc}, good[0])).hold().readOp(rd)
			} else if op.K == "piece" {
				// a part of it where an expression, template or traversal is expected
				s := data[len(data)*op.B>>10:]
				s = s[:len(s)*op.C>>10]
				start := hcl.Pos{Line: 1, Column: 1}
				for _, parse := range []func([]byte, string, hcl.Pos) (hclsyntax.Expression, hcl.Diagnostics){hclsyntax.ParseExpression, hclsyntax.ParseTemplate} {
					e, diags := parse(s, hurtDoc.Name, start)
					canonDiags(diags)
					if e != nil {
						e.Variables()
						canonRange(e.Range().Ptr())
						_, diags = e.Value(ctxFor(0))
						canonDiags(diags)
						hcl.ExprList(e)
						hcl.ExprMap(e)
						hcl.ExprCall(e)
						hcl.AbsTraversalForExpr(e)
						_, diags = typeexpr.TypeConstraint(e)
						canonDiags(diags)
					}
				}
				_, diags := hclsyntax.ParseTraversalAbs(s, hurtDoc.Name, start)
				canonDiags(diags)
			} else {
				doWork1(op, hurtDoc)
			}
		})
	}
}

func init() {
	harness.Register(&harness.Property{
		ID: "P13", QuickRuns: 60000, QuickSecs: 45, ThoroughRuns: 3000000, ThoroughSecs: 600, MaxSteps: 5000000,
		Rule:        "a run counts when the damage changed the stored bytes; distinct by the stored bytes and the operations",
		Real:        []string{"all packages of the library"},
		Stub:        []string{"file system and its storage"},
		Assumptions: []string{"whether a native file is certainly invalid is judged by brackets, quotes and character encoding, and for JSON by encoding/json"},
		Gen:         genP13, Run: runP13,
	})
}
