package props

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"

	"verifsim/harness"
	"verifsim/simrt"
)

// badStream is an output stream that fails at a byte position.
type badStream struct {
	buf    []byte
	at     int    // position of the failure, -1 for none
	how    string // none: nothing of that write, part: up to the position, all: everything and still an error
	sticky bool
	failed int
	writes int
}

var errStream = errors.New("no space left on device")

func (w *badStream) Write(p []byte) (int, error) {
	simrt.Yield()
	w.writes++
	if w.at < 0 || len(w.buf)+len(p) <= w.at && !(w.sticky && w.failed > 0) || w.failed > 0 && !w.sticky {
		w.buf = append(w.buf, p...)
		return len(p), nil
	}
	w.failed++
	n := 0
	switch w.how {
	case "part":
		n = w.at - len(w.buf)
		if n < 0 || n > len(p) {
			n = 0
		}
	case "all":
		n = len(p)
		if w.failed > 1 {
			n = 0
		}
	}
	w.buf = append(w.buf, p[:n]...)
	return n, errStream
}

func genP11(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}, S: map[string]string{}}
	kinds := []string{"file", "file", "edited", "tokens", "diags", "diags", "diag"}
	sc.Kind = kinds[r.N(len(kinds))]
	g := &xgen{r: r}
	if strings.HasPrefix(sc.Kind, "diag") {
		g.bad = 40
	}
	d := g.genNative("main.hcl", docOpts{depth: r.Range(0, 2), blocks: true, comment: true, stray: true})
	if k := r.Range(1, 5); len(d.Chunks) > k {
		d.Chunks = d.Chunks[:k]
	}
	for j := range d.Chunks {
		d.Chunks[j] = mess(r, d.Chunks[j])
		if r.P(1, 6) {
			d.Chunks[j] = strings.Replace(d.Chunks[j], " = ", strings.Repeat(" ", r.Range(30, 90))+"= ", 1)
		}
	}
	if strings.HasPrefix(sc.Kind, "diag") && r.P(1, 2) {
		damage(r, &d)
	}
	sc.Docs = []harness.Doc{d}
	sc.N["at"] = int64(r.N(1001))
	sc.S["how"] = r.Pick([]string{"none", "part", "part", "all"})
	if r.Bool() {
		sc.N["sticky"] = 1
	}
	sc.N["width"] = int64([]int{0, 0, 15, 78}[r.N(4)])
	sc.N["color"] = int64(r.N(2))
	sc.N["src"] = int64(r.N(3)) // 0: no sources known
	sc.N["edit"] = int64(r.N(400))
	sc.N["ctx"] = int64(r.N(6))
	return sc
}

// output builds the object of a scenario and returns the function that
// writes it to a stream, reporting the number of bytes claimed (-1: none).
func output(sc *harness.Scenario) (write func(w io.Writer) (int64, error), check func(o *harness.Outcome, text string)) {
	src := []byte(sc.Docs[0].Text())
	switch sc.Kind {
	case "tokens":
		f, _ := hclwrite.ParseConfig(src, "main.hcl", start)
		if f == nil {
			return nil, nil
		}
		ts := f.BuildTokens(nil)
		return ts.WriteTo, func(o *harness.Outcome, text string) {
			if text != string(src) {
				o.Fail("tokens", "the tokens of the unchanged file do not give its text:\n--- got\n%s\n--- want\n%s", text, src)
			}
		}
	case "file", "edited":
		f, _ := hclwrite.ParseConfig(src, "main.hcl", start)
		if f == nil {
			return nil, nil
		}
		if sc.Kind == "edited" {
			e := sc.N["edit"]
			body := f.Body()
			switch e % 4 {
			case 0:
				f = hclwrite.NewEmptyFile()
				body = f.Body()
			case 1:
				body.SetAttributeValue("s1", cty.StringVal("edited"))
			case 2:
				body.AppendNewline()
				body.AppendBlock(gohcl.EncodeAsBlock(&gLeaf{Proto: "tcp", Weight: float64(e)}, "listener"))
			}
			body.AppendNewline()
			body.SetAttributeValue("edited", cty.ListVal([]cty.Value{cty.StringVal("a b"), cty.StringVal(strings.Repeat("x", int(e)))}))
		}
		return f.WriteTo, func(o *harness.Outcome, text string) {
			if b := f.Bytes(); string(b) != text {
				o.Fail("bytes", "the file's bytes differ from what it writes:\n--- bytes\n%s\n--- written\n%s", b, text)
			}
			if sc.Kind == "file" {
				if d := sameTokens(src, []byte(text)); d != "" {
					o.Fail("tokens", "writing the unchanged file changes more than spacing: %s", d)
				}
			}
		}
	}
	f, diags := hclsyntax.ParseConfig(src, "main.hcl", start)
	ctx := ctxFor(int(sc.N["ctx"]))
	if f != nil {
		eachAttr(f.Body, func(path string, a *hcl.Attribute) {
			_, ds := a.Expr.Value(ctx)
			diags = append(diags, ds...)
		})
		_, ds := f.Body.Content(&hcl.BodySchema{})
		if len(ds) > 3 {
			ds = ds[:3]
		}
		diags = append(diags, ds...)
	}
	diags = append(diags, &hcl.Diagnostic{Severity: hcl.DiagWarning, Summary: "A warning without a place", Detail: strings.Repeat("many words ", 20)})
	if len(src) > 4 {
		n := int(sc.N["edit"]) % (len(src) - 2)
		a, b := posOf(src, n), posOf(src, n+(len(src)-n)/2)
		diags = append(diags, &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "A problem over lines", Subject: &hcl.Range{Filename: "main.hcl", Start: a, End: b}, Context: &hcl.Range{Filename: "main.hcl", Start: posOf(src, n/2), End: b}})
		diags = append(diags, &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "A problem elsewhere", Detail: "Not known.", Subject: &hcl.Range{Filename: "other.hcl", Start: a, End: b}})
	}
	files := map[string]*hcl.File{}
	if sc.N["src"] > 0 && f != nil {
		files["main.hcl"] = f
	}
	if len(diags) > 6 {
		diags = append(diags[:3:3], diags[len(diags)-3:]...)
	}
	if sc.Kind == "diag" {
		diags = diags[int(sc.N["edit"])%len(diags):][:1]
	}
	before := canonDiags(diags)
	write = func(w io.Writer) (int64, error) {
		dw := hcl.NewDiagnosticTextWriter(w, files, uint(sc.N["width"]), sc.N["color"] == 1)
		if sc.Kind == "diag" {
			return -1, dw.WriteDiagnostic(diags[0])
		}
		return -1, dw.WriteDiagnostics(diags)
	}
	return write, func(o *harness.Outcome, text string) {
		if after := canonDiags(diags); after != before {
			o.Fail("changed", "writing the diagnostics changes them:\n--- before\n%s\n--- after\n%s", before, after)
		}
		for _, d := range diags {
			if !strings.Contains(text, d.Summary) {
				o.Fail("text", "the summary %q is missing in\n%s", d.Summary, text)
			}
			if sc.N["width"] == 0 && !strings.Contains(text, d.Detail) {
				o.Fail("text", "the detail %q is missing in\n%s", d.Detail, text)
			}
			if d.Subject == nil {
				continue
			}
			if want := fmt.Sprintf("on %s line %d", d.Subject.Filename, d.Subject.Start.Line); !strings.Contains(text, want) {
				o.Fail("text", "%q is missing in\n%s", want, text)
			}
			if files[d.Subject.Filename] == nil || sc.N["color"] == 1 {
				continue
			}
			lines := strings.Split(string(src), "\n")
			for l := d.Subject.Start.Line; l < d.Subject.End.Line && l <= len(lines); l++ {
				if want := strings.TrimSuffix(lines[l-1], "\r"); !strings.Contains(text, want) {
					o.Fail("text", "source line %d (%q) is missing in\n%s", l, want, text)
				}
			}
		}
	}
}

func runP11(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P11")
	var text string
	ok := false
	o.Alone(p, "writer", nil, func() {
		write, check := output(sc)
		if write == nil {
			return
		}
		good := &badStream{at: -1}
		n, err := write(good)
		if err != nil {
			o.Fail("good", "writing to a stream that works fails: %v", err)
			return
		}
		if n >= 0 && n != int64(len(good.buf)) {
			o.Fail("count", "writing claims %d bytes and delivers %d", n, len(good.buf))
			return
		}
		text, ok = string(good.buf), true
		check(o, text)
	})
	if o.Violation != "" || !ok {
		return
	}
	w := &badStream{at: int(sc.N["at"]) * len(text) / 1000, how: sc.S["how"], sticky: sc.N["sticky"] == 1}
	o.Alone(p, "writer", nil, func() {
		write, _ := output(sc)
		n, err := write(w)
		o.Note("text of %d bytes; failure at %d (%s, sticky %v): %d failed of %d writes, delivered %d, reported %v", len(text), w.at, w.how, w.sticky, w.failed, w.writes, len(w.buf), err)
		o.Sig = simrt.Mix(o.Sig, fmt.Sprint(text, w.at, w.how, w.sticky))
		if w.failed > 0 {
			o.Faults = append(o.Faults, w.how+"/write")
			o.Nontrivial = true
		}
		if w.failed > 0 && err == nil {
			o.Fail("unreported", "a write failed at byte %d of %d and success was reported; delivered were %d bytes", w.at, len(text), len(w.buf))
			return
		}
		if w.failed == 0 && (err != nil || string(w.buf) != text) {
			o.Fail("spurious", "no write failed, but error %v and %d of %d bytes", err, len(w.buf), len(text))
			return
		}
		if !strings.HasPrefix(text, string(w.buf)) {
			o.Fail("prefix", "what was delivered is not the beginning of the text:\n--- delivered\n%s\n--- text\n%s", w.buf, text)
			return
		}
		if n >= 0 && n != int64(len(w.buf)) {
			o.Fail("count", "writing claims %d bytes and delivered %d", n, len(w.buf))
			return
		}
		again := &badStream{at: -1}
		if _, err := write(again); err != nil || string(again.buf) != text {
			o.Fail("again", "repeating the write does not give the text (error %v):\n--- got\n%s\n--- want\n%s", err, again.buf, text)
		}
	})
}

func init() {
	harness.Register(&harness.Property{
		ID: "P11", QuickRuns: 400000, QuickSecs: 45, ThoroughRuns: 3000000, ThoroughSecs: 600,
		Rule:        "a run counts when a write failed; distinct by text, position and kind of the failure",
		Real:        []string{"hclwrite", "hcl diagnostic text writer", "gohcl encoder", "hclsyntax"},
		Stub:        []string{"output stream"},
		Assumptions: []string{"the complete text is what the same object writes to a stream that works, and is checked against the source"},
		Gen:         genP11, Run: runP11,
	})
}
