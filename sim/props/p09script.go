package props

import (
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"strings"

	"verifsim/simk"
)

// Suites for a scripted decoder: what the decoder says about an input is
// decided by the simulator, so that the runner's verdict can be held against
// answers that the real decoder does not give.

type decAnswer struct {
	out, err string
	code     int
}

// scriptBads are the ways in which one answer differs from what its test
// declares.
var scriptBads = []string{"v-value", "v-value", "v-type", "v-exit", "v-cut", "v-exit-diags", "v-null", "v-warn-exit",
	"d-missing", "d-extra", "d-extra-warning", "d-severity", "d-start-line", "d-start-column", "d-start-byte", "d-end-line", "d-end-column", "d-end-byte", "d-file", "d-spec-file", "d-extra-elsewhere", "d-no-subject", "d-odd-severity", "d-exit0", "d-cut", "d-warnings-exit",
	"t-missing", "t-extra", "t-name", "t-step", "t-index", "t-index-type", "t-short", "t-start", "t-end", "t-file", "t-exit", "t-cut", "t-kind", "t-key-lost", "t-second-place",
	"f-two-traversals", "f-two-diagnostics", "f-result-and-diagnostics", "f-no-ref", "f-result-not-type", "f-empty-diagnostics", "f-no-position", "f-traversal-argument", "f-any-mixed"}

type sPos struct{ line, col, byt int }

type sRange struct{ from, to sPos }

func (p sPos) json() string {
	return fmt.Sprintf(`{"line": %d, "column": %d, "byte": %d}`, p.line, p.col, p.byt)
}

func (r sRange) json(file string) string {
	return fmt.Sprintf(`{"filename": %q, "start": %s, "end": %s}`, file, r.from.json(), r.to.json())
}

func (r sRange) hcl() string {
	return posHCL("from", r.from.line, r.from.col, r.from.byt) + posHCL("to", r.to.line, r.to.col, r.to.byt)
}

const scriptLine = "some words of input\n"

func scriptRange(r *rnd) sRange {
	l, c := r.N(6), r.N(10)
	n := r.Range(1, 9)
	at := sPos{l + 1, c + 1, l*len(scriptLine) + c}
	return sRange{at, sPos{l + 1, at.col + n, at.byt + n}}
}

type sStep struct {
	kind, name string
	key        interface{}
}

type sRef struct {
	steps []sStep
	at    sRange
}

func (t sRef) hcl() string {
	s := ""
	for _, st := range t.steps {
		switch st.kind {
		case "root":
			s += st.name
		case "attr":
			s += "." + st.name
		default:
			s += "[" + varJSON(st.key) + "]"
		}
	}
	return s
}

func (t sRef) json(file string) string {
	var ss []string
	for i, st := range t.steps {
		rng := sRange{t.at.from, t.at.from}
		if i == len(t.steps)-1 {
			rng.to = t.at.to
		}
		x := fmt.Sprintf(`{"kind": %q, "range": %s`, st.kind, rng.json(file))
		if st.name != "" {
			x += fmt.Sprintf(`, "name": %q`, st.name)
		}
		if st.key != nil {
			x += `, "key": ` + varJSON(st.key)
		}
		ss = append(ss, x+"}")
	}
	return `{"root_name": "r", "steps": [` + strings.Join(ss, ", ") + "]}"
}

type sDiag struct {
	sev string
	at  sRange
}

func (d sDiag) json(file string) string {
	return fmt.Sprintf(`{"severity": %q, "summary": "Summary", "detail": "Some detail.", "subject": %s}`, d.sev, d.at.json(file))
}

// scriptValue makes a value and its type. Exact values can be written down
// without a type.
func scriptValue(r *rnd, depth int, exact bool) (interface{}, interface{}) {
	n := 9
	if depth == 0 {
		n = 4
	}
	switch r.N(n) {
	case 0, 1:
		if !exact && r.P(1, 6) {
			return nil, "string"
		}
		return r.Pick([]string{"", "a", "b c", "été", "5", "true"}), "string"
	case 2:
		return rat(int64(r.N(30)) - 5), "number"
	case 3:
		return r.Bool(), "bool"
	case 4, 5:
		m, t := map[string]interface{}{}, map[string]interface{}{}
		for _, k := range []string{"a", "b", "c"}[:r.N(4)] {
			m[k], t[k] = scriptValue(r, depth-1, exact)
		}
		return m, []interface{}{"object", t}
	case 6:
		v, t := []interface{}{}, []interface{}{}
		for i := r.N(4); i > 0; i-- {
			ev, et := scriptValue(r, depth-1, exact)
			v, t = append(v, ev), append(t, et)
		}
		return v, []interface{}{"tuple", t}
	}
	if exact {
		return r.Bool(), "bool"
	}
	if r.P(1, 4) {
		v := mset{}
		for i := r.N(4); i > 0; i-- {
			v = append(v, rat(int64(i*3)))
		}
		return v, []interface{}{"set", "number"}
	}
	_, et := scriptValue(r, 0, true)
	prim := func() interface{} {
		switch et {
		case "string":
			return r.Pick([]string{"x", "y", ""})
		case "number":
			return rat(int64(r.N(9)))
		}
		return r.Bool()
	}
	if r.Bool() {
		v := []interface{}{}
		for i := r.N(4); i > 0; i-- {
			v = append(v, prim())
		}
		return v, []interface{}{"list", et}
	}
	m := map[string]interface{}{}
	for _, k := range []string{"k1", "k2", "k3"}[:r.N(4)] {
		m[k] = prim()
	}
	return m, []interface{}{"map", et}
}

// wireJSON writes a value as the decoder does.
func wireJSON(v interface{}) string {
	switch v := v.(type) {
	case []interface{}:
		var s []string
		for _, e := range v {
			s = append(s, wireJSON(e))
		}
		return "[" + strings.Join(s, ",") + "]"
	case mset:
		return wireJSON([]interface{}(v))
	case map[string]interface{}:
		var s []string
		for _, k := range sortedKeys(v) {
			s = append(s, fmt.Sprintf("%q:%s", k, wireJSON(v[k])))
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	return varJSON(v)
}

func wire(v, t interface{}) string {
	ts, _ := json.Marshal(t)
	return fmt.Sprintf("{\"value\":%s,\"type\":%s}\n", wireJSON(v), ts)
}

// otherValue is a different value of the same type.
func otherValue(r *rnd, v, t interface{}) interface{} {
	switch v := v.(type) {
	case nil:
		return ""
	case string:
		if r.P(1, 3) {
			return nil
		}
		return v + "!"
	case bool:
		return !v
	case *big.Rat:
		if r.P(1, 3) {
			return nil
		}
		return new(big.Rat).Add(v, big.NewRat(1, int64(1+r.N(2)*9)))
	case mset:
		if len(v) > 0 && r.Bool() {
			return v[1:]
		}
		return append(append(mset{}, v...), rat(100))
	}
	tt := t.([]interface{})
	switch v := v.(type) {
	case []interface{}:
		out := append([]interface{}{}, v...)
		et := tt[1]
		if tt[0] == "list" {
			switch {
			case len(v) > 0 && r.P(1, 3):
				return out[:len(out)-1]
			case len(v) == 0 || r.P(1, 3):
				e := interface{}("z")
				if et == "number" {
					e = rat(1)
				} else if et == "bool" {
					e = true
				}
				return append(out, e)
			}
		} else if len(v) == 0 {
			return nil
		}
		i := r.N(len(v))
		if tt[0] == "tuple" {
			et = et.([]interface{})[i]
		}
		out[i] = otherValue(r, v[i], et)
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range v {
			out[k] = e
		}
		if len(v) == 0 {
			return nil
		}
		k := sortedKeys(v)[r.N(len(v))]
		if tt[0] == "map" {
			switch r.N(3) {
			case 0:
				delete(out, k)
				return out
			case 1:
				out[k+"x"] = out[k]
				delete(out, k)
				return out
			}
			out[k] = otherValue(r, v[k], tt[1])
			return out
		}
		out[k] = otherValue(r, v[k], tt[1].(map[string]interface{})[k])
		return out
	}
	panic("value")
}

// otherType is a type that no value of type t has.
func otherType(r *rnd, t interface{}) interface{} {
	tt, ok := t.([]interface{})
	if !ok || r.P(1, 4) {
		if t == "string" {
			return r.Pick([]string{"number", "bool"})
		}
		if !ok {
			return "string"
		}
		return []interface{}{"list", t}
	}
	switch in := tt[1].(type) {
	case string:
		if r.Bool() {
			return []interface{}{tt[0], otherType(r, in)}
		}
		m := map[string]string{"list": "set", "set": "list", "map": "list"}
		return []interface{}{m[tt[0].(string)], in}
	case []interface{}:
		if len(in) > 0 && r.Bool() {
			out := append([]interface{}{}, in...)
			i := r.N(len(in))
			out[i] = otherType(r, in[i])
			return []interface{}{"tuple", out}
		}
		return []interface{}{"tuple", append(append([]interface{}{}, in...), "string")}
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range in {
			out[k] = e
		}
		if len(in) == 0 || r.P(1, 3) {
			out["zz"] = "string"
		} else {
			k := sortedKeys(in)[r.N(len(in))]
			if r.Bool() {
				delete(out, k)
			} else {
				out[k] = otherType(r, in[k])
			}
		}
		return []interface{}{"object", out}
	}
	panic("type")
}

func (p *sPos) shift(what string) {
	switch what {
	case "line":
		p.line++
	case "column":
		p.col++
	default:
		p.byt++
	}
}

// buildScriptTest makes a test for the scripted decoder; with bad set, the
// decoder's answer about one of the inputs is not what the test declares, or
// the test file itself is at fault.
func buildScriptTest(r *rnd, s *suite, name, bad string) *suiteTest {
	t := &suiteTest{name: name, runs: 1, bad: bad, clean: true}
	add := func(suffix, text string) { t.files = append(t.files, harnessFile{name + suffix, text}) }
	txt := ""
	want := ""
	if bad != "" {
		want = bad[:1]
	}
	inputs := []string{".hcl", ".hcl.json"}
	if k := r.N(3); k < 2 {
		inputs = inputs[k : k+1]
	}
	t.inputs = len(inputs)
	wrong := inputs[r.N(len(inputs))]
	for _, in := range inputs {
		add(in, strings.Repeat(scriptLine, 6))
	}

	// what is declared
	doDiags := want == "d" || want != "v" && r.P(1, 3)
	if bad == "f-result-not-type" || bad == "f-any-mixed" {
		doDiags = false
	}
	if bad == "f-empty-diagnostics" || bad == "f-two-diagnostics" || bad == "f-result-and-diagnostics" || bad == "f-no-position" {
		doDiags = true
	}
	doRefs := want == "t" || r.P(1, 3) || bad == "f-two-traversals" || bad == "f-no-ref" || bad == "f-traversal-argument"
	var val, typ interface{}
	var ds []sDiag
	var rs []sRef
	val, typ = "x", "string"
	if doDiags {
		// declaring the same one twice means nothing else than once
		seen := map[sDiag]bool{}
		for i := r.Range(1, 3); i > 0; i-- {
			d := sDiag{r.Pick([]string{"error", "error", "warning"}), scriptRange(r)}
			if bad == "d-warnings-exit" {
				d.sev = "warning"
			} else if len(ds) == 0 {
				d.sev = "error"
			}
			if !seen[d] {
				seen[d] = true
				ds = append(ds, d)
			}
		}
		txt += "diagnostics {\n"
		for i, d := range ds {
			at := d.at.hcl()
			if bad == "f-no-position" && i == 0 {
				at = at[:strings.Index(at, "    to {")]
			}
			if bad != "f-empty-diagnostics" {
				txt += "  " + d.sev + " {\n" + at + "  }\n"
			}
		}
		txt += "}\n"
		if bad == "f-two-diagnostics" {
			txt += txt
		}
		if bad == "f-result-and-diagnostics" {
			txt += "result = \"x\"\n"
		}
		t.clean = false
	} else {
		exact := r.P(1, 4) && bad != "v-type" && bad != "v-null"
		val, typ = scriptValue(r, r.Range(0, 3), exact)
		if bad == "v-null" && val == nil {
			val = "s"
		}
		dt := typ
		if bad == "v-type" {
			dt = otherType(r, typ)
		}
		noResult := bad == "v-type" && r.P(3, 4)
		switch {
		case exact && bad != "f-result-not-type":
		default:
			if bad == "f-result-not-type" {
				dt = "number"
				val = "word"
				typ = "string"
			}
			txt += "result_type = " + typeHCL(dt) + "\n"
			if want == "" && r.P(1, 4) {
				noResult = true
			}
		}
		if !noResult {
			txt += "result = " + litHCL(val, typ) + "\n"
		}
	}
	if bad == "f-any-mixed" {
		// no single type fits the elements
		elems := []string{"1", "{}", "[true]", "[[]]", "{a = [1]}", "[{}]", "[null]", "{a = {}}"}
		x, y := r.N(len(elems)), r.N(len(elems)-1)
		if y >= x {
			y++
		}
		ty := r.Pick([]string{"list(any)", "set(any)", "map(any)", "list(list(any))", "map(list(any))", "tuple([list(any)])"})
		v := "[" + elems[x] + ", " + elems[y] + "]"
		if strings.HasPrefix(ty, "map") {
			v = "{p = " + elems[x] + ", q = " + elems[y] + "}"
		}
		txt = "result_type = " + ty + "\nresult = " + v + "\n"
		val, typ = "x", "string"
	}
	if doRefs {
		t.runs = 2

		for i := r.Range(1, 3); i > 0; i-- {
			ref := sRef{steps: []sStep{{"root", r.Pick([]string{"a", "b", "c"}), nil}}, at: scriptRange(r)}
			for j := r.N(4); j > 0; j-- {
				switch r.N(3) {
				case 0:
					ref.steps = append(ref.steps, sStep{"attr", r.Pick([]string{"x", "y"}), nil})
				case 1:
					ref.steps = append(ref.steps, sStep{"index", "", rat(int64(r.N(3)))})
				default:
					ref.steps = append(ref.steps, sStep{"index", "", r.Pick([]string{"k", "0", "1"})})
				}
			}
			if bad == "t-index" || bad == "t-index-type" || bad == "t-key-lost" || bad == "t-short" {
				ref.steps = append(ref.steps, sStep{"index", "", rat(int64(r.N(3)))})
			}
			rs = append(rs, ref)
			if r.P(1, 4) || bad == "t-second-place" {
				// the same reference at another place
				ref.at = scriptRange(r)
				if ref.at != rs[len(rs)-1].at {
					rs = append(rs, ref)
				}
			}
		}
		// declaring the same one twice means nothing else than once
		seen := map[string]bool{}
		all := rs
		rs = nil
		for _, ref := range all {
			if k := fmt.Sprint(ref.hcl(), ref.at); !seen[k] {
				seen[k] = true
				rs = append(rs, ref)
			}
		}
		txt += "traversals {\n"
		if bad == "f-traversal-argument" {
			txt += "  only = true\n"
		}
		for i, ref := range rs {
			rt := "    ref = " + ref.hcl() + "\n"
			if bad == "f-no-ref" && i == 0 {
				rt = r.Pick([]string{"", "    ref = 1 + 1\n"})
			}
			txt += "  expect {\n" + rt + ref.at.hcl() + "  }\n"
		}
		txt += "}\n"
		if bad == "f-two-traversals" {
			txt += "traversals {\n}\n"
		}
	}
	if r.P(1, 4) {
		txt = "# a test\n" + txt
	}
	add(".t", txt)
	add(".hcldec", "literal {\n  value = 1\n}\n")

	// what the decoder says
	for _, in := range inputs {
		file := "suite/" + name + in
		b := ""
		if in == wrong {
			b = bad
		}
		v, ty := val, typ
		if b == "v-value" {
			v = otherValue(r, val, typ)
		}
		if b == "v-null" {
			v = nil
		}
		a := &decAnswer{}
		if doDiags {
			a.code = 2
			got := append([]sDiag{}, ds...)
			i := r.N(len(got))
			raw := ""
			var js []string
			what := ""
			if p := strings.Split(b, "-"); len(p) == 3 {
				what = p[2]
			}
			switch {
			case b == "d-missing":
				got = append(got[:i], got[i+1:]...)
			case b == "d-extra", b == "d-extra-warning":
				x := sDiag{"error", scriptRange(r)}
				x.at.to.col += 30
				if b == "d-extra-warning" {
					x.sev = "warning"
				}
				got = append(got, x)
			case b == "d-severity":
				if got[i].sev == "error" {
					got[i].sev = "warning"
				} else {
					got[i].sev = "error"
				}
				for j := range got {
					if j != i && got[j].at == got[i].at {
						got = append(got, sDiag{"error", sRange{sPos{1, 1, 0}, sPos{1, 3, 2}}})
						break
					}
				}
			case strings.HasPrefix(b, "d-start"):
				got[i].at.from.shift(what)
			case strings.HasPrefix(b, "d-end"):
				got[i].at.to.shift(what)
			case b == "d-extra-elsewhere":
				raw = sDiag{r.Pick([]string{"error", "warning"}), scriptRange(r)}.json(r.Pick([]string{"other.hcl", "suite/" + name + ".hcldec", ""}))
			case b == "d-no-subject":
				raw = `{"severity": "error", "summary": "Summary", "detail": "No place."}`
			case b == "d-odd-severity":
				raw = fmt.Sprintf(`{"severity": "note", "summary": "Summary", "subject": %s}`, scriptRange(r).json(file))
			case b == "d-exit0":
				a.code = 0
				a.out = wire("x", "string")
			}
			for j, d := range got {
				f := file
				if j == i && b == "d-file" {
					f = r.Pick([]string{"other.hcl", file + "x", ""})
				}
				if j == i && b == "d-spec-file" {
					f = "suite/" + name + ".hcldec"
				}
				js = append(js, d.json(f))
			}
			if raw != "" {
				js = append(js, raw)
			}
			for j := len(js) - 1; j > 0; j-- {
				k := r.N(j + 1)
				js[j], js[k] = js[k], js[j]
			}
			a.err = `{"diagnostics": [` + strings.Join(js, ", ") + "]}\n"
			if b == "d-cut" {
				a.err = a.err[:r.N(len(a.err)-1)]
			}
		} else {
			a.out = wire(v, ty)
			switch b {
			case "v-exit":
				a.code = r.Range(1, 3)
			case "v-exit-diags":
				a.code = 2
				a.err = `{"diagnostics": [` + sDiag{"error", scriptRange(r)}.json(file) + "]}\n"
			case "v-warn-exit":
				a.code = 2
				a.err = `{"diagnostics": [` + sDiag{"warning", scriptRange(r)}.json(file) + "]}\n"
			case "v-cut":
				a.out = a.out[:r.N(len(a.out)-2)]
			}
		}
		s.script[file] = a
		if doRefs {
			q := &decAnswer{}
			got := append([]sRef{}, rs...)
			for j := range got {
				got[j].steps = append([]sStep{}, got[j].steps...)
			}
			i := r.N(len(got))
			f := file
			last := func() *sStep { return &got[i].steps[len(got[i].steps)-1] }
			// a reference that occurs at two places is not missed when one
			// of them remains, unless that is what is asked for
			whole := func() {
				h := rs[i].hcl()
				for j := range got {
					if rs[j].hcl() == h {
						got[j].steps = append([]sStep{}, got[i].steps...)
					}
				}
			}
			switch b {
			case "t-missing", "t-second-place":
				got = append(got[:i], got[i+1:]...)
			case "t-extra":
				got = append(got, sRef{[]sStep{{"root", "zz", nil}}, scriptRange(r)})
			case "t-name":
				got[i].steps[0].name = "zz"
				whole()
			case "t-step":
				got[i].steps = append(got[i].steps, sStep{"attr", "zz", nil})
				whole()
			case "t-short":
				got[i].steps = got[i].steps[:len(got[i].steps)-1]
				if last().kind == "root" {
					last().name = "zz"
				}
				if len(rs) > 1 {
					last().name += "zz"
					last().kind = "attr"
				}
			case "t-index":
				last().key = rat(77)
			case "t-index-type":
				last().key = ratText(last().key.(*big.Rat))
				for j := range rs {
					if rs[j].hcl() == got[i].hcl() {
						last().key = "77"
					}
				}
			case "t-key-lost":
				last().key = nil
			case "t-start":
				got[i].at.from.shift(r.Pick([]string{"line", "column", "byte"}))
			case "t-end":
				got[i].at.to.shift(r.Pick([]string{"line", "column", "byte"}))
			case "t-file":
				f = r.Pick([]string{"other.hcl", ""})
			case "t-exit":
				q.code = 1
			case "t-kind":
				last().kind = "splat"
			}
			var js []string
			for _, x := range got {
				js = append(js, x.json(f))
			}
			q.out = "[" + strings.Join(js, ", ") + "]\n"
			if b == "t-cut" {
				q.out = q.out[:r.N(len(q.out)-2)]
			}
			s.script[file+" refs"] = q
		}
	}
	return t
}

// scriptedDecoder is a decoder that reads its input and says what the script
// has for it.
func scriptedDecoder(s *suite) func() {
	return func() {
		p := simk.Must()
		in := p.Args[len(p.Args)-1]
		key := in
		for _, a := range p.Args {
			if a == "--var-refs" {
				key = in + " refs"
			}
		}
		a := s.script[key]
		h, err := p.Open(in, os.O_RDONLY, 0)
		if err == nil {
			buf := make([]byte, 4096)
			for err == nil {
				_, err = h.Read(buf)
			}
			h.Close()
			if err == io.EOF {
				err = nil
			}
		}
		if err != nil || a == nil {
			p.WriteStream(p.Stderr, []byte("{\"diagnostics\": [{\"severity\": \"error\", \"summary\": \"Cannot read\", \"detail\": \"No input.\"}]}\n"))
			p.Exit(2)
		}
		write := func(st *simk.Stream, text string) {
			if text == "" {
				return
			}
			if n, err := p.WriteStream(st, []byte(text)); err != nil || n < len(text) {
				p.Exit(3)
			}
		}
		write(p.Stdout, a.out)
		write(p.Stderr, a.err)
		p.Exit(a.code)
	}
}
