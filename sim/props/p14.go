package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"

	"verifsim/harness"
	"verifsim/simrt"
)

func genP14(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}, S: map[string]string{}}
	for i := 0; i < 2; i++ {
		g := &xgen{r: r}
		d := g.genNative(fmt.Sprintf("f%d.hcl", i), docOpts{depth: r.Range(1, 4), blocks: true, comment: true, bad: r.N(4) * r.N(4)})
		if k := r.Range(1, 8); len(d.Chunks) > k && r.P(3, 4) {
			d.Chunks = d.Chunks[:k]
		}
		for j := r.N(3); j > 0 && len(d.Chunks) > 0; j-- {
			// room between the items
			at := r.N(len(d.Chunks) + 1)
			gap := strings.Repeat("\n", r.Range(1, 140))
			if r.P(1, 3) {
				gap = "# " + strings.Repeat("x", r.N(300)) + "\n"
			}
			d.Chunks = append(d.Chunks[:at:at], append([]string{gap}, d.Chunks[at:]...)...)
		}
		sc.Docs = append(sc.Docs, d)
	}
	var way, dmg []harness.Op
	for k := r.Range(1, 4); k > 0; k-- {
		way = append(way, harness.Op{K: r.Pick([]string{"hop", "hop", "hop", "take", "join", "child", "add"}), A: r.N(1 << 16)})
	}
	if r.P(2, 3) {
		for k := r.Range(1, 3); k > 0; k-- {
			dmg = append(dmg, harness.Op{K: r.Pick([]string{"bytes", "text", "text", "text", "number", "drop", "splice"}), S: r.Pick(damageKinds), A: r.N(1 << 16), B: r.N(1 << 16), C: r.N(1 << 8)})
		}
	}
	sc.Tasks = [][]harness.Op{way, dmg}
	return sc
}

// harm damages a message on its way.
func harm(op harness.Op, msg, other []byte) []byte {
	s := string(msg)
	// the places of strings and numbers
	var strs, nums [][2]int
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j < len(s) {
				strs = append(strs, [2]int{i + 1, j})
			}
			i = j
		} else if s[i] >= '0' && s[i] <= '9' {
			nums = append(nums, [2]int{i, i + 1})
		}
	}
	const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/;\""
	switch op.K {
	case "bytes":
		return hurt(op, msg, other)
	case "text":
		// a character of some string is lost, doubled or another one
		if len(strs) == 0 {
			return msg
		}
		p := strs[op.A%len(strs)]
		if p[0] == p[1] {
			return msg
		}
		at := p[0] + op.B%(p[1]-p[0])
		switch op.C % 4 {
		case 0:
			return []byte(s[:at] + s[at+1:])
		case 1:
			return []byte(s[:at] + s[at:at+1] + s[at:])
		case 2:
			return []byte(s[:at] + s[p[1]:])
		}
		return []byte(s[:at] + string(letters[op.C/4%len(letters)]) + s[at+1:])
	case "number":
		if len(nums) == 0 {
			return msg
		}
		p := nums[op.A%len(nums)]
		return []byte(s[:p[0]] + fmt.Sprint(op.B%12) + s[p[1]:])
	case "drop":
		// a string, with what introduces it
		if len(strs) < 2 {
			return msg
		}
		k := 1 + op.A%(len(strs)-1)
		return []byte(s[:strs[k-1][1]] + s[strs[k][1]:])
	case "splice":
		// a string of another message
		if len(strs) == 0 || len(other) == 0 {
			return msg
		}
		p := strs[op.A%len(strs)]
		o := strings.Split(string(other), "\"")
		return []byte(s[:p[0]] + o[op.B%len(o)] + s[p[1]:])
	}
	return msg
}

// handMade are expressions of all kinds that a message can carry.
var handMade = []hclpack.Expression{
	{SourceType: hclpack.ExprNative, Source: []byte("(name)")},
	{SourceType: hclpack.ExprNative, Source: []byte("\"<&>${upper(name)}\\u2028\"")},
	{SourceType: hclpack.ExprNative, Source: []byte("nope +")},
	{SourceType: hclpack.ExprTemplate, Source: []byte("hello ${name}\n%{ for x in list }${x}<%{ endfor }")},
	{SourceType: hclpack.ExprTemplate, Source: []byte("${list}")},
	{SourceType: hclpack.ExprTemplate, Source: []byte("\"quoted\" \\n ${missing}")},
	{SourceType: hclpack.ExprLiteralJSON, Source: []byte("{\"a\": [1, true, null, \"${name}\"]}")},
	{SourceType: hclpack.ExprLiteralJSON, Source: []byte("{\"a\": ")},
}

// meaning gives the expression that the text of a packed expression stands
// for, if there is one.
func meaning(e *hclpack.Expression) hcl.Expression {
	var expr hcl.Expression
	var diags hcl.Diagnostics
	switch e.SourceType {
	case hclpack.ExprNative:
		expr, diags = hclsyntax.ParseExpression(e.Source, e.Range_.Filename, e.Range_.Start)
	case hclpack.ExprTemplate:
		expr, diags = hclsyntax.ParseTemplate(e.Source, e.Range_.Filename, e.Range_.Start)
	}
	if expr == nil || diags.HasErrors() {
		return e
	}
	return expr
}

// delivery collects what has been read of a body.
type delivery struct {
	attrs  map[string]string
	blocks map[string][]string
}

func (d *delivery) take(content *hcl.BodyContent, ctx *hcl.EvalContext) {
	for _, a := range sortedAttrs(content.Attributes) {
		v, diags := a.Expr.Value(ctx)
		// The range of a packed expression is that of its text, with
		// parentheses and the like.
		s := fmt.Sprintf("attr %s %s name %s", a.Name, canonRange(&a.Range), canonRange(&a.NameRange)) + "\n= " + canonVal(v) + "\n" + canonDiags(diags) + "\nvars " + canonTraversals(a.Expr.Variables())
		if old, ok := d.attrs[a.Name]; ok {
			s = "twice: " + old + "\n" + s
		}
		d.attrs[a.Name] = s
	}
	for _, blk := range content.Blocks {
		in := &delivery{map[string]string{}, map[string][]string{}}
		content, diags := blk.Body.Content(innerSchema(blk.Type))
		in.take(content, ctx)
		s := canonBlockHead(blk) + "\n"
		for _, d := range diags {
			s += d.Summary + "\n"
		}
		d.blocks[blk.Type] = append(d.blocks[blk.Type], s+in.String())
	}
}

func (d *delivery) String() string {
	var b strings.Builder
	for _, n := range sortedKeys(d.attrs) {
		b.WriteString(d.attrs[n] + "\n")
	}
	var types []string
	for t := range d.blocks {
		types = append(types, t)
	}
	sort.Strings(types)
	for _, t := range types {
		b.WriteString(strings.Join(d.blocks[t], ""))
	}
	return b.String()
}

// justAll reads all attributes of a body and the blocks in it without knowing
// their names.
func justAll(body hcl.Body, schema *hcl.BodySchema, ctx *hcl.EvalContext) string {
	var b strings.Builder
	just, _ := body.JustAttributes()
	for _, a := range sortedAttrs(just) {
		v, _ := a.Expr.Value(ctx)
		fmt.Fprintf(&b, "%s %s %s = %s\n", a.Name, canonRange(&a.Range), canonRange(&a.NameRange), canonVal(v))
	}
	content, _, _ := body.PartialContent(schema)
	for _, blk := range content.Blocks {
		b.WriteString(blk.Type + "\n" + justAll(blk.Body, innerSchema(blk.Type), ctx) + "end\n")
	}
	return b.String()
}

// endPlaces gives the places at which a body and the bodies in it report
// what they miss.
func endPlaces(b *hclpack.Body) string {
	rng := b.MissingItemRange()
	s := " " + canonRange(&rng)
	for i := range b.ChildBlocks {
		s += endPlaces(&b.ChildBlocks[i].Body)
	}
	return s
}

func runP14(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P14")
	start := hcl.Pos{Line: 1, Column: 1}
	ctx := ctxFor(0)
	schema := rootSchema()
	var docs [2][]byte
	var bodies [2]hcl.Body
	files := map[string]*hcl.File{}
	for i := range docs {
		docs[i] = []byte(sc.Docs[i].Text())
		f, diags := hclsyntax.ParseConfig(docs[i], sc.Docs[i].Name, start)
		if diags.HasErrors() {
			// Items may be repeated: not a message that a sender would pack.
			o.Tag("unusable")
			return
		}
		bodies[i], files[sc.Docs[i].Name] = f.Body, f
	}
	o.Sig = simrt.Mix(o.Sig, string(docs[0])+fmt.Sprint(sc.Tasks))
	o.Note("%s: %q", sc.Docs[0].Name, docs[0])
	var msg, other []byte
	o.Alone(p, "transport", nil, func() {
		want := &delivery{map[string]string{}, map[string][]string{}}
		got := &delivery{map[string]string{}, map[string][]string{}}
		content, _, wantDiags := bodies[0].PartialContent(schema)
		want.take(content, ctx)
		body, diags := hclpack.PackNativeFile(docs[0], sc.Docs[0].Name, start)
		if diags.HasErrors() {
			o.Fail("pack", "a file that parses cannot be packed: %s", canonDiags(diags))
			return
		}
		body2, _ := hclpack.PackNativeFile(docs[1], sc.Docs[1].Name, start)
		send := func(b *hclpack.Body) *hclpack.Body {
			m, err := json.Marshal(b)
			if err != nil {
				o.Fail("send", "the packed body cannot be serialised: %s", err)
				return nil
			}
			msg = m
			ret := &hclpack.Body{}
			if err := json.Unmarshal(m, ret); err != nil {
				o.Fail("receive", "an undamaged message is rejected: %s\n%s", err, m)
				return nil
			}
			if a, b := endPlaces(b), endPlaces(ret); a != b {
				o.Fail("ends", "missing arguments are reported at%s by the sender, at%s by the receiver", a, b)
				return nil
			}
			return ret
		}
		if m, err := json.Marshal(body2); err == nil {
			other = m
		}
		joined, changed := false, false
		for _, op := range sc.Tasks[0] {
			if body == nil {
				return
			}
			switch op.K {
			case "hop":
				body = send(body)
			case "join":
				// another file's items are carried in the same body
				if joined {
					continue
				}
				joined = true
				content, _, _ := bodies[1].PartialContent(schema)
				add := &hcl.BodyContent{Attributes: hcl.Attributes{}}
				for n, a := range body2.Attributes {
					if _, ok := want.attrs[n]; ok || content.Attributes[n] == nil {
						continue
					}
					if body.Attributes == nil {
						body.Attributes = map[string]hclpack.Attribute{}
					}
					body.Attributes[n] = a
					add.Attributes[n] = content.Attributes[n]
				}
				body.ChildBlocks = append(body.ChildBlocks, body2.ChildBlocks...)
				add.Blocks = content.Blocks
				want.take(add, ctx)
				body = send(body)
			case "take":
				changed = true
				// this receiver reads a part and sends on the rest
				part := &hcl.BodySchema{}
				for i, a := range schema.Attributes {
					if op.A>>uint(i%16)&1 == 1 {
						part.Attributes = append(part.Attributes, a)
					}
				}
				for i, b := range schema.Blocks {
					if op.A>>uint((i+5)%16)&1 == 1 {
						part.Blocks = append(part.Blocks, b)
					}
				}
				content, remain, _ := body.PartialContent(part)
				got.take(content, ctx)
				var ok bool
				if body, ok = remain.(*hclpack.Body); !ok {
					o.Fail("remain", "what is left of a packed body is a %T", remain)
					return
				}
				body = send(body)
			case "add":
				// an expression that the sender made itself
				changed = true
				for _, as := range schema.Attributes {
					if _, ok := want.attrs[as.Name]; ok {
						continue
					}
					e := handMade[op.A%len(handMade)]
					line := op.A % 70
					e.Range_ = hcl.Range{Filename: "made", Start: hcl.Pos{Line: 1 + line, Column: 5, Byte: 30*line + 4}, End: hcl.Pos{Line: 1 + line, Column: 25, Byte: 30*line + 24}}
					e.StartRange_ = e.Range_
					a := hclpack.Attribute{Expr: e, Range: e.Range_, NameRange: e.Range_}
					if body.Attributes == nil {
						body.Attributes = map[string]hclpack.Attribute{}
					}
					body.Attributes[as.Name] = a
					want.take(&hcl.BodyContent{Attributes: hcl.Attributes{as.Name: {Name: as.Name, Expr: meaning(&a.Expr), Range: a.Range, NameRange: a.NameRange}}}, ctx)
					break
				}
				body = send(body)
			case "child":
				changed = true
				// a block's body is sent on by itself
				if len(body.ChildBlocks) == 0 {
					continue
				}
				k := op.A % len(body.ChildBlocks)
				cb := body.ChildBlocks[k].Body
				rb := send(&cb)
				if rb == nil {
					return
				}
				body.ChildBlocks[k].Body = *rb
			}
		}
		if body == nil {
			return
		}
		content, _, gotDiags := body.PartialContent(schema)
		got.take(content, ctx)
		if w, g := want.String(), got.String(); w != g {
			x, y := firstDiff(w, g)
			o.Fail("differs", "the receiver reads something else:\n--- sent\n%s\n--- received\n%s", x, y)
			return
		}
		if wantDiags.HasErrors() && !gotDiags.HasErrors() && !joined && len(got.attrs) == len(content.Attributes) {
			o.Fail("accepted", "the sender's reader reports %s, the receiver's nothing", canonDiags(wantDiags))
			return
		}
		// what is not expected is reported where it is
		if !joined && !changed {
			places := func(diags hcl.Diagnostics) string {
				var ss []string
				for _, d := range diags {
					ss = append(ss, canonRange(d.Subject))
				}
				sort.Strings(ss)
				return strings.Join(ss, " ")
			}
			for _, s := range []*hcl.BodySchema{{}, {Attributes: schema.Attributes}, {Blocks: schema.Blocks}} {
				_, d1 := bodies[0].Content(s)
				_, d2 := body.Content(s)
				if a, b := places(d1), places(d2); a != b {
					o.Fail("places", "unexpected items are reported at %s by the sender, at %s by the receiver", a, b)
					return
				}
			}
			// other ways of reading
			if a, b := justAll(bodies[0], rootSchema(), ctx), justAll(body, rootSchema(), ctx); a != b {
				x, y := firstDiff(a, b)
				o.Fail("just", "the receiver reads other attributes:\n--- sent\n%s\n--- received\n%s", x, y)
				return
			}
			v1, _ := hcldec.Decode(bodies[0], mkSpec(len(msg)), ctx)
			v2, _ := hcldec.Decode(body, mkSpec(len(msg)), ctx)
			if a, b := canonVal(v1), canonVal(v2); a != b {
				x, y := firstDiff(a, b)
				o.Fail("decoded", "the receiver decodes something else:\n--- sent\n%s\n--- received\n%s", x, y)
				return
			}
			_, d1 := bodies[0].JustAttributes()
			_, d2 := body.JustAttributes()
			if d1.HasErrors() && !strings.Contains(places(d2), places(d1)) {
				o.Fail("places", "unexpected blocks are reported at %s by the sender, at %s by the receiver", places(d1), places(d2))
				return
			}
		}
		send(body)
		o.Nontrivial = true
	})
	if o.Violation != "" || len(sc.Tasks[1]) == 0 || msg == nil {
		return
	}
	for _, op := range sc.Tasks[1] {
		was := string(msg)
		msg = harm(op, msg, other)
		if string(msg) != was {
			k := op.K
			if k == "bytes" {
				k += "-" + op.S
			}
			o.Faults = append(o.Faults, "transit/"+k)
		}
	}
	o.Note("damaged message: %q", msg)
	o.Alone(p, "damaged", nil, func() {
		body := &hclpack.Body{}
		if err := json.Unmarshal(msg, body); err != nil {
			o.Tag("rejected")
			return
		}
		o.Tag("read")
		read := func(body hcl.Body) hcl.Diagnostics {
			var b strings.Builder
			canonContent(&b, body, schema, ctx, "")
			_, diags := body.Content(schema)
			_, _, more := body.PartialContent(&hcl.BodySchema{})
			diags = append(diags, more...)
			attrs, more := body.JustAttributes()
			diags = append(diags, more...)
			for _, a := range sortedAttrs(attrs) {
				a.Expr.Variables()
				_, more := a.Expr.Value(ctx)
				diags = append(diags, more...)
				hcl.ExprList(a.Expr)
				hcl.ExprMap(a.Expr)
				hcl.ExprCall(a.Expr)
				hcl.ExprAsKeyword(a.Expr)
			}
			_, more = hcldec.Decode(body, mkSpec(0), ctx)
			return append(diags, more...)
		}
		diags := read(body)
		diags = append(diags, read(dynblock.Expand(body, ctx))...)
		w := hcl.NewDiagnosticTextWriter(&strings.Builder{}, files, 60, true)
		if err := w.WriteDiagnostics(diags); err != nil {
			o.Fail("report", "the diagnostics cannot be written: %s", err)
		}
		if again, err := json.Marshal(body); err == nil {
			if err := json.Unmarshal(again, &hclpack.Body{}); err != nil {
				o.Tag("not-twice")
			}
		}
	})
}

func init() {
	harness.Register(&harness.Property{
		ID: "P14", QuickRuns: 60000, QuickSecs: 45, ThoroughRuns: 3000000, ThoroughSecs: 600, MaxSteps: 5000000,
		Rule: "a run counts when a message made its way undamaged; distinct by the file, the way and the damage",
		Real: []string{"hclpack, hcl, hclsyntax, dynblock, hcldec"},
		Stub: []string{"the transport between sender and receivers"},
		Gen:  genP14, Run: runP14,
	})
}
