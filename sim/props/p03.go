package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/include"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"

	"verifsim/harness"
)

// shared is what several decoders have in common.
type shared struct {
	spec   hcldec.Spec
	funcs  map[string]function.Function
	parent *hcl.EvalContext
	files  map[string]*hcl.File
	schema *hcl.BodySchema
	trans  transform.Transformer
	voc    *vocab
	expr   hcl.Expression
}

const sharedFuncs = `
function "greet" {
  params = [who]
  result = "hello ${who} from ${region} ${join(",", objs[*].id)}"
}
function "pick" {
  params = [l, i]
  variadic_param = rest
  result = length(rest) > 0 ? l[i] : "none"
}
function "twice" {
  params = [x]
  result = "${upper(x)}${x}"
}
`

func newShared(sc *harness.Scenario) *shared {
	s := &shared{spec: mkSpec(int(sc.N["spec"])), voc: newVocab(), files: map[string]*hcl.File{}}
	s.schema = s.voc.root
	base := evalCtx(int(sc.N["ctx"]), false, stdFuncs())
	f, diags := hclsyntax.ParseConfig([]byte(sharedFuncs), "funcs.hcl", start)
	if diags.HasErrors() {
		panic(diags)
	}
	funcs, _, diags := userfunc.DecodeUserFunctions(f.Body, "function", func() *hcl.EvalContext { return base })
	if diags.HasErrors() {
		panic(diags)
	}
	for n, fn := range stdFuncs() {
		funcs[n] = fn
	}
	s.funcs = funcs
	s.parent = &hcl.EvalContext{Variables: base.Variables, Functions: funcs}
	for _, d := range sc.Docs {
		if f, _ := parseDoc(d); f != nil {
			s.files[d.Name] = f
		}
	}
	inc, _ := hclsyntax.ParseConfig([]byte("listener {\n  proto = join(\"-\", objs[*].id)\n}\n"), "inc.hcl", start)
	s.trans = include.Transformer("include", s.parent, include.MapResolver(map[string]hcl.Body{"common": inc.Body}))
	s.expr = parseX(`"${greet(own)} ${pick(list, 0, 1)} ${twice(objs[*].id[0])} ${[for k, v in tags : "${k}${v}"][0]}"`)
	return s
}

var shareKinds = []string{"decode", "decode", "pdecode", "vars", "dynvars", "dynwalk", "expand", "implied", "srcrange", "gohcl", "gomisc", "eval", "eval", "call", "call", "diag", "content", "include", "expr"}

func genP03(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{"spec": int64(r.N(16)), "ctx": int64(r.N(6))}}
	n := r.Range(2, 4)
	for i := 0; i < n; i++ {
		g := &xgen{r: r, user: true}
		o := docOpts{depth: r.Range(1, 2), blocks: true, dynamic: r.P(1, 3)}
		if r.P(1, 3) {
			o.bad = r.Range(1, 6)
		}
		var d harness.Doc
		if r.P(1, 5) {
			d = g.genJSON(fmt.Sprintf("doc%d.json", i), o)
		} else {
			d = g.genNative(fmt.Sprintf("doc%d.hcl", i), o)
			if r.P(1, 4) {
				d.Chunks = append(d.Chunks, "include {\n  path = \"common\"\n}\n")
			}
		}
		if k := r.Range(1, 4); len(d.Chunks) > k && r.P(3, 4) {
			d.Chunks = d.Chunks[len(d.Chunks)-k:]
		}
		sc.Docs = append(sc.Docs, d)
	}
	kind := ""
	if r.Bool() {
		kind = shareKinds[r.N(len(shareKinds))]
	}
	for i := 0; i < n; i++ {
		var ops []harness.Op
		for j := r.Range(1, 2); j > 0; j-- {
			op := harness.Op{K: shareKinds[r.N(len(shareKinds))], A: i, B: r.N(16), C: r.N(400)}
			if kind != "" {
				op.K = kind
			}
			ops = append(ops, op)
		}
		sc.Tasks = append(sc.Tasks, ops)
	}
	sc.Pol = genPolicy(r, 3000)
	late(r, sc)
	return sc
}

func (s *shared) do(op harness.Op, doc harness.Doc) string {
	var b strings.Builder
	f, diags := parseDoc(doc)
	b.WriteString(canonDiags(diags))
	if f == nil {
		return b.String()
	}
	ctx := s.parent.NewChild()
	ctx.Variables = map[string]cty.Value{"own": cty.StringVal(doc.Name), "name": cty.StringVal("name of " + doc.Name)}
	switch op.K {
	case "decode":
		v, diags := hcldec.Decode(f.Body, s.spec, ctx)
		b.WriteString(canonVal(v) + "\n" + canonDiags(diags))
	case "pdecode":
		v, remain, diags := hcldec.PartialDecode(f.Body, s.spec, ctx)
		b.WriteString(canonVal(v) + "\n" + canonDiags(diags))
		_, diags = remain.Content(&hcl.BodySchema{})
		b.WriteString(canonDiags(diags))
	case "vars":
		b.WriteString(canonTraversals(hcldec.Variables(f.Body, s.spec)))
	case "dynvars":
		b.WriteString(canonTraversals(dynblock.VariablesHCLDec(f.Body, s.spec)))
		b.WriteString(canonTraversals(dynblock.ExpandVariablesHCLDec(f.Body, s.spec)))
	case "dynwalk":
		s.voc.dynwalk(&b, f.Body)
	case "expand":
		v, diags := hcldec.Decode(dynblock.Expand(f.Body, ctx), s.spec, ctx)
		b.WriteString(canonVal(v) + "\n" + canonDiags(diags))
	case "implied":
		is := hcldec.ImpliedSchema(s.spec)
		var ns []string
		for _, a := range is.Attributes {
			ns = append(ns, fmt.Sprintf("%v", a))
		}
		for _, k := range is.Blocks {
			ns = append(ns, fmt.Sprintf("%v", k))
		}
		sort.Strings(ns)
		b.WriteString(canonType(hcldec.ImpliedType(s.spec)) + strings.Join(ns, "\n"))
		ns = nil
		for n := range hcldec.ChildBlockTypes(s.spec) {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		b.WriteString(strings.Join(ns, " "))
	case "srcrange":
		r := hcldec.SourceRange(f.Body, s.spec)
		b.WriteString(canonRange(&r))
		for _, k := range []string{"s1", "services", "rules", "listeners"} {
			r := hcldec.SourceRange(f.Body, s.spec.(hcldec.ObjectSpec)[k])
			b.WriteString(canonRange(&r))
		}
	case "gohcl":
		var root gRoot
		diags := gohcl.DecodeBody(f.Body, ctx, &root)
		b.WriteString(canonGo(&root) + "\n" + canonDiags(diags))
	case "gomisc":
		b.WriteString(goMisc(f.Body, ctx, op.B*7+op.C))
	case "eval":
		s.voc.canon(&b, f.Body, s.schema, ctx, "")
	case "call":
		for _, n := range []string{"greet", "twice", "pick"} {
			args := []cty.Value{cty.StringVal(doc.Name)}
			if n == "pick" {
				args = []cty.Value{cty.ListVal([]cty.Value{cty.StringVal(doc.Name), cty.StringVal("x")}), cty.NumberIntVal(int64(op.B % 3)), cty.True}
			}
			v, err := s.funcs[n].Call(args)
			fmt.Fprintf(&b, "%s %s %v\n", n, canonVal(v), err)
		}
	case "diag":
		_, diags := hcldec.Decode(f.Body, s.spec, ctx)
		canonContent(&b, f.Body, &hcl.BodySchema{Blocks: s.schema.Blocks}, ctx, "")
		sort.SliceStable(diags, func(i, j int) bool { return canonDiag(diags[i]) < canonDiag(diags[j]) })
		var buf bytes.Buffer
		if err := hcl.NewDiagnosticTextWriter(&buf, s.files, uint(40+op.C%60), op.B%2 == 0).WriteDiagnostics(diags); err != nil {
			b.WriteString(err.Error())
		}
		b.Write(buf.Bytes())
	case "content":
		body := f.Body
		if op.B%2 == 0 {
			body = dynblock.Expand(body, ctx)
		}
		for i := 0; i < 3; i++ {
			sub := s.schema
			if op.C%2 == 0 {
				sub = &hcl.BodySchema{Attributes: s.schema.Attributes[i*3 : i*3+3], Blocks: s.schema.Blocks[i : i+1]}
			}
			c, rest, diags := body.PartialContent(sub)
			fmt.Fprintf(&b, "%d %d %s\n", len(c.Attributes), len(c.Blocks), canonDiags(diags))
			body = rest
		}
		canonContent(&b, hcl.MergeBodies([]hcl.Body{f.Body, hcl.EmptyBody()}), s.schema, nil, "")
	case "include":
		s.voc.canon(&b, transform.Deep(f.Body, s.trans), s.schema, ctx, "")
	case "expr":
		v, diags := s.expr.Value(ctx)
		b.WriteString(canonVal(v) + canonDiags(diags) + canonTraversals(s.expr.Variables()))
	default:
		panic("unknown op " + op.K)
	}
	return b.String()
}

func runP03(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P03")
	together(sc, o, p, "while others use the same specification, functions and scope", func(op harness.Op) string {
		return newShared(sc).do(op, docAt(sc, op.A))
	}, func() func(op harness.Op) string {
		s := newShared(sc)
		return func(op harness.Op) string { return s.do(op, docAt(sc, op.A)) }
	})
}

func init() {
	harness.Register(&harness.Property{
		ID: "P03", Race: true, Cold: 48, QuickRuns: 8000, QuickSecs: 50, ThoroughRuns: 400000, ThoroughSecs: 600,
		Rule:        "a run counts when at least two decoders had work and the scheduler switched between them more often than tasks ended; distinct by the full schedule (every switch with task and step)",
		Real:        []string{"hcl", "hclsyntax", "hcl/json", "hcldec", "gohcl", "dynblock", "transform", "include", "userfunc", "go-cty"},
		Stub:        []string{"sync (simulated, race-annotated)", "goroutine scheduler", "map iteration seed"},
		Assumptions: []string{"each operation's reference result is that of the same code running alone with a specification, functions and scope built separately"},
		Gen:         genP03, Run: runP03,
	})
}
