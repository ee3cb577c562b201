package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"

	"verifsim/harness"
	"verifsim/simrt"
)

// Tasks that begin with a "part" operation are the parts a body is merged
// from, the others are chains of consumers over that body.

// pItem is an item of a body: an attribute, a block, or a dynamic block, which
// stands for one block per element.
type pItem struct {
	k      string // attr, block, dyn, null (a block type with no blocks, in JSON)
	name   string // attribute name or block type
	val    int
	iter   string // iterator an attribute's value comes from
	labels []string
	elems  []int
	kids   []pItem
	file   string
	made   bool // by a dynamic block
}

// pTypes lists the block types; the digit is the number of labels.
var pTypes = []string{"t0", "t1", "u1", "t2"}

func nLabels(typ string) int { return int(typ[1] - '0') }

func buildItems(ops []harness.Op, file string) []pItem {
	var build func() []pItem
	build = func() []pItem {
		var items []pItem
		for len(ops) > 0 {
			op := ops[0]
			ops = ops[1:]
			if op.K == "end" {
				break
			}
			it := pItem{k: op.K, name: op.S, val: op.A, iter: op.T, labels: op.L, file: file}
			if op.K == "block" || op.K == "dyn" {
				it.kids = build()
			}
			for i := 0; i < op.B; i++ {
				it.elems = append(it.elems, op.A+i*7)
			}
			items = append(items, it)
		}
		return items
	}
	var items []pItem
	for len(ops) > 0 {
		items = append(items, build()...)
	}
	return items
}

func nativeParts(items []pItem, ind string) string {
	var b strings.Builder
	for _, it := range items {
		switch it.k {
		case "attr":
			if it.iter != "" {
				fmt.Fprintf(&b, "%s%s = %s.value\n", ind, it.name, it.iter)
			} else {
				fmt.Fprintf(&b, "%s%s = %d\n", ind, it.name, it.val)
			}
		case "block":
			fmt.Fprintf(&b, "%s%s", ind, it.name)
			for _, l := range it.labels {
				fmt.Fprintf(&b, " %q", l)
			}
			fmt.Fprintf(&b, " {\n%s%s}\n", nativeParts(it.kids, ind+"  "), ind)
		case "dyn":
			fmt.Fprintf(&b, "%sdynamic %q {\n%s  for_each = %s\n", ind, it.name, ind, intList(it.elems))
			if len(it.labels) > 0 {
				fmt.Fprintf(&b, "%s  labels = [%s]\n", ind, dynLabels(it))
			}
			fmt.Fprintf(&b, "%s  content {\n%s%s  }\n%s}\n", ind, nativeParts(it.kids, ind+"    "), ind, ind)
		}
	}
	return b.String()
}

func intList(l []int) string { return strings.Replace(fmt.Sprint(l), " ", ", ", -1) }

func dynLabels(it pItem) string {
	var ls []string
	for _, l := range it.labels {
		ls = append(ls, fmt.Sprintf("\"%s${%s.value}\"", l, it.name))
	}
	return strings.Join(ls, ", ")
}

// jsonParts writes one property per item, or several blocks of a type as an
// array.
func jsonParts(items []pItem, style int) string {
	var props []string
	wrap := func(labels []string, body string, list bool) string {
		for i := len(labels) - 1; i >= 0; i-- {
			if (style+i)%3 == 0 && !(list && i == 0) {
				body = fmt.Sprintf("[{%q: %s}]", labels[i], body)
			} else {
				body = fmt.Sprintf("{%q: %s}", labels[i], body)
			}
		}
		return body
	}
	for i := 0; i < len(items); i++ {
		it := items[i]
		switch it.k {
		case "attr":
			if it.iter != "" {
				props = append(props, fmt.Sprintf("%q: \"${%s.value}\"", it.name, it.iter))
			} else {
				props = append(props, fmt.Sprintf("%q: %d", it.name, it.val))
			}
		case "block":
			var bodies []string
			if style%3 == 1 && len(it.labels) > 0 {
				// several blocks as the properties of one object
				first := wrap(it.labels, jsonParts(it.kids, style+1), true)
				for i+1 < len(items) && items[i+1].k == "block" && items[i+1].name == it.name {
					i++
					next := wrap(items[i].labels, jsonParts(items[i].kids, style+1), true)
					first = strings.TrimSuffix(first, "}") + ", " + strings.TrimPrefix(next, "{")
				}
				props = append(props, fmt.Sprintf("%q: %s", it.name, first))
				continue
			}
			list := style%2 == 0 && i+1 < len(items) && items[i+1].k == "block" && items[i+1].name == it.name
			bodies = append(bodies, wrap(it.labels, jsonParts(it.kids, style+1), list))
			for list && i+1 < len(items) && items[i+1].k == "block" && items[i+1].name == it.name {
				i++
				bodies = append(bodies, wrap(items[i].labels, jsonParts(items[i].kids, style+1), list))
			}
			if len(bodies) == 1 {
				props = append(props, fmt.Sprintf("%q: %s", it.name, bodies[0]))
			} else {
				props = append(props, fmt.Sprintf("%q: [%s]", it.name, strings.Join(bodies, ", ")))
			}
		case "dyn":
			body := fmt.Sprintf("{\"for_each\": %s, ", intList(it.elems))
			if len(it.labels) > 0 {
				body += fmt.Sprintf("\"labels\": [%s], ", dynLabels(it))
			}
			body += fmt.Sprintf("\"content\": %s}", jsonParts(it.kids, style+1))
			props = append(props, fmt.Sprintf("\"dynamic\": {%q: %s}", it.name, body))
		case "null":
			props = append(props, fmt.Sprintf("%q: %s", it.name, wrap(it.labels, "null", false)))
		}
	}
	if style%5 == 1 {
		props = append(props, "\"//\": \"nothing\"")
	}
	return "{" + strings.Join(props, ",\n") + "}"
}

// jsonArray writes the items as an array of objects, which is another way to
// write a body.
func jsonArray(items []pItem, style int) string {
	cut := style % (len(items) + 1)
	return "[" + jsonParts(items[:cut], style) + ",\n" + jsonParts(items[cut:], style+1) + "]"
}

// onlyJSON removes what other syntaxes don't have.
func onlyJSON(items []pItem) []pItem {
	var ret []pItem
	for _, it := range items {
		if it.k != "null" {
			it.kids = onlyJSON(it.kids)
			ret = append(ret, it)
		}
	}
	return ret
}

// expandItems replaces dynamic blocks by the blocks they stand for.
func expandItems(items []pItem, iters map[string]int) []pItem {
	var ret []pItem
	for _, it := range items {
		switch it.k {
		case "attr":
			if v, ok := iters[it.iter]; ok {
				it.val = v
			}
			ret = append(ret, it)
		case "null":
			ret = append(ret, it)
		case "block":
			it.kids = expandItems(it.kids, iters)
			ret = append(ret, it)
		case "dyn":
			for _, e := range it.elems {
				sub := map[string]int{}
				for n, v := range iters {
					sub[n] = v
				}
				sub[it.name] = e
				b := pItem{k: "block", made: true, name: it.name, file: it.file, kids: expandItems(it.kids, sub)}
				for _, l := range it.labels {
					b.labels = append(b.labels, fmt.Sprintf("%s%d", l, e))
				}
				ret = append(ret, b)
			}
		}
	}
	return ret
}

func genP04(r *rnd, tier string) *harness.Scenario {
	sc := &harness.Scenario{N: map[string]int64{}, S: map[string]string{}}
	expand := r.P(1, 2)
	wraps := []string{}
	if expand {
		wraps = append(wraps, "expand")
	}
	if r.P(1, 4) {
		wraps = append(wraps, "deep")
	}
	if len(wraps) == 2 && r.Bool() {
		wraps[0], wraps[1] = wraps[1], wraps[0]
	}
	sc.S["wrap"] = strings.Join(wraps, ",")
	id := 0
	next := func() int { id++; return id }
	var names []string
	nparts := 1
	if r.P(1, 2) {
		nparts = r.Range(2, 3)
	}
	for i := 0; i < nparts; i++ {
		ops := []harness.Op{{K: "part", S: r.Pick([]string{"native", "json", "json", "packed"}), A: r.N(30), B: r.N(6)}}
		var body func(depth int, iters []string)
		body = func(depth int, iters []string) {
			most := 5
			if depth > 2 {
				most = 2
			}
			for k := r.Range(1, most); k > 0; k-- {
				switch c := r.N(9); {
				case c < 4 || depth == 0:
					op := harness.Op{K: "attr", S: fmt.Sprintf("a%s%d", r.Pick([]string{"", "", "", "_", "-", "é"}), next()), A: r.N(100)}
					if len(iters) > 0 && r.Bool() {
						op.T = iters[r.N(len(iters))]
					}
					names = append(names, op.S)
					ops = append(ops, op)
				default:
					typ := pTypes[r.N(len(pTypes))]
					op := harness.Op{K: "block", S: typ}
					for l := 0; l < nLabels(typ); l++ {
						if r.P(1, 12) {
							op.L = append(op.L, "//")
							continue
						}
						op.L = append(op.L, fmt.Sprintf("l%d", next()))
					}
					if ops[0].S == "json" && r.P(1, 12) {
						op.K = "null"
						ops = append(ops, op)
						continue
					}
					sub := iters
					if expand && r.P(1, 3) {
						op.K, op.A, op.B = "dyn", r.N(100), r.Range(0, 3)
						sub = append(iters[:len(iters):len(iters)], typ)
					}
					ops = append(ops, op)
					body(depth-1, sub)
					ops = append(ops, harness.Op{K: "end"})
				}
			}
		}
		depth := 2
		if r.P(1, 4) {
			depth = r.Range(3, 5)
		}
		body(depth, nil)
		sc.Tasks = append(sc.Tasks, ops)
	}
	sc.N["nest"] = int64(r.N(6))
	for c := r.Range(1, 3); c > 0; c-- {
		var ops []harness.Op
		ops = append(ops, harness.Op{K: "chain", A: r.N(10000)})
		for k := r.Range(0, 4); k > 0; k-- {
			op := harness.Op{K: r.Pick([]string{"partial", "partial", "partial", "need", "gohcl", "hcldec", "peek"})}
			if op.K == "gohcl" {
				op.A = r.N(256)
			}
			for j := r.Range(0, 4); j > 0; j-- {
				if r.P(2, 3) && len(names) > 0 {
					op.L = append(op.L, names[r.N(len(names))])
				} else {
					op.L = append(op.L, r.Pick([]string{"t0", "t1", "u1", "t2", "zz"}))
				}
			}
			ops = append(ops, op)
		}
		ops = append(ops, harness.Op{K: r.Pick([]string{"rest", "rest", "some", "just", "gojust", "stop"}), A: r.N(1000)})
		sc.Tasks = append(sc.Tasks, ops)
	}
	sc.Pol = genPolicy(r, 8000)
	return sc
}

// pWorld is the body under consumption.
type pWorld struct {
	items []pItem
	src   map[string][]byte
	json  bool // some of it is JSON
	o     *harness.Outcome
}

func (w *pWorld) text(r hcl.Range) string {
	src := w.src[r.Filename]
	if r.Start.Byte < 0 || r.End.Byte > len(src) || r.Start.Byte > r.End.Byte {
		return "?"
	}
	return strings.Trim(string(src[r.Start.Byte:r.End.Byte]), `"`)
}

func runP04(sc *harness.Scenario, o *harness.Outcome) {
	p := harness.Find("P04")
	w := &pWorld{src: map[string][]byte{}, o: o}
	var body hcl.Body
	var chains [][]harness.Op
	var trouble string
	array := false
	o.Alone(p, "build", nil, func() {
		var bodies []hcl.Body
		for i, t := range sc.Tasks {
			if len(t) == 0 {
				continue
			}
			if t[0].K != "part" {
				chains = append(chains, t)
				continue
			}
			name := fmt.Sprintf("f%d.hcl", i)
			items := buildItems(t[1:], name)
			if t[0].S != "json" {
				items = onlyJSON(items)
			}
			w.items = append(w.items, items...)
			var text string
			switch t[0].S {
			case "json":
				w.json = true
				text = jsonParts(items, t[0].A) + "\n"
				if t[0].B == 0 {
					array = true
					text = jsonArray(items, t[0].A) + "\n"
				}
				f, diags := json.Parse([]byte(text), name)
				if diags.HasErrors() {
					trouble = text + canonDiags(diags)
					return
				}
				bodies = append(bodies, f.Body)
			case "packed":
				text = nativeParts(items, "")
				pb, diags := hclpack.PackNativeFile([]byte(text), name, start)
				if diags.HasErrors() {
					trouble = text + canonDiags(diags)
					return
				}
				if t[0].A%2 == 0 {
					b, err := pb.MarshalJSON()
					pb = &hclpack.Body{}
					if err == nil {
						err = pb.UnmarshalJSON(b)
					}
					if err != nil {
						o.Fail("pack", "packing and unpacking fails: %v", err)
						return
					}
				}
				bodies = append(bodies, pb)
			default:
				text = nativeParts(items, "")
				f, diags := hclsyntax.ParseConfig([]byte(text), name, start)
				if diags.HasErrors() {
					trouble = text + canonDiags(diags)
					return
				}
				bodies = append(bodies, f.Body)
			}
			w.src[name] = []byte(text)
		}
		switch n := len(bodies); {
		case sc.N["nest"] == 1:
			bodies = append([]hcl.Body{hcl.EmptyBody(), hcl.MergeBodies(nil)}, bodies...)
			// the caller's list is as good as before
			hcl.MergeBodies(bodies)
			body = hcl.MergeBodies(bodies)
		case sc.N["nest"] == 2:
			body = hcl.MergeBodies([]hcl.Body{hcl.MergeBodies(bodies[:n/2]), hcl.MergeBodies(bodies[n/2:])})
		case n == 1:
			body = bodies[0]
		default:
			body = hcl.MergeBodies(bodies)
		}
		for _, s := range strings.Split(sc.S["wrap"], ",") {
			switch s {
			case "expand":
				body = dynblock.Expand(body, nil)
			case "deep":
				body = transform.Deep(body, transform.TransformerFunc(func(b hcl.Body) hcl.Body { return b }))
			}
		}
	})
	if trouble != "" {
		o.Trouble = "generated document is invalid: " + trouble
		return
	}
	if o.Violation != "" {
		return
	}
	items := expandItems(w.items, nil)
	var specs []simrt.Spec
	for i, c := range chains {
		i, c := i, c
		if last := len(c) - 1; array && strings.HasSuffix(c[last].K, "just") {
			// only an object has just attributes
			c = append(c[:last:last], harness.Op{K: "rest"})
		}
		specs = append(specs, simrt.Spec{Name: fmt.Sprintf("chain %d", i), Fn: func() {
			for again := 0; again < 2 && o.Violation == ""; again++ {
				w.chain(fmt.Sprintf("chain %d, time %d", i, again+1), body, items, c)
			}
		}})
	}
	if len(specs) == 0 {
		return
	}
	res := o.Sim(sc, p, specs)
	o.Nontrivial = len(res.Switches) > 0
	o.Sig = simrt.Mix(o.Sig, fmt.Sprint(sc.Tasks, sc.S))
	for _, c := range chains {
		if len(c) > 2 {
			o.Nontrivial = true
		}
	}
}

// got collects what was delivered.
type pGot struct {
	attrs  map[string]*hcl.Attribute
	blocks hcl.Blocks
	diags  hcl.Diagnostics
}

func schemaFor(names []string) *hcl.BodySchema {
	s := &hcl.BodySchema{}
	seen := map[string]bool{}
	for _, n := range names {
		if seen[n] {
			continue
		}
		seen[n] = true
		if n[0] == 'a' || n[0] == 'z' {
			s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: n})
		} else {
			b := hcl.BlockHeaderSchema{Type: n}
			for i := 0; i < nLabels(n); i++ {
				b.LabelNames = append(b.LabelNames, fmt.Sprintf("n%d", i))
			}
			s.Blocks = append(s.Blocks, b)
		}
	}
	return s
}

// chainSchemas makes the schemas of consumers, all of them parts of one list
// that the application has.
func chainSchemas(ops []harness.Op) []*hcl.BodySchema {
	ret := make([]*hcl.BodySchema, len(ops))
	var all hcl.BodySchema
	for i, op := range ops {
		ret[i] = schemaFor(op.L)
		for j := range ret[i].Attributes {
			ret[i].Attributes[j].Required = op.K == "need"
		}
		all.Attributes = append(all.Attributes, ret[i].Attributes...)
		all.Blocks = append(all.Blocks, ret[i].Blocks...)
	}
	na, nb := 0, 0
	for _, s := range ret {
		s.Attributes = all.Attributes[na : na+len(s.Attributes)]
		s.Blocks = all.Blocks[nb : nb+len(s.Blocks)]
		na, nb = na+len(s.Attributes), nb+len(s.Blocks)
	}
	return ret
}

var bodyIface = reflect.TypeOf((*hcl.Body)(nil)).Elem()

// viaGohcl takes items with a struct type made for them. Blocks are taken as a
// slice of structs or of pointers to structs, or as one block at most.
func viaGohcl(body hcl.Body, s *hcl.BodySchema, how map[string]int) (*pGot, hcl.Body) {
	str := reflect.TypeOf("")
	var fields []reflect.StructField
	for i, a := range s.Attributes {
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("A%d", i), Type: reflect.TypeOf((*hcl.Attribute)(nil)), Tag: reflect.StructTag(fmt.Sprintf(`hcl:"%s,optional"`, a.Name))})
	}
	for _, b := range s.Blocks {
		var bf []reflect.StructField
		for i, l := range b.LabelNames {
			bf = append(bf, reflect.StructField{Name: fmt.Sprintf("L%d", i), Type: str, Tag: reflect.StructTag(fmt.Sprintf(`hcl:"%s,label"`, l))})
		}
		bf = append(bf, reflect.StructField{Name: "Rest", Type: bodyIface, Tag: `hcl:",remain"`})
		bt := reflect.SliceOf(reflect.StructOf(bf))
		switch how[b.Type] {
		case 1:
			bt = reflect.SliceOf(reflect.PtrTo(reflect.StructOf(bf)))
		case 2:
			bt = reflect.PtrTo(reflect.StructOf(bf))
		}
		fields = append(fields, reflect.StructField{Name: "B" + b.Type, Type: bt, Tag: reflect.StructTag(fmt.Sprintf(`hcl:"%s,block"`, b.Type))})
	}
	fields = append(fields, reflect.StructField{Name: "Rest", Type: bodyIface, Tag: `hcl:",remain"`})
	v := reflect.New(reflect.StructOf(fields))
	got := &pGot{attrs: map[string]*hcl.Attribute{}}
	got.diags = gohcl.DecodeBody(body, nil, v.Interface())
	for i, a := range s.Attributes {
		if x := v.Elem().FieldByName(fmt.Sprintf("A%d", i)).Interface().(*hcl.Attribute); x != nil {
			got.attrs[a.Name] = x
		}
	}
	for _, b := range s.Blocks {
		l := v.Elem().FieldByName("B" + b.Type)
		add := func(x reflect.Value) {
			if x.Kind() == reflect.Ptr {
				if x.IsNil() {
					return
				}
				x = x.Elem()
			}
			blk := &hcl.Block{Type: b.Type}
			for j := range b.LabelNames {
				blk.Labels = append(blk.Labels, x.FieldByName(fmt.Sprintf("L%d", j)).String())
			}
			blk.Body, _ = x.FieldByName("Rest").Interface().(hcl.Body)
			got.blocks = append(got.blocks, blk)
		}
		if l.Kind() == reflect.Ptr {
			add(l)
			continue
		}
		for i := 0; i < l.Len(); i++ {
			add(l.Index(i))
		}
	}
	rest, _ := v.Elem().FieldByName("Rest").Interface().(hcl.Body)
	return got, rest
}

// chain lets consumers take what they know one after another.
func (w *pWorld) chain(at string, body hcl.Body, items []pItem, ops []harness.Op) {
	o := w.o
	left := append([]pItem(nil), items...)
	seed := 0
	schemas := chainSchemas(ops)
	take := func(names []string) (taken []pItem) {
		var rest []pItem
		for _, it := range left {
			hit := false
			for _, n := range names {
				hit = hit || n == it.name
			}
			if hit {
				taken = append(taken, it)
			} else {
				rest = append(rest, it)
			}
		}
		left = rest
		return
	}
	for i, op := range ops {
		if o.Violation != "" {
			return
		}
		simrt.Yield()
		where := fmt.Sprintf("%s, consumer %d (%s)", at, i, op)
		var got *pGot
		var want []pItem
		switch op.K {
		case "chain":
			seed = op.A
			continue
		case "partial", "need":
			c, rest, diags := body.PartialContent(schemas[i])
			got = &pGot{attrs: c.Attributes, blocks: c.Blocks, diags: diags}
			body, want = rest, take(op.L)
			w.order(where, got, want)
			if op.K == "need" {
				w.needed(where, schemas[i], got, want)
			}
		case "peek":
			// Someone else reads the same body; the chain goes on as before.
			keep := left
			c, _, diags := body.PartialContent(schemas[i])
			got = &pGot{attrs: c.Attributes, blocks: c.Blocks, diags: diags}
			want = take(op.L)
			left = keep
			w.order(where, got, want)
		case "gohcl":
			how := map[string]int{}
			for j, t := range pTypes {
				how[t] = (op.A >> uint(2*j)) & 3
				if how[t] == 2 && !w.plain() {
					how[t] = 1
				}
			}
			got, body = viaGohcl(body, schemas[i], how)
			want = take(op.L)
			if !w.only(where, got, &want, how) {
				return
			}
		case "hcldec":
			s := schemas[i]
			spec := hcldec.ObjectSpec{}
			var names []string
			for _, a := range s.Attributes {
				spec[a.Name] = &hcldec.AttrSpec{Name: a.Name, Type: cty.Number}
				names = append(names, a.Name)
			}
			v, rest, diags := hcldec.PartialDecode(body, spec, nil)
			want = take(names)
			body = rest
			if diags.HasErrors() {
				o.Fail("errors", "%s: there are errors: %s", where, canonDiags(diags))
				return
			}
			vals := map[string]int{}
			for _, it := range want {
				vals[it.name] = it.val
			}
			for _, n := range names {
				x := canonVal(v.GetAttr(n))
				if val, ok := vals[n]; ok && x != fmt.Sprint(val) || !ok && !v.GetAttr(n).IsNull() {
					o.Fail("value", "%s: attribute %s is %s", where, n, x)
					return
				}
			}
			continue
		case "rest", "some":
			names := []string{"zz"}
			for j, it := range left {
				if op.K == "rest" || (op.A>>(uint(j)%8))&1 == 1 {
					names = append(names, it.name)
				}
			}
			c, diags := body.Content(schemaFor(names))
			want = take(names)
			w.leftovers(where, left, diags)
			got = &pGot{attrs: c.Attributes, blocks: c.Blocks}
			w.order(where, got, want)
		case "just", "gojust":
			blocks := 0
			for _, it := range left {
				if it.k != "attr" {
					blocks++
				} else {
					want = append(want, it)
				}
			}
			if blocks > 0 && !w.plain() || w.emptyDyn(left) {
				return
			}
			var attrs hcl.Attributes
			var diags hcl.Diagnostics
			if op.K == "gojust" {
				var v struct {
					Rest hcl.Attributes `hcl:",remain"`
				}
				diags = gohcl.DecodeBody(body, nil, &v)
				attrs = v.Rest
			} else {
				attrs, diags = body.JustAttributes()
			}
			if blocks > 0 {
				if !diags.HasErrors() {
					o.Fail("unreported", "%s: %d blocks are left over, and nobody is told", where, blocks)
					return
				}
				diags = nil
			}
			got = &pGot{attrs: attrs, diags: diags}
			left = nil
		default:
			return
		}
		if o.Violation != "" {
			return
		}
		w.judge(where, got, want, seed+i)
	}
}

// needed checks that a consumer is told exactly about the attributes it needs
// that are not there, or not any more.
func (w *pWorld) needed(where string, s *hcl.BodySchema, got *pGot, want []pItem) {
	missing := map[string]bool{}
	for _, a := range s.Attributes {
		missing[a.Name] = true
	}
	for _, it := range want {
		delete(missing, it.name)
	}
	told := 0
	for _, d := range got.diags {
		if d.Severity == hcl.DiagError {
			told++
		}
	}
	if told != len(missing) && w.o.Violation == "" {
		w.o.Fail("needed", "%s: %d required attributes are missing, there are %d errors: %s", where, len(missing), told, canonDiags(got.diags))
	}
	for n := range missing {
		found := false
		for _, d := range got.diags {
			found = found || strings.Contains(d.Detail, fmt.Sprintf("%q", n))
		}
		if !found && w.o.Violation == "" {
			w.o.Fail("needed", "%s: a missing required attribute is not reported", where)
		}
	}
	got.diags = nil
}

// only checks that a consumer that can take one block of a type gets it, or
// is told that there are more. It gives false if the check fails.
func (w *pWorld) only(where string, got *pGot, want *[]pItem, how map[string]int) bool {
	n := map[string]int{}
	for _, it := range *want {
		n[it.name]++
	}
	var rest []pItem
	many := false
	for _, it := range *want {
		if how[it.name] == 2 && n[it.name] > 1 {
			many = true
			continue
		}
		rest = append(rest, it)
	}
	if !many {
		return true
	}
	if !got.diags.HasErrors() {
		w.o.Fail("unreported", "%s: there are more blocks than can be taken, and nobody is told", where)
		return false
	}
	got.diags, *want = nil, rest
	// one of them may be delivered all the same
	var blocks hcl.Blocks
	for _, b := range got.blocks {
		if how[b.Type] != 2 || n[b.Type] < 2 {
			blocks = append(blocks, b)
		}
	}
	got.blocks = blocks
	return true
}

// plain tells whether all blocks are written as such, in the native syntax.
func (w *pWorld) plain() bool {
	if w.json {
		return false
	}
	var walk func(items []pItem) bool
	walk = func(items []pItem) bool {
		for _, it := range items {
			if it.k == "dyn" || !walk(it.kids) {
				return false
			}
		}
		return true
	}
	return walk(w.items)
}

// emptyDyn tells whether some dynamic block of the whole configuration has no
// elements: then blocks of its type may be left although none are visible.
func (w *pWorld) emptyDyn(left []pItem) bool {
	var walk func(items []pItem) bool
	walk = func(items []pItem) bool {
		for _, it := range items {
			if it.k == "dyn" && len(it.elems) == 0 || walk(it.kids) {
				return true
			}
		}
		return false
	}
	return walk(w.items)
}

// leftovers checks that exactly what nobody took is reported.
func (w *pWorld) leftovers(where string, left []pItem, diags hcl.Diagnostics) {
	want := map[string]bool{}
	for _, it := range left {
		want[it.name] = true
	}
	told := map[string]bool{}
	for _, d := range diags {
		if d.Severity != hcl.DiagError {
			continue
		}
		if d.Subject == nil {
			w.o.Fail("nowhere", "%s: an error without a place: %s", where, canonDiags(diags))
			return
		}
		n := w.text(*d.Subject)
		if !want[n] {
			// A dynamic block without elements is left over, too.
			if w.emptyDyn(nil) {
				continue
			}
			w.o.Fail("taken", "%s: %q is reported although it was taken or expected: %s", where, n, canonDiags(diags))
			return
		}
		told[n] = true
	}
	for _, it := range left {
		if !told[it.name] {
			w.o.Fail("lost", "%s: %s %s (%s) is neither delivered nor reported; errors: %s", where, it.k, it.name, it.file, canonDiags(diags))
			return
		}
	}
}

// order checks that blocks of different types come in source order.
func (w *pWorld) order(where string, got *pGot, want []pItem) {
	var a, b []string
	for _, blk := range got.blocks {
		a = append(a, blk.Type)
	}
	for _, it := range want {
		if it.k == "block" {
			b = append(b, it.name)
		}
	}
	if x, y := strings.Join(a, " "), strings.Join(b, " "); x != y && w.o.Violation == "" {
		w.o.Fail("order", "%s: the blocks delivered are [%s] instead of [%s]", where, x, y)
	}
}

func (w *pWorld) judge(where string, got *pGot, want []pItem, seed int) {
	o := w.o
	if got.diags.HasErrors() {
		o.Fail("errors", "%s: there are errors: %s", where, canonDiags(got.diags))
		return
	}
	attrs := map[string]pItem{}
	blocks := map[string][]pItem{}
	n := 0
	for _, it := range want {
		if it.k == "attr" {
			attrs[it.name] = it
		} else if it.k == "block" {
			blocks[it.name] = append(blocks[it.name], it)
			n++
		}
	}
	var names []string
	for n := range got.attrs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		it, ok := attrs[n]
		if !ok {
			o.Fail("extra", "%s: attribute %s is delivered, but was taken before or does not exist", where, n)
			return
		}
		a := got.attrs[n]
		if a.Name != n || w.text(a.NameRange) != n {
			o.Fail("name", "%s: attribute %s is called %q with its name at %s (%q)", where, n, a.Name, a.NameRange, w.text(a.NameRange))
			return
		}
		v, diags := a.Expr.Value(nil)
		if diags.HasErrors() || canonVal(v) != fmt.Sprint(it.val) {
			o.Fail("value", "%s: attribute %s is %s instead of %d; diagnostics: %s", where, n, canonVal(v), it.val, canonDiags(diags))
			return
		}
	}
	for _, it := range want {
		if it.k == "attr" && got.attrs[it.name] == nil {
			o.Fail("missing", "%s: attribute %s is not delivered", where, it.name)
			return
		}
	}
	seen := map[string]int{}
	for _, b := range got.blocks {
		l := blocks[b.Type]
		i := seen[b.Type]
		if i >= len(l) {
			o.Fail("extra", "%s: more than %d blocks of type %s are delivered", where, len(l), b.Type)
			return
		}
		seen[b.Type]++
		if strings.Join(b.Labels, ",") != strings.Join(l[i].labels, ",") {
			o.Fail("labels", "%s: block %d of type %s has labels %q instead of %q", where, i, b.Type, b.Labels, l[i].labels)
			return
		}
		for j, rng := range b.LabelRanges {
			if t := w.text(rng); !l[i].made && (j >= len(b.Labels) || t != b.Labels[j]) {
				o.Fail("labels", "%s: label %d of block %d of type %s is said to be at %s (%q)", where, j, i, b.Type, rng, t)
				return
			}
		}
	}
	for t, l := range blocks {
		if seen[t] != len(l) {
			o.Fail("missing", "%s: %d blocks of type %s are delivered instead of %d", where, seen[t], t, len(l))
			return
		}
	}
	seen = map[string]int{}
	for i, b := range got.blocks {
		it := blocks[b.Type][seen[b.Type]]
		seen[b.Type]++
		if b.Body == nil {
			o.Fail("nobody", "%s: block %d of type %s has no body", where, i, b.Type)
			return
		}
		w.chain(where+" / "+b.Type+strings.Join(it.labels, "."), b.Body, it.kids, subPlan(it.kids, seed*31+i))
		if o.Violation != "" {
			return
		}
	}
}

// subPlan makes up a chain of consumers for a nested body.
func subPlan(items []pItem, seed int) []harness.Op {
	r := simrt.NewRand(uint64(seed)*7919 + 13)
	ops := []harness.Op{{K: "chain", A: seed % 9973}}
	for k := r.Range(0, 2); k > 0; k-- {
		op := harness.Op{K: []string{"partial", "partial", "gohcl", "hcldec", "peek", "need"}[r.N(6)]}
		if op.K == "gohcl" {
			op.A = r.N(256)
		}
		for _, it := range items {
			if r.P(1, 3) {
				op.L = append(op.L, it.name)
			}
		}
		ops = append(ops, op)
	}
	return append(ops, harness.Op{K: []string{"rest", "rest", "some", "just", "gojust"}[r.N(5)], A: r.N(256)})
}

func init() {
	harness.Register(&harness.Property{
		ID: "P04", QuickRuns: 60000, QuickSecs: 45, ThoroughRuns: 3000000, ThoroughSecs: 600,
		Rule:        "a run counts when consumers follow each other or chains interleave; distinct by the configuration, the consumers and the schedule",
		Real:        []string{"hclsyntax bodies", "hcl/json bodies", "hclpack", "hcl merged bodies", "ext/dynblock", "ext/transform", "gohcl", "hcldec"},
		Stub:        []string{"goroutine scheduler"},
		Assumptions: []string{"the meaning of the small files is known by construction"},
		Gen:         genP04, Run: runP04,
	})
}
