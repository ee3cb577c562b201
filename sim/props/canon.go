package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/zclconf/go-cty/cty"
)

// canonType renders a type.
func canonType(t cty.Type) string {
	if t == cty.NilType {
		return "nil"
	}
	return t.GoString()
}

// canonVal renders a value with its types and unknown parts.
func canonVal(v cty.Value) string {
	var b strings.Builder
	writeVal(&b, v)
	return b.String()
}

func writeVal(b *strings.Builder, v cty.Value) {
	if v == cty.NilVal {
		b.WriteString("NIL")
		return
	}
	t := v.Type()
	if !v.IsKnown() {
		b.WriteString("?" + canonType(t))
		return
	}
	if v.IsNull() {
		b.WriteString("null(" + canonType(t) + ")")
		return
	}
	switch {
	case t == cty.String:
		fmt.Fprintf(b, "%q", v.AsString())
	case t == cty.Number:
		b.WriteString(v.AsBigFloat().Text('g', -1))
	case t == cty.Bool:
		fmt.Fprint(b, v.True())
	case t.IsObjectType() || t.IsMapType():
		if t.IsMapType() {
			b.WriteString("map(" + canonType(t.ElementType()) + ")")
		}
		b.WriteString("{")
		m := v.AsValueMap()
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(b, "%q:", k)
			writeVal(b, m[k])
			b.WriteString(",")
		}
		b.WriteString("}")
	case t.IsTupleType() || t.IsListType() || t.IsSetType():
		switch {
		case t.IsListType():
			b.WriteString("list(" + canonType(t.ElementType()) + ")")
		case t.IsSetType():
			b.WriteString("set(" + canonType(t.ElementType()) + ")")
		}
		b.WriteString("[")
		var es []string
		for it := v.ElementIterator(); it.Next(); {
			_, e := it.Element()
			es = append(es, canonVal(e))
		}
		if t.IsSetType() {
			sort.Strings(es)
		}
		b.WriteString(strings.Join(es, ","))
		b.WriteString("]")
	case t.IsCapsuleType():
		fmt.Fprintf(b, "capsule(%s)", t.FriendlyName())
	default:
		fmt.Fprintf(b, "%#v", v)
	}
}

func canonRange(r *hcl.Range) string {
	if r == nil {
		return "-"
	}
	if onRange != nil {
		onRange(r)
	}
	return fmt.Sprintf("%s:%d,%d@%d-%d,%d@%d", r.Filename, r.Start.Line, r.Start.Column, r.Start.Byte, r.End.Line, r.End.Column, r.End.Byte)
}

// onRange is told about every range that is rendered.
var onRange func(r *hcl.Range)

func canonDiag(d *hcl.Diagnostic) string {
	if d == nil {
		return "nil diagnostic"
	}
	return fmt.Sprintf("%d|%s|%s|%s|%s", d.Severity, d.Summary, d.Detail, canonRange(d.Subject), canonRange(d.Context))
}

// canonDiags renders diagnostics as a sorted multiset.
func canonDiags(ds hcl.Diagnostics) string {
	var ss []string
	for _, d := range ds {
		ss = append(ss, canonDiag(d))
	}
	sort.Strings(ss)
	return strings.Join(ss, "\n")
}

func canonTraversal(t hcl.Traversal) string {
	var b strings.Builder
	for _, s := range t {
		switch s := s.(type) {
		case hcl.TraverseRoot:
			b.WriteString("root(" + s.Name + ")")
		case hcl.TraverseAttr:
			b.WriteString("." + s.Name)
		case hcl.TraverseIndex:
			b.WriteString("[" + canonVal(s.Key) + "]")
		case hcl.TraverseSplat:
			b.WriteString("*" + canonTraversal(s.Each))
		default:
			fmt.Fprintf(&b, "%T", s)
		}
		r := s.SourceRange()
		b.WriteString("{" + canonRange(&r) + "}")
	}
	return b.String()
}

func canonTraversals(ts []hcl.Traversal) string {
	var ss []string
	for _, t := range ts {
		ss = append(ss, canonTraversal(t))
	}
	sort.Strings(ss)
	return strings.Join(ss, "\n")
}

// firstDiff shortens two texts to the surroundings of their first difference.
func firstDiff(a, b string) (string, string) {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		if from > len(s) {
			return ""
		}
		s = s[from:]
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		return s
	}
	return cut(a), cut(b)
}
