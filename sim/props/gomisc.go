package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/zclconf/go-cty/cty"
)

// Further Go types for gohcl: what is left over as attributes, as a map or as
// another structure, blocks as maps, and values of any type within Go
// collections.

type gRestAttrs struct {
	S1       *string        `hcl:"s1"`
	Services []gAnyService  `hcl:"service,block"`
	Rest     hcl.Attributes `hcl:",remain"`
}

type gAnyService struct {
	Name string               `hcl:"name,label"`
	Port cty.Value            `hcl:"port,optional"`
	Rest map[string]cty.Value `hcl:",remain"`
}

type gRestMap struct {
	N1    *float64             `hcl:"n1"`
	L1    []cty.Value          `hcl:"l1,optional"`
	M1    map[string]cty.Value `hcl:"m1,optional"`
	Rules []*gRule             `hcl:"rule,block"`
	Rest  map[string]cty.Value `hcl:",remain"`
}

type gRestStruct struct {
	Lis  []gListener `hcl:"listener,block"`
	Any1 []cty.Value `hcl:"any1,optional"`
	Rest gRestInner  `hcl:",remain"`
}

type gRestInner struct {
	Any2     map[string]cty.Value `hcl:"any2,optional"`
	L2       [][]cty.Value        `hcl:"l2,optional"`
	Services []*gAnyService       `hcl:"service,block"`
	Rest     hcl.Body             `hcl:",remain"`
}

type gObj struct {
	A cty.Value `cty:"a"`
	B cty.Value `cty:"b"`
}

func goTarget(variant int) interface{} {
	switch variant % 10 {
	case 0:
		return &map[string]cty.Value{}
	case 1:
		return &gRestAttrs{}
	case 2:
		return &gRestMap{}
	case 3:
		return &gRestStruct{}
	case 4:
		return &map[string]hcl.Expression{}
	case 5:
		return &map[string]*hcl.Attribute{}
	}
	return nil
}

func goExprTarget(variant int) interface{} {
	switch variant % 8 {
	case 0:
		return &[]cty.Value{}
	case 1:
		return &map[string]cty.Value{}
	case 2:
		return &[][]cty.Value{}
	case 3:
		return &map[string][]cty.Value{}
	case 4:
		return &gObj{}
	case 5:
		return &[]gObj{}
	case 6:
		return &[]map[string]cty.Value{}
	}
	return new(cty.Value)
}

// goMisc decodes a body, or each of its expressions, to one of the types.
func goMisc(body hcl.Body, ctx *hcl.EvalContext, variant int) string {
	var b strings.Builder
	if t := goTarget(variant); t != nil {
		diags := gohcl.DecodeBody(body, ctx, t)
		canonGoVal(&b, reflect.ValueOf(t))
		return b.String() + "\n" + canonDiags(diags)
	}
	eachAttr(body, func(path string, a *hcl.Attribute) {
		t := goExprTarget(variant / 10)
		diags := gohcl.DecodeExpression(a.Expr, ctx, t)
		fmt.Fprintf(&b, "%s: ", path)
		if !diags.HasErrors() {
			canonGoVal(&b, reflect.ValueOf(t))
		}
		b.WriteString(" " + canonDiags(diags) + "\n")
	})
	return b.String()
}

func canonGoVal(b *strings.Builder, v reflect.Value) {
	switch x := v.Interface().(type) {
	case cty.Value:
		b.WriteString(canonVal(x))
		return
	case *hcl.Attribute:
		fmt.Fprintf(b, "%s@%s", x.Name, canonRange(&x.Range))
		return
	case hcl.Expression:
		r := x.Range()
		fmt.Fprintf(b, "@%s", canonRange(&r))
		return
	case hcl.Body:
		r := x.MissingItemRange()
		fmt.Fprintf(b, "body@%s", canonRange(&r))
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		canonGoVal(b, v.Elem())
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.Kind() == reflect.Interface && f.IsNil() {
				b.WriteString("nil")
			} else {
				canonGoVal(b, f)
			}
			b.WriteString("; ")
		}
		b.WriteString("}")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			canonGoVal(b, v.Index(i))
			b.WriteString(", ")
		}
		b.WriteString("]")
	case reflect.Map:
		b.WriteString("{")
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			m[k.String()] = v.MapIndex(k)
		}
		for _, k := range sortedKeys(m) {
			fmt.Fprintf(b, "%q: ", k)
			canonGoVal(b, m[k])
			b.WriteString(", ")
		}
		b.WriteString("}")
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}
