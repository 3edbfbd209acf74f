package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	"golang.org/x/text/unicode/norm"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// goVal is a serialisable Go value.
type goVal struct {
	Nil  bool       `json:"nil,omitempty"`
	S    string     `json:"s,omitempty"`
	B    bool       `json:"b,omitempty"`
	I    int64      `json:"i,omitempty"`
	U    uint64     `json:"u,omitempty"` // unsigned integers, and floats as bits
	V    *model.Val `json:"v,omitempty"`
	L    []*goVal   `json:"l,omitempty"`
	Keys []string   `json:"keys,omitempty"`
}

func genGoText(t *rapid.T) string {
	return norm.NFC.String(model.AnyText(t))
}

var goInts = []int64{0, 1, -1, 7, 10, 100, 127, -128, 255, 1000000, 32767, -32768, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, 123456789012345678}

func genGoVal(t *rapid.T, ty *goTy) *goVal {
	v := &goVal{}
	switch ty.K {
	case "string":
		v.S = genGoText(t)
	case "bool":
		v.B = model.Chance(t, 50)
	case "float32", "float64":
		var f float64
		switch model.Weighted(t, 3, 3, 2, 2) {
		case 0:
			f = float64(model.Int(t, -1000, 1000, "f")) / 8
		case 1:
			f = float64(model.Int(t, -100000, 100000, "f")) / 1000
		case 2:
			f = math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
		default:
			f = model.Pick(t, []float64{0, 0.1, 1e21, 1e-7, 1e100, -2.5e-10, math.MaxFloat64, 1.0 / 3, 123456789.125})
		}
		if ty.K == "float32" {
			f = float64(float32(f))
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1.5
		}
		v.U = math.Float64bits(f)
	case "ptr":
		if model.Chance(t, 30) {
			v.Nil = true
			break
		}
		v.L = []*goVal{genGoVal(t, ty.E)}
	case "slice":
		if model.Chance(t, 8) {
			v.Nil = true
			break
		}
		n := model.Count(t, 0, 3)
		if model.Chance(t, 10) {
			n = model.Int(t, 4, 9, "n")
		}
		for ; n > 0; n-- {
			v.L = append(v.L, genGoVal(t, ty.E))
		}
	case "map":
		if model.Chance(t, 8) {
			v.Nil = true
			break
		}
		seen := map[string]bool{}
		for n := model.Count(t, 0, 3); n > 0; n-- {
			k := genGoText(t)
			if model.Chance(t, 50) {
				k = model.Pick(t, model.Idents)
			}
			k = norm.NFC.String(k)
			if seen[k] {
				continue
			}
			seen[k] = true
			v.Keys = append(v.Keys, k)
			v.L = append(v.L, genGoVal(t, ty.E))
		}
	case "struct":
		for _, e := range ty.Elems {
			v.L = append(v.L, genGoVal(t, e))
		}
	case "val":
		o := model.TrickyOpts()
		o.Null = 10
		o.Unk = 0
		x := o.ValOf(t, o.GenTyKeys(t, 2))
		v.V = &x
	default:
		bits := uint(goBasics[ty.K].Bits())
		i := model.Pick(t, goInts)
		if model.Chance(t, 40) {
			i = int64(model.Int(t, -300, 300, "i"))
		}
		if ty.K[0] == 'u' {
			v.U = uint64(i)
			if bits < 64 {
				v.U &= 1<<bits - 1
			}
		} else {
			v.I = i << (64 - bits) >> (64 - bits)
		}
	}
	return v
}

func (v *goVal) set(ty *goTy, rv reflect.Value) {
	switch ty.K {
	case "string":
		rv.SetString(v.S)
	case "bool":
		rv.SetBool(v.B)
	case "float32", "float64":
		rv.SetFloat(math.Float64frombits(v.U))
	case "ptr":
		if !v.Nil {
			rv.Set(reflect.New(rv.Type().Elem()))
			v.L[0].set(ty.E, rv.Elem())
		}
	case "slice":
		if !v.Nil {
			rv.Set(reflect.MakeSlice(rv.Type(), len(v.L), len(v.L)))
			for i, e := range v.L {
				e.set(ty.E, rv.Index(i))
			}
		}
	case "map":
		if !v.Nil {
			rv.Set(reflect.MakeMap(rv.Type()))
			for i, e := range v.L {
				x := reflect.New(rv.Type().Elem()).Elem()
				e.set(ty.E, x)
				rv.SetMapIndex(reflect.ValueOf(v.Keys[i]), x)
			}
		}
	case "struct":
		for i, e := range v.L {
			e.set(ty.Elems[i], rv.Field(i))
		}
	case "val":
		rv.Set(reflect.ValueOf(v.V.Cty()))
	default:
		if ty.K[0] == 'u' {
			rv.SetUint(v.U)
		} else {
			rv.SetInt(v.I)
		}
	}
}

// genGoStruct draws the field values of a struct.
func genGoStruct(t *rapid.T, s *goStruct) *goVal {
	v := &goVal{}
	for _, f := range s.Fields {
		x := &goVal{}
		switch {
		case f.Raw != "" || f.Kind == "remain":
		case f.isAttr():
			x = genGoVal(t, f.Ty)
		case f.Kind == "label" || f.Kind == "none":
			x.S = genGoText(t)
		case f.Kind == "block":
			n := 1
			if f.Slice {
				n = model.Int(t, 0, 6, "n")
				x.Nil = n == 0
			} else if f.Ptr && model.Chance(t, 30) {
				n = 0
				x.Nil = true
			}
			for ; n > 0; n-- {
				if f.Slice && f.Ptr && model.Chance(t, 12) {
					x.L = append(x.L, &goVal{Nil: true})
					continue
				}
				x.L = append(x.L, genGoStruct(t, f.Sub))
			}
		}
		v.L = append(v.L, x)
	}
	return v
}

func (v *goVal) setStruct(s *goStruct, rv reflect.Value) {
	for i, f := range s.Fields {
		x, fv := v.L[i], rv.Field(i)
		switch {
		case f.Raw != "" || f.Kind == "remain":
			setRaw(f, fv)
		case f.isAttr():
			x.set(f.Ty, fv)
		case f.Kind == "label":
			fv.SetString(x.S)
		case f.Kind == "block":
			if f.Slice && !x.Nil {
				fv.Set(reflect.MakeSlice(fv.Type(), len(x.L), len(x.L)))
			}
			for j, e := range x.L {
				ev := fv
				if f.Slice {
					ev = fv.Index(j)
				}
				if e.Nil {
					continue
				}
				if f.Ptr {
					ev.Set(reflect.New(ev.Type().Elem()))
					ev = ev.Elem()
				}
				e.setStruct(f.Sub, ev)
			}
		}
	}
}

// setRaw gives an undecoded field something to hold, which encoding ignores.
func setRaw(f *goField, fv reflect.Value) {
	x := hcl.StaticExpr(cty.StringVal("raw"), hcl.Range{})
	a := &hcl.Attribute{Name: "raw", Expr: x}
	var v interface{}
	switch {
	case f.isAttr() && f.Raw == "expr":
		v = x
	case f.isAttr():
		v = a
	case f.Raw == "body":
		v = hcl.EmptyBody()
	case f.Raw == "attrs":
		v = hcl.Attributes{"raw": a}
	case f.Raw == "block":
		v = &hcl.Block{Type: f.Name, Body: hcl.EmptyBody()}
	default:
		return
	}
	if f.Slice {
		fv.Set(reflect.MakeSlice(fv.Type(), 1, 1))
		fv = fv.Index(0)
	}
	fv.Set(reflect.ValueOf(v))
}

type goEncCase struct {
	Struct *goStruct `json:"struct"`
	V      *goVal    `json:"v"`
	// Block asks for EncodeAsBlock.
	Block string `json:"block,omitempty"`
	Old   string `json:"old,omitempty"` // earlier content
	Ptr   bool   `json:"ptr,omitempty"`
}

func genGoEnc(raw bool) func(t *rapid.T) goEncCase {
	return func(t *rapid.T) goEncCase {
		g := &goGen{t: t}
		c := goEncCase{Ptr: model.Chance(t, 50)}
		labels := 0
		if model.Chance(t, 40) {
			c.Block = model.Pick(t, goBlockNames)
			labels = model.Int(t, 0, 3, "labels")
		}
		c.Struct = g.structTy(model.Int(t, 0, 3, "depth"), labels)
		if !raw {
			c.Struct.decoded()
		}
		c.V = genGoStruct(t, c.Struct)
		if c.Block == "" && model.Chance(t, 50) {
			sc := model.GenScopeN(t, model.PlainOpts(), 1)
			c.Old = model.NewGen(t, sc, 0).Body(model.StdBody()).Native(lay(t)).Src
		}
		return c
	}
}

// decoded drops the fields that encoding ignores.
func (s *goStruct) decoded() {
	var fs []*goField
	for _, f := range s.Fields {
		if f.Raw != "" || f.Kind == "remain" {
			continue
		}
		if f.Sub != nil {
			f.Sub.decoded()
		}
		fs = append(fs, f)
	}
	s.Fields = fs
}

// order lists the items that encoding should write, in order.
func (v *goVal) order(s *goStruct) []string {
	var ret []string
	for i, f := range s.Fields {
		x := v.L[i]
		switch {
		case f.Raw != "" || f.Kind == "remain":
		case f.isAttr():
			if !(f.Ty.K == "ptr" && x.Nil) {
				ret = append(ret, f.Name)
			}
		case f.Kind == "block":
			for _, e := range x.L {
				if e.Nil {
					continue
				}
				item := f.Name
				for j, l := range f.Sub.Fields {
					if l.Kind == "label" {
						item += fmt.Sprintf(" %q", e.L[j].S)
					}
				}
				ret = append(ret, item+"{"+strings.Join(e.order(f.Sub), ",")+"}")
			}
		}
	}
	return ret
}

// bodyOrder lists the items of a parsed body in source order.
func bodyOrder(b *hclsyntax.Body) []string {
	type at struct {
		pos  int
		item string
	}
	var l []at
	for n, a := range b.Attributes {
		l = append(l, at{a.SrcRange.Start.Byte, n})
	}
	for _, bl := range b.Blocks {
		item := bl.Type
		for _, s := range bl.Labels {
			item += fmt.Sprintf(" %q", s)
		}
		l = append(l, at{bl.TypeRange.Start.Byte, item + "{" + strings.Join(bodyOrder(bl.Body), ",") + "}"})
	}
	for i := range l {
		for j := i; j > 0 && l[j].pos < l[j-1].pos; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	var ret []string
	for _, x := range l {
		ret = append(ret, x.item)
	}
	return ret
}

// asDecoded turns values of arbitrary type into what their source stands for.
func asDecoded(s *goStruct, rv reflect.Value) {
	for i, f := range s.Fields {
		fv := rv.Field(i)
		switch {
		case f.Raw != "" || f.Kind == "remain":
			fv.Set(reflect.Zero(fv.Type()))
		case f.isAttr():
			asDecodedTy(f.Ty, fv)
		case f.Kind == "block":
			if f.Slice {
				kept := reflect.Zero(fv.Type())
				for j := 0; j < fv.Len(); j++ {
					if ev := fv.Index(j); !f.Ptr || !ev.IsNil() {
						asDecodedBlock(f, ev)
						kept = reflect.Append(kept, ev)
					}
				}
				fv.Set(kept)
			} else {
				asDecodedBlock(f, fv)
			}
		}
	}
}

func asDecodedBlock(f *goField, v reflect.Value) {
	if f.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	asDecoded(f.Sub, v)
}

func asDecodedTy(ty *goTy, v reflect.Value) {
	switch ty.K {
	case "val":
		v.Set(reflect.ValueOf(asWritten(v.Interface().(cty.Value))))
	case "struct":
		for i, e := range ty.Elems {
			asDecodedTy(e, v.Field(i))
		}
	}
}

func checkGoEnc(c goEncCase, r *engine.Rec) error {
	rt := c.Struct.rtype()
	val := reflect.New(rt)
	c.V.setStruct(c.Struct, val.Elem())
	arg := val.Interface()
	if !c.Ptr {
		arg = val.Elem().Interface()
	}
	f := hclwrite.NewEmptyFile()
	want := c.V.order(c.Struct)
	if c.Block != "" {
		f.Body().AppendBlock(gohcl.EncodeAsBlock(arg, c.Block))
		item := c.Block
		for j, l := range c.Struct.Fields {
			if l.Kind == "label" {
				item += fmt.Sprintf(" %q", c.V.L[j].S)
			}
		}
		want = []string{item + "{" + strings.Join(want, ",") + "}"}
	} else {
		if c.Old != "" {
			var diags hcl.Diagnostics
			f, diags = hclwrite.ParseConfig([]byte(c.Old), "old.hcl", startPos)
			if diags.HasErrors() {
				return errf("valid configuration rejected: %s", diagStr(diags))
			}
		}
		gohcl.EncodeIntoBody(arg, f.Body())
	}
	src := f.Bytes()
	nf := 0
	c.Struct.walk(func(*goField) { nf++ })
	r.NonTrivialIf(nf >= 3 && len(src) > 10)
	if c.Block != "" {
		r.Label("as block")
	} else if c.Old != "" {
		r.Label("replaces content")
	}
	r.Sample(fmt.Sprintf("%s\n%s", rt, src))
	sf, diags := hclsyntax.ParseConfig(src, "t.hcl", startPos)
	if diags.HasErrors() {
		return errf("encoding %s gives invalid source: %s\n%s", rt, diagStr(diags), src)
	}
	if got := bodyOrder(sf.Body.(*hclsyntax.Body)); !sameStrings(got, want) {
		return errf("encoding %s writes %q, want %q\n%s", rt, got, want, src)
	}
	if fm := hclwrite.Format(src); !sameBytes(fm, src) {
		return errf("encoded source is not in canonical format\n%q\n%q", src, fm)
	}
	if hasRaw(c.Struct) {
		r.Label("with undecoded fields")
		return nil
	}
	target := reflect.New(rt)
	if c.Block != "" {
		wt := reflect.StructOf([]reflect.StructField{{Name: "B", Type: rt, Tag: reflect.StructTag(fmt.Sprintf("hcl:%q", c.Block+",block"))}})
		w := reflect.New(wt)
		diags = gohcl.DecodeBody(sf.Body, nil, w.Interface())
		target.Elem().Set(w.Elem().Field(0))
	} else {
		diags = gohcl.DecodeBody(sf.Body, nil, target.Interface())
	}
	if diags.HasErrors() {
		return errf("decoding the encoded %s failed: %s\n%s", rt, diagStr(diags), src)
	}
	asDecoded(c.Struct, val.Elem())
	if !goSame(target.Elem(), val.Elem()) {
		return errf("encoding and decoding %s gives %+v, want %+v\n%s", rt, target.Elem(), val.Elem(), src)
	}
	return nil
}

func hasRaw(s *goStruct) bool {
	has := false
	s.walk(func(f *goField) { has = has || f.Raw != "" })
	return has
}

func init() {
	rule := "the struct type has three fields or more and the source more than ten bytes"
	engine.Add("C26", "roundtrip", rule, 90000, genGoEnc(false), checkGoEnc)
	engine.Add("C26", "undecoded", rule, 30000, genGoEnc(true), checkGoEnc)
}
