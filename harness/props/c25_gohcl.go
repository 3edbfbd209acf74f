package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"github.com/zclconf/go-cty/cty/gocty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// goTy is a serialisable Go type for attribute values.
type goTy struct {
	K     string   `json:"k"` // a basic kind, or slice map struct ptr val
	E     *goTy    `json:"e,omitempty"`
	Names []string `json:"names,omitempty"`
	Elems []*goTy  `json:"elems,omitempty"`
}

var goBasics = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "bool": reflect.TypeOf(false),
	"int": reflect.TypeOf(0), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
	"val": reflect.TypeOf(cty.Value{}),
}

func (t *goTy) rtype() reflect.Type {
	switch t.K {
	case "slice":
		return reflect.SliceOf(t.E.rtype())
	case "map":
		return reflect.MapOf(goBasics["string"], t.E.rtype())
	case "ptr":
		return reflect.PtrTo(t.E.rtype())
	case "struct":
		var fs []reflect.StructField
		for i, n := range t.Names {
			fs = append(fs, reflect.StructField{
				Name: fmt.Sprintf("G%d", i), Type: t.Elems[i].rtype(),
				Tag: reflect.StructTag("cty:" + strconv.Quote(n)),
			})
		}
		return reflect.StructOf(fs)
	}
	return goBasics[t.K]
}

// ty is the matching configuration type.
func (t *goTy) ty() model.Ty {
	switch t.K {
	case "string":
		return model.Ty{K: "str"}
	case "bool":
		return model.Ty{K: "bool"}
	case "val":
		return model.Ty{K: "dyn"}
	case "ptr":
		return t.E.ty()
	case "slice", "map":
		e := t.E.ty()
		k := t.K
		if k == "slice" {
			k = "list"
		}
		return model.Ty{K: k, E: &e}
	case "struct":
		r := model.Ty{K: "obj", Names: t.Names}
		for _, e := range t.Elems {
			r.Elems = append(r.Elems, e.ty())
		}
		return r
	}
	return model.Ty{K: "num"}
}

func (t *goTy) String() string { return t.rtype().String() }

// goStruct is a serialisable tagged struct type.
type goStruct struct {
	Fields []*goField `json:"fields"`
}

type goField struct {
	Kind string `json:"kind"` // attr opt plain (tag without a kind) block label remain none
	Name string `json:"name,omitempty"`
	// Raw is expr or attr for attributes; body, block, attrs for blocks; body,
	// attrs, map, mapexpr, mapattr for the remainder.
	Raw   string    `json:"raw,omitempty"`
	Ty    *goTy     `json:"ty,omitempty"`
	Slice bool      `json:"slice,omitempty"`
	Ptr   bool      `json:"ptr,omitempty"`
	Sub   *goStruct `json:"sub,omitempty"`
}

var (
	goExpr  = reflect.TypeOf((*hcl.Expression)(nil)).Elem()
	goBody  = reflect.TypeOf((*hcl.Body)(nil)).Elem()
	goAttr  = reflect.TypeOf((*hcl.Attribute)(nil))
	goBlock = reflect.TypeOf((*hcl.Block)(nil))
	goAttrs = reflect.TypeOf(hcl.Attributes(nil))
)

func (f *goField) isAttr() bool { return f.Kind == "attr" || f.Kind == "opt" || f.Kind == "plain" }

func (f *goField) rtype() reflect.Type {
	var ty reflect.Type
	switch {
	case f.Kind == "none" || f.Kind == "label":
		return goBasics["string"]
	case f.isAttr() && f.Raw == "expr":
		return goExpr
	case f.isAttr() && f.Raw == "attr":
		return goAttr
	case f.Raw == "body":
		ty = goBody
	case f.Raw == "block":
		ty = goBlock
	case f.Raw == "attrs":
		ty = goAttrs
	case f.Raw == "map":
		return reflect.MapOf(goBasics["string"], f.Ty.rtype())
	case f.Raw == "mapexpr":
		return reflect.MapOf(goBasics["string"], goExpr)
	case f.Raw == "mapattr":
		return reflect.MapOf(goBasics["string"], goAttr)
	case f.isAttr():
		return f.Ty.rtype()
	default:
		ty = f.Sub.rtype()
		if f.Ptr {
			ty = reflect.PtrTo(ty)
		}
	}
	if f.Slice {
		ty = reflect.SliceOf(ty)
	}
	return ty
}

func (s *goStruct) rtype() reflect.Type {
	var fs []reflect.StructField
	for i, f := range s.Fields {
		sf := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: f.rtype()}
		tag := f.Name
		switch f.Kind {
		case "none":
			tag = ""
		case "plain":
		case "opt":
			tag += ",optional"
		default:
			tag += "," + f.Kind
		}
		if tag != "" {
			sf.Tag = reflect.StructTag("hcl:" + strconv.Quote(tag))
		}
		fs = append(fs, sf)
	}
	return reflect.StructOf(fs)
}

func (s *goStruct) labels() int {
	n := 0
	for _, f := range s.Fields {
		if f.Kind == "label" {
			n++
		}
	}
	return n
}

func (f *goField) required() bool {
	return f.Kind != "opt" && f.Raw == "" && f.Ty.K != "ptr"
}

func (s *goStruct) schema() (model.Schema, bool) {
	var sc model.Schema
	partial := false
	for _, f := range s.Fields {
		switch {
		case f.isAttr():
			sc.Attrs = append(sc.Attrs, model.SAttr{Name: f.Name, Req: f.required()})
		case f.Kind == "block":
			b := model.SBlock{Type: f.Name}
			if f.Sub != nil {
				b.Labels = f.Sub.labels()
			}
			sc.Blocks = append(sc.Blocks, b)
		case f.Kind == "remain":
			partial = true
		}
	}
	return sc, partial
}

func (s *goStruct) walk(f func(*goField)) {
	for _, x := range s.Fields {
		f(x)
		if x.Sub != nil {
			x.Sub.walk(f)
		}
	}
}

// ---- generation ----

type goGen struct {
	t   *rapid.T
	sg  *model.SpecGen
	enc bool // only what can be encoded
	js  bool // leave out what JSON cannot express
}

func (g *goGen) ty(depth int) *goTy {
	t := g.t
	switch model.Weighted(t, 12, 3*sgn(depth), 2*sgn(depth), 2*sgn(depth), 2, 1) {
	case 1:
		// Placeholders inside collections upset the value library.
		e := g.ty(depth - 1).known()
		return &goTy{K: "slice", E: e}
	case 2:
		// Placeholders inside collections upset the value library.
		e := g.ty(depth - 1).known()
		return &goTy{K: "map", E: e}
	case 3:
		s := &goTy{K: "struct", Names: model.Subset(t, []string{"a", "b", "name", "x-y", "é"}, 3)}
		if len(s.Names) == 0 {
			s.Names = []string{"a"}
		}
		for range s.Names {
			s.Elems = append(s.Elems, g.ty(depth-1))
		}
		return s
	case 4:
		return &goTy{K: "ptr", E: g.basic()}
	case 5:
		return &goTy{K: "val"}
	}
	return g.basic()
}

// known replaces arbitrary values by strings.
func (t *goTy) known() *goTy {
	if t.K == "val" {
		return &goTy{K: "string"}
	}
	if t.E != nil {
		t.E = t.E.known()
	}
	for i, e := range t.Elems {
		t.Elems[i] = e.known()
	}
	return t
}

func sgn(n int) int {
	if n > 0 {
		return 1
	}
	return 0
}

func (g *goGen) basic() *goTy {
	return &goTy{K: model.Pick(g.t, []string{
		"string", "string", "bool", "int", "int64", "float64", "int8", "int16", "int32",
		"uint", "uint8", "uint16", "uint32", "uint64", "float32",
	})}
}

var goAttrNames = []string{"a", "b", "foo", "bar", "with-dash", "é1", "for", "count", "null_ish"}
var goBlockNames = []string{"blk", "svc", "rule", "日本", "net-if", "item", "in"}

func (g *goGen) structTy(depth, labels int) *goStruct {
	t := g.t
	s := &goStruct{}
	attrs := rapid.Permutation(goAttrNames).Draw(t, "attrs")
	blocks := rapid.Permutation(goBlockNames).Draw(t, "blocks")
	for i := 0; i < labels; i++ {
		s.Fields = append(s.Fields, &goField{Kind: "label", Name: fmt.Sprintf("l%d", i)})
	}
	for i := model.Count(t, 0, 4); i > 0 && len(attrs) > 0; i-- {
		f := &goField{Kind: model.Pick(t, []string{"attr", "attr", "attr", "plain", "opt"}), Name: attrs[0]}
		attrs = attrs[1:]
		f.Ty = g.ty(2)
		if model.Chance(t, 12) {
			f.Raw = model.Pick(t, []string{"expr", "attr"})
		}
		s.Fields = append(s.Fields, f)
	}
	if depth > 0 {
		for i := model.Count(t, 0, 3); i > 0 && len(blocks) > 0; i-- {
			f := &goField{Kind: "block", Name: blocks[0]}
			blocks = blocks[1:]
			f.Slice = model.Chance(t, 45)
			if model.Chance(t, 15) {
				f.Raw = model.Pick(t, []string{"body", "block", "attrs"})
			} else {
				f.Ptr = model.Chance(t, 45)
				nl := 0
				if model.Chance(t, 40) {
					nl = model.Int(t, 1, 3, "labels")
				}
				f.Sub = g.structTy(depth-1, nl)
			}
			s.Fields = append(s.Fields, f)
		}
	}
	if model.Chance(t, 25) {
		f := &goField{Kind: "remain", Raw: model.Pick(t, []string{"body", "attrs", "map", "map", "mapexpr", "mapattr"})}
		if f.Raw == "map" {
			f.Ty = g.ty(1)
		}
		s.Fields = append(s.Fields, f)
	}
	if model.Chance(t, 10) {
		s.Fields = append(s.Fields, &goField{Kind: "none"})
	}
	if len(s.Fields) > 1 && model.Chance(t, 50) {
		s.Fields = rapid.Permutation(s.Fields).Draw(t, "fields")
	}
	return s
}

func (g *goGen) bad() bool { return g.sg.BadNow() }

// value draws an expression for a field of a type.
func (g *goGen) value(ty *goTy) *model.Expr {
	t := g.t
	if g.bad() {
		if strings.HasPrefix(ty.K, "int") || strings.HasPrefix(ty.K, "uint") {
			return model.NumLit(model.Pick(t, []string{"128", "256", "65536", "40000", "1.5", "4294967296", "9223372036854775808", "18446744073709551616", "3000000000"}))
		}
		return g.sg.Value(ty.ty())
	}
	switch ty.K {
	case "ptr":
		if model.Chance(t, 15) {
			return &model.Expr{K: "null"}
		}
		return g.value(ty.E)
	case "slice":
		x := &model.Expr{K: "tuple"}
		for n := model.Count(t, 0, 3); n > 0; n-- {
			x.Xs = append(x.Xs, g.value(ty.E))
		}
		return x
	case "map", "struct":
		x := &model.Expr{K: "obj"}
		names := ty.Names
		if ty.K == "map" {
			names = model.Subset(t, []string{"a", "b", "k", "é", "a b"}, 3)
		}
		for i, n := range names {
			e := ty.E
			if ty.K == "struct" {
				e = ty.Elems[i]
			}
			x.Keys = append(x.Keys, model.ObjKey{K: "x", X: model.StrLit(n)})
			x.Xs = append(x.Xs, g.value(e))
		}
		return x
	case "string", "val":
		return g.sg.Value(ty.ty())
	case "bool":
		if model.Chance(t, 30) {
			return g.sg.Value(ty.ty())
		}
		return &model.Expr{K: "bool", S: model.Pick(t, []string{"false", "true"})}
	}
	n := fmt.Sprint(model.Int(t, 0, 127, "num"))
	switch {
	case strings.HasPrefix(ty.K, "float") && model.Chance(t, 60):
		n = model.Num(t)
	case ty.K[0] != 'u' && model.Chance(t, 30):
		return &model.Expr{K: "un", S: "-", Xs: []*model.Expr{model.NumLit(n)}}
	case model.Chance(t, 15):
		return model.StrLit(n)
	}
	return model.NumLit(n)
}

func (g *goGen) raw(blocks bool) *model.Body {
	t := g.t
	b := &model.Body{}
	for _, n := range model.Subset(t, []string{"p", "q", "é2"}, 2) {
		b.Items = append(b.Items, &model.Item{Name: n, X: g.sg.Value(model.Ty{K: "dyn"})})
	}
	if blocks {
		for n := model.Count(t, 0, 2); n > 0; n-- {
			b.Items = append(b.Items, &model.Item{Name: "inner", Labels: []string{g.sg.Labels(t)}, Body: &model.Body{}})
		}
	}
	return b
}

func (g *goGen) body(s *goStruct) *model.Body {
	t := g.t
	b := &model.Body{}
	rem := ""
	for _, f := range s.Fields {
		switch {
		case f.isAttr():
			if f.required() && !g.bad() || !f.required() && model.Chance(t, 65) {
				x := &model.Item{Name: f.Name}
				if f.Raw != "" {
					x.X = g.sg.Value(model.Ty{K: "dyn"})
				} else {
					x.X = g.value(f.Ty)
				}
				b.Items = append(b.Items, x)
			}
		case f.Kind == "remain":
			rem = f.Raw
			extra := g.raw(f.Raw == "body" || g.bad() && !g.js)
			if f.Raw == "map" {
				for _, it := range extra.Items {
					if it.IsAttr() {
						it.X = g.value(f.Ty)
					}
				}
			}
			b.Items = append(b.Items, extra.Items...)
		case f.Kind == "block":
			n := 1
			if f.Slice {
				n = model.Int(t, 0, 3, "n")
			} else if f.Ptr || f.Raw == "block" {
				n = model.Weighted(t, 3, 7)
			}
			if !f.Slice && g.bad() {
				n = model.Pick(t, []int{0, 2})
			}
			for ; n > 0; n-- {
				it := &model.Item{Name: f.Name, One: model.Chance(t, 20)}
				nl := 0
				if f.Sub != nil {
					it.Body = g.body(f.Sub)
					nl = f.Sub.labels()
				} else {
					it.Body = g.raw(f.Raw != "attrs" || g.bad() && !g.js)
				}
				if !g.js && g.bad() {
					nl = model.Int(t, 0, 3, "nl")
				}
				for ; nl > 0; nl-- {
					it.Labels = append(it.Labels, g.sg.Labels(t))
				}
				b.Items = append(b.Items, it)
			}
		}
	}
	if rem == "" {
		if g.bad() {
			b.Items = append(b.Items, &model.Item{Name: "extra_attr", X: model.NumLit("1")})
		}
		if g.bad() {
			b.Items = append(b.Items, &model.Item{Name: "extra_block", Body: &model.Body{}})
		}
	}
	if len(b.Items) > 1 {
		b.Items = rapid.Permutation(b.Items).Draw(t, "order")
	}
	return b
}

// ---- reference ----

type goRef struct {
	env   *model.Env
	ctx   *hcl.EvalContext
	errs  []string
	undet bool
	wrong []string // differences of the result
	old   bool     // the struct at hand was filled before decoding
}

func (r *goRef) fail(f string, a ...interface{}) { r.errs = append(r.errs, fmt.Sprintf(f, a...)) }
func (r *goRef) diff(f string, a ...interface{}) { r.wrong = append(r.wrong, fmt.Sprintf(f, a...)) }

func (r *goRef) eval(x *model.Expr) (cty.Value, bool) {
	v, err := x.Eval(r.env)
	switch {
	case err == model.ErrUndetermined || err == model.ErrDependency:
		r.undet = true
		return cty.DynamicVal, false
	case err != nil:
		r.fail("%s", err)
		return cty.DynamicVal, false
	}
	return v, true
}

// decode evaluates an expression for a Go type.
func (r *goRef) decode(x *model.Expr, rt reflect.Type) (ret reflect.Value, ok bool) {
	v, ok := r.eval(x)
	if !ok {
		return reflect.Value{}, false
	}
	defer func() {
		if p := recover(); p != nil {
			r.undet = true
			ok = false
		}
	}()
	ptr := reflect.New(rt)
	ty, err := gocty.ImpliedType(ptr.Interface())
	if err == nil {
		v, err = convert.Convert(v, ty)
	}
	if err == nil {
		err = gocty.FromCtyValue(v, ptr.Interface())
	}
	if err != nil {
		r.fail("%s", err)
		return reflect.Value{}, false
	}
	return ptr.Elem(), true
}

// goSame compares decoded Go values; cty values are compared as such.
func goSame(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Struct:
		if a.Type() == goBasics["val"] {
			return model.SameValue(a.Interface().(cty.Value), b.Interface().(cty.Value))
		}
		for i := 0; i < a.NumField(); i++ {
			if !goSame(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return goSame(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !goSame(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() || !goSame(a.MapIndex(k), bv) {
				return false
			}
		}
		return true
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || math.IsNaN(a.Float()) && math.IsNaN(b.Float())
	}
	return a.Interface() == b.Interface()
}

func (r *goRef) rawExpr(what string, e hcl.Expression, x *model.Expr) {
	if e == nil {
		r.diff("%s: no expression", what)
		return
	}
	got, diags := e.Value(r.ctx)
	want, err := x.Eval(r.env)
	if err := sameOutcome(what, got, diags, want, err); err != nil {
		r.diff("%s", err)
	}
}

// rawAttrs compares attributes with items; blocks among them are errors.
func (r *goRef) rawAttrs(what string, got reflect.Value, items []*model.Item) {
	n := 0
	for _, it := range items {
		if !it.IsAttr() {
			r.fail("block %s in %s", it.Name, what)
			continue
		}
		n++
		if got.IsValid() {
			a := got.Interface().(hcl.Attributes)[it.Name]
			if a == nil || a.Name != it.Name {
				r.diff("%s: attribute %s is missing", what, it.Name)
				continue
			}
			r.rawExpr(what+"."+it.Name, a.Expr, it.X)
		}
	}
	if got.IsValid() && got.Len() != n {
		r.diff("%s: %d attributes, want %d", what, got.Len(), n)
	}
}

func (r *goRef) rawBody(what string, b hcl.Body, items []*model.Item) {
	if b == nil {
		r.diff("%s: no body", what)
		return
	}
	m := &model.Body{Items: items}
	c, diags := b.Content(toSchema(m.FullSchema()))
	if diags.HasErrors() {
		r.diff("%s: %s", what, diagStr(diags))
		return
	}
	na, i := 0, 0
	for _, it := range items {
		if it.IsAttr() {
			na++
			a := c.Attributes[it.Name]
			if a == nil {
				r.diff("%s: attribute %s is missing", what, it.Name)
				continue
			}
			r.rawExpr(what+"."+it.Name, a.Expr, it.X)
			continue
		}
		i++
	}
	if len(c.Attributes) != na || len(c.Blocks) != i {
		r.diff("%s: %d attributes and %d blocks, want %d and %d", what, len(c.Attributes), len(c.Blocks), na, i)
	}
}

// check walks a decoded struct. Without a valid value it only collects
// errors.
func (r *goRef) check(what string, s *goStruct, got reflect.Value, b *model.Body, labels []string) {
	sc, partial := s.schema()
	rc := b.Apply(sc, partial, model.NewHidden())
	r.errs = append(r.errs, rc.Errs...)
	known := map[string]bool{}
	for _, f := range s.Fields {
		known[f.Name] = true
	}
	li := 0
	for i, f := range s.Fields {
		what := what + "." + f.Name
		var fv reflect.Value
		if got.IsValid() {
			fv = got.Field(i)
		}
		switch {
		case f.Kind == "none":
			if fv.IsValid() && fv.String() != r.before(fv.Type()).String() {
				r.diff("%s: field without a tag was set", what)
			}
		case f.Kind == "label":
			if fv.IsValid() && li < len(labels) && fv.String() != labels[li] {
				r.diff("%s: label %q, want %q", what, fv.String(), labels[li])
			}
			li++
		case f.isAttr():
			r.attr(what, f, fv, rc.Attrs[f.Name])
		case f.Kind == "remain":
			var rest []*model.Item
			for _, it := range b.Items {
				if !known[it.Name] {
					rest = append(rest, it)
				}
			}
			switch f.Raw {
			case "body":
				if fv.IsValid() {
					body, _ := fv.Interface().(hcl.Body)
					r.rawBody(what+"(rest)", body, rest)
				}
			case "attrs":
				r.rawAttrs(what+"(rest)", fv, rest)
			case "mapexpr", "mapattr":
				if !fv.IsValid() || r.old && len(rest) == 0 {
					r.rawAttrs(what+"(rest)", reflect.Value{}, rest)
					continue
				}
				attrs := hcl.Attributes{}
				for _, k := range fv.MapKeys() {
					switch x := fv.MapIndex(k).Interface().(type) {
					case *hcl.Attribute:
						attrs[k.String()] = x
					case hcl.Expression:
						attrs[k.String()] = &hcl.Attribute{Name: k.String(), Expr: x}
					}
				}
				r.rawAttrs(what+"(rest)", reflect.ValueOf(attrs), rest)
			case "map":
				if r.old && len(rest) == 0 {
					continue // a map in use may be kept when nothing is left
				}
				if fv.IsValid() && fv.Len() != len(rest) {
					r.diff("%s: %d entries in the map of the rest, want %d", what, fv.Len(), len(rest))
				}
				for _, it := range rest {
					if !it.IsAttr() {
						r.fail("block %s in the rest", it.Name)
						continue
					}
					want, ok := r.decode(it.X, f.Ty.rtype())
					if fv.IsValid() && ok {
						v := fv.MapIndex(reflect.ValueOf(it.Name))
						if !v.IsValid() || !goSame(v, want) {
							r.diff("%s: entry %s of the rest is wrong", what, it.Name)
						}
					}
				}
			}
		case f.Kind == "block":
			var bs []*model.Item
			for _, it := range rc.Blocks {
				if it.Name == f.Name {
					bs = append(bs, it)
				}
			}
			if len(bs) > 1 && !f.Slice {
				r.fail("duplicate block %s", f.Name)
				continue
			}
			if len(bs) == 0 {
				if !f.Slice && !f.Ptr && f.Raw != "block" {
					r.fail("missing block %s", f.Name)
				} else if fv.IsValid() && !(fv.IsNil() || f.Slice && fv.Len() == 0) {
					r.diff("%s: field of absent block is set", what)
				}
				continue
			}
			if f.Slice && fv.IsValid() && fv.Len() != len(bs) {
				r.diff("%s: %d blocks, want %d", what, fv.Len(), len(bs))
				fv = reflect.Value{}
			}
			for j, it := range bs {
				ev := fv
				if f.Slice && fv.IsValid() {
					ev = fv.Index(j)
				}
				old := r.old
				r.old = old && !f.Slice && !f.Ptr
				r.block(fmt.Sprintf("%s[%d]", what, j), f, ev, it)
				r.old = old
			}
		}
	}
}

// before returns what a field of the given type held before decoding.
func (r *goRef) before(ty reflect.Type) reflect.Value {
	v := reflect.New(ty).Elem()
	if r.old {
		fillOld(v)
	}
	return v
}

// fillOld stores some non-zero value, the same one for the same type.
func fillOld(v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		v.SetString("old")
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(7)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(7)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(7.5)
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		switch v.Type() {
		case goAttr, goBlock:
		default:
			fillOld(v.Elem())
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 5))
		fillOld(v.Index(0))
		fillOld(v.Index(1))
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		e := reflect.New(v.Type().Elem()).Elem()
		fillOld(e)
		v.SetMapIndex(reflect.ValueOf("old").Convert(v.Type().Key()), e)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fillOld(v.Field(i))
			}
		}
	case reflect.Interface:
		switch v.Type() {
		case goExpr:
			v.Set(reflect.ValueOf(hcl.StaticExpr(cty.StringVal("old"), hcl.Range{})))
		case goBody:
			v.Set(reflect.ValueOf(hcl.EmptyBody()))
		}
	}
}

func (r *goRef) attr(what string, f *goField, fv reflect.Value, it *model.Item) {
	if it == nil {
		if !fv.IsValid() {
			return
		}
		if f.Raw == "expr" {
			e, _ := fv.Interface().(hcl.Expression)
			if e == nil {
				r.diff("%s: no expression for an absent attribute", what)
				return
			}
			if v, diags := e.Value(nil); diags.HasErrors() || !v.IsNull() {
				r.diff("%s: absent attribute gives %s", what, vstr(v))
			}
			return
		}
		if !reflect.DeepEqual(fv.Interface(), r.before(fv.Type()).Interface()) {
			r.diff("%s: field of absent attribute is set to %v", what, fv)
		}
		return
	}
	switch f.Raw {
	case "expr":
		if fv.IsValid() {
			e, _ := fv.Interface().(hcl.Expression)
			r.rawExpr(what, e, it.X)
		}
	case "attr":
		if fv.IsValid() {
			a := fv.Interface().(*hcl.Attribute)
			if a == nil || a.Name != it.Name {
				r.diff("%s: wrong attribute", what)
				return
			}
			r.rawExpr(what, a.Expr, it.X)
		}
	default:
		want, ok := r.decode(it.X, f.Ty.rtype())
		if fv.IsValid() && ok && !goSame(fv, want) {
			r.diff("%s: got %#v, want %#v", what, fv, want)
		}
	}
}

func (r *goRef) block(what string, f *goField, fv reflect.Value, it *model.Item) {
	switch f.Raw {
	case "body":
		if fv.IsValid() {
			b, _ := fv.Interface().(hcl.Body)
			r.rawBody(what, b, it.Body.Items)
		}
	case "block":
		if fv.IsValid() {
			b := fv.Interface().(*hcl.Block)
			if b == nil || b.Type != it.Name || len(b.Labels) != 0 {
				r.diff("%s: wrong block", what)
				return
			}
			r.rawBody(what, b.Body, it.Body.Items)
		}
	case "attrs":
		r.rawAttrs(what, fv, it.Body.Items)
	default:
		if f.Ptr && fv.IsValid() {
			if fv.IsNil() {
				r.diff("%s: nil pointer for a block that is present", what)
				fv = reflect.Value{}
			} else {
				fv = fv.Elem()
			}
		}
		r.check(what, f.Sub, fv, it.Body, it.Labels)
	}
}

// ---- C25 ----

type goCase struct {
	Scope  model.Scope `json:"scope"`
	Struct *goStruct   `json:"struct"`
	Body   *model.Body `json:"body"`
	Form   string      `json:"form"`
	Cut    int         `json:"cut,omitempty"`
	Lay    []byte      `json:"lay,omitempty"`
	Old    bool        `json:"old,omitempty"` // the target holds something already
}

func (c goCase) spec() specCase {
	return specCase{Body: c.Body, Form: c.Form, Cut: c.Cut, Lay: c.Lay}
}

func genGoCase(bad int) func(t *rapid.T) goCase {
	return func(t *rapid.T) goCase {
		c := goCase{Form: model.Pick(t, []string{"native", "native", "native", "json", "json", "pack", "merge"})}
		c.Scope = model.GenScopeN(t, genScopeOpts(), 1)
		g := &goGen{t: t, sg: &model.SpecGen{T: t, G: model.NewGen(t, c.Scope, 0), Scope: c.Scope}}
		if model.Chance(t, bad) {
			g.sg.Bad = model.Pick(t, []int{4, 12, 30})
			g.sg.Once = model.Chance(t, 50)
		}
		g.sg.Labels = func(t *rapid.T) string { return model.Pick(t, []string{"x", "y", "foo", "é", "a b", "z"}) }
		g.js = c.Form == "json" || c.Form == "merge"
		c.Struct = g.structTy(model.Int(t, 0, 3, "depth"), 0)
		c.Body = g.body(c.Struct)
		if c.Form == "merge" {
			c.Cut = model.Int(t, 0, len(c.Body.Items), "cut")
		}
		c.Lay = lay(t)
		c.Old = model.Chance(t, 30)
		for _, f := range c.Struct.Fields {
			if g.js && f.Kind == "remain" && f.Raw != "body" {
				c.Lay = nil // only a single object has free attributes
			}
		}
		return c
	}
}

func checkGoSchema(s *goStruct, rt reflect.Type) error {
	want, wantPartial := s.schema()
	for _, v := range []interface{}{reflect.New(rt).Interface(), reflect.Zero(rt).Interface()} {
		got, partial := gohcl.ImpliedBodySchema(v)
		if partial != wantPartial {
			return errf("implied schema of %s is partial: %v", rt, partial)
		}
		if g, w := schemaStr(got), schemaStr(toSchema(want)); g != w {
			return errf("implied schema of %s is %s, want %s", rt, g, w)
		}
		if len(got.Attributes) != len(want.Attrs) || len(got.Blocks) != len(want.Blocks) {
			return errf("implied schema of %s has repeated items", rt)
		}
		for _, b := range got.Blocks {
			for _, f := range s.Fields {
				if f.Kind == "block" && f.Name == b.Type && f.Sub != nil {
					var names []string
					for _, l := range f.Sub.Fields {
						if l.Kind == "label" {
							names = append(names, l.Name)
						}
					}
					if !sameStrings(names, b.LabelNames) {
						return errf("labels of %s are %q, want %q", b.Type, b.LabelNames, names)
					}
				}
			}
		}
	}
	for _, f := range s.Fields {
		if f.Sub != nil {
			if err := checkGoSchema(f.Sub, f.Sub.rtype()); err != nil {
				return err
			}
		}
	}
	return nil
}

func checkGoDecode(c goCase, r *engine.Rec) error {
	rt := c.Struct.rtype()
	if err := checkGoSchema(c.Struct, rt); err != nil {
		return err
	}
	ctx := evalCtx(c.Scope.Map())
	ref := &goRef{env: c.Scope.Env(), ctx: ctx}
	ref.check("", c.Struct, reflect.Value{}, c.Body, nil)
	b, err := c.spec().body()
	if err != nil {
		return err
	}
	kinds := map[string]bool{}
	n := 0
	c.Struct.walk(func(f *goField) {
		n++
		kinds[fmt.Sprintf("%s %s", f.Kind, f.Raw)] = true
	})
	for _, k := range model.SortedKeys(kinds) {
		r.Label("%s", k)
	}
	a, bl := c.Body.Count()
	r.NonTrivialIf(n >= 3 && a+bl >= 2)
	r.Label("form %s", c.Form)
	r.Sample(fmt.Sprintf("%s\n%s", rt, c.spec().text()))
	target := reflect.New(rt)
	if c.Old {
		r.Label("into a used struct")
		fillOld(target.Elem())
	}
	diags := gohcl.DecodeBody(b, ctx, target.Interface())
	switch {
	case ref.undet:
		r.Label("undecided")
		return nil
	case len(ref.errs) > 0:
		r.Label("invalid configuration")
		if err := wellFormedIn(c.Form, "diagnostics", diags); err != nil {
			return err
		}
		if !diags.HasErrors() {
			return errf("decoding into %s should fail (%s)\n%s", rt, strings.Join(ref.errs, "; "), c.spec().text())
		}
		return nil
	}
	r.Label("valid configuration")
	if diags.HasErrors() {
		return errf("decoding into %s failed: %s\n%s", rt, diagStr(diags), c.spec().text())
	}
	ref.old = c.Old
	ref.check("", c.Struct, target.Elem(), c.Body, nil)
	if len(ref.wrong) > 0 {
		sort.Strings(ref.wrong)
		return errf("decoding into %s: %s\n%s", rt, strings.Join(ref.wrong, "; "), c.spec().text())
	}
	return nil
}

func init() {
	rule := "the struct type has three fields or more and the body two items or more"
	engine.Add("C25", "valid", rule, 60000, genGoCase(0), checkGoDecode)
	engine.Add("C25", "violations", rule, 60000, genGoCase(100), checkGoDecode)
}
