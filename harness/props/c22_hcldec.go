package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// specCase is a specification with a body.
type specCase struct {
	Scope model.Scope `json:"scope"`
	Spec  *model.Spec `json:"spec"`
	Body  *model.Body `json:"body"`
	Form  string      `json:"form"` // native json pack merge
	Cut   int         `json:"cut,omitempty"`
	Lay   []byte      `json:"lay,omitempty"`
}

// genSpecCase draws specifications with bodies made for them.
func genSpecCase(bad, unk int, forms ...string) func(t *rapid.T) specCase {
	return func(t *rapid.T) specCase {
		c := specCase{Form: model.Pick(t, forms)}
		o := genScopeOpts()
		if model.Chance(t, unk) {
			o.Unk = 15
		}
		c.Scope = model.GenScopeN(t, o, 1)
		g := model.NewGen(t, c.Scope, 0)
		sg := &model.SpecGen{T: t, G: g, Scope: c.Scope}
		if model.Chance(t, bad) {
			sg.Bad = model.Pick(t, []int{4, 12, 30})
			sg.Once = model.Chance(t, 50)
		}
		sg.Labels = func(t *rapid.T) string { return model.Pick(t, []string{"x", "y", "foo", "é", "a b", "z"}) }
		c.Spec = sg.Spec(model.Int(t, 1, 3, "depth"))
		c.Body = sg.Body(c.Spec)
		if c.Form == "json" || c.Form == "merge" {
			fitLabels(c.Spec, c.Body)
		}
		if c.Form == "merge" {
			c.Cut = model.Int(t, 0, len(c.Body.Items), "cut")
		}
		c.Lay = lay(t)
		return c
	}
}

// fitLabels removes the blocks whose label count is wrong, which have no
// counterpart in JSON.
func fitLabels(s *model.Spec, b *model.Body) {
	specs := map[string]*model.Spec{}
	s.Same(func(x *model.Spec) {
		if x.IsBlock() {
			specs[x.Name] = x
		}
	})
	var keep []*model.Item
	for _, it := range b.Items {
		x := specs[it.Name]
		if it.IsAttr() || x == nil {
			keep = append(keep, it)
			continue
		}
		if it.Gen == nil && len(it.Labels) != x.BlockLabels() {
			continue
		}
		if x.K == "attrs" {
			var attrs []*model.Item
			for _, a := range it.Body.Items {
				if a.IsAttr() {
					attrs = append(attrs, a)
				}
			}
			it.Body.Items = attrs
		} else {
			fitLabels(x.Nested(), it.Body)
		}
		keep = append(keep, it)
	}
	b.Items = keep
}

func (c specCase) text() string {
	if c.Form == "json" {
		src, _ := (&model.JEnc{Lay: c.Lay}).Body(c.Body).Text(c.Lay)
		return src
	}
	return c.Body.Native(c.Lay).Src
}

func (c specCase) body() (hcl.Body, error) {
	switch c.Form {
	case "json":
		f, diags := json.Parse([]byte(c.text()), "t.json")
		if diags.HasErrors() {
			return nil, errf("valid JSON rejected: %s", diagStr(diags))
		}
		return f.Body, nil
	case "pack":
		b, diags := hclpack.PackNativeFile([]byte(c.text()), "t.hcl", startPos)
		if diags.HasErrors() {
			return nil, errf("valid configuration rejected: %s", diagStr(diags))
		}
		return b, nil
	case "merge":
		var bs []hcl.Body
		for i, items := range [][]*model.Item{c.Body.Items[:c.Cut], c.Body.Items[c.Cut:]} {
			cc := c
			cc.Body = &model.Body{Items: items}
			cc.Form = []string{"native", "json"}[i]
			b, err := cc.body()
			if err != nil {
				return nil, err
			}
			bs = append(bs, b)
		}
		return hcl.MergeBodies(bs), nil
	}
	f, diags := hclsyntax.ParseConfig([]byte(c.text()), "t.hcl", startPos)
	if diags.HasErrors() {
		return nil, errf("valid configuration rejected: %s\n%s", diagStr(diags), c.text())
	}
	return f.Body, nil
}

// toSpec builds the specification.
func toSpec(s *model.Spec) (hcldec.Spec, error) {
	var subs []hcldec.Spec
	for _, x := range s.Subs {
		y, err := toSpec(x)
		if err != nil {
			return nil, err
		}
		subs = append(subs, y)
	}
	ty := cty.DynamicPseudoType
	if s.Ty != nil {
		ty = s.Ty.Cty()
	}
	var x hcl.Expression
	if s.X != nil {
		var err error
		x, err = parseAttrExpr(s.X.Native(nil))
		if err != nil {
			return nil, err
		}
	}
	switch s.K {
	case "obj":
		m := hcldec.ObjectSpec{}
		for i, n := range s.Names {
			m[n] = subs[i]
		}
		return m, nil
	case "tuple":
		return hcldec.TupleSpec(subs), nil
	case "attr":
		return &hcldec.AttrSpec{Name: s.Name, Type: ty, Required: s.Req}, nil
	case "lit":
		return &hcldec.LiteralSpec{Value: s.V.Cty()}, nil
	case "expr":
		return &hcldec.ExprSpec{Expr: x}, nil
	case "block":
		return &hcldec.BlockSpec{TypeName: s.Name, Nested: subs[0], Required: s.Req}, nil
	case "list":
		return &hcldec.BlockListSpec{TypeName: s.Name, Nested: subs[0], MinItems: s.Min, MaxItems: s.Max}, nil
	case "btuple":
		return &hcldec.BlockTupleSpec{TypeName: s.Name, Nested: subs[0], MinItems: s.Min, MaxItems: s.Max}, nil
	case "set":
		return &hcldec.BlockSetSpec{TypeName: s.Name, Nested: subs[0], MinItems: s.Min, MaxItems: s.Max}, nil
	case "map":
		return &hcldec.BlockMapSpec{TypeName: s.Name, LabelNames: s.Names, Nested: subs[0]}, nil
	case "bobj":
		return &hcldec.BlockObjectSpec{TypeName: s.Name, LabelNames: s.Names, Nested: subs[0]}, nil
	case "attrs":
		return &hcldec.BlockAttrsSpec{TypeName: s.Name, ElementType: ty, Required: s.Req}, nil
	case "label":
		return &hcldec.BlockLabelSpec{Index: s.Index, Name: s.Name}, nil
	case "default":
		return &hcldec.DefaultSpec{Primary: subs[0], Default: subs[1]}, nil
	case "texpr":
		ts := &hcldec.TransformExprSpec{Wrapped: subs[0], Expr: x, VarName: model.TransVar}
		if len(s.TScope.Names) > 0 {
			ts.TransformCtx = evalCtx(s.TScope.Map())
		}
		return ts, nil
	case "tfunc":
		return &hcldec.TransformFuncSpec{Wrapped: subs[0], Func: model.SpecFuncs[s.Name]}, nil
	}
	return nil, errf("unknown spec %s", s.K)
}

func (c specCase) sample() string {
	return fmt.Sprintf("%s\n%s", specStr(c.Spec), c.text())
}

func specStr(s *model.Spec) string {
	var ss []string
	for i, x := range s.Subs {
		p := ""
		if s.K == "obj" {
			p = s.Names[i] + ": "
		}
		ss = append(ss, p+specStr(x))
	}
	ret := s.K
	if s.Name != "" {
		ret += " " + s.Name
	}
	if s.K == "map" || s.K == "bobj" {
		ret += fmt.Sprint(s.Names)
	}
	if s.Ty != nil {
		ret += " " + s.Ty.String()
	}
	if s.Req {
		ret += "!"
	}
	if s.Min > 0 || s.Max > 0 {
		ret += fmt.Sprintf(" %d..%d", s.Min, s.Max)
	}
	if len(ss) > 0 {
		ret += "(" + strings.Join(ss, ", ") + ")"
	}
	return ret
}

func (c specCase) labels(r *engine.Rec, ref *model.RefDecode) {
	n := 0
	c.Spec.Walk(func(x *model.Spec) {
		n++
		r.Label("spec %s", x.K)
	})
	a, b := c.Body.Count()
	r.NonTrivialIf(n >= 3 && a+b >= 2)
	switch {
	case ref.Undet != nil:
		r.Label("undecided")
	case len(ref.Errs) > 0:
		r.Label("invalid configuration")
	default:
		r.Label("valid configuration")
	}
	r.Label("form %s", c.Form)
	r.Sample(c.sample())
}

// conforms checks a value against the type implied by a specification. With
// errors, unknown parts may also be of unknown type.
func conforms(v cty.Value, ty cty.Type, failed bool) error {
	if v == cty.NilVal {
		return errf("no value")
	}
	if !typeConforms(v.Type(), ty, failed) {
		return errf("%s does not conform to %s", vstr(v), ty.GoString())
	}
	return nil
}

func typeConforms(got, want cty.Type, failed bool) bool {
	return typeConforms2(got, want, failed, false)
}

// typeConforms2 also accepts, with flat, a map for nested maps.
func typeConforms2(got, want cty.Type, failed, flat bool) bool {
	switch {
	case want == cty.DynamicPseudoType || failed && got == cty.DynamicPseudoType:
		return true
	case flat && got.IsMapType() && want.IsMapType() && want.ElementType().IsMapType():
		return typeConforms2(got, want.ElementType(), failed, flat) || typeConforms2(got.ElementType(), want.ElementType(), failed, flat)
	case got.IsListType() && want.IsListType(), got.IsSetType() && want.IsSetType(), got.IsMapType() && want.IsMapType():
		return typeConforms2(got.ElementType(), want.ElementType(), failed, flat)
	case got.IsTupleType() && want.IsTupleType():
		g, w := got.TupleElementTypes(), want.TupleElementTypes()
		if len(g) != len(w) {
			return false
		}
		for i := range g {
			if !typeConforms2(g[i], w[i], failed, flat) {
				return false
			}
		}
		return true
	case got.IsObjectType() && want.IsObjectType():
		g, w := got.AttributeTypes(), want.AttributeTypes()
		if len(g) != len(w) {
			return false
		}
		for n := range g {
			if wt, ok := w[n]; !ok || !typeConforms2(g[n], wt, failed, flat) {
				return false
			}
		}
		return true
	}
	return got.Equals(want)
}

// schemaStr renders a schema as sets.
func schemaStr(s *hcl.BodySchema) string {
	am := map[string]bool{}
	for _, a := range s.Attributes {
		am[a.Name] = am[a.Name] || a.Required
	}
	bm := map[string]string{}
	for _, b := range s.Blocks {
		l := fmt.Sprint(len(b.LabelNames))
		if have, ok := bm[b.Type]; ok && have != l {
			l = have + "|" + l
		}
		bm[b.Type] = l
	}
	var ss []string
	for n, r := range am {
		ss = append(ss, fmt.Sprintf("%s required=%v", n, r))
	}
	for n, l := range bm {
		ss = append(ss, fmt.Sprintf("%s labels=%s", n, l))
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

func checkImplied(s *model.Spec, spec hcldec.Spec) error {
	if got, want := hcldec.ImpliedType(spec), s.Type(); !got.Equals(want) {
		return errf("implied type %s, expected %s", got.GoString(), want.GoString())
	}
	if got, want := schemaStr(hcldec.ImpliedSchema(spec)), schemaStr(toSchema(s.Schema())); got != want {
		return errf("implied schema [%s], expected [%s]", got, want)
	}
	kids := hcldec.ChildBlockTypes(spec)
	want := map[string]*model.Spec{}
	s.Same(func(x *model.Spec) {
		if x.IsBlock() {
			want[x.Name] = x
		}
	})
	if len(kids) != len(want) {
		return errf("%d child block types, expected %d", len(kids), len(want))
	}
	for n, x := range want {
		k, ok := kids[n]
		if !ok || k == nil {
			return errf("child block type %s is missing", n)
		}
		if x.K == "attrs" {
			continue
		}
		if err := checkImplied(x.Nested(), k); err != nil {
			return errf("in child block type %s: %w", n, err)
		}
	}
	return nil
}

// checkSpecDecode compares one decode with the reference.
func checkSpecDecode(c specCase, r *engine.Rec, values bool) (err error) {
	spec, err := toSpec(c.Spec)
	if err != nil {
		return err
	}
	body, err := c.body()
	if err != nil {
		return err
	}
	want, ref := c.Spec.Decode(c.Body, c.Scope.Env(), false)
	c.labels(r, ref)
	if ref.Undet == model.ErrDependency {
		defer func() {
			if p := recover(); p != nil {
				err = &engine.Known{ID: "hcldec-cty-panic", Err: errf("panic: %v", p)}
			}
		}()
	}
	if err := checkImplied(c.Spec, spec); err != nil {
		return err
	}
	if ref.EmptyDeep {
		defer func() {
			if p := recover(); p != nil {
				err = &engine.Known{ID: "empty-deep-map", Err: errf("panic: %v", p)}
			}
		}()
	}
	ctx := evalCtx(c.Scope.Map())
	got, diags := hcldec.Decode(body, spec, ctx)
	defer func() {
		if err != nil && ref.EmptyDeep {
			err = c.flatMap(err, got, diags, spec)
		}
	}()
	if err := wellFormedIn(c.Form, "diagnostics", diags); err != nil {
		return err
	}
	if err := conforms(got, hcldec.ImpliedType(spec), diags.HasErrors()); err != nil {
		return errf("%w\nerrors: %s", err, orNone(diags))
	}
	pv, rest, pdiags := hcldec.PartialDecode(body, spec, ctx)
	if err := wellFormedIn(c.Form, "diagnostics", pdiags); err != nil {
		return err
	}
	if err := conforms(pv, hcldec.ImpliedType(spec), pdiags.HasErrors()); err != nil {
		return errf("partial decode: %w\nerrors: %s", err, orNone(pdiags))
	}
	if !values || ref.Undet != nil {
		return nil
	}
	if err := sameDecode(got, diags, want, ref); err != nil {
		return err
	}
	pwant, pref := c.Spec.Decode(c.Body, c.Scope.Env(), true)
	if err := sameDecode(pv, pdiags, pwant, pref); err != nil {
		return errf("partial decode: %w", err)
	}
	return checkRest(c, rest)
}

// flatMap recognises failures that are due to the type of an empty map with
// several label levels.
func (c specCase) flatMap(err error, got cty.Value, diags hcl.Diagnostics, spec hcldec.Spec) error {
	want, ref := c.Spec.DecodeFlat(c.Body, c.Scope.Env(), false)
	known := &engine.Known{ID: "empty-deep-map", Err: err}
	if ref.Undet != nil {
		return known
	}
	if len(ref.Errs) > 0 {
		if diags.HasErrors() && typeConforms2(got.Type(), hcldec.ImpliedType(spec), true, true) {
			return known
		}
		return err
	}
	if sameDecode(got, diags, want, ref) == nil {
		return known
	}
	return err
}

func sameDecode(got cty.Value, diags hcl.Diagnostics, want cty.Value, ref *model.RefDecode) error {
	if len(ref.Errs) > 0 {
		if !diags.HasErrors() {
			return errf("no error reported; expected %q; value %s", ref.Errs, vstr(got))
		}
		return nil
	}
	if diags.HasErrors() {
		return errf("valid configuration rejected: %s", diagStr(diags))
	}
	if !got.RawEquals(want) {
		return errf("decoded %s, expected %s", vstr(got), vstr(want))
	}
	return nil
}

// checkRest checks what a partial decode leaves.
func checkRest(c specCase, rest hcl.Body) error {
	sc := c.Spec.Schema()
	h := model.NewHidden()
	for _, a := range sc.Attrs {
		h.Attrs[a.Name] = true
	}
	for _, b := range sc.Blocks {
		h.Blocks[b.Type] = true
	}
	left := &model.Body{}
	for _, it := range c.Body.Items {
		if it.IsAttr() && !h.Attrs[it.Name] || !it.IsAttr() && !h.Blocks[it.Name] {
			left.Items = append(left.Items, it)
		}
	}
	full := left.FullSchema()
	content, diags := rest.Content(toSchema(full))
	if diags.HasErrors() {
		return errf("the remaining body should hold only %s: %s", schemaStr(toSchema(full)), diagStr(diags))
	}
	a, b := 0, 0
	for _, it := range left.Items {
		if it.IsAttr() {
			a++
		} else {
			b++
		}
	}
	if len(content.Attributes) != a || len(content.Blocks) != b {
		return errf("the remaining body has %d attributes and %d blocks, expected %d and %d", len(content.Attributes), len(content.Blocks), a, b)
	}
	if _, diags := rest.Content(&hcl.BodySchema{}); diags.HasErrors() != (len(left.Items) > 0) {
		return errf("decoding the rest with an empty schema: %s, with %d items left", orNone(diags), len(left.Items))
	}
	return nil
}

func init() {
	rule := "at least three specification nodes and two items in the body"
	engine.Add("C22", "conformance", rule, 400000,
		genSpecCase(75, 25, "native", "native", "json", "pack", "merge"),
		func(c specCase, r *engine.Rec) error { return checkSpecDecode(c, r, false) })
	engine.Add("C23", "valid", rule, 120000,
		genSpecCase(0, 0, "native", "native", "json", "pack", "merge"),
		func(c specCase, r *engine.Rec) error { return checkSpecDecode(c, r, true) })
	engine.Add("C23", "violations", rule, 120000,
		genSpecCase(100, 0, "native", "native", "json", "pack", "merge"),
		func(c specCase, r *engine.Rec) error { return checkSpecDecode(c, r, true) })
}
