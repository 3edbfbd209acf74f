package props

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hcltest"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// mockX is a mock expression.
type mockX struct {
	K  string      `json:"k"` // lit var trav travsrc list
	V  *model.Val  `json:"v,omitempty"`
	S  string      `json:"s,omitempty"`
	X  *model.Expr `json:"x,omitempty"`
	Xs []*mockX    `json:"xs,omitempty"`
}

type mockXCase struct {
	Scope model.Scope `json:"scope"`
	X     *mockX      `json:"x"`
	Outer int         `json:"outer"` // how many scopes to put around
}

func genMockX(t *rapid.T, scope model.Scope, depth int) *mockX {
	o := model.PlainOpts()
	o.Null = 10
	o.Unk = 10
	ks := []string{"lit", "var", "trav", "travsrc", "list"}
	if depth <= 0 {
		ks = ks[:4]
	}
	x := &mockX{K: model.Pick(t, ks)}
	switch x.K {
	case "lit":
		v := o.ValOf(t, model.GenTy(t, 2, false))
		x.V = &v
	case "var":
		x.S = model.Pick(t, append([]string{"missing"}, scope.Names...))
	case "trav", "travsrc":
		g := model.NewGen(t, scope, 0)
		e, ok := g.Ref()
		if !ok {
			return &mockX{K: "var", S: "missing"}
		}
		if _, _, sure, ok := e.Chain(); !ok || !sure {
			return &mockX{K: "var", S: scope.Names[0]}
		}
		x.X = e
	case "list":
		// All of one type.
		ty := model.GenTy(t, 1, false)
		for n := model.Count(t, 0, 3); n > 0; n-- {
			if model.Chance(t, 15) {
				x.Xs = append(x.Xs, &mockX{K: "var", S: "missing"})
				continue
			}
			v := o.ValOf(t, ty)
			x.Xs = append(x.Xs, &mockX{K: "lit", V: &v})
		}
	}
	return x
}

func genMockXCase(t *rapid.T) mockXCase {
	o := genScopeOpts()
	o.Unk = 5
	c := mockXCase{Scope: model.GenScopeN(t, o, 1), Outer: model.Int(t, 0, 3, "outer")}
	c.X = genMockX(t, c.Scope, 1)
	return c
}

func (x *mockX) build() (hcl.Expression, error) {
	switch x.K {
	case "lit":
		return hcltest.MockExprLiteral(x.V.Cty()), nil
	case "var":
		return hcltest.MockExprVariable(x.S), nil
	case "trav":
		tr, diags := hclsyntax.ParseTraversalAbs([]byte(x.text()), "t.hcl", startPos)
		if diags.HasErrors() {
			return nil, errf("%s: %s", x.text(), diagStr(diags))
		}
		return hcltest.MockExprTraversal(tr), nil
	case "travsrc":
		return hcltest.MockExprTraversalSrc(x.text()), nil
	}
	xs := []hcl.Expression{}
	for _, s := range x.Xs {
		e, err := s.build()
		if err != nil {
			return nil, err
		}
		xs = append(xs, e)
	}
	return hcltest.MockExprList(xs), nil
}

// text writes a reference in the form that traversals have.
func (x *mockX) text() string {
	root, steps, _, _ := x.X.Chain()
	s := root
	for _, st := range steps {
		switch {
		case st.Key == nil:
			s += "." + st.Attr
		case st.Key.Type() == cty.Number:
			s += "[" + st.Key.AsBigFloat().Text('f', -1) + "]"
		default:
			s += "[" + model.QuoteString(st.Key.AsString()) + "]"
		}
	}
	return s
}

func (x *mockX) String() string {
	switch x.K {
	case "lit":
		return x.V.String()
	case "var":
		return x.S
	case "list":
		var s []string
		for _, e := range x.Xs {
			s = append(s, e.String())
		}
		return "[" + strings.Join(s, ", ") + "]"
	}
	return x.K + " " + x.text()
}

func (x *mockX) eval(env *model.Env) (cty.Value, error) {
	switch x.K {
	case "lit":
		return x.V.Cty(), nil
	case "var":
		if v, ok := env.Vars[x.S]; ok {
			return v, nil
		}
		return cty.DynamicVal, errf("no variable %s", x.S)
	case "list":
		if len(x.Xs) == 0 {
			return cty.ListValEmpty(cty.DynamicPseudoType), nil
		}
		var vs []cty.Value
		for _, e := range x.Xs {
			v, err := e.eval(env)
			if err != nil {
				return cty.DynamicVal, err
			}
			vs = append(vs, v)
		}
		return cty.ListVal(vs), nil
	}
	return x.X.Eval(env)
}

func (x *mockX) vars() []string {
	var out []string
	switch x.K {
	case "var":
		out = append(out, x.S)
	case "trav", "travsrc":
		root, steps, _, _ := x.X.Chain()
		out = append(out, freeStr(model.FreePath{Root: root, Steps: steps}))
	}
	for _, e := range x.Xs {
		out = append(out, e.vars()...)
	}
	return out
}

func (x *mockX) check(e hcl.Expression, ctx *hcl.EvalContext, env *model.Env) error {
	got, diags := e.Value(ctx)
	want, werr := x.eval(env)
	if err := sameResult(x.String(), got, diags, want, werr); err != nil {
		return err
	}
	var vars []string
	for _, tr := range e.Variables() {
		vars = append(vars, travStr(tr))
	}
	if w := x.vars(); !sameStrings(vars, w) {
		return errf("variables of %s: %q, expected %q", x, vars, w)
	}
	e.Range()
	e.StartRange()
	tr, diags := hcl.AbsTraversalForExpr(e)
	isTrav := x.K == "var" || x.K == "trav" || x.K == "travsrc"
	if diags.HasErrors() == isTrav {
		return errf("absolute traversal of %s: %s", x, orNone(diags))
	}
	if isTrav {
		if got, want := travStr(tr), x.vars()[0]; got != want {
			return errf("absolute traversal of %s is %s", x, got)
		}
		rel, diags := hcl.RelTraversalForExpr(e)
		if diags.HasErrors() || !rel.IsRelative() || travStr(rel) != "."+x.vars()[0] {
			return errf("relative traversal of %s is %s: %s", x, travStr(rel), orNone(diags))
		}
		kw := hcl.ExprAsKeyword(e)
		if w := x.vars()[0]; len(tr) == 1 && kw != w || len(tr) > 1 && kw != "" {
			return errf("keyword of %s is %q", x, kw)
		}
	}
	list, diags := hcl.ExprList(e)
	var elems []*mockX
	isList := false
	switch x.K {
	case "list":
		isList = true
		elems = x.Xs
	case "lit":
		v := x.V.Cty()
		if (v.Type().IsListType() || v.Type().IsTupleType()) && v.IsKnown() && !v.IsNull() {
			isList = true
			for i := range x.V.L {
				elems = append(elems, &mockX{K: "lit", V: &x.V.L[i]})
			}
		}
	}
	if isList == diags.HasErrors() {
		return errf("list view of %s: %s", x, orNone(diags))
	}
	if isList {
		if len(list) != len(elems) {
			return errf("list view of %s has %d elements", x, len(list))
		}
		for i := range list {
			if err := elems[i].check(list[i], ctx, env); err != nil {
				return errf("element %d: %w", i, err)
			}
		}
	}
	if _, diags := hcl.ExprMap(e); !diags.HasErrors() {
		return errf("%s has a map view", x)
	}
	if _, diags := hcl.ExprCall(e); !diags.HasErrors() {
		return errf("%s has a call view", x)
	}
	return nil
}

func checkMockX(c mockXCase, r *engine.Rec) error {
	r.Sample(c.X.String())
	r.Label("%s", c.X.K)
	r.NonTrivialIf(c.X.K != "lit" || len(c.X.V.L) > 0)
	e, err := c.X.build()
	if err != nil {
		return err
	}
	m := c.Scope.Map()
	// Some of the variables in outer scopes.
	ctx := &hcl.EvalContext{Functions: ctyFuncs}
	maps := []map[string]cty.Value{{}}
	ctxs := []*hcl.EvalContext{ctx}
	for i := 0; i < c.Outer; i++ {
		ctx = ctx.NewChild()
		ctxs = append(ctxs, ctx)
		maps = append(maps, map[string]cty.Value{})
	}
	for i, n := range c.Scope.Names {
		maps[i%len(maps)][n] = m[n]
	}
	for i := range ctxs {
		if len(maps[i]) > 0 {
			ctxs[i].Variables = maps[i]
		}
	}
	if err := c.X.check(e, ctx, c.Scope.Env()); err != nil {
		return err
	}
	attrs := hcltest.MockAttrs(map[string]hcl.Expression{"x": e, "y": hcltest.MockExprLiteral(cty.True)})
	if len(attrs) != 2 || attrs["x"] == nil || attrs["y"] == nil || attrs["x"].Name != "x" || attrs["y"].Name != "y" {
		return errf("attributes %v", attrs)
	}
	if v, _ := attrs["y"].Expr.Value(nil); !v.RawEquals(cty.True) {
		return errf("attribute y is %s", vstr(v))
	}
	return c.X.check(attrs["x"].Expr, ctx, c.Scope.Env())
}

// mockBodyCase decodes a mock body in several steps.
type mockBodyCase struct {
	Body    *model.Body    `json:"body"`
	Schemas []model.Schema `json:"schemas"`
}

func genMockBody(t *rapid.T) mockBodyCase {
	g := &implGen{t: t}
	var c mockBodyCase
	c.Body = g.body(2, false, map[string]bool{}, 6)
	c.Body.Walk(func(it *model.Item, d int) {
		if !it.IsAttr() && model.Chance(t, 10) {
			it.Labels = append(it.Labels, "more")
		}
	})
	for n := model.Count(t, 1, 3); n > 0; n-- {
		c.Schemas = append(c.Schemas, model.GenSchema(t, c.Body, implOpts))
	}
	return c
}

func checkMockBody(c mockBodyCase, r *engine.Rec) error {
	a, b := c.Body.Count()
	r.NonTrivialIf(a+b >= 3)
	r.Sample(fmt.Sprintf("%s with %d schemas", strings.ReplaceAll(c.Body.NativeCanon(), "\n", "; "), len(c.Schemas)))
	var body hcl.Body = mockBody(c.Body.Items)
	missing := body.MissingItemRange()
	h := model.NewHidden()
	for i, s := range c.Schemas {
		last := i == len(c.Schemas)-1
		// The attributes mode shows what is left.
		if err := mockAttrs(body, c.Body, h); err != nil {
			return errf("before step %d: %w", i, err)
		}
		if body.MissingItemRange() != missing {
			return errf("the missing item range changed")
		}
		hh := &model.Hidden{Attrs: map[string]bool{}, Blocks: map[string]bool{}}
		for n := range h.Attrs {
			hh.Attrs[n] = true
		}
		for n := range h.Blocks {
			hh.Blocks[n] = true
		}
		for _, partial := range []bool{false, true} {
			ref := c.Body.Apply(s, partial, &model.Hidden{Attrs: clone2(hh.Attrs), Blocks: clone2(hh.Blocks)})
			var content *hcl.BodyContent
			var diags hcl.Diagnostics
			var rest hcl.Body
			if partial {
				content, rest, diags = body.PartialContent(toSchema(s))
				if rest == nil {
					return errf("no remaining body")
				}
			} else {
				content, diags = body.Content(toSchema(s))
			}
			if err := mockContent(content, diags, ref, s, i, partial, r); err != nil {
				return errf("step %d, partial %v: %w", i, partial, err)
			}
			if partial && !last {
				body = rest
			}
		}
		c.Body.Apply(s, true, h)
	}
	return nil
}

func clone2(m map[string]bool) map[string]bool {
	out := map[string]bool{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func mockContent(content *hcl.BodyContent, diags hcl.Diagnostics, ref model.RefContent, s model.Schema, step int, partial bool, r *engine.Rec) error {
	if diags.HasErrors() != (len(ref.Errs) > 0) {
		return errf("errors: %s; expected: %s", orNone(diags), strings.Join(ref.Errs, "; "))
	}
	for _, d := range diags {
		if d.Subject == nil || d.Summary == "" {
			return errf("error %q without subject", d.Summary)
		}
	}
	if len(content.Attributes) != len(ref.Attrs) {
		return errf("%d attributes returned, want %d", len(content.Attributes), len(ref.Attrs))
	}
	for n, it := range ref.Attrs {
		a := content.Attributes[n]
		if a == nil || a.Name != n || numOf(a) != it.X.S {
			return errf("attribute %s is not the one given", n)
		}
	}
	labels := map[string]int{}
	for _, b := range s.Blocks {
		labels[b.Type] = b.Labels
	}
	var got []*hcl.Block
	for _, b := range content.Blocks {
		n, ok := labels[b.Type]
		if !ok {
			return errf("a block of type %s, which is not in the schema", b.Type)
		}
		if len(b.Labels) == n { // others were reported
			got = append(got, b)
		}
	}
	if len(got) != len(ref.Blocks) {
		return errf("%d blocks returned, want %d", len(got), len(ref.Blocks))
	}
	for i, it := range ref.Blocks {
		if got[i].Type != it.Name || !sameStrings(got[i].Labels, it.Labels) {
			return errf("block %d is %s %q, want %s %q", i, got[i].Type, got[i].Labels, it.Name, it.Labels)
		}
		full := it.Body.FullSchema()
		inner := it.Body.Apply(full, false, model.NewHidden())
		c, diags := got[i].Body.Content(toSchema(full))
		if err := mockContent(c, diags, inner, full, 0, false, r); err != nil {
			return errf("in block %d: %w", i, err)
		}
	}
	r.Label("errors %v", len(ref.Errs) > 0)
	return nil
}

func mockAttrs(body hcl.Body, m *model.Body, h *model.Hidden) error {
	attrs, diags := body.JustAttributes()
	blocks := 0
	want := map[string]*model.Item{}
	for _, it := range m.Items {
		if it.IsAttr() && !h.Attrs[it.Name] {
			want[it.Name] = it
		}
		if !it.IsAttr() && !h.Blocks[it.Name] {
			blocks++
		}
	}
	if diags.HasErrors() != (blocks > 0) {
		return errf("attributes mode with %d blocks: %s", blocks, orNone(diags))
	}
	if len(attrs) != len(want) {
		return errf("attributes mode returned %d attributes, want %d", len(attrs), len(want))
	}
	for n, it := range want {
		if a := attrs[n]; a == nil || a.Name != n || numOf(a) != it.X.S {
			return errf("attributes mode: attribute %s is not the one given", n)
		}
	}
	return nil
}

// checkMockDecode decodes a mock body and a file with the same items. What
// blocks with a wrong number of labels give is open.
func checkMockDecode(c specCase, r *engine.Rec) (err error) {
	a, b := c.Body.Count()
	r.NonTrivialIf(a+b >= 2)
	r.Sample(c.sample())
	spec, err := toSpec(c.Spec)
	if err != nil {
		return err
	}
	native, err := c.body()
	if err != nil {
		return err
	}
	f := native.(*hclsyntax.Body)
	mock := mockOf(f)
	ctx := evalCtx(c.Scope.Map())
	decode := func(b hcl.Body) (v cty.Value, bad bool, p interface{}) {
		defer func() { p = recover() }()
		v, diags := hcldec.Decode(b, spec, ctx)
		return v, diags.HasErrors(), nil
	}
	v1, bad1, p1 := decode(f)
	v2, bad2, p2 := decode(mock)
	if p1 != nil {
		r.Label("panics")
		return nil
	}
	if p2 != nil {
		return errf("decoding the mock body panics: %v", p2)
	}
	if bad1 != bad2 {
		return errf("decoding the file fails: %v, the mock body: %v", bad1, bad2)
	}
	r.Label("fails %v", bad1)
	if !bad1 && !v1.RawEquals(v2) {
		return errf("the file gives %s, the mock body %s", vstr(v1), vstr(v2))
	}
	if g, w := travSet(hcldec.Variables(mock, spec)), travSet(hcldec.Variables(f, spec)); !bad1 && g != w {
		return errf("variables of the mock body %s, of the file %s", g, w)
	}
	return nil
}

// mockOf makes a mock body with the items of a file body.
func mockOf(b *hclsyntax.Body) hcl.Body {
	c := &hcl.BodyContent{Attributes: hcl.Attributes{}, MissingItemRange: b.MissingItemRange()}
	for n, a := range b.Attributes {
		c.Attributes[n] = a.AsHCLAttribute()
	}
	for _, bl := range b.Blocks {
		x := bl.AsHCLBlock()
		x.Body = mockOf(bl.Body)
		c.Blocks = append(c.Blocks, x)
	}
	return hcltest.MockBody(c)
}

func init() {
	engine.Add("C45", "expressions", "not a literal without elements", 60000, genMockXCase, checkMockX)
	engine.Add("C45", "bodies", "a body with at least 3 items", 60000, genMockBody, checkMockBody)
	engine.Add("C45", "decode", "a body with at least 2 items", 40000, func(t *rapid.T) specCase {
		c := genSpecCase(30, 10, "native")(t)
		fitLabels(c.Spec, c.Body)
		return c
	}, checkMockDecode)
}
