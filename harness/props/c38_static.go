package props

import (
	"reflect"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type staticCase struct {
	Scope model.Scope `json:"scope"`
	X     *model.Expr `json:"x"`
	Lay   []byte      `json:"lay,omitempty"`
	// Wrap is who wraps the expression: 1 nobody, 2 hclpack, 3 dynblock.
	// Levels is the number of wrappers of our own around that.
	Wrap   int  `json:"wrap,omitempty"`
	Levels int  `json:"levels,omitempty"`
	End    bool `json:"end,omitempty"` // the outermost has nothing to unwrap
}

// wrapExpr is a wrapper of an expression.
type wrapExpr struct {
	hcl.Expression
	end bool
}

func (e *wrapExpr) UnwrapExpression() hcl.Expression {
	if e.end {
		return nil
	}
	return e.Expression
}

// wrapped checks that the static views see through wrappers.
func (s *staticCheck) wrapped(c staticCase, src string, x hcl.Expression) error {
	if c.Wrap == 0 {
		return nil
	}
	full := s.src
	switch c.Wrap {
	case 2:
		at := x.Range()
		x = &hclpack.Expression{Source: at.SliceBytes(s.src), SourceType: hclpack.ExprNative, Range_: at, StartRange_: x.StartRange()}
		s.r.Label("wrapped by hclpack")
	case 3:
		full = []byte("dynamic \"b\" {\n  for_each = [1]\n  iterator = zz_it\n  content {\n    a = " + src + "\n  }\n}\n")
		f, diags := hclsyntax.ParseConfig(full, "t.hcl", startPos)
		if diags.HasErrors() {
			return errf("the dynamic block is rejected: %s\n%s", diagStr(diags), full)
		}
		cont, diags := dynblock.Expand(f.Body, evalCtx(s.vars)).Content(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "b"}}})
		if diags.HasErrors() || len(cont.Blocks) != 1 {
			return errf("the dynamic block gives %d blocks: %s", len(cont.Blocks), diagStr(diags))
		}
		attrs, diags := cont.Blocks[0].Body.JustAttributes()
		if diags.HasErrors() || attrs["a"] == nil {
			return errf("the content has %d attributes: %s", len(attrs), diagStr(diags))
		}
		x = attrs["a"].Expr
		s.r.Label("wrapped by dynblock")
	}
	in := *s
	in.src = full
	phys := hcl.UnwrapExpression(x)
	chain := []hcl.Expression{x}
	for i := 0; i < c.Levels; i++ {
		x = &wrapExpr{Expression: x}
		chain = append([]hcl.Expression{x}, chain...)
	}
	if err := in.expr(c.X, x); err != nil {
		return errf("%w\nwrapped (%d, %d), in %s", err, c.Wrap, c.Levels, full)
	}
	if c.Wrap == 2 {
		return nil // unwrapping parses again
	}
	if got := hcl.UnwrapExpression(x); got != phys {
		return errf("unwrapping %d levels gives %T, expected %T", c.Levels, got, phys)
	}
	if phys != chain[len(chain)-1] {
		chain = append(chain, phys)
	}
	for stop := 0; stop <= len(chain); stop++ {
		var seen []hcl.Expression
		got := hcl.UnwrapExpressionUntil(x, func(e hcl.Expression) bool {
			seen = append(seen, e)
			return len(seen) == stop+1
		})
		var want hcl.Expression
		n := len(chain)
		if stop < n {
			want, n = chain[stop], stop+1
		}
		if got != want || len(seen) != n {
			return errf("unwrapping %d of %d levels asks %d times and gives %T, expected %T", stop, len(chain), len(seen), got, want)
		}
	}
	if c.End {
		w := &wrapExpr{x, true}
		if got := hcl.UnwrapExpression(w); got != hcl.Expression(w) {
			return errf("a wrapper without anything inside is unwrapped to %T", got)
		}
		if got := hcl.UnwrapExpressionUntil(w, func(e hcl.Expression) bool { return e != hcl.Expression(w) }); got != nil {
			return errf("a wrapper without anything inside is unwrapped until %T", got)
		}
		if _, diags := hcl.ExprList(w); !diags.HasErrors() {
			return errf("a wrapper without anything inside has a list view")
		}
	}
	return nil
}

func genStaticX(t *rapid.T, g *model.Gen, depth int) *model.Expr {
	var e *model.Expr
	switch model.Weighted(t, 4, 4, 3, 4, 2, 2) {
	case 0:
		e = &model.Expr{K: "tuple"}
		for n := model.Count(t, 0, 3); n > 0; n-- {
			if depth > 0 {
				e.Xs = append(e.Xs, genStaticX(t, g, depth-1))
			}
		}
	case 1:
		e = g.Object(max(depth, 1))
		for i := range e.Xs {
			if depth > 0 && model.Chance(t, 50) {
				e.Xs[i] = genStaticX(t, g, depth-1)
			}
		}
	case 2:
		e = &model.Expr{K: "call", S: model.Pick(t, []string{"ident", "cat", "add", "nosuch", "pack"})}
		for n := model.Count(t, 0, 3); n > 0; n-- {
			if depth > 0 {
				e.Xs = append(e.Xs, genStaticX(t, g, depth-1))
			}
		}
		e.Flag = len(e.Xs) > 0 && model.Chance(t, 15)
	case 3:
		r, ok := g.Ref()
		if !ok || model.Chance(t, 20) {
			r = &model.Expr{K: "var", S: model.Pick(t, model.Idents)}
		}
		e = r
	case 4:
		e = model.Pick(t, []*model.Expr{{K: "bool", S: "true"}, {K: "bool", S: "false"}, {K: "null"}, {K: "num", S: "1"}, {K: "tmpl", T: &model.Tmpl{Style: "quoted", Parts: []model.Part{{K: "lit", S: "a"}}}}})
	default:
		e = g.Expr("any", depth)
	}
	for model.Chance(t, 6) {
		e = &model.Expr{K: "paren", Xs: []*model.Expr{e}}
	}
	return e
}

// sameSteps compares a traversal with the expected reference.
func sameSteps(tr hcl.Traversal, root string, steps []model.Step) error {
	if len(tr) != len(steps)+1 || !matches(tr, model.FreePath{Root: root, Steps: steps, Min: len(steps)}) {
		return errf("the traversal is %s, expected %s", travStr(tr), freeStr(model.FreePath{Root: root, Steps: steps}))
	}
	return nil
}

// checkTraversal compares all ways of applying a traversal with the value
// that its steps give.
func checkTraversal(tr hcl.Traversal, vars map[string]cty.Value, want cty.Value, werr error) error {
	ctx := evalCtx(vars)
	name := travStr(tr)
	before := append(hcl.Traversal(nil), tr...)
	got, diags := tr.TraverseAbs(ctx)
	if err := sameOutcome("the traversal "+name, got, diags, want, werr); err != nil {
		return err
	}
	sp := tr.SimpleSplit()
	if sp.RootName() != tr.RootName() || len(sp.Abs) != 1 || len(sp.Rel) != len(tr)-1 || !sp.Rel.IsRelative() || sp.Abs.IsRelative() {
		return errf("%s splits into %s and %s", name, travStr(sp.Abs), travStr(sp.Rel))
	}
	if j := sp.Join(); !reflect.DeepEqual(j, tr) {
		return errf("%s splits and joins as %s", name, travStr(j))
	}
	got, diags = sp.Traverse(ctx)
	if err := sameOutcome("the split traversal "+name, got, diags, want, werr); err != nil {
		return err
	}
	if v, ok := vars[tr.RootName()]; ok {
		got, diags := sp.Rel.TraverseRel(v)
		if err := sameOutcome("the relative part of "+name, got, diags, want, werr); err != nil {
			return err
		}
		// As a path.
		var path cty.Path
		for _, st := range tr[1:] {
			switch st := st.(type) {
			case hcl.TraverseAttr:
				path = append(path, cty.GetAttrStep{Name: st.Name})
			case hcl.TraverseIndex:
				path = append(path, cty.IndexStep{Key: st.Key})
			}
		}
		got, diags = hcl.ApplyPath(v, path, tr.SourceRange().Ptr())
		if err := sameOutcome("the path of "+name, got, diags, want, werr); err != nil {
			return err
		}
		// One step after the other.
		ok = true
		for _, st := range tr[1:] {
			var d hcl.Diagnostics
			v, d = st.TraversalStep(v)
			if d.HasErrors() {
				ok = false
				break
			}
		}
		if werr == nil && (!ok || !model.SameValue(v, want)) || werr != nil && ok && werr != model.ErrUndetermined && werr != model.ErrDependency {
			return errf("the steps of %s give %s (%v), expected %s (%v)", name, vstr(v), ok, vstr(want), werr)
		}
	}
	for i := 1; i <= len(tr); i++ {
		abs := append(make(hcl.Traversal, 0, len(tr)+3), tr[:i]...)
		rel := tr[i:len(tr):len(tr)]
		j := hcl.TraversalJoin(abs, rel)
		j2 := hcl.TraversalJoin(abs, hcl.Traversal{hcl.TraverseAttr{Name: "other"}})
		if !reflect.DeepEqual(append(hcl.Traversal{}, j...), append(hcl.Traversal{}, tr...)) || len(j2) != i+1 || !reflect.DeepEqual(append(hcl.Traversal{}, j2[:i]...), append(hcl.Traversal{}, tr[:i]...)) {
			return errf("%s cut at %d joins as %s and %s", name, i, travStr(j), travStr(j2))
		}
	}
	if !reflect.DeepEqual(before, append(hcl.Traversal(nil), tr...)) {
		return errf("%s was changed into %s", travStr(before), name)
	}
	return nil
}

type staticCheck struct {
	src  []byte
	vars map[string]cty.Value
	env  *model.Env
	r    *engine.Rec
}

func wantOK(what string, want bool, diags hcl.Diagnostics, e *model.Expr) error {
	if want == diags.HasErrors() {
		return errf("%s of %s: expected success %v, diagnostics %s", what, e.Native(nil), want, diagStr(diags))
	}
	return nil
}

// expr compares all static views of an expression with its model.
func (s *staticCheck) expr(e *model.Expr, x hcl.Expression) error {
	paren := false
	for e.K == "paren" {
		e, paren = e.Xs[0], true
	}
	ctx := evalCtx(s.vars)
	want, werr := e.Eval(s.env)
	whole, wdiags, err := guardValue(x, ctx, werr)
	if err != nil {
		return err
	}
	if err := sameOutcome(e.Native(nil), whole, wdiags, want, werr); err != nil {
		return err
	}

	list, diags := hcl.ExprList(x)
	if !(paren && diags.HasErrors()) {
		if err := wantOK("the list view", e.K == "tuple", diags, e); err != nil {
			return err
		}
	}
	if !diags.HasErrors() {
		if len(list) != len(e.Xs) {
			return errf("the list view of %s has %d elements", e.Native(nil), len(list))
		}
		s.r.Label("list")
		for i, l := range list {
			if err := s.expr(e.Xs[i], l); err != nil {
				return err
			}
			if werr == nil {
				if v, _ := l.Value(ctx); !model.SameValue(v, whole.Index(cty.NumberIntVal(int64(i)))) {
					return errf("element %d of %s is %s, its expression %s", i, e.Native(nil), vstr(whole), vstr(v))
				}
			}
		}
	}

	pairs, diags := hcl.ExprMap(x)
	if !(paren && diags.HasErrors()) {
		if err := wantOK("the map view", e.K == "obj", diags, e); err != nil {
			return err
		}
	}
	if !diags.HasErrors() {
		if len(pairs) != len(e.Xs) {
			return errf("the map view of %s has %d items", e.Native(nil), len(pairs))
		}
		s.r.Label("map")
		last := map[string]cty.Value{}
		for i, p := range pairs {
			if err := s.expr(e.Xs[i], p.Value); err != nil {
				return err
			}
			k := e.Keys[i]
			kwant, kerr := cty.StringVal(k.S), error(nil)
			if k.K == "id" && k.S == "for" {
				// It may be written in quotes.
			} else if k.K == "id" {
				if kw := hcl.ExprAsKeyword(p.Key); kw != k.S {
					return errf("the keyword of key %s in %s is %q", k.S, e.Native(nil), kw)
				}
			} else {
				kwant, kerr = k.X.Eval(s.env)
			}
			kv, kd, err := guardValue(p.Key, ctx, kerr)
			if err != nil {
				return err
			}
			if err := sameOutcome("the key in "+e.Native(nil), kv, kd, kwant, kerr); err != nil {
				return err
			}
			if werr == nil {
				kv, err := convert.Convert(kv, cty.String)
				if err != nil {
					return errf("the key %s of %s", err, e.Native(nil))
				}
				last[kv.AsString()], _ = p.Value.Value(ctx)
			}
		}
		if werr == nil {
			if v := cty.ObjectVal(last); !model.SameValue(v, whole) {
				return errf("%s is %s, its items %s", e.Native(nil), vstr(whole), vstr(v))
			}
		}
	}

	call, diags := hcl.ExprCall(x)
	if !(paren && diags.HasErrors()) {
		if err := wantOK("the call view", e.K == "call" && !e.Flag, diags, e); err != nil {
			return err
		}
	}
	if !diags.HasErrors() {
		s.r.Label("call")
		if call.Name != e.S || len(call.Arguments) != len(e.Xs) {
			return errf("the call view of %s is %s with %d arguments", e.Native(nil), call.Name, len(call.Arguments))
		}
		if n := call.NameRange.SliceBytes(s.src); string(n) != e.S {
			return errf("the name range of %s has %q", e.Native(nil), n)
		}
		if a := call.ArgsRange.SliceBytes(s.src); len(a) < 2 || a[0] != '(' || a[len(a)-1] != ')' {
			return errf("the argument range of %s has %q", e.Native(nil), a)
		}
		for i, a := range call.Arguments {
			if err := s.expr(e.Xs[i], a); err != nil {
				return err
			}
		}
	}

	root, steps, sure, ok := e.Chain()
	kw := ""
	switch e.K {
	case "bool":
		root, steps, sure, ok, kw = e.S, nil, true, true, e.S
	case "null":
		root, steps, sure, ok, kw = "null", nil, true, true, "null"
	case "var":
		kw = e.S
	}
	tr, diags := hcl.AbsTraversalForExpr(x)
	if sure && !paren || !ok {
		if err := wantOK("the reference view", ok, diags, e); err != nil {
			return err
		}
		if got := hcl.ExprAsKeyword(x); got != kw {
			return errf("the keyword of %s is %q", e.Native(nil), got)
		}
	}
	if !diags.HasErrors() {
		s.r.Label("reference")
		if len(steps) > 0 {
			s.r.Label("reference with steps")
		}
		if err := sameSteps(tr, root, steps); err != nil {
			return err
		}
		if e.K != "bool" && e.K != "null" {
			if err := checkTraversal(tr, s.vars, want, werr); err != nil {
				return err
			}
			rel, diags := hcl.RelTraversalForExpr(x)
			if diags.HasErrors() || len(rel) != len(tr) || !rel.IsRelative() || tr.IsRelative() {
				return errf("the relative view of %s is %s: %s", travStr(tr), travStr(rel), diagStr(diags))
			}
			got, diags := rel.TraverseRel(cty.ObjectVal(s.vars))
			if err := sameOutcome("the relative view of "+travStr(tr), got, diags, want, werr); err != nil {
				return err
			}
		}
	}
	return nil
}

type travCase struct {
	Scope model.Scope `json:"scope"`
	X     *model.Expr `json:"x"`
	Lay   []byte      `json:"lay,omitempty"`
}

// checkTravText parses the text of a reference as a traversal.
func checkTravText(c travCase, r *engine.Rec) error {
	src := c.X.Native(c.Lay)
	r.Sample(src)
	root, steps, sure, ok := c.X.Chain()
	tr, diags := hclsyntax.ParseTraversalAbs([]byte(src), "t", startPos)
	if !ok || !sure || root == "for" { // which is written in parentheses
		return nil
	}
	r.NonTrivialIf(len(steps) > 0)
	leg := false
	c.X.Walk(func(e *model.Expr) {
		leg = leg || e.K == "leg" || e.K == "bool" || e.K == "null" || e.K == "tmpl" && e.T.Style != "quoted"
	})
	if diags.HasErrors() {
		if leg {
			return nil // the index of the old syntax is not for traversals
		}
		return errf("%s is rejected: %s", src, diagStr(diags))
	}
	if err := sameSteps(tr, root, steps); err != nil {
		return errf("%s: %w", src, err)
	}
	want, werr := c.X.Eval(c.Scope.Env())
	return checkTraversal(tr, c.Scope.Map(), want, werr)
}

type jstatCase struct {
	Scope model.Scope `json:"scope"`
	X     *model.Expr `json:"x"` // what the string holds, or
	V     *model.JX   `json:"v"` // any JSON value
	Lay   []byte      `json:"lay,omitempty"`
	JLay  []byte      `json:"jlay,omitempty"`
}

func checkJStatic(c jstatCase, r *engine.Rec) error {
	s := &staticCheck{vars: c.Scope.Map(), env: c.Scope.Env(), r: r}
	if c.X == nil {
		doc := &model.J{K: "obj", Keys: []string{"a"}, L: []*model.J{c.V.J()}}
		src, _ := doc.Text(c.JLay)
		r.Sample(src)
		e, err := parseJSONAttr(src)
		if err != nil {
			return errf("%s\n%s", err, src)
		}
		r.NonTrivialIf(c.V.K == "arr" || c.V.K == "obj")
		if err := s.json(c.V, e); err != nil {
			return errf("%w\n%s", err, src)
		}
		return nil
	}
	// A string that holds a reference or call.
	text := c.X.Native(c.Lay)
	doc := &model.J{K: "obj", Keys: []string{"a"}, L: []*model.J{model.JStr(text)}}
	src, _ := doc.Text(c.JLay)
	r.Sample(src)
	e, err := parseJSONAttr(src)
	if err != nil {
		return errf("%s\n%s", err, src)
	}
	// Without escapes the positions inside of the string are known.
	verbatim := !strings.Contains(src, "\\")
	tr, diags := hcl.AbsTraversalForExpr(e)
	ntr, ndiags := hclsyntax.ParseTraversalAbs([]byte(text), "t", startPos)
	if diags.HasErrors() != ndiags.HasErrors() {
		return errf("the string %q as reference: %s; natively: %s", text, diagStr(diags), diagStr(ndiags))
	}
	if !diags.HasErrors() {
		r.Label("reference")
		r.NonTrivialIf(len(tr) > 1)
		if travStr(tr) != travStr(ntr) {
			return errf("the string %q is the reference %s, natively %s", text, travStr(tr), travStr(ntr))
		}
		if verbatim {
			for i := range tr {
				if err := sameText(src, tr[i].SourceRange(), text, ntr[i].SourceRange()); err != nil {
					return errf("step %d of %s: %w", i, travStr(tr), err)
				}
			}
		}
		kw := ""
		if len(tr) == 1 {
			kw = tr.RootName()
		}
		if got := hcl.ExprAsKeyword(e); got != kw {
			return errf("the keyword of the string %q is %q", text, got)
		}
		if root, steps, sure, ok := c.X.Chain(); ok && sure {
			if err := sameSteps(tr, root, steps); err != nil {
				return err
			}
			want, werr := c.X.Eval(s.env)
			if err := checkTraversal(tr, s.vars, want, werr); err != nil {
				return err
			}
		}
	}
	call, diags := hcl.ExprCall(e)
	x := c.X
	for x.K == "paren" {
		x = x.Xs[0]
	}
	if !(c.X.K == "paren" && diags.HasErrors()) && !strings.Contains(text, "<<") {
		if err := wantOK("the call view of the string", x.K == "call" && !x.Flag, diags, c.X); err != nil {
			return err
		}
	}
	if !diags.HasErrors() {
		r.Label("call")
		r.NonTrivialIf(len(call.Arguments) > 0)
		if call.Name != x.S || len(call.Arguments) != len(x.Xs) {
			return errf("the call view of %q is %s with %d arguments", text, call.Name, len(call.Arguments))
		}
		if verbatim {
			nx, _ := hclsyntax.ParseExpression([]byte(text), "t", startPos)
			ncall, _ := hcl.ExprCall(nx)
			if err := sameText(src, call.NameRange, text, ncall.NameRange); err != nil {
				return errf("the name of the call %s: %w", text, err)
			}
			if err := sameText(src, call.ArgsRange, text, ncall.ArgsRange); err != nil {
				return errf("the arguments of the call %s: %w", text, err)
			}
		}
		for i, a := range call.Arguments {
			want, werr := x.Xs[i].Eval(s.env)
			got, d, err := guardValue(a, evalCtx(s.vars), werr)
			if err != nil {
				return err
			}
			if err := sameOutcome(text, got, d, want, werr); err != nil {
				return err
			}
		}
	}
	if _, diags := hcl.ExprList(e); !diags.HasErrors() {
		return errf("the string %q has a list view", text)
	}
	if _, diags := hcl.ExprMap(e); !diags.HasErrors() {
		return errf("the string %q has a map view", text)
	}
	return nil
}

// sameText compares what two ranges cover.
func sameText(a string, ar hcl.Range, b string, br hcl.Range) error {
	if ar.Start.Byte < 0 || ar.End.Byte > len(a) || ar.Start.Byte > ar.End.Byte {
		return errf("bad range %#v", ar)
	}
	if got, want := a[ar.Start.Byte:ar.End.Byte], b[br.Start.Byte:br.End.Byte]; got != want {
		return errf("the range %s covers %q, expected %q", ar, got, want)
	}
	return nil
}

// json compares the views of JSON arrays and objects.
func (s *staticCheck) json(v *model.JX, e hcl.Expression) error {
	ctx := evalCtx(s.vars)
	want, werr := v.Eval(s.env)
	got, d, err := guardValue(e, ctx, werr)
	if err != nil {
		return err
	}
	if err := sameOutcome("a JSON value", got, d, want, werr); err != nil {
		return err
	}
	list, diags := hcl.ExprList(e)
	if diags.HasErrors() == (v.K == "arr") || v.K == "arr" && len(list) != len(v.L) {
		return errf("the list view of a JSON %s: %d elements, %s", v.K, len(list), diagStr(diags))
	}
	for i, l := range list {
		if err := s.json(v.L[i], l); err != nil {
			return err
		}
	}
	pairs, diags := hcl.ExprMap(e)
	if diags.HasErrors() == (v.K == "obj") || v.K == "obj" && len(pairs) != len(v.L) {
		return errf("the map view of a JSON %s: %d items, %s", v.K, len(pairs), diagStr(diags))
	}
	for i, p := range pairs {
		want, werr := v.Keys[i].Eval(s.env)
		got, d, err := guardValue(p.Key, ctx, werr)
		if err != nil {
			return err
		}
		if err := sameOutcome("a JSON key", got, d, want, werr); err != nil {
			return err
		}
		if err := s.json(v.L[i], p.Value); err != nil {
			return err
		}
	}
	if v.K != "str" {
		if _, d := hcl.ExprCall(e); !d.HasErrors() {
			return errf("a JSON %s has a call view", v.K)
		}
		if _, d := hcl.AbsTraversalForExpr(e); !d.HasErrors() || hcl.ExprAsKeyword(e) != "" {
			return errf("a JSON %s has a reference view", v.K)
		}
	}
	return nil
}

func init() {
	engine.Add("C38", "native", "a list, map, call or reference with parts", 150000,
		func(t *rapid.T) staticCase {
			o := model.PlainOpts()
			o.Null = 8
			c := staticCase{Scope: model.GenScopeN(t, o, 1), Lay: lay(t)}
			c.X = genStaticX(t, model.NewGen(t, c.Scope, 4), 3)
			if model.Chance(t, 40) {
				c.Wrap = model.Int(t, 1, 3, "wrap")
				c.Levels = model.Int(t, 0, 3, "levels")
				c.End = model.Chance(t, 20)
			}
			return c
		},
		func(c staticCase, r *engine.Rec) error {
			src := c.X.NativeInline(c.Lay)
			r.Sample(src)
			r.NonTrivialIf(c.X.Size() >= 3)
			x, err := parseAttrExpr(src)
			if err != nil {
				return errf("%w\n%s", err, src)
			}
			s := &staticCheck{src: []byte("a = " + src + "\n"), vars: c.Scope.Map(), env: c.Scope.Env(), r: r}
			if err := s.expr(c.X, x); err != nil {
				return errf("%w\nin %s", err, src)
			}
			return s.wrapped(c, src, x)
		})
	engine.Add("C38", "text", "at least one step", 300000,
		func(t *rapid.T) travCase {
			o := model.PlainOpts()
			o.Null = 8
			c := travCase{Scope: model.GenScopeN(t, o, 1), Lay: lay(t)}
			g := model.NewGen(t, c.Scope, 4)
			c.X = genRefText(t, g)
			return c
		}, checkTravText)
	engine.Add("C38", "json", "the view has parts", 150000,
		func(t *rapid.T) jstatCase {
			c := jstatCase{Scope: model.GenScopeN(t, genScopeOpts(), 1), Lay: lay(t), JLay: lay(t)}
			g := model.NewGen(t, c.Scope, 4)
			switch model.Weighted(t, 2, 2, 2) {
			case 0:
				c.V = g.JX(model.Int(t, 0, 3, "depth"))
			case 1:
				c.X = genRefText(t, g)
			default:
				c.X = genStaticX(t, g, 2)
			}
			return c
		}, checkJStatic)
}

// genRefText draws a reference, with steps that exist or not.
func genRefText(t *rapid.T, g *model.Gen) *model.Expr {
	e, ok := g.Ref()
	if !ok || model.Chance(t, 20) {
		e = &model.Expr{K: "var", S: model.Pick(t, append([]string{"true", "null", "if", "in"}, model.Idents...))}
	}
	for model.Chance(t, 30) {
		switch model.Weighted(t, 4, 3, 2, 1) {
		case 0:
			e = &model.Expr{K: "attr", S: model.Pick(t, append([]string{"true", "null", "for"}, model.Idents...)), Xs: []*model.Expr{e}}
		case 1:
			e = &model.Expr{K: "idx", Xs: []*model.Expr{e, model.StrLit(model.AnyText(t))}}
		case 2:
			e = &model.Expr{K: "idx", Xs: []*model.Expr{e, model.NumLit(model.Num(t))}}
		default:
			e = &model.Expr{K: "idx", Xs: []*model.Expr{e, {K: "var", S: "n"}}}
		}
	}
	return e
}
