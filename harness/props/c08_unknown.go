package props

import (
	"encoding/json"
	"fmt"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type unkCase struct {
	Known model.Scope `json:"known"`
	Unk   model.Scope `json:"unk"`
	Expr  *model.Expr `json:"expr"`
}

// hide replaces parts of a value by unknowns.
func hide(t *rapid.T, v model.Val, pct int, homog bool) model.Val {
	if model.Chance(t, pct) {
		ty := v.TypeOf()
		if !homog && model.Chance(t, 40) {
			ty = model.Ty{K: "dyn"}
		}
		return model.Val{K: "unk", Ty: &ty}
	}
	switch v.K {
	case "list", "map":
		out := v
		out.L = nil
		for _, e := range v.L {
			out.L = append(out.L, hide(t, e, pct, true))
		}
		return out
	case "tuple", "obj":
		out := v
		out.L = nil
		for _, e := range v.L {
			out.L = append(out.L, hide(t, e, pct, homog))
		}
		return out
	}
	return v
}

func hideScope(t *rapid.T, s model.Scope, free []model.FreePath) model.Scope {
	out := model.Scope{Names: s.Names}
	pct := model.Pick(t, []int{25, 50, 80})
	used := map[string]bool{}
	for _, f := range free {
		used[f.Root] = true
	}
	for i, v := range s.Vals {
		if !used[s.Names[i]] {
			out.Vals = append(out.Vals, v)
			continue
		}
		out.Vals = append(out.Vals, hide(t, v, pct, false))
	}
	return out
}

func hasUnk(v model.Val) bool {
	if v.K == "unk" {
		return true
	}
	for _, e := range v.L {
		if hasUnk(e) {
			return true
		}
	}
	return false
}

// agrees checks a known result against an earlier result with unknowns.
func agrees(u, k cty.Value, path string) error {
	if errs := k.Type().TestConformance(u.Type()); len(errs) > 0 {
		return errf("at %s the type was reported as %#v but the known result has type %#v", path, u.Type(), k.Type())
	}
	if !u.IsKnown() {
		return nil
	}
	if !k.IsKnown() {
		// A comparison with an untyped null inside a structure is undecided in
		// the value library, whatever the inputs.
		return nil
	}
	if u.IsNull() != k.IsNull() {
		return errf("at %s: reported %s, known result is %s", path, vstr(u), vstr(k))
	}
	if u.IsNull() {
		return nil
	}
	ty := u.Type()
	switch {
	case ty.IsPrimitiveType():
		if !model.SameValue(u, k) {
			return errf("at %s: reported %s, known result is %s", path, vstr(u), vstr(k))
		}
	case ty.IsObjectType():
		for n := range ty.AttributeTypes() {
			if err := agrees(u.GetAttr(n), k.GetAttr(n), path+"."+n); err != nil {
				return err
			}
		}
	case ty.IsSetType():
		if u.IsWhollyKnown() && !u.RawEquals(k) {
			return errf("at %s: reported %s, known result is %s", path, vstr(u), vstr(k))
		}
	default:
		if u.LengthInt() != k.LengthInt() {
			return errf("at %s: reported %d elements, known result has %d", path, u.LengthInt(), k.LengthInt())
		}
		ui, ki := u.ElementIterator(), k.ElementIterator()
		for ui.Next() && ki.Next() {
			uk, uv := ui.Element()
			kk, kv := ki.Element()
			if !uk.RawEquals(kk) {
				return errf("at %s: element keys differ", path)
			}
			if err := agrees(uv, kv, path+"["+vstr(uk)+"]"); err != nil {
				return err
			}
		}
	}
	return nil
}

func checkUnknown(expr hcl.Expression, src string, known, unk map[string]cty.Value, r *engine.Rec) error {
	uv, ud := expr.Value(evalCtx(unk))
	kv, kd := expr.Value(evalCtx(known))
	switch {
	case kd.HasErrors():
		r.Label("known evaluation fails")
		return nil
	case ud.HasErrors():
		return errf("%s: evaluation with unknowns fails (%s) though a known replacement gives %s", src, diagStr(ud), vstr(kv))
	}
	if !uv.IsWhollyKnown() {
		r.Label("result has unknowns")
		r.NonTrivial()
		if uv.IsKnown() {
			r.Label("result partly known")
		}
	}
	if err := agrees(uv, kv, "result"); err != nil {
		return errf("%s: %s\nwith unknowns: %s\nknown: %s", src, err, vstr(uv), vstr(kv))
	}
	return nil
}

// condProbe rebuilds e with the branches of every conditional wrapped in
// probe calls, and, when plain is set, with conditionals replaced by a
// selection that does not unify the types of the branches.
func condProbe(e *model.Expr, plain bool) *model.Expr {
	c := cloneExpr(e)
	f := func(n int, x *model.Expr) {
		if plain {
			pred := &model.Expr{K: "cond", Xs: []*model.Expr{x.Xs[0], model.NumLit("0"), model.NumLit("1")}, Flag: true}
			tup := &model.Expr{K: "tuple", Xs: []*model.Expr{x.Xs[1], x.Xs[2]}}
			*x = model.Expr{K: "idx", Xs: []*model.Expr{tup, pred}}
			return
		}
		for i := 1; i <= 2; i++ {
			x.Xs[i] = &model.Expr{K: "call", S: probeName(n, i), Xs: []*model.Expr{x.Xs[i]}}
		}
	}
	var conds []*model.Expr
	c.Walk(func(x *model.Expr) {
		if x.K == "cond" {
			conds = append(conds, x)
		}
	})
	// Innermost first, so that replaced nodes are not visited again.
	for i := len(conds) - 1; i >= 0; i-- {
		f(i, conds[i])
	}
	return c
}

func probeName(cond, branch int) string { return fmt.Sprintf("probe%d_%d", cond, branch) }

func cloneExpr(e *model.Expr) *model.Expr {
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	var c model.Expr
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

// condUndecided attributes a disagreement to the conditional operator when
// one of its branches has a type that is not known yet: the type both
// branches are unified to is then decided too early. It requires that a
// branch was seen to have such a type and that the disagreement vanishes
// when no unification takes place.
func condUndecided(e *model.Expr, known, unk map[string]cty.Value) bool {
	saw := false
	calls := map[string]int{}
	probe := func(i string) function.Function {
		return function.New(&function.Spec{
			Params: []function.Parameter{{Name: "x", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true}},
			Type: func(args []cty.Value) (cty.Type, error) {
				calls[i]++
				if args[0].Type().HasDynamicTypes() && !(args[0].IsKnown() && args[0].IsNull()) {
					saw = true
				}
				return args[0].Type(), nil
			},
			Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) { return args[0], nil },
		})
	}
	pe, diags := hclsyntax.ParseExpression([]byte(condProbe(e, false).Native(nil)), "t.hcl", startPos)
	if diags.HasErrors() {
		return false
	}
	for _, vars := range []map[string]cty.Value{known, unk} {
		ctx := evalCtx(vars).NewChild()
		ctx.Functions = map[string]function.Function{}
		n := 0
		e.Walk(func(x *model.Expr) {
			if x.K == "cond" {
				for i := 1; i <= 2; i++ {
					ctx.Functions[probeName(n, i)] = probe(probeName(n, i))
				}
				n++
			}
		})
		pe.Value(ctx)
		for i := 0; i < n; i++ {
			if calls[probeName(i, 1)] != calls[probeName(i, 2)] {
				saw = true // the branch not selected failed, so its type is not determined
			}
		}
	}
	if !saw {
		return false
	}
	src := condProbe(e, true).Native(nil)
	pe, diags = hclsyntax.ParseExpression([]byte(src), "t.hcl", startPos)
	if diags.HasErrors() {
		return false
	}
	return checkUnknown(pe, src, known, unk, &engine.Rec{}) == nil
}

// splatOfNull attributes a disagreement to the splat operator deciding that
// an unknown value that is not a sequence will not be null: the source of
// some splat was unknown and turned out to be null.
func splatOfNull(e *model.Expr, known, unk map[string]cty.Value, hiddenNull bool) bool {
	c := cloneExpr(e)
	nested := false
	n := 0
	c.Walk(func(x *model.Expr) {
		if x.K != "splat" || x.Flag {
			return
		}
		n++
		x.Flag = true
		b := x.Xs[0]
		for b.K == "attr" || b.K == "leg" || b.K == "idx" || b.K == "splat" {
			b = b.Xs[0]
		}
		if b.K == "item" {
			nested = true
			return
		}
		x.Xs[0] = &model.Expr{K: "call", S: "probe", Xs: []*model.Expr{x.Xs[0]}}
	})
	if n == 0 {
		return false
	}
	sawUnk, sawNull := false, false
	probe := map[string]function.Function{"probe": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "x", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true}},
		Type: func(args []cty.Value) (cty.Type, error) {
			ty := args[0].Type()
			if !ty.IsTupleType() && !ty.IsListType() && !ty.IsSetType() {
				if !args[0].IsKnown() {
					sawUnk = true
				} else if args[0].IsNull() {
					sawNull = true
				}
			}
			return ty, nil
		},
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) { return args[0], nil },
	})}
	pe, diags := hclsyntax.ParseExpression([]byte(c.Native(nil)), "t.hcl", startPos)
	if diags.HasErrors() {
		return false
	}
	for _, vars := range []map[string]cty.Value{known, unk} {
		ctx := evalCtx(vars).NewChild()
		ctx.Functions = probe
		pe.Value(ctx)
	}
	return sawUnk && sawNull || nested && hiddenNull
}

// hidesNull says whether a null of k is hidden by an unknown of u.
func hidesNull(k, u model.Val) bool {
	if u.K == "unk" {
		return k.HasNull()
	}
	for i := range u.L {
		if hidesNull(k.L[i], u.L[i]) {
			return true
		}
	}
	return false
}

func attributeUnknown(err error, e *model.Expr, ks, us model.Scope) error {
	known, unk := ks.Map(), us.Map()
	hn := false
	for i := range ks.Vals {
		hn = hn || hidesNull(ks.Vals[i], us.Vals[i])
	}
	if err != nil && splatOfNull(e, known, unk, hn) {
		return &engine.Known{ID: "splat-unknown-null", Err: err}
	}
	if err != nil && condUndecided(e, known, unk) {
		return &engine.Known{ID: "conditional-undecided-type", Err: err}
	}
	return err
}

func init() {
	engine.Add("C08", "expr", "both evaluations succeed and the result with unknowns is not wholly known", 360000,
		func(t *rapid.T) unkCase {
			c := unkCase{Known: model.GenScopeN(t, genScopeOpts(), 2)}
			g := model.NewGen(t, c.Known, 0)
			if model.Chance(t, 15) {
				g.Bad = 4
			}
			g.Refs = true
			c.Expr = g.Expr("any", model.Int(t, 1, 4, "depth"))
			c.Unk = hideScope(t, c.Known, c.Expr.Free())
			return c
		},
		func(c unkCase, r *engine.Rec) error {
			src := c.Expr.Native(nil)
			r.Sample(src)
			e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", startPos)
			if diags.HasErrors() {
				return errf("valid expression rejected: %s\nsource: %s", diagStr(diags), src)
			}
			err := checkUnknown(e, src, c.Known.Map(), c.Unk.Map(), r)
			return attributeUnknown(err, c.Expr, c.Known, c.Unk)
		})
	engine.Add("C08", "template", "both evaluations succeed and the result with unknowns is not wholly known", 120000,
		func(t *rapid.T) struct {
			Known model.Scope `json:"known"`
			Unk   model.Scope `json:"unk"`
			Tmpl  *model.Tmpl `json:"tmpl"`
		} {
			var c struct {
				Known model.Scope `json:"known"`
				Unk   model.Scope `json:"unk"`
				Tmpl  *model.Tmpl `json:"tmpl"`
			}
			c.Known = model.GenScopeN(t, genScopeOpts(), 2)
			g := model.NewGen(t, c.Known, 0)
			g.Refs = true
			c.Tmpl = g.Tmpl("bare", model.Int(t, 1, 3, "depth"))
			c.Unk = hideScope(t, c.Known, c.Tmpl.Free())
			return c
		},
		func(c struct {
			Known model.Scope `json:"known"`
			Unk   model.Scope `json:"unk"`
			Tmpl  *model.Tmpl `json:"tmpl"`
		}, r *engine.Rec) error {
			src := c.Tmpl.Bare(nil)
			r.Sample(src)
			e, diags := hclsyntax.ParseTemplate([]byte(src), "t.hcl", startPos)
			if diags.HasErrors() {
				return errf("valid template rejected: %s\nsource: %s", diagStr(diags), src)
			}
			err := checkUnknown(e, src, c.Known.Map(), c.Unk.Map(), r)
			if err == nil {
				return nil
			}
			// The same template as the only part of a quoted one.
			q := *c.Tmpl
			q.Style = "quoted"
			return attributeUnknown(err, &model.Expr{K: "tmpl", T: &q}, c.Known, c.Unk)
		})
}
