package props

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type exprCase struct {
	Scope model.Scope `json:"scope"`
	Expr  *model.Expr `json:"expr"`
	Lay   []byte      `json:"lay,omitempty"`
	Attr  bool        `json:"attr,omitempty"`
}

// genScopeOpts are the values used in generated scopes.
func genScopeOpts() model.ValOpts {
	o := model.PlainOpts()
	o.Null = 4
	o.NumFunc = func(t *rapid.T) string {
		if model.Chance(t, 70) {
			return []string{"0", "1", "2", "3", "0.5", "10"}[model.Int(t, 0, 5, "n")]
		}
		return model.Num(t)
	}
	return o
}

func genExprCase(hints []string, depth, bad int, kinds ...string) func(t *rapid.T) exprCase {
	return func(t *rapid.T) exprCase {
		c := exprCase{Scope: model.GenScope(t, genScopeOpts())}
		g := model.NewGen(t, c.Scope, 0)
		if model.Chance(t, bad) {
			g.Bad = 8
		}
		d := model.Int(t, 1, depth, "depth")
		c.Expr = g.Expr(model.Pick(t, hints), d)
		c.Lay = lay(t)
		c.Attr = model.Chance(t, 35)
		return c
	}
}

func checkExpr(minSize int, need func(k map[string]int) bool) func(c exprCase, r *engine.Rec) error {
	return func(c exprCase, r *engine.Rec) error {
		vars := c.Scope.Map()
		want, werr := c.Expr.Eval(&model.Env{Vars: vars, Funcs: model.StdFuncs()})
		var src string
		var expr hclsyntax.Expression
		if c.Attr {
			src = c.Expr.NativeInline(c.Lay)
			var err error
			expr, err = parseAttrExpr(src)
			if err != nil {
				return errf("%s\nsource: %s", err, src)
			}
		} else {
			src = c.Expr.Native(c.Lay)
			e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", startPos)
			if diags.HasErrors() {
				return errf("valid expression rejected: %s\nsource: %s", diagStr(diags), src)
			}
			expr = e
		}
		got, diags, derr := guardValue(expr, evalCtx(vars), werr)
		if derr != nil {
			return derr
		}
		switch {
		case werr == model.ErrUndetermined, werr == model.ErrDependency:
			r.Label("undetermined")
		case werr != nil:
			r.Label("error expected")
		default:
			r.Label("value expected")
		}
		ks := c.Expr.Kinds()
		for k := range ks {
			r.Label("has %s", k)
		}
		r.NonTrivialIf(werr != model.ErrUndetermined && werr != model.ErrDependency && c.Expr.Size() >= minSize && (need == nil || need(ks)))
		r.Sample(src)
		full := src
		if c.Attr {
			full = "a = " + src
		}
		if err := unknownRoots(full, diags); err != nil {
			return err
		}
		return sameOutcome(src, got, diags, want, werr)
	}
}

// guardValue evaluates an expression. Where the reference found that the cty
// library panics while converting to the unified type of a conditional, a
// panic of the evaluation is attributed to that.
func guardValue(e hcl.Expression, ctx *hcl.EvalContext, werr error) (v cty.Value, diags hcl.Diagnostics, err error) {
	if werr == model.ErrDependency {
		defer func() {
			if p := recover(); p != nil {
				err = &engine.Known{ID: "cty-convert-panic", Err: errf("conditional conversion: %v", p)}
			}
		}()
	}
	v, diags = e.Value(ctx)
	return v, diags, nil
}

func init() {
	engine.Add("C04", "eval", "the expression has at least 4 nodes and the reference determines its outcome", 480000,
		genExprCase([]string{"any", "num", "bool", "str", "seq", "map"}, 4, 40),
		checkExpr(4, nil))
	engine.Add("C05", "forsplat", "contains a for expression or splat and the reference determines its outcome", 320000,
		func(t *rapid.T) exprCase {
			c := exprCase{Scope: model.GenScope(t, genScopeOpts())}
			g := model.NewGen(t, c.Scope, 0)
			if model.Chance(t, 30) {
				g.Bad = 6
			}
			d := model.Int(t, 2, 4, "depth")
			switch model.Weighted(t, 3, 3, 3) {
			case 0:
				c.Expr = g.Splat(d)
			case 1:
				c.Expr = g.For("tuple", d)
			default:
				c.Expr = g.For("obj", d)
			}
			c.Lay = lay(t)
			c.Attr = model.Chance(t, 35)
			return c
		},
		checkExpr(2, func(k map[string]int) bool { return k["for"]+k["splat"] > 0 }))
}
