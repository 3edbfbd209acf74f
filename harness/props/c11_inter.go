package props

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// interCase is an expression whose evaluation is interrupted at a call of
// the function ident, the (N mod number of calls)th, while another goroutine evaluates the same expression
// from start to end.
type interCase struct {
	exprCase
	N int `json:"n"`
	// Other is the scope of the other evaluation: the same context, a child of
	// it, or one where the variables have other values.
	Other string `json:"other"`
}

// interrupt wraps subexpressions in calls of ident.
func interrupt(t *rapid.T, e *model.Expr) {
	if e == nil {
		return
	}
	wrap := func(x *model.Expr) *model.Expr {
		if model.Chance(t, 35) && x.K != "item" {
			return &model.Expr{K: "call", S: "ident", Xs: []*model.Expr{x}}
		}
		return x
	}
	var parts func(ps []model.Part)
	parts = func(ps []model.Part) {
		for i := range ps {
			interrupt(t, ps[i].X)
			if ps[i].X != nil {
				ps[i].X = wrap(ps[i].X)
			}
			parts(ps[i].Then)
			parts(ps[i].Else)
		}
	}
	for _, x := range e.Xs {
		interrupt(t, x)
	}
	for _, k := range e.Keys {
		interrupt(t, k.X)
	}
	interrupt(t, e.Key)
	interrupt(t, e.Cond)
	if e.T != nil {
		parts(e.T.Parts)
	}
	switch e.K {
	case "idx":
		if model.Chance(t, 70) {
			e.Xs[1] = &model.Expr{K: "call", S: "ident", Xs: []*model.Expr{e.Xs[1]}}
		}
	case "bin", "un", "cond", "tuple", "obj", "call", "for", "paren":
		for i, x := range e.Xs {
			e.Xs[i] = wrap(x)
		}
		if e.Cond != nil {
			e.Cond = wrap(e.Cond)
		}
		if e.Key != nil {
			e.Key = wrap(e.Key)
		}
	}
}

func genInter(t *rapid.T) interCase {
	c := interCase{N: model.Int(t, 0, 9, "n"), Other: model.Pick(t, []string{"same", "same", "child", "other"})}
	c.Scope = model.GenScope(t, genScopeOpts())
	g := model.NewGen(t, c.Scope, 0)
	g.Bad = 2
	d := model.Int(t, 1, 3, "depth")
	if model.Chance(t, 50) {
		c.Expr = g.Splat(d)
	} else {
		c.Expr = g.Expr(model.Pick(t, []string{"any", "str", "num", "bool", "seq", "obj"}), d)
	}
	interrupt(t, c.Expr)
	c.Lay = lay(t)
	return c
}

func genHammer(t *rapid.T) interCase {
	var c interCase
	c.Scope = model.GenScope(t, genScopeOpts())
	g := model.NewGen(t, c.Scope, 0)
	d := model.Int(t, 1, 3, "depth")
	switch model.Weighted(t, 5, 2, 2) {
	case 0:
		c.Expr = g.Splat(d)
	case 1:
		c.Expr = g.For(model.Pick(t, []string{"tuple", "obj"}), d)
	default:
		c.Expr = g.Expr(model.Pick(t, []string{"any", "str", "num", "bool", "seq", "obj"}), d)
	}
	return c
}

// outcome is the result of an evaluation as text.
func outcome(e hcl.Expression, ctx *hcl.EvalContext) (s string) {
	defer func() {
		if p := recover(); p != nil {
			s = "panic"
		}
	}()
	v, diags := e.Value(ctx)
	s = fmt.Sprintf("%#v", v)
	for _, d := range diags {
		// Details may have texts of the value library that depend on the
		// iteration order of maps.
		s += fmt.Sprintf("\n%s %v %v", d.Summary, d.Subject, d.Context)
	}
	return s
}

func checkInter(c interCase, r *engine.Rec) error {
	src := c.Expr.NativeInline(c.Lay)
	r.Sample(src)
	e, err := parseAttrExpr(src)
	if err != nil {
		return errf("%s\n%s", err, src)
	}
	ctx := evalCtx(c.Scope.Map())
	other := ctx
	switch c.Other {
	case "child":
		other = ctx.NewChild()
		other.Variables = map[string]cty.Value{"unused": cty.True}
	case "other":
		other = evalCtx(map[string]cty.Value{})
		for n, v := range ctx.Variables {
			other.Variables[n] = cty.TupleVal([]cty.Value{v, v})
		}
	}
	// Once armed, ident waits for another evaluation while it is called at
	// the chosen time. An implementation may make the other evaluation wait, so the
	// time to wait has a limit, and running into it decides nothing.
	var calls, at int32
	fired := false
	result := make(chan string, 1)
	funcs := map[string]function.Function{}
	for n, f := range ctx.Functions {
		funcs[n] = f
	}
	funcs["ident"] = function.New(&function.Spec{
		Params: []function.Parameter{{Name: "p0", Type: cty.DynamicPseudoType, AllowNull: true}},
		Type:   func(a []cty.Value) (cty.Type, error) { return a[0].Type(), nil },
		Impl: func(a []cty.Value, _ cty.Type) (cty.Value, error) {
			if atomic.AddInt32(&calls, 1) == at {
				fired = true
				go func() {
					result <- outcome(e, other)
				}()
				select {
				case s := <-result:
					result <- s
				case <-time.After(2 * time.Second):
				}
			}
			return a[0], nil
		},
	})
	ctx.Functions, other.Functions = funcs, funcs
	if c.Other == "child" {
		other.Functions = nil
	}
	want := outcome(e, ctx)
	n := calls
	wantOther := outcome(e, other)
	if want == "panic" || wantOther == "panic" {
		r.Label("panic") // other properties are about these
		return nil
	}
	if n == 0 {
		return nil
	}
	calls, at = 0, 1+int32(c.N)%n
	races := raceErrors()
	got := outcome(e, ctx)
	r.NonTrivialIf(fired)
	for k := range c.Expr.Kinds() {
		r.Label("%s", k)
	}
	if !fired {
		return nil
	}
	gotOther := <-result
	if n := raceErrors() - races; n > 0 {
		return errf("%d data races\n%s", n, src)
	}
	if got != want {
		return errf("the result changes when the expression is evaluated elsewhere meanwhile:\n%s\n---\n%s\n%s", want, got, src)
	}
	if gotOther != wantOther {
		return errf("the result changes when another evaluation is in progress:\n%s\n---\n%s\n%s", wantOther, gotOther, src)
	}
	return nil
}

// checkHammer has several goroutines evaluate one expression in one context
// again and again.
func checkHammer(c interCase, r *engine.Rec) error {
	src := c.Expr.NativeInline(c.Lay)
	r.Sample(src)
	e, err := parseAttrExpr(src)
	if err != nil {
		return errf("%s\n%s", err, src)
	}
	ctx := evalCtx(c.Scope.Map())
	want := outcome(e, ctx)
	if want == "panic" {
		return nil
	}
	k := c.Expr.Kinds()
	r.NonTrivialIf(k["splat"]+k["for"] > 0)
	races := raceErrors()
	got := make([]string, 6)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n := 0; n < 40; n++ {
				if s := outcome(e, ctx); s != want {
					got[i] = s
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	if n := raceErrors() - races; n > 0 {
		return errf("%d data races\n%s", n, src)
	}
	for _, s := range got {
		if s != "" {
			return errf("the result changes in parallel:\n%s\n---\n%s\n%s", want, s, src)
		}
	}
	return nil
}

func init() {
	engine.Add("C11", "hammer", "a splat or for expression", 1500, genHammer, checkHammer)
	engine.Add("C11", "interleave", "the evaluation is interrupted by another one", 60000, genInter, checkInter)
}
