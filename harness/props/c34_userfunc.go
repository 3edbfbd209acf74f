package props

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type ufDef struct {
	Name   string      `json:"name"`
	Params []model.Var `json:"params,omitempty"`
	Var    *model.Var  `json:"var,omitempty"`
	Result *model.Expr `json:"result"`
	Bad    string      `json:"bad,omitempty"`
}

type ufCase struct {
	Scope model.Scope `json:"scope"`
	Defs  []ufDef     `json:"defs"`
	Calls []ufCall    `json:"calls"`
	Rest  int         `json:"rest,omitempty"` // other items
	Order []byte      `json:"order,omitempty"`
	// Ctx: the functions see the scope, and each other.
	Ctx  bool   `json:"ctx,omitempty"`
	JSON bool   `json:"json,omitempty"`
	Type string `json:"type"`
	Lay  []byte `json:"lay,omitempty"`
}

type ufCall struct {
	X *model.Expr `json:"x"`
	// Unknown is the position of an argument to replace by an unknown value.
	Unknown int `json:"unknown,omitempty"`
}

var ufBad = []string{"no params", "no result", "params not a list", "params for", "param path", "param string", "param number", "variadic string", "variadic path", "extra argument", "extra block", "no label", "two labels"}

// jsonOnly and nativeOnly: kinds that do not exist in the other syntax.
func ufBadFor(t *rapid.T, js bool) string {
	for {
		b := model.Pick(t, ufBad)
		// In JSON, names are given as strings, and labels cannot be left out.
		if js && (b == "param string" || b == "variadic string" || b == "no label" || b == "two labels" || b == "params for") {
			b = "no params"
		}
		return b
	}
}

func genUfCase(t *rapid.T) ufCase {
	o := model.PlainOpts()
	c := ufCase{Scope: model.GenScopeN(t, o, 2), Ctx: model.Chance(t, 80), JSON: model.Chance(t, 30), Lay: lay(t)}
	c.Type = model.Pick(t, []string{"function", "function", "def"})
	bad := model.Pick(t, []int{0, 0, 8})
	pool := []string{"p", "q", "r", "s", "n", "x", "params", "result", "items", "é1"}
	badDef := model.Chance(t, 25)
	used := map[string]bool{}
	for i := model.Count(t, 1, 4); i > 0; i-- {
		d := ufDef{Name: fmt.Sprintf("f%d", len(c.Defs))}
		if model.Chance(t, 10) && !used["upper"] {
			d.Name = "upper" // hides a function of the context, where it is used
		}
		used[d.Name] = true
		var vars []model.Var
		for _, n := range model.Subset(t, pool, 3) {
			v := model.Var{Name: n, Ex: o.ValOf(t, model.GenTy(t, 2, false))}
			d.Params = append(d.Params, v)
			vars = append(vars, v)
		}
		if model.Chance(t, 35) {
			el := model.GenTy(t, 1, false)
			ex := model.Val{K: "tuple", L: []model.Val{o.ValOf(t, el), o.ValOf(t, el)}}
			d.Var = &model.Var{Name: model.Pick(t, []string{"rest", "others", "args"}), Ex: ex}
			vars = append(vars, *d.Var)
		}
		s := c.Scope
		if !c.Ctx {
			s = model.Scope{}
		}
		g := model.NewGen(t, s, bad)
		g.NoFuncs = !c.Ctx || d.Name == "upper" // no recursion
		g.NoHeredo = c.JSON
		hint := "any"
		if len(vars) > 0 && model.Chance(t, 50) {
			hint = model.HintOf(vars[model.Int(t, 0, len(vars)-1, "v")].Ex)
		}
		g.With(vars, func() { d.Result = g.Expr(hint, model.Int(t, 0, 3, "depth")) })
		if !g.NoFuncs && len(c.Defs) > 0 && model.Chance(t, 60) {
			callee := model.Pick(t, c.Defs)
			var call *model.Expr
			g.With(vars, func() { call = ufGenCall(t, g, callee, bad) })
			if model.Chance(t, 50) {
				d.Result = call
			} else {
				d.Result = &model.Expr{K: "tuple", Xs: []*model.Expr{d.Result, call}}
			}
		}
		if badDef && model.Chance(t, 40) {
			d.Bad = ufBadFor(t, c.JSON)
		}
		c.Defs = append(c.Defs, d)
	}
	for i := model.Count(t, 1, 4); i > 0; i-- {
		g := model.NewGen(t, c.Scope, bad)
		c.Calls = append(c.Calls, ufCall{X: ufGenCall(t, g, model.Pick(t, c.Defs), bad), Unknown: model.Int(t, 0, 3, "unknown")})
	}
	c.Rest = model.Int(t, 0, 3, "rest")
	c.Order = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "order")
	return c
}

func ufGenCall(t *rapid.T, g *model.Gen, d ufDef, bad int) *model.Expr {
	c := &model.Expr{K: "call", S: d.Name}
	n := len(d.Params)
	if model.Chance(t, 6) {
		n = max(0, n+model.Pick(t, []int{-1, 1}))
	} else if d.Var != nil {
		n += model.Int(t, 0, 3, "extra")
	}
	arg := func(i int) *model.Expr {
		hint := "any"
		if i < len(d.Params) {
			hint = model.HintOf(d.Params[i].Ex)
		} else if d.Var != nil {
			hint = model.HintOf(d.Var.Ex.L[0])
		}
		return g.Expr(hint, 1)
	}
	split := n
	if model.Chance(t, 20) {
		split = model.Int(t, 0, n, "split")
		c.Flag = true
	}
	for i := 0; i < split; i++ {
		c.Xs = append(c.Xs, arg(i))
	}
	if c.Flag {
		tup := &model.Expr{K: "tuple"}
		for i := split; i < n; i++ {
			tup.Xs = append(tup.Xs, arg(i))
		}
		c.Xs = append(c.Xs, tup)
	}
	return c
}

func (c ufCase) body() *model.Body {
	b := &model.Body{}
	for _, d := range c.Defs {
		it := &model.Item{Name: c.Type, Labels: []string{d.Name}, Body: &model.Body{}}
		add := func(x *model.Item) { it.Body.Items = append(it.Body.Items, x) }
		params := &model.Expr{K: "tuple"}
		for _, p := range d.Params {
			params.Xs = append(params.Xs, &model.Expr{K: "var", S: p.Name})
		}
		path := &model.Expr{K: "attr", S: "b", Xs: []*model.Expr{{K: "var", S: "a"}}}
		pitem := &model.Item{Name: "params", X: params, Static: true, Words: true}
		vr := ""
		if d.Var != nil {
			vr = d.Var.Name
		}
		vitem := &model.Item{Name: "variadic_param", X: &model.Expr{K: "var", S: vr}, Static: true}
		result := &model.Item{Name: "result", X: d.Result}
		switch d.Bad {
		case "no params":
			pitem = nil
		case "no result":
			result = nil
		case "params not a list":
			pitem.X = &model.Expr{K: "var", S: "x"}
		case "params for":
			pitem.X = &model.Expr{K: "for", S: "tuple", VV: "v", Xs: []*model.Expr{{K: "var", S: "l"}, {K: "var", S: "v"}}}
		case "param path":
			params.Xs = append(params.Xs, path)
		case "param string":
			params.Xs = append(params.Xs, model.StrLit("a"))
		case "param number":
			params.Xs = append(params.Xs, model.NumLit("1"))
		case "variadic string":
			vr, vitem.X = "v", model.StrLit("a")
		case "variadic path":
			vr, vitem.X = "v", path
		case "no label":
			it.Labels = nil
		case "two labels":
			it.Labels = append(it.Labels, "more")
		}
		if pitem != nil {
			add(pitem)
		}
		if vr != "" {
			add(vitem)
		}
		if result != nil {
			add(result)
		}
		switch d.Bad {
		case "extra argument":
			add(&model.Item{Name: "description", X: model.NumLit("1")})
		case "extra block":
			add(&model.Item{Name: "blk", Body: &model.Body{}})
		}
		b.Items = append(b.Items, it)
	}
	for i := 0; i < c.Rest; i++ {
		it := &model.Item{Name: fmt.Sprintf("a%d", i), X: model.NumLit(fmt.Sprint(i + 1))}
		if i == 2 {
			it = &model.Item{Name: "other", Body: &model.Body{Items: []*model.Item{{Name: "a0", X: model.NumLit("7")}}}}
		}
		at := len(b.Items)
		if len(c.Order) > 0 {
			at = int(c.Order[i%len(c.Order)]) % (len(b.Items) + 1)
		}
		b.Items = append(b.Items[:at], append([]*model.Item{it}, b.Items[at:]...)...)
	}
	return b
}

func checkUserFunc(c ufCase, r *engine.Rec) error {
	b := c.body()
	var src string
	var f *hcl.File
	var diags hcl.Diagnostics
	if c.JSON {
		src, _ = (&model.JEnc{Lay: c.Lay}).Body(b).Text(c.Lay)
		f, diags = json.Parse([]byte(src), "t.json")
	} else {
		src = b.Native(c.Lay).Src
		f, diags = hclsyntax.ParseConfig([]byte(src), "t.hcl", startPos)
	}
	if diags.HasErrors() {
		return errf("valid source rejected: %s\n%s", diagStr(diags), src)
	}
	vars := c.Scope.Map()
	ctx := &hcl.EvalContext{Variables: vars, Functions: map[string]function.Function{}}
	for n, fn := range ctyFuncs {
		ctx.Functions[n] = fn
	}
	var cf userfunc.ContextFunc
	if c.Ctx {
		cf = func() *hcl.EvalContext { return ctx }
	} else if len(c.Lay)%2 == 1 {
		cf = func() *hcl.EvalContext { return nil }
	}
	funcs, remain, diags := userfunc.DecodeUserFunctions(f.Body, c.Type, cf)
	bad := ""
	ref := map[string]model.Func{}
	env := &model.Env{Vars: vars, Funcs: map[string]model.Func{}}
	for n, fn := range model.StdFuncs() {
		env.Funcs[n] = fn
	}
	for _, d := range c.Defs {
		if d.Bad != "" {
			bad = d.Bad
			r.Label("bad: %s", d.Bad)
			continue
		}
		base := env
		if !c.Ctx {
			base = &model.Env{}
		}
		fn := d.fn(base)
		ref[d.Name] = fn
		env.Funcs[d.Name] = fn
	}
	if err := wellFormed("diagnostics", diags); err != nil {
		return err
	}
	if (bad != "") != diags.HasErrors() {
		return errf("errors %s; malformed definition: %q\n%s", orNone(diags), bad, src)
	}
	for n := range funcs {
		if _, ok := ref[n]; !ok {
			return errf("a function %q is returned, which is not well defined\n%s", n, src)
		}
		ctx.Functions[n] = funcs[n]
	}
	if bad == "" {
		if len(funcs) != len(ref) {
			return errf("%d functions, expected %d\n%s", len(funcs), len(ref), src)
		}
	} else if len(funcs) < len(ref) {
		// Allowed, but the functions cannot be told apart then.
		return nil
	}
	r.Label("context %v", c.Ctx)
	if remain == nil {
		if bad == "" {
			return errf("no remaining body\n%s", src)
		}
	} else {
		content, diags := remain.Content(&hcl.BodySchema{
			Attributes: []hcl.AttributeSchema{{Name: "a0"}, {Name: "a1"}},
			Blocks:     []hcl.BlockHeaderSchema{{Type: "other"}},
		})
		if diags.HasErrors() && bad == "" {
			return errf("decoding the remaining body: %s\n%s", diagStr(diags), src)
		}
		for i := 0; i < 2; i++ {
			a := content.Attributes[fmt.Sprintf("a%d", i)]
			if (a != nil) != (i < c.Rest) || a != nil && numOf(a) != fmt.Sprint(i+1) {
				return errf("attribute a%d of the remaining body is wrong\n%s", i, src)
			}
		}
		if (len(content.Blocks) == 1) != (c.Rest > 2) {
			return errf("the remaining body has %d blocks\n%s", len(content.Blocks), src)
		}
	}
	var show []string
	done := 0
	for _, call := range c.Calls {
		text := call.X.NativeInline(nil)
		show = append(show, text)
		want, werr := call.X.Eval(env)
		expr, err := parseAttrExpr(text)
		if err != nil {
			return errf("%w\n%s", err, text)
		}
		got, gdiags := expr.Value(ctx)
		if err := sameOutcome(text, got, gdiags, want, werr); err != nil {
			return errf("%w\n%s\nwith %s", err, src, vstr(cty.ObjectVal(vars)))
		}
		if werr == nil {
			done++
			r.Label("call succeeds")
		} else {
			r.Label("call fails or is undecided")
		}
		if werr == nil && !call.X.Flag && call.Unknown < len(call.X.Xs) {
			if err := ufUnknown(call, env, ctx.Functions[call.X.S], want); err != nil {
				return errf("%w\n%s\n%s", err, text, src)
			}
		}
	}
	r.Sample(src + "\n-- " + strings.Join(show, "; "))
	r.NonTrivialIf(done > 0)
	return nil
}

// ufUnknown calls a function with one argument unknown: the result must allow
// for the one with the argument known.
func ufUnknown(call ufCall, env *model.Env, f function.Function, want cty.Value) error {
	var args []cty.Value
	for i, x := range call.X.Xs {
		v, err := x.Eval(env)
		if err != nil {
			return nil
		}
		if i == call.Unknown {
			v = cty.UnknownVal(v.Type())
		}
		args = append(args, v)
	}
	got, err := f.Call(args)
	if err != nil {
		return nil
	}
	if got.IsWhollyKnown() && !model.SameValue(got, want) {
		return errf("with argument %d unknown the result is %s, with it known %s", call.Unknown, vstr(got), vstr(want))
	}
	return nil
}

// fn is the reference for a definition.
func (d ufDef) fn(base *model.Env) model.Func {
	f := model.Func{Null: true, Var: cty.NilType}
	for range d.Params {
		f.Params = append(f.Params, cty.DynamicPseudoType)
	}
	if d.Var != nil {
		f.Var = cty.DynamicPseudoType
	}
	f.Impl = func(args []cty.Value) (cty.Value, error) {
		vars := map[string]cty.Value{}
		for i, a := range args {
			if a.IsNull() {
				return cty.NilVal, model.ErrUndetermined
			}
			if i < len(d.Params) {
				vars[d.Params[i].Name] = a
			}
		}
		if d.Var != nil {
			vars[d.Var.Name] = cty.TupleVal(args[len(d.Params):])
		}
		return d.Result.Eval(&model.Env{Vars: vars, Parent: base})
	}
	return f
}

func init() {
	engine.Add("C34", "functions", "a call of a user function that succeeds", 120000, genUfCase, checkUserFunc)
}
