package props

import (
	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// tyNames are attribute names, some of them words with a meaning elsewhere.
var tyNames = []string{"a", "b", "name", "string", "list", "object", "any", "for", "if", "in", "true", "false", "null", "endfor",
	"with-dash", "_u", "été", "日本", "zz", "A", "a1", "else", "number", "x--y", "dash-", "á", "कि"}

type tyCase struct {
	Ty   *model.Ty   `json:"ty,omitempty"`
	X    *model.Expr `json:"x,omitempty"`
	Lay  []byte      `json:"lay,omitempty"`
	JSON bool        `json:"json,omitempty"`
	J    *model.J    `json:"j,omitempty"` // not a string
}

func genTyNames(t *rapid.T, depth int) model.Ty {
	switch k := model.Pick(t, []string{"str", "num", "bool", "dyn", "list", "set", "map", "tuple", "obj", "obj"}); {
	case k == "str" || k == "num" || k == "bool" || k == "dyn" || depth == 0:
		if depth == 0 {
			k = model.Pick(t, []string{"str", "num", "bool", "dyn"})
		}
		return model.Ty{K: k}
	case k == "tuple" || k == "obj":
		ty := model.Ty{K: k}
		n := model.Count(t, 0, 4)
		if k == "obj" {
			ty.Names = model.Subset(t, tyNames, 5)
			n = len(ty.Names)
			if n == 1 && ty.Names[0] == "for" {
				ty.Names[0] = "fo" // cannot be written
			}
		}
		for i := 0; i < n; i++ {
			ty.Elems = append(ty.Elems, genTyNames(t, depth-1))
		}
		return ty
	default:
		e := genTyNames(t, depth-1)
		return model.Ty{K: k, E: &e}
	}
}

var tyKeywords = map[string]string{"str": "string", "num": "number", "bool": "bool", "dyn": "any"}

// tyExpr writes a type as an expression.
func tyExpr(ty model.Ty) *model.Expr {
	switch ty.K {
	case "list", "set", "map":
		return &model.Expr{K: "call", S: ty.K, Xs: []*model.Expr{tyExpr(*ty.E)}}
	case "tuple":
		l := &model.Expr{K: "tuple"}
		for _, e := range ty.Elems {
			l.Xs = append(l.Xs, tyExpr(e))
		}
		return &model.Expr{K: "call", S: "tuple", Xs: []*model.Expr{l}}
	case "obj":
		o := &model.Expr{K: "obj"}
		for i, n := range ty.Names {
			o.Keys = append(o.Keys, model.ObjKey{K: "id", S: n})
			o.Xs = append(o.Xs, tyExpr(ty.Elems[i]))
		}
		if len(o.Keys) > 1 && o.Keys[0].S == "for" {
			o.Keys[0], o.Keys[1] = o.Keys[1], o.Keys[0]
			o.Xs[0], o.Xs[1] = o.Xs[1], o.Xs[0]
		}
		return &model.Expr{K: "call", S: "object", Xs: []*model.Expr{o}}
	}
	return &model.Expr{K: "var", S: tyKeywords[ty.K]}
}

// refTy reads a type expression as documented.
func refTy(e *model.Expr, constraint bool) (cty.Type, bool) {
	switch e.K {
	case "var":
		switch e.S {
		case "string":
			return cty.String, true
		case "number":
			return cty.Number, true
		case "bool":
			return cty.Bool, true
		case "any":
			return cty.DynamicPseudoType, constraint
		}
	case "call":
		if len(e.Xs) != 1 || e.Flag {
			break
		}
		arg := e.Xs[0]
		switch e.S {
		case "list", "set", "map":
			el, ok := refTy(arg, constraint)
			if !ok {
				break
			}
			switch e.S {
			case "list":
				return cty.List(el), true
			case "set":
				return cty.Set(el), true
			}
			return cty.Map(el), true
		case "tuple":
			if arg.K != "tuple" {
				break
			}
			els := []cty.Type{}
			for _, x := range arg.Xs {
				el, ok := refTy(x, constraint)
				if !ok {
					return cty.Type{}, false
				}
				els = append(els, el)
			}
			return cty.Tuple(els), true
		case "object":
			if arg.K != "obj" {
				break
			}
			ats := map[string]cty.Type{}
			for i, x := range arg.Xs {
				el, ok := refTy(x, constraint)
				if !ok || arg.Keys[i].K != "id" {
					return cty.Type{}, false
				}
				ats[arg.Keys[i].S] = el
			}
			return cty.Object(ats), true
		}
	}
	return cty.Type{}, false
}

// damageTy replaces a part of a type expression by something similar.
func damageTy(t *rapid.T, e *model.Expr) *model.Expr {
	if n := len(e.Xs); n > 0 && model.Chance(t, 65) {
		i := model.Int(t, 0, n-1, "child")
		cp := *e
		cp.Xs = append([]*model.Expr(nil), e.Xs...)
		cp.Xs[i] = damageTy(t, e.Xs[i])
		return &cp
	}
	call := func(name string, xs ...*model.Expr) *model.Expr { return &model.Expr{K: "call", S: name, Xs: xs} }
	name := func(s string) *model.Expr { return &model.Expr{K: "var", S: s} }
	ctor := model.Pick(t, []string{"list", "set", "map", "tuple", "object"})
	kind := model.Int(t, 0, 24, "damage")
	if e.K == "obj" && model.Chance(t, 40) {
		kind = 23
	}
	switch kind {
	case 0:
		return name(model.Pick(t, []string{"str", "String", "int", "boolean", "strings", "lists", "foo", "dynamic", "string1"}))
	case 1:
		return &model.Expr{K: "bool", S: "true"}
	case 2:
		return &model.Expr{K: "null"}
	case 3:
		return name(ctor)
	case 4:
		return call(ctor)
	case 5:
		return call(ctor, e, e)
	case 6:
		return call(model.Pick(t, []string{"string", "bool", "number", "any"}))
	case 7:
		return call(model.Pick(t, []string{"string", "bool", "number", "any"}), e)
	case 8:
		return call(model.Pick(t, []string{"tuple", "object"}), e)
	case 9:
		return call(model.Pick(t, []string{"foo", "List", "objects", "vector", "optional"}), e)
	case 10:
		return call(model.Pick(t, []string{"foo", "optional"}))
	case 11:
		return call(model.Pick(t, []string{"list", "set", "map", "object"}), &model.Expr{K: "tuple", Xs: []*model.Expr{e}})
	case 12:
		return call(model.Pick(t, []string{"list", "set", "map", "tuple"}), &model.Expr{K: "obj", Keys: []model.ObjKey{{K: "id", S: "a"}}, Xs: []*model.Expr{e}})
	case 13:
		cp := *e
		if cp.K == "call" && len(cp.Xs) > 0 {
			cp.Flag = true
			return &cp
		}
		return model.StrLit("string")
	case 14:
		return model.StrLit(model.Pick(t, []string{"string", "any", "list(string)", ""}))
	case 15:
		return model.NumLit("1")
	case 16:
		return &model.Expr{K: "attr", S: "string", Xs: []*model.Expr{e}}
	case 17:
		return &model.Expr{K: "idx", Xs: []*model.Expr{e, model.NumLit("0")}}
	case 18:
		return &model.Expr{K: "un", S: model.Pick(t, []string{"!", "-"}), Xs: []*model.Expr{e}}
	case 19:
		return &model.Expr{K: "bin", S: model.Pick(t, []string{"==", "||", "+"}), Xs: []*model.Expr{e, e}}
	case 20:
		return &model.Expr{K: "cond", Xs: []*model.Expr{{K: "bool", S: "true"}, e, e}}
	case 21:
		return &model.Expr{K: "tuple", Xs: []*model.Expr{e}}
	case 22:
		return &model.Expr{K: "obj", Keys: []model.ObjKey{{K: "id", S: "a"}}, Xs: []*model.Expr{e}}
	case 23:
		key := model.Pick(t, []model.ObjKey{
			{K: "x", X: model.StrLit("a")},
			{K: "x", X: model.NumLit("1")},
			{K: "x", X: &model.Expr{K: "attr", S: "b", Xs: []*model.Expr{name("a")}}},
			{K: "p", X: model.StrLit("a")},
			{K: "x", X: &model.Expr{K: "tmpl", T: &model.Tmpl{Style: "quoted", Parts: []model.Part{{K: "interp", X: name("a")}}}}},
			{K: "x", X: call("a")},
		})
		if e.K == "obj" && len(e.Keys) > 0 {
			cp := *e
			cp.Keys = append([]model.ObjKey(nil), e.Keys...)
			cp.Keys[model.Int(t, 0, len(e.Keys)-1, "key")] = key
			return &cp
		}
		return call("object", &model.Expr{K: "obj", Keys: []model.ObjKey{key}, Xs: []*model.Expr{e}})
	default:
		kind := model.Pick(t, []string{"tuple", "obj"})
		f := &model.Expr{K: "for", S: kind, VV: "v", Xs: []*model.Expr{name("x"), e}}
		if kind == "obj" {
			f.Key = name("v")
		}
		return call(map[string]string{"tuple": "tuple", "obj": "object"}[kind], f)
	}
}

// tyExpression parses an expression in native or JSON syntax.
func (c tyCase) parse() (hcl.Expression, string, error) {
	if c.JSON || c.J != nil {
		j := c.J
		if j == nil {
			j = model.JStr(c.X.NativeInline(c.Lay))
		}
		src, _ := (&model.J{K: "obj", Keys: []string{"type"}, L: []*model.J{j}}).Text(c.Lay)
		f, diags := json.Parse([]byte(src), "t.json")
		if diags.HasErrors() {
			return nil, src, errf("valid JSON rejected: %s", diagStr(diags))
		}
		attrs, diags := f.Body.JustAttributes()
		if diags.HasErrors() || attrs["type"] == nil {
			return nil, src, errf("no attribute: %s", orNone(diags))
		}
		return attrs["type"].Expr, src, nil
	}
	src := c.X.NativeInline(c.Lay)
	expr, err := parseAttrExpr(src)
	return expr, src, err
}

func checkTyExpr(c tyCase, r *engine.Rec) error {
	expr, src, err := c.parse()
	if err != nil {
		return errf("%w\n%s", err, src)
	}
	r.Sample(src)
	for _, constraint := range []bool{false, true} {
		var diags hcl.Diagnostics
		var ty cty.Type
		if constraint {
			ty, diags = typeexpr.TypeConstraint(expr)
		} else {
			ty, diags = typeexpr.Type(expr)
		}
		var want cty.Type
		ok := false
		if c.X != nil {
			want, ok = refTy(c.X, constraint)
		}
		if err := wellFormed("diagnostics", diags); err != nil {
			return err
		}
		if ok == diags.HasErrors() {
			return errf("constraint %v: accepted should be %v but reports %s\n%s", constraint, ok, orNone(diags), src)
		}
		if constraint {
			r.Label("valid %v", ok)
		}
		if !ok {
			for _, d := range diags {
				if d.Subject == nil {
					return errf("an error without a source range: %s\n%s", diagStr(diags), src)
				}
			}
			continue
		}
		if !ty.Equals(want) {
			return errf("type is %#v, expected %#v\n%s", ty, want, src)
		}
	}
	if c.X != nil {
		r.NonTrivialIf(c.X.Size() >= 3)
	} else {
		r.NonTrivial()
	}
	return nil
}

func checkTyPrint(c tyCase, r *engine.Rec) error {
	ty := c.Ty.Cty()
	s := typeexpr.TypeString(ty)
	r.Sample(s)
	r.NonTrivialIf(len(s) > 10)
	native, diags := hclsyntax.ParseExpression([]byte(s), "t.hcl", startPos)
	if diags.HasErrors() {
		return errf("the printed form of %#v does not parse: %s\n%s", ty, diagStr(diags), s)
	}
	src, _ := (&model.J{K: "obj", Keys: []string{"type"}, L: []*model.J{model.JStr(s)}}).Text(nil)
	f, diags := json.Parse([]byte(src), "t.json")
	if diags.HasErrors() {
		return errf("valid JSON rejected: %s\n%s", diagStr(diags), src)
	}
	attrs, _ := f.Body.JustAttributes()
	for _, expr := range []hcl.Expression{native, attrs["type"].Expr} {
		got, diags := typeexpr.TypeConstraint(expr)
		if diags.HasErrors() {
			return errf("the printed form of %#v is not accepted: %s\n%s", ty, diagStr(diags), s)
		}
		if !got.Equals(ty) {
			return errf("printing %#v and reading it back gives %#v\n%s", ty, got, s)
		}
	}
	return nil
}

func init() {
	engine.Add("C33", "print", "a printed form of more than ten bytes", 400000,
		func(t *rapid.T) tyCase {
			ty := genTyNames(t, 5)
			return tyCase{Ty: &ty}
		}, checkTyPrint)
	engine.Add("C33", "parse", "at least three nodes", 600000,
		func(t *rapid.T) tyCase {
			c := tyCase{Lay: lay(t), JSON: model.Chance(t, 40)}
			if model.Chance(t, 3) {
				c.J = model.GenJ(t, func(t *rapid.T) string { return "k" }, 2)
				if c.J.K == "str" {
					c.J = &model.J{K: "null"}
				}
				return c
			}
			c.X = tyExpr(genTyNames(t, model.Int(t, 0, 4, "depth")))
			for n := model.Weighted(t, 4, 4, 1); n > 0; n-- {
				c.X = damageTy(t, c.X)
			}
			return c
		}, checkTyExpr)
}
