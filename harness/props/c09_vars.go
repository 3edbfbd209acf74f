package props

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

func travStr(tr hcl.Traversal) string {
	var b strings.Builder
	for _, s := range tr {
		switch s := s.(type) {
		case hcl.TraverseRoot:
			b.WriteString(s.Name)
		case hcl.TraverseAttr:
			b.WriteString("." + s.Name)
		case hcl.TraverseIndex:
			b.WriteString("[" + vstr(s.Key) + "]")
		default:
			fmt.Fprintf(&b, "<%T>", s)
		}
	}
	return b.String()
}

func freeStr(f model.FreePath) string {
	s := f.Root
	for _, st := range f.Steps {
		if st.Key != nil {
			s += "[" + vstr(*st.Key) + "]"
		} else {
			s += "." + st.Attr
		}
	}
	return s
}

// matches says whether a reported traversal denotes a free reference.
func matches(tr hcl.Traversal, f model.FreePath) bool {
	if tr.IsRelative() || tr.RootName() != f.Root {
		return false
	}
	n := len(tr) - 1
	if n < f.Min || n > len(f.Steps) {
		return false
	}
	for i, st := range tr[1:] {
		w := f.Steps[i]
		switch st := st.(type) {
		case hcl.TraverseAttr:
			if w.Key != nil || w.Attr != st.Name {
				return false
			}
		case hcl.TraverseIndex:
			if w.Key == nil || !w.Key.RawEquals(st.Key) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func compareVars(got []hcl.Traversal, want []model.FreePath) error {
	for _, w := range want {
		ok := false
		for _, g := range got {
			ok = ok || matches(g, w)
		}
		if !ok {
			return errf("reference %s is not reported", freeStr(w))
		}
	}
	for _, g := range got {
		ok := false
		for _, w := range want {
			ok = ok || matches(g, w)
		}
		if !ok {
			return errf("%s is reported but is not a reference", travStr(g))
		}
	}
	return nil
}

// restricted evaluates with only the reported roots and with a larger scope.
func restricted(e hcl.Expression, vars map[string]cty.Value) error {
	small, large := map[string]cty.Value{}, map[string]cty.Value{}
	for _, tr := range e.Variables() {
		if v, ok := vars[tr.RootName()]; ok {
			small[tr.RootName()] = v
		}
	}
	for n, v := range vars {
		large[n] = v
	}
	for _, n := range []string{"k", "v", "w", "x", "foo", "bar", "item", "each"} {
		if _, ok := vars[n]; !ok {
			reported := false
			for _, tr := range e.Variables() {
				reported = reported || tr.RootName() == n
			}
			if !reported {
				large[n] = cty.StringVal("extra")
			}
		}
	}
	v1, d1 := e.Value(evalCtx(vars))
	for name, m := range map[string]map[string]cty.Value{"only the reported variables": small, "extra variables": large} {
		v2, d2 := e.Value(evalCtx(m))
		if d1.HasErrors() != d2.HasErrors() {
			return errf("evaluation with %s: errors %s; with the full scope: %s", name, diagStr(d2), diagStr(d1))
		}
		if !d1.HasErrors() && !v1.RawEquals(v2) {
			return errf("evaluation with %s gives %s; with the full scope %s", name, vstr(v2), vstr(v1))
		}
	}
	return nil
}

type varCase struct {
	Scope model.Scope `json:"scope"`
	Expr  *model.Expr `json:"expr,omitempty"`
	Tmpl  *model.Tmpl `json:"tmpl,omitempty"`
	Lay   []byte      `json:"lay,omitempty"`
}

func varLabels(r *engine.Rec, want []model.FreePath) {
	r.NonTrivialIf(len(want) >= 2)
	switch {
	case len(want) == 0:
		r.Label("no references")
	case len(want) == 1:
		r.Label("one reference")
	default:
		r.Label("several references")
	}
	for _, w := range want {
		if len(w.Steps) > 0 {
			r.Label("with path")
			break
		}
	}
}

func parseJSONAttr(src string) (hcl.Expression, error) {
	f, diags := json.Parse([]byte(src), "t.json")
	if diags.HasErrors() {
		return nil, errf("valid JSON rejected: %s", diagStr(diags))
	}
	attrs, diags := f.Body.JustAttributes()
	if diags.HasErrors() {
		return nil, errf("attributes: %s", diagStr(diags))
	}
	a := attrs["a"]
	if a == nil || len(attrs) != 1 {
		return nil, errf("attribute missing")
	}
	return a.Expr, nil
}

func init() {
	rule := "at least two free references"
	genX := func(t *rapid.T) varCase {
		c := varCase{Scope: model.GenScopeN(t, genScopeOpts(), 2)}
		g := model.NewGen(t, c.Scope, 6)
		g.Refs = true
		c.Expr = g.Expr("any", model.Int(t, 1, 4, "depth"))
		c.Lay = lay(t)
		return c
	}
	engine.Add("C09", "native", rule, 100000, genX,
		func(c varCase, r *engine.Rec) error {
			src := c.Expr.Native(c.Lay)
			r.Sample(src)
			e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", startPos)
			if diags.HasErrors() {
				return errf("valid expression rejected: %s\n%s", diagStr(diags), src)
			}
			want := c.Expr.Free()
			varLabels(r, want)
			if err := compareVars(e.Variables(), want); err != nil {
				return errf("%s in %s", err, src)
			}
			if err := compareVars(hclsyntax.Variables(e), want); err != nil {
				return errf("%s in %s", err, src)
			}
			if err := restricted(e, c.Scope.Map()); err != nil {
				return errf("%s: %s", src, err)
			}
			return nil
		})
	engine.Add("C09", "template", rule, 50000,
		func(t *rapid.T) varCase {
			c := varCase{Scope: model.GenScopeN(t, genScopeOpts(), 2)}
			g := model.NewGen(t, c.Scope, 6)
			g.Refs = true
			c.Tmpl = g.Tmpl("bare", model.Int(t, 1, 3, "depth"))
			return c
		},
		func(c varCase, r *engine.Rec) error {
			src := c.Tmpl.Bare(nil)
			r.Sample(src)
			e, diags := hclsyntax.ParseTemplate([]byte(src), "t.hcl", startPos)
			if diags.HasErrors() {
				return errf("valid template rejected: %s\n%s", diagStr(diags), src)
			}
			want := c.Tmpl.Free()
			varLabels(r, want)
			if err := compareVars(e.Variables(), want); err != nil {
				return errf("%s in %s", err, src)
			}
			if err := restricted(e, c.Scope.Map()); err != nil {
				return errf("%s: %s", src, err)
			}
			return nil
		})
	engine.Add("C09", "json", rule, 100000, genX,
		func(c varCase, r *engine.Rec) error {
			j := &model.J{K: "obj", Keys: []string{"a"}}
			j.L = []*model.J{(&model.JEnc{Lay: c.Lay}).Expr(c.Expr)}
			src, _ := j.Text(c.Lay)
			r.Sample(src)
			e, err := parseJSONAttr(src)
			if err != nil {
				return errf("%s\n%s", err, src)
			}
			want := c.Expr.Free()
			varLabels(r, want)
			if err := compareVars(e.Variables(), want); err != nil {
				return errf("%s in %s", err, src)
			}
			if err := restricted(e, c.Scope.Map()); err != nil {
				return errf("%s: %s", src, err)
			}
			return nil
		})
	engine.Add("C09", "json value", rule, 80000,
		func(t *rapid.T) jxCase {
			c := jxCase{Scope: model.GenScopeN(t, genScopeOpts(), 2)}
			g := model.NewGen(t, c.Scope, 4)
			g.Refs = true
			c.X = g.JX(model.Int(t, 1, 3, "depth"))
			c.Lay = lay(t)
			return c
		},
		func(c jxCase, r *engine.Rec) error {
			src, _ := (&model.J{K: "obj", Keys: []string{"a"}, L: []*model.J{c.X.J()}}).Text(c.Lay)
			r.Sample(src)
			e, err := parseJSONAttr(src)
			if err != nil {
				return errf("%s\n%s", err, src)
			}
			want := c.X.Free()
			varLabels(r, want)
			if err := compareVars(e.Variables(), want); err != nil {
				return errf("%s in %s", err, src)
			}
			if err := restricted(e, c.Scope.Map()); err != nil {
				return errf("%s: %s", src, err)
			}
			return nil
		})
}
