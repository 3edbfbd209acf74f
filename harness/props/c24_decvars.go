package props

import (
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"

	"verif/engine"
	"verif/model"
)

// wantRange is the source range of what supplies a specification.
func wantRange(s *model.Spec, b *hclsyntax.Body, labels []hcl.Range) (hcl.Range, bool) {
	first := func() *hclsyntax.Block {
		for _, bl := range b.Blocks {
			if bl.Type == s.Name {
				return bl
			}
		}
		return nil
	}
	switch s.K {
	case "obj", "tuple":
		return b.MissingItemRange(), true
	case "attr":
		if a := b.Attributes[s.Name]; a != nil {
			return a.Expr.Range(), true
		}
		return b.MissingItemRange(), true
	case "label":
		return labels[s.Index], true
	case "default", "texpr", "tfunc":
		return wantRange(s.Subs[0], b, labels)
	case "attrs":
		if bl := first(); bl != nil {
			return bl.AsHCLBlock().DefRange, true
		}
		return b.MissingItemRange(), true
	case "block", "list", "set", "btuple", "map", "bobj":
		bl := first()
		if bl == nil {
			return b.MissingItemRange(), true
		}
		ls := bl.LabelRanges
		if s.K == "map" || s.K == "bobj" {
			ls = ls[len(s.Names):]
		}
		return wantRange(s.Nested(), bl.Body, ls)
	}
	return hcl.Range{}, false
}

func checkSpecVars(c specCase, r *engine.Rec) (err error) {
	spec, err := toSpec(c.Spec)
	if err != nil {
		return err
	}
	body, err := c.body()
	if err != nil {
		return err
	}
	want, ref := c.Spec.Decode(c.Body, c.Scope.Env(), false)
	c.labels(r, ref)
	r.NonTrivialIf(len(ref.Free) >= 2)
	if len(ref.Errs) > 0 || ref.Undet != nil || ref.EmptyDeep {
		return nil // the references may be incomplete
	}
	vars := hcldec.Variables(body, spec)
	if err := compareVars(vars, ref.Free); err != nil {
		return err
	}
	all := c.Scope.Map()
	small, large := map[string]cty.Value{}, map[string]cty.Value{}
	for n, v := range all {
		large[n] = v
	}
	reported := map[string]bool{}
	for _, tr := range vars {
		reported[tr.RootName()] = true
		if v, ok := all[tr.RootName()]; ok {
			small[tr.RootName()] = v
		}
	}
	for _, n := range []string{"k", "v", "x", "foo", "a", "val", "tc"} {
		if !reported[n] {
			large[n] = cty.StringVal("extra")
		}
	}
	for _, m := range []map[string]cty.Value{small, large} {
		got, diags := hcldec.Decode(body, spec, evalCtx(m))
		if err := sameDecode(got, diags, want, ref); err != nil {
			return errf("in a scope with %v: %w", model.SortedKeys(m), err)
		}
	}
	if c.Form != "native" {
		return nil
	}
	return checkSpecRange(c.Spec, spec, body)
}

// checkSpecRange checks the source ranges of the specification and of its
// parts that apply to the same body.
func checkSpecRange(s *model.Spec, spec hcldec.Spec, body hcl.Body) error {
	nb, ok := body.(*hclsyntax.Body)
	if !ok {
		return errf("body is a %T", body)
	}
	var err error
	s.Same(func(x *model.Spec) {
		if err != nil {
			return
		}
		hasLabel := false
		x.Same(func(y *model.Spec) { hasLabel = hasLabel || y.K == "label" })
		if hasLabel {
			return
		}
		want, ok := wantRange(x, nb, nil)
		if !ok {
			return
		}
		xs, e := toSpec(x)
		if e != nil {
			err = e
			return
		}
		if got := hcldec.SourceRange(body, xs); got != want {
			err = errf("source range of %s is %s, expected %s", specStr(x), got, want)
		}
	})
	return err
}

func init() {
	engine.Add("C24", "references", "at least two references, or three specification nodes and two items", 400000,
		genSpecCase(0, 0, "native", "native", "native", "json", "pack", "merge"), checkSpecVars)
}
