package props

import (
	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"

	"verif/engine"
	"verif/model"
)

// dynFree collects the references of a body under a specification.
type dynFree struct {
	expand  []model.FreePath // needed for the expansion
	content []model.FreePath // needed for the decoding only
	maybe   []model.FreePath // in dynamic blocks outside of the specification
	bound   int              // references to iterators
	odd     bool             // in a malformed block, where it is not decided
}

func (d *dynFree) add(to *[]model.FreePath, e *model.Expr, bound map[string]bool) {
	if d.odd {
		to = &d.maybe
	}
	for _, f := range e.Free() {
		if bound[f.Root] {
			d.bound++
			continue
		}
		*to = append(*to, f)
	}
}

func (d *dynFree) walk(s *model.Spec, b *model.Body, bound map[string]bool) {
	attrs := map[string]bool{}
	blocks := map[string]*model.Spec{}
	s.Same(func(x *model.Spec) {
		switch {
		case x.K == "attr":
			attrs[x.Name] = true
		case x.K == "expr":
			d.add(&d.content, x.X, nil)
		case x.IsBlock():
			blocks[x.Name] = x
		}
	})
	for _, it := range b.Items {
		if it.IsAttr() {
			if attrs[it.Name] {
				d.add(&d.content, it.X, bound)
			}
			continue
		}
		odd, x := d.odd, blocks[it.Name]
		labels := len(it.Labels)
		if it.Gen != nil {
			labels = len(it.Gen.Labels)
		}
		d.odd = odd || it.Gen != nil && it.Gen.Form != "" || x != nil && labels != x.BlockLabels()
		d.block(x, it, bound)
		d.odd = odd
	}
}

func (d *dynFree) block(x *model.Spec, it *model.Item, bound map[string]bool) {
	inner := bound
	if g := it.Gen; g != nil {
		inner = map[string]bool{it.IterName(): true}
		for n := range bound {
			inner[n] = true
		}
		to := &d.expand
		if x == nil {
			to = &d.maybe
		}
		d.add(to, g.Each, bound)
		for _, l := range g.Labels {
			d.add(to, l, inner)
		}
	}
	if x == nil {
		return
	}
	if x.K == "attrs" {
		for _, a := range it.Body.Items {
			if a.IsAttr() {
				d.add(&d.content, a.X, inner)
			}
		}
		return
	}
	d.walk(x.Nested(), it.Body, inner)
}

// compareSome compares the reported references with the expected ones, where
// some more are allowed, and if part is set not all are required.
func compareSome(got []hcl.Traversal, want, maybe []model.FreePath, part bool) error {
	var rest []hcl.Traversal
	for _, g := range got {
		ok := false
		for _, m := range maybe {
			ok = ok || matches(g, m)
		}
		for _, w := range want {
			ok = ok && !matches(g, w)
		}
		if !ok {
			rest = append(rest, g)
		}
	}
	if part {
		var have []model.FreePath
		for _, w := range want {
			for _, g := range rest {
				if matches(g, w) {
					have = append(have, w)
					break
				}
			}
		}
		want = have
	}
	return compareVars(rest, want)
}

func onlyVars(all map[string]cty.Value, vars []hcl.Traversal) map[string]cty.Value {
	m := map[string]cty.Value{}
	for _, tr := range vars {
		if v, ok := all[tr.RootName()]; ok {
			m[tr.RootName()] = v
		}
	}
	return m
}

func checkDynVars(c specCase, r *engine.Rec) error {
	spec, err := toSpec(c.Spec)
	if err != nil {
		return err
	}
	raw := c.raw()
	body, err := raw.body()
	if err != nil {
		return err
	}
	ref := newDynRef(c.Scope)
	ref.expand(c.Body, nil, false, 0)
	ref.label(r)
	d := &dynFree{}
	d.walk(c.Spec, c.Body, nil)
	r.Label("form %s", c.Form)
	r.NonTrivialIf(len(d.expand) > 0 && d.bound > 0)
	r.Sample(specStr(c.Spec) + "\n" + raw.text())

	all := c.Scope.Map()
	ctx := evalCtx(all)
	want, wd, p := guarded(func() (cty.Value, hcl.Diagnostics) { return hcldec.Decode(dynblock.Expand(body, ctx), spec, ctx) })
	if p != nil {
		r.Label("panic in decoding")
		return nil
	}
	need := dynblock.ExpandVariablesHCLDec(body, spec)
	if err := compareSome(need, d.expand, d.maybe, wd.HasErrors()); err != nil {
		return errf("references for expansion: %w", err)
	}
	vars := dynblock.VariablesHCLDec(body, spec)
	if err := compareSome(vars, append(append([]model.FreePath(nil), d.expand...), d.content...), d.maybe, wd.HasErrors()); err != nil {
		return errf("references for decoding: %w", err)
	}
	same := func(what string, ectx, dctx *hcl.EvalContext) error {
		got, gd := hcldec.Decode(dynblock.Expand(body, ectx), spec, dctx)
		if gd.HasErrors() != wd.HasErrors() {
			return errf("%s: errors %s; with all variables: %s", what, orNone(gd), orNone(wd))
		}
		if !wd.HasErrors() && !got.RawEquals(want) {
			return errf("%s: decoded %s; with all variables %s", what, vstr(got), vstr(want))
		}
		return nil
	}
	if err := same("expansion with the reported variables only", evalCtx(onlyVars(all, need)), ctx); err != nil {
		return err
	}
	small := evalCtx(onlyVars(all, vars))
	return same("decoding with the reported variables only", small, small)
}

func init() {
	engine.Add("C30", "specs", "a dynamic block with a reference to the outside and a reference to an iterator", 150000, genDynSpecCase(10, 10), checkDynVars)
}
