package props

import (
	"github.com/hashicorp/hcl2/hcl"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type mergeCase struct {
	Parts   []*impl      `json:"parts"`
	Nest    []int        `json:"nest,omitempty"` // sizes of inner merges, in order
	Files   bool         `json:"files,omitempty"`
	Schema  model.Schema `json:"schema"`
	Partial bool         `json:"partial,omitempty"`
	Rest    model.Schema `json:"rest,omitempty"` // applied to what remains
}

// mergeAs merges the bodies, grouping some neighbours into inner merges.
func mergeAs(bodies []hcl.Body, nest []int, files bool) hcl.Body {
	var top []hcl.Body
	for len(bodies) > 0 {
		n := 0
		if len(nest) > 0 {
			n, nest = nest[0], nest[1:]
		}
		if n > len(bodies) {
			n = len(bodies)
		}
		switch n {
		case 0:
			top = append(top, bodies[0])
			bodies = bodies[1:]
		default:
			top = append(top, hcl.MergeBodies(bodies[:n]))
			bodies = bodies[n:]
		}
		if n == 2 {
			top = append(top, hcl.EmptyBody())
		}
	}
	if files {
		var fs []*hcl.File
		for _, b := range top {
			fs = append(fs, &hcl.File{Body: b})
		}
		return hcl.MergeFiles(fs)
	}
	return hcl.MergeBodies(top)
}

func checkMerged(c mergeCase, r *engine.Rec) error {
	desc := func() string { return (&impl{Kind: "merge", Sub: c.Parts}).String() }
	r.Sample(desc())
	var bodies []hcl.Body
	for _, p := range c.Parts {
		b, err := p.build()
		if err != nil {
			return err
		}
		bodies = append(bodies, b)
	}
	m := mergeAs(bodies, c.Nest, c.Files)
	// The reference: apply the relaxed schema to every part on its own.
	relaxed := model.Schema{Blocks: c.Schema.Blocks}
	for _, a := range c.Schema.Attrs {
		relaxed.Attrs = append(relaxed.Attrs, model.SAttr{Name: a.Name})
	}
	found := map[string]map[string]bool{}
	var blocks []*model.Item
	bad := false
	nonEmpty := 0
	var hidden []*model.Hidden
	for _, p := range c.Parts {
		items := p.items()
		if len(items) > 0 {
			nonEmpty++
		}
		h := model.NewHidden()
		ref := (&model.Body{Items: items}).Apply(relaxed, c.Partial, h)
		hidden = append(hidden, h)
		bad = bad || len(ref.Errs) > 0
		for n, it := range ref.Attrs {
			if found[n] == nil {
				found[n] = map[string]bool{}
			} else {
				bad = true
				r.Label("attribute in two parts")
			}
			found[n][it.X.S] = true
		}
		blocks = append(blocks, ref.Blocks...)
	}
	for _, a := range c.Schema.Attrs {
		if a.Req && found[a.Name] == nil {
			bad = true
			r.Label("required attribute missing")
		} else if a.Req {
			r.Label("required attribute present")
		}
	}
	r.NonTrivialIf(nonEmpty >= 2 && len(found)+len(blocks) >= 2)
	hs := toSchema(c.Schema)
	var content *hcl.BodyContent
	var diags hcl.Diagnostics
	var remain hcl.Body
	if c.Partial {
		content, remain, diags = m.PartialContent(hs)
	} else {
		content, diags = m.Content(hs)
	}
	if err := shaped("diagnostics", diags); err != nil {
		return err
	}
	if diags.HasErrors() != bad {
		return errf("merged decode reports %s, expected an error: %v\n%s", orNone(diags), bad, desc())
	}
	if got, want := contentPrint(&hcl.BodyContent{Blocks: content.Blocks}, 3), fingerprint(blocks); got != want {
		return errf("merged decode gives blocks %s, want %s\n%s", got, want, desc())
	}
	if len(content.Attributes) != len(found) {
		return errf("merged decode gives %d attributes, want %d\n%s", len(content.Attributes), len(found), desc())
	}
	for n, ids := range found {
		a := content.Attributes[n]
		if a == nil || a.Name != n || !ids[numOf(a)] {
			return errf("merged decode does not give attribute %s of a part\n%s", n, desc())
		}
	}
	// The schema given is left alone.
	for i, a := range hs.Attributes {
		if a.Required != c.Schema.Attrs[i].Req {
			return errf("the schema was changed")
		}
	}
	if c.Partial {
		// What remains is what no part was asked for, whether or not there
		// were errors.
		names := map[string]bool{}
		var blocks []*model.Item
		for i, p := range c.Parts {
			ref := (&model.Body{Items: p.items()}).Apply(c.Rest, true, hidden[i])
			for n := range ref.Attrs {
				names[n] = true
			}
			blocks = append(blocks, ref.Blocks...)
		}
		rest, _, _ := remain.PartialContent(toSchema(c.Rest))
		if got, want := contentPrint(&hcl.BodyContent{Blocks: rest.Blocks}, 3), fingerprint(blocks); got != want {
			return errf("what remains of the merged body has blocks %s, want %s\n%s", got, want, desc())
		}
		for n := range names {
			if rest.Attributes[n] == nil {
				return errf("attribute %s is missing in what remains of the merged body\n%s", n, desc())
			}
		}
		if len(rest.Attributes) != len(names) {
			return errf("what remains of the merged body has %d attributes, want %d\n%s", len(rest.Attributes), len(names), desc())
		}
		if bad && len(blocks)+len(names) > 0 {
			r.Label("remainder after an error")
		}
	}
	// Attributes-only mode, for parts without blocks or JSON arrays.
	all := map[string]map[string]bool{}
	dup := false
	for _, p := range c.Parts {
		if p.Kind == "json" && (&model.JEnc{Lay: p.Lay}).Body(p.Body).K == "arr" {
			return nil
		}
		seen := map[string]bool{}
		for _, it := range p.items() {
			if !it.IsAttr() {
				if p.Kind == "json" {
					return nil
				}
				dup = true
				continue
			}
			if all[it.Name] == nil {
				all[it.Name] = map[string]bool{}
			} else if !seen[it.Name] {
				dup = true
			}
			seen[it.Name] = true
			all[it.Name][it.X.S] = true
		}
	}
	attrs, diags := m.JustAttributes()
	if err := shaped("diagnostics", diags); err != nil {
		return err
	}
	if diags.HasErrors() != dup || len(attrs) != len(all) {
		return errf("attributes-only merged decode gives %d attributes and %s; want %d, error %v\n%s", len(attrs), orNone(diags), len(all), dup, desc())
	}
	for n, ids := range all {
		if a := attrs[n]; a == nil || a.Name != n || !ids[numOf(a)] {
			return errf("attributes-only merged decode does not give attribute %s of a part\n%s", n, desc())
		}
	}
	r.Label("attributes only")
	return nil
}

func init() {
	engine.Add("C14", "merge", "at least two parts with items, of which the schema names two or more", 240000,
		func(t *rapid.T) mergeCase {
			g := &implGen{t: t, dups: true}
			var c mergeCase
			used := map[string]bool{}
			share := model.Chance(t, 50)
			depth := model.Pick(t, []int{0, 2, 2})
			kinds := []string{"native", "native", "json", "json", "pack", "mock"}
			labels := model.Chance(t, 20) // wrong numbers of labels
			if labels {
				kinds = []string{"native", "native", "pack"}
			}
			parts := model.Weighted(t, 1, 1, 5, 5, 3)
			if model.Chance(t, 3) {
				parts = model.Int(t, 5, 14, "many")
			}
			for ; parts > 0; parts-- {
				if share {
					used = map[string]bool{}
				}
				kind := model.Pick(t, kinds)
				c.Parts = append(c.Parts, &impl{Kind: kind, Lay: lay(t), Body: g.body(depth, false, used, 4)})
			}
			c.Files = model.Chance(t, 30)
			c.Partial = model.Chance(t, 40)
			for i := model.Count(t, 0, 3); i > 0; i-- {
				c.Nest = append(c.Nest, model.Int(t, 0, 3, "inner"))
			}
			c.Schema = genPartSchema(t, model.Pick(t, []int{60, 100, 100}))
			req := model.Pick(t, []int{0, 20})
			for i := range c.Schema.Attrs {
				c.Schema.Attrs[i].Req = model.Chance(t, req)
			}
			for i := range c.Schema.Blocks {
				if labels && model.Chance(t, 25) {
					c.Schema.Blocks[i].Labels += 1 - 2*(c.Schema.Blocks[i].Labels&1)
				}
			}
			if c.Partial {
				c.Rest = genPartSchema(t, 80)
			}
			return c
		}, checkMerged)
}
