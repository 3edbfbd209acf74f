package props

import (
	"github.com/hashicorp/hcl2/hcl"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// partStep decodes one of the bodies obtained so far.
type partStep struct {
	From   int          `json:"from"`
	Schema model.Schema `json:"schema"`
	Req    bool         `json:"req,omitempty"` // and an argument that is missing
}

type partCase struct {
	Impl  *impl      `json:"impl"`
	Steps []partStep `json:"steps"`
	Drop  int        `json:"drop"`
}

func genPartSchema(t *rapid.T, pct int) model.Schema {
	var s model.Schema
	for _, a := range implAllModel.Attrs {
		if model.Chance(t, pct) {
			s.Attrs = append(s.Attrs, a)
		}
	}
	for _, b := range implAllModel.Blocks {
		if model.Chance(t, pct) {
			s.Blocks = append(s.Blocks, b)
		}
	}
	return s
}

func copyHidden(h *model.Hidden) *model.Hidden {
	c := model.NewHidden()
	for k := range h.Attrs {
		c.Attrs[k] = true
	}
	for k := range h.Blocks {
		c.Blocks[k] = true
	}
	return c
}

// visible filters the items a remainder should still show.
func visible(items []*model.Item, h *model.Hidden) []*model.Item {
	var out []*model.Item
	for _, it := range items {
		if it.IsAttr() && h.Attrs[it.Name] || !it.IsAttr() && h.Blocks[it.Name] {
			continue
		}
		out = append(out, it)
	}
	return out
}

func restSchema(h *model.Hidden) model.Schema {
	var s model.Schema
	for _, a := range implAllModel.Attrs {
		if !h.Attrs[a.Name] {
			s.Attrs = append(s.Attrs, a)
		}
	}
	for _, b := range implAllModel.Blocks {
		if !h.Blocks[b.Type] {
			s.Blocks = append(s.Blocks, b)
		}
	}
	return s
}

func checkPartition(c partCase, r *engine.Rec) error {
	r.Sample(c.Impl.String())
	root, err := c.Impl.build()
	if err != nil {
		return err
	}
	items := c.Impl.items()
	hasJSON, arrays := false, false
	zero := map[string]bool{}
	c.Impl.walk(func(im *impl) {
		r.Label(im.Kind)
		if im.Kind == "json" {
			hasJSON = true
			arrays = arrays || (&model.JEnc{Lay: im.Lay}).Body(&model.Body{Items: rawDyn(im.Body.Items)}).K == "arr"
		}
		if im.Body != nil {
			for _, it := range im.Body.Items {
				if it.Dyn == 1 {
					zero[it.Name] = true
				}
			}
		}
	})
	type state struct {
		b hcl.Body
		h *model.Hidden
	}
	states := []state{{root, model.NewHidden()}}
	want := func(h *model.Hidden, s model.Schema) string {
		ref := (&model.Body{Items: items}).Apply(s, true, copyHidden(h))
		var sel []*model.Item
		for _, it := range ref.Attrs {
			sel = append(sel, it)
		}
		return fingerprint(append(sel, ref.Blocks...))
	}
	took := 0
	for i, st := range c.Steps {
		from := states[st.From%len(states)]
		hs := toSchema(st.Schema)
		if st.Req {
			hs.Attributes = append(hs.Attributes, hcl.AttributeSchema{Name: "zz_missing", Required: true})
			r.Label("required argument missing")
		}
		content, rem, diags := from.b.PartialContent(hs)
		if diags.HasErrors() != st.Req {
			return errf("step %d reports %s, a required argument is missing: %v\n%s", i, orNone(diags), st.Req, c.Impl)
		}
		if rem == nil || content == nil {
			return errf("step %d returns no remaining body\n%s", i, c.Impl)
		}
		w := want(from.h, st.Schema)
		if got := contentPrint(content, 4); got != w {
			return errf("step %d returns %s, want %s\n%s", i, got, w, c.Impl)
		}
		if w != "" {
			took++
		}
		h := copyHidden(from.h)
		for _, a := range st.Schema.Attrs {
			h.Attrs[a.Name] = true
		}
		for _, b := range st.Schema.Blocks {
			h.Blocks[b.Type] = true
		}
		states = append(states, state{rem, h})
	}
	r.NonTrivialIf(took >= 2)
	for i, st := range states {
		left := visible(items, st.h)
		rest := restSchema(st.h)
		content, diags := st.b.Content(toSchema(rest))
		if diags.HasErrors() {
			return errf("decoding everything left in body %d fails: %s\n%s", i, diagStr(diags), c.Impl)
		}
		if got, w := contentPrint(content, 4), fingerprint(left); got != w {
			return errf("body %d still holds %s, want %s\n%s", i, got, w, c.Impl)
		}
		// Names consumed earlier and items already seen are not seen again.
		content, _, diags = st.b.PartialContent(implAll)
		if diags.HasErrors() {
			return errf("partially decoding body %d fails: %s\n%s", i, diagStr(diags), c.Impl)
		}
		if got, w := contentPrint(content, 4), fingerprint(left); got != w {
			return errf("body %d shows %s again, want %s\n%s", i, got, w, c.Impl)
		}
		// Leaving out one name flags it, if and only if it has items.
		n := len(rest.Attrs) + len(rest.Blocks)
		if n > 0 {
			k := c.Drop % n
			s := model.Schema{Attrs: rest.Attrs, Blocks: rest.Blocks}
			name, isAttr := "", k < len(rest.Attrs)
			if isAttr {
				name = rest.Attrs[k].Name
				s.Attrs = append(append([]model.SAttr(nil), rest.Attrs[:k]...), rest.Attrs[k+1:]...)
			} else {
				k -= len(rest.Attrs)
				name = rest.Blocks[k].Type
				s.Blocks = append(append([]model.SBlock(nil), rest.Blocks[:k]...), rest.Blocks[k+1:]...)
			}
			there := false
			var others []*model.Item
			for _, it := range left {
				if it.Name == name {
					there = true
				} else {
					others = append(others, it)
				}
			}
			if there || !zero[name] {
				content, diags := st.b.Content(toSchema(s))
				if err := shaped("diagnostics", diags); err != nil {
					return err
				}
				if diags.HasErrors() != there {
					return errf("full decode of body %d without %q reports %s, item present: %v\n%s", i, name, orNone(diags), there, c.Impl)
				}
				if got, w := contentPrint(content, 4), fingerprint(others); got != w {
					return errf("full decode of body %d without %q gives %s, want %s\n%s", i, name, got, w, c.Impl)
				}
			}
		}
		// A required argument is missing if it is not left.
		req := implAllModel.Attrs[c.Drop%len(implAllModel.Attrs)]
		req.Req = true
		have := false
		for _, it := range left {
			have = have || it.IsAttr() && it.Name == req.Name
		}
		_, _, diags = st.b.PartialContent(toSchema(model.Schema{Attrs: []model.SAttr{req}}))
		if err := shaped("diagnostics", diags); err != nil {
			return err
		}
		if diags.HasErrors() == have {
			return errf("requiring %q of body %d reports %s, left: %v\n%s", req.Name, i, orNone(diags), have, c.Impl)
		}
		// Attributes-only mode.
		var attrs []*model.Item
		blocks := false
		for _, it := range left {
			if it.IsAttr() {
				attrs = append(attrs, it)
			} else {
				blocks = true
			}
		}
		for z := range zero {
			blocks = blocks || !st.h.Blocks[z]
		}
		if arrays || hasJSON && blocks {
			continue
		}
		ja, diags := st.b.JustAttributes()
		if got, w := contentPrint(&hcl.BodyContent{Attributes: ja}, 0), fingerprint(attrs); got != w {
			return errf("attributes-only mode of body %d gives %s, want %s\n%s", i, got, w, c.Impl)
		}
		if err := shaped("diagnostics", diags); err != nil {
			return err
		}
		if diags.HasErrors() != blocks {
			return errf("attributes-only mode of body %d reports %s, blocks remain: %v\n%s", i, orNone(diags), blocks, c.Impl)
		}
	}
	return nil
}

func init() {
	engine.Add("C13", "partition", "at least two steps that each return items", 25000,
		func(t *rapid.T) partCase {
			g := &implGen{t: t}
			c := partCase{Impl: g.impl(2, false, map[string]bool{}), Drop: model.Int(t, 0, 20, "drop")}
			for i := model.Count(t, 1, 5); i > 0; i-- {
				st := partStep{From: len(c.Steps), Schema: genPartSchema(t, model.Pick(t, []int{30, 45, 60}))}
				st.Req = model.Chance(t, 10)
				if model.Chance(t, 30) {
					st.From = model.Int(t, 0, len(c.Steps), "from")
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		}, checkPartition)
}
