package props

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/hcl"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// xfOp is one transformer.
type xfOp struct {
	K string `json:"k"` // mark diag remove removeattr fail failwith keep
	N string `json:"n,omitempty"`
}

type xfCase struct {
	Impl *impl  `json:"impl"`
	Ops  []xfOp `json:"ops"`
	Mode string `json:"mode"` // chain nested shallow
	Plan []byte `json:"plan"`
}

// markBody adds a warning to what decoding reports.
type markBody struct {
	hcl.Body
	warn *hcl.Diagnostic
}

func (b markBody) Content(s *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnostics) {
	c, diags := b.Body.Content(s)
	return c, append(hcl.Diagnostics{b.warn}, diags...)
}

func (b markBody) PartialContent(s *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
	c, rest, diags := b.Body.PartialContent(s)
	return c, rest, append(hcl.Diagnostics{b.warn}, diags...)
}

func (b markBody) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
	a, diags := b.Body.JustAttributes()
	return a, append(hcl.Diagnostics{b.warn}, diags...)
}

func xfDiag(sev hcl.DiagnosticSeverity, f string, a ...interface{}) *hcl.Diagnostic {
	return &hcl.Diagnostic{Severity: sev, Summary: "xf " + fmt.Sprintf(f, a...), Detail: "x."}
}

func (op xfOp) name(i int) string { return fmt.Sprintf("%s %d", op.K, i) }

func (op xfOp) transformer(i int) transform.Transformer {
	return transform.TransformerFunc(func(b hcl.Body) hcl.Body {
		has := func() bool {
			c, _, _ := b.PartialContent(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: op.N}}})
			return len(c.Attributes) > 0
		}
		switch op.K {
		case "mark":
			return markBody{b, xfDiag(hcl.DiagWarning, "%s", op.name(i))}
		case "diag":
			return transform.BodyWithDiagnostics(b, hcl.Diagnostics{xfDiag(hcl.DiagWarning, "%s", op.name(i))})
		case "remove":
			_, rest, diags := b.PartialContent(&hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: op.N, LabelNames: labelNames[:implOpts.NLabels[op.N]]}}})
			return transform.BodyWithDiagnostics(rest, diags)
		case "removeattr":
			_, rest, diags := b.PartialContent(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: op.N}}})
			return transform.BodyWithDiagnostics(rest, diags)
		case "fail":
			if has() {
				return transform.NewErrorBody(hcl.Diagnostics{xfDiag(hcl.DiagError, "%s", op.name(i))})
			}
		case "failwith":
			if has() {
				return transform.BodyWithDiagnostics(b, hcl.Diagnostics{xfDiag(hcl.DiagError, "%s", op.name(i))})
			}
		}
		return b
	})
}

// apply tells what the transformers make of a body: the items left, the
// diagnostics in order, and whether decoding it fails.
func xfApply(ops []xfOp, items []*model.Item) (out []*model.Item, diags []string, failed bool) {
	out = items
	for i, op := range ops {
		var keep []*model.Item
		has := false
		for _, it := range out {
			if !failed && it.Name == op.N && (it.IsAttr() && op.K == "removeattr" || !it.IsAttr() && op.K == "remove") {
				continue
			}
			has = has || it.IsAttr() && it.Name == op.N
			keep = append(keep, it)
		}
		out = keep
		switch op.K {
		case "mark", "diag":
			diags = append([]string{op.name(i)}, diags...)
		case "fail", "failwith":
			if has && !failed {
				failed = true
				diags = []string{op.name(i)}
				out = nil
			}
		}
	}
	return
}

func xfGot(diags hcl.Diagnostics) []string {
	var out []string
	for _, d := range diags {
		if strings.HasPrefix(d.Summary, "xf ") {
			out = append(out, strings.TrimPrefix(d.Summary, "xf "))
		}
	}
	return out
}

type xfCheck struct {
	c      xfCase
	i      int
	json   bool
	bodies int
	fails  int
}

func (x *xfCheck) pick(n int) int {
	v := int(x.c.Plan[x.i%len(x.c.Plan)]) + x.i/len(x.c.Plan)
	x.i++
	return v % n
}

func (x *xfCheck) content(c *hcl.BodyContent, items []*model.Item, s model.Schema, h *model.Hidden, ops []xfOp) error {
	ref := (&model.Body{Items: items}).Apply(s, true, h)
	if len(c.Attributes) != len(ref.Attrs) {
		return errf("attributes %v, expected %v", model.SortedKeys(c.Attributes), model.SortedKeys(ref.Attrs))
	}
	for n, it := range ref.Attrs {
		a := c.Attributes[n]
		if a == nil || numOf(a) != it.X.S {
			return errf("attribute %s is missing or wrong", n)
		}
	}
	if len(c.Blocks) != len(ref.Blocks) {
		return errf("%d blocks, expected %d", len(c.Blocks), len(ref.Blocks))
	}
	for i, it := range ref.Blocks {
		b := c.Blocks[i]
		if b.Type != it.Name || !sameStrings(b.Labels, it.Labels) {
			return errf("block %d is %s %q, expected %s %q", i, b.Type, b.Labels, it.Name, it.Labels)
		}
		if err := x.body(b.Body, it.Body.Items, ops); err != nil {
			return errf("in block %d (%s %q): %w", i, b.Type, b.Labels, err)
		}
	}
	return nil
}

func (x *xfCheck) diags(what string, diags hcl.Diagnostics, want []string, failed bool) error {
	if got := xfGot(diags); !sameStrings(got, want) {
		return errf("%s reports %q, expected %q", what, got, want)
	}
	if err := shaped("diagnostics", diags); err != nil {
		return err
	}
	if diags.HasErrors() != failed {
		return errf("%s: errors %s, expected any: %v", what, orNone(diags), failed)
	}
	return nil
}

// body checks a body before transformation with the given items, to which
// the transformers were applied.
func (x *xfCheck) body(b hcl.Body, items []*model.Item, ops []xfOp) error {
	x.bodies++
	left, want, failed := xfApply(ops, items)
	inner := ops
	if x.c.Mode == "shallow" {
		inner = nil
	}
	if failed {
		x.fails++
	}
	h := model.NewHidden()
	blocks := false
	for _, it := range left {
		blocks = blocks || !it.IsAttr()
	}
	if x.pick(3) == 0 && (!x.json || failed) {
		attrs, diags := b.JustAttributes()
		if failed {
			if err := x.diags("attributes mode", diags, want, true); err != nil {
				return err
			}
			if len(attrs) > 0 {
				return errf("attributes %v in a body with errors", model.SortedKeys(attrs))
			}
		} else if err := x.diags("attributes mode", diags, want, blocks); err != nil {
			return err
		}
	}
	cur := b
	first := true
	for n := x.pick(4); n > 0; n-- {
		s := x.schema(50)
		c, rest, diags := cur.PartialContent(toSchema(s))
		if c == nil || rest == nil {
			return errf("partial decode returns no content or no remaining body")
		}
		if first {
			if err := x.diags("partial decode", diags, want, failed); err != nil {
				return err
			}
			// Decoding the same body again reports the same.
			_, _, diags = cur.PartialContent(toSchema(s))
			if err := x.diags("repeated partial decode", diags, want, failed); err != nil {
				return err
			}
		}
		if failed {
			if len(c.Attributes)+len(c.Blocks) > 0 {
				return errf("content from a body with errors")
			}
			// What remains is not specified, but it can be decoded.
			rest.PartialContent(toSchema(s))
			rest.Content(toSchema(s))
			rest.JustAttributes()
			rest.MissingItemRange()
			return nil
		}
		if err := x.content(c, left, s, h, inner); err != nil {
			return errf("partial decode with %s: %w", schemaStr(toSchema(s)), err)
		}
		for _, a := range s.Attrs {
			h.Attrs[a.Name] = true
		}
		for _, bl := range s.Blocks {
			h.Blocks[bl.Type] = true
		}
		cur, first = rest, false
	}
	s := implAllModel
	c, diags := cur.Content(toSchema(s))
	if first {
		if err := x.diags("decode", diags, want, failed); err != nil {
			return err
		}
	} else if diags.HasErrors() {
		return errf("decoding the rest: %s", diagStr(diags))
	}
	b.MissingItemRange()
	if failed {
		if len(c.Attributes)+len(c.Blocks) > 0 {
			return errf("content from a body with errors")
		}
		return nil
	}
	if err := x.content(c, left, s, h, inner); err != nil {
		return errf("decode: %w", err)
	}
	return nil
}

func (x *xfCheck) schema(pct int) model.Schema {
	var s model.Schema
	for _, a := range implAllModel.Attrs {
		if x.pick(100) < pct {
			s.Attrs = append(s.Attrs, a)
		}
	}
	for _, b := range implAllModel.Blocks {
		if x.pick(100) < pct {
			s.Blocks = append(s.Blocks, b)
		}
	}
	return s
}

func genXfCase(t *rapid.T) xfCase {
	g := &implGen{t: t}
	c := xfCase{Mode: model.Pick(t, []string{"chain", "chain", "nested", "shallow"})}
	leaf := func(used map[string]bool) *impl {
		im := &impl{Kind: model.Pick(t, []string{"native", "native", "json", "pack", "mock"}), Lay: lay(t)}
		im.Body = g.body(3, false, used, 6)
		return im
	}
	switch model.Weighted(t, 6, 2, 1) {
	case 0:
		c.Impl = leaf(map[string]bool{})
	case 1:
		used := map[string]bool{}
		c.Impl = &impl{Kind: "merge", Sub: []*impl{leaf(used), leaf(used)}}
	default:
		c.Impl = &impl{Kind: "dyn", Sub: []*impl{leaf(map[string]bool{})}}
	}
	for n := model.Count(t, 1, 4); n > 0; n-- {
		op := xfOp{K: model.Pick(t, []string{"mark", "mark", "diag", "remove", "removeattr", "fail", "failwith", "keep"})}
		switch op.K {
		case "remove":
			op.N = model.Pick(t, implOpts.Blocks)
		case "removeattr", "fail", "failwith":
			op.N = model.Pick(t, implOpts.Attrs)
		}
		c.Ops = append(c.Ops, op)
	}
	c.Plan = rapid.SliceOfN(rapid.Byte(), 1, 24).Draw(t, "plan")
	return c
}

func checkTransform(c xfCase, r *engine.Rec) error {
	b, err := c.Impl.build()
	if err != nil {
		return err
	}
	x := &xfCheck{c: c}
	c.Impl.walk(func(im *impl) { x.json = x.json || im.Kind == "json" })
	var ts []transform.Transformer
	for i, op := range c.Ops {
		ts = append(ts, op.transformer(i))
		r.Label("op %s", op.K)
	}
	r.Label("mode %s", c.Mode)
	r.Label("body %s", c.Impl.Kind)
	switch c.Mode {
	case "chain":
		b = transform.Deep(b, transform.Chain(ts))
	case "nested":
		for _, t := range ts {
			b = transform.Deep(b, t)
		}
	case "shallow":
		b = transform.Shallow(b, transform.Chain(ts))
	}
	r.Sample(fmt.Sprintf("%s %v %s", c.Mode, c.Ops, c.Impl))
	err = x.body(b, c.Impl.items(), c.Ops)
	r.NonTrivialIf(x.bodies >= 3)
	if x.fails > 0 {
		r.Label("failing transform")
	}
	if err != nil {
		return errf("%w\n%s %v\n%s", err, c.Mode, c.Ops, c.Impl)
	}
	return nil
}

func init() {
	engine.Add("C31", "decodes", "at least three bodies of the tree are decoded", 200000, genXfCase, checkTransform)
}
