package props

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/hcltest"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/model"
)

// impl describes one way of building a body: a leaf that carries items in
// some concrete form, or a wrapper around other bodies. All attribute values
// are number literals that identify the attribute.
type impl struct {
	Kind string      `json:"kind"` // native json pack mock | merge deep shallow warn dyn
	Body *model.Body `json:"body,omitempty"`
	Sub  []*impl     `json:"sub,omitempty"`
	Lay  []byte      `json:"lay,omitempty"`
}

// items is the list of items the body should show.
func (im *impl) items() []*model.Item {
	if im.Body != nil {
		return expandDyn(im.Body.Items)
	}
	var out []*model.Item
	for _, s := range im.Sub {
		out = append(out, s.items()...)
	}
	return out
}

func (im *impl) walk(f func(*impl)) {
	f(im)
	for _, s := range im.Sub {
		s.walk(f)
	}
}

func (im *impl) String() string {
	if im.Body != nil {
		return im.Kind + "<<\n" + im.text() + ">>"
	}
	var ss []string
	for _, s := range im.Sub {
		ss = append(ss, s.String())
	}
	return im.Kind + "(" + strings.Join(ss, ", ") + ")"
}

func (im *impl) text() string {
	raw := &model.Body{Items: rawDyn(im.Body.Items)}
	if im.Kind == "json" {
		src, _ := (&model.JEnc{Lay: im.Lay}).Body(raw).Text(im.Lay)
		return src
	}
	return raw.Native(im.Lay).Src
}

// expandDyn replaces generated blocks by the blocks they stand for.
func expandDyn(items []*model.Item) []*model.Item {
	var out []*model.Item
	for _, it := range items {
		if it.IsAttr() {
			out = append(out, it)
			continue
		}
		c := *it
		c.Body = &model.Body{Items: expandDyn(it.Body.Items)}
		n := 1
		if it.Dyn > 0 {
			n = it.Dyn - 1
			c.Dyn = 0
		}
		for ; n > 0; n-- {
			cc := c
			out = append(out, &cc)
		}
	}
	return out
}

// rawDyn writes the generated blocks as "dynamic" blocks.
func rawDyn(items []*model.Item) []*model.Item {
	out := make([]*model.Item, 0, len(items))
	for _, it := range items {
		if it.IsAttr() {
			out = append(out, it)
			continue
		}
		c := *it
		c.Body = &model.Body{Items: rawDyn(it.Body.Items)}
		c.Dyn = 0
		if it.Dyn > 0 {
			each := &model.Expr{K: "tuple"}
			for i := 1; i < it.Dyn; i++ {
				each.Xs = append(each.Xs, &model.Expr{K: "num", S: fmt.Sprint(i)})
			}
			d := &model.Item{Name: "dynamic", Labels: []string{it.Name}, Body: &model.Body{}}
			d.Body.Items = append(d.Body.Items, &model.Item{Name: "for_each", X: each})
			if len(it.Labels) > 0 {
				ls := &model.Expr{K: "tuple"}
				for _, l := range it.Labels {
					ls.Xs = append(ls.Xs, model.StrLit(l))
				}
				d.Body.Items = append(d.Body.Items, &model.Item{Name: "labels", X: ls, Static: true})
			}
			c.Name, c.Labels, c.One = "content", nil, false
			d.Body.Items = append(d.Body.Items, &c)
			out = append(out, d)
			continue
		}
		out = append(out, &c)
	}
	return out
}

// build makes the body.
func (im *impl) build() (hcl.Body, error) {
	switch im.Kind {
	case "native", "pack":
		src := im.text()
		if im.Kind == "pack" {
			b, diags := hclpack.PackNativeFile([]byte(src), "t.hcl", startPos)
			if diags.HasErrors() {
				return nil, errf("valid configuration rejected: %s\n%s", diagStr(diags), src)
			}
			return b, nil
		}
		f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", startPos)
		if diags.HasErrors() {
			return nil, errf("valid configuration rejected: %s\n%s", diagStr(diags), src)
		}
		return f.Body, nil
	case "json":
		src := im.text()
		f, diags := json.Parse([]byte(src), "t.json")
		if diags.HasErrors() {
			return nil, errf("valid JSON rejected: %s\n%s", diagStr(diags), src)
		}
		return f.Body, nil
	case "mock":
		return mockBody(rawDyn(im.Body.Items)), nil
	}
	var subs []hcl.Body
	for _, s := range im.Sub {
		b, err := s.build()
		if err != nil {
			return nil, err
		}
		subs = append(subs, b)
	}
	ident := transform.TransformerFunc(func(b hcl.Body) hcl.Body { return b })
	warn := func(b hcl.Body) hcl.Body {
		return transform.BodyWithDiagnostics(b, hcl.Diagnostics{{Severity: hcl.DiagWarning, Summary: "w", Detail: "w"}})
	}
	switch im.Kind {
	case "merge":
		return hcl.MergeBodies(subs), nil
	case "deep":
		return transform.Deep(subs[0], ident), nil
	case "deepwarn":
		return transform.Deep(subs[0], transform.TransformerFunc(warn)), nil
	case "shallow":
		return transform.Shallow(subs[0], ident), nil
	case "warn":
		return warn(subs[0]), nil
	case "dyn":
		return dynblock.Expand(subs[0], &hcl.EvalContext{}), nil
	}
	return nil, errf("unknown body kind %s", im.Kind)
}

func mockVal(e *model.Expr) cty.Value {
	switch e.K {
	case "num":
		return cty.MustParseNumberVal(e.S)
	case "tuple":
		var vs []cty.Value
		for _, x := range e.Xs {
			vs = append(vs, mockVal(x))
		}
		return cty.TupleVal(vs)
	}
	s, _ := e.PlainLit()
	return cty.StringVal(s)
}

func mockBody(items []*model.Item) hcl.Body {
	c := &hcl.BodyContent{Attributes: hcl.Attributes{}}
	for i, it := range items {
		rng := hcl.Range{Filename: "mock", Start: hcl.Pos{Line: i + 1, Column: 1, Byte: i}, End: hcl.Pos{Line: i + 1, Column: 2, Byte: i + 1}}
		if it.IsAttr() {
			c.Attributes[it.Name] = &hcl.Attribute{Name: it.Name, Expr: hcltest.MockExprLiteral(mockVal(it.X)), Range: rng, NameRange: rng}
			continue
		}
		bl := &hcl.Block{Type: it.Name, Labels: it.Labels, Body: mockBody(it.Body.Items), TypeRange: rng, DefRange: rng}
		for range it.Labels {
			bl.LabelRanges = append(bl.LabelRanges, rng)
		}
		c.Blocks = append(c.Blocks, bl)
	}
	return hcltest.MockBody(c)
}

// implGen draws implementations over bodies whose attributes are all
// different.
type implGen struct {
	t    *rapid.T
	n    int
	dups bool // parts of a merge may define the same attribute
}

func (g *implGen) num() *model.Expr {
	g.n++
	return &model.Expr{K: "num", S: fmt.Sprint(g.n)}
}

var implOpts = model.JSONBody()

func (g *implGen) body(depth int, dyn bool, used map[string]bool, max int) *model.Body {
	b := &model.Body{}
	for i := model.Int(g.t, 0, max, "items"); i > 0; i-- {
		if depth <= 0 || model.Chance(g.t, 50) {
			n := model.Pick(g.t, implOpts.Attrs)
			if !used[n] {
				used[n] = true
				b.Items = append(b.Items, &model.Item{Name: n, X: g.num()})
			}
			continue
		}
		it := &model.Item{Name: model.Pick(g.t, implOpts.Blocks), One: model.Chance(g.t, 20)}
		for j := implOpts.NLabels[it.Name]; j > 0; j-- {
			it.Labels = append(it.Labels, model.Pick(g.t, []string{"x", "y", "foo", "é", "a b"}))
		}
		it.Body = g.body(depth-1, dyn, map[string]bool{}, 3)
		if dyn && model.Chance(g.t, 40) {
			it.Dyn = model.Int(g.t, 1, 4, "dyn")
		}
		b.Items = append(b.Items, it)
	}
	return b
}

func (g *implGen) impl(depth int, dyn bool, used map[string]bool) *impl {
	k := "leaf"
	if depth > 0 {
		k = model.Pick(g.t, []string{"leaf", "leaf", "merge", "merge", "deep", "deepwarn", "shallow", "warn", "dyn", "dyn"})
		if dyn && k == "dyn" {
			k = "merge"
		}
	}
	switch k {
	case "leaf":
		im := &impl{Kind: model.Pick(g.t, []string{"native", "native", "json", "json", "pack", "mock"}), Lay: lay(g.t)}
		im.Body = g.body(2, dyn, used, 8)
		return im
	case "merge":
		im := &impl{Kind: "merge"}
		for i := model.Weighted(g.t, 1, 2, 6, 3); i > 0; i-- {
			u := used
			if g.dups {
				u = map[string]bool{}
			}
			im.Sub = append(im.Sub, g.impl(depth-1, dyn, u))
		}
		return im
	}
	return &impl{Kind: k, Sub: []*impl{g.impl(depth-1, dyn || k == "dyn", used)}}
}

// numOf reads the identifying number of an attribute.
func numOf(a *hcl.Attribute) string {
	v, diags := a.Expr.Value(&hcl.EvalContext{})
	if diags.HasErrors() {
		return "error: " + diagStr(diags)
	}
	if v.Type() != cty.Number || !v.IsKnown() || v.IsNull() {
		return vstr(v)
	}
	return v.AsBigFloat().Text('f', -1)
}

// fingerprint renders the items in a canonical way.
func fingerprint(items []*model.Item) string {
	var sb strings.Builder
	m := map[string]string{}
	for _, it := range items {
		if it.IsAttr() {
			f, _, _ := big.ParseFloat(it.X.S, 10, 64, 0)
			m[it.Name] = f.Text('f', -1)
		}
	}
	for _, n := range model.SortedKeys(m) {
		fmt.Fprintf(&sb, "%s=%s;", n, m[n])
	}
	for _, it := range items {
		if !it.IsAttr() {
			fmt.Fprintf(&sb, "%s%q{%s}", it.Name, it.Labels, fingerprint(it.Body.Items))
		}
	}
	return sb.String()
}

// contentPrint renders decoded content in the same way, decoding blocks with
// the schema of the block type.
func contentPrint(c *hcl.BodyContent, depth int) string {
	var sb strings.Builder
	m := map[string]string{}
	for n, a := range c.Attributes {
		if a.Name != n {
			return fmt.Sprintf("attribute %q named %q", n, a.Name)
		}
		m[n] = numOf(a)
	}
	for _, n := range model.SortedKeys(m) {
		fmt.Fprintf(&sb, "%s=%s;", n, m[n])
	}
	for _, bl := range c.Blocks {
		if len(bl.LabelRanges) != len(bl.Labels) {
			return fmt.Sprintf("%d labels with %d ranges", len(bl.Labels), len(bl.LabelRanges))
		}
		fmt.Fprintf(&sb, "%s%q{", bl.Type, bl.Labels)
		if depth > 0 {
			cc, diags := bl.Body.Content(implAll)
			if diags.HasErrors() {
				sb.WriteString("error: " + diagStr(diags))
			} else {
				sb.WriteString(contentPrint(cc, depth-1))
			}
		}
		sb.WriteString("}")
	}
	return sb.String()
}

// implAll names everything the generator can produce.
var implAll, implAllModel = func() (*hcl.BodySchema, model.Schema) {
	var s model.Schema
	for _, n := range implOpts.Attrs {
		s.Attrs = append(s.Attrs, model.SAttr{Name: n})
	}
	for _, n := range implOpts.Blocks {
		s.Blocks = append(s.Blocks, model.SBlock{Type: n, Labels: implOpts.NLabels[n]})
	}
	return toSchema(s), s
}()
