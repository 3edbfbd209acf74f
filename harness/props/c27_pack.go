package props

import (
	ejson "encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// packFile is a source file with gaps between its items.
type packFile struct {
	Name  string      `json:"name"`
	Start hcl.Pos     `json:"start"`
	Body  *model.Body `json:"body"`
	Pads  []packPad   `json:"pads,omitempty"` // before each item
	Lay   []byte      `json:"lay,omitempty"`
}

type packPad struct {
	K string `json:"k"` // lines comment inline
	N int    `json:"n"`
}

func (p packPad) text() string {
	switch p.K {
	case "lines":
		return strings.Repeat("\n", p.N)
	case "comment":
		return "#" + strings.Repeat("x", p.N) + "\n"
	case "inline":
		return "/*" + strings.Repeat("y", p.N) + "*/"
	}
	return ""
}

func (f packFile) text() string {
	var sb strings.Builder
	for i, it := range f.Body.Items {
		sb.WriteString(f.Pads[i].text())
		sb.WriteString((&model.Body{Items: []*model.Item{it}}).Native(f.Lay).Src + "\n")
	}
	return sb.String()
}

func (f packFile) brief() string {
	s := f.text()
	if len(s) > 600 {
		s = s[:300] + "..." + s[len(s)-300:]
	}
	return fmt.Sprintf("%q at %v: %s", f.Name, f.Start, s)
}

type packCase struct {
	Scope   model.Scope    `json:"scope"`
	Files   []packFile     `json:"files"`
	Schemas []model.Schema `json:"schemas,omitempty"`
}

func genPackFile(t *rapid.T, scope model.Scope, name string) packFile {
	f := packFile{Name: name, Start: startPos}
	if model.Chance(t, 30) {
		f.Start = hcl.Pos{
			Line:   model.Pick(t, []int{1, 2, 31, 100, 5000}),
			Column: model.Pick(t, []int{1, 1, 5, 300}),
			Byte:   model.Pick(t, []int{0, 0, 1, 40, 10000}),
		}
	}
	g := model.NewGen(t, scope, 6)
	g.Refs = model.Chance(t, 40)
	o := model.StdBody()
	o.Max = 6
	o.Depth = model.Int(t, 0, 3, "depth")
	f.Body = g.Body(o)
	for range f.Body.Items {
		p := packPad{}
		if model.Chance(t, 40) {
			p.K = model.Pick(t, []string{"lines", "comment", "inline"})
			p.N = model.Pick(t, []int{1, 29, 30, 31, 62, 63, 64, 65, 127, 128, 200, 8191, 8192, 9000})
		}
		f.Pads = append(f.Pads, p)
	}
	f.Lay = lay(t)
	return f
}

func genPackCase(merge bool) func(t *rapid.T) packCase {
	return func(t *rapid.T) packCase {
		c := packCase{Scope: model.GenScopeN(t, genScopeOpts(), 1)}
		names := []string{"a.hcl", "dir/b.hcl", "", "é 日.hcl", "\"q\"\\\n", "a.hcl", "z"}
		n := 1
		if merge {
			n = model.Int(t, 2, 4, "files")
		}
		for i := 0; i < n; i++ {
			c.Files = append(c.Files, genPackFile(t, c.Scope, model.Pick(t, names)))
		}
		for i := model.Int(t, 0, 2, "schemas"); i > 0; i-- {
			c.Schemas = append(c.Schemas, model.GenSchema(t, c.Files[0].Body, model.StdBody()))
		}
		return c
	}
}

// nodeRanges lists the nodes of an expression with their ranges.
func nodeRanges(e hclsyntax.Expression) string {
	var sb strings.Builder
	hclsyntax.VisitAll(e, func(n hclsyntax.Node) hcl.Diagnostics {
		fmt.Fprintf(&sb, "%T %s; ", n, rngStr(n.Range()))
		return nil
	})
	return sb.String()
}

func rngStr(r hcl.Range) string {
	p := func(p hcl.Pos) string { return fmt.Sprintf("%d,%d@%d", p.Line, p.Column, p.Byte) }
	return fmt.Sprintf("%q %s-%s", r.Filename, p(r.Start), p(r.End))
}

// travRanges renders references with their positions.
func travRanges(ts []hcl.Traversal) string {
	var ss []string
	for _, tr := range ts {
		ss = append(ss, travStr(tr)+" "+rngStr(tr.SourceRange()))
	}
	return strings.Join(ss, "; ")
}

func diagKeys(ds hcl.Diagnostics) string {
	var ss []string
	for _, d := range ds {
		s := fmt.Sprint(d.Severity, d.Summary)
		if d.Subject != nil {
			s += " " + rngStr(*d.Subject)
		}
		ss = append(ss, s)
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

func samePackedAttr(got, want *hcl.Attribute, ctx *hcl.EvalContext) error {
	if got == nil {
		return errf("attribute %s is missing", want.Name)
	}
	if got.Name != want.Name {
		return errf("attribute %s is named %s", want.Name, got.Name)
	}
	cmp := func(what, g, w string) error {
		if g != w {
			return errf("%s of %s is %s, want %s", what, want.Name, g, w)
		}
		return nil
	}
	gv, gd := got.Expr.Value(ctx)
	wv, wd := want.Expr.Value(ctx)
	if gd.HasErrors() == wd.HasErrors() && !model.SameValue(gv, wv) {
		return errf("%s is %s, want %s", want.Name, vstr(gv), vstr(wv))
	}
	for _, err := range []error{
		cmp("range", rngStr(got.Range), rngStr(want.Range)),
		cmp("name range", rngStr(got.NameRange), rngStr(want.NameRange)),
		cmp("expression range", rngStr(got.Expr.Range()), rngStr(want.Expr.Range())),
		cmp("start range", rngStr(got.Expr.StartRange()), rngStr(want.Expr.StartRange())),
		cmp("diagnostics", diagKeys(gd), diagKeys(wd)),
		cmp("references", travRanges(got.Expr.Variables()), travRanges(want.Expr.Variables())),
	} {
		if err != nil {
			return err
		}
	}
	u, ok := got.Expr.(interface{ UnwrapExpression() hcl.Expression })
	if ok {
		if ge, ok := u.UnwrapExpression().(hclsyntax.Expression); ok {
			return cmp("nodes", nodeRanges(ge), nodeRanges(want.Expr.(hclsyntax.Expression)))
		}
	}
	return nil
}

func samePackedBlock(got *hcl.Block, want *hclsyntax.Block, ctx *hcl.EvalContext) error {
	wb := want.AsHCLBlock()
	if got.Type != wb.Type || !sameStrings(got.Labels, wb.Labels) {
		return errf("block %s %q, want %s %q", got.Type, got.Labels, wb.Type, wb.Labels)
	}
	if len(got.LabelRanges) != len(wb.LabelRanges) {
		return errf("block %s has %d label ranges", got.Type, len(got.LabelRanges))
	}
	for i := range got.LabelRanges {
		if rngStr(got.LabelRanges[i]) != rngStr(wb.LabelRanges[i]) {
			return errf("label %d of %s at %s, want %s", i, got.Type, rngStr(got.LabelRanges[i]), rngStr(wb.LabelRanges[i]))
		}
	}
	if g, w := rngStr(got.DefRange)+rngStr(got.TypeRange), rngStr(wb.DefRange)+rngStr(wb.TypeRange); g != w {
		return errf("block %s at %s, want %s", got.Type, g, w)
	}
	return samePackedBody(got.Body, []*hclsyntax.Body{want.Body}, ctx)
}

// syntaxSchemas are schemas for all items of native bodies: blocks of one type
// may differ in their labels.
func syntaxSchemas(bodies []*hclsyntax.Body) []*hcl.BodySchema {
	attrs := map[string]bool{}
	blocks := map[string]map[int]bool{}
	for _, b := range bodies {
		for n := range b.Attributes {
			attrs[n] = true
		}
		for _, bl := range b.Blocks {
			if blocks[bl.Type] == nil {
				blocks[bl.Type] = map[int]bool{}
			}
			blocks[bl.Type][len(bl.Labels)] = true
		}
	}
	var ret []*hcl.BodySchema
	for nl := 0; nl < len(labelNames); nl++ {
		s := &hcl.BodySchema{}
		for _, n := range model.SortedKeys(attrs) {
			s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: n})
		}
		any := nl == 0
		for _, n := range model.SortedKeys(blocks) {
			if blocks[n][nl] {
				s.Blocks = append(s.Blocks, hcl.BlockHeaderSchema{Type: n, LabelNames: labelNames[:nl]})
				any = true
			}
		}
		if any {
			ret = append(ret, s)
		}
	}
	return ret
}

// samePackedBody compares a packed body with the native bodies whose items it
// holds in order; of attributes with the same name the first counts.
func samePackedBody(got hcl.Body, want []*hclsyntax.Body, ctx *hcl.EvalContext) error {
	// Missing items are reported at the start or at the end of the body.
	if g := rngStr(got.MissingItemRange()); g != rngStr(want[0].EndRange) && g != rngStr(want[0].MissingItemRange()) {
		return errf("missing items are reported at %s, want %s", g, rngStr(want[0].EndRange))
	}
	for _, s := range syntaxSchemas(want) {
		c, _, _ := got.PartialContent(s)
		if c == nil {
			return errf("no content")
		}
		n := 0
		seen := map[string]bool{}
		var blocks []*hclsyntax.Block
		sb := map[string]int{}
		for _, b := range s.Blocks {
			sb[b.Type] = len(b.LabelNames)
		}
		for _, wb := range want {
			for _, name := range model.SortedKeys(wb.Attributes) {
				if seen[name] {
					continue
				}
				seen[name] = true
				n++
				if err := samePackedAttr(c.Attributes[name], wb.Attributes[name].AsHCLAttribute(), ctx); err != nil {
					return err
				}
			}
			for _, bl := range wb.Blocks {
				if nl, ok := sb[bl.Type]; ok && nl == len(bl.Labels) {
					blocks = append(blocks, bl)
				}
			}
		}
		if len(c.Attributes) != n {
			return errf("%d attributes, want %d", len(c.Attributes), n)
		}
		if len(c.Blocks) != len(blocks) {
			return errf("%d blocks, want %d", len(c.Blocks), len(blocks))
		}
		for i, bl := range c.Blocks {
			if err := samePackedBlock(bl, blocks[i], ctx); err != nil {
				return err
			}
		}
	}
	return nil
}

// sameUnder compares two bodies under a schema.
func sameUnder(got, want hcl.Body, s *hcl.BodySchema) error {
	show := func(c *hcl.BodyContent, ds hcl.Diagnostics) string {
		if c == nil {
			return "nothing"
		}
		var ss []string
		for _, n := range model.SortedKeys(c.Attributes) {
			ss = append(ss, n+" "+rngStr(c.Attributes[n].Range))
		}
		for _, b := range c.Blocks {
			ss = append(ss, fmt.Sprintf("%s%q %s", b.Type, b.Labels, rngStr(b.DefRange)))
		}
		return strings.Join(ss, "; ") + fmt.Sprintf(" errors %v", ds.HasErrors())
	}
	gc, gd := got.Content(s)
	wc, wd := want.Content(s)
	if g, w := show(gc, gd), show(wc, wd); g != w {
		return errf("content is %s, want %s", g, w)
	}
	gc, gr, gd := got.PartialContent(s)
	wc, wr, wd := want.PartialContent(s)
	if g, w := show(gc, gd), show(wc, wd); g != w {
		return errf("partial content is %s, want %s", g, w)
	}
	ga, gd := gr.JustAttributes()
	wa, wd := wr.JustAttributes()
	// Which of several blocks are reported differs.
	if g, w := show(&hcl.BodyContent{Attributes: ga}, nil), show(&hcl.BodyContent{Attributes: wa}, nil); g != w {
		return errf("remaining attributes are %s, want %s", g, w)
	}
	if gd.HasErrors() != wd.HasErrors() {
		return errf("remaining attributes give errors %s, want %s", diagStr(gd), diagStr(wd))
	}
	return nil
}

func checkPack(c packCase, r *engine.Rec) error {
	ctx := evalCtx(c.Scope.Map())
	var native []*hclsyntax.Body
	var packed []*hclpack.Body
	for _, f := range c.Files {
		src := []byte(f.text())
		nf, diags := hclsyntax.ParseConfig(src, f.Name, f.Start)
		if diags.HasErrors() {
			return errf("valid configuration rejected: %s", diagStr(diags))
		}
		native = append(native, nf.Body.(*hclsyntax.Body))
		b, diags := hclpack.PackNativeFile(src, f.Name, f.Start)
		if diags.HasErrors() {
			return errf("valid configuration not packed: %s", diagStr(diags))
		}
		packed = append(packed, b)
	}
	na, nb := c.Files[0].Body.Count()
	r.NonTrivialIf(na+nb >= 3)
	r.Label("%d files", len(c.Files))
	for _, f := range c.Files {
		if f.Start.Byte != 0 {
			r.Label("starts inside a file")
		}
	}
	r.Sample(c.Files[0].brief())
	all := packed[0]
	if len(packed) > 1 {
		all = &hclpack.Body{Attributes: map[string]hclpack.Attribute{}, MissingItemRange_: packed[0].MissingItemRange_}
		for _, b := range packed {
			for n, a := range b.Attributes {
				if _, ok := all.Attributes[n]; !ok {
					all.Attributes[n] = a
				}
			}
			all.ChildBlocks = append(all.ChildBlocks, b.ChildBlocks...)
		}
	}
	if err := samePackedBody(all, native, ctx); err != nil {
		return errf("packed: %s\n%s", err, c.Files[0].brief())
	}
	enc, err := ejson.Marshal(all)
	if err != nil {
		return errf("marshalling: %s", err)
	}
	var back hclpack.Body
	if err := ejson.Unmarshal(enc, &back); err != nil {
		return errf("unmarshalling %s: %s", enc, err)
	}
	if err := samePackedBody(&back, native, ctx); err != nil {
		return errf("unpacked: %s\n%s", err, c.Files[0].brief())
	}
	if len(c.Files) == 1 {
		for _, s := range c.Schemas {
			if err := sameUnder(&back, native[0], toSchema(s)); err != nil {
				return errf("%s\n%s", err, c.Files[0].brief())
			}
		}
	}
	return nil
}

// packSrc is a body put together from expressions of any source type.
type packSrc struct {
	Scope model.Scope  `json:"scope"`
	Items []packSrcExp `json:"items"`
}

type packSrcExp struct {
	X     *model.Expr `json:"x,omitempty"`
	T     *model.Tmpl `json:"t,omitempty"`
	J     *model.JX   `json:"j,omitempty"`
	Lay   []byte      `json:"lay,omitempty"`
	Label string      `json:"label,omitempty"`
	Pos   [8]int      `json:"pos"`
}

func genPackSrc(t *rapid.T) packSrc {
	c := packSrc{Scope: model.GenScopeN(t, genScopeOpts(), 1)}
	g := model.NewGen(t, c.Scope, 0)
	for n := model.Count(t, 1, 4); n > 0; n-- {
		x := packSrcExp{Lay: lay(t)}
		switch model.Weighted(t, 1, 1, 1) {
		case 0:
			x.X = g.Expr("any", 2)
		case 1:
			x.T = g.Tmpl("bare", 2)
		default:
			x.J = g.JX(model.Int(t, 0, 2, "depth"))
		}
		if model.Chance(t, 40) {
			x.Label = model.Pick(t, []string{"l", "", "a b"})
		}
		for i := range x.Pos {
			x.Pos[i] = model.Int(t, 0, 900, "pos")
			if i%4 < 2 {
				x.Pos[i]++
			}
		}
		c.Items = append(c.Items, x)
	}
	return c
}

func (x packSrcExp) ranges() (r, start hcl.Range) {
	p := x.Pos
	name := []string{"", "t.hcl", "u.hcl"}[(p[3]+p[7])%3]
	// Positions move forward within one range.
	mk := func(p []int) hcl.Range {
		a := hcl.Pos{Line: p[0], Column: p[1], Byte: p[2]}
		return hcl.Range{Filename: name, Start: a, End: hcl.Pos{Line: a.Line + p[3]%3, Column: a.Column + p[3]%7, Byte: a.Byte + p[3]}}
	}
	return mk(p[:4]), mk(p[4:])
}

func plainKeys(j *model.J) bool {
	for _, k := range j.Keys {
		if model.NFC(k) != k {
			return false
		}
	}
	for _, e := range j.L {
		if !plainKeys(e) {
			return false
		}
	}
	return true
}

func checkPackSrc(c packSrc, r *engine.Rec) error {
	ctx := evalCtx(c.Scope.Map())
	b := &hclpack.Body{Attributes: map[string]hclpack.Attribute{}}
	var desc []string
	for i, x := range c.Items {
		e := hclpack.Expression{}
		e.Range_, e.StartRange_ = x.ranges()
		switch {
		case x.X != nil:
			e.Source, e.SourceType = []byte(x.X.Native(x.Lay)), hclpack.ExprNative
		case x.T != nil:
			e.Source, e.SourceType = []byte(x.T.Bare(x.Lay)), hclpack.ExprTemplate
		default:
			s, _ := x.J.J().Text(x.Lay)
			e.Source, e.SourceType = []byte(s), hclpack.ExprLiteralJSON
		}
		desc = append(desc, fmt.Sprintf("%s %s", e.SourceType, e.Source))
		b.Attributes[fmt.Sprintf("a%d", i)] = hclpack.Attribute{Expr: e, Range: e.Range_, NameRange: e.StartRange_}
		in := hclpack.Body{Attributes: map[string]hclpack.Attribute{"v": {Expr: e, Range: e.StartRange_, NameRange: e.Range_}}, MissingItemRange_: e.Range_}
		bl := hclpack.Block{Type: "blk", Body: in, DefRange: e.Range_, TypeRange: e.StartRange_}
		if x.Label != "" {
			bl.Labels, bl.LabelRanges = []string{x.Label}, []hcl.Range{e.Range_}
		}
		b.ChildBlocks = append(b.ChildBlocks, bl)
		r.Label("%s", e.SourceType)
	}
	r.Sample(strings.Join(desc, "\n"))
	r.NonTrivialIf(len(c.Items) > 1)
	enc, err := ejson.Marshal(b)
	if err != nil {
		return errf("marshalling: %s", err)
	}
	var back hclpack.Body
	if err := ejson.Unmarshal(enc, &back); err != nil {
		return errf("unmarshalling %s: %s", enc, err)
	}
	if len(back.Attributes) != len(b.Attributes) || len(back.ChildBlocks) != len(b.ChildBlocks) {
		return errf("%d attributes and %d blocks come back of %d and %d", len(back.Attributes), len(back.ChildBlocks), len(b.Attributes), len(b.ChildBlocks))
	}
	for i, x := range c.Items {
		a, bl := back.Attributes[fmt.Sprintf("a%d", i)], back.ChildBlocks[i]
		want := b.Attributes[fmt.Sprintf("a%d", i)]
		wbl := b.ChildBlocks[i]
		if a.Range != want.Range || a.NameRange != want.NameRange {
			return errf("%s: attribute ranges %s %s, want %s %s", desc[i], rngStr(a.Range), rngStr(a.NameRange), rngStr(want.Range), rngStr(want.NameRange))
		}
		if bl.Type != wbl.Type || !sameStrings(bl.Labels, wbl.Labels) || bl.DefRange != wbl.DefRange || bl.TypeRange != wbl.TypeRange || fmt.Sprint(bl.LabelRanges) != fmt.Sprint(wbl.LabelRanges) {
			return errf("%s: block comes back as %+v, want %+v", desc[i], bl, wbl)
		}
		for _, got := range []hclpack.Attribute{a, bl.Body.Attributes["v"]} {
			if got.Expr.Range_ != want.Expr.Range_ || got.Expr.StartRange_ != want.Expr.StartRange_ {
				return errf("%s: expression ranges %s %s, want %s %s", desc[i], rngStr(got.Expr.Range_), rngStr(got.Expr.StartRange_), rngStr(want.Expr.Range_), rngStr(want.Expr.StartRange_))
			}
			var wv cty.Value
			var werr error
			switch {
			case x.X != nil:
				wv, werr = x.X.Eval(c.Scope.Env())
			case x.T != nil:
				wv, werr = x.T.Eval(c.Scope.Env())
			default:
				// The cty library does not normalise property names.
				wv, werr = x.J.Eval(nil)
				if werr != nil || !plainKeys(x.J.J()) {
					continue
				}
			}
			v, diags, err := guardValue(&got.Expr, ctx, werr)
			if err != nil {
				return err
			}
			if err := sameOutcome(desc[i], v, diags, wv, werr); err != nil {
				return errf("after transport: %s", err)
			}
			var px hcl.Expression
			switch e := want.Expr; {
			case x.X != nil:
				px, _ = hclsyntax.ParseExpression(append(clone(e.Source), '\n'), e.Range_.Filename, e.Range_.Start)
			case x.T != nil:
				px, _ = hclsyntax.ParseTemplate(e.Source, e.Range_.Filename, e.Range_.Start)
			default:
				continue
			}
			gv, pv := got.Expr.Variables(), px.Variables()
			if len(gv) != len(pv) {
				return errf("%s: %d variables after transport, %d before", desc[i], len(gv), len(pv))
			}
			for i := range gv {
				if a, b := gv[i].SourceRange(), pv[i].SourceRange(); a != b {
					return errf("%s: variable %s is at %s after transport, at %s before", desc[i], travStr(gv[i]), rngStr(a), rngStr(b))
				}
			}
		}
	}
	return nil
}

func init() {
	engine.Add("C27", "sources", "at least two expressions", 40000, genPackSrc, checkPackSrc)
	rule := "the first file has three items or more"
	engine.Add("C27", "single", rule, 16000, genPackCase(false), checkPack)
	engine.Add("C27", "merged", rule, 8000, genPackCase(true), checkPack)
}
