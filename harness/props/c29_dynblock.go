package props

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// dynRef writes dynamic blocks out by hand. Each iteration gets a variable
// of its own, to which the references to the iterator are renamed.
type dynRef struct {
	vars  map[string]cty.Value
	n     int
	errs  []string
	undec bool // not decided whether there is an error
	// Counts for the report.
	dyns, nested, unks, zeros int
}

const unkVar = "unk__"

func newDynRef(scope model.Scope) *dynRef {
	d := &dynRef{vars: scope.Map()}
	d.vars[unkVar] = cty.DynamicVal
	return d
}

func (d *dynRef) fail(f string, a ...interface{}) { d.errs = append(d.errs, fmt.Sprintf(f, a...)) }

func (d *dynRef) eval(e *model.Expr) (cty.Value, bool) {
	x, err := parseAttrExpr(e.Native(nil))
	if err != nil {
		d.fail("%s", err)
		return cty.DynamicVal, false
	}
	v, diags := x.Value(evalCtx(d.vars))
	if diags.HasErrors() {
		d.fail("%s", diagStr(diags))
		return cty.DynamicVal, false
	}
	return v, true
}

func (d *dynRef) expand(b *model.Body, ren map[string]string, unk bool, depth int) *model.Body {
	ret := &model.Body{}
	for _, it := range b.Items {
		c := *it
		switch {
		case it.IsAttr():
			c.X = it.X.Rename(ren)
			if unk {
				c.X = &model.Expr{K: "var", S: unkVar}
			}
			ret.Items = append(ret.Items, &c)
		case it.Gen == nil:
			c.Body = d.expand(it.Body, ren, unk, depth)
			ret.Items = append(ret.Items, &c)
		default:
			ret.Items = append(ret.Items, d.generate(it, ren, unk, depth)...)
		}
	}
	return ret
}

func (d *dynRef) generate(it *model.Item, ren map[string]string, unk bool, depth int) []*model.Item {
	g := it.Gen
	d.dyns++
	if depth > 0 {
		d.nested++
	}
	if g.Form != "" {
		d.fail("dynamic block with %s", g.Form)
		return nil
	}
	each, ok := d.eval(g.Each.Rename(ren))
	if !ok {
		return nil
	}
	ty := each.Type()
	if each.IsNull() || ty != cty.DynamicPseudoType && !ty.IsCollectionType() && !ty.IsTupleType() && !ty.IsObjectType() {
		d.fail("cannot iterate over %s", vstr(each))
		return nil
	}
	type pair struct{ k, v cty.Value }
	var pairs []pair
	if each.IsKnown() {
		for i := each.ElementIterator(); i.Next(); {
			k, v := i.Element()
			pairs = append(pairs, pair{k, v})
		}
	} else {
		unk = true
		d.unks++
		pairs = append(pairs, pair{cty.DynamicVal, cty.DynamicVal})
	}
	if len(pairs) == 0 {
		d.zeros++
		if g.Odd {
			d.undec = true
		}
	}
	var out []*model.Item
	for _, p := range pairs {
		d.n++
		name := fmt.Sprintf("it__%d", d.n)
		d.vars[name] = cty.ObjectVal(map[string]cty.Value{"key": p.k, "value": p.v})
		r := map[string]string{}
		for k, v := range ren {
			r[k] = v
		}
		r[it.IterName()] = name
		bl := &model.Item{Name: it.Name, Labels: []string{}}
		bad := false
		for _, l := range g.Labels {
			v, ok := d.eval(l.Rename(r))
			if !ok {
				bad = true
				break
			}
			v, err := convert.Convert(v, cty.String)
			if err != nil || v.IsNull() || !v.IsKnown() {
				d.fail("%s is no label", vstr(v))
				bad = true
				break
			}
			bl.Labels = append(bl.Labels, v.AsString())
		}
		if bad {
			continue
		}
		bl.Body = d.expand(it.Body, r, unk, depth+1)
		out = append(out, bl)
	}
	return out
}

func (d *dynRef) label(r *engine.Rec) {
	r.Label("dynamic blocks %s", bucket(d.dyns))
	if d.nested > 0 {
		r.Label("nested")
	}
	if d.unks > 0 {
		r.Label("unknown collection")
	}
	if d.zeros > 0 {
		r.Label("empty collection")
	}
	if len(d.errs) > 0 {
		r.Label("unusable dynamic block")
	}
}

func bucket(n int) string {
	switch {
	case n < 3:
		return fmt.Sprint(n)
	case n < 6:
		return "3-5"
	}
	return "6+"
}

func nativeBody(b *model.Body, lay []byte) (hcl.Body, error) {
	src := b.Native(lay).Src
	f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", startPos)
	if diags.HasErrors() {
		return nil, errf("valid configuration rejected: %s\n%s", diagStr(diags), src)
	}
	return f.Body, nil
}

// guarded runs a decode and says whether it panicked.
func guarded(f func() (cty.Value, hcl.Diagnostics)) (v cty.Value, diags hcl.Diagnostics, p interface{}) {
	defer func() { p = recover() }()
	v, diags = f()
	return
}

func genDynSpecCase(bad, unk int) func(t *rapid.T) specCase {
	return func(t *rapid.T) specCase {
		c := specCase{Form: model.Pick(t, []string{"native", "native", "json", "pack", "merge"})}
		var unks []string
		c.Scope, unks = genDynScope(t, unk)
		g := model.NewGen(t, c.Scope, 0)
		g.Refs = true
		sg := &model.SpecGen{T: t, G: g, Scope: c.Scope, Dyn: 60, Unk: unks, Plain: model.Chance(t, 50)}
		if model.Chance(t, bad) {
			sg.Bad = model.Pick(t, []int{4, 12})
			sg.Once = model.Chance(t, 50)
		}
		sg.Labels = func(t *rapid.T) string { return model.Pick(t, []string{"x", "y", "foo", "é", "a b", "z"}) }
		c.Spec = sg.Spec(model.Int(t, 1, 3, "depth"))
		c.Body = sg.Body(c.Spec)
		if c.Form == "json" || c.Form == "merge" {
			fitLabels(c.Spec, c.Body)
		}
		if c.Form == "merge" {
			c.Cut = model.Int(t, 0, len(c.Body.Items), "cut")
		}
		c.Lay = lay(t)
		return c
	}
}

// genDynScope draws a scope, some with unknown collections.
func genDynScope(t *rapid.T, unk int) (model.Scope, []string) {
	o := genScopeOpts()
	unknown := model.Chance(t, unk)
	if unknown && model.Chance(t, 40) {
		o.Unk = 15
	}
	s := model.GenScopeN(t, o, 3)
	if !unknown {
		return s, nil
	}
	str := model.Ty{K: "str"}
	names := []string{"u1", "u2", "u3"}
	s.Names = append(s.Names, names...)
	s.Vals = append(s.Vals,
		model.Val{K: "unk", Ty: &model.Ty{K: "list", E: &str}},
		model.Val{K: "unk", Ty: &model.Ty{K: "dyn"}},
		model.Val{K: "unk", Ty: &model.Ty{K: "map", E: &str}})
	return s, names
}

// raw has the dynamic blocks written as such.
func (c specCase) raw() specCase {
	c.Body = c.Body.RawDyn()
	return c
}

func checkDynSpec(c specCase, r *engine.Rec) error {
	spec, err := toSpec(c.Spec)
	if err != nil {
		return err
	}
	raw := c.raw()
	body, err := raw.body()
	if err != nil {
		return err
	}
	ref := newDynRef(c.Scope)
	hand := ref.expand(c.Body, nil, false, 0)
	ref.label(r)
	r.Label("form %s", c.Form)
	r.NonTrivialIf(ref.n >= 2)
	r.Sample(specStr(c.Spec) + "\n" + raw.text())
	lit, err := nativeBody(hand, nil)
	if err != nil {
		return err
	}
	ctx := evalCtx(c.Scope.Map())
	want, wdiags, p := guarded(func() (cty.Value, hcl.Diagnostics) { return hcldec.Decode(lit, spec, evalCtx(ref.vars)) })
	if p != nil {
		r.Label("panic in the decoding of the plain body")
		return nil
	}
	got, diags := hcldec.Decode(dynblock.Expand(body, ctx), spec, ctx)
	why := func() string {
		return errf("\nby hand:\n%s\nspec: %s", hand.NativeCanon(), specStr(c.Spec)).Error()
	}
	if len(ref.errs) > 0 {
		if !diags.HasErrors() {
			return errf("no error reported; expected %q; value %s%s", ref.errs, vstr(got), why())
		}
		return nil
	}
	if ref.undec {
		return nil
	}
	if err := wellFormedIn(c.Form, "diagnostics", diags); err != nil {
		return err
	}
	if diags.HasErrors() != wdiags.HasErrors() {
		return errf("errors: %s; by hand: %s%s", orNone(diags), orNone(wdiags), why())
	}
	if !got.RawEquals(want) {
		return errf("decoded %s; by hand %s%s", vstr(got), vstr(want), why())
	}
	return nil
}

// ---- through schemas ----

type dynCase struct {
	Scope model.Scope `json:"scope"`
	Body  *model.Body `json:"body"`
	Form  string      `json:"form"`
	Cut   int         `json:"cut,omitempty"`
	Lay   []byte      `json:"lay,omitempty"`
	Plan  []byte      `json:"plan"`
}

var dynBlocks = []string{"blk", "svc", "foo", "lo"}
var dynAttrs = []string{"a", "b", "bar", "with-dash"}
var dynLabels = map[string]int{"blk": 0, "svc": 1, "foo": 2, "lo": 0}

func genDynBody(t *rapid.T, g *model.Gen, unks []string, bad, depth int) *model.Body {
	b := &model.Body{}
	for _, n := range model.Subset(t, dynAttrs, 3) {
		b.Items = append(b.Items, &model.Item{Name: n, X: g.Item(model.Int(t, 0, 1, "xd"))})
	}
	if depth == 0 {
		return b
	}
	for n := model.Count(t, 0, 3); n > 0; n-- {
		it := &model.Item{Name: model.Pick(t, dynBlocks)}
		body := func() { it.Body = genDynBody(t, g, unks, bad, depth-1) }
		lab := func() string { return model.Pick(t, []string{"x", "y", "foo", "é", "a b"}) }
		if model.Chance(t, 70) {
			d := &model.DynGen{T: t, G: g, Bad: bad, Unk: unks}
			label := func() *model.Expr {
				switch model.Weighted(t, 4, 2, 2) {
				case 0:
					return it.IterRef(model.Pick(t, []string{"key", "value"}))
				case 1:
					return g.Item(1)
				}
				return model.StrLit(lab())
			}
			d.Wrap(it, -1, dynLabels[it.Name], label, body)
		} else {
			for i := dynLabels[it.Name]; i > 0; i-- {
				it.Labels = append(it.Labels, lab())
			}
			body()
		}
		at := model.Int(t, 0, len(b.Items), "at")
		b.Items = append(b.Items[:at], append([]*model.Item{it}, b.Items[at:]...)...)
	}
	return b
}

func genDynCase(t *rapid.T) dynCase {
	c := dynCase{Form: model.Pick(t, []string{"native", "native", "json", "pack", "merge"})}
	var unks []string
	c.Scope, unks = genDynScope(t, 30)
	g := model.NewGen(t, c.Scope, 0)
	g.Refs = true
	bad := 0
	if model.Chance(t, 15) {
		bad = 10
	}
	c.Body = genDynBody(t, g, unks, bad, model.Int(t, 1, 3, "depth"))
	if c.Form == "merge" {
		c.Cut = model.Int(t, 0, len(c.Body.Items), "cut")
	}
	c.Lay = lay(t)
	c.Plan = rapid.SliceOfN(rapid.Byte(), 1, 24).Draw(t, "plan")
	return c
}

type dynCmp struct {
	form       string
	plan       []byte
	i          int
	got, want  *hcl.EvalContext
	undecided  bool // zero iterations somewhere
	blocks     int
	ignoreErrs bool
	json       bool // JSON has no difference between attributes and blocks
}

func (d *dynCmp) pick(n int) int {
	v := int(d.plan[d.i%len(d.plan)]) + d.i/len(d.plan)
	d.i++
	return v % n
}

func (d *dynCmp) schema(pct int) *hcl.BodySchema {
	s := &hcl.BodySchema{}
	for _, n := range dynAttrs {
		if d.pick(100) < pct {
			s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: n})
		}
	}
	for _, n := range dynBlocks {
		if d.pick(100) < pct {
			s.Blocks = append(s.Blocks, hcl.BlockHeaderSchema{Type: n, LabelNames: labelNames[:dynLabels[n]]})
		}
	}
	return s
}

func ownVars(ts []hcl.Traversal) string {
	var keep []hcl.Traversal
	for _, tr := range ts {
		if !strings.Contains(tr.RootName(), "__") {
			keep = append(keep, tr)
		}
	}
	return travSet(keep)
}

func (d *dynCmp) attrs(got, want hcl.Attributes) error {
	if len(got) != len(want) {
		return errf("attributes %v; by hand %v", model.SortedKeys(got), model.SortedKeys(want))
	}
	for n, w := range want {
		g, ok := got[n]
		if !ok {
			return errf("attribute %s is missing", n)
		}
		gv, gd := g.Expr.Value(d.got)
		wv, wd := w.Expr.Value(d.want)
		if err := wellFormed("diagnostics", gd); err != nil {
			return err
		}
		if gd.HasErrors() != wd.HasErrors() {
			return errf("attribute %s: errors %s; by hand %s", n, orNone(gd), orNone(wd))
		}
		if !gd.HasErrors() && !gv.RawEquals(wv) {
			return errf("attribute %s is %s; by hand %s", n, vstr(gv), vstr(wv))
		}
		if gs, ws := ownVars(g.Expr.Variables()), ownVars(w.Expr.Variables()); gs != ws {
			return errf("references of attribute %s are %s; by hand %s", n, gs, ws)
		}
	}
	return nil
}

func (d *dynCmp) content(got, want *hcl.BodyContent, gd, wd hcl.Diagnostics, partial bool) error {
	if err := wellFormedIn(d.form, "diagnostics", gd); err != nil {
		return err
	}
	if gd.HasErrors() != wd.HasErrors() && !d.ignoreErrs && !(d.undecided && !partial) {
		return errf("errors: %s; by hand: %s", orNone(gd), orNone(wd))
	}
	if err := d.attrs(got.Attributes, want.Attributes); err != nil {
		return err
	}
	if len(got.Blocks) != len(want.Blocks) {
		return errf("%d blocks; by hand %d", len(got.Blocks), len(want.Blocks))
	}
	for i, w := range want.Blocks {
		g := got.Blocks[i]
		if g.Type != w.Type || !sameStrings(g.Labels, w.Labels) {
			return errf("block %d is %s %q; by hand %s %q", i, g.Type, g.Labels, w.Type, w.Labels)
		}
		d.blocks++
		if len(g.LabelRanges) != len(g.Labels) {
			return errf("block %d has %d labels and %d label ranges", i, len(g.Labels), len(g.LabelRanges))
		}
		if err := d.bodies(g.Body, w.Body); err != nil {
			return errf("in block %d (%s %q): %w", i, g.Type, g.Labels, err)
		}
	}
	return nil
}

func (d *dynCmp) bodies(got, want hcl.Body) error {
	for n := d.pick(3); n > 0; n-- {
		s := d.schema(50)
		gc, grest, gd := got.PartialContent(s)
		wc, wrest, wd := want.PartialContent(s)
		if err := d.content(gc, wc, gd, wd, true); err != nil {
			return errf("partial decode with %s: %w", schemaStr(s), err)
		}
		got, want = grest, wrest
	}
	if d.pick(4) == 0 && !d.json {
		ga, gd := got.JustAttributes()
		wa, wd := want.JustAttributes()
		if err := wellFormedIn(d.form, "diagnostics", gd); err != nil {
			return err
		}
		if gd.HasErrors() != wd.HasErrors() && !d.undecided && !d.ignoreErrs {
			return errf("attributes mode: errors %s; by hand %s", orNone(gd), orNone(wd))
		}
		if err := d.attrs(ga, wa); err != nil {
			return errf("attributes mode: %w", err)
		}
	}
	pct := 100
	if d.pick(5) == 0 {
		pct = 70
	}
	s := d.schema(pct)
	gc, gd := got.Content(s)
	wc, wd := want.Content(s)
	if err := d.content(gc, wc, gd, wd, false); err != nil {
		return errf("decode with %s: %w", schemaStr(s), err)
	}
	return nil
}

func checkDynSchema(c dynCase, r *engine.Rec) error {
	sc := specCase{Scope: c.Scope, Body: c.Body.RawDyn(), Form: c.Form, Cut: c.Cut, Lay: c.Lay}
	body, err := sc.body()
	if err != nil {
		return err
	}
	ref := newDynRef(c.Scope)
	hand := ref.expand(c.Body, nil, false, 0)
	ref.label(r)
	r.Label("form %s", c.Form)
	r.NonTrivialIf(ref.n >= 2)
	r.Sample(sc.text())
	lit, err := nativeBody(hand, nil)
	if err != nil {
		return err
	}
	d := &dynCmp{plan: c.Plan, got: evalCtx(c.Scope.Map()), want: evalCtx(ref.vars), undecided: ref.zeros > 0, ignoreErrs: len(ref.errs) > 0, json: c.Form == "json" || c.Form == "merge", form: c.Form}
	if err := d.bodies(dynblock.Expand(body, d.got), lit); err != nil {
		return errf("%w\nby hand:\n%s", err, hand.NativeCanon())
	}
	if len(ref.errs) > 0 {
		// Somewhere on the way down there must be an error.
		if !anyError(dynblock.Expand(body, d.got), 5) {
			return errf("no error reported; expected %q", ref.errs)
		}
	}
	return nil
}

// anyError says whether decoding everything reports an error.
func anyError(b hcl.Body, depth int) bool {
	d := &dynCmp{plan: []byte{0}}
	content, diags := b.Content(d.schema(100))
	if diags.HasErrors() {
		return true
	}
	for _, bl := range content.Blocks {
		if anyError(bl.Body, depth-1) {
			return true
		}
	}
	return false
}

func init() {
	rule := "at least two blocks are generated"
	engine.Add("C29", "schemas", rule, 80000, genDynCase, checkDynSchema)
	engine.Add("C29", "specs", rule, 80000, genDynSpecCase(25, 30), checkDynSpec)
}
