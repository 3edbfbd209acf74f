package props

import (
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

var labelNames = []string{
	"first", "second", "third", "fourth", "fifth", "sixth", "l7", "l8", "l9", "l10", "l11", "l12", "l13", "l14", "l15", "l16", "l17", "l18", "l19", "l20",
}

func toSchema(s model.Schema) *hcl.BodySchema {
	hs := &hcl.BodySchema{}
	for _, a := range s.Attrs {
		hs.Attributes = append(hs.Attributes, hcl.AttributeSchema{Name: a.Name, Required: a.Req})
	}
	for _, b := range s.Blocks {
		hs.Blocks = append(hs.Blocks, hcl.BlockHeaderSchema{Type: b.Type, LabelNames: labelNames[:b.Labels]})
	}
	return hs
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func inSpan(r hcl.Range, s model.Span) bool { return r.Start.Byte >= s.Start && r.End.Byte <= s.End }

func eqSpan(r hcl.Range, s model.Span) bool { return r.Start.Byte == s.Start && r.End.Byte == s.End }

type schemaCase struct {
	Body    *model.Body  `json:"body"`
	Schema  model.Schema `json:"schema"`
	Partial bool         `json:"partial,omitempty"`
	Lay     []byte       `json:"lay,omitempty"`
}

// checkNativeContent compares a decode of a native body with the reference
// and recurses into the blocks.
func checkNativeContent(b hcl.Body, m *model.Body, s model.Schema, partial bool, bt model.BodyText, depth int) error {
	var content *hcl.BodyContent
	var diags hcl.Diagnostics
	hs := toSchema(s)
	if partial {
		var rem hcl.Body
		content, rem, diags = b.PartialContent(hs)
		if rem == nil {
			return errf("no remaining body")
		}
	} else {
		content, diags = b.Content(hs)
	}
	ref := m.Apply(s, partial, model.NewHidden())
	if len(content.Attributes) != len(ref.Attrs) {
		return errf("%d attributes returned, want %d", len(content.Attributes), len(ref.Attrs))
	}
	for n, it := range ref.Attrs {
		a := content.Attributes[n]
		if a == nil || a.Name != n || !eqSpan(a.NameRange, bt.Spans[it].Name) || !eqSpan(a.Range, bt.Spans[it].Full(it)) {
			return errf("attribute %s is not the one written", n)
		}
	}
	if len(content.Blocks) != len(ref.Blocks) {
		return errf("%d blocks returned, want %d", len(content.Blocks), len(ref.Blocks))
	}
	for i, it := range ref.Blocks {
		bl := content.Blocks[i]
		if bl.Type != it.Name || !sameStrings(normAll(bl.Labels), normAll(it.Labels)) || !eqSpan(bl.TypeRange, bt.Spans[it].Name) {
			return errf("block %d is %s %q, want %s %q", i, bl.Type, bl.Labels, it.Name, it.Labels)
		}
		if depth > 0 {
			if err := checkNativeContent(bl.Body, it.Body, it.Body.FullSchema(), false, bt, depth-1); err != nil {
				return errf("in block %s: %w", it.Name, err)
			}
		}
	}
	if err := checkByType(content.Blocks); err != nil {
		return err
	}
	if err := wellFormed("diagnostics", diags); err != nil {
		return err
	}
	if diags.HasErrors() != (len(ref.Errs) > 0) {
		return errf("errors: %s; expected: %s", orNone(diags), strings.Join(ref.Errs, "; "))
	}
	// Every extraneous item is pointed at.
	named := map[*model.Item]bool{}
	for _, it := range ref.Attrs {
		named[it] = true
	}
	for _, it := range ref.Blocks {
		named[it] = true
	}
	inSchema := map[string]bool{}
	for _, x := range s.Blocks {
		inSchema[x.Type] = true
	}
	for _, it := range m.Items {
		if named[it] || partial && (it.IsAttr() || !inSchema[it.Name]) {
			continue
		}
		ok := false
		for _, d := range diags {
			ok = ok || d.Severity == hcl.DiagError && d.Subject != nil && inSpan(*d.Subject, bt.Spans[it].Full(it))
		}
		if !ok {
			return errf("no error points at the unacceptable item %s", it.Name)
		}
	}
	return nil
}

// checkByType compares the ways of selecting blocks by their types.
func checkByType(blocks hcl.Blocks) error {
	want := map[string]hcl.Blocks{"nosuch": nil}
	for _, bl := range blocks {
		want[bl.Type] = append(want[bl.Type], bl)
	}
	by := blocks.ByType()
	if len(by) != len(want)-1 {
		return errf("blocks of %d types, grouped as %d", len(want)-1, len(by))
	}
	for ty, w := range want {
		for _, got := range []hcl.Blocks{by[ty], blocks.OfType(ty)} {
			if len(got) != len(w) {
				return errf("%d blocks of type %s, %d are selected", len(w), ty, len(got))
			}
			for i := range w {
				if got[i] != w[i] {
					return errf("the selected blocks of type %s are not in order", ty)
				}
			}
		}
	}
	return nil
}

func normAll(ss []string) []string {
	out := make([]string, len(ss))
	for i, s := range ss {
		out[i] = model.NFC(s)
	}
	return out
}

type jsonSchemaCase struct {
	J       *model.J     `json:"j"`
	Schema  model.Schema `json:"schema"`
	Inner   model.Schema `json:"inner"`
	Partial bool         `json:"partial,omitempty"`
	Lay     []byte       `json:"lay,omitempty"`
}

// checkJSONContent returns whether the reference found the body erroneous.
func checkJSONContent(b hcl.Body, j *model.J, s, inner model.Schema, partial bool, pr *model.JPrinter, depth int, r *engine.Rec) error {
	var content *hcl.BodyContent
	var diags hcl.Diagnostics
	hs := toSchema(s)
	if partial {
		var rem hcl.Body
		content, rem, diags = b.PartialContent(hs)
		if rem == nil {
			return errf("no remaining body")
		}
	} else {
		content, diags = b.Content(hs)
	}
	ref := j.ApplyJSON(s, partial, model.NewHidden())
	key := func(p model.JProp) model.Span { return pr.KeySpans[p.Obj][p.I] }
	if len(content.Attributes) != len(ref.Attrs) {
		return errf("%d attributes returned, want %d", len(content.Attributes), len(ref.Attrs))
	}
	for n, p := range ref.Attrs {
		a := content.Attributes[n]
		if a == nil || a.Name != n || !eqSpan(a.NameRange, key(p)) || !eqSpan(a.Expr.Range(), pr.Spans[p.Val()]) {
			return errf("attribute %s is not the one written", n)
		}
	}
	if len(content.Blocks) != len(ref.Blocks) {
		return errf("%d blocks returned, want %d", len(content.Blocks), len(ref.Blocks))
	}
	for i, rb := range ref.Blocks {
		bl := content.Blocks[i]
		var labels []string
		for _, l := range rb.Labels {
			labels = append(labels, l.Name())
		}
		if bl.Type != rb.Type.Name() || !eqSpan(bl.TypeRange, key(rb.Type)) || !sameStrings(bl.Labels, labels) {
			return errf("block %d is %s %q, want %s %q", i, bl.Type, bl.Labels, rb.Type.Name(), labels)
		}
		for k, l := range rb.Labels {
			if len(bl.LabelRanges) != len(labels) || !eqSpan(bl.LabelRanges[k], key(l)) {
				return errf("label range %d of block %s is wrong", k, bl.Type)
			}
		}
		if depth > 0 {
			r.Label("nested body")
			if err := checkJSONContent(bl.Body, rb.Body, inner, inner, partial, pr, depth-1, r); err != nil {
				return errf("in block %s: %s", bl.Type, err)
			}
		}
	}
	if err := wellFormed("diagnostics", diags); err != nil {
		return err
	}
	if !ref.Unsure && diags.HasErrors() != (len(ref.Errs) > 0) {
		return errf("errors: %s; expected: %s", orNone(diags), strings.Join(ref.Errs, "; "))
	}
	return nil
}

func init() {
	engine.Add("C12", "native", "at least two items and a schema naming some of them", 160000,
		func(t *rapid.T) schemaCase {
			g := model.NewGen(t, model.Scope{}, 0)
			o := model.StdBody()
			o.XDepth = 1
			o.Max = 6
			c := schemaCase{Body: g.Body(o), Partial: model.Chance(t, 40), Lay: lay(t)}
			c.Schema = model.GenSchema(t, c.Body, o)
			return c
		},
		func(c schemaCase, r *engine.Rec) error {
			bt := c.Body.Native(c.Lay)
			r.Sample(bt.Src)
			f, diags := hclsyntax.ParseConfig([]byte(bt.Src), "t.hcl", startPos)
			if diags.HasErrors() {
				return errf("valid configuration rejected: %s\n%s", diagStr(diags), bt.Src)
			}
			ref := c.Body.Apply(c.Schema, c.Partial, model.NewHidden())
			r.NonTrivialIf(len(c.Body.Items) >= 2 && len(ref.Attrs)+len(ref.Blocks) > 0)
			if len(ref.Errs) > 0 {
				r.Label("with errors")
			} else {
				r.Label("valid")
			}
			if err := checkNativeContent(f.Body, c.Body, c.Schema, c.Partial, bt, 2); err != nil {
				return errf("%s\n%s", err, bt.Src)
			}
			// Attributes-only mode.
			attrs, diags := f.Body.JustAttributes()
			na, blocks := 0, false
			for _, it := range c.Body.Items {
				if !it.IsAttr() {
					blocks = true
					continue
				}
				na++
				if a := attrs[it.Name]; a == nil || a.Name != it.Name || !eqSpan(a.Range, bt.Spans[it].Full(it)) {
					return errf("attributes-only mode does not return %s\n%s", it.Name, bt.Src)
				}
			}
			if err := wellFormed("diagnostics", diags); err != nil {
				return err
			}
			if len(attrs) != na || diags.HasErrors() != blocks {
				return errf("attributes-only mode returns %d attributes with %s, want %d and errors %v\n%s", len(attrs), orNone(diags), na, blocks, bt.Src)
			}
			return nil
		})
	names := []string{"a", "b", "blk", "svc", "foo", "bar", "//", "é1"}
	engine.Add("C12", "json", "a body with at least two properties of which the schema names some", 160000,
		func(t *rapid.T) jsonSchemaCase {
			keys := func(t *rapid.T) string {
				if model.Chance(t, 8) {
					return model.AnyText(t)
				}
				return model.Pick(t, names)
			}
			var c jsonSchemaCase
			genS := func() model.Schema {
				var s model.Schema
				for _, n := range names {
					if n == "//" {
						continue
					}
					switch model.Weighted(t, 3, 4, 3, 2, 1) {
					case 0:
					case 1:
						s.Attrs = append(s.Attrs, model.SAttr{Name: n, Req: model.Chance(t, 15)})
					default:
						s.Blocks = append(s.Blocks, model.SBlock{Type: n, Labels: model.Weighted(t, 4, 3, 2)})
					}
				}
				return s
			}
			switch model.Weighted(t, 3, 3, 2) {
			case 0:
				c.J = model.GenJ(t, keys, 4)
				c.Schema, c.Inner = genS(), genS()
			case 1:
				g := model.NewGen(t, model.Scope{}, 0)
				o := model.JSONBody()
				o.XDepth = 1
				body := g.Body(o)
				c.J = (&model.JEnc{Lay: lay(t)}).Body(body)
				c.Schema = model.GenSchema(t, body, o)
				c.Inner = genS()
			default:
				g := model.NewGen(t, model.Scope{}, 0)
				o := model.JSONBody()
				o.XDepth = 1
				body := g.Body(o)
				c.J = (&model.JEnc{Lay: lay(t)}).Body(body).Damage(t, keys)
				c.Schema = model.GenSchema(t, body, o)
				c.Inner = genS()
			}
			if c.J.K != "obj" && c.J.K != "arr" {
				c.J = &model.J{K: "obj"}
			}
			c.Partial = model.Chance(t, 40)
			c.Lay = lay(t)
			return c
		},
		func(c jsonSchemaCase, r *engine.Rec) error {
			src, pr := c.J.Text(c.Lay)
			r.Sample(src)
			f, diags := json.Parse([]byte(src), "t.json")
			if f == nil || f.Body == nil {
				return errf("no file")
			}
			if diags.HasErrors() {
				for _, e := range c.J.L {
					if c.J.K == "arr" && e.K != "obj" {
						r.Label("refused at parsing")
						return nil
					}
				}
				return errf("valid JSON rejected: %s\n%s", diagStr(diags), src)
			}
			ref := c.J.ApplyJSON(c.Schema, c.Partial, model.NewHidden())
			r.NonTrivialIf(len(ref.Attrs)+len(ref.Blocks) > 1)
			switch {
			case ref.Unsure:
				r.Label("undetermined")
			case len(ref.Errs) > 0:
				r.Label("with errors")
			default:
				r.Label("valid")
			}
			if err := checkJSONContent(f.Body, c.J, c.Schema, c.Inner, c.Partial, pr, 2, r); err != nil {
				return errf("%s\n%s", err, src)
			}
			attrs, diags := f.Body.JustAttributes()
			if c.J.K != "obj" {
				if !diags.HasErrors() {
					return errf("attributes-only mode accepts a body that is not an object\n%s", src)
				}
				return nil
			}
			want, dup := map[string]int{}, false
			for i, k := range c.J.Keys {
				if k == "//" {
					continue
				}
				if _, ok := want[k]; ok {
					dup = true
					continue
				}
				want[k] = i
			}
			for k, i := range want {
				if a := attrs[k]; a == nil || a.Name != k || !eqSpan(a.NameRange, pr.KeySpans[c.J][i]) || !eqSpan(a.Expr.Range(), pr.Spans[c.J.L[i]]) {
					return errf("attributes-only mode does not return %q\n%s", k, src)
				}
			}
			if err := wellFormed("diagnostics", diags); err != nil {
				return err
			}
			if len(attrs) != len(want) || diags.HasErrors() != dup {
				return errf("attributes-only mode returns %d attributes with %s, want %d and errors %v\n%s", len(attrs), orNone(diags), len(want), dup, src)
			}
			return nil
		})
}
