package props

import (
	ejson "encoding/json"
	"errors"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type equivCase struct {
	Scope model.Scope `json:"scope"`
	Body  *model.Body `json:"body"`
	Lay   []byte      `json:"lay,omitempty"`
	JLay  []byte      `json:"jlay,omitempty"`
}

func genEquivCase(t *rapid.T) equivCase {
	c := equivCase{Scope: model.GenScopeN(t, genScopeOpts(), 1)}
	g := model.NewGen(t, c.Scope, 4)
	g.Refs = model.Chance(t, 40)
	o := model.JSONBody()
	o.XDepth = 3
	o.Max = 5
	c.Body = g.Body(o)
	c.Lay, c.JLay = lay(t), lay(t)
	return c
}

// travSet is the set of references as text.
func travSet(ts []hcl.Traversal) string {
	m := map[string]bool{}
	for _, tr := range ts {
		m[travStr(tr)] = true
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func checkEquiv(n, j hcl.Body, m *model.Body, env *model.Env, ctx *hcl.EvalContext) error {
	s := toSchema(m.FullSchema())
	nc, nd := n.Content(s)
	jc, jd := j.Content(s)
	if nd.HasErrors() || jd.HasErrors() {
		return errf("decoding fails: native %s; JSON %s", orNone(nd), orNone(jd))
	}
	if len(nc.Attributes) != len(jc.Attributes) || len(nc.Blocks) != len(jc.Blocks) {
		return errf("native has %d attributes and %d blocks, JSON %d and %d", len(nc.Attributes), len(nc.Blocks), len(jc.Attributes), len(jc.Blocks))
	}
	for _, it := range m.Items {
		if !it.IsAttr() {
			continue
		}
		na, ja := nc.Attributes[it.Name], jc.Attributes[it.Name]
		if na == nil || ja == nil {
			return errf("attribute %s is missing", it.Name)
		}
		_, werr := it.X.Eval(env)
		nv, nd, err := guardValue(na.Expr, ctx, werr)
		if err != nil {
			return err
		}
		jv, jd, err := guardValue(ja.Expr, ctx, werr)
		if err != nil {
			return err
		}
		if nd.HasErrors() != jd.HasErrors() {
			return errf("attribute %s: native evaluates with %s, JSON with %s", it.Name, orNone(nd), orNone(jd))
		}
		if !nd.HasErrors() && !nv.RawEquals(jv) {
			return errf("attribute %s: native gives %s, JSON %s", it.Name, vstr(nv), vstr(jv))
		}
		if a, b := travSet(na.Expr.Variables()), travSet(ja.Expr.Variables()); a != b {
			return errf("attribute %s: native refers to [%s], JSON to [%s]", it.Name, a, b)
		}
	}
	i := 0
	for _, it := range m.Items {
		if it.IsAttr() {
			continue
		}
		nb, jb := nc.Blocks[i], jc.Blocks[i]
		i++
		if nb.Type != it.Name || jb.Type != it.Name || !sameStrings(normAll(nb.Labels), normAll(jb.Labels)) {
			return errf("block %d: native %s %q, JSON %s %q", i-1, nb.Type, nb.Labels, jb.Type, jb.Labels)
		}
		if err := checkEquiv(nb.Body, jb.Body, it.Body, env, ctx); err != nil {
			return errf("in block %s: %w", it.Name, err)
		}
	}
	return nil
}

type jbytesCase struct {
	Src    []byte       `json:"src"`
	Kind   string       `json:"kind"`
	Schema model.Schema `json:"schema"`
}

// exercise runs every decoding method on a body that may be damaged.
func exercise(b hcl.Body, s model.Schema, depth int) {
	ctx := evalCtx(map[string]cty.Value{"a": cty.NumberIntVal(1), "b": cty.StringVal("x")})
	hs := toSchema(s)
	use := func(c *hcl.BodyContent) {
		for _, a := range c.Attributes {
			a.Expr.Value(nil)
			a.Expr.Value(ctx)
			a.Expr.Variables()
			a.Expr.Range()
			a.Expr.StartRange()
			hcl.ExprList(a.Expr)
			hcl.ExprMap(a.Expr)
			hcl.ExprCall(a.Expr)
			hcl.AbsTraversalForExpr(a.Expr)
			hcl.ExprAsKeyword(a.Expr)
		}
		for _, bl := range c.Blocks {
			if depth > 0 {
				exercise(bl.Body, s, depth-1)
			}
		}
	}
	c, _ := b.Content(hs)
	use(c)
	c, rem, _ := b.PartialContent(hs)
	use(c)
	at, _ := b.JustAttributes()
	use(&hcl.BodyContent{Attributes: at})
	rem.Content(hs)
	at, _ = rem.JustAttributes()
	use(&hcl.BodyContent{Attributes: at})
	b.MissingItemRange()
}

func genJDoc(t *rapid.T) *model.J {
	keys := func(t *rapid.T) string {
		if model.Chance(t, 30) {
			return model.AnyText(t)
		}
		return model.Pick(t, []string{"a", "b", "blk", "svc", "foo", "//"})
	}
	return model.GenJ(t, keys, model.Int(t, 1, 4, "depth"))
}

func init() {
	engine.Add("C15", "pair", "the configuration has at least three items", 96000, genEquivCase,
		func(c equivCase, r *engine.Rec) error {
			nsrc := c.Body.Native(c.Lay).Src
			jsrc, _ := (&model.JEnc{Lay: c.JLay}).Body(c.Body).Text(c.JLay)
			r.Sample(nsrc + "-- json --\n" + jsrc)
			attrs, blocks := c.Body.Count()
			r.NonTrivialIf(attrs+blocks >= 3)
			if blocks > 0 {
				r.Label("with blocks")
			}
			nf, diags := hclsyntax.ParseConfig([]byte(nsrc), "t.hcl", startPos)
			if diags.HasErrors() {
				return errf("valid configuration rejected: %s\n%s", diagStr(diags), nsrc)
			}
			jf, diags := json.Parse([]byte(jsrc), "t.json")
			if diags.HasErrors() {
				return errf("valid JSON rejected: %s\n%s", diagStr(diags), jsrc)
			}
			if err := checkEquiv(nf.Body, jf.Body, c.Body, c.Scope.Env(), evalCtx(c.Scope.Map())); err != nil {
				if k := (*engine.Known)(nil); errors.As(err, &k) {
					return k
				}
				return errf("%s\n%s\n%s", err, nsrc, jsrc)
			}
			return nil
		})

	engine.Add("C16", "accept", "the document is not plain valid JSON but shares structure with it, or is valid with at least 10 bytes", 900000,
		func(t *rapid.T) jbytesCase {
			var c jbytesCase
			valid := func() string {
				s, _ := genJDoc(t).Text(lay(t))
				return s
			}
			switch model.Weighted(t, 3, 4, 3, 1, 4) {
			case 0:
				c.Src, c.Kind = []byte(valid()), "valid"
			case 1:
				c.Src, c.Kind = []byte(model.Mutate(t, valid(), model.JPieces)), "mutated"
			case 2:
				c.Src, c.Kind = []byte(model.Soup(t, model.JPieces, 16)), "soup"
			case 3:
				c.Src, c.Kind = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "bytes"), "bytes"
			default:
				c.Src, c.Kind = []byte(model.MutateJTokens(t, valid())), "token edits"
			}
			c.Src = []byte(model.Tame(string(c.Src)))
			for _, n := range []string{"a", "b", "foo"} {
				if model.Chance(t, 70) {
					c.Schema.Attrs = append(c.Schema.Attrs, model.SAttr{Name: n, Req: model.Chance(t, 20)})
				}
			}
			for i, n := range []string{"blk", "svc", "dynamic"} {
				if model.Chance(t, 70) {
					c.Schema.Blocks = append(c.Schema.Blocks, model.SBlock{Type: n, Labels: i})
				}
			}
			return c
		},
		func(c jbytesCase, r *engine.Rec) error {
			r.Sample(string(c.Src))
			r.Label(c.Kind)
			keep := clone(c.Src)
			f, diags := json.Parse(c.Src, "t.json")
			if f == nil || f.Body == nil {
				return errf("no file for %q", c.Src)
			}
			exercise(f.Body, c.Schema, 3)
			if !sameBytes(keep, c.Src) {
				return errf("parsing changed the source buffer %q", keep)
			}
			var v interface{}
			dec := ejson.NewDecoder(strings.NewReader(string(c.Src)))
			dec.UseNumber()
			valid := ejson.Valid(c.Src)
			if valid && dec.Decode(&v) == nil {
				switch v.(type) {
				case map[string]interface{}, []interface{}:
				default:
					valid = false
					r.Label("valid JSON but not a body")
				}
			}
			r.NonTrivialIf(!valid && (c.Kind == "mutated" || len(c.Src) > 4) || valid && len(c.Src) >= 10)
			if !utf8.Valid(c.Src) {
				r.Label("not UTF-8")
				return nil
			}
			if valid {
				r.Label("accepted")
			}
			if diags.HasErrors() == valid {
				return errf("%q is a valid JSON body: %v, but parsing reports %s", c.Src, valid, orNone(diags))
			}
			if err := wellFormed("parsing", diags); err != nil {
				return errf("%s\n%q", err, c.Src)
			}
			for _, d := range diags {
				if d.Subject.Filename != "t.json" {
					return errf("the subject of %s has file name %q", d.Summary, d.Subject.Filename)
				}
				for _, p := range []hcl.Pos{d.Subject.Start, d.Subject.End} {
					if p.Byte < 0 || p.Byte > len(c.Src) || d.Subject.Start.Byte > d.Subject.End.Byte {
						return errf("the subject of %q is outside of the source: %#v\n%q", d.Summary, *d.Subject, c.Src)
					}
					if line := 1 + strings.Count(string(c.Src[:p.Byte]), "\n"); line != p.Line {
						return errf("the subject of %q has byte %d, which is on line %d, and line %d\n%q", d.Summary, p.Byte, line, p.Line, c.Src)
					}
				}
			}
			return nil
		})

	engine.Add("C16", "ranges", "the document has at least 5 nodes", 450000,
		func(t *rapid.T) jsonSchemaCase {
			j := genJDoc(t)
			if j.K != "obj" {
				j = &model.J{K: "obj", Keys: []string{"a"}, L: []*model.J{j}}
			}
			return jsonSchemaCase{J: j, Lay: lay(t)}
		},
		func(c jsonSchemaCase, r *engine.Rec) error {
			src, pr := c.J.Text(c.Lay)
			r.Sample(src)
			r.NonTrivialIf(c.J.Size() >= 5)
			f, diags := json.Parse([]byte(src), "t.json")
			if diags.HasErrors() {
				return errf("valid JSON rejected: %s\n%s", diagStr(diags), src)
			}
			pos := func(p hcl.Pos, at int, what string) error {
				before := src[:at]
				line := 1 + strings.Count(before, "\n")
				if p.Byte != at || p.Line != line {
					return errf("%s is at line %d byte %d, want line %d byte %d\n%s", what, p.Line, p.Byte, line, at, src)
				}
				tail := before[strings.LastIndex(before, "\n")+1:]
				for _, ch := range tail {
					if ch < ' ' || ch > 0xff || ch == 0x7f || ch > 0x7f && ch < 0xc0 {
						return nil
					}
				}
				if want := 1 + utf8.RuneCountInString(tail); p.Column != want {
					return errf("%s is at column %d, want %d\n%s", what, p.Column, want, src)
				}
				return nil
			}
			rng := func(g hcl.Range, s model.Span, what string) error {
				if g.Filename != "t.json" {
					return errf("%s has file name %q", what, g.Filename)
				}
				if err := pos(g.Start, s.Start, what); err != nil {
					return err
				}
				return pos(g.End, s.End, "the end of "+what)
			}
			var walk func(e hcl.Expression, j *model.J) error
			walk = func(e hcl.Expression, j *model.J) error {
				if err := rng(e.Range(), pr.Spans[j], "a "+j.K); err != nil {
					return err
				}
				switch j.K {
				case "arr":
					es, diags := hcl.ExprList(e)
					if diags.HasErrors() || len(es) != len(j.L) {
						return errf("array of %d elements has %d (%s)\n%s", len(j.L), len(es), orNone(diags), src)
					}
					for i := range es {
						if err := walk(es[i], j.L[i]); err != nil {
							return err
						}
					}
				case "obj":
					kvs, diags := hcl.ExprMap(e)
					if diags.HasErrors() || len(kvs) != len(j.L) {
						return errf("object of %d properties has %d (%s)\n%s", len(j.L), len(kvs), orNone(diags), src)
					}
					for i := range kvs {
						if err := rng(kvs[i].Key.Range(), pr.KeySpans[j][i], "a key"); err != nil {
							return err
						}
						if err := walk(kvs[i].Value, j.L[i]); err != nil {
							return err
						}
					}
				}
				return nil
			}
			attrs, _ := f.Body.JustAttributes()
			seen := map[string]bool{}
			for i, k := range c.J.Keys {
				if seen[k] || k == "//" {
					continue
				}
				seen[k] = true
				a := attrs[k]
				if a == nil {
					return errf("property %q is missing\n%s", k, src)
				}
				if err := rng(a.NameRange, pr.KeySpans[c.J][i], "a property name"); err != nil {
					return err
				}
				if err := rng(a.Range, model.Span{Start: pr.KeySpans[c.J][i].Start, End: pr.Spans[c.J.L[i]].End}, "a property"); err != nil {
					return err
				}
				if err := walk(a.Expr, c.J.L[i]); err != nil {
					return err
				}
			}
			if r0 := f.Body.MissingItemRange(); !inSpan(r0, pr.Spans[c.J]) {
				return errf("missing item range %v is outside the body", r0)
			}
			return nil
		})
}
