package props

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/hashicorp/hcl2/ext/dynblock"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/ext/typeexpr"
	"github.com/hashicorp/hcl2/ext/userfunc"
	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/hashicorp/hcl2/hclpack"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// pureCase is a configuration with operations on it. Each group runs in its
// own goroutine.
type pureCase struct {
	Scope  model.Scope  `json:"scope"`
	Spec   *model.Spec  `json:"spec,omitempty"`
	Body   *model.Body  `json:"body"`
	Schema model.Schema `json:"schema"`
	Form   string       `json:"form"`
	Wrap   string       `json:"wrap,omitempty"`
	Cut    int          `json:"cut,omitempty"`
	Lay    []byte       `json:"lay,omitempty"`
	Groups [][]string   `json:"groups"`
}

// world is everything the operations work on.
type world struct {
	c        pureCase
	src      []byte
	body     hcl.Body
	files    map[string]*hcl.File
	ctx      *hcl.EvalContext
	schema   *hcl.BodySchema
	half     *hcl.BodySchema
	spec     hcldec.Spec
	specText string
	names    [][]string // label name lists with spare room
	travs    []hcl.Traversal
	diags    hcl.Diagnostics
}

const spare = "spare"

// roomy copies a list so that appending to it does not need a new one.
func roomy(s []string) []string {
	out := make([]string, len(s), len(s)+3)
	copy(out, s)
	for i := len(s); i < cap(out); i++ {
		out[:cap(out)][i] = spare
	}
	return out
}

func roomySpec(s *model.Spec, names *[][]string) *model.Spec {
	n := *s
	if n.K == "map" || n.K == "bobj" {
		n.Names = roomy(n.Names)
		*names = append(*names, n.Names)
	}
	n.Subs = nil
	for _, x := range s.Subs {
		n.Subs = append(n.Subs, roomySpec(x, names))
	}
	return &n
}

const pureFuncs = `
function "twice" {
  params = [x]
  result = [x, x]
}
function "outer" {
  params = [x]
  variadic_param = more
  result = [for m in more : "${m}-${outer_var}"]
}
`

func (c pureCase) world() (*world, error) {
	w := &world{c: c, files: map[string]*hcl.File{}}
	add := func(form string, items []*model.Item) (hcl.Body, error) {
		b := &model.Body{Items: items}
		switch form {
		case "json":
			src, _ := (&model.JEnc{Lay: c.Lay}).Body(b).Text(c.Lay)
			f, diags := json.Parse([]byte(src), "t.json")
			if diags.HasErrors() {
				return nil, errf("valid JSON rejected: %s", diagStr(diags))
			}
			w.files["t.json"] = f
			return f.Body, nil
		case "pack":
			p, diags := hclpack.PackNativeFile([]byte(b.Native(c.Lay).Src), "t.hcl", startPos)
			if diags.HasErrors() {
				return nil, errf("valid configuration rejected: %s", diagStr(diags))
			}
			return p, nil
		}
		f, diags := hclsyntax.ParseConfig([]byte(b.Native(c.Lay).Src), "t.hcl", startPos)
		if diags.HasErrors() {
			return nil, errf("valid configuration rejected: %s", diagStr(diags))
		}
		w.files["t.hcl"] = f
		return f.Body, nil
	}
	w.src = []byte(c.Body.Native(c.Lay).Src)
	var err error
	if c.Form == "merge" {
		var bs []hcl.Body
		for i, items := range [][]*model.Item{c.Body.Items[:c.Cut], c.Body.Items[c.Cut:]} {
			b, err := add([]string{"native", "json"}[i], items)
			if err != nil {
				return nil, err
			}
			bs = append(bs, b)
		}
		w.body = hcl.MergeBodies(bs)
	} else if w.body, err = add(c.Form, c.Body.Items); err != nil {
		return nil, err
	}

	vars := c.Scope.Map()
	funcs := map[string]function.Function{}
	for n, f := range ctyFuncs {
		funcs[n] = f
	}
	parent := evalCtx(map[string]cty.Value{"outer_var": cty.StringVal("o")})
	ff, diags := hclsyntax.ParseConfig([]byte(pureFuncs), "f.hcl", startPos)
	if diags.HasErrors() {
		return nil, errf("%s", diagStr(diags))
	}
	uf, _, diags := userfunc.DecodeUserFunctions(ff.Body, "function", func() *hcl.EvalContext { return parent })
	if diags.HasErrors() {
		return nil, errf("%s", diagStr(diags))
	}
	for n, f := range uf {
		funcs[n] = f
	}
	w.ctx = parent.NewChild()
	w.ctx.Variables, w.ctx.Functions = vars, funcs

	switch c.Wrap {
	case "dyn":
		w.body = dynblock.Expand(w.body, w.ctx)
	case "deep":
		w.body = transform.Deep(w.body, transform.TransformerFunc(func(b hcl.Body) hcl.Body { return b }))
	case "shallow":
		w.body = transform.Shallow(w.body, transform.TransformerFunc(func(b hcl.Body) hcl.Body { return b }))
	case "remain":
		_, w.body, _ = w.body.PartialContent(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "zzz"}}})
	}

	s := toSchema(c.Schema)
	w.schema = &hcl.BodySchema{
		Attributes: append(make([]hcl.AttributeSchema, 0, len(s.Attributes)+4), s.Attributes...),
		Blocks:     append(make([]hcl.BlockHeaderSchema, 0, len(s.Blocks)+4), s.Blocks...),
	}
	for i := range w.schema.Blocks {
		n := roomy(w.schema.Blocks[i].LabelNames)
		w.schema.Blocks[i].LabelNames = n
		w.names = append(w.names, n)
	}
	w.half = &hcl.BodySchema{Attributes: w.schema.Attributes[:len(s.Attributes)/2], Blocks: w.schema.Blocks[:(len(s.Blocks)+1)/2]}
	if c.Spec != nil {
		if w.spec, err = toSpec(roomySpec(c.Spec, &w.names)); err != nil {
			return nil, err
		}
	}
	w.travs = append(w.travs, hcl.Traversal{hcl.TraverseRoot{Name: "a"}, hcl.TraverseAttr{Name: "b"}})
	if c.Spec != nil {
		spec, err := toSpec(c.Spec)
		if err != nil {
			return nil, err
		}
		vs := hcldec.Variables(w.fresh(), spec)
		sort.Slice(vs, func(i, j int) bool { return vs[i].SourceRange().Start.Byte < vs[j].SourceRange().Start.Byte })
		w.travs = append(w.travs, vs...)
	}
	for _, f := range w.files {
		if b, ok := f.Body.(*hclsyntax.Body); ok {
			rng := b.SrcRange
			for i := 0; i < 3; i++ {
				w.diags = append(w.diags, &hcl.Diagnostic{Severity: hcl.DiagError, Summary: "s", Detail: "d e t a i l", Subject: &rng, EvalContext: w.ctx})
			}
			for _, n := range model.SortedKeys(b.Attributes) {
				a := b.Attributes[n]
				w.diags = append(w.diags, &hcl.Diagnostic{Severity: hcl.DiagWarning, Summary: "s", Detail: "d", Subject: a.Expr.Range().Ptr(), Context: &rng, Expression: a.Expr, EvalContext: w.ctx})
			}
		}
	}
	return w, nil
}

// fresh parses the source again, so that the shared body is not touched.
func (w *world) fresh() hcl.Body {
	f, _ := hclsyntax.ParseConfig(clone(w.src), "t.hcl", startPos)
	return f.Body
}

// snap describes the inputs.
func (w *world) snap() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "source %q\n", w.src)
	for _, n := range model.SortedKeys(w.files) {
		fmt.Fprintf(&sb, "file %s %q\n", n, w.files[n].Bytes)
	}
	sch := *w.schema
	fmt.Fprintf(&sb, "schema %#v %#v\n", sch.Attributes[:cap(sch.Attributes)], sch.Blocks[:cap(sch.Blocks)])
	for _, n := range w.names {
		fmt.Fprintf(&sb, "labels %q\n", n[:cap(n)])
	}
	for ctx := w.ctx; ctx != nil; ctx = ctx.Parent() {
		for _, n := range model.SortedKeys(ctx.Variables) {
			fmt.Fprintf(&sb, "%s = %#v\n", n, ctx.Variables[n])
		}
		fmt.Fprintf(&sb, "functions %q\n", model.SortedKeys(ctx.Functions))
	}
	for _, t := range w.travs {
		fmt.Fprintf(&sb, "traversal %#v\n", t)
	}
	if w.c.Spec != nil {
		fmt.Fprintf(&sb, "spec %s\n", specDump(reflect.ValueOf(w.spec), 0))
	}
	for _, d := range w.diags {
		fmt.Fprintf(&sb, "diag %v %s %s %v\n", d.Severity, d.Summary, d.Detail, d.Subject)
	}
	return sb.String()
}

// specDump prints a specification without addresses.
func specDump(v reflect.Value, depth int) string {
	if !v.IsValid() || depth > 40 {
		return "nil"
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case cty.Value:
			return vstr(x)
		case cty.Type:
			return x.GoString()
		case hclsyntax.Expression:
			return x.Range().String()
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if v.Type() == reflect.TypeOf(&hcl.EvalContext{}) {
			return "ctx"
		}
		return specDump(v.Elem(), depth+1)
	case reflect.Struct:
		s := v.Type().Name() + "{"
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				s += v.Type().Field(i).Name + ":" + specDump(v.Field(i), depth+1) + " "
			}
		}
		return s + "}"
	case reflect.Map:
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			ks = append(ks, fmt.Sprint(k))
			m[fmt.Sprint(k)] = v.MapIndex(k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += k + ":" + specDump(m[k], depth+1) + " "
		}
		return s + "}"
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += specDump(v.Index(i), depth+1) + " "
		}
		return s + "]"
	case reflect.Func:
		return "func"
	}
	return fmt.Sprintf("%v", v)
}

// contentDump evaluates and lists everything in a body content.
func (w *world) contentDump(c *hcl.BodyContent, how string) string {
	var sb strings.Builder
	if c == nil {
		return "nil"
	}
	for _, n := range model.SortedKeys(c.Attributes) {
		sb.WriteString(w.attrDump(c.Attributes[n], how))
	}
	for _, bl := range c.Blocks {
		fmt.Fprintf(&sb, "%s %q %v {", bl.Type, bl.Labels, bl.DefRange)
		attrs, diags := bl.Body.JustAttributes()
		fmt.Fprintf(&sb, "%d ", len(diags))
		for _, n := range model.SortedKeys(attrs) {
			sb.WriteString(w.attrDump(attrs[n], how))
		}
		sub, diags := bl.Body.Content(w.schema)
		fmt.Fprintf(&sb, "%d %s}", len(diags), w.contentDump(sub, how))
	}
	return sb.String()
}

func (w *world) attrDump(a *hcl.Attribute, how string) string {
	s := fmt.Sprintf("%s %v ", a.Name, a.Range)
	switch how {
	case "value":
		v, diags := a.Expr.Value(w.ctx)
		s += fmt.Sprintf("%#v %d", v, len(diags))
	case "vars":
		for _, t := range a.Expr.Variables() {
			s += travStr(t) + " "
		}
	case "static":
		l, d1 := hcl.ExprList(a.Expr)
		m, d2 := hcl.ExprMap(a.Expr)
		c, d3 := hcl.ExprCall(a.Expr)
		t, d4 := hcl.AbsTraversalForExpr(a.Expr)
		s += fmt.Sprintf("%d %d %d %d %d %d %d %v", len(l), len(d1), len(m), len(d2), len(d3), len(d4), len(t), c != nil)
	case "type":
		ty, diags := typeexpr.TypeConstraint(a.Expr)
		s += fmt.Sprintf("%#v %d", ty, len(diags))
	}
	return s + "\n"
}

// pureOps are the operations on shared inputs.
var pureOps = map[string]func(w *world) string{
	"lex": func(w *world) string {
		toks, d := hclsyntax.LexConfig(w.src, "t.hcl", startPos)
		return fmt.Sprintf("%#v %d", toks, len(d))
	},
	"parse": func(w *world) string {
		f, d := hclsyntax.ParseConfig(w.src, "t.hcl", startPos)
		n := 0
		hclsyntax.VisitAll(f.Body.(*hclsyntax.Body), func(hclsyntax.Node) hcl.Diagnostics { n++; return nil })
		return fmt.Sprintf("%d nodes %d", n, len(d))
	},
	"parsejson": func(w *world) string {
		s := ""
		for _, n := range model.SortedKeys(w.files) {
			f, d := json.Parse(w.files[n].Bytes, n)
			s += fmt.Sprintf("%v %d", f != nil, len(d))
		}
		return s
	},
	"format": func(w *world) string { return string(hclwrite.Format(w.src)) },
	"wparse": func(w *world) string {
		f, d := hclwrite.ParseConfig(w.src, "t.hcl", startPos)
		f.Body().SetAttributeValue("new_attr", cty.ListVal([]cty.Value{cty.StringVal("x")}))
		var b bytes.Buffer
		f.WriteTo(&b)
		return fmt.Sprintf("%s %d", b.String(), len(d))
	},
	"pack": func(w *world) string {
		b, d := hclpack.PackNativeFile(w.src, "t.hcl", startPos)
		j, err := stdjson.Marshal(b)
		return fmt.Sprintf("%s %v %d", j, err, len(d))
	},
	"visit": func(w *world) string {
		n := 0
		for _, k := range model.SortedKeys(w.files) {
			if b, ok := w.files[k].Body.(*hclsyntax.Body); ok {
				hclsyntax.VisitAll(b, func(hclsyntax.Node) hcl.Diagnostics { n++; return nil })
			}
		}
		return fmt.Sprint(n)
	},
	"just": func(w *world) string {
		m, d := w.body.JustAttributes()
		s := fmt.Sprint(len(d))
		for _, n := range model.SortedKeys(m) {
			s += w.attrDump(m[n], "value")
		}
		return s
	},
	"value": func(w *world) string {
		c, d := w.body.Content(w.schema)
		return w.contentDump(c, "value") + fmt.Sprint(len(d))
	},
	"vars": func(w *world) string {
		c, d := w.body.Content(w.schema)
		return w.contentDump(c, "vars") + fmt.Sprint(len(d))
	},
	"static": func(w *world) string {
		c, d := w.body.Content(w.schema)
		return w.contentDump(c, "static") + fmt.Sprint(len(d))
	},
	"type": func(w *world) string {
		c, d := w.body.Content(w.schema)
		return w.contentDump(c, "type") + fmt.Sprint(len(d))
	},
	"partial": func(w *world) string {
		c, rest, d := w.body.PartialContent(w.half)
		s := w.contentDump(c, "value") + fmt.Sprint(len(d))
		c, d = rest.Content(w.schema)
		return s + w.contentDump(c, "vars") + fmt.Sprint(len(d))
	},
	"missing": func(w *world) string { return fmt.Sprint(w.body.MissingItemRange()) },
	"decode": func(w *world) string {
		v, d := hcldec.Decode(w.body, w.spec, w.ctx)
		return fmt.Sprintf("%#v %d", v, len(d))
	},
	"pdecode": func(w *world) string {
		v, rest, d := hcldec.PartialDecode(w.body, w.spec, w.ctx)
		c, d2 := rest.Content(w.schema)
		return fmt.Sprintf("%#v %d %s %d", v, len(d), w.contentDump(c, ""), len(d2))
	},
	"decvars": func(w *world) string {
		var s []string
		for _, t := range hcldec.Variables(w.body, w.spec) {
			s = append(s, travStr(t))
		}
		sort.Strings(s)
		return strings.Join(s, " ")
	},
	"implied": func(w *world) string {
		s := hcldec.ImpliedSchema(w.spec)
		var as, bs []string
		for _, a := range s.Attributes {
			as = append(as, fmt.Sprint(a))
		}
		for _, b := range s.Blocks {
			bs = append(bs, fmt.Sprint(b))
		}
		sort.Strings(as)
		sort.Strings(bs)
		return fmt.Sprintf("%#v %v %v %v", hcldec.ImpliedType(w.spec), as, bs, hcldec.ChildBlockTypes(w.spec) == nil)
	},
	"range": func(w *world) string { return fmt.Sprint(hcldec.SourceRange(w.body, w.spec)) },
	"dyn": func(w *world) string {
		b := dynblock.Expand(w.body, w.ctx)
		v, d := hcldec.Decode(b, w.spec, w.ctx)
		n := len(dynblock.VariablesHCLDec(w.body, w.spec))
		return fmt.Sprintf("%#v %d %d", v, len(d), n)
	},
	"gohcl": func(w *world) string {
		var x struct {
			A    *hcl.Attribute `hcl:"a"`
			N    cty.Value      `hcl:"n,optional"`
			Rest hcl.Body       `hcl:",remain"`
		}
		d := gohcl.DecodeBody(w.body, w.ctx, &x)
		s, p := gohcl.ImpliedBodySchema(&x)
		return fmt.Sprintf("%v %#v %d %v %v", x.A != nil, x.N, len(d), len(s.Attributes), p)
	},
	"gomap": func(w *world) string {
		m := map[string]*hcl.Attribute{}
		d := gohcl.DecodeBody(w.body, w.ctx, &m)
		return fmt.Sprintf("%q %d", model.SortedKeys(m), len(d))
	},
	"diag": func(w *world) string {
		var b bytes.Buffer
		wr := hcl.NewDiagnosticTextWriter(&b, w.files, 40, false)
		err := wr.WriteDiagnostics(w.diags)
		return fmt.Sprint(b.String(), err, w.diags.HasErrors(), w.diags.Error())
	},
	"pos": func(w *world) string {
		s := ""
		for _, n := range model.SortedKeys(w.files) {
			f := w.files[n]
			for i := 0; i < len(w.src); i += 1 + len(w.src)/7 {
				p := hcl.Pos{Line: 1 + i%5, Column: 1 + i%11, Byte: i}
				s += fmt.Sprint(f.OutermostBlockAtPos(p) != nil, len(f.BlocksAtPos(p)), f.AttributeAtPos(p) != nil, f.OutermostExprAtPos(p) != nil)
			}
		}
		return s
	},
	"traverse": func(w *world) string {
		s := ""
		for _, t := range w.travs {
			v, d := t.TraverseAbs(w.ctx)
			j := hcl.TraversalJoin(t, hcl.Traversal{hcl.TraverseAttr{Name: "joined"}})
			sp := t.SimpleSplit()
			s += fmt.Sprintf("%#v %d %s %d %s;", v, len(d), travStr(j), len(sp.Rel), t.SourceRange())
		}
		return s
	},
	"userfunc": func(w *world) string {
		s := ""
		for _, n := range []string{"twice", "outer"} {
			v, err := w.ctx.Functions[n].Call([]cty.Value{cty.StringVal("p")})
			s += fmt.Sprintf("%#v %v;", v, err)
		}
		v, err := w.ctx.Functions["outer"].Call([]cty.Value{cty.Zero, cty.StringVal("p"), cty.True})
		return s + fmt.Sprintf("%#v %v;", v, err)
	},
	"tokens": func(w *world) string {
		s := ""
		for _, n := range model.SortedKeys(w.ctx.Variables) {
			v := w.ctx.Variables[n]
			if v.IsWhollyKnown() && !v.Type().IsCapsuleType() {
				s += string(hclwrite.TokensForValue(v).Bytes())
			}
		}
		for _, t := range w.travs {
			s += string(hclwrite.TokensForTraversal(t).Bytes())
		}
		return s
	},
	"template": func(w *world) string {
		x, d := hclsyntax.ParseTemplate(w.src, "t.hcl", startPos)
		v, d2 := x.Value(w.ctx)
		return fmt.Sprintf("%#v %d %d", v, len(d), len(d2))
	},
	"expression": func(w *world) string {
		x, d := hclsyntax.ParseExpression(w.src, "t.hcl", startPos)
		return fmt.Sprintf("%v %d", x != nil, len(d))
	},
}

func runOp(w *world, op string) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = "panic" // other properties are about these
		}
	}()
	return pureOps[op](w)
}

var specOps = map[string]bool{"decode": true, "pdecode": true, "decvars": true, "implied": true, "range": true, "dyn": true}

func genPure(groups int) func(t *rapid.T) pureCase {
	return func(t *rapid.T) pureCase {
		var c pureCase
		if model.Chance(t, 60) {
			s := genSpecCase(30, 15, "native", "native", "json", "pack", "merge")(t)
			c.Scope, c.Spec, c.Body, c.Form, c.Cut, c.Lay = s.Scope, s.Spec, s.Body, s.Form, s.Cut, s.Lay
			for _, it := range c.Body.Items {
				if it.IsAttr() {
					c.Schema.Attrs = append(c.Schema.Attrs, model.SAttr{Name: it.Name})
				} else {
					c.Schema.Blocks = append(c.Schema.Blocks, model.SBlock{Type: it.Name, Labels: min(len(it.Labels), len(labelNames))})
				}
			}
		} else {
			b := genBodyCase(t)
			c.Scope, c.Body, c.Lay = b.Scope, b.Body, b.Lay
			c.Form = model.Pick(t, []string{"native", "native", "pack"})
			for _, it := range c.Body.Items {
				if it.IsAttr() {
					c.Schema.Attrs = append(c.Schema.Attrs, model.SAttr{Name: it.Name})
				} else {
					c.Schema.Blocks = append(c.Schema.Blocks, model.SBlock{Type: it.Name, Labels: min(len(it.Labels), len(labelNames))})
				}
			}
		}
		seen := map[string]bool{}
		var as []model.SAttr
		for _, a := range c.Schema.Attrs {
			if !seen[a.Name] && !model.Chance(t, 10) {
				seen[a.Name] = true
				as = append(as, a)
			}
		}
		var bs []model.SBlock
		for _, b := range c.Schema.Blocks {
			if !seen[b.Type] && !model.Chance(t, 10) {
				seen[b.Type] = true
				bs = append(bs, b)
			}
		}
		c.Schema.Attrs, c.Schema.Blocks = as, bs
		if c.Form != "pack" || model.Chance(t, 30) {
			c.Wrap = model.Pick(t, []string{"", "", "", "dyn", "deep", "shallow", "remain"})
		}
		var ops []string
		for _, o := range model.SortedKeys(pureOps) {
			if c.Spec != nil || !specOps[o] {
				ops = append(ops, o)
				if o == "value" || o == "decode" || specOps[o] {
					ops = append(ops, o, o)
				}
			}
		}
		for i := 0; i < groups; i++ {
			var g []string
			for n := model.Count(t, 1, 5); n > 0; n-- {
				g = append(g, model.Pick(t, ops))
			}
			c.Groups = append(c.Groups, g)
		}
		return c
	}
}

func (c pureCase) text() string {
	return fmt.Sprintf("%s %s %v\n%s", c.Form, c.Wrap, c.Groups, c.Body.Native(c.Lay).Src)
}

// checkRepeat runs the operations one after another, each twice, and
// compares the inputs before and after.
func checkRepeat(c pureCase, r *engine.Rec) error {
	w, err := c.world()
	if err != nil {
		return err
	}
	r.Sample(c.text())
	a, b := c.Body.Count()
	r.NonTrivialIf(a+b >= 2)
	before := w.snap()
	first := map[string]string{}
	for _, g := range c.Groups {
		for _, op := range append(append([]string{}, g...), g...) {
			got := runOp(w, op)
			if want, ok := first[op]; ok && got != want {
				return errf("%s gives a different result the second time:\n%s\n---\n%s\n%s", op, want, got, c.text())
			}
			first[op] = got
			if after := w.snap(); after != before {
				return errf("%s modifies its inputs:\n%s\n%s", op, lineDiff(before, after), c.text())
			}
		}
	}
	// New inputs give the same as inputs that have been used before.
	w2, err := c.world()
	if err != nil {
		return err
	}
	for _, op := range model.SortedKeys(first) {
		r.Label("%s", op)
		if got := runOp(w2, op); got != first[op] {
			return errf("%s gives a different result after other operations:\n%s\n---\n%s\n%s", op, got, first[op], c.text())
		}
	}
	return nil
}

func lineDiff(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(as) && i < len(bs); i++ {
		if as[i] != bs[i] {
			return fmt.Sprintf("%s\nbecomes\n%s", as[i], bs[i])
		}
	}
	return ""
}

// checkParallel runs the groups of operations at the same time.
func checkParallel(c pureCase, r *engine.Rec) error {
	ref, err := c.world()
	if err != nil {
		return err
	}
	w, err := c.world()
	if err != nil {
		return err
	}
	r.Sample(c.text())
	a, b := c.Body.Count()
	r.NonTrivialIf(a+b >= 2 && len(c.Groups) >= 2)
	before := w.snap()
	races := raceErrors()
	got := make([][]string, len(c.Groups))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range c.Groups {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for _, op := range c.Groups[i] {
				got[i] = append(got[i], runOp(w, op))
			}
		}(i)
	}
	close(start)
	wg.Wait()
	if n := raceErrors() - races; n > 0 {
		return errf("%d data races\n%s", n, c.text())
	}
	if after := w.snap(); after != before {
		return errf("the inputs are modified:\n%s\n%s", lineDiff(before, after), c.text())
	}
	want := map[string]string{}
	for i, g := range c.Groups {
		for j, op := range g {
			if _, ok := want[op]; !ok {
				want[op] = runOp(ref, op)
			}
			if got[i][j] != want[op] {
				return errf("%s gives a different result in parallel:\n%s\n---\n%s\n%s", op, want[op], got[i][j], c.text())
			}
		}
	}
	return nil
}

func init() {
	engine.Add("C11", "repeat", "at least two items", 15000, genPure(2), checkRepeat)
	engine.Add("C11", "parallel", "at least two items and two goroutines", 10000, genPure(4), checkParallel)
}
