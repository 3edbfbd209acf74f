package props

import (
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type bodyCase struct {
	Scope model.Scope `json:"scope"`
	Body  *model.Body `json:"body"`
	Lay   []byte      `json:"lay,omitempty"`
}

func genBodyCase(t *rapid.T) bodyCase {
	c := bodyCase{Scope: model.GenScope(t, genScopeOpts())}
	g := model.NewGen(t, c.Scope, 4)
	o := model.StdBody()
	o.XDepth = 3
	c.Body = g.Body(o)
	c.Lay = lay(t)
	return c
}

// ranger verifies ranges against the source text and the token positions.
type ranger struct {
	src  []byte
	base hcl.Pos
	at   map[int]hcl.Pos // positions of token boundaries by byte offset
}

func newRanger(src []byte, base hcl.Pos) *ranger {
	toks, _ := hclsyntax.LexConfig(src, "t.hcl", base)
	r := &ranger{src: src, base: base, at: map[int]hcl.Pos{}}
	for _, t := range toks {
		r.at[t.Range.Start.Byte] = t.Range.Start
		if _, ok := r.at[t.Range.End.Byte]; !ok {
			r.at[t.Range.End.Byte] = t.Range.End
		}
	}
	return r
}

func (r *ranger) text(rng hcl.Range) (string, error) {
	lo, hi := rng.Start.Byte-r.base.Byte, rng.End.Byte-r.base.Byte
	if lo < 0 || hi > len(r.src) || lo > hi {
		return "", errf("range %d-%d is not inside the source", lo, hi)
	}
	return string(r.src[lo:hi]), nil
}

// is checks that a range slices to the given text and that its positions are
// the positions of token boundaries.
func (r *ranger) is(what string, rng hcl.Range, want string) error {
	got, err := r.text(rng)
	if err != nil {
		return errf("%s: %s", what, err)
	}
	if got != want {
		return errf("%s: the range covers %q, not %q", what, got, want)
	}
	return r.pos(what, rng)
}

func (r *ranger) span(what string, rng hcl.Range, sp model.Span) error {
	if rng.Start.Byte-r.base.Byte != sp.Start || rng.End.Byte-r.base.Byte != sp.End {
		got, _ := r.text(rng)
		return errf("%s: the range %d-%d covers %q, not %d-%d %q", what, rng.Start.Byte-r.base.Byte, rng.End.Byte-r.base.Byte, got, sp.Start, sp.End, r.src[sp.Start:sp.End])
	}
	return r.pos(what, rng)
}

func (r *ranger) pos(what string, rng hcl.Range) error {
	if rng.Filename != "t.hcl" {
		return errf("%s: file name is %q", what, rng.Filename)
	}
	for _, p := range []hcl.Pos{rng.Start, rng.End} {
		if want, ok := r.at[p.Byte]; ok && want != p {
			return errf("%s: position %#v of byte %d, whose token has %#v", what, p, p.Byte, want)
		}
	}
	return nil
}

// onlyParens says whether s is made of the given parenthesis, space and
// comments only, and counts the parentheses.
func onlyParens(s string, paren byte) (int, bool) {
	n := 0
	for len(s) > 0 {
		switch {
		case s[0] == paren:
			n++
			s = s[1:]
		case strings.ContainsRune(" \t\r\n", rune(s[0])):
			s = s[1:]
		case strings.HasPrefix(s, "/*"):
			i := strings.Index(s, "*/")
			if i < 0 {
				return n, false
			}
			s = s[i+2:]
		case strings.HasPrefix(s, "//"), s[0] == '#':
			i := strings.IndexByte(s, '\n')
			if i < 0 {
				return n, false
			}
			s = s[i+1:]
		default:
			return n, false
		}
	}
	return n, true
}

// itemChain says whether a node stands for the current element of a splat.
func itemChain(n hclsyntax.Node) bool {
	switch n := n.(type) {
	case *hclsyntax.AnonSymbolExpr:
		return true
	case *hclsyntax.RelativeTraversalExpr:
		return itemChain(n.Source)
	case *hclsyntax.IndexExpr:
		return itemChain(n.Collection)
	case *hclsyntax.SplatExpr:
		return itemChain(n.Source)
	}
	return false
}

type rangeWalk struct {
	r     *ranger
	ctx   *hcl.EvalContext
	stack []hclsyntax.Node
	kids  [][]hcl.Range
	err   error
	nodes int
}

func inTemplate(n hclsyntax.Node) bool {
	switch n.(type) {
	case *hclsyntax.TemplateExpr, *hclsyntax.TemplateJoinExpr:
		return true
	}
	return false
}

func (w *rangeWalk) Enter(n hclsyntax.Node) hcl.Diagnostics {
	if w.err == nil {
		w.err = w.check(n)
	}
	w.stack = append(w.stack, n)
	w.kids = append(w.kids, nil)
	return nil
}

func (w *rangeWalk) Exit(n hclsyntax.Node) hcl.Diagnostics {
	w.stack = w.stack[:len(w.stack)-1]
	kids := w.kids[len(w.kids)-1]
	w.kids = w.kids[:len(w.kids)-1]
	if w.err != nil {
		return nil
	}
	for i, a := range kids {
		for _, b := range kids[i+1:] {
			if a.Start.Byte < b.End.Byte && b.Start.Byte < a.End.Byte {
				ta, _ := w.r.text(a)
				tb, _ := w.r.text(b)
				w.err = errf("the ranges of two parts of a %T overlap: %q and %q", n, ta, tb)
			}
		}
	}
	return nil
}

func (w *rangeWalk) check(n hclsyntax.Node) error {
	if _, ok := n.(hclsyntax.ChildScope); ok {
		return nil
	}
	e, ok := n.(hclsyntax.Expression)
	if !ok {
		return nil
	}
	w.nodes++
	rng := e.Range()
	text, err := w.r.text(rng)
	if err != nil {
		return errf("%T: %s", n, err)
	}
	if err := w.r.pos("expression "+text, rng); err != nil {
		return err
	}
	var parent hclsyntax.Node
	for i := len(w.stack) - 1; i >= 0; i-- {
		if _, ok := w.stack[i].(hclsyntax.ChildScope); !ok {
			parent = w.stack[i]
			if !itemChain(n) {
				w.kids[i] = append(w.kids[i], rng)
			}
			break
		}
	}
	if p, ok := parent.(hclsyntax.Expression); ok && !itemChain(n) {
		// The element part of a splat is written after its source; what
		// encloses it is the splat itself.
		pr := p.Range()
		for i := len(w.stack) - 1; i >= 0 && itemChain(p); i-- {
			if q, ok := w.stack[i].(hclsyntax.Expression); ok {
				p, pr = q, q.Range()
			}
		}
		if rng.Start.Byte < pr.Start.Byte || rng.End.Byte > pr.End.Byte {
			pt, _ := w.r.text(pr)
			return errf("the range of %T %q is outside that of its parent %T %q", n, text, p, pt)
		}
	}
	if itemChain(n) {
		return nil
	}
	if sr := e.StartRange(); sr.Start.Byte < rng.Start.Byte || sr.End.Byte > rng.End.Byte {
		st, _ := w.r.text(sr)
		return errf("the start range of %T %q covers %q", n, text, st)
	}
	if err := w.parts(e); err != nil {
		return err
	}
	// Literal parts and directives of a template are not expressions of
	// their own.
	if inTemplate(parent) {
		if _, ok := n.(*hclsyntax.LiteralValueExpr); ok {
			return nil
		}
	}
	if strings.HasPrefix(text, "%{") || w.insideDirective(parent, n) {
		return nil
	}
	switch n := n.(type) {
	case *hclsyntax.ObjectConsKeyExpr:
		if hcl.ExprAsKeyword(n.Wrapped) != "" {
			return nil
		}
	}
	e2, diags := hclsyntax.ParseExpression([]byte(text+"\n"), "t.hcl", startPos)
	if diags.HasErrors() {
		return errf("the range of %T covers %q, which is not an expression: %s", n, text, diagStr(diags))
	}
	v1, d1 := e.Value(w.ctx)
	v2, d2 := e2.Value(w.ctx)
	if d1.HasErrors() != d2.HasErrors() {
		return errf("the range of %T covers %q, which evaluates with %s rather than with %s", n, text, orNone(d2), orNone(d1))
	}
	if !d1.HasErrors() && !model.SameValue(v1, v2) {
		return errf("the range of %T covers %q, which evaluates to %s rather than %s", n, text, vstr(v2), vstr(v1))
	}
	return nil
}

// insideDirective says whether n is the content of a template directive
// rather than its condition or collection.
func (w *rangeWalk) insideDirective(parent, n hclsyntax.Node) bool {
	p, ok := parent.(hclsyntax.Expression)
	if !ok {
		return false
	}
	if pt, _ := w.r.text(p.Range()); !strings.HasPrefix(pt, "%{") {
		return false
	}
	switch p := p.(type) {
	case *hclsyntax.ConditionalExpr:
		return n != p.Condition
	case *hclsyntax.ForExpr:
		return n != p.CollExpr
	}
	return false
}

func orNone(d hcl.Diagnostics) string {
	if !d.HasErrors() {
		return "no errors"
	}
	return diagStr(d)
}

// parts checks the ranges of names and punctuation inside an expression.
func (w *rangeWalk) parts(e hclsyntax.Expression) error {
	is := w.r.is
	first := func(err ...error) error {
		for _, x := range err {
			if x != nil {
				return x
			}
		}
		return nil
	}
	steps := func(tr hcl.Traversal) error {
		for _, st := range tr {
			switch st := st.(type) {
			case hcl.TraverseRoot:
				if err := is("root name", st.SrcRange, st.Name); err != nil {
					return err
				}
			case hcl.TraverseAttr:
				t, err := w.r.text(st.SrcRange)
				if err != nil {
					return err
				}
				if !strings.HasPrefix(t, ".") || !strings.HasSuffix(t, st.Name) {
					return errf("the range of attribute step %s covers %q", st.Name, t)
				}
				if err := w.r.pos("step", st.SrcRange); err != nil {
					return err
				}
			case hcl.TraverseIndex:
				t, err := w.r.text(st.SrcRange)
				if err != nil {
					return err
				}
				if !(strings.HasPrefix(t, "[") && strings.HasSuffix(t, "]")) && !strings.HasPrefix(t, ".") {
					return errf("the range of index step %s covers %q", vstr(st.Key), t)
				}
				if err := w.r.pos("step", st.SrcRange); err != nil {
					return err
				}
			}
		}
		return nil
	}
	switch e := e.(type) {
	case *hclsyntax.FunctionCallExpr:
		return first(is("function name", e.NameRange, e.Name), is("open parenthesis", e.OpenParenRange, "("), is("close parenthesis", e.CloseParenRange, ")"))
	case *hclsyntax.TupleConsExpr:
		return is("open bracket", e.OpenRange, "[")
	case *hclsyntax.ObjectConsExpr:
		return is("open brace", e.OpenRange, "{")
	case *hclsyntax.IndexExpr:
		t, _ := w.r.text(e.OpenRange)
		if t == "." {
			return nil
		}
		return is("open bracket", e.OpenRange, "[")
	case *hclsyntax.UnaryOpExpr:
		want := "-"
		if e.Op == hclsyntax.OpLogicalNot {
			want = "!"
		}
		return is("operator", e.SymbolRange, want)
	case *hclsyntax.ForExpr:
		t, err := w.r.text(e.SrcRange)
		if err != nil || strings.HasPrefix(t, "%{") {
			return err
		}
		if e.KeyExpr != nil {
			return first(is("open brace", e.OpenRange, "{"), is("close brace", e.CloseRange, "}"))
		}
		return first(is("open bracket", e.OpenRange, "["), is("close bracket", e.CloseRange, "]"))
	case *hclsyntax.SplatExpr:
		t, err := w.r.text(e.MarkerRange)
		if err != nil {
			return err
		}
		if !strings.Contains(t, "*") {
			return errf("the splat marker covers %q", t)
		}
	case *hclsyntax.ScopeTraversalExpr:
		return steps(e.Traversal)
	case *hclsyntax.RelativeTraversalExpr:
		return steps(e.Traversal)
	}
	return nil
}

// sortedAttrs lists the attributes of a parsed body in source order.
func sortedAttrs(b *hclsyntax.Body) []*hclsyntax.Attribute {
	var as []*hclsyntax.Attribute
	for _, a := range b.Attributes {
		as = append(as, a)
	}
	for i := range as {
		for j := i; j > 0 && as[j].SrcRange.Start.Byte < as[j-1].SrcRange.Start.Byte; j-- {
			as[j], as[j-1] = as[j-1], as[j]
		}
	}
	return as
}

func (r *ranger) body(b *hclsyntax.Body, m *model.Body, bt model.BodyText, ctx *hcl.EvalContext, nodes *int) error {
	bi := 0
	for _, it := range m.Items {
		sp := bt.Spans[it]
		if it.IsAttr() {
			a := b.Attributes[it.Name]
			if a == nil {
				return errf("attribute %s is missing", it.Name)
			}
			for _, err := range []error{
				r.span("attribute name", a.NameRange, sp.Name),
				r.span("equals sign", a.EqualsRange, sp.Eq),
				r.span("attribute", a.SrcRange, sp.Full(it)),
				r.span("attribute", a.Range(), sp.Full(it)),
				r.span("attribute", a.AsHCLAttribute().Range, sp.Full(it)),
				r.span("attribute name", a.AsHCLAttribute().NameRange, sp.Name),
			} {
				if err != nil {
					return err
				}
			}
			er := a.Expr.Range()
			lo, hi := er.Start.Byte-r.base.Byte, er.End.Byte-r.base.Byte
			if lo < sp.Expr.Start || hi > sp.Expr.End || lo > hi {
				return errf("the range of the expression of %s, %d-%d, is not inside %d-%d", it.Name, lo, hi, sp.Expr.Start, sp.Expr.End)
			}
			n1, ok1 := onlyParens(string(r.src[sp.Expr.Start:lo]), '(')
			n2, ok2 := onlyParens(string(r.src[hi:sp.Expr.End]), ')')
			if !ok1 || !ok2 || n1 != n2 || n1 == 0 && (lo != sp.Expr.Start || hi != sp.Expr.End) {
				return errf("the range of the expression covers %q of %q", r.src[lo:hi], r.src[sp.Expr.Start:sp.Expr.End])
			}
			w := &rangeWalk{r: r, ctx: ctx}
			hclsyntax.Walk(a.Expr, w)
			*nodes += w.nodes
			if w.err != nil {
				return w.err
			}
			continue
		}
		if bi >= len(b.Blocks) {
			return errf("block %s is missing", it.Name)
		}
		bl := b.Blocks[bi]
		bi++
		hb := bl.AsHCLBlock()
		errs := []error{
			r.span("block type", bl.TypeRange, sp.Name),
			r.span("open brace", bl.OpenBraceRange, sp.Open),
			r.span("close brace", bl.CloseBraceRange, sp.Close),
			r.span("block", bl.Range(), sp.Full(it)),
			r.span("block type", hb.TypeRange, sp.Name),
			r.span("block header", hb.DefRange, sp.Header()),
		}
		if len(bl.LabelRanges) != len(sp.Labels) || len(hb.LabelRanges) != len(sp.Labels) {
			return errf("block %s has %d label ranges, want %d", it.Name, len(bl.LabelRanges), len(sp.Labels))
		}
		for i, l := range sp.Labels {
			errs = append(errs, r.span("label", bl.LabelRanges[i], l), r.span("label", hb.LabelRanges[i], l))
		}
		mr := bl.Body.MissingItemRange()
		if mr.Start.Byte-r.base.Byte < sp.Open.Start || mr.End.Byte-r.base.Byte > sp.Close.End {
			errs = append(errs, errf("the range for missing items is outside the body"))
		}
		br := bl.Body.SrcRange
		if lo, hi := br.Start.Byte-r.base.Byte, br.End.Byte-r.base.Byte; lo < sp.Open.Start || hi > sp.Close.End || lo > hi {
			errs = append(errs, errf("the range of the body is outside the braces"))
		} else {
			for _, in := range it.Body.Items {
				if fs := bt.Spans[in].Full(in); fs.Start < lo || fs.End > hi {
					errs = append(errs, errf("the range of the body does not contain item %s", in.Name))
				}
			}
		}
		if er := bl.Body.EndRange; er.Start.Byte-r.base.Byte < sp.Open.Start || er.End.Byte-r.base.Byte > sp.Close.End {
			errs = append(errs, errf("the end range of the body is outside the body"))
		}
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		if err := r.body(bl.Body, it.Body, bt, ctx, nodes); err != nil {
			return err
		}
	}
	if bi != len(b.Blocks) || len(sortedAttrs(b))+bi != len(m.Items) {
		return errf("unexpected items")
	}
	return nil
}

func init() {
	engine.Add("C10", "native", "at least one block or two attributes, and at least ten expression nodes", 100000, genBodyCase,
		func(c bodyCase, r *engine.Rec) error {
			bt := c.Body.Native(c.Lay)
			r.Sample(bt.Src)
			base := startPos
			if len(c.Lay) > 1 && c.Lay[0]%2 == 1 {
				base = hcl.Pos{Line: 3, Column: 7, Byte: int(c.Lay[1])}
			}
			f, diags := hclsyntax.ParseConfig([]byte(bt.Src), "t.hcl", base)
			if diags.HasErrors() {
				return errf("valid configuration rejected: %s\n%s", diagStr(diags), bt.Src)
			}
			body := f.Body.(*hclsyntax.Body)
			vars := c.Scope.Map()
			for _, n := range []string{"k", "v", "w", "x", "item", "each"} {
				if _, ok := vars[n]; !ok {
					vars[n] = cty.StringVal("1")
				}
			}
			nodes := 0
			err := newRanger([]byte(bt.Src), base).body(body, c.Body, bt, evalCtx(vars), &nodes)
			na, nb := c.Body.Count()
			r.NonTrivialIf((nb > 0 || na > 1) && nodes >= 10)
			switch {
			case nodes == 0:
				r.Label("no expressions")
			case nodes < 10:
				r.Label("under 10 nodes")
			case nodes < 30:
				r.Label("10-29 nodes")
			default:
				r.Label("30 nodes or more")
			}
			if nb > 0 {
				r.Label("with blocks")
			}
			if err != nil {
				return errf("%s\n%s", err, bt.Src)
			}
			return nil
		})
}
