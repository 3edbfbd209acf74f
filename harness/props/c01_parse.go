package props

import (
	"strings"
	"unicode/utf8"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type srcCase struct {
	Src   []byte      `json:"src"`
	Kind  string      `json:"kind"`
	Line  int         `json:"line"`
	Col   int         `json:"col"`
	Byte  int         `json:"byte"`
	Scope model.Scope `json:"scope,omitempty"`
	Pos   int         `json:"pos,omitempty"`
}

func (c srcCase) start() hcl.Pos { return hcl.Pos{Line: c.Line, Column: c.Col, Byte: c.Byte} }

func genSrcCase(t *rapid.T) srcCase {
	c := srcCase{Line: 1, Col: 1}
	c.Src, c.Kind = model.Source(t)
	if model.Chance(t, 30) {
		c.Line, c.Col, c.Byte = model.Int(t, 1, 50, "line"), model.Int(t, 1, 50, "col"), model.Int(t, 0, 500, "byte")
	}
	c.Scope = model.GenScope(t, genScopeOpts())
	c.Pos = model.Int(t, 0, len(c.Src), "pos")
	return c
}

// diagsInside checks the shape of error diagnostics and that their subjects
// lie within the source.
func diagsInside(what string, diags hcl.Diagnostics, c srcCase) error {
	if err := wellFormed(what, diags); err != nil {
		return err
	}
	for _, d := range diags {
		if err := rangeInside(*d.Subject, c); err != nil {
			return errf("%s: subject of diagnostic %q: %s", what, d.Summary, err)
		}
		if d.Context != nil {
			if err := rangeInside(*d.Context, c); err != nil {
				return errf("%s: context of diagnostic %q: %s", what, d.Summary, err)
			}
		}
	}
	return nil
}

func rangeInside(r hcl.Range, c srcCase) error {
	lo, hi := c.Byte, c.Byte+len(c.Src)
	if r.Start.Byte < lo || r.End.Byte > hi || r.Start.Byte > r.End.Byte {
		return errf("range %d-%d (%s) is not inside the source %d-%d", r.Start.Byte, r.End.Byte, r, lo, hi)
	}
	if r.Filename != "t.hcl" {
		return errf("range %s has file name %q", r, r.Filename)
	}
	if err := posAgrees(r.Start, c); err != nil {
		return err
	}
	return posAgrees(r.End, c)
}

// posAgrees checks that the line and column of a position belong to its byte
// offset. The column is decided only where everything before the position on
// its line is printable ASCII, and neither in sources that are not UTF-8.
func posAgrees(p hcl.Pos, c srcCase) error {
	before := string(c.Src[:p.Byte-c.Byte])
	line := c.Line + strings.Count(before, "\n")
	col := 1
	if i := strings.LastIndexByte(before, '\n'); i >= 0 {
		before = before[i+1:]
	} else {
		col = c.Col
	}
	if strings.HasSuffix(before, "\r") || !utf8.Valid(c.Src) {
		return nil
	}
	if p.Line != line {
		return errf("byte %d is on line %d but the position says %d,%d", p.Byte, line, p.Line, p.Column)
	}
	for i := 0; i < len(before); i++ {
		if before[i] != '\t' && (before[i] < 0x20 || before[i] > 0x7e) {
			return nil
		}
	}
	if p.Column != col+len(before) {
		return errf("byte %d is at column %d but the position says %d,%d", p.Byte, col+len(before), p.Line, p.Column)
	}
	return nil
}

// exerciseExpr uses an expression in every generic way.
func exerciseExpr(e hclsyntax.Expression, c srcCase, ctxs []*hcl.EvalContext) error {
	if e == nil {
		return errf("nil expression")
	}
	e.Range()
	e.StartRange()
	e.Variables()
	hcl.ExprList(e)
	hcl.ExprMap(e)
	hcl.ExprCall(e)
	hcl.ExprAsKeyword(e)
	hcl.AbsTraversalForExpr(e)
	hcl.RelTraversalForExpr(e)
	for _, ctx := range ctxs {
		v, diags := e.Value(ctx)
		if v == cty.NilVal {
			return errf("evaluation returned no value")
		}
		if err := diagsInside("evaluation", diags, c); err != nil {
			return err
		}
	}
	return nil
}

// bodySchema names everything in a body.
func bodySchema(b *hclsyntax.Body) *hcl.BodySchema {
	s := &hcl.BodySchema{}
	for _, n := range model.SortedKeys(b.Attributes) {
		s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: n})
	}
	seen := map[string]bool{}
	for _, bl := range b.Blocks {
		if seen[bl.Type] {
			continue
		}
		seen[bl.Type] = true
		hs := hcl.BlockHeaderSchema{Type: bl.Type}
		for range bl.Labels {
			hs.LabelNames = append(hs.LabelNames, "l")
		}
		s.Blocks = append(s.Blocks, hs)
	}
	return s
}

var fixedSchema = &hcl.BodySchema{
	Attributes: []hcl.AttributeSchema{{Name: "a", Required: true}, {Name: "x"}},
	Blocks:     []hcl.BlockHeaderSchema{{Type: "b"}, {Type: "foo", LabelNames: []string{"l"}}},
}

func exerciseBody(b hcl.Body, c srcCase, ctxs []*hcl.EvalContext, depth int) error {
	if b == nil {
		return errf("nil body")
	}
	b.MissingItemRange()
	schemas := []*hcl.BodySchema{fixedSchema, {}}
	if nb, ok := b.(*hclsyntax.Body); ok {
		if nb == nil {
			return errf("nil body")
		}
		schemas = append(schemas, bodySchema(nb))
	}
	attrs, diags := b.JustAttributes()
	if err := diagsInside("attributes", diags, c); err != nil {
		return err
	}
	for _, s := range schemas {
		content, diags := b.Content(s)
		if content == nil {
			return errf("no content")
		}
		if err := diagsInside("content", diags, c); err != nil {
			return err
		}
		pc, remain, diags := b.PartialContent(s)
		if pc == nil || remain == nil {
			return errf("no partial content")
		}
		if err := diagsInside("partial content", diags, c); err != nil {
			return err
		}
		for _, a := range pc.Attributes {
			for _, ctx := range ctxs {
				if v, _ := a.Expr.Value(ctx); v == cty.NilVal {
					return errf("attribute evaluation returned no value")
				}
			}
		}
		if depth > 0 {
			for _, bl := range pc.Blocks {
				if err := exerciseBody(bl.Body, c, ctxs, depth-1); err != nil {
					return err
				}
			}
		}
		_, diags = remain.Content(&hcl.BodySchema{})
		if err := diagsInside("remaining content", diags, c); err != nil {
			return err
		}
	}
	_ = attrs
	return nil
}

// exprVisitor collects expressions.
type nodeList struct{ exprs []hclsyntax.Expression }

func walkAll(n hclsyntax.Node) ([]hclsyntax.Expression, error) {
	var l nodeList
	var err error
	hclsyntax.VisitAll(n, func(n hclsyntax.Node) hcl.Diagnostics {
		if n == nil {
			err = errf("walk visits a nil node")
			return nil
		}
		n.Range()
		if e, ok := n.(hclsyntax.Expression); ok {
			l.exprs = append(l.exprs, e)
		}
		return nil
	})
	return l.exprs, err
}

func checkParse(c srcCase, r *engine.Rec) error {
	r.Sample(string(c.Src))
	r.Label("%s", c.Kind)
	ctxs := []*hcl.EvalContext{nil, {}, evalCtx(c.Scope.Map())}
	start := c.start()
	for mode, lex := range map[string]func([]byte, string, hcl.Pos) (hclsyntax.Tokens, hcl.Diagnostics){
		"config": hclsyntax.LexConfig, "expression": hclsyntax.LexExpression, "template": hclsyntax.LexTemplate,
	} {
		toks, diags := lex(c.Src, "t.hcl", start)
		if len(toks) == 0 {
			return errf("lexing as %s gives no tokens", mode)
		}
		if err := diagsInside("lexing as "+mode, diags, c); err != nil {
			return err
		}
	}
	hclsyntax.ValidIdentifier(string(c.Src))

	f, diags := hclsyntax.ParseConfig(c.Src, "t.hcl", start)
	if f == nil || f.Body == nil {
		return errf("no file or body")
	}
	bad := diags.HasErrors()
	if err := diagsInside("parsing as configuration", diags, c); err != nil {
		return err
	}
	body := f.Body.(*hclsyntax.Body)
	exprs, err := walkAll(body)
	if err != nil {
		return err
	}
	for _, e := range exprs {
		if err := exerciseExpr(e, c, ctxs); err != nil {
			return err
		}
	}
	if err := exerciseBody(body, c, ctxs, 3); err != nil {
		return err
	}
	pos := hcl.Pos{Line: start.Line, Column: start.Column, Byte: start.Byte + c.Pos}
	f.BlocksAtPos(pos)
	f.OutermostBlockAtPos(pos)
	f.InnermostBlockAtPos(pos)
	f.AttributeAtPos(pos)
	f.OutermostExprAtPos(pos)

	n := 0
	for _, p := range []struct {
		name  string
		parse func([]byte, string, hcl.Pos) (hclsyntax.Expression, hcl.Diagnostics)
	}{{"expression", hclsyntax.ParseExpression}, {"template", hclsyntax.ParseTemplate}} {
		e, diags := p.parse(c.Src, "t.hcl", start)
		if e == nil {
			return errf("parsing as %s returns nil", p.name)
		}
		if err := diagsInside("parsing as "+p.name, diags, c); err != nil {
			return err
		}
		if diags.HasErrors() {
			bad = true
		}
		exprs, err := walkAll(e)
		if err != nil {
			return err
		}
		n += len(exprs)
		for i, x := range exprs {
			if i > 60 {
				break
			}
			if err := exerciseExpr(x, c, ctxs); err != nil {
				return errf("as %s: %w", p.name, err)
			}
		}
	}
	trav, diags := hclsyntax.ParseTraversalAbs(c.Src, "t.hcl", start)
	if len(trav) == 0 && !diags.HasErrors() {
		return errf("parsing as traversal gives neither a result nor an error")
	}
	if err := diagsInside("parsing as traversal", diags, c); err != nil {
		return err
	}
	if len(trav) > 0 {
		trav.SourceRange()
		for _, ctx := range ctxs {
			if v, _ := trav.TraverseAbs(ctx); v == cty.NilVal {
				return errf("traversal gives no value")
			}
		}
	}
	attrs, blocks := len(body.Attributes), len(body.Blocks)
	if bad {
		r.Label("with errors")
	}
	r.NonTrivialIf(bad && (attrs+blocks > 0 || n > 4))
	return nil
}

// checkTokens is the token tiling and position oracle.
func checkTokens(mode string, toks hclsyntax.Tokens, c srcCase) error {
	if len(toks) == 0 {
		return errf("%s: no tokens", mode)
	}
	at := c.Byte
	line, col := c.Line, c.Col
	for i, tok := range toks {
		last := i == len(toks)-1
		if (tok.Type == hclsyntax.TokenEOF) != last {
			return errf("%s: end of file token at %d of %d", mode, i, len(toks))
		}
		s, e := tok.Range.Start, tok.Range.End
		if s.Byte < at || e.Byte < s.Byte || e.Byte-c.Byte > len(c.Src) {
			return errf("%s: token %d (%s %q) has byte range %d-%d after offset %d", mode, i, tok.Type, tok.Bytes, s.Byte, e.Byte, at)
		}
		gap := c.Src[at-c.Byte : s.Byte-c.Byte]
		text := c.Src[s.Byte-c.Byte : e.Byte-c.Byte]
		if string(text) != string(tok.Bytes) {
			return errf("%s: token %d (%s) has bytes %q but its range covers %q", mode, i, tok.Type, tok.Bytes, text)
		}
		if at == c.Byte && len(gap) >= 3 && string(gap[:3]) == "\ufeff" {
			gap = gap[3:]
		}
		for _, b := range gap {
			if b != ' ' && b != '\t' {
				return errf("%s: bytes %q before token %d (%s %q) belong to no token", mode, gap, i, tok.Type, tok.Bytes)
			}
			col++
		}
		if s.Line != line || s.Column != col {
			return errf("%s: token %d (%s %q) starts at %d,%d, want %d,%d", mode, i, tok.Type, tok.Bytes, s.Line, s.Column, line, col)
		}
		line, col = model.Advance(line, col, text)
		if e.Line != line || e.Column != col {
			return errf("%s: token %d (%s %q) ends at %d,%d, want %d,%d", mode, i, tok.Type, tok.Bytes, e.Line, e.Column, line, col)
		}
		if tok.Range.Filename != "t.hcl" {
			return errf("%s: token %d has file name %q", mode, i, tok.Range.Filename)
		}
		if last && e.Byte != s.Byte {
			return errf("%s: end of file token is not empty", mode)
		}
		at = e.Byte
	}
	if at != c.Byte+len(c.Src) {
		return errf("%s: tokens end at %d, source ends at %d", mode, at, c.Byte+len(c.Src))
	}
	return nil
}

func init() {
	engine.Add("C01", "parse", "some entry point reports errors and yet returns a body with items or an expression tree", 100000,
		genSrcCase, checkParse)
	engine.Add("C02", "tokens", "at least 6 tokens, including a newline, template or comment token or a multi-byte character", 300000,
		genSrcCase,
		func(c srcCase, r *engine.Rec) error {
			r.Sample(string(c.Src))
			r.Label("%s", c.Kind)
			nt := false
			for _, m := range []struct {
				name string
				lex  func([]byte, string, hcl.Pos) (hclsyntax.Tokens, hcl.Diagnostics)
			}{{"config", hclsyntax.LexConfig}, {"expression", hclsyntax.LexExpression}, {"template", hclsyntax.LexTemplate}} {
				toks, _ := m.lex(c.Src, "t.hcl", c.start())
				if err := checkTokens(m.name, toks, c); err != nil {
					return err
				}
				if len(toks) >= 6 {
					for _, t := range toks {
						switch t.Type {
						case hclsyntax.TokenNewline, hclsyntax.TokenComment, hclsyntax.TokenOQuote, hclsyntax.TokenOHeredoc, hclsyntax.TokenTemplateInterp, hclsyntax.TokenTemplateControl:
							nt = true
						}
						r.Label("token %s", t.Type)
						for _, b := range t.Bytes {
							nt = nt || b >= 0x80
						}
					}
				}
			}
			r.NonTrivialIf(nt)
			return nil
		})
}
