package props

import (
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// squeeze removes all spacing.
func squeeze(b []byte) string {
	return strings.NewReplacer(" ", "", "\t", "").Replace(string(b))
}

// respace changes the amount of space between tokens where there is some.
func respace(src []byte, lay []byte) []byte {
	toks, _ := hclsyntax.LexConfig(src, "t.hcl", startPos)
	var out []byte
	last, k := 0, 0
	for _, t := range toks {
		gap := string(src[last:t.Range.Start.Byte])
		if len(lay) > 0 && gap != "" && !strings.Contains(gap, "\ufeff") && t.Type != hclsyntax.TokenEOF {
			gap = []string{" ", "   ", "\t", " \t ", gap}[int(lay[k%len(lay)])%5]
			k++
		}
		out = append(out, gap...)
		out = append(out, t.Bytes...)
		last = t.Range.End.Byte
	}
	return out
}

// sameMeaning compares two bodies item by item.
func sameMeaning(a, b *hclsyntax.Body, sc model.Scope, r *engine.Rec) error {
	if len(a.Attributes) != len(b.Attributes) || len(a.Blocks) != len(b.Blocks) {
		return errf("different numbers of items")
	}
	ctx := evalCtx(sc.Map())
	for _, n := range model.SortedKeys(a.Attributes) {
		if b.Attributes[n] == nil {
			return errf("attribute %s is gone", n)
		}
		va, da, err := guardValue(a.Attributes[n].Expr, ctx, model.ErrDependency)
		if err != nil {
			continue // an evaluation that panics is no business of formatting
		}
		vb, db, err := guardValue(b.Attributes[n].Expr, ctx, model.ErrDependency)
		if err != nil {
			return err
		}
		if len(da) != len(db) || da.HasErrors() != db.HasErrors() {
			return errf("attribute %s: problems %q became %q", n, diagStr(da), diagStr(db))
		}
		if !da.HasErrors() {
			r.Label("evaluated")
		}
		if !model.SameValue(va, vb) {
			return errf("attribute %s: %s became %s", n, vstr(va), vstr(vb))
		}
	}
	for i := range a.Blocks {
		x, y := a.Blocks[i], b.Blocks[i]
		if x.Type != y.Type || !sameStrings(x.Labels, y.Labels) {
			return errf("block %s %q became %s %q", x.Type, x.Labels, y.Type, y.Labels)
		}
		if err := sameMeaning(x.Body, y.Body, sc, r); err != nil {
			return errf("in block %s: %w", x.Type, err)
		}
	}
	return nil
}

// brokenHeredoc says whether a sequence inside of a heredoc template spans
// several lines. How the rest is indented then is not decided.
func brokenHeredoc(src []byte) bool {
	toks, _ := hclsyntax.LexConfig(src, "t.hcl", startPos)
	depth := 0
	for _, t := range toks {
		switch t.Type {
		case hclsyntax.TokenOHeredoc:
			depth++
		case hclsyntax.TokenCHeredoc:
			depth--
		case hclsyntax.TokenNewline, hclsyntax.TokenComment:
			if depth > 0 && strings.Contains(string(t.Bytes), "\n") {
				return true
			}
		}
	}
	return false
}

// checkLayout says whether the lines that begin an item or end a block are
// indented by depth, and whether the arguments on adjacent lines are aligned.
func checkLayout(out []byte, b *hclsyntax.Body, depth int, r *engine.Rec) error {
	// begins says whether a line begins at a position, and how it is indented.
	begins := func(p hcl.Pos) (string, bool) {
		at := strings.LastIndexByte(string(out[:p.Byte]), '\n') + 1
		in := string(out[at:p.Byte])
		return in, strings.Trim(in, " \t") == ""
	}
	indented := func(p hcl.Pos, depth int) error {
		if in, ok := begins(p); ok && in != strings.Repeat("  ", depth) {
			return errf("line %d is indented by %q at depth %d", p.Line, in, depth)
		}
		return nil
	}
	attrs := map[int]*hclsyntax.Attribute{}
	for _, n := range model.SortedKeys(b.Attributes) {
		a := b.Attributes[n]
		if err := indented(a.NameRange.Start, depth); err != nil {
			return err
		}
		if _, ok := begins(a.NameRange.Start); ok && a.SrcRange.Start.Line == a.SrcRange.End.Line {
			attrs[a.NameRange.Start.Line] = a
		}
	}
	for l, a := range attrs {
		if x := attrs[l-1]; x != nil {
			r.Label("arguments on adjacent lines")
			if a.EqualsRange.Start.Column != x.EqualsRange.Start.Column {
				return errf("the arguments on lines %d and %d are not aligned", l-1, l)
			}
		}
	}
	for _, bl := range b.Blocks {
		if err := indented(bl.TypeRange.Start, depth); err != nil {
			return err
		}
		if err := indented(bl.CloseBraceRange.Start, depth); err != nil {
			return err
		}
		if brokenHeredoc(out) {
			r.Label("lines inside of a heredoc sequence")
		} else if err := checkLayout(out, bl.Body, depth+1, r); err != nil {
			return err
		}
	}
	return nil
}

func checkFormat(src []byte, sc model.Scope, lay []byte, r *engine.Rec) error {
	orig := clone(src)
	out := hclwrite.Format(src)
	if !sameBytes(orig, src) {
		return errf("formatting modified its input")
	}
	if c := squeeze(out); c != squeeze(src) && c != strings.TrimPrefix(squeeze(src), "\ufeff") {
		return errf("content was changed:\n%q\n%q", src, out)
	}
	f, d := hclsyntax.ParseConfig(src, "t.hcl", startPos)
	if d.HasErrors() {
		r.Label("invalid source")
		r.NonTrivialIf(!sameBytes(out, src) && len(src) >= 16)
		return nil
	}
	r.Label("valid source")
	if err := diffSeq(tokSeq(out), tokSeq(src)); err != nil {
		return errf("the tokens changed: %w\nsource %q\noutput %q", err, src, out)
	}
	f2, d2 := hclsyntax.ParseConfig(out, "t.hcl", startPos)
	if d2.HasErrors() {
		return errf("formatted source is invalid: %s\nsource %q\noutput %q", diagStr(d2), src, out)
	}
	if err := sameMeaning(f.Body.(*hclsyntax.Body), f2.Body.(*hclsyntax.Body), sc, r); err != nil {
		return errf("%w\nsource %q\noutput %q", err, src, out)
	}
	if again := hclwrite.Format(out); !sameBytes(again, out) {
		return errf("not idempotent:\nsource %q\nonce   %q\ntwice  %q", src, out, again)
	}
	if brokenHeredoc(out) {
		r.Label("lines inside of a heredoc sequence")
	} else if err := checkLayout(out, f2.Body.(*hclsyntax.Body), 0, r); err != nil {
		return errf("%w\nsource %q\noutput %q", err, src, out)
	}
	if alt := respace(src, lay); !sameBytes(alt, src) {
		r.Label("respaced")
		if err := diffSeq(tokSeq(alt), tokSeq(src)); err != nil {
			return nil // respacing must not change the tokens; nothing to compare
		}
		if out2 := hclwrite.Format(alt); !sameBytes(out2, out) {
			return errf("formatting depends on the spacing of the input:\n%q gives %q\n%q gives %q", src, out, alt, out2)
		}
	}
	if !sameBytes(out, src) {
		r.Label("changed by formatting")
	}
	r.NonTrivialIf(!sameBytes(out, src) && len(src) >= 16)
	return nil
}

type fmtCase struct {
	bodyCase
	Lay2 []byte `json:"lay2,omitempty"`
}

func init() {
	const rule = "at least 16 bytes and not already formatted"
	engine.Add("C21", "body", rule, 30000, func(t *rapid.T) fmtCase { return fmtCase{genBodyCase(t), lay2(t)} }, func(c fmtCase, r *engine.Rec) error {
		src := c.Body.Native(c.Lay).Src
		r.Sample(src)
		return checkFormat([]byte(src), c.Scope, c.Lay2, r)
	})
	engine.Add("C21", "tokens", rule, 30000, func(t *rapid.T) tokCase {
		c := genGrammatical(t)
		c.Lay2 = lay2(t)
		return c
	}, func(c tokCase, r *engine.Rec) error {
		src := model.TokText(c.Toks, c.Lay)
		r.Sample(src)
		return checkFormat([]byte(src), model.Scope{}, c.Lay2, r)
	})
	engine.Add("C21", "any", rule, 30000, genRaw, func(c rawCase, r *engine.Rec) error {
		r.Label("%s", c.Kind)
		r.Sample(string(c.Src))
		return checkFormat(c.Src, model.Scope{}, nil, r)
	})
}
