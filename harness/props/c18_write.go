package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// tokSeq is the token sequence of a source text without positions.
func tokSeq(src []byte) []string {
	toks, _ := hclsyntax.LexConfig(src, "t.hcl", startPos)
	var out []string
	for _, t := range toks {
		if t.Type == hclsyntax.TokenEOF {
			break
		}
		out = append(out, t.Type.String()+" "+string(t.Bytes))
	}
	return out
}

// wtoks is the same of tokens of the editing API.
func wtoks(toks hclwrite.Tokens) []string {
	var out []string
	for _, t := range toks {
		if t.Type == hclsyntax.TokenEOF {
			break
		}
		out = append(out, t.Type.String()+" "+string(t.Bytes))
	}
	return out
}

// diffSeq describes the first difference of two sequences.
func diffSeq(got, want []string) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = fmt.Sprintf("%q", got[i])
		}
		if i < len(want) {
			w = fmt.Sprintf("%q", want[i])
		}
		if g != w {
			return errf("token %d is %s, not %s", i, g, w)
		}
	}
	return nil
}

type srcToks struct {
	toks hclsyntax.Tokens
}

func (s srcToks) within(lo, hi int) []string {
	var out []string
	for _, t := range s.toks {
		if t.Type != hclsyntax.TokenEOF && t.Range.Start.Byte >= lo && t.Range.End.Byte <= hi && (len(t.Bytes) > 0) {
			out = append(out, t.Type.String()+" "+string(t.Bytes))
		}
	}
	return out
}

// significant drops the comments and newlines at the edges.
func significant(s []string) []string {
	edge := func(x string) bool {
		return strings.HasPrefix(x, "TokenComment") || strings.HasPrefix(x, "TokenNewline")
	}
	for len(s) > 0 && edge(s[0]) {
		s = s[1:]
	}
	for len(s) > 0 && edge(s[len(s)-1]) {
		s = s[:len(s)-1]
	}
	return s
}

type wstats struct{ attrs, blocks, vars, comments int }

// writeTree compares the editing tree with the parser's view.
func writeTree(nb *hclsyntax.Body, wb *hclwrite.Body, st srcToks, s *wstats) error {
	was := wb.Attributes()
	if len(was) != len(nb.Attributes) {
		return errf("the editing tree has %d attributes, the parser reports %d", len(was), len(nb.Attributes))
	}
	for _, name := range model.SortedKeys(nb.Attributes) {
		na := nb.Attributes[name]
		wa := wb.GetAttribute(name)
		if wa == nil || was[name] != wa {
			return errf("attribute %s is missing from the editing tree", name)
		}
		s.attrs++
		// The expression goes from the equals sign to whatever ends the
		// attribute.
		all := wtoks(wa.BuildTokens(nil))
		eq := -1
		for i, x := range all {
			if strings.HasPrefix(x, "TokenEqual ") {
				eq = i
				break
			}
		}
		if eq < 0 {
			return errf("attribute %s has no equals sign", name)
		}
		sig := significant(all[:eq])
		if len(sig) != 1 || sig[0] != "TokenIdent "+name {
			return errf("attribute %s begins with %q", name, all[:eq])
		}
		ex := wtoks(wa.Expr().BuildTokens(nil))
		if err := diffSeq(significant(ex), significant(all[eq+1:])); err != nil {
			return errf("attribute %s: expression tokens: %s", name, err)
		}
		rng := na.Expr.Range()
		in := st.within(rng.Start.Byte, rng.End.Byte)
		if !strings.Contains(strings.Join(ex, "\n"), strings.Join(in, "\n")) {
			return errf("attribute %s: expression is %q, the parser reports %q", name, ex, in)
		}
		var got, want []string
		for _, v := range wa.Expr().Variables() {
			got = append(got, strings.Join(wtoks(v.BuildTokens(nil)), "|"))
		}
		for _, tr := range na.Expr.Variables() {
			sr := tr.SourceRange()
			want = append(want, strings.Join(st.within(sr.Start.Byte, sr.End.Byte), "|"))
		}
		s.vars += len(want)
		sort.Strings(got)
		sort.Strings(want)
		if err := diffSeq(got, want); err != nil {
			return errf("attribute %s: variables: %s", name, err)
		}
	}
	wbs := wb.Blocks()
	if len(wbs) != len(nb.Blocks) {
		return errf("the editing tree has %d blocks, the parser reports %d", len(wbs), len(nb.Blocks))
	}
	for i, nbk := range nb.Blocks {
		s.blocks++
		want := st.within(nbk.TypeRange.Start.Byte, nbk.CloseBraceRange.End.Byte)
		got := significant(wtoks(wbs[i].BuildTokens(nil)))
		if err := diffSeq(got, want); err != nil {
			return errf("block %d (%s): %s", i, nbk.Type, err)
		}
		if err := writeTree(nbk.Body, wbs[i].Body(), st, s); err != nil {
			return errf("in block %d (%s): %w", i, nbk.Type, err)
		}
	}
	return nil
}

func checkRoundTrip(src []byte, r *engine.Rec) error {
	before := clone(src)
	nf, nd := hclsyntax.ParseConfig(src, "t.hcl", startPos)
	wf, wd := hclwrite.ParseConfig(src, "t.hcl", startPos)
	if !sameBytes(before, src) {
		return errf("the source was modified")
	}
	if nd.HasErrors() != wd.HasErrors() {
		return errf("parser: %s\nediting parser: %s\nsource %q", diagStr(nd), diagStr(wd), src)
	}
	if wd.HasErrors() {
		r.Label("refused")
		return nil
	}
	var s wstats
	toks, _ := hclsyntax.LexConfig(src, "t.hcl", startPos)
	if err := writeTree(nf.Body.(*hclsyntax.Body), wf.Body(), srcToks{toks}, &s); err != nil {
		return errf("%w\nsource %q", err, src)
	}
	out := wf.Bytes()
	if err := diffSeq(tokSeq(out), tokSeq(src)); err != nil {
		return errf("written output differs: %w\nsource %q\noutput %q", err, src, out)
	}
	if again := wf.Bytes(); !bytes.Equal(out, again) {
		return errf("writing twice gives %q and then %q", out, again)
	}
	for _, t := range toks {
		if t.Type == hclsyntax.TokenComment {
			s.comments++
		}
	}
	r.Label("written back")
	if s.comments > 0 {
		r.Label("with comments")
	}
	if s.vars > 0 {
		r.Label("with variables")
	}
	if s.blocks > 0 {
		r.Label("with blocks")
	}
	r.NonTrivialIf(s.attrs+s.blocks >= 2 && len(toks) >= 12)
	return nil
}

type rawCase struct {
	Src  []byte `json:"src"`
	Kind string `json:"kind,omitempty"`
}

func genRaw(t *rapid.T) rawCase {
	src, kind := model.Source(t)
	return rawCase{src, kind}
}

func genGrammatical(t *rapid.T) tokCase {
	c := tokCase{Toks: model.GenConfigTokens(t)}
	if model.Chance(t, 30) {
		c.Toks = model.MutateTokens(t, c.Toks)
	}
	c.Toks = model.NormTokens(c.Toks)
	c.Lay = lay(t)
	return c
}

func init() {
	const rule = "at least two items and twelve tokens"
	engine.Add("C18", "body", rule, 40000, genBodyCase, func(c bodyCase, r *engine.Rec) error {
		src := c.Body.Native(c.Lay).Src
		r.Sample(src)
		return checkRoundTrip([]byte(src), r)
	})
	engine.Add("C18", "tokens", rule, 40000, genGrammatical, func(c tokCase, r *engine.Rec) error {
		src := model.TokText(c.Toks, c.Lay)
		r.Sample(src)
		return checkRoundTrip([]byte(src), r)
	})
	engine.Add("C18", "writer", "a writer fails before the end", 20000, func(t *rapid.T) writerCase {
		b := genBodyCase(t)
		c := writerCase{Body: b.Body, Lay: b.Lay, Room: model.Int(t, 0, 500, "room")}
		for i := model.Count(t, 0, 4); i > 0; i-- {
			c.Spaces = append(c.Spaces, model.Pick(t, []int{0, 1, 2, 39, 40, 41, 80, 81, model.Int(t, 0, 130, "spaces")}))
		}
		return c
	}, checkWriter)
	engine.Add("C18", "any", rule, 40000, genRaw, func(c rawCase, r *engine.Rec) error {
		r.Label("%s", c.Kind)
		r.Sample(string(c.Src))
		return checkRoundTrip(c.Src, r)
	})
}

type writerCase struct {
	Body   *model.Body `json:"body"`
	Lay    []byte      `json:"lay,omitempty"`
	Room   int         `json:"room"` // bytes taken before failing
	Spaces []int       `json:"spaces"`
}

// smallWriter fails after some bytes.
type smallWriter struct {
	room int
	buf  bytes.Buffer
	err  error
	more bool // written to after it failed
}

func (w *smallWriter) Write(b []byte) (int, error) {
	w.more = w.more || w.err != nil
	if len(b) <= w.room-w.buf.Len() {
		return w.buf.Write(b)
	}
	n, _ := w.buf.Write(b[:w.room-w.buf.Len()])
	w.err = errors.New("no room")
	return n, w.err
}

func checkWriter(c writerCase, r *engine.Rec) error {
	src := c.Body.Native(c.Lay).Src
	r.Sample(src)
	f, diags := hclwrite.ParseConfig([]byte(src), "t.hcl", startPos)
	if diags.HasErrors() {
		return errf("valid source refused: %s\n%s", diagStr(diags), src)
	}
	want := f.Bytes()
	try := func(what string, want []byte, room int, write func(io.Writer) (int64, error)) error {
		w := &smallWriter{room: room}
		n, err := write(w)
		if err != w.err || (err != nil) != (room < len(want)) {
			return errf("writing %d bytes of %s to a writer with room for %d gives the error %v, the writer's error is %v", len(want), what, room, err, w.err)
		}
		if int(n) != w.buf.Len() || !bytes.Equal(w.buf.Bytes(), want[:min(room, len(want))]) {
			return errf("writing %q with room for %d wrote %q and reports %d bytes", want, room, w.buf.Bytes(), n)
		}
		if w.more {
			return errf("%s is written on after an error", what)
		}
		return nil
	}
	for _, room := range []int{len(want), c.Room % (len(want) + 1)} {
		if err := try("the file", want, room, f.WriteTo); err != nil {
			return err
		}
	}
	// Tokens with any spacing.
	var toks hclwrite.Tokens
	var text []byte
	for i, n := range c.Spaces {
		b := []byte(fmt.Sprintf("t%d", i))
		toks = append(toks, &hclwrite.Token{Type: hclsyntax.TokenIdent, Bytes: b, SpacesBefore: n})
		text = append(append(text, bytes.Repeat([]byte(" "), n)...), b...)
	}
	if !bytes.Equal(toks.Bytes(), text) || toks.Columns() != len(text) {
		return errf("tokens with the spaces %v are written as %q with %d columns", c.Spaces, toks.Bytes(), toks.Columns())
	}
	for _, room := range []int{len(text), c.Room % (len(text) + 1)} {
		if err := try("tokens", text, room, toks.WriteTo); err != nil {
			return err
		}
	}
	r.NonTrivialIf(c.Room%(len(want)+1) < len(want) || c.Room%(len(text)+1) < len(text))
	return nil
}

var _ = hcl.Pos{}
