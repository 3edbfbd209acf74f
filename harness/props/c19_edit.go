package props

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// editOp is one edit. Path leads from the root body through nested blocks,
// each index taken modulo the number of blocks there; it stops early in a body
// without blocks.
type editOp struct {
	Op     string     `json:"op"` // set ref block detached newline comment clear rename write
	Path   []int      `json:"path,omitempty"`
	Name   string     `json:"name,omitempty"`
	V      *model.Val `json:"v,omitempty"`
	Ref    *refCase   `json:"ref,omitempty"`
	Labels []string   `json:"labels,omitempty"`
	Inner  []editOp   `json:"inner,omitempty"`
	Search []string   `json:"search,omitempty"`
	Repl   []string   `json:"repl,omitempty"`
}

type editCase struct {
	Src  string   `json:"src"`
	From string   `json:"from"`
	Ops  []editOp `json:"ops"`
}

var editNames = []string{"a", "b", "foo", "bar", "in", "for", "é1", "new", "with-dash"}

func genEditVal(t *rapid.T) model.Val {
	o := model.TrickyOpts()
	if model.Chance(t, 60) {
		o = model.PlainOpts()
	}
	return o.ValOf(t, o.GenTyKeys(t, model.Int(t, 0, 2, "vd")))
}

func genEditOp(t *rapid.T, inner bool) editOp {
	op := editOp{}
	if !inner {
		for n := model.Weighted(t, 4, 4, 2); n > 0; n-- {
			op.Path = append(op.Path, model.Int(t, 0, 5, "path"))
		}
	}
	k := model.Weighted(t, 6, 4, 4, 2, 2, 2, 1, 5, 1)
	if inner {
		k = model.Weighted(t, 4, 3, 2, 0, 2, 1)
	}
	switch k {
	case 0:
		v := genEditVal(t)
		op.Op, op.Name, op.V = "set", model.Pick(t, editNames), &v
	case 1:
		ref := genRef(t)
		op.Op, op.Name, op.Ref = "ref", model.Pick(t, editNames), &ref
	case 2, 3:
		op.Op, op.Name = "block", model.Pick(t, []string{"blk", "svc", "foo", "日本"})
		if k == 3 {
			op.Op = "detached"
			for n := model.Count(t, 0, 3); n > 0; n-- {
				op.Inner = append(op.Inner, genEditOp(t, true))
			}
		}
		for n := model.Weighted(t, 3, 2, 1); n > 0; n-- {
			op.Labels = append(op.Labels, model.AnyText(t))
		}
	case 4:
		op.Op = "newline"
	case 5:
		op.Op, op.Name = "comment", model.Pick(t, []string{"# added\n", "// x = {\n", "# é\n"})
	case 6:
		op.Op = "clear"
	case 7:
		op.Op, op.Name = "rename", model.Pick(t, editNames)
		for n := model.Weighted(t, 0, 5, 3, 1); n > 0; n-- {
			op.Search = append(op.Search, model.Pick(t, renameNames))
			op.Repl = append(op.Repl, model.Pick(t, []string{"renamed", "a", "x-y", "é", "s"}))
		}
	default:
		op.Op = "write"
	}
	return op
}

var renameNames = []string{"s", "a", "b", "n", "l", "m", "o", "foo", "bar", "x", "ln", "ls", "any", "each"}

// renameCands are renames that concern references present in the body.
func renameCands(b *model.Body, path []int) []editOp {
	var out []editOp
	nb := 0
	for _, it := range b.Items {
		if !it.IsAttr() {
			out = append(out, renameCands(it.Body, append(append([]int{}, path...), nb))...)
			nb++
			continue
		}
		for _, fp := range it.X.Free() {
			op := editOp{Op: "rename", Path: path, Name: it.Name, Search: []string{fp.Root}}
			for _, st := range fp.Steps {
				if st.Attr == "" {
					break
				}
				op.Search = append(op.Search, st.Attr)
			}
			out = append(out, op)
		}
	}
	return out
}

func genEditCase(t *rapid.T) editCase {
	c := editCase{}
	switch model.Weighted(t, 2, 6, 3, 1) {
	case 0:
		c.From = "empty"
	case 1:
		b := genBodyCase(t)
		c.Src, c.From = b.Body.Native(b.Lay).Src, "body"
		cands := renameCands(b.Body, nil)
		for n := model.Int(t, 0, 3, "aimed"); n > 0 && len(cands) > 0; n-- {
			op := model.Pick(t, cands)
			op.Search = op.Search[:model.Int(t, 1, len(op.Search), "len")]
			if model.Chance(t, 15) {
				op.Search = append(append([]string{}, op.Search...), "a")
			}
			for range op.Search {
				op.Repl = append(op.Repl, model.Pick(t, []string{"renamed", "a", "x-y", "é", "s"}))
			}
			c.Ops = append(c.Ops, op)
			if model.Chance(t, 30) {
				// Rename once more, from the new name.
				again := op
				again.Search, again.Repl = op.Repl, nil
				for range again.Search {
					again.Repl = append(again.Repl, model.Pick(t, []string{"again", "b"}))
				}
				c.Ops = append(c.Ops, again)
			}
		}
	case 2:
		tc := genGrammatical(t)
		c.Src, c.From = model.TokText(tc.Toks, tc.Lay), "tokens"
	default:
		c.Src, c.From = model.Pick(t, []string{"a = 1", "blk {}", "blk { a = 1 }", "blk {\n}", "blk { }", "a = <<EOT\nx\nEOT", "blk { /* c */ }", "# only\n", "# c", "blk { a = 1 /* c */ }\n", "blk { # c\n}\n", "blk \"l\" { b = foo.bar }"}), "corner"
	}
	for n := model.Count(t, 1, 8); n > 0; n-- {
		op := genEditOp(t, false)
		c.Ops = append(c.Ops, op)
		if op.Op == "ref" && model.Chance(t, 30) {
			ren := editOp{Op: "rename", Path: op.Path, Name: op.Name}
			ren.Search = refVar(op.Ref.traversal())
			ren.Search = ren.Search[:model.Int(t, 1, len(ren.Search), "len")]
			for range ren.Search {
				ren.Repl = append(ren.Repl, model.Pick(t, []string{"renamed", "a", "x-y"}))
			}
			c.Ops = append(c.Ops, ren)
		}
	}
	return c
}

// ---- model of a file under edit ----

type mNode struct {
	toks []string // plain tokens

	// an attribute
	attr string
	head []string // name and equals sign
	expr []string // original expression tokens
	vars []mVar   // references in the expression
	val  *cty.Value
	ref  *hcl.Traversal
	tail []string

	// a block
	block  string
	body   *mBody
	labels []string
	lblTok []string // tokens of the labels, nil in new blocks
	isNew  bool
}

// mVar is a reference: the names it begins with and the indices of the tokens
// of these names in the expression.
type mVar struct {
	names []string
	at    []int
}

type mBody struct{ nodes []*mNode }

func (b *mBody) attrNode(name string) *mNode {
	for _, n := range b.nodes {
		if n.attr == name {
			return n
		}
	}
	return nil
}

func (b *mBody) blocks() []*mNode {
	var out []*mNode
	for _, n := range b.nodes {
		if n.body != nil {
			out = append(out, n)
		}
	}
	return out
}

const holeTok, labelTok = "HOLE", "LABEL"

func (b *mBody) flat(out []string) []string {
	for _, n := range b.nodes {
		switch {
		case n.attr != "":
			out = append(out, n.head...)
			if n.val != nil || n.ref != nil {
				out = append(out, holeTok)
			} else {
				out = append(out, n.expr...)
			}
			out = append(out, n.tail...)
		case n.body != nil:
			out = append(out, n.head...)
			if n.isNew {
				for range n.labels {
					out = append(out, labelTok)
				}
			} else {
				out = append(out, n.lblTok...)
			}
			out = append(out, "TokenOBrace {")
			out = n.body.flat(out)
			out = append(out, "TokenCBrace }")
			out = append(out, n.tail...)
		default:
			out = append(out, n.toks...)
		}
	}
	return out
}

// loadModel builds the model of a parsed file from its tokens and ranges.
func loadModel(nb *hclsyntax.Body, toks hclsyntax.Tokens, lo, hi int) *mBody {
	b := &mBody{}
	str := func(t hclsyntax.Token) string { return t.Type.String() + " " + string(t.Bytes) }
	between := func(lo, hi int) []string {
		var out []string
		for _, t := range toks {
			if t.Type != hclsyntax.TokenEOF && t.Range.Start.Byte >= lo && t.Range.Start.Byte < hi {
				out = append(out, str(t))
			}
		}
		return out
	}
	pos := lo
	for {
		var at *hclsyntax.Attribute
		var bk *hclsyntax.Block
		next := hi
		for _, x := range nb.Attributes {
			if x.NameRange.Start.Byte >= pos && x.NameRange.Start.Byte < next {
				at, next = x, x.NameRange.Start.Byte
			}
		}
		for _, x := range nb.Blocks {
			if x.TypeRange.Start.Byte >= pos && x.TypeRange.Start.Byte < next {
				at, bk, next = nil, x, x.TypeRange.Start.Byte
			}
		}
		if gap := between(pos, next); len(gap) > 0 {
			b.nodes = append(b.nodes, &mNode{toks: gap})
		}
		switch {
		case at != nil:
			n := &mNode{attr: at.Name, head: between(at.NameRange.Start.Byte, at.EqualsRange.End.Byte)}
			n.expr = between(at.EqualsRange.End.Byte, at.SrcRange.End.Byte)
			base := 0
			for i, t := range toks {
				if t.Range.Start.Byte >= at.EqualsRange.End.Byte {
					base = i
					break
				}
			}
			for _, tr := range at.Expr.Variables() {
				var v mVar
				for _, st := range tr {
					name := ""
					switch x := st.(type) {
					case hcl.TraverseRoot:
						name = x.Name
					case hcl.TraverseAttr:
						name = x.Name
					}
					if name == "" {
						break
					}
					sr := st.SourceRange()
					found := -1
					for i, t := range toks {
						if t.Type == hclsyntax.TokenIdent && t.Range.Start.Byte >= sr.Start.Byte && t.Range.End.Byte <= sr.End.Byte {
							found = i - base
						}
					}
					if found < 0 {
						break
					}
					v.names = append(v.names, name)
					v.at = append(v.at, found)
				}
				// Only the leading names count, so stop at the first index.
				n.vars = append(n.vars, v.leading(tr))
			}
			b.nodes = append(b.nodes, n)
			pos = at.SrcRange.End.Byte
		case bk != nil:
			n := &mNode{block: bk.Type, labels: bk.Labels}
			n.head = between(bk.TypeRange.Start.Byte, bk.TypeRange.End.Byte)
			n.lblTok = between(bk.TypeRange.End.Byte, bk.OpenBraceRange.Start.Byte)
			n.body = loadModel(bk.Body, toks, bk.OpenBraceRange.End.Byte, bk.CloseBraceRange.Start.Byte)
			b.nodes = append(b.nodes, n)
			pos = bk.CloseBraceRange.End.Byte
		default:
			return b
		}
	}
}

func (v mVar) leading(tr hcl.Traversal) mVar {
	n := 0
	for _, st := range tr {
		if _, is := st.(hcl.TraverseIndex); is {
			break
		}
		n++
	}
	if n > len(v.names) {
		n = len(v.names)
	}
	return mVar{v.names[:n], v.at[:n]}
}

func refVar(tr hcl.Traversal) []string {
	var out []string
	for _, st := range tr {
		switch x := st.(type) {
		case hcl.TraverseRoot:
			out = append(out, x.Name)
		case hcl.TraverseAttr:
			out = append(out, x.Name)
		default:
			return out
		}
	}
	return out
}

func hasPrefix(names, search []string) bool {
	if len(names) < len(search) {
		return false
	}
	for i, s := range search {
		if names[i] != s {
			return false
		}
	}
	return true
}

func (n *mNode) rename(search, repl []string) bool {
	hit := false
	if n.ref != nil {
		if hasPrefix(refVar(*n.ref), search) {
			tr := append(hcl.Traversal{}, *n.ref...)
			for i, s := range repl {
				if i == 0 {
					tr[i] = hcl.TraverseRoot{Name: s}
				} else {
					tr[i] = hcl.TraverseAttr{Name: s}
				}
			}
			n.ref = &tr
			return true
		}
		return false
	}
	for _, v := range n.vars {
		if hasPrefix(v.names, search) {
			hit = true
			for i, s := range repl {
				n.expr[v.at[i]] = "TokenIdent " + s
				v.names[i] = s
			}
		}
	}
	return hit
}

// ---- running ----

type editRun struct {
	appends, hits, edits, renamed int
}

func (er *editRun) apply(op editOp, mb *mBody, wb *hclwrite.Body) error {
	for _, i := range op.Path {
		ms := mb.blocks()
		ws := wb.Blocks()
		if len(ms) != len(ws) {
			return errf("the body has %d blocks, expected %d", len(ws), len(ms))
		}
		if len(ms) == 0 {
			break
		}
		mb, wb = ms[i%len(ms)].body, ws[i%len(ws)].Body()
	}
	nl := []string{"TokenNewline \n"}
	setAttr := func(got *hclwrite.Attribute) *mNode {
		n := mb.attrNode(op.Name)
		if n == nil {
			n = &mNode{attr: op.Name, head: []string{"TokenIdent " + op.Name, "TokenEqual ="}, tail: nl}
			mb.nodes = append(mb.nodes, n)
			er.appends++
		} else {
			er.hits++
		}
		n.expr, n.vars, n.val, n.ref = nil, nil, nil, nil
		return n
	}
	er.edits++
	switch op.Op {
	case "set", "ref":
		var got *hclwrite.Attribute
		n := setAttr(nil)
		if op.Op == "set" {
			v := op.V.Cty()
			n.val = &v
			got = wb.SetAttributeValue(op.Name, v)
		} else {
			tr := op.Ref.traversal()
			n.ref = &tr
			got = wb.SetAttributeTraversal(op.Name, tr)
		}
		if got == nil || got != wb.GetAttribute(op.Name) {
			return errf("setting %s did not return the attribute", op.Name)
		}
	case "block", "detached":
		n := &mNode{block: op.Name, head: []string{"TokenIdent " + op.Name}, labels: op.Labels, isNew: true, tail: nl,
			body: &mBody{nodes: []*mNode{{toks: nl}}}}
		mb.nodes = append(mb.nodes, n)
		er.appends++
		if op.Op == "block" {
			bk := wb.AppendNewBlock(op.Name, op.Labels)
			if bk == nil {
				return errf("no block returned")
			}
			break
		}
		bk := hclwrite.NewBlock(op.Name, op.Labels)
		for _, in := range op.Inner {
			if err := er.apply(in, n.body, bk.Body()); err != nil {
				return err
			}
		}
		if wb.AppendBlock(bk) != bk {
			return errf("a different block was returned")
		}
	case "newline":
		wb.AppendNewline()
		mb.nodes = append(mb.nodes, &mNode{toks: nl})
		er.appends++
	case "comment":
		// The caller is responsible for where raw tokens go, so begin a line.
		wb.AppendNewline()
		wb.AppendUnstructuredTokens(hclwrite.Tokens{{Type: hclsyntax.TokenComment, Bytes: []byte(op.Name)}})
		mb.nodes = append(mb.nodes, &mNode{toks: append(append([]string{}, nl...), "TokenComment "+op.Name)})
		er.appends++
	case "clear":
		wb.Clear()
		if len(mb.nodes) > 0 {
			er.hits++
		}
		mb.nodes = nil
		er.appends++ // a cleared block may keep its line break
	case "rename":
		n, a := mb.attrNode(op.Name), wb.GetAttribute(op.Name)
		if (n == nil) != (a == nil) {
			return errf("attribute %s: present %v, expected %v", op.Name, a != nil, n != nil)
		}
		if n != nil {
			a.Expr().RenameVariablePrefix(op.Search, op.Repl)
			if n.rename(op.Search, op.Repl) {
				er.hits++
				er.renamed++
			}
		}
	}
	return nil
}

// holes finds the parts of the output whose exact text is left open and
// verifies their meaning.
func (mb *mBody) holes(nb *hclsyntax.Body, wb *hclwrite.Body, src []byte, out map[int][2]interface{}) error {
	want := map[string]bool{}
	for _, n := range mb.nodes {
		if n.attr != "" {
			want[n.attr] = true
		}
	}
	wa := wb.Attributes()
	if len(want) != len(nb.Attributes) || len(want) != len(wa) {
		return errf("attributes: %q written, %q in the editing tree, expected %q", model.SortedKeys(nb.Attributes), model.SortedKeys(wa), model.SortedKeys(want))
	}
	blocks := mb.blocks()
	wbs := wb.Blocks()
	if len(blocks) != len(nb.Blocks) || len(blocks) != len(wbs) {
		return errf("%d blocks written, %d in the editing tree, expected %d", len(nb.Blocks), len(wbs), len(blocks))
	}
	for _, n := range mb.nodes {
		if n.attr == "" {
			continue
		}
		a := nb.Attributes[n.attr]
		if a == nil || wa[n.attr] == nil {
			return errf("attribute %s is missing", n.attr)
		}
		if n.val == nil && n.ref == nil {
			continue
		}
		if n.val != nil {
			v, d := a.Expr.Value(nil)
			if d.HasErrors() || !model.SameValue(v, asWritten(*n.val)) {
				return errf("attribute %s is %s, set to %s: %s", n.attr, vstr(v), vstr(*n.val), diagStr(d))
			}
		} else {
			rng := a.Expr.Range()
			tr, d := hclsyntax.ParseTraversalAbs(src[rng.Start.Byte:rng.End.Byte], "t.hcl", startPos)
			if d.HasErrors() {
				return errf("attribute %s, set to %s: %s", n.attr, travStr(*n.ref), diagStr(d))
			}
			if err := sameTraversal(tr, *n.ref); err != nil {
				return errf("attribute %s, set to %s: %w", n.attr, travStr(*n.ref), err)
			}
		}
		out[a.EqualsRange.End.Byte] = [2]interface{}{a.SrcRange.End.Byte, holeTok}
	}
	for i, n := range blocks {
		b := nb.Blocks[i]
		var lbl []string
		for _, l := range n.labels {
			lbl = append(lbl, model.NFC(l))
		}
		if b.Type != n.block || !sameStrings(normAll(b.Labels), lbl) {
			return errf("block %d is %s %q, expected %s %q", i, b.Type, b.Labels, n.block, lbl)
		}
		if n.isNew {
			for _, lr := range b.LabelRanges {
				out[lr.Start.Byte] = [2]interface{}{lr.End.Byte, labelTok}
			}
		}
		if err := n.body.holes(b.Body, wbs[i].Body(), src, out); err != nil {
			return errf("in block %d (%s): %w", i, n.block, err)
		}
	}
	return nil
}

// splitComments separates line comments from the newline that ends them.
func splitComments(toks []string) []string {
	var out []string
	for _, t := range toks {
		if strings.HasPrefix(t, "TokenComment") && strings.HasSuffix(t, "\n") {
			out = append(out, strings.TrimSuffix(t, "\n"), "TokenNewline \n")
		} else {
			out = append(out, t)
		}
	}
	return out
}

func (er *editRun) verify(mb *mBody, f *hclwrite.File) error {
	out := f.Bytes()
	nf, d := hclsyntax.ParseConfig(out, "t.hcl", startPos)
	if d.HasErrors() {
		return errf("the output is invalid: %s\noutput %q", diagStr(d), out)
	}
	holes := map[int][2]interface{}{}
	if err := mb.holes(nf.Body.(*hclsyntax.Body), f.Body(), out, holes); err != nil {
		return errf("%w\noutput %q", err, out)
	}
	toks, _ := hclsyntax.LexConfig(out, "t.hcl", startPos)
	var got []string
	until := -1
	for _, t := range toks {
		if t.Type == hclsyntax.TokenEOF {
			break
		}
		// A hole begins at or just after the given offset.
		for off, h := range holes {
			if t.Range.Start.Byte >= off && t.Range.Start.Byte < h[0].(int) {
				if until != h[0].(int) {
					got = append(got, h[1].(string))
				}
				until = h[0].(int)
			}
		}
		if t.Range.Start.Byte < until {
			continue
		}
		got = append(got, t.Type.String()+" "+string(t.Bytes))
	}
	var want []string
	got, want = splitComments(got), splitComments(mb.flat(nil))
	extra, i := 0, 0
	for _, g := range got {
		if i < len(want) && g == want[i] {
			i++
			continue
		}
		if g == "TokenNewline \n" {
			extra++
			continue
		}
		w := "nothing more"
		if i < len(want) {
			w = fmt.Sprintf("%q", want[i])
		}
		return errf("the output has token %q where %s is expected\noutput %q", g, w, out)
	}
	if i < len(want) {
		return errf("the output lacks token %q\noutput %q", want[i], out)
	}
	if extra > 2*er.appends {
		return errf("the output has %d unexpected newlines\noutput %q", extra, out)
	}
	return nil
}

func checkEdit(c editCase, r *engine.Rec) error {
	var f *hclwrite.File
	mb := &mBody{}
	r.Label("from %s", c.From)
	if c.From == "empty" {
		f = hclwrite.NewEmptyFile()
		if len(c.Ops)%2 == 0 {
			f = hclwrite.NewFile()
		}
	} else {
		nf, d := hclsyntax.ParseConfig([]byte(c.Src), "t.hcl", startPos)
		if d.HasErrors() {
			r.Label("invalid initial file")
			return nil
		}
		f, d = hclwrite.ParseConfig([]byte(c.Src), "t.hcl", startPos)
		if d.HasErrors() {
			return errf("not loaded: %s", diagStr(d))
		}
		toks, _ := hclsyntax.LexConfig([]byte(c.Src), "t.hcl", startPos)
		mb = loadModel(nf.Body.(*hclsyntax.Body), toks, 0, len(c.Src)+1)
	}
	er := &editRun{}
	var hist []string
	for _, op := range c.Ops {
		if op.Op == "write" {
			if err := er.verify(mb, f); err != nil {
				return errf("after %s: %w\ninitial %q", strings.Join(hist, ", "), err, c.Src)
			}
			continue
		}
		hist = append(hist, strings.TrimSpace(fmt.Sprintf("%s %s %v", op.Op, op.Name, op.Path)))
		if err := er.apply(op, mb, f.Body()); err != nil {
			return errf("after %s: %w\ninitial %q", strings.Join(hist, ", "), err, c.Src)
		}
		r.Label("%s", op.Op)
	}
	if err := er.verify(mb, f); err != nil {
		return errf("after %s: %w\ninitial %q", strings.Join(hist, ", "), err, c.Src)
	}
	if er.renamed > 0 {
		r.Label("renamed a reference")
	}
	if er.hits > 0 {
		r.Label("changed existing content")
	}
	r.Sample(fmt.Sprintf("initial %q, edits %s, output %q", c.Src, strings.Join(hist, ", "), f.Bytes()))
	r.NonTrivialIf(er.edits >= 2 && (er.hits > 0 || er.appends >= 2))
	return nil
}

func init() {
	engine.Add("C19", "history", "at least two edits, one of which changes existing content or two of which add something", 90000, genEditCase, checkEdit)
}
