package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcled"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// posAt is the position of a byte of the source.
func posAt(src string, off int, base hcl.Pos) hcl.Pos {
	p := base
	p.Byte += off
	if off > 0 {
		p.Line, p.Column = model.Advance(base.Line, base.Column, []byte(src[:min(off, len(src))]))
	}
	return p
}

// stride is the distance between the positions tried in a source.
func stride(n int) int { return 1 + n/500 }

func checkAtPos(c bodyCase, r *engine.Rec) error {
	bt := c.Body.Native(c.Lay)
	r.Sample(bt.Src)
	base := startPos
	if len(c.Lay) > 1 && c.Lay[0]%2 == 1 {
		base = hcl.Pos{Line: 3, Column: 7, Byte: int(c.Lay[1])}
	}
	f, diags := hclsyntax.ParseConfig([]byte(bt.Src), "t.hcl", base)
	if diags.HasErrors() {
		return errf("valid configuration rejected: %s\n%s", diagStr(diags), bt.Src)
	}
	na, nb := c.Body.Count()
	r.NonTrivialIf(nb > 0 && na > 0)
	in := func(s model.Span, off int) bool { return off >= s.Start && off < s.End }
	rng := func(g hcl.Range) model.Span {
		return model.Span{Start: g.Start.Byte - base.Byte, End: g.End.Byte - base.Byte}
	}
	for off := -2; off <= len(bt.Src)+2; off += stride(len(bt.Src)) {
		var chain []*model.Item
		items := c.Body.Items
		var attr *model.Item
	Level:
		for {
			for _, it := range items {
				if !in(bt.Spans[it].Full(it), off) {
					continue
				}
				if it.IsAttr() {
					attr = it
					break Level
				}
				chain = append(chain, it)
				items = it.Body.Items
				continue Level
			}
			break
		}
		pos := posAt(bt.Src, off, base)
		if err := func() error {
			blocks := f.BlocksAtPos(pos)
			if len(blocks) != len(chain) {
				return errf("%d blocks, expected %d", len(blocks), len(chain))
			}
			same := func(what string, b *hcl.Block, it *model.Item) error {
				if (b == nil) != (it == nil) {
					return errf("%s found: %v", what, b != nil)
				}
				if b == nil {
					return nil
				}
				if b.Type != it.Name || !sameStrings(b.Labels, it.Labels) || rng(b.TypeRange) != bt.Spans[it].Name {
					return errf("%s is %s %q", what, b.Type, b.Labels)
				}
				return nil
			}
			for i, b := range blocks {
				if err := same(fmt.Sprintf("block %d", i), b, chain[i]); err != nil {
					return err
				}
			}
			var first, last *model.Item
			if len(chain) > 0 {
				first, last = chain[0], chain[len(chain)-1]
			}
			if err := same("the outermost block", f.OutermostBlockAtPos(pos), first); err != nil {
				return err
			}
			if err := same("the innermost block", f.InnermostBlockAtPos(pos), last); err != nil {
				return err
			}
			a := f.AttributeAtPos(pos)
			if (a == nil) != (attr == nil) {
				return errf("attribute found: %v", a != nil)
			}
			x := f.OutermostExprAtPos(pos)
			if a == nil {
				if x != nil {
					return errf("an expression is found outside of attributes")
				}
			} else {
				sp := bt.Spans[attr]
				if a.Name != attr.Name || rng(a.NameRange) != sp.Name || rng(a.Range) != sp.Full(attr) {
					return errf("attribute %s found, not %s", a.Name, attr.Name)
				}
				er := rng(a.Expr.Range())
				switch {
				case x == nil && in(er, off):
					return errf("no expression found in %s", attr.Name)
				case x != nil && !in(sp.Expr, off):
					return errf("an expression is found outside of the value of %s", attr.Name)
				case x != nil && rng(x.Range()) != er:
					return errf("the expression found is not the whole value of %s", attr.Name)
				}
			}
			want := ""
			if first != nil {
				want = first.Name
				for _, l := range first.Labels {
					want += " " + strconv.Quote(l)
				}
			}
			if got := hcled.ContextString(f, pos.Byte); got != want {
				return errf("the context is %q, expected %q", got, want)
			}
			def := hcled.ContextDefRange(f, pos.Byte)
			if first == nil {
				if def != f.Body.MissingItemRange() {
					return errf("the definition range outside of blocks is %s", def)
				}
			} else {
				sp := bt.Spans[first]
				if g := rng(def); g.Start != sp.Name.Start || g.End < sp.Header().End || g.End > sp.Open.End {
					return errf("the definition range %s is not the header of the block", def)
				}
			}
			return nil
		}(); err != nil {
			return errf("at byte %d: %w\n%s", off, err, bt.Src)
		}
	}
	return nil
}

func checkAtPosJSON(c jsonSchemaCase, r *engine.Rec) error {
	src, pr := c.J.Text(c.Lay)
	r.Sample(src)
	f, diags := json.Parse([]byte(src), "t.json")
	if diags.HasErrors() {
		return errf("valid JSON rejected: %s\n%s", diagStr(diags), src)
	}
	deep := 0
	for off := -1; off <= len(src)+1; off++ {
		want, n := "", 0
		j := c.J
	Level:
		for {
			for i, e := range j.L {
				if sp := pr.Spans[e]; e.K != "obj" && e.K != "arr" || off < sp.Start || off >= sp.End {
					continue
				}
				if j.K == "obj" {
					want += "." + j.Keys[i]
				} else {
					want += fmt.Sprintf("[%d]", i)
				}
				n++
				j = e
				continue Level
			}
			break
		}
		want = strings.TrimPrefix(want, ".")
		deep = max(deep, n)
		if got := hcled.ContextString(f, off); got != want {
			return errf("at byte %d the context is %q, expected %q\n%s", off, got, want, src)
		}
		if got := hcled.ContextDefRange(f, off); got != f.Body.MissingItemRange() {
			return errf("at byte %d the definition range is %s\n%s", off, got, src)
		}
		pos := posAt(src, off, startPos)
		if f.BlocksAtPos(pos) != nil || f.OutermostBlockAtPos(pos) != nil || f.InnermostBlockAtPos(pos) != nil || f.AttributeAtPos(pos) != nil || f.OutermostExprAtPos(pos) != nil {
			return errf("at byte %d something is found in a JSON file\n%s", off, src)
		}
	}
	r.NonTrivialIf(deep >= 2)
	return nil
}

func checkAtPosAny(c rawCase, r *engine.Rec) error {
	r.Sample(string(c.Src))
	f, _ := hclsyntax.ParseConfig(c.Src, "t.hcl", startPos)
	if f == nil {
		return nil
	}
	found := 0
	for off := -1; off <= len(c.Src)+1; off++ {
		pos := posAt(string(c.Src), off, startPos)
		blocks := f.BlocksAtPos(pos)
		out, in := f.OutermostBlockAtPos(pos), f.InnermostBlockAtPos(pos)
		if (len(blocks) > 0) != (out != nil) || (out != nil) != (in != nil) {
			return errf("at byte %d the queries disagree about being in a block\n%s", off, c.Src)
		}
		if out != nil {
			found++
			if last := blocks[len(blocks)-1]; blocks[0].TypeRange != out.TypeRange || last.TypeRange != in.TypeRange {
				return errf("at byte %d the queries return different blocks\n%s", off, c.Src)
			}
		}
		a, x := f.AttributeAtPos(pos), f.OutermostExprAtPos(pos)
		if a == nil && x != nil || x != nil && !x.Range().ContainsPos(pos) || a != nil && !a.Range.ContainsPos(pos) {
			return errf("at byte %d the attribute or expression found is wrong\n%s", off, c.Src)
		}
		if a != nil {
			found++
		}
		hcled.ContextString(f, off)
		hcled.ContextDefRange(f, off)
	}
	r.NonTrivialIf(found > 0)
	return nil
}

func init() {
	engine.Add("C35", "native", "at least one block and one attribute", 12000, genBodyCase, checkAtPos)
	engine.Add("C35", "json", "a position two levels deep", 30000,
		func(t *rapid.T) jsonSchemaCase {
			j := genJDoc(t)
			if model.Chance(t, 30) {
				for n := model.Int(t, 1, 5, "levels"); n > 0; n-- {
					up := &model.J{K: "arr"}
					if model.Chance(t, 60) {
						up.K = "obj"
					}
					add := func(e *model.J) {
						up.L = append(up.L, e)
						if up.K == "obj" {
							up.Keys = append(up.Keys, model.Pick(t, []string{"a", "b", "c"}))
						}
					}
					if model.Chance(t, 30) {
						add(&model.J{K: "arr"})
					}
					add(j)
					j = up
				}
			}
			return jsonSchemaCase{J: j, Lay: lay(t)}
		},
		func(c jsonSchemaCase, r *engine.Rec) error {
			if c.J.K != "obj" && c.J.K != "arr" {
				c.J = &model.J{K: "obj", Keys: []string{"a"}, L: []*model.J{c.J}}
			}
			return checkAtPosJSON(c, r)
		})
	engine.Add("C35", "any", "some position is in a block or attribute", 20000, genRaw, checkAtPosAny)
}
