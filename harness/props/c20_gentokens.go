package props

import (
	"math"
	"math/big"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// asWritten is the value that source code for v stands for: collections
// become tuples and objects, nulls lose their type.
func asWritten(v cty.Value) cty.Value {
	ty := v.Type()
	switch {
	case v.IsNull():
		return cty.NullVal(cty.DynamicPseudoType)
	case ty.IsListType() || ty.IsSetType() || ty.IsTupleType():
		var l []cty.Value
		for it := v.ElementIterator(); it.Next(); {
			_, e := it.Element()
			l = append(l, asWritten(e))
		}
		return cty.TupleVal(l)
	case ty.IsMapType() || ty.IsObjectType():
		m := map[string]cty.Value{}
		for it := v.ElementIterator(); it.Next(); {
			k, e := it.Element()
			m[k.AsString()] = asWritten(e)
		}
		return cty.ObjectVal(m)
	}
	return v
}

// roundNums brings the numbers of a to the precision that those of b have.
func sameRounded(a, b cty.Value) bool {
	if a.IsNull() || b.IsNull() || !a.Type().Equals(b.Type()) {
		return model.SameValue(a, b)
	}
	ty := a.Type()
	switch {
	case ty == cty.Number:
		x, y := a.AsBigFloat(), b.AsBigFloat()
		return new(big.Float).SetPrec(y.Prec()).Set(x).Cmp(y) == 0
	case ty.IsTupleType() || ty.IsObjectType():
		bi := b.ElementIterator()
		for ai := a.ElementIterator(); ai.Next() && bi.Next(); {
			_, av := ai.Element()
			_, bv := bi.Element()
			if !sameRounded(av, bv) {
				return false
			}
		}
		return true
	}
	return model.SameValue(a, b)
}

type genValCase struct {
	V model.Val `json:"v"`
}

type genNumCase struct {
	Bits uint64 `json:"bits,omitempty"`
	Int  int64  `json:"int,omitempty"`
	Text string `json:"text,omitempty"`
	Div  int64  `json:"div,omitempty"`
}

// TStep is one step of a serialisable reference.
type TStep struct {
	Attr string `json:"attr,omitempty"`
	Str  string `json:"str,omitempty"`
	Num  string `json:"num,omitempty"`
}

type refCase struct {
	Root  string  `json:"root"`
	Steps []TStep `json:"steps,omitempty"`
}

func (c refCase) traversal() hcl.Traversal {
	tr := hcl.Traversal{hcl.TraverseRoot{Name: c.Root}}
	for _, s := range c.Steps {
		switch {
		case s.Attr != "":
			tr = append(tr, hcl.TraverseAttr{Name: s.Attr})
		case s.Num != "":
			tr = append(tr, hcl.TraverseIndex{Key: cty.MustParseNumberVal(s.Num)})
		default:
			tr = append(tr, hcl.TraverseIndex{Key: cty.StringVal(s.Str)})
		}
	}
	return tr
}

func genRef(t *rapid.T) refCase {
	c := refCase{Root: model.Pick(t, model.Idents)}
	for n := model.Count(t, 0, 4); n > 0; n-- {
		switch model.Weighted(t, 3, 2, 2) {
		case 0:
			c.Steps = append(c.Steps, TStep{Attr: model.Pick(t, model.Idents)})
		case 1:
			c.Steps = append(c.Steps, TStep{Num: model.Num(t)})
		default:
			c.Steps = append(c.Steps, TStep{Str: model.AnyText(t)})
		}
	}
	return c
}

func sameTraversal(a, b hcl.Traversal) error {
	if len(a) != len(b) {
		return errf("%d steps instead of %d", len(a), len(b))
	}
	for i := range a {
		switch y := b[i].(type) {
		case hcl.TraverseRoot:
			if x, ok := a[i].(hcl.TraverseRoot); !ok || x.Name != y.Name {
				return errf("step %d is %#v, not root %s", i, a[i], y.Name)
			}
		case hcl.TraverseAttr:
			if x, ok := a[i].(hcl.TraverseAttr); !ok || x.Name != y.Name {
				return errf("step %d is %#v, not attribute %s", i, a[i], y.Name)
			}
		case hcl.TraverseIndex:
			if x, ok := a[i].(hcl.TraverseIndex); !ok || !model.SameValue(x.Key, y.Key) {
				return errf("step %d is %#v, not index %s", i, a[i], vstr(y.Key))
			}
		}
	}
	return nil
}

func evalTokens(toks hclwrite.Tokens) (cty.Value, string, error) {
	src := toks.Bytes()
	e, d := hclsyntax.ParseExpression(src, "t.hcl", startPos)
	if d.HasErrors() {
		return cty.NilVal, string(src), errf("generated source %q does not parse: %s", src, diagStr(d))
	}
	v, d := e.Value(nil)
	if d.HasErrors() {
		return cty.NilVal, string(src), errf("generated source %q does not evaluate: %s", src, diagStr(d))
	}
	return v, string(src), nil
}

func init() {
	engine.Add("C20", "value", "a collection or structure, or a string with a character that needs care", 400000,
		func(t *rapid.T) genValCase {
			o := model.TrickyOpts()
			o.Null = 5
			return genValCase{o.ValOf(t, o.GenTyKeys(t, model.Int(t, 0, 3, "depth")))}
		},
		func(c genValCase, r *engine.Rec) error {
			v := c.V.Cty()
			got, src, err := evalTokens(hclwrite.TokensForValue(v))
			r.Sample(src)
			if err != nil {
				return err
			}
			if want := asWritten(v); !model.SameValue(got, want) {
				return errf("source %q generated for %s evaluates to %s", src, vstr(v), vstr(got))
			}
			r.Label("%s", c.V.K)
			r.NonTrivialIf(c.V.Size() > 1 || len(src) > len(c.V.S)+2)
			// The same through the editing API.
			f := hclwrite.NewEmptyFile()
			f.Body().SetAttributeValue("a", v)
			out := f.Bytes()
			nf, d := hclsyntax.ParseConfig(out, "t.hcl", startPos)
			if d.HasErrors() {
				return errf("generated attribute %q does not parse: %s", out, diagStr(d))
			}
			got, d = nf.Body.(*hclsyntax.Body).Attributes["a"].Expr.Value(nil)
			if d.HasErrors() || !model.SameValue(got, asWritten(v)) {
				return errf("attribute %q generated for %s evaluates to %s: %s", out, vstr(v), vstr(got), diagStr(d))
			}
			return nil
		})
	engine.Add("C20", "number", "not a small integer", 200000,
		func(t *rapid.T) genNumCase {
			switch model.Weighted(t, 3, 2, 3, 2) {
			case 0:
				f := rapid.Float64().Draw(t, "float")
				if e := math.Abs(f); math.IsInf(f, 0) || math.IsNaN(f) || e > 1e60 || (e < 1e-60) {
					f = math.Mod(float64(math.Float64bits(f)), 1e6) / 7
				}
				bits := math.Float64bits(f)
				if bits&(1<<52-1) == 0 && f != math.Trunc(f) {
					bits |= 1 // math/big prints some fractional powers of two inexactly
				}
				return genNumCase{Bits: bits}
			case 1:
				return genNumCase{Int: rapid.Int64().Draw(t, "int")}
			case 2:
				return genNumCase{Text: model.Num(t)}
			default:
				return genNumCase{Int: rapid.Int64().Draw(t, "int"), Div: int64(model.Int(t, 1, 1000, "div"))}
			}
		},
		func(c genNumCase, r *engine.Rec) error {
			var v cty.Value
			switch {
			case c.Text != "":
				v = cty.MustParseNumberVal(c.Text)
			case c.Div != 0:
				v = cty.MustParseNumberVal("1").Multiply(cty.NumberIntVal(c.Int)).Divide(cty.NumberIntVal(c.Div))
			case c.Bits != 0:
				v = cty.NumberFloatVal(math.Float64frombits(c.Bits))
			default:
				v = cty.NumberIntVal(c.Int)
			}
			got, src, err := evalTokens(hclwrite.TokensForValue(v))
			r.Sample(src)
			if err != nil {
				return err
			}
			if got.Type() != cty.Number || !sameRounded(got, v) {
				return errf("source %q generated for %s evaluates to %s", src, vstr(v), vstr(got))
			}
			r.NonTrivialIf(len(src) > 3)
			return nil
		})
	engine.Add("C20", "reference", "at least one step", 300000, genRef,
		func(c refCase, r *engine.Rec) error {
			tr := c.traversal()
			src := hclwrite.TokensForTraversal(tr).Bytes()
			r.Sample(string(src))
			got, d := hclsyntax.ParseTraversalAbs(src, "t.hcl", startPos)
			if d.HasErrors() {
				return errf("source %q generated for %s does not parse: %s", src, travStr(tr), diagStr(d))
			}
			if err := sameTraversal(got, tr); err != nil {
				return errf("source %q generated for %s: %w", src, travStr(tr), err)
			}
			ex := hclwrite.NewExpressionAbsTraversal(tr).BuildTokens(nil).Bytes()
			e, err := parseAttrExpr(string(ex))
			if err != nil {
				return err
			}
			if got, d = hcl.AbsTraversalForExpr(e); d.HasErrors() {
				// The parser of expressions does not take a key with an
				// escaped template sequence as a constant.
				got, d = hclsyntax.ParseTraversalAbs(ex, "t.hcl", startPos)
			}
			if d.HasErrors() {
				return errf("expression generated for %s is no reference: %s", travStr(tr), diagStr(d))
			}
			if err := sameTraversal(got, tr); err != nil {
				return errf("expression generated for %s: %w", travStr(tr), err)
			}
			// A relative reference continues another expression.
			if len(tr) > 1 {
				cut := 1 + len(tr)/2
				head := append(hclwrite.Tokens{}, hclwrite.TokensForTraversal(tr[:cut])...)
				both := append(head, hclwrite.TokensForTraversal(tr[cut:])...).Bytes()
				got, d = hclsyntax.ParseTraversalAbs(both, "t.hcl", startPos)
				if d.HasErrors() {
					return errf("source %q generated in two parts does not parse: %s", both, diagStr(d))
				}
				if err := sameTraversal(got, tr); err != nil {
					return errf("source %q generated in two parts: %w", both, err)
				}
			}
			r.NonTrivialIf(len(c.Steps) > 0)
			return nil
		})
}
