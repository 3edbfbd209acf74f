package props

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
	"golang.org/x/text/unicode/norm"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type tmplCase struct {
	Scope model.Scope `json:"scope"`
	Tmpl  *model.Tmpl `json:"tmpl"`
	Lay   []byte      `json:"lay,omitempty"`
	Attr  bool        `json:"attr,omitempty"`
	CRLF  bool        `json:"crlf,omitempty"`
}

func genTmplCase(style string) func(t *rapid.T) tmplCase {
	return func(t *rapid.T) tmplCase {
		c := tmplCase{Scope: model.GenScope(t, genScopeOpts())}
		g := model.NewGen(t, c.Scope, 0)
		if model.Chance(t, 15) {
			g.Bad = 5
		}
		g.PlainLit = model.Chance(t, 15)
		c.Tmpl = g.Tmpl(style, model.Int(t, 1, 3, "depth"))
		c.Lay = lay(t)
		c.Attr = model.Chance(t, 30)
		return c
	}
}

func countParts(ps []model.Part, m map[string]int) {
	for _, p := range ps {
		m[p.K]++
		if p.Strip != 0 {
			m["strip"]++
		}
		countParts(p.Then, m)
		countParts(p.Else, m)
	}
}

func checkTmpl(c tmplCase, r *engine.Rec) error {
	vars := c.Scope.Map()
	want, werr := c.Tmpl.Eval(&model.Env{Vars: vars, Funcs: model.StdFuncs()})
	var src string
	var expr hclsyntax.Expression
	var diags hcl.Diagnostics
	e := &model.Expr{K: "tmpl", T: c.Tmpl}
	switch {
	case c.Tmpl.Style == "bare":
		src = c.Tmpl.Bare(c.Lay)
		expr, diags = hclsyntax.ParseTemplate([]byte(src), "t.hcl", startPos)
	case c.Attr:
		if c.Tmpl.Style == "quoted" {
			src = e.NativeInline(c.Lay)
		} else {
			src = e.Native(nil)
			src = strings.TrimSuffix(src, "\n")
		}
		var err error
		expr, err = parseAttrExpr(src)
		if err != nil {
			return errf("%s\nsource: %s", err, src)
		}
	default:
		src = e.Native(c.Lay)
		expr, diags = hclsyntax.ParseExpression([]byte(src), "t.hcl", startPos)
	}
	if diags.HasErrors() {
		return errf("valid template rejected: %s\nsource: %s", diagStr(diags), src)
	}
	got, diags, derr := guardValue(expr, evalCtx(vars), werr)
	if derr != nil {
		return derr
	}
	m := map[string]int{}
	countParts(c.Tmpl.Parts, m)
	for k := range m {
		r.Label("has %s", k)
	}
	switch {
	case werr == model.ErrUndetermined, werr == model.ErrDependency:
		r.Label("undetermined")
		return nil
	case werr != nil:
		r.Label("error expected")
	}
	r.NonTrivialIf(m["interp"]+m["if"]+m["for"] > 0 && len(c.Tmpl.Parts) > 1)
	r.Sample(src)
	full := src
	if c.Tmpl.Style != "bare" && c.Attr {
		full = "a = " + src
	}
	if err := unknownRoots(full, diags); err != nil {
		return err
	}
	return sameOutcome(src, got, diags, want, werr)
}

// ---- C07 ----

type strCase struct {
	S   string `json:"s"`
	Lay []byte `json:"lay,omitempty"`
}

type escCase struct {
	Pre  string `json:"pre"`
	Esc  string `json:"esc"` // the text after the backslash
	Post string `json:"post"`
}

// escMeaning decides what a backslash followed by rest denotes: the decoded
// text, how many bytes of rest are consumed, and whether it is valid. It
// follows the table of escapes in the specification.
func escMeaning(rest string) (string, int, bool) {
	if rest == "" {
		return "", 0, false
	}
	switch rest[0] {
	case 'n':
		return "\n", 1, true
	case 'r':
		return "\r", 1, true
	case 't':
		return "\t", 1, true
	case '"':
		return "\"", 1, true
	case '\\':
		return "\\", 1, true
	case 'u', 'U':
		n := 4
		if rest[0] == 'U' {
			n = 8
		}
		if len(rest) < 1+n {
			return "", 0, false
		}
		var v uint64
		for i := 1; i <= n; i++ {
			ch := rest[i]
			var d byte
			switch {
			case ch >= '0' && ch <= '9':
				d = ch - '0'
			case ch >= 'a' && ch <= 'f':
				d = ch - 'a' + 10
			case ch >= 'A' && ch <= 'F':
				d = ch - 'A' + 10
			default:
				return "", 0, false
			}
			v = v<<4 | uint64(d)
		}
		if v > 0x10ffff || v >= 0xd800 && v < 0xe000 {
			// There is no such character.
			return "", 0, false
		}
		return string(rune(v)), 1 + n, true
	}
	return "", 0, false
}

type numCase struct {
	S   string `json:"s"`
	Neg bool   `json:"neg,omitempty"`
	Ctx int    `json:"ctx,omitempty"`
}

func genNumText(t *rapid.T) string {
	digits := func(lo, hi int) string {
		n := model.Int(t, lo, hi, "n")
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + model.Int(t, 0, 9, "d"))
		}
		return string(b)
	}
	intPart := digits(1, 1)
	if intPart != "0" || model.Chance(t, 10) {
		max := 5
		if model.Chance(t, 25) {
			max = 80
		}
		intPart += digits(0, max)
	}
	s := intPart
	if model.Chance(t, 50) {
		max := 6
		if model.Chance(t, 25) {
			max = 80
		}
		s += "." + digits(1, max)
	}
	if model.Chance(t, 35) {
		s += model.Pick(t, []string{"e", "E"}) + model.Pick(t, []string{"", "+", "-"}) + digits(1, 2)
	}
	return s
}

// exactDecimal gives the exact value of a decimal literal.
func exactDecimal(s string) (*big.Rat, bool) {
	return new(big.Rat).SetString(s)
}

// nearDecimal says whether f is the literal's value to the precision of the
// number type (512 bits), allowing a last-place difference.
func nearDecimal(f *big.Float, exact *big.Rat) bool {
	got, _ := f.Rat(nil)
	if got == nil {
		return false
	}
	if exact.Sign() == 0 {
		return got.Sign() == 0
	}
	diff := new(big.Rat).Sub(got, exact)
	diff.Abs(diff)
	lim := new(big.Rat).Abs(exact)
	lim.Mul(lim, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 505)))
	return diff.Cmp(lim) <= 0
}

type labelCase struct {
	Label string `json:"label"`
	Lay   []byte `json:"lay,omitempty"`
}

func init() {
	rule := "the template contains an interpolation or directive next to other parts"
	engine.Add("C06", "quoted", rule, 150000, genTmplCase("quoted"), checkTmpl)
	engine.Add("C06", "heredoc", rule, 125000, genTmplCase("heredoc"), checkTmpl)
	engine.Add("C06", "flush", rule, 150000, genTmplCase("flush"), checkTmpl)
	engine.Add("C06", "bare", rule, 125000, genTmplCase("bare"), checkTmpl)

	engine.Add("C07", "string", "the string contains a character that is escaped, non-ASCII or a template introducer", 600000,
		func(t *rapid.T) strCase {
			return strCase{S: model.AnyText(t) + model.AnyText(t), Lay: rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "lay")}
		},
		func(c strCase, r *engine.Rec) error {
			src := model.StrLit(c.S).NativeInline(c.Lay)
			r.Sample(src)
			r.NonTrivialIf(strings.ContainsAny(c.S, "\\\"$%\n\r\t") || len([]rune(c.S)) != len(c.S))
			want := cty.StringVal(c.S)
			e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", startPos)
			if diags.HasErrors() {
				return errf("valid string %s rejected: %s", src, diagStr(diags))
			}
			got, diags := e.Value(nil)
			if diags.HasErrors() || !got.RawEquals(want) {
				return errf("%s denotes %s, want %s (%s)", src, vstr(got), vstr(want), diagStr(diags))
			}
			// As an object key and an index key.
			e2, diags := hclsyntax.ParseExpression([]byte("{"+src+" = 1}"), "t.hcl", startPos)
			if diags.HasErrors() {
				return errf("key %s rejected: %s", src, diagStr(diags))
			}
			ov, diags := e2.Value(nil)
			if diags.HasErrors() || !ov.Type().IsObjectType() || !ov.Type().HasAttribute(norm.NFC.String(c.S)) {
				return errf("object key %s denotes %s (%s)", src, vstr(ov), diagStr(diags))
			}
			tr, diags := hclsyntax.ParseTraversalAbs([]byte("a["+src+"]"), "t.hcl", startPos)
			if diags.HasErrors() || len(tr) != 2 {
				return errf("traversal a[%s] rejected: %s", src, diagStr(diags))
			}
			ti, ok := tr[1].(hcl.TraverseIndex)
			if !ok || !ti.Key.RawEquals(want) {
				return errf("traversal a[%s] has step %#v", src, tr[1])
			}
			return nil
		})

	engine.Add("C07", "escape", "the escape is one of the documented letters or a near miss of a Unicode escape", 400000,
		func(t *rapid.T) escCase {
			var esc string
			switch model.Weighted(t, 3, 3, 5, 4) {
			case 0:
				esc = model.Pick(t, []string{"n", "r", "t", "\"", "\\"})
			case 1:
				esc = string(rune(model.Int(t, 0x20, 0x7e, "c")))
			case 2:
				l := model.Pick(t, []string{"u", "U"})
				n := 4
				if l == "U" {
					n = 8
				}
				if model.Chance(t, 25) {
					n = model.Int(t, 0, 9, "n")
				}
				hex := ""
				for i := 0; i < n; i++ {
					pool := "0123456789abcdefABCDEF"
					if l == "U" && i < 4 && !model.Chance(t, 10) {
						pool = "00000001"
						if i < 3 {
							pool = "0"
						}
					}
					if model.Chance(t, 4) {
						pool = "gG.-xz \"é"
					}
					hex += string([]rune(pool)[model.Int(t, 0, len([]rune(pool))-1, "h")])
				}
				esc = l + hex
			default:
				esc = model.Pick(t, []string{"u0041", "u00e9", "U0001F44D", "u004", "U0001F44", "ud83d", "U00110000", "x41", "0", "a", "b", "f", "v", "'", "$", "{", "é", "N", "R", "T"})
			}
			return escCase{Pre: model.PlainText(t, 2), Esc: esc, Post: model.PlainText(t, 2)}
		},
		func(c escCase, r *engine.Rec) error {
			src := `"` + c.Pre + `\` + c.Esc + c.Post + `"`
			r.Sample(src)
			r.NonTrivialIf(len(c.Esc) > 0 && strings.ContainsRune("nrt\"\\uU", rune(c.Esc[0])))
			// Interpret the text between the quotes independently. A quote
			// ends the string early; such cases are left to C03.
			rest := c.Pre + `\` + c.Esc + c.Post
			var out strings.Builder
			valid := true
			for i := 0; i < len(rest); {
				if rest[i] == '"' {
					return nil
				}
				if rest[i] != '\\' {
					out.WriteByte(rest[i])
					i++
					continue
				}
				s, n, ok := escMeaning(rest[i+1:])
				if !ok {
					valid = false
					break
				}
				out.WriteString(s)
				i += 1 + n
			}
			if !valid && strings.Contains(c.Esc, "\"") {
				return nil
			}
			if strings.HasSuffix(rest, "\\") && valid && c.Esc != "\\" {
				return nil
			}
			e, diags := hclsyntax.ParseExpression([]byte(src), "t.hcl", startPos)
			if !valid {
				r.Label("invalid escape")
				if !diags.HasErrors() {
					v, _ := e.Value(nil)
					return errf("invalid escape in %s accepted as %s", src, vstr(v))
				}
				return nil
			}
			r.Label("valid escape")
			if diags.HasErrors() {
				return errf("valid escape in %s rejected: %s", src, diagStr(diags))
			}
			v, diags := e.Value(nil)
			want := cty.StringVal(out.String())
			if diags.HasErrors() || !v.RawEquals(want) {
				return errf("%s denotes %s, want %s", src, vstr(v), vstr(want))
			}
			return nil
		})

	engine.Add("C07", "number", "the literal has a fraction, an exponent or more than 15 digits", 600000,
		func(t *rapid.T) numCase {
			return numCase{S: genNumText(t), Neg: model.Chance(t, 20), Ctx: model.Int(t, 0, 3, "ctx")}
		},
		func(c numCase, r *engine.Rec) error {
			exact, ok := exactDecimal(c.S)
			if !ok {
				return nil
			}
			src := c.S
			if c.Neg {
				src = "-" + src
				exact.Neg(exact)
			}
			r.Sample(src)
			r.NonTrivialIf(len(src) > 15 || strings.ContainsAny(src, ".eE"))
			var v cty.Value
			var diags hcl.Diagnostics
			switch c.Ctx {
			case 0, 1:
				full := src
				if c.Ctx == 1 {
					full = "[" + src + ",0][0]"
				}
				e, d := hclsyntax.ParseExpression([]byte(full), "t.hcl", startPos)
				if d.HasErrors() {
					return errf("number %s rejected: %s", full, diagStr(d))
				}
				v, diags = e.Value(nil)
			case 2:
				if len(c.S) > 1 && c.S[0] == '0' && c.S[1] >= '0' && c.S[1] <= '9' {
					r.Label("not a JSON number")
					return nil
				}
				f, d := json.Parse([]byte(`{"a": `+src+`}`), "t.json")
				if d.HasErrors() {
					return errf("JSON number %s rejected: %s", src, diagStr(d))
				}
				at, d := f.Body.JustAttributes()
				if d.HasErrors() || at["a"] == nil {
					return errf("JSON number %s: %s", src, diagStr(d))
				}
				v, diags = at["a"].Expr.Value(nil)
			default:
				e, d := parseAttrExpr(src)
				if d != nil {
					return d
				}
				v, diags = e.Value(nil)
			}
			if diags.HasErrors() || v.Type() != cty.Number || !v.IsKnown() || v.IsNull() {
				return errf("number %s evaluates to %s (%s)", src, vstr(v), diagStr(diags))
			}
			if !nearDecimal(v.AsBigFloat(), exact) {
				return errf("number %s evaluates to %s", src, v.AsBigFloat().Text('g', 160))
			}
			if exact.IsInt() && exact.Num().BitLen() < 500 {
				if bi, acc := v.AsBigFloat().Int(nil); acc != big.Exact || bi.Cmp(exact.Num()) != 0 {
					return errf("integer %s evaluates to %s", src, v.AsBigFloat().Text('g', 160))
				}
			}
			return nil
		})

	engine.Add("C07", "label", "the label is an identifier that can be written both ways, or contains an escaped character", 300000,
		func(t *rapid.T) labelCase {
			l := model.Pick(t, model.Idents)
			if model.Chance(t, 60) {
				l = model.AnyText(t)
			}
			return labelCase{Label: l, Lay: rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "lay")}
		},
		func(c labelCase, r *engine.Rec) error {
			want := c.Label
			quoted := model.StrLit(c.Label).NativeInline(c.Lay)
			srcs := []string{quoted}
			for _, id := range model.Idents {
				if id == c.Label {
					srcs = append(srcs, c.Label)
				}
			}
			r.NonTrivialIf(len(srcs) == 2 || quoted != `"`+c.Label+`"`)
			r.Sample(quoted)
			if strings.Contains(c.Label, "${") || strings.Contains(c.Label, "%{") {
				// Labels are literal strings; whether doubled introducers are
				// unescaped in them is checked with the other spelling only.
				r.Label("introducer in label")
			}
			for _, s := range srcs {
				f, diags := hclsyntax.ParseConfig([]byte(fmt.Sprintf("blk %s x {\n}\n", s)), "t.hcl", startPos)
				if diags.HasErrors() {
					return errf("label %s rejected: %s", s, diagStr(diags))
				}
				b := f.Body.(*hclsyntax.Body)
				if len(b.Blocks) != 1 || len(b.Blocks[0].Labels) != 2 || b.Blocks[0].Labels[1] != "x" {
					return errf("block with label %s parsed as %#v", s, b.Blocks)
				}
				if norm.NFC.String(b.Blocks[0].Labels[0]) != norm.NFC.String(want) {
					return errf("label %s denotes %q, want %q", s, b.Blocks[0].Labels[0], want)
				}
			}
			return nil
		})
}
