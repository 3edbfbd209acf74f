package props

import (
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type tokCase struct {
	Toks []string `json:"toks"`
	Lay  []byte   `json:"lay,omitempty"`
	Lay2 []byte   `json:"lay2,omitempty"`
	Mut  bool     `json:"mut,omitempty"`
}

func lay2(t *rapid.T) []byte { return rapid.SliceOfN(rapid.Byte(), 1, 24).Draw(t, "lay") }

// tpart is one element of a template for the structure check.
type structCase struct {
	Parts []string `json:"parts"`
	Style string   `json:"style"`
	Tight bool     `json:"tight,omitempty"`
}

// tmplPieces map a text to its role: "" plain, "!" always an error, or the
// directive keyword.
var tmplPieces = []struct{ text, role string }{
	{"lit", ""}, {" ", ""}, {"${x}", ""}, {"${ x + 1 }", ""}, {"${~ x ~}", ""}, {"$${", ""}, {"%%{", ""}, {"$", ""}, {"${[for a in x : a]}", ""}, {"${{a = 1}}", ""},
	{"${\"${x}\"}", ""}, {"%{ if x }", "if"}, {"%{if x==1~}", "if"}, {"%{~ else }", "else"}, {"%{else}", "else"}, {"%{ endif }", "endif"}, {"%{~endif~}", "endif"},
	{"%{ for a in x }", "for"}, {"%{for a, b in x}", "for"}, {"%{ for in in x ~}", "for"}, {"%{ endfor }", "endfor"}, {"%{~ endfor }", "endfor"},
}

var tmplBad = []string{"${}", "${ x y }", "%{}", "%{ if }", "%{ else x }", "%{ endif x }", "%{ iff x }", "%{ for x }", "%{ for in x }", "%{ for a b in x }", "%{ for a, in x }", "%{ for a in }", "%{ endfor 1 }", "%{ 1 }", "${x", "%{ if x", "%{ endfi }", "${ x, }", "%{ else if x }", "${ [x }"}

func genStructCase(t *rapid.T) structCase {
	c := structCase{Style: model.Pick(t, []string{"bare", "quoted", "heredoc"}), Tight: model.Chance(t, 50)}
	// Mostly balanced structures, then edits.
	var gen func(d int)
	add := func(role string) {
		var opts []string
		for _, p := range tmplPieces {
			if p.role == role {
				opts = append(opts, p.text)
			}
		}
		c.Parts = append(c.Parts, model.Pick(t, opts))
	}
	gen = func(d int) {
		for n := model.Count(t, 0, 3); n > 0; n-- {
			k := 0
			if d > 0 {
				k = model.Weighted(t, 3, 2, 2)
			}
			switch k {
			case 0:
				add("")
			case 1:
				add("if")
				gen(d - 1)
				if model.Chance(t, 50) {
					add("else")
					gen(d - 1)
				}
				add("endif")
			default:
				add("for")
				gen(d - 1)
				add("endfor")
			}
		}
	}
	gen(3)
	if model.Chance(t, 70) {
		for n := model.Int(t, 1, 2, "edits"); n > 0; n-- {
			i := model.Int(t, 0, len(c.Parts), "at")
			switch model.Weighted(t, 3, 3, 2, 1) {
			case 0:
				c.Parts = append(c.Parts[:i:i], append([]string{model.Pick(t, tmplPieces).text}, c.Parts[i:]...)...)
			case 1:
				if i < len(c.Parts) {
					c.Parts = append(c.Parts[:i:i], c.Parts[i+1:]...)
				}
			case 2:
				c.Parts = append(c.Parts[:i:i], append([]string{model.Pick(t, tmplBad)}, c.Parts[i:]...)...)
			default:
				if i+1 < len(c.Parts) {
					c.Parts[i], c.Parts[i+1] = c.Parts[i+1], c.Parts[i]
				}
			}
		}
	}
	return c
}

// tmplOK decides the structure of a template.
func tmplOK(parts []string) bool {
	role := map[string]string{}
	for _, p := range tmplPieces {
		role[p.text] = p.role
	}
	var stack []string
	for _, p := range parts {
		ro, ok := role[p]
		if !ok {
			return false
		}
		top := ""
		if len(stack) > 0 {
			top = stack[len(stack)-1]
		}
		switch ro {
		case "if", "for":
			stack = append(stack, ro)
		case "else":
			if top != "if" {
				return false
			}
			stack[len(stack)-1] = "else"
		case "endif":
			if top != "if" && top != "else" {
				return false
			}
			stack = stack[:len(stack)-1]
		case "endfor":
			if top != "for" {
				return false
			}
			stack = stack[:len(stack)-1]
		}
	}
	return len(stack) == 0
}

type lexCase struct {
	Parts []string `json:"parts"`
	Kind  string   `json:"kind"`
}

var litGood = []string{"a", " ", "é", "日", "\\n", "\\t", "\\r", "\\\"", "\\\\", "\\u00e9", "\\U0001F600", "$", "%", "$${", "%%{", "${x}", "%{if x}y%{endif}", "{", "}", "#", "//", "/*", "'", "\\u12345", "\t"}
var litBad = []string{"\n", "\r\n", "\\q", "\\x41", "\\u12g4", "\\U0000", "\\ud800", "\\Uffffffff", "\\'", "\\$", "\\ ", "\xff", "\xc3(", "%{}", "${}", "%{ }", "${~ ~}"}

func init() {
	engine.Add("C03", "tokens", "at least 8 tokens: either ungrammatical after mutation or grammatical with a nested construct", 300000,
		func(t *rapid.T) tokCase {
			c := tokCase{Toks: model.GenConfigTokens(t)}
			if model.Chance(t, 65) {
				c.Toks = model.MutateTokens(t, c.Toks)
				c.Mut = true
			}
			c.Toks = model.NormTokens(c.Toks)
			c.Lay, c.Lay2 = lay(t), lay2(t)
			return c
		},
		func(c tokCase, r *engine.Rec) error {
			ok, unsure, why := model.Accepts(c.Toks)
			src := model.TokText(c.Toks, c.Lay)
			r.Sample(src)
			if unsure {
				r.Label("unspecified")
				return nil
			}
			for _, s := range []string{src, model.TokText(c.Toks, c.Lay2)} {
				_, diags := hclsyntax.ParseConfig([]byte(s), "t.hcl", startPos)
				if ok && diags.HasErrors() {
					return errf("grammatical source rejected: %s\n%s", diagStr(diags), s)
				}
				if !ok && !diags.HasErrors() {
					return errf("ungrammatical source accepted (%s):\n%s", why, s)
				}
			}
			switch {
			case ok && c.Mut:
				r.Label("mutated, still grammatical")
			case ok:
				r.Label("grammatical")
			default:
				r.Label("ungrammatical")
			}
			r.NonTrivialIf(len(c.Toks) >= 8)
			return nil
		})
	addTokens := func(name string, n int, gen func(t *rapid.T) []string, accepts func([]string) (bool, bool, string), parse func(string) hcl.Diagnostics) {
		engine.Add("C03", name, "at least 4 tokens", n,
			func(t *rapid.T) tokCase {
				c := tokCase{Toks: gen(t)}
				if model.Chance(t, 65) {
					c.Toks = model.MutateTokens(t, c.Toks)
					c.Mut = true
				}
				c.Toks = model.NormTokens(c.Toks)
				c.Lay, c.Lay2 = lay(t), lay2(t)
				return c
			},
			func(c tokCase, r *engine.Rec) error {
				ok, unsure, why := accepts(c.Toks)
				r.Sample(model.TokText(c.Toks, c.Lay))
				if unsure {
					r.Label("unspecified")
					return nil
				}
				for _, l := range [][]byte{c.Lay, c.Lay2} {
					s := model.TokText(c.Toks, l)
					diags := parse(s)
					if ok && diags.HasErrors() {
						return errf("grammatical %s rejected: %s\n%s", name, diagStr(diags), s)
					}
					if !ok && !diags.HasErrors() {
						return errf("ungrammatical %s accepted (%s):\n%s", name, why, s)
					}
				}
				if ok {
					r.Label("grammatical")
				} else {
					r.Label("ungrammatical")
				}
				r.NonTrivialIf(len(c.Toks) >= 4)
				return nil
			})
	}
	addTokens("expression", 200000, model.GenExprTokens, model.AcceptsExpr, func(s string) hcl.Diagnostics {
		_, d := hclsyntax.ParseExpression([]byte(s), "t.hcl", startPos)
		return d
	})
	addTokens("traversal", 100000, model.GenTraversalTokens, model.AcceptsTraversal, func(s string) hcl.Diagnostics {
		_, d := hclsyntax.ParseTraversalAbs([]byte(s), "t.hcl", startPos)
		return d
	})
	engine.Add("C03", "template", "contains a directive", 200000, genStructCase,
		func(c structCase, r *engine.Rec) error {
			ok := tmplOK(c.Parts)
			text := ""
			for i, p := range c.Parts {
				// Two sequences may be adjacent.
				if i > 0 && !(c.Tight && strings.HasSuffix(c.Parts[i-1], "}") && (strings.HasPrefix(p, "%{") || strings.HasPrefix(p, "${"))) {
					text += "|"
				}
				text += p
			}
			var diags hcl.Diagnostics
			var src string
			switch c.Style {
			case "bare":
				src = text
				_, diags = hclsyntax.ParseTemplate([]byte(src), "t.hcl", startPos)
			case "quoted":
				src = "a = \"" + text + "\"\n"
				_, diags = hclsyntax.ParseConfig([]byte(src), "t.hcl", startPos)
			default:
				src = "a = <<EOT\n" + text + "\nEOT\n"
				_, diags = hclsyntax.ParseConfig([]byte(src), "t.hcl", startPos)
			}
			r.Sample(src)
			if ok && diags.HasErrors() {
				return errf("well-formed template rejected: %s\n%s", diagStr(diags), src)
			}
			if !ok && !diags.HasErrors() {
				return errf("malformed template accepted:\n%s", src)
			}
			if ok {
				r.Label("well-formed")
			} else {
				r.Label("malformed")
			}
			r.NonTrivialIf(strings.Contains(text, "%{ ") || strings.Contains(text, "%{i") || strings.Contains(text, "%{f") || strings.Contains(text, "%{e"))
			return nil
		})
	engine.Add("C03", "lexical", "at least two pieces", 200000,
		func(t *rapid.T) lexCase {
			c := lexCase{Kind: model.Pick(t, []string{"string", "string", "label", "unterminated", "comment", "heredoc", "noheredocend", "identifier"})}
			bad := model.Chance(t, 40)
			for n := model.Count(t, 0, 5); n > 0; n-- {
				if bad && model.Chance(t, 40) {
					c.Parts = append(c.Parts, model.Pick(t, litBad))
				} else {
					c.Parts = append(c.Parts, model.Pick(t, litGood))
				}
			}
			return c
		},
		func(c lexCase, r *engine.Rec) error {
			bad, badUTF8, badSeq, interp, joined := false, false, false, false, strings.Join(c.Parts, ".")
			for _, p := range c.Parts {
				for _, b := range litBad {
					if p == b {
						bad = true
						badSeq = badSeq || strings.HasSuffix(p, "}")
						badUTF8 = badUTF8 || strings.Contains("\xff\xc3(", p)
					}
				}
				interp = interp || p == "${x}" || p[0] == '%' && len(p) > 3
			}
			var src string
			ok := true
			switch c.Kind {
			case "string":
				src = "a = \"" + joined + "\"\nb = 1\n"
				ok = !bad
			case "label":
				src = "a \"" + joined + "\" {\n}\n"
				ok = !bad && !interp
			case "unterminated":
				src = "a = \"" + joined
				ok = false
			case "comment":
				src = "a = 1 /* " + strings.NewReplacer("*", "", "/", "").Replace(joined)
				ok = false
			case "heredoc":
				src = "a = <<EOT\n" + joined + "\nEOT\n"
				ok = !badUTF8 && !badSeq
			case "noheredocend":
				src = "a = <<EOT\n" + joined + "\nEOT x\n"
				ok = false
			case "identifier":
				src = "a" + joined + " = 1\n"
				ok = true
				for _, p := range c.Parts {
					ok = ok && (p == "a" || p == "é" || p == "日")
				}
				if len(c.Parts) > 1 {
					ok = false // joined by dots
				}
			}
			if c.Kind == "identifier" && !ok {
				// Some of these spell comments or other valid syntax.
				return nil
			}
			r.Sample(src)
			r.Label("%s", c.Kind)
			_, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", startPos)
			if ok && diags.HasErrors() {
				return errf("valid source rejected: %s\n%q", diagStr(diags), src)
			}
			if !ok && !diags.HasErrors() {
				return errf("invalid source accepted:\n%q", src)
			}
			r.NonTrivialIf(len(c.Parts) >= 2)
			return nil
		})
	engine.Add("C03", "identifier", "at least two characters", 100000,
		func(t *rapid.T) nameCase {
			switch model.Weighted(t, 3, 3, 2) {
			case 0:
				return nameCase{model.Pick(t, model.Idents)}
			case 1:
				return nameCase{strings.Join(rapid.SliceOfN(rapid.SampledFrom(namePieces), 0, 4).Draw(t, "pieces"), "")}
			default:
				return nameCase{model.AnyText(t)}
			}
		},
		func(c nameCase, r *engine.Rec) error {
			r.Sample(c.Name)
			tr, d := hclsyntax.ParseTraversalAbs([]byte(c.Name), "t.hcl", startPos)
			isRoot := !d.HasErrors() && len(tr) == 1 && tr.RootName() == c.Name
			f, d := hclsyntax.ParseConfig([]byte(c.Name+" = 1\n"), "t.hcl", startPos)
			isAttr := !d.HasErrors() && f.Body.(*hclsyntax.Body).Attributes[c.Name] != nil
			if is := hclsyntax.ValidIdentifier(c.Name); is != isRoot || is != isAttr {
				return errf("%q: identifier %v, usable as a variable name %v, usable as an attribute name %v", c.Name, is, isRoot, isAttr)
			}
			if isRoot {
				r.Label("identifier")
			} else {
				r.Label("no identifier")
			}
			r.NonTrivialIf(len(c.Name) >= 2)
			return nil
		})
}

type nameCase struct {
	Name string `json:"name"`
}

var namePieces = []string{"a", "Z", "_", "-", "0", "9", "é", "e\u0301", "\u0301", "日", "\u200d", "\u200b", "\ufeff", " ", ".", "for", "\u00b2", "\u2118", "\u00b7", "$", "\t", "\n", "\xff", "٣", "ª", "\u2160"}
