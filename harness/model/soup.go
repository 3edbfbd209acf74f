package model

import (
	"regexp"
	"strings"

	"github.com/apparentlymart/go-textseg/textseg"
	"pgregory.net/rapid"
)

// soupPieces are fragments that are interesting next to each other for a
// scanner or parser of the native syntax.
var soupPieces = []string{
	"{", "}", "[", "]", "(", ")", "=", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "!", "?", ":", ",", ".", "...", "=>",
	"+", "-", "*", "/", "%", "~", "\"", "'", "`", ";", "@", "&", "|", "^", "**", "\\", "$", "#", "//", "/*", "*/", "[*]", ".*",
	"${", "%{", "${~", "%{~", "~}", "$${", "%%{", "\\\"", "\\n", "\\u00e9", "\\u12", "\\U0001F600",
	"<<EOT\n", "<<-EOT\n", "\nEOT\n", "\n  EOT\n", "EOT", "<<", "<<-", "<<E", "\n", "\n", "\r\n", "\r", " ", " ", "  ", "\t",
	"a", "foo", "b-c", "é", "日本", "_x", "for", "in", "if", "else", "endif", "endfor", "true", "false", "null", "x", "dynamic",
	"0", "1", "2.5", "1e3", "1.", ".5", "0.0", "12", "e", "E+", "a = 1\n", "b {\n}\n", "a.b", "a[0]", "f(", "x = \"${a}\"\n", "[for x in a : x]", "{for k, v in a : k => v}",
	"\"foo\"", "\"${", "}\"", "%{ if a }", "%{ endif }", "%{ for x in a }", "%{ endfor }",
	"\u0301", "👍", "👩‍👩‍👧", "🇬🇧", "\u0600", "\u00a0", "\u2028", "\u200b", "\ufeff", "\x00", "\x7f", "\u0085",
	"\xff", "\xc3", "\xe6\x97", "\xf0\x9f\x91", "\xed\xa0\x80", "\xc0\x80",
}

var hugeExp = regexp.MustCompile(`([eE][+-]?[0-9]{2})[0-9]+`)

// Tame shortens exponents, which would otherwise ask for numbers with
// millions of digits.
func Tame(s string) string {
	for hugeExp.MatchString(s) {
		s = hugeExp.ReplaceAllString(s, "$1")
	}
	return s
}

// Soup draws a sequence of fragments.
func Soup(t *rapid.T, pieces []string, max int) string {
	n := Int(t, 0, max, "pieces")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(Pick(t, pieces))
	}
	return b.String()
}

// Mutate applies byte and fragment level edits.
func Mutate(t *rapid.T, s string, pieces []string) string {
	b := []byte(s)
	for n := Int(t, 1, 4, "edits"); n > 0; n-- {
		i := 0
		if len(b) > 0 {
			i = Int(t, 0, len(b), "at")
		}
		end := i + Int(t, 0, 6, "len")
		if end > len(b) {
			end = len(b)
		}
		switch Weighted(t, 4, 3, 3, 1, 1, 1) {
		case 0: // insert
			b = []byte(string(b[:i]) + Pick(t, pieces) + string(b[i:]))
		case 1: // delete
			b = []byte(string(b[:i]) + string(b[end:]))
		case 2: // replace
			b = []byte(string(b[:i]) + Pick(t, pieces) + string(b[end:]))
		case 3: // duplicate
			b = []byte(string(b[:end]) + string(b[i:]))
		case 4: // truncate
			b = b[:i]
		default: // arbitrary byte
			b = []byte(string(b[:i]) + string([]byte{rapid.Byte().Draw(t, "byte")}) + string(b[i:]))
		}
	}
	return string(b)
}

// Source draws a source text: valid, mutated, or without structure. kind
// names the class.
func Source(t *rapid.T) (src []byte, kind string) {
	valid := func() string {
		s := GenScope(t, PlainOpts())
		g := NewGen(t, s, 5)
		switch Weighted(t, 5, 2, 2) {
		case 0:
			o := StdBody()
			o.XDepth = 3
			return g.Body(o).Native(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "lay")).Src
		case 1:
			return g.Expr("any", 3).Native(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "lay"))
		default:
			return g.Tmpl("bare", 3).Bare(nil)
		}
	}
	var s string
	switch Weighted(t, 2, 5, 5, 1) {
	case 0:
		s, kind = valid(), "valid"
	case 1:
		s, kind = Mutate(t, valid(), soupPieces), "mutated"
	case 2:
		s, kind = Soup(t, soupPieces, 24), "soup"
	default:
		s, kind = string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")), "bytes"
	}
	if Chance(t, 4) {
		s = "\ufeff" + s
	}
	return []byte(Tame(s)), kind
}

// Advance moves a line and column over text, counting newline sequences and
// grapheme clusters.
func Advance(line, col int, text []byte) (int, int) {
	for len(text) > 0 {
		n, seq, _ := textseg.ScanGraphemeClusters(text, true)
		if n == 0 {
			break
		}
		if s := string(seq); s == "\n" || s == "\r\n" {
			line, col = line+1, 1
		} else {
			col++
		}
		text = text[n:]
	}
	return line, col
}

var jToken = regexp.MustCompile(`"(?:[^"\\\\]|\\\\.)*"|[-+.0-9a-zA-Z]+|\s+|[^\s]`)

var jVocab = []string{"{", "}", "[", "]", ",", ":", "\"\"", "\"a\"", "0", "-1.5e2", "true", "false", "null", "nul", "TRUE", "01", "1.", "-", "'a'", "// c\n", "/* c */", "=", ";"}

// MutateJTokens edits a JSON text token by token.
func MutateJTokens(t *rapid.T, s string) string {
	toks := jToken.FindAllString(s, -1)
	for n := Weighted(t, 0, 5, 2, 1); n > 0; n-- {
		i := Int(t, 0, len(toks), "at")
		if i == len(toks) {
			toks = append(toks, Pick(t, jVocab))
			continue
		}
		switch Weighted(t, 3, 3, 2, 2, 4) {
		case 0:
			toks = append(toks[:i:i], append([]string{Pick(t, jVocab)}, toks[i:]...)...)
		case 1:
			toks = append(toks[:i:i], toks[i+1:]...)
		case 2:
			toks = append(toks[:i+1:i+1], toks[i:]...)
		case 3:
			if j := i + 1; j < len(toks) {
				toks[i], toks[j] = toks[j], toks[i]
			}
		default:
			toks[i] = Pick(t, jVocab)
		}
	}
	return strings.Join(toks, "")
}
