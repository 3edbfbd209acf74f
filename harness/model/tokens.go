package model

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// The tokens of the grammar check are plain strings:
//
//	"\n"            a newline
//	"i:name"        an identifier
//	"n:12"          a number
//	"s:text"        a quoted string without sequences
//	"t:x"           a quoted template with an interpolation
//	"h:"            a heredoc, always followed by a newline
//	"?:@"           something that is no token of the language
//	anything else   punctuation

// TokGen writes grammatical token sequences.
type TokGen struct {
	t   *rapid.T
	out []string
	nl  bool // newlines are insignificant
	n   int
	dup bool // attributes may be defined twice
}

func (g *TokGen) emit(s ...string) { g.out = append(g.out, s...) }

// sp emits insignificant newlines now and then.
func (g *TokGen) sp() {
	if g.nl && Chance(g.t, 8) {
		g.emit("\n")
	}
}

func (g *TokGen) punct(s string) {
	g.sp()
	g.emit(s)
}

func (g *TokGen) in(nl bool, f func()) {
	old := g.nl
	g.nl = nl
	f()
	g.nl = old
}

var tokIdents = []string{"a", "b", "foo", "x", "for", "in", "if", "true", "null", "else"}

func (g *TokGen) ident() { g.sp(); g.emit("i:" + Pick(g.t, tokIdents)) }

// GenConfigTokens draws the tokens of a configuration file that is valid
// unless it defines an attribute twice.
func GenConfigTokens(t *rapid.T) []string {
	g := &TokGen{t: t, n: 60, dup: Chance(t, 12)}
	g.body(3)
	return g.out
}

func (g *TokGen) body(depth int) {
	used := map[string]bool{}
	for n := Int(g.t, 0, 3, "items"); n > 0; n-- {
		if Chance(g.t, 15) {
			g.emit("\n")
		}
		if depth > 0 && Chance(g.t, 40) {
			g.block(depth)
			g.emit("\n")
			continue
		}
		name := Pick(g.t, tokIdents)
		if used[name] && !g.dup {
			continue
		}
		used[name] = true
		g.emit("i:"+name, "=")
		g.expr(2)
		g.emit("\n")
	}
}

func (g *TokGen) block(depth int) {
	g.emit("i:" + Pick(g.t, tokIdents))
	for n := Weighted(g.t, 5, 3, 2); n > 0; n-- {
		if Chance(g.t, 50) {
			g.emit("i:" + Pick(g.t, tokIdents))
		} else {
			g.emit("s:" + Pick(g.t, []string{"lbl", "", "a b"}))
		}
	}
	g.emit("{")
	switch Weighted(g.t, 1, 2, 4) {
	case 0:
	case 1:
		g.emit("i:"+Pick(g.t, tokIdents), "=")
		g.exprNoHeredoc(1)
	default:
		g.emit("\n")
		g.body(depth - 1)
	}
	g.emit("}")
}

func (g *TokGen) exprNoHeredoc(d int) {
	at := len(g.out)
	g.expr(d)
	for i := at; i < len(g.out); i++ {
		if g.out[i] == "h:" {
			g.out[i] = "n:1"
		}
	}
}

var tokBin = []string{"+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||"}

func (g *TokGen) expr(d int) {
	g.n--
	if d <= 0 || g.n < 0 {
		g.term(0)
		return
	}
	switch Weighted(g.t, 6, 3, 2) {
	case 0:
		g.term(d)
	case 1:
		g.term(d - 1)
		for n := Int(g.t, 1, 2, "ops"); n > 0; n-- {
			g.punct(Pick(g.t, tokBin))
			g.term(d - 1)
		}
	default:
		g.term(d - 1)
		g.punct("?")
		g.expr(d - 1)
		g.punct(":")
		g.expr(d - 1)
	}
}

func (g *TokGen) term(d int) {
	g.sp()
	k := 3
	if d > 0 {
		k = Weighted(g.t, 2, 2, 2, 5, 2, 2, 2, 2)
	}
	switch k {
	case 0: // parentheses
		g.emit("(")
		g.in(true, func() { g.expr(d - 1); g.punct(")") })
	case 1: // tuple
		g.emit("[")
		g.in(true, func() { g.list(d, "]") })
	case 2: // object
		g.object(d)
	case 4: // call
		g.emit("i:"+Pick(g.t, []string{"f", "foo", "for", "true"}), "(")
		g.in(true, func() {
			n := Int(g.t, 0, 2, "args")
			for i := 0; i < n; i++ {
				if i > 0 {
					g.punct(",")
				}
				g.expr(d - 1)
			}
			if n > 0 {
				switch Weighted(g.t, 4, 1, 1) {
				case 1:
					g.punct("...")
				case 2:
					g.punct(",")
				}
			}
			g.punct(")")
		})
	case 5: // unary
		g.emit(Pick(g.t, []string{"-", "!"}))
		g.term(d - 1)
		return
	case 6: // for
		obj := Chance(g.t, 50)
		o, c := "[", "]"
		if obj {
			o, c = "{", "}"
		}
		g.emit(o)
		g.in(true, func() {
			g.sp()
			g.emit("i:for")
			g.ident()
			if Chance(g.t, 40) {
				g.punct(",")
				g.ident()
			}
			g.sp()
			g.emit("i:in")
			g.expr(d - 1)
			g.punct(":")
			g.expr(d - 1)
			if obj {
				g.punct("=>")
				g.expr(d - 1)
				if Chance(g.t, 25) {
					g.punct("...")
				}
			}
			if Chance(g.t, 30) {
				g.sp()
				g.emit("i:if")
				g.expr(d - 1)
			}
			g.punct(c)
		})
	case 7:
		if g.nl || Chance(g.t, 50) {
			g.emit("t:x")
		} else {
			g.emit("h:", "\n")
			// Only the end of an attribute can follow: leave it to the
			// normaliser to keep or drop the newline.
			return
		}
	default:
		g.emit(Pick(g.t, []string{"i:a", "i:b", "i:x", "i:true", "n:1", "n:2.5", "s:str", "t:x", "i:in", "i:foo"}))
	}
	for Chance(g.t, 25) {
		switch Weighted(g.t, 4, 1, 1, 3, 1) {
		case 0:
			g.punct(".")
			g.ident()
		case 1:
			g.punct(".")
			g.sp()
			g.emit("n:" + Pick(g.t, []string{"0", "12"}))
		case 2:
			g.punct(".")
			g.sp()
			g.emit("*")
		case 3:
			g.sp()
			g.emit("[")
			g.in(true, func() { g.expr(d - 1); g.punct("]") })
		default:
			g.sp()
			g.emit("[", "*", "]")
		}
	}
}

func (g *TokGen) list(d int, end string) {
	n := Int(g.t, 0, 3, "elems")
	for i := 0; i < n; i++ {
		if i > 0 {
			g.punct(",")
		}
		at := len(g.out)
		g.expr(d - 1)
		if i == 0 {
			// A list beginning with the word for is a for expression.
			for j := at; j < len(g.out); j++ {
				if g.out[j] == "i:for" {
					g.out[j] = "i:foo"
				}
				if g.out[j] != "\n" {
					break
				}
			}
		}
	}
	if n > 0 && Chance(g.t, 20) {
		g.punct(",")
	}
	g.punct(end)
}

func (g *TokGen) object(d int) {
	g.emit("{")
	g.in(false, func() {
		if Chance(g.t, 30) {
			g.emit("\n")
		}
		n := Int(g.t, 0, 3, "props")
		for i := 0; i < n; i++ {
			switch Weighted(g.t, 5, 2, 1) {
			case 0:
				g.emit("i:" + Pick(g.t, []string{"a", "b", "foo", "in", "null"}))
			case 1:
				g.emit("s:k")
			default:
				g.emit("(")
				g.in(true, func() { g.expr(d - 1); g.punct(")") })
			}
			g.emit(Pick(g.t, []string{"=", ":"}))
			g.exprNoHeredoc(d - 1)
			last := i == n-1
			switch Weighted(g.t, 3, 3) {
			case 0:
				if !last || Chance(g.t, 20) {
					g.emit(",")
				}
			default:
				g.emit("\n")
			}
			if Chance(g.t, 15) {
				g.emit("\n")
			}
			_ = last
		}
		g.emit("}")
	})
}

// Vocab are the tokens used for mutations.
var Vocab = []string{
	"{", "}", "[", "]", "(", ")", "=", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "!", "?", ":", ",", ".", "...", "=>",
	"+", "-", "*", "/", "%", "\n", "\n", "i:a", "i:foo", "i:for", "i:in", "i:if", "i:true", "n:0", "n:1.5", "s:str", "t:x", "?:@", "?:;", "?:'", "?:`", "?:&", "?:|", "?:^", "?:~",
}

// confusions are the tokens that are easily taken for each other, and those
// that are easily left over or left out beside them.
var confusions = map[string][]string{
	",": {":", "\n", ";", ", ,", "", "=", "..."}, ":": {",", "=", "=>", "", "?"}, "=": {":", "==", "=>", "= ="}, "=>": {"=", ":", ",", ""},
	"...": {"... ,", "... ...", ". .", ",", "... \n", "... n:1"}, "i:in": {"i:of", ":", "", "="}, "i:if": {"?", ":", "", "i:if i:if"}, "?": {"i:if", ":", "? ?"},
	".": {". .", "", "...", "?:?.", ". ["}, "*": {"* *", "n:0", ". *", ""}, "[": {"(", "{", "[ ["}, "]": {")", "}", ", ]", "... ]", "] ]"}, "(": {"[", "{", "( ("}, ")": {"]", "}", ", )", "... )", ") )"},
	"{": {"[", "(", "{ {", "= {", "\n {"}, "}": {"]", ")", "\n }", "} }", ", }", "... }"}, "\n": {"", ",", "\n ,", ", \n", ", ,", "?:;"}, "==": {"=", "=>", "== =="}, "!": {"!=", "! !"}, "&&": {"?:&", "&& &&"}, "||": {"?:|", "|| ||"},
	"<": {"< ="}, ">": {"> ="}, "i:for": {"i:for i:for", "", "i:For"},
}

// confuse replaces one token by something like it.
func confuse(t *rapid.T, toks []string) []string {
	var at []int
	for i, s := range toks {
		if len(confusions[s]) > 0 || strings.HasPrefix(s, "i:") || strings.HasPrefix(s, "s:") || strings.HasPrefix(s, "t:") {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return toks
	}
	i := Pick(t, at)
	var with []string
	switch s := toks[i]; {
	case len(confusions[s]) > 0:
		for _, x := range strings.Split(Pick(t, confusions[s]), " ") {
			if x != "" {
				with = append(with, x)
			}
		}
	default:
		with = []string{Pick(t, []string{"s:" + s[2:], "t:x", "i:a", "n:1", "i:null"})}
		if Chance(t, 30) {
			with = append([]string{s}, with...)
		}
	}
	return append(toks[:i:i], append(with, toks[i+1:]...)...)
}

// MutateTokens inserts, deletes, duplicates, swaps or replaces tokens.
func MutateTokens(t *rapid.T, toks []string) []string {
	toks = append([]string(nil), toks...)
	for n := Int(t, 1, 3, "edits"); n > 0; n-- {
		if Chance(t, 30) {
			toks = confuse(t, toks)
			continue
		}
		i := Int(t, 0, len(toks), "at")
		if i == len(toks) {
			toks = append(toks, Pick(t, Vocab))
			continue
		}
		switch Weighted(t, 3, 4, 1, 2, 3) {
		case 0:
			toks = append(toks[:i:i], append([]string{Pick(t, Vocab)}, toks[i:]...)...)
		case 1:
			toks = append(toks[:i:i], toks[i+1:]...)
		case 2:
			toks = append(toks[:i+1:i+1], toks[i:]...)
		case 3:
			if j := i + 1; j < len(toks) {
				toks[i], toks[j] = toks[j], toks[i]
			}
		default:
			toks[i] = Pick(t, Vocab)
		}
	}
	return toks
}

// NormTokens makes every heredoc be followed by a newline.
func NormTokens(toks []string) []string {
	var out []string
	for i, s := range toks {
		out = append(out, s)
		if s == "h:" && (i+1 == len(toks) || toks[i+1] != "\n") {
			out = append(out, "\n")
		}
	}
	return out
}

// TokText renders tokens; lay varies the spacing between them.
func TokText(toks []string, lay []byte) string {
	var b strings.Builder
	li := 0
	next := func(n int) int {
		if len(lay) == 0 {
			return 0
		}
		v := int(lay[li%len(lay)]) % n
		li++
		return v
	}
	for i, s := range toks {
		switch {
		case i > 0 && toks[i-1] == "h:":
		case i == 0 || toks[i-1] == "\n":
			b.WriteString([]string{"", "  ", "\t", "/* c */ "}[next(4)])
		default:
			b.WriteString([]string{" ", " ", " ", "  ", "\t", " /* c } */ ", " /* a\n b */ "}[next(7)])
		}
		switch {
		case s == "\n":
			if i > 0 && toks[i-1] == "h:" {
				b.WriteString("\n")
				break
			}
			b.WriteString([]string{"\n", "\n", "\n", "\r\n", "# c \" }\n", "// c\n"}[next(6)])
		case strings.HasPrefix(s, "i:"), strings.HasPrefix(s, "n:"), strings.HasPrefix(s, "?:"):
			b.WriteString(s[2:])
		case strings.HasPrefix(s, "s:"):
			b.WriteString(`"` + s[2:] + `"`)
		case strings.HasPrefix(s, "t:"):
			b.WriteString([]string{`"${x}"`, `"a ${ x } b"`, `"%{ if x }y%{ endif }"`}[next(3)])
		case s == "h:":
			fmt.Fprintf(&b, "<<EOT\ntext\nEOT")
		default:
			b.WriteString(s)
		}
	}
	return b.String()
}

// ---- recogniser ----

// Recog decides whether a token sequence is a sentence of the grammar.
type Recog struct {
	toks []string
	pos  int
	nl   []bool // stack: newlines are significant
	// Unsure is set when the grammar leaves the sequence open.
	Unsure bool
	// Why is the first reason for rejection.
	Why string
}

type reject struct{}

func (r *Recog) fail(f string, a ...interface{}) {
	r.Why = fmt.Sprintf(f, a...) + fmt.Sprintf(" at token %d", r.pos)
	panic(reject{})
}

// Accepts runs the recogniser on a configuration file.
func Accepts(toks []string) (ok, unsure bool, why string) {
	r := &Recog{toks: toks, nl: []bool{true}}
	defer func() {
		if p := recover(); p != nil {
			if _, is := p.(reject); !is {
				panic(p)
			}
			ok, unsure, why = false, r.Unsure, r.Why
		}
	}()
	for _, s := range toks {
		if strings.HasPrefix(s, "?:") {
			r.fail("invalid token %s", s)
		}
	}
	r.bodyR("EOF")
	return true, r.Unsure, ""
}

// GenExprTokens draws the tokens of a standalone expression.
func GenExprTokens(t *rapid.T) []string {
	g := &TokGen{t: t, n: 60, nl: true}
	g.expr(3)
	return g.out
}

// GenTraversalTokens draws the tokens of an absolute traversal.
func GenTraversalTokens(t *rapid.T) []string {
	g := &TokGen{t: t, nl: true}
	g.ident()
	for n := Int(t, 0, 4, "steps"); n > 0; n-- {
		switch Weighted(t, 3, 2, 2) {
		case 0:
			g.punct(".")
			g.ident()
		case 1:
			g.punct("[")
			g.punct("n:" + Pick(t, []string{"0", "12"}))
			g.punct("]")
		default:
			g.punct("[")
			g.punct("s:" + Pick(t, []string{"a", "", "x y"}))
			g.punct("]")
		}
	}
	return g.out
}

// AcceptsExpr decides a standalone expression, AcceptsTraversal an absolute
// traversal.
func AcceptsExpr(toks []string) (ok, unsure bool, why string) {
	return accepts(toks, func(r *Recog) {
		r.exprR()
		r.want("EOF")
	})
}

// AcceptsTraversal decides an absolute traversal.
func AcceptsTraversal(toks []string) (ok, unsure bool, why string) {
	return accepts(toks, func(r *Recog) {
		if !isID(r.read()) {
			r.fail("no root name")
		}
		for {
			switch s := r.read(); s {
			case "EOF":
				return
			case ".":
				if !isID(r.read()) {
					r.fail("no attribute name")
				}
			case "[":
				if k := r.read(); !strings.HasPrefix(k, "n:") && !strings.HasPrefix(k, "s:") {
					r.fail("no literal key")
				}
				r.want("]")
			default:
				r.fail("unexpected %q", s)
			}
		}
	})
}

func accepts(toks []string, f func(r *Recog)) (ok, unsure bool, why string) {
	r := &Recog{toks: toks, nl: []bool{false}}
	defer func() {
		if p := recover(); p != nil {
			if _, is := p.(reject); !is {
				panic(p)
			}
			ok, unsure, why = false, r.Unsure, r.Why
		}
	}()
	for _, s := range toks {
		if strings.HasPrefix(s, "?:") {
			r.fail("invalid token %s", s)
		}
	}
	f(r)
	return true, r.Unsure, ""
}

func (r *Recog) peek() string {
	for i := r.pos; i < len(r.toks); i++ {
		if r.toks[i] == "\n" && !r.nl[len(r.nl)-1] {
			continue
		}
		return r.toks[i]
	}
	return "EOF"
}

func (r *Recog) read() string {
	for r.pos < len(r.toks) {
		s := r.toks[r.pos]
		r.pos++
		if s == "\n" && !r.nl[len(r.nl)-1] {
			continue
		}
		return s
	}
	return "EOF"
}

func (r *Recog) want(s string) {
	if got := r.read(); got != s {
		r.fail("want %q, have %q", s, got)
	}
}

func (r *Recog) with(sig bool, f func()) {
	r.nl = append(r.nl, sig)
	f()
	r.nl = r.nl[:len(r.nl)-1]
}

func isID(s string) bool { return strings.HasPrefix(s, "i:") }

func (r *Recog) bodyR(end string) {
	seen := map[string]bool{}
	for {
		switch s := r.peek(); {
		case s == end:
			r.read()
			return
		case s == "\n":
			r.read()
		case isID(s):
			r.read()
			if r.peek() == "=" {
				if seen[s] {
					r.fail("duplicate attribute")
				}
				seen[s] = true
				r.read()
				r.exprR()
			} else {
				r.blockR()
			}
			if e := r.peek(); e == "\n" {
				r.read()
			} else if e != "EOF" {
				r.fail("item must end with a newline")
			}
		default:
			r.fail("no item starts with %q", s)
		}
	}
}

func (r *Recog) blockR() {
	for isID(r.peek()) || strings.HasPrefix(r.peek(), "s:") {
		r.read()
	}
	r.want("{")
	switch s := r.peek(); {
	case s == "\n" || s == "}":
		r.bodyR("}")
	case isID(s):
		r.read()
		r.want("=")
		r.exprR()
		r.want("}")
	default:
		r.fail("bad block content")
	}
}

func (r *Recog) exprR() {
	r.binR()
	if r.peek() == "?" {
		r.read()
		r.exprR()
		r.want(":")
		r.exprR()
	}
}

func (r *Recog) binR() {
	r.unR()
	for {
		if _, ok := binPrec[r.peek()]; !ok {
			return
		}
		r.read()
		r.unR()
	}
}

func (r *Recog) unR() {
	for r.peek() == "-" || r.peek() == "!" {
		r.read()
	}
	r.termR()
}

func (r *Recog) termR() {
	s := r.read()
	switch {
	case s == "(":
		r.with(false, func() { r.exprR(); r.want(")") })
	case s == "[":
		r.with(false, func() {
			if r.peek() == "i:for" {
				r.forR(false)
				return
			}
			r.listR("]")
		})
	case s == "{":
		isFor := false
		r.with(false, func() { isFor = r.peek() == "i:for" })
		if isFor {
			r.with(false, func() { r.forR(true) })
		} else {
			r.with(true, r.objectR)
		}
	case isID(s):
		if r.peek() == "(" {
			r.read()
			r.with(false, func() {
				if r.peek() == ")" {
					r.read()
					return
				}
				for {
					r.exprR()
					switch t := r.read(); t {
					case ")":
						return
					case "...":
						r.want(")")
						return
					case ",":
						if r.peek() == ")" {
							r.read()
							return
						}
					default:
						r.fail("bad argument separator %q", t)
					}
				}
			})
		}
	case strings.HasPrefix(s, "n:"), strings.HasPrefix(s, "s:"), strings.HasPrefix(s, "t:"), s == "h:":
	default:
		r.fail("no expression starts with %q", s)
	}
	r.postR()
}

func (r *Recog) postR() {
	splat := false // directly inside an attribute-only splat
	for {
		switch r.peek() {
		case ".":
			r.read()
			s := r.peek()
			switch {
			case isID(s):
			case strings.HasPrefix(s, "n:"):
				if strings.Contains(s, ".") {
					r.fail("fractional legacy index")
				}
			case s == "*":
				if splat {
					r.fail("nested attribute splat")
				}
				splat = true
			default:
				r.fail("no attribute name")
			}
			r.read()
		case "[":
			splat = false
			r.read()
			// Whether newlines may surround the star of a splat is not
			// specified.
			i := r.pos
			for i < len(r.toks) && r.toks[i] == "\n" {
				i++
			}
			if i < len(r.toks) && r.toks[i] == "*" {
				if r.nl[len(r.nl)-1] && (i != r.pos || i+1 < len(r.toks) && r.toks[i+1] == "\n") {
					r.Unsure = true
				}
				r.with(false, func() { r.want("*"); r.want("]") })
				continue
			}
			r.with(false, func() { r.exprR(); r.want("]") })
		default:
			return
		}
	}
}

func (r *Recog) listR(end string) {
	for {
		if r.peek() == end {
			r.read()
			return
		}
		r.exprR()
		if r.peek() == end {
			r.read()
			return
		}
		r.want(",")
	}
}

func (r *Recog) objectR() {
	for {
		switch r.peek() {
		case "\n":
			r.read()
			continue
		case "}":
			r.read()
			return
		}
		r.exprR()
		if s := r.read(); s != "=" && s != ":" {
			r.fail("no key separator")
		}
		r.exprR()
		switch s := r.peek(); s {
		case "}":
		case ",", "\n":
			r.read()
		default:
			r.fail("bad item separator %q", s)
		}
	}
}

func (r *Recog) forR(obj bool) {
	r.want("i:for")
	if !isID(r.read()) {
		r.fail("no loop variable")
	}
	if r.peek() == "," {
		r.read()
		if !isID(r.read()) {
			r.fail("no loop variable")
		}
	}
	r.want("i:in")
	r.exprR()
	r.want(":")
	r.exprR()
	if obj {
		r.want("=>")
		r.exprR()
		if r.peek() == "..." {
			r.read()
		}
	}
	if r.peek() == "i:if" {
		r.read()
		r.exprR()
	}
	if obj {
		r.want("}")
	} else {
		r.want("]")
	}
}
