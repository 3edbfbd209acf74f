package model

import (
	"fmt"
	"strings"
)

// Expr is a serialisable expression tree.
type Expr struct {
	K string `json:"k"`
	// S is a name, an operator, a number text or a sub-kind.
	S    string   `json:"s,omitempty"`
	Xs   []*Expr  `json:"xs,omitempty"`
	Keys []ObjKey `json:"keys,omitempty"` // obj
	T    *Tmpl    `json:"t,omitempty"`    // tmpl
	KV   string   `json:"kv,omitempty"`   // for: key variable
	VV   string   `json:"vv,omitempty"`   // for: value variable
	Key  *Expr    `json:"key,omitempty"`  // for: key expression
	Cond *Expr    `json:"cond,omitempty"` // for: condition
	Flag bool     `json:"flag,omitempty"` // call: expand final; for: grouping
}

// ObjKey is the key of an object constructor item.
type ObjKey struct {
	K string `json:"k"` // id, x (expression as is), p (parenthesised expression)
	S string `json:"s,omitempty"`
	X *Expr  `json:"x,omitempty"`
}

// Tmpl is a template.
type Tmpl struct {
	Style string `json:"style"` // quoted heredoc flush bare
	Parts []Part `json:"parts,omitempty"`
	// Indent is the whitespace written before the end marker.
	Indent int `json:"indent,omitempty"`
}

// Part of a template.
type Part struct {
	K    string `json:"k"` // lit interp if for
	S    string `json:"s,omitempty"`
	X    *Expr  `json:"x,omitempty"` // interp expr, if condition, for collection
	KV   string `json:"kv,omitempty"`
	VV   string `json:"vv,omitempty"`
	Then []Part `json:"then,omitempty"` // if true part, for body
	Else []Part `json:"else,omitempty"`
	// HasElse distinguishes an empty else clause from none.
	HasElse bool `json:"has_else,omitempty"`
	// Strip has one bit per side of each marker, in source order:
	// interp: 1 open, 2 close; if: 1,2 if; 4,8 else; 16,32 endif;
	// for: 1,2 for; 4,8 endfor.
	Strip int `json:"strip,omitempty"`
}

// Walk visits an expression tree, parents first.
func (e *Expr) Walk(f func(*Expr)) {
	if e == nil {
		return
	}
	f(e)
	for _, k := range e.Keys {
		k.X.Walk(f)
	}
	for _, x := range e.Xs {
		x.Walk(f)
	}
	e.Key.Walk(f)
	e.Cond.Walk(f)
	if e.T != nil {
		walkParts(e.T.Parts, f)
	}
}

func walkParts(ps []Part, f func(*Expr)) {
	for i := range ps {
		ps[i].X.Walk(f)
		walkParts(ps[i].Then, f)
		walkParts(ps[i].Else, f)
	}
}

// Size counts nodes.
func (e *Expr) Size() int {
	n := 0
	e.Walk(func(*Expr) { n++ })
	return n
}

// Kinds counts distinct node kinds.
func (e *Expr) Kinds() map[string]int {
	m := map[string]int{}
	e.Walk(func(x *Expr) { m[x.K]++ })
	return m
}

// ---- printer ----

// Printer renders models as native syntax with generated layout noise.
type Printer struct {
	b    strings.Builder
	Lay  []byte
	i    int
	nl   bool // newlines are insignificant here
	last string
	// kind of the last token: w word, n number, o other, l newline-ended
	lastK byte
	// NoComment disables comments in noise.
	NoComment bool
	// start offset of the last token; first receives the next one.
	start int
	first *int
	// Spans of body items, when non-nil.
	Spans map[*Item]*ItemSpan
}

func (p *Printer) mark() {
	p.start = p.b.Len()
	if p.first != nil {
		*p.first = p.start
		p.first = nil
	}
}

func (p *Printer) lay(n int) int {
	if len(p.Lay) == 0 {
		return 0
	}
	v := int(p.Lay[p.i%len(p.Lay)])
	p.i++
	return v % n
}

// String returns what was printed.
func (p *Printer) String() string { return p.b.String() }

// Len is the current offset.
func (p *Printer) Len() int { return p.b.Len() }

func isWordByte(c byte) bool {
	return c == '_' || c == '-' || c >= 0x80 || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (p *Printer) needSpace(next string) bool {
	if p.last == "" || p.lastK == 'l' {
		return false
	}
	lc, nc := p.last[len(p.last)-1], next[0]
	switch {
	case p.lastK == 'w' && isWordByte(nc): // includes '-' after an identifier
		return true
	case p.lastK == 'n' && (isWordByte(nc) && nc != '-' || nc == '.'):
		return true
	case lc == '<' && nc == '<':
		return true
	case lc == '/' && (nc == '/' || nc == '*'):
		return true
	case lc == '.' && nc == '.':
		return true
	case (lc == '=' || lc == '!' || lc == '<' || lc == '>') && (nc == '=' || nc == '>'):
		return true
	}
	return false
}

func (p *Printer) gap(next string) {
	need := p.needSpace(next)
	noise := ""
	n := 10
	if p.nl {
		n = 16
	}
	switch p.lay(n) {
	case 2, 3, 4:
		noise = " "
	case 5:
		noise = "  "
	case 6:
		noise = "\t"
	case 7:
		noise = "/* c */"
	case 8:
		noise = " /**/ "
	case 9:
		noise = "/* a\n * é b\n */"
	case 11, 12:
		noise = "\n"
	case 13:
		noise = " # c \" ${\n"
	case 14:
		noise = "// c\r\n  "
	case 15:
		noise = "\r\n\n  "
	}
	if p.NoComment && strings.ContainsAny(noise, "/#") {
		noise = " "
	}
	if p.last == "" {
		need = false
	}
	if noise == "" {
		if need {
			noise = " "
		}
	} else if noise[0] == '/' && p.last != "" && p.last[len(p.last)-1] == '/' {
		noise = " " + noise
	}
	p.b.WriteString(noise)
}

func (p *Printer) tok(s string) {
	p.gap(s)
	p.mark()
	p.b.WriteString(s)
	p.last = s
	p.lastK = 'o'
}

func (p *Printer) word(s string) {
	p.gap(s)
	p.mark()
	p.b.WriteString(s)
	p.last = s
	p.lastK = 'w'
}

func (p *Printer) num(s string) {
	p.gap(s)
	p.mark()
	p.b.WriteString(s)
	p.last = s
	p.lastK = 'n'
}

func (p *Printer) raw(s string) {
	p.b.WriteString(s)
	p.last = s
	p.lastK = 'o'
}

var binPrec = map[string]int{
	"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 4, ">": 4, "<=": 4, ">=": 4,
	"+": 5, "-": 5, "*": 6, "/": 6, "%": 6,
}

// BinOps lists the binary operators.
var BinOps = []string{"||", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"}

func (e *Expr) prec() int {
	switch e.K {
	case "cond":
		return 0
	case "bin":
		return binPrec[e.S]
	case "un":
		return 7
	}
	return 8
}

func (p *Printer) in(nl bool, f func()) {
	old := p.nl
	p.nl = nl
	f()
	p.nl = old
}

func (p *Printer) parens(f func()) {
	p.tok("(")
	p.in(true, func() {
		f()
		p.tok(")")
	})
}

// Expr prints e where an expression of at least precedence min is required.
func (p *Printer) Expr(e *Expr, min int) {
	if e.prec() < min {
		p.parens(func() { p.Expr(e, 0) })
		return
	}
	p.expr(e)
}

// operand prints e as the operand of a postfix operator.
func (p *Printer) operand(e *Expr, dot bool) {
	switch e.K {
	case "var", "attr", "idx", "leg", "call", "tuple", "obj", "for", "paren", "item":
		p.Expr(e, 8)
		return
	case "tmpl":
		if e.T.Style == "quoted" {
			p.Expr(e, 8)
			return
		}
	case "splat":
		// Attribute splats absorb following dots; full splats absorb every
		// following operator.
		if e.S == "attr" && !dot {
			p.Expr(e, 8)
			return
		}
	}
	p.parens(func() { p.Expr(e, 0) })
}

func (p *Printer) expr(e *Expr) {
	switch e.K {
	case "num":
		p.num(e.S)
	case "bool", "null":
		s := e.S
		if e.K == "null" {
			s = "null"
		}
		p.word(s)
	case "var":
		if e.S == "for" {
			p.parens(func() { p.word("for") })
			return
		}
		p.word(e.S)
	case "item":
	case "attr":
		p.operand(e.Xs[0], true)
		p.tok(".")
		p.word(e.S)
	case "leg":
		p.operand(e.Xs[0], true)
		p.tok(".")
		p.num(e.S)
	case "idx":
		p.operand(e.Xs[0], false)
		p.tok("[")
		p.in(true, func() {
			p.Expr(e.Xs[1], 0)
			p.tok("]")
		})
	case "splat":
		if e.S == "attr" {
			p.operand(e.Xs[0], true)
			p.tok(".")
			p.tok("*")
		} else {
			p.operand(e.Xs[0], false)
			p.tok("[")
			p.tok("*")
			p.tok("]")
		}
		p.Expr(e.Xs[1], 0)
	case "call":
		p.word(e.S)
		p.tok("(")
		p.in(true, func() {
			for i, x := range e.Xs {
				if i > 0 {
					p.tok(",")
				}
				p.Expr(x, 0)
			}
			if e.Flag && len(e.Xs) > 0 {
				p.tok("...")
			} else if len(e.Xs) > 0 && p.lay(5) == 4 {
				p.tok(",")
			}
			p.tok(")")
		})
	case "bin":
		pr := binPrec[e.S]
		p.Expr(e.Xs[0], pr)
		p.tok(e.S)
		p.Expr(e.Xs[1], pr+1)
	case "un":
		p.tok(e.S)
		p.Expr(e.Xs[0], 7)
	case "cond":
		p.Expr(e.Xs[0], 1)
		p.tok("?")
		p.Expr(e.Xs[1], 0)
		p.tok(":")
		p.Expr(e.Xs[2], 0)
	case "tuple":
		p.tok("[")
		p.in(true, func() {
			for i, x := range e.Xs {
				if i > 0 {
					p.tok(",")
				}
				p.Expr(x, 0)
			}
			if len(e.Xs) > 0 && p.lay(5) == 4 {
				p.tok(",")
			}
			p.tok("]")
		})
	case "obj":
		p.object(e)
	case "for":
		p.forExpr(e)
	case "tmpl":
		p.tmpl(e)
	case "paren":
		p.parens(func() { p.Expr(e.Xs[0], 0) })
	default:
		panic("bad expression kind " + e.K)
	}
}

func (p *Printer) forExpr(e *Expr) {
	open, cl := "[", "]"
	if e.S == "obj" {
		open, cl = "{", "}"
	}
	p.tok(open)
	p.in(true, func() {
		p.word("for")
		if e.KV != "" {
			p.word(e.KV)
			p.tok(",")
		}
		p.word(e.VV)
		p.word("in")
		p.Expr(e.Xs[0], 0)
		p.tok(":")
		if e.S == "obj" {
			p.Expr(e.Key, 0)
			p.tok("=>")
		}
		p.Expr(e.Xs[1], 0)
		if e.Flag && e.S == "obj" {
			p.tok("...")
		}
		if e.Cond != nil {
			p.word("if")
			p.Expr(e.Cond, 0)
		}
		p.tok(cl)
	})
}

func isHeredoc(e *Expr) bool {
	return e.K == "tmpl" && (e.T.Style == "heredoc" || e.T.Style == "flush")
}

func (p *Printer) object(e *Expr) {
	p.tok("{")
	p.in(false, func() {
		newlines := func() {
			switch p.lay(8) {
			case 4, 5:
				p.b.WriteString("\n")
			case 6:
				p.b.WriteString("\n # c\n\t\n")
			case 7:
				p.b.WriteString(" // c\r\n")
			default:
				return
			}
			p.lastK = 'l'
		}
		newlines()
		for i, k := range e.Keys {
			switch k.K {
			case "id":
				if k.S == "for" && i == 0 {
					p.tok(`"for"`)
				} else {
					p.word(k.S)
				}
			case "p":
				p.parens(func() { p.Expr(k.X, 0) })
			default:
				p.Expr(k.X, 0)
			}
			p.tok([]string{"=", ":"}[p.lay(2)])
			v := e.Xs[i]
			if isHeredoc(v) {
				// The newline after the end marker separates the items.
				p.heredoc(v)
				newlines()
				continue
			}
			p.Expr(v, 0)
			last := i == len(e.Keys)-1
			c := p.lay(6)
			switch {
			case last && c < 3:
			case c < 4:
				p.tok(",")
			case c == 4:
				p.b.WriteString("\n")
				p.lastK = 'l'
			default:
				p.b.WriteString(" # c\n")
				p.lastK = 'l'
			}
			newlines()
		}
		p.tok("}")
	})
}

// Native renders an expression as a standalone source text.
func (e *Expr) Native(lay []byte) string {
	p := &Printer{Lay: lay, nl: true}
	p.Expr(e, 0)
	return p.String()
}

// NativeInline renders an expression for use where newlines are significant.
func (e *Expr) NativeInline(lay []byte) string {
	p := &Printer{Lay: lay}
	p.Expr(e, 0)
	return p.String()
}

// ---- templates ----

func (p *Printer) tmpl(e *Expr) {
	switch e.T.Style {
	case "quoted":
		p.tok(`"`)
		p.parts(e.T.Parts, true)
		p.raw(`"`)
	case "heredoc", "flush":
		if !p.nl {
			p.parens(func() { p.heredoc(e) })
			return
		}
		p.heredoc(e)
	default:
		panic("bad template style " + e.T.Style)
	}
}

func (p *Printer) heredoc(e *Expr) {
	marker := "EOT"
	for n := 0; collides(e.T.Parts, marker); n++ {
		marker = fmt.Sprintf("EOT%d", n)
	}
	intro := "<<"
	if e.T.Style == "flush" {
		intro = "<<-"
	}
	p.tok(intro + marker + "\n")
	p.parts(e.T.Parts, false)
	p.b.WriteString(strings.Repeat(" ", e.T.Indent) + marker + "\n")
	p.last, p.lastK = "\n", 'l'
}

func collides(ps []Part, marker string) bool {
	for _, q := range ps {
		if strings.Contains(q.S, marker) || collides(q.Then, marker) || collides(q.Else, marker) {
			return true
		}
	}
	return false
}

func (p *Printer) marker(intro string, openStrip, closeStrip bool, f func()) {
	if openStrip {
		intro += "~"
	}
	p.raw(intro)
	p.in(true, func() {
		f()
		if closeStrip {
			p.tok("~}")
		} else {
			p.tok("}")
		}
	})
}

func (p *Printer) parts(ps []Part, quoted bool) {
	for i := range ps {
		q := &ps[i]
		switch q.K {
		case "lit":
			if quoted {
				p.raw2(p.quoteLit(q.S))
			} else {
				p.raw2(EscapeTemplate(q.S))
			}
		case "interp":
			p.marker("${", q.Strip&1 != 0, q.Strip&2 != 0, func() { p.Expr(q.X, 0) })
		case "if":
			p.marker("%{", q.Strip&1 != 0, q.Strip&2 != 0, func() {
				p.word("if")
				p.Expr(q.X, 0)
			})
			p.parts(q.Then, quoted)
			if q.HasElse {
				p.marker("%{", q.Strip&4 != 0, q.Strip&8 != 0, func() { p.word("else") })
				p.parts(q.Else, quoted)
			}
			p.marker("%{", q.Strip&16 != 0, q.Strip&32 != 0, func() { p.word("endif") })
		case "for":
			p.marker("%{", q.Strip&1 != 0, q.Strip&2 != 0, func() {
				p.word("for")
				if q.KV != "" {
					p.word(q.KV)
					p.tok(",")
				}
				p.word(q.VV)
				p.word("in")
				p.Expr(q.X, 0)
			})
			p.parts(q.Then, quoted)
			p.marker("%{", q.Strip&4 != 0, q.Strip&8 != 0, func() { p.word("endfor") })
		default:
			panic("bad part kind " + q.K)
		}
	}
}

func (p *Printer) raw2(s string) {
	if s != "" {
		p.raw(s)
	}
}

// EscapeTemplate doubles the introducers of template sequences.
func EscapeTemplate(s string) string {
	s = strings.Replace(s, "${", "$${", -1)
	return strings.Replace(s, "%{", "%%{", -1)
}

// quoteLit escapes literal text for a quoted template.
func (p *Printer) quoteLit(s string) string {
	var b strings.Builder
	rs := []rune(s)
	doubled := false
	for i, r := range rs {
		if doubled {
			// The brace completing a doubled introducer stays as it is.
			doubled = false
			b.WriteRune(r)
			continue
		}
		next := rune(0)
		if i+1 < len(rs) {
			next = rs[i+1]
		}
		esc := p.lay(12) == 11
		switch {
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\r':
			b.WriteString(`\r`)
		case r == '"':
			b.WriteString(`\"`)
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\t' && !esc:
			b.WriteString(`\t`)
		case (r == '$' || r == '%') && i+1 == len(rs):
			// Might be followed by a template sequence.
			fmt.Fprintf(&b, `\u%04x`, r)
		case (r == '$' || r == '%') && next == '{' && esc:
			fmt.Fprintf(&b, `\u%04X`, r)
		case (r == '$' || r == '%') && next == '{':
			b.WriteRune(r)
			b.WriteRune(r)
			doubled = true
		case esc && r <= 0xffff:
			fmt.Fprintf(&b, `\u%04x`, r)
		case esc:
			fmt.Fprintf(&b, `\U%08X`, r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// Bare renders a template as a standalone template source.
func (t *Tmpl) Bare(lay []byte) string {
	p := &Printer{Lay: lay}
	p.parts(t.Parts, false)
	return p.String()
}

// QuoteString renders a string value as a quoted template without noise.
func QuoteString(s string) string {
	p := &Printer{}
	return `"` + p.quoteLit(s) + `"`
}
