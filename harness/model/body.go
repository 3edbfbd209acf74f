package model

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Body is a serialisable configuration body.
type Body struct {
	Items []*Item `json:"items,omitempty"`
}

// Item is an attribute (X set) or a block (Body set).
type Item struct {
	Name   string   `json:"name"`
	X      *Expr    `json:"x,omitempty"`
	Labels []string `json:"labels,omitempty"`
	Body   *Body    `json:"body,omitempty"`
	// One asks for the one-line block form where it is possible.
	One bool `json:"one,omitempty"`
	// Dyn, when positive, asks for a generated block with Dyn-1 iterations.
	Dyn int `json:"dyn,omitempty"`
	// Gen is set for blocks written as "dynamic" blocks.
	Gen *Dyn `json:"gen,omitempty"`
	// Static asks for a value that static analysis can take apart.
	Static bool `json:"static,omitempty"`
	// Words asks for the same with elements that are names.
	Words bool `json:"words,omitempty"`
}

// Span is a half-open byte range.
type Span struct{ Start, End int }

// ItemSpan tells where an item was printed.
type ItemSpan struct {
	Name, Eq, Expr, Open, Close Span
	Labels                      []Span
}

// Full is the whole extent of the item.
func (s *ItemSpan) Full(it *Item) Span {
	if it.X != nil {
		return Span{s.Name.Start, s.Expr.End}
	}
	return Span{s.Name.Start, s.Close.End}
}

// Header is the extent of a block header.
func (s *ItemSpan) Header() Span {
	end := s.Name.End
	if n := len(s.Labels); n > 0 {
		end = s.Labels[n-1].End
	}
	return Span{s.Name.Start, end}
}

// IsAttr says whether the item is an attribute.
func (it *Item) IsAttr() bool { return it.X != nil }

// Walk visits all items, parents first.
func (b *Body) Walk(f func(it *Item, depth int)) { b.walk(f, 0) }

func (b *Body) walk(f func(*Item, int), d int) {
	if b == nil {
		return
	}
	for _, it := range b.Items {
		f(it, d)
		it.Body.walk(f, d+1)
	}
}

// Count returns the number of attributes and blocks.
func (b *Body) Count() (attrs, blocks int) {
	b.Walk(func(it *Item, _ int) {
		if it.IsAttr() {
			attrs++
		} else {
			blocks++
		}
	})
	return
}

// ---- native printer ----

// BodyText is the result of printing a body.
type BodyText struct {
	Src   string
	Spans map[*Item]*ItemSpan
}

// Native prints the body as a whole file.
func (b *Body) Native(lay []byte) BodyText {
	p := &Printer{Lay: lay, Spans: map[*Item]*ItemSpan{}}
	p.body(b, true)
	return BodyText{Src: p.String(), Spans: p.Spans}
}

// NativeCanon prints without layout noise.
func (b *Body) NativeCanon() string { return b.Native(nil).Src }

func (p *Printer) write(s string) {
	p.b.WriteString(s)
}

func (p *Printer) betweenItems() {
	switch p.lay(14) {
	case 6:
		p.write("\n")
	case 7:
		p.write("# comment \"${\n")
	case 8:
		p.write("  // c {\r\n")
	case 9:
		p.write("/* block\n comment } */\n")
	case 10:
		p.write("\r\n\n")
	case 11:
		p.write("\t")
	case 12:
		p.write("  ")
	case 13:
		p.write("#\n\n  #é\n")
	}
	p.last, p.lastK = "", 'l'
}

func (p *Printer) endLine(last bool) {
	c := p.lay(10)
	if last && c >= 7 {
		p.last, p.lastK = "", 'l'
		return // end of file without newline
	}
	switch c {
	case 3:
		p.write(" \n")
	case 4:
		p.write("\r\n")
	case 5:
		p.write(" # c }\n")
	case 6:
		if p.last != "" && p.last[len(p.last)-1] == '/' {
			p.write(" ")
		}
		p.write("// \"c\n")
	default:
		p.write("\n")
	}
	p.last, p.lastK = "", 'l'
}

func (p *Printer) body(b *Body, top bool) {
	for i, it := range b.Items {
		p.betweenItems()
		p.item(it, top && i == len(b.Items)-1)
	}
	p.betweenItems()
}

func (p *Printer) attr(it *Item, sp *ItemSpan) {
	p.word(it.Name)
	sp.Name = Span{p.start, p.b.Len()}
	p.tok("=")
	sp.Eq = Span{p.start, p.b.Len()}
	p.first = &sp.Expr.Start
	if isHeredoc(it.X) {
		p.heredoc(it.X)
		sp.Expr.End = p.b.Len() - 1
		return
	}
	p.Expr(it.X, 0)
	sp.Expr.End = p.b.Len()
}

func (p *Printer) item(it *Item, last bool) {
	sp := &ItemSpan{}
	if p.Spans != nil {
		p.Spans[it] = sp
	}
	if it.IsAttr() {
		p.attr(it, sp)
		if isHeredoc(it.X) {
			p.last, p.lastK = "", 'l'
			return
		}
		p.endLine(last)
		return
	}
	p.word(it.Name)
	sp.Name = Span{p.start, p.b.Len()}
	for _, l := range it.Labels {
		if IsIdent(l) && p.lay(2) == 1 {
			p.word(l)
		} else {
			p.tok(`"` + p.labelLit(l) + `"`)
		}
		sp.Labels = append(sp.Labels, Span{p.start, p.b.Len()})
	}
	p.tok("{")
	sp.Open = Span{p.start, p.b.Len()}
	if it.oneLine() {
		if len(it.Body.Items) == 1 {
			in := it.Body.Items[0]
			isp := &ItemSpan{}
			if p.Spans != nil {
				p.Spans[in] = isp
			}
			p.attr(in, isp)
		}
		p.tok("}")
		sp.Close = Span{p.start, p.b.Len()}
		p.endLine(last)
		return
	}
	p.endLine(false)
	p.body(it.Body, false)
	p.tok("}")
	sp.Close = Span{p.start, p.b.Len()}
	p.endLine(last)
}

func (p *Printer) labelLit(l string) string {
	return p.quoteLit(l)
}

func (it *Item) oneLine() bool {
	if !it.One {
		return false
	}
	if len(it.Body.Items) == 0 {
		return true
	}
	return len(it.Body.Items) == 1 && it.Body.Items[0].IsAttr() && !isHeredoc(it.Body.Items[0].X)
}

// IsIdent says whether s is one of the identifiers the generators use.
func IsIdent(s string) bool { return s != "" && isPlainIdent(s) }

// ---- generation ----

// BodyOpts controls body generation.
type BodyOpts struct {
	Attrs   []string
	Blocks  []string
	Labels  func(t *rapid.T) string
	Depth   int
	Max     int // items per body
	XDepth  int
	Hints   []string
	Disjoin bool // attribute and block names never coincide
	// NLabels fixes the number of labels per block type when non-nil.
	NLabels map[string]int
}

// StdBody are options for ordinary bodies.
func StdBody() BodyOpts {
	return BodyOpts{
		Attrs:  []string{"a", "b", "foo", "bar", "with-dash", "é1", "in", "for", "if", "null", "true", "an_argument_with_a_rather_long_name_0123456789"},
		Blocks: []string{"blk", "svc", "foo", "dyn-x", "日本", "for"},
		Labels: func(t *rapid.T) string {
			if Chance(t, 60) {
				return Pick(t, PlainIdents)
			}
			return AnyText(t)
		},
		Depth: 2, Max: 4, XDepth: 2,
		Hints: []string{"num", "str", "bool", "seq", "map", "any"},
	}
}

// JSONBody are options for bodies that can be written in both syntaxes.
func JSONBody() BodyOpts {
	o := StdBody()
	o.Attrs = []string{"a", "b", "bar", "with-dash", "é1", "for", "null", "an_argument_with_a_rather_long_name_0123456789"}
	o.Blocks = []string{"blk", "svc", "foo", "日本", "deep"}
	o.NLabels = map[string]int{"blk": 0, "svc": 1, "foo": 2, "日本": 1, "deep": 4}
	return o
}

// Body generates a body using g for its expressions.
func (g *Gen) Body(o BodyOpts) *Body {
	if Chance(g.T, 2) {
		o.Depth, o.Max = o.Depth+3, min(o.Max, 2)
	}
	return g.genBody(o, o.Depth)
}

func (g *Gen) genBody(o BodyOpts, depth int) *Body {
	t := g.T
	b := &Body{}
	n := Count(t, 0, o.Max)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		if depth <= 0 || Chance(t, 55) {
			name := Pick(t, o.Attrs)
			if seen[name] {
				continue
			}
			seen[name] = true
			if g.budget < 12 {
				g.budget = 12
			}
			b.Items = append(b.Items, &Item{Name: name, X: g.Expr(Pick(t, o.Hints), Int(t, 0, o.XDepth, "xd"))})
			continue
		}
		it := &Item{Name: Pick(t, o.Blocks), One: Chance(t, 25)}
		nl := 0
		if o.NLabels != nil {
			nl = o.NLabels[it.Name]
		} else if Chance(t, 45) {
			nl = Count(t, 1, 3)
		}
		for j := 0; j < nl; j++ {
			it.Labels = append(it.Labels, o.Labels(t))
		}
		it.Body = g.genBody(o, depth-1)
		b.Items = append(b.Items, it)
	}
	return b
}

// ---- schema ----

// SAttr is an attribute schema.
type SAttr struct {
	Name string `json:"name"`
	Req  bool   `json:"req,omitempty"`
}

// SBlock is a block header schema.
type SBlock struct {
	Type   string `json:"type"`
	Labels int    `json:"labels,omitempty"`
}

// Schema is a serialisable body schema.
type Schema struct {
	Attrs  []SAttr  `json:"attrs,omitempty"`
	Blocks []SBlock `json:"blocks,omitempty"`
}

// RefContent is the result of the reference schema application.
type RefContent struct {
	Attrs  map[string]*Item
	Blocks []*Item
	Errs   []string
}

// Hidden is the set of names consumed by earlier partial decodes.
type Hidden struct{ Attrs, Blocks map[string]bool }

// NewHidden is empty.
func NewHidden() *Hidden { return &Hidden{map[string]bool{}, map[string]bool{}} }

// Apply is the reference schema application to native bodies. It extends h
// with the names consumed.
func (b *Body) Apply(s Schema, partial bool, h *Hidden) RefContent {
	rc := RefContent{Attrs: map[string]*Item{}}
	errf := func(f string, a ...interface{}) { rc.Errs = append(rc.Errs, fmt.Sprintf(f, a...)) }
	sb := map[string]SBlock{}
	for _, x := range s.Blocks {
		sb[x.Type] = x
	}
	sa := map[string]bool{}
	for _, x := range s.Attrs {
		sa[x.Name] = true
	}
	for _, it := range b.Items {
		if it.IsAttr() {
			if h.Attrs[it.Name] {
				continue
			}
			if sa[it.Name] {
				rc.Attrs[it.Name] = it
			} else if !partial {
				errf("unsupported attribute %s", it.Name)
			}
			continue
		}
		if h.Blocks[it.Name] {
			continue
		}
		bs, ok := sb[it.Name]
		if !ok {
			if !partial {
				errf("unsupported block %s", it.Name)
			}
			continue
		}
		if bs.Labels != len(it.Labels) {
			errf("block %s has %d labels, not %d", it.Name, len(it.Labels), bs.Labels)
			continue
		}
		rc.Blocks = append(rc.Blocks, it)
	}
	for _, x := range s.Attrs {
		if x.Req && rc.Attrs[x.Name] == nil {
			errf("missing attribute %s", x.Name)
		}
	}
	for _, x := range s.Attrs {
		h.Attrs[x.Name] = true
	}
	for _, x := range s.Blocks {
		h.Blocks[x.Type] = true
	}
	return rc
}

// FullSchema names every item of the body, labels taken from the first block
// of each type.
func (b *Body) FullSchema() Schema {
	var s Schema
	seenA, seenB := map[string]bool{}, map[string]bool{}
	for _, it := range b.Items {
		if it.IsAttr() {
			if !seenA[it.Name] {
				s.Attrs = append(s.Attrs, SAttr{Name: it.Name})
			}
			seenA[it.Name] = true
		} else {
			if !seenB[it.Name] {
				s.Blocks = append(s.Blocks, SBlock{Type: it.Name, Labels: len(it.Labels)})
			}
			seenB[it.Name] = true
		}
	}
	return s
}

// GenSchema draws a schema related to the body: some of its names, some
// others, sometimes wrong label counts.
func GenSchema(t *rapid.T, b *Body, o BodyOpts) Schema {
	var s Schema
	full := b.FullSchema()
	dropPct := Pick(t, []int{0, 0, 15, 50})
	seenA, seenB := map[string]bool{}, map[string]bool{}
	for _, a := range full.Attrs {
		if Chance(t, dropPct) {
			continue
		}
		a.Req = Chance(t, 30)
		s.Attrs = append(s.Attrs, a)
		seenA[a.Name] = true
	}
	wrong := 0
	if Chance(t, 25) {
		wrong = 40
	}
	for _, x := range full.Blocks {
		if Chance(t, dropPct) {
			continue
		}
		if Chance(t, wrong) {
			x.Labels = Int(t, 0, 3, "nl")
		}
		s.Blocks = append(s.Blocks, x)
		seenB[x.Type] = true
	}
	for i := Int(t, 0, 2, "extra"); i > 0; i-- {
		if Chance(t, 50) {
			n := Pick(t, o.Attrs)
			if !seenA[n] && !(o.NLabels != nil && seenB[n]) {
				seenA[n] = true
				s.Attrs = append(s.Attrs, SAttr{Name: n, Req: Chance(t, 25)})
			}
		} else {
			n := Pick(t, o.Blocks)
			if !seenB[n] && !(o.NLabels != nil && seenA[n]) {
				seenB[n] = true
				nl := Int(t, 0, 2, "nl")
				if o.NLabels != nil {
					nl = o.NLabels[n]
				}
				s.Blocks = append(s.Blocks, SBlock{Type: n, Labels: nl})
			}
		}
	}
	return s
}

// ---- JSON ----

// J is a serialisable JSON value that keeps property order and duplicates.
type J struct {
	K    string   `json:"k"` // obj arr str num bool null
	S    string   `json:"s,omitempty"`
	L    []*J     `json:"l,omitempty"`
	Keys []string `json:"keys,omitempty"`
}

// JStr is a JSON string.
func JStr(s string) *J { return &J{K: "str", S: s} }

// JPrinter writes JSON text with layout and spelling variation, recording the
// extent of every node.
type JPrinter struct {
	b     strings.Builder
	Lay   []byte
	i     int
	Spans map[*J]Span
	// KeySpans holds the extents of property names.
	KeySpans map[*J][]Span
}

func (p *JPrinter) lay(n int) int {
	if len(p.Lay) == 0 {
		return 0
	}
	v := int(p.Lay[p.i%len(p.Lay)])
	p.i++
	return v % n
}

func (p *JPrinter) ws() {
	switch p.lay(9) {
	case 4, 5:
		p.b.WriteString(" ")
	case 6:
		p.b.WriteString("\n  ")
	case 7:
		p.b.WriteString("\t")
	case 8:
		p.b.WriteString("\r\n")
	}
}

// Str writes a JSON string with varied escaping.
func (p *JPrinter) Str(s string) {
	p.b.WriteByte('"')
	for _, r := range s {
		esc := p.lay(14) == 13
		switch {
		case r == '"':
			p.b.WriteString(`\"`)
		case r == '\\':
			p.b.WriteString(`\\`)
		case r == '\n' && !esc:
			p.b.WriteString(`\n`)
		case r == '\r' && !esc:
			p.b.WriteString(`\r`)
		case r == '\t' && !esc:
			p.b.WriteString(`\t`)
		case r == '\b' && !esc:
			p.b.WriteString(`\b`)
		case r == '\f' && !esc:
			p.b.WriteString(`\f`)
		case r == '/' && esc:
			p.b.WriteString(`\/`)
		case r < 0x20 || esc:
			if r > 0xffff {
				r -= 0x10000
				fmt.Fprintf(&p.b, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			} else {
				fmt.Fprintf(&p.b, `\u%04x`, r)
			}
		default:
			p.b.WriteRune(r)
		}
	}
	p.b.WriteByte('"')
}

// Val writes a value.
func (p *JPrinter) Val(j *J) {
	start := p.b.Len()
	switch j.K {
	case "obj":
		p.b.WriteByte('{')
		p.ws()
		for i, k := range j.Keys {
			if i > 0 {
				p.b.WriteByte(',')
				p.ws()
			}
			ks := p.b.Len()
			p.Str(k)
			p.KeySpans[j] = append(p.KeySpans[j], Span{ks, p.b.Len()})
			p.ws()
			p.b.WriteByte(':')
			p.ws()
			p.Val(j.L[i])
			p.ws()
		}
		p.b.WriteByte('}')
	case "arr":
		p.b.WriteByte('[')
		p.ws()
		for i, e := range j.L {
			if i > 0 {
				p.b.WriteByte(',')
				p.ws()
			}
			p.Val(e)
			p.ws()
		}
		p.b.WriteByte(']')
	case "str":
		p.Str(j.S)
	case "num", "bool":
		p.b.WriteString(j.S)
	case "null":
		p.b.WriteString("null")
	default:
		panic("bad JSON kind " + j.K)
	}
	p.Spans[j] = Span{start, p.b.Len()}
}

// Text prints a JSON document.
func (j *J) Text(lay []byte) (string, *JPrinter) {
	p := &JPrinter{Lay: lay, Spans: map[*J]Span{}, KeySpans: map[*J][]Span{}}
	p.ws()
	p.Val(j)
	p.ws()
	return p.b.String(), p
}

// Size counts nodes.
func (j *J) Size() int {
	n := 1
	for _, e := range j.L {
		n += e.Size()
	}
	return n
}

// JEnc chooses among the permitted JSON encodings.
type JEnc struct {
	Lay []byte
	i   int
}

func (c *JEnc) pick(n int) int {
	if len(c.Lay) == 0 {
		return 0
	}
	v := int(c.Lay[c.i%len(c.Lay)])
	c.i++
	return v % n
}

func jsonNum(s string) bool {
	return !(len(s) > 1 && s[0] == '0' && s[1] >= '0' && s[1] <= '9')
}

// Expr encodes an expression so that evaluating it in full expression mode
// gives the same value.
func (c *JEnc) Expr(e *Expr) *J {
	wrap := func() *J { return JStr("${" + e.Native(nil) + "}") }
	if c.pick(5) == 4 {
		return wrap()
	}
	switch e.K {
	case "num":
		if jsonNum(e.S) {
			return &J{K: "num", S: e.S}
		}
	case "bool":
		return &J{K: "bool", S: e.S}
	case "null":
		return &J{K: "null"}
	case "tuple":
		j := &J{K: "arr"}
		for _, x := range e.Xs {
			j.L = append(j.L, c.Expr(x))
		}
		return j
	case "obj":
		// JSON refuses duplicate keys, which the native syntax does not, so
		// keys that might coincide stay in the native syntax.
		seen := map[string]bool{}
		for _, k := range e.Keys {
			name := k.S
			if k.K != "id" {
				s, ok := k.X.PlainLit()
				if !ok && len(e.Keys) > 1 {
					return wrap()
				}
				name = s
			}
			if name = NFC(name); seen[name] {
				return wrap()
			}
			seen[name] = true
		}
		j := &J{K: "obj"}
		for i, k := range e.Keys {
			name := k.S
			if k.K != "id" {
				if s, ok := k.X.PlainLit(); ok {
					name = s
				} else {
					name = "${" + k.X.Native(nil) + "}"
				}
			} else if strings.ContainsAny(name, "$%") {
				return wrap()
			}
			j.Keys = append(j.Keys, name)
			j.L = append(j.L, c.Expr(e.Xs[i]))
		}
		return j
	case "tmpl":
		if s, ok := e.PlainLit(); ok {
			return JStr(s)
		}
	}
	return wrap()
}

// PlainLit gives the text of a string literal free of template introducers.
func (e *Expr) PlainLit() (string, bool) {
	if e.K != "tmpl" || e.T.Style != "quoted" || len(e.T.Parts) > 1 {
		return "", false
	}
	if len(e.T.Parts) == 0 {
		return "", true
	}
	p := e.T.Parts[0]
	if p.K != "lit" || strings.ContainsAny(p.S, "$%") || strings.HasPrefix(p.S, "\ufeff") {
		return "", false
	}
	return p.S, true
}

// Body encodes a whole body.
func (c *JEnc) Body(b *Body) *J {
	if c.pick(4) == 3 {
		// An array of objects, split at arbitrary points.
		arr := &J{K: "arr"}
		rest := b.Items
		for len(rest) > 0 {
			n := 1 + c.pick(len(rest))
			arr.L = append(arr.L, c.bodyObj(rest[:n]))
			rest = rest[n:]
		}
		return arr
	}
	return c.bodyObj(b.Items)
}

func (c *JEnc) bodyObj(items []*Item) *J {
	o := &J{K: "obj"}
	add := func(k string, v *J) {
		o.Keys = append(o.Keys, k)
		o.L = append(o.L, v)
	}
	for i := 0; i < len(items); {
		if c.pick(12) == 11 {
			add("//", JStr("comment ${"))
		}
		it := items[i]
		if it.IsAttr() {
			if it.Static && it.X.K == "tuple" {
				arr := &J{K: "arr"}
				for _, x := range it.X.Xs {
					if it.Words {
						arr.L = append(arr.L, JStr(x.Native(nil)))
					} else {
						arr.L = append(arr.L, c.Expr(x))
					}
				}
				add(it.Name, arr)
			} else if it.Static {
				add(it.Name, JStr(it.X.Native(nil)))
			} else {
				add(it.Name, c.Expr(it.X))
			}
			i++
			continue
		}
		n := 1
		for i+n < len(items) && !items[i+n].IsAttr() && items[i+n].Name == it.Name && c.pick(3) != 2 {
			n++
		}
		add(it.Name, c.blocks(items[i:i+n], 0))
		i += n
	}
	return o
}

// blocks encodes consecutive blocks of one type whose labels before level
// agree.
func (c *JEnc) blocks(items []*Item, level int) *J {
	if level == len(items[0].Labels) {
		if len(items) == 1 && c.pick(2) == 0 {
			return c.bodyObj(items[0].Body.Items)
		}
		arr := &J{K: "arr"}
		for _, it := range items {
			arr.L = append(arr.L, c.bodyObj(it.Body.Items))
		}
		return arr
	}
	obj := func(its []*Item) *J {
		o := &J{K: "obj"}
		for i := 0; i < len(its); {
			n := 1
			for i+n < len(its) && its[i+n].Labels[level] == its[i].Labels[level] && c.pick(3) != 2 {
				n++
			}
			o.Keys = append(o.Keys, its[i].Labels[level])
			o.L = append(o.L, c.blocks(its[i:i+n], level+1))
			i += n
		}
		return o
	}
	if c.pick(3) == 2 {
		arr := &J{K: "arr"}
		for len(items) > 0 {
			n := 1 + c.pick(len(items))
			arr.L = append(arr.L, obj(items[:n]))
			items = items[n:]
		}
		return arr
	}
	return obj(items)
}
