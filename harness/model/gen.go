package model

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/zclconf/go-cty/cty"
	"golang.org/x/text/unicode/norm"
	"pgregory.net/rapid"
)

// Scope is a serialisable set of variables.
type Scope struct {
	Names []string `json:"names,omitempty"`
	Vals  []Val    `json:"vals,omitempty"`
}

// Map converts the scope to cty values.
func (s Scope) Map() map[string]cty.Value {
	m := map[string]cty.Value{}
	for i, n := range s.Names {
		m[n] = s.Vals[i].Cty()
	}
	return m
}

// Env makes a reference environment with the standard functions.
func (s Scope) Env() *Env {
	return &Env{Vars: s.Map(), Funcs: StdFuncs()}
}

var num = Ty{K: "num"}
var str = Ty{K: "str"}
var boolT = Ty{K: "bool"}

func listOf(t Ty) Ty { return Ty{K: "list", E: &t} }
func mapOf(t Ty) Ty  { return Ty{K: "map", E: &t} }
func setOf(t Ty) Ty  { return Ty{K: "set", E: &t} }

// objTy is the shape of the objects inside generated collections.
var objTy = Ty{K: "obj", Names: []string{"id", "name", "on", "tags"}, Elems: []Ty{num, str, boolT, listOf(str)}}

type slot struct {
	name string
	ty   func(t *rapid.T) Ty
}

func fixed(ty Ty) func(*rapid.T) Ty { return func(*rapid.T) Ty { return ty } }

var scopeSlots = []slot{
	{"n", fixed(num)},
	{"s", fixed(str)},
	{"b", fixed(boolT)},
	{"with-dash", fixed(num)},
	{"ls", fixed(listOf(str))},
	{"ln", fixed(listOf(num))},
	{"lo", fixed(listOf(objTy))},
	{"ss", fixed(setOf(str))},
	{"sn", fixed(setOf(num))},
	{"ms", fixed(mapOf(str))},
	{"mo", fixed(mapOf(objTy))},
	{"o", fixed(objTy)},
	{"é1", fixed(Ty{K: "obj", Names: []string{"in", "x"}, Elems: []Ty{objTy, {K: "tuple", Elems: []Ty{num, objTy, str}}}})},
	{"tup", fixed(Ty{K: "tuple", Elems: []Ty{num, str, objTy, boolT}})},
	{"to", fixed(Ty{K: "tuple", Elems: []Ty{objTy, objTy}})},
	{"ll", fixed(listOf(listOf(num)))},
	{"if", func(t *rapid.T) Ty { return GenTy(t, 2, false) }},
	{"any", func(t *rapid.T) Ty { return GenTy(t, 2, false) }},
}

// GenScope draws a scope of known values.
func GenScope(t *rapid.T, o ValOpts) Scope { return GenScopeN(t, o, 0) }

// GenScopeN draws a scope from at least min slots.
func GenScopeN(t *rapid.T, o ValOpts, min int) Scope {
	var s Scope
	n := Int(t, min, 7, "vars")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		sl := Pick(t, scopeSlots)
		if seen[sl.name] {
			continue
		}
		seen[sl.name] = true
		s.Names = append(s.Names, sl.name)
		ty := sl.ty(t)
		if ty.K == "tuple" && o.Null > 0 && Chance(t, 10) {
			s.Vals = append(s.Vals, Val{K: "null", Ty: &ty}) // rare otherwise
			continue
		}
		s.Vals = append(s.Vals, o.ValOf(t, ty))
	}
	return s
}

// Gen generates expressions over a scope.
type Gen struct {
	T     *rapid.T
	Scope []Var
	// Bad is the percentage of deliberately ill-typed or undefined parts.
	Bad      int
	NoHeredo bool
	NoFuncs  bool
	static   bool // only literal keys in references
	NoTmplIn bool // only quoted literal templates
	PlainLit bool
	NoUndef  bool
	Refs     bool // prefer references over literals
	budget   int
	loop     int
	iters    []iterVar // iterators of enclosing dynamic blocks
}

// Var is a variable known to the generator, with an exemplar value.
type Var struct {
	Name string
	Ex   Val
}

// NewGen prepares a generator.
func NewGen(t *rapid.T, s Scope, bad int) *Gen {
	g := &Gen{T: t, Bad: bad, budget: 40}
	for i, n := range s.Names {
		g.Scope = append(g.Scope, Var{n, s.Vals[i]})
	}
	return g
}

type pathRef struct {
	x  *Expr
	ex Val
}

func hintOf(v Val) string {
	switch v.K {
	case "num", "str", "bool":
		return v.K
	case "list", "set", "tuple":
		return "seq"
	case "map", "obj":
		return "map"
	case "unk", "null":
		return hintOfTy(v.ty())
	}
	return "any"
}

func hintOfTy(t Ty) string {
	switch t.K {
	case "num", "str", "bool":
		return t.K
	case "list", "set", "tuple":
		return "seq"
	case "map", "obj":
		return "map"
	}
	return "any"
}

func isPlainIdent(s string) bool {
	if s == "" {
		return false
	}
	for i, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r == '_' && true, r == 'é', r >= 0x4e00 && r <= 0x9fff:
		case i > 0 && (r >= '0' && r <= '9' || r == '-'):
		default:
			return false
		}
	}
	return s[0] != '_' || true
}

// exAt gives an exemplar for a type when no concrete element exists.
func exOfTy(t Ty) Val {
	switch t.K {
	case "num":
		return Val{K: "num", S: "1"}
	case "str":
		return Val{K: "str", S: "a"}
	case "bool":
		return Val{K: "bool"}
	case "list", "set", "map":
		e := *t.E
		return Val{K: t.K, Ty: &e}
	case "tuple":
		v := Val{K: "tuple"}
		for _, e := range t.Elems {
			v.L = append(v.L, exOfTy(e))
		}
		return v
	case "obj":
		v := Val{K: "obj", Keys: t.Names}
		for _, e := range t.Elems {
			v.L = append(v.L, exOfTy(e))
		}
		return v
	}
	return Val{K: "null"}
}

func exElem(v Val) Val {
	for _, e := range v.L {
		if e.K != "null" && e.K != "unk" {
			return e
		}
	}
	if len(v.L) > 0 {
		return v.L[0]
	}
	if v.Ty != nil {
		return exOfTy(*v.Ty)
	}
	return Val{K: "num", S: "1"}
}

// steps lists the ways of descending one level from base.
func (g *Gen) steps(base pathRef, sel bool) []pathRef {
	var out []pathRef
	v := base.ex
	switch v.K {
	case "obj", "map":
		for i, k := range v.Keys {
			if isPlainIdent(k) && k != "true" && k != "false" && k != "null" {
				out = append(out, pathRef{&Expr{K: "attr", S: k, Xs: []*Expr{base.x}}, v.L[i]})
			}
			if sel {
				out = append(out, pathRef{&Expr{K: "idx", Xs: []*Expr{base.x, StrLit(k)}}, v.L[i]})
			}
		}
	case "list", "tuple":
		for i := range v.L {
			if sel {
				out = append(out, pathRef{&Expr{K: "idx", Xs: []*Expr{base.x, {K: "num", S: fmt.Sprint(i)}}}, v.L[i]})
			}
			if base.x.K != "leg" { // a.0.0 would lex as a fraction
				out = append(out, pathRef{&Expr{K: "leg", S: fmt.Sprint(i), Xs: []*Expr{base.x}}, v.L[i]})
			}
		}
	}
	return out
}

// StrLit is a quoted literal.
func StrLit(s string) *Expr {
	t := &Tmpl{Style: "quoted"}
	if s != "" {
		t.Parts = []Part{{K: "lit", S: s}}
	}
	return &Expr{K: "tmpl", T: t}
}

// keyText is the text of a literal string key.
func (e *Expr) keyText() string {
	if e.K == "idx" && e.Xs[1].K == "tmpl" && len(e.Xs[1].T.Parts) == 1 {
		return e.Xs[1].T.Parts[0].S
	}
	return ""
}

// otherKey is an index by a key of another type that converts to the same key.
func otherKey(e *Expr) *Expr {
	if e.K != "idx" {
		return nil
	}
	var k *Expr
	switch {
	case e.Xs[1].K == "num":
		k = StrLit(e.Xs[1].S)
	case numKeys[e.keyText()]:
		k = NumLit(strings.TrimPrefix(e.keyText(), "-"))
		if k.S != e.keyText() {
			k = &Expr{K: "un", S: "-", Xs: []*Expr{k}}
		}
	case e.keyText() == "true":
		k = &Expr{K: "bool", S: "true"}
	default:
		return nil
	}
	return &Expr{K: "idx", Xs: []*Expr{e.Xs[0], k}}
}

var numKeys = map[string]bool{"0": true, "12": true, "-1": true, "1.5": true}

// NumLit is a number literal.
func NumLit(s string) *Expr { return &Expr{K: "num", S: s} }

func (g *Gen) path(hint string) (pathRef, bool) {
	if len(g.Scope) == 0 {
		return pathRef{}, false
	}
	for try := 0; try < 3; try++ {
		v := Pick(g.T, g.Scope)
		p := pathRef{&Expr{K: "var", S: v.Name}, v.Ex}
		for d := 0; d < 4; d++ {
			st := g.steps(p, true)
			ok := hint == "any" || hintOf(p.ex) == hint
			if len(st) == 0 || ok && !Chance(g.T, 40) {
				break
			}
			p = Pick(g.T, st)
			if x := otherKey(p.x); x != nil && !g.static && Chance(g.T, 30) {
				p.x = x
				continue
			}
			if k := p.x.keyText(); k != "" && !g.NoTmplIn && !g.static && Chance(g.T, 12) {
				// The same key, put together by a template.
				n := 0
				for i := range k {
					if i > 0 && Chance(g.T, 50) {
						n = i
						break
					}
				}
				parts := []Part{{K: "interp", X: StrLit(k[n:])}}
				if n > 0 {
					parts = []Part{{K: "lit", S: k[:n]}, parts[0]}
				}
				p.x = &Expr{K: "idx", Xs: []*Expr{p.x.Xs[0], {K: "tmpl", T: &Tmpl{Style: "quoted", Parts: parts}}}}
			}
		}
		if hint == "any" || hintOf(p.ex) == hint || try == 2 && hint == "str" && (hintOf(p.ex) == "num" || hintOf(p.ex) == "bool") {
			return p, true
		}
	}
	return pathRef{}, false
}

func (g *Gen) lit(hint string) *Expr {
	t := g.T
	if g.Refs && Chance(t, 60) {
		if p, ok := g.path(hint); ok {
			return p.x
		}
	}
	switch hint {
	case "num":
		return NumLit(Num(t))
	case "bool":
		return &Expr{K: "bool", S: Pick(t, []string{"true", "false"})}
	case "str":
		if g.PlainLit {
			return StrLit(PlainText(t, 3))
		}
		return StrLit(AnyText(t))
	case "seq":
		return &Expr{K: "tuple"}
	case "map":
		return &Expr{K: "obj"}
	case "null":
		return &Expr{K: "null"}
	}
	if Chance(t, 8) {
		return &Expr{K: "null"}
	}
	return g.lit(Pick(t, []string{"num", "str", "bool"}))
}

var hints = []string{"num", "str", "bool", "seq", "map"}

// Expr generates an expression that mostly evaluates to the hinted kind.
func (g *Gen) Expr(hint string, depth int) *Expr {
	t := g.T
	g.budget--
	if g.Bad > 0 && Chance(t, g.Bad) {
		switch Weighted(t, 4, 2, 1) {
		case 0:
			hint = Pick(t, hints)
		case 1:
			return &Expr{K: "null"}
		default:
			if !g.NoUndef {
				return &Expr{K: "var", S: "undefd"}
			}
		}
	}
	if hint == "any" {
		hint = Pick(t, hints)
	}
	if depth <= 0 || g.budget <= 0 {
		if Chance(t, 55) {
			if p, ok := g.path(hint); ok {
				return p.x
			}
		}
		return g.lit(hint)
	}
	d := depth - 1
	// Productions common to every kind.
	switch Weighted(t, 30, 5, 3, 2, 2, 2, 2) {
	case 1:
		if p, ok := g.path(hint); ok {
			return p.x
		}
	case 2:
		return &Expr{K: "cond", Xs: []*Expr{g.Expr("bool", d), g.Expr(hint, d), g.Expr(hint, d)}}
	case 3:
		return &Expr{K: "paren", Xs: []*Expr{g.Expr(hint, d)}}
	case 4: // index into a constructor
		n := Count(t, 1, 3)
		tup := &Expr{K: "tuple"}
		for i := 0; i < n; i++ {
			tup.Xs = append(tup.Xs, g.Expr(hint, d-1))
		}
		return &Expr{K: "idx", Xs: []*Expr{tup, g.indexOf(n, d)}}
	case 5:
		o := g.object(d, hint)
		if len(o.Keys) > 0 && o.Keys[0].K == "id" {
			if Chance(t, 50) {
				return &Expr{K: "attr", S: o.Keys[0].S, Xs: []*Expr{o}}
			}
			return &Expr{K: "idx", Xs: []*Expr{o, StrLit(o.Keys[0].S)}}
		}
		if len(o.Keys) == 0 && Chance(t, 30) { // nothing to find
			if Chance(t, 40) {
				return &Expr{K: "attr", S: Pick(t, Idents), Xs: []*Expr{o}}
			}
			return &Expr{K: "idx", Xs: []*Expr{o, g.Expr("str", d-1)}}
		}
		return g.lit(hint)
	case 6:
		if !g.NoFuncs {
			return &Expr{K: "call", S: "ident", Xs: []*Expr{g.Expr(hint, d)}}
		}
	}
	switch hint {
	case "num":
		switch Weighted(t, 3, 8, 3, 2, 1, 2) {
		case 0:
			return g.lit("num")
		case 1:
			return &Expr{K: "bin", S: Pick(t, []string{"+", "-", "*", "/", "%"}), Xs: []*Expr{g.Expr("num", d), g.Expr("num", d)}}
		case 2:
			return &Expr{K: "un", S: "-", Xs: []*Expr{g.Expr("num", d)}}
		case 3:
			return g.numCall(d)
		case 4:
			return StrLit(Num(t)) // converts
		default:
			if p, ok := g.path("num"); ok {
				return p.x
			}
			return g.lit("num")
		}
	case "bool":
		switch Weighted(t, 2, 6, 5, 5, 3, 1) {
		case 0:
			return g.lit("bool")
		case 1:
			return &Expr{K: "bin", S: Pick(t, []string{"<", ">", "<=", ">="}), Xs: []*Expr{g.Expr("num", d), g.Expr("num", d)}}
		case 2:
			return &Expr{K: "bin", S: Pick(t, []string{"&&", "||"}), Xs: []*Expr{g.Expr("bool", d), g.Expr("bool", d)}}
		case 3:
			h := Pick(t, hints)
			h2 := h
			if Chance(t, 15) {
				h2 = "any"
			}
			return &Expr{K: "bin", S: Pick(t, []string{"==", "!="}), Xs: []*Expr{g.Expr(h, d), g.Expr(h2, d)}}
		case 4:
			return &Expr{K: "un", S: "!", Xs: []*Expr{g.Expr("bool", d)}}
		default:
			return StrLit(Pick(t, []string{"true", "false"}))
		}
	case "str":
		switch Weighted(t, 3, 8, 3, 1) {
		case 0:
			return g.lit("str")
		case 1:
			if g.NoTmplIn {
				return g.lit("str")
			}
			return &Expr{K: "tmpl", T: g.Tmpl(g.tmplStyle(), d)}
		case 2:
			if g.NoFuncs {
				return g.lit("str")
			}
			if Chance(t, 50) {
				return &Expr{K: "call", S: "upper", Xs: []*Expr{g.Expr("str", d)}}
			}
			c := &Expr{K: "call", S: "cat"}
			for i := Count(t, 0, 3); i > 0; i-- {
				c.Xs = append(c.Xs, g.Expr("str", d))
			}
			if Chance(t, 30) {
				c.Xs = append(c.Xs, g.strSeq(d))
				c.Flag = true
			}
			return c
		default:
			return g.lit("num")
		}
	case "seq":
		switch Weighted(t, 6, 6, 4, 2, 2) {
		case 0:
			return g.tuple(d)
		case 1:
			return g.For("tuple", d)
		case 2:
			return g.Splat(d)
		case 3:
			if g.NoFuncs {
				return g.tuple(d)
			}
			switch Weighted(t, 2, 2, 2) {
			case 0:
				return &Expr{K: "call", S: "strs", Xs: []*Expr{g.strSeq(d)}}
			case 1:
				return &Expr{K: "call", S: "toset", Xs: []*Expr{g.strSeq(d)}}
			default:
				c := &Expr{K: "call", S: "pack"}
				for i := Count(t, 0, 3); i > 0; i-- {
					c.Xs = append(c.Xs, g.Expr("any", d))
				}
				if Chance(t, 40) {
					c.Xs = append(c.Xs, g.expanded(40, func() *Expr { return g.Expr("seq", d) }))
					c.Flag = true
				}
				return c
			}
		default:
			if p, ok := g.path("seq"); ok {
				return p.x
			}
			return g.tuple(d)
		}
	default: // map
		switch Weighted(t, 6, 5, 2, 2) {
		case 0:
			return g.object(d, "any")
		case 1:
			return g.For("obj", d)
		case 2:
			if g.NoFuncs {
				return g.object(d, "any")
			}
			return &Expr{K: "call", S: "tomap", Xs: []*Expr{g.object(d, "str")}}
		default:
			if p, ok := g.path("map"); ok {
				return p.x
			}
			return g.object(d, "any")
		}
	}
}

func (g *Gen) indexOf(n, d int) *Expr {
	t := g.T
	i := fmt.Sprint(Int(t, 0, n-1, "ix"))
	switch Weighted(t, 5, 2, 1, 1) {
	case 0:
		return NumLit(i)
	case 1:
		return &Expr{K: "paren", Xs: []*Expr{NumLit(i)}}
	case 2:
		return StrLit(i)
	default:
		return g.Expr("num", d-1)
	}
}

// expanded is the final argument of a call that expands it: sometimes a
// reference to any sequence, which may be null.
func (g *Gen) expanded(refs int, other func() *Expr) *Expr {
	if Chance(g.T, refs) {
		if p, ok := g.path("seq"); ok {
			return p.x
		}
	}
	return other()
}

func (g *Gen) numCall(d int) *Expr {
	t := g.T
	if g.NoFuncs {
		return g.lit("num")
	}
	switch Weighted(t, 4, 3, 2, 1, 1) {
	case 0:
		return &Expr{K: "call", S: "add", Xs: []*Expr{g.Expr("num", d), g.Expr("num", d)}}
	case 1:
		c := &Expr{K: "call", S: "sub"}
		for i := Count(t, 1, 3); i > 0; i-- {
			c.Xs = append(c.Xs, g.Expr("num", d))
		}
		if Chance(t, 40) {
			c.Flag = true
			c.Xs = append(c.Xs, g.expanded(12, func() *Expr {
				tup := &Expr{K: "tuple"}
				for i := Count(t, 0, 3); i > 0; i-- {
					tup.Xs = append(tup.Xs, g.Expr("num", d-1))
				}
				return tup
			}))
		}
		return c
	case 2:
		c := &Expr{K: "call", S: "nonneg"}
		for i := Count(t, 0, 3); i > 0; i-- {
			c.Xs = append(c.Xs, g.Expr("num", d))
		}
		if Chance(t, 50) {
			c.Flag = true
			c.Xs = append(c.Xs, g.expanded(12, func() *Expr {
				tup := &Expr{K: "tuple"}
				for i := Count(t, 0, 3); i > 0; i-- {
					tup.Xs = append(tup.Xs, g.Expr("num", d-1))
				}
				return tup
			}))
		}
		return c
	case 3:
		if g.Bad == 0 {
			return g.lit("num")
		}
		return &Expr{K: "call", S: Pick(t, []string{"boom", "undefd"}), Xs: []*Expr{g.Expr("any", d)}}
	default:
		// wrong number of arguments
		c := &Expr{K: "call", S: "add"}
		n := 2
		if g.Bad > 0 {
			n = Int(t, 0, 3, "n")
		}
		for i := n; i > 0; i-- {
			c.Xs = append(c.Xs, g.Expr("num", d))
		}
		return c
	}
}

func (g *Gen) strSeq(d int) *Expr {
	if len(g.Scope) > 0 && Chance(g.T, 40) {
		for _, v := range g.Scope {
			if (v.Ex.K == "list" || v.Ex.K == "set") && v.Ex.Ty != nil && v.Ex.Ty.K == "str" {
				return &Expr{K: "var", S: v.Name}
			}
		}
	}
	tup := &Expr{K: "tuple"}
	for i := Count(g.T, 0, 3); i > 0; i-- {
		tup.Xs = append(tup.Xs, g.Expr("str", d-1))
	}
	return tup
}

func (g *Gen) tuple(d int) *Expr {
	t := g.T
	e := &Expr{K: "tuple"}
	h := "any"
	if Chance(t, 50) {
		h = Pick(t, hints)
	}
	for i := Count(t, 0, 4); i > 0; i-- {
		e.Xs = append(e.Xs, g.Expr(h, d))
	}
	return e
}

func (g *Gen) object(d int, hint string) *Expr {
	t := g.T
	e := &Expr{K: "obj"}
	n := Count(t, 0, 4)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		var k ObjKey
		switch Weighted(t, 10, 4, 2, 1, 1) {
		case 0:
			k = ObjKey{K: "id", S: Pick(t, append([]string{"true", "null", "n", "s"}, Idents...))}
		case 1:
			s := PlainText(t, 2)
			if !g.PlainLit && Chance(t, 50) {
				s = AnyText(t)
			}
			k = ObjKey{K: "x", S: s, X: StrLit(s)}
		case 2:
			k = ObjKey{K: "p", S: fmt.Sprintf("p%d", i), X: g.Expr("str", d-1)}
		case 3:
			k = ObjKey{K: "x", S: fmt.Sprint(i), X: NumLit(fmt.Sprint(i))}
		default:
			k = ObjKey{K: "x", S: fmt.Sprintf("t%d", i), X: &Expr{K: "tmpl", T: &Tmpl{Style: "quoted", Parts: []Part{
				{K: "lit", S: fmt.Sprintf("k%d", i)}, {K: "interp", X: g.Expr("str", d-1)}}}}}
		}
		if seen[norm.NFC.String(k.S)] && g.Bad == 0 && Chance(t, 60) {
			continue
		}
		seen[norm.NFC.String(k.S)] = true
		if k.K != "id" {
			k.S = ""
		}
		e.Keys = append(e.Keys, k)
		e.Xs = append(e.Xs, g.Expr(hint, d))
	}
	return e
}

// coll generates a collection for iteration along with an element exemplar
// and a key exemplar.
func (g *Gen) coll(d int) (*Expr, Val, Val) {
	t := g.T
	if Chance(t, 55) {
		hint := "seq"
		if Chance(t, 35) {
			hint = "map"
		}
		if p, ok := g.path(hint); ok {
			key := Val{K: "num", S: "0"}
			if hint == "map" {
				key = Val{K: "str", S: "a"}
			}
			if p.ex.K == "set" {
				key = exElem(p.ex)
			}
			return p.x, exElem(p.ex), key
		}
	}
	h := Pick(t, []string{"num", "str", "bool"})
	ex := Val{K: h, S: "1"}
	if Chance(t, 65) {
		e := &Expr{K: "tuple"}
		for i := Count(t, 0, 4); i > 0; i-- {
			e.Xs = append(e.Xs, g.Expr(h, d-1))
		}
		return e, ex, Val{K: "num", S: "0"}
	}
	return g.object(d-1, h), ex, Val{K: "str", S: "a"}
}

func (g *Gen) loopVars() (string, string) {
	t := g.T
	g.loop++
	vv := Pick(t, []string{"v", "w", "n", "s", "é1", "in", "each-1"})
	kv := ""
	if Chance(t, 50) {
		kv = Pick(t, []string{"k", "i", "b", "ls"})
	}
	return kv, vv
}

// With runs f with extra variables in scope.
func (g *Gen) With(vars []Var, f func()) { g.with(vars, f) }

// HintOf is the hint for expressions that give values like v.
func HintOf(v Val) string { return hintOf(v) }

// with runs f with extra variables in scope.
func (g *Gen) with(vars []Var, f func()) {
	old := g.Scope
	ns := append([]Var(nil), vars...)
	// Loop variables are preferred, so they are listed twice.
	ns = append(ns, vars...)
	for _, v := range old {
		hidden := false
		for _, n := range vars {
			if n.Name == v.Name {
				hidden = true
			}
		}
		if !hidden {
			ns = append(ns, v)
		}
	}
	g.Scope = ns
	f()
	g.Scope = old
}

// For generates a for expression.
func (g *Gen) For(kind string, d int) *Expr {
	t := g.T
	coll, ex, key := g.coll(d)
	kv, vv := g.loopVars()
	e := &Expr{K: "for", S: kind, KV: kv, VV: vv}
	vars := []Var{{vv, ex}}
	if kv != "" {
		vars = append(vars, Var{kv, key})
	}
	var val *Expr
	g.with(vars, func() {
		if kind == "obj" {
			e.Flag = Chance(t, 35)
			switch Weighted(t, 4, 3, 2) {
			case 0:
				if kv != "" {
					e.Key = &Expr{K: "var", S: kv}
				} else {
					e.Key = g.Expr("str", d-1)
				}
			case 1:
				e.Key = &Expr{K: "tmpl", T: &Tmpl{Style: "quoted", Parts: []Part{{K: "lit", S: "k"}, {K: "interp", X: g.Expr("str", 0)}}}}
			default:
				e.Key = g.Expr("str", d-1)
			}
		}
		val = g.Expr("any", d-1)
		if Chance(t, 40) {
			e.Cond = g.Expr("bool", d-1)
		}
		// Conditions and keys that are no good, for all or some elements.
		if g.Bad > 0 && Chance(t, 15) {
			x := &Expr{K: "null"}
			switch Weighted(t, 2, 2, 1, 2) {
			case 1:
				x = &Expr{K: "cond", Xs: []*Expr{g.Expr("bool", d-1), {K: "null"}, {K: "bool", S: "true"}}}
			case 2:
				x = &Expr{K: "tuple"}
			case 3:
				x = g.Expr("any", 1)
			}
			if kind == "obj" && Chance(t, 50) {
				e.Key = x
			} else {
				e.Cond = x
			}
		}
	})
	e.Xs = []*Expr{coll, val}
	return e
}

// Splat generates a splat expression.
func (g *Gen) Splat(d int) *Expr {
	t := g.T
	kind := Pick(t, []string{"attr", "full"})
	var src *Expr
	var ex Val
	switch Weighted(t, 6, 2, 2) {
	case 0:
		h := "seq"
		if Chance(t, 20) {
			h = "any"
		}
		if p, ok := g.path(h); ok {
			src, ex = p.x, p.ex
		}
	case 1:
		src = &Expr{K: "tuple"}
		for i := Count(t, 0, 3); i > 0; i-- {
			src.Xs = append(src.Xs, &Expr{K: "obj", Keys: []ObjKey{{K: "id", S: "a"}}, Xs: []*Expr{g.Expr("any", d-1)}})
		}
		ex = Val{K: "tuple", L: []Val{{K: "obj", Keys: []string{"a"}, L: []Val{{K: "num", S: "1"}}}}}
	}
	if src == nil {
		src = g.Expr("any", d-1)
		ex = Val{K: "num", S: "1"}
	}
	el := ex
	if hintOf(ex) == "seq" {
		el = exElem(ex)
	}
	each := g.each(el, kind, d)
	return &Expr{K: "splat", S: kind, Xs: []*Expr{src, each}}
}

func (g *Gen) each(el Val, kind string, d int) *Expr {
	t := g.T
	p := pathRef{&Expr{K: "item"}, el}
	for i := 0; i < 3; i++ {
		st := g.steps(p, kind == "full")
		if kind == "full" && (hintOf(p.ex) == "seq" || Chance(t, 10)) && Chance(t, 40) {
			k2 := Pick(t, []string{"attr", "full"})
			inner := p.ex
			if hintOf(p.ex) == "seq" {
				inner = exElem(p.ex)
			}
			return &Expr{K: "splat", S: k2, Xs: []*Expr{p.x, g.each(inner, k2, d)}}
		}
		if len(st) == 0 || Chance(t, 30) {
			break
		}
		p = Pick(t, st)
	}
	return p.x
}

// ---- templates ----

func (g *Gen) tmplStyle() string {
	if g.NoHeredo {
		return "quoted"
	}
	return []string{"quoted", "heredoc", "flush"}[Weighted(g.T, 6, 2, 2)]
}

// Tmpl generates a template of the given style.
func (g *Gen) Tmpl(style string, d int) *Tmpl {
	t := &Tmpl{Style: style, Parts: g.parts(style, d, 4)}
	if style == "heredoc" || style == "flush" {
		t.Indent = Int(g.T, 0, 4, "indent")
	}
	t.Normalize()
	return t
}

var linePieces = []string{
	"a", "foo ", "x=1", " ", "  ", "\n", "\n", "\n  ", "\n    ", "\n\t", "\n\n", "  \n", "$", "%", "$${", "${", "%{", "}", "{", "\"", "\\", "\\n", "é", "日本", "👍", "#", "//", "EOT", "<<", "~", "\r\n", " ",
}

func (g *Gen) litText(style string) string {
	t := g.T
	if g.PlainLit {
		return PlainText(t, 3)
	}
	if style == "quoted" && !Chance(t, 40) {
		return AnyText(t)
	}
	if Chance(t, 15) {
		return AnyText(t)
	}
	n := Count(t, 0, 5)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(Pick(t, linePieces))
	}
	return b.String()
}

func (g *Gen) parts(style string, d, max int) []Part {
	t := g.T
	var ps []Part
	for i := Count(t, 0, max); i > 0; i-- {
		if g.budget <= 0 {
			break
		}
		switch Weighted(t, 5, 5, 2, 2) {
		case 0:
			ps = append(ps, Part{K: "lit", S: g.litText(style)})
		case 1:
			h := "str"
			if Chance(t, 30) {
				h = Pick(t, []string{"num", "bool", "num", "any"})
			}
			ps = append(ps, Part{K: "interp", X: g.Expr(h, d), Strip: g.strip(2)})
		case 2:
			p := Part{K: "if", X: g.Expr("bool", d-1), Then: g.parts(style, d-1, 2), Strip: g.strip(6)}
			if Chance(t, 50) {
				p.HasElse = true
				p.Else = g.parts(style, d-1, 2)
			} else {
				p.Strip &^= 4 | 8
			}
			ps = append(ps, p)
		default:
			coll, ex, key := g.coll(d)
			kv, vv := g.loopVars()
			p := Part{K: "for", X: coll, KV: kv, VV: vv, Strip: g.strip(4)}
			vars := []Var{{vv, ex}}
			if kv != "" {
				vars = append(vars, Var{kv, key})
			}
			g.with(vars, func() { p.Then = g.parts(style, d-1, 3) })
			ps = append(ps, p)
		}
	}
	return ps
}

func (g *Gen) strip(bits int) int {
	if !Chance(g.T, 30) {
		return 0
	}
	return Int(g.T, 1, 1<<bits-1, "strip")
}

// Normalize makes the template expressible in its style and unambiguous.
func (t *Tmpl) Normalize() {
	t.Parts = mergeLits(t.Parts)
	if t.Style != "quoted" {
		t.Parts = fixLits(t.Parts, t.Style)
	}
	if t.Style == "heredoc" || t.Style == "flush" {
		if n := len(t.Parts); n > 0 {
			last := &t.Parts[n-1]
			if last.K != "lit" {
				t.Parts = append(t.Parts, Part{K: "lit", S: "\n"})
			} else if !strings.HasSuffix(last.S, "\n") {
				last.S += "\n"
			}
		}
	}
	if t.Style == "bare" && len(t.Parts) > 0 && strings.HasPrefix(t.Parts[0].S, "\ufeff") {
		t.Parts[0].S = "x" + t.Parts[0].S // a leading byte order mark is not content
	}
	if t.Style == "flush" {
		fixFlush(t.Parts, new(bool))
	}
	if t.Style != "quoted" {
		fixStrip(t.Parts, t.Style, nil, nil)
	}
}

func mergeLits(ps []Part) []Part {
	var out []Part
	for _, p := range ps {
		p.Then = mergeLits(p.Then)
		p.Else = mergeLits(p.Else)
		if p.K == "lit" {
			if p.S == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].K == "lit" {
				out[n-1].S += p.S
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

func fixLits(ps []Part, style string) []Part {
	for i := range ps {
		p := &ps[i]
		if p.K == "lit" {
			s := strings.Replace(p.S, "\r\n", "\n", -1)
			crlf := s != p.S
			s = strings.Replace(s, "\r", "", -1)
			if crlf {
				s = strings.Replace(s, "\n", "\r\n", -1)
			}
			if s == "" || strings.HasSuffix(s, "$") || strings.HasSuffix(s, "%") {
				s += "."
			}
			p.S = s
		}
		p.Then = fixLits(p.Then, style)
		p.Else = fixLits(p.Else, style)
	}
	return ps
}

// fixFlush avoids text whose indentation is ambiguous: combining characters
// directly after leading space, and spaces outside ASCII.
func fixFlush(ps []Part, mid *bool) {
	for i := range ps {
		p := &ps[i]
		if p.K != "lit" {
			*mid = true
			fixFlush(p.Then, mid)
			*mid = true
			fixFlush(p.Else, mid)
			*mid = true
			continue
		}
		var b strings.Builder
		lead := !*mid
		for _, r := range p.S {
			if lead {
				if unicode.IsSpace(r) {
					if r != ' ' && r != '\t' && r != '\n' && r != '\r' {
						continue
					}
				} else {
					lead = false
					if r > 0x7f {
						b.WriteByte('x')
					}
				}
			}
			b.WriteRune(r)
			if r == '\n' {
				lead = true
			}
		}
		p.S = b.String()
		if p.S == "" {
			p.S = "x"
			lead = false
		}
		*mid = !lead || !strings.HasSuffix(p.S, "\n")
	}
}

// fixStrip clears strip markers whose effect the specification leaves open.
// prev and next are the literals beyond the ends of the list (none).
func fixStrip(ps []Part, style string, prev, next *Part) {
	litAt := func(i int) *string {
		if i >= 0 && i < len(ps) && ps[i].K == "lit" {
			return &ps[i].S
		}
		return nil
	}
	first := func(l []Part) *string {
		if len(l) > 0 && l[0].K == "lit" {
			return &l[0].S
		}
		return nil
	}
	last := func(l []Part) *string {
		if len(l) > 0 && l[len(l)-1].K == "lit" {
			return &l[len(l)-1].S
		}
		return nil
	}
	for i := range ps {
		p := &ps[i]
		if p.K == "lit" {
			continue
		}
		chk := func(bit int, s *string, before bool) {
			if p.Strip&bit != 0 && s != nil && !stripOK(*s, before, style) {
				p.Strip &^= bit
			}
		}
		chk(1, litAt(i-1), true)
		switch p.K {
		case "interp":
			chk(2, litAt(i+1), false)
		case "if":
			chk(2, first(p.Then), false)
			if p.HasElse {
				chk(4, last(p.Then), true)
				chk(8, first(p.Else), false)
				chk(16, last(p.Else), true)
			} else {
				chk(16, last(p.Then), true)
			}
			chk(32, litAt(i+1), false)
		case "for":
			chk(2, first(p.Then), false)
			chk(4, last(p.Then), true)
			chk(8, litAt(i+1), false)
		}
		fixStrip(p.Then, style, nil, nil)
		fixStrip(p.Else, style, nil, nil)
	}
}

func stripOK(s string, before bool, style string) bool {
	var run string
	if before {
		run = s[len(strings.TrimRightFunc(s, unicode.IsSpace)):]
	} else {
		run = s[:len(s)-len(strings.TrimLeftFunc(s, unicode.IsSpace))]
	}
	if run == "" {
		return true
	}
	if rest := s[:len(s)-len(run)]; before && (strings.HasSuffix(rest, "$") || strings.HasSuffix(rest, "%")) {
		return false
	}
	if style == "flush" {
		if strings.Contains(run, "\n") {
			return false
		}
		return !before || len(run) < len(s)
	}
	return !strings.Contains(strings.TrimSuffix(run, "\n"), "\n")
}

// ---- free variables ----

// FreePaths lists the free references of an expression: the root name
// followed by the static path, in no particular order. Each is reported with
// every acceptable alternative length (paths may legitimately stop at
// parentheses).
type FreePath struct {
	Root string
	// Min and Max steps; Steps holds the maximal path.
	Steps []Step
	Min   int
}

// Step of a static path.
type Step struct {
	Attr string
	Key  *cty.Value
}

// Free returns the free references.
func (e *Expr) Free() []FreePath {
	var out []FreePath
	e.free(map[string]int{}, &out)
	return out
}

// Free returns the free references of a template.
func (t *Tmpl) Free() []FreePath {
	return (&Expr{K: "tmpl", T: t}).Free()
}

// litKey says whether an index key is a literal.
func (e *Expr) litKey() (cty.Value, bool) {
	switch e.K {
	case "num":
		return cty.MustParseNumberVal(e.S), true
	case "bool":
		return cty.BoolVal(e.S == "true"), true
	case "null":
		return cty.NullVal(cty.DynamicPseudoType), true
	case "tmpl":
		if e.T.Style == "flush" || e.T.Style == "heredoc" {
			return cty.NilVal, false
		}
		if len(e.T.Parts) == 0 {
			return cty.StringVal(""), true
		}
		if len(e.T.Parts) == 1 && e.T.Parts[0].K == "lit" {
			return cty.StringVal(e.T.Parts[0].S), true
		}
	}
	return cty.NilVal, false
}

// chain views an expression as a variable with static steps. soft is the
// number of steps that must be included at least.
func (e *Expr) chain(bound map[string]int) (root string, steps []Step, min int, ok bool) {
	switch e.K {
	case "var":
		return e.S, nil, 0, true
	case "paren":
		r, st, _, ok := e.Xs[0].chain(bound)
		return r, st, len(st), ok
	case "attr":
		r, st, min, ok := e.Xs[0].chain(bound)
		if !ok {
			return "", nil, 0, false
		}
		st = append(st, Step{Attr: e.S})
		if !e.Xs[0].hasParenBelow() {
			min = len(st)
		}
		return r, st, min, true
	case "leg":
		r, st, min, ok := e.Xs[0].chain(bound)
		if !ok {
			return "", nil, 0, false
		}
		k := cty.MustParseNumberVal(e.S)
		st = append(st, Step{Key: &k})
		if !e.Xs[0].hasParenBelow() {
			min = len(st)
		}
		return r, st, min, true
	case "idx":
		key := e.Xs[1]
		soft := false
		for key.K == "paren" {
			key = key.Xs[0]
			soft = true
		}
		k, lit := key.litKey()
		if !lit {
			if isHeredoc(key) && len(key.T.Parts) == 1 {
				return "", nil, 0, false
			}
			return "", nil, 0, false
		}
		r, st, min, ok := e.Xs[0].chain(bound)
		if !ok {
			return "", nil, 0, false
		}
		st = append(st, Step{Key: &k})
		if !e.Xs[0].hasParenBelow() && !soft {
			min = len(st)
		}
		return r, st, min, true
	}
	return "", nil, 0, false
}

// hasParenBelow says whether the operand chain contains parentheses.
func (e *Expr) hasParenBelow() bool {
	for {
		switch e.K {
		case "paren":
			return true
		case "attr", "leg":
			e = e.Xs[0]
		case "idx":
			if e.Xs[1].K == "paren" {
				return true
			}
			e = e.Xs[0]
		default:
			return false
		}
	}
}

func (e *Expr) free(bound map[string]int, out *[]FreePath) {
	if e == nil {
		return
	}
	if root, steps, min, ok := e.chain(bound); ok {
		if bound[root] == 0 {
			*out = append(*out, FreePath{Root: root, Steps: steps, Min: min})
		}
		return
	}
	switch e.K {
	case "for":
		e.Xs[0].free(bound, out)
		bind(bound, 1, e.KV, e.VV)
		e.Key.free(bound, out)
		e.Xs[1].free(bound, out)
		e.Cond.free(bound, out)
		bind(bound, -1, e.KV, e.VV)
	case "obj":
		for i, k := range e.Keys {
			if k.K != "id" {
				k.X.free(bound, out)
			}
			e.Xs[i].free(bound, out)
		}
	case "tmpl":
		freeParts(e.T.Parts, bound, out)
	default:
		for _, x := range e.Xs {
			x.free(bound, out)
		}
	}
}

func bind(bound map[string]int, d int, names ...string) {
	for _, n := range names {
		if n != "" {
			bound[n] += d
		}
	}
}

func freeParts(ps []Part, bound map[string]int, out *[]FreePath) {
	for i := range ps {
		p := &ps[i]
		p.X.free(bound, out)
		if p.K == "for" {
			bind(bound, 1, p.KV, p.VV)
		}
		freeParts(p.Then, bound, out)
		freeParts(p.Else, bound, out)
		if p.K == "for" {
			bind(bound, -1, p.KV, p.VV)
		}
	}
}

// HasStrip says whether any strip marker is present.
func (t *Tmpl) HasStrip() bool {
	var f func(ps []Part) bool
	f = func(ps []Part) bool {
		for _, p := range ps {
			if p.Strip != 0 || f(p.Then) || f(p.Else) {
				return true
			}
		}
		return false
	}
	return f(t.Parts)
}

// Chain views an expression as a reference: a variable with static steps.
// sure is false where parentheses make it a matter of taste.
func (e *Expr) Chain() (root string, steps []Step, sure, ok bool) {
	root, steps, _, ok = e.chain(map[string]int{})
	return root, steps, !e.hasParenBelow(), ok
}

// Tuple draws a tuple constructor, Object an object constructor, and Ref a
// reference.
func (g *Gen) Tuple(d int) *Expr  { return g.tuple(d) }
func (g *Gen) Object(d int) *Expr { return g.object(d, "any") }
func (g *Gen) Ref() (*Expr, bool) {
	old := g.static
	g.static = true
	p, ok := g.path("any")
	g.static = old
	return p.x, ok
}
