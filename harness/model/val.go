// Package model holds the independent reference models the oracles are built
// from: values, expressions with a printer and an evaluator, templates,
// bodies, JSON text and source positions.
package model

import (
	"fmt"
	"sort"
	"strings"

	"github.com/zclconf/go-cty/cty"
	"golang.org/x/text/unicode/norm"
	"pgregory.net/rapid"
)

// Ty is a serialisable type.
type Ty struct {
	K     string   `json:"k"` // str num bool dyn list set map tuple obj
	E     *Ty      `json:"e,omitempty"`
	Elems []Ty     `json:"elems,omitempty"`
	Names []string `json:"names,omitempty"`
}

// Cty converts to a cty type.
func (t Ty) Cty() cty.Type {
	switch t.K {
	case "str":
		return cty.String
	case "num":
		return cty.Number
	case "bool":
		return cty.Bool
	case "dyn", "":
		return cty.DynamicPseudoType
	case "list":
		return cty.List(t.E.Cty())
	case "set":
		return cty.Set(t.E.Cty())
	case "map":
		return cty.Map(t.E.Cty())
	case "tuple":
		ts := make([]cty.Type, len(t.Elems))
		for i, e := range t.Elems {
			ts[i] = e.Cty()
		}
		return cty.Tuple(ts)
	case "obj":
		m := map[string]cty.Type{}
		for i, n := range t.Names {
			m[norm.NFC.String(n)] = t.Elems[i].Cty()
		}
		return cty.Object(m)
	}
	panic("bad type " + t.K)
}

// Val is a serialisable value.
type Val struct {
	K    string   `json:"k"` // str num bool null unk list set map tuple obj
	S    string   `json:"s,omitempty"`
	B    bool     `json:"b,omitempty"`
	Ty   *Ty      `json:"ty,omitempty"`
	L    []Val    `json:"l,omitempty"`
	Keys []string `json:"keys,omitempty"`
}

// Cty converts to a cty value.
func (v Val) Cty() cty.Value {
	switch v.K {
	case "str":
		return cty.StringVal(v.S)
	case "num":
		n, err := cty.ParseNumberVal(v.S)
		if err != nil {
			panic(err)
		}
		return n
	case "bool":
		return cty.BoolVal(v.B)
	case "null":
		return cty.NullVal(v.ty().Cty())
	case "unk":
		return cty.UnknownVal(v.ty().Cty())
	case "list":
		if len(v.L) == 0 {
			return cty.ListValEmpty(v.ty().Cty())
		}
		return cty.ListVal(ctys(v.L))
	case "set":
		if len(v.L) == 0 {
			return cty.SetValEmpty(v.ty().Cty())
		}
		return cty.SetVal(ctys(v.L))
	case "map":
		if len(v.L) == 0 {
			return cty.MapValEmpty(v.ty().Cty())
		}
		return cty.MapVal(v.entries())
	case "tuple":
		return cty.TupleVal(ctys(v.L))
	case "obj":
		return cty.ObjectVal(v.entries())
	}
	panic("bad value " + v.K)
}

func (v Val) ty() Ty {
	if v.Ty == nil {
		return Ty{K: "dyn"}
	}
	return *v.Ty
}

func ctys(l []Val) []cty.Value {
	ret := make([]cty.Value, len(l))
	for i, v := range l {
		ret[i] = v.Cty()
	}
	return ret
}

func (v Val) entries() map[string]cty.Value {
	m := map[string]cty.Value{}
	for i, k := range v.Keys {
		m[norm.NFC.String(k)] = v.L[i].Cty()
	}
	return m
}

// TypeOf is the type of a value.
func (v Val) TypeOf() Ty {
	switch v.K {
	case "str", "num", "bool":
		return Ty{K: v.K}
	case "null", "unk":
		return v.ty()
	case "list", "set", "map":
		e := v.ty()
		return Ty{K: v.K, E: &e}
	case "tuple":
		t := Ty{K: "tuple"}
		for _, e := range v.L {
			t.Elems = append(t.Elems, e.TypeOf())
		}
		return t
	case "obj":
		t := Ty{K: "obj", Names: v.Keys}
		for _, e := range v.L {
			t.Elems = append(t.Elems, e.TypeOf())
		}
		return t
	}
	panic("bad value " + v.K)
}

// Depth and size helpers.
func (v Val) Size() int {
	n := 1
	for _, e := range v.L {
		n += e.Size()
	}
	return n
}

// HasNull says whether a null occurs anywhere inside.
func (v Val) HasNull() bool {
	if v.K == "null" {
		return true
	}
	for _, e := range v.L {
		if e.HasNull() {
			return true
		}
	}
	return false
}

func (v Val) String() string {
	switch v.K {
	case "str":
		return fmt.Sprintf("%q", v.S)
	case "num":
		return v.S
	case "bool":
		return fmt.Sprint(v.B)
	case "null", "unk":
		return v.K + "(" + v.ty().String() + ")"
	}
	var parts []string
	for i, e := range v.L {
		s := e.String()
		if i < len(v.Keys) {
			s = fmt.Sprintf("%q:%s", v.Keys[i], s)
		}
		parts = append(parts, s)
	}
	return v.K + "(" + strings.Join(parts, ",") + ")"
}

func (t Ty) String() string {
	switch t.K {
	case "list", "set", "map":
		return t.K + "(" + t.E.String() + ")"
	case "tuple", "obj":
		var parts []string
		for i, e := range t.Elems {
			s := e.String()
			if i < len(t.Names) {
				s = t.Names[i] + ":" + s
			}
			parts = append(parts, s)
		}
		return t.K + "(" + strings.Join(parts, ",") + ")"
	}
	return t.K
}

// ---- generators ----

// Int draws an int in [lo,hi], favouring small values when shrinking.
func Int(t *rapid.T, lo, hi int, label string) int {
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// Count draws a number of parts in [lo,hi], and now and then many more.
func Count(t *rapid.T, lo, hi int) int {
	if Chance(t, 2) {
		return Int(t, hi+1, 3*hi+8, "many")
	}
	return Int(t, lo, hi, "n")
}

// Chance is true roughly pct percent of the time; shrinks to false.
func Chance(t *rapid.T, pct int) bool {
	return rapid.IntRange(0, 99).Draw(t, "p") >= 100-pct
}

// Pick draws one element.
func Pick[T any](t *rapid.T, xs []T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, "i")]
}

// Weighted draws an index according to weights.
func Weighted(t *rapid.T, ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	n := rapid.IntRange(0, sum-1).Draw(t, "w")
	for i, w := range ws {
		if n < w {
			return i
		}
		n -= w
	}
	return len(ws) - 1
}

var strPieces = []string{
	"a", "b", "foo", "x1", " ", "0", "12", "-", "_", ".", "true",
	"\"", "\\", "$", "%", "{", "}", "${", "%{", "$${", "%%{", "$$", "~", "~}", "${~",
	"\n", "\t", "\r\n", "\r", "  ", "#", "//", "/*", "*/", "<<", "EOT", "'", "`", ";",
	"é", "e\u0301", "\u0301", "日本", "👍", "👩‍👩‍👧", "🇬🇧", "\u0600", "\u00a0", "\u2028", "\u200b", "\ufeff", "\x00", "\x7f", "\u0085",
	"\\n", "\\u", "u0041", "\U0010ffff",
}

// plainPieces are the safe subset used where a test does not focus on text.
var plainPieces = []string{"a", "b", "foo", "bar", "x1", " ", "0", "-", "é", "日"}

// Text draws a string over the tricky alphabet.
func Text(t *rapid.T, max int) string {
	n := rapid.IntRange(0, max).Draw(t, "n")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(Pick(t, strPieces))
	}
	return long(t, b.String())
}

// long repeats a string many times, now and then, but not combining marks:
// normalisation breaks up long sequences of them.
func long(t *rapid.T, s string) string {
	if s != "" && Chance(t, 1) && !strings.Contains(s, "\u0301") {
		return strings.Repeat(s, Int(t, 2, 60, "times"))
	}
	return s
}

// PlainText draws a string without special characters.
func PlainText(t *rapid.T, max int) string {
	n := rapid.IntRange(0, max).Draw(t, "n")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(Pick(t, plainPieces))
	}
	return long(t, b.String())
}

// AnyText is mostly tricky, sometimes arbitrary valid Unicode.
func AnyText(t *rapid.T) string {
	switch Weighted(t, 4, 4, 1) {
	case 0:
		return PlainText(t, 3)
	case 1:
		return Text(t, 5)
	default:
		return rapid.StringN(0, 8, -1).Draw(t, "u")
	}
}

// Idents usable as names everywhere, including ones resembling keywords.
var Idents = []string{"a", "b", "foo", "bar", "baz_1", "with-dash", "é1", "日本", "x", "_u", "in", "if", "for", "endif", "else", "dynamic", "content"}

// PlainIdents avoids keyword-like names.
var PlainIdents = []string{"a", "b", "foo", "bar", "baz_1", "with-dash", "é1", "x", "_u"}

// Num draws a decimal number literal text without sign.
func Num(t *rapid.T) string {
	switch Weighted(t, 6, 3, 3, 2, 2, 1) {
	case 0:
		return fmt.Sprint(rapid.IntRange(0, 12).Draw(t, "n"))
	case 1:
		return fmt.Sprint(rapid.IntRange(0, 1000000).Draw(t, "n"))
	case 2:
		return fmt.Sprintf("%d.%d", rapid.IntRange(0, 99).Draw(t, "n"), rapid.IntRange(0, 999).Draw(t, "f"))
	case 3:
		return fmt.Sprintf("%d%s%d", rapid.IntRange(0, 99).Draw(t, "n"), Pick(t, []string{"e", "E", "e+", "e-", "E-"}), rapid.IntRange(0, 20).Draw(t, "x"))
	case 4:
		n := rapid.IntRange(1, 60).Draw(t, "len")
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + rapid.IntRange(0, 9).Draw(t, "d"))
		}
		if b[0] == '0' {
			b[0] = '1'
		}
		return string(b)
	default:
		return fmt.Sprintf("%d.%de%d", rapid.IntRange(0, 99).Draw(t, "n"), rapid.IntRange(0, 99999).Draw(t, "f"), rapid.IntRange(0, 30).Draw(t, "x"))
	}
}

// GenTy draws a type. dyn allows the dynamic placeholder.
func GenTy(t *rapid.T, depth int, dyn bool) Ty {
	if depth <= 0 {
		switch Weighted(t, 4, 4, 3, b2i(dyn)) {
		case 0:
			return Ty{K: "str"}
		case 1:
			return Ty{K: "num"}
		case 2:
			return Ty{K: "bool"}
		default:
			return Ty{K: "dyn"}
		}
	}
	switch Weighted(t, 8, 2, 1, 2, 2, 2) {
	case 1, 2, 3:
		e := GenTy(t, depth-1, dyn)
		return Ty{K: Pick(t, []string{"list", "set", "map"}), E: &e}
	case 4:
		n := rapid.IntRange(0, 3).Draw(t, "n")
		ty := Ty{K: "tuple"}
		for i := 0; i < n; i++ {
			ty.Elems = append(ty.Elems, GenTy(t, depth-1, dyn))
		}
		return ty
	case 5:
		ty := Ty{K: "obj"}
		for _, n := range Subset(t, PlainIdents, 3) {
			ty.Names = append(ty.Names, n)
			ty.Elems = append(ty.Elems, GenTy(t, depth-1, dyn))
		}
		return ty
	default:
		return GenTy(t, 0, dyn)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Subset draws up to max distinct elements, in pool order.
func Subset(t *rapid.T, pool []string, max int) []string {
	n := rapid.IntRange(0, max).Draw(t, "n")
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		seen[rapid.IntRange(0, len(pool)-1).Draw(t, "i")] = true
	}
	var ret []string
	for i, p := range pool {
		if seen[i] {
			ret = append(ret, p)
		}
	}
	return ret
}

// ValOpts controls value generation.
type ValOpts struct {
	Text    func(t *rapid.T) string
	Null    int // percent of nulls
	Unk     int // percent of unknowns
	Keys    func(t *rapid.T) string
	NumFunc func(t *rapid.T) string
}

// PlainOpts generate ordinary values.
func PlainOpts() ValOpts {
	return ValOpts{
		Text: func(t *rapid.T) string { return PlainText(t, 3) },
		Keys: func(t *rapid.T) string {
			if Chance(t, 6) {
				return Pick(t, []string{"0", "12", "-1", "1.5", "true"})
			}
			return Pick(t, PlainIdents)
		},
	}
}

// TrickyOpts generate values with special characters everywhere.
func TrickyOpts() ValOpts {
	return ValOpts{
		Text: AnyText,
		Keys: func(t *rapid.T) string {
			if Chance(t, 60) {
				return Pick(t, Idents)
			}
			return AnyText(t)
		},
	}
}

// ValOf draws a value of the given type.
func (o ValOpts) ValOf(t *rapid.T, ty Ty) Val {
	if o.Null > 0 && Chance(t, o.Null) {
		tt := ty
		return Val{K: "null", Ty: &tt}
	}
	if o.Unk > 0 && Chance(t, o.Unk) {
		tt := ty
		return Val{K: "unk", Ty: &tt}
	}
	switch ty.K {
	case "str":
		return Val{K: "str", S: o.Text(t)}
	case "num":
		return o.numVal(t)
	case "bool":
		return Val{K: "bool", B: rapid.Bool().Draw(t, "b")}
	case "dyn", "":
		return o.ValOf(t, GenTy(t, 1, false))
	case "list", "set":
		n := Count(t, 0, 3)
		e := *ty.E
		v := Val{K: ty.K, Ty: &e}
		oo := o
		if ty.K == "set" {
			oo.Unk = 0
		}
		for i := 0; i < n; i++ {
			v.L = append(v.L, oo.ValOf(t, e))
		}
		return v
	case "map":
		n := Count(t, 0, 3)
		e := *ty.E
		v := Val{K: "map", Ty: &e}
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			k := o.Keys(t)
			ev := o.ValOf(t, e)
			if seen[norm.NFC.String(k)] {
				continue
			}
			seen[norm.NFC.String(k)] = true
			v.Keys = append(v.Keys, k)
			v.L = append(v.L, ev)
		}
		return v
	case "tuple":
		v := Val{K: "tuple"}
		for _, e := range ty.Elems {
			v.L = append(v.L, o.ValOf(t, e))
		}
		return v
	case "obj":
		v := Val{K: "obj"}
		for i, e := range ty.Elems {
			v.Keys = append(v.Keys, ty.Names[i])
			v.L = append(v.L, o.ValOf(t, e))
		}
		return v
	}
	panic("bad type " + ty.K)
}

func (o ValOpts) numVal(t *rapid.T) Val {
	f := o.NumFunc
	if f == nil {
		f = Num
	}
	s := f(t)
	if Chance(t, 25) {
		s = "-" + s
	}
	return Val{K: "num", S: s}
}

// GenTyKeys is GenTy with object attribute names drawn from o.Keys.
func (o ValOpts) GenTyKeys(t *rapid.T, depth int) Ty {
	ty := GenTy(t, depth, false)
	return o.renameKeys(t, ty)
}

func (o ValOpts) renameKeys(t *rapid.T, ty Ty) Ty {
	if ty.E != nil {
		e := o.renameKeys(t, *ty.E)
		ty.E = &e
	}
	elems := make([]Ty, len(ty.Elems))
	for i := range ty.Elems {
		elems[i] = o.renameKeys(t, ty.Elems[i])
	}
	ty.Elems = elems
	if ty.K == "obj" {
		seen := map[string]bool{}
		var names []string
		var es []Ty
		for i := range ty.Names {
			k := o.Keys(t)
			if seen[norm.NFC.String(k)] {
				continue
			}
			seen[norm.NFC.String(k)] = true
			names = append(names, k)
			es = append(es, ty.Elems[i])
		}
		ty.Names, ty.Elems = names, es
	}
	return ty
}

// SortedKeys of a value map.
func SortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// SameValue compares two values, treating numerically equal numbers as equal
// whatever their internal precision.
func SameValue(a, b cty.Value) bool {
	if a == cty.NilVal || b == cty.NilVal {
		return a == b
	}
	if !a.Type().Equals(b.Type()) {
		return false
	}
	if !a.IsKnown() || !b.IsKnown() {
		return a.IsKnown() == b.IsKnown()
	}
	if a.IsNull() || b.IsNull() {
		return a.IsNull() == b.IsNull()
	}
	ty := a.Type()
	switch {
	case ty == cty.Number:
		return a.AsBigFloat().Cmp(b.AsBigFloat()) == 0
	case ty.IsPrimitiveType():
		return a.RawEquals(b)
	case ty.IsCapsuleType():
		return a.RawEquals(b)
	case ty.IsObjectType():
		for n := range ty.AttributeTypes() {
			if !SameValue(a.GetAttr(n), b.GetAttr(n)) {
				return false
			}
		}
		return true
	case ty.IsSetType():
		return a.RawEquals(b)
	default:
		if a.LengthInt() != b.LengthInt() {
			return false
		}
		ai, bi := a.ElementIterator(), b.ElementIterator()
		for ai.Next() && bi.Next() {
			ak, av := ai.Element()
			bk, bv := bi.Element()
			if !ak.RawEquals(bk) || !SameValue(av, bv) {
				return false
			}
		}
		return true
	}
}

// Plain is the value that writing it down as an expression gives.
func (v Val) Plain() Val {
	switch v.K {
	case "list", "set", "tuple":
		v.K = "tuple"
	case "map", "obj":
		v.K = "obj"
	case "null", "unk":
		return Val{K: "null"}
	}
	v.Ty = nil
	l := make([]Val, len(v.L))
	for i, x := range v.L {
		l[i] = x.Plain()
	}
	v.L = l
	return v
}
