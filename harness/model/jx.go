package model

import (
	"strconv"

	"github.com/zclconf/go-cty/cty"
)

// JX is a JSON value whose strings are known templates.
type JX struct {
	K    string  `json:"k"` // obj arr str num bool null
	S    string  `json:"s,omitempty"`
	T    *Tmpl   `json:"t,omitempty"`
	L    []*JX   `json:"l,omitempty"`
	Keys []*Tmpl `json:"keys,omitempty"`
}

// J is the JSON document.
func (x *JX) J() *J {
	j := &J{K: x.K, S: x.S}
	if x.K == "str" {
		j.S = x.T.Bare(nil)
	}
	for _, e := range x.L {
		j.L = append(j.L, e.J())
	}
	for _, k := range x.Keys {
		j.Keys = append(j.Keys, k.Bare(nil))
	}
	return j
}

// Eval is the documented meaning: a nil environment asks for literal strings.
func (x *JX) Eval(env *Env) (cty.Value, error) {
	tmpl := func(t *Tmpl) (cty.Value, error) {
		if env == nil {
			return cty.StringVal(t.Bare(nil)), nil
		}
		return t.Eval(env)
	}
	switch x.K {
	case "num":
		return cty.MustParseNumberVal(x.S), nil
	case "bool":
		return cty.BoolVal(x.S == "true"), nil
	case "null":
		return cty.NullVal(cty.DynamicPseudoType), nil
	case "str":
		return tmpl(x.T)
	case "arr":
		vs := []cty.Value{}
		var err error
		for _, e := range x.L {
			v, e2 := e.Eval(env)
			err = worse(err, e2)
			vs = append(vs, v)
		}
		if err != nil {
			return cty.DynamicVal, err
		}
		return cty.TupleVal(vs), nil
	}
	m := map[string]cty.Value{}
	var err error
	for i, k := range x.Keys {
		kv, kerr := tmpl(k)
		v, verr := x.L[i].Eval(env)
		err = worse(worse(err, kerr), verr)
		if kerr != nil {
			continue
		}
		kv, cerr := safeConvert(kv, cty.String)
		if cerr != nil {
			err = worse(err, fail(false, "key: %s", cerr))
			continue
		}
		if kv.IsNull() {
			err = worse(err, fail(false, "null key"))
			continue
		}
		if _, dup := m[kv.AsString()]; dup {
			err = worse(err, fail(false, "duplicate key"))
			continue
		}
		m[kv.AsString()] = v
	}
	if err != nil {
		return cty.DynamicVal, err
	}
	return cty.ObjectVal(m), nil
}

// Free lists the references in all strings and keys.
func (x *JX) Free() []FreePath {
	var out []FreePath
	if x.K == "str" {
		out = append(out, x.T.Free()...)
	}
	for _, k := range x.Keys {
		out = append(out, k.Free()...)
	}
	for _, e := range x.L {
		out = append(out, e.Free()...)
	}
	return out
}

// JX draws a JSON value.
func (g *Gen) JX(depth int) *JX {
	t := g.T
	w := []int{6, 2, 2, 1, 4, 5}
	if depth <= 0 {
		w[4], w[5] = 0, 0
	}
	str := func(d int) *Tmpl {
		if Chance(t, 40) {
			return &Tmpl{Style: "bare", Parts: []Part{{K: "lit", S: Pick(t, Idents)}}}
		}
		if g.budget < 10 {
			g.budget = 10
		}
		return g.Tmpl("bare", d)
	}
	switch Weighted(t, w...) {
	case 0:
		return &JX{K: "str", T: str(2)}
	case 1:
		return &JX{K: "num", S: JNum(t)}
	case 2:
		return &JX{K: "bool", S: Pick(t, []string{"true", "false"})}
	case 3:
		return &JX{K: "null"}
	case 4:
		x := &JX{K: "arr"}
		for i := Count(t, 0, 3); i > 0; i-- {
			x.L = append(x.L, g.JX(depth-1))
		}
		return x
	default:
		x := &JX{K: "obj"}
		for i := Count(t, 0, 3); i > 0; i-- {
			x.Keys = append(x.Keys, str(1))
			x.L = append(x.L, g.JX(depth-1))
		}
		return x
	}
}

// JPieces are fragments for damaging JSON documents.
var JPieces = []string{
	"{", "}", "[", "]", ",", ":", "\"", "\\", "\\\"", "\\u00e9", "\\u12", "\\ud83d", "\\ude00", "\\/", "\\b", "\\x", "'", "=", "\t", "\n", "\r", " ", "\"a\"", "\"b\":", "\"a\":1,",
	"true", "false", "null", "True", "nul", "NaN", "undefined", "Infinity", "tr_ue",
	"0", "1", "-", "+", ".", "e", "E", "e5", "1.5", "01", "-0", "1.", ".5", "1e+", "--1", "12345678901234567890", "//", "/*", "#", "{}", "[]", "[{}]", "{\"a\":{}}",
	"\u00e9", "e\u0301", "\U0001f44d", "\u0600", "\u200d", "\u2028", "\ufeff", "\x00", "\x1f", "\x7f", "\xff", "\xc3", "\xe6\x97", "${", "}", "%{ if a }", "\"${a}\"", "\"dynamic\"",
}

// NumText is the decimal text of a small number.
func NumText(n int) string { return strconv.Itoa(n) }
