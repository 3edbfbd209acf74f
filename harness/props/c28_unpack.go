package props

import (
	"encoding/base64"
	ejson "encoding/json"
	"fmt"
	"sort"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclpack"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// unpackCase is data for a packed body.
type unpackCase struct {
	Scope model.Scope `json:"scope"`
	Data  []byte      `json:"data"`
	Kind  string      `json:"kind"`
}

// A packed body in its JSON form, written independently of the library.
type pkHead struct {
	Body *pkBody     `json:"r,omitempty"`
	Src  interface{} `json:"s,omitempty"`
	Pos  interface{} `json:"p,omitempty"`
}

type pkBody struct {
	Attrs  map[string]*pkAttr `json:"a,omitempty"`
	Blocks []*pkBlock         `json:"b,omitempty"`
	Ranges interface{}        `json:"r,omitempty"`
}

type pkAttr struct {
	Src    interface{} `json:"s"`
	Syntax interface{} `json:"t,omitempty"`
	Ranges interface{} `json:"r,omitempty"`
}

type pkBlock struct {
	Header interface{} `json:"h,omitempty"`
	Body   *pkBody     `json:"b,omitempty"`
	Ranges interface{} `json:"r,omitempty"`
}

// pkInts draws a packed integer list.
func pkInts(t *rapid.T, pct int, lo, hi int) interface{} {
	if model.Chance(t, pct) {
		switch model.Weighted(t, 3, 1, 1, 1) {
		case 0:
			return base64.RawStdEncoding.EncodeToString(rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "raw"))
		case 1:
			return model.Pick(t, []interface{}{nil, 1, true, []int{1}, map[string]int{}})
		case 2:
			return model.AnyText(t)
		}
		return ""
	}
	var raw []byte
	for n := model.Int(t, 0, 14, "n"); n > 0; n-- {
		v := model.Int(t, lo, hi, "int")
		if model.Chance(t, 4) {
			v = model.Pick(t, []int{1 << 40, -1 << 40, -30, 59, 255, -1, 1 << 62})
		}
		u := uint64(v) << 1
		if v < 0 {
			u = ^u
		}
		var b []byte
		for {
			b = append([]byte{byte(u & 0x7f)}, b...)
			if u >>= 7; u == 0 {
				break
			}
		}
		for i := 0; i < len(b)-1; i++ {
			b[i] |= 0x80
		}
		raw = append(raw, b...)
		if lo < 0 && model.Chance(t, 5) {
			raw = append(raw, ';')
		}
	}
	return base64.RawStdEncoding.EncodeToString(raw)
}

type pkGen struct {
	t   *rapid.T
	bad int
	g   *model.Gen
}

func (p *pkGen) source() (interface{}, interface{}) {
	t := p.t
	if model.Chance(t, p.bad) {
		return model.Pick(t, []interface{}{nil, 12, []string{"a"}, ""}), model.Pick(t, []interface{}{nil, 3, -1, "1", 99999999999, 1.5})
	}
	switch model.Weighted(t, 4, 2, 2, 2) {
	case 0:
		s := p.g.Expr("any", 2).Native(nil)
		if model.Chance(t, 30) {
			s = model.Mutate(t, s, []string{"(", ")", "<<EOT\n", "${", "\"", "\n", "[", "a.b", "?", ":"})
		}
		return s, nil
	case 1:
		return "x ${s} " + model.AnyText(t), 1
	case 2:
		s := model.Pick(t, []string{"1", "null", "\"a\"", "[1, \"a\", null]", "{\"a\": [true]}", "{}", "", "[", "{\"a\":1,\"a\":2}", "1e400", "nul", "01"})
		return s, 2
	}
	s, _ := model.Source(t)
	return string(s), model.Pick(t, []interface{}{nil, 1, 2})
}

func (p *pkGen) body(depth int) *pkBody {
	t := p.t
	b := &pkBody{Ranges: pkInts(t, p.bad, 0, 9)}
	for _, n := range model.Subset(t, []string{"a", "b", "foo", "", "é x"}, 3) {
		if b.Attrs == nil {
			b.Attrs = map[string]*pkAttr{}
		}
		a := &pkAttr{Ranges: pkInts(t, p.bad, 0, 9)}
		a.Src, a.Syntax = p.source()
		if model.Chance(t, p.bad) {
			a = nil
		}
		b.Attrs[n] = a
	}
	if depth > 0 {
		for n := model.Count(t, 0, 2); n > 0; n-- {
			bl := &pkBlock{Ranges: pkInts(t, p.bad, 0, 9)}
			bl.Header = model.Pick(t, []interface{}{[]string{"blk"}, []string{"blk", "l1"}, []string{"svc", "x", "y"}, []string{""}})
			if model.Chance(t, p.bad) {
				bl.Header = model.Pick(t, []interface{}{nil, []string{}, "blk", []interface{}{1}, []interface{}{nil}})
			}
			if !model.Chance(t, p.bad) {
				bl.Body = p.body(depth - 1)
			}
			b.Blocks = append(b.Blocks, bl)
		}
		if model.Chance(t, p.bad) {
			b.Blocks = append(b.Blocks, nil)
		}
	}
	return b
}

func genUnpack(t *rapid.T) unpackCase {
	c := unpackCase{Scope: model.GenScopeN(t, genScopeOpts(), 1)}
	p := &pkGen{t: t, g: model.NewGen(t, c.Scope, 5)}
	p.bad = model.Pick(t, []int{0, 5, 20})
	h := pkHead{Src: []string{"a.hcl", "b.hcl"}, Pos: pkInts(t, p.bad, -2, 40)}
	if model.Chance(t, p.bad) {
		h.Src = model.Pick(t, []interface{}{nil, []string{}, "a", []interface{}{nil}})
	}
	if !model.Chance(t, p.bad) {
		h.Body = p.body(2)
	}
	data, err := ejson.Marshal(h)
	if err != nil {
		panic(err)
	}
	c.Kind = "structure"
	c.Data = data
	switch model.Weighted(t, 6, 2, 1) {
	case 1:
		c.Kind = "mutated bytes"
		c.Data = []byte(model.Mutate(t, string(data), []string{"\"", "{", "}", "[", "]", ":", ",", "null", "\"r\"", "AA", "=", "1", "\\"}))
	case 2:
		c.Kind = "arbitrary bytes"
		c.Data = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
	}
	return c
}

// useBody uses a body in every way the API offers.
func useBody(b hcl.Body, ctx *hcl.EvalContext, depth int) {
	b.MissingItemRange()
	attrs, _ := b.JustAttributes()
	for _, n := range model.SortedKeys(attrs) {
		a := attrs[n]
		a.Expr.Value(ctx)
		a.Expr.Value(nil)
		a.Expr.Variables()
		a.Expr.Range()
		a.Expr.StartRange()
		hcl.ExprList(a.Expr)
		hcl.ExprMap(a.Expr)
		hcl.ExprCall(a.Expr)
		hcl.AbsTraversalForExpr(a.Expr)
		hcl.RelTraversalForExpr(a.Expr)
		hcl.ExprAsKeyword(a.Expr)
	}
	types := []string{"blk", "svc", "", "other"}
	for nl := 0; nl < 3; nl++ {
		s := &hcl.BodySchema{}
		for _, ty := range types {
			s.Blocks = append(s.Blocks, hcl.BlockHeaderSchema{Type: ty, LabelNames: labelNames[:nl]})
		}
		for _, n := range []string{"a", "missing"} {
			s.Attributes = append(s.Attributes, hcl.AttributeSchema{Name: n, Required: true})
		}
		c, _ := b.Content(s)
		c2, rem, _ := b.PartialContent(s)
		rem.MissingItemRange()
		rem.JustAttributes()
		rem.Content(s)
		for _, c := range []*hcl.BodyContent{c, c2} {
			for _, bl := range c.Blocks {
				if depth > 0 {
					useBody(bl.Body, ctx, depth-1)
				}
			}
			c.Blocks.ByType()
		}
	}
}

func checkUnpack(c unpackCase, r *engine.Rec) error {
	var b hclpack.Body
	r.Label("%s", c.Kind)
	r.Sample(string(c.Data))
	err := ejson.Unmarshal(c.Data, &b)
	// Also without the checks of the JSON package.
	var b2 hclpack.Body
	_ = b2.UnmarshalJSON(c.Data)
	if err != nil {
		r.Label("rejected")
		r.NonTrivialIf(len(c.Data) > 10)
		return nil
	}
	r.Label("accepted")
	r.NonTrivialIf(len(b.Attributes)+len(b.ChildBlocks) > 0)
	useBody(&b, evalCtx(c.Scope.Map()), 3)
	enc, err := ejson.Marshal(&b)
	if err != nil {
		return errf("body cannot be marshalled again: %s", err)
	}
	var again hclpack.Body
	if err := ejson.Unmarshal(enc, &again); err != nil {
		return errf("marshalled body is rejected: %s\n%s", err, enc)
	}
	return nil
}

// corruptCase damages the marshalled form of a real file.
type corruptCase struct {
	File  packFile `json:"file"`
	Edits []struct {
		Path int    `json:"path"`
		K    string `json:"k"`
		I    int    `json:"i"`
		S    string `json:"s"`
	} `json:"edits"`
	Scope model.Scope `json:"scope"`
}

func genCorrupt(t *rapid.T) corruptCase {
	c := corruptCase{Scope: model.GenScopeN(t, genScopeOpts(), 1)}
	c.File = genPackFile(t, c.Scope, "a.hcl")
	c.Edits = append(c.Edits, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) (e struct {
		Path int    `json:"path"`
		K    string `json:"k"`
		I    int    `json:"i"`
		S    string `json:"s"`
	}) {
		e.Path = model.Int(t, 0, 60, "path")
		e.K = model.Pick(t, []string{"cut", "byte", "drop", "set", "null", "swap", "empty"})
		e.I = model.Int(t, 0, 100, "i")
		e.S = model.Pick(t, []string{"AA", "AgQ", "zzzz", "gICAgICAgICAAQ", "Ow", "fw", "AQ", "////", "f///", ""})
		return e
	}), 1, 4).Draw(t, "edits")...)
	return c
}

func checkCorrupt(c corruptCase, r *engine.Rec) error {
	src := []byte(c.File.text())
	b, diags := hclpack.PackNativeFile(src, c.File.Name, c.File.Start)
	if diags.HasErrors() {
		return errf("valid configuration not packed: %s", diagStr(diags))
	}
	enc, err := ejson.Marshal(b)
	if err != nil {
		return err
	}
	var tree interface{}
	if err := ejson.Unmarshal(enc, &tree); err != nil {
		return errf("marshalling gives invalid JSON: %s", err)
	}
	for _, e := range c.Edits {
		// All places that hold a value, in a fixed order.
		var sets []func(interface{})
		var vals []interface{}
		var walk func(x interface{})
		walk = func(x interface{}) {
			switch x := x.(type) {
			case map[string]interface{}:
				var ks []string
				for k := range x {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					k := k
					sets = append(sets, func(v interface{}) { x[k] = v })
					vals = append(vals, x[k])
					walk(x[k])
				}
			case []interface{}:
				for i := range x {
					i := i
					sets = append(sets, func(v interface{}) { x[i] = v })
					vals = append(vals, x[i])
					walk(x[i])
				}
			}
		}
		walk(tree)
		if len(sets) == 0 {
			break
		}
		i := e.Path % len(sets)
		s, isStr := vals[i].(string)
		switch {
		case e.K == "null":
			sets[i](nil)
		case e.K == "swap":
			var copied interface{}
			if enc, err := ejson.Marshal(vals[e.I%len(vals)]); err == nil && len(enc) < 4000 && ejson.Unmarshal(enc, &copied) == nil {
				sets[i](copied)
			}
		case e.K == "empty":
			sets[i]("")
		case !isStr:
			sets[i](e.S)
		case e.K == "cut":
			sets[i](s[:e.I*len(s)/101])
		case e.K == "byte" && len(s) > 0:
			bs := []byte(s)
			bs[e.I%len(bs)] = "Az/+9;"[e.I%6]
			sets[i](string(bs))
		case e.K == "drop" && len(s) > 0:
			j := e.I % len(s)
			sets[i](s[:j] + s[j+1:])
		default:
			sets[i](e.S)
		}
	}
	data, err := ejson.Marshal(tree)
	if err != nil {
		return err
	}
	return checkUnpack(unpackCase{Scope: c.Scope, Data: data, Kind: fmt.Sprintf("%d corruptions", len(c.Edits))}, r)
}

// directCase builds bodies through the public types.
func genDirect(t *rapid.T) unpackCase {
	c := unpackCase{Scope: model.GenScopeN(t, genScopeOpts(), 1), Kind: "source"}
	p := &pkGen{t: t, g: model.NewGen(t, c.Scope, 5)}
	s, _ := p.source()
	c.Data = []byte(fmt.Sprint(s))
	return c
}

func checkDirect(c unpackCase, r *engine.Rec) error {
	useBody(&hclpack.Body{}, nil, 1)
	for _, st := range []hclpack.ExprSourceType{hclpack.ExprNative, hclpack.ExprTemplate, hclpack.ExprLiteralJSON, 0, 'x'} {
		b := &hclpack.Body{Attributes: map[string]hclpack.Attribute{"a": {Expr: hclpack.Expression{Source: c.Data, SourceType: st}}}}
		b.ChildBlocks = []hclpack.Block{{Type: "blk", Body: *b}, {Type: "blk", Labels: []string{"l"}}}
		useBody(b, evalCtx(c.Scope.Map()), 2)
		if st == hclpack.ExprNative {
			attrs, _ := b.JustAttributes()
			_, _ = attrs["a"].Expr.Value(evalCtx(c.Scope.Map()))
			_, pd := hclsyntax.ParseExpression(c.Data, "", hcl.Pos{})
			if !pd.HasErrors() {
				r.NonTrivial()
				r.Label("valid source")
			}
		}
	}
	r.Sample(string(c.Data))
	return nil
}

func init() {
	engine.Add("C28", "structures", "the data is accepted and has items, or is rejected and longer than ten bytes", 60000, genUnpack, checkUnpack)
	engine.Add("C28", "corruptions", "the data is accepted and has items, or is rejected and longer than ten bytes", 30000, genCorrupt, checkCorrupt)
	engine.Add("C28", "direct", "the source is a valid expression", 20000, genDirect, checkDirect)
}
