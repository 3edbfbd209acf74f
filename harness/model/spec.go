package model

import (
	"fmt"

	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"github.com/zclconf/go-cty/cty/function"
	"pgregory.net/rapid"
)

// Spec is a serialisable decoding specification.
type Spec struct {
	// obj tuple attr lit expr block list btuple set map bobj attrs label
	// default texpr tfunc
	K      string   `json:"k"`
	Name   string   `json:"name,omitempty"`  // attribute name, block type, label name, function
	Names  []string `json:"names,omitempty"` // obj keys; label names of map and bobj
	Subs   []*Spec  `json:"subs,omitempty"`  // elements, nested, wrapped, primary and default
	Ty     *Ty      `json:"ty,omitempty"`
	Req    bool     `json:"req,omitempty"`
	Min    int      `json:"min,omitempty"`
	Max    int      `json:"max,omitempty"`
	Index  int      `json:"index,omitempty"`
	V      *Val     `json:"v,omitempty"`
	X      *Expr    `json:"x,omitempty"`
	TScope Scope    `json:"tscope,omitempty"` // scope of a transform expression
}

// IsBlock says whether the specification consumes blocks.
func (s *Spec) IsBlock() bool {
	switch s.K {
	case "block", "list", "btuple", "set", "map", "bobj", "attrs":
		return true
	}
	return false
}

// Nested is the specification of the block bodies.
func (s *Spec) Nested() *Spec { return s.Subs[0] }

// Same visits the specification and all others applied to the same body.
func (s *Spec) Same(f func(*Spec)) {
	f(s)
	switch s.K {
	case "obj", "tuple", "default", "texpr", "tfunc":
		for _, x := range s.Subs {
			x.Same(f)
		}
	}
}

// Walk visits all specifications.
func (s *Spec) Walk(f func(*Spec)) {
	f(s)
	for _, x := range s.Subs {
		x.Walk(f)
	}
}

// OwnLabels is the number of labels the specification asks of the block whose
// body it decodes.
func (s *Spec) OwnLabels() int {
	n := 0
	s.Same(func(x *Spec) {
		if x.K == "label" && x.Index >= n {
			n = x.Index + 1
		}
	})
	return n
}

// BlockLabels is the number of labels of the blocks of a block specification.
func (s *Spec) BlockLabels() int {
	switch s.K {
	case "attrs":
		return 0
	case "map", "bobj":
		return len(s.Names) + s.Nested().OwnLabels()
	}
	return s.Nested().OwnLabels()
}

// Schema is what the specification asks of a body.
func (s *Spec) Schema() Schema {
	var sc Schema
	ai, bi := map[string]int{}, map[string]bool{}
	s.Same(func(x *Spec) {
		switch {
		case x.K == "attr":
			if i, ok := ai[x.Name]; ok {
				sc.Attrs[i].Req = sc.Attrs[i].Req || x.Req
			} else {
				ai[x.Name] = len(sc.Attrs)
				sc.Attrs = append(sc.Attrs, SAttr{Name: x.Name, Req: x.Req})
			}
		case x.IsBlock() && !bi[x.Name]:
			bi[x.Name] = true
			sc.Blocks = append(sc.Blocks, SBlock{Type: x.Name, Labels: x.BlockLabels()})
		}
	})
	return sc
}

// SpecFuncs are the functions used by function transforms.
var SpecFuncs = map[string]function.Function{
	"size": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "s", Type: cty.String}},
		Type:   function.StaticReturnType(cty.Number),
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			n := len(args[0].AsString())
			if n > 12 {
				return cty.NilVal, fmt.Errorf("too long")
			}
			return cty.NumberIntVal(int64(n)), nil
		},
	}),
	"pair": function.New(&function.Spec{
		Params: []function.Parameter{{Name: "v", Type: cty.DynamicPseudoType, AllowNull: true, AllowUnknown: true, AllowDynamicType: true}},
		Type: func(args []cty.Value) (cty.Type, error) {
			return cty.Tuple([]cty.Type{args[0].Type(), args[0].Type()}), nil
		},
		Impl: func(args []cty.Value, _ cty.Type) (cty.Value, error) {
			return cty.TupleVal([]cty.Value{args[0], args[0]}), nil
		},
	}),
}

// Type is the implied type.
func (s *Spec) Type() cty.Type {
	switch s.K {
	case "obj":
		m := map[string]cty.Type{}
		for i, n := range s.Names {
			m[n] = s.Subs[i].Type()
		}
		return cty.Object(m)
	case "tuple":
		ts := []cty.Type{}
		for _, x := range s.Subs {
			ts = append(ts, x.Type())
		}
		return cty.Tuple(ts)
	case "attr":
		return s.Ty.Cty()
	case "lit":
		return s.V.Cty().Type()
	case "expr", "btuple", "bobj":
		return cty.DynamicPseudoType
	case "block", "default":
		return s.Subs[0].Type()
	case "list":
		return cty.List(s.Nested().Type())
	case "set":
		return cty.Set(s.Nested().Type())
	case "map":
		ty := s.Nested().Type()
		for range s.Names {
			ty = cty.Map(ty)
		}
		return ty
	case "attrs":
		return cty.Map(s.Ty.Cty())
	case "label":
		return cty.String
	case "texpr":
		switch s.X.K {
		case "bin":
			return cty.Number
		case "tmpl":
			return cty.String
		case "obj":
			return cty.Object(map[string]cty.Type{"w": s.Subs[0].Type()})
		}
		return cty.Tuple([]cty.Type{cty.Number, s.Subs[0].Type()})
	case "tfunc":
		ty, err := SpecFuncs[s.Name].ReturnType([]cty.Type{s.Subs[0].Type()})
		if err != nil {
			return cty.DynamicPseudoType
		}
		return ty
	}
	panic("bad spec " + s.K)
}

// TransVar is the variable that holds the value to transform.
const TransVar = "nested"

func (s *Spec) tenv(v cty.Value) *Env {
	return &Env{Vars: map[string]cty.Value{TransVar: v}, Parent: s.TScope.Env()}
}

// RefDecode is the result of the reference decoder.
type RefDecode struct {
	Errs  []string
	Undet error // set when the reference does not decide the result
	// Free lists the references of the evaluated expressions.
	Free []FreePath
	// EmptyDeep is set when a map with several label levels has no blocks.
	EmptyDeep bool
	// Flat gives empty maps with several label levels the type of a map with
	// one level.
	Flat bool
}

func (r *RefDecode) fail(f string, a ...interface{}) {
	r.Errs = append(r.Errs, fmt.Sprintf(f, a...))
}

// sameTypes says whether values can be in the same map.
func sameTypes(m map[string]cty.Value) bool {
	ty := cty.DynamicPseudoType
	for _, v := range m {
		switch vt := v.Type(); {
		case vt == cty.DynamicPseudoType:
		case ty == cty.DynamicPseudoType:
			ty = vt
		case !vt.Equals(ty):
			return false
		}
	}
	return true
}

// Decode is the reference decoder. The value counts only if there are no
// errors and the outcome is determined.
func (s *Spec) Decode(b *Body, env *Env, partial bool) (cty.Value, *RefDecode) {
	r := &RefDecode{}
	v := r.body(s, b, nil, env, partial)
	return v, r
}

// DecodeFlat is Decode with the Flat behaviour.
func (s *Spec) DecodeFlat(b *Body, env *Env, partial bool) (cty.Value, *RefDecode) {
	r := &RefDecode{Flat: true}
	v := r.body(s, b, nil, env, partial)
	return v, r
}

func (r *RefDecode) body(s *Spec, b *Body, labels []string, env *Env, partial bool) cty.Value {
	rc := b.Apply(s.Schema(), partial, NewHidden())
	r.Errs = append(r.Errs, rc.Errs...)
	return r.spec(s, rc, labels, env)
}

func (r *RefDecode) eval(x *Expr, env *Env) cty.Value {
	r.Free = append(r.Free, x.Free()...)
	v, err := evalKnown(x, env)
	if isUndet(err) {
		if r.Undet == nil || err == ErrDependency {
			r.Undet = err
		}
		return cty.DynamicVal
	}
	if err != nil {
		r.fail("%s", err)
		return cty.DynamicVal
	}
	return v
}

// evalKnown does not decide evaluations that meet unknown values.
func evalKnown(x *Expr, env *Env) (v cty.Value, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = ErrUndetermined
		}
	}()
	v, err = x.Eval(env)
	return
}

func (r *RefDecode) convert(v cty.Value, ty cty.Type) cty.Value {
	c, err := safeConvert(v, ty)
	if isUndet(err) {
		r.Undet = err
		return cty.UnknownVal(ty)
	}
	if err != nil {
		r.fail("conversion: %s", err)
		return cty.UnknownVal(ty)
	}
	return c
}

// unify brings values to one type.
func (r *RefDecode) unify(vs []cty.Value, what string) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			r.Undet = ErrDependency
			ok = false
		}
	}()
	tys := make([]cty.Type, len(vs))
	for i, v := range vs {
		tys[i] = v.Type()
	}
	ty, convs := convert.UnifyUnsafe(tys)
	if ty == cty.NilType {
		r.fail("inconsistent types in %s", what)
		return false
	}
	for i := range vs {
		if convs[i] == nil {
			continue
		}
		v, err := convs[i](vs[i])
		if err != nil {
			r.fail("inconsistent types in %s: %s", what, err)
			return false
		}
		vs[i] = v
	}
	for _, v := range vs {
		if !v.Type().Equals(vs[0].Type()) {
			// What the dependency makes of this is not decided here.
			if r.Undet == nil {
				r.Undet = ErrUndetermined
			}
			return false
		}
	}
	return true
}

func (r *RefDecode) guard(ty cty.Type, f func() cty.Value) (v cty.Value) {
	defer func() {
		if p := recover(); p != nil {
			r.Undet = ErrDependency
			v = cty.UnknownVal(ty)
		}
	}()
	return f()
}

func (r *RefDecode) spec(s *Spec, rc RefContent, labels []string, env *Env) cty.Value {
	var blocks []*Item
	if s.IsBlock() {
		for _, it := range rc.Blocks {
			if it.Name == s.Name {
				blocks = append(blocks, it)
			}
		}
	}
	switch s.K {
	case "obj":
		m := map[string]cty.Value{}
		for i, n := range s.Names {
			m[n] = r.spec(s.Subs[i], rc, labels, env)
		}
		return cty.ObjectVal(m)
	case "tuple":
		vs := []cty.Value{}
		for _, x := range s.Subs {
			vs = append(vs, r.spec(x, rc, labels, env))
		}
		return cty.TupleVal(vs)
	case "attr":
		it := rc.Attrs[s.Name]
		if it == nil {
			return cty.NullVal(s.Ty.Cty())
		}
		return r.convert(r.eval(it.X, env), s.Ty.Cty())
	case "lit":
		return s.V.Cty()
	case "expr":
		return r.eval(s.X, env)
	case "block":
		if len(blocks) == 0 {
			if s.Req {
				r.fail("missing block %s", s.Name)
			}
			return cty.NullVal(s.Type())
		}
		if len(blocks) > 1 {
			r.fail("duplicate block %s", s.Name)
		}
		return r.body(s.Nested(), blocks[0].Body, blocks[0].Labels, env, false)
	case "list", "set", "btuple":
		vs := []cty.Value{}
		for _, it := range blocks {
			vs = append(vs, r.body(s.Nested(), it.Body, it.Labels, env, false))
		}
		if len(vs) < s.Min {
			r.fail("%d of %d blocks %s", len(vs), s.Min, s.Name)
		}
		if s.Max > 0 && len(vs) > s.Max {
			r.fail("%d blocks %s, no more than %d allowed", len(vs), s.Name, s.Max)
		}
		if s.K == "btuple" {
			return cty.TupleVal(vs)
		}
		if len(vs) == 0 {
			if s.K == "list" {
				return cty.ListValEmpty(s.Nested().Type())
			}
			return cty.SetValEmpty(s.Nested().Type())
		}
		if !r.unify(vs, s.Name) {
			return cty.UnknownVal(s.Type())
		}
		return r.guard(s.Type(), func() cty.Value {
			if s.K == "list" {
				return cty.ListVal(vs)
			}
			return cty.SetVal(vs)
		})
	case "map", "bobj":
		type node struct {
			v    cty.Value
			subs map[string]*node
		}
		root := &node{subs: map[string]*node{}}
		n := len(s.Names)
		if s.K == "map" && n > 1 && len(blocks) == 0 {
			r.EmptyDeep = true
		}
		for _, it := range blocks {
			v := r.body(s.Nested(), it.Body, it.Labels[n:], env, false)
			at := root
			for i, l := range it.Labels[:n] {
				next := at.subs[l]
				if next == nil {
					next = &node{subs: map[string]*node{}, v: v}
					at.subs[l] = next
				} else if i == n-1 {
					r.fail("duplicate block %s", s.Name)
				}
				at = next
			}
		}
		var conv func(x *node, depth int, ty cty.Type) cty.Value
		conv = func(x *node, depth int, ty cty.Type) cty.Value {
			if depth == 0 {
				return x.v
			}
			if s.K == "map" {
				if len(x.subs) == 0 {
					if r.Flat {
						return cty.MapValEmpty(s.Nested().Type())
					}
					return cty.MapValEmpty(ty.ElementType())
				}
				ety := ty.ElementType()
				m := map[string]cty.Value{}
				for k, c := range x.subs {
					m[k] = conv(c, depth-1, ety)
				}
				if sameTypes(m) {
					return cty.MapVal(m)
				}
				r.fail("inconsistent types in %s", s.Name)
				return cty.DynamicVal
			}
			m := map[string]cty.Value{}
			for k, c := range x.subs {
				m[k] = conv(c, depth-1, ty)
			}
			return cty.ObjectVal(m)
		}
		return r.guard(s.Type(), func() cty.Value { return conv(root, n, s.Type()) })
	case "attrs":
		if len(blocks) == 0 {
			if s.Req {
				r.fail("missing block %s", s.Name)
			}
			return cty.NullVal(s.Type())
		}
		if len(blocks) > 1 {
			r.fail("duplicate block %s", s.Name)
		}
		m := map[string]cty.Value{}
		var keys []string
		for _, it := range blocks[0].Body.Items {
			if !it.IsAttr() {
				r.fail("block %s in attributes", it.Name)
				continue
			}
			keys = append(keys, it.Name)
			m[it.Name] = r.convert(r.eval(it.X, env), s.Ty.Cty())
		}
		if len(keys) == 0 {
			return cty.MapValEmpty(s.Ty.Cty())
		}
		vs := make([]cty.Value, len(keys))
		for i, k := range keys {
			vs[i] = m[k]
		}
		if !r.unify(vs, s.Name) {
			return cty.UnknownVal(s.Type())
		}
		for i, k := range keys {
			m[k] = vs[i]
		}
		return r.guard(s.Type(), func() cty.Value { return cty.MapVal(m) })
	case "label":
		return cty.StringVal(labels[s.Index])
	case "default":
		v := r.spec(s.Subs[0], rc, labels, env)
		before, undet := len(r.Errs), r.Undet
		d := r.spec(s.Subs[1], rc, labels, env)
		if v.IsNull() {
			return d
		}
		// The default is not evaluated, though its references count.
		r.Errs, r.Undet = r.Errs[:before], undet
		return v
	case "texpr":
		before := len(r.Errs)
		v := r.spec(s.Subs[0], rc, labels, env)
		if len(r.Errs) > before || r.Undet != nil {
			return cty.DynamicVal
		}
		free := r.Free
		res := r.eval(s.X, s.tenv(v))
		r.Free = free
		return res
	case "tfunc":
		before := len(r.Errs)
		v := r.spec(s.Subs[0], rc, labels, env)
		if len(r.Errs) > before || r.Undet != nil {
			return cty.DynamicVal
		}
		res, err := SpecFuncs[s.Name].Call([]cty.Value{v})
		if err != nil {
			r.fail("%s", err)
			return cty.DynamicVal
		}
		return res
	}
	panic("bad spec " + s.K)
}

// ---- generation ----

// SpecGen draws specifications and bodies for them.
type SpecGen struct {
	// Dyn is the percentage of dynamic blocks.
	Dyn int
	// Unk lists unknown collections.
	Unk   []string
	T     *rapid.T
	G     *Gen
	Scope Scope
	// Bad is the chance in percent of each kind of violation.
	Bad int
	// Once stops after the first violation.
	Once bool
	done bool
	// Labels draws block labels.
	Labels func(t *rapid.T) string
	// Plain leaves out specifications that do not look at the body.
	Plain bool
	// Cmd leaves out specifications that the specification file of the
	// hcldec command can not express.
	Cmd bool
}

type specCtx struct {
	attrs, blocks []string
	labels        int // labels available in the block being decoded
	nodyn         bool
}

var specAttrs = []string{"a", "b", "foo", "bar", "with-dash", "é1", "for", "count"}
var specBlocks = []string{"blk", "svc", "rule", "日本", "net-if", "item", "in"}

// Spec draws a specification for a file body.
func (g *SpecGen) Spec(depth int) *Spec { return g.bodySpec(depth, 0, false) }

func (g *SpecGen) bodySpec(depth, labels int, nodyn bool) *Spec {
	c := &specCtx{labels: labels, nodyn: nodyn}
	c.attrs = rapid.Permutation(specAttrs).Draw(g.T, "attrs")
	c.blocks = rapid.Permutation(specBlocks).Draw(g.T, "blocks")
	var s *Spec
	if Chance(g.T, 85) {
		s = &Spec{K: "obj"}
		names := []string{"x", "y", "name", "é", "a b", "value"}[:Int(g.T, 0, 6, "fields")]
		s.Names = names
		for range names {
			s.Subs = append(s.Subs, g.item(c, depth))
		}
	} else {
		s = g.item(c, depth)
	}
	// Every index must be used.
	have := s.OwnLabels()
	if have < labels || have > 0 {
		used := map[int]bool{}
		s.Same(func(x *Spec) {
			if x.K == "label" {
				used[x.Index] = true
			}
		})
		var miss []*Spec
		for i := 0; i < labels; i++ {
			if !used[i] {
				miss = append(miss, &Spec{K: "label", Index: i, Name: fmt.Sprintf("l%d", i)})
			}
		}
		if len(miss) > 0 {
			if s.K != "obj" {
				s = &Spec{K: "obj", Names: []string{"main"}, Subs: []*Spec{s}}
			}
			for _, m := range miss {
				s.Names = append(s.Names, m.Name)
				s.Subs = append(s.Subs, m)
			}
		}
	}
	return s
}

func (g *SpecGen) ty(depth int, nodyn bool) *Ty {
	ty := GenTy(g.T, depth, !nodyn)
	return &ty
}

func (g *SpecGen) attr(c *specCtx) *Spec {
	n := c.attrs[0]
	if len(c.attrs) > 1 && Chance(g.T, 90) {
		c.attrs = c.attrs[1:]
	}
	return &Spec{K: "attr", Name: n, Ty: g.ty(2, c.nodyn), Req: Chance(g.T, 30)}
}

// Static replaces placeholders by a concrete type.
func (t Ty) Static() Ty {
	if t.K == "dyn" {
		return Ty{K: "str"}
	}
	if t.E != nil {
		e := t.E.Static()
		t.E = &e
	}
	elems := make([]Ty, len(t.Elems))
	for i, e := range t.Elems {
		elems[i] = e.Static()
	}
	t.Elems = elems
	return t
}

func (g *SpecGen) lit(ty Ty) *Spec {
	o := PlainOpts()
	o.Null = 8
	v := o.ValOf(g.T, ty.Static())
	return &Spec{K: "lit", V: &v}
}

func (g *SpecGen) item(c *specCtx, depth int) *Spec {
	t := g.T
	w := []int{10, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 1, 1, 3, 2, 1}
	kinds := []string{"attr", "lit", "expr", "tuple", "block", "list", "set", "map", "btuple", "bobj", "attrs", "label", "obj", "default", "texpr", "tfunc"}
	for i, k := range kinds {
		switch k {
		case "block", "list", "set", "map", "attrs":
			if g.Dyn > 0 {
				w[i] *= 4
			}
			if depth <= 0 || len(c.blocks) == 0 {
				w[i] = 0
			}
		case "btuple", "bobj":
			if g.Dyn > 0 {
				w[i] *= 4
			}
			if depth <= 0 || c.nodyn || len(c.blocks) == 0 {
				w[i] = 0
			}
		case "obj", "tuple":
			if depth <= 0 {
				w[i] = 0
			}
		case "label":
			if c.labels == 0 {
				w[i] = 0
			} else {
				w[i] = 5
			}
		case "expr":
			if c.nodyn || g.Plain {
				w[i] = 0
			}
		case "lit", "texpr", "tfunc":
			if g.Plain {
				w[i] = 0
			}
		}
		switch k {
		case "expr", "label", "btuple", "bobj", "tfunc":
			if g.Cmd {
				w[i] = 0
			}
		}
	}
	k := kinds[Weighted(t, w...)]
	switch k {
	case "attr":
		return g.attr(c)
	case "lit":
		return g.lit(*g.ty(1, true))
	case "expr":
		return &Spec{K: "expr", X: g.G.Expr(Pick(t, hints), 1)}
	case "label":
		i := Int(t, 0, c.labels-1, "index")
		return &Spec{K: "label", Index: i, Name: fmt.Sprintf("l%d", i)}
	case "obj", "tuple":
		s := &Spec{K: k}
		for i := Count(t, 0, 3); i > 0; i-- {
			if k == "obj" {
				s.Names = append(s.Names, fmt.Sprintf("f%d", i))
			}
			s.Subs = append(s.Subs, g.item(c, depth-1))
		}
		return s
	case "default":
		return g.def(c, depth)
	case "texpr":
		return g.texpr(c, depth)
	case "tfunc":
		s := &Spec{K: "tfunc"}
		if Chance(t, 60) {
			s.Name = "size"
			in := g.attr(c)
			in.Ty = &Ty{K: "str"}
			in.Req = Chance(t, 70)
			s.Subs = []*Spec{in}
			return s
		}
		s.Name = "pair"
		s.Subs = []*Spec{g.item(c, depth-1)}
		return s
	}
	s := &Spec{K: k, Name: c.blocks[0]}
	c.blocks = c.blocks[1:]
	switch k {
	case "attrs":
		s.Ty = g.ty(1, c.nodyn)
		s.Req = Chance(t, 30)
		return s
	case "map", "bobj":
		for i := Weighted(t, 0, 6, 3, 1); i > 0; i-- {
			s.Names = append(s.Names, fmt.Sprintf("key%d", i))
		}
	case "block":
		s.Req = Chance(t, 30)
	default:
		if Chance(t, 30) {
			s.Min = Int(t, 0, 2, "min")
		}
		if Chance(t, 30) {
			s.Max = Int(t, max(s.Min, 1), 3, "max")
		}
	}
	nl := 0
	if !g.Cmd && Chance(t, 35) {
		nl = Int(t, 1, 2, "labels")
	}
	s.Subs = []*Spec{g.bodySpec(depth-1, nl, c.nodyn || k == "map")}
	return s
}

// def draws a default: both sides have the same type.
func (g *SpecGen) def(c *specCtx, depth int) *Spec {
	t := g.T
	if depth > 0 && len(c.blocks) > 0 && Chance(t, 30) {
		// Without the block, there is the default.
		p := &Spec{K: "attrs", Name: c.blocks[0], Ty: g.ty(1, true)}
		ty := Ty{K: "map", E: p.Ty}
		if Chance(t, 60) {
			in := g.attr(&specCtx{attrs: rapid.Permutation(specAttrs).Draw(t, "attrs"), nodyn: c.nodyn})
			p, ty = &Spec{K: "block", Name: c.blocks[0], Subs: []*Spec{in}}, *in.Ty
		}
		c.blocks = c.blocks[1:]
		return &Spec{K: "default", Subs: []*Spec{p, g.lit(ty)}}
	}
	p := g.attr(c)
	if Chance(t, 85) {
		p.Req = false
	}
	s := &Spec{K: "default"}
	switch Weighted(t, 5, 3, 1) {
	case 0:
		s.Subs = []*Spec{p, g.lit(*p.Ty)}
	case 1:
		d := g.attr(c)
		d.Ty = p.Ty
		if g.Cmd {
			// Whether it is required after all is not clear.
			d.Req = false
		}
		s.Subs = []*Spec{p, d}
	default:
		d := g.attr(c)
		d.Ty = p.Ty
		d.Req = false
		s.Subs = []*Spec{p, {K: "default", Subs: []*Spec{d, g.lit(*p.Ty)}}}
	}
	return s
}

// texpr draws an expression transform whose result type does not depend on
// the value.
func (g *SpecGen) texpr(c *specCtx, depth int) *Spec {
	t := g.T
	s := &Spec{K: "texpr"}
	v := &Expr{K: "var", S: TransVar}
	ws := []int{3, 3, 2, 2}
	if g.Cmd {
		ws[3] = 0
	}
	switch Weighted(t, ws...) {
	case 0:
		in := g.attr(c)
		in.Ty = &Ty{K: "num"}
		s.Subs = []*Spec{in}
		s.X = &Expr{K: "bin", S: Pick(t, []string{"+", "-", "*"}), Xs: []*Expr{v, NumLit("2")}}
	case 1:
		in := g.attr(c)
		in.Ty = &Ty{K: "str"}
		s.Subs = []*Spec{in}
		s.X = &Expr{K: "tmpl", T: &Tmpl{Style: "quoted", Parts: []Part{{K: "lit", S: "<"}, {K: "interp", X: v}, {K: "lit", S: ">"}}}}
	case 2:
		s.Subs = []*Spec{g.item(c, depth-1)}
		s.X = &Expr{K: "obj", Keys: []ObjKey{{K: "id", S: "w"}}, Xs: []*Expr{v}}
	default:
		s.Subs = []*Spec{g.item(c, depth-1)}
		s.TScope = Scope{Names: []string{"tc"}, Vals: []Val{{K: "num", S: "7"}}}
		s.X = &Expr{K: "tuple", Xs: []*Expr{{K: "var", S: "tc"}, v}}
	}
	return s
}

// ValExpr writes a value as an expression. Unknown values become null.
func ValExpr(v Val) *Expr {
	switch v.K {
	case "str":
		return StrLit(v.S)
	case "num":
		if v.S[0] == '-' {
			return &Expr{K: "un", S: "-", Xs: []*Expr{NumLit(v.S[1:])}}
		}
		return NumLit(v.S)
	case "bool":
		if v.B {
			return &Expr{K: "bool", S: "true"}
		}
		return &Expr{K: "bool", S: "false"}
	case "list", "set", "tuple":
		e := &Expr{K: "tuple"}
		for _, x := range v.L {
			e.Xs = append(e.Xs, ValExpr(x))
		}
		return e
	case "map", "obj":
		e := &Expr{K: "obj"}
		for i, x := range v.L {
			e.Keys = append(e.Keys, ObjKey{K: "x", X: StrLit(v.Keys[i])})
			e.Xs = append(e.Xs, ValExpr(x))
		}
		return e
	}
	return &Expr{K: "null"}
}

// BadNow decides on a violation.
func (g *SpecGen) BadNow() bool { return g.badly(g.Bad) }

// badly is a violation with the given chance, if violations are wanted.
func (g *SpecGen) badly(pct int) bool {
	if g.Bad == 0 || g.Once && g.done || !Chance(g.T, pct) {
		return false
	}
	g.done = true
	return true
}

// Value draws an expression for an attribute of the given type.
func (g *SpecGen) Value(ty Ty) *Expr {
	t := g.T
	if g.BadNow() {
		return g.G.Expr(Pick(t, hints), 1)
	}
	g.G.budget = 12
	if x := g.G.iterRef(hintOfTy(ty)); x != nil {
		return x
	}
	refs := 4
	if g.Dyn > 0 {
		refs = 10
	}
	switch Weighted(t, 5, refs, 1) {
	case 1:
		h := hintOfTy(ty)
		if ty.K == "str" || ty.K == "num" || ty.K == "bool" || ty.K == "dyn" {
			return g.G.Expr(h, Int(t, 0, 2, "xd"))
		}
		if p, ok := g.G.path(h); ok && Chance(t, 30) {
			return p.x
		}
	case 2:
		if ty.K == "str" {
			return g.G.Expr(Pick(t, []string{"num", "bool"}), 1)
		}
	}
	o := PlainOpts()
	o.Null = 6
	return ValExpr(o.ValOf(t, ty))
}

// Body draws a body for a specification.
func (g *SpecGen) Body(s *Spec) *Body {
	t := g.T
	b := &Body{}
	seen := map[string]bool{}
	s.Same(func(x *Spec) {
		switch {
		case x.K == "attr":
			if seen["a:"+x.Name] {
				return
			}
			seen["a:"+x.Name] = true
			if x.Req && !g.BadNow() || !x.Req && Chance(t, 65) {
				b.Items = append(b.Items, &Item{Name: x.Name, X: g.Value(*x.Ty)})
			}
		case x.IsBlock():
			if seen["b:"+x.Name] {
				return
			}
			seen["b:"+x.Name] = true
			g.blocks(x, b)
		}
	})
	if g.BadNow() {
		b.Items = append(b.Items, &Item{Name: "extra_attr", X: NumLit("1")})
	}
	if g.BadNow() {
		it := &Item{Name: "extra_block", Body: &Body{}}
		if Chance(t, 50) {
			it.Labels = []string{"l"}
		}
		if g.Dyn > 0 && Chance(t, g.Dyn) {
			d := &DynGen{T: t, G: g.G, BadFn: g.BadNow}
			d.Wrap(it, -1, 0, nil, func() {})
			it.Gen.Odd = true
		}
		b.Items = append(b.Items, it)
	}
	if len(b.Items) > 1 {
		idx := make([]int, len(b.Items))
		for i := range idx {
			idx[i] = i
		}
		items := make([]*Item, len(idx))
		for i, j := range rapid.Permutation(idx).Draw(t, "order") {
			items[i] = b.Items[j]
		}
		b.Items = items
	}
	return b
}

func (g *SpecGen) blocks(s *Spec, b *Body) {
	t := g.T
	n := 0
	switch s.K {
	case "block", "attrs":
		if s.Req && !g.BadNow() || Chance(t, 65) {
			n = 1
		}
		if g.BadNow() {
			n = 2
		}
	case "map", "bobj":
		n = Count(t, 0, 3)
		if s.K == "map" && len(s.Names) > 1 && n == 0 && Chance(t, 80) {
			n = 1
		}
	default:
		lo, hi := s.Min, 3
		if s.Max > 0 {
			hi = s.Max
		}
		switch {
		case g.BadNow():
			lo, hi = 0, 4
		case s.Max > 0 && g.badly(20):
			lo, hi = s.Max+1, s.Max+1
		}
		if g.Dyn > 0 && lo == 0 && Chance(t, 80) {
			lo = 1
		}
		if hi < lo {
			hi = lo
		}
		if s.Max > 0 {
			n = Int(t, lo, hi, "blocks")
		} else {
			n = Count(t, lo, hi)
		}
	}
	seen := map[string]bool{}
	for ; n > 0; n-- {
		it := &Item{Name: s.Name, One: Chance(t, 20)}
		nl := s.BlockLabels()
		if g.BadNow() {
			nl = Int(t, 0, 3, "wrong labels")
		}
		if g.Dyn > 0 && Chance(t, g.Dyn) {
			n = g.dynamic(s, it, n, nl)
			b.Items = append(b.Items, it)
			continue
		}
		for i := 0; i < nl; i++ {
			it.Labels = append(it.Labels, g.Labels(t))
		}
		if s.K == "map" || s.K == "bobj" {
			if len(it.Labels) >= len(s.Names) {
				k := fmt.Sprint(it.Labels[:len(s.Names)])
				if seen[k] && !g.BadNow() {
					continue
				}
				seen[k] = true
			}
		}
		it.Body = g.blockBody(s)
		b.Items = append(b.Items, it)
	}
}

func (g *SpecGen) blockBody(s *Spec) *Body {
	t := g.T
	if s.K != "attrs" {
		return g.Body(s.Nested())
	}
	b := &Body{}
	for _, n := range Subset(t, specAttrs, 4) {
		b.Items = append(b.Items, &Item{Name: n, X: g.Value(*s.Ty)})
	}
	if g.BadNow() {
		b.Items = append(b.Items, &Item{Name: "extra_block", Body: &Body{}})
	}
	return b
}

// dynamic makes a dynamic block for up to n blocks and returns how many
// remain.
func (g *SpecGen) dynamic(s *Spec, it *Item, n, labels int) int {
	t := g.T
	d := &DynGen{T: t, G: g.G, BadFn: g.BadNow, Unk: g.Unk}
	k, max := -1, n
	switch {
	case s.K == "block" || s.K == "attrs":
		k, max = 1, n
	case s.Max > 0 || s.Min > 0 || Chance(t, 40):
		k = Int(t, 0, max, "iterations")
		max = max - k + 1
	default:
		max = 1
	}
	first := true
	label := func() *Expr {
		switch {
		case first && (s.K == "map" || s.K == "bobj") && !g.BadNow():
			first = false
			return it.IterRef("key")
		case Chance(t, 40):
			return it.IterRef(Pick(t, []string{"key", "value"}))
		case Chance(t, 40):
			g.G.budget = 4
			return g.G.Expr("str", 1)
		}
		return StrLit(g.Labels(t))
	}
	d.Wrap(it, k, labels, label, func() { it.Body = g.blockBody(s) })
	it.Gen.Odd = labels != s.BlockLabels()
	return max
}
