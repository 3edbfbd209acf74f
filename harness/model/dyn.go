package model

import (
	"pgregory.net/rapid"
)

// Dyn describes a block that is written as a "dynamic" block. The labels of
// the item are ignored then.
type Dyn struct {
	Each   *Expr   `json:"each"`
	Iter   string  `json:"iter,omitempty"` // custom iterator name
	Labels []*Expr `json:"labels,omitempty"`
	// Named says that the labels argument is written even if it is empty.
	Named bool `json:"named,omitempty"`
	// Odd says that the block does not fit the schema, so that it is not
	// decided what happens if there are no iterations.
	Odd bool `json:"odd,omitempty"`
	// Ord rotates the items of the dynamic block.
	Ord int `json:"ord,omitempty"`
	// Form changes the dynamic block itself: "" well-formed, or the name of
	// what is wrong with it.
	Form string `json:"form,omitempty"`
}

// IterName is the name of the iterator.
func (it *Item) IterName() string {
	if it.Gen.Iter != "" {
		return it.Gen.Iter
	}
	return it.Name
}

// RawDyn writes the generated blocks as "dynamic" blocks.
func (b *Body) RawDyn() *Body {
	ret := &Body{}
	for _, it := range b.Items {
		if it.IsAttr() {
			ret.Items = append(ret.Items, it)
			continue
		}
		c := *it
		c.Gen = nil
		c.Body = it.Body.RawDyn()
		if it.Gen == nil {
			ret.Items = append(ret.Items, &c)
			continue
		}
		d := &Item{Name: "dynamic", Labels: []string{it.Name}, Body: &Body{}}
		g := it.Gen
		add := func(x *Item) { d.Body.Items = append(d.Body.Items, x) }
		if g.Form != "no for_each" {
			add(&Item{Name: "for_each", X: g.Each})
		}
		if g.Iter != "" {
			x := &Expr{K: "var", S: g.Iter}
			if g.Form == "long iterator" {
				x = &Expr{K: "attr", S: "x", Xs: []*Expr{x}}
			}
			if g.Form == "wrong iterator" {
				x = &Expr{K: "call", S: "upper", Xs: []*Expr{x}}
			}
			add(&Item{Name: "iterator", X: x, Static: true})
		}
		if len(g.Labels) > 0 || g.Named {
			x := &Expr{K: "tuple", Xs: g.Labels}
			if g.Form == "wrong labels" {
				x = NumLit("1")
			}
			add(&Item{Name: "labels", X: x, Static: true})
		}
		c.Name, c.Labels = "content", nil
		if g.Form != "no content" {
			add(&c)
		}
		if g.Form == "two contents" {
			add(&Item{Name: "content", Body: &Body{}})
		}
		if g.Form == "extra argument" {
			add(&Item{Name: "other", X: NumLit("1")})
		}
		if n := len(d.Body.Items); n > 0 {
			k := g.Ord % n
			d.Body.Items = append(append([]*Item(nil), d.Body.Items[k:]...), d.Body.Items[:k]...)
		}
		ret.Items = append(ret.Items, d)
	}
	return ret
}

// Rename returns the expression with free variables renamed.
func (e *Expr) Rename(m map[string]string) *Expr {
	if e == nil || len(m) == 0 {
		return e
	}
	c := *e
	if e.K == "var" {
		if n, ok := m[e.S]; ok {
			c.S = n
		}
		return &c
	}
	in := m
	if e.K == "for" {
		in = without(m, e.KV, e.VV)
	}
	c.Xs = make([]*Expr, len(e.Xs))
	for i, x := range e.Xs {
		if e.K == "for" && i > 0 {
			c.Xs[i] = x.Rename(in)
		} else {
			c.Xs[i] = x.Rename(m)
		}
	}
	c.Keys = make([]ObjKey, len(e.Keys))
	for i, k := range e.Keys {
		c.Keys[i] = k
		if k.K != "id" {
			c.Keys[i].X = k.X.Rename(m)
		}
	}
	c.Key, c.Cond = e.Key.Rename(in), e.Cond.Rename(in)
	if e.T != nil {
		t := *e.T
		t.Parts = renameParts(e.T.Parts, m)
		c.T = &t
	}
	return &c
}

func renameParts(ps []Part, m map[string]string) []Part {
	out := make([]Part, len(ps))
	for i, p := range ps {
		in := m
		if p.K == "for" {
			in = without(m, p.KV, p.VV)
		}
		p.X = p.X.Rename(m)
		p.Then, p.Else = renameParts(p.Then, in), renameParts(p.Else, in)
		out[i] = p
	}
	return out
}

func without(m map[string]string, names ...string) map[string]string {
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	for _, n := range names {
		delete(c, n)
	}
	return c
}

// DynGen makes dynamic blocks.
type DynGen struct {
	T   *rapid.T
	G   *Gen
	Bad int
	// BadFn decides on violations in place of Bad.
	BadFn func() bool
	// Unk lists variables that hold unknown collections.
	Unk []string
}

// Wrap turns a block into a dynamic block of about n iterations (any number
// if n is negative) whose labels and body are drawn by f with the iterator in
// scope.
func (d *DynGen) Wrap(it *Item, n, labels int, label func() *Expr, f func()) {
	t, g := d.T, d.G
	dy := &Dyn{Ord: Int(t, 0, 3, "ord")}
	var val, key Val
	g.budget = 10
	bad := d.bad()
	switch {
	case bad && Chance(t, 50):
		dy.Each = Pick(t, []*Expr{{K: "null"}, NumLit("1"), StrLit("s"), {K: "bool", S: "true"}, {K: "var", S: "nosuch"}})
		val = Val{K: "num", S: "1"}
		key = val
	case len(d.Unk) > 0 && Chance(t, 15):
		dy.Each = &Expr{K: "var", S: Pick(t, d.Unk)}
		val, key = Val{K: "num", S: "1"}, Val{K: "num", S: "1"}
	case n < 0:
		dy.Each, val, key = g.coll(1)
		if Chance(t, 12) {
			// A collection computed from another one.
			dy.Each = &Expr{K: "for", S: "tuple", VV: "q", Xs: []*Expr{dy.Each, {K: "var", S: "q"}}}
			key = Val{K: "num", S: "0"}
		}
	default:
		h := Pick(t, []string{"num", "str", "bool"})
		val, key = Val{K: h, S: "1"}, Val{K: "num", S: "0"}
		if Chance(t, 60) {
			dy.Each = &Expr{K: "tuple"}
			for i := 0; i < n; i++ {
				dy.Each.Xs = append(dy.Each.Xs, g.Expr(h, 1))
			}
		} else {
			dy.Each = &Expr{K: "obj"}
			key = Val{K: "str", S: "a"}
			for _, k := range []string{"z", "b", "é", "a", "c d", "k10", "k9", "k8", "k7", "k6", "k5", "k4", "k3", "k2", "k1", "y", "x", "w", "v", "u"}[:n] {
				dy.Each.Keys = append(dy.Each.Keys, ObjKey{K: "x", X: StrLit(k)})
				dy.Each.Xs = append(dy.Each.Xs, g.Expr(h, 1))
			}
		}
	}
	if Chance(t, 40) {
		dy.Iter = Pick(t, []string{"it", "each", "n", "s", "key", "other", "lo", "é1"})
	}
	it.Gen = dy
	if bad && dy.Each.K != "null" {
		forms := []string{"no for_each", "no content", "two contents", "extra argument", ""}
		if dy.Iter != "" {
			forms = append(forms, "long iterator", "wrong iterator")
		}
		if labels > 0 {
			forms = append(forms, "wrong labels")
		}
		dy.Form = Pick(t, forms)
	}
	ex := Val{K: "obj", Keys: []string{"key", "value"}, L: []Val{key, val}}
	it.Labels = nil
	g.with([]Var{{it.IterName(), ex}}, func() {
		for i := 0; i < labels; i++ {
			dy.Labels = append(dy.Labels, label())
		}
		old := g.iters
		g.iters = append(append([]iterVar(nil), old...), iterVar{it.IterName(), key, val})
		f()
		g.iters = old
	})
}

type iterVar struct {
	name     string
	key, val Val
}

// iterRef is sometimes a reference to an iterator in scope.
func (g *Gen) iterRef(hint string) *Expr {
	if len(g.iters) == 0 || !Chance(g.T, 55) {
		return nil
	}
	var xs []*Expr
	for _, it := range g.iters {
		visible := true
		for _, v := range g.Scope {
			if v.Name == it.name {
				visible = len(v.Ex.Keys) == 2 && v.Ex.Keys[1] == "value"
				break
			}
		}
		if !visible {
			continue
		}
		if hint == "any" && Chance(g.T, 15) {
			return &Expr{K: "var", S: it.name}
		}
		for i, v := range []Val{it.key, it.val} {
			h := hintOf(v)
			if h == hint || hint == "any" || hint == "str" && (h == "num" || h == "bool") {
				xs = append(xs, &Expr{K: "attr", S: []string{"key", "value"}[i], Xs: []*Expr{{K: "var", S: it.name}}})
			}
		}
	}
	if len(xs) == 0 {
		return nil
	}
	x := Pick(g.T, xs)
	if hint == "str" && Chance(g.T, 30) {
		return &Expr{K: "tmpl", T: &Tmpl{Style: "quoted", Parts: []Part{{K: "lit", S: "v="}, {K: "interp", X: x}}}}
	}
	return x
}

// IterRef is a reference to a part of the innermost iterator.
func (it *Item) IterRef(part string) *Expr {
	return &Expr{K: "attr", S: part, Xs: []*Expr{{K: "var", S: it.IterName()}}}
}

// Item draws a small expression that prefers references.
func (g *Gen) Item(depth int) *Expr {
	g.budget = 10
	h := Pick(g.T, []string{"num", "str", "bool", "any"})
	if x := g.iterRef(h); x != nil {
		return x
	}
	return g.Expr(h, depth)
}

func (d *DynGen) bad() bool {
	if d.BadFn != nil {
		return d.BadFn()
	}
	return d.Bad > 0 && Chance(d.T, d.Bad)
}
