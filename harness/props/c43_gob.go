package props

import (
	"bytes"
	"encoding/gob"

	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// gobSpec replaces what can not be sent: functions, expressions and, because
// of the value library, the placeholder type and literals that are not
// primitive.
func gobSpec(s *model.Spec) *model.Spec {
	prim := func(v *model.Val) bool {
		switch v.K {
		case "str", "num", "bool":
			return true
		}
		return v.K == "null" && v.Cty().Type().IsPrimitiveType()
	}
	switch s.K {
	case "texpr", "tfunc":
		return gobSpec(s.Subs[0])
	case "expr":
		return &model.Spec{K: "lit", V: &model.Val{K: "num", S: "7"}}
	case "lit":
		if !prim(s.V) {
			return &model.Spec{K: "lit", V: &model.Val{K: "str", S: "l"}}
		}
		return s
	case "default":
		bad := false
		s.Walk(func(x *model.Spec) { bad = bad || x.K == "lit" && !prim(x.V) })
		if bad {
			return gobSpec(s.Subs[0])
		}
	}
	c := *s
	if s.Ty != nil {
		ty := s.Ty.Static()
		c.Ty = &ty
	}
	c.Subs = nil
	for _, x := range s.Subs {
		c.Subs = append(c.Subs, gobSpec(x))
	}
	return &c
}

func genGobCase(t *rapid.T) specCase {
	c := genSpecCase(40, 10, "native", "json")(t)
	c.Spec = gobSpec(c.Spec)
	return c
}

// gobHolder is how a message with a specification looks.
type gobHolder struct {
	Name string
	Spec hcldec.Spec
}

func checkGob(c specCase, r *engine.Rec) error {
	spec, err := toSpec(c.Spec)
	if err != nil {
		return err
	}
	n := 0
	c.Spec.Walk(func(x *model.Spec) {
		n++
		r.Label("spec %s", x.K)
	})
	a, b := c.Body.Count()
	r.NonTrivialIf(n >= 3 && a+b >= 2)
	r.Sample(c.sample())

	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(gobHolder{"x", spec}); err != nil {
		return errf("the specification can not be encoded: %s", err)
	}
	var back gobHolder
	if err := gob.NewDecoder(&buf).Decode(&back); err != nil {
		return errf("the specification can not be decoded: %s", err)
	}
	if back.Spec == nil {
		return errf("the specification was lost")
	}
	type outcome struct {
		v     cty.Value
		diags string
		vars  string
		panic interface{}
	}
	body, err := c.body()
	if err != nil {
		return err
	}
	run := func(s hcldec.Spec) (o outcome) {
		defer func() { o.panic = recover() }()
		if err := checkImplied(c.Spec, s); err != nil {
			o.diags = "implied: " + err.Error()
			return o
		}
		v, diags := hcldec.Decode(body, s, evalCtx(c.Scope.Map()))
		o.v = v
		o.diags = diagSet(diags)
		o.vars = travSet(hcldec.Variables(body, s))
		return o
	}
	o1, o2 := run(spec), run(back.Spec)
	if (o1.panic != nil) != (o2.panic != nil) {
		return errf("the original panics with %v, the copy with %v", o1.panic, o2.panic)
	}
	if o1.panic != nil {
		r.Label("panics")
		return nil
	}
	if o1.diags != o2.diags {
		return errf("errors of the original: %s\nof the copy: %s", o1.diags, o2.diags)
	}
	// The value library does not find sets equal whose element types are not
	// identical in memory.
	if o1.v != cty.NilVal && (!o1.v.Type().Equals(o2.v.Type()) || o1.v.GoString() != o2.v.GoString()) {
		return errf("the original decodes %s, the copy %s", vstr(o1.v), vstr(o2.v))
	}
	if o1.vars != o2.vars {
		return errf("variables of the original %s, of the copy %s", o1.vars, o2.vars)
	}
	return nil
}

func init() {
	engine.Add("C43", "gob", "at least three specification nodes and two items in the body", 60000, genGobCase, checkGob)
}
