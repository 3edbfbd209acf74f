package model

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
	"unicode"

	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/convert"
	"github.com/zclconf/go-cty/cty/function"
)

// ErrUndetermined is returned where the specification leaves the result open;
// the oracle then only requires the absence of panics.
var ErrUndetermined = errors.New("undetermined")

// evalErr is an evaluation error. dyn says that the failing expression has no
// determinable type, which matters for conditionals.
type evalErr struct {
	msg string
	dyn bool
}

func (e *evalErr) Error() string { return e.msg }

func fail(dyn bool, f string, a ...interface{}) error {
	return &evalErr{msg: fmt.Sprintf(f, a...), dyn: dyn}
}

// Env is a reference evaluation scope.
type Env struct {
	Vars   map[string]cty.Value
	Funcs  map[string]Func
	Parent *Env
	item   []cty.Value
	// Touched records the names looked up, when non-nil.
	Touched map[string]bool
}

// Lookup finds a variable.
func (e *Env) Lookup(n string) (cty.Value, bool) {
	for s := e; s != nil; s = s.Parent {
		if v, ok := s.Vars[n]; ok {
			return v, true
		}
	}
	return cty.NilVal, false
}

func (e *Env) fn(n string) (Func, bool) {
	for s := e; s != nil; s = s.Parent {
		if v, ok := s.Funcs[n]; ok {
			return v, true
		}
	}
	return Func{}, false
}

func (e *Env) child(vars map[string]cty.Value) *Env {
	return &Env{Vars: vars, Parent: e, item: e.item}
}

func (e *Env) withItem(v cty.Value) *Env {
	c := *e
	c.item = append(append([]cty.Value(nil), e.item...), v)
	return &c
}

func (e *Env) popItem() *Env {
	c := *e
	c.item = e.item[:len(e.item)-1]
	return &c
}

// Func is a reference function definition, convertible to a cty function.
type Func struct {
	Params []cty.Type
	Var    cty.Type // NilType when not variadic
	// Nullable arguments are passed through.
	Null bool
	Impl func(args []cty.Value) (cty.Value, error)
	Ret  func(args []cty.Value) (cty.Type, error)
}

// Cty makes the function callable from expressions.
func (f Func) Cty() function.Function {
	spec := &function.Spec{}
	for i, p := range f.Params {
		spec.Params = append(spec.Params, function.Parameter{Name: fmt.Sprintf("p%d", i), Type: p, AllowNull: f.Null})
	}
	if f.Var != cty.NilType {
		spec.VarParam = &function.Parameter{Name: "rest", Type: f.Var, AllowNull: f.Null}
	}
	if f.Ret != nil {
		spec.Type = f.Ret
	} else {
		spec.Type = func(args []cty.Value) (cty.Type, error) {
			for _, a := range args {
				if !a.IsWhollyKnown() {
					return cty.DynamicPseudoType, nil
				}
			}
			v, err := f.Impl(args)
			if err != nil {
				return cty.NilType, err
			}
			return v.Type(), nil
		}
	}
	spec.Impl = func(args []cty.Value, retType cty.Type) (cty.Value, error) {
		for _, a := range args {
			if !a.IsWhollyKnown() {
				return cty.UnknownVal(retType), nil
			}
		}
		return f.Impl(args)
	}
	return function.New(spec)
}

func (f Func) call(args []cty.Value) (cty.Value, error) {
	if len(args) < len(f.Params) || len(args) > len(f.Params) && f.Var == cty.NilType {
		return cty.NilVal, fail(true, "wrong argument count")
	}
	conv := make([]cty.Value, len(args))
	for i, a := range args {
		ty := f.Var
		if i < len(f.Params) {
			ty = f.Params[i]
		}
		v, err := convert.Convert(a, ty)
		if err != nil {
			return cty.NilVal, fail(true, "argument %d: %s", i, err)
		}
		conv[i] = v
	}
	for i, a := range conv {
		if a.IsNull() && !f.Null {
			return cty.NilVal, fail(true, "argument %d is null", i)
		}
	}
	v, err := f.Impl(conv)
	if isUndet(err) {
		return cty.NilVal, err
	}
	if err != nil {
		return cty.NilVal, fail(true, "%s", err)
	}
	return v, nil
}

func noNaN(f func() cty.Value) (v cty.Value, err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(big.ErrNaN); ok {
				v, err = cty.NilVal, errors.New("not a number")
				return
			}
			panic(r)
		}
	}()
	return f(), nil
}

// ErrDependency is returned where the conversion prescribed by the
// specification makes the cty library itself panic.
var ErrDependency = errors.New("conversion panics in the cty library")

func safeConvert(v cty.Value, ty cty.Type) (ret cty.Value, err error) {
	defer func() {
		if r := recover(); r != nil {
			ret, err = cty.NilVal, ErrDependency
		}
	}()
	return convert.Convert(v, ty)
}

func safeUnify(a, b cty.Type) (ret cty.Type, err error) {
	defer func() {
		if r := recover(); r != nil {
			ret, err = cty.NilType, ErrDependency
		}
	}()
	ret, _ = convert.UnifyUnsafe([]cty.Type{a, b})
	return ret, nil
}

// StdFuncs are the functions available to generated expressions.
func StdFuncs() map[string]Func {
	return map[string]Func{
		"upper": {Params: []cty.Type{cty.String}, Var: cty.NilType, Impl: func(a []cty.Value) (cty.Value, error) {
			return cty.StringVal(strings.ToUpper(a[0].AsString())), nil
		}, Ret: function.StaticReturnType(cty.String)},
		"add": {Params: []cty.Type{cty.Number, cty.Number}, Var: cty.NilType, Impl: func(a []cty.Value) (cty.Value, error) {
			return noNaN(func() cty.Value { return a[0].Add(a[1]) })
		}, Ret: function.StaticReturnType(cty.Number)},
		"cat": {Var: cty.String, Impl: func(a []cty.Value) (cty.Value, error) {
			s := ""
			for _, x := range a {
				s += x.AsString()
			}
			return cty.StringVal(s), nil
		}, Ret: function.StaticReturnType(cty.String)},
		"sub": {Params: []cty.Type{cty.Number}, Var: cty.Number, Impl: func(a []cty.Value) (cty.Value, error) {
			return noNaN(func() cty.Value {
				r := a[0]
				for _, x := range a[1:] {
					r = r.Subtract(x)
				}
				return r
			})
		}, Ret: function.StaticReturnType(cty.Number)},
		"ident": {Params: []cty.Type{cty.DynamicPseudoType}, Var: cty.NilType, Null: true, Impl: func(a []cty.Value) (cty.Value, error) {
			return a[0], nil
		}},
		"pack": {Var: cty.DynamicPseudoType, Null: true, Impl: func(a []cty.Value) (cty.Value, error) {
			return cty.TupleVal(a), nil
		}},
		"nonneg": {Var: cty.Number, Impl: func(a []cty.Value) (cty.Value, error) {
			for i, x := range a {
				if x.AsBigFloat().Sign() < 0 {
					return cty.NilVal, function.NewArgErrorf(i, "negative")
				}
			}
			return cty.NumberIntVal(int64(len(a))), nil
		}, Ret: function.StaticReturnType(cty.Number)},
		"strs": {Params: []cty.Type{cty.List(cty.String)}, Var: cty.NilType, Impl: func(a []cty.Value) (cty.Value, error) {
			return a[0], nil
		}, Ret: function.StaticReturnType(cty.List(cty.String))},
		"toset": {Params: []cty.Type{cty.Set(cty.String)}, Var: cty.NilType, Impl: func(a []cty.Value) (cty.Value, error) {
			return a[0], nil
		}, Ret: function.StaticReturnType(cty.Set(cty.String))},
		"tomap": {Params: []cty.Type{cty.Map(cty.String)}, Var: cty.NilType, Impl: func(a []cty.Value) (cty.Value, error) {
			return a[0], nil
		}, Ret: function.StaticReturnType(cty.Map(cty.String))},
		"boom": {Var: cty.DynamicPseudoType, Null: true, Impl: func(a []cty.Value) (cty.Value, error) {
			return cty.NilVal, errors.New("boom")
		}, Ret: func(a []cty.Value) (cty.Type, error) { return cty.String, nil }},
	}
}

// Eval evaluates e following the language specification, for wholly known
// scopes. The error is ErrUndetermined where the specification is silent.
func (e *Expr) Eval(env *Env) (v cty.Value, err error) {
	switch e.K {
	case "num":
		n, perr := cty.ParseNumberVal(e.S)
		if perr != nil {
			return cty.NilVal, ErrUndetermined
		}
		return n, nil
	case "bool":
		return cty.BoolVal(e.S == "true"), nil
	case "null":
		return cty.NullVal(cty.DynamicPseudoType), nil
	case "var":
		if env.Touched != nil {
			env.Touched[e.S] = true
		}
		v, ok := env.Lookup(e.S)
		if !ok {
			return cty.NilVal, fail(true, "no variable %s", e.S)
		}
		return v, nil
	case "item":
		return env.item[len(env.item)-1], nil
	case "paren":
		return e.Xs[0].Eval(env)
	case "attr":
		c, err := e.Xs[0].Eval(env)
		if err != nil {
			return cty.NilVal, dynErr(err)
		}
		return RefAttr(c, e.S)
	case "leg":
		c, err := e.Xs[0].Eval(env)
		if err != nil {
			return cty.NilVal, dynErr(err)
		}
		return RefIndex(c, cty.MustParseNumberVal(e.S))
	case "idx":
		c, err := e.Xs[0].Eval(env)
		if err != nil {
			return cty.NilVal, dynErr(err)
		}
		k, err := e.Xs[1].Eval(env)
		if err != nil {
			return cty.NilVal, undetErr(err)
		}
		return RefIndex(c, k)
	case "splat":
		return e.evalSplat(env)
	case "call":
		return e.evalCall(env)
	case "bin":
		return e.evalBin(env)
	case "un":
		x, err := e.Xs[0].Eval(env)
		if err != nil {
			return cty.NilVal, typedErr(err)
		}
		if e.S == "-" {
			n, err := convert.Convert(x, cty.Number)
			if err != nil || n.IsNull() {
				return cty.NilVal, fail(false, "bad operand")
			}
			return n.Negate(), nil
		}
		b, err := convert.Convert(x, cty.Bool)
		if err != nil || b.IsNull() {
			return cty.NilVal, fail(false, "bad operand")
		}
		return b.Not(), nil
	case "cond":
		return e.evalCond(env)
	case "tuple":
		vals := make([]cty.Value, len(e.Xs))
		var ferr error
		for i, x := range e.Xs {
			v, err := x.Eval(env)
			if err != nil {
				ferr = worse(ferr, typedErr(err))
				continue
			}
			vals[i] = v
		}
		if ferr != nil {
			return cty.NilVal, ferr
		}
		return cty.TupleVal(vals), nil
	case "obj":
		return e.evalObj(env)
	case "for":
		return e.evalFor(env)
	case "tmpl":
		return e.T.Eval(env)
	}
	panic("bad expression kind " + e.K)
}

func isUndet(err error) bool { return err == ErrUndetermined || err == ErrDependency }

// worse combines errors, undetermined dominating.
func worse(a, b error) error {
	if a == ErrDependency || b == ErrDependency {
		return ErrDependency
	}
	if isUndet(a) || isUndet(b) {
		return ErrUndetermined
	}
	if a != nil {
		return a
	}
	return b
}

// typedErr marks an error as coming from an expression with a fixed type.
func typedErr(err error) error {
	if isUndet(err) {
		return err
	}
	return fail(false, "%s", err)
}

// dynErr marks an error as coming from an expression without a fixed type.
func dynErr(err error) error {
	if e, ok := err.(*evalErr); ok && !e.dyn {
		// The type of the failing operand may or may not be known.
		return fail(false, "%s", err)
	}
	return err
}

func undetErr(err error) error {
	if isUndet(err) {
		return err
	}
	return fail(false, "%s", err)
}

// RefAttr is the specified attribute access.
func RefAttr(c cty.Value, name string) (cty.Value, error) {
	if c.IsNull() {
		return cty.NilVal, fail(true, "attribute of null")
	}
	ty := c.Type()
	switch {
	case ty.IsObjectType():
		if !ty.HasAttribute(name) {
			return cty.NilVal, fail(true, "no attribute %s", name)
		}
		return c.GetAttr(name), nil
	case ty.IsMapType():
		for it := c.ElementIterator(); it.Next(); {
			k, v := it.Element()
			if k.AsString() == name {
				return v, nil
			}
		}
		return cty.NilVal, fail(true, "no element %s", name)
	}
	return cty.NilVal, fail(true, "no attributes")
}

// RefIndex is the specified index operation.
func RefIndex(c, key cty.Value) (cty.Value, error) {
	if c.IsNull() || key.IsNull() {
		return cty.NilVal, fail(true, "null")
	}
	ty := c.Type()
	switch {
	case ty.IsListType() || ty.IsTupleType():
		k, err := convert.Convert(key, cty.Number)
		if err != nil {
			return cty.NilVal, fail(true, "%s", err)
		}
		f := k.AsBigFloat()
		if !f.IsInt() || f.Sign() < 0 || f.Cmp(big.NewFloat(float64(c.LengthInt()))) >= 0 {
			return cty.NilVal, fail(true, "out of range")
		}
		want, _ := f.Int64()
		i := int64(0)
		for it := c.ElementIterator(); it.Next(); i++ {
			_, v := it.Element()
			if i == want {
				return v, nil
			}
		}
		return cty.NilVal, fail(true, "out of range")
	case ty.IsMapType() || ty.IsObjectType():
		k, err := convert.Convert(key, cty.String)
		if err != nil {
			return cty.NilVal, fail(true, "%s", err)
		}
		return RefAttr(c, k.AsString())
	}
	return cty.NilVal, fail(true, "not indexable")
}

func (e *Expr) evalSplat(env *Env) (cty.Value, error) {
	src, err := e.Xs[0].Eval(env)
	if err != nil {
		return cty.NilVal, dynErr(err)
	}
	ty := src.Type()
	seq := ty.IsTupleType() || ty.IsListType() || ty.IsSetType()
	if src.IsNull() {
		if seq {
			return cty.NilVal, fail(true, "splat of null")
		}
		return cty.EmptyTupleVal, nil
	}
	if !seq {
		src = cty.TupleVal([]cty.Value{src})
	}
	var vals []cty.Value
	for it := src.ElementIterator(); it.Next(); {
		_, v := it.Element()
		r, err := e.Xs[1].Eval(env.withItem(v))
		if err != nil {
			return cty.NilVal, undetErr(err)
		}
		vals = append(vals, r)
	}
	if src.Type().IsTupleType() {
		return cty.TupleVal(vals), nil
	}
	if len(vals) == 0 {
		if ty, ok := e.Xs[1].itemType(ty.ElementType()); ok {
			return cty.ListValEmpty(ty), nil
		}
		return cty.NilVal, errEmptyList
	}
	for _, v := range vals {
		if !v.Type().Equals(vals[0].Type()) {
			// Not expressible as a list.
			return cty.TupleVal(vals), nil
		}
	}
	return cty.ListVal(vals), nil
}

// itemType is the type of a chain of attribute steps from a splat item.
func (e *Expr) itemType(item cty.Type) (cty.Type, bool) {
	switch e.K {
	case "item":
		return item, true
	case "attr":
		ty, ok := e.Xs[0].itemType(item)
		if !ok || !ty.IsObjectType() || !ty.HasAttribute(e.S) {
			return ty, false
		}
		return ty.AttributeType(e.S), true
	}
	return item, false
}

// errEmptyList: otherwise the element type of an empty list result is not
// modelled.
var errEmptyList = ErrUndetermined

func (e *Expr) evalCall(env *Env) (cty.Value, error) {
	f, ok := env.fn(e.S)
	var args []cty.Value
	var ferr error
	for i, x := range e.Xs {
		v, err := x.Eval(env)
		if err != nil {
			ferr = worse(ferr, err)
			continue
		}
		if e.Flag && i == len(e.Xs)-1 {
			ty := v.Type()
			if v.IsNull() || !(ty.IsTupleType() || ty.IsListType() || ty.IsSetType()) {
				ferr = worse(ferr, fail(true, "bad expansion"))
				continue
			}
			for it := v.ElementIterator(); it.Next(); {
				_, ev := it.Element()
				args = append(args, ev)
			}
			continue
		}
		args = append(args, v)
	}
	if !ok {
		return cty.NilVal, fail(true, "no function %s", e.S)
	}
	if ferr != nil {
		if isUndet(ferr) {
			return cty.NilVal, ferr
		}
		return cty.NilVal, fail(true, "%s", ferr)
	}
	return f.call(args)
}

func (e *Expr) evalBin(env *Env) (v cty.Value, err error) {
	a, aerr := e.Xs[0].Eval(env)
	b, berr := e.Xs[1].Eval(env)
	if err := worse(aerr, berr); err != nil {
		return cty.NilVal, typedErr(err)
	}
	if e.S == "==" || e.S == "!=" {
		eq := a.Equals(b)
		if !eq.IsKnown() {
			return cty.NilVal, ErrUndetermined
		}
		if e.S == "!=" {
			eq = eq.Not()
		}
		return eq, nil
	}
	want := cty.Number
	if e.S == "&&" || e.S == "||" {
		want = cty.Bool
	}
	a, aerr = convert.Convert(a, want)
	b, berr = convert.Convert(b, want)
	if aerr != nil || berr != nil || a.IsNull() || b.IsNull() {
		return cty.NilVal, fail(false, "bad operand")
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(big.ErrNaN); ok {
				v, err = cty.NilVal, fail(false, "not a number")
				return
			}
			panic(r)
		}
	}()
	switch e.S {
	case "&&":
		return cty.BoolVal(a.True() && b.True()), nil
	case "||":
		return cty.BoolVal(a.True() || b.True()), nil
	}
	x, y := a.AsBigFloat(), b.AsBigFloat()
	switch e.S {
	case "<":
		return cty.BoolVal(x.Cmp(y) < 0), nil
	case "<=":
		return cty.BoolVal(x.Cmp(y) <= 0), nil
	case ">":
		return cty.BoolVal(x.Cmp(y) > 0), nil
	case ">=":
		return cty.BoolVal(x.Cmp(y) >= 0), nil
	case "+":
		return a.Add(b), nil
	case "-":
		return a.Subtract(b), nil
	case "*":
		return a.Multiply(b), nil
	case "/":
		return a.Divide(b), nil
	case "%":
		if y.Sign() == 0 || x.IsInf() || y.IsInf() {
			return cty.NilVal, ErrUndetermined
		}
		return a.Modulo(b), nil
	}
	panic("bad operator " + e.S)
}

func (e *Expr) evalCond(env *Env) (cty.Value, error) {
	t, terr := e.Xs[1].Eval(env)
	f, ferr := e.Xs[2].Eval(env)
	c, cerr := e.Xs[0].Eval(env)
	if err := worse(worse(terr, ferr), cerr); isUndet(err) {
		return cty.NilVal, err
	}
	if cerr != nil {
		return cty.NilVal, fail(false, "%s", cerr)
	}
	dynNull := func(v cty.Value) bool { return v.IsNull() && v.Type() == cty.DynamicPseudoType }
	resTy := cty.DynamicPseudoType
	convT, convF := true, true
	if terr == nil && ferr == nil {
		switch {
		case dynNull(t):
			resTy = f.Type()
		case dynNull(f):
			resTy = t.Type()
		default:
			ty, err := safeUnify(t.Type(), f.Type())
			if err != nil {
				return cty.NilVal, err
			}
			if resTy = ty; resTy == cty.NilType {
				return cty.NilVal, fail(false, "inconsistent types")
			}
		}
	} else {
		convT, convF = false, false
	}
	if c.IsNull() {
		return cty.NilVal, fail(false, "null condition")
	}
	cb, err := convert.Convert(c, cty.Bool)
	if err != nil {
		return cty.NilVal, fail(false, "bad condition")
	}
	sel, selErr, otherErr, conv := t, terr, ferr, convT
	if cb.False() {
		sel, selErr, otherErr, conv = f, ferr, terr, convF
	}
	if selErr != nil {
		return cty.NilVal, fail(false, "%s", selErr)
	}
	if otherErr != nil {
		if ee, ok := otherErr.(*evalErr); !ok || !ee.dyn {
			// The failing branch still influences the result type in a way
			// the specification does not pin down.
			return cty.NilVal, ErrUndetermined
		}
		return sel, nil
	}
	if conv {
		v, err := safeConvert(sel, resTy)
		if err == ErrDependency {
			return cty.NilVal, err
		}
		if err != nil {
			return cty.NilVal, fail(false, "%s", err)
		}
		return v, nil
	}
	return sel, nil
}

func (e *Expr) evalObj(env *Env) (cty.Value, error) {
	m := map[string]cty.Value{}
	var ferr error
	for i, k := range e.Keys {
		var name string
		switch k.K {
		case "id":
			name = cty.StringVal(k.S).AsString()
		default:
			kv, err := k.X.Eval(env)
			if err != nil {
				ferr = worse(ferr, err)
			} else if kv.IsNull() {
				ferr = worse(ferr, fail(true, "null key"))
			} else {
				ks, err := convert.Convert(kv, cty.String)
				if err != nil {
					ferr = worse(ferr, fail(true, "bad key"))
				} else {
					name = ks.AsString()
				}
			}
		}
		v, err := e.Xs[i].Eval(env)
		if err != nil {
			ferr = worse(ferr, err)
			continue
		}
		m[name] = v // the last one of those with the same key
	}
	if ferr != nil {
		return cty.NilVal, typedErr(ferr)
	}
	return cty.ObjectVal(m), nil
}

func (e *Expr) evalFor(env *Env) (cty.Value, error) {
	coll, err := e.Xs[0].Eval(env)
	if err != nil {
		return cty.NilVal, err
	}
	if coll.IsNull() || !coll.CanIterateElements() {
		return cty.NilVal, fail(true, "not iterable")
	}
	if coll.LengthInt() == 0 && e.Cond != nil {
		// The condition may be rejected without any element to test.
		for _, ok := range []cty.Value{cty.NumberIntVal(1), cty.StringVal("a")} {
			vars := map[string]cty.Value{e.VV: ok}
			if e.KV != "" {
				vars[e.KV] = ok
			}
			if c, err := e.Cond.Eval(env.child(vars)); err == nil {
				if cb, err := convert.Convert(c, cty.Bool); err == nil && !cb.IsNull() {
					goto sound // fine for some element
				}
			}
		}
		return cty.NilVal, ErrUndetermined
	}
sound:
	var vals []cty.Value
	m := map[string]cty.Value{}
	groups := map[string][]cty.Value{}
	var ferr error
	for it := coll.ElementIterator(); it.Next(); {
		k, v := it.Element()
		vars := map[string]cty.Value{}
		if e.KV != "" {
			vars[e.KV] = k
		}
		vars[e.VV] = v
		cenv := env.child(vars)
		if e.Cond != nil {
			c, err := e.Cond.Eval(cenv)
			if err != nil {
				ferr = worse(ferr, err)
				continue
			}
			cb, err := convert.Convert(c, cty.Bool)
			if err != nil || cb.IsNull() {
				ferr = worse(ferr, fail(true, "bad condition"))
				continue
			}
			if cb.False() {
				continue
			}
		}
		name := ""
		if e.S == "obj" {
			kv, err := e.Key.Eval(cenv)
			if err != nil {
				ferr = worse(ferr, err)
			} else {
				ks, err := convert.Convert(kv, cty.String)
				if err != nil || ks.IsNull() {
					ferr = worse(ferr, fail(true, "bad key"))
				} else {
					name = ks.AsString()
				}
			}
		}
		ev, err := e.Xs[1].Eval(cenv)
		if err != nil {
			ferr = worse(ferr, err)
			continue
		}
		if e.S != "obj" {
			vals = append(vals, ev)
			continue
		}
		if e.Flag {
			groups[name] = append(groups[name], ev)
			continue
		}
		if _, dup := m[name]; dup {
			ferr = worse(ferr, fail(true, "duplicate key"))
		}
		m[name] = ev
	}
	if ferr != nil {
		return cty.NilVal, undetErr(ferr)
	}
	if e.S != "obj" {
		return cty.TupleVal(vals), nil
	}
	if e.Flag {
		for k, g := range groups {
			m[k] = cty.TupleVal(g)
		}
	}
	return cty.ObjectVal(m), nil
}

// Eval renders a template.
func (t *Tmpl) Eval(env *Env) (cty.Value, error) {
	if t.single() {
		return t.Parts[0].X.Eval(env)
	}
	parts := t.Parts
	if t.Style == "flush" {
		parts = flushParts(parts)
	}
	s, err := evalParts(stripParts(parts, false, false), env)
	if err != nil {
		return cty.NilVal, typedErr(err)
	}
	return cty.StringVal(s), nil
}

func (t *Tmpl) single() bool {
	return len(t.Parts) == 1 && t.Parts[0].K == "interp"
}

// stripParts applies strip markers to the literals of a part list. left and
// right say whether the marker before the first and after the last part of
// the list strips towards the list.
func stripParts(ps []Part, left, right bool) []Part {
	out := make([]Part, len(ps))
	copy(out, ps)
	for i := range out {
		q := &out[i]
		l, r := false, false
		if i == 0 {
			l = left
		} else {
			l = out[i-1].stripsAfter()
		}
		if i == len(out)-1 {
			r = right
		} else {
			r = out[i+1].stripsBefore()
		}
		switch q.K {
		case "lit":
			if l {
				q.S = strings.TrimLeftFunc(q.S, unicode.IsSpace)
			}
			if r {
				q.S = strings.TrimRightFunc(q.S, unicode.IsSpace)
			}
		case "if":
			if q.HasElse {
				q.Then = stripParts(q.Then, q.Strip&2 != 0, q.Strip&4 != 0)
				q.Else = stripParts(q.Else, q.Strip&8 != 0, q.Strip&16 != 0)
			} else {
				q.Then = stripParts(q.Then, q.Strip&2 != 0, q.Strip&16 != 0)
			}
		case "for":
			q.Then = stripParts(q.Then, q.Strip&2 != 0, q.Strip&4 != 0)
		}
	}
	return out
}

func (q *Part) stripsBefore() bool {
	return q.K != "lit" && q.Strip&1 != 0
}

func (q *Part) stripsAfter() bool {
	switch q.K {
	case "interp":
		return q.Strip&2 != 0
	case "if":
		return q.Strip&32 != 0
	case "for":
		return q.Strip&8 != 0
	}
	return false
}

func evalParts(ps []Part, env *Env) (string, error) {
	var b strings.Builder
	var ferr error
	for i := range ps {
		q := &ps[i]
		switch q.K {
		case "lit":
			b.WriteString(q.S)
		case "interp":
			v, err := q.X.Eval(env)
			if err != nil {
				ferr = worse(ferr, err)
				continue
			}
			sv, err := convert.Convert(v, cty.String)
			if err != nil || sv.IsNull() {
				ferr = worse(ferr, fail(false, "not a string"))
				continue
			}
			b.WriteString(sv.AsString())
		case "if":
			c, cerr := q.X.Eval(env)
			if isUndet(cerr) {
				ferr = worse(ferr, cerr)
				continue
			}
			t, terr := evalParts(q.Then, env)
			f, ferr2 := evalParts(q.Else, env)
			if err := worse(terr, ferr2); isUndet(err) {
				ferr = worse(ferr, err)
				continue
			}
			if cerr != nil {
				ferr = worse(ferr, cerr)
				continue
			}
			cb, err := convert.Convert(c, cty.Bool)
			if err != nil || cb.IsNull() {
				ferr = worse(ferr, fail(false, "bad condition"))
				continue
			}
			s, serr := t, terr
			if cb.False() {
				s, serr = f, ferr2
			}
			if serr != nil {
				ferr = worse(ferr, serr)
				continue
			}
			b.WriteString(s)
		case "for":
			coll, err := q.X.Eval(env)
			if err != nil {
				ferr = worse(ferr, err)
				continue
			}
			if coll.IsNull() || !coll.CanIterateElements() {
				ferr = worse(ferr, fail(false, "not iterable"))
				continue
			}
			for it := coll.ElementIterator(); it.Next(); {
				k, v := it.Element()
				vars := map[string]cty.Value{}
				if q.KV != "" {
					vars[q.KV] = k
				}
				vars[q.VV] = v
				s, err := evalParts(q.Then, env.child(vars))
				if err != nil {
					ferr = worse(ferr, err)
					continue
				}
				b.WriteString(s)
			}
		}
	}
	return b.String(), ferr
}

// flushParts removes the common indentation of line-leading literals.
func flushParts(ps []Part) []Part {
	ps = cloneParts(ps)
	// Collect the literals in source order, with the information whether a
	// non-literal marker precedes them on the line.
	type seg struct {
		part *Part
		off  int // start of a line inside the literal
	}
	var lines []seg
	min := -1
	consider := func(n int) {
		if min < 0 || n < min {
			min = n
		}
	}
	atStart := true
	var walk func(ps []Part)
	marker := func() {
		if atStart {
			consider(0)
		}
		atStart = false
	}
	walk = func(ps []Part) {
		for i := range ps {
			q := &ps[i]
			switch q.K {
			case "lit":
				off := 0
				for off < len(q.S) {
					end := strings.IndexByte(q.S[off:], '\n')
					line := q.S[off:]
					full := false
					if end >= 0 {
						line = q.S[off : off+end+1]
						full = true
					}
					if atStart {
						rest := strings.TrimLeftFunc(line, unicode.IsSpace)
						if !(rest == "" && full) {
							lines = append(lines, seg{q, off})
							consider(len([]rune(line[:len(line)-len(rest)])))
						}
					}
					atStart = full
					off += len(line)
				}
			case "interp":
				marker()
			case "if":
				marker()
				walk(q.Then)
				if q.HasElse {
					marker()
					walk(q.Else)
				}
				marker()
			case "for":
				marker()
				walk(q.Then)
				marker()
			}
		}
	}
	walk(ps)
	if min > 0 {
		// Remove from the end so that offsets stay valid.
		for i := len(lines) - 1; i >= 0; i-- {
			l := lines[i]
			rs := []rune(l.part.S[l.off:])
			l.part.S = l.part.S[:l.off] + string(rs[min:])
		}
	}
	return ps
}

func cloneParts(ps []Part) []Part {
	out := make([]Part, len(ps))
	for i := range ps {
		out[i] = ps[i]
		out[i].Then = cloneParts(ps[i].Then)
		out[i].Else = cloneParts(ps[i].Else)
	}
	return out
}
