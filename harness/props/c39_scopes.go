package props

import (
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// scopeOp is one step of building a tree of scopes.
type scopeOp struct {
	K    string   `json:"k"`              // child, vars, funcs, novars, nofuncs, addvar, addfunc
	At   int      `json:"at"`             // the scope, modulo their number
	Name []string `json:"name,omitempty"` // names that get defined
	Look string   `json:"look"`           // the name to look up everywhere afterwards
	Form int      `json:"form"`
	Odd  int      `json:"odd,omitempty"` // 1 null, 2 null string, 3 unknown, 4 unknown string, 5 and 6 objects with the attribute k or l: the values of variables
}

type scopeCase struct {
	Ops []scopeOp `json:"ops"`
}

var scopeNames = []string{"a", "b", "c", "aa", "for", "null2", "x-y"}

func genScopeCase(t *rapid.T) scopeCase {
	var c scopeCase
	for n := model.Count(t, 1, 10); n > 0; n-- {
		op := scopeOp{
			K:    model.Pick(t, []string{"child", "child", "child", "vars", "vars", "funcs", "funcs", "novars", "nofuncs", "addvar", "addfunc"}),
			At:   model.Int(t, 0, 20, "at"),
			Look: model.Pick(t, scopeNames),
			Form: model.Int(t, 0, 8, "form"),
		}
		if model.Chance(t, 45) {
			op.Odd = model.Int(t, 1, 6, "odd")
		}
		switch op.K {
		case "vars", "funcs":
			op.Name = model.Subset(t, scopeNames, 3)
		case "addvar", "addfunc":
			op.Name = []string{model.Pick(t, scopeNames)}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// refScope is the reference: nil maps are absent.
type refScope struct {
	parent int
	vars   map[string]string
	funcs  map[string]string
}

func constFunc(s string) function.Function {
	return function.New(&function.Spec{
		Type: function.StaticReturnType(cty.String),
		Impl: func([]cty.Value, cty.Type) (cty.Value, error) { return cty.StringVal(s), nil },
	})
}

// lookup evaluates a reference to name in several forms.
func lookup(name string, form int, ctx *hcl.EvalContext) (string, bool, error) {
	vals := func(v cty.Value, d hcl.Diagnostics) (string, bool, error) {
		if d.HasErrors() {
			return "", false, nil
		}
		for v.Type().IsTupleType() && v.LengthInt() == 1 {
			v = v.Index(cty.NumberIntVal(0))
		}
		switch {
		case v.IsNull():
			return "null", true, nil
		case !v.IsKnown():
			return "unknown", true, nil
		}
		for _, k := range []string{"k", "l"} {
			if v.Type().Equals(cty.Object(map[string]cty.Type{k: cty.String})) {
				return k + "=" + v.GetAttr(k).AsString(), true, nil
			}
		}
		if v.Type() != cty.String {
			return "", false, errf("%s is %s", name, vstr(v))
		}
		return v.AsString(), true, nil
	}
	expr := func(src string) (string, bool, error) {
		x, d := hclsyntax.ParseExpression([]byte(src), "t", startPos)
		if d.HasErrors() {
			return "", false, errf("%s: %s", src, diagStr(d))
		}
		return vals(x.Value(ctx))
	}
	tr := hcl.Traversal{hcl.TraverseRoot{Name: strings.TrimSuffix(name, ".k")}}
	if strings.HasSuffix(name, ".k") {
		tr = append(tr, hcl.TraverseAttr{Name: "k"})
	}
	switch form {
	case 0:
		return vals(tr.TraverseAbs(ctx))
	case 1:
		return vals(tr.SimpleSplit().Traverse(ctx))
	case 2:
		return expr("(" + name + ")")
	case 3:
		return expr("\"${(" + name + ")}\"")
	case 4:
		return expr("[for q in [1] : (" + name + ")]")
	case 5:
		return expr("[for q in [1] : [for r in [q] : \"${(" + name + ")}\"]]")
	case 6:
		e, err := parseJSONAttr(`{"a": "${(` + name + `)}"}`)
		if err != nil {
			return "", false, err
		}
		return vals(e.Value(ctx))
	case 7:
		return expr("true ? (" + name + ") : \"\"")
	default:
		x, d := hclsyntax.ParseTemplate([]byte("%{for q in [1]}${("+name+")}%{endfor}"), "t", startPos)
		if d.HasErrors() {
			return "", false, errf("%s: %s", name, diagStr(d))
		}
		return vals(x.Value(ctx))
	}
}

// isObj says whether a reference value is an object.
func isObj(v string) bool { return len(v) > 1 && v[1] == '=' }

func checkScopes(c scopeCase, r *engine.Rec) error {
	ctxs := []*hcl.EvalContext{{}}
	refs := []*refScope{{parent: -1}}
	for step, op := range c.Ops {
		i := op.At % len(ctxs)
		val := fmt.Sprintf("%d.%d", i, step)
		switch op.K {
		case "child":
			ctxs = append(ctxs, ctxs[i].NewChild())
			refs = append(refs, &refScope{parent: i})
			if n := ctxs[len(ctxs)-1]; n.Parent() != ctxs[i] {
				return errf("the parent of a child is another scope")
			}
		case "vars":
			ctxs[i].Variables, refs[i].vars = map[string]cty.Value{}, map[string]string{}
		case "funcs":
			ctxs[i].Functions, refs[i].funcs = map[string]function.Function{}, map[string]string{}
		case "novars":
			ctxs[i].Variables, refs[i].vars = nil, nil
		case "nofuncs":
			ctxs[i].Functions, refs[i].funcs = nil, nil
		}
		for _, n := range op.Name {
			if op.K == "vars" || op.K == "addvar" {
				if refs[i].vars == nil {
					ctxs[i].Variables, refs[i].vars = map[string]cty.Value{}, map[string]string{}
				}
				ctxs[i].Variables[n], refs[i].vars[n] = cty.StringVal("v"+val), "v"+val
				if op.Odd > 4 {
					k := []string{"k", "l"}[op.Odd-5]
					ctxs[i].Variables[n] = cty.ObjectVal(map[string]cty.Value{k: cty.StringVal("v" + val)})
					refs[i].vars[n] = k + "=v" + val
				} else if op.Odd > 0 {
					ctxs[i].Variables[n] = []cty.Value{cty.NullVal(cty.DynamicPseudoType), cty.NullVal(cty.String), cty.DynamicVal, cty.UnknownVal(cty.String)}[op.Odd-1]
					refs[i].vars[n] = []string{"null", "null", "unknown", "unknown"}[op.Odd-1]
				}
			} else {
				if refs[i].funcs == nil {
					ctxs[i].Functions, refs[i].funcs = map[string]function.Function{}, map[string]string{}
				}
				ctxs[i].Functions[n], refs[i].funcs[n] = constFunc("f"+val), "f"+val
			}
		}
		for j := range ctxs {
			var wv, wf string
			var okv, okf bool
			depth := 0
			for k := j; k >= 0; k = refs[k].parent {
				if v, ok := refs[k].vars[op.Look]; ok && !okv {
					wv, okv = v, true
					if k != j {
						depth++
					}
				}
				if f, ok := refs[k].funcs[op.Look]; ok && !okf {
					wf, okf = f, true
					if k != j {
						depth++
					}
				}
			}
			r.NonTrivialIf(depth > 0)
			form := op.Form
			switch {
			case (wv == "null" || isObj(wv)) && (form == 3 || form == 5 || form >= 6), wv == "unknown" && form >= 7:
				form = 4 // not in a template or condition, where these mean something else
			}
			if wv == "null" || wv == "unknown" {
				r.Label(wv)
			}
			got, ok, err := lookup(op.Look, form, ctxs[j])
			if err != nil {
				return err
			}
			if ok != okv || got != wv {
				return errf("after step %d, variable %s in scope %d is %q (defined %v), expected %q (%v)", step, op.Look, j, got, ok, wv, okv)
			}
			// Steps into a value do not change which scope it comes from.
			if wv != "unknown" {
				wk, okk := "", isObj(wv) && wv[0] == 'k'
				if okk {
					wk = wv[2:]
				}
				got, ok, err := lookup(op.Look+".k", op.Form, ctxs[j])
				if err != nil {
					return err
				}
				if ok != okk || got != wk {
					return errf("after step %d, %s.k in scope %d is %q (defined %v), expected %q (%v)", step, op.Look, j, got, ok, wk, okk)
				}
			}
			call := op.Look + "()"
			if op.Look == "for" {
				continue
			}
			got, ok, err = lookup(call, max(op.Form, 2), ctxs[j])
			if err != nil {
				return err
			}
			if ok != okf || got != wf {
				return errf("after step %d, function %s in scope %d gives %q (defined %v), expected %q (%v)", step, op.Look, j, got, ok, wf, okf)
			}
			// A loop variable hides the name only inside of the loop.
			x, d := hclsyntax.ParseExpression([]byte("[for "+op.Look+" in [\"loop\"] : "+op.Look+"]"), "t", startPos)
			if d.HasErrors() {
				return errf("%s", diagStr(d))
			}
			v, d := x.Value(ctxs[j])
			if d.HasErrors() || !v.RawEquals(cty.TupleVal([]cty.Value{cty.StringVal("loop")})) {
				return errf("the loop variable %s is %s %s", op.Look, vstr(v), diagStr(d))
			}
			if len(ctxs[j].Variables) != len(refs[j].vars) || (ctxs[j].Variables == nil) != (refs[j].vars == nil) {
				return errf("evaluating changes the variables of the scope")
			}
		}
	}
	return nil
}

func init() {
	engine.Add("C39", "tree", "a name resolves to a scope further out", 120000, genScopeCase, checkScopes)
}
