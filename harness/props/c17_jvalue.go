package props

import (
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type jxCase struct {
	Scope model.Scope `json:"scope"`
	X     *model.JX   `json:"x"`
	Lay   []byte      `json:"lay,omitempty"`
}

type jkeysCase struct {
	Keys []int `json:"keys"`
	Nest bool  `json:"nest,omitempty"`
}

// jkeys are property names with a known meaning in the scope below.
var jkeys = []struct{ text, want string }{
	{"a", "a"}, {"${str}", "s"}, {"s", "s"}, {"x${num}", "x5"}, {"${num}", "5"}, {"5", "5"}, {"${bool}", "true"},
	{"${unk}", "?"}, {"${dyn}", "?"}, {"p${unk}", "?"}, {"${null}", "!"}, {"${nullstr}", "!"}, {"${list}", "!"}, {"${undefined_name}", "!"}, {"${", "!"}, {"$${a}", "${a}"}, {"%{ if bool }q%{ endif }", "q"},
	{"\u00e9", "\u00e9"}, {"e\u0301", "\u00e9"},
}

func init() {
	engine.Add("C17", "value", "the value has a template with an interpolation, or at least 4 nodes", 360000,
		func(t *rapid.T) jxCase {
			c := jxCase{Scope: model.GenScopeN(t, genScopeOpts(), 1)}
			g := model.NewGen(t, c.Scope, 4)
			c.X = g.JX(model.Int(t, 0, 3, "depth"))
			c.Lay = lay(t)
			return c
		},
		func(c jxCase, r *engine.Rec) error {
			j := c.X.J()
			doc := &model.J{K: "obj", Keys: []string{"a"}, L: []*model.J{j}}
			src, _ := doc.Text(c.Lay)
			r.Sample(src)
			r.NonTrivialIf(j.Size() >= 4 || len(c.X.Free()) > 0)
			e, err := parseJSONAttr(src)
			if err != nil {
				return errf("%s\n%s", err, src)
			}
			want, werr := c.X.Eval(nil)
			got, diags := e.Value(nil)
			if err := sameOutcome("(literally) "+src, got, diags, want, werr); err != nil {
				return err
			}
			want, werr = c.X.Eval(c.Scope.Env())
			got, diags, err = guardValue(e, evalCtx(c.Scope.Map()), werr)
			if err != nil {
				return err
			}
			switch {
			case werr == model.ErrUndetermined || werr == model.ErrDependency:
				r.Label("undetermined")
			case werr != nil:
				r.Label("error expected")
			default:
				r.Label("value expected")
			}
			if err := sameOutcome(src, got, diags, want, werr); err != nil {
				return err
			}
			if !strings.Contains(src, "\\") {
				if err := unknownRoots(src, diags); err != nil {
					return err
				}
			}
			return compareVars(e.Variables(), c.X.Free())
		})
	scope := map[string]cty.Value{
		"str": cty.StringVal("s"), "num": cty.NumberIntVal(5), "bool": cty.True,
		"unk": cty.UnknownVal(cty.String), "dyn": cty.DynamicVal, "nullstr": cty.NullVal(cty.String),
		"list": cty.ListVal([]cty.Value{cty.StringVal("z")}),
	}
	engine.Add("C17", "keys", "at least two keys, one of them not a plain name", 180000,
		func(t *rapid.T) jkeysCase {
			return jkeysCase{Keys: rapid.SliceOfN(rapid.IntRange(0, len(jkeys)-1), 0, 5).Draw(t, "keys"), Nest: model.Chance(t, 30)}
		},
		func(c jkeysCase, r *engine.Rec) error {
			obj := &model.J{K: "obj"}
			want := map[string]cty.Value{}
			bad, unknown := false, false
			lits, litBad := map[string]cty.Value{}, false
			for i, k := range c.Keys {
				obj.Keys = append(obj.Keys, jkeys[k].text)
				obj.L = append(obj.L, &model.J{K: "num", S: model.NumText(i)})
				v := cty.NumberIntVal(int64(i))
				lk := model.NFC(jkeys[k].text)
				if _, dup := lits[lk]; dup {
					litBad = true
				} else {
					lits[lk] = v
				}
				switch w := jkeys[k].want; w {
				case "?":
					unknown = true
				case "!":
					bad = true
				default:
					if _, dup := want[w]; dup {
						bad = true
					} else {
						want[w] = v
					}
				}
			}
			var doc *model.J
			if c.Nest {
				doc = &model.J{K: "obj", Keys: []string{"a"}, L: []*model.J{{K: "arr", L: []*model.J{obj}}}}
			} else {
				doc = &model.J{K: "obj", Keys: []string{"a"}, L: []*model.J{obj}}
			}
			src, _ := doc.Text(nil)
			r.Sample(src)
			r.NonTrivialIf(len(c.Keys) >= 2 && (bad || unknown))
			e, err := parseJSONAttr(src)
			if err != nil {
				return errf("%s\n%s", err, src)
			}
			check := func(ctx *hcl.EvalContext, bad, unknown bool, want map[string]cty.Value) error {
				got, diags := e.Value(ctx)
				if diags.HasErrors() != bad {
					return errf("%s evaluates with %s, error expected: %v", src, orNone(diags), bad)
				}
				if bad {
					return nil
				}
				w := cty.ObjectVal(want)
				if unknown {
					w = cty.DynamicVal
				}
				if c.Nest {
					w = cty.TupleVal([]cty.Value{w})
				}
				if !got.RawEquals(w) {
					return errf("%s evaluates to %s, want %s", src, vstr(got), vstr(w))
				}
				return nil
			}
			if err := check(nil, litBad, false, lits); err != nil {
				return errf("literally, %s", err)
			}
			if err := check(evalCtx(scope), bad, unknown, want); err != nil {
				return err
			}
			return nil
		})
}
