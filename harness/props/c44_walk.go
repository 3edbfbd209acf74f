package props

import (
	"fmt"
	"reflect"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"pgregory.net/rapid"

	"verif/engine"
)

var nodeType = reflect.TypeOf((*hclsyntax.Node)(nil)).Elem()

// astTree is the tree of nodes that the exported fields of a syntax tree
// describe. Only nodes that are pointers have an identity.
type astTree struct {
	parents map[hclsyntax.Node]map[hclsyntax.Node]bool
	order   []hclsyntax.Node
	// soft are nodes that stand for a name and not for an expression.
	soft map[hclsyntax.Node]bool
}

func (a *astTree) value(v reflect.Value, parent hclsyntax.Node, soft bool) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			a.value(v.Elem(), parent, soft)
		}
	case reflect.Ptr:
		if v.IsNil() || !v.Type().Implements(nodeType) {
			return
		}
		n := v.Interface().(hclsyntax.Node)
		first := a.parents[n] == nil
		if first {
			a.parents[n] = map[hclsyntax.Node]bool{}
			a.order = append(a.order, n)
			a.soft[n] = soft
		}
		if parent != nil {
			a.parents[n][parent] = true
		}
		a.soft[n] = a.soft[n] && soft
		if first {
			a.value(v.Elem(), n, soft)
		}
	case reflect.Struct:
		if v.Type().PkgPath() != nodeType.PkgPath() {
			return
		}
		_, key := parent.(*hclsyntax.ObjectConsKeyExpr)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				a.value(v.Field(i), parent, soft || key)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			a.value(v.Index(i), parent, soft)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			a.value(v.MapIndex(k), parent, soft)
		}
	}
}

type recWalker struct {
	stack []hclsyntax.Node
	seen  map[hclsyntax.Node]int
	up    map[hclsyntax.Node]hclsyntax.Node
	calls int
	err   error
	fail  map[int]bool
	want  []string
}

func isPtr(n hclsyntax.Node) bool { return reflect.TypeOf(n).Kind() == reflect.Ptr }

func (w *recWalker) diag(kind string) hcl.Diagnostics {
	w.calls++
	if !w.fail[w.calls%7] {
		return nil
	}
	s := fmt.Sprintf("%s %d", kind, w.calls)
	w.want = append(w.want, s)
	return hcl.Diagnostics{{Severity: hcl.DiagError, Summary: s}}
}

func (w *recWalker) Enter(n hclsyntax.Node) hcl.Diagnostics {
	if isPtr(n) {
		w.seen[n]++
		for i := len(w.stack) - 1; i >= 0; i-- {
			if isPtr(w.stack[i]) {
				w.up[n] = w.stack[i]
				break
			}
		}
	}
	w.stack = append(w.stack, n)
	return w.diag("enter")
}

func (w *recWalker) Exit(n hclsyntax.Node) hcl.Diagnostics {
	if len(w.stack) == 0 {
		w.err = errf("left %T without having entered it", n)
		return nil
	}
	top := w.stack[len(w.stack)-1]
	if reflect.TypeOf(top) != reflect.TypeOf(n) || isPtr(n) && top != n {
		w.err = errf("left %T inside %T", n, top)
	}
	w.stack = w.stack[:len(w.stack)-1]
	return w.diag("exit")
}

func sameSummaries(what string, diags hcl.Diagnostics, want []string) error {
	if len(diags) != len(want) {
		return errf("%s returned %d diagnostics, the callbacks %d", what, len(diags), len(want))
	}
	for i, d := range diags {
		if d.Summary != want[i] {
			return errf("%s returned diagnostic %q where %q came", what, d.Summary, want[i])
		}
	}
	return nil
}

func checkWalkNode(root hclsyntax.Node, r *engine.Rec, fail map[int]bool) error {
	a := &astTree{parents: map[hclsyntax.Node]map[hclsyntax.Node]bool{}, soft: map[hclsyntax.Node]bool{}}
	a.value(reflect.ValueOf(root), nil, false)
	r.NonTrivialIf(len(a.order) >= 6)

	seen := map[hclsyntax.Node]int{}
	calls := 0
	var want []string
	diags := hclsyntax.VisitAll(root, func(n hclsyntax.Node) hcl.Diagnostics {
		calls++
		if isPtr(n) {
			seen[n]++
		}
		if !fail[calls%7] {
			return nil
		}
		s := fmt.Sprintf("visit %d", calls)
		want = append(want, s)
		return hcl.Diagnostics{{Severity: hcl.DiagWarning, Summary: s}}
	})
	if err := sameSummaries("VisitAll", diags, want); err != nil {
		return err
	}
	w := &recWalker{seen: map[hclsyntax.Node]int{}, up: map[hclsyntax.Node]hclsyntax.Node{}, fail: fail}
	diags = hclsyntax.Walk(root, w)
	if w.err != nil {
		return w.err
	}
	if len(w.stack) != 0 {
		return errf("%d nodes were entered and not left", len(w.stack))
	}
	if err := sameSummaries("Walk", diags, w.want); err != nil {
		return err
	}
	if calls*2 != w.calls {
		return errf("VisitAll called back %d times, Walk %d times", calls, w.calls)
	}
	for what, seen := range map[string]map[hclsyntax.Node]int{"VisitAll": seen, "Walk": w.seen} {
		for _, n := range a.order {
			switch {
			case seen[n] > 1:
				return errf("%s visited %T at %s %d times", what, n, n.Range(), seen[n])
			case seen[n] == 0 && !a.soft[n]:
				return errf("%s did not visit %T at %s", what, n, n.Range())
			}
		}
		for n := range seen {
			if a.parents[n] == nil {
				return errf("%s visited %T at %s, which is not part of the tree", what, n, n.Range())
			}
		}
	}
	for n, up := range w.up {
		if !a.parents[n][up] {
			return errf("%T at %s was visited inside %T at %s, which it is not part of", n, n.Range(), up, up.Range())
		}
		r.Label("%T in %T", n, up)
	}
	return nil
}

type walkCase struct {
	bodyCase
	Fail []int `json:"fail,omitempty"`
}

func genWalkCase(t *rapid.T) walkCase {
	return walkCase{genBodyCase(t), rapid.SliceOfN(rapid.IntRange(0, 6), 0, 3).Draw(t, "fail")}
}

type walkSrcCase struct {
	srcCase
	Fail []int `json:"fail,omitempty"`
}

func failSet(l []int) map[int]bool {
	m := map[int]bool{}
	for _, i := range l {
		m[i] = true
	}
	return m
}

func init() {
	engine.Add("C44", "body", "a syntax tree with at least 6 nodes", 60000, genWalkCase, func(c walkCase, r *engine.Rec) error {
		src := c.Body.Native(c.Lay).Src
		r.Sample(src)
		f, diags := hclsyntax.ParseConfig([]byte(src), "t.hcl", startPos)
		if diags.HasErrors() {
			return errf("valid configuration rejected: %s", diagStr(diags))
		}
		return checkWalkNode(f.Body.(*hclsyntax.Body), r, failSet(c.Fail))
	})
	engine.Add("C44", "any source", "a syntax tree with at least 6 nodes", 200000,
		func(t *rapid.T) walkSrcCase {
			return walkSrcCase{genSrcCase(t), rapid.SliceOfN(rapid.IntRange(0, 6), 0, 3).Draw(t, "fail")}
		},
		func(c walkSrcCase, r *engine.Rec) error {
			r.Sample(string(c.Src))
			fail := failSet(c.Fail)
			f, _ := hclsyntax.ParseConfig(c.Src, "t.hcl", c.start())
			if f != nil && f.Body != nil {
				if err := checkWalkNode(f.Body.(*hclsyntax.Body), r, fail); err != nil {
					return errf("configuration: %w", err)
				}
			}
			e, _ := hclsyntax.ParseExpression(c.Src, "t.hcl", c.start())
			if e != nil {
				if err := checkWalkNode(e, r, fail); err != nil {
					return errf("expression: %w", err)
				}
			}
			e, _ = hclsyntax.ParseTemplate(c.Src, "t.hcl", c.start())
			if e != nil {
				if err := checkWalkNode(e, r, fail); err != nil {
					return errf("template: %w", err)
				}
			}
			return nil
		})
}
