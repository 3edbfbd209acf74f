// Package props registers the oracles of all properties.
package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	"pgregory.net/rapid"

	"verif/model"
)

var startPos = hcl.Pos{Line: 1, Column: 1}

func errf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

func diagStr(d hcl.Diagnostics) string {
	var s []string
	for _, x := range d {
		subj := ""
		if x.Subject != nil {
			subj = x.Subject.String() + ": "
		}
		s = append(s, subj+x.Summary+": "+x.Detail)
	}
	return strings.Join(s, "; ")
}

var ctyFuncs = func() map[string]function.Function {
	m := map[string]function.Function{}
	for n, f := range model.StdFuncs() {
		m[n] = f.Cty()
	}
	return m
}()

func evalCtx(vars map[string]cty.Value) *hcl.EvalContext {
	return &hcl.EvalContext{Variables: vars, Functions: ctyFuncs}
}

// lay draws layout noise.
func lay(t *rapid.T) []byte {
	if model.Chance(t, 30) {
		return nil
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "lay")
}

func vstr(v cty.Value) string {
	if v == cty.NilVal {
		return "<nil value>"
	}
	s := v.GoString()
	if len(s) > 800 {
		s = s[:800] + "..."
	}
	return s
}

// parseAttrExpr parses "a = <src>\n" and returns the expression.
func parseAttrExpr(src string) (hclsyntax.Expression, error) {
	f, diags := hclsyntax.ParseConfig([]byte("a = "+src+"\n"), "t.hcl", startPos)
	if diags.HasErrors() {
		return nil, errf("valid attribute rejected: %s", diagStr(diags))
	}
	body := f.Body.(*hclsyntax.Body)
	at := body.Attributes["a"]
	if at == nil || len(body.Attributes) != 1 || len(body.Blocks) != 0 {
		return nil, errf("body has unexpected items")
	}
	return at.Expr, nil
}

// unknownRoots checks that a diagnostic about a reference to a variable that
// is not in scope points at the name of the variable.
func unknownRoots(src string, diags hcl.Diagnostics) error {
	for _, d := range diags {
		x, ok := d.Expression.(*hclsyntax.ScopeTraversalExpr)
		if !ok || d.Subject == nil {
			continue
		}
		root, found := x.Traversal.RootName(), false
		for ctx := d.EvalContext; ctx != nil; ctx = ctx.Parent() {
			_, has := ctx.Variables[root]
			found = found || has
		}
		if found {
			continue
		}
		if a, b := d.Subject.Start.Byte, d.Subject.End.Byte; a < 0 || b > len(src) || a > b || src[a:b] != root {
			return errf("the diagnostic about the unknown variable %s is at %s\n%s", root, rngStr(*d.Subject), src)
		}
	}
	return nil
}

// sameOutcome compares an evaluation with the reference.
func sameOutcome(src string, got cty.Value, diags hcl.Diagnostics, want cty.Value, werr error) error {
	if err := wellFormed("evaluating "+src, diags); err != nil {
		return err
	}
	return sameResult(src, got, diags, want, werr)
}

// sameResult is sameOutcome without regard to the shape of the diagnostics.
func sameResult(src string, got cty.Value, diags hcl.Diagnostics, want cty.Value, werr error) error {
	if werr == model.ErrUndetermined || werr == model.ErrDependency {
		return nil
	}
	if werr != nil {
		if !diags.HasErrors() {
			return errf("evaluating %s should fail (%s) but gave %s", src, werr, vstr(got))
		}
		return nil
	}
	if diags.HasErrors() {
		return errf("evaluating %s should give %s but failed: %s", src, vstr(want), diagStr(diags))
	}
	if !model.SameValue(got, want) {
		return errf("evaluating %s gave %s, want %s", src, vstr(got), vstr(want))
	}
	return nil
}

// wellFormed checks that each diagnostic has a severity, a summary and a
// subject.
func wellFormed(what string, diags hcl.Diagnostics) error {
	if err := shaped(what, diags); err != nil {
		return err
	}
	for _, d := range diags {
		if d.Subject == nil {
			return errf("%s: diagnostic %q (%s) has no subject", what, d.Summary, d.Detail)
		}
	}
	return nil
}

// wellFormedIn is wellFormed for a body made in a given way.
func wellFormedIn(form, what string, diags hcl.Diagnostics) error {
	if form == "merge" {
		return shaped(what, diags)
	}
	return wellFormed(what, diags)
}

// shaped is wellFormed for diagnostics that may lack a subject, as those of
// merged bodies do.
func shaped(what string, diags hcl.Diagnostics) error {
	for _, d := range diags {
		if d == nil {
			return errf("%s: nil diagnostic", what)
		}
		if d.Severity != hcl.DiagError && d.Severity != hcl.DiagWarning {
			return errf("%s: diagnostic %q (%s) has severity %d", what, d.Summary, d.Detail, d.Severity)
		}
		if d.Summary == "" {
			return errf("%s: diagnostic without summary: %q", what, d.Detail)
		}
	}
	return nil
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func sameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// diagSet renders diagnostics as a sorted set.
func diagSet(ds hcl.Diagnostics) string {
	set := map[string]bool{}
	for _, d := range ds {
		s := fmt.Sprintf("%d %s", d.Severity, d.Summary)
		if d.Subject != nil {
			s += " " + d.Subject.String()
		}
		set[s] = true
	}
	return strings.Join(model.SortedKeys(set), "; ")
}
