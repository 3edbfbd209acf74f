// Package engine runs property-based checks: it drives rapid generators,
// applies oracles, shrinks failures into replay files and measures coverage.
package engine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Rec collects what a single evaluation of an oracle observed.
type Rec struct {
	nontrivial bool
	labels     []string
	sample     string
}

// NonTrivial marks the case as non-trivial by the sub-check's stated rule.
func (r *Rec) NonTrivial() { r.nontrivial = true }

// NonTrivialIf marks the case as non-trivial when cond holds.
func (r *Rec) NonTrivialIf(cond bool) {
	if cond {
		r.nontrivial = true
	}
}

// Label counts the case under a class, for measuring the generator.
func (r *Rec) Label(format string, args ...interface{}) {
	r.labels = append(r.labels, fmt.Sprintf(format, args...))
}

// Sample sets a readable rendering of the case for the evidence file.
func (r *Rec) Sample(s string) {
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	r.sample = s
}

// Known is an error for a behaviour that may be listed as a known finding.
// The runner treats it as a violation unless ID is listed.
type Known struct {
	ID  string
	Err error
}

func (k *Known) Error() string { return fmt.Sprintf("[%s] %s", k.ID, k.Err) }

// Sub is one sub-check of a property.
type Sub struct {
	Prop   string
	Name   string
	Rule   string
	Quick  int // cases in the quick tier
	Weight int // thorough multiplier (default used when 0)

	// External sub-checks run other processes. For all others, failing to
	// return is itself a violation.
	External bool

	// Serial sub-checks run in shard 0 only.
	Serial bool

	gen   func(t *rapid.T) interface{}
	dec   func(b []byte) (interface{}, error)
	check func(c interface{}, r *Rec) error
}

var registry []*Sub

// Add registers a sub-check over cases of type T.
func Add[T any](prop, name, rule string, quick int, gen func(t *rapid.T) T, check func(c T, r *Rec) error) *Sub {
	s := &Sub{
		Prop: prop, Name: name, Rule: rule, Quick: quick,
		gen: func(t *rapid.T) interface{} { return gen(t) },
		dec: func(b []byte) (interface{}, error) {
			var c T
			d := json.NewDecoder(bytes.NewReader(b))
			err := d.Decode(&c)
			return c, err
		},
		check: func(c interface{}, r *Rec) error { return check(c.(T), r) },
	}
	registry = append(registry, s)
	return s
}

// Ext marks the sub-check as one that runs other processes.
func (s *Sub) Ext() *Sub { s.External = true; return s }

// Subs returns the sub-checks of a property.
func Subs(prop string) []*Sub {
	var ret []*Sub
	for _, s := range registry {
		if s.Prop == prop {
			ret = append(ret, s)
		}
	}
	return ret
}

// Properties lists the ids that have sub-checks.
func Properties() []string {
	m := map[string]bool{}
	for _, s := range registry {
		m[s.Prop] = true
	}
	var ret []string
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}

// Fatal ends the process when the check itself cannot work.
func Fatal(err error) {
	fmt.Fprintf(os.Stderr, "the check cannot run: %s\n", err)
	os.Exit(4)
}

// runCheck applies the oracle, converting panics into errors.
func (s *Sub) runCheck(c interface{}, r *Rec) (err error) {
	defer func() {
		if p := recover(); p != nil {
			stack := string(debug.Stack())
			if k := knownPanic(stack); k != "" {
				err = &Known{ID: k, Err: fmt.Errorf("panic: %v", p)}
				return
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(stack))
		}
	}()
	return s.check(c, r)
}

// KnownPanic is knownPanic for the output of a command.
func KnownPanic(stderr string) string {
	if i := strings.Index(stderr, "goroutine "); i >= 0 && strings.Contains(stderr[:i], "panic: ") {
		if j := strings.Index(stderr[i:], "\ngithub.com/zclconf/go-cty/cty."); j >= 0 {
			return knownPanic(stderr[i+j+1:])
		}
	}
	return ""
}

// knownPanic recognises the call site of a panic that is listed as a known
// finding: the cty library failing to unify the types of a
// conditional's branches or to convert its result to the unified type.
func knownPanic(stack string) string {
	var frames []string
	for i, l := range dropRecover(strings.Split(stack, "\n")) {
		if i%2 == 0 && l != "" {
			frames = append(frames, l)
		}
	}
	if len(frames) == 0 || !strings.HasPrefix(frames[0], "github.com/zclconf/go-cty/cty.") {
		return ""
	}
	conv, unify := false, false
	for i, f := range frames {
		conv = conv || strings.HasPrefix(f, "github.com/zclconf/go-cty/cty/convert.")
		unify = unify || strings.HasPrefix(f, "github.com/zclconf/go-cty/cty/convert.UnifyUnsafe(")
		if !strings.HasPrefix(f, "github.com/hashicorp/hcl2/") {
			continue
		}
		// The innermost call of the code under test, and its callers.
		if conv && strings.HasPrefix(f, "github.com/hashicorp/hcl2/hcl/hclsyntax.") {
			for _, f := range frames[i:min(i+3, len(frames))] {
				if strings.Contains(f, "hclsyntax.(*ConditionalExpr).") {
					return "cty-convert-panic"
				}
			}
		}
		// The same for the types of several blocks. Whether it fails depends
		// on the order in which the library visits a map.
		// Converting their values may end in a collection of
		// different types, which the library builds on its own.
		made := regexp.MustCompile(`^github\.com/zclconf/go-cty/cty\.(List|Set|Map)Val\(`).MatchString(frames[0]) &&
			i > 1 && strings.HasPrefix(frames[1], "github.com/zclconf/go-cty/cty/convert.conversion")
		if (unify || made) && strings.HasPrefix(f, "github.com/hashicorp/hcl2/hcldec.") {
			return "hcldec-cty-panic"
		}
		break
	}
	return ""
}

// dropRecover drops the frames of the recover machinery itself.
func dropRecover(lines []string) []string {
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			return lines[i+2:]
		}
	}
	return lines
}

func trimStack(s string) string {
	lines := dropRecover(strings.Split(s, "\n"))
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func marshal(c interface{}) []byte {
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(c); err != nil {
		panic(err)
	}
	return bytes.TrimSpace(buf.Bytes())
}
