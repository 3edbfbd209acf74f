package props

import (
	stdjson "encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/zclconf/go-cty/cty"
	ctyjson "github.com/zclconf/go-cty/cty/json"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// suiteTest is a test of a suite. The decoder that it is run with is a
// program that gives prepared answers, so what the test must say is known.
type suiteTest struct {
	Dir  int         `json:"dir"`            // index in suiteDirs
	In   int         `json:"in"`             // 1 native input, 2 JSON input, 3 both
	V    *model.Val  `json:"v,omitempty"`    // the result, nil: diagnostics
	Ty   bool        `json:"ty,omitempty"`   // the test file has the type
	Val  bool        `json:"val,omitempty"`  // the test file has the value
	Tr   bool        `json:"tr,omitempty"`   // the test file has references
	Refs []suiteRef  `json:"refs,omitempty"` // what the decoder reports
	Ds   []suiteDiag `json:"ds,omitempty"`
	Bad  string      `json:"bad,omitempty"` // what is wrong
	At   int         `json:"at,omitempty"`
	Oth  *model.Val  `json:"oth,omitempty"`
	Rng  [6]int      `json:"rng,omitempty"`
}

type suiteRef struct {
	Steps []string `json:"steps"` // a name, ".name", "[0]" or "[\"name\"]"
	Rng   [6]int   `json:"rng"`
}

type suiteDiag struct {
	Warn bool   `json:"warn,omitempty"`
	Rng  [6]int `json:"rng"`
}

type suiteCase struct {
	Tests []suiteTest `json:"tests"`
	Noise bool        `json:"noise,omitempty"` // files and directories that are no tests
}

var suiteDirs = []string{"", "sub", "sub/deep", "t.d"}

// What can be wrong with the answers or with the test file itself.
var suiteBad = []string{"value", "type", "extra ref", "less ref", "ref range", "ref file", "ref junk", "refs fail",
	"extra diag", "less diag", "diag range", "diag severity", "diag file", "diag without place", "diag junk", "diag kind",
	"fails", "succeeds", "junk", "no spec", "syntax", "extra item", "two traversals", "two diagnostics", "no diagnostics", "conflict",
	"range incomplete", "result type", "result refers", "result misfit"}

func genSix(t *rapid.T) [6]int {
	var r [6]int
	for i := range r {
		r[i] = model.Int(t, 1, 30, "pos")
	}
	return r
}

// oddSet tells types with sets that the cty library does not compare well.
func oddSet(ty model.Ty) bool {
	if ty.K == "set" && ty.E.K != "str" && ty.E.K != "bool" {
		return true
	}
	if ty.E != nil && oddSet(*ty.E) {
		return true
	}
	for _, e := range ty.Elems {
		if oddSet(e) {
			return true
		}
	}
	return false
}

func genSuiteTest(t *rapid.T, bad string) suiteTest {
	s := suiteTest{Dir: model.Weighted(t, 4, 2, 1, 1), In: model.Int(t, 1, 3, "in"), Bad: bad, At: model.Int(t, 0, 1000, "at"), Rng: genSix(t)}
	diag := model.Chance(t, 35)
	switch bad {
	case "extra diag", "less diag", "diag range", "diag severity", "diag file", "diag without place", "succeeds", "two diagnostics", "conflict":
		diag = true
	case "value", "type", "junk", "result type", "result refers", "result misfit", "diag junk", "diag kind", "fails":
		diag = false
	}
	if diag {
		seen := map[suiteDiag]bool{}
		for n := model.Count(t, 1, 3); n > 0; n-- {
			if d := (suiteDiag{model.Chance(t, 25), genSix(t)}); !seen[d] {
				seen[d] = true
				s.Ds = append(s.Ds, d)
			}
		}
	} else {
		o := model.PlainOpts()
		o.Null = 8
		o.Keys = func(t *rapid.T) string { return model.Pick(t, model.PlainIdents) } // names in types
		gen := func() *model.Val {
			ty := o.GenTyKeys(t, 2)
			if oddSet(ty) {
				ty = model.Ty{K: "list", E: &model.Ty{K: "str"}}
			}
			v := o.ValOf(t, ty)
			return &v
		}
		s.V, s.Oth = gen(), gen()
		s.Ty, s.Val = model.Chance(t, 70), model.Chance(t, 80)
		switch bad {
		case "value", "result refers":
			s.Val = true
		case "type", "result type":
			s.Ty = true
		case "result misfit":
			s.V = &model.Val{K: "str", S: "x"}
			s.Ty, s.Val = true, true
		}
	}
	s.Tr = model.Chance(t, 50) || strings.Contains(bad, "ref") && bad != "result refers" || bad == "two traversals" || bad == "range incomplete"
	seen := map[string]bool{}
	for n := model.Count(t, 0, 3); n > 0; n-- {
		f := suiteRef{Steps: []string{model.Pick(t, []string{"a", "b", "foo"})}, Rng: genSix(t)}
		for model.Chance(t, 50) && len(f.Steps) < 4 {
			f.Steps = append(f.Steps, model.Pick(t, []string{".a", ".b", "[0]", "[1]", "[\"a\"]", "[\"x y\"]"}))
		}
		if k := strings.Join(f.Steps, ""); !seen[k] {
			seen[k] = true
			s.Refs = append(s.Refs, f)
		}
	}
	return s
}

func genSuite(t *rapid.T) suiteCase {
	c := suiteCase{Noise: model.Chance(t, 40)}
	n := model.Count(t, 1, 4)
	at := -1
	if model.Chance(t, 70) {
		at = model.Int(t, 0, n-1, "at")
	}
	for i := 0; i < n; i++ {
		bad := ""
		if i == at {
			bad = model.Pick(t, suiteBad)
		}
		c.Tests = append(c.Tests, genSuiteTest(t, bad))
	}
	return c
}

func jrng(file string, r [6]int) map[string]interface{} {
	pos := func(p []int) map[string]int { return map[string]int{"line": p[0], "column": p[1], "byte": p[2]} }
	return map[string]interface{}{"filename": file, "start": pos(r[:3]), "end": pos(r[3:])}
}

func trng(r [6]int) string {
	pos := func(k string, p []int) string {
		return fmt.Sprintf("    %s {\n      line   = %d\n      column = %d\n      byte   = %d\n    }\n", k, p[0], p[1], p[2])
	}
	return pos("from", r[:3]) + pos("to", r[3:])
}

func mustJSON(v interface{}) string {
	b, err := stdjson.Marshal(v)
	if err != nil {
		engine.Fatal(err)
	}
	return string(b)
}

// testFile writes the test file.
func (s suiteTest) testFile() string {
	var b strings.Builder
	if s.V != nil {
		ty := s.V.TypeOf()
		v := model.ValExpr(*s.V).Native(nil)
		switch {
		case s.Bad == "result refers":
			fmt.Fprintf(&b, "result = nosuch\n")
		case s.Bad == "result misfit":
			fmt.Fprintf(&b, "result = %s\n", []string{"[]", "{}", "[\"x\"]", "{ x = \"x\" }"}[s.At%4])
		case s.Val:
			fmt.Fprintf(&b, "result = %s\n", v)
		}
		switch {
		case s.Bad == "result type":
			fmt.Fprintf(&b, "result_type = %s\n", []string{"strin", "list", "object(1)", "1"}[s.At%4])
		case s.Ty:
			fmt.Fprintf(&b, "result_type = %s\n", tyExpr(ty).Native(nil))
		}
	}
	if s.Bad == "conflict" {
		b.WriteString("result = 1\n")
	}
	if s.Tr {
		b.WriteString("traversals {\n")
		for i, f := range s.Refs {
			if s.Bad == "extra ref" && i == s.At%len(s.Refs) {
				continue
			}
			rng := trng(f.Rng)
			if s.Bad == "range incomplete" && i == s.At%len(s.Refs) {
				rng = strings.Replace(rng, []string{"line ", "column", "byte ", "from", "to"}[s.At%5], "other ", 1)
			}
			fmt.Fprintf(&b, "  expect {\n    ref = %s\n%s  }\n", strings.Join(f.Steps, ""), rng)
		}
		if s.Bad == "less ref" {
			fmt.Fprintf(&b, "  expect {\n    ref = zz.top\n%s  }\n", trng(s.Rng))
		}
		b.WriteString("}\n")
	}
	if s.Bad == "two traversals" {
		b.WriteString("traversals {\n}\n")
	}
	diags := func() {
		b.WriteString("diagnostics {\n")
		for i, d := range s.Ds {
			if s.Bad == "extra diag" && i == s.At%len(s.Ds) && len(s.Ds) > 1 {
				continue
			}
			k := "error"
			if d.Warn {
				k = "warning"
			}
			fmt.Fprintf(&b, "  %s {\n%s  }\n", k, trng(d.Rng))
		}
		if s.Bad == "less diag" {
			fmt.Fprintf(&b, "  error {\n%s  }\n", trng([6]int{50, 1, 1, 50, 1, 1}))
		}
		b.WriteString("}\n")
	}
	if len(s.Ds) > 0 {
		diags()
	}
	switch s.Bad {
	case "two diagnostics":
		diags()
	case "no diagnostics":
		b.WriteString("diagnostics {\n}\n")
	case "syntax":
		b.WriteString([]string{"a = \n", "}\n", "traversals {\n", "result = [\n"}[s.At%4])
	case "extra item":
		b.WriteString([]string{"results = 1\n", "other {\n}\n", "traversals \"x\" {\n}\n", "diagnostics {\n  note {\n  }\n}\n"}[s.At%4])
	}
	return b.String()
}

// badNow says whether a fault of the answers shows with an input.
func (s suiteTest) fault(input int) bool {
	if s.In == 3 && s.At%3 != 0 {
		// Only one of the two inputs has it.
		return input == 1+s.At%2
	}
	return true
}

// answers gives what the decoder writes for an input, as exit status,
// standard output and standard error.
func (s suiteTest) answers(input int, file string) (dec, refs [3]string) {
	bad := s.Bad
	if !s.fault(input) {
		bad = ""
	}
	refs[0] = "0"
	list := []interface{}{}
	for i, f := range s.Refs {
		steps := []interface{}{}
		for j, st := range f.Steps {
			name := file
			rng := [6]int{70, 1, 1, 70, 2, 2}
			// The whole reference reaches from the first to the last step.
			if j == 0 {
				copy(rng[:3], f.Rng[:3])
			}
			if j == len(f.Steps)-1 {
				copy(rng[3:], f.Rng[3:])
			}
			if i == s.At%len(s.Refs) {
				switch {
				case bad == "ref range" && j == 0 && s.At/7%2 == 0:
					rng[s.At/14%3]++
				case bad == "ref range" && j == len(f.Steps)-1 && s.At/7%2 == 1:
					rng[3+s.At/14%3]++
				case bad == "ref file":
					name = file + "x"
				}
			}
			m := map[string]interface{}{"range": jrng(name, rng)}
			switch {
			case j == 0:
				m["kind"], m["name"] = "root", st
			case st[0] == '.':
				m["kind"], m["name"] = "attr", st[1:]
			default:
				m["kind"], m["key"] = "index", stdjson.RawMessage(st[1:len(st)-1])
			}
			if bad == "ref junk" && i == s.At%len(s.Refs) && j == len(f.Steps)-1 && s.At%2 == 0 {
				m["kind"] = "other"
			}
			steps = append(steps, m)
		}
		list = append(list, map[string]interface{}{"steps": steps})
	}
	refs[1] = mustJSON(list)
	switch bad {
	case "ref junk":
		if s.At%2 == 1 {
			refs[1] = "[{"
		}
	case "refs fail":
		refs = [3]string{"2", "", mustJSON(map[string]interface{}{"diagnostics": []interface{}{map[string]interface{}{"severity": "error", "summary": "Failed", "subject": jrng(file, s.Rng)}}})}
	}

	if s.V != nil {
		v := *s.V
		val := v.Cty()
		switch bad {
		case "value", "type":
			val = s.Oth.Cty()
		}
		dec[0] = "0"
		b, err := ctyjson.Marshal(val, cty.DynamicPseudoType)
		if err != nil {
			engine.Fatal(err)
		}
		dec[1] = string(b)
		switch bad {
		case "junk":
			dec[1] = []string{"", "{", "{\"value\":1}", "[]x"}[s.At%4]
		case "fails":
			dec = [3]string{"2", "", mustJSON(map[string]interface{}{"diagnostics": []interface{}{map[string]interface{}{"severity": "error", "summary": "Failed", "subject": jrng(file, s.Rng)}}})}
		case "diag junk":
			dec = [3]string{"2", "", []string{"", "Usage: hcldec", "{\"diagnostics\":[", "[]"}[s.At%4]}
		case "diag kind":
			dec = [3]string{"2", "", mustJSON(map[string]interface{}{"diagnostics": []interface{}{map[string]interface{}{"severity": "note", "summary": "Failed", "subject": jrng(file, s.Rng)}}})}
		}
		return dec, refs
	}
	if bad == "succeeds" {
		return [3]string{"0", `{"value":1,"type":"number"}`, ""}, refs
	}
	var ds []interface{}
	for i, d := range s.Ds {
		m := map[string]interface{}{"severity": "error", "summary": "Wrong", "detail": "Very wrong."}
		if d.Warn {
			m["severity"] = "warning"
		}
		name, rng := file, d.Rng
		if i == s.At%len(s.Ds) {
			switch bad {
			case "diag range":
				rng[s.At/7%6] += 40
			case "diag severity":
				m["severity"] = map[bool]string{true: "error", false: "warning"}[d.Warn]
			case "diag file":
				name = file + "x"
			}
		}
		m["subject"] = jrng(name, rng)
		if bad == "diag without place" && i == s.At%len(s.Ds) {
			delete(m, "subject")
		}
		ds = append(ds, m)
	}
	if bad == "extra diag" {
		ds = append(ds, map[string]interface{}{"severity": "error", "summary": "Wrong too", "subject": jrng(file, [6]int{60, 1, 1, 60, 2, 2})})
	}
	return [3]string{"2", "", mustJSON(map[string]interface{}{"diagnostics": ds})}, refs
}

// passes says whether a test must pass. The second result is false where
// that is not decided.
func (s suiteTest) passes() (pass, decided bool) {
	if s.V != nil && s.Val && !s.Ty && !s.V.Cty().Type().Equals(s.untyped()) {
		// Without a type, the result is compared as written.
		return false, false
	}
	switch s.Bad {
	case "":
		return true, true
	case "value":
		return false, !model.SameValue(s.V.Cty(), s.Oth.Cty())
	case "type":
		return false, !s.V.Cty().Type().Equals(s.Oth.Cty().Type())
	case "ref range", "ref file", "ref junk", "extra ref", "range incomplete":
		if s.Bad == "ref junk" && s.At%2 == 1 {
			return false, true
		}
		if len(s.Refs) == 0 {
			return true, s.Bad != "ref junk" || s.At%2 == 0
		}
		return false, true
	case "refs fail", "less ref":
		return false, true
	case "two traversals":
		return false, true
	}
	return false, true
}

// untyped is the type of the result when it is written without one.
func (s suiteTest) untyped() cty.Type {
	v, err := model.ValExpr(*s.V).Eval(nil)
	if err != nil {
		return cty.NilType
	}
	return v.Type()
}

const fakeDecoder = `#!/bin/sh
mode=val
for a; do
  case $a in
  --var-refs) mode=refs ;;
  esac
  last=$a
done
printf '%s\n' "$*" >>"$FAKE_LOG"
cat "$last.$mode.out"
cat "$last.$mode.err" >&2
read code <"$last.$mode.code"
exit $code
`

func checkSuite(c suiteCase, r *engine.Rec) error {
	dir, done := scratch()
	defer done()
	put := func(name, src string) {
		name = filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(name), 0o755)
		if err := os.WriteFile(name, []byte(src), 0o644); err != nil {
			engine.Fatal(err)
		}
	}
	put("bin/decode", strings.ReplaceAll(fakeDecoder, "$FAKE_LOG", dir+"/log"))
	if err := os.Chmod(dir+"/bin/decode", 0o755); err != nil {
		engine.Fatal(err)
	}
	os.Mkdir(dir+"/tests", 0o755)
	want := true
	var desc []string
	var runs []string
	for i, s := range c.Tests {
		pass, ok := s.passes()
		if !ok {
			return nil
		}
		want = want && pass
		base := filepath.Join("tests", suiteDirs[s.Dir], fmt.Sprintf("test%d", i))
		tf := s.testFile()
		put(base+".t", tf)
		if s.Bad != "no spec" {
			put(base+".hcldec", "literal {\n  value = 1\n}\n")
		}
		desc = append(desc, fmt.Sprintf("-- %s.t (fault: %s, inputs %d) --\n%s", base, s.Bad, s.In, tf))
		for in, ext := range map[int]string{1: ".hcl", 2: ".hcl.json"} {
			if s.In&in == 0 {
				continue
			}
			file := base + ext
			put(file, "{}\n")
			dec, refs := s.answers(in, file)
			for k, a := range map[string][3]string{"val": dec, "refs": refs} {
				put(file+"."+k+".code", a[0]+"\n")
				put(file+"."+k+".out", a[1])
				put(file+"."+k+".err", a[2])
			}
			switch s.Bad {
			case "no spec", "syntax", "extra item", "two traversals", "two diagnostics", "no diagnostics", "conflict", "range incomplete", "result type", "result refers", "result misfit":
			default:
				runs = append(runs, fmt.Sprintf("--spec=%s.hcldec --diags=json --with-type %s", base, file))
				if s.Tr {
					runs = append(runs, fmt.Sprintf("--spec=%s.hcldec --diags=json --var-refs %s", base, file))
				}
			}
		}
		if s.Bad != "" {
			r.Label("fault: %s", s.Bad)
		}
	}
	if c.Noise {
		put("tests/.hidden/bad.t", "}\n")
		put("tests/.bad.t", "}\n")
		put("tests/notes.txt", "}\n")
		put("tests/sub/bad.tt", "}\n")
		put("tests/stray.hcl", "}\n")
		put("tests/empty/README.md", "}\n")
	}
	r.NonTrivialIf(len(c.Tests) > 1)
	res := runCmd(dir, "", "hclspecsuite", "tests", dir+"/bin/decode")
	all := fmt.Sprintf("%s-- exit %d --\n%s%s", strings.Join(desc, ""), res.code, res.out, res.err)
	r.Sample(all)
	if res.crashed() {
		return errf("the command crashes\n%s", all)
	}
	if want != (res.code == 0) {
		return errf("the suite should pass: %v\n%s", want, all)
	}
	if want && strings.TrimSpace(res.err) != "" {
		return errf("a suite that passes reports problems\n%s", all)
	}
	if !want && strings.TrimSpace(res.err) == "" {
		return errf("a suite that fails reports no problem\n%s", all)
	}
	for i := range c.Tests {
		if !strings.Contains(res.out, fmt.Sprintf("test%d\n", i)) {
			return errf("test%d is not listed\n%s", i, all)
		}
	}
	// Every test is run, also after one that fails.
	log, _ := os.ReadFile(dir + "/log")
	got := strings.Split(strings.TrimSpace(string(log)), "\n")
	must := map[string]bool{}
	for _, g := range got {
		f := strings.Fields(g)
		sort.Strings(f)
		must[strings.Join(f, " ")] = true
	}
	for _, w := range runs {
		f := strings.Fields(w)
		sort.Strings(f)
		if !must[strings.Join(f, " ")] {
			return errf("the decoder was not run with %s\n%s\n%s", w, log, all)
		}
	}
	return nil
}

func init() {
	engine.Add("C46", "suites", "at least two tests", 5000, genSuite, checkSuite).Ext()
}
