package props

import (
	"bytes"
	stdjson "encoding/json"
	"errors"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hcldec"
	"github.com/zclconf/go-cty/cty"
	"github.com/zclconf/go-cty/cty/function"
	ctyjson "github.com/zclconf/go-cty/cty/json"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// runResult is the outcome of a command.
type runResult struct {
	out, err string
	code     int
}

// runCmd runs one of the built commands in a scratch directory.
func runCmd(dir, stdin string, args ...string) runResult {
	bin := os.Getenv("VERIF_BIN")
	if bin == "" {
		engine.Fatal(errors.New("VERIF_BIN is not set"))
	}
	cmd := exec.Command(filepath.Join(bin, args[0]), args[1:]...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOTRACEBACK=single"}
	cmd.Stdin = strings.NewReader(stdin)
	var out, err bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &err
	if e := cmd.Start(); e != nil {
		engine.Fatal(e)
	}
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	e := cmd.Wait()
	if !timer.Stop() {
		engine.Fatal(errors.New("a command did not end within a minute"))
	}
	res := runResult{out: out.String(), err: err.String()}
	if e != nil {
		var ee *exec.ExitError
		if !errors.As(e, &ee) {
			engine.Fatal(e)
		}
		if ee.ExitCode() < 0 {
			engine.Fatal(fmt.Errorf("the command was killed: %s", e))
		}
		res.code = ee.ExitCode()
	}
	return res
}

// crashed says whether a command ended in a panic.
func (r runResult) crashed() bool {
	return strings.Contains(r.err, "panic: ") && strings.Contains(r.err, "goroutine ")
}

type cmdVar struct {
	Name string    `json:"name"`
	V    model.Val `json:"v"`
	At   int       `json:"at"` // 0 spec file, 1 argument, 2 native file, 3 JSON file
}

type decCmdCase struct {
	Spec  *model.Spec `json:"spec"`
	Body  *model.Body `json:"body"`
	Vars  []cmdVar    `json:"vars"`
	Funcs bool        `json:"funcs,omitempty"`
	Fn    int         `json:"fn"`  // a custom function call in the input, one more than its index
	Lit   int         `json:"lit"` // a function call in a literal, one more than its index
	Cut   []int       `json:"cut,omitempty"`
	JSON  []bool      `json:"json"` // the syntax of each file
	Stdin bool        `json:"stdin,omitempty"`
	Opt   []string    `json:"opt,omitempty"` // diags, with-type, out, var-refs
	Lay   []byte      `json:"lay,omitempty"`
	Wrap  []byte      `json:"wrap,omitempty"`
	Bad   string      `json:"bad,omitempty"`
	BadAt int         `json:"bad_at,omitempty"`
}

var specCalls = []struct {
	text string
	want cty.Value
}{
	{"abs(0-3)", cty.NumberIntVal(3)},
	{"coalesce(null, \"x\", \"y\")", cty.StringVal("x")},
	{"concat([1], [2, true])", cty.TupleVal([]cty.Value{cty.NumberIntVal(1), cty.NumberIntVal(2), cty.True})},
	{"hasindex([1], 0)", cty.True},
	{"hasindex([1], 1)", cty.False},
	{"int(0-2.7)", cty.NumberIntVal(-2)},
	{"jsondecode(\"{\\\"a\\\":[1,null]}\")", cty.ObjectVal(map[string]cty.Value{"a": cty.TupleVal([]cty.Value{cty.NumberIntVal(1), cty.NullVal(cty.DynamicPseudoType)})})},
	{"jsonencode({a=1})", cty.StringVal("{\"a\":1}")},
	{"length([1, 2])", cty.NumberIntVal(2)},
	{"lower(\"ÀB\")", cty.StringVal("àb")},
	{"max(1, 5, 2)", cty.NumberIntVal(5)},
	{"min(3, 1, 2)", cty.NumberIntVal(1)},
	{"reverse(\"abé\")", cty.StringVal("éba")},
	{"strlen(\"é日\")", cty.NumberIntVal(2)},
	{"substr(\"hello\", 1, 3)", cty.StringVal("ell")},
	{"upper(\"àb\")", cty.StringVal("ÀB")},
}

var customFuncs = `
function "add_one" {
  params = [n]
  result = n + 1
}
function "upper" {
  params = [str]
  result = upper(str)
}
function "least" {
  params         = []
  variadic_param = nums
  result         = min(nums...)
}
`

var customCalls = []struct {
	text string
	want cty.Value
}{
	{"add_one(41)", cty.NumberIntVal(42)},
	{"upper(\"abc\")", cty.StringVal("ABC")},
	{"least(3, 2, 9)", cty.NumberIntVal(2)},
	{"add_one(least(3, 4))", cty.NumberIntVal(4)},
	{"add_one(\"x\")", cty.NilVal},
	{"add_one()", cty.NilVal},
	{"lower(\"A\")", cty.NilVal}, // a function of the specification file only
}

var specDamage = []string{"two roots", "no root", "no name", "no block_type", "label in array", "no label in object", "string type", "no labels", "no nested", "two nested", "extra argument", "unknown block", "bad result", "no value", "syntax", "soup", "bad variable", "bad nested default", "bad vars", "missing file"}

func genDecCmd(bad bool) func(t *rapid.T) decCmdCase {
	return func(t *rapid.T) decCmdCase {
		c := decCmdCase{Lay: lay(t), Wrap: rapid.SliceOfN(rapid.Byte(), 0, 16).Draw(t, "wrap")}
		o := model.PlainOpts()
		o.Null = 6
		var scope model.Scope
		if model.Chance(t, 92) {
			scope = model.GenScopeN(t, o, 1)
		}
		for i := range scope.Vals {
			scope.Vals[i] = scope.Vals[i].Plain()
			c.Vars = append(c.Vars, cmdVar{Name: scope.Names[i], V: scope.Vals[i], At: model.Int(t, 0, 3, "at")})
		}
		g := model.NewGen(t, scope, 0)
		g.NoFuncs = true
		sg := &model.SpecGen{T: t, G: g, Scope: scope, Cmd: true}
		if model.Chance(t, 20) {
			sg.Bad = model.Pick(t, []int{4, 12})
			sg.Once = model.Chance(t, 50)
		}
		sg.Labels = func(t *rapid.T) string { return model.Pick(t, []string{"x", "y", "foo", "é", "a b"}) }
		c.Spec = sg.Spec(model.Int(t, 1, 3, "depth"))
		c.Body = sg.Body(c.Spec)
		fitLabels(c.Spec, c.Body)
		c.Funcs = model.Chance(t, 30)
		if c.Funcs {
			c.Fn = model.Int(t, 0, len(customCalls), "fn")
		}
		if model.Chance(t, 25) {
			c.Lit = model.Int(t, 1, len(specCalls), "lit")
		}
		for n := model.Weighted(t, 6, 2, 1); n > 0; n-- {
			c.Cut = append(c.Cut, model.Int(t, 0, len(c.Body.Items), "cut"))
		}
		sort.Ints(c.Cut)
		for i := 0; i <= len(c.Cut); i++ {
			c.JSON = append(c.JSON, model.Chance(t, 30))
		}
		c.Stdin = len(c.Cut) == 0 && model.Chance(t, 30)
		if c.Stdin {
			c.JSON[0] = false
		}
		for _, o := range []string{"diags", "with-type", "out", "var-refs"} {
			if model.Chance(t, 15) {
				c.Opt = append(c.Opt, o)
			}
		}
		if model.Chance(t, 50) {
			c.Opt = append(c.Opt, "diags")
		}
		if bad {
			c.Bad = model.Pick(t, specDamage)
			c.BadAt = model.Int(t, 0, 1<<16, "at")
		}
		return c
	}
}

func (c decCmdCase) opt(n string) bool {
	for _, o := range c.Opt {
		if o == n {
			return true
		}
	}
	return false
}

// tyText writes a type expression.
func tyText(t *model.Ty) string {
	switch t.K {
	case "str":
		return "string"
	case "num":
		return "number"
	case "bool":
		return "bool"
	case "list", "set", "map":
		return t.K + "(" + tyText(t.E) + ")"
	case "tuple":
		var s []string
		for i := range t.Elems {
			s = append(s, tyText(&t.Elems[i]))
		}
		return "tuple([" + strings.Join(s, ", ") + "])"
	case "obj":
		var s []string
		for i := range t.Elems {
			s = append(s, model.QuoteString(t.Names[i])+" = "+tyText(&t.Elems[i]))
		}
		return "object({" + strings.Join(s, ", ") + "})"
	}
	return "any"
}

// specWriter writes a specification file.
type specWriter struct {
	b    strings.Builder
	wrap []byte
	i, n int
}

func (w *specWriter) pick(n int) int {
	if len(w.wrap) == 0 {
		return 0
	}
	w.i++
	return int(w.wrap[w.i%len(w.wrap)]) % n
}

func (w *specWriter) open(kind string, label *string) {
	w.b.WriteString(kind)
	if label != nil {
		w.b.WriteString(" " + model.QuoteString(*label))
	}
	w.b.WriteString(" {\n")
}

// name writes the argument with the name to look for, unless the label
// already says it.
func (w *specWriter) name(arg, name string, label *string) {
	if label == nil || *label != name || w.pick(2) == 1 {
		fmt.Fprintf(&w.b, "%s = %s\n", arg, model.QuoteString(name))
	}
}

func (w *specWriter) req(req bool) {
	if req || w.pick(3) == 1 {
		fmt.Fprintf(&w.b, "required = %v\n", req)
	}
}

func (w *specWriter) spec(s *model.Spec, label *string) {
	if w.n < 3 && w.pick(12) == 11 { // a default that makes no difference
		w.n++
		w.open("default", label)
		w.spec(s, nil)
		w.b.WriteString("}\n")
		return
	}
	nested := func() {
		for _, x := range s.Subs {
			w.spec(x, nil)
		}
	}
	switch s.K {
	case "obj":
		w.open("object", label)
		for i, x := range s.Subs {
			w.spec(x, &s.Names[i])
		}
	case "tuple":
		w.open("array", label)
		nested()
	case "attr":
		w.open("attr", label)
		w.name("name", s.Name, label)
		if s.Ty.K != "dyn" || w.pick(2) == 1 {
			fmt.Fprintf(&w.b, "type = %s\n", tyText(s.Ty))
		}
		w.req(s.Req)
	case "lit":
		w.open("literal", label)
		fmt.Fprintf(&w.b, "value = %s\n", model.ValExpr(*s.V).Native(nil))
	case "block":
		w.open("block", label)
		w.name("block_type", s.Name, label)
		w.req(s.Req)
		nested()
	case "list", "set":
		w.open("block_"+s.K, label)
		w.name("block_type", s.Name, label)
		if s.Min > 0 || w.pick(3) == 1 {
			fmt.Fprintf(&w.b, "min_items = %d\n", s.Min)
		}
		if s.Max > 0 || w.pick(3) == 1 {
			fmt.Fprintf(&w.b, "max_items = %d\n", s.Max)
		}
		nested()
	case "map":
		w.open("block_map", label)
		w.name("block_type", s.Name, label)
		var ls []string
		for _, n := range s.Names {
			ls = append(ls, model.QuoteString(n))
		}
		fmt.Fprintf(&w.b, "labels = [%s]\n", strings.Join(ls, ", "))
		nested()
	case "attrs":
		w.open("block_attrs", label)
		w.name("block_type", s.Name, label)
		fmt.Fprintf(&w.b, "element_type = %s\n", tyText(s.Ty))
		w.req(s.Req)
	case "default":
		w.open("default", label)
		subs := s.Subs
		if subs[1].K == "default" && w.pick(2) == 1 {
			subs = append([]*model.Spec{subs[0]}, subs[1].Subs...)
		}
		for _, x := range subs {
			w.spec(x, nil)
		}
	case "texpr":
		w.open("transform", label)
		nested()
		fmt.Fprintf(&w.b, "result = %s\n", s.X.Native(nil))
	default:
		panic("bad spec " + s.K)
	}
	w.b.WriteString("}\n")
}

// damage makes a specification file wrong. sure says whether it must fail.
func (c decCmdCase) damage(src string) (string, bool) {
	lines := strings.SplitAfter(src, "\n")
	edit := func(re string, f func(string) string) (string, bool) {
		var at []int
		rx := regexp.MustCompile("(?m)" + re)
		for i, l := range lines {
			if rx.MatchString(l) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return src, false
		}
		i := at[c.BadAt%len(at)]
		lines[i] = f(lines[i])
		return strings.Join(lines, ""), true
	}
	drop := func(string) string { return "" }
	after := func(s string) func(string) string { return func(l string) string { return l + s } }
	switch c.Bad {
	case "two roots":
		return src + "literal {\n  value = 1\n}\n", true
	case "no root":
		return "variables {\n}\n", true
	case "no name":
		return "array {\n attr {\n type = string\n}\n}\n", true
	case "no block_type":
		k := []string{"block", "block_list", "block_set", "block_map", "block_attrs"}[c.BadAt%5]
		body := "literal {\n value = 1\n}\n"
		switch k {
		case "block_map":
			body += "labels = [\"x\"]\n"
		case "block_attrs":
			body = "element_type = string\n"
		}
		return "array {\n" + k + " {\n" + body + "}\n}\n", true
	case "label in array":
		return edit(`^array.*\{$`, after("literal \"x\" {\n value = 1\n}\n"))
	case "no label in object":
		return edit(`^object.*\{$`, after("literal {\n value = 1\n}\n"))
	case "string type":
		return edit(`^(element_)?type = `, func(l string) string { return strings.SplitN(l, "=", 2)[0] + "= \"string\"\n" })
	case "no labels":
		if c.BadAt%2 == 0 {
			return edit(`^labels = `, func(string) string { return "labels = []\n" })
		}
		return edit(`^labels = `, drop)
	case "no nested":
		return "block {\n block_type = \"x\"\n}\n", true
	case "two nested":
		return edit(`^block(_list|_set|_map)? .*\{$|^transform.*\{$`, after("literal {\n value = 1\n}\n"))
	case "extra argument":
		return edit(`^(object|array|attr|block\w*|default|transform|literal)\b.*\{$`, after("extra_argument = 1\n"))
	case "unknown block":
		return edit(`^(object|array|default|block|block_set|transform)\b.*\{$`, after("unknown_block \"x\" {\n}\n"))
	case "bad result":
		s, _ := edit(`^result = `, func(string) string { return "result = nosuch + 1\n" })
		return s, false // it may not be reached
	case "no value":
		return edit(`^value = `, drop)
	case "syntax":
		return edit(`^\}$`, drop)
	case "bad variable":
		return src + "variables {\n " + []string{"zz = nosuch", "zz = nosuch(1)", "zz {\n }", "zz = 1\n zz = 2", "zz \"x\" {\n }"}[c.BadAt%5] + "\n}\n", true
	case "bad nested default":
		return "block_map {\n block_type = \"x\"\n labels = [\"l\"]\n default {\n attr {\n type = string\n }\n literal {\n}\n}\n}\n", true
	}
	// Any edits.
	r := uint32(c.BadAt)*2654435761 + uint32(len(src))
	for n := 0; n < 3; n++ {
		r = r*1664525 + 1013904223
		i := int(r>>8) % len(lines)
		r = r*1664525 + 1013904223
		j := int(r>>8) % len(lines)
		switch (r >> 4) % 4 {
		case 0:
			lines[i] = ""
		case 1:
			lines[i] += lines[j]
		case 2:
			lines[i], lines[j] = lines[j], lines[i]
		default:
			lines[i] = regexp.MustCompile(`= .*`).ReplaceAllString(lines[i], "= "+[]string{"null", "[]", "{}", "\"\"", "1.5", "true", "-1", "string", "nosuch", "list(null)", "tuple([null])", "object({a = null})", "list()", "[null]"}[int(r>>12)%14])
		}
	}
	return strings.Join(lines, ""), false
}

// jtree is what a value looks like in JSON. Sets are marked.
type jset []interface{}

func jtree(v cty.Value) interface{} {
	if v.IsNull() {
		return nil
	}
	ty := v.Type()
	switch {
	case ty == cty.String:
		return v.AsString()
	case ty == cty.Bool:
		return v.True()
	case ty == cty.Number:
		return v
	case ty.IsMapType() || ty.IsObjectType():
		m := map[string]interface{}{}
		for it := v.ElementIterator(); it.Next(); {
			k, e := it.Element()
			if !e.IsNull() {
				m[k.AsString()] = jtree(e)
			}
		}
		return m
	}
	l := []interface{}{}
	for it := v.ElementIterator(); it.Next(); {
		_, e := it.Element()
		l = append(l, jtree(e))
	}
	if ty.IsSetType() {
		return jset(l)
	}
	return l
}

func sameTree(got, want interface{}) bool {
	switch w := want.(type) {
	case nil:
		return got == nil
	case string:
		return got == w
	case bool:
		return got == w
	case cty.Value:
		n, ok := got.(stdjson.Number)
		if !ok {
			return false
		}
		// The text has as many digits as its precision needs.
		f := w.AsBigFloat()
		v, _, err := big.ParseFloat(string(n), 10, max(f.Prec(), 53), big.ToNearestEven)
		return err == nil && v.Cmp(f) == 0
	case map[string]interface{}:
		m, ok := got.(map[string]interface{})
		if !ok || len(m) != len(w) {
			return false
		}
		for k, x := range w {
			y, ok := m[k]
			if !ok || !sameTree(y, x) {
				return false
			}
		}
		return true
	case []interface{}:
		l, ok := got.([]interface{})
		if !ok || len(l) != len(w) {
			return false
		}
		for i := range l {
			if !sameTree(l[i], w[i]) {
				return false
			}
		}
		return true
	case jset:
		l, ok := got.([]interface{})
		if !ok || len(l) != len(w) {
			return false
		}
		used := make([]bool, len(w))
	next:
		for _, x := range l {
			for i, y := range w {
				if !used[i] && sameTree(x, y) {
					used[i] = true
					continue next
				}
			}
			return false
		}
		return true
	}
	return false
}

var jsonNumRE = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

// valJ writes a value as JSON if possible.
func valJ(v model.Val) (string, bool) {
	var parts []string
	switch v.K {
	case "str":
		b, err := stdjson.Marshal(v.S)
		return string(b), err == nil
	case "num":
		return v.S, jsonNumRE.MatchString(v.S)
	case "bool":
		return fmt.Sprint(v.B), true
	case "null":
		return "null", true
	}
	seen := map[string]bool{}
	for i, x := range v.L {
		s, ok := valJ(x)
		if !ok {
			return "", false
		}
		if v.K == "obj" {
			k := model.NFC(v.Keys[i])
			if seen[k] {
				return "", false
			}
			seen[k] = true
			b, _ := stdjson.Marshal(v.Keys[i])
			s = string(b) + ":" + s
		}
		parts = append(parts, s)
	}
	if v.K == "obj" {
		return "{" + strings.Join(parts, ",") + "}", true
	}
	return "[" + strings.Join(parts, ",") + "]", true
}

func goFunc(params int, variadic bool, f func(args []cty.Value) (cty.Value, error)) function.Function {
	s := &function.Spec{}
	any := function.Parameter{Name: "x", Type: cty.DynamicPseudoType}
	for i := 0; i < params; i++ {
		s.Params = append(s.Params, any)
	}
	if variadic {
		s.VarParam = &any
	}
	s.Type = func([]cty.Value) (cty.Type, error) { return cty.DynamicPseudoType, nil }
	s.Impl = func(args []cty.Value, _ cty.Type) (cty.Value, error) { return f(args) }
	return function.New(s)
}

// files are the input files with the bodies they should be read as.
func (c decCmdCase) files() (names []string, srcs []string) {
	cut := append(append([]int{0}, c.Cut...), len(c.Body.Items))
	for i := range c.JSON {
		items := c.Body.Items[min(cut[i], len(c.Body.Items)):min(cut[i+1], len(c.Body.Items))]
		b := &model.Body{Items: items}
		if c.Fn > 0 && i == 0 {
			b = &model.Body{Items: append([]*model.Item{}, items...)}
		}
		name, src := fmt.Sprintf("in%d.hcl", i), b.Native(c.Lay).Src
		if c.JSON[i] {
			name = fmt.Sprintf("in%d.json", i)
			src, _ = (&model.JEnc{Lay: c.Lay}).Body(b).Text(c.Lay)
		} else if c.Fn > 0 && i == 0 {
			src = "fnattr = " + customCalls[c.Fn-1].text + "\n" + src
		}
		if c.Stdin {
			name = "<stdin>"
		}
		names, srcs = append(names, name), append(srcs, src)
	}
	return
}

func checkDecCmd(c decCmdCase, r *engine.Rec) error {
	if len(c.JSON) > 0 && c.JSON[0] {
		c.Fn = 0
	}
	spec := plainLits(c.Spec)
	hspec, err := toSpec(spec)
	if err != nil {
		return err
	}
	var w specWriter
	w.wrap = c.Wrap
	if c.Fn > 0 || c.Lit > 0 {
		// Around the specification, an object with more fields.
		o := hcldec.ObjectSpec{"main": hspec}
		w.open("object", nil)
		main := "main"
		w.spec(spec, &main)
		if c.Fn > 0 {
			o["fn"] = &hcldec.AttrSpec{Name: "fnattr", Type: cty.DynamicPseudoType}
			w.b.WriteString("attr \"fn\" {\n name = \"fnattr\"\n}\n")
		}
		if c.Lit > 0 {
			o["lit"] = &hcldec.LiteralSpec{Value: specCalls[c.Lit-1].want}
			fmt.Fprintf(&w.b, "literal \"lit\" {\n value = %s\n}\n", specCalls[c.Lit-1].text)
		}
		w.b.WriteString("}\n")
		hspec = o
	} else {
		w.spec(spec, nil)
	}

	dir, done := scratch()
	defer done()
	write := func(name, src string) {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(src), 0o600); err != nil {
			engine.Fatal(err)
		}
	}
	args := []string{"hcldec", "--spec=s.hcldec"}

	// Variables, some of which are defined twice.
	vars := map[string]cty.Value{}
	var inSpec, inHCL strings.Builder
	var inArg, inJSON []string
	for _, v := range c.Vars {
		vars[v.Name] = v.V.Cty()
		j, ok := valJ(v.V)
		key, _ := stdjson.Marshal(v.Name)
		line := fmt.Sprintf("  %s = %s\n", v.Name, model.ValExpr(v.V).Native(nil))
		decoy := fmt.Sprintf("  %s = \"overridden\"\n", v.Name)
		switch {
		case v.At == 0:
			inSpec.WriteString(line)
		case v.At == 1 && ok:
			inArg = append(inArg, string(key)+":"+j)
			inHCL.WriteString(decoy)
		case v.At == 3 && ok:
			inJSON = append(inJSON, string(key)+":"+j)
			inSpec.WriteString(decoy)
		default:
			inHCL.WriteString(line)
		}
	}
	src := w.b.String()
	if inSpec.Len() > 0 || len(c.Vars)%2 == 0 {
		src += "variables {\n" + inSpec.String() + "}\n"
	}
	ctx := &hcl.EvalContext{Variables: vars}
	if c.Funcs {
		src = customFuncs + src
		num := func(v cty.Value) error {
			if v.Type() != cty.Number {
				return errors.New("not a number")
			}
			return nil
		}
		ctx.Functions = map[string]function.Function{
			"add_one": goFunc(1, false, func(a []cty.Value) (cty.Value, error) {
				if err := num(a[0]); err != nil {
					return cty.NilVal, err
				}
				return a[0].Add(cty.NumberIntVal(1)), nil
			}),
			"upper": goFunc(1, false, func(a []cty.Value) (cty.Value, error) { return cty.StringVal(strings.ToUpper(a[0].AsString())), nil }),
			"least": goFunc(0, true, func(a []cty.Value) (cty.Value, error) {
				m := a[0]
				for _, v := range a {
					if v.LessThan(m).True() {
						m = v
					}
				}
				return m, nil
			}),
		}
	}
	if len(vars) == 0 {
		ctx.Variables = nil
		if !c.Funcs {
			ctx = nil // strings in JSON are literal then
		}
	}
	mustFail := false
	if c.Bad != "" {
		src, mustFail = c.damage(src)
	}
	write("s.hcldec", src)
	if inHCL.Len() > 0 {
		write("v.hcl", inHCL.String())
		args = append(args, "--vars=v.hcl")
	}
	if len(inJSON) > 0 {
		write("v.json", "{"+strings.Join(inJSON, ", ")+"}")
		args = append(args, "-V", "v.json")
	}
	if len(inArg) > 0 {
		args = append(args, "--vars", "{"+strings.Join(inArg, ", ")+"}")
	}
	switch c.Bad {
	case "bad vars":
		bad := []string{"{", "{\"a\": }", "v2.hcl", "v2.json", "{\"a\": {}, \"a\": 1}", "v3.hcl a {\n}\n", "v3.hcl zz = yy\n", "v3.hcl zz = 1 +\n", "v3.hcl zz = upper(\"a\")\n", "v3.hcl zz = 1\nzz = 2\n", "v3.json {\"a\"", "v3.hcl b \"c\" {\n}\nzz = 1\n"}
		name, text, file := strings.Cut(bad[c.BadAt%len(bad)], " ")
		if file && strings.HasPrefix(name, "v3") {
			write(name, text)
		} else {
			name = bad[c.BadAt%len(bad)]
		}
		args = append(args, "--vars", name)
		mustFail = true
	case "missing file":
		args = append(args, "nosuch.hcl")
		mustFail = true
	}
	old := "" // what the file for the result holds before
	for _, o := range c.Opt {
		switch o {
		case "diags":
			args = append(args, "--diags=json")
		case "out":
			args = append(args, "--out", "result")
			if old = strings.Repeat("old\n", len(c.Wrap)*200); old != "" {
				write("result", old)
			}
		default:
			args = append(args, "--"+o)
		}
	}
	var bodies []hcl.Body
	names, srcs := c.files()
	stdin := ""
	for i, n := range names {
		var f *hcl.File
		var d hcl.Diagnostics
		if c.JSON[i] {
			f, d = json.Parse([]byte(srcs[i]), n)
		} else {
			f, d = hclsyntax.ParseConfig([]byte(srcs[i]), n, startPos)
		}
		if d.HasErrors() {
			return errf("valid input rejected: %s\n%s", diagStr(d), srcs[i])
		}
		bodies = append(bodies, f.Body)
		if c.Stdin {
			stdin = srcs[i]
		} else {
			write(n, srcs[i])
			args = append(args, n)
		}
	}
	body := bodies[0]
	if len(bodies) > 1 {
		body = hcl.MergeBodies(bodies)
	}

	res := runCmd(dir, stdin, args...)
	all := fmt.Sprintf("%s\n-- s.hcldec --\n%s-- input --\n%s\n-- vars --\n%s%s%s\n-- exit %d --\n%s%s", strings.Join(args, " "), src, strings.Join(srcs, "----\n"), inHCL.String(), inJSON, inArg, res.code, res.out, res.err)
	r.Sample(all)

	// What decoding with the same specification gives.
	var want cty.Value
	var wdiags hcl.Diagnostics
	var panicked interface{}
	var stack string
	func() {
		defer func() {
			if panicked = recover(); panicked != nil {
				stack = string(debug.Stack())
			}
		}()
		want, wdiags = hcldec.Decode(body, hspec, ctx)
	}()
	if res.crashed() {
		if strings.Contains(stack, "go-cty/cty/convert.") {
			return &engine.Known{ID: "hcldec-cty-panic", Err: errf("the command crashes, as does decoding: %v", panicked)}
		}
		if id := engine.KnownPanic(res.err); id != "" {
			return &engine.Known{ID: id, Err: errf("the command crashes: %s", res.err)}
		}
		return errf("the command crashes\n%s", all)
	}
	if res.code != 0 && strings.TrimSpace(res.err) == "" {
		return errf("the command fails without a message\n%s", all)
	}
	if res.code != 0 && res.out != "" {
		return errf("the command fails but prints a result\n%s", all)
	}
	if b, _ := os.ReadFile(filepath.Join(dir, "result")); res.code != 0 && string(b) != old {
		return errf("the command fails but changes the file for the result\n%s", all)
	}
	var gotDiags []string
	if res.code == 2 && c.opt("diags") {
		var d struct {
			Diagnostics []struct {
				Severity, Summary string
				Subject           *struct {
					Filename   string
					Start, End hcl.Pos
				}
			}
		}
		if err := stdjson.Unmarshal([]byte(res.err), &d); err != nil || len(d.Diagnostics) == 0 {
			return errf("the diagnostics are not in JSON: %v\n%s", err, all)
		}
		errs := 0
		for _, x := range d.Diagnostics {
			if x.Severity == "error" {
				errs++
			}
			if x.Summary == "" {
				return errf("a diagnostic has no summary\n%s", all)
			}
			s := x.Severity + " " + x.Summary
			if x.Subject != nil {
				s += " " + hcl.Range{Filename: x.Subject.Filename, Start: x.Subject.Start, End: x.Subject.End}.String()
			}
			gotDiags = append(gotDiags, s)
		}
		if errs == 0 {
			return errf("there is no error among the diagnostics\n%s", all)
		}
	}
	if mustFail {
		r.NonTrivial()
		r.Label("damage: %s", c.Bad)
		if res.code == 0 {
			return errf("the command succeeds with a wrong specification or arguments (%s)\n%s", c.Bad, all)
		}
		return nil
	}
	out := res.out
	if c.opt("out") && res.code == 0 {
		b, err := os.ReadFile(filepath.Join(dir, "result"))
		if err != nil || res.out != "" {
			return errf("the result is not in the file: %v, printed %q", err, res.out)
		}
		out = string(b)
	}
	if c.Bad != "" {
		r.Label("any specification")
		if res.code == 0 && !stdjson.Valid([]byte(out)) {
			return errf("the output is not JSON\n%s", all)
		}
		return nil
	}
	if panicked != nil && !c.opt("var-refs") {
		return errf("decoding panics, but the command does not: %v\n%s", panicked, all)
	}
	undecided := false
	spec.Walk(func(s *model.Spec) {
		if s.K == "map" && hasDynamic(s) {
			undecided = true // the command refuses these
		}
	})
	if undecided && res.code != 0 {
		r.Label("map of any type refused")
		return nil
	}
	var got interface{}
	if res.code == 0 {
		dec := stdjson.NewDecoder(strings.NewReader(out))
		dec.UseNumber()
		if err := dec.Decode(&got); err != nil {
			return errf("the output is not JSON: %s\n%s", err, all)
		}
		if dec.More() || !strings.HasSuffix(out, "\n") {
			return errf("the output is not a single line\n%s", all)
		}
	}
	if c.opt("var-refs") {
		if res.code != 0 {
			return errf("listing the references fails\n%s", all)
		}
		r.Label("references")
		return checkVarRefs(out, hcldec.Variables(body, hspec), ctx, all)
	}
	if wdiags.HasErrors() {
		r.Label("invalid input")
		if res.code == 0 {
			return errf("the command succeeds on invalid input: %s\n%s", diagStr(wdiags), all)
		}
		if gotDiags != nil {
			// The expressions of a transformation are in the specification.
			norm := func(s string) string { return regexp.MustCompile(` (s\.hcldec|t\.hcl):.*`).ReplaceAllString(s, "") }
			var ws []string
			for _, d := range wdiags {
				s := map[hcl.DiagnosticSeverity]string{hcl.DiagError: "error", hcl.DiagWarning: "warning"}[d.Severity] + " " + d.Summary
				if d.Subject != nil {
					s += " " + d.Subject.String()
				}
				ws = append(ws, norm(s))
			}
			// A default with one specification gives a warning too.
			var gs []string
			for _, s := range gotDiags {
				if !(strings.HasPrefix(s, "warning ") && strings.Contains(s, " s.hcldec:")) {
					gs = append(gs, norm(s))
				}
			}
			// How often a default looks at the same argument is not decided.
			slices.Sort(ws)
			slices.Sort(gs)
			ws, gs = slices.Compact(ws), slices.Compact(gs)
			if !sameStrings(ws, gs) {
				return errf("the diagnostics are %q, expected %q\n%s", gs, ws, all)
			}
		}
		return nil
	}
	if !inJSONRange(want) {
		r.Label("no JSON for the value")
		if res.code == 0 {
			return errf("the command succeeds with a value that JSON cannot have: %s\n%s", vstr(want), all)
		}
		return nil
	}
	if res.code != 0 {
		return errf("the command fails on valid input\n%s", all)
	}
	a, b := c.Body.Count()
	r.NonTrivialIf(a+b >= 2)
	r.Label("valid input")
	if c.Fn > 0 {
		if w := customCalls[c.Fn-1].want; w != cty.NilVal && !want.GetAttr("fn").RawEquals(w) {
			return errf("the expected result of %s is wrong", customCalls[c.Fn-1].text)
		}
	}
	tree := jtree(want)
	if c.opt("with-type") && !(want.Type() == cty.DynamicPseudoType && got == nil) {
		m := map[string]interface{}{}
		if tree != nil {
			m["value"] = tree
		}
		ty, err := ctyjson.MarshalType(want.Type())
		if err != nil {
			return err
		}
		var t interface{}
		if err := stdjson.Unmarshal(ty, &t); err != nil {
			return err
		}
		m["type"] = t
		tree = m
	}
	if !sameTree(got, tree) {
		return errf("the output differs from %s\n%s", vstr(want), all)
	}
	return nil
}

func hasDynamic(s *model.Spec) bool {
	x, err := toSpec(s)
	return err != nil || hcldec.ImpliedType(x).HasDynamicTypes()
}

// plainLits replaces literal values by what their expressions give.
func plainLits(s *model.Spec) *model.Spec {
	n := *s
	if n.V != nil {
		v := n.V.Plain()
		n.V = &v
	}
	n.Subs = nil
	for _, x := range s.Subs {
		n.Subs = append(n.Subs, plainLits(x))
	}
	return &n
}

// inJSONRange says whether all parts of a value are known and finite.
func inJSONRange(v cty.Value) bool {
	ok := v.IsWhollyKnown()
	if ok {
		cty.Walk(v, func(_ cty.Path, v cty.Value) (bool, error) {
			if !v.IsNull() && v.Type() == cty.Number && v.AsBigFloat().IsInf() {
				ok = false
			}
			return true, nil
		})
	}
	return ok
}

// checkVarRefs compares the printed list of references.
func checkVarRefs(out string, want []hcl.Traversal, ctx *hcl.EvalContext, all string) error {
	type rng struct {
		Filename   string
		Start, End struct{ Line, Column, Byte int }
	}
	var got []struct {
		RootName string `json:"root_name"`
		Value    stdjson.RawMessage
		Steps    []struct {
			Kind, Name string
			Key        stdjson.RawMessage
			Range      rng
		}
		Range rng
	}
	if err := stdjson.Unmarshal([]byte(out), &got); err != nil {
		return errf("the references: %s\n%s", err, all)
	}
	conv := func(r rng) string {
		return fmt.Sprintf("%s %d %d %d %d %d %d", r.Filename, r.Start.Line, r.Start.Column, r.Start.Byte, r.End.Line, r.End.Column, r.End.Byte)
	}
	hconv := func(r hcl.Range) string {
		return fmt.Sprintf("%s %d %d %d %d %d %d", r.Filename, r.Start.Line, r.Start.Column, r.Start.Byte, r.End.Line, r.End.Column, r.End.Byte)
	}
	var gs, ws []string
	for _, g := range got {
		s := g.RootName + " at " + conv(g.Range)
		for _, st := range g.Steps {
			s += fmt.Sprintf("; %s %s %s %s", st.Kind, st.Name, compact(st.Key), conv(st.Range))
		}
		gs = append(gs, s+" = "+compact(g.Value))
	}
	for _, tr := range want {
		s := tr.RootName() + " at " + hconv(tr.SourceRange())
		for _, st := range tr {
			kind, name, key := "", "", ""
			switch st := st.(type) {
			case hcl.TraverseRoot:
				kind, name = "root", st.Name
			case hcl.TraverseAttr:
				kind, name = "attr", st.Name
			case hcl.TraverseIndex:
				kind = "index"
				b, _ := ctyjson.Marshal(st.Key, st.Key.Type())
				key = compact(b)
			}
			s += fmt.Sprintf("; %s %s %s %s", kind, name, key, hconv(st.SourceRange()))
		}
		val := ""
		if v, d := tr.TraverseAbs(ctx); !d.HasErrors() {
			b, _ := ctyjson.Marshal(v, v.Type())
			val = compact(b)
		}
		ws = append(ws, s+" = "+val)
	}
	sort.Strings(gs)
	sort.Strings(ws)
	if !sameStrings(gs, ws) {
		return errf("the references are %q, expected %q\n%s", gs, ws, all)
	}
	return nil
}

func compact(b []byte) string {
	var v interface{}
	dec := stdjson.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	if dec.Decode(&v) != nil {
		return ""
	}
	c, _ := stdjson.Marshal(v)
	return string(c)
}

func init() {
	engine.Add("C41", "decode", "valid input with at least two items", 20000, genDecCmd(false), checkDecCmd).Ext()
	engine.Add("C41", "damaged", "the damage must be reported", 12000, genDecCmd(true), checkDecCmd).Ext()
}
