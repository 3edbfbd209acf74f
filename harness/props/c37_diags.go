package props

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/apparentlymart/go-textseg/textseg"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type diagSpec struct {
	Warn    bool        `json:"warn,omitempty"`
	Summary string      `json:"summary"`
	Detail  string      `json:"detail,omitempty"`
	Subject *[2]int     `json:"subject,omitempty"`
	Context *[2]int     `json:"context,omitempty"`
	File    int         `json:"file,omitempty"` // 0, 1: sources; 2: not loaded
	X       *model.Expr `json:"x,omitempty"`
	NoCtx   bool        `json:"no_ctx,omitempty"`
}

type diagCase struct {
	Scope model.Scope `json:"scope"`
	Srcs  [2][]byte   `json:"srcs"`
	NoNav bool        `json:"no_nav,omitempty"`
	Diags []diagSpec  `json:"diags"`
	Width int         `json:"width,omitempty"`
	Wild  bool        `json:"wild,omitempty"` // ranges that do not fit the source
}

func genWords(t *rapid.T, n int) string {
	var ws []string
	for i := model.Int(t, 1, n, "words"); i > 0; i-- {
		ws = append(ws, model.Pick(t, []string{"Unsupported", "argument", "An", "argument", "named", "\"x\"", "is", "not", "expected", "here.", "a", "a-much-longer-word-without-spaces", "été", "日本", "%s", "100%", "\\n", "Did", "you", "mean?"}))
	}
	return strings.Join(ws, " ")
}

func genDiagCase(t *rapid.T) diagCase {
	o := model.PlainOpts()
	o.Null, o.Unk = 10, 10
	c := diagCase{Scope: model.GenScopeN(t, o, 2), NoNav: model.Chance(t, 20), Wild: model.Chance(t, 15)}
	for i := range c.Srcs {
		src, _ := model.Source(t)
		if model.Chance(t, 60) {
			g := model.NewGen(t, model.Scope{}, 4)
			src = []byte(g.Body(model.StdBody()).Native(lay(t)).Src)
		}
		if model.Chance(t, 30) {
			src = bytes.TrimRight(src, "\n")
		}
		if model.Chance(t, 15) {
			src = append([]byte("# éé\U0001f468‍\U0001f469\n\n\n \t\n\r\r\n"), src...)
		}
		c.Srcs[i] = src
	}
	if model.Chance(t, 60) {
		c.Width = model.Int(t, 1, 100, "width")
	}
	for n := model.Count(t, 1, 3); n > 0; n-- {
		d := diagSpec{Warn: model.Chance(t, 30), Summary: genWords(t, 4)}
		if model.Chance(t, 85) {
			d.Detail = genWords(t, 30)
		}
		if model.Chance(t, 90) {
			d.File = model.Weighted(t, 6, 3, 1)
			size := 30
			if d.File < 2 {
				size = len(c.Srcs[d.File])
			}
			lo, hi := 0, size
			if c.Wild {
				lo, hi = -5, size+10
			}
			// Positions are at the beginnings of characters.
			snap := func(n int) int {
				if c.Wild || d.File == 2 {
					return n
				}
				at := 0
				for at < n {
					k, _, _ := textseg.ScanGraphemeClusters(c.Srcs[d.File][at:], true)
					at += k
				}
				return at
			}
			draw := func() *[2]int {
				a := snap(model.Int(t, lo, hi, "lo"))
				b := snap(min(hi, a+model.Pick(t, []int{0, 1, 1, 2, 5, 12, 40})))
				if model.Chance(t, 10) {
					b = hi
				}
				if c.Wild && model.Chance(t, 20) {
					a, b = b, a
				}
				return &[2]int{a, b}
			}
			d.Subject = draw()
			if model.Chance(t, 40) {
				d.Context = draw()
				if !c.Wild && !model.Chance(t, 15) {
					d.Context[0], d.Context[1] = min(d.Context[0], d.Subject[0]), max(d.Context[1], d.Subject[1])
				}
			}
		}
		if model.Chance(t, 50) {
			g := model.NewGen(t, c.Scope, 10)
			g.Refs = true
			d.X = g.Expr("any", 2)
			d.NoCtx = model.Chance(t, 10)
		}
		c.Diags = append(c.Diags, d)
	}
	return c
}

// srcLine is a line of a source without its end.
type srcLine struct {
	lo, hi int // hi is behind the first character of the line's end
	text   string
}

func srcLines(src []byte) []srcLine {
	var ls []srcLine
	for lo := 0; lo < len(src); {
		n := bytes.IndexByte(src[lo:], '\n')
		hi := lo + n
		if n < 0 {
			hi = len(src)
		}
		text := strings.TrimSuffix(string(src[lo:hi]), "\r")
		ls = append(ls, srcLine{lo, lo + len(text) + 1, text})
		lo = hi + 1
	}
	return ls
}

func unstyle(s string) string {
	for _, c := range []string{"\x1b[31m", "\x1b[33m", "\x1b[0m", "\x1b[1;4m"} {
		s = strings.ReplaceAll(s, c, "")
	}
	return s
}

func checkDiagText(c diagCase, r *engine.Rec) error {
	names := []string{"main.hcl", "other.hcl", "missing.hcl"}
	files := map[string]*hcl.File{}
	for i, src := range c.Srcs {
		f, _ := hclsyntax.ParseConfig(src, names[i], startPos)
		if f == nil || c.NoNav {
			f = &hcl.File{Bytes: src}
		}
		files[names[i]] = f
	}
	vars := c.Scope.Map()
	var diags hcl.Diagnostics
	for _, d := range c.Diags {
		g := &hcl.Diagnostic{Severity: hcl.DiagError, Summary: d.Summary, Detail: d.Detail}
		if d.Warn {
			g.Severity = hcl.DiagWarning
		}
		rng := func(x *[2]int) *hcl.Range {
			if x == nil {
				return nil
			}
			ret := &hcl.Range{Filename: names[d.File], Start: hcl.Pos{Line: 1, Column: 1, Byte: x[0]}, End: hcl.Pos{Line: 1, Column: 1, Byte: x[1]}}
			if d.File < 2 {
				ret.Start, ret.End = posAt(string(c.Srcs[d.File]), x[0], startPos), posAt(string(c.Srcs[d.File]), x[1], startPos)
			}
			return ret
		}
		g.Subject, g.Context = rng(d.Subject), rng(d.Context)
		if d.X != nil {
			x, err := parseAttrExpr(d.X.NativeInline(nil))
			if err != nil {
				return errf("%w\n%s", err, d.X.NativeInline(nil))
			}
			g.Expression = x
			if !d.NoCtx {
				g.EvalContext = evalCtx(vars)
			}
		}
		before := len(diags)
		if len(d.Summary)%2 == 0 {
			diags = diags.Append(g)
		} else {
			diags = diags.Extend(hcl.Diagnostics{g})
		}
		if len(diags) != before+1 || diags[before] != g {
			return errf("adding a diagnostic loses it")
		}
	}
	errs := 0
	for i, d := range c.Diags {
		if diags[i].Summary != d.Summary {
			return errf("diagnostics are out of order")
		}
		if !d.Warn {
			errs++
		}
	}
	if diags.HasErrors() != (errs > 0) || len(diags.Errs()) != errs {
		return errf("%d errors, but has errors: %v, lists %d", errs, diags.HasErrors(), len(diags.Errs()))
	}
	if s := diags.Error(); !strings.Contains(s, c.Diags[0].Summary) {
		return errf("the error text %q lacks the first summary", s)
	}

	var whole bytes.Buffer
	if err := hcl.NewDiagnosticTextWriter(&whole, files, uint(c.Width), false).WriteDiagnostics(diags); err != nil {
		return err
	}
	r.Sample(whole.String())
	all := whole.String()
	for i, d := range c.Diags {
		var plain, color bytes.Buffer
		if err := hcl.NewDiagnosticTextWriter(&plain, files, uint(c.Width), false).WriteDiagnostic(diags[i]); err != nil {
			return err
		}
		if err := hcl.NewDiagnosticTextWriter(&color, files, uint(c.Width), true).WriteDiagnostic(diags[i]); err != nil {
			return err
		}
		one := plain.String()
		if unstyle(color.String()) != one {
			return errf("the text with and without colors differs:\n%q\n%q", color.String(), one)
		}
		if !strings.HasPrefix(all, one) {
			return errf("diagnostic %d is missing or wrong in the list:\n%s\n%s", i, all, one)
		}
		all = all[len(one):]
		if err := c.diagText(d, diags[i], one, color.String(), names[d.File], vars, r); err != nil {
			return errf("%w\n%s", err, one)
		}
	}
	if all != "" {
		return errf("extra text %q", all)
	}
	return nil
}

// valueText is how a known value is described: in full if it is primitive and
// otherwise with its size. Long numbers are not decided.
func valueText(v cty.Value) string {
	ty := v.Type()
	n := 0
	switch {
	case v.IsNull():
		return ""
	case ty == cty.Bool:
		return fmt.Sprint(v.True())
	case ty == cty.String:
		return fmt.Sprintf("%q", v.AsString())
	case ty == cty.Number:
		if i, acc := v.AsBigFloat().Int64(); acc == 0 && i != 0 && i > -1e9 && i < 1e9 {
			return fmt.Sprint(i)
		}
		return ""
	case ty.IsObjectType():
		switch n = len(ty.AttributeTypes()); n {
		case 0:
			return "object with no attributes"
		case 1:
			for k := range ty.AttributeTypes() {
				return fmt.Sprintf("object with 1 attribute %q", k)
			}
		}
		return fmt.Sprintf("object with %d attributes", n)
	}
	switch n = v.LengthInt(); n {
	case 0:
		return "empty " + ty.FriendlyName()
	case 1:
		return ty.FriendlyName() + " with 1 element"
	}
	return fmt.Sprintf("%s with %d elements", ty.FriendlyName(), n)
}

func (c diagCase) diagText(d diagSpec, g *hcl.Diagnostic, out, color, name string, vars map[string]cty.Value, r *engine.Rec) error {
	sev := "Error"
	if d.Warn {
		sev = "Warning"
	}
	if !strings.HasPrefix(out, sev+": "+d.Summary+"\n") {
		return errf("does not begin with the severity %s and summary", sev)
	}
	rest := out[len(sev+": "+d.Summary+"\n"):]
	if d.Detail != "" {
		words := strings.Join(strings.Fields(d.Detail), " ")
		got := strings.Join(strings.Fields(rest), " ")
		if !strings.HasSuffix(got, words) {
			return errf("does not end in the detail text %q", d.Detail)
		}
		if c.Width == 0 && !strings.Contains(rest, d.Detail) {
			return errf("the detail is wrapped without a width")
		}
	}
	if d.Subject == nil {
		return nil
	}
	if !strings.Contains(rest, fmt.Sprintf("%s line %d", name, g.Subject.Start.Line)) {
		return errf("does not contain the file name and line of the subject")
	}
	if d.X != nil && !d.NoCtx {
		// The value of every variable that is known is mentioned.
		for _, p := range d.X.Free() {
			v, ok := vars[p.Root]
			if !ok || !v.IsWhollyKnown() || p.Min > 0 || len(p.Steps) > 0 {
				continue
			}
			says := " as "
			if v.IsNull() {
				says = " set to null"
			}
			switch strings.Count(" "+strings.Join(strings.Fields(rest), " "), " "+p.Root+says) {
			case 0:
				return errf("does not mention the value of %s", p.Root)
			case 1:
			default:
				return errf("mentions the value of %s more than once", p.Root)
			}
			if txt := valueText(v); txt != "" && !strings.Contains(rest, p.Root+" as "+txt) {
				return errf("the value of %s is not described as %s", p.Root, txt)
			}
			r.Label("value shown")
		}
		flat := " " + strings.Join(strings.Fields(rest), " ")
	Refs:
		for _, tr := range g.Expression.Variables() {
			if len(tr) < 2 {
				continue
			}
			text := tr.RootName()
			for _, step := range tr[1:] {
				switch step := step.(type) {
				case hcl.TraverseAttr:
					text += "." + step.Name
				case hcl.TraverseIndex:
					key := ""
					if step.Key.IsWhollyKnown() && !step.Key.IsNull() && step.Key.Type().IsPrimitiveType() {
						key = valueText(step.Key)
					}
					if key == "" {
						continue Refs
					}
					text += "[" + key + "]"
				default:
					continue Refs
				}
			}
			v, diags := tr.TraverseAbs(g.EvalContext)
			if diags.HasErrors() || !v.IsWhollyKnown() {
				continue
			}
			text = strings.Join(strings.Fields(text), " ")
			says := " as " + strings.Join(strings.Fields(valueText(v)), " ")
			if v.IsNull() {
				says = " set to null"
			}
			if strings.Count(flat, " "+text+says) != 1 {
				return errf("does not mention once: %s%s", text, says)
			}
			r.Label("value of a path shown")
		}
	}
	if d.File == 2 {
		if !strings.Contains(rest, "not available") {
			return errf("does not say that the source is not available")
		}
		return nil
	}
	if c.Wild {
		r.Label("ranges outside of the source")
		return nil
	}
	src := c.Srcs[d.File]
	if !utf8.Valid(src) {
		return nil
	}
	lo, hi := d.Subject[0], d.Subject[1]
	clo, chi := lo, hi
	if lo == hi {
		hi++
	}
	if d.Context != nil {
		clo, chi = min(clo, d.Context[0]), max(chi, d.Context[1])
	}
	if clo == chi || d.Context != nil && d.Context[0] == d.Context[1] {
		chi++
	}
	body := rest[strings.Index(rest, ":\n")+2:]
	var high []string
	shown := 0
	for i, l := range srcLines(src) {
		must := l.lo < hi && lo < l.hi
		may := must || l.lo < chi && clo < l.hi
		want := fmt.Sprintf("%d: %s\n", i+1, l.text)
		has := strings.HasPrefix(strings.TrimLeft(body, " "), want)
		if must && !has && !(d.Context != nil && d.Subject[0] == d.Subject[1]) {
			return errf("line %d is missing: %q", i+1, l.text)
		}
		if has && !may {
			return errf("line %d is shown: %q", i+1, l.text)
		}
		if has {
			shown++
			body = strings.TrimLeft(body, " ")[len(want):]
			if a, b := max(lo, l.lo), min(hi, l.lo+len(l.text)); a < b {
				high = append(high, string(src[a:b]))
			}
		}
	}
	if !strings.HasPrefix(body, "\n") {
		return errf("there is something else between the source lines: %q", body)
	}
	if shown > 1 {
		r.Label("several lines")
	}
	r.NonTrivialIf(shown > 0)
	var marked []string
	for _, p := range strings.Split(color, "\x1b[1;4m")[1:] {
		if m := p[:strings.Index(p, "\x1b[0m")]; m != "" {
			marked = append(marked, m)
		}
	}
	if !sameStrings(marked, high) {
		return errf("%q is highlighted, expected %q", marked, high)
	}
	return nil
}

type realDiagCase struct {
	Src  []byte `json:"src"`
	Kind int    `json:"kind"`
}

func genRealDiag(t *rapid.T) realDiagCase {
	c := realDiagCase{Kind: model.Int(t, 0, 3, "kind")}
	if c.Kind == 3 {
		src, _ := genJDoc(t).Text(lay(t))
		if model.Chance(t, 70) {
			src = model.Mutate(t, src, model.JPieces)
		}
		c.Src = []byte(src)
	} else {
		c.Src, _ = model.Source(t)
	}
	return c
}

// checkRealDiag writes the diagnostics of parsing and evaluating any source.
func checkRealDiag(c realDiagCase, r *engine.Rec) error {
	var diags hcl.Diagnostics
	file := &hcl.File{Bytes: c.Src}
	var x hcl.Expression
	switch c.Kind {
	case 0:
		f, d := hclsyntax.ParseConfig(c.Src, "x", startPos)
		if f != nil {
			file = f
			_, more := f.Body.Content(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "zz", Required: true}}})
			_, more2 := f.Body.JustAttributes()
			d = d.Extend(more).Extend(more2)
		}
		diags = d
	case 1:
		e, d := hclsyntax.ParseExpression(c.Src, "x", startPos)
		diags = d
		if e != nil {
			x = e
		}
	case 2:
		e, d := hclsyntax.ParseTemplate(c.Src, "x", startPos)
		diags = d
		if e != nil {
			x = e
		}
	default:
		f, d := json.Parse(c.Src, "x")
		diags = d
		if f != nil {
			file = f
			_, more := f.Body.Content(&hcl.BodySchema{Attributes: []hcl.AttributeSchema{{Name: "zz", Required: true}}, Blocks: []hcl.BlockHeaderSchema{{Type: "b", LabelNames: []string{"l"}}}})
			diags = diags.Extend(more)
		}
	}
	if x != nil && !diags.HasErrors() {
		_, d := x.Value(&hcl.EvalContext{Variables: map[string]cty.Value{"a": cty.ListVal([]cty.Value{cty.StringVal("q")}), "foo": cty.EmptyObjectVal}})
		diags = diags.Extend(d)
	}
	if len(diags) == 0 {
		return nil
	}
	var buf bytes.Buffer
	if err := hcl.NewDiagnosticTextWriter(&buf, map[string]*hcl.File{"x": file}, 40, false).WriteDiagnostics(diags); err != nil {
		return err
	}
	out := buf.String()
	r.Sample(out)
	lines := srcLines(c.Src)
	if !utf8.Valid(c.Src) {
		lines = nil // the ends of characters are not defined
	}
	for _, d := range diags {
		sev := "Error: "
		if d.Severity == hcl.DiagWarning {
			sev = "Warning: "
		}
		if !strings.Contains(out, sev+d.Summary+"\n") {
			return errf("the output lacks %q\n%s", sev+d.Summary, out)
		}
		if d.Subject == nil || d.Subject.Filename != "x" {
			continue
		}
		if !strings.Contains(out, fmt.Sprintf("on x line %d", d.Subject.Start.Line)) {
			return errf("the output lacks the line of %s\n%s", d.Error(), out)
		}
		for i, l := range lines {
			if l.lo < d.Subject.End.Byte && d.Subject.Start.Byte < l.hi {
				r.NonTrivial()
				if !strings.Contains(out, fmt.Sprintf("%d: %s\n", i+1, l.text)) {
					return errf("the output lacks line %d of %s\n%s", i+1, d.Error(), out)
				}
			}
		}
	}
	return nil
}

func init() {
	engine.Add("C37", "real", "a source line is shown", 180000, genRealDiag, checkRealDiag)
	engine.Add("C37", "text", "source lines are shown", 120000, genDiagCase, checkDiagText)
}
