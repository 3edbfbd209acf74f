package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/hashicorp/hcl2/ext/include"
	"github.com/hashicorp/hcl2/ext/transform"
	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclparse"
	"github.com/zclconf/go-cty/cty"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// incFile is a file that may be included. Items named "include" stand for
// include blocks; the number in their only label is the target.
type incFile struct {
	Dir  string      `json:"dir,omitempty"`
	JSON bool        `json:"json,omitempty"`
	Body *model.Body `json:"body"`
	Bad  string      `json:"bad,omitempty"` // "", missing, syntax, dir, nil, warn
	Lay  []byte      `json:"lay,omitempty"`
}

type incCase struct {
	Files []incFile `json:"files"`
	Mode  string    `json:"mode"` // map files
	// Deep applies the transform to nested blocks too, Again resolves the
	// includes at the root of included files.
	Deep  bool   `json:"deep"`
	Again bool   `json:"again,omitempty"`
	Base  string `json:"base,omitempty"` // abs, rel, dot, empty
	Abs   bool   `json:"abs,omitempty"`  // the main file has an absolute name
	Plan  []byte `json:"plan"`
}

func (f incFile) name(i int) string {
	n := fmt.Sprintf("f%d.hcl", i)
	if f.JSON {
		n = fmt.Sprintf("f%d.json", i)
	}
	return filepath.Join(f.Dir, n)
}

// include blocks: Labels[0] is the target, Labels[1] what is wrong with it or
// how the path is written.
func incItem(target int, form string) *model.Item {
	return &model.Item{Name: "include", Labels: []string{fmt.Sprint(target), form}}
}

func incTarget(it *model.Item) int {
	var n int
	fmt.Sscan(it.Labels[0], &n)
	return n
}

var incForms = []string{"no path", "extra argument", "extra block", "number", "undefined", "list", "null", "label", "nosuch"}

// write turns include items into blocks.
func (c incCase) write(from int, items []*model.Item) *model.Body {
	b := &model.Body{}
	for _, it := range items {
		if it.IsAttr() {
			b.Items = append(b.Items, it)
			continue
		}
		if it.Name != "include" {
			cp := *it
			cp.Body = c.write(from, it.Body.Items)
			b.Items = append(b.Items, &cp)
			continue
		}
		to := incTarget(it)
		path := c.path(from, to)
		inc := &model.Item{Name: "include", Body: &model.Body{}}
		attr := func(n string, x *model.Expr) { inc.Body.Items = append(inc.Body.Items, &model.Item{Name: n, X: x}) }
		switch form := it.Labels[1]; form {
		case "no path":
		case "extra argument":
			attr("path", model.StrLit(path))
			attr("other", model.NumLit("1"))
		case "extra block":
			attr("path", model.StrLit(path))
			inc.Body.Items = append(inc.Body.Items, &model.Item{Name: "blk", Body: &model.Body{}})
		case "number":
			attr("path", model.NumLit("17"))
		case "undefined":
			attr("path", &model.Expr{K: "var", S: "nosuch"})
		case "list":
			attr("path", &model.Expr{K: "tuple"})
		case "null":
			attr("path", &model.Expr{K: "null"})
		case "label":
			inc.Labels = []string{"l"}
			attr("path", model.StrLit(path))
		case "nosuch":
			attr("path", model.StrLit("nosuch"+filepath.Ext(path)))
		case "var":
			attr("path", &model.Expr{K: "idx", Xs: []*model.Expr{{K: "var", S: "paths"}, model.StrLit(path)}})
		default:
			attr("path", model.StrLit(path))
		}
		b.Items = append(b.Items, inc)
	}
	return b
}

// path is how a file refers to another.
func (c incCase) path(from, to int) string {
	if c.Mode == "map" {
		return c.Files[to].name(to)
	}
	rel, err := filepath.Rel(filepath.Join("/", c.Files[from].Dir), filepath.Join("/", c.Files[to].name(to)))
	if err != nil {
		engine.Fatal(err)
	}
	return rel
}

func (c incCase) text(i int) string {
	f := c.Files[i]
	b := c.write(i, f.Body.Items)
	if f.JSON {
		src, _ := (&model.JEnc{Lay: f.Lay}).Body(b).Text(f.Lay)
		if f.Bad == "syntax" {
			return src + "]"
		}
		return src
	}
	src := b.Native(f.Lay).Src
	if f.Bad == "syntax" {
		return src + "\na = = 1\n"
	}
	return src
}

// incRef is what a body should decode to: items, and bodies of blocks.
type incRef struct {
	items []*model.Item
	subs  map[*model.Item]*incRef
	err   string
	warn  int
	// maybe: an error that may have been reported elsewhere, because the
	// file is included more than once and is loaded only once.
	maybe bool
}

// uses bounds how often a file may get included, directly or through others.
func (c incCase) uses(to int) int {
	n := 0
	for i, f := range c.Files {
		here := 0
		f.Body.Walk(func(it *model.Item, _ int) {
			if !it.IsAttr() && it.Name == "include" && incTarget(it) == to {
				here++
			}
		})
		if here > 0 && 0 < i && i < to {
			here *= max(1, c.uses(i))
		}
		n += here
	}
	return n
}

// splice gives the expected content of a body with the items of file i.
// resolve says whether include blocks at this level are resolved.
func (c incCase) splice(i int, items []*model.Item, resolve bool, depth int) *incRef {
	ref := &incRef{subs: map[*model.Item]*incRef{}}
	var incs []*model.Item
	seen := map[string]bool{}
	add := func(it *model.Item) {
		if it.IsAttr() {
			if seen[it.Name] {
				ref.err = "duplicate attribute " + it.Name
			}
			seen[it.Name] = true
		}
		ref.items = append(ref.items, it)
	}
	for _, it := range items {
		if !it.IsAttr() && it.Name == "include" {
			if resolve {
				incs = append(incs, it)
			} else {
				ref.err = "unexpected include block"
			}
			continue
		}
		cp := *it
		if !it.IsAttr() {
			ref.subs[&cp] = c.splice(i, it.Body.Items, c.Deep, depth+1)
		}
		add(&cp)
	}
	for _, it := range incs {
		to := incTarget(it)
		f := c.Files[to]
		switch it.Labels[1] {
		case "", "var":
		case "label":
			if c.Files[i].JSON {
				// The label is the name of an argument then.
				ref.err = "malformed include"
				continue
			}
			ref.err = "malformed include"
			continue
		default:
			ref.err = "malformed include: " + it.Labels[1]
			continue
		}
		switch f.Bad {
		case "nil":
			continue // ignored
		case "":
		case "warn":
			ref.warn++
		case "nilwarn":
			ref.warn++
			continue
		case "syntax":
			if c.Mode == "files" && c.uses(to) > 1 {
				ref.maybe = true
			} else {
				ref.err = "include of an invalid file"
			}
			continue
		default:
			ref.err = "include of a file that is bad: " + f.Bad
			continue
		}
		sub := c.splice(to, f.Body.Items, c.Again, depth)
		if sub.err != "" {
			ref.err = sub.err
		}
		ref.maybe = ref.maybe || sub.maybe
		ref.warn += sub.warn
		for _, x := range sub.items {
			if s, ok := sub.subs[x]; ok {
				ref.subs[x] = s
			}
			add(x)
		}
	}
	return ref
}

func genIncCase(t *rapid.T) incCase {
	c := incCase{Mode: model.Pick(t, []string{"map", "files"})}
	c.Deep = model.Chance(t, 75)
	n := model.Int(t, 2, 6, "files")
	num := 0
	bads := 0
	if model.Chance(t, 35) {
		bads = 20
	}
	if c.Mode == "map" {
		c.Again = model.Chance(t, 40)
	}
	var body func(file, depth int, root bool) *model.Body
	body = func(file, depth int, root bool) *model.Body {
		b := &model.Body{}
		for k := model.Count(t, 0, 5); k > 0; k-- {
			w := []int{3, 3, 3}
			if depth == 0 {
				w[1] = 0
			}
			// Only later files are included, so there are no cycles.
			if file == n-1 || root && file > 0 && !c.Again && !model.Chance(t, 4) || !root && !c.Deep && !model.Chance(t, 4) {
				w[2] = 0
			}
			switch model.Weighted(t, w...) {
			case 0:
				num++
				b.Items = append(b.Items, &model.Item{Name: fmt.Sprintf("a%d", num), X: model.NumLit(fmt.Sprint(num))})
			case 1:
				it := &model.Item{Name: model.Pick(t, []string{"blk", "svc"})}
				if it.Name == "svc" {
					it.Labels = []string{model.Pick(t, []string{"x", "y"})}
				}
				it.Body = body(file, depth-1, false)
				b.Items = append(b.Items, it)
			default:
				form := ""
				switch {
				case bads > 0 && model.Chance(t, bads):
					form = model.Pick(t, incForms)
				case model.Chance(t, 20):
					form = "var"
				}
				b.Items = append(b.Items, incItem(model.Int(t, file+1, n-1, "target"), form))
			}
		}
		return b
	}
	for i := 0; i < n; i++ {
		f := incFile{Body: body(i, 2, true), JSON: model.Chance(t, 35), Lay: lay(t)}
		if f.JSON {
			noLabels(f.Body.Items)
		}
		if c.Mode == "files" {
			f.Dir = model.Pick(t, []string{"", "", "sub", "sub/deep", "other"})
		}
		if i > 0 && bads > 0 && model.Chance(t, bads) {
			if c.Mode == "map" {
				f.Bad = model.Pick(t, []string{"missing", "syntax", "nil", "warn", "nilwarn"})
			} else {
				f.Bad = model.Pick(t, []string{"missing", "syntax", "dir"})
			}
		}
		c.Files = append(c.Files, f)
	}
	if c.Mode == "files" {
		c.Base = model.Pick(t, []string{"abs", "rel", "dot", "empty"})
		c.Abs = model.Chance(t, 30)
	}
	c.Plan = rapid.SliceOfN(rapid.Byte(), 1, 16).Draw(t, "plan")
	return c
}

// noLabels replaces the form that needs a block with too many labels.
func noLabels(items []*model.Item) {
	for _, it := range items {
		if it.IsAttr() {
			continue
		}
		if it.Name == "include" {
			if it.Labels[1] == "label" {
				it.Labels[1] = "no path"
			}
			continue
		}
		noLabels(it.Body.Items)
	}
}

type incCheck struct {
	plan   []byte
	i      int
	schema *hcl.BodySchema
	errs   int
	json   bool
	maybe  bool
	failed bool
}

func (x *incCheck) pick(n int) int {
	v := int(x.plan[x.i%len(x.plan)]) + x.i/len(x.plan)
	x.i++
	return v % n
}

func (x *incCheck) body(b hcl.Body, ref *incRef) error {
	var all hcl.Diagnostics
	attrs := hcl.Attributes{}
	var blocks hcl.Blocks
	take := func(c *hcl.BodyContent, diags hcl.Diagnostics) {
		all = append(all, diags...)
		for n, a := range c.Attributes {
			attrs[n] = a
		}
		blocks = append(blocks, c.Blocks...)
	}
	if x.pick(3) == 0 && !x.json {
		// The attributes first, in attributes mode, if there are no blocks.
		only := true
		for _, it := range ref.items {
			only = only && it.IsAttr()
		}
		as, diags := b.JustAttributes()
		if only && !ref.maybe && ref.err == "" && (len(as) != len(ref.items) || diags.HasErrors()) {
			return errf("attributes mode gives %v, %s; expected %d attributes", model.SortedKeys(as), orNone(diags), len(ref.items))
		}
		if ref.err != "" && !ref.maybe && !diags.HasErrors() && only {
			return errf("attributes mode: no error reported; expected %s", ref.err)
		}
	}
	if x.pick(2) == 0 {
		part := &hcl.BodySchema{}
		for _, a := range x.schema.Attributes {
			if x.pick(2) == 0 {
				part.Attributes = append(part.Attributes, a)
			}
		}
		if x.pick(2) == 0 {
			part.Blocks = x.schema.Blocks
		}
		c, rest, diags := b.PartialContent(part)
		take(c, diags)
		if rest == nil {
			return errf("no remaining body")
		}
		b = rest
	}
	c, diags := b.Content(x.schema)
	take(c, diags)
	b.MissingItemRange()
	x.maybe = x.maybe || ref.maybe
	if err := shaped("diagnostics", all); err != nil {
		return err
	}
	x.failed = x.failed || all.HasErrors()
	if ref.err != "" {
		x.errs++
		if !all.HasErrors() {
			return errf("no error reported; expected %s", ref.err)
		}
		return nil
	}
	if ref.maybe {
		return nil
	}
	if all.HasErrors() {
		return errf("unexpected error: %s", diagStr(all))
	}
	warns := 0
	for _, d := range all {
		if d.Summary == "inc warning" {
			warns++
		}
	}
	if warns != ref.warn {
		return errf("%d warnings of the resolver are reported, expected %d", warns, ref.warn)
	}
	wa := 0
	var wb []*model.Item
	for _, it := range ref.items {
		if !it.IsAttr() {
			wb = append(wb, it)
			continue
		}
		wa++
		if a := attrs[it.Name]; a == nil || numOf(a) != it.X.S {
			return errf("attribute %s is missing or wrong", it.Name)
		}
	}
	if wa != len(attrs) || len(blocks) != len(wb) {
		return errf("%d attributes and %d blocks, expected %d and %d", len(attrs), len(blocks), wa, len(wb))
	}
	for i, it := range wb {
		bl := blocks[i]
		if bl.Type != it.Name || !sameStrings(bl.Labels, it.Labels) {
			return errf("block %d is %s %q, expected %s %q", i, bl.Type, bl.Labels, it.Name, it.Labels)
		}
		if err := x.body(bl.Body, ref.subs[it]); err != nil {
			return errf("in block %d (%s): %w", i, bl.Type, err)
		}
	}
	return nil
}

func checkInclude(c incCase, r *engine.Rec) error {
	paths := map[string]cty.Value{"": cty.StringVal("")}
	x := &incCheck{plan: c.Plan, schema: &hcl.BodySchema{Blocks: []hcl.BlockHeaderSchema{{Type: "blk"}, {Type: "svc", LabelNames: []string{"name"}}}}}
	var show []string
	incs := 0
	for i, f := range c.Files {
		x.json = x.json || f.JSON
		f.Body.Walk(func(it *model.Item, _ int) {
			if it.IsAttr() {
				x.schema.Attributes = append(x.schema.Attributes, hcl.AttributeSchema{Name: it.Name})
			} else if it.Name == "include" {
				incs++
				p := c.path(i, incTarget(it))
				paths[p] = cty.StringVal(p)
			}
		})
		show = append(show, fmt.Sprintf("-- %s %s\n%s", f.name(i), f.Bad, c.text(i)))
		if f.Bad != "" {
			r.Label("target %s", f.Bad)
		}
	}
	r.Sample(fmt.Sprintf("%s deep=%v again=%v base=%s\n%s", c.Mode, c.Deep, c.Again, c.Base, strings.Join(show, "\n")))
	r.Label("%s", c.Mode)
	if c.Base != "" {
		r.Label("base %s, absolute main file %v", c.Base, c.Abs)
	}
	r.NonTrivialIf(incs >= 2)
	ctx := &hcl.EvalContext{Variables: map[string]cty.Value{"paths": cty.MapVal(paths)}}

	var tr transform.Transformer
	var root hcl.Body
	parse := func(i int, name string) (hcl.Body, error) {
		src := []byte(c.text(i))
		var f *hcl.File
		var diags hcl.Diagnostics
		if c.Files[i].JSON {
			f, diags = json.Parse(src, name)
		} else {
			f, diags = hclsyntax.ParseConfig(src, name, startPos)
		}
		if diags.HasErrors() != (c.Files[i].Bad == "syntax") {
			return nil, errf("parsing %s: %s", name, orNone(diags))
		}
		return f.Body, nil
	}
	if c.Mode == "map" {
		m := map[string]hcl.Body{}
		warn := map[string]bool{}
		for i, f := range c.Files {
			name := f.name(i)
			switch f.Bad {
			case "missing":
				continue
			case "nil", "nilwarn":
				m[name] = nil
				warn[name] = f.Bad == "nilwarn"
				continue
			}
			b, err := parse(i, name)
			if err != nil {
				return err
			}
			m[name] = b
			warn[name] = f.Bad == "warn"
			if f.Bad == "syntax" {
				m[name] = transform.BodyWithDiagnostics(b, hcl.Diagnostics{xfDiag(hcl.DiagError, "syntax")})
			}
		}
		root = m[c.Files[0].name(0)]
		res := include.MapResolver(m)
		res = include.ResolverFunc(func(inner include.Resolver) include.ResolverFunc {
			return func(path string, rng hcl.Range) (hcl.Body, hcl.Diagnostics) {
				b, diags := inner.ResolveBodyPath(path, rng)
				if warn[path] {
					diags = append(diags, &hcl.Diagnostic{Severity: hcl.DiagWarning, Summary: "inc warning"})
				}
				if c.Again && b != nil {
					b = tr.TransformBody(b)
				}
				return b, diags
			}
		}(res))
		tr = include.Transformer("include", ctx, res)
	} else {
		dir, done := scratch()
		defer done()
		for i, f := range c.Files {
			name := filepath.Join(dir, f.name(i))
			os.MkdirAll(filepath.Dir(name), 0o755)
			var err error
			switch f.Bad {
			case "missing":
			case "dir":
				err = os.MkdirAll(name, 0o755)
			default:
				err = os.WriteFile(name, []byte(c.text(i)), 0o644)
			}
			if err != nil {
				engine.Fatal(err)
			}
		}
		wd, err := os.Getwd()
		if err != nil {
			engine.Fatal(err)
		}
		rel, err := filepath.Rel(wd, dir)
		if err != nil {
			engine.Fatal(err)
		}
		name := c.Files[0].name(0)
		base := dir
		switch c.Base {
		case "rel":
			base = rel
		case "dot":
			base, name = ".", filepath.Join(rel, name)
		case "empty":
			base, name = "", filepath.Join(rel, name)
		}
		if c.Abs {
			name = filepath.Join(dir, c.Files[0].name(0))
		}
		if root, err = parse(0, name); err != nil {
			return err
		}
		tr = include.Transformer("include", ctx, include.FileResolver(base, hclparse.NewParser()))
	}
	var body hcl.Body
	if c.Deep {
		body = transform.Deep(root, tr)
	} else {
		body = transform.Shallow(root, tr)
	}
	err := x.body(body, c.splice(0, c.Files[0].Body.Items, true, 0))
	if err == nil && x.maybe && !x.failed {
		err = errf("the invalid file is not reported anywhere")
	}
	if x.errs > 0 {
		r.Label("error expected")
	}
	if err != nil {
		return errf("%w\n%s", err, strings.Join(show, "\n"))
	}
	return nil
}

func init() {
	engine.Add("C32", "graphs", "at least two include blocks", 80000, genIncCase, checkInclude)
}
