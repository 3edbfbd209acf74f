package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/hashicorp/hcl2/hcl"
	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hcl/json"
	"github.com/hashicorp/hcl2/hclparse"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

// loadStep is one operation of a history.
type loadStep struct {
	K    string `json:"k"` // hcl json hclfile jsonfile add write remove mkdir
	Name int    `json:"name"`
	Src  []byte `json:"src,omitempty"`
}

type loadCase struct {
	Steps []loadStep `json:"steps"`
}

var loadNames = []string{"a.hcl", "b.json", "c", "sub/a.hcl", "dir", "./a.hcl"}

func genLoadSrc(t *rapid.T) []byte { return []byte(genLoadText(t)) }

func genLoadText(t *rapid.T) string {
	switch model.Weighted(t, 4, 4, 2, 2, 1) {
	case 0:
		return model.Pick(t, []string{"a = 1\n", "b {\n  c = \"x\"\n}\n", "", "# c\n", "a = [1,\n 2]\n", "x \"y\" {}\r\n"})
	case 1:
		return model.Pick(t, []string{"{}", `{"a": 1}`, `[{"b": {}}]`, "{\n \"c\": [true]\n}\n", "\ufeff{}"})
	case 2:
		return model.Pick(t, []string{"a = \n", "{{", "a = 1 2", "\"", "a = \"${\"", "{\"a\":}", "[1", "nul", "12", "\xff\xfe"})
	case 3:
		src, _ := model.Source(t)
		return string(src)
	}
	return model.AnyText(t)
}

func genLoadCase(t *rapid.T) loadCase {
	var c loadCase
	for n := model.Count(t, 1, 14); n > 0; n-- {
		st := loadStep{Name: model.Int(t, 0, len(loadNames)-1, "name")}
		st.K = model.Pick(t, []string{"hcl", "json", "hclfile", "hclfile", "jsonfile", "jsonfile", "add", "write", "write", "remove", "mkdir"})
		switch st.K {
		case "hcl", "json", "add", "write":
			st.Src = genLoadSrc(t)
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

// scratch makes a directory for one case.
func scratch() (string, func()) {
	dir, err := os.MkdirTemp("", "vprop-")
	if err != nil {
		engine.Fatal(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

// openUnder lists the files below a directory that this process has open.
func openUnder(dir string) []string {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	var ret []string
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(to, dir+"/") {
			ret = append(ret, to[len(dir)+1:])
		}
	}
	return ret
}

func checkLoads(c loadCase, r *engine.Rec) error {
	dir, done := scratch()
	defer done()
	p := hclparse.NewParser()
	type entry struct {
		f   *hcl.File
		src []byte
	}
	known := map[string]entry{}
	var hist []string
	again, failed := 0, 0
	for i, st := range c.Steps {
		rel := loadNames[st.Name]
		name := filepath.Join(dir, rel)
		if strings.HasPrefix(rel, "./") {
			// The same file under another name.
			name = dir + "/./" + rel[2:]
		}
		disk := filepath.Clean(name)
		hist = append(hist, fmt.Sprintf("%s %s %q", st.K, rel, st.Src))
		r.Label("%s", st.K)
		what := func() string { return fmt.Sprintf("step %d of %s", i, strings.Join(hist, "; ")) }
		switch st.K {
		case "write":
			os.MkdirAll(filepath.Dir(disk), 0o755)
			if fi, err := os.Stat(disk); err == nil && fi.IsDir() {
				continue
			}
			if err := os.WriteFile(disk, clone(st.Src), 0o644); err != nil {
				engine.Fatal(err)
			}
			continue
		case "remove":
			os.RemoveAll(disk)
			continue
		case "mkdir":
			if _, err := os.Stat(disk); err != nil {
				os.MkdirAll(disk, 0o755)
			}
			continue
		case "add":
			src := clone(st.Src)
			f, _ := hclsyntax.ParseConfig(src, name, startPos)
			p.AddFile(name, f)
			known[name] = entry{f, src}
			continue
		}
		src := clone(st.Src)
		readable := true
		if strings.HasSuffix(st.K, "file") {
			b, err := os.ReadFile(disk)
			readable = err == nil
			src = b
		}
		var f *hcl.File
		var diags hcl.Diagnostics
		switch st.K {
		case "hcl":
			f, diags = p.ParseHCL(src, name)
		case "json":
			f, diags = p.ParseJSON(src, name)
		case "hclfile":
			f, diags = p.ParseHCLFile(name)
		case "jsonfile":
			f, diags = p.ParseJSONFile(name)
		}
		if e, ok := known[name]; ok {
			again++
			if f != e.f {
				return errf("%s: a different file is returned", what())
			}
			if len(diags) > 0 {
				return errf("%s: diagnostics are repeated: %s", what(), diagStr(diags))
			}
		} else if !readable {
			failed++
			if !diags.HasErrors() {
				return errf("%s: no error for a file that cannot be read", what())
			}
		} else {
			var want hcl.Diagnostics
			if strings.HasPrefix(st.K, "hcl") {
				_, want = hclsyntax.ParseConfig(src, name, startPos)
			} else {
				_, want = json.Parse(src, name)
			}
			if diagStr(diags) != diagStr(want) {
				return errf("%s: reports %s, expected %s", what(), orNone(diags), orNone(want))
			}
			if f == nil || f.Body == nil {
				return errf("%s: no file returned", what())
			}
			known[name] = entry{f, src}
		}
		files, sources := p.Files(), p.Sources()
		if len(files) != len(known) || len(sources) != len(known) {
			return errf("%s: %d files and %d sources recorded, expected %d", what(), len(files), len(sources), len(known))
		}
		for n, e := range known {
			if files[n] != e.f {
				return errf("%s: another file is recorded under %s", what(), n)
			}
			if s, ok := sources[n]; !ok || string(s) != string(e.src) {
				return errf("%s: source recorded under %s is %q, expected %q", what(), n, s, e.src)
			}
		}
	}
	if open := openUnder(dir); len(open) > 0 {
		return errf("files are left open after %s: %v", strings.Join(hist, "; "), open)
	}
	r.NonTrivialIf(again > 0 && len(known) >= 2 || failed > 0 && len(known) > 0)
	r.Sample(strings.Join(hist, "; "))
	return nil
}

func init() {
	engine.Add("C40", "histories", "two names recorded and one loaded again, or a failed read and a recorded name", 120000, genLoadCase, checkLoads)
}
