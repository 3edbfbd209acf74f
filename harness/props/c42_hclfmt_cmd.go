package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/hashicorp/hcl2/hcl/hclsyntax"
	"github.com/hashicorp/hcl2/hclwrite"
	"pgregory.net/rapid"

	"verif/engine"
	"verif/model"
)

type fmtFile struct {
	Src  []byte `json:"src"`
	Mode int    `json:"mode"`
	// What the path is: empty for a file, "missing", "dir" or "again" for
	// the previous file once more.
	Kind string `json:"kind,omitempty"`
	Bare bool   `json:"bare,omitempty"` // a file that is not on the command line
}

type fmtCmdCase struct {
	Files []fmtFile `json:"files"`
	Stdin bool      `json:"stdin,omitempty"`
	Check bool      `json:"check,omitempty"`
	Req   bool      `json:"req,omitempty"`
	W     bool      `json:"w,omitempty"`
	Abs   bool      `json:"abs,omitempty"`
}

func bodySrc(t *rapid.T) []byte {
	c := genBodyCase(t)
	return []byte(c.Body.Native(c.Lay).Src)
}

func genFmtCmd(t *rapid.T) fmtCmdCase {
	c := fmtCmdCase{
		Stdin: model.Chance(t, 20),
		Check: model.Chance(t, 40),
		Req:   model.Chance(t, 30),
		W:     model.Chance(t, 60),
		Abs:   model.Chance(t, 20),
	}
	n := model.Count(t, 1, 4)
	for i := 0; i < n; i++ {
		f := fmtFile{Mode: model.Pick(t, []int{0o600, 0o644, 0o640, 0o755}), Bare: model.Chance(t, 15)}
		switch model.Weighted(t, 40, 30, 10, 20) {
		case 0:
			f.Src = bodySrc(t)
		case 1:
			// Already formatted, most of the time.
			f.Src = []byte(model.Pick(t, []string{"", "a = 1\n", "a   = 1\nbcd = 2\n", "b \"x\" {\n  c = [1, 2]\n}\n", "a = <<EOT\n  x ${y}\nEOT\n", "# c\na = 1 # d\n", "a = 1", "a=1", "b{}\n", "\n\n\na = 1\n\n"}))
		case 2:
			f.Src = bodySrc(t)
			if len(f.Src) > 0 {
				i := model.Int(t, 0, len(f.Src)-1, "cut")
				if model.Chance(t, 50) {
					f.Src = f.Src[:i]
				} else {
					f.Src[i] = rapid.Byte().Draw(t, "byte")
				}
			}
		default:
			f.Src = genRaw(t).Src
		}
		switch model.Weighted(t, 90, 3, 3, 4) {
		case 1:
			f.Kind = "missing"
		case 2:
			f.Kind = "dir"
		case 3:
			if len(c.Files) > 0 {
				f.Kind = "again"
			}
		}
		c.Files = append(c.Files, f)
	}
	return c
}

func checkFmtCmd(c fmtCmdCase, r *engine.Rec) error {
	dir, done := scratch()
	defer done()
	var args []string
	if c.Check {
		args = append(args, "-check")
	}
	if c.Req {
		args = append(args, "-require-no-change")
	}
	if c.W {
		args = append(args, "-w")
	}

	// What should come out.
	want := map[string][]byte{}
	modes := map[string]os.FileMode{}
	var out []byte
	fail, valid := false, true
	var changed []string
	one := func(name string, src []byte) []byte {
		_, diags := hclsyntax.ParseConfig(src, name, startPos)
		valid = valid && !diags.HasErrors()
		if c.Check && diags.HasErrors() {
			fail = true
			r.Label("refused")
			return src
		}
		dst := hclwrite.Format(clone(src))
		if !bytes.Equal(dst, src) {
			changed = append(changed, name)
		}
		if !c.W {
			out = append(out, dst...)
			return src
		}
		return dst
	}

	var stdin []byte
	if c.Stdin {
		stdin = c.Files[0].Src
		if c.W {
			fail = true
		} else {
			one("<stdin>", stdin)
		}
	}
	stopped := false
	prev := ""
	for i, f := range c.Files {
		name := fmt.Sprintf("f%d.hcl", i)
		path := filepath.Join(dir, name)
		arg := name
		switch f.Kind {
		case "missing":
			f.Bare = false
		case "dir":
			if err := os.Mkdir(path, 0o700); err != nil {
				engine.Fatal(err)
			}
		case "again":
			if prev == "" {
				continue
			}
			arg = prev
		default:
			if err := os.WriteFile(path, f.Src, 0o600); err != nil {
				engine.Fatal(err)
			}
			if err := os.Chmod(path, os.FileMode(f.Mode)); err != nil {
				engine.Fatal(err)
			}
			want[name], modes[name] = f.Src, os.FileMode(f.Mode)
			if !f.Bare && !c.Stdin {
				prev = name
			}
		}
		if c.Stdin || f.Bare {
			continue
		}
		if c.Abs {
			args = append(args, filepath.Join(dir, arg))
		} else {
			args = append(args, arg)
		}
		switch f.Kind {
		case "missing", "dir":
			// Whether the files after this one are still formatted is not
			// decided.
			stopped, fail = true, true
		default:
			if !stopped {
				want[arg] = one(arg, want[arg])
			}
		}
	}
	if !c.Stdin && prev == "" && !stopped {
		return nil // no files given: this reads the standard input
	}

	again := false
run:
	res := runCmd(dir, string(stdin), append([]string{"hclfmt"}, args...)...)
	all := fmt.Sprintf("hclfmt %s\nexit %d\n%s\n%s", strings.Join(args, " "), res.code, res.out, res.err)
	if !again {
		r.Sample(fmt.Sprintf("%s\n%q", all, c.Files[0].Src))
		r.NonTrivialIf(len(changed) > 0)
	}
	if res.crashed() {
		return errf("the command crashes\n%s", all)
	}
	if !stopped {
		bad := fail || c.Req && len(changed) > 0
		if bad != (res.code != 0) {
			return errf("the exit status is %d, with failure expected to be %v (changes %q)\n%s", res.code, bad, changed, all)
		}
		if res.code != 0 && !again && !fail && c.Req {
			for _, n := range changed {
				if !strings.Contains(res.err, n) {
					return errf("the message does not name the changed file %s\n%s", n, all)
				}
			}
		}
	} else if res.code == 0 {
		return errf("a missing file or a directory is no failure\n%s", all)
	}
	if res.code != 0 && strings.TrimSpace(res.err) == "" {
		return errf("the command fails without a message\n%s", all)
	}
	if stopped && !bytes.HasPrefix([]byte(res.out), out) || !stopped && res.out != string(out) {
		return errf("the output is %q, expected %q\n%s", res.out, out, all)
	}

	// The files.
	ents, err := os.ReadDir(dir)
	if err != nil {
		engine.Fatal(err)
	}
	found := 0
	for _, e := range ents {
		if e.IsDir() {
			if sub, _ := os.ReadDir(filepath.Join(dir, e.Name())); len(sub) > 0 {
				return errf("there is a new file in the directory %s\n%s", e.Name(), all)
			}
			continue
		}
		w, ok := want[e.Name()]
		if !ok {
			return errf("there is a new file %s\n%s", e.Name(), all)
		}
		found++
		got, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			engine.Fatal(err)
		}
		i := 0
		fmt.Sscanf(e.Name(), "f%d.hcl", &i)
		if !bytes.Equal(got, w) && !(stopped && c.W && !c.Files[i].Bare && bytes.Equal(got, hclwrite.Format(clone(w)))) {
			return errf("the file %s is %q, expected %q (was %q)\n%s", e.Name(), got, w, c.Files[i].Src, all)
		}
		info, err := e.Info()
		if err != nil {
			engine.Fatal(err)
		}
		if info.Mode().Perm() != modes[e.Name()] {
			return errf("the permissions of %s are %v, were %v\n%s", e.Name(), info.Mode().Perm(), modes[e.Name()], all)
		}
	}
	if found != len(want) {
		return errf("a file is gone\n%s", all)
	}

	// A second run changes nothing.
	if !again && c.W && !c.Stdin && !stopped && valid {
		r.Label("second run")
		again = true
		changed, out = nil, nil
		goto run
	}
	return nil
}

func init() {
	engine.Add("C42", "files", "formatting changes at least one of the files", 12000, genFmtCmd, checkFmtCmd).Ext()
}
