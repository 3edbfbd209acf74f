// vprop runs the property-based checks. See DESIGN.md.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/engine"
	_ "verif/props"
)

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", args...)
	os.Exit(2)
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vprop check ID | shard ... | replay FILE | list")
	}
	engine.InitFlags()
	switch os.Args[1] {
	case "list":
		for _, p := range engine.Properties() {
			for _, s := range engine.Subs(p) {
				fmt.Println(p, s.Name, s.Quick)
			}
		}
	case "shard":
		shard(os.Args[2])
	case "check":
		check(os.Args[2])
	case "replay":
		rp, verr, err := engine.RunReplay(os.Args[2])
		if err != nil {
			fatal("%s", err)
		}
		if verr != nil {
			fmt.Printf("%s/%s: %s\n", rp.Property, rp.Sub, verr)
			abs, _ := filepath.Abs(os.Args[2])
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, abs)
			os.Exit(1)
		}
		fmt.Printf("%s/%s: held\n", rp.Property, rp.Sub)
	default:
		fatal("unknown command %q", os.Args[1])
	}
}

func shard(cfgJSON string) {
	var cfg engine.Config
	if err := json.Unmarshal([]byte(cfgJSON), &cfg); err != nil {
		fatal("%s", err)
	}
	engine.RunShard(cfg)
}

type finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Text     string `json:"text"`
}

func loadFindings(path, prop string) map[string]string {
	ret := map[string]string{}
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return ret
	}
	if err != nil {
		fatal("%s", err)
	}
	for _, line := range strings.Split(string(b), "\n") {
		// lines: "known: id=<ID> property=<P> <text>"; "fixed:" lines suppress nothing
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		f := strings.Fields(line)
		if len(f) < 4 {
			fatal("bad line in %s: %q", path, line)
		}
		id := strings.TrimPrefix(f[1], "id=")
		p := strings.TrimPrefix(f[2], "property=")
		if strings.Contains(","+p+",", ","+prop+",") {
			ret[id] = strings.Join(f[3:], " ")
		}
	}
	return ret
}

func check(prop string) {
	start := time.Now()
	subs := engine.Subs(prop)
	if len(subs) == 0 {
		fatal("no sub-checks for %s", prop)
	}
	home := env("VERIF_HOME", "/verif")
	tier := env("VERIF_TIER", "quick")
	seed, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		fatal("bad VERIF_SEED: %s", err)
	}
	mult := 1.0
	budget := 240 * time.Second
	if tier == "thorough" {
		mult = 20
		budget = 700 * time.Second
	}
	if m := os.Getenv("VERIF_MULT"); m != "" {
		mult, _ = strconv.ParseFloat(m, 64)
	}
	if m := os.Getenv("VERIF_BUDGET"); m != "" {
		budget, _ = time.ParseDuration(m)
	}
	shards := 8
	if m := os.Getenv("VERIF_SHARDS"); m != "" {
		shards, _ = strconv.Atoi(m)
	}
	known := loadFindings(filepath.Join(home, "known-findings.txt"), prop)
	evDir := filepath.Join(home, "evidence")
	if err := os.MkdirAll(evDir, 0o755); err != nil {
		fatal("%s", err)
	}
	tmp, err := os.MkdirTemp("", "vprop-"+prop+"-")
	if err != nil {
		fatal("%s", err)
	}
	defer os.RemoveAll(tmp)
	exit := func(code int) {
		os.RemoveAll(tmp)
		os.Exit(code)
	}
	fail := func(format string, args ...interface{}) {
		fmt.Fprintf(os.Stderr, "CHECK-ERROR: "+format+"\n", args...)
		exit(2)
	}

	results := make([]*engine.ShardResult, shards)
	problems := make([]string, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		cfg := engine.Config{
			Prop: prop, Seed: uint64(seed), Shard: i, Shards: shards, Mult: mult,
			Budget: budget, KnownIDs: known,
			CorpusDir: filepath.Join(home, "harness", "corpus", prop),
			OutFile:   filepath.Join(tmp, fmt.Sprintf("shard%d.json", i)),
			OnlySub:   os.Getenv("VERIF_SUB"),
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			results[i], problems[i] = runShard(cfg, budget, tmp)
		}(i)
	}
	wg.Wait()

	var violation *engine.Replay
	for i, r := range results {
		if r != nil && r.Violation != nil {
			if violation == nil || len(r.Violation.Case) < len(violation.Case) {
				violation = r.Violation
			}
		}
		_ = i
	}
	if violation != nil && strings.HasPrefix(violation.Error, "HANG") {
		ext := false
		for _, s := range subs {
			if s.Name == violation.Sub && s.External {
				ext = true
			}
		}
		if ext {
			fmt.Fprintf(os.Stderr, "case: %s\n", violation.Case)
			fail("%s/%s %s", violation.Property, violation.Sub, violation.Error)
		}
	}
	if violation == nil {
		for i := range results {
			if problems[i] != "" {
				fail("shard %d: %s", i, problems[i])
			}
			if len(results[i].Errors) > 0 {
				fail("shard %d: %s", i, strings.Join(results[i].Errors, "; "))
			}
		}
	}

	// evidence
	total, distinct := 0, 0
	perSub := map[string]interface{}{}
	var samples []interface{}
	knownHit := map[string]string{}
	truncated := false
	var rules []string
	for _, s := range subs {
		ev := 0
		hashes := map[uint64]struct{}{}
		labels := map[string]int{}
		n := 0
		for _, r := range results {
			if r == nil {
				continue
			}
			for id, txt := range r.Known {
				knownHit[id] = txt
			}
			st := r.Stats[s.Name]
			if st == nil {
				continue
			}
			ev += st.Evaluations
			for _, h := range st.Hashes {
				hashes[h] = struct{}{}
			}
			for l, c := range st.Labels {
				labels[l] += c
			}
			if st.Truncated {
				truncated = true
			}
			for _, smp := range st.Samples {
				if n < 2 {
					samples = append(samples, map[string]interface{}{"sub": s.Name, "case": smp})
					n++
				}
			}
		}
		total += ev
		distinct += len(hashes)
		m := map[string]interface{}{"evaluations": ev, "distinct_nontrivial": len(hashes)}
		if len(labels) > 0 {
			m["classes"] = labels
		}
		perSub[s.Name] = m
		rules = append(rules, s.Name+": "+s.Rule)
	}
	violations := 0
	if violation != nil {
		violations = 1
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         total,
			"distinct_nontrivial": distinct,
			"rule":                strings.Join(rules, " | "),
			"samples":             samples,
			"sub_checks":          perSub,
			"stopped_by_budget":   truncated,
			"shards":              shards,
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": violations,
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	if err := enc.Encode(ev); err != nil {
		fail("%s", err)
	}
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), buf.Bytes(), 0o644); err != nil {
		fail("%s", err)
	}

	var ids []string
	for id := range knownHit {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, id, knownHit[id])
	}
	if violation != nil {
		dir := filepath.Join(evDir, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, prop+".json")
		var vb bytes.Buffer
		enc := json.NewEncoder(&vb)
		enc.SetEscapeHTML(false)
		enc.SetIndent("", " ")
		enc.Encode(violation)
		if err := os.WriteFile(path, vb.Bytes(), 0o644); err != nil {
			fail("%s", err)
		}
		fmt.Printf("%s/%s: %s\ncase: %s\n", violation.Property, violation.Sub, violation.Error, clip(string(violation.Case), 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		exit(1)
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial) in %.1fs\n", prop, total, distinct, time.Since(start).Seconds())
	exit(0)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// runShard runs one shard process. If the process dies without a result (for
// example by exhausting the stack) it is run again with tracing so that the
// case being evaluated at the time is identified.
func runShard(cfg engine.Config, budget time.Duration, tmp string) (*engine.ShardResult, string) {
	run := func() (string, error) {
		b, _ := json.Marshal(cfg)
		cmd := exec.Command("/proc/self/exe", "shard", string(b))
		cmd.Env = append(os.Environ(), "GOMAXPROCS="+env("VERIF_GOMAXPROCS", "2"))
		var out bytes.Buffer
		cmd.Stdout = &out
		cmd.Stderr = &out
		if err := cmd.Start(); err != nil {
			return err.Error(), err
		}
		timer := time.AfterFunc(budget+400*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		timer.Stop()
		return out.String(), err
	}
	out, err := run()
	load := func() *engine.ShardResult {
		b, rerr := os.ReadFile(cfg.OutFile)
		if rerr != nil {
			return nil
		}
		r := &engine.ShardResult{}
		if json.Unmarshal(b, r) != nil {
			return nil
		}
		return r
	}
	if r := load(); r != nil {
		return r, ""
	}
	fatalGo := strings.Contains(out, "stack overflow") || strings.Contains(out, "stack exceeds") ||
		strings.Contains(out, "concurrent map") || strings.Contains(out, "DATA RACE")
	if !fatalGo {
		return nil, fmt.Sprintf("shard process failed: %v: %s", err, clip(out, 3000))
	}
	cfg.TraceFile = filepath.Join(tmp, fmt.Sprintf("trace%d.json", cfg.Shard))
	out2, _ := run()
	if r := load(); r != nil {
		return r, ""
	}
	b, rerr := os.ReadFile(cfg.TraceFile)
	if rerr != nil {
		return nil, fmt.Sprintf("shard process failed: %v: %s", err, clip(out, 3000))
	}
	rp := &engine.Replay{}
	if json.Unmarshal(b, rp) != nil {
		return nil, fmt.Sprintf("shard process failed: %v: %s", err, clip(out2, 3000))
	}
	rp.Error = "process died: " + clip(out2, 1500)
	return &engine.ShardResult{Stats: map[string]*engine.SubStat{}, Violation: rp}, ""
}
