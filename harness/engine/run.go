package engine

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// SubStat is what a shard measured for one sub-check.
type SubStat struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Hashes      []uint64       `json:"hashes,omitempty"`
	Labels      map[string]int `json:"labels,omitempty"`
	Samples     []interface{}  `json:"samples,omitempty"`
	Truncated   bool           `json:"truncated,omitempty"`
}

// ShardResult is the output of one shard process.
type ShardResult struct {
	Stats     map[string]*SubStat `json:"stats"`
	Violation *Replay             `json:"violation,omitempty"`
	Known     map[string]string   `json:"known,omitempty"`
	Errors    []string            `json:"errors,omitempty"`
}

// Config of a shard run.
type Config struct {
	Prop      string
	Seed      uint64
	Shard     int
	Shards    int
	Mult      float64 // multiplier on case counts
	Budget    time.Duration
	KnownIDs  map[string]string
	CorpusDir string
	TraceFile string // when set, every case is written here before it runs
	OutFile   string
	OnlySub   string
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func seedFor(parts ...uint64) uint64 {
	s := uint64(0x5851f42d4c957f2d)
	for _, p := range parts {
		s = splitmix(s ^ p)
	}
	if s == 0 {
		s = 1
	}
	return s
}

// stubTB lets rapid run outside "go test".
type stubTB struct {
	failed bool
	log    []string
}

type stopRun struct{}

func (t *stubTB) Helper()      {}
func (t *stubTB) Name() string { return "vprop" }
func (t *stubTB) Logf(f string, a ...any) {
	if len(t.log) < 20 {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
}
func (t *stubTB) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *stubTB) Skipf(f string, a ...any)  { t.Logf(f, a...); panic(stopRun{}) }
func (t *stubTB) Skip(a ...any)             { panic(stopRun{}) }
func (t *stubTB) SkipNow()                  { panic(stopRun{}) }
func (t *stubTB) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *stubTB) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *stubTB) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(stopRun{}) }
func (t *stubTB) Fatal(a ...any)            { t.Error(a...); panic(stopRun{}) }
func (t *stubTB) FailNow()                  { t.failed = true; panic(stopRun{}) }
func (t *stubTB) Fail()                     { t.failed = true }
func (t *stubTB) Failed() bool              { return t.failed }

func rapidCheck(tb *stubTB, prop func(*rapid.T)) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stopRun); !ok {
				panic(p)
			}
		}
	}()
	rapid.Check(tb, prop)
}

func setFlag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		panic(err)
	}
}

// InitFlags must be called before running checks.
func InitFlags() {
	testing.Init()
	flag.CommandLine.Parse([]string{})
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", "25s")
}

// watchdog state: the case currently being evaluated.
var (
	curMu    sync.Mutex
	curSub   *Sub
	curCase  []byte
	curStart int64 // unix nanos, 0 when idle
)

const (
	// hangTicks is how many ticks of the watchdog a single small case may
	// run. Ticks are counted, rather than reading the clock, so that time in
	// which the process did not run does not count.
	hangTicks = 600
	tick      = 200 * time.Millisecond
	memLimit  = 2500 << 20
	// ExitHang is the exit status of a shard whose case did not return.
	ExitHang = 7
)

func startWatchdog(onHang func(sub *Sub, c []byte, why string)) {
	go func() {
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		var last int64
		ticks := 0
		for {
			time.Sleep(tick)
			st := atomic.LoadInt64(&curStart)
			if st != last {
				last, ticks = st, 0
			}
			if st == 0 {
				continue
			}
			ticks++
			el := time.Since(time.Unix(0, st))
			why := ""
			if ticks > hangTicks {
				why = fmt.Sprintf("did not return within %s", hangTicks*tick)
			} else if el > 2*time.Second {
				metrics.Read(sample)
				if sample[0].Value.Uint64() > memLimit {
					why = fmt.Sprintf("did not return: still allocating after %d MiB", memLimit>>20)
				}
			}
			if why == "" {
				continue
			}
			curMu.Lock()
			sub, c := curSub, curCase
			curMu.Unlock()
			if sub == nil || atomic.LoadInt64(&curStart) != st {
				continue
			}
			onHang(sub, c, why)
			os.Exit(ExitHang)
		}
	}()
}

func begin(s *Sub, enc []byte) {
	curMu.Lock()
	curSub, curCase = s, enc
	curMu.Unlock()
	atomic.StoreInt64(&curStart, time.Now().UnixNano())
}

func end() { atomic.StoreInt64(&curStart, 0) }

// RunShard runs the sub-checks of a property and writes its result file.
func RunShard(cfg Config) {
	res := &ShardResult{Stats: map[string]*SubStat{}, Known: map[string]string{}}
	write := func() {
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(cfg.OutFile, b, 0o644); err != nil {
			panic(err)
		}
	}
	startWatchdog(func(sub *Sub, c []byte, why string) {
		res.Violation = &Replay{Property: sub.Prop, Sub: sub.Name, Error: "HANG: " + why, Case: c}
		write()
	})
	var trace *os.File
	if cfg.TraceFile != "" {
		var err error
		trace, err = os.Create(cfg.TraceFile)
		if err != nil {
			panic(err)
		}
	}
	traceCase := func(s *Sub, enc []byte) {
		if trace != nil {
			b := marshal(Replay{Property: s.Prop, Sub: s.Name, Case: enc})
			trace.Truncate(0)
			trace.WriteAt(b, 0)
		}
	}

	var subs []*Sub
	totalQuick := 0
	for _, s := range Subs(cfg.Prop) {
		if cfg.OnlySub != "" && s.Name != cfg.OnlySub {
			continue
		}
		subs = append(subs, s)
		totalQuick += s.Quick
	}

	// Known failing inputs of the past run first, in shard 0.
	if cfg.Shard == 0 && cfg.CorpusDir != "" {
		files, _ := filepath.Glob(filepath.Join(cfg.CorpusDir, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			rp, s, c, err := LoadReplay(f)
			if err != nil {
				res.Errors = append(res.Errors, fmt.Sprintf("corpus %s: %s", f, err))
				continue
			}
			st := res.stat(s)
			st.Evaluations++
			st.Labels["regression case"]++
			enc := []byte(rp.Case)
			traceCase(s, enc)
			begin(s, enc)
			r := &Rec{}
			err = s.runCheck(c, r)
			end()
			if err != nil && !res.known(cfg, err) {
				res.Violation = &Replay{Property: s.Prop, Sub: s.Name, Error: err.Error(), Case: enc}
				write()
				return
			}
		}
	}

	deadlineAll := time.Now().Add(cfg.Budget)
	for si, s := range subs {
		if s.Serial && cfg.Shard != 0 {
			continue
		}
		n := int(float64(s.Quick) * cfg.Mult)
		if !s.Serial {
			n = (n + cfg.Shards - 1) / cfg.Shards
		}
		if n < 1 {
			n = 1
		}
		// Each sub-check gets its share of what is left of the budget.
		share := time.Until(deadlineAll) / time.Duration(len(subs)-si)
		deadline := time.Now().Add(share)
		st := res.stat(s)
		seen := map[uint64]struct{}{}
		chunk := 250
		done := 0
		for ci := 0; done < n; ci++ {
			if time.Now().After(deadline) {
				st.Truncated = true
				break
			}
			k := chunk
			if n-done < k {
				k = n - done
			}
			setFlag("rapid.checks", strconv.Itoa(k))
			setFlag("rapid.seed", strconv.FormatUint(seedFor(cfg.Seed, hash64([]byte(s.Prop+"/"+s.Name)), uint64(cfg.Shard), uint64(ci)), 10))
			tb := &stubTB{}
			var failing *Replay
			shrinking := false
			rapidCheck(tb, func(t *rapid.T) {
				c := s.gen(t)
				enc := marshal(c)
				traceCase(s, enc)
				r := &Rec{}
				begin(s, enc)
				err := s.runCheck(c, r)
				end()
				if !shrinking {
					st.Evaluations++
					if r.nontrivial {
						h := hash64(enc)
						if _, dup := seen[h]; !dup {
							seen[h] = struct{}{}
							if len(st.Samples) < 2 && len(seen)%7 == 3 {
								var smp interface{} = json.RawMessage(enc)
								if r.sample != "" {
									smp = r.sample
								} else if len(enc) > 1200 {
									smp = string(enc[:1200]) + "..."
								}
								st.Samples = append(st.Samples, smp)
							}
						}
					}
					for _, l := range r.labels {
						st.Labels[l]++
					}
				}
				if err != nil {
					if res.known(cfg, err) {
						return
					}
					shrinking = true
					failing = &Replay{Property: s.Prop, Sub: s.Name, Error: err.Error(), Case: enc}
					t.Fatalf("violated")
				}
			})
			if failing != nil {
				res.Violation = failing
				for h := range seen {
					st.Hashes = append(st.Hashes, h)
				}
				write()
				return
			}
			if tb.failed {
				res.Errors = append(res.Errors, fmt.Sprintf("%s/%s: generator problem: %s", s.Prop, s.Name, strings.Join(tb.log, "; ")))
				break
			}
			done += k
		}
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		st.NonTrivial = len(seen)
	}
	write()
}

func (res *ShardResult) stat(s *Sub) *SubStat {
	st := res.Stats[s.Name]
	if st == nil {
		st = &SubStat{Labels: map[string]int{}}
		res.Stats[s.Name] = st
	}
	return st
}

func (res *ShardResult) known(cfg Config, err error) bool {
	var k *Known
	ok := errors.As(err, &k)
	if !ok {
		return false
	}
	txt, listed := cfg.KnownIDs[k.ID]
	if listed {
		res.Known[k.ID] = txt
	}
	return listed
}

// LoadReplay reads a replay file and decodes its case.
func LoadReplay(path string) (*Replay, *Sub, interface{}, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, nil, err
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		return nil, nil, nil, err
	}
	for _, s := range Subs(rp.Property) {
		if s.Name == rp.Sub {
			c, err := s.dec(rp.Case)
			return rp, s, c, err
		}
	}
	return nil, nil, nil, fmt.Errorf("no sub-check %s/%s", rp.Property, rp.Sub)
}

// RunReplay evaluates a stored case and returns the oracle's error.
func RunReplay(path string) (*Replay, error, error) {
	rp, s, c, err := LoadReplay(path)
	if err != nil {
		return nil, nil, err
	}
	startWatchdog(func(sub *Sub, c []byte, why string) {
		fmt.Printf("HANG: %s\n", why)
	})
	begin(s, rp.Case)
	r := &Rec{}
	verr := s.runCheck(c, r)
	end()
	return rp, verr, nil
}
