// Package props holds the executable properties of KSpaceer/yamly.
//
// Every property is a set of "subs": generated-input checks against an explicit oracle, run by rapid.
// The runner (/verif/check.py) starts this test binary with VP_* variables; see DESIGN.md.
package props

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type sub struct {
	prop, name, rule string
	quick, thorough  int
	body             func(t *rapid.T, c *ctx)
}

var subs []*sub

// reg registers a sub-check. rule says how cases are made and which of them count as non-trivial;
// quick and thorough are the total numbers of cases per run of the tier.
func reg(prop, name, rule string, quick, thorough int, body func(t *rapid.T, c *ctx)) {
	subs = append(subs, &sub{prop, name, rule, quick, thorough, body})
}

type subStats struct {
	Name       string         `json:"name"`
	Rule       string         `json:"rule"`
	Evals      int            `json:"evaluations"`
	NonTrivial int            `json:"nontrivial"`
	Hashes     []uint64       `json:"hashes"`
	Labels     map[string]int `json:"labels"`
	Samples    []string       `json:"samples"`
}

// ctx is the view a property body has of the run.
type ctx struct {
	s  *sub
	rt *rapid.T

	desc       string
	nontrivial bool
	labels     []string

	stats   subStats
	seen    map[uint64]struct{}
	curFile *os.File
}

// Case describes the generated input of the current case; it must be called before the code under test runs.
func (c *ctx) Case(format string, args ...any) {
	if len(args) == 0 {
		c.desc = format
	} else {
		c.desc = fmt.Sprintf(format, args...)
	}
	curMu.Lock()
	curDesc = c.desc
	curStart = time.Now()
	curCPU = cpuTime()
	curMu.Unlock()
	if c.curFile != nil {
		rec := []byte(c.s.prop + "/" + c.s.name + "\n" + c.desc)
		if len(rec) > 1<<16 {
			rec = rec[:1<<16]
		}
		_ = c.curFile.Truncate(0)
		_, _ = c.curFile.WriteAt(rec, 0)
	}
}

// Input describes the case and marks it as non-trivial if cond holds.
func (c *ctx) Nontrivial(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

func (c *ctx) Label(l string) { c.labels = append(c.labels, l) }

func (c *ctx) Failf(format string, args ...any) {
	c.rt.Helper()
	c.rt.Fatalf("%s\ncase: %s", fmt.Sprintf(format, args...), c.desc)
}

func (c *ctx) run(rt *rapid.T) {
	c.rt = rt
	c.desc, c.nontrivial, c.labels = "", false, c.labels[:0]
	curMu.Lock()
	curDesc = "(generating)"
	curStart = time.Now()
	curCPU = cpuTime()
	curMu.Unlock()
	c.s.body(rt, c)
	c.stats.Evals++
	for _, l := range c.labels {
		c.stats.Labels[l]++
	}
	if c.nontrivial {
		c.stats.NonTrivial++
		h := fnv.New64a()
		h.Write([]byte(c.desc))
		sum := h.Sum64()
		if _, ok := c.seen[sum]; !ok {
			if len(c.seen) < 2_000_000 {
				c.seen[sum] = struct{}{}
			}
			n := len(c.seen)
			if n == 3 || n == 50 || n == 400 {
				d := c.desc
				if len(d) > 1500 {
					d = d[:1500] + "..."
				}
				c.stats.Samples = append(c.stats.Samples, d)
			}
		}
	}
}

var (
	curMu    sync.Mutex
	curDesc  string
	curStart time.Time
	curCPU   time.Duration
	watching bool
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	caseCPULimit = 60 * time.Second
	heapLimit    = 3 << 30
)

// watchdog ends the process when a single case (an input of a few hundred bytes) burns a minute of CPU
// or several GB of heap: normal cases need microseconds to milliseconds and a few KB.
func watchdog(out string) {
	for {
		time.Sleep(500 * time.Millisecond)
		curMu.Lock()
		d, st, cp, on := curDesc, curStart, curCPU, watching
		curMu.Unlock()
		if !on {
			continue
		}
		var why string
		if time.Since(st) > caseCPULimit && cpuTime()-cp > caseCPULimit {
			why = "a single case did not finish within 60 s of CPU time"
		} else {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > heapLimit {
				why = "a single case made the heap grow over 3 GB"
			}
		}
		if why != "" {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			_ = os.WriteFile(filepath.Join(out, "watchdog"), []byte(why+"\ncase: "+d+"\n"+string(buf)), 0o644)
			os.Exit(3)
		}
	}
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func TestMain(m *testing.M) {
	debug.SetMaxStack(128 << 20)
	os.Exit(m.Run())
}

func TestProp(t *testing.T) {
	prop := os.Getenv("VP_PROP")
	if prop == "" {
		t.Skip("VP_PROP is not set")
	}
	tier := os.Getenv("VP_TIER")
	seed := envInt("VP_SEED", 1)
	shards, shard := envInt("VP_SHARDS", 1), envInt("VP_SHARD", 0)
	only := os.Getenv("VP_SUB")
	scale := envInt("VP_SCALE", 100)
	out := os.Getenv("VP_OUT")
	if out == "" {
		out = t.TempDir()
	}
	curFile, err := os.Create(filepath.Join(out, fmt.Sprintf("current.%d", shard)))
	if err != nil {
		t.Fatal(err)
	}
	go watchdog(out)

	var all []subStats
	flush := func() {
		data, err := json.Marshal(all)
		if err == nil {
			err = os.WriteFile(filepath.Join(out, fmt.Sprintf("stats.%d.json", shard)), data, 0o644)
		}
		if err != nil {
			t.Fatal(err)
		}
	}
	for i, s := range subs {
		if s.prop != prop || (only != "" && only != s.name) {
			continue
		}
		n := s.quick
		if tier == "thorough" {
			n = s.thorough
		}
		n = (n*scale/100 + shards - 1) / shards
		if n < 1 {
			n = 1
		}
		sd := uint64(seed)*1_000_003 + uint64(shard)*7919 + uint64(i)*104_729 + 1
		_ = flag.Set("rapid.checks", strconv.Itoa(n))
		_ = flag.Set("rapid.seed", strconv.FormatUint(sd, 10))
		c := &ctx{s: s, seen: map[uint64]struct{}{}, curFile: curFile}
		c.stats = subStats{Name: s.name, Rule: s.rule, Labels: map[string]int{}}
		curMu.Lock()
		watching = true
		curMu.Unlock()
		ok := t.Run(s.name, func(t *testing.T) { rapid.Check(t, c.run) })
		curMu.Lock()
		watching = false
		curMu.Unlock()
		for h := range c.seen {
			c.stats.Hashes = append(c.stats.Hashes, h)
		}
		sort.Slice(c.stats.Hashes, func(i, j int) bool { return c.stats.Hashes[i] < c.stats.Hashes[j] })
		all = append(all, c.stats)
		if !ok {
			rec := map[string]any{"property": prop, "sub": s.name, "case": c.desc}
			data, _ := json.MarshalIndent(rec, "", " ")
			_ = os.WriteFile(filepath.Join(out, fmt.Sprintf("failed.%d.json", shard)), data, 0o644)
			flush()
			return
		}
	}
	if len(all) == 0 {
		t.Fatalf("no sub-check for property %s", prop)
	}
	flush()
}
