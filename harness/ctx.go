package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Ctx records the coverage of one sub-check.
type Ctx struct {
	Evals    int
	seen     map[uint64]struct{}
	Classes  map[string]int
	Samples  []string
	Excluded map[string]int
	Cases    int
	caseCPU  time.Duration
	status   *os.File
	desc     string
	MaxMs    float64
	started  time.Time
}

// Sub is one generated sub-check of a property.
type Sub struct {
	Prop   string `json:"prop"`
	Name   string `json:"name"`
	Quick  int    `json:"quick"`  // cases per shard in the quick tier
	Shards int    `json:"shards"` // processes in the quick tier
	Mult   int    `json:"mult"`   // thorough: cases multiplier
	fn     func(t *rapid.T, c *Ctx)
}

// Prop is a property with its sub-checks.
type Prop struct {
	ID   string `json:"id"`
	Rule string `json:"rule"`
	Subs []*Sub `json:"subs"`
}

var caseStart atomic.Int64

var props = map[string]*Prop{}

func registerProp(id, rule string, subs ...*Sub) bool {
	if props[id] == nil {
		props[id] = &Prop{ID: id, Rule: rule}
	}
	for _, s := range subs {
		s.Prop = id
		props[id].Subs = append(props[id].Subs, s)
	}
	return true
}

func sub(name string, quick, shards, mult int, fn func(t *rapid.T, c *Ctx)) *Sub {
	return &Sub{Name: name, Quick: quick, Shards: shards, Mult: mult, fn: fn}
}

func newCtx(status string) *Ctx {
	c := &Ctx{seen: map[uint64]struct{}{}, Classes: map[string]int{}, Excluded: map[string]int{}}
	if status != "" {
		c.status, _ = os.OpenFile(status, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	}
	return c
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Case announces the case about to be run; nontrivial by the sub-check's rule.
func (c *Ctx) Case(t *rapid.T, nontrivial bool, format string, args ...any) {
	c.Evals++
	c.desc = fmt.Sprintf(format, args...)
	t.Logf("case: %s", c.desc)
	if c.status != nil {
		b := []byte(fmt.Sprintf("%d\n%s\n\x00", c.Cases, c.desc))
		_, _ = c.status.WriteAt(b, 0)
	}
	if nontrivial {
		h := fnv.New64a()
		_, _ = h.Write([]byte(c.desc))
		k := h.Sum64()
		if _, ok := c.seen[k]; !ok {
			c.seen[k] = struct{}{}
			n := len(c.seen)
			if n <= 2 || n&(n-1) == 0 && len(c.Samples) < 12 {
				s := c.desc
				if len(s) > 1500 {
					s = s[:1500] + "..."
				}
				c.Samples = append(c.Samples, s)
			}
		}
	}
}

// Doing notes the history so far, for cases that never end.
func (c *Ctx) Doing(hist string) {
	c.desc = hist
	if c.status != nil {
		_, _ = c.status.WriteAt([]byte(fmt.Sprintf("%d\n%s\n\x00", c.Cases, c.desc)), 0)
	}
}

// Class counts a case class.
func (c *Ctx) Class(name string) { c.Classes[name]++ }

// ClassIf counts a case class when cond holds.
func (c *Ctx) ClassIf(cond bool, name string) {
	if cond {
		c.Classes[name]++
	}
}

// Exclude counts a case excluded because of a known finding.
func (c *Ctx) Exclude(name string) { c.Excluded[name]++ }

type report struct {
	Evals    int            `json:"evaluations"`
	Distinct []string       `json:"-"`
	N        int            `json:"distinct"`
	Hashes   []uint64       `json:"hashes,omitempty"`
	Classes  map[string]int `json:"classes"`
	Excluded map[string]int `json:"excluded"`
	Samples  []string       `json:"samples"`
	MaxMs    float64        `json:"max_case_ms"`
}

func (c *Ctx) write(path string) {
	if path == "" {
		return
	}
	hs := make([]uint64, 0, len(c.seen))
	for h := range c.seen {
		hs = append(hs, h)
	}
	r := report{Hashes: hs, Evals: c.Evals, N: len(c.seen), Classes: c.Classes, Excluded: c.Excluded, Samples: c.Samples, MaxMs: c.MaxMs}
	b, _ := json.Marshal(r)
	_ = os.WriteFile(path, b, 0o644)
}

// run wraps the property function with per-case bookkeeping.
func (c *Ctx) run(fn func(t *rapid.T, c *Ctx)) func(t *rapid.T) {
	return func(t *rapid.T) {
		c.Cases++
		c.desc = ""
		rand.Seed(1) // the code under test draws from it (GODEBUG=randseednop=0)
		c.started = time.Now()
		caseStart.Store(int64(cpuTime()) + 1)
		defer func() {
			caseStart.Store(0)
			ms := float64(time.Since(c.started).Microseconds()) / 1000
			if ms > c.MaxMs {
				c.MaxMs = ms
			}
		}()
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(gaveUp); is {
					c.Class("oracle gave up: case undecided")
					return
				}
				panic(r)
			}
		}()
		fn(t, c)
	}
}

// watchdog ends the process when a single case runs away: far more CPU time
// or memory than any case needs (cases take milliseconds).
func watchdog(c *Ctx, cpuLimit time.Duration, memLimit uint64, file string) {
	var ms runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		st := caseStart.Load()
		if st == 0 {
			continue
		}
		used := cpuTime() - time.Duration(st)
		runtime.ReadMemStats(&ms)
		why := ""
		if used > cpuLimit {
			why = fmt.Sprintf("case did not end within %v of CPU time", cpuLimit)
		} else if ms.HeapAlloc > memLimit {
			why = fmt.Sprintf("case uses more than %d MB of memory", memLimit>>20)
		}
		if why != "" && caseStart.Load() == st {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			_ = os.WriteFile(file, []byte(fmt.Sprintf("RUNAWAY: %s\ncase %d: %s\n%s", why, c.Cases, c.desc, strings.TrimSpace(string(buf[:n])))), 0o644)
			os.Exit(77)
		}
	}
}
