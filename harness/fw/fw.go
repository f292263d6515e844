// Package fw is the harness framework: properties made of workloads, each a
// deterministic list of cases; workers which run cases with monitors attached;
// and a parent which shards, attributes crashes and hangs to cases, and writes
// verdict, replay and evidence.
package fw

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

// Workload is a deterministic list of cases.
type Workload struct {
	Name     string
	Quick    int // number of cases, quick tier
	Thorough int
	Fn       func(*C)
	Limit    time.Duration // progress watchdog for one case; default 120s
}

// Prop is a property's check.
type Prop struct {
	ID        string
	Race      bool
	Rule      string // how cases are made and what makes one non-trivial
	Workloads []Workload
	MemLimit  uint64 // address space limit of a worker in bytes, 0 none
	Workers   int    // default 8
	// Need names counters that must be positive for the run to count as
	// having observed something.
	Need        []string
	Assumptions []string
}

var props = map[string]*Prop{}

func Register(p *Prop) {
	if props[p.ID] != nil {
		panic("dup " + p.ID)
	}
	props[p.ID] = p
}

func Get(id string) *Prop { return props[id] }

func IDs() []string {
	var r []string
	for k := range props {
		r = append(r, k)
	}
	return r
}

// Finding is a violation reported by a monitor.
type Finding struct {
	Prop     string   `json:"property"`
	Workload string   `json:"workload"`
	Index    int      `json:"index"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Key      string   `json:"key,omitempty"` // stable key of a listed finding
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Log      []string `json:"log,omitempty"`
}

// C is one running case.
type C struct {
	R     *Rand
	Tier  string
	Prop  string
	W     string
	Index int
	Seed  int64
	Tmp   string // scratch directory of the worker
	// MuteKeys ignores reports of known findings, which belong to another
	// property than the one whose case this is.
	MuteKeys bool

	mu     sync.Mutex
	log    []string
	logN   int
	st     *stats
	nt     bool
	sig    uint64
	failed []Finding
}

type stats struct {
	Evals   int            `json:"evals"`
	Counts  map[string]int `json:"counts"`
	Sigs    map[uint64]struct{}
	Samples []string `json:"samples"`
	maxMs   int64
}

type failT struct{ msg string }

// IsFail tells whether a panic value is a Failf.
func IsFail(e interface{}) bool { _, ok := e.(failT); return ok }

// Thorough tells the tier.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

const maxLog = 4000

// Logf appends to the case's operation log, which goes into the replay file.
func (c *C) Logf(f string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.logN++
	if len(c.log) < maxLog {
		c.log = append(c.log, fmt.Sprintf(f, a...))
	}
	if Verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// Verbose prints the operation log as it grows (replay).
var Verbose bool

// Failf reports a violation and ends the case.
func (c *C) Failf(f string, a ...interface{}) {
	panic(failT{fmt.Sprintf(f, a...)})
}

// Report reports a violation without ending the case (usable from any
// goroutine).
func (c *C) Report(key, f string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if key != "" && c.MuteKeys {
		return
	}
	c.failed = append(c.failed, Finding{Key: key, Kind: "monitor", Msg: fmt.Sprintf(f, a...)})
}

// Count adds to a named counter of what the monitors observed.
func (c *C) Count(name string, n int) {
	c.mu.Lock()
	c.st.Counts[name] += n
	c.mu.Unlock()
}

// Obs marks the case non-trivial and adds sig to its signature.
func (c *C) Obs(sig uint64) {
	c.mu.Lock()
	c.nt = true
	c.sig = Mix(c.sig ^ sig)
	c.mu.Unlock()
}

// Sample offers an example for the evidence file.
func (c *C) Sample(f string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.st.Samples) < 3 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.st.Samples = append(c.st.Samples, s)
	}
}

func caseSeed(seed int64, prop, w string, idx int) uint64 {
	h := HashStr(uint64(seed)*0x9e3779b97f4a7c15+17, prop)
	h = HashStr(h, w)
	return Mix(h ^ uint64(idx)*0xd6e8feb86659fd93)
}

// runCase runs one case; findings are returned.
func runCase(p *Prop, w *Workload, idx int, seed int64, tier, tmp string, st *stats) (fs []Finding) {
	c := &C{R: NewRand(caseSeed(seed, p.ID, w.Name, idx)), Tier: tier, Prop: p.ID, W: w.Name,
		Index: idx, Seed: seed, Tmp: tmp, st: st}
	fill := func(f Finding) Finding {
		f.Prop, f.Workload, f.Index, f.Seed, f.Tier = p.ID, w.Name, idx, seed, tier
		f.Log = c.log
		return f
	}
	defer func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		st.Evals++
		st.Counts["cases."+w.Name]++
		if c.nt {
			st.Sigs[c.sig] = struct{}{}
		}
		for _, f := range c.failed {
			fs = append(fs, fill(f))
		}
	}()
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(failT); ok {
				fs = append(fs, fill(Finding{Kind: "monitor", Msg: f.msg}))
				return
			}
			fs = append(fs, fill(Finding{Kind: "panic",
				Msg: fmt.Sprintf("panic: %v\n%s", e, trimStack(string(debug.Stack())))}))
		}
	}()
	w.Fn(c)
	return
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	if len(ls) > 60 {
		ls = ls[:60]
	}
	return strings.Join(ls, "\n")
}

// Catch runs f and returns the panic value it raised, if any (a Failf passes
// through).
func Catch(f func()) (pv interface{}, stack string) {
	defer func() {
		if e := recover(); e != nil {
			if ft, ok := e.(failT); ok {
				panic(ft)
			}
			pv = e
			stack = trimStack(string(debug.Stack()))
		}
	}()
	f()
	return nil, ""
}

// Par runs n parts of a case at once, each with its own context, generator and
// log. Parts which fail are reported.
func (c *C) Par(n int, f func(i int, c *C)) {
	subs := make([]*C, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range subs {
		s := &C{R: c.R.Fork(), Tier: c.Tier, Prop: c.Prop, W: c.W, Index: c.Index, Seed: c.Seed, Tmp: c.Tmp,
			st: &stats{Counts: map[string]int{}, Sigs: map[uint64]struct{}{}}}
		subs[i] = s
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					if ft, ok := e.(failT); ok {
						s.Report("", "%s", ft.msg)
						return
					}
					s.Report("", "panic: %v\n%s", e, trimStack(string(debug.Stack())))
				}
			}()
			<-start
			f(i, s)
		}(i)
	}
	close(start)
	wg.Wait()
	for i, s := range subs {
		for _, l := range s.log {
			c.Logf("%d: %s", i, l)
		}
		for k, v := range s.st.Counts {
			c.Count(k, v)
		}
		if s.nt {
			c.Obs(s.sig)
		}
		for _, x := range s.st.Samples {
			c.Sample("%s", x)
		}
		c.mu.Lock()
		c.failed = append(c.failed, s.failed...)
		c.mu.Unlock()
	}
}
