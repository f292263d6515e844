package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/ax"
	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
)

// heapNow is what is reachable, in bytes.
func heapNow() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

// fdsNow is the number of open file descriptors.
func fdsNow() int {
	es, e := os.ReadDir("/proc/self/fd")
	if e != nil {
		return -1
	}
	return len(es)
}

// settle waits until no more than n goroutines are left.  When that does not
// happen the watchdog ends the case.
func settle(n int) {
	for runtime.NumGoroutine() > n {
		time.Sleep(50 * time.Microsecond)
	}
}

// meter compares what is held after many rounds with what was held after
// some of them.
type meter struct {
	c     *fw.C
	what  string
	slack int
	first int
	start int
	wait  int // measurements until it must have come down
}

func newMeter(c *fw.C, what string) *meter {
	return &meter{c: c, what: what, slack: 256 << 10, start: heapNow()}
}

// warm is called when all which is needed for a round has been there.
func (m *meter) warm() { m.first = heapNow() }

// done is called at the end, while what is measured is still in use.
func (m *meter) done(rounds int) {
	// what the session held when it was warm may double (slices grow by
	// doubling, learned clauses are allowed for)
	own := m.first - m.start
	if own < 0 {
		own = 0
	}
	m.c.Count("measured", 1)
	grown := heapNow() - m.first
	for i := 0; i < m.wait && grown > own+m.slack; i++ {
		// others may be about to end
		time.Sleep(10 * time.Millisecond)
		grown = heapNow() - m.first
	}
	if p := os.Getenv("VH_METER"); p != "" { // to see how far it is from the limit
		if f, e := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); e == nil {
			fmt.Fprintf(f, "%s own %d grown %d\n", m.what, own, grown)
			f.Close()
		}
	}
	if grown > own+m.slack {
		m.c.Failf("%s: held %d bytes when warm, and %d bytes more after %d rounds", m.what, own, grown, rounds)
	}
}

// longSession: rounds of everything which leaves nothing in force behind.
// All clauses agree with one valuation, so no guard is ever fixed.
func longSession(c *fw.C) {
	r := c.R
	n := r.Range(8, 60)
	plant := make([]bool, n+1)
	for i := range plant {
		plant[i] = r.Bool()
	}
	clause := func(k int) []int {
		for {
			cl := rclause(r, n, k)
			for _, l := range cl {
				if plant[abs(l)] == (l > 0) {
					return cl
				}
			}
		}
	}
	mt := newMeter(c, "session")
	g := newGini(r)
	nc := n * r.Range(10, 43) / 10
	for i := 0; i < nc; i++ {
		addClause(g, clause(3))
	}
	for int(g.MaxVar()) < n {
		g.Lit()
	}
	type op func()
	maxAct := r.Range(1, 8)
	base := int(g.MaxVar())
	gor := runtime.NumGoroutine()
	must1 := func(res int, what string) {
		if res != 1 {
			c.Failf("%s gives %d for satisfiable clauses", what, res)
		}
	}
	rl := func() z.Lit { return z.Dimacs2Lit(rlit(r, n)) }
	ops := []op{
		func() { // guards
			k := r.Range(1, maxAct)
			var as []z.Lit
			for len(as) < k {
				var a z.Lit
				if r.Bool() {
					for _, m := range lits(clause(3)) {
						g.Add(m)
					}
					a = g.Activate()
				} else {
					a = g.ActivationLit()
				}
				as = append(as, a)
				for j := r.Intn(4); j > 0; j-- {
					for _, m := range lits(clause(r.Range(2, 4))) {
						g.Add(m)
					}
					g.ActivateWith(a)
				}
			}
			g.Assume(as...)
			if r.Bool() {
				must1(g.Solve(), "Solve under guards")
			} else {
				g.Assume(rl(), rl(), rl())
				g.Solve()
			}
			for _, i := range r.Perm(len(as)) {
				g.Deactivate(as[i])
			}
			c.Count("activations", k)
			if mv := int(g.MaxVar()); mv > base+maxAct {
				c.Failf("%d variables and at most %d guards at a time, but MaxVar is %d", base, maxAct, mv)
			}
		},
		func() { // assumptions
			for j := r.Range(1, 6); j > 0; j-- {
				g.Assume(rl())
			}
			if g.Solve() == -1 {
				g.Why(nil)
			}
			c.Count("solves", 1)
		},
		func() { // scopes
			d := 0
			for j := r.Range(1, 6); j > 0; j-- {
				g.Assume(rl())
				res, _ := g.Test(nil)
				d++
				if res != 0 {
					break
				}
			}
			for ; d > 0; d-- {
				g.Untest()
			}
			must1(g.Solve(), "Solve after the scopes")
			c.Count("scopes", 1)
		},
		func() { // in the background
			g.Assume(rl(), rl(), rl())
			switch r.Intn(3) {
			case 0:
				g.Try(time.Hour)
			case 1:
				g.GoSolve().Stop()
			case 2:
				s := g.GoSolve()
				if _, ok := s.Pause(); ok {
					s.Unpause()
					s.Wait()
				}
			}
			settle(gor)
			c.Count("background", 1)
		},
		func() { // a copy
			if !r.P(1, 20) {
				return
			}
			h := g.Copy()
			h.Assume(rl(), rl())
			h.Solve()
			addClause(h, clause(3))
			c.Count("copies", 1)
		},
		func() { // written
			if !r.P(1, 20) {
				return
			}
			g.Write(io.Discard)
		},
	}
	var use []op
	for len(use) == 0 {
		for i, o := range ops {
			if r.P(1, 2) || i == 0 && r.Bool() {
				use = append(use, o)
			}
		}
	}
	rounds := r.Pick(6000, 20000)
	if c.Thorough() {
		rounds = r.Pick(20000, 60000)
	}
	for i := 0; i < rounds; i++ {
		use[r.Intn(len(use))]()
		if i%512 == 511 {
			fw.Progress()
		}
		if i == rounds/8 {
			mt.warm()
		}
	}
	must1(g.Solve(), "Solve")
	for v := 1; v <= n; v++ { // a model of the clauses in force; no others are there
		g.Value(z.Var(v).Pos())
	}
	var b bytes.Buffer
	if e := g.Write(&b); e != nil {
		c.Failf("Write: %v", e)
	}
	f, _, _, e := parseDimacs(b.String())
	if e != nil {
		c.Failf("Write: %v", e)
	}
	b = bytes.Buffer{}
	for _, cl := range f {
		for _, l := range cl {
			if abs(l) > base {
				c.Failf("clause %v depends on a guard, and all guards were deactivated", cl)
			}
		}
	}
	f = nil
	mt.done(rounds)
	runtime.KeepAlive(g)
	c.Obs(fw.HashInts(uint64(n), nc, rounds, maxAct, len(use)))
}

// longAx: an exchange which answers many requests.
func longAx(c *fw.C) {
	r := c.R
	n := r.Range(4, 30)
	base := runtime.NumGoroutine()
	mt := newMeter(c, "exchange")
	s := gini.New()
	for _, cl := range randK(r, n, n*r.Range(20, 40)/10, 3) {
		addClause(s, cl)
	}
	cap := r.Range(1, 4)
	x := ax.NewT(s, cap)
	defer func() {
		x.Stop()
	}()
	rounds := r.Pick(2000, 4000)
	if c.Thorough() {
		rounds *= 4
	}
	var gen ax.RequestGen
	got := 0
	for i := 0; i < rounds; i++ {
		gen.SetFlag([]ax.ReqFlag{0, ax.ReqModel, ax.ReqWhy, ax.ReqModel | ax.ReqWhy}[r.Intn(4)])
		gen.Limit(time.Duration(r.Pick(0, 0, 1)) * time.Hour)
		var ms []z.Lit
		for j := r.Intn(5); j > 0; j-- {
			ms = append(ms, z.Dimacs2Lit(rlit(r, n)))
		}
		q := gen.New(ms...)
		for x.Ex(q) != nil {
			got++
		}
		if i%512 == 511 {
			fw.Progress()
		}
		if i == rounds/8 {
			mt.warm()
		}
	}
	for got < rounds {
		x.Ex(nil)
		got++
	}
	c.Count("requests", rounds)
	// the exchange, its solvers, and nothing for requests answered
	settle(base + 1 + cap)
	mt.done(rounds)
	x.Stop()
	settle(base)
	runtime.KeepAlive(s)
	c.Obs(fw.HashInts(uint64(n), cap, rounds))
}

// longServer: one server, and many sessions which end in all ways.
func longServer(c *fw.C) {
	r := c.R
	base := runtime.NumGoroutine()
	// a server at work, which did nothing else
	w := startCrisp(c)
	most := w.quiet(c, 1<<30)
	w.stop()
	fds := fdsNow()
	mt := newMeter(c, "server")
	mt.slack = 128 << 10
	mt.wait = 1000
	v := startCrisp(c)
	defer v.stop()
	rounds := r.Pick(200, 400)
	if c.Thorough() {
		rounds *= 4
	}
	hist := uint64(rounds)
	// nothing the collector does may close what was left open
	gc := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(gc)
	for i := 0; i < rounds; i++ {
		k := r.Intn(6)
		hist = fw.HashInts(hist, k)
		switch k {
		case 0: // connects only
			v.raw().Close()
		case 1: // says something which is not the protocol
			conn := v.raw()
			b := make([]byte, r.Range(1, 40))
			r.Read(b)
			conn.Write(b)
			conn.Close()
		default:
			cl := v.dial()
			n := r.Range(1, 30)
			for _, fc := range randK(r, n+3, 3*n, 3) {
				for _, l := range fc {
					cl.Add(z.Dimacs2Lit(l))
				}
				cl.Add(0)
			}
			switch r.Intn(4) {
			case 0:
				if _, e := cl.Solve(); e != nil {
					c.Failf("Solve: %v", e)
				}
				cl.Quit()
				cl.Close()
			case 1:
				cl.Close()
			case 2: // leaves while a solve is under way
				for _, fc := range php(9, 8) {
					for _, l := range fc {
						cl.Add(z.Dimacs2Lit(l))
					}
					cl.Add(0)
				}
				s := cl.GoSolve()
				time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				cl.Close()
				for done := false; !done; { // an error or a result
					_, done, _ = s.Test()
					runtime.Gosched()
				}
			case 3:
				cl.Quit()
				cl.Close()
			}
		}
		c.Count("sessions", 1)
		if i == rounds/4 {
			if n := v.quiet(c, most); n > most {
				c.Failf("%d file descriptors are open after %d sessions, %d were for a new server", n, i, most)
			}
			mt.warm()
		}
	}
	n := v.quiet(c, most)
	if n > most {
		c.Failf("%d file descriptors are open after %d sessions, %d were for a new server", n, rounds, most)
	}
	mt.done(rounds)
	v.stop()
	settle(base)
	if n := fdsNow(); n > fds {
		c.Failf("%d file descriptors are open after the server ended, %d were before it began", n, fds)
	}
	c.Obs(hist)
}

// quiet answers how many file descriptors are open while a few sessions are,
// once there are no more than most, or a long time went by.
func (v *crispSrv) quiet(c *fw.C, most int) int {
	var cls []*crisp.Client
	for i := 0; i < 2 && i < runtime.NumCPU(); i++ {
		cl := v.dial()
		if _, e := cl.Solve(); e != nil {
			c.Failf("Solve: %v", e)
		}
		cls = append(cls, cl)
	}
	n := fdsNow()
	for i := 0; i < 4000 && n > most; i++ {
		time.Sleep(5 * time.Millisecond)
		n = fdsNow()
	}
	for _, cl := range cls {
		cl.Close()
	}
	return n
}

// longCircuit: gates asked for again, clauses written again, unrollings asked
// for again.
func longCircuit(c *fw.C) {
	r := c.R
	mt := newMeter(c, "circuit")
	mt.slack = 64 << 10
	s := logic.NewS()
	var ms []z.Lit
	for i := r.Range(2, 8); i > 0; i-- {
		ms = append(ms, s.Lit())
	}
	for i := r.Range(0, 4); i > 0; i-- {
		ms = append(ms, s.Latch(s.F))
	}
	lit := func() z.Lit {
		m := ms[r.Intn(len(ms))]
		if r.Bool() {
			return m.Not()
		}
		return m
	}
	type gate struct {
		k       int
		a, b, d z.Lit
	}
	mk := func(q gate) z.Lit {
		switch q.k {
		case 0:
			return s.And(q.a, q.b)
		case 1:
			return s.Or(q.a, q.b)
		case 2:
			return s.Xor(q.a, q.b)
		case 3:
			return s.Choice(q.a, q.b, q.d)
		case 4:
			return s.Implies(q.a, q.b)
		}
		return s.Ands(q.a, q.b, q.d)
	}
	var gs []gate
	for i := r.Range(5, 60); i > 0; i-- {
		q := gate{r.Intn(6), lit(), lit(), lit()}
		gs = append(gs, q)
		ms = append(ms, mk(q))
	}
	for _, m := range s.Latches {
		s.SetNext(m, lit())
	}
	u := logic.NewRoll(s)
	depth := r.Range(1, 6)
	for _, m := range ms {
		u.At(m, depth)
	}
	// in order of time, all of it is there now
	for d := 0; d <= depth; d++ {
		for _, m := range ms {
			u.At(m, d)
		}
	}
	nodes, unodes := s.Len(), u.C.Len()
	g := gini.New()
	mark, _ := s.CnfSince(g, nil, ms...)
	rounds := 20000
	if c.Thorough() {
		rounds = 100000
	}
	for i := 0; i < rounds; i++ {
		switch r.Intn(3) {
		case 0:
			mk(gs[r.Intn(len(gs))])
		case 1:
			u.At(ms[r.Intn(len(ms))], r.Intn(depth+1))
		case 2:
			k := 0
			mark, k = s.CnfSince(g, mark, ms[r.Intn(len(ms))])
			if k != 0 {
				c.Failf("CnfSince wrote %d gates it had written before", k)
			}
		}
		if i == rounds/8 {
			mt.warm()
		}
		if i%512 == 511 {
			fw.Progress()
		}
	}
	if s.Len() != nodes {
		c.Failf("%d nodes, and %d after the same gates were asked for again", nodes, s.Len())
	}
	if u.C.Len() != unodes {
		c.Failf("%d unrolled nodes, and %d after the same were asked for again", unodes, u.C.Len())
	}
	mt.done(rounds)
	runtime.KeepAlive(g)
	c.Count("repeated", rounds)
	c.Obs(fw.HashInts(uint64(nodes), unodes, len(gs)))
}

// longChain: a chain of copies, each of the last, which is dropped.
func longChain(c *fw.C) {
	r := c.R
	mt := newMeter(c, "copies")
	mt.slack = 64 << 10
	n := r.Range(5, 30)
	var s inter.S = newGini(r)
	if r.P(1, 3) {
		s = gini.NewSv()
	}
	f := planted(r, n, n*r.Range(10, 40)/10, 3)
	for _, cl := range f {
		addClause(s, cl)
	}
	rounds := 2000
	if c.Thorough() {
		rounds = 8000
	}
	for i := 0; i < rounds; i++ {
		s = s.SCopy()
		if g, ok := s.(*gini.Gini); ok && r.P(1, 4) {
			// what agrees with the plant, so that no guard is fixed
			var as []z.Lit
			for j := r.Range(1, 4); j > 0; j-- {
				for _, l := range f[r.Intn(len(f))] {
					g.Add(z.Dimacs2Lit(l))
				}
				as = append(as, g.Activate())
			}
			if r.Bool() {
				g = g.Copy()
				s = g
			}
			g.Assume(as...)
			if g.Solve() != 1 {
				c.Failf("a copy has no model under its guards")
			}
			for _, a := range as {
				g.Deactivate(a)
			}
		}
		if r.P(1, 4) {
			s.Assume(z.Dimacs2Lit(rlit(r, n)))
			if r.Bool() {
				s.Test(nil)
				s = s.SCopy()
				s.Untest()
			}
			s.Solve()
		}
		if i == rounds/8 {
			mt.warm()
		}
		if i%512 == 511 {
			fw.Progress()
		}
	}
	if s.Solve() != 1 {
		c.Failf("the last copy has no model")
	}
	mt.done(rounds)
	runtime.KeepAlive(s)
	c.Count("copies", rounds)
	c.Obs(fw.HashInts(uint64(n), rounds))
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C21",
		Rule: "a case is one long session (guards, assumptions, scopes, solves in the background, copies, writes; an exchange; a server and its peers; gates, clauses and unrollings asked for again; chains of copies); " +
			"variables, clauses, goroutines and file descriptors are counted and the memory reachable is measured after an eighth of the rounds and at the end; distinct by sizes and rounds",
		Need: []string{"measured", "activations", "scopes", "solves", "background", "copies", "requests", "sessions", "repeated"},
		Workloads: []fw.Workload{
			{Name: "session", Quick: 120, Thorough: 1200, Fn: longSession},
			{Name: "ax", Quick: 24, Thorough: 200, Fn: longAx},
			{Name: "server", Quick: 60, Thorough: 1000, Fn: longServer},
			{Name: "circuit", Quick: 48, Thorough: 400, Fn: longCircuit},
			{Name: "copies", Quick: 24, Thorough: 200, Fn: longChain},
		},
	})
}
