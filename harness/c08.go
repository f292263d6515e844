package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"verif/harness/fw"
)

// forked runs f next to the caller; join waits and passes on what f panicked
// with.
func forked(f func()) (join func()) {
	ch := make(chan interface{}, 1)
	go func() {
		defer func() {
			e := recover()
			if e != nil && !fw.IsFail(e) {
				e = fmt.Sprintf("%v\n%s", e, debug.Stack())
			}
			ch <- e
		}()
		f()
	}()
	return func() {
		if e := <-ch; e != nil {
			panic(e)
		}
	}
}

func dally(r *fw.Rand) {
	switch r.Intn(4) {
	case 0:
	case 1:
		for i := r.Intn(200); i > 0; i-- {
			runtime.Gosched()
		}
	default:
		time.Sleep(time.Duration(r.Pick(1, 20, 200, 1000, 3000)) * time.Microsecond)
	}
}

// asolve solves asynchronously or for a limited time; 0 is a right answer
// only where the caller asked to give up. extra are clauses which the session
// does not know.
func (s *session) asolve(extra cnf, during func(inter.Solve)) int {
	r := s.r
	as := append(s.inForce(), s.pend...)
	g := s.g.(inter.GoSolvable)
	s.pend = nil
	done, mayStop := false, false
	res := 0
	how := ""
	if r.P(1, 5) {
		d := time.Duration(r.Pick(1, 50, 300, 1000, 4000)) * time.Microsecond
		res = s.g.Try(d)
		mayStop = true
		how = fmt.Sprintf("Try %s", d)
	} else {
		h := g.GoSolve()
		how = "GoSolve"
		for k := r.Pick(0, 0, 1, 2, 5); k > 0 && !done; k-- {
			switch r.Intn(3) {
			case 0:
				dally(r)
			case 1:
				res, done = h.Test()
				how += " Test"
				if !done && res != 0 {
					s.c.Failf("%s: Test of a running solve gives %d, false", s.name, res)
				}
				s.c.Count("polls", 1)
			case 2:
				var ok bool
				res, ok = h.Pause()
				how += " Pause"
				if !ok {
					done = true
					break
				}
				if res != 0 {
					s.c.Failf("%s: a successful Pause gives the result %d", s.name, res)
				}
				s.c.Count("pauses", 1)
				dally(r)
				if during != nil {
					during(h)
				}
				h.Unpause()
				how += " Unpause"
			}
		}
		if !done {
			switch r.Intn(5) {
			case 0, 1:
				dally(r)
				res = h.Stop()
				mayStop = true
				how += " Stop"
			case 2:
				d := time.Duration(r.Pick(-1, 0, 1, 100, 1000, 10000)) * time.Microsecond
				res = h.Try(d)
				mayStop = true
				how += fmt.Sprintf(" Try %s", d)
			case 3:
				for !done {
					res, done = h.Test()
					runtime.Gosched()
				}
				how += " Test..."
			default:
				res = h.Wait()
				how += " Wait"
			}
		}
	}
	s.logf("%s under %v -> %d", how, as, res)
	s.last = res
	s.fresh = res != 0
	s.solvedIn = len(s.scope) > 0
	if res == 0 {
		if !mayStop {
			s.c.Failf("%s: %s gives 0, but nobody stopped it", s.name, how)
		}
		s.c.Count("cancelled", 1)
		return 0
	}
	s.c.Count("answered", 1)
	s.judge(res, as, how)
	if res == 1 {
		checkModel(s.c, s.g, extra, nil, s.name+": "+how)
	} else {
		s.why(as, how)
		if len(s.scope) > 0 {
			s.dead, s.deadBySolve = true, true
		}
	}
	return res
}

// amplify gives each of the variables 1..n a chain of k equivalent ones, so
// that propagation, and with it the solver's clock, runs fast.
func amplify(r *fw.Rand, n, k int) (f cnf) {
	nv := n + r.Intn(3)
	for v := 1; v <= n; v++ {
		p := v
		for i := 0; i < k; i++ {
			nv++
			q := nv
			if r.P(1, 3) {
				q = -q
			}
			f = append(f, []int{-p, q}, []int{p, -q})
			p = q
		}
	}
	return
}

func asyncCase(c *fw.C) {
	r := c.R
	g := newGini(r)
	s := newSession(c, g, "g")
	n := r.Range(3, 14)
	ratio := 30 + r.Intn(16)
	var amp cnf
	switch c.W {
	case "running":
		n = r.Range(30, 70)
		amp = amplify(r, n, r.Pick(50, 200, 400))
		for _, cl := range amp {
			addClause(g, cl)
		}
	case "scopes", "mid":
		n = r.Range(90, 150)
		ratio = 36 + r.Intn(8)
	}
	f := randK(r, n, n*ratio/10, 3)
	for _, cl := range f {
		s.add(cl)
	}
	var joins []func()
	defer func() { // also when this side fails
		for _, j := range joins {
			j()
		}
	}()
	var during func(inter.Solve)
	copies := 0
	side := func(t *session) {
		c.Count("copies", 1)
		copies++
		t.r = r.Fork()
		joins = append(joins, forked(func() {
			for i := 0; i < 2; i++ {
				for k := t.r.Intn(4); k > 0; k-- {
					t.assume(rlit(t.r, n))
				}
				if t.r.Bool() && len(t.scope) == 0 {
					t.pendDrop()
					t.add(rclause(t.r, n, 3))
				}
				t.asolve(amp, nil)
			}
		}))
	}
	during = func(inter.Solve) {
		if copies < 2 && r.P(1, 2) {
			d := g.Copy()
			t := s.fork(d, fmt.Sprintf("copy%d", copies))
			t.solvedIn = len(t.scope) > 0
			side(t)
			c.Count("copies_while_paused", 1)
		}
	}
	steps := r.Range(3, 10)
	for i := 0; i < steps; i++ {
		if s.dead {
			s.untest()
			continue
		}
		for k := r.Pick(0, 0, 1, 2, 4); k > 0; k-- {
			s.assume(rlit(r, n))
		}
		switch k := r.Intn(12); {
		case k == 0 && len(s.scope) == 0:
			s.pendDrop()
			s.add(rclause(r, n, r.Pick(2, 3, 3)))
		case k == 1 && len(s.scope) == 0:
			s.pendDrop()
			cl := rclause(r, n, 3)
			if !s.activable(cl) {
				break
			}
			m := s.activate(cl)
			if r.P(2, 3) {
				s.assume(m)
			}
			s.asolve(amp, during)
			s.deactivate(m)
		case k == 2 && c.W != "running" && len(s.scope) < 4:
			s.test()
		case k == 3 && len(s.scope) > 0:
			s.pendDrop()
			if !s.dead {
				s.untest()
			}
		case k == 4 && copies < 2:
			s.pendDrop()
			if !s.dead {
				side(s.fork(g.Copy(), fmt.Sprintf("copy%d", copies)))
			}
		case k == 5:
			s.solve(0)
			if s.last == 1 {
				checkModel(c, g, amp, nil, "Solve")
			}
		default:
			if s.asolve(amp, during) == 0 && amp == nil && len(s.scope) == 0 && r.Bool() {
				writeCheck(s, g)
			}
		}
	}
	for len(s.scope) > 0 {
		if !s.dead {
			s.pendDrop()
		}
		s.untest()
	}
	s.solve(0)
	if s.last == 1 {
		checkModel(c, g, amp, nil, "Solve")
	}
	c.Obs(s.cls.hash())
}

var _ = gini.New

func init() {
	fw.Register(&fw.Prop{
		ID:   "C08",
		Race: true,
		Rule: "histories in which solves run in the background (polled, paused and resumed, stopped, tried, waited for, with random delays) or for a limited time, on solvers small enough to answer at once and big enough to be interrupted, with copies taken while paused and used at the same time; " +
			"answers are judged as for synchronous solves, 0 only where the caller gave up, under the race detector; distinct by the clauses",
		Need: []string{"hopeless_given_up", "cancelled", "answered", "pauses", "copies_while_paused", "polls"},
		Workloads: []fw.Workload{
			{Name: "small", Quick: 3000, Thorough: 200000, Fn: asyncCase},
			{Name: "running", Quick: 400, Thorough: 10000, Fn: asyncCase},
			{Name: "hopeless", Quick: 60, Thorough: 4000, Fn: hopelessLocal, Limit: 40 * time.Second},
			{Name: "mid", Quick: 100, Thorough: 4000, Fn: asyncCase},
			{Name: "xor", Quick: 60, Thorough: 3000, Fn: xorAsync},
			{Name: "scopes", Quick: 100, Thorough: 4000, Fn: asyncCase},
		},
	})
}
