package main

import (
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
	"verif/harness/ref"
)

// A hopeless solve does not end by itself: only stopping it or the end of its
// time ends it. Where neither does, the case makes no progress.

// hopSolver is what hopelessCase needs of a solver, here or far away.
type hopSolver struct {
	add    func(m z.Lit)
	assume func(ms ...z.Lit)
	solve  func() int
	try    func(d time.Duration) int // may be nil
	start  func() hopSolve
	value  func(m z.Lit) bool
	why    func() []z.Lit
	test   func() int // may be nil
	untest func()
}

type hopSolve struct {
	test  func() (int, bool)
	stop  func() int
	try   func(d time.Duration) int
	pause func() (int, bool) // may be nil
	cont  func()
}

// guardedPhp gives the clauses of a pigeon hole problem which no solver here
// solves, each with the negation of the guard; the variables follow the guard.
func guardedPhp(guard int) (f cnf) {
	for _, cl := range php(13, 12) {
		d := []int{-guard}
		for _, m := range cl {
			if m > 0 {
				m += guard
			} else {
				m -= guard
			}
			d = append(d, m)
		}
		f = append(f, d)
	}
	return
}

var hopLimits = []time.Duration{1, 10, 1000, 10000, 100000, 400000, 900000, 1500000, 3000000, 30000000, 300000000}

// hopeless returns the guard of what is hopeless.
func hopeless(c *fw.C, r *fw.Rand, s *hopSolver) int {
	n := r.Range(2, 8)
	f := randK(r, n, 3*n, 3)
	guard := n + 1
	for _, cl := range append(append(cnf{}, f...), guardedPhp(guard)...) {
		for _, m := range cl {
			s.add(z.Dimacs2Lit(m))
		}
		s.add(z.LitNull)
	}
	c.Logf("%d variables, guard %d, clauses %s", n, guard, f)
	amount := append(append(cnf{}, f...), []int{-guard}) // what it amounts to
	for k := r.Range(3, 9); k > 0; k-- {
		var as []int
		for i := r.Pick(0, 0, 1, 2); i > 0; i-- {
			as = append(as, rlit(r, n))
		}
		hard := r.P(2, 3)
		g := -guard
		if hard {
			g = guard
		}
		as = append(as, g)
		s.assume(lits(as)...)
		scope := false
		known := 0
		if s.test != nil && r.P(1, 4) {
			scope = true
			known = s.test()
		}
		res, given := 0, false
		how := ""
		d := hopLimits[r.Intn(len(hopLimits))]
		if r.P(1, 40) {
			d = 1500 * time.Millisecond
		}
		switch {
		case scope && known != 0:
			how, res = "Test", known
		case !hard && r.Bool():
			how, res = "Solve", s.solve()
		case s.try != nil && r.P(1, 3):
			how = "Try " + d.String()
			res, given = s.try(d), true
		default:
			h := s.start()
			how = "GoSolve"
			done := false
			for i := r.Pick(0, 0, 1, 3); i > 0 && !done; i-- {
				dally(r)
				if h.pause != nil && r.Bool() {
					var ok bool
					if res, ok = h.pause(); !ok {
						done = true
						break
					}
					dally(r)
					h.cont()
				} else {
					res, done = h.test()
				}
			}
			if !done {
				given = true
				if r.Bool() {
					how += " Stop"
					res = h.stop()
				} else {
					how += " Try " + d.String()
					res = h.try(d)
				}
			}
		}
		c.Logf("%s under %v -> %d (scope %v)", how, as, res, scope)
		if res == 0 && !given {
			c.Failf("%s under %v gives 0, but nobody gave up", how, as)
		}
		if res == 0 && hard {
			c.Count("hopeless_given_up", 1)
		}
		sat := ref.Solve(amount, as).Sat
		if hard && res == 1 || !hard && res != 0 && (res == 1) != sat {
			c.Failf("%s under %v gives %d, satisfiable: %v", how, as, res, sat && !hard)
		}
		switch {
		case res == 1:
			for _, cl := range append(append(cnf{}, amount...), units(as)...) {
				ok := false
				for _, m := range cl {
					ok = ok || s.value(z.Dimacs2Lit(m))
				}
				if !ok {
					c.Failf("%s: the model makes %v false", how, cl)
				}
			}
		case res == -1:
			core := ints(s.why())
			for _, m := range core {
				if !has(as, m) {
					c.Failf("%s: %d failed, but assumed was %v", how, m, as)
				}
			}
			if !has(core, guard) && ref.Solve(amount, core).Sat {
				c.Failf("%s: the failed literals %v are satisfiable", how, core)
			}
		}
		if scope {
			s.untest()
		}
	}
	c.Obs(f.hash())
	return guard
}

func units(ms []int) (f cnf) {
	for _, m := range ms {
		f = append(f, []int{m})
	}
	return
}

func hopelessLocal(c *fw.C) {
	r := c.R
	var g inter.S
	switch r.Intn(4) {
	case 0:
		g = gini.NewS()
	case 1:
		g = gini.NewSv()
	default:
		g = gini.New()
	}
	guard := hopeless(c, r, &hopSolver{
		add:    g.Add,
		assume: func(ms ...z.Lit) { g.Assume(ms...) },
		solve:  g.Solve,
		try:    g.Try,
		start: func() hopSolve {
			h := g.GoSolve()
			return hopSolve{h.Test, h.Stop, h.Try, h.Pause, h.Unpause}
		},
		value:  g.Value,
		why:    func() []z.Lit { return g.Why(nil) },
		test:   func() int { res, _ := g.Test(nil); return res },
		untest: func() { g.Untest() },
	})
	if r.P(1, 6) { // a long break
		g.Assume(z.Dimacs2Lit(guard))
		h := g.GoSolve()
		if res, ok := h.Pause(); ok {
			time.Sleep(time.Duration(r.Range(100, 3000)) * time.Millisecond)
			c.Count("long_breaks", 1)
			h.Unpause()
			if res := h.Stop(); res == 1 {
				c.Failf("a hopeless solve gives 1 after a break")
			}
		} else if res == 0 {
			c.Failf("Pause gives 0, false, but nobody gave up")
		}
	}
}

func hopelessCrisp(c *fw.C) {
	v := startCrisp(c)
	defer v.stop()
	cl := v.dial()
	defer cl.Close()
	w := &cliS{c: c, r: c.R, cl: cl}
	guard := hopeless(c, c.R, &hopSolver{
		add:    w.Add,
		assume: w.Assume,
		solve:  w.Solve,
		start: func() hopSolve {
			h := cl.GoSolve()
			note := func(res int, e error) int {
				w.must(e, "background solve")
				w.last = res
				return res
			}
			return hopSolve{
				test: func() (int, bool) { res, ok, e := h.Test(); return note(res, e), ok },
				stop: func() int { return note(h.Stop()) },
				try:  func(d time.Duration) int { return note(h.Try(d)) },
			}
		},
		value: w.Value,
		why:   func() []z.Lit { return w.Why(nil) },
	})
	if c.R.P(1, 3) { // gone while a solve is under way
		w.Assume(z.Dimacs2Lit(guard))
		h := cl.GoSolve()
		dally(c.R)
		cl.Close()
		if res, e := h.Stop(); e == nil && res == 1 {
			c.Failf("a hopeless solve gives %d after Close", res)
		}
	}
}

func has(ms []int, m int) bool {
	for _, x := range ms {
		if x == m {
			return true
		}
	}
	return false
}
