package main

import (
	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"verif/harness/fw"
)

func newGini(r *fw.Rand) *gini.Gini {
	switch r.Intn(3) {
	case 0:
		return gini.NewV(r.Pick(1, 2, 3, 4, 8, 30))
	case 1:
		return gini.NewVc(r.Pick(1, 3, 6), r.Pick(1, 4, 9))
	}
	return gini.New()
}

func how(r *fw.Rand) int { return r.Pick(0, 0, 0, 0, 0, 0, 0, 0, 1, 2) }

// incr: a history of adds, assumptions and solves.
func incr(c *fw.C, n, steps, ratio int) *session {
	return incrOn(newSession(c, newGini(c.R), "g"), n, steps, ratio)
}

func incrOn(s *session, n, steps, ratio int) *session {
	c := s.c
	r := c.R
	sz := r.Pick(2, 3, 3)
	for i := 0; i < steps; i++ {
		switch k := r.Intn(10); {
		case k < 4:
			m := r.Range(1, ratio)
			for j := 0; j < m; j++ {
				if r.P(1, 12) {
					s.add(messyClause(r, n))
				} else if r.P(1, 40) && s.n > 0 {
					// grow: a variable far away
					v := s.n + r.Pick(1, 1, 2, 60, 130, 300)
					if r.Bool() {
						v = -v
					}
					cl := append(rclause(r, n, 2), v)
					s.add(cl)
				} else {
					s.add(rclause(r, n, sz+r.Intn(2)))
				}
			}
		case k < 7:
			for j := r.Range(1, 5); j > 0; j-- {
				if len(s.pend) > 0 && r.P(1, 12) {
					p := s.pend[r.Intn(len(s.pend))]
					if r.Bool() {
						p = -p
					}
					s.assume(p)
					continue
				}
				s.assume(rlit(r, n))
			}
		default:
			s.solve(how(r))
		}
	}
	s.solve(0)
	return s
}

// bigIncr: one hard-ish formula, many solves under cubes, growing.
func bigIncr(c *fw.C, n, solves int) {
	r := c.R
	g := newGini(r)
	s := newSession(c, g, "g")
	f := randK(r, n, n*r.Range(36, 41)/10, 3)
	if r.P(1, 4) {
		k := r.Range(3, 5)
		f = coloring(r, n/k, n*r.Range(5, 11)/10, k)
	}
	mv := maxvar(f)
	cut := len(f) * r.Range(5, 10) / 10
	for _, cl := range f[:cut] {
		s.add(cl)
	}
	rest := f[cut:]
	for i := 0; i < solves; i++ {
		for k := r.Intn(9); k > 0 && len(rest) > 0; k-- {
			s.add(rest[0])
			rest = rest[1:]
		}
		for k := r.Pick(0, 1, 2, 3, 5, 8, 12); k > 0; k-- {
			s.assume(rlit(r, mv))
		}
		if s.solve(how(r)) == -1 && r.P(1, 3) {
			// solve again at once, with the assumptions gone
			s.solve(0)
		}
	}
}

func obsSession(c *fw.C, s *session) {
	if s.last != 0 && len(s.cls) > 1 {
		c.Obs(s.cls.hash())
	}
}

// scopes: histories with Test and Untest.
func scopes(c *fw.C, n, steps int) {
	scopesOn(newSession(c, newGini(c.R), "g"), n, steps)
}

func scopesOn(s *session, n, steps int) {
	c := s.c
	r := c.R
	base := r.Range(n, 4*n)
	for j := 0; j < base; j++ {
		if r.P(1, 15) {
			s.add(messyClause(r, n))
		} else {
			s.add(rclause(r, n, r.Pick(2, 3, 3, 4)))
		}
	}
	for i := 0; i < steps; i++ {
		if s.dead {
			if s.deadBySolve && r.P(1, 3) {
				for j := r.Intn(3); j > 0; j-- {
					s.assume(rlit(r, n))
				}
				s.solve(0)
				continue
			}
			s.untest()
			continue
		}
		switch r.Intn(9) {
		case 0:
			if len(s.scope) == 0 {
				s.pendDrop()
				for k := r.Intn(3); k >= 0; k-- {
					s.add(rclause(r, n, r.Pick(1, 2, 3, 3)))
				}
			}
		case 1, 2, 3:
			for j := r.Range(1, 3); j > 0; j-- {
				s.assume(rlit(r, n))
			}
		case 4, 5:
			if len(s.scope) < 6 {
				s.test()
			}
		case 6:
			s.solve(how(r))
		case 7:
			if len(s.scope) > 0 {
				s.pendDrop()
				s.untest()
			}
		case 8:
			if len(s.scope) > 0 && s.last != 1 {
				s.reasons()
			}
		}
	}
	s.pendDrop()
	for len(s.scope) > 0 {
		s.untest()
	}
	s.solve(0)
	obsSession(c, s)
}

// pendDrop consumes untested assumptions by a solve, as the API does.
func (s *session) pendDrop() {
	if len(s.pend) > 0 && !s.dead {
		s.solve(0)
	}
	s.pend = nil
}

var _ = inter.S(nil)

func init() {
	fw.Register(&fw.Prop{
		ID:   "C02",
		Rule: "a case is a history of Add (messy clauses, far away variables), Assume and Solve (Solve, Try or GoSolve) on a fresh solver; every answer is compared with the reference solver on the shadow clauses and assumptions, every model evaluated; non-trivial: at least two clauses and an answer; distinct by the clauses",
		Need: []string{"sat", "unsat"},
		Workloads: []fw.Workload{
			{Name: "small", Quick: 60000, Thorough: 1000000, Fn: func(c *fw.C) {
				n := c.R.Range(1, 12)
				s := incr(c, n, c.R.Range(4, 30), c.R.Pick(2, 4, n+1))
				obsSession(c, s)
			}},
			{Name: "long", Quick: 2000, Thorough: 30000, Fn: longPlain},
			{Name: "xor", Quick: 600, Thorough: 3000, Fn: xorPlain},
			{Name: "wide", Quick: 12, Thorough: 300, Fn: wideSolves},
			{Name: "cubes", Quick: 600, Thorough: 6000, Fn: func(c *fw.C) {
				bigIncr(c, c.R.Range(40, 110), c.R.Range(10, 60))
			}},
		},
	})
	fw.Register(&fw.Prop{
		ID:   "C04",
		Rule: "a case is a history of Add, Assume, Test, Untest, Reasons, Why and Solve with up to 6 nested scopes; every result is judged against the shadow scope stack by independent unit propagation and the reference solver; non-trivial: at least two clauses and an answer; distinct by the clauses",
		Need: []string{"sat", "unsat"},
		Workloads: []fw.Workload{
			{Name: "small", Quick: 90000, Thorough: 1000000, Fn: func(c *fw.C) {
				scopes(c, c.R.Range(2, 14), c.R.Range(5, 40))
			}},
			{Name: "xor", Quick: 900, Thorough: 3000, Fn: xorPlain},
			{Name: "deep", Quick: 300, Thorough: 10000, Fn: deepScopes},
			{Name: "mid", Quick: 3000, Thorough: 20000, Fn: func(c *fw.C) {
				scopes(c, c.R.Range(20, 50), c.R.Range(10, 60))
			}},
		},
	})
}
