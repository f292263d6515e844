package main

import (
	"fmt"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"verif/harness/fw"
)

// mixStep performs one random operation of any kind on s. Everything it
// chooses comes from s.r and s's own state.
func mixStep(s *session, n int) {
	r := s.r
	if s.dead {
		s.untest()
		return
	}
	k := r.Intn(20)
	if len(s.scope) == 0 && k < 8 {
		if len(s.pend) > 0 {
			s.solve(0)
			return
		}
		al := s.actList()
		switch {
		case k < 3:
			for j := r.Range(1, 4); j > 0; j-- {
				if r.P(1, 12) {
					s.add(messyClause(r, n))
				} else {
					s.add(rclause(r, n, r.Pick(2, 3, 3, 3, 4)))
				}
			}
		case k < 5:
			for j := r.Range(1, 3); j > 0; j-- {
				cl := rclause(r, n, r.Pick(1, 2, 3))
				if s.activable(cl) {
					s.activate(cl)
				}
			}
		case k < 6:
			m := 0
			if len(al) > 0 && r.Bool() {
				m = al[r.Intn(len(al))]
			} else {
				m = s.actLit()
			}
			for j := r.Range(1, 3); j > 0; j-- {
				cl := rclause(r, n, r.Pick(1, 2, 3))
				if s.activable(cl) {
					s.activateWith(m, cl)
				}
			}
		default:
			if len(al) > 0 {
				s.deactivate(al[r.Intn(len(al))])
			}
		}
		return
	}
	switch {
	case k < 13:
		for j := r.Range(1, 3); j > 0; j-- {
			s.assume(rlit(r, n))
		}
		for _, m := range s.actList() {
			if r.Bool() {
				s.assume(m)
			}
		}
	case k < 15 && len(s.scope) < 5:
		s.test()
	case k < 16 && len(s.scope) > 0 && len(s.pend) == 0:
		s.untest()
	default:
		s.solve(how(r))
	}
}

func mixSession(c *fw.C, n, base int) *session {
	g := newGini(c.R)
	s := newSession(c, g, "g")
	for i := 0; i < n; i++ {
		g.Lit()
	}
	s.n, s.maxN = n, n
	for ; base > 0; base-- {
		s.add(rclause(c.R, n, c.R.Pick(2, 3, 3, 3)))
	}
	return s
}

// model is every value, as a string of signs.
func model(g inter.Model, n int) string {
	b := make([]byte, 0, n)
	for i := 1; i <= n; i++ {
		p, q := g.Value(lit(i)), g.Value(lit(-i))
		switch {
		case p && !q:
			b = append(b, '+')
		case q && !p:
			b = append(b, '-')
		default:
			b = append(b, '?')
		}
	}
	return string(b)
}

func copyOf(r *fw.Rand, s *session) *gini.Gini {
	g := s.g.(*gini.Gini)
	if r.Bool() {
		return g.SCopy().(*gini.Gini)
	}
	return g.Copy()
}

func init() {
	fw.Register(&fw.Prop{
		ID:   "C06",
		Rule: "independent: a history forks into up to several copies, whose own histories interleave, each with its own shadow; lockstep: copy and original get the same calls and must agree in every result, while a third copy is perturbed; non-trivial: at least two clauses and an answer; distinct by the clauses",
		Need: []string{"sat", "unsat", "copies", "copies_in_clause"},
		Workloads: []fw.Workload{
			{Name: "independent", Quick: 8000, Thorough: 200000, Fn: func(c *fw.C) {
				n := c.R.Range(2, 14)
				ss := []*session{mixSession(c, n, c.R.Intn(4*n))}
				for i := c.R.Range(10, 60); i > 0; i-- {
					k := c.R.Intn(len(ss))
					s := ss[k]
					if c.R.P(1, 8) && len(ss) < 5 {
						name := fmt.Sprintf("copy%d", len(ss))
						if len(s.scope) == 0 && len(s.pend) == 0 && c.R.P(1, 4) {
							t := s.forkInClause(n, name)
							t.r = c.R.Fork()
							ss = append(ss, t)
							continue
						}
						t := s.fork(copyOf(c.R, s), name)
						t.r = c.R.Fork()
						t.agrees(s)
						t.agrees(s)
						c.Logf("%s = copy of %s", t.name, s.name)
						c.Count("copies", 1)
						ss = append(ss, t)
						continue
					}
					mixStep(s, n)
				}
				for _, s := range ss {
					obsSession(c, s)
				}
			}},
			{Name: "lockstep", Quick: 8000, Thorough: 200000, Fn: func(c *fw.C) {
				n := c.R.Range(2, 30)
				lockstep(c, mixSession(c, n, c.R.Range(n, 4*n)), n, c.R.Range(0, 30), c.R.Range(5, 30))
			}},
			{Name: "long", Quick: 200, Thorough: 6000, Fn: longCopies},
			{Name: "deep", Quick: 300, Thorough: 10000, Fn: deepScopes},
			{Name: "xor", Quick: 250, Thorough: 1500, Fn: xorCopies},
			{Name: "xor-lockstep", Quick: 250, Thorough: 1500, Fn: xorLockstep},
			{Name: "lockstep-learn", Quick: 200, Thorough: 5000, Fn: func(c *fw.C) {
				n := c.R.Range(60, 140)
				lockstep(c, mixSession(c, n, n*4), n, c.R.Range(10, 40), c.R.Range(5, 30))
			}},
		},
	})
}

// forkInClause copies s amid a clause, which s and the copy end differently.
func (s *session) forkInClause(n int, name string) *session {
	c := s.c
	pre := messyClause(c.R, n)
	pre = pre[:c.R.Intn(len(pre)+1)]
	for _, l := range pre {
		s.g.Add(lit(l))
	}
	s.fresh = false
	c.Logf("%s is given %v of a clause, and copied as %s", s.name, pre, name)
	t := s.fork(copyOf(c.R, s), name)
	both := [2]*session{s, t}
	cls := [2][]int{append([]int{}, pre...), append([]int{}, pre...)}
	var rest [2][]int
	for i := range rest {
		rest[i] = rclause(c.R, n, c.R.Range(0, 3))
		if len(pre)+len(rest[i]) == 0 {
			rest[i] = []int{rlit(c.R, n)}
		}
	}
	for len(rest[0])+len(rest[1]) > 0 {
		i := c.R.Intn(2)
		if len(rest[i]) == 0 {
			continue
		}
		l := rest[i][0]
		rest[i] = rest[i][1:]
		both[i].g.Add(lit(l))
		cls[i] = append(cls[i], l)
	}
	for i, x := range both {
		x.g.Add(0)
		x.logf("add %v", cls[i])
		x.note(cls[i])
	}
	c.Count("copies", 1)
	c.Count("copies_in_clause", 1)
	return t
}

// lockstep drives a solver and its copy through the same calls, and wants the
// same in every answer.
func lockstep(c *fw.C, s *session, n, before, after int) {
	lockstepBy(c, s, n, before, after, func(s *session) { mixStep(s, n) })
}

func lockstepBy(c *fw.C, s *session, n, before, after int, step func(*session)) {
	for i := 0; i < before; i++ {
		step(s)
	}
	t := s.fork(copyOf(c.R, s), "copy")
	t.agrees(s)
	c.Count("copies", 1)
	c.Logf("copied")
	seed := c.R.Uint64()
	s.r, t.r = fw.NewRand(seed), fw.NewRand(seed)
	for i := 0; i < after; i++ {
		k := len(s.trace)
		step(s)
		step(t)
		a, b := s.trace, t.trace[len(t.trace)-(len(s.trace)-k):]
		for j := range b {
			if a[k+j] != b[j] {
				c.Failf("after the same calls the copy differs from the original: original %q, copy %q", a[k+j], b[j])
			}
		}
		if s.last == 1 && s.last == t.last {
			ma, mb := model(s.g, n), model(t.g, n)
			if ma != mb {
				c.Failf("after the same calls original and copy report different models %s and %s", ma, mb)
			}
			c.Count("same_model", 1)
		}
	}
	obsSession(c, s)
}

// agrees: a copy just taken has the variables of the original, and gives its
// model or core.
func (t *session) agrees(s *session) {
	c := t.c
	n, m := s.g.(inter.MaxVar).MaxVar(), t.g.(inter.MaxVar).MaxVar()
	if n != m {
		c.Failf("%s, a copy of %s, has %d variables instead of %d", t.name, s.name, m, n)
	}
	if !s.fresh {
		return
	}
	switch s.last {
	case 1:
		if a, b := model(s.g, int(n)), model(t.g, int(n)); a != b {
			c.Failf("%s, a copy of %s, has the model %s instead of %s", t.name, s.name, b, a)
		}
		c.Count("copied_models", 1)
	case -1:
		a, b := ints(s.g.Why(nil)), ints(t.g.Why(nil))
		if !sameSet(a, b) {
			c.Failf("%s, a copy of %s, has the failed assumptions %v instead of %v", t.name, s.name, b, a)
		}
		c.Count("copied_cores", 1)
	}
}
