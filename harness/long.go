package main

import (
	"github.com/go-air/gini"
	"verif/harness/fw"
)

// longClause makes a clause whose length is around what the clause store
// treats specially (32 and its multiples), or short.
func longClause(r *fw.Rand, n int) []int {
	k := r.Pick(2, 3, 3, 4, 10, r.Range(28, 36), r.Range(28, 36), 31, 32, 33, r.Range(60, 68), r.Range(92, 132))
	if k > n {
		k = n
	}
	cl := rclause(r, n, k)
	if r.P(1, 10) {
		cl = append(cl, cl[r.Intn(len(cl))])
	}
	if r.P(1, 30) {
		cl = append(cl, -cl[r.Intn(len(cl))])
	}
	return cl
}

// longs: histories with long clauses, permanent and, with acts, activated.
// Assumptions falsify all but a few literals of some clause.
func longs(c *fw.C, n, steps int, acts bool, each func(s *session)) *session {
	r := c.R
	g := newGini(r)
	s := newSession(c, g, "g")
	for i := 0; i < n; i++ {
		g.Lit()
	}
	s.n = n
	if acts {
		s.maxN = n
	}
	var all cnf
	for i := r.Range(0, n); i > 0; i-- {
		cl := longClause(r, n)
		s.add(cl)
		all = append(all, cl)
	}
	for i := 0; i < steps; i++ {
		al := s.actList()
		switch k := r.Intn(10); {
		case k < 2:
			for j := r.Range(1, 4); j > 0; j-- {
				cl := longClause(r, n)
				s.add(cl)
				all = append(all, cl)
			}
		case k < 4 && acts:
			m := 0
			if len(al) > 0 && r.Bool() {
				m = al[r.Intn(len(al))]
			} else {
				m = s.actLit()
			}
			for j := r.Range(1, 8); j > 0; j-- {
				cl := longClause(r, n)
				if s.activable(cl) {
					s.activateWith(m, cl)
					all = append(all, cl)
				}
			}
		case k < 6 && acts:
			for j := r.Pick(1, 1, 2, 4); j > 0 && len(al) > 0; j-- {
				x := r.Intn(len(al))
				s.deactivate(al[x])
				al = append(al[:x], al[x+1:]...)
			}
		default:
			for _, m := range al {
				if r.P(3, 4) {
					s.assume(m)
				}
			}
			if len(all) > 0 {
				cl := all[r.Intn(len(all))]
				free := r.Intn(3)
				for _, x := range r.Perm(len(cl))[:max(0, len(cl)-free)] {
					if r.P(1, 200) {
						s.assume(cl[x])
						continue
					}
					s.assume(-cl[x])
				}
				c.Count("falsified", 1)
			}
			for j := r.Pick(0, 0, 1, 3); j > 0; j-- {
				s.assume(rlit(r, n))
			}
			s.solve(how(r))
		}
		if each != nil {
			each(s)
		}
	}
	s.solve(0)
	return s
}

func longPlain(c *fw.C) {
	obsSession(c, longs(c, c.R.Range(34, 150), c.R.Range(5, 25), false, nil))
}

func longActs(c *fw.C) {
	obsSession(c, longs(c, c.R.Range(34, 150), c.R.Range(5, 40), true, nil))
}

func longWrite(c *fw.C) {
	k := 0
	s := longs(c, c.R.Range(34, 150), c.R.Range(5, 40), true, func(s *session) {
		k++
		if k%7 == 0 {
			writeCheck(s, s.g.(*gini.Gini))
		}
	})
	writeCheck(s, s.g.(*gini.Gini))
	obsSession(c, s)
}

func longCopies(c *fw.C) {
	n := c.R.Range(34, 120)
	s := longs(c, n, c.R.Range(3, 15), true, nil)
	lockstep(c, s, n, 0, c.R.Range(5, 20))
}
