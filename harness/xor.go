package main

import (
	"fmt"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"verif/harness/fw"
	"verif/harness/ref"
)

// Histories over systems of equations of parities. They take the solver
// thousands of conflicts, so that it collects learned clauses, restarts and
// rescales, while each answer is decided at once and exactly by elimination.

// bits over variables 1..maxX.
const maxX = 190

type bits [3]uint64

func (b *bits) flip(v int)    { b[v>>6] ^= 1 << uint(v&63) }
func (b bits) has(v int) bool { return b[v>>6]>>uint(v&63)&1 == 1 }
func (b *bits) xor(o bits) {
	for i := range b {
		b[i] ^= o[i]
	}
}

func (b bits) low() int {
	for v := 1; v <= maxX; v++ {
		if b.has(v) {
			return v
		}
	}
	return 0
}

// xeq is an equation (bit 0 is its right hand side) in force if guard is 0 or
// assumed.
type xeq struct {
	row   bits
	guard int
}

type xsys struct {
	n     int // parity variables are 1..n
	eqs   []xeq
	fixed []int // units over guards
}

func (x *xsys) copy() *xsys {
	return &xsys{n: x.n, eqs: append([]xeq{}, x.eqs...), fixed: append([]int{}, x.fixed...)}
}

// sat decides the system under as.
func (x *xsys) sat(as []int) bool {
	on := map[int]bool{}
	for _, a := range append(append([]int{}, x.fixed...), as...) {
		if on[-a] {
			return false
		}
		on[a] = true
	}
	var piv [maxX + 1]*bits
	add := func(r bits) bool {
		for {
			v := r.low()
			if v == 0 {
				return !r.has(0)
			}
			if piv[v] == nil {
				piv[v] = &r
				return true
			}
			r.xor(*piv[v])
		}
	}
	for a := range on {
		if v := abs(a); v <= x.n {
			var r bits
			r.flip(v)
			if a > 0 {
				r.flip(0)
			}
			if !add(r) {
				return false
			}
		}
	}
	for _, e := range x.eqs {
		if (e.guard == 0 || on[e.guard]) && !add(e.row) {
			return false
		}
	}
	return true
}

// sat decides clauses of the session under as.
func (s *session) sat(f cnf, as ...int) bool {
	if s.x != nil {
		return s.x.sat(as)
	}
	return ref.Sat(f, as...)
}

func (s *session) decide(f cnf, as []int, lim int64) ref.Result {
	if s.x != nil {
		return ref.Result{Sat: s.x.sat(as)}
	}
	return ref.SolveLim(f, as, lim)
}

// xorHist is a history over equations: state beside the session.
type xorHist struct {
	n, w    int
	planted []bool
	users   []int // guards which are variables of the caller
	async   bool  // solve in the background
	during  func(inter.Solve)
}

func newXor(c *fw.C, n, w, m int) (*session, *xorHist) {
	r := c.R
	g := newGini(r)
	s := newSession(c, g, "g")
	h := &xorHist{n: n, w: w, planted: make([]bool, n+1)}
	for i := 1; i <= n; i++ {
		h.planted[i] = r.Bool()
	}
	s.x = &xsys{n: n}
	for i := r.Intn(4); i > 0; i-- {
		h.users = append(h.users, n+1+len(h.users))
	}
	for i := 0; i < n+len(h.users); i++ {
		g.Lit()
	}
	s.n = n + len(h.users)
	s.maxN = s.n
	for ; m > 0; m-- {
		h.eq(s, 0, true)
	}
	for _, u := range h.users {
		for i := r.Range(1, n/8); i > 0; i-- {
			h.eq(s, u, !r.P(1, 10))
		}
	}
	return s, h
}

// eq adds an equation under a guard; agree: with the planted solution.
func (h *xorHist) eq(s *session, guard int, agree bool) {
	r := s.r
	w := h.w
	if r.P(1, 8) {
		w = r.Range(1, h.w)
		if guard == 0 && w < 3 && !r.P(1, 4) {
			w = h.w
		}
	}
	vs := r.Perm(h.n)[:w]
	var e xeq
	e.guard = guard
	b := false
	for i := range vs {
		vs[i]++
		e.row.flip(vs[i])
		b = b != h.planted[vs[i]]
	}
	if !agree {
		b = r.Bool()
	}
	if b {
		e.row.flip(0)
	}
	cs := xorClauses(vs, b)
	_, act := s.acts[guard]
	if act {
		for _, cl := range cs {
			if !s.activable(cl) {
				return
			}
		}
	}
	s.x.eqs = append(s.x.eqs, e)
	for _, i := range r.Perm(len(cs)) {
		switch {
		case act:
			s.activateWith(guard, cs[i])
		case guard != 0:
			cl := append([]int{}, cs[i]...)
			x := r.Intn(len(cl) + 1)
			cl = append(cl, 0)
			copy(cl[x+1:], cl[x:])
			cl[x] = -guard
			s.add(cl)
		default:
			s.add(cs[i])
		}
	}
}

// step performs one random operation.
func (h *xorHist) step(s *session) {
	r := s.r
	if s.dead {
		if s.deadBySolve && r.P(1, 4) {
			s.solve(0)
			return
		}
		s.untest()
		return
	}
	if len(s.scope) == 0 && len(s.pend) == 0 && r.P(2, 5) {
		al := s.actList()
		switch k := r.Intn(10); {
		case k < 1:
			if len(s.x.eqs) < h.n {
				h.eq(s, 0, !r.P(1, 100))
			}
		case k < 5 && len(al) < 8:
			m := s.actLit()
			for j := r.Range(1, h.n/8); j > 0; j-- {
				h.eq(s, m, !r.P(1, 10))
			}
		case k < 6 && len(al) > 0:
			h.eq(s, al[r.Intn(len(al))], !r.P(1, 10))
		case k < 9 && len(al) > 3:
			s.deactivate(al[r.Intn(len(al))])
		case r.P(1, 20) && len(h.users) > 0: // retired for ever
			u := h.users[r.Intn(len(h.users))]
			s.x.fixed = append(s.x.fixed, -u)
			s.add([]int{-u})
		}
		return
	}
	if len(s.scope) > 0 && len(s.pend) == 0 && r.P(1, 3) {
		s.untest()
		return
	}
	for _, m := range append(s.actList(), h.users...) {
		if r.P(7, 8) {
			s.assume(m)
		} else if r.P(1, 8) {
			s.assume(-m)
		}
	}
	for j := r.Pick(0, 0, 0, 1, 3); j > 0; j-- {
		v := r.Range(1, h.n)
		if h.planted[v] != r.P(1, 6) {
			s.assume(v)
		} else {
			s.assume(-v)
		}
	}
	switch {
	case r.P(1, 5) && len(s.scope) < 4:
		s.test()
	case r.P(1, 10):
	case h.async:
		s.asolve(nil, h.during)
	default:
		s.solve(how(r))
	}
}

// xorShape: parameters for searches of some thousands of conflicts: the
// permanent equations leave many solutions, and those under the guards which
// are assumed make up for it.
func xorShape(r *fw.Rand) (n, w, m int) {
	w = r.Pick(3, 4, 4, 4, 5, 5)
	switch w {
	case 3:
		n = r.Range(100, 150)
	case 4:
		n = r.Range(60, 84)
	default:
		n = r.Range(42, 54)
	}
	m = n * r.Range(55, 85) / 100
	return
}

func xorSession(c *fw.C, steps int, each func(*session)) *session {
	n, w, m := xorShape(c.R)
	s, h := newXor(c, n, w, m)
	for i := 0; i < steps; i++ {
		h.step(s)
		if each != nil {
			each(s)
		}
	}
	s.settle()
	return s
}

// settle closes all scopes and solves once more.
func (s *session) settle() {
	for len(s.scope) > 0 {
		if !s.dead {
			s.pendDrop()
		}
		s.untest()
	}
	s.pendDrop()
	s.solve(0)
}

func xorPlain(c *fw.C) { obsSession(c, xorSession(c, c.R.Range(40, 200), nil)) }

func xorWrite(c *fw.C) {
	s := xorSession(c, c.R.Range(40, 200), func(s *session) {
		if len(s.scope) == 0 && len(s.pend) == 0 && s.r.P(1, 20) {
			writeCheck(s, s.g.(*gini.Gini))
		}
	})
	writeCheck(s, s.g.(*gini.Gini))
	obsSession(c, s)
}

// xorCopies: sessions fork and go on side by side.
func xorCopies(c *fw.C) {
	n, w, m := xorShape(c.R)
	s, h := newXor(c, n, w, m)
	ss := []*session{s}
	for i := c.R.Range(60, 200); i > 0; i-- {
		s := ss[c.R.Intn(len(ss))]
		if c.R.P(1, 12) && len(ss) < 4 {
			t := s.fork(copyOf(c.R, s), fmt.Sprintf("copy%d", len(ss)))
			t.r = c.R.Fork()
			t.agrees(s)
			c.Count("copies", 1)
			ss = append(ss, t)
			continue
		}
		h.step(s)
	}
	for _, s := range ss {
		s.settle()
		obsSession(c, s)
	}
}

func xorLockstep(c *fw.C) {
	n, w, m := xorShape(c.R)
	s, h := newXor(c, n, w, m)
	lockstepBy(c, s, s.maxN, c.R.Range(0, 100), c.R.Range(10, 60), h.step)
}

// xorAsync: searches long enough to be caught in the middle, with copies
// taken while they are paused, which go on at the same time.
func xorAsync(c *fw.C) {
	r := c.R
	n, w, m := r.Range(80, 100), 4, 0
	if r.Bool() {
		n, w = r.Range(54, 60), 5
	}
	m = n * 9 / 10
	s, h := newXor(c, n, w, m)
	h.async = true
	var joins []func()
	defer func() {
		for _, j := range joins {
			j()
		}
	}()
	side := func(t *session) {
		h := *h
		h.during = nil
		c.Count("copies", 1)
		t.r = r.Fork()
		steps := r.Range(2, 10)
		joins = append(joins, forked(func() {
			for i := 0; i < steps; i++ {
				h.step(t)
			}
			t.settle()
		}))
	}
	h.during = func(inter.Solve) {
		if len(joins) < 3 && r.P(1, 3) {
			t := s.fork(copyOf(r, s), fmt.Sprintf("copy%d", len(joins)))
			t.solvedIn = len(t.scope) > 0
			t.fresh = false
			side(t)
			c.Count("copies_while_paused", 1)
		}
	}
	for i := r.Range(20, 60); i > 0; i-- {
		h.step(s)
		if len(joins) < 3 && r.P(1, 30) {
			side(s.fork(copyOf(r, s), fmt.Sprintf("copy%d", len(joins))))
		}
	}
	s.settle()
	obsSession(c, s)
}

// xorParallel: a solver and its copies at once.
func xorParallel(c *fw.C) {
	n, w, m := xorShape(c.R)
	s, h := newXor(c, n, w, m)
	for i := c.R.Range(0, 60); i > 0; i-- {
		h.step(s)
	}
	ss := []*session{s}
	for i := c.R.Range(1, 4); i > 0; i-- {
		o := ss[c.R.Intn(len(ss))]
		ss = append(ss, o.fork(copyOf(c.R, o), fmt.Sprintf("copy%d", i)))
		c.Count("copies", 1)
	}
	steps := c.R.Range(20, 80)
	c.Par(len(ss), func(i int, c *fw.C) {
		s := ss[i]
		s.c, s.r = c, c.R
		for j := steps; j > 0; j-- {
			h.step(s)
		}
		s.settle()
		obsSession(c, s)
	})
}
