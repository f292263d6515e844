package main

import (
	"bytes"
	"errors"
	"strings"

	"github.com/go-air/gini"
	"verif/harness/fw"
	"verif/harness/ref"
)

// activations: histories with activation literals, permanent clauses and
// assumptions.  n user variables are declared first, so that activation
// literals lie above them.
func activations(c *fw.C, n, steps, permRatio int, heavy bool) *session {
	r := c.R
	g := newGini(r)
	s := newSession(c, g, "g")
	for i := 0; i < n; i++ {
		g.Lit()
	}
	s.n, s.maxN = n, n
	perm := func(k int) {
		for ; k > 0; k-- {
			if r.P(1, 25) && !heavy {
				s.add(messyClause(r, n))
			} else {
				s.add(rclause(r, n, r.Pick(2, 3, 3, 3)))
			}
		}
	}
	perm(n * permRatio / 10)
	for i := 0; i < steps; i++ {
		al := s.actList()
		switch k := r.Intn(14); {
		case k < 1:
			perm(r.Range(1, 3))
		case k < 2 && r.P(1, 3):
			s.add([]int{rlit(r, n)})
		case k < 5:
			for j := r.Range(1, 4); j > 0; j-- {
				cl := rclause(r, n, r.Pick(1, 2, 2, 3, 3))
				if s.activable(cl) {
					s.activate(cl)
				}
			}
		case k < 7:
			var m int
			if len(al) > 0 && r.Bool() {
				m = al[r.Intn(len(al))]
			} else {
				m = s.actLit()
			}
			for j := r.Range(1, 6); j > 0; j-- {
				cl := rclause(r, n, r.Pick(1, 2, 2, 3, 3))
				if s.activable(cl) {
					s.activateWith(m, cl)
				}
			}
		case k < 9:
			for j := r.Pick(1, 1, 2, 4); j > 0 && len(al) > 0; j-- {
				x := r.Intn(len(al))
				s.deactivate(al[x])
				al = append(al[:x], al[x+1:]...)
			}
		default:
			for _, m := range al {
				if r.P(2, 3) {
					s.assume(m)
				} else if r.P(1, 6) {
					s.assume(-m)
				}
			}
			for j := r.Intn(3); j > 0; j-- {
				s.assume(rlit(r, n))
			}
			if r.P(1, 6) { // more is told after what is assumed
				amid(s, n)
			}
			s.solve(how(r))
		}
	}
	s.solve(0)
	return s
}

// amid tells s of clauses, and takes back some, while it has assumptions.
func amid(s *session, n int) {
	r := s.r
	held := map[int]bool{}
	for _, m := range s.pend {
		held[abs(m)] = true
	}
	for k := r.Range(1, 4); k > 0; k-- {
		al := s.actList()
		cl := rclause(r, n, r.Pick(1, 2, 2, 3))
		switch r.Intn(5) {
		case 0:
			s.add(cl)
		case 1:
			if s.activable(cl) {
				m := s.activate(cl)
				if r.Bool() {
					s.assume(m)
					held[m] = true
				}
			}
		case 2, 3:
			if len(al) > 0 && s.activable(cl) {
				s.activateWith(al[r.Intn(len(al))], cl)
			}
		default:
			if len(al) > 0 {
				if m := al[r.Intn(len(al))]; !held[m] {
					s.deactivate(m)
				}
			}
		}
		s.c.Count("told_amid_assumptions", 1)
	}
}

// writeCheck: what Write gives is the formula the solver stands for.
func writeCheck(s *session, g *gini.Gini) {
	c := s.c
	var b bytes.Buffer
	if e := g.Write(&b); e != nil {
		c.Failf("%s: Write: %v", s.name, e)
	}
	w, nv, nc, e := parseDimacs(b.String())
	if e != nil {
		c.Failf("%s: Write produced malformed dimacs: %v", s.name, e)
	}
	if nv < maxvar(w) {
		c.Failf("%s: Write's header names %d variables, clauses use %d", s.name, nv, maxvar(w))
	}
	if nc != len(w) {
		c.Failf("%s: Write's header promises %d clauses, %d follow", s.name, nc, len(w))
	}
	f := s.formula()
	fh := map[string]bool{}
	key := func(cl []int) string { return cnf{cl}.String() }
	for _, cl := range f {
		fh[key(cl)] = true
	}
	derived := 0
	for _, cl := range w {
		if fh[key(cl)] {
			continue
		}
		derived++
		if derived > 60 && derived%17 != 0 {
			continue
		}
		as := make([]int, len(cl))
		for i, l := range cl {
			as[i] = -l
		}
		// a retired guard is off
		for v := s.maxN + 1; s.maxN > 0 && v <= int(g.MaxVar()); v++ {
			if s.acts[v] == nil {
				as = append(as, -v)
			}
		}
		rr := s.decide(f, as, 100000)
		if !rr.Unknown && rr.Sat {
			c.Failf("%s: Write gave the clause %v, which does not follow from the clauses in the solver: %s", s.name, cl, short(f))
		}
		c.Count("written_derived_checked", 1)
	}
	wh := map[string]bool{}
	for _, cl := range w {
		wh[key(cl)] = true
	}
	missing := 0
	for _, cl := range f {
		if wh[key(cl)] {
			continue
		}
		missing++
		if missing > 60 && missing%17 != 0 {
			continue
		}
		as := make([]int, len(cl))
		for i, l := range cl {
			as[i] = -l
		}
		if taut(cl) {
			continue
		}
		if _, ok := bcp(w, as); !ok {
			continue
		}
		rr := ref.SolveLim(w, as, 100000)
		if !rr.Unknown && rr.Sat {
			c.Failf("%s: clause %v is not implied by what Write gave:\n%s", s.name, cl, b.String())
		}
		c.Count("clauses_recovered", 1)
	}
	c.Count("writes", 1)
	// a solver read back from it stands for the same problem
	h, e := gini.NewDimacs(strings.NewReader(b.String()))
	if e != nil {
		c.Failf("%s: Write's output is not accepted by NewDimacs: %v\n%s", s.name, e, b.String())
	}
	t := newSession(c, h, s.name+".reread")
	for _, cl := range f {
		if !taut(cl) {
			t.cls = append(t.cls, cl)
		}
	}
	t.n = s.n
	if s.x != nil {
		t.x = s.x.copy()
	}
	n := s.n
	if s.maxN > 0 {
		n = s.maxN
	}
	for k := 0; k < 2; k++ {
		for j := c.R.Intn(4); j > 0 && n > 0; j-- {
			t.assume(rlit(c.R, n))
		}
		for _, m := range s.actList() {
			if c.R.Bool() {
				t.assume(m)
			}
		}
		t.solve(0)
	}
}

type failWriter struct {
	left  int
	short bool
	err   error
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		return len(p), nil
	}
	n := w.left
	w.left = 0
	return n, w.err
}

func init() {
	fw.Register(&fw.Prop{
		ID:   "C05",
		Rule: "a case is a history of activations (new, shared and reused guards), deactivations, adds, assumptions, scopes and solves; the shadow knows the live guarded clauses and every answer, model and core is judged against it; 'learn' cases are hard enough to learn clauses which depend on guards; non-trivial: at least two clauses and an answer; distinct by the clauses",
		Need: []string{"sat", "unsat", "activations", "deactivations", "told_amid_assumptions", "huge_words"},
		Workloads: []fw.Workload{
			{Name: "small", Quick: 30000, Thorough: 1000000, Fn: func(c *fw.C) {
				s := activations(c, c.R.Range(2, 12), c.R.Range(5, 60), c.R.Range(0, 25), false)
				obsSession(c, s)
			}},
			{Name: "long", Quick: 1000, Thorough: 30000, Fn: longActs},
			{Name: "huge", Quick: 3, Thorough: 24, Fn: hugeActs},
			{Name: "xor", Quick: 300, Thorough: 3000, Fn: xorPlain},
			{Name: "learn", Quick: 300, Thorough: 10000, Fn: func(c *fw.C) {
				s := activations(c, c.R.Range(40, 90), c.R.Range(20, 150), c.R.Range(30, 40), true)
				obsSession(c, s)
			}},
		},
	})
	fw.Register(&fw.Prop{
		ID:   "C07",
		Rule: "a history (adds, solves, activations, learning) followed by Write: the output is parsed independently, each clause written is decided to be implied and each clause of the shadow to follow; 'fail': writers failing after a given number of bytes; non-trivial: at least two clauses and an answer; distinct by the clauses",
		Need: []string{"sat", "unsat", "writes"},
		Workloads: []fw.Workload{
			{Name: "acts", Quick: 10000, Thorough: 300000, Fn: func(c *fw.C) {
				s := activations(c, c.R.Range(2, 12), c.R.Range(5, 60), c.R.Range(0, 25), false)
				writeCheck(s, s.g.(*gini.Gini))
				obsSession(c, s)
			}},
			{Name: "incr", Quick: 10000, Thorough: 300000, Fn: func(c *fw.C) {
				n := c.R.Range(1, 12)
				s := incr(c, n, c.R.Range(0, 30), c.R.Pick(2, 4, n+1))
				writeCheck(s, s.g.(*gini.Gini))
				obsSession(c, s)
			}},
			{Name: "long", Quick: 400, Thorough: 10000, Fn: longWrite},
			{Name: "xor", Quick: 100, Thorough: 3000, Fn: xorWrite},
			{Name: "learn", Quick: 150, Thorough: 4000, Fn: func(c *fw.C) {
				s := activations(c, c.R.Range(40, 90), c.R.Range(20, 100), c.R.Range(30, 40), true)
				writeCheck(s, s.g.(*gini.Gini))
				obsSession(c, s)
			}},
			{Name: "fail", Quick: 1500, Thorough: 50000, Fn: failingWrites},
		},
	})
}

// failingWrites: a writer which fails after each possible number of bytes.
func failingWrites(c *fw.C) {
	n := c.R.Range(1, 12)
	s := incr(c, n, c.R.Range(0, 12), c.R.Pick(2, 4, n+1))
	g := s.g.(*gini.Gini)
	var b bytes.Buffer
	if e := g.Write(&b); e != nil {
		c.Failf("Write to a buffer: %v", e)
	}
	bad := errors.New("injected")
	for k := 0; k < b.Len(); k++ {
		w := &failWriter{left: k, err: bad}
		if e := g.Write(w); e == nil {
			c.Failf("Write returned no error, but the writer failed after %d of %d bytes", k, b.Len())
		}
		c.Count("failed_writes", 1)
	}
	w := &failWriter{left: b.Len(), err: bad}
	if e := g.Write(w); e != nil {
		c.Failf("Write to a writer with just enough room: %v", e)
	}
	var b2 bytes.Buffer
	if e := g.Write(&b2); e != nil || b2.String() != b.String() {
		c.Failf("Write gives something else after failed writes (%v)", e)
	}
	s.solve(0)
	obsSession(c, s)
}

func taut(cl []int) bool {
	for _, l := range cl {
		for _, k := range cl {
			if l == -k {
				return true
			}
		}
	}
	return false
}
