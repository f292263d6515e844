package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
)

// solverI is what a session needs; *gini.Gini satisfies it, and so do the
// wrappers built on it.
type solverI interface {
	inter.Adder
	inter.Solvable
	inter.Model
	inter.Assumable
}

// session drives a solver next to a shadow of everything it was told, and
// judges each answer against the shadow with the reference solver.
type session struct {
	r           *fw.Rand
	trace       []string
	c           *fw.C
	g           solverI
	name        string
	cls         cnf // permanent clauses
	n           int // variables used so far
	pend        []int
	scope       [][]int // tested assumptions, per scope
	outs        [][]int // literals returned per scope
	dead        bool    // unresolved unsat under scopes: only Untest is allowed
	acts        map[int]*actRec
	last        int
	deadBySolve bool
	solvedIn    bool // a Solve or an unsat Test happened under the current scopes
	hard        bool // last unsat was scope independent
	hidden      func(v int) bool
	complete    func(f cnf) inter.Model // gives the values of hidden variables too
	maxN        int                     // for activation: variables above this belong to the solver
	fresh       bool                    // nothing was asked since the last answer
	x           *xsys                   // decides the clauses, if they are equations
}

type actRec struct {
	lit  int
	cls  cnf
	used bool
}

func newSession(c *fw.C, g solverI, name string) *session {
	return &session{c: c, r: c.R, g: g, name: name, acts: map[int]*actRec{}}
}

func (s *session) logf(f string, a ...interface{}) {
	s.trace = append(s.trace, fmt.Sprintf(f, a...))
	s.c.Logf(s.name+": "+f, a...)
}

func (s *session) add(cl []int) {
	s.logf("add %v", cl)
	addClause(s.g, cl)
	s.note(cl)
}

func (s *session) note(cl []int) {
	s.fresh = false
	d := append([]int{}, cl...)
	s.cls = append(s.cls, d)
	for _, l := range d {
		if abs(l) > s.n {
			s.n = abs(l)
		}
	}
}

func (s *session) assume(as ...int) {
	s.fresh = false
	s.logf("assume %v", as)
	s.g.Assume(lits(as)...)
	s.pend = append(s.pend, as...)
	for _, l := range as {
		if abs(l) > s.n {
			s.n = abs(l)
		}
	}
}

// inForce is the tested assumptions.
func (s *session) inForce() []int {
	var r []int
	for _, sc := range s.scope {
		r = append(r, sc...)
	}
	return r
}

// formula is what the solver has been told, activated clauses included with
// their guard.
func (s *session) formula() cnf {
	f := append(cnf{}, s.cls...)
	for _, a := range s.acts {
		for _, cl := range a.cls {
			f = append(f, append(append([]int{}, cl...), -a.lit))
		}
	}
	return f
}

// judge compares an answer to the shadow.
func (s *session) judge(res int, as []int, what string) {
	f := s.formula()
	rr := s.decide(f, as, 300000)
	if rr.Unknown {
		s.c.Count("reference_gave_up", 1)
		if res == 1 && s.complete == nil {
			checkModel(s.c, s.g, f, as, what)
		}
		return
	}
	if res != 1 && res != -1 {
		s.c.Failf("%s: %s returned %d", s.name, what, res)
	}
	if (res == 1) != rr.Sat {
		s.c.Failf("%s: %s answered %d under assumptions %v but the clauses given so far are satisfiable under them: %v; clauses %s",
			s.name, what, res, as, rr.Sat, short(f))
	}
	if res == 1 {
		s.c.Count("sat", 1)
		if s.complete != nil {
			checkModel(s.c, s.complete(f), f, as, s.name+": "+what)
			return
		}
		checkModel(s.c, s.g, f, as, s.name+": "+what)
		return
	}
	s.c.Count("unsat", 1)
}

func short(f cnf) string {
	t := f.String()
	if len(t) > 3000 {
		t = t[:3000] + "..."
	}
	return t
}

// why is the monitor on failed assumptions.
func (s *session) why(as []int, what string) {
	var dst []z.Lit
	pre := 0
	switch s.r.Intn(4) {
	case 0:
		dst = nil
	case 1:
		dst = make([]z.Lit, 0, 2)
	case 2:
		dst = make([]z.Lit, 0, 64)
	case 3:
		dst = append(dst, z.Var(3).Pos(), z.Var(2).Neg())
		pre = 2
	}
	got := s.g.Why(dst)
	if len(got) < pre || (pre == 2 && (got[0] != z.Var(3).Pos() || got[1] != z.Var(2).Neg())) {
		s.c.Failf("%s: Why lost what dst already held", s.name)
	}
	w := ints(got[pre:])
	s.logf("why %v", w)
	in := map[int]bool{}
	for _, a := range as {
		in[a] = true
	}
	seen := map[int]bool{}
	for _, l := range w {
		if seen[l] {
			s.c.Failf("%s: %s: failed assumptions %v repeat %d", s.name, what, w, l)
		}
		seen[l] = true
		if !in[l] {
			s.c.Failf("%s: %s: failed assumptions %v contain %d, which was not assumed (assumed: %v)", s.name, what, w, l, as)
		}
	}
	rr := s.decide(s.formula(), w, 300000)
	if rr.Unknown {
		return
	}
	if rr.Sat {
		s.c.Failf("%s: %s: failed assumptions %v (of %v) are satisfiable with the clauses %s", s.name, what, w, as, short(s.formula()))
	}
	s.c.Count("why", 1)
	if len(w) < len(as) {
		s.c.Count("why_proper_subset", 1)
	}
	if len(w) > 1 {
		s.c.Count("why_multi", 1)
	}
	if s.r.P(1, 4) {
		w2 := ints(s.g.Why(nil))
		if !sameSet(w, w2) {
			s.c.Failf("%s: asking Why twice gives %v then %v", s.name, w, w2)
		}
	}
}

func sameSet(a, b []int) bool {
	m := map[int]bool{}
	for _, x := range a {
		m[x] = true
	}
	k := map[int]bool{}
	for _, x := range b {
		if !m[x] {
			return false
		}
		k[x] = true
	}
	return len(m) == len(k)
}

// solve solves and judges.
func (s *session) solve(how int) int {
	as := append(s.inForce(), s.pend...)
	var res int
	switch how {
	case 1:
		res = s.g.Try(10 * time.Minute)
	case 2:
		if gs, ok := s.g.(inter.GoSolvable); ok {
			res = gs.GoSolve().Wait()
		} else {
			res = s.g.Solve()
		}
	default:
		res = s.g.Solve()
	}
	s.logf("solve how=%d under %v -> %d", how, as, res)
	s.pend = nil
	s.last = res
	s.fresh = res != 0
	s.solvedIn = len(s.scope) > 0
	s.judge(res, as, "Solve")
	if res == -1 {
		s.why(as, "Solve")
		if len(s.scope) > 0 {
			s.dead = true
			s.deadBySolve = true
		}
	} else if s.r.P(1, 3) {
		p := []z.Lit{z.Var(1).Pos()}
		if w := s.g.Why(p); len(w) != 1 || w[0] != p[0] {
			s.c.Failf("%s: after a satisfiable answer Why changed its argument to %v", s.name, w)
		}
	}
	return res
}

// test opens a scope and judges what it reports.
func (s *session) test() int {
	t := s.g.(inter.Testable)
	var dst []z.Lit
	if !s.r.P(1, 6) {
		dst = make([]z.Lit, 0, s.r.Pick(0, 1, 8, 64))
	}
	prev := s.inForce()
	as := append(append([]int{}, prev...), s.pend...)
	mine := s.pend
	s.pend = nil
	res, out := t.Test(dst)
	o := ints(out)
	s.logf("test under %v (new %v) -> %d %v", as, mine, res, o)
	if len(s.scope) == 0 {
		s.solvedIn = false
	}
	if res == -1 {
		s.solvedIn = true
	}
	s.scope = append(s.scope, mine)
	s.outs = append(s.outs, o)
	s.last = res
	s.fresh = res != 0
	f := s.formula()
	s.c.Count("tests", 1)
	switch res {
	case 1:
		s.c.Count("test_sat", 1)
		if s.complete != nil {
			checkModel(s.c, s.complete(f), f, as, s.name+": Test")
		} else {
			checkModel(s.c, s.g, f, as, s.name+": Test")
		}
	case 0:
		s.c.Count("test_unknown", 1)
	case -1:
		s.c.Count("test_unsat", 1)
		if s.sat(f, as...) {
			s.c.Failf("%s: Test answered unsat under %v but the clauses are satisfiable under them: %s", s.name, as, short(f))
		}
		s.why(as, "Test")
		s.dead = true
		s.deadBySolve = false
		return res
	default:
		s.c.Failf("%s: Test returned %d", s.name, res)
	}
	if dst == nil {
		if out != nil {
			s.c.Failf("%s: Test(nil) returned literals %v", s.name, o)
		}
		s.outs[len(s.outs)-1] = nil
		return res
	}
	inOut := map[int]bool{}
	for _, l := range o {
		if inOut[-l] {
			s.c.Failf("%s: Test returned both %d and %d", s.name, l, -l)
		}
		if inOut[l] {
			s.c.Failf("%s: Test returned %d twice", s.name, l)
		}
		inOut[l] = true
	}
	// everything reported follows
	for i, l := range o {
		if len(o) > 30 && i%7 != 0 {
			continue
		}
		if s.sat(f, append(append([]int{}, as...), -l)...) {
			s.c.Failf("%s: Test reported %d as assigned, but it does not follow from the clauses and the assumptions %v", s.name, l, as)
		}
	}
	// every assumption is reported, unless it held already
	for _, a := range mine {
		if inOut[a] {
			continue
		}
		if s.sat(f, append(append([]int{}, prev...), -a)...) {
			s.c.Failf("%s: Test did not report the assumption %d, which did not hold before", s.name, a)
		}
	}
	// unit propagation over the clauses as given
	cl, ok := bcp(f, as)
	if !ok {
		s.c.Failf("%s: Test answered %d, but unit propagation of %v over the clauses runs into a conflict: %s", s.name, res, as, short(f))
	}
	for _, o := range s.outs {
		for _, l := range o {
			inOut[l] = true
		}
	}
	full := !s.solvedIn
	for _, o := range s.outs {
		full = full && o != nil
	}
	for l := range cl {
		if s.hidden != nil && s.hidden(abs(l)) {
			continue
		}
		if full && !inOut[l] && s.sat(f, -l) {
			s.c.Failf("%s: Test did not report %d, which unit propagation of %v over the clauses gives", s.name, l, as)
		}
	}
	s.reasons()
	return res
}

// reasons is the monitor on the implication graph.
func (s *session) reasons() {
	t := s.g.(inter.Testable)
	f := s.formula()
	some := false // reasons may be hidden
	for _, cl := range f {
		for _, l := range cl {
			some = some || s.hidden != nil && s.hidden(abs(l))
		}
	}
	assumed := map[int]bool{}
	for _, a := range s.inForce() {
		assumed[a] = true
	}
	graph := map[int][]int{}
	var all []int
	for _, o := range s.outs {
		all = append(all, o...)
	}
	for i, l := range all {
		rs := ints(t.Reasons(make([]z.Lit, 0, s.r.Intn(4)), lit(l)))
		graph[l] = rs
		if len(all) > 24 && i%5 != 0 {
			continue
		}
		if len(rs) == 0 {
			if assumed[l] || some {
				continue
			}
			if s.sat(f, -l) {
				s.c.Failf("%s: %d was propagated, has no reasons, and does not follow from the clauses alone", s.name, l)
			}
			continue
		}
		s.c.Count("reasons", 1)
		as := append([]int{-l}, rs...)
		for _, q := range rs {
			if q == l || q == -l {
				s.c.Failf("%s: reasons of %d mention it: %v", s.name, l, rs)
			}
			if s.sat(f, append(append([]int{}, s.inForce()...), -q)...) {
				s.c.Failf("%s: reason %d of %d does not hold under the tested assumptions", s.name, q, l)
			}
			if s.hidden != nil && s.hidden(abs(q)) {
				s.c.Failf("%s: reason %d of %d is hidden", s.name, q, l)
			}
		}
		if some {
			s.c.Count("reasons_hidden", 1)
			continue
		}
		if s.sat(f, as...) {
			s.c.Failf("%s: reasons %v do not imply %d", s.name, rs, l)
		}
	}
	// acyclic
	state := map[int]int{}
	var visit func(l int)
	visit = func(l int) {
		state[l] = 1
		for _, q := range graph[l] {
			if state[q] == 1 {
				s.c.Failf("%s: implication graph has a cycle through %d", s.name, q)
			}
			if state[q] == 0 {
				visit(q)
			}
		}
		state[l] = 2
	}
	for _, l := range all {
		if state[l] == 0 {
			visit(l)
		}
	}
}

func (s *session) untest() int {
	s.fresh = false
	t := s.g.(inter.Testable)
	res := t.Untest()
	k := len(s.scope) - 1
	s.scope = s.scope[:k]
	s.outs = s.outs[:k]
	s.logf("untest -> %d (left %v)", res, s.scope)
	s.c.Count("untests", 1)
	if k == 0 {
		s.solvedIn = false
	}
	switch res {
	case 0:
		s.dead = false
		if s.r.P(1, 4) {
			p := []z.Lit{z.Var(1).Pos()}
			if w := s.g.Why(p); len(w) != 1 || w[0] != p[0] {
				s.c.Failf("%s: after Untest, which found nothing wrong, Why changed its argument to %v", s.name, w)
			}
		}
	case -1:
		s.c.Count("untest_unsat", 1)
		if s.sat(s.formula(), s.inForce()...) {
			s.c.Failf("%s: Untest answered unsat but clauses with the remaining assumptions %v are satisfiable: %s", s.name, s.inForce(), short(s.formula()))
		}
		s.dead = len(s.scope) > 0
		s.deadBySolve = false
	default:
		s.c.Failf("%s: Untest returned %d", s.name, res)
	}
	return res
}

// activation

type activatable interface {
	inter.Activatable
}

// activable: the caller's obligation, some literal of cl is not false at the
// top level.
func (s *session) activable(cl []int) bool {
	for _, l := range cl {
		if s.sat(s.cls, l) {
			return true
		}
	}
	return false
}

func (s *session) activate(cl []int) int {
	a := s.g.(activatable)
	for _, l := range cl {
		s.g.Add(lit(l))
	}
	m := a.Activate().Dimacs()
	s.logf("activate %v -> %d", cl, m)
	s.newAct(m)
	s.acts[m].cls = append(s.acts[m].cls, append([]int{}, cl...))
	s.c.Count("activations", 1)
	return m
}

func (s *session) actLit() int {
	a := s.g.(activatable)
	m := a.ActivationLit().Dimacs()
	s.logf("activationLit -> %d", m)
	s.newAct(m)
	return m
}

func (s *session) newAct(m int) {
	s.fresh = false
	if m <= 0 {
		s.c.Failf("%s: activation literal %d is not positive", s.name, m)
	}
	if m <= s.maxN {
		s.c.Failf("%s: activation literal %d is a variable of the caller's clauses", s.name, m)
	}
	if s.acts[m] != nil {
		s.c.Failf("%s: activation literal %d handed out while still in use", s.name, m)
	}
	s.acts[m] = &actRec{lit: m}
}

func (s *session) activateWith(m int, cl []int) {
	s.fresh = false
	a := s.g.(activatable)
	for _, l := range cl {
		s.g.Add(lit(l))
	}
	a.ActivateWith(lit(m))
	s.logf("activate %v with %d", cl, m)
	s.acts[m].cls = append(s.acts[m].cls, append([]int{}, cl...))
	s.c.Count("activations", 1)
}

func (s *session) deactivate(m int) {
	s.fresh = false
	a := s.g.(activatable)
	s.logf("deactivate %d", m)
	a.Deactivate(lit(m))
	delete(s.acts, m)
	if s.x != nil {
		var k []xeq
		for _, e := range s.x.eqs {
			if e.guard != m {
				k = append(k, e)
			}
		}
		s.x.eqs = k
	}
	s.c.Count("deactivations", 1)
}

func (s *session) actList() []int {
	var r []int
	for v := range s.acts {
		r = append(r, v)
	}
	// deterministic order
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j] < r[i] {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

// fork is the shadow of a copy.
func (s *session) fork(g solverI, name string) *session {
	t := newSession(s.c, g, name)
	t.cls = append(cnf{}, s.cls...)
	t.n = s.n
	t.maxN = s.maxN
	t.pend = append([]int{}, s.pend...)
	for i := range s.scope {
		t.scope = append(t.scope, append([]int{}, s.scope[i]...))
		o := s.outs[i]
		if o != nil { // nil: Test was told not to report
			o = append([]int{}, o...)
		}
		t.outs = append(t.outs, o)
	}
	t.dead = s.dead
	if s.x != nil {
		t.x = s.x.copy()
	}
	t.last, t.fresh = s.last, s.fresh
	t.deadBySolve, t.solvedIn = s.deadBySolve, s.solvedIn
	for k, a := range s.acts {
		t.acts[k] = &actRec{lit: a.lit, cls: append(cnf{}, a.cls...)}
	}
	return t
}

func parseDimacs(txt string) (cnf, int, int, error) {
	var f cnf
	var cur []int
	nv, nc := -1, -1
	for _, ln := range strings.Split(txt, "\n") {
		ln = strings.TrimSpace(ln)
		if ln == "" || ln[0] == 'c' {
			continue
		}
		if ln[0] == 'p' {
			if _, e := fmt.Sscanf(ln, "p cnf %d %d", &nv, &nc); e != nil {
				return nil, 0, 0, e
			}
			continue
		}
		for _, w := range strings.Fields(ln) {
			var l int
			if _, e := fmt.Sscanf(w, "%d", &l); e != nil {
				return nil, 0, 0, e
			}
			if l == 0 {
				f = append(f, cur)
				cur = nil
				continue
			}
			cur = append(cur, l)
		}
	}
	if len(cur) != 0 {
		return nil, 0, 0, fmt.Errorf("unterminated clause")
	}
	return f, nv, nc, nil
}

// bcp is the unit closure of as over f.
func bcp(f cnf, as []int) (map[int]bool, bool) {
	v := map[int]bool{}
	for _, a := range as {
		if v[-a] {
			return v, false
		}
		v[a] = true
	}
	for ch := true; ch; {
		ch = false
		for _, c := range f {
			u, k, sat := 0, 0, false
			for _, l := range c {
				if v[l] {
					sat = true
					break
				}
				if !v[-l] && l != u {
					u = l
					k++
				}
			}
			if sat {
				continue
			}
			if k == 0 {
				return v, false
			}
			if k == 1 {
				v[u] = true
				ch = true
			}
		}
	}
	return v, true
}
