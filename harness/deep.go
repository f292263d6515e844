package main

import (
	"fmt"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
)

// Scopes nested hundreds or thousands deep, and copies taken down there. The
// clauses fall into blocks of a few variables each, so that each answer is
// decided by going through the valuations of the blocks asked about.

type dblock struct {
	vs     []int
	cls    [][]int
	models []uint // valuations of vs, by bit
}

func newDblock(r *fw.Rand, vs []int) *dblock {
	b := &dblock{vs: vs}
	for len(b.models) == 0 {
		b.cls = nil
		for k := r.Intn(2 * len(vs)); k > 0; k-- {
			var cl []int
			for j := r.Range(1, 3); j > 0; j-- {
				l := vs[r.Intn(len(vs))]
				if r.Bool() {
					l = -l
				}
				cl = append(cl, l)
			}
			if len(cl) == 1 && !r.P(1, 8) {
				continue
			}
			b.cls = append(b.cls, cl)
		}
		for m := uint(0); m < 1<<uint(len(vs)); m++ {
			ok := true
			for _, cl := range b.cls {
				ok = ok && b.some(m, cl)
			}
			if ok {
				b.models = append(b.models, m)
			}
		}
	}
	return b
}

func (b *dblock) holds(m uint, l int) bool {
	for i, v := range b.vs {
		if v == abs(l) {
			return m>>uint(i)&1 == 1 == (l > 0)
		}
	}
	panic("not in the block")
}

func (b *dblock) some(m uint, cl []int) bool {
	for _, l := range cl {
		if b.holds(m, l) {
			return true
		}
	}
	return false
}

func (b *dblock) sat(as ...int) bool {
	for _, m := range b.models {
		ok := true
		for _, a := range as {
			ok = ok && b.holds(m, a)
		}
		if ok {
			return true
		}
	}
	return false
}

type deepS struct {
	c       *fw.C
	r       *fw.Rand
	g       solverI
	name    string
	n       int
	bs      []*dblock
	of      []int   // variable to block
	in      [][]int // by block: assumptions in scope
	scope   [][]int
	outs    []map[int]bool // by scope
	got     map[int]int    // how many scopes report it
	full    bool           // what is reported must be whole
	low     int            // scopes opened since full
	careful bool           // nothing fails on the way down
}

func newDeep(c *fw.C, n int) *deepS { return newDeepOn(c, n, gini.New()) }

func newDeepOn(c *fw.C, n int, g solverI) *deepS {
	s := &deepS{c: c, r: c.R, g: g, name: "g", n: n, of: make([]int, n+1), got: map[int]int{}}
	perm := c.R.Perm(n)
	for i := 0; i < n; {
		k := c.R.Range(1, 5)
		if i+k > n {
			k = n - i
		}
		var vs []int
		for _, v := range perm[i : i+k] {
			vs = append(vs, v+1)
			s.of[v+1] = len(s.bs)
		}
		s.bs = append(s.bs, newDblock(c.R, vs))
		i += k
	}
	s.in = make([][]int, len(s.bs))
	for _, i := range c.R.Perm(len(s.bs)) {
		for _, cl := range s.bs[i].cls {
			addClause(s.g, cl)
		}
	}
	// every variable is known to the solver
	addClause(s.g, []int{n, -n})
	s.full = true
	return s
}

func (s *deepS) copy(name string) *deepS {
	t := *s
	t.g = copyDeep(s)
	t.name = name
	t.r = s.r.Fork()
	t.in = make([][]int, len(s.in))
	for i := range s.in {
		t.in[i] = append([]int{}, s.in[i]...)
	}
	t.scope = append([][]int{}, s.scope...)
	t.outs = append([]map[int]bool{}, s.outs...)
	t.got = map[int]int{}
	for l, k := range s.got {
		t.got[l] = k
	}
	return &t
}

func copyDeep(s *deepS) solverI {
	if w, ok := s.g.(*deepSv); ok {
		return &deepSv{Sv: w.Sv.SCopy().(inter.Sv), vs: w.vs, r: s.r.Fork()}
	}
	g := s.g.(*gini.Gini)
	if s.r.Bool() {
		return g.SCopy().(*gini.Gini)
	}
	return g.Copy()
}

func (s *deepS) failf(f string, a ...interface{}) {
	t := fmt.Sprintf(f, a...)
	if len(t) > 3000 {
		t = t[:1500] + " ... " + t[len(t)-1500:]
	}
	s.c.Failf("%s, %d scopes deep: %s", s.name, len(s.scope), t)
}

func (s *deepS) push(as []int) {
	for _, a := range as {
		b := s.of[abs(a)]
		s.in[b] = append(s.in[b], a)
	}
}

func (s *deepS) pop(as []int) {
	for _, a := range as {
		b := s.of[abs(a)]
		s.in[b] = s.in[b][:len(s.in[b])-1]
	}
}

// pick makes assumptions, mostly ones which can hold.
func (s *deepS) pick(k int) (as []int) {
	by := map[int][]int{}
	for ; k > 0; k-- {
		l := rlit(s.r, s.n)
		b := s.of[abs(l)]
		if s.careful || !s.r.P(1, 60) {
			var now []int
			now = append(now, s.in[b]...)
			now = append(now, by[b]...)
			if !s.bs[b].sat(append(now, l)...) {
				l = -l
			}
		}
		as = append(as, l)
		by[b] = append(by[b], l)
	}
	return
}

// sat tells whether the clauses and what is in force can hold; only the blocks
// of as can have changed.
func (s *deepS) sat(as []int) bool {
	for _, a := range as {
		b := s.of[abs(a)]
		if !s.bs[b].sat(s.in[b]...) {
			return false
		}
	}
	return true
}

func (s *deepS) why() {
	w := ints(s.g.Why(nil))
	by := map[int][]int{}
	for _, l := range w {
		if abs(l) > s.n {
			s.failf("failed assumption %d is no variable of the problem", l)
		}
		b := s.of[abs(l)]
		was := false
		for _, a := range s.in[b] {
			was = was || a == l
		}
		if !was {
			s.failf("failed assumption %d was not assumed", l)
		}
		for _, o := range by[b] {
			if o == l {
				s.failf("failed assumption %d is repeated", l)
			}
		}
		by[b] = append(by[b], l)
	}
	for b, ls := range by {
		if !s.bs[b].sat(ls...) {
			s.c.Count("why", 1)
			return
		}
	}
	s.failf("the failed assumptions %v can hold", w)
}

// undo takes the last scope back.
func (s *deepS) undo() {
	k := len(s.scope) - 1
	for l := range s.outs[k] {
		if s.got[l]--; s.got[l] == 0 {
			delete(s.got, l)
		}
	}
	s.outs = s.outs[:k]
	s.pop(s.scope[k])
	s.scope = s.scope[:k]
	if r := s.g.(inter.Testable).Untest(); r != 0 {
		s.failf("Untest back to scopes which can hold answered %d", r)
	}
	if k == 0 {
		s.full = true
	}
}

func (s *deepS) test() {
	as := s.pick(s.r.Pick(0, 1, 1, 1, 2, 3))
	s.g.Assume(lits(as)...)
	s.push(as)
	s.scope = append(s.scope, as)
	s.outs = append(s.outs, map[int]bool{})
	res, out := s.g.(inter.Testable).Test(make([]z.Lit, 0, s.r.Pick(0, 4, 64)))
	s.c.Count("tests", 1)
	sat := s.sat(as)
	if res == 1 && !sat || res == -1 && sat || res < -1 || res > 1 {
		s.failf("Test under %v answered %d; they can hold: %v", as, res, sat)
	}
	if res == -1 {
		s.why()
		s.full = false
		s.c.Count("test_unsat", 1)
		s.undo()
		return
	}
	mine := s.outs[len(s.outs)-1]
	for _, m := range out {
		l := m.Dimacs()
		if abs(l) > s.n {
			s.failf("Test reported %d, which is no variable of the problem", l)
		}
		b := s.of[abs(l)]
		if mine[l] {
			s.failf("Test reported %d twice", l)
		}
		mine[l] = true
		s.got[l]++
		if sat && s.bs[b].sat(append([]int{-l}, s.in[b]...)...) {
			s.failf("Test under %v reported %d, which need not hold", as, l)
		}
	}
	if res == 1 {
		s.model("Test")
	}
	for _, a := range as {
		b := s.of[abs(a)]
		cl, ok := bcp(s.bs[b].cls, s.in[b])
		if !ok {
			s.failf("Test under %v answered %d, unit propagation runs into a conflict", as, res)
		}
		if !s.full {
			continue
		}
		for l := range cl {
			if s.got[l] == 0 && s.bs[b].sat(-l) {
				s.failf("Test under %v did not report %d, which unit propagation gives", as, l)
			}
		}
		s.c.Count("whole_reports", 1)
	}
	if !sat {
		s.undo()
		return
	}
	// reasons of something which was reported
	if len(out) > 0 && s.r.P(1, 2) {
		l := out[s.r.Intn(len(out))].Dimacs()
		rs := ints(s.g.(inter.Testable).Reasons(nil, lit(l)))
		b := s.of[abs(l)]
		var own []int
		for _, q := range rs {
			if s.of[abs(q)] == b {
				own = append(own, q)
			}
			if qb := s.of[abs(q)]; q == l || s.bs[qb].sat(append([]int{-q}, s.in[qb]...)...) {
				s.failf("reason %d of %d does not hold", q, l)
			}
		}
		if _, ok := s.g.(*deepSv); !ok && len(rs) > 0 && s.bs[b].sat(append(own, -l)...) {
			s.failf("the reasons %v of %d do not imply it", rs, l)
		}
		s.c.Count("reasons", 1)
	}
}

func (s *deepS) model(what string) {
	for i, b := range s.bs {
		var m uint
		for j, v := range b.vs {
			p, q := s.g.Value(lit(v)), s.g.Value(lit(-v))
			if p == q {
				s.failf("after %s %d and %d have one value", what, v, -v)
			}
			if p {
				m |= 1 << uint(j)
			}
		}
		for _, cl := range b.cls {
			if !b.some(m, cl) {
				s.failf("the model of %s makes clause %v false", what, cl)
			}
		}
		for _, a := range s.in[i] {
			if !b.holds(m, a) {
				s.failf("the model of %s makes the assumption %d false", what, a)
			}
		}
	}
}

// solve gives whether the scopes can go on.
func (s *deepS) solve() bool { return s.solveWith(s.r.Pick(0, 1, 5, 100)) }

func (s *deepS) solveWith(k int) bool {
	as := s.pick(k)
	s.g.Assume(lits(as)...)
	s.push(as)
	sat := s.sat(as)
	var res int
	if s.r.P(1, 3) {
		s.g.Assume(lits(as[:s.r.Intn(len(as)+1)])...) // again
	}
	if b, ok := s.g.(inter.GoSolvable); ok && s.r.P(1, 4) {
		res = b.GoSolve().Wait()
	} else {
		res = s.g.Solve()
	}
	if len(s.scope) > 0 {
		s.full = false
	}
	if res != 1 && res != -1 || (res == 1) != sat {
		s.failf("Solve under %v answered %d; they can hold: %v", as, res, sat)
	}
	if sat {
		s.c.Count("sat", 1)
		s.model("Solve")
	} else {
		s.c.Count("unsat", 1)
		s.why()
	}
	s.pop(as)
	if !sat && len(s.scope) > 0 {
		s.undo()
	}
	return sat
}

// deepSv is an Sv which passes some clauses on in two parts, with a hidden
// variable between them.
type deepSv struct {
	inter.Sv
	vs *z.Vars
	r  *fw.Rand
	cl []z.Lit
	k  int
}

func newDeepSv(r *fw.Rand) *deepSv {
	vs := z.NewVars()
	return &deepSv{Sv: gini.NewSvVars(vs), vs: vs, r: r.Fork(), k: r.Range(1, 8)}
}

func (w *deepSv) Add(m z.Lit) {
	if m != z.LitNull {
		w.cl = append(w.cl, w.vs.ToInner(m))
		return
	}
	h := z.LitNull
	cut := -1
	one := map[z.Var]bool{}
	for _, m := range w.cl {
		one[m.Var()] = true
	}
	// a repeated literal must not get apart
	if len(w.cl) > 1 && len(one) == len(w.cl) && w.r.P(1, w.k) {
		h = w.Sv.Inner()
		cut = w.r.Range(1, len(w.cl)-1)
	}
	for i, m := range w.cl {
		if i == cut {
			w.Sv.Add(h)
			w.Sv.Add(0)
			w.Sv.Add(h.Not())
		}
		w.Sv.Add(m)
	}
	w.Sv.Add(0)
	w.cl = w.cl[:0]
}

// deepScopes goes up and down through scopes, and copies now and then.
func deepScopes(c *fw.C) {
	r := c.R
	lim := r.Pick(130, 300, 1000, 2500)
	s := (*deepS)(nil)
	if n := r.Range(lim, 3*lim); c.Prop == "C09" {
		s = newDeepOn(c, n, newDeepSv(r))
	} else {
		s = newDeep(c, n)
	}
	s.careful = r.Bool()
	ss := []*deepS{s}
	deepest := 0
	for i := r.Range(3, 6); i > 0; i-- {
		for _, s := range ss {
			to := r.Pick(0, 1, lim/2, lim, lim)
			for tries := 0; len(s.scope) < to && tries < 3*lim; tries++ {
				s.test()
				if !s.careful && r.P(1, 150) {
					s.solve()
				}
				if r.P(1, 40) {
					for k := r.Range(1, 5); k > 0 && len(s.scope) > 0; k-- {
						s.undo()
					}
				}
				if len(s.scope) > deepest {
					deepest = len(s.scope)
				}
			}
			for len(s.scope) > to {
				s.undo()
				if r.P(1, 300) {
					s.solve()
				}
			}
			if r.Bool() {
				s.solve()
			}
			fw.Progress()
		}
		if len(ss) < 3 && r.P(2, 3) {
			s := ss[r.Intn(len(ss))]
			t := s.copy(fmt.Sprintf("%s.copy%d", s.name, len(ss)))
			c.Logf("%s at depth %d", t.name, len(s.scope))
			ss = append(ss, t)
			c.Count("copies", 1)
		}
	}
	for _, s := range ss {
		for len(s.scope) > 0 {
			s.undo()
		}
		s.solve()
	}
	if deepest > 100 {
		c.Count("over_100_scopes", 1)
	}
	if deepest > 1000 {
		c.Count("over_1000_scopes", 1)
	}
	if deepest > 100 {
		c.Obs(fw.HashInts(uint64(s.n), deepest, len(s.bs)))
	}
	c.Sample("%d variables in %d blocks, %d solvers, %d scopes deep", s.n, len(s.bs), len(ss), deepest)
}

// wideSolves is about many variables and assumptions at once.
func wideSolves(c *fw.C) {
	r := c.R
	n := r.Pick(20000, 70000, 150000)
	if c.Index == 0 && c.Prop != "C09" || c.Thorough() && r.P(1, 8) {
		n = r.Range(550000, 600000)
	}
	s := (*deepS)(nil)
	if c.Prop == "C09" {
		s = newDeepOn(c, n, newDeepSv(r))
	} else {
		s = newDeep(c, n)
	}
	for i := r.Range(3, 8); i > 0; i-- {
		s.careful = r.P(2, 3)
		k := r.Pick(10, 1000, 20000, n)
		sat := s.solveWith(k)
		c.Logf("solve under %d of %d: %v", k, n, sat)
		if r.P(1, 3) {
			s.test()
		}
		if r.P(1, 6) && len(s.scope) > 0 {
			s.undo()
		}
		if r.P(1, 5) {
			s = s.copy(s.name + "'")
		}
		if k >= 10000 {
			c.Count("over_10000_assumptions", 1)
		}
		fw.Progress()
	}
	c.Obs(fw.HashInts(uint64(n), len(s.bs)))
}

// wideClauses makes clauses over n variables, and a model of them.
func wideClauses(r *fw.Rand, n int) (f cnf, model []bool, _ int) {
	model = make([]bool, n+1)
	p := r.Perm(n)
	for i := 0; i < n; {
		k := r.Range(1, 5)
		if i+k > n {
			k = n - i
		}
		var vs []int
		for _, v := range p[i : i+k] {
			vs = append(vs, v+1)
		}
		b := newDblock(r, vs)
		f = append(f, b.cls...)
		m := b.models[r.Intn(len(b.models))]
		for _, v := range vs {
			model[v] = b.holds(m, v)
		}
		i += k
	}
	return f, model, n
}

// wideCrisp is about many variables and assumptions in a crisp session.
func wideCrisp(c *fw.C) {
	r := c.R
	v := startCrisp(c)
	defer v.stop()
	w := &cliS{c: c, r: r, cl: v.dial()}
	defer func() { w.must(w.cl.Close(), "Close") }()
	n := r.Pick(5000, 20000, 70000)
	s := newDeepOn(c, n, w)
	s.name = "client"
	for i := r.Range(2, 5); i > 0; i-- {
		s.careful = r.P(2, 3)
		sat := s.solveWith(r.Pick(10, 1000, n/4, n))
		ms := make([]z.Lit, r.Pick(3, 1000, 32768, 65536, 70000))
		for i := range ms {
			ms[i] = lit(rlit(r, n))
		}
		if sat {
			vs, e := w.cl.ModelFor(nil, ms)
			w.must(e, "ModelFor")
			if len(vs) < len(ms)+1 {
				c.Failf("ModelFor gives %d entries for %d literals", len(vs), len(ms))
			}
			for i, m := range ms {
				if vs[i+1] != w.Value(m) {
					c.Failf("ModelFor gives %v for %d, number %d of %d, Value %v", vs[i+1], m.Dimacs(), i, len(ms), !vs[i+1])
				}
			}
			c.Count("partial_models", 1)
		} else {
			all, e := w.cl.Why(nil)
			w.must(e, "Why")
			ms[r.Intn(len(ms))] = all[r.Intn(len(all))]
			failed := map[z.Lit]bool{}
			for _, m := range all {
				failed[m] = true
			}
			got, e := w.cl.WhySelect(nil, ms)
			w.must(e, "WhySelect")
			j := 0
			for i, m := range ms {
				if !failed[m] {
					continue
				}
				if j >= len(got) || got[j] != m {
					c.Failf("WhySelect of %d literals leaves out %d, number %d", len(ms), m.Dimacs(), i)
				}
				j++
			}
			if j != len(got) {
				c.Failf("WhySelect gives %d literals, %d of those asked for failed", len(got), j)
			}
			c.Count("why_select", 1)
		}
		fw.Progress()
	}
	c.Obs(fw.HashInts(uint64(n), len(s.bs)))
}

var _ inter.Testable = (*gini.Gini)(nil)
