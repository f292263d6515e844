package main

import (
	"math"
	"sort"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
	"verif/harness/ref"
)

// svSolver is a solver with hidden variables, seen through the numbers the
// shadow uses: 1.. for the user's variables, hiddenBase.. for hidden ones.
// As an application of inter.Sv does, it maps what it adds with the Vars it
// shares with the Sv, and gives Assume and Value the user's literals.
type svSolver struct {
	inter.Sv
	vs  *z.Vars
	in  map[int]z.Lit
	c   *fw.C
	out map[int]bool // user variables seen
}

const hiddenBase = 1000

func (w *svSolver) Add(m z.Lit) {
	if m == z.LitNull {
		w.Sv.Add(m)
		return
	}
	l := m.Dimacs()
	v := abs(l)
	if v < hiddenBase {
		w.out[v] = true
		w.Sv.Add(w.vs.ToInner(m))
		return
	}
	i := w.in[v]
	if i == z.LitNull {
		i = w.Sv.Inner()
		if i == z.LitNull || !i.IsPos() {
			w.c.Failf("Inner returned %v", i)
		}
		for _, j := range w.in {
			if j.Var() == i.Var() {
				w.c.Failf("Inner returned variable %s twice", i.Var())
			}
		}
		if o := w.vs.ToOuter(i); o != z.LitNull {
			w.c.Failf("Inner returned %s which stands for the user's %s", i, o)
		}
		w.in[v] = i
		if w.c.R.Bool() {
			// one for a while
			a := w.Sv.Inner()
			for _, j := range w.in {
				if j.Var() == a.Var() {
					w.c.Failf("Inner returned variable %s twice", a.Var())
				}
			}
			w.Sv.FreeInner(a)
			b := w.Sv.Inner()
			if b != a {
				w.c.Failf("Inner returned %s and not %s, which was just freed", b, a)
			}
			w.Sv.FreeInner(b)
			w.c.Count("sv_freed", 1)
		}
	}
	if l < 0 {
		i = i.Not()
	}
	w.Sv.Add(i)
}

func (w *svSolver) Assume(ms ...z.Lit) {
	k := append([]z.Lit{}, ms...)
	for _, m := range ms {
		w.out[int(m.Var())] = true
	}
	w.Sv.Assume(ms...)
	for i := range k {
		if k[i] != ms[i] {
			w.c.Failf("Assume changed the caller's literals %v to %v", k, ms)
		}
	}
}

// completion of the outer model over hidden variables
type completion struct {
	w *svSolver
	m []bool
}

func (k *completion) Value(m z.Lit) bool {
	if int(m.Var()) < hiddenBase {
		return k.w.Value(m)
	}
	return k.m[m.Var()] == m.IsPos()
}

func svSession(c *fw.C) *session {
	vs := z.NewVars()
	w := &svSolver{Sv: gini.NewSvVars(vs), vs: vs, in: map[int]z.Lit{}, c: c, out: map[int]bool{}}
	return svSessionOf(c, w, "sv")
}

func svSessionOf(c *fw.C, w *svSolver, name string) *session {
	s := newSession(c, w, name)
	s.hidden = func(v int) bool { return v >= hiddenBase }
	s.complete = func(f cnf) inter.Model {
		var as []int
		seen := map[int]bool{}
		for _, cl := range f {
			for _, l := range cl {
				v := abs(l)
				if v < hiddenBase && !seen[v] {
					seen[v] = true
					if w.Value(lit(v)) {
						as = append(as, v)
					} else {
						as = append(as, -v)
					}
				}
			}
		}
		rr := ref.Solve(f, as)
		if !rr.Sat {
			c.Failf("%s: the model over the user's variables, %v, does not extend to the hidden ones: %s", name, as, short(f))
		}
		m := rr.Model
		for len(m) < hiddenBase+200 {
			m = append(m, false)
		}
		return &completion{w, m}
	}
	return s
}

// hide adds definitions through hidden variables.
func hide(s *session, n, k int) {
	r := s.r
	for i := 0; i < k; i++ {
		h := hiddenBase + i
		a, b := rlit(r, n), rlit(r, n)
		switch r.Intn(3) {
		case 0: // h = a & b, and h or c
			s.add([]int{-h, a})
			s.add([]int{-h, b})
			s.add([]int{h, -a, -b})
			s.add([]int{h, rlit(r, n)})
		case 1: // h splits a clause
			s.add([]int{h, a, b})
			s.add([]int{-h, rlit(r, n), rlit(r, n)})
		case 2:
			s.add([]int{-h, a})
			s.add([]int{h, b})
			if i > 0 {
				s.add([]int{-h, hiddenBase + r.Intn(i), rlit(r, n)})
			}
		}
	}
}

func svCase(c *fw.C) {
	r := c.R
	n := r.Range(2, 12)
	s := svSession(c)
	w := s.g.(*svSolver)
	hid := r.Pick(0, 0, 1, 2, 3, 4, 5, 6)
	hide(s, n, hid)
	if r.Bool() {
		incrOn(s, n, r.Range(3, 15), r.Pick(2, 4))
	} else {
		scopesOn(s, n, r.Range(3, 20))
	}
	if r.Bool() && len(s.scope) == 0 {
		// a copy, with variables of its own
		cw := &svSolver{Sv: w.Sv.SCopy().(inter.Sv), in: map[int]z.Lit{}, c: c, out: map[int]bool{}}
		cw.vs = w.vs.Copy()
		for k, v := range w.in {
			cw.in[k] = v
		}
		t := svSessionOf(c, cw, "copy")
		t.cls = append(cnf{}, s.cls...)
		t.n = s.n
		t.pend = append([]int{}, s.pend...)
		// t's application adds clauses over variables known to both, with
		// what is hidden in the original not moving
		t.solve(0)
		s.solve(0)
		for k := 0; k < 3; k++ {
			s.add(rclause(r, n, 3))
			s.assume(rlit(r, n))
			s.solve(0)
			known := []int{}
			for v := range w.out {
				if v <= n {
					known = append(known, v)
				}
			}
			if len(known) == 0 {
				break
			}
			t.assume(rlit(r, n))
			t.solve(0)
		}
		c.Count("sv_copies", 1)
	}
	obsSession(c, s)
}

// varsCase drives a Vars next to a model of it.
func varsCase(c *fw.C) {
	r := c.R
	type vm struct {
		v    *z.Vars
		o2i  map[z.Var]z.Var
		i2o  map[z.Var]z.Var
		in   map[z.Var]bool
		free map[z.Var]bool
		most int // inner variables in use at one time
	}
	m := &vm{v: z.NewVars(), o2i: map[z.Var]z.Var{}, i2o: map[z.Var]z.Var{}, in: map[z.Var]bool{}, free: map[z.Var]bool{}}
	all := []*vm{m}
	mx := r.Pick(3, 10, 40, 200)
	steps := r.Range(3, 120)
	toInner := func(m *vm, o z.Lit, i z.Lit) {
		if i.IsPos() != o.IsPos() {
			c.Failf("ToInner(%s) = %s: sign lost", o, i)
		}
		if i.Var() == 0 {
			c.Failf("ToInner(%s) is no variable", o)
		}
		if p, ok := m.o2i[o.Var()]; ok && p != i.Var() {
			c.Failf("ToInner(%s) was %s and is now %s", o, p, i.Var())
		}
		if p, ok := m.i2o[i.Var()]; ok && p != o.Var() {
			c.Failf("ToInner maps %s and %s both to %s", p, o.Var(), i.Var())
		}
		if m.in[i.Var()] || m.free[i.Var()] {
			c.Failf("ToInner(%s) = %s, which is an inner variable", o, i)
		}
		m.o2i[o.Var()] = i.Var()
		m.i2o[i.Var()] = o.Var()
	}
	for k := 0; k < steps; k++ {
		m := all[r.Intn(len(all))]
		switch r.Intn(9) {
		case 0, 1:
			o := lit(r.Pick(-1, 1) * r.Range(1, mx))
			c.Logf("ToInner %s", o)
			toInner(m, o, m.v.ToInner(o))
		case 2:
			var os, is []z.Lit
			for j := r.Intn(6); j > 0; j-- {
				os = append(os, lit(r.Pick(-1, 1)*r.Range(1, mx)))
			}
			c.Logf("ToInners %v", os)
			is = m.v.ToInners(append([]z.Lit{}, os...))
			if len(is) != len(os) {
				c.Failf("ToInners changed the number of literals")
			}
			for j := range os {
				toInner(m, os[j], is[j])
			}
		case 3, 4:
			i := m.v.Inner()
			c.Logf("Inner %s", i)
			if i.Var() == 0 || !i.IsPos() {
				c.Failf("Inner gave %s", i)
			}
			if m.in[i.Var()] {
				c.Failf("Inner gave %s twice", i)
			}
			if o, ok := m.i2o[i.Var()]; ok {
				c.Failf("Inner gave %s, which stands for %s", i, o)
			}
			delete(m.free, i.Var())
			m.in[i.Var()] = true
			m.most = max(m.most, len(m.in))
			if len(m.in)+len(m.free) > m.most {
				c.Failf("Inner made %s with %d freed variables at hand", i, len(m.free)+1)
			}
		case 5:
			for _, v := range sortedVars(m.in) {
				if len(m.in) > 1 && r.Bool() {
					continue
				}
				c.Logf("Free %s", v)
				i := v.Pos()
				if r.Bool() {
					i = i.Not()
				}
				m.v.Free(i)
				delete(m.in, v)
				m.free[v] = true
				break
			}
		case 6:
			n := 0
			for o, i := range m.o2i {
				if g := m.v.ToOuter(i.Pos()); g != o.Pos() {
					c.Failf("ToOuter(ToInner(%s)) = %s", o.Pos(), g)
				}
				if g := m.v.ToOuter(i.Neg()); g != o.Neg() {
					c.Failf("ToOuter(ToInner(%s)) = %s", o.Neg(), g)
				}
				n++
			}
			for i := range m.in {
				if g := m.v.ToOuter(i.Neg()); g != z.LitNull {
					c.Failf("ToOuter of the inner %s is %s", i, g)
				}
			}
			for j := 0; j < 3; j++ {
				i := z.Var(r.Range(1, len(m.i2o)+len(m.in)+len(m.free)+1+r.Pick(0, 5, 300)))
				o, ok := m.i2o[i]
				g := m.v.ToOuter(i.Pos())
				if ok && g != o.Pos() || (m.in[i] || m.free[i]) && g != z.LitNull {
					c.Failf("ToOuter(%s) = %s", i.Pos(), g)
				}
				if !ok && g != z.LitNull {
					// the user's variables below one seen are known as well
					toInner(m, g, m.v.ToInner(g))
					if m.o2i[g.Var()] != i {
						c.Failf("ToOuter(%s) = %s, and ToInner of that %s", i.Pos(), g, m.o2i[g.Var()])
					}
				}
				if g == z.LitNull {
					c.Count("vars_unmapped", 1)
				}
			}
			c.Count("vars_audits", 1)
		case 7:
			var is []z.Lit
			var want []z.Lit
			for _, i := range sortedVars(m.i2o) {
				o := m.i2o[i]
				if r.Bool() {
					is = append(is, i.Neg())
					want = append(want, o.Neg())
				}
			}
			for _, i := range sortedVars(m.in) {
				p := r.Intn(len(is) + 1)
				is = append(is[:p:p], append([]z.Lit{i.Pos()}, is[p:]...)...)
			}
			got := m.v.ToOuters(append([]z.Lit{}, is...))
			ok := len(got) == len(want)
			for j := 0; ok && j < len(got); j++ {
				ok = got[j] == want[j]
			}
			if !ok {
				c.Failf("ToOuters(%v) = %v, want %v", is, got, want)
			}
		case 8:
			if len(all) > 3 {
				break
			}
			cp := &vm{v: m.v.Copy(), o2i: map[z.Var]z.Var{}, i2o: map[z.Var]z.Var{}, in: map[z.Var]bool{}, free: map[z.Var]bool{}}
			for a, b := range m.o2i {
				cp.o2i[a] = b
			}
			for a, b := range m.i2o {
				cp.i2o[a] = b
			}
			cp.most = m.most
			for a := range m.in {
				cp.in[a] = true
			}
			for a := range m.free {
				cp.free[a] = true
			}
			all = append(all, cp)
			c.Count("vars_copies", 1)
		}
		c.Obs(uint64(k)<<32 | uint64(len(m.o2i))<<16 | uint64(len(m.in)))
	}
}

// litCase: the encodings, on values near every power of two and random ones.
func litCase(c *fw.C) {
	r := c.R
	h := uint64(0)
	for k := 0; k < 2000; k++ {
		d := r.Intn(1 << uint(r.Range(1, 30)))
		switch {
		case k < 31:
			d = 1<<uint(k) - 1
		case k < 62:
			d = 1 << uint(k-31)
		case k == 62:
			d = math.MaxInt32
		}
		if d > math.MaxInt32 {
			continue
		}
		if d == 0 {
			if z.Dimacs2Lit(0) != z.LitNull {
				c.Failf("Dimacs2Lit(0) = %v", z.Dimacs2Lit(0))
			}
			continue
		}
		h = fw.HashInts(h, d)
		p, q := z.Dimacs2Lit(d), z.Dimacs2Lit(-d)
		v := z.Var(d)
		if p.Dimacs() != d || q.Dimacs() != -d || p.Var() != v || q.Var() != v || v.Pos() != p || v.Neg() != q ||
			p.Not() != q || q.Not() != p || p.Sign() != 1 || q.Sign() != -1 || !p.IsPos() || q.IsPos() || p == q ||
			p == z.LitNull || q == z.LitNull {
			c.Failf("encodings of %d: %d %d", d, uint32(p), uint32(q))
		}
		c.Count("literals", 2)
	}
	c.Obs(h)
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C09",
		Rule: "vars: random histories of ToInner, ToInners, ToOuter, ToOuters, Inner, Free and Copy next to a map model; " +
			"sv: histories over an Sv whose application hides variables behind definitions, judged over the user's variables by the reference solver; " +
			"lits: literal encodings near powers of two and at random; distinct by operations and sizes, or clauses",
		Need: []string{"vars_audits", "sat", "unsat", "sv_copies", "literals"},
		Workloads: []fw.Workload{
			{Name: "vars", Quick: 120000, Thorough: 400000, Fn: varsCase},
			{Name: "sv", Quick: 120000, Thorough: 400000, Fn: svCase},
			{Name: "deep", Quick: 200, Thorough: 6000, Fn: deepScopes},
			{Name: "wide", Quick: 12, Thorough: 300, Fn: wideSolves},
			{Name: "lits", Quick: 50, Thorough: 5000, Fn: litCase},
		},
	})
}

func sortedVars[T any](m map[z.Var]T) []z.Var {
	var ks []z.Var
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}
