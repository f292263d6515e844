package main

import (
	"verif/harness/fw"
)

// chains: assumptions which fail far away, through long implication chains
// mixed with irrelevant ones, at level 0 or after search.
func chains(c *fw.C) *session {
	r := c.R
	g := newGini(r)
	s := newSession(c, g, "g")
	k := r.Range(1, 5)   // chains
	ln := r.Range(1, 25) // their length
	noise := r.Range(0, 8)
	id := func(ch, i int) int { return 1 + ch*(ln+1) + i }
	sg := make([]int, k*(ln+1)+noise+1)
	for i := range sg {
		sg[i] = r.Pick(-1, 1)
	}
	L := func(v int) int { return v * sg[v] }
	var f cnf
	for ch := 0; ch < k; ch++ {
		for i := 0; i < ln; i++ {
			cl := []int{-L(id(ch, i)), L(id(ch, i+1))}
			if r.P(1, 6) && ch > 0 { // needs a step of the chain before too
				cl = append(cl, -L(id(ch-1, r.Intn(ln+1))))
			}
			f = append(f, cl)
		}
	}
	var end []int
	for ch := 0; ch < k; ch++ {
		end = append(end, -L(id(ch, ln)))
	}
	f = append(f, end)
	if r.P(1, 4) { // make the end a small search instead of a propagation
		nb, pn := k*(ln+1)+noise, r.Range(3, 7)
		f = f[:len(f)-1]
		for _, cl := range parity(r, pn, pn+r.Intn(5)).shift(nb) {
			f = append(f, append(append([]int{}, end...), cl...))
		}
	}
	for i := len(f) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		f[i], f[j] = f[j], f[i]
	}
	for _, cl := range f {
		s.add(cl)
	}
	for q := r.Range(1, 4); q > 0; q-- {
		var as []int
		for ch := 0; ch < k; ch++ {
			if !r.P(1, 8) {
				as = append(as, L(id(ch, r.Pick(0, 0, r.Intn(ln+1)))))
			}
			for r.P(1, 3) {
				as = append(as, L(id(ch, r.Intn(ln+1))))
			}
		}
		for i := 0; i < noise; i++ {
			as = append(as, r.Pick(-1, 1)*(k*(ln+1)+1+i))
		}
		if r.P(1, 5) && len(as) > 0 {
			as = append(as, -as[r.Intn(len(as))])
		}
		for i := len(as) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			as[i], as[j] = as[j], as[i]
		}
		if r.P(1, 3) {
			h := r.Intn(len(as) + 1)
			s.assume(as[:h]...)
			s.test()
			if !s.dead {
				s.assume(as[h:]...)
				if r.Bool() {
					s.test()
				} else {
					s.solve(0)
				}
			}
			for len(s.scope) > 0 {
				s.pendDrop()
				s.untest()
			}
			continue
		}
		s.assume(as...)
		s.solve(how(r))
		if r.P(1, 5) {
			s.add([]int{r.Pick(-1, 1) * r.Range(1, k*(ln+1))})
		}
	}
	return s
}

func (f cnf) shift(n int) cnf {
	var g cnf
	for _, c := range f {
		d := make([]int, len(c))
		for i, l := range c {
			if l > 0 {
				d[i] = l + n
			} else {
				d[i] = l - n
			}
		}
		g = append(g, d)
	}
	return g
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C03",
		Rule: "a case is a history of adds, assumptions, Test, Untest, activations and Solve on random, chained or hard clauses; " +
			"every -1 is followed by Why, whose literals must be a subset of those assumed and unsatisfiable with the clauses (decided by the reference solver); " +
			"non-trivial: at least two clauses and an answer; distinct by the clauses",
		Need: []string{"why", "why_multi", "why_proper_subset", "test_unsat"},
		Workloads: []fw.Workload{
			{Name: "chains", Quick: 24000, Thorough: 400000, Fn: func(c *fw.C) { obsSession(c, chains(c)) }},
			{Name: "incr", Quick: 40000, Thorough: 600000, Fn: func(c *fw.C) {
				n := c.R.Range(2, 14)
				obsSession(c, incr(c, n, c.R.Range(6, 30), c.R.Pick(2, 4, n+1)))
			}},
			{Name: "scopes", Quick: 24000, Thorough: 400000, Fn: func(c *fw.C) {
				scopes(c, c.R.Range(2, 14), c.R.Range(5, 40))
			}},
			{Name: "acts", Quick: 16000, Thorough: 300000, Fn: func(c *fw.C) {
				obsSession(c, activations(c, c.R.Range(2, 12), c.R.Range(5, 60), c.R.Range(0, 25), false))
			}},
			{Name: "xor", Quick: 600, Thorough: 3000, Fn: xorPlain},
			{Name: "wide", Quick: 12, Thorough: 300, Fn: wideSolves},
			{Name: "cubes", Quick: 400, Thorough: 5000, Fn: func(c *fw.C) {
				bigIncr(c, c.R.Range(40, 110), c.R.Range(10, 60))
			}},
		},
	})
}
