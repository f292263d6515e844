package main

import (
	"fmt"

	"github.com/go-air/gini"
	"github.com/go-air/gini/gen"
	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
)

// parParts are cases of other checks which use objects of their own.
var parParts = []struct {
	w string
	n int // of them in a row
	f func(*fw.C)
}{
	{"small", 6, func(c *fw.C) {
		s := newSession(c, newGini(c.R), "g")
		n := c.R.Range(2, 12)
		for k := c.R.Range(0, 5*n); k > 0; k-- {
			s.add(messyClause(c.R, n))
		}
		s.solve(how(c.R))
		obsSession(c, s)
	}},
	{"incr", 4, func(c *fw.C) {
		n := c.R.Range(1, 12)
		obsSession(c, incr(c, n, c.R.Range(0, 20), c.R.Pick(2, 4, n+1)))
	}},
	{"scopes", 4, func(c *fw.C) { obsSession(c, chains(c)) }},
	{"acts", 3, func(c *fw.C) {
		obsSession(c, activations(c, c.R.Range(2, 12), c.R.Range(5, 60), c.R.Range(0, 25), false))
	}},
	{"mix", 3, func(c *fw.C) {
		n := c.R.Range(2, 14)
		s := mixSession(c, n, c.R.Intn(4*n))
		for i := c.R.Range(5, 30); i > 0; i-- {
			mixStep(s, n)
		}
		obsSession(c, s)
	}},
	{"vars", 4, varsCase},
	{"sv", 4, svCase},
	{"read", 6, cnfRead},
	{"icnf", 6, func(c *fw.C) {
		txt, want := icnfText(c.R)
		textCase(c, txt, want, icnfRead, specICnf)
	}},
	{"solve", 6, func(c *fw.C) {
		txt, want := solveText(c.R)
		textCase(c, txt, want, solveRead, nil)
	}},
	{"filter", 4, filterCase},
	{"circuits", 6, circCase},
	{"cnf", 4, cnfCase},
	{"card", 4, cardCase},
	{"seq", 4, seqCase},
	{"write", 4, aigWrite},
	{"read", 4, aigRead},
	{"php", 2, genPhp},
	{"color", 3, genColor},
	{"graph", 3, genGraph},
	{"cycle", 3, genCycle},
	{"rand3p", 2, func(c *fw.C) {
		a := &adder{}
		gen.Rand3Cnf(a, c.R.Range(3, 40), c.R.Range(0, 200))
		a.done(c, "Rand3Cnf")
	}},
}

func parMixed(c *fw.C) {
	k := c.R.Range(2, 5)
	c.Par(k, func(i int, c *fw.C) {
		c.MuteKeys = true
		for j := c.R.Range(2, 5); j > 0; j-- {
			p := parParts[c.R.Intn(len(parParts))]
			c.W = p.w
			for m := p.n; m > 0; m-- {
				p.f(c)
			}
			c.Count("part."+p.w, p.n)
		}
	})
}

// parCopies: a solver and copies of it at once.
func parCopies(c *fw.C) {
	n := c.R.Range(2, 14)
	learn := c.W == "copies-learn"
	if learn {
		n = c.R.Range(40, 80)
	}
	s := mixSession(c, n, c.R.Intn(4*n)+n)
	for i := c.R.Range(0, 25); i > 0; i-- {
		mixStep(s, n)
	}
	ss := []*session{s}
	for i := c.R.Range(1, 4); i > 0; i-- {
		o := ss[c.R.Intn(len(ss))]
		ss = append(ss, o.fork(copyOf(c.R, o), fmt.Sprintf("copy%d", i)))
		c.Count("copies", 1)
	}
	steps := c.R.Range(10, 40)
	c.Par(len(ss), func(i int, c *fw.C) {
		s := ss[i]
		s.c, s.r = c, c.R
		var subs []*session
		for j := steps; j > 0; j-- {
			mixStep(s, n)
			if c.R.P(1, 20) {
				t := s.fork(copyOf(c.R, s), s.name+"'")
				t.r = c.R.Fork()
				subs = append(subs, t)
			}
			if len(subs) > 0 && c.R.Bool() {
				mixStep(subs[c.R.Intn(len(subs))], n)
			}
		}
		obsSession(c, s)
	})
}

// parCircuits: a circuit and copies of it at once: each grows, is evaluated,
// and becomes clauses of a solver.
func parCircuits(c *fw.C) {
	r := c.R
	p := newParCirc(logic.NewC())
	p.grow(c, r.Range(1, 40))
	ps := []*parCirc{p}
	for i := r.Range(1, 4); i > 0; i-- {
		ps = append(ps, ps[r.Intn(len(ps))].copy())
		c.Count("circuit_copies", 1)
	}
	c.Par(len(ps), func(i int, c *fw.C) {
		p := ps[i]
		for j := c.R.Range(1, 5); j > 0; j-- {
			p.grow(c, c.R.Range(1, 40))
			p.check(c)
		}
		c.Obs(c.R.Uint64())
	})
}

// parCirc is a circuit and what each literal made means, under 64 patterns.
type parCirc struct {
	c    *logic.C
	ms   []z.Lit
	vals []uint64
	ins  []int
}

func newParCirc(c *logic.C) *parCirc {
	return &parCirc{c: c, ms: []z.Lit{c.T}, vals: []uint64{^uint64(0)}}
}

func (p *parCirc) copy() *parCirc {
	return &parCirc{c: p.c.Copy(), ms: append([]z.Lit{}, p.ms...), vals: append([]uint64{}, p.vals...), ins: append([]int{}, p.ins...)}
}

func (p *parCirc) grow(c *fw.C, n int) {
	r := c.R
	pick := func() (z.Lit, uint64) {
		i := r.Intn(len(p.ms))
		if r.Bool() {
			return p.ms[i].Not(), ^p.vals[i]
		}
		return p.ms[i], p.vals[i]
	}
	for ; n > 0; n-- {
		a, x := pick()
		b, y := pick()
		var m z.Lit
		var v uint64
		switch r.Intn(6) {
		case 0:
			m, v = p.c.Lit(), r.Uint64()
			p.ins = append(p.ins, len(p.ms))
		case 1:
			m, v = p.c.Or(a, b), x|y
		case 2:
			m, v = p.c.Xor(a, b), x^y
		case 3:
			d, w := pick()
			m, v = p.c.Choice(a, b, d), x&y|^x&w
		default:
			m, v = p.c.And(a, b), x&y
		}
		p.ms, p.vals = append(p.ms, m), append(p.vals, v)
	}
}

func (p *parCirc) check(c *fw.C) {
	vs := make([]uint64, p.c.Len())
	for _, i := range p.ins {
		vs[p.ms[i].Var()] = p.vals[i]
	}
	p.c.Eval64(vs)
	for i, m := range p.ms {
		v := vs[m.Var()]
		if !m.IsPos() {
			v = ^v
		}
		if v != p.vals[i] {
			c.Failf("literal %s has value %x, must be %x", m, v, p.vals[i])
		}
	}
	c.Count("gates", len(p.ms))
	// the clauses, under one of the patterns
	g := gini.New()
	p.c.ToCnf(g)
	b := uint(c.R.Intn(64))
	for _, i := range p.ins {
		m := p.ms[i]
		if p.vals[i]>>b&1 == 0 {
			m = m.Not()
		}
		g.Assume(m)
	}
	g.Assume(p.c.T)
	if g.Solve() != 1 {
		c.Failf("the clauses of a circuit have no model under values for its inputs")
	}
	for i, m := range p.ms {
		if g.Value(m) != (p.vals[i]>>b&1 == 1) {
			c.Failf("literal %s has value %v in the model", m, g.Value(m))
		}
	}
	c.Count("circuit_models", 1)
}

func init() {
	fw.Register(&fw.Prop{ID: "C25", Race: true,
		Rule: "several goroutines use objects of their own at once: random cases of the other checks (mixed), a solver and its copies (copies, copies-learn), a circuit and its copies (circuits), each with its own monitors, under the race detector",
		Workloads: []fw.Workload{
			{Name: "mixed", Quick: 700, Thorough: 40000, Fn: parMixed},
			{Name: "copies", Quick: 1000, Thorough: 60000, Fn: parCopies},
			{Name: "copies-learn", Quick: 40, Thorough: 2000, Fn: parCopies},
			{Name: "copies-xor", Quick: 60, Thorough: 3000, Fn: xorParallel},
			{Name: "circuits", Quick: 500, Thorough: 30000, Fn: parCircuits},
		},
		Need: []string{"copies", "circuit_copies", "sat", "unsat", "gates"},
	})
}
