package main

import (
	"github.com/go-air/gini"
	"verif/harness/fw"
)

// hugeMany is a set of millions of clauses, with one model when all the units
// are given; the answers follow from how it is made.
func hugeMany(c *fw.C) {
	r := c.R
	n := r.Range(20000, 400000)
	words := r.Range(1<<24, 1<<24+1<<22)
	truth := make([]bool, n+1)
	for v := range truth {
		truth[v] = r.Bool()
	}
	of := func(v int, t bool) int {
		if truth[v] == t {
			return v
		}
		return -v
	}
	var flat []int32
	g := gini.New()
	if r.Bool() {
		g = gini.NewVc(n+1, words/5)
	}
	add := func(cl ...int) {
		for _, l := range cl {
			g.Add(lit(l))
			flat = append(flat, int32(l))
		}
		g.Add(0)
		flat = append(flat, 0)
	}
	// what the clauses take: a head, the literals, an end
	w := 0
	var buf [40]int
	for k := 0; w < words; k++ {
		sz := r.Pick(2, 2, 3, 3, 3, 4, 5, 33)
		if k%64 != 0 && sz == 33 {
			sz = 3
		}
		cl := buf[:sz]
		t := r.Intn(sz)
		for i := range cl {
			cl[i] = of(1+r.Intn(n), i == t || r.Bool())
		}
		add(cl...)
		w += sz + 2
		if k%(1<<20) == 0 {
			fw.Progress()
		}
	}
	c.Count("huge_words", w)
	// the values of most variables, last
	skip := r.Pick(0, 0, 10, 100)
	for _, v := range r.Perm(n) {
		if v > 0 && v >= skip {
			add(of(v, true))
		}
	}
	add(of(n, true))
	fw.Progress()
	check := func(what string) {
		if res := g.Solve(); res != 1 {
			c.Failf("%s: answered %d, the %d clauses have a model", what, res, w)
		}
		c.Count("sat", 1)
		ok := false
		for _, l := range flat {
			if l == 0 {
				if !ok {
					c.Failf("%s: a clause is false in the model", what)
				}
				ok = false
				continue
			}
			ok = ok || g.Value(lit(int(l)))
		}
		if skip == 0 {
			for v := 1; v <= n; v++ {
				if g.Value(lit(v)) != truth[v] {
					c.Failf("%s: variable %d has the wrong value", what, v)
				}
			}
		}
		fw.Progress()
	}
	check("huge")
	// late clauses do what they say
	v, u := 1+r.Intn(n), 1+r.Intn(n)
	add(of(v, false), of(u, true))
	check("huge, with more")
	if skip == 0 {
		add(of(v, false), of(u, false))
		if res := g.Solve(); res != -1 {
			c.Failf("huge: answered %d, it has no model", res)
		}
		c.Count("unsat", 1)
	}
	c.Obs(uint64(n)<<32 + uint64(w))
}

// hugeChain is a chain of a million implications, and what is decided by it.
func hugeChain(c *fw.C) {
	r := c.R
	n := r.Range(200000, 600000)
	more := r.P(1, 3)
	if more { // with choices left, it takes longer
		n = r.Range(5000, 30000)
	}
	p := r.Perm(n)
	x := func(i int) int { // the i'th of the chain
		if l := p[i] + 1; (i*2654435761>>7)&1 == 0 {
			return l
		} else {
			return -l
		}
	}
	var flat []int32
	g := gini.New()
	add := func(cl ...int) {
		for _, l := range cl {
			g.Add(lit(l))
			flat = append(flat, int32(l))
		}
		g.Add(0)
		flat = append(flat, 0)
	}
	back := r.Bool() // equivalences
	for i := 0; i+1 < n; i++ {
		switch {
		case more && i > 2 && r.P(1, 3): // one more, which does not matter, or does
			add(-x(i), x(i+1), -x(i-1-r.Intn(2)))
		default:
			add(-x(i), x(i+1))
		}
		if back && !more {
			add(x(i), -x(i+1))
		}
	}
	fw.Progress()
	model := func(what string) {
		if res := g.Solve(); res != 1 {
			c.Failf("%s: answered %d, there is a model", what, res)
		}
		c.Count("sat", 1)
		ok := false
		for _, l := range flat {
			if l == 0 {
				if !ok {
					c.Failf("%s: a clause is false in the model", what)
				}
				ok = false
				continue
			}
			ok = ok || g.Value(lit(int(l)))
		}
		fw.Progress()
	}
	model("chain")
	none := func(as ...int) {
		g.Assume(lits(as)...)
		if res := g.Solve(); res != -1 {
			c.Failf("chain under %v: answered %d", as, res)
		}
		why := ints(g.Why(nil))
		have := map[int]bool{}
		for _, m := range why {
			have[m] = true
		}
		if len(why) != len(as) {
			c.Failf("chain under %v: failed assumptions %v", as, why)
		}
		for _, m := range as {
			if !have[m] {
				c.Failf("chain under %v: failed assumptions %v", as, why)
			}
		}
		c.Count("unsat", 1)
		fw.Progress()
	}
	// each follows from the first
	j := n - 1 - r.Intn(n/3)
	none(x(0), -x(j))
	model("chain again")
	add(x(0))
	model("chain, decided")
	add(-x(j))
	if res := g.Solve(); res != -1 {
		c.Failf("chain, both ways: answered %d", res)
	}
	c.Obs(uint64(n))
}

// hugeActs is of millions of clauses, many of them activated, and taken back
// in turn.
func hugeActs(c *fw.C) {
	r := c.R
	n := r.Range(20000, 200000)
	truth := make([]bool, n+1)
	for v := range truth {
		truth[v] = r.Bool()
	}
	of := func(v int, t bool) int {
		if truth[v] == t {
			return v
		}
		return -v
	}
	g := gini.New()
	for v := 0; v < n; v++ {
		g.Lit()
	}
	type group struct {
		m    int
		flat []int32
		bad  bool
	}
	words := 0
	free := r.Range(50, 500) // whose values are not given
	late := false
	give := func(gr *group, sz int, bad bool) {
		t := r.Intn(sz)
		for i := 0; i < sz; i++ {
			v := 1 + r.Intn(n)
			if late && !r.P(1, 8) {
				v = 1 + r.Intn(free)
			}
			if bad {
				v = free + 1 + r.Intn(n-free)
			}
			for again := true; again; { // no variable twice
				again = false
				for _, o := range gr.flat[len(gr.flat)-i:] {
					if abs(int(o)) == v {
						if v, again = v+1, true; v > n {
							v = free + 1
						}
					}
				}
			}
			l := of(v, !bad && (i == t || r.Bool()))
			g.Add(lit(l))
			gr.flat = append(gr.flat, int32(l))
		}
		gr.flat = append(gr.flat, 0)
		words += sz + 3
		if gr.m == 0 {
			g.Add(0)
		} else {
			g.ActivateWith(lit(gr.m))
		}
	}
	fill := func(gr *group, k int) {
		for k += words; words < k; {
			give(gr, r.Pick(2, 2, 3, 3, 4), false)
		}
		fw.Progress()
	}
	base := &group{}
	fill(base, r.Pick(0, 1<<22, 1<<23, 1<<24))
	var gs []*group
	open := func(k int) *group {
		gr := &group{m: g.ActivationLit().Dimacs()}
		for _, o := range gs {
			if o.m == gr.m {
				c.Failf("activation literal %d is handed out twice", gr.m)
			}
		}
		if gr.m <= n {
			c.Failf("activation literal %d is a variable of the clauses", gr.m)
		}
		fill(gr, k)
		gs = append(gs, gr)
		return gr
	}
	for k := r.Range(4, 10); k > 0; k-- {
		gr := open(r.Range(1<<18, 1<<22))
		if r.P(1, 3) {
			gr.bad = true
			give(gr, 3, true)
			give(gr, 4, false)
		}
	}
	if words < 1<<24 {
		open(1<<24 - words)
	}
	for _, v := range r.Perm(n) {
		if v >= free {
			g.Add(lit(of(v+1, true)))
			g.Add(0)
		}
	}
	late = true
	fw.Progress()
	c.Count("huge_words", words)
	check := func() {
		var as []int
		bad := map[int]bool{}
		on := []*group{base}
		for _, gr := range gs {
			if gr.bad && r.P(1, 2) || !gr.bad && r.P(3, 4) {
				as = append(as, gr.m)
				on = append(on, gr)
				if gr.bad {
					bad[gr.m] = true
				}
			}
		}
		g.Assume(lits(as)...)
		res := g.Solve()
		if len(bad) > 0 != (res == -1) || res == 0 {
			c.Failf("under the groups %v, of which %v cannot hold: answered %d", as, bad, res)
		}
		if res == -1 {
			c.Count("unsat", 1)
			why := ints(g.Why(nil))
			if len(why) != 1 || !bad[why[0]] {
				c.Failf("under the groups %v, of which %v cannot hold: failed assumptions %v", as, bad, why)
			}
			return
		}
		c.Count("sat", 1)
		for _, gr := range on {
			ok := false
			for _, l := range gr.flat {
				if l == 0 {
					if !ok {
						c.Failf("a clause of group %d is false in the model", gr.m)
					}
					ok = false
					continue
				}
				ok = ok || g.Value(lit(int(l)))
			}
		}
		fw.Progress()
	}
	check()
	for k := 0; k < 12; k++ {
		switch {
		case len(gs) > 0 && r.P(2, 3):
			i := r.Intn(len(gs))
			gr := gs[i]
			gs = append(gs[:i], gs[i+1:]...)
			g.Deactivate(lit(gr.m))
			c.Count("deactivations", 1)
		default:
			open(r.Range(1<<12, 1<<20))
		}
		check()
		check()
	}
	c.Obs(uint64(n)<<32 + uint64(words))
}
