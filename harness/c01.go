package main

import (
	"strings"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
	"verif/harness/ref"
)

func lit(l int) z.Lit { return z.Dimacs2Lit(l) }

func lits(ls []int) []z.Lit {
	r := make([]z.Lit, len(ls))
	for i, l := range ls {
		r[i] = lit(l)
	}
	return r
}

func ints(ms []z.Lit) []int {
	r := make([]int, len(ms))
	for i, m := range ms {
		r[i] = m.Dimacs()
	}
	return r
}

func addClause(g inter.Adder, c []int) {
	for _, l := range c {
		g.Add(lit(l))
	}
	g.Add(z.LitNull)
}

// construct builds a solver holding f through one of the public entry points.
func construct(c *fw.C, f cnf) *gini.Gini {
	r := c.R
	var g *gini.Gini
	how := r.Intn(5)
	switch how {
	case 0:
		g = gini.New()
	case 1:
		g = gini.NewV(r.Pick(1, 2, 3, 4, 7, 8, 16, 31, 200))
	case 2:
		g = gini.NewVc(r.Pick(1, 3, 5, 10, 64), r.Pick(1, 2, 3, 10, 1000))
	case 3:
		g = gini.New()
		// declare variables first
		for k := r.Intn(20); k > 0; k-- {
			g.Lit()
		}
	case 4:
		n := maxvar(f)
		gg, e := gini.NewDimacs(strings.NewReader(f.dimacs(n)))
		if e != nil {
			c.Failf("NewDimacs rejected a well formed input: %v\n%s", e, f.dimacs(n))
		}
		c.Logf("constructor: NewDimacs")
		return gg
	}
	c.Logf("constructor: %d", how)
	for _, cl := range f {
		addClause(g, cl)
	}
	return g
}

// checkModel is the monitor on a satisfiable answer.
func checkModel(c *fw.C, g inter.Model, f cnf, as []int, what string) {
	for _, cl := range f {
		ok := false
		for _, l := range cl {
			if g.Value(lit(l)) {
				ok = true
				break
			}
		}
		if !ok {
			c.Failf("%s: answered satisfiable but clause %v is false in the reported model", what, cl)
		}
	}
	for _, a := range as {
		if !g.Value(lit(a)) {
			c.Failf("%s: answered satisfiable but assumption %d is false in the reported model", what, a)
		}
	}
	n := maxvar(f)
	if mv, ok := g.(inter.MaxVar); ok && int(mv.MaxVar()) < n {
		n = int(mv.MaxVar())
	}
	for _, cl := range f {
		for _, l := range cl {
			if abs(l) <= n && g.Value(lit(l)) == g.Value(lit(-l)) {
				c.Failf("%s: variable %d has both or no polarity in the model", what, abs(l))
			}
		}
	}
}

func solveOnce(c *fw.C, g *gini.Gini, how int) int {
	switch how {
	case 1:
		return g.Try(10 * time.Minute)
	case 2:
		return g.GoSolve().Wait()
	default:
		return g.Solve()
	}
}

func c01check(c *fw.C, f cnf, want bool) {
	if len(f) <= 400 {
		c.Logf("cnf: %s", f)
	}
	g := construct(c, f)
	reps := 1
	if c.R.P(1, 3) {
		reps = 2 + c.R.Intn(2)
	}
	for k := 0; k < reps; k++ {
		how := c.R.Pick(0, 0, 0, 0, 0, 0, 1, 2)
		res := solveOnce(c, g, how)
		c.Logf("solve#%d how=%d -> %d", k, how, res)
		if res != 1 && res != -1 {
			c.Failf("solve #%d (how %d) returned %d without having been stopped", k, how, res)
		}
		if (res == 1) != want {
			c.Failf("solve #%d answered %d, the clauses are satisfiable: %v; cnf %s", k, res, want, f)
		}
		if res == 1 {
			c.Count("sat", 1)
			checkModel(c, g, f, nil, "solve")
		} else {
			c.Count("unsat", 1)
			if w := g.Why(nil); len(w) != 0 {
				c.Failf("no assumptions were made but Why gives %v", ints(w))
			}
		}
	}
	if int(g.MaxVar()) < maxvar(f) {
		c.Failf("MaxVar %d below a used variable %d", g.MaxVar(), maxvar(f))
	}
	if len(f) > 2 {
		c.Obs(f.hash())
	}
}

func init() {
	fw.Register(&fw.Prop{
		ID:   "C01",
		Rule: "CNFs from seeded generators (messy small, k-SAT at the threshold, parity, pigeonhole, colouring, adder miters, planted, wide clauses, sparse numberings), loaded through every constructor and solved 1-3 times; the answer is compared with an independent CDCL solver (enumeration for <=12 variables) and every model is evaluated on every clause. Non-trivial: more than two clauses, counted by distinct formula.",
		Need: []string{"sat", "unsat", "huge_words"},
		Workloads: []fw.Workload{
			{Name: "small", Quick: 60000, Thorough: 1500000, Fn: func(c *fw.C) {
				f, n := smallCnf(c.R)
				want := false
				if n <= 9 {
					want, _ = ref.Brute(f, nil)
				} else {
					want = ref.Sat(f)
				}
				f, _ = rename(c.R, f, n)
				c01check(c, f, want)
				if c.Index%5000 == 0 {
					c.Sample("small: %s -> sat=%v", f, want)
				}
			}},
			{Name: "medium", Quick: 3000, Thorough: 60000, Fn: func(c *fw.C) {
				r := c.R
				var f cnf
				n := 0
				switch r.Intn(7) {
				case 0:
					n = r.Range(30, 130)
					f = randK(r, n, n*r.Range(38, 47)/10, 3)
				case 1:
					n = r.Range(20, 60)
					f = randK(r, n, n*r.Range(85, 105)/10, 4)
				case 2:
					n = r.Range(10, 38)
					f = parity(r, n, r.Range(n/2, n+3))
				case 3:
					k := r.Range(3, 20)
					nn := r.Range(4, 25)
					f = coloring(r, nn, nn*k*r.Range(3, 9)/10, k)
				case 4:
					f = adderMiter(r, r.Range(2, 7), r.Bool())
				case 5:
					n = r.Range(50, 200)
					f = planted(r, n, n*r.Range(30, 60)/10, r.Range(3, 5))
				case 6: // wide clauses around the 5 bit size modulus
					n = r.Range(40, 120)
					for i := r.Range(20, 300); i > 0; i-- {
						f = append(f, rclause(r, n, r.Pick(2, 2, 2, 3, 3, 30, 31, 32, 33, 34, 62, 63, 64, 65)))
					}
				}
				n = maxvar(f)
				want := ref.Sat(f)
				f, _ = rename(r, f, n)
				c01check(c, f, want)
			}},
			{Name: "huge", Quick: 3, Thorough: 24, Fn: hugeMany},
			{Name: "chain", Quick: 6, Thorough: 60, Fn: hugeChain},
			{Name: "hard", Quick: 48, Thorough: 1200, Fn: func(c *fw.C) {
				r := c.R
				var f cnf
				var want bool // known by construction where possible
				switch c.Index % 6 {
				case 0, 1:
					n := r.Range(160, 220)
					f = randK(r, n, n*426/100, 3)
					want = ref.Sat(f)
				case 2:
					h := r.Range(8, 9)
					f = php(h+1, h)
				case 3:
					f = mulMiter(r, r.Range(5, 7), false)
				case 4:
					n := r.Range(36, 46)
					f, want = paritySys(r, n, n+r.Intn(3))
				case 5:
					n := r.Range(2000, 12000)
					f = planted(r, n, n*r.Range(30, 36)/10, 3)
					want = true
				}
				c01check(c, f, want)
				c.Count("hard", 1)
			}},
		},
	})
}
