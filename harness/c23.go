package main

import (
	"fmt"
	"math/rand"
	"slices"
	"time"

	"github.com/go-air/gini/gen"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
	"verif/harness/ref"
)

// adder records the clauses a generator adds.
type adder struct {
	cls [][]int
	cur []int
}

func (a *adder) Add(m z.Lit) {
	if m == z.LitNull {
		a.cls = append(a.cls, a.cur)
		a.cur = nil
		return
	}
	a.cur = append(a.cur, m.Dimacs())
}

func (a *adder) done(c *fw.C, what string) [][]int {
	if len(a.cur) != 0 {
		c.Failf("%s leaves a clause unended: %v", what, a.cur)
	}
	c.Count("clauses", len(a.cls))
	return a.cls
}

// holds evaluates clauses; vars beyond val are false.
func holds(cls [][]int, val []bool) bool {
	for _, cl := range cls {
		ok := false
		for _, l := range cl {
			v := l
			if v < 0 {
				v = -v
			}
			b := v < len(val) && val[v]
			if (l > 0) == b {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func genPhp(c *fw.C) {
	r := c.R
	P, H := r.Range(0, 5), r.Range(0, 5)
	for P*H > 14 {
		P, H = r.Range(0, 5), r.Range(0, 5)
	}
	a := &adder{}
	gen.Php(a, P, H)
	cls := a.done(c, "Php")
	at := func(val []bool, i, h int) bool { return val[gen.PartVar(i, h, P).Var()] }
	n := P * H
	val := make([]bool, n+1)
	sat := false
	for x := 0; x < 1<<uint(n); x++ {
		for i := range val {
			val[i] = i > 0 && x>>uint(i-1)&1 == 1
		}
		want := true
		for i := 0; i < P; i++ {
			any := false
			for h := 0; h < H; h++ {
				any = any || at(val, i, h)
				for j := 0; j < i; j++ {
					if at(val, i, h) && at(val, j, h) {
						want = false
					}
				}
			}
			want = want && any
		}
		if holds(cls, val) != want {
			c.Failf("Php(%d,%d) is %t for %v, which places the pigeons: %t", P, H, !want, val, want)
		}
		sat = sat || want
	}
	if sat != (P <= H) {
		c.Failf("harness: pigeons")
	}
	c.Count("assignments", 1<<uint(n))
	c.Obs(uint64(P*100 + H))
}

// genBig is about pigeons and parts too many to go through all valuations.
func genBig(c *fw.C) {
	r := c.R
	n, k := r.Range(1, r.Pick(10, 40, 90)), r.Range(1, r.Pick(6, 12, 40))
	php := r.Bool()
	if php && r.P(3, 4) && n > k {
		n, k = k, n
	}
	a := &adder{}
	what := "Partition"
	if php {
		what = "Php"
		gen.Php(a, n, k)
	} else {
		gen.Partition(a, n, k)
	}
	cls := a.done(c, what)
	seen := map[z.Lit]bool{}
	at := make([][]z.Lit, n)
	for i := range at {
		for p := 0; p < k; p++ {
			m := gen.PartVar(i, p, n)
			if seen[m] || !m.IsPos() || m.Var() < 1 || int(m.Var()) > n*k {
				c.Failf("PartVar(%d,%d,%d) is %s", i, p, n, m)
			}
			seen[m] = true
			at[i] = append(at[i], m)
		}
	}
	val := make([]bool, n*k+1)
	where := make([]int, n)
	for q := 0; q < 6; q++ {
		for i := range val {
			val[i] = false
		}
		perm := r.Perm(k)
		for i := range where {
			where[i] = r.Intn(k)
			if php && n <= k {
				where[i] = perm[i]
			}
			val[at[i][where[i]].Var()] = true
		}
		if want := !php || n <= k; holds(cls, val) != want {
			c.Failf("%s(%d,%d) is %t for %v", what, n, k, !want, where)
		}
		for j := 0; j < 20; j++ {
			i := r.Intn(n)
			v, p := at[i][where[i]].Var(), r.Intn(k)
			u := at[i][p].Var()
			val[v] = false
			if holds(cls, val) {
				c.Failf("%s(%d,%d) holds with %d nowhere", what, n, k, i)
			}
			val[v] = true
			if p == where[i] || php && n > k {
				continue
			}
			val[u] = true // in two places
			want := php
			for h := range where {
				if h != i && where[h] == p {
					want = false
				}
			}
			if holds(cls, val) != want {
				c.Failf("%s(%d,%d) is %t with %d at %d and %d of %v", what, n, k, !want, i, where[i], p, where)
			}
			if php { // moved, perhaps to where another is
				val[v] = false
				if holds(cls, val) != want {
					c.Failf("%s(%d,%d) is %t with %d moved to %d of %v", what, n, k, !want, i, p, where)
				}
				val[v] = true
			}
			val[u] = false
			c.Count("assignments", 3)
		}
	}
	c.Obs(uint64(n*1000 + k))
}

func genPart(c *fw.C) {
	r := c.R
	n, k := r.Range(0, 6), r.Range(0, 5)
	for n*k > 14 {
		n, k = r.Range(0, 6), r.Range(0, 5)
	}
	a := &adder{}
	gen.Partition(a, n, k)
	cls := a.done(c, "Partition")
	seen := map[z.Lit]bool{}
	for i := 0; i < n; i++ {
		for p := 0; p < k; p++ {
			m := gen.PartVar(i, p, n)
			if seen[m] || !m.IsPos() || m.Var() < 1 || int(m.Var()) > n*k {
				c.Failf("PartVar(%d,%d,%d) is %s", i, p, n, m)
			}
			seen[m] = true
		}
	}
	val := make([]bool, n*k+1)
	for x := 0; x < 1<<uint(n*k); x++ {
		for i := range val {
			val[i] = i > 0 && x>>uint(i-1)&1 == 1
		}
		want := true
		for i := 0; i < n; i++ {
			ct := 0
			for p := 0; p < k; p++ {
				if val[gen.PartVar(i, p, n).Var()] {
					ct++
				}
			}
			want = want && ct == 1
		}
		if holds(cls, val) != want {
			c.Failf("Partition(%d,%d) is %t for %v, which is a partition: %t", n, k, !want, val, want)
		}
	}
	c.Count("assignments", 1<<uint(n*k))
	c.Obs(uint64(n*100 + k))
}

type trip struct{ a, b, c int }

func isqrt(v int) int {
	lo, hi := 0, 1<<20
	for lo < hi {
		m := (lo + hi) / 2
		if m*m < v {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if lo*lo == v {
		return lo
	}
	return -1
}

// triples of 1..n, by b, then a
func tripsTo(n int) []trip {
	var r []trip
	for b := 2; b <= n; b++ {
		for a := 1; a < b; a++ {
			if x := isqrt(a*a + b*b); x > 0 && x <= n {
				r = append(r, trip{a, b, x})
			}
		}
	}
	return r
}

// the first n triples by b, then a
func tripsFirst(n int) []trip {
	var r []trip
	for b := 2; len(r) < n; b++ {
		for a := 1; a < b && len(r) < n; a++ {
			if x := isqrt(a*a + b*b); x > 0 {
				r = append(r, trip{a, b, x})
			}
		}
	}
	return r
}

func mono(ts []trip, part func(i int) int) int {
	for i, t := range ts {
		if p := part(t.a); p == part(t.b) && p == part(t.c) {
			return i
		}
	}
	return -1
}

func genPyK(c *fw.C) {
	r := c.R
	n, k := r.Range(1, r.Pick(6, 14, 40, 120)), r.Range(1, 4)
	if r.P(1, 600) {
		n = r.Range(200, 500)
	}
	a := &adder{}
	gen.PyTriples(a, n, k)
	cls := a.done(c, "PyTriples")
	ts := tripsTo(n)
	part := make([]int, n+1)
	val := make([]bool, n*k+1)
	try := func() {
		for i := range val {
			val[i] = false
		}
		for i := 1; i <= n; i++ {
			val[gen.PartVar(i-1, part[i], n).Var()] = true
		}
		want := mono(ts, func(i int) int { return part[i] }) < 0
		if holds(cls, val) != want {
			c.Failf("PyTriples(%d,%d) is %t for the partition %v of 1..%d; it has no triple in one part: %t", n, k, !want, part[1:], n, want)
		}
		c.Count("assignments", 1)
	}
	for q := 0; q < 20; q++ {
		for i := 1; i <= n; i++ {
			part[i] = r.Intn(k)
		}
		// repair most triples, so that single ones decide
		for x := 0; x < 200 && k > 1; x++ {
			j := mono(ts, func(i int) int { return part[i] })
			if j < 0 {
				break
			}
			part[[]int{ts[j].a, ts[j].b, ts[j].c}[r.Intn(3)]] = r.Intn(k)
		}
		try()
		if len(ts) > 0 {
			t := ts[r.Intn(len(ts))]
			part[t.a], part[t.b] = part[t.c], part[t.c]
			try()
		}
		// not a partition
		i := r.Range(1, n)
		try()
		p := gen.PartVar(i-1, part[i], n).Var()
		val[p] = false
		if holds(cls, val) {
			c.Failf("PyTriples(%d,%d) holds where %d is in no part", n, k, i)
		}
		val[p] = true
		if k > 1 {
			val[gen.PartVar(i-1, (part[i]+1)%k, n).Var()] = true
			if holds(cls, val) {
				c.Failf("PyTriples(%d,%d) holds where %d is in two parts", n, k, i)
			}
		}
	}
	c.Obs(uint64(n*10 + k))
}

func genPy2(c *fw.C) {
	r := c.R
	n := r.Range(1, r.Pick(6, 14, 60, 200))
	if r.P(1, 1000) {
		n = r.Range(300, 1000)
	}
	a := &adder{}
	gen.Py2Triples(a, n)
	cls := a.done(c, "Py2Triples")
	ts, first := tripsTo(n), tripsFirst(n)
	mx := maxvar(cls)
	if mx < n {
		mx = n
	}
	for _, t := range first {
		if mx < t.c {
			mx = t.c
		}
	}
	val := make([]bool, mx+1)
	part := func(i int) int {
		if val[i] {
			return 1
		}
		return 0
	}
	wrong := ""
	for q := 0; q < 40; q++ {
		for i := range val {
			val[i] = r.Bool()
		}
		all := ts
		if q%2 == 0 {
			all = first
		}
		for x := 0; x < 300; x++ {
			j := mono(all, part)
			if j < 0 {
				break
			}
			v := []int{all[j].a, all[j].b, all[j].c}[r.Intn(3)]
			val[v] = !val[v]
		}
		for y := 0; y < 2; y++ {
			got := holds(cls, val)
			want, other := mono(ts, part) < 0, mono(first, part) < 0
			c.Count("assignments", 1)
			if got != want {
				if got != other {
					c.Failf("Py2Triples(%d) is %t for parts %v of 1..%d; no triple is in one part: %t", n, got, val[1:n+1], n, want)
				}
				wrong = fmt.Sprintf("Py2Triples(%d) is %t though 1..%d have a triple in one part: %t", n, got, n, !want)
			} else if got != other {
				c.Count("exact", 1)
			}
			if t := first[r.Intn(len(first))]; q%3 > 0 {
				val[t.a], val[t.b] = val[t.c], val[t.c]
			} else if len(ts) > 0 {
				t := ts[r.Intn(len(ts))]
				val[t.a], val[t.b] = val[t.c], val[t.c]
			}
		}
	}
	if wrong != "" {
		c.Report("py2-first-n", "%s: it has the first %d triples instead of those in 1..%d", wrong, n, n)
	}
	c.Obs(uint64(n))
}

func genGraph(c *fw.C) {
	r := c.R
	n := r.Range(0, r.Pick(3, 8, 40))
	if r.P(1, 300) {
		n = r.Range(100, 400)
	}
	mx := n * (n - 1) / 2
	if n == 0 {
		mx = 0
	}
	m := 0
	switch r.Intn(4) {
	case 0:
		m = mx
	case 1:
		m = mx + r.Range(1, 3)
	default:
		if mx > 0 {
			m = r.Intn(mx + 1)
		}
	}
	g := gen.RandGraph(n, m)
	if m > mx {
		if g != nil {
			c.Failf("RandGraph(%d,%d) gives a graph", n, m)
		}
		return
	}
	if len(g) != n {
		c.Failf("RandGraph(%d,%d) has %d nodes", n, m, len(g))
	}
	es := map[[2]int]bool{}
	for i, l := range g {
		for _, j := range l {
			if j < 0 || j >= n || i == j || es[[2]int{i, j}] {
				c.Failf("RandGraph(%d,%d): edge %d-%d is no edge, a loop or there twice: %v", n, m, i, j, g)
			}
			es[[2]int{i, j}] = true
		}
	}
	for e := range es {
		if !es[[2]int{e[1], e[0]}] {
			c.Failf("RandGraph(%d,%d): edge %v is one way: %v", n, m, e, g)
		}
	}
	if len(es) != 2*m {
		c.Failf("RandGraph(%d,%d) has %d edges: %v", n, m, len(es)/2, g)
	}
	c.Count("edges", m)
	c.Obs(uint64(n*10000 + m))
}

func genColor(c *fw.C) {
	r := c.R
	n, k := r.Range(1, r.Pick(3, 6, 14)), r.Range(1, 5)
	if r.P(1, 300) {
		n, k = r.Range(20, 300), r.Range(1, 12)
	}
	m := r.Intn(n*(n-1)/2 + 1)
	if n > 20 {
		m = r.Intn(4*n + 1)
	}
	a := &adder{}
	gen.RandColor(a, n, m, k)
	cls := a.done(c, "RandColor")
	type nc struct{ n, c int }
	of := map[int]nc{}
	nodes := 0
	type pair struct{ a, b int }
	es := map[pair]map[int]bool{}
	for _, cl := range cls {
		if len(cl) > 0 && cl[0] > 0 || len(cl) == 0 {
			if len(cl) != k {
				c.Failf("RandColor(%d,%d,%d): node %d has %d colors: %v", n, m, k, nodes, len(cl), cls)
			}
			for j, l := range cl {
				if _, ok := of[l]; ok || l < 0 {
					c.Failf("RandColor(%d,%d,%d): color %d of node %d is not its own: %v", n, m, k, j, nodes, cls)
				}
				of[l] = nc{nodes, j}
			}
			nodes++
		}
	}
	if nodes != n {
		c.Failf("RandColor(%d,%d,%d) colors %d nodes: %v", n, m, k, nodes, cls)
	}
	for _, cl := range cls {
		if cl[0] > 0 {
			continue
		}
		if len(cl) != 2 || cl[1] > 0 {
			c.Failf("RandColor(%d,%d,%d) has the clause %v", n, m, k, cl)
		}
		x, ok1 := of[-cl[0]]
		y, ok2 := of[-cl[1]]
		if !ok1 || !ok2 || x.c != y.c || x.n == y.n {
			c.Failf("RandColor(%d,%d,%d): clause %v is not about one color of two nodes", n, m, k, cl)
		}
		p := pair{x.n, y.n}
		if p.a > p.b {
			p.a, p.b = p.b, p.a
		}
		if es[p] == nil {
			es[p] = map[int]bool{}
		}
		es[p][x.c] = true
	}
	if len(es) != m {
		c.Failf("RandColor(%d,%d,%d) has %d edges: %v", n, m, k, len(es), cls)
	}
	var adj [][]int
	for p, cs := range es {
		if len(cs) != k {
			c.Failf("RandColor(%d,%d,%d): edge %v constrains %d colors", n, m, k, p, len(cs))
		}
		adj = append(adj, []int{p.a, p.b})
	}
	// the answer is that of the graph
	if n <= 8 {
		col := make([]int, n)
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == n {
				return true
			}
			for x := 0; x < k; x++ {
				col[i] = x
				ok := true
				for _, e := range adj {
					if e[0] == i && e[1] < i && col[e[1]] == x || e[1] == i && e[0] < i && col[e[0]] == x {
						ok = false
					}
				}
				if ok && rec(i+1) {
					return true
				}
			}
			return false
		}
		want := rec(0)
		if got := ref.Solve(cls, nil).Sat; got != want {
			c.Failf("RandColor(%d,%d,%d): clauses satisfiable %t, graph colorable %t", n, m, k, got, want)
		}
		c.Count("colored", 1)
	}
	c.Obs(uint64(n*10000 + m*10 + k))
}

func genRand3(c *fw.C) {
	r := c.R
	n, m := r.Range(3, r.Pick(3, 5, 50)), r.Range(0, 200)
	if r.P(1, 300) {
		n, m = r.Pick(1000, 32768, 70000, 200000), r.Range(0, 20000)
	}
	seed := int64(r.Uint64() >> 1)
	gen.Seed(seed)
	a := &adder{}
	hard := r.P(1, 3)
	mk := func(a *adder) {
		if hard {
			gen.HardRand3Cnf(a, n)
		} else {
			gen.Rand3Cnf(a, n, m)
		}
	}
	mk(a)
	cls := a.done(c, "Rand3Cnf")
	if hard {
		m = 4 * n
	}
	if len(cls) != m {
		c.Failf("Rand3Cnf(%d,%d) has %d clauses", n, m, len(cls))
	}
	abs := func(x int) int {
		if x < 0 {
			return -x
		}
		return x
	}
	signs := map[int]bool{}
	for _, cl := range cls {
		if len(cl) != 3 {
			c.Failf("Rand3Cnf(%d,%d) has the clause %v", n, m, cl)
		}
		x, y, w := abs(cl[0]), abs(cl[1]), abs(cl[2])
		if x == y || y == w || x == w || x > n || y > n || w > n {
			c.Failf("Rand3Cnf(%d,%d) has the clause %v", n, m, cl)
		}
		for _, l := range cl {
			signs[l] = true
		}
	}
	if m > 60*n && len(signs) != 2*n {
		c.Failf("Rand3Cnf(%d,%d) uses %d of the %d literals", n, m, len(signs), 2*n)
	}
	gen.Seed(seed)
	b := &adder{}
	mk(b)
	if fmt.Sprint(b.done(c, "Rand3Cnf")) != fmt.Sprint(cls) {
		c.Failf("Rand3Cnf(%d,%d) is different for the same Seed", n, m)
	}
	c.Obs(uint64(n*1000 + m))
}

func genCycle(c *fw.C) {
	r := c.R
	n := r.Range(1, r.Pick(4, 12, 40))
	if r.P(1, 300) {
		n = r.Pick(r.Range(100, 2000), 70000)
	}
	a := &adder{}
	gen.BinCycle(a, n)
	cls := a.done(c, "BinCycle")
	if len(cls) != n {
		c.Failf("BinCycle(%d) has %d clauses", n, len(cls))
	}
	if maxvar(cls) > n {
		c.Failf("BinCycle(%d) uses variable %d", n, maxvar(cls))
	}
	val := make([]bool, n+1)
	for q := 0; q < 40; q++ {
		switch q {
		case 0, 1:
			for i := range val {
				val[i] = q == 1
			}
		default:
			b := r.Bool()
			for i := range val {
				val[i] = b
			}
			for j := r.Range(1, 2); j > 0; j-- {
				x := r.Range(1, n)
				val[x] = !val[x]
			}
		}
		same := true
		for i := 2; i <= n; i++ {
			same = same && val[i] == val[1]
		}
		if holds(cls, val) != same {
			c.Failf("BinCycle(%d) is %t for %v", n, !same, val[1:])
		}
		c.Count("assignments", 1)
	}
	c.Obs(uint64(n))
}

func genCubes(c *fw.C) {
	r := c.R
	mx, mv := r.Range(1, 12), r.Range(1, 30)
	if r.P(1, 100) {
		mx, mv = r.Range(1, 300), r.Pick(300, 40000, 100000)
	}
	q := gen.NewRandCuber(mx, z.Var(mv))
	var dst []z.Lit
	if r.Bool() {
		dst = make([]z.Lit, r.Intn(5), 5)
	}
	for i := 0; i < 60; i++ {
		if b, is := q.(interface{ SetMaxSize(int) }); is && r.P(1, 10) {
			mx = r.Range(1, 12)
			b.SetMaxSize(mx)
		}
		dst = q.RandCube(dst)
		if len(dst) < 1 || len(dst) > mx {
			c.Failf("cube of size at most %d is %v", mx, dst)
		}
		vs := map[z.Var]bool{}
		for _, m := range dst {
			if m.Var() < 1 || int(m.Var()) > mv || vs[m.Var()] {
				c.Failf("cube over %d variables is %v", mv, dst)
			}
			vs[m.Var()] = true
		}
		c.Count("cubes", 1)
	}
	c.Obs(uint64(mx*100 + mv))
}

// genRandS: the random solver stands in for a solver in tests of
// applications: it must give the result asked for, and be usable again after
// each solve however that ended.
func genRandS(c *fw.C) {
	r := c.R
	res := r.Pick(-1, 0, 1)
	long := r.P(1, 3)
	d := time.Duration(r.Range(1, 400)) * time.Microsecond
	if long {
		d = time.Hour * 1000
	}
	var s inter.S
	if r.Bool() {
		s = gen.RandS(d, res)
	} else {
		s = gen.RandSr(d, res, rand.NewSource(int64(r.Uint64()>>1)))
	}
	mv := z.Var(0)
	var asked []int
	seen := map[int]bool{}
	ok := func(x int, zero bool) {
		if x == 0 && zero {
			c.Count("given_up", 1)
			return
		}
		if x != 1 && x != -1 || res != 0 && x != res {
			c.Failf("random solver for %d answers %d", res, x)
		}
		c.Count("results", 1)
		seen[x] = true
	}
	if !long && res == 0 && r.P(1, 4) { // both come
		for i := 0; i < 64; i++ {
			ok(s.Solve(), false)
		}
		if !seen[1] || !seen[-1] {
			c.Failf("64 random results: %v", seen)
		}
	}
	for i := r.Range(4, 12); i > 0; i-- {
		switch r.Intn(9) {
		case 8:
			for k := r.Intn(4); k > 0; k-- {
				asked = append(asked, rlit(r, 50))
				s.Assume(lit(asked[len(asked)-1]))
			}
			pre := make([]z.Lit, r.Intn(3))
			for _, m := range ints(s.Why(pre)) {
				if !slices.Contains(asked, m) {
					c.Failf("Why gives %d, assumed is %v", m, asked)
				}
			}
			if x, _ := s.Test(pre); x != 0 && x != -1 {
				c.Failf("Test gives %d", x)
			}
			if x := s.Untest(); x != 0 && x != -1 {
				c.Failf("Untest gives %d", x)
			}
			if ms := s.Reasons(pre, z.Var(3).Pos()); len(ms) != 0 {
				c.Failf("Reasons gives %v", ms)
			}
			s.Value(z.Var(2).Pos())
			c.Count("others", 1)
		case 0:
			m := z.Var(r.Range(1, 50)).Pos()
			s.Add(m)
			s.Add(0)
			if m.Var() > mv {
				mv = m.Var()
			}
		case 1:
			m := s.Lit()
			if m.Var() <= mv {
				c.Failf("Lit gives %s, used before", m)
			}
			mv = m.Var()
		case 2:
			if s.MaxVar() != mv {
				c.Failf("MaxVar is %s, was given %s", s.MaxVar(), mv)
			}
		case 3:
			if !long {
				s.Assume(z.Var(1).Pos())
				if r.Bool() {
					ok(s.Try(time.Hour), false)
					c.Count("tries", 1)
				} else {
					ok(s.Solve(), false)
				}
			}
		case 4:
			s = s.SCopy()
			c.Count("copies", 1)
		default:
			g := s.GoSolve()
			over := false
			for !over {
				switch k := r.Intn(6); {
				case k == 0 && !long:
					ok(g.Wait(), false)
					over = true
				case k == 1:
					x, done := g.Test()
					if done {
						ok(x, false)
						over = true
					} else if x != 0 {
						c.Failf("Test of a running solve gives %d", x)
					}
				case k == 2:
					x := g.Try(time.Duration(r.Range(0, 300)) * time.Microsecond)
					ok(x, true)
					over = true
				case k == 3:
					x, paused := g.Pause()
					if !paused {
						ok(x, false)
						over = true
						break
					}
					if x != 0 {
						c.Failf("Pause of a running solve gives %d", x)
					}
					if r.Bool() {
						s2 := s.SCopy()
						_ = s2
						c.Count("paused_copies", 1)
					}
					g.Unpause()
				case k == 4:
					ok(g.Stop(), true)
					over = true
				}
			}
		}
	}
	c.Obs(r.Uint64())
}

// genRandLate: a solve which ended before it is asked about has its result
// for whoever asks, also for who stops it. How long it takes to end is the
// machine's affair: only if none of ten ever longer waits (8 s in all) was
// long enough for a solve of at most 1 ms is that taken for a result lost.
func genRandLate(c *fw.C) {
	r := c.R
	res := r.Pick(-1, 1)
	s := gen.RandS(time.Duration(r.Range(1, 1000))*time.Microsecond, res)
	if r.Bool() {
		s = s.SCopy()
	}
	how := r.Intn(4)
	for i := 0; i < 13; i++ {
		g := s.GoSolve()
		time.Sleep(time.Millisecond << uint(i))
		x := 0
		switch how {
		case 0:
			x = g.Stop()
		case 1:
			x = g.Try(0)
		case 2:
			y, done := g.Test()
			if x = y; !done {
				g.Stop()
			}
		case 3:
			y, paused := g.Pause()
			if x = y; paused {
				g.Unpause()
				g.Stop()
			}
		}
		if x == res {
			c.Count("late", 1)
			c.Obs(r.Uint64())
			return
		}
		if x != 0 {
			c.Failf("random solver for %d answers %d", res, x)
		}
		fw.Progress()
	}
	c.Failf("the result %d of a solve which ended is not to be had (%s)", res,
		[]string{"Stop", "Try", "Test", "Pause"}[how])
}

func init() {
	fw.Register(&fw.Prop{ID: "C23",
		Rule: "random parameters of each generator; what it adds is evaluated against the predicate its name and documentation give, over all assignments where there are few, over chosen and random ones otherwise",
		Workloads: []fw.Workload{
			{Name: "php", Quick: 6000, Thorough: 80000, Fn: genPhp},
			{Name: "partition", Quick: 6000, Thorough: 80000, Fn: genPart},
			{Name: "big", Quick: 300, Thorough: 10000, Fn: genBig},
			{Name: "pyk", Quick: 6000, Thorough: 200000, Fn: genPyK},
			{Name: "py2", Quick: 6000, Thorough: 200000, Fn: genPy2},
			{Name: "graph", Quick: 30000, Thorough: 1000000, Fn: genGraph},
			{Name: "color", Quick: 30000, Thorough: 1000000, Fn: genColor},
			{Name: "rand3", Quick: 15000, Thorough: 400000, Fn: genRand3},
			{Name: "cycle", Quick: 7500, Thorough: 100000, Fn: genCycle},
			{Name: "cubes", Quick: 15000, Thorough: 400000, Fn: genCubes},
			{Name: "rands", Quick: 9000, Thorough: 200000, Fn: genRandS},
			{Name: "late", Quick: 3000, Thorough: 40000, Fn: genRandLate},
		},
		Need: []string{"assignments", "edges", "colored", "cubes", "results", "given_up", "late"},
	})
}
