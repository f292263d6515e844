package main

import (
	"fmt"
	"strings"

	"verif/harness/fw"
)

// cnf is a clause list over DIMACS ints.
type cnf [][]int

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func rlit(r *fw.Rand, n int) int {
	v := 1 + r.Intn(n)
	if r.Bool() {
		return -v
	}
	return v
}

// distinct-variable random clause
func rclause(r *fw.Rand, n, k int) []int {
	if k > n {
		k = n
	}
	var c []int
	seen := map[int]bool{}
	for len(c) < k {
		v := 1 + r.Intn(n)
		if seen[v] {
			continue
		}
		seen[v] = true
		if r.Bool() {
			v = -v
		}
		c = append(c, v)
	}
	return c
}

func randK(r *fw.Rand, n, m, k int) cnf {
	var f cnf
	for i := 0; i < m; i++ {
		f = append(f, rclause(r, n, k))
	}
	return f
}

// messy clauses: repeated and complementary literals, units, empties.
func messyClause(r *fw.Rand, n int) []int {
	k := r.Pick(1, 1, 2, 2, 2, 3, 3, 3, 3, 4, 5, 7)
	if r.P(1, 60) {
		k = r.Range(8, 70)
	}
	var c []int
	for i := 0; i < k; i++ {
		c = append(c, rlit(r, n))
	}
	return c
}

func smallCnf(r *fw.Rand) (cnf, int) {
	n := r.Range(1, 12)
	var f cnf
	switch r.Intn(6) {
	case 0: // messy
		m := r.Intn(4*n + 2)
		for i := 0; i < m; i++ {
			f = append(f, messyClause(r, n))
		}
		if r.P(1, 25) {
			f = append(f, []int{})
		}
	case 1: // 3-SAT around the threshold
		n = r.Range(4, 14)
		f = randK(r, n, r.Range(3*n, 5*n), 3)
	case 2: // 2-SAT
		f = randK(r, n, r.Range(n/2, 2*n), 2)
	case 3: // mixed 2/3/wide
		m := r.Range(n, 4*n)
		for i := 0; i < m; i++ {
			f = append(f, rclause(r, n, r.Pick(2, 2, 3, 3, 3, 4, 5, 9)))
		}
	case 4: // xor chain
		n = r.Range(3, 10)
		f = parity(r, n, r.Range(2, n))
	case 5: // horn-ish with units
		m := r.Range(n, 3*n)
		for i := 0; i < m; i++ {
			c := rclause(r, n, r.Pick(1, 2, 3, 3, 4))
			for j := 1; j < len(c); j++ {
				c[j] = -abs(c[j])
			}
			f = append(f, c)
		}
	}
	return f, n
}

func xorClauses(vs []int, rhs bool) cnf {
	var f cnf
	k := len(vs)
	for x := 0; x < 1<<uint(k); x++ {
		par := false
		for i := 0; i < k; i++ {
			if x>>uint(i)&1 == 1 {
				par = !par
			}
		}
		if par == rhs {
			continue
		}
		// forbid assignment x
		var c []int
		for i, v := range vs {
			if x>>uint(i)&1 == 1 {
				c = append(c, -v)
			} else {
				c = append(c, v)
			}
		}
		f = append(f, c)
	}
	return f
}

func parity(r *fw.Rand, n, m int) cnf {
	var f cnf
	for i := 0; i < m; i++ {
		k := r.Pick(2, 3, 3, 3, 4)
		if k > n {
			k = n
		}
		c := rclause(r, n, k)
		for j := range c {
			c[j] = abs(c[j])
		}
		f = append(f, xorClauses(c, r.Bool())...)
	}
	return f
}

// paritySys is a random sparse system over GF(2), decided by elimination.
func paritySys(r *fw.Rand, n, m int) (cnf, bool) {
	var f cnf
	var rows []uint64 // bit 0 is the right hand side
	for i := 0; i < m; i++ {
		c := rclause(r, n, 3)
		row := uint64(0)
		for j := range c {
			c[j] = abs(c[j])
			row ^= 1 << uint(c[j])
		}
		b := r.Bool()
		if b {
			row ^= 1
		}
		rows = append(rows, row)
		f = append(f, xorClauses(c, b)...)
	}
	sat := true
	for v := 1; v <= n; v++ {
		k := -1
		for i, x := range rows {
			if x>>uint(v)&1 == 1 {
				k = i
				break
			}
		}
		if k < 0 {
			continue
		}
		p := rows[k]
		rows = append(rows[:k], rows[k+1:]...)
		for i := range rows {
			if rows[i]>>uint(v)&1 == 1 {
				rows[i] ^= p
			}
		}
	}
	for _, x := range rows {
		if x == 1 {
			sat = false
		}
	}
	return f, sat
}

func php(p, h int) cnf {
	v := func(i, j int) int { return i*h + j + 1 }
	var f cnf
	for i := 0; i < p; i++ {
		var c []int
		for j := 0; j < h; j++ {
			c = append(c, v(i, j))
		}
		f = append(f, c)
	}
	for j := 0; j < h; j++ {
		for i := 0; i < p; i++ {
			for k := 0; k < i; k++ {
				f = append(f, []int{-v(i, j), -v(k, j)})
			}
		}
	}
	return f
}

// graph colouring with a wide at-least-one clause per node
func coloring(r *fw.Rand, n, m, k int) cnf {
	v := func(i, j int) int { return i*k + j + 1 }
	var f cnf
	for i := 0; i < n; i++ {
		var c []int
		for j := 0; j < k; j++ {
			c = append(c, v(i, j))
		}
		f = append(f, c)
		for j := 0; j < k; j++ {
			for l := 0; l < j; l++ {
				f = append(f, []int{-v(i, j), -v(i, l)})
			}
		}
	}
	for e := 0; e < m; e++ {
		a, b := r.Intn(n), r.Intn(n)
		if a == b {
			continue
		}
		for j := 0; j < k; j++ {
			f = append(f, []int{-v(a, j), -v(b, j)})
		}
	}
	return f
}

// planted: satisfiable by construction
func planted(r *fw.Rand, n, m, k int) cnf {
	a := make([]bool, n+1)
	for i := range a {
		a[i] = r.Bool()
	}
	var f cnf
	for len(f) < m {
		c := rclause(r, n, k)
		ok := false
		for _, l := range c {
			if a[abs(l)] == (l > 0) {
				ok = true
			}
		}
		if ok {
			f = append(f, c)
		}
	}
	return f
}

// tseitin is a throw-away gate builder with its own clause encoding.
type tseitin struct {
	f  cnf
	nv int
}

func (t *tseitin) nw() int { t.nv++; return t.nv }
func (t *tseitin) xor(a, b int) int {
	o := t.nw()
	t.f = append(t.f, []int{-o, a, b}, []int{-o, -a, -b}, []int{o, -a, b}, []int{o, a, -b})
	return o
}
func (t *tseitin) and(a, b int) int {
	o := t.nw()
	t.f = append(t.f, []int{-o, a}, []int{-o, b}, []int{o, -a, -b})
	return o
}
func (t *tseitin) or(a, b int) int { return -t.and(-a, -b) }

// add gives x+y, len(x)+1 bits; x and y have the same width.
func (t *tseitin) add(x, y []int) []int {
	var s []int
	c := 0
	for i := range x {
		if i == 0 {
			s = append(s, t.xor(x[i], y[i]))
			c = t.and(x[i], y[i])
			continue
		}
		u := t.xor(x[i], y[i])
		s = append(s, t.xor(u, c))
		c = t.or(t.and(x[i], y[i]), t.and(u, c))
	}
	return append(s, c)
}

// adderMiter: a+b versus b+a (one bit altered when buggy)
func adderMiter(r *fw.Rand, w int, buggy bool) cnf {
	t := &tseitin{}
	var a, b []int
	for i := 0; i < w; i++ {
		a = append(a, t.nw())
	}
	for i := 0; i < w; i++ {
		b = append(b, t.nw())
	}
	s1, s2 := t.add(a, b), t.add(b, a)
	if buggy {
		k := r.Intn(len(s2))
		s2[k] = t.xor(s2[k], t.and(a[r.Intn(w)], b[r.Intn(w)]))
	}
	var d []int
	for i := range s1 {
		d = append(d, t.xor(s1[i], s2[i]))
	}
	t.f = append(t.f, d)
	return t.f
}

// mulMiter: a*b versus b*a by shift and add
func mulMiter(r *fw.Rand, w int, buggy bool) cnf {
	t := &tseitin{}
	var a, b []int
	for i := 0; i < w; i++ {
		a = append(a, t.nw())
	}
	for i := 0; i < w; i++ {
		b = append(b, t.nw())
	}
	mul := func(x, y []int) []int {
		var out, acc []int
		for i := 0; i < w; i++ {
			var row []int
			for j := 0; j < w; j++ {
				row = append(row, t.and(x[j], y[i]))
			}
			if i == 0 {
				acc = row
				out = append(out, acc[0])
				z := t.nw()
				t.f = append(t.f, []int{-z})
				acc = append(acc[1:], z)
				continue
			}
			s := t.add(acc, row)
			out = append(out, s[0])
			acc = s[1:]
		}
		return append(out, acc...)
	}
	s1, s2 := mul(a, b), mul(b, a)
	if buggy {
		k := r.Intn(len(s2))
		s2[k] = t.xor(s2[k], t.and(a[r.Intn(w)], b[r.Intn(w)]))
	}
	var d []int
	for i := range s1 {
		d = append(d, t.xor(s1[i], s2[i]))
	}
	t.f = append(t.f, d)
	return t.f
}

func maxvar(f cnf) int {
	n := 0
	for _, c := range f {
		for _, l := range c {
			if abs(l) > n {
				n = abs(l)
			}
		}
	}
	return n
}

// rename maps variables through an injection into sparse numbers.
func rename(r *fw.Rand, f cnf, n int) (cnf, func(int) int) {
	var mp []int
	switch r.Intn(4) {
	case 0, 1:
		return f, func(l int) int { return l }
	case 2: // permutation shifted across a capacity edge
		base := r.Pick(0, 1, 60, 120, 124, 126, 127, 128, 129, 250, 255, 256, 510, 1020)
		p := r.Perm(n)
		mp = append(mp, 0)
		for _, x := range p {
			mp = append(mp, base+x+1)
		}
	default: // sparse
		mp = append(mp, 0)
		seen := map[int]bool{}
		top := r.Pick(50, 200, 700, 3000)
		if top < 4*n {
			top = 4 * n
		}
		for len(mp) <= n {
			v := 1 + r.Intn(top)
			if !seen[v] {
				seen[v] = true
				mp = append(mp, v)
			}
		}
	}
	ml := func(l int) int {
		if l < 0 {
			return -mp[-l]
		}
		return mp[l]
	}
	var g cnf
	for _, c := range f {
		d := make([]int, len(c))
		for i, l := range c {
			d[i] = ml(l)
		}
		g = append(g, d)
	}
	return g, ml
}

func (f cnf) String() string {
	var b strings.Builder
	for i, c := range f {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(strings.Trim(fmt.Sprint(c), "[]"))
	}
	return b.String()
}

func (f cnf) hash() uint64 {
	h := uint64(1)
	for _, c := range f {
		h = fw.HashInts(h, c...)
		h = fw.Mix(h)
	}
	return h
}

func (f cnf) dimacs(n int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "p cnf %d %d\n", n, len(f))
	for _, c := range f {
		for _, l := range c {
			fmt.Fprintf(&b, "%d ", l)
		}
		b.WriteString("0\n")
	}
	return b.String()
}
