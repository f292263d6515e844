package main

import (
	mbits "math/bits"

	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/logic/aiger"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
)

// bigCirc is a circuit of hundreds of thousands of nodes with the values of
// all of them over 64 patterns.
type bigCirc struct {
	c   *fw.C
	r   *fw.Rand
	C   *logic.C
	val []uint64 // by variable
	ms  []z.Lit  // literals given out
	and map[[2]z.Lit]z.Lit
}

func (k *bigCirc) of(m z.Lit) uint64 {
	if m.IsPos() {
		return k.val[m.Var()]
	}
	return ^k.val[m.Var()]
}

func (k *bigCirc) pick() z.Lit {
	p := k.ms
	if k.r.Bool() && len(p) > 50 {
		p = p[len(p)-50:]
	}
	m := p[k.r.Intn(len(p))]
	if k.r.Bool() {
		m = m.Not()
	}
	return m
}

// note takes what the circuit gives for a function with value t.
func (k *bigCirc) note(m z.Lit, t uint64, what string) {
	// the nodes which are new on the way are gates, or inputs
	for len(k.val) < k.C.Len() {
		i := len(k.val)
		a, b := k.C.Ins(z.Var(i).Pos())
		if a == z.LitNull {
			x := t
			if i != int(m.Var()) {
				k.c.Failf("%s makes %d, which is no gate", what, i)
			}
			if !m.IsPos() {
				x = ^x
			}
			k.val = append(k.val, x)
			continue
		}
		if int(a.Var()) >= i || int(b.Var()) >= i {
			k.c.Failf("gate %d depends on %s and %s", i, a, b)
		}
		k.val = append(k.val, k.of(a)&k.of(b))
	}
	if m == z.LitNull || int(m.Var()) >= len(k.val) || k.of(m) != t {
		k.c.Failf("%s gives %s with another value", what, m)
	}
	k.ms = append(k.ms, m)
}

func (k *bigCirc) build(n int) {
	for i := 0; i < n; i++ {
		a, b, d := k.pick(), k.pick(), k.pick()
		ta, tb, td := k.of(a), k.of(b), k.of(d)
		switch k.r.Intn(12) {
		case 0:
			k.note(k.C.Lit(), k.r.Uint64(), "Lit")
		case 1:
			k.note(k.C.Or(a, b), ta|tb, "Or")
		case 2:
			k.note(k.C.Xor(a, b), ta^tb, "Xor")
		case 3:
			k.note(k.C.Choice(d, a, b), td&ta|^td&tb, "Choice")
		case 4:
			k.note(k.C.Implies(a, b), ^ta|tb, "Implies")
		case 5:
			k.note(k.C.Ands(a, b, d), ta&tb&td, "Ands")
		default:
			m := k.C.And(a, b)
			k.note(m, ta&tb, "And")
			k.and[[2]z.Lit{a, b}] = m
		}
		if i%(1<<16) == 0 {
			fw.Progress()
		}
	}
}

// fan makes gates of one literal with many others, and asks for them again.
func (k *bigCirc) fan(n int) {
	v := 1
	for 2*v+1 < k.C.Len() {
		v = 2*v + 1
	}
	hub := z.Var(v).Neg()
	if k.r.P(1, 4) {
		hub = k.pick()
	}
	for i := 0; i < n; i++ {
		m := z.Var(k.r.Range(2, len(k.val)-1)).Pos()
		if k.r.Bool() {
			m = m.Not()
		}
		g := k.C.And(m, hub)
		k.note(g, k.of(m)&k.of(hub), "And")
		k.and[[2]z.Lit{m, hub}] = g
	}
}

func newBigCirc(c *fw.C, C *logic.C) *bigCirc {
	k := &bigCirc{c: c, r: c.R, C: C, val: make([]uint64, C.Len()), and: map[[2]z.Lit]z.Lit{}}
	k.val[C.T.Var()] = ^uint64(0)
	if !C.T.IsPos() {
		k.val[C.T.Var()] = 0
	}
	k.ms = append(k.ms, C.T)
	for i := 0; i < 20; i++ {
		k.note(C.Lit(), c.R.Uint64(), "Lit")
	}
	return k
}

// audit looks at all nodes.
func (k *bigCirc) audit(what string) {
	c, C := k.c, k.C
	n := C.Len()
	if n != len(k.val) {
		c.Failf("%s: length %d, want %d", what, n, len(k.val))
	}
	for q, m := range k.and { // in some order
		if g := C.And(q[1], q[0]); g != m {
			c.Failf("%s: And(%s,%s) is %s, was %s", what, q[1], q[0], g, m)
		}
	}
	if C.Len() != n {
		c.Failf("%s: gates asked for again make nodes", what)
	}
	gates := map[[2]z.Lit]int{}
	v64 := make([]uint64, n)
	v1 := make([]bool, n)
	for i := 2; i < n; i++ {
		a, b := C.Ins(z.Var(i).Pos())
		if a == z.LitNull {
			v64[i], v1[i] = k.val[i], k.val[i]&1 == 1
			continue
		}
		if a > b {
			a, b = b, a
		}
		if j := gates[[2]z.Lit{a, b}]; j != 0 {
			c.Failf("%s: gates %d and %d have the same operands", what, i, j)
		}
		gates[[2]z.Lit{a, b}] = i
		v64[i], v1[i] = c.R.Uint64(), c.R.Bool()
	}
	C.Eval64(v64)
	C.Eval(v1)
	for i := 1; i < n; i++ {
		if v64[i] != k.val[i] || v1[i] != (k.val[i]&1 == 1) {
			c.Failf("%s: value of node %d is %016x and %v, want %016x", what, i, v64[i], v1[i], k.val[i])
		}
	}
	c.Count("huge_nodes", n)
	fw.Progress()
}

func circHuge(c *fw.C) {
	r := c.R
	C := logic.NewC()
	if r.Bool() {
		C = logic.NewCCap(r.Pick(2, 3, 1000, 100000))
	}
	k := newBigCirc(c, C)
	k.build(r.Range(100000, 400000))
	k.fan(r.Range(100, 3000))
	k.audit("built")
	d := *k
	d.C = C.Copy()
	d.val = append([]uint64{}, k.val...)
	d.ms = append([]z.Lit{}, k.ms...)
	d.and = map[[2]z.Lit]z.Lit{}
	for q, m := range k.and {
		d.and[q] = m
	}
	k.build(r.Range(1, 50000))
	d.build(r.Range(1, 100000))
	k.audit("original")
	d.audit("copy")
	c.Obs(r.Uint64())
}

// wideAdder takes clauses of a circuit and evaluates them over the patterns.
type wideAdder struct {
	k       *bigCirc
	cur     []z.Lit
	n, lits int
	defs    []uint8 // clauses by highest variable
}

func (w *wideAdder) Add(m z.Lit) {
	if m != z.LitNull {
		w.cur = append(w.cur, m)
		return
	}
	t, top := uint64(0), z.Var(0)
	for _, m := range w.cur {
		if int(m.Var()) >= len(w.k.val) || m.Var() == 0 {
			w.k.c.Failf("clause %v has %s", w.cur, m)
		}
		t |= w.k.of(m)
		if m.Var() > top {
			top = m.Var()
		}
	}
	if t != ^uint64(0) {
		w.k.c.Failf("clause %v excludes a consistent valuation", w.cur)
	}
	if w.defs[top]++; w.defs[top] > 3 {
		w.k.c.Failf("more than three clauses for %s", top)
	}
	w.n++
	w.cur = w.cur[:0]
}

// cnfHuge: the cnf of big and of deep circuits, in parts and at once.
func cnfHuge(c *fw.C) {
	r := c.R
	C := logic.NewC()
	k := newBigCirc(c, C)
	if r.Bool() { // a chain, as deep as the circuit is long
		m := k.ms[len(k.ms)-1]
		for i := r.Range(100000, 400000); i > 0; i-- {
			x := k.ms[1+r.Intn(20)]
			g, t := C.And(m.Not(), x), ^k.of(m)&k.of(x)
			k.note(g, t, "And")
			if g.Var() > m.Var() && r.P(9, 10) {
				m = g
			} else {
				y := C.Lit()
				k.note(y, r.Uint64(), "Lit")
				m = y
			}
			if i%(1<<16) == 0 {
				fw.Progress()
			}
		}
	} else {
		k.build(r.Range(100000, 300000))
	}
	n := C.Len()
	var roots []z.Lit
	for i := r.Range(1, 30); i > 0; i-- {
		roots = append(roots, k.ms[len(k.ms)-1-r.Intn(r.Pick(10, len(k.ms)))])
	}
	in := make([]bool, n)
	in[C.T.Var()] = true
	var st []z.Var
	for _, m := range roots {
		st = append(st, m.Var())
	}
	want := 0
	for len(st) > 0 {
		v := st[len(st)-1]
		st = st[:len(st)-1]
		if in[v] {
			continue
		}
		in[v] = true
		if a, b := C.Ins(v.Pos()); a != z.LitNull {
			want++
			st = append(st, a.Var(), b.Var())
		}
	}
	check := func(w *wideAdder, what string) {
		if len(w.cur) != 0 {
			c.Failf("%s: clause %v is not ended", what, w.cur)
		}
		for v := 2; v < n; v++ {
			wc := uint8(0)
			if a, _ := C.Ins(z.Var(v).Pos()); in[v] && a != z.LitNull {
				wc = 3
			}
			if w.defs[v] != wc {
				c.Failf("%s: %d clauses define %d, want %d", what, w.defs[v], v, wc)
			}
		}
		if w.defs[1] != 1 {
			c.Failf("%s: %d clauses for the constant", what, w.defs[1])
		}
		fw.Progress()
		c.Count("huge_clauses", w.n)
	}
	w := &wideAdder{k: k, defs: make([]uint8, n)}
	C.ToCnfFrom(w, roots...)
	check(w, "ToCnfFrom")
	w = &wideAdder{k: k, defs: make([]uint8, n)}
	var mark []int8
	ttl := 0
	for i := 0; i < len(roots); {
		j := r.Range(i+1, len(roots))
		var x int
		mark, x = C.CnfSince(w, mark, roots[i:j]...)
		i, ttl = j, ttl+x
		if r.Bool() {
			mark, x = C.CnfSince(w, mark, roots[:j]...)
			if x != 0 {
				c.Failf("CnfSince writes %d gates again", x)
			}
		}
	}
	check(w, "CnfSince")
	if ttl != want+1 {
		c.Failf("CnfSince says it wrote %d, want %d", ttl, want+1)
	}
	c.Obs(r.Uint64())
}

// cardHuge: sums of hundreds or thousands of literals.
func cardHuge(c *fw.C) {
	r := c.R
	C := logic.NewC()
	k := newBigCirc(c, C)
	n := r.Pick(r.Range(100, 2000), 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, r.Range(2000, 4100))
	var ms []z.Lit
	var cnt [64]int
	// patterns with few, about half, and nearly all true
	for i := 0; i < n; i++ {
		t := uint64(0)
		for b := uint(0); b < 64; b++ {
			p := []int{1, 10, n / 4, n / 2, n - n/4, n - 10, n - 1, n}[b%8]
			if r.Intn(n) < p {
				t |= 1 << b
			}
		}
		m := C.Lit()
		if !r.P(1, 50) {
			k.note(m, t, "Lit")
		} else {
			k.note(m, ^t, "Lit")
			m = m.Not()
		}
		if len(ms) > 0 && r.P(1, 40) {
			m = ms[r.Intn(len(ms))]
			if r.Bool() {
				m = m.Not()
			}
		}
		t = k.of(m)
		ms = append(ms, m)
		for b := range cnt {
			cnt[b] += int(t >> uint(b) & 1)
		}
	}
	cs := C.CardSort(ms)
	fw.Progress()
	val := make([]uint64, C.Len())
	copy(val, k.val)
	C.Eval64(val)
	of := func(m z.Lit) uint64 {
		if m.IsPos() {
			return val[m.Var()]
		}
		return ^val[m.Var()]
	}
	for b := -2; b <= n+2; b++ {
		var leq, geq uint64
		for i, x := range cnt {
			if x <= b {
				leq |= 1 << uint(i)
			}
			if x >= b {
				geq |= 1 << uint(i)
			}
		}
		for i, w := range []uint64{leq, geq, ^geq, ^leq} {
			m := []func(int) z.Lit{cs.Leq, cs.Geq, cs.Less, cs.Gr}[i](b)
			if int(m.Var()) >= len(val) {
				c.Failf("%s is new", m)
			}
			if of(m) != w {
				c.Failf("%s(%d) of %d literals is wrong in %d of 64 patterns", []string{"Leq", "Geq", "Less", "Gr"}[i], b, n, mbits.OnesCount64(of(m)^w))
			}
		}
	}
	c.Count("huge_inputs", n)
	c.Obs(uint64(n))
}

// rollHuge: thousands of steps, asked for in jumps.
func rollHuge(c *fw.C) {
	r := c.R
	S := logic.NewS()
	var ins, ls []z.Lit
	pool := []z.Lit{S.T}
	for i := r.Range(1, 3); i > 0; i-- {
		ins = append(ins, S.Lit())
	}
	for i := r.Range(1, 8); i > 0; i-- {
		ls = append(ls, S.Latch([]z.Lit{S.F, S.T, z.LitNull}[r.Intn(3)]))
	}
	pool = append(append(pool, ins...), ls...)
	any := func() z.Lit {
		m := pool[r.Intn(len(pool))]
		if r.Bool() {
			m = m.Not()
		}
		return m
	}
	for i := r.Range(1, 20); i > 0; i-- {
		if r.Bool() {
			pool = append(pool, S.And(any(), any()))
		} else {
			pool = append(pool, S.Xor(any(), any()))
		}
	}
	for _, m := range ls {
		S.SetNext(m, any())
	}
	depth := r.Pick(1000, 5000, 20000)
	u := logic.NewRoll(S)
	type q struct {
		m z.Lit
		d int
		x z.Lit
	}
	var qs []q
	for i := r.Range(1, 20); i > 0; i-- {
		m, d := any(), r.Intn(depth+1)
		qs = append(qs, q{m, d, u.At(m, d)})
	}
	for i := 0; i < 200; i++ {
		m, d := any(), r.Intn(depth+1)
		qs = append(qs, q{m, d, u.At(m, d)})
	}
	// the inputs of every step have the values which the circuit gets there
	fw.Progress()
	seen := map[z.Var]bool{}
	type free struct {
		d int
		m z.Lit
	}
	iv := map[free]uint64{}
	src := map[z.Var]uint64{}
	place := func(m z.Lit, d int) {
		x := u.At(m, d)
		if seen[x.Var()] {
			c.Failf("%s at %d is %s, which is something else already", m, d, x)
		}
		seen[x.Var()] = true
		t := r.Uint64()
		iv[free{d, m}] = t
		if !x.IsPos() {
			t = ^t
		}
		src[x.Var()] = t
	}
	for d := 0; d <= depth; d++ {
		for _, m := range ins {
			place(m, d)
		}
	}
	for _, m := range ls {
		if S.Init(m) == z.LitNull {
			place(m, 0)
		}
	}
	val := make([]uint64, u.C.Len())
	for v, t := range src {
		val[v] = t
	}
	for _, i := range u.C.InPos(nil) {
		if !seen[z.Var(i)] {
			c.Failf("input %d of the unrolling is no input of a step", i)
		}
	}
	u.C.Eval64(val)
	// simulate
	sim := make([]uint64, S.Len())
	at := map[int][]q{}
	for _, x := range qs {
		at[x.d] = append(at[x.d], x)
	}
	next := make([]uint64, len(ls))
	lv := func(vs []uint64, m z.Lit) uint64 {
		if m.IsPos() {
			return vs[m.Var()]
		}
		return ^vs[m.Var()]
	}
	for d := 0; d <= depth; d++ {
		for _, m := range ins {
			sim[m.Var()] = iv[free{d, m}]
		}
		for i, m := range ls {
			switch {
			case d > 0:
				sim[m.Var()] = next[i]
			case S.Init(m) == S.T:
				sim[m.Var()] = ^uint64(0)
			case S.Init(m) == S.F:
				sim[m.Var()] = 0
			default:
				sim[m.Var()] = iv[free{0, m}]
			}
		}
		S.Eval64(sim)
		for i, m := range ls {
			next[i] = lv(sim, S.Next(m))
		}
		for _, x := range at[d] {
			if int(x.x.Var()) >= len(val) || lv(val, x.x) != lv(sim, x.m) {
				c.Failf("At(%s, %d) is %s, which has other values", x.m, x.d, x.x)
			}
		}
	}
	c.Count("huge_steps", depth)
	c.Obs(r.Uint64())
}

// aigHuge is written as aigWrite's are: with more than 2^20 nodes the binary
// form needs numbers of four bytes.
func aigHuge(c *fw.C) {
	r := c.R
	a := aiger.Make(r.Pick(1, 100000))
	S := a.Sys()
	pool := []z.Lit{S.T}
	any := func() z.Lit {
		p := pool
		if r.P(1, 3) && len(p) > 9 {
			p = p[len(p)-9:]
		} else if r.P(1, 3) {
			p = p[:1+len(p)/100]
		}
		m := p[r.Intn(len(p))]
		if r.Bool() {
			m = m.Not()
		}
		return m
	}
	nIn := r.Pick(1<<20+r.Intn(1000), r.Range(10, 5000), 1<<13-1, 1<<13)
	for i := 0; i < nIn; i++ {
		pool = append(pool, a.NewIn())
	}
	for i := r.Pick(0, 5, 500); i > 0; i-- {
		pool = append(pool, a.Latch([]z.Lit{S.F, S.T, z.LitNull}[r.Intn(3)]))
	}
	for i := r.Range(1000, 60000); i > 0; i-- {
		pool = append(pool, S.And(any(), any()))
	}
	for _, m := range a.Latches {
		a.SetNext(m, any())
	}
	for i := r.Pick(1, 10, 3000); i > 0; i-- {
		a.SetOutput(any())
	}
	a.Bad = append(a.Bad, any())
	a.Constraints = append(a.Constraints, any(), any())
	for i := r.Intn(3); i > 0; i-- {
		a.Justice = append(a.Justice, []z.Lit{any(), any()})
	}
	a.Fair = append(a.Fair, any())
	for i := 0; i < 20; i++ {
		a.NameInput(r.Intn(nIn), aigNames[r.Intn(len(aigNames))])
		a.NameOutput(r.Intn(len(a.Outputs)), aigNames[r.Intn(len(aigNames))])
	}
	fw.Progress()
	want := semT(c, a, "built")
	writeAig(c, a, want, r.P(3, 4))
	c.Count("huge_nodes", S.Len())
	c.Obs(r.Uint64())
}

// aigReadHuge: files with numbers as big as they get in practice.
func aigReadHuge(c *fw.C) {
	r := c.R
	bin := r.P(2, 3)
	f := &aig{bin: bin, syms: map[string]string{}, fields: 9}
	nI, nL, nA := r.Pick(1<<20+r.Intn(1000), r.Range(10, 5000), 1<<13-1, 1<<13), r.Pick(0, 3, 300), r.Range(1000, 50000)
	n := nI + nL + nA
	f.max = uint64(n)
	name := func(i int) uint64 { return uint64(i) }
	if !bin {
		f.max += uint64(r.Pick(0, 1, 1<<20))
		if r.Bool() { // numbered backwards
			top := int(f.max)
			name = func(i int) uint64 {
				if i == 0 {
					return 0
				}
				return uint64(top + 1 - i)
			}
		}
	}
	lit := func(below int) uint64 {
		i := r.Intn(below)
		switch r.Intn(3) {
		case 0:
			i = r.Intn(1 + below/200)
		case 1:
			if i = below - 1 - r.Intn(9); i < 0 {
				i = 0
			}
		}
		return 2*name(i) + uint64(r.Intn(2))
	}
	for i := 1; i <= nI; i++ {
		f.ins = append(f.ins, 2*name(i))
	}
	for i := nI + 1; i <= nI+nL; i++ {
		u := 2 * name(i)
		f.lat = append(f.lat, u)
		f.next = append(f.next, lit(n+1))
		f.init = append(f.init, []uint64{0, 1, u}[r.Intn(3)])
	}
	for i := nI + nL + 1; i <= n; i++ {
		x, y := lit(i), lit(i)
		if bin && y > x {
			x, y = y, x
		}
		f.ands = append(f.ands, [3]uint64{2 * name(i), x, y})
	}
	if !bin && r.Bool() {
		p := r.Perm(len(f.ands))
		q := make([][3]uint64, len(p))
		for i := range p {
			q[i] = f.ands[p[i]]
		}
		f.ands = q
	}
	for i := r.Pick(1, 20, 3000); i > 0; i-- {
		f.out = append(f.out, lit(n+1))
	}
	f.bad, f.con, f.fair = []uint64{lit(n + 1)}, []uint64{lit(n + 1)}, []uint64{lit(n + 1)}
	f.just = [][]uint64{{lit(n + 1), lit(n + 1)}}
	f.comment = r.Bool()
	f.noReset = r.Bool()
	txt := f.text(r)
	fw.Progress()
	want := f.sem()
	read, _ := readerFor(bin)
	a, e := read(newChunkReader(r, txt))
	if e != nil {
		c.Failf("reading a file of %d inputs, %d latches, %d gates: %v", nI, nL, nA, e)
	}
	fw.Progress()
	mustSem(c, want, semT(c, a, "read"), "read aiger")
	if len(a.Latches) != nL {
		c.Failf("%d latches, want %d", len(a.Latches), nL)
	}
	c.Count("huge_nodes", n)
	c.Obs(r.Uint64())
}
