package main

import (
	"github.com/go-air/gini"
	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
	"verif/harness/ref"
)

// circ is a circuit next to the truth table, over 64 input patterns, of every
// literal it gave out.
type circ struct {
	c     *fw.C
	r     *fw.Rand
	C     *logic.C
	ins   []z.Lit
	pool  []z.Lit
	tt    map[z.Var]uint64
	memo  map[[2]z.Lit]z.Lit // and gates asked for
	exh   bool               // the patterns are all 2^6
	extra map[z.Var]bool     // latches and such: no gates
	free  []z.Lit            // what has a pattern of its own
}

func newCirc(c *fw.C, C *logic.C, exh bool) *circ {
	k := &circ{c: c, r: c.R, C: C, tt: map[z.Var]uint64{}, memo: map[[2]z.Lit]z.Lit{}, exh: exh, extra: map[z.Var]bool{}}
	if C.F != C.T.Not() {
		c.Failf("F is %s and T %s", C.F, C.T)
	}
	k.tt[C.T.Var()] = 0
	if C.T.IsPos() {
		k.tt[C.T.Var()] = ^uint64(0)
	}
	k.pool = append(k.pool, C.T)
	return k
}

var exhPat = [6]uint64{0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000}

func (k *circ) T(m z.Lit) uint64 {
	t, ok := k.tt[m.Var()]
	if !ok {
		k.c.Failf("literal %s was never defined", m)
	}
	if m.IsPos() {
		return t
	}
	return ^t
}

func (k *circ) define(m z.Lit, t uint64, what string) {
	if m.Var() == 0 || int(m.Var()) >= k.C.Len() {
		k.c.Failf("%s gives %s, which is not in a circuit of length %d", what, m, k.C.Len())
	}
	if !m.IsPos() {
		t = ^t
	}
	if o, ok := k.tt[m.Var()]; ok {
		if o != t {
			k.c.Failf("%s gives %s, which has the truth table %016x and not %016x (or their complement)", what, m, o, t)
		}
		return
	}
	k.tt[m.Var()] = t
}

func (k *circ) input() z.Lit {
	if k.exh && len(k.free) == 6 {
		return k.any()
	}
	n := k.C.Len()
	m := k.C.Lit()
	if _, ok := k.tt[m.Var()]; ok || !m.IsPos() || k.C.Len() != n+1 {
		k.c.Failf("Lit gives %s, which is not new", m)
	}
	k.freely(m, "Lit")
	k.ins = append(k.ins, m)
	return m
}

// freely gives m values of its own.
func (k *circ) freely(m z.Lit, what string) {
	t := k.r.Uint64()
	if k.exh {
		t = exhPat[len(k.free)]
	}
	k.define(m, t, what)
	k.free = append(k.free, m)
	k.pool = append(k.pool, m)
}

func (k *circ) any() z.Lit {
	p := k.pool
	if k.r.P(1, 2) && len(p) > 12 {
		p = p[len(p)-12:]
	}
	m := p[k.r.Intn(len(p))]
	if k.r.Bool() {
		m = m.Not()
	}
	return m
}

// all values are known of gates made inside an operation
func (k *circ) fill() {
	for i := 1; i < k.C.Len(); i++ {
		v := z.Var(i)
		if _, ok := k.tt[v]; ok {
			continue
		}
		a, b := k.C.Ins(v.Pos())
		if a == z.LitNull || b == z.LitNull || a.Var() >= v || b.Var() >= v {
			k.c.Failf("new node %d has operands %s %s, which do not come before it", i, a, b)
		}
		k.tt[v] = k.T(a) & k.T(b)
	}
}

// and does And with all that is promised of it.
func (k *circ) and(a, b z.Lit) z.Lit {
	n := k.C.Len()
	g := k.C.And(a, b)
	k.c.Logf("And(%s, %s) = %s", a, b, g)
	key := [2]z.Lit{a, b}
	if a > b {
		key = [2]z.Lit{b, a}
	}
	want, triv := g, true
	switch {
	case a == b:
		want = a
	case a == b.Not():
		want = k.C.F
	case a == k.C.F || b == k.C.F:
		want = k.C.F
	case a == k.C.T:
		want = b
	case b == k.C.T:
		want = a
	default:
		triv = false
	}
	if triv && (g != want || k.C.Len() != n) {
		k.c.Failf("And(%s, %s) = %s, want %s", a, b, g, want)
	}
	if !triv {
		if o, ok := k.memo[key]; ok && (o != g || k.C.Len() != n) {
			k.c.Failf("And(%s, %s) = %s, which was %s before (circuit length %d, was %d)", a, b, g, o, k.C.Len(), n)
		} else if ok {
			k.c.Count("shared", 1)
		}
		k.memo[key] = g
		if k.C.Len() > n {
			if k.C.Len() != n+1 || int(g.Var()) != n || !g.IsPos() {
				k.c.Failf("And(%s, %s) = %s; the length went from %d to %d", a, b, g, n, k.C.Len())
			}
			x, y := k.C.Ins(g)
			if !(x == a && y == b || x == b && y == a) {
				k.c.Failf("And(%s, %s) = %s, whose operands are %s and %s", a, b, g, x, y)
			}
		}
	}
	k.define(g, k.T(a)&k.T(b), "And")
	return g
}

func (k *circ) step() {
	a, b, d := k.any(), k.any(), k.any()
	var g z.Lit
	var t uint64
	what := ""
	switch k.r.Intn(11) {
	case 0:
		k.input()
		return
	case 1, 2, 3, 4:
		g = k.and(a, b)
		k.pool = append(k.pool, g)
		return
	case 5:
		what, g, t = "Or", k.C.Or(a, b), k.T(a)|k.T(b)
	case 6:
		what, g, t = "Xor", k.C.Xor(a, b), k.T(a)^k.T(b)
	case 7:
		what, g, t = "Implies", k.C.Implies(a, b), ^k.T(a)|k.T(b)
	case 8:
		what, g, t = "Choice", k.C.Choice(a, b, d), k.T(a)&k.T(b)|^k.T(a)&k.T(d)
	default:
		var ms []z.Lit
		for j := k.r.Intn(6); j > 0; j-- {
			ms = append(ms, k.any())
		}
		cp := append([]z.Lit{}, ms...)
		if k.r.Bool() {
			what, g, t = "Ands", k.C.Ands(ms...), ^uint64(0)
			for _, m := range ms {
				t &= k.T(m)
			}
			if len(ms) == 0 && g != k.C.T {
				k.c.Failf("Ands() = %s", g)
			}
		} else {
			what, g, t = "Ors", k.C.Ors(ms...), 0
			for _, m := range ms {
				t |= k.T(m)
			}
			if len(ms) == 0 && g != k.C.F {
				k.c.Failf("Ors() = %s", g)
			}
		}
		for j := range ms {
			if ms[j] != cp[j] {
				k.c.Failf("%s changed its arguments", what)
			}
		}
	}
	k.c.Logf("%s(%s %s %s) = %s", what, a, b, d, g)
	k.fill()
	k.define(g, t, what)
	k.pool = append(k.pool, g)
}

// audit checks the whole circuit.
func (k *circ) audit() {
	n := k.C.Len()
	var gates []int
	inp := map[int]bool{}
	for i, m := range k.ins {
		inp[int(m.Var())] = true
		_ = i
	}
	for i := 1; i < n; i++ {
		m := k.C.At(i)
		if m != z.Var(i).Pos() {
			k.c.Failf("At(%d) = %s", i, m)
		}
		if k.extra[m.Var()] || m.Var() == k.C.T.Var() {
			continue
		}
		a, b := k.C.Ins(m)
		if inp[i] {
			if a != z.LitNull || b != z.LitNull {
				k.c.Failf("input %s has operands %s %s", m, a, b)
			}
			continue
		}
		gates = append(gates, i)
		if a.Var() >= m.Var() || b.Var() >= m.Var() || a.Var() < 2 || b.Var() < 2 || a.Var() == b.Var() {
			k.c.Failf("gate %s has operands %s %s", m, a, b)
		}
		if k.T(a)&k.T(b) != k.T(m) {
			k.c.Failf("gate %s = %s & %s does not have its truth table", m, a, b)
		}
	}
	// every gate is found again
	seen := map[[2]z.Lit]int{}
	for _, i := range gates {
		a, b := k.C.Ins(z.Var(i).Pos())
		if a > b {
			a, b = b, a
		}
		if j, ok := seen[[2]z.Lit{a, b}]; ok {
			k.c.Failf("gates %d and %d have the same operands %s and %s", j, i, a, b)
		}
		seen[[2]z.Lit{a, b}] = i
	}
	for j := 0; j < 20 && len(gates) > 0; j++ {
		i := gates[k.r.Intn(len(gates))]
		a, b := k.C.Ins(z.Var(i).Pos())
		if k.r.Bool() {
			a, b = b, a
		}
		if g := k.C.And(a, b); g != z.Var(i).Pos() || k.C.Len() != n {
			k.c.Failf("And(%s, %s) = %s, but gate %d has those operands (length %d, was %d)", a, b, g, i, k.C.Len(), n)
		}
	}
	// inputs
	pos := k.C.InPos(make([]int, k.r.Intn(4)))
	if len(pos) != len(k.ins) {
		k.c.Failf("InPos = %v, inputs are %v", pos, k.ins)
	}
	for j, p := range pos {
		if k.C.At(p) != k.ins[j] {
			k.c.Failf("InPos = %v, inputs are %v", pos, k.ins)
		}
	}
	k.evals()
	k.c.Count("audits", 1)
}

func (k *circ) evals() {
	n := k.C.Len()
	vs := make([]uint64, n+k.r.Intn(3))
	for i := range vs {
		vs[i] = k.r.Uint64()
	}
	for _, m := range k.ins {
		vs[m.Var()] = k.tt[m.Var()]
	}
	for v := range k.extra {
		vs[v] = k.tt[v]
	}
	k.C.Eval64(vs)
	for i := 1; i < n; i++ {
		if vs[i] != k.tt[z.Var(i)] {
			k.c.Failf("Eval64: variable %d is %016x, want %016x", i, vs[i], k.tt[z.Var(i)])
		}
	}
	for j := 0; j < 3; j++ {
		b := uint(k.r.Pick(0, 63, k.r.Intn(64)))
		bs := make([]bool, n+k.r.Intn(3))
		for i := range bs {
			bs[i] = k.r.Bool()
		}
		for _, m := range k.ins {
			bs[m.Var()] = k.tt[m.Var()]>>b&1 == 1
		}
		for v := range k.extra {
			bs[v] = k.tt[v]>>b&1 == 1
		}
		k.C.Eval(bs)
		for i := 1; i < n; i++ {
			if bs[i] != (k.tt[z.Var(i)]>>b&1 == 1) {
				k.c.Failf("Eval: variable %d is %t", i, bs[i])
			}
		}
	}
	k.c.Count("evaluated_nodes", n)
}

func (k *circ) fork() *circ {
	o := *k
	o.C = k.C.Copy()
	o.ins = append([]z.Lit{}, k.ins...)
	o.free = append([]z.Lit{}, k.free...)
	o.pool = append([]z.Lit{}, k.pool...)
	o.tt = map[z.Var]uint64{}
	o.memo = map[[2]z.Lit]z.Lit{}
	o.extra = map[z.Var]bool{}
	for a, b := range k.tt {
		o.tt[a] = b
	}
	for a, b := range k.memo {
		o.memo[a] = b
	}
	for a, b := range k.extra {
		o.extra[a] = b
	}
	return &o
}

func newC(r *fw.Rand) *logic.C {
	switch r.Intn(3) {
	case 0:
		return logic.NewC()
	case 1:
		return logic.NewCCap(r.Pick(0, 1, 2, 3, 5, 8, 100))
	}
	return &logic.NewSCap(r.Pick(1, 2, 3, 7, 200)).C
}

func circCase(c *fw.C) {
	r := c.R
	ks := []*circ{newCirc(c, newC(r), r.Bool())}
	for i := r.Range(1, 6); i > 0; i-- {
		ks[0].input()
	}
	steps := r.Pick(5, 30, 30, 80, 300)
	for i := 0; i < steps; i++ {
		k := ks[r.Intn(len(ks))]
		k.step()
		if r.P(1, 40) {
			k.audit()
		}
		if len(ks) < 4 && r.P(1, 60) {
			ks = append(ks, k.fork())
			c.Count("copies", 1)
		}
	}
	sz := 0
	for _, k := range ks {
		k.audit()
		sz += k.C.Len()
	}
	c.Count("nodes", sz)
	h := uint64(sz)
	for _, m := range ks[0].pool {
		h = fw.HashInts(h, int(m))
	}
	c.Obs(h)
}

// ---- cnf ----

type collector struct {
	f   cnf
	cur []int
	bad bool
}

func (k *collector) Add(m z.Lit) {
	if m == z.LitNull {
		k.f = append(k.f, k.cur)
		k.cur = nil
		return
	}
	k.cur = append(k.cur, m.Dimacs())
}

// cone is the gates and inputs reachable from roots.
func (k *circ) cone(roots []z.Lit) map[int]bool {
	in := map[int]bool{}
	var vis func(v z.Var)
	vis = func(v z.Var) {
		if in[int(v)] {
			return
		}
		in[int(v)] = true
		if k.extra[v] {
			return
		}
		a, b := k.C.Ins(v.Pos())
		if a != z.LitNull && b != z.LitNull {
			vis(a.Var())
			vis(b.Var())
		}
	}
	for _, m := range roots {
		vis(m.Var())
	}
	return in
}

func (k *circ) isGate(v int) bool {
	if v < 2 || k.extra[z.Var(v)] {
		return false
	}
	a, _ := k.C.Ins(z.Var(v).Pos())
	return a != z.LitNull
}

// checkCnf: f defines the gates in cone, and nothing else.
func (k *circ) checkCnf(f cnf, cone map[int]bool, what string) {
	gates := 0
	for v := range cone {
		if k.isGate(v) {
			gates++
		}
	}
	for _, cl := range f {
		for _, l := range cl {
			if abs(l) != int(k.C.T.Var()) && !cone[abs(l)] {
				k.c.Failf("%s: clause %v mentions %d, which is not reachable from the roots", what, cl, abs(l))
			}
		}
	}
	for j := 0; j < 4; j++ {
		b := uint(k.r.Intn(64))
		val := func(v int) bool { return k.tt[z.Var(v)]>>b&1 == 1 }
		var as []int
		m := make([]bool, k.C.Len())
		for i := 1; i < k.C.Len(); i++ {
			m[i] = val(i)
		}
		for _, in := range k.ins {
			as = append(as, sgn(int(in.Var()), val(int(in.Var()))))
		}
		for v := range k.extra {
			as = append(as, sgn(int(v), val(int(v))))
		}
		if !ref.Eval(f, m) {
			k.c.Failf("%s: the circuit's values under inputs %v falsify a clause", what, as)
		}
		cl, ok := bcp(f, as)
		if !ok {
			k.c.Failf("%s: inputs %v give a conflict", what, as)
		}
		for v := range cone {
			if k.isGate(v) && !cl[sgn(v, val(v))] {
				k.c.Failf("%s: inputs %v do not give gate %d its value by unit propagation", what, as, v)
			}
		}
		if !cl[k.C.T.Dimacs()] {
			k.c.Failf("%s: the constant true is not defined", what)
		}
	}
	k.c.Count("gates_defined", gates)
}

func sgn(v int, b bool) int {
	if b {
		return v
	}
	return -v
}

func dupClauses(f cnf) []int {
	seen := map[string]bool{}
	for _, cl := range f {
		s := cnf{cl}.String()
		if seen[s] {
			return cl
		}
		seen[s] = true
	}
	return nil
}

func cnfCase(c *fw.C) {
	r := c.R
	var S *logic.S // what has latches; they are free in the cnf
	C := newC(r)
	if r.P(1, 3) {
		S = logic.NewSCap(r.Pick(1, 3, 100))
		C = &S.C
	}
	k := newCirc(c, C, true)
	grow := func() {
		if S == nil || len(k.free) == 6 || !r.P(1, 12) {
			k.step()
			return
		}
		m := S.Latch([]z.Lit{S.F, S.T, z.LitNull}[r.Intn(3)])
		k.extra[m.Var()] = true
		k.freely(m, "Latch")
		c.Count("latches", 1)
	}
	wire := func() {
		if S == nil {
			return
		}
		for _, m := range S.Latches {
			if r.Bool() {
				S.SetNext(m, k.any())
			}
		}
	}
	for i := r.Range(1, 6); i > 0; i-- {
		k.input()
	}
	for i := r.Pick(3, 10, 30, 60); i > 0; i-- {
		grow()
	}
	wire()
	all := map[int]bool{}
	for i := 1; i < k.C.Len(); i++ {
		all[i] = true
	}
	// whole circuit
	w := &collector{}
	k.C.ToCnf(w)
	k.checkCnf(w.f, all, "ToCnf")
	// from roots
	var roots []z.Lit
	for i := r.Intn(4); i > 0; i-- {
		roots = append(roots, k.any())
	}
	w = &collector{}
	k.C.ToCnfFrom(w, roots...)
	k.checkCnf(w.f, k.cone(roots), "ToCnfFrom")
	// since
	w = &collector{}
	var mark []int8
	if r.Bool() {
		mark = make([]int8, 0, r.Intn(100))
	}
	var rs []z.Lit
	total := 0
	last := 0
	again := r.Range(-6, 3)
	for i := r.Range(1, 6); i > 0; i-- {
		var add []z.Lit
		for j := r.Intn(3); j > 0; j-- {
			add = append(add, k.any())
		}
		rs = append(rs, add...)
		var n int
		before := len(w.f)
		if i == again && total > 0 {
			// starting over with the storage at hand
			w = &collector{}
			mark, total = mark[:0], 0
			rs = append([]z.Lit{}, add...)
			before = 0
			c.Count("marks_reused", 1)
		}
		if r.P(1, 4) && mark != nil { // in storage used for something else
			d := make([]int8, len(mark)+r.Intn(200))
			for i := range d {
				d[i] = int8(r.Intn(2))
			}
			mark = append(d[:0], mark...)
			c.Count("marks_moved", 1)
		}
		mark, n = k.C.CnfSince(w, mark, add...)
		total += n
		cone := k.cone(rs)
		k.checkCnf(w.f, cone, "CnfSince")
		gates := 1 // the constant
		for v := range cone {
			if k.isGate(v) {
				gates++
			}
		}
		if total != gates {
			c.Failf("CnfSince counts %d nodes, %d in all; the roots so far need %d", n, total, gates)
		}
		if n == 0 && len(w.f) != before {
			c.Failf("CnfSince added clauses and counts none")
		}
		if d := dupClauses(w.f); d != nil {
			c.Failf("CnfSince adds clause %v again", d)
		}
		last = n
		if len(mark) < k.C.Len() {
			c.Failf("CnfSince returns %d marks for %d nodes", len(mark), k.C.Len())
		}
		for j := r.Intn(r.Pick(2, 20, 120)); j > 0; j-- {
			grow()
		}
		wire()
	}
	_ = last
	// solving under roots is what the truth tables say
	g := gini.New()
	k.C.ToCnfFrom(g, rs...)
	for j := 0; j < 4 && len(rs) > 0; j++ {
		t := ^uint64(0)
		var as []z.Lit
		for i := r.Range(1, 3); i > 0; i-- {
			m := rs[r.Intn(len(rs))]
			if r.Bool() {
				m = m.Not()
			}
			as = append(as, m)
			t &= k.T(m)
		}
		g.Assume(as...)
		res := g.Solve()
		if (res == 1) != (t != 0) {
			c.Failf("circuit under %v: Solve gives %d, the truth table is %016x", as, res, t)
		}
		if res == 1 {
			// the model is a row of the table
			b := uint(0)
			for i, m := range k.free {
				if int(m.Var()) <= int(g.MaxVar()) && g.Value(m) {
					b |= 1 << uint(i)
				}
			}
			if t>>b&1 == 0 {
				c.Failf("circuit under %v: the model's inputs do not make them true", as)
			}
		}
		c.Count("solved", 1)
	}
	c.Obs(fw.HashInts(uint64(k.C.Len()), total) ^ w.f.hash())
}

// ---- cardinality ----

func cardCase(c *fw.C) {
	r := c.R
	k := newCirc(c, newC(r), false)
	n := r.Pick(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, r.Range(0, 40))
	if c.Thorough() && r.P(1, 10) {
		n = r.Range(30, 140)
	}
	var ms []z.Lit
	distinct := r.P(2, 3)
	for i := 0; i < n; i++ {
		switch {
		case distinct || len(k.ins) == 0 || r.Bool():
			m := k.input()
			// patterns of all densities
			d := r.Intn(5)
			t := r.Uint64()
			for j := 0; j < d; j++ {
				if r.Bool() {
					t &= r.Uint64()
				} else {
					t |= r.Uint64()
				}
			}
			k.tt[m.Var()] = t | 1<<63&^(1<<62)
			if r.Bool() {
				m = m.Not()
			}
			ms = append(ms, m)
		case r.P(1, 6):
			ms = append(ms, []z.Lit{k.C.T, k.C.F}[r.Intn(2)])
		case r.P(1, 4):
			a, b := k.any(), k.any()
			g := k.C.And(a, b)
			k.fill()
			k.define(g, k.T(a)&k.T(b), "And")
			ms = append(ms, g)
		default:
			ms = append(ms, k.any())
		}
	}
	cp := append([]z.Lit{}, ms...)
	var cs *logic.CardSort
	if r.Bool() {
		cs = k.C.CardSort(ms)
	} else {
		cs = logic.NewCardSort(ms, k.C)
	}
	for i := range ms {
		if ms[i] != cp[i] {
			c.Failf("CardSort changed its argument")
		}
	}
	// the caller may do with its slice what it likes
	for i := range ms {
		ms[i] = z.LitNull
	}
	ms = cp
	if cs.N() != n {
		c.Failf("N() = %d for %d literals", cs.N(), n)
	}
	k.fill()
	var cnt [64]int
	for _, m := range ms {
		t := k.T(m)
		for b := 0; b < 64; b++ {
			cnt[b] += int(t >> uint(b) & 1)
		}
	}
	type pred struct {
		name string
		m    z.Lit
		is   func(k int) bool
	}
	var ps []pred
	for _, b := range cardBounds(r, n) {
		b := b
		ps = append(ps, pred{"Leq", cs.Leq(b), func(k int) bool { return k <= b }},
			pred{"Geq", cs.Geq(b), func(k int) bool { return k >= b }},
			pred{"Less", cs.Less(b), func(k int) bool { return k < b }},
			pred{"Gr", cs.Gr(b), func(k int) bool { return k > b }})
		for _, p := range ps[len(ps)-4:] {
			k.fill()
			t := k.T(p.m)
			for x := 0; x < 64; x++ {
				if (t>>uint(x)&1 == 1) != p.is(cnt[x]) {
					c.Failf("%s(%d) over %v is %d when %d of them are true", p.name, b, ms, t>>uint(x)&1, cnt[x])
				}
			}
			c.Count("predicates", 1)
		}
	}
	k.evals()
	if distinct && n <= 20 && n > 0 {
		// partial valuations decide by unit propagation
		w := &collector{}
		k.C.ToCnf(w)
		for j := 0; j < 3; j++ {
			var as []int
			pos, neg := 0, 0
			for _, m := range ms {
				switch r.Intn(3) {
				case 0:
					as = append(as, m.Dimacs())
					pos++
				case 1:
					as = append(as, m.Not().Dimacs())
					neg++
				}
			}
			cl, ok := bcp(w.f, as)
			if !ok {
				c.Failf("valuation %v gives a conflict", as)
			}
			for _, p := range ps {
				d := p.m.Dimacs()
				all, none := true, true
				for x := pos; x <= n-neg; x++ {
					if p.is(x) {
						none = false
					} else {
						all = false
					}
				}
				if all && !cl[d] || none && !cl[-d] {
					c.Failf("%d true and %d false of %d do not decide %s by unit propagation, but decide it", pos, neg, n, p.name)
				}
				if cl[d] && !all || cl[-d] && !none {
					c.Failf("%d true and %d false of %d decide %s by unit propagation, but should not", pos, neg, n, p.name)
				}
				c.Count("propagated", 1)
			}
		}
	}
	h := fw.HashInts(uint64(n), k.C.Len())
	for _, m := range ms {
		h = fw.HashInts(h, int(m))
	}
	c.Obs(h)
}

func cardBounds(r *fw.Rand, n int) []int {
	var bs []int
	if n <= 20 {
		for b := -2; b <= n+2; b++ {
			bs = append(bs, b)
		}
		for i := len(bs) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			bs[i], bs[j] = bs[j], bs[i]
		}
		return bs
	}
	bs = append(bs, -1, 0, 1, n-1, n, n+1)
	for i := 0; i < 10; i++ {
		bs = append(bs, r.Range(0, n))
	}
	return bs
}

// ---- sequential ----

type latch struct {
	m, init z.Lit
	next    z.Lit
}

func seqCase(c *fw.C) { seqRun(c, false) }

// latchCase is of the circuit, its latches and its copies alone.
func latchCase(c *fw.C) { seqRun(c, true) }

func seqRun(c *fw.C, only bool) {
	r := c.R
	var S *logic.S
	if r.Bool() {
		S = logic.NewS()
	} else {
		S = logic.NewSCap(r.Pick(1, 2, 3, 5, 40))
	}
	k := newCirc(c, &S.C, false)
	var ls []*latch
	inits := []z.Lit{S.F, S.T, z.LitNull}
	newLatch := func() {
		i := inits[r.Intn(3)]
		m := S.Latch(i)
		l := &latch{m: m, init: i, next: m}
		if !m.IsPos() || int(m.Var()) != S.Len()-1 || S.Init(m) != i || S.Next(m) != m {
			c.Failf("Latch(%s) = %s with init %s and next %s", i, m, S.Init(m), S.Next(m))
		}
		ls = append(ls, l)
		k.extra[m.Var()] = true
		k.define(m, r.Uint64(), "Latch")
		k.pool = append(k.pool, m)
	}
	build := func(n int) {
		for i := 0; i < n; i++ {
			if r.P(1, 6) {
				newLatch()
			} else {
				k.step()
			}
		}
	}
	wire := func() {
		for _, l := range ls {
			if r.P(3, 4) {
				l.next = k.any()
				if r.P(1, 8) {
					l.next = []z.Lit{S.F, S.T}[r.Intn(2)]
				}
				S.SetNext(l.m, l.next)
			}
			if r.P(1, 6) {
				l.init = inits[r.Intn(3)]
				S.SetInit(l.m, l.init)
			}
		}
		if !r.P(1, 4) {
			return
		}
		// what is not a latch has no next state, and only T, F and X are
		// initial values; the circuit stays as it is.
		isL := map[z.Var]bool{}
		for _, l := range ls {
			isL[l.m.Var()] = true
		}
		if m := k.any(); !isL[m.Var()] {
			if p, _ := fw.Catch(func() { S.SetNext(m, k.any()) }); p == nil {
				c.Failf("SetNext takes %s, which is a %s, for a latch", m, S.Type(m))
			}
			c.Count("not_latches", 1)
		}
		if m := k.any(); m != S.T && m != S.F {
			if p, _ := fw.Catch(func() { S.Latch(m) }); p == nil {
				c.Failf("Latch takes %s as initial value", m)
			}
			if len(ls) > 0 {
				if p, _ := fw.Catch(func() { S.SetInit(ls[r.Intn(len(ls))].m, m) }); p == nil {
					c.Failf("SetInit takes %s as initial value", m)
				}
			}
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		k.input()
	}
	build(r.Pick(0, 3, 10, 40))
	wire()
	verify := func(S *logic.S, k *circ, ls []*latch, what string) {
		if len(S.Latches) != len(ls) {
			c.Failf("%s: %d latches, want %d", what, len(S.Latches), len(ls))
		}
		isL := map[z.Var]bool{}
		for i, l := range ls {
			isL[l.m.Var()] = true
			if S.Latches[i] != l.m || S.Next(l.m) != l.next || S.Init(l.m) != l.init {
				c.Failf("%s: latch %s is %s with next %s and init %s, want %s and %s", what, l.m, S.Latches[i], S.Next(l.m), S.Init(l.m), l.next, l.init)
			}
		}
		isI := map[z.Var]bool{}
		for _, m := range k.ins {
			isI[m.Var()] = true
		}
		for i := 1; i < S.Len(); i++ {
			m := z.Var(i).Pos()
			want := logic.SAnd
			switch {
			case i == int(S.T.Var()):
				want = logic.SConst
			case isL[m.Var()]:
				want = logic.SLatch
			case isI[m.Var()]:
				want = logic.SInput
			}
			if g := S.Type(m); g != want || S.Type(m.Not()) != want {
				c.Failf("%s: Type(%s) = %s, want %s", what, m, g, want)
			}
		}
		k.audit()
	}
	verify(S, k, ls, "circuit")
	// a copy is the same, and does not follow
	if only || r.P(1, 3) {
		S2 := S.Copy()
		k2 := k.fork()
		k2.C = &S2.C
		var ls2 []*latch
		for _, l := range ls {
			x := *l
			ls2 = append(ls2, &x)
		}
		verify(S2, k2, ls2, "copy")
		change := func(S *logic.S, k *circ, ls *[]*latch) {
			k.step()
			i := inits[r.Intn(3)]
			m := S.Latch(i)
			*ls = append(*ls, &latch{m, i, m})
			k.extra[m.Var()] = true
			k.define(m, r.Uint64(), "Latch")
			l := (*ls)[r.Intn(len(*ls))]
			l.next = k.any()
			S.SetNext(l.m, l.next)
		}
		both := r.Bool()
		for i := 0; i < 5; i++ {
			if both && r.Bool() {
				change(S, k, &ls)
			}
			change(S2, k2, &ls2)
		}
		verify(S, k, ls, "original")
		verify(S2, k2, ls2, "changed copy")
		if r.Bool() {
			S, k, ls = S2, k2, ls2
		}
		c.Count("copies", 1)
	}
	if only {
		h := fw.HashInts(uint64(len(ls)), S.Len())
		for i := 2; i < S.Len(); i++ {
			a, b := S.Ins(z.Var(i).Pos())
			h = fw.HashInts(h, int(a), int(b))
		}
		for _, l := range ls {
			h = fw.HashInts(h, int(l.m), int(l.next), int(l.init))
		}
		c.Obs(h)
		return
	}
	// unroll
	roll := logic.NewRoll(S)
	D := r.Range(0, 7)
	if r.P(1, 12) {
		D = r.Range(8, 60)
	}
	type at struct {
		m z.Lit
		d int
	}
	got := map[at]z.Lit{}
	ask := func(m z.Lit, d int) z.Lit {
		g := roll.At(m, d)
		c.Logf("At(%s, %d) = %s", m, d, g)
		if o, ok := got[at{m, d}]; ok && o != g {
			c.Failf("At(%s, %d) = %s, was %s", m, d, g, o)
		}
		got[at{m, d}] = g
		if roll.Len(m) <= d {
			c.Failf("Len(%s) = %d after At(.., %d)", m, roll.Len(m), d)
		}
		if roll.MaxLen() < roll.Len(m) {
			c.Failf("MaxLen() = %d < Len(%s) = %d", roll.MaxLen(), m, roll.Len(m))
		}
		return g
	}
	anyAt := func() {
		ask(k.any(), r.Intn(D+1))
	}
	for i := r.Intn(6); i > 0; i-- {
		anyAt()
	}
	if r.P(1, 4) { // the circuit grows while it is unrolled
		build(r.Range(1, 10))
		for _, l := range ls {
			if l.next == l.m && roll.Len(l.m) == 0 && r.Bool() {
				l.next = k.any()
				S.SetNext(l.m, l.next)
			}
		}
		c.Count("grown", 1)
	}
	for i := r.Intn(12); i > 0; i-- {
		anyAt()
	}
	for d := D; d >= 0; d-- {
		for i := 1; i < S.Len(); i++ {
			if S.Len() < 30 || r.P(1, 3) {
				ask(sgnLit(r, z.Var(i)), d)
			}
		}
	}
	for _, m := range k.ins {
		for d := 0; d <= D; d++ {
			ask(m, d)
		}
	}
	for _, l := range ls {
		ask(l.m, 0)
	}
	// inputs of the unrolling: one for each input at each time and each
	// latch without initial value
	free := map[z.Var]bool{}
	vals := make([]uint64, roll.C.Len())
	sim := make([][]uint64, D+1)
	for d := range sim {
		sim[d] = make([]uint64, S.Len())
	}
	freeLit := func(m z.Lit, d int, what string) {
		g := got[at{m, d}]
		if !g.IsPos() || free[g.Var()] || g.Var() == roll.C.T.Var() {
			c.Failf("%s %s at %d is %s, which is not a variable of its own", what, m, d, g)
		}
		if a, b := roll.C.Ins(g); a != z.LitNull || b != z.LitNull {
			c.Failf("%s %s at %d is %s, which is not an input", what, m, d, g)
		}
		free[g.Var()] = true
		vals[g.Var()] = r.Uint64()
		sim[d][m.Var()] = vals[g.Var()]
	}
	for _, m := range k.ins {
		for d := 0; d <= D; d++ {
			freeLit(m, d, "input")
		}
	}
	for _, l := range ls {
		if l.init == z.LitNull {
			freeLit(l.m, 0, "uninitialised latch")
		}
	}
	roll.C.Eval64(vals)
	// simulate
	kind := make([]int, S.Len())
	for _, m := range k.ins {
		kind[m.Var()] = 1
	}
	for _, l := range ls {
		kind[l.m.Var()] = 2
	}
	lv := func(row []uint64, m z.Lit) uint64 {
		if m.IsPos() {
			return row[m.Var()]
		}
		return ^row[m.Var()]
	}
	for d := 0; d <= D; d++ {
		sim[d][S.T.Var()] = ^uint64(0)
		for _, l := range ls {
			switch {
			case d > 0:
				sim[d][l.m.Var()] = lv(sim[d-1], l.next)
			case l.init == S.T:
				sim[0][l.m.Var()] = ^uint64(0)
			case l.init == S.F:
				sim[0][l.m.Var()] = 0
			}
		}
		for i := 2; i < S.Len(); i++ {
			if kind[i] == 0 {
				a, b := S.Ins(z.Var(i).Pos())
				sim[d][i] = lv(sim[d], a) & lv(sim[d], b)
			}
		}
	}
	for a, g := range got {
		if lv(vals, g) != lv(sim[a.d], a.m) {
			c.Failf("%s at time %d, unrolled to %s, is %016x and simulated %016x", a.m, a.d, g, lv(vals, g), lv(sim[a.d], a.m))
		}
	}
	c.Count("unrolled", len(got))
	c.Count("latches", len(ls))
	h := fw.HashInts(uint64(D), S.Len(), len(ls), roll.C.Len())
	for a, g := range got {
		h += fw.HashInts(7, int(a.m), a.d, int(g))
	}
	c.Obs(h)
}

func sgnLit(r *fw.Rand, v z.Var) z.Lit {
	if r.Bool() {
		return v.Pos()
	}
	return v.Neg()
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C12",
		Rule: "random sequences of circuit operations on circuits (and their copies) of small initial capacity, each literal shadowed by its truth table over 64 patterns; " +
			"audits check every node, operand, input list, sharing, and Eval and Eval64 of the whole circuit; distinct by the literals produced",
		Need: []string{"audits", "shared", "copies", "evaluated_nodes"},
		Workloads: []fw.Workload{
			{Name: "circuits", Quick: 240000, Thorough: 4000000, Fn: circCase},
			{Name: "huge", Quick: 16, Thorough: 200, Fn: circHuge},
			{Name: "latches", Quick: 80000, Thorough: 1000000, Fn: latchCase},
		},
	})
	fw.Register(&fw.Prop{
		ID: "C13",
		Rule: "random circuits over at most 6 inputs written as clauses whole, from roots, and incrementally with growth in between; " +
			"clauses are evaluated on the truth tables, unit propagation from inputs must give every gate in the cone, nothing outside it may appear or repeat, and solving under roots must match the tables",
		Need: []string{"gates_defined", "solved", "latches", "marks_reused", "marks_moved"},
		Workloads: []fw.Workload{
			{Name: "cnf", Quick: 120000, Thorough: 4000000, Fn: cnfCase},
			{Name: "huge", Quick: 16, Thorough: 320, Fn: cnfHuge},
		},
	})
	fw.Register(&fw.Prop{
		ID: "C14",
		Rule: "cardinality over 0..40 (thorough 140) literals (distinct, repeated, complementary, constant, gates): every predicate for bounds around and beyond the range, against counting in 64 patterns; " +
			"over distinct literals, partial valuations must decide exactly the predicates they imply by unit propagation",
		Need: []string{"predicates", "propagated"},
		Workloads: []fw.Workload{
			{Name: "card", Quick: 480000, Thorough: 4000000, Fn: cardCase},
			{Name: "huge", Quick: 80, Thorough: 1600, Fn: cardHuge},
		},
	})
	fw.Register(&fw.Prop{
		ID:   "C15",
		Rule: "random sequential circuits (latches of all initial values, rewired, reinitialised, copied, grown during unrolling) unrolled in random order; all unrolled literals are evaluated in 64 patterns and compared with a step by step simulation",
		Need: []string{"unrolled", "latches", "copies", "grown", "not_latches"},
		Workloads: []fw.Workload{
			{Name: "seq", Quick: 480000, Thorough: 4000000, Fn: seqCase},
			{Name: "huge", Quick: 80, Thorough: 1600, Fn: rollHuge},
		},
	})
}
