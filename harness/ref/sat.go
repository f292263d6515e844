// Package ref is the independent oracle: a small CDCL solver over DIMACS ints
// written for this harness; it shares nothing with the code under test.
package ref

import "sort"

// Result of a reference solve.
type Result struct {
	Sat     bool
	Unknown bool   // conflict budget exhausted
	Model   []bool // 1-indexed
}

type clause struct {
	lits   []int32
	learnt bool
	act    float64
}

type solver struct {
	n       int
	cls     []*clause
	lrn     []*clause
	watch   [][]*clause
	val     []int8 // by lit index
	level   []int32
	reason  []*clause
	trail   []int32
	lim     []int
	head    int
	act     []float64
	inc     float64
	heap    []int32
	hpos    []int32
	phase   []int8
	seen    []bool
	cinc    float64
	ok      bool
	confl   int64
	maxConf int64
}

// literal encoding: 2*v for v, 2*v+1 for -v
func enc(l int) int32 {
	if l < 0 {
		return int32(-2*l + 1)
	}
	return int32(2 * l)
}

func maxVar(cls [][]int, as []int) int {
	n := 0
	up := func(l int) {
		if l < 0 {
			l = -l
		}
		if l > n {
			n = l
		}
	}
	for _, c := range cls {
		for _, l := range c {
			up(l)
		}
	}
	for _, l := range as {
		up(l)
	}
	return n
}

// Solve decides cls under the assumptions as.
func Solve(cls [][]int, as []int) Result { return SolveLim(cls, as, 1<<40) }

// Sat is Solve(...).Sat.
func Sat(cls [][]int, as ...int) bool { return Solve(cls, as).Sat }

// SolveLim is Solve with a conflict budget. Variables are compacted first so
// sparse numberings are cheap.
func SolveLim(cls [][]int, as []int, maxConf int64) Result {
	n := maxVar(cls, as)
	mp := make(map[int]int)
	var back []int
	back = append(back, 0)
	conv := func(l int) int {
		v := l
		if v < 0 {
			v = -v
		}
		u, ok := mp[v]
		if !ok {
			u = len(back)
			mp[v] = u
			back = append(back, v)
		}
		if l < 0 {
			return -u
		}
		return u
	}
	cc := make([][]int, 0, len(cls)+len(as))
	for _, c := range cls {
		d := make([]int, len(c))
		for i, l := range c {
			d[i] = conv(l)
		}
		cc = append(cc, d)
	}
	for _, a := range as {
		cc = append(cc, []int{conv(a)})
	}
	s := newSolver(len(back) - 1)
	s.maxConf = maxConf
	for _, c := range cc {
		s.add(c)
	}
	r := s.solve()
	res := Result{}
	if r == 0 {
		res.Unknown = true
		return res
	}
	if r < 0 {
		return res
	}
	res.Sat = true
	res.Model = make([]bool, n+1)
	for u := 1; u < len(back); u++ {
		res.Model[back[u]] = s.val[2*u] == 1
	}
	return res
}

func newSolver(n int) *solver {
	s := &solver{n: n, ok: true, inc: 1, cinc: 1}
	s.watch = make([][]*clause, 2*n+2)
	s.val = make([]int8, 2*n+2)
	s.level = make([]int32, n+1)
	s.reason = make([]*clause, n+1)
	s.act = make([]float64, n+1)
	s.phase = make([]int8, n+1)
	s.seen = make([]bool, n+1)
	s.hpos = make([]int32, n+1)
	for v := 1; v <= n; v++ {
		s.hpos[v] = int32(len(s.heap))
		s.heap = append(s.heap, int32(v))
	}
	return s
}

func (s *solver) add(c []int) {
	if !s.ok {
		return
	}
	ls := make([]int32, 0, len(c))
	m := map[int32]bool{}
	for _, l := range c {
		e := enc(l)
		if m[e] {
			continue
		}
		if m[e^1] {
			return
		}
		if s.val[e] == 1 {
			return
		}
		if s.val[e] == -1 {
			continue
		}
		m[e] = true
		ls = append(ls, e)
	}
	switch len(ls) {
	case 0:
		s.ok = false
	case 1:
		s.assign(ls[0], nil)
		if s.prop() != nil {
			s.ok = false
		}
	default:
		cl := &clause{lits: ls}
		s.cls = append(s.cls, cl)
		s.attach(cl)
	}
}

func (s *solver) attach(c *clause) {
	s.watch[c.lits[0]^1] = append(s.watch[c.lits[0]^1], c)
	s.watch[c.lits[1]^1] = append(s.watch[c.lits[1]^1], c)
}

func (s *solver) assign(l int32, r *clause) {
	s.val[l] = 1
	s.val[l^1] = -1
	s.level[l>>1] = int32(len(s.lim))
	s.reason[l>>1] = r
	s.trail = append(s.trail, l)
}

func (s *solver) prop() *clause {
	for s.head < len(s.trail) {
		p := s.trail[s.head]
		s.head++
		ws := s.watch[p]
		j := 0
		for i := 0; i < len(ws); i++ {
			c := ws[i]
			if c.lits == nil {
				continue
			}
			f := p ^ 1
			if c.lits[0] == f {
				c.lits[0], c.lits[1] = c.lits[1], f
			}
			if s.val[c.lits[0]] == 1 {
				ws[j] = c
				j++
				continue
			}
			found := false
			for k := 2; k < len(c.lits); k++ {
				if s.val[c.lits[k]] != -1 {
					c.lits[1], c.lits[k] = c.lits[k], f
					s.watch[c.lits[1]^1] = append(s.watch[c.lits[1]^1], c)
					found = true
					break
				}
			}
			if found {
				continue
			}
			ws[j] = c
			j++
			if s.val[c.lits[0]] == -1 {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watch[p] = ws[:j]
				s.head = len(s.trail)
				return c
			}
			s.assign(c.lits[0], c)
		}
		s.watch[p] = ws[:j]
	}
	return nil
}

func (s *solver) back(l int) {
	if len(s.lim) <= l {
		return
	}
	for i := len(s.trail) - 1; i >= s.lim[l]; i-- {
		x := s.trail[i]
		v := x >> 1
		s.val[x], s.val[x^1] = 0, 0
		s.reason[v] = nil
		if x&1 == 0 {
			s.phase[v] = 1
		} else {
			s.phase[v] = -1
		}
		s.hinsert(v)
	}
	s.trail = s.trail[:s.lim[l]]
	s.lim = s.lim[:l]
	s.head = len(s.trail)
}

func (s *solver) less(a, b int32) bool { return s.act[a] > s.act[b] }
func (s *solver) hswap(i, j int32) {
	s.heap[i], s.heap[j] = s.heap[j], s.heap[i]
	s.hpos[s.heap[i]] = i
	s.hpos[s.heap[j]] = j
}
func (s *solver) hup(i int32) {
	for i > 0 {
		p := (i - 1) / 2
		if !s.less(s.heap[i], s.heap[p]) {
			return
		}
		s.hswap(i, p)
		i = p
	}
}
func (s *solver) hdown(i int32) {
	for {
		c := 2*i + 1
		if int(c) >= len(s.heap) {
			return
		}
		if int(c+1) < len(s.heap) && s.less(s.heap[c+1], s.heap[c]) {
			c++
		}
		if !s.less(s.heap[c], s.heap[i]) {
			return
		}
		s.hswap(i, c)
		i = c
	}
}
func (s *solver) hinsert(v int32) {
	if s.hpos[v] >= 0 {
		return
	}
	s.hpos[v] = int32(len(s.heap))
	s.heap = append(s.heap, v)
	s.hup(s.hpos[v])
}
func (s *solver) hpop() int32 {
	v := s.heap[0]
	n := int32(len(s.heap) - 1)
	s.hswap(0, n)
	s.heap = s.heap[:n]
	s.hpos[v] = -1
	if n > 0 {
		s.hdown(0)
	}
	return v
}
func (s *solver) bump(v int32) {
	s.act[v] += s.inc
	if s.act[v] > 1e100 {
		for i := range s.act {
			s.act[i] *= 1e-100
		}
		s.inc *= 1e-100
	}
	if s.hpos[v] >= 0 {
		s.hup(s.hpos[v])
	}
}

func (s *solver) analyze(c *clause) ([]int32, int) {
	out := []int32{0}
	cnt := 0
	idx := len(s.trail) - 1
	var p int32 = -1
	var clear []int32
	for {
		c.act += s.cinc
		for _, q := range c.lits {
			if q == p {
				continue
			}
			v := q >> 1
			if s.seen[v] || s.level[v] == 0 {
				continue
			}
			s.seen[v] = true
			clear = append(clear, v)
			s.bump(v)
			if int(s.level[v]) == len(s.lim) {
				cnt++
			} else {
				out = append(out, q)
			}
		}
		for !s.seen[s.trail[idx]>>1] {
			idx--
		}
		p = s.trail[idx]
		idx--
		c = s.reason[p>>1]
		cnt--
		if cnt == 0 {
			break
		}
	}
	out[0] = p ^ 1
	// local minimisation
	j := 1
	for i := 1; i < len(out); i++ {
		r := s.reason[out[i]>>1]
		keep := true
		if r != nil {
			keep = false
			for _, q := range r.lits {
				if q>>1 != out[i]>>1 && !s.seen[q>>1] && s.level[q>>1] > 0 {
					keep = true
					break
				}
			}
		}
		if keep {
			out[j] = out[i]
			j++
		}
	}
	out = out[:j]
	bl := 0
	if len(out) > 1 {
		mi := 1
		for i := 2; i < len(out); i++ {
			if s.level[out[i]>>1] > s.level[out[mi]>>1] {
				mi = i
			}
		}
		out[1], out[mi] = out[mi], out[1]
		bl = int(s.level[out[1]>>1])
	}
	for _, v := range clear {
		s.seen[v] = false
	}
	return out, bl
}

func luby(i int64) int64 {
	for {
		k := uint(1)
		for (int64(1)<<k)-1 < i {
			k++
		}
		if (int64(1)<<k)-1 == i {
			return 1 << (k - 1)
		}
		i = i - (1 << (k - 1)) + 1
	}
}

func (s *solver) solve() int {
	if !s.ok {
		return -1
	}
	var rst int64 = 1
	left := luby(rst) * 100
	maxL := len(s.cls)/3 + 1000
	for {
		c := s.prop()
		if c != nil {
			s.confl++
			left--
			if len(s.lim) == 0 {
				return -1
			}
			if s.confl > s.maxConf {
				return 0
			}
			ls, bl := s.analyze(c)
			s.back(bl)
			if len(ls) == 1 {
				s.assign(ls[0], nil)
			} else {
				n := &clause{lits: ls, learnt: true, act: s.cinc}
				s.lrn = append(s.lrn, n)
				s.attach(n)
				s.assign(ls[0], n)
			}
			s.inc /= 0.95
			s.cinc /= 0.999
			if s.cinc > 1e20 {
				for _, l := range s.lrn {
					l.act *= 1e-20
				}
				s.cinc *= 1e-20
			}
			continue
		}
		if left <= 0 {
			rst++
			left = luby(rst) * 100
			s.back(0)
			if len(s.lrn) > maxL {
				s.reduce()
				maxL += maxL / 10
			}
			continue
		}
		var v int32
		for len(s.heap) > 0 {
			u := s.hpop()
			if s.val[2*u] == 0 {
				v = u
				break
			}
		}
		if v == 0 {
			return 1
		}
		s.lim = append(s.lim, len(s.trail))
		if s.phase[v] == 1 {
			s.assign(2*v, nil)
		} else {
			s.assign(2*v+1, nil)
		}
	}
}

func (s *solver) reduce() {
	sort.Slice(s.lrn, func(i, j int) bool { return s.lrn[i].act > s.lrn[j].act })
	h := len(s.lrn) / 2
	k := s.lrn[:0]
	for i, c := range s.lrn {
		if i < h || len(c.lits) <= 2 || s.reason[c.lits[0]>>1] == c {
			k = append(k, c)
			continue
		}
		c.lits = nil
	}
	s.lrn = k
	for i := range s.watch {
		ws := s.watch[i]
		j := 0
		for _, c := range ws {
			if c.lits != nil {
				ws[j] = c
				j++
			}
		}
		s.watch[i] = ws[:j]
	}
}

// Brute decides cls under as by enumeration (n <= 20 or so).
func Brute(cls [][]int, as []int) (bool, []bool) {
	n := maxVar(cls, as)
	m := make([]bool, n+1)
	for x := 0; x < 1<<uint(n); x++ {
		for v := 1; v <= n; v++ {
			m[v] = x>>(uint(v)-1)&1 == 1
		}
		if Eval(cls, m) && EvalUnits(as, m) {
			return true, m
		}
	}
	return false, nil
}

// Holds tells whether literal l is true in m.
func Holds(l int, m []bool) bool {
	if l < 0 {
		return !m[-l]
	}
	return m[l]
}

func EvalUnits(as []int, m []bool) bool {
	for _, a := range as {
		if !Holds(a, m) {
			return false
		}
	}
	return true
}

// Eval tells whether m satisfies every clause.
func Eval(cls [][]int, m []bool) bool {
	for _, c := range cls {
		ok := false
		for _, l := range c {
			if Holds(l, m) {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
