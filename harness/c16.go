package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/logic/aiger"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
)

// aig is an aiger file, read and written here independently of gini.
type aig struct {
	bin              bool
	max              uint64
	ins              []uint64
	lat, next, init  []uint64
	out, bad, con    []uint64
	just             [][]uint64
	fair             []uint64
	ands             [][3]uint64
	syms             map[string]string
	loose            bool // not quite by the book, but readable
	fields           int  // header fields
	comment, noReset bool
}

type aigBad struct{ s string }

// readAig gives 0 and a reason for what must be rejected, 1 for what must be
// read, 2 for what may be either.
func readAig(txt string) (f *aig, ok int, why string) {
	defer func() {
		if e := recover(); e != nil {
			b, is := e.(aigBad)
			if !is {
				panic(e)
			}
			f, ok, why = nil, 0, b.s
		}
	}()
	f = &aig{syms: map[string]string{}}
	bad := func(s string, a ...interface{}) { panic(aigBad{fmt.Sprintf(s, a...)}) }
	pos := 0
	line := func(what string) string {
		i := strings.IndexByte(txt[pos:], '\n')
		if i < 0 {
			if pos < len(txt) && what != "header" {
				f.loose = true // only the last newline may be what is missing
				l := txt[pos:]
				pos = len(txt)
				return l
			}
			bad("%s is missing", what)
		}
		l := txt[pos : pos+i]
		pos += i + 1
		return l
	}
	num := func(s string) uint64 {
		if s == "" {
			bad("number missing")
		}
		for i := 0; i < len(s); i++ {
			if s[i] < '0' || s[i] > '9' {
				bad("not a number: %q", s)
			}
		}
		if len(s) > 1 && s[0] == '0' {
			f.loose = true
		}
		s = strings.TrimLeft(s, "0")
		if s == "" {
			return 0
		}
		if len(s) > 10 {
			bad("number too big")
		}
		n, _ := strconv.ParseUint(s, 10, 64)
		if n >= 1<<32-2 {
			bad("number too big")
		}
		return n
	}
	h := strings.Split(line("header"), " ")
	switch h[0] {
	case "aag":
	case "aig":
		f.bin = true
	default:
		bad("magic %q", h[0])
	}
	h = h[1:]
	if len(h) < 5 || len(h) > 9 {
		bad("header with %d counts", len(h))
	}
	f.fields = len(h)
	var n [9]uint64
	for i, s := range h {
		n[i] = num(s)
	}
	f.max = n[0]
	I, L, A := n[1], n[2], n[4]
	if f.max >= 1<<31-2 {
		bad("header M too big")
	}
	if f.max < I+L+A {
		bad("header M too small")
	}
	if f.bin && f.max != I+L+A {
		f.loose = true
	}
	lit := func(s string) uint64 {
		u := num(s)
		if u > 2*f.max+1 {
			bad("literal %d out of bounds", u)
		}
		return u
	}
	def := map[uint64]int{0: 1}
	define := func(u uint64, k int, what string) {
		if u&1 != 0 {
			bad("%s %d is negated", what, u)
		}
		if def[u>>1] != 0 {
			bad("%s %d is defined twice", what, u)
		}
		def[u>>1] = k
	}
	for i := uint64(0); i < I; i++ {
		u := 2 * (i + 1)
		if !f.bin {
			u = lit(line("input"))
		}
		define(u, 2, "input")
		f.ins = append(f.ins, u)
	}
	for i := uint64(0); i < L; i++ {
		w := strings.Split(line("latch"), " ")
		u := 2 * (I + i + 1)
		if !f.bin {
			u = lit(w[0])
			w = w[1:]
		}
		define(u, 3, "latch")
		if len(w) != 1 && len(w) != 2 {
			bad("latch line")
		}
		f.lat = append(f.lat, u)
		f.next = append(f.next, lit(w[0]))
		v := uint64(0)
		if len(w) == 2 {
			v = num(w[1])
		}
		if v > 1 && v != u {
			bad("init %d of latch %d", v, u)
		}
		f.init = append(f.init, v)
	}
	list := func(n uint64, what string) (r []uint64) {
		for ; n > 0; n-- {
			r = append(r, lit(line(what)))
		}
		return
	}
	f.out = list(n[3], "output")
	f.bad = list(n[5], "bad")
	f.con = list(n[6], "constraint")
	var js []uint64
	for i := uint64(0); i < n[7]; i++ {
		js = append(js, num(line("justice count")))
	}
	for _, k := range js {
		f.just = append(f.just, list(k, "justice"))
	}
	f.fair = list(n[8], "fairness")
	for i := uint64(0); i < A; i++ {
		if f.bin {
			l := 2 * (I + L + i + 1)
			d := func(max uint64) uint64 {
				var x uint64
				for k := 0; ; k++ {
					if pos >= len(txt) {
						bad("and gate is missing")
					}
					b := txt[pos]
					pos++
					if k < 6 {
						x |= uint64(b&0x7f) << uint(7*k)
					} else if b&0x7f != 0 {
						bad("delta too big")
					} else {
						f.loose = true
					}
					if b < 0x80 {
						if b == 0 && k > 0 {
							f.loose = true
						}
						break
					}
				}
				if x > max {
					bad("delta too big")
				}
				return x
			}
			d0 := d(l)
			if d0 == 0 {
				bad("delta 0")
			}
			r0 := l - d0
			r1 := r0 - d(r0)
			define(l, 4, "and")
			f.ands = append(f.ands, [3]uint64{l, r0, r1})
			continue
		}
		w := strings.Split(line("and"), " ")
		if len(w) != 3 {
			bad("and line")
		}
		g := [3]uint64{lit(w[0]), lit(w[1]), lit(w[2])}
		define(g[0], 4, "and")
		f.ands = append(f.ands, g)
	}
	cnt := map[byte]int{'i': int(I), 'l': int(L), 'o': len(f.out), 'b': len(f.bad), 'c': len(f.con), 'j': len(f.just), 'f': len(f.fair)}
	for pos < len(txt) {
		l := line("symbol")
		if l == "c" {
			f.comment = true
			if pos < len(txt) && !strings.HasSuffix(txt, "\n") {
				f.loose = true
			}
			break
		}
		if l == "" {
			bad("empty line")
		}
		k, is := cnt[l[0]]
		if !is {
			bad("symbol %q", l)
		}
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			bad("symbol %q", l)
		}
		x := num(l[1:i])
		key := fmt.Sprintf("%c%d", l[0], x)
		if _, dup := f.syms[key]; dup || x >= uint64(k) {
			f.loose = true
		}
		f.syms[key] = l[i+1:]
	}
	// everything mentioned is defined, without a loop
	use := func(us ...uint64) {
		for _, u := range us {
			if def[u>>1] == 0 {
				bad("literal %d is not defined", u)
			}
		}
	}
	use(f.next...)
	use(f.out...)
	use(f.bad...)
	use(f.con...)
	use(f.fair...)
	for _, j := range f.just {
		use(j...)
	}
	at := map[uint64][3]uint64{}
	for _, g := range f.ands {
		use(g[1], g[2])
		at[g[0]>>1] = g
	}
	col := map[uint64]int{}
	var vis func(v uint64)
	vis = func(v uint64) {
		g, is := at[v]
		if !is || col[v] == 2 {
			return
		}
		if col[v] == 1 {
			bad("loop")
		}
		col[v] = 1
		vis(g[1] >> 1)
		vis(g[2] >> 1)
		col[v] = 2
	}
	for _, g := range f.ands {
		vis(g[0] >> 1)
	}
	if f.loose {
		return f, 2, ""
	}
	return f, 1, ""
}

// sem is what an aiger means: everything by position, functions by their
// values in 64 patterns of inputs and latches.
type sem struct {
	nIn                       int
	init                      []int // 0, 1, 2 for X
	next, out, bad, con, fair []uint64
	just                      [][]uint64
	names                     map[string]string
}

func aigPat(kind byte, i int) uint64 { return fw.HashInts(uint64(kind)*77777+3, i) }

func (f *aig) sem() *sem {
	val := map[uint64]uint64{0: 0}
	for i, u := range f.ins {
		val[u>>1] = aigPat('i', i)
	}
	for i, u := range f.lat {
		val[u>>1] = aigPat('l', i)
	}
	at := map[uint64][3]uint64{}
	for _, g := range f.ands {
		at[g[0]>>1] = g
	}
	var lv func(u uint64) uint64
	lv = func(u uint64) uint64 {
		v, is := val[u>>1]
		if !is {
			g := at[u>>1]
			v = lv(g[1]) & lv(g[2])
			val[u>>1] = v
		}
		if u&1 != 0 {
			return ^v
		}
		return v
	}
	ls := func(us []uint64) (r []uint64) {
		for _, u := range us {
			r = append(r, lv(u))
		}
		return
	}
	s := &sem{nIn: len(f.ins), next: ls(f.next), out: ls(f.out), bad: ls(f.bad), con: ls(f.con), fair: ls(f.fair), names: f.syms}
	for _, j := range f.just {
		s.just = append(s.just, ls(j))
	}
	for i := range f.lat {
		switch f.init[i] {
		case 0, 1:
			s.init = append(s.init, int(f.init[i]))
		default:
			s.init = append(s.init, 2)
		}
	}
	return s
}

func semT(c *fw.C, a *aiger.T, what string) *sem {
	S := a.Sys()
	val := map[z.Var]uint64{}
	val[S.T.Var()] = 0
	if S.T.IsPos() {
		val[S.T.Var()] = ^uint64(0)
	}
	put := func(kind byte, i int, m z.Lit) {
		if _, dup := val[m.Var()]; dup || m.Var() == 0 || int(m.Var()) >= S.Len() {
			c.Failf("%s: %c%d is %s, twice or not in the circuit", what, kind, i, m)
		}
		t := aigPat(kind, i)
		if !m.IsPos() {
			t = ^t
		}
		val[m.Var()] = t
	}
	for i, m := range a.Inputs {
		put('i', i, m)
	}
	for i, m := range a.Latches {
		put('l', i, m)
	}
	var lv func(m z.Lit) uint64
	lv = func(m z.Lit) uint64 {
		if m == z.LitNull || int(m.Var()) >= S.Len() {
			c.Failf("%s: refers to %s, in a circuit of length %d", what, m, S.Len())
		}
		v, is := val[m.Var()]
		if !is {
			if S.Type(m) != logic.SAnd {
				c.Failf("%s: %s is of type %s and not in the aiger's lists", what, m, S.Type(m))
			}
			x, y := S.Ins(m)
			v = lv(x) & lv(y)
			val[m.Var()] = v
		}
		if !m.IsPos() {
			return ^v
		}
		return v
	}
	ls := func(us []z.Lit) (r []uint64) {
		for _, u := range us {
			r = append(r, lv(u))
		}
		return
	}
	s := &sem{nIn: len(a.Inputs), names: map[string]string{}}
	for _, m := range a.Latches {
		s.next = append(s.next, lv(a.Next(m)))
		switch a.Init(m) {
		case S.F:
			s.init = append(s.init, 0)
		case S.T:
			s.init = append(s.init, 1)
		case z.LitNull:
			s.init = append(s.init, 2)
		default:
			c.Failf("%s: init of %s is %s", what, m, a.Init(m))
		}
	}
	s.out, s.bad, s.con, s.fair = ls(a.Outputs), ls(a.Bad), ls(a.Constraints), ls(a.Fair)
	for _, j := range a.Justice {
		s.just = append(s.just, ls(j))
	}
	for _, x := range []struct {
		k byte
		n int
		f func(int) (string, bool)
	}{{'i', len(a.Inputs), a.InputName}, {'l', len(a.Latches), a.LatchName}, {'o', len(a.Outputs), a.OutputName}, {'b', len(a.Bad), a.BadName},
		{'c', len(a.Constraints), a.ConstraintName}, {'j', len(a.Justice), a.JusticeName}, {'f', len(a.Fair), a.FairName}} {
		for i := 0; i < x.n; i++ {
			if nm, ok := x.f(i); ok {
				s.names[fmt.Sprintf("%c%d", x.k, i)] = nm
			}
		}
		if nm, ok := x.f(-1); ok {
			c.Failf("%s: name %q at index -1 of %c", what, nm, x.k)
		}
	}
	return s
}

func eqU(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sameSem compares all but the initial values.
func sameSem(w, g *sem, names bool) string {
	switch {
	case w.nIn != g.nIn:
		return fmt.Sprintf("%d inputs, want %d", g.nIn, w.nIn)
	case !eqU(w.next, g.next):
		return fmt.Sprintf("latch next functions %x, want %x", g.next, w.next)
	case !eqU(w.out, g.out):
		return fmt.Sprintf("output functions %x, want %x", g.out, w.out)
	case !eqU(w.bad, g.bad):
		return fmt.Sprintf("bad state functions %x, want %x", g.bad, w.bad)
	case !eqU(w.con, g.con):
		return fmt.Sprintf("constraint functions %x, want %x", g.con, w.con)
	case !eqU(w.fair, g.fair):
		return fmt.Sprintf("fairness functions %x, want %x", g.fair, w.fair)
	case len(w.just) != len(g.just):
		return fmt.Sprintf("%d justice properties, want %d", len(g.just), len(w.just))
	case len(w.init) != len(g.init):
		return fmt.Sprintf("%d latches, want %d", len(g.init), len(w.init))
	}
	for i := range w.just {
		if !eqU(w.just[i], g.just[i]) {
			return fmt.Sprintf("justice property %d is %x, want %x", i, g.just[i], w.just[i])
		}
	}
	if names {
		if len(w.names) != len(g.names) {
			return fmt.Sprintf("names %q, want %q", g.names, w.names)
		}
		for k, n := range w.names {
			if m, ok := g.names[k]; !ok || m != n {
				return fmt.Sprintf("name of %s is %q (%v), want %q", k, m, ok, n)
			}
		}
	}
	return ""
}

func sameInit(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func flipInit(a []int) []int {
	r := append([]int(nil), a...)
	for i, x := range r {
		if x < 2 {
			r[i] = 1 - x
		}
	}
	return r
}

func (w *sem) flipped() *sem {
	x := *w
	x.init = flipInit(w.init)
	return &x
}

func mustSem(c *fw.C, w, g *sem, what string) {
	if s := sameSem(w, g, true); s != "" {
		c.Failf("%s: %s", what, s)
	}
	if !sameInit(w.init, g.init) {
		c.Failf("%s: initial values %v, want %v (2 is X)", what, g.init, w.init)
	}
}

var aigNames = []string{"a", "in[3]", "x y  z", "", " ", "c", "i0 b", "é", "\r", "tab\there", "0", "next-state"}

func aigName(r *fw.Rand) string {
	if r.P(1, 1500) { // longer than any buffer
		return strings.Repeat("n", r.Pick(256, 4090, 4096, 4097, 10000)) + "!"
	}
	if r.P(1, 20000) {
		return strings.Repeat("m ", r.Pick(32767, 32768, 50000)) + "!"
	}
	return aigNames[r.Intn(len(aigNames))]
}

// buildAig makes an aiger through the API.
func buildAig(c *fw.C, big bool) *aiger.T {
	r := c.R
	var a *aiger.T
	var S *logic.S
	wrap := r.P(1, 3)
	if wrap {
		if r.Bool() {
			S = logic.NewS()
		} else {
			S = logic.NewSCap(r.Pick(1, 2, 4, 30))
		}
	} else {
		a = aiger.Make(r.Pick(1, 2, 3, 10, 100))
		S = a.Sys()
	}
	pool := []z.Lit{S.T}
	lit := func() z.Lit {
		p := pool
		if r.Bool() && len(p) > 8 {
			p = p[len(p)-8:]
		}
		m := p[r.Intn(len(p))]
		if r.Bool() {
			m = m.Not()
		}
		return m
	}
	grow := func(n int) {
		for ; n > 0; n-- {
			switch r.Intn(8) {
			case 0:
				if a != nil {
					pool = append(pool, a.NewIn())
				} else {
					pool = append(pool, S.Lit())
				}
			case 1:
				pool = append(pool, S.Latch([]z.Lit{S.F, S.T, z.LitNull}[r.Intn(3)]))
			case 2:
				pool = append(pool, S.Or(lit(), lit()))
			case 3:
				pool = append(pool, S.Xor(lit(), lit()))
			case 4:
				pool = append(pool, S.Choice(lit(), lit(), lit()))
			default:
				pool = append(pool, S.And(lit(), lit()))
			}
		}
	}
	n := r.Pick(0, 2, 6, 15, 40)
	if big {
		n = r.Pick(200, 1000, 3000)
	}
	grow(n)
	lits := func() (ms []z.Lit) {
		for k := r.Pick(0, 1, 1, 2, 4); k > 0; k-- {
			ms = append(ms, lit())
		}
		return
	}
	outs := lits()
	if wrap {
		a = aiger.MakeFor(S, outs...)
		for i := range outs { // they are the caller's
			outs[i] = z.LitNull
		}
	} else {
		for _, m := range outs {
			a.SetOutput(m)
		}
	}
	if r.P(1, 3) {
		grow(r.Intn(6))
	}
	a.Bad = append(a.Bad, lits()...)
	a.Constraints = append(a.Constraints, lits()...)
	a.Fair = append(a.Fair, lits()...)
	for k := r.Pick(0, 0, 1, 2); k > 0; k-- {
		a.Justice = append(a.Justice, lits())
	}
	for _, m := range a.Latches {
		if r.P(3, 4) {
			a.SetNext(m, lit())
		}
	}
	nameAig(c, a)
	return a
}

type namer struct {
	k    byte
	n    int
	set  func(int, string) error
	name func(int) (string, bool)
}

func namers(a *aiger.T) []namer {
	return []namer{{'i', len(a.Inputs), a.NameInput, a.InputName}, {'l', len(a.Latches), a.NameLatch, a.LatchName}, {'o', len(a.Outputs), a.NameOutput, a.OutputName},
		{'b', len(a.Bad), a.NameBad, a.BadName}, {'c', len(a.Constraints), a.NameConstraint, a.ConstraintName},
		{'j', len(a.Justice), a.NameJustice, a.JusticeName}, {'f', len(a.Fair), a.NameFair, a.FairName}}
}

func nameAig(c *fw.C, a *aiger.T) {
	r := c.R
	if r.Bool() {
		return
	}
	for _, x := range namers(a) {
		for i := 0; i < x.n; i++ {
			if r.P(1, 2) {
				nm := aigName(r)
				if e := x.set(i, nm); e != nil {
					c.Failf("naming %c%d %q: %v", x.k, i, nm, e)
				}
				if g, ok := x.name(i); !ok || g != nm {
					c.Failf("name of %c%d is %q (%v), want %q", x.k, i, g, ok, nm)
				}
			}
		}
		bad := r.Pick(-1, x.n, x.n+1, x.n+100)
		if e := x.set(bad, "a"); e == nil {
			c.Failf("naming %c%d of %d gave no error", x.k, bad, x.n)
		}
		if g, ok := x.name(bad); ok {
			c.Failf("%c%d of %d has the name %q", x.k, bad, x.n, g)
		}
		if x.n > 0 {
			i := r.Intn(x.n)
			was, had := x.name(i)
			if e := x.set(i, "two\nlines"); e == nil {
				c.Failf("a name with a newline was taken")
			}
			if g, ok := x.name(i); ok != had || g != was {
				c.Failf("a refused name has changed the name")
			}
		}
	}
}

// writeAig writes a both ways and judges what was written, and gives what
// reading it back gives.
func writeAig(c *fw.C, a *aiger.T, want *sem, bin bool) *aiger.T {
	r := c.R
	write, read, what := a.WriteAscii, aiger.ReadAscii, "WriteAscii"
	if bin {
		write, read, what = a.WriteBinary, aiger.ReadBinary, "WriteBinary"
	}
	var buf bytes.Buffer
	if e := write(&buf); e != nil {
		c.Failf("%s: %v", what, e)
	}
	txt := buf.String()
	c.Logf("%s gives %q", what, txt)
	f, ok, why := readAig(txt)
	if ok == 0 {
		c.Failf("%s writes something malformed: %s\n%q", what, why, txt)
	}
	if f.bin != bin {
		c.Failf("%s writes the other format", what)
	}
	I, L, A := uint64(len(f.ins)), uint64(len(f.lat)), uint64(len(f.ands))
	if ok == 2 {
		if bin && f.max == I+L+A+1 {
			c.Report("binary-header-max", "WriteBinary writes M one bigger than I+L+A in the header: %q", strings.SplitN(txt, "\n", 2)[0])
			g := *f
			g.max--
			if _, ok2, _ := readAig("aig" + strings.Replace(txt[3:], fmt.Sprintf(" %d", f.max), fmt.Sprintf(" %d", g.max), 1)); ok2 != 1 {
				c.Failf("%s writes something malformed, even with M corrected: %q", what, txt)
			}
		} else {
			c.Failf("%s writes something which is not by the book (M %d, I+L+A %d): %q", what, f.max, I+L+A, txt)
		}
	}
	got := f.sem()
	if s := sameSem(want, got, true); s != "" {
		c.Failf("%s: %s\n%q", what, s, txt)
	}
	w := want
	if !sameInit(want.init, got.init) {
		if bin && sameInit(flipInit(want.init), got.init) {
			c.Report("binary-latch-init", "WriteBinary writes the initial values 0 and 1 of latches exchanged: %v, want %v (2 is X)", got.init, want.init)
			w = want.flipped()
		} else {
			c.Failf("%s: initial values %v, want %v (2 is X)", what, got.init, want.init)
		}
	}
	b, e := read(newChunkReader(r, txt))
	if e != nil {
		c.Failf("reading back what %s wrote: %v\n%q", what, e, txt)
	}
	mustSem(c, w, semT(c, b, "read back"), "reading back what "+what+" wrote")
	mustSem(c, want, semT(c, a, what), "after "+what)
	// writers which fail
	if r.P(1, 3) {
		boom := errors.New("boom")
		for i := 0; i < 3; i++ {
			k := r.Intn(len(txt))
			if i == 0 {
				k = len(txt) - 1
			}
			if e := write(&failWriter{left: k, err: boom}); e == nil {
				c.Failf("%s gives no error although the writer failed after %d of %d bytes", what, k, len(txt))
			}
			c.Count("failed_writes", 1)
		}
		if e := write(&failWriter{left: len(txt), err: boom}); e != nil {
			c.Failf("%s to a writer with just enough room: %v", what, e)
		}
	}
	c.Count("written", 1)
	return b
}

func aigWrite(c *fw.C) {
	r := c.R
	a := buildAig(c, c.W == "big")
	want := semT(c, a, "built")
	h := fw.HashInts(uint64(len(a.Latches)), a.Len(), len(want.out), len(want.bad), len(want.con), len(want.just), len(want.names))
	for _, x := range [][]uint64{want.out, want.next, want.bad, want.con, want.fair} {
		for _, y := range x {
			h = fw.Mix(h ^ y)
		}
	}
	c.Count("latches", len(a.Latches))
	c.Count("names", len(want.names))
	bin := r.Bool()
	b := writeAig(c, a, want, bin)
	if r.Bool() {
		writeAig(c, a, want, !bin)
	}
	if r.Bool() { // what was read is as good as any
		ext := func(a *aiger.T) {
			x, y := a.NewIn(), a.Latch(a.S.F)
			g := a.And(x, y.Not())
			if r.Bool() && len(a.Outputs) > 0 {
				g = a.And(g, a.Outputs[0])
			}
			a.SetNext(y, g)
			a.SetOutput(g.Not())
		}
		ext(b)
		writeAig(c, b, semT(c, b, "extended"), r.Bool())
		c.Count("rewritten", 1)
	}
	if r.Bool() {
		d := aiger.Copy(a)
		mustSem(c, want, semT(c, d, "copy"), "copy")
		mess := func(a *aiger.T) {
			m := a.And(a.NewIn(), a.Latch(a.S.T))
			for _, l := range a.Latches {
				a.SetNext(l, a.Next(l).Not())
				a.SetInit(l, a.S.T)
			}
			for i := range a.Outputs {
				a.Outputs[i] = m
			}
			for i := range a.Bad {
				a.Bad[i] = m.Not()
			}
			for i := range a.Constraints {
				a.Constraints[i] = m
			}
			for i := range a.Fair {
				a.Fair[i] = m
			}
			for _, j := range a.Justice {
				for i := range j {
					j[i] = m
				}
			}
			a.Justice = append(a.Justice, []z.Lit{m})
			a.Bad = append(a.Bad, m)
			a.SetOutput(m)
			for _, x := range namers(a) {
				for i := 0; i < x.n; i++ {
					x.set(i, "changed")
				}
			}
			if len(a.Inputs) > 1 {
				a.Inputs[0], a.Inputs[1] = a.Inputs[1], a.Inputs[0]
			}
		}
		if r.Bool() {
			mess(d)
			mustSem(c, want, semT(c, a, "original"), "the original of a changed copy")
			writeAig(c, d, semT(c, d, "changed copy"), r.Bool())
		} else {
			mess(a)
			mustSem(c, want, semT(c, d, "copy"), "the copy of a changed original")
			writeAig(c, d, want, r.Bool())
		}
		c.Count("copies", 1)
	}
	c.Obs(h)
	c.Sample("%d nodes, %d latches, %d outputs, %d justice, names %q", a.Len(), len(a.Latches), len(want.out), len(want.just), want.names)
}

// genAig makes an aiger as other tools may write it: any numbering in any
// order, constants, gates which simplify, missing reset values and sections.
func genAig(r *fw.Rand, bin bool) *aig {
	f := &aig{bin: bin, syms: map[string]string{}}
	nI, nL, nA := r.Pick(0, 1, 2, 4), r.Pick(0, 0, 1, 2, 4), r.Pick(0, 1, 3, 8, 25)
	if r.P(1, 30) {
		nI, nL, nA = r.Intn(200), r.Intn(50), r.Intn(800)
	}
	n := nI + nL + nA
	f.max = uint64(n)
	if !bin {
		f.max += uint64(r.Pick(0, 0, 1, 5, 100))
		if r.P(1, 40) {
			f.max += uint64(r.Pick(1000, 100000, 10000000))
		}
	}
	vars := make([]uint64, n+1)
	if bin || r.Bool() {
		for i := range vars {
			vars[i] = uint64(i)
		}
	} else { // any distinct ones
		used := map[uint64]bool{0: true}
		for i := 1; i <= n; i++ {
			v := uint64(0)
			for used[v] {
				v = 1 + r.Uint64()%f.max
			}
			used[v] = true
			vars[i] = v
		}
	}
	lit := func(below int) uint64 {
		lo := 0
		if below > 8 && r.Bool() {
			lo = below - 8
		}
		u := 2 * vars[r.Range(lo, below-1)]
		if r.P(1, 12) {
			u = 0
		}
		if r.Bool() {
			u++
		}
		return u
	}
	any := func() uint64 { return lit(n + 1) }
	for i := 1; i <= nI; i++ {
		f.ins = append(f.ins, 2*vars[i])
	}
	for i := nI + 1; i <= nI+nL; i++ {
		u := 2 * vars[i]
		f.lat = append(f.lat, u)
		f.next = append(f.next, any())
		f.init = append(f.init, []uint64{0, 1, u}[r.Intn(3)])
	}
	for i := nI + nL + 1; i <= n; i++ {
		a, b := lit(i), lit(i)
		if r.P(1, 10) {
			b = a
		} else if r.P(1, 10) {
			b = a ^ 1
		}
		if k := len(f.ands); k > 0 && r.P(1, 8) { // the same gate again
			g := f.ands[r.Intn(k)]
			a, b = g[2], g[1]
		}
		if bin && b > a {
			a, b = b, a
		}
		f.ands = append(f.ands, [3]uint64{2 * vars[i], a, b})
	}
	if !bin && r.Bool() { // not in order
		p := r.Perm(len(f.ands))
		q := make([][3]uint64, len(p))
		for i := range p {
			q[i] = f.ands[p[i]]
		}
		f.ands = q
	}
	list := func(k int) (x []uint64) {
		for ; k > 0; k-- {
			x = append(x, any())
		}
		return
	}
	f.out = list(r.Pick(0, 1, 2, 5))
	f.fields = 5 + r.Intn(5)
	if f.fields > 5 {
		f.bad = list(r.Intn(3))
	}
	if f.fields > 6 {
		f.con = list(r.Intn(3))
	}
	if f.fields > 7 {
		for k := r.Intn(3); k > 0; k-- {
			f.just = append(f.just, list(r.Pick(0, 1, 2, 6)))
		}
	}
	if f.fields > 8 {
		f.fair = list(r.Intn(3))
	}
	if r.Bool() {
		for _, x := range []struct {
			k byte
			n int
		}{{'i', nI}, {'l', nL}, {'o', len(f.out)}, {'b', len(f.bad)}, {'c', len(f.con)}, {'j', len(f.just)}, {'f', len(f.fair)}} {
			for i := 0; i < x.n && i < 20; i++ {
				if r.P(1, 3) {
					f.syms[fmt.Sprintf("%c%d", x.k, i)] = aigName(r)
				}
			}
		}
	}
	f.comment = r.Bool()
	f.noReset = r.Bool()
	return f
}

func (f *aig) text(r *fw.Rand) string {
	var b bytes.Buffer
	m := "aag"
	if f.bin {
		m = "aig"
	}
	b.WriteString(m)
	h := []int{int(f.max), len(f.ins), len(f.lat), len(f.out), len(f.ands), len(f.bad), len(f.con), len(f.just), len(f.fair)}
	for _, x := range h[:f.fields] {
		fmt.Fprintf(&b, " %d", x)
	}
	b.WriteByte('\n')
	ls := func(us []uint64) {
		for _, u := range us {
			fmt.Fprintf(&b, "%d\n", u)
		}
	}
	if !f.bin {
		ls(f.ins)
	}
	for i, u := range f.lat {
		if !f.bin {
			fmt.Fprintf(&b, "%d ", u)
		}
		fmt.Fprintf(&b, "%d", f.next[i])
		if f.init[i] != 0 || !f.noReset {
			fmt.Fprintf(&b, " %d", f.init[i])
		}
		b.WriteByte('\n')
	}
	ls(f.out)
	ls(f.bad)
	ls(f.con)
	for _, j := range f.just {
		fmt.Fprintf(&b, "%d\n", len(j))
	}
	for _, j := range f.just {
		ls(j)
	}
	ls(f.fair)
	for _, g := range f.ands {
		if f.bin {
			for _, d := range []uint64{g[0] - g[1], g[1] - g[2]} {
				for d >= 0x80 {
					b.WriteByte(byte(d) | 0x80)
					d >>= 7
				}
				b.WriteByte(byte(d))
			}
		} else {
			fmt.Fprintf(&b, "%d %d %d\n", g[0], g[1], g[2])
		}
	}
	var ks []string
	for k := range f.syms {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, j := range r.Perm(len(ks)) {
		ks[i], ks[j] = ks[j], ks[i]
	}
	for _, k := range ks {
		fmt.Fprintf(&b, "%s %s\n", k, f.syms[k])
	}
	if f.comment {
		b.WriteString("c\n")
		for k := r.Intn(3); k > 0; k-- {
			b.WriteString([]string{"\n", "i0 not a name\n", "made by hand\n", "c\n", "\xff\x00\n"}[r.Intn(5)])
			if r.P(1, 1500) {
				b.WriteString(strings.Repeat("long ", r.Pick(820, 14000)) + "\n")
			}
		}
	}
	return b.String()
}

func readerFor(bin bool) (func(io.Reader) (*aiger.T, error), func(io.Reader) (*aiger.T, error)) {
	if bin {
		return aiger.ReadBinary, aiger.ReadAscii
	}
	return aiger.ReadAscii, aiger.ReadBinary
}

func aigRead(c *fw.C) {
	r := c.R
	bin := r.Bool()
	f := genAig(r, bin)
	txt := f.text(r)
	c.Logf("file %q", txt)
	f2, ok, why := readAig(txt)
	if ok != 1 {
		panic(fmt.Sprintf("the harness made an aiger which it does not read: %s\n%q", why, txt))
	}
	want := f.sem()
	if s := sameSem(want, f2.sem(), true); s != "" {
		panic("the harness misreads its own aiger: " + s)
	}
	read, other := readerFor(bin)
	a, e := read(newChunkReader(r, txt))
	if e != nil {
		c.Failf("reading: %v\n%q", e, txt)
	}
	got := semT(c, a, "read")
	mustSem(c, want, got, "read aiger")
	if len(a.Latches) != len(f.lat) {
		c.Failf("%d latches, want %d", len(a.Latches), len(f.lat))
	}
	c.Count("read", 1)
	h := fw.HashStr(3, txt)
	c.Obs(h)
	if r.P(1, 6) {
		if _, e := other(newChunkReader(r, txt)); e == nil {
			c.Failf("the reader of the other format gave no error for %q", txt)
		}
	}
	if r.P(1, 3) { // the reader fails
		boom := errors.New("boom")
		k := newChunkReader(r, txt[:r.Intn(len(txt)+1)])
		k.err = boom
		if x, e := read(k); e == nil {
			c.Failf("reading gave no error (but %v) although the reader failed", x != nil)
		}
		c.Count("failed_reads", 1)
	}
	if r.P(1, 4) {
		writeAig(c, a, want, false)
	}
	c.Sample("%q", txt)
}

func aigMutate(r *fw.Rand, f *aig, txt string) string {
	switch r.Intn(7) {
	case 0:
		return txt[:r.Intn(len(txt)+1)]
	case 1: // a number changes
		ls := strings.Split(txt, "\n")
		i := r.Intn(len(ls))
		if r.P(1, 4) {
			i = 0
		}
		ws := strings.Split(ls[i], " ")
		j := r.Intn(len(ws))
		n, e := strconv.Atoi(ws[j])
		if e == nil {
			n += r.Pick(-2, -1, 1, 2, 3)
			if r.P(1, 8) {
				n = r.Pick(0, 1, int(f.max)*2, int(f.max)*2+1, int(f.max)*2+2, int(f.max), int(f.max)+1)
			}
			ws[j] = strconv.Itoa(n)
		} else if r.Bool() {
			ws[j] = ws[j] + string("0129 -xc\t\r"[r.Intn(10)])
		}
		ls[i] = strings.Join(ws, " ")
		return strings.Join(ls, "\n")
	case 2: // a line goes
		ls := strings.SplitAfter(txt, "\n")
		i := r.Intn(len(ls))
		return strings.Join(append(append([]string{}, ls[:i]...), ls[i+1:]...), "")
	case 3: // a line comes
		ls := strings.SplitAfter(txt, "\n")
		i, j := r.Intn(len(ls)), r.Intn(len(ls))
		x := ls[j]
		if r.P(1, 3) {
			x = []string{"\n", "2\n", "c\n", "i0 x\n", "6 2 4\n", "0\n", "x\n", "99999999999999999999\n"}[r.Intn(8)]
		}
		ls = append(ls[:i:i], append([]string{x}, ls[i:]...)...)
		return strings.Join(ls, "")
	case 4: // a byte
		if len(txt) == 0 {
			return txt
		}
		b := []byte(txt)
		i := r.Intn(len(b))
		if r.Bool() {
			b[i] = byte(r.Intn(256))
		} else {
			b[i] ^= 1 << uint(r.Intn(8))
		}
		return string(b)
	case 5: // two lines change places
		ls := strings.SplitAfter(txt, "\n")
		i, j := r.Intn(len(ls)), r.Intn(len(ls))
		ls[i], ls[j] = ls[j], ls[i]
		return strings.Join(ls, "")
	default: // bytes at the end or in between
		i := r.Intn(len(txt) + 1)
		if r.Bool() {
			i = len(txt)
		}
		x := []string{"\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01", " ", "\r", "garbage", "o0", "i99999999999999999999 a\n", "\x00", "c"}[r.Intn(8)]
		return txt[:i] + x + txt[i:]
	}
}

// implicitHuge tells of binary files with more inputs than data, which are
// well formed and which nobody can read.
func implicitHuge(txt string) bool {
	h := strings.Fields(strings.SplitN(txt, "\n", 2)[0])
	if len(h) < 3 || h[0] != "aig" {
		return false
	}
	n, e := strconv.ParseUint(h[2], 10, 64)
	return e != nil || n > 1<<20
}

func aigMalformed(c *fw.C) {
	r := c.R
	var txt string
	f := genAig(r, r.Bool())
	if c.W == "headers" {
		m := []string{"aag", "aig"}[r.Intn(2)]
		k := 5 + r.Intn(5)
		txt = m
		big := r.Intn(k)
		for i := 0; i < k; i++ {
			x := "0"
			if i == big || r.P(1, 3) {
				x = []string{"1", "70000", "1000000", "100000000", "1000000000", "2147483644", "2147483645", "2147483646", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "99999999999999999999999"}[r.Intn(13)]
			}
			txt += " " + x
		}
		if r.Bool() { // the bound big enough
			fs := strings.Split(txt, " ")
			fs[1] = []string{"2147483640", "1000000000"}[r.Intn(2)]
			txt = strings.Join(fs, " ")
		}
		txt += "\n"
		for i := r.Intn(4); i > 0; i-- {
			txt += []string{"2\n", "0\n", "1000000000\n", "2147483640 0\n", "3000000000 0 1\n", "\x01", "\xff\xff\xff\xff\x0f"}[r.Intn(7)]
		}
	} else {
		txt = f.text(r)
		for k := r.Pick(1, 1, 1, 2, 3); k > 0; k-- {
			txt = aigMutate(r, f, txt)
		}
	}
	if implicitHuge(txt) {
		c.Count("skipped_implicit", 1)
		return
	}
	g, ok, why := readAig(txt)
	c.Logf("%q: %d %s", txt, ok, why)
	bin := strings.HasPrefix(txt, "aig")
	read, _ := readerFor(bin)
	a, e := read(newChunkReader(r, txt))
	switch {
	case ok == 0 && e == nil:
		c.Failf("no error for an aiger which is malformed (%s): %q", why, txt)
	case ok == 1 && e != nil:
		c.Failf("error %v for %q, which is well formed", e, txt)
	case e == nil && a == nil:
		c.Failf("neither an aiger nor an error")
	case e == nil:
		got := semT(c, a, "read")
		w := g.sem()
		if s := sameSem(w, got, ok == 1); s != "" {
			c.Failf("read aiger: %s\n%q", s, txt)
		}
		if !sameInit(w.init, got.init) {
			c.Failf("read aiger: initial values %v, want %v\n%q", got.init, w.init, txt)
		}
	}
	c.Count([]string{"malformed", "wellformed_mutants", "unclear"}[ok], 1)
	c.Obs(fw.HashStr(uint64(ok), txt))
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C16",
		Rule: "aigers built through the API (inputs, latches of all initial values and gates in any order, unreachable and constant-valued ones included, names, all property lists), written both ways; " +
			"what is written is parsed independently, simulated in 64 patterns and compared, read back and compared, written again; copies are changed on one side; writers fail at random points; distinct by the functions",
		Need: []string{"written", "copies", "failed_writes", "names", "latches", "rewritten"},
		Workloads: []fw.Workload{
			{Name: "write", Quick: 120000, Thorough: 3000000, Fn: aigWrite},
			{Name: "big", Quick: 600, Thorough: 20000, Fn: aigWrite},
			{Name: "huge", Quick: 16, Thorough: 200, Fn: aigHuge},
		},
	})
	fw.Register(&fw.Prop{
		ID:       "C17",
		MemLimit: 6 << 30,
		Rule: "aiger files as other tools may write them (any numbering and order, constants, gates which simplify, missing sections), read through hostile readers and compared by simulation with what they were made from; " +
			"mutants, truncations and lying headers judged by an independent parser; distinct by text",
		Need: []string{"read", "malformed", "failed_reads", "wellformed_mutants"},
		Workloads: []fw.Workload{
			{Name: "read", Quick: 240000, Thorough: 3000000, Fn: aigRead},
			{Name: "huge", Quick: 16, Thorough: 200, Fn: aigReadHuge},
			{Name: "malformed", Quick: 480000, Thorough: 6000000, Fn: aigMalformed},
			{Name: "headers", Quick: 8000, Thorough: 50000, Fn: aigMalformed},
		},
	})
}
