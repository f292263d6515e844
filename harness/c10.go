package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/go-air/gini"
	"github.com/go-air/gini/dimacs"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
)

// chunkReader hands out data as real readers may: in pieces of any size, with
// the end or an error on its own or along with the last piece.
type chunkReader struct {
	r     *fw.Rand
	data  []byte
	mode  int   // 0 all at once, 1 byte wise, 2 random pieces
	along bool  // the last piece comes with the error
	err   error // at the end; io.EOF by default
	zeros bool  // now and then nothing
	reads int
}

func newChunkReader(r *fw.Rand, data string) *chunkReader {
	return &chunkReader{r: r, data: []byte(data), mode: r.Intn(3), along: r.Bool(), err: io.EOF, zeros: r.P(1, 4)}
}

func (k *chunkReader) Read(b []byte) (int, error) {
	k.reads++
	if len(k.data) == 0 {
		return 0, k.err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if k.zeros && k.r.P(1, 8) {
		return 0, nil
	}
	n := len(k.data)
	switch k.mode {
	case 1:
		n = 1
	case 2:
		n = k.r.Range(1, 1+k.r.Pick(1, 3, 8, 30, 5000))
	}
	if n > len(k.data) {
		n = len(k.data)
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, k.data[:n])
	k.data = k.data[n:]
	if len(k.data) == 0 && k.along {
		return n, k.err
	}
	return n, nil
}

// events records what a visitor is told.
type events struct {
	ev []string
}

func (v *events) Init(a, b int)  { v.ev = append(v.ev, fmt.Sprintf("init %d %d", a, b)) }
func (v *events) Add(m z.Lit)    { v.ev = append(v.ev, fmt.Sprintf("%d", m.Dimacs())) }
func (v *events) Assume(m z.Lit) { v.ev = append(v.ev, fmt.Sprintf("a%d", m.Dimacs())) }
func (v *events) Eof()           { v.ev = append(v.ev, "eof") }
func (v *events) Solution(r int) { v.ev = append(v.ev, fmt.Sprintf("s%d", r)) }
func (v *events) Value(m z.Lit)  { v.ev = append(v.ev, fmt.Sprintf("v%d", m.Dimacs())) }
func (v *events) String() string { return strings.Join(v.ev, " ") }
func prefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// layout writes tokens the way people and programs lay out dimacs.
type layout struct {
	r        *fw.Rand
	b        strings.Builder
	crlf     bool
	comments bool
	wild     bool // white space anywhere
	bol      bool
	long     int // number of runs of white space or comment still to be long
}

func newLayout(r *fw.Rand) *layout {
	l := &layout{r: r, crlf: r.P(1, 5), comments: r.P(2, 3), wild: r.Bool(), bol: true}
	if r.P(1, 400) { // longer than any buffer
		l.long = r.Range(1, 3)
	}
	return l
}

// run is s, many times if it is to be long.
func (l *layout) run(s string) string {
	if l.long > 0 && l.r.P(1, 8) {
		l.long--
		return strings.Repeat(s, l.r.Pick(256, 4095, 4096, 4097, 10000, 65536, 70000)/len(s)+1)
	}
	return s
}

func (l *layout) nl() {
	if l.crlf {
		l.b.WriteByte('\r')
	}
	l.b.WriteByte('\n')
	l.bol = true
}

func (l *layout) maybeComments() {
	if !l.comments || !l.bol {
		return
	}
	for l.r.P(1, 4) {
		l.b.WriteString([]string{"c", "c ", "c comment", "cc 1 2 0", "c p cnf 3 4", "c -1 0", "c 0", "c \t% weird \x00\xff", "c0"}[l.r.Intn(9)])
		if x := l.run("x 1 0"); x != "x 1 0" {
			l.b.WriteString(x)
		}
		l.nl()
		if l.wild && l.r.P(1, 4) {
			l.nl()
		}
	}
}

func (l *layout) tok(s string) {
	l.maybeComments()
	if l.wild {
		for l.r.P(1, 6) {
			l.b.WriteString(l.run([]string{" ", "\t"}[l.r.Intn(2)]))
			l.bol = false
		}
	}
	l.b.WriteString(s)
	l.bol = false
}

// sep separates two tokens
func (l *layout) sep(line bool) {
	if line {
		if l.wild && l.r.P(1, 4) {
			l.b.WriteByte(' ')
		}
		l.nl()
		if l.wild {
			for l.r.P(1, 6) {
				l.nl()
			}
		}
		return
	}
	l.b.WriteByte(' ')
	l.bol = false
	if l.wild {
		for l.r.P(1, 5) {
			l.b.WriteString(l.run([]string{" ", "\t"}[l.r.Intn(2)]))
		}
	}
}

func rdimacs(r *fw.Rand) int {
	v := 0
	switch r.Intn(5) {
	case 0, 1, 2:
		v = r.Range(1, 30)
	case 3:
		v = 1 + r.Intn(1<<uint(r.Range(1, 30)))
	case 4:
		v = r.Pick(math.MaxInt32, math.MaxInt32-1, 1<<30, 99999, 100000, 10, 9, 2000000000)
	}
	if r.Bool() {
		v = -v
	}
	return v
}

// cnfText makes a problem, its text, and the events a reader should give.
// hdr: 0 none, 1 right, 2 off.
func cnfText(r *fw.Rand, big bool) (txt string, ev []string, f cnf, hdr int, mx int) {
	l := newLayout(r)
	for k := r.Intn(r.Pick(1, 4, 12, 60)); k > 0; k-- {
		var c []int
		for j := r.Pick(0, 1, 2, 2, 3, 3, 3, 5, 20); j > 0; j-- {
			if big {
				c = append(c, rdimacs(r))
			} else {
				c = append(c, rlit(r, r.Pick(3, 10, 40)))
			}
		}
		f = append(f, c)
	}
	mx = maxvar(f)
	hdr = r.Pick(0, 1, 1, 2)
	l.maybeComments()
	switch hdr {
	case 0:
		ev = append(ev, "init")
	default:
		nv, nc := mx, len(f)
		if hdr == 2 {
			for nv == mx && nc == len(f) {
				nv = mx + r.Pick(0, 0, 1, -1, 5)
				nc = len(f) + r.Pick(0, 0, 1, -1, 3)
				if nv < 0 {
					nv = 0
				}
				if nc < 0 {
					nc = 0
				}
				if nv > math.MaxInt32 {
					nv = mx
				}
			}
		}
		l.tok(fmt.Sprintf("p cnf %d %d", nv, nc))
		l.sep(true)
		ev = append(ev, fmt.Sprintf("init %d %d", nv, nc))
	}
	perLine := r.Pick(1, 1, 1, 0)
	for i, c := range f {
		for _, x := range c {
			l.tok(fmt.Sprintf("%d", x))
			l.sep(perLine == 0 && r.P(1, 3) || r.P(1, 20))
			ev = append(ev, fmt.Sprintf("%d", x))
		}
		l.tok("0")
		ev = append(ev, "0")
		if i < len(f)-1 || r.Bool() {
			l.sep(perLine == 1 || r.P(1, 3))
		}
	}
	l.maybeComments()
	if l.bol && r.P(1, 6) {
		l.b.WriteString("c last line")
	}
	ev = append(ev, "eof")
	return l.b.String(), ev, f, hdr, mx
}

func cnfEvents(r *fw.Rand, txt string, strict bool) ([]string, error) {
	v := &events{}
	var e error
	if strict {
		e = dimacs.ReadCnfStrict(newChunkReader(r, txt), v, true)
	} else if r.Bool() {
		e = dimacs.ReadCnf(newChunkReader(r, txt), v)
	} else {
		e = dimacs.ReadCnfStrict(newChunkReader(r, txt), v, false)
	}
	return v.ev, e
}

// normInit drops the numbers of an init without header.
func normInit(ev []string, noHdr bool) []string {
	if noHdr && len(ev) > 0 && strings.HasPrefix(ev[0], "init ") {
		return append([]string{"init"}, ev[1:]...)
	}
	return ev
}

func q(s string) string {
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return fmt.Sprintf("%q", s)
}

func cnfRead(c *fw.C) {
	r := c.R
	txt, want, f, hdr, _ := cnfText(r, r.Bool())
	c.Logf("text %s", q(txt))
	got, e := cnfEvents(r, txt, false)
	if e != nil {
		c.Failf("well formed text gives error %v: %s", e, q(txt))
	}
	got = normInit(got, hdr == 0)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		c.Failf("reading %s\n gives %v\n want  %v", q(txt), got, want)
	}
	c.Count("events", len(got))
	_, e = cnfEvents(r, txt, true)
	if (e == nil) != (hdr == 1) {
		c.Failf("strict reading of a text whose header is %s: error %v: %s", []string{"missing", "right", "wrong"}[hdr], e, q(txt))
	}
	c.Count([]string{"hdr_missing", "hdr_right", "hdr_wrong"}[hdr], 1)
	// a failing reader
	for k := 0; k < 6; k++ {
		cut := r.Intn(len(txt) + 1)
		cr := newChunkReader(r, txt[:cut])
		cr.err = errors.New("injected")
		v := &events{}
		e := dimacs.ReadCnf(cr, v)
		if e == nil {
			c.Failf("reader failed after %d bytes, ReadCnf returned no error: %s", cut, q(txt))
		}
		ev := normInit(v.ev, hdr == 0)
		if !prefix(ev, want) {
			c.Failf("reader failed after %d bytes; told %v, which the text does not begin with: %s", cut, v.ev, q(txt))
		}
		c.Count("reader_errors", 1)
	}
	// truncated: an error, or what is there is complete
	for k := 0; k < 6; k++ {
		cut := r.Intn(len(txt) + 1)
		ev, e := cnfEvents(r, txt[:cut], false)
		ok, wantEv := specCnf(txt[:cut])
		checkSpec(c, txt[:cut], ok, wantEv, ev, e)
	}
	c.Obs(fw.HashStr(f.hash(), txt))
}

// specCnf reads text by the definition of the format: 1 well formed, -1
// certainly not, 0 not decided by the definition used here.
func specCnf(txt string) (int, []string) {
	var b strings.Builder
	lines := strings.SplitAfter(txt, "\n")
	for _, l := range lines {
		if !strings.HasPrefix(l, "c") {
			b.WriteString(l)
		}
	}
	body := b.String()
	ev := []string{"init"}
	trim := strings.TrimLeft(body, " \t\r\n")
	if strings.HasPrefix(trim, "p") {
		i := strings.Index(trim, "\n")
		hl := trim
		rest := ""
		if i >= 0 {
			hl, rest = trim[:i], trim[i+1:]
		}
		hl = strings.TrimRight(hl, "\r")
		fs := strings.Split(strings.TrimRight(hl, " \t"), " ")
		odd := len(fs) != 4 || fs[0] != "p" || fs[1] != "cnf"
		for _, x := range fs {
			odd = odd || x == "" || strings.ContainsAny(x, "\t\r")
		}
		if odd {
			w := strings.Fields(hl + " " + rest)
			// clearly broken: another format, or numbers missing or bad
			if len(w) < 4 || w[0] != "p" || w[1] != "cnf" {
				return -1, nil
			}
			for _, x := range w[2:4] {
				if k, v := tokInt(x); k < 0 || v < 0 {
					return -1, nil
				}
			}
			return 0, nil
		}
		var n [2]int
		for j := 0; j < 2; j++ {
			k, v := tokInt(fs[2+j])
			if k < 0 || v < 0 {
				return -1, nil
			}
			if k == 0 {
				return 0, nil
			}
			n[j] = v
		}
		ev[0] = fmt.Sprintf("init %d %d", n[0], n[1])
		body = rest
	}
	open := false
	for _, w := range strings.FieldsFunc(body, func(c rune) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }) {
		k, v := tokInt(w)
		if k < 0 {
			return -1, nil
		}
		if k == 0 {
			return 0, nil
		}
		ev = append(ev, fmt.Sprintf("%d", v))
		open = v != 0
	}
	if open {
		return -1, nil
	}
	return 1, append(ev, "eof")
}

// tokInt: 1 a number in range, -1 certainly no number, 0 arguable.
func tokInt(w string) (int, int) {
	d := w
	neg := strings.HasPrefix(d, "-")
	if neg {
		d = d[1:]
	}
	if d == "" {
		return -1, 0
	}
	v := 0
	for _, c := range []byte(d) {
		if c < '0' || c > '9' {
			if c == '+' && d[0] == '+' {
				return 0, 0
			}
			return -1, 0
		}
		v = v*10 + int(c-'0')
		if v > math.MaxInt32 {
			return -1, 0
		}
	}
	if neg && v == 0 {
		return 0, 0
	}
	if neg {
		v = -v
	}
	return 1, v
}

func checkSpec(c *fw.C, txt string, ok int, want, got []string, e error) {
	switch ok {
	case 1:
		if e != nil {
			c.Failf("well formed text gives error %v: %s", e, q(txt))
		}
		if want[0] == "init" {
			got = normInit(got, true)
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			c.Failf("reading %s\n gives %v\n want  %v", q(txt), got, want)
		}
		c.Count("spec_wellformed", 1)
	case -1:
		if e == nil {
			c.Failf("malformed text is accepted as %v: %s", got, q(txt))
		}
		for _, x := range got {
			if x == "eof" {
				c.Failf("Eof was called and an error returned: %s", q(txt))
			}
		}
		c.Count("spec_malformed", 1)
	default:
		c.Count("spec_undecided", 1)
	}
}

func mutate(r *fw.Rand, txt string, toks []string) string {
	b := []byte(txt)
	for k := r.Range(1, 3); k > 0; k-- {
		p := r.Intn(len(b) + 1)
		switch r.Intn(6) {
		case 0:
			if p < len(b) {
				b = append(b[:p:p], b[p+1:]...)
			}
		case 1:
			if p < len(b) {
				b[p] = "0123456789-+ \n\tcpva\x00x"[r.Intn(21)]
			}
		case 2:
			t := toks[r.Intn(len(toks))]
			b = append(b[:p:p], append([]byte(t), b[p:]...)...)
		case 3:
			e := p + r.Intn(10)
			if e > len(b) {
				e = len(b)
			}
			b = append(b[:e:e], b[p:]...)
		case 4:
			b = b[:p]
		case 5:
			t := " " + toks[r.Intn(len(toks))] + " "
			b = append(b[:p:p], append([]byte(t), b[p:]...)...)
		}
	}
	return string(b)
}

var cnfToks = []string{"0", "-", "--1", "-1", "1-", "99999999999", "2147483648", "-2147483648", "4294967297", "18446744073709551617",
	"p cnf 1 1\n", "p cnf -1 2\n", "p cnf 2 -1\n", "\nc x\n", "c", "1.5", "1e3", "+1", "a", "%", "\n\n", "\r\n", "p", "0x1", "00", "007"}

func cnfMalformed(c *fw.C) {
	r := c.R
	txt, _, f, _, _ := cnfText(r, false)
	for k := 0; k < 12; k++ {
		m := mutate(r, txt, cnfToks)
		if k == 0 {
			m = r0text(r)
		}
		if hugeHeader(m) {
			continue
		}
		c.Logf("text %s", q(m))
		ok, want := specCnf(m)
		ev, e := cnfEvents(r, m, false)
		checkSpec(c, m, ok, want, ev, e)
		if ok == 1 && len(m) < 4000 && k%4 == 1 && maxAbs(want) < 5000 {
			// the solver constructor takes the same
			if _, e := gini.NewDimacs(newChunkReader(r, m)); e != nil {
				c.Failf("NewDimacs: well formed text gives error %v: %s", e, q(m))
			}
		}
		if ok == -1 && maxAbs(ev) < 5000 {
			if _, e := gini.NewDimacs(newChunkReader(r, m)); e == nil {
				c.Failf("NewDimacs: malformed text is accepted: %s", q(m))
			}
		}
	}
	c.Obs(fw.HashStr(f.hash(), txt))
}

func maxAbs(ev []string) int {
	m := 0
	for _, x := range ev {
		for _, w := range strings.Fields(x) {
			var v int
			if _, e := fmt.Sscanf(w, "%d", &v); e == nil && abs(v) > m {
				m = abs(v)
			}
		}
	}
	return m
}

func hugeHeader(s string) bool { return false }

func r0text(r *fw.Rand) string {
	al := "0123456789  -\n\ncp cnf\ta%\x00\xff"
	b := make([]byte, r.Intn(40))
	for i := range b {
		b[i] = al[r.Intn(len(al))]
	}
	s := string(b)
	if r.Bool() {
		s = "p cnf 3 3\n" + s
	}
	return s
}

// filterCase: the comment filter on any bytes and any reading pattern.
func filterCase(c *fw.C) {
	r := c.R
	al := "c\nc\n1 c\r\n-x"
	n := r.Intn(r.Pick(4, 20, 300, 9000))
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.Intn(len(al))]
	}
	var want strings.Builder
	for _, l := range strings.SplitAfter(string(b), "\n") {
		if !strings.HasPrefix(l, "c") {
			want.WriteString(l)
		}
	}
	cr := newChunkReader(r, string(b))
	bad := r.P(1, 4)
	if bad {
		cr.err = errors.New("injected")
	}
	f := dimacs.NewCommentFilter(cr)
	var got []byte
	sz := r.Pick(1, 2, 7, 64, 4096)
	for {
		buf := make([]byte, sz)
		k, e := f.Read(buf)
		if k < 0 || k > sz {
			c.Failf("Read returned %d of %d", k, sz)
		}
		got = append(got, buf[:k]...)
		if e != nil {
			if e != cr.err {
				c.Failf("comment filter returned error %v, the reader's was %v", e, cr.err)
			}
			break
		}
	}
	if string(got) != want.String() {
		c.Failf("comment filter of %s gives %s, want %s", q(string(b)), q(string(got)), q(want.String()))
	}
	c.Count("filtered_bytes", n-len(got))
	c.Obs(fw.HashStr(uint64(sz), string(b)))
}

// ---- icnf and solutions ----

func icnfText(r *fw.Rand) (string, []string) {
	l := newLayout(r)
	var ev []string
	wild := l.wild
	l.wild = false
	l.maybeComments()
	l.wild = wild
	l.b.WriteString("p inccnf")
	l.nl()
	for k := r.Intn(r.Pick(1, 5, 40)); k > 0; k-- {
		as := r.P(1, 3)
		if as {
			l.tok("a")
			if !r.P(1, 10) {
				l.sep(false)
			}
		}
		pre := ""
		if as {
			pre = "a"
		}
		first := as
		for j := r.Pick(0, 1, 2, 3, 3, 5, 12); j > 0; j-- {
			x := rdimacs(r)
			if first {
				l.b.WriteString(fmt.Sprint(x))
				l.bol = false
			} else {
				l.tok(fmt.Sprint(x))
			}
			first = false
			ev = append(ev, fmt.Sprintf("%s%d", pre, x))
			l.sep(r.P(1, 15))
		}
		if first {
			l.b.WriteString("0")
			l.bol = false
		} else {
			l.tok("0")
		}
		ev = append(ev, pre+"0")
		if k > 1 || r.Bool() {
			l.sep(!r.P(1, 8))
		}
	}
	l.maybeComments()
	return l.b.String(), append(ev, "eof")
}

func specICnf(txt string) (int, []string) {
	var b strings.Builder
	for _, l := range strings.SplitAfter(txt, "\n") {
		if !strings.HasPrefix(l, "c") {
			b.WriteString(l)
		}
	}
	body := b.String()
	switch {
	case strings.HasPrefix(body, "p inccnf\n"):
		body = body[len("p inccnf\n"):]
	case strings.HasPrefix(body, "p inccnf\r\n"):
		body = body[len("p inccnf\r\n"):]
	default:
		w := strings.Fields(body)
		if len(w) < 2 || w[0] != "p" || w[1] != "inccnf" {
			return -1, nil
		}
		return 0, nil
	}
	var ev []string
	open, as, und := false, false, false
	for _, w := range strings.FieldsFunc(body, func(c rune) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }) {
		if strings.HasPrefix(w, "a") {
			if open {
				return -1, nil
			}
			if as {
				und = true // a a
			}
			as = true
			w = w[1:]
			if w == "" {
				continue
			}
			if strings.HasPrefix(w, "a") {
				und = true
				w = strings.TrimLeft(w, "a")
				if w == "" {
					continue
				}
			}
		}
		k, v := tokInt(w)
		if k < 0 {
			return -1, nil
		}
		if k == 0 {
			return 0, nil
		}
		pre := ""
		if as {
			pre = "a"
		}
		ev = append(ev, fmt.Sprintf("%s%d", pre, v))
		open = v != 0
		if v == 0 {
			as = false
		}
	}
	if open || as {
		return -1, nil
	}
	if und {
		return 0, nil
	}
	return 1, append(ev, "eof")
}

func solveText(r *fw.Rand) (string, []string) {
	var b strings.Builder
	var ev []string
	nl := "\n"
	if r.P(1, 5) {
		nl = "\r\n"
	}
	com := func() {
		for r.P(1, 5) {
			b.WriteString([]string{"c", "c s SATISFIABLE", "c v 1 2 0", "c time 3"}[r.Intn(4)] + nl)
		}
	}
	com()
	for k := r.Pick(1, 1, 1, 2, 3); k > 0; k-- {
		res := r.Intn(3) - 1
		b.WriteString("s " + []string{"UNSATISFIABLE", "UNKNOWN", "SATISFIABLE"}[res+1])
		if r.P(1, 8) {
			b.WriteString(" ")
		}
		last := k == 1 && r.P(1, 4)
		if last {
			last = res != 1 || r.Bool()
		}
		if !last {
			b.WriteString(nl)
		}
		ev = append(ev, fmt.Sprintf("s%d", res))
		if last {
			break
		}
		com()
		if res == 1 && r.P(5, 6) {
			n := r.Intn(r.Pick(2, 10, 200))
			per := r.Pick(1, 3, 10, 1000)
			i := 0
			for {
				b.WriteString("v")
				for j := 0; j < per && i <= n; j++ {
					x := i + 1
					if r.Bool() {
						x = -x
					}
					if i == n {
						x = 0
					} else if r.P(1, 20) {
						x = rdimacs(r)
					}
					b.WriteString(fmt.Sprintf(" %d", x))
					ev = append(ev, fmt.Sprintf("v%d", x))
					i++
				}
				if r.P(1, 8) {
					b.WriteString(" ")
				}
				if i > n && k == 1 && r.P(1, 4) {
					break
				}
				b.WriteString(nl)
				com()
				if i > n {
					break
				}
			}
		}
	}
	return b.String(), append(ev, "eof")
}

func icnfRead(r *fw.Rand, rd io.Reader) ([]string, error) {
	v := &events{}
	e := dimacs.ReadICnf(rd, v)
	return v.ev, e
}

func solveRead(r *fw.Rand, rd io.Reader) ([]string, error) {
	v := &events{}
	e := dimacs.ReadSolve(rd, v)
	return v.ev, e
}

func textCase(c *fw.C, txt string, want []string, read func(*fw.Rand, io.Reader) ([]string, error), spec func(string) (int, []string)) {
	r := c.R
	c.Logf("text %s", q(txt))
	got, e := read(r, newChunkReader(r, txt))
	if e != nil {
		c.Failf("well formed text gives error %v: %s", e, q(txt))
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		c.Failf("reading %s\n gives %v\n want  %v", q(txt), got, want)
	}
	c.Count("events", len(got))
	for k := 0; k < 6; k++ {
		cut := r.Intn(len(txt) + 1)
		cr := newChunkReader(r, txt[:cut])
		cr.err = errors.New("injected")
		ev, e := read(r, cr)
		if e == nil {
			c.Failf("reader failed after %d bytes, no error returned: %s", cut, q(txt))
		}
		if !prefix(ev, want[:len(want)-1]) {
			c.Failf("reader failed after %d bytes; told %v, which the text does not begin with: %s", cut, ev, q(txt))
		}
		c.Count("reader_errors", 1)
	}
	if spec == nil {
		return
	}
	for k := 0; k < 10; k++ {
		m := txt[:r.Intn(len(txt)+1)]
		if k > 3 {
			m = mutate(r, txt, append(cnfToks, "a 1 0\n", "a", "a ", "p inccnf\n"))
		}
		ok, w := spec(m)
		ev, e := read(r, newChunkReader(r, m))
		checkSpec(c, m, ok, append([]string{}, w...), ev, e)
	}
}

var solveToks = []string{"s", "v", "v 1 2", "s SAT\n", "s MAYBE\n", "v x\n", "v -\n", "v 99999999999 0\n", "v 4294967297\n", "q\n", "\n", "\ns UNKNOWN", "\r\n", "--3"}

// specSolve reads a solver's output by definition; see specCnf.
func specSolve(txt string) (int, []string) {
	var ev []string
	und := false
	for _, l := range strings.Split(txt, "\n") {
		if strings.HasPrefix(l, "c") || l == "" {
			continue
		}
		switch l[0] {
		case 's':
			w := strings.TrimSpace(l[1:])
			switch w {
			case "SATISFIABLE":
				ev = append(ev, "s1")
			case "UNSATISFIABLE":
				ev = append(ev, "s-1")
			case "UNKNOWN":
				ev = append(ev, "s0")
			case "":
				und = true
				continue
			default:
				return -1, nil
			}
			if len(l) < 2 || l[1] != ' ' {
				und = true
			}
		case 'v':
			if len(l) > 1 && l[1] != ' ' {
				und = true
			}
			for _, w := range strings.FieldsFunc(l[1:], func(c rune) bool { return c == ' ' || c == '\t' || c == '\r' }) {
				k, v := tokInt(w)
				if k < 0 {
					return -1, nil
				}
				if k == 0 {
					return 0, nil
				}
				ev = append(ev, fmt.Sprintf("v%d", v))
			}
		case ' ', '\t', '\r':
			und = true
			// nothing is decided after it
			return 0, nil
		default:
			return -1, nil
		}
	}
	if und {
		return 0, nil
	}
	return 1, append(ev, "eof")
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C10",
		Rule: "problems written out in many layouts (comments anywhere, blank lines, tabs, CRLF, clauses over lines, missing header, no final newline), " +
			"read through readers which deliver in pieces, with the end along with data, or fail; the visitor's events are compared with those the text was made from; " +
			"mutants and truncations are judged by an independent reading of the format (well formed, malformed, undecided); distinct by text",
		Need: []string{"hdr_missing", "hdr_right", "hdr_wrong", "reader_errors", "spec_malformed", "spec_wellformed", "filtered_bytes"},
		Workloads: []fw.Workload{
			{Name: "read", Quick: 90000, Thorough: 1000000, Fn: cnfRead},
			{Name: "malformed", Quick: 45000, Thorough: 500000, Fn: cnfMalformed},
			{Name: "filter", Quick: 60000, Thorough: 500000, Fn: filterCase},
		},
	})
	fw.Register(&fw.Prop{
		ID: "C11",
		Rule: "incremental problems and solver outputs written out in many layouts and read through hostile readers; events compared with those the text was made from; " +
			"mutants and truncations judged by an independent reading of the format; distinct by text",
		Need: []string{"events", "reader_errors", "spec_malformed", "spec_wellformed"},
		Workloads: []fw.Workload{
			{Name: "icnf", Quick: 180000, Thorough: 1000000, Fn: func(c *fw.C) {
				txt, want := icnfText(c.R)
				textCase(c, txt, want, icnfRead, specICnf)
				c.Obs(fw.HashStr(1, txt))
			}},
			{Name: "solve", Quick: 180000, Thorough: 1000000, Fn: func(c *fw.C) {
				r := c.R
				txt, want := solveText(r)
				textCase(c, txt, want, solveRead, nil)
				for k := 0; k < 10; k++ {
					m := txt[:r.Intn(len(txt)+1)]
					if k > 3 {
						m = mutate(r, txt, append(cnfToks, solveToks...))
					}
					ok, w := specSolve(m)
					ev, e := solveRead(r, newChunkReader(r, m))
					checkSpec(c, m, ok, append([]string{}, w...), ev, e)
				}
				c.Obs(fw.HashStr(2, txt))
			}},
		},
	})
}
