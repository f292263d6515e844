package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"net"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/go-air/gini/crisp"
	gnet "github.com/go-air/gini/inter/net"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
)

// crispSrv is a server for one case.
type crispSrv struct {
	c    *fw.C
	s    *crisp.Server
	addr string
	done chan error
	base int // goroutines before
	down bool
}

var crispNo int64

func startCrisp(c *fw.C) *crispSrv {
	log.SetOutput(io.Discard)
	v := &crispSrv{c: c, base: runtime.NumGoroutine(), done: make(chan error, 1)}
	var e error
	if c.R.P(1, 6) {
		for i := 0; i < 200; i++ {
			v.addr = fmt.Sprintf("127.0.0.1:%d", 20000+(int(atomic.AddInt64(&crispNo, 1))*7+int(time.Now().UnixNano()/1000))%12000)
			if v.s, e = crisp.NewServer(v.addr); e == nil {
				break
			}
		}
	} else {
		v.addr = "@" + filepath.Join(c.Tmp, fmt.Sprintf("s%d", atomic.AddInt64(&crispNo, 1)))
		v.s, e = crisp.NewServer(v.addr)
	}
	if e != nil {
		c.Failf("NewServer(%s): %v", v.addr, e)
	}
	if a := crisp.ParseAddr(v.addr); a.String() != v.addr {
		c.Failf("address %s is %s after parsing", v.addr, a)
	}
	go func() { v.done <- v.s.Serve() }()
	return v
}

// stop shuts the server down, and returns when all it started ended.
func (v *crispSrv) stop() {
	if v.down {
		return
	}
	v.down = true
	if e := v.s.Shutdown(); e != nil {
		v.c.Failf("Shutdown: %v", e)
	}
	if e := <-v.done; e == nil {
		v.c.Failf("Serve ends without error")
	}
	for runtime.NumGoroutine() > v.base {
		time.Sleep(50 * time.Microsecond)
	}
	v.c.Count("servers", 1)
}

func (v *crispSrv) dial() *crisp.Client {
	cl, e := crisp.Dial(v.addr)
	if e != nil {
		v.c.Failf("Dial: %v", e)
	}
	return cl
}

func (v *crispSrv) raw() net.Conn {
	a := crisp.ParseAddr(v.addr)
	conn, e := net.Dial(a.Network, a.NetAddr)
	if e != nil {
		v.c.Failf("dial: %v", e)
	}
	return conn
}

// cliS makes a session's solver of a client.
type cliS struct {
	c      *fw.C
	r      *fw.Rand
	cl     *crisp.Client
	last   int
	modelN int
	maxv   int // largest variable given since the start or the last reset
}

func (w *cliS) must(e error, what string) {
	if e != nil {
		w.c.Failf("%s: %v", what, e)
	}
}
func (w *cliS) saw(ms ...z.Lit) {
	for _, m := range ms {
		if v := int(m.Var()); v > w.maxv {
			w.maxv = v
		}
	}
}
func (w *cliS) Add(m z.Lit)           { w.saw(m); w.must(w.cl.Add(m), "Add") }
func (w *cliS) Assume(ms ...z.Lit)    { w.saw(ms...); w.must(w.cl.Assume(ms...), "Assume") }
func (w *cliS) MaxVar() z.Var         { return w.cl.MaxVar() }
func (w *cliS) Try(time.Duration) int { return w.Solve() }
func (w *cliS) Solve() int {
	r, e := w.cl.Solve()
	w.must(e, "Solve")
	w.last = r
	return r
}
func (w *cliS) Why(dst []z.Lit) []z.Lit {
	r, e := w.cl.Why(dst)
	if w.last != -1 {
		if e == nil {
			w.c.Failf("Why after the answer %d gives no error", w.last)
		}
		return dst
	}
	w.must(e, "Why")
	return r
}
func (w *cliS) Value(m z.Lit) bool {
	b, e := w.cl.Value(m)
	w.must(e, "Value")
	return b
}

// crispAsk asks for what goes with the last answer of s in all other ways.
func crispAsk(s *session, w *cliS) {
	r, c := s.r, s.c
	cl := w.cl
	n := int(cl.MaxVar())
	switch w.last {
	case 1:
		switch r.Intn(4) {
		case 0:
			var vs []bool
			switch r.Intn(3) {
			case 1:
				vs = make([]bool, r.Intn(100))
				for i := range vs {
					vs[i] = r.Bool()
				}
			case 2:
				vs = make([]bool, r.Intn(2), (n+31)/32*32+1+r.Intn(3))
			}
			vs, e := cl.Model(vs)
			w.must(e, "Model")
			if len(vs) < n+1 {
				c.Failf("the model has %d entries for %d variables", len(vs), n)
			}
			for v := 1; v <= n; v++ {
				if vs[v] != w.Value(lit(v)) {
					c.Failf("Model gives %v for variable %d, Value %v", vs[v], v, !vs[v])
				}
			}
			for i := range vs { // it is the caller's
				vs[i] = r.Bool()
			}
			c.Count("models", 1)
		case 1:
			var ms []int
			for k := r.Pick(0, 1, 2, 5, 31, 32, 33, 64, 65); k > 0; k-- {
				ms = append(ms, rlit(r, n+r.Pick(0, 0, 0, 50)))
			}
			k := (len(ms) + 31) / 32 * 32
			var dst []bool
			switch r.Intn(3) {
			case 1:
				dst = make([]bool, r.Intn(2), k+1+r.Pick(0, 0, 1, 20))
			case 2:
				dst = make([]bool, r.Intn(70))
			}
			dst, e := cl.ModelFor(dst, lits(ms))
			w.must(e, "ModelFor")
			if len(dst) < len(ms)+1 {
				c.Failf("ModelFor gives %d entries for %d literals", len(dst), len(ms))
			}
			seen := map[int]bool{}
			for i, m := range ms {
				if abs(m) <= n && dst[i+1] != w.Value(lit(m)) {
					c.Failf("ModelFor gives %v for %d (number %d), Value %v", dst[i+1], m, i, !dst[i+1])
				}
				if o, ok := seen[m]; ok && o != dst[i+1] {
					c.Failf("ModelFor gives %d two values", m)
				}
				if o, ok := seen[-m]; ok && o == dst[i+1] {
					c.Failf("ModelFor gives %d and %d the same value", m, -m)
				}
				seen[m] = dst[i+1]
			}
			c.Count("partial_models", 1)
		case 2:
			if _, e := cl.WhySelect(nil, lits([]int{1})); e == nil {
				c.Failf("WhySelect after sat gives no error")
			}
		}
	case -1:
		switch r.Intn(3) {
		case 0:
			all, e := cl.Why(nil)
			w.must(e, "Why")
			failed := map[int]bool{}
			for _, l := range ints(all) {
				failed[l] = true
			}
			var ms, want []int
			for k := r.Pick(0, 1, 3, 6); k > 0; k-- {
				l := rlit(r, n+1)
				if len(all) > 0 && r.P(2, 3) {
					l = all[r.Intn(len(all))].Dimacs()
				}
				ms = append(ms, l)
				if failed[l] {
					want = append(want, l)
				}
			}
			pre := []int{}
			if r.P(1, 3) {
				pre = []int{4, -2}
			}
			got, e := cl.WhySelect(lits(pre), lits(ms))
			w.must(e, "WhySelect")
			if fmt.Sprint(ints(got)) != fmt.Sprint(append(append([]int{}, pre...), want...)) {
				c.Failf("WhySelect of %v (dst %v) gives %v with failed assumptions %v", ms, pre, ints(got), ints(all))
			}
			c.Count("why_select", 1)
		case 1:
			if _, e := cl.Model(nil); e == nil {
				c.Failf("Model after unsat gives no error")
			}
			if _, e := cl.ModelFor(nil, lits([]int{1})); e == nil {
				c.Failf("ModelFor after unsat gives no error")
			}
		}
	default:
		if _, e := cl.Model(nil); e == nil {
			c.Failf("Model without answer gives no error")
		}
		if _, e := cl.Why(nil); e == nil {
			c.Failf("Why without answer gives no error")
		}
	}
	if r.P(1, 8) {
		if k, e := cl.GetExts(); k != 0 || e != nil {
			c.Failf("GetExts gives %d, %v", k, e)
		}
	}
}

// crispAsync solves through GoSolve.
func crispAsync(s *session, w *cliS) int {
	r, c := s.r, s.c
	as := append([]int{}, s.pend...)
	s.pend = nil
	var h gnet.Solve = w.cl.GoSolve()
	res, done, mayStop := 0, false, false
	var e error
	how := "GoSolve"
	polls := r.Intn(4)
	if c.W == "long" {
		polls = r.Intn(2)
	}
	for k := polls; k > 0 && !done; k-- {
		if r.Bool() {
			dally(r)
		}
		res, done, e = h.Test()
		w.must(e, "Test")
		if !done && res != 0 {
			c.Failf("Test of a running solve gives %d", res)
		}
	}
	if !done {
		switch r.Intn(3) {
		case 0:
			if r.Bool() {
				dally(r)
			}
			res, e = h.Stop()
			how += " Stop"
			mayStop = true
		case 1:
			res, e = h.Try(time.Duration(r.Pick(0, 10, 200, 1000, 20000)) * time.Microsecond)
			how += " Try"
			mayStop = true
		default:
			for !done && e == nil {
				res, done, e = h.Test()
				runtime.Gosched()
			}
			how += " Test..."
		}
		w.must(e, how)
	}
	w.last, s.last = res, res
	s.logf("%s under %v -> %d", how, as, res)
	if res == 0 {
		if !mayStop {
			c.Failf("%s gives 0", how)
		}
		c.Count("stopped", 1)
		return 0
	}
	s.judge(res, as, how)
	if res == -1 {
		s.why(as, how)
	}
	return res
}

// crispClient is one client's session.
func crispClient(c *fw.C, v *crispSrv, r *fw.Rand, name string) {
	cl := v.dial()
	defer cl.Close()
	w := &cliS{c: c, r: r, cl: cl}
	fresh := func() *session {
		s := newSession(c, w, name)
		s.r = r
		w.last = 0
		return s
	}
	s := fresh()
	n := r.Range(2, 12)
	if c.W == "long" {
		n = r.Range(25, 60)
	}
	feed := func(m int) {
		if c.W == "long" {
			for _, cl := range amplify(r, n, r.Pick(30, 100, 250)) {
				addClause(w, cl)
			}
		}
		f := randK(r, n, m, 3)
		if r.P(1, 4) {
			if r.Bool() { // not of the usual kind
				f = append(f, messyClause(r, n))
			}
			if r.P(1, 3) {
				f = append(f, []int{rlit(r, n)})
			}
			if r.P(1, 12) {
				f = append(f, []int{})
			}
			for _, cl := range f {
				s.note(cl)
			}
			s.logf("dimacs %s", f)
			if r.P(1, 4) { // of bad ones nothing is sent
				if e := cl.Dimacs(strings.NewReader(fmt.Sprintf("p cnf 3 3\n%d 0\n1 x 0\n", rlit(r, n)))); e == nil {
					c.Failf("Dimacs of malformed text gives no error")
				}
			}
			for _, cl := range f {
				w.saw(lits(cl)...)
			}
			w.must(cl.Dimacs(&piecewise{b: []byte(f.dimacs(maxvar(f))), r: r}), "Dimacs")
			return
		}
		for _, cl := range f {
			s.add(cl)
		}
	}
	lo, extra := 25, 1 // one variable which is in no clause
	if c.W == "long" {
		lo, extra = 40, 0
	}
	feed(n * r.Range(lo, 43) / 10)
	steps := r.Range(3, 12)
	for i := 0; i < steps; i++ {
		if int(cl.MaxVar()) != w.maxv {
			c.Failf("MaxVar is %d, the largest variable added or assumed %d", cl.MaxVar(), w.maxv)
		}
		switch k := r.Intn(10); {
		case k == 0:
			w.must(cl.Reset(), "Reset")
			w.maxv = 0
			if cl.MaxVar() != 0 {
				c.Failf("MaxVar is %d after Reset", cl.MaxVar())
			}
			if r.Bool() { // as if just connected: nothing was answered
				m := lit(rlit(r, n))
				if b, e := cl.Value(m); e == nil {
					c.Failf("Value gives %v after Reset", b)
				}
				if vs, e := cl.Model(nil); e == nil {
					c.Failf("Model gives %v after Reset", vs)
				}
				if vs, e := cl.ModelFor(nil, []z.Lit{m}); e == nil {
					c.Failf("ModelFor gives %v after Reset", vs)
				}
				if ms, e := cl.Why(nil); e == nil {
					c.Failf("Why gives %v after Reset", ms)
				}
				if ms, e := cl.WhySelect(nil, []z.Lit{m}); e == nil {
					c.Failf("WhySelect gives %v after Reset", ms)
				}
				c.Count("asked_after_reset", 1)
			}
			s = fresh()
			feed(n * r.Range(10, 43) / 10)
		case k < 3:
			s.add(rclause(r, n, r.Pick(2, 3, 3)))
			if r.P(1, 3) {
				s.add(messyClause(r, n))
			}
		default:
			for k := r.Pick(0, 1, 1, 2, 5); k > 0; k-- {
				var as []int
				for j := r.Range(1, 3); j > 0; j-- {
					as = append(as, rlit(r, n+extra))
				}
				s.assume(as...)
			}
			if r.P(1, 3) || c.W == "long" {
				crispAsync(s, w)
			} else {
				s.solve(0)
			}
			for k := r.Intn(4); k > 0; k-- {
				crispAsk(s, w)
			}
		}
	}
	if r.P(2, 3) {
		w.must(cl.Quit(), "Quit")
	}
	c.Obs(s.cls.hash())
}

// piecewise delivers b in pieces.
type piecewise struct {
	b []byte
	r *fw.Rand
}

func (p *piecewise) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := p.r.Range(1, 40)
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], p.b)
	p.b = p.b[n:]
	return n, nil
}

func crispSession(c *fw.C) {
	r := c.R
	v := startCrisp(c)
	defer v.stop()
	k := 1
	switch c.W {
	case "clients":
		k = r.Range(2, 12)
	case "long":
		k = r.Range(1, 3)
	}
	var joins []func()
	for i := 1; i < k; i++ {
		cr := r.Fork()
		name := fmt.Sprintf("client%d", i)
		joins = append(joins, forked(func() { crispClient(c, v, cr, name) }))
	}
	defer func() {
		for _, j := range joins {
			j()
		}
	}()
	if r.P(1, 4) {
		v.s.Trace(r.Bool())
		defer v.s.Trace(false)
	}
	crispClient(c, v, r.Fork(), "client")
}

// ---- a server made of the documentation

const (
	cTop = 0xffffffff
	cKey = cTop - iota + 1
	cAdd
	cAssume
	cSolve
	cContinue
	cEnd
	cError
	cFailed
	cFailedFor
	cModel
	cModelFor
	cSat
	cUnsat
	cUnknown
	cExt
	cQuit
	cReset
)

func putU(b []byte, u uint32) []byte {
	for u >= 128 {
		b = append(b, byte(u)|128)
		u >>= 7
	}
	return append(b, byte(u))
}

type crispRd struct {
	r   io.Reader
	buf []byte
}

func (r *crispRd) byte() (byte, error) {
	if len(r.buf) == 0 {
		b := make([]byte, 512)
		n, e := r.r.Read(b)
		if n == 0 {
			if e == nil {
				e = io.ErrNoProgress
			}
			return 0, e
		}
		r.buf = b[:n]
	}
	x := r.buf[0]
	r.buf = r.buf[1:]
	return x, nil
}

func (r *crispRd) u32() (uint32, error) {
	u := uint64(0)
	for i := uint(0); i < 5; i++ {
		x, e := r.byte()
		if e != nil {
			return 0, e
		}
		u |= uint64(x&127) << (7 * i)
		if x&128 == 0 {
			if u>>32 != 0 {
				return 0, fmt.Errorf("number too big")
			}
			return uint32(u), nil
		}
	}
	return 0, fmt.Errorf("number too long")
}

// inPieces writes b in pieces.
func inPieces(r *fw.Rand, w io.Writer, b []byte) error {
	for len(b) > 0 {
		n := len(b)
		if r.Bool() {
			n = r.Range(1, len(b))
		}
		if _, e := w.Write(b[:n]); e != nil {
			return e
		}
		b = b[n:]
		if r.P(1, 4) {
			runtime.Gosched()
		}
	}
	return nil
}

type fakeStep struct {
	req  string
	nums []uint32
}

// fakeServer plays a script of replies; it records all the client sent.
// Replies to a solve are made of script; other requests are answered from
// data.
type fakeServer struct {
	c     *fw.C
	r     *fw.Rand
	l     net.Listener
	got   []string
	err   error
	reply func(op uint32, ms []uint32) (out []uint32, hangup bool)
	hello []uint32
}

func (f *fakeServer) serve() {
	conn, e := f.l.Accept()
	if e != nil {
		f.err = e
		return
	}
	defer conn.Close()
	var b []byte
	for _, u := range f.hello {
		b = putU(b, u)
	}
	if inPieces(f.r, conn, b) != nil || len(f.hello) < 6 {
		return
	}
	rd := &crispRd{r: conn}
	list := func() (ms []uint32, e error) {
		for {
			u, e := rd.u32()
			if e != nil || u == 0 {
				return ms, e
			}
			if u >= cTop-255 {
				return ms, fmt.Errorf("op %x in a list", u)
			}
			ms = append(ms, u)
		}
	}
	for {
		op, e := rd.u32()
		if e != nil {
			if e != io.EOF {
				f.err = e
			}
			return
		}
		var ms []uint32
		switch op {
		case cAdd:
			for {
				var u uint32
				if u, e = rd.u32(); e != nil || u == cEnd {
					break
				}
				if u >= cTop-255 {
					e = fmt.Errorf("op %x in add", u)
					break
				}
				ms = append(ms, u)
			}
		case cAssume, cModelFor, cFailedFor:
			ms, e = list()
		case cSolve, cContinue, cEnd, cModel, cFailed, cExt, cReset:
		case cQuit:
			f.got = append(f.got, "quit")
			return
		default:
			e = fmt.Errorf("op %x", op)
		}
		if e != nil {
			f.err = e
			return
		}
		f.got = append(f.got, fmt.Sprintf("%x%v", op, ms))
		out, hangup := f.reply(op, ms)
		b = b[:0]
		for _, u := range out {
			b = putU(b, u)
		}
		if f.r.P(1, 10) {
			dally(f.r)
		}
		if inPieces(f.r, conn, b) != nil || hangup {
			return
		}
	}
}

// crispFake is a client and a server which does all the documentation allows
// and some of what it does not.
func crispFake(c *fw.C) {
	log.SetOutput(io.Discard)
	r := c.R
	base := runtime.NumGoroutine()
	path := filepath.Join(c.Tmp, fmt.Sprintf("f%d", atomic.AddInt64(&crispNo, 1)))
	l, e := net.Listen("unix", path)
	if e != nil {
		c.Failf("listen: %v", e)
	}
	defer l.Close()
	f := &fakeServer{c: c, r: r.Fork(), l: l}
	ver := uint32(1<<24) | uint32(r.Intn(1<<24))
	if r.Bool() {
		ver = 1 << 24
	}
	f.hello = []uint32{'C', 'R', 'I', 'S', 'P', ver}
	badHello := r.P(1, 10)
	if badHello {
		if k := r.Intn(6); r.Bool() {
			f.hello = f.hello[:k] // and then nothing: the server hangs up
		} else if k < 5 {
			f.hello[k] = uint32(r.Range(32, 64))
		} else {
			f.hello = nil
		}
	}
	if v := crisp.Version(ver); v.Major() != int(ver>>24) || v.Minor() != int(ver&0xffffff) {
		c.Failf("version %x is %d.%d", ver, v.Major(), v.Minor())
	}
	var want []string
	note := func(op uint32, ms []uint32) { want = append(want, fmt.Sprintf("%x%v", op, ms)) }
	// what the server will do
	type plan struct {
		unknowns int
		res      uint32 // answer after them
		err      uint32
		hangup   bool
		afterEnd uint32
	}
	var p plan
	model := []uint32{}
	failed := []uint32{}
	left := 0
	badData := 0
	var exts []uint32
	var ended int32
	f.reply = func(op uint32, ms []uint32) ([]uint32, bool) {
		answer := func() ([]uint32, bool) {
			if left > 0 {
				left--
				return []uint32{cUnknown}, false
			}
			if p.hangup {
				return nil, true
			}
			if p.err != 0 {
				return []uint32{cError, p.err}, true
			}
			return []uint32{p.res}, false
		}
		switch op {
		case cSolve:
			left = p.unknowns
			return answer()
		case cContinue:
			return answer()
		case cEnd:
			atomic.AddInt32(&ended, 1)
			return []uint32{p.afterEnd}, false
		case cModel:
			if badData == 1 {
				return []uint32{uint32(len(model) + 1)}, true
			}
			if badData == 2 {
				return []uint32{cError, 4}, true
			}
			return append([]uint32{uint32(len(model))}, model...), false
		case cModelFor:
			k := (len(ms) + 31) / 32
			return append([]uint32{uint32(k)}, model[:k]...), false
		case cFailed:
			if badData == 1 {
				return failed, true
			}
			if badData == 2 {
				return []uint32{cError, 4}, true
			}
			return append(append([]uint32{}, failed...), 0), false
		case cFailedFor:
			return append(append([]uint32{}, failed...), 0), false
		case cExt:
			return append(append([]uint32{}, exts...), 0), false
		}
		return nil, false
	}
	fin := make(chan struct{})
	go func() { f.serve(); close(fin) }()
	cl, e := crisp.Dial("@" + path)
	if badHello {
		if e == nil {
			c.Failf("Dial accepts the greeting %v", f.hello)
		}
		<-fin
		for runtime.NumGoroutine() > base {
			time.Sleep(50 * time.Microsecond)
		}
		c.Count("bad_hello", 1)
		c.Obs(uint64(len(f.hello)) + 7)
		return
	}
	if e != nil {
		c.Failf("Dial: %v", e)
	}
	defer cl.Close()
	must := func(e error, what string) {
		if e != nil {
			c.Failf("%s: %v", what, e)
		}
	}
	steps := r.Range(1, 8)
	over := false
	var open []uint32
	flushAdd := func() {
		if open != nil {
			note(cAdd, open)
			open = nil
		}
	}
	for i := 0; i < steps && !over; i++ {
		for k := r.Intn(4); k > 0; k-- {
			if r.Bool() {
				for _, l := range rclause(r, 200000, r.Pick(1, 3, 400)) {
					must(cl.Add(lit(l)), "Add")
					open = append(open, uint32(lit(l)))
				}
				must(cl.Add(0), "Add")
				open = append(open, 0)
			} else {
				ms := rclause(r, 1<<24, r.Pick(1, 3, 600))
				flushAdd()
				must(cl.Assume(lits(ms)...), "Assume")
				var us []uint32
				for _, l := range ms {
					us = append(us, uint32(lit(l)))
				}
				note(cAssume, us)
			}
		}
		flushAdd()
		if r.P(1, 8) {
			must(cl.Reset(), "Reset")
			note(cReset, nil)
		}
		if r.P(1, 8) { // extensions
			exts = exts[:0]
			for k, room := r.Intn(6), 230; k > 0 && room > 0; k-- {
				m := r.Pick(1, 2, 30, 100, 128, 200)
				if m > room {
					m = room
				}
				room -= m
				exts = append(exts, uint32(r.Intn(1<<16))<<16|uint32(m))
			}
			k, e := cl.GetExts()
			must(e, "GetExts")
			note(cExt, nil)
			if k != len(exts) {
				c.Failf("GetExts gives %d, sent %d", k, len(exts))
			}
			op := uint32(cTop - 255)
			for j, x := range exts {
				for _, o := range []uint32{0, x&0xffff - 1} {
					if got := uint32(cl.ExtOp(j, o)); got != op+o {
						c.Failf("op %d of extension %d of %x is %x", o, j, exts, got)
					}
				}
				op += x & 0xffff
			}
			c.Count("extensions", len(exts))
		}
		p = plan{unknowns: r.Pick(0, 0, 1, 5, 200), res: uint32(r.Pick(cSat, cUnsat, cSat, cUnsat, cEnd)), afterEnd: uint32(r.Pick(cSat, cUnsat, cEnd, cEnd))}
		bad := false
		switch r.Intn(14) {
		case 0:
			p.hangup, bad = true, true
		case 1:
			p.err, bad = uint32(r.Range(1, 8)), true
			if r.Bool() { // none of today
				p.err = uint32(r.Pick(9, 17, 255, 256+r.Range(1, 8), 1<<20))
			}
		case 2:
			p.res, bad = uint32(r.Pick(0, 5, cAdd, cTop-200, cModel)), true
		}
		atomic.StoreInt32(&ended, 0)
		if !bad && r.P(1, 8) { // will not stop
			p.afterEnd = uint32(r.Pick(cUnknown, 0, 5, cAdd, cModel))
		}
		badData = 0
		if r.P(1, 10) {
			badData = r.Range(1, 2)
		}
		model = model[:0]
		for k := r.Pick(3, 3, 40); k > 0; k-- {
			model = append(model, uint32(r.Uint64()))
		}
		failed = failed[:0]
		for k := r.Pick(0, 2, 700); k > 0; k-- {
			failed = append(failed, uint32(lit(rlit(r, 1<<20))))
		}
		c.Logf("plan %+v", p)
		var res int
		var e error
		stopped := false
		if r.Bool() {
			res, e = cl.Solve()
		} else {
			h := cl.GoSolve()
			if r.Bool() {
				dally(r)
			}
			switch r.Intn(3) {
			case 0:
				res, e = h.Stop()
				stopped = true
			case 1:
				res, e = h.Try(time.Duration(r.Pick(0, 10, 100, 1000)) * time.Microsecond)
				stopped = true
			default:
				for done := false; !done; {
					res, done, e = h.Test()
					runtime.Gosched()
				}
			}
		}
		if bad && e == nil && !stopped {
			c.Failf("the server replied wrongly to solve (%+v), but the result is %d without error", p, res)
		}
		m := map[uint32]int{cSat: 1, cUnsat: -1, cEnd: 0}
		if _, ok := m[p.afterEnd]; !ok && atomic.LoadInt32(&ended) > 0 {
			bad = true
			if e == nil {
				c.Failf("the server replied %x to end, but the result is %d without error", p.afterEnd, res)
			}
		}
		if e != nil {
			if !bad {
				c.Failf("Solve: %v", e)
			}
			if p.err != 0 && atomic.LoadInt32(&ended) == 0 && e != error(crisp.ProtoErr(p.err)) {
				c.Failf("the server sent error %d, Solve gives %v", p.err, e)
			}
			if res != 0 {
				c.Failf("result %d and error %v", res, e)
			}
			c.Count("bad_replies", 1)
			over = true
			break
		}
		if a, ok := m[p.res]; !(ok && !bad && res == a) && !(stopped && res == m[p.afterEnd]) {
			c.Failf("Solve gives %d, the server said %+v", res, p)
		}
		// solve exchanges are checked by their shape, below
		want = append(want, "S")
		switch res {
		case 1:
			vs, e := cl.Model(nil)
			if badData != 0 {
				if e == nil {
					c.Failf("Model gives %v of a server which did not send all", vs)
				}
				over = true
				break
			}
			must(e, "Model")
			note(cModel, nil)
			for j := 0; j < 32*len(model); j++ {
				if vs[j+1] != (model[j/32]&(1<<uint(j%32)) != 0) {
					c.Failf("variable %d is %v in the model %x", j+1, vs[j+1], model)
				}
			}
			ms := rclause(r, 1000, r.Pick(1, 31, 32, 33, 64))
			vs, e = cl.ModelFor(vs, lits(ms))
			must(e, "ModelFor")
			var us []uint32
			for _, l := range ms {
				us = append(us, uint32(lit(l)))
			}
			note(cModelFor, us)
			for j := range ms {
				if vs[j+1] != (model[j/32]&(1<<uint(j%32)) != 0) {
					c.Failf("number %d of ModelFor is %v in %x", j, vs[j+1], model)
				}
			}
		case -1:
			fs, e := cl.Why(nil)
			if badData != 0 {
				if e == nil {
					c.Failf("Why gives %v of a server which did not send all", fs)
				}
				over = true
				break
			}
			must(e, "Why")
			note(cFailed, nil)
			if len(fs) != len(failed) {
				c.Failf("Why gives %d literals of %d", len(fs), len(failed))
			}
			for j := range fs {
				if uint32(fs[j]) != failed[j] {
					c.Failf("literal %d of Why is %d, sent %d", j, fs[j], failed[j])
				}
			}
			if r.Bool() {
				fs, e = cl.WhySelect(nil, fs[:len(fs)/2])
				must(e, "WhySelect")
				if len(fs) != len(failed) {
					c.Failf("WhySelect gives %d literals of %d", len(fs), len(failed))
				}
				note(cFailedFor, failed[:len(failed)/2])
			}
		}
		c.Count("fake_solves", 1)
	}
	if !over && r.Bool() {
		must(cl.Quit(), "Quit")
		want = append(want, "quit")
	}
	cl.Close()
	<-fin
	for runtime.NumGoroutine() > base {
		time.Sleep(50 * time.Microsecond)
	}
	if !over {
		if f.err != nil {
			c.Failf("the server could not read what the client sent: %v", f.err)
		}
		// group solve (continue)* end? into S
		var got []string
		solve, cont, end := fmt.Sprintf("%x[]", uint32(cSolve)), fmt.Sprintf("%x[]", uint32(cContinue)), fmt.Sprintf("%x[]", uint32(cEnd))
		for i := 0; i < len(f.got); i++ {
			if f.got[i] != solve {
				got = append(got, f.got[i])
				continue
			}
			for i+1 < len(f.got) && f.got[i+1] == cont {
				i++
			}
			if i+1 < len(f.got) && f.got[i+1] == end {
				i++
			}
			got = append(got, "S")
		}
		if a, b := strings.Join(got, "\n"), strings.Join(want, "\n"); a != b {
			c.Failf("the client sent\n%.2000s\nexpected\n%.2000s", a, b)
		}
	}
	c.Obs(fw.HashStr(3, strings.Join(f.got, ",")))
}

var _ = bytes.NewReader

func init() {
	fw.Register(&fw.Prop{
		ID:   "C19",
		Race: true,
		Rule: "sessions of one or several crisp clients with the repository's server over unix or tcp sockets, and of clients with a server of the harness made of the documentation, which answers late, in pieces, with errors or hangs up; " +
			"answers, models and failed assumptions are judged with the reference solver, what the client sends by the documented format; afterwards all goroutines end; distinct by clauses or requests",
		Need: []string{"hopeless_given_up", "sat", "unsat", "models", "partial_models", "why_select", "stopped", "fake_solves", "bad_replies", "servers", "wrapped_calls"},
		Workloads: []fw.Workload{
			{Name: "session", Quick: 800, Thorough: 30000, Fn: crispSession, Limit: 60 * time.Second},
			{Name: "clients", Quick: 120, Thorough: 5000, Fn: crispSession, Limit: 60 * time.Second},
			{Name: "long", Quick: 120, Thorough: 2000, Fn: crispSession, Limit: 90 * time.Second},
			{Name: "wide", Quick: 24, Thorough: 600, Fn: wideCrisp, Limit: 90 * time.Second},
			{Name: "hopeless", Quick: 60, Thorough: 3000, Fn: hopelessCrisp, Limit: 40 * time.Second},
			{Name: "fake", Quick: 1000, Thorough: 40000, Fn: crispFake, Limit: 60 * time.Second},
			{Name: "wrapped", Quick: 1500, Thorough: 60000, Fn: netCase, Limit: 60 * time.Second},
		},
	})
}
