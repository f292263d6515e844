package main

import (
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/go-air/gini/crisp"
	"verif/harness/fw"
	"verif/harness/ref"
)

// rawCli speaks the documented protocol, in pieces and ahead of the replies.
type rawCli struct {
	c    *fw.C
	r    *fw.Rand
	conn net.Conn
	rd   *crispRd
	out  []byte
	name string
}

func newRaw(c *fw.C, v *crispSrv, r *fw.Rand, name string) *rawCli {
	k := &rawCli{c: c, r: r, conn: v.raw(), name: name}
	k.rd = &crispRd{r: k.conn}
	return k
}

func (k *rawCli) put(us ...uint32) {
	for _, u := range us {
		k.out = putU(k.out, u)
		if k.r.P(1, 40) { // more bytes than needed are allowed
			if n := len(k.out); k.out[n-1] < 128 && u < 1<<7 {
				k.out[n-1] |= 128
				k.out = append(k.out, 0)
			}
		}
	}
}

func (k *rawCli) flush() error {
	b := k.out
	k.out = nil
	return inPieces(k.r, k.conn, b)
}

func (k *rawCli) need(want uint32, what string) {
	u, e := k.rd.u32()
	if e != nil {
		k.c.Failf("%s: %s: %v", k.name, what, e)
	}
	if u != want {
		k.c.Failf("%s: %s: got %x, expected %x", k.name, what, u, want)
	}
}

func (k *rawCli) hello() {
	for _, x := range "CRISP" {
		k.need(uint32(x), "greeting")
	}
	k.need(1<<24, "version 1.0")
}

func (k *rawCli) num(what string) uint32 {
	u, e := k.rd.u32()
	if e != nil {
		k.c.Failf("%s: %s: %v", k.name, what, e)
	}
	return u
}

// closed checks that nothing comes any more.
func (k *rawCli) closed(what string) {
	if u, e := k.rd.u32(); e == nil {
		k.c.Failf("%s: %s, but %x comes", k.name, what, u)
	}
}

func codes(ls []int) []uint32 {
	var r []uint32
	for _, m := range lits(ls) {
		r = append(r, uint32(m))
	}
	return r
}

// rawState is the shadow of a connection.
type rawState struct {
	k    *rawCli
	cls  cnf
	as   []int
	n    int
	big  int // largest variable used
	last int // answer; 2 none, 3 something was added or assumed since
	ans  []int
	hard bool
}

func (s *rawState) saw(ls []int) {
	for _, l := range ls {
		if abs(l) > s.big {
			s.big = abs(l)
		}
	}
}

// request puts requests which have no reply.
func (s *rawState) request() {
	k := s.k
	r := k.r
	switch r.Intn(8) {
	case 0, 1, 2:
		k.put(cAdd)
		j := r.Intn(6)
		if k.c.W == "long" && s.n > 200 && !s.hard {
			j = r.Intn(s.n)
			if r.P(1, 8) { // longer than any buffer
				cl := rclause(r, s.n, s.n/2)
				s.cls = append(s.cls, cl)
				s.saw(cl)
				k.put(codes(cl)...)
				k.put(0)
			}
		}
		for ; j > 0; j-- {
			cl := rclause(r, s.n, r.Pick(2, 3, 3))
			if r.P(1, 8) {
				cl = messyClause(r, s.n)
			}
			if r.P(1, 60) {
				cl = nil
			}
			s.cls = append(s.cls, cl)
			s.saw(cl)
			k.put(codes(cl)...)
			k.put(0)
			k.c.Logf("%s: add %v", k.name, cl)
		}
		k.put(cEnd)
		if s.last != 2 {
			s.last = 3
		}
	case 3, 4, 5:
		as := rclause(r, s.n, r.Range(1, 4))
		if k.c.W == "long" && s.n > 200 && !s.hard {
			as = rclause(r, s.n, r.Pick(1, 40, 400))
		}
		if r.P(1, 10) {
			as = nil
		}
		if r.P(1, 30) {
			as = append(as, s.n+r.Intn(3000))
		}
		s.as = append(s.as, as...)
		s.saw(as)
		k.put(cAssume)
		k.put(codes(as)...)
		k.put(0)
		k.c.Logf("%s: assume %v", k.name, as)
		if s.last != 2 {
			s.last = 3
		}
	case 6:
		if r.P(1, 3) {
			k.put(cReset)
			s.cls, s.as, s.big, s.last = nil, nil, 0, 2
			s.hard = false
			k.c.Logf("%s: reset", k.name)
		}
	case 7:
		if r.P(1, 3) && s.last == 2 {
			k.put(cKey)
			m := r.Pick(0, 1, 7)
			k.put(uint32(m))
			for ; m > 0; m-- {
				k.put(uint32(r.Uint64()))
			}
		}
	}
}

// solve runs the solve loop. give: after how many unknowns to end, -1 never.
func (s *rawState) solve(give int) {
	k := s.k
	k.put(cSolve)
	k.c.Logf("%s: solve", k.name)
	if e := k.flush(); e != nil {
		k.c.Failf("%s: write: %v", k.name, e)
	}
	s.ans, s.as = s.as, nil
	s.last = 0
	for i := 0; ; i++ {
		u := k.num("solve")
		switch u {
		case cSat, cUnsat:
			s.last = 1
			if u == cUnsat {
				s.last = -1
			}
			k.c.Logf("%s: -> %d", k.name, s.last)
			s.judge()
			return
		case cUnknown:
			k.c.Count("unknowns", 1)
			if give == i {
				k.put(cEnd)
				k.flush()
				k.c.Logf("%s: end", k.name)
				switch u := k.num("end"); u {
				case cEnd:
					k.c.Count("ended", 1)
					s.last = 0
				case cSat:
					s.last = 1
				case cUnsat:
					s.last = -1
				default:
					k.c.Failf("%s: reply %x to end", k.name, u)
				}
				if s.last != 0 {
					k.c.Count("answered_at_end", 1)
					s.judge()
				}
				return
			}
			if i > 20 {
				time.Sleep(20 * time.Microsecond)
			}
			k.put(cContinue)
			k.flush()
		default:
			k.c.Failf("%s: reply %x to solve", k.name, u)
		}
	}
}

func (s *rawState) judge() {
	k := s.k
	if s.hard {
		if s.last != -1 {
			k.c.Failf("%s: pigeons fit", k.name)
		}
		return
	}
	rr := ref.SolveLim(s.cls, s.ans, 300000)
	if !rr.Unknown && rr.Sat != (s.last == 1) {
		k.c.Failf("%s: answer %d under %v for %s", k.name, s.last, s.ans, short(s.cls))
	}
	if s.last == 1 {
		k.c.Count("sat", 1)
	} else {
		k.c.Count("unsat", 1)
	}
}

// data puts some requests for data at once and then checks the replies.
func (s *rawState) data() {
	k := s.k
	r := k.r
	var checks []func()
	var model []bool // of the first model request
	var failed map[int]bool
	for j := r.Range(1, 5); j > 0; j-- {
		switch kind := r.Intn(5); {
		case kind == 0:
			k.put(cExt)
			checks = append(checks, func() { k.need(0, "ext") })
		case s.last == 1 && kind < 3:
			k.put(cModel)
			big := s.big
			checks = append(checks, func() {
				n := k.num("model")
				if int(n) != (big+31)/32 {
					k.c.Failf("%s: model of %d words for %d variables", k.name, n, big)
				}
				vs := []bool{false}
				for i := uint32(0); i < n; i++ {
					u := k.num("model")
					for b := uint(0); b < 32; b++ {
						vs = append(vs, u&(1<<b) != 0)
					}
				}
				for v := big + 1; v < len(vs); v++ {
					if vs[v] {
						k.c.Failf("%s: bit %d of a model of %d variables is set", k.name, v, big)
					}
				}
				if !ref.Eval(s.cls, vs) {
					k.c.Failf("%s: the model makes a clause false", k.name)
				}
				for _, a := range s.ans {
					if !ref.Holds(a, vs) {
						k.c.Failf("%s: the model makes the assumption %d false", k.name, a)
					}
				}
				if model != nil && fmt.Sprint(model) != fmt.Sprint(vs) {
					k.c.Failf("%s: two models after one solve differ", k.name)
				}
				model = vs
				k.c.Count("models", 1)
			})
		case s.last == 1:
			var ms []int
			i := r.Pick(0, 1, 5, 31, 32, 33, 100, 1000)
			if k.c.W == "long" {
				i = r.Intn(6000)
			}
			for ; i > 0; i-- {
				ms = append(ms, rlit(r, s.big+r.Pick(1, 1, 1, 100, 1<<29)))
			}
			k.put(cModelFor)
			k.put(codes(ms)...)
			k.put(0)
			big := s.big
			checks = append(checks, func() {
				n := int(k.num("modelfor"))
				if n != (len(ms)+31)/32 {
					k.c.Failf("%s: %d words for %d literals", k.name, n, len(ms))
				}
				seen := map[int]bool{}
				for i := 0; i < n; i++ {
					u := k.num("modelfor")
					for b := 0; b < 32; b++ {
						x := u&(1<<uint(b)) != 0
						if 32*i+b >= len(ms) {
							if x {
								k.c.Failf("%s: bit %d of %d values is set", k.name, 32*i+b, len(ms))
							}
							continue
						}
						m := ms[32*i+b]
						if model != nil && abs(m) <= big && x != ref.Holds(m, model) {
							k.c.Failf("%s: literal %d is %v, but %v in the model", k.name, m, x, !x)
						}
						if o, ok := seen[-m]; ok && o == x {
							k.c.Failf("%s: %d and %d have the same value", k.name, m, -m)
						}
						if o, ok := seen[m]; ok && o != x {
							k.c.Failf("%s: %d has two values", k.name, m)
						}
						seen[m] = x
					}
				}
				k.c.Count("partial_models", 1)
			})
		case s.last == -1 && kind < 3:
			k.put(cFailed)
			checks = append(checks, func() {
				mine := map[int]bool{}
				for _, l := range s.ans {
					mine[l] = true
				}
				var fs []int
				fm := map[int]bool{}
				for {
					u := k.num("failed")
					if u == 0 {
						break
					}
					l := int(u >> 1)
					if u&1 == 1 {
						l = -l
					}
					if !mine[l] || fm[l] {
						k.c.Failf("%s: failed literal %d of the assumptions %v", k.name, l, s.ans)
					}
					fm[l] = true
					fs = append(fs, l)
				}
				if !s.hard {
					if rr := ref.SolveLim(s.cls, fs, 300000); !rr.Unknown && rr.Sat {
						k.c.Failf("%s: failed assumptions %v do not suffice", k.name, fs)
					}
				}
				if failed != nil && fmt.Sprint(failed) != fmt.Sprint(fm) {
					k.c.Failf("%s: failed assumptions %v and then %v", k.name, failed, fm)
				}
				failed = fm
				k.c.Count("failed", 1)
			})
		case s.last == -1:
			var ms []int
			i := r.Pick(0, 1, 5, 40)
			if k.c.W == "long" {
				i = r.Intn(4000)
			}
			for ; i > 0; i-- {
				l := rlit(r, s.big+1)
				if len(s.ans) > 0 && r.Bool() {
					l = s.ans[r.Intn(len(s.ans))]
				}
				ms = append(ms, l)
			}
			k.put(cFailedFor)
			k.put(codes(ms)...)
			k.put(0)
			checks = append(checks, func() {
				var got []int
				for {
					u := k.num("failedfor")
					if u == 0 {
						break
					}
					l := int(u >> 1)
					if u&1 == 1 {
						l = -l
					}
					got = append(got, l)
				}
				var want []int
				if failed != nil {
					for _, m := range ms {
						if failed[m] {
							want = append(want, m)
						}
					}
					if fmt.Sprint(got) != fmt.Sprint(want) {
						k.c.Failf("%s: failedfor %v gives %v, failed are %v", k.name, ms, got, failed)
					}
				}
				k.c.Count("failed_for", 1)
			})
		}
	}
	if k.r.P(1, 6) {
		// whole exchanges ahead of the replies
		for j := 0; j < 3; j++ {
			k.put(cExt)
			checks = append(checks, func() { k.need(0, "ext") })
		}
	}
	if e := k.flush(); e != nil {
		k.c.Failf("%s: write: %v", k.name, e)
	}
	for _, f := range checks {
		f()
	}
}

// giveUp starts a long solve, ends it, and goes on.
func (s *rawState) giveUp() {
	k := s.k
	s.hardProblem()
	if k.r.Bool() {
		k.put(cAssume, 2, 0)
		s.as = append(s.as, 1)
	}
	s.solve(k.r.Pick(0, 1, 2, 10))
	if s.last == 0 && k.r.Bool() {
		// the problem is still there
		k.put(cAdd, 2, 4, 0, cEnd)
		s.last = 3
		s.solve(k.r.Pick(0, 1))
	}
	k.put(cReset)
	s.cls, s.as, s.big, s.last = nil, nil, 0, 2
	s.hard = false
	s.n = k.vars()
	k.c.Logf("%s: reset", k.name)
}

func (k *rawCli) vars() int {
	if k.c.W == "long" {
		return k.r.Range(500, 6000)
	}
	return k.r.Range(2, 14)
}

func newRawState(k *rawCli) *rawState {
	return &rawState{k: k, n: k.vars(), last: 2}
}

// hardProblem makes the next solve a long one.
func (s *rawState) hardProblem() {
	k := s.k
	k.put(cReset)
	s.cls, s.as, s.big, s.last = nil, nil, 0, 2
	s.hard = true
	k.put(cAdd)
	for _, cl := range php(12, 11) {
		k.put(codes(cl)...)
		k.put(0)
		s.saw(cl)
	}
	k.put(cEnd)
	s.n = s.big
	k.c.Logf("%s: pigeons", k.name)
}

func (s *rawState) someSteps(n int) {
	r := s.k.r
	for i := 0; i < n; i++ {
		if r.P(1, 20) {
			s.giveUp()
		}
		for j := r.Intn(5); j > 0; j-- {
			s.request()
		}
		give := -1
		if r.P(1, 3) {
			give = r.Pick(0, 0, 1, 5)
		}
		s.solve(give)
		if s.last == 1 || s.last == -1 || r.Bool() {
			for j := r.Intn(3); j > 0; j-- {
				s.data()
			}
		}
	}
}

func rawPlain(c *fw.C, v *crispSrv, r *fw.Rand, name string) {
	k := newRaw(c, v, r, name)
	defer k.conn.Close()
	if r.Bool() {
		k.hello()
		s := newRawState(k)
		s.someSteps(r.Range(1, 8))
		if r.Bool() {
			k.put(cQuit)
			k.flush()
			k.closed("quit")
		}
		c.Obs(s.cls.hash())
		return
	}
	// requests ahead of the greeting
	s := newRawState(k)
	for j := r.Intn(5); j > 0; j-- {
		s.request()
	}
	k.flush()
	k.hello()
	s.someSteps(r.Range(1, 4))
	c.Obs(s.cls.hash())
}

// rawError makes one mistake.
func rawError(c *fw.C, v *crispSrv, r *fw.Rand) {
	k := newRaw(c, v, r, "bad")
	defer k.conn.Close()
	k.hello()
	s := newRawState(k)
	s.someSteps(r.Intn(3))
	var want []uint32 // allowed codes
	const (
		eVarUint = 1 + iota
		eNotSat
		eNotUnsat
		eOutOfOrder
		eUnknownOp
		eNotLit
		eNotOp
		eInternal
	)
	running := false
	what := ""
	inSolve := r.P(1, 3)
	if inSolve {
		s.hardProblem()
		k.put(cSolve)
		k.flush()
		for j := r.Intn(4); j >= 0; j-- {
			u := k.num("solve")
			if u != cUnknown {
				// cannot be so fast
				c.Failf("reply %x to a hard problem", u)
			}
			if j > 0 {
				k.put(cContinue)
				k.flush()
				dally(r)
			}
		}
		running = true
	}
	over := func() { // a number which is none
		b := []byte{0xff, 0xff, 0xff, 0xff}
		switch r.Intn(5) {
		case 3: // one byte too many
			b = append(b, 0x8f, byte(r.Pick(0, 1)))
		case 4:
			b = []byte{0x80, 0x80, 0x80, 0x80, 0x80, 0}
		case 0:
			b = append(b, 0x10)
		case 1:
			b = append(b, 0x7f)
		case 2:
			b = append(b, 0xff, 1)
		}
		k.out = append(k.out, b...)
		want = []uint32{eVarUint}
		what = "too big a number"
	}
	badLit := func() {
		k.put([]uint32{1, cSolve, cTop - 255, cTop - 100, cUnknown}[r.Intn(5)])
		want = []uint32{eNotLit}
		what = "no literal"
	}
	if running {
		ops := []uint32{cSolve, cModel, cModelFor, cFailed, cFailedFor, cReset, cAdd, cAssume, cKey, cExt}
		op := ops[r.Intn(len(ops))]
		k.put(op)
		want = []uint32{eOutOfOrder, eNotSat, eNotUnsat}
		what = fmt.Sprintf("%x during a solve", op)
		if r.P(1, 5) {
			k.out = nil
			over()
		}
	} else {
		switch r.Intn(9) {
		case 0: // no answer to ask for
			if r.Bool() {
				s.solve(-1)
			}
			if s.last != 1 {
				k.put([]uint32{cModel, cModelFor}[r.Intn(2)])
				what = fmt.Sprintf("model in state %d", s.last)
				switch s.last {
				case -1, 0:
					want = []uint32{eNotSat}
				case 3:
					want = []uint32{eOutOfOrder}
				default:
					want = []uint32{eOutOfOrder, eNotSat}
				}
			} else {
				k.put([]uint32{cFailed, cFailedFor}[r.Intn(2)])
				what = "failed after sat"
				want = []uint32{eNotUnsat}
			}
		case 1:
			if r.Bool() {
				s.solve(-1)
			}
			if s.last != -1 {
				k.put([]uint32{cFailed, cFailedFor}[r.Intn(2)])
				what = fmt.Sprintf("failed in state %d", s.last)
				switch s.last {
				case 1, 0:
					want = []uint32{eNotUnsat}
				case 3:
					want = []uint32{eOutOfOrder}
				default:
					want = []uint32{eOutOfOrder, eNotUnsat}
				}
			} else {
				k.put([]uint32{cModel, cModelFor}[r.Intn(2)])
				what = "model after unsat"
				want = []uint32{eNotSat}
			}
		case 2: // after something else
			s.solve(-1)
			what = "data after add or assume"
			want = []uint32{eOutOfOrder}
			switch r.Intn(3) {
			case 0:
				k.put(cAssume, 0)
			case 1:
				k.put(cAdd, 2, 3, 0, cEnd)
			case 2: // as if just connected
				k.put(cReset)
				what = fmt.Sprintf("data after reset after %d", s.last)
				want = []uint32{eOutOfOrder, eNotSat, eNotUnsat}
			}
			k.put([]uint32{cFailed, cFailedFor, cModel, cModelFor}[r.Intn(4)])
		case 3:
			k.put([]uint32{cContinue, cEnd}[r.Intn(2)])
			what = "no solve to go on with"
			want = []uint32{eOutOfOrder}
		case 4:
			over()
		case 5:
			k.put(uint32(r.Pick(0, 1, 2, 77, 1<<20, cTop-255, cTop-255, cTop-200, cError, cSat, cUnsat, cUnknown)))
			want = []uint32{eUnknownOp, eNotOp}
			what = "no request"
		case 6:
			k.put(cAdd)
			if r.Bool() {
				k.put(2, 5, 0)
			}
			badLit()
		case 7:
			k.put(cAssume)
			if r.Bool() {
				k.put(2, 5)
			}
			badLit()
		case 8:
			k.put([]uint32{cAdd, cAssume, cKey}[r.Intn(3)])
			k.put(4)
			over()
		}
	}
	c.Logf("then: %s", what)
	k.flush()
	u, e := k.rd.u32()
	if e != nil {
		c.Failf("%s: no reply: %v", what, e)
	}
	if u != cError {
		c.Failf("%s: reply %x", what, u)
	}
	code, e := k.rd.u32()
	if e != nil {
		c.Failf("%s: error without code: %v", what, e)
	}
	ok := false
	for _, w := range want {
		ok = ok || w == code
	}
	if !ok {
		c.Failf("%s: error %d (%s), expected %v", what, code, crisp.ProtoErr(code), want)
	}
	k.closed(what)
	c.Count("errors", 1)
	if running {
		c.Count("errors_during_solve", 1)
	}
	c.Obs(fw.HashStr(uint64(code), what))
}

// rawGarbage sends what makes no sense, or hangs up in the middle.
func rawGarbage(c *fw.C, v *crispSrv, r *fw.Rand) {
	k := newRaw(c, v, r, "garbage")
	defer k.conn.Close()
	// whatever the server says is taken
	fin := make(chan struct{})
	go func() {
		io.Copy(io.Discard, k.conn)
		close(fin)
	}()
	s := newRawState(k)
	for j := r.Intn(4); j > 0; j-- {
		s.request()
	}
	ops := []uint32{cKey, cAdd, cAssume, cSolve, cContinue, cEnd, cError, cFailed, cFailedFor, cModel, cModelFor, cSat, cUnsat, cUnknown, cExt, cReset}
	keyed := false
	for j := r.Range(1, 60); j > 0; j-- {
		switch r.Intn(6) {
		case 0, 1:
			op := ops[r.Intn(len(ops))]
			k.put(op)
			keyed = keyed || op == cKey
		case 2:
			k.put(0)
		case 3:
			k.put(uint32(r.Pick(1, 2, 3, 1000, 50000)))
			if keyed {
				k.put(0xfffffff0)
			}
		case 4:
			for _, u := range codes(rclause(r, 20, 3)) {
				k.put(u)
			}
		case 5:
			// a well formed piece
			switch r.Intn(4) {
			case 0:
				k.put(cAdd, 2, 5, 0, 7, 0, cEnd)
			case 1:
				k.put(cAssume, 4, 0)
			case 2:
				k.put(cSolve)
			case 3:
				k.put(cModelFor, 4, 600, 0)
			}
		}
		if r.P(1, 10) {
			k.flush()
			if r.P(1, 3) {
				dally(r)
			}
		}
	}
	if r.P(1, 4) { // half a number
		k.put([]uint32{cAdd, 1000, cSolve}[r.Intn(3)])
		k.out = k.out[:len(k.out)-1]
	}
	k.flush()
	if r.Bool() {
		dally(r)
	}
	k.conn.Close()
	<-fin
	c.Count("garbage", 1)
	c.Obs(uint64(r.Uint64()))
}

// rawDrop hangs up during a long solve.
func rawDrop(c *fw.C, v *crispSrv, r *fw.Rand) {
	k := newRaw(c, v, r, "drop")
	defer k.conn.Close()
	k.hello()
	s := newRawState(k)
	s.hardProblem()
	if r.P(1, 3) {
		k.put(cAssume, 2, 0)
	}
	k.put(cSolve)
	k.flush()
	for j := r.Intn(4); j > 0; j-- {
		k.need(cUnknown, "solve")
		if j > 1 {
			k.put(cContinue)
			k.flush()
		}
	}
	if r.Bool() {
		dally(r)
	}
	if r.P(1, 3) { // half a number
		k.conn.Write([]byte{0xff, 0xff})
	}
	if r.P(1, 4) {
		k.put(cQuit)
		k.flush()
	}
	k.conn.Close()
	c.Count("dropped_during_solve", 1)
	c.Obs(r.Uint64())
}

func crispRaw(c *fw.C) {
	r := c.R
	v := startCrisp(c)
	defer v.stop()
	if c.W == "flow" || c.W == "long" {
		var joins []func()
		for i := r.Pick(0, 0, 1, 4); i > 0; i-- {
			cr := r.Fork()
			joins = append(joins, forked(func() { rawPlain(c, v, cr, "other") }))
		}
		defer func() {
			for _, j := range joins {
				j()
			}
		}()
		rawPlain(c, v, r.Fork(), "raw")
		return
	}
	// one or many offend; others notice nothing
	var joins []func()
	defer func() {
		for _, j := range joins {
			j()
		}
	}()
	if r.P(1, 3) {
		cr := r.Fork()
		joins = append(joins, forked(func() { rawPlain(c, v, cr, "other") }))
	}
	for i := r.Pick(1, 1, 3, 2*runtime.NumCPU()); i > 0; i-- {
		switch c.W {
		case "errors":
			rawError(c, v, r.Fork())
		case "garbage":
			rawGarbage(c, v, r.Fork())
		case "drop":
			rawDrop(c, v, r.Fork())
		}
	}
	// and it still serves
	rawPlain(c, v, r.Fork(), "after")
	if r.Bool() {
		c.Count("served_after", 1)
	}
}

// crispFiles is about what the server does to files.
func crispFiles(c *fw.C) {
	log.SetOutput(io.Discard)
	r := c.R
	p := filepath.Join(c.Tmp, fmt.Sprintf("file%d", r.Intn(1000)))
	defer os.RemoveAll(p)
	switch r.Intn(3) {
	case 0:
		os.WriteFile(p, []byte("keep"), 0644)
		if s, e := crisp.NewServer("@" + p); e == nil {
			s.Shutdown()
			c.Failf("a server replaces a file")
		}
		if b, _ := os.ReadFile(p); string(b) != "keep" {
			c.Failf("the file has become %q", b)
		}
		c.Obs(1)
	case 1:
		os.Mkdir(p, 0755)
		if s, e := crisp.NewServer("@" + p); e == nil {
			s.Shutdown()
			c.Failf("a server replaces a directory")
		}
		if st, e := os.Stat(p); e != nil || !st.IsDir() {
			c.Failf("the directory is gone")
		}
		c.Obs(2)
	case 2:
		// a socket left over
		l, e := net.ListenUnix("unix", &net.UnixAddr{Name: p, Net: "unix"})
		if e != nil {
			c.Failf("%v", e)
		}
		l.SetUnlinkOnClose(false)
		l.Close()
		s, e := crisp.NewServer("@" + p)
		if e != nil {
			c.Failf("a left over socket prevents a server: %v", e)
		}
		base := runtime.NumGoroutine()
		done := make(chan error, 1)
		go func() { done <- s.Serve() }()
		cl, e := crisp.Dial("@" + p)
		if e != nil {
			c.Failf("%v", e)
		}
		cl.Close()
		if e := s.Shutdown(); e != nil {
			c.Failf("Shutdown: %v", e)
		}
		<-done
		if _, e := os.Stat(p); e == nil {
			c.Failf("the socket is left after Shutdown")
		}
		for runtime.NumGoroutine() > base {
			time.Sleep(50 * time.Microsecond)
		}
		c.Obs(3)
	}
	c.Count("files", 1)
}

// crispExts checks opcodes of extensions.
func crispExts(c *fw.C) {
	r := c.R
	x := crisp.NewExts()
	used := map[crisp.ProtoPoint]int{}
	total := 0
	const room = 239 // opcodes below the protocol's own
	var ids []uint16
	for i := 0; i < 60; i++ {
		id, n := uint16(r.Uint64()), uint8(r.Pick(0, 1, 2, 5, 30, 100, 255))
		if r.P(1, 8) && total < room {
			n = uint8(room - total)
		}
		k, e := x.Install(id, n)
		if total+int(n) > room {
			if e == nil {
				c.Failf("%d opcodes installed after %d", n, total)
			}
			continue
		}
		if e != nil {
			c.Failf("%d opcodes not installed after %d: %v", n, total, e)
		}
		if k != len(ids) {
			c.Failf("extension %d has id %d", len(ids), k)
		}
		ids = append(ids, id)
		total += int(n)
		for o := uint32(0); o < uint32(n); o++ {
			op := x.Op(k, o)
			if j, ok := used[op]; ok {
				c.Failf("opcode %x is of extensions %d and %d", uint32(op), j, k)
			}
			used[op] = k
			if uint32(op) < cTop-255 || uint32(op) >= cReset {
				c.Failf("opcode %x of extension %d is not one for extensions", uint32(op), k)
			}
			if s := op.String(); !strings.HasPrefix(s, "<ext-") {
				c.Failf("opcode %x is %s", uint32(op), s)
			}
		}
	}
	for k, id := range ids {
		if x.Id(k) != id {
			c.Failf("extension %d has persistent id %d, installed %d", k, x.Id(k), id)
		}
	}
	c.Count("extensions", len(ids))
	c.Obs(uint64(total) ^ uint64(len(ids))<<20)
}

func init() {
	fw.Register(&fw.Prop{
		ID:   "C20",
		Race: true,
		Rule: "raw connections to the repository's server: valid sequences in pieces and ahead of the replies, one mistake of each kind in each state, sequences of random requests and numbers, and hang ups, also during solves which would take for ever; " +
			"replies are parsed by the documentation and judged with the reference solver, other connections and later ones must be served right, and all goroutines end; distinct by clauses or mistakes",
		Need: []string{"sat", "unsat", "models", "partial_models", "failed", "failed_for", "ended", "unknowns", "errors", "errors_during_solve", "dropped_during_solve", "garbage", "files", "extensions"},
		Workloads: []fw.Workload{
			{Name: "flow", Quick: 600, Thorough: 30000, Fn: crispRaw, Limit: 60 * time.Second},
			{Name: "long", Quick: 80, Thorough: 3000, Fn: crispRaw, Limit: 90 * time.Second},
			{Name: "errors", Quick: 400, Thorough: 20000, Fn: crispRaw, Limit: 60 * time.Second},
			{Name: "garbage", Quick: 400, Thorough: 20000, Fn: crispRaw, Limit: 60 * time.Second},
			{Name: "drop", Quick: 150, Thorough: 5000, Fn: crispRaw, Limit: 60 * time.Second},
			{Name: "files", Quick: 60, Thorough: 200, Fn: crispFiles, Limit: 40 * time.Second},
			{Name: "exts", Quick: 100, Thorough: 2000, Fn: crispExts},
		},
	})
}
