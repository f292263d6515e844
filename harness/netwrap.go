package main

import (
	"time"

	"github.com/go-air/gini/inter"
	gnet "github.com/go-air/gini/inter/net"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
)

// wrapped is a local solver behind the interface of package inter/net, turned
// back into one which a session can drive.
type wrapped struct {
	c  *fw.C
	g  inter.S
	w  gnet.S
	wt gnet.Testable
}

func wrapNet(c *fw.C, g inter.S) *wrapped {
	w := gnet.ToS(g)
	t, ok := w.(gnet.Testable)
	if !ok {
		c.Failf("a wrapped solver has no scopes")
	}
	return &wrapped{c, g, w, t}
}

func (w *wrapped) ok(e error) {
	if e != nil {
		w.c.Failf("a wrapped solver gives the error %v", e)
	}
	w.c.Count("wrapped_calls", 1)
}
func (w *wrapped) Add(m z.Lit)             { w.ok(w.w.Add(m)) }
func (w *wrapped) Assume(ms ...z.Lit)      { w.ok(w.w.Assume(ms...)) }
func (w *wrapped) MaxVar() z.Var           { return w.g.MaxVar() }
func (w *wrapped) Try(d time.Duration) int { return w.g.Try(d) }
func (w *wrapped) Solve() int {
	r, e := w.w.Solve()
	w.ok(e)
	return r
}
func (w *wrapped) Why(dst []z.Lit) []z.Lit {
	r, e := w.w.Why(dst)
	w.ok(e)
	return r
}
func (w *wrapped) Value(m z.Lit) bool {
	r, e := w.w.Value(m)
	w.ok(e)
	return r
}
func (w *wrapped) Test(dst []z.Lit) (int, []z.Lit) {
	r, ms, e := w.wt.Test(dst)
	w.ok(e)
	return r, ms
}
func (w *wrapped) Untest() int {
	r, e := w.wt.Untest()
	w.ok(e)
	return r
}
func (w *wrapped) Reasons(dst []z.Lit, m z.Lit) []z.Lit {
	r, e := w.wt.Reasons(dst, m)
	w.ok(e)
	return r
}
func (w *wrapped) GoSolve() inter.Solve { return &wrappedSolve{w, w.w.GoSolve()} }

type wrappedSolve struct {
	w *wrapped
	s gnet.Solve
}

func (h *wrappedSolve) Test() (int, bool) {
	r, ok, e := h.s.Test()
	h.w.ok(e)
	return r, ok
}
func (h *wrappedSolve) Try(d time.Duration) int {
	r, e := h.s.Try(d)
	h.w.ok(e)
	return r
}
func (h *wrappedSolve) Stop() int {
	r, e := h.s.Stop()
	h.w.ok(e)
	return r
}

// Wait and Pause are not there: polling does for the first.
func (h *wrappedSolve) Wait() int {
	for {
		if r, ok := h.Test(); ok {
			return r
		}
		time.Sleep(20 * time.Microsecond)
	}
}
func (h *wrappedSolve) Pause() (int, bool) {
	if r, ok := h.Test(); ok {
		return r, false
	}
	return 0, true
}
func (h *wrappedSolve) Unpause() {}

func netCase(c *fw.C) {
	r := c.R
	w := wrapNet(c, newGini(r))
	s := newSession(c, w, "wrapped")
	switch r.Intn(3) {
	case 0:
		incrOn(s, r.Range(2, 15), r.Range(3, 15), r.Range(20, 45))
	case 1:
		scopesOn(s, r.Range(2, 12), r.Range(5, 40))
	default:
		n := r.Range(2, 20)
		for _, cl := range randK(r, n, n*r.Range(30, 45)/10, 3) {
			s.add(cl)
		}
		for k := r.Range(1, 6); k > 0; k-- {
			for j := r.Intn(4); j > 0; j-- {
				s.assume(rlit(r, n))
			}
			s.asolve(nil, nil)
		}
	}
	obsSession(c, s)
}
