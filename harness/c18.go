package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/ax"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
	"verif/harness/fw"
	"verif/harness/ref"
)

// probe watches how an ax uses a solver: never two things at a time.
type probe struct {
	inter.S
	c       *fw.C
	busy    int32
	copies  *int32
	running *int32
	most    *int32
}

func newProbe(c *fw.C, s inter.S) *probe {
	return &probe{S: s, c: c, copies: new(int32), running: new(int32), most: new(int32)}
}

func (p *probe) idle(what string) {
	if atomic.LoadInt32(&p.busy) != 0 {
		p.c.Report("", "%s of a solver which is running", what)
	}
}

func (p *probe) SCopy() inter.S {
	p.idle("SCopy")
	atomic.AddInt32(p.copies, 1)
	return &probe{S: p.S.SCopy(), c: p.c, copies: p.copies, running: p.running, most: p.most}
}

func (p *probe) Assume(ms ...z.Lit) { p.idle("Assume"); p.S.Assume(ms...) }
func (p *probe) Value(m z.Lit) bool { p.idle("Value"); return p.S.Value(m) }
func (p *probe) Why(dst []z.Lit) []z.Lit {
	p.idle("Why")
	return p.S.Why(dst)
}
func (p *probe) GoSolve() inter.Solve {
	p.idle("GoSolve")
	atomic.StoreInt32(&p.busy, 1)
	n := atomic.AddInt32(p.running, 1)
	for {
		m := atomic.LoadInt32(p.most)
		if n <= m || atomic.CompareAndSwapInt32(p.most, m, n) {
			break
		}
	}
	return &probeSolve{Solve: p.S.GoSolve(), p: p}
}

type probeSolve struct {
	inter.Solve
	p     *probe
	ended bool
}

func (s *probeSolve) end() {
	if !s.ended {
		s.ended = true
		atomic.StoreInt32(&s.p.busy, 0)
		atomic.AddInt32(s.p.running, -1)
	}
}

func (s *probeSolve) Test() (int, bool) {
	r, ok := s.Solve.Test()
	if ok {
		s.end()
	}
	return r, ok
}
func (s *probeSolve) Stop() int { r := s.Solve.Stop(); s.end(); return r }
func (s *probeSolve) Wait() int { r := s.Solve.Wait(); s.end(); return r }

// axJob is a request of a case.
type axJob struct {
	req  *ax.Request
	as   []int
	t0   time.Time
	sent bool
	got  int
}

type axCase struct {
	c        *fw.C
	x        ax.T
	f        cnf
	amp      cnf
	cap      int
	n        int    // variables to make assumptions of
	model    []bool // of the clauses of a wide case
	guard    int    // unless 0, of clauses which make a solve hopeless
	p        *probe
	once     sync.Once
	failed   int32
	mu       sync.Mutex
	jobs     map[*ax.Request]*axJob
	accepted int
	received int
}

func newAxCase(c *fw.C) *axCase {
	r := c.R
	a := &axCase{c: c, jobs: map[*ax.Request]*axJob{}}
	n := r.Range(2, 14)
	m := n * (25 + r.Intn(20)) / 10
	switch {
	case r.P(1, 12):
		n, m = r.Range(1, 3), r.Intn(3)
	case c.W == "limits" || (c.W == "stop" && r.Bool()):
		n = r.Range(60, 150)
		m = n * (36 + r.Intn(8)) / 10
		if r.P(1, 3) {
			n = r.Range(25, 50)
			m = 4 * n
			a.amp = amplify(r, n, r.Pick(50, 200))
		}
	}
	if c.W == "hopeless" {
		n = r.Range(2, 8)
		m = 3 * n
	}
	if m > 0 {
		a.f = randK(r, n, m, 3)
	}
	if c.W == "hopeless" { // under the guard no solve ends by itself
		a.guard = n + 1
		a.amp = guardedPhp(a.guard)
	}
	if c.W == "wide" {
		a.f, a.model, n = wideClauses(r, r.Pick(500, 3000, 20000))
	}
	var s inter.S
	sv := false
	switch r.Intn(4) {
	case 0:
		s = gini.NewS()
	case 1:
		s = gini.NewSv()
		sv = true
	default:
		s = gini.New()
	}
	for _, cl := range a.amp {
		addClause(s, cl)
	}
	for _, cl := range a.f {
		addClause(s, cl)
	}
	if r.P(1, 3) {
		if a.guard != 0 {
			s.Assume(z.Dimacs2Lit(-a.guard))
		}
		s.Solve() // with learned clauses
	}
	if r.P(1, 5) && len(a.f) > 0 { // with more clauses after a solve
		cl := rclause(r, n, 3)
		addClause(s, cl)
		a.f = append(a.f, cl)
	}
	if a.guard != 0 { // which is what the guarded clauses amount to
		a.f = append(a.f, []int{-a.guard})
	}
	a.n = n
	a.cap = r.Pick(1, 1, 2, 3, 4, 8)
	if c.W == "wide" {
		a.cap = r.Pick(1, 4, 20, 40)
	}
	if r.P(1, 3) {
		a.x = ax.NewT(s, a.cap)
	} else {
		a.p = newProbe(c, s)
		a.x = ax.NewT(a.p, a.cap)
	}
	c.Logf("cap %d sv %v probe %v clauses %s (+%d chain clauses)", a.cap, sv, a.p != nil, short(a.f), len(a.amp))
	return a
}

// halt stops the ax, once.
func (a *axCase) halt() { a.once.Do(a.x.Stop) }

// client runs f next to the caller; when it fails the case ends.
func (a *axCase) client(f func()) (join func()) {
	return forked(func() {
		ok := false
		defer func() {
			if !ok {
				atomic.StoreInt32(&a.failed, 1)
				a.halt()
			}
		}()
		f()
		ok = true
	})
}

func (a *axCase) job(r *fw.Rand, g *ax.RequestGen) *axJob {
	n := a.n
	var as []int
	for k := r.Pick(0, 1, 1, 2, 3, 6); k > 0; k-- {
		as = append(as, rlit(r, n))
	}
	if a.model != nil && r.Bool() {
		as = nil
		for k := r.Pick(10, 300, n/2, n); k > 0; k-- {
			v := 1 + r.Intn(n)
			if !a.model[v] {
				v = -v
			}
			as = append(as, v)
		}
		if r.P(1, 3) {
			as = append(as, rlit(r, n))
		}
		a.c.Count("wide_requests", 1)
	}
	if a.amp == nil && a.guard == 0 && r.P(1, 20) {
		as = append(as, n+1+r.Intn(5))
	}
	hopeless := false
	if a.guard != 0 {
		hopeless = r.Bool()
		m := -a.guard
		if hopeless {
			m = a.guard
			a.c.Count("hopeless_requests", 1)
		}
		as = append(as, m)
	}
	ms := lits(as)
	g.SetFlag([]ax.ReqFlag{0, ax.ReqModel, ax.ReqWhy, ax.ReqModel | ax.ReqWhy}[r.Intn(4)])
	lim := time.Duration(0)
	if a.c.W == "limits" || r.P(1, 10) {
		lim = time.Duration(r.Pick(0, 1, 50, 100, 500, 2000, 20000)) * time.Microsecond
	}
	if hopeless {
		lim = []time.Duration{1, 10, 1000, 10000, 100000, 900000, 3000000, 30000000, 300000000}[r.Intn(9)]
	}
	g.Limit(lim)
	want := g.Flag()
	q := g.New(ms...)
	if q.Flag != want || q.Limit != lim {
		a.c.Failf("request %v has limit %s and flag %s; asked for %s, %s", q, q.Limit, q.Flag, lim, want)
	}
	for i := range ms { // the request has its own
		ms[i] = z.LitNull
	}
	j := &axJob{req: q, as: as}
	a.mu.Lock()
	for _, o := range a.jobs {
		if o.req == q {
			a.mu.Unlock()
			a.c.Failf("request handed out twice")
		}
	}
	a.jobs[q] = j
	a.mu.Unlock()
	return j
}

// before and after an exchange of j.
func (a *axCase) offered(j *axJob) {
	if j != nil {
		j.t0 = time.Now()
	}
}

// took is the monitor on responses; single tells that this is the only
// client.
func (a *axCase) took(resp *ax.Response, single bool) {
	c := a.c
	now := time.Now()
	a.mu.Lock()
	j := a.jobs[resp.Req]
	if j != nil {
		j.got++
		a.received++
	}
	got, acc, rec := 0, a.accepted, a.received
	if j != nil {
		got = j.got
	}
	a.mu.Unlock()
	if j == nil {
		c.Failf("response to %v, which was not requested", resp.Req)
	}
	if got != 1 {
		c.Failf("%d responses to the request %v", got, resp.Req)
	}
	if resp.Who < 0 || resp.Who >= a.cap {
		c.Failf("response by unit %d with capacity %d", resp.Who, a.cap)
	}
	if ms := ints(resp.Req.Ms); fmt.Sprint(ms) != fmt.Sprint(append([]int{}, j.as...)) {
		c.Failf("the assumptions %v of the request are now %v", j.as, ms)
	}
	if resp.Dur < 0 || resp.Dur > now.Sub(j.t0) {
		c.Failf("took %s, but was requested %s ago", resp.Dur, now.Sub(j.t0))
	}
	if single {
		if resp.Pending != acc-rec {
			c.Failf("%d requests accepted and %d responses, but Pending is %d", acc, rec, resp.Pending)
		}
	} else if resp.Pending < 0 {
		c.Failf("Pending is %d", resp.Pending)
	}
	if (*ax.Response)(nil).HasPending() {
		c.Failf("no response has HasPending")
	}
	if resp.HasPending() != (resp.Pending == 0) {
		c.Failf("HasPending is %v with Pending %d", resp.HasPending(), resp.Pending)
	}
	if resp.Res == 0 {
		if resp.Req.Limit == 0 {
			c.Failf("no result for the request %v, which has no limit", resp.Req)
		}
		if len(resp.Ms) > 0 {
			c.Failf("response without result has literals %v", resp.Ms)
		}
		c.Count("gave_up", 1)
		return
	}
	if resp.Res != 1 && resp.Res != -1 {
		c.Failf("result %d", resp.Res)
	}
	rr := ref.SolveLim(a.f, j.as, 300000)
	if !rr.Unknown && rr.Sat != (resp.Res == 1) {
		c.Failf("answered %d under %v, satisfiable: %v", resp.Res, j.as, rr.Sat)
	}
	ms := ints(resp.Ms)
	if resp.Res == 1 {
		c.Count("sat", 1)
		if !resp.Req.Flag.Model() {
			if len(ms) > 0 {
				c.Failf("literals %v in the response to %v, which did not ask for a model", ms, resp.Req)
			}
			return
		}
		in := map[int]bool{}
		for i, m := range ms {
			if abs(m) != i+1 {
				c.Failf("literal %d of the model is %d", i, m)
			}
			in[m] = true
		}
		need := maxvar(append(append(cnf{j.as}, a.f...), a.amp...))
		if len(ms) < need {
			c.Failf("the model gives %d of %d variables", len(ms), need)
		}
		all := append(append(cnf{}, a.f...), a.amp...)
		for _, l := range j.as {
			all = append(all, []int{l})
		}
		for _, cl := range all {
			ok := false
			for _, l := range cl {
				ok = ok || in[l]
			}
			if !ok {
				c.Failf("the model makes %v false", cl)
			}
		}
		c.Count("models", 1)
		return
	}
	c.Count("unsat", 1)
	if !resp.Req.Flag.Why() {
		if len(ms) > 0 {
			c.Failf("literals %v in the response to %v, which did not ask why", ms, resp.Req)
		}
		return
	}
	mine := map[int]bool{}
	for _, l := range j.as {
		mine[l] = true
	}
	for _, l := range ms {
		if !mine[l] {
			c.Failf("failed assumptions %v, but assumed %v", ms, j.as)
		}
		mine[l] = false
	}
	if rr := ref.SolveLim(a.f, ms, 300000); !rr.Unknown && rr.Sat {
		c.Failf("failed assumptions %v are satisfiable", ms)
	}
	c.Count("whys", 1)
}

// exchange offers j (nil: only waits); true if it was accepted.
func (a *axCase) exchange(r *fw.Rand, j *axJob, single bool) bool {
	a.offered(j)
	var q *ax.Request
	if j != nil {
		q = j.req
	}
	accept := func() {
		a.mu.Lock()
		a.accepted++
		a.mu.Unlock()
	}
	if r.P(1, 3) {
		resp, ok := a.x.TryEx(q)
		for !ok && resp == nil && q != nil && single && r.P(1, 8) {
			// with one client there is nothing else for the exchange to do,
			// so it takes the request in the end, or a response comes
			for n := 0; !ok && resp == nil; n++ {
				time.Sleep(time.Duration(r.Range(1, 50)) * time.Microsecond)
				resp, ok = a.x.TryEx(q)
			}
			a.c.Count("tried_again", 1)
		}
		if !ok {
			if resp != nil {
				a.c.Failf("TryEx gives a response and false")
			}
			runtime.Gosched()
			return false
		}
		if resp == nil {
			if j == nil {
				a.c.Failf("TryEx without request gives true and no response")
			}
			accept()
			return true
		}
		a.took(resp, single)
		return false
	}
	if resp := a.x.Ex(q); resp != nil {
		a.took(resp, single)
		return false
	}
	if j == nil {
		a.c.Failf("Ex without request gives no response")
	}
	accept()
	return true
}

func (a *axCase) stop(base int) {
	a.halt()
	// all ends which was started
	for runtime.NumGoroutine() > base {
		time.Sleep(50 * time.Microsecond)
	}
	a.c.Count("stopped", 1)
}

func (a *axCase) finish() {
	for _, j := range a.jobs {
		if j.sent && j.got != 1 {
			a.c.Failf("%d responses to the request %v", j.got, j.req)
		}
	}
	if a.p != nil {
		if n := int(atomic.LoadInt32(a.p.copies)); n > a.cap-1 {
			a.c.Failf("%d copies were made with capacity %d", n, a.cap)
		}
		if n := int(atomic.LoadInt32(a.p.most)); n > a.cap {
			a.c.Failf("%d solvers ran at a time with capacity %d", n, a.cap)
		} else if n > 1 {
			a.c.Count("ran_in_parallel", 1)
		}
	}
}

func axSerial(c *fw.C) {
	r := c.R
	base := runtime.NumGoroutine()
	a := newAxCase(c)
	g := ax.NewRequestGen()
	defer a.halt()
	n := r.Range(1, 30)
	if c.W == "limits" || c.W == "hopeless" || c.W == "wide" {
		n = r.Range(1, 10)
	}
	ids := map[int]bool{}
	var j *axJob
	sent := 0
	for sent < n || a.received < a.accepted {
		if j == nil && sent < n {
			j = a.job(r, g)
			if ids[j.req.Id] {
				c.Failf("two requests with id %d", j.req.Id)
			}
			ids[j.req.Id] = true
		}
		if a.received < a.accepted && r.P(1, 6) { // only take
			a.exchange(r, nil, true)
			continue
		}
		if j == nil {
			a.exchange(r, nil, true)
			continue
		}
		if a.exchange(r, j, true) {
			j.sent = true
			sent++
			j = nil
		}
	}
	if resp, ok := a.x.TryEx(nil); ok || resp != nil {
		c.Failf("a response is left: %v", resp)
	}
	a.stop(base)
	a.finish()
	c.Obs(a.f.hash())
}

// axMulti has several clients; any may get any response.
func axMulti(c *fw.C) {
	r := c.R
	base := runtime.NumGoroutine()
	a := newAxCase(c)
	g := ax.NewRequestGen()
	nc := r.Range(2, 5)
	per := r.Range(1, 12)
	var joins []func()
	defer func() {
		a.halt()
		for _, j := range joins {
			j()
		}
	}()
	for k := 0; k < nc; k++ {
		cr := r.Fork()
		joins = append(joins, a.client(func() {
			own := ax.NewRequestGen()
			for i := 0; i < per; i++ {
				var j *axJob
				if cr.P(1, 4) { // from a common generator, whose flags others change
					q := g.New(lit(rlit(cr, a.n)))
					j = &axJob{req: q, as: ints(q.Ms)}
					a.mu.Lock()
					a.jobs[q] = j
					a.mu.Unlock()
					g.SetFlag(ax.ReqFlag(cr.Intn(4)))
					g.Limit(0)
				} else {
					j = a.job(cr, own)
				}
				for !a.exchange(cr, j, false) {
				}
				j.sent = true
				if cr.P(1, 5) {
					dally(cr)
				}
			}
		}))
	}
	// all are sent in the end only if somebody takes the responses
	a.takeWhile(nc * per)
	js := joins
	joins = nil
	for _, j := range js {
		j()
	}
	if resp, ok := a.x.TryEx(nil); ok || resp != nil {
		c.Failf("a response is left: %v", resp)
	}
	a.stop(base)
	a.finish()
	c.Obs(a.f.hash())
}

func (a *axCase) takeWhile(n int) {
	for {
		a.mu.Lock()
		rec := a.received
		a.mu.Unlock()
		if rec >= n || atomic.LoadInt32(&a.failed) != 0 {
			return
		}
		if resp, ok := a.x.TryEx(nil); ok {
			if resp == nil {
				a.c.Failf("TryEx without request gives true and no response")
			}
			a.took(resp, false)
			continue
		}
		time.Sleep(20 * time.Microsecond)
	}
}

// axStop stops while there are requests under way and clients waiting.
func axStop(c *fw.C) {
	r := c.R
	base := runtime.NumGoroutine()
	a := newAxCase(c)
	nc := r.Range(1, 4)
	var down int32
	var joins []func()
	for k := 0; k < nc; k++ {
		cr := r.Fork()
		joins = append(joins, a.client(func() {
			own := ax.NewRequestGen()
			for i := 0; i < 40; i++ {
				j := a.job(cr, own)
				if cr.P(1, 3) {
					j = nil
				}
				var q *ax.Request
				if j != nil {
					q = j.req
				}
				a.offered(j)
				resp := a.x.Ex(q)
				if resp != nil {
					a.took(resp, false)
				}
				if atomic.LoadInt32(&down) != 0 {
					return
				}
			}
		}))
	}
	dally(r)
	a.halt()
	atomic.StoreInt32(&down, 1)
	for _, j := range joins {
		j()
	}
	if resp, ok := a.x.TryEx(nil); ok && resp != nil {
		a.took(resp, false)
	}
	for runtime.NumGoroutine() > base {
		time.Sleep(50 * time.Microsecond)
	}
	c.Count("stopped_under_way", 1)
	a.finish()
	c.Obs(a.f.hash() ^ uint64(a.cap))
}

// axRequests makes requests with one generator, or the package's, from several
// goroutines.
func axRequests(c *fw.C) {
	r := c.R
	type gen struct {
		new     func(...z.Lit) *ax.Request
		setFlag func(ax.ReqFlag)
		flag    func() ax.ReqFlag
		limit   func(time.Duration)
	}
	g := gen{ax.NewRequest, ax.SetFlag, ax.Flag, ax.Limit}
	if r.Bool() {
		o := ax.NewRequestGen()
		g = gen{o.New, o.SetFlag, o.Flag, o.Limit}
		if f := g.flag(); f != ax.ReqModel|ax.ReqWhy {
			c.Failf("a new generator has the flag %v", f)
		}
		if q := g.new(); q.Limit != 0 || len(q.Ms) != 0 {
			c.Failf("a new generator makes %v with limit %v", q, q.Limit)
		}
	}
	defer func() { // the package's is used by the next case
		g.setFlag(ax.ReqModel | ax.ReqWhy)
		g.limit(0)
	}()
	var mu sync.Mutex
	ids := map[int]bool{}
	flag, limit := ax.ReqFlag(r.Intn(4)), time.Duration(r.Intn(1000))
	make1 := func(r *fw.Rand, settled bool) {
		var as []int
		for k := r.Intn(5); k > 0; k-- {
			as = append(as, rlit(r, 300))
		}
		ms := lits(as)
		q := g.new(ms...)
		for i := range ms { // they are the caller's
			ms[i] = z.Var(7).Neg()
		}
		if fmt.Sprint(ints(q.Ms)) != fmt.Sprint(as) {
			c.Failf("the request for %v has %v", as, ints(q.Ms))
		}
		if settled && (q.Flag != flag || q.Limit != limit) {
			c.Failf("the request has flag %v and limit %v, set are %v and %v", q.Flag, q.Limit, flag, limit)
		}
		if m, w, t := q.Flag.Model(), q.Flag.Why(), q.Flag.String(); m != (q.Flag&ax.ReqModel != 0) || w != (q.Flag&ax.ReqWhy != 0) ||
			t != map[bool]string{true: "m", false: "-"}[m]+map[bool]string{true: "w", false: "-"}[w] {
			c.Failf("flag %d is %v %v %s", q.Flag, m, w, t)
		}
		_ = q.String()
		mu.Lock()
		defer mu.Unlock()
		if ids[q.Id] {
			c.Failf("two requests have the id %d", q.Id)
		}
		ids[q.Id] = true
	}
	for round := r.Range(1, 4); round > 0; round-- {
		flag, limit = ax.ReqFlag(r.Intn(4)), time.Duration(r.Intn(1000))
		g.setFlag(flag)
		g.limit(limit)
		if g.flag() != flag {
			c.Failf("the flag is %v, set was %v", g.flag(), flag)
		}
		change := r.P(1, 3)
		var joins []func()
		for k := r.Range(1, 4); k > 0; k-- {
			cr := r.Fork()
			joins = append(joins, forked(func() {
				for i := cr.Range(1, 30); i > 0; i-- {
					make1(cr, !change)
					if change && cr.P(1, 5) {
						g.setFlag(ax.ReqFlag(cr.Intn(4)))
						g.limit(time.Duration(cr.Intn(1000)))
						g.flag()
					}
				}
			}))
		}
		var e interface{}
		for _, j := range joins {
			func() {
				defer func() {
					if x := recover(); x != nil {
						e = x
					}
				}()
				j()
			}()
		}
		if e != nil {
			panic(e)
		}
	}
	c.Count("requests", len(ids))
	c.Obs(r.Uint64())
}

func init() {
	fw.Register(&fw.Prop{
		ID:   "C18",
		Race: true,
		Rule: "an ax over a solver (plain, wrapped, fresh or with learned clauses; partly behind a probe which sees each use) and requests with random assumptions, flags and limits from one or several clients, by Ex and TryEx; " +
			"each response is judged with the reference solver and each request must get exactly one; stops at the end or at any time, after which all goroutines end; distinct by clauses",
		Need: []string{"sat", "unsat", "models", "whys", "gave_up", "hopeless_requests", "ran_in_parallel", "stopped_under_way"},
		Workloads: []fw.Workload{
			{Name: "serial", Quick: 1500, Thorough: 60000, Fn: axSerial, Limit: 40 * time.Second},
			{Name: "limits", Quick: 200, Thorough: 8000, Fn: axSerial, Limit: 60 * time.Second},
			{Name: "hopeless", Quick: 48, Thorough: 2000, Fn: axSerial, Limit: 40 * time.Second},
			{Name: "wide", Quick: 60, Thorough: 2000, Fn: axSerial, Limit: 60 * time.Second},
			{Name: "clients", Quick: 700, Thorough: 30000, Fn: axMulti, Limit: 40 * time.Second},
			{Name: "stop", Quick: 800, Thorough: 30000, Fn: axStop, Limit: 40 * time.Second},
			{Name: "requests", Quick: 500, Thorough: 20000, Fn: axRequests, Limit: 40 * time.Second},
		},
	})
}
