package main

import (
	"crypto/sha256"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/go-air/gini/bench"
	"verif/harness/fw"
)

// the solver of benchmark runs: does what the instance says. The instance's
// first line is "EXIT KIND", its second goes to the error output, the rest to
// the output.
const benchSolver = `read code kind < "$1"
sed -n 2p "$1" >&2
sed -n '3,$p' "$1"
case $kind in
sleep) exec sleep 1000 ;;
kill) kill -9 $$ ;;
args) printf '%s\n' "$#" ;;
esac
exit $code
`

type bInst struct {
	path       string
	code       int
	kind       string
	errs, outs string
	data       string
}

// benchTree makes files to select from, in the current directory.
func benchTree(c *fw.C, many bool) (map[string]*bInst, []string) {
	r := c.R
	fs := map[string]*bInst{}
	var dirs []string
	for i := r.Range(1, 3); i > 0; i-- {
		d := fmt.Sprintf([]string{"tree%d.d", "tree%d.d", "tree %d .d "}[r.Intn(3)], i)
		dirs = append(dirs, d)
		nf := r.Range(0, 5)
		if many {
			nf = r.Range(0, 150)
		}
		for j := nf; j >= 0; j-- {
			sub := d
			if r.P(1, 3) {
				sub = filepath.Join(d, fmt.Sprintf("s.%d", r.Intn(3)))
			}
			os.MkdirAll(sub, 0755)
			ext := []string{".cnf", ".cnf", ".icnf", ".inccnf", ".txt", "", ".cnf.x", ".a.cnf", ".cnf ", " .cnf", ".cnf.gz", ".icnf.1.gz", ".2.inccnf.bz2"}[r.Intn(13)]
			b := &bInst{path: filepath.Join(sub, fmt.Sprintf("f%d%s", j, ext))}
			b.code = r.Pick(10, 10, 20, 20, 0, 1, 30)
			b.kind = []string{"exit", "exit", "exit", "exit", "exit", "kill", "sleep"}[r.Intn(7)]
			b.errs = fmt.Sprintf("e%d\n", r.Intn(1000))
			for k := r.Intn(4); k > 0; k-- {
				b.outs += fmt.Sprintf("c out %d\n", r.Intn(1000))
			}
			if !many && r.P(1, 12) {
				b.outs = strings.Repeat("v 1 2 3 0123456789\n", 30000)
			}
			b.data = fmt.Sprintf("%d %s\n%s%s", b.code, b.kind, b.errs, b.outs)
			if e := ioutil.WriteFile(b.path, []byte(b.data), 0644); e != nil {
				panic(e)
			}
			fs[b.path] = b
		}
	}
	return fs, dirs
}

// sameSuite: s has the instances files, in that order.
func sameSuite(c *fw.C, what string, s *bench.Suite, root string, files []string, fs map[string]*bInst) {
	if s.Root != root || s.Len() != len(files) || len(s.Insts) != len(files) {
		c.Failf("%s: suite at %s has %d instances %v, made at %s from %v", what, s.Root, s.Len(), s.Insts, root, files)
	}
	if fmt.Sprintf("%q", s.Map) != fmt.Sprintf("%q", files) {
		c.Failf("%s: map is %q, made from %q", what, s.Map, files)
	}
	if len(s.Hashes) != len(files) {
		c.Failf("%s: %d hashes %q of %d instances", what, len(s.Hashes), s.Hashes, len(files))
	}
	seen := map[string]bool{}
	for i, f := range files {
		if seen[s.Insts[i]] || filepath.Base(s.Insts[i]) != s.Insts[i] {
			c.Failf("%s: instance %d is called %q: %v", what, i, s.Insts[i], s.Insts)
		}
		seen[s.Insts[i]] = true
		// the kinds of file it is told to be by are kept
		kinds := ""
		for _, x := range strings.Split(filepath.Base(f), ".")[1:] {
			switch x {
			case "cnf", "icnf", "inccnf", "bz2", "gz":
				kinds += "." + x
			}
		}
		if !strings.HasSuffix(s.Insts[i], kinds) {
			c.Failf("%s: instance %d, of %s, is called %q", what, i, f, s.Insts[i])
		}
		b, e := ioutil.ReadFile(filepath.Join(root, s.Insts[i]))
		if e != nil {
			c.Failf("%s: instance %d: %v", what, i, e)
		}
		if string(b) != fs[f].data {
			c.Failf("%s: instance %d (%s) does not hold what %s holds", what, i, s.Insts[i], f)
		}
		if h := fmt.Sprintf("%x", sha256.Sum256(b)); h != s.Hashes[i] {
			c.Failf("%s: hash of instance %d is %q, must be %q", what, i, s.Hashes[i], h)
		}
	}
	c.Count("instances", len(files))
}

func benchDir(c *fw.C) func() {
	log.SetOutput(ioutil.Discard)
	old, e := os.Getwd()
	if e != nil {
		panic(e)
	}
	d, e := os.MkdirTemp(c.Tmp, "bench")
	if e != nil {
		panic(e)
	}
	if e := os.Chdir(d); e != nil {
		panic(e)
	}
	return func() {
		os.Chdir(old)
		os.RemoveAll(d)
	}
}

func benchMake(c *fw.C, many bool) (root string, s *bench.Suite, files []string, fs map[string]*bInst) {
	r := c.R
	fs, dirs := benchTree(c, many)
	pat, match := "", func(string) bool { return true }
	switch r.Intn(4) {
	case 0:
		pat, match = "*.cnf", func(f string) bool { return strings.HasSuffix(f, ".cnf") }
	case 1:
		pat, match = "f[01]*", func(f string) bool { b := filepath.Base(f); return b[1] == '0' || b[1] == '1' }
	}
	all := map[string]bool{}
	for f := range fs {
		if match(f) {
			all[f] = true
		}
	}
	n := r.Range(0, len(all)+2)
	if pat == "" && r.Bool() {
		files = bench.Select(n, dirs...)
	} else {
		files = bench.MatchSelect(pat, n, dirs...)
	}
	want := n
	if want > len(all) {
		want = len(all)
	}
	seen := map[string]bool{}
	for _, f := range files {
		if !all[f] || seen[f] {
			c.Failf("selecting %d of %q from %v gives %v", n, pat, dirs, files)
		}
		seen[f] = true
	}
	if len(files) != want {
		c.Failf("selecting %d of %q from %v, which have %d, gives %d", n, pat, dirs, len(all), len(files))
	}
	root = []string{"suite", "deep/er/suite.d"}[r.Intn(2)]
	if r.Bool() {
		a, _ := filepath.Abs(root)
		root = a
	}
	if r.P(1, 3) {
		for i, f := range files {
			a, _ := filepath.Abs(f)
			fs[a] = fs[f]
			files[i] = a
		}
	}
	in := append([]string{}, files...)
	var e error
	if r.P(1, 3) {
		s, e = bench.LinkSuite(root, in)
		c.Count("linked", 1)
	} else {
		s, e = bench.CreateSuite(root, in)
	}
	if e != nil {
		c.Failf("creating a suite of %v at %s: %v", files, root, e)
	}
	sameSuite(c, "created", s, root, files, fs)
	return
}

// benchFds watches the files left open, none of which the garbage collector
// may close meanwhile: with thousands of instances it would come too late.
func benchFds(c *fw.C) (settled func(), done func()) {
	old := debug.SetGCPercent(-1)
	n := fdsNow()
	return func() {
			m := fdsNow()
			for i := 0; i < 100 && m > n; i++ {
				time.Sleep(time.Duration(i) * time.Millisecond)
				m = fdsNow()
			}
			if m > n {
				c.Failf("%d files are left open", m-n)
			}
			c.Count("closed", 1)
		}, func() {
			debug.SetGCPercent(old)
		}
}

func benchSuite(c *fw.C) {
	defer benchDir(c)()
	settled, done := benchFds(c)
	defer done()
	r := c.R
	root, _, files, fs := benchMake(c, r.P(1, 6))
	if !bench.IsSuiteDir(root) || bench.IsSuiteDir(filepath.Join(root, "runs")) {
		c.Failf("IsSuiteDir does not tell")
	}
	t, e := bench.OpenSuite(root)
	if e != nil {
		c.Failf("opening the suite: %v", e)
	}
	sameSuite(c, "opened", t, root, files, fs)
	if len(t.Runs) != 0 {
		c.Failf("new suite has %d runs", len(t.Runs))
	}
	if _, e := bench.CreateSuite(root, files); e == nil {
		c.Failf("a suite is created over another")
	}
	if _, e := bench.OpenSuite(root + "x"); e == nil {
		c.Failf("a suite which is not there is opened")
	}
	if r.Bool() {
		bad := append(append([]string{}, files...), "nosuchfile.cnf")
		if _, e := bench.CreateSuite("other", bad); e == nil {
			c.Failf("a suite is created of files which are not there")
		}
	}
	settled()
	c.Obs(r.Uint64())
}

func benchRun(c *fw.C) {
	defer benchDir(c)()
	settled, done := benchFds(c)
	defer done()
	r := c.R
	root, s, files, fs := benchMake(c, false)
	if r.Bool() {
		var e error
		if s, e = bench.OpenSuite(root); e != nil {
			c.Failf("opening the suite: %v", e)
		}
	}
	wd, _ := os.Getwd()
	if e := ioutil.WriteFile("solver.sh", []byte(benchSolver), 0644); e != nil {
		panic(e)
	}
	cmd := "sh " + filepath.Join(wd, "solver.sh")
	none := r.P(1, 12) // no such command
	if none {
		cmd = filepath.Join(wd, "nosuchsolver") + " -x"
	}
	os.Setenv("VH_BENCH_A", "a=b=c")
	os.Setenv("VH_BENCH_B", "")
	os.Setenv("VH_BENCH_C", fmt.Sprint(r.Intn(1000)))
	env := map[string]string{}
	for _, kv := range os.Environ() {
		i := strings.Index(kv, "=")
		env[kv[:i]] = kv[i+1:]
	}
	type memo struct {
		run  *bench.Run
		irs  []*bench.InstRun
		skip map[int]bool
	}
	runs := map[string]*memo{}
	var names []string
	pool := []string{"r", "r.1", "r.10", "s", "", "r_2"}
	pool[4] = fmt.Sprint(r.Intn(1000))
	rp := r.Perm(len(pool))
	for k := r.Range(1, 3); k > 0; k-- {
		name := pool[rp[k]]
		ito := 120 * time.Millisecond
		hasSleep := false
		for _, f := range files {
			hasSleep = hasSleep || fs[f].kind == "sleep"
		}
		if !hasSleep {
			ito = 100 * time.Second
		}
		gto := 1000 * time.Second
		short := hasSleep && r.P(1, 3) // the time of the whole run
		if short {
			ito, gto = gto, ito
		}
		run, e := s.Run(name, cmd, ito, gto)
		if e != nil {
			c.Failf("Run: %v", e)
		}
		if run.Name != name || run.Cmd != cmd || run.InstTimeout != ito || run.Timeout != gto || run.Len() != len(files) || run.Suite != s {
			c.Failf("run made with %q %q %s %s is %q %q %s %s of %d instances", name, cmd, ito, gto, run.Name, run.Cmd, run.InstTimeout, run.Timeout, run.Len())
		}
		if r.Bool() {
			desc, commit := "", fmt.Sprintf("%08x", r.Intn(1<<20))
			for k := r.Intn(3); k > 0; k-- {
				desc += fmt.Sprintf(" line %d \n", r.Intn(100))
			}
			if e := run.Describe(desc, commit); e != nil {
				c.Failf("Describe: %v", e)
			}
			if run.Desc != desc || run.Commit != commit {
				c.Failf("described as %q %q, is %q %q", desc, commit, run.Desc, run.Commit)
			}
			c.Count("described", 1)
		}
		m := &memo{run: run, irs: make([]*bench.InstRun, len(files)), skip: map[int]bool{}}
		runs[name] = m
		names = append(names, name)
		for _, i := range r.Perm(len(files)) {
			if r.P(1, 12) {
				m.skip[i] = true
				continue
			}
			b := fs[files[i]]
			ir, e := run.Do(i)
			if e != nil {
				c.Failf("Do(%d): %v", i, e)
			}
			if x, _ := os.Getwd(); x != wd {
				c.Failf("Do(%d) leaves the process in %s", i, x)
			}
			m.irs[i] = ir
			c.Count("do", 1)
			if r.P(1, 12) { // what was found stays
				if _, e := run.Do(i); e == nil {
					c.Failf("instance %d is run over its results", i)
				}
				if x, _ := os.Getwd(); x != wd {
					c.Failf("Do(%d) which fails leaves the process in %s", i, x)
				}
				c.Count("done_again", 1)
			}
			want := 0
			if none {
				if ir.Result != 0 || ir.Error == "" || ir.Inst != i || ir.Run != run {
					c.Failf("instance %d, for a command which is not there: result %d, error %q", i, ir.Result, ir.Error)
				}
				c.Count("not_started", 1)
				continue
			}
			if b.kind == "exit" {
				want = map[int]int{10: 1, 20: -1}[b.code]
			}
			// a run which is to end may be caught by the time limit when
			// the machine is slow
			late := ito < time.Second && ir.Dur >= ito
			if short { // any may find the time up
				late = time.Since(run.Start) >= gto
				if late {
					c.Count("run_timeouts", 1)
				}
			}
			if ir.Result != want && !(ir.Result == 0 && late) {
				c.Failf("instance %d (%s %d): result %d, must be %d", i, b.kind, b.code, ir.Result, want)
			}
			if b.kind == "sleep" {
				c.Count("timeouts", 1)
				if !short && ir.Dur < ito || short && !late {
					c.Failf("instance %d ended after %s, its time is %s", i, ir.Dur, ito)
				}
			}
			if ir.Inst != i || ir.Run != run {
				c.Failf("instance run of %d says it is of %d", i, ir.Inst)
			}
			if ir.Dur <= 0 || ir.UDur < 0 || ir.SDur < 0 {
				c.Failf("instance %d took %s, %s, %s", i, ir.Dur, ir.UDur, ir.SDur)
			}
			if (b.kind != "exit" || b.code != 0) && ir.Error == "" {
				c.Failf("instance %d (%s %d): no error", i, b.kind, b.code)
			}
			if b.kind == "exit" && b.code == 0 && ir.Error != "" && !late {
				c.Failf("instance %d: error %q", i, ir.Error)
			}
			if !late {
				d := filepath.Join(run.Root, fmt.Sprintf("inst-%d.run", i))
				for _, x := range []struct{ f, want string }{{"out", b.outs}, {"err", b.errs}} {
					got, e := ioutil.ReadFile(filepath.Join(d, x.f))
					if e != nil || string(got) != x.want {
						c.Failf("instance %d: %s is %d bytes (%v), must be %d", i, x.f, len(got), e, len(x.want))
					}
				}
			}
		}
		if !bench.IsRunDir(run.Root) || bench.IsRunDir(root) {
			c.Failf("IsRunDir does not tell")
		}
	}
	os.Unsetenv("VH_BENCH_A")
	os.Unsetenv("VH_BENCH_B")
	os.Setenv("VH_BENCH_C", "later")
	if r.P(1, 2) {
		// a directory which is no run is passed over
		os.Mkdir(filepath.Join(root, "runs", "zzz"), 0755)
	}
	t, e := bench.OpenSuite(root)
	if e != nil {
		c.Failf("opening the suite: %v", e)
	}
	sameSuite(c, "opened with runs", t, root, files, fs)
	check := func(t *bench.Suite, names []string) {
		sort.Strings(names)
		if len(t.Runs) != len(names) {
			c.Failf("suite has %d runs, must have %v", len(t.Runs), names)
		}
		got := map[string]*bench.Run{}
		for _, x := range t.Runs {
			got[x.Name] = x
		}
		for _, nm := range names {
			m, o := runs[nm], got[nm]
			if o == nil {
				c.Failf("run %s is not in the suite", nm)
			}
			a := m.run
			if o.Cmd != a.Cmd || o.Arch != a.Arch || o.Os != a.Os || o.NumCPU != a.NumCPU || o.Commit != a.Commit || o.Desc != a.Desc || o.Timeout != a.Timeout || o.InstTimeout != a.InstTimeout || !o.Start.Equal(a.Start) || o.Suite != t || o.Len() != len(files) {
				c.Failf("run %s was %+v, is opened as %+v", nm, *a, *o)
			}
			for k, v := range env {
				if !strings.Contains(v, "\n") && o.Env[k] != v {
					c.Failf("run %s: environment had %s=%q, is opened with %q", nm, k, v, o.Env[k])
				}
			}
			if len(o.InstRuns) != len(files) {
				c.Failf("run %s has %d results for %d instances", nm, len(o.InstRuns), len(files))
			}
			sat, unsat, unk := 0, 0, 0
			var re, us, sy float64
			for i, ir := range o.InstRuns {
				if ir.Inst != i || ir.Run == nil {
					c.Failf("run %s: result %d is of instance %d", nm, i, ir.Inst)
				}
				x := m.irs[i]
				if x == nil {
					if ir.Result != 0 || ir.Dur != 0 {
						c.Failf("run %s: instance %d was not run, has result %d after %s", nm, i, ir.Result, ir.Dur)
					}
					unk++
					continue
				}
				if ir.Result != x.Result || ir.Dur != x.Dur || ir.UDur != x.UDur || ir.SDur != x.SDur || ir.Error != x.Error {
					c.Failf("run %s: instance %d had %d %s %s %s %q, is opened with %d %s %s %s %q", nm, i, x.Result, x.Dur, x.UDur, x.SDur, x.Error, ir.Result, ir.Dur, ir.UDur, ir.SDur, ir.Error)
				}
				switch x.Result {
				case 1:
					sat++
				case -1:
					unsat++
				default:
					unk++
				}
				re += x.Dur.Seconds()
				us += x.UDur.Seconds()
				sy += x.SDur.Seconds()
			}
			if bench.SatTotal(o) != sat || bench.UnsatTotal(o) != unsat || bench.UnknownTotal(o) != unk || bench.SolveTotal(o) != sat+unsat {
				c.Failf("run %s: totals are wrong", nm)
			}
			a1, a2, a3 := bench.Times(o)
			eq := func(x, y float64) bool { return math.Abs(x-y) <= 1e-6*(1+math.Abs(y)) }
			if !eq(a1, re) || !eq(a2, us) || !eq(a3, sy) {
				c.Failf("run %s: times are %f %f %f, must be %f %f %f", nm, a1, a2, a3, re, us, sy)
			}
			if len(files) > 0 && !eq(bench.SolvePortion(o), float64(sat+unsat)/float64(len(files))) {
				c.Failf("run %s: portion solved is %f", nm, bench.SolvePortion(o))
			}
			if re > 0 && us > 0 && sy > 0 {
				b1, b2, b3 := bench.SolveRate(o, time.Second)
				n := float64(sat + unsat)
				if !eq(b1, n/re) || !eq(b2, n/us) || !eq(b3, n/sy) {
					c.Failf("run %s: rates are %f %f %f, must be %f %f %f", nm, b1, b2, b3, n/re, n/us, n/sy)
				}
			}
			// the summary tells the same
			sum := bench.Summary(t)
			ok := false
			for _, l := range strings.Split(sum, "\n") {
				fl := strings.Fields(strings.ReplaceAll(l, "|", " "))
				if len(fl) >= 5 && fl[0] == nm {
					ok = fl[1] == strconv.Itoa(sat+unsat) && fl[2] == strconv.Itoa(sat) && fl[3] == strconv.Itoa(unsat) && fl[4] == strconv.Itoa(unk) &&
						len(fl) >= 10 && fl[5] == fmt.Sprintf("%.2f", a1) && fl[7] == fmt.Sprintf("%.2f", a2) && fl[9] == fmt.Sprintf("%.2f", a3)
				}
			}
			if !ok {
				c.Failf("summary does not tell of run %s: %d sat, %d unsat, %d unknown:\n%s", nm, sat, unsat, unk, sum)
			}
			c.Count("reopened", 1)
		}
		if len(files) > 0 {
			// the listing has the results in their places
			ls := strings.Split(bench.Listing(t, func(*bench.Run) bool { return true }), "\n")
			for i := range files {
				cols := strings.Split(ls[i+1], "|")
				if id, nm := strings.TrimSpace(cols[0]), strings.TrimSpace(cols[1]); id != strconv.Itoa(i) || nm == "" || !strings.HasSuffix(strings.TrimSpace(files[i]), nm) {
					c.Failf("listing of instance %d, %s, is %q", i, files[i], ls[i+1])
				}
				for k, o := range t.Runs {
					w := map[int]string{1: "s", -1: "u", 0: "?"}[o.InstRuns[i].Result]
					if len(cols) < k+3 || fmt.Sprint(strings.Fields(cols[k+2])) != fmt.Sprintf("[%s %.2f]", w, float64(o.InstRuns[i].Dur)/float64(time.Second)) {
						c.Failf("listing of instance %d, run %s: %q, must be %s", i, o.Name, ls[i+1], w)
					}
				}
			}
			c.Count("listings", 1)
		}
		// selecting leaves the suite alone
		if len(t.Runs) > 1 {
			keep := t.Runs[len(t.Runs)-1].Name
			before := fmt.Sprint(t.Runs)
			u := t.RunSelect(func(r *bench.Run) bool { return r.Name == keep })
			if len(u.Runs) != 1 || u.Runs[0].Name != keep || u.Runs[0].Suite != u || fmt.Sprint(u.Insts) != fmt.Sprint(t.Insts) {
				c.Failf("selecting run %s gives %v", keep, u.Runs)
			}
			if fmt.Sprint(t.Runs) != before {
				c.Failf("selecting runs changes the suite")
			}
			for _, x := range t.Runs {
				if x.Suite != t {
					c.Failf("selecting runs changes run %s", x.Name)
				}
			}
			ra, rb := t.Runs[r.Intn(len(t.Runs))], t.Runs[r.Intn(len(t.Runs))]
			if len(files) > 0 && len(runs[ra.Name].skip)+len(runs[rb.Name].skip) == 0 {
				sc := bench.NewScatter(ra, rb, nil)
				if len(sc.Xs) != len(files) || len(sc.Ys) != len(files) {
					c.Failf("scatter has %d, %d points for %d instances", len(sc.Xs), len(sc.Ys), len(files))
				}
				for i := range files {
					if sc.Xs[i] != ra.InstRuns[i].Dur || sc.Ys[i] != rb.InstRuns[i].Dur {
						c.Failf("scatter point %d is %s, %s", i, sc.Xs[i], sc.Ys[i])
					}
				}
				n := r.Range(2, 40)
				scatterPicture(c, sc, n, sc.Utf8(n))
				c.Count("scatters", 1)
			}
		}
		if len(t.Runs) == 0 || r.P(1, 4) { // of no runs
			ca := bench.NewCactus(t, func(*bench.Run) bool { return false }, nil)
			if len(ca.D) != 0 || len(ca.Runs) != 0 || ca.MaxDur != 0 {
				c.Failf("cactus of no runs has %d", len(ca.D))
			}
			n := r.Range(2, 40)
			cactusPicture(c, ca, n, ca.Utf8(n))
		}
		if len(files) > 0 && len(t.Runs) > 0 {
			sel := func(_ *bench.Suite, i int) bool { return i%2 == 0 }
			if r.Bool() {
				sel = nil
			}
			ca := bench.NewCactus(t, nil, sel)
			mx := time.Duration(0)
			if len(ca.D) != len(t.Runs) {
				c.Failf("cactus has %d runs", len(ca.D))
			}
			for k, d := range ca.D {
				seen := map[int]bool{}
				for j, i := range d {
					if seen[i] || sel != nil && i%2 != 0 {
						c.Failf("cactus of run %d: %v", k, d)
					}
					seen[i] = true
					x := ca.Runs[k].InstRuns[i].Dur
					if x > mx {
						mx = x
					}
					if j > 0 && x < ca.Runs[k].InstRuns[d[j-1]].Dur {
						c.Failf("cactus of run %d is not sorted", k)
					}
				}
				if n := len(files); sel != nil && len(d) != (n+1)/2 || sel == nil && len(d) != n {
					c.Failf("cactus of run %d has %d of %d instances", k, len(d), n)
				}
			}
			if mx != ca.MaxDur {
				c.Failf("cactus: longest is %s, must be %s", ca.MaxDur, mx)
			}
			n := r.Range(2, 40)
			cactusPicture(c, ca, n, ca.Utf8(n))
			c.Count("cactus", 1)
		}
	}
	check(t, names)
	// removing one run
	x := r.Intn(len(names))
	gone := names[x]
	if e := t.RemoveRun(gone); e != nil {
		c.Failf("RemoveRun: %v", e)
	}
	var rest []string
	for _, n := range names {
		if n != gone {
			rest = append(rest, n)
		}
	}
	check(t, rest)
	t, e = bench.OpenSuite(root)
	if e != nil {
		c.Failf("opening the suite: %v", e)
	}
	sameSuite(c, "opened after removing a run", t, root, files, fs)
	check(t, rest)
	settled()
	c.Obs(r.Uint64())
}

// benchLate: when the time of a run is up, what is left of it is stopped at
// once.
func benchLate(c *fw.C) {
	defer benchDir(c)()
	n := 5
	var files []string
	for i := 0; i < n; i++ {
		f := fmt.Sprintf("f%d.cnf", i)
		if e := ioutil.WriteFile(f, []byte("0 sleep\n"), 0644); e != nil {
			panic(e)
		}
		files = append(files, f)
	}
	if e := ioutil.WriteFile("solver.sh", []byte(benchSolver), 0644); e != nil {
		panic(e)
	}
	wd, _ := os.Getwd()
	s, e := bench.CreateSuite("suite", files)
	if e != nil {
		c.Failf("creating a suite: %v", e)
	}
	gto := 4 * time.Second
	run, e := s.Run("r", "sh "+filepath.Join(wd, "solver.sh"), 1000*time.Second, gto)
	if e != nil {
		c.Failf("Run: %v", e)
	}
	var ds []time.Duration
	for i := 0; i < n; i++ {
		ir, e := run.Do(i)
		if e != nil {
			c.Failf("Do(%d): %v", i, e)
		}
		if ir.Result != 0 || ir.Error == "" {
			c.Failf("instance %d, out of time, has result %d, error %q", i, ir.Result, ir.Error)
		}
		if time.Since(run.Start) < gto {
			c.Failf("instance %d is stopped after %s of the run, which has %s", i, time.Since(run.Start), gto)
		}
		if i > 0 {
			ds = append(ds, ir.Dur)
			c.Count("late_instances", 1)
			if ir.Dur < gto/2 {
				return
			}
		}
	}
	c.Failf("the time of the run, %s, is up: its instances go on for %v", gto, ds)
}

// cell is the place of d on an axis of n places up to max.
func cell(d, max time.Duration, n int) int {
	if max == 0 {
		return 0
	}
	return int(float64(d) / float64(max) * float64(n-1))
}

// picture splits the first n lines of a picture into their characters.
func picture(c *fw.C, what, txt string, n, skip int) [][]rune {
	ls := strings.Split(txt, "\n")
	if len(ls) < n {
		c.Failf("%s of size %d has %d lines:\n%s", what, n, len(ls), txt)
	}
	var g [][]rune
	for _, l := range ls[:n] {
		if skip != 0 {
			i := strings.Index(l, "|")
			if i < 0 {
				c.Failf("%s: line without axis:\n%s", what, txt)
			}
			l = l[i+1:]
		}
		g = append(g, []rune(l+strings.Repeat(" ", 2*n)))
	}
	return g
}

func scatterPicture(c *fw.C, sc *bench.Scatter, n int, txt string) {
	g := picture(c, "scatter", txt, n, 0)
	max := time.Duration(0)
	for i := range sc.Xs {
		if sc.Xs[i] > max {
			max = sc.Xs[i]
		}
		if sc.Ys[i] > max {
			max = sc.Ys[i]
		}
	}
	pts := map[[2]int]bool{}
	for i := range sc.Xs {
		x, y := cell(sc.Xs[i], max, n), cell(sc.Ys[i], max, n)
		pts[[2]int{x, y}] = true
		ch := g[n-1-y][2*x]
		if x < y && ch != '★' || x > y && ch != '☆' || x == y && ch != '★' && ch != '☆' {
			c.Failf("scatter of size %d: point %d (%s, %s) is %q at %d, %d:\n%s", n, i, sc.Xs[i], sc.Ys[i], ch, x, y, txt)
		}
	}
	k := 0
	for _, l := range g {
		for _, ch := range l {
			if ch == '★' || ch == '☆' {
				k++
			}
		}
	}
	if k != len(pts) {
		c.Failf("scatter of size %d has %d points, must have %d:\n%s", n, k, len(pts), txt)
	}
	rest := strings.Join(strings.Split(txt, "\n")[n:], "\n")
	if !strings.Contains(rest, "★ - "+sc.Runs[0].Name+" wins") || !strings.Contains(rest, "☆ - "+sc.Runs[1].Name+" wins") {
		c.Failf("scatter has no legend:\n%s", txt)
	}
}

func cactusPicture(c *fw.C, ca *bench.Cactus, n int, txt string) {
	g := picture(c, "cactus", txt, n, 1)
	ticks := map[string]rune{}
	for _, l := range strings.Split(txt, "\n") {
		if f := strings.Fields(l); len(f) == 3 && f[1] == "-" && len([]rune(f[0])) == 1 {
			ticks[f[2]] = []rune(f[0])[0]
		}
	}
	at := map[[2]int]map[rune]bool{}
	for k, d := range ca.D {
		t, ok := ticks[ca.Runs[k].Name]
		if !ok {
			c.Failf("cactus has no legend for %s:\n%s", ca.Runs[k].Name, txt)
		}
		for j, i := range d {
			x := int(float64(j) / float64(len(d)) * float64(n-1))
			y := cell(ca.Runs[k].InstRuns[i].Dur, ca.MaxDur, n)
			p := [2]int{x, y}
			if at[p] == nil {
				at[p] = map[rune]bool{}
			}
			at[p][t] = true
		}
	}
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			ch := g[n-1-y][2*x]
			m := at[[2]int{x, y}]
			if m == nil && ch != ' ' || m != nil && !m[ch] {
				c.Failf("cactus of size %d has %q at %d, %d, must be of %v:\n%s", n, ch, x, y, m, txt)
			}
		}
	}
}

func init() {
	fw.Register(&fw.Prop{ID: "C24",
		Rule: "random trees of files are selected from and made into suites, which are run with a scripted solver; suites, results, outputs, totals, listings and plots are compared with what was made and observed, before and after opening again; every case is in its own scratch directory",
		Workloads: []fw.Workload{
			{Name: "suite", Quick: 800, Thorough: 8000, Fn: benchSuite},
			{Name: "run", Quick: 300, Thorough: 4000, Fn: benchRun},
			{Name: "late", Quick: 4, Thorough: 40, Fn: benchLate},
		},
		Need: []string{"instances", "linked", "do", "timeouts", "not_started", "late_instances", "done_again", "closed", "run_timeouts", "reopened", "listings", "scatters", "cactus"},
	})
}
