package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/go-air/gini/bench"
	"verif/harness/fw"
	"verif/harness/ref"
)

// the command line tools, run as users run them

func cliBin(name string) string {
	d := os.Getenv("VERIF_BIN")
	if d == "" {
		panic("VERIF_BIN is not set")
	}
	return filepath.Join(d, name)
}

type ran struct {
	out, err string
	code     int // -1 if it was killed
}

// cli runs a command in dir.
func cli(c *fw.C, dir, name, stdin string, args ...string) *ran {
	c.Logf("$ %s %s", name, strings.Join(args, " "))
	cmd := exec.Command(cliBin(name), args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err := cmd.Run()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			panic(err)
		}
	}
	c.Count("commands", 1)
	r := &ran{o.String(), e.String(), cmd.ProcessState.ExitCode()}
	if strings.Contains(r.err, "panic: ") || strings.Contains(r.err, "fatal error: ") {
		c.Failf("%s %v panics: %s", name, args, tail(r.err))
	}
	return r
}

func tail(s string) string {
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func cliDir(c *fw.C) (string, func()) {
	d, e := os.MkdirTemp(c.Tmp, "cli")
	if e != nil {
		panic(e)
	}
	return d, func() { os.RemoveAll(d) }
}

// block is what is printed for one problem.
type block struct {
	res    int
	vals   []int
	failed []int
	hasV   bool
	hasF   bool
}

// parseOut reads what gini prints: status lines, each with the lines for
// values or failed assumptions which belong to it.
func parseOut(c *fw.C, out string) []*block {
	var bs []*block
	ended := true
	for _, l := range strings.Split(out, "\n") {
		fs := strings.Fields(l)
		if len(fs) == 0 || fs[0] == "c" {
			continue
		}
		if fs[0] == "s" {
			if !ended {
				c.Failf("values do not end with 0: %q", tail(out))
			}
			res, ok := map[string]int{"s SATISFIABLE": 1, "s UNSATISFIABLE": -1, "s UNKNOWN": 0}[l]
			if !ok {
				c.Failf("status line %q", l)
			}
			bs = append(bs, &block{res: res})
			continue
		}
		if len(bs) == 0 || (fs[0] != "v" && fs[0] != "f") {
			c.Failf("output has line %q", l)
		}
		b := bs[len(bs)-1]
		if fs[0] == "v" {
			if !b.hasV {
				ended = false
			}
			b.hasV = true
		} else {
			b.hasF = true
		}
		for _, f := range fs[1:] {
			x, e := strconv.Atoi(f)
			if e != nil {
				c.Failf("output has line %q", l)
			}
			if fs[0] == "f" {
				b.failed = append(b.failed, x)
				continue
			}
			if ended {
				c.Failf("values go on after 0: %q", l)
			}
			if x == 0 {
				ended = true
				continue
			}
			b.vals = append(b.vals, x)
		}
	}
	if !ended {
		c.Failf("values do not end with 0: %q", tail(out))
	}
	return bs
}

// judgeBlock checks one answer to f under as.
func judgeBlock(c *fw.C, b *block, f cnf, as []int, model, failed, mayFail bool) {
	if b.res == 0 {
		if !mayFail {
			c.Failf("no answer to %s under %v", short(f), as)
		}
		c.Count("unknown", 1)
	} else {
		want := -1
		if ref.Solve(f, as).Sat {
			want = 1
		}
		if b.res != want {
			c.Failf("answer %d to %s under %v must be %d", b.res, short(f), as, want)
		}
		c.Count(map[int]string{1: "sat", -1: "unsat"}[want], 1)
	}
	if b.hasV != (model && b.res == 1) {
		c.Failf("values printed: %v, with answer %d and -model=%v", b.hasV, b.res, model)
	}
	if b.hasF != (failed && b.res == -1) {
		c.Failf("failed assumptions printed: %v, with answer %d and -failed=%v", b.hasF, b.res, failed)
	}
	if b.hasV {
		m := make([]bool, maxvar(append(f[:len(f):len(f)], as))+1)
		seen := map[int]bool{}
		for _, v := range b.vals {
			if seen[abs(v)] {
				c.Failf("variable %d has two values", abs(v))
			}
			seen[abs(v)] = true
			if abs(v) < len(m) {
				m[abs(v)] = v > 0
			}
		}
		for v := 1; v < len(m); v++ {
			if !seen[v] {
				c.Failf("variable %d of %s under %v has no value in %v", v, short(f), as, b.vals)
			}
		}
		if !ref.Eval(f, m) || !ref.EvalUnits(as, m) {
			c.Failf("values %v are not a model of %s under %v", b.vals, short(f), as)
		}
		c.Count("models", 1)
	}
	if b.hasF {
		in := map[int]bool{}
		for _, a := range as {
			in[a] = true
		}
		for _, x := range b.failed {
			if !in[x] {
				c.Failf("failed %v of assumptions %v: %d is not assumed or twice", b.failed, as, x)
			}
			in[x] = false
		}
		if ref.Solve(f, b.failed).Sat {
			c.Failf("failed %v do not make %s unsatisfiable", b.failed, short(f))
		}
		c.Count("cores", 1)
	}
}

// cliCnf makes a problem and its text.
func cliCnf(r *fw.Rand) (f cnf, txt string) {
	k := r.Intn(6)
	if r.P(1, 40) {
		k = 6
	}
	switch k {
	case 0:
		f, _ = smallCnf(r)
	case 6: // big and easy
		f, _, _ = wideClauses(r, r.Pick(3000, 20000, 60000))
	case 1:
		f = randK(r, 40, r.Range(120, 190), 3)
	case 2:
		f = parity(r, r.Range(5, 12), 4)
	case 3:
		f = php(r.Range(2, 5), r.Range(2, 4))
	case 4:
		n := r.Range(5, 300)
		f = planted(r, n, 4*n, 3)
	default:
		for i := r.Intn(8); i > 0; i-- {
			f = append(f, messyClause(r, 6))
		}
	}
	n := maxvar(f)
	if r.P(1, 8) {
		n += r.Range(1, 5)
	}
	var b strings.Builder
	if r.Bool() {
		b.WriteString("c made\n")
	}
	fmt.Fprintf(&b, "p cnf %d %d\n", n, len(f))
	for _, cl := range f {
		for _, x := range cl {
			fmt.Fprintf(&b, "%d%s", x, []string{" ", " ", "\n"}[r.Intn(3)])
		}
		b.WriteString("0\n")
	}
	return f, b.String()
}

func packed(r *fw.Rand, how string, txt string) []byte {
	switch how {
	case ".gz":
		var b bytes.Buffer
		w, _ := gzip.NewWriterLevel(&b, r.Range(0, 9))
		w.Write([]byte(txt))
		w.Close()
		return b.Bytes()
	case ".bz2":
		cmd := exec.Command("bzip2", "-c")
		cmd.Stdin = strings.NewReader(txt)
		b, e := cmd.Output()
		if e != nil {
			panic(e)
		}
		return b
	}
	return []byte(txt)
}

func put(dir, name string, b []byte) {
	if e := ioutil.WriteFile(filepath.Join(dir, name), b, 0644); e != nil {
		panic(e)
	}
}

// giniFlags picks options and assumptions.
func giniFlags(r *fw.Rand, n int) (args []string, as []int, model, failed bool) {
	if r.Bool() {
		args, model = append(args, "-model"), true
	}
	if r.Bool() {
		args, failed = append(args, "-failed"), true
	}
	if r.P(1, 4) {
		args = append(args, "-stats")
	}
	if r.P(1, 3) {
		args = append(args, "-timeout", []string{"10m", "600s", "1h"}[r.Intn(3)])
	}
	for r.P(1, 3) && n > 0 {
		var l []string
		for k := r.Range(1, 4); k > 0; k-- {
			a := rlit(r, n)
			if r.P(1, 20) {
				a = rlit(r, n+20)
			}
			as = append(as, a)
			l = append(l, fmt.Sprint(a))
		}
		if r.Bool() {
			args = append(args, "-assume", strings.Join(l, ","))
		} else {
			args = append(args, "-assume="+strings.Join(l, ","))
		}
	}
	return
}

func cliSolve(c *fw.C) {
	r := c.R
	dir, done := cliDir(c)
	defer done()
	type job struct {
		f   cnf
		bad bool
	}
	var jobs []job
	var names []string
	mx, stdin, usedStdin := 0, "", false
	sc := r.Bool()
	n := r.Range(1, 4)
	if sc {
		n = 1
	}
	for i := 0; i < n; i++ {
		f, txt := cliCnf(r)
		if m := maxvar(f); m > mx {
			mx = m
		}
		ext := []string{"", "", ".gz", ".bz2"}[r.Intn(4)]
		data := packed(r, ext, txt)
		name := fmt.Sprintf("p%d.%s", i, []string{"cnf", "x.cnf", "icnf.cnf"}[r.Intn(3)]) + ext
		j := job{f: f}
		switch k := r.Intn(16); {
		case k == 0: // not there
			j.bad = true
			names, jobs = append(names, name), append(jobs, j)
			continue
		case k == 1: // bad text
			j.bad = true
			data = packed(r, ext, txt+[]string{"1 x 0\n", "1 2", "p cnf 1 1\n", "--1 0\n", "99999999999 0\n"}[r.Intn(5)])
		case k == 2: // not packed as it says
			if ext == "" {
				ext = ".gz"
				name += ext
			}
			data, j.bad = []byte(txt), true
		case k == 3: // cut
			if ext == "" {
				ext = ".gz"
				name += ext
				data = packed(r, ext, txt)
			}
			data, j.bad = data[:r.Intn(len(data)-5)], true
		case k == 4: // not a problem's name
			j.bad = true
			name = []string{"p.txt", "cnf", "p.cnf.zip", "p.gz", "p.bz2"}[r.Intn(5)]
		case k == 5 && !usedStdin:
			usedStdin, stdin = true, txt
			names, jobs = append(names, "-"), append(jobs, j)
			continue
		case k == 6:
			os.Mkdir(filepath.Join(dir, "d"), 0755)
			if e := os.Symlink(filepath.Join("d", name), filepath.Join(dir, name)); e != nil {
				panic(e)
			}
			put(filepath.Join(dir, "d"), name, data)
			names, jobs = append(names, name), append(jobs, j)
			c.Count("symlinks", 1)
			continue
		}
		put(dir, name, data)
		names, jobs = append(names, name), append(jobs, j)
	}
	args, as, model, failed := giniFlags(r, mx)
	if r.P(1, 6) {
		args = append(args, "-mon", []string{"1ms", "20ms", "1s", "1us"}[r.Intn(4)])
	}
	if sc {
		args = append(args, "-satcomp")
		if names[0] == "-" && r.Bool() {
			names = nil
		}
	}
	got := cli(c, dir, "gini", stdin, append(args, names...)...)
	bs := parseOut(c, got.out)
	i := 0
	for k, j := range jobs {
		if j.bad {
			c.Count("bad", 1)
			if got.err == "" {
				c.Failf("input %s is bad and nothing is said", names[k])
			}
			continue
		}
		if i >= len(bs) {
			c.Failf("%d answers of inputs %v: %q %q", len(bs), names, tail(got.out), tail(got.err))
		}
		judgeBlock(c, bs[i], j.f, as, model, failed, false)
		i++
	}
	if i != len(bs) {
		c.Failf("%d answers of inputs %v, %d good: %q", len(bs), names, i, tail(got.out))
	}
	if sc {
		want := 0
		if len(bs) == 1 {
			want = map[int]int{1: 10, -1: 20}[bs[0].res]
		}
		if len(bs) == 0 && (got.code == 10 || got.code == 20) || len(bs) == 1 && got.code != want {
			c.Failf("exit code %d after output %q", got.code, tail(got.out))
		}
		c.Count("exitcodes", 1)
	} else if got.code != 0 {
		c.Failf("exit code %d: %q", got.code, tail(got.err))
	}
	c.Sample("%v: %q", args, tail(got.out))
	c.Obs(r.Uint64())
}

// cliUsage: wrong arguments are not taken for right ones.
// cliCores: failed assumptions by the dozen, all of which are needed.
func cliCores(c *fw.C) {
	r := c.R
	dir, done := cliDir(c)
	defer done()
	k := r.Range(8, 120)
	n := k + r.Intn(9*k)
	var f cnf
	var cl, as []int
	for _, v := range r.Perm(n)[:k] {
		x := (v + 1) * r.Pick(1, -1)
		as = append(as, x)
		cl = append(cl, -x)
	}
	if r.Bool() {
		f = append(f, cl)
	} else { // by way of a chain
		last := 0
		for i, x := range cl {
			n++
			d := []int{x, n}
			if last != 0 {
				d = append(d, -last)
			}
			f, last = append(f, d), n
			if i == len(cl)-1 {
				f = append(f, []int{-n})
			}
		}
	}
	for i := r.Intn(10); i > 0; i-- {
		f = append(f, []int{n + 1 + r.Intn(20), n + 21 + r.Intn(20), n + 41 + r.Intn(20)})
	}
	put(dir, "c.cnf", []byte(f.dimacs(maxvar(f))))
	args := []string{"-failed"}
	if r.Bool() {
		args = append(args, "-model")
	}
	if r.P(1, 3) {
		args = append(args, "-mon", "1h")
	}
	for rest := as; len(rest) > 0; {
		m := r.Range(1, len(rest))
		var l []string
		for _, a := range rest[:m] {
			l = append(l, fmt.Sprint(a))
		}
		args, rest = append(args, "-assume="+strings.Join(l, ",")), rest[m:]
	}
	got := cli(c, dir, "gini", "", append(args, "c.cnf")...)
	bs := parseOut(c, got.out)
	if len(bs) != 1 || got.code != 0 {
		c.Failf("output %q, exit code %d", tail(got.out), got.code)
	}
	judgeBlock(c, bs[0], f, as, false, true, false)
	if len(bs[0].failed) != k {
		c.Failf("%d failed assumptions, %d are needed", len(bs[0].failed), k)
	}
	c.Count("longcores", 1)
	c.Obs(r.Uint64())
}

// cliOverall: the limit is for all cubes together. With more than a hundred
// cubes which cannot be solved, a limit for each would take far longer than
// is allowed here for machines which are busy; it must be so three times.
func cliOverall(c *fw.C) {
	r := c.R
	dir, done := cliDir(c)
	defer done()
	hard := php(13, 12)
	n := 60 * runtime.NumCPU()
	var b strings.Builder
	b.WriteString("p inccnf\n")
	b.WriteString(strings.SplitAfterN(hard.dimacs(maxvar(hard)), "\n", 2)[1])
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "a %d 0\n", rlit(r, maxvar(hard)))
	}
	put(dir, "h.icnf", []byte(b.String()))
	args := []string{"-timeout", "300ms", "h.icnf"}
	if r.Bool() {
		args = append([]string{"-ax"}, args...)
	}
	for i := 0; ; i++ {
		cmd := exec.Command(cliBin("gini"), args...)
		cmd.Dir = dir
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var o bytes.Buffer
		cmd.Stdout = &o
		if e := cmd.Start(); e != nil {
			panic(e)
		}
		late := time.AfterFunc(12*time.Second, func() { cmd.Process.Kill() })
		cmd.Wait()
		fw.Progress()
		if !late.Stop() {
			if i == 2 {
				c.Failf("gini %v of %d cubes goes on for more than 12 s", args, n)
			}
			continue
		}
		bs := parseOut(c, o.String())
		if len(bs) != n {
			c.Failf("%d answers of %d cubes: %q", len(bs), n, tail(o.String()))
		}
		for _, b := range bs {
			if b.res == 1 {
				c.Failf("pigeons fit")
			}
		}
		break
	}
	c.Count("overall", 1)
	c.Obs(r.Uint64())
}

func cliUsage(c *fw.C) {
	r := c.R
	dir, done := cliDir(c)
	defer done()
	f, txt := cliCnf(r)
	_ = f
	put(dir, "a.cnf", []byte(txt))
	put(dir, "b.cnf", []byte(txt))
	var args []string
	switch r.Intn(6) {
	case 0:
		args = []string{"-satcomp", "a.cnf", "b.cnf"}
	case 1:
		args = []string{"-assume", []string{"0", "1,0", "1,,2", "", "x", "1 2", "1,2,", "--1"}[r.Intn(8)], "a.cnf"}
	case 2:
		args = []string{"-assume", []string{"4294967297", "-4294967297", "1,9223372036854775807", "-9223372036854775808",
			"99999999999999999999", "2147483648", "-2147483649", "-2147483648", "9223372036854775809"}[r.Intn(9)], "a.cnf"}
	case 3:
		args = []string{"-nosuch", "a.cnf"}
	case 4:
		args = []string{"-timeout", "x", "a.cnf"}
	case 5:
		args = []string{"-satcomp", "nosuch.cnf"}
	}
	got := cli(c, dir, "gini", "", args...)
	if got.out != "" {
		c.Failf("%v gives %q", args, tail(got.out))
	}
	if got.err == "" || got.code == 0 || got.code == 10 || got.code == 20 {
		c.Failf("%v ends with exit code %d, says %q", args, got.code, got.err)
	}
	c.Count("usage", 1)
	c.Obs(r.Uint64())
}

// cliICnf: cubes with and without ax.
func cliICnf(c *fw.C) {
	r := c.R
	dir, done := cliDir(c)
	defer done()
	var b strings.Builder
	b.WriteString("p inccnf\n")
	n := r.Range(3, 25)
	var f cnf
	type q struct {
		f  cnf
		as []int
	}
	var qs []q
	for k := r.Range(0, 4); k >= 0; k-- {
		for j := r.Range(0, 2*n); j > 0; j-- {
			cl := rclause(r, n, r.Pick(2, 3, 3, 3, 4))
			if r.P(1, 30) {
				cl = messyClause(r, n)
			}
			f = append(f, cl)
			for _, x := range cl {
				fmt.Fprintf(&b, "%d ", x)
			}
			b.WriteString("0\n")
		}
		for j := r.Pick(0, 1, 3, 12); j > 0; j-- {
			var as []int
			for i := r.Intn(5); i > 0; i-- {
				as = append(as, rlit(r, n))
			}
			b.WriteString("a ")
			for _, x := range as {
				fmt.Fprintf(&b, "%d ", x)
			}
			b.WriteString("0\n")
			qs = append(qs, q{f[:len(f):len(f)], as})
		}
	}
	bad := r.P(1, 10)
	if bad {
		b.WriteString([]string{"a 1 y 0\n", "z\n", "1 2"}[r.Intn(3)])
	}
	ext := []string{"", ".gz", ".bz2"}[r.Intn(3)]
	name := "q.icnf" + ext
	put(dir, name, packed(r, ext, b.String()))
	var args []string
	useAx := r.Bool()
	if useAx {
		args = append(args, "-ax")
	}
	if r.P(1, 3) {
		args = append(args, "-timeout", "10m")
	}
	if r.P(1, 4) {
		args = append(args, "-satcomp")
	}
	got := cli(c, dir, "gini", "", append(args, name)...)
	bs := parseOut(c, got.out)
	if got.code != 0 {
		c.Failf("exit code %d: %s", got.code, tail(got.err))
	}
	if bad && got.err == "" {
		c.Failf("the input is bad and nothing is said")
	}
	if len(bs) != len(qs) && !(bad && len(bs) < len(qs)) {
		c.Failf("%d answers of %d cubes", len(bs), len(qs))
	}
	for i, b := range bs {
		judgeBlock(c, b, qs[i].f, qs[i].as, false, false, false)
	}
	if useAx {
		// the counts add up
		solved := 0
		for _, l := range strings.Split(got.out, "\n") {
			var a, z int
			if k, _ := fmt.Sscanf(l, "c solved %d/%d", &a, &z); k == 2 {
				if a != z {
					c.Failf("%q, with all cubes solved", l)
				}
				solved += z
			}
		}
		if solved != len(bs) {
			c.Failf("%d cubes counted of %d", solved, len(bs))
		}
		c.Count("ax", len(bs))
	}
	c.Count("cubes", len(bs))
	c.Obs(r.Uint64())
}

// cliMany: more inputs than files may be open at a time.
func cliMany(c *fw.C) {
	r := c.R
	dir, done := cliDir(c)
	defer done()
	n := r.Range(60, 150)
	var names []string
	var fs []cnf
	bad := 0
	for i := 0; i < n; i++ {
		f, txt := cliCnf(r)
		ext := []string{"", "", ".gz", ".bz2"}[r.Intn(4)]
		data := packed(r, ext, txt)
		name := fmt.Sprintf("p%d.cnf%s", i, ext)
		switch r.Intn(8) {
		case 0:
			data = []byte(txt)
			name = fmt.Sprintf("p%d.cnf.gz", i)
			bad++
		case 1:
			name = fmt.Sprintf("p%d.txt%s", i, ext)
			bad++
		case 2:
			data = packed(r, ext, txt+"1 x 0\n")
			bad++
		default:
			fs = append(fs, f)
		}
		put(dir, name, data)
		names = append(names, name)
	}
	cmd := exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -n %d; exec \"$0\" \"$@\"", r.Pick(24, 32, 40)), cliBin("gini"), "-model"}, names...)...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Run(); err != nil {
		c.Failf("gini of %d files: %v: %s", n, err, tail(e.String()))
	}
	bs := parseOut(c, o.String())
	if len(bs) != len(fs) {
		c.Failf("%d answers of %d inputs, %d of which are bad: %q", len(bs), n, bad, tail(e.String()))
	}
	for i, b := range bs {
		judgeBlock(c, b, fs[i], nil, true, false, false)
	}
	c.Count("manyfiles", 1)
	c.Obs(r.Uint64())
}

// cliIdle: once a solve is over, or was given up, it does not go on while
// the next input is waited for.
func cliIdle(c *fw.C) {
	r := c.R
	dir, done := cliDir(c)
	defer done()
	hard := php(14, 13)
	ext := ".cnf"
	txt := hard.dimacs(maxvar(hard))
	n := 1
	args := []string{"-timeout", fmt.Sprintf("%dms", r.Pick(5, 50, 200))}
	if r.P(1, 3) {
		ext = ".icnf"
		var b strings.Builder
		b.WriteString("p inccnf\n")
		for _, cl := range hard {
			for _, x := range cl {
				fmt.Fprintf(&b, "%d ", x)
			}
			b.WriteString("0\n")
		}
		n = r.Range(1, 4)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "a %d 0\n", rlit(r, maxvar(hard)))
		}
		txt = b.String()
		if r.Bool() {
			args = append(args, "-ax")
		}
	} else if r.Bool() {
		args = append(args, "-mon", []string{"1ms", "30ms"}[r.Intn(2)])
	}
	put(dir, "h"+ext, []byte(txt))
	f, t2 := cliCnf(r)
	fifo := filepath.Join(dir, "e.cnf")
	if e := syscall.Mkfifo(fifo, 0644); e != nil {
		panic(e)
	}
	args = append(args, "h"+ext, "e.cnf")
	c.Logf("gini %v", args)
	cmd := exec.Command(cliBin("gini"), args...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e lockBuf
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	ended := false
	defer func() {
		if !ended {
			cmd.Process.Kill()
			cmd.Wait()
		}
	}()
	// this returns once the command reads the second input
	w, err := os.OpenFile(fifo, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	ticks := func() int {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", cmd.Process.Pid))
		if err != nil {
			return -1
		}
		s := string(b[bytes.LastIndexByte(b, ')')+1:])
		fs := strings.Fields(s)
		u, _ := strconv.Atoi(fs[11])
		v, _ := strconv.Atoi(fs[12])
		return u + v
	}
	idle := false
	last := ticks()
	for i := 0; i < 40 && !idle && last >= 0; i++ {
		time.Sleep(time.Duration(50+5*i*i) * time.Millisecond / 2)
		t := ticks()
		idle = t-last <= 1
		last = t
	}
	if !idle && last >= 0 {
		w.Close()
		c.Failf("gini %v works on while it waits for the second input; output %q", args, tail(o.String()))
	}
	w.Write([]byte(t2))
	w.Close()
	cmd.Wait()
	ended = true
	bs := parseOut(c, o.String())
	if len(bs) != n+1 {
		c.Failf("%d answers, want %d: %q %q", len(bs), n+1, tail(o.String()), tail(e.String()))
	}
	for _, b := range bs[:n] {
		if b.res == 1 {
			c.Failf("pigeons fit")
		}
	}
	judgeBlock(c, bs[n], f, nil, false, false, true)
	c.Count("idle", 1)
	c.Obs(r.Uint64())
}

// cliHard: limits and signals.
func cliHard(c *fw.C) {
	r := c.R
	dir, done := cliDir(c)
	defer done()
	hard := php(13, 12)
	txt := hard.dimacs(maxvar(hard))
	switch r.Intn(4) {
	case 0: // limit
		put(dir, "h.cnf", []byte(txt))
		f, t2 := cliCnf(r)
		put(dir, "e.cnf", []byte(t2))
		args := []string{"-timeout", "200ms", "-model", "-failed"}
		if r.Bool() {
			args = append(args, "-mon", "30ms")
		}
		if r.Bool() {
			got := cli(c, dir, "gini", "", append(args, "-satcomp", "h.cnf")...)
			bs := parseOut(c, got.out)
			if len(bs) != 1 || bs[0].res == 1 || got.code != map[int]int{0: 0, -1: 20}[bs[0].res] {
				c.Failf("output %q, exit code %d", tail(got.out), got.code)
			}
			break
		}
		got := cli(c, dir, "gini", "", append(args, "h.cnf", "e.cnf")...)
		bs := parseOut(c, got.out)
		if len(bs) != 2 || bs[0].res == 1 || got.code != 0 {
			c.Failf("output %q, exit code %d", tail(got.out), got.code)
		}
		judgeBlock(c, bs[1], f, nil, true, true, true)
	case 1, 2: // limit of all cubes
		var b strings.Builder
		b.WriteString("p inccnf\n")
		for _, cl := range hard {
			for _, x := range cl {
				fmt.Fprintf(&b, "%d ", x)
			}
			b.WriteString("0\n")
		}
		n := r.Range(2, 12)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "a %d 0\n", rlit(r, maxvar(hard)))
		}
		put(dir, "h.icnf", []byte(b.String()))
		args := []string{"-timeout", fmt.Sprintf("%dms", r.Pick(1, 20, 200))}
		if r.Bool() {
			args = append(args, "-ax")
		}
		got := cli(c, dir, "gini", "", append(args, "h.icnf")...)
		bs := parseOut(c, got.out)
		if len(bs) != n || got.code != 0 {
			c.Failf("%d answers of %d cubes: %q", len(bs), n, tail(got.out))
		}
		for _, b := range bs {
			if b.res == 1 {
				c.Failf("pigeons fit: %q", tail(got.out))
			}
		}
	case 3: // signals
		put(dir, "h.cnf", []byte(txt))
		cmd := exec.Command(cliBin("gini"), []string{"-satcomp", "-model"}[r.Intn(2)], "-timeout", "1h", "h.cnf")
		cmd.Dir = dir
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var o, e lockBuf
		cmd.Stdout, cmd.Stderr = &o, &e
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		// until it solves, which it may or may not say
		for i := 0; !strings.Contains(e.String(), "parsed") && i < 2500; i++ {
			time.Sleep(2 * time.Millisecond)
		}
		k := r.Intn(3)
		for i := 0; i < k; i++ {
			cmd.Process.Signal(syscall.SIGUSR1)
			time.Sleep(5 * time.Millisecond)
		}
		cmd.Process.Signal([]os.Signal{syscall.SIGTERM, syscall.SIGINT}[r.Intn(2)])
		cmd.Wait()
		bs := parseOut(c, o.String())
		code := cmd.ProcessState.ExitCode()
		if len(bs) != 1 || bs[0].res != 0 || code != 1 {
			if len(bs) == 1 && bs[0].res == -1 {
				break // it was quicker
			}
			c.Failf("interrupted: output %q, exit code %d", o.String(), code)
		}
		c.Count("signals", 1)
	}
	c.Count("limits", 1)
	c.Obs(r.Uint64())
}

// cliCrisp: the daemon and gini -crisp.
func cliCrisp(c *fw.C) {
	r := c.R
	dir, done := cliDir(c)
	defer done()
	var addr string
	start := func() (*exec.Cmd, *lockBuf) {
		for try := 0; ; try++ {
			if addr == "" || try > 0 {
				if r.Bool() {
					addr = "@" + filepath.Join(dir, fmt.Sprintf("s%d", try))
				} else {
					l, e := net.Listen("tcp", "127.0.0.1:0")
					if e != nil {
						panic(e)
					}
					addr = l.Addr().String()
					l.Close()
				}
			}
			cmd := exec.Command(cliBin("crispd"), addr)
			if r.P(1, 3) {
				cmd.Args = append(cmd.Args[:1], "-trace", addr)
			}
			var e lockBuf
			cmd.Dir = dir
			cmd.Stdout, cmd.Stderr = &e, &e
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			gone := make(chan bool)
			go func() { cmd.Wait(); close(gone) }()
			for i := 0; ; i++ {
				nw, ad := "tcp", addr
				if ad[0] == '@' {
					nw, ad = "unix", ad[1:]
				}
				cn, err := net.Dial(nw, ad)
				if err == nil {
					cn.Close()
					return cmd, &e
				}
				select {
				case <-gone:
					i = 1 << 30
				case <-time.After(5 * time.Millisecond):
				}
				if i >= 1<<30 {
					break
				}
			}
			c.Logf("crispd at %s: %s", addr, e.String())
			if try > 5 || addr[0] == '@' {
				c.Failf("crispd does not start at %s: %s", addr, e.String())
			}
		}
	}
	d, e := start()
	killed := false
	defer func() {
		if !killed {
			d.Process.Kill()
		}
	}()
	for k := r.Range(1, 4); k > 0; k-- {
		f, txt := cliCnf(r)
		args, as, model, failed := giniFlags(r, maxvar(f))
		put(dir, "p.cnf", []byte(txt))
		args = append(args, "-crisp", addr)
		sc := r.Bool()
		if sc {
			args = append(args, "-satcomp")
		}
		got := cli(c, dir, "gini", "", append(args, "p.cnf")...)
		bs := parseOut(c, got.out)
		if len(bs) != 1 {
			c.Failf("output %q, error %q, server %q", tail(got.out), tail(got.err), tail(e.String()))
		}
		judgeBlock(c, bs[0], f, as, model, failed, false)
		want := 0
		if sc {
			want = map[int]int{1: 10, -1: 20}[bs[0].res]
		}
		if got.code != want {
			c.Failf("exit code %d after %q", got.code, tail(got.out))
		}
		c.Count("remote", 1)
	}
	if strings.Contains(e.String(), "panic: ") {
		c.Failf("the server panics: %s", tail(e.String()))
	}
	d.Process.Signal([]os.Signal{syscall.SIGTERM, syscall.SIGINT}[r.Intn(2)])
	for d.Process.Signal(syscall.Signal(0)) == nil {
		time.Sleep(2 * time.Millisecond)
	}
	killed = true
	// the address is free again
	if addr[0] == '@' {
		d, _ = start()
		d.Process.Kill()
	}
	// no server: an error and no answer
	put(dir, "p.cnf", []byte("p cnf 1 1\n1 0\n"))
	got := cli(c, dir, "gini", "", "-crisp", "@"+filepath.Join(dir, "none"), "-satcomp", "p.cnf")
	if got.out != "" || got.err == "" || got.code == 10 || got.code == 20 {
		c.Failf("without a server: output %q, error %q, exit code %d", got.out, got.err, got.code)
	}
	c.Obs(r.Uint64())
}

// cliBench: the bench command does what the package does.
func cliBench(c *fw.C) {
	defer benchDir(c)()
	r := c.R
	fs, dirs := benchTree(c, false)
	for _, b := range fs {
		if b.kind == "sleep" {
			b.kind = "exit"
			b.data = fmt.Sprintf("%d %s\n%s%s", b.code, b.kind, b.errs, b.outs)
			put(".", b.path, []byte(b.data))
		}
	}
	put(".", "solver.sh", []byte(benchSolver))
	wd, _ := os.Getwd()
	n := r.Range(1, len(fs)+2)
	link := r.P(1, 3)
	args := []string{"sel", "-name", "suite", "-n", fmt.Sprint(n)}
	pat := ""
	if r.P(1, 3) {
		pat = "*.cnf"
		args = append(args, "-pattern", pat)
	}
	if link {
		args = append(args, "-link")
	}
	got := cli(c, wd, "bench", "", append(args, dirs...)...)
	all := 0
	for f := range fs {
		if pat == "" || strings.HasSuffix(f, ".cnf") {
			all++
		}
	}
	few := n > all
	if few {
		n = all
	}
	s, e := bench.OpenSuite("suite")
	if e != nil || got.code != 0 || (got.err != "") != few {
		c.Failf("sel: %v, error %q, exit code %d", e, got.err, got.code)
	}
	files := append([]string{}, s.Map...)
	if len(files) != n {
		c.Failf("%d instances selected, must be %d of %d", len(files), n, all)
	}
	sort.Strings(files)
	for i, f := range files {
		if fs[f] == nil || pat != "" && !strings.HasSuffix(f, ".cnf") || i > 0 && files[i-1] == f {
			c.Failf("%q selected", files)
		}
	}
	sameSuite(c, "selected", s, "suite", s.Map, fs)
	runs := map[string]bool{}
	desc, commit := map[string]string{}, map[string]string{}
	for k := r.Range(1, 3); k > 0; k-- {
		name := fmt.Sprintf("%s%d", []string{"r", "s"}[r.Intn(2)], k)
		cmd := "sh " + filepath.Join(wd, "solver.sh")
		args := []string{"run", "-cmd", cmd, "-dur", "10m", "-name", name}
		commit[name] = "00000000"
		if r.P(1, 3) {
			desc[name], commit[name] = fmt.Sprintf("what %d\nis this", r.Intn(100)), fmt.Sprintf("%x", r.Intn(1<<28))
			args = append(args, "-desc", desc[name], "-commit", commit[name])
		}
		if r.P(1, 4) { // one which is not there first
			args = append(args, "nosuite")
		}
		got := cli(c, wd, "bench", "", append(args, "suite")...)
		if got.code != 0 {
			c.Failf("run: exit code %d, error %q", got.code, got.err)
		}
		runs[name] = true
		if r.P(1, 4) { // again: what was found stays
			args[2] = "true"
			got := cli(c, wd, "bench", "", append(args, "suite")...)
			if strings.Contains(got.err, "panic") || len(files) > 0 && got.err == "" {
				c.Failf("run over a run which is there: exit code %d, error %q", got.code, got.err)
			}
			c.Count("runs_again", 1)
		}
	}
	check := func() *bench.Suite {
		s, e := bench.OpenSuite("suite")
		if e != nil {
			c.Failf("opening the suite: %v", e)
		}
		if len(s.Runs) != len(runs) {
			c.Failf("%d runs, must be %v", len(s.Runs), runs)
		}
		for _, ru := range s.Runs {
			if !runs[ru.Name] {
				c.Failf("there is a run %q", ru.Name)
			}
			if ru.Desc != desc[ru.Name] || ru.Commit != commit[ru.Name] || ru.InstTimeout != 10*time.Minute || ru.Timeout != time.Hour {
				c.Failf("run %s has description %q, commit %q, limits %s and %s", ru.Name, ru.Desc, ru.Commit, ru.InstTimeout, ru.Timeout)
			}
			for i, ir := range ru.InstRuns {
				b := fs[s.Map[i]]
				want := 0
				if b.kind == "exit" {
					want = map[int]int{10: 1, 20: -1}[b.code]
				}
				if ir == nil || ir.Result != want {
					c.Failf("instance %d (%+v) of run %s has %+v", i, b, ru.Name, ir)
				}
				c.Count("results", 1)
			}
		}
		return s
	}
	s = check()
	got = cli(c, wd, "bench", "", "cmp", "-list", "-runs", "r*", "suite")
	want := fmt.Sprintln(bench.Summary(s)) + fmt.Sprintln(bench.Listing(s, func(ru *bench.Run) bool { return ru.Name[0] == 'r' }))
	if got.out != want || got.code != 0 {
		c.Failf("cmp prints %q, the package gives %q", got.out, want)
	}
	// plots
	var filt func(*bench.Suite, int) bool
	args = []string{"cmp", "-sum=false"}
	scatter, cactus := r.P(2, 3), r.P(2, 3)
	if scatter {
		args = append(args, "-scatter")
	}
	if cactus {
		args = append(args, "-cactus")
	}
	if w := r.Intn(3); w > 0 {
		args = append(args, []string{"", "-sat", "-unsat"}[w])
		filt = func(s *bench.Suite, i int) bool {
			for _, ru := range s.Runs {
				if ru.InstRuns[i].Result == []int{0, 1, -1}[w] {
					return true
				}
			}
			return false
		}
	}
	pats := []string{"*", "r*", "s?", "r*,s*", "x", "[,r*"}[r.Intn(6)]
	in := func(ru *bench.Run) bool {
		return pats == "*" || pats == "r*,s*" || strings.HasSuffix(pats, "r*") && ru.Name[0] == 'r' || pats == "s?" && ru.Name[0] == 's'
	}
	args = append(args, "-runs", pats, "suite")
	got = cli(c, wd, "bench", "", args...)
	if got.code != 0 || pats[0] != '[' && got.err != "" {
		c.Failf("%v: exit code %d, error %q", args, got.code, got.err)
	}
	rest := got.out
	for i, ra := range s.Runs {
		for _, rb := range s.Runs[:i] {
			if !scatter || !in(ra) || !in(rb) {
				continue
			}
			h := fmt.Sprintf("suite: %s v %s\n", ra.Name, rb.Name)
			if !strings.HasPrefix(rest, h) {
				c.Failf("%v prints %q, must be %q...", args, rest, h)
			}
			rest = rest[len(h):]
			scatterPicture(c, bench.NewScatter(ra, rb, filt), 40, rest)
			end := " wins\n\n"
			k := strings.Index(rest, end)
			if k < 0 {
				c.Failf("%v: scatter without end: %q", args, rest)
			}
			rest = rest[k+len(end):]
			c.Count("scatters", 1)
		}
	}
	if cactus {
		if !strings.HasPrefix(rest, "\n") {
			c.Failf("%v prints %q", args, rest)
		}
		cactusPicture(c, bench.NewCactus(s, in, filt), 40, rest[1:])
		c.Count("cactus", 1)
	} else if rest != "" {
		c.Failf("%v prints %q", args, rest)
	}
	got = cli(c, wd, "bench", "", "cmp", "-sat", "-unsat", "-list", "suite")
	if got.out != "" || got.err == "" {
		c.Failf("cmp with -sat and -unsat prints %q, error %q", got.out, got.err)
	}
	got = cli(c, wd, "bench", "", "cmp", "nosuite", "suite")
	if got.out != fmt.Sprintln(bench.Summary(s)) || !strings.Contains(got.err, "nosuite") {
		c.Failf("cmp of a suite which is not there and one which is prints %q, error %q", got.out, got.err)
	}
	var some string
	for name := range runs {
		if some == "" || name < some {
			some = name
		}
	}
	got = cli(c, wd, "bench", "", "run", "-d", some, "suite")
	if got.code != 0 || got.err != "" {
		c.Failf("run -d: exit code %d, error %q", got.code, got.err)
	}
	delete(runs, some)
	check()
	c.Count("bench", 1)
	c.Obs(r.Uint64())
}

func init() {
	fw.Register(&fw.Prop{ID: "C22",
		Rule: "the commands gini, crispd and bench, built from the tree, are run as processes on random inputs, options, packings, links, standard input, servers, limits and signals; what they print and their exit codes are checked against an independent reference solver",
		Workloads: []fw.Workload{
			{Name: "solve", Quick: 900, Thorough: 12000, Fn: cliSolve},
			{Name: "usage", Quick: 150, Thorough: 1000, Fn: cliUsage},
			{Name: "icnf", Quick: 400, Thorough: 5000, Fn: cliICnf},
			{Name: "many", Quick: 30, Thorough: 500, Fn: cliMany},
			{Name: "idle", Quick: 40, Thorough: 500, Fn: cliIdle},
			{Name: "hard", Quick: 60, Thorough: 600, Fn: cliHard},
			{Name: "cores", Quick: 60, Thorough: 1000, Fn: cliCores},
			{Name: "overall", Quick: 8, Thorough: 24, Fn: cliOverall},
			{Name: "crisp", Quick: 100, Thorough: 1500, Fn: cliCrisp},
			{Name: "bench", Quick: 60, Thorough: 600, Fn: cliBench},
		},
		Need: []string{"sat", "unsat", "models", "cores", "bad", "exitcodes", "usage", "ax", "limits", "signals", "remote", "bench", "symlinks", "manyfiles", "idle", "runs_again", "longcores", "overall"},
	})
}

// lockBuf is a buffer which can be read while it is written.
type lockBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}
