package fw

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	exitHang = 97
	exitRace = 66
)

type rec struct {
	T       string         `json:"t"`
	F       *Finding       `json:"f,omitempty"`
	Evals   int            `json:"evals,omitempty"`
	Counts  map[string]int `json:"counts,omitempty"`
	Samples []string       `json:"samples,omitempty"`
	MaxMs   int64          `json:"maxms,omitempty"`
}

type cref struct {
	w   *Workload
	idx int
}

func (p *Prop) cases(tier, only string) []cref {
	var lists [][]cref
	mx := 0
	for i := range p.Workloads {
		w := &p.Workloads[i]
		if only != "" && w.Name != only {
			continue
		}
		n := w.Quick
		if tier == "thorough" {
			n = w.Thorough
			if n == 0 {
				n = w.Quick
			}
		}
		var l []cref
		for j := 0; j < n; j++ {
			l = append(l, cref{w, j})
		}
		lists = append(lists, l)
		if n > mx {
			mx = n
		}
	}
	// spread each workload evenly over the whole run
	var all []cref
	pos := make([]int, len(lists))
	for s := 0; s < mx; s++ {
		for k, l := range lists {
			for pos[k] < len(l) && pos[k]*mx <= s*len(l) {
				all = append(all, l[pos[k]])
				pos[k]++
			}
		}
	}
	for k, l := range lists {
		all = append(all, l[pos[k]:]...)
	}
	return all
}

// Main is the entry of the harness binary.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check|worker|replay|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	n := fs.Int("n", 1, "")
	out := fs.String("out", "", "")
	only := fs.String("w", "", "")
	idx := fs.Int("idx", -1, "")
	verif := fs.String("verif", "/verif", "")
	tmp := fs.String("tmp", "", "")
	scale := fs.Int("limx", 1, "")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "list":
		ids := IDs()
		sort.Strings(ids)
		for _, i := range ids {
			fmt.Println(i, props[i].Race)
		}
	case "races":
		p := props[*prop]
		if p == nil {
			os.Exit(2)
		}
		if p.Race {
			fmt.Println("race")
		} else {
			fmt.Println("norace")
		}
	case "worker":
		worker(props[*prop], *tier, *seed, *shard, *n, *out, *only, *idx, *tmp, *scale)
	case "check":
		p := props[*prop]
		if p == nil {
			fmt.Fprintln(os.Stderr, "no such property", *prop)
			os.Exit(2)
		}
		os.Exit(check(p, *tier, *seed, *verif, *only))
	case "replay":
		b, e := os.ReadFile(fs.Arg(0))
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(2)
		}
		var f Finding
		if e := json.Unmarshal(b, &f); e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(2)
		}
		Verbose = true
		worker(props[f.Prop], f.Tier, f.Seed, 0, 1, "", f.Workload, f.Index, "", 1)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

var caseNo int64
var caseStart int64
var caseLimit int64

// Progress resets the case's watchdog: the case did something observable.
func Progress() { atomic.StoreInt64(&caseStart, time.Now().UnixNano()) }

func worker(p *Prop, tier string, seed int64, shard, n int, out, only string, idx int, tmp string, limx int) {
	var of io.Writer = os.Stdout
	if out != "" {
		f, e := os.Create(out)
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(2)
		}
		of = f
	}
	if tmp == "" {
		d, e := os.MkdirTemp("", "vhw")
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(2)
		}
		tmp = d
		defer os.RemoveAll(d)
	}
	if p.MemLimit != 0 && !raceEnabled {
		rl := syscall.Rlimit{Cur: p.MemLimit, Max: p.MemLimit}
		syscall.Setrlimit(syscall.RLIMIT_AS, &rl)
	}
	var omu sync.Mutex
	emit := func(r rec) {
		omu.Lock()
		b, _ := json.Marshal(r)
		of.Write(append(b, '\n'))
		omu.Unlock()
	}
	st := &stats{Counts: map[string]int{}, Sigs: map[uint64]struct{}{}}
	var list []cref
	if idx >= 0 {
		for i := range p.Workloads {
			if p.Workloads[i].Name == only {
				list = append(list, cref{&p.Workloads[i], idx})
			}
		}
	} else {
		all := p.cases(tier, only)
		for i := shard; i < len(all); i += n {
			list = append(list, all[i])
		}
	}
	var cur atomic.Value
	cur.Store("")
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := atomic.LoadInt64(&caseStart)
			l := atomic.LoadInt64(&caseLimit)
			if s != 0 && time.Now().UnixNano()-s > l {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "WATCHDOG case %s\n%s\n", cur.Load(), buf)
				os.Exit(exitHang)
			}
		}
	}()
	var pf *os.File
	if out != "" {
		pf, _ = os.Create(out + ".cur")
	}
	bad := 0
	for _, cr := range list {
		lim := cr.w.Limit
		if lim == 0 {
			lim = 120 * time.Second
		}
		lim *= time.Duration(limx)
		name := fmt.Sprintf("%s %d", cr.w.Name, cr.idx)
		cur.Store(name)
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-80s", name)), 0)
		}
		t0 := time.Now()
		atomic.StoreInt64(&caseLimit, int64(lim))
		atomic.StoreInt64(&caseStart, t0.UnixNano())
		fsd := runCase(p, cr.w, cr.idx, seed, tier, tmp, st)
		atomic.StoreInt64(&caseStart, 0)
		if ms := time.Since(t0).Milliseconds(); ms > st.maxMs {
			st.maxMs = ms
		}
		unk := 0
		for i := range fsd {
			emit(rec{T: "v", F: &fsd[i]})
			if fsd[i].Key == "" {
				unk++
			}
		}
		bad += unk
		if bad >= 3 {
			break
		}
	}
	emit(rec{T: "end", Evals: st.Evals, Counts: st.Counts, Samples: st.Samples, MaxMs: st.maxMs})
	if out != "" {
		b := make([]byte, 0, 8*len(st.Sigs))
		for s := range st.Sigs {
			b = binary.LittleEndian.AppendUint64(b, s)
		}
		os.WriteFile(out+".sig", b, 0644)
	} else {
		b, _ := json.Marshal(st.Counts)
		fmt.Fprintln(os.Stderr, string(b))
		if bad > 0 {
			os.Exit(1)
		}
	}
}

type known struct{ prop, key, text string }

// known findings: lines "known: property=<id> key=<key> <text>".
func loadKnown(verif string) []known {
	f, e := os.Open(filepath.Join(verif, "known-findings.txt"))
	if e != nil {
		return nil
	}
	defer f.Close()
	var r []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		fl := strings.SplitN(l[7:], " ", 3)
		if len(fl) < 2 {
			continue
		}
		k := known{prop: strings.TrimPrefix(fl[0], "property="), key: strings.TrimPrefix(fl[1], "key=")}
		if len(fl) == 3 {
			k.text = fl[2]
		}
		r = append(r, k)
	}
	return r
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		b = append(append([]byte{}, b[:n/2]...), append([]byte("\n...\n"), b[len(b)-n/2:]...)...)
	}
	return string(b)
}

func check(p *Prop, tier string, seed int64, verif, only string) int {
	t0 := time.Now()
	dir, e := os.MkdirTemp("", "vhc-"+p.ID+"-")
	if e != nil {
		fmt.Fprintln(os.Stderr, e)
		return 2
	}
	defer os.RemoveAll(dir)
	nw := p.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	self, _ := os.Executable()
	type wres struct {
		out  string
		err  error
		code int
	}
	res := make([]wres, nw)
	var wg sync.WaitGroup
	var stop int32
	cmds := make([]*exec.Cmd, nw)
	var cmu sync.Mutex
	spawn := func(tag string, args ...string) (string, int) {
		out := filepath.Join(dir, tag)
		td := filepath.Join(dir, tag+".d")
		os.Mkdir(td, 0755)
		args = append([]string{"worker", "-prop", p.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10),
			"-out", out, "-tmp", td}, args...)
		cm := exec.Command(self, args...)
		ef, _ := os.Create(out + ".err")
		defer ef.Close()
		cm.Stderr = ef
		cm.Stdout = ef
		cm.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all", "TMPDIR="+td)
		cm.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		e := cm.Start()
		if e != nil {
			return out, 2
		}
		cmu.Lock()
		for i := range cmds {
			if cmds[i] == nil {
				cmds[i] = cm
				break
			}
		}
		cmu.Unlock()
		e = cm.Wait()
		syscall.Kill(-cm.Process.Pid, syscall.SIGKILL)
		code := 0
		if e != nil {
			code = 255
			if ee, ok := e.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
		}
		return out, code
	}
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			args := []string{"-shard", strconv.Itoa(i), "-n", strconv.Itoa(nw)}
			if only != "" {
				args = append(args, "-w", only)
			}
			out, code := spawn(fmt.Sprintf("w%d", i), args...)
			res[i] = wres{out: out, code: code}
			if code != 0 && code != exitHang && atomic.CompareAndSwapInt32(&stop, 0, 1) {
				// a crash decides the run: end the other workers
				cmu.Lock()
				for _, c := range cmds {
					if c != nil && c.Process != nil {
						syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
					}
				}
				cmu.Unlock()
			}
		}(i)
	}
	wg.Wait()

	var finds []Finding
	counts := map[string]int{}
	evals := 0
	var samples []interface{}
	sigs := map[uint64]struct{}{}
	var maxMs int64
	inconclusive := 0
	harnessErr := ""
	collect := func(out string) bool {
		f, e := os.Open(out)
		if e != nil {
			return false
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		ended := false
		for sc.Scan() {
			var r rec
			if json.Unmarshal(sc.Bytes(), &r) != nil {
				continue
			}
			switch r.T {
			case "v":
				finds = append(finds, *r.F)
			case "end":
				ended = true
				evals += r.Evals
				for k, v := range r.Counts {
					counts[k] += v
				}
				for _, s := range r.Samples {
					if len(samples) < 12 {
						samples = append(samples, s)
					}
				}
				if r.MaxMs > maxMs {
					maxMs = r.MaxMs
				}
			}
		}
		b, _ := os.ReadFile(out + ".sig")
		for len(b) >= 8 {
			sigs[binary.LittleEndian.Uint64(b)] = struct{}{}
			b = b[8:]
		}
		return ended
	}
	for i := range res {
		ended := collect(res[i].out)
		if ended && res[i].code == 0 {
			continue
		}
		if res[i].code == -1 && atomic.LoadInt32(&stop) == 1 {
			// may have been ended by us, or by the memory guard: only the
			// first one to go counts, below
			curb, _ := os.ReadFile(res[i].out + ".cur")
			counts["workers_cut_short"]++
			_ = curb
			continue
		}
		curb, _ := os.ReadFile(res[i].out + ".cur")
		var wn string
		var wi int
		fmt.Sscanf(string(curb), "%s %d", &wn, &wi)
		if wn == "" {
			harnessErr = fmt.Sprintf("worker %d ended with %d before its first case: %s", i, res[i].code, tail(res[i].out+".err", 2000))
			continue
		}
		base := Finding{Prop: p.ID, Workload: wn, Index: wi, Seed: seed, Tier: tier}
		switch {
		case res[i].code == exitRace && strings.Contains(tail(res[i].out+".err", 1<<22), "DATA RACE"):
			base.Kind = "data race"
			base.Msg = grepRace(res[i].out + ".err")
			finds = append(finds, base)
		case res[i].code == exitHang && len(finds) > 0:
			// decided already
			inconclusive++
		case res[i].code == exitHang:
			// confirm alone, with twice the limit
			out, code := spawn(fmt.Sprintf("r%d", i), "-w", wn, "-idx", strconv.Itoa(wi), "-limx", "2")
			if code == 0 {
				collect(out)
				inconclusive++
				continue
			}
			base.Kind = "no progress"
			if code != exitHang {
				base.Kind = "crash"
			}
			base.Msg = fmt.Sprintf("case does not finish (exit %d); last stacks:\n%s", code, tail(out+".err", 12000))
			finds = append(finds, base)
		default:
			out, code := spawn(fmt.Sprintf("r%d", i), "-w", wn, "-idx", strconv.Itoa(wi))
			base.Kind = "crash"
			base.Msg = fmt.Sprintf("process ended with %d:\n%s", res[i].code, tail(res[i].out+".err", 8000))
			if code == 0 {
				base.Msg += "\n(not reproduced when the case ran alone)"
				collect(out)
			}
			finds = append(finds, base)
		}
	}

	kn := loadKnown(verif)
	seenKnown := map[string]bool{}
	var bad []Finding
	for _, f := range finds {
		listed := false
		if f.Key != "" {
			for _, k := range kn {
				if k.prop == p.ID && k.key == f.Key {
					listed = true
					if !seenKnown[f.Key] {
						seenKnown[f.Key] = true
						fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", p.ID, k.key, k.text)
					}
				}
			}
		}
		if !listed {
			bad = append(bad, f)
		}
	}
	wall := time.Since(t0).Seconds()
	if len(samples) == 0 {
		samples = append(samples, "(none recorded)")
	}
	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(sigs),
		"rule":                p.Rule,
		"samples":             samples,
		"observed":            counts,
		"inconclusive_cases":  inconclusive,
		"longest_case_ms":     maxMs,
		"race_detector":       raceEnabled,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": len(bad),
	}
	if p.Assumptions != nil {
		ev["assumptions"] = p.Assumptions
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if e := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0644); e != nil {
		fmt.Fprintln(os.Stderr, e)
		return 2
	}
	if len(bad) > 0 {
		rd := filepath.Join(verif, "replay")
		os.MkdirAll(rd, 0755)
		for i, f := range bad {
			if i >= 5 {
				break
			}
			path := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", p.ID, f.Workload, f.Index))
			b, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(path, b, 0644)
			m := f.Msg
			if len(m) > 1500 {
				m = m[:1500] + "..."
			}
			fmt.Printf("%s in %s/%d: %s\n", f.Kind, f.Workload, f.Index, m)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		return 1
	}
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, harnessErr)
		return 2
	}
	if atomic.LoadInt32(&stop) == 1 && inconclusive == 0 {
		fmt.Fprintln(os.Stderr, "a worker was ended from outside; no verdict")
		return 2
	}
	if only == "" {
		for _, k := range p.Need {
			if counts[k] == 0 {
				fmt.Fprintf(os.Stderr, "observed nothing for %q; no verdict\n", k)
				return 2
			}
		}
	}
	var ks []string
	for k, v := range counts {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	fmt.Printf("property %s held: %d cases, %d distinct non-trivial, %.1fs; %s\n", p.ID, evals, len(sigs), wall, strings.Join(ks, " "))
	return 0
}

func grepRace(path string) string {
	b, _ := os.ReadFile(path)
	s := string(b)
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return s
	}
	s = s[i:]
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}
