// Command mutate makes mutants of Go files, runs the repository's tests and
// then the given checks against each, and lists what became of it. A
// development aid: no check uses it.
//
//	mutate -n 40 -seed 1 -checks C01,C02 -pkgs ./internal/xo,. internal/xo/s.go ...
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

type mut struct {
	file     string
	from, to int
	text     string
	what     string
}

func mutants(path string) []mut {
	src, e := os.ReadFile(path)
	if e != nil {
		panic(e)
	}
	fs := token.NewFileSet()
	f, e := parser.ParseFile(fs, path, src, 0)
	if e != nil {
		panic(e)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	line := func(p token.Pos) int { return fs.Position(p).Line }
	var ms []mut
	add := func(a, b token.Pos, t, w string) {
		ms = append(ms, mut{path, off(a), off(b), t, fmt.Sprintf("%s:%d %s: %q -> %q", path, line(a), w, clip(string(src[off(a):off(b)])), clip(t))})
	}
	fn := ""
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
			if fn == "String" || fn == "readStats" || fn == "CheckWatches" || fn == "ReadStats" {
				return false
			}
		case *ast.BinaryExpr:
			alts := map[token.Token][]string{
				token.LSS: {"<=", "!="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
				token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
				token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
			}[x.Op]
			for _, a := range alts {
				ms = append(ms, mut{path, off(x.OpPos), off(x.OpPos) + len(x.Op.String()), a, fmt.Sprintf("%s:%d %s: %s -> %s", path, line(x.OpPos), fn, clip(string(src[off(x.Pos()):off(x.End())])), a)})
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				add(x.Pos(), x.End(), x.Value+"+1", fn)
				if x.Value != "0" {
					add(x.Pos(), x.End(), x.Value+"-1", fn)
				}
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", fn)
			add(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", fn)
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE && x.Label == nil {
				add(x.Pos(), x.End(), "break", fn)
			}
			if x.Tok == token.BREAK && x.Label == nil {
				add(x.Pos(), x.End(), "{}", fn)
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), x.X.Pos(), "", fn)
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				switch y := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
					add(s.Pos(), s.End(), "", fn+" delete")
				case *ast.AssignStmt:
					if y.Tok != token.DEFINE {
						if len(y.Lhs) == 1 {
							add(s.Pos(), s.End(), "_ = "+string(src[off(y.Rhs[0].Pos()):off(y.Rhs[0].End())]), fn+" delete")
						}
					}
				}
			}
		case *ast.CallExpr:
			if se, ok := x.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Not" && len(x.Args) == 0 {
				add(se.X.End(), x.End(), "", fn+" drop")
			}
		}
		return true
	})
	return ms
}

// swaps are mutants which mix things up: another name of the same function in
// place of one, two statements in the other order, two arguments likewise.
// Most do not compile; those which do not are passed over.
func swaps(path string) []mut {
	src, e := os.ReadFile(path)
	if e != nil {
		panic(e)
	}
	fs := token.NewFileSet()
	f, e := parser.ParseFile(fs, path, src, 0)
	if e != nil {
		panic(e)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	line := func(p token.Pos) int { return fs.Position(p).Line }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var ms []mut
	add := func(a, b token.Pos, t, w string) {
		ms = append(ms, mut{path, off(a), off(b), t, fmt.Sprintf("%s:%d %s: %q -> %q", path, line(a), w, clip(string(src[off(a):off(b)])), clip(t))})
	}
	r := rand.New(rand.NewSource(7))
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "String" {
			continue
		}
		fn := fd.Name.Name
		// places read, and fields of the same thing
		var uses []ast.Expr
		seen := map[string]bool{}
		var names []string
		note := func(x ast.Expr) {
			t := text(x)
			uses = append(uses, x)
			if !seen[t] {
				seen[t] = true
				names = append(names, t)
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SelectorExpr:
				if _, ok := x.X.(*ast.Ident); ok {
					note(x)
					return false
				}
			case *ast.CallExpr:
				for _, a := range x.Args {
					if len(x.Args) == 2 && a == x.Args[0] && text(a) != text(x.Args[1]) {
						add(a.Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(a), fn+" args")
					}
				}
			case *ast.Ident:
				if x.Name != "_" && x.Name != "nil" && x.Name != "true" && x.Name != "false" {
					note(x)
				}
			case *ast.BlockStmt:
				for i := 0; i+1 < len(x.List); i++ {
					a, b := x.List[i], x.List[i+1]
					switch b.(type) {
					case *ast.ReturnStmt, *ast.BranchStmt:
						continue
					}
					add(a.Pos(), b.End(), text(b)+"\n"+text(a), fn+" order")
				}
			}
			return true
		})
		for _, u := range uses {
			for _, i := range r.Perm(len(names)) {
				if t := names[i]; t != text(u) {
					add(u.Pos(), u.End(), t, fn+" name")
				}
			}
		}
	}
	return ms
}

func clip(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 70 {
		s = s[:70] + "…"
	}
	return s
}

// types tells whether a package still type checks with the text of one file
// changed, much faster than a build does.
type typer struct {
	fs  *token.FileSet
	imp types.Importer
}

func (t *typer) ok(file, text string) bool {
	var files []*ast.File
	es, _ := os.ReadDir(filepath.Dir(file))
	for _, e := range es {
		p := filepath.Join(filepath.Dir(file), e.Name())
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			continue
		}
		var src interface{}
		if e.Name() == filepath.Base(file) {
			src = text
		}
		f, err := parser.ParseFile(t.fs, p, src, 0)
		if err != nil {
			return false
		}
		files = append(files, f)
	}
	_, err := (&types.Config{Importer: t.imp}).Check("p", t.fs, files, nil)
	return err == nil
}

func run(dir string, limit time.Duration, env []string, name string, args ...string) (string, int) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	c.WaitDelay = 2 * time.Second
	b, e := c.CombinedOutput()
	if ctx.Err() != nil {
		return string(b), -2
	}
	if e != nil {
		return string(b), 1
	}
	return string(b), 0
}

func main() {
	n := flag.Int("n", 20, "")
	seed := flag.Int64("seed", 1, "")
	checks := flag.String("checks", "", "")
	pkgs := flag.String("pkgs", "./...", "")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	list := flag.Bool("list", false, "")
	skip := flag.String("skip", "", "leave alone lines which match")
	swap := flag.Bool("swap", false, "names, statements and arguments mixed up, in place of the usual")
	flag.Parse()
	kind := mutants
	if *swap {
		kind = swaps
	}
	var all []mut
	os.Chdir(*repo)
	for _, a := range flag.Args() {
		all = append(all, kind(a)...)
	}
	if *skip != "" {
		re := regexp.MustCompile(*skip)
		k := all[:0]
		for _, m := range all {
			src, _ := os.ReadFile(m.file)
			a := strings.LastIndex(string(src[:m.from]), "\n") + 1
			b := m.to + strings.Index(string(src[m.to:])+"\n", "\n")
			if !re.Match(src[a:b]) {
				k = append(k, m)
			}
		}
		all = k
	}
	r := rand.New(rand.NewSource(*seed))
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	fmt.Printf("# %d mutants possible\n", len(all))
	if *list {
		return
	}
	os.Setenv("CGO_ENABLED", "0")
	tmp, _ := os.MkdirTemp("", "mutate")
	defer os.RemoveAll(tmp)
	vd := filepath.Join(tmp, "v")
	os.Mkdir(vd, 0755)
	kf, _ := os.ReadFile(filepath.Join(*verif, "known-findings.txt"))
	os.WriteFile(filepath.Join(vd, "known-findings.txt"), kf, 0644)
	env := []string{"CGO_ENABLED=1", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GODEBUG=randautoseed=0", "TMPDIR=" + tmp}
	done, miss, hit, dead := 0, 0, 0, 0
	tfs := token.NewFileSet()
	ty := &typer{tfs, importer.ForCompiler(tfs, "source", nil)}
	for _, m := range all {
		if done >= *n {
			break
		}
		src, _ := os.ReadFile(m.file)
		t := string(src[:m.from]) + m.text + string(src[m.to:])
		if !ty.ok(m.file, t) {
			continue
		}
		mf := filepath.Join(tmp, "m.go")
		os.WriteFile(mf, []byte(t), 0644)
		abs, _ := filepath.Abs(m.file)
		ov := filepath.Join(tmp, "o.json")
		b, _ := json.Marshal(map[string]map[string]string{"Replace": {abs: mf}})
		os.WriteFile(ov, b, 0644)
		if _, rc := run(*repo, 300*time.Second, env, "go", "build", "-overlay", ov, "./..."); rc != 0 {
			continue
		}
		args := []string{"test", "-vet=off", "-count=1", "-timeout", "60s", "-skip", "^ExampleNewT$", "-overlay", ov}
		args = append(args, strings.Split(*pkgs, ",")...)
		if _, rc := run(*repo, 90*time.Second, env, "go", args...); rc != 0 {
			dead++
			continue
		}
		done++
		verdict := "MISSED"
		t0 := time.Now()
		built := map[string]bool{}
		for _, p := range strings.Split(*checks, ",") {
			race := ""
			switch p {
			case "C08", "C18", "C19", "C20", "C25":
				race = "-race"
			}
			bin := filepath.Join(tmp, "vh"+race)
			if !built[bin] {
				ba := []string{"build", "-overlay", ov, "-o", bin}
				if race != "" {
					ba = append(ba, race)
				}
				if o, rc := run(filepath.Join(*verif, "harness"), 300*time.Second, env, "go", append(ba, ".")...); rc != 0 {
					fmt.Println("harness build failed", o)
					break
				}
				built[bin] = true
			}
			ev := env
			if p == "C22" {
				vb := filepath.Join(tmp, "bin")
				os.MkdirAll(vb, 0755)
				run(*repo, 300*time.Second, env, "go", "build", "-overlay", ov, "-o", vb+"/", "./cmd/gini", "./cmd/bench", "./cmd/crispd")
				ev = append(append([]string{}, env...), "VERIF_BIN="+vb)
			}
			o, rc := run(vd, 900*time.Second, ev, bin, "check", "-prop", p, "-verif", vd)
			if rc != 0 {
				verdict = "caught " + p
				for _, l := range strings.Split(o, "\n") {
					if strings.Contains(l, "VIOLATION") {
						verdict += " ok"
						break
					}
				}
				if !strings.Contains(o, "VIOLATION") {
					verdict = "ODD " + p + " rc=" + fmt.Sprint(rc) + " " + clip(o)
				}
				break
			}
		}
		if strings.HasPrefix(verdict, "caught") {
			hit++
		} else {
			miss++
		}
		fmt.Printf("%s\t%s\t%.0fs\n", verdict, m.what, time.Since(t0).Seconds())
	}
	fmt.Printf("# %d killed by tests, %d caught, %d missed\n", dead, hit, miss)
}
