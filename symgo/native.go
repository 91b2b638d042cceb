package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Native replay: the real code is compiled with the harness and run under a
// solver model. Calls of the clock and of net.Dial in the repository are
// redirected to the harness stand-ins by rewriting copies of its source files
// (through the build overlay; the files of /repo are not touched).

type Native struct {
	repo, verif, tmp string
	prop             string
	hpkg             string
	entries          []string
	mu               sync.Mutex
	bins             map[string]string
	errs             map[string]error
	n                int
}

var timeRepl = map[string]string{"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "NewTicker": "TimeNewTicker",
	"Tick": "TimeTick", "NewTimer": "TimeNewTimer", "After": "TimeAfter", "AfterFunc": "TimeAfterFunc", "Sleep": "TimeSleep"}
var netRepl = map[string]string{"Dial": "NetDial", "DialTimeout": "NetDialTimeout", "Dialer": "Dialer"}

type edit struct {
	off, end int
	text     string
}

func applyEdits(src []byte, es []edit) []byte {
	sort.SliceStable(es, func(i, j int) bool { return es[i].off < es[j].off })
	var out bytes.Buffer
	pos := 0
	for _, e := range es {
		if e.off < pos {
			continue
		}
		out.Write(src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(src[pos:])
	return out.Bytes()
}

// rewriteSource redirects clock and dial calls and, when yields is set, inserts
// scheduling points between statements.
func rewriteSource(name string, src []byte, yields bool) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	imp := map[string]string{}
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		n := filepath.Base(path)
		if im.Name != nil {
			n = im.Name.Name
		}
		if path == "time" || path == "net" {
			imp[n] = path
		}
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var es []edit
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		var r string
		switch imp[id.Name] {
		case "time":
			r = timeRepl[s.Sel.Name]
		case "net":
			r = netRepl[s.Sel.Name]
		}
		if r != "" {
			used[id.Name] = true
			es = append(es, edit{off(s.Pos()), off(s.End()), "zznd." + r})
		}
		return true
	})
	isTest := strings.HasSuffix(name, "_test.go")
	if yields && !isTest {
		pure := func(e ast.Expr) bool {
			ok := true
			ast.Inspect(e, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr, *ast.IndexExpr:
					ok = false
				}
				return ok
			})
			return ok
		}
		k := 0
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch x := s.(type) {
				case *ast.LabeledStmt, *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				case *ast.IncDecStmt:
					if _, ok := x.X.(*ast.SelectorExpr); ok && pure(x.X) {
						k++
						t := string(src[off(x.X.Pos()):off(x.X.End())])
						op := "+"
						if x.Tok == token.DEC {
							op = "-"
						}
						es = append(es, edit{off(s.Pos()), off(s.End()), fmt.Sprintf("zznd.Y(); zzt%d := %s; zznd.Y(); %s = zzt%d %s 1", k, t, t, k, op)})
						continue
					}
				case *ast.AssignStmt:
					if len(x.Lhs) == 1 && (x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN) {
						if _, ok := x.Lhs[0].(*ast.SelectorExpr); ok && pure(x.Lhs[0]) && pure(x.Rhs[0]) {
							k++
							t := string(src[off(x.Lhs[0].Pos()):off(x.Lhs[0].End())])
							r := string(src[off(x.Rhs[0].Pos()):off(x.Rhs[0].End())])
							es = append(es, edit{off(s.Pos()), off(s.End()), fmt.Sprintf("zznd.Y(); zzt%d := %s; zznd.Y(); %s = zzt%d %s (%s)", k, t, t, k, strings.TrimSuffix(x.Tok.String(), "="), r)})
							continue
						}
					}
				}
				es = append(es, edit{off(s.Pos()), off(s.Pos()), "zznd.Y(); "})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			}
			return true
		})
	}
	if len(es) == 0 {
		return src, nil
	}
	// a switch body is a block of clauses: no statements there
	es = append(es, edit{off(f.Name.End()), off(f.Name.End()), "; import zznd \"" + ndPkg + "\""})
	out := applyEdits(src, es)
	for n := range used {
		switch imp[n] {
		case "time":
			out = append(out, []byte("\nvar _ "+n+".Duration\n")...)
		case "net":
			out = append(out, []byte("\nvar _ "+n+".Addr\n")...)
		}
	}
	out = append(out, []byte("\nvar _ = zznd.Y\n")...)
	return out, nil
}

// build makes the replay binary: plain, yield (schedule search), asan (memory
// errors in C code), zero or pattern (initial contents of C locals).
func (n *Native) build(mode string) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.bins[mode]; ok {
		return b, n.errs[mode]
	}
	b, err := n.build1(mode)
	n.bins[mode], n.errs[mode] = b, err
	return b, err
}

func (n *Native) build1(mode string) (string, error) {
	ov, err := harnessOverlay(n.repo, n.verif, true)
	if err != nil {
		return "", err
	}
	// keep only the packages this harness needs
	for k := range ov {
		d := filepath.Dir(k)
		if strings.HasPrefix(d, filepath.Join(n.repo, "zzverif")) {
			b := filepath.Base(d)
			if b != "nd" && b != n.hpkg && b != "sup" {
				delete(ov, k)
			}
		}
	}
	tag := mode
	yields := mode == "yield"
	dir := filepath.Join(n.tmp, "src-"+tag)
	if err := os.MkdirAll(dir, 0700); err != nil {
		return "", err
	}
	k := 0
	err = filepath.Walk(n.repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := fi.Name(); strings.HasPrefix(b, ".") && path != n.repo || b == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if bytes.Contains(src, []byte(`import "C"`)) {
			return nil
		}
		out, err := rewriteSource(path, src, yields)
		if err != nil {
			return err
		}
		if !bytes.Equal(out, src) {
			k++
			dst := filepath.Join(dir, fmt.Sprintf("f%d.go", k))
			if err := os.WriteFile(dst, out, 0600); err != nil {
				return err
			}
			ov[path] = dst
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"fmt\"\n\t\"io/ioutil\"\n\t\"os\"\n\t\"github.com/sirupsen/logrus\"\n\t\"log\"\n")
	fmt.Fprintf(&sb, "\th \"%s/zzverif/%s\"\n\t\"%s\"\n)\n\nfunc main() {\n\tlogrus.SetOutput(ioutil.Discard)\n\tlog.SetOutput(ioutil.Discard)\n\tm := map[string]func(){\n", repoModule, n.hpkg, ndPkg)
	for _, e := range n.entries {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", e, e)
	}
	sb.WriteString("\t}\n\tf := m[os.Args[1]]\n\tif f == nil {\n\t\tfmt.Println(\"ZZERR no entry\")\n\t\tos.Exit(45)\n\t}\n\tnd.Main(os.Args[2], f)\n}\n")
	mainSrc := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mainSrc, []byte(sb.String()), 0600); err != nil {
		return "", err
	}
	ov[filepath.Join(n.repo, "zzverif", "zzmain", "main.go")] = mainSrc
	js, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, js, 0600); err != nil {
		return "", err
	}
	bin := filepath.Join(n.tmp, "replay-"+tag)
	args := []string{"build", "-overlay", ovf, "-o", bin}
	env := goEnv()
	switch mode {
	case "asan":
		args = append(args, "-asan")
	case "zero", "pattern":
		env = append(env, "CGO_CFLAGS=-g -O2 -ftrivial-auto-var-init="+mode)
	}
	cmd := exec.Command("go", append(args, "./zzverif/zzmain")...)
	cmd.Dir = n.repo
	cmd.Env = env
	if out, err := cmd.CombinedOutput(); err != nil {
		s := string(out)
		if len(s) > 2000 {
			s = s[:2000]
		}
		return "", fmt.Errorf("replay build: %v\n%s", err, s)
	}
	return bin, nil
}

type nativeResult struct {
	kind string // ok, assert, assume, alloc, crash, hang, error
	out  string
	obs  []string
}

// run executes the entry natively.
func (n *Native) run(entry string, vals map[string]uint64, mode string, iters int, tier int, seed int64, timeout time.Duration) nativeResult {
	bin, err := n.build(mode)
	if err != nil {
		return nativeResult{kind: "error", out: err.Error()}
	}
	n.mu.Lock()
	n.n++
	d := filepath.Join(n.tmp, fmt.Sprintf("run%d", n.n))
	n.mu.Unlock()
	if err := os.MkdirAll(d, 0700); err != nil {
		return nativeResult{kind: "error", out: err.Error()}
	}
	defer os.RemoveAll(d)
	js, _ := json.Marshal(map[string]interface{}{"Vals": vals, "Tmp": d, "Tier": tier, "Iters": iters, "Seed": seed})
	cf := filepath.Join(d, "in.json")
	os.WriteFile(cf, js, 0600)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	ulimit := "ulimit -v 50000000; "
	if mode == "asan" {
		ulimit = ""
	}
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", ulimit+"exec \"$@\"", "sh", bin, entry, cf)
	cmd.Dir = d
	cmd.Env = append(goEnv(), "GOMAXPROCS=8", "GOTRACEBACK=single", "ASAN_OPTIONS=detect_leaks=0")
	var buf limBuf
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.WaitDelay = time.Second
	err = cmd.Run()
	out := buf.String()
	r := nativeResult{out: out}
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "ZZOBS ") {
			r.obs = append(r.obs, l[6:])
		}
	}
	code := 0
	if cmd.ProcessState != nil {
		code = cmd.ProcessState.ExitCode()
	}
	switch {
	case ctx.Err() != nil:
		r.kind = "hang"
	case strings.Contains(out, "ZZERR") || code == 45:
		r.kind = "error"
	case code == 0 && strings.Contains(out, "ZZDONE"):
		r.kind = "ok"
	case code == 42:
		r.kind = "assert"
	case code == 43:
		r.kind = "assume"
	case code == 44:
		r.kind = "alloc"
	case code == 46:
		r.kind = "hang"
	case cmd.ProcessState == nil || err != nil && code < 0 && !cmd.ProcessState.Exited():
		r.kind = "error"
		r.out += "\n" + fmt.Sprint(err)
	default:
		r.kind = "crash"
	}
	return r
}

type limBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *limBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

func goEnv() []string {
	var e []string
	for _, s := range os.Environ() {
		if strings.HasPrefix(s, "GO") || strings.HasPrefix(s, "CGO_ENABLED") || strings.HasPrefix(s, "PATH=") || strings.HasPrefix(s, "HOME=") {
			continue
		}
		e = append(e, s)
	}
	root := "/opt/veriftools/go1.27.3"
	return append(e, "HOME=/root", "GOROOT="+root, "PATH="+root+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=1", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build")
}
