package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type entryInfo struct {
	name string
	doc  string
}

// findEntries locates the harness package of a property and its entry functions
// (exported functions named <property>_...).
func findEntries(verif, prop string) (pkg string, es []entryInfo, err error) {
	dirs, err := os.ReadDir(filepath.Join(verif, "harness"))
	if err != nil {
		return "", nil, err
	}
	for _, d := range dirs {
		if !d.IsDir() || d.Name() == "inpkg" {
			continue
		}
		fs := token.NewFileSet()
		ps, err := parser.ParseDir(fs, filepath.Join(verif, "harness", d.Name()), nil, parser.ParseComments)
		if err != nil {
			return "", nil, err
		}
		for _, p := range ps {
			for _, f := range p.Files {
				for _, dc := range f.Decls {
					fd, ok := dc.(*ast.FuncDecl)
					if ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, prop+"_") {
						pkg = d.Name()
						es = append(es, entryInfo{fd.Name.Name, strings.Join(strings.Fields(fd.Doc.Text()), " ")})
					}
				}
			}
		}
	}
	if pkg == "" {
		return "", nil, fmt.Errorf("no harness for %s", prop)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].name < es[j].name })
	return pkg, es, nil
}

type violation struct {
	Property string            `json:"property"`
	Entry    string            `json:"entry"`
	Kind     string            `json:"kind"`
	Message  string            `json:"message"`
	Where    string            `json:"where,omitempty"`
	Vals     map[string]uint64 `json:"inputs"`
	Text     map[string]string `json:"inputs_text"`
	Tier     int               `json:"tier"`
	Mode     string            `json:"replay_mode"`
	Iters    int               `json:"iterations"`
	Seed     int64             `json:"seed"`
	CCall    *CCall            `json:"c_call,omitempty"`
	Native   string            `json:"native_result"`
	Output   string            `json:"native_output"`
	Cmd      string            `json:"replay_cmd"`
}

type entryReport struct {
	Entry        string         `json:"entry"`
	Bounds       string         `json:"bounds"`
	Paths        int            `json:"paths"`
	Completed    int            `json:"paths_completed"`
	Infeasible   int            `json:"paths_infeasible"`
	Decisions    int            `json:"decisions"`
	MaxDecisions int            `json:"longest_path_decisions"`
	Steps        int            `json:"instructions_executed"`
	Exhausted    bool           `json:"all_paths_within_bounds_explored"`
	WallS        float64        `json:"wall_s"`
	Covers       map[string]int `json:"cover_points"`
	Reductions   []string       `json:"reductions,omitempty"`
	Undecided    map[string]int `json:"undecided_paths,omitempty"`
	Notes        map[string]int `json:"solver_notes,omitempty"`
	Candidates   int            `json:"counterexamples_found"`
	Unconfirmed  []string       `json:"counterexamples_not_reproduced,omitempty"`
	Validated    int            `json:"paths_replayed_natively"`
	Mismatch     []string       `json:"native_mismatches,omitempty"`
	NativeFail   []string       `json:"native_errors,omitempty"`
	Racy         int            `json:"racy_instructions,omitempty"`
}

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check|replay|selftest ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	}
	os.Exit(2)
}

func newNative(repo, verif, prop string) (*Native, error) {
	pkg, es, err := findEntries(verif, prop)
	if err != nil {
		return nil, err
	}
	tmp, err := os.MkdirTemp("", "symgo-"+prop+"-")
	if err != nil {
		return nil, err
	}
	n := &Native{repo: repo, verif: verif, tmp: tmp, prop: prop, hpkg: pkg, bins: map[string]string{}, errs: map[string]error{}}
	for _, e := range es {
		n.entries = append(n.entries, e.name)
	}
	return n, nil
}

func replayMain(args []string) int {
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fl.String("repo", "/repo", "")
	verif := fl.String("verif", "/verif", "")
	fl.Parse(args)
	b, err := os.ReadFile(fl.Arg(0))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	n, err := newNative(*repo, *verif, v.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(n.tmp)
	if v.CCall != nil {
		out, hit := runCCall(n.tmp, v.CCall)
		fmt.Println(out)
		if hit {
			return 1
		}
		return 0
	}
	r := n.run(v.Entry, v.Vals, v.Mode, v.Iters, v.Tier, v.Seed, 60*time.Second)
	fmt.Printf("%s\nresult: %s\n", r.out, r.kind)
	if r.kind == "ok" || r.kind == "assume" || r.kind == "error" {
		return 0
	}
	return 1
}

func checkMain(args []string) int {
	start := time.Now()
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fl.String("repo", "/repo", "")
	verif := fl.String("verif", "/verif", "")
	tier := fl.String("tier", os.Getenv("VERIF_TIER"), "")
	only := fl.String("entry", "", "only this entry")
	budget := fl.Int("budget", 0, "exploration seconds")
	workers := fl.Int("workers", 0, "")
	z3bin := fl.String("z3", "", "")
	verbose := fl.Bool("v", false, "")
	noreplay := fl.Bool("noreplay", false, "")
	prop := args[0]
	fl.Parse(args[1:])
	if *tier != "thorough" {
		*tier = "quick"
	}
	tierN := 0
	if *tier == "thorough" {
		tierN = 1
	}
	if *budget == 0 {
		*budget = 50
		if tierN == 1 {
			*budget = 500
		}
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	for _, kv := range goEnv() {
		i := strings.IndexByte(kv, '=')
		os.Setenv(kv[:i], kv[i+1:])
	}
	c := &checker{repo: *repo, verif: *verif, prop: prop, tier: *tier, tierN: tierN, seed: envInt("VERIF_SEED", 1), start: start, verbose: *verbose}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	pkg, es, err := findEntries(*verif, prop)
	if err != nil {
		fmt.Println("symgo:", err)
		return 2
	}
	if *only != "" {
		var k []entryInfo
		for _, e := range es {
			if strings.Contains(e.name, *only) {
				k = append(k, e)
			}
		}
		es = k
	}
	c.entries = es
	n, err := newNative(*repo, *verif, prop)
	if err != nil {
		fmt.Println("symgo:", err)
		return 2
	}
	c.native = n
	defer os.RemoveAll(n.tmp)
	go n.build("plain")
	P, err := loadProgram(*repo, *verif, []string{repoModule + "/zzverif/" + pkg})
	if err != nil {
		fmt.Printf("UNDECIDED property=%s the code could not be loaded with the harness: %v\n", prop, err)
		c.writeEvidence(err.Error())
		return 2
	}
	P.tier = tierN
	hp := P.prog.ImportedPackage(repoModule + "/zzverif/" + pkg)
	bin := *z3bin
	if bin == "" {
		bin = "z3"
	}
	ws := make([]*Worker, *workers)
	for i := range ws {
		ws[i] = &Worker{id: i, prog: P, infos: map[*ssa.Function]*fnInfo{}, fnVals: map[*ssa.Function]*Closure{}, intr: map[*ssa.Function]intrinsicFn{}, fns: map[*ssa.Function]bool{}, notes: map[string]bool{}}
	}
	c.ws = ws
	left := time.Duration(*budget) * time.Second
	again := map[string]int{}
	races := map[string]map[ssa.Instruction]bool{} // found so far, by entry
	todo := append([]entryInfo(nil), es...)
	for i := 0; i < len(todo); i++ {
		e := todo[i]
		fn := hp.Func(e.name)
		if fn == nil {
			fmt.Println("symgo: missing entry", e.name)
			return 2
		}
		share := left / time.Duration(len(todo)-i)
		t0 := time.Now()
		dl := t0.Add(share)
		r := &Run{prog: P, entry: fn, solverBin: bin, solverTimeout: 10000,
			lim:      limits{steps: 3000000, depth: 400, decisions: 6000, concMax: 40},
			deadline: func() bool { return time.Now().After(dl) },
			notes:    map[string]int{}, reduces: map[string]bool{}, unsup: map[string]int{}, covers: map[string]int{}, findKeys: map[string]int{}, racy: map[ssa.Instruction]bool{}, maxFinds: 24}
		pre := c.early(e, r, *noreplay)
		for in := range races[e.name] {
			r.racy[in] = true
		}
		races[e.name] = r.racy
		r.Explore(ws)
		c.pre = pre()
		rep := c.report(e, r, time.Since(t0))
		if *verbose {
			c.printReport(rep, r)
		}
		if !*noreplay {
			c.confirm(e, r, rep)
		}
		for f := range r.cused {
			c.cfns = append(c.cfns, f)
		}
		left -= time.Since(t0)
		if at, second := again[e.name]; second {
			// the longer exploration replaces the first
			c.reps[at] = rep
		} else {
			c.reps = append(c.reps, rep)
			if r.timedOut && left > 2*share {
				again[e.name] = len(c.reps) - 1
				todo = append(todo, e)
			}
		}
		if left < 2*time.Second {
			left = 2 * time.Second
		}
		if len(c.viol) > 0 {
			break
		}
	}
	for _, w := range ws {
		if w.solver != nil {
			w.solver.Close()
		}
	}
	return c.finish()
}

type checker struct {
	repo, verif, prop, tier string
	tierN                   int
	seed                    int64
	start                   time.Time
	verbose                 bool
	entries                 []entryInfo
	native                  *Native
	ws                      []*Worker
	reps                    []*entryReport
	viol                    []violation
	known                   []string
	pre                     map[int]*outcomeOf // counterexamples replayed during the exploration
	samples                 []interface{}
	cfns                    []string // C functions executed
}

func (c *checker) report(e entryInfo, r *Run, d time.Duration) *entryReport {
	rep := &entryReport{Entry: e.name, Bounds: e.doc, Paths: r.stats.paths, Completed: r.stats.ok, Infeasible: r.stats.infeasible, Decisions: r.stats.decisions,
		MaxDecisions: r.stats.maxDec, Steps: r.stats.steps, WallS: d.Seconds(), Covers: r.covers, Undecided: r.unsup, Notes: r.notes, Racy: len(r.racy)}
	rep.Exhausted = !r.timedOut && !r.stop && len(r.unsup) == 0 && len(r.notes) == 0
	for k := range r.reduces {
		rep.Reductions = append(rep.Reductions, k)
	}
	sort.Strings(rep.Reductions)
	for _, n := range r.findKeys {
		rep.Candidates += n
	}
	return rep
}

func (c *checker) printReport(rep *entryReport, r *Run) {
	fmt.Printf("%-34s paths=%d ok=%d infeas=%d dec=%d maxdec=%d steps=%d exhausted=%v %.1fs racy=%d\n", rep.Entry, rep.Paths, rep.Completed, rep.Infeasible, rep.Decisions, rep.MaxDecisions, rep.Steps, rep.Exhausted, rep.WallS, rep.Racy)
	for _, k := range sortedKeys(r.unsup) {
		fmt.Println("   undecided:", r.unsup[k], clip(k, 1500))
	}
	for _, k := range sortedKeys(r.notes) {
		fmt.Println("   note:", r.notes[k], k)
	}
	for _, k := range rep.Reductions {
		fmt.Println("   reduction:", k)
	}
	for _, k := range sortedKeys(r.findKeys) {
		fmt.Println("   candidate:", r.findKeys[k], k)
	}
	if len(r.covers) > 0 {
		fmt.Println("   covers:", r.covers)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// inputsText shows byte arrays as strings.
func inputsText(vals map[string]uint64) map[string]string {
	out := map[string]string{}
	strs := map[string]map[int]byte{}
	for k, v := range vals {
		if i := strings.LastIndexByte(k, '['); i > 0 && strings.HasSuffix(k, "]") {
			if n, err := strconv.Atoi(k[i+1 : len(k)-1]); err == nil {
				if strs[k[:i]] == nil {
					strs[k[:i]] = map[int]byte{}
				}
				strs[k[:i]][n] = byte(v)
				continue
			}
		}
		out[k] = fmt.Sprint(int64(v))
	}
	for k, m := range strs {
		b := make([]byte, len(m))
		for i := range b {
			b[i] = m[i]
		}
		out[k] = strconv.Quote(string(b))
	}
	return out
}

func hasUninit(m map[string]uint64) bool {
	for k := range m {
		if strings.HasPrefix(k, "uninit") || strings.HasPrefix(k, "undef") {
			return true
		}
	}
	return false
}

func bad(k string) bool { return k == "assert" || k == "crash" || k == "alloc" || k == "hang" }

type outcomeOf struct {
	res nativeResult
	yl  string
	it  int
}

// early replays counterexamples while the exploration is still going on and ends
// it once one of them is confirmed.
func (c *checker) early(e entryInfo, r *Run, off bool) func() map[int]*outcomeOf {
	type cand struct {
		i int
		f finding
	}
	res := map[int]*outcomeOf{}
	if off {
		return func() map[int]*outcomeOf { return res }
	}
	ch := make(chan cand, 1000)
	r.onFind = func(i int, f finding) {
		select {
		case ch <- cand{i, f}:
		default:
		}
	}
	end := make(chan struct{})
	var wg sync.WaitGroup
	var mu, one sync.Mutex
	tried := map[string]int{}
	for k := 0; k < 3; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-end:
					return
				case x := <-ch:
					if r.stop {
						continue
					}
					conc := r.concurrent
					if conc {
						one.Lock() // these use the whole machine
						if r.stop || tried[x.f.kind+x.f.msg] > 1 {
							one.Unlock()
							continue
						}
						tried[x.f.kind+x.f.msg]++
					}
					o := c.replay(e, x.f, conc)
					if conc {
						one.Unlock()
					}
					mu.Lock()
					res[x.i] = o
					mu.Unlock()
					if bad(o.res.kind) && c.knownMatch(c.mkViolation(e, x.f, o)) == "" {
						r.mu.Lock()
						r.stop = true
						r.mu.Unlock()
						r.cond.Broadcast()
					}
				}
			}
		}()
	}
	return func() map[int]*outcomeOf { close(end); wg.Wait(); return res }
}

// replay runs the real code under the model of a counterexample.
func (c *checker) replay(e entryInfo, f finding, concurrent bool) *outcomeOf {
	o := &outcomeOf{yl: "plain", it: 1}
	if _, err := c.native.build("plain"); err != nil {
		o.res = nativeResult{kind: "error", out: err.Error()}
		return o
	}
	if f.ccall != nil {
		d, err := os.MkdirTemp(c.native.tmp, "ccall")
		if err == nil {
			out, hit := runCCall(d, f.ccall)
			o.yl = "ccall"
			o.res = nativeResult{kind: "ok", out: out}
			if hit {
				o.res.kind = "crash"
			}
			os.RemoveAll(d)
		}
		return o
	}
	if concurrent {
		o.yl, o.it = "yield", 1500
		o.res = c.native.run(e.name, f.model, "yield", o.it, c.tierN, c.seed, 60*time.Second)
		if !bad(o.res.kind) {
			o.yl = "plain"
			o.it = 20000
			o.res = c.native.run(e.name, f.model, "plain", o.it, c.tierN, c.seed, 40*time.Second)
		}
		if o.res.kind == "hang" && !strings.Contains(o.res.out, "ZZHANG") {
			o.res.kind = "ok" // ran out of time, not stuck
		}
		return o
	}
	o.res = c.native.run(e.name, f.model, "plain", 1, c.tierN, c.seed, 12*time.Second)
	if o.res.kind == "hang" {
		// make sure it is not just a slow machine
		o.res = c.native.run(e.name, f.model, "plain", 1, c.tierN, c.seed, 30*time.Second)
	}
	if !bad(o.res.kind) && f.overlap {
		// what such a copy does depends on the C library: the sanitizer tells
		if r := c.native.run(e.name, f.model, "asan", 1, c.tierN, c.seed, 30*time.Second); bad(r.kind) && strings.Contains(r.out, "AddressSanitizer") {
			o.res, o.yl = r, "asan"
		}
	}
	if !bad(o.res.kind) && hasUninit(f.model) {
		for _, m := range []string{"zero", "pattern"} {
			if r := c.native.run(e.name, f.model, m, 1, c.tierN, c.seed, 12*time.Second); bad(r.kind) {
				o.res, o.yl = r, m
				break
			}
		}
	}
	return o
}

// confirm replays counterexamples and samples of completed paths natively.
func (c *checker) confirm(e entryInfo, r *Run, rep *entryReport) {
	concurrent := r.concurrent
	type job struct {
		f   finding
		s   *sample
		o   *outcomeOf
		res nativeResult
	}
	var jobs []*job
	settled := false
	for i := range r.finds {
		if o := c.pre[i]; o != nil {
			settled = settled || bad(o.res.kind)
			jobs = append(jobs, &job{f: r.finds[i], o: o})
		}
	}
	for i := range r.finds {
		if c.pre[i] == nil && !settled {
			jobs = append(jobs, &job{f: r.finds[i]})
		}
	}
	ns := 10
	if c.tierN == 1 {
		ns = 40
	}
	rng := rand.New(rand.NewSource(c.seed))
	perm := rng.Perm(len(r.samples))
	for i := 0; i < ns && i < len(perm); i++ {
		jobs = append(jobs, &job{s: &r.samples[perm[i]]})
	}
	if len(jobs) == 0 {
		return
	}
	if _, err := c.native.build("plain"); err != nil {
		rep.NativeFail = append(rep.NativeFail, err.Error())
		return
	}
	sem := make(chan struct{}, 6)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if j.s != nil {
				j.res = c.native.run(e.name, j.s.model, "plain", 1, c.tierN, c.seed, 30*time.Second)
			} else if j.o == nil && !concurrent {
				j.o = c.replay(e, j.f, false)
			}
		}(j)
	}
	wg.Wait()
	seen := map[string]bool{}
	for _, j := range jobs {
		if j.s == nil {
			if j.o == nil { // of a concurrent entry
				key := j.f.kind + "|" + j.f.msg
				if seen[key] || len(c.viol) > 0 || len(seen) > 3 {
					continue
				}
				seen[key] = true
				j.o = c.replay(e, j.f, true)
			}
			if bad(j.o.res.kind) {
				c.addViolation(e, j.f, j.o)
			} else {
				rep.Unconfirmed = append(rep.Unconfirmed, j.f.kind+": "+clip(j.f.msg, 200)+" -> native "+j.o.res.kind+" "+clip(fmt.Sprint(inputsText(j.f.model)), 300))
				if c.verbose {
					fmt.Println("   UNCONFIRMED", j.f.kind, j.f.msg, "native:", j.o.res.kind, clip(j.o.res.out, 300), inputsText(j.f.model))
					fmt.Println(j.f.where)
				}
			}
			continue
		}
		switch {
		case bad(j.res.kind) && !concurrent:
			if j.res.kind == "hang" {
				again := c.native.run(e.name, j.s.model, "plain", 1, c.tierN, c.seed, 60*time.Second)
				if again.kind != "hang" {
					continue
				}
			}
			c.addViolation(e, finding{kind: "native-" + j.res.kind, msg: "a completed path's model fails natively", model: j.s.model}, &outcomeOf{j.res, "plain", 1})
		case bad(j.res.kind) && j.res.kind != "hang":
			c.addViolation(e, finding{kind: "native-" + j.res.kind, msg: "a completed path's model fails natively", model: j.s.model}, &outcomeOf{j.res, "plain", 1})
		case j.res.kind != "ok":
			rep.NativeFail = append(rep.NativeFail, clip(j.res.kind+": "+j.res.out, 300))
		default:
			if !concurrent {
				if d := diffObs(j.s.obs, j.res.obs); d != "" {
					rep.Mismatch = append(rep.Mismatch, clip(d, 400)+" inputs "+clip(fmt.Sprint(inputsText(j.s.model)), 300))
					if c.verbose {
						fmt.Println("   MISMATCH", d, inputsText(j.s.model))
					}
					continue
				}
			}
			rep.Validated++
			if len(c.samples) < 12 {
				c.samples = append(c.samples, map[string]interface{}{"entry": e.name, "inputs": inputsText(j.s.model), "observed": j.s.obs})
			}
		}
	}
	if c.verbose && len(rep.NativeFail) > 0 {
		fmt.Println("   native failures:", rep.NativeFail)
	}
}

func diffObs(a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d observations symbolically, %d natively: %v / %v", len(a), len(b), a, b)
	}
	for i := range a {
		if a[i] != b[i] && !strings.Contains(a[i], "<float>") {
			return fmt.Sprintf("symbolic %q native %q", a[i], b[i])
		}
	}
	return ""
}

// knownMatch looks the failure up in the committed findings file.
func (c *checker) knownMatch(v violation) string {
	b, err := os.ReadFile(filepath.Join(c.verif, "KNOWN_FINDINGS"))
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+v.Property+" ") {
			continue
		}
		// known: property=ID entry=E input.NAME=VALUE ... -- description
		head, desc, _ := strings.Cut(l, " -- ")
		ok := true
		for _, f := range strings.Fields(head)[2:] {
			k, val, _ := strings.Cut(f, "=")
			switch {
			case k == "entry":
				ok = ok && val == v.Entry
			case k == "kind":
				ok = ok && val == v.Kind
			case strings.HasPrefix(k, "input."):
				ok = ok && v.Text[k[6:]] == val
			default:
				ok = false
			}
		}
		if ok {
			return desc
		}
	}
	return ""
}

func (c *checker) mkViolation(e entryInfo, f finding, o *outcomeOf) violation {
	return violation{Property: c.prop, Entry: e.name, Kind: f.kind, Message: f.msg, Where: f.where, Vals: f.model, Text: inputsText(f.model), Tier: c.tierN,
		Mode: o.yl, CCall: f.ccall, Iters: o.it, Seed: c.seed, Native: o.res.kind, Output: clip(o.res.out, 4000)}
}

func (c *checker) addViolation(e entryInfo, f finding, o *outcomeOf) {
	v := c.mkViolation(e, f, o)
	if d := c.knownMatch(v); d != "" {
		c.known = append(c.known, d)
		return
	}
	if len(c.viol) < 5 {
		c.viol = append(c.viol, v)
	}
}

func (c *checker) finish() int {
	code := 0
	seen := map[string]bool{}
	for _, k := range c.known {
		if !seen[k] {
			seen[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
		}
	}
	dir := filepath.Join(c.verif, "replays")
	if len(c.viol) > 0 {
		os.MkdirAll(dir, 0755)
	}
	for i := range c.viol {
		v := &c.viol[i]
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.prop, i+1))
		v.Cmd = fmt.Sprintf("bash %s/check.sh replay %s", c.verif, path)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("counterexample: %s: %s: %s; native run: %s %s\n", v.Entry, v.Kind, clip(v.Message, 300), v.Native, firstLine(v.Output, v.Native))
		fmt.Printf("  inputs: %s\n", clip(fmt.Sprint(v.Text), 600))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		code = 1
	}
	c.writeEvidence("")
	t := 0
	for _, r := range c.reps {
		t += r.Paths
	}
	if code == 0 {
		if debugForks {
			printForks()
		}
		fmt.Printf("%s: held on %d paths in %d entries (%.1f s)\n", c.prop, t, len(c.reps), time.Since(c.start).Seconds())
	}
	return code
}

func firstLine(s, kind string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "ZZASSERT") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "ZZALLOC") {
			return clip(l, 200)
		}
	}
	return ""
}

func (c *checker) writeEvidence(fail string) {
	cov := map[string]interface{}{}
	paths, decs, val, exh := 0, 0, 0, len(c.reps) == len(c.entries) && len(c.reps) > 0
	for _, r := range c.reps {
		paths += r.Completed
		decs += r.Decisions
		val += r.Validated
		exh = exh && r.Exhausted && len(r.Reductions) == 0
	}
	var q, sat, unsat, unk, hits int
	var st time.Duration
	fns := map[string]bool{}
	notes := map[string]bool{}
	for _, w := range c.ws {
		if w.solver != nil {
			q += w.solver.queries
			sat += w.solver.nsat
			unsat += w.solver.nunsat
			unk += w.solver.unknown
			hits += w.solver.hits
			st += w.solver.dur
		}
		for f := range w.fns {
			if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), repoModule) && !strings.Contains(f.Pkg.Pkg.Path(), "/zzverif/") {
				fns[strings.ReplaceAll(f.String(), repoModule, "xxcache")] = true
			}
		}
		for k := range w.notes {
			notes[k] = true
		}
	}
	for _, f := range c.cfns {
		fns["C: "+f] = true
	}
	samples := c.samples
	if samples == nil {
		samples = []interface{}{}
	}
	cov["states"] = paths
	cov["transitions"] = decs
	cov["traces_validated_against_impl"] = val
	cov["samples"] = samples
	cov["exhaustive"] = exh
	cov["explanation"] = "states = execution paths of the real code run to completion symbolically, each standing for all inputs that satisfy its path condition; transitions = branch, choice and scheduling decisions resolved (each branch by solver queries); traces_validated_against_impl = solver models of such paths replayed on the compiled code with equal observations"
	cov["entries"] = c.reps
	cov["functions_encoded"] = sortedKeys(fns)
	cov["solver"] = map[string]interface{}{"queries": q, "sat": sat, "unsat": unsat, "unknown": unk, "cache_hits": hits, "seconds_summed_over_workers": st.Seconds()}
	if len(notes) > 0 {
		cov["engine_notes"] = sortedKeys(notes)
	}
	if fail != "" {
		cov["not_decided"] = clip(fail, 2000)
	}
	if len(c.viol) > 0 {
		cov["violations"] = c.viol
	}
	ev := map[string]interface{}{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov, "violations": len(c.viol),
		"wall_s": time.Since(c.start).Seconds(),
		"assumptions": []string{
			"the engine's semantics of Go SSA and its models of sync, time, net.Dial and files agree with the Go runtime (checked on every run by replaying sampled models natively)",
			"bounds stated per entry; inputs outside them are not covered",
			"z3 answers are correct"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0644)
}
