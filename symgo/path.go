package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A decision is one resolved nondeterministic point of a path.
type decision struct {
	kind byte // 'b' branch, 'c' choice, 'v' value, 'a' assumption tried
	val  uint64
	yes  bool
}

type item struct {
	dec   []decision
	model map[string]uint64
}

type outcome struct {
	kind string // ok, infeasible, assert, panic, deadlock, hang, alloc, exit, unsupported, internal, limit
	msg  string
}

func classify(why string) *outcome {
	i := strings.IndexByte(why, ':')
	if i < 0 {
		return &outcome{kind: why}
	}
	return &outcome{kind: why[:i], msg: strings.TrimSpace(why[i+1:])}
}

type limits struct {
	steps     int
	depth     int
	decisions int
	concMax   int
}

type obs struct {
	label string
	v     string // rendered later under the model
	parts []Value
}

type Path struct {
	w      *Worker
	tc     *TermCtx
	prefix []decision
	trail  []decision
	pc     []*Term
	model  map[string]uint64
	memo   map[int32]*Term
	lim    limits
	steps  int
	newDec int

	noSteps bool
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool

	gs      []*G
	g       *G
	cur     *G
	wg      sync.WaitGroup
	dead    bool
	doneC   chan struct{}
	out     outcome
	explore bool
	preempt int
	track   bool
	shadow  map[interface{}]*shadow
	sched   []int

	permute    int
	allocLimit uint64
	allocated  uint64
	names      map[string]int
	inputs     []string // harness-visible nondeterminism in order
	fresh      int
	clock      *Term
	tickers    []*ticker
	timers     []*timerObj
	fs         map[string]*fileNode
	dial       Value
	obs        []obs
	covers     map[string]bool
	decs       map[*Term]*decInfo // integer term -> decimal digits it came from
	decOrder   []*Term
	pcset      map[*Term]bool // the conjuncts of the path condition
	ftext      map[*Term][]*Term // double -> the text it was parsed from
	fmtF       []fltApp
	strF       []fltApp
	reduced    map[string]bool
	ccall      *cCallSym
	czero      bool
	side       map[interface{}]interface{}
	onExit     []Value
}

type decInfo struct {
	neg bool
	sg  bool    // of a signed number
	dig []*Term // ASCII digits, most significant first
}

func (p *Path) unsupported(s string) {
	panic(abortPath{"unsupported: " + s})
}

func (p *Path) where() string {
	var sb strings.Builder
	if p.g == nil {
		return ""
	}
	n := 0
	for f := p.g.top; f != nil; f = f.caller {
		if n++; n > 25 {
			sb.WriteString("  ...\n")
			break
		}
		fmt.Fprintf(&sb, "  in %s\n", f.fn)
	}
	return sb.String()
}

func hostStack() string {
	s := string(debug.Stack())
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func (p *Path) eval(t *Term) *Term {
	return t.Eval(p.tc, p.model, p.memo)
}

// holds evaluates a boolean term under the current model.
func (p *Path) holds(t *Term) bool {
	r := p.eval(t)
	if r.op != OConst {
		panic("model evaluation not constant")
	}
	return r.k == 1
}

func (p *Path) setModel(m map[string]uint64) {
	p.model = m
	p.memo = map[int32]*Term{}
}

// slice returns the constraints of pc connected with c, plus c.
func (p *Path) slice(c *Term) []*Term {
	vars := map[int32]bool{}
	for _, v := range c.vars {
		vars[v] = true
	}
	in := make([]bool, len(p.pc))
	res := []*Term{c}
	for changed := true; changed; {
		changed = false
		for i, t := range p.pc {
			if in[i] {
				continue
			}
			hit := false
			for _, v := range t.vars {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				changed = true
				res = append(res, t)
				for _, v := range t.vars {
					vars[v] = true
				}
			}
		}
	}
	return res
}

// query asks whether pc and c are satisfiable together; on success it returns
// the current model updated with the solver's values.
func (p *Path) query(c *Term) (Res, map[string]uint64) {
	if c.IsFalse() {
		return Unsat, nil
	}
	if c.IsTrue() {
		return Sat, p.model
	}
	r, m := p.w.solver.Check(p.slice(c))
	if r == Unknown {
		p.checkStop()
	}
	if r != Sat {
		return r, nil
	}
	n := make(map[string]uint64, len(p.model)+len(m))
	for k, v := range p.model {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	return Sat, n
}

func (p *Path) addPC(c *Term) {
	if c.op == OAnd {
		p.addPC(c.a)
		p.addPC(c.b)
		return
	}
	if c.op == ONot && c.a.op == OOr {
		p.addPC(p.tc.Not(c.a.a))
		p.addPC(p.tc.Not(c.a.b))
		return
	}
	if !c.IsTrue() {
		p.pc = append(p.pc, c)
		p.pcset[c] = true
	}
}

// stated: 1 if the path condition holds c literally, 0 if it holds its negation.
func (p *Path) stated(c *Term) int {
	if p.pcset[c] {
		return 1
	}
	if c.op == OAnd && p.stated(c.a) == 1 && p.stated(c.b) == 1 {
		return 1
	}
	if p.pcset[p.tc.Not(c)] {
		return 0
	}
	return -1
}

func (p *Path) checkStop() {
	if p.w.run.stopped() {
		panic(abortPath{"limit: time"})
	}
}

func (p *Path) record(d decision) {
	p.trail = append(p.trail, d)
	p.newDec++
	if len(p.trail) > p.lim.decisions {
		panic(abortPath{"hang: decision limit"})
	}
}

// branch decides a symbolic condition, scheduling the other side if feasible.
func (p *Path) branch(c *Term) bool {
	if c.op == OConst {
		return c.k == 1
	}
	if p.dead {
		panic(abortPath{"dead"})
	}
	if s := p.stated(c); s >= 0 {
		return s == 1
	}
	n := len(p.trail)
	if n < len(p.prefix) {
		d := p.prefix[n]
		if d.kind != 'b' {
			panic(fmt.Sprintf("replay divergence: want %c got branch", d.kind))
		}
		p.trail = append(p.trail, d)
		if d.yes {
			p.addPC(c)
		} else {
			p.addPC(p.tc.Not(c))
		}
		return d.yes
	}
	p.checkStop()
	v := p.holds(c)
	this, other := c, p.tc.Not(c)
	if !v {
		this, other = other, this
	}
	r, m := p.query(other)
	switch r {
	case Sat:
		p.fork(decision{kind: 'b', yes: !v}, m)
	case Unknown:
		if os.Getenv("SYMGO_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "unknown:", p.fnName(), other.String())
		}
		p.w.run.note("solver gave no answer for one side of a branch in " + p.fnName())
	}
	p.record(decision{kind: 'b', yes: v})
	p.addPC(this)
	return v
}

var debugForks = os.Getenv("SYMGO_FORKS") != ""
var forkMu sync.Mutex
var forkAt = map[string]int{}

func printForks() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range forkAt {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i < 12 {
			fmt.Println(x.n, x.k)
		}
	}
}

func (p *Path) fnName() string {
	if p.g != nil && p.g.top != nil {
		return p.g.top.fn.String()
	}
	return "?"
}

func (p *Path) fork(d decision, m map[string]uint64) {
	if debugForks {
		k := string(d.kind) + " " + p.where()
		forkMu.Lock()
		forkAt[k]++
		forkMu.Unlock()
	}
	dec := make([]decision, len(p.trail)+1)
	copy(dec, p.trail)
	dec[len(p.trail)] = d
	p.w.run.push(item{dec, m})
}

// choice picks one of n alternatives (all explored).
func (p *Path) choice(n int) int {
	if n <= 1 {
		return 0
	}
	k := len(p.trail)
	if k < len(p.prefix) {
		d := p.prefix[k]
		if d.kind != 'c' {
			panic(fmt.Sprintf("replay divergence: want %c got choice", d.kind))
		}
		p.trail = append(p.trail, d)
		return int(d.val)
	}
	p.checkStop()
	for i := n - 1; i >= 1; i-- {
		p.fork(decision{kind: 'c', val: uint64(i)}, p.model)
	}
	p.record(decision{kind: 'c', val: 0})
	return 0
}

// assume adds a constraint; the path ends if it is infeasible.
func (p *Path) assume(c *Term) {
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		panic(abortPath{"infeasible"})
	}
	if len(p.trail) < len(p.prefix) {
		p.addPC(c)
		return
	}
	if !p.holds(c) {
		p.checkStop()
		r, m := p.query(c)
		switch r {
		case Unsat:
			panic(abortPath{"infeasible"})
		case Unknown:
			p.w.run.note("solver gave no answer for an assumption in " + p.fnName())
			panic(abortPath{"limit: solver"})
		}
		p.setModel(m)
	}
	p.addPC(c)
}

// tryAssume adds the constraint if feasible (used to pick extreme witnesses just
// before a path ends, so it is not recorded).
func (p *Path) tryAssume(c *Term) bool {
	if len(p.trail) < len(p.prefix) {
		return false
	}
	if p.holds(c) {
		p.addPC(c)
		return true
	}
	r, m := p.query(c)
	if r != Sat {
		return false
	}
	p.setModel(m)
	p.addPC(c)
	return true
}

// concretize enumerates the possible values of t (one path per value).
func (p *Path) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	for {
		n := len(p.trail)
		if n < len(p.prefix) {
			d := p.prefix[n]
			if d.kind != 'v' {
				panic(fmt.Sprintf("replay divergence: want %c got value", d.kind))
			}
			p.trail = append(p.trail, d)
			e := p.tc.Eq(t, p.tc.Const(t.w, d.val))
			if d.yes {
				p.addPC(e)
				return d.val
			}
			p.addPC(p.tc.Not(e))
			continue
		}
		p.checkStop()
		v := p.eval(t).k
		e := p.tc.Eq(t, p.tc.Const(t.w, v))
		r, m := p.query(p.tc.Not(e))
		switch r {
		case Sat:
			p.fork(decision{kind: 'v', val: v, yes: false}, m)
		case Unknown:
			p.w.run.note("solver gave no answer while enumerating a value in " + p.fnName())
		}
		p.record(decision{kind: 'v', val: v, yes: true})
		p.addPC(e)
		return v
	}
}

// concretizeLen enumerates small lengths exactly and picks representatives of
// the larger ones (an under-approximation that is reported).
func (p *Path) concretizeLen(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	lim := uint64(p.lim.concMax)
	if p.branch(p.tc.Ule(t, p.tc.Const(t.w, lim))) {
		return p.concretize(t)
	}
	p.reduce(fmt.Sprintf("lengths above %d: representative values only", lim))
	lo := lim + 1
	for _, b := range []uint64{255, 65535, 1 << 20} {
		if b <= lim {
			continue
		}
		if p.branch(p.tc.Ule(t, p.tc.Const(t.w, b))) {
			break
		}
		lo = b + 1
	}
	_ = lo
	// one representative
	n := len(p.trail)
	if n < len(p.prefix) {
		d := p.prefix[n]
		p.trail = append(p.trail, d)
		p.addPC(p.tc.Eq(t, p.tc.Const(t.w, d.val)))
		return d.val
	}
	v := p.eval(t).k
	p.record(decision{kind: 'v', val: v, yes: true})
	p.addPC(p.tc.Eq(t, p.tc.Const(t.w, v)))
	return v
}

func (p *Path) reduce(s string) {
	p.reduced[s] = true
	p.w.run.reduce(s)
}

// freshVar makes an internal variable.
func (p *Path) freshVar(name string, w uint8) *Term {
	p.fresh++
	return p.tc.Var(fmt.Sprintf("%s!%d", name, p.fresh), w)
}

// input declares a harness input.
func (p *Path) input(name string, w uint8) *Term {
	k := p.names[name]
	p.names[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	p.inputs = append(p.inputs, name)
	return p.tc.Var(name, w)
}

// uniqueName for structured inputs (strings, choices).
func (p *Path) uniqueName(name string) string {
	k := p.names[name]
	p.names[name]++
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

// ---- worker and run ----

type intrinsicFn func(p *Path, g *G, caller *frame, fn *ssa.Function, args []Value) Value

type Worker struct {
	id         int
	run        *Run
	prog       *Program
	tc         *TermCtx
	solver     *Solver
	infos      map[*ssa.Function]*fnInfo
	fnVals     map[*ssa.Function]*Closure
	consts     map[*ssa.Const]Value
	stdGlobals map[*ssa.Global]*Value
	stdInit    map[*ssa.Package]bool
	intr       map[*ssa.Function]intrinsicFn
	fns        map[*ssa.Function]bool
	notes      map[string]bool
	paths      int
}

func (w *Worker) reset() {
	w.tc = NewTermCtx()
	if w.solver == nil {
		w.solver = NewSolver(w.run.solverBin, w.tc, w.run.solverTimeout)
	} else {
		w.solver.Reset(w.tc)
	}
	w.consts = map[*ssa.Const]Value{}
	w.stdGlobals = map[*ssa.Global]*Value{}
	w.stdInit = map[*ssa.Package]bool{}
}

func (w *Worker) noteFn(fn *ssa.Function) { w.fns[fn] = true }
func (w *Worker) note(s string) {
	if !w.notes[s] {
		w.notes[s] = true
		dbg("note:", s)
	}
}

type finding struct {
	kind, msg string
	model     map[string]uint64
	inputs    []string
	sched     []int
	where     string
	dec       int
	ccall     *CCall
	overlap   bool // the path copies overlapping memory with memcpy
}

type sample struct {
	model  map[string]uint64
	inputs []string
	obs    []string
	sched  []int
}

type Run struct {
	prog          *Program
	entry         *ssa.Function
	solverBin     string
	solverTimeout int
	lim           limits
	track         bool

	mu       sync.Mutex
	work     []item
	busy     int
	cond     *sync.Cond
	deadline func() bool
	stop     bool
	stats    struct {
		paths, ok, infeasible, decisions, steps int
		maxDec                                  int
	}
	notes      map[string]int
	reduces    map[string]bool
	unsup      map[string]int
	covers     map[string]int
	finds      []finding
	findKeys   map[string]int
	samples    []sample
	racy       map[ssa.Instruction]bool // found so far
	racyNow    map[ssa.Instruction]bool // scheduling points of the round under way
	racyAt     int                      // paths when the round's first new one was found
	newRacy    bool
	lastRound  bool
	maxFinds   int
	timedOut   bool
	concurrent bool
	tick       int
	cused      map[string]bool
	onFind     func(i int, f finding)
}

func (r *Run) isRacy(in ssa.Instruction) bool {
	return r.racyNow[in]
}

func (r *Run) addRacy(a, b ssa.Instruction) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, x := range []ssa.Instruction{a, b} {
		if x != nil && !r.racy[x] {
			if !r.newRacy {
				r.racyAt = r.stats.paths
			}
			r.racy[x] = true
			r.newRacy = true
		}
	}
}

func (r *Run) note(s string) {
	r.mu.Lock()
	r.notes[s]++
	r.mu.Unlock()
}

func (r *Run) cfuncs(s string) {
	r.mu.Lock()
	if r.cused == nil {
		r.cused = map[string]bool{}
	}
	r.cused[s] = true
	r.mu.Unlock()
}

func (r *Run) reduce(s string) {
	r.mu.Lock()
	r.reduces[s] = true
	r.mu.Unlock()
}

func (r *Run) push(it item) {
	r.mu.Lock()
	r.work = append(r.work, it)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) stopped() bool {
	if r.stop {
		return true
	}
	return false
}

func (r *Run) pop() (item, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return item{}, false
		}
		if r.deadline() {
			r.stop = true
			r.timedOut = true
			r.cond.Broadcast()
			return item{}, false
		}
		if r.newRacy && r.stats.paths-r.racyAt > 500 && !r.lastRound {
			// start again with the new scheduling points
			r.cond.Broadcast()
			return item{}, false
		}
		if n := len(r.work); n > 0 {
			i := n - 1
			// mostly depth first, with an occasional shallow item so that a
			// time-limited run is spread over the tree
			r.tick++
			if r.tick%8 == 0 {
				i = 0
			}
			it := r.work[i]
			if i == n-1 {
				r.work = r.work[:n-1]
			} else {
				r.work = append(r.work[:0], r.work[1:]...)
			}
			r.busy++
			return it, true
		}
		if r.busy == 0 {
			r.cond.Broadcast()
			return item{}, false
		}
		r.cond.Wait()
	}
}

func (r *Run) done() {
	r.mu.Lock()
	r.busy--
	r.mu.Unlock()
	r.cond.Broadcast()
}

// Explore runs the entry to completion or until the deadline.
func (r *Run) Explore(ws []*Worker) {
	r.cond = sync.NewCond(&r.mu)
	over := make(chan struct{})
	defer close(over)
	go func() {
		// the deadline also ends paths under way and solver calls
		for {
			select {
			case <-over:
				return
			case <-time.After(100 * time.Millisecond):
			}
			r.mu.Lock()
			if r.deadline() && !r.stop {
				r.stop, r.timedOut = true, true
			}
			st := r.stop
			r.mu.Unlock()
			if st {
				r.cond.Broadcast()
				for _, w := range ws {
					if w.solver != nil {
						w.solver.Interrupt()
					}
				}
			}
		}
	}()
	for round := 0; ; round++ {
		r.work = []item{{nil, map[string]uint64{}}}
		r.newRacy = false
		r.lastRound = round >= 30
		r.racyNow = map[ssa.Instruction]bool{}
		for k := range r.racy {
			r.racyNow[k] = true
		}
		r.unsup, r.notes = map[string]int{}, map[string]int{}
		var wg sync.WaitGroup
		for _, w := range ws {
			w.run = r
			w.reset()
			wg.Add(1)
			go func(w *Worker) {
				defer wg.Done()
				for {
					it, ok := r.pop()
					if !ok {
						return
					}
					w.runPath(it)
					r.done()
				}
			}(w)
		}
		wg.Wait()
		if r.lastRound && r.newRacy {
			r.note("places that race were still being found after 30 rounds")
		}
		if !r.newRacy || r.stop || r.lastRound {
			return
		}
		dbg("re-exploring with", len(r.racy), "racy instructions")
	}
}

func (w *Worker) runPath(it item) {
	if len(w.tc.tab) > 400000 {
		w.reset()
	}
	r := w.run
	p := &Path{w: w, tc: w.tc, prefix: it.dec, model: it.model, memo: map[int32]*Term{}, lim: r.lim,
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, doneC: make(chan struct{}),
		shadow: map[interface{}]*shadow{}, names: map[string]int{}, covers: map[string]bool{},
		fs: map[string]*fileNode{}, decs: map[*Term]*decInfo{}, ftext: map[*Term][]*Term{}, pcset: map[*Term]bool{}, reduced: map[string]bool{},
		side: map[interface{}]interface{}{}, allocLimit: 64 << 20, track: r.track, permute: 3}
	p.clock = w.tc.Const(64, 0)
	g0 := p.newG()
	p.g = g0
	p.startG(g0, func() {
		p.call(g0, nil, r.entry, nil, nil)
		panic(outcome{kind: "ok"})
	})
	p.cur = g0
	g0.resume <- struct{}{}
	<-p.doneC
	for _, g := range p.gs {
		close(g.resume)
	}
	p.wg.Wait()
	o := p.out
	w.paths++
	if os.Getenv("SYMGO_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "path %v %s %s steps=%d dec=%d\n", p.trail, o.kind, o.msg, p.steps, len(p.trail))
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.stats.paths++
	r.stats.decisions += p.newDec
	r.stats.steps += p.steps
	r.stats.maxDec = max(r.stats.maxDec, len(p.trail))
	switch o.kind {
	case "ok":
		r.stats.ok++
		for c := range p.covers {
			r.covers[c]++
		}
		if len(r.samples) < 400 {
			s := sample{model: p.fullModel(), inputs: p.inputs, sched: p.sched}
			for _, ob := range p.obs {
				s.obs = append(s.obs, p.renderObs(ob))
			}
			r.samples = append(r.samples, s)
		}
	case "infeasible":
		r.stats.infeasible++
	case "unsupported", "internal", "limit":
		r.unsup[o.kind+": "+o.msg]++
		if o.kind == "limit" {
			dbg("LIMIT", fmt.Sprint(o.msg, " ", p.where(), " ", p.fullModel()))
		}
		if o.kind == "internal" {
			dbg("INTERNAL", o.msg)
		}
	case "dead":
	default:
		key := o.kind + "|" + o.msg
		r.findKeys[key]++
		f := finding{kind: o.kind, msg: o.msg, model: p.fullModel(), inputs: p.inputs, sched: p.sched, where: p.where(), dec: len(p.trail), overlap: p.reduced[overlapNote]}
		if o.kind == "cmem" {
			f.ccall = p.concCall()
		}
		if r.findKeys[key] <= 6 {
			r.finds = append(r.finds, f)
			if r.onFind != nil {
				r.onFind(len(r.finds)-1, f)
			}
		}
		if len(r.finds) >= r.maxFinds {
			r.stop = true
			r.cond.Broadcast()
		}
	}
}

// fullModel restricts the model to the harness inputs.
func (p *Path) fullModel() map[string]uint64 {
	m := map[string]uint64{}
	for _, n := range p.inputs {
		if t, ok := p.tc.varTab[n]; ok {
			m[n] = p.model[t.name]
		}
	}
	for k, v := range p.side {
		if s, ok := k.(string); ok && strings.HasPrefix(s, "choice:") {
			m[s[7:]] = uint64(v.(int))
		}
	}
	return m
}

func (p *Path) renderObs(o obs) string {
	var sb strings.Builder
	sb.WriteString(o.label)
	for _, v := range o.parts {
		sb.WriteByte(' ')
		sb.WriteString(p.render(v))
	}
	return sb.String()
}

func (p *Path) render(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		switch y := x.v.(type) {
		case *Term:
			e := p.eval(y)
			if isFloat(x.t) {
				return fmt.Sprintf("f%016x", e.k)
			}
			if y.w == 0 {
				return fmt.Sprint(e.k == 1)
			}
			if isSigned(x.t) {
				return fmt.Sprint(sx(e.k, e.w))
			}
			return fmt.Sprint(e.k)
		case Str:
			return p.renderStr(y)
		}
		return "<" + x.t.String() + ">"
	case Str:
		return p.renderStr(x)
	}
	return fmt.Sprintf("<%T>", v)
}

func (p *Path) renderStr(s Str) string {
	if s.fl != nil {
		v := p.eval(s.fl.f).k
		switch {
		case s.fl.int && s.fl.sg:
			return strconv.Quote(strconv.FormatInt(int64(v), 10))
		case s.fl.int:
			return strconv.Quote(strconv.FormatUint(v, 10))
		}
		return strconv.Quote(strconv.FormatFloat(f64(v), s.fl.fmt, s.fl.prec, s.fl.bits))
	}
	if s.b == nil {
		return fmt.Sprintf("%q", s.s)
	}
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		b[i] = byte(p.eval(t).k)
	}
	return fmt.Sprintf("%q", string(b))
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
