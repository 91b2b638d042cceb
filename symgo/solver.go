package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

type Solver struct {
	bin     string
	tc      *TermCtx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inp     io.WriteCloser
	out     *bufio.Reader
	gen     int32
	cache   map[string]qres
	queries int
	hits    int
	unknown int
	nsat    int
	nunsat  int
	dur     time.Duration
	timeout int // ms
	err     string
	mu      sync.Mutex
	t0      time.Time // of the query under way
	second  int       // ms for the second attempt
	rescued int
	extra   []*exec.Cmd
	stopped bool
}

type qres struct {
	r Res
	m map[string]uint64
}

func NewSolver(bin string, tc *TermCtx, timeoutMs int) *Solver {
	return &Solver{bin: bin, tc: tc, cache: map[string]qres{}, timeout: 1500, second: timeoutMs}
}

func (s *Solver) start() {
	s.gen++
	args := []string{"-in"}
	s.cmd = exec.Command(s.bin, args...)
	s.inp, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(s.inp, 1<<16)
	s.out = bufio.NewReaderSize(o, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeout)
}

// Interrupt ends a query under way (called from another goroutine).
func (s *Solver) Interrupt() {
	s.mu.Lock()
	if s.cmd != nil && !s.t0.IsZero() {
		s.cmd.Process.Kill()
	}
	s.stopped = true
	for _, c := range s.extra {
		c.Process.Kill()
	}
	s.mu.Unlock()
}

func (s *Solver) Close() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.cmd != nil {
		s.inp.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Reset drops all terms (the caller replaces the context as well).
func (s *Solver) Reset(tc *TermCtx) {
	s.Close()
	s.tc = tc
	s.cache = map[string]qres{}
}

func (s *Solver) emit(t *Term) {
	if t.op == OConst || t.gen == s.gen {
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || f.t.gen == s.gen {
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		for f.i < 3 {
			switch f.i {
			case 0:
				ch = f.t.a
			case 1:
				ch = f.t.b
			case 2:
				ch = f.t.c
			}
			f.i++
			if ch != nil && ch.op != OConst && ch.gen != s.gen {
				break
			}
			ch = nil
		}
		if ch != nil {
			st = append(st, fr{ch, 0})
			continue
		}
		x := f.t
		x.gen = s.gen
		if x.op == OVar {
			fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", x.name, sortStr(x.w))
		} else {
			fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", x.id, sortStr(x.w), x.def())
		}
		st = st[:len(st)-1]
	}
}

// script is a self-contained SMT-LIB text of the conjunction of cs.
func (s *Solver) script(cs []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_BVFP)\n")
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		walk(t.a)
		walk(t.b)
		walk(t.c)
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const |%s| %s)\n", t.name, sortStr(t.w))
		} else {
			fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortStr(t.w), t.def())
		}
	}
	had := map[*Term]bool{}
	for _, c := range cs {
		if had[c] {
			continue
		}
		had[c] = true
		walk(c)
		fmt.Fprintf(&sb, "(assert %s)\n", c.ref())
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// again asks two other solvers, from scratch and side by side, about a query the
// first one gave up on. The first answer counts.
func (s *Solver) again(cs []*Term) (Res, map[string]uint64) {
	var vs []int32
	for _, c := range cs {
		vs = mergeVars(vs, c.vars)
	}
	byID := map[int32]*Term{}
	for _, v := range s.tc.vars {
		byID[v.id] = v
	}
	txt := s.script(cs)
	var names []*Term
	if len(vs) > 0 {
		txt += "(get-value ("
		for _, v := range vs {
			names = append(names, byID[v])
			txt += byID[v].ref() + " "
		}
		txt += "))\n"
	}
	type answer struct {
		r Res
		m map[string]uint64
	}
	runs := [][]string{{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s.second), "-"}, {"z3-new", "-in", fmt.Sprintf("-T:%d", (s.second+999)/1000)}}
	ch := make(chan answer, len(runs))
	var cmds []*exec.Cmd
	s.mu.Lock()
	if s.stopped {
		s.mu.Unlock()
		return Unknown, nil
	}
	started := 0
	for _, a := range runs {
		c := exec.Command(a[0], a[1:]...)
		c.Stdin = strings.NewReader(txt)
		var out strings.Builder
		c.Stdout = &out
		if c.Start() != nil {
			continue
		}
		started++
		cmds = append(cmds, c)
		go func() {
			c.Wait()
			o := strings.TrimSpace(out.String())
			var x answer
			x.r = Unknown
			switch {
			case strings.HasPrefix(o, "unsat"):
				x.r = Unsat
			case strings.HasPrefix(o, "sat"):
				x.m = map[string]uint64{}
				if len(names) == 0 || parseValues(strings.TrimSpace(o[3:]), names, x.m) {
					x.r = Sat
				}
			}
			ch <- x
		}()
	}
	s.extra = cmds
	s.mu.Unlock()
	kill := time.AfterFunc(time.Duration(s.second)*time.Millisecond+2*time.Second, func() {
		for _, c := range cmds {
			c.Process.Kill()
		}
	})
	defer kill.Stop()
	res := answer{r: Unknown}
	for i := 0; i < started && res.r == Unknown; i++ {
		res = <-ch
	}
	for _, c := range cmds {
		c.Process.Kill()
	}
	s.mu.Lock()
	s.extra = nil
	s.mu.Unlock()
	return res.r, res.m
}

// Check decides the conjunction of cs (already sliced). On Sat it returns values
// of all variables occurring in cs.
func (s *Solver) Check(cs []*Term) (Res, map[string]uint64) {
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = int(c.id)
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		s.hits++
		return r.r, r.m
	}
	t0 := time.Now()
	r, m := s.check(cs)
	if r == Unknown {
		if r, m = s.again(cs); r != Unknown {
			s.rescued++
		}
	}
	s.dur += time.Since(t0)
	if d := os.Getenv("SYMGO_DUMP"); d != "" && time.Since(t0) > time.Second {
		os.WriteFile(fmt.Sprintf("%s/q%d-%d-%s.smt2", d, t0.UnixNano(), time.Since(t0).Milliseconds(), []string{"unsat", "sat", "unk"}[int(r)]), []byte(s.script(cs)), 0644)
	}
	s.queries++
	switch r {
	case Sat:
		s.nsat++
	case Unsat:
		s.nunsat++
	default:
		s.unknown++
	}
	s.cache[key] = qres{r, m}
	return r, m
}

func (s *Solver) check(cs []*Term) (Res, map[string]uint64) {
	s.mu.Lock()
	if s.cmd == nil {
		s.start()
	}
	cmd := s.cmd
	s.t0 = time.Now()
	s.mu.Unlock()
	// the solver's own time limit does not cover every phase of its work
	kill := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+2*time.Second, func() { cmd.Process.Kill() })
	defer func() {
		kill.Stop()
		s.mu.Lock()
		s.t0 = time.Time{}
		s.mu.Unlock()
	}()
	var vs []int32
	for _, c := range cs {
		s.emit(c)
		vs = mergeVars(vs, c.vars)
	}
	s.in.WriteString("(push)\n")
	for _, c := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", c.ref())
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	if err != nil || strings.HasPrefix(line, "(error") {
		s.err = line
		if os.Getenv("SYMGO_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", line, err)
		}
		s.Close()
		return Unknown, nil
	}
	res := Unknown
	var m map[string]uint64
	switch line {
	case "sat":
		res = Sat
		m = map[string]uint64{}
		if len(vs) > 0 {
			s.in.WriteString("(get-value (")
			byID := map[int32]*Term{}
			for _, v := range s.tc.vars {
				byID[v.id] = v
			}
			var names []*Term
			for _, v := range vs {
				t := byID[v]
				names = append(names, t)
				s.in.WriteString(t.ref())
				s.in.WriteByte(' ')
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil || !parseValues(txt, names, m) {
				s.err = txt
				s.Close()
				return Unknown, nil
			}
		}
	case "unsat":
		res = Unsat
	}
	s.in.WriteString("(pop)\n")
	return res, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l, err
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	quoted := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		sb.WriteByte(b)
		switch {
		case b == '|':
			quoted = !quoted
		case quoted:
		case b == '(':
			depth++
		case b == ')':
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseValues(txt string, names []*Term, m map[string]uint64) bool {
	if strings.HasPrefix(txt, "(error") {
		return false
	}
	// ((|a| #x00) (|b| true) ...)
	i := 1
	n := 0
	for i < len(txt) {
		if txt[i] != '(' {
			i++
			continue
		}
		i++
		// name
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|') + i + 1
			i = j + 1
		} else {
			for txt[i] != ' ' {
				i++
			}
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		j := strings.IndexByte(txt[i:], ')') + i
		val := txt[i:j]
		i = j + 1
		if n >= len(names) {
			return false
		}
		var v uint64
		var err error
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, err = strconv.ParseUint(val[2:], 2, 64)
		default:
			return false
		}
		if err != nil {
			return false
		}
		m[names[n].name] = v
		n++
	}
	return n == len(names)
}
