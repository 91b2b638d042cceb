// Package nd holds the harness primitives. Under symbolic execution every
// function here is replaced by the engine (symgo); the bodies below are the
// native versions used to replay a solver model against the real code.
package nd

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var (
	mu       sync.Mutex
	vals     map[string]uint64
	names    map[string]int
	clock    int64
	tickers  []chan time.Time
	timers   []*vtimer
	dialHook func(network, addr string) (net.Conn, error)
	tmpDir   string
	tier     int
	alloc0   uint64
	allocMax uint64 = 64 << 20
	quiet    bool
	yields   int32
	yseed    int64
	rng      *rand.Rand
	rngMu    sync.Mutex
)

type vtimer struct {
	at   int64
	t    *time.Timer
	c    chan time.Time
	f    func()
	wake chan struct{}
}

type config struct {
	Vals  map[string]uint64
	Tmp   string
	Tier  int
	Iters int
	Seed  int64
}

// Main runs entry f under the assignment in the named file.
func Main(file string, f func()) {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		fmt.Println("ZZERR", err)
		os.Exit(45)
	}
	var c config
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Println("ZZERR", err)
		os.Exit(45)
	}
	vals, tmpDir, tier = c.Vals, c.Tmp, c.Tier
	n := c.Iters
	if n < 1 {
		n = 1
	}
	quiet = n > 1
	var ms runtime.MemStats
	for i := 0; i < n; i++ {
		mu.Lock()
		names, clock, tickers, timers, dialHook = map[string]int{}, 0, nil, nil, nil
		mu.Unlock()
		allocMax = 64 << 20
		atomic.StoreInt32(&yields, 0)
		rng = rand.New(rand.NewSource(c.Seed + int64(i)))
		if n > 1 {
			done := make(chan struct{})
			t := time.AfterFunc(20*time.Second, func() {
				fmt.Println("ZZHANG iteration", i)
				os.Exit(46)
			})
			go func() { f(); close(done) }()
			<-done
			t.Stop()
			continue
		}
		runtime.ReadMemStats(&ms)
		alloc0 = ms.TotalAlloc
		f()
		runtime.ReadMemStats(&ms)
		if d := ms.TotalAlloc - alloc0; d > allocMax {
			fmt.Println("ZZALLOC", d)
			os.Exit(44)
		}
	}
	fmt.Println("ZZDONE")
	os.Exit(0)
}

func input(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	name = uniq(name)
	return vals[name]
}

func uniq(name string) string {
	k := names[name]
	names[name]++
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

// Input values: any value of the type.
func Int(name string) int         { return int(input(name)) }
func Int64(name string) int64     { return int64(input(name)) }
func Uint64(name string) uint64   { return input(name) }
func Int32(name string) int32     { return int32(input(name)) }
func Uint32(name string) uint32   { return uint32(input(name)) }
func Int16(name string) int16     { return int16(input(name)) }
func Uint16(name string) uint16   { return uint16(input(name)) }
func Int8(name string) int8       { return int8(input(name)) }
func Byte(name string) byte       { return byte(input(name)) }
func Float64(name string) float64 { return math.Float64frombits(input(name)) }
func Bool(name string) bool       { return byte(input(name)) != 0 }

// Str is a string of exactly n arbitrary bytes.
func Str(name string, n int) string {
	mu.Lock()
	name = uniq(name)
	mu.Unlock()
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(input(fmt.Sprintf("%s[%d]", name, i)))
	}
	return string(b)
}

// Choice is any of 0..n-1, each explored as a separate case.
func Choice(name string, n int) int {
	if n <= 1 {
		mu.Lock()
		uniq(name)
		mu.Unlock()
		return 0
	}
	return int(input(name))
}

// Pick makes a value concrete (each possible value is a separate case).
func Pick(n int) int { return n }

// Assume restricts the explored executions.
func Assume(c bool) {
	if !c {
		fmt.Println("ZZASSUME")
		os.Exit(43)
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

// And and Or combine conditions without making separate cases of them.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

// Fail reports a violation.
func Fail(msg string) {
	fmt.Println("ZZASSERT", msg)
	os.Exit(42)
}

// Cover marks a point some execution must reach.
func Cover(label string) {}

// Advance moves the virtual clock and fires what becomes due.
func Advance(d time.Duration) {
	mu.Lock()
	clock += int64(d)
	var due, keep []*vtimer
	for _, t := range timers {
		if t.at <= clock {
			due = append(due, t)
		} else {
			keep = append(keep, t)
		}
	}
	timers = keep
	mu.Unlock()
	for _, t := range due {
		switch {
		case t.wake != nil:
			close(t.wake)
		case t.t != nil && !t.t.Stop():
		case t.f != nil:
			go t.f()
		default:
			select {
			case t.c <- TimeNow():
			default:
			}
		}
	}
}

// Tick fires every ticker once.
func Tick() {
	mu.Lock()
	ts := append([]chan time.Time(nil), tickers...)
	mu.Unlock()
	for _, c := range ts {
		select {
		case c <- TimeNow():
		default:
		}
	}
}

// Tickers is the number of tickers started so far.
func Tickers() int {
	mu.Lock()
	defer mu.Unlock()
	return len(tickers)
}

// Explore turns on exploration of goroutine interleavings with at most n
// preemptions (n < 0 turns it off).
func Explore(n int) {
	if n > 0 && quiet {
		atomic.StoreInt32(&yields, 1)
	} else {
		atomic.StoreInt32(&yields, 0)
	}
}

// Y is inserted between the statements of the code under test when a schedule
// is being reproduced.
func Y() {
	if atomic.LoadInt32(&yields) == 0 {
		return
	}
	rngMu.Lock()
	k := rng.Intn(16)
	rngMu.Unlock()
	switch {
	case k == 0:
		time.Sleep(100 * time.Microsecond)
	case k == 1:
		time.Sleep(20 * time.Microsecond)
	case k < 6:
		runtime.Gosched()
	}
}

// Yield is a point where another goroutine may run.
func Yield() { Y(); runtime.Gosched() }

var world sync.Mutex

// Lock and Unlock keep native runs from changing the state of the harness at the same
// time; symbolically that state changes between scheduling points only.
func Lock()   { world.Lock() }
func Unlock() { world.Unlock() }

// Quiesce waits until every other goroutine is blocked or has ended.
func Quiesce() {
	old := atomic.SwapInt32(&yields, 0)
	defer atomic.StoreInt32(&yields, old)
	calm := 0
	buf := make([]byte, 1<<20)
	for i := 0; ; i++ {
		if i < 20 {
			runtime.Gosched()
		}
		n := runtime.Stack(buf, true)
		busy := false
		for k, g := range strings.Split(string(buf[:n]), "\n\n") {
			if k == 0 {
				continue
			}
			h := g
			if j := strings.IndexByte(g, '\n'); j >= 0 {
				h = g[:j]
			}
			if strings.Contains(h, "[running") || strings.Contains(h, "[runnable") || strings.Contains(h, "[sleep") || strings.Contains(h, "[syscall") {
				busy = true
			}
		}
		if !busy {
			calm++
			if calm >= 2 {
				return
			}
		} else {
			calm = 0
		}
		time.Sleep(100 * time.Microsecond)
	}
}

// Observe records values that the native run must reproduce.
func Observe(label string, vs ...interface{}) {
	if quiet {
		return
	}
	var sb strings.Builder
	sb.WriteString("ZZOBS " + label)
	for _, v := range vs {
		sb.WriteByte(' ')
		switch x := v.(type) {
		case nil:
			sb.WriteString("nil")
		case error:
			sb.WriteString("\"error\"")
		case string:
			sb.WriteString(strconv.Quote(x))
		case float64:
			fmt.Fprintf(&sb, "f%016x", math.Float64bits(x))
		default:
			fmt.Fprint(&sb, x)
		}
	}
	fmt.Println(sb.String())
}

// SetDial sets what connecting does.
func SetDial(f func(network, addr string) (net.Conn, error)) { dialHook = f }

// AllocLimit bounds the memory the code may reserve.
func AllocLimit(n int) { allocMax = uint64(n) }

// MapOrder: iteration orders of maps with up to n entries are all explored.
func MapOrder(n int) {}

// MaxLen: symbolic lengths up to n are enumerated exactly.
func MaxLen(n int) {}

// Limit bounds the decisions of one execution.
func Limit(n int) {}

// Steps bounds the instructions of one execution.
func Steps(n int) {}

// Depth is the number of nested calls the engine follows; more is reported as recursion
// without end.
func Depth(n int) {}

// Size is the size used under the engine and the one used by the compiled program.
func Size(engine, native int) int { return native }

// ZeroLocals: uninitialised locals of C functions are zero instead of arbitrary.
func ZeroLocals() {}

// Tier is 0 for the quick check and 1 for the thorough one.
func Tier() int { return tier }

// TempPath names a scratch file.
func TempPath(name string) string { return filepath.Join(tmpDir, name) }

// WriteFile creates a scratch file.
func WriteFile(path, data string) {
	if err := ioutil.WriteFile(path, []byte(data), 0600); err != nil {
		fmt.Println("ZZERR", err)
		os.Exit(45)
	}
}

// ReadFile reads a scratch file.
func ReadFile(path string) (string, bool) {
	b, err := ioutil.ReadFile(path)
	return string(b), err == nil
}

// ---- stand-ins the replay build calls instead of package time and net ----

var epoch = time.Unix(1900000000, 0)

func TimeNow() time.Time {
	mu.Lock()
	defer mu.Unlock()
	return epoch.Add(time.Duration(clock))
}
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

const never = time.Duration(1 << 62)

func TimeNewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := time.NewTicker(never)
	c := make(chan time.Time, 1)
	t.C = c
	mu.Lock()
	tickers = append(tickers, c)
	mu.Unlock()
	return t
}
func TimeTick(d time.Duration) <-chan time.Time { return TimeNewTicker(d).C }

func addTimer(d time.Duration, v *vtimer) {
	mu.Lock()
	v.at = clock + int64(d)
	if d > 0 && v.at < clock {
		v.at = math.MaxInt64
	}
	timers = append(timers, v)
	mu.Unlock()
	if d <= 0 {
		Advance(0)
	}
}
func TimeNewTimer(d time.Duration) *time.Timer {
	t := time.NewTimer(never)
	c := make(chan time.Time, 1)
	t.C = c
	addTimer(d, &vtimer{t: t, c: c})
	return t
}
func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }
func TimeAfterFunc(d time.Duration, f func()) *time.Timer {
	t := time.AfterFunc(never, func() {})
	addTimer(d, &vtimer{t: t, f: f})
	return t
}
func TimeSleep(d time.Duration) {
	if d <= 0 {
		runtime.Gosched()
		return
	}
	w := make(chan struct{})
	addTimer(d, &vtimer{wake: w})
	<-w
}

func NetDial(network, addr string) (net.Conn, error) {
	if dialHook == nil {
		return nil, errors.New("no dial hook")
	}
	return dialHook(network, addr)
}
func NetDialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return NetDial(network, addr)
}

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Cancel        <-chan struct{}
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return NetDial(network, addr) }
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	return NetDial(network, addr)
}

// LimitedRead stands in for (*io.LimitedReader).Read when the limit is symbolic: a
// limit beyond what is buffered acts like any other.
func LimitedRead(l *io.LimitedReader, p []byte) (n int, err error) {
	if l.N <= 0 {
		return 0, io.EOF
	}
	b, ok := l.R.(*bufio.Reader)
	if ok && len(p) > 0 {
		if b.Buffered() == 0 {
			if _, err := b.Peek(1); err != nil {
				return 0, err
			}
		}
		if k := b.Buffered(); k < len(p) && l.N >= int64(k) {
			p = p[:k]
		} else if int64(len(p)) > l.N {
			p = p[:l.N]
		}
	} else if int64(len(p)) > l.N {
		p = p[:l.N]
	}
	n, err = l.R.Read(p)
	l.N -= int64(n)
	return n, err
}
