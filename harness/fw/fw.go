// Package fw is the monitor framework: PRNG determined case lists are executed
// in worker processes (shards); every case is journaled before it runs so that
// crashes, hangs and memory exhaustion are attributed to the case; oracles
// report violations with a replay file.
package fw

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Gen is one family of cases. Case i of a generator is fully determined by
// (seed, property, generator name, i).
type Gen struct {
	Name  string
	Quick int // number of cases in the quick tier
	Thor  int // number of cases in the thorough tier
	Run   func(t *T)
}

// Check decides one property.
type Check struct {
	ID          string
	Level       string // evidence level
	Rule        string // how cases are made / what is non-trivial
	Assumptions []string
	Gens        []Gen
	Shards      int      // 0: default
	QuickScale  int      // factor for the number of cases in the quick tier; 0: 4
	CPULimit    float64  // CPU seconds for one case before it counts as a hang
	MemLimit    uint64   // RLIMIT_AS in bytes; 0: default, 1: none
	MinNonTriv  int      // fewer non-trivial cases: inconclusive (exit 2)
	Need        []string // counters which must be non-zero for a conclusive run
	Exhaustive  bool
	Extra       func(dir string) []Violation // parent side post-processing (race logs)
	Env         []string
	Setup       func() // run once per worker
}

// cases is the number of cases of a generator.
func (c *Check) cases(g *Gen, thor bool) int {
	if thor {
		return g.Thor
	}
	scale := c.QuickScale
	if scale == 0 {
		scale = 4
	}
	return max(g.Quick, min(g.Quick*scale, g.Thor))
}

type Violation struct {
	Gen   string `json:"gen"`
	Idx   int    `json:"idx"`
	Seed  int64  `json:"seed"`
	Key   string `json:"key"`
	Msg   string `json:"msg"`
	Desc  string `json:"desc"`
	Stack string `json:"stack,omitempty"`
}

// T is handed to every case.
type T struct {
	*rand.Rand
	Gen    string
	Idx    int
	Thor   bool
	Replay bool
	w      *Worker
	desc   []func() string
	fails  []Violation
}

type stop struct{}

// Fork is t with its own source of randomness.
func (t *T) Fork(parts ...any) *T {
	f := *t
	f.Rand, f.desc = NewRand(parts...), nil
	return &f
}

// Detached is a T outside of any check.
func Detached(parts ...any) *T {
	return &T{Rand: NewRand(parts...), w: newWorker(&Check{}, 0, false)}
}

// Protect runs f until it ends, fails or skips; it returns the failures.
func (t *T) Protect(f func()) []Violation {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); !ok {
				panic(r)
			}
		}
	}()
	f()
	return t.w.violations
}

func Seed(parts ...any) [32]byte { return sha256.Sum256([]byte(fmt.Sprint(parts...))) }

func NewRand(parts ...any) *rand.Rand { return rand.New(rand.NewChaCha8(Seed(parts...))) }

// Note attaches (lazily rendered) context which is printed with a violation.
func (t *T) Note(format string, a ...any) {
	t.desc = append(t.desc, func() string { return fmt.Sprintf(format, a...) })
}

// Fail reports a violation and ends the case. key identifies the kind of failure.
func (t *T) Fail(key, format string, a ...any) {
	t.record(key, fmt.Sprintf(format, a...), "")
	panic(stop{})
}

// Skip ends the case.
func (t *T) Skip(why string) {
	t.Count(why, 1)
	panic(stop{})
}

// Err reports a violation and continues.
func (t *T) Err(key, format string, a ...any) {
	t.record(key, fmt.Sprintf(format, a...), "")
}

func (t *T) record(key, msg, stack string) {
	var d []string
	for _, f := range t.desc {
		func() {
			defer func() {
				if r := recover(); r != nil {
					d = append(d, fmt.Sprintf("<note panicked: %v>", r))
				}
			}()
			d = append(d, f())
		}()
	}
	v := Violation{Gen: t.Gen, Idx: t.Idx, Seed: t.w.Seed, Key: key, Msg: clip(msg, 4000), Desc: clip(strings.Join(d, "\n"), 12000), Stack: clip(stack, 6000)}
	t.w.mu.Lock()
	defer t.w.mu.Unlock()
	t.w.addViolation(v)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes clipped)", len(s)-n)
	}
	return s
}

// Count adds to a named observation counter.
func (t *T) Count(name string, n int) {
	t.w.mu.Lock()
	t.w.counters[name] += n
	t.w.mu.Unlock()
}

// Distinct registers a non-trivial case (or event) under its identity.
func (t *T) Distinct(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	t.w.mu.Lock()
	t.w.distinct[h.Sum64()] = struct{}{}
	t.w.mu.Unlock()
}

// Sample keeps a few written out cases for the evidence file.
func (t *T) Sample(format string, a ...any) {
	t.w.mu.Lock()
	defer t.w.mu.Unlock()
	if t.w.samplesPerGen[t.Gen] < 2 {
		t.w.samplesPerGen[t.Gen]++
		t.w.samples = append(t.w.samples, t.Gen+": "+clip(fmt.Sprintf(format, a...), 700))
	}
}

// Eval counts additional evaluations (oracle decisions) of this case.
func (t *T) Eval(n int) { atomic.AddInt64(&t.w.evals, int64(n)) }

// Chance is true with probability 1/n.
func (t *T) Chance(n int) bool { return t.IntN(n) == 0 }

// Pick returns a random element.
func Pick[E any](t *T, xs []E) E { return xs[t.IntN(len(xs))] }

// PickR is Pick with a plain rand.
func PickR[E any](r *rand.Rand, xs []E) E { return xs[r.IntN(len(xs))] }

// SortedKeys of a map with string keys.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Try runs f and returns a recovered panic value (nil if none) with its stack.
func Try(f func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				panic(r)
			}
			p, stack = r, string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// Allocated returns the bytes allocated by f (single goroutine use).
func Allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// ---------------------------------------------------------------- worker

type Worker struct {
	Check  *Check
	Seed   int64
	Thor   bool
	Shard  int
	Shards int

	mu            sync.Mutex
	counters      map[string]int
	distinct      map[uint64]struct{}
	samples       []string
	samplesPerGen map[string]int
	evals         int64
	cases         int64
	violations    []Violation
	perKey        map[string]int
	journal       *os.File
	vfile         *os.File
	caseNo        atomic.Int64
}

func newWorker(c *Check, seed int64, thor bool) *Worker {
	return &Worker{Check: c, Seed: seed, Thor: thor, Shards: 1,
		counters: map[string]int{}, distinct: map[uint64]struct{}{}, samplesPerGen: map[string]int{}, perKey: map[string]int{}}
}

func (w *Worker) addViolation(v Violation) {
	w.perKey[v.Key]++
	if w.perKey[v.Key] > 5 {
		return
	}
	w.violations = append(w.violations, v)
	if w.vfile != nil {
		writeJSONLine(w.vfile, v)
	}
}

func (w *Worker) runCase(g *Gen, gi, idx int, replay bool) {
	w.caseNo.Add(1)
	if w.journal != nil {
		var b [16]byte
		binary.LittleEndian.PutUint64(b[:], uint64(gi))
		binary.LittleEndian.PutUint64(b[8:], uint64(idx))
		_, _ = w.journal.WriteAt(b[:], 0)
	}
	t := &T{Rand: NewRand(w.Seed, "/", w.Check.ID, "/", g.Name, "/", idx), Gen: g.Name, Idx: idx, Thor: w.Thor, Replay: replay, w: w}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			st := string(debug.Stack())
			t.record("panic:"+PanicSite(st), fmt.Sprintf("panic: %v", r), st)
		}
	}()
	g.Run(t)
	atomic.AddInt64(&w.cases, 1)
}

// PanicSite extracts the innermost function of the library from a stack.
func PanicSite(st string) string {
	lines := strings.Split(st, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if seenPanic && strings.Contains(l, "vorlif/spreak") && strings.Contains(l, "(") && !strings.HasPrefix(l, "\t") {
			l = l[:strings.LastIndex(l, "(")]
			return l[strings.LastIndex(l, "/")+1:]
		}
	}
	return "unknown"
}

func CPUSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

const (
	exitHang     = 97
	exitDeadlock = 98
)

// watchdog: CPU time (not wall time) spent on one case decides "hang"; a
// process that uses no CPU for a long time while a case is open is "stuck".
func (w *Worker) watchdog() {
	lim := w.Check.CPULimit
	if lim == 0 {
		lim = 30
	}
	lastCase := int64(-1)
	cpu0, idle0 := 0.0, 0.0
	idleSince := time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		n, cpu := w.caseNo.Load(), CPUSeconds()
		if n != lastCase {
			lastCase, cpu0, idle0, idleSince = n, cpu, cpu, time.Now()
			continue
		}
		if cpu-idle0 > 0.5 {
			idle0, idleSince = cpu, time.Now()
		}
		if cpu-cpu0 > lim {
			dumpStacks("cpu hang")
			os.Exit(exitHang)
		}
		if time.Since(idleSince) > 90*time.Second {
			dumpStacks("no progress")
			os.Exit(exitDeadlock)
		}
	}
}

func dumpStacks(why string) {
	buf := make([]byte, 64<<10)
	n := runtime.Stack(buf, true)
	fmt.Fprintf(os.Stderr, "WATCHDOG %s\n%s\n", why, buf[:n])
}
