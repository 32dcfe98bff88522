//go:build go1.22

// Package verifkit is the monitor side of the harnesses: it counts what was
// observed, records violations with everything needed to replay them, guards
// operations against hanging, and writes one JSON report at the end.
// It imports nothing of the code under test.
package verifkit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Violation is one observed breach of the property.
type Violation struct {
	Key    string      `json:"key"`    // stable identity of the failing shape, used for known findings
	Detail string      `json:"detail"` // human readable
	Replay interface{} `json:"replay"` // witness: inputs/history
	Count  int         `json:"count"`
}

// K is the run context of one harness.
type K struct {
	ID   string
	Seed int64
	Tier string
	Rng  *rand.Rand // only for single-goroutine use; use Sub for others
	Args map[string]string

	mu         sync.Mutex
	evals      int
	distinct   map[uint64]struct{}
	samples    []interface{}
	counters   map[string]int64
	viol       map[string]*Violation
	violOrder  []string
	inconcl    []string
	out        string
	floor      map[string]int64
	finished   bool
	labelTaken map[string]int
	firstViol  time.Time
}

// Thorough reports whether the thorough tier runs.
func (k *K) Thorough() bool { return k.Tier == "thorough" }

// N picks a size by tier.
func (k *K) N(quick, thorough int) int {
	if k.Thorough() {
		return thorough
	}
	return quick
}

// Sub derives an independent deterministic PRNG from a label.
func (k *K) Sub(label string, n int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", k.Seed, label, n)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Eval counts one evaluated case. key identifies it; an empty key means trivial.
func (k *K) Eval(key string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		k.distinct[h.Sum64()] = struct{}{}
	}
}

// Sample keeps up to 2 samples per label.
func (k *K) Sample(label string, v interface{}) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if k.labelTaken[label] >= 2 {
		return
	}
	k.labelTaken[label]++
	k.samples = append(k.samples, map[string]interface{}{"kind": label, "case": v})
}

// Count adds to a named counter of observed events.
func (k *K) Count(name string, n int) {
	k.mu.Lock()
	k.counters[name] += int64(n)
	k.mu.Unlock()
}

// Get reads a counter.
func (k *K) Get(name string) int64 {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.counters[name]
}

// Floor demands that a counter reaches at least n, else the run is inconclusive.
func (k *K) Floor(name string, n int64) {
	// n is what a run of the quick size sees with the machine to itself.  How many events of one
	// kind a run draws varies with its seed and with the load, so only far fewer is a concern.
	if n = n / 4; n < 1 {
		n = 1
	}
	k.mu.Lock()
	k.floor[name] = n
	k.mu.Unlock()
}

// Violate records a breach.
func (k *K) Violate(key string, replay interface{}, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	k.mu.Lock()
	defer k.mu.Unlock()
	if v, ok := k.viol[key]; ok {
		v.Count++
		return
	}
	if len(d) > 8000 {
		d = d[:8000]
	}
	k.viol[key] = &Violation{Key: key, Detail: d, Replay: replay, Count: 1}
	k.violOrder = append(k.violOrder, key)
	if k.firstViol.IsZero() {
		k.firstViol = time.Now()
	}
}

// Violations returns how many distinct violations were recorded.
func (k *K) Violations() int {
	k.mu.Lock()
	defer k.mu.Unlock()
	return len(k.viol)
}

// Has reports whether a violation with that key was recorded.
func (k *K) Has(key string) bool {
	k.mu.Lock()
	defer k.mu.Unlock()
	_, ok := k.viol[key]
	return ok
}

// Inconclusive marks the run as inconclusive for a reason.
func (k *K) Inconclusive(format string, a ...interface{}) {
	k.mu.Lock()
	k.inconcl = append(k.inconcl, fmt.Sprintf(format, a...))
	k.mu.Unlock()
}

// NoPanic runs fn and records a violation when it panics. It returns true when fn returned normally.
func (k *K) NoPanic(key string, replay interface{}, fn func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			st := string(debug.Stack())
			if k.mine(key, r, st) {
				return
			}
			k.Violate(key, replay, "panic: %v\n%s", r, trimStack(st))
		}
	}()
	fn()
	return true
}

// mine: a mistake or shortage on the side of the monitor says nothing about the code under test.
func (k *K) mine(key string, r interface{}, stack string) bool {
	if s, ok := r.(string); ok && strings.HasPrefix(s, "harness:") {
		k.Inconclusive("%s: %s\n%s", key, s, trimStack(stack))
		return true
	}
	return false
}

// Try runs fn and returns the panic value, if any, as a string.
func Try(fn func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("%v", r)
			if panicked == "" {
				panicked = "panic"
			}
		}
	}()
	fn()
	return ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func allStacks() string {
	buf := make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// Guard runs fn, which takes milliseconds when the property holds, and decides
// "does not make progress" by observing the state of the goroutine: blocked on a
// lock, channel or network wait for the whole limit, or having burnt CPU for it.
// Anything else is inconclusive. After a hang the process reports and exits.
func (k *K) Guard(key string, replay interface{}, limit time.Duration, fn func()) {
	done := make(chan struct{})
	idc := make(chan int, 1)
	var pan interface{}
	var panStack string
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				pan = r
				panStack = trimStack(string(debug.Stack()))
			}
		}()
		idc <- gid()
		fn()
	}()
	id := <-idc
	cpu0 := cpuSeconds()
	t := time.NewTimer(limit)
	defer t.Stop()
	blockedAt := ""
	tick := time.NewTicker(limit / 4)
	defer tick.Stop()
	blocked := 0
	for {
		select {
		case <-done:
			if pan != nil && !k.mine(key, pan, panStack) {
				k.Violate(key+":panic", replay, "panic: %v\n%s", pan, panStack)
			}
			return
		case <-tick.C:
			st, top := stackOf(id)
			if isBlocked(st) {
				if top == blockedAt {
					blocked++
				} else {
					blocked = 1
				}
				blockedAt = top
			} else {
				blocked = 0
				blockedAt = ""
			}
		case <-t.C:
			st, top := stackOf(id)
			used := cpuSeconds() - cpu0
			switch {
			case isBlocked(st) && blocked >= 2:
				k.Violate(key+":hang", replay, "operation never returned: goroutine state %q throughout\n%s\nall goroutines:\n%.6000s", st, top, allStacks())
			case !isBlocked(st) && used > limit.Seconds()/3:
				k.Violate(key+":hang", replay, "operation never returned: burnt %.0f s of CPU, goroutine state %q\n%s", used, st, top)
			default:
				k.Inconclusive("%s: no verdict after %v (state %q, cpu %.1f s)", key, limit, st, used)
			}
			k.finish()
		}
	}
}

func gid() int {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	f := strings.Fields(string(b))
	n, _ := strconv.Atoi(f[1])
	return n
}

func stackOf(id int) (state, text string) {
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.HasPrefix(g, fmt.Sprintf("goroutine %d ", id)) {
			if i := strings.Index(g, "["); i >= 0 {
				if j := strings.Index(g[i:], "]"); j > 0 {
					state = strings.Split(g[i+1:i+j], ",")[0]
				}
			}
			// drop the header, it has a growing wait time
			if n := strings.Index(g, "\n"); n > 0 {
				text = g[n+1:]
			}
			return
		}
	}
	return "gone", ""
}

func isBlocked(st string) bool {
	switch st {
	case "semacquire", "chan receive", "chan send", "select", "IO wait", "sync.Mutex.Lock", "sync.RWMutex.Lock",
		"sync.RWMutex.RLock", "sync.WaitGroup.Wait", "sync.Cond.Wait", "chan receive (nil chan)", "chan send (nil chan)", "select (no cases)":
		return true
	}
	return false
}

var (
	stallOnce sync.Once
	stallMu   sync.Mutex
	stallLog  []stall
)

type stall struct {
	at  time.Time
	dur time.Duration
}

// Stalled tells for how long at most this process got no time to run since t0: time limits of the code under test mean
// nothing while it is not scheduled.
func Stalled(t0 time.Time) time.Duration {
	stallOnce.Do(func() {
		go func() {
			for {
				a := time.Now()
				time.Sleep(2 * time.Millisecond)
				if d := time.Since(a); d > 12*time.Millisecond {
					stallMu.Lock()
					stallLog = append(stallLog, stall{time.Now(), d})
					if len(stallLog) > 5000 {
						stallLog = stallLog[1000:]
					}
					stallMu.Unlock()
				}
			}
		}()
	})
	stallMu.Lock()
	defer stallMu.Unlock()
	var max time.Duration
	for _, x := range stallLog {
		if x.at.After(t0) && x.dur > max {
			max = x.dur
		}
	}
	return max
}

// Parallel runs n workers and waits for them; a panic in one is a violation.
func (k *K) Parallel(key string, n int, fn func(i int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil && !k.mine(key, r, string(debug.Stack())) {
					k.Violate(key+":panic", map[string]interface{}{"worker": i}, "panic in worker %d: %v\n%s", i, r, trimStack(string(debug.Stack())))
				}
			}()
			<-start
			fn(i)
		}(i)
	}
	close(start)
	wg.Wait()
}

type report struct {
	ID           string           `json:"id"`
	Seed         int64            `json:"seed"`
	Tier         string           `json:"tier"`
	Evaluations  int              `json:"evaluations"`
	Distinct     int              `json:"distinct"`
	Hashes       []uint64         `json:"hashes"`
	Samples      []interface{}    `json:"samples"`
	Counters     map[string]int64 `json:"counters"`
	Violations   []*Violation     `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Finished     bool             `json:"finished"`
}

func (k *K) finish() {
	k.mu.Lock()
	if k.finished {
		k.mu.Unlock()
		select {}
	}
	k.finished = true
	for n, f := range k.floor {
		if k.counters[n] < f && len(k.viol) == 0 {
			k.inconcl = append(k.inconcl, fmt.Sprintf("counter %s is %d, below the floor of %d: the monitor saw too little", n, k.counters[n], f))
		}
	}
	r := report{ID: k.ID, Seed: k.Seed, Tier: k.Tier, Evaluations: k.evals, Distinct: len(k.distinct), Samples: k.samples,
		Counters: k.counters, Inconclusive: k.inconcl, Finished: true}
	for h := range k.distinct {
		r.Hashes = append(r.Hashes, h)
	}
	for _, n := range k.violOrder {
		r.Violations = append(r.Violations, k.viol[n])
	}
	b, err := json.Marshal(r)
	if err != nil { // a replay value that does not marshal
		for _, v := range r.Violations {
			v.Replay = fmt.Sprintf("%+v", v.Replay)
		}
		r.Samples = nil
		b, _ = json.Marshal(r)
	}
	if err := os.WriteFile(k.out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "verifkit: cannot write report:", err)
		os.Exit(3)
	}
	os.Exit(0)
}

// Main runs a harness. Arguments: key=value pairs; seed, tier and out are known.
func Main(id string, fn func(k *K)) {
	args := map[string]string{}
	for _, a := range os.Args[1:] {
		if i := strings.Index(a, "="); i > 0 {
			args[a[:i]] = a[i+1:]
		}
	}
	seed, _ := strconv.ParseInt(args["seed"], 10, 64)
	k := &K{ID: id, Seed: seed, Tier: args["tier"], Args: args, out: args["out"],
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, viol: map[string]*Violation{}, floor: map[string]int64{},
		labelTaken: map[string]int{}}
	if k.out == "" {
		k.out = "/dev/stdout"
	}
	k.Rng = rand.New(rand.NewSource(seed*7919 + 17))
	signal.Ignore(syscall.SIGPIPE)
	go k.watch()
	defer func() {
		// What the harness trips over is often a program that has just died of the violation that is being recorded.
		if r := recover(); r != nil {
			st := string(debug.Stack())
			time.Sleep(3 * time.Second)
			if _, ok := r.(runtime.Error); ok { // a nil where the code under test always gives a value, and the like
				k.Violate("panic", nil, "panic: %v\n%s", r, trimStack(st))
			} else if k.Violations() == 0 && !k.mine(id, r, st) {
				panic(r)
			}
			k.finish()
		}
	}()
	fn(k)
	k.finish()
}

// watch ends a run that has something to report and does not come to its end: code that broke the property often also
// leaves locks held behind it. It also ends the run in time when its limit is reached (the driver says so by SIGTERM).
func (k *K) watch() {
	term := make(chan os.Signal, 1)
	signal.Notify(term, syscall.SIGTERM)
	since := map[string]time.Time{}
	n := 0
	for {
		select {
		case <-term:
			k.stuck(since, 100*time.Second)
			if k.Violations() == 0 {
				k.Inconclusive("the time given to this run was over before it came to its end\n%.6000s", allStacks())
			}
			k.finish()
		case <-time.After(2 * time.Second):
			if n++; n%6 == 0 {
				k.stuck(since, 150*time.Second)
			}
			k.mu.Lock()
			late := !k.Thorough() && !k.firstViol.IsZero() && time.Since(k.firstViol) > 90*time.Second
			k.mu.Unlock()
			if late {
				k.finish()
			}
		}
	}
}

// stuck follows the goroutines that wait inside the code under test: for a lock, or, when they were sent there by the
// harness, for anything but the network. One that stays where it is for so long will stay for ever.
func (k *K) stuck(since map[string]time.Time, limit time.Duration) {
	seen := map[string]bool{}
	hung := false
	for _, g := range strings.Split(allStacks(), "\n\n") {
		lines := strings.Split(g, "\n")
		head := lines[0]
		i, j := strings.Index(head, "["), strings.IndexAny(head, ",]")
		if i < 0 || j < i || !isBlocked(head[i+1:j]) {
			continue
		}
		state := head[i+1 : j]
		inside, sent := "", false
		for _, l := range lines[1:] {
			if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "created by") {
				continue
			}
			mine := strings.Contains(l, "verif") || strings.HasPrefix(l, "main.")
			if inside == "" {
				if mine {
					break
				}
				if strings.Contains(l, "ConsenSys/fc-retrieval") {
					inside = l
				}
			} else if mine {
				sent = true
			}
		}
		lock := strings.HasPrefix(state, "sync.Mutex") || strings.HasPrefix(state, "sync.RWMutex") || state == "semacquire"
		if inside == "" || !lock && (!sent || state == "IO wait") {
			continue
		}
		id := strings.Join(lines[1:], "\n") + strings.Fields(head)[1]
		seen[id] = true
		if _, ok := since[id]; !ok {
			since[id] = time.Now()
		}
		if time.Since(since[id]) >= limit {
			if i := strings.LastIndex(inside, "("); i > 0 {
				inside = inside[:i]
			}
			k.Violate("hang:"+strings.TrimPrefix(inside, "github.com/ConsenSys/fc-retrieval/"), nil, "a goroutine has been waiting (%s) for %.0f s:\n%s", state, time.Since(since[id]).Seconds(), trimStack(g))
			hung = true
		}
	}
	for id := range since {
		if !seen[id] {
			delete(since, id)
		}
	}
	if hung {
		k.finish()
	}
}

// Interleavings helps to count distinct observed orders.
type Interleavings struct {
	mu  sync.Mutex
	seq []string
}

// Add appends one event.
func (o *Interleavings) Add(s string) { o.mu.Lock(); o.seq = append(o.seq, s); o.mu.Unlock() }

// Key returns the observed order.
func (o *Interleavings) Key() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	return strings.Join(o.seq, ",")
}
