package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"pgregory.net/rapid"
)

// K describes one kind of case of a property: how cases are made (an exhaustive
// enumeration, a rapid generator, or both), the oracle, and the classification.
// A case is a plain JSON value, so a failing one replays without the library.
type K[C any] struct {
	Name  string
	Check func(C) error
	Class func(C) (label string, nontrivial bool)
	Enum  func(tier string, do func(C)) // distinct cases only
	Gen   func(t *rapid.T) C
	// Reduce lists smaller variants of a case, for kinds which are only enumerated.
	Reduce func(C) []C
	// Drop does so for histories, each of which is tried in a process of its own.
	Drop func(C) []C
	NQ   int // random cases over all workers, quick
	NT   int // the same, thorough
}

type kind struct {
	name   string
	check  func(any) error
	class  func(any) (string, bool)
	enum   func(tier string, do func(any))
	gen    func(t *rapid.T) any
	reduce func(any) []any
	drop   func(any) []any
	n      map[string]int
	decode func([]byte) (any, error)
}

func (k K[C]) kind() *kind {
	r := &kind{
		name:  k.Name,
		check: func(c any) error { return k.Check(c.(C)) },
		class: func(c any) (string, bool) { return k.Class(c.(C)) },
		n:     map[string]int{"quick": k.NQ, "thorough": k.NT},
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
	}
	if k.Enum != nil {
		r.enum = func(tier string, do func(any)) { k.Enum(tier, func(c C) { do(c) }) }
	}
	list := func(f func(C) []C) func(any) []any {
		if f == nil {
			return nil
		}
		return func(c any) (l []any) {
			for _, x := range f(c.(C)) {
				l = append(l, x)
			}
			return
		}
	}
	r.reduce, r.drop = list(k.Reduce), list(k.Drop)
	if k.Gen != nil {
		r.gen = func(t *rapid.T) any { return k.Gen(t) }
	}
	return r
}

// prop is one property: its kinds, and what goes into the evidence.
type prop struct {
	id          string
	rule        string
	exhaustive  bool // the enumeration covers the whole domain of the statement
	assumptions []string
	kinds       []*kind
}

// safe runs the oracle on one case; a panic in it is a failure of the case.
func safe(k *kind, c any) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(harnessError); ok {
				panic(e)
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	return k.check(c)
}

// harnessError is raised where the harness itself is wrong; never a violation.
type harnessError string

func trimStack(b []byte) string {
	l := strings.Split(string(b), "\n")
	if len(l) > 24 {
		l = l[:24]
	}
	return strings.Join(l, "\n")
}

type violation struct {
	Property string          `json:"property"`
	Kind     string          `json:"kind"`
	How      string          `json:"how"` // enum, random, hang, memory, race, crash
	Msg      string          `json:"message"`
	Case     json.RawMessage `json:"case,omitempty"`
	// a failure which needs the cases before it is replayed by running the worker again
	Tier   string `json:"tier"`
	Seed   uint64 `json:"seed"`
	Shard  int    `json:"shard"`
	Shards int    `json:"shards"`
	Arch   string `json:"arch"`  // GOARCH of the harness
	Needs  string `json:"needs"` // "case": the case alone; "history": the run up to it
	order  int
}

type stats struct {
	Enum       int64                        `json:"enum"`       // enumerated cases run (distinct by construction)
	Random     int64                        `json:"random"`     // random cases run
	Nontriv    int64                        `json:"nontriv"`    // non-trivial cases, repeated ones included
	Labels     map[string]int64             `json:"labels"`     // kind/label -> count
	Samples    map[string][]json.RawMessage `json:"samples"`    // kind/label -> cases
	Violations []*violation                 `json:"violations"` // at most one per kind and phase
}

type stopEnum struct{}

// current case, for the watchdog
var (
	curCase atomic.Pointer[any]
	curKind atomic.Pointer[kind]
	curSeq  atomic.Uint64
)

type worker struct {
	p             *prop
	tier          string
	seed          uint64
	shard, shards int
	st            stats
	hashes        []uint64 // of the non-trivial cases
	trace         *os.File
}

func short(b []byte, n int) string {
	s := string(b)
	if len(s) > n {
		s = s[:n] + "..."
	}
	return s
}

// sample is a case as JSON; one too long to show is cut and becomes a string.
func sample(js []byte) json.RawMessage {
	if len(js) > 400 {
		js, _ = json.Marshal(short(js, 400))
	}
	return js
}

func (w *worker) note(k *kind, c any, enum bool) {
	label, nt := k.class(c)
	key := k.name + "/" + label
	w.st.Labels[key]++
	var js []byte
	if s := w.st.Samples[key]; len(s) < 2 {
		js, _ = json.Marshal(c)
		w.st.Samples[key] = append(s, sample(js))
	}
	if enum {
		w.st.Enum++
	} else {
		w.st.Random++
	}
	if nt {
		w.st.Nontriv++
		if js == nil {
			js, _ = json.Marshal(c)
		}
		h := fnv.New64a()
		h.Write([]byte(k.name))
		h.Write(js)
		w.hashes = append(w.hashes, h.Sum64())
	}
}

func (w *worker) run1(k *kind, c any) error {
	curCase.Store(&c)
	curKind.Store(k)
	curSeq.Add(1)
	if w.trace != nil {
		js, _ := json.Marshal(map[string]any{"kind": k.name, "case": c})
		w.trace.Truncate(0)
		w.trace.WriteAt(js, 0)
	}
	return safe(k, c)
}

func (w *worker) fail(k *kind, c any, how string, err error, order int) {
	js, e := json.Marshal(c)
	if e != nil {
		panic(harnessError(e.Error()))
	}
	w.st.Violations = append(w.st.Violations, &violation{Property: w.p.id, Kind: k.name, How: how,
		Msg: err.Error(), Case: js, Tier: w.tier, Seed: w.seed, Shard: w.shard, Shards: w.shards, order: order})
}

func mix(a, b uint64) uint64 {
	h := fnv.New64a()
	var buf [16]byte
	binary.LittleEndian.PutUint64(buf[:8], a)
	binary.LittleEndian.PutUint64(buf[8:], b)
	h.Write(buf[:])
	x := h.Sum64()
	x ^= x >> 29
	return x
}

// no new round of random cases is begun after so much time
const (
	quickTime    = 4 * time.Minute // a guard only: it takes seconds
	thoroughTime = 7 * time.Minute
)

func (w *worker) run() {
	start := time.Now()
	for ki, k := range w.p.kinds {
		bad := false
		if k.enum != nil {
			func() {
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(stopEnum); !ok {
							panic(p)
						}
					}
				}()
				i := 0
				k.enum(w.tier, func(c any) {
					i++
					if i%w.shards != w.shard {
						return
					}
					err := w.run1(k, c)
					w.note(k, c, true)
					if err != nil {
						c, err = w.reduce(k, c, err)
						w.fail(k, c, "enum", err, i)
						bad = true
						panic(stopEnum{})
					}
				})
			}()
		}
		n := k.n[w.tier]
		if bad || k.gen == nil || n == 0 {
			continue
		}
		n = (n + w.shards - 1) / w.shards
		seed := mix(mix(w.seed, uint64(ki)), uint64(w.shard))
		// in rounds, until the cases are done or the time is up
		rounds, budget := 8, quickTime
		if w.tier == "thorough" {
			rounds, budget = 32, thoroughTime
		}
		until := budget * time.Duration(ki+1) / time.Duration(len(w.p.kinds))
		for r := 0; r < rounds && (r == 0 || time.Since(start) < until); r++ {
			if !w.random(k, (n+rounds-1)/rounds, mix(seed, uint64(r))) {
				break
			}
		}
	}
}

// reduce makes a failing enumerated case smaller as long as a smaller one fails too.
func (w *worker) reduce(k *kind, c any, err error) (any, error) {
	if k.reduce == nil {
		return c, err
	}
again:
	for _, x := range k.reduce(c) {
		if e := w.run1(k, x); e != nil {
			c, err = x, e
			goto again
		}
	}
	return c, err
}

// tb is the rapid.TB of a run outside "go test".
type tb struct {
	failed bool
	log    []string
}

type tbFail struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(f string, a ...any)   { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { panic(harnessError("skip")) }
func (t *tb) Skip(a ...any)             { panic(harnessError("skip")) }
func (t *tb) SkipNow()                  { panic(harnessError("skip")) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbFail{}) }
func (t *tb) Fatal(a ...any)            { t.Error(a...); panic(tbFail{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbFail{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func (w *worker) random(k *kind, n int, seed uint64) bool {
	if seed == 0 {
		seed = 1
	}
	setFlag("rapid.checks", fmt.Sprint(n))
	setFlag("rapid.seed", fmt.Sprint(seed))
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", "15s")
	var (
		lastCase any
		lastErr  error
		first    any
		firstErr error
		shrink   bool
	)
	t := &tb{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tbFail); !ok {
					panic(p)
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			c := k.gen(rt)
			err := w.run1(k, c)
			if !shrink {
				w.note(k, c, false)
			}
			if err != nil {
				if !shrink {
					first, firstErr = c, err
				}
				lastCase, lastErr = c, err
				shrink = true
				rt.Fatalf("violated")
			}
		})
	}()
	if !t.failed {
		return true
	}
	if firstErr == nil {
		panic(harnessError("rapid failed without an oracle failure: " + strings.Join(t.log, "\n")))
	}
	// the last failing case of the shrinker is the smallest; keep the first if that does
	// not fail again by itself (a failure which depends on history).
	if safe(k, lastCase) == nil {
		lastCase, lastErr = first, firstErr
	}
	w.fail(k, lastCase, "random", lastErr, 0)
	return false
}

// ---- watchdog: a case that burns CPU, memory, or blocks for ever

const (
	exitHang  = 3
	exitMem   = 4
	exitRace  = 66
	hangCPU   = 30.0
	memLimit  = 2500 << 20
	blockTick = 300 // ticks of 200 ms without progress and without CPU use
)

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, r int64
	fmt.Sscan(string(b), &a, &r)
	return r * int64(os.Getpagesize())
}

func watchdog(dump string) {
	var seq uint64
	start, ticks := cpuSeconds(), 0
	last := start
	for {
		hang := hangCPU * float64(max(1, min(slowBy.Load(), 4)))
		time.Sleep(200 * time.Millisecond)
		s := curSeq.Load()
		now := cpuSeconds()
		if s != seq {
			seq, start, ticks, last = s, now, 0, now
		}
		if now-last < 0.01 {
			ticks++
		}
		last = now
		code, what := 0, ""
		switch {
		case s != 0 && now-start > hang:
			code, what = exitHang, fmt.Sprintf("did not return within %.0f CPU seconds", hang)
		case s != 0 && ticks > blockTick:
			code, what = exitHang, "blocked for ever"
		case rss() > memLimit:
			code, what = exitMem, "took more than 2500 MB of memory"
		default:
			continue
		}
		k, c := curKind.Load(), curCase.Load()
		if k == nil || c == nil {
			continue
		}
		js, _ := json.Marshal(*c)
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		v := violation{Kind: k.name, How: map[int]string{exitHang: "hang", exitMem: "memory"}[code], Msg: what + "\n" + short(buf, 3000), Case: js}
		out, _ := json.Marshal(v)
		os.WriteFile(dump, out, 0o644)
		os.Exit(code)
	}
}

// slowness is how many times slower than what is usual the code under test converts plain
// text (a slow algorithm is no violation): 1 to 64.  Large cases are made smaller by it.
var slowness = sync.OnceValue(func() (f int) {
	defer func() {
		if recover() != nil {
			f = 1
		}
		slowBy.Store(int32(f))
	}()
	const n = 300
	cp, tx := bytes.Repeat([]byte("\xb0\xa1\xc8\xfe\xd9\xcd"), n/3), bytes.Repeat([]byte("가힝漢"), n/3)
	best := time.Hour
	for i := 0; i < 5; i++ {
		start := cpuNow()
		cp949.From(cp)
		cp949.To(tx)
		best = min(best, cpuNow()-start)
	}
	f = int(best / (2 * n * 150 * time.Nanosecond))
	if f < 3 {
		return 1
	}
	return min(f, 64)
})

var slowBy atomic.Int32 // the same, 0 as long as nobody has asked

// smaller is n, or less if the code is slow, but not below low.
func smaller(n, low int) int { return max(n/slowness(), min(low, n)) }

// ---- small helpers

func hashOf(b []byte) string {
	s := sha256.Sum256(b)
	return hex.EncodeToString(s[:4])
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var errViolated = errors.New("violated")

func diff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	f := func(b []byte) string {
		lo, hi := i-6, i+12
		if lo < 0 {
			lo = 0
		}
		if hi > len(b) {
			hi = len(b)
		}
		if lo > hi {
			lo = hi
		}
		return fmt.Sprintf("len %d, bytes %d..%d: % x", len(b), lo, hi, b[lo:hi])
	}
	return fmt.Sprintf("differ at byte %d: got %s; want %s", i, f(got), f(want))
}
