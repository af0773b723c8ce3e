package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"pgregory.net/rapid"
)

// ---- P22: goroutines with their own histories, begun together in a fresh process in
// which nothing has used the library before, under the race detector

type conc struct {
	Threads [][]op `json:"threads"`
	Procs   int    `json:"procs"`
	Shared  bool   `json:"shared"` // one CP949Encoding for all
	Yield   int    `json:"yield"`  // yield after so many operations, 0: never
}

// runConc is the body of the child process.
func runConc(c conc) error {
	runtime.GOMAXPROCS(max(1, c.Procs))
	errs := make([]error, len(c.Threads))
	var ready, done sync.WaitGroup
	gate := make(chan struct{})
	shared := cp949.NewCP949Encoding()
	for i, ops := range c.Threads {
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("panic: %v", p)
				}
			}()
			s := &session{e: shared}
			if !c.Shared {
				s.e = &cp949.CP949Encoding{}
			}
			s.yield = c.Yield
			ready.Done()
			<-gate
			errs[i] = s.run(ops)
		}()
	}
	ready.Wait()
	close(gate)
	done.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("goroutine %d: %v", i, err)
		}
	}
	return nil
}

// concMain runs one case given on standard input.
func concMain() int {
	var c conc
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		die("%v", err)
	}
	if err := runConc(c); err != nil {
		fmt.Println(err)
		return 1
	}
	fmt.Println("concurrent run done")
	return 0
}

func checkConc(c conc) error {
	js, err := json.Marshal(c)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	for try := 0; ; try++ {
		cmd := exec.Command(os.Args[0], "conc")
		cmd.Stdin = strings.NewReader(string(js))
		var out, se strings.Builder
		cmd.Stdout, cmd.Stderr = &out, &se
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
		err := cmd.Run()
		code := -1
		if cmd.ProcessState != nil {
			code = cmd.ProcessState.ExitCode()
		}
		e := se.String()
		switch {
		case err == nil && strings.Contains(out.String(), "concurrent run done"):
			return nil
		case code == 1:
			return errors.New(strings.TrimSpace(out.String()))
		case strings.Contains(e, "WARNING: DATA RACE"):
			return errors.New(short([]byte(e), 6000))
		case strings.Contains(e, "fatal error: ") && !strings.Contains(e, "out of memory") && !strings.Contains(e, "cannot allocate") && !strings.Contains(e, "failed to create new OS thread"):
			return errors.New(short([]byte(e), 6000))
		}
		if try == 3 {
			panic(harnessError(fmt.Sprintf("child process: %v: %s", err, short([]byte(e), 2000))))
		}
		time.Sleep(time.Second)
	}
}

func concClass(c conc) (string, bool) {
	pairs := 0
	for i := range c.Threads {
		for j := 0; j < i; j++ {
			if len(c.Threads[i]) > 0 && len(c.Threads[j]) > 0 {
				pairs++
			}
		}
	}
	l := fmt.Sprintf("%d goroutines", len(c.Threads))
	if c.Shared {
		l += ", shared encoding"
	}
	return l, pairs > 0
}

// oneOp is a small program which uses operation k in earnest.
func oneOp(k int, variant int) []op {
	cp, tx := seg([]byte("a\xb0\xa1\xc8\xfe\xff\xffz\xa2\xe6")), seg([]byte("a가힣國z€\U0001F600물"))
	if variant%2 == 1 {
		cp, tx = seg([]byte("\xb3\xaa\xfd\xfe  \x81\x41")), seg([]byte("나漢é각"))
	}
	switch variant / 2 % 4 {
	case 1: // the ways to fail
		cp, tx = append(cp, Seg{U: B("\xb0"), N: 1}), seg([]byte("\xff\xea\xb0\U0002F800\U00020000\x80é\uFFFD가"))
	case 2:
		cp, tx = Segs{{U: B("\xb0\xa1\xff"), N: 2000}}, Segs{{U: B("가a漢"), N: 1500}}
	case 3:
		cp, tx = Segs{}, Segs{}
	}
	rs := [][]rune{{'ㅞ', 'ㄳ', 0x11B3, 'ㄲ'}, {'ㅙ', 'ㅀ', 0x1101, 'ㅢ'}}[variant%2]
	var p []op
	switch k {
	case opFrom, opDec:
		p = []op{{Op: k, In: cp}, {Op: k, In: cp}}
	case opOpenR:
		p = []op{{Op: k, In: cp, Cuts: [][]int{{2}, {0, 2}}[variant/2%2], Fail: variant / 2}, {Op: opRead, N: 3}, {Op: opOpenR, Slot: 1, In: cp, Cuts: []int{3}, X: true}, {Op: opRead, Slot: 1, N: 9}, {Op: opRead, N: 1}}
	case opOpenW:
		p = []op{{Op: k, Fail: variant / 2 * 5}, {Op: opWrite, In: tx}, {Op: k, Slot: 1, X: true}, {Op: opWrite, Slot: 1, In: tx}, {Op: opWrite, In: tx}}
	case opMulti, opRune, opJoin:
		for _, r := range rs {
			p = append(p, op{Op: k, R: r})
		}
		p = append(p, op{Op: k, R: 0xAC00, Rep: 40, Step: 277})
	case opXform:
		p = []op{{Op: k, In: cp, N: 64}, {Op: k, In: tx, N: 64, X: true}}
	case opScribble:
		p = []op{{Op: opFrom, In: cp}, {Op: opTo, In: tx}, {Op: opMulti, R: rs[0]}, {Op: opScribble}, {Op: opScribble}, {Op: opScribble}}
	default:
		p = []op{{Op: k, In: tx}, {Op: k, R: 0x4E00, Rep: 40, Step: 31}}
	}
	return p
}

var concKind = K[conc]{
	Name:  "concurrent",
	Check: checkConc,
	Class: concClass,
	Enum: func(tier string, do func(conc)) {
		ks := []int{opFrom, opTo, opConvert, opRune, opMulti, opJoin, opWord, opOpenR, opOpenW, opDec, opEnc, opXform, opScribble}
		for i, a := range ks {
			for _, b := range ks[:i+1] {
				do(conc{Threads: [][]op{oneOp(a, 0), oneOp(b, 1)}, Procs: 4, Shared: true})
				do(conc{Threads: [][]op{oneOp(a, 2), oneOp(b, 3), oneOp(a, 4), oneOp(b, 5), oneOp(a, 6)}, Procs: 4, Shared: true})
				if tier == "thorough" {
					do(conc{Threads: [][]op{oneOp(a, 0), oneOp(b, 0), oneOp(b, 1), oneOp(a, 1)}, Procs: 8, Yield: 1})
				}
			}
		}
		for _, a := range ks { // everyone does the same
			var c conc
			for i := 0; i < 8; i++ {
				c.Threads = append(c.Threads, oneOp(a, i))
			}
			c.Procs = 8
			do(c)
		}
		var all conc
		for i := 0; i < 13; i++ {
			var p []op
			for j := range ks {
				p = append(p, oneOp(ks[(i+j)%len(ks)], j)...)
			}
			all.Threads = append(all.Threads, p)
		}
		all.Procs = 8
		all.Shared = true
		do(all)
		// sweeps of the whole tables at once
		var sweep conc
		for i := 0; i < 6; i++ {
			sweep.Threads = append(sweep.Threads, []op{{Op: []int{opFrom, opTo, opConvert}[i%3], R: rune(i * 7), Rep: 6000, Step: 11}})
		}
		sweep.Procs = 8
		do(sweep)
	},
	Gen: func(t *rapid.T) conc {
		c := conc{Procs: []int{1, 2, 4, 8}[weighted(t, 1, 1, 2, 2)], Shared: rapid.Bool().Draw(t, "shared"), Yield: rapid.IntRange(0, 5).Draw(t, "yield")}
		n := rapid.IntRange(2, 8).Draw(t, "threads")
		if pick(t, 6) == 0 { // long programs
			n = min(n, 4)
			for i := 0; i < n; i++ {
				c.Threads = append(c.Threads, genOps(t, 150))
			}
			return c
		}
		if pick(t, 3) == 0 { // all run the same program
			ops := genOps(t, 14)
			for i := 0; i < n; i++ {
				c.Threads = append(c.Threads, ops)
			}
			return c
		}
		for i := 0; i < n; i++ {
			c.Threads = append(c.Threads, genOps(t, 14))
		}
		return c
	},
	NQ: 600, NT: 12000,
}.kind()
