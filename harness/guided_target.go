//go:build libfuzzer

package main

// #include <stddef.h>
import "C"

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

// ---- the child: a fuzz target for libFuzzer, which drives one kind of cases

var guide struct {
	k    *kind
	make func(*raw) any
	out  string
	last *os.File
	st   guidedStats
	buf  []byte
	tick time.Time
}

func guideDie(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"harness error:"}, a...)...)
	os.Exit(2)
}

//export LLVMFuzzerInitialize
func LLVMFuzzerInitialize(argc, argv unsafe.Pointer) C.int {
	debug.SetMaxStack(128 << 20)
	a := strings.Fields(os.Getenv("VERIF_GUIDED"))
	if len(a) != 3 {
		guideDie("VERIF_GUIDED")
	}
	for _, k := range findProp(a[0]).kinds {
		if k.name == a[1] {
			guide.k = k
		}
	}
	guide.make, guide.out = guidedKinds[a[1]], a[2]
	if guide.k == nil || guide.make == nil {
		guideDie("kind", a[1])
	}
	var err error
	if guide.last, err = os.Create(guide.out + ".last"); err != nil {
		guideDie(err)
	}
	guide.st.Labels = map[string]int64{}
	loadDict()
	go watchdog(guide.out + ".dump")
	return 0
}

//export LLVMFuzzerTestOneInput
func LLVMFuzzerTestOneInput(data *C.char, size C.size_t) C.int {
	g := &guide
	in := unsafe.Slice((*byte)(unsafe.Pointer(data)), size)
	g.buf = append(binary.LittleEndian.AppendUint64(g.buf[:0], uint64(len(in))), in...)
	g.last.WriteAt(g.buf, 0)
	b := append([]byte(nil), in...)
	c, err := guideRun(b)
	g.st.Execs++
	label, nt := g.k.class(c)
	g.st.Labels[label]++
	if nt {
		g.st.Nontriv++
	}
	if now := time.Now(); now.Sub(g.tick) > time.Second || err != nil {
		g.tick = now
		js, _ := json.Marshal(g.st)
		os.WriteFile(g.out+".stats", js, 0o644)
	}
	if err == nil {
		return 0
	}
	// cut it down as bytes
	until := time.Now().Add(10 * time.Second)
	for n := len(b) / 2; n > 0 && time.Now().Before(until); {
		smaller := false
		for i := 0; i+n <= len(b) && time.Now().Before(until); {
			x := append(append([]byte(nil), b[:i]...), b[i+n:]...)
			if xc, e := guideRun(x); e != nil {
				b, c, err, smaller = x, xc, e, true
			} else {
				i += n
			}
		}
		if !smaller || n > len(b) {
			n /= 2
		}
	}
	js, e := json.Marshal(c)
	if e != nil {
		guideDie(e)
	}
	js, _ = json.Marshal(violation{Kind: g.k.name, How: "fuzz", Msg: err.Error(), Case: js})
	os.WriteFile(g.out+".dump", js, 0o644)
	os.Exit(77)
	return 0
}

func guideRun(b []byte) (c any, err error) {
	defer func() {
		if p := recover(); p != nil {
			guideDie(p, string(debug.Stack()))
		}
	}()
	c = guide.make(&raw{b})
	curCase.Store(&c)
	curKind.Store(guide.k)
	curSeq.Add(1)
	return c, safe(guide.k, c)
}
