package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
	"pgregory.net/rapid"
)

// ---- P25: time and allocations are proportional to the data

// cpuNow is the CPU time of this process; waiting for a busy machine is not in it.
func cpuNow() time.Duration {
	var ts syscall.Timespec
	if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 2, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		panic(harnessError(e.Error()))
	}
	return time.Duration(ts.Nano())
}

const (
	costFrom = iota
	costFromCut
	costTo
	costConvert
	costWord
	costReader
	costWriter
	costXReader
	costXWriter
	costDecBytes
	costEncBytes
	costDec // Transform calls with the whole rest as source, and little room
	costEnc
	nCosts
)

var costNames = []string{"From", "From, truncated", "To", "Convert", "word functions", "reader", "writer", "x/text reader", "x/text writer", "decoder Bytes", "encoder Bytes", "decoder Transform", "encoder Transform"}

// decodes says which ones take cp949.
func decodes(op int) bool {
	switch op {
	case costFrom, costFromCut, costReader, costXReader, costDecBytes, costDec:
		return true
	}
	return false
}

// cost is one sort of conversion, on KB kilobytes and on sixteen times as many.
type cost struct {
	Op    int  `json:"op"`
	Unit  Segs `json:"unit"`
	Cut   int  `json:"cut"`   // pieces of the source, writes, room for Transform; 0: all at once
	Buf   int  `json:"buf"`   // of the reads
	First int  `json:"first"` // size of the first read, 0: Buf too, -1: all
	KB    int  `json:"kb"`
	Head  B    `json:"head,omitempty"` // before and after all the units
	Tail  B    `json:"tail,omitempty"`
}

type chunked struct {
	p   []byte
	cut int
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.p) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), c.cut)], c.p)
	c.p = c.p[n:]
	return n, nil
}

// spend converts in, and does no work of its own beyond what is linear.
func (c cost) spend(in []byte, str string) error {
	cut := c.Cut
	if cut == 0 {
		cut = len(in)
	}
	e := cp949.NewCP949Encoding()
	switch c.Op {
	case costFrom:
		_, err := cp949.From(in)
		return err
	case costFromCut:
		if _, err := cp949.From(in); err == nil {
			return fmt.Errorf("truncated input is accepted")
		}
	case costTo:
		_, err := cp949.To(in)
		return err
	case costConvert:
		hanja.Convert(str)
	case costWord:
		hangul.LastConsonant(str)
		hangul.EndsWithConsonant(str)
		hangul.AppendPostposition(str, "으로", "로")
		hangul.AppendPostposition("물", str, str)
	case costReader, costXReader:
		r, err := newReader(c.Op == costXReader, &chunked{in, cut})
		if err != nil {
			return err
		}
		buf := make([]byte, max(len(in), c.Buf, c.First))
		b := buf[:c.Buf]
		if c.First != 0 {
			b = buf[:len(in)]
			if c.First > 0 {
				b = buf[:c.First]
			}
		}
		for empty := 0; empty < 1000; {
			n, err := r.Read(b)
			if err == io.EOF {
				return nil
			}
			if err != nil {
				return err
			}
			if empty++; n > 0 {
				empty = 0
			}
			b = buf[:c.Buf]
		}
		return fmt.Errorf("no progress")
	case costWriter, costXWriter:
		w, end, err := newWriter(c.Op == costXWriter, nowhere{})
		if err != nil {
			return err
		}
		for len(in) > 0 {
			n := min(cut, len(in))
			if _, err := w.Write(in[:n]); err != nil {
				return err
			}
			in = in[n:]
		}
		return end()
	case costDecBytes:
		_, err := e.NewDecoder().Bytes(in)
		return err
	case costEncBytes:
		_, err := e.NewEncoder().Bytes(in)
		return err
	case costDec, costEnc:
		var t transform.Transformer = e.NewDecoder()
		if c.Op == costEnc {
			t = e.NewEncoder()
		}
		dst := make([]byte, max(8, cut))
		for len(in) > 0 {
			n, m, err := t.Transform(dst, in, true)
			if err != nil && err != transform.ErrShortDst {
				return err
			}
			if n == 0 && m == 0 {
				return fmt.Errorf("no progress")
			}
			in = in[m:]
		}
	}
	return nil
}

// measure is the CPU time and the allocations of converting so many bytes: the least of
// three times.
func (c cost) measure(n int) (cpu time.Duration, alloc uint64, err error) {
	unit := c.Unit.bytes()
	in := append(append(append([]byte(nil), c.Head...), bytes.Repeat(unit, n/len(unit)+1)...), c.Tail...)
	switch {
	case c.Op == costFromCut:
		in = append(in, 0xB0)
	case c.Op == costConvert:
		in = []byte(toValid(in))
	}
	str := string(in)
	for i := 0; i < 3; i++ {
		var m, m2 runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&m)
		start := cpuNow()
		err = c.spend(in, str)
		t := cpuNow() - start
		runtime.ReadMemStats(&m2)
		if err != nil {
			return
		}
		if a := m2.TotalAlloc - m.TotalAlloc; i == 0 || a < alloc {
			alloc = a
		}
		if i == 0 || t < cpu {
			cpu = t
		}
		if t > 3*time.Second {
			break
		}
	}
	return
}

const (
	costRatio = 16 // between the sizes
	costSlack = 5  // how much more than proportional is not taken for growth
)

func checkCost(c cost) error {
	if len(c.Unit.bytes()) == 0 || c.Buf < 1 {
		return nil
	}
	n := c.KB << 10
	for try := 1; ; try++ {
		t1, a1, err := c.measure(n)
		if err != nil {
			return err
		}
		t2, a2, err := c.measure(n * costRatio)
		if err != nil {
			return err
		}
		slow := t2 > costRatio*costSlack*max(t1, time.Millisecond)
		if !slow && a2 <= costRatio*costSlack*max(a1, uint64(n)) {
			return nil
		}
		if try < 3 {
			continue
		}
		if slow {
			return fmt.Errorf("%s: %d KB take %v of CPU time and %d KB take %v", costNames[c.Op], n>>10, t1, n>>10*costRatio, t2)
		}
		return fmt.Errorf("%s: %d KB make %d KB of allocations and %d KB make %d KB", costNames[c.Op], n>>10, a1>>10, n>>10*costRatio, a2>>10)
	}
}

var (
	costCp = []string{"a", "\xb0\xa1", "a\xb0\xa1", "\xb0\xff", "\xc8\xfe\r\n", "\xff\xff"}
	costTx = []string{"a", "가", "a漢", "\xff", "é國\r\n", "\U0001F600"}
)

// costRuns is every ASCII character, others of every sort, and new strings of the code.
func costRuns() (l []string) {
	for b := 0; b < 0x80; b++ {
		l = append(l, string(rune(b)))
	}
	for _, r := range []rune{0x80, 0xA0, 0xB7, 0xE9, 0x300, 0x301, 0x3B1, 0x410, 0x1100, 0x1160, 0x1175, 0x11A8, 0x11C2, 0x200B, 0x200D, 0x2018, 0x201D, 0x2026, 0x2160, 0x2460,
		0x2500, 0x25A0, 0x3000, 0x3001, 0x3002, 0x3005, 0x3008, 0x300F, 0x3042, 0x30A2, 0x30FC, 0x3131, 0x314F, 0x3164, 0x3260, 0x4E0D, 0x4E00, 0x5973, 0x6A02, 0x9F9C, 0xA960, 0xAC00, 0xAC01, 0xAE00, 0xBB3C,
		0xD7A3, 0xD7B0, 0xE000, 0xF900, 0xFA0B, 0xFE0F, 0xFEFF, 0xFF01, 0xFF08, 0xFF09, 0xFF21, 0xFF71, 0xFFA1, 0xFFE6, 0xFFFD, 0xFFFF, 0x1F600, 0x20000, 0xE0100, 0x10FFFF} {
		l = append(l, string(r))
	}
	l = append(l, "\xff", "\x80", "\xea", "\xea\xb0", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80")
	for i, s := range hot.strs {
		if s != "" && i < 100 {
			l = append(l, s)
		}
	}
	for i, r := range hot.runes {
		if i < 100 {
			l = append(l, string(r))
		}
	}
	return
}

var costKind = K[cost]{
	Name:  "cost",
	Check: checkCost,
	Class: func(c cost) (string, bool) { return costNames[c.Op], true },
	Enum: func(tier string, do func(cost)) {
		kb := []int{64}
		if tier == "thorough" {
			kb = []int{16, 64, 1024}
		}
		for op := 0; op < nCosts; op++ {
			units := costTx
			if decodes(op) {
				units = costCp
			}
			for i, u := range units {
				for _, k := range kb {
					k = smaller(k, 4)
					switch op {
					case costReader, costXReader:
						for j, x := range [][3]int{{0, 512, 0}, {0, 1, -1}, {1, 4096, 0}, {7, 1, 0}, {4096, 3, 100000}, {0, 65536, 0}} {
							if tier == "thorough" || (i+j)%2 == 0 {
								do(cost{Op: op, Unit: seg([]byte(u)), Cut: x[0], Buf: x[1], First: x[2], KB: k})
							}
						}
					case costWriter, costXWriter, costDec, costEnc:
						for j, x := range []int{0, 1, 2, 7, 512, 65536} {
							if tier == "thorough" || (i+j)%2 == 0 {
								do(cost{Op: op, Unit: seg([]byte(u)), Cut: x, Buf: 1, KB: k})
							}
						}
					default:
						do(cost{Op: op, Unit: seg([]byte(u)), Buf: 1, KB: k})
					}
				}
			}
		}
		// a long run of each sort of character, between some others
		ends := [][2]string{{"", ""}, {"가", "각"}, {"(", ")"}, {"", "각"}}
		size := smaller(8, 1)
		for i, u := range costRuns() {
			for j, e := range ends {
				for _, op := range []int{costWord, costConvert, costTo, []int{costWriter, costEncBytes, costXWriter, costEnc}[i%4]} {
					if op != costWord && (i+j)%4 > 0 && tier != "thorough" {
						continue
					}
					do(cost{op, seg([]byte(u)), 1000, 1, 0, size, B(e[0]), B(e[1])})
				}
				u, h, t := mEncode([]byte(u)), mEncode([]byte(e[0])), mEncode([]byte(e[1]))
				if u[0] == '?' {
					u = []byte{0x81 + byte(i%100), 0x20 + byte(i%32)}
				}
				for _, op := range []int{costFrom, costFromCut, []int{costReader, costDecBytes, costXReader, costDec}[i%4]} {
					if (i+j)%4 > 0 && tier != "thorough" {
						continue
					}
					do(cost{op, seg(u), 1000, 700, 0, size, h, t})
				}
			}
		}
	},
	Gen: func(t *rapid.T) cost {
		c := cost{Op: pick(t, nCosts), Cut: size(t, 9000), Buf: max(1, size(t, 9000)), KB: smaller(64, 4)}
		if decodes(c.Op) {
			c.Unit = Segs{}
			for i := rapid.IntRange(1, 5).Draw(t, "units"); i > 0; i-- {
				c.Unit = append(c.Unit, Seg{U: B(costCp[pick(t, len(costCp))]), N: size(t, 50)})
			}
		} else {
			c.Unit = txSegs(t, false, 300)
		}
		if len(c.Unit.bytes()) == 0 {
			c.Unit = seg([]byte("x"))
		}
		if pick(t, 3) == 2 {
			c.First = size(t, 70000)
		}
		return c
	},
	NQ: 160, NT: 6400,
}.kind()

// pace is many calls, each of the same size and with other arguments (or the same ones): the
// last ones must not take longer than the first ones.
type pace struct {
	Op   int  `json:"op"` // as for many
	Unit Segs `json:"unit"`
	N    int  `json:"n"`
	Form int  `json:"form,omitempty"`
}

// runPace makes n calls and compares the fastest of some of the first sixteenths with that of
// the last ones.
func runPace(c pace, n int) (first, last time.Duration, err error) {
	const parts = 64
	k := n/parts + 1
	m := many{Op: c.Op, Unit: c.Unit, Form: c.Form}
	var t [parts]time.Duration
	for i := range t {
		start := cpuNow()
		if err := m.calls(i*k, k); err != nil {
			return 0, 0, err
		}
		t[i] = cpuNow() - start
		curSeq.Add(1)
	}
	least := func(l []time.Duration) time.Duration {
		r := l[0]
		for _, x := range l {
			r = min(r, x)
		}
		return r
	}
	return least(t[1:9]), least(t[parts-8:]), nil
}

var paceKind = K[pace]{
	Name: "pace",
	Check: func(c pace) error {
		n := c.N
		for try := 1; ; try++ {
			a, b, err := runPace(c, n)
			if err != nil {
				return err
			}
			if b <= costSlack*max(a, 200*time.Microsecond) {
				return nil
			}
			if try == 3 {
				return fmt.Errorf("%s: %d calls take %v of CPU time at first and %v after %d calls", manyNames[c.Op], n/64, a, b, n)
			}
			n *= 2 // where a cache of bounded size is full before the first measurement
		}
	},
	Class: func(c pace) (string, bool) { return manyNames[c.Op], true },
	Enum: func(tier string, do func(pace)) {
		for op := range manyNames {
			for _, u := range []string{"", "가나다漢字 abc", "\xb0\xa1\xc8\xfe", strings.Repeat("國 ", 20)} {
				n := 400000 / (10 + len(u))
				if op == 5 || op == 6 {
					n = 400000
				}
				if tier == "thorough" {
					n *= 16
				}
				do(pace{op, seg([]byte(u)), smaller(n, n/8), 0})
			}
			if op < 5 || op > 6 {
				for form := 1; form <= 3; form++ {
					do(pace{op, nil, smaller(40000, 5000), form})
				}
			}
		}
	},
}.kind()
