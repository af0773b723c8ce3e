package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"
	"time"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
	"pgregory.net/rapid"
)

// ---- P24: memory in use does not grow with the length of a stream or the number of calls

// heap is what is in use after collecting garbage, the contents of sync.Pools included,
// and the least that goroutines take.
func heap() int {
	var m runtime.MemStats
	runtime.Gosched()
	runtime.GC()
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc) + 2048*runtime.NumGoroutine()
}

const (
	flowReader = iota
	flowWriter
	flowXReader
	flowXWriter
	flowTransform
	nFlows
)

var flowNames = []string{"reader", "writer", "x/text reader", "x/text writer", "Transform calls"}

// flow is a long stream: Unit over and over, KB kilobytes in all.
type flow struct {
	Kind int   `json:"kind"`
	Unit Segs  `json:"unit"`
	Cuts []int `json:"cuts"` // of the source; of the writes
	Bufs []int `json:"bufs"` // of the reads
	KB   int   `json:"kb"`
	Enc  bool  `json:"enc"` // of Transform calls: encoder
	Odd  bool  `json:"odd"` // now and then the source supplies nothing, the sink fails, the destination is short
}

// cycle yields unit over and over in the given pieces.
type cycle struct {
	unit       []byte
	cuts       []int
	pos, calls int
	left       int
	at         int // when so much is left, mark is called
	mark       func()
	scratch    []byte
	odd        bool
}

func (c *cycle) fill(p []byte) {
	for i := 0; i < len(p); {
		n := copy(p[i:], c.unit[c.pos:])
		i += n
		if c.pos += n; c.pos == len(c.unit) {
			c.pos = 0
		}
	}
	c.left -= len(p)
	if c.mark != nil && c.left <= c.at {
		c.mark()
		c.mark = nil
	}
}

func (c *cycle) Read(p []byte) (int, error) {
	if c.left == 0 {
		return 0, io.EOF
	}
	n := min(at(c.cuts, c.calls), len(p), c.left)
	if c.calls++; c.odd && c.calls%3 == 2 {
		return 0, nil
	}
	c.fill(p[:n])
	return n, nil
}

// next is the next piece; it is valid until the next call.
func (c *cycle) next() []byte {
	n := min(at(c.cuts, c.calls), c.left)
	c.calls++
	if len(c.scratch) < n {
		c.scratch = make([]byte, n)
	}
	c.fill(c.scratch[:n])
	return c.scratch[:n]
}

type nowhere struct{}

func (nowhere) Write(p []byte) (int, error) { return len(p), nil }

// fussy fails every third time, taking nothing.
type fussy struct{ calls int }

func (f *fussy) Write(p []byte) (int, error) {
	if f.calls++; f.calls%3 == 0 {
		return 0, errSink
	}
	return len(p), nil
}

// runFlow runs a stream of kb kilobytes and tells by how much the memory in use grew
// between a quarter and the end of it.
func runFlow(c flow, kb int) (growth int, err error) {
	unit := c.Unit.bytes()
	buf := make([]byte, maxOf(c.Bufs))
	var h1 int
	src := &cycle{unit: unit, cuts: noZero(c.Cuts), left: kb << 10, scratch: make([]byte, maxOf(c.Cuts)), odd: c.Odd}
	src.at, src.mark = kb<<10*3/4, func() { h1 = heap() }
	calls, limit := 0, 8*(kb<<10)+1000
	step := func() error {
		if calls++; calls > limit {
			return fmt.Errorf("no end after %d calls", calls)
		}
		return nil
	}
	e := cp949.NewCP949Encoding()
	switch c.Kind {
	case flowReader, flowXReader:
		r, err := newReader(c.Kind == flowXReader, src)
		if err != nil {
			return 0, err
		}
		for i := 0; src.left > 0; i++ {
			if c.Odd && i%4 == 0 && c.Kind == flowReader {
				r.Read(nil)
			}
			if _, err := r.Read(buf[:max(1, at(c.Bufs, i))]); err != nil {
				if src.left > 0 {
					return 0, fmt.Errorf("Read: %v", err)
				}
				break
			}
			if err := step(); err != nil {
				return 0, err
			}
		}
		growth = heap() - h1
		runtime.KeepAlive(r)
	case flowWriter, flowXWriter:
		var k io.Writer = nowhere{}
		if c.Odd && c.Kind == flowWriter {
			k = new(fussy)
		}
		w, _, err := newWriter(c.Kind == flowXWriter, k)
		if err != nil {
			return 0, err
		}
		for src.left > 0 {
			p, err := src.next(), error(nil)
			for try := 0; try == 0 || err != nil; try++ {
				var n int
				if n, err = w.Write(p); err != nil && (err != errSink || try > 3+len(p) || n < 0 || n > len(p)) {
					return 0, fmt.Errorf("Write: %v", err)
				}
				p = p[n:]
			}
		}
		growth = heap() - h1
		runtime.KeepAlive(w)
	case flowTransform:
		var t transform.Transformer = e.NewDecoder()
		if c.Enc {
			t = e.NewEncoder()
		}
		dst := make([]byte, 3*len(src.scratch)+16)
		held := make([]byte, 0, len(src.scratch)+16)
		for src.left > 0 {
			held = append(held, src.next()...)
			if c.Odd {
				t.Transform(dst[:len(held)/2], held, false)
				t.Transform(nil, held, false)
				t.Reset()
			}
			_, n, err := t.Transform(dst, held, false)
			if err != nil && err != transform.ErrShortSrc && err != transform.ErrShortDst {
				return 0, err
			}
			held = held[:copy(held, held[n:])]
		}
		growth = heap() - h1
		runtime.KeepAlive(t)
	}
	runtime.KeepAlive(buf)
	runtime.KeepAlive(src)
	return growth, nil
}

func maxOf(c []int) int {
	m := 1
	for _, x := range c {
		m = max(m, x)
	}
	return m
}

func checkFlow(c flow) error {
	allowed := 64<<10 + 8*(maxOf(c.Cuts)+maxOf(c.Bufs))
	kb := c.KB
	for try := 0; ; try++ {
		n, err := runFlow(c, kb)
		if err != nil {
			return err
		}
		if n <= allowed {
			return nil
		}
		if try == 2 {
			return fmt.Errorf("%s: between %d and %d KB of the stream the memory in use grew by %d KB", flowNames[c.Kind], kb/4, kb, n>>10)
		}
		kb *= 2 // again and longer; then it must grow all the same
	}
}

var flowUnits = []string{"a", "\xb0\xa1", "a\xb0\xa1", "\xb0", "\xff", "가", "漢é", "\xea\xb0", "\U0001F600", "\x80\x41\n", "The quick brown fox\r\n"}

var flowKind = K[flow]{
	Name:  "flow",
	Check: checkFlow,
	Class: func(c flow) (string, bool) { return flowNames[c.Kind], true },
	Enum: func(tier string, do func(flow)) {
		kb := smaller(3<<10, 512)
		if tier == "thorough" {
			kb = smaller(48<<10, 512)
		}
		for k := 0; k < nFlows; k++ {
			for i, u := range flowUnits {
				for j, cb := range [][2]int{{512, 512}, {4096, 1024}, {7, 300}, {3, 5}} {
					if tier != "thorough" && (i+j+k)%4 > 1 {
						continue
					}
					do(flow{k, seg([]byte(u)), []int{cb[0]}, []int{cb[1]}, kb, i%2 == 1, i%3 == j%3})
				}
			}
		}
	},
	Gen: func(t *rapid.T) flow {
		c := flow{Kind: pick(t, nFlows), Cuts: cuts(t, false, 5000), Bufs: cuts(t, false, 5000), KB: smaller(2<<10, 512), Enc: rapid.Bool().Draw(t, "enc"), Odd: rapid.Bool().Draw(t, "odd")}
		if pick(t, 2) == 0 {
			c.Unit = cpSegs(t, false, 300)
		} else {
			c.Unit = txSegs(t, false, 300)
		}
		if len(c.Unit.bytes()) == 0 {
			c.Unit = seg([]byte("x"))
		}
		return c
	},
	NQ: 240, NT: 9600,
}.kind()

// many is many calls of one function, each with another argument.
type many struct {
	Op   int  `json:"op"`
	Unit Segs `json:"unit"` // what every argument ends with
	N    int  `json:"n"`
	Form int  `json:"form,omitempty"` // what makes arguments differ
}

// number writes i, in digits or in a few characters, for code which looks only at some.
func number(i, form int) (b []byte) {
	switch form {
	case 1:
		return append(b, string([]rune{syl0 + rune(i%11172), syl0 + rune(i/11172*599%11172)})...)
	case 2:
		return append(b, string([]rune{hanjaAll[i%len(hanjaAll)], hanjaAll[i/len(hanjaAll)*599%len(hanjaAll)]})...)
	case 3:
		for _, k := range []int{i % len(pairs), i / len(pairs) * 599 % len(pairs), i % 8} {
			b = append(b, pairBytes(pairs[k])...)
		}
		return b
	}
	return fmt.Appendf(b, "%07d", i)
}

var manyNames = []string{"From", "From, truncated", "To", "Convert", "word functions", "rune functions", "SplitMultiElement and Join", "readers", "readers left in the middle", "writers", "decoders", "encoders",
	"readers of sources which fail", "readers never read", "readers read on after the end", "writers to sinks which fail", "writers left inside a character", "x/text readers and writers", "Transform calls without enough room", "readers and writers whose other side panics"}

func someSource(i int, in []byte) io.Reader {
	switch i % 5 {
	case 0:
		return bytes.NewReader(in)
	case 1:
		return bytes.NewBuffer(append([]byte(nil), in...))
	case 2:
		return io.NopCloser(&source{data: in, chunks: []int{5}})
	case 3:
		return bufio.NewReaderSize(&source{data: in, chunks: []int{3}}, 16)
	}
	return strings.NewReader(string(in))
}

type closable struct{ nowhere }

func (closable) Close() error { return nil }
func (closable) Flush() error { return nil }

func someSink(i int) io.Writer {
	switch i % 4 {
	case 0:
		return &bytes.Buffer{}
	case 1:
		return closable{}
	case 2:
		return bufio.NewWriterSize(nowhere{}, 16)
	}
	return nowhere{}
}

// runMany makes n calls and tells by how much memory grew from the second quarter to the last
// half, taking the least of several points of both (so that a cache which is emptied when
// it is full does not seem to grow).
func runMany(c many, n int) (growth int, err error) {
	first, last, points := math.MaxInt, math.MaxInt, 0
	for i := 0; i < n; i++ {
		if i >= n/4 && (i-n/4)%max(1, n*3/32) == 0 {
			if points++; points <= 3 {
				first = min(first, heap())
			} else if points > 4 {
				last = min(last, heap())
			}
		}
		if err := c.calls(i, 1); err != nil {
			return 0, err
		}
	}
	return min(last, heap()) - first, nil
}

// calls makes the calls from number from on.
func (c many) calls(from, n int) error {
	unit := c.Unit.bytes()
	e := cp949.NewCP949Encoding()
	buf := make([]byte, 64)
	for i := from; i < from+n; i++ {
		// other arguments each time
		in := append(number(i, c.Form), unit...)
		switch c.Op {
		case 0:
			cp949.From(in)
		case 1:
			cp949.From(append(in, 0xB0))
		case 2:
			cp949.To(in)
		case 3:
			hanja.Convert(string(in))
		case 4:
			s := string(in)
			hangul.LastConsonant(s)
			hangul.EndsWithConsonant(s)
			hangul.AppendPostposition(s, "으로", "로")
			hangul.AppendPostposition("물", s, "로")
		case 5:
			r := rune(i) * 4799
			hangul.Split(r)
			hangul.SplitCompat(r)
			hangul.Stroke(r)
			hangul.CompatJamo(r)
			hangul.Lead(r)
			hangul.Medial(r)
			hangul.Tail(r)
			hangul.IsHangul(r)
			hanja.IsHanja(r)
		case 6:
			hangul.SplitMultiElement(rune(i))
			hangul.SplitMultiElement(compats[i%len(compats)])
			hangul.Join(leads[i%len(leads)], medials[i%len(medials)], rune(i))
		case 7, 8:
			r, err := cp949.NewReader(someSource(i, in))
			if err != nil {
				return err
			}
			for {
				if _, err := r.Read(buf); err != nil || c.Op == 8 {
					break
				}
			}
		case 9:
			w, err := cp949.NewWriter(someSink(i))
			if err != nil {
				return err
			}
			w.Write(in)
		case 10:
			e.NewDecoder().Bytes(in)
		case 11:
			e.NewEncoder().Bytes(in)
		case 12, 14:
			src := &source{data: in, chunks: []int{5}, withData: i%2 == 0}
			if c.Op == 12 {
				src.err = failures[i%len(failures)]
			}
			r, err := cp949.NewReader(src)
			if err != nil {
				return err
			}
			for n, more := 0, 0; more < 4 && n < 10*len(in)+100; n++ {
				if _, err := r.Read(buf); err != nil {
					more++
				}
			}
		case 13:
			if _, err := cp949.NewReader(someSource(i, in)); err != nil {
				return err
			}
		case 15, 16:
			k := someSink(i)
			if c.Op == 15 {
				k = &failSink{after: 1 + i%9}
			}
			w, err := cp949.NewWriter(k)
			if err != nil {
				return err
			}
			w.Write(in[:5])
			w.Write(append(in[5:], 0xEA, 0xB0))
			w.Write(in[:1])
			w.Write([]byte{0xF0, 0x9F})
		case 17:
			r := e.NewDecoder().Reader(strings.NewReader(string(in)))
			r.Read(buf)
			e.NewEncoder().Writer(nowhere{}).Write(in)
		case 18:
			d, n := e.NewDecoder(), e.NewEncoder()
			d.Transform(buf[:i%3], in, i%2 == 0)
			n.Transform(buf[:i%3], in, i%2 == 0)
			d.Transform(buf, append(in, 0xB0), i%2 == 0)
			n.Transform(buf, append(in, 0xEA), i%2 == 0)
		case 19:
			if r, err := cp949.NewReader(&source{data: in, chunks: []int{7}, err: errBoom, panics: true}); err == nil {
				boom(func() {
					for n := 0; n < 10*len(in); n++ {
						r.Read(buf)
					}
				})
			}
			if w, err := cp949.NewWriter(&failSink{after: 3, panics: true}); err == nil {
				boom(func() { w.Write(in) })
			}
		}
	}
	return nil
}

var manyKind = K[many]{
	Name: "many",
	Check: func(c many) error {
		// A cache of bounded size is no leak; so it must grow further with more calls.
		n, start := c.N, cpuNow()
		for try := 0; ; try++ {
			g, err := runMany(c, n)
			if err != nil {
				return err
			}
			// about three bytes for each call
			if g <= max(n, 96<<10) {
				return nil
			} else if try == 6 || try >= 3 && cpuNow()-start > 15*time.Second {
				return fmt.Errorf("%s: in %d calls the memory in use grew by %d KB", manyNames[c.Op], n/2, g>>10)
			}
			n *= 2
		}
	},
	Class: func(c many) (string, bool) { return manyNames[c.Op], true },
	Enum: func(tier string, do func(many)) {
		for op := range manyNames {
			for _, u := range []string{"", "가나다漢字 abc", "\xb0\xa1\xc8\xfe", strings.Repeat("國 ", 40)} {
				n := 400000 / (10 + len(u))
				if op == 5 || op == 6 {
					n = 400000
				}
				do(many{op, seg([]byte(u)), smaller(n, n/8), 0})
			}
			for form := 1; form <= 3; form++ {
				if op != 5 && op != 6 {
					do(many{op, nil, smaller(40000, 5000), form})
				}
			}
		}
	},
	Gen: func(t *rapid.T) many {
		c := many{Op: pick(t, len(manyNames)), Form: pick(t, 4)}
		switch pick(t, 3) {
		case 0:
			c.Unit = cpSegs(t, false, 200)
		case 1:
			c.Unit = txSegs(t, false, 200)
		case 2:
			c.Unit = hanjaSegs(t, 200)
		}
		c.N = 400000 / (10 + len(c.Unit.bytes()))
		c.N = smaller(c.N, c.N/8)
		return c
	},
	NQ: 160, NT: 6400,
}.kind()
