package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"
	"unicode/utf8"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"
	"pgregory.net/rapid"
)

// ---- scripted source and sink

var failures = []error{
	io.EOF,
	errors.New("scripted failure"),
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	fmt.Errorf("wrapped: %w", io.EOF),
	fmt.Errorf("wrapped: %w", cp949.ErrCP949UnexpectedStream),
	failErr{7},
	io.ErrNoProgress,
	io.ErrShortBuffer,
	io.ErrShortWrite,
	transform.ErrShortSrc,
	transform.ErrShortDst,
	cp949.ErrCP949UnexpectedStream,
	syscall.EINTR,
	syscall.EAGAIN,
	os.ErrDeadlineExceeded,
	context.Canceled,
	bufio.ErrBufferFull,
	&tempErr{"try again"},
	listErr{"one", "two"},
}

// listErr can not be compared with ==, like lists of validation errors.
type listErr []string

func (e listErr) Error() string { return fmt.Sprint([]string(e)) }

// sameError tells if two errors are the same one.
func sameError(a, b error) bool {
	x, ok := a.(listErr)
	y, ok2 := b.(listErr)
	if ok && ok2 {
		return &x[0] == &y[0]
	}
	return !ok && !ok2 && a == b
}

var errLater = errors.New("another failure")

// tempErr calls itself temporary, as errors of package net do; it is an error all the same.
type tempErr struct{ s string }

func (e *tempErr) Error() string   { return e.s }
func (e *tempErr) Temporary() bool { return true }
func (e *tempErr) Timeout() bool   { return true }

type failErr struct{ n int }

func (e failErr) Error() string { return fmt.Sprintf("failure %d", e.n) }

// laters: what a source may do when it is asked again after its error.
var laters = []string{"repeats it", "io.EOF", "goes on with data", "nothing, then io.EOF", "another error", "data and io.EOF"}

// source delivers data in the scripted chunks, then err (nil: io.EOF), then what later says, for ever.
type source struct {
	data     []byte
	chunks   []int // cyclic; 0 = an empty read
	err      error
	withData bool // the error comes together with the last data
	later    int  // what follows the error: index in laters
	erred    bool
	panics   bool // instead of returning err
	before   func(supplied int)

	pos, calls, after int
	empties           int // empty reads since last reset by the caller
}

func (s *source) Read(p []byte) (int, error) {
	if s.before != nil {
		s.before(s.pos)
	}
	// io.Reader: all of p may be used as scratch space
	for i := 0; i < len(p) && i < 16; i++ {
		p[i] = 0xB0
	}
	if s.err == nil {
		s.err = io.EOF
	}
	if s.pos == len(s.data) {
		if s.after++; s.after > 10000 {
			panic("the source is read for ever after its end")
		}
		if s.erred {
			switch s.later {
			case 1:
				return 0, io.EOF
			case 2:
				if s.after < 20 {
					return copy(p, "\xb0\xa1zz"), nil
				}
				return 0, io.EOF
			case 3:
				if s.after < 5 {
					return 0, nil
				}
				return 0, io.EOF
			case 4:
				return 0, errLater
			case 5:
				return copy(p, "\xa1\xb0\xa1"), io.EOF
			}
		}
		s.erred = true
		if s.panics {
			panic(errBoom)
		}
		return 0, s.err
	}
	n := at(s.chunks, s.calls)
	s.calls++
	if n > len(s.data)-s.pos {
		n = len(s.data) - s.pos
	}
	if n > len(p) {
		n = len(p)
	}
	if n == 0 {
		s.empties++
		if s.empties > 20*len(s.data)+10000 {
			panic("the source is asked for nothing for ever")
		}
		return 0, nil
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	// io.Reader: all of p may be used as scratch space
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = 0xB0
	}
	if s.pos == len(s.data) && s.withData {
		s.erred = true
		return n, s.err
	}
	return n, nil
}

func newReader(x bool, src io.Reader) (io.Reader, error) {
	if x {
		return cp949.NewCP949Encoding().NewDecoder().Reader(src), nil
	}
	return cp949.NewReader(src)
}

func newWriter(x bool, w io.Writer) (io.Writer, func() error, error) {
	if x {
		e := cp949.NewCP949Encoding().NewEncoder().Writer(w)
		return e, closerOf(e), nil
	}
	e, err := cp949.NewWriter(w)
	return e, func() error { return nil }, err
}

func closerOf(w io.Writer) func() error {
	if c, ok := w.(io.Closer); ok {
		return c.Close
	}
	return func() error { return nil }
}

// readAll reads to the end with the given buffer sizes (zeros taken as 1).
func readAll(r io.Reader, bufs []int, steps int) ([]byte, error) {
	var out []byte
	for i := 0; ; i++ {
		if i > steps+10 {
			return out, errors.New("no end after as many reads as could be needed")
		}
		b := make([]byte, max(1, min(at(bufs, i), 1<<16)))
		n, err := r.Read(b)
		if n < 0 || n > len(b) {
			return out, fmt.Errorf("Read of %d bytes returned %d", len(b), n)
		}
		out = append(out, b[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// ---- streaming reader

type readCase struct {
	In       Segs  `json:"in"`
	Chunks   []int `json:"chunks"`   // of the source
	Bufs     []int `json:"bufs"`     // of the reads
	WithData bool  `json:"withdata"` // final error with the last data
	Fail     int   `json:"fail"`     // index in failures; 0 is io.EOF
	Later    int   `json:"later"`    // index in laters
}

type readMode struct {
	content, final, prompt bool
}

func runReader(c readCase, mode readMode) error {
	in := c.In.bytes()
	want, rest := mDecode(in)
	got := make([]byte, 0, len(want))
	src := &source{data: append([]byte(nil), in...), chunks: c.Chunks, err: failures[c.Fail], withData: c.WithData, later: c.Later}
	if sum(c.Chunks) == 0 || sum(c.Bufs) == 0 {
		panic(harnessError("all chunks empty"))
	}
	var notPrompt error
	if mode.prompt {
		// number of output bytes available once so many bytes are supplied
		avail := availTable(in)
		src.before = func(supplied int) {
			if a := avail(supplied); a > len(got) && notPrompt == nil {
				notPrompt = fmt.Errorf("the source is asked for more after supplying %d bytes, with %d bytes of text available and only %d returned", supplied, a, len(got))
			}
		}
	}
	r, err := cp949.NewReader(src)
	if err != nil {
		return fmt.Errorf("NewReader: %v", err)
	}
	wantErr := failures[c.Fail]
	if rest > 0 && c.Fail == 0 {
		wantErr = cp949.ErrCP949UnexpectedStream
	}
	sameErr := func(e error) bool {
		return sameError(e, wantErr) || rest > 0 && c.Fail == 0 && errors.Is(e, wantErr)
	}
	steps, limit := 0, len(want)+12*len(in)+200
	var large []byte
	fresh := func(n int) []byte { // of n bytes, with a fence behind
		if n < 20000 {
			return bytes.Repeat([]byte{0xC5}, n+8)
		}
		if len(large) < n+8 { // reused: there may be many reads of which each gets little
			large = make([]byte, n+8)
		}
		for j := n; j < n+8; j++ {
			large[j] = 0xC5
		}
		return large[:n+8]
	}
	var final error
	for i := 0; final == nil; i++ {
		n := at(c.Bufs, i)
		if n > 0 {
			steps++
		}
		if steps > limit {
			return fmt.Errorf("no end after %d reads", steps)
		}
		buf := fresh(n)
		src.empties = 0
		m, err := r.Read(buf[:n])
		if notPrompt != nil {
			return notPrompt
		}
		if m < 0 || m > n {
			return fmt.Errorf("Read into %d bytes returned %d", n, m)
		}
		for _, x := range buf[n:] {
			if x != 0xC5 {
				return fmt.Errorf("Read into %d bytes wrote behind its buffer", n)
			}
		}
		if n == 0 && err != nil && err != io.EOF && !sameErr(err) {
			return fmt.Errorf("Read into an empty buffer failed: %v", err)
		}
		if n > 0 && m == 0 && err == nil && src.empties == 0 {
			return errors.New("Read returned 0 bytes and no error")
		}
		got = append(got, buf[:m]...)
		for j := 0; j < len(buf) && j < m+20000; j++ {
			buf[j] = 0xEE // the buffer is the caller's again
		}
		if mode.content && (len(got) > len(want) || !bytes.Equal(got[len(got)-m:], want[len(got)-m:len(got)])) {
			return fmt.Errorf("stream: %s", diff(got, want))
		}
		if n == 0 && err != nil && len(got) < len(want) {
			return fmt.Errorf("Read into an empty buffer ended the stream: %v", err)
		}
		final = err
	}
	if mode.content && !bytes.Equal(got, want) {
		return fmt.Errorf("stream ended with %v after part of the text: %s", final, diff(got, want))
	}
	if mode.final {
		if !sameErr(final) {
			return fmt.Errorf("stream ended with error %v; want %v", final, wantErr)
		}
		for i := 0; i < 3; i++ {
			b := make([]byte, 5)
			if n, err := r.Read(b); n != 0 || !sameErr(err) {
				return fmt.Errorf("Read after the end returned %d, %v; want 0, %v", n, err, wantErr)
			}
		}
	}
	return nil
}

func sum(c []int) (s int) {
	for _, x := range c {
		s += x
	}
	return
}

// availTable maps a number of supplied bytes to the length of the text decodable from it.
func availTable(in []byte) func(int) int {
	t := make([]int32, len(in)+1)
	i, out := 0, 0
	for i < len(in) {
		if in[i] < 0x80 {
			out++
			i++
			t[i] = int32(out)
			continue
		}
		t[i+1] = int32(out)
		if i+1 == len(in) {
			break
		}
		if r := decTab[int(in[i])<<8|int(in[i+1])]; r > 0 && r < 0x800 {
			out += 2
		} else {
			out += 3
		}
		i += 2
		t[i] = int32(out)
	}
	return func(n int) int { return int(t[n]) }
}

func readClass(c readCase) (string, bool) {
	in := c.In.bytes()
	// does a chunk border fall inside a character?
	mid := false
	starts := make([]bool, len(in)+1)
	for i := 0; i < len(in); {
		starts[i] = true
		if in[i] < 0x80 {
			i++
		} else {
			i += 2
		}
	}
	starts[len(in)] = true
	for i, p := 0, 0; p < len(in); i++ {
		p += at(c.Chunks, i)
		if p < len(in) && !starts[p] {
			mid = true
		}
	}
	l := "chunks end between characters"
	if mid {
		l = "a chunk ends inside a character"
	}
	_, rest := mDecode(in)
	if rest > 0 {
		l += ", truncated"
	}
	if c.Fail > 0 {
		l += ", source fails"
	}
	if len(in) > 1000 {
		l += ", >1000 bytes"
	}
	return l, mid || rest > 0 || c.Fail > 0 && len(in) > 0
}

// partitions yields all ways of cutting n bytes into chunks.
func partitions(n int, do func([]int)) {
	if n == 0 {
		do([]int{1})
		return
	}
	for m := 0; m < 1<<(n-1); m++ {
		var c []int
		k := 1
		for i := 0; i < n-1; i++ {
			if m>>i&1 == 1 {
				c = append(c, k)
				k = 0
			}
			k++
		}
		do(append(c, k))
	}
}

// smallStreams yields every sequence of up to max units, with every cut into chunks.
func smallStreams(units []string, max int, do func(in string, c []int)) {
	var rec func(s string, n int)
	rec = func(s string, n int) {
		if len(s) <= 9 {
			partitions(len(s), func(c []int) { do(s, c) })
		}
		if n < max {
			for _, u := range units {
				rec(s+u, n+1)
			}
		}
	}
	rec("", 0)
}

func genRead(t *rapid.T, fail bool) readCase {
	c := readCase{In: cpSegs(t, false, 9000), Chunks: cuts(t, true, 9000), Bufs: cuts(t, true, 9000), WithData: rapid.Bool().Draw(t, "withdata")}
	if fail {
		c.Fail = 1 + pick(t, len(failures)-1)
		c.Later = pick(t, len(laters))
	}
	return c
}

func enumRead(fails []int, tier string, do func(readCase)) {
	depth, i := 3, 0
	one := do
	do = func(c readCase) {
		if c.Fail > 0 {
			i = (i*1103515245 + 12345) & 0x7fffffff
			c.Later = (i >> 16) % len(laters)
		}
		one(c)
	}
	if tier == "thorough" {
		depth = 4
	}
	smallStreams([]string{"a", "\xb0\xa1", "\xfe\xfe", "\xa2\xe6", "\xc9"}, depth, func(in string, c []int) {
		for _, bufs := range [][]int{{1}, {2}, {3}, {64}, {0, 1}} {
			for _, wd := range []bool{false, true} {
				for _, f := range fails {
					do(readCase{seg([]byte(in)), c, bufs, wd, f, 0})
				}
			}
		}
		if len(c) < 4 { // empty reads between the chunks
			e := []int{}
			for _, x := range c {
				e = append(e, 0, x, 0, 0)
			}
			for _, f := range fails {
				do(readCase{seg([]byte(in)), e, []int{2}, false, f, 0})
			}
		}
	})
	for n := 1; n < 1400; n++ {
		for _, f := range fails {
			if f > 1 {
				continue
			}
			do(readCase{Segs{{U: B("x"), N: n}, {U: B("\xb0\xa1\xc8\xfe"), N: 3}}, []int{n + 1}, []int{n}, n%2 == 0, f, 0})
			do(readCase{Segs{{U: B("\xb0\xa1"), N: n}}, []int{n}, []int{n + 1, 3}, n%2 == 0, f, 0})
			do(readCase{Segs{{U: B("\xb0\xa1"), N: n}, {U: B("\xb0"), N: 1}}, []int{1 << 20}, []int{1 << 12}, n%2 == 0, f, 0})
			do(readCase{Segs{{U: B("a\xb0\xa1"), N: n}, {U: B("\xfe\xb0"), N: n % 2}}, []int{3, 1}, []int{512}, n%2 == 0, f, 0})
		}
	}
	// long streams
	for i, n := range []int{11000, 22000, 33001, 100000} {
		for _, c := range [][3]int{{1, 7, 0}, {1 << 20, 1 << 20, 1}, {4096, 4096, 0}, {4095, 512, 1}, {65537, 32768, 0}, {7, 65536, 1}, {1000003, 3, 0}} {
			for _, f := range fails {
				if f > 1 {
					continue
				}
				do(readCase{Segs{{U: B("x"), N: i}, {U: B("\xb0\xa1a\xc8\xfe\xff\xff"), N: n / 2}, {U: B("\xb0"), N: i % 2}}, []int{c[0]}, []int{c[1]}, c[2] == 1, f, 0})
				do(readCase{Segs{{U: B("\xb0\xa1"), N: n}, {U: B("z"), N: 1}}, []int{c[0]}, []int{c[1]}, c[2] == 0, f, 0})
			}
		}
	}
	// big reads and then smaller ones
	for k := 12; k <= 20; k++ {
		if k%2 == 1 && tier != "thorough" {
			continue
		}
		for j, big := range []int{1 << k, 1<<k + 1} {
			for x := 0; x < 2; x++ {
				for i, small := range [][]int{{big, 4096, 512, 4096}, {big, 16, 30000, 3, 5000}, {512, big, big / 2}} {
					f := fails[(k+i)%len(fails)]
					if k > 14 && (i+k/2+j+x)%3 != 0 && tier != "thorough" {
						continue
					}
					chunk := []int{1 << 30}
					if (k/2+i)%3 == 2 {
						chunk = []int{big - 1, 1000, 3}
					}
					do(readCase{Segs{{U: B("x"), N: x}, {U: B("\xb0\xa1\xc8\xfe"), N: big * 5 / 8}, {U: B("z"), N: i}}, chunk, small, k%4 == 0, f, 0})
				}
			}
		}
	}
}

var readerKind = K[readCase]{
	Name:  "reader",
	Check: func(c readCase) error { return runReader(c, readMode{content: true, final: true}) },
	Class: readClass,
	Enum:  func(tier string, do func(readCase)) { enumRead([]int{0}, tier, do) },
	Gen:   func(t *rapid.T) readCase { return genRead(t, false) },
	NQ:    1200000, NT: 48000000,
}.kind()

var readerFailKind = K[readCase]{
	Name:  "readerfail",
	Check: func(c readCase) error { return runReader(c, readMode{content: true, final: true}) },
	Class: readClass,
	Enum:  func(tier string, do func(readCase)) { enumRead([]int{1, 2, 4, 7, 10, 12, 13, 18}, tier, do) },
	Gen:   func(t *rapid.T) readCase { return genRead(t, true) },
	NQ:    900000, NT: 36000000,
}.kind()

var readerPromptKind = K[readCase]{
	Name:  "readerprompt",
	Check: func(c readCase) error { return runReader(c, readMode{prompt: true}) },
	Class: readClass,
	Enum:  func(tier string, do func(readCase)) { enumRead([]int{0}, tier, do) },
	Gen:   func(t *rapid.T) readCase { return genRead(t, pick(t, 5) == 4) },
	NQ:    600000, NT: 24000000,
}.kind()

// ---- streaming writer

type sinkFail struct {
	At     int `json:"at"`     // which call of the sink fails
	Accept int `json:"accept"` // bytes it takes all the same; -1: all
	Err    int `json:"err"`    // index in failures
}

type writeCase struct {
	In    Segs       `json:"in"`
	Cuts  []int      `json:"cuts"`
	Fails []sinkFail `json:"fails,omitempty"`
}

type sink struct {
	got     []byte
	calls   int
	fails   []sinkFail
	last    error // error of the most recent failing call since reset
	partial bool  // it took something all the same
}

func (s *sink) Write(p []byte) (int, error) {
	i := s.calls
	s.calls++
	for _, f := range s.fails {
		if f.At == i {
			n := f.Accept
			if n < 0 || n > len(p) {
				n = len(p)
			}
			s.got = append(s.got, p[:n]...)
			s.last = failures[f.Err]
			s.partial = n > 0
			return n, s.last
		}
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

type writeMode struct{ prompt bool }

func runWriter(c writeCase, mode writeMode) error {
	in := c.In.bytes()
	want := mEncode(in[:len(in)-mHeld(in)])
	if sum(c.Cuts) == 0 {
		panic(harnessError("all cuts empty"))
	}
	s := &sink{fails: c.Fails}
	w, err := cp949.NewWriter(s)
	if err != nil {
		return fmt.Errorf("NewWriter: %v", err)
	}
	encoded, length := 0, 0 // so much input has been encoded to so much output by the model
	done, good := 0, 0      // good: so much of the sink's data has been compared
	for i := 0; done < len(in); i++ {
		n := min(at(c.Cuts, i), len(in)-done)
		data, same := within(in[done:done+n], i)
		s.last, s.partial = nil, false
		m, err := w.Write(data)
		if err := same(); err != nil {
			return fmt.Errorf("Write of %d bytes: %v", n, err)
		}
		for j := range data {
			data[j] = 0xEE // the argument is the caller's again
		}
		if m < 0 || m > n {
			return fmt.Errorf("Write of %d bytes returned %d", n, m)
		}
		if len(s.got) > len(want) || !bytes.Equal(s.got[good:], want[good:len(s.got)]) {
			return fmt.Errorf("sink: %s", diff(s.got, want))
		}
		good = len(s.got)
		if s.last != nil {
			if !sameError(err, s.last) {
				return fmt.Errorf("sink failed with %v, Write returned %d, %v", s.last, m, err)
			}
			if m == n && !bytes.Equal(s.got, mEncode(in[:done+n-mHeld(in[:done+n])])) {
				return fmt.Errorf("Write reports all %d bytes written although the sink failed", n)
			}
			if length := len(mEncode(in[:done+m-mHeld(in[:done+m])])); m > 0 && len(s.got) < length {
				return fmt.Errorf("the failing Write reports %d bytes written, %d bytes of output, and the sink has %d", m, length, len(s.got))
			}
			if s.partial && m < n {
				return nil // what was taken can not be resumed exactly
			}
			done += m
			continue
		}
		if err != nil || m != n {
			return fmt.Errorf("Write of %d bytes = %d, %v", n, m, err)
		}
		done += n
		if mode.prompt {
			whole := done - mHeld(in[:done])
			length += len(mEncode(in[encoded:whole]))
			encoded = whole
			if len(s.got) != length {
				return fmt.Errorf("after a write of %d bytes in all: %s", done, diff(s.got, want[:length]))
			}
		}
	}
	s.last = nil
	if m, err := w.Write(nil); m != 0 || err != nil {
		if s.last == nil {
			return fmt.Errorf("empty Write = %d, %v", m, err)
		}
	}
	if !bytes.Equal(s.got, want) {
		return fmt.Errorf("sink: %s", diff(s.got, want))
	}
	return nil
}

func writeClass(c writeCase) (string, bool) {
	in := c.In.bytes()
	mid := false
	for i, p := 0, 0; p < len(in); i++ {
		p += at(c.Cuts, i)
		if p < len(in) && mHeld(in[:p]) > 0 {
			mid = true
		}
	}
	l := "cut between characters"
	if mid {
		l = "cut inside a character"
	}
	if mHeld(in) > 0 {
		l += ", incomplete end"
	}
	if len(c.Fails) > 0 {
		l += ", sink fails"
		for _, f := range c.Fails {
			if f.Accept != 0 {
				l += " after taking data"
				break
			}
		}
	}
	if len(in) > 1000 {
		l += ", >1000 bytes"
	}
	return l, mid || mHeld(in) > 0 || len(c.Fails) > 0
}

var smallText = []string{"a", "é", "가", "€", "\U0001F600", "\xea", "\x80", "\xf0\x9f"}

func enumWrite(tier string, do func(writeCase), fails bool) {
	depth := 3
	if tier == "thorough" {
		depth = 4
	}
	smallStreams(smallText, depth, func(in string, c []int) {
		if !fails {
			do(writeCase{In: seg([]byte(in)), Cuts: c})
			if len(c) < 4 {
				e := []int{0}
				for _, x := range c {
					e = append(e, x, 0)
				}
				do(writeCase{In: seg([]byte(in)), Cuts: e})
			}
			return
		}
		if len(in) > 7 && tier != "thorough" {
			return
		}
		for k := 0; k < len(c) && k < 4; k++ {
			do(writeCase{seg([]byte(in)), c, []sinkFail{{k, 0, 1}}})
			do(writeCase{seg([]byte(in)), c, []sinkFail{{k, 0, 1}, {k + 1, 0, 2}}})
			do(writeCase{seg([]byte(in)), c, []sinkFail{{k, 1, 3}}})
		}
	})
	for n := 1; n < 1400; n++ {
		var f []sinkFail
		if fails {
			f = []sinkFail{{n % 3, 0, 1}, {n%3 + 2, n % 2, 0}}
		}
		do(writeCase{Segs{{U: B("x"), N: n}, {U: B("가힣"), N: 3}}, []int{n + 1, 1}, f})
		do(writeCase{Segs{{U: B("가"), N: n}}, []int{n}, f})
		do(writeCase{Segs{{U: B("a가é"), N: n}, {U: B("\xea\xb0"), N: 1}}, []int{n, 1, 511}, f})
	}
	// long streams (with small pieces not too long, since every write is checked)
	for i, n := range []int{3000, 11000, 22000, 33001, 100000} {
		for _, c := range []int{1, 7, 512, 4096, 4097, 65537, 1 << 20} {
			if n/c > 12000 {
				continue
			}
			var f []sinkFail
			if fails {
				f = []sinkFail{{i, 0, 1}, {i + 2, i % 2, 2}}
			}
			do(writeCase{Segs{{U: B("x"), N: i}, {U: B("가a힣\xff"), N: n / 3}, {U: B("\xea\xb0"), N: i % 2}}, []int{c}, f})
			do(writeCase{Segs{{U: B("가"), N: n}, {U: B("z"), N: 1}}, []int{c, 1}, f})
		}
	}
	// big writes and then small ones
	for k := 12; k <= 20; k++ {
		if k%2 == 1 && tier != "thorough" {
			continue
		}
		big := 1<<k + k%3
		for x := 0; x < 3; x++ {
			for j := 0; j < 5; j++ {
				var f []sinkFail
				if fails && j < 4 { // also if the code calls the sink several times for a write
					f = []sinkFail{{j, 0, 1}, {j + 4, 0, 2}}
				} else if fails {
					f = []sinkFail{{1, 700, 1}}
				} else if j > 1 {
					continue
				}
				if k > 16 && (x+j+k/2)%3 != 0 && tier != "thorough" {
					continue
				}
				do(writeCase{Segs{{U: B("x"), N: x}, {U: B("가a힣"), N: big/5 + 1}, {U: B("é"), N: 40000}}, []int{big + big/8, 1, big / 9, 5000, 3, 30000}, f})
			}
		}
	}
}

var writerKind = K[writeCase]{
	Name:  "writer",
	Check: func(c writeCase) error { return runWriter(c, writeMode{}) },
	Class: writeClass,
	Enum:  func(tier string, do func(writeCase)) { enumWrite(tier, do, false) },
	Gen:   func(t *rapid.T) writeCase { return writeCase{In: txSegs(t, false, 9000), Cuts: cuts(t, true, 9000)} },
	NQ:    1500000, NT: 60000000,
}.kind()

var writerPromptKind = K[writeCase]{
	Name:  "writerprompt",
	Check: func(c writeCase) error { return runWriter(c, writeMode{prompt: true}) },
	Class: writeClass,
	Enum:  func(tier string, do func(writeCase)) { enumWrite(tier, do, false) },
	Gen:   func(t *rapid.T) writeCase { return writeCase{In: txSegs(t, false, 1000), Cuts: cuts(t, true, 1000)} },
	NQ:    600000, NT: 24000000,
}.kind()

var writerFailKind = K[writeCase]{
	Name:  "writerfail",
	Check: func(c writeCase) error { return runWriter(c, writeMode{}) },
	Class: writeClass,
	Enum:  func(tier string, do func(writeCase)) { enumWrite(tier, do, true) },
	Gen: func(t *rapid.T) writeCase {
		c := writeCase{In: txSegs(t, false, 6000), Cuts: cuts(t, true, 6000)}
		at := 0
		for i := rapid.IntRange(1, 4).Draw(t, "fails"); i > 0; i-- {
			at += rapid.IntRange(0, 3).Draw(t, "gap")
			f := sinkFail{At: at, Err: pick(t, len(failures))}
			switch weighted(t, 3, 1, 1) {
			case 1:
				f.Accept = rapid.IntRange(1, 40).Draw(t, "accept")
			case 2:
				f.Accept = -1
			}
			c.Fails = append(c.Fails, f)
			at++
		}
		return c
	},
	NQ: 900000, NT: 36000000,
}.kind()

// ---- x/text

const (
	modeBytes = iota
	modeString
	modeReader
	modeWriter
	modeDirect
	modeChain
	nModes
)

type xitem struct {
	In   Segs  `json:"in"`
	Mode int   `json:"mode"`
	Dst  []int `json:"dst"` // destination sizes, or read buffer sizes
	Src  []int `json:"src"` // source windows, or chunk sizes
	Late bool  `json:"late"`
}

type xcase struct {
	Enc   bool    `json:"enc"`
	Items []xitem `json:"items"` // converted one after the other by one decoder or encoder
}

func checkX(c xcase) error {
	e := cp949.NewCP949Encoding()
	var (
		dec = e.NewDecoder()
		enc = e.NewEncoder()
	)
	for i, it := range c.Items {
		if err := checkXItem(e, dec, enc, c.Enc, it); err != nil {
			return fmt.Errorf("item %d: %v", i, err)
		}
	}
	return nil
}

func checkXItem(e encoding.Encoding, dec *encoding.Decoder, enc *encoding.Encoder, isEnc bool, it xitem) error {
	in := it.In.bytes()
	var want []byte
	rest := 0
	var tr transform.Transformer = dec.Transformer
	if isEnc {
		want = mEncode(in)
		tr = enc.Transformer
	} else {
		want, rest = mDecode(in)
	}
	keep := append([]byte(nil), in...)
	if sum(it.Dst) == 0 || sum(it.Src) == 0 {
		panic(harnessError("all sizes empty"))
	}
	var got []byte
	var err error
	partial := false // got holds the output before an error
	switch it.Mode {
	case modeBytes:
		if isEnc {
			got, err = enc.Bytes(in)
		} else {
			got, err = dec.Bytes(in)
		}
	case modeString:
		var s string
		if isEnc {
			s, err = enc.String(string(in))
		} else {
			s, err = dec.String(string(in))
		}
		got = []byte(s)
	case modeReader:
		partial = true
		src := &source{data: in, chunks: noZero(it.Src)}
		var r io.Reader
		if isEnc {
			r = transform.NewReader(src, enc)
		} else {
			r = dec.Reader(src)
		}
		got, err = readAll(r, it.Dst, len(want)+len(in)+10)
	case modeWriter:
		partial = true
		s := &sink{}
		var w io.Writer
		if isEnc {
			w = enc.Writer(s)
		} else {
			w = transform.NewWriter(s, dec)
		}
		b := append([]byte(nil), in...)
		for i := 0; len(b) > 0 && err == nil; i++ {
			n := min(at(it.Src, i), len(b))
			var m int
			m, err = w.Write(b[:n])
			if err == nil && m != n {
				return fmt.Errorf("Write of %d bytes = %d", n, m)
			}
			b = b[n:]
		}
		if err == nil {
			err = closerOf(w)()
		}
		got = s.got
	case modeChain:
		if rest > 0 {
			return nil
		}
		tr := transform.Chain(dec, enc)
		back := mEncode(want)
		if isEnc {
			tr = transform.Chain(enc, dec)
			back, _ = mDecode(want)
		}
		want = back
		got, _, err = transform.Bytes(tr, in)
	case modeDirect:
		partial = true
		got, err = direct(tr, in, want, it, isEnc)
		if _, bad := err.(contractErr); bad {
			return err
		}
	}
	if !bytes.Equal(in, keep) {
		return errors.New("the source was modified")
	}
	if rest > 0 {
		if !errors.Is(err, cp949.ErrCP949UnexpectedStream) {
			return fmt.Errorf("mode %d: truncated input gives error %v; want ErrCP949UnexpectedStream", it.Mode, err)
		}
		if partial && !bytes.Equal(got, want) {
			return fmt.Errorf("mode %d: text before the truncated character: %s", it.Mode, diff(got, want))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("mode %d: %v", it.Mode, err)
	}
	if !bytes.Equal(got, want) {
		return fmt.Errorf("mode %d: %s", it.Mode, diff(got, want))
	}
	return nil
}

type contractErr struct{ error }

// direct drives Transform with scripted source windows and destination sizes and checks
// the contract of transform.Transformer at every call.
func direct(tr transform.Transformer, in, want []byte, it xitem, isEnc bool) ([]byte, error) {
	bad := func(f string, a ...any) ([]byte, error) { return nil, contractErr{fmt.Errorf(f, a...)} }
	tr.Reset()
	var out []byte
	pos, extra, stuck := 0, 0, 0
	limit := 60*len(in) + 2000 + len(in)*(len(it.Src)+len(it.Dst))
	for i := 0; ; i++ {
		if i > limit {
			return bad("no end after %d calls of Transform", i)
		}
		w := at(it.Src, i) + extra
		if w > len(in)-pos {
			w = len(in) - pos
		}
		n := at(it.Dst, i)
		if stuck > len(it.Src)+len(it.Dst) { // sizes which go round without progress
			n, w = max(n, 16), min(len(in)-pos, max(w, 8))
		}
		atEOF := pos+w == len(in) && !(it.Late && w > 0 && extra < 8)
		dst := bytes.Repeat([]byte{0xC5}, n+8)
		src := append([]byte(nil), in[pos:pos+w]...)
		src = append(src, 0xB0, 0xA1) // not part of the window
		nd, ns, err := tr.Transform(dst[:n], src[:w], atEOF)
		if nd < 0 || nd > n || ns < 0 || ns > w {
			return bad("Transform(dst %d, src %d) = %d, %d, %v", n, w, nd, ns, err)
		}
		if !bytes.Equal(src[:w], in[pos:pos+w]) || src[w] != 0xB0 || src[w+1] != 0xA1 {
			return bad("Transform modified its source")
		}
		for _, x := range dst[n:] {
			if x != 0xC5 {
				return bad("Transform wrote behind its destination of %d bytes", n)
			}
		}
		consumed := in[:pos+ns]
		var upto []byte
		if isEnc {
			if !(atEOF && pos+ns == len(in)) && mHeld(consumed) > 0 && ns > 0 {
				// inside a character only if what was cut off is not one after all
				if _, whole := nextChar(in, pos+ns); whole {
					return bad("source consumed up to the middle of a character")
				}
			}
			upto = mEncode(in[pos : pos+ns])
		} else {
			var r int
			upto, r = mDecode(in[pos : pos+ns])
			if r > 0 && ns > 0 {
				return bad("source consumed up to the middle of a character")
			}
		}
		out = append(out, dst[:nd]...)
		// (pos is not inside a character, so the conversion of the whole consumed source
		// is that of its parts)
		if !bytes.Equal(dst[:nd], upto) {
			return bad("source bytes %d to %d: %s", pos, pos+ns, diff(dst[:nd], upto))
		}
		pos += ns
		if stuck++; ns > 0 {
			stuck = 0
		}
		switch err {
		case nil:
			if ns != w {
				return bad("Transform returned no error with %d of %d source bytes left", w-ns, w)
			}
			extra = 0
			if atEOF {
				return out, nil
			}
		case transform.ErrShortDst:
			if n-nd >= 8 {
				return bad("ErrShortDst with %d free bytes", n-nd)
			}
			if ns == w && !atEOF {
				return bad("ErrShortDst with all source consumed")
			}
		case transform.ErrShortSrc:
			left := in[pos : pos+w-ns]
			if atEOF {
				return bad("ErrShortSrc at the end of the source")
			}
			if isEnc && (len(left) == 0 || mHeld(left) != len(left)) || !isEnc && !(len(left) == 1 && left[0] >= 0x80) {
				return bad("ErrShortSrc with % x left, which is not an incomplete character", short2(left))
			}
			extra += 4
		default:
			return out, err
		}
	}
}

// nextChar says whether the incomplete character ending at n is completed by in[n:].
func nextChar(in []byte, n int) (int, bool) {
	h := mHeld(in[:n])
	_, w := utf8.DecodeRune(in[n-h:])
	return w, w > h
}

func noZero(c []int) []int {
	r := make([]int, len(c))
	for i, x := range c {
		r[i] = max(1, x)
	}
	return r
}

func xClass(c xcase) (string, bool) {
	l := "decoder"
	if c.Enc {
		l = "encoder"
	}
	big, hi := false, false
	for _, it := range c.Items {
		n := 0
		for _, s := range it.In {
			n += len(s.U) * s.N
			for _, b := range s.U {
				hi = hi || b >= 0x80
			}
		}
		big = big || n > 2500
	}
	l = fmt.Sprintf("%s mode %d", l, c.Items[0].Mode)
	if len(c.Items) > 1 {
		l += ", reused"
	}
	if big {
		l += ", larger than the x/text buffers hold"
	}
	return l, hi
}

var xKind = K[xcase]{
	Name:  "xtext",
	Check: checkX,
	Class: xClass,
	Enum: func(tier string, do func(xcase)) {
		// small inputs, every window partition, every small destination
		smallStreams([]string{"a", "\xb0\xa1", "\xfe\xfe", "\xc9"}, 3, func(in string, c []int) {
			for _, d := range []int{1, 2, 3, 4, 5, 64} {
				for _, late := range []bool{false, true} {
					do(xcase{false, []xitem{{seg([]byte(in)), modeDirect, []int{d}, c, late}}})
				}
			}
			do(xcase{false, []xitem{{seg([]byte(in)), modeWriter, []int{1}, c, false}}})
			do(xcase{false, []xitem{{seg([]byte(in)), modeReader, []int{2}, c, false}}})
		})
		smallStreams(smallText, 3, func(in string, c []int) {
			if len(in) > 7 && tier != "thorough" {
				return
			}
			for _, d := range []int{1, 2, 3, 64} {
				do(xcase{true, []xitem{{seg([]byte(in)), modeDirect, []int{d}, c, len(c)%2 == 0}}})
			}
			do(xcase{true, []xitem{{seg([]byte(in)), modeWriter, []int{1}, c, false}}})
			do(xcase{true, []xitem{{seg([]byte(in)), modeReader, []int{2}, c, false}}})
		})
		// every alignment at the buffers of x/text
		for _, base := range []int{0, 127, 128, 4096, 8192, 12288} {
			for off := -6; off <= 6; off++ {
				if base+off < 0 {
					continue
				}
				for mode := 0; mode < nModes; mode++ {
					for _, u := range []string{"\xb0\xa1", "\xff\xff", "a\xb0\xa1", "\xa1\xa1\x81"} {
						do(xcase{false, []xitem{{Segs{{U: B("x"), N: base + off}, {U: B(u), N: 3000}}, mode, []int{4096}, []int{4096}, off%2 == 0}}})
						do(xcase{false, []xitem{{Segs{{U: B(u), N: (base + off) / 2}, {U: B("\xb0"), N: 1}}, mode, []int{4096}, []int{4096}, off%2 == 0}}})
					}
					for _, u := range []string{"가", "é\xea", "a가", "\U0001F600", "\xea\xb0"} {
						do(xcase{true, []xitem{{Segs{{U: B("x"), N: base + off}, {U: B(u), N: 3000}}, mode, []int{4096}, []int{4096}, off%2 == 0}}})
						do(xcase{true, []xitem{{Segs{{U: B(u), N: (base + off) / 2}, {U: B("\xea\xb0"), N: 1}}, mode, []int{4096}, []int{4096}, off%2 == 0}}})
					}
				}
			}
		}
		// big windows and destinations
		for k := 14; k <= 20; k += 2 {
			for mode := 0; mode < nModes; mode++ {
				for i, dst := range [][]int{{1 << 22}, {1<<k + k%3, 7, 600}, {5, 1 << k}} {
					for j, src := range [][]int{{1 << 22}, {1<<k + i, 3, 5000}, {1<<k/2 + 1}} {
						if k > 16 && (i+j+mode+k/2)%3 != 0 && tier != "thorough" {
							continue
						}
						x := (i + 2*j + mode) % 3
						do(xcase{false, []xitem{{Segs{{U: B("x"), N: x}, {U: B("\xb0\xa1\xc8\xfe"), N: 1 << k / 3}, {U: B("\xb0"), N: i % 2}}, mode, dst, src, j%2 == 0}}})
						do(xcase{true, []xitem{{Segs{{U: B("x"), N: x}, {U: B("가a힣é\xff"), N: 1 << k / 5}, {U: B("\xea\xb0"), N: i % 2}}, mode, dst, src, j%2 == 0}}})
					}
				}
			}
		}
	},
	Gen: func(t *rapid.T) xcase {
		c := xcase{Enc: rapid.Bool().Draw(t, "enc")}
		for i := rapid.IntRange(1, 3).Draw(t, "items"); i > 0; i-- {
			it := xitem{Mode: weighted(t, 2, 1, 2, 2, 5, 1), Dst: cuts(t, true, 9000), Src: cuts(t, true, 9000), Late: rapid.Bool().Draw(t, "late")}
			if c.Enc {
				it.In = txSegs(t, false, 9000)
			} else {
				it.In = cpSegs(t, false, 9000)
			}
			c.Items = append(c.Items, it)
		}
		return c
	},
	NQ: 600000, NT: 24000000,
}.kind()
