package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"unicode/utf8"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/encoding"
	"pgregory.net/rapid"
)

// ---- histories of calls, shared by the properties on independence and concurrency

const (
	opFrom = iota
	opTo
	opConvert
	opRune     // every function on single runes
	opMulti    // SplitMultiElement, result kept
	opJoin     // Join
	opWord     // LastConsonant, EndsWithConsonant, AppendPostposition
	opOpenR    // open a reader in a slot: In is what its source holds
	opRead     // read from a slot
	opOpenW    // open a writer in a slot
	opWrite    // write to a slot
	opDec      // Bytes of the slot's decoder
	opEnc      // Bytes of the slot's encoder
	opXform    // one Transform call
	opScribble // overwrite and append to a slice returned before
	nOps
)

var opNames = []string{"From", "To", "Convert", "rune functions", "SplitMultiElement", "Join", "word functions", "open reader", "Read", "open writer", "Write", "decoder Bytes", "encoder Bytes", "Transform", "scribble"}

const nSlots = 4

type op struct {
	Op   int   `json:"op"`
	In   Segs  `json:"in,omitempty"`
	R    rune  `json:"r,omitempty"`
	Rep  int   `json:"rep,omitempty"`  // done so many times more, R moved by Step
	Step rune  `json:"step,omitempty"` // if 0, the very same call
	Slot int   `json:"slot,omitempty"`
	X    bool  `json:"x,omitempty"` // the reader or writer is the one of x/text
	N    int   `json:"n,omitempty"` // size of a buffer, which slice, which join
	Cuts []int `json:"cuts,omitempty"`
	Fail int   `json:"fail,omitempty"` // how the source ends; after how many bytes the sink fails, 0: never
	Boom bool  `json:"boom,omitempty"` // the source or sink panics where it would fail or end, and the caller recovers
	Use  int   `json:"use,omitempty"`  // if not 0, In is this of the earlier results, not a copy
	Mine bool  `json:"mine,omitempty"` // In lies in a buffer which the caller uses over and over
	Nest bool  `json:"nest,omitempty"` // the source or sink itself converts something meanwhile
}

type kept struct {
	b, want []byte // all of its array
	n       int    // length of the result
	r, rw   []rune
	s       string // strings change only by misuse of unsafe, but then they do
	sw      []byte
	what    string
}

type rslot struct {
	r    io.Reader
	src  *source
	want []byte
	rest int
	pos  int
	end  bool
	fail error
}

type wslot struct {
	w    io.Writer
	s    *failSink
	x    bool
	in   []byte
	open bool

	failed bool
}

type session struct {
	e    *cp949.CP949Encoding
	r    [nSlots]rslot
	w    [nSlots]wslot
	dec  [nSlots]*encoding.Decoder
	enc  [nSlots]*encoding.Encoder
	kept []kept

	yield, n int
	fill     int
	mine     []byte
	nested   error // what went wrong in a conversion made by a source or sink
}

// nest converts something, called by a source or sink in the middle of another call.
func (s *session) nest(n int) {
	r := chars[n*7919%len(chars)]
	tx := append(append([]byte("n"), string(r)...), "é漢!"...)
	cp := mEncode(tx)
	bad := func(what string, got, want []byte, err error) {
		if s.nested == nil && (err != nil || !bytes.Equal(got, want)) {
			s.nested = fmt.Errorf("%s called by a source or sink: %v, %s", what, err, diff(got, want))
		}
	}
	out, err := cp949.To(tx)
	bad("To", out, cp, err)
	want, _ := mDecode(cp)
	got, err := cp949.From(cp)
	bad("From", got, want, err)
	bad("To, later", out, cp, nil)
	c := hanja.Convert(string(tx))
	bad("Convert", []byte(c), []byte(mConvert(string(tx))), nil)
	if r, err := cp949.NewReader(bytes.NewReader(cp)); err == nil {
		got, err := io.ReadAll(r)
		bad("another reader", got, want, err)
	}
	var k bytes.Buffer
	if w, err := cp949.NewWriter(&k); err == nil {
		_, err := w.Write(tx)
		bad("another writer", k.Bytes(), cp, err)
	}
	x, err := s.e.NewDecoder().Bytes(cp)
	bad("another decoder", x, want, err)
	x, err = s.e.NewEncoder().Bytes(tx)
	bad("another encoder", x, cp, err)
}

// failSink fails for ever after so many bytes (0: never).
type failSink struct {
	sink
	after int
	call  func(n int)
	calls int

	panics bool
}

func (k *failSink) Write(p []byte) (int, error) {
	keep := append([]byte(nil), p...)
	if k.call != nil {
		k.calls++
		k.call(k.calls)
	}
	if !bytes.Equal(keep, p) {
		return 0, errors.New("what the sink is given changes under its hands")
	}
	if k.after > 0 && len(k.got)+len(p) > k.after {
		if k.panics {
			panic(errBoom)
		}
		n := k.after - len(k.got)
		k.got = append(k.got, p[:n]...)
		return n, errSink
	}
	k.got = append(k.got, p...)
	return len(p), nil
}

var errBoom = errors.New("the source or sink panics")

// boom calls f and tells if a source or sink panicked in it.
func boom(f func()) (yes bool) {
	defer func() {
		if p := recover(); p != nil {
			if p != errBoom {
				panic(p)
			}
			yes = true
		}
	}()
	f()
	return false
}

var errSink = errors.New("the sink is full")

func (s *session) keep(b, want []byte, what string) {
	if len(s.kept) >= 64 {
		s.kept = s.kept[1:]
	}
	// the caller appends to it
	all := b[:cap(b)]
	s.fill++
	for i := len(b); i < len(all); i++ {
		all[i] = byte(s.fill + i*7)
	}
	w := append([]byte(nil), want...)
	w = append(w, all[len(b):]...)
	s.kept = append(s.kept, kept{b: all, n: len(b), want: w, what: what})
}

func (s *session) keepString(str, what string) {
	if len(s.kept) >= 64 {
		s.kept = s.kept[1:]
	}
	s.kept = append(s.kept, kept{s: str, sw: []byte(str), what: what})
}

func (s *session) verify() error {
	for _, k := range s.kept {
		if k.s != string(k.sw) {
			return fmt.Errorf("a string returned by %s has changed: %s", k.what, diff([]byte(k.s), k.sw))
		}
		if !bytes.Equal(k.b, k.want) {
			return fmt.Errorf("a slice returned by %s has changed: %s", k.what, diff(k.b, k.want))
		}
		if string(k.r) != string(k.rw) {
			return fmt.Errorf("a slice returned by %s has changed: %q, was %q", k.what, string(k.r), string(k.rw))
		}
	}
	return nil
}

func (s *session) run(ops []op) error {
	for i, o := range ops {
		for k := 0; k <= o.Rep; k++ {
			if s.n++; s.yield > 0 && s.n%s.yield == 0 {
				runtime.Gosched()
			}
			err := s.do1(o, o.R+rune(k)*o.Step)
			if err == nil {
				err = s.nested
			}
			if err != nil {
				return fmt.Errorf("op %d (%s), repetition %d: %v", i, opNames[o.Op], k, err)
			}
		}
		if len(s.kept) < 12 || i%8 == 7 {
			if err := s.verify(); err != nil {
				return fmt.Errorf("after op %d (%s): %v", i, opNames[o.Op], err)
			}
		}
	}
	// the open streams, to their end, in turn
	for n, more := 0, 3; more > 0; n++ {
		more--
		for i := range s.r {
			if s.r[i].r == nil {
				continue
			}
			if !s.r[i].end {
				more = 3 // and three times more after that
			}
			if err := s.do1(op{Op: opRead, Slot: i, N: 1 + n*7%50}, 0); err != nil {
				return fmt.Errorf("reading slot %d to its end: %v", i, err)
			}
			if err := s.nested; err != nil {
				return err
			}
		}
	}
	for i := range s.w {
		if w := &s.w[i]; w.open && w.x {
			var err error
			if boom(func() { err = closerOf(w.w)() }) {
				continue
			}
			if w.s.after > 0 && len(mEncode(w.in)) > w.s.after {
				if err != errSink {
					return fmt.Errorf("closing writer %d: %v; want the error of the sink", i, err)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("closing writer %d: %v", i, err)
			}
			if want := mEncode(w.in); !bytes.Equal(w.s.got, want) {
				return fmt.Errorf("writer %d: %s", i, diff(w.s.got, want))
			}
		}
	}
	return s.verify()
}

func eq(what string, got, want []byte) error {
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%s: %s", what, diff(got, want))
	}
	return nil
}

func (s *session) do1(o op, r rune) error {
	// an input of the operation: its text, or the character r
	in := o.In.bytes()
	if o.In == nil {
		in = []byte(string(r))
		if o.Op == opFrom || o.Op == opDec || o.Op == opOpenR {
			in = []byte{byte(r >> 8), byte(r)}
		}
	}
	arg, same := within(in, s.n)
	if o.Mine && len(in) <= 16384 {
		if s.mine == nil {
			s.mine = make([]byte, 16384)
		}
		arg = s.mine[:copy(s.mine, in)]
		same = func() error {
			if !bytes.Equal(arg, in) {
				return errors.New("the argument was modified")
			}
			return nil
		}
	}
	if o.Use > 0 && len(s.kept) > 0 { // an earlier result, as it is
		if k := s.kept[(o.Use-1)%len(s.kept)]; k.n > 0 {
			arg, in = k.b[:k.n], append([]byte(nil), k.b[:k.n]...)
			same = s.verify
		}
	}
	argKept := func() error {
		if err := same(); err != nil {
			return err
		}
		if o.Use == 0 && !o.Mine {
			for i := range arg { // the caller's again
				arg[i] = 0xEE
			}
		}
		return nil
	}
	slot := o.Slot % nSlots
	switch o.Op {
	case opFrom, opDec:
		var out []byte
		var err error
		if o.Op == opFrom {
			out, err = cp949.From(arg)
		} else {
			if s.dec[slot] == nil {
				s.dec[slot] = s.e.NewDecoder()
			}
			if o.X {
				if str, err := s.dec[slot].String(string(in)); err == nil {
					s.keepString(str, "String of a decoder")
				}
			}
			out, err = s.dec[slot].Bytes(arg)
		}
		want, rest := mDecode(in)
		if rest > 0 {
			if !errors.Is(err, cp949.ErrCP949UnexpectedStream) {
				return fmt.Errorf("truncated input gives error %v", err)
			}
			return argKept()
		}
		if err != nil {
			return err
		}
		if err := eq("result", out, want); err != nil {
			return err
		}
		s.keep(out, want, opNames[o.Op])
		return argKept()
	case opTo, opEnc:
		var out []byte
		var err error
		if o.Op == opTo {
			out, err = cp949.To(arg)
		} else {
			if s.enc[slot] == nil {
				s.enc[slot] = s.e.NewEncoder()
			}
			if o.X {
				if str, err := s.enc[slot].String(string(in)); err == nil {
					s.keepString(str, "String of an encoder")
				}
			}
			out, err = s.enc[slot].Bytes(arg)
		}
		if err != nil {
			return err
		}
		want := mEncode(in)
		if err := eq("result", out, want); err != nil {
			return err
		}
		s.keep(out, want, opNames[o.Op])
		return argKept()
	case opConvert:
		t := toValid(in)
		out := hanja.Convert(t)
		if err := eq("Convert", []byte(out), []byte(mConvert(t))); err != nil {
			return err
		}
		s.keepString(out, "Convert")
		if _, is := hanjaTab[r]; hanja.IsHanja(r) != is {
			return fmt.Errorf("IsHanja(%s) = %v", runeStr(r), !is)
		}
	case opRune:
		for _, f := range []func(rune) error{checkSplit, checkConv, checkClass, checkStroke} {
			if err := f(r); err != nil {
				return err
			}
		}
	case opMulti:
		if err := checkMulti(r); err != nil {
			return err
		}
		if m, ok := hangul.SplitMultiElement(r); ok || cap(m) > 0 {
			if len(s.kept) >= 64 {
				s.kept = s.kept[1:]
			}
			all := m[:cap(m)]
			s.fill++
			for i := len(m); i < len(all); i++ { // the caller appends to it
				all[i] = rune(s.fill<<8 + i)
			}
			s.kept = append(s.kept, kept{r: all, rw: append([]rune(nil), all...), what: "SplitMultiElement"})
		}
	case opJoin:
		c := triple{leads[o.N%19], medials[(o.N/19)%21], r}
		if o.N%2 == 1 {
			c.L, c.M = mComp[c.L], mComp[c.M]
		}
		return checkJoin(c)
	case opWord:
		w := o.In
		if w == nil {
			w = seg(in)
		}
		if err := checkWord(word{w}); err != nil {
			return err
		}
		p := postPairs[o.N%len(postPairs)]
		s.keepString(hangul.AppendPostposition(string(w.bytes()), p[0], p[1]), "AppendPostposition")
		return checkPost(post{w, B(p[0]), B(p[1])})
	case opOpenR:
		want, rest := mDecode(in)
		x := rslot{want: want, rest: rest, fail: failures[o.Fail%len(failures)]}
		src := &source{data: in, chunks: o.Cuts, err: x.fail, withData: o.N%2 == 1 && !o.Boom, panics: o.Boom}
		if sum(o.Cuts) == 0 {
			src.chunks = []int{1}
		}
		x.src = src
		if o.Nest {
			src.before = s.nest
		}
		var rd io.Reader
		var err error
		if o.X {
			rd = s.e.NewDecoder().Reader(src)
		} else if rd, err = cp949.NewReader(src); err != nil {
			return err
		}
		x.r = rd
		s.r[slot] = x
	case opRead:
		x := &s.r[slot]
		if x.r == nil {
			return nil
		}
		buf := bytes.Repeat([]byte{0xC5}, max(o.N, 1)+4)
		x.src.empties = 0
		var n int
		var err error
		if boom(func() { n, err = x.r.Read(buf[: len(buf)-4 : len(buf)-4]) }) {
			x.r = nil // not used any more
			return nil
		}
		if n < 0 || n > len(buf)-4 || !bytes.Equal(buf[len(buf)-4:], []byte("\xC5\xC5\xC5\xC5")) {
			return fmt.Errorf("Read of %d bytes returned %d or wrote past its buffer", len(buf)-4, n)
		}
		if n > len(x.want)-x.pos {
			return fmt.Errorf("%d bytes too many from the stream", n-(len(x.want)-x.pos))
		}
		if e := eq("stream", buf[:n], x.want[x.pos:x.pos+n]); e != nil {
			return e
		}
		s.keep(buf[:n], x.want[x.pos:x.pos+n], "Read")
		x.pos += n
		if n == 0 && err == nil && x.src.empties == 0 {
			return errors.New("Read returned nothing")
		}
		if err != nil {
			x.end = true
			want := x.fail
			if want == io.EOF && x.rest > 0 {
				want = cp949.ErrCP949UnexpectedStream
			}
			if x.pos != len(x.want) || !sameError(err, want) && !errors.Is(err, want) {
				return fmt.Errorf("stream ended at %d of %d with %v; want %v", x.pos, len(x.want), err, want)
			}
		}
	case opOpenW:
		k := &failSink{after: o.Fail, panics: o.Boom}
		if o.Nest {
			k.call = s.nest
		}
		w := wslot{s: k, x: o.X, open: true}
		var err error
		if o.X {
			w.w = s.e.NewEncoder().Writer(k)
		} else if w.w, err = cp949.NewWriter(k); err != nil {
			return err
		}
		s.w[slot] = w
	case opWrite:
		x := &s.w[slot]
		if x.failed {
			boom(func() { x.w.Write(arg) })
			return argKept()
		}
		if !x.open {
			return nil
		}
		var n int
		var err error
		if boom(func() { n, err = x.w.Write(arg) }) {
			x.open = false
			return nil
		}
		if all := mEncode(append(append([]byte{}, x.in...), in...)); err == errSink && x.s.after > 0 && len(all) > x.s.after {
			x.open, x.failed = false, true // (what is promised about resuming is decided elsewhere)
			if !bytes.Equal(x.s.got, all[:x.s.after]) {
				return eq("sink", x.s.got, all[:x.s.after])
			}
			return nil
		}
		if err != nil || n != len(arg) {
			return fmt.Errorf("Write of %d bytes = %d, %v", len(arg), n, err)
		}
		x.in = append(x.in, in...)
		want := mEncode(x.in[:len(x.in)-mHeld(x.in)])
		if x.x { // may be buffered until Close
			if !bytes.HasPrefix(want, x.s.got) {
				return eq("sink", x.s.got, want)
			}
		} else if err := eq("sink", x.s.got, want); err != nil {
			return err
		}
		return argKept()
	case opXform:
		dst := make([]byte, o.N)
		var nd, ns int
		var want []byte
		if o.X {
			nd, ns, _ = s.e.NewEncoder().Transform(dst, arg, true)
			want = mEncode(in[:max(0, min(ns, len(in)))])
		} else {
			nd, ns, _ = s.e.NewDecoder().Transform(dst, arg, true)
			want, _ = mDecode(in[:max(0, min(ns, len(in)))])
		}
		if nd < 0 || nd > len(dst) || ns < 0 || ns > len(in) {
			return fmt.Errorf("Transform = %d, %d", nd, ns)
		}
		if err := eq("Transform", dst[:nd], want); err != nil {
			return err
		}
		s.keep(dst[:nd], want, "Transform")
		return argKept()
	case opScribble:
		if len(s.kept) == 0 {
			return nil
		}
		i := o.N % len(s.kept)
		k := s.kept[i]
		s.kept = append(s.kept[:i:i], s.kept[i+1:]...)
		for i := range k.b {
			k.b[i] = 0xAD
		}
		for i := range k.r {
			k.r[i] = 0xFFFF
		}
	}
	return nil
}

func toValid(b []byte) string {
	if utf8.Valid(b) {
		return string(b)
	}
	return string([]rune(string(b)))
}

// opIn draws an input for an operation, related to the earlier ones of the history or new.
func opIn(t *rapid.T, k int, earlier []op) Segs {
	if len(earlier) > 0 && weighted(t, 2, 1) == 1 {
		e := earlier[pick(t, len(earlier))].In
		if len(e) > 0 {
			c := append(Segs{}, e...)
			switch pick(t, 6) {
			case 0:
				return c
			case 4: // the same in another order
				i, j := pick(t, len(c)), pick(t, len(c))
				c[i], c[j] = c[j], c[i]
				return c
			case 5: // two bytes changed, their sum kept
				i := pick(t, len(c))
				u := append(B{}, c[i].U...)
				d := rapid.ByteRange(1, 255).Draw(t, "d")
				u[0] += d
				u[len(u)-1] -= d
				c[i].U = u
				return c
			case 1: // one byte changed, same length
				i := pick(t, len(c))
				u := append(B{}, c[i].U...)
				u[pick(t, len(u))] ^= rapid.ByteRange(1, 255).Draw(t, "x")
				c[i].U = u
				return c
			case 2:
				return c[:len(c)-1]
			case 3:
				return append(c, Seg{U: B{ascii(t)}, N: 1})
			}
		}
	}
	big := 600
	if weighted(t, 9, 1) == 1 {
		big = 9000
	}
	switch k {
	case opFrom, opDec, opOpenR, opXform:
		return cpSegs(t, false, big)
	case opConvert, opWord:
		return hanjaSegs(t, big)
	}
	return txSegs(t, false, big)
}

func opRuneOf(t *rapid.T, earlier []op) rune {
	if len(earlier) > 0 && weighted(t, 1, 1) == 1 {
		r := earlier[pick(t, len(earlier))].R
		switch pick(t, 4) {
		case 0:
			return r
		case 1:
			return r ^ rune(int32(uint32(1)<<rapid.IntRange(0, 31).Draw(t, "bit")))
		case 2:
			return r + rune(rapid.IntRange(-3, 3).Draw(t, "near"))
		case 3:
			if c := mComp[r]; c != 0 {
				return c
			}
			return r + 0x100*rune(rapid.IntRange(-4, 4).Draw(t, "step"))
		}
	}
	switch weighted(t, 2, 1, 1) {
	case 1:
		return hanjaAll[pick(t, len(hanjaAll))]
	case 2:
		return rune(pairs[mapped(t)])
	}
	return anyRune(t)
}

func genOps(t *rapid.T, maxN int) []op {
	var ops []op
	if weighted(t, 3, 1) == 1 {
		ops = genScript(t)
	}
	for i := rapid.IntRange(1, maxN).Draw(t, "ops"); i > 0; i-- {
		o := op{Op: weighted(t, 4, 4, 2, 2, 2, 1, 2, 2, 4, 2, 4, 2, 2, 2, 5), Slot: pick(t, nSlots)}
		switch o.Op {
		case opRune, opMulti, opJoin:
			o.R = opRuneOf(t, ops)
			if o.Op == opMulti && pick(t, 2) == 0 {
				o.R = compats[pick(t, len(compats))]
			}
			o.N = pick(t, 399)
		case opOpenW:
			o.X = rapid.Bool().Draw(t, "x")
			o.Nest = weighted(t, 2, 1) == 1
			if pick(t, 3) == 2 {
				o.Fail = size(t, 500)
				o.Boom = pick(t, 4) == 3
			}
		case opRead, opScribble:
			o.N = rapid.IntRange(0, 40).Draw(t, "n")
			if o.Op == opRead && pick(t, 4) == 3 {
				o.N = size(t, 9000)
			}
		default:
			if pick(t, 4) == 3 && o.Op != opOpenR {
				o.R = opRuneOf(t, ops)
			} else {
				o.In = opIn(t, o.Op, ops)
			}
			if o.Op == opOpenR {
				o.Cuts = cuts(t, pick(t, 4) == 3, 3000)
				o.Nest = weighted(t, 2, 1) == 1
				if pick(t, 3) == 2 {
					o.Fail = pick(t, len(failures))
					o.Boom = pick(t, 4) == 3
				}
			}
			o.X = rapid.Bool().Draw(t, "x")
			if o.Op != opOpenR && o.Op != opWord && weighted(t, 5, 1) == 1 {
				o.Use = 1 + pick(t, 16)
			}
			o.Mine = weighted(t, 2, 1) == 1
			if o.Op == opXform || o.Op == opWord {
				o.N = size(t, 5000)
			}
		}
		if o.In == nil && o.Op != opScribble && weighted(t, 12, 1) == 1 {
			o.Rep = size(t, 300)
			o.Step = []rune{0, 1, -1, 28, 588, 0x100, 0x10000, 0x1000}[pick(t, 8)]
		}
		ops = append(ops, o)
	}
	if weighted(t, 3, 1) == 1 {
		ops = append(ops, genScript(t)...)
	}
	return ops
}

// genScript draws operations which use streams in earnest: some read to their end and
// beyond, or written until they fail, then several in turn in small pieces.
func genScript(t *rapid.T) []op {
	var ops []op
	for i := rapid.IntRange(0, 3).Draw(t, "finished"); i > 0; i-- {
		slot := pick(t, nSlots)
		if pick(t, 2) == 0 {
			o := op{Op: opOpenR, Slot: slot, In: cpSegs(t, false, 300), Cuts: cuts(t, false, 300), X: pick(t, 3) == 2, N: pick(t, 2)}
			if pick(t, 3) == 2 {
				o.Fail = pick(t, len(failures))
				o.Boom = pick(t, 4) == 3
			}
			ops = append(ops, o, op{Op: opRead, Slot: slot, N: size(t, 1000), Rep: rapid.IntRange(0, 30).Draw(t, "reads")})
		} else {
			ops = append(ops, op{Op: opOpenW, Slot: slot, Fail: size(t, 40), X: pick(t, 3) == 2, Boom: pick(t, 5) == 4})
			for j := rapid.IntRange(1, 6).Draw(t, "writes"); j > 0; j-- {
				ops = append(ops, op{Op: opWrite, Slot: slot, In: txSegs(t, false, 100)})
			}
		}
	}
	kind, x := pick(t, 3), pick(t, 3) == 2
	for i := 0; i < 3; i++ {
		if kind == 0 || kind == 2 && i == 0 {
			ops = append(ops, op{Op: opOpenR, Slot: i, In: cpSegs(t, false, 60), Cuts: cuts(t, false, 60), X: x})
		} else {
			ops = append(ops, op{Op: opOpenW, Slot: i, X: x})
		}
	}
	for i := rapid.IntRange(1, 30).Draw(t, "turns"); i > 0; i-- {
		o := op{Op: opRead, Slot: pick(t, 3), N: rapid.IntRange(1, 9).Draw(t, "n")}
		if kind == 1 || kind == 2 && o.Slot > 0 {
			o.Op, o.In = opWrite, txSegs(t, false, 8)
			if b := o.In.bytes(); len(b) > 1 && pick(t, 2) == 0 { // end inside a character
				o.In = seg(b[:len(b)-1])
			}
		}
		ops = append(ops, o)
	}
	return ops
}

type history struct {
	Ops []op `json:"ops"`
}

func histClass(ops []op) (string, bool) {
	scr, stream, kept := false, map[int]bool{}, 0
	for _, o := range ops {
		switch o.Op {
		case opScribble:
			scr = scr || kept > 0
		case opFrom, opTo, opMulti, opDec, opEnc, opXform:
			kept++
		case opRead, opWrite:
			stream[o.Op*nSlots+o.Slot] = true
			kept++
		}
	}
	l := "no streams"
	if len(stream) == 1 {
		l = "one stream"
	} else if len(stream) > 1 {
		l = "streams in turn"
	}
	if scr {
		l += ", overwrites results"
	}
	return l, len(ops) >= 2
}

// dropOps lists shorter and simpler variants of a history, the shortest first.
func dropOps(ops []op) (l [][]op) {
	for n := len(ops) / 2; n > 0; n /= 2 {
		for i := 0; i+n <= len(ops); i += n {
			l = append(l, append(append([]op{}, ops[:i]...), ops[i+n:]...))
		}
	}
	with := func(i int, o op) {
		x := append([]op{}, ops...)
		x[i] = o
		l = append(l, x)
	}
	for i, o := range ops {
		for _, f := range []func(*op){
			func(o *op) { o.Nest, o.Boom = false, false },
			func(o *op) { o.Use = 0 },
			func(o *op) { o.Mine = false },
			func(o *op) { o.Rep = 0 },
			func(o *op) { o.Rep /= 2 },
			func(o *op) { o.Cuts = nil },
			func(o *op) { o.In = nil },
			func(o *op) { o.X = false },
			func(o *op) { o.Fail = 0 },
			func(o *op) {
				if len(o.In) > 1 {
					o.In = o.In[:len(o.In)/2]
				}
			},
			func(o *op) {
				if len(o.In) > 1 {
					o.In = o.In[len(o.In)/2:]
				}
			},
			func(o *op) {
				if len(o.In) == 1 && o.In[0].N > 1 {
					o.In = Segs{{U: o.In[0].U, N: o.In[0].N / 2}}
				}
			},
			func(o *op) {
				if len(o.In) == 1 && len(o.In[0].U) > 1 {
					o.In = Segs{{U: o.In[0].U[:len(o.In[0].U)/2], N: o.In[0].N}}
				}
			},
		} {
			n := o
			f(&n)
			if !reflect.DeepEqual(n, o) {
				with(i, n)
			}
		}
	}
	return
}

var historyKind = K[history]{
	Name:  "history",
	Check: func(c history) error { return (&session{e: cp949.NewCP949Encoding()}).run(c.Ops) },
	Class: func(c history) (string, bool) { return histClass(c.Ops) },
	Enum: func(tier string, do func(history)) {
		// every pair of operations on every kind of result, overwritten in between
		cp, tx := seg([]byte("a\xb0\xa1\xc8\xfez")), seg([]byte("a가힣國z"))
		base := func(k int) []op {
			switch k {
			case opFrom, opDec:
				return []op{{Op: k, In: cp}}
			case opOpenR:
				return []op{{Op: k, In: cp, Cuts: []int{2}}, {Op: opRead, N: 3}}
			case opOpenW:
				return []op{{Op: k}, {Op: opWrite, In: tx}}
			case opMulti, opRune, opJoin:
				return []op{{Op: k, R: 'ㅞ'}, {Op: k, R: 'ㄳ'}}
			case opXform:
				return []op{{Op: k, In: cp, N: 64}, {Op: k, In: tx, N: 64, X: true}}
			}
			return []op{{Op: k, In: tx}}
		}
		for a := 0; a < opScribble; a++ {
			for b := 0; b < opScribble; b++ {
				ops := append([]op{}, base(a)...)
				ops = append(ops, op{Op: opScribble})
				ops = append(ops, base(b)...)
				ops = append(ops, base(a)...)
				ops = append(ops, op{Op: opScribble, N: 1}, op{Op: opScribble})
				do(history{append(ops, base(b)...)})
			}
		}
		// results of every size, and other calls of the same function after them
		for n := 1; n < 150; n++ {
			for _, k := range []int{opFrom, opTo, opConvert, opWord, opDec, opEnc} {
				u := B("國a")
				if k == opFrom || k == opDec {
					u = B("\xc8\xfe")
				}
				o := op{Op: k, In: Segs{{U: u, N: n}}, X: n%2 == 0}
				p, q := o, o
				p.In, q.In = Segs{{U: B("x"), N: n + n/2}}, Segs{{U: B("yz"), N: 1}}
				do(history{[]op{o, q, p, o, p, q}})
			}
		}
		// the same in another order, in a buffer which is used again
		for n := 1; n < 150; n++ {
			for _, k := range []int{opFrom, opTo, opDec, opEnc, opXform, opConvert, opWord} {
				o := op{Op: k, In: Segs{{U: B("\xb0\xa1"), N: n}, {U: B("xy"), N: n % 5}}, Mine: true, N: 4096}
				p := o
				p.In = Segs{{U: B("xy"), N: n % 5}, {U: B("\xb0\xa1"), N: n}}
				switch k {
				case opTo, opEnc, opWord:
					o.In[0].U, p.In[1].U = B("각"), B("각")
				case opConvert:
					o.In[0].U, p.In[1].U = B("國"), B("國")
				}
				do(history{[]op{o, p, o, p}})
			}
		}
		// results used as arguments
		for a := 0; a < opScribble; a++ {
			for _, o := range []op{{Op: opFrom}, {Op: opTo}, {Op: opDec}, {Op: opEnc}, {Op: opWrite}, {Op: opXform, N: 64}, {Op: opXform, N: 3, X: true}, {Op: opConvert}} {
				ops := append(append([]op{}, base(a)...), op{Op: opOpenW, Slot: 1})
				for i := 1; i < 5; i++ {
					o.Use, o.Slot, o.In = i, 1, tx
					ops = append(ops, o)
				}
				do(history{append(append(ops, op{Op: opScribble}), base(a)...)})
			}
		}
		for _, c := range compats {
			for _, d := range compats {
				do(history{[]op{{Op: opMulti, R: c}, {Op: opScribble}, {Op: opMulti, R: d}, {Op: opMulti, R: c}, {Op: opRune, R: d}, {Op: opRune, R: c}}})
			}
		}
		// the same function on one value after another which some cache could confuse with it
		for i, h := range hanjaAll {
			if i%4 > 0 && tier != "thorough" {
				continue
			}
			for _, d := range []rune{0x10000, 0x100, 0x1000} {
				do(history{[]op{{Op: opConvert, R: h}, {Op: opConvert, R: h ^ d}, {Op: opConvert, R: h}}})
			}
		}
		for i, r := range chars {
			if i%4 > 0 && tier != "thorough" {
				continue
			}
			do(history{[]op{{Op: opTo, R: r}, {Op: opTo, R: r ^ 0x10000}, {Op: opTo, R: r ^ 0x20000}, {Op: opEnc, R: r}, {Op: opEnc, R: r ^ 0x10000}}})
			do(history{[]op{{Op: opFrom, R: rune(pairs[i])}, {Op: opFrom, R: rune(pairs[i] ^ 0x80)}, {Op: opFrom, R: rune(pairs[i])}, {Op: opDec, R: rune(pairs[i] ^ 0x100)}, {Op: opDec, R: rune(pairs[i])}}})
		}
		// streams finished in some way, then others in turn
		for fin := 0; fin < 24; fin++ {
			for turn := 0; turn < 4; turn++ {
				var ops []op
				switch x := fin&1 == 1; {
				case fin < 12:
					ops = append(ops, op{Op: opOpenR, X: x, In: []Segs{cp, {{U: B("\xb0\xa1"), N: 50}}, seg([]byte("a\xb0"))}[fin/2%3], Cuts: []int{3}, Fail: fin / 6, Boom: turn == 3 && fin >= 6}, op{Op: opRead, N: 64, Rep: 8})
				default:
					ops = append(ops, op{Op: opOpenW, X: x, Fail: 1 + fin%4, Boom: turn > 1}, op{Op: opWrite, In: tx}, op{Op: opWrite, In: tx}, op{Op: opWrite, In: tx})
				}
				for i := 0; i < 3; i++ {
					if turn < 2 || turn == 2 && i == 0 {
						ops = append(ops, op{Op: opOpenR, Slot: 1 + i, In: []Segs{seg([]byte("\xb0\xa1\xb0\xa2\xb0\xa3\xb0")), seg([]byte("123456789")), seg([]byte("\xc8\xfe\xc8\xfd\xc8\xfcy\xc8\xfb"))}[i], Cuts: []int{3}, X: turn == 1})
					} else {
						ops = append(ops, op{Op: opOpenW, Slot: 1 + i})
					}
				}
				for n := 0; n < 8; n++ {
					for i := 0; i < 3; i++ {
						if turn < 2 || turn == 2 && i == 0 {
							ops = append(ops, op{Op: opRead, Slot: 1 + i, N: 1 + (n+i)%3})
						} else {
							ops = append(ops, op{Op: opWrite, Slot: 1 + i, In: seg([]byte{"가나다"[n], "漢漢漢"[n], "abcdefghi"[n]}[i : i+1])})
						}
					}
				}
				do(history{ops})
			}
		}
		// many calls
		for k := 0; k < opScribble; k++ {
			for _, o := range base(k) {
				if o.Op == opWrite {
					continue // the writer's whole text is compared every time
				}
				o.Rep = 3000
				do(history{append(append([]op{}, base(k)...), o)})
			}
		}
		for _, step := range []rune{1, -1} {
			start := rune(0)
			if step < 0 {
				start = 0xFFFF
			}
			for _, k := range []int{opFrom, opTo, opConvert, opRune, opMulti} {
				do(history{[]op{{Op: k, R: start, Rep: 0xFFFF, Step: step}}})
			}
		}
	},
	Gen: func(t *rapid.T) history { return history{genOps(t, 40)} },
	Drop: func(c history) (l []history) {
		for _, ops := range dropOps(c.Ops) {
			l = append(l, history{ops})
		}
		return
	},
	NQ: 450000, NT: 18000000,
}.kind()
