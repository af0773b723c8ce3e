package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"unicode/utf8"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/encoding/cp949"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/transform"
	"pgregory.net/rapid"
)

// ---- P21: no panic, no hang, no exhaustion, well-formed output; on anything at all

type anything struct {
	In   Segs   `json:"in"`
	Bufs []int  `json:"bufs"`
	Cuts []int  `json:"cuts"`
	R    []rune `json:"r"`
	P, Q B
	Fail int `json:"fail"`
}

// wellFormed: every code is ASCII or an assigned pair.
func wellFormed(b []byte) error {
	for i := 0; i < len(b); i++ {
		if b[i] < 0x80 {
			continue
		}
		if i+1 == len(b) || decTab[int(b[i])<<8|int(b[i+1])] == 0 {
			return fmt.Errorf("encoded text has no assigned code at byte %d: % x", i, short2(b[i:]))
		}
		i++
	}
	if _, err := cp949.From(b); err != nil {
		return fmt.Errorf("encoded text does not decode: %v", err)
	}
	return nil
}

func checkAnything(c anything) error {
	for i, r := range c.R {
		for _, f := range []func(rune) bool{hangul.IsLead, hangul.IsMedial, hangul.IsTail, hangul.IsJaeum, hangul.IsMoeum, hangul.IsHangul, hanja.IsHanja} {
			f(r)
		}
		for _, f := range []func(rune) rune{hangul.CompatJamo, hangul.Lead, hangul.Medial, hangul.Tail} {
			if x := f(r); x != 0 && !utf8.ValidRune(x) {
				return fmt.Errorf("%#x gives %#x, not a character", r, x)
			}
		}
		for _, f := range []func(rune) (rune, rune, rune){hangul.Split, hangul.SplitCompat} {
			a, b, d := f(r)
			for _, x := range []rune{a, b, d} {
				if x != 0 && !utf8.ValidRune(x) {
					return fmt.Errorf("splitting %#x gives %#x, not a character", r, x)
				}
			}
		}
		hangul.Stroke(r)
		hangul.SplitMultiElement(r)
		if x := hangul.Join(r, c.R[(i+1)%len(c.R)], c.R[(i+2)%len(c.R)]); !utf8.ValidRune(x) {
			return fmt.Errorf("Join gives %#x, not a character", x)
		}
	}
	in := c.In.bytes()
	s := string(in)
	hangul.LastConsonant(s)
	hangul.EndsWithConsonant(s)
	hangul.AppendPostposition(s, string(c.P), string(c.Q))
	hangul.AppendPostposition(string(c.P), s, string(c.Q))
	hangul.AppendPostposition(string(c.P), string(c.Q), s)
	if o := hanja.Convert(s); !utf8.ValidString(o) && utf8.ValidString(s) {
		return errors.New("Convert makes malformed text of well-formed text")
	}

	// decoding, every path
	text := func(what string, b []byte) error {
		if !utf8.Valid(b) {
			return fmt.Errorf("%s yields malformed UTF-8", what)
		}
		return nil
	}
	code := func(what string, b []byte) error {
		if len(b) > len(in) {
			return fmt.Errorf("%s makes %d bytes of %d", what, len(b), len(in))
		}
		if err := wellFormed(b); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		return nil
	}
	out, _ := cp949.From(in)
	if err := text("From", out); err != nil {
		return err
	}
	out, err := cp949.To(in)
	if err != nil {
		return fmt.Errorf("To: %v", err)
	}
	if err := code("To", out); err != nil {
		return err
	}
	e := cp949.NewCP949Encoding()
	if out, err := e.NewDecoder().Bytes(in); err == nil {
		if err := text("decoder", out); err != nil {
			return err
		}
	}
	if out, err = e.NewEncoder().Bytes(in); err != nil {
		return fmt.Errorf("encoder: %v", err)
	}
	if err := code("encoder", out); err != nil {
		return err
	}
	for _, x := range []bool{false, true} {
		src := &source{data: in, chunks: c.Cuts, err: failures[c.Fail], withData: len(in)%2 == 0}
		if x {
			src.chunks = noZero(src.chunks)
		}
		r, err := newReader(x, src)
		if err != nil {
			return err
		}
		r.Read(nil)
		var got []byte
		for i, steps := 0, 0; ; i++ {
			b := make([]byte, at(c.Bufs, i))
			n, err := r.Read(b)
			if n < 0 || n > len(b) {
				return fmt.Errorf("Read of %d bytes returned %d", len(b), n)
			}
			got = append(got, b[:n]...)
			if err != nil && len(b) > 0 {
				break
			}
			if len(b) > 0 && !x {
				if steps++; steps > 12*len(in)+200 {
					return errors.New("the stream does not end")
				}
			}
			if x && i > 20*len(in)+1000 {
				return errors.New("the x/text stream does not end")
			}
		}
		if err := text("stream", got); err != nil {
			return err
		}
		r.Read(nil)

		k := &sink{}
		w, closer, err := newWriter(x, k)
		if err != nil {
			return err
		}
		w.Write(nil)
		for i, p := 0, 0; p < len(in); i++ {
			n := min(at(c.Cuts, i), len(in)-p)
			m, err := w.Write(in[p : p+n])
			if err != nil || m != n {
				return fmt.Errorf("Write of %d bytes = %d, %v", n, m, err)
			}
			p += n
		}
		w.Write(nil)
		if err := closer(); err != nil {
			return fmt.Errorf("Close: %v", err)
		}
		if err := code("writer", k.got); err != nil {
			return err
		}
	}
	// Transform with any sizes, nil included
	for _, t := range []struct {
		n string
		t transform.Transformer
	}{{"decoder", e.NewDecoder()}, {"encoder", e.NewEncoder()}} {
		for _, eof := range []bool{false, true} {
			for i, n := range c.Bufs {
				p := min(at(c.Cuts, i), len(in))
				for _, call := range [][2][]byte{{make([]byte, n), in[p:]}, {nil, in[:p]}, {make([]byte, n), nil}, {nil, nil}} {
					nd, ns, err := t.t.Transform(call[0], call[1], eof)
					if nd < 0 || nd > len(call[0]) || ns < 0 || ns > len(call[1]) {
						return fmt.Errorf("%s: Transform(%d, %d) = %d, %d, %v", t.n, len(call[0]), len(call[1]), nd, ns, err)
					}
					if t.n == "encoder" {
						if e := wellFormed(call[0][:nd]); e != nil {
							return e
						}
					} else if !utf8.Valid(call[0][:nd]) {
						return errors.New("Transform yields malformed UTF-8")
					}
				}
			}
			t.t.Reset()
		}
	}
	return nil
}

func anyClass(c anything) (string, bool) {
	in := c.In.bytes()
	l := "well-formed UTF-8"
	hi := false
	for _, b := range in {
		hi = hi || b >= 0x80
	}
	if !utf8.Valid(in) {
		l = "malformed UTF-8"
	}
	if len(in) == 0 {
		l = "empty"
	} else if !hi {
		l = "ASCII"
	}
	return l + sizeClass(len(in)), hi
}

var anythingKind = K[anything]{
	Name:  "anything",
	Check: checkAnything,
	Class: anyClass,
	Enum: func(tier string, do func(anything)) {
		r0 := []rune{0}
		do(anything{nil, []int{0, 1}, []int{1}, r0, nil, nil, 0})
		for a := 0; a < 256; a++ {
			do(anything{seg([]byte{byte(a)}), []int{1, 0, 2}, []int{1, 0}, r0, nil, nil, a % 4})
			for b := 0; b < 256; b++ {
				do(anything{seg([]byte{byte(a), byte(b)}), []int{1, 3}, []int{1}, []rune{rune(a<<8 | b), rune(b<<8 | a)}, B{byte(a)}, B{byte(b)}, 0})
			}
		}
		for n := 1; n < 700; n++ {
			for _, u := range []string{"\xff", "\xb0\xa1", "가", "\xf0\x9f\x98", "a", "\x80\x80\x80"} {
				do(anything{Segs{{U: B(u), N: n}}, []int{n, 0, 1}, []int{n, 3}, r0, B(u), nil, n % 3})
			}
		}
		// large inputs: memory and time
		for i, u := range []string{"\xff", "\xb0\xa1", "가", "\U00020000", "國", "a"} {
			n := 1 << 20
			if tier == "thorough" {
				n = 1 << 22
			}
			n = smaller(n, 1<<14)
			do(anything{Segs{{U: B(u), N: n}}, []int{1 << 16}, []int{n/3 + i}, r0, B(u), nil, 0})
			do(anything{Segs{{U: B(u), N: n / 16}}, []int{64 - i}, []int{7}, r0, B(u), nil, 0})
		}
	},
	Gen: func(t *rapid.T) anything {
		c := anything{Bufs: cuts(t, true, 5000), Cuts: cuts(t, true, 5000), P: B(postWord(t)), Q: B(postWord(t)), Fail: pick(t, len(failures))}
		switch weighted(t, 2, 2, 1, 1) {
		case 0:
			c.In = cpSegs(t, false, 9000)
		case 1:
			c.In = txSegs(t, false, 9000)
		case 2:
			c.In = seg(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "raw"))
		default:
			c.In = wordSegs(t)
		}
		for i := rapid.IntRange(1, 4).Draw(t, "runes"); i > 0; i-- {
			c.R = append(c.R, anyRune(t))
		}
		return c
	},
	NQ: 180000, NT: 7200000,
}.kind()

// stall is a stream whose source has In and then supplies nothing, for ever, without an
// error: Read has to return all the same (io.Reader allows 0 bytes and no error, and
// readers of the standard library give up with io.ErrNoProgress).
type stall struct {
	In   Segs  `json:"in"`
	Cuts []int `json:"cuts"`
	Bufs []int `json:"bufs"`
}

type silent struct {
	source
	calls int
}

func (s *silent) Read(p []byte) (int, error) {
	if s.pos < len(s.data) {
		return s.source.Read(p)
	}
	if s.calls++; s.calls > 20000 {
		panic(errBoom)
	}
	for i := 0; i < len(p) && i < 16; i++ {
		p[i] = 0xB0
	}
	return 0, nil
}

func checkStall(c stall) error {
	in := c.In.bytes()
	want, _ := mDecode(in)
	src := &silent{source: source{data: in, chunks: c.Cuts}}
	r, err := cp949.NewReader(src)
	if err != nil {
		return fmt.Errorf("NewReader: %v", err)
	}
	var got []byte
	for i := 0; ; i++ {
		b := make([]byte, at(c.Bufs, i))
		src.calls = 0
		var n int
		if boom(func() { n, err = r.Read(b) }) {
			return errors.New("Read does not return while its source supplies nothing")
		}
		if n < 0 || n > len(b) {
			return fmt.Errorf("Read of %d bytes returned %d", len(b), n)
		}
		got = append(got, b[:n]...)
		if err == io.EOF {
			return errors.New("Read reports the end of a source which has not reported it")
		}
		if err != nil || n == 0 && len(b) > 0 {
			if src.pos < len(in) && err == nil {
				continue
			}
			break
		}
		if i > 40*len(in)+1000 {
			return errors.New("the stream does not end")
		}
	}
	if !bytes.Equal(got, want) {
		return fmt.Errorf("the text before: %s", diff(got, want))
	}
	return nil
}

var stallKind = K[stall]{
	Name:  "stall",
	Check: checkStall,
	Class: func(c stall) (string, bool) {
		l, _ := anyClass(anything{In: c.In})
		return "the source falls silent, " + l, true
	},
	Enum: func(tier string, do func(stall)) {
		for _, in := range []string{"", "a", "\xb0", "\xb0\xa1", "ab\xb0\xa1\xc8", "\xff\xff", "\xb0\xa1\xb0\xa2\xb0\xa3z"} {
			for _, cut := range []int{1, 2, 3, 4096} {
				for _, b := range []int{1, 2, 3, 7, 4096} {
					do(stall{seg([]byte(in)), []int{cut}, []int{b}})
					do(stall{Segs{{U: B(in), N: 300}}, []int{cut, 0}, []int{b, 0}})
				}
			}
		}
	},
	Gen: func(t *rapid.T) stall {
		return stall{cpSegs(t, pick(t, 3) > 0, 3000), cuts(t, true, 3000), cuts(t, true, 3000)}
	},
	NQ: 20000, NT: 800000,
}.kind()

// every rune value through the functions on runes
var anyRuneKinds = runeKinds(func(r rune) error {
	return checkAnything(anything{nil, []int{1}, []int{1}, []rune{r, 0x1161, r}, nil, nil, 0})
}, func(r rune) bool {
	hangul.IsLead(r)
	hangul.IsMedial(r)
	hangul.IsTail(r)
	hangul.IsHangul(r)
	hangul.IsJaeum(r)
	hangul.IsMoeum(r)
	hangul.Stroke(r)
	hangul.SplitMultiElement(r)
	hangul.Split(r)
	hangul.SplitCompat(r)
	hanja.IsHanja(r)
	hangul.CompatJamo(r)
	hangul.Lead(r)
	hangul.Medial(r)
	hangul.Tail(r)
	hangul.Join(r, 0x1161, 0)
	hangul.Join(0x1100, r, 0)
	hangul.Join(0x1100, 0x1161, r)
	return true
}, classJamo)
