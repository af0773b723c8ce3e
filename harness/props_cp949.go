package main

import (
	"bytes"
	"errors"
	"fmt"
	"unicode/utf8"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"pgregory.net/rapid"
)

type input struct {
	In Segs `json:"in"`
}

func checkFrom(c input) error {
	in := c.In.bytes()
	return checkFromBytes(in)
}

// within returns a copy of in which is a part of something larger, at some offset and with
// something behind it, and a function which tells if either was modified.
func within(in []byte, seed int) (arg []byte, same func() error) {
	fill := "\xC5\xA1\x80A\xFE\x00\xED"[(seed/17+len(in))%7]
	off := (seed + len(in)) % 17
	back := bytes.Repeat([]byte{fill}, off+len(in)+16)
	arg = back[off : off+copy(back[off:], in)]
	return arg, func() error {
		if !bytes.Equal(arg, in) {
			return errors.New("the argument was modified")
		}
		for i, x := range back {
			if x != fill && (i < off || i >= off+len(in)) {
				return errors.New("what lies around the argument was modified")
			}
		}
		return nil
	}
}

func sum8(b []byte) int {
	n := 0
	for i := 0; i < len(b) && i < 8; i++ {
		n += int(b[i])
	}
	return n
}

func checkFromBytes(in []byte) error {
	keep := in
	in, same := within(keep, sum8(keep))
	out, err := cp949.From(in)
	want, rest := mDecode(keep)
	if err := same(); err != nil {
		return fmt.Errorf("From: %v", err)
	}
	if rest > 0 {
		if !errors.Is(err, cp949.ErrCP949UnexpectedStream) || len(out) != 0 {
			return fmt.Errorf("From of a truncated sequence: %d bytes of output, error %v; want none and ErrCP949UnexpectedStream", len(out), err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("From failed: %v", err)
	}
	if !bytes.Equal(out, want) {
		return fmt.Errorf("From: %s", diff(out, want))
	}
	return nil
}

func cpClass(in []byte) (string, bool) {
	p, u := 0, 0
	i := 0
	for i < len(in) {
		if in[i] < 0x80 {
			i++
			continue
		}
		if i+1 == len(in) {
			return "truncated", true
		}
		if decTab[int(in[i])<<8|int(in[i+1])] != 0 {
			p++
		} else {
			u++
		}
		i += 2
	}
	l := ""
	switch {
	case p == 0 && u == 0:
		l = "ASCII only or empty"
	case u == 0:
		l = "assigned pairs only"
	case p == 0:
		l = "unassigned pairs only"
	default:
		l = "assigned and unassigned pairs"
	}
	return l + sizeClass(len(in)), p+u > 0
}

func sizeClass(n int) string {
	switch {
	case n > 4096:
		return ", >4096 bytes"
	case n > 256:
		return ", >256 bytes"
	}
	return ""
}

// raw3 is a block of all three-byte sequences beginning with A (or of all pairs after a
// prefix), checked one by one.
type raw3 struct {
	A, B byte
	Pre  B
}

func eachRaw3(c raw3, f func([]byte) error) error {
	for x := 0; x < 256; x++ {
		b := append(append([]byte{}, c.Pre...), c.A, c.B, byte(x))
		if err := f(b); err != nil {
			return fmt.Errorf("% x: %v", b, err)
		}
	}
	return nil
}

func enumRaw3(do func(raw3), tier string) {
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			do(raw3{byte(a), byte(b), nil})
			if tier == "thorough" {
				do(raw3{byte(a), byte(b), B("\xb0\xa1")})
				do(raw3{byte(a), byte(b), B("\xea\xb0\x80")})
				do(raw3{byte(a), byte(b), B("\xf0\x9f")})
				do(raw3{byte(a), byte(b), B("z\xe2\x82")})
			}
		}
	}
}

func contexts(u []byte, other []byte, do func(Segs)) {
	do(seg(u))
	do(Segs{{U: B("A"), N: 1}, {U: B(u), N: 1}, {U: B("z"), N: 1}})
	do(Segs{{U: B(other), N: 1}, {U: B(u), N: 2}, {U: B(other), N: 1}})
}

var fromKinds = []*kind{
	K[input]{
		Name:  "decode",
		Check: checkFrom,
		Class: func(c input) (string, bool) { return cpClass(c.In.bytes()) },
		Enum: func(tier string, do func(input)) {
			do(input{})
			for a := 0; a < 256; a++ {
				do(input{seg([]byte{byte(a)})})
				for b := 0; b < 256; b++ {
					contexts([]byte{byte(a), byte(b)}, pairBytes(pairs[(a*256+b)%len(pairs)]), func(s Segs) { do(input{s}) })
				}
			}
			lens := 1100
			if tier == "thorough" {
				lens = 9000
			}
			for n := 2; n < lens; n++ {
				for _, u := range []string{"a", "\xb0\xa1", "\xff\xff", "a\xb0\xa1", "\xc8\xfe\x81\x41"} {
					do(input{Segs{{U: B(u), N: n}}})
				}
				do(input{Segs{{U: B("x"), N: n}, {U: B("\xb0\xa1\xfd\xfe"), N: 2}, {U: B("\xb0"), N: n % 2}}})
			}
		},
		Gen: func(t *rapid.T) input { return input{cpSegs(t, false, 70000)} },
		NQ:  1200000, NT: 48000000,
	}.kind(),
	K[raw3]{
		Name:  "raw3",
		Check: func(c raw3) error { return eachRaw3(c, checkFromBytes) },
		Class: func(c raw3) (string, bool) { return "256 sequences", c.A >= 0x80 || c.B >= 0x80 || len(c.Pre) > 0 },
		Enum:  func(tier string, do func(raw3)) { enumRaw3(do, tier) },
	}.kind(),
}

func checkToBytes(in []byte) error {
	keep := in
	in, same := within(keep, sum8(keep))
	out, err := cp949.To(in)
	if err := same(); err != nil {
		return fmt.Errorf("To: %v", err)
	}
	if err != nil {
		return fmt.Errorf("To failed: %v", err)
	}
	if want := mEncode(keep); !bytes.Equal(out, want) {
		return fmt.Errorf("To: %s", diff(out, want))
	}
	return nil
}

func txClass(in []byte) (string, bool) {
	var m, u, bad, astral int
	for b := in; len(b) > 0; {
		r, n := utf8.DecodeRune(b)
		b = b[n:]
		_, ok := encTab[r]
		switch {
		case r < 0x80:
		case r == utf8.RuneError && n == 1:
			bad++
		case r > 0xffff:
			astral++
		case ok:
			m++
		default:
			u++
		}
	}
	l := ""
	switch {
	case m+u+bad+astral == 0:
		l = "ASCII only or empty"
	case bad > 0:
		l = "malformed"
	case astral > 0:
		l = "supplementary characters"
	case u > 0:
		l = "unencodable characters"
	default:
		l = "encodable"
	}
	return l + sizeClass(len(in)), m+u+bad+astral > 0
}

var toKinds = []*kind{
	K[input]{
		Name:  "encode",
		Check: func(c input) error { return checkToBytes(c.In.bytes()) },
		Class: func(c input) (string, bool) { return txClass(c.In.bytes()) },
		Enum: func(tier string, do func(input)) {
			do(input{})
			for r := rune(0); r <= 0x10FFFF; r++ {
				if !utf8.ValidRune(r) {
					continue
				}
				u := []byte(string(r))
				if r < 0x12000 || tier == "thorough" {
					contexts(u, []byte(string(chars[int(r)%len(chars)])), func(s Segs) { do(input{s}) })
				} else {
					do(input{seg(u)})
				}
			}
			// surrogates and values beyond Unicode, in their generalized UTF-8 form
			for r := 0xD800; r <= 0xDFFF; r++ {
				do(input{seg([]byte{0xE0 | byte(r>>12), 0x80 | byte(r>>6)&0x3f, 0x80 | byte(r)&0x3f, 'x'})})
			}
			lens := 1100
			if tier == "thorough" {
				lens = 9000
			}
			for n := 2; n < lens; n++ {
				for _, u := range []string{"a", "가", "\U0001F600", "a한€", "\xff", "é뷁"} {
					do(input{Segs{{U: B(u), N: n}}})
				}
				do(input{Segs{{U: B("x"), N: n}, {U: B("힣女"), N: 2}, {U: B("\xea\xb0"), N: n % 2}}})
			}
		},
		Gen: func(t *rapid.T) input { return input{txSegs(t, false, 70000)} },
		NQ:  900000, NT: 36000000,
	}.kind(),
	K[raw3]{
		Name:  "raw3",
		Check: func(c raw3) error { return eachRaw3(c, checkToBytes) },
		Class: func(c raw3) (string, bool) { return "256 sequences", c.A >= 0x80 || c.B >= 0x80 || len(c.Pre) > 0 },
		Enum:  func(tier string, do func(raw3)) { enumRaw3(do, tier) },
	}.kind(),
}

// ---- P12

// paths of a conversion; chunked ones use Cuts
const (
	pathOne    = iota // From / To
	pathStream        // NewReader / NewWriter
	pathXBytes        // x/text Bytes
	pathXString
	pathXStream // x/text Reader / Writer
	nPaths
)

type round struct {
	In       Segs  `json:"in"` // text if Enc first, else cp949
	EncFirst bool  `json:"encfirst"`
	Enc      int   `json:"enc"`
	Dec      int   `json:"dec"`
	Cuts     []int `json:"cuts"`
}

func encodeBy(path int, in []byte, c []int) ([]byte, error) {
	switch path {
	case pathOne:
		return cp949.To(in)
	case pathXBytes:
		return cp949.NewCP949Encoding().NewEncoder().Bytes(in)
	case pathXString:
		s, err := cp949.NewCP949Encoding().NewEncoder().String(string(in))
		return []byte(s), err
	}
	var buf bytes.Buffer
	w, closer, err := newWriter(path == pathXStream, &buf)
	if err != nil {
		return nil, err
	}
	for i := 0; len(in) > 0; i++ {
		n := min(at(c, i), len(in))
		m, err := w.Write(append([]byte(nil), in[:n]...))
		if err != nil || m != n {
			return nil, fmt.Errorf("Write of %d bytes = %d, %v", n, m, err)
		}
		in = in[n:]
	}
	if err := closer(); err != nil {
		return nil, fmt.Errorf("Close: %v", err)
	}
	return buf.Bytes(), nil
}

func decodeBy(path int, in []byte, c []int) ([]byte, error) {
	switch path {
	case pathOne:
		return cp949.From(in)
	case pathXBytes:
		return cp949.NewCP949Encoding().NewDecoder().Bytes(in)
	case pathXString:
		s, err := cp949.NewCP949Encoding().NewDecoder().String(string(in))
		return []byte(s), err
	}
	r, err := newReader(path == pathXStream, &source{data: in, chunks: c})
	if err != nil {
		return nil, err
	}
	return readAll(r, c, len(in)*3+1000)
}

func checkRound(c round) error {
	in := c.In.bytes()
	var mid, out []byte
	var err error
	if c.EncFirst {
		if mid, err = encodeBy(c.Enc, in, c.Cuts); err == nil {
			out, err = decodeBy(c.Dec, mid, c.Cuts)
		}
	} else {
		if mid, err = decodeBy(c.Dec, in, c.Cuts); err == nil {
			out, err = encodeBy(c.Enc, mid, c.Cuts)
		}
	}
	if err != nil {
		return fmt.Errorf("round trip failed: %v", err)
	}
	if !bytes.Equal(in, out) {
		return fmt.Errorf("round trip: %s (intermediate % x)", diff(out, in), short2(mid))
	}
	return nil
}

func short2(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

var roundKind = K[round]{
	Name:  "round",
	Check: checkRound,
	Class: func(c round) (string, bool) {
		l := fmt.Sprintf("decode by path %d, then encode by path %d", c.Dec, c.Enc)
		if c.EncFirst {
			l = fmt.Sprintf("encode by path %d, then decode by path %d", c.Enc, c.Dec)
		}
		for _, s := range c.In {
			for _, b := range s.U {
				if b >= 0x80 {
					return l, true
				}
			}
		}
		return l, false
	},
	Enum: func(tier string, do func(round)) {
		for i, p := range pairs {
			for path := 0; path < nPaths; path++ {
				do(round{seg(pairBytes(p)), false, path, (path + i) % nPaths, []int{1}})
				do(round{seg([]byte(string(chars[i]))), true, path, (path + i) % nPaths, []int{1}})
			}
		}
		for b := 0; b < 128; b++ {
			for path := 0; path < nPaths; path++ {
				do(round{seg([]byte{byte(b)}), false, path, path, []int{1}})
				do(round{seg([]byte{byte(b)}), true, path, path, []int{1}})
			}
		}
		// the whole repertoire in one text, at every offset, by every pair of paths
		all := make([]byte, 0, 70000)
		for _, r := range chars {
			all = utf8.AppendRune(all, r)
		}
		allCp := mEncode(all)
		for off := 0; off < 12; off++ {
			for e := 0; e < nPaths; e++ {
				for d := 0; d < nPaths; d++ {
					for _, cut := range []int{1, 7, 4096, 1 << 20} {
						if tier != "thorough" && (off+e+d)%3 > 0 && cut < 4096 {
							continue
						}
						do(round{Segs{{U: B("a"), N: off}, {U: B(all), N: 1}}, true, e, d, []int{cut}})
						do(round{Segs{{U: B("a"), N: off}, {U: B(allCp), N: 1}}, false, e, d, []int{cut}})
					}
				}
			}
		}
	},
	Gen: func(t *rapid.T) round {
		c := round{EncFirst: rapid.Bool().Draw(t, "encfirst"), Enc: pick(t, nPaths), Dec: pick(t, nPaths), Cuts: cuts(t, false, 5000)}
		if c.EncFirst {
			c.In = txSegs(t, true, 20000)
		} else {
			c.In = cpSegs(t, true, 20000)
		}
		return c
	},
	NQ: 450000, NT: 18000000,
}.kind()
