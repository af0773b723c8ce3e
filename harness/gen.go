package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// B is a byte string which JSON shows as an escaped Go string (lossless).
type B []byte

func (b B) MarshalJSON() ([]byte, error) { return json.Marshal(quoteBytes(b)) }
func (b *B) UnmarshalJSON(js []byte) error {
	var s string
	if err := json.Unmarshal(js, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	if err != nil {
		return fmt.Errorf("%q: %v", s, err)
	}
	*b = B(u)
	return nil
}

func quoteBytes(b []byte) string {
	if utf8.Valid(b) {
		return strconv.QuoteToASCII(string(b))
	}
	// byte by byte, so that cp949 data does not turn into runes
	var o bytes.Buffer
	o.WriteByte('"')
	for _, c := range b {
		if c >= 0x20 && c < 0x7f && c != '"' && c != '\\' {
			o.WriteByte(c)
		} else {
			fmt.Fprintf(&o, `\x%02x`, c)
		}
	}
	o.WriteByte('"')
	return o.String()
}

// Seg is a unit repeated N times; a list of them describes a long input shortly.
type Seg struct {
	U B   `json:"u"`
	N int `json:"n"`
}

type Segs []Seg

func (s Segs) bytes() []byte {
	n := 0
	for _, x := range s {
		n += len(x.U) * x.N
	}
	b := make([]byte, 0, n)
	for _, x := range s {
		for i := 0; i < x.N; i++ {
			b = append(b, x.U...)
		}
	}
	return b
}

func seg(b []byte) Segs { return Segs{{U: B(b), N: 1}} }

func pairBytes(p uint16) []byte { return []byte{byte(p >> 8), byte(p)} }

// ---- drawing helpers; rapid shrinks towards the first choice and small numbers

func pick(t *rapid.T, n int) int { return rapid.IntRange(0, n-1).Draw(t, "i") }

// weighted draws an index with the given weights.
func weighted(t *rapid.T, w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := pick(t, sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

var interestingSizes = []int{1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16384, 32768, 65535, 65536}

// size draws a length up to max: small, near a power of two, or from the dictionary.
func size(t *rapid.T, max int) int {
	v := 0
	switch weighted(t, 6, 3, 1, 2) {
	case 0:
		v = rapid.IntRange(0, 12).Draw(t, "n")
	case 1:
		v = interestingSizes[pick(t, len(interestingSizes))] + rapid.IntRange(-4, 4).Draw(t, "d")
	case 2:
		v = rapid.IntRange(0, max).Draw(t, "n")
	case 3:
		v = dictSize(t) + rapid.IntRange(-1, 1).Draw(t, "d")
	}
	if v < 0 {
		v = 0
	}
	if v > max {
		v %= max + 1
	}
	return v
}

// mapped draws an index of an assigned pair: spread over the table, its ends, the borders
// of its rows, Hangul, hanja, symbols.
func mapped(t *rapid.T) int {
	switch weighted(t, 4, 1, 2, 1) {
	case 0:
		return pick(t, len(pairs))
	case 1:
		i := pick(t, 12)
		if i < 6 {
			return i
		}
		return len(pairs) - 1 - (i - 6)
	case 2: // beginning or end of a row
		row := 0x81 + pick(t, 0x7e)
		lo, hi := -1, -1
		for i, p := range rowOf(row) {
			if i == 0 {
				lo = p
			}
			hi = p
		}
		if lo < 0 {
			return pick(t, len(pairs))
		}
		if rapid.Bool().Draw(t, "end") {
			return hi
		}
		return lo
	default:
		return hotPairs[pick(t, len(hotPairs))]
	}
}

var (
	rowIdx   [256][]int
	hotPairs []int
)

func rowOf(b int) []int { return rowIdx[b&0xff] }

func initGen() {
	for i, p := range pairs {
		rowIdx[p>>8] = append(rowIdx[p>>8], i)
	}
	for _, r := range []rune("가각힣ㄱㅣ女一乙不樂、　￥￦￣㉯①½¡€®─┘АяАαΩァんⅰⅩ℃㏘힝훀뷁똠") {
		if p, ok := encTab[r]; ok {
			for i, q := range pairs {
				if q == p {
					hotPairs = append(hotPairs, i)
				}
			}
		}
	}
}

// uncoded: characters cp949 does not have, which are likely to be mistaken for one
func uncoded(t *rapid.T) rune {
	switch weighted(t, 3, 2, 2, 2, 1) {
	case 0: // an encodable character moved to another plane
		return chars[mapped(t)]&0xffff | rune(rapid.IntRange(1, 16).Draw(t, "plane"))<<16
	case 1: // beside an encodable one
		r := chars[mapped(t)] + rune(rapid.IntRange(-2, 2).Draw(t, "d"))
		if _, ok := encTab[r]; ok || r < 0x80 || !utf8.ValidRune(r) {
			return 0xFFFD
		}
		return r
	case 2:
		return []rune{0x80, 0xA0, 0xA9, 0x7FF, 0x800, 0xD7A4, 0xD7FF, 0xE000, 0xF8FF, 0xFEFF, 0xFFE7, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x20000, 0x10FFFF}[pick(t, 18)]
	case 3:
		for i := 0; i < 4; i++ {
			r := rapid.Int32Range(0x80, 0x10FFFF).Draw(t, "r")
			if _, ok := encTab[r]; !ok && utf8.ValidRune(r) {
				return r
			}
		}
		return 0x10FFFF
	default:
		r := dictRune(t)
		if _, ok := encTab[r]; ok || r < 0x80 || !utf8.ValidRune(r) {
			return 0x1F468
		}
		return r
	}
}

// hotWeight is the weight of dictionary units: more if there are new literals.
func hotWeight() int {
	if len(hot.ints)+len(hot.strs) > 0 {
		return 4
	}
	return 1
}

func ascii(t *rapid.T) byte {
	if weighted(t, 3, 1) == 0 {
		return "a\x00\n\r?~\x7fAz0 "[pick(t, 11)]
	}
	return rapid.ByteRange(0, 0x7f).Draw(t, "c")
}

// cpUnit draws one unit of a cp949 stream; valid restricts to ASCII and assigned pairs.
func cpUnit(t *rapid.T, valid bool) []byte {
	if valid {
		switch weighted(t, 3, 8, 1) {
		case 0:
			return []byte{ascii(t)}
		case 2:
			if b := mEncode(onlyCoded(phrase(t), true)); len(b) > 0 {
				return b
			}
		}
		return pairBytes(pairs[mapped(t)])
	}
	switch weighted(t, 3, 8, 2, 2, 2, 1, hotWeight(), 2) {
	case 7:
		if b := cpPhrase(t); len(b) > 0 {
			return b
		}
		return []byte{'a'}
	case 6:
		return dictBytes(t)
	case 0:
		return []byte{ascii(t)}
	case 1:
		return pairBytes(pairs[mapped(t)])
	case 2:
		return pairBytes(unasgn[pick(t, len(unasgn))])
	case 3: // high byte and ASCII or control
		return []byte{rapid.ByteRange(0x80, 0xff).Draw(t, "hi"), ascii(t)}
	case 4:
		return []byte{[]byte{0x80, 0xff, 0x81, 0xfe, 0xa1, 0xc9, 0xa0}[pick(t, 7)], rapid.Byte().Draw(t, "lo")}
	default:
		return rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "raw")
	}
}

// txUnit draws one unit of a UTF-8 text; valid restricts to what cp949 can encode.
func txUnit(t *rapid.T, valid bool) []byte {
	if valid {
		switch weighted(t, 3, 8, 1) {
		case 0:
			return []byte{ascii(t)}
		case 2:
			if b := onlyCoded(phrase(t), true); len(b) > 0 {
				return b
			}
		}
		return []byte(string(chars[mapped(t)]))
	}
	switch weighted(t, 6, 16, 8, 4, 2, 2*hotWeight(), 3) {
	case 6:
		return txPhrase(t)
	case 0:
		return []byte{ascii(t)}
	case 1:
		return []byte(string(chars[mapped(t)]))
	case 2:
		return []byte(string(uncoded(t)))
	case 3: // malformed: cut, overlong, surrogate, out of range, stray
		switch pick(t, 6) {
		case 0:
			u := []byte(string([]rune{chars[mapped(t)], uncoded(t)}[pick(t, 2)]))
			return u[:1+pick(t, len(u)-1)]
		case 1:
			return [][]byte{{0xC0, 0x80}, {0xC1, 0xBF}, {0xE0, 0x80, 0x80}, {0xE0, 0x9F, 0xBF}, {0xF0, 0x80, 0x80, 0x80}, {0xF0, 0x8F, 0xBF, 0xBF}}[pick(t, 6)]
		case 2:
			return []byte{0xED, rapid.ByteRange(0xA0, 0xBF).Draw(t, "s"), rapid.ByteRange(0x80, 0xBF).Draw(t, "s2")}
		case 3:
			return [][]byte{{0xF4, 0x90, 0x80, 0x80}, {0xF5, 0x80, 0x80, 0x80}, {0xF8, 0x88, 0x80, 0x80, 0x80}, {0xFE}, {0xFF}}[pick(t, 5)]
		case 4:
			return []byte{rapid.ByteRange(0x80, 0xff).Draw(t, "stray")}
		default:
			u := []byte(string(chars[mapped(t)]))
			return append(u[:len(u)-1:len(u)-1], ascii(t))
		}
	case 4:
		return rapid.SliceOfN(rapid.Byte(), 1, 5).Draw(t, "raw")
	default: // 5
		return dictBytes(t)
	}
}

// segs draws an input: mostly a few units, sometimes long, with the total length put
// near an interesting size.
func segs(t *rapid.T, unit func() []byte, max int) Segs {
	var s Segs
	n := rapid.IntRange(0, 12).Draw(t, "units")
	long := weighted(t, 4, 1, 1)
	if long == 1 && max > 0 {
		total := size(t, max)
		if len(hot.big) > 0 { // a new number which is a length beyond the usual
			if v := hot.big[pick(t, len(hot.big))] + rapid.IntRange(-3, 9).Draw(t, "d"); v > max && (v < 200000 || pick(t, 50) == 49) && pick(t, 3) == 2 {
				total = v
			}
		}
		back := rapid.IntRange(0, 9).Draw(t, "back") // the units begin so far before it
		u := []byte{'a'}
		if rapid.Bool().Draw(t, "padunit") {
			u = unit()
		}
		if k := (total - back) / len(u); k > 0 {
			s = append(s, Seg{U: u, N: k})
		}
		if n < 4 {
			n = 4
		}
	}
	for i := 0; i < n; i++ {
		k := 1
		if long == 2 && max > 0 && weighted(t, 2, 1) == 1 {
			k = size(t, max/8)
		}
		u := unit()
		if k > 0 {
			s = append(s, Seg{U: u, N: k})
		}
	}
	return s
}

func cpSegs(t *rapid.T, valid bool, max int) Segs {
	if !valid && weighted(t, 24, 1) == 1 { // what it is not made for: UTF-8
		return segs(t, func() []byte { return txUnit(t, true) }, max)
	}
	s := segs(t, func() []byte { return cpUnit(t, valid) }, max)
	if !valid && weighted(t, 3, 1) == 1 { // ends inside a character
		s = append(s, Seg{U: B{rapid.ByteRange(0x80, 0xff).Draw(t, "lead")}, N: 1})
	}
	return s
}

func txSegs(t *rapid.T, valid bool, max int) Segs {
	if !valid && weighted(t, 24, 1) == 1 { // encoded already
		return segs(t, func() []byte { return cpUnit(t, true) }, max)
	}
	return segs(t, func() []byte { return txUnit(t, valid) }, max)
}

// cuts draws chunk sizes, used cyclically; zero only if allowed; never all zero.
func cuts(t *rapid.T, zero bool, max int) []int {
	n := rapid.IntRange(1, 8).Draw(t, "cuts")
	r := make([]int, 0, n+1)
	sum := 0
	for i := 0; i < n; i++ {
		v := 1
		switch weighted(t, 5, 3, 1) {
		case 0:
			v = rapid.IntRange(1, 5).Draw(t, "c")
		case 1:
			v = size(t, max)
		case 2:
			v = 0
		}
		if len(hot.big) > 0 && pick(t, 16) == 15 { // a new number which is a length
			if b := hot.big[pick(t, len(hot.big))] + rapid.IntRange(-3, 9).Draw(t, "d"); b < 200000 || pick(t, 20) == 19 {
				v = b
			}
		}
		if v == 0 && !zero {
			v = 1
		}
		sum += v
		r = append(r, v)
	}
	if sum == 0 {
		r = append(r, 1+pick(t, 3))
	}
	return r
}

func at(c []int, i int) int { return c[i%len(c)] }

// ---- runes

var runeEdges = func() []rune {
	m := map[rune]bool{}
	for _, r := range []rune{0, 'a', 0x7f, 0x80, 0xff, 0x1100, 0x1112, 0x1113, 0x115F, 0x1160, 0x1161, 0x1175, 0x1176, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0x11FF,
		0x3130, 0x3131, 0x314E, 0x314F, 0x3163, 0x3164, 0x3165, 0x318E, 0x318F, 0xA960, 0xA97C, 0xABFF, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xD7A3, 0xD7A4,
		0xD7B0, 0xD7FB, 0xD800, 0xDFFF, 0xE000, 0xF900, 0xFA2D, 0xFFA0, 0xFFA1, 0xFFBE, 0xFFDC, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000,
		-1, -0x80000000, 0x7fffffff} {
		for d := rune(-1); d <= 1; d++ {
			m[r+d] = true
		}
	}
	var l []rune
	for r := range m {
		l = append(l, r)
	}
	sortRunes(l)
	return l
}()

// anyRune draws any int32, most often one that is, or is nearly, Hangul.
func anyRune(t *rapid.T) rune {
	switch weighted(t, 3, 3, 3, 2, 3, 1, hotWeight()) {
	case 0:
		return rapid.Int32Range(syl0, sylN).Draw(t, "syl")
	case 1:
		all := [][]rune{compats, leads, medials, tails}[pick(t, 4)]
		return all[pick(t, len(all))]
	case 2:
		return runeEdges[pick(t, len(runeEdges))]
	case 3:
		return rapid.Int32Range(0x1100, 0x318F).Draw(t, "jamo")
	case 4: // a jamo or syllable with one bit changed, or moved by a multiple of 2^k
		base := rune(syl0 + pick(t, sylN-syl0+1))
		if pick(t, 2) == 0 {
			all := [][]rune{compats, leads, medials, tails}[pick(t, 4)]
			base = all[pick(t, len(all))]
		}
		k := rapid.IntRange(0, 31).Draw(t, "bit")
		return base ^ rune(int32(uint32(1)<<k))
	case 5:
		return rapid.Int32().Draw(t, "any")
	default:
		return dictRune(t)
	}
}

func sortRunes(l []rune) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// enumRunes yields every rune value worth enumerating, once: all of Unicode and a margin,
// every jamo, syllable edge and hanja moved by multiples of powers of two, and the ends
// of the int32 range.
func enumRunes(tier string, do func(rune)) {
	for r := rune(-0x1000); r <= 0x111000; r++ {
		do(r)
	}
	seen := map[rune]bool{}
	add := func(r rune) {
		if (r < -0x1000 || r > 0x111000) && !seen[r] {
			seen[r] = true
			do(r)
		}
	}
	base := append([]rune{}, runeEdges...)
	for _, l := range [][]rune{compats, leads, medials, tails, dict.runes, hot.runes} {
		base = append(base, l...)
	}
	for i := rune(0); i < 600; i += 7 {
		base = append(base, syl0+i*18, sylN-i*18)
	}
	for i := 0; i < len(hanjaAll); i += 97 {
		base = append(base, hanjaAll[i])
	}
	for _, r := range base {
		for k := 8; k < 32; k++ {
			d := rune(int32(uint32(1) << k))
			add(r + d)
			add(r - d)
			add(r ^ d)
			add(r + 3*d)
		}
		add(-r)
		add(^r)
	}
	for r := rune(0x7fffffff); r > 0x7fffff00; r-- {
		add(r)
		add(-r)
	}
}
