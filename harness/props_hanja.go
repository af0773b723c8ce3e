package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/suapapa/go_hangul/hanja"
	"pgregory.net/rapid"
)

// ---- P18

type concat struct {
	A Segs `json:"a"`
	B Segs `json:"b"`
}

// hanjaUnit draws a unit of a Korean text with hanja, well-formed.
func hanjaUnit(t *rapid.T) []byte {
	switch weighted(t, 6, 3, 2, 2, 2, hotWeight(), 1, 2) {
	case 7:
		return phrase(t)
	case 6: // with its reading, in either order, or a mark of variation or repetition
		h := hanjaAll[pick(t, len(hanjaAll))]
		k := string(hanjaTab[h])
		return []byte([]string{string(h) + "(" + k + ")", k + "(" + string(h) + ")", string(h) + k, string(h) + "\u3005", string(h) + "\U000E0100", string(h) + "\uFE00", string(h) + string(h)}[pick(t, 7)])
	case 5:
		return dictBytes(t)
	case 0:
		return []byte(string(hanjaAll[pick(t, len(hanjaAll))]))
	case 1:
		return []byte(string(rapid.Int32Range(syl0, sylN).Draw(t, "syl")))
	case 2:
		return []byte{ascii(t)}
	case 3: // beside a hanja, in another plane, or in the other blocks of ideographs
		h := hanjaAll[pick(t, len(hanjaAll))]
		var r rune
		switch pick(t, 4) {
		case 0:
			r = h + rune(rapid.IntRange(-2, 2).Draw(t, "d"))
		case 1:
			r = h + 0x10000*rune(rapid.IntRange(1, 16).Draw(t, "plane"))
		case 2:
			r = rapid.Int32Range(0xF900, 0xFAFF).Draw(t, "compat")
		default:
			r = rapid.Int32Range(0x20000, 0x2FFFF).Draw(t, "sip")
		}
		return []byte(string(r))
	default:
		return []byte(string(anyRune(t)))
	}
}

func hanjaSegs(t *rapid.T, max int) Segs {
	s := segs(t, func() []byte { return hanjaUnit(t) }, max)
	for i := range s { // (segments are whole characters, except words of the dictionary)
		if !utf8.Valid(s[i].U) {
			s[i].U = B(toValid(s[i].U))
		}
	}
	return s
}

func checkConcat(c concat) error {
	a, b := string(c.A.bytes()), string(c.B.bytes())
	if !utf8.ValidString(a) || !utf8.ValidString(b) {
		panic(harnessError("not well-formed"))
	}
	s := a + b
	out := hanja.Convert(s)
	turned := hanja.Convert(b + a)
	if n, m := utf8.RuneCountInString(s), utf8.RuneCountInString(out); n != m {
		return fmt.Errorf("%d characters become %d", n, m)
	}
	if !utf8.ValidString(out) {
		return fmt.Errorf("result is not well-formed")
	}
	o := out
	i := 0
	memo := map[rune]rune{}
	for _, r := range s {
		g, n := utf8.DecodeRuneInString(o)
		o = o[n:]
		if _, h := hanjaTab[r]; !h {
			if g != r {
				return fmt.Errorf("character %d, %s, is not hanja and becomes %s", i, runeStr(r), runeStr(g))
			}
		} else {
			w, ok := memo[r]
			if !ok {
				one := hanja.Convert(string(r))
				if utf8.RuneCountInString(one) != 1 {
					return fmt.Errorf("%s becomes %q", runeStr(r), one)
				}
				w, _ = utf8.DecodeRuneInString(one)
				memo[r] = w
			}
			if g != w || g == r {
				return fmt.Errorf("character %d, %s, becomes %s; alone it becomes %s", i, runeStr(r), runeStr(g), runeStr(w))
			}
		}
		i++
	}
	if ca, cb := hanja.Convert(a), hanja.Convert(b); ca+cb != out {
		return fmt.Errorf("concatenation: %s", diff([]byte(out), []byte(ca+cb)))
	}
	if n := len(turned) - len(hanja.Convert(a)); n < 0 || turned[n:]+turned[:n] != out {
		return fmt.Errorf("concatenation the other way: %s", diff([]byte(hanja.Convert(b)+hanja.Convert(a)), []byte(turned)))
	}
	if again := hanja.Convert(out); again != out {
		return fmt.Errorf("second conversion: %s", diff([]byte(again), []byte(out)))
	}
	return nil
}

func concatClass(c concat) (string, bool) {
	var h, other bool
	n := 0
	for _, l := range []Segs{c.A, c.B} {
		for _, s := range l {
			n += len(s.U) * s.N
			for _, r := range string(s.U) {
				if _, ok := hanjaTab[r]; ok {
					h = true
				} else {
					other = true
				}
			}
		}
	}
	l := "no hanja"
	if h {
		l = "hanja only"
		if other {
			l = "hanja and other characters"
		}
	}
	return l + sizeClass(n), h && (other || len(c.A)+len(c.B) > 1)
}

var concatKind = K[concat]{
	Name:  "concat",
	Check: checkConcat,
	Class: concatClass,
	Enum: func(tier string, do func(concat)) {
		do(concat{})
		for i, h := range hanjaAll {
			n := hanjaAll[(i*7919+13)%len(hanjaAll)]
			do(concat{seg([]byte("가" + string(h))), seg([]byte(string(n) + "b"))})
			do(concat{seg([]byte(string(h) + string(h))), seg([]byte(string(h)))})
		}
		step := rune(7)
		if tier == "thorough" {
			step = 1
		}
		for r := rune(0); r <= 0x10FFFF; r++ {
			if !utf8.ValidRune(r) || r >= 0x32000 && (r%step > 0 || r >= 0xE0000 && r < 0xE0200) {
				continue
			}
			do(concat{seg([]byte("國" + string(r))), seg([]byte("民"))})
		}
		// all readings after each sort of character: initial-sound rules must not apply
		for _, h := range []rune("女老李柳樂金不北車宅度龍念歷") {
			for _, n := range hanjaAll {
				do(concat{seg([]byte(string(h))), seg([]byte(string(n)))})
			}
			for r := rune(syl0); r <= sylN; r += 19 {
				do(concat{seg([]byte(string(r))), seg([]byte(string(h)))})
			}
		}
		for r := rune(0xE0000); r < 0xE0200; r++ {
			do(concat{seg([]byte("國" + string(r))), seg([]byte("民"))})
		}
		for _, h := range hanjaAll {
			k := string(hanjaTab[h])
			do(concat{seg([]byte(string(h) + "(" + k + ")" + k)), seg([]byte(k + "(" + string(h) + ")"))})
		}
		for n := 2; n < 1300; n++ {
			do(concat{Segs{{U: B("x"), N: n}, {U: B("大韓"), N: 2}}, Segs{{U: B("國"), N: n}}})
			do(concat{Segs{{U: B("民主"), N: n}}, Segs{{U: B("é國"), N: 1}}})
		}
	},
	Gen: func(t *rapid.T) concat { return concat{hanjaSegs(t, 30000), hanjaSegs(t, 300)} },
	NQ:  300000, NT: 12000000,
}.kind()

// row is one hanja between others: the text HxHyHz... for the others x, y, z... from
// index From to To (of all hanja, then characters of other sorts).  The rows of all hanja
// hold every ordered pair of hanja side by side.
type row struct {
	H    rune `json:"h"`
	From int  `json:"from"`
	To   int  `json:"to"`
}

var (
	rowChars []rune // all hanja, then other characters
	rowUTF8  [][2][]byte
)

func initRows() {
	rowChars = append(rowChars, hanjaAll...)
	for r := rune(0); r < 0x80; r++ {
		rowChars = append(rowChars, r)
	}
	for r := rune(syl0); r <= sylN; r++ {
		rowChars = append(rowChars, r)
	}
	for _, l := range [][]rune{compats, leads, medials, tails} {
		rowChars = append(rowChars, l...)
	}
	for _, p := range [][2]rune{{0xA0, 0xFF}, {0x300, 0x36F}, {0x2000, 0x206F}, {0x2E80, 0x2FD5}, {0x3000, 0x312F}, {0x3190, 0x33FF}, {0xF900, 0xFAFF}, {0xFE00, 0xFE0F}, {0xFF00, 0xFFEF}} {
		for r := p[0]; r <= p[1]; r++ {
			if _, h := hanjaTab[r]; !h {
				rowChars = append(rowChars, r)
			}
		}
	}
	for _, r := range rowChars {
		o := []byte(string(r))
		if h, ok := hanjaTab[r]; ok {
			rowUTF8 = append(rowUTF8, [2][]byte{o, []byte(string(h))})
		} else {
			rowUTF8 = append(rowUTF8, [2][]byte{o, o})
		}
	}
}

func checkRow(c row) error {
	h, hr := []byte(string(c.H)), []byte(string(hanjaTab[c.H]))
	in, want := make([]byte, 0, 7*(c.To-c.From)), make([]byte, 0, 7*(c.To-c.From))
	for _, x := range rowUTF8[c.From:c.To] {
		in = append(append(in, h...), x[0]...)
		want = append(append(want, hr...), x[1]...)
	}
	in, want = append(in, h...), append(want, hr...)
	got := hanja.Convert(string(in))
	if got == string(want) {
		return nil
	}
	text, g, w := []rune(string(in)), []rune(got), []rune(string(want))
	for i, r := range w {
		if i >= len(g) || g[i] != r {
			lo, hi := max(0, i-2), min(len(text), i+3)
			return fmt.Errorf("character %d of %d, %s in %q: %s; want %s", i, len(w), runeStr(text[i]), string(text[lo:hi]), runeStr(append(g, make([]rune, len(w))...)[i]), runeStr(r))
		}
	}
	return fmt.Errorf("%d characters become %d", len(w), len(g))
}

var rowKind = K[row]{
	Name:  "row",
	Check: checkRow,
	Class: func(c row) (string, bool) { return "one hanja beside many characters", true },
	Enum: func(tier string, do func(row)) {
		for i, h := range hanjaAll {
			for from := i; from < len(hanjaAll); from += 4096 {
				do(row{h, from, min(from+4096, len(hanjaAll))})
			}
			if n := len(hanjaAll); tier == "thorough" {
				for ; n < len(rowChars); n += 4096 {
					do(row{h, n, min(n+4096, len(rowChars))})
				}
			} else { // each other character with one hanja in sixteen
				for k := n + i%16*256; k < len(rowChars); k += 16 * 256 {
					do(row{h, k, min(k+256, len(rowChars))})
				}
			}
		}
	},
	Reduce: func(c row) (l []row) {
		if n := c.To - c.From; n > 1 {
			l = append(l, row{c.H, c.From, c.From + n/2}, row{c.H, c.From + n/2, c.To}, row{c.H, c.From + 1, c.To}, row{c.H, c.From, c.To - 1})
		}
		return
	},
}.kind()

// ---- P19

func checkReading(r rune) error {
	want, is := hanjaTab[r]
	if got := hanja.IsHanja(r); got != is {
		return fmt.Errorf("IsHanja(%s) = %v", runeStr(r), got)
	}
	if !utf8.ValidRune(r) {
		return nil
	}
	if !is {
		want = r
	}
	got := hanja.Convert(string(r))
	if got != string(want) {
		return fmt.Errorf("Convert(%s) = %+q; want %s", runeStr(r), got, runeStr(want))
	}
	if is && (want < syl0 || want > sylN) {
		return fmt.Errorf("reading of %s is %s, not a syllable", runeStr(r), runeStr(want))
	}
	if c, ok := cldrTab[r]; ok && c != want && !strings.ContainsRune(alternates, r) {
		return fmt.Errorf("reading of %s is %s; CLDR has %s", runeStr(r), runeStr(want), runeStr(c))
	}
	return nil
}

func hanjaClass(r rune) (string, bool) {
	if _, ok := hanjaTab[r]; ok {
		switch {
		case cldrTab[r] == hanjaTab[r]:
			return "hanja, reading confirmed by CLDR", true
		case cldrTab[r] != 0:
			return "hanja, one of several readings", true
		}
		return "hanja, reading by the pinned table", true
	}
	if r >= 0x2E80 && r <= 0x33FF || r >= 0x3400 && r <= 0x9FFF || r >= 0xF900 && r <= 0xFAFF || r >= 0x20000 && r <= 0x323AF {
		return "other East Asian ideograph or symbol", true
	}
	if r < 0 || r > 0x10FFFF {
		return "not a code point", true
	}
	return "other character", false
}
