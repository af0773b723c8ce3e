package main

import (
	_ "embed"
	"fmt"
	"strings"
	"unicode/utf8"

	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/unicode/norm"
	"golang.org/x/text/unicode/runenames"
)

// Everything here is independent of the code under test: Python's cp949 codec (as
// data), the Unicode character names and normalization of x/text, the CLDR readings,
// and the tables of letters written out below.

//go:embed data/cp949.txt
var cp949Txt string

//go:embed data/hanja.txt
var hanjaTxt string

//go:embed data/cldr.txt
var cldrTxt string

var (
	decTab [65536]rune         // pair -> character, 0 = unassigned
	encTab = map[rune]uint16{} // character -> pair
	pairs  []uint16            // assigned pairs, ascending
	chars  []rune              // their characters, same order
	unasgn []uint16            // unassigned pairs with a high first byte

	hanjaTab = map[rune]rune{}
	hanjaAll []rune
	cldrTab  = map[rune]rune{}
)

func hex4(s string) (v rune) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c <= '9':
			v = v<<4 | rune(c-'0')
		default:
			v = v<<4 | rune(c-'A'+10)
		}
	}
	return
}

func fastTab(txt string, f func(a, b rune)) {
	for len(txt) > 0 {
		i := strings.IndexByte(txt, '\n')
		l := txt
		if i >= 0 {
			l, txt = txt[:i], txt[i+1:]
		} else {
			txt = ""
		}
		if l == "" {
			continue
		}
		s := strings.IndexByte(l, ' ')
		f(hex4(l[:s]), hex4(l[s+1:]))
	}
}

func init() {
	fastTab(cp949Txt, func(a, b rune) {
		decTab[a] = b
		encTab[b] = uint16(a)
		pairs = append(pairs, uint16(a))
		chars = append(chars, b)
	})
	for p := 0x8000; p <= 0xffff; p++ {
		if decTab[p] == 0 {
			unasgn = append(unasgn, uint16(p))
		}
	}
	fastTab(hanjaTxt, func(a, b rune) { hanjaTab[a] = b; hanjaAll = append(hanjaAll, a) })
	fastTab(cldrTxt, func(a, b rune) { cldrTab[a] = b })
	if len(pairs) != 17048 || len(encTab) != 17048 || len(hanjaTab) != 27496 || len(cldrTab) != 7476 {
		panic(harnessError("reference data damaged"))
	}
	initJamo()
	initGen()
	initRows()
	initSlabs()
}

// mDecode decodes the complete characters of b; rest is 1 if a lead byte is left over.
func mDecode(b []byte) (out []byte, rest int) {
	out = make([]byte, 0, len(b)*3/2+4)
	i := 0
	for i < len(b) {
		if b[i] < 0x80 {
			out = append(out, b[i])
			i++
			continue
		}
		if i+1 == len(b) {
			return out, 1
		}
		r := decTab[int(b[i])<<8|int(b[i+1])]
		if r == 0 {
			r = 0xFFFD
		}
		out = utf8.AppendRune(out, r)
		i += 2
	}
	return out, 0
}

// mEncode encodes all of b, invalid bytes included.
func mEncode(b []byte) []byte {
	out := make([]byte, 0, len(b))
	for len(b) > 0 {
		r, n := utf8.DecodeRune(b)
		b = b[n:]
		switch p, ok := encTab[r]; {
		case r < 0x80:
			out = append(out, byte(r))
		case ok && !(r == utf8.RuneError && n == 1):
			out = append(out, byte(p>>8), byte(p))
		default:
			out = append(out, '?')
		}
	}
	return out
}

// mHeld is the number of bytes at the end of b which are the proper beginning of a
// well-formed character.
func mHeld(b []byte) int {
	for n := 1; n <= 3 && n <= len(b); n++ {
		t := b[len(b)-n:]
		if t[0] >= 0xC0 && !utf8.FullRune(t) {
			return n
		}
	}
	return 0
}

func mConvert(s string) string {
	var o strings.Builder
	for _, r := range s {
		if h, ok := hanjaTab[r]; ok {
			r = h
		}
		o.WriteRune(r)
	}
	return o.String()
}

// ---- jamo

const (
	syl0 = 0xAC00
	sylN = 0xD7A3
)

var (
	compatByName                 = map[string]rune{}
	jamoName                     = map[rune]string{} // every modern jamo, any form -> letter name
	leads, medials, tails        []rune              // conjoining, in code order
	compats                      []rune
	mLead, mMedial, mTail, mComp = map[rune]rune{}, map[rune]rune{}, map[rune]rune{}, map[rune]rune{}
)

func initJamo() {
	blk := func(lo, hi rune, prefix string, list *[]rune) {
		for r := lo; r <= hi; r++ {
			n := runenames.Name(r)
			if !strings.HasPrefix(n, prefix) {
				panic(harnessError("unexpected name " + n))
			}
			n = n[len(prefix):]
			jamoName[r] = n
			*list = append(*list, r)
		}
	}
	blk(0x3131, 0x3163, "HANGUL LETTER ", &compats)
	blk(0x1100, 0x1112, "HANGUL CHOSEONG ", &leads)
	blk(0x1161, 0x1175, "HANGUL JUNGSEONG ", &medials)
	blk(0x11A8, 0x11C2, "HANGUL JONGSEONG ", &tails)
	for _, c := range compats {
		compatByName[jamoName[c]] = c
		mComp[c] = c
	}
	set := func(list []rune, m map[rune]rune) {
		for _, j := range list {
			c := compatByName[jamoName[j]]
			if c == 0 {
				panic(harnessError("no letter for " + jamoName[j]))
			}
			m[j], m[c] = j, j
			mComp[j] = c
		}
	}
	set(leads, mLead)
	set(medials, mMedial)
	set(tails, mTail)
}

// mSplit is the canonical decomposition by x/text; nothing for a non-syllable.
func mSplit(r rune) (l, m, t rune) {
	if r < syl0 || r > sylN {
		return 0, 0, 0
	}
	d := []rune(norm.NFD.String(string(r)))
	switch len(d) {
	case 2:
		return d[0], d[1], 0
	case 3:
		return d[0], d[1], d[2]
	}
	panic(harnessError("NFD"))
}

// mJoin is the canonical composition by x/text, or U+FFFD.
func mJoin(l, m, t rune) rune {
	a, ok1 := mLead[l]
	b, ok2 := mMedial[m]
	c, ok3 := mTail[t]
	if !ok1 || !ok2 || !ok3 && t != 0 {
		return 0xFFFD
	}
	s := []rune{a, b}
	if t != 0 {
		s = append(s, c)
	}
	n := []rune(norm.NFC.String(string(s)))
	if len(n) != 1 {
		panic(harnessError("NFC"))
	}
	return n[0]
}

func mTailOf(s string) rune {
	r, n := utf8.DecodeLastRuneInString(s)
	if n == 0 || r < syl0 || r > sylN {
		return 0
	}
	_, _, t := mSplit(r)
	return t
}

// compound letters, written out by hand
var compound = map[rune]string{
	'ㄲ': "ㄱㄱ", 'ㄸ': "ㄷㄷ", 'ㅃ': "ㅂㅂ", 'ㅆ': "ㅅㅅ", 'ㅉ': "ㅈㅈ",
	'ㄳ': "ㄱㅅ", 'ㄵ': "ㄴㅈ", 'ㄶ': "ㄴㅎ", 'ㄺ': "ㄹㄱ", 'ㄻ': "ㄹㅁ", 'ㄼ': "ㄹㅂ",
	'ㄽ': "ㄹㅅ", 'ㄾ': "ㄹㅌ", 'ㄿ': "ㄹㅍ", 'ㅀ': "ㄹㅎ", 'ㅄ': "ㅂㅅ",
	'ㅐ': "ㅏㅣ", 'ㅒ': "ㅑㅣ", 'ㅔ': "ㅓㅣ", 'ㅖ': "ㅕㅣ", 'ㅘ': "ㅗㅏ", 'ㅙ': "ㅗㅏㅣ",
	'ㅚ': "ㅗㅣ", 'ㅝ': "ㅜㅓ", 'ㅞ': "ㅜㅓㅣ", 'ㅟ': "ㅜㅣ", 'ㅢ': "ㅡㅣ",
}

var basicStroke = map[rune]int{
	'ㄱ': 1, 'ㄴ': 1, 'ㄷ': 2, 'ㄹ': 3, 'ㅁ': 3, 'ㅂ': 4, 'ㅅ': 2, 'ㅇ': 1, 'ㅈ': 3, 'ㅊ': 4,
	'ㅋ': 2, 'ㅌ': 3, 'ㅍ': 4, 'ㅎ': 3,
	'ㅏ': 2, 'ㅑ': 3, 'ㅓ': 2, 'ㅕ': 3, 'ㅗ': 2, 'ㅛ': 3, 'ㅜ': 2, 'ㅠ': 3, 'ㅡ': 1, 'ㅣ': 1,
}

func mStroke(r rune) int {
	if r >= syl0 && r <= sylN {
		l, m, t := mSplit(r)
		return mStroke(l) + mStroke(m) + mStroke(t)
	}
	c := mComp[r]
	if s, ok := compound[c]; ok {
		n := 0
		for _, b := range s {
			n += basicStroke[b]
		}
		return n
	}
	return basicStroke[c]
}

// selfChecks compares the references with each other, so that a damaged reference is an
// error of the check and not a violation.
var selfDone map[string]int

func selfChecks() map[string]int {
	if selfDone != nil {
		return selfDone
	}
	r := map[string]int{}
	dec := korean.EUCKR.NewDecoder()
	for i, p := range pairs {
		s, err := dec.Bytes([]byte{byte(p >> 8), byte(p)})
		if err != nil || string(s) != string(chars[i]) {
			panic(harnessError(fmt.Sprintf("references differ at %04X", p)))
		}
		r["cp949 pairs where Python and x/text agree"]++
	}
	for h, s := range cldrTab {
		switch {
		case hanjaTab[h] == s:
			r["hanja readings where table and CLDR agree"]++
		case strings.ContainsRune(alternates, h):
			r["hanja with another accepted reading"]++
		default:
			panic(harnessError(fmt.Sprintf("reading of %c", h)))
		}
	}
	if len(basicStroke) != 24 || len(compound) != 27 || len(basicStroke)+len(compound) != len(compats) {
		panic(harnessError("letters"))
	}
	for c, s := range compound {
		if n := jamoName[c]; strings.HasPrefix(n, "SSANG") || strings.Contains(n, "-") {
			b := strings.Split(n, "-")
			if strings.HasPrefix(n, "SSANG") {
				b = []string{n[5:], n[5:]}
			}
			i := 0
			for _, x := range s {
				if jamoName[x] != b[i] {
					panic(harnessError("compound " + n))
				}
				i++
			}
			r["compound consonants confirmed by Unicode names"]++
		}
	}
	selfDone = r
	return r
}

// hanja with several readings, where the table has another one than CLDR
const alternates = "串廓金拏諾寧怒昵暱坍宅不体樂異泌"
