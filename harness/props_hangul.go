package main

import (
	"fmt"
	"unicode/utf8"

	hangul "github.com/suapapa/go_hangul"
	"github.com/suapapa/go_hangul/hanja"
	"golang.org/x/text/unicode/runenames"
	"pgregory.net/rapid"
)

type triple struct {
	L, M, T rune
}

func runeStr(r rune) string {
	if utf8.ValidRune(r) && r >= 0x20 {
		return fmt.Sprintf("%#x %q", r, string(r))
	}
	return fmt.Sprintf("%#x", r)
}

// ---- rune properties: one oracle per rune, run over enumerations, random runes, and
// whole ranges of int32

type rng struct {
	Lo int32
	N  int32
}

// runeKinds makes the kinds of a property about single runes.
// one is the full oracle; outside is a cheap one for values which are not code points.
func runeKinds(one func(r rune) error, outside func(r rune) bool, nontrivial func(r rune) (string, bool)) []*kind {
	return []*kind{
		K[rune]{
			Name:  "rune",
			Check: one,
			Class: nontrivial,
			Enum:  enumRunes,
			Gen:   anyRune,
			NQ:    180000, NT: 7200000,
		}.kind(),
		K[rng]{
			Name: "range",
			Check: func(c rng) error {
				for i := int32(0); i < c.N; i++ {
					r := c.Lo + i
					if r >= 0 && r <= 0x10FFFF {
						continue // enumerated one by one
					}
					if !outside(r) {
						if err := one(r); err != nil {
							return err
						}
						return fmt.Errorf("%s: wrong result for a value which is not a code point", runeStr(r))
					}
				}
				return nil
			},
			Class: func(c rng) (string, bool) { return "not a code point", true },
			Enum: func(tier string, do func(rng)) {
				if tier != "thorough" {
					return
				}
				for lo := int64(-1 << 31); lo < 1<<31; lo += 1 << 16 {
					do(rng{int32(lo), 1 << 16})
				}
			},
			Gen: func(t *rapid.T) rng {
				return rng{rapid.Int32Range(-0x8000, 0x7fff).Draw(t, "block") << 16, 1 << 14}
			},
			NQ: 4800, NT: 8,
		}.kind(),
	}
}

func classJamo(r rune) (string, bool) {
	switch {
	case r >= syl0 && r <= sylN:
		return "syllable", true
	case jamoName[r] != "":
		return "modern jamo", true
	case r < 0 || r > 0x10FFFF:
		return "not a code point", true
	case r >= 0x1100 && r <= 0x11FF || r >= 0x3130 && r <= 0x318F || r >= 0xA960 && r <= 0xA97F || r >= 0xD7A4 && r <= 0xD7FF || r >= 0xFFA0 && r <= 0xFFDF:
		return "old jamo and other Hangul blocks", true
	}
	return "other character", false
}

func checkSplit(r rune) error {
	l, m, t := hangul.Split(r)
	a, b, c := mSplit(r)
	if l != a || m != b || t != c {
		return fmt.Errorf("Split(%s) = %#x, %#x, %#x; want %#x, %#x, %#x", runeStr(r), l, m, t, a, b, c)
	}
	l, m, t = hangul.SplitCompat(r)
	if l != mComp[a] || m != mComp[b] || t != mComp[c] {
		return fmt.Errorf("SplitCompat(%s) = %#x, %#x, %#x; want %#x, %#x, %#x", runeStr(r), l, m, t, mComp[a], mComp[b], mComp[c])
	}
	return nil
}

func checkJoin(c triple) error {
	if got, want := hangul.Join(c.L, c.M, c.T), mJoin(c.L, c.M, c.T); got != want {
		return fmt.Errorf("Join(%s, %s, %s) = %s; want %s", runeStr(c.L), runeStr(c.M), runeStr(c.T), runeStr(got), runeStr(want))
	}
	return nil
}

func validForms(j rune) []rune { return []rune{j, mComp[j]} }

var syllableKind = K[rune]{
	Name: "syllable",
	Check: func(r rune) error {
		if err := checkSplit(r); err != nil {
			return err
		}
		if got := hangul.Join(hangul.Split(r)); got != r {
			return fmt.Errorf("Join(Split(%s)) = %s", runeStr(r), runeStr(got))
		}
		if got := hangul.Join(hangul.SplitCompat(r)); got != r {
			return fmt.Errorf("Join(SplitCompat(%s)) = %s", runeStr(r), runeStr(got))
		}
		return nil
	},
	Class: func(r rune) (string, bool) {
		if (r-syl0)%28 == 0 {
			return "open", true
		}
		return "closed", true
	},
	Enum: func(tier string, do func(rune)) {
		for r := rune(syl0); r <= sylN; r++ {
			do(r)
		}
	},
	Gen: func(t *rapid.T) rune { return rapid.Int32Range(syl0, sylN).Draw(t, "syl") },
	NQ:  60000, NT: 2400000,
}.kind()

var tripleKind = K[triple]{
	Name: "triple",
	Check: func(c triple) error {
		if err := checkJoin(c); err != nil {
			return err
		}
		s := hangul.Join(c.L, c.M, c.T)
		l, m, t := hangul.Split(s)
		if l != mLead[c.L] || m != mMedial[c.M] || t != mTail[c.T] {
			return fmt.Errorf("Split(Join(%#x, %#x, %#x)) = %#x, %#x, %#x", c.L, c.M, c.T, l, m, t)
		}
		return nil
	},
	Class: func(c triple) (string, bool) {
		n := 0
		for _, r := range []rune{c.L, c.M, c.T} {
			if r >= 0x3131 {
				n++
			}
		}
		if c.T == 0 {
			return fmt.Sprintf("no tail, %d compatibility letters", n), true
		}
		return fmt.Sprintf("tail, %d compatibility letters", n), true
	},
	Enum: func(tier string, do func(triple)) {
		for _, l := range leads {
			for _, m := range medials {
				for _, lf := range validForms(l) {
					for _, mf := range validForms(m) {
						do(triple{lf, mf, 0})
						for _, t := range tails {
							for _, tf := range validForms(t) {
								do(triple{lf, mf, tf})
							}
						}
					}
				}
			}
		}
	},
}.kind()

func genTriple(t *rapid.T) triple {
	form := func(j rune) rune { return validForms(j)[pick(t, 2)] }
	c := triple{form(leads[pick(t, 19)]), form(medials[pick(t, 21)]), 0}
	if pick(t, 3) > 0 {
		c.T = form(tails[pick(t, 27)])
	}
	switch weighted(t, 1, 2, 2, 2, 1) {
	case 1:
		c.L = anyRune(t)
	case 2:
		c.M = anyRune(t)
	case 3:
		c.T = anyRune(t)
	case 4:
		c = triple{anyRune(t), anyRune(t), anyRune(t)}
	}
	return c
}

var joinAnyKind = K[triple]{
	Name:  "anytriple",
	Check: checkJoin,
	Class: func(c triple) (string, bool) {
		n, which := 0, ""
		if mLead[c.L] == 0 {
			n++
			which += "L"
		}
		if mMedial[c.M] == 0 {
			n++
			which += "M"
		}
		if mTail[c.T] == 0 && c.T != 0 {
			n++
			which += "T"
		}
		if n == 0 {
			return "valid", false
		}
		return "invalid " + which, true
	},
	Enum: func(tier string, do func(triple)) {
		// one element over every rune, the others valid
		enumRunes(tier, func(r rune) {
			do(triple{r, 0x1161, 0})
			do(triple{0x3131, r, 0x11A8})
			do(triple{0x1112, 0x3163, r})
		})
	},
	Gen: genTriple,
	NQ:  300000, NT: 12000000,
}.kind()

// slab is every triple of a pair with each candidate from index From to To as the third.
type slab struct {
	L    rune `json:"l"`
	M    rune `json:"m"`
	From int  `json:"from"`
	To   int  `json:"to"`
	All  bool `json:"all"` // candidates of the thorough tier
}

var slabCands [2][]rune

func initSlabs() {
	for k, step := range []rune{997, 41} {
		var c []rune
		for _, b := range [][2]rune{{0x1100, 0x11FF}, {0x3130, 0x318F}} {
			for r := b[0]; r <= b[1]; r++ {
				c = append(c, r)
			}
		}
		for _, b := range [][2]rune{{0xA960, 0xA97C}, {0xD7B0, 0xD7FB}, {0xFFA0, 0xFFDC}} {
			for r := b[0]; r <= b[1]; r++ {
				if k == 1 || r%8 == 1 {
					c = append(c, r)
				}
			}
		}
		c = append(c, 0, -1, 'a', 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xD788, 0xD7A3, 0x10FFFF, 0x11100, 0x21100, 0x11161, 0x13131, 0x10000, 0x10001, 0xFFFD, 1, 28, 27, 21, 19)
		for r := rune(syl0 + 17); r <= sylN; r += step {
			c = append(c, r)
		}
		slabCands[k] = c
	}
}

func (c slab) cands() []rune {
	l := slabCands[0]
	if c.All {
		l = slabCands[1]
	}
	return l[c.From:c.To]
}

var joinSlabKind = K[slab]{
	Name: "slab",
	Check: func(c slab) error {
		l, m := mLead[c.L], mMedial[c.M]
		for _, t := range c.cands() {
			if l == 0 || m == 0 {
				if got := hangul.Join(c.L, c.M, t); got != 0xFFFD {
					return fmt.Errorf("Join(%s, %s, %s) = %s; want U+FFFD", runeStr(c.L), runeStr(c.M), runeStr(t), runeStr(got))
				}
			} else if err := checkJoin(triple{c.L, c.M, t}); err != nil {
				return err
			}
		}
		return nil
	},
	Class: func(c slab) (string, bool) {
		return "one pair with many thirds", true
	},
	Enum: func(tier string, do func(slab)) {
		all := tier == "thorough"
		c := slabCands[0]
		if all {
			c = slabCands[1]
		}
		for _, l := range c {
			for _, m := range c {
				do(slab{l, m, 0, len(c), all})
			}
		}
	},
	Reduce: func(c slab) (l []slab) {
		if n := c.To - c.From; n > 1 {
			l = append(l, slab{c.L, c.M, c.From, c.From + n/2, c.All}, slab{c.L, c.M, c.From + n/2, c.To, c.All})
		}
		return
	},
}.kind()

// ---- P06

func checkConv(r rune) error {
	for _, f := range []struct {
		n string
		f func(rune) rune
		m map[rune]rune
	}{{"CompatJamo", hangul.CompatJamo, mComp}, {"Lead", hangul.Lead, mLead}, {"Medial", hangul.Medial, mMedial}, {"Tail", hangul.Tail, mTail}} {
		if got, want := f.f(r), f.m[r]; got != want {
			return fmt.Errorf("%s(%s) = %s; want %s", f.n, runeStr(r), runeStr(got), runeStr(want))
		}
	}
	// metamorphic: through the other form and back
	c := hangul.CompatJamo(r)
	for _, f := range []func(rune) rune{hangul.Lead, hangul.Medial, hangul.Tail} {
		if x := f(r); x != 0 {
			if hangul.CompatJamo(x) != c {
				return fmt.Errorf("%s: compatibility letter of %s is %s, not %s", runeStr(r), runeStr(x), runeStr(hangul.CompatJamo(x)), runeStr(c))
			}
			if f(c) != x {
				return fmt.Errorf("%s: %s does not come back from %s", runeStr(r), runeStr(x), runeStr(c))
			}
		}
	}
	return nil
}

// ---- P07

func checkClass(r rune) error {
	in := func(lo, hi rune) bool { return r >= lo && r <= hi }
	lead, med, tail := in(0x1100, 0x1112), in(0x1161, 0x1175), in(0x11A8, 0x11C2)
	ja, mo := lead || tail || in(0x3131, 0x314E), med || in(0x314F, 0x3163)
	for _, f := range []struct {
		n    string
		f    func(rune) bool
		want bool
	}{{"IsLead", hangul.IsLead, lead}, {"IsMedial", hangul.IsMedial, med}, {"IsTail", hangul.IsTail, tail},
		{"IsJaeum", hangul.IsJaeum, ja}, {"IsMoeum", hangul.IsMoeum, mo}, {"IsHangul", hangul.IsHangul, ja || mo || in(syl0, sylN)}} {
		if got := f.f(r); got != f.want {
			return fmt.Errorf("%s(%s) = %v", f.n, runeStr(r), got)
		}
	}
	return nil
}

// ---- P08

func checkMulti(r rune) error {
	got, ok := hangul.SplitMultiElement(r)
	want, wok := compound[mComp[r]]
	if ok != wok || string(got) != want || !ok && len(got) != 0 {
		return fmt.Errorf("SplitMultiElement(%s) = %q %#x, %v; want %q, %v", runeStr(r), string(got), got, ok, want, wok)
	}
	for _, e := range got {
		if x, again := hangul.SplitMultiElement(e); again {
			return fmt.Errorf("SplitMultiElement(%s): element %s splits again into %q", runeStr(r), runeStr(e), string(x))
		}
	}
	return nil
}

// ---- P09

func checkStroke(r rune) error {
	if got, want := hangul.Stroke(r), mStroke(r); got != want {
		return fmt.Errorf("Stroke(%s) = %d; want %d", runeStr(r), got, want)
	}
	// additive through the public decompositions
	if r >= syl0 && r <= sylN {
		l, m, t := hangul.SplitCompat(r)
		if s := hangul.Stroke(l) + hangul.Stroke(m) + hangul.Stroke(t); s != hangul.Stroke(r) {
			return fmt.Errorf("Stroke(%s) = %d, its elements have %d", runeStr(r), hangul.Stroke(r), s)
		}
	} else if es, ok := hangul.SplitMultiElement(r); ok {
		s := 0
		for _, e := range es {
			s += hangul.Stroke(e)
		}
		if s != hangul.Stroke(r) {
			return fmt.Errorf("Stroke(%s) = %d, its elements have %d", runeStr(r), hangul.Stroke(r), s)
		}
	}
	return nil
}

// ---- words

func wordUnit(t *rapid.T) []byte {
	switch weighted(t, 6, 2, 2, 1, 1, 2, hotWeight(), 3) {
	case 7:
		return phrase(t)
	case 0:
		return []byte(string(rapid.Int32Range(syl0, sylN).Draw(t, "syl")))
	case 1:
		all := [][]rune{compats, leads, medials, tails}[pick(t, 4)]
		return []byte(string(all[pick(t, len(all))]))
	case 2:
		return []byte{ascii(t)}
	case 3:
		return []byte(string(hanjaAll[pick(t, len(hanjaAll))]))
	case 4:
		r := anyRune(t)
		return []byte(string(r)) // U+FFFD if not valid
	case 5: // malformed: mostly a cut syllable
		u := []byte(string(rapid.Int32Range(syl0, sylN).Draw(t, "cut")))
		switch pick(t, 4) {
		case 0:
			return u[:2]
		case 1:
			return u[:1]
		case 2:
			return u[1:]
		}
		return []byte{rapid.ByteRange(0x80, 0xff).Draw(t, "b")}
	default: // 6
		return dictBytes(t)
	}
}

// jamoSyllable draws a syllable written in jamo of one of the three sorts.
func jamoSyllable(t *rapid.T) []byte {
	l, m, f := pick(t, 19), pick(t, 21), pick(t, 28)
	r := []rune{leads[l], medials[m]}
	if f > 0 {
		r = append(r, tails[f-1])
	}
	switch pick(t, 3) {
	case 1:
		for i := range r {
			r[i] = mComp[r[i]]
		}
	case 2: // half-width forms
		for i := range r {
			c := mComp[r[i]]
			switch {
			case c <= 0x314E:
				r[i] = 0xFFA1 + c - 0x3131
			default:
				k := c - 0x314F
				r[i] = 0xFFC2 + k + k/6*2
			}
		}
	}
	return []byte(string(r))
}

func wordSegs(t *rapid.T) Segs {
	return segs(t, func() []byte {
		u := wordUnit(t)
		if len(u) == 0 {
			return []byte("나")
		}
		return u
	}, 70000)
}

func wordClass(b []byte) (string, bool) {
	r, n := utf8.DecodeLastRune(b)
	switch {
	case n == 0:
		return "empty", false
	case r == utf8.RuneError && n == 1:
		return "ends malformed", true
	case r >= syl0 && r <= sylN:
		if mTailOf(string(b)) != 0 {
			return "ends in closed syllable", true
		}
		return "ends in open syllable", true
	case jamoName[r] != "":
		return "ends in jamo", true
	}
	return "ends in another character", true
}

type word struct {
	W Segs `json:"w"`
}

func checkWord(c word) error {
	w := string(c.W.bytes())
	want := mTailOf(w)
	if got := hangul.LastConsonant(w); got != want {
		return fmt.Errorf("LastConsonant(%s) = %s; want %s", quoteBytes(clip(w)), runeStr(got), runeStr(want))
	}
	if got := hangul.EndsWithConsonant(w); got != (want != 0) {
		return fmt.Errorf("EndsWithConsonant(%s) = %v", quoteBytes(clip(w)), got)
	}
	return nil
}

func clip(s string) []byte {
	if len(s) > 200 {
		return []byte("..." + s[len(s)-200:])
	}
	return []byte(s)
}

var wordKind = K[word]{
	Name:  "word",
	Check: checkWord,
	Class: func(c word) (string, bool) { return wordClass(c.W.bytes()) },
	Enum: func(tier string, do func(word)) {
		do(word{})
		for r := rune(0); r <= 0x10FFFF; r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			s := string(r)
			do(word{seg([]byte(s))})
			do(word{seg([]byte("강" + s))})
			if r >= 0x1000 && r < 0x12000 {
				do(word{seg([]byte(s + "가"))})
				do(word{seg([]byte(s + "!"))})
			}
		}
		// every length, ending in each kind of character
		for n := 1; n < 1500; n++ {
			for _, tail := range []string{"", "강", "가", "z", "\xea\xb0"} {
				do(word{Segs{{U: B("글"), N: n}, {U: B(tail), N: 1}}})
			}
		}
		// all 2-byte endings, alone and after a syllable
		for i := 0; i < 65536; i++ {
			do(word{seg([]byte{0xEA, byte(i >> 8), byte(i)})})
		}
	},
	Gen: func(t *rapid.T) word { return word{wordSegs(t)} },
	NQ:  1200000, NT: 48000000,
}.kind()

type post struct {
	W       Segs `json:"w"`
	With    B    `json:"with"`
	Without B    `json:"without"`
}

func checkPost(c post) error {
	w := string(c.W.bytes())
	with, without := string(c.With), string(c.Without)
	want := w
	switch t := mTailOf(w); {
	case t == 0, t == 0x11AF && with == "으로":
		want += without
	default:
		want += with
	}
	if got := hangul.AppendPostposition(w, with, without); got != want {
		return fmt.Errorf("AppendPostposition(%s, %q, %q): %s", quoteBytes(clip(w)), with, without, diff([]byte(got), []byte(want)))
	}
	return nil
}

var postPairs = [][2]string{{"이", "가"}, {"은", "는"}, {"을", "를"}, {"과", "와"}, {"으로", "로"}, {"이랑", "랑"}, {"아", "야"}, {"으로서", "로서"}, {"으로써", "로써"}, {"으로부터", "로부터"},
	{"이나", "나"}, {"이며", "며"}, {"", ""}, {"로", "으로"}, {"으로", "으로"}, {"으로", ""}, {"으로 ", "로 "}, {" 으로", " 로"}, {"\u110b\u1173\u1105\u1169", "로"}, {"으", "x"}, {"으\x00로", "로"}, {"이여", "여"}, {"을", ""}}

func postWord(t *rapid.T) string {
	switch weighted(t, 3, 2, 1) {
	case 0:
		p := postPairs[pick(t, len(postPairs))]
		return p[pick(t, 2)]
	case 1:
		var b []byte
		for i := rapid.IntRange(0, 4).Draw(t, "n"); i > 0; i-- {
			b = append(b, wordUnit(t)...)
		}
		return string(b)
	default:
		return string(dictBytes(t))
	}
}

var postKind = K[post]{
	Name:  "postposition",
	Check: checkPost,
	Class: func(c post) (string, bool) {
		w := c.W.bytes()
		l, nt := wordClass(w)
		if mTailOf(string(w)) == 0x11AF {
			l = "ends in rieul"
		}
		if string(c.With) == "으로" {
			l += ", with 으로"
		}
		return l, nt && string(c.With) != string(c.Without)
	},
	Enum: func(tier string, do func(post)) {
		for i, p := range postPairs {
			for r := rune(syl0); r <= sylN; r++ {
				if i < 6 || r%5 == 0 || tier == "thorough" {
					do(post{seg([]byte(string(r))), B(p[0]), B(p[1])})
				}
			}
		}
		for r := rune(0); r <= 0x10FFFF; r++ {
			if r >= syl0 && r <= sylN || !utf8.ValidRune(r) || r > 0x30000 && r%16 > 0 {
				continue
			}
			do(post{seg([]byte(string(r))), B("으로"), B("로")})
			do(post{seg([]byte("물" + string(r))), B("이"), B("가")})
		}
		for n := 1; n < 1500; n++ {
			for _, tail := range []string{"강", "가", "물", "q"} {
				do(post{Segs{{U: B("낮"), N: n}, {U: B(tail), N: 1}}, B("으로"), B("로")})
			}
		}
	},
	Gen: func(t *rapid.T) post { return post{wordSegs(t), B(postWord(t)), B(postWord(t))} },
	NQ:  1200000, NT: 48000000,
}.kind()

// ---- P20

type constCase struct {
	Name    string
	Unicode string
	Value   int64
}

var constKind = K[constCase]{
	Name: "constant",
	Check: func(c constCase) error {
		for _, k := range constants {
			if k.Name == c.Name {
				if n := runenames.Name(rune(k.Value)); n != c.Unicode || k.Value != int64(rune(k.Value)) {
					return fmt.Errorf("constant %s is %#x %q; want the character named %q", c.Name, k.Value, n, c.Unicode)
				}
				// as values of the program: usable where a rune is expected
				if got := jamoName[rune(k.Value)]; got == "" {
					return fmt.Errorf("constant %s is not a modern jamo", c.Name)
				}
				return nil
			}
		}
		return fmt.Errorf("constant %s missing", c.Name)
	},
	Class: func(c constCase) (string, bool) { return "constant", true },
	Enum: func(tier string, do func(constCase)) {
		for _, k := range constants {
			do(constCase{k.Name, k.Unicode, k.Value})
		}
	},
}.kind()

// words spelled with the constants, joined, against the Unicode composition of the names
type spell struct {
	L, M, T int // indexes into the conjoining constants, T = -1: none
}

var spellKind = K[spell]{
	Name: "spell",
	Check: func(c spell) error {
		l, m := rune(constants[51+c.L].Value), rune(constants[51+19+c.M].Value)
		t, nt := rune(0), ""
		if c.T >= 0 {
			t, nt = rune(constants[51+40+c.T].Value), constants[51+40+c.T].Unicode
		}
		var want [3]rune
		for _, r := range leads {
			if runenames.Name(r) == constants[51+c.L].Unicode {
				want[0] = r
			}
		}
		for _, r := range medials {
			if runenames.Name(r) == constants[51+19+c.M].Unicode {
				want[1] = r
			}
		}
		for _, r := range tails {
			if runenames.Name(r) == nt {
				want[2] = r
			}
		}
		if got, exp := hangul.Join(l, m, t), mJoin(want[0], want[1], want[2]); got != exp {
			return fmt.Errorf("joining constants %s, %s, %q gives %s; want %s", constants[51+c.L].Name, constants[70+c.M].Name, nt, runeStr(got), runeStr(exp))
		}
		return nil
	},
	Class: func(c spell) (string, bool) { return "syllable of constants", true },
	Enum: func(tier string, do func(spell)) {
		for l := 0; l < 19; l++ {
			for m := 0; m < 21; m++ {
				for t := -1; t < 27; t++ {
					do(spell{l, m, t})
				}
			}
		}
	},
}.kind()

// ---- what must hold for a value which is not a code point, cheaply

func outSplit(r rune) bool {
	l, m, t := hangul.Split(r)
	a, b, c := hangul.SplitCompat(r)
	return l|m|t|a|b|c == 0
}

func outConv(r rune) bool {
	return hangul.CompatJamo(r) == 0 && hangul.Lead(r) == 0 && hangul.Medial(r) == 0 && hangul.Tail(r) == 0
}

func outClass(r rune) bool {
	return !hangul.IsLead(r) && !hangul.IsMedial(r) && !hangul.IsTail(r) && !hangul.IsJaeum(r) && !hangul.IsMoeum(r) && !hangul.IsHangul(r)
}

func outMulti(r rune) bool {
	m, ok := hangul.SplitMultiElement(r)
	return !ok && len(m) == 0
}

func outStroke(r rune) bool { return hangul.Stroke(r) == 0 }

func outHanja(r rune) bool { return !hanja.IsHanja(r) }
