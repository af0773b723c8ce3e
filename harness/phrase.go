package main

import (
	"fmt"
	"unicode/utf16"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// ---- sequences of characters which code is tempted to take together

var (
	brackets = []string{"()", "[]", "{}", "<>", "''", "\"\"", "（）", "「」", "『』", "《》", "〈〉", "【】", "“”", "‘’", "〔〕"}
	// words whose hanja are not read one by one, numbers, dates
	hanjaWords = []string{"十月", "六月", "五六月", "初八日", "十王", "十方", "木瓜", "牡丹", "困難", "喜怒哀樂", "大怒", "許諾", "承諾", "議論", "論難", "不動産", "不正", "不可不", "女子", "男女", "老人", "敬老", "年金", "十年", "比率", "率直", "行列", "羅列", "龍宮", "歷史", "來日", "李氏", "金氏", "金曜日", "車馬", "自動車", "北京", "敗北", "樂園", "音樂", "樂山樂水", "二十三", "一〇", "二千二十四年 一月 一日", "大韓民國", "中華人民共和國", "讀書", "句讀點", "洞察", "洞里", "宅內", "住宅", "復活", "反復", "更新", "變更", "人々", "時々刻々", "喇叭", "茶菓", "茶禮", "糖", "砂糖"}
	escapes    = []string{"&#44032;", "&#xAC00;", "&#x41;", "&#0;", "&amp;", "&lt;", "&nbsp;", "&#", "\\uac00", "\\uD83D\\uDE00", "\\xb0\\xa1", "%EA%B0%80", "%B0%A1", "%41", "%", "=B0=A1", "=\r\n", "U+AC00", "\\n", "\\", "+rAA-", "+-", "~{0!~}", "~~", "\x1b$)C", "\x1b$)C\x0e0!\x0f", "\x0e0!1\"\x0f", "\x1b(B", "\x1b[0m", "=?ks_c_5601-1987?B?sKE=?=", "<ruby>", "\x00", "\x1a", "\r\n\r\n", "\n\r", "\u2028", "\u0085"}
	marks      = []rune("\u0300\u0301\u0308\u030a\u0327\u0345\u20dd\u20e3\u3099\u309a\uff9e\uff9f\ufe00\ufe0e\ufe0f\U000E0100\u200d\u200c\u302e\u302f\u0323")
	emoji      = []string{"👨‍👩‍👧", "🇰🇷", "❤️", "1️⃣", "👍🏽", "☎︎"}
)

func some(t *rapid.T, min, max int, f func() []byte) (b []byte) {
	for i := rapid.IntRange(min, max).Draw(t, "some"); i > 0; i-- {
		b = append(b, f()...)
	}
	return
}

// phrase draws a few characters of well-formed UTF-8 which belong together somehow.
func phrase(t *rapid.T) []byte {
	syllable := func() []byte { return []byte(string(rapid.Int32Range(syl0, sylN).Draw(t, "syl"))) }
	char := func() []byte {
		switch pick(t, 5) {
		case 0:
			return []byte{"aezAEZ059 "[pick(t, 10)]}
		case 1:
			return []byte(string(chars[mapped(t)]))
		case 2:
			return []byte(string(hanjaAll[pick(t, len(hanjaAll))]))
		case 3: // kana, often with a mark in Unicode
			return []byte(string([]rune("かきはひウカハｶﾊあんー")[pick(t, 12)]))
		}
		return syllable()
	}
	switch pick(t, 13) {
	case 0: // a number
		b := some(t, 1, 9, func() []byte { return []byte{byte('0' + pick(t, 10))} })
		if pick(t, 3) == 0 { // a round one
			for i := range b[1:] {
				b[1+i] = '0'
			}
		}
		return append(b, []string{"", "", "%", ".5", ",000", "kg", "원", "년", "st", "-", ":00", "　"}[pick(t, 12)]...)
	case 1: // a word of Latin letters
		b := some(t, 1, 8, func() []byte { return []byte{byte('a' + pick(t, 26))} })
		switch pick(t, 4) {
		case 0:
			b[0] -= 32
		case 1:
			for i := range b {
				b[i] -= 32
			}
		}
		return b
	case 2:
		return []byte(escapes[pick(t, len(escapes))])
	case 3: // a reference to some character
		r := chars[mapped(t)]
		return []byte(fmt.Sprintf([]string{"&#%d;", "&#x%x;", "&#X%04X;", "\\u%04x", "U+%04X", "&#%05d;", "\\x{%x}", "%%u%04X"}[pick(t, 8)], r))
	case 4: // with marks
		return append(char(), some(t, 1, 2, func() []byte { return []byte(string(marks[pick(t, len(marks))])) })...)
	case 5: // in brackets or quotation marks
		b := []rune(brackets[pick(t, len(brackets))])
		in := some(t, 0, 3, char)
		return append(append([]byte(string(b[0])), in...), string(b[1])...)
	case 6:
		return some(t, 1, 3, func() []byte { return jamoSyllable(t) })
	case 7: // a syllable spelled with filler and letters, as in KS X 1001
		f := pick(t, 28)
		r := []rune{0x3164, mComp[leads[pick(t, 19)]], mComp[medials[pick(t, 21)]], 0x3164}
		if f > 0 {
			r[3] = mComp[tails[f-1]]
		}
		return []byte(string(r))
	case 8:
		return []byte(hanjaWords[pick(t, len(hanjaWords))])
	case 9: // again and again
		c := char()
		if pick(t, 2) == 0 {
			c = []byte(string([]rune(".!?~-=ㅋㅎㅠㅜㄱ ·…々〃ー\n\t'")[pick(t, 20)]))
		}
		return some(t, 2, 5, func() []byte { return c })
	case 10: // of one row of the code page
		row := rowOf(int(pairs[mapped(t)] >> 8))
		return some(t, 2, 6, func() []byte { return []byte(string(chars[row[pick(t, len(row))]])) })
	case 11:
		if pick(t, 2) == 0 {
			return []byte(emoji[pick(t, len(emoji))])
		}
		return append([]byte(string([]rune("⿰⿱⿴\ufff9\ufffa\ufffb\u202a\u202c\u2066\u200b\u2060\u00ad〾")[pick(t, 13)])), some(t, 1, 3, char)...)
	}
	// a word of syllables and the like
	return some(t, 2, 5, char)
}

// cpPhrase draws the same in bytes of a stream, or what other encodings have there.
func cpPhrase(t *rapid.T) []byte {
	switch pick(t, 6) {
	case 0:
		return phrase(t) // UTF-8, in the wrong place
	case 1:
		order := pick(t, 4)
		var b []byte
		for _, u := range utf16.Encode(append([]rune{0xFEFF}[order&1:], []rune(string(phrase(t)))...)) {
			if order > 1 {
				b = append(b, byte(u>>8), byte(u))
			} else {
				b = append(b, byte(u), byte(u>>8))
			}
		}
		return b
	case 2: // shifted, in seven bits
		b := []byte{0x0e}
		for _, c := range onlyCoded(phrase(t), true) {
			b = append(b, c&0x7f)
		}
		return append(b, 0x0f)
	}
	return mEncode(phrase(t))
}

// txPhrase draws a phrase of a text, now and then in another encoding.
func txPhrase(t *rapid.T) []byte {
	switch pick(t, 12) {
	case 0:
		return mEncode(phrase(t))
	case 1: // a pair of surrogates, each encoded by itself
		hi, lo := utf16.EncodeRune(rapid.Int32Range(0x10000, 0x10FFFF).Draw(t, "r"))
		return []byte{0xED, byte(0x80 | hi>>6&0x3f), byte(0x80 | hi&0x3f), 0xED, byte(0x80 | lo>>6&0x3f), byte(0x80 | lo&0x3f)}
	case 2: // Latin-1 taken for Unicode
		var b []byte
		for _, c := range phrase(t) {
			b = utf8.AppendRune(b, rune(c))
		}
		return b
	}
	return phrase(t)
}
