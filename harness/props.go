package main

func kinds(lists ...any) (r []*kind) {
	for _, l := range lists {
		switch x := l.(type) {
		case *kind:
			r = append(r, x)
		case []*kind:
			r = append(r, x...)
		}
	}
	return
}

const (
	asmUnicode = "golang.org/x/text's normalization and character names are right about modern jamo and the 11172 syllables (stable since Unicode 2.0)"
	asmCp949   = "Python's cp949 codec and golang.org/x/text/encoding/korean, which agree on all 17048 pairs, are right about code page 949"
	asmHanja   = "the 27496 readings of the pinned commit are the specification; 7460 are confirmed by the Unicode CLDR data, for 16 CLDR prefers another reading of the same hanja, and 20020 have no second source here"
	asmIO      = "sources and sinks keep the contracts of io.Reader and io.Writer"
	asmGo      = "the Go toolchain, its race detector, rapid and golang.org/x/text/transform work as documented"
)

var props = []*prop{
	{id: "P01", exhaustive: true, assumptions: []string{asmUnicode, asmGo},
		rule:  "every syllable and every triple of valid elements in every form; all are non-trivial",
		kinds: kinds(syllableKind, tripleKind)},
	{id: "P02", assumptions: []string{asmUnicode, asmGo},
		rule:  "a triple is non-trivial if at least one of its elements is invalid in its position (invalid which: in the class); a slab is one pair with every candidate in the third place",
		kinds: kinds(joinAnyKind, joinSlabKind)},
	{id: "P03", assumptions: []string{asmUnicode, asmGo},
		rule:  "a rune is non-trivial if it is a syllable, a jamo, in another Hangul block, or no code point; a range stands for its values outside Unicode",
		kinds: runeKinds(checkSplit, outSplit, classJamo)},
	{id: "P04", assumptions: []string{asmUnicode, asmGo},
		rule:  "a word is non-trivial if it is not empty",
		kinds: kinds(wordKind)},
	{id: "P05", assumptions: []string{asmUnicode, asmGo},
		rule:  "a case is non-trivial if the word is not empty and the two postpositions differ",
		kinds: kinds(postKind)},
	{id: "P06", assumptions: []string{asmUnicode, asmGo},
		rule:  "a rune is non-trivial if it is a syllable, a jamo, in another Hangul block, or no code point; a range stands for its values outside Unicode",
		kinds: runeKinds(checkConv, outConv, classJamo)},
	{id: "P07", assumptions: []string{asmUnicode, asmGo},
		rule:  "a rune is non-trivial if it is a syllable, a jamo, in another Hangul block, or no code point; a range stands for its values outside Unicode",
		kinds: runeKinds(checkClass, outClass, classJamo)},
	{id: "P08", assumptions: []string{asmUnicode, asmGo, "the 27 decompositions written out in model.go are right; the 16 consonants are confirmed by their Unicode names"},
		rule:  "a rune is non-trivial if it is a syllable, a jamo, in another Hangul block, or no code point; a range stands for its values outside Unicode",
		kinds: runeKinds(checkMulti, outMulti, classJamo)},
	{id: "P09", assumptions: []string{asmUnicode, asmGo, "the stroke counts of the 24 basic letters in the statement are the specification"},
		rule:  "a rune is non-trivial if it is a syllable, a jamo, in another Hangul block, or no code point; a range stands for its values outside Unicode",
		kinds: runeKinds(checkStroke, outStroke, classJamo)},
	{id: "P10", assumptions: []string{asmCp949, asmGo},
		rule:  "an input is non-trivial if it has a byte from 0x80 up",
		kinds: kinds(fromKinds)},
	{id: "P11", assumptions: []string{asmCp949, asmGo},
		rule:  "an input is non-trivial if it has a byte from 0x80 up",
		kinds: kinds(toKinds)},
	{id: "P12", assumptions: []string{asmCp949, asmIO, asmGo},
		rule:  "a round trip is non-trivial if it has a character outside ASCII",
		kinds: kinds(roundKind)},
	{id: "P13", assumptions: []string{asmCp949, asmIO, asmGo},
		rule:  "a stream is non-trivial if a chunk of its source ends inside a character or the whole is truncated (over sources of the standard library: if it has a byte from 0x80 up; long ones: all)",
		kinds: kinds(readerKind, readTypedKind, longReaderKind)},
	{id: "P14", assumptions: []string{asmCp949, asmIO, asmGo},
		rule:  "a stream is non-trivial if a cut is inside a character or the whole ends inside one (to sinks of the standard library: if it has a byte from 0x80 up; long ones: all)",
		kinds: kinds(writerKind, writeTypedKind, longWriterKind)},
	{id: "P15", assumptions: []string{asmCp949, asmIO, asmGo},
		rule:  "a case is non-trivial if it has a byte from 0x80 up; all long streams",
		kinds: kinds(xKind, longXReaderKind, longXWriterKind)},
	{id: "P16", assumptions: []string{asmCp949, asmIO, asmGo},
		rule:  "a stream is non-trivial if a fault is injected into it (reader: and there is data), or a piece ends inside a character",
		kinds: kinds(readerFailKind, writerFailKind)},
	{id: "P17", assumptions: []string{asmCp949, asmUnicode, asmHanja, asmGo},
		rule:  "a history is non-trivial if it has at least two operations",
		kinds: kinds(historyKind, sharedSinkKind)},
	{id: "P18", assumptions: []string{asmHanja, asmGo},
		rule:  "a text is non-trivial if it has hanja and at least one thing more; a row puts one hanja beside up to 4096 characters",
		kinds: kinds(concatKind, rowKind)},
	{id: "P19", assumptions: []string{asmHanja, asmGo},
		rule:  "a rune is non-trivial if it is hanja, in another block of East Asian characters, or no code point; a range stands for its values outside Unicode",
		kinds: runeKinds(checkReading, outHanja, hanjaClass)},
	{id: "P20", exhaustive: true, assumptions: []string{asmUnicode, asmGo},
		rule:  "every constant, and every syllable spelled with the conjoining ones; all are non-trivial",
		kinds: kinds(constKind, spellKind)},
	{id: "P21", assumptions: []string{asmCp949, asmIO, asmGo, "returning within 30 CPU seconds and 2500 MB on inputs of up to some MB stands for returning"},
		rule:  "an input is non-trivial if it has a byte from 0x80 up; a rune as in P03; every source which falls silent",
		kinds: kinds(anythingKind, stallKind, anyRuneKinds)},
	{id: "P22", assumptions: []string{asmCp949, asmUnicode, asmHanja, asmGo, "the schedules the Go scheduler makes on 1 to 8 processors; the detector reports a race in any schedule of accesses not ordered by synchronization"},
		rule:  "a case is non-trivial if at least two goroutines do something",
		kinds: kinds(concKind)},
	{id: "P23", assumptions: []string{asmCp949, asmIO, asmGo},
		rule:  "a stream is non-trivial if a piece ends inside a character, or its source fails",
		kinds: kinds(readerPromptKind, writerPromptKind)},
	{id: "P24", assumptions: []string{asmIO, asmGo, "what runtime.ReadMemStats reports in use after three garbage collections is what is held"},
		rule:  "every case is non-trivial: a stream of some MB, or thousands of calls with distinct arguments",
		kinds: kinds(flowKind, manyKind)},
	{id: "P25", assumptions: []string{asmIO, asmGo, "five times more than proportional, thrice in a row, is growth; the CPU time of this process, the least of three runs, is the time taken"},
		rule:  "every case is non-trivial: some KB and sixteen times as many, or thousands of calls",
		kinds: kinds(costKind, paceKind)},
}
