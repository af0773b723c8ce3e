From 4a14494b8bb82c30aef8eed625fee5ca5be62e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:27 +0000
Subject: [PATCH 01/11] fix: Join reports an invalid tail instead of dropping
 it

Tail() maps anything that is not a tail to 0, which tailIdx() accepts as
"no tail", so Join(G, A, DD) or Join(G, A, 'x') returned U+AC00.
---
 hangul.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hangul.go b/hangul.go
index 1f5c089..fa5a1c4 100644
--- a/hangul.go
+++ b/hangul.go
@@ -37,8 +37,9 @@ func Join(l, m, t rune) rune {
 		return rune(0xFFFD)
 	}
 
-	ti, ok := tailIdx(Tail(t))
-	if !ok {
+	tt := Tail(t)
+	ti, ok := tailIdx(tt)
+	if !ok || (tt == 0 && t != 0) {
 		return rune(0xFFFD)
 	}
 
-- 
2.43.0


From 62d7f2b8efe17fc60f8c9894ce795d92eb50123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:27 +0000
Subject: [PATCH 02/11] fix: Split returns no elements for a rune that is not a
 syllable

The arithmetic produced arbitrary runes outside U+AC00..U+D7A3, so
LastConsonant, EndsWithConsonant and AppendPostposition treated words
ending in Latin letters, digits or jamo as ending in a consonant.
---
 hangul.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hangul.go b/hangul.go
index fa5a1c4..68f2cb3 100644
--- a/hangul.go
+++ b/hangul.go
@@ -46,8 +46,13 @@ func Join(l, m, t rune) rune {
 	return rune(0xAC00 + (li*21+mi)*28 + ti)
 }
 
-// Split converts NFC to NFD
+// Split converts NFC to NFD.
+// It returns zeros if the given rune is not a Hangul syllable.
 func Split(c rune) (l, m, t rune) {
+	if c < 0xAC00 || 0xD7A3 < c {
+		return 0, 0, 0
+	}
+
 	t = (c - 0xAC00) % 28
 	m = ((c - 0xAC00 - t) % 588) / 28
 	l = (c - 0xAC00) / 588
-- 
2.43.0


From a9019e8a6f77669bcd1cb6d414d06c151d84c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:27 +0000
Subject: [PATCH 03/11] fix: split WE into its basic elements

E is a multi-element itself and has no stroke count of its own, so
Stroke(WE) (and every syllable with it) was counted 3 strokes short.
---
 jamo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 0f56d37..3406de6 100644
--- a/jamo.go
+++ b/jamo.go
@@ -77,7 +77,7 @@ var multiElements = map[rune][]rune{
 	WAE: []rune{O, A, I},
 	OE:  []rune{O, I},
 	WEO: []rune{U, EO},
-	WE:  []rune{U, E},
+	WE:  []rune{U, EO, I},
 	WI:  []rune{U, I},
 	YI:  []rune{EU, I},
 }
-- 
2.43.0


From f87b28105c0fea0109f7cfeb02dc98c2bf4d2893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:27 +0000
Subject: [PATCH 04/11] fix: SplitMultiElement does not hand out its internal
 table

A caller changing the returned slice changed every later result of
SplitMultiElement and Stroke.
---
 jamo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 3406de6..bda57e9 100644
--- a/jamo.go
+++ b/jamo.go
@@ -86,7 +86,8 @@ var multiElements = map[rune][]rune{
 func SplitMultiElement(r rune) ([]rune, bool) {
 	r = CompatJamo(r)
 	es, ok := multiElements[r]
-	return es, ok
+	// Copy, so that the caller can not change the table.
+	return append([]rune(nil), es...), ok
 }
 
 var toCompatJamo = map[rune]rune{
-- 
2.43.0


From 2bc69954773864c872df8c15f7fe88488974f7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:27 +0000
Subject: [PATCH 05/11] fix: encode an unmappable rune to a single '?'

Runes above the last table entry (U+FFE6), and so U+FFFD and every invalid
UTF-8 byte, came out as "??".
---
 encoding/cp949/cp949.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index e4793c8..2f378d4 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -89,10 +89,6 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			return false
 		})
 
-		if fi >= len(p.table) {
-			p.scratch = append(p.scratch, '?')
-		}
-
 		if fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
 			f := p.table[fi]
 			p.scratch = append(p.scratch,
-- 
2.43.0


From ab0781a5f6257ca4ae1da9a655d12b4e4284e741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:27 +0000
Subject: [PATCH 06/11] fix: do not encode runes outside the BMP as unrelated
 characters

The rune was truncated to 16 bits before the lookup, so U+1AC00 was
encoded as U+AC00.
---
 encoding/cp949/cp949.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index 2f378d4..fdcee7d 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -89,7 +89,7 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			return false
 		})
 
-		if fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
+		if fi < len(p.table) && r == rune(p.table[fi].ucs2) {
 			f := p.table[fi]
 			p.scratch = append(p.scratch,
 				byte(f.cp949>>8), byte(f.cp949&0xff))
-- 
2.43.0


From 9cb127ec703fb1c115b49feb75f2653dd709b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 07/11] fix: reader keeps the text before a truncated last
 character

When the source ended in the middle of a character, everything buffered
so far was dropped and the stream ended with a plain io.EOF. Now the
complete characters are delivered and the truncation is reported as
ErrCP949UnexpectedStream, as From does. It also lets the reader deliver
complete characters without waiting for the rest of a split one.
---
 encoding/cp949/cp949.go  | 2 +-
 encoding/cp949/public.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index fdcee7d..d9da35e 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -43,7 +43,7 @@ func (p *translateFromCp949) Translate(data []byte) (int, []byte, error) {
 		}
 
 		if len(data) < 2 {
-			return 0, nil, ErrCP949UnexpectedStream
+			return c, p.scratch, ErrCP949UnexpectedStream
 		}
 
 		n := uint16(data[0])<<8 | uint16(data[1])
diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index c1b213d..a48a1d2 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -76,15 +76,15 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 			break
 		}
 		nc, cdata, cvterr := r.tr.Translate(r.rdata)
-		if cvterr != nil {
-			// TODO
-		}
 		r.cdata = cdata
 
 		// Ensure that we consume all bytes at eof
 		// if the converter refuses them.
 		if nc == 0 && r.err != nil {
 			nc = len(r.rdata)
+			if cvterr != nil && r.err == io.EOF {
+				r.err = cvterr
+			}
 		}
 
 		// Copy unconsumed data to the start of the rdata buffer.
-- 
2.43.0


From 8b20dee4e95729ea974ab237bb199f6b24bb5a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 08/11] fix: a zero-length Read does not end the cp949 stream

It asked the source for zero bytes, got (0, nil), and took that for EOF.
---
 encoding/cp949/public.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index a48a1d2..245328d 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -57,6 +57,9 @@ func NewReader(r io.Reader) (io.Reader, error) {
 }
 
 func (r *cp949Reader) Read(buf []byte) (int, error) {
+	if len(buf) == 0 {
+		return 0, nil
+	}
 	for {
 		if len(r.cdata) > 0 {
 			n := copy(buf, r.cdata)
-- 
2.43.0


From 20a0f6dc2b8bb0e257cd7cfcc313d4a49d3cd2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 09/11] fix: an empty read from the source is not the end of
 the stream

io.Reader allows (0, nil), which means that nothing happened. The cp949
reader turned it into io.EOF and silently lost the rest of the stream.
---
 encoding/cp949/public.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index 245328d..5f2d96f 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -38,6 +38,9 @@ func To(in []byte) ([]byte, error) {
 	return out, nil
 }
 
+// number of consecutive empty reads after which the reader gives up.
+const maxEmptyReads = 100
+
 type cp949Reader struct {
 	r     io.Reader
 	tr    translator
@@ -69,9 +72,14 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 		if r.err == nil {
 			r.rdata = ensureCap(r.rdata, len(r.rdata)+len(buf))
 			n, err := r.r.Read(r.rdata[len(r.rdata):cap(r.rdata)])
-			// Guard against non-compliant Readers.
-			if n == 0 && err == nil {
-				err = io.EOF
+			// A Reader may return nothing now and then, but
+			// guard against Readers which never make progress.
+			for i := 1; n == 0 && err == nil; i++ {
+				if i == maxEmptyReads {
+					err = io.ErrNoProgress
+					break
+				}
+				n, err = r.r.Read(r.rdata[len(r.rdata):cap(r.rdata)])
 			}
 			r.rdata = r.rdata[0 : len(r.rdata)+n]
 			r.err = err
-- 
2.43.0


From 1214d3c55356b5521af58f51cc935385a67d98f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:57 +0000
Subject: [PATCH 10/11] fix: writer keeps characters split across Write calls
 together

Each part of a character split between two writes was encoded as '?'.
The writer already had a buffer for unconsumed data, but the translator
never left any.
---
 encoding/cp949/cp949.go  | 14 ++++++++++++++
 encoding/cp949/public.go |  7 +++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index d9da35e..727bcee 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -103,6 +103,20 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 	return c, p.scratch, nil
 }
 
+// completeRunes returns the length of data without the incomplete
+// utf-8 sequence at its end, if there is one.
+func completeRunes(data []byte) int {
+	for i := len(data) - 1; i >= 0 && i > len(data)-utf8.UTFMax; i-- {
+		if utf8.RuneStart(data[i]) {
+			if !utf8.FullRune(data[i:]) {
+				return i
+			}
+			break
+		}
+	}
+	return len(data)
+}
+
 func fromCp949() (translator, error) {
 	return &translateFromCp949{table: fromTable}, nil
 }
diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index 5f2d96f..5ef1456 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -122,17 +122,20 @@ func NewWriter(w io.Writer) (io.Writer, error) {
 
 func (w *cp949Writer) Write(data []byte) (int, error) {
 	wdata := data
-	if len(w.buf) > 0 {
+	held := len(w.buf)
+	if held > 0 {
 		w.buf = append(w.buf, data...)
 		wdata = w.buf
 	}
-	n, cdata, err := w.tr.Translate(wdata)
+	// Hold back a last character which is not complete yet.
+	n, cdata, err := w.tr.Translate(wdata[:completeRunes(wdata)])
 	if err != nil {
 		// TODO
 	}
 	if n > 0 {
 		_, err = w.w.Write(cdata)
 		if err != nil {
+			w.buf = w.buf[:held]
 			return 0, err
 		}
 	}
-- 
2.43.0


From e6ddea89d829062585ccc24ed588dd9dc077c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:18 +0000
Subject: [PATCH 11/11] fix: decoder and encoder follow the Transformer
 contract

They converted all of src at once and reported more bytes than dst holds,
so converting anything larger than the 4096 byte buffers of x/text
panicked or lost data, and characters split at a buffer boundary failed
(decoding) or became '?' (encoding).
---
 encoding/cp949/encoding.go | 60 ++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/encoding/cp949/encoding.go b/encoding/cp949/encoding.go
index dcf33a0..f510471 100644
--- a/encoding/cp949/encoding.go
+++ b/encoding/cp949/encoding.go
@@ -1,7 +1,10 @@
 package cp949
 
 import (
+	"unicode/utf8"
+
 	"golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 // CP949Encoding provides the Encoding interface for CP949 encoding.
@@ -26,30 +29,55 @@ type cp949Decoder struct{}
 
 // Transform converts data from CP949 to UTF-8.
 func (d *cp949Decoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the From function to convert CP949 to UTF-8.
-	converted, err := From(src)
-	if err != nil {
-		return 0, 0, err
-	}
+	for nSrc < len(src) {
+		size := 1
+		if src[nSrc]&0x80 != 0 && nSrc+1 < len(src) {
+			size = 2
+		}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+		// Use the From function to convert CP949 to UTF-8.
+		converted, err := From(src[nSrc : nSrc+size])
+		if err == ErrCP949UnexpectedStream && !atEOF {
+			return nDst, nSrc, transform.ErrShortSrc
+		}
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if len(dst)-nDst < len(converted) {
+			return nDst, nSrc, transform.ErrShortDst
+		}
+
+		// Copy the converted data to dst.
+		nDst += copy(dst[nDst:], converted)
+		nSrc += size
+	}
+	return nDst, nSrc, nil
 }
 
 type cp949Encoder struct{}
 
 // Transform converts data from UTF-8 to CP949.
 func (e *cp949Encoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the To function to convert UTF-8 to CP949.
-	converted, err := To(src)
-	if err != nil {
-		return 0, 0, err
-	}
+	for nSrc < len(src) {
+		if !atEOF && !utf8.FullRune(src[nSrc:]) {
+			return nDst, nSrc, transform.ErrShortSrc
+		}
+		_, size := utf8.DecodeRune(src[nSrc:])
+
+		// Use the To function to convert UTF-8 to CP949.
+		converted, err := To(src[nSrc : nSrc+size])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if len(dst)-nDst < len(converted) {
+			return nDst, nSrc, transform.ErrShortDst
+		}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+		// Copy the converted data to dst.
+		nDst += copy(dst[nDst:], converted)
+		nSrc += size
+	}
+	return nDst, nSrc, nil
 }
 
 // Reset resets the state of the Transformer.
-- 
2.43.0

