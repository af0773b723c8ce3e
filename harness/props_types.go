package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"testing/iotest"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"pgregory.net/rapid"
)

// ---- streams over the sources, sinks and callers of the standard library.  Code may
// take shortcuts by the type of what it is given, or offer methods (WriteTo, ReadFrom,
// WriteString, ...) which io.Copy and others then use; the result must be the same.

const (
	srcBytes = iota
	srcBuffer
	srcString
	srcBufio
	srcLimited
	srcSection
	srcOneByte
	srcDataErr
	srcMulti
	srcPipe
	srcNested // another cp949 reader
	srcFile
	nSrcs
)

const (
	viaRead = iota
	viaReadAll
	viaCopy        // to a plain io.Writer
	viaCopyBuffer  // to a bytes.Buffer
	viaBufioRunes  // bufio.Reader
	viaScanner     // bufio.Scanner by lines
	viaReadFull    // io.ReadFull in pieces
	viaReadAndCopy // some by Read, the rest by io.Copy
	nVias
)

type readTyped struct {
	In   Segs  `json:"in"`
	Src  int   `json:"src"`
	Via  int   `json:"via"`
	Cuts []int `json:"cuts"`
	Bufs []int `json:"bufs"`
}

type plainWriter struct{ b *bytes.Buffer }

func (p plainWriter) Write(b []byte) (int, error) { return p.b.Write(b) }

type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

func tempFile(b []byte) *os.File {
	f, err := os.CreateTemp("", "stream")
	if err != nil {
		panic(harnessError(err.Error()))
	}
	os.Remove(f.Name())
	if _, err := f.Write(b); err != nil {
		panic(harnessError(err.Error()))
	}
	if _, err := f.Seek(0, io.SeekStart); err != nil {
		panic(harnessError(err.Error()))
	}
	return f
}

func checkReadTyped(c readTyped) error {
	in := c.In.bytes()
	want, rest := mDecode(in)
	var src io.Reader
	switch c.Src {
	case srcBytes:
		src = bytes.NewReader(in)
	case srcBuffer:
		src = bytes.NewBuffer(append([]byte(nil), in...))
	case srcString:
		src = strings.NewReader(string(in))
	case srcBufio:
		src = bufio.NewReaderSize(&source{data: in, chunks: noZero(c.Cuts)}, 16)
	case srcLimited:
		src = io.LimitReader(bytes.NewReader(append(append([]byte(nil), in...), "\xb0\xa1\xb0\xa1"...)), int64(len(in)))
	case srcSection:
		src = io.NewSectionReader(bytes.NewReader(append(append([]byte("\xb0"), in...), "\xb0\xa1\xb0\xa1"...)), 1, int64(len(in)))
	case srcOneByte:
		src = iotest.OneByteReader(bytes.NewReader(in))
	case srcDataErr:
		src = iotest.DataErrReader(bytes.NewReader(in))
	case srcMulti:
		var l []io.Reader
		for i, b := 0, in; len(b) > 0; i++ {
			n := min(len(b), max(1, at(c.Cuts, i), len(in)/40))
			l = append(l, bytes.NewReader(b[:n]))
			b = b[n:]
		}
		src = io.MultiReader(l...)
	case srcPipe:
		pr, pw := io.Pipe()
		go func() {
			for i, b := 0, in; len(b) > 0; i++ {
				n := min(len(b), max(1, at(c.Cuts, i), len(in)/40))
				if _, err := pw.Write(b[:n]); err != nil {
					return
				}
				b = b[n:]
			}
			pw.Close()
		}()
		defer pr.Close()
		src = pr
	case srcNested:
		if rest > 0 {
			return nil
		}
		r, err := cp949.NewReader(bytes.NewReader(in))
		if err != nil {
			return err
		}
		src = r
		want, rest = mDecode(want)
	case srcFile:
		f := tempFile(in)
		defer f.Close()
		src = f
	}
	r, err := cp949.NewReader(src)
	if err != nil {
		return err
	}
	var got []byte
	switch c.Via {
	case viaRead:
		got, err = readAll(r, c.Bufs, 3*len(in)+len(want)+1000)
	case viaReadAll:
		got, err = io.ReadAll(r)
	case viaCopy:
		var b bytes.Buffer
		_, err = io.Copy(plainWriter{&b}, r)
		got = b.Bytes()
	case viaCopyBuffer:
		var b bytes.Buffer
		_, err = io.Copy(&b, r)
		got = b.Bytes()
	case viaBufioRunes:
		br := bufio.NewReaderSize(r, 16+at(c.Bufs, 0))
		for {
			var x rune
			if x, _, err = br.ReadRune(); err != nil {
				break
			}
			got = append(got, string(x)...)
		}
	case viaScanner:
		s := bufio.NewScanner(r)
		s.Buffer(nil, 1<<24)
		s.Split(bufio.ScanRunes)
		for s.Scan() {
			got = append(got, s.Bytes()...)
		}
		err = s.Err()
	case viaReadFull:
		for i := 0; err == nil; i++ {
			b := make([]byte, max(1, at(c.Bufs, i)))
			var n int
			n, err = io.ReadFull(r, b)
			got = append(got, b[:n]...)
		}
		if err == io.ErrUnexpectedEOF {
			err = io.EOF
		}
	case viaReadAndCopy:
		var b bytes.Buffer
		p := make([]byte, max(1, at(c.Bufs, 0)))
		var n int
		if n, err = r.Read(p); n < 0 || n > len(p) {
			return fmt.Errorf("Read of %d bytes returned %d", len(p), n)
		}
		b.Write(p[:n])
		if err == nil {
			_, err = io.Copy(&b, r)
		}
		got = b.Bytes()
	}
	if err == io.EOF {
		err = nil
	}
	if !bytes.Equal(got, want) {
		return fmt.Errorf("source type %d, read by way %d, ending with %v: %s", c.Src, c.Via, err, diff(got, want))
	}
	// (ReadFull may replace the error of a short read only by io.ErrUnexpectedEOF for EOF)
	if rest > 0 && !errors.Is(err, cp949.ErrCP949UnexpectedStream) {
		return fmt.Errorf("source type %d, read by way %d: error %v; want ErrCP949UnexpectedStream", c.Src, c.Via, err)
	}
	if rest == 0 && err != nil {
		return fmt.Errorf("source type %d, read by way %d: %v", c.Src, c.Via, err)
	}
	return nil
}

var readTypedKind = K[readTyped]{
	Name:  "readertypes",
	Check: checkReadTyped,
	Class: func(c readTyped) (string, bool) {
		_, nt := cpClass(c.In.bytes())
		return fmt.Sprintf("source type %d, read by way %d", c.Src, c.Via), nt
	},
	Enum: func(tier string, do func(readTyped)) {
		for s := 0; s < nSrcs; s++ {
			for v := 0; v < nVias; v++ {
				for i, u := range []string{"", "a", "\xb0\xa1", "\xb0", "a\xb0\xa1z", "\xb0\xa1\xff\xff\xc8\xfe", "\xb0\xa1\xb0"} {
					do(readTyped{seg([]byte(u)), s, v, []int{1, 2}, []int{1 + i}})
				}
				for _, n := range []int{170, 171, 255, 511, 512, 513, 1023, 1365, 2047, 2048, 4095, 4096, 8191, 11000, 16384, 22000, 33000} {
					do(readTyped{Segs{{U: B("x"), N: n % 3}, {U: B("\xb0\xa1"), N: n}, {U: B("\xb0"), N: n % 2}}, s, v, []int{n, 3}, []int{n + 1, 5}})
					do(readTyped{Segs{{U: B("\xb0\xa1\xa2\xae\n"), N: n / 5}, {U: B("end"), N: 1}}, s, v, []int{511}, []int{512}})
				}
			}
		}
	},
	Gen: func(t *rapid.T) readTyped {
		return readTyped{cpSegs(t, false, 9000), pick(t, srcFile), pick(t, nVias), cuts(t, false, 5000), cuts(t, false, 5000)}
	},
	NQ: 180000, NT: 7200000,
}.kind()

const (
	snkBuffer = iota
	snkBuilder
	snkBufio
	snkMulti
	snkString // has WriteString
	snkNested
	snkPipe
	snkFile
	nSnks
)

const (
	wrWrite     = iota
	wrString    // io.WriteString
	wrCopy      // io.Copy from a plain source
	wrCopyBytes // io.Copy from a bytes.Reader
	wrBufio     // through a bufio.Writer
	wrFprint
	wrMixed // pieces by Write and io.WriteString in turn
	nWrs
)

type writeTyped struct {
	In   Segs  `json:"in"`
	Snk  int   `json:"snk"`
	Via  int   `json:"via"`
	Cuts []int `json:"cuts"`
}

// stringSink also has WriteString, as many writers do.
type stringSink struct{ b bytes.Buffer }

func (s *stringSink) Write(p []byte) (int, error)       { return s.b.Write(p) }
func (s *stringSink) WriteString(p string) (int, error) { return s.b.WriteString(p) }
func (s *stringSink) WriteByte(c byte) error            { return s.b.WriteByte(c) }

func checkWriteTyped(c writeTyped) error {
	in := c.In.bytes()
	want := mEncode(in[:len(in)-mHeld(in)])
	var (
		sink   io.Writer
		result func() []byte
	)
	switch c.Snk {
	case snkBuffer:
		b := &bytes.Buffer{}
		sink, result = b, b.Bytes
	case snkBuilder:
		b := &strings.Builder{}
		sink, result = b, func() []byte { return []byte(b.String()) }
	case snkBufio:
		var b bytes.Buffer
		w := bufio.NewWriterSize(&b, 17)
		sink, result = w, func() []byte { w.Flush(); return b.Bytes() }
	case snkMulti:
		var a, b bytes.Buffer
		sink, result = io.MultiWriter(&a, &b), func() []byte {
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				return append(a.Bytes(), " / other sink "...)
			}
			return b.Bytes()
		}
	case snkString:
		b := &stringSink{}
		sink, result = b, b.b.Bytes
	case snkNested:
		var b bytes.Buffer
		w, err := cp949.NewWriter(&b)
		if err != nil {
			return err
		}
		sink, result = w, b.Bytes
		want = mEncode(want[:len(want)-mHeld(want)])
	case snkPipe:
		pr, pw := io.Pipe()
		ch := make(chan []byte)
		go func() {
			b, _ := io.ReadAll(pr)
			ch <- b
		}()
		defer pw.Close()
		sink, result = pw, func() []byte { pw.Close(); return <-ch }
	case snkFile:
		f := tempFile(nil)
		defer f.Close()
		sink, result = f, func() []byte {
			f.Seek(0, io.SeekStart)
			b, _ := io.ReadAll(f)
			return b
		}
	}
	w, err := cp949.NewWriter(sink)
	if err != nil {
		return err
	}
	pieces := func(f func(i int, p []byte) (int, error)) error {
		for i, b := 0, append([]byte(nil), in...); len(b) > 0; i++ {
			n := min(len(b), max(1, at(c.Cuts, i)))
			if m, err := f(i, b[:n]); err != nil || m != n {
				return fmt.Errorf("piece of %d bytes: %d, %v", n, m, err)
			}
			b = b[n:]
		}
		return nil
	}
	full := func(n int64, err error) error {
		if err == nil && n != int64(len(in)) {
			return fmt.Errorf("reports %d of %d bytes", n, len(in))
		}
		return err
	}
	switch c.Via {
	case wrWrite:
		err = pieces(func(_ int, p []byte) (int, error) { return w.Write(p) })
	case wrString:
		err = pieces(func(_ int, p []byte) (int, error) { return io.WriteString(w, string(p)) })
	case wrCopy:
		err = full(io.Copy(w, plainReader{&source{data: in, chunks: noZero(c.Cuts)}}))
	case wrCopyBytes:
		err = full(io.Copy(w, bytes.NewReader(in)))
	case wrBufio:
		bw := bufio.NewWriterSize(w, 16+at(c.Cuts, 0))
		err = pieces(func(_ int, p []byte) (int, error) { return bw.Write(p) })
		if err == nil {
			err = bw.Flush()
		}
	case wrFprint:
		err = pieces(func(_ int, p []byte) (int, error) { return fmt.Fprint(w, string(p)) })
	case wrMixed:
		err = pieces(func(i int, p []byte) (int, error) {
			if i%2 == 0 {
				return io.WriteString(w, string(p))
			}
			return w.Write(p)
		})
	}
	if err != nil {
		return fmt.Errorf("sink type %d, written by way %d: %v", c.Snk, c.Via, err)
	}
	if got := result(); !bytes.Equal(got, want) {
		return fmt.Errorf("sink type %d, written by way %d: %s", c.Snk, c.Via, diff(got, want))
	}
	return nil
}

var writeTypedKind = K[writeTyped]{
	Name:  "writertypes",
	Check: checkWriteTyped,
	Class: func(c writeTyped) (string, bool) {
		_, nt := txClass(c.In.bytes())
		return fmt.Sprintf("sink type %d, written by way %d", c.Snk, c.Via), nt
	},
	Enum: func(tier string, do func(writeTyped)) {
		for s := 0; s < nSnks; s++ {
			for v := 0; v < nWrs; v++ {
				for i, u := range []string{"", "a", "가", "\xea\xb0", "a가z", "가\xff힣\U0001F600", "가\xea"} {
					do(writeTyped{seg([]byte(u)), s, v, []int{1 + i}})
					do(writeTyped{seg([]byte(u)), s, v, []int{1, 2}})
				}
				for _, n := range []int{170, 171, 255, 341, 342, 511, 512, 513, 1023, 1365, 1366, 2047, 2731, 4096, 8192, 10922, 10923, 22000} {
					do(writeTyped{Segs{{U: B("x"), N: n % 3}, {U: B("가"), N: n}, {U: B("\xea"), N: n % 2}}, s, v, []int{n, 3}})
					do(writeTyped{Segs{{U: B("한a\n"), N: n / 5}, {U: B("end"), N: 1}}, s, v, []int{511}})
				}
			}
		}
	},
	Gen: func(t *rapid.T) writeTyped {
		return writeTyped{txSegs(t, false, 9000), pick(t, snkFile), pick(t, nWrs), cuts(t, false, 5000)}
	},
	NQ: 180000, NT: 7200000,
}.kind()

// ---- P17: several writers on one sink; each keeps its own incomplete character

type sharedPiece struct {
	W  int `json:"w"`
	In B   `json:"in"`
}

type sharedSink struct {
	Pieces []sharedPiece `json:"pieces"`
}

var sharedSinkKind = K[sharedSink]{
	Name: "sharedsink",
	Check: func(c sharedSink) error {
		var b bytes.Buffer
		var w [3]io.Writer
		var held [3][]byte
		var want []byte
		for i := range w {
			var err error
			if w[i], err = cp949.NewWriter(&b); err != nil {
				return err
			}
		}
		for i, p := range c.Pieces {
			k := p.W % 3
			if n, err := w[k].Write(append([]byte(nil), p.In...)); err != nil || n != len(p.In) {
				return fmt.Errorf("piece %d: Write of %d bytes = %d, %v", i, len(p.In), n, err)
			}
			all := append(held[k], p.In...)
			h := len(all) - mHeld(all)
			want = append(want, mEncode(all[:h])...)
			held[k] = append([]byte(nil), all[h:]...)
			if !bytes.Equal(b.Bytes(), want) {
				return fmt.Errorf("after piece %d: %s", i, diff(b.Bytes(), want))
			}
		}
		return nil
	},
	Class: func(c sharedSink) (string, bool) {
		m := 0
		for _, p := range c.Pieces {
			m |= 1 << (p.W % 3)
		}
		return fmt.Sprintf("writers on one sink, set %b", m), m&(m-1) != 0
	},
	Gen: func(t *rapid.T) sharedSink {
		var c sharedSink
		for i := rapid.IntRange(1, 10).Draw(t, "pieces"); i > 0; i-- {
			u := txUnit(t, false)
			if n := len(u); n > 1 && weighted(t, 1, 1) == 1 { // in two pieces, or cut off
				k := 1 + pick(t, n-1)
				w := pick(t, 3)
				c.Pieces = append(c.Pieces, sharedPiece{w, u[:k]})
				if weighted(t, 3, 1) == 0 {
					if pick(t, 2) == 1 {
						c.Pieces = append(c.Pieces, sharedPiece{pick(t, 3), B{ascii(t)}})
					}
					c.Pieces = append(c.Pieces, sharedPiece{w, u[k:]})
				}
				continue
			}
			c.Pieces = append(c.Pieces, sharedPiece{pick(t, 3), u})
		}
		return c
	},
	NQ: 180000, NT: 7200000,
}.kind()
