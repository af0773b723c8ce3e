package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
)

// ---- long streams, for positions and counters that wrap around

// long is one unit over and over through a reader or writer, Total bytes in all.
type long struct {
	X     bool  `json:"x"` // the reader or writer is the one of x/text
	Unit  B     `json:"unit"`
	Total int64 `json:"total"`
	Cut   int   `json:"cut"` // size of the source's pieces, or of the writes
	Buf   int   `json:"buf"` // size of the reads
}

// ring yields or expects unit over and over.
type ring struct {
	unit []byte
	all  []byte // many units
	pos  int64
}

func newRing(unit []byte, n int) *ring {
	return &ring{unit: unit, all: bytes.Repeat(unit, n/len(unit)+2)}
}

func (r *ring) next(n int) []byte {
	i := int(r.pos % int64(len(r.unit)))
	r.pos += int64(n)
	return r.all[i : i+n]
}

type longSource struct {
	*ring
	left int64
	cut  int
}

func (s *longSource) Read(p []byte) (int, error) {
	if s.left == 0 {
		return 0, io.EOF
	}
	curSeq.Add(1) // for the watchdog: it gets on
	n := int(min(int64(len(p)), int64(s.cut), s.left))
	s.left -= int64(n)
	return copy(p, s.next(n)), nil
}

// longSink compares what it gets.
type longSink struct {
	*ring
	want int
}

func (s *longSink) Write(p []byte) (int, error) {
	for q := p; len(q) > 0; {
		n := min(len(q), s.want)
		at := s.pos
		if w := s.next(n); !bytes.Equal(w, q[:n]) {
			return 0, fmt.Errorf("from byte %d of the output on: %s", at, diff(q[:n], w))
		}
		q = q[n:]
	}
	return len(p), nil
}

func (c long) sink(unit []byte) *longSink {
	n := max(c.Cut, c.Buf) * 3
	return &longSink{newRing(unit, n), n}
}

func checkLongReader(c long) error {
	want, rest := mDecode(c.Unit)
	if rest != 0 || len(c.Unit) == 0 || c.Total%int64(len(c.Unit)) != 0 {
		return nil
	}
	k := c.sink(want)
	r, err := newReader(c.X, &longSource{newRing(c.Unit, c.Cut), c.Total, c.Cut})
	if err != nil {
		return err
	}
	buf := make([]byte, c.Buf)
	empty := 0
	for {
		n, err := r.Read(buf)
		if n < 0 || n > len(buf) {
			return fmt.Errorf("Read returned %d with a buffer of %d", n, len(buf))
		}
		if _, e := k.Write(buf[:n]); e != nil {
			return e
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			return fmt.Errorf("after %d bytes of output: %v", k.pos, err)
		}
		if empty++; n > 0 {
			empty = 0
		} else if empty > 1000 {
			return fmt.Errorf("after %d bytes of output: no progress", k.pos)
		}
	}
	if all := c.Total / int64(len(c.Unit)) * int64(len(want)); k.pos != all {
		return fmt.Errorf("%d bytes of output, want %d", k.pos, all)
	}
	return nil
}

func checkLongWriter(c long) error {
	if len(c.Unit) == 0 || c.Total%int64(len(c.Unit)) != 0 {
		return nil
	}
	want := mEncode(c.Unit)
	k := c.sink(want)
	w, end, err := newWriter(c.X, k)
	if err != nil {
		return err
	}
	src := newRing(c.Unit, c.Cut)
	for left := c.Total; left > 0; {
		curSeq.Add(1)
		p := src.next(int(min(int64(c.Cut), left)))
		n, err := w.Write(p)
		if err != nil {
			return err
		}
		if n != len(p) {
			return fmt.Errorf("after %d bytes of output: Write returned %d for %d bytes", k.pos, n, len(p))
		}
		left -= int64(n)
	}
	if err := end(); err != nil {
		return err
	}
	if all := c.Total / int64(len(c.Unit)) * int64(len(want)); k.pos != all {
		return errors.New(strconv.FormatInt(k.pos, 10) + " bytes of output, want " + strconv.FormatInt(all, 10))
	}
	return nil
}

// longKind is the kind for readers or writers, of x/text or not.
func longKind(name string, x bool, units []string, check func(long) error) *kind {
	return K[long]{
		Name:  name,
		Check: check,
		Class: func(c long) (string, bool) {
			l := "beyond 2^16"
			for _, b := range []int{24, 31, 32} {
				if c.Total > 1<<b {
					l = fmt.Sprint("beyond 2^", b)
				}
			}
			return l, true
		},
		Enum: func(tier string, do func(long)) {
			add := func(u string, total int64, cut, buf int) {
				total /= int64(slowness())
				do(long{x, B(u), (max(total, 1<<17)/int64(len(u)) + 3) * int64(len(u)), cut, buf})
			}
			huge := int64(0)
			if tier == "thorough" {
				huge = 1 << 32
			} else if strconv.IntSize == 32 {
				huge = 1 << 31 // where an int wraps around
			}
			if huge > 0 {
				add(units[0], huge, 60000, 50000)
				if tier == "thorough" {
					add(units[1], 1<<31, 60000, 50000)
					add(units[0], 1<<31, 4096, 512)
				}
			}
			for i, u := range units {
				add(u, 1<<24, 50000, 65536)
				if i < 2 || tier == "thorough" {
					add(u, 1<<24, 4096, 512)
				}
				add(u, 1<<18, 1, 1)
				add(u, 1<<18, 3, 7)
				add(u, 1<<20, 1000, 5)
			}
		},
	}.kind()
}

var (
	longCp = []string{"0123456789\n", "\xb0\xa1a\xc8\xfe\x81\x41", "\xb0\xff\xb0\xa2\xb0\xa3z", "\xb0\xa1\xb0\xa2\xb0\xa3\xb0\xa4"}
	longTx = []string{"0123456789\n", "가a漢é힝", "\xff가\U0001F600\xea\xb0나", "國漢字"}

	longReaderKind  = longKind("longreader", false, longCp, checkLongReader)
	longWriterKind  = longKind("longwriter", false, longTx, checkLongWriter)
	longXReaderKind = longKind("longxreader", true, longCp, checkLongReader)
	longXWriterKind = longKind("longxwriter", true, longTx, checkLongWriter)
)
