package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// ---- coverage-guided search : libFuzzer drives cases made from its bytes
// through the same oracles; see guided_target.go for the other end.

// raw makes a case of the bytes of a fuzzer: settings are taken from the end, so that text
// is in one piece at the front.
type raw struct{ b []byte }

func (f *raw) byte() int {
	if len(f.b) == 0 {
		return 0
	}
	x := f.b[len(f.b)-1]
	f.b = f.b[:len(f.b)-1]
	return int(x)
}

func (f *raw) n(max int) int { return f.byte() % max }

func (f *raw) bool() bool { return f.byte()&1 == 1 }

// size is small, or up to 2047.
func (f *raw) size() int {
	x := f.byte()
	if x < 0xF8 {
		return x % 64
	}
	return (x&7)<<8 | f.byte()
}

func (f *raw) sizes(zero bool) (l []int) {
	for i := f.n(6) + 1; i > 0; i-- {
		x := f.size()
		if x == 0 && !zero {
			x = 1
		}
		l = append(l, x)
	}
	if sum(l) == 0 {
		l = append(l, 1)
	}
	return
}

// text is what is left, its units perhaps repeated at one place.
func (f *raw) text() Segs {
	rep, at, n := 0, 0, 0
	if f.n(16) == 15 {
		rep, at, n = f.size(), f.byte(), 1+f.n(4)
	}
	b := append([]byte(nil), f.b...)
	f.b = nil
	if at+n > len(b) || rep == 0 {
		return seg(b)
	}
	return Segs{{U: B(b[:at]), N: 1}, {U: B(b[at : at+n]), N: rep}, {U: B(b[at+n:]), N: 1}}
}

// some of what is left
func (f *raw) part() []byte {
	n := min(f.byte()%64, len(f.b))
	b := append([]byte(nil), f.b[:n]...)
	f.b = f.b[n:]
	return b
}

func (f *raw) rune() rune {
	if f.bool() {
		b := f.part()
		r, _ := utf8.DecodeRune(b)
		return r
	}
	return rune(int32(f.byte() | f.byte()<<8 | f.byte()<<16 | f.byte()<<24))
}

// onlyCoded drops what a round trip is not stated for.
func onlyCoded(b []byte, text bool) (r []byte) {
	for len(b) > 0 {
		n := 1
		switch {
		case b[0] < 0x80:
			r = append(r, b[0])
		case text:
			var c rune
			if c, n = utf8.DecodeRune(b); encTab[c] != 0 && c >= 0x80 {
				r = append(r, b[:n]...)
			}
		case len(b) > 1:
			if decTab[int(b[0])<<8|int(b[1])] != 0 {
				r = append(r, b[:2]...)
				n = 2
			}
		}
		b = b[n:]
	}
	return
}

func (f *raw) history() (ops []op) {
	for i := f.n(12) + 1; i > 0 && len(f.b) > 0; i-- {
		o := op{Op: f.n(nOps), Slot: f.n(nSlots), N: f.size()}
		x := f.byte()
		o.X, o.Mine, o.Nest, o.Boom = x&1 > 0, x&2 > 0, x&4 > 0, x&24 == 24
		switch o.Op {
		case opRune, opMulti, opJoin:
			o.R = f.rune()
			o.N %= 399
		case opScribble:
		case opOpenR:
			o.In, o.Cuts, o.Fail = seg(f.part()), f.sizes(false), f.n(len(failures))
		case opOpenW:
			o.Fail = f.size()
		case opRead:
			if x > 0xE0 {
				o.Rep = f.size() % 64
			}
		default:
			if x&32 > 0 {
				o.Use = f.n(16)
			}
			if x > 0xF0 {
				o.R = f.rune()
			} else {
				o.In = seg(f.part())
			}
		}
		ops = append(ops, o)
	}
	return
}

// guidedKinds are the kinds of cases made from bytes, by kind.
var guidedKinds = map[string]func(f *raw) any{
	"anytriple": func(f *raw) any {
		return triple{f.rune(), f.rune(), f.rune()}
	},
	"word":         func(f *raw) any { return word{f.text()} },
	"postposition": func(f *raw) any { with, without := f.part(), f.part(); return post{f.text(), with, without} },
	"decode":       func(f *raw) any { return input{f.text()} },
	"encode":       func(f *raw) any { return input{f.text()} },
	"round": func(f *raw) any {
		c := round{EncFirst: f.bool(), Enc: f.n(nPaths), Dec: f.n(nPaths), Cuts: f.sizes(false)}
		c.In = f.text()
		for i := range c.In {
			c.In[i].U = onlyCoded(c.In[i].U, c.EncFirst)
		}
		return c
	},
	"reader": func(f *raw) any {
		return readCase{Chunks: f.sizes(true), Bufs: f.sizes(true), WithData: f.bool(), In: f.text()}
	},
	"readerfail":   func(f *raw) any { return f.failing() },
	"readerprompt": func(f *raw) any { return f.failing() },
	"writer":       func(f *raw) any { return writeCase{Cuts: f.sizes(true), In: f.text()} },
	"writerprompt": func(f *raw) any { return writeCase{Cuts: f.sizes(true), In: f.text()} },
	"writerfail": func(f *raw) any {
		c := writeCase{Cuts: f.sizes(true)}
		at := 0
		for i := f.n(4) + 1; i > 0; i-- {
			at += f.n(4)
			c.Fails = append(c.Fails, sinkFail{At: at, Err: f.n(len(failures)), Accept: max(-1, f.byte()%48-16)})
			if a := &c.Fails[len(c.Fails)-1].Accept; *a < 0 && f.bool() {
				*a = 0
			}
			at++
		}
		c.In = f.text()
		return c
	},
	"xtext": func(f *raw) any {
		c := xcase{Enc: f.bool()}
		for i := f.n(3); i > 0; i-- {
			c.Items = append(c.Items, xitem{Mode: f.n(nModes), Dst: f.sizes(true), Src: f.sizes(true), Late: f.bool(), In: seg(f.part())})
		}
		c.Items = append(c.Items, xitem{Mode: f.n(nModes), Dst: f.sizes(true), Src: f.sizes(true), Late: f.bool(), In: f.text()})
		return c
	},
	"history": func(f *raw) any { return history{f.history()} },
	"concat": func(f *raw) any {
		n := f.byte()
		b := []byte(toValid(f.text().bytes()))
		for n = min(n, len(b)); n < len(b) && !utf8.RuneStart(b[n]); n++ {
		}
		return concat{seg(b[:n]), seg(b[n:])}
	},
	"anything": func(f *raw) any {
		return anything{Bufs: f.sizes(true), Cuts: f.sizes(true), R: []rune{f.rune(), f.rune()}, P: f.part(), Q: f.part(), Fail: f.n(len(failures)), In: f.text()}
	},
}

func (f *raw) failing() readCase {
	return readCase{Chunks: f.sizes(true), Bufs: f.sizes(true), WithData: f.bool(), Fail: f.n(len(failures)), Later: f.n(len(laters)), In: f.text()}
}

// ---- the parent

type guidedStats struct {
	Execs   int64            `json:"executions"`
	Nontriv int64            `json:"nontrivial"`
	Labels  map[string]int64 `json:"classes"`
}

var guidedDone = regexp.MustCompile(`(?m)^#(\d+)\s+(?:DONE|pulse|NEW|REDUCE|RELOAD)\s+cov: (\d+) ft: (\d+) corp: (\d+)`)

func guidable(p *prop) (ks []*kind) {
	for _, k := range p.kinds {
		if guidedKinds[k.name] != nil {
			ks = append(ks, k)
		}
	}
	return
}

// guided runs the fuzzer at path on a property and adds to its evidence.
func guided(id, path string, secs int) int {
	defer harnessExit()
	start := time.Now()
	p := findProp(id)
	ks := guidable(p)
	if len(ks) == 0 {
		return 0
	}
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	seed := uint64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	verif := os.Getenv("VERIF_DIR")
	tmp, err := os.MkdirTemp("", "verif-guided")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	loadDict()
	words := filepath.Join(tmp, "dict")
	if err := os.WriteFile(words, guidedWords(), 0o644); err != nil {
		die("%v", err)
	}
	const procs = 8
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	var wg sync.WaitGroup
	var (
		mu    sync.Mutex
		vs    []*violation
		errs  []string
		total = map[string]any{}
		execs int64
	)
	for i := 0; i < procs; i++ {
		k := ks[i%len(ks)]
		corpus := filepath.Join(tmp, "corpus-"+k.name)
		if i < len(ks) {
			os.MkdirAll(corpus, 0o755)
			for j, s := range guidedSeeds() {
				os.WriteFile(filepath.Join(corpus, fmt.Sprint("seed", j)), []byte(s), 0o644)
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprint("p", i))
			cmd := exec.CommandContext(ctx, path, fmt.Sprintf("-seed=%d", mix(seed, uint64(i))%1e9+1), fmt.Sprintf("-max_total_time=%d", secs), "-use_value_profile=1", "-max_len=300",
				"-timeout=0", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-print_final_stats=0", "-dict="+words, "-reload=10", "-artifact_prefix="+out+".",
				"-handle_segv=0", "-handle_bus=0", "-handle_abrt=0", "-handle_ill=0", "-handle_fpe=0", "-handle_int=0", "-handle_term=0", "-handle_xfsz=0", "-handle_usr1=0", "-handle_usr2=0", corpus)
			cmd.Env = append(os.Environ(), "VERIF_GUIDED="+id+" "+k.name+" "+out, "GOMAXPROCS=2")
			var stderr bytes.Buffer
			cmd.Stdout, cmd.Stderr = &stderr, &stderr
			err := cmd.Run()
			mu.Lock()
			defer mu.Unlock()
			stopped := ctx.Err() != nil
			var st guidedStats
			if js, e := os.ReadFile(out + ".stats"); e == nil {
				json.Unmarshal(js, &st)
			}
			execs += st.Execs
			one := map[string]any{"kind": k.name, "executions": st.Execs, "nontrivial": st.Nontriv, "classes": st.Labels}
			if m := guidedDone.FindAllStringSubmatch(stderr.String(), -1); m != nil {
				l := m[len(m)-1]
				one["coverage_points"], one["features"], one["corpus"] = l[2], l[3], l[4]
			}
			total[fmt.Sprintf("process_%d", i)] = one
			code := cmd.ProcessState.ExitCode()
			var v violation
			if js, e := os.ReadFile(out + ".dump"); e == nil && json.Unmarshal(js, &v) == nil && len(v.Case) > 0 {
				v.Property, v.Tier, v.Seed, v.Needs = id, tier, seed, "case"
				vs = append(vs, &v)
				stop() // one is enough
				return
			}
			if err == nil || stopped {
				return
			}
			// a crash: the input under way is in a file
			se := stderr.String()
			last, e := os.ReadFile(out + ".last")
			if (strings.Contains(se, "fatal error: ") || strings.Contains(se, "SIGSEGV")) && !strings.Contains(se, "harness error") && !strings.Contains(se, "out of memory") && e == nil && len(last) >= 8 {
				n := binary.LittleEndian.Uint64(last)
				js, _ := json.Marshal(guidedKinds[k.name](&raw{last[8 : 8+n]}))
				vs = append(vs, &violation{Property: id, Kind: k.name, How: "crash", Msg: short([]byte(se), 6000), Case: js, Tier: tier, Seed: seed, Needs: "case"})
				return
			}
			errs = append(errs, fmt.Sprintf("fuzzer of %s ended with code %d: %s", k.name, code, short([]byte(se[max(0, len(se)-3000):]), 3000)))
		}()
	}
	wg.Wait()
	for _, v := range vs {
		f := save(filepath.Join(verif, "replays"), v)
		if !replayFresh(f, 3) {
			// what came before it had a part in it; time and memory alone decide nothing
			if v.How == "fuzz" && p.id == "P17" {
				v.Msg += "\n(in a process which had run other cases before)"
			} else {
				os.Remove(f)
				errs = append(errs, "not confirmed in a fresh process: "+v.Kind+" "+v.How+": "+v.Msg+" "+short(v.Case, 1000))
				continue
			}
		} else {
			f = shrinkFresh(p, v, f, filepath.Join(verif, "replays"), tmp)
		}
		fmt.Printf("property %s violated, kind %s (found by coverage-guided search)\n%s\ncase: %s\n", id, v.Kind, short([]byte(v.Msg), 4000), short(v.Case, 4000))
		fmt.Printf("replay with: bash /verif/run.sh replay %s\n", f)
		guidedEvidence(verif, id, map[string]any{"executions": execs, "processes": total}, len(vs), start)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		return 1
	}
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "error:", e)
	}
	if len(errs) > 0 && tier == "thorough" {
		return 2
	}
	guidedEvidence(verif, id, map[string]any{"engine": "libFuzzer with value profiles over the Go code's own instrumentation", "executions": execs, "processes": total, "incomplete_by_errors": len(errs)}, 0, start)
	fmt.Printf("OK property=%s coverage-guided: %d executions, %.1fs\n", id, execs, time.Since(start).Seconds())
	return 0
}

func guidedEvidence(verif, id string, what map[string]any, violations int, start time.Time) {
	file := filepath.Join(verif, "evidence", id+".json")
	var whole map[string]any
	b, err := os.ReadFile(file)
	if err != nil || json.Unmarshal(b, &whole) != nil {
		die("no evidence of the first pass: %v", err)
	}
	c, _ := whole["coverage"].(map[string]any)
	if c == nil {
		die("evidence without coverage")
	}
	c["coverage_guided"] = what
	if w, ok := whole["wall_s"].(float64); ok {
		whole["wall_s"] = w + time.Since(start).Seconds()
	}
	if violations > 0 {
		whole["violations"] = violations
	}
	js, err := json.MarshalIndent(whole, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(file, append(js, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

// guidedWords is the dictionary in the form libFuzzer reads.
func guidedWords() []byte {
	var out bytes.Buffer
	seen := map[string]bool{}
	word := func(b []byte) {
		if len(b) == 0 || len(b) > 40 || seen[string(b)] {
			return
		}
		seen[string(b)] = true
		out.WriteByte('"')
		for _, c := range b {
			fmt.Fprintf(&out, "\\x%02x", c)
		}
		out.WriteString("\"\n")
	}
	for _, l := range [][]string{markBytes, escapes, brackets, hanjaWords} {
		for _, s := range l {
			word([]byte(s))
		}
	}
	for _, d := range []dictionary{hot.dictionary, dict.dictionary} {
		for i, s := range d.strs {
			if i < 300 {
				word([]byte(s))
				word(mEncode([]byte(s)))
			}
		}
		for i, r := range d.runes {
			if i < 300 {
				word(utf8.AppendRune(nil, r))
				if r > 0xff && r < 0x10000 {
					word([]byte{byte(r >> 8), byte(r)})
				}
			}
		}
	}
	return out.Bytes()
}

func guidedSeeds() []string {
	l := []string{"a", "가", "\xb0\xa1", "각나다 한글 國漢字 abc\n", "\xb0\xa1\xb3\xaa\xb4\xd9 abc\xc8\xfe", "물\x00으로로", "\xea\xb0", "é€\U0001F600", strings.Repeat("\xb0\xa1x", 40), strings.Repeat("가나a", 40)}
	for i := 0; i < len(chars); i += 1500 {
		l = append(l, string(chars[i])+"x", string(pairBytes(pairs[i]))+"x")
	}
	for i := 0; i < len(hanjaAll); i += 4000 {
		l = append(l, string(hanjaAll[i])+string(hanjaAll[i+1]))
	}
	for i := range l { // with some settings
		l[i] += fmt.Sprintf("%c%c\x01\x03\x00\x02\x05\x01", i%7, i%5)
	}
	return l
}
