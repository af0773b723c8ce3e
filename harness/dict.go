package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// The fuzzing dictionary: literals of the code under test (outside its big tables),
// used only to make inputs, never to judge them.  Literals which the pinned tree does not
// have come up more often.
type dictionary struct {
	ints  []int    // value and both neighbours
	sizes []int    // those usable as a length
	runes []rune   // those usable as a rune value
	strs  []string // string literals, and lists of numbers taken as bytes or characters
	big   []int    // those sizes which are beyond the usual ones
	seq   []int    // number literals in the order of the source
}

var dict, hot struct {
	dictionary
	once sync.Once
}

//go:embed data/base_dict.json
var baseDict []byte

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadDict() {
	dict.once.Do(func() {
		all := readDict()
		var known struct {
			Ints []int
			Strs []string
		}
		if err := json.Unmarshal(baseDict, &known); err != nil {
			panic(harnessError(err.Error()))
		}
		ki, ks := map[int]bool{}, map[string]bool{}
		for _, n := range known.Ints {
			ki[n] = true
		}
		for _, s := range known.Strs {
			ks[s] = true
		}
		var novel literals
		for _, n := range all.ints {
			if !ki[n] {
				novel.ints = append(novel.ints, n)
			}
		}
		for _, s := range all.strs {
			if !ks[s] {
				novel.strs = append(novel.strs, s)
			}
		}
		dict.dictionary = all.dictionary()
		hot.dictionary = novel.dictionary()
	})
}

type literals struct { // in the order of the source
	ints []int
	strs []string
}

func (l literals) dictionary() (d dictionary) {
	ints, strs := map[int]bool{}, map[string]bool{}
	for _, n := range l.ints {
		for k := -1; k <= 1; k++ {
			ints[n+k] = true
		}
	}
	for _, s := range l.strs {
		strs[s] = true
		for _, r := range s {
			if r >= 0x80 {
				ints[int(r)] = true
			}
		}
	}
	d.seq = l.ints
	for n := range ints {
		d.ints = append(d.ints, n)
	}
	for s := range strs {
		d.strs = append(d.strs, s)
	}
	sort.Ints(d.ints)
	sort.Strings(d.strs)
	for _, n := range d.ints {
		if n >= 0 && n <= 1<<22 {
			d.sizes = append(d.sizes, n)
			if n > 5000 && n%16 == 0 || n > 5000 && n%1000 == 0 {
				d.big = append(d.big, n)
			}
		}
		if n >= 0 && n <= 0x7fffffff {
			d.runes = append(d.runes, rune(n))
		}
	}
	return
}

// constants of the standard library which are lengths or characters
var knownConsts = map[string]int64{"utf8.UTFMax": 4, "utf8.RuneSelf": 0x80, "utf8.MaxRune": 0x10FFFF, "unicode.MaxRune": 0x10FFFF, "unicode.MaxLatin1": 0xFF, "unicode.MaxASCII": 0x7F,
	"bufio.MaxScanTokenSize": 65536, "bytes.MinRead": 512, "math.MaxInt8": 127, "math.MaxUint8": 255, "math.MaxInt16": 32767, "math.MaxUint16": 65535}

func readDict() (l literals) {
	var files []*ast.File
	filepath.WalkDir(repoDir(), func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if strings.HasPrefix(d.Name(), ".") && path != repoDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err == nil {
			files = append(files, f)
		}
		return nil
	})
	num := func(x *ast.BasicLit) (int, bool) {
		switch x.Kind {
		case token.INT:
			v := constant.MakeFromLiteral(x.Value, token.INT, 0)
			n, ok := constant.Int64Val(v)
			return int(n), ok && n >= 0 && n <= 1<<31-1
		case token.CHAR:
			c, _, _, err := strconv.UnquoteChar(strings.TrimSuffix(strings.TrimPrefix(x.Value, "'"), "'"), '\'')
			return int(c), err == nil
		}
		return 0, false
	}
	names := map[string]constant.Value{} // of constants, in whatever scope
	var eval func(e ast.Expr) constant.Value
	eval = func(e ast.Expr) constant.Value {
		switch x := e.(type) {
		case *ast.ParenExpr:
			return eval(x.X)
		case *ast.BasicLit:
			if v, ok := num(x); ok {
				return constant.MakeInt64(int64(v))
			}
		case *ast.Ident:
			return names[x.Name]
		case *ast.CallExpr: // a conversion
			if len(x.Args) == 1 {
				return eval(x.Args[0])
			}
		case *ast.SelectorExpr:
			if p, ok := x.X.(*ast.Ident); ok {
				if v, ok := knownConsts[p.Name+"."+x.Sel.Name]; ok {
					return constant.MakeInt64(v)
				}
			}
		case *ast.BinaryExpr:
			a, b := eval(x.X), eval(x.Y)
			if a == nil || b == nil {
				return nil
			}
			switch x.Op {
			case token.SHL:
				if n, ok := constant.Uint64Val(b); ok && n < 32 {
					return constant.Shift(a, x.Op, uint(n))
				}
			case token.QUO:
				if constant.Sign(b) != 0 {
					return constant.BinaryOp(a, token.QUO_ASSIGN, b)
				}
			case token.ADD, token.SUB, token.MUL, token.OR:
				return constant.BinaryOp(a, x.Op, b)
			}
		}
		return nil
	}
	for i := 0; i < 3; i++ { // constants may refer to others
		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				if x, ok := n.(*ast.ValueSpec); ok {
					for j, id := range x.Names {
						if j < len(x.Values) {
							if v := eval(x.Values[j]); v != nil {
								names[id.Name] = v
							}
						}
					}
				}
				return true
			})
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr, *ast.SelectorExpr:
				if v := eval(x.(ast.Expr)); v != nil {
					if n, ok := constant.Int64Val(v); ok && n >= 0 && n <= 1<<31-1 {
						l.ints = append(l.ints, int(n))
					}
				}
			case *ast.CompositeLit:
				if len(x.Elts) > 500 {
					return false
				}
				var list []int
				for _, e := range x.Elts {
					if b, ok := e.(*ast.BasicLit); ok {
						if v, ok := num(b); ok {
							list = append(list, v)
						}
					}
				}
				if len(list) > 1 && len(list) <= 64 {
					var b []byte
					var r []rune
					for _, v := range list {
						b = append(b, byte(v))
						r = append(r, rune(v))
					}
					l.strs = append(l.strs, string(b), string(r))
				}
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				if x.Kind == token.STRING {
					if s, err := strconv.Unquote(x.Value); err == nil && len(s) <= 200 {
						l.strs = append(l.strs, s)
					}
				} else if v, ok := num(x); ok {
					l.ints = append(l.ints, v)
				}
			}
			return true
		})
	}
	return
}

// dumpDict prints the literals of the tree (data/base_dict.json is made so, by hand).
func dumpDict() {
	l := readDict()
	ints, strs := map[int]bool{}, map[string]bool{}
	var o struct {
		Ints []int
		Strs []string
	}
	for _, n := range l.ints {
		if !ints[n] {
			ints[n] = true
			o.Ints = append(o.Ints, n)
		}
	}
	for _, s := range l.strs {
		if !strs[s] && utf8.ValidString(s) {
			strs[s] = true
			o.Strs = append(o.Strs, s)
		}
	}
	sort.Ints(o.Ints)
	sort.Strings(o.Strs)
	js, _ := json.Marshal(o)
	fmt.Println(string(js))
}

// from the new literals, if there are any and chance has it, or all of them
func dictPick[T any](t *rapid.T, f func(dictionary) []T) (x T) {
	l := f(hot.dictionary)
	if len(l) == 0 || weighted(t, 3, 1) == 1 {
		l = f(dict.dictionary)
	}
	if len(l) == 0 {
		return
	}
	return l[pick(t, len(l))]
}

func dictRune(t *rapid.T) rune {
	return dictPick(t, func(d dictionary) []rune { return d.runes })
}
func dictSize(t *rapid.T) int {
	return dictPick(t, func(d dictionary) []int { return d.sizes })
}
func dictStr(t *rapid.T) string {
	return dictPick(t, func(d dictionary) []string { return d.strs })
}

// marks of other encodings and the like, which code is tempted to treat specially
var markBytes = []string{"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\x1b$)C", "\x0e", "\x0f", "\r\n", "\x1a", "\x00", "\x00\x00\xfe\xff", "\ufeff", "\ufffd", "\u200b", "\u0301", "\u3000", "&#", "\\u", "%", "\xa1\xa1", "\xc9\xa1", "\xfe\xfe"}

// dictBytes draws bytes: a mark, a string literal, or number literals which follow each
// other in the source, as bytes, codes or characters.
func dictBytes(t *rapid.T) []byte {
	switch weighted(t, 2, 3, 3) {
	case 0:
		return []byte(markBytes[pick(t, len(markBytes))])
	case 1:
		if s := dictStr(t); s != "" {
			return []byte(s)
		}
		return []byte("\ufeff")
	}
	seq := hot.seq
	if len(seq) == 0 || weighted(t, 3, 1) == 1 {
		seq = dict.seq
	}
	if len(seq) == 0 {
		return []byte{0}
	}
	i := pick(t, len(seq))
	var b []byte
	as := pick(t, 2)
	for _, n := range seq[i:min(len(seq), i+rapid.IntRange(1, 4).Draw(t, "n"))] {
		switch {
		case as == 0 && n < 256:
			b = append(b, byte(n))
		case as == 0 && n < 65536:
			b = append(b, byte(n>>8), byte(n))
		default:
			b = utf8.AppendRune(b, rune(n))
		}
	}
	return b
}

func dictSummary() map[string]int {
	loadDict()
	return map[string]int{"numbers": len(dict.ints), "strings": len(dict.strs), "new_numbers": len(hot.ints), "new_strings": len(hot.strs)}
}
