// Command harness decides the properties of /verif/properties.jsonl by generated
// cases against independent oracles.  See /verif/DESIGN.md.
//
//	harness check  PROP                 run all workers, write evidence (driver)
//	harness worker PROP TIER SEED SHARD SHARDS OUT [TRACE]
//	harness replay FILE                 run one saved failure again
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

func setFlag(name, v string) {
	if err := flag.Set(name, v); err != nil {
		panic(harnessError(err.Error()))
	}
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	debug.SetMaxStack(128 << 20)
	args := os.Args[1:]
	if len(args) == 0 {
		die("no command")
	}
	switch args[0] {
	case "check":
		os.Exit(driver(args[1]))
	case "worker":
		workerMain(args[1:])
	case "guidable": // PROP: whether there is anything for the next
		if len(guidable(findProp(args[1]))) == 0 {
			os.Exit(1)
		}
	case "guided": // PROP FUZZER SECONDS
		os.Exit(guided(args[1], args[2], atoi(args[3])))
	case "replay":
		os.Exit(replayMain(args[1]))
	case "conc":
		os.Exit(concMain())
	case "dict": // the literals of the tree: data/base_dict.json is made with this
		dumpDict()
	case "list":
		for _, p := range props {
			fmt.Println(p.id)
		}
	default:
		die("unknown command %s", args[0])
	}
}

func findProp(id string) *prop {
	for _, p := range props {
		if p.id == id {
			return p
		}
	}
	die("no property %s", id)
	return nil
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		die("bad number %q", s)
	}
	return n
}

// ---- worker

func workerMain(a []string) {
	defer harnessExit()
	p := findProp(a[0])
	seed, err := strconv.ParseUint(a[2], 10, 64)
	if err != nil {
		die("bad seed")
	}
	w := &worker{p: p, tier: a[1], seed: seed, shard: atoi(a[3]), shards: atoi(a[4])}
	w.st.Labels, w.st.Samples = map[string]int64{}, map[string][]json.RawMessage{}
	out := a[5]
	if len(a) > 6 {
		if w.trace, err = os.Create(a[6]); err != nil {
			die("%v", err)
		}
	}
	loadDict()
	go watchdog(out + ".dump")
	w.run()
	js, err := json.Marshal(w.st)
	if err != nil {
		die("%v", err)
	}
	hb := make([]byte, 0, 8*len(w.hashes))
	slices.Sort(w.hashes)
	for _, h := range slices.Compact(w.hashes) {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	if err := os.WriteFile(out+".hashes", hb, 0o644); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(out, js, 0o644); err != nil {
		die("%v", err)
	}
}

func harnessExit() {
	if p := recover(); p != nil {
		fmt.Fprintf(os.Stderr, "harness error: %v\n%s\n", p, debug.Stack())
		os.Exit(2)
	}
}

// ---- replay

func replayMain(file string) int {
	defer harnessExit()
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		die("%s: %v", file, err)
	}
	p := findProp(v.Property)
	tmp, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	if v.Needs == "history" {
		out := filepath.Join(tmp, "o")
		r := runWorker(p, v.Tier, v.Seed, v.Shard, v.Shards, out, "", 0)
		if r.err != "" {
			die("%s", r.err)
		}
		if len(r.v) > 0 {
			fmt.Printf("REPRODUCED property=%s kind=%s (whole worker run): %s\n", p.id, r.v[0].Kind, r.v[0].Msg)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	for _, k := range p.kinds {
		if k.name != v.Kind {
			continue
		}
		c, err := k.decode(v.Case)
		if err != nil {
			die("%s: %v", file, err)
		}
		loadDict()
		curCase.Store(&c)
		curKind.Store(k)
		curSeq.Add(1)
		go watchdog(filepath.Join(tmp, "dump"))
		if err := safe(k, c); err != nil {
			fmt.Printf("REPRODUCED property=%s kind=%s: %v\n", p.id, k.name, err)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	die("no kind %s", v.Kind)
	return 2
}

// ---- driver

type workerResult struct {
	st     stats
	hashes []byte
	v      []*violation
	err    string // the worker ended in a way which is no answer
}

func runWorker(p *prop, tier string, seed uint64, shard, shards int, out, trace string, procs int) (r workerResult) {
	args := []string{"worker", p.id, tier, fmt.Sprint(seed), fmt.Sprint(shard), fmt.Sprint(shards), out}
	if trace != "" {
		args = append(args, trace)
	}
	cmd := exec.Command(os.Args[0], args...)
	var stderr strings.Builder
	cmd.Stderr = &stderr
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	if procs > 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("GOMAXPROCS=%d", procs))
	}
	err := cmd.Run()
	code := cmd.ProcessState.ExitCode()
	switch {
	case err == nil:
		b, e1 := os.ReadFile(out)
		h, e2 := os.ReadFile(out + ".hashes")
		if e1 != nil || e2 != nil {
			r.err = "worker wrote no result"
			return
		}
		if e := json.Unmarshal(b, &r.st); e != nil {
			r.err = e.Error()
			return
		}
		r.hashes, r.v = h, r.st.Violations
		return
	case code == exitHang || code == exitMem:
		b, e := os.ReadFile(out + ".dump")
		var v violation
		if e != nil || json.Unmarshal(b, &v) != nil {
			r.err = "worker stopped by its watchdog, no case: " + short([]byte(stderr.String()), 2000)
			return
		}
		v.Property, v.Tier, v.Seed, v.Shard, v.Shards = p.id, tier, seed, shard, shards
		r.v = []*violation{&v}
		return
	}
	se := stderr.String()
	fatal := strings.Contains(se, "fatal error: ") || strings.Contains(se, "SIGSEGV")
	race := code == exitRace || strings.Contains(se, "WARNING: DATA RACE")
	if strings.Contains(se, "out of memory") || strings.Contains(se, "cannot allocate") || strings.Contains(se, "failed to create new OS thread") || !(fatal || race) || strings.Contains(se, "harness error") {
		r.err = fmt.Sprintf("worker %s shard %d ended with %v: %s", p.id, shard, err, short([]byte(se), 3000))
		return
	}
	// a crash or race of the code under test which kills the process
	v := &violation{Property: p.id, How: map[bool]string{true: "race", false: "crash"}[race], Msg: short([]byte(se), 6000), Tier: tier, Seed: seed, Shard: shard, Shards: shards}
	if trace == "" {
		tr := out + ".trace"
		r2 := runWorker(p, tier, seed, shard, shards, out, tr, procs)
		if len(r2.v) > 0 {
			r2.v[0].Msg = v.Msg
			return r2
		}
		if race {
			// the detector has no false alarms; the report itself is the evidence
			v.Needs = "history"
			v.Kind = p.kinds[0].name
			r.v = []*violation{v}
			return
		}
		r.err = "crash which did not happen again: " + v.Msg
		return
	}
	var t struct {
		Kind string          `json:"kind"`
		Case json.RawMessage `json:"case"`
	}
	b, _ := os.ReadFile(trace)
	if json.Unmarshal(b, &t) != nil {
		r.err = "crash without a traced case: " + v.Msg
		return
	}
	v.Kind, v.Case = t.Kind, t.Case
	r.v = []*violation{v}
	return
}

// replayFresh says whether a saved case fails by itself in a new process.
func replayFresh(file string, tries int) bool {
	for i := 0; i < tries; i++ {
		cmd := exec.Command(os.Args[0], "replay", file)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		out, err := cmd.CombinedOutput()
		if err == nil {
			continue
		}
		switch c := cmd.ProcessState.ExitCode(); {
		case c == 1, c == exitHang, c == exitMem, c == exitRace:
			return true
		case c == 2 && !strings.Contains(string(out), "harness"): // runtime fatal error
			return true
		}
	}
	return false
}

// shrinkFresh drops what it can from a failing history, trying each candidate in a
// process of its own, as what one history leaves behind could fail the next.
func shrinkFresh(p *prop, v *violation, f, dir, tmp string) string {
	var k *kind
	for _, x := range p.kinds {
		if x.name == v.Kind {
			k = x
		}
	}
	if k == nil || k.drop == nil || v.How != "random" && v.How != "enum" {
		return f
	}
	c, err := k.decode(v.Case)
	if err != nil {
		return f
	}
	const batch = 8
	smaller := false
	until := time.Now().Add(20 * time.Second)
again:
	for l := k.drop(c); len(l) > 0 && time.Now().Before(until); l = l[min(batch, len(l)):] {
		var wg sync.WaitGroup
		var out [batch]string
		for i, x := range l[:min(batch, len(l))] {
			wg.Add(1)
			go func() {
				defer wg.Done()
				n := *v
				n.Case, _ = json.Marshal(x)
				o, _ := exec.Command(os.Args[0], "replay", save(filepath.Join(tmp, fmt.Sprint("s", i)), &n)).Output()
				out[i] = string(o)
			}()
		}
		wg.Wait()
		for i, o := range out {
			if _, msg, ok := strings.Cut(o, "kind="+v.Kind+": "); ok {
				v.Case, _ = json.Marshal(l[i])
				v.Msg = strings.TrimSuffix(msg, "\n")
				c, smaller = l[i], true
				goto again
			}
		}
	}
	if !smaller {
		return f
	}
	os.Remove(f)
	return save(dir, v)
}

func driver(id string) int {
	defer harnessExit()
	start := time.Now()
	selfChecks()
	p := findProp(id)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(n)
		} else {
			die("bad VERIF_SEED %q", s)
		}
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	tmp, err := os.MkdirTemp("", "verif-"+id)
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	shards, procs := 8, 2
	if raceBuild {
		procs = 8
	}
	res := make([]workerResult, shards)
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i] = runWorker(p, tier, seed, i, shards, filepath.Join(tmp, fmt.Sprintf("w%d", i)), "", procs)
		}()
	}
	wg.Wait()

	total := stats{Labels: map[string]int64{}, Samples: map[string][]json.RawMessage{}}
	var distinct []uint64
	var vs []*violation
	errs := []string{}
	for _, r := range res {
		if r.err != "" {
			errs = append(errs, r.err)
		}
		total.Enum += r.st.Enum
		total.Random += r.st.Random
		total.Nontriv += r.st.Nontriv
		for k, n := range r.st.Labels {
			total.Labels[k] += n
		}
		for k, s := range r.st.Samples {
			if len(total.Samples[k]) < 1 {
				total.Samples[k] = s[:1]
			}
		}
		for i := 0; i+8 <= len(r.hashes); i += 8 {
			distinct = append(distinct, binary.LittleEndian.Uint64(r.hashes[i:]))
		}
		vs = append(vs, r.v...)
	}
	slices.Sort(distinct)
	nDistinct := len(slices.Compact(distinct))
	korder := map[string]int{}
	for i, k := range p.kinds {
		korder[k.name] = i
	}
	sort.SliceStable(vs, func(i, j int) bool {
		a, b := vs[i], vs[j]
		if korder[a.Kind] != korder[b.Kind] {
			return korder[a.Kind] < korder[b.Kind]
		}
		if a.How != b.How {
			return a.How < b.How
		}
		if len(a.Case) != len(b.Case) {
			return len(a.Case) < len(b.Case)
		}
		return string(a.Case) < string(b.Case)
	})

	// report: prefer a case which fails by itself in a fresh process
	code := 0
	dir := filepath.Join(verif, "replays")
	var reported *violation
	var path string
	seen := map[string]bool{}
	tried := 0
	for _, v := range vs {
		if seen[v.Kind] || tried >= 6 {
			continue
		}
		tried++
		if v.Needs == "" {
			v.Needs = "case"
		}
		f := save(dir, v)
		ok := false
		if v.Needs == "case" {
			tries := 1
			if v.How == "race" || v.How == "crash" {
				tries = 10
			}
			ok = replayFresh(f, tries)
		}
		if !ok && (v.How == "hang" || v.How == "memory") {
			// never decide on time alone: an unconfirmed one is no answer
			os.Remove(f)
			errs = append(errs, "unconfirmed "+v.How+" in "+v.Kind+": "+v.Msg)
			continue
		}
		if !ok && v.Needs == "case" {
			os.Remove(f)
			v.Needs = "history"
			f = save(dir, v)
		}
		if ok {
			seen[v.Kind] = true
			f = shrinkFresh(p, v, f, dir, tmp)
		}
		if reported == nil || (reported.Needs == "history" && ok) {
			reported, path = v, f
		}
		if ok {
			break
		}
	}
	nv := 0
	if reported != nil {
		nv = len(vs)
		code = 1
		fmt.Printf("property %s violated, kind %s (%s, replay needs the %s)\n%s\ncase: %s\n", id, reported.Kind, reported.How, reported.Needs, short([]byte(reported.Msg), 4000), short(reported.Case, 4000))
		fmt.Printf("replay with: bash /verif/run.sh replay %s\n", path)
	} else if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "error:", e)
		}
		return 2
	}

	samples := []any{}
	for _, k := range sortedKeys(total.Samples) {
		samples = append(samples, map[string]any{"class": k, "case": total.Samples[k][0]})
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": int64(seed), "level": "exploration",
		"coverage": map[string]any{
			"evaluations":          total.Enum + total.Random,
			"enumerated_cases":     total.Enum,
			"random_cases":         total.Random,
			"distinct_nontrivial":  nDistinct,
			"nontrivial":           total.Nontriv,
			"rule":                 p.rule,
			"classes":              total.Labels,
			"samples":              samples,
			"exhaustive":           p.exhaustive && reported == nil,
			"source_dictionary":    dictSummary(),
			"worker_processes":     shards,
			"race_detector":        raceBuild,
			"oracle_self_checks":   selfChecks(),
			"incomplete_by_errors": len(errs),
		},
		"assumptions": p.assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nv,
	}
	js, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	evFile := filepath.Join(verif, "evidence", id+".json")
	os.MkdirAll(filepath.Dir(evFile), 0o755)
	if also := os.Getenv("VERIF_ALSO"); also != "" && code == 0 {
		// another pass after the one which wrote the evidence: add to that
		var first struct {
			Coverage map[string]any `json:"coverage"`
		}
		var whole map[string]any
		if b, err := os.ReadFile(evFile); err != nil || json.Unmarshal(b, &first) != nil || json.Unmarshal(b, &whole) != nil {
			die("no evidence of the first pass: %v", err)
		}
		first.Coverage[also] = map[string]any{"goarch": runtime.GOARCH, "tier": tier, "evaluations": total.Enum + total.Random, "distinct_nontrivial": nDistinct, "wall_s": time.Since(start).Seconds()}
		whole["coverage"] = first.Coverage
		if w, ok := whole["wall_s"].(float64); ok {
			whole["wall_s"] = w + time.Since(start).Seconds()
		}
		if js, err = json.MarshalIndent(whole, "", " "); err != nil {
			die("%v", err)
		}
	}
	if err := os.WriteFile(evFile, append(js, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	} else {
		fmt.Printf("OK property=%s tier=%s seed=%d %s: %d cases (%d enumerated, %d random), %d distinct non-trivial, %.1fs\n",
			id, tier, seed, runtime.GOARCH, total.Enum+total.Random, total.Enum, total.Random, nDistinct, time.Since(start).Seconds())
	}
	return code
}

func save(dir string, v *violation) string {
	v.Arch = runtime.GOARCH
	js, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", v.Property, v.Kind, hashOf(js)))
	if err := os.WriteFile(f, js, 0o644); err != nil {
		die("%v", err)
	}
	return f
}
