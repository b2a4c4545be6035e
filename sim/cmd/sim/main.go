// Command sim runs seeded simulations of one property, and replays one.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"verifsim/model"
	"verifsim/props"
	"verifsim/rng"
)

// Variant is set at link time: which build of the code under test this is.
var Variant = "nocgo"

// Replay is the file that reproduces one run.
type Replay struct {
	Property string          `json:"property"`
	Variant  string          `json:"variant"`
	Seed     uint64          `json:"seed"`
	Index    int             `json:"index"`
	Class    string          `json:"class"`
	Detail   string          `json:"detail"`
	Hash     string          `json:"hash"`
	Shrunk   int             `json:"shrink_runs"`
	Trace    []string        `json:"trace,omitempty"`
	Scenario json.RawMessage `json:"scenario"`
	// Before are scenarios that the same process went through first, where the
	// failure needs what they left behind.
	Before []json.RawMessage `json:"before,omitempty"`
}

// Result is what a worker reports.
type Result struct {
	Property    string            `json:"property"`
	Variant     string            `json:"variant"`
	Evaluations int               `json:"evaluations"`
	Trivial     int               `json:"trivial"`
	Steps       int64             `json:"steps"`
	SimNs       int64             `json:"sim_ns"`
	Faults      map[string]int    `json:"faults"`
	Probes      map[string]int    `json:"probes"`
	Samples     []json.RawMessage `json:"samples"`
	Violation   string            `json:"violation,omitempty"`
	Error       string            `json:"error,omitempty"`
	Done        bool              `json:"done"`
	Wall        float64           `json:"wall_s"`
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}

func hashName(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func runSeed(seed uint64, prop string, i int) uint64 {
	return rng.Mix(rng.Mix(seed, hashName(prop)), uint64(i))
}

func main() {
	if len(os.Args) < 2 {
		die("usage: sim run|replay|show|list ...")
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	// a known finding of the cgo build, see known-findings.txt
	model.ZstdFrames = Variant == "nocgo" || os.Getenv("VERIF_KNOWN") != ""
	debug.SetMemoryLimit(2 << 30)
	switch os.Args[1] {
	case "run":
		run(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "list":
		fmt.Println(strings.Join(props.IDs(), "\n"))
	default:
		die("unknown command %s", os.Args[1])
	}
}

func property(id string) *props.Property {
	p := props.All[id]
	if p == nil {
		die("no property %s", id)
	}
	if !p.Fresh {
		props.Warm()
	}
	if p.Setup != nil {
		p.Setup()
	}
	return p
}

func scenario(p *props.Property, seed uint64, deep bool) any {
	return p.Clone(p.Gen(rng.New(seed), deep))
}

func run(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	id := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "seed")
	start := fs.Int("start", 0, "first index")
	stride := fs.Int("stride", 1, "stride")
	count := fs.Int("count", 100, "indexes up to this number")
	out := fs.String("out", "", "directory for results")
	tier := fs.String("tier", "quick", "tier")
	deadline := fs.Float64("deadline", 0, "stop after this many seconds")
	hashes := fs.Bool("hashes", false, "print the hash of every run")
	prof := fs.String("cpuprofile", "", "profile")
	name := fs.String("name", "", "name of the result files")
	first := fs.Bool("first", false, "only say what the first violation is")
	chunk := fs.Bool("chunk", false, "this is one of many processes of a worker")
	fs.Parse(args)
	if *prof != "" {
		f, err := os.Create(*prof)
		if err != nil {
			die("%v", err)
		}
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	p := property(*id)
	began := time.Now()
	res := &Result{Property: *id, Variant: Variant, Faults: map[string]int{}, Probes: map[string]int{}}
	distinct := map[uint64]bool{}
	if *name == "" {
		*name = fmt.Sprintf("w%d", *start)
	}
	base := filepath.Join(*out, *name)
	var progress *os.File
	if *out != "" {
		var err error
		if progress, err = os.OpenFile(strings.TrimSuffix(base, "-c")+".progress", os.O_RDWR|os.O_CREATE, 0644); err != nil {
			die("%v", err)
		}
		name := progress.Name()
		alive = func() { os.Chtimes(name, time.Time{}, time.Now()) }
	}
	finish := func() {
		res.Wall = time.Since(began).Seconds()
		if *out == "" {
			b, _ := json.MarshalIndent(res, "", " ")
			fmt.Println(string(b), "distinct", len(distinct))
			return
		}
		b, _ := json.Marshal(res)
		os.WriteFile(base+".json", b, 0644)
		list := make([]uint64, 0, len(distinct))
		for h := range distinct {
			list = append(list, h)
		}
		sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
		var sb strings.Builder
		for _, h := range list {
			fmt.Fprintf(&sb, "%016x\n", h)
		}
		os.WriteFile(base+".hashes", []byte(sb.String()), 0644)
	}
	if p.Fresh && !*chunk && *out != "" {
		chunks(res, distinct, base, *start, *stride, *count, *deadline, args)
		finish()
		if res.Error != "" {
			die("%s", res.Error)
		}
		if res.Violation != "" {
			os.Exit(1)
		}
		return
	}
	var ms runtime.MemStats
	for i, n := *start, 0; i < *count; i, n = i+*stride, n+1 {
		if *deadline > 0 && time.Since(began).Seconds() > *deadline {
			break
		}
		if progress != nil {
			progress.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		}
		s := runSeed(*seed, *id, i)
		sc := scenario(p, s, *tier == "thorough")
		if p.Valid != nil && !p.Valid(sc) {
			b, _ := json.Marshal(sc)
			res.Error = fmt.Sprintf("index %d: generated scenario is not valid: %.3000s", i, b)
			break
		}
		c := p.Execute(sc, false)
		res.Evaluations++
		res.Steps += int64(c.Steps)
		res.SimNs += c.SimNs
		for k, v := range c.Faults {
			res.Faults[k] += v
		}
		for k, v := range c.Probes {
			res.Probes[k] += v
		}
		if *hashes {
			fmt.Printf("%d %016x %s\n", i, c.Hash, c.Class)
		}
		if c.Err != "" {
			res.Error = fmt.Sprintf("index %d: %s", i, c.Err)
			break
		}
		if c.Class != "" && *first {
			fmt.Printf("FOUND %s %d %s: %s\n", *id, i, c.Class, c.Detail)
			res.Violation = "-"
			break
		}
		if c.Class != "" {
			var earlier []func() any
			for j := *start; j < i; j += *stride {
				s := runSeed(*seed, *id, j)
				earlier = append(earlier, func() any { return scenario(p, s, *tier == "thorough") })
			}
			res.Violation = report(p, sc, c, *seed, i, *out, earlier)
			break
		}
		if c.Plain {
			res.Trivial++
		} else {
			distinct[c.Hash] = true
			if len(res.Samples) < 2 && (n%7 == 3 || *count < 50) {
				b, _ := json.Marshal(sc)
				if len(b) < 6000 {
					res.Samples = append(res.Samples, b)
				}
			}
		}
		if n%16 == 15 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 300<<20 {
				runtime.GC()
			}
		}
	}
	res.Done = res.Error == ""
	finish()
	if res.Error != "" {
		die("%s", res.Error)
	}
	if res.Violation != "" {
		os.Exit(1)
	}
}

// chunkRuns is how many runs of a Fresh property share a process.
const chunkRuns = 12

// chunks makes the runs in a series of processes.
func chunks(res *Result, distinct map[uint64]bool, base string, start, stride, count int, deadline float64, args []string) {
	began := time.Now()
	name := filepath.Base(base)
	for i := start; i < count; i += stride * chunkRuns {
		if deadline > 0 && time.Since(began).Seconds() > deadline {
			break
		}
		a := append([]string{"run"}, args...)
		a = append(a, "-chunk", "-name", name+"-c", "-start", fmt.Sprint(i), "-count", fmt.Sprint(min(count, i+stride*chunkRuns)))
		cmd := exec.Command("/proc/self/exe", a...)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		err := cmd.Run()
		code := cmd.ProcessState.ExitCode()
		var r Result
		b, rerr := os.ReadFile(base + "-c.json")
		if rerr == nil {
			rerr = json.Unmarshal(b, &r)
		}
		if code != 0 && code != 1 && r.Error == "" || rerr != nil {
			die("process ended: %v %v", err, rerr)
		}
		os.Remove(base + "-c.json")
		res.Evaluations += r.Evaluations
		res.Trivial += r.Trivial
		res.Steps += r.Steps
		res.SimNs += r.SimNs
		for k, v := range r.Faults {
			res.Faults[k] += v
		}
		for k, v := range r.Probes {
			res.Probes[k] += v
		}
		if len(res.Samples) < 2 {
			res.Samples = append(res.Samples, r.Samples...)
		}
		hb, _ := os.ReadFile(base + "-c.hashes")
		os.Remove(base + "-c.hashes")
		for _, l := range strings.Fields(string(hb)) {
			var h uint64
			fmt.Sscanf(l, "%x", &h)
			distinct[h] = true
		}
		res.Violation, res.Error = r.Violation, r.Error
		if r.Violation != "" || r.Error != "" {
			break
		}
	}
	res.Done = res.Error == ""
}

// elsewhere runs a scenario in a process of its own, after some others, and
// returns what it found.
func elsewhere(p *props.Property, before []any, sc any) (class string, c *props.Ctx) {
	alive()
	f, err := os.CreateTemp("", "verif-sim")
	if err != nil {
		return "", nil
	}
	defer os.Remove(f.Name())
	r := &Replay{Property: p.ID, Variant: Variant, Scenario: marshal(sc)}
	for _, x := range before {
		r.Before = append(r.Before, marshal(x))
	}
	f.Write(marshal(r))
	f.Close()
	out, _ := exec.Command("/proc/self/exe", "replay", "-json", f.Name()).Output()
	c = &props.Ctx{}
	if i := strings.LastIndex(string(out), "\nJSON "); i < 0 || json.Unmarshal(out[i+6:], c) != nil {
		return "", nil
	}
	return c.Class, c
}

// alive tells the driver that the worker is still busy.
var alive = func() {}

func marshal(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// history finds the runs of this process that a failure needs: the last so
// many of them, then without those that make no difference.
func history(p *props.Property, earlier []func() any, sc any, class string) (before []any, ok bool) {
	began := time.Now()
	fails := func(b []any) bool {
		got, _ := elsewhere(p, b, sc)
		return got == class
	}
	for n := 1; ; n *= 4 {
		n = min(n, len(earlier))
		before = nil
		for _, f := range earlier[len(earlier)-n:] {
			before = append(before, f())
		}
		if ok = fails(before); ok || n == len(earlier) || time.Since(began) > 100*time.Second {
			break
		}
	}
	if !ok {
		// making up scenarios may have used the library, too
		before = append(before, before...)
		if !fails(before) {
			return nil, false
		}
	}
	for size := (len(before) + 1) / 2; size > 0 && time.Since(began) < 130*time.Second; {
		cut := false
		for i := 0; i < len(before) && time.Since(began) < 130*time.Second; {
			less := append(append([]any(nil), before[:i]...), before[min(i+size, len(before)):]...)
			if len(less) < len(before) && fails(less) {
				before, cut = less, true
			} else {
				i += size
			}
		}
		if size = min(size, len(before)); !cut || size > 1 {
			size /= 2
		}
	}
	return before, true
}

func report(p *props.Property, sc any, c *props.Ctx, seed uint64, i int, out string, earlier []func() any) string {
	budget, runs := 25*time.Second, 3000
	var small any
	var n int
	var cc *props.Ctx
	if !p.Fresh {
		small, n = p.Shrink(sc, c.Class, budget, runs)
		cc = p.Execute(small, true)
		if got, _ := elsewhere(p, nil, small); got != c.Class || cc.Class != c.Class {
			small = nil
		}
	}
	var before []any
	if small == nil {
		// it takes a process that has not done other things before, or one
		// that has
		if got, _ := elsewhere(p, nil, sc); got != c.Class {
			before, _ = history(p, earlier, sc, c.Class)
			budget = 10 * time.Second
		}
		small, n = p.ShrinkBy(sc, c.Class, budget, runs, func(s any) string { class, _ := elsewhere(p, before, s); return class })
		if _, cc = elsewhere(p, before, small); cc == nil || cc.Class != c.Class {
			small, n, cc = sc, 0, c
		}
	}
	r := &Replay{Property: p.ID, Variant: Variant, Seed: seed, Index: i, Class: cc.Class, Detail: cc.Detail,
		Hash: fmt.Sprintf("%016x", cc.Hash), Shrunk: n, Trace: cc.Trace, Scenario: marshal(small)}
	for _, x := range before {
		r.Before = append(r.Before, marshal(x))
	}
	f, _ := json.MarshalIndent(r, "", " ")
	if out == "" {
		fmt.Println(string(f))
		return "-"
	}
	path := filepath.Join(out, fmt.Sprintf("%s-%d.replay.json", p.ID, i))
	if err := os.WriteFile(path, f, 0644); err != nil {
		die("%v", err)
	}
	return path
}

func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verbose := fs.Bool("v", false, "print the trace")
	asJSON := fs.Bool("json", false, "print what was found in a machine's words")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		die("%v", err)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		die("%v", err)
	}
	p := property(r.Property)
	var sc any
	if len(r.Scenario) == 0 || string(r.Scenario) == "null" {
		sc = scenario(p, runSeed(r.Seed, r.Property, r.Index), false)
	} else {
		sc = p.New()
		if err := json.Unmarshal(r.Scenario, sc); err != nil {
			die("%v", err)
		}
	}
	for _, b := range r.Before {
		x := p.New()
		if err := json.Unmarshal(b, x); err != nil {
			die("%v", err)
		}
		p.Execute(x, false)
	}
	c := p.Execute(sc, true)
	if *verbose {
		for _, t := range c.Trace {
			fmt.Println(t)
		}
		if c.Debug != "" {
			fmt.Println(c.Debug)
		}
	}
	fmt.Printf("class=%s hash=%016x detail=%s\n", c.Class, c.Hash, c.Detail)
	if *asJSON {
		b, _ := json.Marshal(c)
		fmt.Printf("\nJSON %s\n", b)
		return
	}
	if c.Err != "" {
		die("%s", c.Err)
	}
	if c.Class == "" {
		os.Exit(0)
	}
	if r.Class != "" && (c.Class != r.Class || r.Hash != "" && fmt.Sprintf("%016x", c.Hash) != r.Hash) {
		fmt.Println("the recorded run was", r.Class, r.Hash)
		os.Exit(3)
	}
	os.Exit(1)
}
