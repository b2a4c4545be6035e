// Package props holds one simulated workload and oracle per property.
package props

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"verifsim/kern"
	"verifsim/rng"
	"verifsim/rt"
	"verifsim/stream"
)

// Ctx is one run: what happened and what was found.
type Ctx struct {
	Class  string
	Detail string
	Faults map[string]int
	Probes map[string]int
	Steps  int
	SimNs  int64
	Hash   uint64
	Plain  bool // nothing injected, nothing unusual: a trivial run
	Trace  []string
	Keep   bool
	Err    string // the simulator itself cannot judge this run
	Debug  string

	base int
}

// Fail records a violation; the first one counts.
func (c *Ctx) Fail(class, format string, a ...any) {
	if c.Class == "" && c.Err == "" {
		c.Class = class
		c.Detail = fmt.Sprintf(format, a...)
		if len(c.Detail) > 600 {
			c.Detail = c.Detail[:600] + "..."
		}
		c.note("VIOLATION %s: %s", class, c.Detail)
	}
}

// Failed reports whether the run has already failed.
func (c *Ctx) Failed() bool { return c.Class != "" || c.Err != "" }

// Probe counts that a rare condition was reached.
func (c *Ctx) Probe(name string) {
	if c.Probes == nil {
		c.Probes = map[string]int{}
	}
	c.Probes[name]++
}

// Fault counts an injected fault.
func (c *Ctx) Fault(name string, n int) {
	if n == 0 {
		return
	}
	if c.Faults == nil {
		c.Faults = map[string]int{}
	}
	c.Faults[name] += n
}

// Mix adds an event to the run's identity.
func (c *Ctx) Mix(format string, a ...any) {
	h := c.Hash ^ 14695981039346656037
	s := fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	c.Hash = h
	c.note("%s", s)
}

func (c *Ctx) note(format string, a ...any) {
	if c.Keep && len(c.Trace) < 400 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		c.Trace = append(c.Trace, s)
	}
}

// Sources adds what a source did to the run's account.
func (c *Ctx) Source(s *stream.Source) {
	for k, v := range s.Fired {
		c.Fault(k, v)
	}
	c.Mix("source %x", s.Sum())
}

// Kernel adds what a machine did to the run's account.
func (c *Ctx) Kernel(k *kern.Kernel, start int64) {
	for n, v := range k.Fired {
		c.Fault(n, v)
	}
	c.SimNs += k.Now - start
	c.Mix("kernel %x", k.Hash())
	if c.Keep {
		for _, t := range k.Trace {
			e := ""
			if t.Err != 0 {
				e = " = " + t.Err.Error()
			}
			c.note("sys %s %s -> %d%s", t.Op, t.Path, t.Ret, e)
		}
		k.Trace = nil
	}
}

// End says how a simulated process ended.
type End struct {
	Kind  string // ok, panic, steps, crashed, hang, deadlock
	What  string
	Stack string
}

// Budget is the number of statements a run may execute.
const Budget = 3_000_000

// Proc runs fn as the process under test.
func (c *Ctx) Proc(budget int, fn func()) (end End) {
	end = End{Kind: "ok"}
	goroutines := runtime.NumGoroutine()
	rt.Begin(budget)
	defer func() {
		if rt.Dead() {
			settle(goroutines) // while its system calls still fail
		}
		c.Steps += rt.End()
		switch r := recover().(type) {
		case nil:
		case rt.StepLimit:
			end = End{Kind: "steps", What: fmt.Sprintf("more than %d statements", budget)}
		case rt.Crashed:
			end = End{Kind: "crashed"}
		case rt.Deadlock:
			end = End{Kind: "deadlock"}
		case kern.Hang:
			end = End{Kind: "hang", What: r.What}
		case stream.Hang:
			end = End{Kind: "hang", What: "reads on and on after the end of its input"}
		case kern.Unsupported:
			c.Err = "the simulated kernel does not know: " + r.What
			end = End{Kind: "unsupported", What: r.What}
		default:
			end = End{Kind: "panic", What: fmt.Sprint(r), Stack: string(debug.Stack())}
			if c.Keep {
				c.note("panic: %v\n%s", r, trimStack(end.Stack))
			}
		}
	}()
	fn()
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "go-rpmutils") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, " | ")
}

// Healthy turns an abnormal end into a violation. It returns false if the
// process did not come to a normal end.
func (c *Ctx) Healthy(e End, during string) bool {
	switch e.Kind {
	case "ok":
		return true
	case "panic":
		c.Fail("panic", "%s panicked: %s [%s]", during, e.What, trimStack(e.Stack))
	case "steps", "hang", "deadlock":
		c.Fail("hang", "%s does not return: %s %s", during, e.Kind, e.What)
	}
	return false
}

// Property is one checkable property.
type Property struct {
	ID  string
	New func() any
	Gen func(r *rng.R, deep bool) any
	Run func(sc any, c *Ctx)
	// Valid rejects scenarios the shrinker should not produce.
	Valid func(sc any) bool
	// Setup runs once per worker.
	Setup func()
	// Fresh properties are about state that a process makes once: few runs to
	// a process, nothing warmed up, and no second run in it to be trusted.
	Fresh bool
}

// All is the registry.
var All = map[string]*Property{}

func register(p *Property) { All[p.ID] = p }

// IDs lists the registered properties.
func IDs() []string {
	var l []string
	for id := range All {
		l = append(l, id)
	}
	sort.Strings(l)
	return l
}

// Execute runs one scenario from a clean state.
func (p *Property) Execute(sc any, keep bool) *Ctx {
	c := &Ctx{Keep: keep}
	p.execute(sc, c)
	return c
}

func (p *Property) execute(sc any, c *Ctx) {
	defer runtime.SimRand(false, 0)
	out := os.Stdout
	defer func() { os.Stdout = out }()
	p.Run(sc, c)
	c.Mix("end %s", c.Class)
}

// Clone copies a scenario through its JSON form.
func (p *Property) Clone(sc any) any {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	n := p.New()
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}
