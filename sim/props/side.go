package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"runtime"
	"runtime/debug"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"

	"verifsim/kern"
	"verifsim/model"
	"verifsim/rng"
	"verifsim/rt"
	"verifsim/stream"
)

// sideEnd is how one of several goroutines ended.
type sideEnd struct {
	end End
	err error
}

// together runs functions as goroutines of one process. A process that is
// killed takes all of them with it.
func together(c *Ctx, budget int, plan []rt.Switch, every int, seed uint64, fns []func() error) (ends []sideEnd, end End, sched *rt.Sched) {
	ends = make([]sideEnd, len(fns))
	var list []func()
	for i, fn := range fns {
		list = append(list, func() {
			res := &ends[i]
			defer func() {
				switch r := recover().(type) {
				case nil:
				case rt.Crashed:
					res.end = End{Kind: "crashed"}
				case rt.StepLimit:
					res.end = End{Kind: "steps", What: "does not come to an end"}
				case rt.Deadlock:
					res.end = End{Kind: "deadlock"}
				case stream.Hang:
					res.end = End{Kind: "hang", What: "reads on and on after the end of its input"}
				case kern.Hang:
					res.end = End{Kind: "hang", What: r.What}
				case kern.Unsupported:
					c.Err = "the simulated kernel does not know: " + r.What
					res.end = End{Kind: "unsupported", What: r.What}
				default:
					res.end = End{Kind: "panic", What: fmt.Sprint(r), Stack: string(debug.Stack())}
				}
			}()
			res.end = End{Kind: "ok"}
			res.err = fn()
		})
	}
	end = c.Proc(budget, func() { sched = rt.Run(plan, every, seed, list) })
	if end.Kind == "ok" {
		c.Mix("schedule %v", sched.Trace)
		c.Fault("switch", len(sched.Trace))
	}
	return
}

func genSwitches(r *rng.R, n int) (plan []rt.Switch, every int) {
	gap := rng.Pick(r, 3, 10, 40, 200, 1000)
	at := 0
	for m := rng.Pick(r, 0, 1, 2, 3, 5, 10, 30); m > 0; m-- {
		if r.P(1, 4) {
			gap = rng.Pick(r, 3, 10, 40, 200, 1000, 5000)
		}
		at += 1 + r.N(gap)
		plan = append(plan, rt.Switch{At: at, To: r.N(n)})
	}
	if r.P(1, 2) || len(plan) == 0 {
		every = rng.Pick(r, 2, 3, 7, 20, 50, 100, 1000) + r.N(5)
	}
	return
}

func validSwitches(plan []rt.Switch, every int) bool {
	if every < 0 {
		return false
	}
	for _, s := range plan {
		if s.At < 0 || s.To < 0 {
			return false
		}
	}
	return true
}

// --- C19: signing side by side ---

// sideSlot is one output path.
type sideSlot struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // new, old, linked, symold, symnew
}

// sideTask is one goroutine: it signs a package to a slot, or reads a slot.
type sideTask struct {
	In   int       `json:"in"`
	Slot int       `json:"slot"` // -1: the input itself
	Sign signRound `json:"sign"` // Route "read": reads the slot
	Via  int       `json:"via,omitempty"`
}

type sideScenario struct {
	Specs    []model.Spec   `json:"specs"` // the inputs
	Old      model.Spec     `json:"old"`   // what slots hold that are not new
	Slots    []sideSlot     `json:"slots"`
	Tasks    []sideTask     `json:"tasks"`
	Plan     []rt.Switch    `json:"plan,omitempty"`
	Every    int            `json:"every,omitempty"`
	Attempts [][]kern.Fault `json:"attempts,omitempty"`
	Twin     bool           `json:"twin,omitempty"` // all draw the same random numbers
	Rand     uint64         `json:"rand"`
	built    [][]byte
}

func (s *sideSlot) final() string {
	if s.Kind == "symold" || s.Kind == "symnew" {
		return "/e/real-" + s.Name
	}
	return "/d/" + s.Name
}

func (s *sideSlot) empty() bool { return s.Kind == "new" || s.Kind == "symnew" }

func sideIn(i int) string { return fmt.Sprintf("/d/in%d.rpm", i) }

func (sc *sideScenario) world() *kern.Kernel {
	k := kern.New()
	k.PutDir("/d/w")
	k.PutDir("/e")
	k.PutFile("/d/w/bystander", []byte("keep me"))
	k.PutFile("/e/other", []byte("keep me too"))
	if sc.built == nil {
		sc.built = append(sc.built, sc.Old.Build().Raw)
		for i := range sc.Specs {
			sc.built = append(sc.built, sc.Specs[i].Build().Raw)
		}
	}
	old := sc.built[0]
	for i := range sc.Specs {
		k.PutFile(sideIn(i), sc.built[i+1])
	}
	for _, s := range sc.Slots {
		if !s.empty() {
			k.PutFile(s.final(), old)
		}
		switch s.Kind {
		case "linked":
			k.PutLink("/d/w/sibling-"+s.Name, "/d/"+s.Name)
		case "symold", "symnew":
			k.PutSymlink("/d/"+s.Name, "../e/real-"+s.Name)
		}
	}
	k.Chdir("/d/w")
	k.SyncAll()
	return k
}

// sideWatch looks at every moment of one attempt.
type sideWatch struct {
	sc     *sideScenario
	c      *Ctx
	k      *kern.Kernel
	ins    [][]byte
	was    [][]byte // of the slots
	id     []int
	good   []map[string]bool
	lo     int64
	before map[string]kern.Node
	read   [][]byte // what readers got
	inID   []int
	busy   []bool // inputs updated in place
}

func (w *sideWatch) paths(t *sideTask) string {
	if t.Slot < 0 {
		return sideIn(t.In)
	}
	n := w.sc.Slots[t.Slot].Name
	return []string{"/d/" + n, "../" + n, "/d/w/../" + n}[t.Via%3]
}

// whole says whether data is what the slot held or a package that one of the
// tasks is to put there.
func (w *sideWatch) whole(slot int, data []byte) (string, bool) {
	if w.was[slot] != nil && bytes.Equal(data, w.was[slot]) || w.good[slot][string(data)] {
		return "", true
	}
	why := "nobody writes there"
	for i := range w.sc.Tasks {
		t := &w.sc.Tasks[i]
		if t.Slot != slot || t.Sign.Route == "read" {
			continue
		}
		class, what := diffSigned(w.ins[t.In], data, &t.Sign, floorSec(w.lo), floorSec(w.k.Now))
		if class == "" {
			w.good[slot][string(data)] = true
			return "", true
		}
		why = what
	}
	return why, false
}

func (w *sideWatch) check(when string) {
	if w.c.Failed() {
		return
	}
	for s := range w.sc.Slots {
		f := w.sc.Slots[s].final()
		data, ok := w.k.ReadFile(f)
		if !ok {
			if w.was[s] != nil {
				w.c.Fail("gone", "%s %s is gone", when, f)
				return
			}
			if w.k.InodeOf(f, true) != 0 {
				w.c.Fail("partial", "%s %s is no file", when, f)
				return
			}
			continue
		}
		if why, ok := w.whole(s, data); !ok {
			w.c.Fail("partial", "%s %s holds %d bytes that are neither the old file nor a complete package of one of those who write it: %s", when, f, len(data), why)
			return
		}
	}
	for i := range w.ins {
		if data, _ := w.k.ReadFile(sideIn(i)); !w.busy[i] && !bytes.Equal(data, w.ins[i]) {
			w.c.Fail("input", "%s the input %s has changed", when, sideIn(i))
			return
		}
	}
}

func (sc *sideScenario) attempt(c *Ctx, k *kern.Kernel, faults []kern.Fault, skip map[int]bool, healthy bool) (calls int, trace []kern.Call) {
	w := &sideWatch{sc: sc, c: c, k: k, lo: k.Now, before: k.Snapshot("/", nil), read: make([][]byte, len(sc.Tasks))}
	for i := range sc.Specs {
		data, ok := k.ReadFile(sideIn(i))
		if !ok {
			c.Fail("input", "%s is gone", sideIn(i))
			return
		}
		w.ins = append(w.ins, data)
		w.busy = append(w.busy, false)
	}
	for s := range sc.Slots {
		data, ok := k.ReadFile(sc.Slots[s].final())
		if !ok {
			data = nil
		}
		w.was = append(w.was, data)
		w.id = append(w.id, k.InodeOf(sc.Slots[s].final(), true))
		w.good = append(w.good, map[string]bool{})
	}
	var fns []func() error
	var files []*os.File
	var which []int
	for i := range sc.Tasks {
		t := &sc.Tasks[i]
		if skip[i] {
			continue
		}
		out := w.paths(t)
		which = append(which, i)
		if t.Sign.Route == "read" {
			fns = append(fns, func() error {
				f, err := os.Open(out)
				if err != nil {
					return err
				}
				defer f.Close()
				data, err := io.ReadAll(f)
				if err != nil {
					return err
				}
				w.read[i] = data
				if _, err = f.Seek(0, 0); err != nil {
					return err
				}
				_, _, err = rpmutils.Verify(f, model.Ring(model.KeyNames...))
				return err
			})
			continue
		}
		if t.Slot < 0 {
			w.busy[t.In] = true
		}
		f, err := os.Open(sideIn(t.In))
		if err != nil {
			c.Err = "opening the input: " + err.Error()
			return
		}
		files = append(files, f)
		key := model.SigningKey(t.Sign.Key)
		opts := t.Sign.options()
		var pgp, rsa []byte
		if t.Sign.Route == "raw" {
			p, err := model.Parse(w.ins[t.In])
			if err != nil {
				c.Fail("unreadable", "the input, which the library made in an earlier step, is no package: %v", err)
				return
			}
			s := model.Sign{Key: t.Sign.Key, Hash: t.Sign.Hash, Time: t.Sign.Time}
			rsa = model.MakeSig(s, p.GenRaw)
			pgp = model.MakeSig(s, p.GenRaw, p.Payload)
		}
		fns = append(fns, func() error {
			if t.Sign.Route == "raw" {
				_, err := rpmutils.RewriteWithSignatures(f, out, pgp, rsa)
				return err
			}
			_, err := rpmutils.SignRpmFile(f, out, key, opts)
			return err
		})
	}
	budget := Budget
	for _, in := range w.ins {
		budget += Budget + 80*len(in)
	}
	rt.SameSeeds = sc.Twin
	defer func() { rt.SameSeeds = false }()
	k.Faults = faults
	k.HardFired, k.Crashed = 0, false
	k.OnMutate = func(mu kern.Mutation) {}
	k.AfterCall = func(string) { w.check("during signing") }
	keep, kt := k.KeepTrace, len(k.Trace)
	k.KeepTrace = true
	k.Arm()
	ends, end, _ := together(c, budget, sc.Plan, sc.Every, sc.Rand, fns)
	calls = k.Calls()
	hard := k.HardFired
	crashed := k.Crashed
	k.Disarm()
	k.OnMutate, k.AfterCall = nil, nil
	trace = append(trace, k.Trace[kt:]...)
	if !keep && !c.Keep {
		k.Trace = k.Trace[:kt]
	}
	k.KeepTrace = keep
	if c.Failed() {
		return
	}
	if !c.Healthy(end, "signing side by side") {
		return
	}
	if crashed {
		c.Probe("all killed")
		power := hasKind([][]kern.Fault{faults}, "power")
		for n := range ends {
			// what was written in place before the power failed is not safe
			// on disk, even where success was reported
			if t := &sc.Tasks[which[n]]; t.Slot < 0 && t.Sign.Route != "read" && (power || ends[n].end.Kind != "ok" || ends[n].err != nil) {
				skip[which[n]] = true
			}
		}
		if power {
			k.PowerLoss(sc.Rand)
			c.Probe("power lost")
		}
		k.Restart()
		w.check("after the crash")
		return
	}
	open := len(k.OpenFds())
	for _, f := range files {
		f.Close()
	}
	failed := 0
	for n := range ends {
		t := &sc.Tasks[which[n]]
		c.Mix("task %d %s %v", which[n], ends[n].end.Kind, ends[n].err)
		if !c.Healthy(ends[n].end, "signing, at the same time as others,") {
			return
		}
		err := ends[n].err
		if err != nil && t.Slot < 0 && t.Sign.Route != "read" {
			skip[which[n]] = true // perhaps written in part
		}
		if t.Sign.Route == "read" {
			c.Probe("read while it is written")
			if err != nil && errors.Is(err, fs.ErrNotExist) && w.was[t.Slot] == nil {
				continue
			}
			if data := w.read[which[n]]; data != nil {
				if why, ok := w.whole(t.Slot, data); !ok {
					c.Fail("torn", "a reader of %s got %d bytes that are neither the old file nor a complete package of one of those who write it: %s", w.paths(t), len(data), why)
					return
				}
			}
		} else if err == nil {
			c.Probe("signed beside others")
		}
		if err != nil {
			failed++
			if failed > hard {
				c.Fail("disturbed", "%d of %d goroutines failed, although only %d system calls did: %s %s says %v", failed, len(ends), hard, t.Sign.Route, w.paths(t), err)
				return
			}
		}
	}
	w.check("at the end")
	for s := range sc.Slots {
		f := sc.Slots[s].final()
		data, _ := k.ReadFile(f)
		done, tried := false, false
		for n := range ends {
			if t := &sc.Tasks[which[n]]; t.Slot == s && t.Sign.Route != "read" {
				tried = true
				if ends[n].err == nil {
					done = true
				}
			}
		}
		if !done {
			if id := k.InodeOf(f, true); id != w.id[s] || !bytes.Equal(data, w.was[s]) {
				c.Fail("replaced", "%s has changed although nobody reports to have signed to it", f)
				return
			}
			continue
		}
		_ = tried
		// one of those who reported success
		ok, why := false, ""
		for n := range ends {
			if t := &sc.Tasks[which[n]]; t.Slot == s && t.Sign.Route != "read" && ends[n].err == nil {
				if class, what := diffSigned(w.ins[t.In], data, &t.Sign, floorSec(w.lo), floorSec(k.Now)); class == "" {
					ok = true
				} else {
					why = what
				}
			}
		}
		if !ok {
			c.Fail("lost", "%s does not hold the package of anybody who reported to have signed to it: %s", f, why)
			return
		}
	}
	for n := range ends {
		if t := &sc.Tasks[which[n]]; t.Slot < 0 && t.Sign.Route != "read" && ends[n].err == nil {
			data, _ := k.ReadFile(sideIn(t.In))
			if class, what := diffSigned(w.ins[t.In], data, &t.Sign, floorSec(w.lo), floorSec(k.Now)); class != "" {
				c.Fail("lost", "%s, signed onto itself, is not as reported: %s", sideIn(t.In), what)
				return
			}
		}
	}
	if open != len(files) {
		c.Fail("open", "%d files are open, %d were given", open, len(files))
		return
	}
	moved(c, k, "signing")
	// nothing else has changed
	unclean := k.Fired["errno:unlink"] > 0
	now := k.Snapshot("/", nil)
	mine := map[string]bool{}
	for s := range sc.Slots {
		mine[strings.TrimPrefix(sc.Slots[s].final(), "/")] = true
	}
	for i, b := range w.busy {
		if b {
			mine[strings.TrimPrefix(sideIn(i), "/")] = true
		}
	}
	for _, p := range sortedKeys(w.before) {
		x, y := w.before[p], now[p]
		x.Nlink, y.Nlink = 0, 0
		if !mine[p] && x != y {
			c.Fail("changed", "%q was %v and is %v", p, x, y)
			return
		}
	}
	for _, p := range sortedKeys(now) {
		if _, ok := w.before[p]; !ok && !mine[p] && !unclean {
			c.Fail("left", "%q is left behind", p)
			return
		}
	}
	_ = healthy
	return
}

func runC19(sc *sideScenario, c *Ctx) {
	runtime.SimRand(true, sc.Rand)
	k := sc.world()
	start := k.Now
	k.Boot()
	defer k.Halt()
	c.Plain = len(sc.Tasks) < 2
	skip := map[int]bool{}
	for i := range sc.Tasks {
		t := &sc.Tasks[i]
		c.Probe("task " + t.Sign.Route)
		for j := range sc.Tasks[:i] {
			if u := &sc.Tasks[j]; t.Slot >= 0 && u.Slot == t.Slot && u.Sign.Route != "read" && t.Sign.Route != "read" {
				c.Probe("two sign to one path")
			}
		}
	}
	for _, faults := range append(append([][]kern.Fault{}, sc.Attempts...), nil) {
		sc.attempt(c, k, faults, skip, faults == nil)
		if c.Failed() {
			break
		}
		k.Restart()
		k.SyncAll()
	}
	c.Kernel(k, start)
}

func (sc *sideScenario) dry() ([]kern.Call, int) {
	c := &Ctx{}
	runtime.SimRand(true, sc.Rand)
	defer runtime.SimRand(false, 0)
	k := sc.world()
	k.Boot()
	defer k.Halt()
	calls, trace := sc.attempt(c, k, nil, map[int]bool{}, true)
	return trace, calls
}

func genSide(r *rng.R, deep bool) *sideScenario {
	sc := &sideScenario{Rand: r.U64() >> 12, Twin: r.P(1, 4)}
	n := rng.Pick(r, 2, 2, 2, 3, 3, 4)
	if deep {
		n = r.Range(2, 6)
	}
	small := func() model.Spec {
		s := genSignSpec(r)
		if s.Compressor == "xz" {
			s.Compressor = "gzip"
		}
		if r.P(2, 3) {
			s.PreSign = nil
		}
		return s
	}
	for i := rng.Pick(r, 1, 2, n); i > 0; i-- {
		sc.Specs = append(sc.Specs, small())
	}
	if r.P(1, 2) {
		sc.Specs[0].Reserved = rng.Pick(r, 1024, 4096, 700)
	}
	sc.Old = small()
	sc.Old.PreSign = []model.Sign{{Key: "alice", Time: 1_300_000_000}}
	names := []string{"out.rpm", "out.rpm1", "out", "a.rpm", "1", "out.rpm.tmp", "a"}
	rng.Shuffle(r, names)
	for i := rng.Pick(r, 1, 1, 2, n); i > 0; i-- {
		sc.Slots = append(sc.Slots, sideSlot{Name: names[i], Kind: rng.Pick(r, "new", "new", "old", "old", "linked", "symold", "symnew")})
	}
	lone := -1
	for i := 0; i < n; i++ {
		t := sideTask{In: r.N(len(sc.Specs)), Slot: r.N(len(sc.Slots)), Via: r.N(3), Sign: genRound(r, []string{"new"}, "file", "file", "file", "raw")}
		if i > 0 && r.P(1, 6) {
			t.Sign = signRound{Route: "read", Mode: "new", Key: "alice"}
		} else if i == 0 && r.P(1, 4) && len(sc.Specs) > 1 {
			t.Slot, lone = -1, t.In
		} else if lone >= 0 && t.In == lone {
			t.In = (lone + 1) % len(sc.Specs)
		}
		sc.Tasks = append(sc.Tasks, t)
	}
	sc.Plan, sc.Every = genSwitches(r, n)
	if r.P(2, 3) {
		trace, calls := sc.dry()
		for i := rng.Pick(r, 1, 1, 2); i > 0; i-- {
			sc.Attempts = append(sc.Attempts, genFaults(r, trace, calls, rng.Pick(r, 1, 1, 2), "err", "err", "full", "short", "eintr", "crash", "power"))
		}
	}
	return sc
}

func validSide(sc *sideScenario) bool {
	if len(sc.Tasks) == 0 || len(sc.Tasks) > 8 || len(sc.Specs) == 0 || len(sc.Slots) == 0 || !validSwitches(sc.Plan, sc.Every) || !validSpec(&sc.Old, true) {
		return false
	}
	if s := sc.Old.PreSign; len(s) != 1 || s[0].Key != "alice" || s[0].Hash != "" {
		return false
	}
	for i := range sc.Specs {
		if !validSpec(&sc.Specs[i], true) {
			return false
		}
	}
	seen := map[string]bool{}
	for _, s := range sc.Slots {
		switch s.Kind {
		case "new", "old", "linked", "symold", "symnew":
		default:
			return false
		}
		if s.Name == "" || path.Base(s.Name) != s.Name || s.Name == ".." || s.Name == "." || s.Name == "w" || strings.HasPrefix(s.Name, "in") || seen[s.Name] || len(s.Name) > 40 {
			return false
		}
		seen[s.Name] = true
	}
	for i := range sc.Tasks {
		t := &sc.Tasks[i]
		if t.In < 0 || t.In >= len(sc.Specs) || t.Slot < -1 || t.Slot >= len(sc.Slots) || t.Via < 0 {
			return false
		}
		if t.Sign.Route == "read" {
			if t.Slot < 0 {
				return false
			}
			continue
		}
		if t.Sign.Mode != "new" || t.Sign.Route != "file" && t.Sign.Route != "raw" || !t.Sign.valid() {
			return false
		}
		if t.Slot < 0 {
			for j := range sc.Tasks {
				if j != i && sc.Tasks[j].In == t.In && sc.Tasks[j].Sign.Route != "read" {
					return false
				}
			}
		}
	}
	for _, a := range sc.Attempts {
		if !validFaults(a) {
			return false
		}
	}
	return true
}

// --- C23: extracting side by side ---

// xsTask is one archive.
type xsTask struct {
	Files []model.Entry `json:"files,omitempty"`
	Spec  *model.Spec   `json:"spec,omitempty"`
	Plan  stream.Plan   `json:"plan"`
}

type xsScenario struct {
	Tasks    []xsTask       `json:"tasks"`
	Dest     string         `json:"dest"`
	NoDest   bool           `json:"no_dest,omitempty"`
	Umask    int            `json:"umask,omitempty"`
	Plan     []rt.Switch    `json:"plan,omitempty"`
	Every    int            `json:"every,omitempty"`
	Attempts [][]kern.Fault `json:"attempts,omitempty"`
	Rand     uint64         `json:"rand"`
}

func (t *xsTask) entries() []model.Entry {
	if t.Spec != nil {
		return t.Spec.PayloadFiles()
	}
	return t.Files
}

func (t *xsTask) raw() []byte {
	return (&exScenario{Files: t.Files, Spec: t.Spec}).raw()
}

func (sc *xsScenario) world() (*exScenario, *kern.Kernel) {
	ex := &exScenario{Dest: sc.Dest, NoDest: sc.NoDest, Umask: sc.Umask}
	k := kern.New()
	ex.world(k)
	return ex, k
}

// want is what the archives of the given tasks make of the destination.
func (sc *xsScenario) want(tasks func(i int) bool) (map[string]kern.Node, map[string]int) {
	want, grp := map[string]kern.Node{}, map[string]int{}
	for i := range sc.Tasks {
		if !tasks(i) {
			continue
		}
		w, g := wantTree(sc.Tasks[i].entries())
		for p, n := range w {
			want[p] = n
		}
		for p, n := range g {
			grp[p] = n + i*100_000
		}
	}
	return want, grp
}

func (sc *xsScenario) attempt(c *Ctx, k *kern.Kernel, faults []kern.Fault, last bool) (calls int, trace []kern.Call) {
	real := destReal[sc.Dest]
	outside := func() map[string]kern.Node {
		return k.Snapshot("/", func(abs string) bool { return abs == real })
	}
	before := outside()
	var fns []func() error
	var srcs []*stream.Source
	budget := Budget
	for i := range sc.Tasks {
		t := &sc.Tasks[i]
		raw := t.raw()
		budget += Budget + 80*len(raw)
		src := stream.New(raw, t.Plan)
		src.Yield = true
		srcs = append(srcs, src)
		fns = append(fns, func() error {
			if t.Spec == nil {
				return cpio.Extract(src, sc.Dest)
			}
			rpm, err := rpmutils.ReadRpm(src)
			if err != nil {
				return err
			}
			return rpm.ExpandPayload(sc.Dest)
		})
	}
	k.Faults = faults
	k.HardFired, k.Crashed = 0, false
	keep, kt := k.KeepTrace, len(k.Trace)
	k.KeepTrace = true
	k.Arm()
	ends, end, _ := together(c, budget, sc.Plan, sc.Every, sc.Rand, fns)
	calls = k.Calls()
	hard, crashed := k.HardFired, k.Crashed
	k.Disarm()
	trace = append(trace, k.Trace[kt:]...)
	if !keep && !c.Keep {
		k.Trace = k.Trace[:kt]
	}
	k.KeepTrace = keep
	for _, s := range srcs {
		c.Source(s)
	}
	if c.Failed() || !c.Healthy(end, "extracting side by side") {
		return
	}
	if crashed {
		c.Probe("all killed")
		k.Restart()
		return
	}
	failed := 0
	for i := range ends {
		c.Mix("task %d %s %v", i, ends[i].end.Kind, ends[i].err)
		if !c.Healthy(ends[i].end, "extraction, at the same time as others,") {
			return
		}
		if ends[i].err != nil {
			failed++
			if failed > hard {
				c.Fail("disturbed", "%d of %d extractions failed, although only %d system calls did: %v", failed, len(ends), hard, ends[i].err)
				return
			}
		} else {
			c.Probe("extracted beside others")
		}
	}
	got := k.Snapshot(real, nil)
	want, grp := sc.want(func(i int) bool { return ends[i].err == nil })
	might, _ := sc.want(func(int) bool { return true })
	only := map[string]kern.Node{}
	for p, n := range got {
		if _, ok := might[p]; !ok && failed == 0 {
			c.Fail("wrong-tree", "%q should not be there", p)
			return
		}
		if _, ok := want[p]; ok {
			only[p] = n
		}
	}
	if len(want) > 0 && (len(want) > 1 || k.Exists(real)) {
		if d := diffWant(only, want, grp); d != "" {
			c.Fail("wrong-tree", "%d of %d extractions into %s report success, but: %s", len(ends)-failed, len(ends), real, d)
			return
		}
	}
	if d := diffNodes(before, outside(), func(p string) bool { return sc.NoDest && strings.HasPrefix(real, "/"+p) }); d != "" {
		c.Fail("outside", "extractions into %s changed the world around it: %s", real, d)
		return
	}
	if open := k.OpenFds(); len(open) > 0 {
		c.Fail("open", "%v are still open", open)
	}
	moved(c, k, "extraction")
	if !last || len(sc.Attempts) > 0 || c.Failed() {
		return
	}
	// the same one after the other
	ex, l := sc.world()
	l.Boot()
	defer k.Boot()
	for i := range sc.Tasks {
		t := &sc.Tasks[i]
		one := &exScenario{Kind: "cpio", Files: t.Files, Spec: t.Spec, Dest: sc.Dest, NoDest: ex.NoDest}
		if t.Spec != nil {
			one.Kind = "rpm"
		}
		if res := one.attempt(c, l, t.raw(), nil, false); c.Err != "" || res.end.Kind != "ok" || res.err != nil {
			c.Fail("alone", "extraction alone: %s %v", res.end.Kind, res.err)
			return
		}
	}
	want = l.Snapshot(real, nil)
	for _, p := range sortedKeys(want) {
		if x, y := want[p], got[p]; x.Kind != "dir" && x.Perm != y.Perm {
			c.Fail("mode", "%q has mode %03o, and %03o when the archives are extracted one after the other", p, y.Perm, x.Perm)
			return
		}
	}
	return
}

func runC23(sc *xsScenario, c *Ctx) {
	runtime.SimRand(true, sc.Rand)
	_, k := sc.world()
	start := k.Now
	k.Boot()
	defer k.Halt()
	c.Plain = len(sc.Tasks) < 2
	if sc.NoDest {
		c.Probe("destination did not exist")
	}
	seen := map[string]bool{}
	for i := range sc.Tasks {
		mine := map[string]bool{}
		w, _ := wantTree(sc.Tasks[i].entries())
		for p, n := range w {
			if n.Kind == "dir" && p != "." {
				mine[p] = true
			}
		}
		for p := range mine {
			if seen[p] {
				c.Probe("a directory in two archives")
				break
			}
		}
		for p := range mine {
			seen[p] = true
		}
	}
	for _, faults := range append(append([][]kern.Fault{}, sc.Attempts...), nil) {
		sc.attempt(c, k, faults, faults == nil)
		if c.Failed() {
			break
		}
		k.Restart()
	}
	c.Kernel(k, start)
}

func (sc *xsScenario) dry() ([]kern.Call, int) {
	c := &Ctx{}
	runtime.SimRand(true, sc.Rand)
	defer runtime.SimRand(false, 0)
	_, k := sc.world()
	k.Boot()
	defer k.Halt()
	calls, trace := sc.attempt(c, k, nil, true)
	return trace, calls
}

func genXs(r *rng.R, deep bool) *xsScenario {
	sc := &xsScenario{Rand: r.U64() >> 12, Umask: rng.Pick(r, 022, 022, 077, 0), Dest: rng.Of(r, destSpellings), NoDest: r.P(1, 2)}
	if sc.Dest == "/" || sc.Dest == ".." {
		sc.Dest = "/d/out"
	}
	switch sc.Dest {
	case ".", "", "/d/lnk":
		sc.NoDest = false
	}
	n := rng.Pick(r, 2, 2, 2, 3, 4)
	if deep {
		n = r.Range(2, 6)
	}
	o := archOpts{Max: rng.Pick(r, 6, 12, 20), Links: true, Special: true, Symlink: true}
	o.Abs = r.P(1, 2)
	o.Prefix = !o.Abs
	all := genEntries(r, o)
	g := groups(all)
	parts := make([][]model.Entry, n)
	to := map[int]int{}
	for i, e := range all {
		if e.Mode&model.Type == model.Dir {
			for j := range parts {
				if r.P(1, 2) {
					parts[j] = append(parts[j], e)
				}
			}
			continue
		}
		j, ok := to[g[i]]
		if !ok {
			j = r.N(n)
			to[g[i]] = j
		}
		parts[j] = append(parts[j], e)
	}
	same := r.P(1, 2) // the numbers of files mean something in one archive only
	for j := range parts {
		if same {
			g := groups(parts[j])
			for i := range parts[j] {
				parts[j][i].Ino, parts[j][i].Dev = 11+g[i], 1
			}
		}
		t := xsTask{Plan: genPlan(r, 3000)}
		if r.P(1, 2) {
			t.Plan = stream.Plan{}
		}
		if o.Abs && r.P(2, 3) {
			s := genSpec(r, specOpts{Files: archOpts{Max: 1}, Comp: []string{"gzip", "uncompressed", "-gzip", "bzip2"}})
			s.Files, s.Order, s.Lacks, s.NoInodes, s.Bare, s.Stripped = parts[j], nil, 0, false, false, false
			if validSpec(&s, false) {
				t.Spec = &s
			}
		}
		if t.Spec == nil {
			t.Files = parts[j]
		}
		sc.Tasks = append(sc.Tasks, t)
	}
	sc.Plan, sc.Every = genSwitches(r, n)
	if r.P(1, 2) {
		trace, calls := sc.dry()
		for i := rng.Pick(r, 1, 1, 2); i > 0; i-- {
			sc.Attempts = append(sc.Attempts, genFaults(r, trace, calls, rng.Pick(r, 1, 1, 2), "err", "err", "full", "short", "eintr", "crash"))
		}
	}
	return sc
}

func validXs(sc *xsScenario) bool {
	if len(sc.Tasks) == 0 || len(sc.Tasks) > 8 || !validSwitches(sc.Plan, sc.Every) || sc.Dest == "/" || sc.Dest == ".." || hasKind(sc.Attempts, "power") {
		return false
	}
	ex := &exScenario{Kind: "cpio", Dest: sc.Dest, NoDest: sc.NoDest, Umask: sc.Umask, Attempts: sc.Attempts}
	if !ex.valid(false) {
		return false
	}
	kind := map[string]bool{} // path -> directory
	for i := range sc.Tasks {
		t := &sc.Tasks[i]
		if !validPlan(&t.Plan) || t.Plan.Cut != 0 {
			return false
		}
		if t.Spec != nil {
			if t.Files != nil || t.Spec.Stripped || !validSpec(t.Spec, false) {
				return false
			}
		} else if !validEntries(t.Files, false) {
			return false
		}
		if len(t.entries()) >= 100_000 {
			return false
		}
		w, _ := wantTree(t.entries())
		for p, n := range w {
			dir, there := kind[p]
			if there && !(dir && n.Kind == "dir") {
				return false
			}
			kind[p] = n.Kind == "dir"
		}
	}
	return true
}

func init() {
	register(&Property{
		ID:    "C19",
		New:   func() any { return &sideScenario{} },
		Gen:   func(r *rng.R, deep bool) any { return genSide(r, deep) },
		Run:   func(sc any, c *Ctx) { runC19(sc.(*sideScenario), c) },
		Valid: func(sc any) bool { return validSide(sc.(*sideScenario)) },
	})
	register(&Property{
		ID:    "C23",
		New:   func() any { return &xsScenario{} },
		Gen:   func(r *rng.R, deep bool) any { return genXs(r, deep) },
		Run:   func(sc any, c *Ctx) { runC23(sc.(*xsScenario), c) },
		Valid: func(sc any) bool { return validXs(sc.(*xsScenario)) },
	})
}
