package props

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"

	"verifsim/kern"
	"verifsim/model"
	"verifsim/rng"
	"verifsim/rt"
	"verifsim/stream"
)

// concScenario is a number of goroutines using the library at the same time.
type concScenario struct {
	Shared *model.Spec `json:"shared,omitempty"` // the package whose header they share
	Tasks  []concTask  `json:"tasks"`
	Plan   []rt.Switch `json:"plan,omitempty"`
	Every  int         `json:"every,omitempty"`
	Ring   []string    `json:"ring,omitempty"`
	Opts   string      `json:"opts,omitempty"` // the options that all who sign share: zero, hash or both
	Rand   uint64      `json:"rand"`
}

// concTask is what one goroutine does: an operation of its own, or reading the
// shared header (numbers of accessors, in turn), or the shared payload.
type concTask struct {
	Op     *opScenario `json:"op,omitempty"`
	Access []int       `json:"access,omitempty"`
	Iter   bool        `json:"iter,omitempty"`
	Pat    []int       `json:"pat,omitempty"`
}

type access struct {
	name string
	get  func(h *rpmutils.RpmHeader) func() string
}

func said(v any, err error) func() string {
	return func() string {
		if err != nil {
			return "error " + err.Error()
		}
		return fmt.Sprintf("%#v", v)
	}
}

var accessors = func() (l []access) {
	add := func(name string, get func(h *rpmutils.RpmHeader) func() string) {
		l = append(l, access{name, get})
	}
	add("files", func(h *rpmutils.RpmHeader) func() string {
		fs, err := h.GetFiles()
		return func() string {
			var sb strings.Builder
			fmt.Fprintln(&sb, len(fs), err)
			for _, f := range fs {
				fmt.Fprintln(&sb, fileView(f))
			}
			return sb.String()
		}
	})
	add("nevra", func(h *rpmutils.RpmHeader) func() string {
		n, err := h.GetNEVRA()
		if err != nil {
			return said(nil, err)
		}
		s := n.String()
		return func() string { return fmt.Sprint(*n, s) }
	})
	add("installed size", func(h *rpmutils.RpmHeader) func() string { return said(h.InstalledSize()) })
	add("payload size", func(h *rpmutils.RpmHeader) func() string { return said(h.PayloadSize()) })
	add("source", func(h *rpmutils.RpmHeader) func() string { return said(h.IsSource(), nil) })
	add("range", func(h *rpmutils.RpmHeader) func() string { return said(h.GetRange(), nil) })
	add("signature size", func(h *rpmutils.RpmHeader) func() string { return said(h.OriginalSignatureHeaderSize(), nil) })
	for _, t := range []int{1000, 1001, 1002, 1003, 1004, 1005, 1007, 1009, 1021, 1022, 1028, 1030, 1033, 1034, 1036, 1037, 1039, 1040, 1044, 1095, 1096, 1097, 1106, 1116, 1117, 1118, 1124,
		1125, 1126, 5008, 5009, 5092, 267, 268, 269, 273, 16384 + 1000, 16384 + 1002, 16384 + 1005, 16384 + 1008} {
		n := fmt.Sprint("tag ", t)
		add(n+" get", func(h *rpmutils.RpmHeader) func() string { return said(h.Get(t)) })
		add(n+" has", func(h *rpmutils.RpmHeader) func() string { return said(h.HasTag(t), nil) })
		add(n+" string", func(h *rpmutils.RpmHeader) func() string { return said(h.GetString(t)) })
		add(n+" strings", func(h *rpmutils.RpmHeader) func() string { return said(h.GetStrings(t)) })
		add(n+" int", func(h *rpmutils.RpmHeader) func() string { return said(h.GetInt(t)) })
		add(n+" ints", func(h *rpmutils.RpmHeader) func() string { return said(h.GetInts(t)) })
		add(n+" uint32s", func(h *rpmutils.RpmHeader) func() string { return said(h.GetUint32s(t)) })
		add(n+" uint64s", func(h *rpmutils.RpmHeader) func() string { return said(h.GetUint64s(t)) })
		add(n+" uint64 fallback", func(h *rpmutils.RpmHeader) func() string { return said(h.GetUint64Fallback(t, 5009)) })
		add(n+" bytes", func(h *rpmutils.RpmHeader) func() string { return said(h.GetBytes(t)) })
	}
	return
}()

// stage is one execution: all tasks together, or one of them alone.
type stage struct {
	sc    *concScenario
	k     *kern.Kernel
	rpm   *rpmutils.Rpm
	raws  [][]byte
	bad   string
	start int64
	opts  *rpmutils.SignatureOptions
}

func (sc *concScenario) stage(c *Ctx, raws [][]byte, shared []byte) *stage {
	s := &stage{sc: sc, raws: raws}
	if sc.Opts != "" {
		s.opts = (&signRound{Opts: sc.Opts, Hash: "sha512", Time: 1_400_000_000}).options()
	}
	runtime.SimRand(true, sc.Rand)
	k := kern.New()
	s.k, s.start = k, k.Now
	for i, t := range sc.Tasks {
		if t.Op == nil {
			continue
		}
		k.PutDir(fmt.Sprintf("/t%d/out", i))
		if t.Op.FromFile {
			k.PutFile(fmt.Sprintf("/t%d/in", i), raws[i])
		}
	}
	k.SyncAll()
	k.Boot()
	// a clock that stands still, and needs no lock
	time.SimNow = func() (int64, int64) { return 1_500_000_000, 0 }
	if shared != nil {
		rpm, err := rpmutils.ReadRpm(stream.New(shared, stream.Plan{}))
		if err != nil {
			s.bad = err.Error()
		}
		s.rpm = rpm
	}
	return s
}

// task prepares a task: what is returned runs it.
func (s *stage) task(c *Ctx, i int) (func(), *opResult) {
	t := &s.sc.Tasks[i]
	res := &opResult{end: End{Kind: "ok"}}
	body := func() {
		for _, a := range t.Access {
			a := &accessors[a%len(accessors)]
			got := a.get(s.rpm.Header)
			res.events = append(res.events, event{say: func() string { return a.name + ": " + got() }})
		}
	}
	switch {
	case t.Iter:
		body = func() {
			p, err := s.rpm.PayloadReaderExtended()
			if err != nil {
				res.err = err
				return
			}
			sc := &opScenario{Pat: t.Pat, lazy: true}
			sc.iterate(payloadIter(p), res)
		}
	case t.Op != nil:
		sc := t.Op
		sc.lazy = true
		src := stream.New(s.raws[i], sc.Plan)
		src.Yield = true
		e := &surroundings{in: src, src: src, dir: fmt.Sprintf("/t%d", i), ring: model.Ring(s.sc.Ring...), key: model.SigningKey("alice")}
		res.src = src
		e.opts = s.opts
		if sc.NoRing {
			e.ring = nil
		}
		if sc.Round.Key != "" {
			e.key = model.SigningKey(sc.Round.Key)
		}
		if sc.Op == "raw" {
			sg := model.Sign{Key: "bob", Time: 5}
			e.pgp, e.rsa = model.MakeSig(sg, []byte("whatever")), model.MakeSig(sg, []byte("header"))
		}
		if sc.FromFile {
			f, err := os.Open(e.dir + "/in")
			if err != nil {
				c.Err = err.Error()
			}
			e.file, e.in = f, f
		}
		body = func() {
			sc.perform(res, e)
			if e.file != nil {
				e.file.Close()
			}
		}
	}
	return func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case rt.StepLimit:
				res.end = End{Kind: "steps", What: "does not come to an end"}
			case rt.Deadlock:
				res.end = End{Kind: "deadlock"}
			case stream.Hang:
				res.end = End{Kind: "hang", What: "reads on and on after the end of its input"}
			case kern.Hang:
				res.end = End{Kind: "hang", What: r.What}
			case kern.Unsupported:
				res.end = End{Kind: "unsupported", What: r.What}
			default:
				res.end = End{Kind: "panic", What: fmt.Sprint(r), Stack: string(debug.Stack())}
			}
		}()
		body()
	}, res
}

// close puts results into words.
func (s *stage) close(c *Ctx, results []*opResult, list []int) {
	for n, i := range list {
		res := results[n]
		for j := range res.events {
			res.events[j].settle()
		}
		if res.end.Kind == "unsupported" {
			c.Err = "the simulated kernel does not know: " + res.end.What
		}
		if op := s.sc.Tasks[i].Op; op != nil {
			if res.hdr != nil {
				func() {
					defer func() {
						if r := recover(); r != nil {
							res.events = append(res.events, event{What: fmt.Sprint("panic ", r)})
						}
					}()
					res.events = append(res.events, describe(res.hdr, false)...)
				}()
			}
			res.out, _ = s.k.ReadFile(fmt.Sprintf("/t%d/out/signed.rpm", i))
			if op.Op == "expand" || op.Op == "extract" {
				res.tree = s.k.Snapshot(fmt.Sprintf("/t%d/out", i), nil)
			}
		}
	}
	s.k.Halt()
}

func (t *concTask) what() string {
	switch {
	case t.Iter:
		return "iterating over the shared package"
	case t.Op != nil:
		return t.Op.Op
	}
	return "reading the shared header"
}

func runC17(sc *concScenario, c *Ctx) {
	c.Plain = len(sc.Tasks) < 2
	var shared []byte
	if sc.Shared != nil {
		shared = sc.Shared.Build().Raw
	}
	raws := make([][]byte, len(sc.Tasks))
	budget := Budget
	for i := range sc.Tasks {
		if op := sc.Tasks[i].Op; op != nil {
			raws[i], _ = op.input()
			budget += Budget + 80*len(raws[i])
		}
	}
	races := rt.RaceErrors()
	st := sc.stage(c, raws, shared)
	if st.bad != "" {
		c.Fail("refused", "an intact package is rejected: %s", st.bad)
		return
	}
	var fns []func()
	var got []*opResult
	var all []int
	for i := range sc.Tasks {
		fn, res := st.task(c, i)
		fns, got, all = append(fns, fn), append(got, res), append(all, i)
	}
	var sched *rt.Sched
	end := c.Proc(budget, func() { sched = rt.Run(sc.Plan, sc.Every, sc.Rand, fns) })
	races = rt.RaceErrors() - races
	st.close(c, got, all)
	c.Kernel(st.k, st.start)
	if c.Failed() {
		return
	}
	if end.Kind != "ok" {
		c.Fail("hang", "the goroutines do not come to an end: %s %s", end.Kind, end.What)
		return
	}
	c.Mix("schedule %v", sched.Trace)
	c.Fault("switch", len(sched.Trace))
	for i, r := range got {
		if r.src != nil {
			c.Source(r.src)
		}
		c.Mix("task %d %s err=%v events=%d eof=%v", i, r.end.Kind, r.err, len(r.events), r.eof)
		c.Probe("task " + sc.Tasks[i].what())
	}
	if races > 0 {
		c.Fail("race", "%d data races while these ran at the same time: %s", races, sc.names())
		return
	}
	for i := range sc.Tasks {
		r := got[i]
		st := sc.stage(c, raws, shared)
		if st.bad != "" {
			c.Fail("refused", "an intact package is rejected after concurrent use: %s", st.bad)
			return
		}
		fn, want := st.task(c, i)
		runtime.SimRand(true, rt.TaskSeed(sc.Rand, i))
		c.Proc(budget, fn)
		st.close(c, []*opResult{want}, []int{i})
		if c.Failed() {
			return
		}
		if want.end.Kind != "ok" {
			if want.end.Kind == r.end.Kind {
				continue // a matter of C03
			}
		}
		d := sameResult(want, r)
		if op := sc.Tasks[i].Op; d == "" && op != nil && (op.Op == "raw" || op.Op == "file") && !bytes.Equal(want.out, r.out) {
			d = "writes another output"
		}
		if d != "" {
			c.Fail("interference", "%s, at the same time as others (%s), %s", sc.Tasks[i].what(), sc.names(), d)
			return
		}
	}
}

func (sc *concScenario) names() string {
	var l []string
	for i := range sc.Tasks {
		l = append(l, sc.Tasks[i].what())
	}
	return strings.Join(l, ", ")
}

func genConc(r *rng.R, deep bool) *concScenario {
	sc := &concScenario{Rand: r.U64() >> 12}
	n := rng.Pick(r, 2, 2, 2, 3, 3, 4)
	if r.P(2, 3) {
		s := genSpec(r, specOpts{Files: archOpts{Max: rng.Pick(r, 1, 3, 9), Links: true, Special: true, Symlink: true, Prefix: true}, Signed: true, Digest: true})
		sc.Shared = &s
	}
	if r.P(3, 4) {
		sc.Ring = []string{"alice", "bob", "carol", "dave", "mallory"}
	} else {
		sc.Ring = []string{rng.Of(r, model.KeyNames)}
	}
	same := r.P(1, 3) // the same thing in every goroutine
	for i := 0; i < n; i++ {
		if same && i > 0 && !sc.Tasks[0].Iter {
			t := All["C17"].Clone(&concScenario{Tasks: sc.Tasks[:1]}).(*concScenario).Tasks[0]
			sc.Tasks = append(sc.Tasks, t)
			continue
		}
		t := concTask{}
		switch {
		case sc.Shared != nil && r.P(1, 2):
			if i == 0 && r.P(1, 5) {
				t.Iter, t.Pat = true, genPat(r)
				break
			}
			for m := rng.Pick(r, 1, 2, 5, 20); m > 0; m-- {
				t.Access = append(t.Access, rng.Pick(r, r.N(7), r.N(7), r.N(len(accessors))))
			}
		default:
			ops := append(append([]string{}, rpmOps...), cpioOps...)
			if r.P(1, 2) {
				ops = []string{"header", "rpm", "verify", "verify", "sign", "sign", "iter", "cpio"}
			}
			op := genOp(r, ops, false)
			op.Ring, op.Quit = nil, 0
			if op.Spec != nil && r.P(1, 4) && sc.Shared != nil && (!sc.Shared.Stripped || op.Op != "iterold" && op.Op != "expand") {
				// the same package as the shared one, from a stream of its own
				op.Spec = sc.Shared
			}
			if r.P(1, 3) {
				op.Plan = genPlan(r, 3000)
			}
			if r.P(1, 8) {
				op.Muts = append(op.Muts, genMut(r, op.Op))
			}
			op.FromFile = !rt.Race && r.P(1, 4)
			op.fix()
			t.Op = op
		}
		sc.Tasks = append(sc.Tasks, t)
	}
	if r.P(1, 2) {
		sc.Opts = rng.Pick(r, "zero", "hash", "both")
	}
	gap := rng.Pick(r, 3, 10, 40, 200, 1000, 5000, 20000)
	at := 0
	for m := rng.Pick(r, 0, 1, 2, 3, 5, 10, 30); m > 0; m-- {
		if r.P(1, 4) {
			gap = rng.Pick(r, 3, 10, 40, 200, 1000, 5000, 20000)
		}
		at += 1 + r.N(gap)
		sc.Plan = append(sc.Plan, rt.Switch{At: at, To: r.N(n)})
	}
	if r.P(1, 3) || len(sc.Plan) == 0 {
		sc.Every = rng.Pick(r, 2, 3, 7, 20, 100, 1000) + r.N(5)
	}
	return sc
}

func validConc(sc *concScenario) bool {
	if len(sc.Tasks) == 0 || len(sc.Tasks) > 8 || sc.Every < 0 {
		return false
	}
	switch sc.Opts {
	case "", "zero", "hash", "both":
	default:
		return false
	}
	if sc.Shared != nil && (!validSpec(sc.Shared, true) || total(&iterScenario{Files: sc.Shared.Files}) > 1<<24) {
		return false
	}
	for i := range sc.Tasks {
		t := &sc.Tasks[i]
		if t.Op != nil {
			if t.Iter || t.Access != nil || t.Op.Faults != nil || t.Op.Ring != nil || t.Op.ReadCap != nil || !t.Op.valid(append(append([]string{}, rpmOps...), cpioOps...)) {
				return false
			}
			if (t.Op.Op == "file" || t.Op.Op == "raw") && !t.Op.FromFile {
				return false
			}
			continue
		}
		if sc.Shared == nil || t.Iter && (i > 0 || t.Access != nil) {
			return false
		}
		for _, a := range t.Access {
			if a < 0 {
				return false
			}
		}
		for _, n := range t.Pat {
			if n < -1<<20 || n > 1<<20 {
				return false
			}
		}
	}
	for _, s := range sc.Plan {
		if s.At < 0 || s.To < 0 {
			return false
		}
	}
	for _, n := range sc.Ring {
		if model.Keys[n] == nil {
			return false
		}
	}
	return true
}

func init() {
	register(&Property{
		ID:    "C17",
		Fresh: true,
		New:   func() any { return &concScenario{} },
		Gen:   func(r *rng.R, deep bool) any { return genConc(r, deep) },
		Run:   func(sc any, c *Ctx) { runC17(sc.(*concScenario), c) },
		Valid: func(sc any) bool { return validConc(sc.(*concScenario)) },
	})
}
