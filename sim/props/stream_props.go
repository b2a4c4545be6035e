package props

import (
	"bytes"
	"compress/bzip2"
	"compress/gzip"
	"fmt"
	"io"
	"strings"

	"github.com/klauspost/compress/zstd"
	"github.com/ulikunitz/xz"
	"github.com/ulikunitz/xz/lzma"

	"verifsim/kern"
	"verifsim/model"
	"verifsim/rng"
	"verifsim/stream"
)

// runC01 performs the operation on plainly delivered bytes and on the planned
// delivery, and compares everything that can be seen.
func runC01(sc *opScenario, c *Ctx) {
	raw, pkg := sc.input()
	a := sc.run(c, raw, stream.Plan{}, false, nil, false)
	if c.Failed() {
		return
	}
	b := sc.run(c, raw, sc.Plan, sc.FromFile, sc.Faults, false)
	c.Plain = plainPlan(sc.Plan) && len(sc.ReadCap) == 0 && len(sc.Faults) == 0
	c.Probe("op " + sc.Op)
	for _, r := range []*opResult{a, b} {
		if r.end.Kind == "panic" || r.end.Kind == "steps" || r.end.Kind == "hang" {
			// a matter of C03, unless it happens on sound input or only once
			if len(sc.Muts) == 0 || a.end.Kind != b.end.Kind {
				c.Healthy(r.end, sc.Op)
			}
			return
		}
	}
	if a.err == nil {
		c.Probe("accepted")
	} else {
		c.Probe("rejected")
	}
	d := sameResult(a, b)
	if sc.Spec != nil && sc.Spec.Compressor == "zstd" && (a.err != nil || b.err != nil) && len(sc.Muts) > 0 {
		// how much of a corrupt frame comes out before the error is up to the
		// decoder's blocks, and what comes after the trailer (the checksum of
		// the frame) may not be asked for
		d = samePrefix(a, b)
	}
	if d != "" {
		c.Fail("delivery", "%s %s when its input is delivered differently", sc.Op, d)
		return
	}
	if len(sc.Muts) == 0 && a.err != nil && sc.mustVerify() {
		c.Fail("refused", "%s rejects an intact input: %v", sc.Op, a.err)
		return
	}
	if a.err != nil || pkg == nil {
		return
	}
	for i, r := range []*opResult{a, b} {
		how := "plainly delivered"
		if i == 1 {
			how = "differently delivered"
		}
		switch sc.Op {
		case "header", "rpm":
			q, err := model.Parse(raw)
			if err != nil {
				break
			}
			if want := int64(len(raw) - len(q.Payload)); r.pos != want {
				c.Fail("consumed", "%s of a %s package left the stream at %d, the payload starts at %d", sc.Op, how, r.pos, want)
			}
		case "verify", "sign":
			if r.pos != int64(len(raw)) {
				c.Fail("consumed", "%s of a %s package consumed %d of %d bytes", sc.Op, how, r.pos, len(raw))
			}
		}
	}
}

// samePrefix compares what two failing runs handed out.
func samePrefix(a, b *opResult) string {
	for i := 0; i < len(a.events) && i < len(b.events); i++ {
		x, y := a.events[i], b.events[i]
		if x.What != y.What {
			return fmt.Sprintf("gives %q instead of %q", y.What, x.What)
		}
		if n := min(len(x.Data), len(y.Data)); !bytes.Equal(x.Data[:n], y.Data[:n]) {
			return fmt.Sprintf("gives other contents of %q", x.What)
		}
	}
	for _, p := range sortedKeys(a.tree) {
		x := a.tree[p]
		if y, ok := b.tree[p]; ok && (x.Kind != y.Kind || x.Target != y.Target || !strings.HasPrefix(x.Data, y.Data) && !strings.HasPrefix(y.Data, x.Data)) {
			return fmt.Sprintf("makes another %q", p)
		}
	}
	return ""
}

// mustVerify says whether an intact input cannot be rejected.
func (sc *opScenario) mustVerify() bool {
	return sc.Op != "verify" || sc.NoRing
}

// decodes reports whether the decompressor can get n bytes of the archive out
// of a prefix of the payload.
func decodes(comp string, prefix []byte, n int64) bool {
	var r io.Reader
	var err error
	in := bytes.NewReader(prefix)
	switch strings.TrimPrefix(comp, "-") {
	case "gzip":
		r, err = gzip.NewReader(in)
	case "bzip2":
		r = bzip2.NewReader(in)
	case "lzma":
		r, err = lzma.NewReader(in)
	case "xz":
		r, err = xz.NewReader(in)
	case "zstd":
		var d *zstd.Decoder
		if d, err = zstd.NewReader(in, zstd.WithDecoderConcurrency(1)); err == nil {
			defer d.Close()
			r = d
		}
	default:
		r = in
	}
	if err != nil {
		return false
	}
	m, _ := io.Copy(io.Discard, io.LimitReader(r, n))
	return m >= n
}

// slack is how much of a compressed stream's end (its checksum) a decoder may
// leave unread.
func slack(comp string) int64 {
	if comp == "zstd" {
		return 8
	}
	return 0
}

// runC02 compares an operation on a source that ends or fails early with the
// one on the intact source.
func runC02(sc *opScenario, c *Ctx) {
	intact := *sc
	intact.Muts = nil
	intact.Pat = nil // everything is read
	raw, pkg := intact.input()
	plan := sc.Plan
	plan.Cut = 0
	plan.CutKind = ""
	a := intact.run(c, raw, plan, false, nil, false)
	if c.Failed() {
		return
	}
	if a.end.Kind != "ok" || a.err != nil {
		c.Healthy(a.end, sc.Op)
		c.Fail("refused", "%s fails on the intact input: %v", sc.Op, a.err)
		return
	}
	arch := archiveOf(&intact)
	in, _ := sc.input() // possibly with a cut archive
	cutArch := !bytes.Equal(in, raw)
	if (sc.Op == "header" || sc.Op == "rpm" || sc.Op == "verify" || sc.Op == "sign" || sc.Op == "file") && cutArch {
		return // such a package is intact for these
	}
	if sc.Op == "file" && sc.Plan.Cut > 0 {
		// a file that is too short
		in = raw[:min(len(raw), sc.Plan.Cut-1)]
	}
	b := sc.run(c, in, sc.Plan, sc.FromFile, nil, false)
	c.Probe("op " + sc.Op)
	if !c.Healthy(b.end, sc.Op+" of a source that ends early") {
		return
	}
	// must it fail?
	must := ""
	cut := int64(sc.Plan.Cut - 1)
	payOff := int64(0)
	if pkg != nil {
		payOff = int64(pkg.PayOff)
	}
	failing := sc.Plan.CutKind != "eof" && sc.Plan.CutKind != ""
	if sc.Plan.Cut > 0 && cut <= int64(len(in)) {
		switch sc.Op {
		case "header", "rpm":
			if cut < payOff {
				must = "the headers are incomplete"
			}
		case "verify", "sign", "file":
			if cut < int64(len(in)) || failing && sc.Op != "file" && sc.Plan.CutKind != "once" {
				must = "not all bytes could be read"
			}
		case "cpio", "cpiosizes", "extract":
			if cut < arch.TrailerEnd {
				must = "the archive is incomplete"
			}
		default:
			comp := sc.Spec.Compressor
			switch {
			case cut < payOff:
				must = "the headers are incomplete"
			case !decodes(comp, in[payOff:min(cut+slack(comp), int64(len(in)))], arch.TrailerEnd):
				must = "the payload is incomplete"
			}
		}
	}
	if cutArch {
		must = "the archive inside of the payload is incomplete"
	}
	c.Plain = must == ""
	if b.err != nil {
		c.Probe("reported")
	} else {
		c.Probe("complete")
	}
	once := sc.Plan.CutKind == "once"
	if must != "" && b.err == nil {
		c.Fail("completed", "%s reports completion although %s (%s after %d of %d bytes)", sc.Op, must, sc.Plan.CutKind, cut, len(in))
		return
	}
	if must != "" && b.eof {
		c.Fail("completed", "%s reports the end of the archive although %s", sc.Op, must)
		return
	}
	if !once && b.err != nil && must != "" {
		for _, s := range b.again {
			if s == "eof" {
				c.Fail("completed", "%s reports the end of the archive when Next is called again after the error %v", sc.Op, b.err)
				return
			}
		}
	}
	switch sc.Op {
	case "iter", "iterold", "cpio", "cpiosizes":
		for i, e := range b.events {
			if i >= len(a.events) {
				c.Fail("invented", "%s gives %q, which is not there", sc.Op, e.What)
				return
			}
			w := a.events[i]
			if e.What != w.What {
				c.Fail("invented", "%s gives %q where %q is", sc.Op, e.What, w.What)
				return
			}
			if !bytes.HasPrefix(w.Data, e.Data) {
				c.Fail("invented", "%s gives other contents of %q than the input holds", sc.Op, e.What)
				return
			}
			if e.Done && len(e.Data) < len(w.Data) {
				c.Fail("short-entry", "%s reports the end of %q after %d of %d bytes", sc.Op, e.What, len(e.Data), len(w.Data))
				return
			}
		}
		if b.err == nil && (!b.eof || len(b.events) != len(a.events)) {
			c.Fail("differs", "%s ends without an error after %d of %d entries", sc.Op, len(b.events), len(a.events))
		}
		return
	}
	if b.err == nil {
		// then it is all there
		if d := sameResult(a, b); d != "" {
			c.Fail("differs", "%s succeeds on a source that ends early, but %s", sc.Op, d)
		}
		return
	}
	switch sc.Op {
	case "expand", "extract":
		for _, p := range sortedKeys(b.tree) {
			g := b.tree[p]
			w, ok := a.tree[p]
			if !ok || w.Kind != g.Kind || w.Target != g.Target || !strings.HasPrefix(w.Data, g.Data) {
				c.Fail("invented", "%s of a source that ends early makes %q, a %s with %d bytes, which the input does not hold", sc.Op, p, g.Kind, len(g.Data))
				return
			}
		}
	case "file":
		if b.out != nil {
			c.Fail("output", "signing a file that ends early failed (%v) and left an output of %d bytes", b.err, len(b.out))
		}
	}
}

// archiveOf lays out the archive of an intact scenario.
func archiveOf(sc *opScenario) *model.Archive {
	if sc.Spec != nil {
		a, _ := sc.Spec.BuildArchive()
		return a
	}
	a := &model.Archive{}
	for i := range sc.Files {
		if sc.Op == "cpiosizes" {
			a.Stripped(i, &sc.Files[i], sc.Files[i].Len())
		} else {
			a.Newc(&sc.Files[i])
		}
	}
	a.Finish()
	return a
}

// allocLimit is what a run may allocate: several times of what is found, as
// the accessors copy and as the windows of the decompressors need it.
func allocLimit(op string, n int) uint64 {
	switch op {
	case "iter", "iterold", "expand":
		return uint64(128<<20 + 2000*n)
	case "cpio", "cpiosizes":
		return uint64(24<<20 + 1500*n)
	}
	return uint64(12<<20 + 1500*n)
}

func runC03(sc *opScenario, c *Ctx) {
	raw, _ := sc.input()
	r := sc.run(c, raw, sc.Plan, sc.FromFile, nil, true)
	if c.Failed() {
		return
	}
	c.Plain = len(sc.Muts) == 0
	c.Probe("op " + sc.Op)
	for _, m := range sc.Muts {
		c.Fault("corrupt:"+m.Area, 1)
	}
	if !c.Healthy(r.end, sc.Op) {
		return
	}
	if r.err == nil {
		c.Probe("accepted")
	} else {
		c.Probe("rejected")
	}
	if limit := allocLimit(sc.Op, len(raw)); r.alloc > limit && plainPlan(sc.Plan) {
		c.Fail("memory", "%s of %d bytes allocated %d MiB", sc.Op, len(raw), r.alloc>>20)
	}
}

func runC08(sc *opScenario, c *Ctx) {
	raw, _ := sc.input()
	r := sc.run(c, raw, sc.Plan, sc.FromFile, sc.Faults, false)
	if c.Failed() {
		return
	}
	c.Plain = len(sc.Muts) == 0 && len(sc.Faults) == 0 && plainPlan(sc.Plan)
	c.Probe("op " + sc.Op)
	for _, m := range sc.Muts {
		c.Fault("corrupt:"+m.Area, 1)
	}
	if r.end.Kind != "ok" {
		if len(sc.Muts) == 0 {
			c.Healthy(r.end, sc.Op)
		}
		return
	}
	if r.err == nil {
		c.Probe("success")
	} else {
		c.Probe("failure")
	}
	leaks(c, sc.Op, r.err, r.open, r.lost, r.closed, r.gor)
}

func leaks(c *Ctx, op string, err error, open []string, lost bool, closed, gor int) {
	what := "succeeded"
	if err != nil {
		what = "failed (" + err.Error() + ")"
	}
	switch {
	case len(open) > 0:
		c.Fail("descriptor", "%s %s and left open: %s", op, what, strings.Join(open, ", "))
	case lost || closed > 0:
		c.Fail("closed", "%s %s and closed the stream of its caller", op, what)
	case gor > 0:
		c.Fail("goroutine", "%s %s and left %d goroutines behind", op, what, gor)
	}
}

// leakScenario is C08: one of three kinds of run.
type leakScenario struct {
	Kind    string        `json:"kind"` // op, extract, sign
	Op      *opScenario   `json:"op,omitempty"`
	Extract *exScenario   `json:"extract,omitempty"`
	Sign    *signScenario `json:"sign,omitempty"`
}

func runLeak(sc *leakScenario, c *Ctx) {
	switch sc.Kind {
	case "op":
		runC08(sc.Op, c)
	case "extract":
		runLeakExtract(sc.Extract, c)
	case "sign":
		runLeakSign(sc.Sign, c)
	}
}

var iterOps = []string{"iter", "iter", "iterold", "cpio", "cpiosizes", "expand", "extract"}

// readsArchive says whether the operation looks into the archive.
func readsArchive(op string) bool {
	return op == "iter" || op == "iterold" || op == "expand" || bareArchive(op)
}

// onEdge picks a place in an archive where one thing ends and another starts.
func onEdge(r *rng.R, a *model.Archive) int {
	marks := append(append([]int64(nil), a.Starts...), a.Ends...)
	marks = append(append(marks, a.Data...), a.TrailerStart, 0)
	return int(rng.Of(r, marks))
}

func genCut(r *rng.R, sc *opScenario) {
	raw, pkg := sc.input()
	arch := archiveOf(sc)
	n := len(raw)
	// near something
	marks := []int{0, n}
	base := 0
	if pkg != nil {
		marks = append(marks, 96, 112, pkg.SigOff+16, pkg.GenOff, pkg.GenOff+16, pkg.PayOff, pkg.PayOff)
		base = pkg.PayOff
	}
	if pkg == nil || strings.HasSuffix(sc.Spec.Compressor, "uncompressed") || sc.Spec.Compressor == "-none" {
		for i := range arch.Starts {
			marks = append(marks, base+int(arch.Starts[i]), base+int(arch.Data[i]), base+int(arch.Ends[i]))
		}
		marks = append(marks, base+int(arch.TrailerStart), base+int(arch.TrailerEnd), base+int(arch.TrailerStart)+110)
	}
	at := 0
	switch {
	case r.P(1, 3):
		at = r.N(n + 1)
	case base > 0 && r.P(1, 2):
		at = r.Range(min(base, n), n)
	default:
		at = rng.Of(r, marks) + r.Range(-5, 5)
	}
	if pkg != nil && r.P(1, 6) {
		// in what closes the compressed stream
		at = n - r.N(64)
	}
	sc.Plan.Cut = max(0, min(n, at)) + 1
	sc.Plan.CutKind = rng.Pick(r, "eof", "eof", "err", "ueof", "once")
	sc.Plan.ErrWith = r.Bool()
}

func init() {
	c01 := append(append([]string(nil), rpmOps...), cpioOps...)
	register(&Property{
		ID:  "C01",
		New: func() any { return &opScenario{} },
		Gen: func(r *rng.R, deep bool) any {
			sc := genOp(r, c01, deep)
			sc.Plan = genPlan(r, 3000)
			if r.P(1, 3) {
				for i := rng.Pick(r, 1, 1, 2, 3); i > 0; i-- {
					sc.Muts = append(sc.Muts, genMut(r, sc.Op))
				}
				sc.Reseal = r.P(2, 3)
			} else if readsArchive(sc.Op) && r.P(1, 6) {
				sc.Muts = []mut{{Area: "cut", At: onEdge(r, archiveOf(sc))}}
			}
			sc.Quit = r.N(3)
			sc.FromFile = r.P(1, 4) || sc.Op == "file" || sc.Op == "raw"
			sc.fix()
			if sc.FromFile {
				sc.ReadCap = rng.Pick(r, []int{1}, []int{7}, []int{100, 0, 3}, []int{4096}, []int{96, 16, 1})
				for i := r.N(3); i > 0; i-- {
					sc.Faults = append(sc.Faults, kern.Fault{Op: "read", At: r.Range(1, 12), Kind: "eintr"})
				}
				if sc.Op == "file" || sc.Op == "raw" {
					for i := r.N(4); i > 0; i-- {
						sc.Faults = append(sc.Faults, kern.Fault{Op: rng.Pick(r, "read", "write", "copy"), At: r.Range(1, 6), Kind: "short", Sel: r.N(6000)})
					}
				}
			}
			return sc
		},
		Run: func(s any, c *Ctx) { runC01(s.(*opScenario), c) },
		Valid: func(s any) bool {
			sc := s.(*opScenario)
			for _, f := range sc.Faults {
				if f.Kind != "eintr" && f.Kind != "short" {
					return false
				}
			}
			return sc.valid(c01) && sc.Plan.Cut == 0 && (sc.FromFile || len(sc.Faults) == 0)
		},
	})
	c02 := []string{"header", "rpm", "iter", "iter", "iter", "iterold", "expand", "expand", "verify", "sign", "file", "cpio", "cpio", "cpiosizes", "extract", "extract"}
	register(&Property{
		ID:  "C02",
		New: func() any { return &opScenario{} },
		Gen: func(r *rng.R, deep bool) any {
			sc := genOp(r, c02, deep)
			sc.Round.Key = rng.Pick(r, "alice", "carol")
			sc.Quit = r.N(4)
			if sc.Spec != nil && r.P(1, 2) {
				sc.Spec.Compressor = rng.Pick(r, "uncompressed", "-none", "gzip")
			}
			// keys whose signatures are verified below belong to the ring
			sc.NoRing = sc.NoRing || sc.Op == "verify"
			sc.FromFile = sc.Op == "file"
			sc.fix()
			if (sc.Op == "iter" || sc.Op == "iterold" || sc.Op == "expand") && r.P(1, 5) {
				a := archiveOf(sc)
				sc.Muts = []mut{{Area: "cut", At: r.N(int(a.TrailerEnd))}}
				if r.Bool() {
					sc.Muts[0].At = onEdge(r, a)
				}
				sc.Plan = genPlan(r, 3000)
			} else {
				if !sc.FromFile {
					sc.Plan = genPlan(r, 3000)
				}
				genCut(r, sc)
				if sc.Op == "file" {
					sc.Plan = stream.Plan{Cut: sc.Plan.Cut, CutKind: "eof"}
				}
			}
			return sc
		},
		Run: func(s any, c *Ctx) { runC02(s.(*opScenario), c) },
		Valid: func(s any) bool {
			sc := s.(*opScenario)
			if len(sc.Muts) > 1 || len(sc.Faults) > 0 || len(sc.Muts) == 1 && sc.Plan.Cut > 0 {
				return false
			}
			if len(sc.Muts) == 1 && (sc.Muts[0].Area != "cut" || sc.Op != "iter" && sc.Op != "iterold" && sc.Op != "expand" || int64(sc.Muts[0].At) >= archiveOf(sc).TrailerEnd) {
				return false
			}
			if sc.Op == "verify" && !sc.NoRing || sc.FromFile != (sc.Op == "file") {
				return false
			}
			if sc.Op == "file" && sc.Plan.CutKind != "eof" {
				return false
			}
			cp := *sc
			if cp.Op == "file" {
				cp.Plan = stream.Plan{}
			}
			return cp.valid(c02)
		},
	})
	c03 := append(append([]string(nil), rpmOps...), cpioOps...)
	c03 = append(c03, "iter", "iter", "header", "header", "header", "cpio", "verify")
	register(&Property{
		ID:  "C03",
		New: func() any { return &opScenario{} },
		Gen: func(r *rng.R, deep bool) any {
			sc := genOp(r, c03, deep)
			for i := rng.Pick(r, 1, 1, 1, 2, 2, 3, 5); i > 0; i-- {
				sc.Muts = append(sc.Muts, genMut(r, sc.Op))
			}
			sc.Reseal = r.P(5, 6)
			if sc.Spec != nil && r.P(1, 2) {
				// nothing that would notice
				sc.Spec.HdrSHA1, sc.Spec.HdrSHA256 = false, false
			}
			sc.Quit = r.N(3)
			if r.P(1, 4) {
				sc.Plan = genPlan(r, 3000)
			}
			sc.FromFile = r.P(1, 6)
			sc.fix()
			return sc
		},
		Run: func(s any, c *Ctx) { runC03(s.(*opScenario), c) },
		Valid: func(s any) bool {
			sc := s.(*opScenario)
			return sc.valid(c03) && sc.Plan.Cut == 0 && len(sc.Faults) == 0
		},
	})
	c08 := append([]string(nil), c01...)
	c08 = append(c08, "iter", "iter", "iter", "expand")
	register(&Property{
		ID:  "C08",
		New: func() any { return &leakScenario{} },
		Gen: func(r *rng.R, deep bool) any {
			sc := &leakScenario{Kind: rng.Pick(r, "op", "op", "extract", "sign")}
			switch sc.Kind {
			case "op":
				o := genOp(r, c08, deep)
				if o.Spec != nil && r.P(1, 2) {
					o.Spec.Compressor = "zstd"
					o.Spec.Parts = 0
					if r.Bool() {
						// much that a decoder would do in advance
						o.Spec.Blocks = r.Range(20, 60)
					}
				}
				o.Plan = genPlan(r, 3000)
				o.Quit = r.Range(1, 3)
				o.FromFile = r.P(1, 6)
				o.fix()
				switch r.N(4) {
				case 0, 1:
					for i := rng.Pick(r, 1, 1, 2); i > 0; i-- {
						o.Muts = append(o.Muts, genMut(r, o.Op))
					}
					o.Reseal = true
				case 2:
					if !o.FromFile {
						genCut(r, o)
					}
				}
				if r.P(1, 3) {
					for i := r.Range(1, 2); i > 0; i-- {
						o.Faults = append(o.Faults, kern.Fault{Op: rng.Pick(r, "read", "write", "open", "close", "creat", "mkdir", "stat", "unlink", "rename", "link", "symlink", "fsync", "truncate", "readlink", "copy"), At: r.Range(1, 6), Kind: rng.Pick(r, "err", "err", "full"), Sel: r.N(6000)})
					}
				}
				sc.Op = o
			case "extract":
				sc.Extract = genLeakExtract(r, deep)
			case "sign":
				sc.Sign = genLeakSign(r, deep)
			}
			return sc
		},
		Run: func(s any, c *Ctx) { runLeak(s.(*leakScenario), c) },
		Valid: func(s any) bool {
			sc := s.(*leakScenario)
			switch sc.Kind {
			case "op":
				return sc.Op != nil && sc.Extract == nil && sc.Sign == nil && sc.Op.valid(c08) && sc.Op.Quit > 0
			case "extract":
				return sc.Extract != nil && sc.Op == nil && sc.Sign == nil && validLeakExtract(sc.Extract)
			case "sign":
				return sc.Sign != nil && sc.Op == nil && sc.Extract == nil && validLeakSign(sc.Sign)
			}
			return false
		},
	})
}
