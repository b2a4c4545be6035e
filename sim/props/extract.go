package props

import (
	"fmt"
	"os"
	"path"
	"runtime"
	"slices"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"

	"verifsim/kern"
	"verifsim/model"
	"verifsim/rng"
	"verifsim/stream"
)

// pre is an object that is there before the extraction. Paths starting with
// "/" are absolute, others relative to the destination.
type pre struct {
	Kind   string `json:"kind"` // file, dir, link, hard, fifo
	Path   string `json:"path"`
	Target string `json:"target,omitempty"`
}

// exScenario is one extraction, or a sequence of attempts at one.
type exScenario struct {
	Kind     string         `json:"kind"` // cpio, rpm
	Files    []model.Entry  `json:"files,omitempty"`
	Spec     *model.Spec    `json:"spec,omitempty"`
	Dest     string         `json:"dest"`
	NoDest   bool           `json:"no_dest,omitempty"`
	Pre      []pre          `json:"pre,omitempty"`
	Umask    int            `json:"umask,omitempty"`
	FromFile bool           `json:"from_file,omitempty"`
	Plan     stream.Plan    `json:"plan"`
	ReadCap  []int          `json:"read_cap,omitempty"`
	Attempts [][]kern.Fault `json:"attempts,omitempty"`
	Odd      *oddEntry      `json:"odd,omitempty"`
	Rand     uint64         `json:"rand"`
}

// oddEntry is one that an extraction may refuse, or pass over if it says
// nothing that can be extracted.
type oddEntry struct {
	At   int    `json:"at"`
	Kind string `json:"kind"`
}

var oddKinds = map[string]model.Entry{
	"socket":     {Name: "odd", Mode: model.Sock | 0644, Nlink: 1, Ino: 9},
	"device":     {Name: "odd", Mode: model.Blk | 0644, Nlink: 1, Ino: 9, Rdev: 0x803},
	"typeless":   {Name: "odd", Mode: 0644, Nlink: 1, Ino: 9},
	"data":       {Name: "odd", Mode: 0644, Nlink: 1, Ino: 9, Size: 10},
	"root file":  {Name: ".", Mode: model.Reg | 0644, Nlink: 1, Ino: 9, Size: 10},
	"root link":  {Name: "./", Mode: model.Lnk | 0777, Nlink: 1, Ino: 9, Link: "elsewhere"},
	"other link": {Name: "odd", Mode: model.Reg | 0644, Nlink: 2, Ino: 9, Size: 10}, // the rest is in no archive
}

func (sc *exScenario) entries() []model.Entry {
	if sc.Spec != nil {
		return sc.Spec.PayloadFiles()
	}
	return sc.Files
}

// destReal is where each spelling of the destination leads. The working
// directory is /d/w, except for "/".
var destReal = map[string]string{
	"/d/out": "/d/out", "/d/out/": "/d/out", "/d//x/../out": "/d/out", "../out": "/d/out", "out": "/d/w/out", "./out/": "/d/w/out",
	".": "/d/w", "": "/d/w", "..": "/d", "/": "/", "/d/new/deep/out": "/d/new/deep/out", "/d/lnk": "/d/real", "lnk2/out": "/d/real/out", "/d/out.": "/d/out.",
}

var destSpellings = []string{"/d/out", "/d/out", "/d/out", "/d/out/", "/d//x/../out", "../out", "out", "./out/", ".", "", "..", "/", "/d/new/deep/out", "/d/lnk", "lnk2/out", "/d/out."}

// world prepares the machine.
func (sc *exScenario) world(k *kern.Kernel) {
	real := destReal[sc.Dest]
	if sc.Dest != "/" {
		k.PutDir("/d/w")
		k.PutDir("/d/x")
		if strings.Contains(sc.Dest, "lnk") {
			k.PutDir("/d/real")
			k.PutSymlink("/d/lnk", "real")
			k.PutSymlink("/d/w/lnk2", "/d/real")
		}
		if !sc.NoDest {
			k.PutDir(real)
		}
		if sc.Dest != ".." && sc.Dest != "." && sc.Dest != "" {
			k.PutFile("/d/w/bystander", []byte("keep me"))
		}
		k.PutFile("/etc/secret", []byte("outside secret"))
		k.PutFile("/etc/other", []byte("another one"))
		k.PutDir("/etc/dir/sub")
		k.PutFile("/etc/dir/f", []byte("inside dir"))
		k.PutFifo("/etc/pipe", nil)
		// beside the destination, with a name that starts like its own
		if !sc.NoDest {
			k.PutFile(real+"2/f", []byte("next door"))
		}
		if sc.FromFile {
			k.PutFile("/pkg/in", sc.raw())
		}
		k.Chdir("/d/w")
	}
	for _, p := range sc.Pre {
		at := p.Path
		if at[0] != '/' {
			at = path.Join(real, at)
		}
		switch p.Kind {
		case "file":
			k.PutFile(at, []byte("already here: "+p.Path))
		case "dir":
			k.PutDir(at)
		case "link":
			k.PutSymlink(at, p.Target)
		case "hard":
			to := p.Target
			if to[0] != '/' {
				to = path.Join(real, to)
			}
			k.PutLink(at, to)
		case "fifo":
			k.PutFifo(at, nil)
		}
	}
	k.SetUmask(uint32(sc.Umask))
	k.SyncAll()
}

func (sc *exScenario) raw() []byte {
	if sc.Spec != nil {
		return sc.Spec.Build().Raw
	}
	files := sc.Files
	if sc.Odd != nil {
		files = slices.Insert(slices.Clone(files), min(sc.Odd.At, len(files)), oddKinds[sc.Odd.Kind])
	}
	_, segs := model.Newc(files)
	return model.Bytes(segs)
}

// attempt runs the extraction once under faults. It returns the error (nil
// unless the end is ok) and how the process ended.
type exResult struct {
	end    End
	err    error
	calls  int
	hard   int
	trace  []kern.Call
	closed int
	open   []string // descriptors left open besides the caller's
	lost   bool     // the caller's own file was closed
	gor    int
	src    *stream.Source
}

func (sc *exScenario) attempt(c *Ctx, k *kern.Kernel, raw []byte, faults []kern.Fault, trace bool) exResult {
	var res exResult
	k.Faults = faults
	k.ReadCap = sc.ReadCap
	k.HardFired = 0
	k.Crashed = false
	var src *stream.Source
	var file *os.File
	if sc.FromFile {
		f, err := os.Open("/pkg/in")
		if err != nil {
			c.Err = "opening the input: " + err.Error()
			return res
		}
		file = f
	} else {
		src = stream.New(raw, sc.Plan)
	}
	before := runtime.NumGoroutine()
	mine := len(k.OpenFds())
	keep, kt := k.KeepTrace, len(k.Trace)
	k.KeepTrace = trace || c.Keep
	k.Arm()
	res.end = c.Proc(Budget+80*len(raw), func() {
		if sc.Kind == "cpio" {
			if file != nil {
				res.err = cpio.Extract(file, sc.Dest)
			} else {
				res.err = cpio.Extract(src, sc.Dest)
			}
			return
		}
		var rpm *rpmutils.Rpm
		var err error
		if file != nil {
			rpm, err = rpmutils.ReadRpm(file)
		} else {
			rpm, err = rpmutils.ReadRpm(src)
		}
		if err != nil {
			res.err = err
			return
		}
		res.err = rpm.ExpandPayload(sc.Dest)
	})
	res.calls = k.Calls()
	res.hard = k.HardFired
	k.Disarm()
	k.KeepTrace = keep
	if trace {
		res.trace = append([]kern.Call(nil), k.Trace[kt:]...)
		k.Trace = k.Trace[:kt]
	}
	if res.end.Kind == "ok" {
		open := k.OpenFds()
		if file != nil {
			if len(open) == 0 || open[0] != "/pkg/in" {
				res.lost = true
			}
			if len(open) > mine {
				res.open = open[mine:]
			}
			file.Close()
		} else {
			res.open = open
			res.closed = src.Closed
		}
		res.gor = settle(before)
	}
	if src != nil {
		c.Source(src)
		res.src = src
	}
	if len(sc.ReadCap) > 0 {
		k.ReadCap = nil
	}
	c.Mix("attempt %s err=%v", res.end.Kind, res.err)
	return res
}

// settle gives goroutines time to end and returns how many more than before
// are still there.
func settle(before int) int {
	for i := 0; i < 3000 && runtime.NumGoroutine() > before; i++ {
		runtime.Gosched()
	}
	return runtime.NumGoroutine() - before
}

// genFaults places faults on the calls of a dry run. Kinds are the ones to
// choose from.
func genFaults(r *rng.R, trace []kern.Call, calls, n int, kinds ...string) []kern.Fault {
	if calls == 0 {
		return nil
	}
	counts := map[string]int{}
	var ops []string
	for _, t := range trace {
		if counts[t.Op] == 0 {
			ops = append(ops, t.Op)
		}
		counts[t.Op]++
	}
	var out []kern.Fault
	for i := 0; i < n; i++ {
		f := kern.Fault{Kind: rng.Of(r, kinds), Sel: r.N(6000)}
		var fit []string
		for _, op := range ops {
			ok := op != "other"
			switch f.Kind {
			case "err":
				ok = kern.CanFail(op)
			case "short":
				ok = op == "read" || op == "write" || op == "copy"
			case "eintr":
				ok = op == "open" || op == "creat" || op == "read" || op == "write"
			}
			if ok {
				fit = append(fit, op)
			}
		}
		if len(fit) == 0 {
			continue
		}
		if f.Kind == "crash" || f.Kind == "power" || f.Kind == "full" {
			if r.Bool() {
				f.At = r.Range(1, calls)
				out = append(out, f)
				continue
			}
		}
		f.Op = rng.Of(r, fit)
		f.At = r.Range(1, counts[f.Op])
		out = append(out, f)
	}
	return out
}

// failing makes calls of the given kinds fail.
func failing(r *rng.R, trace []kern.Call, n int, ops ...string) (out []kern.Fault) {
	counts := map[string]int{}
	for _, t := range trace {
		counts[t.Op]++
	}
	for ; n > 0; n-- {
		if op := rng.Of(r, ops); counts[op] > 0 {
			out = append(out, kern.Fault{Kind: "err", Op: op, At: r.Range(1, counts[op]), Sel: r.N(6000)})
		}
	}
	return
}

func validFaults(list []kern.Fault) bool {
	for _, f := range list {
		switch f.Kind {
		case "err", "short", "eintr", "crash", "power", "full":
		default:
			return false
		}
		if f.At < 1 || f.Sel < 0 {
			return false
		}
	}
	return true
}

// dry runs the scenario without faults to learn its system calls.
func (sc *exScenario) dry() ([]kern.Call, int) {
	c := &Ctx{}
	runtime.SimRand(true, sc.Rand)
	defer runtime.SimRand(false, 0)
	k := kern.New()
	k.Boot()
	defer k.Halt()
	sc.world(k)
	res := sc.attempt(c, k, sc.raw(), nil, true)
	return res.trace, res.calls
}

func genExtract(r *rng.R, o archOpts, dests []string) *exScenario {
	sc := &exScenario{Kind: rng.Pick(r, "cpio", "cpio", "rpm"), Rand: r.U64() >> 12}
	if sc.Kind == "rpm" {
		s := genSpec(r, specOpts{Files: o})
		s.Stripped = false
		sc.Spec = &s
	} else {
		sc.Files = genEntries(r, o)
	}
	sc.Dest = rng.Of(r, dests)
	sc.Umask = rng.Pick(r, 022, 022, 077, 0, 027)
	sc.NoDest = r.P(1, 4)
	sc.Plan = genPlan(r, 4000)
	if r.P(1, 4) {
		sc.FromFile = true
		sc.Plan = stream.Plan{}
		if r.Bool() {
			sc.ReadCap = rng.Pick(r, []int{1}, []int{7}, []int{100, 0, 3}, []int{4096})
		}
	}
	sc.fixDest()
	return sc
}

// fixDest removes combinations that make no sense.
func (sc *exScenario) fixDest() {
	switch sc.Dest {
	case "/", ".", "", "..", "/d/lnk":
		sc.NoDest = false
	}
	if sc.Dest == "/" || sc.Spec != nil && sc.Spec.Compressor == "zstd" {
		sc.FromFile = false
	}
}

func (sc *exScenario) valid(wellFormed bool) bool {
	if _, ok := destReal[sc.Dest]; !ok || !validPlan(&sc.Plan) || sc.Plan.Cut != 0 {
		return false
	}
	if sc.NoDest && (sc.Dest == "/" || sc.Dest == "." || sc.Dest == "" || sc.Dest == ".." || sc.Dest == "/d/lnk") {
		return false
	}
	if sc.FromFile && (sc.Dest == "/" || sc.Spec != nil && sc.Spec.Compressor == "zstd") {
		return false
	}
	for _, n := range sc.ReadCap {
		if n < 0 {
			return false
		}
	}
	for _, a := range sc.Attempts {
		if !validFaults(a) {
			return false
		}
	}
	if sc.Umask < 0 || sc.Umask&0700 != 0 || sc.Umask > 0777 {
		return false
	}
	switch sc.Kind {
	case "cpio":
		return sc.Spec == nil && (!wellFormed || validEntries(sc.Files, false))
	case "rpm":
		return sc.Spec != nil && sc.Files == nil && !sc.Spec.Stripped && (!wellFormed || validSpec(sc.Spec, false))
	}
	return false
}

func (sc *exScenario) validOdd() bool {
	if sc.Odd == nil {
		return true
	}
	o, ok := oddKinds[sc.Odd.Kind]
	if !ok || sc.Kind != "cpio" || sc.Dest == "/" || len(sc.Pre) > 0 || sc.Odd.At < 0 || sc.Odd.At > len(sc.Files) {
		return false
	}
	for i := range sc.Files {
		if e := &sc.Files[i]; e.Ino == o.Ino || model.Clean(e.Name) == model.Clean(o.Name) {
			return false
		}
	}
	return true
}

// checkTree compares the destination with the archive.
func (sc *exScenario) checkTree(c *Ctx, k *kern.Kernel, class, when string) {
	list := sc.entries()
	real := destReal[sc.Dest]
	if len(list) == 0 && !k.Exists(real) {
		return
	}
	skip := map[string]bool{}
	if sc.Dest == ".." {
		skip["/d/w"], skip["/d/x"] = true, true
	}
	if sc.Dest == "/d/lnk" || sc.Dest == "lnk2/out" {
		real = destReal[sc.Dest]
	}
	got := k.Snapshot(real, func(abs string) bool { return skip[abs] })
	if sc.Odd != nil {
		if sc.Odd.Kind == "other link" {
			list = append(slices.Clone(list), oddKinds[sc.Odd.Kind])
		} else if g := got["odd"]; g.Kind != "file" && g.Kind != "link" && g.Kind != "dir" {
			delete(got, "odd")
		}
	}
	if d := diffTree(got, list); d != "" {
		c.Fail(class, "%s: %s", when, d)
	}
}

func (sc *exScenario) probes(c *Ctx, k *kern.Kernel) {
	if sc.NoDest {
		c.Probe("destination did not exist")
	}
	if sc.FromFile {
		c.Probe("input read from a file")
	}
	c.Plain = len(sc.entries()) == 0 && len(k.Fired) == 0
}

func runC06(sc *exScenario, c *Ctx) {
	runtime.SimRand(true, sc.Rand)
	k := kern.New()
	start := k.Now
	k.Boot()
	defer k.Halt()
	sc.world(k)
	var faults []kern.Fault
	if len(sc.Attempts) > 0 {
		faults = sc.Attempts[0]
	}
	res := sc.attempt(c, k, sc.raw(), faults, false)
	if c.Healthy(res.end, "extraction") {
		_, _, clash := occupied(sc.Pre, sc.entries())
		if res.err == nil && len(sc.Pre) > 0 {
			sc.checkOccupied(c, k, "extraction reported success")
			if clash {
				c.Probe("something in the way was replaced")
			} else {
				c.Probe("extracted over what was there")
			}
		} else if res.err == nil {
			if k.Exists(destReal[sc.Dest]) || len(sc.entries()) > 0 {
				sc.checkTree(c, k, "wrong-tree", "extraction reported success")
				sc.checkModes(c, k)
			}
			if res.hard > 0 {
				c.Probe("success in spite of a failed call, tree exact")
			}
		} else if clash {
			c.Probe("something in the way refused")
		} else if sc.Odd != nil {
			c.Probe("odd entry refused")
		} else if res.hard == 0 {
			c.Fail("false-error", "extracting a well-formed archive on a healthy system failed: %v", res.err)
		} else {
			c.Probe("error after a failed call")
		}
	}
	sc.probes(c, k)
	c.Kernel(k, start)
}

// checkModes looks at what directories and pipes let others do.
func (sc *exScenario) checkModes(c *Ctx, k *kern.Kernel) {
	if c.Failed() {
		return
	}
	// what the extraction makes by itself, and what the archive says
	const own, said = 1, 2
	type mode struct {
		from int
		perm uint32
	}
	want := map[string]mode{}
	if sc.NoDest {
		want["."] = mode{own, 0}
	}
	list := sc.entries()
	for i := range list {
		e := &list[i]
		p := model.Clean(e.Name)
		if p == "" || p == "." {
			continue
		}
		for q := path.Dir(p); q != "."; q = path.Dir(q) {
			if want[q].from == 0 {
				want[q] = mode{own, 0}
			}
		}
		switch e.Mode & model.Type {
		case model.Dir, model.Fifo:
			want[p] = mode{want[p].from | said, uint32(e.Mode) & 0777 &^ uint32(sc.Umask)}
		}
	}
	for _, p := range sortedKeys(want) {
		w := want[p]
		got := k.ModeOf(path.Join(destReal[sc.Dest], p)) & 0777
		mine := got&0700 == 0700 && got&^(0755&^uint32(sc.Umask)) == 0
		theirs := w.from&said != 0 && got == w.perm
		if w.from == said && !theirs || !mine && !theirs {
			c.Fail("mode", "%q has mode %04o with umask %04o (by the archive: %04o)", p, got, sc.Umask, w.perm)
			return
		}
	}
}

func runC07(sc *exScenario, c *Ctx) {
	runtime.SimRand(true, sc.Rand)
	k := kern.New()
	start := k.Now
	k.Boot()
	defer k.Halt()
	sc.world(k)
	raw := sc.raw()
	for _, faults := range sc.Attempts {
		res := sc.attempt(c, k, raw, faults, false)
		switch {
		case c.Err != "":
			return
		case res.end.Kind == "crashed":
			c.Probe("killed during an attempt")
		case !c.Healthy(res.end, "extraction"):
			return
		case res.err != nil:
			c.Probe("attempt failed with an error")
		default:
			c.Probe("attempt succeeded, extracted again")
		}
		k.Restart()
	}
	res := sc.attempt(c, k, raw, nil, false)
	if c.Healthy(res.end, "extraction") {
		if res.err != nil {
			c.Fail("rerun-fails", "running the extraction again on a healthy system failed: %v", res.err)
		} else {
			sc.checkTree(c, k, "rerun-differs", fmt.Sprintf("after %d interrupted attempts and a successful one", len(sc.Attempts)))
		}
	}
	sc.probes(c, k)
	c.Plain = c.Plain || len(sc.Attempts) == 0
	c.Kernel(k, start)
}

// --- C05: nothing outside the destination ---

var hostileNames = []string{"a", "b", "a/x", "b/x", "../e", "../../etc/secret", "/etc/secret", "a/../../e", "..", ".", "", "/", "./", "a/..", "b/../..", "s", "s/f", "s/sub/f", "s/secret",
	"t", "t/x", "p", "h", "../w/bystander", "a/./b", "a//b", "sub/deep/f", "s/../f", "....", "../..", "x/../../../etc/other", "l", "l/new", "q", "../out2/f", "../w2/f", "a/x/y", "b/x/../../../out2/g"}

var hostileTargets = []string{"/etc", "/etc/secret", "/etc/other", "../../etc", "..", ".", "/", "/etc/pipe", "a", "s", "b/x", "../w", "/d", "/etc/dir", "nowhere", "/etc/new", "../x", "s/dir", "/d/out", "loop", "/d/out2", "/d/w2", "../out2", "/d/real2/f", "../w2/f"}

// genTrick makes a sequence in which a name means something else when it is
// used again.
func genTrick(r *rng.R) []model.Entry {
	p := rng.Pick(r, "a", "b", "s", "t", "l")
	q := rng.Pick(r, "q", "e", "h")
	away := rng.Pick(r, "/etc", "/etc/dir", "../../etc", "/d/out2", "/d/w2", "/")
	reg := func(name string, size int) model.Entry {
		return model.Entry{Name: name, Mode: model.Reg | 0644, Nlink: 1, Ino: 7, Size: int64(size), Seed: r.N(1000)}
	}
	lnk := func(name, to string) model.Entry {
		return model.Entry{Name: name, Mode: model.Lnk | 0777, Nlink: 1, Ino: 8, Link: to}
	}
	part := func(name string, size int) model.Entry {
		e := reg(name, size)
		e.Nlink = 2
		return e
	}
	var first model.Entry
	switch r.N(6) {
	case 0:
		first = model.Entry{Name: p, Mode: model.Fifo | 0644, Nlink: 1, Ino: 9}
	case 1:
		first = reg(p, r.N(3))
	case 2:
		first = lnk(p, q)
	case 3:
		first = lnk(p, rng.Pick(r, "nowhere", ".", "loop", "/d/out", "/d/w"))
	case 4:
		first = model.Entry{Name: p, Mode: model.Dir | 0755, Nlink: 2, Ino: 9}
	case 5:
		first = lnk(p, away)
	}
	second := rng.Pick(r, model.Entry{Name: q, Mode: model.Dir | 0755, Nlink: 2, Ino: 10}, model.Entry{Name: q, Mode: model.Fifo | 0644, Nlink: 1, Ino: 10}, reg(q, 1), lnk(q, away))
	x := p + rng.Pick(r, "", "/x", "/f", "/secret", "/x/y")
	var out []model.Entry
	switch r.N(4) {
	case 0: // a deferred link
		out = []model.Entry{second, first, part(x, 0), lnk(rng.Pick(r, p, q), away), part(rng.Pick(r, "z", "y/z", x), r.N(3))}
	case 1:
		out = []model.Entry{first, second, reg(x, 3), lnk(p, away), reg(x, 5)}
	case 2:
		out = []model.Entry{lnk(p, q), lnk(q, away), reg(x, 5), part(x, 0), part(x, r.N(3))}
	case 3: // something is a file, and then it is not
		out = []model.Entry{first, lnk(x, away), reg(x, 4), part(x+rng.Pick(r, "", "/f"), 0), lnk(p, away)}
	}
	if r.P(1, 3) {
		i, j := r.N(len(out)), r.N(len(out))
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func genHostile(r *rng.R) []model.Entry {
	var out []model.Entry
	if r.P(1, 5) {
		out = genTrick(r)
		if r.P(2, 3) {
			return out
		}
	}
	for n := r.Range(1, 8); n > 0; n-- {
		e := model.Entry{Name: rng.Of(r, hostileNames), Nlink: 1, Ino: r.Range(1, 4), Dev: r.N(2), Seed: r.N(1000)}
		switch r.N(12) {
		case 0, 1, 2:
			e.Mode = model.Lnk | 0777
			e.Link = rng.Of(r, hostileTargets)
			if r.P(2, 3) {
				e.Name = rng.Pick(r, "s", "t", "a", "b", "l", "a/x")
			}
		case 3:
			e.Mode = model.Dir | rng.Pick(r, 0755, 0)
		case 4:
			e.Mode = model.Fifo | 0644
		case 5:
			e.Mode = rng.Pick(r, model.Chr, model.Blk, model.Sock, 0) | 0600
		case 6, 7:
			e.Mode = model.Reg | 0644
			e.Nlink = r.Range(2, 3)
			if r.Bool() {
				e.Size = int64(r.Range(1, 40))
			}
		default:
			e.Mode = model.Reg | 0644
			e.Size = int64(r.N(60))
		}
		if r.P(1, 3) && len(out) > 0 {
			e.Name = out[r.N(len(out))].Name
			if r.Bool() {
				e.Name += rng.Pick(r, "/f", "/secret", "/sub/f", "/..", "/dir/new")
			}
		}
		out = append(out, e)
	}
	if r.P(1, 25) {
		// the same further down
		deep := strings.Repeat("d/", r.Range(5, 40))
		for i := range out {
			if e := &out[i]; e.Name != "" && e.Name[0] != '/' && !strings.Contains(e.Name, "..") {
				e.Name = deep + e.Name
			}
		}
	}
	return out
}

func genPre(r *rng.R) []pre {
	var out []pre
	for n := r.N(4); n > 0; n-- {
		p := pre{Kind: rng.Pick(r, "link", "link", "hard", "file", "dir", "fifo"), Path: rng.Pick(r, "a", "b", "s", "t", "l", "a/x", "b/x", "p", "h", "sub/deep", "sub", "e", "q")}
		switch p.Kind {
		case "link":
			p.Target = rng.Of(r, hostileTargets)
		case "hard":
			p.Target = rng.Pick(r, "/etc/secret", "/etc/other", "/etc/dir/f", "/etc/pipe")
		}
		clash := false
		for _, q := range out {
			if q.Path == p.Path || strings.HasPrefix(q.Path, p.Path+"/") || strings.HasPrefix(p.Path, q.Path+"/") {
				clash = true
			}
		}
		if !clash {
			out = append(out, p)
		}
	}
	return out
}

func validPre(list []pre) bool {
	for i, p := range list {
		if p.Path == "" || p.Path[0] == '/' || strings.Contains(p.Path, "..") || path.Clean(p.Path) != p.Path || p.Path == "." {
			return false
		}
		switch p.Kind {
		case "file", "dir", "fifo":
		case "link":
			if p.Target == "" {
				return false
			}
		case "hard":
			switch p.Target {
			case "/etc/secret", "/etc/other", "/etc/dir/f", "/etc/pipe":
			default:
				return false
			}
		default:
			return false
		}
		for _, q := range list[:i] {
			if q.Path == p.Path || strings.HasPrefix(q.Path, p.Path+"/") || strings.HasPrefix(p.Path, q.Path+"/") {
				return false
			}
		}
	}
	return true
}

func runC05(sc *exScenario, c *Ctx) {
	runtime.SimRand(true, sc.Rand)
	k := kern.New()
	start := k.Now
	k.Boot()
	defer k.Halt()
	sc.world(k)
	real := destReal[sc.Dest]
	outside := func() map[string]kern.Node {
		return k.Snapshot("/", func(abs string) bool { return abs == real })
	}
	before := outside()
	foreign := map[int]string{}
	for p, n := range before {
		if n.Kind != "dir" {
			foreign[n.Ino] = "/" + p
		}
	}
	if sc.Dest != "/" {
		k.OnMutate = func(m kern.Mutation) {
			if p, ok := foreign[m.Ino]; ok && m.Op != "unlink" && m.Op != "rename" && m.Op != "link" {
				c.Fail("outside", "%s of %q changes %s, which lies outside of the destination %s", m.Op, m.Path, p, real)
				return
			}
			ino := k.InodeOf(real, true)
			if ino != 0 && k.Inside(m, ino) {
				return
			}
			if m.Op == "mkdir" && sc.NoDest && ancestor(k, m.Ino, real) {
				return
			}
			c.Fail("outside", "%s of %q happens outside of the destination %s", m.Op, m.Path, real)
		}
	}
	raw := sc.raw()
	attempts := sc.Attempts
	if len(attempts) == 0 {
		attempts = [][]kern.Fault{nil}
	}
	for _, faults := range attempts {
		res := sc.attempt(c, k, raw, faults, false)
		if c.Err != "" {
			return
		}
		if res.end.Kind == "crashed" {
			c.Probe("killed during extraction")
		} else if !c.Healthy(res.end, "extraction of a hostile archive") {
			break
		} else if res.err != nil {
			c.Probe("hostile archive refused")
		} else {
			c.Probe("hostile archive extracted")
		}
		k.Restart()
	}
	k.OnMutate = nil
	if sc.Dest != "/" && !c.Failed() {
		after := outside()
		if d := diffNodes(before, after, func(p string) bool { return sc.NoDest && strings.HasPrefix(real, "/"+p) }); d != "" {
			c.Fail("outside", "extraction into %s changed the world around it: %s", real, d)
		}
	}
	c.Plain = false
	c.Kernel(k, start)
}

// ancestor reports whether ino is the destination or a directory above it.
func ancestor(k *kern.Kernel, ino int, real string) bool {
	for p := real; p != "/"; p = path.Dir(p) {
		if k.InodeOf(p, true) == ino {
			return true
		}
	}
	return false
}

// diffNodes compares two snapshots exactly.
func diffNodes(a, b map[string]kern.Node, allowNew func(string) bool) string {
	for _, p := range sortedKeys(a) {
		x := a[p]
		y, ok := b[p]
		if !ok {
			return fmt.Sprintf("%q is gone", p)
		}
		// A link count follows the names inside the destination too.
		x.Nlink, y.Nlink = 0, 0
		if x != y {
			return fmt.Sprintf("%q was %v and is %v", p, x, y)
		}
	}
	for _, p := range sortedKeys(b) {
		if _, ok := a[p]; !ok && (allowNew == nil || !allowNew(p)) {
			return fmt.Sprintf("%q is new: %v", p, b[p])
		}
	}
	return ""
}

func init() {
	arch := archOpts{Max: 8, Links: true, Special: true, Symlink: true, Prefix: true}
	register(&Property{
		ID:  "C05",
		New: func() any { return &exScenario{} },
		Gen: func(r *rng.R, deep bool) any {
			o := arch
			if deep {
				o.Max = 14
			}
			sc := genExtract(r, o, destSpellings)
			if r.P(9, 10) {
				sc.Kind, sc.Spec, sc.Files = "cpio", nil, genHostile(r)
				if r.P(1, 4) {
					sc.Files = append(sc.Files, genHostile(r)...)
				}
			}
			if sc.Kind == "rpm" {
				// a package whose payload holds the hostile archive
				s := *sc.Spec
				s.Files, s.Order = genHostile(r), nil
				sc.Spec = &s
			}
			sc.fixDest()
			if !sc.NoDest && sc.Dest != "/" && r.P(2, 3) {
				sc.Pre = genPre(r)
			}
			if r.P(1, 2) {
				trace, n := sc.dry()
				for i := rng.Pick(r, 1, 1, 2, 3); i > 0; i-- {
					sc.Attempts = append(sc.Attempts, genFaults(r, trace, n, r.N(3), "err", "crash", "short", "eintr", "full"))
				}
				if r.P(1, 3) {
					// what it looks at cannot be looked at
					sc.Attempts[0] = failing(r, trace, r.Range(1, 3), "stat", "stat", "stat", "readlink", "unlink", "mkdir")
				}
			}
			return sc
		},
		Run: func(s any, c *Ctx) { runC05(s.(*exScenario), c) },
		Valid: func(s any) bool {
			sc := s.(*exScenario)
			if !sc.valid(false) || !validPre(sc.Pre) || len(sc.Pre) > 0 && (sc.NoDest || sc.Dest == "/") {
				return false
			}
			for _, e := range sc.entries() {
				if len(e.Name) > 1200 || e.Size < 0 || e.Size > 1<<22 {
					return false
				}
			}
			return true
		},
	})
	register(&Property{
		ID:  "C06",
		New: func() any { return &exScenario{} },
		Gen: func(r *rng.R, deep bool) any {
			o := arch
			o.Deep = deep
			sc := genExtract(r, o, destSpellings)
			if sc.Dest != "/" && r.P(1, 4) {
				sc.NoDest = false
				sc.Pre = genOccupied(r, sc.entries())
			}
			if sc.Kind == "cpio" && sc.Dest != "/" && len(sc.Pre) == 0 && r.P(1, 8) {
				sc.Odd = &oddEntry{At: r.N(len(sc.Files) + 1), Kind: rng.Of(r, sortedKeys(oddKinds))}
				if !sc.validOdd() {
					sc.Odd = nil
				}
			}
			if r.P(3, 4) {
				trace, n := sc.dry()
				switch r.N(4) {
				case 0:
					sc.Attempts = append(sc.Attempts, genFaults(r, trace, n, r.Range(1, 4), "short", "eintr"))
				case 1:
					sc.Attempts = append(sc.Attempts, genFaults(r, trace, n, 1, "full"))
				case 2:
					sc.Attempts = append(sc.Attempts, genFaults(r, trace, n, 1, "err"))
					if r.P(1, 4) {
						sc.Attempts[0] = failing(r, trace, 1, "stat", "stat", "unlink", "link", "close")
					}
				case 3:
					sc.Attempts = append(sc.Attempts, genFaults(r, trace, n, r.Range(2, 4), "err", "short", "eintr", "full"))
				}
			}
			return sc
		},
		Run: func(s any, c *Ctx) { runC06(s.(*exScenario), c) },
		Valid: func(s any) bool {
			sc := s.(*exScenario)
			if len(sc.Pre) > 0 && (sc.NoDest || sc.Dest == "/" || !validOccupied(sc.Pre, sc.entries())) {
				return false
			}
			if !sc.validOdd() {
				return false
			}
			return sc.valid(true) && len(sc.Attempts) <= 1 && !hasKind(sc.Attempts, "crash", "power")
		},
	})
	register(&Property{
		ID:  "C07",
		New: func() any { return &exScenario{} },
		Gen: func(r *rng.R, deep bool) any {
			o := arch
			o.Deep = deep
			sc := genExtract(r, o, destSpellings)
			trace, n := sc.dry()
			for i := rng.Pick(r, 1, 1, 1, 2, 3); i > 0; i-- {
				switch r.N(5) {
				case 0, 1:
					sc.Attempts = append(sc.Attempts, genFaults(r, trace, n, 1, "crash"))
				case 2, 3:
					sc.Attempts = append(sc.Attempts, genFaults(r, trace, n, 1, "err", "full"))
				case 4:
					sc.Attempts = append(sc.Attempts, genFaults(r, trace, n, r.N(3), "crash", "err", "short"))
				}
			}
			return sc
		},
		Run: func(s any, c *Ctx) { runC07(s.(*exScenario), c) },
		Valid: func(s any) bool {
			sc := s.(*exScenario)
			return sc.valid(true) && len(sc.Pre) == 0 && !hasKind(sc.Attempts, "power")
		},
	})
}

func hasKind(attempts [][]kern.Fault, kinds ...string) bool {
	for _, a := range attempts {
		for _, f := range a {
			for _, k := range kinds {
				if f.Kind == k {
					return true
				}
			}
		}
	}
	return false
}
