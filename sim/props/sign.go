package props

import (
	"bytes"
	"crypto"
	"fmt"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"

	"verifsim/kern"
	"verifsim/model"
	"verifsim/rng"
	"verifsim/stream"
)

// signRound is one signing of a package.
type signRound struct {
	Route string `json:"route"` // file, raw, splice, splice-small
	Mode  string `json:"mode"`  // where the output goes, see places
	Key   string `json:"key"`
	Opts  string `json:"opts,omitempty"` // "", zero, hash, time, both
	Hash  string `json:"hash,omitempty"`
	Time  int64  `json:"time,omitempty"`
	Frac  int64  `json:"frac,omitempty"` // nanoseconds on top of Time
	Zone  int    `json:"zone,omitempty"` // minutes east of the time zone that Time is given in
}

// jump moves the wall clock just before the At'th reading of it.
type jump struct {
	At int   `json:"at"`
	By int64 `json:"by"` // milliseconds
}

// signScenario is a history of signings.
type signScenario struct {
	Spec      model.Spec     `json:"spec"`
	Rounds    []signRound    `json:"rounds"`
	Attempts  [][]kern.Fault `json:"attempts,omitempty"` // faults of successive attempts at the first round
	ReadCap   []int          `json:"read_cap,omitempty"`
	Chunks    []int          `json:"chunks,omitempty"` // what the reader of a pipe takes
	SinkClose int            `json:"sink_close,omitempty"`
	SinkLate  int            `json:"sink_late,omitempty"` // calls until it opens the pipe
	Plan      stream.Plan    `json:"plan"`
	Jumps     []jump         `json:"jumps,omitempty"`
	Umask     int            `json:"umask,omitempty"`
	InMode    int            `json:"in_mode,omitempty"`  // permissions of the input, 0: 0644
	OutMode   int            `json:"out_mode,omitempty"` // of what is under the output name before
	Crowd     bool           `json:"crowd,omitempty"`    // files with similar names beside the output
	Rand      uint64         `json:"rand"`
	Share     bool           `json:"share,omitempty"` // rounds with equal options use the same ones
	shared    map[signRound]*rpmutils.SignatureOptions
}

// place is one arrangement of input and output.
type place struct {
	in, out string
	store   string // the file that in names, if it is a link
	final   string // the file that out finally names, "" for a pipe or an error
	cur     bool   // that file is the input
	fails   bool
	setup   func(k *kern.Kernel, sink *kern.Sink)
}

const other = "the file that was there before, which is longer than nothing\n"

var places = map[string]place{
	"new":    {in: "/p/in.rpm", out: "/d/out.rpm", final: "/d/out.rpm"},
	"newrel": {in: "/p/in.rpm", out: "out.rpm", final: "/d/w/out.rpm"},
	"newdot": {in: "/p/in.rpm", out: "./x/../out.rpm", final: "/d/w/out.rpm"},
	"beside": {in: "/p/in.rpm", out: "/p/in.rpm2", final: "/p/in.rpm2"},
	"over": {in: "/p/in.rpm", out: "/d/out.rpm", final: "/d/out.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutFile("/d/out.rpm", []byte(other))
	}},
	"overlinked": {in: "/p/in.rpm", out: "/d/out.rpm", final: "/d/out.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutFile("/d/out.rpm", []byte(other))
		k.PutLink("/d/w/sibling", "/d/out.rpm")
	}},
	// another file that has the name and the size of the input
	"overtwin": {in: "/p/in.rpm", out: "/d/in.rpm", final: "/d/in.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		in, _ := k.ReadFile("/p/in.rpm")
		k.PutFile("/d/in.rpm", bytes.Repeat([]byte("twin"), len(in)/4+1)[:len(in)])
	}},
	// a copy of the input
	"overcopy": {in: "/p/in.rpm", out: "/d/in.rpm", final: "/d/in.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		in, _ := k.ReadFile("/p/in.rpm")
		k.PutFile("/d/in.rpm", in)
	}},
	"same":    {in: "/p/in.rpm", out: "/p/in.rpm", final: "/p/in.rpm", cur: true},
	"samerel": {in: "/d/w/in.rpm", out: "in.rpm", final: "/d/w/in.rpm", cur: true},
	"samelinked": {in: "/p/in.rpm", out: "/p/in.rpm", final: "/p/in.rpm", cur: true, setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutLink("/d/w/sibling", "/p/in.rpm")
	}},
	"hardother": {in: "/p/in.rpm", out: "/d/out.rpm", final: "/d/out.rpm", cur: true, setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutLink("/d/out.rpm", "/p/in.rpm")
	}},
	"symin": {in: "/p/in.rpm", out: "/d/lnk", final: "/p/in.rpm", cur: true, setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutSymlink("/d/lnk", "../p/in.rpm")
	}},
	"symhard": {in: "/p/in.rpm", out: "/d/lnk", final: "/p/in.rpm", cur: true, setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutSymlink("/d/lnk", "/p/in.rpm")
		k.PutLink("/e/sibling", "/p/in.rpm")
	}},
	"symother": {in: "/p/in.rpm", out: "/d/lnk", final: "/e/target.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutFile("/e/target.rpm", []byte(other))
		k.PutSymlink("/d/lnk", "/e/target.rpm")
	}},
	"symotherlinked": {in: "/p/in.rpm", out: "/d/lnk", final: "/e/target.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutFile("/e/target.rpm", []byte(other))
		k.PutLink("/d/w/sibling", "/e/target.rpm")
		k.PutSymlink("/d/lnk", "../e/target.rpm")
	}},
	"symnew": {in: "/p/in.rpm", out: "lnk", final: "/e/new.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutSymlink("/d/w/lnk", "/e/new.rpm")
	}},
	"symchain": {in: "/p/in.rpm", out: "/d/lnk", final: "/e/target.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutFile("/e/target.rpm", []byte(other))
		k.PutSymlink("/e/second", "target.rpm")
		k.PutSymlink("/d/lnk", "../e/second")
	}},
	// ".." behind a symbolic link does not lead back
	"dotdot": {in: "/p/in.rpm", out: "/dl/../new.rpm", final: "/e/new.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutDir("/e/sub")
		k.PutSymlink("/dl", "e/sub")
	}},
	"dotdotover": {in: "/p/in.rpm", out: "../w/dl/../target.rpm", final: "/e/target.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutDir("/e/sub")
		k.PutSymlink("/d/w/dl", "/e/sub")
		k.PutFile("/e/target.rpm", []byte(other))
		k.PutFile("/d/w/target.rpm", []byte("not this one"))
	}},
	"symdotnew": {in: "/p/in.rpm", out: "/dl/lnk", final: "/e/new.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutDir("/e/sub")
		k.PutSymlink("/dl", "e/sub")
		k.PutSymlink("/e/sub/lnk", "../new.rpm")
	}},
	"symchainnew": {in: "/p/in.rpm", out: "/d/lnk", final: "/e/new.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutSymlink("/d/lnk", "w/../second")
		k.PutSymlink("/d/second", "/e/third")
		k.PutSymlink("/e/third", "./new.rpm")
	}},
	// the input is opened through a symbolic link
	"insym": {in: "/d/in.rpm", store: "/p/real.rpm", out: "/d/in.rpm", final: "/p/real.rpm", cur: true, setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutSymlink("/d/in.rpm", "/p/real.rpm")
	}},
	"insymreal": {in: "/d/in.rpm", store: "/p/real.rpm", out: "/p/real.rpm", final: "/p/real.rpm", cur: true, setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutSymlink("/d/in.rpm", "/p/real.rpm")
	}},
	"insymbeside": {in: "/d/in.rpm", store: "/p/real.rpm", out: "/p/in.rpm", final: "/p/in.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutSymlink("/d/in.rpm", "/p/real.rpm")
		k.PutFile("/p/in.rpm", []byte(other))
	}},
	"dash":   {in: "/p/in.rpm", out: "./-", final: "/d/w/-"},
	"star":   {in: "/p/in.rpm", out: "/d/a*b*.rpm", final: "/d/a*b*.rpm"},
	"bare":   {in: "/d/w/in", out: "rpm", final: "/d/w/rpm"},
	"dotted": {in: "/p/in.rpm", out: "/d/.hidden", final: "/d/.hidden"},
	"symdir": {in: "/p/in.rpm", out: "/dl/out.rpm", final: "/d/out.rpm", setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutSymlink("/dl", "d")
	}},
	"fifo": {in: "/p/in.rpm", out: "/d/pipe", setup: func(k *kern.Kernel, s *kern.Sink) { k.PutFifo("/d/pipe", s) }},
	"symfifo": {in: "/p/in.rpm", out: "/d/lnk", setup: func(k *kern.Kernel, s *kern.Sink) {
		k.PutFifo("/d/pipe", s)
		k.PutSymlink("/d/lnk", "pipe")
	}},
	"stdoutpipe": {in: "/p/in.rpm", out: "-", setup: func(k *kern.Kernel, s *kern.Sink) { k.PutFifo("/d/stdout", s) }},
	"stdoutfile": {in: "/p/in.rpm", out: "-", setup: func(k *kern.Kernel, _ *kern.Sink) { k.PutFile("/d/stdout", nil) }},
	"dir":        {in: "/p/in.rpm", out: "/d/w", fails: true},
	"nodir":      {in: "/p/in.rpm", out: "/none/out.rpm", fails: true},
	"loop": {in: "/p/in.rpm", out: "/d/lnk", fails: true, setup: func(k *kern.Kernel, _ *kern.Sink) {
		k.PutSymlink("/d/lnk", "lnk")
	}},
}

var modeNames = func() (l []string) {
	for n := range places {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}()

// replaced are the modes where a regular file results.
var fileModes = []string{"new", "newrel", "newdot", "beside", "over", "overtwin", "overcopy", "overlinked", "same", "same", "samerel", "samelinked", "hardother",
	"symin", "symhard", "symother", "symotherlinked", "symnew", "symchain", "symdir", "dotdot", "dotdotover", "symdotnew", "symchainnew",
	"insym", "insymreal", "insymbeside", "dash", "star", "bare", "dotted"}

// options builds the SignatureOptions of a round.
func (r *signRound) options() *rpmutils.SignatureOptions {
	switch r.Opts {
	case "zero":
		return &rpmutils.SignatureOptions{}
	case "hash":
		return &rpmutils.SignatureOptions{Hash: model.Hashes[r.Hash]}
	case "time":
		return &rpmutils.SignatureOptions{CreationTime: r.zoned()}
	case "both":
		return &rpmutils.SignatureOptions{Hash: model.Hashes[r.Hash], CreationTime: r.zoned()}
	}
	return nil
}

// options are those of a round, which may be those of an earlier one.
func (sc *signScenario) options(r *signRound) *rpmutils.SignatureOptions {
	if !sc.Share {
		return r.options()
	}
	if sc.shared == nil {
		sc.shared = map[signRound]*rpmutils.SignatureOptions{}
	}
	id := signRound{Opts: r.Opts, Hash: r.Hash, Time: r.Time, Frac: r.Frac, Zone: r.Zone}
	o, ok := sc.shared[id]
	if !ok {
		o = r.options()
		sc.shared[id] = o
	}
	return o
}

func (r *signRound) zoned() time.Time {
	t := time.Unix(r.Time, r.Frac).UTC()
	if r.Zone != 0 {
		t = t.In(time.FixedZone("there", r.Zone*60))
	}
	return t
}

func (r *signRound) wantHash() crypto.Hash {
	if r.Opts == "hash" || r.Opts == "both" || r.Route == "raw" {
		if h := model.Hashes[r.Hash]; h != 0 {
			return h
		}
	}
	return crypto.SHA256
}

func (r *signRound) setsTime() bool { return r.Opts == "time" || r.Opts == "both" || r.Route == "raw" }

// signResult is how one signing went.
type signResult struct {
	end    End
	err    error
	hdr    *rpmutils.RpmHeader
	out    []byte // the output, if any could be found
	t0, t1 int64  // wall clock shown during the call, seconds
	calls  int
	trace  []kern.Call
	open   []string
	lost   bool
	closed int
	gor    int
}

// machine is the world of one signing.
type machine struct {
	k    *kern.Kernel
	pl   place
	sink *kern.Sink
}

func (sc *signScenario) world(mode string, in []byte) *machine {
	m := &machine{k: kern.New(), pl: places[mode], sink: &kern.Sink{Chunks: sc.Chunks, CloseAt: -1}}
	k := m.k
	k.PutDir("/d/w/x")
	k.PutDir("/e")
	k.PutFile("/d/w/bystander", []byte("keep me"))
	k.PutFile("/e/other", []byte("keep me too"))
	if m.pl.store != "" {
		k.PutFile(m.pl.store, in)
	} else {
		k.PutFile(m.pl.in, in)
	}
	if m.pl.setup != nil {
		m.pl.setup(k, m.sink)
	}
	if sc.Crowd && m.pl.final != "" {
		dir, base := path.Split(m.pl.final)
		stem := strings.TrimSuffix(base, path.Ext(base))
		for i, n := range []string{base + ".tmp", "." + base + ".tmp", base + "~", base + ".bak", base + ".new", "." + base, base + ".sig", base + ".part", stem, stem + ".tmp", base + "1", ".tmp", "tmp",
			base + ".orig", base + ".old", base + ".signed", base + ".lock", base + "-", "#" + base + "#", base + ".0"} {
			if n != "" && n != "." && !k.Exists(dir+n) {
				k.PutFile(dir+n, []byte(fmt.Sprint("neighbour ", i)))
			}
		}
	}
	if sc.OutMode != 0 && m.pl.final != "" {
		k.PutMode(m.pl.final, uint32(sc.OutMode))
	}
	if sc.InMode != 0 {
		k.PutMode(m.pl.in, uint32(sc.InMode))
	}
	k.Chdir("/d/w")
	k.SetUmask(uint32(sc.Umask))
	k.SyncAll()
	return m
}

// sign performs one signing on the machine under faults.
func (sc *signScenario) sign(c *Ctx, m *machine, rd *signRound, in []byte, faults []kern.Fault, trace bool) signResult {
	var res signResult
	k := m.k
	k.Faults = faults
	k.ReadCap = sc.ReadCap
	k.HardFired, k.Crashed = 0, false
	m.sink.Got = nil
	m.sink.CloseAt = -1
	m.sink.Late = sc.SinkLate
	if sc.SinkClose > 0 {
		m.sink.CloseAt = sc.SinkClose - 1
	}
	var f, stdout *os.File
	var err error
	if rd.Route == "file" || rd.Route == "raw" {
		if f, err = os.Open(m.pl.in); err != nil {
			c.Err = "opening the input: " + err.Error()
			return res
		}
		if m.pl.out == "-" {
			if stdout, err = os.OpenFile("/d/stdout", os.O_WRONLY, 0); err != nil {
				c.Err = "opening standard output: " + err.Error()
				return res
			}
			os.Stdout = stdout
		}
	}
	before := runtime.NumGoroutine()
	mine := len(k.OpenFds())
	var pgp, rsa []byte
	if rd.Route == "raw" {
		p, err := model.Parse(in)
		if err != nil {
			c.Fail("unreadable", "the input, which the library made in an earlier step, is no package: %v", err)
			return res
		}
		s := model.Sign{Key: rd.Key, Hash: rd.Hash, Time: rd.Time}
		rsa = model.MakeSig(s, p.GenRaw)
		pgp = model.MakeSig(s, p.GenRaw, p.Payload)
	}
	src := stream.New(in, sc.Plan)
	keep, kt := k.KeepTrace, len(k.Trace)
	k.KeepTrace = true
	k.WatchClock(sc.clockJumps())
	k.Arm()
	key := model.SigningKey(rd.Key)
	res.end = c.Proc(Budget+80*len(in), func() {
		switch rd.Route {
		case "file":
			res.hdr, res.err = rpmutils.SignRpmFile(f, m.pl.out, key, sc.options(rd))
		case "raw":
			res.hdr, res.err = rpmutils.RewriteWithSignatures(f, m.pl.out, pgp, rsa)
		default:
			res.hdr, res.err = rpmutils.SignRpmStream(src, key, sc.options(rd))
			if res.err == nil {
				var head []byte
				head, res.err = res.hdr.DumpSignatureHeader(rd.Route == "splice")
				if res.err == nil {
					n := res.hdr.OriginalSignatureHeaderSize()
					if n < 0 || n > len(in) {
						res.err = fmt.Errorf("original signature header size %d of %d", n, len(in))
						return
					}
					res.out = append(append([]byte(nil), head...), in[n:]...)
				}
			}
		}
	})
	res.calls = k.Calls()
	lo, hi := k.ClockSeen()
	res.t0, res.t1 = floorSec(lo), floorSec(hi)
	k.Disarm()
	k.WatchClock(nil)
	k.ReadCap = nil
	res.trace = append([]kern.Call(nil), k.Trace[kt:]...)
	if !keep && !c.Keep {
		k.Trace = k.Trace[:kt]
	}
	k.KeepTrace = keep
	if res.end.Kind == "ok" {
		open := k.OpenFds()
		want := 0
		if f != nil {
			want++
		}
		if stdout != nil {
			want++
		}
		if len(open) < want || want > 0 && open[0] != m.pl.in || want > 1 && open[1] != "/d/stdout" {
			res.lost = true
		}
		if len(open) > mine {
			res.open = open[mine:]
		}
		if f != nil {
			f.Close()
		}
		if stdout != nil {
			stdout.Close()
		}
		res.gor = settle(before)
		res.closed = src.Closed
		switch {
		case rd.Route != "file" && rd.Route != "raw":
		case m.pl.final != "":
			res.out, _ = k.ReadFile(m.pl.final)
		case m.pl.out == "-":
			if res.out, _ = k.ReadFile("/d/stdout"); res.out == nil {
				res.out = m.sink.Got
			}
		case !m.pl.fails:
			res.out = m.sink.Got
		}
	}
	c.Source(src)
	c.Mix("sign %s %s %s err=%v", rd.Route, rd.Mode, res.end.Kind, res.err)
	return res
}

func floorSec(ns int64) int64 {
	s := ns / 1e9
	if ns%1e9 < 0 {
		s--
	}
	return s
}

func (sc *signScenario) clockJumps() map[int]int64 {
	m := map[int]int64{}
	for _, j := range sc.Jumps {
		m[j.At] += j.By * 1_000_000
	}
	return m
}

var sigTags = map[int]bool{267: true, 268: true, 1002: true, 1005: true, 1008: true, 62: true}

// sameTags compares the tags of two signature headers that signing keeps.
func sameTags(a, b map[int]model.Tag, skip map[int]bool) string {
	for _, id := range tagIDs(a) {
		if skip[id] {
			continue
		}
		x := a[id]
		y, ok := b[id]
		if !ok {
			return fmt.Sprintf("tag %d is gone", id)
		}
		if x.Type != y.Type || x.Count != y.Count || !bytes.Equal(x.Data, y.Data) {
			return fmt.Sprintf("tag %d changed from type %d count %d % x to type %d count %d % x", id, x.Type, x.Count, trunc(x.Data), y.Type, y.Count, trunc(y.Data))
		}
	}
	for _, id := range tagIDs(b) {
		if _, ok := a[id]; !ok && !skip[id] {
			return fmt.Sprintf("tag %d is new", id)
		}
	}
	return ""
}

func trunc(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

func tagIDs(m map[int]model.Tag) []int {
	var l []int
	for id := range m {
		l = append(l, id)
	}
	sort.Ints(l)
	return l
}

// diffSigned compares a signed package with its original: "" if it is exactly
// what signing should have made. t0 and t1 bound the signature time if the
// round does not set it.
func diffSigned(in, out []byte, rd *signRound, t0, t1 int64) (class, what string) {
	a, err := model.Parse(in)
	if err != nil {
		return "input", err.Error()
	}
	b, err := model.Parse(out)
	if err != nil {
		return "package", fmt.Sprintf("the output (%d bytes) is not a package: %v", len(out), err)
	}
	if len(b.Problems) > 0 {
		return "package", "the signature header is malformed: " + strings.Join(b.Problems, ", ")
	}
	if !bytes.Equal(a.Lead, b.Lead) {
		return "package", "the lead changed"
	}
	if !bytes.Equal(a.GenRaw, b.GenRaw) {
		return "package", "the general header changed"
	}
	if !bytes.Equal(a.Payload, b.Payload) {
		return "package", fmt.Sprintf("the payload changed: %d bytes, were %d", len(b.Payload), len(a.Payload))
	}
	if d := sameTags(a.Sig, b.Sig, sigTags); d != "" {
		return "tags", "signature header: " + d
	}
	for _, id := range []int{267, 1005} {
		if _, ok := b.Sig[id]; ok {
			return "signature", fmt.Sprintf("an old signature is still there in tag %d", id)
		}
	}
	for _, s := range []struct {
		id    int
		parts [][]byte
	}{{268, [][]byte{b.GenRaw}}, {1002, [][]byte{b.GenRaw, b.Payload}}} {
		t, ok := b.Sig[s.id]
		if !ok {
			return "signature", fmt.Sprintf("no signature in tag %d", s.id)
		}
		if t.Type != 7 || t.Count != len(t.Data) {
			return "signature", fmt.Sprintf("tag %d has type %d and count %d for %d bytes", s.id, t.Type, t.Count, len(t.Data))
		}
		i, err := model.ParseSig(t.Data)
		if err != nil {
			return "signature", fmt.Sprintf("tag %d: %v", s.id, err)
		}
		pub := model.PublicKey(rd.Key)
		if !i.Names(pub) || i.KeyID != pub.KeyId {
			return "signature", fmt.Sprintf("tag %d names key %x, not %x", s.id, i.KeyID, pub.KeyId)
		}
		if err := i.Check(pub, s.parts...); err != nil {
			return "signature", fmt.Sprintf("the signature in tag %d does not verify: %v", s.id, err)
		}
		if d := rd.diffMeta(i.Hash, i.Time, t0, t1); d != "" {
			return "time", fmt.Sprintf("tag %d: %s", s.id, d)
		}
	}
	return "", ""
}

// diffMeta compares hash and time of a signature with what was asked for.
func (r *signRound) diffMeta(h crypto.Hash, t time.Time, t0, t1 int64) string {
	if h != r.wantHash() {
		return fmt.Sprintf("hash is %v, not %v", h, r.wantHash())
	}
	if r.setsTime() {
		if t.Unix() != r.Time {
			return fmt.Sprintf("time is %d, not %d", t.Unix(), r.Time)
		}
	} else if t.Unix() < t0 || t.Unix() > t1 {
		return fmt.Sprintf("time is %d, outside of [%d, %d] that the clock showed", t.Unix(), t0, t1)
	}
	return ""
}

// libVerify asks the library's own verification.
func libVerify(c *Ctx, out []byte, rd *signRound, t0, t1 int64) {
	name, _, _ := strings.Cut(rd.Key, "/")
	ring := model.Ring("mallory", name)
	if name == "mallory" {
		ring = model.Ring("bob", name)
	}
	var sigs []*rpmutils.Signature
	var err error
	if !c.Healthy(c.Proc(Budget+80*len(out), func() {
		_, sigs, err = rpmutils.Verify(bytes.NewReader(out), ring)
	}), "verifying the signed package") {
		return
	}
	if err != nil {
		c.Fail("verify", "the library rejects the signed package: %v", err)
		return
	}
	n := map[bool]int{}
	for _, s := range sigs {
		n[s.HeaderOnly]++
		if s.Signer == nil || s.Signer.PrimaryKey.KeyId != model.Keys[name].PrimaryKey.KeyId {
			c.Fail("verify", "the library reports another signer")
		}
		if s.KeyId != model.PublicKey(rd.Key).KeyId {
			c.Fail("verify", "the library reports key %x, signed by %x", s.KeyId, model.PublicKey(rd.Key).KeyId)
		}
		if d := rd.diffMeta(s.Hash, s.CreationTime, t0, t1); d != "" {
			c.Fail("time", "verification reports: %s", d)
		}
	}
	if len(sigs) != 2 || n[true] != 1 || n[false] != 1 {
		c.Fail("verify", "the library reports %d signatures, %d of them header-only", len(sigs), n[true])
	}
}

// dry runs the first round without faults to learn its system calls.
func (sc *signScenario) dry() ([]kern.Call, int) {
	c := &Ctx{}
	runtime.SimRand(true, sc.Rand)
	out := os.Stdout
	defer func() { os.Stdout = out; runtime.SimRand(false, 0) }()
	in := sc.Spec.Build().Raw
	m := sc.world(sc.Rounds[0].Mode, in)
	m.k.Boot()
	defer m.k.Halt()
	res := sc.sign(c, m, &sc.Rounds[0], in, nil, true)
	return res.trace, res.calls
}

var signKeys = []string{"alice", "bob", "carol", "dave", "dave/sub", "dave/sub2", "mallory"}
var signHashes = []string{"sha256", "sha256", "sha512", "sha384", "sha224", "sha1"}

func genRound(r *rng.R, modes []string, routes ...string) signRound {
	rd := signRound{Route: rng.Of(r, routes), Key: rng.Of(r, signKeys), Mode: rng.Of(r, modes)}
	rd.Opts = rng.Pick(r, "", "zero", "hash", "time", "both", "both")
	if rd.Route != "file" && rd.Route != "raw" {
		rd.Mode = "new"
	}
	if rd.Route == "raw" {
		rd.Opts = ""
	}
	if rd.Opts == "hash" || rd.Opts == "both" || rd.Route == "raw" {
		rd.Hash = rng.Of(r, signHashes)
		if rd.Key == "carol" && rd.Hash == "sha1" {
			rd.Hash = "sha512"
		}
	}
	if rd.setsTime() {
		rd.Time = rng.Pick(r, int64(1_500_000_000+r.N(100_000_000)), int64(1_400_000_000), 0, 1, int64(1)<<32-1, int64(1)<<31, int64(r.N(1<<31)+1))
		if rd.Route != "raw" {
			rd.Frac = int64(rng.Pick(r, 0, 0, 1, 500_000_000, 999_999_999))
			rd.Zone = rng.Pick(r, 0, 0, 60, -300, 330, 840, -720)
		}
	}
	return rd
}

// genSignSpec makes a package to sign. The files hardly matter to signing.
func genSignSpec(r *rng.R) model.Spec {
	s := genSpec(r, specOpts{Files: archOpts{Max: 3}, Comp: []string{"gzip", "zstd", "uncompressed", "-gzip", "uncompressed", "xz"}, Signed: true, Digest: true})
	if s.Compressor == "xz" && r.P(3, 4) {
		s.Compressor = "gzip"
	}
	if r.P(1, 3) {
		s.Reserved = rng.Pick(r, 1024, 4096, 2000, 700, 600, 620)
	}
	return s
}

func genJumps(r *rng.R, n int) (out []jump) {
	for ; n > 0; n-- {
		out = append(out, jump{At: r.Range(1, 6), By: int64(rng.Pick(r, 1, -1)) * int64(rng.Pick(r, 1, 999, 1000, 3600_000, 86400_000, 30*86400_000, r.N(10_000)))})
	}
	return
}

func (r *signRound) valid() bool {
	if _, ok := places[r.Mode]; !ok || !validKey(r.Key) || !validHash(r.Hash) {
		return false
	}
	if r.Key == "carol" && r.Hash == "sha1" || r.Time < 0 || r.Time >= 1<<32 || r.Frac < 0 || r.Frac > 999_999_999 || r.Zone < -840 || r.Zone > 840 {
		return false
	}
	switch r.Opts {
	case "", "zero":
	case "hash", "both", "time":
	default:
		return false
	}
	switch r.Route {
	case "file", "raw":
	case "splice", "splice-small":
		if r.Mode != "new" {
			return false
		}
	default:
		return false
	}
	return true
}

func (sc *signScenario) valid(modes []string) bool {
	if sc.InMode < 0 || sc.InMode > 07777 || sc.OutMode < 0 || sc.OutMode > 07777 {
		return false
	}
	if !validSpec(&sc.Spec, true) || len(sc.Rounds) == 0 || !validPlan(&sc.Plan) || sc.Plan.Cut != 0 || sc.SinkClose < 0 || sc.SinkLate < 0 {
		return false
	}
	for i := range sc.Rounds {
		ok := false
		for _, m := range modes {
			ok = ok || m == sc.Rounds[i].Mode
		}
		if !ok || !sc.Rounds[i].valid() {
			return false
		}
	}
	for _, a := range sc.Attempts {
		if !validFaults(a) {
			return false
		}
	}
	for _, j := range sc.Jumps {
		if j.At < 1 {
			return false
		}
	}
	return true
}

// runHistory is C09 and C16: signings one after the other, nothing lost.
func runHistory(sc *signScenario, c *Ctx, timing bool) {
	runtime.SimRand(true, sc.Rand)
	sc.shared = nil
	p := sc.Spec.Build()
	cur := p.Raw
	c.Plain = len(sc.Rounds) == 1 && len(sc.ReadCap) == 0 && plainPlan(sc.Plan) && len(sc.Jumps) == 0 && len(sc.Spec.PreSign) == 0
	for i := range sc.Rounds {
		rd := &sc.Rounds[i]
		m := sc.world(rd.Mode, cur)
		m.k.Now += int64(i) * 3601_500_000_000
		start := m.k.Now
		m.k.Boot()
		var faults []kern.Fault
		if i < len(sc.Attempts) {
			faults = sc.Attempts[i]
		}
		was := 0
		if m.pl.final != "" {
			was = m.k.InodeOf(m.pl.final, true)
		}
		res := sc.sign(c, m, rd, cur, faults, false)
		final := m.pl.fails
		if c.Err == "" && c.Healthy(res.end, "signing") {
			switch {
			case final && res.err == nil:
				c.Fail("signed", "signing to a %s succeeded", rd.Mode)
			case final:
			case res.err != nil:
				c.Fail("refused", "signing an intact package (%s to %s) failed: %v", rd.Route, rd.Mode, res.err)
			default:
				class, what := diffSigned(cur, res.out, rd, res.t0, res.t1)
				if class != "" && (class == "time") == timing {
					c.Fail(class, "after signing %d (%s to %s): %s", i+1, rd.Route, rd.Mode, what)
				}
				if class == "" || class == "time" {
					libVerify(c, res.out, rd, res.t0, res.t1)
				}
				if m.pl.final != "" && !timing && (rd.Route == "file" || rd.Route == "raw") && len(faults) == 0 {
					// made by the library, not by its caller
					if id := m.k.InodeOf(m.pl.final, true); id != 0 && id != was {
						c.Probe("output file made")
						if mode := m.k.ModeOf(m.pl.final); mode != 0644 {
							c.Fail("mode", "signing to %s made a file of mode %04o instead of 0644", rd.Mode, mode)
						}
					}
				}
				cur = res.out
			}
		}
		c.Kernel(m.k, start)
		m.k.Halt()
		c.Probe("mode " + rd.Mode)
		c.Probe("route " + rd.Route)
		if c.Failed() {
			return
		}
	}
	if len(sc.Rounds) > 1 {
		c.Probe("signed again")
	}
	c.Mix("out %d", len(cur))
}

// runAttempts is C10 to C13: attempts at one signing under faults, then once
// more on a healthy machine, with everything watched at every call.
func runAttempts(sc *signScenario, c *Ctx, which string) {
	runtime.SimRand(true, sc.Rand)
	rd := &sc.Rounds[0]
	p := sc.Spec.Build()
	m := sc.world(rd.Mode, p.Raw)
	k := m.k
	start := k.Now
	k.Boot()
	defer k.Halt()
	c.Plain = len(sc.Attempts) == 0
	c.Probe("mode " + rd.Mode)
	attempts := append([][]kern.Fault{}, sc.Attempts...)
	attempts = append(attempts, nil) // the healthy one
	for i, faults := range attempts {
		in, ok := k.ReadFile(m.pl.in)
		if !ok {
			c.Fail("input", "the input is gone")
			return
		}
		w := sc.watch(c, m, rd, in, which)
		res := sc.sign(c, m, rd, in, faults, true)
		w.stop()
		if c.Failed() {
			break
		}
		power := false
		for _, f := range faults {
			power = power || f.Kind == "power"
		}
		switch {
		case res.end.Kind == "crashed":
			if power {
				k.PowerLoss(sc.Rand + uint64(i))
				c.Probe("power lost")
			} else {
				c.Probe("killed")
			}
			k.Restart()
			w.check("after the crash")
			w.after(true)
		case !c.Healthy(res.end, "signing"):
		case res.err == nil:
			c.Probe("attempt succeeded")
			w.check("at the end")
			w.success(res)
			w.after(false)
		default:
			c.Probe("attempt failed")
			w.check("after the error")
			w.failure(res)
			w.after(false)
		}
		k.Restart()
		k.SyncAll() // time passes before the next attempt
		if c.Failed() {
			break
		}
		if i == len(attempts)-1 {
			if m.pl.fails != (res.err != nil) && sc.SinkClose == 0 {
				c.Fail("refused", "signing on a healthy machine: %v", res.err)
			}
			break
		}
		if w.inPlace && res.err != nil || w.inPlace && res.end.Kind == "crashed" {
			c.Probe("interrupted in place")
			break // the signature area may be half-written now
		}
	}
	c.Kernel(k, start)
}

// watcher checks one attempt.
type watcher struct {
	c        *Ctx
	m        *machine
	rd       *signRound
	in       []byte
	which    string
	gen      int // where the general header starts in the input
	before   map[string]kern.Node
	finalID  int
	finalWas []byte
	existed  bool
	inID     int
	names    int // of the input
	old      map[int]string
	inPlace  bool
	lo       int64
	good     map[string]bool
}

func (sc *signScenario) watch(c *Ctx, m *machine, rd *signRound, in []byte, which string) *watcher {
	k := m.k
	w := &watcher{c: c, m: m, rd: rd, in: in, which: which, before: k.Snapshot("/", nil), old: map[int]string{}, lo: k.Now, good: map[string]bool{}}
	p, err := model.Parse(in)
	if err != nil {
		c.Fail("unreadable", "before %s the input, which the library made in an earlier step, is no package: %v", which, err)
		return w
	}
	w.gen = 96 + len(p.SigRaw)
	if m.pl.final != "" {
		w.finalID = k.InodeOf(m.pl.final, true)
		w.finalWas, w.existed = k.ReadFile(m.pl.final)
	}
	w.inID = k.InodeOf(m.pl.in, true)
	for p, n := range w.before {
		if n.Kind == "file" {
			w.old[n.Ino] = "/" + p
		}
		if n.Ino == w.inID {
			w.names++
		}
	}
	k.OnMutate = w.mutate
	k.AfterCall = func(string) { w.check("during signing") }
	return w
}

func (w *watcher) stop() {
	w.m.k.OnMutate = nil
	w.m.k.AfterCall = nil
}

// mayUpdate: the output is the input itself, under its only name.
func (w *watcher) mayUpdate() bool { return w.finalID == w.inID && w.names == 1 }

func (w *watcher) mutate(mu kern.Mutation) {
	if mu.Ino == w.inID && (mu.Op == "write" || mu.Op == "truncate") {
		w.inPlace = true
	}
	if w.which != "C12" {
		return
	}
	pl := w.m.pl
	if p, ok := w.old[mu.Ino]; ok {
		switch mu.Op {
		case "write", "truncate":
			if mu.Ino == w.inID && w.mayUpdate() || p == "/d/stdout" && pl.out == "-" {
				return
			}
			w.c.Fail("changed", "%s of %q changes the contents of %s", mu.Op, mu.Path, p)
		case "chmod", "chown", "utimes":
			if mu.Ino == w.inID && w.mayUpdate() {
				return
			}
			w.c.Fail("changed", "%s of %q changes %s", mu.Op, mu.Path, p)
		case "unlink", "rename-from":
			if mu.Ino == w.finalID {
				return // judged by what the names lead to in the end
			}
			w.c.Fail("changed", "%s of %q removes %s", mu.Op, mu.Path, p)
		}
	}
}

// check is the invariant of every moment.
func (w *watcher) check(when string) {
	c, k, pl := w.c, w.m.k, w.m.pl
	if c.Failed() {
		return
	}
	switch w.which {
	case "C10":
		if pl.final == "" || w.inPlace {
			return
		}
		data, ok := k.ReadFile(pl.final)
		id := k.InodeOf(pl.final, true)
		if !ok {
			if w.existed || id != 0 {
				c.Fail("gone", "%s %s is gone", when, pl.final)
			}
			return
		}
		if w.existed && bytes.Equal(data, w.finalWas) {
			return
		}
		if w.good[string(data)] {
			return
		}
		if class, what := diffSigned(w.in, data, w.rd, floorSec(w.lo), floorSec(k.Now)); class != "" {
			c.Fail("partial", "%s %s holds %d bytes that are neither the old file nor the complete new package: %s", when, pl.final, len(data), what)
			return
		}
		w.good[string(data)] = true
		c.Probe("new package under its name")
	case "C13":
		if !w.inPlace {
			return
		}
		c.Probe("updated in place")
		id := k.InodeOf(pl.in, true)
		if id != w.inID {
			return // replaced
		}
		data, _ := k.ReadFile(pl.in)
		if len(data) != len(w.in) {
			c.Fail("size", "%s the package updated in place has %d bytes instead of %d", when, len(data), len(w.in))
		} else if !bytes.Equal(data[w.gen:], w.in[w.gen:]) {
			c.Fail("behind", "%s updating in place changed what is behind the signature header", when)
		}
	case "C12":
		in, _ := k.ReadFile(pl.in)
		if !pl.cur && !bytes.Equal(in, w.in) {
			c.Fail("changed", "%s the input has changed", when)
		}
	}
}

// success: the call reported that all is done.
func (w *watcher) success(res signResult) {
	c, pl := w.c, w.m.pl
	switch w.which {
	case "C11":
		if pl.fails {
			c.Fail("success", "signing to %s reported success", w.rd.Mode)
			return
		}
		if class, what := diffSigned(w.in, res.out, w.rd, res.t0, res.t1); class != "" {
			c.Fail("incomplete", "signing to %s reported success, but: %s", w.rd.Mode, what)
			return
		}
		for _, t := range res.trace {
			bad := false
			switch t.Op {
			case "write", "rename":
				bad = t.Err != 0 && t.Err != syscall.EINTR
			case "fsync": // a disk that reports an error has not got the data
				bad = t.Err == syscall.EIO || t.Err == syscall.ENOSPC
			case "close":
				bad = t.Err != 0 && t.Ret == 1
			}
			if bad {
				c.Fail("swallowed", "signing to %s reported success although %s of %s failed: %v", w.rd.Mode, t.Op, t.Path, t.Err)
				return
			}
		}
	case "C13":
		if w.inPlace && w.m.k.InodeOf(pl.in, true) == w.inID {
			if class, what := diffSigned(w.in, res.out, w.rd, res.t0, res.t1); class != "" {
				c.Fail("incomplete", "updating in place reported success, but: %s", what)
			}
		}
	}
}

// failure: the call reported an error.
func (w *watcher) failure(res signResult) {
	c, k, pl := w.c, w.m.k, w.m.pl
	if w.which != "C11" || pl.final == "" || w.inPlace {
		return
	}
	if id := k.InodeOf(pl.final, true); id != w.finalID {
		c.Fail("replaced", "signing to %s failed (%v), but the output path names something else now", w.rd.Mode, res.err)
		return
	}
	if data, ok := k.ReadFile(pl.final); ok != w.existed || !bytes.Equal(data, w.finalWas) {
		c.Fail("replaced", "signing to %s failed (%v), but the output path has changed", w.rd.Mode, res.err)
		return
	}
	for _, t := range res.trace {
		if (t.Op == "unlink" || t.Op == "rmdir") && t.Err != 0 {
			return // could not clean up
		}
	}
	after := k.Snapshot("/", nil)
	for _, p := range sortedKeys(after) {
		if _, ok := w.before[p]; !ok {
			c.Fail("left", "signing to %s failed (%v) and left %q behind", w.rd.Mode, res.err, p)
			return
		}
	}
}

// after compares the world with what it was.
func (w *watcher) after(crashed bool) {
	c, k, pl := w.c, w.m.k, w.m.pl
	if w.which != "C12" || c.Failed() {
		return
	}
	now := k.Snapshot("/", nil)
	final := strings.TrimPrefix(pl.final, "/")
	for _, p := range sortedKeys(w.before) {
		x := w.before[p]
		y, ok := now[p]
		if p == final {
			continue
		}
		if !ok {
			c.Fail("changed", "%q is gone", p)
			return
		}
		x.Nlink, y.Nlink = 0, 0
		if p == "d/stdout" {
			continue
		}
		if x.Ino == w.inID && w.mayUpdate() {
			continue
		}
		if x != y {
			c.Fail("changed", "%q was %v and is %v", p, x, y)
			return
		}
	}
	for _, p := range sortedKeys(now) {
		if _, ok := w.before[p]; !ok && p != final {
			if pl.final != "" && path.Dir("/"+p) == path.Dir(pl.final) {
				if crashed {
					continue // an unfinished temporary file
				}
				if w.unclean() {
					continue
				}
			}
			c.Fail("changed", "%q is new", p)
			return
		}
	}
}

// unclean reports whether removing a file was made to fail.
func (w *watcher) unclean() bool { return w.m.k.Fired["errno:unlink"] > 0 }

func (sc *signScenario) faultFree() bool {
	for _, a := range sc.Attempts {
		for _, f := range a {
			if f.Kind != "short" && f.Kind != "eintr" {
				return false
			}
		}
	}
	return true
}

func genSignBase(r *rng.R) *signScenario {
	sc := &signScenario{Spec: genSignSpec(r), Rand: r.U64() >> 12, Umask: rng.Pick(r, 022, 022, 077, 0)}
	if r.P(1, 3) {
		sc.ReadCap = rng.Pick(r, []int{1}, []int{7}, []int{100, 0, 3}, []int{4096}, []int{96}, []int{16})
	}
	if r.P(1, 2) {
		sc.Chunks = rng.Pick(r, []int{1}, []int{13}, []int{100, 0, 3}, []int{96})
	}
	sc.Crowd = r.P(1, 4)
	if r.P(1, 3) {
		sc.InMode, sc.OutMode = rng.Pick(r, 0600, 0444, 0640, 0755, 0666), rng.Pick(r, 0, 0600, 0444, 0666, 04755)
	}
	if r.P(1, 2) {
		sc.SinkLate = rng.Pick(r, 1, 3, 10, 1000)
	}
	return sc
}

func init() {
	register(&Property{
		ID:  "C09",
		New: func() any { return &signScenario{} },
		Gen: func(r *rng.R, deep bool) any {
			sc := genSignBase(r)
			sc.Plan = genPlan(r, 4000)
			sc.ReadCap = nil
			if r.P(1, 5) {
				sc.ReadCap = rng.Pick(r, []int{7}, []int{100, 0, 3}, []int{4096}, []int{96}, []int{16})
			}
			n := rng.Pick(r, 1, 1, 2, 2, 3)
			if deep {
				n = r.Range(1, 6)
			}
			for i := 0; i < n; i++ {
				sc.Rounds = append(sc.Rounds, genRound(r, modeNames, "file", "file", "file", "raw", "splice", "splice-small"))
			}
			if r.P(1, 3) {
				trace, calls := sc.dry()
				sc.Attempts = append(sc.Attempts, genFaults(r, trace, calls, r.Range(1, 3), "short", "eintr"))
			}
			return sc
		},
		Run: func(s any, c *Ctx) { runHistory(s.(*signScenario), c, false) },
		Valid: func(s any) bool {
			sc := s.(*signScenario)
			return sc.valid(modeNames) && sc.SinkClose == 0 && sc.faultFree()
		},
	})
	register(&Property{
		ID:  "C16",
		New: func() any { return &signScenario{} },
		Gen: func(r *rng.R, deep bool) any {
			sc := genSignBase(r)
			sc.ReadCap = nil
			sc.Plan = genPlan(r, 4000)
			n := rng.Pick(r, 1, 1, 2, 3)
			for i := 0; i < n; i++ {
				rd := genRound(r, modeNames, "file", "file", "splice", "splice-small")
				if places[rd.Mode].fails {
					rd.Mode = "same"
				}
				sc.Rounds = append(sc.Rounds, rd)
			}
			if n > 1 && r.Bool() {
				sc.Share = true
				for i := range sc.Rounds {
					a, b := &sc.Rounds[0], &sc.Rounds[i]
					b.Opts, b.Hash, b.Time, b.Frac, b.Zone = a.Opts, a.Hash, a.Time, a.Frac, a.Zone
					if b.Key == "carol" && b.Hash == "sha1" {
						b.Key = "bob"
					}
				}
			}
			sc.Jumps = genJumps(r, r.N(4))
			return sc
		},
		Run: func(s any, c *Ctx) { runHistory(s.(*signScenario), c, true) },
		Valid: func(s any) bool {
			sc := s.(*signScenario)
			return sc.valid(modeNames) && sc.SinkClose == 0 && sc.faultFree()
		},
	})
	for id, kinds := range map[string][]string{
		"C10": {"crash", "power", "err", "full", "short", "crash", "power"},
		"C11": {"err", "err", "err", "full", "short", "eintr", "crash"},
		"C12": {"err", "full", "short", "crash", "power", "eintr"},
		"C13": {"crash", "power", "err", "full", "short", "crash", "power"},
	} {
		modes := modeNames
		if id == "C10" {
			modes = fileModes
		}
		if id == "C13" {
			modes = []string{"same", "same", "samerel", "symin", "samelinked", "hardother", "symhard", "insym", "insymreal"}
		}
		register(&Property{
			ID:  id,
			New: func() any { return &signScenario{} },
			Gen: func(r *rng.R, deep bool) any {
				sc := genSignBase(r)
				if id == "C13" && r.P(3, 4) {
					sc.Spec.Reserved = rng.Pick(r, 1024, 4096, 700, 640)
				}
				rd := genRound(r, modes, "file", "file", "file", "raw")
				sc.Rounds = []signRound{rd}
				if id == "C11" && r.P(1, 10) {
					sc.SinkClose = 1 + r.N(3000)
				}
				n := rng.Pick(r, 1, 1, 1, 2)
				if deep {
					n = r.Range(1, 4)
				}
				trace, calls := sc.dry()
				for i := 0; i < n; i++ {
					sc.Attempts = append(sc.Attempts, genFaults(r, trace, calls, rng.Pick(r, 1, 1, 1, 2, 3), kinds...))
				}
				if id == "C10" && r.P(1, 6) {
					// a call fails, and what is done about it is interrupted
					f := failing(r, trace, 1, "fsync", "rename", "close", "chmod", "write", "creat")
					sc.Attempts[0] = append(f, kern.Fault{Kind: rng.Pick(r, "crash", "power"), At: r.Range(max(1, calls-8), calls+8), Sel: r.N(6000)})
				}
				return sc
			},
			Run: func(s any, c *Ctx) { runAttempts(s.(*signScenario), c, id) },
			Valid: func(s any) bool {
				sc := s.(*signScenario)
				r := sc.Rounds
				return sc.valid(modes) && len(r) == 1 && (r[0].Route == "file" || r[0].Route == "raw")
			},
		})
	}
}
