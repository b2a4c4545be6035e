package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"sort"
	"strings"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"

	"verifsim/kern"
	"verifsim/model"
	"verifsim/rng"
	"verifsim/rt"
	"verifsim/stream"
)

// opScenario is one operation of the library on one input: what C01, C02, C03
// and C08 are about.
type opScenario struct {
	Op       string        `json:"op"`
	Spec     *model.Spec   `json:"spec,omitempty"`
	Files    []model.Entry `json:"files,omitempty"` // for the ops on bare archives
	Muts     []mut         `json:"muts,omitempty"`
	Reseal   bool          `json:"reseal,omitempty"`
	Pat      []int         `json:"pat,omitempty"` // what to read of each entry
	Ring     []string      `json:"ring,omitempty"`
	NoRing   bool          `json:"no_ring,omitempty"`
	Round    signRound     `json:"round"`
	Plan     stream.Plan   `json:"plan"`
	FromFile bool          `json:"from_file,omitempty"`
	ReadCap  []int         `json:"read_cap,omitempty"`
	Faults   []kern.Fault  `json:"faults,omitempty"`
	Quit     int           `json:"quit,omitempty"`  // C08: call Next this many times more after the end
	Procs    int           `json:"procs,omitempty"` // processors the program finds; 0: one
	Rand     uint64        `json:"rand"`

	lazy bool // put results into words only afterwards
}

var rpmOps = []string{"header", "rpm", "iter", "iterold", "expand", "verify", "sign", "file", "raw"}
var cpioOps = []string{"cpio", "cpiosizes", "extract"}

func bareArchive(op string) bool { return op == "cpio" || op == "cpiosizes" || op == "extract" }

// event is something an operation handed out.
type event struct {
	What string
	Data []byte
	Done bool // the entry's end was reported
	say  func() string
}

// opResult is everything that can be seen of one operation.
type opResult struct {
	end    End
	err    error
	events []event
	eof    bool // Next reported the end of the archive
	again  []string
	pos    int64
	out    []byte
	tree   map[string]kern.Node
	open   []string
	lost   bool
	closed int
	gor    int
	alloc  uint64
	calls  int
	trace  []kern.Call
	k      *kern.Kernel
	src    *stream.Source
	hdr    *rpmutils.RpmHeader
}

// sweepTags are read through every accessor.
var sweepTags = func() (l []int) {
	for t := 1000; t <= 1060; t++ {
		l = append(l, t)
	}
	for _, t := range []int{0, -1, 62, 63, 100, 256, 257, 261, 262, 264, 265, 266, 267, 268, 269, 270, 271, 273, 274, 277, 278, 300, 301, 302, 303, 999, 1064, 1080, 1081, 1085,
		1095, 1096, 1097, 1106, 1112, 1113, 1116, 1117, 1118, 1124, 1125, 1126, 1128, 1140, 1141, 1146, 1147, 5008, 5009, 5011, 5017, 5030, 5062, 5090, 5092, 5093, 5097,
		16384 + 1000, 16384 + 1002, 16384 + 1004, 16384 + 1005, 16384 + 1007, 16384 + 1008, 1 << 20} {
		l = append(l, t)
	}
	return
}()

// describe reads a header through its accessors.
func describe(hdr *rpmutils.RpmHeader, deep bool) []event {
	var out []event
	put := func(what string, v any, err error) {
		s := what + " error"
		if err == nil {
			s = fmt.Sprintf("%s %#v", what, v)
		}
		if len(s) > 200 {
			h := fnv.New64a()
			io.WriteString(h, s)
			s = fmt.Sprintf("%.100s... %x", s, h.Sum64())
		}
		out = append(out, event{What: s})
	}
	for _, t := range sweepTags {
		if !hdr.HasTag(t) && !deep {
			continue
		}
		n := fmt.Sprint("tag ", t, " ")
		v, err := hdr.Get(t)
		put(n, v, err)
		if !deep {
			continue
		}
		s, err := hdr.GetString(t)
		put(n+"string", s, err)
		ss, err := hdr.GetStrings(t)
		put(n+"strings", ss, err)
		i, err := hdr.GetInt(t)
		put(n+"int", i, err)
		is, err := hdr.GetInts(t)
		put(n+"ints", is, err)
		u, err := hdr.GetUint32(t)
		put(n+"uint32", u, err)
		us, err := hdr.GetUint32s(t)
		put(n+"uint32s", us, err)
		w, err := hdr.GetUint64(t)
		put(n+"uint64", w, err)
		ws, err := hdr.GetUint64s(t)
		put(n+"uint64s", ws, err)
		f, err := hdr.GetUint64Fallback(t, 5009)
		put(n+"fallback", f, err)
		b, err := hdr.GetBytes(t)
		put(n+"bytes", b, err)
	}
	nv, err := hdr.GetNEVRA()
	if err == nil && deep {
		put("nevra string", nv.String(), nil)
	}
	if err == nil {
		put("nevra", *nv, nil)
	} else {
		put("nevra", nil, err)
	}
	fs, err := hdr.GetFiles()
	put("files", len(fs), err)
	for _, f := range fs {
		put("file", fileView(f), nil)
	}
	n, err := hdr.InstalledSize()
	put("installed", n, err)
	n, err = hdr.PayloadSize()
	put("payload", n, err)
	put("source", hdr.IsSource(), nil)
	put("range", hdr.GetRange(), nil)
	put("sigsize", hdr.OriginalSignatureHeaderSize(), nil)
	for _, same := range []bool{true, false} {
		b, err := hdr.DumpSignatureHeader(same)
		put("dump", b, err)
	}
	return out
}

// text is everything the library says about an entry.
func (v *view) text() string {
	if h := v.hdr; h != nil {
		return fmt.Sprintf("%q %v", h.Filename(), []any{h.Magic(), h.Ino(), h.Mode(), h.Uid(), h.Gid(), h.Nlink(), h.Mtime(), h.Filesize(), h.Filesize64(), h.Devmajor(), h.Devminor(),
			h.Rdevmajor(), h.Rdevminor(), h.Namesize(), h.Check(), h.IsStripped(), h.Index()})
	}
	return fmt.Sprint(fileView(v.fi), v.isLink)
}

func fileView(f rpmutils.FileInfo) string {
	return fmt.Sprint(f.Name(), f.Size(), f.UserName(), f.GroupName(), f.Flags(), f.Mtime(), f.Digest(), f.Mode(), f.Linkname(), f.Device(), f.Inode())
}

// input builds the bytes the operation gets. payOff is where the payload
// starts; trailer the end of the archive in an uncompressed one.
func (sc *opScenario) input() (raw []byte, pkg *model.Package) {
	arch := &model.Archive{}
	if sc.Spec == nil {
		if sc.Op == "cpiosizes" {
			for i := range sc.Files {
				arch.Stripped(i, &sc.Files[i], sc.Files[i].Len())
			}
		} else {
			for i := range sc.Files {
				arch.Newc(&sc.Files[i])
			}
		}
		raw = model.Bytes(arch.Finish())
		for i := range sc.Muts {
			raw = sc.Muts[i].archive(raw, arch)
		}
		for i := range sc.Muts {
			raw = sc.Muts[i].bytes(raw)
		}
		return raw, nil
	}
	s := sc.Spec
	arch, segs := s.BuildArchive()
	data := model.Bytes(segs)
	for i := range sc.Muts {
		data = sc.Muts[i].archive(data, arch)
	}
	payload := s.Compress(data)
	for i := range sc.Muts {
		payload = sc.Muts[i].payload(payload)
	}
	pkg = s.BuildWith(arch, segs, payload)
	raw = pkg.Raw
	headers := false
	for i := range sc.Muts {
		headers = headers || sc.Muts[i].Area == "gen" || sc.Muts[i].Area == "tag" || sc.Muts[i].Area == "pgp"
	}
	if headers {
		p := take(raw)
		for i := range sc.Muts {
			sc.Muts[i].header(p)
		}
		if sc.Reseal {
			p.reseal()
		}
		raw = p.join()
	}
	for i := range sc.Muts {
		raw = sc.Muts[i].sigheader(raw)
	}
	for i := range sc.Muts {
		raw = sc.Muts[i].bytes(raw)
	}
	if len(sc.Muts) > 0 && (sc.Op == "iter" || sc.Op == "iterold" || sc.Op == "expand") {
		raw = limitWindow(raw)
	}
	return raw, pkg
}

// sizes are what NewReaderWithSizes is told.
func (sc *opScenario) sizes() []int64 {
	var out []int64
	for i := range sc.Files {
		out = append(out, sc.Files[i].Len())
	}
	return out
}

// iterate walks over an archive and records what it sees.
func (sc *opScenario) iterate(it *iterator, res *opResult) {
	// whoever asks for single bytes gets many calls for what may have been few
	// compressed ones
	total := 0
	read := func(b []byte) (int, error) {
		n, err := it.read(b)
		if total += n; n > 0 && total < 32<<20 {
			rt.Allow(100 + n)
		}
		return n, err
	}
	for n := 0; ; n++ {
		v, err := it.next()
		if err != nil {
			if err == io.EOF {
				res.eof = true
			} else {
				res.err = err
			}
			break
		}
		ev := event{say: func() string { return "entry " + v.text() }}
		if !sc.lazy {
			ev.settle()
		}
		mode := -512
		if len(sc.Pat) > 0 {
			mode = sc.Pat[n%len(sc.Pat)]
		}
		var rerr error
		switch {
		case mode < 0:
			buf := make([]byte, -mode)
			for {
				var m int
				m, rerr = read(buf)
				ev.Data = append(ev.Data, buf[:m]...)
				if rerr != nil {
					break
				}
			}
		case mode > 0:
			buf := make([]byte, mode)
			got := 0
			for got < mode && rerr == nil {
				var m int
				m, rerr = read(buf[got:])
				got += m
			}
			ev.Data = buf[:got]
		}
		ev.Done = rerr == io.EOF
		res.events = append(res.events, ev)
		if rerr != nil && rerr != io.EOF {
			res.err = rerr
			break
		}
	}
	for i := 0; i < sc.Quit; i++ {
		_, err := it.next()
		switch {
		case err == nil:
			res.again = append(res.again, "entry")
		case err == io.EOF:
			res.again = append(res.again, "eof")
		default:
			res.again = append(res.again, "error")
		}
		if n, err := it.read(make([]byte, 10)); err == nil {
			res.again = append(res.again, fmt.Sprint("read ", n))
		}
	}
}

// run performs the operation. plan and fromFile say how the input arrives.
func (sc *opScenario) run(c *Ctx, raw []byte, plan stream.Plan, fromFile bool, faults []kern.Fault, sweep bool) *opResult {
	res := &opResult{}
	runtime.SimRand(true, sc.Rand)
	k := kern.New()
	res.k = k
	k.Boot()
	defer k.Halt()
	k.PutDir("/d/w")
	k.PutDir("/d/out")
	k.PutFile("/p/in", raw)
	k.Chdir("/d/w")
	k.SyncAll()
	k.Faults = faults
	src := stream.New(raw, plan)
	res.src = src
	var file *os.File
	if fromFile || sc.Op == "file" || sc.Op == "raw" {
		f, err := os.Open("/p/in")
		if err != nil {
			c.Err = err.Error()
			return res
		}
		file = f
		k.ReadCap = sc.ReadCap
	}
	var in io.Reader = src
	if file != nil {
		in = file
	}
	before := runtime.NumGoroutine()
	mine := len(k.OpenFds())
	var m0, m1 runtime.MemStats
	ring := model.Ring(sc.Ring...)
	if sc.NoRing {
		ring = nil
	}
	key := model.SigningKey("alice")
	if sc.Round.Key != "" {
		key = model.SigningKey(sc.Round.Key)
	}
	var pgp, rsa []byte
	if sc.Op == "raw" {
		s := model.Sign{Key: "bob", Time: 5}
		pgp, rsa = model.MakeSig(s, []byte("whatever")), model.MakeSig(s, []byte("header"))
	}
	k.KeepTrace = true
	kt := len(k.Trace)
	k.Arm()
	runtime.ReadMemStats(&m0)
	budget := Budget + 80*len(raw)
	if sweep {
		budget += 400 * len(raw)
	}
	start := k.Now
	runtime.SimProcs(sc.Procs)
	defer runtime.SimProcs(0)
	res.end = c.Proc(budget, func() {
		sc.perform(res, &surroundings{in: in, src: src, file: file, dir: "/d", ring: ring, key: key, pgp: pgp, rsa: rsa, sweep: sweep})
	})
	runtime.ReadMemStats(&m1)
	res.alloc = m1.TotalAlloc - m0.TotalAlloc
	for i := range res.events {
		res.events[i].settle()
	}
	res.calls = k.Calls()
	k.Disarm()
	k.ReadCap = nil
	res.trace = append([]kern.Call(nil), k.Trace[kt:]...)
	k.KeepTrace = c.Keep
	if !c.Keep {
		k.Trace = nil
	}
	if res.end.Kind == "ok" {
		open := k.OpenFds()
		if file != nil && (len(open) == 0 || open[0] != "/p/in") {
			res.lost = true
		}
		if len(open) > mine {
			res.open = open[mine:]
		}
		res.closed = src.Closed
		if file != nil {
			file.Close()
		}
		res.gor = settle(before)
	}
	res.out, _ = k.ReadFile("/d/out/signed.rpm")
	if sc.Op == "expand" || sc.Op == "extract" {
		res.tree = k.Snapshot("/d/out", nil)
	}
	c.Source(src)
	c.Kernel(k, start)
	c.Mix("%s %s err=%v events=%d eof=%v", sc.Op, res.end.Kind, res.err, len(res.events), res.eof)
	return res
}

// surroundings is what an operation works with.
type surroundings struct {
	in       io.Reader
	src      *stream.Source
	file     *os.File
	dir      string
	ring     openpgp.EntityList
	key      *packet.PrivateKey
	pgp, rsa []byte
	sweep    bool
	opts     *rpmutils.SignatureOptions
}

// settle puts an event into words.
func (e *event) settle() {
	if e.say != nil {
		e.What, e.say = e.say(), nil
	}
}

// perform calls the library.
func (sc *opScenario) perform(res *opResult, e *surroundings) {
	var hdr *rpmutils.RpmHeader
	var err error
	if e.opts == nil {
		e.opts = sc.Round.options()
	}
	switch sc.Op {
	case "header":
		hdr, err = rpmutils.ReadHeader(e.in)
	case "cpio":
		sc.iterate(cpioIter(cpio.NewReader(e.in)), res)
		return
	case "cpiosizes":
		sc.iterate(cpioIter(cpio.NewReaderWithSizes(e.in, sc.sizes())), res)
		return
	case "extract":
		err = cpio.Extract(e.in, e.dir+"/out")
	case "verify":
		var sigs []*rpmutils.Signature
		hdr, sigs, err = rpmutils.Verify(e.in, e.ring)
		for _, s := range sigs {
			res.events = append(res.events, event{say: func() string {
				return fmt.Sprint("signature ", s.KeyId, s.Hash, s.CreationTime.Unix(), s.HeaderOnly, s.PrimaryName, s.Signer != nil)
			}})
		}
	case "sign":
		hdr, err = rpmutils.SignRpmStream(e.in, e.key, e.opts)
	case "file":
		hdr, err = rpmutils.SignRpmFile(e.file, e.dir+"/out/signed.rpm", e.key, e.opts)
	case "raw":
		hdr, err = rpmutils.RewriteWithSignatures(e.file, e.dir+"/out/signed.rpm", e.pgp, e.rsa)
	default:
		var rpm *rpmutils.Rpm
		rpm, err = rpmutils.ReadRpm(e.in)
		if err != nil {
			break
		}
		switch sc.Op {
		case "rpm":
			hdr = rpm.Header
		case "iter":
			var p rpmutils.PayloadReader
			if p, err = rpm.PayloadReaderExtended(); err == nil {
				sc.iterate(payloadIter(p), res)
				return
			}
		case "iterold":
			var p *cpio.Reader
			if p, err = rpm.PayloadReader(); err == nil {
				sc.iterate(cpioIter(p), res)
				return
			}
		case "expand":
			err = rpm.ExpandPayload(e.dir + "/out")
		}
	}
	res.err = err
	if hdr != nil && err == nil {
		if e.file == nil {
			res.pos = e.src.Pos
		} else if p, e := e.file.Seek(0, io.SeekCurrent); e == nil {
			res.pos = p
		}
		res.hdr = hdr
		if !sc.lazy {
			res.events = append(res.events, describe(hdr, e.sweep)...)
		}
	}
}

// ---- mutations ----

// mut is one corruption of an input.
type mut struct {
	Area string `json:"area"` // raw, gen, tag, sig, pay, arch, field
	Kind string `json:"kind,omitempty"`
	At   int    `json:"at,omitempty"`
	N    int    `json:"n,omitempty"`
	V    int    `json:"v,omitempty"` // which interesting value
}

// interesting values for 32-bit numbers, given the length of what they index.
func interesting(v, n, old int) uint32 {
	l := []int64{0, 1, -1, 0x7fffffff, -0x80000000, int64(n), int64(n) - 1, int64(n) + 1, int64(old) + 1, int64(old) - 1, int64(old) * 2, int64(old) ^ 0xff, 0x10000000, 0x40000000, 0xffff, 2, 3, 4, 5, 6, 7, 8, 9, 0x3fffffff, 0x20000001, int64(old) + 4, int64(old) / 2}
	return uint32(l[v%len(l)])
}

func (m *mut) edit(b []byte) []byte {
	e := edit{Kind: m.Kind, At: m.At, N: m.N}
	return e.applyTo(b)
}

func (m *mut) bytes(raw []byte) []byte {
	if m.Area == "raw" {
		return m.edit(raw)
	}
	return raw
}

// index corrupts the structure of a header: b starts at its magic.
func (m *mut) index(b []byte) {
	if len(b) < 16 {
		return
	}
	be := func(at int) int {
		return int(int32(uint32(b[at])<<24 | uint32(b[at+1])<<16 | uint32(b[at+2])<<8 | uint32(b[at+3])))
	}
	put := func(at int, v uint32) {
		b[at], b[at+1], b[at+2], b[at+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	}
	n, size := be(8), be(12)
	if m.Kind == "intro" {
		at := 4 * (m.At % 4)
		put(at, interesting(m.V, size, be(at)))
		return
	}
	if n <= 0 || 16+16*n > len(b) {
		return
	}
	at := 16 + 16*(m.At%n)
	switch m.Kind {
	case "value": // one value in the data area
		if m.V%3 > 0 {
			// of a tag that decides how others are read
			want := []int{5093, 5093, 5011, 1116, 1030, 1028, 5008, 1096, 1033}[m.At%9]
			for i := 0; i < n; i++ {
				if be(16+16*i) == want {
					at = 16 + 16*i
				}
			}
		}
		count, off := be(at+12), 16+16*n+be(at+8)
		width := map[int]int{1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 6: 1, 7: 1, 8: 1, 9: 1}[be(at+4)]
		if width == 0 || count <= 0 || be(at+8) < 0 || off+width*count > len(b) || off+width*count < 0 {
			return
		}
		off += width * (m.N / 32 % count)
		v := uint64(m.N % 32) // algorithms, types and the like are small numbers
		if m.V%2 == 0 && width > 1 {
			v = uint64(int64(int32(interesting(m.V/6, count, int(b[off+width-1])))))
		}
		for i := width - 1; i >= 0; i-- {
			b[off+i] = byte(v)
			v >>= 8
		}
	case "copy": // one entry over another
		from := 16 + 16*(m.N%n)
		copy(b[at:at+16], append([]byte(nil), b[from:from+16]...))
	case "retag":
		put(at, uint32(rng.Pick(rng.New(uint64(m.N)), sweepTags...)))
	case "type":
		put(at+4, uint32(m.N%12))
	default:
		f := 4 * (m.N % 4)
		put(at+f, interesting(m.V, size, be(at+f)))
	}
}

func (m *mut) header(p *parts) {
	switch m.Area {
	case "gen":
		p.gen = append([]byte(nil), p.gen...)
		if m.Kind == "dirs" {
			p.gen = m.dirs(p.gen)
		} else if m.Kind == "intro" || m.Kind == "field" || m.Kind == "copy" || m.Kind == "retag" || m.Kind == "type" || m.Kind == "value" {
			m.index(p.gen)
		} else {
			p.gen = m.edit(p.gen)
		}
	case "pgp": // a signature of a strange make
		id := []int{268, 1002, 267, 1005}[m.N%4]
		d := model.CraftPacket(uint64(m.At)<<12 | uint64(m.N))
		p.sig[id] = model.Tag{ID: id, Type: 7, Count: len(d), Data: d}
	case "tag": // the data of a signature header tag
		ids := tagIDs(p.sig)
		if len(ids) == 0 {
			return
		}
		t := p.sig[ids[m.At%len(ids)]]
		e := edit{Kind: m.Kind, At: m.N / 8, N: m.N}
		t.Data = e.applyTo(t.Data)
		if m.V%3 == 0 {
			t.Count = int(interesting(m.V/3, len(t.Data), t.Count)) & 0xffffff
		} else if t.Type == 7 {
			t.Count = len(t.Data)
		}
		if len(t.Data) == 0 {
			return
		}
		p.sig[t.ID] = t
	}
}

func (m *mut) sigheader(raw []byte) []byte {
	if m.Area != "sig" || len(raw) < 112 {
		return raw
	}
	raw = append([]byte(nil), raw...)
	if m.Kind == "lead" {
		raw[m.At%96] = byte(m.N)
		return raw
	}
	if m.Kind == "crowd" {
		return m.crowd(raw)
	}
	m.index(raw[96:])
	return raw
}

// crowd adds tags to the signature header that all have the same data.
func (m *mut) crowd(raw []byte) []byte {
	be := func(at int) int { return int(binary.BigEndian.Uint32(raw[at:])) }
	n, l := be(104), be(108)
	dat := 112 + 16*n
	end := dat + (l+7)&^7
	if n < 0 || l < 0 || n > 1000 || end > len(raw) {
		return raw
	}
	k, d := []int{3, 40, 400, 1000}[m.At%4], []int{8, 2000, 20000, 40000}[m.N%4]
	if m.V%3 == 0 {
		d = 1
	}
	out := append([]byte(nil), raw[:dat]...)
	binary.BigEndian.PutUint32(out[104:], uint32(n+k))
	binary.BigEndian.PutUint32(out[108:], uint32(l+d))
	for i := 0; i < k; i++ {
		for _, v := range []int{2000 + i, 7, l, d} {
			out = binary.BigEndian.AppendUint32(out, uint32(v))
		}
	}
	out = append(out, raw[dat:dat+l]...)
	out = append(out, model.Pattern(m.V, d)...)
	for (len(out)-112)%8 != 0 {
		out = append(out, 0)
	}
	return append(out, raw[end:]...)
}

// dirs makes a general header of many files in one directory with a long name.
func (m *mut) dirs(gen []byte) []byte {
	tags, _, _, err := model.ParseHeader(gen)
	if err != nil {
		return gen
	}
	var l []model.Tag
	for _, id := range tagIDs(tags) {
		if id != 63 && id != 1116 && id != 1117 && id != 1118 && id != 1027 {
			l = append(l, tags[id])
		}
	}
	k, d := []int{1, 30, 300, 4000}[m.At%4], []int{4000, 5000, 20000, 40000}[m.N%4]
	l = append(l, model.Int32Tag(1116, make([]uint32, k)...), model.StrsTag(1117, 8, make([]string, k)), model.StrsTag(1118, 8, []string{strings.Repeat("/d", d/2)}))
	return model.WriteHeader(l, 63)
}

// payload corrupts the compressed payload.
func (m *mut) payload(b []byte) []byte {
	if m.Area != "pay" {
		return b
	}
	return m.edit(b)
}

// limitWindow keeps the window that a corrupted payload declares at a moderate
// size: what the formats allow (4 GiB) is not what C03 is about, and eight
// workers could not bear it.
func limitWindow(raw []byte) (out []byte) {
	out = raw
	defer func() { recover() }()
	r := bytes.NewReader(raw)
	hdr, err := rpmutils.ReadHeader(r)
	if err != nil {
		return
	}
	comp, err := hdr.GetString(rpmutils.PAYLOADCOMPRESSOR)
	if err != nil {
		return
	}
	cp := append([]byte(nil), raw...)
	b := cp[len(raw)-r.Len():]
	switch comp {
	case "lzma":
		if len(b) > 4 {
			b[3] &= 3
			b[4] = 0
		}
	case "zstd":
		if len(b) > 5 {
			if b[4]&0x20 != 0 {
				b[4] &= 0x3f
			} else {
				b[5] &= 0x7f
			}
		}
	}
	return cp
}

// archive corrupts the archive before compression.
func (m *mut) archive(b []byte, a *model.Archive) []byte {
	switch m.Area {
	case "arch":
		return m.edit(b)
	case "cut":
		return b[:min(len(b), m.At)]
	case "cpio": // a number of an entry's header
		starts := append(append([]int64(nil), a.Starts...), a.TrailerStart)
		at := int(starts[m.At%len(starts)])
		field := at + 6 + 8*(m.N%13)
		if field+8 > len(b) {
			return b
		}
		b = append([]byte(nil), b...)
		var old uint32
		fmt.Sscanf(string(b[field:field+8]), "%08x", &old)
		s := fmt.Sprintf("%08x", interesting(m.V, len(b)-at, int(old)))
		if m.Kind == "junk" {
			s = []string{"-0000001", "+0000001", " 1      ", "0x000001", "\x00\x00\x00\x00\x00\x00\x00\x00", "gggggggg", "FFFFFFFF", "1_000000"}[m.V%8]
		}
		copy(b[field:], s)
		return b
	case "magic":
		starts := append(append([]int64(nil), a.Starts...), a.TrailerStart)
		at := int(starts[m.At%len(starts)])
		if at+6 <= len(b) {
			b = append([]byte(nil), b...)
			copy(b[at:], []string{"070701", "070702", "07070X", "070707", "\xc7\x71\x00\x00\x00\x00", "070700"}[m.N%6])
		}
		return b
	}
	return b
}

var mutKinds = []string{"flip", "flip", "set", "set", "drop", "chop", "add", "append", "swap"}

func genMut(r *rng.R, op string) mut {
	m := mut{Kind: rng.Of(r, mutKinds), At: r.N(1 << 16), N: r.N(1 << 12), V: r.N(81)}
	areas := []string{"raw", "raw", "gen", "gen", "gen", "gen", "sig", "sig", "tag"}
	switch op {
	case "verify":
		areas = append(areas, "pgp", "pgp", "pgp")
	case "iter", "iterold", "expand":
		areas = append(areas, "pay", "arch", "cpio", "cpio", "cpio", "magic", "cpio", "pay")
	case "cpio", "cpiosizes", "extract":
		areas = []string{"raw", "raw", "cpio", "cpio", "cpio", "cpio", "magic"}
	}
	m.Area = rng.Of(r, areas)
	switch m.Area {
	case "gen":
		if r.P(4, 5) {
			m.Kind = rng.Pick(r, "field", "field", "field", "field", "intro", "copy", "retag", "type", "value", "value")
		}
		if r.P(1, 30) {
			m.Kind = "dirs"
		}
	case "sig":
		m.Kind = rng.Pick(r, "field", "field", "field", "field", "intro", "copy", "retag", "type", "lead")
		if r.P(1, 15) {
			m.Kind = "crowd"
		}
	case "cpio":
		if r.P(1, 4) {
			m.Kind = "junk"
		}
	}
	return m
}

func genPat(r *rng.R) []int {
	var out []int
	for i := r.N(4); i > 0; i-- {
		out = append(out, rng.Pick(r, -512, -512, -1, -3, -4096, 0, 0, 1, r.Range(1, 600)))
	}
	return out
}

// genOp makes a scenario around an operation.
func genOp(r *rng.R, ops []string, deep bool) *opScenario {
	sc := &opScenario{Op: rng.Of(r, ops), Rand: r.U64() >> 12}
	fo := archOpts{Max: rng.Pick(r, 2, 5, 9), Links: true, Special: true, Symlink: true, Deep: deep, Prefix: true}
	if bareArchive(sc.Op) {
		sc.Files = genEntries(r, fo)
	} else {
		s := genSpec(r, specOpts{Files: fo, Signed: true, Digest: true})
		if sc.Op == "iterold" || sc.Op == "expand" {
			s.Stripped = false
		}
		sc.Spec = &s
	}
	sc.Pat = genPat(r)
	sc.Procs = rng.Pick(r, 0, 2, 4)
	switch r.N(4) {
	case 0:
		sc.NoRing = true
	case 1:
		for _, n := range model.KeyNames {
			if r.P(2, 3) {
				sc.Ring = append(sc.Ring, n)
			}
		}
	default:
		sc.Ring = []string{"alice", "bob", "carol", "dave", "mallory"}
	}
	sc.Round = signRound{Route: "file", Mode: "new", Key: rng.Of(r, signKeys), Opts: "both", Hash: rng.Pick(r, "", "sha256", "sha512"), Time: 1_500_000_000 + int64(r.N(1000))}
	return sc
}

func (sc *opScenario) fix() {
	if sc.Op == "file" || sc.Op == "raw" {
		sc.FromFile = true
	}
	if sc.Spec != nil && sc.Spec.Compressor == "zstd" && (sc.Op == "iter" || sc.Op == "iterold" || sc.Op == "expand") {
		// decoders that read in the background must not touch the kernel
		sc.FromFile = false
	} else {
		sc.Procs = 0 // it makes no difference
	}
	if sc.FromFile {
		sc.Plan = stream.Plan{}
	} else {
		sc.ReadCap = nil
	}
}

func (sc *opScenario) valid(ops []string) bool {
	ok := false
	for _, o := range ops {
		ok = ok || o == sc.Op
	}
	if !ok || !validPlan(&sc.Plan) || !validFaults(sc.Faults) || sc.Quit < 0 || sc.Quit > 20 || sc.Procs < 0 || sc.Procs > 4 {
		return false
	}
	if bareArchive(sc.Op) {
		if sc.Spec != nil || !validEntries(sc.Files, false) {
			return false
		}
	} else {
		if sc.Spec == nil || sc.Files != nil || !validSpec(sc.Spec, true) {
			return false
		}
		if (sc.Op == "iterold" || sc.Op == "expand") && sc.Spec.Stripped {
			return false
		}
	}
	for _, e := range sc.entries() {
		if e.Size >= model.Sparse {
			return false
		}
	}
	for _, m := range sc.Muts {
		if m.At < 0 || m.N < 0 || m.V < 0 {
			return false
		}
	}
	for _, n := range sc.ReadCap {
		if n < 0 {
			return false
		}
	}
	for _, n := range sc.Pat {
		if n < -1<<20 || n > 1<<20 {
			return false
		}
	}
	for _, n := range sc.Ring {
		if model.Keys[n] == nil {
			return false
		}
	}
	if !validKey(sc.Round.Key) || !sc.Round.valid() {
		return false
	}
	// what fix would change is not a scenario
	cp := *sc
	cp.fix()
	return cp.FromFile == sc.FromFile && cp.Procs == sc.Procs && (cp.ReadCap == nil) == (sc.ReadCap == nil) && plainPlan(cp.Plan) == plainPlan(sc.Plan)
}

func (sc *opScenario) entries() []model.Entry {
	if sc.Spec != nil {
		return sc.Spec.PayloadFiles()
	}
	return sc.Files
}

// same compares two results of one operation on the same bytes.
func sameResult(a, b *opResult) string {
	if a.end.Kind != b.end.Kind {
		return fmt.Sprintf("ends with %s %s instead of %s %s", b.end.Kind, b.end.What, a.end.Kind, a.end.What)
	}
	if (a.err != nil) != (b.err != nil) {
		return fmt.Sprintf("returns %v instead of %v", b.err, a.err)
	}
	for i := range a.events {
		if i >= len(b.events) {
			return fmt.Sprintf("lacks %q", a.events[i].What)
		}
		x, y := a.events[i], b.events[i]
		if x.What != y.What {
			return fmt.Sprintf("gives %q instead of %q", y.What, x.What)
		}
		if !bytes.Equal(x.Data, y.Data) {
			return fmt.Sprintf("gives other contents of %q: %d bytes, %d before", x.What, len(y.Data), len(x.Data))
		}
		if x.Done != y.Done {
			return fmt.Sprintf("end of %q reported: %v instead of %v", x.What, y.Done, x.Done)
		}
	}
	if len(b.events) > len(a.events) {
		return fmt.Sprintf("gives %q in addition", b.events[len(a.events)].What)
	}
	if a.eof != b.eof {
		return fmt.Sprintf("end of archive reported: %v instead of %v", b.eof, a.eof)
	}
	if fmt.Sprint(a.again) != fmt.Sprint(b.again) {
		return fmt.Sprintf("after the end: %v instead of %v", b.again, a.again)
	}
	if !bytes.Equal(a.out, b.out) {
		return fmt.Sprintf("writes other output: %d bytes, %d before", len(b.out), len(a.out))
	}
	return diffTrees(a.tree, b.tree)
}

// diffTrees compares two extracted trees, ignoring inode numbers.
func diffTrees(a, b map[string]kern.Node) string {
	var all []string
	for p := range a {
		all = append(all, p)
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			all = append(all, p)
		}
	}
	sort.Strings(all)
	for _, p := range all {
		x, okx := a[p]
		y, oky := b[p]
		switch {
		case !okx:
			return fmt.Sprintf("makes %q in addition", p)
		case !oky:
			return fmt.Sprintf("does not make %q", p)
		case x.Kind != y.Kind || x.Data != y.Data || x.Target != y.Target:
			return fmt.Sprintf("makes another %q: %s with %d bytes instead of %s with %d bytes", p, y.Kind, len(y.Data), x.Kind, len(x.Data))
		}
	}
	return ""
}
