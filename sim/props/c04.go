package props

import (
	"fmt"
	"io"
	"runtime"
	"slices"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"

	"verifsim/kern"
	"verifsim/model"
	"verifsim/rng"
	"verifsim/stream"
)

// C04: any history of Next and Read over an archive against a list of entries.

type iterScenario struct {
	Kind  string        `json:"kind"` // newc, stripped, rpm, rpm-cpio, unsized
	Files []model.Entry `json:"files,omitempty"`
	Spec  *model.Spec   `json:"spec,omitempty"`
	Order []int         `json:"order,omitempty"` // of the entries in a stripped archive, see Spec.Order
	Tail  int           `json:"tail,omitempty"`  // zeros after a newc or stripped archive
	Ops   []int         `json:"ops,omitempty"`   // 0: Next; n: Read of n bytes
	Drain int           `json:"drain"`           // afterwards: 0 skip everything, n: read all in n-byte reads
	Alien *alien        `json:"alien,omitempty"`
	// Direct iterates with CpioStream, which gives no access to contents
	Direct bool `json:"direct,omitempty"`
	// Strange is what a package says its payload is, and nobody supports
	Strange *strange    `json:"strange,omitempty"`
	Plan    stream.Plan `json:"plan"`
	Rand    uint64      `json:"rand"`
}

// alien is an entry that belongs to no file of the package.
type alien struct {
	At    int         `json:"at"`    // before which entry of the payload
	Index int         `json:"index"` // in a stripped archive: beyond the last file
	Entry model.Entry `json:"entry"`
}

// strange is a payload format or compression there is no support for.
type strange struct {
	Tag   int    `json:"tag"` // 1124 or 1125
	Value string `json:"value"`
	Type  bool   `json:"type,omitempty"` // the tag is a number
}

var strangeValues = []string{"", "drpm", "ar", "lz4", "lzip", "gz", "zst", "gzip2", "xzz", "Gzip", " gzip", "cpio.gz", "pax", "uncompressed ", "7z"}

func (t *strange) apply(raw []byte) []byte {
	p := take(raw)
	tags, _, _, err := model.ParseHeader(p.gen)
	if err != nil {
		panic(err)
	}
	tags[t.Tag] = model.StrTag(t.Tag, t.Value)
	if t.Type {
		tags[t.Tag] = model.Int32Tag(t.Tag, uint32(len(t.Value)))
	}
	var l []model.Tag
	for _, id := range tagIDs(tags) {
		if id != 63 {
			l = append(l, tags[id])
		}
	}
	p.gen = model.WriteHeader(l, 63)
	p.reseal()
	return p.join()
}

// at is where it has its place among n entries.
func (a *alien) at(n int) int {
	if a == nil {
		return -1
	}
	return min(a.At, n)
}

// weave lays out an archive with the alien in it.
func (sc *iterScenario) weave(files []model.Entry, order []int, stripped bool, tail int, stored func(string) string) *model.Archive {
	a := &model.Archive{Tail: tail}
	at := sc.Alien.at(len(order))
	for k := 0; k <= len(order); k++ {
		if k == at {
			e := sc.Alien.Entry
			if stripped {
				a.Stripped(sc.Alien.Index, &e, e.Len())
			} else {
				a.Newc(&e)
			}
		}
		if k == len(order) {
			break
		}
		e := files[order[k]]
		if stripped {
			a.Stripped(order[k], &e, e.Len())
		} else {
			e.Name = stored(e.Name)
			a.Newc(&e)
		}
	}
	return a
}

// member is one entry as an iterator must present it.
type member struct {
	e    *model.Entry
	size int64
	link bool
	hsz  int64 // size recorded in the header
	idx  int
	data []byte
}

func members(files []model.Entry) []member {
	var out []member
	for i := range files {
		out = append(out, member{e: &files[i], size: files[i].Len(), idx: i})
	}
	return out
}

func reorder(ms []member, order []int) []member {
	out := make([]member, len(order))
	for i, k := range order {
		out[i] = ms[k]
	}
	return out
}

func (m *member) content(off, n int64) []byte {
	if m.size >= model.Sparse {
		return nil
	}
	if m.data == nil {
		m.data = m.e.Content()
	}
	return m.data[off : off+n]
}

// iterator hides which of the readers is used.
type iterator struct {
	next func() (*view, error)
	read func([]byte) (int, error)
}

// view is the metadata of the current entry as the library presents it.
type view struct {
	hdr    *cpio.Cpio_newc_header
	fi     rpmutils.FileInfo
	isLink bool
}

func cpioIter(r *cpio.Reader) *iterator {
	return &iterator{
		next: func() (*view, error) {
			h, err := r.Next()
			if err != nil {
				return nil, err
			}
			return &view{hdr: h}, nil
		},
		read: r.Read,
	}
}

func streamIter(cs *cpio.CpioStream) *iterator {
	return &iterator{
		next: func() (*view, error) {
			e, err := cs.ReadNextEntry()
			if err != nil {
				if err == io.EOF {
					err = io.ErrUnexpectedEOF // only the trailer is the end
				}
				return nil, err
			}
			if e.Header.Filename() == cpio.TRAILER {
				return nil, io.EOF
			}
			return &view{hdr: e.Header}, nil
		},
	}
}

func payloadIter(p rpmutils.PayloadReader) *iterator {
	return &iterator{
		next: func() (*view, error) {
			fi, err := p.Next()
			if err != nil {
				return nil, err
			}
			return &view{fi: fi, isLink: p.IsLink()}, nil
		},
		read: p.Read,
	}
}

// checkView compares metadata with the model.
func checkView(c *Ctx, v *view, m *member, kind string) {
	bad := func(what string, got, want any) {
		c.Fail("metadata", "entry %d (%s): %s is %v, not %v", m.idx, m.e.Name, what, got, want)
	}
	if h := v.hdr; h != nil {
		if kind == "stripped" {
			if !h.IsStripped() {
				bad("IsStripped", false, true)
			}
			if h.Index() != m.idx {
				bad("Index", h.Index(), m.idx)
			}
			if h.Filesize64() != m.size {
				bad("Filesize64", h.Filesize64(), m.size)
			}
			return
		}
		name := m.e.Name
		if kind == "rpm-cpio" && name[0] == '/' {
			name = "." + name
		}
		if h.IsStripped() {
			bad("IsStripped", true, false)
		}
		if h.Filename() != name {
			bad("Filename", h.Filename(), name)
		}
		for _, f := range []struct {
			n         string
			got, want int64
		}{
			{"Mode", int64(h.Mode()), int64(m.e.Mode)}, {"Ino", int64(h.Ino()), int64(m.e.Ino)}, {"Nlink", int64(h.Nlink()), int64(m.e.Nlink)},
			{"Mtime", int64(h.Mtime()), int64(m.e.Mtime)}, {"Uid", int64(h.Uid()), int64(m.e.Uid)}, {"Gid", int64(h.Gid()), int64(m.e.Gid)},
			{"Filesize", int64(h.Filesize()), m.size}, {"Filesize64", h.Filesize64(), m.size}, {"Devminor", int64(h.Devminor()), int64(m.e.Dev & 0xff)},
			{"Devmajor", int64(h.Devmajor()), int64(m.e.Dev >> 8)}, {"Rdevmajor", int64(h.Rdevmajor()), int64(m.e.Rdev >> 8)},
			{"Rdevminor", int64(h.Rdevminor()), int64(m.e.Rdev & 0xff)}, {"Check", int64(h.Check()), int64(m.e.Check)}, {"Namesize", int64(h.Namesize()), int64(len(name) + 1)},
		} {
			if f.got != f.want {
				bad(f.n, f.got, f.want)
			}
		}
		return
	}
	fi := v.fi
	if fi == nil {
		c.Fail("metadata", "entry %d (%s): no file info", m.idx, m.e.Name)
		return
	}
	if fi.Name() != m.e.Name {
		bad("Name", fi.Name(), m.e.Name)
	}
	if uint16(fi.Mode()) != uint16(m.e.Mode) {
		bad("Mode", fi.Mode(), m.e.Mode)
	}
	if fi.Size() != m.hsz {
		bad("Size", fi.Size(), m.hsz)
	}
	if fi.Mtime() != m.e.Mtime {
		bad("Mtime", fi.Mtime(), m.e.Mtime)
	}
	if fi.UserName() != fmt.Sprintf("u%d", m.e.Uid) {
		bad("UserName", fi.UserName(), m.e.Uid)
	}
	if fi.GroupName() != fmt.Sprintf("g%d", m.idx%3) {
		bad("GroupName", fi.GroupName(), m.idx%3)
	}
	if fi.Linkname() != m.e.Link {
		bad("Linkname", fi.Linkname(), m.e.Link)
	}
	if fi.Flags() != m.idx {
		bad("Flags", fi.Flags(), m.idx)
	}
	if fi.Digest() != fmt.Sprintf("%032x", m.idx) {
		bad("Digest", fi.Digest(), m.idx)
	}
	if v.isLink != m.link {
		bad("IsLink", v.isLink, m.link)
	}
}

// linkFlags marks every member of a link group but the last.
func linkFlags(ms []member) {
	last := map[[2]int]int{}
	for i := range ms {
		e := ms[i].e
		if e.Mode&model.Type != model.Reg || e.Ino == 0 && e.Dev == 0 {
			continue
		}
		k := [2]int{e.Dev, e.Ino}
		if j, ok := last[k]; ok {
			ms[j].link = true
		}
		last[k] = i
	}
}

// walker drives an iterator and checks every step against the model.
type walker struct {
	c    *Ctx
	it   *iterator
	ms   []member
	kind string
	cur  int // -1 before the first entry
	off  int64
	done bool
	bad  int   // before this entry Next has to fail, -1: nowhere
	err  error // first error other than the expected ends
	// fault-tolerant: errors other than a clean end are acceptable
	faulty bool
	stop   bool
	kept   []*view // metadata handed out earlier has to stay as it was
}

func (w *walker) nextOp() {
	v, err := w.it.next()
	w.c.Mix("next %v", err)
	if err != nil {
		if w.cur+1 == w.bad && err != io.EOF {
			w.done, w.stop = true, true
			w.c.Probe("entry of no file refused")
			return
		}
		if err == io.EOF {
			w.done, w.stop = true, true
			if w.cur != len(w.ms)-1 {
				w.c.Fail("early-end", "end of archive reported after %d of %d entries", w.cur+1, len(w.ms))
			}
			return
		}
		w.err, w.stop = err, true
		if !w.faulty {
			w.c.Fail("next-error", "Next for entry %d of %d failed on an intact archive: %v", w.cur+1, len(w.ms), err)
		}
		return
	}
	w.cur++
	w.off = 0
	if w.cur == w.bad {
		what := fmt.Sprint(v.fi)
		if v.fi != nil {
			what = v.fi.Name()
		}
		w.c.Fail("alien", "entry %d, which belongs to no file of the package, was presented as %q", w.cur, what)
		w.stop = true
		return
	}
	if w.cur >= len(w.ms) {
		w.c.Fail("extra-entry", "Next returned entry %d of an archive with %d", w.cur+1, len(w.ms))
		w.stop = true
		return
	}
	checkView(w.c, v, &w.ms[w.cur], w.kind)
	w.kept = append(w.kept, v)
}

func (w *walker) readOp(n int, buf []byte) {
	if w.cur < 0 || n <= 0 {
		return
	}
	m := &w.ms[w.cur]
	b := buf[:n]
	k, err := w.it.read(b)
	w.c.Mix("read %d %d %v", n, k, err)
	rem := m.size - w.off
	if k < 0 || k > n || int64(k) > rem {
		w.c.Fail("overrun", "entry %d: Read returned %d bytes with %d left", w.cur, k, rem)
		w.stop = true
		return
	}
	if want := m.content(w.off, int64(k)); want != nil && string(want) != string(b[:k]) {
		w.c.Fail("wrong-bytes", "entry %d (%s): bytes %d..%d are not those of the entry", w.cur, m.e.Name, w.off, w.off+int64(k))
		w.stop = true
		return
	}
	w.off += int64(k)
	switch {
	case err == nil:
	case err == io.EOF:
		if w.off < m.size {
			w.c.Fail("short-entry", "entry %d (%s): io.EOF after %d of %d bytes", w.cur, m.e.Name, w.off, m.size)
			w.stop = true
		}
	default:
		w.err, w.stop = err, true
		if !w.faulty {
			w.c.Fail("read-error", "Read of entry %d failed on an intact archive: %v", w.cur, err)
		}
	}
}

// drain reads the current entry to its end.
func (w *walker) drain(n int, buf []byte) {
	idle := 0
	for !w.stop && !w.c.Failed() {
		before := w.off
		m := &w.ms[w.cur]
		if w.off == m.size {
			// one more read must say so
			k, err := w.it.read(buf[:n])
			if k != 0 || err == nil && n > 0 {
				idle++
				if k != 0 || idle > 100 {
					w.c.Fail("no-end", "entry %d: Read at its end returned %d, %v", w.cur, k, err)
				}
				continue
			}
			if err != io.EOF {
				w.err, w.stop = err, true
				if !w.faulty {
					w.c.Fail("read-error", "Read at the end of entry %d: %v", w.cur, err)
				}
			}
			return
		}
		w.readOp(n, buf)
		if w.off == before {
			idle++
			if idle > 200 && !w.c.Failed() {
				w.c.Fail("stuck", "entry %d: Read makes no progress at byte %d of %d", w.cur, w.off, m.size)
			}
		}
	}
}

// run performs the operations and then goes on to the end.
func (w *walker) run(ops []int, drain int) {
	max := drain
	for _, n := range ops {
		if n > max {
			max = n
		}
	}
	buf := make([]byte, max+1)
	w.cur = -1
	for _, n := range ops {
		if w.stop || w.c.Failed() {
			return
		}
		if n == 0 || w.cur < 0 {
			w.nextOp()
		} else {
			w.readOp(n, buf)
		}
	}
	for i := 0; i < len(w.ms)+2 && !w.stop && !w.c.Failed(); i++ {
		if drain > 0 && w.cur >= 0 {
			w.drain(drain, buf)
			if w.stop || w.c.Failed() {
				return
			}
		}
		w.nextOp()
	}
	for i, v := range w.kept {
		if w.c.Failed() {
			return
		}
		checkView(w.c, v, &w.ms[i], w.kind)
	}
}

func fixSparse(list []model.Entry, r *rng.R, comp *string, newc bool) bool {
	for i := range list {
		e := &list[i]
		if e.Mode&model.Type == model.Reg && (e.Nlink == 1 || e.Size > 0) {
			if newc {
				e.Size = 0xffffffff - int64(r.N(9))
			} else {
				e.Size = 5<<30 + int64(r.N(9))
			}
			if comp != nil {
				*comp = rng.Pick(r, "uncompressed", "-none")
			}
			return true
		}
	}
	return false
}

func isSparse(list []model.Entry) bool {
	for i := range list {
		if list[i].Size >= model.Sparse {
			return true
		}
	}
	return false
}

func genOps(r *rng.R) []int {
	var ops []int
	for i := r.N(25); i > 0; i-- {
		switch r.N(5) {
		case 0, 1:
			ops = append(ops, 0)
		case 2:
			ops = append(ops, r.Range(1, 9))
		case 3:
			ops = append(ops, r.Range(1, 700))
		case 4:
			ops = append(ops, rng.Pick(r, 1, 2, 3, 4, 32, 100, 512, 4096, 32768, 200000))
		}
	}
	return ops
}

// source builds the byte source and the expected members of a scenario.
func (sc *iterScenario) source() (*stream.Source, []member, int64) {
	switch sc.Kind {
	case "newc":
		a := &model.Archive{Tail: sc.Tail}
		for i := range sc.Files {
			a.Newc(&sc.Files[i])
		}
		return stream.NewSegments(a.Finish(), sc.Plan), members(sc.Files), 0
	case "stripped", "unsized":
		order := (&model.Spec{Files: sc.Files, Order: sc.Order}).InPayload()
		a := sc.weave(sc.Files, order, true, sc.Tail, nil)
		return stream.NewSegments(a.Finish(), sc.Plan), reorder(members(sc.Files), order), 0
	}
	s := sc.Spec
	ms := members(s.Files)
	for i := range ms {
		ms[i].hsz = s.HeaderSize(i)
	}
	linkFlags(ms)
	ms = reorder(ms, s.InPayload())
	if isSparse(s.Files) {
		a, segs := s.BuildArchive()
		p := s.BuildWith(a, segs, nil)
		all := append([]stream.Segment{{Data: p.Raw}}, segs...)
		return stream.NewSegments(all, sc.Plan), ms, int64(p.PayOff)
	}
	p := s.Build()
	if sc.Alien != nil {
		a := sc.weave(s.Files, s.InPayload(), s.Stripped, s.Tail, s.Stored)
		segs := a.Finish()
		p = s.BuildWith(a, segs, s.Compress(model.Bytes(segs)))
	}
	if sc.Strange != nil {
		return stream.New(sc.Strange.apply(p.Raw), sc.Plan), ms, 0
	}
	return stream.New(p.Raw, sc.Plan), ms, int64(p.PayOff)
}

func (sc *iterScenario) sizes() []int64 {
	var out []int64
	for i := range sc.Files {
		out = append(out, sc.Files[i].Len())
	}
	return out
}

func runIter(sc *iterScenario, c *Ctx) {
	runtime.SimRand(true, sc.Rand)
	k := kern.New()
	k.Boot()
	defer k.Halt()
	src, ms, _ := sc.source()
	budget := Budget
	for i := range ms {
		budget += int(min(ms[i].size, model.Sparse)) * 80
		if ms[i].size >= model.Sparse {
			budget += int(ms[i].size/4096) * 40
			c.Probe("file above 4GiB or near it")
		}
	}
	c.Mix("iter %s %d", sc.Kind, len(ms))
	w := &walker{c: c, ms: ms, kind: sc.Kind, bad: sc.Alien.at(len(ms))}
	if sc.Kind == "unsized" && len(ms) > 0 {
		w.bad = 0 // the sizes are nowhere
	}
	end := c.Proc(budget, func() {
		var err error
		switch sc.Kind {
		case "newc", "unsized", "stripped":
			switch {
			case sc.Direct:
				cs := cpio.NewCpioStream(src)
				if sc.Kind == "stripped" {
					cs.SetFileSizes(sc.sizes())
				}
				w.it = streamIter(cs)
				c.Probe("CpioStream")
			case sc.Kind == "stripped":
				w.it = cpioIter(cpio.NewReaderWithSizes(src, sc.sizes()))
			default:
				w.it = cpioIter(cpio.NewReader(src))
			}
		default:
			var rpm *rpmutils.Rpm
			rpm, err = rpmutils.ReadRpm(src)
			if err != nil {
				c.Fail("open", "ReadRpm failed on an intact package: %v", err)
				return
			}
			if sc.Kind == "rpm" {
				var p rpmutils.PayloadReader
				if p, err = rpm.PayloadReaderExtended(); err == nil {
					w.it = payloadIter(p)
				}
			} else {
				var p *cpio.Reader
				if p, err = rpm.PayloadReader(); err == nil {
					w.it = cpioIter(p)
				}
			}
			if sc.Strange != nil {
				w.done = true
				if err == nil {
					c.Fail("strange", "a payload of %+v was opened", *sc.Strange)
				} else {
					c.Probe("unsupported payload refused")
				}
				return
			}
			if err != nil {
				c.Fail("open", "opening the payload of an intact package failed: %v", err)
				return
			}
		}
		if sc.Direct {
			w.run(nil, 0)
		} else {
			w.run(sc.Ops, sc.Drain)
		}
		if !c.Failed() && !w.done {
			c.Fail("no-end", "the archive never ended")
		}
	})
	c.Healthy(end, "payload iteration")
	c.Source(src)
	for i := range ms {
		if ms[i].link {
			c.Probe("link group member without contents")
			break
		}
	}
	c.Kernel(k, k.Now)
	c.Plain = len(ms) == 0 || len(sc.Ops) == 0 && plainPlan(sc.Plan)
}

func validIter(sc *iterScenario) bool {
	if !validPlan(&sc.Plan) || sc.Drain < 0 {
		return false
	}
	for _, n := range sc.Ops {
		if n < 0 || n > 1<<22 {
			return false
		}
	}
	if a := sc.Alien; a != nil {
		files, name := sc.Files, a.Entry.Name
		if sc.Spec != nil {
			files = sc.Spec.Files
		}
		e := []model.Entry{a.Entry}
		e[0].Name = "x"
		if sc.Kind != "rpm" && sc.Kind != "stripped" || isSparse(files) || isSparse(e) || a.At < 0 || a.Index < len(files) || a.Index > 0xffffffff || name == "TRAILER!!!" || len(name) > 1000 || !validArchive(e, false, true) {
			return false
		}
		for i := range files {
			if n := files[i].Name; name == n || name == "."+n || name == "./"+n || "./"+name == n || "."+name == n {
				return false
			}
		}
	}
	switch sc.Kind {
	case "newc", "stripped", "unsized":
		if sc.Strange != nil || sc.Spec != nil || !validArchive(sc.Files, false, true) || sc.Kind == "newc" && sc.Order != nil || !validOrder(sc.Files, sc.Order) || sc.Tail < 0 || sc.Tail > 1<<16 {
			return false
		}
		for i := range sc.Files {
			if sc.Kind == "newc" && sc.Files[i].Size > 0xffffffff {
				return false
			}
		}
	case "rpm", "rpm-cpio":
		if sc.Direct || sc.Spec == nil || sc.Files != nil || sc.Order != nil || sc.Tail != 0 || !validPackage(sc.Spec, false, true) {
			return false
		}
		s := sc.Spec
		if sc.Kind == "rpm-cpio" && s.Stripped {
			return false
		}
		if t := sc.Strange; t != nil && (sc.Alien != nil || isSparse(s.Files) || t.Tag != 1124 && t.Tag != 1125 || !slices.Contains(strangeValues, t.Value)) {
			return false
		}
		if isSparse(s.Files) {
			if s.Compressor != "uncompressed" && s.Compressor != "-none" || s.Payload != "" || s.MD5 || len(s.PreSign) > 0 || !s.LongSize {
				return false
			}
			if !s.Stripped {
				for i := range s.Files {
					if s.Files[i].Size > 0xffffffff {
						return false
					}
				}
			}
		}
	default:
		return false
	}
	return true
}

func init() {
	register(&Property{
		ID:  "C04",
		New: func() any { return &iterScenario{} },
		Gen: func(r *rng.R, deep bool) any {
			sc := &iterScenario{Kind: rng.Pick(r, "newc", "newc", "stripped", "stripped", "rpm", "rpm", "rpm", "rpm", "rpm", "rpm-cpio", "rpm-cpio", "unsized"), Rand: r.U64() >> 12}
			fo := archOpts{Max: rng.Pick(r, 3, 8, 14), Links: true, Special: true, Symlink: true, Deep: deep, Prefix: true, Nodes: true}
			switch sc.Kind {
			case "newc", "stripped", "unsized":
				sc.Files = genEntries(r, fo)
				if sc.Kind != "newc" && r.P(1, 3) {
					sc.Order = genOrder(r, sc.Files)
				}
				sc.Tail = rng.Pick(r, 0, 0, 0, 4, 512, 4096, r.N(600))
				if r.P(1, 90) {
					fixSparse(sc.Files, r, nil, sc.Kind == "newc")
				}
			default:
				s := genSpec(r, specOpts{Files: fo})
				if sc.Kind == "rpm-cpio" {
					s.Stripped = false
				}
				if r.P(1, 90) && fixSparse(s.Files, r, &s.Compressor, !s.Stripped) {
					s.Payload, s.MD5, s.LongSize = "", false, true
				}
				sc.Spec = &s
			}
			if (sc.Kind == "rpm" || sc.Kind == "stripped") && r.P(1, 8) {
				sc.Alien = genAlien(r, sc)
				if !validIter(sc) {
					sc.Alien = nil
				}
			}
			sc.Ops = genOps(r)
			sc.Drain = rng.Pick(r, 0, 0, 1, 3, 7, 64, 4096, 100000)
			sc.Plan = genPlan(r, 4000)
			if isSparse(sc.Files) || sc.Spec != nil && isSparse(sc.Spec.Files) {
				sc.Plan.Chunks = nil
				if sc.Drain > 0 {
					sc.Drain = rng.Pick(r, 0, 1<<20)
				}
			}
			if total(sc) > 4000 && sc.Drain > 0 && sc.Drain < 64 {
				sc.Drain = 512
			}
			sc.Direct = sc.Spec == nil && r.P(1, 5)
			if sc.Spec != nil && !isSparse(sc.Spec.Files) && sc.Alien == nil && r.P(1, 25) {
				sc.Strange = &strange{Tag: rng.Pick(r, 1124, 1125), Value: rng.Of(r, strangeValues), Type: r.P(1, 8)}
			}
			return sc
		},
		Run:   func(s any, c *Ctx) { runIter(s.(*iterScenario), c) },
		Valid: func(s any) bool { return validIter(s.(*iterScenario)) },
	})
}

func genAlien(r *rng.R, sc *iterScenario) *alien {
	files := sc.Files
	if sc.Spec != nil {
		files = sc.Spec.Files
	}
	n := len(files)
	a := &alien{At: r.N(n + 1), Index: rng.Pick(r, n, n, n+1, n+r.N(100), 1<<16, 0x7fffffff, 0x80000000, 0xffffffff)}
	a.Entry = model.Entry{Name: rng.Pick(r, "stranger", "./stranger", "/stranger", "../stranger", ".", "", "./", "..", "/", "./usr/stranger"), Mode: model.Reg | 0644, Nlink: 1, Ino: r.N(3), Seed: 1 + r.N(1000)}
	switch r.N(4) {
	case 0:
		a.Entry.Mode = model.Dir | 0755
	case 1:
		a.Entry.Size = int64(r.N(300))
	}
	if n > 0 && r.P(1, 2) { // nearly the name of a file
		name := files[r.N(n)].Name
		a.Entry.Name = rng.Pick(r, name+"x", name+"/", "x"+name, ".."+name, "."+name+"~", "//"+name, name[:len(name)-1], "./."+name)
	}
	return a
}

func total(sc *iterScenario) int64 {
	var n int64
	list := sc.Files
	if sc.Spec != nil {
		list = sc.Spec.Files
	}
	for i := range list {
		n += list[i].Len()
	}
	return n
}
