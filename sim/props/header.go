package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"slices"

	rpmutils "github.com/sassoftware/go-rpmutils"

	"verifsim/kern"
	"verifsim/model"
	"verifsim/rng"
	"verifsim/rt"
	"verifsim/stream"
)

// ---- C21 and C22: a header tells the truth for as long as it lives ----

// headScenario is the life of some headers: how they came to be, in which
// order, and what was done with them in between.
type headScenario struct {
	Specs []model.Spec  `json:"specs"`
	Steps []headStep    `json:"steps"`
	Plans []stream.Plan `json:"plans"`
	Every int           `json:"every,omitempty"` // statements between two switches of tasks
	Rand  uint64        `json:"rand"`
	// Misfit is what is wrong with one more package, made from the first
	Misfit *misfit `json:"misfit,omitempty"`
}

// misfit is a tag of the file list or the name that does not fit the others.
type misfit struct {
	Tag  int    `json:"tag"`
	Kind string `json:"kind"` // drop, short (by N), type, index
	N    int    `json:"n"`
}

// kinds says what may be wrong with a tag so that nobody can tell what it says
// about each file or the name.
func (m *misfit) kinds() []string {
	switch m.Tag {
	case 1000, 1001, 1002, 1022, 1028, 1030, 1034, 1035, 1036, 1037, 1039, 1040:
		return []string{"drop", "short", "type"}
	case 1003:
		return []string{"type"}
	case 1095, 1096:
		return []string{"short"}
	case 1116:
		return []string{"drop", "short", "type", "index"}
	case 1118:
		return []string{"drop", "type"}
	}
	return nil
}

// apply changes a general header, or does not where there is nothing to change.
func (m *misfit) apply(gen []byte) ([]byte, bool) {
	tags, _, _, err := model.ParseHeader(gen)
	if err != nil {
		return nil, false
	}
	id := m.Tag
	if _, long := tags[5008]; long && id == 1028 {
		id = 5008 // the one that counts
	}
	t, ok := tags[id]
	if !ok || t.Count == 0 {
		return nil, false
	}
	num, size, isInts := ints(t)
	str, isTexts := texts(t)
	if isInts == isTexts {
		return nil, false
	}
	keep := t.Count - 1 - m.N%t.Count
	switch {
	case m.Kind == "drop":
		delete(tags, id)
		delete(tags, m.Tag) // the other sizes
	case m.Kind == "short" && isInts:
		tags[id] = model.Tag{ID: id, Type: t.Type, Count: keep, Data: t.Data[:keep*size]}
	case m.Kind == "short":
		tags[id] = model.StrsTag(id, t.Type, str[:keep])
	case m.Kind == "type" && isInts:
		tags[id] = model.StrsTag(id, 8, make([]string, t.Count))
	case m.Kind == "type":
		tags[id] = model.Int32Tag(id, make([]uint32, t.Count)...)
	default:
		dirs, _ := texts(tags[1118])
		v := make([]uint32, t.Count)
		for i := range v {
			v[i] = uint32(num[i])
		}
		v[m.N%t.Count] = []uint32{uint32(len(dirs)), uint32(len(dirs)) + 1, 1 << 31, 1<<32 - 1}[m.N/8%4]
		tags[id] = model.Int32Tag(id, v...)
	}
	var l []model.Tag
	for _, id := range tagIDs(tags) {
		if id != 63 {
			l = append(l, tags[id])
		}
	}
	return model.WriteHeader(l, 63), true
}

type headStep struct {
	Op   string    `json:"op"`   // how a header is made (read rpm verify sign file) or what is done (same small scribble bad iterate expand together)
	Spec int       `json:"spec"` // of which package
	On   int       `json:"on,omitempty"`
	At   int       `json:"at,omitempty"` // bad: where it goes wrong
	Key  signRound `json:"key"`
}

var headMakes = []string{"read", "rpm", "verify", "sign", "file"}
var headUses = []string{"same", "small", "scribble", "bad", "iterate", "expand", "together", "look"}

// head is a header with what is known about it.
type head struct {
	hdr    *rpmutils.RpmHeader
	rpm    *rpmutils.Rpm
	pkg    *model.Package
	par    *model.Parsed
	origin string
	signed bool
	spent  bool // the payload is
	held   []held
}

// held is a value that was handed out.
type held struct {
	what string
	v    any
	text string
}

// ints gives the numbers of a tag, ok if it is of an integer type.
func ints(t model.Tag) (v []uint64, size int, ok bool) {
	size = map[int]int{1: 1, 2: 1, 3: 2, 4: 4, 5: 8}[t.Type]
	if size == 0 {
		return nil, 0, false
	}
	for i := 0; i+size <= len(t.Data); i += size {
		b := append(make([]byte, 8-size), t.Data[i:i+size]...)
		v = append(v, binary.BigEndian.Uint64(b))
	}
	return v, size, true
}

// texts gives the strings of a tag.
func texts(t model.Tag) (s []string, ok bool) {
	if t.Type != 6 && t.Type != 8 && t.Type != 9 {
		return nil, false
	}
	l := bytes.Split(t.Data, []byte{0})
	for i := 0; i < t.Count; i++ {
		s = append(s, string(l[i]))
	}
	return s, true
}

// answer is what one accessor should say.
type answer struct {
	v  any
	ok bool
}

func list[T any](v []uint64) []T {
	out := make([]T, len(v))
	for i := range v {
		reflect.ValueOf(&out[i]).Elem().SetUint(v[i])
	}
	return out
}

// wantTag answers for every accessor.
func wantTag(t model.Tag) map[string]answer {
	w := map[string]answer{"Get": {}, "GetString": {}, "GetStrings": {}, "GetInt": {}, "GetInts": {}, "GetUint32": {}, "GetUint32s": {}, "GetUint64": {}, "GetUint64s": {}, "GetBytes": {}}
	if s, ok := texts(t); ok {
		w["Get"], w["GetStrings"] = answer{s, true}, answer{s, true}
		if len(s) == 1 {
			w["GetString"] = answer{s[0], true}
		}
		return w
	}
	if t.Type == 7 {
		w["Get"], w["GetBytes"] = answer{t.Data, true}, answer{t.Data, true}
		return w
	}
	v, size, ok := ints(t)
	if !ok {
		return w
	}
	switch size {
	case 1:
		w["Get"] = answer{list[uint8](v), true}
	case 2:
		w["Get"] = answer{list[uint16](v), true}
	case 4:
		w["Get"] = answer{list[uint32](v), true}
	case 8:
		w["Get"] = answer{v, true}
	}
	w["GetUint64s"] = answer{v, true}
	if len(v) == 1 {
		w["GetUint64"] = answer{v[0], true}
	}
	if size == 8 {
		return w
	}
	w["GetUint32s"] = answer{list[uint32](v), true}
	if len(v) == 1 {
		w["GetUint32"] = answer{uint32(v[0]), true}
	}
	is := make([]int, len(v))
	for i, x := range v {
		if x > 1<<31-1 {
			return w
		}
		is[i] = int(x)
	}
	w["GetInts"] = answer{is, true}
	if len(is) == 1 {
		w["GetInt"] = answer{is[0], true}
	}
	return w
}

// same compares values; an empty list may be nil.
func same(a, b any) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Kind() == reflect.Slice && y.Kind() == reflect.Slice && x.Type() == y.Type() && x.Len() == 0 && y.Len() == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

func brief(v any) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

func call(hdr *rpmutils.RpmHeader, name string, tag int) (v any, err error) {
	switch name {
	case "Get":
		return hdr.Get(tag)
	case "GetString":
		return hdr.GetString(tag)
	case "GetStrings":
		return hdr.GetStrings(tag)
	case "GetInt":
		return hdr.GetInt(tag)
	case "GetInts":
		return hdr.GetInts(tag)
	case "GetUint32":
		return hdr.GetUint32(tag)
	case "GetUint32s":
		return hdr.GetUint32s(tag)
	case "GetUint64":
		return hdr.GetUint64(tag)
	case "GetUint64s":
		return hdr.GetUint64s(tag)
	}
	return hdr.GetBytes(tag)
}

var getters = []string{"Get", "GetString", "GetStrings", "GetInt", "GetInts", "GetUint32", "GetUint32s", "GetUint64", "GetUint64s", "GetBytes"}

// where finds a tag by the number that callers use.
func (h *head) where(tag int) (t model.Tag, ok bool) {
	switch {
	case tag > 16384:
		t, ok = h.par.Sig[tag-16384]
	case tag < 1000:
		t, ok = h.par.Sig[tag]
	default:
		t, ok = h.par.Gen[tag]
	}
	return
}

// moving are the signature tags that signing or dumping may change, and the
// regions, which are not values.
func (h *head) moving(id int) bool {
	return id == 62 || id == 63 || id == 1008 || h.signed && (id == 267 || id == 268 || id == 1002 || id == 1005)
}

// tags are the numbers that are asked for.
func (h *head) tags() (l []int) {
	for _, id := range tagIDs(h.par.Gen) {
		if id >= 1000 && id <= 16384 {
			l = append(l, id)
		}
		// what one header holds the other does not
		if id <= 16383 && !h.moving(id) {
			l = append(l, id+16384)
		}
	}
	for _, id := range tagIDs(h.par.Sig) {
		if h.moving(id) {
			continue
		}
		if id < 1000 {
			l = append(l, id)
		} else if id <= 16384 {
			l = append(l, id) // the general header is meant
		}
		if id > 0 {
			l = append(l, id+16384)
		}
	}
	l = append(l, 1, 255, 999, 1000, 1003, 1027, 1116, 1117, 1118, 5008, 5009, 16383, 16384, 16385, 99999)
	slices.Sort(l)
	return slices.Compact(l)
}

// checkTags compares all getters of all tags.
func (h *head) checkTags(bad func(string, ...any), hold bool) {
	absent := func(err error) bool {
		var no rpmutils.NoSuchTagError
		return errors.As(err, &no)
	}
	for _, tag := range h.tags() {
		t, ok := h.where(tag)
		if got := h.hdr.HasTag(tag); got != ok {
			bad("HasTag(%d) is %v", tag, got)
			return
		}
		if !ok && tag == 1027 {
			// put together from directories and base names
			if d, ok := h.where(1118); ok {
				dirs, _ := texts(d)
				t, _ = h.where(1117)
				bases, _ := texts(t)
				t, _ = h.where(1116)
				idx, _, _ := ints(t)
				var names []string
				for i, b := range bases {
					names = append(names, dirs[idx[i]]+b)
				}
				for _, n := range []string{"Get", "GetStrings"} {
					if v, err := call(h.hdr, n, tag); err != nil || !same(v, names) {
						bad("%s(%d) is %s (%v), not %s", n, tag, brief(v), err, brief(names))
						return
					}
				}
				continue
			}
		}
		w := wantTag(t)
		for _, n := range getters {
			v, err := call(h.hdr, n, tag)
			a := w[n]
			if !ok {
				a = answer{}
			}
			switch {
			case a.ok && err != nil:
				bad("%s(%d) fails (%v), the stored value is %s", n, tag, err, brief(a.v))
			case a.ok && !same(v, a.v):
				bad("%s(%d) is %s, the stored value is %s", n, tag, brief(v), brief(a.v))
			case !a.ok && err == nil:
				bad("%s(%d) is %s, though the tag (there: %v, type %d, %d values) cannot be read that way", n, tag, brief(v), ok, t.Type, t.Count)
			case !ok && !absent(err):
				bad("%s(%d) fails with %v instead of saying that there is no such tag", n, tag, err)
			default:
				if hold && a.ok && n[len(n)-1] == 's' && len(h.held) < 60 {
					h.held = append(h.held, held{fmt.Sprintf("%s(%d)", n, tag), v, fmt.Sprintf("%#v", v)})
				}
				continue
			}
			return
		}
	}
	// of two tags, the one that holds a number
	pairs := [][2]int{{1009, 5009}, {1000, 5009}, {1009, 1000}, {16384 + 1007, 271}, {1003, 1006}, {5009, 1009}, {1028, 1006}}
	all := h.tags()
	for i := range all {
		pairs = append(pairs, [2]int{all[i], all[(i*7+3)%len(all)]})
	}
	for _, p := range pairs {
		a, ok := h.number(p[1])
		if !ok {
			a, ok = h.number(p[0])
		}
		v, err := h.hdr.GetUint64Fallback(p[0], p[1])
		if ok != (err == nil) || ok && v != a {
			bad("GetUint64Fallback(%d, %d) is %d (%v), not %d (%v)", p[0], p[1], v, err, a, ok)
			return
		}
	}
	a, ok := h.number(5009)
	if !ok {
		a, ok = h.number(1009)
	}
	if v, err := h.hdr.InstalledSize(); ok != (err == nil) || ok && v != int64(a) {
		bad("InstalledSize is %d (%v), not %d (%v)", v, err, a, ok)
		return
	}
	if a, ok = h.number(271); !ok {
		a, ok = h.number(16384 + 1007)
	}
	if v, err := h.hdr.PayloadSize(); ok != (err == nil) || ok && v != int64(a) {
		bad("PayloadSize is %d (%v), not %d (%v)", v, err, a, ok)
		return
	}
	if v := h.hdr.IsSource(); v != h.pkg.Spec.Source {
		bad("IsSource is %v", v)
	}
	start := 96 + len(h.par.SigRaw)
	if r := h.hdr.GetRange(); r.Start != start || r.End != start+len(h.par.GenRaw) {
		bad("GetRange is %v, not %d-%d", r, start, start+len(h.par.GenRaw))
	}
}

func (h *head) number(tag int) (uint64, bool) {
	t, ok := h.where(tag)
	if !ok {
		return 0, false
	}
	v, _, ok := ints(t)
	if !ok || len(v) != 1 {
		return 0, false
	}
	return v[0], true
}

// checkFiles compares the file list and the name of the package.
func (h *head) checkFiles(bad func(string, ...any), hold bool) {
	s := h.pkg.Spec
	fs, err := h.hdr.GetFiles()
	if err != nil || len(fs) != len(s.Files) {
		bad("GetFiles gives %d files (%v), there are %d", len(fs), err, len(s.Files))
		return
	}
	str := func(tag, i int) string { v, _ := texts(h.par.Gen[tag]); return v[i] }
	num := func(tag, i int) int {
		v, _, ok := ints(h.par.Gen[tag])
		if !ok {
			return 0 // not recorded
		}
		return int(v[i])
	}
	for i, f := range fs {
		e := &s.Files[i]
		for _, x := range []struct {
			what      string
			got, want any
		}{
			{"name", f.Name(), e.Name}, {"size", f.Size(), s.HeaderSize(i)}, {"mode", f.Mode(), int(e.Mode)}, {"link target", f.Linkname(), e.Link},
			{"user", f.UserName(), str(1039, i)}, {"group", f.GroupName(), str(1040, i)}, {"digest", f.Digest(), str(1035, i)},
			{"flags", f.Flags(), num(1037, i)}, {"time", f.Mtime(), num(1034, i)}, {"inode", f.Inode(), num(1096, i)}, {"device", f.Device(), num(1095, i)},
		} {
			if x.got != x.want {
				bad("file %d of %d (%q): the %s is %s, not %s", i, len(fs), e.Name, x.what, brief(x.got), brief(x.want))
				return
			}
		}
		if hold && len(h.held) < 60 {
			h.held = append(h.held, held{fmt.Sprintf("file %d", i), f, fileView(f)})
		}
	}
	n, err := h.hdr.GetNEVRA()
	if err != nil {
		bad("GetNEVRA fails: %v", err)
		return
	}
	epoch, _ := h.number(1003)
	want := rpmutils.NEVRA{Name: s.Name, Epoch: fmt.Sprint(epoch), Version: str(1001, 0), Release: str(1002, 0), Arch: str(1022, 0)}
	if *n != want {
		bad("GetNEVRA is %+v, not %+v", *n, want)
		return
	}
	if t := n.String(); t != fmt.Sprintf("%s-%d:%s-%s.%s.rpm", s.Name, epoch, want.Version, want.Release, want.Arch) {
		bad("NEVRA is spelled %q", t)
	}
}

// checkHeld sees whether values that were handed out are still the same.
func (h *head) checkHeld(bad func(string, ...any)) {
	for _, x := range h.held {
		now := ""
		if f, ok := x.v.(rpmutils.FileInfo); ok {
			now = fileView(f)
		} else {
			now = fmt.Sprintf("%#v", x.v)
		}
		if now != x.text {
			bad("the value of %s that was handed out before has changed from %.120s to %.120s", x.what, x.text, now)
			return
		}
	}
}

func runHead(sc *headScenario, c *Ctx, files bool) {
	runtime.SimRand(true, sc.Rand)
	k := kern.New()
	start := k.Now
	k.Boot()
	defer k.Halt()
	var pkgs []*model.Package
	var pars []*model.Parsed
	total := 0
	for i := range sc.Specs {
		p := sc.Specs[i].Build()
		q, err := model.Parse(p.Raw)
		if err != nil {
			c.Err = err.Error()
			return
		}
		pkgs, pars = append(pkgs, p), append(pars, q)
		k.PutFile(fmt.Sprintf("/p/%d.rpm", i), p.Raw)
		total += len(p.Raw)
	}
	k.PutDir("/d")
	k.SyncAll()
	var heads []*head
	budget := Budget + 300*total
	check := func(h *head, when string, hold bool) func() {
		bad := func(format string, a ...any) {
			c.Fail("value", "%s (header made by %s): %s", when, h.origin, fmt.Sprintf(format, a...))
		}
		return func() {
			if files {
				h.checkFiles(bad, hold)
			} else {
				h.checkTags(bad, hold)
			}
			if !c.Failed() {
				h.checkHeld(bad)
			}
		}
	}
	for i := range sc.Steps {
		if c.Failed() {
			return
		}
		st := &sc.Steps[i]
		pkg := pkgs[st.Spec]
		raw := pkg.Raw
		when := fmt.Sprintf("after step %d (%s)", i, st.Op)
		var h *head
		var err error
		if slices.Contains(headMakes, st.Op) {
			h = &head{pkg: pkg, par: pars[st.Spec], origin: st.Op}
		} else if len(heads) > 0 {
			h = heads[st.On%len(heads)]
		}
		src := stream.New(raw, sc.Plans[i%len(sc.Plans)])
		e := c.Proc(budget, func() {
			switch st.Op {
			case "read":
				h.hdr, err = rpmutils.ReadHeader(src)
			case "rpm":
				if h.rpm, err = rpmutils.ReadRpm(src); err == nil {
					h.hdr = h.rpm.Header
				}
			case "verify":
				h.hdr, _, err = rpmutils.Verify(src, nil)
			case "sign":
				h.signed = true
				h.hdr, err = rpmutils.SignRpmStream(src, model.SigningKey(st.Key.Key), st.Key.options())
			case "file":
				h.signed = true
				var f *os.File
				if f, err = os.Open(fmt.Sprintf("/p/%d.rpm", st.Spec)); err == nil {
					h.hdr, err = rpmutils.SignRpmFile(f, fmt.Sprintf("/d/%d.rpm", st.Spec), model.SigningKey(st.Key.Key), st.Key.options())
					f.Close()
				}
			case "bad":
				// something else that goes wrong
				b := append([]byte(nil), raw...)
				at := st.At % len(b)
				if st.At%3 == 0 {
					b = b[:at]
				} else {
					b[at] ^= byte(st.At/7%255 + 1)
				}
				rpmutils.ReadHeader(stream.New(b, sc.Plans[i%len(sc.Plans)]))
				rpmutils.SignRpmStream(stream.New(b, stream.Plan{}), model.SigningKey("alice"), nil)
			}
			if h == nil || h.hdr == nil {
				return
			}
			switch st.Op {
			case "same", "scribble":
				var d []byte
				if d, err = h.hdr.DumpSignatureHeader(true); st.Op == "scribble" {
					for j := range d {
						d[j] ^= 0x5a
					}
				}
			case "small":
				_, err = h.hdr.DumpSignatureHeader(false)
			case "iterate":
				if h.rpm == nil || h.spent {
					break
				}
				h.spent = true
				pr, perr := h.rpm.PayloadReaderExtended()
				if perr != nil {
					break
				}
				for {
					if _, err := pr.Next(); err != nil {
						break
					}
					io.CopyN(io.Discard, pr, 3000)
				}
			case "expand":
				if h.rpm == nil || h.spent {
					break
				}
				h.spent = true
				h.rpm.ExpandPayload("/d/tree")
			}
		})
		if st.Op == "bad" || st.Op == "iterate" || st.Op == "expand" {
			// how these end is the business of other properties
			if e.Kind != "ok" {
				c.Probe("other property: " + e.Kind)
				return
			}
		} else if !c.Healthy(e, st.Op) {
			return
		}
		c.Probe(st.Op)
		if err != nil {
			c.Fail("refused", "step %d (%s) on an intact package failed: %v", i, st.Op, err)
			return
		}
		if slices.Contains(headMakes, st.Op) {
			heads = append(heads, h)
			end := c.Proc(budget, check(h, when, true))
			if !c.Healthy(end, "reading the values "+when) || c.Failed() {
				return
			}
		}
		if st.Op == "together" && len(heads) > 0 {
			// several goroutines look at the headers at the same time
			var fns []func()
			for j := 0; j < 2+st.At%2; j++ {
				fns = append(fns, check(heads[(st.On+j*(st.At/2%2))%len(heads)], "at the same time", false))
			}
			var sched *rt.Sched
			end := c.Proc(budget, func() { sched = rt.Run(nil, max(sc.Every, 1), sc.Rand+uint64(i), fns) })
			if !c.Healthy(end, "reading the values at the same time") {
				return
			}
			c.Fault("switch", len(sched.Trace))
		}
		c.Mix("step %d %s %v", i, st.Op, err)
	}
	if files && sc.Misfit != nil {
		sc.checkMisfit(pkgs[0].Raw, c, budget)
	}
	// one last look at all of them
	for i, h := range heads {
		if c.Failed() {
			return
		}
		end := c.Proc(budget, check(h, fmt.Sprintf("at the end (header %d)", i), false))
		if !c.Healthy(end, "reading the values at the end") {
			return
		}
	}
	c.Kernel(k, start)
}

// checkMisfit wants an error where there is no telling what a tag says.
func (sc *headScenario) checkMisfit(raw []byte, c *Ctx, budget int) {
	m := sc.Misfit
	p := take(raw)
	gen, ok := m.apply(p.gen)
	if !ok {
		return
	}
	p.gen = gen
	p.reseal()
	src := stream.New(p.join(), sc.Plans[0])
	end := c.Proc(budget, func() {
		hdr, err := rpmutils.ReadHeader(src)
		if err != nil {
			c.Fail("refused", "the header of a package with a misfit (tag %d %s) cannot be read: %v", m.Tag, m.Kind, err)
			return
		}
		if m.Tag == 1000 || m.Tag == 1001 || m.Tag == 1002 || m.Tag == 1003 || m.Tag == 1022 {
			if n, err := hdr.GetNEVRA(); err == nil {
				c.Fail("guess", "tag %d is wrong (%s) and GetNEVRA says %+v", m.Tag, m.Kind, *n)
			}
		} else if fs, err := hdr.GetFiles(); err == nil {
			c.Fail("guess", "tag %d is wrong (%s) and GetFiles gives %d files", m.Tag, m.Kind, len(fs))
		}
	})
	c.Healthy(end, "reading a package with a misfit")
	c.Fault("misfit:"+m.Kind, 1)
	c.Source(src)
}

// genTagIDs are general tags that mean nothing to the library.
var genTagIDs = []int{100, 1007, 1008, 1010, 1011, 1012, 1013, 1015, 1016, 1017, 1018, 1019, 1020, 1023, 1024, 1025, 1026, 1043, 1044, 1045, 1047, 1048, 1049, 1050,
	1053, 1065, 1079, 1080, 1081, 1082, 1085, 1090, 1112, 1113, 1140, 1156, 1200, 4000, 5010, 5011, 5012, 5034, 5046, 5062, 5100, 9999, 16383, 16384}

func genHeadSpec(r *rng.R, deep bool) model.Spec {
	s := genSpec(r, specOpts{Files: archOpts{Max: 5}, Comp: []string{"gzip", "uncompressed", "-none", "zstd"}, Signed: true, Digest: true})
	s.Ver = rng.Pick(r, "", "2", "10.0~rc1", "1")
	s.Rel = rng.Pick(r, "", "3.el7", "0.1", "1.0")
	s.Arch = rng.Pick(r, "", "x86_64", "i686", "src")
	if s.Epoch >= 0 && r.Bool() {
		s.Epoch = rng.Pick(r, 0, 1, 255, 65535, 1<<31-1, 1<<31, 1<<32-1)
		switch {
		case s.Epoch < 256:
			s.EpochTyp = rng.Pick(r, 0, 2, 3, 4, 5)
		case s.Epoch < 65536:
			s.EpochTyp = rng.Pick(r, 0, 3, 5)
		default:
			s.EpochTyp = rng.Pick(r, 0, 5)
		}
	}
	s.Both = r.P(1, 4)
	if r.Bool() {
		s.Attrs = 1 + r.N(10000)
	}
	pool := append([]int(nil), genTagIDs...)
	rng.Shuffle(r, pool)
	n := r.N(9)
	if deep && r.P(1, 4) {
		n = len(pool)
	}
	for _, id := range pool[:n] {
		x := model.ExtraTag{ID: id, Type: r.N(10), N: rng.Pick(r, 0, 1, 1, 1, 2, 3, r.N(20)), Seed: r.N(100000)}
		if r.P(1, 40) {
			x.N = rng.Pick(r, 300, 1000, 5000)
		}
		if x.Type == 0 {
			x.N = min(x.N, 1)
		}
		s.ExtraGen = append(s.ExtraGen, x)
	}
	return s
}

func genHead(r *rng.R, deep bool) *headScenario {
	sc := &headScenario{Rand: r.U64() >> 12}
	for n := rng.Pick(r, 1, 2, 2, 3); n > 0; n-- {
		sc.Specs = append(sc.Specs, genHeadSpec(r, deep))
	}
	if len(sc.Specs) > 1 && r.P(1, 3) {
		// nearly the same package
		s := sc.Specs[0]
		s.ExtraGen = append([]model.ExtraTag(nil), s.ExtraGen...)
		for i := range s.ExtraGen {
			if r.Bool() {
				s.ExtraGen[i].Seed++
			}
		}
		s.Attrs++
		if r.Bool() {
			// of the same size
			s = sc.Specs[0]
			s.Files = append([]model.Entry(nil), s.Files...)
			for i := range s.Files {
				e := &s.Files[i]
				if n := len(e.Name); n > 0 && e.Mode&model.Type == model.Reg && e.Nlink <= 1 {
					e.Name = e.Name[:n-1] + string(rune('0'+r.N(10)))
				}
				e.Uid = (e.Uid + 1) % 10
			}
			if !validSpec(&s, true) {
				s.Files = sc.Specs[0].Files
			}
			s.Name = "q" + s.Name[1:]
		}
		sc.Specs[1] = s
	}
	for n := rng.Pick(r, 1, 1, 2, 3); n > 0; n-- {
		sc.Plans = append(sc.Plans, genPlan(r, 4000))
	}
	if r.Bool() {
		sc.Every = rng.Pick(r, 1, 2, 3, 7, 20)
	}
	n := r.Range(2, 6)
	if deep {
		n = r.Range(2, 14)
	}
	for i := 0; i < n; i++ {
		st := headStep{Spec: r.N(len(sc.Specs)), On: r.N(4), At: r.N(10000), Key: genRound(r, []string{"new"}, "file")}
		if i == 0 || r.P(1, 3) {
			st.Op = rng.Of(r, headMakes)
		} else {
			st.Op = rng.Of(r, headUses)
		}
		sc.Steps = append(sc.Steps, st)
	}
	if r.P(1, 2) {
		m := &misfit{Tag: rng.Pick(r, 1000, 1001, 1002, 1003, 1022, 1028, 1030, 1034, 1035, 1036, 1037, 1039, 1040, 1095, 1096, 1116, 1116, 1118), N: r.N(64)}
		m.Kind = rng.Of(r, m.kinds())
		sc.Misfit = m
	}
	return sc
}

func (sc *headScenario) valid() bool {
	if len(sc.Specs) == 0 || len(sc.Plans) == 0 || sc.Every < 0 {
		return false
	}
	for i := range sc.Specs {
		s := &sc.Specs[i]
		if !validSpec(s, true) || s.Epoch > 1<<32-1 || s.Attrs < 0 {
			return false
		}
		switch s.EpochTyp {
		case 0, 4, 5:
		case 2:
			if s.Epoch > 255 {
				return false
			}
		case 3:
			if s.Epoch > 65535 {
				return false
			}
		default:
			return false
		}
		seen := map[int]bool{}
		for _, x := range s.ExtraGen {
			if !slices.Contains(genTagIDs, x.ID) || seen[x.ID] || x.Type < 0 || x.Type > 9 || x.N < 0 || x.N > 5000 || x.Type == 0 && x.N > 1 || x.Seed < 0 {
				return false
			}
			seen[x.ID] = true
		}
	}
	if m := sc.Misfit; m != nil && (m.N < 0 || !slices.Contains(m.kinds(), m.Kind)) {
		return false
	}
	for i := range sc.Plans {
		if !validPlan(&sc.Plans[i]) || sc.Plans[i].Cut != 0 {
			return false
		}
	}
	for _, st := range sc.Steps {
		if st.Spec < 0 || st.Spec >= len(sc.Specs) || st.On < 0 || st.At < 0 || !st.Key.valid() || st.Key.Route != "file" ||
			!slices.Contains(headMakes, st.Op) && !slices.Contains(headUses, st.Op) {
			return false
		}
	}
	return true
}

func init() {
	for _, id := range []string{"C21", "C22"} {
		files := id == "C22"
		register(&Property{
			ID:    id,
			New:   func() any { return &headScenario{} },
			Gen:   func(r *rng.R, deep bool) any { return genHead(r, deep) },
			Run:   func(s any, c *Ctx) { runHead(s.(*headScenario), c, files) },
			Valid: func(s any) bool { return s.(*headScenario).valid() },
		})
	}
}
