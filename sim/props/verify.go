package props

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"runtime"
	"slices"
	"sort"
	"strings"

	"github.com/ProtonMail/go-crypto/openpgp"
	rpmutils "github.com/sassoftware/go-rpmutils"

	"verifsim/kern"
	"verifsim/model"
	"verifsim/rng"
	"verifsim/stream"
)

// ---- C18: dumping the signature header ----

// dumpScenario is a header and a history of requests to it.
type dumpScenario struct {
	Spec   model.Spec  `json:"spec"`
	Origin string      `json:"origin"` // read, rpm, verify, sign, file, raw
	Round  signRound   `json:"round"`
	Ops    []string    `json:"ops,omitempty"`
	Plan   stream.Plan `json:"plan"`
	Rand   uint64      `json:"rand"`
}

var dumpOps = []string{"same", "same", "small", "small", "size", "range", "tags", "scribble", "reload"}

// neededSig is the size of the smallest signature header with these tags.
func neededSig(tags map[int]model.Tag) int {
	var l []model.Tag
	for _, id := range tagIDs(tags) {
		if id != 1008 && id != 62 {
			l = append(l, tags[id])
		}
	}
	return (len(model.WriteHeader(l, 62)) + 7) &^ 7
}

func runC18(sc *dumpScenario, c *Ctx) {
	runtime.SimRand(true, sc.Rand)
	k := kern.New()
	start := k.Now
	k.Boot()
	defer k.Halt()
	cur := sc.Spec.Build().Raw
	k.PutFile("/p/in.rpm", cur)
	k.PutDir("/d")
	k.SyncAll()
	c.Plain = len(sc.Ops) == 0
	var hdr *rpmutils.RpmHeader
	var err error
	signed := false
	c.Probe("origin " + sc.Origin)
	rd := &sc.Round
	t0 := floorSec(k.Now)
	src := stream.New(cur, sc.Plan)
	defer c.Source(src)
	e := c.Proc(Budget+80*len(cur), func() {
		switch sc.Origin {
		case "read":
			hdr, err = rpmutils.ReadHeader(src)
		case "rpm":
			var r *rpmutils.Rpm
			if r, err = rpmutils.ReadRpm(src); err == nil {
				hdr = r.Header
			}
		case "verify":
			hdr, _, err = rpmutils.Verify(src, nil)
		case "sign":
			signed = true
			hdr, err = rpmutils.SignRpmStream(src, model.SigningKey(rd.Key), rd.options())
		case "file", "raw":
			signed = true
			var f *os.File
			if f, err = os.Open("/p/in.rpm"); err != nil {
				return
			}
			if sc.Origin == "file" {
				hdr, err = rpmutils.SignRpmFile(f, "/d/out.rpm", model.SigningKey(rd.Key), rd.options())
			} else {
				p, _ := model.Parse(cur)
				s := model.Sign{Key: rd.Key, Hash: rd.Hash, Time: rd.Time}
				hdr, err = rpmutils.RewriteWithSignatures(f, "/d/out.rpm", model.MakeSig(s, p.GenRaw, p.Payload), model.MakeSig(s, p.GenRaw))
			}
			f.Close()
		}
	})
	t1 := floorSec(k.Now)
	if !c.Healthy(e, "reading the header") {
		return
	}
	if err != nil {
		c.Fail("refused", "reading an intact package (%s) failed: %v", sc.Origin, err)
		return
	}
	first := map[string][]byte{}
	orig := cur
	for i, op := range sc.Ops {
		if c.Failed() {
			break
		}
		a, err := model.Parse(orig)
		if err != nil {
			c.Err = "the spliced package became unreadable: " + err.Error()
			return
		}
		var dump []byte
		end := c.Proc(Budget, func() {
			switch op {
			case "same", "scribble", "reload":
				dump, err = hdr.DumpSignatureHeader(true)
			case "small":
				dump, err = hdr.DumpSignatureHeader(false)
			case "size", "range", "tags":
			}
		})
		if !c.Healthy(end, op) {
			return
		}
		if err != nil {
			c.Fail("dump", "request %d (%s) failed: %v", i, op, err)
			return
		}
		area := 96 + len(a.SigRaw)
		if n := hdr.OriginalSignatureHeaderSize(); n != area {
			c.Fail("size", "after %v the original size is reported as %d, not %d", sc.Ops[:i+1], n, area)
		}
		if r := hdr.GetRange(); r.Start != area || r.End != area+len(a.GenRaw) {
			c.Fail("size", "after %v the header range is reported as %d-%d, not %d-%d", sc.Ops[:i+1], r.Start, r.End, area, area+len(a.GenRaw))
		}
		if op == "tags" {
			for _, id := range tagIDs(a.Sig) {
				if sigTags[id] || a.Sig[id].Type != 7 {
					continue
				}
				got, err := hdr.GetBytes(sigTagID(id))
				if err != nil || !bytes.Equal(got, a.Sig[id].Data) {
					c.Fail("tags", "after %v signature tag %d reads % x (%v), not % x", sc.Ops[:i+1], id, trunc(got), err, trunc(a.Sig[id].Data))
				}
			}
		}
		if dump == nil {
			continue
		}
		name := op
		if name != "small" {
			name = "same"
		}
		if f, ok := first[name]; !ok {
			first[name] = append([]byte(nil), dump...)
		} else if !bytes.Equal(f, dump) {
			c.Fail("repeat", "request %d of %v gives %d bytes that differ from the %d of the first such request (at %d)", i, sc.Ops[:i+1], len(dump), len(f), firstDiff(string(f), string(dump)))
			return
		}
		out := append(append([]byte(nil), dump...), orig[area:]...)
		if signed {
			if class, what := diffSigned(orig, out, rd, t0, t1); class != "" {
				c.Fail("splice", "after %v: %s", sc.Ops[:i+1], what)
				return
			}
		} else {
			b, err := model.Parse(out)
			if err != nil {
				c.Fail("splice", "after %v the dumped header does not fit the package: %v", sc.Ops[:i+1], err)
				return
			}
			if len(b.Problems) > 0 {
				c.Fail("splice", "after %v the dumped header is malformed: %v", sc.Ops[:i+1], b.Problems)
				return
			}
			if !bytes.Equal(a.Lead, b.Lead) || !bytes.Equal(a.GenRaw, b.GenRaw) || !bytes.Equal(a.Payload, b.Payload) {
				c.Fail("splice", "after %v the package is another one", sc.Ops[:i+1])
				return
			}
			if d := sameTags(a.Sig, b.Sig, map[int]bool{62: true, 1008: true}); d != "" {
				c.Fail("tags", "after %v: %s", sc.Ops[:i+1], d)
				return
			}
		}
		b, err := model.Parse(out)
		if err != nil {
			c.Fail("splice", "after %v the dumped header does not fit the package: %v", sc.Ops[:i+1], err)
			return
		}
		need, have := neededSig(b.Sig), len(a.SigRaw)
		if name == "same" {
			if (need == have || need+16 <= have) && len(dump) != area {
				c.Fail("length", "asked for the same size the header has %d bytes instead of %d, though the tags need only %d", len(dump), area, need+96)
			}
			if len(dump) == area {
				c.Probe("same size")
			} else {
				c.Probe("tags do not fit")
			}
		} else if len(dump) != need+96 {
			c.Fail("length", "the smallest header has %d bytes, the tags need %d", len(dump), need+96)
		}
		switch op {
		case "scribble":
			for j := range dump {
				dump[j] ^= 0xa5
			}
		case "reload":
			// the spliced package is the one that is read from now on
			end := c.Proc(Budget+80*len(out), func() { hdr, err = rpmutils.ReadHeader(stream.New(out, sc.Plan)) })
			if !c.Healthy(end, "reading the spliced package") {
				return
			}
			if err != nil {
				c.Fail("splice", "the library cannot read the spliced package: %v", err)
				return
			}
			orig, first, signed = out, map[string][]byte{}, false
		}
	}
	c.Kernel(k, start)
}

// sigTagID is how the library calls a signature header tag.
func sigTagID(id int) int {
	if id >= 1000 {
		return id + 16384 // rpmutils._SIGHEADER_TAG_BASE
	}
	return id
}

// ---- C14 and C15: tampering ----

// edit is one change to a built package.
type edit struct {
	Kind string `json:"kind"` // flip, set, drop, add in hdr, payload, sig; see apply
	Area string `json:"area,omitempty"`
	At   int    `json:"at,omitempty"`
	N    int    `json:"n,omitempty"`
}

// verifyScenario is a package, what happened to it, and a keyring.
type verifyScenario struct {
	Spec   model.Spec  `json:"spec"`
	Other  *model.Spec `json:"other,omitempty"` // donor of foreign signatures
	Edits  []edit      `json:"edits,omitempty"`
	Reseal bool        `json:"reseal,omitempty"` // recompute the digests in the signature header
	NoRing bool        `json:"no_ring,omitempty"`
	Ring   []string    `json:"ring,omitempty"`
	Plan   stream.Plan `json:"plan"`
	Op     string      `json:"op,omitempty"` // C15: read, rpm, verify, sign, file, raw
	Round  signRound   `json:"round"`
	Rand   uint64      `json:"rand"`
}

// parts is a package taken apart for editing.
type parts struct {
	lead, gen, pay []byte
	sig            map[int]model.Tag
}

func (p *parts) join() []byte {
	var l []model.Tag
	for _, id := range tagIDs(p.sig) {
		if id != 62 {
			l = append(l, p.sig[id])
		}
	}
	s := model.WriteHeader(l, 62)
	for len(s)%8 != 0 {
		s = append(s, 0)
	}
	out := append([]byte(nil), p.lead...)
	out = append(out, s...)
	out = append(out, p.gen...)
	return append(out, p.pay...)
}

func (p *parts) reseal() {
	if _, ok := p.sig[269]; ok {
		d := sha1.Sum(p.gen)
		p.sig[269] = model.StrTag(269, hex.EncodeToString(d[:]))
	}
	if _, ok := p.sig[273]; ok {
		d := sha256.Sum256(p.gen)
		p.sig[273] = model.StrTag(273, hex.EncodeToString(d[:]))
	}
	if _, ok := p.sig[1004]; ok {
		w := md5.New()
		w.Write(p.gen)
		w.Write(p.pay)
		p.sig[1004] = model.BinTag(1004, w.Sum(nil))
	}
}

// take splits a built package.
func take(raw []byte) *parts {
	q, err := model.Parse(raw)
	if err != nil {
		panic(err)
	}
	p := &parts{lead: q.Lead, gen: append([]byte(nil), q.GenRaw...), pay: append([]byte(nil), q.Payload...), sig: map[int]model.Tag{}}
	for id, t := range q.Sig {
		p.sig[id] = t
	}
	return p
}

var sigIDs = []int{268, 267, 1002, 1005}

// present lists the signature tags there are.
func (p *parts) present() (l []int) {
	for _, id := range sigIDs {
		if _, ok := p.sig[id]; ok {
			l = append(l, id)
		}
	}
	return
}

// apply makes the change; it reports whether anything changed.
func (e *edit) apply(p *parts, donor *parts) bool {
	change := func(b []byte) []byte {
		at := 0
		if len(b) > 0 {
			at = e.At % len(b)
		}
		n := e.N
		switch e.Kind {
		case "flip":
			if len(b) == 0 {
				return b
			}
			b = append([]byte(nil), b...)
			b[at] ^= 1 << (n & 7)
		case "set":
			if len(b) == 0 {
				return b
			}
			b = append([]byte(nil), b...)
			b[at] = byte(n)
		case "drop":
			if len(b) == 0 {
				return b
			}
			end := min(len(b), at+1+n%40)
			b = append(append([]byte(nil), b[:at]...), b[end:]...)
		case "chop":
			b = append([]byte(nil), b[:at]...)
		case "add":
			b = append(append(append([]byte(nil), b[:at]...), model.Pattern(n, 1+n%9)...), b[at:]...)
		case "append":
			b = append(append([]byte(nil), b...), model.Pattern(n, 1+n%600)...)
		case "swap":
			if len(b) < 2 {
				return b
			}
			b = append([]byte(nil), b...)
			j := n % len(b)
			b[at], b[j] = b[j], b[at]
		}
		return b
	}
	switch e.Area {
	case "hdr":
		old := p.gen
		p.gen = change(p.gen)
		return !bytes.Equal(old, p.gen)
	case "payload":
		old := p.pay
		p.pay = change(p.pay)
		return !bytes.Equal(old, p.pay)
	case "digest": // the header digests themselves
		changed := false
		for _, id := range []int{269, 273} {
			if t, ok := p.sig[id]; ok {
				b := change(t.Data[:len(t.Data)-1])
				if len(b) == 0 || bytes.IndexByte(b, 0) >= 0 {
					continue
				}
				changed = changed || !bytes.Equal(b, t.Data[:len(t.Data)-1])
				p.sig[id] = model.StrTag(id, string(b))
			}
		}
		return changed
	case "md5":
		t, ok := p.sig[1004]
		if !ok {
			return false
		}
		b := change(t.Data)
		if len(b) == 0 {
			return false
		}
		p.sig[1004] = model.BinTag(1004, b)
		return !bytes.Equal(b, t.Data)
	}
	l := p.present()
	if len(l) == 0 {
		return false
	}
	id := l[e.At%len(l)]
	switch e.Area {
	case "sig": // the signature packet
		k := *e
		k.At = e.N / 8
		b := k.applyTo(p.sig[id].Data)
		ch := !bytes.Equal(b, p.sig[id].Data)
		p.sig[id] = model.BinTag(id, b)
		return ch
	case "foreign": // the one of another package
		if donor == nil {
			return false
		}
		t, ok := donor.sig[id]
		if !ok {
			return false
		}
		ch := !bytes.Equal(t.Data, p.sig[id].Data)
		p.sig[id] = t
		return ch
	case "swapped": // a header signature where a full one belongs, or the other way
		to := map[int]int{268: 1002, 1002: 268, 267: 1005, 1005: 267}[id]
		p.sig[to] = model.BinTag(to, p.sig[id].Data)
		return true
	case "moved": // the same kind under the other tag
		to := map[int]int{268: 267, 1002: 1005, 267: 268, 1005: 1002}[id]
		p.sig[to] = model.BinTag(to, p.sig[id].Data)
		delete(p.sig, id)
		return true
	case "removed":
		delete(p.sig, id)
		return true
	case "doubled": // two packets in one tag
		p.sig[id] = model.BinTag(id, append(append([]byte(nil), p.sig[id].Data...), p.sig[id].Data...))
		return true
	}
	return false
}

func (e edit) applyTo(b []byte) []byte {
	t := &parts{gen: b}
	e.Area = "hdr"
	e.apply(t, nil)
	return t.gen
}

// build makes the stream to verify. changed says whether it differs from the
// intact package.
func (sc *verifyScenario) build() (p *parts, raw []byte, changed bool) {
	intact := sc.Spec.Build().Raw
	p = take(intact)
	var donor *parts
	if sc.Other != nil {
		donor = take(sc.Other.Build().Raw)
	}
	for i := range sc.Edits {
		sc.Edits[i].apply(p, donor)
	}
	if sc.Reseal {
		p.reseal()
	}
	raw = p.join()
	return p, raw, !bytes.Equal(raw, intact)
}

// judge is the independent verification of a package.
type judged struct {
	err  string
	sigs []judgedSig
}

type judgedSig struct {
	id     int
	info   *model.SigInfo
	header bool
	signer string // key that verifies it
	named  bool   // a key of the ring is named by it
}

// payloadDigestOK checks the digest that covers the payload.
func payloadDigestOK(q *model.Parsed) (ok, usable bool) {
	if d, there := q.Gen[5092]; there {
		if a, there := q.Gen[5093]; there && len(a.Data) >= 4 && a.Type == 4 && (d.Type == 6 || d.Type == 8 || d.Type == 9) {
			id := int(a.Data[0])<<24 | int(a.Data[1])<<16 | int(a.Data[2])<<8 | int(a.Data[3])
			if sum := model.HashByID(id, q.Payload); sum != nil {
				// a list of no strings is no digest
				if end := bytes.IndexByte(d.Data, 0); end >= 0 && d.Count > 0 {
					return hex.EncodeToString(sum) == string(d.Data[:end]), true
				}
			}
		}
	}
	if t, there := q.Sig[1004]; there && len(t.Data) > 0 && t.Type == 7 {
		w := md5.New()
		w.Write(q.GenRaw)
		w.Write(q.Payload)
		return bytes.Equal(w.Sum(nil), t.Data), true
	}
	return false, false
}

// headerDigestOK checks the digests that cover the general header. The second
// result says whether there is one.
func headerDigestOK(q *model.Parsed) (ok, present bool) {
	if t, there := q.Sig[273]; there && t.Type == 6 && len(t.Data) > 1 {
		d := sha256.Sum256(q.GenRaw)
		return string(t.Data[:len(t.Data)-1]) == hex.EncodeToString(d[:]), true
	}
	if t, there := q.Sig[269]; there && t.Type == 6 && len(t.Data) > 1 {
		d := sha1.Sum(q.GenRaw)
		return string(t.Data[:len(t.Data)-1]) == hex.EncodeToString(d[:]), true
	}
	return true, false
}

// judge verifies a stream independently. The ring may be nil.
func judge(raw []byte, ring []string, noRing bool) judged {
	q, err := model.Parse(raw)
	if err != nil {
		return judged{err: err.Error()}
	}
	var j judged
	if ok, _ := headerDigestOK(q); !ok {
		j.err = "header digest"
	}
	if ok, usable := payloadDigestOK(q); !usable {
		j.err = "no payload digest"
	} else if !ok {
		j.err = "payload digest"
	}
	for _, id := range sigIDs {
		t, ok := q.Sig[id]
		if !ok {
			continue
		}
		s := judgedSig{id: id, header: id < 1000}
		if s.info, err = model.ParseSig(t.Data); err != nil {
			j.err = fmt.Sprintf("signature %d: %v", id, err)
			continue
		}
		msg := [][]byte{q.GenRaw}
		if !s.header {
			msg = append(msg, q.Payload)
		}
		for _, name := range ring {
			for _, key := range []string{name, name + "/sub", name + "/sub2"} {
				if key != name && name != "dave" {
					continue
				}
				pub := model.PublicKey(key)
				if s.info.Names(pub) {
					s.named = true
					if s.info.Check(pub, msg...) == nil {
						s.signer = key
					}
				}
			}
		}
		if !noRing && s.signer == "" {
			j.err = fmt.Sprintf("signature %d is not by a known key over this content", id)
		}
		j.sigs = append(j.sigs, s)
	}
	return j
}

func runC14(sc *verifyScenario, c *Ctx) {
	runtime.SimRand(true, sc.Rand)
	_, raw, changed := sc.build()
	j := judge(raw, sc.Ring, sc.NoRing)
	var ring openpgp.EntityList
	if !sc.NoRing {
		ring = openpgp.EntityList{}
		ring = append(ring, model.Ring(sc.Ring...)...)
	}
	src := stream.New(raw, sc.Plan)
	var sigs []*rpmutils.Signature
	var hdr *rpmutils.RpmHeader
	var err error
	e := c.Proc(Budget+80*len(raw), func() { hdr, sigs, err = rpmutils.Verify(src, ring) })
	c.Source(src)
	c.Mix("verify %s %v %d", e.Kind, err, len(sigs))
	if !c.Healthy(e, "verification") {
		return
	}
	c.Plain = !changed && plainPlan(sc.Plan) && len(sc.Ring) > 2
	for _, ed := range sc.Edits {
		c.Fault("tamper:"+ed.Area, 1)
	}
	if err != nil {
		c.Probe("rejected")
		if hdr != nil || sigs != nil {
			c.Fail("leak", "verification failed (%v) and still returned %d signatures", err, len(sigs))
		}
		if j.err == "" && !changed {
			c.Fail("refused", "verification rejects an intact package: %v", err)
		}
		return
	}
	c.Probe("accepted")
	if changed {
		c.Probe("accepted after harmless tampering")
	}
	if j.err != "" {
		c.Fail("accepted", "verification (ring %v, none %v) accepts the package although: %s", sc.Ring, sc.NoRing, j.err)
		return
	}
	if len(sigs) != len(j.sigs) {
		c.Fail("list", "verification lists %d signatures of %d", len(sigs), len(j.sigs))
		return
	}
	left := append([]judgedSig(nil), j.sigs...)
	for _, s := range sigs {
		found := -1
		for i, w := range left {
			if w.header != s.HeaderOnly || w.info.Hash != s.Hash || !w.info.Time.Equal(s.CreationTime) {
				continue
			}
			// without a keyring what the signature says, which nothing covers;
			// otherwise the key that verifies it
			if sc.NoRing {
				if s.KeyId != w.info.KeyID || !bytes.Equal(s.KeyFingerprint, w.info.FP) {
					continue
				}
			} else if pub := model.PublicKey(w.signer); s.KeyId != pub.KeyId || !bytes.Equal(s.KeyFingerprint, pub.Fingerprint) {
				continue
			}
			found = i
			break
		}
		if found < 0 {
			c.Fail("report", "verification reports key %x hash %v time %d header-only %v, which is no signature of the package", s.KeyId, s.Hash, s.CreationTime.Unix(), s.HeaderOnly)
			return
		}
		w := left[found]
		left = append(left[:found], left[found+1:]...)
		if sc.NoRing {
			if s.Signer != nil || s.PrimaryName != "" {
				c.Fail("report", "a signer is reported without a keyring")
			}
			continue
		}
		name := w.signer
		if i := bytes.IndexByte([]byte(name), '/'); i >= 0 {
			name = name[:i]
		}
		if s.Signer != model.Keys[name] {
			c.Fail("report", "the reported signer is not %s", name)
		}
		if id := model.Keys[name].PrimaryIdentity(); s.PrimaryName != id.Name {
			c.Fail("report", "the reported name %q is not that of %s", s.PrimaryName, name)
		}
		c.Probe("signer " + w.signer)
	}
}

func runC15(sc *verifyScenario, c *Ctx) {
	runtime.SimRand(true, sc.Rand)
	_, raw, changed := sc.build()
	k := kern.New()
	start := k.Now
	k.Boot()
	defer k.Halt()
	k.PutFile("/p/in.rpm", raw)
	k.PutFile("/d/out.rpm", []byte(other))
	k.SyncAll()
	before := k.Snapshot("/", nil)
	// what must happen
	hdrOK, payOK := true, true
	intact := sc.Spec.Build()
	q, err := model.Parse(raw)
	if err != nil || len(q.GenRaw) != len(intact.Header()) || !bytes.Equal(q.GenRaw, intact.Header()) {
		// not the header that the digests were made for
		hdrOK = false
	}
	covered := sc.Spec.HdrSHA1 || sc.Spec.HdrSHA256
	if hdrOK {
		if ok, _ := headerDigestOK(q); !ok {
			hdrOK = false
		}
		payOK, _ = payloadDigestOK(q)
	}
	var res error
	var f *os.File
	src := stream.New(raw, sc.Plan)
	if sc.Op == "file" || sc.Op == "raw" {
		if f, err = os.Open("/p/in.rpm"); err != nil {
			c.Err = err.Error()
			return
		}
	}
	rd := &sc.Round
	var pgp, rsa []byte
	if sc.Op == "raw" {
		s := model.Sign{Key: "bob", Time: 5}
		pgp, rsa = model.MakeSig(s, intact.Header(), intact.PayloadRaw()), model.MakeSig(s, intact.Header())
	}
	var hdr *rpmutils.RpmHeader
	var rpm *rpmutils.Rpm
	var sigs []*rpmutils.Signature
	e := c.Proc(Budget+80*len(raw), func() {
		switch sc.Op {
		case "read":
			hdr, res = rpmutils.ReadHeader(src)
		case "rpm":
			rpm, res = rpmutils.ReadRpm(src)
		case "verify":
			hdr, sigs, res = rpmutils.Verify(src, nil)
		case "sign":
			hdr, res = rpmutils.SignRpmStream(src, model.SigningKey(rd.Key), rd.options())
		case "file":
			hdr, res = rpmutils.SignRpmFile(f, "/d/out.rpm", model.SigningKey(rd.Key), rd.options())
		case "raw":
			hdr, res = rpmutils.RewriteWithSignatures(f, "/d/out.rpm", pgp, rsa)
		}
	})
	if f != nil {
		f.Close()
	}
	c.Source(src)
	c.Mix("%s %s %v", sc.Op, e.Kind, res)
	c.Plain = !changed && plainPlan(sc.Plan)
	for _, ed := range sc.Edits {
		c.Fault("tamper:"+ed.Area, 1)
	}
	c.Probe("op " + sc.Op)
	defer c.Kernel(k, start)
	if !c.Healthy(e, sc.Op) {
		return
	}
	reads := sc.Op == "verify" || sc.Op == "sign" || sc.Op == "file"
	switch {
	case !hdrOK && covered && res == nil:
		c.Fail("header", "%s accepts a general header that does not match its digest", sc.Op)
	case hdrOK && !payOK && reads && res == nil:
		c.Fail("payload", "%s accepts a payload that does not match its digest", sc.Op)
	case !changed && payOK && res != nil:
		c.Fail("refused", "%s rejects an intact package: %v", sc.Op, res)
	}
	if res != nil {
		c.Probe("rejected")
		if hdr != nil && sc.Op != "file" || rpm != nil || sigs != nil {
			c.Fail("output", "%s failed (%v) and returned a header all the same", sc.Op, res)
		}
		if d := diffNodes(before, k.Snapshot("/", nil), nil); d != "" {
			c.Fail("output", "%s failed (%v) but %s", sc.Op, res, d)
		}
	} else {
		c.Probe("accepted")
	}
}

var badDigests = []string{"", "empty", "short", "start", "long", "zero", "space", "second"}

var tamperKinds = []string{"flip", "flip", "flip", "set", "drop", "chop", "add", "append", "swap"}

func genEdit(r *rng.R, areas []string) edit {
	return edit{Kind: rng.Of(r, tamperKinds), Area: rng.Of(r, areas), At: r.N(1 << 16), N: r.N(1 << 12)}
}

func (sc *verifyScenario) valid(digest bool) bool {
	spec := sc.Spec
	if digest && !slices.Contains(badDigests, spec.BadDigest) {
		return false
	} else if digest {
		spec.BadDigest = ""
	}
	if !validSpec(&spec, digest) || !validPlan(&sc.Plan) || sc.Plan.Cut != 0 {
		return false
	}
	if sc.Other != nil && !validSpec(sc.Other, false) {
		return false
	}
	for _, e := range sc.Edits {
		if e.At < 0 || e.N < 0 {
			return false
		}
	}
	for _, n := range sc.Ring {
		if model.Keys[n] == nil {
			return false
		}
	}
	return true
}

func init() {
	register(&Property{
		ID:  "C18",
		New: func() any { return &dumpScenario{} },
		Gen: func(r *rng.R, deep bool) any {
			sc := &dumpScenario{Spec: genSignSpec(r), Rand: r.U64() >> 12, Plan: genPlan(r, 4000)}
			sc.Origin = rng.Pick(r, "read", "rpm", "verify", "sign", "sign", "file", "raw")
			route := sc.Origin
			if route != "raw" {
				route = "file"
			}
			sc.Round = genRound(r, []string{"new"}, route)
			if r.P(1, 3) {
				// near the edge of what fits
				p, err := model.Parse(sc.Spec.Build().Raw)
				if err == nil && sc.Origin != "read" && sc.Origin != "rpm" && sc.Origin != "verify" {
					tags := map[int]model.Tag{}
					for id, t := range p.Sig {
						tags[id] = t
					}
					delete(tags, 267)
					delete(tags, 1005)
					s := model.Sign{Key: sc.Round.Key, Hash: sc.Round.Hash, Time: 1_500_000_000}
					tags[268] = model.BinTag(268, model.MakeSig(s, p.GenRaw))
					tags[1002] = model.BinTag(1002, model.MakeSig(s, p.GenRaw, p.Payload))
					var kept []model.Tag
					for _, id := range tagIDs(p.Sig) {
						if id != 1008 && id != 62 {
							kept = append(kept, p.Sig[id])
						}
					}
					room := neededSig(tags) - len(model.WriteHeader(kept, 62)) - 16 + r.Range(-24, 24)
					if room >= 0 {
						sc.Spec.Reserved = room
					}
				}
			}
			n := r.Range(1, 6)
			if deep {
				n = r.Range(1, 14)
			}
			for ; n > 0; n-- {
				sc.Ops = append(sc.Ops, rng.Of(r, dumpOps))
			}
			return sc
		},
		Run: func(s any, c *Ctx) { runC18(s.(*dumpScenario), c) },
		Valid: func(s any) bool {
			sc := s.(*dumpScenario)
			if !validSpec(&sc.Spec, true) || !validPlan(&sc.Plan) || sc.Plan.Cut != 0 || !sc.Round.valid() {
				return false
			}
			switch sc.Origin {
			case "read", "rpm", "verify", "sign", "file":
				if sc.Round.Route != "file" {
					return false
				}
			case "raw":
				if sc.Round.Route != "raw" {
					return false
				}
			default:
				return false
			}
			for _, op := range sc.Ops {
				if i := sort.SearchStrings(sortedOps, op); i == len(sortedOps) || sortedOps[i] != op {
					return false
				}
			}
			return true
		},
	})
	register(&Property{
		ID:  "C14",
		New: func() any { return &verifyScenario{} },
		Gen: func(r *rng.R, deep bool) any {
			spec := genSignSpec(r)
			spec.PreSign = genSigns(r)
			if r.P(1, 3) {
				// signatures by several keys under all tags
				for _, old := range []bool{false, true} {
					for _, h := range []bool{false, true} {
						if r.P(2, 3) {
							spec.PreSign = append(spec.PreSign, model.Sign{Key: rng.Of(r, signKeys), Hash: rng.Pick(r, "sha256", "sha512", "sha384", "sha224"), Time: 1_450_000_000 + int64(r.N(5000)), Header: h, Old: old})

						}
					}
				}
			}
			for i := range spec.PreSign {
				p := &spec.PreSign[i]
				p.NoFP, p.NoID, p.Loose = r.P(1, 4), r.P(1, 3), ""
				if r.P(1, 3) {
					p.Loose = p.Key
					if r.P(1, 3) {
						p.Loose = rng.Of(r, signKeys)
					}
				}
				if p.NoFP && p.NoID && p.Loose == "" {
					p.Loose = p.Key
				}
			}
			if r.P(1, 3) {
				spec.Payload = ""
			}
			if r.P(1, 8) {
				spec.Payload, spec.MD5 = "", false
			}
			sc := &verifyScenario{Spec: spec, Rand: r.U64() >> 12, Plan: genPlan(r, 4000)}
			sc.NoRing = r.P(1, 5)
			switch r.N(4) {
			case 0, 1:
				sc.Ring = []string{"alice", "bob", "carol", "dave", "mallory"}
			case 2:
				for _, n := range model.KeyNames {
					if r.Bool() {
						sc.Ring = append(sc.Ring, n)
					}
				}
			case 3:
				for _, s := range spec.PreSign {
					n := s.Key
					n, _, _ = strings.Cut(n, "/")
					if r.P(4, 5) {
						sc.Ring = append(sc.Ring, n)
					}
				}
			}
			rng.Shuffle(r, sc.Ring)
			if r.P(3, 4) {
				for i := rng.Pick(r, 1, 1, 1, 2); i > 0; i-- {
					sc.Edits = append(sc.Edits, genEdit(r, []string{"hdr", "hdr", "payload", "payload", "payload", "digest", "md5", "sig", "sig", "sig", "foreign", "foreign", "swapped", "moved", "removed", "doubled"}))
				}
				sc.Reseal = r.P(2, 3)
			}
			for _, e := range sc.Edits {
				if e.Area == "foreign" {
					o := spec
					o.Name += "other"
					if r.Bool() {
						o.Name = spec.Name
						o.Filler++
					}
					sc.Other = &o
				}
			}
			return sc
		},
		Run:   func(s any, c *Ctx) { runC14(s.(*verifyScenario), c) },
		Valid: func(s any) bool { return s.(*verifyScenario).valid(false) },
	})
	register(&Property{
		ID:  "C15",
		New: func() any { return &verifyScenario{} },
		Gen: func(r *rng.R, deep bool) any {
			spec := genSignSpec(r)
			sc := &verifyScenario{Spec: spec, Rand: r.U64() >> 12, Plan: genPlan(r, 4000)}
			sc.Op = rng.Pick(r, "read", "rpm", "verify", "sign", "file", "raw")
			sc.Round = genRound(r, []string{"new"}, "file")
			if r.P(1, 8) {
				sc.Spec.BadDigest = rng.Of(r, badDigests)
			} else if r.P(3, 4) {
				areas := []string{"hdr", "hdr", "digest"}
				if r.Bool() {
					areas = []string{"payload", "payload", "payload", "md5"}
				}
				for i := rng.Pick(r, 1, 1, 1, 2); i > 0; i-- {
					sc.Edits = append(sc.Edits, genEdit(r, areas))
				}
			}
			return sc
		},
		Run: func(s any, c *Ctx) { runC15(s.(*verifyScenario), c) },
		Valid: func(s any) bool {
			sc := s.(*verifyScenario)
			switch sc.Op {
			case "read", "rpm", "verify", "sign", "file", "raw":
			default:
				return false
			}
			for _, e := range sc.Edits {
				switch e.Area {
				case "hdr", "payload", "digest", "md5":
				default:
					return false
				}
			}
			return sc.valid(true) && !sc.Reseal && sc.Other == nil && sc.Round.valid() && sc.Round.Route == "file"
		},
	})
}

var sortedOps = func() []string {
	l := append([]string(nil), dumpOps...)
	sort.Strings(l)
	return l
}()
