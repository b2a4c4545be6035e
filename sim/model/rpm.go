package model

import (
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash"
	"path"
	"sort"
	"strings"

	"github.com/klauspost/compress/zstd"
	"github.com/ulikunitz/xz"
	"github.com/ulikunitz/xz/lzma"

	"verifsim/stream"
)

// Header value types.
const (
	tNull = iota
	tChar
	tInt8
	tInt16
	tInt32
	tInt64
	tString
	tBin
	tStrArr
	tI18n
)

// Tag is one header entry.
type Tag struct {
	ID    int
	Type  int
	Count int
	Data  []byte
}

func StrTag(id int, s string) Tag { return Tag{id, tString, 1, append([]byte(s), 0)} }
func BinTag(id int, b []byte) Tag { return Tag{id, tBin, len(b), b} }
func StrsTag(id, typ int, ss []string) Tag {
	var b []byte
	for _, s := range ss {
		b = append(append(b, s...), 0)
	}
	return Tag{id, typ, len(ss), b}
}
func Int32Tag(id int, v ...uint32) Tag {
	var b []byte
	for _, x := range v {
		b = binary.BigEndian.AppendUint32(b, x)
	}
	return Tag{id, tInt32, len(v), b}
}
func Int16Tag(id int, v ...uint16) Tag {
	var b []byte
	for _, x := range v {
		b = binary.BigEndian.AppendUint16(b, x)
	}
	return Tag{id, tInt16, len(v), b}
}
func Int64Tag(id int, v ...uint64) Tag {
	var b []byte
	for _, x := range v {
		b = binary.BigEndian.AppendUint64(b, x)
	}
	return Tag{id, tInt64, len(v), b}
}

// WriteHeader serialises tags with a region tag, the way rpm does.
func WriteHeader(tags []Tag, region int) []byte { return LayHeader(tags, region, 0) }

// LayHeader encodes a header in an unusual layout: 1 without a region, 2 with
// the data in another order than the tags, 4 with the tags out of order.
func LayHeader(tags []Tag, region, layout int) []byte {
	tags = append([]Tag(nil), tags...)
	sort.SliceStable(tags, func(i, j int) bool { return tags[i].ID < tags[j].ID })
	if layout&1 != 0 {
		region = 0
	}
	var table, data []byte
	put := func(id, typ, off, count int) {
		for _, v := range []int{id, typ, off, count} {
			table = binary.BigEndian.AppendUint32(table, uint32(int32(v)))
		}
	}
	n := len(tags)
	var body []byte
	at := make([]int, n)
	for i := range tags {
		if layout&2 != 0 {
			i = n - 1 - i
		}
		t := tags[i]
		al := map[int]int{tInt16: 2, tInt32: 4, tInt64: 8}[t.Type]
		for al > 0 && len(data)%al != 0 {
			data = append(data, 0)
		}
		at[i] = len(data)
		data = append(data, t.Data...)
	}
	for i := range tags {
		if layout&4 != 0 {
			i = (i + n/2) % n
		}
		t := tags[i]
		for _, v := range []int{t.ID, t.Type, at[i], t.Count} {
			body = binary.BigEndian.AppendUint32(body, uint32(int32(v)))
		}
	}
	if region != 0 {
		put(region, tBin, len(data), 16)
		for _, v := range []int{region, tBin, -16 * (n + 1), 16} {
			data = binary.BigEndian.AppendUint32(data, uint32(int32(v)))
		}
		n++
	}
	table = append(table, body...)
	out := []byte{0x8e, 0xad, 0xe8, 0x01, 0, 0, 0, 0}
	out = binary.BigEndian.AppendUint32(out, uint32(n))
	out = binary.BigEndian.AppendUint32(out, uint32(len(data)))
	out = append(out, table...)
	return append(out, data...)
}

// Spec describes a package.
type Spec struct {
	Name     string  `json:"name"`
	Source   bool    `json:"source,omitempty"`
	Epoch    int     `json:"epoch,omitempty"` // -1: no tag
	Files    []Entry `json:"files,omitempty"`
	Stripped bool    `json:"stripped,omitempty"`
	LongSize bool    `json:"long_size,omitempty"`
	OldNames bool    `json:"old_names,omitempty"`
	NoInodes bool    `json:"no_inodes,omitempty"`
	Lacks    int     `json:"lacks,omitempty"` // 1: device numbers, 2: inode numbers
	Bare     bool    `json:"bare,omitempty"`  // names without a root, as in source packages

	Compressor string `json:"comp,omitempty"` // gzip xz lzma zstd bzip2 uncompressed; "-gzip" and "-none": no tag
	NoFormat   bool   `json:"no_format,omitempty"`

	HdrSHA1   bool   `json:"hdr_sha1,omitempty"`
	HdrSHA256 bool   `json:"hdr_sha256,omitempty"`
	Payload   string `json:"payload_digest,omitempty"` // md5 sha1 sha224 sha256 sha384 sha512
	MD5       bool   `json:"md5,omitempty"`
	Reserved  int    `json:"reserved,omitempty"` // bytes of reserved space; -1: no tag
	ExtraSig  []int  `json:"extra_sig,omitempty"`
	LongSig   bool   `json:"long_sig,omitempty"`
	Parts     int    `json:"parts,omitempty"`      // compressed in this many members
	LinkSize  int    `json:"link_size,omitempty"`  // what the header says about the sizes of symlinks: 0 the length of the target, 1 nothing, 2 another
	Blocks    int    `json:"blocks,omitempty"`     // of a zstd frame
	BadDigest string `json:"bad_digest,omitempty"` // what is wrong with the payload digest that is recorded
	LeadSeed  int    `json:"lead_seed,omitempty"`  // the parts of the lead that nobody reads
	SigLay    int    `json:"sig_lay,omitempty"`    // how the signature header is laid out, see LayHeader
	GenLay    int    `json:"gen_lay,omitempty"`    // and the general header
	ExtraIDs  []int  `json:"extra_ids,omitempty"`  // their tag numbers; 300 and up by default
	Filler    int    `json:"filler,omitempty"`     // bytes of description in the general header
	PreSign   []Sign `json:"presign,omitempty"`
	Order     []int  `json:"order,omitempty"` // the files the payload has, in its order; all of them in the header's order by default
	Tail      int    `json:"tail,omitempty"`  // zeros after the archive

	// what only the properties of the accessors (C21, C22) vary
	Ver      string     `json:"ver,omitempty"`
	Rel      string     `json:"rel,omitempty"`
	Arch     string     `json:"arch,omitempty"`
	EpochTyp int        `json:"epoch_typ,omitempty"` // an integer type; 0 is int32
	Both     bool       `json:"both,omitempty"`      // short and long sizes; the short ones are not the truth
	Attrs    int        `json:"attrs,omitempty"`     // odd owners, flags, times and digests
	ExtraGen []ExtraTag `json:"extra_gen,omitempty"`
}

// ExtraTag is another tag of the general header.
type ExtraTag struct {
	ID   int `json:"id"`
	Type int `json:"type"`
	N    int `json:"n"`
	Seed int `json:"seed"`
}

var edges = []uint64{0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 1<<63 - 1, 1 << 63, 1<<64 - 1}

// Tag makes the tag with its values.
func (x *ExtraTag) Tag() Tag {
	n := x.N
	num := func(i int) uint64 {
		b := Pattern(x.Seed+i*31, 9)
		if b[8]%3 == 0 {
			return edges[int(b[7])%len(edges)]
		}
		return binary.BigEndian.Uint64(b)
	}
	t := Tag{ID: x.ID, Type: x.Type, Count: n}
	switch x.Type {
	case tNull:
		return t
	case tChar, tInt8, tBin:
		t.Data = Pattern(x.Seed, n)
	case tInt16:
		for i := 0; i < n; i++ {
			t.Data = binary.BigEndian.AppendUint16(t.Data, uint16(num(i)))
		}
	case tInt32:
		for i := 0; i < n; i++ {
			v := uint32(num(i))
			if x.Seed%2 == 0 {
				v &= 1<<31 - 1 // all of them fit an int
			}
			t.Data = binary.BigEndian.AppendUint32(t.Data, v)
		}
	case tInt64:
		for i := 0; i < n; i++ {
			v := num(i)
			if x.Seed%2 == 0 {
				v &= 1<<16 - 1
			}
			t.Data = binary.BigEndian.AppendUint64(t.Data, v)
		}
	default:
		if x.Type == tString {
			n, t.Count = 1, 1
		}
		for i := 0; i < n; i++ {
			t.Data = append(append(t.Data, Word(x.Seed+i*17)...), 0)
		}
	}
	return t
}

// Word is a string as headers hold them: also an empty one, one that is not
// UTF-8, one with line ends and blanks at its ends.
func Word(seed int) []byte {
	b := Pattern(seed, 40)
	n := int(b[0]) % 9
	switch b[1] % 6 {
	case 0:
		n = 0
	case 1:
		n = int(b[2]) % 40
	}
	b = b[3:min(3+n, 40)]
	for i := range b {
		switch {
		case b[i] == 0:
			b[i] = ' '
		case seed%3 == 0:
			b[i] = 'a' + b[i]%26
		}
	}
	return b
}

// Sign is one signature made by the model.
type Sign struct {
	Key    string `json:"key"`
	Hash   string `json:"hash,omitempty"`
	Time   int64  `json:"time,omitempty"`
	Header bool   `json:"header,omitempty"` // header only
	Old    bool   `json:"old,omitempty"`    // use the DSA/GPG tags
	NoFP   bool   `json:"no_fp,omitempty"`
	NoID   bool   `json:"no_id,omitempty"`
	Loose  string `json:"loose,omitempty"` // a key named as issuer in the unsigned area
}

// Package is a built package with its layout.
type Package struct {
	Spec    *Spec
	Raw     []byte
	SigOff  int
	GenOff  int
	PayOff  int
	Archive *Archive
	Segs    []stream.Segment // the uncompressed archive
	Sigs    []Tag
	Gen     []Tag
}

func (p *Package) Header() []byte     { return p.Raw[p.GenOff:p.PayOff] }
func (p *Package) PayloadRaw() []byte { return p.Raw[p.PayOff:] }

var hashNames = map[string]struct {
	id int
	f  func() hash.Hash
}{
	"md5": {1, md5.New}, "sha1": {2, sha1.New}, "sha224": {11, sha256.New224}, "sha256": {8, sha256.New},
	"sha384": {9, sha512.New384}, "sha512": {10, sha512.New},
}

var zenc, _ = zstd.NewWriter(nil, zstd.WithEncoderConcurrency(1), zstd.WithWindowSize(1<<16))

// CompressParts makes a payload of several members or frames, as parallel
// compressors do.
func CompressParts(kind string, b []byte, parts int) []byte {
	if !CanSplit(kind) || parts < 2 {
		return Compress(kind, b)
	}
	var out []byte
	for i := 0; i < parts; i++ {
		out = append(out, Compress(kind, b[len(b)*i/parts:len(b)*(i+1)/parts])...)
	}
	return out
}

// Compress makes the payload of an archive.
func (s *Spec) Compress(b []byte) []byte {
	if s.Compressor == "zstd" && s.Blocks > 1 {
		// a frame of many blocks
		var out bytes.Buffer
		w, err := zstd.NewWriter(&out, zstd.WithEncoderConcurrency(1), zstd.WithWindowSize(1<<16))
		if err != nil {
			panic(err)
		}
		for i := 0; i < s.Blocks; i++ {
			w.Write(b[len(b)*i/s.Blocks : len(b)*(i+1)/s.Blocks])
			w.Flush()
		}
		w.Close()
		return out.Bytes()
	}
	return CompressParts(s.Compressor, b, s.Parts)
}

// ZstdFrames is set where several zstd frames are generated.
var ZstdFrames = true

// CanSplit says whether the members of a format can follow each other.
func CanSplit(kind string) bool {
	return kind == "gzip" || kind == "-gzip" || kind == "xz" || kind == "zstd" && ZstdFrames || kind == "bzip2"
}

// Compress makes a payload.
func Compress(kind string, b []byte) []byte {
	var out bytes.Buffer
	switch kind {
	case "gzip", "-gzip":
		w, _ := gzip.NewWriterLevel(&out, 1)
		w.Write(b)
		w.Close()
	case "xz":
		w, err := xz.WriterConfig{DictCap: 1 << 16, BufSize: 1 << 16}.NewWriter(&out)
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.Close()
	case "lzma":
		w, err := lzma.WriterConfig{DictCap: 1 << 16, BufSize: 1 << 16}.NewWriter(&out)
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.Close()
	case "zstd":
		return zenc.EncodeAll(b, nil)
	case "bzip2":
		return Bzip2(b)
	default:
		return b
	}
	return out.Bytes()
}

func or(s, other string) string {
	if s == "" {
		return other
	}
	return s
}

// Stored is the name a file has in the payload.
func (s *Spec) Stored(name string) string {
	if s.Bare {
		return name
	}
	return "." + name
}

// InPayload lists the files the payload has: not the ghosts, and in any order
// that keeps the names of a file in theirs.
func (s *Spec) InPayload() []int {
	if s.Order != nil {
		return s.Order
	}
	out := make([]int, len(s.Files))
	for i := range out {
		out[i] = i
	}
	return out
}

// PayloadFiles are the entries of the payload.
func (s *Spec) PayloadFiles() []Entry {
	var out []Entry
	for _, i := range s.InPayload() {
		out = append(out, s.Files[i])
	}
	return out
}

// BuildArchive lays out the payload of a package.
func (s *Spec) BuildArchive() (*Archive, []stream.Segment) {
	a := &Archive{Tail: s.Tail}
	for _, i := range s.InPayload() {
		e := s.Files[i]
		if s.Stripped {
			a.Stripped(i, &e, e.Len())
		} else {
			e.Name = s.Stored(e.Name)
			a.Newc(&e)
		}
	}
	return a, a.Finish()
}

func (s *Spec) genTags() []Tag {
	tags := []Tag{
		StrTag(1000, s.Name), StrTag(1001, or(s.Ver, "1.0")), StrTag(1002, or(s.Rel, "1")), StrTag(1022, or(s.Arch, "noarch")),
		StrsTag(1004, tI18n, []string{"a package"}),
		StrTag(1005, strings.Repeat("d", s.Filler)), Int32Tag(1006, 1_400_000_000), StrTag(1014, "ASL"), StrTag(1021, "linux"),
		StrTag(1064, "4.14"),
	}
	if s.Epoch >= 0 {
		switch s.EpochTyp {
		case tInt64:
			tags = append(tags, Int64Tag(1003, uint64(s.Epoch)))
		case tInt16:
			tags = append(tags, Int16Tag(1003, uint16(s.Epoch)))
		case tInt8:
			tags = append(tags, Tag{1003, tInt8, 1, []byte{byte(s.Epoch)}})
		default:
			tags = append(tags, Int32Tag(1003, uint32(s.Epoch)))
		}
	}
	if !s.NoFormat {
		tags = append(tags, StrTag(1124, "cpio"))
	}
	if s.Compressor != "" && s.Compressor[0] != '-' {
		tags = append(tags, StrTag(1125, s.Compressor))
	}
	var total uint64
	if n := len(s.Files); n > 0 {
		var names, dirs, bases, user, group, digest, links []string
		var didx, sizes, flags, mtimes, devs, inos []uint32
		var long []uint64
		var modes []uint16
		var rdevs []uint16
		at := map[string]int{}
		for i := range s.Files {
			e := &s.Files[i]
			names = append(names, e.Name)
			d, b := path.Split(e.Name)
			if _, ok := at[d]; !ok {
				at[d] = len(dirs)
				dirs = append(dirs, d)
			}
			didx = append(didx, uint32(at[d]))
			bases = append(bases, b)
			sz := s.HeaderSize(i)
			total += uint64(sz)
			sizes = append(sizes, uint32(sz))
			long = append(long, uint64(sz))
			modes = append(modes, uint16(e.Mode))
			rdevs = append(rdevs, 0)
			user = append(user, fmt.Sprintf("u%d", e.Uid))
			group = append(group, fmt.Sprintf("g%d", i%3))
			digest = append(digest, fmt.Sprintf("%032x", i))
			links = append(links, e.Link)
			flags = append(flags, uint32(i))
			mtimes = append(mtimes, uint32(e.Mtime))
			devs = append(devs, uint32(e.Dev))
			inos = append(inos, uint32(e.Ino))
		}
		if s.Attrs != 0 {
			for i := range s.Files {
				x := ExtraTag{Type: tInt32, N: 3, Seed: s.Attrs*2 + 1 + i*1001}
				v := x.Tag().Data
				flags[i] = binary.BigEndian.Uint32(v)
				mtimes[i] = binary.BigEndian.Uint32(v[4:])
				user[i], group[i], digest[i] = string(Word(s.Attrs+i*3)), string(Word(s.Attrs+i*3+1)), string(Word(s.Attrs+i*3+2))
				if s.NoInodes || s.Files[i].Nlink <= 1 {
					rdevs[i] = uint16(v[8])
				}
			}
		}
		if s.OldNames {
			tags = append(tags, StrsTag(1027, tStrArr, names))
		} else {
			tags = append(tags, StrsTag(1117, tStrArr, bases), StrsTag(1118, tStrArr, dirs), Int32Tag(1116, didx...))
		}
		if s.LongSize || s.Both {
			tags = append(tags, Int64Tag(5008, long...))
		}
		if s.Both {
			for i := range sizes {
				sizes[i] ^= 0xffff0000
			}
		}
		if !s.LongSize || s.Both {
			tags = append(tags, Int32Tag(1028, sizes...))
		}
		tags = append(tags, Int16Tag(1030, modes...), Int16Tag(1033, rdevs...), Int32Tag(1034, mtimes...), StrsTag(1035, tStrArr, digest),
			StrsTag(1036, tStrArr, links), Int32Tag(1037, flags...), StrsTag(1039, tStrArr, user), StrsTag(1040, tStrArr, group))
		if !s.NoInodes {
			if s.Lacks != 1 {
				tags = append(tags, Int32Tag(1095, devs...))
			}
			if s.Lacks != 2 {
				tags = append(tags, Int32Tag(1096, inos...))
			}
		}
	}
	if total > 0xffffffff || s.Both {
		tags = append(tags, Int64Tag(5009, total))
	}
	if total <= 0xffffffff || s.Both {
		v := uint32(total)
		if s.Both {
			v ^= 0xffff0000
		}
		tags = append(tags, Int32Tag(1009, v))
	}
	for i := range s.ExtraGen {
		tags = append(tags, s.ExtraGen[i].Tag())
	}
	return tags
}

// HeaderSize is the size recorded for a file: members of a link group all
// carry the size of the shared contents.
func (s *Spec) HeaderSize(i int) int64 {
	e := &s.Files[i]
	switch e.Mode & Type {
	case Dir:
		return 4096
	case Lnk:
		switch s.LinkSize {
		case 1: // as some package builders leave it
			return 0
		case 2:
			return int64(len(e.Link)) + 1
		}
		return int64(len(e.Link))
	case Reg:
		if e.Nlink > 1 && e.Ino != 0 {
			for j := len(s.Files) - 1; j >= 0; j-- {
				f := &s.Files[j]
				if f.Mode&Type == Reg && f.Ino == e.Ino && f.Dev == e.Dev {
					return f.Len()
				}
			}
		}
		return e.Len()
	}
	return 0
}

// Build makes the package.
func (s *Spec) Build() *Package {
	a, segs := s.BuildArchive()
	return s.BuildWith(a, segs, s.Compress(Bytes(segs)))
}

// BuildWith makes the package around a given payload.
func (s *Spec) BuildWith(a *Archive, segs []stream.Segment, payload []byte) *Package {
	gen := s.genTags()
	if h, ok := hashNames[s.Payload]; ok {
		w := h.f()
		w.Write(payload)
		d := []string{hex.EncodeToString(w.Sum(nil))}
		switch s.BadDigest {
		case "empty":
			d[0] = ""
		case "short":
			d[0] = d[0][:len(d[0])-2]
		case "start":
			d[0] = d[0][:16]
		case "long":
			d[0] += "00"
		case "zero":
			d[0] = strings.Repeat("0", len(d[0]))
		case "space":
			d[0] += " "
		case "second": // the right one is only the second
			d = append([]string{strings.Repeat("0", len(d[0]))}, d[0])
		}
		gen = append(gen, StrsTag(5092, tStrArr, d), Int32Tag(5093, uint32(h.id)))
	}
	genRaw := LayHeader(gen, 63, s.GenLay)
	var sig []Tag
	n := len(genRaw) + len(payload)
	if s.LongSig || s.Both {
		sig = append(sig, Int64Tag(270, uint64(n)), Int64Tag(271, 12345))
	}
	if !s.LongSig || s.Both {
		v := uint32(12345)
		if s.Both {
			v = 0xffffffff
		}
		sig = append(sig, Int32Tag(1000, uint32(n)), Int32Tag(1007, v))
	}
	if s.HdrSHA1 {
		d := sha1.Sum(genRaw)
		sig = append(sig, StrTag(269, hex.EncodeToString(d[:])))
	}
	if s.HdrSHA256 {
		d := sha256.Sum256(genRaw)
		sig = append(sig, StrTag(273, hex.EncodeToString(d[:])))
	}
	if s.MD5 {
		w := md5.New()
		w.Write(genRaw)
		w.Write(payload)
		sig = append(sig, BinTag(1004, w.Sum(nil)))
	}
	for i, sz := range s.ExtraSig {
		id := 300 + i
		if i < len(s.ExtraIDs) {
			id = s.ExtraIDs[i]
		}
		switch (i + sz) % 10 {
		default:
			sig = append(sig, BinTag(id, Pattern(i+7, sz)))
		case 4:
			sig = append(sig, Int64Tag(id, uint64(sz)<<33, 1, uint64(i)))
		case 5:
			sig = append(sig, StrsTag(id, tStrArr, []string{"", strings.Repeat("y", sz), "z"}))
		case 6:
			sig = append(sig, StrsTag(id, tI18n, []string{"one", strings.Repeat("i", sz)}))
		case 7:
			sig = append(sig, Tag{id, 2, sz, Pattern(i+3, sz)}) // bytes
		case 8:
			sig = append(sig, Tag{id, 1, sz, Pattern(i+5, sz)}) // characters
		case 9:
			sig = append(sig, Tag{id, 0, 0, nil}) // nothing
		case 1:
			sig = append(sig, StrTag(id, strings.Repeat("x", sz)))
		case 2:
			v := make([]uint32, sz%7+1)
			for j := range v {
				v[j] = uint32(j*sz + 1)
			}
			sig = append(sig, Int32Tag(id, v...))
		case 3:
			sig = append(sig, Int16Tag(id, uint16(sz), 7, uint16(i)))
		}
	}
	for _, ps := range s.PreSign {
		msg := [][]byte{genRaw}
		id := 268
		if ps.Old {
			id = 267
		}
		if !ps.Header {
			msg = append(msg, payload)
			id = 1002
			if ps.Old {
				id = 1005
			}
		}
		sig = dropTag(sig, id)
		sig = append(sig, BinTag(id, MakeSig(ps, msg...)))
	}
	if s.Reserved >= 0 {
		sig = append(sig, BinTag(1008, make([]byte, s.Reserved)))
	}
	sigRaw := LayHeader(sig, 62, s.SigLay)
	for len(sigRaw)%8 != 0 {
		sigRaw = append(sigRaw, 0)
	}
	p := &Package{Spec: s, Archive: a, Segs: segs, Sigs: sig, Gen: gen}
	p.Raw = append(p.Raw, s.Lead()...)
	p.SigOff = len(p.Raw)
	p.Raw = append(p.Raw, sigRaw...)
	p.GenOff = len(p.Raw)
	p.Raw = append(p.Raw, genRaw...)
	p.PayOff = len(p.Raw)
	p.Raw = append(p.Raw, payload...)
	return p
}

// Lead is the legacy 96-byte lead.
func (s *Spec) Lead() []byte {
	l := make([]byte, 96)
	copy(l, []byte{0xed, 0xab, 0xee, 0xdb, 3, 0})
	if s.Source {
		l[7] = 1
	}
	l[9] = 1
	copy(l[10:76], s.Name+"-1.0-1")
	l[77] = 1
	l[79] = 5
	if s.LeadSeed != 0 {
		l[4] = byte(s.LeadSeed % 5)
		copy(l[8:], Pattern(s.LeadSeed, 88))
	}
	return l
}

func dropTag(tags []Tag, id int) []Tag {
	var out []Tag
	for _, t := range tags {
		if t.ID != id {
			out = append(out, t)
		}
	}
	return out
}

// Parsed is what the independent parser sees in a package.
type Parsed struct {
	Lead    []byte
	SigRaw  []byte
	GenRaw  []byte
	Payload []byte
	Sig     map[int]Tag
	Gen     map[int]Tag
	// Problems lists structural defects of the signature header.
	Problems []string
}

// ParseHeader reads one header; the second result is its length without
// trailing padding.
func ParseHeader(b []byte) (map[int]Tag, int, []string, error) {
	if len(b) < 16 || binary.BigEndian.Uint32(b) != 0x8eade801 {
		return nil, 0, nil, fmt.Errorf("no header magic")
	}
	n := int(binary.BigEndian.Uint32(b[8:]))
	size := int(binary.BigEndian.Uint32(b[12:]))
	if n < 0 || size < 0 || n > 1<<16 || 16+16*n+size > len(b) {
		return nil, 0, nil, fmt.Errorf("header larger than file: %d entries, %d bytes", n, size)
	}
	var probs []string
	if binary.BigEndian.Uint32(b[4:]) != 0 {
		probs = append(probs, "reserved field set")
	}
	data := b[16+16*n : 16+16*n+size]
	tags := map[int]Tag{}
	last := -1
	for i := 0; i < n; i++ {
		e := b[16+16*i:]
		id := int(int32(binary.BigEndian.Uint32(e)))
		typ := int(int32(binary.BigEndian.Uint32(e[4:])))
		off := int(int32(binary.BigEndian.Uint32(e[8:])))
		cnt := int(int32(binary.BigEndian.Uint32(e[12:])))
		if off < 0 || off > size || cnt < 0 {
			return nil, 0, nil, fmt.Errorf("tag %d: offset %d count %d", id, off, cnt)
		}
		sz, ok := map[int]int{0: 0, 1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 7: 1}[typ]
		end := off
		if ok {
			end += sz * cnt
			if al := map[int]int{3: 2, 4: 4, 5: 8}[typ]; al > 0 && off%al != 0 {
				probs = append(probs, fmt.Sprintf("tag %d misaligned at %d", id, off))
			}
		} else {
			for j := 0; j < cnt; j++ {
				k := bytes.IndexByte(data[end:], 0)
				if k < 0 {
					return nil, 0, nil, fmt.Errorf("tag %d: unterminated string", id)
				}
				end += k + 1
			}
		}
		if end > size {
			return nil, 0, nil, fmt.Errorf("tag %d beyond data: %d > %d", id, end, size)
		}
		if id == 62 || id == 63 {
			if i != 0 {
				probs = append(probs, "region tag is not first")
			}
			if cnt != 16 || typ != tBin || end-off != 16 {
				probs = append(probs, "malformed region tag")
			} else if int32(binary.BigEndian.Uint32(data[off+8:])) != int32(-16*n) || int(binary.BigEndian.Uint32(data[off:])) != id ||
				binary.BigEndian.Uint32(data[off+4:]) != tBin || binary.BigEndian.Uint32(data[off+12:]) != 16 {
				probs = append(probs, "region trailer does not cover the header")
			}
		} else {
			if id <= last {
				probs = append(probs, "tags not in order")
			}
			last = id
		}
		if _, dup := tags[id]; dup {
			probs = append(probs, fmt.Sprintf("tag %d twice", id))
		}
		tags[id] = Tag{id, typ, cnt, append([]byte(nil), data[off:end]...)}
	}
	return tags, 16 + 16*n + size, probs, nil
}

// Parse takes a package apart.
func Parse(b []byte) (*Parsed, error) {
	if len(b) < 96 || binary.BigEndian.Uint32(b) != 0xedabeedb {
		return nil, fmt.Errorf("no lead")
	}
	p := &Parsed{Lead: b[:96]}
	sig, n, probs, err := ParseHeader(b[96:])
	if err != nil {
		return nil, fmt.Errorf("signature header: %w", err)
	}
	p.Problems = probs
	m := (n + 7) &^ 7
	if 96+m > len(b) {
		return nil, fmt.Errorf("signature header padding missing")
	}
	for _, c := range b[96+n : 96+m] {
		if c != 0 {
			p.Problems = append(p.Problems, "padding not zero")
		}
	}
	if _, ok := sig[62]; !ok {
		p.Problems = append(p.Problems, "no region tag")
	}
	p.Sig = sig
	p.SigRaw = b[96 : 96+m]
	gen, k, _, err := ParseHeader(b[96+m:])
	if err != nil {
		return nil, fmt.Errorf("general header: %w", err)
	}
	p.Gen = gen
	p.GenRaw = b[96+m : 96+m+k]
	p.Payload = b[96+m+k:]
	return p, nil
}

// HashByID digests b with the algorithm an rpm digest tag names by number, nil
// if there is none.
func HashByID(id int, b []byte) []byte {
	for _, h := range hashNames {
		if h.id == id {
			w := h.f()
			w.Write(b)
			return w.Sum(nil)
		}
	}
	return nil
}
