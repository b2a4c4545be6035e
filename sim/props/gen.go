package props

import (
	"fmt"
	"path"
	"slices"
	"strings"

	"verifsim/kern"
	"verifsim/model"
	"verifsim/rng"
	"verifsim/stream"
)

// genPlan makes a delivery plan for a source of about n bytes.
func genPlan(r *rng.R, n int) stream.Plan {
	var p stream.Plan
	switch r.N(6) {
	case 0: // as asked
	case 1:
		p.Chunks = []int{1}
	case 2:
		p.Chunks = []int{r.Range(2, 13)}
	case 3:
		for i := r.Range(1, 6); i > 0; i-- {
			p.Chunks = append(p.Chunks, r.Range(1, 40))
		}
	case 4:
		p.Chunks = []int{rng.Pick(r, 110, 96, 16, 512, 4096, 4095, 1000, 14, 6)}
	case 5:
		for i := r.Range(2, 8); i > 0; i-- {
			p.Chunks = append(p.Chunks, rng.Pick(r, 0, 1, 2, 3, 4, 5, 8, 64, 511, 4097))
		}
	}
	if r.P(1, 3) {
		at := r.N(20)
		for i := r.Range(1, 4); i > 0; i-- {
			// now and then several in a row
			for j := rng.Pick(r, 1, 1, 1, 2, 4, 9); j > 0; j-- {
				p.Empty = append(p.Empty, at)
				at++
			}
			at += r.Range(1, 29)
		}
	}
	p.EOFWith = r.P(1, 3)
	return p
}

func plainPlan(p stream.Plan) bool {
	return len(p.Chunks) == 0 && len(p.Empty) == 0 && !p.EOFWith && p.Cut == 0
}

var words = []string{"a", "b", "usr", "lib", "x1", "etc", "conf.d", "share", "doc", "Makefile", "longer-file-name.txt", "zz", "data", "q.so.1.2.3",
	"with space", "ünï", "UPPER", "...", "-", "TRAILER", ".hidden", ".d", "..two", "a.", "...c"}

func genSize(r *rng.R, deep bool) int64 {
	if r.P(1, 500) {
		return int64(rng.Pick(r, 1<<20, 1<<20+1, 1<<20-1, 300_000, 131072, 262145, 2<<20+5))
	}
	switch r.N(8) {
	case 0:
		return 0
	case 1, 2, 3:
		return int64(r.Range(1, 12))
	case 4:
		return int64(r.Range(13, 300))
	case 5:
		return int64(rng.Pick(r, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8191, 8192))
	case 6:
		return int64(r.Range(300, 5000))
	}
	if deep || r.P(1, 4) {
		return int64(rng.Pick(r, 32767, 32768, 32769, 65536, 70001))
	}
	return int64(r.Range(1, 64))
}

// archOpts says what a generated archive may contain.
type archOpts struct {
	Max     int
	Links   bool // hard-link groups
	Special bool // fifos
	Symlink bool
	Deep    bool
	Abs     bool // names start with "/"
	Prefix  bool // names may start with "./" or "/"
	Nodes   bool // devices and sockets, which nothing extracts
}

// genEntries makes a well-formed archive: distinct names, no name below a
// non-directory.
func genEntries(r *rng.R, o archOpts) []model.Entry {
	if o.Max == 0 {
		o.Max = 8
	}
	var out []model.Entry
	type node struct {
		path string
		dir  bool
	}
	used := map[string]bool{} // clean path -> is a directory
	inos := map[[2]int]bool{}
	ino := 100 + r.N(50)
	var dirs []string
	dirs = append(dirs, "")
	fresh := func() (string, bool) {
		for try := 0; try < 20; try++ {
			d := rng.Of(r, dirs)
			depth := 1
			if r.P(1, 4) {
				depth = r.Range(2, 3)
			}
			if r.P(1, 300) {
				depth = r.Range(20, 40)
			}
			p := d
			ok := true
			for i := 0; i < depth; i++ {
				w := rng.Of(r, words)
				if r.P(1, 400) {
					w = strings.Repeat("l", rng.Pick(r, 127, 128, 200, 254, 255))
				}
				p = path.Join(p, w)
				if isDir, there := used[p]; there && (i == depth-1 || !isDir) {
					ok = false
				}
			}
			if ok && p != "" {
				for q := path.Dir(p); q != "."; q = path.Dir(q) {
					used[q] = true
				}
				return p, true
			}
		}
		return "", false
	}
	spell := func(p string) string {
		if o.Abs {
			return "/" + p
		}
		if o.Prefix {
			switch r.N(4) {
			case 0:
				return "./" + p
			case 1:
				return "/" + p
			}
		}
		return p
	}
	n := r.N(o.Max + 1)
	if r.P(1, 200) {
		// very many
		d := rng.Pick(r, "", "many/", "a/b/c/")
		if d != "" {
			for q := path.Clean(d); q != "."; q = path.Dir(q) {
				used[q] = true
			}
		}
		apart := r.P(1, 3)
		for i, k := 0, rng.Pick(r, 120, 254, 255, 256, 257, 300); i < k; i++ {
			p := fmt.Sprintf("%sn%03d", d, i)
			if apart {
				used[p] = true
				p += "/f"
			}
			used[p] = false
			ino++
			e := model.Entry{Name: spell(p), Mode: model.Reg | 0644, Nlink: 1, Ino: ino, Uid: i % 10, Mtime: 1_000_000_000 + i, Seed: r.N(1 << 20)}
			if r.P(1, 3) {
				e.Size = int64(r.N(9))
			}
			inos[[2]int{e.Dev, e.Ino}] = true
			out = append(out, e)
		}
		n += len(out)
	}
	upper := r.P(1, 8)
	for len(out) < n {
		kind := r.N(10)
		p, ok := fresh()
		if !ok {
			break
		}
		e := model.Entry{Name: spell(p), Nlink: 1, Mtime: 1_000_000_000 + r.N(1000), Uid: r.N(3), Seed: r.N(1 << 20)}
		ino++
		e.Ino = ino
		e.Dev = rng.Pick(r, 0, 0, 1, 1, 256, 0xfe01)
		if r.P(1, 12) {
			e.Ino = int(rng.Pick[uint32](r, 0x7fffffff, 0x80000000, 0xffffffff, 0xffff0000)) - ino
		}
		if len(out) > 0 && r.P(1, 5) {
			// the same inode number on another device
			prev := &out[r.N(len(out))]
			k := [2]int{rng.Pick(r, prev.Dev^1, prev.Dev^0x100), prev.Ino}
			// or numbers that are the same when put together carelessly
			switch d := k[0] - prev.Dev; r.N(6) {
			case 0:
				k[1] = prev.Ino - d
			case 1:
				k[1] = prev.Ino ^ k[0] ^ prev.Dev
			case 2:
				k[1] = prev.Ino - d<<16
			case 3:
				k[1] = prev.Ino - d<<8
			}
			if !inos[k] && k[1] > 0 && k[1] <= 0xffffffff {
				e.Dev, e.Ino = k[0], k[1]
			}
		}
		if r.P(1, 8) {
			// or one number that looks like another
			e.Mtime = int(rng.Pick[uint32](r, 0, 1, 0x7fffffff, 0x80000000, 0xffffffff))
			e.Uid = int(rng.Pick[uint32](r, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff))
			e.Gid, e.Check, e.Rdev = e.Uid^1, e.Uid^0xff, r.N(1<<16)
		}
		e.Upper = upper && r.P(3, 4)
		for inos[[2]int{e.Dev, e.Ino}] {
			e.Ino = ino
			ino++
		}
		inos[[2]int{e.Dev, e.Ino}] = true
		switch {
		case kind == 0:
			e.Mode = model.Dir | rng.Pick(r, 0755, 0700, 0555, 01777)
			e.Nlink = 2
			used[p] = true
			dirs = append(dirs, p)
			if o.Prefix && !o.Abs && r.P(1, 6) {
				e.Name += rng.Pick(r, "/", "/", "/.", "//")
			}
		case kind == 1 && o.Symlink:
			e.Mode = model.Lnk | 0777
			e.Link = rng.Pick(r, "a", "../x", "/etc/passwd", "some/longer/target/path", "b/../c", strings.Repeat("l", rng.Pick(r, r.Range(1, 90), r.Range(1, 90), r.Range(300, 900))))
			if r.P(1, 5) {
				e.Nlink = r.Range(2, 3)
			}
			used[p] = false
		case kind == 2 && o.Special:
			e.Mode = model.Fifo | 0644
			if o.Nodes && r.P(1, 2) {
				e.Mode = rng.Pick(r, model.Chr, model.Blk, model.Sock) | 0600
				e.Rdev = r.N(1 << 16)
			}
			if r.P(1, 4) {
				e.Nlink = r.Range(2, 3)
			}
			used[p] = false
		case kind <= 4 && o.Links:
			// a group: names without contents first, the contents last
			e.Mode = model.Reg | 0644
			k := r.Range(2, 4)
			e.Nlink = k
			used[p] = false
			group := []model.Entry{e}
			for i := 1; i < k; i++ {
				p, ok := fresh()
				if !ok {
					break
				}
				used[p] = false
				f := e
				f.Name = spell(p)
				group = append(group, f)
			}
			for i := range group {
				group[i].Nlink = len(group)
				group[i].Size = 0
			}
			if len(group) > 1 && r.P(2, 3) {
				group[len(group)-1].Size = genSize(r, o.Deep)
			}
			if len(group) == 1 {
				group[0].Nlink = 1
			}
			// sometimes other entries come between
			if r.P(1, 2) && len(group) > 1 {
				q, ok := fresh()
				if ok {
					used[q] = false
					ino++
					m := model.Entry{Name: spell(q), Mode: model.Reg | 0600, Nlink: 1, Ino: ino, Size: genSize(r, o.Deep), Seed: r.N(1 << 20)}
					inos[[2]int{m.Dev, m.Ino}] = true
					at := r.Range(1, len(group)-1)
					group = append(group[:at], append([]model.Entry{m}, group[at:]...)...)
				}
			}
			out = append(out, group...)
			continue
		default:
			e.Mode = model.Reg | rng.Pick(r, 0644, 0755, 0600, 04755)
			e.Size = genSize(r, o.Deep)
			used[p] = false
		}
		out = append(out, e)
	}
	if (o.Abs || o.Prefix) && r.P(1, 5) {
		// the root itself, which comes first in "find . | cpio"
		e := model.Entry{Name: "/", Mode: model.Dir | rng.Pick(r, 0755, 0555, 0700), Nlink: r.Range(2, 9), Ino: ino + 1, Mtime: 1_000_000_000}
		for inos[[2]int{e.Dev, e.Ino}] {
			e.Ino++
		}
		if !o.Abs {
			e.Name = rng.Pick(r, ".", ".", "./", "/", "./.")
		}
		at := 0
		if r.P(1, 3) {
			at = r.N(len(out) + 1)
		}
		out = slices.Insert(out, at, e)
	}
	if o.Prefix && !o.Abs && r.P(1, 8) {
		// inode numbers only mean something where there are several links
		same := r.N(3)
		for i := range out {
			if out[i].Nlink == 1 {
				out[i].Ino, out[i].Dev = same, 0
			}
		}
	}
	return out
}

// validEntries says whether the entries form an archive genEntries could have
// made: what the shrinker must preserve.
func validEntries(list []model.Entry, abs bool) bool { return validArchive(list, abs, false) }

// genOrder leaves out some entries, or puts them in another order, the way
// they come in a payload.
func genOrder(r *rng.R, list []model.Entry) []int {
	g := groups(list)
	var out []int
	drop := r.P(1, 2)
	gone := map[int]bool{}
	for i := range list {
		if _, ok := gone[g[i]]; !ok {
			gone[g[i]] = drop && r.P(1, 4)
		}
		if !gone[g[i]] {
			out = append(out, i)
		}
	}
	if r.P(2, 3) {
		switch r.N(3) {
		case 0:
			slices.Reverse(out)
		case 1:
			rng.Shuffle(r, out)
		case 2:
			if n := len(out); n > 0 {
				k := r.N(n)
				out = append(out[k:n:n], out[:k]...)
			}
		}
	}
	if len(out) == 0 {
		return nil
	}
	// the names of a file in their order
	at := map[int][]int{}
	for _, i := range out {
		at[g[i]] = append(at[g[i]], i)
	}
	for _, l := range at {
		slices.Sort(l)
	}
	for k, i := range out {
		l := at[g[i]]
		out[k], at[g[i]] = l[0], l[1:]
	}
	return out
}

// validOrder says whether genOrder could have made it.
func validOrder(list []model.Entry, order []int) bool {
	if order == nil {
		return true
	}
	if len(order) == 0 {
		return false
	}
	g := groups(list)
	n, k := map[int]int{}, map[int]int{}
	last := map[int]int{}
	for i := range list {
		n[g[i]]++
	}
	for _, i := range order {
		if i < 0 || i >= len(list) {
			return false
		}
		if j, ok := last[g[i]]; ok && j >= i {
			return false
		}
		last[g[i]] = i
		k[g[i]]++
	}
	for i := range k {
		if k[i] != n[i] {
			return false
		}
	}
	return true
}

func validArchive(list []model.Entry, abs, nodes bool) bool {
	type info struct{ kind int }
	seen := map[string]bool{}
	nondir := map[string]bool{}
	for i := range list {
		e := &list[i]
		p := model.Clean(e.Name)
		dir := e.Mode&model.Type == model.Dir
		if e.Name == "" || p == "" && !dir || seen[p] || strings.Contains(e.Name, "..") && e.Name != "..." && strings.Contains("/"+e.Name+"/", "/../") {
			return false
		}
		if e.Name == "TRAILER!!!" || len(e.Name) > 1200 || strings.HasSuffix(e.Name, "/") && !dir {
			return false
		}
		if abs && (e.Name[0] != '/' || path.Clean(e.Name) != e.Name) {
			return false
		}
		seen[p] = true
		switch e.Mode & model.Type {
		case model.Reg, model.Lnk, model.Fifo:
			nondir[p] = true
		case model.Dir:
		case model.Chr, model.Blk, model.Sock:
			if !nodes {
				return false
			}
			nondir[p] = true
		default:
			return false
		}
		for _, v := range []int{e.Ino, e.Uid, e.Gid, e.Mtime, e.Check} {
			if v < 0 || v > 0xffffffff {
				return false
			}
		}
		if e.Dev < 0 || e.Dev > 0xffff || e.Rdev < 0 || e.Rdev > 0xffff {
			return false
		}
		for _, w := range strings.Split(p, "/") {
			if len(w) > 255 {
				return false
			}
		}
		if e.Mode&model.Type == model.Lnk && (e.Link == "" || len(e.Link) > 1000) {
			return false
		}
		if e.Mode&model.Type != model.Reg && e.Size != 0 || e.Size < 0 {
			return false
		}
		if e.Mode&model.Type == model.Reg && e.Nlink < 1 {
			return false
		}
	}
	for p := range seen {
		for q := path.Dir(p); q != "." && q != "/"; q = path.Dir(q) {
			if nondir[q] {
				return false
			}
		}
	}
	for i := range list {
		e := &list[i]
		if e.Mode&model.Type != model.Reg {
			continue
		}
		if e.Nlink == 1 {
			// an inode of its own
			for j := range list {
				if abs && j != i && list[j].Mode&model.Type == model.Reg && list[j].Ino == e.Ino && list[j].Dev == e.Dev {
					return false
				}
			}
			continue
		}
		n, last, zero := 0, -1, true
		for j := range list {
			f := &list[j]
			if f.Mode&model.Type == model.Reg && f.Nlink > 1 && f.Ino == e.Ino && f.Dev == e.Dev {
				if f.Nlink != e.Nlink {
					return false
				}
				n++
				if last >= 0 && list[last].Size != 0 {
					zero = false
				}
				last = j
			}
		}
		if n != e.Nlink || !zero || e.Ino <= 0 {
			return false
		}
	}
	return true
}

// groupOf numbers the hard-link groups: entries of one file share a number.
func groups(list []model.Entry) []int {
	out := make([]int, len(list))
	at := map[[2]int]int{}
	for i := range list {
		e := &list[i]
		out[i] = i
		if e.Mode&model.Type == model.Reg && e.Nlink > 1 {
			k := [2]int{e.Dev, e.Ino}
			if j, ok := at[k]; ok {
				out[i] = j
			} else {
				at[k] = i
			}
		}
	}
	return out
}

// wantTree is what extracting the entries must leave, keyed by path.
func wantTree(list []model.Entry) (map[string]kern.Node, map[string]int) {
	want := map[string]kern.Node{".": {Kind: "dir"}}
	grp := map[string]int{}
	g := groups(list)
	data := map[int]string{}
	for i := range list {
		if list[i].Mode&model.Type == model.Reg && list[i].Len() > 0 {
			data[g[i]] = string(list[i].Content())
		}
	}
	for i := range list {
		e := &list[i]
		p := model.Clean(e.Name)
		if p == "" {
			p = "."
		}
		for q := path.Dir(p); q != "."; q = path.Dir(q) {
			want[q] = kern.Node{Kind: "dir"}
		}
		switch e.Mode & model.Type {
		case model.Dir:
			want[p] = kern.Node{Kind: "dir"}
		case model.Lnk:
			want[p] = kern.Node{Kind: "link", Target: e.Link}
		case model.Fifo:
			want[p] = kern.Node{Kind: "fifo"}
		case model.Reg:
			want[p] = kern.Node{Kind: "file", Data: data[g[i]]}
			grp[p] = g[i]
		}
	}
	return want, grp
}

// diffTree compares an extracted tree with the archive.
func diffTree(got map[string]kern.Node, list []model.Entry) string {
	want, grp := wantTree(list)
	return diffWant(got, want, grp)
}

func diffWant(got, want map[string]kern.Node, grp map[string]int) string {
	for _, p := range sortedKeys(want) {
		w := want[p]
		g, ok := got[p]
		if !ok {
			return fmt.Sprintf("%q is missing", p)
		}
		if g.Kind != w.Kind {
			return fmt.Sprintf("%q is a %s, not a %s", p, g.Kind, w.Kind)
		}
		if w.Kind == "file" && g.Data != w.Data {
			return fmt.Sprintf("%q has wrong contents: %d bytes, want %d (first difference at %d)", p, len(g.Data), len(w.Data), firstDiff(g.Data, w.Data))
		}
		if w.Kind == "link" && g.Target != w.Target {
			return fmt.Sprintf("%q points to %q, not %q", p, g.Target, w.Target)
		}
	}
	for _, p := range sortedKeys(got) {
		if _, ok := want[p]; !ok {
			return fmt.Sprintf("%q should not be there", p)
		}
	}
	// names of one group share a file, others do not
	byIno := map[int]int{}
	first := map[int]int{}
	for _, p := range sortedKeys(want) {
		if want[p].Kind != "file" {
			continue
		}
		ino := got[p].Ino
		if g, ok := byIno[ino]; ok && g != grp[p] {
			return fmt.Sprintf("%q shares a file with a name outside its link group", p)
		}
		byIno[ino] = grp[p]
		if i, ok := first[grp[p]]; ok && i != ino {
			return fmt.Sprintf("%q is not linked to the other names of its group", p)
		}
		first[grp[p]] = ino
	}
	return ""
}

func firstDiff(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

var compressors = []string{"gzip", "xz", "lzma", "zstd", "bzip2", "uncompressed", "-gzip", "-none"}

// specOpts says what a generated package may look like.
type specOpts struct {
	Files  archOpts
	Comp   []string // allowed compressors
	Signed bool     // may carry signatures
	Digest bool     // always has a payload digest or MD5
}

// genSpec makes a well-formed package.
func genSpec(r *rng.R, o specOpts) model.Spec {
	if o.Comp == nil {
		o.Comp = compressors
	}
	bare := r.P(1, 5)
	o.Files.Abs = !bare
	o.Files.Prefix = false
	s := model.Spec{Bare: bare, Name: rng.Pick(r, "pkg", "simple", "long-package-name", "x"), Epoch: r.N(4) - 1, Source: r.P(1, 6)}
	s.Files = genEntries(r, o.Files)
	s.Stripped = r.P(1, 3)
	s.LongSize = r.P(1, 4)
	s.OldNames = r.P(1, 5)
	s.Compressor = rng.Of(r, o.Comp)
	s.NoFormat = r.P(1, 5)
	s.HdrSHA1 = r.P(1, 2)
	s.HdrSHA256 = r.P(1, 2)
	s.Payload = rng.Pick(r, "", "sha256", "sha256", "md5", "sha1", "sha224", "sha384", "sha512")
	s.MD5 = r.P(1, 2)
	if o.Digest && s.Payload == "" {
		s.MD5 = true
	}
	s.Reserved = -1
	switch r.N(5) {
	case 0:
		s.Reserved = r.N(64)
	case 1:
		s.Reserved = r.Range(200, 1400)
	case 2:
		s.Reserved = rng.Pick(r, 4096, 4128)
	}
	for i := rng.Pick(r, 0, 0, 1, 2, 3, r.N(9)); i > 0; i-- {
		s.ExtraSig = append(s.ExtraSig, r.N(40))
	}
	if r.P(1, 60) {
		s.ExtraSig = append(s.ExtraSig, rng.Pick(r, 5000, 65536, 66000))
	}
	if r.P(1, 3) {
		s.ExtraIDs = append([]int(nil), oddTags...)
		rng.Shuffle(r, s.ExtraIDs)
		s.ExtraIDs = s.ExtraIDs[:len(s.ExtraSig)]
	}
	if r.P(1, 4) {
		s.LeadSeed = 1 + r.N(1000)
	}
	if r.P(1, 5) {
		s.SigLay = r.N(8)
	}
	if r.P(1, 8) {
		s.GenLay = r.N(8)
	}
	s.LongSig = r.P(1, 4)
	s.LinkSize = rng.Pick(r, 0, 0, 0, 0, 1, 2)
	if model.CanSplit(s.Compressor) && r.P(1, 6) {
		s.Parts = r.Range(2, 4)
	}
	if s.Compressor == "zstd" && s.Parts == 0 && r.P(1, 3) {
		s.Blocks = r.Range(2, 60)
	}
	s.Filler = rng.Pick(r, 0, 1, 2, 3, r.N(300), r.N(300))
	if r.P(1, 60) {
		s.Filler = rng.Pick(r, 65536, 66000, 200_000)
	}
	if r.P(1, 4) {
		s.Order = genOrder(r, s.Files)
	}
	s.Tail = rng.Pick(r, 0, 0, 0, 0, 4, 512, r.N(600))
	if r.P(1, 8) {
		if s.Lacks = 1 + r.N(2); !validLacks(&s) {
			s.Lacks = 0
		}
	}
	if o.Signed && r.P(1, 2) {
		s.PreSign = append(s.PreSign, genSigns(r)...)
	}
	return s
}

func genSigns(r *rng.R) []model.Sign {
	var out []model.Sign
	key := rng.Pick(r, "alice", "bob", "carol", "dave", "dave/sub", "dave/sub2", "mallory")
	old := r.P(1, 4)
	for _, hdr := range []bool{true, false} {
		if r.P(1, 6) {
			continue
		}
		out = append(out, model.Sign{Key: key, Hash: rng.Pick(r, "", "sha512", "sha256", "sha1", "sha384", "sha224"), Time: 1_450_000_000 + int64(r.N(1000)), Header: hdr, Old: old})
	}
	return out
}

// oddTags are numbers that tags of a signature header may have.
var oddTags = []int{65, 99, 100, 101, 257, 274, 275, 276, 277, 900, 999, 1001, 1003, 1009, 1010, 1011, 5000, 16384, 20000, 70000}

// validSpec is what the shrinker must preserve.
func validSpec(s *model.Spec, needDigest bool) bool { return validPackage(s, needDigest, false) }

func validPackage(s *model.Spec, needDigest, nodes bool) bool {
	if !validArchive(s.Files, !s.Bare, nodes) || !validOrder(s.Files, s.Order) || s.Tail < 0 || s.Tail > 1<<16 {
		return false
	}
	for i := range s.Files {
		if s.Bare && s.Files[i].Name != model.Clean(s.Files[i].Name) {
			return false
		}
	}
	ok := false
	for _, c := range compressors {
		ok = ok || c == s.Compressor
	}
	if !ok || s.Name == "" || s.Filler < 0 || s.Epoch < -1 || s.Reserved < -1 {
		return false
	}
	switch s.Payload {
	case "", "md5", "sha1", "sha224", "sha256", "sha384", "sha512":
	default:
		return false
	}
	if s.Blocks < 0 || s.Blocks > 60 || s.LinkSize < 0 || s.LinkSize > 2 || s.Parts < 0 || s.Parts > 9 {
		return false
	}
	if needDigest && s.Payload == "" && !s.MD5 {
		return false
	}
	if s.NoInodes {
		for i := range s.Files {
			if s.Files[i].Nlink > 1 && s.Files[i].Mode&model.Type == model.Reg {
				return false
			}
		}
	}
	if !validLacks(s) {
		return false
	}
	for _, p := range s.PreSign {
		if !validKey(p.Key) || !validHash(p.Hash) || p.NoFP && p.NoID && p.Loose == "" || p.Loose != "" && !validKey(p.Loose) {
			return false
		}
	}
	if len(s.ExtraIDs) > len(oddTags) || s.SigLay&^7 != 0 || s.GenLay&^7 != 0 || s.LeadSeed < 0 || s.BadDigest != "" {
		return false
	}
	for i, x := range s.ExtraIDs {
		if !slices.Contains(oddTags, x) || slices.Contains(s.ExtraIDs[:i], x) {
			return false
		}
	}
	for _, x := range s.ExtraSig {
		if x < 0 || x > 70000 {
			return false
		}
	}
	return true
}

// validLacks says whether no two files become one for lack of numbers that tell
// them apart.
func validLacks(s *model.Spec) bool {
	if s.Lacks < 0 || s.Lacks > 2 {
		return false
	}
	seen := map[[2]int][2]int{}
	for i := range s.Files {
		e := &s.Files[i]
		if s.Lacks == 0 || s.NoInodes || e.Mode&model.Type != model.Reg {
			continue
		}
		k := [2]int{e.Dev, e.Ino}
		k[s.Lacks-1] = 0
		if s.Lacks == 2 && e.Nlink > 1 {
			return false
		}
		if o, ok := seen[k]; ok && k != [2]int{} && (e.Nlink <= 1 || o != [2]int{e.Dev, e.Ino}) {
			return false
		}
		seen[k] = [2]int{e.Dev, e.Ino}
	}
	return true
}

func validKey(k string) bool {
	switch k {
	case "alice", "bob", "carol", "dave", "dave/sub", "dave/sub2", "mallory":
		return true
	}
	return false
}

func validHash(h string) bool {
	_, ok := model.Hashes[h]
	return ok
}

func validPlan(p *stream.Plan) bool {
	for _, c := range p.Chunks {
		if c < 0 {
			return false
		}
	}
	row := 0
	for i, e := range p.Empty {
		if e < 0 || i > 0 && e <= p.Empty[i-1] {
			return false
		}
		if i > 0 && e == p.Empty[i-1]+1 {
			row++
		} else {
			row = 1
		}
		if row > 10 {
			return false
		}
	}
	switch p.CutKind {
	case "", "eof", "err", "ueof", "once":
	default:
		return false
	}
	return p.Cut >= 0
}
