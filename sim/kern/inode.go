// Package kern is a simulated kernel: an in-memory file system behind the
// process's system call gate, with a page cache that can be lost, injected
// errors, and a crash at any call.
package kern

import (
	"fmt"
	"sort"
	"strings"
	"syscall"
)

type kind uint8

const (
	kFile kind = iota
	kDir
	kLink
	kFifo
	kChr
	kBlk
	kSock
)

func (k kind) String() string {
	return [...]string{"file", "dir", "link", "fifo", "chr", "blk", "sock"}[k]
}

type extent struct {
	off  int
	data []byte
	trun int // >= 0: a truncation to this size instead of a write
}

type inode struct {
	id     int
	kind   kind
	perm   uint32
	nlink  int
	data   []byte
	target string
	ents   map[string]*inode
	parent *inode // directories only
	opens  int

	// durability
	durable []byte   // contents as of the last sync
	dirty   []extent // changes since then
	rdev    uint64

	fifo *fifo
}

type fifo struct {
	buf     []byte
	readers int
	sink    *Sink
}

// Sink is the far end of a pipe the process writes to.
type Sink struct {
	Chunks  []int // bytes taken per write, cyclic; empty: everything
	CloseAt int   // after this many bytes the reader is gone; <0: never
	Late    int   // calls after which the reader shows up, unless somebody waits for it
	Got     []byte
	n       int
	joined  bool
	joinAt  int
}

func (ino *inode) isDir() bool { return ino.kind == kDir }

func (k *Kernel) newInode(kd kind, perm uint32) *inode {
	k.nextIno++
	ino := &inode{id: k.nextIno, kind: kd, perm: perm & 07777}
	switch kd {
	case kDir:
		ino.ents = map[string]*inode{}
		ino.nlink = 2
	case kFifo:
		ino.nlink = 1
		ino.fifo = &fifo{}
	default:
		ino.nlink = 1
	}
	return ino
}

func (ino *inode) names() []string {
	out := make([]string, 0, len(ino.ents))
	for n := range ino.ents {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// within reports whether ino is dir or lies below it.
func within(ino, dir *inode) bool {
	for d := ino; d != nil; d = d.parent {
		if d == dir {
			return true
		}
		if d.parent == d {
			return false
		}
	}
	return false
}

const maxLinks = 40

type lookup struct {
	dir  *inode // directory holding the last component
	name string // last component ("" when the path is the directory itself)
	ino  *inode // what it names, nil if absent
	must bool   // a trailing slash demands a directory
}

// resolve walks a path. The last component is followed if it is a symbolic
// link and follow is set.
func (k *Kernel) resolve(at *inode, path string, follow bool) (lookup, syscall.Errno) {
	budget := maxLinks
	return k.walk(at, path, follow, &budget)
}

func (k *Kernel) walk(at *inode, path string, follow bool, budget *int) (lookup, syscall.Errno) {
	if path == "" {
		return lookup{}, syscall.ENOENT
	}
	if len(path) >= 4096 {
		return lookup{}, syscall.ENAMETOOLONG
	}
	cur := at
	if path[0] == '/' {
		cur = k.root
	}
	parts := strings.Split(path, "/")
	var comps []string
	for _, c := range parts {
		if c != "" {
			comps = append(comps, c)
		}
	}
	must := strings.HasSuffix(path, "/")
	if len(comps) == 0 {
		return lookup{dir: cur, ino: cur, must: true}, 0
	}
	for i, c := range comps {
		last := i == len(comps)-1
		if !cur.isDir() {
			return lookup{}, syscall.ENOTDIR
		}
		if len(c) > 255 {
			return lookup{}, syscall.ENAMETOOLONG
		}
		if c == "." || c == ".." {
			if c == ".." {
				cur = cur.parent
			}
			if last {
				return lookup{dir: cur.parent, name: c, ino: cur, must: true}, 0
			}
			continue
		}
		child := cur.ents[c]
		if child == nil {
			if last {
				return lookup{dir: cur, name: c, must: must}, 0
			}
			return lookup{}, syscall.ENOENT
		}
		if child.kind == kLink && (!last || follow || must) {
			*budget--
			if *budget < 0 {
				return lookup{}, syscall.ELOOP
			}
			l, e := k.walk(cur, child.target, true, budget)
			if e != 0 {
				return lookup{}, e
			}
			if last {
				l.must = l.must || must
				return l, 0
			}
			if l.ino == nil {
				return lookup{}, syscall.ENOENT
			}
			cur = l.ino
			continue
		}
		if last {
			return lookup{dir: cur, name: c, ino: child, must: must}, 0
		}
		cur = child
	}
	panic("unreachable")
}

// Node describes one object of a snapshot.
type Node struct {
	Kind   string
	Perm   uint32
	Data   string
	Target string
	Ino    int
	Nlink  int
}

func (n Node) String() string {
	switch n.Kind {
	case "file":
		if len(n.Data) > 40 {
			return fmt.Sprintf("file[%d bytes]#%d", len(n.Data), n.Ino)
		}
		return fmt.Sprintf("file(%q)#%d", n.Data, n.Ino)
	case "link":
		return fmt.Sprintf("link(%q)", n.Target)
	}
	return fmt.Sprintf("%s(%o)", n.Kind, n.Perm)
}

// Snapshot lists everything below path, keyed by the path relative to it. The
// object itself has key ".". Subtrees for which skip returns true are left out.
func (k *Kernel) Snapshot(path string, skip func(abs string) bool) map[string]Node {
	out := map[string]Node{}
	l, e := k.resolve(k.root, path, true)
	if e != 0 || l.ino == nil {
		return out
	}
	var rec func(ino *inode, rel, abs string)
	rec = func(ino *inode, rel, abs string) {
		if skip != nil && skip(abs) {
			return
		}
		n := Node{Kind: ino.kind.String(), Perm: ino.perm, Target: ino.target, Ino: ino.id, Nlink: ino.nlink}
		if ino.kind == kFile {
			n.Data = string(ino.data)
		}
		out[rel] = n
		for _, name := range ino.names() {
			r := name
			if rel != "." {
				r = rel + "/" + name
			}
			a := abs + "/" + name
			if abs == "/" {
				a = "/" + name
			}
			rec(ino.ents[name], r, a)
		}
	}
	abs := path
	rec(l.ino, ".", abs)
	return out
}

// --- set-up helpers: changes the simulator makes itself, durable at once ---

func (k *Kernel) mustParent(path string) (*inode, string) {
	i := strings.LastIndexByte(path, '/')
	dir, name := path[:i], path[i+1:]
	if dir == "" {
		return k.root, name
	}
	k.PutDir(dir)
	l, e := k.resolve(k.root, dir, true)
	if e != 0 || l.ino == nil || !l.ino.isDir() {
		panic(fmt.Sprintf("kern: no directory %q", dir))
	}
	return l.ino, name
}

// PutDir makes a directory and its parents.
func (k *Kernel) PutDir(path string) {
	cur := k.root
	for _, c := range strings.Split(path, "/") {
		if c == "" {
			continue
		}
		child := cur.ents[c]
		if child == nil {
			child = k.newInode(kDir, 0755)
			child.parent = cur
			cur.ents[c] = child
			cur.nlink++
		}
		if child.kind == kLink {
			l, _ := k.resolve(cur, c, true)
			child = l.ino
		}
		cur = child
	}
}

// PutFile makes (or replaces) a regular file.
func (k *Kernel) PutFile(path string, data []byte) {
	dir, name := k.mustParent(path)
	ino := k.newInode(kFile, 0644)
	ino.data = append([]byte(nil), data...)
	ino.durable = append([]byte(nil), data...)
	dir.ents[name] = ino
}

// PutMode sets the permissions of what a path leads to.
func (k *Kernel) PutMode(path string, perm uint32) {
	if l, e := k.resolve(k.root, path, true); e == 0 && l.ino != nil {
		l.ino.perm = perm
	}
}

// PutSymlink makes a symbolic link.
func (k *Kernel) PutSymlink(path, target string) {
	dir, name := k.mustParent(path)
	ino := k.newInode(kLink, 0777)
	ino.target = target
	dir.ents[name] = ino
}

// PutLink makes a hard link.
func (k *Kernel) PutLink(path, existing string) {
	l, e := k.resolve(k.root, existing, false)
	if e != 0 || l.ino == nil {
		panic("kern: PutLink")
	}
	dir, name := k.mustParent(path)
	dir.ents[name] = l.ino
	l.ino.nlink++
}

// PutFifo makes a pipe whose reader is sink (nil: nobody reads).
func (k *Kernel) PutFifo(path string, sink *Sink) {
	dir, name := k.mustParent(path)
	ino := k.newInode(kFifo, 0644)
	ino.fifo.sink = sink
	dir.ents[name] = ino
}

// Exists reports whether the path (not following a last link) exists.
func (k *Kernel) Exists(path string) bool {
	l, e := k.resolve(k.root, path, false)
	return e == 0 && l.ino != nil
}

// ReadFile returns the contents of a regular file, following links.
func (k *Kernel) ReadFile(path string) ([]byte, bool) {
	l, e := k.resolve(k.root, path, true)
	if e != 0 || l.ino == nil || l.ino.kind != kFile {
		return nil, false
	}
	return l.ino.data[:len(l.ino.data):len(l.ino.data)], true
}

// InodeOf returns the number of the object a path names, 0 if none.
func (k *Kernel) InodeOf(path string, follow bool) int {
	l, e := k.resolve(k.root, path, follow)
	if e != 0 || l.ino == nil {
		return 0
	}
	return l.ino.id
}

// ModeOf returns the permission bits of what a path leads to, 0 without it.
func (k *Kernel) ModeOf(path string) uint32 {
	l, e := k.resolve(k.root, path, true)
	if e != 0 || l.ino == nil {
		return 0
	}
	return l.ino.perm & 07777
}
