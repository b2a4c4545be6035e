// Package model builds the packages the simulated runs work on, and holds the
// independent parser and verifier the results are checked against.
package model

import (
	"fmt"
	"strings"

	"verifsim/stream"
)

// File types.
const (
	Dir  = 0040000
	Reg  = 0100000
	Lnk  = 0120000
	Fifo = 0010000
	Chr  = 0020000
	Blk  = 0060000
	Sock = 0140000
	Type = 0170000
)

// Entry is one member of an archive.
type Entry struct {
	Name  string `json:"name"`
	Mode  int    `json:"mode"`
	Ino   int    `json:"ino,omitempty"`
	Dev   int    `json:"dev,omitempty"`
	Nlink int    `json:"nlink,omitempty"`
	Size  int64  `json:"size,omitempty"`
	Seed  int    `json:"seed,omitempty"`
	Link  string `json:"link,omitempty"`
	Mtime int    `json:"mtime,omitempty"`
	Uid   int    `json:"uid,omitempty"`
	Gid   int    `json:"gid,omitempty"`
	Rdev  int    `json:"rdev,omitempty"` // major<<8 | minor, as Dev
	Check int    `json:"check,omitempty"`
	Upper bool   `json:"upper,omitempty"` // hexadecimal digits
}

// Sparse is the size from which contents are zeros.
const Sparse = 1 << 24

// Content returns the bytes of an entry (nil for a sparse one).
func (e *Entry) Content() []byte {
	if e.Mode&Type == Lnk {
		return []byte(e.Link)
	}
	if e.Mode&Type != Reg || e.Size <= 0 || e.Size >= Sparse {
		return nil
	}
	b := Pattern(e.Seed, int(e.Size))
	// now and then with a hole
	switch n := len(b); e.Seed % 9 {
	case 1:
		clear(b[n/3 : n-n/3])
	case 2:
		clear(b[n/2:])
	case 3:
		clear(b)
	}
	return b
}

// Len is the size of the entry's contents.
func (e *Entry) Len() int64 {
	switch e.Mode & Type {
	case Lnk:
		return int64(len(e.Link))
	case Reg:
		if e.Size < 0 {
			return 0
		}
		return e.Size
	}
	return 0
}

// Pattern makes bytes that differ by seed and by position.
func Pattern(seed, n int) []byte {
	out := make([]byte, n)
	var z uint64
	for i := range out {
		if i%8 == 0 {
			z = uint64(seed)*0x9e3779b97f4a7c15 + uint64(i/8+1)*0xbf58476d1ce4e5b9
			z ^= z >> 29
			z *= 0x94d049bb133111eb
			z ^= z >> 32
		}
		out[i] = byte(z >> (8 * (i % 8)))
	}
	return out
}

func newcHeader(e *Entry, name string, size int64) []byte {
	h := fmt.Sprintf("070701%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x",
		uint32(e.Ino), uint32(e.Mode), uint32(e.Uid), uint32(e.Gid), uint32(e.Nlink), uint32(e.Mtime), uint32(size),
		e.Dev>>8, e.Dev&0xff, e.Rdev>>8, e.Rdev&0xff, len(name)+1, uint32(e.Check))
	if e.Upper {
		h = strings.ToUpper(h)
	}
	return []byte(h + name + "\x00")
}

func padTo4(b []byte) []byte {
	for len(b)%4 != 0 {
		b = append(b, 0)
	}
	return b
}

// Archive is a cpio archive under construction.
type Archive struct {
	segs []stream.Segment
	cur  []byte
	base int64
	// Starts and Ends hold the offset of each entry's record and of the end of
	// its contents (without padding); Data the offset of its contents.
	Starts, Data, Ends []int64
	// TrailerEnd is where the trailer record (with padding) ends.
	TrailerStart, TrailerEnd int64
	NoTrailer                bool
	// Tail is how many zeros follow the trailer, as cpio pads to blocks
	Tail int
}

func (a *Archive) off() int64 { return a.base + int64(len(a.cur)) }

func (a *Archive) pad() {
	for a.off()%4 != 0 {
		a.cur = append(a.cur, 0)
	}
}

func (a *Archive) data(e *Entry, size int64) {
	a.Data = append(a.Data, a.off())
	if size >= Sparse {
		a.segs = append(a.segs, stream.Segment{Data: a.cur}, stream.Segment{Zero: size})
		a.base += int64(len(a.cur)) + size
		a.cur = nil
	} else if size > 0 {
		a.cur = append(a.cur, e.Content()...)
	}
	a.Ends = append(a.Ends, a.off())
	a.pad()
}

// Newc adds an entry in newc format.
func (a *Archive) Newc(e *Entry) {
	a.Starts = append(a.Starts, a.off())
	a.cur = append(a.cur, newcHeader(e, e.Name, e.Len())...)
	a.pad()
	a.data(e, e.Len())
}

// Stripped adds an entry in RPM's stripped format.
func (a *Archive) Stripped(index int, e *Entry, size int64) {
	a.Starts = append(a.Starts, a.off())
	a.cur = append(a.cur, fmt.Sprintf("07070X%08x", uint32(index))...)
	a.data(e, size)
}

// Finish writes the trailer and returns the segments.
func (a *Archive) Finish() []stream.Segment {
	if !a.NoTrailer {
		a.TrailerStart = a.off()
		a.cur = append(a.cur, newcHeader(&Entry{Nlink: 1}, "TRAILER!!!", 0)...)
		a.TrailerEnd = a.off()
		a.pad()
		a.cur = append(a.cur, make([]byte, a.Tail)...)
	}
	a.segs = append(a.segs, stream.Segment{Data: a.cur})
	a.base += int64(len(a.cur))
	a.cur = nil
	return a.segs
}

// Bytes flattens an archive without sparse parts.
func Bytes(segs []stream.Segment) []byte {
	var out []byte
	for _, s := range segs {
		if s.Data == nil && s.Zero > Sparse*2 {
			panic("sparse archive")
		}
		if s.Data != nil {
			out = append(out, s.Data...)
		} else {
			out = append(out, make([]byte, s.Zero)...)
		}
	}
	return out
}

// Newc builds a newc archive.
func Newc(entries []Entry) (*Archive, []stream.Segment) {
	a := &Archive{}
	for i := range entries {
		a.Newc(&entries[i])
	}
	return a, a.Finish()
}

// Clean is the name under which an entry is extracted, relative to the
// destination.
func Clean(name string) string {
	parts := strings.Split(name, "/")
	var out []string
	for _, p := range parts {
		switch p {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, p)
		}
	}
	return strings.Join(out, "/")
}
