// Package stream is the simulated network: a byte source whose delivery
// (sizes of reads, empty reads, errors, truncation) is decided by a plan.
package stream

import (
	"encoding/binary"
	"errors"
	"io"

	"verifsim/rt"
)

// ErrSource is the error injected into a source.
var ErrSource = errors.New("sim: source failed")

// Plan decides how the bytes of a source are handed out.
type Plan struct {
	Chunks  []int  `json:"chunks,omitempty"`   // sizes of successive reads, cyclic; 0 means as asked
	Empty   []int  `json:"empty,omitempty"`    // reads (by number, from 0) that return no bytes and no error
	EOFWith bool   `json:"eof_with,omitempty"` // io.EOF comes with the last bytes
	Cut     int    `json:"cut,omitempty"`      // source ends (or fails) after Cut-1 bytes; 0: never
	CutKind string `json:"cut_kind,omitempty"` // eof, err, ueof; once: an error (without data), and then it goes on
	ErrWith bool   `json:"err_with,omitempty"` // the error comes with the last bytes
}

// Hang is raised when a source is read again and again after its end.
type Hang struct{}

// Segment is a piece of a source: literal bytes, or a run of zeros.
type Segment struct {
	Data []byte
	Zero int64
}

func (s Segment) size() int64 {
	if s.Data != nil {
		return int64(len(s.Data))
	}
	return s.Zero
}

// Source is a simulated reader.
type Source struct {
	segs   []Segment
	plan   Plan
	Pos    int64 // bytes delivered
	size   int64
	Reads  int
	after  int
	Closed int
	Fired  map[string]int
	limit  int64
	Yield  bool
	once   int64 // where the transient error comes, -1 when it is over
}

// New makes a source over bytes.
func New(data []byte, plan Plan) *Source {
	return NewSegments([]Segment{{Data: data}}, plan)
}

// NewSegments makes a source over segments.
func NewSegments(segs []Segment, plan Plan) *Source {
	s := &Source{segs: segs, plan: plan, Fired: map[string]int{}, once: -1}
	for _, g := range segs {
		s.size += g.size()
	}
	s.limit = s.size
	if plan.Cut > 0 && plan.CutKind == "once" {
		s.once = int64(plan.Cut - 1)
	} else if plan.Cut > 0 && int64(plan.Cut-1) < s.size {
		s.limit = int64(plan.Cut - 1)
	}
	return s
}

// Size is the number of bytes of the intact source.
func (s *Source) Size() int64 { return s.size }

// Sum is a hash of what the source holds and how it delivers that.
func (s *Source) Sum() uint64 {
	h := uint64(14695981039346656037)
	mix := func(v uint64) { h = (h ^ v) * 1099511628211; h ^= h >> 29 }
	for _, g := range s.segs {
		b := g.Data
		for ; len(b) >= 8; b = b[8:] {
			mix(binary.LittleEndian.Uint64(b))
		}
		for _, x := range b {
			mix(uint64(x))
		}
		mix(uint64(g.size()))
	}
	for _, list := range [][]int{s.plan.Chunks, s.plan.Empty, {s.plan.Cut, len(s.plan.CutKind)}} {
		for _, n := range list {
			mix(uint64(n))
		}
	}
	if s.plan.EOFWith || s.plan.ErrWith {
		mix(1)
	}
	return h
}

// WasCut reports whether the plan removes bytes.
func (s *Source) WasCut() bool { return s.limit < s.size || s.plan.Cut > 0 && s.plan.CutKind != "eof" }

func (s *Source) endErr() error {
	if s.plan.Cut > 0 && int64(s.plan.Cut-1) <= s.size {
		switch s.plan.CutKind {
		case "err":
			return ErrSource
		case "ueof":
			return io.ErrUnexpectedEOF
		}
	}
	return io.EOF
}

func (s *Source) atEnd() (int, error) {
	s.after++
	if s.after > 20_000_000 {
		panic(Hang{})
	}
	e := s.endErr()
	if e != io.EOF {
		s.Fired["source-error"]++
	} else if s.limit < s.size {
		s.Fired["source-truncated"]++
	}
	return 0, e
}

func (s *Source) Read(p []byte) (int, error) {
	if s.Yield {
		rt.Yield()
	}
	n := s.Reads
	s.Reads++
	if len(p) == 0 {
		s.after++
		if s.after > 20_000_000 {
			panic(Hang{})
		}
		return 0, nil
	}
	for _, e := range s.plan.Empty {
		if e == n && (s.Pos < s.limit) {
			s.Fired["empty-read"]++
			return 0, nil
		}
	}
	if s.once >= 0 && s.Pos >= s.once {
		s.once = -1
		s.Fired["transient-error"]++
		return 0, ErrSource
	}
	if s.Pos >= s.limit {
		return s.atEnd()
	}
	want := len(p)
	if len(s.plan.Chunks) > 0 {
		c := Coarse(s.plan.Chunks[n%len(s.plan.Chunks)], s.Pos, s.size)
		if c > 0 && c < want {
			want = c
			s.Fired["short-read"]++
		}
	}
	if rem := s.limit - s.Pos; int64(want) > rem {
		want = int(rem)
	}
	if s.once >= 0 && s.Pos+int64(want) > s.once {
		want = int(s.once - s.Pos)
	}
	got := s.copyAt(p[:want])
	s.Pos += int64(got)
	if s.Pos >= s.limit {
		e := s.endErr()
		if e == io.EOF && s.plan.EOFWith {
			s.Fired["eof-with-data"]++
			return got, e
		}
		if e != io.EOF && s.plan.ErrWith {
			s.Fired["source-error"]++
			return got, e
		}
	}
	return got, nil
}

// Coarse makes the pieces larger in the middle of something large.
func Coarse(c int, pos, size int64) int {
	if size > 150_000 && pos > 40_000 && size-pos > 20_000 && c > 0 && c < 1000 {
		return 1000 + c
	}
	return c
}

func (s *Source) copyAt(p []byte) int {
	off := s.Pos
	n := 0
	for _, g := range s.segs {
		sz := g.size()
		if off >= sz {
			off -= sz
			continue
		}
		if g.Data != nil {
			c := copy(p[n:], g.Data[off:])
			n += c
		} else {
			c := len(p) - n
			if int64(c) > sz-off {
				c = int(sz - off)
			}
			if c > 4096 {
				// a giant run of zeros: only the edges are written, the
				// simulator does not look at the middle
				clear(p[n : n+64])
				clear(p[n+c-64 : n+c])
			} else {
				clear(p[n : n+c])
			}
			n += c
		}
		off = 0
		if n == len(p) {
			break
		}
	}
	return n
}

// Close records that somebody closed the caller's stream.
func (s *Source) Close() error { s.Closed++; return nil }

// Rest returns what has not been read yet.
func (s *Source) Rest() []byte {
	out := make([]byte, s.size-s.Pos)
	n := s.copyAt(out)
	return out[:n]
}
