package model

import "sort"

// Bzip2 compresses b (small inputs only: the transform is naive).
func Bzip2(b []byte) []byte {
	w := &bitWriter{}
	w.bits(0x425a68, 24) // BZh
	w.bits('1', 8)
	combined := uint32(0)
	const max = 60000
	for len(b) > 0 {
		n := len(b)
		if n > max {
			n = max
		}
		crc := bzCRC(b[:n])
		combined = (combined<<1 | combined>>31) ^ crc
		bzBlock(w, b[:n], crc)
		b = b[n:]
	}
	w.bits(0x177245385090, 48)
	w.bits(uint64(combined), 32)
	w.flush()
	return w.out
}

type bitWriter struct {
	out []byte
	acc uint64
	n   uint
}

func (w *bitWriter) bits(v uint64, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		w.acc = w.acc<<1 | v>>uint(i)&1
		w.n++
		if w.n == 8 {
			w.out = append(w.out, byte(w.acc))
			w.acc, w.n = 0, 0
		}
	}
}

func (w *bitWriter) flush() {
	for w.n != 0 {
		w.bits(0, 1)
	}
}

func bzCRC(b []byte) uint32 {
	crc := ^uint32(0)
	for _, c := range b {
		crc ^= uint32(c) << 24
		for i := 0; i < 8; i++ {
			if crc&0x80000000 != 0 {
				crc = crc<<1 ^ 0x04c11db7
			} else {
				crc <<= 1
			}
		}
	}
	return ^crc
}

func bzBlock(w *bitWriter, b []byte, crc uint32) {
	// run-length encoding
	var r []byte
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] == b[i] && j-i < 255 {
			j++
		}
		n := j - i
		if n >= 4 {
			r = append(r, b[i], b[i], b[i], b[i], byte(n-4))
		} else {
			for k := 0; k < n; k++ {
				r = append(r, b[i])
			}
		}
		i = j
	}
	// Burrows-Wheeler by prefix doubling
	n := len(r)
	rank := make([]int, n)
	idx := make([]int, n)
	for i := range r {
		rank[i], idx[i] = int(r[i]), i
	}
	tmp := make([]int, n)
	for k := 1; ; k *= 2 {
		key := func(i int) int { return rank[i]*65536*2 + rank[(i+k)%n] }
		sort.SliceStable(idx, func(x, y int) bool { return key(idx[x]) < key(idx[y]) })
		c := 0
		for i := range idx {
			if i > 0 && key(idx[i]) != key(idx[i-1]) {
				c++
			}
			tmp[idx[i]] = c
		}
		copy(rank, tmp)
		if c == n-1 || k >= n {
			break
		}
	}
	last := make([]byte, n)
	orig := 0
	for i, s := range idx {
		last[i] = r[(s+n-1)%n]
		if s == 0 {
			orig = i
		}
	}
	// move-to-front and zero runs
	var used [256]bool
	for _, c := range last {
		used[c] = true
	}
	var list []byte
	for c := 0; c < 256; c++ {
		if used[c] {
			list = append(list, byte(c))
		}
	}
	nsym := len(list) + 2
	eob := len(list) + 1
	var syms []int
	run := 0
	flush := func() {
		for run > 0 {
			if run&1 == 1 {
				syms = append(syms, 0)
				run = (run - 1) / 2
			} else {
				syms = append(syms, 1)
				run = (run - 2) / 2
			}
		}
	}
	for _, c := range last {
		p := 0
		for list[p] != c {
			p++
		}
		if p == 0 {
			run++
			continue
		}
		flush()
		copy(list[1:p+1], list[:p])
		list[0] = c
		syms = append(syms, p+1)
	}
	flush()
	syms = append(syms, eob)
	w.bits(0x314159265359, 48)
	w.bits(uint64(crc), 32)
	w.bits(0, 1)
	w.bits(uint64(orig), 24)
	var groups uint64
	for g := 0; g < 16; g++ {
		for i := 0; i < 16; i++ {
			if used[g*16+i] {
				groups |= 1 << (15 - uint(g))
			}
		}
	}
	w.bits(groups, 16)
	for g := 0; g < 16; g++ {
		if groups>>(15-uint(g))&1 == 0 {
			continue
		}
		for i := 0; i < 16; i++ {
			if used[g*16+i] {
				w.bits(1, 1)
			} else {
				w.bits(0, 1)
			}
		}
	}
	// two identical tables of fixed-length codes: the first (1<<bits)-nsym
	// symbols one bit shorter
	width := uint(1)
	for 1<<width < nsym {
		width++
	}
	short := 1<<width - nsym
	nsel := (len(syms) + 49) / 50
	w.bits(2, 3)
	w.bits(uint64(nsel), 15)
	for i := 0; i < nsel; i++ {
		w.bits(0, 1)
	}
	length := func(s int) uint {
		if s < short {
			return width - 1
		}
		return width
	}
	for t := 0; t < 2; t++ {
		cur := length(0)
		w.bits(uint64(cur), 5)
		for s := 0; s < nsym; s++ {
			for cur < length(s) {
				w.bits(2, 2)
				cur++
			}
			for cur > length(s) {
				w.bits(3, 2)
				cur--
			}
			w.bits(0, 1)
		}
	}
	for _, s := range syms {
		if s < short {
			w.bits(uint64(s), width-1)
		} else {
			w.bits(uint64(short*2+(s-short)), width)
		}
	}
}
