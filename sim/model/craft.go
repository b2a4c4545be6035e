package model

import (
	"encoding/binary"

	"verifsim/rng"
)

// CraftPacket makes an OpenPGP packet that is well-formed on the whole, but not
// one that any sane signer would make.
func CraftPacket(seed uint64) []byte {
	r := rng.New(seed)
	tag := rng.Pick(r, 2, 2, 2, 2, 2, 2, 2, 2, 1, 4, 6, 8, 11, 13, 14, 17, 18, 20, 61, 0)
	var body []byte
	switch tag {
	case 2:
		body = craftSig(r)
	default:
		body = make([]byte, r.N(40))
		for i := range body {
			body[i] = byte(rng.Pick(r, 0, 1, 2, 3, 4, 8, 9, 255, r.N(256)))
		}
	}
	return frame(r, tag, body)
}

// frame puts a packet header in front of a body.
func frame(r *rng.R, tag int, body []byte) []byte {
	n := len(body)
	if r.P(1, 8) {
		n = rng.Pick(r, n+1, n-1, 0, 1<<31-1, 1<<20, n/2)
		if n < 0 {
			n = 0
		}
	}
	var h []byte
	switch k := r.N(8); {
	case k < 4 || tag > 15:
		h = append(h, 0xc0|byte(tag))
		switch {
		case r.P(1, 6): // partial lengths
			var out []byte
			for len(body) > 3 && r.P(3, 4) {
				p := r.Range(0, 3)
				if 1<<p > len(body) {
					break
				}
				out = append(out, 0xe0|byte(p))
				out = append(out, body[:1<<p]...)
				body = body[1<<p:]
			}
			out = append(out, byte(min(len(body), 191)))
			return append(append(h, out...), body...)
		case n < 192 && r.P(2, 3):
			h = append(h, byte(n))
		case n >= 192 && n < 8384 && r.P(2, 3):
			h = append(h, byte((n-192)>>8)+192, byte(n-192))
		default:
			h = append(h, 255)
			h = binary.BigEndian.AppendUint32(h, uint32(n))
		}
	case k == 4 && n < 256:
		h = append(h, 0x80|byte(tag)<<2, byte(n))
	case k < 6 && n < 1<<16:
		h = append(h, 0x80|byte(tag)<<2|1, byte(n>>8), byte(n))
	case k == 6:
		h = append(h, 0x80|byte(tag)<<2|2)
		h = binary.BigEndian.AppendUint32(h, uint32(n))
	default:
		h = append(h, 0x80|byte(tag)<<2|3)
	}
	return append(h, body...)
}

func craftSig(r *rng.R) []byte {
	v := rng.Pick(r, 4, 4, 4, 4, 4, 4, 5, 3, 6, 2)
	b := []byte{byte(v)}
	algo := byte(rng.Pick(r, 1, 1, 1, 17, 22, 19, 3, 16, 27, 99))
	hash := byte(rng.Pick(r, 8, 8, 10, 2, 9, 11, 1, 3, 12, 14, 13, 0, 99))
	if v == 3 || v == 2 {
		b = append(b, 5, 0, 1, 2, 3, 4, 1, 2, 3, 4, 5, 6, 7, 8, algo, hash)
	} else {
		b = append(b, byte(rng.Pick(r, 0, 0, 0, 1, 0x10, 0x18, 0x30, 0xff)), algo, hash)
		for i := 0; i < 2; i++ {
			s := subpackets(r, i == 0)
			n := len(s)
			if r.P(1, 20) {
				n = rng.Pick(r, 0, n+1, 65535, n/2)
			}
			if v == 6 {
				b = append(b, byte(n>>24), byte(n>>16))
			}
			b = append(b, byte(n>>8), byte(n))
			b = append(b, s...)
		}
	}
	b = append(b, byte(r.N(256)), byte(r.N(256)))
	if v == 6 {
		b = append(b, 4, 1, 2, 3, 4)
	}
	for i := rng.Pick(r, 0, 1, 1, 2, 2, 2); i > 0; i-- {
		bits := rng.Pick(r, 0, 1, 8, 9, 255, 256, 65535, 2048)
		n := (bits + 7) / 8
		b = append(b, byte(bits>>8), byte(bits))
		if r.P(1, 10) {
			n /= 2
		}
		m := make([]byte, n)
		if n > 0 {
			m[0] = byte(r.N(256))
		}
		b = append(b, m...)
	}
	return b
}

func subpackets(r *rng.R, hashed bool) []byte {
	var out []byte
	add := func(typ int, data ...byte) {
		n := len(data) + 1
		if r.P(1, 40) {
			n = rng.Pick(r, 0, n+1, n-1, 255, 191)
		}
		switch {
		case n < 192 && r.P(9, 10):
			out = append(out, byte(n))
		case n >= 192 && n < 8384:
			out = append(out, byte((n-192)>>8)+192, byte(n-192))
		default:
			out = append(out, 255, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		}
		if r.P(1, 6) {
			typ |= 0x80
		}
		out = append(out, byte(typ))
		out = append(out, data...)
	}
	key := PublicKey(rng.Of(r, KeyNames))
	id := make([]byte, 8)
	binary.BigEndian.PutUint64(id, key.KeyId)
	// what belongs there, with gaps
	if hashed && r.P(9, 10) {
		add(2, 0x5f, 0x5e, 0x10, 0)
	}
	if !hashed && r.P(1, 2) {
		add(16, id...)
	}
	if hashed && r.P(1, 3) {
		add(33, append([]byte{4}, key.Fingerprint...)...)
	}
	for n := rng.Pick(r, 0, 0, 1, 2, 4); n > 0; n-- {
		typ := rng.Pick(r, 2, 3, 9, 11, 16, 16, 20, 21, 22, 23, 25, 26, 27, 28, 29, 30, 32, 33, 33, 34, 37, 39, 100, 0, r.N(128))
		var d []byte
		switch typ {
		case 32:
			d = craftSig(r)
		case 16:
			d = id[:rng.Pick(r, 8, 8, 0, 7)]
		case 33:
			d = append([]byte{byte(rng.Pick(r, 4, 5, 6, 0))}, make([]byte, rng.Pick(r, 20, 32, 0, 5, 19))...)
		default:
			d = make([]byte, rng.Pick(r, 0, 1, 2, 3, 4, 5, 8, 20, 21, 64))
			for i := range d {
				d[i] = byte(rng.Pick(r, 0, 1, 255, r.N(256)))
			}
		}
		add(typ, d...)
	}
	return out
}
