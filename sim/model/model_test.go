package model

import (
	"bytes"
	"compress/bzip2"
	"io"
	"testing"
)

func TestBzip2(t *testing.T) {
	for n := 0; n < 3000; n += 7 {
		b := append(Pattern(n, n), make([]byte, n)...)
		got, err := io.ReadAll(bzip2.NewReader(bytes.NewReader(Bzip2(b))))
		if err != nil || !bytes.Equal(got, b) {
			t.Fatal(n, err)
		}
	}
	b := Pattern(3, 200000)
	got, err := io.ReadAll(bzip2.NewReader(bytes.NewReader(Bzip2(b))))
	if err != nil || !bytes.Equal(got, b) {
		t.Fatal(err)
	}
}

func TestRpm(t *testing.T) {
	s := &Spec{Name: "x", Epoch: -1, Compressor: "gzip", HdrSHA1: true, HdrSHA256: true, Payload: "sha256", MD5: true, Reserved: 4000,
		ExtraSig: []int{5, 7, 9, 11}, Files: []Entry{{Name: "/a", Mode: Reg | 0644, Size: 10, Nlink: 1}},
		PreSign: []Sign{{Key: "alice", Header: true}, {Key: "carol"}}}
	p := s.Build()
	q, err := Parse(p.Raw)
	if err != nil || len(q.Problems) > 0 {
		t.Fatal(err, q.Problems)
	}
	si, err := ParseSig(q.Sig[268].Data)
	if err != nil || si.Check(PublicKey("alice"), q.GenRaw) != nil {
		t.Fatal(err)
	}
}
