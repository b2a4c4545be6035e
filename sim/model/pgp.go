package model

import (
	"bytes"
	"crypto"
	_ "crypto/md5"
	_ "crypto/sha1"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"embed"
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
)

//go:embed keys/*.asc
var keyFiles embed.FS

// Keys holds the fixed test identities.
var Keys = map[string]*openpgp.Entity{}

// KeyNames lists them.
var KeyNames = []string{"alice", "bob", "carol", "dave", "mallory"}

// Hashes are the signature hashes in use.
var Hashes = map[string]crypto.Hash{"": 0, "sha1": crypto.SHA1, "sha224": crypto.SHA224, "sha256": crypto.SHA256,
	"sha384": crypto.SHA384, "sha512": crypto.SHA512}

func init() {
	for _, n := range KeyNames {
		b, err := keyFiles.ReadFile("keys/" + n + ".asc")
		if err != nil {
			panic(err)
		}
		ring, err := openpgp.ReadArmoredKeyRing(bytes.NewReader(b))
		if err != nil {
			panic(err)
		}
		Keys[n] = ring[0]
	}
}

// SigningKey is the private key used to sign under a name: "dave/sub" and
// "dave/sub2" are the signing subkeys.
func SigningKey(name string) *packet.PrivateKey {
	base, sub, _ := strings.Cut(name, "/")
	e := Keys[base]
	switch sub {
	case "sub":
		return e.Subkeys[0].PrivateKey
	case "sub2":
		return e.Subkeys[1].PrivateKey
	}
	return e.PrivateKey
}

// PublicKey is its public half.
func PublicKey(name string) *packet.PublicKey { return &SigningKey(name).PublicKey }

// Ring makes a keyring of the named identities.
func Ring(names ...string) openpgp.EntityList {
	var l openpgp.EntityList
	for _, n := range names {
		l = append(l, Keys[n])
	}
	return l
}

// MakeSig signs the concatenated parts.
func MakeSig(s Sign, parts ...[]byte) []byte {
	key := SigningKey(s.Key)
	h := Hashes[s.Hash]
	if h == 0 {
		h = crypto.SHA256
	}
	sig := &packet.Signature{SigType: packet.SigTypeBinary, CreationTime: time.Unix(s.Time, 0), PubKeyAlgo: key.PubKeyAlgo, Hash: h}
	if !s.NoID {
		id := key.KeyId
		sig.IssuerKeyId = &id
	}
	if s.NoFP {
		// the signer takes it from the key
		k := *key
		k.PublicKey.Fingerprint = nil
		key = &k
	}
	w := h.New()
	for _, p := range parts {
		w.Write(p)
	}
	if err := sig.Sign(w, key, nil); err != nil {
		panic(err)
	}
	var out bytes.Buffer
	if err := sig.Serialize(&out); err != nil {
		panic(err)
	}
	if s.Loose != "" {
		return looseIssuer(out.Bytes(), PublicKey(s.Loose).KeyId)
	}
	return out.Bytes()
}

// looseIssuer adds an issuer to the part of a signature packet that is not
// signed, which is where GnuPG puts it.
func looseIssuer(blob []byte, id uint64) []byte {
	p, err := packet.NewOpaqueReader(bytes.NewReader(blob)).Next()
	if err != nil {
		panic(err)
	}
	c := p.Contents
	at := 4 + 2 + int(c[4])<<8 + int(c[5])
	n := int(c[at])<<8 + int(c[at+1])
	body := append([]byte(nil), c[:at]...)
	body = append(body, byte((n+10)>>8), byte(n+10))
	body = append(body, c[at+2:at+2+n]...)
	body = append(body, 9, 16)
	body = binary.BigEndian.AppendUint64(body, id)
	body = append(body, c[at+2+n:]...)
	out := []byte{0xc2, 255}
	out = binary.BigEndian.AppendUint32(out, uint32(len(body)))
	return append(out, body...)
}

// SigInfo is what the independent verifier finds in a signature blob.
type SigInfo struct {
	KeyID uint64
	FP    []byte
	Hash  crypto.Hash
	Time  time.Time
	pkt   *packet.Signature
}

// ParseSig decodes a signature blob holding exactly one packet.
func ParseSig(blob []byte) (*SigInfo, error) {
	r := bytes.NewReader(blob)
	p, err := packet.Read(r)
	if err != nil {
		return nil, err
	}
	if r.Len() != 0 {
		return nil, fmt.Errorf("trailing bytes after signature")
	}
	s, ok := p.(*packet.Signature)
	if !ok {
		return nil, fmt.Errorf("not a signature")
	}
	i := &SigInfo{Hash: s.Hash, Time: s.CreationTime, FP: s.IssuerFingerprint, pkt: s}
	if s.IssuerKeyId != nil {
		i.KeyID = *s.IssuerKeyId
	}
	return i, nil
}

// Check verifies the signature over the parts with a key.
func (i *SigInfo) Check(key *packet.PublicKey, parts ...[]byte) error {
	if !i.Hash.Available() {
		return fmt.Errorf("hash %d unavailable", i.Hash)
	}
	h := i.Hash.New()
	for _, p := range parts {
		h.Write(p)
	}
	return key.VerifySignature(h, i.pkt)
}

// Names reports whether the signature claims to be by this key.
func (i *SigInfo) Names(key *packet.PublicKey) bool { return i.pkt.CheckKeyIdOrFingerprint(key) }
