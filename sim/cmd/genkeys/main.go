// Command genkeys made the fixed test keys in model/keys (run once).
package main

import (
	"crypto"
	"os"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/armor"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
)

func main() {
	when := func() time.Time { return time.Unix(1_300_000_000, 0) }
	for _, k := range []struct {
		name string
		cfg  packet.Config
		subs int
	}{
		{"alice", packet.Config{RSABits: 2048}, 0},
		{"bob", packet.Config{RSABits: 1024}, 0},
		{"carol", packet.Config{Algorithm: packet.PubKeyAlgoEdDSA}, 0},
		{"dave", packet.Config{RSABits: 1024}, 2},
		{"mallory", packet.Config{RSABits: 1024}, 0},
	} {
		k.cfg.Time = when
		k.cfg.DefaultHash = crypto.SHA256
		e, err := openpgp.NewEntity(k.name, "", k.name+"@example.com", &k.cfg)
		if err != nil {
			panic(err)
		}
		e.Subkeys = nil
		for i := 0; i < k.subs; i++ {
			if i == 1 {
				k.cfg.Algorithm = packet.PubKeyAlgoEdDSA
			}
			if err := e.AddSigningSubkey(&k.cfg); err != nil {
				panic(err)
			}
		}
		f, _ := os.Create("model/keys/" + k.name + ".asc")
		w, _ := armor.Encode(f, openpgp.PrivateKeyType, nil)
		if err := e.SerializePrivate(w, &k.cfg); err != nil {
			panic(err)
		}
		w.Close()
		f.Close()
	}
}
