package props

import (
	"bytes"
	"fmt"
	"io"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"

	"verifsim/model"
	"verifsim/rng"
)

// Warm runs the operations once outside the simulator, so that lazily made
// process-wide state (tables, pools, the time zone) is the same for every run.
func Warm() {
	_ = fmt.Sprint(time.Now())
	for _, comp := range compressors {
		s := genSpec(rng.New(1), specOpts{Comp: []string{comp}, Files: archOpts{}})
		s.Payload, s.MD5 = "sha256", true
		p := s.Build()
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(p.Raw))
		if err != nil {
			continue
		}
		if pr, err := rpm.PayloadReaderExtended(); err == nil {
			for {
				if _, err := pr.Next(); err != nil {
					break
				}
				io.Copy(io.Discard, pr)
			}
		}
		rpmutils.Verify(bytes.NewReader(p.Raw), model.Ring("alice"))
		for _, k := range []string{"alice", "carol"} {
			if h, err := rpmutils.SignRpmStream(bytes.NewReader(p.Raw), model.SigningKey(k), nil); err == nil {
				h.DumpSignatureHeader(true)
			}
		}
	}
}
