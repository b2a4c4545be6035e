package props

import (
	"runtime"

	"verifsim/kern"
	"verifsim/rng"
)

var leakFaults = []string{"err", "err", "err", "full", "short", "eintr"}

func genLeakExtract(r *rng.R, deep bool) *exScenario {
	sc := genExtract(r, archOpts{Max: 8, Links: true, Special: true, Symlink: true, Prefix: true, Deep: deep}, destSpellings)
	if r.P(1, 3) {
		sc.Kind, sc.Spec, sc.Files = "cpio", nil, genHostile(r)
		sc.fixDest()
		if !sc.NoDest && sc.Dest != "/" && r.P(2, 3) {
			sc.Pre = genPre(r)
		}
	}
	trace, n := sc.dry()
	sc.Attempts = append(sc.Attempts, genFaults(r, trace, n, rng.Pick(r, 1, 1, 2), leakFaults...))
	return sc
}

func validLeakExtract(sc *exScenario) bool {
	if !sc.valid(false) || !validPre(sc.Pre) || len(sc.Pre) > 0 && (sc.NoDest || sc.Dest == "/") || len(sc.Attempts) > 1 || hasKind(sc.Attempts, "crash", "power") {
		return false
	}
	for _, e := range sc.entries() {
		if len(e.Name) > 1200 || e.Size < 0 || e.Size > 1<<22 {
			return false
		}
	}
	return true
}

func runLeakExtract(sc *exScenario, c *Ctx) {
	runtime.SimRand(true, sc.Rand)
	k := kern.New()
	start := k.Now
	k.Boot()
	defer k.Halt()
	sc.world(k)
	var faults []kern.Fault
	if len(sc.Attempts) > 0 {
		faults = sc.Attempts[0]
	}
	res := sc.attempt(c, k, sc.raw(), faults, false)
	c.Kernel(k, start)
	c.Plain = len(faults) == 0
	c.Probe("extraction under faults")
	if c.Failed() || res.end.Kind != "ok" {
		return
	}
	leaks(c, "extraction", res.err, res.open, res.lost, res.closed, res.gor)
	moved(c, k, "extraction")
}

func genLeakSign(r *rng.R, deep bool) *signScenario {
	sc := genSignBase(r)
	sc.Plan = genPlan(r, 4000)
	rd := genRound(r, modeNames, "file", "file", "file", "raw", "splice")
	sc.Rounds = []signRound{rd}
	if r.P(1, 8) {
		sc.SinkClose = 1 + r.N(3000)
	}
	trace, calls := sc.dry()
	sc.Attempts = append(sc.Attempts, genFaults(r, trace, calls, rng.Pick(r, 1, 1, 2), leakFaults...))
	return sc
}

func validLeakSign(sc *signScenario) bool {
	return sc.valid(modeNames) && len(sc.Rounds) == 1 && len(sc.Attempts) <= 1 && !hasKind(sc.Attempts, "crash", "power")
}

func runLeakSign(sc *signScenario, c *Ctx) {
	runtime.SimRand(true, sc.Rand)
	rd := &sc.Rounds[0]
	p := sc.Spec.Build()
	m := sc.world(rd.Mode, p.Raw)
	start := m.k.Now
	m.k.Boot()
	defer m.k.Halt()
	var faults []kern.Fault
	if len(sc.Attempts) > 0 {
		faults = sc.Attempts[0]
	}
	res := sc.sign(c, m, rd, p.Raw, faults, false)
	c.Kernel(m.k, start)
	c.Plain = len(faults) == 0
	c.Probe("signing under faults")
	if c.Failed() || res.end.Kind != "ok" {
		return
	}
	leaks(c, "signing", res.err, res.open, res.lost, res.closed, res.gor)
	moved(c, m.k, "signing")
}

// moved: the process works where it did, and makes files as it did.
func moved(c *Ctx, k *kern.Kernel, what string) {
	if s := k.Moved(); s != "" {
		c.Fail("moved", "after %s, %s", what, s)
	}
}
