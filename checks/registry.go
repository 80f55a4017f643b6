// Package checks holds one simulated workload and oracle per property.
package checks

import "gmverif/sim"

type Prop struct {
	ID      string
	Run     func(w *sim.World, t *sim.T)
	Quick   int // runs
	Thor    int // runs of the thorough tier
	Chunk   int // runs per process
	Special int // single runs with the uninstrumented build, numbered from SpecialBase
	Rule    string
	Real    []string
	Stub    []string
	Assume  []string
}

const SpecialBase = 1 << 24

var All = map[string]*Prop{}

func register(p *Prop) {
	if p.Chunk == 0 {
		p.Chunk = 16
	}
	All[p.ID] = p
}

// SampleRule explains what an evaluation is.
const stubRand = "crypto/rand.Reader (simulated source)"
const stubSched = "goroutine scheduler (seeded token-passing scheduler, preemption at statements of gm)"
const stubClock = "clock (discrete-event simulated time)"
