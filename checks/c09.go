package checks

import (
	"fmt"
	"strings"

	"gmverif/sim"
)

func init() {
	register(&Prop{
		ID: "C09", Quick: 18000, Thor: 400000, Chunk: 16,
		Run:    runC09,
		Rule:   "each run has 2-5 threads executing 1-4 operations each out of 26 kinds (hashing, signing, verifying, encrypting, decrypting, conversions, key exchange, SM4 blocks and modes, padding, message building and reading, certificate requests and certificates), usually concentrated on one to three kinds, sharing keys, cipher objects, templates, requests, certificate contents and adjacent pieces of one buffer, preempted at statements of gm and stalled or failing in their randomness. Every operation is also executed alone on separate equal objects with the same randomness, before or after, and its result compared; every result is checked with the reference model, and one that the model refuses is a violation unless the operation alone in a fresh process gives the same. Goroutines gm starts are simulated threads too. What calls share must be unchanged whenever one of them returns and at the end; map accesses of gm that overlap between threads, one writing, are crashes. Non-trivial: a preemption inside a call. Distinct by event-log hash.",
		Real:   []string{"sm2", "sm3", "sm4", "util", "cryptobyte", "sm2/cert"},
		Stub:   []string{stubRand, stubSched, stubClock},
		Assume: []string{"interleavings at the granularity of gm's statements: a statement, and what the standard library does inside one, is not split"},
	})
}

// concurrentKinds picks the kinds of operation a run is made of.
func pickKinds(l *sim.Lane) (kinds []int, certs bool) {
	n := len(opKinds)
	switch l.W(3, 3, 2, 2) {
	case 0:
		n = 1
	case 1:
		n = 2
	case 2:
		n = 3
	}
	if n == len(opKinds) {
		for i := range opKinds {
			kinds = append(kinds, i)
		}
	} else {
		for i := 0; i < n; i++ {
			kinds = append(kinds, l.N(len(opKinds)))
		}
	}
	for _, k := range kinds {
		certs = certs || opKinds[k].certs
	}
	return
}

type done09 struct {
	i int // operation
	c *call
}

func runC09(w *sim.World, t *sim.T) {
	L := w.Plan
	kinds, certs := pickKinds(L)
	seed := uint64(L.N(1<<31-1)) + 1
	e := newEnv(w, t, seed, certs)
	if certs && !e.certs {
		w.Probe("certificates-unavailable")
		return
	}
	g := &opGen{l: L, e: e}
	var ops []*op
	threads := make([][]int, 2+L.W(4, 2, 1, 1))
	same := L.P(4) // several threads make the very same call
	for i := range threads {
		for j, m := 0, 1+L.N(4); j < m; j++ {
			if same && len(ops) > 0 && L.N(2) == 0 {
				threads[i] = append(threads[i], L.N(len(ops)))
				continue
			}
			threads[i] = append(threads[i], len(ops))
			ops = append(ops, g.op(kinds[L.N(len(kinds))]))
		}
	}
	if w.Alone > 0 {
		if w.Alone <= len(ops) {
			c := ops[w.Alone-1].do(t, e, false, false, nil)
			w.Result = "outcome" + c.text
		}
		return
	}
	stall := w.Fault.N(3) > 0
	before := L.N(2) == 0
	var e2 *env
	alone := make([]*call, len(ops))
	solo := func() {
		e2 = newEnv(w, t, seed, certs)
		for i, o := range ops {
			alone[i] = o.do(t, e2, false, false, nil)
		}
	}
	if before {
		solo()
	}
	state := e.state()
	pool := string(e.pool)
	var all []done09
	var fs []func(*sim.T)
	for _, list := range threads {
		fs = append(fs, func(t *sim.T) {
			for _, i := range list {
				c := ops[i].do(t, e, true, stall, nil)
				all = append(all, done09{i, c})
				// Other calls are in progress: what they share is not theirs to
				// change even for a while.
				if string(e.pool) != pool || len(all)%8 == 3 && e.state() != state {
					w.Fail("shared-data-changed", "when %s returned: %s", ops[i], dumpDiff(state, e.state()))
				}
				if c.fail {
					w.Probe("failed-beside-others")
				}
			}
		})
	}
	t.Par("t", fs...)
	if s := e.state(); s != state {
		w.Fail("shared-data-changed", "after %v: %s", ops, dumpDiff(state, s))
	}
	if !before {
		solo()
	}
	for _, d := range all {
		judge09(w, ops, d, alone[d.i])
	}
}

func judge09(w *sim.World, ops []*op, d done09, alone *call) {
	c := d.c
	if ch := c.argsChanged(); ch != "" {
		w.Fail("argument-changed", "%s: %s", c.o, ch)
	}
	w.Probe("op-" + strings.ReplaceAll(c.o.name, " ", "-"))
	if c.bad == "" && (c.text == alone.text || c.o.uses) {
		return
	}
	why := fmt.Sprintf("%s beside other calls: %s", c.o, short(c.text, 400))
	if c.bad != "" {
		why += ": " + short(c.bad, 300)
	}
	if c.text != alone.text {
		w.Fail("differs-from-alone", "%s; alone: %s", why, short(alone.text, 400))
		return
	}
	// The same wrong result alone, in this process: is it the operation itself?
	if w.Fresh != nil {
		if r, ok := w.Fresh(d.i); ok && r == "outcome"+c.text {
			w.Probe("wrong-alone-too")
			return
		}
	}
	w.Fail("differs-from-alone", "%s; an operation alone in a fresh process does not give this", why)
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}
