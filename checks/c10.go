package checks

import (
	"gmverif/sim"
)

func init() {
	register(&Prop{
		ID: "C10", Quick: 7000, Thor: 250000, Chunk: 16,
		Run:    runC10,
		Rule:   "each run is a caller's history of 4-16 steps over 2-6 operations drawn from 26 kinds: executing one (its arguments in guarded buffers with spare capacity, in adjacent pieces of a shared buffer, or in the very buffers and objects earlier calls used), executing it with failing randomness, overwriting the arguments or the results of an earlier call (ciphers, hashes and builders among them, which are then used further), and executing everything again at the end. After every step all arguments, all shared objects and every result still held must be unchanged; every outcome must equal that of the same operation earlier in the history, and one that the reference model refuses is a violation unless the operation alone in a fresh process gives the same. Non-trivial: an injected failure, an overwritten buffer or a repetition. Distinct by event-log hash.",
		Real:   []string{"sm2", "sm3", "sm4", "util", "cryptobyte", "sm2/cert"},
		Stub:   []string{stubRand, stubSched, stubClock},
		Assume: []string{"values read or unpadded out of a buffer, and parsed requests and certificates, are views of it", "a hash's Sum appends to the slice it is given and a builder to its buffer, by contract"},
	})
}

type kept struct {
	c      *call
	i      int
	was    []string // results at return
	spoilt bool
	args   bool // its arguments were overwritten
	reused bool // its argument memory serves other calls by now
}

type c10 struct {
	w     *sim.World
	t     *sim.T
	e     *env
	ops   []*op
	first []string
	kept  []*kept
	state string
	again *recycle
	final bool
}

func runC10(w *sim.World, t *sim.T) {
	L := w.Plan
	kinds, certs := pickKinds(L)
	x := &c10{w: w, t: t, e: newEnv(w, t, uint64(L.N(1<<31-1))+1, certs)}
	if certs && !x.e.certs {
		w.Probe("certificates-unavailable")
		return
	}
	g := &opGen{l: L, e: x.e}
	for i, n := 0, 2+L.N(5); i < n; i++ {
		x.ops = append(x.ops, g.op(kinds[L.N(len(kinds))]))
	}
	if w.Alone > 0 {
		if w.Alone <= len(x.ops) {
			c := x.ops[w.Alone-1].do(t, x.e, false, false, nil)
			w.Result = "outcome" + c.text
		}
		return
	}
	x.first = make([]string, len(x.ops))
	x.state = x.e.state()
	if L.N(2) == 0 {
		x.again = newRecycle()
	}
	for i, n := 0, 4+L.N(13); i < n; i++ {
		switch L.W(6, 2, 2, 2) {
		case 0:
			x.run(L.N(len(x.ops)))
		case 1:
			x.failing(L.N(len(x.ops)))
		case 2:
			x.spoilArgs()
		case 3:
			x.spoilResult()
		}
	}
	r := perm(L.Sub(), len(x.ops))
	for _, i := range r {
		x.run(i)
	}
	x.final = true
	x.intact("the end")
}

// intact checks everything the caller holds. except is the call whose results
// were just overwritten.
func (x *c10) intact(what string) {
	w := x.w
	if s := x.e.state(); s != x.state {
		w.Fail("argument-changed", "%s changed shared data: %s", what, dumpDiff(x.state, s))
	}
	for _, k := range x.kept {
		if !k.reused {
			if s := k.c.argsChanged(); s != "" {
				w.Fail("argument-changed", "%s changed arguments of %s: %s", what, k.c.o, s)
			}
		}
		if k.spoilt {
			continue
		}
		for j, l := range k.c.out {
			if l.late != "" && !k.args && !k.reused && !x.final {
				continue
			}
			if s := l.state(); s != k.was[j] {
				w.Fail("result-changed", "%s changed %s returned earlier by %s: %s", what, l.name, k.c.o, dumpDiff(k.was[j], s))
			}
		}
	}
}

func (x *c10) run(i int) {
	w, o := x.w, x.ops[i]
	again := x.again
	if again != nil {
		for _, k := range x.kept {
			k.reused = k.reused || k.c.again != nil
		}
	}
	c := o.do(x.t, x.e, true, false, again)
	k := &kept{c: c, i: i}
	for _, l := range c.out {
		if l.late != "" {
			k.was = append(k.was, l.late)
		} else {
			k.was = append(k.was, l.state())
		}
	}
	if s := c.argsChanged(); s != "" {
		w.Fail("argument-changed", "%s changed its arguments: %s", o, s)
	}
	x.kept = append(x.kept, k)
	x.intact(o.name)
	if x.first[i] == "" {
		x.first[i] = "outcome" + c.text
	} else {
		w.Nontrivial()
		w.Probe("repeated")
		if s := "outcome" + c.text; s != x.first[i] {
			w.Fail("depends-on-history", "%s gave %s, earlier with the same arguments and randomness %s", o, short(s, 400), short(x.first[i], 400))
		}
	}
	if c.bad != "" {
		if w.Fresh != nil {
			if r, ok := w.Fresh(i); ok && r == "outcome"+c.text {
				w.Probe("wrong-alone-too")
				return
			}
		}
		w.Fail("depends-on-history", "%s: %s; the operation alone in a fresh process does not give this", o, short(c.bad, 400))
	}
}

// failing executes an operation whose randomness fails at once, or, if it uses
// none, just another one.
func (x *c10) failing(i int) {
	o := *x.ops[i]
	if !o.uses {
		x.run(i)
		return
	}
	o.fails, o.failN = 1+x.w.Fault.N(2), x.w.Fault.N(32)
	if x.again != nil {
		for _, k := range x.kept {
			k.reused = k.reused || k.c.again != nil
		}
	}
	c := o.do(x.t, x.e, true, false, x.again)
	if s := c.argsChanged(); s != "" {
		x.w.Fail("argument-changed", "failing %s changed its arguments: %s", o.name, s)
	}
	x.intact("failing " + o.name)
}

func (x *c10) spoilArgs() {
	if len(x.kept) == 0 {
		return
	}
	k := x.kept[x.w.Plan.N(len(x.kept))]
	if k.reused {
		return
	}
	x.w.Fired("arguments-overwritten")
	k.args = true
	k.c.spoilArgs(x.w.Plan.Sub())
	x.intact("overwriting the arguments of " + k.c.o.name)
}

func (x *c10) spoilResult() {
	if len(x.kept) == 0 {
		return
	}
	k := x.kept[x.w.Plan.N(len(x.kept))]
	if len(k.c.out) == 0 || k.spoilt {
		return
	}
	x.w.Fired("result-overwritten")
	k.spoilt = true
	for _, l := range k.c.out {
		l.spoil()
	}
	x.intact("overwriting the result of " + k.c.o.name)
}
