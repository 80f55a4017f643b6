package sim

import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"

	"gmverif/simrt"
)

// Violation is a property failure; Class is stable, Detail is for people.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// World is one simulated run.
type World struct {
	Prop  string
	Tier  string
	Index int
	Plan  *Lane // workload
	Sched *Lane // interleaving
	Fault *Lane // faults
	K     *simrt.Kernel
	Known func(class, detail string) bool

	// Alone, if positive, asks for operation Alone-1 of the run by itself, in a
	// process where nothing else has run; its outcome goes into Result. Fresh
	// obtains such an outcome from another process.
	Alone  int
	Result string
	Fresh  func(op int) (string, bool)

	V          *Violation
	KnownHits  []string
	Counts     map[string]int // faults fired, probes hit
	Ops        int
	Log        []string
	logHash    uint64
	keepLog    int
	nontrivial bool
	pol        *policy
	Infra      string
}

const maxLog = 4000

type policy struct {
	w        *World
	l        *Lane
	mode     int
	mean     int
	rare     int // preemptions by place: gap, one in how many sites, and which
	every    int
	flag     byte // only at sites with this flag
	whole    int
	salt     uint64
	switches int
	max      int
	multi    bool
}

// Schedule modes; which one a run uses is itself a recorded choice.
const (
	schedSeq    = iota // switch only between operations
	schedGap           // preempt after random gaps
	schedAim           // keep preempting at one statement
	schedBurst         // preempt one operation, let others run whole operations
	schedSparse        // one to three preemptions at random depths
	schedRare          // preempt by place: every statement reached is as likely
)

func (p *policy) Gap() int64 {
	if !p.multi || p.mode == schedSeq || p.switches >= p.max {
		return 0
	}
	mean := p.mean
	return int64(p.l.Gen(1<<20, func(r *PRNG) int {
		switch p.mode {
		case schedBurst:
			if r.N(3) != 0 {
				return 0
			}
		case schedSparse:
			if r.N(4) == 0 {
				return 0
			}
		}
		return 1 + r.N(2*mean)
	}))
}
func (p *policy) Rare() (bool, func(site int) bool) {
	return p.mode == schedRare, func(site int) bool {
		if p.flag != 0 && (site >= len(simrt.Flags) || (simrt.Flags[site]-'0')&p.flag == 0) {
			return false
		}
		x := uint64(site+1)*0x9e3779b97f4a7c15 ^ p.salt
		x ^= x >> 31
		x *= 0xbf58476d1ce4e5b9
		x ^= x >> 29
		return x%uint64(p.every) == 0
	}
}

func (p *policy) RareGap() int64 {
	if !p.multi || p.switches >= p.max {
		return 0
	}
	// Some of the quanta last until the operation ends, so that others run whole
	// operations while one is held.
	return int64(p.l.Gen(1<<20, func(r *PRNG) int {
		if r.N(p.whole) == 0 {
			return 0
		}
		return 1 + r.N(p.rare)
	}))
}

func (p *policy) Pick(n int) int {
	p.switches++
	return p.l.N(n)
}
func (p *policy) Aim() bool {
	if p.mode != schedAim {
		return false
	}
	return p.l.P(2)
}
func (p *policy) AtTarget() bool {
	if p.switches >= p.max {
		return false
	}
	return p.l.P(2)
}

// NewWorld prepares run number index. Nil lanes: draw from the seed.
func NewWorld(prop, tier string, seed int64, index int, lanes *[3][]uint32) *World {
	w := &World{Prop: prop, Tier: tier, Index: index, Counts: map[string]int{}, keepLog: maxLog}
	mk := func(i int, name string) *Lane {
		l := NewLane(Seed("gmsim", seed, prop, index, name), nil, false)
		if lanes != nil {
			l.replay, l.src = true, lanes[i]
		}
		return l
	}
	w.Plan, w.Sched, w.Fault = mk(0, "plan"), mk(1, "sched"), mk(2, "fault")
	h := fnv.New64a()
	w.logHash = h.Sum64()
	w.pol = &policy{w: w, l: w.Sched}
	simrt.OnGo = func(*simrt.Task) { w.pol.multi = true }
	simrt.OnPanic = func(t *simrt.Task, r interface{}) {
		p := &Panic{Val: r, Where: where(string(debug.Stack()))}
		if h, ok := r.(simrt.Hang); ok {
			p.Hang, p.Val = true, h.Steps
		} else if _, ok := r.(drawLimit); ok {
			p.Draws = true
		}
		w.Record(p.Class(), "in a goroutine gm started, "+p.String())
	}
	w.K = simrt.New(w.pol)
	return w
}

// Exec runs main as the first simulated thread and returns when the run ends.
func (w *World) Exec(main func(t *T)) {
	p := w.pol
	p.mode = w.Sched.W(1, 5, 4, 4, 3, 6)
	means := []int{3, 10, 30, 100, 300, 1000, 3000, 10000, 30000, 100000}
	p.mean = means[w.Sched.N(len(means))]
	if p.mode == schedRare {
		p.flag = []byte{0, 1, 2}[w.Sched.W(3, 3, 2)]
		if p.flag == 0 {
			i := w.Sched.N(6)
			p.every = []int{1, 2, 5, 15, 40, 100}[i]
			p.rare = []int{60, 20, 10, 4, 2, 2}[i]
		} else {
			p.every = []int{1, 3, 9}[w.Sched.N(3)]
			p.rare = []int{1, 2, 4, 12}[w.Sched.N(4)]
		}
		p.whole = []int{2, 4, 20}[w.Sched.N(3)]
		p.salt = uint64(w.Sched.N(1<<31-1)+1) * 0x2545f4914f6cdd1d
	}
	p.max = 300
	if p.mode == schedSparse {
		p.max = 1 + w.Sched.N(6)
	}
	w.Go("main", main)
	w.K.Run()
	if w.K.Stuck != nil && w.V == nil {
		w.Record("stuck", "no simulated thread can run: "+strings.Join(w.K.Stuck.Tasks, "; "))
	}
	rand0.cur = nil
}

// T is a simulated thread's handle.
type T struct {
	W    *World
	task *simrt.Task
	Rand *RandStream // randomness of the current operation
	done bool
}

// Go starts a simulated thread.
func (w *World) Go(name string, f func(t *T)) *T {
	t := &T{W: w}
	t.Rand = &RandStream{rng: NewPRNG(Seed("rand", w.Prop, w.Index, len(w.K.Tasks)))}
	t.task = w.K.Spawn(name, t, func(*simrt.Task) {
		defer func() {
			if r := recover(); r != nil {
				if st := string(debug.Stack()); inLibrary(st) {
					w.Record("crash", fmt.Sprintf("panic: %v at %s", r, where(st)))
					w.K.Halt()
				}
				w.Infra = fmt.Sprintf("harness panic in %s: %v\n%s", name, r, debug.Stack())
				w.V = nil
				w.K.Halt()
			}
		}()
		f(t)
		t.done = true
	})
	if len(w.K.Tasks) > 2 || len(w.K.Tasks) == 2 {
		w.pol.multi = true
	}
	return t
}

// Join waits for threads to finish.
func (t *T) Join(ts ...*T) {
	for _, o := range ts {
		o := o
		simrt.Block("join "+o.task.Name, func() bool { return o.done })
	}
}

func (t *T) Name() string { return t.task.Name }

// Par runs the functions as simulated threads and waits for all of them.
func (t *T) Par(name string, fs ...func(t *T)) {
	var ts []*T
	for i, f := range fs {
		ts = append(ts, t.W.Go(fmt.Sprintf("%s%d", name, i), f))
	}
	t.Join(ts...)
}

func (t *T) Sleep(d int64) { simrt.Sleep(d) }
func (t *T) Point()        { simrt.Point() }

// Logf appends to the event log.
func (w *World) Logf(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if t := simrt.Current(); t != nil {
		s = fmt.Sprintf("t=%dus %s: %s", w.K.Now/1000, t.Name, s)
	}
	for i := 0; i < len(s); i++ {
		w.logHash = (w.logHash ^ uint64(s[i])) * 1099511628211
	}
	w.logHash = (w.logHash ^ 10) * 1099511628211
	if len(w.Log) < w.keepLog {
		w.Log = append(w.Log, s)
	}
}

func (w *World) LogHash() uint64 { return w.logHash }

// Fired counts a fault that took effect; Probe a rare condition reached.
func (w *World) Fired(kind string) { w.Counts["fault:"+kind]++; w.nontrivial = true }
func (w *World) Probe(name string) { w.Counts["probe:"+name]++ }

// Nontrivial marks the run as one that exercised what the property is about.
func (w *World) Nontrivial()        { w.nontrivial = true }
func (w *World) IsNontrivial() bool { return w.nontrivial || w.K.Switches > 0 }

// Record notes a violation without ending the run.
func (w *World) Record(class, detail string) {
	if w.Known != nil && w.Known(class, detail) {
		w.KnownHits = append(w.KnownHits, class)
		return
	}
	if w.V == nil {
		w.V = &Violation{class, detail}
		w.Logf("VIOLATION %s: %s", class, detail)
	}
}

// Fail records a violation and, unless it is a listed finding, ends the run.
func (w *World) Fail(class, f string, a ...interface{}) {
	w.Record(class, fmt.Sprintf(f, a...))
	if w.V != nil && simrt.Current() != nil {
		w.K.Halt()
	}
}

// Panic describes an operation that did not return.
type Panic struct {
	Val   interface{}
	Hang  bool
	Draws bool
	Where string
}

func (p *Panic) String() string {
	switch {
	case p == nil:
		return "ok"
	case p.Draws:
		return "no result after " + fmt.Sprint(maxDraws) + " random draws"
	case p.Hang:
		return fmt.Sprintf("no result after %v steps", p.Val)
	}
	return fmt.Sprintf("panic: %v at %s", p.Val, p.Where)
}

func (p *Panic) Class() string {
	if p.Hang || p.Draws {
		return "hang"
	}
	return "crash"
}

const defaultBudget = 60_000_000

// Try runs one operation of the code under test and reports how it ended if it
// did not return: a panic, the step budget, or the draw limit.
func (t *T) Try(name string, f func()) *Panic { return t.TryBudget(name, defaultBudget, f) }

func (t *T) TryBudget(name string, budget int64, f func()) (p *Panic) {
	w := t.W
	simrt.Point()
	w.Ops++
	if t.Rand != nil {
		t.Rand.draws = 0
	}
	w.K.BeginOp(budget)
	func() {
		defer func() {
			if r := recover(); r != nil {
				p = &Panic{Val: r}
				if h, ok := r.(simrt.Hang); ok {
					p.Hang, p.Val = true, h.Steps
				} else if _, ok := r.(drawLimit); ok {
					p.Draws = true
				}
				p.Where = where(string(debug.Stack()))
			}
		}()
		f()
	}()
	w.K.EndOp()
	if p != nil {
		w.Logf("%s -> %s", name, p)
	} else {
		w.Logf("%s", name)
	}
	simrt.Point()
	return p
}

// Do is Try where not returning is itself a violation of the property.
func (t *T) Do(name string, f func()) {
	if p := t.Try(name, f); p != nil {
		t.W.Fail(p.Class(), "%s: %s", name, p)
	}
}

// inLibrary reports whether a panic came out of gm: of the frames of gm and of the
// harness, the innermost one is gm's.
func inLibrary(st string) bool {
	if i := strings.LastIndex(st, "\npanic("); i >= 0 {
		st = st[i:]
	}
	for _, l := range strings.Split(st, "\n") {
		switch {
		case strings.HasPrefix(l, "github.com/ZZMarquis/gm/"):
			return true
		case strings.HasPrefix(l, "gmverif/simrt"), strings.HasPrefix(l, "gmverif/simsync"):
		case strings.HasPrefix(l, "gmverif/"):
			return false
		}
	}
	return false
}

// where finds the innermost gm frame of a stack trace.
func where(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if i := strings.Index(l, "/repo/"); i >= 0 {
			l = l[i+len("/repo/"):]
			if j := strings.IndexByte(l, ' '); j > 0 {
				l = l[:j]
			}
			return l
		}
		if i := strings.Index(l, "/.build/"); i >= 0 && strings.Contains(l, "__") {
			l = l[strings.LastIndexByte(l[:strings.IndexByte(l+" ", ' ')], '/')+1:]
			if j := strings.IndexByte(l, ' '); j > 0 {
				l = l[:j]
			}
			return l
		}
	}
	return "?"
}

// Hex abbreviates bytes for logs and details.
func Hex(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) <= 40 {
		return hex.EncodeToString(b)
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%x..%x(%d bytes, fnv %016x)", b[:12], b[len(b)-8:], len(b), h.Sum64())
}
