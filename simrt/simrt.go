// Package simrt is the simulator kernel. Simulated threads are goroutines of
// which exactly one holds the token at any time; who gets it next, and at which
// statement of the code under test it is taken away, is decided only by the
// choice functions the run installs. Statement-level yield points call Y; they
// are inserted by cmd/instr in a build-time overlay, never in /repo itself.
package simrt

import (
	"container/heap"
	"math"
	"reflect"
)

const MaxSites = 1 << 14

const never = math.MaxInt64 / 2

var (
	trap   [MaxSites]int64 // visits until the site asks the policy; never: not in this run
	visits [MaxSites]int64 // length of the countdown trap is in
	hit    [MaxSites]bool
	left   int64 = math.MaxInt64
	k      *Kernel
)

func init() { setTraps(nil) }

// setTraps starts every site's countdown, to its next visit if on holds for it.
func setTraps(on func(site int) bool) {
	for i := range trap {
		if trap[i] != visits[i] {
			hit[i] = true
		}
		n := int64(never)
		if on != nil && on(i) {
			n = 1
		}
		trap[i], visits[i] = n, n
	}
}

// Y is the yield point before every statement of the code under test.
func Y(site int) {
	trap[site]--
	left--
	if left <= 0 || trap[site] == 0 {
		slow(site)
	}
}

var mapsInUse []mapInUse

type mapInUse struct {
	t     *Task
	p     uintptr
	write bool
}

// M stands before a statement that reads or writes a map. The access lasts from
// here to the statement: another thread that gets to one of its own meanwhile,
// one of the two being a write, is what the Go runtime ends the process for.
func M(site int, write bool, m func() interface{}) {
	if k == nil || k.cur == nil || !k.cur.inOp {
		return
	}
	p := mapPointer(m)
	if p == 0 {
		return
	}
	t := k.cur
	for _, u := range mapsInUse {
		if u.p == p && u.t != t && (u.write || write) {
			panic("fatal error: concurrent map access")
		}
	}
	mapsInUse = append(mapsInUse, mapInUse{t, p, write})
	Y(site)
	for i, u := range mapsInUse {
		if u.t == t && u.p == p && u.write == write {
			mapsInUse = append(mapsInUse[:i], mapsInUse[i+1:]...)
			break
		}
	}
}

func mapPointer(m func() interface{}) (p uintptr) {
	defer func() { recover() }()
	v := reflect.ValueOf(m())
	if v.Kind() == reflect.Map {
		p = v.Pointer()
	}
	return
}

// Sites returns the yield points reached in this process.
func Sites() []int {
	var s []int
	for i, h := range hit {
		if h || trap[i] != visits[i] {
			s = append(s, i)
		}
	}
	return s
}

// Task is one simulated thread.
type Task struct {
	ID     int
	Name   string
	Ctx    interface{}
	resume chan struct{}
	done   bool
	wait   func() bool
	why    string
	inOp   bool
	steps  int64 // yields executed in the current operation
	budget int64
	own    bool // started by the code under test: see Go
	dead   bool // never runs again
}

// Hang is the panic value that unwinds an operation that exceeded its budget.
type Hang struct{ Steps int64 }

// Stuck is reported when no task can run and no timer is pending.
type Stuck struct{ Tasks []string }

// Policy decides the schedule. Gap is asked after every switch for the number
// of yields until the next preemption (0: none until the operation ends); Pick
// chooses among n runnable tasks (0: the current one, if it can run).
// AtTarget reports whether to preempt at the target site this time; Aim reports
// whether the site where a preemption just struck becomes the target. If Rare,
// preemptions strike by place rather than by time: only some sites count, and
// only on their 1st, 2nd, 4th, 8th... visit in an operation, and RareGap is asked
// for the number of such visits until the next preemption (0: none until a
// switch).
type Policy interface {
	Gap() int64
	Pick(n int) int
	Aim() bool
	AtTarget() bool
	Rare() (bool, func(site int) bool)
	RareGap() int64
}

type timer struct {
	at, seq int64
	f       func()
}
type timers []timer

func (h timers) Len() int { return len(h) }
func (h timers) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h timers) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *timers) Push(x interface{}) { *h = append(*h, x.(timer)) }
func (h *timers) Pop() interface{} {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	return t
}

type Kernel struct {
	Tasks     []*Task
	cur       *Task
	Now       int64 // simulated nanoseconds
	tq        timers
	seq       int64
	pol       Policy
	quantum   int64
	Steps     int64
	Switches  int // preemptions inside operations
	Points    int // scheduling decisions with more than one candidate
	SchedHash uint64
	Stuck     *Stuck
	over      chan struct{}
	halted    bool
	target    int
	rare      bool
	traps     [MaxSites]bool
	rareLeft  int64
}

func New(p Policy) *Kernel {
	old := k
	k = &Kernel{pol: p, over: make(chan struct{}, 1), SchedHash: 14695981039346656037, target: -1}
	k.adopt(old)
	left = math.MaxInt64
	setTraps(nil)
	mapsInUse = nil
	return k
}

// Current returns the running task, or nil outside a simulation.
func Current() *Task {
	if k == nil {
		return nil
	}
	return k.cur
}

func Active() *Kernel { return k }

func (k *Kernel) mix(v uint64) { k.SchedHash = (k.SchedHash ^ v) * 1099511628211 }

// Spawn adds a task; it starts running when first picked.
func (k *Kernel) Spawn(name string, ctx interface{}, f func(*Task)) *Task {
	t := &Task{ID: len(k.Tasks), Name: name, Ctx: ctx, resume: make(chan struct{}, 1)}
	k.Tasks = append(k.Tasks, t)
	go func() {
		<-t.resume
		f(t)
		t.done = true
		Active().leave(t)
	}()
	return t
}

// Run hands the token to the first task and returns when every task is done,
// none can run, or Halt was called.
func (k *Kernel) Run() {
	if len(k.Tasks) == 0 {
		return
	}
	rare, on := k.pol.Rare()
	if k.rare = rare; rare {
		for i := range k.traps {
			k.traps[i] = on(i)
		}
	}
	n := k.pick(nil)
	k.cur = n
	k.arm(n)
	n.resume <- struct{}{}
	<-k.over
	left = math.MaxInt64
	setTraps(nil)
	k.cur = nil
}

// Halt ends the run from inside the current task; the caller never returns and
// all other tasks stay parked where they are.
func (k *Kernel) Halt() {
	if k.cur != nil {
		k.cur.dead = true
	}
	k.stop()
	select {}
}

func (k *Kernel) stop() {
	left = math.MaxInt64
	if !k.halted {
		k.halted = true
		k.over <- struct{}{}
	}
}

func (k *Kernel) runnable(self *Task) []*Task {
	var r []*Task
	if self != nil && !self.done && (self.wait == nil || self.wait()) {
		r = append(r, self)
	}
	for _, t := range k.Tasks {
		if t != self && !t.done && !t.dead && (t.wait == nil || t.wait()) {
			r = append(r, t)
		}
	}
	return r
}

// fire runs the timers that are due.
func (k *Kernel) fire() {
	for len(k.tq) > 0 && k.tq[0].at <= k.Now {
		heap.Pop(&k.tq).(timer).f()
	}
}

func (k *Kernel) pick(self *Task) *Task {
	for {
		k.fire()
		r := k.runnable(self)
		if len(r) > 0 {
			i := 0
			if len(r) > 1 {
				k.Points++
				i = k.pol.Pick(len(r))
			}
			if r[i] != self {
				k.mix(uint64(r[i].ID) + 1)
			}
			return r[i]
		}
		if len(k.tq) == 0 {
			return nil
		}
		k.Now = k.tq[0].at
	}
}

// arm starts t's next quantum.
func (k *Kernel) arm(t *Task) {
	q := int64(math.MaxInt64 / 2)
	if t.inOp {
		if k.rare {
			k.rareLeft = k.pol.RareGap()
		} else if g := k.pol.Gap(); g > 0 {
			q = g
		}
		if t.budget-t.steps < q {
			q = t.budget - t.steps + 1
		}
	}
	k.quantum = q
	left = q
}

func (k *Kernel) charge(t *Task) {
	used := k.quantum - left
	k.Steps += used
	if t.inOp {
		t.steps += used
	}
	k.quantum = left
}

func (k *Kernel) switchTo(self, n *Task) {
	if n == self {
		self.wait = nil
		return
	}
	k.cur = n
	n.wait = nil
	k.arm(n)
	n.resume <- struct{}{}
	<-self.resume
}

func (k *Kernel) leave(t *Task) {
	k.charge(t)
	n := k.pick(t)
	if n == nil {
		if k.waiting() {
			k.stuck()
		}
		k.stop()
		return
	}
	k.cur = n
	n.wait = nil
	k.arm(n)
	n.resume <- struct{}{}
}

func (k *Kernel) stuck() {
	s := &Stuck{}
	for _, o := range k.Tasks {
		if !o.done && !o.dead {
			s.Tasks = append(s.Tasks, o.Name+": "+o.why)
		}
	}
	k.Stuck = s
}

func slow(site int) {
	trapped := trap[site] == 0
	if trapped {
		// The target asks at every visit, others ever more rarely, so that what
		// is executed once and what is executed in a loop are nearly as likely.
		switch {
		case k != nil && k.target == site:
			trap[site] = 1
		case visits[site] < 4:
			visits[site]++
			trap[site] = 1
		default:
			trap[site] = 7 * visits[site]
			visits[site] *= 8
		}
	}
	if k == nil || k.cur == nil {
		left = math.MaxInt64
		return
	}
	t := k.cur
	expired := left <= 0
	k.charge(t)
	if t.inOp && t.steps > t.budget {
		s := t.steps
		t.steps, t.budget = 0, math.MaxInt64/4
		k.quantum, left = math.MaxInt64/2, math.MaxInt64/2
		panic(Hang{s})
	}
	switch {
	case expired:
		if k.target < 0 && k.pol.Aim() {
			k.target = site
			trap[site], visits[site] = 1, never
		}
	case k.rare:
		if !t.inOp || k.rareLeft <= 0 {
			return
		}
		if k.rareLeft--; k.rareLeft > 0 {
			return
		}
	default:
		if !k.pol.AtTarget() {
			return
		}
	}
	n := k.pick(t)
	if n != t {
		k.Switches++
		k.mix(uint64(site) + 1000)
		k.switchTo(t, n)
		return
	}
	k.arm(t)
}

// Point is an explicit scheduling point between operations.
func Point() {
	if k == nil || k.cur == nil {
		return
	}
	t := k.cur
	k.charge(t)
	n := k.pick(t)
	if n != t {
		k.switchTo(t, n)
	} else {
		k.arm(t)
	}
}

// Block parks the current task until ready() holds.
func Block(why string, ready func() bool) {
	if ready() {
		return
	}
	if k == nil || k.cur == nil {
		panic("simrt: blocking forever outside the simulation on " + why)
	}
	t := k.cur
	k.charge(t)
	t.wait, t.why = ready, why
	n := k.pick(t)
	if n == nil {
		if k.waiting() {
			k.stuck()
			t.dead = true
			k.stop()
			select {}
		}
		k.stop()
		<-t.resume
		t.wait = nil
		return
	}
	if n == t {
		t.wait = nil
		k.arm(t)
		return
	}
	k.switchTo(t, n)
}

// After schedules f (which must not block) at Now+d.
func (k *Kernel) After(d int64, f func()) {
	if d < 0 {
		d = 0
	}
	k.seq++
	heap.Push(&k.tq, timer{k.Now + d, k.seq, f})
}

// Sleep suspends the current task for d simulated nanoseconds.
func Sleep(d int64) {
	if k == nil || k.cur == nil || d <= 0 {
		return
	}
	due := false
	k.After(d, func() { due = true })
	Block("sleep", func() bool { return due })
}

// BeginOp starts an operation of the code under test with a step budget.
func (k *Kernel) BeginOp(budget int64) {
	t := k.cur
	k.charge(t)
	t.inOp, t.steps, t.budget = true, 0, budget
	if k.rare {
		setTraps(func(i int) bool { return k.traps[i] })
	}
	k.mix(uint64(t.ID) + 77)
	k.arm(t)
}

// EndOp ends it and returns the yields it executed.
func (k *Kernel) EndOp() int64 {
	t := k.cur
	k.charge(t)
	s := t.steps
	t.inOp = false
	k.arm(t)
	return s
}
