package simrt

import "reflect"

// Goroutines and channels of the code under test. A go statement becomes Go, which
// starts a simulated thread; channel operations wait in the simulator until they
// can proceed and are then executed for real. An unbuffered channel is one with a
// capacity of Unbuffered whose senders wait until their value was taken.

const Unbuffered = 1021

func Capacity(n int) int {
	if n == 0 {
		return Unbuffered
	}
	return n
}

// OnPanic is called, in its own thread, when a goroutine of the code under test
// panics: the Go runtime would end the process. OnGo is called when one starts.
var (
	OnPanic func(t *Task, r interface{})
	OnGo    func(t *Task)
	early   []func() // started before any run, by package initialisation
)

const goBudget = 60_000_000

// Go is the go statement.
func Go(f func()) {
	if k == nil || k.cur == nil {
		early = append(early, f)
		return
	}
	p := k.cur
	k.own(f, p.Name+".go", p.Ctx)
	if p.inOp {
		Point()
	}
}

func (kk *Kernel) own(f func(), name string, ctx interface{}) {
	t := kk.Spawn(name, ctx, func(t *Task) {
		defer func() {
			if r := recover(); r != nil {
				if OnPanic != nil {
					OnPanic(t, r)
				}
				Active().Halt()
			}
		}()
		t.inOp, t.steps, t.budget = true, 0, goBudget
		Active().arm(t)
		f()
	})
	t.own = true
	if OnGo != nil {
		OnGo(t)
	}
}

// adopt takes over the goroutines that outlived the run before: workers of the
// code under test that wait for something to do.
func (kk *Kernel) adopt(old *Kernel) {
	if old != nil {
		for _, t := range old.Tasks {
			if t.own && !t.done && !t.dead {
				t.ID = len(kk.Tasks)
				t.steps = 0
				kk.Tasks = append(kk.Tasks, t)
			}
		}
	}
	e := early
	early = nil
	for _, f := range e {
		kk.own(f, "init.go", nil)
	}
}

// waiting reports whether a thread of the simulation, not one the code under test
// started, has not finished.
func (kk *Kernel) waiting() bool {
	for _, t := range kk.Tasks {
		if !t.done && !t.own {
			return true
		}
	}
	return false
}

// Bind evaluates the function and arguments of a go statement.
func Bind(f interface{}, args ...interface{}) func() {
	if g, ok := f.(func()); ok && len(args) == 0 {
		return g
	}
	v := reflect.ValueOf(f)
	in := bindArgs(v.Type(), args, false)
	return func() { v.Call(in) }
}

func BindSlice(f interface{}, args ...interface{}) func() {
	v := reflect.ValueOf(f)
	in := bindArgs(v.Type(), args, true)
	return func() { v.CallSlice(in) }
}

func bindArgs(t reflect.Type, args []interface{}, slice bool) []reflect.Value {
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var p reflect.Type
		if t.IsVariadic() && !slice && i >= t.NumIn()-1 {
			p = t.In(t.NumIn() - 1).Elem()
		} else {
			p = t.In(i)
		}
		in[i] = as(a, p)
	}
	return in
}

func as(a interface{}, p reflect.Type) reflect.Value {
	if a == nil {
		return reflect.Zero(p)
	}
	v := reflect.ValueOf(a)
	if !v.Type().AssignableTo(p) && v.Type().ConvertibleTo(p) {
		v = v.Convert(p)
	}
	return v
}

type rendezvous struct{ sent, took int }

var meetings = map[uintptr]*rendezvous{}

// Send is the send statement.
func Send(ch, val interface{}) {
	c := reflect.ValueOf(ch)
	if c.IsNil() {
		Block("send on a nil channel", func() bool { return false })
	}
	v := as(val, c.Type().Elem())
	if c.Cap() != Unbuffered {
		Block("channel send", func() bool { return c.Len() < c.Cap() || closedFull(c, v) })
		c.Send(v)
		return
	}
	c.Send(v)
	p := c.Pointer()
	m := meetings[p]
	if m == nil {
		m = &rendezvous{}
		meetings[p] = m
	}
	m.sent++
	n := m.sent
	Block("channel send", func() bool { return m.took >= n })
	if m.took == m.sent && meetings[p] == m {
		delete(meetings, p)
	}
}

func closedFull(c, v reflect.Value) (closed bool) {
	defer func() {
		if recover() != nil {
			closed = true
		}
	}()
	c.TrySend(v)
	return false
}

func ready(c reflect.Value) bool {
	if c.IsNil() {
		return false
	}
	if c.Len() > 0 {
		return true
	}
	x, _ := c.TryRecv() // empty: a value only if it is closed
	return x.IsValid()
}

// WaitRecv waits until a receive can proceed.
func WaitRecv(ch interface{}) {
	c := reflect.ValueOf(ch)
	Block("channel receive", func() bool { return ready(c) })
}

// WaitAny waits until one of the receives can.
func WaitAny(why string, chs ...interface{}) {
	Block(why, func() bool {
		for _, ch := range chs {
			if ready(reflect.ValueOf(ch)) {
				return true
			}
		}
		return false
	})
}

// Took follows every receive.
func Took(ch interface{}) {
	if m := meetings[reflect.ValueOf(ch).Pointer()]; m != nil && m.took < m.sent {
		m.took++
	}
}
