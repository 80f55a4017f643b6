package main

import (
	"runtime"
	"sync"
	"time"
)

// minimiser shrinks the recorded choices of a failing replay while the same
// violation class persists. Every candidate runs in its own process.
type minimiser struct {
	try   func(idx []int, lanes [][3][]uint32) (*runOut, bool)
	idx   []int
	lanes [][3][]uint32
	best  *runOut
	end   time.Time
	Tried int
}

type cand struct {
	idx   []int
	lanes [][3][]uint32
}

func (m *minimiser) over() bool { return time.Now().After(m.end) }

// first evaluates candidates in parallel batches and adopts the first success.
func (m *minimiser) first(cs []cand) int {
	par := runtime.NumCPU()
	for i := 0; i < len(cs) && !m.over(); i += par {
		e := i + par
		if e > len(cs) {
			e = len(cs)
		}
		oks := make([]*runOut, e-i)
		var wg sync.WaitGroup
		for j := i; j < e; j++ {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				if o, ok := m.try(cs[j].idx, cs[j].lanes); ok {
					oks[j-i] = o
				}
			}(j)
		}
		wg.Wait()
		m.Tried += e - i
		for j := range oks {
			if oks[j] != nil {
				m.idx, m.lanes, m.best = cs[i+j].idx, cs[i+j].lanes, oks[j]
				// Keep the choices actually used, without what was never read.
				if len(oks[j].Lanes) > 0 && len(oks[j].Lanes) <= len(m.lanes) {
					m.lanes = oks[j].Lanes
					m.idx = m.idx[:len(m.lanes)]
				}
				return i + j
			}
		}
	}
	return -1
}

func (m *minimiser) with(run, lane int, l []uint32) cand {
	ls := append([][3][]uint32(nil), m.lanes...)
	ls[run][lane] = l
	return cand{m.idx, ls}
}

func (m *minimiser) run() {
	// Drop earlier runs of a composite.
	for len(m.idx) > 1 && !m.over() {
		var cs []cand
		n := len(m.idx) - 1
		for size := n; size >= 1; size /= 2 {
			for i := 0; i+size <= n; i += size {
				ix := append(append([]int(nil), m.idx[:i]...), m.idx[i+size:]...)
				ls := append(append([][3][]uint32(nil), m.lanes[:i]...), m.lanes[i+size:]...)
				cs = append(cs, cand{ix, ls})
			}
		}
		if m.first(cs) < 0 {
			break
		}
	}
	trim := func(l []uint32) []uint32 {
		for len(l) > 0 && l[len(l)-1] == 0 {
			l = l[:len(l)-1]
		}
		return l
	}
	for progress := true; progress && !m.over(); {
		progress = false
		for run := 0; run < len(m.idx); run++ {
			for _, lane := range []int{1, 2, 0} {
				// Truncate.
				for !m.over() {
					l := trim(m.lanes[run][lane])
					var cs []cand
					for c := len(l); c >= 1; c /= 2 {
						cs = append(cs, m.with(run, lane, append([]uint32(nil), l[:len(l)-c]...)))
					}
					if m.first(cs) < 0 {
						break
					}
					progress = true
				}
				// Zero and delete blocks.
				for size := len(m.lanes[run][lane]); size >= 1 && !m.over(); size /= 2 {
					for again := true; again && !m.over(); {
						again = false
						l := m.lanes[run][lane]
						var cs []cand
						for i := 0; i < len(l); i += size {
							e := i + size
							if e > len(l) {
								e = len(l)
							}
							del := append(append([]uint32(nil), l[:i]...), l[e:]...)
							cs = append(cs, m.with(run, lane, del))
							nz := false
							z := append([]uint32(nil), l...)
							for j := i; j < e; j++ {
								nz = nz || z[j] != 0
								z[j] = 0
							}
							if nz {
								cs = append(cs, m.with(run, lane, z))
							}
						}
						if len(cs) > 400 {
							cs = cs[:400]
						}
						before := weight(m.lanes)
						if m.first(cs) >= 0 && weight(m.lanes) < before {
							again, progress = true, true
						}
					}
				}
				// Lower values.
				l := m.lanes[run][lane]
				for i := 0; i < len(l) && i < 200 && !m.over(); i++ {
					for !m.over() && i < len(m.lanes[run][lane]) {
						v := m.lanes[run][lane][i]
						var cs []cand
						for _, nv := range []uint32{0, v / 2, v - 1} {
							if v > 0 && nv < v {
								c := append([]uint32(nil), m.lanes[run][lane]...)
								c[i] = nv
								cs = append(cs, m.with(run, lane, c))
							}
						}
						before := weight(m.lanes)
						if len(cs) == 0 || m.first(cs) < 0 || weight(m.lanes) >= before {
							break
						}
						progress = true
					}
				}
			}
		}
	}
}

// weight orders candidates: fewer choices, then smaller ones.
func weight(ls [][3][]uint32) float64 {
	w := 0.0
	for _, r := range ls {
		for _, l := range r {
			for _, v := range l {
				w += 1
				if v > 0 {
					w += 1 + float64(v)/(1<<33)
				}
			}
		}
	}
	return w
}
