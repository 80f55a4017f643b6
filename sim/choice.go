// Package sim runs one simulated execution: choices, the world and its event
// log, the randomness seam, and the operation wrapper around gm calls.
package sim

import (
	"hash/fnv"
)

// PRNG is splitmix64.
type PRNG struct{ s uint64 }

func NewPRNG(seed uint64) *PRNG { return &PRNG{seed} }
func (p *PRNG) U64() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (p *PRNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.U64() % uint64(n))
}
func (p *PRNG) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := p.U64()
		for j := i; j < len(b) && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}
func (p *PRNG) Bytes(n int) []byte {
	b := make([]byte, n)
	p.Fill(b)
	return b
}

// Seed derives an independent seed from a list of parts.
func Seed(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case int:
			var b [8]byte
			for i := range b {
				b[i] = byte(v >> (8 * i))
			}
			h.Write(b[:])
		case int64:
			var b [8]byte
			for i := range b {
				b[i] = byte(v >> (8 * i))
			}
			h.Write(b[:])
		default:
			panic("sim.Seed")
		}
		h.Write([]byte{0})
	}
	return NewPRNG(h.Sum64()).U64()
}

// Lane is one recorded stream of bounded choices. A fresh run draws from its
// PRNG and records; a replay reads the record, and past its end every choice is
// 0, which is everywhere the simplest one: no fault, no preemption, first item.
type Lane struct {
	rng    *PRNG
	Rec    []uint32
	replay bool
	src    []uint32
	pos    int
}

// NewLane makes a lane outside a run, for the driver's own probing.
func NewLane(seed uint64, src []uint32, replay bool) *Lane {
	return &Lane{rng: NewPRNG(seed), src: src, replay: replay}
}

func (l *Lane) put(n int, v int) int {
	if l.replay {
		v = 0
		if l.pos < len(l.src) {
			v = int(l.src[l.pos])
		}
		l.pos++
		if v >= n {
			v = n - 1
		}
	}
	l.Rec = append(l.Rec, uint32(v))
	return v
}

// N is uniform in [0,n).
func (l *Lane) N(n int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	if !l.replay {
		v = l.rng.N(n)
	}
	return l.put(n, v)
}

// P is true with probability 1/n.
func (l *Lane) P(n int) bool {
	v := 0
	if !l.replay && l.rng.N(n) == 0 {
		v = 1
	}
	return l.put(2, v) == 1
}

// Gen records a value in [0,n) drawn by f.
func (l *Lane) Gen(n int, f func(*PRNG) int) int {
	v := 0
	if !l.replay {
		v = f(l.rng)
		if v < 0 {
			v = 0
		}
		if v >= n {
			v = n - 1
		}
	}
	return l.put(n, v)
}

// W picks an index by weight.
func (l *Lane) W(w ...int) int {
	return l.Gen(len(w), func(r *PRNG) int {
		t := 0
		for _, x := range w {
			t += x
		}
		v := r.N(t)
		for i, x := range w {
			if v < x {
				return i
			}
			v -= x
		}
		return 0
	})
}

// Sub draws a seed for bulk content.
func (l *Lane) Sub() *PRNG { return NewPRNG(uint64(l.N(1<<31-1)) * 0x9e3779b97f4a7c15) }

// Range is uniform in [a,b].
func (l *Lane) Range(a, b int) int { return a + l.N(b-a+1) }

// LogSize is log-uniform in [0,max].
func (l *Lane) LogSize(max int) int {
	return l.Gen(max+1, func(r *PRNG) int {
		b := 0
		for 1<<b <= max {
			b++
		}
		k := r.N(b + 1)
		if k == 0 {
			return 0
		}
		return 1<<(k-1) + r.N(1<<(k-1))
	})
}
