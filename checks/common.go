package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"gmverif/sim"
)

const ms = int64(1_000_000)

// edgeSizes are lengths around the word, block and padding boundaries.
var edgeSizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 47, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
	95, 96, 97, 111, 112, 115, 116, 119, 120, 121, 123, 124, 127, 128, 129, 183, 184, 191, 192, 193, 255, 256, 257}

// pickLen draws a length: mostly an edge size, sometimes log-uniform up to max.
func pickLen(l *sim.Lane, max int) int {
	if l.N(3) < 2 {
		n := edgeSizes[l.N(len(edgeSizes))]
		if n > max {
			n = max
		}
		return n
	}
	return l.LogSize(max)
}

// Guard is a slice handed to gm whose surroundings, including the memory
// between its length and capacity, are watched.
type Guard struct {
	whole []byte
	save  []byte
	lo    int
	hi    int
	cap   int
}

// guarded copies b into the middle of a larger canary-filled array. The slice
// it returns has spare capacity after it when spare > 0.
func guarded(r *sim.PRNG, b []byte, spare int) (*Guard, []byte) {
	pre := 8 + r.N(9)
	g := &Guard{lo: pre, hi: pre + len(b)}
	g.whole = r.Bytes(pre + len(b) + spare + 8)
	copy(g.whole[pre:], b)
	g.cap = g.hi + spare
	g.save = append([]byte(nil), g.whole...)
	return g, g.whole[g.lo:g.hi:g.cap]
}

// changed describes a modification, or returns "".
func (g *Guard) changed() string {
	if bytes.Equal(g.whole, g.save) {
		return ""
	}
	for i := range g.whole {
		if g.whole[i] != g.save[i] {
			switch {
			case i < g.lo:
				return fmt.Sprintf("byte %d before the slice changed", g.lo-i)
			case i < g.hi:
				return fmt.Sprintf("byte %d of %d of the slice changed", i-g.lo, g.hi-g.lo)
			case i < g.cap:
				return fmt.Sprintf("byte %d past the slice's length, inside its capacity, changed", i-g.hi)
			}
			return fmt.Sprintf("byte %d past the slice's capacity changed", i-g.cap)
		}
	}
	return ""
}

// faultyReader feeds a message the way a bad transport does: short reads, empty
// reads, errors in between (the caller retries), data together with EOF.
type faultyReader struct {
	w     *sim.World
	t     *sim.T
	data  []byte
	pos   int
	stall bool
}

var errFeed = errors.New("simulated read error")

func (f *faultyReader) Read(p []byte) (int, error) {
	if f.pos >= len(f.data) {
		return 0, io.EOF
	}
	n := len(f.data) - f.pos
	if n > len(p) {
		n = len(p)
	}
	k := f.w.Fault.W(6, 4, 1, 1, 1)
	switch k {
	case 1:
		m := 1 + f.w.Fault.N(70)
		if n > m {
			n = m
			f.w.Fired("read-short")
		}
	case 2:
		f.w.Fired("read-error")
		m := f.w.Fault.N(5)
		if n > m {
			n = m
		}
		copy(p, f.data[f.pos:f.pos+n])
		f.pos += n
		return n, errFeed
	case 3:
		f.w.Fired("read-empty")
		return 0, nil
	case 4:
		f.w.Fired("read-delay")
		f.t.Sleep(int64(1+f.w.Fault.N(50)) * ms)
	}
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.pos == len(f.data) && n > 0 {
		return n, io.EOF
	}
	return n, nil
}

func isErr(err error) string {
	if err == nil {
		return "no error"
	}
	return err.Error()
}
