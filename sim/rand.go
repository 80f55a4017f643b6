package sim

import (
	"crypto/rand"
	"errors"
	"io"

	"gmverif/simrt"
)

// The randomness seam: crypto/rand.Reader is replaced for the whole process by
// a reader that serves the stream of whichever simulated thread is running.
// gm reads the variable at every use; simrt is initialised before gm, but this
// package replaces the variable in its own init, before any simulation starts.

type drawLimit struct{}

const maxDraws = 5000 // Read calls per operation

var ErrRand = errors.New("simulated randomness failure")

// RandStream is the randomness one operation sees.
type RandStream struct {
	rng   *PRNG
	draws int
	Reads int // Read calls so far, over the stream's life
	Got   int // bytes delivered
	Data  []byte
	keep  bool

	Prefix  []byte // delivered before the healthy stream
	FailAt  int    // the FailAt-th Read call (1-based) fails; 0 never
	FailN   int    // bytes delivered together with the error
	FailErr error
	Failed  bool
	Short   int // at most this many bytes per Read; 0 unlimited
	Empty   int // this many Reads return (0, nil) first
	Stall   int64
	StallAt int
	w       *World
}

// NewRand makes a healthy stream that keeps what it delivers.
func (w *World) NewRand(seed *PRNG) *RandStream {
	return &RandStream{rng: seed, keep: true, w: w}
}

func (s *RandStream) Read(p []byte) (int, error) {
	s.draws++
	s.Reads++
	if s.draws > maxDraws {
		panic(drawLimit{})
	}
	fire := func(k string) {
		if s.w != nil {
			s.w.Fired(k)
		}
	}
	if s.Stall > 0 && (s.StallAt == 0 || s.Reads == s.StallAt) {
		fire("rand-stall")
		simrt.Sleep(s.Stall)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.Empty > 0 {
		s.Empty--
		fire("rand-empty-read")
		return 0, nil
	}
	n := len(p)
	if s.Short > 0 && n > s.Short {
		n = s.Short
		fire("rand-short-read")
	}
	var err error
	if s.FailAt > 0 && s.Reads >= s.FailAt {
		if n > s.FailN {
			n = s.FailN
		}
		err = s.FailErr
		s.Failed = true
		if err == io.EOF {
			fire("rand-eof")
		} else {
			fire("rand-error")
		}
		if n > 0 {
			fire("rand-partial-then-error")
		}
	}
	c := copy(p[:n], s.Prefix)
	s.Prefix = s.Prefix[c:]
	s.rng.Fill(p[c:n])
	s.Got += n
	if s.keep {
		s.Data = append(s.Data, p[:n]...)
	}
	return n, err
}

type switchReader struct{ cur *RandStream }

var rand0 = &switchReader{}
var idle = &RandStream{rng: NewPRNG(7)}

func (r *switchReader) Read(p []byte) (int, error) {
	if t := simrt.Current(); t != nil {
		if st, ok := t.Ctx.(*T); ok && st.Rand != nil {
			return st.Rand.Read(p)
		}
	}
	idle.draws = 0
	return idle.Read(p)
}

func init() { rand.Reader = rand0 }

// ResetDraws starts a new draw limit for a stream that outlives an operation.
func ResetDraws(s *RandStream) { s.draws = 0 }
