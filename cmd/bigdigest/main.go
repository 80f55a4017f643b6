// Command bigdigest prints the known answers of checks/bigconst.go using only
// the reference model.
package main

import (
	"fmt"

	"gmverif/ref"
)

func main() {
	var s ref.SM3State
	s.Init()
	buf := make([]byte, 1<<20)
	var n int64
	for _, m := range []struct {
		at   int64
		name string
	}{{1<<29 - 1, "big2p29m1"}, {1 << 29, "big2p29"}, {1<<29 + 3, "big2p29p3"}, {1<<31 - 1, "big2p31m1"}, {1<<31 + 5, "big2p31p5"}} {
		for n < m.at {
			k := m.at - n
			if k > 1<<20 {
				k = 1 << 20
			}
			s.Write(buf[:k])
			n += k
		}
		fmt.Printf("\t%s = \"%x\"\n", m.name, s.Sum())
	}
}
