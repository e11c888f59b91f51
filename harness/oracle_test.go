package harness

import (
	"testing"

	"pgregory.net/rapid"
)

// TestOracle checks the harness' own SAT procedure against truth tables.
func TestOracle(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		nv := rapid.IntRange(1, 9).Draw(t, "nv")
		n := rapid.IntRange(1, nv).Draw(t, "n")
		k := rapid.IntRange(0, 40).Draw(t, "k")
		tt := ttConst(nv, true)
		var cls [][]int
		for i := 0; i < k; i++ {
			c := ttConst(nv, false)
			var d []int
			for j := rapid.IntRange(1, 4).Draw(t, "len"); j > 0; j-- {
				l := genLit(t, nv)
				c = c.Or(ttLit(nv, l.V, l.Pos))
				x := 2 * l.V
				if !l.Pos {
					x++
				}
				d = append(d, x)
			}
			cls = append(cls, d)
			tt = tt.And(c)
		}
		got := newCNFS(nv, cls).Projection(n)
		for v := n; v < nv; v++ {
			tt = tt.Exists(v)
		}
		for i := 0; i < 1<<n; i++ {
			if got.Get(i) != tt.Get(i) {
				t.Fatalf("%v: projection to %d wrong at %d", cls, n, i)
			}
		}
	})
}

// TestChainOracle checks the dynamic programs over chains.
func TestChainOracle(t *testing.T) { rapid.Check(t, selfCheckChain) }
