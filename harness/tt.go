// Package harness holds property-based checks for logicng-go.
package harness

import (
	"math/bits"
)

// TT is a truth table over n variables: bit i gives the value under the
// assignment where variable v is true iff bit v of i is set.
type TT struct {
	N int
	W []uint64
}

func ttWords(n int) int {
	if n <= 6 {
		return 1
	}
	return 1 << (n - 6)
}

func ttMask(n int) uint64 {
	if n >= 6 {
		return ^uint64(0)
	}
	return (uint64(1) << (uint(1) << uint(n))) - 1
}

var ttPat = [6]uint64{0xAAAAAAAAAAAAAAAA, 0xCCCCCCCCCCCCCCCC, 0xF0F0F0F0F0F0F0F0, 0xFF00FF00FF00FF00, 0xFFFF0000FFFF0000, 0xFFFFFFFF00000000}

func ttConst(n int, v bool) TT {
	t := TT{n, make([]uint64, ttWords(n))}
	if v {
		for i := range t.W {
			t.W[i] = ^uint64(0)
		}
		t.W[len(t.W)-1] &= ttMask(n)
		if n < 6 {
			t.W[0] = ttMask(n)
		}
	}
	return t
}

func ttVar(n, v int) TT {
	t := ttConst(n, false)
	for i := range t.W {
		if v < 6 {
			t.W[i] = ttPat[v] & ttMask(n)
		} else if i>>(v-6)&1 == 1 {
			t.W[i] = ^uint64(0)
		}
	}
	return t
}

func ttLit(n, v int, pos bool) TT {
	t := ttVar(n, v)
	if !pos {
		return t.Not()
	}
	return t
}

func (a TT) clone() TT { return TT{a.N, append([]uint64(nil), a.W...)} }

func (a TT) Not() TT {
	r := a.clone()
	m := ttMask(a.N)
	for i := range r.W {
		r.W[i] = ^r.W[i] & m
	}
	return r
}

func (a TT) And(b TT) TT {
	r := a.clone()
	for i := range r.W {
		r.W[i] &= b.W[i]
	}
	return r
}

func (a TT) Or(b TT) TT {
	r := a.clone()
	for i := range r.W {
		r.W[i] |= b.W[i]
	}
	return r
}

func (a TT) Xor(b TT) TT {
	r := a.clone()
	for i := range r.W {
		r.W[i] ^= b.W[i]
	}
	return r
}

func (a TT) Imp(b TT) TT { return a.Not().Or(b) }
func (a TT) Eqv(b TT) TT { return a.Xor(b).Not() }
func (a TT) Equal(b TT) bool {
	if a.N != b.N {
		return false
	}
	for i := range a.W {
		if a.W[i] != b.W[i] {
			return false
		}
	}
	return true
}
func (a TT) Get(i int) bool { return a.W[i>>6]>>(uint(i)&63)&1 == 1 }
func (a TT) Set(i int, v bool) {
	if v {
		a.W[i>>6] |= 1 << (uint(i) & 63)
	} else {
		a.W[i>>6] &^= 1 << (uint(i) & 63)
	}
}
func (a TT) Count() int {
	c := 0
	for _, w := range a.W {
		c += bits.OnesCount64(w)
	}
	return c
}
func (a TT) IsFalse() bool { return a.Count() == 0 }
func (a TT) IsTrue() bool  { return a.Count() == 1<<a.N }

// Cof returns the cofactor for v=val as a table over the same variables.
func (a TT) Cof(v int, val bool) TT {
	r := ttConst(a.N, false)
	for i := 0; i < 1<<a.N; i++ {
		j := i &^ (1 << v)
		if val {
			j |= 1 << v
		}
		if a.Get(j) {
			r.Set(i, true)
		}
	}
	return r
}

func (a TT) Exists(v int) TT { return a.Cof(v, true).Or(a.Cof(v, false)) }
func (a TT) Forall(v int) TT { return a.Cof(v, true).And(a.Cof(v, false)) }

// DependsOn reports whether the function depends on variable v.
func (a TT) DependsOn(v int) bool { return !a.Cof(v, true).Equal(a.Cof(v, false)) }

// Implies reports a => b.
func (a TT) Implies(b TT) bool { return a.And(b.Not()).IsFalse() }

func (a TT) Indices() []int {
	var r []int
	for i := 0; i < 1<<a.N; i++ {
		if a.Get(i) {
			r = append(r, i)
		}
	}
	return r
}

// Proj returns the set of assignments to vars (as bit patterns in the order of
// vars) which extend to a model.
func (a TT) Proj(vars []int) map[int]bool {
	res := map[int]bool{}
	for i := 0; i < 1<<a.N; i++ {
		if a.Get(i) {
			res[projIdx(i, vars)] = true
		}
	}
	return res
}

func projIdx(i int, vars []int) int {
	x := 0
	for k, v := range vars {
		if i>>v&1 == 1 {
			x |= 1 << k
		}
	}
	return x
}
