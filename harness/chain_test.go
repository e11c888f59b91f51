package harness

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	"pgregory.net/rapid"
)

// A Chain is a set of constraints over many variables in which every
// constraint only mentions a window of neighboring variables, so that
// satisfiability, counts and optima are computed by dynamic programming over
// the last W values - exact oracles far beyond the reach of truth tables.
type Chain struct {
	NV, W int
	Names Names
	Fac   f.Factory
	idx   map[string]int
	Cons  []*ChainCon
}

// ChainCon is a constraint over the variables At-W..At; the local variable j
// of N is the variable At-j.
type ChainCon struct {
	At     int
	N      *N
	TT     TT
	Weight int // > 0: soft
	F      f.Formula
	names  Names
}

type chainKind struct {
	noDups  bool // no operands twice in clauses and terms which are not condensed
	clauses bool // only clauses
	g       Gen  // otherwise
	density int  // constraints per 10 variables
}

func newChain(t *rapid.T, fac f.Factory, nv, w int) *Chain {
	ch := &Chain{NV: nv, W: w, Fac: fac, Names: make(Names, nv), idx: map[string]int{}}
	// the numbering of the names is unrelated to the position in the chain
	p := make([]int, nv)
	for i := range p {
		p[i] = i
	}
	if s := rapid.IntRange(0, 1<<20).Draw(t, "numbering"); s > 0 {
		rand.New(rand.NewSource(int64(s))).Shuffle(nv, func(i, j int) { p[i], p[j] = p[j], p[i] })
	}
	for i := range p {
		ch.Names[i] = fmt.Sprintf("x%d", p[i])
		ch.idx[ch.Names[i]] = i
	}
	return ch
}

// add draws a constraint at a position.
func (ch *Chain) draw(t *rapid.T, k chainKind) *ChainCon {
	at := rapid.IntRange(min(1, ch.NV-1), ch.NV-1).Draw(t, "at")
	n := min(ch.W, at) + 1
	con := &ChainCon{At: at}
	for j := 0; j < n; j++ {
		con.names = append(con.names, ch.Names[at-j])
	}
	switch kind := rapid.IntRange(0, 9).Draw(t, "con"); {
	case k.clauses || kind <= 4:
		// distinct variables, the last one included, seldom a unit
		vs := rapid.IntRange(0, 1<<n-1).Draw(t, "vars") | 1
		if vs == 1 && n > 1 && rapid.IntRange(0, 5).Draw(t, "unit") > 0 {
			vs |= 1 << rapid.IntRange(1, n-1).Draw(t, "other")
		}
		signs := rapid.IntRange(0, 1<<n-1).Draw(t, "signs")
		var ls []*N
		for j := 0; j < n; j++ {
			if vs>>j&1 == 1 {
				ls = append(ls, nLit(j, signs>>j&1 == 1))
			}
		}
		if len(ls) == 1 {
			con.N = ls[0]
		} else {
			con.N = nOp(OpOr, ls...)
		}
	case kind == 5:
		con.N = nOp(OpEquiv, nLit(0, rapid.Bool().Draw(t, "pos")), nOp(OpEquiv, nLit(n/2, true), nLit(n-1, true)))
	default:
		g := k.g
		g.NV = n
		con.N = g.draw(t, "f")
		if k.noDups {
			con.N.noDups()
		}
	}
	con.TT = con.N.TT(n)
	if 4*con.TT.Count() < 1<<n && rapid.IntRange(0, 9).Draw(t, "strong") > 0 {
		con.N = nOp(OpNot, con.N)
		con.TT = con.N.TT(n)
	}
	con.F = con.N.Build(ch.Fac, con.names)
	return con
}

func genChain(t *rapid.T, fac f.Factory, lo, hi int, k chainKind) *Chain {
	w := rapid.IntRange(1, 4).Draw(t, "window")
	nv := rapid.IntRange(lo, hi).Draw(t, "nv")
	ch := newChain(t, fac, nv, w)
	d := rapid.IntRange(3, k.density).Draw(t, "density")
	for i := max(1, nv*d/10); i > 0; i-- {
		ch.Cons = append(ch.Cons, ch.draw(t, k))
	}
	return ch
}

func (ch *Chain) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "nv=%d w=%d", ch.NV, ch.W)
	for _, c := range ch.Cons {
		if c.Weight > 0 {
			fmt.Fprintf(&sb, " ; %d:%s", c.Weight, c.N.str(c.names))
		} else {
			fmt.Fprintf(&sb, " ; %s", c.N.str(c.names))
		}
	}
	return sb.String()
}

func (ch *Chain) formulas() []f.Formula {
	var r []f.Formula
	for _, c := range ch.Cons {
		r = append(r, c.F)
	}
	return r
}

func (ch *Chain) vars() []f.Variable {
	r := make([]f.Variable, ch.NV)
	for i := range r {
		r[i] = ch.Fac.Var(ch.Names[i])
	}
	return r
}

func (ch *Chain) lit(v int, pos bool) f.Literal { return ch.Fac.Lit(ch.Names[v], pos) }

// at groups constraints by position.
func (ch *Chain) at(cons []*ChainCon) [][]*ChainCon {
	r := make([][]*ChainCon, ch.NV)
	for _, c := range cons {
		r[c.At] = append(r[c.At], c)
	}
	return r
}

// best returns the maximal weight of satisfied soft constraints (plus the
// weight of satisfied literals of obj) under the hard ones and a partial
// assignment, -1 if there is no model.
func (ch *Chain) best(cons []*ChainCon, ass map[int]bool, obj map[L]int) int {
	by := ch.at(cons)
	mask := 1<<ch.W - 1
	cur := make([]int, 1<<ch.W)
	for i := range cur {
		cur[i] = -1
	}
	cur[0] = 0
	for v := 0; v < ch.NV; v++ {
		next := make([]int, 1<<ch.W)
		for i := range next {
			next[i] = -1
		}
		for s, w := range cur {
			if w < 0 {
				continue
			}
		values:
			for b := 0; b < 2; b++ {
				if a, ok := ass[v]; ok && a != (b == 1) {
					continue
				}
				full, x := s<<1|b, w
				for _, c := range by[v] {
					if ok := c.TT.Get(full & (1<<c.TT.N - 1)); !ok && c.Weight == 0 {
						continue values
					} else if ok {
						x += c.Weight
					}
				}
				x += obj[L{v, b == 1}]
				next[full&mask] = max(next[full&mask], x)
			}
		}
		cur = next
	}
	r := -1
	for _, w := range cur {
		r = max(r, w)
	}
	return r
}

func (ch *Chain) sat(cons []*ChainCon, ass map[int]bool) bool { return ch.best(cons, ass, nil) >= 0 }

func (ch *Chain) tables(cons []*ChainCon, ass map[int]bool) [][]*big.Int {
	by := ch.at(cons)
	mask := 1<<ch.W - 1
	zero := func() []*big.Int {
		r := make([]*big.Int, 1<<ch.W)
		for i := range r {
			r[i] = new(big.Int)
		}
		return r
	}
	ts := [][]*big.Int{zero()}
	ts[0][0].SetInt64(1)
	for v := 0; v < ch.NV; v++ {
		next := zero()
		for s, w := range ts[v] {
			if w.Sign() == 0 {
				continue
			}
		values:
			for b := 0; b < 2; b++ {
				if a, ok := ass[v]; ok && a != (b == 1) {
					continue
				}
				full := s<<1 | b
				for _, c := range by[v] {
					if !c.TT.Get(full & (1<<c.TT.N - 1)) {
						continue values
					}
				}
				next[full&mask].Add(next[full&mask], w)
			}
		}
		ts = append(ts, next)
	}
	return ts
}

// count returns the number of models over all NV variables.
func (ch *Chain) count(cons []*ChainCon, ass map[int]bool) *big.Int {
	ts := ch.tables(cons, ass)
	r := new(big.Int)
	for _, w := range ts[ch.NV] {
		r.Add(r, w)
	}
	return r
}

// sample draws models uniformly.
func (ch *Chain) sample(cons []*ChainCon, ass map[int]bool, n int, rnd *rand.Rand) [][]bool {
	ts := ch.tables(cons, ass)
	by := ch.at(cons)
	var r [][]bool
	choose := func(ws []*big.Int) int {
		sum := new(big.Int)
		for _, w := range ws {
			sum.Add(sum, w)
		}
		if sum.Sign() == 0 {
			return -1
		}
		x := new(big.Int).Rand(rnd, sum)
		for i, w := range ws {
			if x.Cmp(w) < 0 {
				return i
			}
			x.Sub(x, w)
		}
		return -1
	}
	for ; n > 0; n-- {
		s := choose(ts[ch.NV])
		if s < 0 {
			return nil
		}
		m := make([]bool, ch.NV)
		for v := ch.NV - 1; v >= 0; v-- {
			m[v] = s&1 == 1
			// the predecessors differ in the value that leaves the window
			ps := make([]*big.Int, 2)
			for h := range ps {
				p := s>>1 | h<<(ch.W-1)
				ps[h] = ts[v][p]
				for _, c := range by[v] {
					if !c.TT.Get((p<<1 | s&1) & (1<<c.TT.N - 1)) {
						ps[h] = new(big.Int)
					}
				}
			}
			h := choose(ps)
			if h < 0 {
				panic("chain sampling")
			}
			s = s>>1 | h<<(ch.W-1)
		}
		r = append(r, m)
	}
	return r
}

func (c *ChainCon) eval(m []bool) bool {
	full := 0
	for j := 0; j < c.TT.N; j++ {
		if m[c.At-j] {
			full |= 1 << j
		}
	}
	return c.TT.Get(full)
}

// model turns literals into an assignment of the chain.
func (ch *Chain) model(t *rapid.T, ls []f.Literal) map[int]bool {
	r := map[int]bool{}
	for _, l := range ls {
		name, pos, _ := ch.Fac.LitNamePhase(l)
		i, ok := ch.idx[name]
		if !ok {
			t.Fatalf("foreign variable %s", name)
		}
		if _, ok := r[i]; ok {
			t.Fatalf("variable %s assigned twice", name)
		}
		r[i] = pos
	}
	return r
}

// genAss draws a partial assignment.
func (ch *Chain) genAss(t *rapid.T, n int) (map[int]bool, []f.Literal) {
	ass := map[int]bool{}
	var ls []f.Literal
	for i := rapid.IntRange(0, n).Draw(t, "assumptions"); i > 0; i-- {
		l := genLit(t, ch.NV)
		if _, ok := ass[l.V]; ok {
			continue
		}
		ass[l.V] = l.Pos
		ls = append(ls, ch.lit(l.V, l.Pos))
	}
	return ass, ls
}

func (ch *Chain) rand(t *rapid.T) *rand.Rand {
	return rand.New(rand.NewSource(int64(rapid.Uint32().Draw(t, "rnd"))))
}

// evalF evaluates a factory formula with an own evaluator, without constraints.
func (ch *Chain) evalF(x f.Formula, m []bool, memo map[f.Formula]bool) bool {
	if v, ok := memo[x]; ok {
		return v
	}
	fac := ch.Fac
	r := false
	switch x.Sort() {
	case f.SortTrue:
		r = true
	case f.SortFalse:
	case f.SortLiteral:
		name, pos, _ := fac.LitNamePhase(f.Literal(x))
		i, ok := ch.idx[name]
		if !ok {
			panic("foreign variable " + name)
		}
		r = m[i] == pos
	case f.SortAnd:
		r = true
		for _, o := range fac.Operands(x) {
			r = ch.evalF(o, m, memo) && r
		}
	case f.SortOr:
		for _, o := range fac.Operands(x) {
			r = ch.evalF(o, m, memo) || r
		}
	default:
		panic("unexpected sort")
	}
	memo[x] = r
	return r
}

// selfCheckChain compares the dynamic programs with truth tables (used by the
// oracle self test).
func selfCheckChain(t *rapid.T) {
	fac := f.NewFactory()
	ch := genChain(t, fac, 1, 9, chainKind{g: Gen{Depth: 2, CC: true}, density: 12})
	for _, c := range ch.Cons {
		if rapid.IntRange(0, 3).Draw(t, "soft") == 0 {
			c.Weight = rapid.IntRange(1, 9).Draw(t, "weight")
		}
	}
	ass, _ := ch.genAss(t, 3)
	var hard []*ChainCon
	for _, c := range ch.Cons {
		if c.Weight == 0 {
			hard = append(hard, c)
		}
	}
	best, cnt := -1, 0
	for i := 0; i < 1<<ch.NV; i++ {
		m := make([]bool, ch.NV)
		ok := true
		for v := range m {
			m[v] = i>>v&1 == 1
			if a, has := ass[v]; has && a != m[v] {
				ok = false
			}
		}
		w := 0
		for _, c := range ch.Cons {
			// evaluation by name, independent of the window arithmetic
			idx := 0
			for j, name := range c.names {
				if m[ch.idx[name]] {
					idx |= 1 << j
				}
			}
			s := c.N.TT(len(c.names)).Get(idx)
			if s != c.eval(m) {
				t.Fatalf("eval")
			}
			if c.Weight == 0 {
				ok = ok && s
			} else if s {
				w += c.Weight
			}
		}
		if ok {
			cnt++
			best = max(best, w)
		}
	}
	if got := ch.best(ch.Cons, ass, nil); got != best {
		t.Fatalf("best %d, expected %d: %s", got, best, ch)
	}
	if got := ch.count(hard, ass); got.Cmp(big.NewInt(int64(cnt))) != 0 {
		t.Fatalf("count %v, expected %d: %s", got, cnt, ch)
	}
	for _, m := range ch.sample(hard, ass, 3, ch.rand(t)) {
		for v, a := range ass {
			if m[v] != a {
				t.Fatalf("sample")
			}
		}
		for _, c := range hard {
			if !c.eval(m) {
				t.Fatalf("sample: %s", ch)
			}
		}
	}
}
