package harness

import (
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/sat"
	"pgregory.net/rapid"
)

type mix struct {
	add, prop, save, load, call, bb, opt, extract, incCC, enum int
}

func (w mix) total() int {
	return w.add + w.prop + w.save + w.load + w.call + w.bb + w.opt + w.extract + w.incCC + w.enum
}

// focus says which operations are verified.
type focus struct {
	call, bb, opt, extract, enum bool
}

func (m *satM) step(w mix, fo focus, assumptions, formulas bool) {
	t := m.t
	k := rapid.IntRange(0, w.total()-1).Draw(t, "op")
	in := func(x int) bool {
		k -= x
		return k < 0
	}
	switch {
	case in(w.add):
		m.addSome(false)
	case in(w.prop):
		m.addSome(true)
	case in(w.save):
		m.save()
	case in(w.load):
		if len(m.states) > 0 {
			m.load(rapid.IntRange(0, len(m.states)-1).Draw(t, "state"))
		} else {
			m.save()
		}
	case in(w.call):
		m.call(assumptions, formulas, fo.call)
	case in(w.bb):
		m.backbone(fo.bb)
	case in(w.opt):
		m.optimize(fo.opt)
	case in(w.extract):
		m.extract()
	case in(w.incCC):
		m.incCC()
	case in(w.enum):
		m.enumerate(fo.enum)
	}
}

func (m *satM) finish(nontrivial bool) {
	m.pins.check(m.t.Fatalf)
	m.c.Case(m.t, nontrivial, "%s", m.hist.String())
}

var _ = registerProp("S01", "sets of formulas (clauses, nested formulas, constraints) x solver configurations: verdict, model and zero-level literals of one call; predicates on pairs of formulas; non-trivial: satisfiable but not valid, or unsatisfiable with at least 3 formulas (predicates: at least 3 operators or atoms)",
	longSub(400, false, chainMix{add: 2, call: 7}, 4),
	sub("calls", 12000, 6, 12, func(t *rapid.T, c *Ctx) {
		m := newSatM(t, c, false, 1, 9)
		k := rapid.IntRange(1, 8).Draw(t, "k")
		for i := 0; i < k; i++ {
			m.add(m.pool.draw(t, m.e.NV), false)
		}
		m.call(false, false, true)
		w := m.want()
		m.finish(!w.IsTrue() && (!w.IsFalse() || k >= 3))
		c.ClassIf(w.IsFalse(), "unsatisfiable")
		c.ClassIf(m.cfg.UseAtMostClauses, "at-most clauses")
		if m.s.Sat() == w.IsFalse() {
			m.fail("Sat() is wrong: expected %v", !w.IsFalse())
		}
	}),
	sub("predicates", 12000, 2, 12, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 9)
		e := newEnv(t, nv)
		if rapid.Bool().Draw(t, "cfg") {
			sc, _ := genSatConfig(t, false)
			e.Fac.PutConfiguration(sc)
		}
		g := fullGen(t, nv)
		a := g.draw(t, "a")
		b := g.draw(t, "b")
		switch rapid.IntRange(0, 4).Draw(t, "rel") {
		case 0:
			b = nOp(OpOr, a, b)
		case 1:
			b = nOp(OpAnd, b, a)
		case 2:
			b = nOp(OpNot, nOp(OpNot, nOp(OpEquiv, a, nOp(OpTrue))))
		case 3:
			b = nOp(OpAnd, nOp(OpOr, a, b), a)
		}
		c.Case(t, a.size()+b.size() >= 3, "%s || %s", e.nstr(a), e.nstr(b))
		x, y := e.build(a), e.build(b)
		ta, tb := a.TT(nv), b.TT(nv)
		for i, r := range []struct {
			what      string
			got, want bool
		}{
			{"IsSatisfiable", sat.IsSatisfiable(e.Fac, x), !ta.IsFalse()},
			{"IsTautology", sat.IsTautology(e.Fac, x), ta.IsTrue()},
			{"IsContradiction", sat.IsContradiction(e.Fac, x), ta.IsFalse()},
			{"Implies", sat.Implies(e.Fac, x, y), ta.Imp(tb).IsTrue()},
			{"IsEquivalent", sat.IsEquivalent(e.Fac, x, y), ta.Equal(tb)},
			{"reverse Implies", sat.Implies(e.Fac, y, x), tb.Imp(ta).IsTrue()},
			{"second IsEquivalent", sat.IsEquivalent(e.Fac, y, x), ta.Equal(tb)},
		} {
			if r.got != r.want {
				t.Fatalf("%s of %s / %s is %v, expected %v", r.what, e.str(x), e.str(y), r.got, r.want)
			}
			c.ClassIf(r.want && i > 0, r.what+" holds")
		}
	}),
)

var histRule = "at least 3 calls of which one is unsatisfiable or a state was loaded"

var _ = registerProp("S03", "histories of add, add proposition, save, load (valid and invalid states), calls with assumptions / temporary formulas / propositions, backbones, optimizations, enumerations and incremental constraints against a stack of truth tables, and on problems over tens of variables with a chain structure (oracle: dynamic programming); non-trivial: "+histRule,
	sub("history", 9000, 8, 12, func(t *rapid.T, c *Ctx) {
		m := newSatM(t, c, false, 2, 7)
		n := rapid.IntRange(4, 22).Draw(t, "n")
		w := mix{add: 8, prop: 2, save: 3, load: 3, call: 8}
		if rapid.Bool().Draw(t, "mixed") {
			w.bb, w.opt, w.enum, w.incCC = 1, 1, 1, 1
		}
		for i := 0; i < n; i++ {
			m.step(w, focus{call: true}, true, true)
		}
		m.call(true, true, true)
		m.finish(m.calls >= 3 && (m.unsats > 0 || len(m.states) > 0))
		c.ClassIf(m.unsats > 1, "several unsatisfiable calls")
	}),
	sub("units", 9000, 3, 12, func(t *rapid.T, c *Ctx) {
		// mostly short clauses: level-zero facts and contradictions appear and vanish
		m := newSatM(t, c, false, 1, 4)
		n := rapid.IntRange(4, 16).Draw(t, "n")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 6).Draw(t, "op") {
			case 0, 1, 2:
				m.add(genClauseN(t, m.e.NV, 2), rapid.Bool().Draw(t, "prop"))
			case 3:
				m.save()
			case 4:
				if len(m.states) > 0 {
					m.load(rapid.IntRange(0, len(m.states)-1).Draw(t, "state"))
				}
			default:
				m.call(true, true, true)
			}
		}
		m.call(true, false, true)
		m.finish(m.calls >= 3 && (m.unsats > 0 || len(m.states) > 0))
	}),
	longSub(300, false, chainMix{add: 5, save: 2, load: 2, call: 7, bb: 1, opt: 1}, 12),
	chainSub(1000, false, chainMix{add: 5, save: 3, load: 3, call: 7, bb: 1, opt: 1}, 16),
)

var _ = registerProp("S04", "histories with propositions, plain formulas, assumptions, temporary propositions and state loads on proof-generating solvers; every unsatisfiable call's core is checked, and on problems over tens of variables with a chain structure (oracle: dynamic programming); non-trivial: at least one core was computed",
	sub("history", 9000, 8, 12, func(t *rapid.T, c *Ctx) {
		m := newSatM(t, c, true, 1, 6)
		n := rapid.IntRange(3, 16).Draw(t, "n")
		w := mix{add: 2, prop: 10, save: 2, load: 2, call: 7}
		if rapid.IntRange(0, 3).Draw(t, "mixed") == 0 {
			w.bb, w.opt, w.incCC = 1, 1, 1
		}
		for i := 0; i < n; i++ {
			m.step(w, focus{call: true}, true, true)
		}
		m.call(true, true, true)
		m.finish(m.unsats > 0)
	}),
	sub("units", 9000, 4, 12, func(t *rapid.T, c *Ctx) {
		m := newSatM(t, c, true, 1, 4)
		n := rapid.IntRange(2, 12).Draw(t, "n")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 8).Draw(t, "op") {
			case 0, 1, 2, 3:
				m.add(genClauseN(t, m.e.NV, 2), rapid.IntRange(0, 4).Draw(t, "prop") > 0)
			case 4:
				m.add(m.pool.draw(t, m.e.NV), true)
			case 5:
				m.save()
			case 6:
				if len(m.states) > 0 {
					m.load(rapid.IntRange(0, len(m.states)-1).Draw(t, "state"))
				}
			default:
				m.call(true, true, true)
			}
		}
		m.call(true, true, true)
		m.finish(m.unsats > 0)
	}),
	longSub(300, true, chainMix{add: 5, save: 1, load: 1, call: 7}, 10),
	chainSub(1000, true, chainMix{add: 5, save: 2, load: 2, call: 7}, 12),
)

var _ = registerProp("S05", "backbones of random variable sets and kinds between additions, state changes and calls, and on problems over tens of variables with a chain structure (oracle: dynamic programming); non-trivial: satisfiable and not valid at some backbone computation",
	sub("history", 12000, 8, 12, func(t *rapid.T, c *Ctx) {
		m := newSatM(t, c, false, 1, 8)
		n := rapid.IntRange(2, 14).Draw(t, "n")
		w := mix{add: 8, prop: 1, save: 1, load: 1, call: 2, bb: 5}
		nt := false
		for i := 0; i < n; i++ {
			m.step(w, focus{bb: true}, true, true)
			x := m.want()
			nt = nt || !x.IsTrue() && !x.IsFalse()
		}
		m.backbone(true)
		m.finish(nt)
	}),
	longSub(300, false, chainMix{add: 5, save: 1, load: 1, call: 1, bb: 6}, 8),
	chainSub(1000, false, chainMix{add: 5, save: 1, load: 1, call: 2, bb: 6}, 10),
)

var _ = registerProp("S06", "formulas on the solver and variable occurrences after histories of additions, state changes, calls and backbones; unit propagator results, and on problems over tens of variables with a chain structure (oracle: dynamic programming); non-trivial: at least 3 operations (propagator: at least 2 clauses)",
	chainSub(700, false, chainMix{add: 5, save: 1, load: 1, call: 2, bb: 1, opt: 1, ext: 4}, 9),
	sub("history", 9000, 6, 12, func(t *rapid.T, c *Ctx) {
		m := newSatM(t, c, false, 1, 6)
		n := rapid.IntRange(2, 12).Draw(t, "n")
		w := mix{add: 8, prop: 2, save: 2, load: 2, call: 3, bb: 1, opt: 1, extract: 5, incCC: 1}
		for i := 0; i < n; i++ {
			m.step(w, focus{}, true, true)
		}
		m.extract()
		m.finish(n >= 3)
	}),
	sub("occurrences", 5000, 2, 12, func(t *rapid.T, c *Ctx) {
		// distinct clauses with at least two variables: exact counts
		nv := rapid.IntRange(2, 8).Draw(t, "nv")
		e := newEnv(t, nv)
		cfg, cs := genSatConfig(t, false)
		s := sat.NewSolver(e.Fac, cfg)
		count := map[int]int{}
		seen := map[f.Formula]bool{}
		var desc []string
		for i := rapid.IntRange(1, 10).Draw(t, "k"); i > 0; i-- {
			n := nOp(OpOr)
			vs := genSubset(t, nv, 2)
			slices.Sort(vs)
			for _, v := range vs {
				n.Kids = append(n.Kids, nLit(v, rapid.Bool().Draw(t, "ph")))
			}
			d := e.nstr(n)
			if seen[e.build(n)] {
				continue
			}
			seen[e.build(n)] = true
			desc = append(desc, d)
			for _, k := range n.Kids {
				count[k.Lit.V]++
			}
			s.Add(e.build(n))
		}
		c.Case(t, len(desc) >= 2, "%s %v", cs, desc)
		for pass := 0; pass < 2; pass++ {
			occ := s.VarOccurrences(nil)
			for v := 0; v < nv; v++ {
				if occ[e.v(v)] != count[v] {
					t.Fatalf("variable %s occurs in %d clauses, reported %d", e.Names[v], count[v], occ[e.v(v)])
				}
			}
			if len(occ) > nv {
				t.Fatalf("foreign variables in %v", occ)
			}
			if fs := s.FormulasOnSolver(); len(fs) != len(desc) {
				t.Fatalf("%d formulas on the solver, expected %d", len(fs), len(desc))
			}
		}
	}),
	sub("propagator", 10000, 2, 12, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 9)
		e := newEnv(t, nv)
		p := sat.NewUnitPropagator(e.Fac)
		k := rapid.IntRange(1, 7).Draw(t, "k")
		var ns []*N
		for i := 0; i < k; i++ {
			if rapid.IntRange(0, 3).Draw(t, "kind") == 0 {
				g := Gen{NV: nv, Depth: 2, Consts: true}
				ns = append(ns, g.draw(t, "f"))
			} else {
				ns = append(ns, genClauseN(t, nv, 3))
			}
			p.Add(e.build(ns[i]))
		}
		c.Case(t, k >= 2, "%s", e.nstrs(ns))
		x := p.PropagateFormula()
		want := conj(nv, ns)
		got := project(e, x)
		if !got.Equal(want) {
			t.Fatalf("propagated formula %s is not equivalent to the added clauses", e.str(x))
		}
		c.ClassIf(want.IsFalse(), "unsatisfiable")
	}),
)

var _ = registerProp("S07", "maximize / minimize over random literals (repeated and complementary included) between additions, state changes and calls against exhaustive optimization, and on problems over tens of variables with a chain structure (oracle: dynamic programming); non-trivial: satisfiable and not valid",
	sub("history", 9000, 8, 12, func(t *rapid.T, c *Ctx) {
		m := newSatM(t, c, false, 1, 7)
		n := rapid.IntRange(2, 10).Draw(t, "n")
		w := mix{add: 8, prop: 1, save: 1, load: 1, call: 2, opt: 4, bb: 1}
		nt := false
		for i := 0; i < n; i++ {
			m.step(w, focus{opt: true, call: true}, true, true)
			x := m.want()
			nt = nt || !x.IsTrue() && !x.IsFalse()
		}
		m.optimize(true)
		m.call(true, false, true)
		m.finish(nt)
	}),
	longSub(300, false, chainMix{add: 5, save: 1, load: 1, call: 1, opt: 6}, 6),
	chainSub(1000, false, chainMix{add: 5, save: 1, load: 1, call: 1, opt: 6}, 8),
)

// inst is an instance given by clauses (internal literals) and the formulas
// to be added to the solver.
type inst struct {
	nv      int
	kind    string
	clauses [][]int
	add     []*N // one formula per entry
}

func (in *inst) clause(ls ...int) {
	n := nOp(OpOr)
	for _, l := range ls {
		n.Kids = append(n.Kids, nLit(l>>1, l&1 == 0))
	}
	if len(ls) == 1 {
		n = n.Kids[0]
	}
	in.clauses = append(in.clauses, ls)
	in.add = append(in.add, n)
}

// xor adds the parity constraint on the variables.
func (in *inst) xor(odd bool, vs ...int) {
	for i := 0; i < 1<<len(vs); i++ {
		par := false
		var ls []int
		for j, v := range vs {
			b := i >> j & 1
			par = par != (b == 1)
			ls = append(ls, 2*v+b) // excludes assignment i
		}
		if par != odd {
			in.clause(ls...)
		}
	}
}

func (in *inst) card(cmp Cmp, k int, vs ...int) {
	in.add = append(in.add, nCC(cmp, k, vs...))
	var subsets func(i, left int, cur []int)
	neg := 1
	subsets = func(i, left int, cur []int) {
		if left == 0 {
			var ls []int
			for _, v := range cur {
				ls = append(ls, 2*v+neg)
			}
			in.clauses = append(in.clauses, ls)
			return
		}
		for ; i < len(vs); i++ {
			subsets(i+1, left-1, append(append([]int(nil), cur...), vs[i]))
		}
	}
	if cmp == LE || cmp == EQ {
		subsets(0, k+1, nil)
	}
	if cmp == GE || cmp == EQ {
		neg = 0
		subsets(0, len(vs)-k+1, nil)
	}
}

func hardInst(t *rapid.T) *inst {
	in := &inst{}
	seed := uint64(rapid.IntRange(0, 1<<30).Draw(t, "instseed"))*0x9e3779b97f4a7c15 + 1
	rnd := func(n int) int {
		seed ^= seed << 13
		seed ^= seed >> 7
		seed ^= seed << 17
		return int(seed>>11) % n
	}
	distinct := func(k int) []int {
		var r []int
		for len(r) < k {
			v := rnd(in.nv)
			dup := false
			for _, x := range r {
				dup = dup || x == v
			}
			if !dup {
				r = append(r, v)
			}
		}
		return r
	}
	lits := func(vs []int) []int {
		for i := range vs {
			vs[i] = 2*vs[i] + rnd(2)
		}
		return vs
	}
	switch rapid.IntRange(0, 7).Draw(t, "family") {
	case 5:
		// one of many values for every item, random incompatible pairs around
		// the threshold: long reasons
		n := rapid.IntRange(4, 8).Draw(t, "items")
		d := rapid.IntRange(8, 15).Draw(t, "values")
		in.nv = n * d
		q := 1 - math.Exp(-2*math.Log(float64(d))/float64(n-1))
		pct := int(100*q) + rapid.IntRange(-8, 8).Draw(t, "tightness")
		in.kind = fmt.Sprintf("assignment items=%d values=%d tightness=%d seed=%d", n, d, pct, seed)
		amo := rapid.Bool().Draw(t, "asAMO")
		for i := 0; i < n; i++ {
			var ls, vs []int
			for j := 0; j < d; j++ {
				vs = append(vs, i*d+j)
				ls = append(ls, 2*(i*d+j))
			}
			in.clause(ls...)
			if amo {
				in.card(LE, 1, vs...)
			}
			for k := 0; k < i; k++ {
				for j := 0; j < d; j++ {
					for l := 0; l < d; l++ {
						if rnd(100) < pct {
							in.clause(2*(i*d+j)+1, 2*(k*d+l)+1)
						}
					}
				}
			}
		}
	case 6:
		// wide at-most constraints against positive clauses
		in.nv = rapid.IntRange(14, 45).Draw(t, "n")
		k := rapid.IntRange(2, in.nv/3).Draw(t, "k")
		in.kind = fmt.Sprintf("wide cardinality n=%d k=%d seed=%d", in.nv, k, seed)
		for i := 0; i < k; i++ {
			b := 1 + rnd(2)
			w := 9 + rnd(min(in.nv-9, 24-8*b))
			if rnd(4) == 0 {
				in.card(GE, w-b, distinct(w)...)
			} else {
				in.card(LE, b, distinct(w)...)
			}
		}
		for i := rnd(2 * in.nv); i > 0; i-- {
			vs := distinct(3 + rnd(4))
			for j := range vs {
				vs[j] *= 2
			}
			in.clause(vs...)
		}
		for i := 0; i < in.nv/2; i++ {
			in.clause(lits(distinct(3))...)
		}
	case 0, 1:
		in.nv = pick(t, "n", 25, 40, 60, 75, 90, 110, 130)
		r := rapid.IntRange(38, 50).Draw(t, "ratio")
		in.kind = fmt.Sprintf("3-SAT n=%d ratio=%d seed=%d", in.nv, r, seed)
		for i := 0; i < in.nv*r/10; i++ {
			in.clause(lits(distinct(3))...)
		}
	case 2:
		in.nv = rapid.IntRange(6, 24).Draw(t, "n")
		k := in.nv - 2 + rapid.IntRange(0, 4).Draw(t, "extra")
		in.kind = fmt.Sprintf("parity n=%d k=%d seed=%d", in.nv, k, seed)
		for i := 0; i < k; i++ {
			in.xor(rnd(2) == 0, distinct(3)...)
		}
	case 3:
		p := rapid.IntRange(3, 7).Draw(t, "pigeons")
		h := p - 1 + rapid.IntRange(0, 1).Draw(t, "holes")
		in.nv = p * h
		perm := make([]int, in.nv)
		for i := range perm {
			j := rnd(i + 1)
			perm[i] = perm[j]
			perm[j] = i
		}
		amo := rapid.Bool().Draw(t, "asAMO")
		in.kind = fmt.Sprintf("pigeons %d holes %d amo=%v seed=%d", p, h, amo, seed)
		for i := 0; i < p; i++ {
			var ls []int
			for j := 0; j < h; j++ {
				ls = append(ls, 2*perm[i*h+j])
			}
			in.clause(ls...)
		}
		for j := 0; j < h; j++ {
			var vs []int
			for i := 0; i < p; i++ {
				vs = append(vs, perm[i*h+j])
			}
			if amo {
				in.card(LE, 1, vs...)
				continue
			}
			for a := range vs {
				for b := 0; b < a; b++ {
					in.clause(2*vs[a]+1, 2*vs[b]+1)
				}
			}
		}
	case 4:
		in.nv = rapid.IntRange(10, 45).Draw(t, "n")
		k := rapid.IntRange(5, in.nv).Draw(t, "k")
		in.kind = fmt.Sprintf("cardinality n=%d k=%d seed=%d", in.nv, k, seed)
		for i := 0; i < k; i++ {
			w := 3 + rnd(4)
			in.card([]Cmp{LE, GE, EQ}[rnd(3)], 1+rnd(w-1), distinct(w)...)
		}
		for i := 0; i < in.nv; i++ {
			in.clause(lits(distinct(3))...)
		}
	default:
		// few long, many short clauses
		in.nv = rapid.IntRange(8, 40).Draw(t, "n")
		in.kind = fmt.Sprintf("mixed n=%d seed=%d", in.nv, seed)
		for i := 0; i < in.nv*2; i++ {
			in.clause(lits(distinct(2 + rnd(4)))...)
		}
		for i := 0; i < in.nv/2; i++ {
			in.clause(lits(distinct(2))...)
		}
	}
	return in
}

var hardNames = func() Names {
	var r Names
	for i := 0; i < 200; i++ {
		r = append(r, fmt.Sprintf("v%d", i))
	}
	return r
}()

var _ = registerProp("S02", "random 3-SAT near the threshold, parity systems, pigeon holes, assignments of many values, narrow and wide cardinality systems and mixed clause sets on solvers with small restart and reduction limits; repeated calls, assumption calls, later clauses and states; verdicts against an own CDCL procedure, models against every clause; non-trivial: at least 20 conflicts",
	sub("search", 1800, 8, 20, func(t *rapid.T, c *Ctx) {
		in := hardInst(t)
		e := &Env{Fac: f.NewFactory(), Names: hardNames, NV: in.nv}
		proof := rapid.IntRange(0, 4).Draw(t, "proofs") == 4
		cfg, cs := genSatConfig(t, proof)
		var sb strings.Builder
		fmt.Fprintf(&sb, "%s %s", cs, in.kind)
		do := func(format string, args ...any) {
			fmt.Fprintf(&sb, " | "+format, args...)
			c.Doing(sb.String())
			t.Logf(format, args...)
		}
		s := sat.NewSolver(e.Fac, cfg)
		split := len(in.add)
		if rapid.Bool().Draw(t, "split") {
			split = rapid.IntRange(0, len(in.add)).Draw(t, "splitAt")
		}
		oracle := newCNFS(in.nv, nil)
		oracle.Limit = 60000
		var active [][]int
		all := e.allVars()
		conflicts := 0
		call := func(temp ...int) {
			var ls []int
			p := sat.Params().WithModel(all)
			for i := 0; i < len(temp); i++ {
				ls = append(ls, temp[i])
				p.Literal(e.lit(L{temp[i] >> 1, temp[i]&1 == 0}))
			}
			want := oracle.Sat(ls...)
			do("call %v", temp)
			cnt := &conflictCounter{}
			p.Handler(cnt)
			r := s.Call(p)
			conflicts += cnt.n
			if !r.OK() {
				t.Fatalf("call canceled")
			}
			if r.Sat() != want {
				t.Fatalf("sat=%v, expected %v", r.Sat(), want)
			}
			c.ClassIf(!want, "unsatisfiable calls")
			if !want {
				return
			}
			c.Class("satisfiable calls")
			val := map[int]bool{}
			for _, l := range r.Model().Literals {
				name, ph, _ := e.Fac.LitNamePhase(l)
				var v int
				_, _ = fmt.Sscanf(name, "v%d", &v)
				if old, ok := val[v]; ok && old != ph {
					t.Fatalf("inconsistent model")
				}
				val[v] = ph
			}
			for _, l := range ls {
				if val[l>>1] != (l&1 == 0) {
					t.Fatalf("model violates assumption %d", l)
				}
			}
			for _, cl := range active {
				ok := false
				for _, l := range cl {
					if ph, is := val[l>>1]; is && ph == (l&1 == 0) {
						ok = true
					}
				}
				if !ok {
					t.Fatalf("model violates clause %v", cl)
				}
			}
		}
		part := func(from, to int) {
			// formulas and their clauses
			ci := 0
			sub := &inst{nv: in.nv}
			for i, n := range in.add {
				tmp := &inst{nv: in.nv}
				if n.Op == OpPBC {
					tmp.card(n.Cmp, n.Rhs, varsOf(n)...)
				} else {
					tmp.clauses = [][]int{in.clauses[ci]}
				}
				if i >= from && i < to {
					sub.clauses = append(sub.clauses, tmp.clauses...)
					s.Add(e.build(n))
				}
				ci += len(tmp.clauses)
			}
			for _, cl := range sub.clauses {
				oracle.addClause(cl)
				active = append(active, cl)
			}
			do("add %d..%d", from, to)
		}
		part(0, split)
		if split < len(in.add) {
			call()
			part(split, len(in.add))
		}
		call()
		rl := func() int { return rapid.IntRange(0, 2*in.nv-1).Draw(t, "lit") }
		var state *sat.SolverState
		nActive := 0
		for i := rapid.IntRange(0, 6).Draw(t, "ops"); i > 0; i-- {
			switch rapid.IntRange(0, 5).Draw(t, "op") {
			case 0, 1, 2:
				var as []int
				for j := rapid.IntRange(0, 4).Draw(t, "na"); j > 0; j-- {
					as = append(as, rl())
				}
				call(as...)
			case 3, 4:
				var cl []int
				n := nOp(OpOr)
				for _, v := range []int{rl(), rl(), rl()} {
					if n.hasVar(v >> 1) {
						continue
					}
					cl = append(cl, v)
					n.Kids = append(n.Kids, nLit(v>>1, v&1 == 0))
				}
				if len(cl) == 1 {
					n = n.Kids[0]
				}
				do("add %v", cl)
				s.Add(e.build(n))
				oracle.addClause(cl)
				active = append(active, cl)
			default:
				if state == nil {
					do("save")
					state = s.SaveState()
					nActive = len(active)
				} else {
					do("load")
					if err := s.LoadState(state); err != nil {
						t.Fatalf("load: %v", err)
					}
					active = active[:nActive:nActive]
					oracle = newCNFS(in.nv, active)
					oracle.Limit = 60000
				}
			}
		}
		call()
		c.Case(t, conflicts >= 20, "%s", sb.String())
		c.ClassIf(conflicts >= 20, "at least 20 conflicts")
		c.ClassIf(conflicts >= 200, "at least 200 conflicts")
		c.ClassIf(conflicts >= 2000, "at least 2000 conflicts")
	}),
)

type conflictCounter struct{ n int }

func (c *conflictCounter) ShouldResume(e event.Event) bool {
	if e == event.SatConflictDetected {
		c.n++
	}
	return true
}

func (n *N) hasVar(v int) bool {
	for _, k := range n.Kids {
		if k.Lit.V == v {
			return true
		}
	}
	return false
}

func varsOf(n *N) []int {
	var r []int
	for _, l := range n.Lits {
		r = append(r, l.V)
	}
	return r
}

// canceledOp runs an operation with a handler that may cancel it; results that
// are not canceled must be right.
func (m *satM) canceledOp() {
	t, e := m.t, m.e
	h := &kHandler{k: rapid.IntRange(0, 10).Draw(t, "k"), sticky: rapid.Bool().Draw(t, "sticky")}
	check := func(what string, st handler.State) bool {
		if st.Success == h.canceled {
			m.fail("%s: success=%v, but the handler canceled: %v", what, st.Success, h.canceled)
		}
		if h.canceled {
			if st.CancelCause == nil || st.CancelCause == event.Nothing {
				m.fail("%s: no cancel cause", what)
			}
			m.c.Class("canceled " + what)
		}
		return !h.canceled
	}
	switch rapid.IntRange(0, 5).Draw(t, "what") {
	case 0, 1, 2:
		p := sat.Params().Handler(h)
		want := m.want()
		desc := ""
		for i := rapid.IntRange(0, 2).Draw(t, "nassume"); i > 0; i-- {
			l := genLit(t, e.NV)
			want = want.And(ttLit(e.NV, l.V, l.Pos))
			p.Literal(e.lit(l))
			desc += " " + e.lit(l).Sprint(e.Fac)
		}
		if rapid.IntRange(0, 2).Draw(t, "formula") == 0 {
			n := m.pool.draw(t, e.NV)
			want = want.And(n.TT(e.NV))
			p.Formula(e.build(n))
			desc += " [" + e.nstr(n) + "]"
		}
		p.WithModel(e.allVars()).WithUPZeros()
		if m.cfg.ProofGeneration && !m.cfg.UseAtMostClauses {
			p.WithCore()
		}
		m.log("call%s cancel at %d sticky=%v", desc, h.k, h.sticky)
		r := m.s.Call(p)
		if r.OK() != r.State().Success || r.Canceled() == r.OK() {
			m.fail("inconsistent call result: OK=%v, Canceled=%v, state %v", r.OK(), r.Canceled(), r.State())
		}
		if check("call", r.State()) {
			if r.Sat() == want.IsFalse() {
				m.fail("sat=%v, expected %v", r.Sat(), !want.IsFalse())
			}
			if r.Sat() {
				m.checkModel(r.Model(), e.allVars(), want, "call")
			}
		} else if r.Model() != nil || r.UnsatCore() != nil {
			m.fail("canceled call has a model or core")
		}
	case 3:
		kind := pick(t, "bb", sat.BBBoth, sat.BBPos, sat.BBNeg)
		req := m.genReq()
		m.log("backbone %v cancel at %d sticky=%v", kind, h.k, h.sticky)
		bb, st := m.s.ComputeBackboneWithHandler(e.Fac, req, h, kind)
		if check("backbone", st) {
			m.checkBackbone(bb, kind, req, m.want())
		} else if bb != nil {
			m.fail("canceled backbone computation has a result")
		}
	default:
		max := rapid.Bool().Draw(t, "max")
		var lx []L
		var ls []f.Literal
		for i := rapid.IntRange(1, 6).Draw(t, "nlits"); i > 0; i-- {
			l := genLit(t, e.NV)
			lx = append(lx, l)
			ls = append(ls, e.lit(l))
		}
		m.log("optimize max=%v %s cancel at %d sticky=%v", max, e.lstrs(ls), h.k, h.sticky)
		var mdl *model.Model
		var st handler.State
		if max {
			mdl, st = m.s.MaximizeWithHandler(ls, h)
		} else {
			mdl, st = m.s.MinimizeWithHandler(ls, h)
		}
		ok := check("optimization", st)
		want := m.want()
		if ok && (mdl == nil) != want.IsFalse() {
			m.fail("optimum %v of a satisfiable: %v formula", mdl, !want.IsFalse())
		}
		if mdl != nil {
			val, mask := e.litsAss(t, mdl.Literals)
			ext := want.And(ttCube(e.NV, val, mask))
			if ext.IsFalse() {
				m.fail("optimization (canceled: %v) returned %s, which is no model", !ok, mdl.Sprint(e.Fac))
			}
			if ok && m.optimum(ext, lx, max) != m.optimum(want, lx, max) {
				m.fail("optimization returned %s, which is not optimal", mdl.Sprint(e.Fac))
			}
		}
	}
}

var _ = registerProp("S08", "histories with calls, backbones and optimizations canceled at the k-th event (once or from then on), each followed by further operations with verified results, and on problems over tens of variables with a chain structure (oracle: dynamic programming); non-trivial: at least one operation was canceled",
	chainSub(1000, false, chainMix{add: 4, save: 1, load: 1, call: 2, bb: 1, opt: 1, ext: 1, cancel: 5}, 10),
	sub("history", 9000, 8, 12, func(t *rapid.T, c *Ctx) {
		m := newSatM(t, c, rapid.IntRange(0, 3).Draw(t, "proofs") == 3, 1, 8)
		n := rapid.IntRange(3, 16).Draw(t, "n")
		w := mix{add: 8, prop: 1, save: 2, load: 2, call: 3, bb: 1, opt: 1, extract: 1}
		before := c.Classes["canceled call"] + c.Classes["canceled backbone"] + c.Classes["canceled optimization"]
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 2).Draw(t, "cancel") == 0 {
				m.canceledOp()
			} else {
				m.step(w, focus{call: true, bb: true, opt: true}, true, true)
			}
		}
		m.canceledOp()
		m.call(true, true, true)
		after := c.Classes["canceled call"] + c.Classes["canceled backbone"] + c.Classes["canceled optimization"]
		m.finish(after > before)
	}),
	sub("search", 800, 8, 12, func(t *rapid.T, c *Ctx) {
		// conflict-rich instances canceled in the middle of the search
		in := hardInst(t)
		e := &Env{Fac: f.NewFactory(), Names: hardNames, NV: in.nv}
		cfg, cs := genSatConfig(t, rapid.IntRange(0, 4).Draw(t, "proofs") == 4)
		s := sat.NewSolver(e.Fac, cfg)
		for _, n := range in.add {
			s.Add(e.build(n))
		}
		oracle := newCNFS(in.nv, in.clauses)
		oracle.Limit = 60000
		want := oracle.Sat()
		hist := cs + " " + in.kind
		canceled := 0
		for i := rapid.IntRange(1, 5).Draw(t, "ops"); i > 0; i-- {
			h := &kHandler{k: rapid.IntRange(1, 60).Draw(t, "k"), sticky: rapid.Bool().Draw(t, "sticky")}
			hist += fmt.Sprintf(" | cancel at %d (%v)", h.k, h.sticky)
			c.Doing(hist)
			p := sat.Params().Handler(h).WithModel(e.allVars())
			if rapid.Bool().Draw(t, "assume") {
				p.Literal(e.lit(genLit(t, in.nv)))
			}
			r := s.Call(p)
			if r.OK() == h.canceled {
				t.Fatalf("call ok=%v, but handler canceled: %v", r.OK(), h.canceled)
			}
			if h.canceled {
				canceled++
			} else if r.Sat() && !want {
				t.Fatalf("unsatisfiable instance reported as satisfiable")
			}
		}
		c.Case(t, canceled > 0, "%s", hist)
		r := s.Call(sat.Params().WithModel(e.allVars()))
		if r.Sat() != want {
			t.Fatalf("sat=%v after canceled calls, expected %v", r.Sat(), want)
		}
		c.ClassIf(canceled > 0, "canceled searches")
	}),
)
