package harness

import (
	"fmt"
	"slices"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"
	"pgregory.net/rapid"
)

// sameFunc checks equivalence, up to auxiliary variables if the formula has
// constraints whose encodings introduce them.
func sameFunc(t *rapid.T, e *Env, what string, x f.Formula, want TT, exact bool) {
	if !exact {
		for _, v := range f.Variables(e.Fac, x).Content() {
			if e.varIdx(v) < 0 {
				projEquals(t, e, what, x, want)
				return
			}
		}
	}
	e.equals(t, what, x, want)
}

// litSet is a clause or term as (positive, negative) variable masks.
func (e *Env) litMasks(t *rapid.T, x f.Formula) term {
	var r term
	ls := []f.Formula{x}
	if x.Sort() != f.SortLiteral {
		ls = e.Fac.Operands(x)
	}
	for _, o := range ls {
		l := e.litIdx(t, f.Literal(o))
		if l.Pos {
			r.pos |= 1 << l.V
		} else {
			r.neg |= 1 << l.V
		}
	}
	return r
}

// termsOf lists the clauses (terms) of a CNF (DNF); ok is false for constants.
func (e *Env) termsOf(t *rapid.T, x f.Formula, outer, inner f.FSort) ([]term, bool) {
	switch x.Sort() {
	case f.SortTrue, f.SortFalse:
		return nil, false
	case f.SortLiteral, inner:
		return []term{e.litMasks(t, x)}, true
	}
	var r []term
	for _, o := range e.Fac.Operands(x) {
		if isConst(o) {
			return nil, false
		}
		r = append(r, e.litMasks(t, o))
	}
	return r, true
}

func (x term) subsumes(y term) bool { return x.pos&^y.pos == 0 && x.neg&^y.neg == 0 }

func (x term) String() string { return fmt.Sprintf("+%b-%b", x.pos, x.neg) }

var ratings = []struct {
	name string
	fn   simplification.RatingFunction
}{
	{"default", simplification.DefaultRatingFunction},
	{"atoms", func(fac f.Factory, x f.Formula) float64 { return float64(f.NumberOfAtoms(fac, x)) }},
	{"nodes", func(fac f.Factory, x f.Formula) float64 { return float64(f.NumberOfNodes(fac, x)) }},
	{"constant", func(f.Factory, f.Formula) float64 { return 1 }},
	{"reverse", func(fac f.Factory, x f.Formula) float64 { return -float64(len(x.Sprint(fac))) }},
}

func genSimp(t *rapid.T, nv int, cc, pbc bool) *N {
	g := Gen{NV: nv, Consts: true, CC: cc, PBC: pbc}
	var ks []*N
	for i := rapid.SampledFrom([]int{1, 2, 3, 4, 5}).Draw(t, "parts"); i > 0; i-- {
		switch rapid.IntRange(0, 3).Draw(t, "part") {
		case 0:
			l := genLit(t, nv)
			ks = append(ks, nLit(l.V, l.Pos))
		case 1:
			ks = append(ks, genTermN(t, nv))
		default:
			g.Depth = rapid.IntRange(0, 3).Draw(t, "depth")
			ks = append(ks, g.draw(t, "f"))
		}
	}
	if len(ks) == 1 {
		return ks[0]
	}
	n := nOp([]Op{OpAnd, OpOr}[rapid.IntRange(0, 1).Draw(t, "join")], ks...)
	if rapid.IntRange(0, 5).Draw(t, "not") == 0 {
		n = nOp(OpNot, n)
	}
	return n
}

// genTermN draws a small conjunction or disjunction of literals.
func genTermN(t *rapid.T, nv int) *N {
	n := genClauseN(t, nv, 4)
	if n.Op == OpOr && rapid.Bool().Draw(t, "term") {
		n.Op = OpAnd
	}
	return n
}

// genNF draws a CNF (outer And) or DNF (outer Or) with many related clauses.
func genNF(t *rapid.T, nv int, outer, inner Op, m int) *N {
	n := nOp(outer)
	for i := 0; i < m; i++ {
		var k *N
		if i > 0 && rapid.Bool().Draw(t, "related") {
			// extend, shrink or permute an earlier clause
			old := n.Kids[rapid.IntRange(0, i-1).Draw(t, "which")]
			ls := slices.Clone(old.Kids)
			if old.Op == OpLit {
				ls = []*N{old}
			}
			switch rapid.IntRange(0, 2).Draw(t, "change") {
			case 0:
				l := genLit(t, nv)
				ls = append(ls, nLit(l.V, l.Pos))
			case 1:
				if len(ls) > 1 {
					j := rapid.IntRange(0, len(ls)-1).Draw(t, "drop")
					ls = slices.Delete(ls, j, j+1)
				}
			default:
				slices.Reverse(ls)
			}
			k = nOp(inner, ls...)
			if len(ls) == 1 {
				k = ls[0]
			}
		} else {
			k = genClauseN(t, nv, 5)
			if k.Op == OpOr {
				k.Op = inner
			}
		}
		n.Kids = append(n.Kids, k)
	}
	return n
}

var _ = registerProp("T01", "formulas (all operators, constraints, both factory modes), clause and term sets with related members, all advanced-simplifier configurations with several rating functions and cancelation, against truth tables, the brute-force set of unsubsumed clauses and the brute-force minimum prime cover, and on formulas over tens of variables (oracle: sampled assignments and models); non-trivial: neither valid nor unsatisfiable and at least 5 nodes",
	sub("wide", 2500, 2, 15, t01Wide),
	sub("simplify", 16000, 8, 12, func(t *rapid.T, c *Ctx) {
		nv := rapid.SampledFrom([]int{3, 4, 5, 6, 2, 1}).Draw(t, "nv")
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 3)
		withCC := rapid.IntRange(0, 2).Draw(t, "cc") == 0
		n := genSimp(t, nv, withCC, withCC && rapid.Bool().Draw(t, "pbc"))
		want := n.TT(nv)
		x := e.build(n)
		plain := noCC(e.Fac, x)
		c.Case(t, !want.IsTrue() && !want.IsFalse() && n.size() >= 5, "%s %s", e.Mode, e.nstr(n))
		c.ClassIf(!plain, "constraints")
		for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
			what := rapid.IntRange(0, 7).Draw(t, "what")
			t.Logf("simplifier %d", what)
			switch what {
			case 0:
				y := simplification.PropagateBackbone(e.Fac, x)
				sameFunc(t, e, "backbone simplification", y, want, true)
				checkBackboneShape(t, c, e, y, want)
			case 1:
				y := simplification.PropagateUnits(e.Fac, x)
				sameFunc(t, e, "unit propagation", y, want, isCNFShape(e.Fac, x))
				if z := simplification.PropagateUnits(e.Fac, x); z != y {
					t.Fatalf("unit propagation returns %s, then %s", e.str(y), e.str(z))
				}
			case 2:
				sameFunc(t, e, "distribution", simplification.Distribute(e.Fac, x), want, true)
			case 3:
				r := rapid.IntRange(-1, len(ratings)-1).Draw(t, "rating")
				var y f.Formula
				if r < 0 {
					y = simplification.FactorOut(e.Fac, x)
				} else if ratings[r].name == "reverse" {
					continue // may alternate between two forms
				} else {
					y = simplification.FactorOut(e.Fac, x, ratings[r].fn)
				}
				sameFunc(t, e, "factoring out", y, want, true)
				if r <= 0 && len(e.str(y)) > len(e.str(x)) {
					t.Fatalf("factoring out returns the longer formula %s for %s", e.str(y), e.str(x))
				}
				c.ClassIf(y != x, "factored out")
			case 4:
				y := simplification.MinimizeNegations(e.Fac, x)
				sameFunc(t, e, "negation minimization", y, want, plain)
				if len(e.str(y)) > len(e.str(x)) {
					t.Fatalf("negation minimization returns the longer formula %s for %s", e.str(y), e.str(x))
				}
				c.ClassIf(y != x, "negations minimized")
			case 5:
				for _, sort := range []f.FSort{f.SortAnd, f.SortOr} {
					var err error
					var y f.Formula
					ok := isCNFShape(e.Fac, x)
					if sort == f.SortAnd {
						y, err = simplification.CNFSubsumption(e.Fac, x)
					} else {
						y, err = simplification.DNFSubsumption(e.Fac, x)
						ok = isDNFShape(e.Fac, x)
					}
					if (err == nil) != ok {
						t.Fatalf("subsumption: error %v, formula in normal form: %v", err, ok)
					}
					if err == nil {
						sameFunc(t, e, "subsumption", y, want, true)
					} else {
						c.Class("refused")
					}
				}
			case 6:
				cfg := &simplification.Config{
					FactorOut: rapid.Bool().Draw(t, "factor"), RestrictBackbone: rapid.Bool().Draw(t, "backbone"),
					SimplifyNegations: rapid.Bool().Draw(t, "negations"), UseRatingFunction: rapid.Bool().Draw(t, "rate"),
				}
				// FactorOut is rated by the configured function
				r := rapid.IntRange(0, len(ratings)-2).Draw(t, "rating")
				cfg.RatingFunction = ratings[r].fn
				t.Logf("config %+v rating %s", cfg, ratings[r].name)
				var y f.Formula
				switch rapid.IntRange(0, 3).Draw(t, "how") {
				case 0:
					cfg = simplification.DefaultConfig()
					r = 0
					y = simplification.Advanced(e.Fac, x)
				case 1:
					e.Fac.PutConfiguration(cfg)
					y = simplification.Advanced(e.Fac, x)
					e.Fac.PutConfiguration(simplification.DefaultConfig())
				case 2:
					h := &kHandler{k: rapid.IntRange(1, 80).Draw(t, "k"), sticky: rapid.Bool().Draw(t, "sticky")}
					var st handler.State
					y, st = simplification.AdvancedWithHandler(e.Fac, x, h, cfg)
					checkCancel(t, h, st, "advanced simplifier")
					if !st.Success {
						c.Class("canceled")
						y = simplification.Advanced(e.Fac, x, cfg)
					}
				default:
					y = simplification.Advanced(e.Fac, x, cfg)
				}
				sameFunc(t, e, "advanced simplifier", y, want, plain)
				if cfg.UseRatingFunction && !cfg.RestrictBackbone && r == 0 && cfg.RatingFunction(e.Fac, y) > cfg.RatingFunction(e.Fac, x) {
					t.Fatalf("the advanced simplifier returns the worse rated formula %s for %s", e.str(y), e.str(x))
				}
				c.Class("advanced")
			default:
				y := simplification.QMC(e.Fac, x)
				if rapid.IntRange(0, 3).Draw(t, "hdl") == 0 {
					h := &kHandler{k: rapid.IntRange(1, 80).Draw(t, "k"), sticky: rapid.Bool().Draw(t, "sticky")}
					z, st := simplification.QMCWithHandler(e.Fac, x, h)
					checkCancel(t, h, st, "QMC")
					if st.Success {
						y = z
					} else {
						y = simplification.QMC(e.Fac, x)
						c.Class("canceled")
					}
				}
				if !isDNFShape(e.Fac, y) {
					t.Fatalf("Quine-McCluskey returns %s, which is no DNF", e.str(y))
				}
				e.equals(t, "Quine-McCluskey", y, want)
				checkMinCover(t, c, e, y, want)
			}
		}
	}),
	sub("subsumption", 16000, 8, 12, func(t *rapid.T, c *Ctx) {
		nv := rapid.IntRange(1, 7).Draw(t, "nv")
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 3)
		dnf := rapid.Bool().Draw(t, "dnf")
		outer, inner, os, is := OpAnd, OpOr, f.SortAnd, f.SortOr
		if dnf {
			outer, inner, os, is = OpOr, OpAnd, f.SortOr, f.SortAnd
		}
		n := genNF(t, nv, outer, inner, rapid.IntRange(1, 14).Draw(t, "m"))
		want := n.TT(nv)
		x := e.build(n)
		in, ok := e.termsOf(t, x, os, is)
		min := map[term]bool{}
	outer:
		for _, a := range in {
			for _, b := range in {
				if b != a && b.subsumes(a) {
					continue outer
				}
			}
			min[a] = true
		}
		c.Case(t, ok && len(min) >= 2 && len(min) < len(in), "%s %s", e.Mode, e.nstr(n))
		run := func(h handler.Handler) (f.Formula, error, handler.State) {
			if dnf {
				return simplification.DNFSubsumptionWithHandler(e.Fac, x, h)
			}
			return simplification.CNFSubsumptionWithHandler(e.Fac, x, h)
		}
		if rapid.IntRange(0, 3).Draw(t, "cancel") == 0 {
			h := &kHandler{k: rapid.IntRange(1, 16).Draw(t, "k"), sticky: rapid.Bool().Draw(t, "sticky")}
			_, err, st := run(h)
			checkCancel(t, h, st, "subsumption")
			if err != nil {
				t.Fatalf("subsumption: %v", err)
			}
			c.ClassIf(!st.Success, "canceled")
		}
		y, err, st := run(handler.NopHandler)
		if err != nil || !st.Success {
			t.Fatalf("subsumption: %v %v", err, st)
		}
		e.equals(t, "subsumption", y, want)
		got, gok := e.termsOf(t, y, os, is)
		if ok != gok {
			t.Fatalf("subsumption turns %s into %s", e.str(x), e.str(y))
		}
		for _, a := range got {
			if !min[a] {
				t.Fatalf("subsumption result %s contains %v, which is subsumed or not in the input", e.str(y), a)
			}
			delete(min, a)
		}
		if len(min) > 0 {
			t.Fatalf("subsumption result %s lacks or repeats clauses", e.str(y))
		}
	}),
	sub("qmc", 3000, 8, 12, func(t *rapid.T, c *Ctx) {
		nv := rapid.SampledFrom([]int{4, 5, 3}).Draw(t, "nv")
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 3)
		n := nOp(OpOr)
		for i := rapid.IntRange(3, 9).Draw(t, "terms"); i > 0; i-- {
			k := nOp(OpAnd)
			for _, v := range genSubset(t, nv, 2) {
				k.Kids = append(k.Kids, nLit(v, rapid.Bool().Draw(t, "pos")))
			}
			n.Kids = append(n.Kids, k)
		}
		if rapid.IntRange(0, 2).Draw(t, "not") == 0 {
			n = nOp(OpNot, n)
		}
		want := n.TT(nv)
		x := e.build(n)
		c.Case(t, len(primes(want)) >= 3, "%s %s", e.Mode, e.nstr(n))
		y := simplification.QMC(e.Fac, x)
		if !isDNFShape(e.Fac, y) {
			t.Fatalf("Quine-McCluskey returns %s, which is no DNF", e.str(y))
		}
		e.equals(t, "Quine-McCluskey", y, want)
		checkMinCover(t, c, e, y, want)
	}),
	sub("common factor", 3000, 2, 12, func(t *rapid.T, c *Ctx) {
		// one literal occurs in every term, the rest of the terms share no variable
		nv := rapid.IntRange(3, 9).Draw(t, "nv")
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 3)
		p := genPerm(t, nv, "perm")
		outer, inner := OpOr, OpAnd
		if rapid.Bool().Draw(t, "dual") {
			outer, inner = inner, outer
		}
		lit := func(i int) *N { return nLit(p[i], rapid.Bool().Draw(t, "pos")) }
		common := lit(0)
		terms := [][]*N{nil, nil}
		for i := 1; i < nv; i++ {
			k := rapid.IntRange(0, len(terms)).Draw(t, "term")
			if i <= 2 {
				k = i - 1
			}
			if k == len(terms) {
				terms = append(terms, nil)
			}
			terms[k] = append(terms[k], lit(i))
		}
		n := nOp(outer)
		for _, ls := range terms {
			m := nOp(inner, ls...)
			j := rapid.IntRange(0, len(ls)).Draw(t, "at")
			m.Kids = slices.Insert(slices.Clone(m.Kids), j, common)
			n.Kids = append(n.Kids, m)
		}
		x := e.build(n)
		c.Case(t, true, "%s %s", e.Mode, e.nstr(n))
		for i, s := range []func(f.Factory, f.Formula) f.Formula{simplification.Distribute, func(fac f.Factory, x f.Formula) f.Formula { return simplification.FactorOut(fac, x) }} {
			y := s(e.Fac, x)
			e.equals(t, "simplified formula", y, n.TT(nv))
			if k := f.NumberOfAtoms(e.Fac, y); k != nv {
				t.Fatalf("simplifier %d does not take the common factor out of %s: %s has %d atoms instead of %d", i, e.str(x), e.str(y), k, nv)
			}
		}
	}),
	sub("nested", 12000, 4, 12, func(t *rapid.T, c *Ctx) {
		// formulas with common factors for distribution and factoring out
		nv := rapid.IntRange(2, 6).Draw(t, "nv")
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 3)
		pool := []*N{}
		op := []Op{OpAnd, OpOr}[rapid.IntRange(0, 1).Draw(t, "op")]
		for i := rapid.IntRange(2, 7).Draw(t, "levels"); i > 0; i-- {
			k := rapid.IntRange(2, 4).Draw(t, "k")
			n := nOp(op)
			for j := 0; j < k; j++ {
				if len(pool) > 0 && rapid.IntRange(0, 2).Draw(t, "old") > 0 {
					n.Kids = append(n.Kids, pool[rapid.IntRange(0, len(pool)-1).Draw(t, "from")])
				} else {
					l := genLit(t, nv)
					n.Kids = append(n.Kids, nLit(l.V, l.Pos))
				}
			}
			pool = append(pool, n)
			if rapid.Bool().Draw(t, "switch") {
				if op == OpAnd {
					op = OpOr
				} else {
					op = OpAnd
				}
			}
			if n.size() > 200 {
				break
			}
		}
		n := pool[len(pool)-1]
		want := n.TT(nv)
		x := e.build(n)
		c.Case(t, !want.IsTrue() && !want.IsFalse() && n.size() >= 5, "%s %s", e.Mode, e.nstr(n))
		y := simplification.Distribute(e.Fac, x)
		e.equals(t, "distribution", y, want)
		e.equals(t, "distribution twice", simplification.Distribute(e.Fac, y), want)
		z := simplification.FactorOut(e.Fac, x)
		e.equals(t, "factoring out", z, want)
		if len(e.str(z)) > len(e.str(x)) {
			t.Fatalf("factoring out returns the longer formula %s for %s", e.str(z), e.str(x))
		}
		c.ClassIf(y != x, "distributed")
		c.ClassIf(z != x, "factored out")
		m := simplification.MinimizeNegations(e.Fac, e.Fac.Not(x))
		e.equals(t, "negation minimization", m, want.Not())
		if len(e.str(m)) > len(e.str(e.Fac.Not(x))) {
			t.Fatalf("negation minimization returns the longer formula %s", e.str(m))
		}
	}),
)

// checkBackboneShape checks that backbone variables occur only as the
// propagated literals.
func checkBackboneShape(t *rapid.T, c *Ctx, e *Env, y f.Formula, want TT) {
	if want.IsFalse() {
		if y.Sort() != f.SortFalse {
			t.Fatalf("backbone simplification of an unsatisfiable formula is %s", e.str(y))
		}
		return
	}
	ops := []f.Formula{y}
	if y.Sort() == f.SortAnd {
		ops = e.Fac.Operands(y)
	}
	rest := map[int]bool{}
	units := map[int]bool{}
	for _, o := range ops {
		if o.Sort() == f.SortLiteral {
			units[e.litIdx(t, f.Literal(o)).V] = true
			continue
		}
		for _, v := range varsOfF(e, o) {
			rest[v] = true
		}
	}
	for v := 0; v < e.NV; v++ {
		forced := want.Cof(v, true).IsFalse() || want.Cof(v, false).IsFalse()
		if forced && (!units[v] || rest[v]) {
			t.Fatalf("backbone simplification %s: the backbone variable %s is not (fully) propagated", e.str(y), e.Names[v])
		}
		c.ClassIf(forced && len(rest) > 0, "backbone propagated")
	}
}

// checkMinCover checks that a DNF is a prime cover with the fewest terms.
func checkMinCover(t *rapid.T, c *Ctx, e *Env, y f.Formula, want TT) {
	if want.IsTrue() || want.IsFalse() {
		if !isConst(y) {
			t.Fatalf("Quine-McCluskey returns %s for a constant function", e.str(y))
		}
		return
	}
	all := primes(want)
	terms, _ := e.termsOf(t, y, f.SortOr, f.SortAnd)
	for _, x := range terms {
		if !all[x] {
			t.Fatalf("Quine-McCluskey returns %s with the non-prime term %v", e.str(y), x)
		}
	}
	if len(all) > 14 {
		return
	}
	var ps []TT
	for x := range all {
		ps = append(ps, x.tt(e.NV))
	}
	best := len(ps)
	var rec func(i, k int, cover TT)
	rec = func(i, k int, cover TT) {
		if k >= best {
			return
		}
		if cover.Equal(want) {
			best = k
			return
		}
		if i == len(ps) {
			return
		}
		rec(i+1, k+1, cover.Or(ps[i]))
		rec(i+1, k, cover)
	}
	rec(0, 0, ttConst(e.NV, false))
	if len(terms) != best {
		t.Fatalf("Quine-McCluskey returns %s with %d terms, %d suffice", e.str(y), len(terms), best)
	}
	c.ClassIf(best >= 3 && len(all) > best, "cover smaller than the set of primes")
}

// ---- T02 ----

// mapTT evaluates a library formula with literals replaced by functions.
func (e *Env) mapTT(x f.Formula, lit func(L) TT) TT {
	r := e.R
	nv := e.NV
	switch x.Sort() {
	case f.SortFalse, f.SortTrue:
		return ttConst(nv, x.Sort() == f.SortTrue)
	case f.SortLiteral:
		return lit(r.lit(f.Literal(x)))
	case f.SortNot:
		op, _ := e.Fac.NotOperand(x)
		return e.mapTT(op, lit).Not()
	case f.SortImpl, f.SortEquiv:
		a, b, _ := e.Fac.BinaryLeftRight(x)
		if x.Sort() == f.SortImpl {
			return e.mapTT(a, lit).Imp(e.mapTT(b, lit))
		}
		return e.mapTT(a, lit).Eqv(e.mapTT(b, lit))
	case f.SortAnd, f.SortOr:
		res := ttConst(nv, x.Sort() == f.SortAnd)
		for _, o := range e.Fac.Operands(x) {
			if x.Sort() == f.SortAnd {
				res = res.And(e.mapTT(o, lit))
			} else {
				res = res.Or(e.mapTT(o, lit))
			}
		}
		return res
	}
	c, rhs, lits, cs, _ := e.Fac.PBCOps(x)
	var ts []TT
	for _, l := range lits {
		ts = append(ts, lit(r.lit(l)))
	}
	res := ttConst(nv, false)
	for i := 0; i < 1<<nv; i++ {
		sum := 0
		for j, tt := range ts {
			if tt.Get(i) {
				sum += cs[j]
			}
		}
		res.Set(i, cmpOf(c).Eval(sum, rhs))
	}
	return res
}

var _ = registerProp("T02", "formulas with constraints x substitutions (self references, swaps, duplicates, constants, complements), anonymizer histories, quantifier lists and pure expansions in both factory modes, against composed truth tables, and on formulas over tens of variables (oracle: sampled assignments and models); non-trivial: the result's function differs from the input's and is not constant",
	sub("wide", 2500, 2, 15, t02Wide),
	sub("substitute", 30000, 6, 12, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 9)
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 3)
		withCC := rapid.Bool().Draw(t, "cc")
		g := Gen{NV: nv, Depth: rapid.IntRange(0, 4).Draw(t, "depth"), Consts: true, CC: withCC, PBC: withCC}
		n := g.draw(t, "f")
		x := e.build(n)
		before := n.TT(nv)
		gs := Gen{NV: nv, Consts: true}
		subst := transformation.NewSubstitution()
		mapping := map[f.Variable]f.Formula{}
		img := map[int]f.Formula{}
		tts := make([]TT, nv)
		desc := ""
		for v := 0; v < nv; v++ {
			tts[v] = ttVar(nv, v)
		}
		for _, v := range genSubset(t, nv, 0) {
			gs.Depth = 0
			if rapid.IntRange(0, 2).Draw(t, "complex") == 0 {
				gs.Depth = rapid.IntRange(1, 2).Draw(t, "sdepth")
			}
			m := gs.draw(t, "s")
			y := e.build(m)
			tts[v] = m.TT(nv)
			img[v] = y
			if rapid.Bool().Draw(t, "map") {
				mapping[e.v(v)] = y
			} else {
				subst.AddVar(e.v(v), y)
			}
			desc += fmt.Sprintf(" %s:=%s", e.Names[v], e.nstr(m))
		}
		subst.AddMapping(mapping)
		want := e.mapTT(x, func(l L) TT {
			if l.Pos {
				return tts[l.V]
			}
			return tts[l.V].Not()
		})
		bad := false
		for _, s := range f.SubNodes(e.Fac, x) {
			if s.Sort() == f.SortCC || s.Sort() == f.SortPBC {
				_, _, ls, _, _ := e.Fac.PBCOps(s)
				for _, l := range ls {
					if y, ok := img[e.litIdx(t, l).V]; ok && !isConst(y) && !isLit(y) {
						bad = true
					}
				}
			}
		}
		c.Case(t, !bad && !want.Equal(before) && !want.IsTrue() && !want.IsFalse(), "%s %s with%s", e.Mode, e.nstr(n), desc)
		y, err := transformation.Substitute(e.Fac, x, subst)
		if (err != nil) != bad {
			t.Fatalf("substitution: error %v, formula for a constraint's variable: %v", err, bad)
		}
		if bad {
			c.Class("refused")
			return
		}
		e.equals(t, "substitution", y, want)
		e.equals(t, "formula after the substitution", x, before)
		c.ClassIf(!noCC(e.Fac, x), "constraints")
	}),
	sub("literals", 20000, 4, 12, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 9)
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 3)
		withCC := rapid.Bool().Draw(t, "cc")
		g := Gen{NV: nv, Depth: rapid.IntRange(0, 4).Draw(t, "depth"), Consts: true, CC: withCC, PBC: withCC}
		n := g.draw(t, "f")
		x := e.build(n)
		before := n.TT(nv)
		m := map[f.Literal]f.Literal{}
		lm := map[L]L{}
		desc := ""
		for i := rapid.IntRange(0, nv+2).Draw(t, "pairs"); i > 0; i-- {
			a, b := genLit(t, nv), genLit(t, nv)
			m[e.lit(a)] = e.lit(b)
			lm[a] = b
		}
		for _, v := range []bool{true, false} {
			for i := 0; i < nv; i++ {
				if b, ok := lm[L{i, v}]; ok {
					desc += fmt.Sprintf(" %s:=%s", e.lit(L{i, v}).Sprint(e.Fac), e.lit(b).Sprint(e.Fac))
				}
			}
		}
		tt := func(l L) TT { return ttLit(nv, l.V, l.Pos) }
		want := e.mapTT(x, func(l L) TT {
			if b, ok := lm[l]; ok {
				return tt(b)
			}
			if !l.Pos {
				if b, ok := lm[L{l.V, true}]; ok {
					return tt(b).Not()
				}
			}
			return tt(l)
		})
		c.Case(t, !want.Equal(before) && !want.IsTrue() && !want.IsFalse(), "%s %s with%s", e.Mode, e.nstr(n), desc)
		size := len(m)
		y := transformation.SubstituteLiterals(e.Fac, x, &m)
		if len(m) != size {
			t.Fatalf("the caller's mapping was changed")
		}
		e.equals(t, "literal substitution", y, want)
		e.equals(t, "formula after the substitution", x, before)
	}),
	sub("anonymize", 10000, 4, 12, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 8)
		names := genNames(t)
		prefix := "v"
		if rapid.Bool().Draw(t, "own prefix") {
			prefix = rapid.SampledFrom([]string{"x", "a", "_", "@anon"}).Draw(t, "prefix")
		}
		if rapid.IntRange(0, 2).Draw(t, "clash") == 0 {
			// names that are also generated by the anonymizer
			names = make(Names, 14)
			for i := range names {
				names[i] = fmt.Sprintf("%s%d", prefix, (i*5+2)%14)
			}
		}
		e := mkEnv(names, nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 3)
		g := Gen{NV: nv, Consts: true, CC: true, PBC: true}
		single := rapid.IntRange(0, 3).Draw(t, "single") == 0
		var an *transformation.Anonymizer
		if prefix == "v" {
			an = transformation.NewAnonymizer(e.Fac)
		} else {
			an = transformation.NewAnonymizer(e.Fac, prefix)
		}
		var ns []*N
		for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
			g.Depth = rapid.IntRange(0, 3).Draw(t, "depth")
			ns = append(ns, g.draw(t, "f"))
		}
		c.Case(t, nv >= 2, "%s prefix %s: %s", e.Mode, prefix, e.nstrs(ns))
		back := map[string]int{} // new name -> variable
		seen := map[int]bool{}
		for i, n := range ns {
			x := e.build(n)
			want := n.TT(nv)
			var y f.Formula
			if single && prefix == "v" {
				back, seen = map[string]int{}, map[int]bool{}
				y = transformation.Anonymize(e.Fac, x)
			} else {
				y = an.Anonymize(x)
			}
			// new variables appear in the order of the input's variables
			for _, v := range f.Variables(e.Fac, x).Content() {
				if k := e.varIdx(v); !seen[k] {
					seen[k] = true
					back[fmt.Sprintf("%s%d", prefix, len(back))] = k
				}
			}
			r := &Reader{e.Fac, map[string]int{}, nv, map[f.Formula]TT{}}
			for name, k := range back {
				r.Idx[name] = k
			}
			for _, v := range f.Variables(e.Fac, y).Content() {
				name, _ := e.Fac.VarName(v)
				if _, ok := back[name]; !ok {
					t.Fatalf("call %d: anonymized formula %s has the variable %s", i, e.str(y), name)
				}
			}
			if got := r.TT(y); !got.Equal(want) {
				t.Fatalf("call %d: anonymized formula %s is no consistent renaming of %s", i, e.str(y), e.str(x))
			}
		}
	}),
	sub("quantify", 20000, 4, 12, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 10)
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 3)
		withCC := rapid.Bool().Draw(t, "cc")
		g := Gen{NV: nv, Depth: rapid.IntRange(0, 4).Draw(t, "depth"), Consts: true, CC: withCC, PBC: withCC}
		n := g.draw(t, "f")
		x := e.build(n)
		before := n.TT(nv)
		var vs []int
		nq := 4
		if nv > 6 {
			nq = nv - 1
		}
		for i := rapid.IntRange(0, nq).Draw(t, "nq"); i > 0; i-- {
			vs = append(vs, rapid.IntRange(0, nv-1).Draw(t, "qv"))
		}
		all := rapid.Bool().Draw(t, "universal")
		want := before.clone()
		for _, v := range vs {
			if all {
				want = want.Forall(v)
			} else {
				want = want.Exists(v)
			}
		}
		c.Case(t, !want.Equal(before) && !want.IsTrue() && !want.IsFalse(), "%s universal=%v %s of %s", e.Mode, all, e.vstrs(e.vars(vs)), e.nstr(n))
		var y f.Formula
		if all {
			y = transformation.UniversalQE(e.Fac, x, e.vars(vs)...)
		} else {
			y = transformation.ExistentialQE(e.Fac, x, e.vars(vs)...)
		}
		e.equals(t, "quantifier elimination", y, want)
		for _, v := range varsOfF(e, y) {
			if slices.Contains(vs, v) {
				t.Fatalf("result %s contains the eliminated variable %s", e.str(y), e.Names[v])
			}
		}
	}),
	sub("expand", 15000, 4, 12, func(t *rapid.T, c *Ctx) {
		nv := rapid.IntRange(1, 12).Draw(t, "nv")
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 3)
		other := rapid.IntRange(0, 3).Draw(t, "other") == 0
		g := Gen{NV: nv, Depth: rapid.IntRange(0, 3).Draw(t, "depth"), Consts: true, CC: true, AMOOnly: !other, PBC: other}
		n := g.draw(t, "f")
		want := n.TT(nv)
		x := e.build(n)
		ok := countable(e.Fac, x)
		c.Case(t, ok && !noCC(e.Fac, x), "%s %s", e.Mode, e.nstr(n))
		y, err := transformation.ExpandAMOAndEXO(e.Fac, x)
		if (err == nil) != ok {
			t.Fatalf("expansion: error %v, only AMO/EXO constraints: %v", err, ok)
		}
		if err != nil {
			c.Class("refused")
			return
		}
		if !noCC(e.Fac, y) {
			t.Fatalf("expanded formula %s contains a constraint", e.str(y))
		}
		e.equals(t, "expansion", y, want)
	}),
)
