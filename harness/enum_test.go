package harness

import (
	"fmt"
	"math"
	"math/big"
	"slices"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/sat"
	"pgregory.net/rapid"
)

// depthStrategy is a user-defined strategy with depth-dependent limits and
// its own choice of split variables.
type depthStrategy struct {
	limits []int
	stride int
}

func (s depthStrategy) MaxModelsForIter(d int) int             { return s.limits[d%len(s.limits)] }
func (s depthStrategy) MaxModelsForSplitAssignments(d int) int { return s.limits[(d+1)%len(s.limits)] }
func (s depthStrategy) SplitVarsForRecursionDepth(vars *f.VarSet, _ *sat.Solver, d int) *f.VarSet {
	var r []f.Variable
	for i, v := range vars.Content() {
		if (i+d)%s.stride == 0 || d > 2 {
			r = append(r, v)
		}
	}
	return f.NewVarSet(r...)
}

func (s depthStrategy) ReduceSplitVars(vars *f.VarSet, _ int) *f.VarSet {
	return f.NewVarSet(vars.Content()[:vars.Size()-1]...)
}

// genStrategy draws an iteration strategy; vars are the enumeration variables.
func genStrategy(t *rapid.T, e *Env, vars []int) (iter.Strategy, string) {
	switch rapid.IntRange(0, 7).Draw(t, "strategy") {
	case 0:
		return nil, "nil"
	case 1:
		return iter.NewNoSplitMEStrategy(), "nosplit"
	case 2:
		return iter.DefaultStrategy(), "default"
	case 3:
		s := depthStrategy{stride: rapid.IntRange(1, 3).Draw(t, "stride")}
		for i := rapid.IntRange(1, 3).Draw(t, "nlim"); i > 0; i-- {
			s.limits = append(s.limits, rapid.IntRange(3, 6).Draw(t, "lim"))
		}
		return s, fmt.Sprintf("depth%v/%d", s.limits, s.stride)
	default:
		max := rapid.IntRange(0, 7).Draw(t, "max")
		rate := pick(t, "rate", 0.5, 0.0, 0.2, 0.9, 1.0)
		mv := pick(t, "maxVars", 18, 0, 1, 2, 3)
		switch rapid.IntRange(0, 4).Draw(t, "provider") {
		case 0:
			return iter.NewBasicStrategy(iter.NewLeastCommonVarProvider(rate, mv), max), fmt.Sprintf("least(%v,%d)/%d", rate, mv, max)
		case 1:
			return iter.NewBasicStrategy(iter.NewMostCommonVarProvider(rate, mv), max), fmt.Sprintf("most(%v,%d)/%d", rate, mv, max)
		case 2:
			return iter.NewBasicStrategy(iter.DefaultLeastCommonVarProvider(), max), fmt.Sprintf("least/%d", max)
		case 3:
			return iter.NewBasicStrategy(iter.DefaultMostCommonVarProvider(), max), fmt.Sprintf("most/%d", max)
		default:
			var s []int
			for _, v := range vars {
				if rapid.Bool().Draw(t, "fixed") {
					s = append(s, v)
				}
			}
			return iter.NewBasicStrategy(iter.NewFixedVarProvider(f.NewVarSet(e.vars(s)...)), max), fmt.Sprintf("fixed%s/%d", e.vstrs(e.vars(s)), max)
		}
	}
}

func maskOf(vs []int) int {
	m := 0
	for _, v := range vs {
		m |= 1 << v
	}
	return m
}

// checkEnum checks enumerated models: distinct, genuine, over exactly the
// requested variables, and all of them if complete.
func checkEnum(t *rapid.T, e *Env, what string, ms []*model.Model, vars, add []int, want TT, complete bool) {
	proj := want.Proj(vars)
	seen := map[int]bool{}
	mask := maskOf(vars) | maskOf(add)
	for _, m := range ms {
		val, got := e.litsAss(t, m.Literals)
		if got != mask {
			t.Fatalf("%s: model %s assigns %s, requested %s", what, m.Sprint(e.Fac), sprintMask(e, got), sprintMask(e, mask))
		}
		p := projIdx(val, vars)
		if !proj[p] {
			t.Fatalf("%s: %s is no model over the enumeration variables", what, m.Sprint(e.Fac))
		}
		if seen[p] {
			t.Fatalf("%s: model %s enumerated twice", what, m.Sprint(e.Fac))
		}
		seen[p] = true
		if want.And(ttCube(e.NV, val, mask)).IsFalse() {
			t.Fatalf("%s: %s does not extend to a model", what, m.Sprint(e.Fac))
		}
	}
	if complete && len(seen) != len(proj) {
		t.Fatalf("%s: %d models enumerated, expected %d", what, len(seen), len(proj))
	}
}

// projTT is the projection of want to vars as a function.
func projTT(want TT, vars []int) TT {
	m := maskOf(vars)
	for v := 0; v < want.N; v++ {
		if m>>v&1 == 0 {
			want = want.Exists(v)
		}
	}
	return want
}

// bddTT reads a BDD through its node representation.
func (e *Env) bddTT(t *rapid.T, b *bdd.BDD) TT {
	memo := map[bdd.Node]TT{}
	var rec func(n bdd.Node) TT
	rec = func(n bdd.Node) TT {
		if r, ok := memo[n]; ok {
			return r
		}
		var r TT
		if !n.InnerNode() {
			switch n.Label() {
			case "$true":
				r = ttConst(e.NV, true)
			case "$false":
				r = ttConst(e.NV, false)
			default:
				t.Fatalf("unknown terminal %q", n.Label())
			}
		} else {
			i, ok := e.R.Idx[n.Label()]
			if !ok || i >= e.NV {
				t.Fatalf("BDD node with foreign variable %q", n.Label())
			}
			x := ttLit(e.NV, i, true)
			r = x.And(rec(n.High())).Or(x.Not().And(rec(n.Low())))
		}
		memo[n] = r
		return r
	}
	return rec(b.NodeRepresentation())
}

func (e *Env) bddEquals(t *rapid.T, what string, b *bdd.BDD, want TT) {
	if b == nil {
		t.Fatalf("%s: no BDD", what)
	}
	got := e.bddTT(t, b)
	if !got.Equal(want) {
		d := got.Xor(want).Indices()
		t.Fatalf("%s: BDD has value %v at assignment %s (expected %v)", what, got.Get(d[0]), e.assStr(d[0]), want.Get(d[0]))
	}
}

// genEnumVars draws the enumeration variables (some not in any formula, now
// and then in another order or repeated).
func genEnumVars(t *rapid.T, e *Env) []int {
	var vs []int
	switch rapid.IntRange(0, 5).Draw(t, "ev") {
	case 0, 1, 2:
		for i := 0; i < e.NV; i++ {
			vs = append(vs, i)
		}
	default:
		vs = genSubset(t, e.NV, 0)
	}
	if rapid.IntRange(0, 3).Draw(t, "rev") == 3 {
		slices.Reverse(vs)
	}
	return vs
}

func genAdd(t *rapid.T, e *Env) []int {
	if rapid.IntRange(0, 2).Draw(t, "add") < 2 {
		return nil
	}
	return genSubset(t, e.NV, 0)
}

// genFree draws formulas with many models: few clauses over many variables.
func genFree(t *rapid.T, nv int) []*N {
	var ns []*N
	for i := rapid.IntRange(0, 4).Draw(t, "nform"); i > 0; i-- {
		if rapid.IntRange(0, 2).Draw(t, "kind") < 2 {
			k := rapid.IntRange(2, 4).Draw(t, "len")
			n := nOp(OpOr)
			for j := 0; j < k; j++ {
				l := genLit(t, nv)
				n.Kids = append(n.Kids, nLit(l.V, l.Pos))
			}
			ns = append(ns, n)
		} else {
			ns = append(ns, genSatN(t, nv))
		}
	}
	return ns
}

// enumCase draws formulas, loads them onto a solver and shuffles the order in
// which the factory meets the variables.
func enumCase(t *rapid.T, lo, hi int) (*Env, []*N, TT) {
	nv := rapid.IntRange(lo, hi).Draw(t, "nv")
	e := mkEnv(genNames(t), nv, rapid.IntRange(0, 4).Draw(t, "conserve") == 4)
	if rapid.Bool().Draw(t, "rereg") {
		o := rapid.IntRange(0, nv-1).Draw(t, "first")
		for i := 0; i < nv; i++ {
			e.v((i + o) % nv)
		}
	}
	var ns []*N
	if rapid.Bool().Draw(t, "free") {
		ns = genFree(t, nv)
	} else {
		for i := rapid.IntRange(1, 3).Draw(t, "nform"); i > 0; i-- {
			ns = append(ns, genSatN(t, nv))
		}
	}
	return e, ns, conj(nv, ns)
}

var _ = registerProp("C01", "formula sets (with constraints) x enumeration variables (incl. variables in no formula) x additional variables x strategies (default, none, basic with all providers and limits, user-defined depth-dependent); models against the projected truth table, and on problems over tens of variables with a chain structure (oracle: dynamic programming); non-trivial: at least 3 projected models, or additional variables with at least one model",
	sub("long", 150, 2, 12, c01Long),
	sub("enumerate", 12000, 6, 12, func(t *rapid.T, c *Ctx) {
		e, ns, want := enumCase(t, 1, 7)
		vars := genEnumVars(t, e)
		add := genAdd(t, e)
		st, ss := genStrategy(t, e, vars)
		proj := len(want.Proj(vars))
		mode := rapid.IntRange(0, 5).Draw(t, "mode")
		c.Case(t, proj >= 3 || len(add) > 0 && proj > 0, "%s mode=%d [%s] over %s add %s strategy %s", e.Mode, mode, e.nstrs(ns), e.vstrs(e.vars(vars)), e.vstrs(e.vars(add)), ss)
		var ms []*model.Model
		state := handler.Success()
		cfg := &iter.Config{Handler: handler.NopHandler, Strategy: st}
		vs, as := e.vars(vars), e.vars(add)
		vs0, as0 := slices.Clone(vs), slices.Clone(as)
		var fs []f.Formula
		for _, n := range ns {
			fs = append(fs, e.build(n))
		}
		switch mode {
		case 0:
			ms = enum.OnFormula(e.Fac, e.Fac.And(fs...), vs, as...)
		case 1, 2:
			ms, state = enum.OnFormulaWithConfig(e.Fac, e.Fac.And(fs...), vs, cfg, as...)
		case 3, 4:
			s := sat.NewSolver(e.Fac)
			s.Add(fs...)
			ms, state = enum.OnSolverWithConfig(s, vs, cfg, as...)
		default:
			s := sat.NewSolver(e.Fac)
			s.Add(fs...)
			ms = enum.OnSolver(s, vs, as...)
		}
		if !state.Success {
			t.Fatalf("enumeration canceled by nobody")
		}
		if !slices.Equal(vs, vs0) || !slices.Equal(as, as0) {
			t.Fatalf("argument modified")
		}
		checkEnum(t, e, "enumeration", ms, vars, add, want, true)
		c.ClassIf(proj >= 8, "at least 8 projected models")
		c.ClassIf(len(vars) < e.NV, "proper projection")
		c.ClassIf(proj == 0, "unsatisfiable")
		c.Class("strategy " + ss[:min(4, len(ss))])
	}),
	sub("bdd", 6000, 4, 12, func(t *rapid.T, c *Ctx) {
		e, ns, want := enumCase(t, 1, 7)
		vars := genEnumVars(t, e)
		st, ss := genStrategy(t, e, vars)
		p := projTT(want, vars)
		mode := rapid.IntRange(0, 3).Draw(t, "mode")
		c.Case(t, len(want.Proj(vars)) >= 3, "%s mode=%d [%s] over %s strategy %s", e.Mode, mode, e.nstrs(ns), e.vstrs(e.vars(vars)), ss)
		cfg := &iter.Config{Handler: handler.NopHandler, Strategy: st}
		var fs []f.Formula
		for _, n := range ns {
			fs = append(fs, e.build(n))
		}
		s := sat.NewSolver(e.Fac)
		s.Add(fs...)
		var b *bdd.BDD
		state := handler.Success()
		switch mode {
		case 0:
			b = enum.ToBddOnFormula(e.Fac, e.Fac.And(fs...), e.vars(vars))
		case 1:
			b, state = enum.ToBddOnFormulaWithConfig(e.Fac, e.Fac.And(fs...), e.vars(vars), cfg)
		case 2:
			b = enum.ToBddOnSolver(s, e.vars(vars))
		default:
			b, state = enum.ToBddOnSolverWithConfig(s, e.vars(vars), cfg)
		}
		if !state.Success {
			t.Fatalf("enumeration canceled by nobody")
		}
		e.bddEquals(t, "enumeration BDD", b, p)
		if n := len(want.Proj(vars)); len(vars) > 0 && b.ModelCount().Cmp(big.NewInt(int64(n))) != 0 {
			t.Fatalf("the BDD of the %d projected models counts %s models", n, b.ModelCount())
		}
		c.ClassIf(!p.IsFalse() && !p.IsTrue(), "non-constant BDD")
	}),
	sub("history", 4000, 6, 12, func(t *rapid.T, c *Ctx) {
		m := newSatM(t, c, false, 1, 6)
		e := m.e
		big, enums := false, 0
		for i := rapid.IntRange(2, 9).Draw(t, "n"); i > 0; i-- {
			switch k := rapid.IntRange(0, 11).Draw(t, "op"); {
			case k <= 3:
				m.add(m.pool.draw(t, e.NV), rapid.Bool().Draw(t, "prop"))
			case k == 4:
				m.save()
			case k == 5:
				if len(m.states) > 0 {
					m.load(rapid.IntRange(0, len(m.states)-1).Draw(t, "state"))
				}
			case k == 6:
				m.call(true, true, true)
			case k == 7:
				m.extract()
			default:
				vars := genEnumVars(t, e)
				add := genAdd(t, e)
				st, ss := genStrategy(t, e, vars)
				cfg := &iter.Config{Handler: handler.NopHandler, Strategy: st}
				m.log("enumerate %s add %s strategy %s", e.vstrs(e.vars(vars)), e.vstrs(e.vars(add)), ss)
				if k == 8 {
					b, s := enum.ToBddOnSolverWithConfig(m.s, e.vars(vars), cfg)
					if !s.Success {
						m.fail("canceled")
					}
					e.bddEquals(t, "enumeration BDD", b, projTT(m.want(), vars))
				} else {
					ms, s := enum.OnSolverWithConfig(m.s, e.vars(vars), cfg, e.vars(add)...)
					if !s.Success {
						m.fail("canceled")
					}
					checkEnum(t, e, "enumeration", ms, vars, add, m.want(), true)
					big = big || len(ms) >= 3
				}
				enums++
			}
		}
		m.call(true, true, true)
		m.finish(enums > 0 && big)
		c.ClassIf(enums >= 2, "repeated enumeration")
	}),
	sub("canonical", 3000, 2, 12, func(t *rapid.T, c *Ctx) {
		e, ns, want := enumCase(t, 1, 5)
		n := ns2(ns)
		x := e.build(n)
		c.Case(t, !want.IsFalse() && !want.IsTrue(), "%s %s", e.Mode, e.nstr(n))
		used := varsOfF(e, x)
		cnf := enum.CanonicalCNF(e.Fac, x)
		dnf := enum.CanonicalDNF(e.Fac, x)
		cnf2, s1 := enum.CanonicalCNFWithHandler(e.Fac, x, &kHandler{})
		dnf2, s2 := enum.CanonicalDNFWithHandler(e.Fac, x, &kHandler{})
		if !s1.Success || !s2.Success {
			t.Fatalf("canceled by nobody")
		}
		e.equals(t, "canonical CNF", cnf, want)
		e.equals(t, "canonical DNF", dnf, want)
		e.equals(t, "canonical CNF", cnf2, want)
		e.equals(t, "canonical DNF", dnf2, want)
		if !isCNFShape(e.Fac, cnf) || !isDNFShape(e.Fac, dnf) {
			t.Fatalf("canonical forms %s and %s have the wrong shape", e.str(cnf), e.str(dnf))
		}
		// each term is complete and there are as many as models
		models := want.Count() >> (e.NV - len(used))
		checkFull := func(y f.Formula, sort f.FSort, want int) {
			if want == 0 || len(used) < 2 {
				return
			}
			terms := []f.Formula{y}
			if want > 1 {
				terms = e.Fac.Operands(y)
			}
			if len(terms) != want {
				t.Fatalf("canonical form %s has %d terms, expected %d", e.str(y), len(terms), want)
			}
			for _, o := range terms {
				if o.Sort() != sort || len(e.Fac.Operands(o)) != len(used) {
					t.Fatalf("term %s of canonical form is not complete", e.str(o))
				}
			}
		}
		checkFull(dnf, f.SortAnd, models)
		checkFull(cnf, f.SortOr, 1<<len(used)-models)
	}),
	sub("chain", 400, 4, 12, c01Chain),
)

func ns2(ns []*N) *N {
	if len(ns) == 1 {
		return ns[0]
	}
	return nOp(OpAnd, ns...)
}

func varsOfF(e *Env, x f.Formula) []int {
	var r []int
	for _, v := range f.Variables(e.Fac, x).Content() {
		r = append(r, e.varIdx(v))
	}
	slices.Sort(r)
	return r
}

// eventLog counts events and cancels at the k-th.
func checkCancel(t *rapid.T, h *kHandler, state handler.State, what string) {
	if h.canceled == state.Success {
		t.Fatalf("%s: handler canceled: %v, state success: %v", what, h.canceled, state.Success)
	}
	if !state.Success && (state.CancelCause == nil || state.CancelCause == event.Nothing) {
		t.Fatalf("%s: canceled without a cause", what)
	}
}

var _ = registerProp("C02", "enumerations (models, BDD, counting, canonical forms) canceled at a generated event index (once or from then on) or after a model limit, for all strategies, between calls on one solver; partial results against the projected truth table; non-trivial: canceled with at least 2 projected models",
	sub("cancel", 12000, 8, 12, func(t *rapid.T, c *Ctx) {
		m := newSatM(t, c, false, 1, 6)
		e := m.e
		for _, n := range genFree(t, e.NV) {
			m.add(n, rapid.Bool().Draw(t, "prop"))
		}
		nontriv := false
		for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
			vars := genEnumVars(t, e)
			st, ss := genStrategy(t, e, vars)
			h := &kHandler{sticky: rapid.Bool().Draw(t, "sticky")}
			if rapid.IntRange(0, 7).Draw(t, "never") > 0 {
				h.k = rapid.IntRange(1, 60).Draw(t, "k")
			}
			want := m.want()
			proj := want.Proj(vars)
			cfg := &iter.Config{Handler: h, Strategy: st}
			what := rapid.IntRange(0, 5).Draw(t, "what")
			m.log("what=%d over %s strategy %s cancel at %d sticky=%v", what, e.vstrs(e.vars(vars)), ss, h.k, h.sticky)
			switch what {
			case 0, 1, 2:
				add := genAdd(t, e)
				ms, s := enum.OnSolverWithConfig(m.s, e.vars(vars), cfg, e.vars(add)...)
				checkCancel(t, h, s, "enumeration")
				checkEnum(t, e, "enumeration", ms, vars, add, want, s.Success)
				c.ClassIf(!s.Success && len(ms) > 0, "canceled with partial result")
			case 3:
				b, s := enum.ToBddOnSolverWithConfig(m.s, e.vars(vars), cfg)
				checkCancel(t, h, s, "BDD enumeration")
				p := projTT(want, vars)
				if s.Success {
					e.bddEquals(t, "enumeration BDD", b, p)
				} else if b != nil && !e.bddTT(t, b).Imp(p).IsTrue() {
					m.fail("BDD of a canceled enumeration has wrong models")
				}
			case 4:
				cnt, s := count.OnSolverWithConfig(m.s, e.vars(vars), cfg)
				checkCancel(t, h, s, "count")
				if s.Success && cnt.Cmp(big.NewInt(int64(len(proj)))) != 0 || !s.Success && cnt != nil && cnt.Cmp(big.NewInt(int64(len(proj)))) > 0 {
					m.fail("count %v (success: %v), expected %d", cnt, s.Success, len(proj))
				}
			default:
				x := e.Fac.Verum()
				tt := ttConst(e.NV, true)
				if len(m.cur) > 0 {
					x, tt = m.cur[0].x, m.cur[0].tt
				}
				cnf := rapid.Bool().Draw(t, "cnf")
				var r f.Formula
				var s handler.State
				if cnf {
					r, s = enum.CanonicalCNFWithHandler(e.Fac, x, h)
				} else {
					r, s = enum.CanonicalDNFWithHandler(e.Fac, x, h)
				}
				checkCancel(t, h, s, "canonical form")
				if s.Success {
					e.equals(t, "canonical form", r, tt)
				}
			}
			nontriv = nontriv || h.canceled && len(proj) >= 2
			c.ClassIf(h.canceled, "canceled")
			if rapid.Bool().Draw(t, "recheck") {
				m.call(true, true, true)
			}
			if rapid.IntRange(0, 2).Draw(t, "again") == 0 {
				ms := enum.OnSolver(m.s, e.vars(vars))
				checkEnum(t, e, "enumeration after cancelation", ms, vars, nil, want, true)
			}
		}
		m.call(true, true, true)
		m.finish(nontriv)
	}),
	sub("limit", 6000, 4, 12, func(t *rapid.T, c *Ctx) {
		e, ns, want := enumCase(t, 1, 6)
		vars := genEnumVars(t, e)
		st, ss := genStrategy(t, e, vars)
		limit := rapid.IntRange(0, 20).Draw(t, "limit")
		proj := want.Proj(vars)
		h := iter.HandlerWithLimit(limit)
		c.Case(t, limit > 0 && limit <= len(proj) && len(proj) >= 2, "%s [%s] over %s strategy %s limit %d", e.Mode, e.nstrs(ns), e.vstrs(e.vars(vars)), ss, limit)
		s := sat.NewSolver(e.Fac)
		for _, n := range ns {
			s.Add(e.build(n))
		}
		known := s.CoreSolver().KnownVariables(e.Fac)
		free := 0
		for _, v := range vars {
			if !known.Contains(e.v(v)) {
				free++
			}
		}
		cfg := &iter.Config{Handler: h, Strategy: st}
		for i := rapid.IntRange(1, 2).Draw(t, "rounds"); i > 0; i-- {
			var got int
			var state handler.State
			if rapid.Bool().Draw(t, "cnt") {
				var cnt *big.Int
				cnt, state = count.OnSolverWithConfig(s, e.vars(vars), cfg)
				if cnt == nil || cnt.Cmp(big.NewInt(int64(len(proj)))) > 0 {
					t.Fatalf("count %v exceeds %d", cnt, len(proj))
				}
				got = int(cnt.Int64())
			} else {
				var ms []*model.Model
				ms, state = enum.OnSolverWithConfig(s, e.vars(vars), cfg)
				checkEnum(t, e, "limited enumeration", ms, vars, nil, want, state.Success)
				got = len(ms)
			}
			if state.Success && got != len(proj) {
				t.Fatalf("successful enumeration yields %d of %d models", got, len(proj))
			}
			if ss == "nosplit" || ss == "nil" {
				// the models come in blocks of 2^free
				block := 1 << free
				exp := min(len(proj), int(math.Ceil(float64(limit)/float64(block)))*block)
				canceled := limit <= len(proj)
				if got != exp || state.Success == canceled {
					t.Fatalf("limit %d: %d models (canceled: %v), expected %d (canceled: %v)", limit, got, !state.Success, exp, canceled)
				}
				c.Class("exact limit")
			}
		}
		ms := enum.OnSolver(s, e.vars(vars))
		checkEnum(t, e, "enumeration after limit", ms, vars, nil, want, true)
	}),
)

// countable reports whether all constraints of the formula are at-most-one
// or exactly-one constraints.
func countable(fac f.Factory, xs ...f.Formula) bool {
	for _, x := range xs {
		for _, s := range f.SubNodes(fac, x) {
			if s.Sort() == f.SortPBC {
				return false
			}
			if s.Sort() == f.SortCC {
				cmp, rhs, _, _, _ := fac.PBCOps(s)
				if !(cmp == f.LE && rhs == 1 || cmp == f.LT && rhs == 2 || cmp == f.EQ && rhs == 1) {
					return false
				}
			}
		}
	}
	return true
}

var _ = registerProp("C03", "formula sets x counting variables x back ends (projected enumeration with all strategies, DNNF-based Count, DNNF ModelCount, BDD ModelCount) against the brute-force count, repeated, also with up to 150 unconstrained counting variables and counts beyond 64 bits; unsupported constraints must be refused, and on problems over tens of variables with a chain structure (oracle: dynamic programming); non-trivial: at least 2 models and not all assignments",
	sub("long", 200, 2, 12, c03Long),
	sub("count", 8000, 8, 12, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 7, 9)
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 4).Draw(t, "conserve") == 4)
		if rapid.IntRange(0, 3).Draw(t, "config") == 3 {
			cfg := normalform.DefaultCNFConfig()
			cfg.Algorithm = []normalform.CNFAlgorithm{normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum, normalform.CNFAdvanced, normalform.CNFFactorization}[rapid.IntRange(0, 3).Draw(t, "alg")]
			cfg.FallbackAlgorithmForAdvancedEncoding = []normalform.CNFAlgorithm{normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum}[rapid.IntRange(0, 1).Draw(t, "fallback")]
			cfg.AtomBoundary = int(rapid.IntRange(0, 3).Draw(t, "atoms"))
			cfg.CreatedClauseBoundary = rapid.IntRange(1, 8).Draw(t, "created")
			e.Fac.PutConfiguration(cfg)
		}
		g := Gen{NV: nv, Consts: true, CC: rapid.Bool().Draw(t, "ccs"), AMOOnly: true}
		var ns []*N
		for i := rapid.IntRange(0, 5).Draw(t, "nform"); i > 0; i-- {
			switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
			case k <= 2:
				ns = append(ns, genClauseN(t, nv, 3))
			case k <= 4:
				l := genLit(t, nv)
				ns = append(ns, nLit(l.V, l.Pos))
			case k == 9 && rapid.IntRange(0, 3).Draw(t, "pbc") == 0:
				ns = append(ns, genSatN(t, nv))
			default:
				g.Depth = rapid.IntRange(0, 3).Draw(t, "depth")
				ns = append(ns, g.draw(t, "f"))
			}
		}
		want := conj(nv, ns)
		var xs []f.Formula
		for _, n := range ns {
			xs = append(xs, e.build(n))
		}
		all := e.Fac.And(xs...)
		used := varsOfFs(e, xs)
		vars := slices.Clone(used)
		for v := 0; v < nv; v++ {
			if !slices.Contains(vars, v) && rapid.Bool().Draw(t, "extra") {
				vars = append(vars, v)
			}
		}
		exp := want.Count() >> (nv - len(vars))
		supported := countable(e.Fac, xs...)
		c.Case(t, exp >= 2 && exp < 1<<len(vars), "%s [%s] over %s", e.Mode, e.nstrs(ns), e.vstrs(e.vars(vars)))
		check := func(what string, got *big.Int, want int) {
			if got == nil || got.Cmp(big.NewInt(int64(want))) != 0 {
				t.Fatalf("%s yields %v, expected %d", what, got, want)
			}
		}
		for r := rapid.IntRange(1, 2).Draw(t, "rounds"); r > 0; r-- {
			ops := rapid.IntRange(0, 15).Draw(t, "ops")
			if ops&1 == 0 {
				var got *big.Int
				var err error
				if rapid.Bool().Draw(t, "hdl") {
					var st handler.State
					got, err, st = count.CountWithHandler(e.Fac, e.vars(vars), &kHandler{}, xs...)
					if !st.Success {
						t.Fatalf("canceled by nobody")
					}
				} else {
					got, err = count.Count(e.Fac, e.vars(vars), xs...)
				}
				if supported != (err == nil) {
					t.Fatalf("count.Count: error %v, supported: %v", err, supported)
				}
				if err == nil {
					check("count.Count", got, exp)
					c.Class("DNNF-based count")
				} else {
					c.Class("refused")
				}
			}
			if ops&2 == 0 {
				sub := genEnumVars(t, e)
				st, ss := genStrategy(t, e, sub)
				n := len(want.Proj(sub))
				cfg := &iter.Config{Handler: handler.NopHandler, Strategy: st}
				switch rapid.IntRange(0, 3).Draw(t, "how") {
				case 0:
					check("count.OnFormula", count.OnFormula(e.Fac, all, e.vars(sub)), n)
				case 1:
					got, _ := count.OnFormulaWithConfig(e.Fac, all, e.vars(sub), cfg)
					check("count.OnFormulaWithConfig "+ss, got, n)
				default:
					s := sat.NewSolver(e.Fac)
					s.Add(xs...)
					got, _ := count.OnSolverWithConfig(s, e.vars(sub), cfg)
					check("count.OnSolverWithConfig "+ss, got, n)
					check("count.OnSolver", count.OnSolver(s, e.vars(vars)), exp)
				}
				c.Class("projected count")
			}
			if ops&4 == 0 && noCC(e.Fac, all) {
				d := dnnf.Compile(e.Fac, all)
				u := len(varsOfF(e, all))
				check("dnnf.ModelCount", d.ModelCount(), want.Count()>>(nv-u))
				check("dnnf.ModelCount again", d.ModelCount(), want.Count()>>(nv-u))
				c.Class("DNNF count")
			}
			if ops&8 == 0 && auxFree(e.Fac, all) {
				b := bdd.Compile(e.Fac, all)
				u := len(varsOfF(e, all))
				check("bdd.ModelCount", b.ModelCount(), want.Count()>>(nv-u))
				check("bdd.ModelCount again", b.ModelCount(), want.Count()>>(nv-u))
				c.Class("BDD count")
			}
		}
	}),
	sub("families", 400, 4, 12, c03Families),
	sub("large", 300, 4, 12, func(t *rapid.T, c *Ctx) {
		// independent blocks: the count is a product and exceeds 64 bits
		blocks := rapid.IntRange(2, 14).Draw(t, "blocks")
		nv := rapid.IntRange(2, 5).Draw(t, "nv")
		extra := rapid.IntRange(0, 150).Draw(t, "extra")
		fac := f.NewFactory()
		exp := big.NewInt(1)
		small, smallExp := rapid.IntRange(0, 3).Draw(t, "small"), 1 // blocks for the enumeration
		var smallXs, xs []f.Formula
		var smallVars []f.Variable
		var vars []f.Variable
		desc := ""
		for b := 0; b < blocks; b++ {
			names := make(Names, nv)
			for i := range names {
				names[i] = fmt.Sprintf("b%d_%d", b, i)
				vars = append(vars, fac.Var(names[i]))
			}
			g := Gen{NV: nv, Depth: 2}
			n := g.draw(t, "f")
			cnt := n.TT(nv).Count()
			if cnt == 0 {
				continue
			}
			xs = append(xs, n.Build(fac, names))
			desc += n.str(names) + " ; "
			exp.Mul(exp, big.NewInt(int64(cnt)))
			if small > 0 && smallExp*cnt <= 500 {
				small--
				smallXs = append(smallXs, xs[len(xs)-1])
				smallVars = append(smallVars, vars[b*nv:]...)
				smallExp *= cnt
			}
		}
		for i := 0; i < extra; i++ {
			vars = append(vars, fac.Var(fmt.Sprintf("x%d", i)))
			smallVars = append(smallVars, vars[len(vars)-1])
		}
		exp.Mul(exp, new(big.Int).Exp(big.NewInt(2), big.NewInt(int64(extra)), nil))
		free := blocks - len(xs)
		exp.Mul(exp, new(big.Int).Exp(big.NewInt(2), big.NewInt(int64(free*nv)), nil))
		c.Case(t, len(xs) >= 2, "blocks=%d nv=%d extra=%d %s", blocks, nv, extra, desc)
		// projected enumeration: few models, many variables unknown to the solver
		es := new(big.Int).Lsh(big.NewInt(int64(smallExp)), uint(extra))
		cfg := &iter.Config{Handler: handler.NopHandler, Strategy: iter.DefaultStrategy()}
		switch rapid.IntRange(0, 2).Draw(t, "how") {
		case 0:
			cfg.Strategy = iter.NewNoSplitMEStrategy()
		case 1:
			cfg.Strategy = iter.NewBasicStrategy(iter.DefaultMostCommonVarProvider(), rapid.IntRange(3, 60).Draw(t, "limit"))
		}
		if got := count.OnFormula(fac, fac.And(smallXs...), smallVars); got.Cmp(es) != 0 {
			t.Fatalf("count.OnFormula yields %v, expected %v", got, es)
		}
		s := sat.NewSolver(fac)
		s.Add(smallXs...)
		if got, st := count.OnSolverWithConfig(s, smallVars, cfg); !st.Success || got.Cmp(es) != 0 {
			t.Fatalf("count.OnSolverWithConfig yields %v (%v), expected %v", got, st.Success, es)
		}
		c.ClassIf(es.BitLen() > 64, "enumerated count exceeds 64 bits")
		got, err := count.Count(fac, vars, xs...)
		if err != nil || got.Cmp(exp) != 0 {
			t.Fatalf("count.Count yields %v (%v), expected %v", got, err, exp)
		}
		k := bdd.NewKernelWithOrdering(fac, vars, 2000, 4000)
		b := bdd.CompileWithKernel(fac, fac.And(xs...), k)
		if g := b.ModelCount(); g.Cmp(exp) != 0 {
			t.Fatalf("bdd ModelCount yields %v, expected %v", g, exp)
		}
		c.ClassIf(exp.BitLen() > 64, "count exceeds 64 bits")
	}),
	sub("chain", 400, 4, 12, c03Chain),
)

func varsOfFs(e *Env, xs []f.Formula) []int {
	var r []int
	for _, v := range f.Variables(e.Fac, xs...).Content() {
		r = append(r, e.varIdx(v))
	}
	slices.Sort(r)
	return r
}
