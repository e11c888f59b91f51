package harness

import (
	"fmt"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/normalform"
	"pgregory.net/rapid"
)

// noDups replaces Clause/Minterm constructions with duplicate variables.
func (n *N) noDups() *N { noDupRoute(n); return n }

// nearForm generates formulas that are (almost) in some normal form.
func nearForm(t *rapid.T, nv int) *N {
	g := Gen{NV: nv, Depth: 1, MaxOps: 3, Consts: false}
	outer, inner := OpAnd, OpOr
	if rapid.Bool().Draw(t, "dnf") {
		outer, inner = OpOr, OpAnd
	}
	k := rapid.IntRange(1, 4).Draw(t, "outer")
	n := nOp(outer)
	for i := 0; i < k; i++ {
		m := nOp(inner)
		for j := rapid.IntRange(1, 3).Draw(t, "inner"); j > 0; j-- {
			if rapid.IntRange(0, 14).Draw(t, "odd") == 0 {
				m.Kids = append(m.Kids, g.draw(t, "f"))
			} else {
				l := genLit(t, nv)
				m.Kids = append(m.Kids, nLit(l.V, l.Pos))
			}
		}
		n.Kids = append(n.Kids, m)
	}
	if rapid.IntRange(0, 9).Draw(t, "neg") == 0 {
		return nOp(OpNot, n)
	}
	return n
}

func checkPredicates(t *rapid.T, e *Env, x f.Formula) {
	fac := e.Fac
	for _, p := range []struct {
		name string
		got  bool
		want bool
	}{
		{"IsNNF", normalform.IsNNF(fac, x), isNNFShape(fac, x)},
		{"IsCNF", normalform.IsCNF(fac, x), isCNFShape(fac, x)},
		{"IsDNF", normalform.IsDNF(fac, x), isDNFShape(fac, x)},
		{"IsAIG", normalform.IsAIG(fac, x), isAIGShape(fac, x)},
		{"IsMinterm", normalform.IsMinterm(fac, x), isTermShape(fac, x)},
		{"IsMaxterm", normalform.IsMaxterm(fac, x), isClauseShape(fac, x)},
		{"ContainsPBC", encoding.ContainsPBC(fac, x), !noCC(fac, x)},
	} {
		if p.got != p.want {
			t.Fatalf("%s(%s) = %v", p.name, e.str(x), p.got)
		}
	}
}

func checkCanonical(t *rapid.T, e *Env, x, res f.Formula, cnf bool, want TT) {
	inner, outer := f.SortAnd, f.SortOr
	if cnf {
		inner, outer = f.SortOr, f.SortAnd
	}
	vars := f.Variables(e.Fac, x).Size()
	var parts []f.Formula
	switch {
	case isConst(res):
	case res.Sort() == outer && (vars > 1 || isLit(e.Fac.Operands(res)[0])) && (vars == 1 || !isLit(e.Fac.Operands(res)[0])):
		parts = e.Fac.Operands(res)
	default:
		parts = []f.Formula{res}
	}
	count := want.Proj(varIdxs(e, x))
	n := len(count)
	if cnf {
		n = 1<<vars - n
	}
	if vars <= 1 {
		return // x | ~x is condensed to a constant
	}
	if len(parts) != n {
		t.Fatalf("canonical form of %s has %d parts, expected %d: %s", e.str(x), len(parts), n, e.str(res))
	}
	for _, p := range parts {
		ops := []f.Formula{p}
		if vars > 1 {
			if p.Sort() != inner {
				t.Fatalf("canonical part %s of %s", e.str(p), e.str(x))
			}
			ops = e.Fac.Operands(p)
		}
		if len(ops) != vars || f.Variables(e.Fac, p).Size() != vars {
			t.Fatalf("canonical part %s of %s does not contain every variable once", e.str(p), e.str(x))
		}
	}
}

func varIdxs(e *Env, x f.Formula) []int {
	var r []int
	for _, v := range f.Variables(e.Fac, x).Content() {
		r = append(r, e.varIdx(v))
	}
	return r
}

// bounded is a factorization handler with a clause limit.
func bounded() *normalform.FactorizationHandler { return normalform.NewFactorizationHandler(400, 400) }

// aigKnown recognises the known finding: an equivalence with an operand which
// is not itself an AIG.
func aigKnown(fac f.Factory, x f.Formula) bool {
	for _, s := range f.SubNodes(fac, x) {
		if s.Sort() == f.SortEquiv && !allOps(fac, s, func(o f.Formula) bool { return isAIGShape(fac, o) }) {
			return true
		}
	}
	return false
}

var n01forms = []string{"NNF", "AIG", "FCNF", "FDNF", "BDDCNF", "BDDDNF", "CCNF", "CDNF", "pred"}

func n01Apply(t *rapid.T, c *Ctx, e *Env, kind string, x f.Formula, want TT) f.Formula {
	fac := e.Fac
	var res f.Formula
	ok := true
	constraint := !noCC(fac, x)
	supported := auxFree(fac, x)
	check := func(shape func(f.Factory, f.Formula) bool) {
		if !shape(fac, res) {
			t.Fatalf("%s(%s) = %s is not in the form", kind, e.str(x), e.str(res))
		}
		if constraint {
			projEquals(t, e, kind+" of "+e.str(x), res, want)
		} else {
			e.equals(t, kind+" of "+e.str(x), res, want)
		}
	}
	switch kind {
	case "NNF":
		res = normalform.NNF(fac, x)
		check(isNNFShape)
	case "AIG":
		res = normalform.AIG(fac, x)
		if aigKnown(fac, x) {
			// known finding: operands of equivalences are not transformed
			c.Exclude("AIG of equivalences with compound operands: shape")
			check(func(f.Factory, f.Formula) bool { return true })
		} else {
			check(isAIGShape)
		}
	case "FCNF", "FDNF":
		if kind == "FCNF" {
			r, s := normalform.FactorizedCNFWithHandler(fac, x, bounded())
			res, ok = r, s.Success
		} else {
			r, s := normalform.FactorizedDNFWithHandler(fac, x, bounded())
			res, ok = r, s.Success
		}
		if !ok {
			c.Class("factorization bounded")
			return x
		}
		// the variant without handler gives the same
		if kind == "FCNF" {
			check(isCNFShape)
			if y := normalform.FactorizedCNF(fac, x); y != res {
				t.Fatalf("FactorizedCNF(%s) = %s, with handler %s", e.str(x), e.str(y), e.str(res))
			}
		} else {
			check(isDNFShape)
			if y := normalform.FactorizedDNF(fac, x); y != res {
				t.Fatalf("FactorizedDNF(%s) = %s, with handler %s", e.str(x), e.str(y), e.str(res))
			}
		}
	case "BDDCNF", "BDDDNF":
		if !supported {
			return x
		}
		if kind == "BDDCNF" {
			res = bdd.CNF(fac, x)
			check(isCNFShape)
		} else {
			res = bdd.DNF(fac, x)
			check(isDNFShape)
		}
	case "CCNF", "CDNF":
		if kind == "CCNF" {
			res = enum.CanonicalCNF(fac, x)
			check(isCNFShape)
		} else {
			res = enum.CanonicalDNF(fac, x)
			check(isDNFShape)
		}
		e.equals(t, kind, res, want)
		checkCanonical(t, e, x, res, kind == "CCNF", want)
	default:
		for _, s := range f.SubNodes(fac, x) {
			checkPredicates(t, e, s)
		}
		return x
	}
	checkPredicates(t, e, res)
	c.Class(kind)
	return res
}

var _ = registerProp("N01", "histories of 2-8 normal-form transformations and predicate queries over formulas, their sub-formulas and earlier results on one factory, and on formulas over tens of variables (oracle: sampled assignments and models); non-trivial: formula with at least 3 operators/atoms",
	sub("wide", 1500, 2, 15, n01Wide),
	sub("forms", 3000, 8, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 5, 7)
		e := newEnv(t, nv)
		var n *N
		if rapid.IntRange(0, 3).Draw(t, "near") == 0 {
			n = nearForm(t, nv)
		} else {
			n = Gen{NV: nv, Depth: rapid.IntRange(1, 3).Draw(t, "depth"), Consts: true}.draw(t, "f")
		}
		n.noDups()
		var steps []string
		for i := rapid.IntRange(2, 8).Draw(t, "steps"); i > 0; i-- {
			steps = append(steps, n01forms[rapid.IntRange(0, len(n01forms)-1).Draw(t, "kind")])
		}
		c.Case(t, n.size() >= 3, "%s %s: %s", e.Mode, e.nstr(n), strings.Join(steps, ","))
		x := e.build(n)
		pool := []f.Formula{x, e.Fac.Not(x)}
		for i, s := range f.SubNodes(e.Fac, x) {
			if i < 3 {
				pool = append(pool, s)
			}
		}
		for _, s := range steps {
			y := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "pick")]
			if f.NumberOfNodes(e.Fac, y) > 300 {
				continue
			}
			pool = append(pool, n01Apply(t, c, e, s, y, e.tt(t, y)))
		}
	}),
	sub("constraints", 1500, 8, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 2, 5, 7)
		e := newEnv(t, nv)
		g := Gen{NV: nv, Depth: rapid.IntRange(0, 2).Draw(t, "depth"), Consts: true, MaxOps: 3}
		if rapid.IntRange(0, 2).Draw(t, "amo") == 0 {
			g.AMOOnly = true
		} else {
			g.CC, g.PBC = true, true
		}
		n := g.draw(t, "f").noDups()
		if !n.has(OpPBC) {
			n = nOp(OpOr, n, g.cc(t))
		}
		var steps []string
		for i := rapid.IntRange(1, 4).Draw(t, "steps"); i > 0; i-- {
			steps = append(steps, n01forms[rapid.IntRange(0, len(n01forms)-1).Draw(t, "kind")])
		}
		c.Case(t, true, "%s %s: %s", e.Mode, e.nstr(n), strings.Join(steps, ","))
		x := e.build(n)
		pool := []f.Formula{x, e.Fac.Not(x)}
		for _, s := range steps {
			y := pool[rapid.IntRange(0, 1).Draw(t, "pick")]
			want := n.TT(nv)
			if y == pool[1] {
				want = want.Not()
			}
			n01Apply(t, c, e, s, y, want)
		}
	}),
)

func genCNFConfig(t *rapid.T) (*normalform.CNFConfig, string) {
	c := normalform.DefaultCNFConfig()
	c.Algorithm = []normalform.CNFAlgorithm{normalform.CNFAdvanced, normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum, normalform.CNFFactorization}[rapid.IntRange(0, 3).Draw(t, "algo")]
	if rapid.Bool().Draw(t, "fallback") {
		c.FallbackAlgorithmForAdvancedEncoding = normalform.CNFPlaistedGreenbaum
	}
	c.DistributionBoundary = rapid.IntRange(-1, 10).Draw(t, "dist")
	c.CreatedClauseBoundary = rapid.IntRange(-1, 10).Draw(t, "clauses")
	if c.DistributionBoundary == -1 && c.CreatedClauseBoundary == -1 {
		c.CreatedClauseBoundary = 50
	}
	c.AtomBoundary = rapid.IntRange(-1, 8).Draw(t, "atoms")
	return c, fmt.Sprintf("%v/%v dist %d clauses %d atoms %d", c.Algorithm, c.FallbackAlgorithmForAdvancedEncoding, c.DistributionBoundary, c.CreatedClauseBoundary, c.AtomBoundary)
}

var _ = registerProp("N02", "histories of 1-5 CNF conversions (Tseitin, Plaisted-Greenbaum, advanced, factory configuration) of related formulas with random boundaries on one factory, with shared or separate conversion states, checked one by one and jointly, and on formulas over tens of variables (oracle: sampled assignments and models); non-trivial: at least one conversion introduced auxiliary variables",
	sub("wide", 600, 2, 15, n02Wide),
	sub("conversions", 2500, 8, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 5, 7)
		e := newEnv(t, nv)
		withCC := rapid.IntRange(0, 3).Draw(t, "withCC") == 0
		g := Gen{NV: nv, Depth: rapid.IntRange(2, 4).Draw(t, "depth"), Consts: rapid.Bool().Draw(t, "consts"), CC: withCC, PBC: withCC, MaxOps: 3}
		ts, pg := normalform.NewCNFAuxState(), normalform.NewCNFAuxState()
		var pool []f.Formula
		var desc []string
		var results []f.Formula
		joint := ttConst(nv, true)
		existing := map[f.Variable]bool{}
		auxSeen := map[f.Variable]string{}
		auxes := 0
		for i := rapid.IntRange(2, 6).Draw(t, "count"); i > 0; i-- {
			var x f.Formula
			if len(pool) > 0 && rapid.IntRange(0, 2).Draw(t, "old") == 0 {
				x = pool[rapid.IntRange(0, len(pool)-1).Draw(t, "pick")]
			} else if len(pool) > 0 && rapid.IntRange(0, 1).Draw(t, "combine") == 0 {
				a := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "pick")]
				b := e.build(Gen{NV: nv, Depth: 1, MaxOps: 3}.draw(t, "f").noDups())
				switch rapid.IntRange(0, 3).Draw(t, "how") {
				case 0:
					x = e.Fac.Or(a, b)
				case 1:
					x = e.Fac.And(a, b)
				case 2:
					x = e.Fac.Equivalence(a, b)
				case 3:
					x = e.Fac.Not(a)
				}
			} else {
				x = e.build(g.draw(t, "f").noDups())
			}
			if f.NumberOfNodes(e.Fac, x) > 120 {
				continue
			}
			for j, s := range f.SubNodes(e.Fac, x) {
				if j < 8 {
					pool = append(pool, s)
				}
			}
			pool = append(pool, x, normalform.NNF(e.Fac, x))
			if withCC && !noCC(e.Fac, x) {
				pool = pool[:len(pool)-1] // its NNF may have auxiliary variables
			}
			for _, v := range f.Variables(e.Fac, normalform.NNF(e.Fac, x)).Content() {
				existing[v] = true
			}
			for v := 0; v < nv; v++ {
				existing[e.v(v)] = true
			}
			want := e.tt(t, x)
			var res f.Formula
			bound := []int{0, 0, 0, -1, 1, 2, 3, 5, 8}[rapid.IntRange(0, 8).Draw(t, "bound")]
			how := ""
			shared := ""
			switch rapid.IntRange(0, 8).Draw(t, "conv") {
			case 0, 1:
				how = fmt.Sprintf("tseitin(shared,%d)", bound)
				shared = "ts"
				res = normalform.TseitinCNF(e.Fac, x, bound, ts)
			case 2, 3:
				how = fmt.Sprintf("pg(shared,%d)", bound)
				shared = "pg"
				res = normalform.PGCNF(e.Fac, x, bound, pg)
			case 4:
				how = fmt.Sprintf("tseitin(%d)", bound)
				res = normalform.TseitinCNFWithBoundary(e.Fac, x, bound)
			case 5:
				how = fmt.Sprintf("pg(%d)", bound)
				res = normalform.PGCNFWithBoundary(e.Fac, x, bound)
			case 6:
				if rapid.Bool().Draw(t, "ts") {
					how, res = "tseitinDefault", normalform.TseitinCNFDefault(e.Fac, x)
				} else {
					how, res = "pgDefault", normalform.PGCNFDefault(e.Fac, x)
				}
			default:
				cfg, s := genCNFConfig(t)
				if cfg.Algorithm == normalform.CNFFactorization && f.NumberOfAtoms(e.Fac, normalform.NNF(e.Fac, x)) > 14 {
					continue
				}
				if rapid.Bool().Draw(t, "facConfig") {
					e.Fac.PutConfiguration(cfg)
					how, res = "facCNF("+s+")", normalform.CNF(e.Fac, x)
				} else {
					how, res = "CNF("+s+")", normalform.CNF(e.Fac, x, cfg)
				}
			}
			desc = append(desc, fmt.Sprintf("%s of %s", how, e.str(x)))
			c.Doing(strings.Join(desc, "; "))
			if !isCNFShape(e.Fac, res) {
				t.Fatalf("not a CNF: %s; history %v", e.str(res), desc)
			}
			projEquals(t, e, fmt.Sprintf("history %v", desc), res, want)
			for _, v := range f.Variables(e.Fac, res).Content() {
				if e.varIdx(v) >= 0 || withCC {
					continue
				}
				auxes++
				if existing[v] {
					t.Fatalf("auxiliary variable of %s existed before", how)
				}
				owner := shared
				if owner == "" {
					owner = fmt.Sprint("conversion ", len(desc))
				}
				if o, ok := auxSeen[v]; ok && o != owner {
					t.Fatalf("auxiliary variable shared between %s and %s; history %v", o, owner, desc)
				}
				auxSeen[v] = owner
			}
			if withCC && f.Variables(e.Fac, res).Size() > nv {
				auxes++
			}
			results = append(results, res)
			joint = joint.And(want)
		}
		c.Case(t, auxes > 0, "%s %s", e.Mode, strings.Join(desc, "; "))
		c.ClassIf(auxes > 0, "with auxiliary variables")
		c.ClassIf(withCC, "with constraints")
		if len(results) > 0 {
			got := project(e, results...)
			if !got.Equal(joint) {
				t.Fatalf("conjunction of the conversions has other models than the conjunction of the formulas; history %v", desc)
			}
		}
	}),
)
