package harness

import (
	"fmt"
	"math/big"
	"slices"
	"strings"

	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/configuration"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"
	"pgregory.net/rapid"
)

var _ = registerProp("K01",
	"histories of 3-14 computations (all of the library's areas, both factory modes) over overlapping formulas and earlier results on one factory with configuration changes and canceled computations in between; every result is checked against truth tables, repeated later, and the syntactic ones are compared with a fresh factory; non-trivial: at least 3 computations",
	sub("history", 4000, 8, 12, k01History),
	sub("dont-cares", 8000, 2, 12, k01Counts))

// toN reads a formula without auxiliary variables.
func (e *Env) toN(t *rapid.T, x f.Formula) *N {
	switch x.Sort() {
	case f.SortFalse:
		return nOp(OpFalse)
	case f.SortTrue:
		return nOp(OpTrue)
	case f.SortLiteral:
		l := e.litIdx(t, f.Literal(x))
		return nLit(l.V, l.Pos)
	case f.SortCC, f.SortPBC:
		cmp, rhs, ls, cs, _ := e.Fac.PBCOps(x)
		n := &N{Op: OpPBC, Cmp: cmpOf(cmp), Rhs: rhs, Cs: slices.Clone(cs)}
		for _, l := range ls {
			n.Lits = append(n.Lits, e.litIdx(t, l))
		}
		return n
	}
	n := nOp(map[f.FSort]Op{f.SortNot: OpNot, f.SortAnd: OpAnd, f.SortOr: OpOr, f.SortImpl: OpImpl, f.SortEquiv: OpEquiv}[x.Sort()])
	for _, o := range e.Fac.Operands(x) {
		n.Kids = append(n.Kids, e.toN(t, o))
	}
	return n
}

// checkStruct checks the structural queries.
func checkStruct(t *rapid.T, e *Env, x f.Formula) {
	ref := refStruct(e.Fac, x)
	s := e.str(x)
	vs, ls := f.Variables(e.Fac, x).Content(), f.Literals(e.Fac, x).Content()
	if len(vs) != len(ref.vars) || len(ls) != len(ref.lits) {
		t.Fatalf("%s has variables %v and literals %v", s, vs, ls)
	}
	for _, v := range vs {
		if ref.vars[f.Literal(v)] == 0 {
			t.Fatalf("%s has variables %v", s, vs)
		}
	}
	for _, l := range ls {
		if ref.lits[l] == 0 {
			t.Fatalf("%s has literals %v", s, ls)
		}
	}
	m := map[f.Formula]bool{}
	refSubNodes(e.Fac, x, m)
	if d, a, n, k := f.Depth(e.Fac, x), f.NumberOfAtoms(e.Fac, x), f.NumberOfNodes(e.Fac, x), len(f.SubNodes(e.Fac, x)); d != ref.depth || a != ref.atoms || n != ref.nodes || k != len(m) {
		t.Fatalf("%s: depth %d, atoms %d, nodes %d, sub-nodes %d, expected %d %d %d %d", s, d, a, n, k, ref.depth, ref.atoms, ref.nodes, len(m))
	}
	for _, n := range f.SubNodes(e.Fac, x) {
		if !m[n] {
			t.Fatalf("%s has the foreign sub-node %s", s, e.str(n))
		}
	}
}

type k01Pool struct {
	e  *Env
	ns []*N
	xs []f.Formula
}

func (p *k01Pool) add(n *N, x f.Formula) {
	for _, y := range p.xs {
		if x == y {
			return
		}
	}
	p.ns = append(p.ns, n)
	p.xs = append(p.xs, x)
}

func (p *k01Pool) pick(t *rapid.T) (*N, f.Formula) {
	i := rapid.IntRange(0, len(p.xs)-1).Draw(t, "pick")
	if rapid.Bool().Draw(t, "late") {
		i = len(p.xs) - 1 - i
	}
	return p.ns[i], p.xs[i]
}

// addResult makes a result available if it has no auxiliary variables.
func (p *k01Pool) addResult(t *rapid.T, y f.Formula) {
	for _, v := range f.Variables(p.e.Fac, y).Content() {
		if p.e.varIdx(v) < 0 {
			return
		}
	}
	if f.NumberOfNodes(p.e.Fac, y) <= 60 {
		p.add(p.e.toN(t, y), y)
	}
}

var k01Simps = []struct {
	name string
	fn   func(fac f.Factory, x f.Formula) f.Formula
}{
	{"backbone", simplification.PropagateBackbone},
	{"units", simplification.PropagateUnits},
	{"distribute", simplification.Distribute},
	{"factor out", func(fac f.Factory, x f.Formula) f.Formula { return simplification.FactorOut(fac, x) }},
	{"negations", simplification.MinimizeNegations},
	{"advanced", func(fac f.Factory, x f.Formula) f.Formula { return simplification.Advanced(fac, x) }},
	{"CNF", func(fac f.Factory, x f.Formula) f.Formula { return normalform.CNF(fac, x) }},
	{"Tseitin", normalform.TseitinCNFDefault},
	{"PG", normalform.PGCNFDefault},
	{"Tseitin 0", func(fac f.Factory, x f.Formula) f.Formula { return normalform.TseitinCNFWithBoundary(fac, x, 0) }},
	{"PG 0", func(fac f.Factory, x f.Formula) f.Formula { return normalform.PGCNFWithBoundary(fac, x, 0) }},
}

func k01History(t *rapid.T, c *Ctx) {
	nv := rapid.SampledFrom([]int{3, 4, 2, 5, 1}).Draw(t, "nv")
	e := newEnv(t, nv)
	p := &k01Pool{e: e}
	withCC := rapid.IntRange(0, 3).Draw(t, "withCC") == 0
	g := Gen{NV: nv, Depth: 2, Consts: true, CC: withCC, PBC: withCC, MaxOps: 3}
	for i := rapid.IntRange(1, 3).Draw(t, "start"); i > 0; i-- {
		n := g.draw(t, "f").noDups()
		p.add(n, e.build(n))
	}
	var desc []string
	say := func(format string, args ...any) {
		desc = append(desc, fmt.Sprintf(format, args...))
		c.Doing(e.Mode + " " + strings.Join(desc, "; "))
	}
	type replay struct {
		what string
		fn   func()
	}
	var again []replay
	done := 0
	free := auxFree
	for i := rapid.IntRange(3, 14).Draw(t, "steps"); i > 0; i-- {
		n, x := p.pick(t)
		if f.NumberOfNodes(e.Fac, x) > 60 {
			continue
		}
		want := n.TT(nv)
		kind := rapid.IntRange(0, 19).Draw(t, "kind")
		// what is computed is stored to be repeated
		var fn func()
		switch kind {
		case 0, 1: // a formula over earlier ones
			m, _ := p.pick(t)
			var k *N
			switch rapid.IntRange(0, 6).Draw(t, "how") {
			case 0:
				k = nOp(OpNot, n)
			case 1:
				k = nOp(OpImpl, n, m)
			case 2:
				k = nOp(OpEquiv, n, m)
			case 3:
				k = nOp(OpAnd, n, m)
			case 4:
				k = nOp(OpOr, n, m)
			case 5:
				k = nOp(OpOr, n, Gen{NV: nv, Depth: 1, MaxOps: 3}.draw(t, "f").noDups())
			default:
				k = nOp(OpAnd, n, Gen{NV: nv, Depth: 1, MaxOps: 3}.draw(t, "f").noDups())
			}
			say("build %s", e.nstr(k))
			y := e.build(k)
			e.equals(t, "composition", y, k.TT(nv))
			p.add(k, y)
			continue
		case 2: // another configuration
			var cfg configuration.Config
			s := ""
			switch rapid.IntRange(0, 4).Draw(t, "config") {
			case 0:
				var k *normalform.CNFConfig
				k, s = genCNFConfig(t)
				if k.Algorithm == normalform.CNFFactorization {
					k.Algorithm, s = normalform.CNFAdvanced, s+"->advanced"
				}
				cfg = k
			case 1:
				cfg, s = genEncConfig(t)
				free = noCC // other encodings of small constraints have auxiliary variables
			case 2:
				cfg, s = genSatConfig(t, false)
			case 3:
				cfg, s = genMsConfig(t)
				if k, ok := cfg.(*maxsat.Config); !ok || k == nil {
					continue
				}
			default:
				k := &simplification.Config{
					FactorOut: rapid.Bool().Draw(t, "factor"), RestrictBackbone: rapid.Bool().Draw(t, "backbone"),
					SimplifyNegations: rapid.Bool().Draw(t, "negations"), UseRatingFunction: rapid.Bool().Draw(t, "rate"),
					RatingFunction: ratings[0].fn,
				}
				cfg, s = k, fmt.Sprintf("simplifier %v %v %v %v", k.FactorOut, k.RestrictBackbone, k.SimplifyNegations, k.UseRatingFunction)
			}
			say("configuration %s", s)
			if err := e.Fac.PutConfiguration(cfg); err != nil {
				t.Fatalf("configuration refused: %v", err)
			}
			c.Class("configuration")
			continue
		case 3:
			say("structure of %s", e.str(x))
			fn = func() { checkStruct(t, e, x) }
		case 4:
			say("predicates of %s", e.str(x))
			fn = func() {
				for _, s := range f.SubNodes(e.Fac, x) {
					checkPredicates(t, e, s)
				}
			}
		case 5, 6, 7, 8: // normal forms
			k := n01forms[rapid.IntRange(0, len(n01forms)-2).Draw(t, "form")]
			if strings.HasPrefix(k, "BDD") && !free(e.Fac, x) {
				continue
			}
			say("%s of %s", k, e.str(x))
			var first f.Formula
			cached := k != "CCNF" && k != "CDNF"
			fn = func() {
				if strings.HasPrefix(k, "BDD") && !free(e.Fac, x) {
					return
				}
				y := n01Apply(t, c, e, k, x, want)
				if cached && first != 0 && y != x && y != first {
					t.Fatalf("%s of %s is %s and later %s", k, e.str(x), e.str(first), e.str(y))
				}
				if first == 0 && noCC(e.Fac, x) && (k == "NNF" || k == "FCNF" || k == "FDNF" || k == "AIG") {
					e2 := e.fresh()
					if z := n01Apply(t, c, e2, k, e2.build(e.toN(t, x)), want); e2.str(z) != e.str(y) && e2.str(z) != e.str(x) {
						t.Fatalf("%s of %s is %s, on a new factory %s", k, e.str(x), e.str(y), e2.str(z))
					}
				}
				if y != x {
					first = y
				}
				p.addResult(t, y)
			}
		case 9, 10, 11: // simplifiers and conversions with auxiliary variables
			k := k01Simps[rapid.IntRange(0, len(k01Simps)-1).Draw(t, "simp")]
			say("%s of %s", k.name, e.str(x))
			fn = func() {
				y := k.fn(e.Fac, x)
				sameFunc(t, e, k.name, y, want, false)
				p.addResult(t, y)
			}
		case 12: // restriction and evaluation
			val, mask := rapid.IntRange(0, 1<<nv-1).Draw(t, "val"), rapid.IntRange(0, 1<<nv-1).Draw(t, "mask")
			say("restrict %s with %b/%b", e.str(x), val, mask)
			fn = func() {
				y := assignment.Restrict(e.Fac, x, e.ass(val, mask))
				exp := want
				for v := 0; v < nv; v++ {
					if mask>>v&1 == 1 {
						exp = exp.Cof(v, val>>v&1 == 1)
					}
				}
				e.equals(t, "restriction", y, exp)
				if got := assignment.Evaluate(e.Fac, x, e.ass(val, 1<<nv-1)); got != want.Get(val) {
					t.Fatalf("evaluation of %s is %v", e.str(x), got)
				}
				p.addResult(t, y)
			}
		case 13: // substitution by formulas of the pool
			m, y := p.pick(t)
			v := rapid.IntRange(0, nv-1).Draw(t, "var")
			if x.Sort() == f.SortCC || x.Sort() == f.SortPBC || !noCC(e.Fac, x) {
				continue
			}
			say("substitute %s by %s in %s", e.Names[v], e.str(y), e.str(x))
			fn = func() {
				s := transformation.NewSubstitution()
				s.AddVar(e.v(v), y)
				z, err := transformation.Substitute(e.Fac, x, s)
				if err != nil {
					t.Fatalf("substitution: %v", err)
				}
				mt := m.TT(nv)
				e.equals(t, "substitution", z, mt.And(want.Cof(v, true)).Or(mt.Not().And(want.Cof(v, false))))
				p.addResult(t, z)
			}
		case 14: // decision
			m, y := p.pick(t)
			say("decide %s / %s", e.str(x), e.str(y))
			fn = func() {
				mt := m.TT(nv)
				got := []bool{sat.IsSatisfiable(e.Fac, x), sat.IsTautology(e.Fac, x), sat.IsContradiction(e.Fac, x), sat.Implies(e.Fac, x, y), sat.IsEquivalent(e.Fac, x, y)}
				exp := []bool{!want.IsFalse(), want.IsTrue(), want.IsFalse(), want.And(mt.Not()).IsFalse(), want.Equal(mt)}
				if !slices.Equal(got, exp) {
					t.Fatalf("decisions of %s / %s: %v instead of %v", e.str(x), e.str(y), got, exp)
				}
			}
		case 15: // encodings of constraints
			var cs []f.Formula
			for _, s := range f.SubNodes(e.Fac, x) {
				if s.Sort() == f.SortCC || s.Sort() == f.SortPBC {
					cs = append(cs, s)
				}
			}
			if len(cs) == 0 {
				continue
			}
			s := cs[rapid.IntRange(0, len(cs)-1).Draw(t, "constraint")]
			say("encode %s", e.str(s))
			fn = func() {
				var ops []f.Formula
				var err error
				if s.Sort() == f.SortCC {
					ops, err = encoding.EncodeCC(e.Fac, s)
				} else {
					ops, err = encoding.EncodePBC(e.Fac, s)
				}
				if err != nil {
					t.Fatalf("encoding: %v", err)
				}
				projEquals(t, e, "encoding of "+e.str(s), e.Fac.And(ops...), e.tt(t, s))
			}
		default: // any computation with events
			comp := &hComps[(rapid.IntRange(0, len(hComps)-1).Draw(t, "computation")+5)%len(hComps)]
			in := genHInput(t, e, comp)
			if in.n != nil {
				in.n.noDups()
			}
			for _, m := range in.ns {
				m.noDups()
			}
			for _, m := range in.softs {
				m.n.noDups()
			}
			switch comp.gen {
			case "formula":
				in.n, in.want = n, want
			case "aux-free":
				if !free(e.Fac, x) {
					continue
				}
				in.n, in.want = n, want
				m, y := p.pick(t)
				if free(e.Fac, y) {
					in.ns = []*N{m}
				}
			case "cnf", "dnf":
				p.add(in.n, e.build(in.n))
			case "unsat":
				m, _ := p.pick(t)
				in.ns = append(in.ns, n, nOp(OpNot, m))
				in.want = conj(nv, in.ns)
			case "solver":
				in.ns = append(in.ns, n)
				in.want = conj(nv, in.ns)
			case "maxsat":
				m, _ := p.pick(t)
				in.softs = append(in.softs, softN{m, 1})
				if w := &(msM{softs: in.softs, alg: in.alg}); !w.solvable() {
					continue
				}
			}
			say("%s of %s", comp.name, in.str(e))
			k := 0
			if rapid.IntRange(0, 3).Draw(t, "cancel") == 0 {
				k = rapid.IntRange(1, 20).Draw(t, "k")
				say("canceled at %d", k)
			}
			run := comp.run(t, c)
			fn = func() {
				if comp.gen == "aux-free" && !free(e.Fac, x) {
					return
				}
				s := &hState{e: e}
				if k > 0 {
					h := &kHandler{k: k}
					_, st, _ := run(s, in, h)
					checkCancel(t, h, st, comp.name)
				}
				var h handler.Handler
				if strings.HasPrefix(comp.name, "factorized") {
					h = bounded()
				}
				_, st, check := run(s, in, h)
				if st.Success {
					check()
				} else if h == nil {
					t.Fatalf("%s canceled by nobody", comp.name)
				}
			}
			c.Class(comp.name)
		}
		fn()
		done++
		again = append(again, replay{desc[len(desc)-1], fn})
		if rapid.IntRange(0, 4).Draw(t, "again") == 0 {
			r := again[rapid.IntRange(0, len(again)-1).Draw(t, "which")]
			say("again: %s", r.what)
			r.fn()
			c.Class("repeated")
		}
	}
	c.Case(t, done >= 3, "%s: %s", e.Mode, strings.Join(desc, "; "))
	c.ClassIf(withCC, "with constraints")
	// the formulas are still what they were
	for i, x := range p.xs {
		if y := e.build(p.ns[i]); !e.tt(t, y).Equal(p.ns[i].TT(nv)) || !e.tt(t, x).Equal(p.ns[i].TT(nv)) {
			t.Fatalf("%s changed its meaning", e.str(x))
		}
		checkStruct(t, e, x)
	}
}

// k01Counts counts models with different variable sets on one factory: formulas
// with the same compiled form, but other don't-care variables.
func k01Counts(t *rapid.T, c *Ctx) {
	nv := rapid.SampledFrom([]int{4, 3, 5, 6}).Draw(t, "nv")
	e := newEnv(t, nv)
	base := Gen{NV: nv - 1, Depth: 2, MaxOps: 3}.draw(t, "f").noDups()
	pool := []*N{base}
	var desc []string
	var ds []*dnnf.DNNF
	var wants []TT
	var vss [][]int
	for i := rapid.IntRange(2, 6).Draw(t, "steps"); i > 0; i-- {
		n := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "pick")]
		m := Gen{NV: nv, Depth: 1, MaxOps: 3}.draw(t, "f").noDups()
		switch rapid.IntRange(0, 6).Draw(t, "how") {
		case 0: // absorbed part
			n = nOp(OpOr, n, nOp(OpAnd, n, m))
		case 1:
			n = nOp(OpAnd, n, nOp(OpOr, n, m))
		case 2:
			n = nOp(OpOr, n, m)
		case 3:
			n = nOp(OpAnd, n, m)
		case 4:
			n = nOp(OpAnd, n, nOp(OpOr, m, nOp(OpNot, m)))
		}
		if n.size() > 60 {
			continue
		}
		pool = append(pool, n)
		want := n.TT(nv)
		x := e.build(n)
		vs := f.Variables(e.Fac, x).Content()
		var is []int
		for _, v := range vs {
			is = append(is, e.varIdx(v))
		}
		switch rapid.IntRange(0, 2).Draw(t, "what") {
		case 0:
			d := dnnf.Compile(e.Fac, x)
			desc = append(desc, "compile "+e.nstr(n))
			ds, wants, vss = append(ds, d), append(wants, want), append(vss, is)
		case 1:
			// more variables than the formula has
			for v := 0; v < nv; v++ {
				if !slices.Contains(is, v) && rapid.Bool().Draw(t, "extra") {
					is = append(is, v)
				}
			}
			desc = append(desc, fmt.Sprintf("count %s over %v", e.nstr(n), is))
			got, err := count.Count(e.Fac, e.vars(is), x)
			if exp := int64(len(want.Proj(is))); err != nil || got.Cmp(big.NewInt(exp)) != 0 {
				t.Fatalf("%v: count %v (%v) instead of %d", desc, got, err, exp)
			}
			got.Add(got, big.NewInt(7)) // the caller owns the result
		default:
			if len(ds) > 0 {
				i := rapid.IntRange(0, len(ds)-1).Draw(t, "which")
				desc = append(desc, fmt.Sprintf("model count %d", i))
				got := ds[i].ModelCount()
				if exp := int64(len(wants[i].Proj(vss[i]))); got.Cmp(big.NewInt(exp)) != 0 && ds[i].OriginalVars.Size() == len(vss[i]) {
					t.Fatalf("%v: model count %v instead of %d", desc, got, exp)
				}
				got.Sub(got, big.NewInt(1))
			}
		}
	}
	c.Case(t, len(desc) >= 3, "%s %s", e.Mode, strings.Join(desc, "; "))
}
