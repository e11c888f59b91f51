package harness

import (
	"fmt"
	"slices"
	"sort"

	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"
	"pgregory.net/rapid"
)

func fullGen(t *rapid.T, nv int) Gen {
	return Gen{NV: nv, Depth: rapid.IntRange(1, 4).Draw(t, "depth"), Consts: true, CC: true, PBC: true}
}

var _ = registerProp("F01", "random constructor trees (all operators, constants, repeated/complementary operands, AMO/EXO/CC/PBC with positive, negative, zero coefficients and any rhs) over 1-6 variables and both factory modes; non-trivial: at least 3 constructor calls",
	sub("build", 8000, 4, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 10)
		e := newEnv(t, nv)
		n := fullGen(t, nv).draw(t, "f")
		c.Case(t, n.size() >= 3, "%s %s", e.Mode, e.nstr(n))
		c.Class(e.Mode)
		x := e.build(n)
		want := n.TT(nv)
		c.ClassIf(want.IsFalse() || want.IsTrue(), "constant function")
		c.ClassIf(n.has(OpPBC), "with CC/PBC")
		c.ClassIf(x.Sort() != nodeSort(n), "factory simplified the top operator")
		e.equals(t, "construction", x, want)
		for i := 0; i < 1<<nv; i++ {
			if assignment.Evaluate(e.Fac, x, e.ass(i, 1<<nv-1)) != want.Get(i) {
				t.Fatalf("Evaluate of %s at %s differs from %v", e.str(x), e.assStr(i), want.Get(i))
			}
		}
	}),
	sub("many", 1000, 2, 10, f01Many),
	sub("similar", 60, 1, 10, f01Similar),
	sub("wide", 3000, 1, 10, func(t *rapid.T, c *Ctx) {
		// wide, shallow n-ary operators over nested operators of the same and the dual sort
		nv := rapid.IntRange(2, 8).Draw(t, "nv")
		e := newEnv(t, nv)
		n := Gen{NV: nv, Depth: 2, MaxOps: 12, Consts: true, NoImpl: true}.draw(t, "f")
		c.Case(t, n.size() >= 3, "%s %s", e.Mode, e.nstr(n))
		e.equals(t, "construction", e.build(n), n.TT(nv))
	}),
	sub("constraint", 6000, 1, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 9)
		e := newEnv(t, nv)
		g := Gen{NV: nv, Consts: true, CC: true, PBC: true}
		var n *N
		if rapid.Bool().Draw(t, "cc") {
			n = g.cc(t)
		} else {
			n = g.pbc(t)
			if rapid.IntRange(0, 3).Draw(t, "big") == 0 {
				for i := range n.Cs {
					n.Cs[i] *= 1 << 33
				}
				n.Rhs *= 1 << 33
				c.Class("large coefficients")
			}
			if rapid.IntRange(0, 3).Draw(t, "ones") == 0 {
				for i := range n.Cs {
					n.Cs[i] = 1
				}
				c.Class("unit coefficients")
			}
		}
		c.Case(t, len(n.Lits) > 0, "%s", e.nstr(n))
		x := e.build(n)
		want := n.TT(nv)
		e.equals(t, "constraint", x, want)
		neg := e.Fac.Not(x)
		e.equals(t, "negated constraint", neg, want.Not())
		for i := 0; i < 1<<nv; i++ {
			if assignment.Evaluate(e.Fac, x, e.ass(i, 1<<nv-1)) != want.Get(i) {
				t.Fatalf("Evaluate of %s at %s differs from %v", e.str(x), e.assStr(i), want.Get(i))
			}
		}
		if x.Sort() == f.SortCC || x.Sort() == f.SortPBC {
			cmp, rhs, lits, cs, ok := e.Fac.PBCOps(x)
			if !ok || len(lits) != len(cs) {
				t.Fatalf("bad PBC operands")
			}
			if x.Sort() == f.SortCC {
				for i := range lits {
					if !lits[i].IsPos() || cs[i] != 1 || rhs < 0 {
						t.Fatalf("cardinality constraint with literal/coefficient/rhs outside its class: %s", e.str(x))
					}
				}
			}
			_ = cmp
			c.Class(x.Sort().String())
		} else {
			c.Class("constant")
		}
	}),
)

func nodeSort(n *N) f.FSort {
	switch n.Op {
	case OpFalse:
		return f.SortFalse
	case OpTrue:
		return f.SortTrue
	case OpLit:
		return f.SortLiteral
	case OpNot:
		return f.SortNot
	case OpAnd:
		return f.SortAnd
	case OpOr:
		return f.SortOr
	case OpImpl:
		return f.SortImpl
	case OpEquiv:
		return f.SortEquiv
	}
	if n.isCC() {
		return f.SortCC
	}
	return f.SortPBC
}

// wellFormed checks the documented reduced shape of one formula (not recursive).
func wellFormed(fac f.Factory, x f.Formula) error {
	switch x.Sort() {
	case f.SortAnd, f.SortOr:
		ops, _ := fac.NaryOperands(x)
		if len(ops) < 2 {
			return fmt.Errorf("n-ary operator with %d operands", len(ops))
		}
		seen := map[f.Formula]bool{}
		for _, o := range ops {
			if o.IsConstant() {
				return fmt.Errorf("constant operand")
			}
			if o.Sort() == x.Sort() {
				return fmt.Errorf("nested same operator")
			}
			if seen[o] {
				return fmt.Errorf("duplicate operand")
			}
			seen[o] = true
		}
	case f.SortNot:
		o, _ := fac.NotOperand(x)
		if o.IsConstant() || o.Sort() == f.SortLiteral || o.Sort() == f.SortNot {
			return fmt.Errorf("negation of %v", o.Sort())
		}
	case f.SortImpl, f.SortEquiv:
		l, r, _ := fac.BinaryLeftRight(x)
		if l.IsConstant() || r.IsConstant() {
			return fmt.Errorf("binary operator with constant operand")
		}
	case f.SortCC, f.SortPBC:
		_, _, lits, cs, _ := fac.PBCOps(x)
		if len(lits) == 0 || len(lits) != len(cs) {
			return fmt.Errorf("constraint with %d literals and %d coefficients", len(lits), len(cs))
		}
	}
	return nil
}

type snap struct {
	x    f.Formula
	tt   TT
	str  string
	ops  []f.Formula
	cs   []int
	make func() f.Formula
	desc string
}

var _ = registerProp("F02", "histories of 4-20 steps (constructions over pooled formulas, repeated constructions, normal forms, encodings, solver uses, BDDs, caller-side slice mutation) on one factory; non-trivial: history with at least one construction and one computation",
	sub("many", 500, 2, 10, f02Many),
	sub("history", 1500, 6, 10, func(t *rapid.T, c *Ctx) {
		nv := rapid.IntRange(2, 5).Draw(t, "nv")
		e := newEnv(t, nv)
		g := Gen{NV: nv, Depth: 2, Consts: true, CC: true, PBC: true}
		var pool []*snap
		hist := ""
		comps := 0
		take := func(x f.Formula, desc string, mk func() f.Formula) {
			s := &snap{x: x, str: e.str(x), tt: e.tt(t, x), make: mk, desc: desc}
			s.ops = slices.Clone(e.Fac.Operands(x))
			if x.Sort() == f.SortPBC || x.Sort() == f.SortCC {
				_, _, _, cs, _ := e.Fac.PBCOps(x)
				s.cs = slices.Clone(cs)
			}
			for _, sn := range f.SubNodes(e.Fac, x) {
				if err := wellFormed(e.Fac, sn); err != nil {
					t.Fatalf("%s is not reduced: %v (in %s)", e.str(sn), err, hist)
				}
			}
			pool = append(pool, s)
		}
		litsDistinct := func(n *N) {
			// Clause/Minterm take their operands as they are: only use them duplicate-free
			if ls, ok := n.allLits(); ok && n.Route == 2 {
				seen := map[int]bool{}
				for _, l := range ls {
					if seen[l.V] {
						n.Route = 0
					}
					seen[l.V] = true
				}
			}
		}
		var fix func(n *N)
		fix = func(n *N) {
			litsDistinct(n)
			for _, k := range n.Kids {
				fix(k)
			}
		}
		add := func(n *N) {
			fix(n)
			ks := []f.Formula{}
			for _, k := range n.Kids {
				ks = append(ks, e.build(k))
			}
			mk := func() f.Formula { return n.buildWith(e.Fac, e.Names, slices.Clone(ks)) }
			take(mk(), e.nstr(n), mk)
		}
		n0 := g.draw(t, "f")
		add(n0)
		hist = e.nstr(n0)
		steps := rapid.IntRange(3, 18).Draw(t, "steps")
		for s := 0; s < steps; s++ {
			pick := func() *snap { return pool[rapid.IntRange(0, len(pool)-1).Draw(t, "pick")] }
			switch k := rapid.IntRange(0, 13).Draw(t, "action"); k {
			case 0, 1, 2:
				n := g.draw(t, "f")
				hist += " | new " + e.nstr(n)
				add(n)
			case 3, 4:
				// compose over pool members
				op := []Op{OpNot, OpAnd, OpOr, OpImpl, OpEquiv}[rapid.IntRange(0, 4).Draw(t, "op")]
				cnt := map[Op]int{OpNot: 1, OpImpl: 2, OpEquiv: 2}[op]
				if cnt == 0 {
					cnt = rapid.IntRange(0, 4).Draw(t, "cnt")
				}
				n := &N{Op: op, Route: rapid.IntRange(0, 1).Draw(t, "route")}
				var ks []f.Formula
				var tts []TT
				hist += fmt.Sprintf(" | compose %d(", op)
				for i := 0; i < cnt; i++ {
					p := pick()
					ks = append(ks, p.x)
					tts = append(tts, p.tt)
					hist += p.str + ","
				}
				hist += ")"
				mk := func() f.Formula { return n.buildWith(e.Fac, e.Names, slices.Clone(ks)) }
				x := mk()
				take(x, "composition", mk)
				// composition law on handles
				var want TT
				switch op {
				case OpNot:
					want = tts[0].Not()
					if y := e.Fac.Not(x); y != ks[0] {
						t.Fatalf("double negation of %s is %s", e.str(ks[0]), e.str(y))
					}
				case OpImpl:
					want = tts[0].Imp(tts[1])
				case OpEquiv:
					want = tts[0].Eqv(tts[1])
				case OpAnd:
					want = ttConst(nv, true)
					for _, x := range tts {
						want = want.And(x)
					}
				case OpOr:
					want = ttConst(nv, false)
					for _, x := range tts {
						want = want.Or(x)
					}
				}
				e.equals(t, "composition", x, want)
			case 5:
				// mutate a slice passed to a constructor
				n := g.pbc(t)
				hist += " | pbc+mutate " + e.nstr(n)
				ls := e.lits(n.Lits)
				cs := slices.Clone(n.Cs)
				x := e.Fac.PBC(n.Cmp.Sort(), n.Rhs, ls, cs)
				take(x, "pbc", func() f.Formula {
					return e.Fac.PBC(n.Cmp.Sort(), n.Rhs, e.lits(n.Lits), slices.Clone(n.Cs))
				})
				for i := range cs {
					cs[i] += 3
					ls[i] = e.lit(L{0, i%2 == 0})
				}
				c.Class("slice mutation pbc")
			case 6:
				p := []*snap{pick(), pick(), pick()}
				ops := []f.Formula{p[0].x, p[1].x, p[2].x}
				var x f.Formula
				and := rapid.Bool().Draw(t, "and")
				mkop := func(o []f.Formula) f.Formula {
					if and {
						return e.Fac.And(o...)
					}
					return e.Fac.Or(o...)
				}
				orig := slices.Clone(ops)
				x = mkop(ops)
				hist += " | nary+mutate"
				take(x, "nary", func() f.Formula { return mkop(slices.Clone(orig)) })
				for i := range ops {
					ops[i] = e.Fac.Verum()
				}
				var vs []f.Variable
				var ls []f.Literal
				m := genSubset(t, nv, 2)
				for _, v := range m {
					vs = append(vs, e.v(v))
					ls = append(ls, e.lit(L{v, v%2 == 0}))
				}
				cc := e.Fac.CC(f.LE, 1, vs...)
				take(cc, "amo", func() f.Formula { return e.Fac.CC(f.LE, 1, e.vars(m)...) })
				lits0 := slices.Clone(ls)
				cl := e.Fac.Clause(ls...)
				take(cl, "clause", func() f.Formula { return e.Fac.Clause(slices.Clone(lits0)...) })
				mt := e.Fac.Minterm(ls...)
				take(mt, "minterm", func() f.Formula { return e.Fac.Minterm(slices.Clone(lits0)...) })
				for i := range vs {
					vs[i] = e.v(0)
					ls[i] = e.lit(L{0, true})
				}
				c.Class("slice mutation nary")
			default:
				p := pick()
				comps++
				hist += fmt.Sprintf(" | comp%d %s", k, p.str)
				c.Doing(hist)
				f02Compute(t, e, k, p.x, pool)
			}
		}
		c.Case(t, comps > 0 && len(pool) > 1, "%s %s", e.Mode, hist)
		// final: everything is as it was
		fr := newReader(e.Fac, e.Names, nv)
		for _, s := range pool {
			if got := s.make(); got != s.x {
				t.Fatalf("rebuilding %s gives %s (%d) instead of the same formula %s (%d); history %s", s.desc, e.str(got), uint32(got), s.str, uint32(s.x), hist)
			}
			if got := e.str(s.x); got != s.str {
				t.Fatalf("printed form changed from %s to %s; history %s", s.str, got, hist)
			}
			if got := fr.TT(s.x); !got.Equal(s.tt) {
				t.Fatalf("meaning of %s changed; history %s", s.str, hist)
			}
			if !slices.Equal(e.Fac.Operands(s.x), s.ops) {
				t.Fatalf("operands of %s changed; history %s", s.str, hist)
			}
			if s.cs != nil {
				_, _, _, cs, _ := e.Fac.PBCOps(s.x)
				if !slices.Equal(cs, s.cs) {
					t.Fatalf("coefficients of %s changed; history %s", s.str, hist)
				}
			}
			if s.x.Sort() != f.SortFalse && s.x.Sort() != f.SortTrue {
				n := s.x.Negate(e.Fac)
				if n == s.x || n.Negate(e.Fac) != s.x || e.Fac.Not(s.x) != n {
					t.Fatalf("negation of %s is not an involution", s.str)
				}
				if s.x.Sort() == f.SortLiteral && n.Sort() != f.SortLiteral {
					t.Fatalf("negated literal is no literal")
				}
			}
			for _, o := range pool {
				if (o.x == s.x) != (o.str == s.str && o.x.Sort() == s.x.Sort()) {
					t.Fatalf("handle equality and printed form disagree: %s / %s", o.str, s.str)
				}
			}
		}
	}),
)

func f02Compute(t *rapid.T, e *Env, k int, x f.Formula, pool []*snap) {
	switch k {
	case 7:
		normalform.NNF(e.Fac, x)
		if normalform.IsCNF(e.Fac, x) != isCNFShape(e.Fac, x) {
			t.Fatalf("IsCNF(%s) is wrong", e.str(x))
		}
	case 8:
		normalform.TseitinCNFWithBoundary(e.Fac, x, 0)
		normalform.PGCNFWithBoundary(e.Fac, x, 0)
	case 9:
		cfg := sat.DefaultConfig()
		cfg.UseAtMostClauses = rapid.Bool().Draw(t, "uamc")
		cfg.CNFMethod = []sat.CNFMethod{sat.CNFFactory, sat.CNFPG, sat.CNFFullPG}[rapid.IntRange(0, 2).Draw(t, "cnf")]
		s := sat.NewSolver(e.Fac, cfg)
		for _, p := range pool {
			s.Add(p.x)
		}
		s.Sat()
	case 10:
		if x.Sort() == f.SortPBC || x.Sort() == f.SortCC {
			_, _ = encoding.EncodePBC(e.Fac, x)
			encoding.Normalize(e.Fac, x)
			encoding.NegatePBC(e.Fac, x)
		} else if auxFree(e.Fac, x) {
			bdd.CNF(e.Fac, x)
		}
	case 11:
		if auxFree(e.Fac, x) {
			_ = bdd.Compile(e.Fac, x)
			if noCC(e.Fac, x) && f.NumberOfNodes(e.Fac, x) < 40 {
				normalform.FactorizedDNF(e.Fac, x)
			}
		}
	case 12:
		f.Literals(e.Fac, x)
		f.Variables(e.Fac, x)
		f.Depth(e.Fac, x)
		normalform.CNF(e.Fac, x)
		simplification.MinimizeNegations(e.Fac, x)
		simplification.Distribute(e.Fac, x)
	case 13:
		s := transformation.NewSubstitution()
		s.AddVar(e.v(0), e.Fac.Literal(e.Names[1], false))
		_, _ = transformation.Substitute(e.Fac, x, s)
		assignment.Restrict(e.Fac, x, e.ass(1, 1))
	}
}

// ---- F03 ----

type structInfo struct {
	vars, lits map[f.Literal]int
	depth      int
	atoms      int
	nodes      int
}

func refStruct(fac f.Factory, x f.Formula) structInfo {
	r := structInfo{vars: map[f.Literal]int{}, lits: map[f.Literal]int{}}
	addLit := func(l f.Literal) {
		r.lits[l]++
		r.vars[f.Literal(l.Variable())]++
	}
	r.nodes, r.atoms = 1, 1
	switch x.Sort() {
	case f.SortLiteral:
		addLit(f.Literal(x))
	case f.SortCC, f.SortPBC:
		_, _, ls, _, _ := fac.PBCOps(x)
		for _, l := range ls {
			addLit(l)
		}
		r.nodes += len(ls)
	case f.SortFalse, f.SortTrue:
	default:
		r.atoms = 0
		for _, o := range fac.Operands(x) {
			s := refStruct(fac, o)
			for l, c := range s.lits {
				r.lits[l] += c
			}
			for l, c := range s.vars {
				r.vars[l] += c
			}
			r.depth = max(r.depth, s.depth)
			r.atoms += s.atoms
			r.nodes += s.nodes
		}
		r.depth++
	}
	return r
}

func refSubNodes(fac f.Factory, x f.Formula, m map[f.Formula]bool) {
	if m[x] {
		return
	}
	m[x] = true
	for _, o := range fac.Operands(x) {
		refSubNodes(fac, o, m)
	}
}

var _ = registerProp("F03", "1-4 overlapping random formulas on one factory (shared sub-formulas, constraints) queried in random order, twice, and on formulas over tens of variables (oracle: sampled assignments and models); non-trivial: formula with at least 3 nodes",
	sub("wide", 1500, 2, 15, f03Wide),
	sub("queries", 5000, 4, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 12)
		e := newEnv(t, nv)
		g := fullGen(t, nv)
		var xs []f.Formula
		var ns []*N
		for i := 0; i < rapid.IntRange(1, 4).Draw(t, "count"); i++ {
			n := g.draw(t, "f")
			x := e.build(n)
			if i > 0 && rapid.Bool().Draw(t, "compose") {
				x = e.Fac.Or(x, e.Fac.Not(xs[0]))
			}
			xs = append(xs, x)
			ns = append(ns, n)
		}
		c.Case(t, e.Mode == "" || ns[0].size() >= 3, "%s %s", e.Mode, e.nstrs(ns))
		q := rapid.SliceOfN(rapid.IntRange(0, 9*len(xs)-1), 6, 30).Draw(t, "queries")
		for _, k := range q {
			x := xs[k/9]
			ref := refStruct(e.Fac, x)
			s := e.str(x)
			switch k % 9 {
			case 0:
				got := f.Variables(e.Fac, x)
				cont := got.Content()
				if len(cont) != len(ref.vars) || got.Size() != len(cont) {
					t.Fatalf("Variables(%s) = %v", s, cont)
				}
				for _, v := range cont {
					if ref.vars[f.Literal(v)] == 0 || !got.Contains(v) {
						t.Fatalf("Variables(%s) contains foreign variable", s)
					}
				}
				if !slices.IsSorted(cont) {
					t.Fatalf("Variables content of %s not sorted", s)
				}
			case 1:
				got := f.Literals(e.Fac, x)
				cont := got.Content()
				if len(cont) != len(ref.lits) || got.Size() != len(cont) {
					t.Fatalf("Literals(%s) = %v", s, cont)
				}
				for _, v := range cont {
					if ref.lits[v] == 0 {
						t.Fatalf("Literals(%s) contains foreign literal", s)
					}
				}
			case 2:
				got := f.VariableProfile(e.Fac, x)
				if len(got) != len(ref.vars) {
					t.Fatalf("VariableProfile(%s) = %v", s, got)
				}
				for v, n := range got {
					if ref.vars[f.Literal(v)] != n {
						t.Fatalf("VariableProfile(%s) = %v", s, got)
					}
				}
			case 3:
				got := f.LiteralProfile(e.Fac, x)
				if len(got) != len(ref.lits) {
					t.Fatalf("LiteralProfile(%s) = %v", s, got)
				}
				for v, n := range got {
					if ref.lits[v] != n {
						t.Fatalf("LiteralProfile(%s) = %v", s, got)
					}
				}
			case 4:
				if got := f.Depth(e.Fac, x); got != ref.depth {
					t.Fatalf("Depth(%s) = %d, expected %d", s, got, ref.depth)
				}
			case 5:
				if got := f.NumberOfAtoms(e.Fac, x); got != ref.atoms {
					t.Fatalf("NumberOfAtoms(%s) = %d, expected %d", s, got, ref.atoms)
				}
			case 6:
				if got := f.NumberOfNodes(e.Fac, x); got != ref.nodes {
					t.Fatalf("NumberOfNodes(%s) = %d, expected %d", s, got, ref.nodes)
				}
			case 7:
				m := map[f.Formula]bool{}
				refSubNodes(e.Fac, x, m)
				got := f.SubNodes(e.Fac, x)
				seen := map[f.Formula]bool{}
				for _, y := range got {
					if seen[y] || !m[y] {
						t.Fatalf("SubNodes(%s): duplicate or foreign %s", s, e.str(y))
					}
					for _, o := range e.Fac.Operands(y) {
						if !seen[o] {
							t.Fatalf("SubNodes(%s): %s listed before its operand %s", s, e.str(y), e.str(o))
						}
					}
					seen[y] = true
				}
				if len(got) != len(m) {
					t.Fatalf("SubNodes(%s): %d nodes, expected %d", s, len(got), len(m))
				}
			case 8:
				got := f.Variables(e.Fac, xs...)
				all := map[f.Literal]bool{}
				allL := map[f.Literal]bool{}
				for _, y := range xs {
					r := refStruct(e.Fac, y)
					for v := range r.vars {
						all[v] = true
					}
					for v := range r.lits {
						allL[v] = true
					}
				}
				if got.Size() != len(all) || f.Literals(e.Fac, xs...).Size() != len(allL) {
					t.Fatalf("Variables/Literals of several formulas: %v", got.Content())
				}
				for v := range all {
					if !got.Contains(f.Variable(v)) {
						t.Fatalf("Variables of several formulas misses one")
					}
				}
			}
		}
	}),
	sub("sets", 3000, 1, 10, func(t *rapid.T, c *Ctx) {
		// variable sets against a map model
		e := newEnv(t, 8)
		ms := f.NewMutableVarSet()
		model := map[f.Variable]bool{}
		ops := rapid.SliceOfN(rapid.IntRange(0, 5*8-1), 1, 30).Draw(t, "ops")
		c.Case(t, len(ops) > 3, "set ops %v", ops)
		for _, o := range ops {
			v := e.v(o % 8)
			switch o / 8 {
			case 0, 1:
				ms.Add(v)
				model[v] = true
			case 2:
				ms.Remove(v)
				delete(model, v)
			case 3:
				other := f.NewVarSet(v, e.v((o+3)%8))
				ms.AddAll(other)
				model[v], model[e.v((o+3)%8)] = true, true
			case 4:
				other := f.NewVarSet(v)
				if o%2 == 0 {
					other = f.NewVarSet(v, e.v((o+1)%8))
					delete(model, e.v((o+1)%8))
				}
				ms.RemoveAll(other)
				delete(model, v)
			}
			im := ms.AsImmutable()
			if ms.Size() != len(model) || im.Size() != len(model) || im.Empty() != (len(model) == 0) {
				t.Fatalf("size %d, expected %d", ms.Size(), len(model))
			}
			var want []f.Variable
			for v := range model {
				want = append(want, v)
				if !im.Contains(v) || !ms.Contains(v) {
					t.Fatalf("missing element")
				}
			}
			sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			if !slices.Equal(im.Content(), want) {
				t.Fatalf("content %v, expected %v", im.Content(), want)
			}
		}
	}),
)

// ---- F04 ----

var _ = registerProp("F04", "random formulas incl. CC/PBC over 1-6 variables with random total and partial assignments, and on formulas over tens of variables (oracle: sampled assignments and models); non-trivial: partial assignment fixing at least one but not all variables of a formula with at least 3 nodes",
	sub("wide", 2000, 2, 15, f04Wide),
	sub("restrict", 8000, 4, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 9)
		e := newEnv(t, nv)
		n := fullGen(t, nv).draw(t, "f")
		x := e.build(n)
		mask := rapid.IntRange(0, 1<<nv-1).Draw(t, "mask")
		val := rapid.IntRange(0, 1<<nv-1).Draw(t, "val") & mask
		c.Case(t, n.size() >= 3 && mask != 0 && mask != 1<<nv-1, "%s %s under %s of %s", e.Mode, e.nstr(n), e.assStr(val), sprintMask(e, mask))
		want := n.TT(nv)
		a := e.ass(val, mask)
		if got := assignment.Evaluate(e.Fac, x, a); got != want.Get(val) {
			t.Fatalf("Evaluate(%s) = %v", e.str(x), got)
		}
		cof := want
		for v := 0; v < nv; v++ {
			if mask>>v&1 == 1 {
				cof = cof.Cof(v, val>>v&1 == 1)
			}
		}
		r := assignment.Restrict(e.Fac, x, a)
		for _, v := range f.Variables(e.Fac, r).Content() {
			if i := e.varIdx(v); i < 0 || mask>>i&1 == 1 {
				t.Fatalf("restriction %s of %s contains an assigned variable", e.str(r), e.str(x))
			}
		}
		e.equals(t, "Restrict "+e.str(x), r, cof)
		m := map[f.Variable]bool{}
		for v := 0; v < nv; v++ {
			if mask>>v&1 == 1 {
				m[e.v(v)] = val>>v&1 == 1
			}
		}
		tr, fa := assignment.EvaluatesToTrue(e.Fac, x, m), assignment.EvaluatesToFalse(e.Fac, x, m)
		c.ClassIf(tr, "evaluates to true")
		c.ClassIf(fa, "evaluates to false")
		c.ClassIf(cof.IsTrue() && !tr, "true but not recognized")
		if tr && !cof.IsTrue() || fa && !cof.IsFalse() {
			t.Fatalf("EvaluatesToTrue/False(%s) = %v/%v under %s", e.str(x), tr, fa, sprintMask(e, mask))
		}
		// documented: a total assignment over the formula's variables is always recognized
		if f.Variables(e.Fac, x).Size() == countIn(e, x, mask) && (tr != cof.IsTrue() || fa != cof.IsFalse()) {
			t.Fatalf("EvaluatesToTrue/False(%s) = %v/%v under a total assignment", e.str(x), tr, fa)
		}
		// the assignment object
		if a.Size() != len(m) {
			t.Fatalf("assignment size")
		}
		for _, v := range a.PosVars() {
			if b, ok := m[v]; !ok || !b {
				t.Fatalf("PosVars")
			}
		}
	}),
)

func countIn(e *Env, x f.Formula, mask int) int {
	k := 0
	for _, v := range f.Variables(e.Fac, x).Content() {
		if mask>>e.varIdx(v)&1 == 1 {
			k++
		}
	}
	return k
}
