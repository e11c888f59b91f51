package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/booleworks/logicng-go/assignment"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/io"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/parser"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"
	"pgregory.net/rapid"
)

// Wide is a formula over many variables which is compared with transformed
// formulas at sampled assignments: models of some of its parts, assignments
// close to those and random ones.
type Wide struct {
	*Chain
	n    *N
	x    f.Formula
	pts  [][]bool
	vals []bool
	rnd  *rand.Rand
	long bool // not (only) the chain's constraints
}

// remap renames the variables of a composition.
func (n *N) remap(g func(int) int) *N {
	r := *n
	r.Lit.V = g(n.Lit.V)
	r.Lits, r.Kids = nil, nil
	for _, l := range n.Lits {
		r.Lits = append(r.Lits, L{g(l.V), l.Pos})
	}
	for _, k := range n.Kids {
		r.Kids = append(r.Kids, k.remap(g))
	}
	return &r
}

// eval evaluates a composition.
func (n *N) eval(m []bool) bool {
	switch n.Op {
	case OpFalse, OpTrue:
		return n.Op == OpTrue
	case OpLit:
		return m[n.Lit.V] == n.Lit.Pos
	case OpNot:
		return !n.Kids[0].eval(m)
	case OpAnd, OpOr:
		for _, k := range n.Kids {
			if k.eval(m) != (n.Op == OpAnd) {
				return n.Op == OpOr
			}
		}
		return n.Op == OpAnd
	case OpImpl:
		return !n.Kids[0].eval(m) || n.Kids[1].eval(m)
	case OpEquiv:
		return n.Kids[0].eval(m) == n.Kids[1].eval(m)
	}
	sum := 0
	for i, l := range n.Lits {
		if m[l.V] == l.Pos {
			sum += n.Cs[i]
		}
	}
	return n.Cmp.Eval(sum, n.Rhs)
}

// global returns the constraint over the variables of the chain.
func (c *ChainCon) global() *N { return c.N.remap(func(j int) int { return c.At - j }) }

func combine(t *rapid.T, ns []*N) *N {
	if len(ns) == 1 {
		return ns[0]
	}
	op := pick(t, "join", OpAnd, OpOr, OpAnd, OpOr, OpImpl, OpEquiv)
	if op != OpImpl && op != OpEquiv && rapid.IntRange(0, 3).Draw(t, "flat") == 0 {
		return nOp(op, ns...)
	}
	i := rapid.IntRange(1, len(ns)-1).Draw(t, "split")
	n := nOp(op, combine(t, ns[:i]), combine(t, ns[i:]))
	if rapid.IntRange(0, 7).Draw(t, "neg") == 0 {
		n = nOp(OpNot, n)
	}
	return n
}

type wideKind int

const (
	wideAny wideKind = iota
	wideCNF
	wideDNF
)

func genWide(t *rapid.T, c *Ctx, fac f.Factory, lo, hi int, g Gen, kind wideKind) *Wide {
	k := chainKind{noDups: true, clauses: kind != wideAny || rapid.IntRange(0, 4).Draw(t, "clauses") == 0, g: g, density: 10}
	ch := genChain(t, fac, lo, hi, k)
	w := &Wide{Chain: ch, rnd: ch.rand(t)}
	var ns []*N
	for _, con := range ch.Cons {
		ns = append(ns, con.global())
	}
	switch kind {
	case wideCNF:
		w.n = nOp(OpAnd, ns...)
	case wideDNF:
		// the dual
		for i, n := range ns {
			if n.Op == OpOr {
				n.Op = OpAnd
			}
			ns[i] = n
		}
		w.n = nOp(OpOr, ns...)
	default:
		w.n = combine(t, ns).noDups()
	}
	if len(ns) == 1 && kind != wideAny {
		w.n = ns[0]
	}
	var long [][]bool
	if rapid.IntRange(0, 4).Draw(t, "long") == 0 {
		// operators and constraints with many operands
		switch hi := pick(t, "size", 10, 30, 60); kind {
		case wideAny:
			w.n = genMany(t, ch.NV, 2, hi, 1, g.CC).noDups()
		default:
			inner, outer := OpOr, OpAnd
			if kind == wideDNF {
				inner, outer = outer, inner
			}
			for i := rapid.IntRange(1, 4).Draw(t, "parts"); i > 0; i-- {
				ns = append(ns, genPart(t, ch.NV, inner, hi))
			}
			w.n = nOp(outer, ns...)
		}
		w.long = true
		c.Class("long operators")
		for _, m := range manyPoints(w.n, ch.NV, w.rnd) {
			if w.rnd.Intn(4) == 0 {
				long = append(long, m)
			}
		}
	}
	w.x = w.n.Build(fac, ch.Names)
	base := ch.sample(ch.Cons, nil, 4, w.rnd)
	for i := 0; i < 3; i++ {
		j := w.rnd.Intn(len(ch.Cons))
		base = append(base, ch.sample(ch.Cons[j:min(len(ch.Cons), j+1+w.rnd.Intn(20))], nil, 2, w.rnd)...)
	}
	w.pts = base
	for _, m := range base {
		m = slices.Clone(m)
		for i := w.rnd.Intn(3); i >= 0; i-- {
			v := w.rnd.Intn(ch.NV)
			m[v] = !m[v]
		}
		w.pts = append(w.pts, m)
	}
	for i := 0; i < 8; i++ {
		m := make([]bool, ch.NV)
		p := 0.1 + 0.8*w.rnd.Float64()
		for v := range m {
			m[v] = w.rnd.Float64() < p
		}
		w.pts = append(w.pts, m)
	}
	w.pts = append(w.pts, long...)
	both := [2]bool{}
	for _, m := range w.pts {
		v := w.n.eval(m)
		w.vals = append(w.vals, v)
		if v {
			both[1] = true
		} else {
			both[0] = true
		}
	}
	c.Doing(w.n.str(ch.Names))
	c.Case(t, both[0] && both[1], "%s", w.n.str(ch.Names))
	c.ClassIf(ch.NV > 32, "more than 32 variables")
	c.ClassIf(ch.NV > 64, "more than 64 variables")
	return w
}

func (w *Wide) str(x f.Formula) string { return x.Sprint(w.Fac) }

// refVars returns the variables of the composition.
func (w *Wide) foreign(x f.Formula) bool {
	r := false
	walkAll(w.Fac, x, func(y f.Formula) {
		if y.Sort() == f.SortLiteral {
			name, _, _ := w.Fac.LitNamePhase(f.Literal(y))
			if _, ok := w.idx[name]; !ok {
				r = true
			}
		}
	})
	return r
}

// evalAll evaluates any formula over the chain's variables.
func (ch *Chain) evalAll(fac f.Factory, x f.Formula, m []bool, memo map[f.Formula]bool) bool {
	if v, ok := memo[x]; ok {
		return v
	}
	lit := func(l f.Literal) bool {
		name, pos, _ := fac.LitNamePhase(l)
		i, ok := ch.idx[name]
		if !ok {
			panic(unknownVar(name))
		}
		return m[i] == pos
	}
	r := false
	switch x.Sort() {
	case f.SortTrue:
		r = true
	case f.SortFalse:
	case f.SortLiteral:
		r = lit(f.Literal(x))
	case f.SortNot:
		o, _ := fac.NotOperand(x)
		r = !ch.evalAll(fac, o, m, memo)
	case f.SortImpl, f.SortEquiv:
		a, b, _ := fac.BinaryLeftRight(x)
		va, vb := ch.evalAll(fac, a, m, memo), ch.evalAll(fac, b, m, memo)
		if x.Sort() == f.SortImpl {
			r = !va || vb
		} else {
			r = va == vb
		}
	case f.SortAnd, f.SortOr:
		ops, _ := fac.NaryOperands(x)
		r = x.Sort() == f.SortAnd
		for _, o := range ops {
			if ch.evalAll(fac, o, m, memo) != (x.Sort() == f.SortAnd) {
				r = x.Sort() == f.SortOr
				break
			}
		}
	default:
		c, rhs, ls, cs, _ := fac.PBCOps(x)
		sum := 0
		for i, l := range ls {
			if lit(l) {
				sum += cs[i]
			}
		}
		r = cmpOf(c).Eval(sum, rhs)
	}
	memo[x] = r
	return r
}

// same compares a formula with the expected values at the sampled points; a
// formula with auxiliary variables must extend to a model accordingly.
func (w *Wide) same(t *rapid.T, what string, y f.Formula, aux bool) {
	w.sameOn(t, what, w.Fac, y, aux, w.pts, w.vals)
}

func (w *Wide) sameOn(t *rapid.T, what string, fac f.Factory, y f.Formula, aux bool, pts [][]bool, vals []bool) {
	if !aux || !w.foreign(y) {
		for i, m := range pts {
			if got := w.evalAll(fac, y, m, map[f.Formula]bool{}); got != vals[i] {
				t.Fatalf("%s is %v at %s, expected %v: %s", what, got, w.point(m), vals[i], y.Sprint(fac))
			}
		}
		return
	}
	r := newCNFReader(fac, w.Names, w.NV)
	for _, v := range f.Variables(fac, y).Content() {
		r.Lit(v.AsLiteral())
	}
	p := &projector{r: r, next: w.NV + len(r.Aux), memo: map[f.Formula]int{}}
	p.clauses = append(p.clauses, []int{p.lit(y)})
	s := newCNFS(p.next, p.clauses)
	s.Limit = 50000
	for i, m := range pts {
		as := make([]int, w.NV)
		for v, b := range m {
			as[v] = 2 * v
			if !b {
				as[v]++
			}
		}
		if got := s.Sat(as...); got != vals[i] {
			t.Fatalf("%s extends to a model: %v at %s, expected %v: %s", what, got, w.point(m), vals[i], y.Sprint(fac))
		}
	}
}

func (w *Wide) point(m []bool) string {
	var sb strings.Builder
	for v, b := range m {
		if !b {
			sb.WriteByte('~')
		}
		sb.WriteString(w.Names[v] + " ")
	}
	return sb.String()
}

func wideGen(cc bool) Gen { return Gen{Depth: 2, Consts: true, CC: cc, PBC: cc} }

// f03Wide: profiles of formulas with many variables.
func f03Wide(t *rapid.T, c *Ctx) {
	w := genWide(t, c, genFac(t), 10, 90, wideGen(true), wideAny)
	for i := 0; i < 2; i++ {
		ref := refStruct(w.Fac, w.x)
		vs, ls := f.Variables(w.Fac, w.x), f.Literals(w.Fac, w.x)
		vp, lp := f.VariableProfile(w.Fac, w.x), f.LiteralProfile(w.Fac, w.x)
		if vs.Size() != len(ref.vars) || len(vs.Content()) != len(ref.vars) || len(vp) != len(ref.vars) {
			t.Fatalf("%d variables, expected %d", vs.Size(), len(ref.vars))
		}
		if ls.Size() != len(ref.lits) || len(ls.Content()) != len(ref.lits) || len(lp) != len(ref.lits) {
			t.Fatalf("%d literals, expected %d", ls.Size(), len(ref.lits))
		}
		if !slices.IsSorted(vs.Content()) {
			t.Fatalf("variables not sorted")
		}
		for v, n := range ref.vars {
			if x := f.Variable(v); !vs.Contains(x) || vp[x] != n {
				t.Fatalf("variable %s occurs %d times, profile says %d", w.str(x.AsFormula()), n, vp[x])
			}
		}
		for l, n := range ref.lits {
			if !ls.Contains(l) || lp[l] != n {
				t.Fatalf("literal %s occurs %d times, profile says %d", l.Sprint(w.Fac), n, lp[l])
			}
		}
		if d := f.Depth(w.Fac, w.x); d != ref.depth {
			t.Fatalf("depth %d, expected %d", d, ref.depth)
		}
		if a := f.NumberOfAtoms(w.Fac, w.x); a != ref.atoms {
			t.Fatalf("%d atoms, expected %d", a, ref.atoms)
		}
		if a := f.NumberOfNodes(w.Fac, w.x); a != ref.nodes {
			t.Fatalf("%d nodes, expected %d", a, ref.nodes)
		}
		m := map[f.Formula]bool{}
		refSubNodes(w.Fac, w.x, m)
		if got := f.SubNodes(w.Fac, w.x); len(got) != len(m) {
			t.Fatalf("%d sub-nodes, expected %d", len(got), len(m))
		}
	}
}

// f04Wide: evaluation and restriction with many variables.
func f04Wide(t *rapid.T, c *Ctx) {
	w := genWide(t, c, genFac(t), 10, 90, wideGen(true), wideAny)
	for i := 0; i < 3; i++ {
		base := w.pts[w.rnd.Intn(len(w.pts))]
		p := w.rnd.Float64()
		fixed := map[int]bool{}
		var ls []f.Literal
		m := map[f.Variable]bool{}
		for v, b := range base {
			if w.rnd.Float64() < p {
				fixed[v] = b
				ls = append(ls, w.lit(v, b))
				m[w.Fac.Var(w.Names[v])] = b
			}
		}
		a, err := assignment.New(w.Fac, ls...)
		if err != nil {
			t.Fatal(err)
		}
		total := make([]bool, w.NV)
		for v, b := range fixed {
			total[v] = b
		}
		if got, want := assignment.Evaluate(w.Fac, w.x, a), w.n.eval(total); got != want {
			t.Fatalf("Evaluate yields %v, expected %v under %v", got, want, fixed)
		}
		y := assignment.Restrict(w.Fac, w.x, a)
		for v := range w.used(y) {
			if _, ok := fixed[v]; ok {
				t.Fatalf("restriction contains the assigned variable %s", w.Names[v])
			}
		}
		var pts [][]bool
		var vals []bool
		for _, q := range w.pts {
			q = slices.Clone(q)
			for v, b := range fixed {
				q[v] = b
			}
			pts, vals = append(pts, q), append(vals, w.n.eval(q))
		}
		w.sameOn(t, fmt.Sprintf("restriction by %v", fixed), w.Fac, y, false, pts, vals)
		tr, fa := assignment.EvaluatesToTrue(w.Fac, w.x, m), assignment.EvaluatesToFalse(w.Fac, w.x, m)
		for _, v := range vals {
			if v && fa || !v && tr {
				t.Fatalf("EvaluatesToTrue/False %v/%v under %v, but a completion evaluates to %v", tr, fa, fixed, v)
			}
		}
		unassigned := false
		for v := range w.used(w.x) {
			if _, ok := fixed[v]; !ok {
				unassigned = true
			}
		}
		if !unassigned && tr == fa {
			t.Fatalf("a total assignment evaluates neither to true nor to false")
		}
		c.ClassIf(tr || fa, "evaluated by a partial assignment")
	}
}

// n01Wide: normal forms of formulas with many variables.
func n01Wide(t *rapid.T, c *Ctx) {
	cc := rapid.IntRange(0, 3).Draw(t, "cc") == 0
	kind := pick(t, "kind", wideAny, wideAny, wideCNF, wideDNF)
	w := genWide(t, c, genFac(t), 8, 70, wideGen(cc), kind)
	x := w.x
	for i := rapid.IntRange(2, 5).Draw(t, "steps"); i > 0; i-- {
		if f.NumberOfNodes(w.Fac, x) > 2500 {
			break
		}
		var y f.Formula
		what := pick(t, "form", "NNF", "AIG", "FCNF", "FDNF", "pred", "neg")
		t.Logf("%s", what)
		c.Class(what)
		neg := false
		shape := isNNFShape
		st := true
		switch what {
		case "NNF":
			y = normalform.NNF(w.Fac, x)
		case "AIG":
			y, shape = normalform.AIG(w.Fac, x), isAIGShape
			if aigKnown(w.Fac, x) {
				c.Exclude("AIG of equivalences with compound operands: shape")
				shape = nil
			}
		case "FCNF", "FDNF":
			h := normalform.NewFactorizationHandler(2000, 2000)
			if what == "FCNF" {
				r, s := normalform.FactorizedCNFWithHandler(w.Fac, x, h)
				y, st, shape = r, s.Success, isCNFShape
			} else {
				r, s := normalform.FactorizedDNFWithHandler(w.Fac, x, h)
				y, st, shape = r, s.Success, isDNFShape
			}
		case "neg":
			// the negation of the formula: all values flip
			y, shape, neg = w.Fac.Not(x), nil, true
		default:
			for _, p := range []struct{ got, want bool }{
				{normalform.IsNNF(w.Fac, x), isNNFShape(w.Fac, x)},
				{normalform.IsCNF(w.Fac, x), isCNFShape(w.Fac, x)},
				{normalform.IsDNF(w.Fac, x), isDNFShape(w.Fac, x)},
				{normalform.IsAIG(w.Fac, x), isAIGShape(w.Fac, x)},
			} {
				if p.got != p.want {
					t.Fatalf("normal form predicate yields %v for %s", p.got, w.str(x))
				}
			}
			continue
		}
		if !st {
			c.Class("factorization bounded")
			continue
		}
		if shape != nil && !shape(w.Fac, y) {
			t.Fatalf("%s is not in the form: %s", what, w.str(y))
		}
		if neg && w.foreign(x) {
			continue
		}
		if neg {
			for j := range w.vals {
				w.vals[j] = !w.vals[j]
			}
		}
		w.same(t, what, y, true)
		c.ClassIf(y != x, "changed by "+what)
		x = y
	}
}

// n02Wide: conversions with auxiliary variables of large formulas.
func n02Wide(t *rapid.T, c *Ctx) {
	w := genWide(t, c, genFac(t), 8, 70, wideGen(rapid.IntRange(0, 4).Draw(t, "cc") == 0), wideAny)
	fac := w.Fac
	ts, pg := normalform.NewCNFAuxState(), normalform.NewCNFAuxState()
	var all []f.Formula
	xs := []f.Formula{w.x}
	for i := rapid.IntRange(1, 4).Draw(t, "count"); i > 0; i-- {
		x := xs[0]
		neg := rapid.IntRange(0, 3).Draw(t, "neg") == 0
		if neg {
			x = fac.Not(x)
		}
		bound := pick(t, "bound", 0, 12, -1, 3, 30)
		var y f.Formula
		what := pick(t, "how", "tseitin", "pg", "tseitin shared", "pg shared", "config")
		switch what {
		case "tseitin":
			y = normalform.TseitinCNFWithBoundary(fac, x, bound)
		case "pg":
			y = normalform.PGCNFWithBoundary(fac, x, bound)
		case "tseitin shared":
			y = normalform.TseitinCNF(fac, x, bound, ts)
		case "pg shared":
			y = normalform.PGCNF(fac, x, bound, pg)
		default:
			cfg, s := genCNFConfig(t)
			if cfg.Algorithm == normalform.CNFFactorization {
				continue
			}
			cfg.DistributionBoundary = max(cfg.DistributionBoundary, 0)
			cfg.CreatedClauseBoundary = max(cfg.CreatedClauseBoundary, 0) * 10
			what += " " + s
			y = normalform.CNF(fac, x, cfg)
		}
		t.Logf("%s negated=%v bound %d", what, neg, bound)
		c.Class(strings.Fields(what)[0])
		if !isCNFShape(fac, y) {
			t.Fatalf("%s: not a CNF", what)
		}
		vals := w.vals
		if neg {
			vals = slices.Clone(vals)
			for j := range vals {
				vals[j] = !vals[j]
			}
		} else {
			all = append(all, y)
		}
		w.sameOn(t, what, fac, y, true, w.pts, vals)
		c.ClassIf(w.foreign(y), "auxiliary variables")
	}
	if len(all) > 1 {
		w.same(t, "conjunction of the conversions", fac.And(all...), true)
	}
}

// t01Wide: simplifications of formulas with many variables.
func t01Wide(t *rapid.T, c *Ctx) {
	cc := rapid.IntRange(0, 4).Draw(t, "cc") == 0
	kind := pick(t, "kind", wideAny, wideAny, wideCNF, wideDNF)
	w := genWide(t, c, genFac(t), 8, 40, wideGen(cc), kind)
	fac, x := w.Fac, w.x
	for i := rapid.IntRange(1, 3).Draw(t, "steps"); i > 0; i-- {
		var y f.Formula
		what := pick(t, "what", "backbone", "units", "distribute", "factor", "negations", "cnf", "dnf", "advanced")
		t.Logf("%s", what)
		aux := false
		switch what {
		case "backbone":
			y = simplification.PropagateBackbone(fac, x)
			if kind == wideCNF && !w.long {
				// oracle: dynamic programming
				w.checkBackbone(t, c, y)
			}
		case "units":
			y, aux = simplification.PropagateUnits(fac, x), true
		case "distribute":
			y = simplification.Distribute(fac, x)
		case "factor":
			y = simplification.FactorOut(fac, x)
			if len(w.str(y)) > len(w.str(x)) {
				t.Fatalf("factoring out returns a longer formula")
			}
		case "negations":
			y, aux = simplification.MinimizeNegations(fac, x), true
			if len(w.str(y)) > len(w.str(x)) {
				t.Fatalf("negation minimization returns a longer formula")
			}
		case "cnf", "dnf":
			outer, inner := f.SortAnd, f.SortOr
			ok := isCNFShape(fac, x)
			var err error
			if what == "cnf" {
				y, err = simplification.CNFSubsumption(fac, x)
			} else {
				y, err = simplification.DNFSubsumption(fac, x)
				outer, inner = inner, outer
				ok = isDNFShape(fac, x)
			}
			if ok != (err == nil) {
				t.Fatalf("subsumption: error %v, formula in the form: %v", err, ok)
			}
			if err != nil {
				continue
			}
			w.checkSubsumed(t, c, x, y, outer, inner)
		default:
			if w.NV > 18 {
				continue
			}
			cfg := simplification.DefaultConfig()
			cfg.RestrictBackbone = rapid.Bool().Draw(t, "bb")
			cfg.FactorOut = rapid.Bool().Draw(t, "fo")
			cfg.SimplifyNegations = rapid.Bool().Draw(t, "sn")
			h := &kHandler{k: 400}
			z, st := simplification.AdvancedWithHandler(fac, x, h, cfg)
			if !st.Success {
				c.Class("advanced: canceled")
				continue
			}
			y, aux = z, true
		}
		c.ClassIf(y != x, "changed by "+what)
		w.same(t, what, y, aux)
	}
}

// checkBackbone checks the shape of the propagated backbone of a clause set.
func (w *Wide) checkBackbone(t *rapid.T, c *Ctx, y f.Formula) {
	if !w.sat(w.Cons, nil) {
		if y.Sort() != f.SortFalse {
			t.Fatalf("backbone simplification of an unsatisfiable formula is %s", w.str(y))
		}
		return
	}
	ops := []f.Formula{y}
	if y.Sort() == f.SortAnd {
		ops = w.Fac.Operands(y)
	}
	units := map[int]bool{}
	rest := map[int]bool{}
	for _, o := range ops {
		if o.Sort() == f.SortLiteral {
			for v := range w.used(o) {
				units[v] = true
			}
		} else {
			for v := range w.used(o) {
				rest[v] = true
			}
		}
	}
	in := w.used(w.x)
	for v := range w.NV {
		if in[v] && (!w.sat(w.Cons, map[int]bool{v: true}) || !w.sat(w.Cons, map[int]bool{v: false})) {
			if !units[v] || rest[v] {
				t.Fatalf("the backbone variable %s is not (fully) propagated: %s", w.Names[v], w.str(y))
			}
			c.Class("backbone variable")
		}
	}
}

// checkSubsumed checks that exactly the minimal clauses (terms) are kept.
func (w *Wide) checkSubsumed(t *rapid.T, c *Ctx, x, y f.Formula, outer, inner f.FSort) {
	parts := func(x f.Formula) []map[f.Formula]bool {
		ps := []f.Formula{x}
		if x.Sort() == outer {
			ps = w.Fac.Operands(x)
		}
		var r []map[f.Formula]bool
		for _, p := range ps {
			ls := []f.Formula{p}
			if p.Sort() == inner {
				ls = w.Fac.Operands(p)
			}
			m := map[f.Formula]bool{}
			for _, l := range ls {
				m[l] = true
			}
			r = append(r, m)
		}
		return r
	}
	if isConst(x) || isConst(y) {
		// complementary parts which become syntactically visible
		return
	}
	sub := func(a, b map[f.Formula]bool) bool {
		for l := range a {
			if !b[l] {
				return false
			}
		}
		return true
	}
	// tautological clauses and contradictory terms may also be condensed
	condensable := func(m map[f.Formula]bool) bool {
		for l := range m {
			if l.Sort() == f.SortLiteral && m[f.Literal(l).Negate(w.Fac).AsFormula()] {
				return true
			}
		}
		return false
	}
	in, out := parts(x), parts(y)
	in, out = slices.DeleteFunc(in, condensable), slices.DeleteFunc(out, condensable)
	kept := 0
	for i, a := range in {
		minimal := true
		for j, b := range in {
			if sub(b, a) && (len(b) < len(a) || j < i) {
				minimal = false
			}
		}
		n := 0
		for _, b := range out {
			if sub(a, b) && len(a) == len(b) {
				n++
			}
		}
		if minimal {
			kept++
			if n != 1 {
				t.Fatalf("an unsubsumed part occurs %d times in %s", n, w.str(y))
			}
		}
	}
	if kept != len(out) {
		t.Fatalf("%d parts, expected %d", len(out), kept)
	}
	c.ClassIf(kept < len(in), "parts subsumed")
}

// t02Wide: substitutions over many variables.
func t02Wide(t *rapid.T, c *Ctx) {
	w := genWide(t, c, genFac(t), 8, 70, wideGen(rapid.IntRange(0, 2).Draw(t, "cc") == 0), wideAny)
	fac := w.Fac
	n := w.n
	img := func(g func(l L, m []bool) bool) (vals []bool) {
		// value of the substituted formula: evaluate under the images
		for _, m := range w.pts {
			q := make([]bool, w.NV)
			for v := range q {
				q[v] = g(L{v, true}, m)
			}
			vals = append(vals, n.eval(q))
		}
		return
	}
	switch rapid.IntRange(0, 3).Draw(t, "what") {
	case 0:
		s := transformation.NewSubstitution()
		as := map[int]*N{}
		mapped := rapid.Bool().Draw(t, "mapped")
		mapping := map[f.Variable]f.Formula{}
		plain := noCC(fac, w.x)
		desc := ""
		for i := rapid.IntRange(1, w.NV).Draw(t, "images"); i > 0; i-- {
			v := rapid.IntRange(0, w.NV-1).Draw(t, "v")
			l := genLit(t, w.NV)
			a := nLit(l.V, l.Pos)
			if plain && rapid.Bool().Draw(t, "compound") {
				b, d := genLit(t, w.NV), genLit(t, w.NV)
				a = nOp(pick(t, "op", OpAnd, OpOr, OpEquiv), a, nOp(OpOr, nLit(b.V, b.Pos), nLit(d.V, d.Pos)))
			}
			as[v] = a
			if mapped {
				mapping[fac.Var(w.Names[v])] = a.Build(fac, w.Names)
			} else {
				s.AddVar(fac.Var(w.Names[v]), a.Build(fac, w.Names))
			}
			desc += fmt.Sprintf(" %s:=%s", w.Names[v], a.str(w.Names))
		}
		s.AddMapping(mapping)
		clear(mapping)
		y, err := transformation.Substitute(fac, w.x, s)
		if err != nil {
			t.Fatalf("substitution: %v", err)
		}
		w.sameOn(t, "substitution"+desc, fac, y, false, w.pts, img(func(l L, m []bool) bool {
			if a, ok := as[l.V]; ok {
				return a.eval(m)
			}
			return m[l.V]
		}))
		c.Class("substitution")
	case 1:
		// a permutation of the variables with signs
		p := make([]int, w.NV)
		for i := range p {
			p[i] = i
		}
		w.rnd.Shuffle(w.NV, func(i, j int) { p[i], p[j] = p[j], p[i] })
		m := map[f.Literal]f.Literal{}
		sign := make([]bool, w.NV)
		for v := range p {
			sign[v] = w.rnd.Intn(3) > 0
			m[w.lit(v, true)] = w.lit(p[v], sign[v])
		}
		y := transformation.SubstituteLiterals(fac, w.x, &m)
		w.sameOn(t, "literal substitution", fac, y, false, w.pts, img(func(l L, q []bool) bool { return q[p[l.V]] == sign[l.V] }))
		c.Class("literals")
	case 2:
		prefix := pick(t, "prefix", "v", "x", "w_")
		an := transformation.NewAnonymizer(fac, prefix)
		order := map[string]int{}
		var old []f.Variable
		xs := []f.Formula{w.Cons[0].F, w.x}
		ys := make([]f.Formula, 2)
		for i, x := range xs {
			for _, v := range f.Variables(fac, x).Content() {
				if !slices.Contains(old, v) {
					name, _ := fac.VarName(v)
					order[fmt.Sprintf("%s%d", prefix, len(old))] = w.idx[name]
					old = append(old, v)
				}
			}
			ys[i] = an.Anonymize(x)
		}
		r := &Chain{NV: w.NV, Fac: fac, idx: order}
		for i, m := range w.pts {
			if got := r.evalAll(fac, ys[1], m, map[f.Formula]bool{}); got != w.vals[i] {
				t.Fatalf("the anonymized formula %s is no consistent renaming", w.str(ys[1]))
			}
			if got := r.evalAll(fac, ys[0], m, map[f.Formula]bool{}); got != w.Cons[0].eval(m) {
				t.Fatalf("the anonymized formula %s is no consistent renaming", w.str(ys[0]))
			}
		}
		c.Class("anonymized")
		c.ClassIf(len(order) > 20, "more than 20 variables anonymized")
	default:
		k := rapid.IntRange(1, 3).Draw(t, "k")
		if w.NV < 20 {
			k = rapid.IntRange(1, 6).Draw(t, "k more")
		}
		vs, _ := w.genProjection(t, k)
		exists := rapid.Bool().Draw(t, "exists")
		var vals []bool
		for _, m := range w.pts {
			r := !exists
			for i := 0; i < 1<<k; i++ {
				q := slices.Clone(m)
				for j, v := range vs {
					q[v] = i>>j&1 == 1
				}
				if n.eval(q) == exists {
					r = exists
				}
			}
			vals = append(vals, r)
		}
		var y f.Formula
		if exists {
			y = transformation.ExistentialQE(fac, w.x, w.varsOf(vs)...)
		} else {
			y = transformation.UniversalQE(fac, w.x, w.varsOf(vs)...)
		}
		for v := range w.used(y) {
			if slices.Contains(vs, v) {
				t.Fatalf("the eliminated variable %s occurs in the result", w.Names[v])
			}
		}
		w.sameOn(t, "quantifier elimination", fac, y, false, w.pts, vals)
		c.Class("quantified")
	}
	w.same(t, "the formula afterwards", w.x, false)
}

// p01Wide: large formulas printed and parsed.
func p01Wide(t *rapid.T, c *Ctx) {
	w := genWide(t, c, genFac(t), 10, 110, wideGen(true), wideAny)
	s := w.str(w.x)
	y, err := parser.New(w.Fac).Parse(s)
	if err != nil || y != w.x {
		t.Fatalf("parse(print(f)) on the same factory: %v, %v", w.str(y), err)
	}
	fac := genFac(t)
	z, err := parser.New(fac).Parse(s)
	if err != nil {
		t.Fatal(err)
	}
	w.sameOn(t, "the formula parsed on a fresh factory", fac, z, false, w.pts, w.vals)
	txt := (&texter{t, w.Names}).render(w.n, pEquiv)
	z, err = parser.New(fac).Parse(txt)
	if err != nil {
		t.Fatalf("text %q: %v", txt, err)
	}
	w.sameOn(t, "the formula of the text "+txt, fac, z, false, w.pts, w.vals)
	dir, done := scratch(t)
	defer done()
	fn := filepath.Join(dir, "f")
	split := rapid.Bool().Draw(t, "split")
	if err := io.WriteFormula(w.Fac, fn, w.x, split); err != nil {
		t.Fatal(err)
	}
	if y, err = io.ReadFormula(w.Fac, fn); err != nil || y != w.x {
		t.Fatalf("formula file read back: %v instead of %v, %v", w.str(y), w.str(w.x), err)
	}
}

// i01Wide: large formula files and DIMACS files.
func i01Wide(t *rapid.T, c *Ctx) {
	w := genWide(t, c, genFac(t), 10, 120, wideGen(true), pick(t, "kind", wideCNF, wideCNF, wideAny))
	dir, done := scratch(t)
	defer done()
	fn := filepath.Join(dir, "f.cnf")
	split := rapid.Bool().Draw(t, "split")
	if err := io.WriteFormula(w.Fac, fn, w.x, split); err != nil {
		t.Fatal(err)
	}
	if y, err := io.ReadFormula(w.Fac, fn); err != nil || y != w.x {
		t.Fatalf("formula file read back: %v instead of %v, %v", w.str(y), w.str(w.x), err)
	}
	fac := genFac(t)
	if y, err := io.ReadFormula(fac, fn); err != nil {
		t.Fatal(err)
	} else {
		w.sameOn(t, "formula file on a fresh factory", fac, y, false, w.pts, w.vals)
	}
	var buf bytes.Buffer
	m, err := io.WriteDimacsToWriter(w.Fac, &buf, w.x)
	if (err == nil) != isCNFShape(w.Fac, w.x) {
		t.Fatalf("DIMACS: error %v", err)
	}
	if err != nil {
		return
	}
	if vs := f.Variables(w.Fac, w.x); len(m) != vs.Size() {
		t.Fatalf("mapping of %d variables, expected %d", len(m), vs.Size())
	}
	if err := os.WriteFile(fn, buf.Bytes(), 0o644); err != nil {
		panic(err)
	}
	fs, err := io.ReadDimacs(fac, fn, "q")
	if err != nil {
		t.Fatal(err)
	}
	r := &Chain{NV: w.NV, idx: map[string]int{}}
	for v, id := range m {
		name, _ := w.Fac.VarName(v)
		q := fmt.Sprintf("q%d", id)
		if _, ok := r.idx[q]; ok || id < 1 || id > len(m) {
			t.Fatalf("bad DIMACS number %d", id)
		}
		r.idx[q] = w.idx[name]
	}
	for i, p := range w.pts {
		all := true
		for _, x := range *fs {
			all = r.evalAll(fac, x, p, map[f.Formula]bool{}) && all
		}
		if all != w.vals[i] {
			t.Fatalf("the formula read from DIMACS evaluates to %v, expected %v", all, w.vals[i])
		}
	}
	c.Class("DIMACS")
	c.ClassIf(len(m) > 99, "more than 99 variables")
}

// g01Wide: connected components of many formulas.
func g01Wide(t *rapid.T, c *Ctx) {
	fac := genFac(t)
	k := chainKind{clauses: rapid.Bool().Draw(t, "clauses"), g: wideGen(true), density: 9}
	ch := genChain(t, fac, 5, 90, k)
	c.Doing(ch.String())
	xs := ch.formulas()
	// union-find over the variables
	root := make([]int, ch.NV)
	for i := range root {
		root[i] = i
	}
	var find func(i int) int
	find = func(i int) int {
		if root[i] != i {
			root[i] = find(root[i])
		}
		return root[i]
	}
	adj := map[int]map[int]bool{}
	for _, x := range xs {
		vs := sortedKeys(ch.used(x))
		for _, v := range vs {
			root[find(v)] = find(vs[0])
			if adj[v] == nil {
				adj[v] = map[int]bool{}
			}
			for _, u := range vs {
				if u != v {
					adj[v][u] = true
				}
			}
		}
	}
	want := map[int]int{}
	for v := range adj {
		want[find(v)]++
	}
	c.Case(t, len(want) > 1, "%s", ch)
	g := graph.GenerateConstraintGraph(fac, xs...)
	if n := len(g.Nodes()); n != len(adj) {
		t.Fatalf("%d nodes, expected %d", n, len(adj))
	}
	idx := func(x f.Formula) int {
		name, pos, ok := fac.LitNamePhase(f.Literal(x))
		i, has := ch.idx[name]
		if !ok || !has || !pos {
			t.Fatalf("bad node %s", x.Sprint(fac))
		}
		return i
	}
	for _, x := range g.Nodes() {
		nb := g.Neighbours(x)
		if len(nb) != len(adj[idx(x)]) {
			t.Fatalf("%s has %d neighbours, expected %d", x.Sprint(fac), len(nb), len(adj[idx(x)]))
		}
		for _, y := range nb {
			if !adj[idx(x)][idx(y)] {
				t.Fatalf("%s is no neighbour of %s", y.Sprint(fac), x.Sprint(fac))
			}
		}
	}
	comps := graph.ComputeConnectedComponents(g)
	if len(comps) != len(want) {
		t.Fatalf("%d components, expected %d", len(comps), len(want))
	}
	seen := map[int]bool{}
	for _, comp := range comps {
		if len(comp) == 0 || len(comp) != want[find(idx(comp[0].AsFormula()))] {
			t.Fatalf("component of %d nodes", len(comp))
		}
		for _, x := range comp {
			i := idx(x.AsFormula())
			if seen[i] || find(i) != find(idx(comp[0].AsFormula())) {
				t.Fatalf("%s is in the wrong component or twice", ch.Names[i])
			}
			seen[i] = true
		}
	}
	c.ClassIf(len(comps) > 5, "more than 5 components")
	// formulas by component
	parts := graph.SplitFormulasByComponent(fac, xs, comps)
	placed := map[f.Formula]bool{}
	for _, p := range parts {
		r := -1
		for _, x := range p {
			placed[x] = true
			for v := range ch.used(x) {
				if r >= 0 && find(v) != r {
					t.Fatalf("%s is in the part of another component", x.Sprint(fac))
				}
				r = find(v)
			}
		}
	}
	for _, x := range xs {
		if !isConst(x) && !placed[x] {
			t.Fatalf("%s is in no part", x.Sprint(fac))
		}
	}
}
