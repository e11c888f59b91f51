package harness

import (
	"fmt"
	"math/big"
	"slices"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/explanation"
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
	"pgregory.net/rapid"
)

func genFac(t *rapid.T) f.Factory {
	if rapid.IntRange(0, 4).Draw(t, "conserve") == 4 {
		return f.NewFactory(true)
	}
	return f.NewFactory()
}

// used returns the variables the factory's formulas mention.
func (ch *Chain) used(xs ...f.Formula) map[int]bool {
	r := map[int]bool{}
	for _, x := range xs {
		for _, v := range f.Variables(ch.Fac, x).Content() {
			name, _ := ch.Fac.VarName(v)
			r[ch.idx[name]] = true
		}
	}
	return r
}

func bigPow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// d01Chain: DNNFs of clause sets over many variables and clauses.
func d01Chain(t *rapid.T, c *Ctx) {
	ch := genChain(t, genFac(t), 10, 110, chainKind{clauses: true, density: 18})
	c.Doing(ch.String())
	x := ch.Fac.And(ch.formulas()...)
	want := ch.count(ch.Cons, nil)
	c.Case(t, want.Sign() > 0 && len(ch.Cons) >= 10, "%s", ch)
	c.ClassIf(len(ch.Cons) > 64, "more than 64 clauses")
	c.ClassIf(len(ch.Cons) > 128, "more than 128 clauses")
	c.ClassIf(want.BitLen() > 64, "count exceeds 64 bits")
	c.ClassIf(want.Sign() == 0, "unsatisfiable")
	d := dnnf.Compile(ch.Fac, x)
	if !isNNFShape(ch.Fac, d.Formula) {
		t.Fatalf("DNNF is not in negation normal form")
	}
	unused := ch.NV - len(ch.used(x))
	exp := new(big.Int).Rsh(want, uint(unused))
	for i := 0; i < 2; i++ {
		if got := d.ModelCount(); got.Cmp(exp) != 0 {
			t.Fatalf("model count %d of the DNNF is %v, expected %v", i+1, got, exp)
		}
	}
	// decomposability
	type set = map[int]bool
	memo := map[f.Formula]set{}
	var walk func(y f.Formula) set
	walk = func(y f.Formula) set {
		if r, ok := memo[y]; ok {
			return r
		}
		r := set{}
		switch y.Sort() {
		case f.SortLiteral:
			name, _, _ := ch.Fac.LitNamePhase(f.Literal(y))
			i, ok := ch.idx[name]
			if !ok {
				t.Fatalf("DNNF has foreign variable %s", name)
			}
			r[i] = true
		case f.SortAnd, f.SortOr:
			for _, o := range ch.Fac.Operands(y) {
				for v := range walk(o) {
					if y.Sort() == f.SortAnd && r[v] {
						t.Fatalf("the operands of a conjunction share the variable %s", ch.Names[v])
					}
					r[v] = true
				}
			}
		}
		memo[y] = r
		return r
	}
	walk(d.Formula)
	rnd := ch.rand(t)
	ms := ch.sample(ch.Cons, nil, 6, rnd)
	for i := 0; i < 6; i++ {
		m := make([]bool, ch.NV)
		if i < len(ms) {
			copy(m, ms[i]) // close to a model
			m[rnd.Intn(ch.NV)] = rnd.Intn(2) == 0
		} else {
			for v := range m {
				m[v] = rnd.Intn(2) == 0
			}
		}
		ms = append(ms, m)
	}
	for _, m := range ms {
		want := true
		for _, con := range ch.Cons {
			want = want && con.eval(m)
		}
		vals := map[f.Formula]bool{}
		if got := ch.evalF(d.Formula, m, vals); got != want {
			t.Fatalf("the DNNF evaluates to %v, the formula to %v", got, want)
		}
		for y := range vals {
			if y.Sort() == f.SortOr {
				n := 0
				for _, o := range ch.Fac.Operands(y) {
					if vals[o] {
						n++
					}
				}
				if n > 1 {
					t.Fatalf("the operands of a disjunction have a common model")
				}
			}
		}
	}
}

// c03Chain: counts over many variables.
func c03Chain(t *rapid.T, c *Ctx) {
	k := chainKind{clauses: rapid.Bool().Draw(t, "clauses"), g: Gen{Depth: 2, Consts: true, CC: rapid.Bool().Draw(t, "ccs"), AMOOnly: true}, density: 14}
	ch := genChain(t, genFac(t), 10, 80, k)
	c.Doing(ch.String())
	want := ch.count(ch.Cons, nil)
	c.Case(t, want.Sign() > 0 && len(ch.Cons) >= 6, "%s", ch)
	c.ClassIf(want.BitLen() > 64, "count exceeds 64 bits")
	c.ClassIf(want.Sign() == 0, "unsatisfiable")
	xs := ch.formulas()
	got, err := count.Count(ch.Fac, ch.vars(), xs...)
	supported := countable(ch.Fac, xs...)
	if supported != (err == nil) {
		t.Fatalf("count.Count: error %v, supported: %v", err, supported)
	}
	if err == nil && got.Cmp(want) != 0 {
		t.Fatalf("count.Count yields %v, expected %v", got, want)
	}
	// projected: the values a few variables take
	n := rapid.IntRange(1, min(6, ch.NV)).Draw(t, "project")
	vs, exp := ch.genProjection(t, n)
	cfg := &iter.Config{Handler: handler.NopHandler, Strategy: genChainStrategy(t)}
	s := sat.NewSolver(ch.Fac)
	s.Add(xs...)
	if got, st := count.OnSolverWithConfig(s, ch.varsOf(vs), cfg); !st.Success || got.Cmp(big.NewInt(int64(len(exp)))) != 0 {
		t.Fatalf("the count projected to %s is %v, expected %d", fmt.Sprint(vs), got, len(exp))
	}
}

func genChainStrategy(t *rapid.T) iter.Strategy {
	switch rapid.IntRange(0, 3).Draw(t, "strategy") {
	case 0:
		return iter.NewNoSplitMEStrategy()
	case 1:
		return iter.NewBasicStrategy(iter.DefaultMostCommonVarProvider(), rapid.IntRange(3, 60).Draw(t, "limit"))
	case 2:
		return iter.NewBasicStrategy(iter.DefaultLeastCommonVarProvider(), rapid.IntRange(3, 60).Draw(t, "limit"))
	default:
		return iter.DefaultStrategy()
	}
}

func (ch *Chain) varsOf(is []int) []f.Variable {
	r := make([]f.Variable, len(is))
	for i, v := range is {
		r[i] = ch.Fac.Var(ch.Names[v])
	}
	return r
}

// genProjection draws variables and computes the values they take in models.
func (ch *Chain) genProjection(t *rapid.T, n int) ([]int, map[int]bool) {
	var vs []int
	lo := rapid.IntRange(0, ch.NV-1).Draw(t, "lo")
	near := rapid.Bool().Draw(t, "near")
	for len(vs) < n {
		v := rapid.IntRange(0, ch.NV-1).Draw(t, "pv")
		if near {
			v = (lo + v%(2*n)) % ch.NV
		}
		for slices.Contains(vs, v) {
			v = (v + 1) % ch.NV
		}
		vs = append(vs, v)
	}
	exp := map[int]bool{}
	for i := 0; i < 1<<n; i++ {
		ass := map[int]bool{}
		for j, v := range vs {
			ass[v] = i>>j&1 == 1
		}
		if ch.sat(ch.Cons, ass) {
			exp[i] = true
		}
	}
	return vs, exp
}

// c01Chain: projected enumeration over solvers with many variables.
func c01Chain(t *rapid.T, c *Ctx) {
	k := chainKind{clauses: rapid.Bool().Draw(t, "clauses"), g: Gen{Depth: 2, Consts: true, CC: true, PBC: true}, density: 14}
	ch := genChain(t, genFac(t), 8, 70, k)
	var vs []int
	var exp map[int]bool
	full := rapid.IntRange(0, 2).Draw(t, "full") == 0
	total := new(big.Int)
	if full {
		// all models over all variables: add constraints until there are few
		for i := 0; i < 400; i++ {
			if total = ch.count(ch.Cons, nil); total.BitLen() <= 9 {
				break
			}
			con := ch.draw(t, k)
			if ch.sat(append(slices.Clone(ch.Cons), con), nil) {
				ch.Cons = append(ch.Cons, con)
			}
		}
		if total.BitLen() > 9 || total.Sign() == 0 {
			// (values of unknown variables are expanded eagerly)
			full = false
		}
		for v := 0; v < ch.NV; v++ {
			vs = append(vs, v)
		}
	}
	if !full {
		vs, exp = ch.genProjection(t, rapid.IntRange(1, 7).Draw(t, "project"))
	}
	c.Doing(ch.String())
	var adds []int
	if rapid.IntRange(0, 2).Draw(t, "adds") == 0 {
		adds, _ = ch.genProjection(t, rapid.IntRange(1, 3).Draw(t, "nadd"))
	}
	c.Case(t, full && total.BitLen() >= 3 || len(exp) >= 3, "full=%v project=%v add=%v %s", full, vs, adds, ch)
	cfg := &iter.Config{Handler: handler.NopHandler, Strategy: genChainStrategy(t)}
	var ms []*model.Model
	st := handler.Success()
	if rapid.Bool().Draw(t, "formula") {
		ms, st = enum.OnFormulaWithConfig(ch.Fac, ch.Fac.And(ch.formulas()...), ch.varsOf(vs), cfg, ch.varsOf(adds)...)
	} else {
		s := sat.NewSolver(ch.Fac)
		s.Add(ch.formulas()...)
		ms, st = enum.OnSolverWithConfig(s, ch.varsOf(vs), cfg, ch.varsOf(adds)...)
	}
	if !st.Success {
		t.Fatalf("enumeration canceled by nobody")
	}
	seen := map[string]bool{}
	for _, m := range ms {
		a := ch.model(t, m.Literals)
		if !ch.sat(ch.Cons, a) {
			t.Fatalf("model %s does not extend to a model", m.Sprint(ch.Fac))
		}
		for v := range a {
			if !slices.Contains(vs, v) && !slices.Contains(adds, v) {
				t.Fatalf("model %s has a variable that was not requested", m.Sprint(ch.Fac))
			}
		}
		key := ""
		for _, v := range vs {
			b, ok := a[v]
			if !ok {
				t.Fatalf("model %s lacks %s", m.Sprint(ch.Fac), ch.Names[v])
			}
			if b {
				key += "1"
			} else {
				key += "0"
			}
		}
		if seen[key] {
			t.Fatalf("model %s enumerated twice", m.Sprint(ch.Fac))
		}
		seen[key] = true
	}
	if full {
		if big.NewInt(int64(len(seen))).Cmp(total) != 0 {
			t.Fatalf("%d models enumerated, expected %v", len(seen), total)
		}
		c.ClassIf(len(seen) > 30, "more than 30 full models")
	} else if len(seen) != len(exp) {
		t.Fatalf("%d projected models enumerated, expected %d", len(seen), len(exp))
	}
}

// m01Chain: MaxSAT problems over many variables.
func m01Chain(t *rapid.T, c *Ctx) {
	alg := msAlgs[rapid.IntRange(0, len(msAlgs)-1).Draw(t, "alg")]
	weighted := alg.weighted && (!alg.unw || rapid.Bool().Draw(t, "weighted"))
	pool := weightPool(t, weighted)
	hi, softs := 60, 24
	if alg.name == "WBO" || alg.name == "IncWBO" {
		hi, softs = 30, 7
	}
	k := chainKind{clauses: rapid.Bool().Draw(t, "clauses"), g: Gen{Depth: 2, Consts: true, CC: true}, density: 8}
	fac := genFac(t)
	ch := genChain(t, fac, 8, hi, k)
	var s *maxsat.Solver
	cs := "default"
	if rapid.Bool().Draw(t, "cfg") {
		var cfg *maxsat.Config
		cfg, cs = genMsConfig(t)
		s = alg.mk(fac, cfg)
	} else {
		s = alg.mk(fac)
	}
	for i := rapid.IntRange(1, softs).Draw(t, "softs"); i > 0; i-- {
		var con *ChainCon
		if rapid.IntRange(0, 2).Draw(t, "unit") > 0 {
			at := rapid.IntRange(0, ch.NV-1).Draw(t, "uat")
			con = &ChainCon{At: at, names: Names{ch.Names[at]}, N: nLit(0, rapid.Bool().Draw(t, "pos"))}
			con.TT = con.N.TT(1)
			con.F = con.N.Build(fac, con.names)
		} else {
			con = ch.draw(t, k)
		}
		con.Weight = pick(t, "w", pool...)
		ch.Cons = append(ch.Cons, con)
	}
	total, w := 0, false
	for _, con := range ch.Cons {
		total += con.Weight
		w = w || con.Weight > 1
	}
	if w && !alg.weighted || !w && !alg.unw {
		return
	}
	c.Doing(alg.name + " " + cs + " " + ch.String())
	for _, con := range ch.Cons {
		if con.Weight == 0 {
			s.AddHardFormula(con.F)
		} else if err := s.AddSoftFormula(con.F, con.Weight); err != nil {
			t.Fatalf("soft formula rejected: %v", err)
		}
	}
	best := ch.best(ch.Cons, nil, nil)
	c.Case(t, best >= 0 && total > best, "%s %s %s", alg.name, cs, ch)
	var res maxsat.Result
	if alg.explodes(7) {
		var st handler.State
		if res, st = s.SolveWithHandler(&kHandler{k: wboLimit, sticky: true}); !st.Success {
			c.Class("not decided within the event limit")
			return
		}
	} else {
		res = s.Solve()
	}
	if res.Satisfiable != (best >= 0) {
		t.Fatalf("%s: satisfiable %v, expected %v", alg.name, res.Satisfiable, best >= 0)
	}
	if best < 0 {
		return
	}
	if res.Optimum != total-best {
		t.Fatalf("%s: optimum %d, expected %d", alg.name, res.Optimum, total-best)
	}
	if res.Model == nil {
		t.Fatalf("%s: no model", alg.name)
	}
	var ls []f.Literal
	for _, l := range res.Model.Literals {
		if name, _, _ := fac.LitNamePhase(l); strings.HasPrefix(name, "x") {
			ls = append(ls, l)
		}
	}
	if got := ch.best(ch.Cons, ch.model(t, ls), nil); got != best {
		t.Fatalf("%s: the model has cost %d, the optimum is %d", alg.name, total-got, total-best)
	}
	c.ClassIf(total-best >= 5, "optimum of at least 5")
	c.Class(alg.name)
}

// x01Chain: minimal unsatisfiable subsets of long lists over many variables.
func x01Chain(t *rapid.T, c *Ctx) {
	k := chainKind{clauses: rapid.IntRange(0, 2).Draw(t, "clauses") > 0, g: Gen{Depth: 1, CC: true}, density: 6}
	ch := genChain(t, genFac(t), 6, 40, k)
	for i := 0; i < 300 && ch.sat(ch.Cons, nil); i++ {
		ch.Cons = append(ch.Cons, ch.draw(t, k))
	}
	for i := rapid.IntRange(0, 10).Draw(t, "more"); i > 0; i-- {
		ch.Cons = append(ch.Cons, ch.draw(t, k))
	}
	unsat := !ch.sat(ch.Cons, nil)
	c.Doing(ch.String())
	by := map[f.Proposition]*ChainCon{}
	var props []f.Proposition
	for _, con := range ch.Cons {
		p := f.NewStandardProposition(con.F)
		by[p] = con
		props = append(props, p)
	}
	in := slices.Clone(props)
	for r := 0; r < 2; r++ {
		var core *explanation.UnsatCore
		var err error
		if r == 0 {
			core, err = mus.ComputeInsertionBased(ch.Fac, &props)
		} else {
			core, err = mus.ComputeDeletionBased(ch.Fac, &props)
		}
		if (err == nil) != unsat {
			t.Fatalf("MUS %d: error %v, unsatisfiable: %v", r, err, unsat)
		}
		if !slices.Equal(in, props) {
			t.Fatalf("the caller's list was changed")
		}
		if !unsat {
			continue
		}
		var cons []*ChainCon
		for _, p := range core.Propositions {
			con, ok := by[p]
			if !ok || slices.Contains(cons, con) {
				t.Fatalf("MUS %d contains a proposition that was not given or twice", r)
			}
			cons = append(cons, con)
		}
		if ch.sat(cons, nil) {
			t.Fatalf("MUS %d is satisfiable", r)
		}
		for _, con := range cons {
			if !ch.sat(slices.DeleteFunc(slices.Clone(cons), func(x *ChainCon) bool { return x == con }), nil) {
				t.Fatalf("MUS %d is not minimal", r)
			}
		}
		c.ClassIf(len(cons) >= 8, "MUS with at least 8 elements")
	}
	c.Case(t, unsat && len(ch.Cons) >= 6, "%s", ch)
}

// x01Paths: the smallest unsatisfiable subset of a reachability problem is a
// shortest path.
func x01Paths(t *rapid.T, c *Ctx) {
	fac := genFac(t)
	n := rapid.IntRange(3, 10).Draw(t, "nodes")
	v := func(i int) f.Variable { return fac.Var(fmt.Sprintf("n%d", i)) }
	src, dst := 0, n-1
	adj := make([][]int, n)
	var xs, adds []f.Formula
	edges := map[f.Formula][2]int{}
	desc := ""
	for i := rapid.IntRange(n-1, 2*n+4).Draw(t, "edges"); i > 0; i-- {
		a := rapid.IntRange(0, n-1).Draw(t, "a")
		b := a + rapid.IntRange(-2, 3).Draw(t, "step")
		if b < 0 || b >= n || b == a {
			continue
		}
		var x f.Formula
		if rapid.Bool().Draw(t, "impl") {
			x = fac.Implication(v(a).AsFormula(), v(b).AsFormula())
		} else {
			x = fac.Or(v(a).Negate(fac).AsFormula(), v(b).AsFormula())
		}
		if _, ok := edges[x]; ok {
			continue
		}
		edges[x] = [2]int{a, b}
		adj[a] = append(adj[a], b)
		xs = append(xs, x)
		desc += fmt.Sprintf(" %d-%d", a, b)
	}
	dist := func(adj [][]int) int {
		d := make([]int, n)
		for i := range d {
			d[i] = -1
		}
		d[src] = 0
		queue := []int{src}
		for len(queue) > 0 {
			a := queue[0]
			queue = queue[1:]
			for _, b := range adj[a] {
				if d[b] < 0 {
					d[b] = d[a] + 1
					queue = append(queue, b)
				}
			}
		}
		return d[dst]
	}
	d := dist(adj)
	size := d
	units := []f.Formula{v(src).AsFormula(), v(dst).Negate(fac).AsFormula()}
	for _, u := range units {
		if rapid.IntRange(0, 2).Draw(t, "additional") == 0 {
			adds = append(adds, u)
		} else {
			size++
			at := rapid.IntRange(0, len(xs)).Draw(t, "position")
			xs = slices.Insert(xs, at, u)
		}
	}
	c.Case(t, d >= 2, "nodes=%d edges=%s adds=%d", n, desc, len(adds))
	got := smus.ComputeForFormulas(fac, xs, adds...)
	if (got != nil) != (d >= 0) {
		t.Fatalf("SMUS found: %v, distance %d", got != nil, d)
	}
	if d < 0 {
		return
	}
	if len(got) != size {
		t.Fatalf("SMUS has %d elements, the smallest has %d", len(got), size)
	}
	sub := make([][]int, n)
	for i, x := range got {
		if slices.Contains(got[:i], x) || !slices.Contains(xs, x) {
			t.Fatalf("SMUS element %s repeated or not given", x.Sprint(fac))
		}
		if e, ok := edges[x]; ok {
			sub[e[0]] = append(sub[e[0]], e[1])
		}
	}
	if dist(sub) < 0 {
		t.Fatalf("the SMUS contains no path")
	}
	for _, u := range units {
		if !slices.Contains(got, u) && !slices.Contains(adds, u) {
			t.Fatalf("the SMUS lacks %s", u.Sprint(fac))
		}
	}
	c.ClassIf(size >= 5, "SMUS of at least 5 elements")
}

// r01Chain: minimum-size prime implicants of clause sets: a term is an
// implicant of a set of clauses without tautologies if and only if it meets
// every clause.
func r01Chain(t *rapid.T, c *Ctx) {
	ch := genChain(t, genFac(t), 6, 20, chainKind{clauses: true, density: 16})
	c.Doing(ch.String())
	// states: the last W values in base 3 (0 false, 1 true, 2 free)
	pow := 1
	for i := 0; i < ch.W; i++ {
		pow *= 3
	}
	by := ch.at(ch.Cons)
	cur := map[int]int{0: 0}
	for v := 0; v < ch.NV; v++ {
		next := map[int]int{}
		for s, k := range cur {
		values:
			for x := 0; x < 3; x++ {
				full := s*3 + x
				for _, con := range by[v] {
					met := false
					lits := []*N{con.N}
					if con.N.Op == OpOr {
						lits = con.N.Kids
					}
					for _, l := range lits {
						d := full
						for j := 0; j < l.Lit.V; j++ {
							d /= 3
						}
						met = met || d%3 == 1 && l.Lit.Pos || d%3 == 0 && !l.Lit.Pos
					}
					if !met {
						continue values
					}
				}
				w := k
				if x < 2 {
					w++
				}
				if o, ok := next[full%pow]; !ok || w < o {
					next[full%pow] = w
				}
			}
		}
		cur = next
	}
	best := -1
	for _, k := range cur {
		if best < 0 || k < best {
			best = k
		}
	}
	c.Case(t, best >= 4, "%s", ch)
	if (best >= 0) != ch.sat(ch.Cons, nil) {
		panic("oracle")
	}
	got, err := primeimplicant.Minimum(ch.Fac, ch.Fac.And(ch.formulas()...))
	if (err == nil) != (best >= 0) {
		t.Fatalf("minimum implicant: error %v, satisfiable: %v", err, best >= 0)
	}
	if err != nil {
		return
	}
	if len(got) != best {
		t.Fatalf("minimum implicant has %d literals, expected %d", len(got), best)
	}
	ass := ch.model(t, got)
	if n := ch.count(ch.Cons, ass); n.Cmp(bigPow2(ch.NV-len(ass))) != 0 {
		t.Fatalf("the minimum implicant is no implicant")
	}
	c.ClassIf(best >= 8, "minimum implicant with at least 8 literals")
}

type bddChainEntry struct {
	b    *bdd.BDD
	cons []*ChainCon
	ass  map[int]bool
	neg  bool
	what string
}

// b03Chain: kernels with many variables and growing diagrams.
func b03Chain(t *rapid.T, c *Ctx) {
	fac := genFac(t)
	k := chainKind{clauses: rapid.Bool().Draw(t, "clauses"), g: Gen{Depth: 2, Consts: true}, density: 8}
	ch := genChain(t, fac, 8, 60, k)
	order := make([]int, ch.NV)
	for i := range order {
		order[i] = i
	}
	for i := rapid.IntRange(0, 4).Draw(t, "perturb"); i > 0; i-- {
		j := rapid.IntRange(0, ch.NV-2).Draw(t, "j")
		order[j], order[j+1] = order[j+1], order[j]
	}
	nodes := pick(t, "nodes", 3, 10, 50, 200, 1000, 5000)
	cache := pick(t, "cache", 3, 10, 50, 200, 1000)
	kern := bdd.NewKernelWithOrdering(fac, ch.varsOf(order), int32(nodes), int32(cache))
	var hist []string
	note := func(format string, args ...any) {
		hist = append(hist, fmt.Sprintf(format, args...))
		c.Doing(strings.Join(hist, " ; "))
		t.Log(hist[len(hist)-1])
	}
	note("%s order=%v nodes=%d cache=%d", ch, order, nodes, cache)
	var pool []bddChainEntry
	rnd := ch.rand(t)
	check := func(en bddChainEntry) {
		want := ch.count(en.cons, en.ass)
		want.Mul(want, bigPow2(len(en.ass)))
		if en.neg {
			want.Sub(bigPow2(ch.NV), want)
		}
		if got := en.b.ModelCount(); got.Cmp(want) != 0 {
			t.Fatalf("%s: model count %v, expected %v", en.what, got, want)
		}
		root := en.b.NodeRepresentation()
		eval := func(m []bool) bool {
			n := root
			for n.InnerNode() {
				i, ok := ch.idx[n.Label()]
				if !ok {
					t.Fatalf("%s: foreign variable %s", en.what, n.Label())
				}
				if m[i] {
					n = n.High()
				} else {
					n = n.Low()
				}
			}
			return n.Label() == "$true"
		}
		ms := ch.sample(en.cons, en.ass, 2, rnd)
		for i := 0; i < 2; i++ {
			m := make([]bool, ch.NV)
			for v := range m {
				m[v] = rnd.Intn(2) == 0
			}
			if len(ms) > 0 && i == 0 {
				copy(m, ms[0])
				v := rnd.Intn(ch.NV)
				m[v] = !m[v]
			}
			ms = append(ms, m)
		}
		for _, m := range ms {
			r := slices.Clone(m)
			for v, a := range en.ass {
				r[v] = a
			}
			want := true
			for _, con := range en.cons {
				want = want && con.eval(r)
			}
			if got := eval(m); got != (want != en.neg) {
				t.Fatalf("%s: evaluates to %v", en.what, got)
			}
		}
	}
	add := func(en bddChainEntry) {
		note("%s", en.what)
		check(en)
		pool = append(pool, en)
	}
	moved, blocks := false, false
	for i := rapid.IntRange(2, 12).Draw(t, "steps"); i > 0; i-- {
		switch op := rapid.IntRange(0, 9).Draw(t, "op"); {
		case op <= 2 || len(pool) == 0:
			// compile a window of the constraints or all of them
			cons := ch.Cons
			if rapid.IntRange(0, 2).Draw(t, "part") > 0 {
				lo := rapid.IntRange(0, len(ch.Cons)-1).Draw(t, "lo")
				cons = cons[lo:rapid.IntRange(lo+1, len(ch.Cons)).Draw(t, "hi")]
			}
			var xs []f.Formula
			for _, con := range cons {
				xs = append(xs, con.F)
			}
			add(bddChainEntry{b: bdd.CompileWithKernel(fac, fac.And(xs...), kern), cons: cons, what: fmt.Sprintf("compile %d constraints", len(cons))})
		case op == 3:
			en := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "entry")]
			add(bddChainEntry{b: en.b.Negate(), cons: en.cons, ass: en.ass, neg: !en.neg, what: "negate " + en.what})
		case op == 4 || op == 5:
			a := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "a")]
			b := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "b")]
			if len(a.ass) > 0 || len(b.ass) > 0 || a.neg != b.neg {
				continue
			}
			en := bddChainEntry{cons: append(slices.Clone(a.cons), b.cons...), neg: a.neg, what: "(" + a.what + ") with (" + b.what + ")"}
			if a.neg {
				en.b = a.b.Or(b.b)
			} else {
				en.b = a.b.And(b.b)
			}
			add(en)
		case op == 6:
			en := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "entry")]
			if len(en.ass) > 0 {
				continue
			}
			ass, ls := ch.genAss(t, 4)
			if len(ls) == 0 {
				continue
			}
			add(bddChainEntry{b: en.b.Restrict(ls...), cons: en.cons, ass: ass, neg: en.neg, what: fmt.Sprintf("restrict %s by %v", en.what, ass)})
		case op == 7:
			if blocks {
				continue // blocks refer to the initial order
			}
			j := rapid.IntRange(0, ch.NV-2).Draw(t, "swap")
			j2 := min(ch.NV-1, j+rapid.IntRange(1, 3).Draw(t, "by"))
			note("swap %d %d", j, j2)
			if err := kern.SwapVariables(ch.varsOf(order)[j], ch.varsOf(order)[j2]); err != nil {
				t.Fatalf("SwapVariables: %v", err)
			}
			moved = true
		case op == 8:
			meth := reorderMethods[rapid.IntRange(1, 7).Draw(t, "method")]
			if meth == bdd.ReorderRandom {
				continue // diagrams explode
			}
			note("reorder %s", meth)
			if !blocks {
				kern.AddAllVariablesAsBlock()
				blocks = true
			}
			kern.Reorder(meth)
			moved = true
		default:
			en := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "entry")]
			note("model of %s", en.what)
			mdl, err := en.b.FullModel()
			if (err == nil) == en.b.IsContradiction() {
				t.Fatalf("FullModel: error %v", err)
			}
			if err == nil {
				a := ch.model(t, mdl.Literals)
				if len(a) != ch.NV {
					t.Fatalf("FullModel assigns %d of %d variables", len(a), ch.NV)
				}
				m := make([]bool, ch.NV)
				for v := range m {
					m[v] = a[v]
				}
				for v, x := range en.ass {
					m[v] = x
				}
				want := true
				for _, con := range en.cons {
					want = want && con.eval(m)
				}
				if want == en.neg {
					t.Fatalf("FullModel of %s is no model", en.what)
				}
			}
		}
	}
	for _, en := range pool {
		check(en)
	}
	st := kern.Statistics()
	c.ClassIf(moved, "variables moved")
	c.ClassIf(st.GC > 0, "garbage collections")
	c.Case(t, moved || st.GC > 0, "%s", strings.Join(hist, " ; "))
}
