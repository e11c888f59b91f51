package harness

import (
	"fmt"
	"math/big"
	"math/bits"

	"github.com/booleworks/logicng-go/dnnf"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/normalform"
	"pgregory.net/rapid"
)

// maxExtVars bounds the truth tables over named and auxiliary variables.
const maxExtVars = 16

// extReader reads formulas over the named variables and the given ones.
func extReader(e *Env, vars []f.Variable) (*Reader, int) {
	idx := map[string]int{}
	n := e.NV
	for i := 0; i < e.NV; i++ {
		idx[e.Names[i]] = i
	}
	for _, v := range vars {
		name, _ := e.Fac.VarName(v)
		if _, ok := idx[name]; !ok {
			idx[name] = n
			n++
		}
	}
	if n > maxExtVars {
		return nil, n
	}
	return &Reader{e.Fac, idx, n, map[f.Formula]TT{}}, n
}

// disjoint reports whether two formulas have no common model.
func disjoint(e *Env, r *Reader, a, b f.Formula) bool {
	if r != nil {
		return r.TT(a).And(r.TT(b)).IsFalse()
	}
	cr := newCNFReader(e.Fac, e.Names, e.NV)
	for _, x := range []f.Formula{a, b} {
		for _, v := range f.Variables(e.Fac, x).Content() {
			cr.Lit(v.AsLiteral())
		}
	}
	p := &projector{r: cr, next: e.NV + len(cr.Aux), memo: map[f.Formula]int{}}
	for _, x := range []f.Formula{a, b} {
		l := p.lit(x)
		p.clauses = append(p.clauses, []int{l})
	}
	return !newCNFS(p.next, p.clauses).Sat()
}

// complementary reports whether two formulas have complementary literals as
// conjuncts.
func complementary(fac f.Factory, a, b f.Formula) bool {
	conjuncts := func(x f.Formula) []f.Formula {
		if x.Sort() == f.SortAnd {
			return fac.Operands(x)
		}
		return []f.Formula{x}
	}
	pos := map[f.Formula]bool{}
	for _, x := range conjuncts(a) {
		if x.Sort() == f.SortLiteral {
			pos[x] = true
		}
	}
	for _, x := range conjuncts(b) {
		if x.Sort() == f.SortLiteral {
			name, phase, _ := fac.LitNamePhase(f.Literal(x))
			if pos[fac.Literal(name, !phase)] {
				return true
			}
		}
	}
	return false
}

// forget computes the projection of a decomposable formula to the named
// variables.
func forget(e *Env, x f.Formula, memo map[f.Formula]TT) TT {
	if r, ok := memo[x]; ok {
		return r
	}
	var r TT
	switch x.Sort() {
	case f.SortLiteral:
		name, phase, _ := e.Fac.LitNamePhase(f.Literal(x))
		if i, ok := e.R.Idx[name]; ok && i < e.NV {
			r = ttLit(e.NV, i, phase)
		} else {
			r = ttConst(e.NV, true)
		}
	case f.SortAnd:
		r = ttConst(e.NV, true)
		for _, o := range e.Fac.Operands(x) {
			r = r.And(forget(e, o, memo))
		}
	case f.SortOr:
		r = ttConst(e.NV, false)
		for _, o := range e.Fac.Operands(x) {
			r = r.Or(forget(e, o, memo))
		}
	default:
		r = ttConst(e.NV, x.Sort() == f.SortTrue)
	}
	memo[x] = r
	return r
}

// ownVars collects the variables of formulas without the library's cache.
type ownVars struct {
	fac   f.Factory
	idx   map[string]int
	names []string
	memo  map[f.Formula]vset
}

func newOwnVars(fac f.Factory) *ownVars {
	return &ownVars{fac: fac, idx: map[string]int{}, memo: map[f.Formula]vset{}}
}

// vset is a set of variable numbers.
type vset []uint64

func (s *vset) add(i int) {
	for len(*s) <= i/64 {
		*s = append(*s, 0)
	}
	(*s)[i/64] |= 1 << (i % 64)
}

func (s *vset) addAll(o vset) {
	for len(*s) < len(o) {
		*s = append(*s, 0)
	}
	for i, w := range o {
		(*s)[i] |= w
	}
}

// common returns the number of a common element or -1.
func (s vset) common(o vset) int {
	for i := 0; i < len(s) && i < len(o); i++ {
		if w := s[i] & o[i]; w != 0 {
			return i*64 + bits.TrailingZeros64(w)
		}
	}
	return -1
}

func (s vset) size() (n int) {
	for _, w := range s {
		n += bits.OnesCount64(w)
	}
	return
}

func (w *ownVars) lit(l f.Formula, s *vset) {
	name, _, _ := w.fac.LitNamePhase(f.Literal(l))
	i, ok := w.idx[name]
	if !ok {
		i = len(w.names)
		w.idx[name] = i
		w.names = append(w.names, name)
	}
	s.add(i)
}

func (w *ownVars) of(x f.Formula) vset {
	if m, ok := w.memo[x]; ok {
		return m
	}
	var m vset
	switch x.Sort() {
	case f.SortLiteral:
		w.lit(x, &m)
	case f.SortCC, f.SortPBC:
		_, _, ls, _, _ := w.fac.PBCOps(x)
		for _, l := range ls {
			w.lit(l.AsFormula(), &m)
		}
	case f.SortTrue, f.SortFalse:
	default:
		for _, o := range w.fac.Operands(x) {
			m.addAll(w.of(o))
		}
	}
	w.memo[x] = m
	return m
}

// namesOf returns the names of the variables of a formula.
func (w *ownVars) namesOf(x f.Formula) (r []string) {
	for i, s := 0, w.of(x); i < len(w.names); i++ {
		if i/64 < len(s) && s[i/64]>>(i%64)&1 == 1 {
			r = append(r, w.names[i])
		}
	}
	return
}

// checkDNNF checks the structure, the meaning and the count of a DNNF for a
// formula with the given function.
func checkDNNF(t *rapid.T, c *Ctx, e *Env, x f.Formula, want TT, d *dnnf.DNNF) {
	if d == nil {
		return
	}
	fac := e.Fac
	y := d.Formula
	if !isNNFShape(fac, y) {
		t.Fatalf("DNNF %s is not in negation normal form", e.str(y))
	}
	orig := d.OriginalVars.Content()
	origSet := map[string]bool{}
	for _, v := range orig {
		name, _ := fac.VarName(v)
		origSet[name] = true
	}
	own := newOwnVars(fac)
	for _, name := range own.namesOf(x) {
		if !origSet[name] {
			t.Fatalf("original variables lack %s", name)
		}
	}
	for _, name := range own.namesOf(y) {
		if !origSet[name] {
			t.Fatalf("DNNF %s has variable %s which is no original variable", e.str(y), name)
		}
	}
	r, n := extReader(e, orig)
	seen := map[f.Formula]bool{}
	depth, general := 0, 0
	var walk func(z f.Formula, l int)
	walk = func(z f.Formula, l int) {
		depth = max(depth, l)
		if seen[z] {
			return
		}
		seen[z] = true
		switch z.Sort() {
		case f.SortAnd:
			var got vset
			for _, o := range fac.Operands(z) {
				vs := own.of(o)
				if v := got.common(vs); v >= 0 {
					t.Fatalf("DNNF %s: the operands of %s share the variable %s", e.str(y), e.str(z), own.names[v])
				}
				got.addAll(vs)
			}
		case f.SortOr:
			ops := fac.Operands(z)
			for i, a := range ops {
				for _, b := range ops[:i] {
					if complementary(fac, a, b) {
						continue
					}
					if r == nil {
						// without a truth table the general check is expensive
						if general++; general > 40 {
							c.Class("disjointness not checked everywhere")
							continue
						}
					}
					if !disjoint(e, r, a, b) {
						t.Fatalf("DNNF %s: the operands %s and %s have a common model", e.str(y), e.str(b), e.str(a))
					}
				}
			}
		case f.SortLiteral, f.SortTrue, f.SortFalse:
			return
		}
		for _, o := range fac.Operands(z) {
			walk(o, l+1)
		}
	}
	walk(y, 0)
	c.ClassIf(depth >= 4, "nested DNNF")
	foreign := n > e.NV
	if !foreign {
		e.equals(t, "DNNF", y, want)
	} else {
		// the conjunctions are decomposable, so that auxiliary variables are
		// projected literal by literal
		if got := forget(e, y, map[f.Formula]TT{}); !got.Equal(want) {
			t.Fatalf("DNNF %s is not equivalent over the named variables", e.str(y))
		}
		c.Class("with auxiliary variables")
	}
	exp := -1
	if noCC(fac, x) {
		u := own.of(x).size()
		exp = want.Count() >> (e.NV - u)
	} else if r != nil {
		exp = r.TT(y).Count() >> (n - len(orig))
	}
	if exp >= 0 {
		for i := 0; i < 2; i++ {
			if got := d.ModelCount(); got.Cmp(big.NewInt(int64(exp))) != 0 {
				t.Fatalf("model count %d of DNNF %s is %v, expected %d", i+1, e.str(y), got, exp)
			}
		}
	}
}

func genDNNFConfig(t *rapid.T) (*normalform.CNFConfig, string) {
	cfg := normalform.DefaultCNFConfig()
	cfg.Algorithm = []normalform.CNFAlgorithm{normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum, normalform.CNFAdvanced, normalform.CNFFactorization}[rapid.IntRange(0, 3).Draw(t, "alg")]
	cfg.FallbackAlgorithmForAdvancedEncoding = []normalform.CNFAlgorithm{normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum}[rapid.IntRange(0, 1).Draw(t, "fallback")]
	cfg.AtomBoundary = rapid.IntRange(0, 3).Draw(t, "atoms")
	cfg.CreatedClauseBoundary = rapid.IntRange(1, 8).Draw(t, "created")
	return cfg, fmt.Sprintf("cnf=%v/%v/%d/%d", cfg.Algorithm, cfg.FallbackAlgorithmForAdvancedEncoding, cfg.AtomBoundary, cfg.CreatedClauseBoundary)
}

// runDNNF compiles with a generated handler and re-compiles after a cancelation.
func runDNNF(t *rapid.T, c *Ctx, e *Env, x f.Formula) *dnnf.DNNF {
	switch rapid.IntRange(0, 3).Draw(t, "how") {
	case 0:
		h := &kHandler{k: rapid.IntRange(1, 12).Draw(t, "k"), sticky: rapid.Bool().Draw(t, "sticky")}
		if rapid.IntRange(0, 3).Draw(t, "late") == 0 {
			h.k *= 5
		}
		d, st := dnnf.CompileWithHandler(e.Fac, x, h)
		checkCancel(t, h, st, "DNNF compilation")
		if st.Success {
			return d
		}
		c.Class("canceled")
		return compileDNNF(c, e, x)
	case 1:
		if !noCC(e.Fac, x) {
			return compileDNNF(c, e, x)
		}
		d, st := dnnf.CompileWithHandler(e.Fac, x, handler.NopHandler)
		if !st.Success {
			t.Fatalf("canceled by nobody")
		}
		return d
	default:
		return compileDNNF(c, e, x)
	}
}

// compileDNNF compiles; the effort is bounded for formulas with constraints,
// whose encodings may have forms of millions of nodes (nil: not decided).
func compileDNNF(c *Ctx, e *Env, x f.Formula) *dnnf.DNNF {
	if noCC(e.Fac, x) {
		return dnnf.Compile(e.Fac, x)
	}
	d, st := dnnf.CompileWithHandler(e.Fac, x, &kHandler{k: 2000, sticky: true})
	if !st.Success {
		c.Class("not decided within the event limit")
		return nil
	}
	return d
}

func genClauses(t *rapid.T, nv, maxLen, n int) ([][]L, *N) {
	cs := make([][]L, n)
	ks := make([]*N, n)
	for i := range cs {
		k := rapid.IntRange(2, maxLen).Draw(t, "len")
		var ls []*N
		for j := 0; j < k; j++ {
			l := genLit(t, nv)
			cs[i] = append(cs[i], l)
			ls = append(ls, nLit(l.V, l.Pos))
		}
		ks[i] = nOp(OpOr, ls...)
	}
	return cs, nOp(OpAnd, ks...)
}

// sparseSeeds are clause sets (DIMACS style) for which conflict-driven learning
// once connected independent parts of the decomposition.
var sparseSeeds = [][][]int{
	{{1, -2}, {-3, -4, 5}, {6, -7, -1}, {5, -8, -9}, {3, -7}, {10, -11}, {-4, -2}, {12, 10}, {2, 13}, {6, -14, -15}, {4, 12}, {-13, 1, -14}, {-14, -1, -4}, {-11, 8, -7}, {9, -6}, {-7, 5, -1, -9}, {-6, 2, 14}, {16, 15}},
	{{-1, 2}, {3, -4, -5}, {-6, 7}, {2, -8}, {2, 9}, {4, -10}, {11, -12}, {5, 8, 3}, {-3, -9}, {10, -13}, {-12, 14}, {14, 15}, {16, 11}, {-15, 1}, {-17, -6, -13}, {-6, -16}, {17, 5}},
	{{-1, 2}, {-3, 4}, {5, -2, -6, -7}, {2, 8}, {-6, 3, 9}, {6, 10, 3}, {5, -1}, {9, -2, -5, 11}, {-2, 1, -9}, {-10, 3}, {-7, -1}, {-4, -7, -11}, {-10, -12}, {1, 4, -6}, {11, -12}},
}

// genSparse draws a sparse clause set on up to 17 variables: a mutated seed or
// short clauses over nearby variables.
func genSparse(t *rapid.T) (int, [][]L) {
	var cs [][]L
	nv := rapid.IntRange(8, 16).Draw(t, "nv")
	if rapid.IntRange(0, 2).Draw(t, "seeded") > 0 {
		for _, cl := range sparseSeeds[rapid.IntRange(0, len(sparseSeeds)-1).Draw(t, "seed")] {
			var ls []L
			for _, l := range cl {
				ls = append(ls, L{max(l, -l) - 1, l > 0})
				nv = max(nv, max(l, -l))
			}
			cs = append(cs, ls)
		}
		if rapid.Bool().Draw(t, "rename") {
			p := genPerm(t, nv, "perm")
			for _, cl := range cs {
				for i := range cl {
					cl[i].V = p[cl[i].V]
				}
			}
		}
	} else {
		width := rapid.IntRange(3, 6).Draw(t, "width")
		for i := rapid.IntRange(nv*3/4, nv*5/2).Draw(t, "clauses"); i > 0; i-- {
			base := rapid.IntRange(0, nv-1).Draw(t, "base")
			var ls []L
			for j := []int{2, 2, 2, 3, 3, 3, 4}[rapid.IntRange(0, 6).Draw(t, "len")]; j > 0; j-- {
				ls = append(ls, L{(base + rapid.IntRange(0, width-1).Draw(t, "off")) % nv, rapid.Bool().Draw(t, "pos")})
			}
			cs = append(cs, ls)
		}
	}
	for i := rapid.IntRange(0, 5).Draw(t, "mutations"); i > 0 && len(cs) > 1; i-- {
		j := rapid.IntRange(0, len(cs)-1).Draw(t, "clause")
		k := rapid.IntRange(0, len(cs[j])-1).Draw(t, "literal")
		switch rapid.IntRange(0, 4).Draw(t, "mutation") {
		case 0:
			cs = append(cs[:j], cs[j+1:]...)
		case 1:
			cs[j][k].Pos = !cs[j][k].Pos
		case 2:
			cs[j][k] = genLit(t, nv)
		case 3:
			cs = append(cs, []L{genLit(t, nv), genLit(t, nv)})
		default:
			cs = append(cs, []L{genLit(t, nv), genLit(t, nv), genLit(t, nv)})
		}
	}
	return nv, cs
}

var _ = registerProp("D01", "formulas (all operators, constraints, disconnected and unsatisfiable ones, CNF configurations, both factory modes), random clause sets of up to 14 variables, and sparse ones of up to 17 variables (local structure, mutations of earlier failures); the compiled form is walked node by node (shape, shared variables of conjunctions, common models of disjunctions) and compared with the truth table, the count with the brute-force count, and sparse problems over tens of variables (oracle: dynamic programming); non-trivial: at least 2 models and not all assignments",
	sub("long", 300, 2, 12, d01Long),
	sub("formula", 12000, 8, 12, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 7, 9)
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 4).Draw(t, "conserve") == 4)
		cfgS := ""
		if rapid.IntRange(0, 3).Draw(t, "config") == 3 {
			var cfg *normalform.CNFConfig
			cfg, cfgS = genDNNFConfig(t)
			e.Fac.PutConfiguration(cfg)
		}
		kind := rapid.IntRange(0, 5).Draw(t, "kind")
		g := Gen{NV: nv, Depth: rapid.IntRange(0, 4).Draw(t, "depth"), Consts: true, CC: kind >= 4, PBC: kind == 5, AMOOnly: kind == 4}
		var ns []*N
		for i := rapid.IntRange(0, 3).Draw(t, "nform"); i >= 0; i-- {
			if rapid.IntRange(0, 4).Draw(t, "clause") == 0 {
				ns = append(ns, genClauseN(t, nv, 3))
			} else {
				ns = append(ns, g.draw(t, "f"))
			}
		}
		want := conj(nv, ns)
		x := e.build(ns2(ns))
		c.Case(t, want.Count() >= 2 && !want.IsTrue(), "%s %s %s", e.Mode, cfgS, e.nstrs(ns))
		c.ClassIf(want.IsFalse(), "unsatisfiable")
		c.ClassIf(!noCC(e.Fac, x), "constraints")
		checkDNNF(t, c, e, x, want, runDNNF(t, c, e, x))
	}),
	sub("clauses", 2500, 8, 20, func(t *rapid.T, c *Ctx) {
		nv := rapid.IntRange(6, 14).Draw(t, "nv")
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 9).Draw(t, "conserve") == 9)
		m := rapid.IntRange(nv/2, 4*nv).Draw(t, "m")
		_, n := genClauses(t, nv, rapid.IntRange(2, 5).Draw(t, "maxlen"), m)
		want := n.TT(nv)
		x := e.build(n)
		c.Case(t, want.Count() >= 2, "%s %s", e.Mode, e.nstr(n))
		c.ClassIf(want.IsFalse(), "unsatisfiable")
		checkDNNF(t, c, e, x, want, runDNNF(t, c, e, x))
	}),
	sub("sparse", 2500, 8, 40, func(t *rapid.T, c *Ctx) {
		nv, cs := genSparse(t)
		e := mkEnv(genNamesN(nv), nv, rapid.IntRange(0, 9).Draw(t, "conserve") == 9)
		ks := make([]*N, len(cs))
		for i, cl := range cs {
			var ls []*N
			for _, l := range cl {
				ls = append(ls, nLit(l.V, l.Pos))
			}
			ks[i] = nOp(OpOr, ls...)
		}
		n := nOp(OpAnd, ks...)
		want := n.TT(nv)
		c.Case(t, want.Count() >= 2, "%s %s", e.Mode, e.nstr(n))
		x := e.build(n)
		checkDNNF(t, c, e, x, want, dnnf.Compile(e.Fac, x))
	}),
	sub("chain", 300, 4, 12, d01Chain),
)
