package harness

import (
	"fmt"
	"math/bits"
	"math/rand"
	"slices"
	"strings"

	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
	"pgregory.net/rapid"
)

func pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

func genEncConfig(t *rapid.T) (*encoding.Config, string) {
	c := encoding.DefaultConfig()
	c.AMOEncoder = pick(t, "amo", encoding.AMOBest, encoding.AMOPure, encoding.AMOLadder, encoding.AMOProduct, encoding.AMONested, encoding.AMOCommander, encoding.AMOBinary, encoding.AMOBimander)
	c.AMKEncoder = pick(t, "amk", encoding.AMKBest, encoding.AMKTotalizer, encoding.AMKModularTotalizer, encoding.AMKCardinalityNetwork)
	c.ALKEncoder = pick(t, "alk", encoding.ALKBest, encoding.ALKTotalizer, encoding.ALKModularTotalizer, encoding.ALKCardinalityNetwork)
	c.EXKEncoder = pick(t, "exk", encoding.EXKBest, encoding.EXKTotalizer, encoding.EXKCardinalityNetwork)
	c.PBCEncoder = pick(t, "pbc", encoding.PBCBest, encoding.PBCSWC, encoding.PBCBinaryMerge, encoding.PBCAdderNetworks)
	c.BimanderGroupSize = pick(t, "bim", encoding.BimanderSqrt, encoding.BimanderHalf, encoding.BimanderFixed)
	c.BimanderFixedGroupSize = rapid.IntRange(1, 5).Draw(t, "bimfix")
	c.NestingGroupSize = pick(t, "nest", 4, 0, 3, 5)
	c.ProductRecursiveBound = pick(t, "prod", 20, 0, 2, 3)
	c.CommanderGroupSize = pick(t, "cmd", 3, 0, 2, 4)
	c.BinaryMergeUseGAC = rapid.Bool().Draw(t, "gac")
	c.BinaryMergeNoSupportForSingleBit = rapid.Bool().Draw(t, "single")
	c.BinaryMergeUseWatchDog = rapid.Bool().Draw(t, "wd")
	s := fmt.Sprintf("{%v %v %v %v %v bim %v/%d nest %d prod %d cmd %d gac %v single %v wd %v}", c.AMOEncoder, c.AMKEncoder, c.ALKEncoder, c.EXKEncoder, c.PBCEncoder,
		c.BimanderGroupSize, c.BimanderFixedGroupSize, c.NestingGroupSize, c.ProductRecursiveBound, c.CommanderGroupSize, c.BinaryMergeUseGAC, c.BinaryMergeNoSupportForSingleBit, c.BinaryMergeUseWatchDog)
	return c, s
}

// genWideCC draws a cardinality constraint over many variables.
func genCCn(t *rapid.T, nv int, dups bool) *N {
	n := &N{Op: OpPBC, Cmp: Cmp(rapid.IntRange(0, 4).Draw(t, "cmp"))}
	vs := rapid.Permutation(seq(nv)).Draw(t, "perm")[:rapid.IntRange(0, nv).Draw(t, "len")]
	if rapid.IntRange(0, 2).Draw(t, "all") == 0 {
		vs = seq(nv)
	}
	if dups && len(vs) > 1 && rapid.IntRange(0, 9).Draw(t, "dup") == 9 {
		vs = append(vs, vs[0])
	}
	for _, v := range vs {
		n.Lits = append(n.Lits, L{v, true})
		n.Cs = append(n.Cs, 1)
	}
	switch rapid.IntRange(0, 3).Draw(t, "rk") {
	case 0:
		n.Rhs = 1
	case 1:
		n.Rhs = 2
	default:
		n.Rhs = rapid.IntRange(0, len(vs)+1).Draw(t, "rhs")
	}
	if n.Cmp == LT && rapid.IntRange(0, 2).Draw(t, "amo") == 0 {
		n.Rhs = 2
	}
	return n
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func (n *N) evalSum(val []bool) bool {
	s := 0
	for i, l := range n.Lits {
		if val[l.V] == l.Pos {
			s += n.Cs[i]
		}
	}
	return n.Cmp.Eval(s, n.Rhs)
}

// checkAuxFresh checks that auxiliary variables of different constraints are
// different and none of the input variables.
type auxCheck struct{ owner map[string]int }

func (a *auxCheck) add(t *rapid.T, r *CNFReader, id int) {
	for _, name := range r.Aux {
		if strings.HasPrefix(name, "RESERVED@") {
			continue // reserved placeholder, carries no meaning
		}
		if o, ok := a.owner[name]; ok && o != id {
			t.Fatalf("auxiliary variable %s is shared by two constraints", name)
		}
		a.owner[name] = id
	}
}

// encodeExact encodes the constraints one after another on one factory and
// checks each and all of them together, as formulas and on a solver.
func encodeExact(t *rapid.T, c *Ctx, e *Env, ns []*N, cfg *encoding.Config, onFactory bool) {
	fac := e.Fac
	joint := conj(e.NV, ns)
	var all []f.Formula
	aux := &auxCheck{map[string]int{}}
	if onFactory {
		fac.PutConfiguration(cfg)
	}
	auxes := 0
	var xs []f.Formula
	for i, n := range ns {
		x := e.build(n)
		xs = append(xs, x)
		if x.Sort() != f.SortCC && x.Sort() != f.SortPBC {
			all = append(all, x)
			continue
		}
		var cls []f.Formula
		var err error
		enc := encoding.EncodePBC
		if x.Sort() == f.SortCC && rapid.Bool().Draw(t, "viaCC") {
			enc = encoding.EncodeCC
		}
		if onFactory {
			cls, err = enc(fac, x)
		} else {
			cls, err = enc(fac, x, cfg)
		}
		if err != nil {
			t.Fatalf("encoding of %s: %v", e.str(x), err)
		}
		for _, cl := range cls {
			if !isClauseShape(fac, cl) {
				t.Fatalf("encoding of %s contains %s, which is no clause", e.str(x), e.str(cl))
			}
		}
		got, r, _, perr := projectCNFs(fac, e.Names, e.NV, cls...)
		if perr != nil {
			t.Fatal(perr)
		}
		auxes += len(r.Aux)
		if want := n.TT(e.NV); !got.Equal(want) {
			d := got.Xor(want).Indices()[0]
			t.Fatalf("encoding of %s: assignment %s extends to a model: %v, expected %v", e.str(x), e.assStr(d), got.Get(d), want.Get(d))
		}
		aux.add(t, r, i)
		all = append(all, cls...)
	}
	c.ClassIf(auxes > 0, "with auxiliary variables")
	got, _, _, perr := projectCNFs(fac, e.Names, e.NV, all...)
	if perr != nil {
		t.Fatal(perr)
	}
	if !got.Equal(joint) {
		t.Fatalf("the encodings of %s together are not exact", e.nstrs(ns))
	}
	// on a solver, with the configuration of the factory
	scfg := sat.DefaultConfig()
	scfg.UseAtMostClauses = rapid.Bool().Draw(t, "atmost")
	scfg.CNFMethod = pick(t, "cnf", sat.CNFPG, sat.CNFFullPG, sat.CNFFactory)
	fac.PutConfiguration(cfg)
	s := sat.NewSolver(fac, scfg)
	for _, x := range xs {
		s.Add(x)
	}
	for i := 0; i < 1<<e.NV; i++ {
		ls := make([]f.Literal, e.NV)
		for v := 0; v < e.NV; v++ {
			ls[v] = e.lit(L{v, i>>v&1 == 1})
		}
		if got := s.Call(sat.WithAssumptions(ls)).Sat(); got != joint.Get(i) {
			t.Fatalf("solver with %s under %s: %v, expected %v", e.nstrs(ns), e.assStr(i), got, joint.Get(i))
		}
	}
}

// encodeWide checks constraints over many variables at sampled assignments.
func encodeWide(t *rapid.T, c *Ctx, n *N, nv int, cfg *encoding.Config) {
	names := make(Names, nv)
	for i := range names {
		names[i] = fmt.Sprintf("v%d", i)
	}
	fac := f.NewFactory()
	x := n.Build(fac, names)
	if x.Sort() != f.SortCC && x.Sort() != f.SortPBC {
		return
	}
	cls, err := encoding.EncodePBC(fac, x, cfg)
	if err != nil {
		t.Fatalf("encoding of %s: %v", x.Sprint(fac), err)
	}
	r := newCNFReader(fac, names, nv)
	var all [][]int
	for _, y := range cls {
		q, err := r.Clauses(y)
		if err != nil {
			t.Fatal(err)
		}
		all = append(all, q...)
	}
	s := newCNFS(nv+len(r.Aux), all)
	s.Limit = 50000
	c.ClassIf(len(r.Aux) > 0, "with auxiliary variables")
	fac.PutConfiguration(cfg)
	solver := sat.NewSolver(fac)
	solver.Add(x)
	for k := 0; k < 24; k++ {
		val := genNear(t, n, nv)
		as := make([]int, nv)
		for v := range val {
			as[v] = 2 * v
			if !val[v] {
				as[v]++
			}
		}
		want := n.evalSum(val)
		if got := s.Sat(as...); got != want {
			t.Fatalf("encoding of %s: assignment %v extends to a model: %v, expected %v", x.Sprint(fac), val, got, want)
		}
		if got := solver.Call(sat.WithAssumptions(valLits(fac, names, val))).Sat(); got != want {
			t.Fatalf("solver with %s: assignment %v extends to a model: %v, expected %v", x.Sprint(fac), val, got, want)
		}
	}
}

// encodeSized encodes a cardinality constraint over 2 to 70 variables (bounds
// over the whole range) and evaluates it densely around the bound: for small
// bounds all pairs of true variables, otherwise random sets of as many
// variables as the bound and one less or more.
func encodeSized(t *rapid.T, c *Ctx) {
	nv := size(t, 2, 70)
	cfg, cs := genEncConfig(t)
	rnd := rand.New(rand.NewSource(rapid.Int64().Draw(t, "sets")))
	n := &N{Op: OpPBC, Cmp: pick(t, "cmp", LE, LT, GE, GT, EQ)}
	for _, v := range rnd.Perm(nv) {
		n.Lits = append(n.Lits, L{v, true})
		n.Cs = append(n.Cs, 1)
	}
	// the largest (smallest) number of true variables is k
	k := 1
	if rapid.IntRange(0, 2).Draw(t, "one") > 0 {
		k = size(t, 1, nv-1)
	}
	n.Rhs = k
	if n.Cmp == LT {
		n.Rhs = k + 1
	} else if n.Cmp == GT {
		n.Rhs = k - 1
	}
	names := make(Names, nv)
	for i := range names {
		names[i] = fmt.Sprintf("v%d", i)
	}
	c.Case(t, nv > 10, "%s %d of %d variables under %s", n.Cmp, n.Rhs, nv, cs)
	fac := f.NewFactory()
	x := n.Build(fac, names)
	if x.Sort() != f.SortCC && x.Sort() != f.SortPBC {
		return
	}
	cls, err := encoding.EncodePBC(fac, x, cfg)
	if err != nil {
		t.Fatalf("encoding of %s: %v", x.Sprint(fac), err)
	}
	r := newCNFReader(fac, names, nv)
	var all [][]int
	for _, y := range cls {
		q, err := r.Clauses(y)
		if err != nil {
			t.Fatal(err)
		}
		all = append(all, q...)
	}
	s := newCNFS(nv+len(r.Aux), all)
	s.Limit = 50000
	val := make([]bool, nv)
	as := make([]int, nv)
	check := func(on ...int) {
		clear(val)
		for _, v := range on {
			val[v] = true
		}
		for v := range val {
			as[v] = 2 * v
			if !val[v] {
				as[v]++
			}
		}
		want := n.evalSum(val)
		if got := s.Sat(as...); got != want {
			t.Fatalf("encoding of %s: variables %v true extends to a model: %v, expected %v", x.Sprint(fac), on, got, want)
		}
	}
	check()
	check(seq(nv)...)
	if k == 1 {
		for v := range val {
			check(v)
			if nv <= 24 {
				for w := range v {
					check(v, w)
				}
			} else if v > 0 {
				check(v-1, v)
				check(rnd.Intn(v), v)
				check(rnd.Intn(v), v)
			}
		}
		return
	}
	for _, m := range []int{k - 1, k, k + 1} {
		order := seq(nv)
		check(order[:m]...)
		for i, l := range n.Lits {
			order[i] = l.V
		}
		check(order[:m]...)
		check(order[nv-m:]...)
		for i := 0; i < 12; i++ {
			check(rnd.Perm(nv)[:m]...)
		}
	}
	for i := 0; i < 6; i++ {
		check(rnd.Perm(nv)[:rnd.Intn(nv+1)]...)
	}
}

// encodeSizedPBC encodes a constraint over up to 60 literals whose coefficients
// are small (many literals share a bit) and evaluates it densely around the
// bound.
func encodeSizedPBC(t *rapid.T, c *Ctx) {
	cfg, cs := genEncConfig(t)
	hi := 60
	if cfg.BinaryMergeUseGAC && cfg.PBCEncoder == encoding.PBCBinaryMerge {
		hi = 22 // one encoding per literal
	}
	nv := size(t, 2, hi)
	rnd := rand.New(rand.NewSource(rapid.Int64().Draw(t, "coefficients")))
	n := &N{Op: OpPBC, Cmp: pick(t, "cmp", LE, LT, GE, GT, EQ)}
	pool := pick(t, "pool", []int{1, 2}, []int{1, 2, 3, 4, 5, 6, 7}, []int{1, 3, 5, 7}, []int{2, 3}, []int{4, 5}, []int{1, 1, 1, 1, 9}, []int{16, 1, 17}, []int{1, 2, 4, 8, 16, 32})
	negLits, negCs := pick(t, "negated", 0, 0, 3), pick(t, "negative", 0, 0, 3)
	sum, lo := 0, 0
	for _, v := range rnd.Perm(nv) {
		x := pool[rnd.Intn(len(pool))]
		if negCs > 0 && rnd.Intn(negCs) == 0 {
			x = -x
		}
		n.Lits = append(n.Lits, L{v, negLits == 0 || rnd.Intn(negLits) > 0})
		n.Cs = append(n.Cs, x)
		sum += max(x, 0)
		lo += min(x, 0)
	}
	n.Rhs = lo + size(t, 0, sum-lo)
	names := make(Names, nv)
	for i := range names {
		names[i] = fmt.Sprintf("v%d", i)
	}
	c.Case(t, nv > 10, "%s under %s", n.str(names), cs)
	fac := f.NewFactory()
	x := n.Build(fac, names)
	if x.Sort() != f.SortCC && x.Sort() != f.SortPBC {
		return
	}
	cls, err := encoding.EncodePBC(fac, x, cfg)
	if err != nil {
		t.Fatalf("encoding of %s: %v", x.Sprint(fac), err)
	}
	r := newCNFReader(fac, names, nv)
	var all [][]int
	for _, y := range cls {
		q, err := r.Clauses(y)
		if err != nil {
			t.Fatal(err)
		}
		all = append(all, q...)
	}
	if len(all) == 0 {
		all = [][]int{{0, 1}}
	}
	s := newCNFS(nv+len(r.Aux), all)
	s.Limit = 50000
	val := make([]bool, nv)
	as := make([]int, nv)
	for i := 0; i < min(45, 3+400000/len(all)); i++ {
		// fill up to a target next to the bound, one in nine a random one
		target := n.Rhs + i%3 - 1
		if i%9 == 8 {
			target = lo + rnd.Intn(sum-lo+1)
		}
		at := lo
		order := rnd.Perm(nv)
		if i%6 < 3 {
			// a run of literals in the order of the constraint
			start, dir := rnd.Intn(nv), 1
			if i%12 < 6 {
				start = 0
			}
			if rnd.Intn(2) == 0 {
				dir = nv - 1
			}
			for k := range order {
				order[k] = (start + k*dir) % nv
			}
		}
		for _, j := range order {
			l, x := n.Lits[j], n.Cs[j]
			// the literal with the smaller contribution first
			val[l.V] = l.Pos == (x < 0)
			if d := max(x, -x); at+d <= target {
				val[l.V] = !val[l.V]
				at += d
			}
		}
		for v := range val {
			as[v] = 2 * v
			if !val[v] {
				as[v]++
			}
		}
		want := n.evalSum(val)
		if got := s.Sat(as...); got != want {
			t.Fatalf("encoding of %s: %v extends to a model: %v, expected %v", x.Sprint(fac), val, got, want)
		}
	}
}

func valLits(fac f.Factory, names Names, val []bool) []f.Literal {
	ls := make([]f.Literal, len(val))
	for v := range val {
		ls[v] = fac.Lit(names[v], val[v])
	}
	return ls
}

// genLongPBC draws a constraint over tens of variables whose coefficients
// mostly have a common factor.
func genLongPBC(t *rapid.T) (*N, int) {
	nv := rapid.IntRange(15, 45).Draw(t, "nv")
	rnd := rand.New(rand.NewSource(rapid.Int64().Draw(t, "coefficients")))
	n := &N{Op: OpPBC, Cmp: pick(t, "cmp", LE, LE, LT, GE, GT, EQ)}
	k := pick(t, "factor", 1, 2, 3, 4, 6)
	most := pick(t, "most", 1, 3)
	lo, hi := 0, 0
	add := func(v, c int) {
		pos := rnd.Intn(4) > 0
		n.Lits = append(n.Lits, L{v, pos})
		n.Cs = append(n.Cs, c)
		lo += min(c, 0)
		hi += max(c, 0)
	}
	negative := rnd.Intn(3) == 0
	for _, v := range rnd.Perm(nv)[:rapid.IntRange(13, nv).Draw(t, "n")] {
		c := k * (1 + rnd.Intn(most))
		if negative && rnd.Intn(4) == 0 {
			c = -c
		}
		add(v, c)
		if rnd.Intn(40) == 0 {
			add(v, c)
		}
	}
	for i := rapid.IntRange(0, 3).Draw(t, "exceptions"); i > 1; i-- {
		j := rnd.Intn(len(n.Cs))
		n.Cs[j] += 1 + rnd.Intn(3)
		hi += 3
	}
	n.Rhs = rapid.IntRange(lo-1, hi+1).Draw(t, "rhs")
	return n, nv
}

// normalizeLong checks normalization and negation at sampled assignments.
func normalizeLong(t *rapid.T, n *N, names Names) {
	fac := f.NewFactory()
	x := n.Build(fac, names)
	if x.Sort() != f.SortCC && x.Sort() != f.SortPBC {
		return
	}
	y, z := encoding.Normalize(fac, x), encoding.NegatePBC(fac, x)
	idx := map[string]int{}
	for i, s := range names {
		idx[s] = i
	}
	eval := func(x f.Formula, val []bool) bool {
		parts := []f.Formula{x}
		if x.Sort() == f.SortAnd || x.Sort() == f.SortOr {
			parts = fac.Operands(x)
		}
		for _, p := range parts {
			r := p.Sort() == f.SortTrue
			if p.Sort() != f.SortTrue && p.Sort() != f.SortFalse {
				cmp, rhs, ls, cs, ok := fac.PBCOps(p)
				if !ok {
					if p.Sort() != f.SortLiteral {
						t.Fatalf("normalization or negation of %s contains %s", x.Sprint(fac), p.Sprint(fac))
					}
					cmp, rhs, ls, cs = f.GE, 1, []f.Literal{f.Literal(p)}, []int{1}
				}
				sum := 0
				for i, l := range ls {
					name, pos, _ := fac.LitNamePhase(l)
					if val[idx[name]] == pos {
						sum += cs[i]
					}
				}
				r = map[f.CSort]bool{f.EQ: sum == rhs, f.LE: sum <= rhs, f.LT: sum < rhs, f.GE: sum >= rhs, f.GT: sum > rhs}[cmp]
			}
			if x.Sort() == f.SortOr && r || x.Sort() != f.SortOr && !r {
				return r
			}
		}
		return x.Sort() != f.SortOr
	}
	for k := 0; k < 16; k++ {
		val := genNear(t, n, len(names))
		want := n.evalSum(val)
		if got := eval(y, val); got != want {
			t.Fatalf("normalization of %s is %s: %v at %v, expected %v", x.Sprint(fac), y.Sprint(fac), got, val, want)
		}
		if got := eval(z, val); got == want {
			t.Fatalf("negation of %s is %s: %v at %v", x.Sprint(fac), z.Sprint(fac), got, val)
		}
	}
}

// genNear draws an assignment with a sum close to the bound.
func genNear(t *rapid.T, n *N, nv int) []bool {
	val := make([]bool, nv)
	target := n.Rhs + rapid.IntRange(-2, 2).Draw(t, "off")
	sum := 0
	for _, l := range n.Lits {
		val[l.V] = !l.Pos
	}
	order := seq(len(n.Lits))
	if len(order) <= 60 {
		order = rapid.Permutation(order).Draw(t, "order")
	} else {
		// a cheap permutation
		k, off := rapid.IntRange(1, len(order)-1).Draw(t, "stride"), rapid.IntRange(0, len(order)-1).Draw(t, "first")
		for i := range order {
			order[i] = (i*k + off) % len(order)
		}
	}
	for _, i := range order {
		l := n.Lits[i]
		if val[l.V] != l.Pos && sum+n.Cs[i] <= target {
			val[l.V] = l.Pos
			sum += n.Cs[i]
		}
	}
	if nv <= 60 && rapid.IntRange(0, 7).Draw(t, "random") == 7 {
		for v := range val {
			val[v] = rapid.Bool().Draw(t, "b")
		}
	}
	return val
}

func genNamesN(nv int) Names {
	r := make(Names, nv)
	for i := range r {
		r[i] = fmt.Sprintf("x%d", i)
	}
	return r
}

var _ = registerProp("E01", "1-3 cardinality constraints (all comparators, 0-9 variables, any bound, repeated variables) and wide ones (up to 450 variables, at sampled assignments around the bound, every size from 2 to 70 with assignments in constraint order) under random encoder configurations, as formulas and on SAT solvers; non-trivial: the encoding needs at least one clause and is satisfiable",
	sub("exact", 2000, 8, 10, func(t *rapid.T, c *Ctx) {
		nv := rapid.IntRange(1, 8).Draw(t, "nv")
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 4).Draw(t, "conserve") == 0)
		cfg, cs := genEncConfig(t)
		var ns []*N
		for i := pick(t, "count", 1, 1, 2, 3); i > 0; i-- {
			ns = append(ns, genCCn(t, nv, true))
		}
		j := conj(nv, ns)
		c.Case(t, !j.IsTrue() && !j.IsFalse(), "%s under %s", e.nstrs(ns), cs)
		encodeExact(t, c, e, ns, cfg, rapid.Bool().Draw(t, "onFactory"))
	}),
	sub("wide", 1200, 8, 10, func(t *rapid.T, c *Ctx) {
		nv := rapid.IntRange(9, 40).Draw(t, "nv")
		cfg, cs := genEncConfig(t)
		n := genCCn(t, nv, true)
		c.Case(t, len(n.Lits) > 8, "%s under %s", n.str(genNamesN(nv)), cs)
		encodeWide(t, c, n, nv, cfg)
	}),
	sub("sized", 250, 6, 12, encodeSized),
	sub("huge", 25, 4, 20, func(t *rapid.T, c *Ctx) {
		// sizes at which the encoders with default parameters recurse
		nv := pick(t, "size", rapid.IntRange(41, 150).Draw(t, "nv"), rapid.IntRange(395, 450).Draw(t, "nv2"))
		cfg, cs := genEncConfig(t)
		n := genCCn(t, nv, false)
		if nv > 300 {
			n.Cmp, n.Rhs = LE, 1
			if rapid.Bool().Draw(t, "exo") {
				n.Cmp = EQ
			}
		} else if n.Rhs > 8 {
			n.Rhs = pick(t, "bound", n.Rhs%8, len(n.Lits)-n.Rhs%8)
		}
		c.Case(t, len(n.Lits) > 40, "%s %d of %d variables under %s", n.Cmp, n.Rhs, len(n.Lits), cs)
		encodeWide(t, c, n, nv, cfg)
	}),
)

func genPBCn(t *rapid.T, nv, maxc int, dups bool) *N {
	n := &N{Op: OpPBC, Cmp: Cmp(rapid.IntRange(0, 4).Draw(t, "cmp")), Route: 2}
	m := rapid.IntRange(1, nv).Draw(t, "len")
	perm := rapid.Permutation(seq(nv)).Draw(t, "perm")
	pos := rapid.IntRange(0, 2).Draw(t, "allpos") == 0
	lo, sum := 0, 0
	for i := 0; i < m; i++ {
		v := perm[i]
		if dups && i > 0 && rapid.IntRange(0, 9).Draw(t, "dup") == 9 {
			v = perm[rapid.IntRange(0, i-1).Draw(t, "dupof")]
		}
		c := rapid.IntRange(-maxc, maxc).Draw(t, "coeff")
		l := L{v, rapid.IntRange(0, 3).Draw(t, "neg") != 3}
		if pos {
			c = max(1, max(c, -c))
			l.Pos = true
		}
		n.Lits = append(n.Lits, l)
		n.Cs = append(n.Cs, c)
		if c < 0 {
			lo += c
		} else {
			sum += c
		}
	}
	n.Rhs = rapid.IntRange(lo-1, sum+1).Draw(t, "rhs")
	if maxc > 1 && rapid.IntRange(0, 5).Draw(t, "common") == 5 {
		k := rapid.IntRange(2, 4).Draw(t, "factor")
		for i := range n.Cs {
			n.Cs[i] *= k
		}
		n.Rhs = n.Rhs*k + rapid.IntRange(0, k-1).Draw(t, "rem")
	}
	return n
}

var _ = registerProp("E02", "1-2 pseudo-Boolean constraints (all comparators, positive/negative/zero coefficients, negative and repeated literals, common factors, any bound) and wide ones (up to 14 variables, coefficients up to 200, and beyond 32 bits for the adder and binary-merge encodings) under random encoder configurations, constraints of every length up to 60 at assignments around the bound, plus normalization and negation; non-trivial: neither tautology nor contradiction",
	sub("exact", 1500, 8, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 8)
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 4).Draw(t, "conserve") == 0)
		cfg, cs := genEncConfig(t)
		var ns []*N
		maxc := pick(t, "maxc", 9, 2, 4, 17)
		for i := pick(t, "count", 1, 1, 2); i > 0; i-- {
			ns = append(ns, genPBCn(t, nv, maxc, true))
		}
		j := conj(nv, ns)
		c.Case(t, !j.IsTrue() && !j.IsFalse(), "%s under %s", e.nstrs(ns), cs)
		encodeExact(t, c, e, ns, cfg, rapid.Bool().Draw(t, "onFactory"))
	}),
	sub("wide", 400, 8, 10, func(t *rapid.T, c *Ctx) {
		nv := rapid.IntRange(7, 14).Draw(t, "nv")
		cfg, cs := genEncConfig(t)
		n := genPBCn(t, nv, pick(t, "maxc", 20, 200), true)
		c.Case(t, len(n.Lits) > 4, "%s under %s", n.str(genNamesN(nv)), cs)
		encodeWide(t, c, n, nv, cfg)
	}),
	sub("large", 1500, 4, 10, func(t *rapid.T, c *Ctx) {
		nv := rapid.IntRange(2, 6).Draw(t, "nv")
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 4).Draw(t, "conserve") == 0)
		cfg, cs := genEncConfig(t)
		cfg.PBCEncoder = pick(t, "enc", encoding.PBCBinaryMerge, encoding.PBCAdderNetworks)
		maxc := pick(t, "maxc", 9, 2, 4, 100)
		n := genPBCn(t, nv, maxc, true)
		shift := rapid.IntRange(8, 61-bits.Len(uint(24*maxc))).Draw(t, "shift") // sums stay below 2^62
		for i := range n.Cs {
			n.Cs[i] = n.Cs[i]<<shift + rapid.IntRange(-3, 3).Draw(t, "noise")
		}
		n.Rhs = n.Rhs<<shift + rapid.IntRange(-3, 3).Draw(t, "noise")
		want := n.TT(nv)
		c.Case(t, !want.IsTrue() && !want.IsFalse(), "%s under %s", e.nstr(n), cs)
		c.ClassIf(n.Rhs >= 1<<31 || n.Rhs < -(1<<31), "bound of more than 32 bits")
		encodeExact(t, c, e, []*N{n}, cfg, rapid.Bool().Draw(t, "onFactory"))
	}),
	sub("sized", 60, 4, 12, encodeSizedPBC),
	sub("long", 250, 4, 10, func(t *rapid.T, c *Ctx) {
		n, nv := genLongPBC(t)
		names := genNamesN(nv)
		cfg, cs := genEncConfig(t)
		c.Case(t, true, "%s under %s", n.str(names), cs)
		normalizeLong(t, n, names)
		if rapid.Bool().Draw(t, "encode") {
			encodeWide(t, c, n, nv, cfg)
		}
	}),
	sub("normalize", 10000, 4, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 8)
		e := newEnv(t, nv)
		n := genPBCn(t, nv, pick(t, "maxc", 9, 2, 4, 100), true)
		want := n.TT(nv)
		c.Case(t, !want.IsTrue() && !want.IsFalse(), "%s", e.nstr(n))
		x := e.build(n)
		if x.Sort() != f.SortCC && x.Sort() != f.SortPBC {
			return
		}
		y := encoding.Normalize(e.Fac, x)
		e.equals(t, "normalization", y, want)
		parts := []f.Formula{y}
		if y.Sort() == f.SortAnd {
			parts = e.Fac.Operands(y)
		}
		for _, p := range parts {
			if p.Sort() == f.SortTrue || p.Sort() == f.SortFalse {
				continue
			}
			cmp, rhs, ls, cs, ok := e.Fac.PBCOps(p)
			if !ok || cmp != f.LE || rhs < 0 || slices.Min(cs) <= 0 {
				t.Fatalf("normalization of %s contains %s", e.str(x), e.str(p))
			}
			seen := map[f.Variable]bool{}
			for _, l := range ls {
				if seen[l.Variable()] {
					t.Fatalf("normalization of %s repeats a variable: %s", e.str(x), e.str(p))
				}
				seen[l.Variable()] = true
			}
		}
		e.equals(t, "negation", encoding.NegatePBC(e.Fac, x), want.Not())
		if encoding.ContainsPBC(e.Fac, x) != true {
			t.Fatalf("ContainsPBC(%s) is false", e.str(x))
		}
	}),
)

var _ = registerProp("E03", "incremental at-most/at-least constraints over 2-8 variables (all assignments) and 9-60 variables (sampled assignments) with a random sequence of tightenings, as formulas and on a SAT solver, for every incremental encoder; non-trivial: at least two tightenings",
	sub("tighten", 2500, 8, 10, func(t *rapid.T, c *Ctx) {
		nv := rapid.IntRange(2, 8).Draw(t, "nv")
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 4).Draw(t, "conserve") == 0)
		cfg, cs := genEncConfig(t)
		cmp := pick(t, "cmp", LE, LT, GE, GT)
		vs := genSubset(t, nv, 2)
		n := nCC(cmp, rapid.IntRange(0, len(vs)+1).Draw(t, "rhs"), vs...)
		if len(vs) < nv && rapid.IntRange(0, 2).Draw(t, "all") > 0 {
			n = nCC(cmp, n.Rhs, seq(nv)...)
			vs = seq(nv)
		}
		if len(vs) >= 3 && rapid.IntRange(0, 7).Draw(t, "inner") > 0 {
			// not trivial, with room for tightenings
			n.Rhs = rapid.IntRange(1, len(vs)-1).Draw(t, "inside")
			if cmp == LE || cmp == LT {
				n.Rhs = max(n.Rhs, rapid.IntRange(1, len(vs)-1).Draw(t, "inside2"))
			} else {
				n.Rhs = min(n.Rhs, rapid.IntRange(1, len(vs)-1).Draw(t, "inside2"))
			}
			if cmp == LT {
				n.Rhs++
			} else if cmp == GT {
				n.Rhs--
			}
		}
		onSolver := rapid.Bool().Draw(t, "solver")
		upper := cmp == LE || cmp == LT
		bound := n.Rhs
		if cmp == LT {
			bound--
		} else if cmp == GT {
			bound++
		}
		start := bound
		var seqs []int
		for b := bound; ; {
			if upper {
				b -= rapid.IntRange(1, 3).Draw(t, "step")
			} else {
				b += rapid.IntRange(1, 3).Draw(t, "step")
			}
			if b < 0 || b > len(vs) || len(seqs) > 5 {
				break
			}
			seqs = append(seqs, b)
		}
		c.Case(t, len(seqs) >= 2, "%s then %v solver=%v under %s", e.nstr(n), seqs, onSolver, cs)
		x := e.build(n)
		if x.Sort() != f.SortCC {
			return
		}
		e.Fac.PutConfiguration(cfg)
		want := func(b int) TT {
			if upper {
				return nCC(LE, b, vs...).TT(nv)
			}
			return nCC(GE, b, vs...).TT(nv)
		}
		res := encoding.ResultForFormula(e.Fac)
		s := sat.NewSolver(e.Fac)
		var data *encoding.CCIncrementalData
		var err error
		if onSolver {
			data, err = s.AddIncrementalCC(x)
		} else if rapid.Bool().Draw(t, "facConfig") {
			data, err = encoding.EncodeIncremental(e.Fac, x, res)
		} else {
			data, err = encoding.EncodeIncremental(e.Fac, x, res, cfg)
		}
		check := func(what string, b int) {
			if onSolver {
				w := want(b)
				for i := 0; i < 1<<nv; i++ {
					ls := make([]f.Literal, nv)
					for v := 0; v < nv; v++ {
						ls[v] = e.lit(L{v, i>>v&1 == 1})
					}
					if got := s.Call(sat.WithAssumptions(ls)).Sat(); got != w.Get(i) {
						t.Fatalf("%s %d: solver under %s: %v, expected %v", what, b, e.assStr(i), got, w.Get(i))
					}
				}
				return
			}
			got, _, _, perr := projectCNFs(e.Fac, e.Names, nv, res.Formulas()...)
			if perr != nil {
				t.Fatal(perr)
			}
			if w := want(b); !got.Equal(w) {
				d := got.Xor(w).Indices()[0]
				t.Fatalf("%s %d: assignment %s extends to a model: %v, expected %v", what, b, e.assStr(d), got.Get(d), w.Get(d))
			}
		}
		check("initial bound", start)
		if err != nil {
			c.Class("trivial: no incremental data")
			if upper && start > 0 && start < len(vs) || !upper && start > 1 && start < len(vs) {
				t.Fatalf("no incremental data for %s: %v", e.str(x), err)
			}
			return
		}
		if data == nil {
			t.Fatalf("neither data nor error for %s", e.str(x))
		}
		for _, b := range seqs {
			before := len(res.Formulas())
			switch {
			case upper && onSolver:
				data.NewUpperBoundForSolver(b)
			case onSolver:
				data.NewLowerBoundForSolver(b)
			case upper:
				data.NewUpperBound(b)
			default:
				data.NewLowerBound(b)
			}
			if !onSolver && len(res.Formulas()) < before {
				t.Fatalf("clauses were dropped")
			}
			check("bound", b)
			c.Class("tightened")
		}
	}),
	sub("wide", 400, 4, 12, func(t *rapid.T, c *Ctx) {
		// many variables, at sampled assignments around the bound
		nv := size(t, 9, pick(t, "max", 16, 30, 60))
		names := genNamesN(nv)
		fac := f.NewFactory()
		cfg, cs := genEncConfig(t)
		upper := rapid.Bool().Draw(t, "upper")
		n := nCC(LE, 0, seq(nv)...)
		if !upper {
			n.Cmp = GE
		}
		n.Rhs = size(t, 2, nv-1)
		onSolver := rapid.Bool().Draw(t, "solver")
		var seqs []int
		for b := n.Rhs; len(seqs) < 6; {
			step := rapid.IntRange(1, pick(t, "steps", 1, 3, 8)).Draw(t, "step")
			if !upper {
				step = -step
			}
			b -= step
			if b < 0 || b > nv {
				break
			}
			seqs = append(seqs, b)
		}
		c.Case(t, len(seqs) >= 2, "%s %d of %d variables, then %v solver=%v under %s", n.Cmp, n.Rhs, nv, seqs, onSolver, cs)
		x := n.Build(fac, names)
		fac.PutConfiguration(cfg)
		solver := sat.NewSolver(fac)
		res := encoding.ResultForFormula(fac)
		var data *encoding.CCIncrementalData
		var err error
		if onSolver {
			data, err = solver.AddIncrementalCC(x)
		} else {
			data, err = encoding.EncodeIncremental(fac, x, res)
		}
		if err != nil {
			t.Fatalf("no incremental data: %v", err)
		}
		check := func() {
			var s *CNFS
			if !onSolver {
				r := newCNFReader(fac, names, nv)
				var all [][]int
				for _, y := range res.Formulas() {
					q, err := r.Clauses(y)
					if err != nil {
						t.Fatal(err)
					}
					all = append(all, q...)
				}
				s = newCNFS(nv+len(r.Aux), all)
				s.Limit = 50000
			}
			for k := 0; k < 8; k++ {
				val := genNear(t, n, nv)
				want := n.evalSum(val)
				var got bool
				if onSolver {
					got = solver.Call(sat.WithAssumptions(valLits(fac, names, val))).Sat()
				} else {
					as := make([]int, nv)
					for v := range val {
						as[v] = 2 * v
						if !val[v] {
							as[v]++
						}
					}
					got = s.Sat(as...)
				}
				if got != want {
					t.Fatalf("bound %d: assignment %v extends to a model: %v, expected %v", n.Rhs, val, got, want)
				}
			}
		}
		check()
		for _, b := range seqs {
			n.Rhs = b
			switch {
			case upper && onSolver:
				data.NewUpperBoundForSolver(b)
			case onSolver:
				data.NewLowerBoundForSolver(b)
			case upper:
				data.NewUpperBound(b)
			default:
				data.NewLowerBound(b)
			}
			check()
		}
	}),
)
