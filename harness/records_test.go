package harness

import (
	"fmt"
	"math/big"
	"math/rand"
	"slices"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/sat"
	"pgregory.net/rapid"
)

// ---- F05: assignments, models, sets and propositions as containers ----

type payload int

func (b payload) String() string { return fmt.Sprintf("<%d>", int(b)) }

var _ = registerProp("F05", "histories of adding literals to assignments and models, conversions between them, set operations and propositions, against map models; non-trivial: an assignment with both phases resp. at least 4 set operations",
	sub("records", 6000, 2, 20, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 12)
		var ls []L
		e := newEnv(t, nv)
		for i := rapid.IntRange(0, 9).Draw(t, "n"); i > 0; i-- {
			ls = append(ls, genLit(t, nv))
		}
		f05Records(t, c, e, ls)
	}),
	sub("long", 1500, 2, 20, func(t *rapid.T, c *Ctx) {
		if rapid.IntRange(0, 2).Draw(t, "sets") == 0 {
			f05LongSets(t, c)
			return
		}
		nv := rapid.IntRange(13, 45).Draw(t, "nv")
		e := mkEnv(genNamesN(nv), nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 0)
		rnd := rand.New(rand.NewSource(rapid.Int64().Draw(t, "literals")))
		var ls []L
		for _, v := range rnd.Perm(nv)[:rapid.IntRange(nv/2, nv).Draw(t, "n")] {
			ls = append(ls, L{v, rnd.Intn(2) == 0})
		}
		for i := rapid.IntRange(-4, 3).Draw(t, "again"); i > 0; i-- {
			l := ls[rnd.Intn(len(ls))]
			ls = slices.Insert(ls, rnd.Intn(len(ls)+1), L{l.V, l.Pos != (rnd.Intn(3) == 0)})
		}
		f05Records(t, c, e, ls)
	}),
	sub("sets", 6000, 2, 20, func(t *rapid.T, c *Ctx) {
		e := newEnv(t, 8)
		ops := rapid.SliceOfN(rapid.IntRange(0, 1<<20), 1, 25).Draw(t, "ops")
		kind := rapid.IntRange(0, 2).Draw(t, "kind")
		c.Case(t, len(ops) > 3, "kind %d set ops %v", kind, ops)
		switch kind {
		case 0:
			setHistory(t, ops, func(i int) f.Variable { return e.v(i % 8) }, f.NewVarSet, f.NewMutableVarSet,
				func(m *f.MutableVarSet) *f.VarSet { return m.AsImmutable() })
			a, b := f.NewVarSet(e.vars([]int{0, ops[0] % 8})...), f.NewVarSet(e.v(ops[0]%7), e.v(1))
			for _, s := range []*f.VarSet{f.NewVarSetCopy(a, b), f.NewMutableVarSetCopy(a, b).AsImmutable()} {
				all := map[f.Variable]bool{e.v(0): true, e.v(ops[0] % 8): true, e.v(ops[0] % 7): true, e.v(1): true}
				if s.Size() != len(all) || !s.ContainsAll(a) || !s.ContainsAll(b) || len(s.Content()) != len(all) {
					t.Fatalf("union of %v and %v is %v", a.Content(), b.Content(), s.Content())
				}
			}
			m := f.NewMutableVarSetCopy(a)
			m.Add(e.v(7))
			if a.Contains(e.v(7)) && ops[0]%8 != 7 {
				t.Fatal("copy shares its content with the original")
			}
		case 1:
			setHistory(t, ops, func(i int) f.Literal { return e.lit(L{i % 8, i>>3&1 == 0}) }, f.NewLitSet, f.NewMutableLitSet,
				func(m *f.MutableLitSet) *f.LitSet { return m.AsImmutable() })
		default:
			pool := []f.Formula{e.Fac.Verum(), e.Fac.Falsum()}
			for i := 0; i < 10; i++ {
				pool = append(pool, e.build(fullGen(t, 3).draw(t, "f")))
			}
			setHistory(t, ops, func(i int) f.Formula { return pool[i%len(pool)] }, f.NewFormulaSet, f.NewMutableFormulaSet,
				func(m *f.MutableFormulaSet) *f.FormulaSet { return m.AsImmutable() })
		}
	}),
	sub("propositions", 1500, 1, 10, func(t *rapid.T, c *Ctx) {
		nv := rapid.IntRange(1, 5).Draw(t, "nv")
		e := newEnv(t, nv)
		n := fullGen(t, nv).draw(t, "f")
		x := e.build(n)
		d := pick(t, "description", "", "d", "text: with colon")
		c.Case(t, n.size() >= 3, "%q %s", d, e.nstr(n))
		p := f.NewStandardProposition(x, d)
		if d == "" && rapid.Bool().Draw(t, "none") {
			p = f.NewStandardProposition(x)
		}
		if p.Formula() != x || p.Description != d || p.Sprint(e.Fac) != d+": "+e.str(x) {
			t.Fatalf("proposition %q of %s: %s", d, e.str(x), p.Sprint(e.Fac))
		}
		b := payload(len(d))
		q := f.NewExtendedProposition(x, b)
		if q.Formula() != x || q.Backpack != b || q.Sprint(e.Fac) != b.String()+": "+e.str(x) {
			t.Fatalf("proposition with backpack %s of %s: %s", b, e.str(x), q.Sprint(e.Fac))
		}
		// both comparators are total orders
		pool := []f.Proposition{p, q}
		for i := rapid.IntRange(1, 4).Draw(t, "more"); i > 0; i-- {
			l := e.lit(genLit(t, nv))
			pool = append(pool, f.NewStandardProposition(pick(t, "other", x, l.AsFormula()), pick(t, "text", "", "d", "0: f")))
		}
		total(t, "PropComparator", pool, f.PropComparator, func(a, b f.Proposition) bool {
			return a.String() == b.String() && a.Formula() == b.Formula()
		})
		var ls []f.Literal
		for i := rapid.IntRange(1, 4).Draw(t, "literals"); i > 0; i-- {
			ls = append(ls, e.lit(genLit(t, nv)))
		}
		total(t, "Comparator", ls, func(a, b f.Literal) int { return f.Comparator(a, b) }, func(a, b f.Literal) bool { return a == b })
	}),
)

// total checks that cmp is a total order whose equality is eq.
func total[T any](t *rapid.T, name string, xs []T, cmp func(a, b T) int, eq func(a, b T) bool) {
	for _, a := range xs {
		for _, b := range xs {
			ab, ba := cmp(a, b), cmp(b, a)
			if (ab == 0) != eq(a, b) || (ab > 0) != (ba < 0) {
				t.Fatalf("%s(%v, %v) = %d, and %d the other way round", name, a, b, ab, ba)
			}
			for _, d := range xs {
				if ab <= 0 && cmp(b, d) <= 0 && cmp(a, d) > 0 {
					t.Fatalf("%s is not transitive on %v, %v, %v", name, a, b, d)
				}
			}
		}
	}
}

func sortLits(ls []f.Literal) { sort.Slice(ls, func(i, j int) bool { return ls[i] < ls[j] }) }

// checkAssignment compares an assignment with the reference valuation.
func checkAssignment(t *rapid.T, c *Ctx, e *Env, a *assignment.Assignment, ref map[int]bool) {
	var pos, neg, ids []string
	idx := map[string]int{}
	for v, p := range ref {
		name := e.Names[v]
		idx[name] = v
		ids = append(ids, name)
		if p {
			pos = append(pos, name)
		} else {
			neg = append(neg, name)
		}
	}
	sort.Strings(pos)
	sort.Strings(neg)
	sort.Strings(ids)
	names := func(vs []f.Variable) []string {
		var r []string
		for _, v := range vs {
			n, ok := e.Fac.VarName(v)
			if !ok {
				t.Fatalf("assignment lists an unknown variable")
			}
			r = append(r, n)
		}
		sort.Strings(r)
		return r
	}
	if a.Size() != len(ref) || !slices.Equal(names(a.PosVars()), pos) || !slices.Equal(names(a.NegVars()), neg) {
		t.Fatalf("assignment %v: size %d, positive %v, negative %v", ref, a.Size(), names(a.PosVars()), names(a.NegVars()))
	}
	for _, v := range a.PosVars() {
		if n, _ := e.Fac.VarName(v); e.Fac.Var(n) != v {
			t.Fatalf("positive variable %s is not the factory's variable", n)
		}
	}
	for _, v := range a.NegVars() {
		n, _ := e.Fac.VarName(v)
		if e.Fac.Var(n) != v {
			if v == f.Variable(e.Fac.Lit(n, false)) {
				// known finding: negative literals instead of variables
				c.Exclude("Assignment.NegVars returns the negative literals: identity")
			} else {
				t.Fatalf("negative variable %s is not the factory's variable", n)
			}
		}
	}
	var parts []string
	for _, n := range ids {
		parts = append(parts, e.lit(L{idx[n], ref[idx[n]]}).Sprint(e.Fac))
	}
	if s := a.Sprint(e.Fac); s != "["+strings.Join(parts, ", ")+"]" {
		t.Fatalf("assignment %v prints as %s", ref, s)
	}
}

type setView[T any] interface {
	Empty() bool
	Size() int
	Contains(T) bool
	Content() []T
}

type iset[T any, S any] interface {
	setView[T]
	ContainsAll(S) bool
}

type mset[T any, S any] interface {
	setView[T]
	ContainsAll(S) bool
	Add(T)
	AddAll(S)
	AddAllElements(*[]T)
	Remove(T)
	RemoveAll(S)
	RemoveAllElements(*[]T)
}

// setHistory runs operations on a mutable set against a map model.
func setHistory[T ~uint32, S iset[T, S], M mset[T, S]](t *rapid.T, ops []int, elem func(int) T, mk func(...T) S, mkM func(...T) M, im func(M) S) {
	var first []T
	model := map[T]bool{}
	for i := 0; i < ops[0]>>3%4; i++ {
		first = append(first, elem(ops[0]>>(5+3*i)))
		model[first[i]] = true
	}
	m := mkM(first...)
	for n, o := range ops {
		// the operation, a batch of 0-4 elements, and whether the set is read afterwards
		a, b := elem(o>>4), elem(o>>8)
		var batch []T
		for i := 0; i < (o>>12)%5; i++ {
			batch = append(batch, elem(o>>(4*i+1)))
		}
		in := func(x T) bool { return slices.Contains(batch, x) }
		kept := slices.Clone(batch)
		other := mk(batch...)
		switch o % 8 {
		case 0:
			m.Add(a)
			model[a] = true
		case 1:
			m.Remove(a)
			delete(model, a)
		case 2, 3:
			if o%8 == 2 {
				m.AddAll(other)
			} else {
				m.AddAllElements(&batch)
			}
			for _, x := range batch {
				model[x] = true
			}
		case 4, 5:
			if o%8 == 4 {
				m.RemoveAll(other)
			} else {
				m.RemoveAllElements(&batch)
			}
			for _, x := range batch {
				delete(model, x)
			}
		}
		if !slices.Equal(batch, kept) {
			t.Fatalf("argument modified")
		}
		size := map[T]bool{}
		for _, x := range batch {
			size[x] = true
		}
		if other.Size() != len(size) || len(other.Content()) != len(size) || other.Contains(a) != in(a) {
			t.Fatalf("argument modified")
		}
		if o>>15%4 == 0 && n < len(ops)-1 {
			continue
		}
		var want []T
		for x := range model {
			want = append(want, x)
		}
		slices.Sort(want)
		all := true
		for x := range size {
			all = all && model[x]
		}
		for _, s := range []iset[T, S]{m, im(m), mk(want...)} {
			if s.Size() != len(want) || s.Empty() != (len(want) == 0) || !slices.Equal(s.Content(), want) {
				t.Fatalf("set has content %v, expected %v", s.Content(), want)
			}
			if s.Contains(a) != model[a] || s.Contains(b) != model[b] || s.ContainsAll(other) != all || !s.ContainsAll(mk()) || !s.ContainsAll(mk(want...)) {
				t.Fatalf("membership in %v wrong for %v %v", want, a, b)
			}
		}
	}
}

// ---- C03: structured families with known counts ----

// queens counts the solutions of the n-queens problem by backtracking.
func queens(n int) int {
	cols, d1, d2 := make([]bool, n), make([]bool, 2*n), make([]bool, 2*n)
	var rec func(r int) int
	rec = func(r int) int {
		if r == n {
			return 1
		}
		k := 0
		for c := 0; c < n; c++ {
			if !cols[c] && !d1[r+c] && !d2[r-c+n] {
				cols[c], d1[r+c], d2[r-c+n] = true, true, true
				k += rec(r + 1)
				cols[c], d1[r+c], d2[r-c+n] = false, false, false
			}
		}
		return k
	}
	return rec(0)
}

// family draws a structured problem with its variables and model count.
func family(t *rapid.T, fac f.Factory) (string, f.Formula, []f.Variable, int64) {
	mk := func(p string, n int) []f.Variable {
		vs := make([]f.Variable, n)
		for i := range vs {
			vs[i] = fac.Var(fmt.Sprintf("%s%d", p, i+1))
		}
		return vs
	}
	neg := func(v f.Variable) f.Formula { return v.Negate(fac).AsFormula() }
	switch rapid.IntRange(0, 6).Draw(t, "family") {
	case 0:
		n := rapid.IntRange(1, 6).Draw(t, "n")
		return fmt.Sprintf("queens %d", n), sat.GenerateNQueens(fac, n), mk("v", n*n), int64(queens(n))
	case 1:
		n := rapid.IntRange(1, 4).Draw(t, "n")
		return fmt.Sprintf("pigeons %d", n), sat.GeneratePigeonHole(fac, n), mk("v", n*(n+1)), 0
	case 2:
		// parity of n variables as a chain of equivalences
		n := rapid.IntRange(2, 12).Draw(t, "n")
		vs := mk("p", n)
		x := vs[0].AsFormula()
		for _, v := range vs[1:] {
			x = fac.Equivalence(x, v.AsFormula())
		}
		return fmt.Sprintf("parity %d", n), x, vs, 1 << (n - 1)
	case 3:
		// exactly-one / at-most-one groups
		x, vs, cnt, d := []f.Formula{}, []f.Variable{}, int64(1), "groups"
		for g := rapid.IntRange(1, 4).Draw(t, "groups"); g > 0; g-- {
			k := rapid.IntRange(2, 8).Draw(t, "k")
			gv := mk(fmt.Sprintf("g%d_", g), k)
			vs = append(vs, gv...)
			if rapid.Bool().Draw(t, "exo") {
				x = append(x, fac.EXO(gv...))
				cnt *= int64(k)
				d += fmt.Sprintf(" EXO%d", k)
			} else {
				x = append(x, fac.AMO(gv...))
				cnt *= int64(k + 1)
				d += fmt.Sprintf(" AMO%d", k)
			}
		}
		return d, fac.And(x...), vs, cnt
	case 4:
		// permutation matrices
		n := rapid.IntRange(2, 5).Draw(t, "n")
		vs := mk("m", n*n)
		var x []f.Formula
		cnt := int64(1)
		for i := 0; i < n; i++ {
			var col []f.Variable
			for j := 0; j < n; j++ {
				col = append(col, vs[j*n+i])
			}
			x = append(x, fac.EXO(vs[i*n:i*n+n]...), fac.EXO(col...))
			cnt *= int64(i + 1)
		}
		return fmt.Sprintf("permutations %d", n), fac.And(x...), vs, cnt
	case 5:
		// independent sets of a path resp. a cycle: Fibonacci resp. Lucas numbers
		n := rapid.IntRange(3, 14).Draw(t, "n")
		vs := mk("i", n)
		var x []f.Formula
		for i := 0; i+1 < n; i++ {
			x = append(x, fac.Or(neg(vs[i]), neg(vs[i+1])))
		}
		a, b := int64(1), int64(2)
		for i := 1; i < n; i++ {
			a, b = b, a+b
		}
		if rapid.Bool().Draw(t, "cycle") {
			x = append(x, fac.Or(neg(vs[n-1]), neg(vs[0])))
			a, b = int64(1), int64(3)
			for i := 2; i < n; i++ {
				a, b = b, a+b
			}
			return fmt.Sprintf("cycle %d", n), fac.And(x...), vs, b
		}
		return fmt.Sprintf("path %d", n), fac.And(x...), vs, b
	default:
		// orders: implications along a chain, n+1 models
		n := rapid.IntRange(2, 20).Draw(t, "n")
		vs := mk("c", n)
		var x []f.Formula
		for i := 0; i+1 < n; i++ {
			x = append(x, fac.Implication(vs[i].AsFormula(), vs[i+1].AsFormula()))
		}
		return fmt.Sprintf("chain %d", n), fac.And(x...), vs, int64(n + 1)
	}
}

func c03Families(t *rapid.T, c *Ctx) {
	fac := f.NewFactory(rapid.IntRange(0, 4).Draw(t, "conserve") == 4)
	d, x, vars, want := family(t, fac)
	c.Case(t, want > 1, "%s: %d models over %d variables", d, want, len(vars))
	c.Class(strings.Fields(d)[0])
	check := func(what string, got *big.Int) {
		if got == nil || got.Cmp(big.NewInt(want)) != 0 {
			t.Fatalf("%s yields %v, expected %d", what, got, want)
		}
	}
	perm := genPerm(t, len(vars), "order")
	if rapid.IntRange(0, 2).Draw(t, "count") == 0 {
		got, err := count.Count(fac, vars, x)
		if err != nil {
			t.Fatal(err)
		}
		check("count.Count", got)
	}
	// queens get a direct iteration, orders of magnitude fewer models than variables
	if want <= 2000 && rapid.Bool().Draw(t, "iterate") {
		cfg := &iter.Config{Handler: handler.NopHandler, Strategy: pick[iter.Strategy](t, "strategy", iter.NewNoSplitMEStrategy(), iter.DefaultStrategy(), iter.NewBasicStrategy(iter.DefaultLeastCommonVarProvider(), 50), nil)}
		conf, ss := genSatConfig(t, false)
		s := sat.NewSolver(fac, conf)
		s.Add(x)
		var got *big.Int
		if rapid.IntRange(0, 4).Draw(t, "nocfg") == 0 {
			got, _ = count.OnSolverWithConfig(s, vars, nil)
		} else {
			got, _ = count.OnSolverWithConfig(s, vars, cfg)
		}
		check("count.OnSolverWithConfig "+ss, got)
		if s.Sat() != (want > 0) {
			t.Fatalf("verdict %v after counting %d models", s.Sat(), want)
		}
	}
	if len(vars) <= 16 || strings.HasPrefix(d, "queens") && len(vars) <= 25 {
		ord := make([]f.Variable, len(vars))
		for i, p := range perm {
			ord[i] = vars[p]
		}
		if len(vars) > 16 {
			ord = vars
		}
		if noCC(fac, x) {
			k := bdd.NewKernelWithOrdering(fac, ord, int32(rapid.IntRange(10, 5000).Draw(t, "nodes")), int32(rapid.IntRange(10, 5000).Draw(t, "cache")))
			check("bdd.ModelCount", bdd.CompileWithKernel(fac, x, k).ModelCount())
			dn := dnnf.Compile(fac, x)
			got := dn.ModelCount()
			got.Lsh(got, uint(len(vars)-f.Variables(fac, x).Size()))
			check("dnnf.ModelCount", got)
		}
	}
}

// f05Records checks assignments and models of the literals.
func f05Records(t *rapid.T, c *Ctx, e *Env, ls []L) {
	nv, fac := e.NV, e.Fac
	ref := map[int]bool{}
	ass := assignment.Empty()
	var names []string
	for _, l := range ls {
		val, known := ref[l.V]
		err := ass.AddLit(fac, e.lit(l))
		if (known && val != l.Pos) != (err != nil) {
			t.Fatalf("adding %s to %v: error %v", names, ref, err)
		}
		if err == nil {
			ref[l.V] = l.Pos
		}
		names = append(names, e.lit(l).Sprint(fac))
		if len(ls) < 10 || rapid.IntRange(0, 7).Draw(t, "look") == 0 {
			checkAssignment(t, c, e, ass, ref)
		}
	}
	checkAssignment(t, c, e, ass, ref)
	pos, neg := 0, 0
	conflict := false
	phase := map[int]bool{}
	for _, l := range ls {
		if p, ok := phase[l.V]; ok && p != l.Pos {
			conflict = true
		}
		phase[l.V] = l.Pos
	}
	for _, p := range ref {
		if p {
			pos++
		} else {
			neg++
		}
	}
	c.Case(t, pos > 0 && neg > 0, "%s %v", e.Mode, names)
	c.ClassIf(conflict, "conflicting literals")
	// constructor
	a2, err := assignment.New(fac, e.lits(ls)...)
	if conflict != (err != nil) || (err != nil) != (a2 == nil) {
		t.Fatalf("assignment.New(%v): %v %v", names, a2, err)
	}
	if !conflict {
		checkAssignment(t, c, e, a2, ref)
	}
	// model of the assignment
	m := model.FromAssignment(fac, *ass)
	var want []f.Literal
	for v, p := range ref {
		want = append(want, e.lit(L{v, p}))
	}
	sortLits(want)
	got := slices.Clone(m.Literals)
	sortLits(got)
	if !slices.Equal(got, want) || m.Size() != len(want) {
		t.Fatalf("model of assignment %s is %s", ass.Sprint(fac), m.Sprint(fac))
	}
	back, err := m.Assignment(fac)
	if err != nil {
		t.Fatal(err)
	}
	checkAssignment(t, c, e, back, ref)
	// a model is a list of literals in the given order
	m = model.New()
	if m.Size() != 0 || m.Sprint(fac) != "[]" {
		t.Fatalf("empty model: %s", m.Sprint(fac))
	}
	if rapid.Bool().Draw(t, "ctor") {
		m = model.New(e.lits(ls)...)
	} else {
		k := rapid.IntRange(0, len(ls)).Draw(t, "k")
		m.AddLiteral(e.lits(ls[:k])...)
		m.AddLiteral(e.lits(ls[k:])...)
	}
	if !slices.Equal(m.Literals, e.lits(ls)) && len(ls) > 0 || m.Size() != len(ls) {
		t.Fatalf("model of %v has literals %s", names, m.Sprint(fac))
	}
	if s := m.Sprint(fac); s != "["+strings.Join(names, ", ")+"]" {
		t.Fatalf("model of %v prints as %s", names, s)
	}
	var pv, nv2 []f.Variable
	var nl []f.Literal
	for _, l := range ls {
		if l.Pos {
			pv = append(pv, e.v(l.V))
		} else {
			nv2 = append(nv2, e.v(l.V))
			nl = append(nl, e.lit(l))
		}
	}
	if !slices.Equal(m.PosVars(), pv) || !slices.Equal(m.NegVars(), nv2) || !slices.Equal(m.NegLits(), nl) {
		t.Fatalf("model %v: positive %v, negative %v, negative literals %v", names, m.PosVars(), m.NegVars(), m.NegLits())
	}
	a3, err := m.Assignment(fac)
	if conflict != (err != nil) {
		t.Fatalf("assignment of model %v: %v", names, err)
	}
	if err == nil {
		checkAssignment(t, c, e, a3, ref)
	}
	if nv > 12 {
		// the conjunction of the literals, seen from its operands
		x := m.Formula(fac)
		if len(want) > 1 && !conflict {
			ops := slices.Clone(fac.Operands(x))
			var lits []f.Formula
			for _, l := range want {
				lits = append(lits, l.AsFormula())
			}
			slices.Sort(ops)
			ops = slices.Compact(ops)
			slices.Sort(lits)
			if x.Sort() != f.SortAnd || !slices.Equal(ops, lits) {
				t.Fatalf("formula of the model %v is %s", names, e.str(x))
			}
		}
		return
	}
	tt := ttConst(nv, true)
	for _, l := range ls {
		tt = tt.And(ttLit(nv, l.V, l.Pos))
	}
	e.equals(t, "formula of the model "+strings.Join(names, ","), m.Formula(fac), tt)
}

// f05LongSets runs set operations with many elements.
func f05LongSets(t *rapid.T, c *Ctx) {
	nv := rapid.IntRange(13, 45).Draw(t, "nv")
	e := mkEnv(genNamesN(nv), nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 0)
	rnd := rand.New(rand.NewSource(rapid.Int64().Draw(t, "elements")))
	pool := e.allVars()
	model := map[f.Variable]bool{}
	draw := func() []f.Variable {
		r := make([]f.Variable, rnd.Intn(nv))
		for i := range r {
			r[i] = pool[rnd.Intn(nv)]
		}
		return r
	}
	first := draw()
	m := f.NewMutableVarSet(first...)
	for _, x := range first {
		model[x] = true
	}
	steps := rapid.IntRange(1, 8).Draw(t, "steps")
	c.Case(t, steps > 3, "%d steps on a set over %d variables", steps, nv)
	for ; steps > 0; steps-- {
		batch := draw()
		kept := slices.Clone(batch)
		other := f.NewVarSet(batch...)
		op := rapid.IntRange(0, 5).Draw(t, "op")
		switch op {
		case 0:
			m.AddAll(other)
		case 1:
			m.AddAllElements(&batch)
		case 2:
			m.RemoveAll(other)
		case 3:
			m.RemoveAllElements(&batch)
		case 4:
			// a union of several sets
			sets := []*f.VarSet{m.AsImmutable(), other}
			for i := rapid.IntRange(0, 3).Draw(t, "further"); i > 0; i-- {
				further := draw()
				sets = append(sets, f.NewVarSet(further...))
				for _, x := range further {
					model[x] = true
				}
			}
			if rapid.Bool().Draw(t, "mutable") {
				m = f.NewMutableVarSetCopy(sets...)
			} else {
				m = f.NewMutableVarSetCopy(f.NewVarSetCopy(sets...))
			}
		default:
			// literals of both phases
			var ls []f.Literal
			seen := map[f.Literal]bool{}
			for _, v := range batch {
				l := v.AsLiteral()
				if rnd.Intn(2) == 0 {
					l = v.Negate(e.Fac)
				}
				ls = append(ls, l)
				seen[l] = true
			}
			if s := f.NewLitSet(ls...); s.Size() != len(seen) || len(s.Content()) != len(seen) || !slices.IsSorted(s.Content()) {
				t.Fatalf("literal set of %d literals with content %v", len(seen), s.Content())
			}
			continue
		}
		for _, x := range kept {
			if op < 2 || op == 4 {
				model[x] = true
			} else {
				delete(model, x)
			}
		}
		if !slices.Equal(batch, kept) {
			t.Fatalf("argument modified")
		}
		var want []f.Variable
		for x := range model {
			want = append(want, x)
		}
		slices.Sort(want)
		all := true
		for _, x := range kept {
			all = all && model[x]
		}
		for _, s := range []iset[f.Variable, *f.VarSet]{m, m.AsImmutable()} {
			if s.Size() != len(want) || s.Empty() != (len(want) == 0) || !slices.Equal(s.Content(), want) || s.ContainsAll(other) != all {
				t.Fatalf("set has content %v, expected %v", s.Content(), want)
			}
		}
	}
}
