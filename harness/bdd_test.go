package harness

import (
	"fmt"
	"math/big"
	"slices"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model"
	"pgregory.net/rapid"
)

// refBDD is the reduced ordered diagram of a function, built from its truth
// table.
type refBDD struct {
	nodes     int
	profile   map[int]int
	one, zero *big.Int
}

func (t TT) key() string {
	var sb strings.Builder
	for _, w := range t.W {
		fmt.Fprintf(&sb, "%x,", w)
	}
	return sb.String()
}

func buildRef(want TT, order []int) *refBDD {
	r := &refBDD{profile: map[int]int{}}
	type paths struct{ one, zero *big.Int }
	memo := map[string]paths{}
	var rec func(x TT, l int) paths
	rec = func(x TT, l int) paths {
		if x.IsTrue() {
			return paths{big.NewInt(1), big.NewInt(0)}
		}
		if x.IsFalse() {
			return paths{big.NewInt(0), big.NewInt(1)}
		}
		if p, ok := memo[x.key()]; ok {
			return p
		}
		for !x.DependsOn(order[l]) {
			l++
		}
		v := order[l]
		r.nodes++
		r.profile[v]++
		lo, hi := rec(x.Cof(v, false), l+1), rec(x.Cof(v, true), l+1)
		p := paths{new(big.Int).Add(lo.one, hi.one), new(big.Int).Add(lo.zero, hi.zero)}
		memo[x.key()] = p
		return p
	}
	p := rec(want, 0)
	r.one, r.zero = p.one, p.zero
	return r
}

type bddEntry struct {
	b    *bdd.BDD
	tt   TT
	what string
}

// bddM is a kernel with a pool of live BDDs and their functions.
type bddM struct {
	e      *Env
	t      *rapid.T
	c      *Ctx
	k      *bdd.Kernel
	varnum int   // variables the kernel has room for
	known  []int // variables mapped on the kernel, as far as we know
	pool   []bddEntry
	hist   []string
	gen    Gen
	blocks []*bddBlock
	auto   bool
	noSwap bool
}

type bddBlock struct {
	first, last int // positions = indices in the initial order
	fixed       bool
	kids        []*bddBlock
}

func (m *bddM) note(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	m.hist = append(m.hist, s)
	m.t.Log(s)
	m.c.Doing(strings.Join(m.hist, " ; "))
}

// order returns the kernel's variable order (mapped variables).
func (m *bddM) order(b *bdd.BDD) []int {
	var r []int
	for _, v := range b.VariableOrder() {
		i := m.e.varIdx(v)
		if i < 0 || i >= m.e.NV || slices.Contains(r, i) {
			m.t.Fatalf("variable order %v contains a foreign or repeated variable", b.VariableOrder())
		}
		r = append(r, i)
	}
	return r
}

// shape checks that the diagram is ordered and reduced.
func (m *bddM) shape(en bddEntry) {
	order := m.order(en.b)
	pos := map[string]int{}
	for i, v := range order {
		pos[m.e.Names[v]] = i
	}
	ids := map[bdd.Node]int{}
	uniq := map[string]bool{}
	var rec func(n bdd.Node) int
	rec = func(n bdd.Node) int {
		if id, ok := ids[n]; ok {
			return id
		}
		if !n.InnerNode() {
			id := -1
			if n.Label() == "$true" {
				id = -2
			}
			return id
		}
		p, ok := pos[n.Label()]
		if !ok {
			m.t.Fatalf("%s: node label %q not in the variable order", en.what, n.Label())
		}
		for _, ch := range []bdd.Node{n.Low(), n.High()} {
			if ch.InnerNode() && pos[ch.Label()] <= p {
				m.t.Fatalf("%s: node %q below %q, against the variable order %v", en.what, ch.Label(), n.Label(), m.e.vstrs(en.b.VariableOrder()))
			}
		}
		lo, hi := rec(n.Low()), rec(n.High())
		if lo == hi {
			m.t.Fatalf("%s: redundant node %q", en.what, n.Label())
		}
		k := fmt.Sprintf("%s/%d/%d", n.Label(), lo, hi)
		if uniq[k] {
			m.t.Fatalf("%s: two equal nodes %q", en.what, n.Label())
		}
		uniq[k] = true
		ids[n] = len(ids)
		return ids[n]
	}
	rec(en.b.NodeRepresentation())
}

// check verifies one BDD against its function.
func (m *bddM) check(en bddEntry) {
	if en.b == nil {
		m.t.Fatalf("%s: no BDD", en.what)
	}
	m.e.bddEquals(m.t, en.what, en.b, en.tt)
	if en.b.IsTautology() != en.tt.IsTrue() || en.b.IsContradiction() != en.tt.IsFalse() {
		m.t.Fatalf("%s: IsTautology=%v IsContradiction=%v", en.what, en.b.IsTautology(), en.b.IsContradiction())
	}
}

// canonical checks that equal nodes are equal functions and vice versa.
func (m *bddM) canonical() {
	for i, a := range m.pool {
		for _, b := range m.pool[i+1:] {
			if (a.b.Index == b.b.Index) != a.tt.Equal(b.tt) {
				m.t.Fatalf("same node: %v, same function: %v for (%s) and (%s)", a.b.Index == b.b.Index, a.tt.Equal(b.tt), a.what, b.what)
			}
		}
	}
}

func (m *bddM) add(b *bdd.BDD, want TT, what string) {
	en := bddEntry{b, want, what}
	if b != nil && b.Kernel != m.k {
		m.t.Fatalf("%s: result on another kernel", what)
	}
	m.check(en)
	m.pool = append(m.pool, en)
	if len(m.pool) > 9 {
		m.pool = slices.Delete(m.pool, 0, 1)
	}
}

func (m *bddM) pick(label string) bddEntry {
	return m.pool[rapid.IntRange(0, len(m.pool)-1).Draw(m.t, label)]
}

func (m *bddM) knownVars(label string, min int) []int {
	var r []int
	for _, v := range m.known {
		if rapid.Bool().Draw(m.t, label) {
			r = append(r, v)
		}
	}
	for len(r) < min && len(m.known) > 0 {
		r = append(r, m.known[rapid.IntRange(0, len(m.known)-1).Draw(m.t, label+"1")])
	}
	if rapid.IntRange(0, 2).Draw(m.t, label+"rev") == 2 {
		slices.Reverse(r)
	}
	if len(r) > 0 && rapid.IntRange(0, 9).Draw(m.t, label+"dup") == 9 {
		r = append(r, r[0])
	}
	return r
}

func (m *bddM) learn(x f.Formula) {
	for _, v := range varsOfF(m.e, x) {
		if !slices.Contains(m.known, v) {
			m.known = append(m.known, v)
		}
	}
}

func (m *bddM) compile() {
	n := m.gen.draw(m.t, "f")
	x := m.e.build(n)
	if !auxFree(m.e.Fac, x) {
		m.c.Class("not compiled (auxiliary variables)")
		return
	}
	m.learn(x)
	what := "compile " + m.e.nstr(n)
	m.note("%s", what)
	m.add(bdd.CompileWithKernel(m.e.Fac, x, m.k), n.TT(m.e.NV), what)
}

// step performs one operation which creates a BDD.
func (m *bddM) step() {
	t, e := m.t, m.e
	nv := e.NV
	op := rapid.IntRange(0, 15).Draw(t, "op")
	if len(m.pool) == 0 {
		op = 0
	}
	switch op {
	case 0, 1, 2, 3:
		m.compile()
	case 4, 5:
		a := m.pick("a")
		m.note("not(%s)", a.what)
		m.add(a.b.Negate(), a.tt.Not(), "not("+a.what+")")
	case 6, 7, 8, 9, 10:
		a, b := m.pick("a"), m.pick("b")
		var r *bdd.BDD
		var x TT
		name := []string{"implies", "impliedBy", "equivalence", "and", "or"}[op-6]
		what := fmt.Sprintf("%s(%s, %s)", name, a.what, b.what)
		m.note("%s", what)
		switch op {
		case 6:
			r, x = a.b.Implies(b.b), a.tt.Imp(b.tt)
		case 7:
			r, x = a.b.ImpliedBy(b.b), b.tt.Imp(a.tt)
		case 8:
			r, x = a.b.Equivalence(b.b), a.tt.Eqv(b.tt)
		case 9:
			r, x = a.b.And(b.b), a.tt.And(b.tt)
		case 10:
			r, x = a.b.Or(b.b), a.tt.Or(b.tt)
		}
		if len(what) > 200 {
			what = fmt.Sprintf("%s result #%d", name, len(m.hist))
		}
		m.add(r, x, what)
	case 11, 12:
		a := m.pick("a")
		var ls []L
		for _, v := range m.knownVars("rv", 0) {
			l := L{v, rapid.Bool().Draw(t, "pol")}
			if i := slices.IndexFunc(ls, func(o L) bool { return o.V == v }); i >= 0 {
				l = ls[i]
			}
			ls = append(ls, l)
		}
		x := a.tt
		for _, l := range ls {
			x = x.Cof(l.V, l.Pos)
		}
		what := fmt.Sprintf("restrict(%s, %v)", a.what, e.lstrs(e.lits(ls)))
		m.note("%s", what)
		m.add(a.b.Restrict(e.lits(ls)...), x, what)
	case 13, 14:
		a := m.pick("a")
		vs := m.knownVars("qv", 0)
		x := a.tt
		var r *bdd.BDD
		what := fmt.Sprintf("%s(%s, %s)", []string{"exists", "forAll"}[op-13], a.what, e.vstrs(e.vars(vs)))
		m.note("%s", what)
		for _, v := range vs {
			if op == 13 {
				x = x.Exists(v)
			} else {
				x = x.Forall(v)
			}
		}
		if op == 13 {
			r = a.b.Exists(e.vars(vs)...)
		} else {
			r = a.b.ForAll(e.vars(vs)...)
		}
		m.add(r, x, what)
	case 15:
		var ls []L
		x := ttConst(nv, true)
		for _, v := range m.knownVars("lv", 0) {
			l := L{v, rapid.Bool().Draw(t, "pol")}
			ls = append(ls, l)
			x = x.And(ttLit(nv, l.V, l.Pos))
		}
		what := fmt.Sprintf("literals %v", e.lstrs(e.lits(ls)))
		m.note("%s", what)
		m.add(bdd.CompileLiterals(e.lits(ls), m.k), x, what)
	}
}

// query asks one question and checks the answer.
func (m *bddM) query(en bddEntry, q int) {
	t, e, b := m.t, m.e, en.b
	order := m.order(b)
	ref := buildRef(en.tt, append(slices.Clone(order), missing(e.NV, order)...))
	fail := func(format string, args ...any) {
		t.Helper()
		t.Fatalf("%s: %s", en.what, fmt.Sprintf(format, args...))
	}
	var ess []int
	for v := 0; v < e.NV; v++ {
		if en.tt.DependsOn(v) {
			ess = append(ess, v)
		}
	}
	covered := func(what string, md *model.Model, err error, must []int) map[int]bool {
		val := map[int]bool{}
		if en.tt.IsFalse() {
			if err == nil {
				fail("%s of a contradiction: no error", what)
			}
			return nil
		}
		if err != nil {
			fail("%s: %v", what, err)
		}
		x := en.tt
		for _, l := range md.Literals {
			i := e.varIdx(l.Variable())
			if i < 0 || i >= e.NV {
				fail("%s contains a foreign variable", what)
			}
			if _, ok := val[i]; ok {
				fail("%s contains variable %s twice", what, e.Names[i])
			}
			val[i] = l.IsPos()
			x = x.Cof(i, l.IsPos())
		}
		if !x.IsTrue() {
			fail("%s %v does not satisfy the BDD", what, e.lstrs(md.Literals))
		}
		for _, v := range must {
			if _, ok := val[v]; !ok {
				fail("%s %v lacks variable %s", what, e.lstrs(md.Literals), e.Names[v])
			}
		}
		return val
	}
	switch q {
	case 0:
		exp := new(big.Int).Lsh(big.NewInt(int64(en.tt.Count())), uint(m.varnum))
		exp.Rsh(exp, uint(e.NV))
		got := b.ModelCount()
		if got.Cmp(exp) != 0 {
			fail("ModelCount %v, expected %v", got, exp)
		}
		got.SetInt64(12345) // the answer belongs to the caller
	case 1:
		got := b.PathCountOne()
		if got.Cmp(ref.one) != 0 {
			fail("PathCountOne %v, expected %v", got, ref.one)
		}
		got.SetInt64(12345)
	case 2:
		got := b.PathCountZero()
		if got.Cmp(ref.zero) != 0 {
			fail("PathCountZero %v, expected %v", got, ref.zero)
		}
		got.SetInt64(12345)
	case 3:
		got := b.NumberOfCNFClauses()
		if got.Cmp(ref.zero) != 0 {
			fail("NumberOfCNFClauses %v, expected %v", got, ref.zero)
		}
		got.SetInt64(12345)
	case 4:
		if n := b.NodeCount(); n != ref.nodes {
			fail("NodeCount %d, expected %d", n, ref.nodes)
		}
	case 5:
		for v, n := range b.VariableProfile() {
			i := e.varIdx(v)
			if i < 0 || i >= e.NV {
				fail("VariableProfile contains a foreign variable")
			}
			if n != ref.profile[i] {
				fail("VariableProfile of %s is %d, expected %d", e.Names[i], n, ref.profile[i])
			}
			delete(ref.profile, i)
		}
		if len(ref.profile) != 0 {
			fail("VariableProfile lacks variables: %v", ref.profile)
		}
	case 6:
		var got []int
		for _, v := range b.Support() {
			got = append(got, e.varIdx(v))
		}
		slices.Sort(got)
		if !slices.Equal(got, ess) {
			fail("Support %v, expected %v", e.vstrs(b.Support()), e.vstrs(e.vars(ess)))
		}
	case 7:
		md, err := b.Model()
		covered("Model", md, err, nil)
	case 8:
		def := rapid.Bool().Draw(t, "default")
		vs := m.knownVars("mv", 0)
		md, err := b.ModelWithVariables(def, e.vars(vs)...)
		val := covered(fmt.Sprintf("ModelWithVariables(%v, %s)", def, e.vstrs(e.vars(vs))), md, err, vs)
		for v, pos := range val {
			if !slices.Contains(ess, v) && pos != def {
				fail("ModelWithVariables: don't care variable %s is not assigned the default %v", e.Names[v], def)
			}
			if !slices.Contains(ess, v) && !slices.Contains(vs, v) {
				fail("ModelWithVariables: variable %s is neither requested nor relevant", e.Names[v])
			}
		}
	case 9:
		md, err := b.FullModel()
		covered("FullModel", md, err, order)
	case 10:
		var vs []int
		for _, v := range m.known {
			if rapid.IntRange(0, 2).Draw(t, "ev") > 0 {
				vs = append(vs, v)
			}
		}
		if rapid.Bool().Draw(t, "rev") {
			slices.Reverse(vs)
		}
		ms := b.ModelEnumeration(e.vars(vs)...)
		checkEnum(t, e, en.what+": ModelEnumeration "+fmt.Sprint(e.vstrs(e.vars(vs))), ms, vs, nil, en.tt, true)
	case 11, 12:
		var x f.Formula
		var n *big.Int
		var ok bool
		var empty, unit bool
		what := "CNF"
		if q == 11 {
			x, n = b.CNF(), ref.zero
			ok, empty, unit = isCNFShape(e.Fac, x), en.tt.IsTrue(), en.tt.IsFalse()
		} else {
			x, n, what = b.DNF(), ref.one, "DNF"
			ok, empty, unit = isDNFShape(e.Fac, x), en.tt.IsFalse(), en.tt.IsTrue()
		}
		if !ok {
			fail("%s %s has another form", what, e.str(x))
		}
		e.equals(t, en.what+": "+what, x, en.tt)
		parts := 1
		if q == 11 && x.Sort() == f.SortAnd || q == 12 && x.Sort() == f.SortOr {
			parts = len(e.Fac.Operands(x))
		}
		if empty {
			parts = 0
		}
		if (!unit || n.Cmp(big.NewInt(1)) != 0) && n.Cmp(big.NewInt(int64(parts))) != 0 {
			fail("%s has %d parts, expected %v: %s", what, parts, n, e.str(x))
		}
	case 13:
		fe := e
		other := rapid.IntRange(0, 3).Draw(t, "otherfac") == 0
		var x f.Formula
		switch rapid.IntRange(0, 2).Draw(t, "follow") {
		case 0:
			x = b.ToFormula(e.Fac)
		case 1:
			x = b.ToFormula(e.Fac, true)
		default:
			x = b.ToFormula(e.Fac, false)
		}
		if other {
			m.c.Class("two extractions")
			e.equals(t, en.what+": ToFormula (again)", b.ToFormula(e.Fac, rapid.Bool().Draw(t, "follow2")), en.tt)
		}
		fe.equals(t, en.what+": ToFormula", x, en.tt)
	case 14:
		m.check(en)
		m.shape(en)
	}
}

const bddQueries = 15

func missing(nv int, order []int) []int {
	var r []int
	for v := 0; v < nv; v++ {
		if !slices.Contains(order, v) {
			r = append(r, v)
		}
	}
	return r
}

func genPerm(t *rapid.T, n int, label string) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := rapid.IntRange(0, i).Draw(t, label)
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// newBddM draws a kernel; tiny: initial tables far too small.
func newBddM(t *rapid.T, c *Ctx, nv int, tiny bool) *bddM {
	e := mkEnv(genNames(t), nv, rapid.IntRange(0, 5).Draw(t, "conserve") == 5)
	m := &bddM{e: e, t: t, c: c, gen: Gen{NV: nv, Depth: rapid.IntRange(1, 4).Draw(t, "depth"), Consts: rapid.IntRange(0, 3).Draw(t, "consts") == 3, CC: rapid.IntRange(0, 2).Draw(t, "cc") == 2, PBC: rapid.IntRange(0, 4).Draw(t, "pbc") == 4}}
	nodes, cache := int32(nv*30), int32(nv*20)
	if tiny {
		nodes = int32(rapid.IntRange(3, 60).Draw(t, "nodes"))
		cache = int32(rapid.IntRange(3, 60).Draw(t, "cache"))
	}
	if rapid.IntRange(0, 3).Draw(t, "spare") == 3 {
		m.varnum = nv + rapid.IntRange(0, 2).Draw(t, "nspare")
		m.k = bdd.NewKernel(e.Fac, int32(m.varnum), nodes, cache)
		m.note("NewKernel(%d, %d, %d) %s", m.varnum, nodes, cache, e.Mode)
	} else {
		m.varnum = nv
		m.known = genPerm(t, nv, "perm")
		m.k = bdd.NewKernelWithOrdering(e.Fac, e.vars(m.known), nodes, cache)
		m.note("NewKernelWithOrdering(%s, %d, %d) %s", e.vstrs(e.vars(m.known)), nodes, cache, e.Mode)
	}
	return m
}

// documented variable orders of a formula
func dfsRef(e *Env, x f.Formula) []int {
	var r []int
	var rec func(y f.Formula)
	rec = func(y f.Formula) {
		add := func(v f.Variable) {
			if i := e.varIdx(v); !slices.Contains(r, i) {
				r = append(r, i)
			}
		}
		switch y.Sort() {
		case f.SortLiteral:
			add(f.Literal(y).Variable())
		case f.SortCC, f.SortPBC:
			_, _, lits, _, _ := e.Fac.PBCOps(y)
			for _, l := range lits {
				add(l.Variable())
			}
		default:
			for _, o := range e.Fac.Operands(y) {
				rec(o)
			}
		}
	}
	rec(x)
	return r
}

var _ = registerProp("B01", "formulas (with at-most-one/exactly-one and small constraints) x variable orders (random, heuristics, with further variables) x kernels (default, shared, with room to spare), and operation trees over a pool of BDDs; oracle: truth tables, canonicity over all pairs; non-trivial: not constant and at least two variables",
	sub("long", 150, 2, 12, b01Long),
	sub("compile", 8000, 8, 12, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 7, 9)
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 4).Draw(t, "conserve") == 4)
		g := Gen{NV: nv, Depth: rapid.IntRange(0, 4).Draw(t, "depth"), Consts: true, CC: rapid.Bool().Draw(t, "cc"), PBC: rapid.IntRange(0, 4).Draw(t, "pbc") == 4}
		n := g.draw(t, "f")
		x := e.build(n)
		if !auxFree(e.Fac, x) {
			c.Class("skipped (auxiliary variables)")
			return
		}
		want := n.TT(nv)
		used := varsOfF(e, x)
		c.Case(t, len(used) >= 2 && !want.IsFalse() && !want.IsTrue(), "%s %s", e.Mode, e.str(x))
		m := &bddM{e: e, t: t, c: c}
		one := func(b *bdd.BDD, what string, order []int) {
			m.k = b.Kernel
			en := bddEntry{b, want, what}
			m.check(en)
			m.shape(en)
			got := m.order(b)
			if order != nil && !slices.Equal(got, order) {
				t.Fatalf("%s: variable order %v, expected %v", what, e.vstrs(b.VariableOrder()), e.vstrs(e.vars(order)))
			}
			for _, v := range used {
				if !slices.Contains(got, v) {
					t.Fatalf("%s: variable %s missing in the variable order", what, e.Names[v])
				}
			}
		}
		one(bdd.Compile(e.Fac, x), "Compile", nil)
		var order []int
		for _, v := range genPerm(t, nv, "order") {
			if slices.Contains(used, v) || rapid.Bool().Draw(t, "further") {
				order = append(order, v)
			}
		}
		b := bdd.CompileWithVarOrder(e.Fac, x, e.vars(order))
		one(b, fmt.Sprintf("CompileWithVarOrder %v", e.vstrs(e.vars(order))), order)
		// an equivalent formula compiled in the same kernel is the same node
		y := b.ToFormula(e.Fac, rapid.Bool().Draw(t, "follow"))
		if b2 := bdd.CompileWithKernel(e.Fac, y, b.Kernel); b2.Index != b.Index {
			t.Fatalf("the equivalent formula %s compiles to another node", e.str(y))
		}
		if rapid.Bool().Draw(t, "heuristics") {
			dfs := dfsRef(e, x)
			prof := map[int]int{}
			for v, k := range f.VariableProfile(e.Fac, x) {
				prof[e.varIdx(v)] = k
			}
			for _, h := range []struct {
				name string
				fn   func(f.Factory, f.Formula) []f.Variable
			}{{"BFSOrder", bdd.BFSOrder}, {"DFSOrder", bdd.DFSOrder}, {"MaxToMinOrder", bdd.MaxToMinOrder}, {"MinToMaxOrder", bdd.MinToMaxOrder}, {"ForceOrder", bdd.ForceOrder}} {
				if h.name == "ForceOrder" && !noCC(e.Fac, x) {
					continue // orders the variables of the CNF
				}
				vs := h.fn(e.Fac, x)
				var got []int
				for _, v := range vs {
					i := e.varIdx(v)
					if i < 0 || slices.Contains(got, i) {
						t.Fatalf("%s %v has a foreign or repeated variable", h.name, e.vstrs(vs))
					}
					got = append(got, i)
				}
				for _, v := range used {
					if !slices.Contains(got, v) {
						t.Fatalf("%s %v lacks variable %s", h.name, e.vstrs(vs), e.Names[v])
					}
				}
				if len(got) != len(used) {
					t.Fatalf("%s %v has more variables than the formula", h.name, e.vstrs(vs))
				}
				exp := slices.Clone(dfs)
				switch h.name {
				case "MaxToMinOrder":
					slices.SortStableFunc(exp, func(a, b int) int { return prof[b] - prof[a] })
				case "MinToMaxOrder":
					slices.SortStableFunc(exp, func(a, b int) int { return prof[a] - prof[b] })
				case "DFSOrder":
				default:
					exp = nil
				}
				if exp != nil && !slices.Equal(got, exp) {
					t.Fatalf("%s %v, expected %v", h.name, e.vstrs(vs), e.vstrs(e.vars(exp)))
				}
				if h.name == "BFSOrder" {
					prev := -1
					for i, v := range got {
						d := depthOf(e, x, v)
						if d < prev {
							t.Fatalf("BFSOrder %v: variable %s is not in breadth-first order", e.vstrs(vs), e.Names[got[i]])
						}
						prev = d
					}
				}
				one(bdd.CompileWithVarOrder(e.Fac, x, vs), h.name, got)
			}
			c.Class("order heuristics")
		}
	}),
	sub("order", 1500, 4, 8, func(t *rapid.T, c *Ctx) {
		// occurrence orders over many variables
		nv := rapid.IntRange(8, 40).Draw(t, "nv")
		fac := f.NewFactory()
		names := make(Names, nv)
		for i := range names {
			names[i] = fmt.Sprintf("v%02d", i)
		}
		var kids []*N
		for i := rapid.IntRange(2, 40).Draw(t, "clauses"); i > 0; i-- {
			kids = append(kids, genClauseN(t, nv, 4))
		}
		e := &Env{fac, names, nv, newReader(fac, names, nv), "std"}
		x := e.build(nOp(OpAnd, kids...))
		dfs := dfsRef(e, x)
		prof := map[int]int{}
		for v, k := range f.VariableProfile(fac, x) {
			prof[e.varIdx(v)] = k
		}
		c.Case(t, len(dfs) > 12, "%s", e.str(x))
		for _, min := range []bool{false, true} {
			exp := slices.Clone(dfs)
			slices.SortStableFunc(exp, func(a, b int) int {
				if min {
					return prof[a] - prof[b]
				}
				return prof[b] - prof[a]
			})
			vs := bdd.MaxToMinOrder(fac, x)
			if min {
				vs = bdd.MinToMaxOrder(fac, x)
			}
			if !slices.Equal(vs, e.vars(exp)) {
				t.Fatalf("occurrence order (min to max: %v) %v, expected %v", min, e.vstrs(vs), e.vstrs(e.vars(exp)))
			}
		}
		if vs := bdd.ForceOrder(fac, x); !slices.Equal(vs, bdd.ForceOrder(fac, x)) || !sameSet(e, vs, dfs) {
			t.Fatalf("ForceOrder %v", e.vstrs(vs))
		}
		if vs := bdd.BFSOrder(fac, x); !sameSet(e, vs, dfs) {
			t.Fatalf("BFSOrder %v", e.vstrs(vs))
		}
	}),
	sub("ops", 8000, 8, 12, func(t *rapid.T, c *Ctx) {
		m := newBddM(t, c, rapid.IntRange(2, 6).Draw(t, "nv"), false)
		for i := rapid.IntRange(2, 14).Draw(t, "steps"); i > 0; i-- {
			m.step()
		}
		m.canonical()
		for _, en := range m.pool {
			m.check(en)
			m.shape(en)
		}
		nt := 0
		for _, en := range m.pool {
			if !en.tt.IsTrue() && !en.tt.IsFalse() {
				nt++
			}
		}
		c.Case(t, nt >= 2, "%s", strings.Join(m.hist, " ; "))
	}),
)

func sameSet(e *Env, vs []f.Variable, exp []int) bool {
	var got []int
	for _, v := range vs {
		got = append(got, e.varIdx(v))
	}
	slices.Sort(got)
	exp = slices.Clone(exp)
	slices.Sort(exp)
	return slices.Equal(got, exp)
}

// depthOf returns the smallest depth of an atom with the variable (a negative
// literal counts as a negation of the variable).
func depthOf(e *Env, x f.Formula, v int) int {
	best := 1 << 30
	var rec func(y f.Formula, d int)
	rec = func(y f.Formula, d int) {
		switch y.Sort() {
		case f.SortLiteral:
			if e.varIdx(f.Literal(y).Variable()) == v {
				if y.IsNeg() {
					d++
				}
				best = min(best, d)
			}
		case f.SortCC, f.SortPBC:
			_, _, lits, _, _ := e.Fac.PBCOps(y)
			for _, l := range lits {
				if e.varIdx(l.Variable()) == v {
					best = min(best, d)
				}
			}
		default:
			for _, o := range e.Fac.Operands(y) {
				rec(o, d+1)
			}
		}
	}
	rec(x, 0)
	return best
}

var _ = registerProp("B02", "BDD pools built by operation trees x sequences of queries (repeated, in any order, answers modified by the caller); oracle: reduced ordered diagram built from the truth table under the kernel's order; non-trivial: at least 3 queries on non-constant BDDs",
	sub("queries", 12000, 8, 12, func(t *rapid.T, c *Ctx) {
		m := newBddM(t, c, rapid.IntRange(1, 6).Draw(t, "nv"), rapid.IntRange(0, 2).Draw(t, "tiny") == 2)
		for i := rapid.IntRange(1, 6).Draw(t, "steps"); i > 0; i-- {
			m.step()
		}
		if len(m.pool) == 0 {
			return
		}
		nt := 0
		for i := rapid.IntRange(1, 20).Draw(t, "queries"); i > 0; i-- {
			en := m.pick("bdd")
			q := rapid.IntRange(0, bddQueries-1).Draw(t, "query")
			m.note("query %d of %s", q, en.what)
			m.query(en, q)
			if !en.tt.IsTrue() && !en.tt.IsFalse() {
				nt++
			}
			if rapid.IntRange(0, 9).Draw(t, "more") == 9 {
				m.step()
			}
		}
		c.Case(t, nt >= 3, "%s", strings.Join(m.hist, " ; "))
	}),
)
