package harness

import (
	"fmt"
	"math/rand"
	"slices"
	"strings"

	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
	"pgregory.net/rapid"
)

// refCNF is the oracle's own clause form of compositions.
type refCNF struct {
	next    int
	clauses [][]int
	fed     int
	s       *CNFS
}

func newRefCNF(nv int) *refCNF { return &refCNF{next: nv} }

func (r *refCNF) fresh() int { r.next++; return 2 * (r.next - 1) }

func (r *refCNF) add(cs ...[]int) { r.clauses = append(r.clauses, cs...) }

func (r *refCNF) constant(b bool) int {
	l := r.fresh()
	if b {
		r.add([]int{l})
	} else {
		r.add([]int{l ^ 1})
	}
	return l
}

func refLit(v int, pos bool) int {
	if pos {
		return 2 * v
	}
	return 2*v + 1
}

// lit returns a literal equivalent to the composition.
func (r *refCNF) lit(n *N) int {
	switch n.Op {
	case OpFalse, OpTrue:
		return r.constant(n.Op == OpTrue)
	case OpLit:
		return refLit(n.Lit.V, n.Lit.Pos)
	case OpNot:
		return r.lit(n.Kids[0]) ^ 1
	case OpImpl:
		return r.or(r.lit(n.Kids[0])^1, r.lit(n.Kids[1]))
	case OpEquiv:
		a, b := r.lit(n.Kids[0]), r.lit(n.Kids[1])
		return r.ite(a, b, b^1)
	case OpAnd, OpOr:
		flip := 0
		if n.Op == OpAnd {
			flip = 1
		}
		var ks []int
		for _, k := range n.Kids {
			ks = append(ks, r.lit(k)^flip)
		}
		return r.or(ks...) ^ flip
	}
	// the sum, literal by literal
	memo := map[[2]int]int{}
	lo, hi := make([]int, len(n.Lits)+1), make([]int, len(n.Lits)+1)
	for i := len(n.Lits) - 1; i >= 0; i-- {
		lo[i], hi[i] = lo[i+1]+min(n.Cs[i], 0), hi[i+1]+max(n.Cs[i], 0)
	}
	yes, no := r.constant(true), r.constant(false)
	var rec func(i, sum int) int
	rec = func(i, sum int) int {
		// decided for all remaining sums?
		if a, b := n.Cmp.Eval(sum+lo[i], n.Rhs), n.Cmp.Eval(sum+hi[i], n.Rhs); i == len(n.Lits) || n.Cmp != EQ && a == b {
			if a {
				return yes
			}
			return no
		}
		if n.Cmp == EQ && (sum+lo[i] > n.Rhs || sum+hi[i] < n.Rhs) {
			return no
		}
		if l, ok := memo[[2]int{i, sum}]; ok {
			return l
		}
		l := r.ite(refLit(n.Lits[i].V, n.Lits[i].Pos), rec(i+1, sum+n.Cs[i]), rec(i+1, sum))
		memo[[2]int{i, sum}] = l
		return l
	}
	return rec(0, 0)
}

func (r *refCNF) or(ks ...int) int {
	l := r.fresh()
	all := []int{l ^ 1}
	for _, k := range ks {
		r.add([]int{l, k ^ 1})
		all = append(all, k)
	}
	r.add(all)
	return l
}

func (r *refCNF) ite(c, a, b int) int {
	if a == b {
		return a
	}
	l := r.fresh()
	r.add([]int{l ^ 1, c ^ 1, a}, []int{l ^ 1, c, b}, []int{l, c ^ 1, a ^ 1}, []int{l, c, b ^ 1}, []int{l ^ 1, a, b}, []int{l, a ^ 1, b ^ 1})
	return l
}

// sat decides the clauses under assumptions.
func (r *refCNF) sat(assume ...int) bool {
	if r.s == nil || r.s.nv < r.next {
		r.s = newCNFS(r.next*3/2+200, nil)
		r.s.Limit = 20000
		r.fed = 0
	}
	for ; r.fed < len(r.clauses); r.fed++ {
		r.s.addClause(r.clauses[r.fed])
	}
	return r.s.Sat(assume...)
}

func (r *refCNF) model(nv int) []bool {
	m := make([]bool, nv)
	for v := range m {
		m[v] = r.s.litVal(2*v) == 1
	}
	return m
}

// longEffort bounds the events (conflicts) of one computation on problems
// whose constraints are arbitrary: some of them are hard for any solver.
const longEffort = 10000

// effort ends a case as undecided when a computation takes too many events.
type effort struct{ left int }

func (e *effort) ShouldResume(event.Event) bool {
	if e.left--; e.left < 0 {
		panic(gaveUp{})
	}
	return true
}

// longCon is a constraint of a longM.
type longCon struct {
	n   *N
	x   f.Formula
	ref int // the oracle's literal
}

// longM drives one SAT solver with long clauses, operators and constraints
// over tens of variables; the oracle is an own clause form and SAT procedure.
type longM struct {
	t      *rapid.T
	c      *Ctx
	fac    f.Factory
	nv     int
	names  Names
	ch     *Chain // evaluation of factory formulas
	s      *sat.Solver
	cfg    *sat.Config
	proof  bool
	ref    *refCNF
	hidden []bool // a planted model, or nil
	cur    []*longCon
	props  map[f.Proposition]*longCon
	states []*sat.SolverState
	snaps  [][]*longCon
	valid  []int
	hist   strings.Builder
	both   [2]int
	long   int
	pins   pins
}

func newLongM(t *rapid.T, c *Ctx, proof bool) *longM {
	m := &longM{t: t, c: c, fac: genFac(t), nv: size(t, 6, 60), proof: proof, props: map[f.Proposition]*longCon{}}
	m.ch = newChain(t, m.fac, m.nv, 1)
	m.names = m.ch.Names
	cfg, cs := genSatConfig(t, proof)
	m.cfg = cfg
	m.s = sat.NewSolver(m.fac, cfg)
	m.ref = newRefCNF(m.nv)
	if rapid.IntRange(0, 3).Draw(t, "planted") > 0 {
		rnd := rand.New(rand.NewSource(int64(rapid.Uint32().Draw(t, "hidden"))))
		m.hidden = make([]bool, m.nv)
		for v := range m.hidden {
			m.hidden[v] = rnd.Intn(2) == 0
		}
	}
	m.log("nv=%d %s", m.nv, cs)
	switch rapid.IntRange(0, 7).Draw(t, "forced") {
	case 0, 1:
		m.funnel()
	case 2, 3:
		m.nested()
	case 4, 5:
		m.counted()
	}
	for i := size(t, 1, 16); i > 0; i-- {
		m.add()
	}
	return m
}

func (m *longM) log(format string, args ...any) {
	if m.hist.Len() > 0 {
		m.hist.WriteString(" | ")
	}
	fmt.Fprintf(&m.hist, format, args...)
	m.c.Doing(m.hist.String())
	m.t.Logf(format, args...)
	m.pins.check(m.t.Fatalf)
}

func genLong(t *rapid.T, nv int, hidden []bool) *N {
	var n *N
	switch k := rapid.IntRange(0, 9).Draw(t, "long"); {
	case k < 3:
		n = genPart(t, nv, OpOr, 4)
	case k < 6:
		n = genPart(t, nv, OpOr, pick(t, "size", 12, 40, 60))
	case k < 8:
		n = genLongCon(t, nv, pick(t, "size", 8, 16, 40))
		if n.Cmp == EQ && rapid.Bool().Draw(t, "ineq") {
			n.Cmp = LE
			if !n.isCC() {
				n.Route = 2
			}
		}
	default:
		n = genMany(t, nv, 3, pick(t, "size", 8, 20), 1, rapid.Bool().Draw(t, "cc")).noDups()
	}
	if hidden != nil && !n.eval(hidden) {
		if n.Op == OpOr {
			// satisfied by one of the literals
			i := rapid.IntRange(0, len(n.Kids)-1).Draw(t, "satisfied")
			if k := n.Kids[i]; k.Op == OpLit {
				n.Kids[i] = nLit(k.Lit.V, !k.Lit.Pos)
				if n.eval(hidden) {
					return n.noDups()
				}
			}
		}
		n = nOp(OpNot, n)
	}
	return n
}

func (n *N) long() bool {
	if len(n.Kids) > 12 || len(n.Lits) > 12 {
		return true
	}
	return slices.ContainsFunc(n.Kids, (*N).long)
}

func (m *longM) draw() *longCon { return m.con(genLong(m.t, m.nv, m.hidden)) }

func (m *longM) con(n *N) *longCon {
	if n.long() {
		m.long++
	}
	return &longCon{n: n, x: n.Build(m.fac, m.names), ref: m.ref.lit(n)}
}

// funnel adds a long clause whose literals are excluded, some or all of them
// without unit propagation, except for one or two.
func (m *longM) funnel() {
	t := m.t
	n := genPart(t, m.nv, OpOr, pick(t, "funnel", 8, 20, 40))
	if n.Op != OpOr {
		return
	}
	keep := rapid.IntRange(0, len(n.Kids)-1).Draw(t, "keep")
	var out []*N
	units := rapid.IntRange(0, 2).Draw(t, "units") == 0
	for i, k := range n.Kids {
		if m.hidden != nil {
			n.Kids[i] = nLit(k.Lit.V, m.hidden[k.Lit.V] == (i == keep))
		}
		if i != keep {
			l := n.Kids[i].Lit
			if units && rapid.IntRange(0, 3).Draw(t, "unit") == 0 {
				out = append(out, nLit(l.V, !l.Pos))
				continue
			}
			a := (l.V + 1 + rapid.IntRange(0, m.nv-2).Draw(t, "by")) % m.nv
			out = append(out, nOp(OpOr, nLit(l.V, !l.Pos), nLit(a, true)), nOp(OpOr, nLit(l.V, !l.Pos), nLit(a, false)))
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "second") == 0 {
		out = out[:max(0, len(out)-2)]
	}
	if rapid.Bool().Draw(t, "similar") {
		// clauses which differ in one literal
		o := nOp(OpOr, slices.Clone(n.Kids)...)
		i := keep
		if m.hidden != nil {
			i = rapid.IntRange(0, len(n.Kids)-1).Draw(t, "other")
		}
		if k := o.Kids[i].Lit; m.hidden == nil || i != keep {
			o.Kids[i] = nLit(k.V, !k.Pos)
			out = append(out, o)
		}
	}
	at := pick(t, "position", 0, len(out), rapid.IntRange(0, len(out)).Draw(t, "at"))
	for _, o := range slices.Insert(out, at, n) {
		m.addCon(m.con(o))
	}
}

// nested adds a relation between a literal and a long operator all of whose
// operands but one are fixed to the neutral value.
func (m *longM) nested() {
	t := m.t
	op := OpOr
	if rapid.Bool().Draw(t, "and") {
		op = OpAnd
	}
	n := genPart(t, m.nv, OpOr, pick(t, "nested", 8, 20, 40))
	if n.Op != OpOr || len(n.Kids) >= m.nv {
		return
	}
	used := map[int]bool{}
	var kids []*N
	for _, k := range n.Kids {
		if k.Op == OpLit && !used[k.Lit.V] {
			used[k.Lit.V] = true
			kids = append(kids, k)
		}
	}
	var free []int
	for v := 0; v < m.nv; v++ {
		if !used[v] {
			free = append(free, v)
		}
	}
	if len(kids) < 2 || len(free) == 0 {
		return
	}
	keep := rapid.IntRange(0, len(kids)-1).Draw(t, "keep")
	a := nLit(pick(t, "a", free...), rapid.Bool().Draw(t, "phase"))
	units := rapid.IntRange(0, 1).Draw(t, "units") == 0
	var out []*N
	fix := func(l L, val bool) {
		x := nLit(l.V, l.Pos == val)
		if units && rapid.IntRange(0, 3).Draw(t, "unit") == 0 {
			out = append(out, x)
			return
		}
		b := (l.V + 1 + rapid.IntRange(0, m.nv-2).Draw(t, "by")) % m.nv
		out = append(out, nOp(OpOr, x, nLit(b, true)), nOp(OpOr, x, nLit(b, false)))
	}
	for i, k := range kids {
		if m.hidden != nil && i != keep {
			kids[i] = nLit(k.Lit.V, m.hidden[k.Lit.V] == (op == OpAnd))
		}
		if i != keep {
			fix(kids[i].Lit, op == OpAnd)
		}
	}
	body := nOp(op, kids...)
	rel := func(a *N) *N {
		switch rapid.IntRange(0, 6).Draw(t, "relation") {
		case 0:
			return nOp(OpImpl, a, body)
		case 1:
			return nOp(OpImpl, body, a)
		case 2:
			return nOp(OpEquiv, body, a)
		case 3:
			return nOp(OpOr, nOp(OpNot, body), a)
		case 4:
			return nOp(OpNot, nOp(OpAnd, a, body))
		case 5:
			return nOp(OpOr, nOp(OpAnd, a, body), nOp(OpAnd, nOp(OpNot, body), nOp(OpNot, a)))
		default:
			return nOp(OpImpl, nOp(OpNot, body), a)
		}
	}
	x := rel(a)
	if m.hidden != nil && !x.eval(m.hidden) {
		x = nOp(OpNot, x)
	}
	if rapid.Bool().Draw(t, "fixed") {
		l := kids[keep].Lit
		if rapid.Bool().Draw(t, "side") {
			l = a.Lit
		}
		val := rapid.Bool().Draw(t, "value")
		if m.hidden != nil {
			val = m.hidden[l.V] == l.Pos
		}
		fix(l, val)
	}
	at := pick(t, "position", 0, len(out), rapid.IntRange(0, len(out)).Draw(t, "at"))
	for _, o := range slices.Insert(out, at, x) {
		m.addCon(m.con(o))
	}
	m.c.Class("long operator inside a formula")
}

// counted adds an at-most constraint over many variables and fixes as many of
// them as it admits (one more or less), at any positions.
func (m *longM) counted() {
	t := m.t
	vs := genPerm(t, m.nv, "vars")[:size(t, min(6, m.nv), min(m.nv, 45))]
	var on []int
	window := rapid.Bool().Draw(t, "window")
	if m.hidden != nil {
		for _, v := range vs {
			if m.hidden[v] {
				on = append(on, v)
			}
		}
	} else {
		k := size(t, 1, len(vs))
		if rapid.Bool().Draw(t, "few") {
			k = min(k, 5)
		}
		at := rapid.IntRange(0, len(vs)-k).Draw(t, "at")
		if !window {
			on = append(on, genPerm(t, len(vs), "on")[:k]...)
		} else {
			for i := at; i < at+k; i++ {
				on = append(on, i)
			}
		}
		for i := range on {
			on[i] = vs[on[i]]
		}
	}
	if len(on) == 0 {
		return
	}
	n := nCC(LE, len(on), vs...)
	if m.hidden == nil {
		n.Rhs += pick(t, "slack", 0, 0, 1, -1)
	} else if window {
		// fewer variables: the true ones and a part of the others
		var part []int
		for _, v := range vs {
			if m.hidden[v] || rapid.IntRange(0, 2).Draw(t, "in") > 0 {
				part = append(part, v)
			}
		}
		n = nCC(LE, len(on), part...)
	}
	if rapid.IntRange(0, 3).Draw(t, "twice") == 0 {
		// a variable occurs twice
		l := n.Lits[rapid.IntRange(0, len(n.Lits)-1).Draw(t, "which")]
		n.Lits, n.Cs = append(n.Lits, l), append(n.Cs, 1)
		if m.hidden != nil && m.hidden[l.V] {
			n.Rhs++
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "strict") == 0 {
		n.Cmp, n.Rhs = LT, n.Rhs+1
	} else if n.Rhs == 1 && rapid.Bool().Draw(t, "exactly") {
		n.Cmp = EQ
	}
	if n.Rhs < 0 {
		return
	}
	var out []*N
	units := rapid.Bool().Draw(t, "units")
	for _, v := range on[:len(on)-pick(t, "open", 0, 0, 1)] {
		x := nLit(v, true)
		if units {
			out = append(out, x)
			continue
		}
		b := (v + 1 + rapid.IntRange(0, m.nv-2).Draw(t, "by")) % m.nv
		out = append(out, nOp(OpOr, x, nLit(b, true)), nOp(OpOr, x, nLit(b, false)))
	}
	at := pick(t, "position", 0, len(out), rapid.IntRange(0, len(out)).Draw(t, "at"))
	for _, o := range slices.Insert(out, at, n) {
		m.addCon(m.con(o))
	}
	m.c.Class("long at-most constraint on its bound")
}

func (m *longM) add() { m.addCon(m.draw()) }

func (m *longM) addCon(con *longCon) {
	m.cur = append(m.cur, con)
	if m.proof || rapid.IntRange(0, 5).Draw(m.t, "prop") == 0 {
		p := f.NewStandardProposition(con.x)
		m.props[p] = con
		m.log("addProp %s", con.n.str(m.names))
		m.s.AddProposition(p)
	} else {
		m.log("add %s", con.n.str(m.names))
		m.s.Add(con.x)
	}
}

// sat decides the given constraints under further assumptions.
func (m *longM) sat(cons []*longCon, as ...int) bool {
	for _, con := range cons {
		as = append(as, con.ref)
	}
	return m.ref.sat(as...)
}

// assume draws assumptions; near returns some which agree with a model.
func (m *longM) assume(k int) ([]int, []f.Literal) {
	var as []int
	var ls []f.Literal
	n := rapid.IntRange(0, k).Draw(m.t, "assumptions")
	base := m.hidden
	if n > 0 && rapid.Bool().Draw(m.t, "near") {
		if m.sat(m.cur) {
			base = m.ref.model(m.nv)
		}
	}
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		v := rapid.IntRange(0, m.nv-1).Draw(m.t, "v")
		if seen[v] {
			continue
		}
		seen[v] = true
		pos := rapid.Bool().Draw(m.t, "pos")
		if base != nil {
			pos = base[v] != (rapid.IntRange(0, 7).Draw(m.t, "flip") == 7)
		}
		as = append(as, refLit(v, pos))
		ls = append(ls, m.fac.Lit(m.names[v], pos))
	}
	return as, ls
}

func (m *longM) strs(ls []f.Literal) string {
	var sb strings.Builder
	for _, l := range ls {
		sb.WriteString(" " + l.Sprint(m.fac))
	}
	return sb.String()
}

// model reads a model and checks it; variables which it lacks are unknown to
// the solver and may have any value.
func (m *longM) model(what string, ls []f.Literal, cons []*longCon, as []int) []int {
	got := m.ch.model(m.t, ls)
	var fixed []int
	vals := make([]bool, m.nv)
	total := true
	for v := 0; v < m.nv; v++ {
		b, ok := got[v]
		if !ok {
			total = false
			continue
		}
		vals[v] = b
		fixed = append(fixed, refLit(v, b))
		if slices.Contains(as, refLit(v, !b)) {
			m.t.Fatalf("%s: the model violates an assumption on %s", what, m.names[v])
		}
	}
	if total {
		for _, con := range cons {
			if !con.n.eval(vals) {
				m.t.Fatalf("%s: the model %s violates %s", what, m.strs(ls), con.n.str(m.names))
			}
		}
	} else if !m.sat(cons, append(slices.Clone(fixed), as...)...) {
		m.t.Fatalf("%s: the model %s does not extend to a model", what, m.strs(ls))
	}
	return fixed
}

func (m *longM) allVars() []f.Variable {
	r := make([]f.Variable, m.nv)
	for v := range r {
		r[v] = m.fac.Var(m.names[v])
	}
	return r
}

func (m *longM) call() {
	as, ls := m.assume(8)
	cons := m.cur
	p := sat.Params().Literal(ls...).WithModel(m.allVars())
	withCore := m.proof && !m.cfg.UseAtMostClauses && rapid.IntRange(0, 2).Draw(m.t, "core") > 0
	if withCore {
		p.WithCore()
	}
	desc := m.strs(ls)
	var temp []*longCon
	for i := rapid.IntRange(-4, 2).Draw(m.t, "temporary"); i > 0; i-- {
		con := m.draw()
		temp = append(temp, con)
		desc += " [" + con.n.str(m.names) + "]"
		if withCore {
			q := f.NewStandardProposition(con.x)
			m.props[q] = con
			p.Proposition(q)
		} else {
			p.Formula(con.x)
		}
	}
	cons = append(slices.Clone(cons), temp...)
	m.log("call%s core=%v", desc, withCore)
	r := m.s.Call(p.Handler(&effort{left: longEffort}))
	m.pins.result(r)
	want := m.sat(cons, as...)
	if !r.OK() || r.Sat() != want {
		m.t.Fatalf("call%s: ok=%v sat=%v, expected %v", desc, r.OK(), r.Sat(), want)
	}
	if want {
		m.both[1]++
		if r.Model() == nil {
			m.t.Fatalf("no model")
		}
		m.model("call", r.Model().Literals, cons, as)
		return
	}
	m.both[0]++
	if withCore {
		m.core(r, temp, as, ls)
	}
}

func (m *longM) core(r sat.CallResult, temp []*longCon, as []int, ls []f.Literal) {
	core := r.UnsatCore()
	if core == nil || len(core.Propositions) == 0 {
		m.t.Fatalf("no core")
	}
	var cons []*longCon
	var used []int
	for i, p := range core.Propositions {
		if slices.Contains(core.Propositions[:i], p) {
			m.t.Fatalf("proposition twice in the core")
		}
		if con, ok := m.props[p]; ok {
			if !slices.Contains(m.cur, con) && !slices.Contains(temp, con) {
				m.t.Fatalf("core element %s is not on the solver", p.Sprint(m.fac))
			}
			cons = append(cons, con)
			continue
		}
		j := slices.IndexFunc(ls, func(l f.Literal) bool { return l.AsFormula() == p.Formula() })
		if j < 0 {
			m.t.Fatalf("core element %s was not added", p.Sprint(m.fac))
		}
		used = append(used, as[j])
	}
	if m.sat(cons, used...) {
		m.t.Fatalf("the core of %d elements is satisfiable", len(core.Propositions))
	}
	m.c.Class("core checked")
}

func (m *longM) backbone() {
	vs := map[int]bool{}
	for i := rapid.IntRange(1, 12).Draw(m.t, "bbvars"); i > 0; i-- {
		vs[rapid.IntRange(0, m.nv-1).Draw(m.t, "v")] = true
	}
	var is []int
	for v := 0; v < m.nv; v++ {
		if vs[v] {
			is = append(is, v)
		}
	}
	kind := pick(m.t, "bb", sat.BBBoth, sat.BBBoth, sat.BBPos, sat.BBNeg)
	m.log("backbone %v of %v", kind, is)
	bb, st := m.s.ComputeBackboneWithHandler(m.fac, m.ch.varsOf(is), &effort{left: longEffort}, kind)
	if !st.Success {
		m.t.Fatalf("backbone not computed without cancelation")
	}
	m.pins.backbone(bb)
	want := m.sat(m.cur)
	if bb.Sat != want {
		m.t.Fatalf("backbone: sat=%v, expected %v", bb.Sat, want)
	}
	if !want {
		m.both[0]++
		return
	}
	m.both[1]++
	for _, v := range is {
		x := m.fac.Var(m.names[v])
		pos, neg := !m.sat(m.cur, refLit(v, false)), !m.sat(m.cur, refLit(v, true))
		m.c.ClassIf(pos || neg, "backbone literal")
		exp := [3]bool{pos && kind != sat.BBNeg, neg && kind != sat.BBPos, !pos && !neg && kind == sat.BBBoth}
		for i, part := range [][]f.Variable{bb.Positive, bb.Negative, bb.Optional} {
			if slices.Contains(part, x) != exp[i] {
				m.t.Fatalf("%s in part %d of the backbone of kind %v: %v, expected %v", m.names[v], i, kind, !exp[i], exp[i])
			}
		}
	}
	if len(bb.Positive)+len(bb.Negative)+len(bb.Optional) > len(is) {
		m.t.Fatalf("backbone of more variables than requested")
	}
}

func (m *longM) optimize() {
	maximize := rapid.Bool().Draw(m.t, "max")
	n := &N{Op: OpPBC, Cmp: GE, Route: 2}
	var ls []f.Literal
	k := pick(m.t, "objective", 4, 12, 20)
	start, step := rapid.IntRange(0, m.nv-1).Draw(m.t, "first"), pick(m.t, "step", 1, 5)
	seen := map[int]bool{}
	for i := 0; i < k; i++ {
		v := (start + i*step) % m.nv
		if seen[v] {
			continue
		}
		seen[v] = true
		pos := rapid.Bool().Draw(m.t, "pos")
		ls = append(ls, m.fac.Lit(m.names[v], pos))
		n.Lits = append(n.Lits, L{v, pos == maximize})
		n.Cs = append(n.Cs, 1)
	}
	m.log("optimize max=%v%s", maximize, m.strs(ls))
	mdl := m.s.MinimizeWithHandler
	if maximize {
		mdl = m.s.MaximizeWithHandler
	}
	got, st := mdl(ls, &effort{left: longEffort}, m.allVars()...)
	if !st.Success {
		m.t.Fatalf("no optimum without cancelation")
	}
	m.pins.model(got)
	if !m.sat(m.cur) {
		m.both[0]++
		if got != nil {
			m.t.Fatalf("optimum of an unsatisfiable problem")
		}
		return
	}
	m.both[1]++
	if got == nil {
		m.t.Fatalf("no optimum of a satisfiable problem")
	}
	fixed := m.model("optimum", got.Literals, m.cur, nil)
	val := 0
	for _, l := range n.Lits {
		// unknown variables are free: they count as satisfied
		if !slices.Contains(fixed, refLit(l.V, !l.Pos)) {
			val++
		}
	}
	n.Rhs = val + 1
	if m.sat(m.cur, m.ref.lit(n)) {
		m.t.Fatalf("an objective value better than %d is possible", val)
	}
	m.c.Class("optimum")
}

func (m *longM) run(mix chainMix, steps int) {
	ops := []struct {
		w  int
		fn func()
	}{{mix.add, m.add}, {mix.save, func() {
		m.log("save #%d", len(m.states))
		m.valid = append(m.valid, len(m.states))
		m.states = append(m.states, m.s.SaveState())
		m.snaps = append(m.snaps, slices.Clone(m.cur))
	}}, {mix.load, func() {
		if len(m.valid) == 0 {
			return
		}
		pos := rapid.IntRange(0, len(m.valid)-1).Draw(m.t, "state")
		i := m.valid[pos]
		m.log("load #%d", i)
		if err := m.s.LoadState(m.states[i]); err != nil {
			m.t.Fatalf("loading valid state #%d: %v", i, err)
		}
		m.valid = m.valid[:pos+1]
		m.cur = slices.Clone(m.snaps[i])
		m.c.Class("state loaded")
	}}, {mix.call, m.call}, {mix.bb, m.backbone}, {mix.opt, m.optimize}}
	sum := 0
	for _, o := range ops {
		sum += o.w
	}
	for i := rapid.IntRange(1, steps).Draw(m.t, "steps"); i > 0; i-- {
		k := rapid.IntRange(0, sum-1).Draw(m.t, "op")
		for _, o := range ops {
			if k -= o.w; k < 0 {
				o.fn()
				break
			}
		}
	}
	m.call()
	m.c.Case(m.t, m.long > 0 && m.both[0]+m.both[1] > 1, "%s", m.hist.String())
	m.c.ClassIf(m.both[0] > 0 && m.both[1] > 0, "both verdicts")
	m.c.ClassIf(m.long > 3, "more than 3 long constraints")
}

func longSub(n int, proof bool, mix chainMix, steps int) *Sub {
	return sub("long", n, 4, 12, func(t *rapid.T, c *Ctx) { newLongM(t, c, proof).run(mix, steps) })
}
