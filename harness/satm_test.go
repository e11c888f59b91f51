package harness

import (
	"fmt"
	"slices"
	"strings"

	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/sat"
	"pgregory.net/rapid"
)

func genSatConfig(t *rapid.T, proof bool) (*sat.Config, string) {
	c := sat.DefaultConfig()
	c.CNFMethod = pick(t, "cnf", sat.CNFPG, sat.CNFFullPG, sat.CNFFactory)
	c.ClauseMinimization = pick(t, "min", sat.ClauseMinDeep, sat.ClauseMinBasic, sat.ClauseMinNone)
	c.InitialPhase = rapid.Bool().Draw(t, "phase")
	c.ProofGeneration = proof || rapid.IntRange(0, 3).Draw(t, "proof") == 3
	c.UseAtMostClauses = !proof && rapid.Bool().Draw(t, "atmost")
	s := fmt.Sprintf("{%v %v phase=%v proof=%v atmost=%v", c.CNFMethod, c.ClauseMinimization, c.InitialPhase, c.ProofGeneration, c.UseAtMostClauses)
	if rapid.Bool().Draw(t, "lowlevel") {
		l := *c.LowLevelConfig
		l.VarDecay = pick(t, "vd", 0.95, 0.5, 0.8)
		l.ClauseDecay = pick(t, "cd", 0.999, 0.5)
		l.VarInc = pick(t, "vi", 1.0, 100)
		l.LBLBDMinimizingClause = pick(t, "lbm", 6, 0, 2, 30)
		l.LBLBDFrozenClause = pick(t, "lbf", 30, 0, 3)
		l.LBSizeMinimizingClause = pick(t, "lbs", 30, 0, 3)
		l.FirstReduceDB = pick(t, "frd", 2000, 2, 5, 20)
		l.SpecialIncReduceDB = pick(t, "sird", 1000, 1, 5)
		l.IncReduceDB = pick(t, "ird", 300, 1, 3)
		l.FactorK = pick(t, "fk", 0.8, 0.5, 0.95)
		l.FactorR = pick(t, "fr", 1.4, 1.0)
		l.SizeLBDQueue = pick(t, "lbdq", 50, 2, 5)
		l.SizeTrailQueue = pick(t, "tq", 5000, 2, 50)
		l.ReduceOnSize = rapid.Bool().Draw(t, "ros")
		l.ReduceOnSizeSize = pick(t, "ross", 12, 2)
		l.MaxVarDecay = pick(t, "mvd", 0.95, 0.99)
		c.LowLevelConfig = &l
		s += fmt.Sprintf(" low=%v", l)
	}
	return c, s + "}"
}

func genClauseN(t *rapid.T, nv, maxLen int) *N {
	k := rapid.IntRange(1, maxLen).Draw(t, "clen")
	if k == 1 {
		l := genLit(t, nv)
		return nLit(l.V, l.Pos)
	}
	n := nOp(OpOr)
	for i := 0; i < k; i++ {
		l := genLit(t, nv)
		n.Kids = append(n.Kids, nLit(l.V, l.Pos))
	}
	return n
}

// genSatN draws a formula for a solver.
func genSatN(t *rapid.T, nv int) *N {
	g := Gen{NV: nv, Consts: true, CC: true, PBC: true}
	switch k := rapid.IntRange(0, 9).Draw(t, "fkind"); {
	case k <= 4:
		return genClauseN(t, nv, 3)
	case k <= 7:
		g.Depth = rapid.IntRange(1, 3).Draw(t, "depth")
		return g.draw(t, "f")
	case k == 8:
		return g.cc(t)
	default:
		return g.pbc(t)
	}
}

// subPool remembers sub-formulas, so that later formulas of a history share
// parts with earlier ones.
type subPool struct{ ns []*N }

func (p *subPool) note(n *N) {
	if len(n.Kids) == 0 || len(p.ns) > 12 {
		return
	}
	p.ns = append(p.ns, n)
	for _, k := range n.Kids {
		p.note(k)
	}
}

func (p *subPool) draw(t *rapid.T, nv int) *N {
	if len(p.ns) == 0 || rapid.IntRange(0, 3).Draw(t, "share") != 3 {
		n := genSatN(t, nv)
		p.note(n)
		return n
	}
	s := p.ns[rapid.IntRange(0, len(p.ns)-1).Draw(t, "shared")]
	l := genLit(t, nv)
	lit := nLit(l.V, l.Pos)
	switch rapid.IntRange(0, 5).Draw(t, "shareKind") {
	case 0:
		return s
	case 1:
		return nOp(OpNot, s)
	case 2:
		return nOp(OpOr, lit, s)
	case 3:
		return nOp(OpImpl, s, lit)
	case 4:
		return nOp(OpEquiv, lit, s)
	default:
		return nOp(OpOr, lit, nOp(OpNot, s))
	}
}

// kHandler cancels at the k-th event (and all later ones if sticky).
type kHandler struct {
	k, seen  int
	sticky   bool
	canceled bool
}

func (h *kHandler) ShouldResume(event.Event) bool {
	h.seen++
	if h.k > 0 && (h.seen == h.k || h.sticky && h.seen > h.k) {
		h.canceled = true
		return false
	}
	return true
}

type added struct {
	n    *N
	x    f.Formula
	tt   TT
	prop f.Proposition
}

type satM struct {
	t      *rapid.T
	c      *Ctx
	e      *Env
	pool   subPool
	s      *sat.Solver
	cfg    *sat.Config
	cur    []added
	states []*sat.SolverState
	snaps  [][]added
	valid  []int
	hist   strings.Builder
	calls  int
	depth  int
	unsats int
	wantUP bool
	sinceL int
	pins   pins
}

func newSatM(t *rapid.T, c *Ctx, proof bool, lo, hi int) *satM {
	nv := rapid.IntRange(lo, hi).Draw(t, "nv")
	e := mkEnv(genNames(t), nv, rapid.IntRange(0, 4).Draw(t, "conserve") == 4)
	cfg, cs := genSatConfig(t, proof)
	m := &satM{t: t, c: c, e: e, cfg: cfg}
	es := ""
	if rapid.IntRange(0, 2).Draw(t, "encCfg") == 2 {
		ec, s := genEncConfig(t)
		e.Fac.PutConfiguration(ec)
		es = s
	}
	m.s = sat.NewSolver(e.Fac, cfg)
	m.log("%s %s%s", e.Mode, cs, es)
	return m
}

func (m *satM) log(format string, args ...any) {
	if m.hist.Len() > 0 {
		m.hist.WriteString(" | ")
	}
	fmt.Fprintf(&m.hist, format, args...)
	m.c.Doing(m.hist.String())
	m.t.Logf(format, args...)
	m.pins.check(m.t.Fatalf)
}

func (m *satM) fail(format string, args ...any) {
	m.t.Fatalf("%s", fmt.Sprintf(format, args...))
}

func (m *satM) want() TT {
	r := ttConst(m.e.NV, true)
	for _, a := range m.cur {
		r = r.And(a.tt)
	}
	return r
}

func (m *satM) mk(n *N, asProp bool) added {
	a := added{n: n, x: m.e.build(n), tt: n.TT(m.e.NV)}
	if asProp {
		switch rapid.IntRange(0, 2).Draw(m.t, "propKind") {
		case 0:
			a.prop = f.NewStandardProposition(a.x)
		case 1:
			a.prop = f.NewStandardProposition(a.x, fmt.Sprintf("P%d", m.depth))
			m.depth++
		default:
			a.prop = f.NewExtendedProposition(a.x, pack("p"))
		}
	}
	return a
}

type pack string

func (p pack) String() string { return string(p) }

func (m *satM) add(n *N, asProp bool) {
	a := m.mk(n, asProp)
	m.log("add(prop=%v) %s", asProp, m.e.nstr(n))
	if asProp {
		m.s.AddProposition(a.prop)
	} else {
		m.s.Add(a.x)
	}
	m.cur = append(m.cur, a)
}

// addAll adds several formulas or propositions with one call.
func (m *satM) addAll(ns []*N, asProp bool) {
	var xs []f.Formula
	var ps []f.Proposition
	for _, n := range ns {
		a := m.mk(n, asProp)
		xs = append(xs, a.x)
		ps = append(ps, a.prop)
		m.cur = append(m.cur, a)
	}
	m.log("add together(prop=%v) %s", asProp, m.e.nstrs(ns))
	if asProp {
		m.s.AddProposition(ps...)
	} else {
		m.s.Add(xs...)
	}
	// the lists belong to the caller
	clear(xs)
	clear(ps)
}

// addSome adds one formula of the pool, or several together.
func (m *satM) addSome(asProp bool) {
	if rapid.IntRange(0, 7).Draw(m.t, "some") > 0 {
		m.add(m.pool.draw(m.t, m.e.NV), asProp)
		return
	}
	ns := make([]*N, rapid.IntRange(0, 4).Draw(m.t, "together"))
	for i := range ns {
		ns[i] = m.pool.draw(m.t, m.e.NV)
	}
	m.addAll(ns, asProp)
}

func (m *satM) save() {
	st := m.s.SaveState()
	m.log("save #%d", len(m.states))
	m.valid = append(m.valid, len(m.states))
	m.states = append(m.states, st)
	m.snaps = append(m.snaps, slices.Clone(m.cur))
}

func (m *satM) load(i int) {
	pos := slices.Index(m.valid, i)
	m.log("load #%d (valid=%v)", i, pos >= 0)
	err := m.s.LoadState(m.states[i])
	if (err == nil) != (pos >= 0) {
		m.fail("loading state #%d (valid: %v): error %v", i, pos >= 0, err)
	}
	if pos < 0 {
		m.c.Class("invalid state rejected")
		return
	}
	m.valid = m.valid[:pos+1]
	m.cur = slices.Clone(m.snaps[i])
	m.c.Class("state loaded")
}

// checkModel checks a model for the requested variables against a function.
func (m *satM) checkModel(mdl *model.Model, req []f.Variable, want TT, what string) {
	t, e := m.t, m.e
	if mdl == nil {
		m.fail("%s: no model", what)
	}
	val, mask := e.litsAss(t, mdl.Literals)
	reqMask := 0
	for _, v := range req {
		reqMask |= 1 << e.varIdx(v)
	}
	if mask&^reqMask != 0 {
		m.fail("%s: model %s has variables that were not requested %s", what, mdl.Sprint(e.Fac), sprintMask(e, reqMask))
	}
	known := m.s.CoreSolver().KnownVariables(e.Fac)
	for v := 0; v < e.NV; v++ {
		if reqMask>>v&1 == 1 && mask>>v&1 == 0 && (known.Contains(e.v(v)) || want.DependsOn(v)) {
			m.fail("%s: model %s lacks variable %s", what, mdl.Sprint(e.Fac), e.Names[v])
		}
	}
	for i := 0; i < 1<<e.NV; i++ {
		if i&mask == val && want.Get(i) {
			return
		}
	}
	m.fail("%s: model %s is no (partial) model", what, mdl.Sprint(e.Fac))
}

func (m *satM) checkCore(props []f.Proposition, isMus bool, cur []added, temps []added, assume []f.Literal) {
	if len(props) == 0 {
		m.fail("empty unsat core")
	}
	t, e := m.t, m.e
	all := append(slices.Clone(cur), temps...)
	formula := ttConst(e.NV, true) // what was added without proposition
	for _, a := range all {
		if a.prop == nil {
			formula = formula.And(a.tt)
		}
	}
	// conjunction of the core without element skip
	var xs []f.Formula
	tts := make([]TT, len(props))
	clause := make([]bool, len(props))
	conj := func(skip int) TT {
		r := ttConst(e.NV, true)
		var cl []f.Formula
		for i := range props {
			if i == skip {
				continue
			}
			if clause[i] {
				cl = append(cl, xs[i])
			} else {
				r = r.And(tts[i])
			}
		}
		return r.And(project(e, cl...))
	}
	for i, p := range props {
		if p == nil {
			m.fail("nil proposition in unsat core")
		}
		if slices.Contains(props[:i], p) {
			m.fail("proposition twice in unsat core")
		}
		xs = append(xs, p.Formula())
		ok := false
		for _, a := range all {
			if a.prop == p {
				ok = true
				tts[i] = a.tt
			}
		}
		for _, a := range temps {
			if !ok && a.prop == nil && a.x == p.Formula() {
				ok = true
				tts[i] = a.tt
			}
		}
		for _, l := range assume {
			if !ok && p.Formula() == l.AsFormula() {
				ok = true
				tts[i] = e.tt(t, p.Formula())
			}
		}
		if !ok {
			// a clause of a formula added without proposition
			if !isClauseShape(e.Fac, p.Formula()) {
				m.fail("core element %s was not added", p.Sprint(e.Fac))
			}
			clause[i] = true
			foreign := false
			for _, v := range f.Variables(e.Fac, p.Formula()).Content() {
				foreign = foreign || e.varIdx(v) < 0
			}
			if !foreign && !formula.Imp(e.tt(t, p.Formula())).IsTrue() {
				m.fail("core element %s is not part of what was added", p.Sprint(e.Fac))
			}
		}
	}
	whole := conj(-1)
	if !whole.IsFalse() && len(m.pool.ns) > 0 && slices.Contains(clause, true) {
		// clauses of formulas without proposition may use auxiliary variables
		// defined by other formulas: judge with these formulas as a whole
		whole = formula
		for i := range props {
			if !clause[i] {
				whole = whole.And(tts[i])
			}
		}
		m.c.Class("core with shared auxiliary variables")
	}
	if !whole.IsFalse() {
		m.fail("unsat core %s is satisfiable", e.strs(xs))
	}
	if isMus {
		for i := range xs {
			if conj(i).IsFalse() {
				m.fail("core %s is marked as MUS, but not minimal", e.strs(xs))
			}
		}
	}
	m.c.Class("core checked")
	m.c.ClassIf(len(props) < len(all)+len(assume), "proper subset core")
}

func (e *Env) strs(xs []f.Formula) string {
	var r []string
	for _, x := range xs {
		r = append(r, e.str(x))
	}
	return strings.Join(r, " ; ")
}

func (m *satM) genReq() []f.Variable {
	return m.e.vars(genSubset(m.t, m.e.NV, 0))
}

// call performs a random call and checks its result.
func (m *satM) call(assumptions, formulas, verify bool) {
	t, e := m.t, m.e
	p := sat.Params()
	var assume []f.Literal
	var temps []added
	desc := ""
	base := m.want()
	want := base
	// one by one, or collected and handed over together
	together := rapid.IntRange(0, 2).Draw(t, "together") == 0
	var vars []f.Variable
	var lits []f.Literal
	var forms []f.Formula
	var props []f.Proposition
	if assumptions && rapid.IntRange(0, 2).Draw(t, "assume") > 0 {
		for i := rapid.IntRange(1, 5).Draw(t, "nassume"); i > 0; i-- {
			l := genLit(t, e.NV)
			lit := e.lit(l)
			desc += " " + lit.Sprint(e.Fac)
			want = want.And(ttLit(e.NV, l.V, l.Pos))
			assume = append(assume, lit)
			if l.Pos && rapid.Bool().Draw(t, "asVar") {
				vars = append(vars, lit.Variable())
				if !together {
					p.Variable(lit.Variable())
				}
			} else {
				lits = append(lits, lit)
				if !together {
					p.Literal(lit)
				}
			}
		}
	}
	if formulas && rapid.IntRange(0, 2).Draw(t, "formulas") == 0 {
		nform := rapid.IntRange(1, 2).Draw(t, "nform")
		if together {
			nform = rapid.IntRange(1, 5).Draw(t, "nform")
		}
		for i := nform; i > 0; i-- {
			a := m.mk(m.pool.draw(t, e.NV), rapid.Bool().Draw(t, "tempProp"))
			desc += " [" + e.nstr(a.n) + "]"
			want = want.And(a.tt)
			if a.x.Sort() != f.SortLiteral {
				base = base.And(a.tt)
			}
			temps = append(temps, a)
			if a.prop != nil {
				props = append(props, a.prop)
				if !together {
					p.Proposition(a.prop)
				}
			} else {
				forms = append(forms, a.x)
				if !together {
					p.Formula(a.x)
				}
			}
		}
	}
	if together {
		p.Variable(vars...).Literal(lits...).Formula(forms...).Proposition(props...)
		clear(vars)
		clear(lits)
		clear(forms)
		clear(props)
	}
	var req []f.Variable
	withModel, withUP, withCore := false, false, false
	if rapid.Bool().Draw(t, "withModel") {
		withModel = true
		req = m.genReq()
		p.WithModel(req)
	}
	if rapid.Bool().Draw(t, "withUP") {
		withUP = true
		p.WithUPZeros()
	}
	if m.cfg.ProofGeneration && !m.cfg.UseAtMostClauses && rapid.IntRange(0, 3).Draw(t, "withCore") > 0 {
		withCore = true
		p.WithCore()
	}
	if rapid.IntRange(0, 5).Draw(t, "nop") == 0 {
		p.Handler(handler.NopHandler)
	}
	m.log("call%s model=%v up=%v core=%v", desc, withModel, withUP, withCore)
	m.calls++
	if rapid.IntRange(0, 7).Draw(t, "reuse") == 0 {
		// the same parameters for two calls
		m.pins.result(m.s.Call(p))
		m.log("again")
		m.c.Class("parameters used twice")
	}
	r := m.s.Call(p)
	m.pins.result(r)
	if !verify {
		return
	}
	if !r.OK() || r.Canceled() {
		m.fail("call reported as canceled")
	}
	if r.Sat() != !want.IsFalse() {
		m.fail("call%s: sat=%v, expected %v", desc, r.Sat(), !want.IsFalse())
	}
	if !r.Sat() {
		m.unsats++
	}
	if withModel && r.Sat() {
		m.checkModel(r.Model(), req, want, "call"+desc)
		m.c.Class("model checked")
	} else if r.Model() != nil {
		m.fail("unexpected model")
	}
	if withCore && !r.Sat() {
		if r.UnsatCore() == nil {
			m.fail("no core")
		}
		m.checkCore(r.UnsatCore().Propositions, r.UnsatCore().IsGuaranteedMUS, m.cur, temps, assume)
	} else if r.UnsatCore() != nil {
		m.fail("unexpected core")
	}
	if withUP && r.Sat() {
		m.checkUP(r.UpZeroLits(), base)
	}
}

func (m *satM) checkUP(lits []f.Literal, base TT) {
	for _, l := range lits {
		name, _, _ := m.e.Fac.LitNamePhase(l)
		if i, ok := m.e.R.Idx[name]; !ok || i >= m.e.NV {
			continue
		}
		x := m.e.litIdx(m.t, l)
		if !base.Imp(ttLit(m.e.NV, x.V, x.Pos)).IsTrue() {
			m.fail("zero-level literal %s is not implied", l.Sprint(m.e.Fac))
		}
		m.c.Class("zero-level literal checked")
	}
	for _, a := range m.cur {
		if a.x.Sort() == f.SortLiteral && !slices.Contains(lits, f.Literal(a.x)) {
			m.fail("added unit %s is no zero-level literal", m.e.str(a.x))
		}
	}
}

func (m *satM) backbone(verify bool) {
	t, e := m.t, m.e
	kind := pick(t, "bb", sat.BBBoth, sat.BBPos, sat.BBNeg)
	req := m.genReq()
	if len(req) > 0 && rapid.IntRange(0, 5).Draw(t, "dupVar") == 0 && verify {
		req = slices.Clone(req)
		req[0], req[len(req)-1] = req[len(req)-1], req[0]
	}
	m.log("backbone %v %s", kind, fmt.Sprint(len(req)))
	var bb *sat.Backbone
	switch rapid.IntRange(0, 2).Draw(t, "bbh") {
	case 0:
		bb = m.s.ComputeBackbone(e.Fac, req, kind)
	case 1:
		if kind == sat.BBBoth {
			bb = m.s.ComputeBackbone(e.Fac, req)
			break
		}
		fallthrough
	default:
		b, st := m.s.ComputeBackboneWithHandler(e.Fac, req, &kHandler{}, kind)
		if !st.Success {
			m.fail("backbone canceled")
		}
		bb = b
	}
	m.pins.backbone(bb)
	if verify {
		m.checkBackbone(bb, kind, req, m.want())
	}
}

func (m *satM) checkBackbone(bb *sat.Backbone, kind sat.BackboneSort, req []f.Variable, want TT) {
	e := m.e
	if bb == nil {
		m.fail("no backbone")
	}
	if bb.Sat == want.IsFalse() {
		m.fail("backbone sat=%v, expected %v", bb.Sat, !want.IsFalse())
	}
	if want.IsFalse() {
		if bb.ToFormula(e.Fac) != e.Fac.Falsum() {
			m.fail("backbone formula %s of unsatisfiable formula", e.str(bb.ToFormula(e.Fac)))
		}
		if len(bb.CompleteBackbone(e.Fac)) != 0 {
			m.fail("backbone literals of unsatisfiable formula")
		}
		return
	}
	var pos, neg, opt []f.Variable
	for _, v := range req {
		i := e.varIdx(v)
		switch {
		case want.Imp(ttLit(e.NV, i, true)).IsTrue():
			pos = append(pos, v)
		case want.Imp(ttLit(e.NV, i, false)).IsTrue():
			neg = append(neg, v)
		default:
			opt = append(opt, v)
		}
	}
	if kind == sat.BBPos {
		neg, opt = nil, nil
	} else if kind == sat.BBNeg {
		pos, opt = nil, nil
	}
	same := func(what string, got, want []f.Variable) {
		a, b := slices.Clone(got), slices.Clone(want)
		slices.Sort(a)
		slices.Sort(b)
		if !slices.Equal(a, b) {
			m.fail("%s part of the backbone (kind %v) is %s, expected %s", what, kind, e.vstrs(got), e.vstrs(want))
		}
	}
	same("positive", bb.Positive, pos)
	same("negative", bb.Negative, neg)
	same("optional", bb.Optional, opt)
	tt := ttConst(e.NV, true)
	for _, v := range pos {
		tt = tt.And(ttLit(e.NV, e.varIdx(v), true))
	}
	for _, v := range neg {
		tt = tt.And(ttLit(e.NV, e.varIdx(v), false))
	}
	e.equals(m.t, "backbone formula", bb.ToFormula(e.Fac), tt)
	if len(bb.CompleteBackbone(e.Fac)) != len(pos)+len(neg) {
		m.fail("complete backbone has wrong size")
	}
	m.c.ClassIf(len(pos)+len(neg) > 0, "non-empty backbone")
}

func (e *Env) vstrs(vs []f.Variable) string {
	var r []string
	for _, v := range vs {
		r = append(r, v.Sprint(e.Fac))
	}
	return fmt.Sprint(r)
}

func (m *satM) extract() {
	t, e := m.t, m.e
	m.log("extract")
	fs := m.s.FormulasOnSolver()
	want := m.want()
	if got := project(e, fs...); !got.Equal(want) {
		d := got.Xor(want).Indices()[0]
		m.fail("formulas on solver %s: assignment %s extends to a model: %v, expected %v", e.strs(fs), e.assStr(d), got.Get(d), want.Get(d))
	}
	// variable occurrences
	count := map[f.Variable]int{}
	for _, x := range fs {
		for _, v := range f.Variables(e.Fac, x).Content() {
			count[v]++
		}
	}
	var filter *f.VarSet
	if rapid.Bool().Draw(t, "filter") {
		ms := f.NewMutableVarSet(m.genReq()...)
		filter = ms.AsImmutable()
	}
	occ := m.s.VarOccurrences(filter)
	for v, k := range occ {
		if filter != nil && !filter.Contains(v) {
			m.fail("occurrences contain variable %s, which was not requested", v.Sprint(e.Fac))
		}
		if k < count[v] || (k == 0) != (count[v] == 0) {
			m.fail("variable %s occurs in %d clauses on the solver, reported %d", v.Sprint(e.Fac), count[v], k)
		}
	}
	for v := range count {
		if _, ok := occ[v]; !ok && (filter == nil || filter.Contains(v)) {
			m.fail("no occurrence count for %s", v.Sprint(e.Fac))
		}
	}
	if filter != nil {
		for _, v := range filter.Content() {
			if _, ok := occ[v]; !ok {
				m.fail("no occurrence count for requested %s", v.Sprint(e.Fac))
			}
		}
	}
	m.c.Class("extracted")
}

// known reports whether the solver knows a variable.
func (m *satM) known(v f.Variable) bool {
	return m.s.CoreSolver().KnownVariables(m.e.Fac).Contains(v)
}

func (m *satM) optimize(verify bool) {
	t, e := m.t, m.e
	maximize := rapid.Bool().Draw(t, "max")
	var ls []f.Literal
	var lx []L
	for i := rapid.IntRange(0, 6).Draw(t, "nlits"); i > 0; i-- {
		l := genLit(t, e.NV)
		lx = append(lx, l)
		ls = append(ls, e.lit(l))
	}
	add := m.genReq()
	m.log("optimize max=%v %s add=%s", maximize, e.lstrs(ls), e.vstrs(add))
	var mdl *model.Model
	st := handler.Success()
	orig := slices.Clone(ls)
	knownBefore := m.s.CoreSolver().KnownVariables(e.Fac)
	if rapid.Bool().Draw(t, "hdl") {
		if maximize {
			mdl, st = m.s.MaximizeWithHandler(ls, &kHandler{}, add...)
		} else {
			mdl, st = m.s.MinimizeWithHandler(ls, &kHandler{}, add...)
		}
	} else if maximize {
		mdl = m.s.Maximize(ls, add...)
	} else {
		mdl = m.s.Minimize(ls, add...)
	}
	m.pins.model(mdl)
	if !verify {
		return
	}
	if !st.Success {
		m.fail("optimization canceled")
	}
	if !slices.Equal(ls, orig) {
		m.fail("literals were modified")
	}
	want := m.want()
	if want.IsFalse() {
		if mdl != nil {
			m.fail("optimum %s of an unsatisfiable formula", mdl.Sprint(e.Fac))
		}
		return
	}
	best := m.optimum(want, lx, maximize)
	if mdl == nil {
		m.fail("no model for a satisfiable formula")
	}
	req := slices.Clone(add)
	for _, l := range ls {
		req = append(req, l.Variable())
	}
	req2 := slices.DeleteFunc(slices.Clone(req), func(v f.Variable) bool { return !knownBefore.Contains(v) })
	m.checkModel(mdl, req, want, "optimization")
	val, mask := e.litsAss(t, mdl.Literals)
	for _, v := range req2 {
		if mask>>e.varIdx(v)&1 == 0 {
			m.fail("optimum %s lacks variable %s", mdl.Sprint(e.Fac), v.Sprint(e.Fac))
		}
	}
	// the best completion of the model (unassigned variables are free)
	got := m.optimum(want.And(ttCube(e.NV, val, mask)), lx, maximize)
	worst := m.optimum(want.And(ttCube(e.NV, val, mask)), lx, !maximize)
	if got != best || worst != best && len(req2) == len(req) {
		m.fail("optimum %s satisfies %d of %s, expected %d", mdl.Sprint(e.Fac), got, e.lstrs(ls), best)
	}
	m.c.ClassIf(best > 0 && best < len(ls), "non-trivial optimum")
}

func ttCube(nv, val, mask int) TT {
	r := ttConst(nv, true)
	for v := 0; v < nv; v++ {
		if mask>>v&1 == 1 {
			r = r.And(ttLit(nv, v, val>>v&1 == 1))
		}
	}
	return r
}

func (m *satM) optimum(want TT, lx []L, maximize bool) int {
	best := -1
	for _, i := range want.Indices() {
		k := 0
		for _, l := range lx {
			if (i>>l.V&1 == 1) == l.Pos {
				k++
			}
		}
		if best < 0 || maximize && k > best || !maximize && k < best {
			best = k
		}
	}
	return best
}

func (e *Env) lstrs(ls []f.Literal) string {
	var r []string
	for _, l := range ls {
		r = append(r, l.Sprint(e.Fac))
	}
	return fmt.Sprint(r)
}

func (m *satM) enumerate(verify bool) {
	vars := m.genReq()
	m.log("enumerate %s", m.e.vstrs(vars))
	if len(vars) == 0 {
		return
	}
	ms := enum.OnSolver(m.s, vars)
	if !verify {
		return
	}
	_ = ms
}

// incCC adds an incremental constraint and tightens it.
func (m *satM) incCC() {
	t, e := m.t, m.e
	vs := genSubset(t, e.NV, 2)
	upper := rapid.Bool().Draw(t, "upper")
	cmp := LE
	if !upper {
		cmp = GE
	}
	n := nCC(cmp, rapid.IntRange(0, len(vs)).Draw(t, "rhs"), vs...)
	x := e.build(n)
	if x.Sort() != f.SortCC {
		return
	}
	m.log("incremental %s", e.nstr(n))
	data, err := m.s.AddIncrementalCC(x)
	if err != nil {
		m.c.Class("trivial incremental constraint")
	}
	m.cur = append(m.cur, added{n: n, x: x, tt: n.TT(e.NV)})
	if data == nil {
		return
	}
	b := n.Rhs
	for i := rapid.IntRange(0, 2).Draw(t, "tighten"); i > 0; i-- {
		if upper {
			b--
		} else {
			b++
		}
		if b < 0 || b > len(vs) {
			return
		}
		k := nCC(cmp, b, vs...)
		m.log("tighten to %d", b)
		if upper {
			data.NewUpperBoundForSolver(b)
		} else {
			data.NewLowerBoundForSolver(b)
		}
		m.cur = append(m.cur, added{n: k, x: e.Fac.Verum(), tt: k.TT(e.NV)})
	}
}

var _ = encoding.DefaultConfig
