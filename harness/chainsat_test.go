package harness

import (
	"fmt"
	"math/rand"
	"slices"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/sat"
	"pgregory.net/rapid"
)

// chainM drives one SAT solver over a chain of many variables.
type chainM struct {
	t      *rapid.T
	c      *Ctx
	ch     *Chain
	s      *sat.Solver
	cfg    *sat.Config
	kind   chainKind
	cur    []*ChainCon
	props  map[f.Proposition]*ChainCon
	states []*sat.SolverState
	snaps  [][]*ChainCon
	valid  []int
	hist   strings.Builder
	both   [2]bool // satisfiable / unsatisfiable results
	allP   bool    // everything is added as proposition
	temp   bool    // calls with additional formulas
	cancel int     // canceled operations
	pins   pins
}

func newChainM(t *rapid.T, c *Ctx, proof bool) *chainM {
	conserve := rapid.IntRange(0, 4).Draw(t, "conserve") == 4
	var fac f.Factory
	if conserve {
		fac = f.NewFactory(true)
	} else {
		fac = f.NewFactory()
	}
	m := &chainM{t: t, c: c, props: map[f.Proposition]*ChainCon{}}
	m.kind = chainKind{clauses: rapid.IntRange(0, 2).Draw(t, "clauses") == 0, g: Gen{Depth: 2, Consts: true, CC: true, PBC: true}, density: 12}
	cfg, cs := genSatConfig(t, proof)
	m.cfg = cfg
	m.ch = newChain(t, fac, rapid.IntRange(10, 90).Draw(t, "nv"), rapid.IntRange(1, 4).Draw(t, "window"))
	m.s = sat.NewSolver(fac, cfg)
	m.allP = proof
	m.log("nv=%d conserve=%v %s", m.ch.NV, conserve, cs)
	m.add(m.ch.NV * rapid.IntRange(1, 7).Draw(t, "density") / 10)
	return m
}

func (m *chainM) log(format string, args ...any) {
	if m.hist.Len() > 0 {
		m.hist.WriteString(" | ")
	}
	fmt.Fprintf(&m.hist, format, args...)
	m.c.Doing(m.hist.String())
	m.t.Logf(format, args...)
	m.pins.check(m.t.Fatalf)
}

func (m *chainM) add(n int) {
	var sb strings.Builder
	var xs []f.Formula
	for ; n > 0; n-- {
		con := m.ch.draw(m.t, m.kind)
		fmt.Fprintf(&sb, " [%s]", con.N.str(con.names))
		m.cur = append(m.cur, con)
		if m.allP || rapid.IntRange(0, 9).Draw(m.t, "prop") == 0 {
			p := f.NewStandardProposition(con.F)
			m.props[p] = con
			m.s.AddProposition(p)
		} else {
			xs = append(xs, con.F)
		}
	}
	m.log("add%s", sb.String())
	if len(xs) > 0 {
		m.s.Add(xs...)
	}
}

func (m *chainM) save() {
	m.log("save #%d", len(m.states))
	m.valid = append(m.valid, len(m.states))
	m.states = append(m.states, m.s.SaveState())
	m.snaps = append(m.snaps, slices.Clone(m.cur))
}

func (m *chainM) load() {
	if len(m.valid) == 0 {
		return
	}
	pos := rapid.IntRange(0, len(m.valid)-1).Draw(m.t, "state")
	i := m.valid[pos]
	m.log("load #%d", i)
	if err := m.s.LoadState(m.states[i]); err != nil {
		m.t.Fatalf("loading valid state #%d: %v", i, err)
	}
	m.valid = m.valid[:pos+1]
	m.cur = slices.Clone(m.snaps[i])
	m.c.Class("state loaded")
}

// genReq draws variables of the chain, often all.
func (m *chainM) genReq() ([]int, []f.Variable) {
	var is []int
	switch rapid.IntRange(0, 2).Draw(m.t, "req") {
	case 0:
		lo := rapid.IntRange(0, m.ch.NV-1).Draw(m.t, "lo")
		for v := lo; v < min(m.ch.NV, lo+rapid.IntRange(1, 20).Draw(m.t, "n")); v++ {
			is = append(is, v)
		}
	default:
		for v := 0; v < m.ch.NV; v++ {
			is = append(is, v)
		}
	}
	vs := make([]f.Variable, len(is))
	for i, v := range is {
		vs[i] = m.ch.Fac.Var(m.ch.Names[v])
	}
	return is, vs
}

func (m *chainM) known() map[int]bool {
	r := map[int]bool{}
	for _, v := range m.s.CoreSolver().KnownVariables(m.ch.Fac).Content() {
		name, _ := m.ch.Fac.VarName(v)
		if i, ok := m.ch.idx[name]; ok {
			r[i] = true
		}
	}
	return r
}

// checkModel checks that the model assigns the known requested variables and
// extends to a model of the constraints and the assumptions.
func (m *chainM) checkModel(what string, mdl *model.Model, req []int, known map[int]bool, ass map[int]bool, cons []*ChainCon) map[int]bool {
	if mdl == nil {
		m.t.Fatalf("%s: no model", what)
	}
	got := m.ch.model(m.t, mdl.Literals)
	in := map[int]bool{}
	for _, v := range req {
		in[v] = true
		if _, ok := got[v]; !ok && known[v] {
			m.t.Fatalf("%s: model lacks variable %s", what, m.ch.Names[v])
		}
	}
	both := map[int]bool{}
	for v, a := range got {
		if !in[v] {
			m.t.Fatalf("%s: model has variable %s, which was not requested", what, m.ch.Names[v])
		}
		if b, ok := ass[v]; ok && a != b {
			m.t.Fatalf("%s: model violates an assumption on %s", what, m.ch.Names[v])
		}
		both[v] = a
	}
	for v, a := range ass {
		both[v] = a
	}
	if !m.ch.sat(cons, both) {
		m.t.Fatalf("%s: model %s does not extend to a model", what, mdl.Sprint(m.ch.Fac))
	}
	return got
}

// genCancel draws a handler canceling one of the following events.
func (m *chainM) genCancel() *kHandler {
	h := &kHandler{k: rapid.IntRange(1, 40).Draw(m.t, "k"), sticky: rapid.Bool().Draw(m.t, "sticky")}
	if rapid.IntRange(0, 2).Draw(m.t, "late") == 0 {
		h.k *= 6
	}
	m.log("cancel at event %d sticky=%v:", h.k, h.sticky)
	return h
}

// canceled notes the state of an operation with a handler and reports whether
// it ended early.
func (m *chainM) canceled(what string, h *kHandler, st handler.State) bool {
	if st.Success == h.canceled {
		m.t.Fatalf("%s: success %v, but the handler canceled: %v", what, st.Success, h.canceled)
	}
	if !st.Success && st.CancelCause == nil {
		m.t.Fatalf("%s: no cause", what)
	}
	if h.canceled {
		m.cancel++
		m.c.Class("canceled " + what)
	}
	return h.canceled
}

func (m *chainM) call(h *kHandler) {
	ass, ls := m.ch.genAss(m.t, 6)
	p := sat.Params().Literal(ls...)
	if h != nil {
		p.Handler(h)
	}
	withModel, withUP, withCore := rapid.Bool().Draw(m.t, "model"), rapid.IntRange(0, 3).Draw(m.t, "up") == 0, false
	if m.allP && !m.cfg.UseAtMostClauses {
		withCore = rapid.IntRange(0, 3).Draw(m.t, "core") > 0
	}
	var req []int
	if withModel {
		var vs []f.Variable
		req, vs = m.genReq()
		p.WithModel(vs)
	}
	if withUP {
		p.WithUPZeros()
	}
	if withCore {
		p.WithCore()
	}
	var sb strings.Builder
	for _, l := range ls {
		sb.WriteString(" " + l.Sprint(m.ch.Fac))
	}
	cons, base := m.cur, slices.Clone(m.cur)
	var temps []*ChainCon
	if m.temp && rapid.IntRange(0, 2).Draw(m.t, "temps") == 0 {
		for i := rapid.IntRange(1, 3).Draw(m.t, "ntemps"); i > 0; i-- {
			con := m.ch.draw(m.t, m.kind)
			temps = append(temps, con)
			fmt.Fprintf(&sb, " [%s]", con.N.str(con.names))
			if rapid.Bool().Draw(m.t, "tempProp") {
				q := f.NewStandardProposition(con.F)
				m.props[q] = con
				p.Proposition(q)
			} else {
				p.Formula(con.F)
			}
			if con.F.Sort() != f.SortLiteral {
				base = append(base, con)
			}
		}
		cons = append(slices.Clone(m.cur), temps...)
		m.c.Class("call with additional formulas")
	}
	m.log("call%s model=%v up=%v core=%v", sb.String(), withModel, withUP, withCore)
	if h == nil && rapid.IntRange(0, 7).Draw(m.t, "reuse") == 0 {
		m.pins.result(m.s.Call(p))
		m.log("again")
	}
	r := m.s.Call(p)
	m.pins.result(r)
	if h != nil {
		if r.OK() == h.canceled || r.Canceled() != h.canceled {
			m.t.Fatalf("call: ok=%v, but the handler canceled: %v", r.OK(), h.canceled)
		}
		if h.canceled {
			m.cancel++
			m.c.Class("canceled call")
			if r.Model() != nil || r.UnsatCore() != nil {
				m.t.Fatalf("a canceled call returns a model or core")
			}
			return
		}
	}
	want := m.ch.sat(cons, ass)
	m.c.ClassIf(want, "satisfiable")
	m.c.ClassIf(!want, "unsatisfiable")
	if !r.OK() || r.Sat() != want {
		m.t.Fatalf("call%s: ok=%v sat=%v, expected %v", sb.String(), r.OK(), r.Sat(), want)
	}
	if want {
		m.both[0] = true
	} else {
		m.both[1] = true
	}
	if withModel && want {
		m.checkModel("call", r.Model(), req, m.known(), ass, cons)
	}
	if withCore && !want {
		m.core(r, ass, ls, temps)
	}
	if withUP && want {
		for _, l := range r.UpZeroLits() {
			name, pos, _ := m.ch.Fac.LitNamePhase(l)
			if v, ok := m.ch.idx[name]; ok && m.ch.sat(base, map[int]bool{v: !pos}) {
				m.t.Fatalf("zero-level literal %s is not implied", l.Sprint(m.ch.Fac))
			}
		}
	}
}

func (m *chainM) core(r sat.CallResult, ass map[int]bool, ls []f.Literal, temps []*ChainCon) {
	core := r.UnsatCore()
	if core == nil || len(core.Propositions) == 0 {
		m.t.Fatalf("no core")
	}
	var cons []*ChainCon
	used := map[int]bool{}
	type elem struct {
		con *ChainCon
		v   int
	}
	var elems []elem
	for i, p := range core.Propositions {
		if slices.Contains(core.Propositions[:i], p) {
			m.t.Fatalf("proposition twice in unsat core")
		}
		if con, ok := m.props[p]; ok {
			if !slices.Contains(m.cur, con) && !slices.Contains(temps, con) {
				m.t.Fatalf("core element %s is not on the solver", p.Sprint(m.ch.Fac))
			}
			cons = append(cons, con)
			elems = append(elems, elem{con, -1})
			continue
		}
		j := slices.IndexFunc(ls, func(l f.Literal) bool { return l.AsFormula() == p.Formula() })
		if k := slices.IndexFunc(temps, func(c *ChainCon) bool { return c.F == p.Formula() }); j < 0 && k >= 0 {
			cons = append(cons, temps[k])
			elems = append(elems, elem{temps[k], -1})
			continue
		}
		if j < 0 {
			m.t.Fatalf("core element %s was not added", p.Sprint(m.ch.Fac))
		}
		name, pos, _ := m.ch.Fac.LitNamePhase(ls[j])
		used[m.ch.idx[name]] = pos
		elems = append(elems, elem{nil, m.ch.idx[name]})
	}
	if m.ch.sat(cons, used) {
		m.t.Fatalf("unsat core of %d elements is satisfiable", len(core.Propositions))
	}
	m.c.Class("core checked")
	m.c.ClassIf(len(core.Propositions) >= 6, "core of at least 6 elements")
	if core.IsGuaranteedMUS {
		for _, x := range elems {
			part := slices.DeleteFunc(slices.Clone(cons), func(c *ChainCon) bool { return c == x.con })
			u := map[int]bool{}
			for v, a := range used {
				if v != x.v || x.con != nil {
					u[v] = a
				}
			}
			if !m.ch.sat(part, u) {
				m.t.Fatalf("core is marked as MUS, but not minimal")
			}
		}
	}
}

func (m *chainM) backbone(h *kHandler) {
	kind := pick(m.t, "bb", sat.BBBoth, sat.BBPos, sat.BBNeg)
	req, vs := m.genReq()
	m.log("backbone %v of %d variables", kind, len(req))
	var bb *sat.Backbone
	if h == nil {
		bb = m.s.ComputeBackbone(m.ch.Fac, vs, kind)
	} else {
		var st handler.State
		bb, st = m.s.ComputeBackboneWithHandler(m.ch.Fac, vs, h, kind)
		if m.canceled("backbone", h, st) {
			return
		}
	}
	m.pins.backbone(bb)
	want := m.ch.sat(m.cur, nil)
	if bb.Sat != want {
		m.t.Fatalf("backbone: sat=%v, expected %v", bb.Sat, want)
	}
	if !want {
		m.both[1] = true
		return
	}
	m.both[0] = true
	var exp [3][]string
	for _, v := range req {
		switch {
		case !m.ch.sat(m.cur, map[int]bool{v: false}):
			exp[0] = append(exp[0], m.ch.Names[v])
		case !m.ch.sat(m.cur, map[int]bool{v: true}):
			exp[1] = append(exp[1], m.ch.Names[v])
		default:
			exp[2] = append(exp[2], m.ch.Names[v])
		}
	}
	m.c.ClassIf(len(exp[0])+len(exp[1]) >= 10, "backbone of at least 10 literals")
	if kind == sat.BBPos {
		exp[1], exp[2] = nil, nil
	} else if kind == sat.BBNeg {
		exp[0], exp[2] = nil, nil
	}
	for i, part := range [][]f.Variable{bb.Positive, bb.Negative, bb.Optional} {
		var got []string
		for _, v := range part {
			name, _ := m.ch.Fac.VarName(v)
			got = append(got, name)
		}
		slices.Sort(got)
		slices.Sort(exp[i])
		if !slices.Equal(got, exp[i]) {
			m.t.Fatalf("backbone part %d of kind %v is %v, expected %v", i, kind, got, exp[i])
		}
	}
}

func (m *chainM) optimize(h *kHandler) {
	maximize := rapid.Bool().Draw(m.t, "max")
	obj := map[L]int{}
	var ls []f.Literal
	var is []int
	var ds []string
	put := func(v int, pos bool) {
		if maximize {
			obj[L{v, pos}]++
		} else {
			obj[L{v, !pos}]++
		}
		ls = append(ls, m.ch.lit(v, pos))
		is = append(is, v)
		ds = append(ds, ls[len(ls)-1].Sprint(m.ch.Fac))
	}
	switch rapid.IntRange(0, 2).Draw(m.t, "objective") {
	case 0:
		pos := rapid.Bool().Draw(m.t, "pos")
		lo := rapid.IntRange(0, m.ch.NV-1).Draw(m.t, "lo")
		for v := lo; v < min(m.ch.NV, lo+40); v++ {
			put(v, pos)
		}
	default:
		for i := rapid.IntRange(1, 25).Draw(m.t, "nlits"); i > 0; i-- {
			l := genLit(m.t, m.ch.NV)
			put(l.V, l.Pos)
		}
	}
	var add []f.Variable
	if rapid.Bool().Draw(m.t, "add") {
		var ai []int
		ai, add = m.genReq()
		is = append(is, ai...)
	}
	m.log("optimize max=%v %v additional=%d", maximize, ds, len(add))
	known := m.known()
	var mdl *model.Model
	st := handler.Success()
	switch {
	case h != nil && maximize:
		mdl, st = m.s.MaximizeWithHandler(ls, h, add...)
	case h != nil:
		mdl, st = m.s.MinimizeWithHandler(ls, h, add...)
	case maximize:
		mdl = m.s.Maximize(ls, add...)
	default:
		mdl = m.s.Minimize(ls, add...)
	}
	m.pins.model(mdl)
	if h != nil && m.canceled("optimization", h, st) {
		if mdl != nil {
			m.checkModel("canceled optimization", mdl, is, known, nil, m.cur)
		}
		return
	}
	best := m.ch.best(m.cur, nil, obj)
	if best < 0 {
		m.both[1] = true
		if mdl != nil {
			m.t.Fatalf("optimum of an unsatisfiable problem")
		}
		return
	}
	m.both[0] = true
	got := m.checkModel("optimization", mdl, is, known, nil, m.cur)
	if b := m.ch.best(m.cur, got, obj); b != best {
		m.t.Fatalf("optimum value %d, expected %d", b, best)
	}
	m.c.ClassIf(best >= 5, "optimum of at least 5")
}

// extract compares the formulas on the solver with the constraints at models,
// assignments close to them and random ones.
func (m *chainM) extract() {
	m.log("extract")
	fs := m.s.FormulasOnSolver()
	fac := m.ch.Fac
	r := newCNFReader(fac, m.ch.Names, m.ch.NV)
	count := map[f.Variable]int{}
	for _, x := range fs {
		for _, v := range f.Variables(fac, x).Content() {
			r.Lit(v.AsLiteral())
			count[v]++
		}
	}
	p := &projector{r: r, next: m.ch.NV + len(r.Aux), memo: map[f.Formula]int{}}
	for _, x := range fs {
		l := p.lit(x)
		p.clauses = append(p.clauses, []int{l})
	}
	s := newCNFS(p.next, p.clauses)
	s.Limit = 50000
	rnd := rand.New(rand.NewSource(int64(rapid.Uint32().Draw(m.t, "rnd"))))
	pts := m.ch.sample(m.cur, nil, 6, rnd)
	for _, q := range slices.Clone(pts) {
		q = slices.Clone(q)
		v := rnd.Intn(len(q))
		q[v] = !q[v]
		pts = append(pts, q)
	}
	for i := 0; i < 4; i++ {
		q := make([]bool, m.ch.NV)
		for v := range q {
			q[v] = rnd.Intn(2) == 0
		}
		pts = append(pts, q)
	}
	for _, q := range pts {
		want := true
		for _, con := range m.cur {
			want = want && con.eval(q)
		}
		as := make([]int, len(q))
		for v, b := range q {
			as[v] = 2 * v
			if !b {
				as[v]++
			}
		}
		if got := s.Sat(as...); got != want {
			m.t.Fatalf("the formulas on the solver are satisfied: %v, expected %v at %v", got, want, q)
		}
	}
	for v, k := range m.s.VarOccurrences(nil) {
		if k < count[v] || (k == 0) != (count[v] == 0) {
			m.t.Fatalf("variable %s occurs in %d clauses on the solver, reported %d", v.Sprint(fac), count[v], k)
		}
		delete(count, v)
	}
	if len(count) > 0 {
		m.t.Fatalf("no occurrence count for %d variables", len(count))
	}
	m.c.Class("extracted")
}

type chainMix struct{ add, save, load, call, bb, opt, ext, cancel int }

func (m *chainM) run(w chainMix, steps int) {
	m.temp = true
	for i := rapid.IntRange(2, steps).Draw(m.t, "steps"); i > 0; i-- {
		m.step(w)
	}
	if w.cancel > 0 {
		m.step(chainMix{cancel: 1})
		m.step(chainMix{call: 2, bb: 1, opt: 1, ext: 1})
	}
	m.pins.check(m.t.Fatalf)
	nt := m.both[0] && m.both[1] || m.both[0] && len(m.cur) > 10
	if w.cancel > 0 {
		nt = m.cancel > 0
	}
	m.c.Case(m.t, nt, "%s", m.hist.String())
	m.c.ClassIf(m.both[0] && m.both[1], "satisfiable and unsatisfiable in one history")
}

func (m *chainM) step(w chainMix) {
	k := rapid.IntRange(0, w.add+w.save+w.load+w.call+w.bb+w.opt+w.ext+w.cancel-1).Draw(m.t, "op")
	for j, n := range []int{w.add, w.save, w.load, w.call, w.bb, w.opt, w.ext, w.cancel} {
		if k -= n; k >= 0 {
			continue
		}
		switch j {
		case 0:
			m.add(rapid.IntRange(1, 4).Draw(m.t, "n"))
		case 1:
			m.save()
		case 2:
			m.load()
		case 3:
			m.call(nil)
		case 4:
			m.backbone(nil)
		case 5:
			m.optimize(nil)
		case 6:
			m.extract()
		default:
			h := m.genCancel()
			switch rapid.IntRange(0, 3).Draw(m.t, "what") {
			case 0:
				m.backbone(h)
			case 1:
				m.optimize(h)
			default:
				m.call(h)
			}
		}
		return
	}
}

// chainSub is the sub-check with many variables of the solver properties.
func chainSub(n int, proof bool, w chainMix, steps int) *Sub {
	return sub("chain", n, 4, 12, func(t *rapid.T, c *Ctx) { newChainM(t, c, proof).run(w, steps) })
}
