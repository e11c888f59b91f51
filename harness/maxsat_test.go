package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/sat"
	"pgregory.net/rapid"
)

type softN struct {
	n *N
	w int
}

func (s softN) str(e *Env) string { return fmt.Sprintf("%s:%d", e.nstr(s.n), s.w) }

type msAlg struct {
	name     string
	mk       func(fac f.Factory, cfg ...*maxsat.Config) *maxsat.Solver
	weighted bool
	unw      bool
}

var msAlgs = []msAlg{
	{"LinearSU", maxsat.LinearSU, true, true},
	{"OLL", maxsat.OLL, true, true},
	{"WBO", maxsat.WBO, true, true},
	{"IncWBO", maxsat.IncWBO, true, true},
	{"WMSU3", maxsat.WMSU3, true, false},
	{"MSU3", maxsat.MSU3, false, true},
	{"LinearUS", maxsat.LinearUS, false, true},
}

func genMsConfig(t *rapid.T) (*maxsat.Config, string) {
	c := maxsat.DefaultConfig()
	c.CNFMethod = pick(t, "cnf", sat.CNFFactory, sat.CNFPG, sat.CNFFullPG)
	c.IncrementalStrategy = pick(t, "inc", maxsat.IncNone, maxsat.IncIterative)
	c.WeightStrategy = pick(t, "ws", maxsat.WeightNone, maxsat.WeightNormal, maxsat.WeightDiversify)
	c.Symmetry = rapid.Bool().Draw(t, "sym")
	c.Limit = pick(t, "lim", c.Limit, 0, 1, 3)
	c.BMO = rapid.Bool().Draw(t, "bmo")
	return c, fmt.Sprintf("{%v %v %v sym=%v lim=%d bmo=%v}", c.CNFMethod, c.IncrementalStrategy, c.WeightStrategy, c.Symmetry, c.Limit, c.BMO)
}

// wboLimit bounds the events of a WBO computation.
const wboLimit = 5000

// explodes reports whether the effort of the algorithm may be exponential in
// the number of soft formulas (WBO splits weights: every core may double the
// soft formulas): such computations are bounded and decide nothing when they
// do not end.
func (a msAlg) explodes(softs int) bool {
	return strings.HasSuffix(a.name, "WBO") && softs > 4
}

// weightPool draws the weights used in one case.
func weightPool(t *rapid.T, weighted bool) []int {
	if !weighted {
		return []int{1}
	}
	return pick(t, "pool", []int{1, 2, 3}, []int{1, 2, 4, 8}, []int{2, 3, 5, 7}, []int{1, 10, 40}, []int{4}, []int{1, 1, 1, 6}, []int{3, 6, 12, 13}, []int{1, 2, 3, 4, 5, 6, 7, 8})
}

// genSoftN draws a soft formula: mostly literals and short clauses.
func genSoftN(t *rapid.T, nv int) *N {
	switch k := rapid.IntRange(0, 9).Draw(t, "skind"); {
	case k <= 5:
		return genClauseN(t, nv, 1)
	case k <= 7:
		return genClauseN(t, nv, 3)
	default:
		return genSatN(t, nv)
	}
}

// msOptimum is the reference: minimal weight of violated soft formulas.
func msOptimum(nv int, hard TT, softs []softN) (int, bool) {
	best, ok := 0, false
	tts := make([]TT, len(softs))
	for i, s := range softs {
		tts[i] = s.n.TT(nv)
	}
	for _, i := range hard.Indices() {
		cost := msCost(tts, softs, i)
		if !ok || cost < best {
			best, ok = cost, true
		}
	}
	return best, ok
}

func msCost(tts []TT, softs []softN, i int) int {
	cost := 0
	for k, s := range softs {
		if !tts[k].Get(i) {
			cost += s.w
		}
	}
	return cost
}

type msSnap struct {
	hard  TT
	softs []softN
	state *maxsat.SolverState
}

type msM struct {
	t       *rapid.T
	c       *Ctx
	e       *Env
	pool    subPool
	s       *maxsat.Solver
	alg     msAlg
	hard    TT
	nh      int
	softs   []softN
	states  []msSnap
	valid   []int
	hist    strings.Builder
	solves  int
	cancels int
	gaveUp  int
	pins    pins
	costs   int
	last    int
	lastOk  bool
}

func (m *msM) log(format string, args ...any) {
	if m.hist.Len() > 0 {
		m.hist.WriteString(" | ")
	}
	fmt.Fprintf(&m.hist, format, args...)
	m.c.Doing(m.hist.String())
	m.t.Logf(format, args...)
	m.pins.check(m.t.Fatalf)
}

func (m *msM) fail(format string, args ...any) {
	m.t.Fatalf("%s %s: %s", m.alg.name, m.hist.String(), fmt.Sprintf(format, args...))
}

func newMsM(t *rapid.T, c *Ctx, e *Env, alg msAlg) *msM {
	m := &msM{t: t, c: c, e: e, alg: alg, hard: ttConst(e.NV, true)}
	if rapid.Bool().Draw(t, "defCfg") {
		m.s = alg.mk(e.Fac)
		m.log("%s %s default", alg.name, e.Mode)
	} else {
		cfg, cs := genMsConfig(t)
		if rapid.IntRange(0, 4).Draw(t, "facCfg") == 0 && (alg.name == "WBO" || alg.name == "IncWBO" || alg.name == "MSU3" || alg.name == "LinearUS") {
			e.Fac.PutConfiguration(cfg)
			m.s = alg.mk(e.Fac)
		} else {
			m.s = alg.mk(e.Fac, cfg)
		}
		m.log("%s %s %s", alg.name, e.Mode, cs)
	}
	if m.s.SupportsWeighted() != alg.weighted || m.s.SupportsUnweighted() != alg.unw {
		m.fail("supported problem types are reported wrongly")
	}
	return m
}

func (m *msM) addHard(n *N) {
	m.log("hard %s", m.e.nstr(n))
	m.s.AddHardFormula(m.e.build(n))
	m.hard = m.hard.And(n.TT(m.e.NV))
	m.nh++
}

func (m *msM) addSoft(s softN) {
	m.log("soft %s", s.str(m.e))
	if err := m.s.AddSoftFormula(m.e.build(s.n), s.w); err != nil {
		m.fail("soft formula rejected: %v", err)
	}
	m.softs = append(m.softs, s)
}

func (m *msM) save() {
	m.log("save%d", len(m.states))
	m.valid = append(m.valid, len(m.states))
	m.states = append(m.states, msSnap{m.hard, slices.Clone(m.softs), m.s.SaveState()})
}

func (m *msM) load(i int) {
	m.log("load%d", i)
	err := m.s.LoadState(m.states[i].state)
	k := slices.Index(m.valid, i)
	if k < 0 {
		if err == nil {
			m.fail("loading an invalid state was accepted")
		}
		m.c.Class("invalid state rejected")
		return
	}
	if err != nil {
		m.fail("loading a valid state failed: %v", err)
	}
	m.valid = m.valid[:k+1]
	m.hard = m.states[i].hard
	m.softs = slices.Clone(m.states[i].softs)
}

// solvable reports whether the algorithm supports the current problem.
func (m *msM) solvable() bool {
	w := false
	for _, s := range m.softs {
		w = w || s.w > 1
	}
	return w && m.alg.weighted || !w && m.alg.unw
}

type boundHandler struct {
	m      *msM
	inner  *kHandler
	opt    int
	sat    bool
	bounds int
}

func (h *boundHandler) ShouldResume(e event.Event) bool {
	switch b := e.(type) {
	case maxsat.EventMaxSatNewLowerBound:
		h.bounds++
		if h.sat && b.Bound > h.opt {
			h.m.fail("reported lower bound %d above the optimum %d", b.Bound, h.opt)
		}
	case maxsat.EventMaxSatNewUpperBound:
		h.bounds++
		if !h.sat || b.Bound < h.opt {
			h.m.fail("reported upper bound %d below the optimum %d (satisfiable %v)", b.Bound, h.opt, h.sat)
		}
	}
	if h.inner == nil {
		return true
	}
	return h.inner.ShouldResume(e)
}

func (m *msM) solve(cancelAt int) {
	if !m.solvable() {
		return
	}
	opt, ok := msOptimum(m.e.NV, m.hard, m.softs)
	if cancelAt > 0 {
		h := &kHandler{k: cancelAt, sticky: rapid.Bool().Draw(m.t, "sticky")}
		m.log("solve cancel@%d", cancelAt)
		res, st := m.s.SolveWithHandler(&boundHandler{m, h, opt, ok, 0})
		if h.canceled != !st.Success {
			m.fail("canceled=%v but state %+v", h.canceled, st)
		}
		if !st.Success {
			m.cancels++
			if st.CancelCause == nil {
				m.fail("canceled without a cause")
			}
			if res.Satisfiable || res.Model != nil {
				m.fail("canceled solve returns a verdict %+v", res)
			}
			return
		}
		m.check(res, opt, ok)
		return
	}
	if m.alg.explodes(len(m.softs)) {
		m.log("solve bounded")
		h := &kHandler{k: wboLimit, sticky: true}
		res, st := m.s.SolveWithHandler(&boundHandler{m, h, opt, ok, 0})
		if h.canceled {
			m.gaveUp++
			return
		}
		if !st.Success {
			m.fail("state %+v without cancelation", st)
		}
		m.check(res, opt, ok)
		return
	}
	switch rapid.IntRange(0, 2).Draw(m.t, "how") {
	case 0:
		m.log("solve")
		m.check(m.s.Solve(), opt, ok)
	case 1:
		m.log("solve nop")
		res, st := m.s.SolveWithHandler(handler.NopHandler)
		if !st.Success {
			m.fail("state %+v without cancelation", st)
		}
		m.check(res, opt, ok)
	default:
		m.log("solve observed")
		res, st := m.s.SolveWithHandler(&boundHandler{m, nil, opt, ok, 0})
		if !st.Success {
			m.fail("state %+v without cancelation", st)
		}
		m.check(res, opt, ok)
	}
}

func (m *msM) check(res maxsat.Result, opt int, ok bool) {
	m.solves++
	m.last, m.lastOk = opt, ok
	m.pins.model(res.Model)
	if opt > 0 {
		m.costs++
	}
	if res.Satisfiable != ok {
		m.fail("satisfiable %v, expected %v", res.Satisfiable, ok)
	}
	if !ok {
		if res.Optimum != -1 || res.Model != nil {
			m.fail("result %+v for unsatisfiable hard formulas", res)
		}
		return
	}
	if res.Optimum != opt {
		m.fail("optimum %d, expected %d", res.Optimum, opt)
	}
	if res.Model == nil {
		m.fail("no model")
	}
	val, mask := 0, 0
	for _, l := range res.Model.Literals {
		name, phase, lok := m.e.Fac.LitNamePhase(l)
		if !lok {
			m.fail("literal without name")
		}
		if strings.HasPrefix(name, "@SEL") {
			m.fail("model contains selector %s", name)
		}
		if i, known := m.e.R.Idx[name]; known && i < m.e.NV {
			if mask>>i&1 == 1 {
				m.fail("model assigns %s twice", name)
			}
			mask |= 1 << i
			if phase {
				val |= 1 << i
			}
		}
	}
	tts := make([]TT, len(m.softs))
	for i, s := range m.softs {
		tts[i] = s.n.TT(m.e.NV)
		for _, v := range varsOf(s.n) {
			if mask>>v&1 == 0 && tts[i].DependsOn(v) {
				m.fail("model %s misses variable %s of soft formula %s", m.e.str(res.Model.Formula(m.e.Fac)), m.e.Names[v], m.e.nstr(s.n))
			}
		}
	}
	// variables not assigned are irrelevant: every completion attains the optimum
	for i := 0; i < 1<<m.e.NV; i++ {
		if i&mask != val {
			continue
		}
		if !m.hard.Get(i) {
			m.fail("model %s violates the hard formulas", m.e.str(res.Model.Formula(m.e.Fac)))
		}
		if c := msCost(tts, m.softs, i); c != opt {
			m.fail("model %s has cost %d, expected %d", m.e.str(res.Model.Formula(m.e.Fac)), c, opt)
		}
	}
}

func genMsProblem(t *rapid.T, nv int, weighted bool) (hards []*N, softs []softN) {
	pool := weightPool(t, weighted)
	kh := rapid.IntRange(0, 2*nv).Draw(t, "kh")
	plain := rapid.Bool().Draw(t, "plain")
	for i := 0; i < kh; i++ {
		if plain {
			hards = append(hards, genClauseN(t, nv, 3))
		} else {
			hards = append(hards, genSatN(t, nv))
		}
	}
	ks := rapid.IntRange(0, 2*nv).Draw(t, "ks")
	for i := 0; i < ks; i++ {
		if plain {
			softs = append(softs, softN{genClauseN(t, nv, 2), pick(t, "w", pool...)})
		} else {
			softs = append(softs, softN{genSoftN(t, nv), pick(t, "w", pool...)})
		}
	}
	return
}

// genMsStructured draws unit soft formulas (every variable in one preferred
// phase, weights from one pool) under overlapping hard constraints: bounds on
// the number of preferred literals in subsets, mutual exclusions and clauses.
func genMsStructured(t *rapid.T, nv int, weighted bool) (hards []*N, softs []softN) {
	phase := rapid.IntRange(0, 2).Draw(t, "phase")
	pref := make([]bool, nv)
	for v := range pref {
		pref[v] = phase == 0 || phase == 2 && rapid.Bool().Draw(t, "p")
	}
	pool := weightPool(t, weighted)
	for v := 0; v < nv; v++ {
		softs = append(softs, softN{nLit(v, pref[v]), pick(t, "w", pool...)})
	}
	for i := rapid.IntRange(0, 3).Draw(t, "extra"); i > 0; i-- {
		softs = append(softs, softN{genClauseN(t, nv, 3), pick(t, "w", pool...)})
	}
	for i := rapid.IntRange(1, 3).Draw(t, "bounds"); i > 0; i-- {
		vs := genPerm(t, nv, "sub")[:rapid.IntRange(2, nv).Draw(t, "k")]
		n := nCC(pick(t, "cmp", LE, LE, LT, EQ), rapid.IntRange(0, len(vs)-1).Draw(t, "rhs"), vs...)
		if phase == 2 {
			n = &N{Op: OpPBC, Cmp: LE, Rhs: n.Rhs}
			for _, v := range vs {
				n.Lits = append(n.Lits, L{v, pref[v]})
				n.Cs = append(n.Cs, 1)
			}
		} else if phase == 1 {
			n.Cmp, n.Rhs = GE, rapid.IntRange(1, len(vs)).Draw(t, "lo")
		}
		hards = append(hards, n)
	}
	for i := rapid.IntRange(0, nv).Draw(t, "excl"); i > 0; i-- {
		a, b := rapid.IntRange(0, nv-1).Draw(t, "a"), rapid.IntRange(0, nv-1).Draw(t, "b")
		hards = append(hards, nOp(OpOr, nLit(a, !pref[a]), nLit(b, !pref[b])))
	}
	for i := rapid.IntRange(0, 3).Draw(t, "cls"); i > 0; i-- {
		hards = append(hards, genClauseN(t, nv, 3))
	}
	return
}

var _ = registerProp("M01", "hard formulas and weighted soft formulas (weights from stratified, coprime, equal and mixed pools, beyond 32 bits for OLL, WBO and IncWBO) x algorithms x configurations; optimum, model and reported bounds against exhaustive evaluation, also after loading the problem from a WCNF / CNF file, and on problems over tens of variables with a chain structure (oracle: dynamic programming) or of groups of literals under shared bounds (oracle: sum of the smallest weights); non-trivial: satisfiable hard formulas with a positive optimum",
	sub("long", 200, 4, 12, m01Long),
	sub("groups", 300, 4, 12, func(t *rapid.T, c *Ctx) { msGroups(t, c, 0) }),
	sub("optimum", 6000, 6, 12, func(t *rapid.T, c *Ctx) {
		alg := pick(t, "alg", msAlgs...)
		nv := rapid.IntRange(1, 8).Draw(t, "nv")
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 4).Draw(t, "conserve") == 4)
		m := newMsM(t, c, e, alg)
		weighted := alg.weighted && (!alg.unw || rapid.IntRange(0, 3).Draw(t, "unw") < 3)
		hs, ss := genMsProblem(t, nv, weighted)
		for _, s := range ss {
			if rapid.IntRange(0, 1).Draw(t, "order") == 0 && len(hs) > 0 {
				m.addHard(hs[0])
				hs = hs[1:]
			}
			m.addSoft(s)
		}
		for _, h := range hs {
			m.addHard(h)
		}
		m.solve(0)
		c.Case(t, m.lastOk && m.last > 0, "%s", m.hist.String())
		c.Class(alg.name)
		c.ClassIf(m.solves > 0 && !m.lastOk, "unsatisfiable")
	}),
	sub("agree", 3000, 5, 12, func(t *rapid.T, c *Ctx) {
		// larger clause instances: every algorithm on the same problem
		nv := rapid.IntRange(4, 11).Draw(t, "nv")
		names := genNamesN(nv)
		weighted := rapid.IntRange(0, 2).Draw(t, "wtd") > 0
		pool := weightPool(t, weighted)
		var hs []*N
		var ss []softN
		for i := rapid.IntRange(0, 3*nv).Draw(t, "kh"); i > 0; i-- {
			hs = append(hs, genClauseN(t, nv, 3))
		}
		for i := rapid.IntRange(1, 3*nv).Draw(t, "ks"); i > 0; i-- {
			ss = append(ss, softN{genClauseN(t, nv, 2), pick(t, "w", pool...)})
		}
		alg := pick(t, "alg", msAlgs...)
		e := mkEnv(names, nv, false)
		m := newMsM(t, c, e, alg)
		for _, h := range hs {
			m.addHard(h)
		}
		for _, s := range ss {
			m.addSoft(s)
		}
		m.solve(0)
		c.Case(t, m.lastOk && m.last > 0, "%s", m.hist.String())
		c.Class(alg.name)
	}),
	sub("structured", 1500, 6, 12, func(t *rapid.T, c *Ctx) {
		// unit soft formulas under overlapping hard constraints: large cores
		// which have to be relaxed repeatedly
		weighted := rapid.IntRange(0, 2).Draw(t, "wtd") > 0
		var usable []msAlg
		for _, a := range msAlgs {
			if weighted && a.weighted || !weighted && a.unw {
				usable = append(usable, a)
			}
		}
		alg := usable[rapid.IntRange(0, len(usable)-1).Draw(t, "alg")]
		maxNV := 11
		if strings.HasSuffix(alg.name, "WBO") {
			maxNV = 6 // one relaxation variable per soft formula and core
		}
		nv := rapid.IntRange(4, maxNV).Draw(t, "nv")
		hs, ss := genMsStructured(t, nv, weighted)
		e := mkEnv(genNamesN(nv), nv, false)
		m := newMsM(t, c, e, alg)
		for _, h := range hs {
			m.addHard(h)
		}
		for _, s := range ss {
			m.addSoft(s)
		}
		m.solve(0)
		c.Case(t, m.lastOk && m.last > 0, "%s", m.hist.String())
		c.Class(alg.name)
	}),
	sub("large weights", 1500, 3, 12, func(t *rapid.T, c *Ctx) {
		// only the core-guided algorithms do not encode the weights
		alg := pick(t, "alg", slices.DeleteFunc(slices.Clone(msAlgs), func(a msAlg) bool {
			return !strings.HasSuffix(a.name, "WBO") && a.name != "OLL"
		})...)
		nv := rapid.IntRange(2, 6).Draw(t, "nv")
		e := mkEnv(genNamesN(nv), nv, false)
		m := newMsM(t, c, e, alg)
		var hs []*N
		var ss []softN
		if rapid.Bool().Draw(t, "structured") {
			hs, ss = genMsStructured(t, nv, true)
		} else {
			hs, ss = genMsProblem(t, nv, true)
		}
		shift := rapid.IntRange(8, 48).Draw(t, "shift")
		for _, h := range hs {
			m.addHard(h)
		}
		for _, s := range ss {
			s.w = s.w<<shift + rapid.IntRange(0, 3).Draw(t, "noise")
			m.addSoft(s)
		}
		m.solve(0)
		c.Case(t, m.lastOk && m.last > 0, "%s", m.hist.String())
		c.Class(alg.name)
		c.ClassIf(m.gaveUp > 0, "not decided within the event limit")
		c.ClassIf(m.last > 1<<31, "optimum of more than 32 bits")
	}),
	sub("files", 1500, 2, 12, func(t *rapid.T, c *Ctx) {
		nv := rapid.IntRange(1, 6).Draw(t, "nv")
		names := make(Names, nv)
		for i := range names {
			names[i] = fmt.Sprintf("v%d", i+1)
		}
		e := mkEnv(names, nv, false)
		alg := pick(t, "alg", msAlgs...)
		pure := alg.unw && rapid.IntRange(0, 2).Draw(t, "pure") == 0
		pool := weightPool(t, alg.weighted && !pure)
		hardW := 1000
		var sb strings.Builder
		for rapid.IntRange(0, 3).Draw(t, "comment") == 0 {
			sb.WriteString("c a comment line\n")
		}
		n := rapid.IntRange(1, 12).Draw(t, "clauses")
		var hs []*N
		var ss []softN
		noTop := !pure && rapid.IntRange(0, 4).Draw(t, "noTop") == 0
		switch {
		case pure:
			fmt.Fprintf(&sb, "p cnf %d %d\n", nv, n)
		case noTop:
			fmt.Fprintf(&sb, "p wcnf %d %d\n", nv, n)
		default:
			fmt.Fprintf(&sb, "p wcnf %d %d %d\n", nv, n, hardW)
		}
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 9).Draw(t, "inner") == 0 {
				sb.WriteString(pick(t, "noise", "c inner comment\n", "\n", "   \n"))
			}
			cl := genClauseN(t, nv, 3)
			soft := pure || noTop || rapid.Bool().Draw(t, "soft")
			w := hardW
			if soft {
				w = pick(t, "w", pool...)
				ss = append(ss, softN{cl, w})
			} else {
				hs = append(hs, cl)
			}
			sep := pick(t, "sep", " ", " ", "  ", "\t")
			var toks []string
			if !pure {
				toks = append(toks, fmt.Sprint(w))
			}
			ls, _ := nOp(OpOr, cl).allLits()
			if cl.Op != OpLit {
				ls, _ = cl.allLits()
			}
			for _, l := range ls {
				k := l.V + 1
				if !l.Pos {
					k = -k
				}
				toks = append(toks, fmt.Sprint(k))
			}
			toks = append(toks, "0")
			sb.WriteString(strings.Join(toks, sep) + "\n")
		}
		dir, done := scratch(t)
		defer done()
		path := filepath.Join(dir, "p.wcnf")
		if err := os.WriteFile(path, []byte(sb.String()), 0o644); err != nil {
			t.Skip("no scratch")
		}
		m := &msM{t: t, c: c, e: e, alg: alg, hard: conj(nv, hs), softs: ss}
		m.s = alg.mk(e.Fac)
		m.log("%s file %q", alg.name, sb.String())
		if err := maxsat.ReadDimacsToSolver(e.Fac, m.s, path); err != nil {
			m.fail("reading failed: %v", err)
		}
		m.solve(0)
		c.Case(t, m.lastOk && m.last > 0, "%s", m.hist.String())
		if err := maxsat.ReadDimacsToSolver(e.Fac, m.s, filepath.Join(dir, "missing")); err == nil {
			m.fail("missing file accepted")
		}
	}),
	sub("chain", 300, 4, 12, m01Chain),
)

var _ = registerProp("M02", "histories of adding hard and soft formulas, solving, canceled solves (at every event index), saving and loading (valid and invalid) states per algorithm and configuration; each verdict against exhaustive evaluation of the formulas currently on the solver, and on problems over tens of variables with a chain structure (oracle: dynamic programming) or of groups of literals under bounds tightened between solves (oracle: sum of the smallest weights); non-trivial: at least 2 verdicts and a canceled solve, a loaded state or a changed optimum",
	sub("chain", 700, 4, 12, m02Chain),
	sub("groups", 200, 4, 12, func(t *rapid.T, c *Ctx) { msGroups(t, c, 12) }),
	sub("history", 4000, 8, 12, func(t *rapid.T, c *Ctx) {
		alg := pick(t, "alg", msAlgs...)
		nv := rapid.IntRange(1, 6).Draw(t, "nv")
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 4).Draw(t, "conserve") == 4)
		m := newMsM(t, c, e, alg)
		pool := weightPool(t, alg.weighted && (!alg.unw || rapid.IntRange(0, 3).Draw(t, "unw") < 3))
		n := rapid.IntRange(4, 20).Draw(t, "n")
		loads := 0
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 15).Draw(t, "op"); {
			case k <= 2:
				if rapid.IntRange(0, 7).Draw(t, "some") > 0 {
					m.addHard(m.pool.draw(t, nv))
					break
				}
				// several together
				var xs []f.Formula
				for j := rapid.IntRange(0, 4).Draw(t, "together"); j > 0; j-- {
					n := m.pool.draw(t, nv)
					m.log("hard together %s", e.nstr(n))
					xs = append(xs, e.build(n))
					m.hard = m.hard.And(n.TT(nv))
					m.nh++
				}
				m.s.AddHardFormula(xs...)
				clear(xs)
			case k <= 6:
				if k == 6 {
					m.addSoft(softN{m.pool.draw(t, nv), pick(t, "w", pool...)})
				} else {
					m.addSoft(softN{genSoftN(t, nv), pick(t, "w", pool...)})
				}
			case k <= 8:
				m.save()
			case k <= 10:
				if len(m.states) > 0 {
					m.load(rapid.IntRange(0, len(m.states)-1).Draw(t, "state"))
					loads++
				}
			case k <= 12:
				m.solve(rapid.IntRange(1, 12).Draw(t, "at"))
			case k == 13:
				if err := m.s.AddSoftFormula(e.build(genSoftN(t, nv)), rapid.IntRange(-2, 0).Draw(t, "badW")); err == nil {
					m.fail("non-positive weight accepted")
				}
			default:
				m.solve(0)
			}
		}
		m.solve(0)
		c.Case(t, m.solves >= 2 && (m.cancels > 0 || loads > 0 || m.costs > 0), "%s", m.hist.String())
		c.Class(alg.name)
		c.ClassIf(m.gaveUp > 0, "not decided within the event limit")
		c.ClassIf(m.cancels > 0, "canceled solve")
		c.ClassIf(loads > 0 && m.solves > 1, "loaded state")
	}),
)
