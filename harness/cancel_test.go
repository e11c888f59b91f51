package harness

import (
	"fmt"
	"math/big"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
	"pgregory.net/rapid"
)

var _ = registerProp("H01",
	"every handler-taking computation canceled at several (or all) of its events on one factory, solver or kernel, then run to the end; non-trivial: at least 3 events and at least one cancelation",
	sub("sweep", 4000, 8, 12, h01Sweep),
	sub("builtin", 4000, 2, 12, h01Builtin))

// recHandler records the events and cancels at the k-th one.
type recHandler struct {
	kHandler
	events []event.Event
	cause  event.Event
	onBdd  func()
}

func (h *recHandler) ShouldResume(e event.Event) bool {
	h.events = append(h.events, e)
	ok := h.kHandler.ShouldResume(e)
	if !ok && h.cause == nil {
		h.cause = e
	}
	return ok
}

// sameEvent compares events; some of them are not comparable with ==.
func sameEvent(a, b event.Event) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return reflect.TypeOf(a) == reflect.TypeOf(b) && a.EventType() == b.EventType()
}

// hInput is the generated input of a computation.
type hInput struct {
	n     *N
	ns    []*N
	want  TT
	sort  int
	flag  bool
	softs []softN
	alg   msAlg
	strat func(e *Env) iter.Strategy
	vars  []int
}

// hState is the environment with the objects living across the runs.
type hState struct {
	e      *Env
	solver *sat.Solver
	ms     *maxsat.Solver
	kernel *bdd.Kernel
	pl     *propList
	keep   *bdd.BDD
}

// hRun computes; a nil handler uses the variant without one.
type hRun func(s *hState, in *hInput, h handler.Handler) (string, handler.State, func())

type hComp struct {
	name string
	gen  string // how the input is generated
	det  bool   // the result is the same for equal factories
	run  func(t *rapid.T, c *Ctx) hRun
}

func (s *hState) formula(in *hInput) f.Formula { return s.e.build(in.n) }

func (s *hState) satSolver(in *hInput) *sat.Solver {
	if s.solver == nil {
		s.solver = sat.NewSolver(s.e.Fac)
		for _, n := range in.ns {
			s.solver.Add(s.e.build(n))
		}
	}
	return s.solver
}

// form wraps a computation with a formula as result.
func hForm(plain func(f.Factory, f.Formula) f.Formula, hdl func(f.Factory, f.Formula, handler.Handler) (f.Formula, handler.State),
	check func(t *rapid.T, c *Ctx, e *Env, in *hInput, x, y f.Formula)) func(t *rapid.T, c *Ctx) hRun {
	return func(t *rapid.T, c *Ctx) hRun {
		return func(s *hState, in *hInput, h handler.Handler) (string, handler.State, func()) {
			x := s.formula(in)
			var y f.Formula
			st := handler.Success()
			if h == nil {
				y = plain(s.e.Fac, x)
			} else {
				y, st = hdl(s.e.Fac, x, h)
			}
			if !st.Success {
				return "", st, nil
			}
			return s.e.str(y), st, func() { check(t, c, s.e, in, x, y) }
		}
	}
}

func hShape(shape func(f.Factory, f.Formula) bool, exact bool) func(t *rapid.T, c *Ctx, e *Env, in *hInput, x, y f.Formula) {
	return func(t *rapid.T, c *Ctx, e *Env, in *hInput, x, y f.Formula) {
		if shape != nil && !shape(e.Fac, y) {
			t.Fatalf("%s is not in the promised form", e.str(y))
		}
		sameFunc(t, e, "result", y, in.want, exact)
	}
}

func withErr(g func(f.Factory, f.Formula) (f.Formula, error)) func(f.Factory, f.Formula) f.Formula {
	return func(fac f.Factory, x f.Formula) f.Formula {
		y, err := g(fac, x)
		if err != nil {
			panic(err)
		}
		return y
	}
}

func withErrH(g func(f.Factory, f.Formula, handler.Handler) (f.Formula, error, handler.State)) func(f.Factory, f.Formula, handler.Handler) (f.Formula, handler.State) {
	return func(fac f.Factory, x f.Formula, h handler.Handler) (f.Formula, handler.State) {
		y, err, st := g(fac, x, h)
		if err != nil {
			panic(err)
		}
		return y, st
	}
}

func hBDD(mode int) func(t *rapid.T, c *Ctx) hRun {
	return func(t *rapid.T, c *Ctx) hRun {
		return func(s *hState, in *hInput, h handler.Handler) (string, handler.State, func()) {
			e := s.e
			x := s.formula(in)
			var b *bdd.BDD
			st := handler.Success()
			switch mode {
			case 0:
				if h == nil {
					b = bdd.Compile(e.Fac, x)
				} else {
					b, st = bdd.CompileWithHandler(e.Fac, x, h)
				}
			case 1:
				if h == nil {
					b = bdd.CompileWithVarOrder(e.Fac, x, e.vars(in.vars))
				} else {
					b, st = bdd.CompileWithVarOrderAndHandler(e.Fac, x, e.vars(in.vars), h)
				}
			default:
				if s.kernel == nil {
					s.kernel = bdd.NewKernelWithOrdering(e.Fac, e.vars(in.vars), 20, 20)
					s.keep = bdd.CompileWithKernel(e.Fac, e.build(in.ns[0]), s.kernel)
				}
				if h == nil {
					b = bdd.CompileWithKernel(e.Fac, x, s.kernel)
				} else {
					b, st = bdd.CompileWithKernelAndHandler(e.Fac, x, s.kernel, h)
				}
			}
			if !st.Success {
				if b != nil {
					t.Fatalf("canceled, but a BDD was returned")
				}
				return "", st, nil
			}
			return fmt.Sprint(b.NodeRepresentation()), st, func() {
				e.bddEquals(t, "BDD", b, in.want)
				if s.keep != nil {
					e.bddEquals(t, "earlier BDD of the kernel", s.keep, in.ns[0].TT(e.NV))
					if (s.keep.Index == b.Index) != in.ns[0].TT(e.NV).Equal(in.want) {
						t.Fatalf("BDDs on the kernel are no longer canonical")
					}
				}
			}
		}
	}
}

func hMus(ins bool) func(t *rapid.T, c *Ctx) hRun {
	return func(t *rapid.T, c *Ctx) hRun {
		return func(s *hState, in *hInput, h handler.Handler) (string, handler.State, func()) {
			if s.pl == nil {
				s.pl = &propList{e: s.e}
				for _, n := range in.ns {
					s.pl.add(n, in.flag)
				}
			}
			core, st, err := musRun(t, s.e, ins, s.pl, h)
			if !st.Success {
				return "", st, nil
			}
			return "", st, func() {
				if (err == nil) != in.want.IsFalse() {
					t.Fatalf("MUS error %v, unsatisfiable: %v", err, in.want.IsFalse())
				}
				if err == nil {
					s.pl.checkMinimal(t, "MUS", ttConst(s.e.NV, true), s.pl.mask(t, "MUS", core.Propositions))
				}
			}
		}
	}
}

func hSmus(forms bool) func(t *rapid.T, c *Ctx) hRun {
	return func(t *rapid.T, c *Ctx) hRun {
		return func(s *hState, in *hInput, h handler.Handler) (string, handler.State, func()) {
			if s.pl == nil {
				s.pl = &propList{e: s.e}
				for _, n := range in.ns {
					s.pl.add(n, false)
				}
			}
			gp, gf, ok, st := smusRun(s.e, forms, s.pl, nil, h)
			if !st.Success {
				return "", st, nil
			}
			return "", st, func() {
				if ok != in.want.IsFalse() {
					t.Fatalf("SMUS found: %v, unsatisfiable: %v", ok, in.want.IsFalse())
				}
				if ok {
					base := ttConst(s.e.NV, true)
					if forms {
						all := base
						for _, x := range gf {
							if !slices.Contains(s.pl.xs, x) {
								t.Fatalf("SMUS returns foreign formula %s", s.e.str(x))
							}
							all = all.And(s.e.tt(t, x))
						}
						if !all.IsFalse() {
							t.Fatalf("SMUS is satisfiable")
						}
					} else {
						s.pl.checkMinimal(t, "SMUS", base, s.pl.mask(t, "SMUS", gp))
					}
				}
			}
		}
	}
}

func hPrimes(max bool) func(t *rapid.T, c *Ctx) hRun {
	return func(t *rapid.T, c *Ctx) hRun {
		return func(s *hState, in *hInput, h handler.Handler) (string, handler.State, func()) {
			e := s.e
			x := s.formula(in)
			sort := []primeimplicant.CoverSort{primeimplicant.CoverImplicants, primeimplicant.CoverImplicates}[in.sort%2]
			var res *primeimplicant.PrimeResult
			st := handler.Success()
			switch {
			case h == nil && max:
				res = primeimplicant.CoverMax(e.Fac, x, sort)
			case h == nil:
				res = primeimplicant.CoverMin(e.Fac, x, sort)
			case max:
				res, st = primeimplicant.CoverMaxWithHandler(e.Fac, x, sort, h)
			default:
				res, st = primeimplicant.CoverMinWithHandler(e.Fac, x, sort, h)
			}
			if !st.Success {
				if res != nil {
					t.Fatalf("canceled, but a result was returned")
				}
				return "", st, nil
			}
			return "", st, func() {
				checkPrimes(t, e, "implicants", res.Implicants, in.want, false, sort == primeimplicant.CoverImplicants)
				checkPrimes(t, e, "implicates", res.Implicates, in.want.Not(), true, sort == primeimplicant.CoverImplicates)
			}
		}
	}
}

func hOptimize(max bool) func(t *rapid.T, c *Ctx) hRun {
	return func(t *rapid.T, c *Ctx) hRun {
		return func(s *hState, in *hInput, h handler.Handler) (string, handler.State, func()) {
			e := s.e
			solver := s.satSolver(in)
			// only variables known to the solver take part
			var ls []f.Literal
			for _, v := range in.vars {
				ls = append(ls, e.Fac.Lit(e.Names[v], v%3 != in.sort%3))
			}
			var m *model.Model
			st := handler.Success()
			switch {
			case h == nil && max:
				m = solver.Maximize(ls)
			case h == nil:
				m = solver.Minimize(ls)
			case max:
				m, st = solver.MaximizeWithHandler(ls, h)
			default:
				m, st = solver.MinimizeWithHandler(ls, h)
			}
			if !st.Success {
				return "", st, nil
			}
			return "", st, func() {
				if in.want.IsFalse() {
					if m != nil {
						t.Fatalf("optimum of an unsatisfiable formula")
					}
					return
				}
				value := func(i int) int {
					k := 0
					for _, v := range in.vars {
						if (i>>v&1 == 1) == (v%3 != in.sort%3) {
							k++
						}
					}
					return k
				}
				best, got := -1, -1
				val, mask := e.litsAss(t, m.Literals)
				for _, i := range in.want.Indices() {
					k := value(i)
					if !max {
						k = len(in.vars) - k
					}
					best = maxInt(best, k)
					if i&mask == val {
						got = maxInt(got, k)
					}
				}
				if got != best {
					t.Fatalf("model %s attains %d, the optimum is %d", m.Sprint(e.Fac), got, best)
				}
			}
		}
	}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func hEnum(what int) func(t *rapid.T, c *Ctx) hRun {
	return func(t *rapid.T, c *Ctx) hRun {
		return func(s *hState, in *hInput, h handler.Handler) (string, handler.State, func()) {
			e := s.e
			solver := s.satSolver(in)
			cfg := &iter.Config{Handler: handler.NopHandler, Strategy: in.strat(e)}
			if h != nil {
				cfg.Handler = h
			}
			st := handler.Success()
			switch what {
			case 0:
				var ms []*model.Model
				if h == nil {
					ms = enum.OnSolver(solver, e.vars(in.vars))
				} else {
					ms, st = enum.OnSolverWithConfig(solver, e.vars(in.vars), cfg)
				}
				return "", st, func() { checkEnum(t, e, "enumeration", ms, in.vars, nil, in.want, true) }
			case 1:
				var n *big.Int
				if h == nil {
					n = count.OnSolver(solver, e.vars(in.vars))
				} else {
					n, st = count.OnSolverWithConfig(solver, e.vars(in.vars), cfg)
				}
				return "", st, func() {
					if exp := len(in.want.Proj(in.vars)); n.Cmp(big.NewInt(int64(exp))) != 0 {
						t.Fatalf("count %v instead of %d", n, exp)
					}
				}
			default:
				var b *bdd.BDD
				if h == nil {
					b = enum.ToBddOnSolver(solver, e.vars(in.vars))
				} else {
					b, st = enum.ToBddOnSolverWithConfig(solver, e.vars(in.vars), cfg)
				}
				return "", st, func() { e.bddEquals(t, "enumerated BDD", b, projTT(in.want, in.vars)) }
			}
		}
	}
}

var hComps = []hComp{
	{"factorized CNF", "formula", true, hForm(normalform.FactorizedCNF, normalform.FactorizedCNFWithHandler, hShape(isCNFShape, false))},
	{"factorized DNF", "formula", true, hForm(normalform.FactorizedDNF, normalform.FactorizedDNFWithHandler, hShape(isDNFShape, false))},
	{"BDD CNF", "aux-free", true, hForm(bdd.CNF, bdd.CNFWithHandler, hShape(isCNFShape, true))},
	{"BDD DNF", "aux-free", true, hForm(bdd.DNF, bdd.DNFWithHandler, hShape(isDNFShape, true))},
	{"BDD", "aux-free", true, hBDD(0)},
	{"BDD with order", "aux-free", true, hBDD(1)},
	{"BDD on kernel", "aux-free", true, hBDD(2)},
	{"DNNF", "formula", false, func(t *rapid.T, c *Ctx) hRun {
		return func(s *hState, in *hInput, h handler.Handler) (string, handler.State, func()) {
			x := s.formula(in)
			var d *dnnf.DNNF
			st := handler.Success()
			if h == nil {
				d = dnnf.Compile(s.e.Fac, x)
			} else {
				d, st = dnnf.CompileWithHandler(s.e.Fac, x, h)
			}
			if !st.Success {
				return "", st, nil
			}
			return "", st, func() { checkDNNF(t, c, s.e, x, in.want, d) }
		}
	}},
	{"model count", "aux-free", true, func(t *rapid.T, c *Ctx) hRun {
		return func(s *hState, in *hInput, h handler.Handler) (string, handler.State, func()) {
			x := s.formula(in)
			var n *big.Int
			var err error
			st := handler.Success()
			vs := s.e.allVars()
			if h == nil {
				n, err = count.Count(s.e.Fac, vs, x)
			} else {
				n, err, st = count.CountWithHandler(s.e.Fac, vs, h, x)
			}
			if !st.Success {
				return "", st, nil
			}
			return fmt.Sprint(n), st, func() {
				if err != nil || n.Cmp(big.NewInt(int64(in.want.Count()))) != 0 {
					t.Fatalf("model count %v (%v) instead of %d", n, err, in.want.Count())
				}
			}
		}
	}},
	{"primes min", "formula", false, hPrimes(false)},
	{"primes max", "formula", false, hPrimes(true)},
	{"insertion MUS", "unsat", false, hMus(true)},
	{"deletion MUS", "unsat", false, hMus(false)},
	{"SMUS", "unsat", false, hSmus(false)},
	{"SMUS of formulas", "unsat", false, hSmus(true)},
	{"CNF subsumption", "cnf", true, hForm(withErr(simplification.CNFSubsumption), withErrH(simplification.CNFSubsumptionWithHandler), hShape(isCNFShape, true))},
	{"DNF subsumption", "dnf", true, hForm(withErr(simplification.DNFSubsumption), withErrH(simplification.DNFSubsumptionWithHandler), hShape(isDNFShape, true))},
	{"QMC", "formula", false, hForm(simplification.QMC, simplification.QMCWithHandler, func(t *rapid.T, c *Ctx, e *Env, in *hInput, x, y f.Formula) {
		hShape(isDNFShape, true)(t, c, e, in, x, y)
		checkMinCover(t, c, e, y, in.want)
	})},
	{"advanced simplifier", "formula", false, hForm(func(fac f.Factory, x f.Formula) f.Formula { return simplification.Advanced(fac, x) },
		func(fac f.Factory, x f.Formula, h handler.Handler) (f.Formula, handler.State) {
			return simplification.AdvancedWithHandler(fac, x, h)
		}, hShape(nil, false))},
	{"canonical CNF", "formula", true, hForm(enum.CanonicalCNF, enum.CanonicalCNFWithHandler, func(t *rapid.T, c *Ctx, e *Env, in *hInput, x, y f.Formula) {
		hShape(isCNFShape, true)(t, c, e, in, x, y)
		checkCanonical(t, e, x, y, true, in.want)
	})},
	{"canonical DNF", "formula", true, hForm(enum.CanonicalDNF, enum.CanonicalDNFWithHandler, func(t *rapid.T, c *Ctx, e *Env, in *hInput, x, y f.Formula) {
		hShape(isDNFShape, true)(t, c, e, in, x, y)
		checkCanonical(t, e, x, y, false, in.want)
	})},
	{"SAT call", "solver", false, func(t *rapid.T, c *Ctx) hRun {
		return func(s *hState, in *hInput, h handler.Handler) (string, handler.State, func()) {
			solver := s.satSolver(in)
			p := sat.Params()
			if in.flag {
				p = sat.WithModel(s.e.vars(in.vars))
			}
			if h != nil {
				p = p.Handler(h)
			}
			res := solver.Call(p)
			if res.Canceled() {
				return "", handler.State{Success: false, CancelCause: res.State().CancelCause}, nil
			}
			return "", handler.Success(), func() {
				if res.Sat() == in.want.IsFalse() {
					t.Fatalf("SAT call returns %v", res.Sat())
				}
				if res.Sat() && in.flag {
					val, mask := s.e.litsAss(t, res.Model().Literals)
					if in.want.And(ttCube(s.e.NV, val, mask)).IsFalse() {
						t.Fatalf("wrong model %s", res.Model().Sprint(s.e.Fac))
					}
				}
			}
		}
	}},
	{"backbone", "solver", false, func(t *rapid.T, c *Ctx) hRun {
		return func(s *hState, in *hInput, h handler.Handler) (string, handler.State, func()) {
			e := s.e
			solver := s.satSolver(in)
			var b *sat.Backbone
			st := handler.Success()
			if h == nil {
				b = solver.ComputeBackbone(e.Fac, e.vars(in.vars))
			} else {
				b, st = solver.ComputeBackboneWithHandler(e.Fac, e.vars(in.vars), h)
			}
			if !st.Success {
				if b != nil {
					t.Fatalf("canceled, but a backbone was returned")
				}
				return "", st, nil
			}
			return "", st, func() {
				if b.Sat == in.want.IsFalse() {
					t.Fatalf("backbone: satisfiable %v", b.Sat)
				}
				if !b.Sat {
					return
				}
				got := map[int]int{}
				for k, vs := range [][]f.Variable{b.Positive, b.Negative, b.Optional} {
					for _, v := range vs {
						got[e.varIdx(v)] |= 1 << k
					}
				}
				for _, v := range in.vars {
					exp := 4
					if in.want.Cof(v, false).IsFalse() {
						exp = 1
					} else if in.want.Cof(v, true).IsFalse() {
						exp = 2
					}
					if got[v] != exp {
						t.Fatalf("backbone class of %s is %b instead of %b", e.Names[v], got[v], exp)
					}
				}
			}
		}
	}},
	{"maximize", "solver", false, hOptimize(true)},
	{"minimize", "solver", false, hOptimize(false)},
	{"enumeration", "solver", false, hEnum(0)},
	{"enumeration count", "solver", false, hEnum(1)},
	{"enumeration BDD", "solver", false, hEnum(2)},
	{"MaxSAT", "maxsat", false, func(t *rapid.T, c *Ctx) hRun {
		return func(s *hState, in *hInput, h handler.Handler) (string, handler.State, func()) {
			e := s.e
			if s.ms == nil {
				s.ms = in.alg.mk(e.Fac)
				for _, n := range in.ns {
					s.ms.AddHardFormula(e.build(n))
				}
				for _, x := range in.softs {
					_ = s.ms.AddSoftFormula(e.build(x.n), x.w)
				}
			}
			st := handler.Success()
			var res maxsat.Result
			if h == nil {
				res = s.ms.Solve()
			} else {
				res, st = s.ms.SolveWithHandler(h)
			}
			if !st.Success {
				return "", st, nil
			}
			return "", st, func() {
				opt, ok := msOptimum(e.NV, in.want, in.softs)
				if res.Satisfiable != ok || ok && res.Optimum != opt {
					t.Fatalf("MaxSAT result %v/%d instead of %v/%d", res.Satisfiable, res.Optimum, ok, opt)
				}
			}
		}
	}},
}

func genHInput(t *rapid.T, e *Env, comp *hComp) *hInput {
	nv := e.NV
	in := &hInput{sort: rapid.IntRange(0, 5).Draw(t, "sort"), flag: rapid.Bool().Draw(t, "flag")}
	formula := func(cc bool) *N {
		var ks []*N
		g := Gen{NV: nv, Consts: true, CC: cc, PBC: cc && rapid.IntRange(0, 2).Draw(t, "pbc") == 2}
		for i := rapid.SampledFrom([]int{3, 2, 4, 1}).Draw(t, "parts"); i > 0; i-- {
			if rapid.IntRange(0, 2).Draw(t, "simple") == 0 {
				ks = append(ks, genTermN(t, nv))
			} else {
				g.Depth = rapid.IntRange(0, 3).Draw(t, "depth")
				ks = append(ks, g.draw(t, "f"))
			}
		}
		if len(ks) == 1 {
			return ks[0]
		}
		return nOp([]Op{OpAnd, OpOr}[rapid.IntRange(0, 1).Draw(t, "join")], ks...)
	}
	in.vars = genPerm(t, nv, "order")
	switch comp.gen {
	case "formula":
		in.n = formula(rapid.IntRange(0, 3).Draw(t, "cc") == 3)
		in.want = in.n.TT(nv)
	case "aux-free":
		in.n = formula(false)
		in.want = in.n.TT(nv)
		in.ns = []*N{Gen{NV: nv, Depth: 2, Consts: true}.draw(t, "kept")}
	case "cnf":
		in.n = genNF(t, nv, OpAnd, OpOr, rapid.IntRange(1, 9).Draw(t, "m"))
		in.want = in.n.TT(nv)
	case "dnf":
		in.n = genNF(t, nv, OpOr, OpAnd, rapid.IntRange(1, 9).Draw(t, "m"))
		in.want = in.n.TT(nv)
	case "unsat":
		lim := 9
		for i := rapid.IntRange(2, lim).Draw(t, "m"); i > 0; i-- {
			if rapid.IntRange(0, 4).Draw(t, "kind") == 4 {
				in.ns = append(in.ns, Gen{NV: nv, Depth: 2, CC: true}.draw(t, "f"))
			} else {
				in.ns = append(in.ns, genClauseN(t, nv, 2))
			}
		}
		in.want = conj(nv, in.ns)
	case "solver":
		in.ns = genFree(t, nv)
		in.want = conj(nv, in.ns)
		known := maskOfNs(in.ns)
		in.vars = slices.DeleteFunc(in.vars, func(v int) bool { return known>>v&1 == 0 })
		in.strat = func(e *Env) iter.Strategy { return iter.DefaultStrategy() }
		if rapid.IntRange(0, 3).Draw(t, "projected") == 3 && len(in.vars) > 1 {
			in.vars = in.vars[:len(in.vars)-1]
		}
		if comp.name[:4] == "enum" && rapid.Bool().Draw(t, "split") {
			lim := rapid.IntRange(3, 6).Draw(t, "limit")
			in.strat = func(e *Env) iter.Strategy {
				return iter.NewBasicStrategy(iter.DefaultLeastCommonVarProvider(), lim)
			}
		}
	case "maxsat":
		in.alg = msAlgs[rapid.IntRange(0, len(msAlgs)-1).Draw(t, "alg")]
		weighted := in.alg.weighted && (!in.alg.unw || rapid.Bool().Draw(t, "weighted"))
		in.ns, in.softs = genMsProblem(t, nv, weighted)
		if in.alg.explodes(len(in.softs)) {
			in.softs = in.softs[:4]
		}
		if !weighted {
			for i := range in.softs {
				in.softs[i].w = 1
			}
		}
		in.want = conj(nv, in.ns)
	}
	return in
}

func maskOfNs(ns []*N) int {
	m := 0
	for _, n := range ns {
		for _, v := range n.vars() {
			m |= 1 << v
		}
	}
	return m
}

func (in *hInput) str(e *Env) string {
	s := ""
	if in.n != nil {
		s += e.nstr(in.n) + " "
	}
	if in.ns != nil {
		s += "[" + e.nstrs(in.ns) + "] "
	}
	for _, x := range in.softs {
		s += x.str(e) + " "
	}
	return s + fmt.Sprintf("sort=%d flag=%v vars=%v", in.sort, in.flag, in.vars)
}

func h01Sweep(t *rapid.T, c *Ctx) {
	comp := &hComps[(rapid.IntRange(0, len(hComps)-1).Draw(t, "computation")+5)%len(hComps)]
	nv := rapid.SampledFrom([]int{4, 5, 3, 2, 1}).Draw(t, "nv")
	e := newEnv(t, nv)
	in := genHInput(t, e, comp)
	if comp.gen == "maxsat" {
		m := msM{softs: in.softs, alg: in.alg}
		if !m.solvable() {
			return
		}
	}
	c.Doing(comp.name + " of " + in.str(e))
	if in.n != nil && strings.HasPrefix(comp.name, "factorized") {
		// bound the size of the factorized forms
		b := e.fresh()
		if _, st, _ := comp.run(t, c)(&hState{e: b}, in, bounded()); !st.Success {
			c.Class("too large, skipped")
			return
		}
	}
	run := comp.run(t, c)
	// a handler which only watches
	watch := &recHandler{}
	s0 := &hState{e: e.fresh()}
	r0, st, check := run(s0, in, watch)
	if !st.Success {
		t.Fatalf("%s canceled by nobody: %v", comp.name, st)
	}
	check()
	s1 := &hState{e: e.fresh()}
	r1, st, check := run(s1, in, nil)
	if !st.Success {
		t.Fatalf("%s canceled without a handler", comp.name)
	}
	check()
	if comp.det && r0 != r1 {
		t.Fatalf("%s: a watching handler changes the result from %s to %s", comp.name, r1, r0)
	}
	n := len(watch.events)
	var ks []int
	if n <= 8 || rapid.IntRange(0, 15).Draw(t, "all") == 15 && n <= 60 {
		for k := 1; k <= n; k++ {
			ks = append(ks, k)
		}
		c.Class("all events")
	} else {
		for i := 0; i < 5; i++ {
			ks = append(ks, rapid.IntRange(1, n).Draw(t, "k"))
		}
		ks = append(ks, n)
	}
	if rapid.Bool().Draw(t, "down") {
		slices.Reverse(ks)
	}
	sticky := rapid.Bool().Draw(t, "sticky")
	between := rapid.IntRange(0, 2).Draw(t, "between") == 0
	c.Case(t, n >= 3, "%s: %s of %s canceled at %v of %d sticky=%v", e.Mode, comp.name, in.str(e), ks, n, sticky)
	c.Class(comp.name)
	s := &hState{e: e}
	canceled := 0
	for _, k := range ks {
		h := &recHandler{kHandler: kHandler{k: k, sticky: sticky}}
		what := fmt.Sprintf("%s canceled at event %d of %d", comp.name, k, n)
		r, st, check := run(s, in, h)
		checkCancel(t, &h.kHandler, st, what)
		if !st.Success {
			canceled++
			if !sameEvent(st.CancelCause, h.cause) {
				t.Fatalf("%s: cause %v, but the handler canceled at %v", what, st.CancelCause, h.cause)
			}
			if rapid.IntRange(0, 3).Draw(t, "fresh") == 0 {
				// the same point on a new factory: the cause is the k-th event
				g := &recHandler{kHandler: kHandler{k: k, sticky: sticky}}
				_, gst, _ := run(&hState{e: e.fresh()}, in, g)
				checkCancel(t, &g.kHandler, gst, what+" on a new factory")
			}
		} else {
			check()
			if comp.det && r != r1 {
				t.Fatalf("%s: result %s instead of %s", what, r, r1)
			}
		}
		if between {
			r, st, check := run(s, in, nil)
			if !st.Success {
				t.Fatalf("%s: the next run reports a cancelation", what)
			}
			check()
			if comp.det && r != r1 {
				t.Fatalf("%s: the next result is %s instead of %s", what, r, r1)
			}
		}
	}
	c.ClassIf(canceled > 0, "canceled")
	r, st, check := run(s, in, handler.NopHandler)
	if !st.Success {
		t.Fatalf("%s: the last run reports a cancelation", comp.name)
	}
	check()
	if comp.det && r != r1 {
		t.Fatalf("%s: the last result is %s instead of %s", comp.name, r, r1)
	}
}

// h01Builtin checks the handlers that come with the library.
func h01Builtin(t *rapid.T, c *Ctx) {
	kind := rapid.IntRange(0, 2).Draw(t, "kind")
	nv := rapid.SampledFrom([]int{4, 5, 3, 2, 1}).Draw(t, "nv")
	e := newEnv(t, nv)
	var names []string
	switch kind {
	case 0:
		names = []string{"factorized CNF", "factorized DNF"}
	case 1:
		names = []string{"BDD", "BDD with order", "BDD on kernel", "BDD CNF", "BDD DNF"}
	default:
		names = []string{"SAT call", "MaxSAT", "DNNF", "primes max", "BDD", "factorized DNF", "enumeration", "backbone", "SMUS", "CNF subsumption"}
	}
	bound1, bound2 := rapid.IntRange(-1, 12).Draw(t, "bound1"), rapid.IntRange(-1, 12).Draw(t, "bound2")
	rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
	var h handler.Handler
	what := ""
	past := false
	switch kind {
	case 0:
		h = normalform.NewFactorizationHandler(bound1, bound2)
		what = fmt.Sprintf("factorization handler %d/%d", bound1, bound2)
	case 1:
		bound1 += 2
		h = bdd.HandlerWithNodes(bound1)
		what = fmt.Sprintf("nodes handler %d", bound1)
	default:
		past = rapid.Bool().Draw(t, "past")
		d := time.Hour
		if past {
			d = -time.Hour
		}
		if rapid.Bool().Draw(t, "end") {
			h = handler.NewTimeoutWithEnd(time.Now().Add(d))
		} else {
			h = handler.NewTimeoutWithDuration(d)
		}
		what = fmt.Sprintf("timeout past=%v", past)
	}
	desc := ""
	events := 0
	for r := 0; r < rounds; r++ {
		comp := &hComps[0]
		name := names[rapid.IntRange(0, len(names)-1).Draw(t, "name")]
		for i := range hComps {
			if hComps[i].name == name {
				comp = &hComps[i]
			}
		}
		in := genHInput(t, e, comp)
		if comp.gen == "maxsat" {
			m := msM{softs: in.softs, alg: in.alg}
			if !m.solvable() {
				continue
			}
		}
		desc += comp.name + " of " + in.str(e) + " ; "
		c.Doing(what + ": " + desc)
		run := comp.run(t, c)
		var ref *recHandler
		fact := strings.HasPrefix(name, "factorized")
		if fact {
			// stop watching where the forms get too large
			ref = &recHandler{kHandler: kHandler{k: 400}}
		} else {
			ref = &recHandler{}
		}
		_, _, _ = run(&hState{e: e.fresh()}, in, ref)
		events += len(ref.events)
		// where must it cancel?
		want := false
		d, cl := 0, 0
		for _, x := range ref.events {
			switch x {
			case event.DistributionPerformed:
				d++
			case event.FactorizationCreatedClause:
				cl++
			case event.BddNewRefAdded:
				d++
			}
		}
		switch kind {
		case 0:
			want = bound1 >= 0 && d > bound1 || bound2 >= 0 && cl > bound2
		case 1:
			want = d > 0 && d >= bound1
		default:
			want = past && len(ref.events) > 0
		}
		if fact && len(ref.events) >= 400 && !want {
			c.Class("too large, skipped")
			return
		}
		s := &hState{e: e.fresh()}
		_, st, check := run(s, in, h)
		if st.Success == want {
			t.Fatalf("%s, use %d: %s: canceled %v, expected %v (%d distributions or nodes, %d clauses)", what, r+1, desc, !st.Success, want, d, cl)
		}
		if st.Success {
			check()
		}
		c.ClassIf(want, "canceled")
		c.ClassIf(!want && r > 0, "not canceled at a later use")
	}
	c.Case(t, events >= 3, "%s %s: %s", e.Mode, what, desc)
}
