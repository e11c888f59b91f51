package harness

import (
	"fmt"
	"slices"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"pgregory.net/rapid"
)

// m02Chain: incremental MaxSAT histories over many variables.
func m02Chain(t *rapid.T, c *Ctx) {
	alg := msAlgs[rapid.IntRange(0, len(msAlgs)-1).Draw(t, "alg")]
	weighted := alg.weighted && (!alg.unw || rapid.Bool().Draw(t, "weighted"))
	pool := weightPool(t, weighted)
	hi, softs := 40, 14
	if alg.name == "WBO" || alg.name == "IncWBO" {
		hi, softs = 25, 6
	}
	k := chainKind{clauses: rapid.Bool().Draw(t, "clauses"), g: Gen{Depth: 2, Consts: true, CC: true}, density: 8}
	fac := genFac(t)
	ch := newChain(t, fac, rapid.IntRange(8, hi).Draw(t, "nv"), rapid.IntRange(1, 4).Draw(t, "window"))
	var hist []string
	var ps pins
	note := func(format string, args ...any) {
		hist = append(hist, fmt.Sprintf(format, args...))
		c.Doing(strings.Join(hist, " ; "))
		t.Log(hist[len(hist)-1])
		ps.check(t.Fatalf)
	}
	cfg, cs := genMsConfig(t)
	s := alg.mk(fac, cfg)
	note("%s %s nv=%d", alg.name, cs, ch.NV)
	type snap struct {
		state *maxsat.SolverState
		cons  []*ChainCon
	}
	var snaps []snap
	nsoft := func() (n int) {
		for _, con := range ch.Cons {
			if con.Weight > 0 {
				n++
			}
		}
		return
	}
	hard := func(n int) {
		for ; n > 0; n-- {
			con := ch.draw(t, k)
			note("hard %s", con.N.str(con.names))
			s.AddHardFormula(con.F)
			ch.Cons = append(ch.Cons, con)
		}
	}
	soft := func(n int) {
		for ; n > 0 && nsoft() < softs; n-- {
			var con *ChainCon
			if rapid.IntRange(0, 2).Draw(t, "unit") > 0 {
				at := rapid.IntRange(0, ch.NV-1).Draw(t, "uat")
				con = &ChainCon{At: at, names: Names{ch.Names[at]}, N: nLit(0, rapid.Bool().Draw(t, "pos"))}
				con.TT = con.N.TT(1)
				con.F = con.N.Build(fac, con.names)
			} else {
				con = ch.draw(t, k)
			}
			con.Weight = pick(t, "w", pool...)
			note("soft %d:%s", con.Weight, con.N.str(con.names))
			if err := s.AddSoftFormula(con.F, con.Weight); err != nil {
				t.Fatalf("soft formula rejected: %v", err)
			}
			ch.Cons = append(ch.Cons, con)
		}
	}
	hard(ch.NV * rapid.IntRange(2, 8).Draw(t, "density") / 10)
	soft(rapid.IntRange(1, softs).Draw(t, "softs"))
	solves, costs, cancels := 0, 0, 0
	solve := func(h *kHandler) {
		total, w := 0, false
		for _, con := range ch.Cons {
			total += con.Weight
			w = w || con.Weight > 1
		}
		if w && !alg.weighted || !w && !alg.unw {
			return
		}
		best := ch.best(ch.Cons, nil, nil)
		var res maxsat.Result
		if h == nil {
			note("solve")
			if alg.explodes(nsoft()) {
				var st handler.State
				if res, st = s.SolveWithHandler(&kHandler{k: wboLimit, sticky: true}); !st.Success {
					c.Class("not decided within the event limit")
					return
				}
			} else {
				res = s.Solve()
			}
		} else {
			note("solve, cancel at %d sticky=%v", h.k, h.sticky)
			var st handler.State
			res, st = s.SolveWithHandler(h)
			if st.Success == h.canceled {
				t.Fatalf("canceled: %v, state %+v", h.canceled, st)
			}
			if h.canceled {
				cancels++
				if st.CancelCause == nil || res.Satisfiable || res.Model != nil {
					t.Fatalf("canceled solve returns %+v %+v", res, st)
				}
				return
			}
		}
		solves++
		ps.model(res.Model)
		if res.Satisfiable != (best >= 0) {
			t.Fatalf("satisfiable %v, expected %v", res.Satisfiable, best >= 0)
		}
		if best < 0 {
			return
		}
		if res.Optimum != total-best {
			t.Fatalf("optimum %d, expected %d", res.Optimum, total-best)
		}
		if total > best {
			costs++
		}
		if res.Model == nil {
			t.Fatalf("no model")
		}
		var ls []f.Literal
		for _, l := range res.Model.Literals {
			if name, _, _ := fac.LitNamePhase(l); strings.HasPrefix(name, "x") {
				ls = append(ls, l)
			}
		}
		if got := ch.best(ch.Cons, ch.model(t, ls), nil); got != best {
			t.Fatalf("the model has cost %d, the optimum is %d", total-got, total-best)
		}
		c.Class(alg.name)
		c.ClassIf(total-best >= 5, "optimum of at least 5")
	}
	for i := rapid.IntRange(1, 8).Draw(t, "steps"); i > 0; i-- {
		switch op := rapid.IntRange(0, 9).Draw(t, "op"); {
		case op <= 1:
			hard(rapid.IntRange(1, 3).Draw(t, "n"))
		case op <= 3:
			soft(rapid.IntRange(1, 3).Draw(t, "n"))
		case op == 4:
			note("save %d", len(snaps))
			snaps = append(snaps, snap{s.SaveState(), slices.Clone(ch.Cons)})
		case op == 5 && len(snaps) > 0:
			j := rapid.IntRange(0, len(snaps)-1).Draw(t, "state")
			note("load %d", j)
			if err := s.LoadState(snaps[j].state); err != nil {
				t.Fatalf("loading a valid state: %v", err)
			}
			ch.Cons = slices.Clone(snaps[j].cons)
			snaps = snaps[:j+1]
			c.Class("state loaded")
		case op == 6:
			solve(&kHandler{k: rapid.IntRange(1, 60).Draw(t, "k"), sticky: rapid.Bool().Draw(t, "sticky")})
		default:
			solve(nil)
		}
	}
	solve(nil)
	c.ClassIf(cancels > 0 && solves > 0, "solved after a cancelation")
	c.Case(t, solves >= 2 && costs > 0, "%s", strings.Join(hist, " ; "))
}
