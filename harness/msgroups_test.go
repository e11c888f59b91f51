package harness

import (
	"fmt"
	"maps"
	"slices"
	"strings"

	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"pgregory.net/rapid"
)

// msGroup is a set of literals of which at most max (at least min) may be
// true; gain are the weights of the soft literals (0: no soft formula).
type msGroup struct {
	lits     []L
	gain     []int
	fixed    []bool // literals which must be true
	min, max int
}

func (g *msGroup) sat() bool {
	n := 0
	for _, b := range g.fixed {
		if b {
			n++
		}
	}
	return max(n, g.min) <= g.max
}

// best computes the smallest cost of the group: its most valuable literals
// are true, all of them, up to the bound.
func (g *msGroup) best() int {
	var ws []int
	for i, w := range g.gain {
		if !g.fixed[i] {
			ws = append(ws, w)
		}
	}
	slices.Sort(ws)
	cost := 0
	for _, w := range ws[:max(0, len(g.gain)-g.max)] {
		cost += w
	}
	return cost
}

func (g *msGroup) con(cmp int, rhs int) *N {
	n := &N{Op: OpPBC, Cmp: []Cmp{LE, LT, GE, GT, EQ}[cmp], Rhs: rhs, Lits: slices.Clone(g.lits)}
	for range g.lits {
		n.Cs = append(n.Cs, 1)
	}
	return n
}

// msGroups: soft literals over disjoint groups of up to 20 literals, each
// with a bound on the number of true literals (which is tightened while the
// history proceeds): long cores, high costs. The optimum of every group is
// the sum of its smallest weights.
func msGroups(t *rapid.T, c *Ctx, steps int) {
	alg := msAlgs[rapid.IntRange(0, len(msAlgs)-1).Draw(t, "alg")]
	weighted := alg.weighted && (!alg.unw || rapid.Bool().Draw(t, "weighted"))
	pool := weightPool(t, weighted)
	if alg.name == "WMSU3" && rapid.Bool().Draw(t, "levels") {
		pool = pick(t, "pool", []int{1, 40}, []int{1, 1, 1, 40}, []int{1, 40, 40, 40})
	}
	if weighted && !slices.ContainsFunc(pool, func(w int) bool { return w > 1 }) {
		return
	}
	// WBO may need exponentially many steps, but not if little has to be given up
	easy := strings.HasSuffix(alg.name, "WBO") && rapid.IntRange(0, 2).Draw(t, "easy") > 0
	hi := 36
	if easy {
		hi = 20
	} else if strings.HasSuffix(alg.name, "WBO") {
		hi = 8
	}
	// rapid prefers small numbers
	draw := func(lo, hi int, label string) int {
		k := rapid.IntRange(lo, hi).Draw(t, label)
		if rapid.Bool().Draw(t, "from above") {
			return lo + hi - k
		}
		return k
	}
	nv := draw(4, hi, "nv")
	fac := genFac(t)
	names := genNamesN(nv)
	var sb strings.Builder
	log := func(format string, args ...any) {
		fmt.Fprintf(&sb, format+" ; ", args...)
		c.Doing(sb.String())
		t.Logf(format, args...)
	}
	var s *maxsat.Solver
	if rapid.Bool().Draw(t, "cfg") {
		cfg, cs := genMsConfig(t)
		s = alg.mk(fac, cfg)
		log("%s %s", alg.name, cs)
	} else {
		s = alg.mk(fac)
		log("%s", alg.name)
	}
	hard := func(n *N) {
		log("hard %s", n.str(names))
		s.AddHardFormula(n.Build(fac, names))
	}
	softs := 0
	ws := map[int]int{} // how often a weight is used
	soft := func(g *msGroup, i, w int) {
		n := nLit(g.lits[i].V, g.lits[i].Pos)
		log("soft %d:%s", w, n.str(names))
		if err := s.AddSoftFormula(n.Build(fac, names), w); err != nil {
			t.Fatalf("soft formula rejected: %v", err)
		}
		g.gain[i] += w
		ws[w]++
		softs++
	}
	var groups []*msGroup
	perm := genPerm(t, nv, "order")
	big := 0
	for at := 0; at < nv; {
		k := min(nv-at, draw(1, pick(t, "upTo", 4, 20, 30), "size"))
		if easy && len(groups) > 0 {
			k = nv - at
		}
		g := &msGroup{gain: make([]int, k), fixed: make([]bool, k), max: k}
		mixed := rapid.Bool().Draw(t, "mixed")
		for _, v := range perm[at : at+k] {
			g.lits = append(g.lits, L{v, !mixed || rapid.Bool().Draw(t, "pos")})
		}
		at += k
		big = max(big, k)
		groups = append(groups, g)
	}
	// tighten lowers the upper bound (rarely raises the lower one) of a group
	aux := 0
	tighten := func() {
		g := groups[rapid.IntRange(0, len(groups)-1).Draw(t, "group")]
		n := len(g.lits)
		kind := rapid.IntRange(0, 12).Draw(t, "bound")
		if easy && kind < 9 {
			if g.max < n {
				kind = 9
			} else {
				g.max--
				if kind == 0 {
					x := &N{Op: OpOr}
					for _, l := range g.lits {
						x.Kids = append(x.Kids, nLit(l.V, !l.Pos))
					}
					if n > 1 {
						hard(x)
						return
					}
				}
				hard(g.con(0, g.max))
				return
			}
		}
		switch kind {
		case 9, 10, 11, 12:
			// some literals must be true, which no unit clause says
			which := genPerm(t, n, "fixed")[:draw(1, n, "fix")]
			if kind >= 11 {
				// all except for as many as the bound requires, or one more
				which = genPerm(t, n, "fixed")[min(n, n-g.max+kind-11):]
			}
			for _, j := range which {
				free := 0
				for _, b := range g.fixed {
					if !b {
						free++
					}
				}
				if g.fixed[j] || free <= n-g.max && rapid.IntRange(0, 30).Draw(t, "too many") > 0 {
					continue
				}
				g.fixed[j] = true
				l, y := g.lits[j], len(names)
				names = append(names, fmt.Sprintf("y%d", aux))
				aux++
				hard(nOp(OpOr, nLit(l.V, l.Pos), nLit(y, true)))
				hard(nOp(OpOr, nLit(l.V, l.Pos), nLit(y, false)))
			}
		case 0:
			top := g.max
			if rapid.IntRange(0, 9).Draw(t, "over") == 0 {
				top = n
			}
			g.min = max(g.min, min(top, g.min+rapid.IntRange(0, max(1, n/2)).Draw(t, "by")))
			if rapid.Bool().Draw(t, "strict") {
				hard(g.con(3, g.min-1))
			} else {
				hard(g.con(2, g.min))
			}
		case 1:
			g.max = max(min(g.max, n-draw(0, min(n, 10), "by")), 0)
			g.min = max(g.min, g.max)
			hard(g.con(4, g.max))
		default:
			if g.max <= g.min && rapid.IntRange(0, 5).Draw(t, "below") > 0 {
				return
			}
			g.max = max(0, min(g.max, n-draw(0, min(n, 10), "by")))
			if rapid.Bool().Draw(t, "strict") {
				hard(g.con(1, g.max+1))
			} else {
				hard(g.con(0, g.max))
			}
		}
	}
	satisfiable := func() bool {
		return !slices.ContainsFunc(groups, func(g *msGroup) bool { return !g.sat() })
	}
	addSoft := func() {
		g := groups[rapid.IntRange(0, len(groups)-1).Draw(t, "group")]
		soft(g, rapid.IntRange(0, len(g.lits)-1).Draw(t, "lit"), pick(t, "w", pool...))
	}
	first := rapid.IntRange(0, 2).Draw(t, "first")
	for i := rapid.IntRange(0, 3).Draw(t, "before"); i > 0; i-- {
		tighten()
	}
	for _, g := range groups {
		for i := range g.lits {
			if first > 0 || rapid.IntRange(0, 3).Draw(t, "has") > 0 {
				soft(g, i, pick(t, "w", pool...))
			}
		}
	}
	for i := rapid.IntRange(1, 4).Draw(t, "after"); i > 0; i-- {
		tighten()
	}
	solves, most := 0, 0
	usable := func() bool {
		w := len(ws) > 1 || len(ws) == 1 && ws[1] == 0 // WMSU3 requires a weight above 1, the unweighted algorithms only 1
		return softs > 0 && (w && alg.weighted || !w && alg.unw)
	}
	solve := func() {
		if !usable() {
			return
		}
		log("solve")
		var res maxsat.Result
		if easy {
			res = s.Solve()
		} else {
			var st handler.State
			if res, st = s.SolveWithHandler(&kHandler{k: wboLimit, sticky: true}); !st.Success {
				c.Class("not decided within the event limit: " + alg.name)
				return
			}
		}
		sat := satisfiable()
		solves++
		if res.Satisfiable != sat {
			t.Fatalf("satisfiable %v, expected %v", res.Satisfiable, sat)
		}
		if !sat {
			return
		}
		want := 0
		for _, g := range groups {
			want += g.best()
		}
		if res.Optimum != want {
			t.Fatalf("optimum %d, expected %d", res.Optimum, want)
		}
		most = max(most, want)
		val := make([]int, nv) // 0: not assigned
		for _, l := range res.Model.Literals {
			name, pos, _ := fac.LitNamePhase(l)
			if i := slices.Index(names[:nv], name); i >= 0 {
				if val[i] != 0 {
					t.Fatalf("the model assigns %s twice", name)
				}
				val[i] = map[bool]int{true: 1, false: -1}[pos]
			}
		}
		cost := 0
		for _, g := range groups {
			count := 0
			for i, l := range g.lits {
				if val[l.V] == 0 && g.gain[i] > 0 {
					t.Fatalf("the model misses %s of a soft formula", names[l.V])
				}
				if (val[l.V] > 0) == l.Pos {
					count++
				} else if g.fixed[i] {
					t.Fatalf("the model violates the hard formulas on %s", names[l.V])
				} else {
					cost += g.gain[i]
				}
			}
			if count > g.max || count < g.min {
				t.Fatalf("%d literals of a group are true, bounds %d and %d", count, g.min, g.max)
			}
		}
		if cost != want {
			t.Fatalf("the model has cost %d, the optimum is %d", cost, want)
		}
	}
	solve()
	type snap struct {
		state  *maxsat.SolverState
		groups []msGroup
		softs  int
		ws     map[int]int
	}
	var snaps []snap
	for i := 0; i < steps && rapid.IntRange(0, 5).Draw(t, "more") > 0; i++ {
		switch op := rapid.IntRange(0, 9).Draw(t, "op"); {
		case op <= 3 && satisfiable():
			tighten()
			solve()
		case op <= 6:
			addSoft()
			solve()
		case op == 7:
			sn := snap{state: s.SaveState(), softs: softs, ws: maps.Clone(ws)}
			for _, g := range groups {
				sn.groups = append(sn.groups, msGroup{gain: slices.Clone(g.gain), fixed: slices.Clone(g.fixed), min: g.min, max: g.max})
			}
			log("save %d", len(snaps))
			snaps = append(snaps, sn)
		case op == 8 && len(snaps) > 0:
			j := rapid.IntRange(0, len(snaps)-1).Draw(t, "state")
			log("load %d", j)
			if err := s.LoadState(snaps[j].state); err != nil {
				t.Fatalf("loading a valid state: %v", err)
			}
			for i, g := range groups {
				o := snaps[j].groups[i]
				g.gain, g.fixed, g.min, g.max = slices.Clone(o.gain), slices.Clone(o.fixed), o.min, o.max
			}
			softs = snaps[j].softs
			ws = maps.Clone(snaps[j].ws)
			snaps = snaps[:j+1]
			c.Class("state loaded")
			solve()
		case op == 9 && usable():
			if easy {
				c.Class("easy and canceled")
			}
			log("canceled solve")
			var st handler.State
			h := &kHandler{k: rapid.IntRange(1, 60).Draw(t, "k"), sticky: rapid.Bool().Draw(t, "sticky")}
			if _, st = s.SolveWithHandler(h); st.Success == h.canceled {
				t.Fatalf("canceled: %v, state %+v", h.canceled, st)
			}
			solve()
		}
	}
	c.Class(alg.name)
	c.ClassIf(!satisfiable(), "unsatisfiable")
	c.Case(t, solves > 0 && big > 10 && (easy && most > 0 || most >= 5) && (steps == 0 || solves > 1), "%s", sb.String())
}
