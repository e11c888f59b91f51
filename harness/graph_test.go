package harness

import (
	"fmt"
	"math/bits"
	"slices"
	"sort"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/np"
	"github.com/emirpasic/gods/maps/linkedhashmap"
	"pgregory.net/rapid"
)

var _ = registerProp("G01",
	"distinct formula lists with at least two formulas over at least two variables, CNFs with at least two clauses, or set families whose minimum cover needs at least two sets",
	sub("wide", 1500, 2, 15, g01Wide),
	sub("components", 6000, 2, 30, g01Components),
	sub("hypergraph", 6000, 2, 30, g01Hypergraph),
	sub("set cover", 4000, 2, 20, g01SetCover))

// maskOf collects the variables of a formula by walking it.
func varMaskOf(t *rapid.T, e *Env, x f.Formula) int {
	m := 0
	addLit := func(l f.Literal) {
		m |= 1 << e.litIdx(t, l).V
	}
	walkAll(e.Fac, x, func(y f.Formula) {
		switch y.Sort() {
		case f.SortLiteral:
			addLit(f.Literal(y))
		case f.SortCC, f.SortPBC:
			_, _, ls, _, _ := e.Fac.PBCOps(y)
			for _, l := range ls {
				addLit(l)
			}
		}
	})
	return m
}

func g01Components(t *rapid.T, c *Ctx) {
	nv := rapid.IntRange(1, 10).Draw(t, "nv")
	e := newEnv(t, nv)
	var xs []f.Formula
	var ns []*N
	var masks []int
	for i := rapid.IntRange(0, 8).Draw(t, "formulas"); i > 0; i-- {
		if len(xs) > 0 && rapid.IntRange(0, 9).Draw(t, "again") == 9 {
			k := rapid.IntRange(0, len(xs)-1).Draw(t, "which")
			xs, ns, masks = append(xs, xs[k]), append(ns, ns[k]), append(masks, masks[k])
			continue
		}
		var n *N
		if rapid.Bool().Draw(t, "small") {
			n = genClauseN(t, nv, pick(t, "clause", 3, 3, 3, nv))
		} else {
			// a formula over a few neighbouring variables
			w := rapid.IntRange(1, pick(t, "wide", min(nv, 4), min(nv, 4), min(nv, 4), nv)).Draw(t, "width")
			off := rapid.IntRange(0, nv-w).Draw(t, "offset")
			n = Gen{NV: w, Depth: rapid.IntRange(0, 3).Draw(t, "depth"), Consts: true, CC: true, PBC: true}.draw(t, "f").shift(off)
		}
		x := e.build(n)
		xs, ns, masks = append(xs, x), append(ns, n), append(masks, varMaskOf(t, e, x))
	}
	all := 0
	adj := make([]int, nv)
	for _, m := range masks {
		all |= m
		for v := 0; v < nv; v++ {
			if m>>v&1 == 1 {
				adj[v] |= m &^ (1 << v)
			}
		}
	}
	c.Case(t, len(xs) > 1 && bits.OnesCount(uint(all)) > 1, "%s %s", e.Mode, e.nstrs(ns))
	g := graph.GenerateConstraintGraph(e.Fac, xs...)
	seen := 0
	for _, n := range g.Nodes() {
		if n.Sort() != f.SortLiteral || !n.IsPos() {
			t.Fatalf("node %s", e.str(n))
		}
		v := e.litIdx(t, f.Literal(n)).V
		if seen>>v&1 == 1 {
			t.Fatalf("node %s twice", e.str(n))
		}
		seen |= 1 << v
		nb := 0
		for _, y := range g.Neighbours(n) {
			w := e.litIdx(t, f.Literal(y)).V
			if nb>>w&1 == 1 || y.Sort() != f.SortLiteral || !y.IsPos() {
				t.Fatalf("bad or repeated neighbour %s of %s", e.str(y), e.str(n))
			}
			nb |= 1 << w
		}
		if nb != adj[v] {
			t.Fatalf("neighbours of %s are %s instead of %s", e.str(n), sprintMask(e, nb), sprintMask(e, adj[v]))
		}
	}
	if seen != all {
		t.Fatalf("nodes are %s instead of %s", sprintMask(e, seen), sprintMask(e, all))
	}
	for v := 0; v < nv; v++ {
		if all>>v&1 == 0 && len(g.Neighbours(e.v(v).AsFormula())) != 0 {
			t.Fatalf("neighbours of %s which is no node", e.Names[v])
		}
	}
	// reference components
	var want []int
	for v := 0; v < nv; v++ {
		if all>>v&1 == 0 || slices.ContainsFunc(want, func(m int) bool { return m>>v&1 == 1 }) {
			continue
		}
		m := 1 << v
		for {
			n := m
			for w := 0; w < nv; w++ {
				if m>>w&1 == 1 {
					n |= adj[w]
				}
			}
			if n == m {
				break
			}
			m = n
		}
		want = append(want, m)
	}
	comps := graph.ComputeConnectedComponents(g)
	var got []int
	for _, comp := range comps {
		m := 0
		for _, v := range comp {
			i := e.varIdx(v)
			if i < 0 || m>>i&1 == 1 {
				t.Fatalf("foreign or repeated variable in component %v", e.vstrs(comp))
			}
			m |= 1 << i
		}
		got = append(got, m)
	}
	gs, ws := slices.Clone(got), slices.Clone(want)
	slices.Sort(gs)
	slices.Sort(ws)
	if !slices.Equal(gs, ws) {
		t.Fatalf("components %b instead of %b", gs, ws)
	}
	c.ClassIf(len(want) > 1, "several components")
	// splitting by the components, or by unions of them in another order
	if len(comps) > 1 && rapid.IntRange(0, 3).Draw(t, "coarser") == 3 {
		comps = append([][]f.Variable{slices.Concat(comps[len(comps)-1], comps[0])}, comps[1:len(comps)-1]...)
		got = append([]int{got[len(got)-1] | got[0]}, got[1:len(got)-1]...)
		c.Class("split by unions of components")
	}
	parts := graph.SplitFormulasByComponent(e.Fac, xs, comps)
	if len(parts) < len(comps) {
		t.Fatalf("%d parts for %d components", len(parts), len(comps))
	}
	count := map[f.Formula]int{}
	for i, part := range parts {
		for _, x := range part {
			count[x]++
			m := varMaskOf(t, e, x)
			if i < len(comps) && (m == 0 || m&^got[i] != 0) {
				t.Fatalf("%s is in part %d of component %s", e.str(x), i, sprintMask(e, got[i]))
			}
			if i >= len(comps) && m != 0 {
				t.Fatalf("%s is in part %d without a component", e.str(x), i)
			}
		}
	}
	for i, x := range xs {
		if masks[i] != 0 {
			count[x]--
		} else if x.Sort() == f.SortFalse {
			c.Class("contradiction in the list")
			if count[x] < 1 {
				t.Fatalf("the split lost a contradiction")
			}
		}
	}
	for x, k := range count {
		if k != 0 && varMaskOf(t, e, x) != 0 {
			t.Fatalf("%s occurs %d times too often in the parts", e.str(x), k)
		}
		if x.Sort() == f.SortFalse && !slices.Contains(xs, x) {
			t.Fatalf("the parts contain a new contradiction")
		}
	}
	tt := ttConst(nv, true)
	for _, part := range parts {
		for _, x := range part {
			tt = tt.And(e.tt(t, x))
		}
	}
	if !tt.Equal(conj(nv, ns)) {
		t.Fatalf("the parts are not equivalent to the formulas")
	}
}

func g01Hypergraph(t *rapid.T, c *Ctx) {
	nv, most := rapid.IntRange(1, 9).Draw(t, "nv"), 8
	e := newEnv(t, nv)
	large := rapid.IntRange(0, 7).Draw(t, "large") == 0
	if large {
		nv, most = rapid.IntRange(10, 60).Draw(t, "more"), 40
		e = mkEnv(genNamesN(nv), nv, e.Mode == "conserve")
	}
	valid := rapid.IntRange(0, 3).Draw(t, "valid") != 3
	fromClauses := rapid.Bool().Draw(t, "clauses")
	var ns []*N
	var xs []f.Formula
	for i := rapid.IntRange(0, most).Draw(t, "n"); i > 0; i-- {
		var n *N
		if large && rapid.Bool().Draw(t, "part") {
			n = genPart(t, nv, OpOr, nv)
		} else if valid || rapid.Bool().Draw(t, "clause") {
			n = genClauseN(t, nv, pick(t, "clause", 4, 4, 4, nv+1))
		} else {
			n = Gen{NV: nv, Depth: rapid.IntRange(1, 3).Draw(t, "depth"), CC: true, PBC: true}.draw(t, "f")
		}
		ns, xs = append(ns, n), append(xs, e.build(n))
	}
	var g *graph.Hypergraph
	var err error
	var clauses []f.Formula
	ok := true
	what := "clauses"
	if fromClauses {
		for _, x := range xs {
			switch {
			case isConst(x):
			case isClauseShape(e.Fac, x):
				clauses = append(clauses, x)
			default:
				ok = false
			}
		}
		g, err = graph.HypergraphFromClauses(e.Fac, xs...)
	} else {
		what = "CNF"
		x := e.Fac.And(xs...)
		ok = isCNFShape(e.Fac, x)
		switch x.Sort() {
		case f.SortTrue, f.SortFalse:
		case f.SortAnd:
			clauses = e.Fac.Operands(x)
		default:
			clauses = []f.Formula{x}
		}
		g, err = graph.HypergraphFromCNF(e.Fac, x)
	}
	c.Case(t, ok && len(clauses) > 1, "%s %s %s", e.Mode, what, e.nstrs(ns))
	if ok != (err == nil) {
		t.Fatalf("hypergraph error is %v for a CNF: %v", err, ok)
	}
	if !ok {
		c.Class("rejected")
		if g != nil {
			t.Fatalf("an error and a hypergraph")
		}
		return
	}
	index := map[*graph.HypergraphNode]int{}
	seen := 0
	for _, n := range g.Nodes {
		i := e.varIdx(n.Content)
		if i < 0 || seen>>i&1 == 1 {
			t.Fatalf("foreign or repeated node %s", n.Content.Sprint(e.Fac))
		}
		seen |= 1 << i
		index[n] = i
	}
	var want, got []int
	all := 0
	for _, cl := range clauses {
		m := varMaskOf(t, e, cl)
		all |= m
		want = append(want, m)
	}
	deg := map[*graph.HypergraphNode]map[*graph.HypergraphEdge]int{}
	for _, ed := range g.Edges {
		m := 0
		for _, n := range ed.Nodes {
			i, ok := index[n]
			if !ok || m>>i&1 == 1 {
				t.Fatalf("edge with a foreign or repeated node")
			}
			m |= 1 << i
			if deg[n] == nil {
				deg[n] = map[*graph.HypergraphEdge]int{}
			}
			deg[n][ed]++
		}
		got = append(got, m)
	}
	slices.Sort(want)
	slices.Sort(got)
	if !slices.Equal(want, got) || seen != all {
		t.Fatalf("edges %b over %b instead of %b over %b", got, seen, want, all)
	}
	// positions of the nodes for the tentative locations
	order := linkedhashmap.New()
	pos := map[*graph.HypergraphNode]int{}
	for p, i := range genPerm(t, len(g.Nodes), "order") {
		order.Put(g.Nodes[i], p)
		pos[g.Nodes[i]] = p
	}
	for _, n := range g.Nodes {
		if len(n.Edges) != len(deg[n]) {
			t.Fatalf("node %s lists %d of %d edges", n.Content.Sprint(e.Fac), len(n.Edges), len(deg[n]))
		}
		loc := 0.0
		for _, ed := range n.Edges {
			if deg[n][ed] != 1 {
				t.Fatalf("node %s lists an edge it is not part of, or twice", n.Content.Sprint(e.Fac))
			}
			deg[n][ed]++
			sum := 0
			for _, q := range ed.Nodes {
				sum += pos[q]
			}
			loc += float64(sum) / float64(len(ed.Nodes))
		}
		loc /= float64(len(n.Edges))
		if d := n.ComputeTentativeNewLocation(order) - loc; d > 1e-9 || d < -1e-9 {
			t.Fatalf("tentative location of %s is %v instead of %v", n.Content.Sprint(e.Fac), n.ComputeTentativeNewLocation(order), loc)
		}
	}
}

func g01SetCover(t *rapid.T, c *Ctx) {
	nu := rapid.IntRange(1, 10).Draw(t, "universe")
	ns := rapid.IntRange(0, 10).Draw(t, "sets")
	big := rapid.IntRange(0, 5).Draw(t, "big")
	large := rapid.IntRange(0, 7).Draw(t, "large") == 0
	sizes := []int{2, 3, 1, 4, 0}
	if large {
		nu, ns, big = rapid.IntRange(11, 30).Draw(t, "larger universe"), rapid.IntRange(8, 20).Draw(t, "more sets"), 0
		sizes = []int{2, 3, 1, 5, 8, 14}
	}
	masks := make([]int, ns)
	sets := make([][]string, ns)
	union := 0
	for i := range masks {
		if i > 0 && rapid.IntRange(0, 9).Draw(t, "same") == 9 {
			masks[i] = masks[rapid.IntRange(0, i-1).Draw(t, "which")]
		} else if big == 5 {
			masks[i] = rapid.IntRange(0, 1<<nu-1).Draw(t, "set")
		} else {
			for k := pick(t, "size", sizes...); k > 0; k-- {
				masks[i] |= 1 << rapid.IntRange(0, nu-1).Draw(t, "elem")
			}
		}
		union |= masks[i]
		sets[i] = []string{}
		for v := 0; v < nu; v++ {
			if masks[i]>>v&1 == 1 {
				sets[i] = append(sets[i], fmt.Sprint("e", v))
			}
		}
		if len(sets[i]) > 1 && rapid.IntRange(0, 9).Draw(t, "twice") == 9 {
			sets[i] = append(sets[i], sets[i][0])
		}
	}
	best := ns + 1
	var search func(covered, k int)
	search = func(covered, k int) {
		if k >= best {
			return
		}
		if covered == union {
			best = k
			return
		}
		// the missing element in the fewest sets
		at, few := 0, ns+1
		for v := 0; v < nu; v++ {
			if (union&^covered)>>v&1 == 1 {
				cnt := 0
				for _, m := range masks {
					cnt += m >> v & 1
				}
				if cnt < few {
					at, few = v, cnt
				}
			}
		}
		for _, m := range masks {
			if m>>at&1 == 1 {
				search(covered|m, k+1)
			}
		}
	}
	search(0, 0)
	c.Case(t, best > 1, "universe %d sets %v", nu, sets)
	check := func(res [][]string) {
		if len(res) != best {
			t.Fatalf("cover %v has %d sets instead of %d", res, len(res), best)
		}
		m := 0
		avail := map[string]int{}
		for _, s := range sets {
			avail[strings.Join(s, " ")]++
		}
		for _, s := range res {
			k := strings.Join(s, " ")
			if avail[k]--; avail[k] < 0 {
				t.Fatalf("cover %v contains %v which is not an input set (or too often)", res, s)
			}
			for _, x := range s {
				m |= 1 << atoi(x[1:])
			}
		}
		if m != union {
			t.Fatalf("%v does not cover everything", res)
		}
	}
	keep := fmt.Sprint(sets)
	check(np.MinimumSetCover(sets))
	if fmt.Sprint(sets) != keep {
		t.Fatalf("the input sets changed to %v", sets)
	}
	if rapid.IntRange(0, 2).Draw(t, "ints") == 2 {
		var is [][]int
		for _, m := range masks {
			var s []int
			for v := 0; v < nu; v++ {
				if m>>v&1 == 1 {
					s = append(s, v)
				}
			}
			is = append(is, s)
		}
		res := np.MinimumSetCover(is)
		var cov []int
		for _, s := range res {
			cov = append(cov, s...)
		}
		sort.Ints(cov)
		if len(res) != best || len(slices.Compact(cov)) != bits.OnesCount(uint(union)) {
			t.Fatalf("cover of integers %v, minimum is %d", res, best)
		}
	}
	c.ClassIf(ns == 0, "no sets")
	c.Class(fmt.Sprintf("minimum %d", best))
}

// shift renumbers the variables of a tree.
func (n *N) shift(d int) *N {
	r := *n
	r.Lit.V += d
	r.Kids, r.Lits = nil, nil
	for _, k := range n.Kids {
		r.Kids = append(r.Kids, k.shift(d))
	}
	for _, l := range n.Lits {
		r.Lits = append(r.Lits, L{l.V + d, l.Pos})
	}
	return &r
}
