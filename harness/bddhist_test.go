package harness

import (
	"fmt"
	"math/big"
	"slices"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	"pgregory.net/rapid"
)

var reorderMethods = []bdd.ReorderingMethod{bdd.ReorderNone, bdd.ReorderWin2, bdd.ReorderWin2Ite, bdd.ReorderSift, bdd.ReorderSiftIte, bdd.ReorderWin3, bdd.ReorderWin3Ite, bdd.ReorderRandom}

// genBlocks draws nested, non-overlapping blocks of the positions lo..hi.
func genBlocks(t *rapid.T, lo, hi, depth int) []*bddBlock {
	var r []*bddBlock
	for p := lo; p <= hi; {
		if rapid.IntRange(0, 4).Draw(t, "gap") == 4 {
			p++
			continue
		}
		last := min(hi, p+rapid.IntRange(0, 3).Draw(t, "size"))
		b := &bddBlock{first: p, last: last, fixed: rapid.IntRange(0, 3).Draw(t, "fixed") == 3}
		if depth > 0 && last > p && rapid.Bool().Draw(t, "nested") {
			b.kids = genBlocks(t, p, last, depth-1)
			if len(b.kids) == 1 && b.kids[0].first == b.first && b.kids[0].last == b.last {
				b.kids = nil
			}
		}
		r = append(r, b)
		p = last + 1
	}
	return r
}

func flatBlocks(bs []*bddBlock) []*bddBlock {
	var r []*bddBlock
	for _, b := range bs {
		r = append(r, b)
		r = append(r, flatBlocks(b.kids)...)
	}
	return r
}

func blocksStr(bs []*bddBlock) string {
	var p []string
	for _, b := range bs {
		s := fmt.Sprintf("%d-%d", b.first, b.last)
		if b.fixed {
			s += "!"
		}
		if len(b.kids) > 0 {
			s += blocksStr(b.kids)
		}
		p = append(p, s)
	}
	return "[" + strings.Join(p, " ") + "]"
}

// checkBlocks verifies that the order respects the blocks: every block is
// contiguous, a fixed block keeps the order of its child blocks, variables of
// a block which are in no child block keep their relative order, and without
// blocks nothing moves.
func (m *bddM) checkBlocks(order []int) {
	pos := map[int]int{} // index -> level
	for l, v := range order {
		pos[slices.Index(m.known, v)] = l
	}
	keepOrder := func(what string, idx []int) {
		for i := 1; i < len(idx); i++ {
			if pos[idx[i-1]] > pos[idx[i]] {
				m.t.Fatalf("%s does not keep its order: %v (blocks %s)", what, m.e.vstrs(m.e.vars(order)), blocksStr(m.blocks))
			}
		}
	}
	var rec func(bs []*bddBlock, fixed bool, name string)
	rec = func(bs []*bddBlock, fixed bool, name string) {
		var firsts []int
		for _, b := range bs {
			lo, hi := len(order), -1
			for i := b.first; i <= b.last; i++ {
				lo, hi = min(lo, pos[i]), max(hi, pos[i])
			}
			if hi-lo != b.last-b.first {
				m.t.Fatalf("block %d-%d is torn apart: %v (blocks %s)", b.first, b.last, m.e.vstrs(m.e.vars(order)), blocksStr(m.blocks))
			}
			firsts = append(firsts, b.first)
			var free []int
			for i := b.first; i <= b.last; i++ {
				if !slices.ContainsFunc(b.kids, func(k *bddBlock) bool { return k.first <= i && i <= k.last }) {
					free = append(free, i)
				}
			}
			if len(b.kids) == 0 {
				keepOrder(fmt.Sprintf("block %d-%d without child blocks", b.first, b.last), free)
			}
			rec(b.kids, b.fixed, fmt.Sprintf("fixed block %d-%d", b.first, b.last))
		}
		if fixed {
			keepOrder(name, firsts)
		}
	}
	rec(m.blocks, false, "")
}

func (m *bddM) checkAll() {
	var order []int
	for _, en := range m.pool {
		m.check(en)
		if order == nil {
			order = m.order(en.b)
		}
	}
	m.canonical()
	if order != nil && m.blocks != nil {
		m.checkBlocks(order)
	}
	st := m.k.Statistics()
	if st.Free < 0 || st.Used+st.Free != st.Nodes || int(st.Vars) != m.varnum {
		m.t.Fatalf("inconsistent statistics %+v", st)
	}
}

var _ = registerProp("B03", "histories on one kernel with small initial tables: compilations (also canceled), operations, queries, variable swaps, blocks, explicit reordering by every method, reordering during construction; all live BDDs and the variable order are checked after every step; kernels with thousands of operations, and on problems over tens of variables with a chain structure (oracle: dynamic programming); non-trivial: a garbage collection, a swap or a reordering with at least 2 live non-constant BDDs",
	sub("history", 6000, 8, 12, func(t *rapid.T, c *Ctx) { bddHistory(t, c, rapid.IntRange(2, 7).Draw(t, "nv"), 3, 60, 30) }),
	sub("construct", 5000, 8, 12, func(t *rapid.T, c *Ctx) {
		// reordering during construction
		nv := rapid.IntRange(4, 7).Draw(t, "nv")
		bddHistory(t, c, nv, -3, 40, 12)
	}),
	sub("long life", 160, 4, 12, bddLongLife),
	sub("chain", 300, 4, 12, b03Chain),
)

// bddLongLife performs thousands of small operations on one kernel, far more
// than the reference counters of its nodes can count.
func bddLongLife(t *rapid.T, c *Ctx) {
	nv := rapid.IntRange(2, 5).Draw(t, "nv")
	e := mkEnv(genNames(t), nv, false)
	m := &bddM{e: e, t: t, c: c, varnum: nv, known: genPerm(t, nv, "perm")}
	nodes, cache := rapid.IntRange(3, 60).Draw(t, "nodes"), rapid.IntRange(3, 60).Draw(t, "cache")
	m.k = bdd.NewKernelWithOrdering(e.Fac, e.vars(m.known), int32(nodes), int32(cache))
	g := Gen{NV: nv, Depth: 3}
	var ns []*N
	for i := rapid.IntRange(2, 12).Draw(t, "formulas"); i > 0; i-- {
		ns = append(ns, g.draw(t, "f"))
	}
	rounds := rapid.IntRange(1, 3000).Draw(t, "rounds")
	seed := uint64(rapid.Uint32().Draw(t, "seed"))
	compileOnly := rapid.Bool().Draw(t, "compileOnly")
	rare := rapid.SampledFrom([]int{0, 0, 7, 97}).Draw(t, "rare")
	next := func(n int) int {
		seed = seed*6364136223846793005 + 1442695040888963407
		return int((seed >> 33) % uint64(n))
	}
	m.note("NewKernelWithOrdering(%s, %d, %d) ; %d rounds with seed %d over %s", e.vstrs(e.vars(m.known)), nodes, cache, rounds, seed, e.nstrs(ns))
	ops := []Op{OpAnd, OpOr, OpImpl, OpEquiv}
	for r := 0; r < rounds; r++ {
		switch k := next(8); {
		case len(m.pool) < 2 || compileOnly || k < 4:
			n := ns[next(len(ns))]
			switch next(4) {
			case 0:
				n = nOp(ops[next(4)], n, ns[next(len(ns))])
			case 1:
				n = nOp(ops[next(4)], nOp(OpNot, n), nLit(next(nv), next(2) == 0))
			case 2:
				n = nOp(ops[next(4)], ns[next(len(ns))], nOp(ops[next(4)], nOp(OpNot, n), ns[next(len(ns))]))
			}
			x := e.build(n)
			m.add(bdd.CompileWithKernel(e.Fac, x, m.k), n.TT(nv), fmt.Sprintf("round %d: compile %s", r, e.nstr(n)))
		default:
			a, b := m.pool[next(len(m.pool))], m.pool[next(len(m.pool))]
			what := fmt.Sprintf("round %d: op %d on (%s) and (%s)", r, k, a.what, b.what)
			if len(what) > 600 {
				what = fmt.Sprintf("round %d: op %d", r, k)
			}
			switch k {
			case 4:
				m.add(a.b.And(b.b), a.tt.And(b.tt), what)
			case 5:
				m.add(a.b.Or(b.b), a.tt.Or(b.tt), what)
			case 6:
				m.add(a.b.Negate(), a.tt.Not(), what)
			default:
				m.add(a.b.Equivalence(b.b), a.tt.Xor(b.tt).Not(), what)
			}
		}
		last := m.pool[len(m.pool)-1]
		if got := last.b.ModelCount(); got.Cmp(big.NewInt(int64(last.tt.Count()))) != 0 {
			t.Fatalf("%s: ModelCount yields %v, expected %d", last.what, got, last.tt.Count())
		}
		if rare > 0 && next(rare) == 0 {
			if next(2) == 0 {
				if err := m.k.SwapVariables(e.v(next(nv)), e.v(next(nv))); err != nil {
					t.Fatalf("round %d: SwapVariables: %v", r, err)
				}
				c.Class("swaps")
			} else {
				m.k.Reorder(reorderMethods[next(8)])
			}
			m.checkAll()
		}
	}
	m.checkAll()
	gcs := m.k.Statistics().GC
	c.ClassIf(gcs > 0, "garbage collections")
	c.ClassIf(rounds > 1023, "more operations than a reference counter can count")
	c.Case(t, rounds > 1023 && gcs > 0, "%s", strings.Join(m.hist, " ; "))
}

func bddHistory(t *rapid.T, c *Ctx, nv, lo, hi, steps int) {
	auto := lo < 0
	if auto {
		lo = -lo
	}
	e := mkEnv(genNames(t), nv, rapid.IntRange(0, 7).Draw(t, "conserve") == 7)
	m := &bddM{e: e, t: t, c: c, varnum: nv, known: genPerm(t, nv, "perm")}
	m.gen = Gen{NV: nv, Depth: rapid.IntRange(2, 5).Draw(t, "depth"), CC: rapid.IntRange(0, 2).Draw(t, "cc") == 2}
	nodes, cache := rapid.IntRange(lo, hi).Draw(t, "nodes"), rapid.IntRange(3, 60).Draw(t, "cache")
	m.k = bdd.NewKernelWithOrdering(e.Fac, e.vars(m.known), int32(nodes), int32(cache))
	m.note("NewKernelWithOrdering(%s, %d, %d)", e.vstrs(e.vars(m.known)), nodes, cache)
	swapped, reordered := 0, 0
	setBlocks := func() {
		if rapid.Bool().Draw(t, "allBlocks") {
			m.note("AddAllVariablesAsBlock")
			m.k.AddAllVariablesAsBlock()
			m.blocks = nil
			for i := 0; i < nv; i++ {
				m.blocks = append(m.blocks, &bddBlock{first: i, last: i})
			}
			m.noSwap = true
			return
		}
		if swapped > 0 {
			return // blocks are defined by the initial order
		}
		bs := genBlocks(t, 0, nv-1, 2)
		if len(bs) == 0 {
			return
		}
		flat := flatBlocks(bs)
		m.note("blocks %s", blocksStr(bs))
		for _, i := range genPerm(t, len(flat), "blockorder") {
			m.k.AddVariableBlock(int32(flat[i].first), int32(flat[i].last), flat[i].fixed)
		}
		m.blocks = bs
		m.noSwap = true
	}
	if auto {
		setBlocks()
		meth := reorderMethods[rapid.IntRange(1, 7).Draw(t, "method")]
		bound := rapid.IntRange(1, 50).Draw(t, "bound")
		m.note("ActivateReorderDuringBuild(%s, %d)", meth, bound)
		m.k.ActivateReorderDuringBuild(meth, int32(bound))
	}
	for i := rapid.IntRange(2, steps).Draw(t, "steps"); i > 0; i-- {
		switch k := rapid.IntRange(0, 19).Draw(t, "step"); {
		case k <= 11 || len(m.pool) == 0:
			m.step()
		case k == 12:
			x := e.build(m.gen.draw(t, "f"))
			if !auxFree(e.Fac, x) {
				continue
			}
			h := &kHandler{k: rapid.IntRange(1, 12).Draw(t, "cancelAt")}
			m.learn(x)
			m.note("canceled compile %s", e.str(x))
			b, state := bdd.CompileWithKernelAndHandler(e.Fac, x, m.k, h)
			if state.Success == (b == nil) || state.Success == h.canceled {
				t.Fatalf("compile with handler: state %v, BDD %v, handler canceled: %v", state, b, h.canceled)
			}
		case k == 13 || k == 14:
			en := m.pick("bdd")
			q := rapid.IntRange(0, bddQueries-1).Draw(t, "query")
			m.note("query %d of %s", q, en.what)
			m.query(en, q)
		case k == 15 || k == 16:
			if m.noSwap {
				continue
			}
			a, b := rapid.IntRange(0, nv-1).Draw(t, "swap1"), rapid.IntRange(0, nv-1).Draw(t, "swap2")
			before := m.order(m.pool[0].b)
			m.note("swap %s %s", e.Names[a], e.Names[b])
			if err := m.k.SwapVariables(e.v(a), e.v(b)); err != nil {
				t.Fatalf("SwapVariables: %v", err)
			}
			ia, ib := slices.Index(before, a), slices.Index(before, b)
			before[ia], before[ib] = before[ib], before[ia]
			if got := m.order(m.pool[0].b); !slices.Equal(got, before) {
				t.Fatalf("order after the swap: %v, expected %v", e.vstrs(e.vars(got)), e.vstrs(e.vars(before)))
			}
			swapped++
		case k == 17:
			if m.blocks == nil {
				setBlocks()
			}
		default:
			meth := reorderMethods[rapid.IntRange(0, 7).Draw(t, "method")]
			before := m.order(m.pool[0].b)
			m.note("reorder %s", meth)
			m.k.Reorder(meth)
			got := m.order(m.pool[0].b)
			if m.blocks == nil && !slices.Equal(before, got) {
				t.Fatalf("reordering without blocks changes the order: %v -> %v", e.vstrs(e.vars(before)), e.vstrs(e.vars(got)))
			}
			if !slices.Equal(before, got) {
				c.Class("order changed by " + meth.String())
			}
			reordered++
		}
		m.checkAll()
	}
	for _, en := range m.pool {
		m.shape(en)
		m.query(en, rapid.IntRange(0, bddQueries-1).Draw(t, "lastquery"))
	}
	nt := 0
	for _, en := range m.pool {
		if !en.tt.IsTrue() && !en.tt.IsFalse() {
			nt++
		}
	}
	gcs := m.k.Statistics().GC
	c.ClassIf(gcs > 0, "garbage collections")
	c.ClassIf(swapped > 0, "swaps")
	c.ClassIf(reordered > 0, "reorderings")
	if auto && len(m.pool) > 0 && !slices.Equal(m.order(m.pool[0].b), m.known) {
		c.Class("order changed during construction or reordering")
	}
	c.Case(t, nt >= 2 && (gcs > 0 || swapped > 0 || reordered > 0), "%s", strings.Join(m.hist, " ; "))
}
