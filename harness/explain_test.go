package harness

import (
	"fmt"
	"math/bits"
	"slices"

	"github.com/booleworks/logicng-go/explanation"
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/primeimplicant"
	"pgregory.net/rapid"
)

// propList is a generated list of propositions with their functions.
type propList struct {
	e     *Env
	ns    []*N
	xs    []f.Formula
	tts   []TT
	props []f.Proposition
}

func (p *propList) add(n *N, ext bool) {
	x := p.e.build(n)
	p.ns, p.xs, p.tts = append(p.ns, n), append(p.xs, x), append(p.tts, n.TT(p.e.NV))
	if ext {
		p.props = append(p.props, f.NewExtendedProposition(x, backpack(len(p.props))))
	} else {
		p.props = append(p.props, f.NewStandardProposition(x, fmt.Sprintf("p%d", len(p.props))))
	}
}

func (p *propList) dup(i int) {
	p.ns, p.xs, p.tts = append(p.ns, p.ns[i]), append(p.xs, p.xs[i]), append(p.tts, p.tts[i])
	p.props = append(p.props, p.props[i])
}

func (p *propList) conj(base TT, mask uint64) TT {
	for i, t := range p.tts {
		if mask>>i&1 == 1 {
			base = base.And(t)
		}
	}
	return base
}

// mask finds the positions of the returned propositions in the list.
func (p *propList) mask(t *rapid.T, what string, got []f.Proposition) uint64 {
	m := uint64(0)
outer:
	for _, g := range got {
		for i, q := range p.props {
			if g == q && m>>i&1 == 0 {
				m |= 1 << i
				continue outer
			}
		}
		t.Fatalf("%s returns %s, which is not (or not as often) in the input", what, p.e.str(g.Formula()))
	}
	return m
}

func (p *propList) checkMinimal(t *rapid.T, what string, base TT, m uint64) {
	if !p.conj(base, m).IsFalse() {
		t.Fatalf("%s: the returned set %b is satisfiable", what, m)
	}
	for i := range p.tts {
		if m>>i&1 == 1 && p.conj(base, m&^(1<<i)).IsFalse() {
			t.Fatalf("%s: the returned set %b is unsatisfiable without its element %s", what, m, p.e.nstr(p.ns[i]))
		}
	}
}

func genPropList(t *rapid.T, e *Env, n int) *propList {
	p := &propList{e: e}
	g := Gen{NV: e.NV, Consts: true, CC: true, PBC: true}
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, 19).Draw(t, "pkind")
		switch {
		case k == 0 && len(p.props) > 0:
			p.dup(rapid.IntRange(0, len(p.props)-1).Draw(t, "dup"))
			continue
		case k == 1 && len(p.props) > 0:
			p.add(p.ns[rapid.IntRange(0, len(p.props)-1).Draw(t, "same")], rapid.Bool().Draw(t, "ext"))
			continue
		case k <= 4:
			g.Depth = rapid.IntRange(0, 3).Draw(t, "depth")
			p.add(g.draw(t, "f"), k == 2)
		default:
			p.add(genClauseN(t, e.NV, 3), k == 5)
		}
	}
	return p
}

func musRun(t *rapid.T, e *Env, ins bool, p *propList, h handler.Handler) (*explanation.UnsatCore, handler.State, error) {
	in := slices.Clone(p.props)
	defer func() {
		if !slices.Equal(in, p.props) {
			t.Fatalf("the computation changed the caller's list")
		}
	}()
	if h == nil {
		var core *explanation.UnsatCore
		var err error
		if ins {
			core, err = mus.ComputeInsertionBased(e.Fac, &p.props)
		} else {
			core, err = mus.ComputeDeletionBased(e.Fac, &p.props)
		}
		return core, handler.Success(), err
	}
	if ins {
		return mus.ComputeInsertionBasedWithHandler(e.Fac, &p.props, h)
	}
	return mus.ComputeDeletionBasedWithHandler(e.Fac, &p.props, h)
}

func musCase(t *rapid.T, c *Ctx, e *Env, p *propList) {
	base := ttConst(e.NV, true)
	all := uint64(1)<<len(p.props) - 1
	unsat := p.conj(base, all).IsFalse()
	c.Case(t, unsat && len(p.props) >= 3, "%s %s", e.Mode, e.nstrs(p.ns))
	c.ClassIf(!unsat, "satisfiable input")
	first := rapid.Bool().Draw(t, "insertion first")
	for r := 0; r < 2; r++ {
		ins := (r == 0) == first
		what := map[bool]string{true: "insertion-based MUS", false: "deletion-based MUS"}[ins]
		if rapid.IntRange(0, 2).Draw(t, "cancel") == 0 {
			h := &kHandler{k: rapid.IntRange(1, 25).Draw(t, "k"), sticky: rapid.Bool().Draw(t, "sticky")}
			core, st, err := musRun(t, e, ins, p, h)
			checkCancel(t, h, st, what)
			if !st.Success {
				c.Class("canceled")
				if core != nil {
					t.Fatalf("%s: canceled, but a core was returned", what)
				}
			} else if (err == nil) != unsat {
				t.Fatalf("%s: error %v, but unsatisfiable: %v", what, err, unsat)
			}
		}
		core, st, err := musRun(t, e, ins, p, nil)
		if !st.Success {
			t.Fatalf("%s canceled by nobody", what)
		}
		if (err == nil) != unsat {
			t.Fatalf("%s: error %v, but unsatisfiable: %v", what, err, unsat)
		}
		if !unsat {
			if core != nil {
				t.Fatalf("%s: returned a core of a satisfiable list", what)
			}
			continue
		}
		m := p.mask(t, what, core.Propositions)
		p.checkMinimal(t, what, base, m)
		if !core.IsGuaranteedMUS {
			t.Fatalf("%s: not marked as guaranteed", what)
		}
		c.ClassIf(bits.OnesCount64(m) >= 4, "MUS with at least 4 elements")
	}
}

func smusRun(e *Env, forms bool, p *propList, adds []f.Formula, h handler.Handler) ([]f.Proposition, []f.Formula, bool, handler.State) {
	st := handler.Success()
	if forms {
		var got []f.Formula
		if h == nil {
			got = smus.ComputeForFormulas(e.Fac, p.xs, adds...)
		} else {
			got, st = smus.ComputeForFormulasWithHandler(e.Fac, p.xs, h, adds...)
		}
		return nil, got, got != nil, st
	}
	var got []f.Proposition
	if h == nil {
		got = smus.Compute(e.Fac, p.props, adds...)
	} else {
		got, st = smus.ComputeWithHandler(e.Fac, p.props, h, adds...)
	}
	return got, nil, got != nil, st
}

func smusCase(t *rapid.T, c *Ctx, e *Env, p *propList, adds []*N) {
	base := conj(e.NV, adds)
	var ax []f.Formula
	for _, n := range adds {
		ax = append(ax, e.build(n))
	}
	n := len(p.props)
	best := -1
	for k := 0; k <= n && best < 0; k++ {
		for m := uint64(0); m < 1<<n; m++ {
			if bits.OnesCount64(m) == k && p.conj(base, m).IsFalse() {
				best = k
				break
			}
		}
	}
	c.Case(t, best >= 2, "%s %s with %s", e.Mode, e.nstrs(p.ns), e.nstrs(adds))
	c.ClassIf(best < 0, "satisfiable input")
	c.ClassIf(best == 0, "unsatisfiable additional constraints")
	c.ClassIf(best >= 4, "SMUS with at least 4 elements")
	for r := rapid.IntRange(1, 2).Draw(t, "rounds"); r > 0; r-- {
		forms := rapid.Bool().Draw(t, "formulas")
		var h handler.Handler
		var kh *kHandler
		if rapid.IntRange(0, 2).Draw(t, "cancel") == 0 {
			kh = &kHandler{k: rapid.IntRange(1, 40).Draw(t, "k"), sticky: rapid.Bool().Draw(t, "sticky")}
			h = kh
		}
		gp, gf, ok, st := smusRun(e, forms, p, ax, h)
		if kh != nil {
			checkCancel(t, kh, st, "SMUS")
			if !st.Success {
				if ok {
					t.Fatalf("SMUS: canceled, but a result was returned")
				}
				c.Class("canceled")
				gp, gf, ok, st = smusRun(e, forms, p, ax, nil)
			}
		}
		if !st.Success {
			t.Fatalf("SMUS canceled by nobody")
		}
		if ok != (best >= 0) {
			t.Fatalf("SMUS found: %v, but the size of a smallest MUS is %d", ok, best)
		}
		if !ok {
			continue
		}
		var m uint64
		if forms {
		outer:
			for _, x := range gf {
				for i, y := range p.xs {
					if x == y && m>>i&1 == 0 {
						m |= 1 << i
						continue outer
					}
				}
				t.Fatalf("SMUS returns %s, which is not in the input", e.str(x))
			}
		} else {
			m = p.mask(t, "SMUS", gp)
		}
		p.checkMinimal(t, "SMUS", base, m)
		if bits.OnesCount64(m) != best {
			t.Fatalf("SMUS has %d elements, the smallest has %d", bits.OnesCount64(m), best)
		}
	}
}

var _ = registerProp("X01", "lists of propositions (clauses, units, formulas, constraints, duplicates), with additional constraints and cancelation at a generated event, against brute-force minimality and minimum cardinality, and on problems over tens of variables with a chain structure (oracle: dynamic programming); non-trivial: unsatisfiable with at least 3 propositions (MUS) or a smallest MUS of at least 2 elements (SMUS)",
	sub("long", 150, 2, 12, x01Long),
	sub("mus", 20000, 6, 12, func(t *rapid.T, c *Ctx) {
		e := mkEnv(genNames(t), rapid.IntRange(1, 5).Draw(t, "nv"), rapid.IntRange(0, 3).Draw(t, "conserve") == 3)
		n := rapid.IntRange(0, 14).Draw(t, "n")
		if rapid.IntRange(0, 3).Draw(t, "more") > 0 {
			n += 4
		}
		musCase(t, c, e, genPropList(t, e, n))
	}),
	sub("clauses", 4000, 4, 12, func(t *rapid.T, c *Ctx) {
		e := mkEnv(genNames(t), rapid.IntRange(4, 9).Draw(t, "nv"), false)
		cs, _ := genClauses(t, e.NV, 3, rapid.IntRange(3*e.NV, 6*e.NV).Draw(t, "m"))
		p := &propList{e: e}
		for _, cl := range cs {
			n := nOp(OpOr)
			for _, l := range cl {
				n.Kids = append(n.Kids, nLit(l.V, l.Pos))
			}
			p.add(n, false)
		}
		musCase(t, c, e, p)
	}),
	sub("smus2", 1500, 8, 12, func(t *rapid.T, c *Ctx) {
		// clause sets with larger and differently sized MUSes
		e := mkEnv(genNames(t), rapid.IntRange(2, 4).Draw(t, "nv"), false)
		p := &propList{e: e}
		cs, _ := genClauses(t, e.NV, 2, rapid.IntRange(6, 12).Draw(t, "m"))
		var adds []*N
		move := rapid.IntRange(0, 3).Draw(t, "additional")
		for _, cl := range cs {
			n := nOp(OpOr)
			for _, l := range cl {
				n.Kids = append(n.Kids, nLit(l.V, l.Pos))
			}
			if rapid.IntRange(0, 4).Draw(t, "move") < move-1 {
				adds = append(adds, n)
			} else {
				p.add(n, false)
			}
		}
		smusCase(t, c, e, p, adds)
	}),
	sub("smus", 6000, 8, 12, func(t *rapid.T, c *Ctx) {
		e := mkEnv(genNames(t), rapid.IntRange(1, 5).Draw(t, "nv"), rapid.IntRange(0, 3).Draw(t, "conserve") == 3)
		p := genPropList(t, e, rapid.IntRange(0, 10).Draw(t, "n"))
		var adds []*N
		for i := rapid.IntRange(0, pick(t, "maxadds", 2, 2, 8)).Draw(t, "adds"); i > 0; i-- {
			adds = append(adds, genSatN(t, e.NV))
		}
		smusCase(t, c, e, p, adds)
	}),
	sub("chain", 400, 4, 12, x01Chain),
	sub("paths", 400, 4, 12, x01Paths),
)

// ---- R01 ----

// term is a conjunction of literals over the variable indices.
type term struct{ pos, neg int }

func (x term) tt(nv int) TT {
	r := ttConst(nv, true)
	for v := 0; v < nv; v++ {
		if x.pos>>v&1 == 1 {
			r = r.And(ttVar(nv, v))
		}
		if x.neg>>v&1 == 1 {
			r = r.And(ttVar(nv, v).Not())
		}
	}
	return r
}

func (x term) size() int { return bits.OnesCount(uint(x.pos)) + bits.OnesCount(uint(x.neg)) }

// primes computes all prime implicants by brute force.
func primes(want TT) map[term]bool {
	nv := want.N
	imp := map[term]bool{}
	var rec func(v int, x term, rest TT)
	rec = func(v int, x term, rest TT) {
		if v == nv {
			if rest.IsTrue() {
				imp[x] = true
			}
			return
		}
		rec(v+1, x, rest)
		rec(v+1, term{x.pos | 1<<v, x.neg}, rest.Cof(v, true))
		rec(v+1, term{x.pos, x.neg | 1<<v}, rest.Cof(v, false))
	}
	rec(0, term{}, want)
	r := map[term]bool{}
outer:
	for x := range imp {
		for v := 0; v < nv; v++ {
			if x.pos>>v&1 == 1 && imp[term{x.pos &^ (1 << v), x.neg}] || x.neg>>v&1 == 1 && imp[term{x.pos, x.neg &^ (1 << v)}] {
				continue outer
			}
		}
		r[x] = true
	}
	return r
}

func (e *Env) term(t *rapid.T, ls []f.Literal, flip bool) term {
	val, mask := e.litsAss(t, ls)
	if flip {
		return term{mask &^ val, val}
	}
	return term{val, mask &^ val}
}

// checkPrimes checks a list of implicants (or, negated, of implicates).
func checkPrimes(t *rapid.T, e *Env, what string, got [][]f.Literal, want TT, flip, complete bool) int {
	all := primes(want)
	cover := ttConst(e.NV, false)
	seen := map[term]bool{}
	for _, ls := range got {
		x := e.term(t, ls, flip)
		if !all[x] {
			t.Fatalf("%s: %s is not prime", what, e.lstr(ls))
		}
		if seen[x] {
			t.Fatalf("%s: %s is reported twice", what, e.lstr(ls))
		}
		seen[x] = true
		cover = cover.Or(x.tt(e.NV))
	}
	if !cover.Equal(want) {
		t.Fatalf("%s: %d primes do not cover the formula", what, len(got))
	}
	if complete && len(seen) != len(all) {
		t.Fatalf("%s: %d of %d primes reported", what, len(seen), len(all))
	}
	return len(all)
}

func (e *Env) lstr(ls []f.Literal) string {
	s := ""
	for _, l := range ls {
		s += l.Sprint(e.Fac) + " "
	}
	return "[" + s + "]"
}

var _ = registerProp("R01", "formulas (constants, constraints, all operators, both factory modes) x direction x cover kind, with cancelation at a generated event, against all primes computed by brute force, and on problems over tens of variables with a chain structure (oracle: dynamic programming); non-trivial: at least 3 prime implicants",
	sub("long", 300, 2, 12, r01Long),
	sub("primes", 8000, 8, 12, func(t *rapid.T, c *Ctx) {
		nv := rapid.SampledFrom([]int{4, 5, 3, 6, 2, 1}).Draw(t, "nv")
		e := mkEnv(genNames(t), nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 3)
		g := Gen{NV: nv, Consts: true, CC: rapid.Bool().Draw(t, "cc"), PBC: rapid.IntRange(0, 3).Draw(t, "pbc") == 0}
		var ks []*N
		for i := rapid.SampledFrom([]int{2, 1, 3, 4}).Draw(t, "parts"); i > 0; i-- {
			if rapid.Bool().Draw(t, "simple") {
				ks = append(ks, genClauseN(t, nv, 3))
			} else {
				g.Depth = rapid.IntRange(0, 3).Draw(t, "depth")
				ks = append(ks, g.draw(t, "f"))
			}
		}
		n := ks[0]
		if len(ks) > 1 {
			n = nOp([]Op{OpAnd, OpOr}[rapid.IntRange(0, 1).Draw(t, "join")], ks...)
		}
		want := n.TT(nv)
		x := e.build(n)
		all := primes(want)
		c.Case(t, len(all) >= 3, "%s %s", e.Mode, e.nstr(n))
		c.ClassIf(!noCC(e.Fac, x), "constraints")
		for r := rapid.IntRange(1, 2).Draw(t, "rounds"); r > 0; r-- {
			if rapid.IntRange(0, 2).Draw(t, "minimum") == 0 {
				got, err := primeimplicant.Minimum(e.Fac, x)
				if (err == nil) != !want.IsFalse() {
					t.Fatalf("Minimum: error %v, satisfiable: %v", err, !want.IsFalse())
				}
				if err == nil {
					y := e.term(t, got, false)
					if !all[y] {
						t.Fatalf("Minimum: %s is not a prime implicant", e.lstr(got))
					}
					for z := range all {
						if z.size() < y.size() {
							t.Fatalf("Minimum: %s has %d literals, but there is a prime implicant with %d", e.lstr(got), y.size(), z.size())
						}
					}
				}
				c.Class("minimum")
				continue
			}
			sort := []primeimplicant.CoverSort{primeimplicant.CoverImplicants, primeimplicant.CoverImplicates}[rapid.IntRange(0, 1).Draw(t, "sort")]
			max := rapid.Bool().Draw(t, "max")
			run := func(h handler.Handler) (*primeimplicant.PrimeResult, handler.State) {
				switch {
				case h == nil && max:
					return primeimplicant.CoverMax(e.Fac, x, sort), handler.Success()
				case h == nil:
					return primeimplicant.CoverMin(e.Fac, x, sort), handler.Success()
				case max:
					return primeimplicant.CoverMaxWithHandler(e.Fac, x, sort, h)
				}
				return primeimplicant.CoverMinWithHandler(e.Fac, x, sort, h)
			}
			var h handler.Handler
			var kh *kHandler
			if rapid.IntRange(0, 2).Draw(t, "cancel") == 0 {
				kh = &kHandler{k: rapid.IntRange(1, 60).Draw(t, "k"), sticky: rapid.Bool().Draw(t, "sticky")}
				h = kh
			}
			res, st := run(h)
			if kh != nil {
				checkCancel(t, kh, st, "prime cover")
				if !st.Success {
					if res != nil {
						t.Fatalf("canceled, but a result was returned")
					}
					c.Class("canceled")
					res, _ = run(nil)
				}
			}
			if res.CoverSort != sort {
				t.Fatalf("wrong cover sort reported")
			}
			what := fmt.Sprintf("cover (sort %d, max %v)", sort, max)
			checkPrimes(t, e, what+" implicants", res.Implicants, want, false, sort == primeimplicant.CoverImplicants)
			checkPrimes(t, e, what+" implicates", res.Implicates, want.Not(), true, sort == primeimplicant.CoverImplicates)
			c.Class("cover")
		}
	}),
	sub("chain", 200, 4, 12, r01Chain),
)

type backpack int

func (b backpack) String() string { return fmt.Sprintf("extra %d", int(b)) }
