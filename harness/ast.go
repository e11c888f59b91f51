package harness

import (
	"fmt"
	"sort"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	"pgregory.net/rapid"
)

// Op is the operator of the harness' own syntax tree.
type Op int

const (
	OpFalse Op = iota
	OpTrue
	OpLit
	OpNot
	OpAnd
	OpOr
	OpImpl
	OpEquiv
	OpPBC // all cardinality and pseudo-Boolean constraints
)

// L is a literal over a variable index.
type L struct {
	V   int
	Pos bool
}

// Cmp is a comparator with the same order as formula.CSort.
type Cmp int

const (
	EQ Cmp = iota
	LE
	LT
	GE
	GT
)

func (c Cmp) Eval(l, r int) bool {
	switch c {
	case EQ:
		return l == r
	case LE:
		return l <= r
	case LT:
		return l < r
	case GE:
		return l >= r
	}
	return l > r
}

func (c Cmp) Sort() f.CSort { return []f.CSort{f.EQ, f.LE, f.LT, f.GE, f.GT}[c] }
func (c Cmp) String() string {
	return []string{"=", "<=", "<", ">=", ">"}[c]
}

func cmpOf(c f.CSort) Cmp {
	switch c {
	case f.EQ:
		return EQ
	case f.LE:
		return LE
	case f.LT:
		return LT
	case f.GE:
		return GE
	}
	return GT
}

// N is a node of the harness' own syntax tree: the requested composition.
type N struct {
	Op    Op
	Kids  []*N
	Lit   L
	Cmp   Cmp
	Rhs   int
	Lits  []L
	Cs    []int
	Route int // which constructor is used
}

func nLit(v int, pos bool) *N  { return &N{Op: OpLit, Lit: L{v, pos}} }
func nOp(op Op, kids ...*N) *N { return &N{Op: op, Kids: kids} }
func nCC(c Cmp, k int, vs ...int) *N {
	n := &N{Op: OpPBC, Cmp: c, Rhs: k}
	for _, v := range vs {
		n.Lits = append(n.Lits, L{v, true})
		n.Cs = append(n.Cs, 1)
	}
	return n
}

// TT computes the truth table of the composition over nv variables.
func (n *N) TT(nv int) TT {
	switch n.Op {
	case OpFalse:
		return ttConst(nv, false)
	case OpTrue:
		return ttConst(nv, true)
	case OpLit:
		return ttLit(nv, n.Lit.V, n.Lit.Pos)
	case OpNot:
		return n.Kids[0].TT(nv).Not()
	case OpAnd:
		r := ttConst(nv, true)
		for _, k := range n.Kids {
			r = r.And(k.TT(nv))
		}
		return r
	case OpOr:
		r := ttConst(nv, false)
		for _, k := range n.Kids {
			r = r.Or(k.TT(nv))
		}
		return r
	case OpImpl:
		return n.Kids[0].TT(nv).Imp(n.Kids[1].TT(nv))
	case OpEquiv:
		return n.Kids[0].TT(nv).Eqv(n.Kids[1].TT(nv))
	}
	return ttPBC(nv, n.Cmp, n.Rhs, n.Lits, n.Cs)
}

func ttPBC(nv int, cmp Cmp, rhs int, lits []L, cs []int) TT {
	r := ttConst(nv, false)
	for i := 0; i < 1<<nv; i++ {
		s := 0
		for j, l := range lits {
			if (i>>l.V&1 == 1) == l.Pos {
				s += cs[j]
			}
		}
		if cmp.Eval(s, rhs) {
			r.Set(i, true)
		}
	}
	return r
}

func (n *N) collectVars(m map[int]bool) {
	switch n.Op {
	case OpLit:
		m[n.Lit.V] = true
	case OpPBC:
		for _, l := range n.Lits {
			m[l.V] = true
		}
	}
	for _, k := range n.Kids {
		k.collectVars(m)
	}
}

func (n *N) vars() []int {
	m := map[int]bool{}
	n.collectVars(m)
	return sortedKeys(m)
}

func sortedKeys(m map[int]bool) []int {
	r := []int{}
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func (n *N) size() int {
	s := 1
	for _, k := range n.Kids {
		s += k.size()
	}
	return s
}

func (n *N) has(op Op) bool {
	if n.Op == op {
		return true
	}
	for _, k := range n.Kids {
		if k.has(op) {
			return true
		}
	}
	return false
}

// Names maps variable indices to names.
type Names []string

func (n *N) str(names Names) string {
	lit := func(l L) string {
		if l.Pos {
			return names[l.V]
		}
		return "~" + names[l.V]
	}
	kids := func(sep string) string {
		var s []string
		for _, k := range n.Kids {
			s = append(s, k.str(names))
		}
		return "(" + strings.Join(s, sep) + ")"
	}
	switch n.Op {
	case OpFalse:
		return "F"
	case OpTrue:
		return "T"
	case OpLit:
		return lit(n.Lit)
	case OpNot:
		return "~" + kids("")
	case OpAnd:
		return kids(" & ")
	case OpOr:
		return kids(" | ")
	case OpImpl:
		return kids(" => ")
	case OpEquiv:
		return kids(" <=> ")
	}
	var s []string
	for i, l := range n.Lits {
		s = append(s, fmt.Sprintf("%d*%s", n.Cs[i], lit(l)))
	}
	return fmt.Sprintf("[%s %s %d]", strings.Join(s, " + "), n.Cmp, n.Rhs)
}

func litOf(fac f.Factory, names Names, l L) f.Literal { return fac.Lit(names[l.V], l.Pos) }

func (n *N) isCC() bool {
	if n.Op != OpPBC || n.Rhs < 0 {
		return false
	}
	for i, l := range n.Lits {
		if !l.Pos || n.Cs[i] != 1 {
			return false
		}
	}
	return true
}

// Build constructs the composition with the factory's constructors.
func (n *N) Build(fac f.Factory, names Names) f.Formula {
	ks := make([]f.Formula, len(n.Kids))
	for i, k := range n.Kids {
		ks[i] = k.Build(fac, names)
	}
	return n.buildWith(fac, names, ks)
}

func (n *N) allLits() ([]L, bool) {
	var r []L
	for _, k := range n.Kids {
		if k.Op != OpLit {
			return nil, false
		}
		r = append(r, k.Lit)
	}
	return r, true
}

func mustF(x f.Formula, err error) f.Formula {
	if err != nil {
		panic(err)
	}
	return x
}

func (n *N) buildWith(fac f.Factory, names Names, ks []f.Formula) f.Formula {
	switch n.Op {
	case OpFalse, OpTrue:
		if n.Route == 1 {
			return fac.Constant(n.Op == OpTrue)
		}
		if n.Op == OpTrue {
			return fac.Verum()
		}
		return fac.Falsum()
	case OpLit:
		if n.Route == 1 && n.Lit.Pos {
			return fac.Variable(names[n.Lit.V])
		}
		return fac.Literal(names[n.Lit.V], n.Lit.Pos)
	case OpNot:
		if n.Route == 1 {
			return ks[0].Negate(fac)
		}
		return fac.Not(ks[0])
	case OpAnd, OpOr:
		s := f.SortAnd
		if n.Op == OpOr {
			s = f.SortOr
		}
		if lits, ok := n.allLits(); ok && n.Route == 2 {
			var ls []f.Literal
			for _, l := range lits {
				ls = append(ls, litOf(fac, names, l))
			}
			if n.Op == OpAnd {
				return fac.Minterm(ls...)
			}
			return fac.Clause(ls...)
		}
		if n.Route == 1 {
			return mustF(fac.NaryOperator(s, ks...))
		}
		if n.Op == OpAnd {
			return fac.And(ks...)
		}
		return fac.Or(ks...)
	case OpImpl:
		if n.Route == 1 {
			return mustF(fac.BinaryOperator(f.SortImpl, ks[0], ks[1]))
		}
		return fac.Implication(ks[0], ks[1])
	case OpEquiv:
		if n.Route == 1 {
			return mustF(fac.BinaryOperator(f.SortEquiv, ks[0], ks[1]))
		}
		return fac.Equivalence(ks[0], ks[1])
	}
	if n.isCC() && n.Route != 2 {
		var vs []f.Variable
		for _, l := range n.Lits {
			vs = append(vs, fac.Var(names[l.V]))
		}
		if n.Rhs == 1 && n.Route == 1 {
			if n.Cmp == LE {
				return fac.AMO(vs...)
			}
			if n.Cmp == EQ {
				return fac.EXO(vs...)
			}
		}
		return fac.CC(n.Cmp.Sort(), uint32(n.Rhs), vs...)
	}
	var ls []f.Literal
	for _, l := range n.Lits {
		ls = append(ls, litOf(fac, names, l))
	}
	return fac.PBC(n.Cmp.Sort(), n.Rhs, ls, append([]int(nil), n.Cs...))
}

// Reader reads factory formulas structurally.
type Reader struct {
	Fac  f.Factory
	Idx  map[string]int
	NV   int
	memo map[f.Formula]TT
}

func newReader(fac f.Factory, names Names, nv int) *Reader {
	m := map[string]int{}
	for i, s := range names {
		m[s] = i
	}
	return &Reader{fac, m, nv, map[f.Formula]TT{}}
}

type unknownVar string

func (r *Reader) lit(l f.Literal) L {
	name, phase, ok := r.Fac.LitNamePhase(l)
	if !ok {
		panic(unknownVar("literal without name"))
	}
	i, ok := r.Idx[name]
	if !ok || i >= r.NV {
		panic(unknownVar(name))
	}
	return L{i, phase}
}

// TT reads the formula's function from its operands.  Panics with unknownVar
// when a variable outside the name table occurs.
func (r *Reader) TT(x f.Formula) TT {
	if t, ok := r.memo[x]; ok {
		return t
	}
	t := r.tt(x)
	r.memo[x] = t
	return t
}

func (r *Reader) tt(x f.Formula) TT {
	nv := r.NV
	switch x.Sort() {
	case f.SortFalse:
		return ttConst(nv, false)
	case f.SortTrue:
		return ttConst(nv, true)
	case f.SortLiteral:
		l := r.lit(f.Literal(x))
		return ttLit(nv, l.V, l.Pos)
	case f.SortNot:
		op, _ := r.Fac.NotOperand(x)
		return r.TT(op).Not()
	case f.SortImpl:
		a, b, _ := r.Fac.BinaryLeftRight(x)
		return r.TT(a).Imp(r.TT(b))
	case f.SortEquiv:
		a, b, _ := r.Fac.BinaryLeftRight(x)
		return r.TT(a).Eqv(r.TT(b))
	case f.SortAnd, f.SortOr:
		ops, ok := r.Fac.NaryOperands(x)
		if !ok {
			panic("no nary operands")
		}
		t := ttConst(nv, x.Sort() == f.SortAnd)
		for _, o := range ops {
			if x.Sort() == f.SortAnd {
				t = t.And(r.TT(o))
			} else {
				t = t.Or(r.TT(o))
			}
		}
		return t
	case f.SortCC, f.SortPBC:
		c, rhs, lits, cs, ok := r.Fac.PBCOps(x)
		if !ok {
			panic("no pbc ops")
		}
		var ls []L
		for _, l := range lits {
			ls = append(ls, r.lit(l))
		}
		return ttPBC(nv, cmpOf(c), rhs, ls, cs)
	}
	panic("unknown sort")
}

// ---- generators ----

// Gen configures the formula generator.
type Gen struct {
	NV      int
	Depth   int
	MaxOps  int
	Consts  bool
	CC      bool
	PBC     bool
	AMOOnly bool
	NoImpl  bool
}

var namePools = []Names{
	{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"},
	{"x1", "x10", "x2", "x11", "x3", "x20", "x4", "x0", "x5", "x12", "x6", "x7", "x8", "x9"},
	{"z", "y", "x", "w", "v", "u", "t", "s", "r", "q", "p", "o", "n", "m"},
	{"B", "a", "A", "b", "_c", "C1", "c1", "a_", "a_1", "AB", "aB", "Ab", "bb", "B2"},
	{"v", "v_POS", "v_NEG", "v_POS_NEG", "_v", "v_", "__", "v1", "v1_POS", "RESERVED", "CNF", "v_0", "v0", "sel"},
}

func genNames(t *rapid.T) Names {
	return namePools[rapid.IntRange(0, len(namePools)-1).Draw(t, "names")]
}

// genNV draws the number of variables: usually lo to hi, sometimes up to big.
func genNV(t *rapid.T, lo, hi, big int) int {
	if rapid.IntRange(0, 19).Draw(t, "many") == 19 {
		return rapid.IntRange(hi+1, big).Draw(t, "nv")
	}
	return rapid.IntRange(lo, hi).Draw(t, "nv")
}

func genLit(t *rapid.T, nv int) L {
	x := rapid.IntRange(0, 2*nv-1).Draw(t, "lit")
	return L{x / 2, x%2 == 0}
}

func (g Gen) draw(t *rapid.T, label string) *N {
	return g.gen(t, g.Depth)
}

func (g Gen) gen(t *rapid.T, d int) *N {
	if g.MaxOps == 0 {
		g.MaxOps = 4
	}
	leaf := d <= 0
	if !leaf {
		leaf = rapid.IntRange(0, 9).Draw(t, "leaf") == 0
	}
	if leaf {
		return g.atom(t)
	}
	route := rapid.IntRange(0, 2).Draw(t, "route")
	var n *N
	switch k := rapid.IntRange(0, 11).Draw(t, "op"); {
	case k <= 1:
		n = nOp(OpNot, g.gen(t, d-1))
	case k <= 7 || g.NoImpl:
		op := OpAnd
		if k%2 == 0 {
			op = OpOr
		}
		m := rapid.IntRange(0, 19).Draw(t, "arity")
		switch {
		case m == 0:
			m = 0
		case m == 1:
			m = 1
		case m < 10:
			m = 2
		case m == 19 && g.MaxOps >= 4 && rapid.IntRange(0, 2).Draw(t, "wide") == 2:
			// a wide operator with small operands
			m = rapid.IntRange(5, 9).Draw(t, "width")
			d = min(d, 1+m%2)
		default:
			m = 2 + m%(g.MaxOps-1)
		}
		if m < 2 && !g.Consts {
			m = 2
		}
		n = nOp(op)
		for i := 0; i < m; i++ {
			if i > 0 && rapid.IntRange(0, 7).Draw(t, "rep") == 0 {
				// repeat or complement an earlier operand
				j := rapid.IntRange(0, i-1).Draw(t, "repidx")
				switch rapid.IntRange(0, 3).Draw(t, "repkind") {
				case 0:
					n.Kids = append(n.Kids, nOp(OpNot, n.Kids[j]))
				case 1:
					// a nested operator over earlier operands and new ones
					k := nOp([]Op{OpAnd, OpOr}[rapid.IntRange(0, 1).Draw(t, "nestop")])
					for l := rapid.IntRange(2, 4).Draw(t, "nested"); l > 0; l-- {
						switch rapid.IntRange(0, 3).Draw(t, "from") {
						case 0:
							k.Kids = append(k.Kids, g.atom(t))
						case 1:
							k.Kids = append(k.Kids, nOp(OpNot, n.Kids[rapid.IntRange(0, i-1).Draw(t, "neg")]))
						default:
							k.Kids = append(k.Kids, n.Kids[rapid.IntRange(0, i-1).Draw(t, "earlier")])
						}
					}
					n.Kids = append(n.Kids, k)
				default:
					n.Kids = append(n.Kids, n.Kids[j])
				}
				continue
			}
			n.Kids = append(n.Kids, g.gen(t, d-1))
		}
	case k <= 9:
		n = nOp(OpImpl, g.gen(t, d-1), g.gen(t, d-1))
	default:
		n = nOp(OpEquiv, g.gen(t, d-1), g.gen(t, d-1))
	}
	n.Route = route
	return n
}

func (g Gen) atom(t *rapid.T) *N {
	k := rapid.IntRange(0, 19).Draw(t, "atom")
	switch {
	case k == 0 && g.Consts:
		op := OpFalse
		if rapid.Bool().Draw(t, "const") {
			op = OpTrue
		}
		return &N{Op: op, Route: rapid.IntRange(0, 1).Draw(t, "route")}
	case k >= 16 && k <= 17 && (g.CC || g.AMOOnly):
		return g.cc(t)
	case k >= 18 && g.PBC:
		return g.pbc(t)
	}
	l := genLit(t, g.NV)
	return &N{Op: OpLit, Lit: l, Route: k % 2}
}

func genSubset(t *rapid.T, nv int, min int) []int {
	for {
		m := rapid.IntRange(0, 1<<nv-1).Draw(t, "subset")
		var r []int
		for i := 0; i < nv; i++ {
			if m>>i&1 == 1 {
				r = append(r, i)
			}
		}
		if len(r) >= min {
			return r
		}
		for i := 0; len(r) < min && i < nv; i++ {
			if m>>i&1 == 0 {
				r = append(r, i)
			}
		}
		return r
	}
}

func (g Gen) cc(t *rapid.T) *N {
	min := 2
	if g.Consts {
		min = 0
	}
	vs := genSubset(t, g.NV, min)
	if g.AMOOnly {
		c := LE
		if rapid.Bool().Draw(t, "exo") {
			c = EQ
		}
		n := nCC(c, 1, vs...)
		n.Route = rapid.IntRange(0, 2).Draw(t, "route")
		return n
	}
	c := Cmp(rapid.IntRange(0, 4).Draw(t, "cmp"))
	k := rapid.IntRange(0, len(vs)+1).Draw(t, "rhs")
	if !g.Consts && len(vs) > 1 {
		// keep it non-constant
		switch c {
		case LE:
			k = k % len(vs)
		case LT, GE:
			k = 1 + k%len(vs)
		case GT:
			k = k % len(vs)
		case EQ:
			k = k % (len(vs) + 1)
		}
	}
	n := nCC(c, k, vs...)
	n.Route = rapid.IntRange(0, 2).Draw(t, "route")
	return n
}

func (g Gen) pbc(t *rapid.T) *N {
	m := rapid.IntRange(1, 5).Draw(t, "pbclen")
	n := &N{Op: OpPBC, Cmp: Cmp(rapid.IntRange(0, 4).Draw(t, "cmp")), Rhs: rapid.IntRange(-6, 8).Draw(t, "rhs")}
	used := map[int]bool{}
	for i := 0; i < m; i++ {
		l := genLit(t, g.NV)
		if used[l.V] && !rapid.Bool().Draw(t, "dup") {
			continue
		}
		used[l.V] = true
		n.Lits = append(n.Lits, l)
		n.Cs = append(n.Cs, rapid.IntRange(-5, 5).Draw(t, "coeff"))
	}
	n.Route = 2
	return n
}
