package harness

import (
	"fmt"

	"github.com/booleworks/logicng-go/assignment"
	f "github.com/booleworks/logicng-go/formula"
	"pgregory.net/rapid"
)

// Env is one factory with its variable names and structural reader.
type Env struct {
	Fac   f.Factory
	Names Names
	NV    int
	R     *Reader
	Mode  string
}

func newEnv(t *rapid.T, nv int) *Env {
	names := genNames(t)
	cons := rapid.IntRange(0, 3).Draw(t, "conserve") == 0
	return mkEnv(names, nv, cons)
}

func mkEnv(names Names, nv int, conserve bool) *Env {
	var fac f.Factory
	mode := "std"
	if conserve {
		fac = f.NewFactory(true)
		mode = "conserve"
	} else {
		fac = f.NewFactory()
	}
	return &Env{fac, names, nv, newReader(fac, names, nv), mode}
}

// fresh returns an environment with the same names on a new factory.
func (e *Env) fresh() *Env { return mkEnv(e.Names, e.NV, e.Mode == "conserve") }

func (e *Env) build(n *N) f.Formula { return n.Build(e.Fac, e.Names) }

func (e *Env) v(i int) f.Variable { return e.Fac.Var(e.Names[i]) }
func (e *Env) lit(l L) f.Literal  { return e.Fac.Lit(e.Names[l.V], l.Pos) }
func (e *Env) vars(is []int) []f.Variable {
	r := make([]f.Variable, len(is))
	for i, x := range is {
		r[i] = e.v(x)
	}
	return r
}
func (e *Env) lits(ls []L) []f.Literal {
	r := make([]f.Literal, len(ls))
	for i, x := range ls {
		r[i] = e.lit(x)
	}
	return r
}
func (e *Env) allVars() []f.Variable {
	r := make([]f.Variable, e.NV)
	for i := range r {
		r[i] = e.v(i)
	}
	return r
}

func (e *Env) str(x f.Formula) string { return x.Sprint(e.Fac) }

// tt reads the formula's truth table; a variable outside the table fails t.
func (e *Env) tt(t *rapid.T, x f.Formula) TT {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unknownVar); ok {
				t.Fatalf("formula %s contains foreign variable %s", e.str(x), string(u))
			}
			panic(r)
		}
	}()
	return e.R.TT(x)
}

// equals checks that a formula denotes the expected function.
func (e *Env) equals(t *rapid.T, what string, x f.Formula, want TT) {
	got := e.tt(t, x)
	if !got.Equal(want) {
		d := got.Xor(want).Indices()
		t.Fatalf("%s: result %s has value %v at assignment %s (expected %v)", what, e.str(x), got.Get(d[0]), e.assStr(d[0]), want.Get(d[0]))
	}
}

func (e *Env) assStr(i int) string {
	s := ""
	for v := 0; v < e.NV; v++ {
		if v > 0 {
			s += ","
		}
		if i>>v&1 == 0 {
			s += "~"
		}
		s += e.Names[v]
	}
	return s
}

// ass builds an assignment with the variables of mask set according to i.
func (e *Env) ass(i, mask int) *assignment.Assignment {
	var ls []f.Literal
	for v := 0; v < e.NV; v++ {
		if mask>>v&1 == 1 {
			ls = append(ls, e.Fac.Lit(e.Names[v], i>>v&1 == 1))
		}
	}
	a, err := assignment.New(e.Fac, ls...)
	if err != nil {
		panic(err)
	}
	return a
}

// varIdx returns the index of a variable or -1.
func (e *Env) varIdx(v f.Variable) int {
	name, ok := e.Fac.VarName(v)
	if !ok {
		return -1
	}
	if i, ok := e.R.Idx[name]; ok && i < e.NV {
		return i
	}
	return -1
}

func (e *Env) litIdx(t *rapid.T, l f.Literal) L {
	name, phase, ok := e.Fac.LitNamePhase(l)
	if !ok {
		t.Fatalf("literal %d has no name", uint32(l))
	}
	i, ok := e.R.Idx[name]
	if !ok || i >= e.NV {
		t.Fatalf("foreign literal %s", name)
	}
	return L{i, phase}
}

// litsAss turns a list of literals into (value pattern, mask); duplicates or
// contradictions fail.
func (e *Env) litsAss(t *rapid.T, ls []f.Literal) (int, int) {
	val, mask := 0, 0
	for _, l := range ls {
		x := e.litIdx(t, l)
		if mask>>x.V&1 == 1 {
			t.Fatalf("variable %s assigned twice", e.Names[x.V])
		}
		mask |= 1 << x.V
		if x.Pos {
			val |= 1 << x.V
		}
	}
	return val, mask
}

func (e *Env) nstr(n *N) string { return n.str(e.Names) }

func (e *Env) nstrs(ns []*N) string {
	s := ""
	for i, n := range ns {
		if i > 0 {
			s += " ; "
		}
		s += n.str(e.Names)
	}
	return s
}

func conj(nv int, ns []*N) TT {
	r := ttConst(nv, true)
	for _, n := range ns {
		r = r.And(n.TT(nv))
	}
	return r
}

func sprintMask(e *Env, mask int) string {
	s := []string{}
	for v := 0; v < e.NV; v++ {
		if mask>>v&1 == 1 {
			s = append(s, e.Names[v])
		}
	}
	return fmt.Sprint(s)
}

// recoverTo runs g and returns a panic value as string.
func recoverTo(g func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
		}
	}()
	g()
	return ""
}
