package harness

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
)

// CNFReader converts CNF formulas read structurally from a factory to integer
// clauses; the first nv variables are the names of the table, further names
// (auxiliary variables) get fresh indices.
type CNFReader struct {
	Fac f.Factory
	Idx map[string]int
	Aux []string
	NV  int
}

func newCNFReader(fac f.Factory, names Names, nv int) *CNFReader {
	m := map[string]int{}
	for i := 0; i < nv; i++ {
		m[names[i]] = i
	}
	return &CNFReader{fac, m, nil, nv}
}

func (r *CNFReader) Lit(l f.Literal) int {
	name, phase, ok := r.Fac.LitNamePhase(l)
	if !ok {
		panic("literal without name in CNF")
	}
	i, ok := r.Idx[name]
	if !ok {
		i = r.NV + len(r.Aux)
		r.Idx[name] = i
		r.Aux = append(r.Aux, name)
	}
	if phase {
		return 2 * i
	}
	return 2*i + 1
}

// Clauses reads a CNF; the error says where the formula is not in CNF.
func (r *CNFReader) Clauses(x f.Formula) ([][]int, error) {
	switch x.Sort() {
	case f.SortTrue:
		return nil, nil
	case f.SortAnd:
		var res [][]int
		for _, o := range r.Fac.Operands(x) {
			c, err := r.clause(o)
			if err != nil {
				return nil, err
			}
			res = append(res, c)
		}
		return res, nil
	}
	c, err := r.clause(x)
	return [][]int{c}, err
}

func (r *CNFReader) clause(x f.Formula) ([]int, error) {
	switch x.Sort() {
	case f.SortFalse:
		return []int{}, nil
	case f.SortLiteral:
		return []int{r.Lit(f.Literal(x))}, nil
	case f.SortOr:
		var c []int
		for _, o := range r.Fac.Operands(x) {
			if o.Sort() != f.SortLiteral {
				return nil, fmt.Errorf("not a clause: %s", x.Sprint(r.Fac))
			}
			c = append(c, r.Lit(f.Literal(o)))
		}
		return c, nil
	}
	return nil, fmt.Errorf("not a clause: %s", x.Sprint(r.Fac))
}

// projectCNFs computes the projection of a conjunction of CNF formulas to the
// named variables.
func projectCNFs(fac f.Factory, names Names, nv int, xs ...f.Formula) (TT, *CNFReader, int, error) {
	r := newCNFReader(fac, names, nv)
	var all [][]int
	for _, x := range xs {
		c, err := r.Clauses(x)
		if err != nil {
			return TT{}, r, 0, err
		}
		all = append(all, c...)
	}
	s := newCNFS(nv+len(r.Aux), all)
	return s.Projection(nv), r, len(all), nil
}
