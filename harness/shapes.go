package harness

import f "github.com/booleworks/logicng-go/formula"

func isLit(x f.Formula) bool   { return x.Sort() == f.SortLiteral }
func isConst(x f.Formula) bool { return x.Sort() == f.SortTrue || x.Sort() == f.SortFalse }

func allOps(fac f.Factory, x f.Formula, p func(f.Formula) bool) bool {
	for _, o := range fac.Operands(x) {
		if !p(o) {
			return false
		}
	}
	return true
}

func isClauseShape(fac f.Factory, x f.Formula) bool {
	return isConst(x) || isLit(x) || x.Sort() == f.SortOr && allOps(fac, x, isLit)
}

func isTermShape(fac f.Factory, x f.Formula) bool {
	return isConst(x) || isLit(x) || x.Sort() == f.SortAnd && allOps(fac, x, isLit)
}

func isCNFShape(fac f.Factory, x f.Formula) bool {
	return isClauseShape(fac, x) || x.Sort() == f.SortAnd && allOps(fac, x, func(o f.Formula) bool { return isClauseShape(fac, o) })
}

func isDNFShape(fac f.Factory, x f.Formula) bool {
	return isTermShape(fac, x) || x.Sort() == f.SortOr && allOps(fac, x, func(o f.Formula) bool { return isTermShape(fac, o) })
}

// isShape checks that only the given operators and literals occur.
func isShape(fac f.Factory, x f.Formula, seen map[f.Formula]bool, sorts ...f.FSort) bool {
	if isConst(x) || isLit(x) || seen[x] {
		return true
	}
	if x.Sort() != sorts[0] && x.Sort() != sorts[1] {
		return false
	}
	seen[x] = true
	return allOps(fac, x, func(o f.Formula) bool { return isShape(fac, o, seen, sorts...) })
}

func isNNFShape(fac f.Factory, x f.Formula) bool {
	return isShape(fac, x, map[f.Formula]bool{}, f.SortAnd, f.SortOr)
}

func isAIGShape(fac f.Factory, x f.Formula) bool {
	return isShape(fac, x, map[f.Formula]bool{}, f.SortAnd, f.SortNot)
}

// auxFree reports whether all constraints of the formula are at-most-one or
// exactly-one constraints over at most ten variables, which are encoded
// without auxiliary variables; only such constraints are supported by the
// BDD compiler.
func auxFree(fac f.Factory, x f.Formula) bool {
	for _, s := range f.SubNodes(fac, x) {
		if s.Sort() == f.SortPBC {
			return false
		}
		if s.Sort() == f.SortCC {
			cmp, rhs, lits, _, _ := fac.PBCOps(s)
			if rhs != 1 || cmp != f.LE && cmp != f.EQ || len(lits) > 10 {
				return false
			}
		}
	}
	return true
}

// noCC reports whether the formula contains no constraint.
func noCC(fac f.Factory, x f.Formula) bool {
	for _, s := range f.SubNodes(fac, x) {
		if s.Sort() == f.SortPBC || s.Sort() == f.SortCC {
			return false
		}
	}
	return true
}
