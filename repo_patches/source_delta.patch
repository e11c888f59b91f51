From 2a9e779998ac1f1ec78fdc82e70c03bcf8f800f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 01/60] fix: pseudo-Boolean constraints must not alias the
 slices passed by the caller

---
 formula/factory.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/formula/factory.go b/formula/factory.go
index 5472f5e..7e91164 100644
--- a/formula/factory.go
+++ b/formula/factory.go
@@ -2,6 +2,7 @@ package formula
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/booleworks/logicng-go/configuration"
@@ -734,6 +735,9 @@ func (fac *CachingFactory) constructPBC(comparator CSort, rhs int, literals []Li
 	hash := hashPbc(&pbc)
 	constraint, ok := fac.findPBC(hash, &pbc)
 	if !ok {
+		// the stored constraint must not alias the caller's slices
+		pbc.literals = slices.Clone(literals)
+		pbc.coefficients = slices.Clone(coefficients)
 		id := fac.nextPosId()
 		constraint = EncodeFormula(SortPBC, id)
 		fac.pbcCache[hash] = append(fac.pbcCache[hash], constraint)
-- 
2.43.0


From e94b50242e0173ecee9651d50889eb4c9bff8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 02/60] fix: SAT solver must not reorder literals of
 constraints stored on the factory

---
 sat/solver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sat/solver.go b/sat/solver.go
index a3f64ae..6d5dc3b 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -147,7 +147,8 @@ func (s *Solver) addClause(formula f.Formula, proposition f.Proposition) {
 
 func (s *Solver) generateClauseVector(literals []f.Literal) []int32 {
 	clause := make([]int32, len(literals))
-	slices.Sort(literals)
+	// sort a copy: the slice can belong to the caller or the formula factory
+	literals = slices.Sorted(slices.Values(literals))
 	for i, lit := range literals {
 		_, phase, _ := s.fac.LitNamePhase(lit)
 		index := s.getOrAddIndex(lit)
-- 
2.43.0


From fc7ff85964fc8f1a1a57ef1acf803a44afd837e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 03/60] fix: encode cardinality constraints < 0 as
 contradiction instead of panicking

---
 encoding/cc_encoding.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/cc_encoding.go b/encoding/cc_encoding.go
index 97bce7c..b9d4094 100644
--- a/encoding/cc_encoding.go
+++ b/encoding/cc_encoding.go
@@ -175,6 +175,10 @@ func exo(result Result, config *Config, vars []f.Variable) {
 }
 
 func amk(result Result, config *Config, rhs int, vars []f.Variable) {
+	if rhs < 0 { // contradiction
+		result.AddClause()
+		return
+	}
 	if rhs >= len(vars) { // there is no constraint
 		return
 	}
@@ -265,6 +269,10 @@ func amkIncremental(
 	vars []f.Variable,
 	rhs int,
 ) (*CCIncrementalData, error) {
+	if rhs < 0 {
+		result.AddClause()
+		return nil, errorx.BadInput("contradiction AMK with rhs < 0")
+	}
 	if rhs >= len(vars) {
 		return nil, errorx.BadInput("tautology AMK with rhs > len(vars)")
 	}
-- 
2.43.0


From da32937791a8caa36b8787c0b15b60a109382cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 04/60] fix: EncodePBC with a cardinality constraint must use
 the given encoder configuration

---
 encoding/pbc_encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/pbc_encoding.go b/encoding/pbc_encoding.go
index 5b4369d..2089812 100644
--- a/encoding/pbc_encoding.go
+++ b/encoding/pbc_encoding.go
@@ -31,7 +31,7 @@ func EncodePBC(fac f.Factory, pbc f.Formula, config ...*Config) ([]f.Formula, er
 // Returns an error if the input constraint is no valid pseudo-Boolean constraint.
 func EncodePBCInResult(fac f.Factory, pbc f.Formula, result Result, config ...*Config) error {
 	if pbc.Sort() == f.SortCC {
-		return EncodeCCInResult(fac, pbc, result)
+		return EncodeCCInResult(fac, pbc, result, config...)
 	}
 	if pbc.Sort() != f.SortPBC {
 		return errorx.BadFormulaSort(pbc.Sort())
-- 
2.43.0


From 5857a1f0e6836906c9a226a48e30d83a05bd8af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 05/60] fix: parse numeric variable names in pseudo-Boolean
 constraints

---
 parser/propositional_parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 65c873c..641e0df 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -216,13 +216,13 @@ func (l *formulaListener) ExitMul(c *MulContext) {
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 0:
 		lit = c.LITERAL().GetText()
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 1:
-		lit = c.LITERAL().GetText()
+		lit = c.NUMBER(0).GetText()
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 1:
 		lit = c.LITERAL().GetText()
 		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 2:
-		lit = c.NUMBER(0).GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(1).GetText())
+		lit = c.NUMBER(1).GetText()
+		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
 	}
 	name, phase := parseLiteral(lit)
 	literal := l.fac.Lit(name, phase)
-- 
2.43.0


From 3f196ff57fe0a43019052b21cf30c90be481ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 06/60] fix: return a parser error instead of panicking on
 incomplete input

---
 parser/propositional_parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 641e0df..4f410a7 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -52,11 +52,12 @@ func (p *PropositionalParser) parse(data string) (f.Formula, error) {
 	lngParser := NewLogicNGPropositionalParser(stream)
 	lngParser.RemoveErrorListeners()
 	lngParser.AddErrorListener(errorListener)
-	listener := &formulaListener{fac: p.fac}
-	antlr.ParseTreeWalkerDefault.Walk(listener, lngParser.Formula())
+	tree := lngParser.Formula()
 	if errorListener.err {
 		return p.fac.Falsum(), errorx.BadInput("%s", errorListener.message)
 	}
+	listener := &formulaListener{fac: p.fac}
+	antlr.ParseTreeWalkerDefault.Walk(listener, tree)
 	return listener.formula(), nil
 }
 
-- 
2.43.0


From c0d05b5a303754744eb22d85524bc00df25ee542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 07/60] fix: parser must reject numbers which do not fit into
 an integer

---
 parser/propositional_parser.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 4f410a7..544c67a 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -58,6 +58,9 @@ func (p *PropositionalParser) parse(data string) (f.Formula, error) {
 	}
 	listener := &formulaListener{fac: p.fac}
 	antlr.ParseTreeWalkerDefault.Walk(listener, tree)
+	if listener.err != nil {
+		return p.fac.Falsum(), errorx.BadInput("%s", listener.err.Error())
+	}
 	return listener.formula(), nil
 }
 
@@ -88,6 +91,7 @@ type formulaListener struct {
 	fac   f.Factory
 	stack []stackFormula
 	pbc   *pbc
+	err   error
 }
 
 type pbc struct {
@@ -220,10 +224,10 @@ func (l *formulaListener) ExitMul(c *MulContext) {
 		lit = c.NUMBER(0).GetText()
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 1:
 		lit = c.LITERAL().GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
+		coeff = l.parseNumber(c.NUMBER(0).GetText())
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 2:
 		lit = c.NUMBER(1).GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
+		coeff = l.parseNumber(c.NUMBER(0).GetText())
 	}
 	name, phase := parseLiteral(lit)
 	literal := l.fac.Lit(name, phase)
@@ -231,12 +235,20 @@ func (l *formulaListener) ExitMul(c *MulContext) {
 	l.pbc.coefficients = append(l.pbc.coefficients, coeff)
 }
 
+func (l *formulaListener) parseNumber(text string) int {
+	number, err := strconv.Atoi(text)
+	if err != nil && l.err == nil {
+		l.err = err
+	}
+	return number
+}
+
 func (l *formulaListener) EnterComparison(_ *ComparisonContext) {
 	l.pbc = &pbc{}
 }
 
 func (l *formulaListener) ExitComparison(c *ComparisonContext) {
-	l.pbc.rhs, _ = strconv.Atoi(c.NUMBER().GetText())
+	l.pbc.rhs = l.parseNumber(c.NUMBER().GetText())
 	l.pbc.comparator = l.parseComparator(c)
 	l.pushFormula(l.fac.PBC(l.pbc.comparator, l.pbc.rhs, l.pbc.literals, l.pbc.coefficients))
 }
-- 
2.43.0


From 820d335e9fdba241e2b2e656fbc7921aabe0e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 08/60] fix: formula reader must return an error for malformed
 lines instead of panicking

---
 io/formula_reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/io/formula_reader.go b/io/formula_reader.go
index c2b4820..8538751 100644
--- a/io/formula_reader.go
+++ b/io/formula_reader.go
@@ -54,7 +54,11 @@ func ReadFormulasFile(fac f.Factory, file *os.File) ([]f.Formula, error) {
 	scanner.Buffer(buf, 1024*1024)
 	for scanner.Scan() {
 		line := scanner.Text()
-		ops = append(ops, parser.ParseUnsafe(line))
+		formula, err := parser.Parse(line)
+		if err != nil {
+			return nil, err
+		}
+		ops = append(ops, formula)
 	}
 	if err := scanner.Err(); err != nil {
 		return nil, err
-- 
2.43.0


From 080a77868f3a9214b08de6182d0a3496327ee16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 09/60] fix: a cardinality constraint < 0 must be the same
 formula as the equal pseudo-Boolean constraint

---
 formula/factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formula/factory.go b/formula/factory.go
index 7e91164..2766656 100644
--- a/formula/factory.go
+++ b/formula/factory.go
@@ -692,7 +692,7 @@ func (fac *CachingFactory) isCC(comparator CSort, rhs int, literals []Literal, c
 		}
 	}
 	return comparator == LE && rhs >= 0 ||
-		comparator == LT && rhs >= 1 ||
+		comparator == LT && rhs >= 0 ||
 		comparator == GE && rhs >= 0 ||
 		comparator == GT && rhs >= 0 ||
 		comparator == EQ && rhs >= 0
-- 
2.43.0


From 0a931462c0deafa05c1a14761dae0272fc79c9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 10/60] fix: normalization of an equality with zero
 coefficients must not mix up literals and coefficients

---
 encoding/normalize.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/normalize.go b/encoding/normalize.go
index 7b39a4e..5b9c3f1 100644
--- a/encoding/normalize.go
+++ b/encoding/normalize.go
@@ -25,6 +25,7 @@ func Normalize(fac f.Factory, constraint f.Formula) f.Formula {
 		copy(normCs, coefficients)
 		normRhs = rhs
 		f1 := normalizeLE(fac, normPs, normCs, normRhs)
+		copy(normPs, literals) // was compacted by normalizeLE
 		normCs = make([]int, len(literals))
 		for i := range literals {
 			normCs[i] = -coefficients[i]
-- 
2.43.0


From aed7034a8b0ecd775196c3bd8b5931d2de62eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 11/60] fix: CNF conversion state must not map factorized
 formulas to the zero literal

---
 normalform/cnf.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/normalform/cnf.go b/normalform/cnf.go
index d5480f6..abfe39a 100644
--- a/normalform/cnf.go
+++ b/normalform/cnf.go
@@ -284,7 +284,9 @@ func PGCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int, state
 		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
 		pg = assignment.Restrict(fac, pg, topLevel)
 	}
-	state.LiteralMap[formula] = state.LiteralMap[nnf]
+	if literal, ok := state.LiteralMap[nnf]; ok {
+		state.LiteralMap[formula] = literal
+	}
 	return pg
 }
 
@@ -394,7 +396,9 @@ func TseitinCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int,
 		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
 		tseitin = assignment.Restrict(fac, state.FormulaMap[nnf], topLevel)
 	}
-	state.LiteralMap[formula] = state.LiteralMap[nnf]
+	if literal, ok := state.LiteralMap[nnf]; ok {
+		state.LiteralMap[formula] = literal
+	}
 	return tseitin
 }
 
-- 
2.43.0


From 3d9c42643ee33484d757cc8f3b4b4044c9be211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 12/60] fix: AIG of negated constraints must encode the negated
 constraint

---
 normalform/aig.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/normalform/aig.go b/normalform/aig.go
index 7dc3d54..48ba5ac 100644
--- a/normalform/aig.go
+++ b/normalform/aig.go
@@ -1,6 +1,7 @@
 package normalform
 
 import (
+	"github.com/booleworks/logicng-go/encoding"
 	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
 )
@@ -45,6 +46,15 @@ func AIG(fac f.Factory, formula f.Formula) f.Formula {
 	}
 	var result f.Formula
 	switch formula.Sort() {
+	case f.SortNot, f.SortImpl, f.SortEquiv:
+		if encoding.ContainsPBC(fac, formula) {
+			// encodings of constraints are only exact in positive polarity
+			result = AIG(fac, NNF(fac, formula))
+			f.SetTransformationCache(fac, f.TransAIG, formula, result)
+			return result
+		}
+	}
+	switch formula.Sort() {
 	case f.SortFalse, f.SortTrue, f.SortLiteral:
 		result = formula
 	case f.SortNot:
-- 
2.43.0


From 23dc547149ba9c49b4d3d43cac8d9dd94a9bd932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 13/60] fix: cardinality network must reset its literal buffers
 instead of zeroing them

---
 encoding/cc_cardinality_network.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/encoding/cc_cardinality_network.go b/encoding/cc_cardinality_network.go
index ac60705..e97e9ff 100644
--- a/encoding/cc_cardinality_network.go
+++ b/encoding/cc_cardinality_network.go
@@ -116,22 +116,22 @@ func directSorterValue(n int) int {
 
 func sort(m int, input, output *[]f.Literal, result Result, direction dir) {
 	if m == 0 {
-		clear(*output)
+		*output = (*output)[:0]
 		return
 	}
 	n := len(*input)
 	m2 := min(m, n)
 	if n == 0 {
-		clear(*output)
+		*output = (*output)[:0]
 		return
 	}
 	if n == 1 {
-		clear(*output)
+		*output = (*output)[:0]
 		*output = append(*output, (*input)[0])
 		return
 	}
 	if n == 2 {
-		clear(*output)
+		*output = (*output)[:0]
 		o1 := result.NewAuxVar(f.AuxCC).AsLiteral()
 		if m2 == 2 {
 			o2 := result.NewAuxVar(f.AuxCC).AsLiteral()
@@ -181,7 +181,7 @@ func comparator4(x1, x2, y1, y2 f.Literal, result Result, direction dir) {
 }
 
 func recursiveSorter(m int, input, output *[]f.Literal, result Result, direction dir) {
-	clear(*output)
+	*output = (*output)[:0]
 	n := len(*input)
 	l := n / 2
 	tmpLitsA := make([]f.Literal, l)
@@ -228,7 +228,7 @@ func counterSorter(k int, x, output *[]f.Literal, result Result, direction dir)
 			}
 		}
 	}
-	clear(*output)
+	*output = (*output)[:0]
 	for i := range k {
 		*output = append(*output, auxVars[n-1][i])
 	}
@@ -238,13 +238,13 @@ func directSorter(m int, input, output *[]f.Literal, result Result) {
 	n := len(*input)
 	bitmask := 1
 	clause := make([]f.Literal, 0)
-	clear(*output)
+	*output = (*output)[:0]
 	for range m {
 		*output = append(*output, result.NewAuxVar(f.AuxCC).AsLiteral())
 	}
 	for bitmask < int(math.Pow(2, float64(n))) {
 		count := 0
-		clear(clause)
+		clause = clause[:0]
 		for i := range n {
 			if ((1 << i) & bitmask) != 0 {
 				count++
@@ -264,7 +264,7 @@ func directSorter(m int, input, output *[]f.Literal, result Result) {
 
 func merge(m int, inputA, inputB, output *[]f.Literal, result Result, direction dir) {
 	if m == 0 {
-		clear(*output)
+		*output = (*output)[:0]
 		return
 	}
 	a := len(*inputA)
@@ -289,7 +289,7 @@ func merge(m int, inputA, inputB, output *[]f.Literal, result Result, direction
 func recursiveMerger(
 	c int, inputA *[]f.Literal, a int, inputB *[]f.Literal, b int, result Result, output *[]f.Literal, direction dir,
 ) {
-	clear(*output)
+	*output = (*output)[:0]
 	a2 := a
 	b2 := b
 	if a2 > c {
-- 
2.43.0


From b1e257d5873912db6787ae26fcd91747944592e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 14/60] fix: solver must not use at-most clauses for
 constraints with repeated variables

---
 sat/solver.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sat/solver.go b/sat/solver.go
index 6d5dc3b..50d4bd7 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -83,7 +83,10 @@ func (s *Solver) addWithProp(formula f.Formula, proposition f.Proposition) {
 	if formula.Sort() == f.SortCC {
 		if s.config.UseAtMostClauses {
 			comparator, rhs, literals, _, _ := s.fac.PBCOps(formula)
-			if comparator == f.LE {
+			if hasDuplicates(literals) {
+				// at-most clauses count each literal only once
+				s.addFormulaAsCNF(formula, proposition)
+			} else if comparator == f.LE {
 				s.core.addAtMost(s.generateClauseVector(literals), rhs)
 			} else if comparator == f.LT && rhs > 3 {
 				s.core.addAtMost(s.generateClauseVector(literals), rhs-1)
@@ -108,6 +111,17 @@ func (s *Solver) addWithProp(formula f.Formula, proposition f.Proposition) {
 	}
 }
 
+func hasDuplicates(literals []f.Literal) bool {
+	seen := make(map[f.Literal]present, len(literals))
+	for _, lit := range literals {
+		if _, ok := seen[lit]; ok {
+			return true
+		}
+		seen[lit] = present{}
+	}
+	return false
+}
+
 func (s *Solver) addFormulaAsCNF(formula f.Formula, proposition f.Proposition) {
 	switch s.config.CNFMethod {
 	case CNFFactory:
-- 
2.43.0


From a41bf5f01b72e55f96eab11f370ea16bebdae765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 15/60] fix: formula and DIMACS readers must read lines of any
 length

---
 io/dimacs_reader.go  | 2 ++
 io/formula_reader.go | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/io/dimacs_reader.go b/io/dimacs_reader.go
index 5184cb0..0983e9e 100644
--- a/io/dimacs_reader.go
+++ b/io/dimacs_reader.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"bufio"
+	"math"
 	"os"
 	"strings"
 
@@ -38,6 +39,7 @@ func ReadDimacsFile(fac f.Factory, file *os.File, prefix ...string) (*[]f.Formul
 	}
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(make([]byte, 0, 64*1024), math.MaxInt) // lines can be arbitrarily long
 	for scanner.Scan() {
 		line := scanner.Text()
 		if !strings.HasPrefix(line, "c") && !strings.HasPrefix(line, "p") && strings.TrimSpace(line) != "" {
diff --git a/io/formula_reader.go b/io/formula_reader.go
index 8538751..6ee106b 100644
--- a/io/formula_reader.go
+++ b/io/formula_reader.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"bufio"
+	"math"
 	"os"
 
 	f "github.com/booleworks/logicng-go/formula"
@@ -51,7 +52,7 @@ func ReadFormulasFile(fac f.Factory, file *os.File) ([]f.Formula, error) {
 	ops := make([]f.Formula, 0, 64)
 	scanner := bufio.NewScanner(file)
 	buf := make([]byte, 0, 64*1024)
-	scanner.Buffer(buf, 1024*1024)
+	scanner.Buffer(buf, math.MaxInt) // lines can be arbitrarily long
 	for scanner.Scan() {
 		line := scanner.Text()
 		formula, err := parser.Parse(line)
-- 
2.43.0


From 76bb539a43de9bc431b52deaf5c9292360f58b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 16/60] fix: loading a solver state must forget which variables
 were assigned on level 0

---
 sat/core.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sat/core.go b/sat/core.go
index df4873e..8e704e1 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -613,6 +613,7 @@ func (m *CoreSolver) completeBacktrack() {
 	for v := 0; v < len(m.vars); v++ {
 		vari := m.vars[v]
 		vari.assignment = f.TristateUndef
+		vari.level = -1
 		vari.reason = nil
 		if !m.orderHeap.inHeap(int32(v)) && vari.decision {
 			m.orderHeap.insert(int32(v))
-- 
2.43.0


From ae201894c2c7111124e1af9206b05482376b3f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 17/60] fix: backbone computation on a solver with proof
 generation must not panic

---
 sat/core.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index 8e704e1..5fdede2 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -424,6 +424,15 @@ func (m *CoreSolver) SolveWithAssumptions(
 	hdl handler.Handler, assumptions []int32,
 ) (res f.Tristate, state handler.State) {
 	m.assumptions = assumptions
+	if m.config.ProofGeneration {
+		// no propositions are known for these assumptions
+		m.assumptionProps = make([]f.Proposition, len(assumptions))
+		numOriginalClauses := len(m.pgOriginalClauses)
+		defer func() {
+			shrinkTo(&m.pgOriginalClauses, numOriginalClauses)
+			m.assumptionProps = nil
+		}()
+	}
 	res, state = m.Solve(hdl)
 	m.assumptions = []int32{}
 	return
-- 
2.43.0


From 6c69ce3b2605842f0d60dbde30817f494589de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 18/60] fix: assumptions in an unsat core must be mapped to
 their own propositions

---
 sat/call.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sat/call.go b/sat/call.go
index b496e1e..ff3ce1a 100644
--- a/sat/call.go
+++ b/sat/call.go
@@ -1,6 +1,9 @@
 package sat
 
 import (
+	"cmp"
+	"slices"
+
 	"github.com/booleworks/logicng-go/errorx"
 	"github.com/booleworks/logicng-go/explanation"
 	f "github.com/booleworks/logicng-go/formula"
@@ -257,17 +260,23 @@ func initCall(solver *Solver, hdl handler.Handler, addProps []f.Proposition) *ca
 }
 
 func splitPropsIntoLitsAndFormulas(additionalPropositions []f.Proposition) additionals {
-	var lits []f.Literal
 	var propsForLits []f.Proposition
 	var props []f.Proposition
 	for _, prop := range additionalPropositions {
 		if prop.Formula().Sort() == f.SortLiteral {
-			lits = append(lits, f.Literal(prop.Formula()))
 			propsForLits = append(propsForLits, prop)
 		} else {
 			props = append(props, prop)
 		}
 	}
+	// the assumptions are put on the solver sorted by literal
+	slices.SortStableFunc(propsForLits, func(p1, p2 f.Proposition) int {
+		return cmp.Compare(p1.Formula(), p2.Formula())
+	})
+	lits := make([]f.Literal, len(propsForLits))
+	for i, prop := range propsForLits {
+		lits[i] = f.Literal(prop.Formula())
+	}
 	return additionals{lits, propsForLits, props}
 }
 
-- 
2.43.0


From 6748b0a740921ed93c839d19d841393ed4d08321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 19/60] fix: a canceled SAT search must stop and report the
 cancelation

---
 sat/core.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sat/core.go b/sat/core.go
index 5fdede2..a271f84 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -394,7 +394,12 @@ func (m *CoreSolver) Solve(hdl handler.Handler) (f.Tristate, handler.State) {
 	}
 	status := f.TristateUndef
 	for status == f.TristateUndef {
-		status, _ = m.search(hdl)
+		var state handler.State
+		status, state = m.search(hdl)
+		if !state.Success {
+			m.cancelUntil(0)
+			return f.TristateUndef, state
+		}
 	}
 
 	if m.config.ProofGeneration && len(m.assumptions) == 0 {
-- 
2.43.0


From 1623e9e4355b7c17905b9786863071e265420080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 20/60] fix: SAT solver must not panic on more assumption
 levels than variables

---
 sat/core.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index a271f84..7abd02b 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -512,6 +512,10 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 				p := m.assumptions[m.decisionLevel()]
 				if m.value(p) == f.TristateTrue {
 					m.trailLim = append(m.trailLim, len(m.trail))
+					if m.decisionLevel() >= len(m.permDiff) {
+						// repeated assumptions: more levels than variables
+						m.permDiff = append(m.permDiff, 0)
+					}
 				} else if m.value(p) == f.TristateFalse {
 					if m.config.ProofGeneration {
 						drupLit := (Vari(p) + 1) * (-2*signAsInt(p) + 1)
-- 
2.43.0


From 61d4226c973b7e8f982203e028585a7f13e0cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 21/60] fix: unsat core computation must not panic on clauses
 with repeated literals

---
 sat/core.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index 7abd02b..2942967 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -264,6 +264,9 @@ func (m *CoreSolver) AddClause(ps []int32, proposition f.Proposition) bool {
 		for i, p := range ps {
 			slice[i] = (Vari(p) + 1) * (-2*signAsInt(p) + 1)
 		}
+		// the proof checker watches the first two literals of a clause
+		slices.Sort(slice)
+		slice = slices.Compact(slice)
 		m.pgOriginalClauses = append(m.pgOriginalClauses, proofInformation{slice, proposition})
 	}
 	if !m.ok {
-- 
2.43.0


From 689cf4f99113e97feb900cb40a8dd0f0b7207727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 22/60] Revert "fix: SAT solver must not panic on more
 assumption levels than variables"

This reverts commit 1623e9e4355b7c17905b9786863071e265420080.
---
 sat/core.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/sat/core.go b/sat/core.go
index 2942967..9319fd9 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -515,10 +515,6 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 				p := m.assumptions[m.decisionLevel()]
 				if m.value(p) == f.TristateTrue {
 					m.trailLim = append(m.trailLim, len(m.trail))
-					if m.decisionLevel() >= len(m.permDiff) {
-						// repeated assumptions: more levels than variables
-						m.permDiff = append(m.permDiff, 0)
-					}
 				} else if m.value(p) == f.TristateFalse {
 					if m.config.ProofGeneration {
 						drupLit := (Vari(p) + 1) * (-2*signAsInt(p) + 1)
-- 
2.43.0


From 1eb444bd82692d6019b01ff7c068a10183efc672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 23/60] fix: SAT solver must not panic on more decision levels
 than variables

---
 sat/core.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sat/core.go b/sat/core.go
index 9319fd9..4079912 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -514,7 +514,7 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 			for m.decisionLevel() < len(m.assumptions) {
 				p := m.assumptions[m.decisionLevel()]
 				if m.value(p) == f.TristateTrue {
-					m.trailLim = append(m.trailLim, len(m.trail))
+					m.newDecisionLevel()
 				} else if m.value(p) == f.TristateFalse {
 					if m.config.ProofGeneration {
 						drupLit := (Vari(p) + 1) * (-2*signAsInt(p) + 1)
@@ -539,7 +539,7 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 					return f.TristateTrue, succ
 				}
 			}
-			m.trailLim = append(m.trailLim, len(m.trail))
+			m.newDecisionLevel()
 			m.enqueueFunction(m, next, nil)
 		}
 	}
@@ -668,6 +668,14 @@ func (m *CoreSolver) decisionLevel() int {
 	return len(m.trailLim)
 }
 
+func (m *CoreSolver) newDecisionLevel() {
+	m.trailLim = append(m.trailLim, len(m.trail))
+	if m.decisionLevel() >= len(m.permDiff) {
+		// more levels than variables because of repeated assumptions
+		m.permDiff = append(m.permDiff, 0)
+	}
+}
+
 func (m *CoreSolver) abstractLevel(x int32) int {
 	return 1 << (m.vars[x].level & 31)
 }
-- 
2.43.0


From 3d2336422e9b75cac617fb1c96cb692e1efab43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:17 +0000
Subject: [PATCH 24/60] fix: proof checker must not skip the lemmas of a proof
 without final empty clause

---
 sat/proofs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sat/proofs.go b/sat/proofs.go
index 7a191f9..58fb098 100644
--- a/sat/proofs.go
+++ b/sat/proofs.go
@@ -113,7 +113,9 @@ func (s *drupSolver) parse() bool {
 		}
 		clauseNr++
 		if clause == nil {
-			s.lemmas = len(s.db) + 1
+			if s.lemmas == 0 {
+				s.lemmas = len(s.db) + 1
+			}
 			break
 		}
 		toks := make([]int, 0, len(clause)-1)
-- 
2.43.0


From 328d3b16654a3dc21d88c8ee9e68e2aca2f71f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 25/60] fix: proof generation must not delete clauses with
 repeated literals which are not part of the proof

---
 sat/core.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sat/core.go b/sat/core.go
index 4079912..e2cc754 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -277,10 +277,9 @@ func (m *CoreSolver) AddClause(ps []int32, proposition f.Proposition) bool {
 	flag := false
 	var oc []int32
 	if m.config.ProofGeneration {
-		oc = make([]int32, len(ps))
+		oc = slices.Compact(slices.Clone(ps))
 		p := LitUndef
 		for i := 0; i < len(ps); i++ {
-			oc[i] = ps[i]
 			if m.value(ps[i]) == f.TristateTrue || ps[i] == Not(p) || m.value(ps[i]) == f.TristateFalse {
 				flag = true
 			}
-- 
2.43.0


From 6b38a60bb92e3dd9e7ea795de0005e22560378d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 26/60] fix: basic clause minimization must consider all reason
 literals of at-most clauses

---
 sat/core.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sat/core.go b/sat/core.go
index e2cc754..b47fb63 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -1084,12 +1084,16 @@ func (m *CoreSolver) simplifyClause(outLearnt *[]int32) {
 				j++
 			} else {
 				var k int
-				if c.size() == 2 {
+				if c.size() == 2 || c.isAtMost {
 					k = 0
 				} else {
 					k = 1
 				}
 				for ; k < c.size(); k++ {
+					if c.isAtMost && m.value(c.get(k)) != f.TristateTrue {
+						// only the true literals are the reason in an at-most clause
+						continue
+					}
 					if !m.seen[Vari(c.get(k))] && m.v(c.get(k)).level > 0 {
 						(*outLearnt)[j] = (*outLearnt)[i]
 						j++
-- 
2.43.0


From be7f3797da923b464d2a822c5f6615c2d296d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 27/60] fix: a level-0 conflict must not be lost when the
 search is canceled

---
 sat/core.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sat/core.go b/sat/core.go
index b47fb63..6b03e33 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -400,6 +400,7 @@ func (m *CoreSolver) Solve(hdl handler.Handler) (f.Tristate, handler.State) {
 		status, state = m.search(hdl)
 		if !state.Success {
 			m.cancelUntil(0)
+			m.qhead = 0 // a conflict on level 0 must be found again by the next call
 			return f.TristateUndef, state
 		}
 	}
-- 
2.43.0


From 61cdb33706a89faf1b80a610e646b9a1fa98442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 28/60] fix: OLL and WBO report the optimum -1 for
 unsatisfiable hard formulas

---
 maxsat/alg_oll.go | 2 +-
 maxsat/alg_wbo.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxsat/alg_oll.go b/maxsat/alg_oll.go
index 3da579a..af8ebb8 100644
--- a/maxsat/alg_oll.go
+++ b/maxsat/alg_oll.go
@@ -73,7 +73,7 @@ func (m *oll) unweighted() (Result, handler.State) {
 			m.lbCost++
 			m.nbCores++
 			if m.nbSatisfiable == 0 {
-				return Result{}, succ
+				return unsat(), succ
 			}
 			if m.lbCost == m.ubCost {
 				return m.optimum(), succ
diff --git a/maxsat/alg_wbo.go b/maxsat/alg_wbo.go
index a8a2f0a..4793854 100644
--- a/maxsat/alg_wbo.go
+++ b/maxsat/alg_wbo.go
@@ -79,7 +79,7 @@ func (m *wbo) normalSearch() (Result, handler.State) {
 	case f.TristateUndef:
 		return Result{}, state
 	case f.TristateFalse:
-		return Result{}, succ
+		return unsat(), succ
 	}
 
 	m.initAssumptions()
-- 
2.43.0


From 6c2d1b232fb7f4f99106d31eccbdc1c62564f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 29/60] fix: a canceled MaxSAT solve is not cached as the
 solver's result and restores the solver

---
 maxsat/algorithm.go | 6 +++---
 maxsat/solver.go    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/maxsat/algorithm.go b/maxsat/algorithm.go
index ddc457b..21a22e4 100644
--- a/maxsat/algorithm.go
+++ b/maxsat/algorithm.go
@@ -104,11 +104,11 @@ func (m *maxSatAlgorithm) innerSearch(
 	}
 	stateBeforeSolving := m.saveState()
 	result, state := search()
-	if e := event.MaxSatCallFinished; !hdl.ShouldResume(e) {
-		return Result{}, handler.Cancelation(e)
-	}
 	_ = m.loadState(stateBeforeSolving)
 	m.hdl = nil
+	if e := event.MaxSatCallFinished; !hdl.ShouldResume(e) && state.Success {
+		return Result{}, handler.Cancelation(e)
+	}
 	return result, state
 }
 
diff --git a/maxsat/solver.go b/maxsat/solver.go
index 2f5e80c..852e759 100644
--- a/maxsat/solver.go
+++ b/maxsat/solver.go
@@ -231,7 +231,7 @@ func (m *Solver) SolveWithHandler(hdl handler.Handler) (Result, handler.State) {
 	}
 	var state handler.State
 	m.result, state = m.solver.search(hdl)
-	m.ok = true
+	m.ok = state.Success
 	return m.result, state
 }
 
-- 
2.43.0


From 90e6817c41a525eadfba7e112efdb78559b8094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 30/60] fix: adding a false or a clause with repeated literals
 to a MaxSAT solver

---
 maxsat/algorithm.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxsat/algorithm.go b/maxsat/algorithm.go
index 21a22e4..fb5404d 100644
--- a/maxsat/algorithm.go
+++ b/maxsat/algorithm.go
@@ -263,8 +263,9 @@ func (m *maxSatAlgorithm) getModel() []bool {
 }
 
 func (m *maxSatAlgorithm) addClause(formula f.Formula, weight int) {
-	clauseVec := make([]int32, f.NumberOfAtoms(m.fac, formula))
-	for i, lit := range f.Literals(m.fac, formula).Content() {
+	literals := f.Literals(m.fac, formula).Content()
+	clauseVec := make([]int32, len(literals))
+	for i, lit := range literals {
 		variable := lit.Variable()
 		index, ok := m.var2index[variable]
 		if !ok {
-- 
2.43.0


From ef779a0bd5c367d5ae30b2ef2fefac997a0675b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 31/60] fix: WMSU3 leaves the current weight and the weight
 order untouched for the next solve

---
 maxsat/alg_wmsu3.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maxsat/alg_wmsu3.go b/maxsat/alg_wmsu3.go
index 027fa52..6199eda 100644
--- a/maxsat/alg_wmsu3.go
+++ b/maxsat/alg_wmsu3.go
@@ -36,11 +36,11 @@ func (m *wmsu3) search(hdl handler.Handler) (Result, handler.State) {
 		panic(errorx.BadInput("wmsu3 does not support unweighted MaxSAT instances"))
 	}
 	m.encoder = newEncoder()
-	isBMO := m.bmoMode && m.isBmo(true)
-	if !isBMO {
-		m.currentWeight = 1
-	}
 	return m.innerSearch(hdl, func() (Result, handler.State) {
+		isBMO := m.bmoMode && m.isBmo(true)
+		if !isBMO {
+			m.currentWeight = 1
+		}
 		switch m.incrementalStrategy {
 		case IncNone:
 			return m.none()
-- 
2.43.0


From 37ed3e3519e40cee6d02a029402433d25ec9041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 32/60] fix: MaxSAT PB encoding does not restrict a single
 literal whose coefficient fits

---
 maxsat/enc_swc.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/maxsat/enc_swc.go b/maxsat/enc_swc.go
index d05d518..607fa2a 100644
--- a/maxsat/enc_swc.go
+++ b/maxsat/enc_swc.go
@@ -59,11 +59,8 @@ func (m *swc) encode(s *sat.CoreSolver, lits *[]int32, coeffs *[]int, rhs int) {
 			addUnitClause(s, sat.Not(simpLits[i]))
 		}
 	}
-	if len(*lits) == 1 {
-		addUnitClause(s, sat.Not((*lits)[0]))
-		return
-	}
-	if len(*lits) == 0 {
+	if len(*lits) <= 1 {
+		// a single literal with a coefficient <= rhs is not restricted
 		return
 	}
 	n := len(*lits)
-- 
2.43.0


From 128ec7981f8ffbd327de0acb6607ae67944d20a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 33/60] fix: non-incremental WMSU3 terminates on BMO instances

---
 maxsat/alg_wmsu3.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxsat/alg_wmsu3.go b/maxsat/alg_wmsu3.go
index 6199eda..4956e3b 100644
--- a/maxsat/alg_wmsu3.go
+++ b/maxsat/alg_wmsu3.go
@@ -37,7 +37,8 @@ func (m *wmsu3) search(hdl handler.Handler) (Result, handler.State) {
 	}
 	m.encoder = newEncoder()
 	return m.innerSearch(hdl, func() (Result, handler.State) {
-		isBMO := m.bmoMode && m.isBmo(true)
+		// only the iterative strategy stratifies the weights
+		isBMO := m.bmoMode && m.incrementalStrategy == IncIterative && m.isBmo(true)
 		if !isBMO {
 			m.currentWeight = 1
 		}
-- 
2.43.0


From d3b4675b156098e4c5046193cabcba714351fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 34/60] fix: MaxSAT reader accepts comments, blank lines,
 repeated separators and long lines

---
 maxsat/reader.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/maxsat/reader.go b/maxsat/reader.go
index b17fa1d..0a60b77 100644
--- a/maxsat/reader.go
+++ b/maxsat/reader.go
@@ -23,10 +23,11 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 	pureMaxSat := false
 	hardWeight := -1
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(make([]byte, 0, 64*1024), math.MaxInt) // lines can be arbitrarily long
 	for scanner.Scan() {
 		line := scanner.Text()
 		if strings.HasPrefix(line, "p wcnf") {
-			header := strings.Split(strings.TrimSpace(line), " ")
+			header := strings.Fields(line)
 			if len(header) > 4 {
 				hardWeight, _ = strconv.Atoi(header[4])
 			}
@@ -37,7 +38,10 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 		}
 	}
 	for scanner.Scan() {
-		tokens := strings.Split(strings.TrimSpace(scanner.Text()), " ")
+		tokens := strings.Fields(scanner.Text())
+		if len(tokens) == 0 || strings.HasPrefix(tokens[0], "c") {
+			continue
+		}
 		weight, err := strconv.Atoi(tokens[0])
 		if err != nil {
 			return err
@@ -50,14 +54,12 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 		}
 		literals := make([]f.Formula, len(tokens)-start-1)
 		for i := start; i < len(tokens)-1; i++ {
-			if len(tokens[i]) > 0 {
-				parsedLit, err := strconv.Atoi(tokens[i])
-				if err != nil {
-					return err
-				}
-				variable := fmt.Sprintf("v%d", int(math.Abs(float64(parsedLit))))
-				literals[i-start] = fac.Literal(variable, parsedLit > 0)
+			parsedLit, err := strconv.Atoi(tokens[i])
+			if err != nil {
+				return err
 			}
+			variable := fmt.Sprintf("v%d", int(math.Abs(float64(parsedLit))))
+			literals[i-start] = fac.Literal(variable, parsedLit > 0)
 		}
 		if pureMaxSat {
 			solver.AddSoftFormula(fac.Or(literals...), 1)
@@ -67,5 +69,5 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 			solver.AddSoftFormula(fac.Or(literals...), weight)
 		}
 	}
-	return nil
+	return scanner.Err()
 }
-- 
2.43.0


From 54a188435b0116c7a619224cbb88d0f3473a19e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 35/60] fix: canceled SAT calls and recursion steps cancel the
 model iteration

---
 model/iter/iteration.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index dc06f08..5cc3bdb 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -76,6 +76,10 @@ func (m *ModelIterator[R]) iterRecursive(
 	iterFinished, iterState := iterate(collector, solver, iterVars, m.additionalVars, maxModelsForIter, m.hdl)
 	if !iterState.Success {
 		collector.Commit(m.hdl)
+		err := solver.LoadState(state)
+		if err != nil {
+			panic(err)
+		}
 		return iterState
 	}
 	if !iterFinished {
@@ -127,7 +131,14 @@ func (m *ModelIterator[R]) iterRecursive(
 			recursiveSplitAssignment := make([]f.Literal, newSplitAssignment.Size())
 			copy(recursiveSplitAssignment, newSplitAssignment.Literals)
 			recursiveSplitAssignment = append(recursiveSplitAssignment, splitModel...)
-			m.iterRecursive(collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1)
+			recState := m.iterRecursive(collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1)
+			if !recState.Success {
+				err := solver.LoadState(state)
+				if err != nil {
+					panic(err)
+				}
+				return recState
+			}
 			if s := collector.Commit(m.hdl); !s.Success {
 				err := solver.LoadState(state)
 				if err != nil {
@@ -165,8 +176,13 @@ func iterate[R any](
 	relevantAllIndices := relevantAllIndicesFromSolver(variables, additionalVariables, relevantIndices, solver)
 
 	foundModels := 0
-	state := handler.Success()
-	for iterSATCall(solver, hdl) {
+	var state handler.State
+	for {
+		var satisfiable bool
+		satisfiable, state = iterSATCall(solver, hdl)
+		if !satisfiable {
+			break
+		}
 		modelFromSolver := solver.CoreSolver().Model()
 		foundModels++
 		if foundModels >= maxModels {
@@ -194,9 +210,9 @@ func iterate[R any](
 	return true, succ
 }
 
-func iterSATCall(solver *sat.Solver, hdl handler.Handler) bool {
+func iterSATCall(solver *sat.Solver, hdl handler.Handler) (bool, handler.State) {
 	sResult := solver.Call(sat.Params().Handler(hdl))
-	return sResult.OK() && sResult.Sat()
+	return sResult.OK() && sResult.Sat(), sResult.State()
 }
 
 func generateBlockingClause(modelFromSolver []bool, relevantVars []int32) []int32 {
-- 
2.43.0


From 65b222c14c50e3b71f67a8299c711bc378d5e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 36/60] fix: additional variables unknown to the solver occur
 once in enumerated models

---
 model/enum/enumeration.go | 8 ++++----
 model/iter/iteration.go   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/model/enum/enumeration.go b/model/enum/enumeration.go
index 9ea035d..d6cfac4 100644
--- a/model/enum/enumeration.go
+++ b/model/enum/enumeration.go
@@ -97,9 +97,7 @@ func (c *modelEnumCollector) AddModel(
 ) handler.State {
 	e := iter.EventIteratorFoundModels{NumberOfModels: len(c.baseModels)}
 	mdl := solver.CoreSolver().CreateModel(solver.Factory(), modelFromSolver, relevantAllIndices)
-	modelLiterals := c.additionalVariablesNotOnSolver.Content()
-	modelLiterals = append(modelLiterals, mdl.Literals...)
-	c.uncommittedModels = append(c.uncommittedModels, modelLiterals)
+	c.uncommittedModels = append(c.uncommittedModels, mdl.Literals)
 	if !hdl.ShouldResume(e) {
 		return handler.Cancelation(e)
 	}
@@ -137,11 +135,13 @@ func (c *modelEnumCollector) Result() []*model.Model {
 }
 
 func (c *modelEnumCollector) expandUncommittedModels() []*model.Model {
+	additionalLiterals := c.additionalVariablesNotOnSolver.Content()
 	expanded := make([]*model.Model, 0, len(c.baseModels))
 	for _, baseModel := range c.baseModels {
 		for _, uncommittedModel := range c.uncommittedModels {
-			completeModel := make([]f.Literal, 0, len(baseModel)+len(uncommittedModel))
+			completeModel := make([]f.Literal, 0, len(baseModel)+len(additionalLiterals)+len(uncommittedModel))
 			completeModel = append(completeModel, baseModel...)
+			completeModel = append(completeModel, additionalLiterals...)
 			completeModel = append(completeModel, uncommittedModel...)
 			expanded = append(expanded, model.New(completeModel...))
 		}
diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index 5cc3bdb..64a6fed 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -51,7 +51,7 @@ func (m *ModelIterator[R]) Iterate(
 		return emptyElement, handler.Cancelation(e)
 	}
 	knownVariables := solver.CoreSolver().KnownVariables(solver.Factory())
-	additionalVarsNotOnSolver := difference(m.additionalVars, knownVariables)
+	additionalVarsNotOnSolver := difference(difference(m.additionalVars, m.vars), knownVariables)
 	dontCareVariablesNotOnSolver := difference(m.vars, knownVariables)
 	collector := newCollector(solver.Factory(), knownVariables, dontCareVariablesNotOnSolver, additionalVarsNotOnSolver)
 	initialSplitVars := f.NewMutableVarSet()
-- 
2.43.0


From e228852f00218575e2247f07107ff95b8878b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 37/60] fix: model iteration does not split on variables
 unknown to the solver

---
 model/iter/iteration.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index 64a6fed..9bbeb90 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -115,7 +115,14 @@ func (m *ModelIterator[R]) iterRecursive(
 			}
 		}
 
-		remainingVars := f.NewMutableVarSetCopy(iterVars)
+		remainingVars := f.NewMutableVarSet()
+		for _, v := range iterVars.Content() {
+			// splitting on variables unknown to the solver makes no progress
+			name, _ := solver.Factory().VarName(v)
+			if solver.CoreSolver().IdxForName(name) != -1 {
+				remainingVars.Add(v)
+			}
+		}
 		remainingVars.RemoveAll(newSplitVars)
 		for _, literal := range splitModel {
 			remainingVars.Remove(literal.Variable())
-- 
2.43.0


From 9acbe5b1d4fc181b6c3e2439b191c09933172e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 38/60] fix: BDD counts do not modify cached numbers

---
 bdd/operation.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bdd/operation.go b/bdd/operation.go
index c292588..8b91575 100644
--- a/bdd/operation.go
+++ b/bdd/operation.go
@@ -181,9 +181,7 @@ func (k *Kernel) allUnsatRec(r int32, models *[][]byte, allunsatProfile *[]byte)
 func (k *Kernel) satCount(r int32) *big.Int {
 	size, i, e := big.NewInt(0), big.NewInt(2), big.NewInt(int64(k.level(r)))
 	size.Exp(i, e, nil)
-	satcount := k.satCountRec(r, cacheidSatcou)
-	satcount.Mul(satcount, size)
-	return satcount
+	return size.Mul(size, k.satCountRec(r, cacheidSatcou))
 }
 
 func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
@@ -225,8 +223,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 	if entry.a == r && entry.c == miscid {
 		return entry.bdres
 	}
-	count := k.pathCountRecOne(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecOne(k.high(r), miscid))
+	size = new(big.Int).Add(k.pathCountRecOne(k.low(r), miscid), k.pathCountRecOne(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
@@ -249,8 +246,7 @@ func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
 	if entry.a == r && entry.c == miscid {
 		return entry.bdres
 	}
-	count := k.pathCountRecZero(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecZero(k.high(r), miscid))
+	size = new(big.Int).Add(k.pathCountRecZero(k.low(r), miscid), k.pathCountRecZero(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
-- 
2.43.0


From ccb51e5c6d5434d33b0e3566f70afbf38ad0df25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:26 +0000
Subject: [PATCH 39/60] fix: DNNF compiler drops clauses with complementary
 literals

---
 dnnf/compiler.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/dnnf/compiler.go b/dnnf/compiler.go
index 7f0aef4..90a2eaa 100644
--- a/dnnf/compiler.go
+++ b/dnnf/compiler.go
@@ -51,7 +51,32 @@ type compiler struct {
 func simplifyFormula(fac f.Factory, formula f.Formula) f.Formula {
 	simp := simplification.PropagateBackbone(fac, formula)
 	simp, _ = simplification.CNFSubsumption(fac, simp) // formula is in cnf - no error possible
-	return simp
+	return removeTautologies(fac, simp)
+}
+
+// removeTautologies removes the clauses with complementary literals from the
+// given CNF.  Such clauses can occur if the factory does not simplify them.
+func removeTautologies(fac f.Factory, cnf f.Formula) f.Formula {
+	switch cnf.Sort() {
+	case f.SortAnd:
+		clauses := make([]f.Formula, 0)
+		for _, clause := range fac.Operands(cnf) {
+			if !isTautology(fac, clause) {
+				clauses = append(clauses, clause)
+			}
+		}
+		return fac.And(clauses...)
+	case f.SortOr:
+		if isTautology(fac, cnf) {
+			return fac.Verum()
+		}
+	}
+	return cnf
+}
+
+func isTautology(fac f.Factory, clause f.Formula) bool {
+	literals := f.Literals(fac, clause)
+	return f.Variables(fac, clause).Size() < literals.Size()
 }
 
 func newCompiler(fac f.Factory, formula f.Formula) *compiler {
-- 
2.43.0


From 0a8ec19d7b19ce13b1cfc6b70aa21f080b38ada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:08 +0000
Subject: [PATCH 40/60] fix: DNNF compiler uses a CNF which preserves the model
 count

---
 dnnf/compiler.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/dnnf/compiler.go b/dnnf/compiler.go
index 90a2eaa..cdd65bb 100644
--- a/dnnf/compiler.go
+++ b/dnnf/compiler.go
@@ -3,6 +3,7 @@ package dnnf
 import (
 	"math/bits"
 
+	"github.com/booleworks/logicng-go/configuration"
 	"github.com/booleworks/logicng-go/event"
 	f "github.com/booleworks/logicng-go/formula"
 	"github.com/booleworks/logicng-go/handler"
@@ -25,7 +26,7 @@ func Compile(fac f.Factory, formula f.Formula) *DNNF {
 func CompileWithHandler(fac f.Factory, formula f.Formula, hdl handler.Handler) (*DNNF, handler.State) {
 	originalVariables := f.NewMutableVarSet()
 	originalVariables.AddAll(f.Variables(fac, formula))
-	cnf := normalform.CNF(fac, formula)
+	cnf := normalform.CNF(fac, formula, cnfConfig(fac))
 	originalVariables.AddAll(f.Variables(fac, cnf))
 	simplifiedFormula := simplifyFormula(fac, cnf)
 	compiler := newCompiler(fac, simplifiedFormula)
@@ -36,6 +37,23 @@ func CompileWithHandler(fac f.Factory, formula f.Formula, hdl handler.Handler) (
 	return &DNNF{fac, dnnfFormula, originalVariables.AsImmutable()}, succ
 }
 
+// cnfConfig returns the CNF configuration of the factory, but replaces the
+// Plaisted-Greenbaum algorithm by Tseitin, since only the latter preserves the
+// model count.
+func cnfConfig(fac f.Factory) *normalform.CNFConfig {
+	config := *normalform.DefaultCNFConfig()
+	if configFromFactory, ok := fac.ConfigurationFor(configuration.CNF); ok {
+		config = *configFromFactory.(*normalform.CNFConfig)
+	}
+	if config.Algorithm == normalform.CNFPlaistedGreenbaum {
+		config.Algorithm = normalform.CNFTseitin
+	}
+	if config.FallbackAlgorithmForAdvancedEncoding == normalform.CNFPlaistedGreenbaum {
+		config.FallbackAlgorithmForAdvancedEncoding = normalform.CNFTseitin
+	}
+	return &config
+}
+
 type compiler struct {
 	fac               f.Factory
 	originalCNF       f.Formula
-- 
2.43.0


From 04d086380d0a2527febd9084012225cbf64c3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 41/60] fix: BDD counts are returned as fresh numbers

---
 bdd/operation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bdd/operation.go b/bdd/operation.go
index 8b91575..33e089e 100644
--- a/bdd/operation.go
+++ b/bdd/operation.go
@@ -181,7 +181,7 @@ func (k *Kernel) allUnsatRec(r int32, models *[][]byte, allunsatProfile *[]byte)
 func (k *Kernel) satCount(r int32) *big.Int {
 	size, i, e := big.NewInt(0), big.NewInt(2), big.NewInt(int64(k.level(r)))
 	size.Exp(i, e, nil)
-	return size.Mul(size, k.satCountRec(r, cacheidSatcou))
+	return new(big.Int).Mul(k.satCountRec(r, cacheidSatcou), size)
 }
 
 func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
@@ -208,7 +208,7 @@ func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountOne(r int32) *big.Int {
-	return k.pathCountRecOne(r, cacheidPathcouOne)
+	return new(big.Int).Set(k.pathCountRecOne(r, cacheidPathcouOne))
 }
 
 func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
@@ -231,7 +231,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountZero(r int32) *big.Int {
-	return k.pathCountRecZero(r, cacheidPathcouZero)
+	return new(big.Int).Set(k.pathCountRecZero(r, cacheidPathcouZero))
 }
 
 func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
-- 
2.43.0


From 78e82ab6313df51114e0913f55d164969f25542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 42/60] fix: occurrence orders of variables respect the DFS
 order

---
 bdd/ordering.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bdd/ordering.go b/bdd/ordering.go
index 5e1b8f1..120b561 100644
--- a/bdd/ordering.go
+++ b/bdd/ordering.go
@@ -112,12 +112,10 @@ func occurenceOrder(fac f.Factory, formula f.Formula, min2max bool) []f.Variable
 	dfs := DFSOrder(fac, formula)
 	variables := make([]f.Variable, len(dfs))
 	copy(variables, dfs)
-	sort.Slice(variables, func(i, j int) bool {
+	sort.SliceStable(variables, func(i, j int) bool {
 		o1 := profile[variables[i]]
 		o2 := profile[variables[j]]
-		if o1 == o2 {
-			return i < j
-		} else if min2max {
+		if min2max {
 			return o1 < o2
 		}
 		return o1 > o2
@@ -216,7 +214,7 @@ func sortedlocPairList(mapping *linkedhashmap.Map) *[]locPair {
 		list[count] = locPair{k.(*graph.HypergraphNode), v.(float64)}
 		count++
 	})
-	sort.Slice(list, func(i, j int) bool {
+	sort.SliceStable(list, func(i, j int) bool {
 		o1, _ := mapping.Get(list[i].node)
 		o2, _ := mapping.Get(list[j].node)
 		return o1.(float64) < o2.(float64)
-- 
2.43.0


From d75cc5a4f3277fbc940661ef49323f96fc114b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 43/60] fix: BDD to formula respects the paths to follow

---
 bdd/bdd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index ca2d54a..388aa45 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -228,7 +228,7 @@ func compile(fac f.Factory, formula f.Formula, kernel *Kernel, hdl handler.Handl
 // respectively.
 func (b *BDD) ToFormula(fac f.Factory, followPathsToTrue ...bool) f.Formula {
 	var fptt bool
-	if len(followPathsToTrue) > 1 {
+	if len(followPathsToTrue) > 0 {
 		fptt = followPathsToTrue[0]
 	} else {
 		fptt = true
-- 
2.43.0


From 5ee2b641128eea47e7bb80fd643e58ceb820250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 44/60] fix: BDD queries skip variable numbers without a
 variable

---
 bdd/bdd.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index 388aa45..1bc260f 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -412,18 +412,21 @@ func (b *BDD) VariableProfile() map[f.Variable]int {
 	varProfile := b.Kernel.varProfile(b.Index)
 	profile := make(map[f.Variable]int, len(varProfile))
 	for i := range varProfile {
-		variable, _ := b.Kernel.getVariableForIndex(int32(i))
-		profile[variable] = varProfile[i]
+		if variable, ok := b.Kernel.getVariableForIndex(int32(i)); ok {
+			profile[variable] = varProfile[i]
+		}
 	}
 	return profile
 }
 
 // VariableOrder returns the variable order of the BDD.
 func (b *BDD) VariableOrder() []f.Variable {
-	order := make([]f.Variable, len(b.Kernel.level2var)-1)
-	for i := range order {
-		variable, _ := b.Kernel.getVariableForIndex(b.Kernel.level2var[i])
-		order[i] = variable
+	varNum := len(b.Kernel.level2var) - 1
+	order := make([]f.Variable, 0, varNum)
+	for i := range varNum {
+		if variable, ok := b.Kernel.getVariableForIndex(b.Kernel.level2var[i]); ok {
+			order = append(order, variable)
+		}
 	}
 	return order
 }
@@ -469,13 +472,16 @@ func (b *BDD) createModel(modelBdd int32) (*model.Model, error) {
 		return model.New(), nil
 	}
 	nodes := b.Kernel.allNodes(modelBdd)
-	lits := make([]f.Literal, len(nodes))
-	for i, node := range nodes {
-		variable, _ := b.Kernel.getVariableForIndex(node[1])
+	lits := make([]f.Literal, 0, len(nodes))
+	for _, node := range nodes {
+		variable, ok := b.Kernel.getVariableForIndex(node[1])
+		if !ok {
+			continue // variable number which is not yet used by a variable
+		}
 		if node[2] == bddFalse {
-			lits[i] = variable.AsLiteral()
+			lits = append(lits, variable.AsLiteral())
 		} else if node[3] == bddFalse {
-			lits[i] = variable.Negate(b.Kernel.fac)
+			lits = append(lits, variable.Negate(b.Kernel.fac))
 		} else {
 			panic(errorx.IllegalState("model must have a unique path through the BDD"))
 		}
-- 
2.43.0


From 81cfb9d373f8ade6f7509d009b9f2655db1cb340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:07 +0000
Subject: [PATCH 45/60] fix: BDD kernels know all variables of compiled
 constraints

---
 bdd/bdd.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index 1bc260f..3bfea98 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -212,6 +212,11 @@ func compile(fac f.Factory, formula f.Formula, kernel *Kernel, hdl handler.Handl
 		}
 		return res, state
 	case f.SortCC, f.SortPBC:
+		// the NNF does not need to contain all variables of the constraint
+		_, _, lits, _, _ := fac.PBCOps(formula)
+		for _, lit := range lits {
+			kernel.getOrAddVarIndex(lit.Variable())
+		}
 		return compile(fac, normalform.NNF(fac, formula), kernel, hdl)
 	default:
 		panic(errorx.UnknownEnumValue(formula.Sort()))
-- 
2.43.0


From c4d75492f133e1d7e7e946cb0d212989cbb25b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 46/60] fix: results of BDD restriction and quantification
 survive garbage collections

---
 bdd/bdd.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index 3bfea98..b424a7b 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -342,21 +342,24 @@ func (b *BDD) NumberOfCNFClauses() *big.Int {
 // the respective variables anymore.
 func (b *BDD) Restrict(restriction ...f.Literal) *BDD {
 	resBdd := CompileLiterals(restriction, b.Kernel)
-	return newBdd(b.Kernel.restrict(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.restrict(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Exists performs existential quantifier elimination for a given set of
 // variables and return the resulting BDD.
 func (b *BDD) Exists(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.exists(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.exists(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // ForAll performs universal quantifier elimination for a given set of
 // variables and returns the resulting BDD.
 func (b *BDD) ForAll(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.forAll(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.forAll(b.Index, resBdd.Index), handler.NopHandler)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Model returns an arbitrary model of the BDD.  An error is returned if the
-- 
2.43.0


From b30075799cdbe810f3aed6a49c79c5f1acdf14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 47/60] fix: BDD negation supports reordering during
 construction

---
 bdd/construction.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bdd/construction.go b/bdd/construction.go
index ff06d3f..5e2327a 100644
--- a/bdd/construction.go
+++ b/bdd/construction.go
@@ -74,9 +74,15 @@ func (k *Kernel) notRec(r int32) (int32, bool) {
 	if entry.a == r && entry.c == bddNot.v {
 		return entry.res, false
 	}
-	node, _ := k.notRec(k.low(r))
+	node, reorder := k.notRec(k.low(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
-	node, _ = k.notRec(k.high(r))
+	node, reorder = k.notRec(k.high(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
 	res, reorder := k.makeNode(k.level(r), k.readRef(2), k.readRef(1))
 	if reorder {
-- 
2.43.0


From 7f71f4ad84b6d75f3385e68a1dcb4dd11a1961fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 48/60] fix: BDD reordering keeps blocks together if there are
 variables between them

---
 bdd/reordering.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index cfd9500..3d769a3 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -571,14 +571,9 @@ func (r *reordering) blockdown(left *bddTree) {
 	}
 
 	// Move right to where left started
-	for r.k.var2level[rseq[0]] > leftstart {
-		for n = rightsize; n > 0; n-- {
-			if r.k.var2level[rseq[n]]-1 != r.k.var2level[rseq[n-1]] && r.k.var2level[rseq[n]] > leftstart {
-				r.reorderVarup(rseq[n])
-			}
-		}
-		if r.k.var2level[rseq[0]] > leftstart {
-			r.reorderVarup(rseq[0])
+	for n = 0; n <= rightsize; n++ {
+		for r.k.var2level[rseq[n]] > leftstart+n {
+			r.reorderVarup(rseq[n])
 		}
 	}
 
-- 
2.43.0


From 40f5ac09d53182013b436f7468e3b4070b828412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 49/60] fix: BDD reordering keeps the reference counts of live
 nodes

---
 bdd/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index 3d769a3..f108a3f 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -200,7 +200,7 @@ func (r *reordering) reorderDone() {
 	}
 	for n := int32(2); n < r.k.nodesize; n++ {
 		if r.k.marked(n) {
-			r.k.unmark(n)
+			r.k.unmarkNode(n)
 		} else {
 			r.k.setRefcou(n, 0)
 		}
-- 
2.43.0


From a92e6d37cf17caf31cfabdc166897c20b245e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 50/60] fix: BDD restriction and quantification support
 reordering during construction

---
 bdd/construction.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bdd/construction.go b/bdd/construction.go
index 5e2327a..9d109de 100644
--- a/bdd/construction.go
+++ b/bdd/construction.go
@@ -99,8 +99,8 @@ func (k *Kernel) restrict(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2svartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2svartable(variable) // depends on the levels of the variables
 		return k.restrictRec(r, (variable<<3)|cacheidRestrict)
 	})
 }
@@ -151,8 +151,8 @@ func (k *Kernel) exists(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable) // depends on the levels of the variables
 		return k.quantRec(r, bddOr, variable<<3)
 	})
 }
@@ -161,8 +161,8 @@ func (k *Kernel) forAll(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable) // depends on the levels of the variables
 		return k.quantRec(r, bddAnd, (variable<<3)|cacheidForall)
 	})
 }
-- 
2.43.0


From 9140ecca9961c46bb5e4d9b876236d5652c8e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 51/60] fix: BDD of an empty conjunction of literals is a
 tautology

---
 bdd/bdd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index b424a7b..da6684d 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -104,7 +104,7 @@ func CompileWithKernelAndHandler(
 func CompileLiterals(literals []f.Literal, kernel *Kernel) *BDD {
 	var bdd int32
 	if len(literals) == 0 {
-		bdd = bddFalse
+		bdd = bddTrue
 	} else if len(literals) == 1 {
 		lit := literals[0]
 		variable := lit.Variable()
-- 
2.43.0


From 5d959af52e4f652bf9ea790a771632b104d8e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 52/60] fix: minimum prime implicant is prime and minimal for
 arbitrary formulas

---
 primeimplicant/minimum_implicant.go | 70 +++++++++++++----------------
 1 file changed, 30 insertions(+), 40 deletions(-)

diff --git a/primeimplicant/minimum_implicant.go b/primeimplicant/minimum_implicant.go
index e3a4a68..5c1548a 100644
--- a/primeimplicant/minimum_implicant.go
+++ b/primeimplicant/minimum_implicant.go
@@ -1,9 +1,11 @@
 package primeimplicant
 
 import (
+	"slices"
+
 	"github.com/booleworks/logicng-go/errorx"
 	f "github.com/booleworks/logicng-go/formula"
-	"github.com/booleworks/logicng-go/normalform"
+	"github.com/booleworks/logicng-go/handler"
 	"github.com/booleworks/logicng-go/sat"
 	"github.com/booleworks/logicng-go/transformation"
 )
@@ -11,47 +13,35 @@ import (
 // Minimum computes a minimum-size prime implicant for the given formula.  If
 // the formula is unsatisfiable it returns an error.
 func Minimum(fac f.Factory, formula f.Formula) ([]f.Literal, error) {
-	nnf := normalform.NNF(fac, formula)
-	newVar2oldLit := make(map[f.Variable]f.Literal)
-	substitution := make(map[f.Literal]f.Literal)
-	literals := f.Literals(fac, nnf)
-	newLiterals := make([]f.Literal, literals.Size())
-
-	for i, literal := range literals.Content() {
-		name, phase, _ := fac.LitNamePhase(literal)
-		var polarity string
-		if phase {
-			polarity = pos
-		} else {
-			polarity = neg
-		}
-		newVar := fac.Var(name + polarity)
-		newLiterals[i] = newVar.AsLiteral()
-		newVar2oldLit[newVar] = literal
-		substitution[literal] = newVar.AsLiteral()
-	}
-
-	substituted := transformation.SubstituteLiterals(fac, nnf, &substitution)
-	solver := sat.NewSolver(fac)
-	solver.Add(substituted)
-
-	for _, literal := range newVar2oldLit {
-		if literal.IsPos() && literals.Contains(literal.Negate(fac)) {
-			name, _, _ := fac.LitNamePhase(literal)
-			solver.Add(fac.AMO(fac.Var(name+pos), fac.Var(name+neg)))
-		}
-	}
-	if !solver.Sat() {
+	if !sat.IsSatisfiable(fac, formula) {
 		return nil, errorx.BadInput("formula was unsatisfiable")
 	}
-	minimumModel := solver.Minimize(newLiterals)
-	primeImplicant := make([]f.Literal, 0)
-
-	for _, variable := range minimumModel.PosVars() {
-		literal, ok := newVar2oldLit[variable]
-		if ok {
-			primeImplicant = append(primeImplicant, literal)
+	sub := createSubstitution(fac, formula)
+	literals := make([]f.Literal, 0, len(sub.newVar2oldLit))
+	for key := range sub.newVar2oldLit {
+		literals = append(literals, key.AsLiteral())
+	}
+	slices.Sort(literals)
+	hSolver := sat.NewSolver(fac)
+	hSolver.Add(sub.constraintFormula)
+	fSolver := sat.NewSolver(fac)
+	fSolver.Add(formula.Negate(fac))
+	primeReduction := newPrimeReduction(fac, formula)
+	for {
+		// a minimum-size set of literals hitting all implicates found so far
+		candidate := transformModel(hSolver.Minimize(literals), &sub.newVar2oldLit)
+		params := sat.Params().WithModel(f.Variables(fac, formula).Content()).Literal(candidate.Literals...)
+		result := fSolver.Call(params)
+		if !result.Sat() {
+			slices.Sort(candidate.Literals)
+			return candidate.Literals, nil
+		}
+		countermodel := result.Model().Literals
+		implicate := make([]f.Literal, len(countermodel))
+		for i, lit := range countermodel {
+			implicate[i] = lit.Negate(fac)
 		}
+		implicate, _ = primeReduction.reduceImplicate(fac, implicate, handler.NopHandler)
+		hSolver.Add(transformation.SubstituteLiterals(fac, fac.Or(f.LiteralsAsFormulas(implicate)...), &sub.substitution))
 	}
-	return primeImplicant, nil
 }
-- 
2.43.0


From 27493a1fc553cc2876f9b005cbdc8615ca704d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 53/60] fix: insertion-based MUS rejects an empty set of
 propositions

---
 explanation/mus/mus.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explanation/mus/mus.go b/explanation/mus/mus.go
index b3c508b..5744ee9 100644
--- a/explanation/mus/mus.go
+++ b/explanation/mus/mus.go
@@ -30,6 +30,9 @@ func ComputeInsertionBasedWithHandler(
 	if e := event.MusComputationStarted; !hdl.ShouldResume(e) {
 		return nil, handler.Cancelation(e), nil
 	}
+	if len(*propositions) == 0 {
+		return nil, handler.Success(), errorx.BadInput("formula set is satisfiable")
+	}
 	currentFormula := make([]f.Proposition, len(*propositions))
 	copy(currentFormula, *propositions)
 	mus := make([]f.Proposition, 0, len(*propositions))
-- 
2.43.0


From c3ebfa1c6cd65726e3a96109aa941ad7a38cb168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 54/60] fix: randomizer is deterministic for constraints

---
 randomizer/formula_randomizer.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/randomizer/formula_randomizer.go b/randomizer/formula_randomizer.go
index 066e2ea..c59a89b 100644
--- a/randomizer/formula_randomizer.go
+++ b/randomizer/formula_randomizer.go
@@ -357,12 +357,14 @@ func (r *FormulaRandomizer) ConstraintSet(numConstraints, maxDepth int) []f.Form
 func (r *FormulaRandomizer) ccVariables() []f.Variable {
 	variables := make(map[f.Variable]present)
 	bound := r.random.Intn(r.config.MaximumOpsCC-1) + 2
+	vars := make([]f.Variable, 0, bound)
 	for range bound {
-		variables[r.Variable()] = present{}
-	}
-	vars := make([]f.Variable, 0, len(variables))
-	for v := range variables {
-		vars = append(vars, v)
+		// the order must only depend on the random source
+		v := r.Variable()
+		if _, ok := variables[v]; !ok {
+			variables[v] = present{}
+			vars = append(vars, v)
+		}
 	}
 	return vars
 }
-- 
2.43.0


From ecec873f7f520429b8260876a19b34dee0f80c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 55/60] fix: formula DAG uses the computed labels for literals

---
 formula/graphical.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/formula/graphical.go b/formula/graphical.go
index c0ab29e..42b5271 100644
--- a/formula/graphical.go
+++ b/formula/graphical.go
@@ -178,9 +178,10 @@ func (g *dagGenerator) initNodes(formula Formula) {
 	for _, lit := range Literals(g.fac, formula).Content() {
 		label := litString(g.fac, lit)
 		nodeId := fmt.Sprintf("%s%d", id, len(g.nodes))
-		literalNode := graphical.NewNode(nodeId, label, g.NodeStyle(lit.AsFormula()), true)
+		literal := lit.AsFormula()
+		literalNode := graphical.NewNode(nodeId, g.LabelOrDefault(literal, label), g.NodeStyle(literal), true)
 		g.representation.AddNode(literalNode)
-		g.nodes[lit.AsFormula()] = literalNode
+		g.nodes[literal] = literalNode
 	}
 }
 
-- 
2.43.0


From ba2f8021ff7b99bf65a58e85ddb7bba806bf76eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 56/60] fix: hypergraph of clauses rejects disjunctions which
 are no clauses

---
 graph/hypergraph_generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graph/hypergraph_generator.go b/graph/hypergraph_generator.go
index b6a2529..5a134e0 100644
--- a/graph/hypergraph_generator.go
+++ b/graph/hypergraph_generator.go
@@ -18,6 +18,9 @@ func HypergraphFromClauses(fac f.Factory, clauses ...f.Formula) (*Hypergraph, er
 		case f.SortCC, f.SortPBC, f.SortEquiv, f.SortImpl, f.SortNot, f.SortAnd:
 			return nil, errorx.BadInput("not a clause %s", clause.Sprint(fac))
 		case f.SortLiteral, f.SortOr:
+			if !normalform.IsCNF(fac, clause) {
+				return nil, errorx.BadInput("not a clause %s", clause.Sprint(fac))
+			}
 			addClause(fac, clause, hypergraph, &nodes)
 		}
 	}
-- 
2.43.0


From 041a8f1601562f537ec90b38a9bd3737c5e2a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 57/60] fix: factorization and BDD node handlers can be reused
 after a cancelation

Both handlers reset their counters at the start of a computation but kept
the canceled flag, so that a handler which canceled once stopped every later
computation at its first event.
---
 bdd/handler.go        | 1 +
 normalform/handler.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bdd/handler.go b/bdd/handler.go
index 4dfd375..fc75cd3 100644
--- a/bdd/handler.go
+++ b/bdd/handler.go
@@ -22,6 +22,7 @@ func HandlerWithNodes(bound int) *NodesHandler {
 func (n *NodesHandler) ShouldResume(e event.Event) bool {
 	switch e {
 	case event.BddComputationStarted:
+		n.canceled = false
 		n.count = 0
 	case event.BddNewRefAdded:
 		n.count++
diff --git a/normalform/handler.go b/normalform/handler.go
index 87ec8c4..dcbb09e 100644
--- a/normalform/handler.go
+++ b/normalform/handler.go
@@ -22,6 +22,7 @@ func NewFactorizationHandler(distributionBoundary, clauseBoundary int) *Factoriz
 func (f *FactorizationHandler) ShouldResume(e event.Event) bool {
 	switch e {
 	case event.FactorizationStarted:
+		f.canceled = false
 		f.currentDistributions = 0
 		f.currentClauses = 0
 	case event.DistributionPerformed:
-- 
2.43.0


From cf8e9c2b7053fbf40c2e146c856dbbc3231c76c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 58/60] fix: graphical writers report every write error

---
 graphical/dot_writer.go     |  8 +++++++-
 graphical/error_writer.go   | 19 +++++++++++++++++++
 graphical/mermaid_writer.go |  7 ++++++-
 3 files changed, 32 insertions(+), 2 deletions(-)
 create mode 100644 graphical/error_writer.go

diff --git a/graphical/dot_writer.go b/graphical/dot_writer.go
index e4f384b..989c296 100644
--- a/graphical/dot_writer.go
+++ b/graphical/dot_writer.go
@@ -39,6 +39,8 @@ func WriteDotToFile(file *os.File, representation *Representation) error {
 // the given writer.  Returns an error when there was a problem writing to
 // the writer.
 func WriteDotToWriter(writer io.Writer, representation *Representation) error {
+	errWriter := &errorWriter{writer: writer}
+	writer = errWriter
 	err := writeDotPreamble(writer, representation)
 	if err != nil {
 		return err
@@ -51,7 +53,11 @@ func WriteDotToWriter(writer io.Writer, representation *Representation) error {
 	if err != nil {
 		return err
 	}
-	return writeDotClosing(writer)
+	err = writeDotClosing(writer)
+	if err != nil {
+		return err
+	}
+	return errWriter.err
 }
 
 func writeDotPreamble(writer io.Writer, representation *Representation) error {
diff --git a/graphical/error_writer.go b/graphical/error_writer.go
new file mode 100644
index 0000000..ee68f30
--- /dev/null
+++ b/graphical/error_writer.go
@@ -0,0 +1,19 @@
+package graphical
+
+import "io"
+
+// errorWriter wraps a writer and remembers its first error.  After the first
+// error nothing more is written.
+type errorWriter struct {
+	writer io.Writer
+	err    error
+}
+
+func (w *errorWriter) Write(p []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	n, err := w.writer.Write(p)
+	w.err = err
+	return n, err
+}
diff --git a/graphical/mermaid_writer.go b/graphical/mermaid_writer.go
index 2ce2a5e..ca068e0 100644
--- a/graphical/mermaid_writer.go
+++ b/graphical/mermaid_writer.go
@@ -46,6 +46,8 @@ func WriteMermaidToFile(file *os.File, representation *Representation) error {
 // Mermaid.js file to the writer.  Returns an error when there was a
 // problem writing to the writer.
 func WriteMermaidToWriter(writer io.Writer, representation *Representation) error {
+	errWriter := &errorWriter{writer: writer}
+	writer = errWriter
 	err := writeMermaidPreamble(writer)
 	if err != nil {
 		return err
@@ -55,7 +57,10 @@ func WriteMermaidToWriter(writer io.Writer, representation *Representation) erro
 		return err
 	}
 	err = writeMermaidEdges(writer, representation)
-	return err
+	if err != nil {
+		return err
+	}
+	return errWriter.err
 }
 
 func writeMermaidPreamble(writer io.Writer) error {
-- 
2.43.0


From cf5f05b0ac620a268d3b589483c9d6f34ee3c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 59/60] fix: DNNF compilation keeps literals implied by learnt
 clauses in their part

A literal implied by an asserted conflict-driven clause could belong to another
part of the decomposition than the one being compiled.  It was lost or cached
with the wrong part, which led to non-equivalent and non-decomposable results.
---
 dnnf/compiler.go   | 58 ++++++++++++++++++++++++++++++++++++----------
 sat/dnnf_solver.go | 52 ++++++++++++++++++++++-------------------
 2 files changed, 74 insertions(+), 36 deletions(-)

diff --git a/dnnf/compiler.go b/dnnf/compiler.go
index cdd65bb..f1970f7 100644
--- a/dnnf/compiler.go
+++ b/dnnf/compiler.go
@@ -62,6 +62,7 @@ type compiler struct {
 	solver            sat.DnnfSatSolver
 	numberOfVariables int32
 	cache             *treemap.Map
+	cachedKeys        []*bitset
 	localCacheKeys    [][]*bitset
 	localOccurrences  [][][]int32
 }
@@ -201,7 +202,7 @@ func (c *compiler) compileWithTree(dtree dtree, hdl handler.Handler) (f.Formula,
 		return 0, handler.Cancelation(e)
 	}
 
-	result, state := c.cnf2ddnnf(dtree, hdl)
+	result, state := c.cnf2ddnnf(dtree, dtree.staticVarSet(), hdl)
 	if !state.Success {
 		return 0, state
 	}
@@ -232,13 +233,17 @@ func (c *compiler) initializeCaches(dtree dtree) {
 	}
 }
 
-func (c *compiler) cnf2ddnnf(tree dtree, hdl handler.Handler) (f.Formula, handler.State) {
-	return c.cnf2ddnnfInner(tree, 0, hdl)
+// cnf2ddnnf compiles the given tree.  The known variables are the variables of
+// the tree's clauses which were not yet assigned when its compilation started.
+func (c *compiler) cnf2ddnnf(tree dtree, known *bitset, hdl handler.Handler) (f.Formula, handler.State) {
+	return c.cnf2ddnnfInner(tree, known, 0, hdl)
 }
 
-func (c *compiler) cnf2ddnnfInner(tree dtree, currentShannons int, hdl handler.Handler) (f.Formula, handler.State) {
+func (c *compiler) cnf2ddnnfInner(
+	tree dtree, known *bitset, currentShannons int, hdl handler.Handler,
+) (f.Formula, handler.State) {
 	separator := tree.dynamicSeparator()
-	implied := c.newlyImpliedLiterals(tree.staticVarSet())
+	implied := c.newlyImpliedLiterals(known)
 
 	if separator.cardinality() == 0 {
 		switch node := tree.(type) {
@@ -255,7 +260,7 @@ func (c *compiler) cnf2ddnnfInner(tree dtree, currentShannons int, hdl handler.H
 
 		positiveDnnf := c.fac.Falsum()
 		if c.solver.Decide(variable, true) {
-			res, state := c.cnf2ddnnfInner(tree, currentShannons+1, hdl)
+			res, state := c.cnf2ddnnfInner(tree, known, currentShannons+1, hdl)
 			if !state.Success {
 				return 0, state
 			}
@@ -264,14 +269,14 @@ func (c *compiler) cnf2ddnnfInner(tree dtree, currentShannons int, hdl handler.H
 		c.solver.UndoDecide(variable)
 		if positiveDnnf.Sort() == f.SortFalse {
 			if c.solver.AtAssertionLevel() && c.solver.AssertCdLiteral() {
-				return c.cnf2ddnnf(tree, hdl)
+				return c.recompile(implied, tree, known, hdl)
 			}
 			return c.fac.Falsum(), succ
 		}
 
 		negativeDnnf := c.fac.Falsum()
 		if c.solver.Decide(variable, false) {
-			res, state := c.cnf2ddnnfInner(tree, currentShannons+1, hdl)
+			res, state := c.cnf2ddnnfInner(tree, known, currentShannons+1, hdl)
 			if !state.Success {
 				return 0, state
 			}
@@ -280,7 +285,7 @@ func (c *compiler) cnf2ddnnfInner(tree dtree, currentShannons int, hdl handler.H
 		c.solver.UndoDecide(variable)
 		if negativeDnnf == c.fac.Falsum() {
 			if c.solver.AtAssertionLevel() && c.solver.AssertCdLiteral() {
-				return c.cnf2ddnnf(tree, hdl)
+				return c.recompile(implied, tree, known, hdl)
 			}
 			return c.fac.Falsum(), succ
 		}
@@ -292,6 +297,18 @@ func (c *compiler) cnf2ddnnfInner(tree dtree, currentShannons int, hdl handler.H
 	}
 }
 
+// recompile compiles the tree again after a conflict-driven literal was
+// asserted.  The implied literals were already reported by the solver.
+func (c *compiler) recompile(
+	implied f.Formula, tree dtree, known *bitset, hdl handler.Handler,
+) (f.Formula, handler.State) {
+	result, state := c.cnf2ddnnf(tree, known, hdl)
+	if !state.Success {
+		return 0, state
+	}
+	return c.fac.And(implied, result), succ
+}
+
 func (c *compiler) chooseShannonVariable(tree dtree, separator *bitset, currentShannons int) int32 {
 	occurrences := c.localOccurrences[tree.depth()][currentShannons]
 	for i := range occurrences {
@@ -321,21 +338,36 @@ func (c *compiler) conjoin(
 	if implied.Sort() == f.SortFalse {
 		return c.fac.Falsum(), succ
 	}
+	numberOfCachedKeys := len(c.cachedKeys)
 	left, state := c.cnfAux(tree.left, currentShannons, hdl)
 	if !state.Success {
 		return 0, state
 	}
 	if left.Sort() == f.SortFalse {
+		c.uncache(numberOfCachedKeys)
 		return c.fac.Falsum(), succ
 	}
+	// literals of the right tree can be implied by clauses learnt in the left tree
+	impliedRight := c.newlyImpliedLiterals(tree.localRightVarSet)
 	right, state := c.cnfAux(tree.right, currentShannons, hdl)
 	if !state.Success {
 		return 0, state
 	}
 	if right.Sort() == f.SortFalse {
+		c.uncache(numberOfCachedKeys)
 		return c.fac.Falsum(), succ
 	}
-	return c.fac.And(implied, left, right), succ
+	return c.fac.And(implied, left, impliedRight, right), succ
+}
+
+// uncache removes the cache entries which were added after the given number of
+// keys.  If one part of a conjunction is unsatisfiable, learnt clauses may imply
+// literals in the other parts which do not hold in other contexts.
+func (c *compiler) uncache(numberOfCachedKeys int) {
+	for _, key := range c.cachedKeys[numberOfCachedKeys:] {
+		c.cache.Remove(key)
+	}
+	c.cachedKeys = c.cachedKeys[:numberOfCachedKeys]
 }
 
 func (c *compiler) cnfAux(tree dtree, currentShannons int, hdl handler.Handler) (f.Formula, handler.State) {
@@ -347,12 +379,14 @@ func (c *compiler) cnfAux(tree dtree, currentShannons int, hdl handler.Handler)
 		if val, ok := c.cache.Get(key); ok {
 			return val.(f.Formula), succ
 		}
-		dnnf, state := c.cnf2ddnnf(tree, hdl)
+		key = key.clone()
+		dnnf, state := c.cnf2ddnnf(tree, key, hdl) // the key contains the unassigned variables
 		if !state.Success {
 			return 0, state
 		}
 		if dnnf.Sort() != f.SortFalse {
-			c.cache.Put(key.clone(), dnnf)
+			c.cache.Put(key, dnnf)
+			c.cachedKeys = append(c.cachedKeys, key)
 		}
 		return dnnf, succ
 	}
diff --git a/sat/dnnf_solver.go b/sat/dnnf_solver.go
index 7e04349..6bf39f2 100644
--- a/sat/dnnf_solver.go
+++ b/sat/dnnf_solver.go
@@ -23,12 +23,13 @@ type DnnfSatSolver interface {
 
 type DnnfSolver struct {
 	*CoreSolver
-	fac               f.Factory
-	newlyImpliedDirty bool
-	assertionLevel    int
-	lastLearnt        []int32
-	assignment        []f.Tristate
-	impliedOperands   []f.Formula
+	fac             f.Factory
+	assertionLevel  int
+	lastLearnt      []int32
+	assignment      []f.Tristate
+	reported        []bool // variables whose current value is known to the caller
+	unreported      int    // number of assigned variables which are not reported yet
+	impliedOperands []f.Formula
 }
 
 func NewDnnfSolver(fac f.Factory, numberOfVariables int) *DnnfSolver {
@@ -36,6 +37,7 @@ func NewDnnfSolver(fac f.Factory, numberOfVariables int) *DnnfSolver {
 		fac:             fac,
 		assertionLevel:  -1,
 		assignment:      make([]f.Tristate, 2*numberOfVariables),
+		reported:        make([]bool, numberOfVariables),
 		impliedOperands: []f.Formula{},
 	}
 	solver.CoreSolver = NewCoreSolver(DefaultConfig(), solver.dnnfUncheckedEnqueue)
@@ -46,7 +48,6 @@ func NewDnnfSolver(fac f.Factory, numberOfVariables int) *DnnfSolver {
 }
 
 func (m *DnnfSolver) Start() bool {
-	m.newlyImpliedDirty = true
 	return m.propagate() == nil
 }
 
@@ -82,15 +83,14 @@ func (m *DnnfSolver) Add(formula f.Formula) {
 }
 
 func (m *DnnfSolver) Decide(variable int32, phase bool) bool {
-	m.newlyImpliedDirty = true
 	lit := MkLit(variable, !phase)
 	m.trailLim = append(m.trailLim, len(m.trail))
 	m.enqueueFunction(m.CoreSolver, lit, nil)
+	m.markReported(variable)
 	return m.propagateAfterDecide()
 }
 
 func (m *DnnfSolver) UndoDecide(variable int32) {
-	m.newlyImpliedDirty = false
 	m.cancelUntilDnnf(m.vars[variable].level - 1)
 }
 
@@ -99,7 +99,6 @@ func (m *DnnfSolver) AtAssertionLevel() bool {
 }
 
 func (m *DnnfSolver) AssertCdLiteral() bool {
-	m.newlyImpliedDirty = true
 	if !m.AtAssertionLevel() {
 		panic(errorx.IllegalState("assertCdLiteral called although not at assertion level"))
 	}
@@ -116,30 +115,31 @@ func (m *DnnfSolver) AssertCdLiteral() bool {
 	return m.propagateAfterDecide()
 }
 
+// NewlyImplied returns the conjunction of the currently assigned literals on
+// the known variables which were not decided and not returned by a previous
+// call since their assignment.
 func (m *DnnfSolver) NewlyImplied(knownVariables []bool) f.Formula {
 	m.impliedOperands = []f.Formula{}
-	if m.newlyImpliedDirty {
-		var limit int
-		if len(m.trailLim) == 0 {
-			limit = -1
-		} else {
-			limit = m.trailLim[len(m.trailLim)-1]
-		}
-		for i := len(m.trail) - 1; i > limit; i-- {
-			lit := m.trail[i]
-			index := Vari(lit)
-			if int(index) < len(knownVariables) && knownVariables[index] {
-				m.impliedOperands = append(m.impliedOperands, m.intToLiteral(lit))
-			}
+	for i := len(m.trail) - 1; i >= 0 && m.unreported > 0; i-- {
+		lit := m.trail[i]
+		index := Vari(lit)
+		if !m.reported[index] && int(index) < len(knownVariables) && knownVariables[index] {
+			m.markReported(index)
+			m.impliedOperands = append(m.impliedOperands, m.intToLiteral(lit))
 		}
 	}
-	m.newlyImpliedDirty = false
 	return m.fac.And(m.impliedOperands...)
 }
 
+func (m *DnnfSolver) markReported(variable int32) {
+	m.reported[variable] = true
+	m.unreported--
+}
+
 func (m *DnnfSolver) dnnfUncheckedEnqueue(solver *CoreSolver, lit int32, reason *clause) {
 	m.assignment[lit] = f.TristateTrue
 	m.assignment[lit^1] = f.TristateFalse
+	m.unreported++
 	UncheckedEnqueue(solver, lit, reason)
 }
 
@@ -150,6 +150,10 @@ func (m *DnnfSolver) cancelUntilDnnf(level int) {
 			m.assignment[l] = f.TristateUndef
 			m.assignment[l^1] = f.TristateUndef
 			x := Vari(l)
+			if !m.reported[x] {
+				m.unreported--
+			}
+			m.reported[x] = false
 			v := m.vars[x]
 			v.assignment = f.TristateUndef
 			v.polarity = Sign(m.trail[c])
-- 
2.43.0


From 94a091ac6086aa664e9b395b5f87dc546173d922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 60/60] fix: pseudo-Boolean encodings support coefficients of
 more than 31 bits

The adder network ignored all bits above the 31st, the binary merge computed its
bounds with floating point numbers.
---
 encoding/pbc_adder.go        |  9 ++-------
 encoding/pbc_binary_merge.go | 10 +++++-----
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/encoding/pbc_adder.go b/encoding/pbc_adder.go
index 1016377..d85cbea 100644
--- a/encoding/pbc_adder.go
+++ b/encoding/pbc_adder.go
@@ -1,6 +1,7 @@
 package encoding
 
 import (
+	"math/bits"
 	"slices"
 
 	f "github.com/booleworks/logicng-go/formula"
@@ -28,13 +29,7 @@ func encodePBCAdder(result Result, lits []f.Literal, coeffs []int, rhs int) {
 }
 
 func ldInt(x int) int {
-	ldreturn := 0
-	for i := range 31 {
-		if (x & (1 << i)) > 0 {
-			ldreturn = i + 1
-		}
-	}
-	return ldreturn
+	return bits.Len(uint(x))
 }
 
 func adderTree(result Result, buckets *[][]f.Literal, literals *[]f.Literal, nullLit f.Literal) {
diff --git a/encoding/pbc_binary_merge.go b/encoding/pbc_binary_merge.go
index e32ce44..f1e40ee 100644
--- a/encoding/pbc_binary_merge.go
+++ b/encoding/pbc_binary_merge.go
@@ -2,6 +2,7 @@ package encoding
 
 import (
 	"math"
+	"math/bits"
 	"slices"
 
 	f "github.com/booleworks/logicng-go/formula"
@@ -77,10 +78,9 @@ func binaryMerge(
 ) {
 	fac := result.Factory()
 	lessThen := leq + 1
-	p := int(math.Floor(math.Log(float64(maxWeight)) / math.Log(2)))
-	m := int(math.Ceil(float64(lessThen) / math.Pow(2, float64(p))))
-	newLessThen := int(float64(m) * math.Pow(2, float64(p)))
-	t := int(float64(m)*math.Pow(2, float64(p)) - float64(lessThen))
+	p := bits.Len(uint(maxWeight)) - 1
+	newLessThen := (lessThen + 1<<p - 1) >> p << p
+	t := newLessThen - lessThen
 
 	trueLit := result.NewAuxVar(f.AuxPBC).AsLiteral()
 	result.AddClause(trueLit)
@@ -110,7 +110,7 @@ func binaryMerge(
 	}
 	carries := make([]f.Literal, 0, 4)
 	for i := range buckets {
-		k := int(math.Ceil(float64(newLessThen) / math.Pow(2, float64(i))))
+		k := (newLessThen + 1<<i - 1) >> i
 		if config.BinaryMergeUseWatchDog {
 			totalizer(result, &buckets[i], &bucketCard[i])
 		} else {
-- 
2.43.0

