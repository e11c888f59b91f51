package harness

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/booleworks/logicng-go/configuration"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/randomizer"
	"pgregory.net/rapid"
)

var _ = registerProp("U01",
	"distinct configurations and call sequences which generated at least one formula with an operator or constraint",
	sub("sequence", 3000, 4, 30, u01Sequence))

func genWeight(t *rapid.T, name string, ws ...float64) float64 {
	return rapid.SampledFrom(ws).Draw(t, name)
}

// genRandConfig draws a configuration within the domain in which the
// generator can meet its promises (something to draw in every category).
func genRandConfig(t *rapid.T) *randomizer.Config {
	c := &randomizer.Config{
		Seed:    int64(rapid.IntRange(-1000, 1000).Draw(t, "seed")),
		NumVars: rapid.SampledFrom([]int{5, 4, 3, 9, 10, 11, 25, 101}).Draw(t, "numVars"),

		WeightConstant: genWeight(t, "const", 0, 0.1, 1),
		WeightPosLit:   genWeight(t, "pos", 1, 0.3, 4, 0),
		WeightNegLit:   genWeight(t, "neg", 1, 0, 0.3, 4),
		WeightOr:       genWeight(t, "or", 5, 30, 0),
		WeightAnd:      genWeight(t, "and", 5, 30, 0),
		WeightNot:      genWeight(t, "notw", 1, 0, 3),
		WeightImpl:     genWeight(t, "impl", 1, 0, 4),
		WeightEquiv:    genWeight(t, "equiv", 1, 0, 4),
		MaximumOpsAnd:  rapid.IntRange(3, 7).Draw(t, "opsAnd"),
		MaximumOpsOr:   rapid.IntRange(3, 7).Draw(t, "opsOr"),

		WeightPBC:         genWeight(t, "pbc", 0, 0.3, 2),
		WeightPBCCoeffPos: genWeight(t, "coeffPos", 1, 0.2, 0),
		WeightPBCCoeffNeg: genWeight(t, "coeffNeg", 0.2, 0, 1),
		WeightPBCLE:       genWeight(t, "le", 0.2, 0, 1),
		WeightPBCLT:       genWeight(t, "lt", 0.2, 0, 1),
		WeightPBCGE:       genWeight(t, "ge", 0.2, 0, 1),
		WeightPBCGT:       genWeight(t, "gt", 0.2, 0, 1),
		WeightPBCEQ:       genWeight(t, "eq", 0.2, 0, 1),
		MaximumOpsPBC:     rapid.IntRange(2, 6).Draw(t, "opsPBC"),
		MaximumCoeffPBC:   rapid.IntRange(1, 10).Draw(t, "coeffPBC"),

		WeightCC:     genWeight(t, "cc", 0, 0.3, 2),
		WeightAMO:    genWeight(t, "amo", 0, 0.3, 2),
		WeightEXO:    genWeight(t, "exo", 0, 0.3, 2),
		MaximumOpsCC: rapid.IntRange(2, 6).Draw(t, "opsCC"),
	}
	if rapid.IntRange(0, 5).Draw(t, "many operands") == 0 {
		c.MaximumOpsAnd = rapid.IntRange(3, 24).Draw(t, "opsAnd+")
		c.MaximumOpsOr = rapid.IntRange(3, 24).Draw(t, "opsOr+")
		c.MaximumOpsPBC = rapid.IntRange(2, 40).Draw(t, "opsPBC+")
		c.MaximumOpsCC = rapid.IntRange(2, 40).Draw(t, "opsCC+")
	}
	if c.WeightPosLit+c.WeightNegLit == 0 {
		c.WeightPosLit = 1
	}
	if c.WeightOr+c.WeightAnd == 0 {
		c.WeightOr = 5
	}
	if c.WeightPBCCoeffPos+c.WeightPBCCoeffNeg == 0 {
		c.WeightPBCCoeffPos = 1
	}
	if c.WeightPBCLE+c.WeightPBCLT+c.WeightPBCGE+c.WeightPBCGT+c.WeightPBCEQ == 0 {
		c.WeightPBCGE = 1
	}
	return c
}

type randCall struct {
	kind  string
	depth int
	n     int
}

func u01Calls(r *randomizer.FormulaRandomizer, c randCall) []f.Formula {
	one := func(x f.Formula) []f.Formula { return []f.Formula{x} }
	switch c.kind {
	case "constant":
		return one(r.Constant())
	case "variable":
		return one(r.Variable().AsFormula())
	case "literal":
		return one(r.Literal().AsFormula())
	case "atom":
		return one(r.Atom())
	case "not":
		return one(r.Not(c.depth))
	case "impl":
		return one(r.Impl(c.depth))
	case "equiv":
		return one(r.Equiv(c.depth))
	case "and":
		return one(r.And(c.depth))
	case "or":
		return one(r.Or(c.depth))
	case "cc":
		return one(r.CC())
	case "amo":
		return one(r.AMO())
	case "exo":
		return one(r.EXO())
	case "pbc":
		return one(r.PBC())
	case "set":
		return r.ConstraintSet(c.n, c.depth)
	}
	return one(r.Formula(c.depth))
}

func ownDepth(fac f.Factory, x f.Formula) int {
	d := 0
	for _, o := range fac.Operands(x) {
		d = max(d, 1+ownDepth(fac, o))
	}
	return d
}

// walkAll visits every sub-formula occurrence.
func walkAll(fac f.Factory, x f.Formula, visit func(f.Formula)) {
	visit(x)
	for _, o := range fac.Operands(x) {
		walkAll(fac, o, visit)
	}
}

var randKinds = []string{"formula", "formula", "set", "atom", "not", "impl", "equiv", "and", "or", "cc", "amo", "exo", "pbc", "literal", "variable", "constant"}

func u01Sequence(t *rapid.T, c *Ctx) {
	cfg := genRandConfig(t)
	route := rapid.SampledFrom([]string{"config", "factory", "default seed", "vars"}).Draw(t, "route")
	names := genNames(t)
	nv := rapid.IntRange(3, 6).Draw(t, "nv")
	cons := rapid.IntRange(0, 3).Draw(t, "conserve") == 0
	var calls []randCall
	hist := ""
	for i := rapid.IntRange(1, 10).Draw(t, "calls"); i > 0; i-- {
		k := randCall{rapid.SampledFrom(randKinds).Draw(t, "kind"), rapid.SampledFrom([]int{1, 2, 0, 3}).Draw(t, "depth"), 0}
		if k.kind == "set" {
			k.n = rapid.SampledFrom([]int{3, 0, 1, 2, 7, 12}).Draw(t, "n")
		}
		if k.depth == 3 && max(cfg.MaximumOpsAnd, cfg.MaximumOpsOr) > 7 {
			k.depth = 2
		}
		calls = append(calls, k)
		hist += fmt.Sprintf(" %s/%d", k.kind, k.depth)
	}
	if route == "default seed" {
		seed := cfg.Seed
		cfg = randomizer.DefaultConfig()
		cfg.Seed = seed
	}
	make1 := func(e *Env) (*randomizer.FormulaRandomizer, map[string]bool) {
		own := map[string]bool{}
		k := *cfg
		if route == "vars" {
			k.Variables = e.allVars()
			for _, n := range e.Names[:nv] {
				own[n] = true
			}
		} else {
			digits := int(math.Ceil(math.Log10(float64(k.NumVars))))
			for i := 0; i < k.NumVars; i++ {
				own[fmt.Sprintf("v%0*d", digits, i)] = true
			}
		}
		before := fmt.Sprintf("%+v", k)
		var r *randomizer.FormulaRandomizer
		switch route {
		case "factory":
			if err := e.Fac.PutConfiguration(&k); err != nil {
				t.Fatalf("PutConfiguration: %v", err)
			}
			if got, ok := e.Fac.ConfigurationFor(configuration.FormulaRandomizer); !ok || !reflect.DeepEqual(got, &k) {
				t.Fatalf("ConfigurationFor does not return the stored configuration")
			}
			r = randomizer.New(e.Fac)
		case "default seed":
			r = randomizer.NewWithSeed(e.Fac, k.Seed)
		default:
			r = randomizer.New(e.Fac, &k)
		}
		if after := fmt.Sprintf("%+v", k); after != before {
			t.Fatalf("configuration changed from %s to %s", before, after)
		}
		return r, own
	}
	e1, e2 := mkEnv(names, nv, cons), mkEnv(names, nv, cons)
	r1, own := make1(e1)
	r2, _ := make1(e2)
	rs, _ := make1(e1) // on the same factory, interleaved with the first
	other := randomizer.NewWithSeed(e1.Fac, cfg.Seed+1)
	var all, shared []f.Formula
	var strs []string
	nontrivial := false
	desc := fmt.Sprintf("%s %s %+v:%s", e1.Mode, route, *cfg, hist)
	c.Doing(desc)
	lag := rapid.IntRange(0, 3).Draw(t, "lag")
	for i, k := range calls {
		out := u01Calls(r1, k)
		out2 := u01Calls(r2, k)
		_ = other.Literal() // an unrelated generator must not interfere
		if len(out) != len(out2) || k.kind == "set" && len(out) != k.n {
			t.Fatalf("call %d %v: %d and %d formulas", i, k, len(out), len(out2))
		}
		for j := range out {
			s1, s2 := e1.str(out[j]), e2.str(out2[j])
			if s1 != s2 {
				t.Fatalf("call %d %v: equal randomizers differ:\n%s\n%s", i, k, s1, s2)
			}
			strs = append(strs, s1)
			u01Check(t, c, e1, cfg, k, out[j], own)
			if len(e1.Fac.Operands(out[j])) > 0 || out[j].Sort() == f.SortCC || out[j].Sort() == f.SortPBC {
				nontrivial = true
			}
		}
		all = append(all, out...)
		if i >= lag {
			shared = append(shared, u01Calls(rs, calls[i-lag])...)
		}
	}
	for i := max(0, len(calls)-lag); i < len(calls); i++ {
		shared = append(shared, u01Calls(rs, calls[i])...)
	}
	c.Case(t, nontrivial, "%s = %s", desc, strings.Join(strs, " ; "))
	c.Class("route " + route)
	c.Class("mode " + e1.Mode)
	for i := range all {
		if e1.str(all[i]) != e1.str(shared[i]) {
			t.Fatalf("formula %d differs for an equal randomizer on the same factory:\n%s\n%s", i, e1.str(all[i]), e1.str(shared[i]))
		}
	}
}

func u01Check(t *rapid.T, c *Ctx, e *Env, cfg *randomizer.Config, k randCall, x f.Formula, own map[string]bool) {
	fac := e.Fac
	c.Class("sort " + x.Sort().String())
	for _, v := range f.Variables(fac, x).Content() {
		if name, _ := fac.VarName(v); !own[name] {
			t.Fatalf("%v: %s has foreign variable %s", k, e.str(x), name)
		}
	}
	limit := k.depth
	switch k.kind {
	case "constant", "variable", "literal", "atom", "cc", "amo", "exo", "pbc":
		limit = 0
	}
	if d := ownDepth(fac, x); d > limit {
		t.Fatalf("%v: %s has depth %d > %d", k, e.str(x), d, limit)
	}
	s := x.Sort()
	switch k.kind {
	case "constant":
		if !isConst(x) {
			t.Fatalf("Constant() = %s", e.str(x))
		}
	case "variable", "literal":
		if s != f.SortLiteral || k.kind == "variable" && x.IsNeg() {
			t.Fatalf("%v = %s", k, e.str(x))
		}
		if k.kind == "literal" && (cfg.WeightNegLit == 0 && x.IsNeg() || cfg.WeightPosLit == 0 && x.IsPos()) {
			t.Fatalf("Literal() = %s although its phase has weight zero", e.str(x))
		}
	case "cc", "pbc":
		if isConst(x) {
			t.Fatalf("%v is a constant", k)
		}
	}
	if k.depth > 0 {
		want := map[string]f.FSort{"impl": f.SortImpl, "equiv": f.SortEquiv, "and": f.SortAnd, "or": f.SortOr}
		if w, ok := want[k.kind]; ok && s != w {
			t.Fatalf("%v = %s", k, e.str(x))
		}
		if k.kind == "not" && k.depth >= 2 && s != f.SortNot {
			t.Fatalf("%v = %s", k, e.str(x))
		}
	}
	if limit == 1 {
		n := len(fac.Operands(x))
		if s == f.SortAnd && n > cfg.MaximumOpsAnd || s == f.SortOr && n > cfg.MaximumOpsOr {
			t.Fatalf("%v: %s has %d operands", k, e.str(x), n)
		}
	}
	amo := cfg.WeightAMO > 0 || k.kind == "amo"
	exo := cfg.WeightEXO > 0 || k.kind == "exo"
	cc := cfg.WeightCC > 0 || k.kind == "cc"
	pbc := cfg.WeightPBC > 0 || k.kind == "pbc"
	top := true
	walkAll(fac, x, func(y f.Formula) {
		bad := ""
		switch y.Sort() {
		case f.SortTrue, f.SortFalse:
			if cfg.WeightConstant == 0 && k.kind != "constant" && !amo && !exo {
				bad = "constant"
			}
		case f.SortNot:
			if cfg.WeightNot == 0 && !(top && k.kind == "not") {
				bad = "negation"
			}
		case f.SortImpl:
			if cfg.WeightImpl == 0 && !(top && k.kind == "impl") {
				bad = "implication"
			}
		case f.SortEquiv:
			if cfg.WeightEquiv == 0 && !(top && k.kind == "equiv") {
				bad = "equivalence"
			}
		case f.SortAnd:
			if cfg.WeightAnd == 0 && !(top && k.kind == "and") {
				bad = "conjunction"
			}
		case f.SortOr:
			if cfg.WeightOr == 0 && !(top && k.kind == "or") {
				bad = "disjunction"
			}
		case f.SortPBC:
			if !pbc {
				bad = "pbc"
			}
		case f.SortCC:
			if !cc && !pbc && !amo && !exo {
				bad = "cc"
			}
		}
		top = false
		if bad != "" {
			t.Fatalf("%v: %s contains a %s of weight zero", k, e.str(x), bad)
		}
		if y.Sort() != f.SortCC && y.Sort() != f.SortPBC {
			return
		}
		cmp, rhs, lits, coeffs, _ := fac.PBCOps(y)
		maxOps := 0
		if cc || amo || exo {
			maxOps = cfg.MaximumOpsCC
		}
		if pbc {
			maxOps = max(maxOps, cfg.MaximumOpsPBC)
		}
		if y.Sort() == f.SortPBC {
			maxOps = cfg.MaximumOpsPBC
		}
		if len(lits) > maxOps {
			t.Fatalf("%v: %s has %d literals", k, e.str(y), len(lits))
		}
		if y.Sort() == f.SortPBC {
			for _, q := range coeffs {
				if q > cfg.MaximumCoeffPBC || -q > cfg.MaximumCoeffPBC || q == 0 ||
					q > 0 && cfg.WeightPBCCoeffPos == 0 || q < 0 && cfg.WeightPBCCoeffNeg == 0 {
					t.Fatalf("%v: %s has coefficient %d", k, e.str(y), q)
				}
			}
		}
		w := map[f.CSort]float64{f.LE: cfg.WeightPBCLE, f.LT: cfg.WeightPBCLT, f.GE: cfg.WeightPBCGE, f.GT: cfg.WeightPBCGT, f.EQ: cfg.WeightPBCEQ}
		ok := w[cmp] > 0 || amo && cmp == f.LE && rhs == 1 || exo && cmp == f.EQ && rhs == 1
		if y.Sort() == f.SortPBC {
			ok = w[cmp] > 0
		}
		if !ok {
			t.Fatalf("%v: %s has a comparator of weight zero", k, e.str(y))
		}
	})
}
