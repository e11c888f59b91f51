package harness

import (
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/parser"
	"pgregory.net/rapid"
)

var parseNames = []Names{
	namePools[0], namePools[1], namePools[3],
	{"12", "3", "x", "007", "4a", "_1", "@RESERVED_CC_0", "#a", "a#", "x_#1", "0"},
}

// printable replaces compositions whose constructors keep their operands as
// they are (Clause/Minterm with duplicates), which are documented not to behave.
func noDupRoute(n *N) {
	if ls, ok := n.allLits(); ok && n.Route == 2 {
		seen := map[int]bool{}
		for _, l := range ls {
			if seen[l.V] {
				n.Route = 0
			}
			seen[l.V] = true
		}
	}
	for _, k := range n.Kids {
		noDupRoute(k)
	}
}

var _ = registerProp("P01", "random formulas (all operators, constants, CC/PBC, names incl. digits, '_', '#', '@') printed and re-parsed, and generated texts with random redundant parentheses and white space, and on formulas over tens of variables (oracle: sampled assignments and models); non-trivial: at least 3 operators/atoms",
	sub("wide", 1200, 2, 15, p01Wide),
	sub("print-parse", 15000, 4, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 10)
		names := parseNames[rapid.IntRange(0, len(parseNames)-1).Draw(t, "names")]
		e := mkEnv(names, nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 0)
		n := fullGen(t, nv).draw(t, "f")
		noDupRoute(n)
		c.Case(t, n.size() >= 3, "%s %s", e.Mode, e.nstr(n))
		x := e.build(n)
		s := e.str(x)
		y, err := parser.New(e.Fac).Parse(s)
		if err != nil || y != x {
			t.Fatalf("parse(print(f)) on the same factory: %q gives %v, %v", s, e.str(y), err)
		}
		e2 := mkEnv(names, nv, rapid.Bool().Draw(t, "conserve2"))
		z, err := parser.New(e2.Fac).Parse(s)
		if err != nil {
			t.Fatalf("parse(print(f)) on a fresh factory: %q gives %v", s, err)
		}
		e2.equals(t, "parse of "+s, z, n.TT(nv))
		if e2.Mode == e.Mode && e2.str(z) != s {
			t.Fatalf("re-parsed formula prints as %q instead of %q", e2.str(z), s)
		}
		c.ClassIf(n.has(OpPBC), "with constraint")
	}),
	sub("text", 15000, 4, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 9)
		names := parseNames[rapid.IntRange(0, len(parseNames)-1).Draw(t, "names")]
		e := mkEnv(names, nv, rapid.IntRange(0, 3).Draw(t, "conserve") == 0)
		n := fullGen(t, nv).draw(t, "f")
		x := &texter{t, names}
		s := x.ws() + x.render(n, pEquiv) + x.ws()
		c.Case(t, n.size() >= 3, "%q", s)
		y, err := parser.New(e.Fac).Parse(s)
		if err != nil {
			t.Fatalf("valid text %q rejected: %v", s, err)
		}
		e.equals(t, "parse of "+s, y, n.TT(nv))
	}),
	sub("symbols", 5000, 1, 10, func(t *rapid.T, c *Ctx) {
		// custom print symbols are used consistently: translating them back gives the default form
		nv := 4
		e := newEnv(t, nv)
		n := fullGen(t, nv).draw(t, "f")
		x := e.build(n)
		def := e.str(x)
		c.Case(t, n.size() >= 3, "%s", def)
		sy := &f.PrintSymbols{Verum: "«T»", Falsum: "«F»", Not: "«n»", Implication: "«i»", Equivalence: "«e»", And: "«a»", Or: "«o»",
			LeftBracket: "«l»", RightBracket: "«r»", Plus: "«p»", Minus: "«m»", Multiplication: "«u»", Equal: "«q»", Less: "«s»", LessOrEqual: "«t»", Greater: "«g»", GreaterOrEqual: "«h»"}
		old := e.Fac.Symbols()
		e.Fac.SetPrintSymbols(sy)
		got := e.str(x)
		e.Fac.SetPrintSymbols(old)
		back := strings.NewReplacer("«T»", "$true", "«F»", "$false", "«n»", "~", "«i»", " => ", "«e»", " <=> ", "«a»", " & ", "«o»", " | ",
			"«l»", "(", "«r»", ")", "«p»", " + ", "«m»", "-", "«u»", "*", "«q»", " = ", "«s»", " < ", "«t»", " <= ", "«g»", " > ", "«h»", " >= ").Replace(got)
		if back != def {
			t.Fatalf("with custom symbols %q, expected the structure of %q", got, def)
		}
	}),
)

var tokenPool = []string{"a", "b", "~a", "~", "&", "|", "=>", "<=>", "(", ")", "$true", "$false", "+", "*", "=", "<=", "<", ">=", ">", "1", "-2", "3", "12a", " ", "\n",
	"!", ".", "-", "$", "$tru", "$truex", "~~", "=<", "a.b", "é", "99999999999999999999", "\x00", "@", "#", ","}

func genJunk(t *rapid.T) string {
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		// token soup
		k := rapid.IntRange(0, 12).Draw(t, "len")
		var sb strings.Builder
		for i := 0; i < k; i++ {
			sb.WriteString(tokenPool[rapid.IntRange(0, len(tokenPool)-1).Draw(t, "tok")])
			if rapid.Bool().Draw(t, "sp") {
				sb.WriteByte(' ')
			}
		}
		return sb.String()
	case 1:
		return rapid.String().Draw(t, "str")
	default:
		// mutate a valid text
		n := Gen{NV: 3, Depth: 3, Consts: true, CC: true, PBC: true}.draw(t, "f")
		x := &texter{t, namePools[0]}
		s := x.render(n, pEquiv)
		toks, _ := lexText(s)
		var parts []string
		for _, y := range toks {
			parts = append(parts, y.s)
		}
		for m := rapid.IntRange(1, 3).Draw(t, "mut"); m > 0 && len(parts) > 0; m-- {
			i := rapid.IntRange(0, len(parts)-1).Draw(t, "at")
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 0:
				parts = append(parts[:i], parts[i+1:]...)
			case 1:
				parts = append(parts[:i], append([]string{tokenPool[rapid.IntRange(0, len(tokenPool)-1).Draw(t, "tok")]}, parts[i:]...)...)
			case 2:
				parts[i] = tokenPool[rapid.IntRange(0, len(tokenPool)-1).Draw(t, "tok")]
			case 3:
				j := rapid.IntRange(0, len(parts)-1).Draw(t, "swap")
				parts[i], parts[j] = parts[j], parts[i]
			}
		}
		return strings.Join(parts, []string{" ", "", "  "}[rapid.IntRange(0, 2).Draw(t, "sep")])
	}
}

var _ = registerProp("P02", "sequences of 1-4 texts (token soup, mutated valid texts, arbitrary unicode strings, valid texts) on one parser, compared with an independent lexer/recogniser/evaluator of the documented grammar; non-trivial: text with at least 3 tokens",
	sub("junk", 15000, 8, 10, func(t *rapid.T, c *Ctx) {
		fac := f.NewFactory()
		p := parser.New(fac)
		var texts []string
		for i := rapid.IntRange(1, 4).Draw(t, "count"); i > 0; i-- {
			texts = append(texts, genJunk(t))
		}
		toks := 0
		for _, s := range texts {
			l, _ := lexText(s)
			toks = max(toks, len(l))
		}
		c.Case(t, toks >= 3, "%q", texts)
		for _, s := range texts {
			x, err := p.Parse(s)
			n, names, ok := refParse(s)
			if strings.TrimSpace(s) == "" {
				ok, n = true, &N{Op: OpTrue}
			}
			c.ClassIf(ok, "valid text")
			c.ClassIf(!ok, "invalid text")
			if !ok && err == nil {
				// known finding: input after the end of a formula is ignored
				pn, pnames, rest, pok := refParsePrefix(s)
				if rest && pok && len(pnames) <= 8 && newReader(fac, pnames, len(pnames)).TT(x).Equal(pn.TT(len(pnames))) {
					c.Exclude("trailing input ignored")
					continue
				}
			}
			if ok != (err == nil) {
				t.Fatalf("text %q: in the grammar: %v, parser error: %v", s, ok, err)
			}
			if ok && len(names) <= 8 {
				r := newReader(fac, names, len(names))
				if got := r.TT(x); !got.Equal(n.TT(len(names))) {
					t.Fatalf("text %q parsed as %s", s, x.Sprint(fac))
				}
			}
			// the factory still works
			y, err := p.Parse("a & ~b | c => a")
			if err != nil || y != fac.Implication(fac.Or(fac.And(fac.Variable("a"), fac.Literal("b", false)), fac.Variable("c")), fac.Variable("a")) {
				t.Fatalf("parser unusable after %q: %v", s, err)
			}
		}
	}),
)
