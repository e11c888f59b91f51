package harness

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/io"
	"pgregory.net/rapid"
)

func scratch(t *rapid.T) (string, func()) {
	d, err := os.MkdirTemp("", "verif-io-")
	if err != nil {
		panic(err)
	}
	return d, func() { _ = os.RemoveAll(d) }
}

// failWriter accepts limit bytes and fails on every write beyond resp. (once)
// on the first write beyond only.
type failWriter struct {
	limit  int
	once   bool
	failed bool
	buf    bytes.Buffer
}

func (w *failWriter) Write(b []byte) (int, error) {
	room := w.limit - w.buf.Len()
	if len(b) <= room || w.once && w.failed {
		return w.buf.Write(b)
	}
	w.buf.Write(b[:room])
	w.failed = true
	return room, errors.New("no space left")
}

// nCNF draws a CNF as lists of literals.
func nCNF(t *rapid.T, nv, maxClauses int) [][]L {
	var cls [][]L
	for i := rapid.IntRange(0, maxClauses).Draw(t, "clauses"); i > 0; i-- {
		var cl []L
		for k := rapid.IntRange(0, 4).Draw(t, "len"); k > 0; k-- {
			cl = append(cl, L{rapid.IntRange(0, nv-1).Draw(t, "v"), rapid.Bool().Draw(t, "pos")})
		}
		cls = append(cls, cl)
	}
	return cls
}

func nOfCNF(cls [][]L) *N {
	n := &N{Op: OpAnd}
	for _, cl := range cls {
		c := &N{Op: OpOr}
		for _, l := range cl {
			c.Kids = append(c.Kids, nLit(l.V, l.Pos))
		}
		n.Kids = append(n.Kids, c)
	}
	return n
}

// parseDimacs is an independent strict reader of DIMACS text.
func parseDimacs(text string) (nv int, cls [][]int, err error) {
	nc := -1
	for _, line := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		fs := strings.Fields(line)
		if len(fs) == 0 || fs[0] == "c" {
			continue
		}
		if fs[0] == "p" {
			if nc >= 0 || len(fs) != 4 || fs[1] != "cnf" {
				return 0, nil, fmt.Errorf("bad header %q", line)
			}
			if nv, err = strconv.Atoi(fs[2]); err != nil {
				return
			}
			if nc, err = strconv.Atoi(fs[3]); err != nil {
				return
			}
			continue
		}
		if nc < 0 {
			return 0, nil, fmt.Errorf("clause before header")
		}
		var cl []int
		for i, s := range fs {
			k, err := strconv.Atoi(s)
			if err != nil {
				return 0, nil, err
			}
			if k == 0 {
				if i != len(fs)-1 {
					return 0, nil, fmt.Errorf("0 inside %q", line)
				}
				break
			}
			if i == len(fs)-1 {
				return 0, nil, fmt.Errorf("line %q not terminated", line)
			}
			if k > nv || -k > nv {
				return 0, nil, fmt.Errorf("variable %d out of range", k)
			}
			cl = append(cl, k)
		}
		cls = append(cls, cl)
	}
	if nc != len(cls) {
		return 0, nil, fmt.Errorf("header announces %d clauses, file has %d", nc, len(cls))
	}
	return nv, cls, nil
}

func checkDimacsText(t *rapid.T, e *Env, x f.Formula, text string, m map[f.Variable]int) {
	nv, cls, err := parseDimacs(text)
	if err != nil {
		t.Fatalf("DIMACS of %s: %v\n%s", e.str(x), err, text)
	}
	back := map[int]f.Variable{}
	for v, id := range m {
		if _, dup := back[id]; dup || id < 1 || id > nv {
			t.Fatalf("mapping of %s: %v", e.str(x), m)
		}
		back[id] = v
	}
	vars := f.Variables(e.Fac, x).Content()
	if nv != len(vars) || len(m) != nv {
		t.Fatalf("%s has %d variables, header says %d, mapping %v", e.str(x), len(vars), nv, m)
	}
	for _, v := range vars {
		if _, ok := m[v]; !ok {
			t.Fatalf("variable missing in mapping of %s", e.str(x))
		}
	}
	// exactly the clauses of the formula
	r := newCNFReader(e.Fac, e.Names, e.NV)
	want, err := r.Clauses(x)
	if err != nil {
		t.Fatal(err)
	}
	key := func(c []int) string {
		c = slices.Clone(c)
		slices.Sort(c)
		return fmt.Sprint(slices.Compact(c))
	}
	var a, b []string
	for _, c := range want {
		a = append(a, key(c))
	}
	for _, c := range cls {
		var d []int
		for _, k := range c {
			v, ok := back[max(k, -k)]
			if !ok {
				t.Fatalf("literal %d has no variable", k)
			}
			l := 2 * e.varIdx(v)
			if k < 0 {
				l++
			}
			d = append(d, l)
		}
		b = append(b, key(d))
	}
	slices.Sort(a)
	slices.Sort(b)
	if !slices.Equal(a, b) {
		t.Fatalf("clauses of %s: %v, DIMACS has %v\n%s", e.str(x), a, b, text)
	}
}

// renderDimacs writes clauses as DIMACS text with random spacing.
func renderDimacs(t *rapid.T, nv int, cls [][]int) string {
	var sb strings.Builder
	sp := func() string { return pick(t, "sp", " ", "  ", "\t") }
	noise := func() {
		switch rapid.IntRange(0, 7).Draw(t, "noise") {
		case 6:
			sb.WriteString("c " + pick(t, "cm", "comment", "1 2 0", "p cnf 1 1") + "\n")
		case 7:
			sb.WriteString(pick(t, "blank", "\n", "  \n", "c\n"))
		}
	}
	noise()
	if rapid.IntRange(0, 9).Draw(t, "noheader") < 9 {
		fmt.Fprintf(&sb, "p cnf %d %d\n", nv, len(cls))
	}
	nl := pick(t, "nl", "\n", "\n", "\r\n")
	for i, c := range cls {
		noise()
		if rapid.IntRange(0, 5).Draw(t, "indent") == 5 {
			sb.WriteString(sp())
		}
		for _, k := range c {
			fmt.Fprintf(&sb, "%d%s", k, sp())
		}
		sb.WriteString("0")
		if rapid.IntRange(0, 5).Draw(t, "trail") == 5 {
			sb.WriteString(sp())
		}
		if i < len(cls)-1 || rapid.Bool().Draw(t, "lastnl") {
			sb.WriteString(nl)
		}
	}
	return sb.String()
}

var _ = registerProp("I01", "formulas written and read back (single, split conjunctions, same and fresh factory), CNFs written as DIMACS and re-read by an independent reader, generated DIMACS files with comments, blank lines, spacing, prefixes and very long lines, and on formulas over tens of variables (oracle: sampled assignments and models); non-trivial: at least 3 operators/atoms resp. 2 clauses",
	sub("wide", 600, 2, 15, i01Wide),
	sub("formulas", 1500, 4, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 10)
		e := newEnv(t, nv)
		n := fullGen(t, nv).draw(t, "f")
		n.noDups()
		split := rapid.Bool().Draw(t, "split")
		c.Case(t, n.size() >= 3, "split=%v %s", split, e.nstr(n))
		x := e.build(n)
		dir, done := scratch(t)
		defer done()
		fn := filepath.Join(dir, "f.txt")
		var err error
		if split || rapid.Bool().Draw(t, "explicit") {
			err = io.WriteFormula(e.Fac, fn, x, split)
		} else {
			err = io.WriteFormula(e.Fac, fn, x)
		}
		if err != nil {
			t.Fatal(err)
		}
		want := []f.Formula{x}
		if split && x.Sort() == f.SortAnd {
			want = e.Fac.Operands(x)
			c.Class("split conjunction")
		}
		b, err := os.ReadFile(fn)
		if err != nil {
			t.Fatal(err)
		}
		if got := strings.Count(string(b), "\n"); got != len(want) {
			t.Fatalf("%s: %d lines for %d formulas", e.str(x), got, len(want))
		}
		var buf bytes.Buffer
		if err := io.WriteFormulaToWriter(e.Fac, &buf, x, split); err != nil || buf.String() != string(b) {
			t.Fatalf("writer output %q differs from file %q (%v)", buf.String(), b, err)
		}
		e2 := e.fresh()
		for _, en := range []*Env{e, e2} {
			got, err := io.ReadFormulas(en.Fac, fn)
			if err != nil {
				t.Fatalf("reading %q: %v", b, err)
			}
			if len(got) != len(want) {
				t.Fatalf("%q: read %d formulas, expected %d", b, len(got), len(want))
			}
			one, err := io.ReadFormula(en.Fac, fn)
			if err != nil {
				t.Fatal(err)
			}
			en.equals(t, "formula read back", one, n.TT(nv))
			for i := range got {
				if en == e && got[i] != want[i] {
					t.Fatalf("line %d of %q read as %s, written %s", i, b, e.str(got[i]), e.str(want[i]))
				}
				if w := e.tt(t, want[i]); !en.tt(t, got[i]).Equal(w) {
					t.Fatalf("line %d of %q read as %s", i, b, en.str(got[i]))
				}
			}
			if en == e && one != x {
				t.Fatalf("%q read as %s, written %s", b, e.str(one), e.str(x))
			}
		}
	}),
	sub("dimacs-out", 2500, 4, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 6, 12)
		e := newEnv(t, nv)
		var n *N
		if rapid.IntRange(0, 3).Draw(t, "any") == 0 {
			n = fullGen(t, nv).draw(t, "f")
		} else {
			n = nOfCNF(nCNF(t, nv, 6))
			if rapid.Bool().Draw(t, "clauseRoute") {
				for _, k := range n.Kids {
					k.Route = 2
				}
			}
		}
		c.Case(t, n.size() >= 3, "%s", e.nstr(n))
		x := e.build(n)
		dir, done := scratch(t)
		defer done()
		name := filepath.Join(dir, pick(t, "name", "a", "b.cnf", "c.txt"))
		m, err := io.WriteDimacs(e.Fac, name, x)
		isCNF := isCNFShape(e.Fac, x)
		if isCNF != (err == nil) {
			t.Fatalf("%s is a CNF: %v, error %v", e.str(x), isCNF, err)
		}
		if !isCNF {
			c.Class("not in CNF: rejected")
			return
		}
		if !strings.HasSuffix(name, ".cnf") {
			name += ".cnf"
		}
		b, err := os.ReadFile(name)
		if err != nil {
			t.Fatal(err)
		}
		checkDimacsText(t, e, x, string(b), m)
		var buf bytes.Buffer
		m2, err := io.WriteDimacsToWriter(e.Fac, &buf, x)
		if err != nil {
			t.Fatal(err)
		}
		checkDimacsText(t, e, x, buf.String(), m2)
		// and back in
		fac := f.NewFactory()
		fs, err := io.ReadDimacs(fac, name, "q")
		if err != nil {
			t.Fatalf("own DIMACS %q not readable: %v", b, err)
		}
		inv := make([]int, nv+1)
		for v, id := range m {
			inv[id] = e.varIdx(v)
		}
		names := make(Names, nv)
		used := map[int]bool{}
		for id := 1; id <= len(m); id++ {
			names[inv[id]] = fmt.Sprintf("q%d", id)
			used[inv[id]] = true
		}
		for i := range names {
			if !used[i] {
				names[i] = fmt.Sprintf("unused%d", i)
			}
		}
		got := ttConst(nv, true)
		r := newReader(fac, names, nv)
		for _, y := range *fs {
			got = got.And(r.TT(y))
		}
		if !got.Equal(n.TT(nv)) {
			t.Fatalf("DIMACS round trip of %s", e.str(x))
		}
	}),
	sub("dimacs-in", 2500, 4, 10, func(t *rapid.T, c *Ctx) {
		nv := genNV(t, 1, 7, 12)
		lcls := nCNF(t, nv, 8)
		base := pick(t, "base", 1, 1, 9, 98)
		var cls [][]int
		for _, cl := range lcls {
			var ks []int
			for _, l := range cl {
				k := l.V + base
				if !l.Pos {
					k = -k
				}
				ks = append(ks, k)
			}
			cls = append(cls, ks)
		}
		text := renderDimacs(t, nv+base-1, cls)
		pfx := pick(t, "prefix", "", "v", "x", "var_", "@aux")
		c.Case(t, len(cls) >= 2, "prefix=%q %q", pfx, text)
		dir, done := scratch(t)
		defer done()
		fn := filepath.Join(dir, "in.cnf")
		if err := os.WriteFile(fn, []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
		fac := f.NewFactory()
		var fs *[]f.Formula
		var err error
		if pfx == "" {
			fs, err = io.ReadDimacs(fac, fn)
			pfx = "v"
		} else {
			fs, err = io.ReadDimacs(fac, fn, pfx)
		}
		if err != nil {
			t.Fatalf("well-formed DIMACS rejected: %v", err)
		}
		names := make(Names, nv)
		for i := range names {
			names[i] = pfx + strconv.Itoa(i+base)
		}
		r := newReader(fac, names, nv)
		// every line is one clause, in order; clauses may be condensed
		if len(*fs) != len(lcls) {
			t.Fatalf("%d clauses read, expected %d", len(*fs), len(lcls))
		}
		for i, y := range *fs {
			w := nOfCNF([][]L{lcls[i]}).TT(nv)
			if !r.TT(y).Equal(w) || !isClauseShape(fac, y) {
				t.Fatalf("clause %d read as %s", i, y.Sprint(fac))
			}
			vs := map[int]bool{}
			for _, l := range lcls[i] {
				vs[l.V] = true
			}
			if y.Sort() != f.SortTrue && f.Variables(fac, y).Size() != len(vs) {
				t.Fatalf("clause %d read as %s", i, y.Sprint(fac))
			}
		}
		if _, err := io.ReadDimacs(fac, filepath.Join(dir, "missing.cnf")); err == nil {
			t.Fatalf("missing file without error")
		}
		// a clause without terminating 0 is rejected
		bad := text
		if !strings.HasSuffix(bad, "\n") && bad != "" {
			bad += "\n"
		}
		if err := os.WriteFile(fn, []byte(bad+"1 2\n"), 0o644); err != nil {
			t.Fatal(err)
		}
		if _, err := io.ReadDimacs(fac, fn); err == nil {
			t.Fatalf("unterminated clause accepted")
		}
	}),
	sub("faults", 1500, 2, 10, func(t *rapid.T, c *Ctx) {
		// failing writers and files which cannot be read: always reported
		nv := genNV(t, 1, 6, 10)
		e := newEnv(t, nv)
		cnf := nOfCNF(nCNF(t, nv, 6))
		n := fullGen(t, nv).draw(t, "f")
		n.noDups()
		x, y := e.build(n), e.build(cnf)
		split := rapid.Bool().Draw(t, "split")
		c.Case(t, n.size() >= 3 || cnf.size() >= 3, "split=%v %s / %s", split, e.nstr(n), e.nstr(cnf))
		at := func(total int) int { return rapid.IntRange(0, total+2).Draw(t, "at") }
		var full bytes.Buffer
		if err := io.WriteFormulaToWriter(e.Fac, &full, x, split); err != nil {
			t.Fatal(err)
		}
		w := &failWriter{limit: at(full.Len()), once: rapid.Bool().Draw(t, "once")}
		fails := w.limit < full.Len()
		err := io.WriteFormulaToWriter(e.Fac, w, x, split)
		if fails != (err != nil) || !w.once && !strings.HasPrefix(full.String(), w.buf.String()) {
			t.Fatalf("formula written to a writer with room for %d of %d bytes: error %v", w.limit, full.Len(), err)
		}
		full.Reset()
		if _, err := io.WriteDimacsToWriter(e.Fac, &full, y); err != nil {
			if isCNFShape(e.Fac, y) {
				t.Fatal(err)
			}
		} else {
			w = &failWriter{limit: at(full.Len()), once: rapid.Bool().Draw(t, "once")}
			fails = w.limit < full.Len()
			_, err = io.WriteDimacsToWriter(e.Fac, w, y)
			if fails != (err != nil) || !w.once && !strings.HasPrefix(full.String(), w.buf.String()) {
				t.Fatalf("DIMACS written to a writer with room for %d of %d bytes: error %v", w.limit, full.Len(), err)
			}
			c.ClassIf(fails, "DIMACS writer fails")
		}
		dir, done := scratch(t)
		defer done()
		fn := filepath.Join(dir, "f")
		file, err := os.OpenFile(fn, os.O_WRONLY|os.O_CREATE, 0o644)
		if err != nil {
			panic(err)
		}
		if err := io.WriteFormulaToFile(e.Fac, file, x, split); err != nil {
			t.Fatal(err)
		}
		// the file is still open, for writing only
		if _, err := io.ReadFormulasFile(e.Fac, file); err == nil {
			t.Fatal("formulas read from a write-only file without an error")
		}
		if _, err := io.ReadFormulaFile(e.Fac, file); err == nil {
			t.Fatal("formula read from a write-only file without an error")
		}
		if _, err := io.ReadDimacsFile(e.Fac, file); err == nil {
			t.Fatal("DIMACS read from a write-only file without an error")
		}
		file.Close()
		if got, err := io.ReadFormula(e.Fac, fn); err != nil || got != x {
			t.Fatalf("%s written to an open file, read back %v (%v)", e.str(x), got, err)
		}
		if err := io.WriteFormulaToFile(e.Fac, file, x); err == nil {
			t.Fatal("formula written to a closed file without an error")
		}
		if isCNFShape(e.Fac, y) {
			if _, err := io.WriteDimacsToFile(e.Fac, file, y); err == nil {
				t.Fatal("DIMACS written to a closed file without an error")
			}
			file, _ = os.Create(fn)
			m, err := io.WriteDimacsToFile(e.Fac, file, y)
			file.Close()
			if err != nil {
				t.Fatal(err)
			}
			b, _ := os.ReadFile(fn)
			checkDimacsText(t, e, y, string(b), m)
		}
		// a directory can be opened but not read
		if _, err := io.ReadFormula(e.Fac, dir); err == nil {
			t.Fatal("directory read as formula")
		}
		if _, err := io.ReadFormulas(e.Fac, dir); err == nil {
			t.Fatal("directory read as formulas")
		}
		if _, err := io.ReadDimacs(e.Fac, dir); err == nil {
			t.Fatal("directory read as DIMACS")
		}
		if err := io.WriteFormula(e.Fac, dir, x); err == nil {
			t.Fatal("directory overwritten by a formula")
		}
		if _, err := io.ReadFormula(e.Fac, fn+"missing"); err == nil {
			t.Fatal("missing file read as formula")
		}
		if _, err := io.ReadFormulas(e.Fac, fn+"missing"); err == nil {
			t.Fatal("missing file read as formulas")
		}
	}),
	sub("long-lines", 4, 2, 5, func(t *rapid.T, c *Ctx) {
		k := rapid.IntRange(5000, 30000).Draw(t, "literals")
		c.Case(t, true, "clause of %d literals, name of %d characters", k, k*40)
		dir, done := scratch(t)
		defer done()
		fac := f.NewFactory()
		ls := make([]f.Formula, k)
		for i := range ls {
			ls[i] = fac.Literal(fmt.Sprintf("x%d", i), i%3 != 0)
		}
		x := fac.Or(ls...)
		fn := filepath.Join(dir, "long.cnf")
		m, err := io.WriteDimacs(fac, fn, x)
		if err != nil || len(m) != k {
			t.Fatalf("long clause: %v", err)
		}
		fs, err := io.ReadDimacs(fac, fn)
		if err != nil || len(*fs) != 1 || len(fac.Operands((*fs)[0])) != k {
			t.Fatalf("long clause not read back: %v", err)
		}
		name := strings.Repeat("longname", k*5)
		y := fac.And(fac.Variable(name), fac.Variable("b"))
		fn = filepath.Join(dir, "long.txt")
		if err := io.WriteFormula(fac, fn, y); err != nil {
			t.Fatal(err)
		}
		z, err := io.ReadFormula(fac, fn)
		if err != nil || z != y {
			t.Fatalf("formula with a name of %d characters not read back: %v", k*40, err)
		}
	}),
)
