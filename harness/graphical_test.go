package harness

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/bdd"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/graphical"
	"pgregory.net/rapid"
)

var _ = registerProp("V01",
	"distinct formulas, diagrams or graphs with at least one edge",
	sub("ast", 6000, 2, 30, func(t *rapid.T, c *Ctx) { v01Formula(t, c, true) }),
	sub("dag", 6000, 2, 30, func(t *rapid.T, c *Ctx) { v01Formula(t, c, false) }),
	sub("bdd", 4000, 2, 30, v01BDD),
	sub("constraint graph", 4000, 2, 30, v01Graph),
	sub("colors", 300, 1, 20, func(t *rapid.T, c *Ctx) {
		var v [3]int
		ok := true
		for i := range v {
			v[i] = rapid.OneOf(rapid.IntRange(0, 255), rapid.SampledFrom([]int{0, 15, 16, 255, 128}), rapid.IntRange(-300, 700)).Draw(t, "rgb")
			ok = ok && v[i] >= 0 && v[i] < 256
		}
		c.Case(t, ok, "%v", v)
		got, err := graphical.ColorFromRgb(v[0], v[1], v[2])
		const digits = "0123456789abcdef"
		want := "#"
		for i := range v {
			if ok {
				want += string(digits[v[i]>>4]) + string(digits[v[i]&15])
			}
		}
		if (err == nil) != ok || ok && string(got) != want {
			t.Fatalf("color of %v: %s, %v", v, got, err)
		}
	}))

// nodeSty and edgeSty are the harness's own view of a style.
type nodeSty struct {
	shape          graphical.Shape
	stroke, tx, bg graphical.Color
}

type edgeSty struct {
	typ   graphical.EdgeType
	color graphical.Color
}

func (s nodeSty) make() *graphical.NodeStyle {
	switch ctor := len(s.stroke) + len(s.tx); {
	case ctor > 7 && s.shape == graphical.ShapeCircle:
		return graphical.Circle(s.stroke, s.tx, s.bg)
	case ctor > 7 && s.shape == graphical.ShapeEllipse:
		return graphical.Ellipse(s.stroke, s.tx, s.bg)
	case ctor > 7 && s.shape == graphical.ShapeRectangle:
		return graphical.Rectangle(s.stroke, s.tx, s.bg)
	}
	return graphical.NewNodeStyle(s.shape, s.stroke, s.tx, s.bg)
}

func (s edgeSty) make() *graphical.EdgeStyle {
	if s.color != "" && s.color[1]%2 == 0 {
		switch s.typ {
		case graphical.EdgeSolid:
			return graphical.Solid(s.color)
		case graphical.EdgeDotted:
			return graphical.Dotted(s.color)
		case graphical.EdgeBold:
			return graphical.Bold(s.color)
		}
	}
	return graphical.NewEdgeStyle(s.typ, s.color)
}

func (s nodeSty) dot() string {
	r := ""
	switch s.shape {
	case graphical.ShapeRectangle:
		r += ", shape=box"
	case graphical.ShapeCircle:
		r += ", shape=circle"
	case graphical.ShapeEllipse:
		r += ", shape=ellipse"
	}
	if s.stroke != "" {
		r += `, color="` + string(s.stroke) + `"`
	}
	if s.tx != "" {
		r += `, fontcolor="` + string(s.tx) + `"`
	}
	if s.bg != "" {
		r += `, style=filled, fillcolor="` + string(s.bg) + `"`
	}
	return attrSet(r)
}

// attrSet sorts a comma-separated attribute list.
func attrSet(s string) string {
	var r []string
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func (s nodeSty) mermaid() string {
	sh := map[graphical.Shape]string{graphical.ShapeRectangle: "[ ]", graphical.ShapeCircle: "(( ))"}[s.shape]
	if sh == "" {
		sh = "([ ])"
	}
	r := ""
	if s.stroke != "" {
		r += ",stroke:" + string(s.stroke)
	}
	if s.tx != "" {
		r += ",color:" + string(s.tx)
	}
	if s.bg != "" {
		r += ",fill:" + string(s.bg)
	}
	return sh + attrSet(r)
}

func (s edgeSty) dot() string {
	r := ""
	if s.color != "" {
		r += fmt.Sprintf(`,color="%[1]s",fontcolor="%[1]s"`, s.color)
	}
	switch s.typ {
	case graphical.EdgeSolid:
		r += ",style=solid"
	case graphical.EdgeDotted:
		r += ",style=dotted"
	case graphical.EdgeBold:
		r += ",style=bold"
	}
	return attrSet(r)
}

func (s edgeSty) mermaid() string {
	r := ""
	if s.color != "" {
		r += ",stroke:" + string(s.color)
	}
	switch s.typ {
	case graphical.EdgeSolid:
		r += ",stroke-width:2"
	case graphical.EdgeDotted:
		r += ",stroke-width:2,stroke-dasharray:3"
	case graphical.EdgeBold:
		r += ",stroke-width:4"
	}
	return attrSet(r)
}

var colors = []graphical.Color{"", graphical.ColorRed, graphical.ColorBlue, "#123456"}

func genNodeSty(t *rapid.T) nodeSty {
	return nodeSty{
		[]graphical.Shape{graphical.ShapeDefault, graphical.ShapeRectangle, graphical.ShapeEllipse, graphical.ShapeCircle}[rapid.IntRange(0, 3).Draw(t, "shape")],
		colors[rapid.IntRange(0, 3).Draw(t, "stroke")], colors[rapid.IntRange(0, 3).Draw(t, "text")], colors[rapid.IntRange(0, 3).Draw(t, "bg")],
	}
}

func genEdgeSty(t *rapid.T) edgeSty {
	return edgeSty{[]graphical.EdgeType{graphical.EdgeDefault, graphical.EdgeSolid, graphical.EdgeDotted, graphical.EdgeBold}[rapid.IntRange(0, 3).Draw(t, "edgeType")], colors[rapid.IntRange(0, 3).Draw(t, "edgeColor")]}
}

// refGraph is the expected graph; edges carry indices of nodes.
type refGraph struct {
	directed bool
	nodes    []refNode
	edges    []refEdge
}

type refNode struct {
	label    string
	sty      nodeSty
	terminal bool
}

type refEdge struct {
	src, dst int
	label    string
	sty      edgeSty
}

// rawGraph is a graph as text attributes.
type rawGraph struct {
	directed bool
	labels   []string
	attrs    []string
	term     []bool // only with grouped terminals
	edges    []rawEdge
	bg       string
	grouped  bool
}

type rawEdge struct {
	src, dst    int
	label, attr string
}

var (
	dotNodeRe  = regexp.MustCompile(`^(\w+) \[label="([^"]*)"(.*)\]$`)
	dotEdgeRe  = regexp.MustCompile(`^(\w+) (->|--) (\w+)(?: \[(.*)\])?$`)
	dotLabelRe = regexp.MustCompile(`label="([^"]*)"`)
	mmNodeRe   = regexp.MustCompile(`^(\w+)(\(\[|\[|\(\()"([^"]*)"(\]\)|\]|\)\))$`)
	mmEdgeRe   = regexp.MustCompile(`^(\w+) (-->|---)(?:\|"([^"]*)"\|)? (\w+)$`)
	mmStyleRe  = regexp.MustCompile(`^style (\w+) (\S+)$`)
	mmLinkRe   = regexp.MustCompile(`^linkStyle (\d+) (\S+)$`)
)

func parseDot(t *rapid.T, s string) rawGraph {
	var g rawGraph
	ids := map[string]int{}
	lines := strings.Split(s, "\n")
	switch {
	case lines[0] == "digraph G {":
		g.directed = true
	case lines[0] != "strict graph {":
		t.Fatalf("bad DOT preamble in\n%s", s)
	}
	depth := 1
	for _, l := range lines[1:] {
		l = strings.TrimSpace(l)
		switch {
		case l == "":
		case depth == 0:
			t.Fatalf("text after the end of the DOT graph:\n%s", s)
		case strings.HasPrefix(l, "bgcolor="):
			g.bg = strings.Trim(l[8:], `"`)
		case l == "{ rank = same;":
			g.grouped = true
			depth++
		case l == "}":
			depth--
		default:
			if m := dotNodeRe.FindStringSubmatch(l); m != nil {
				if _, ok := ids[m[1]]; ok {
					t.Fatalf("node %s twice in\n%s", m[1], s)
				}
				ids[m[1]] = len(g.labels)
				g.labels = append(g.labels, m[2])
				g.attrs = append(g.attrs, attrSet(m[3]))
				g.term = append(g.term, depth == 2)
				continue
			}
			m := dotEdgeRe.FindStringSubmatch(l)
			if m == nil {
				t.Fatalf("bad DOT line %q in\n%s", l, s)
			}
			if (m[2] == "->") != g.directed {
				t.Fatalf("edge symbol %s in\n%s", m[2], s)
			}
			a, ok1 := ids[m[1]]
			b, ok2 := ids[m[3]]
			if !ok1 || !ok2 {
				t.Fatalf("edge %q between unknown nodes in\n%s", l, s)
			}
			label := ""
			if q := dotLabelRe.FindStringSubmatch(m[4]); q != nil {
				label = q[1]
			}
			g.edges = append(g.edges, rawEdge{a, b, label, attrSet(dotLabelRe.ReplaceAllString(m[4], ""))})
		}
	}
	if depth != 0 {
		t.Fatalf("unbalanced DOT text:\n%s", s)
	}
	return g
}

func parseMermaid(t *rapid.T, s string, directed bool) rawGraph {
	g := rawGraph{directed: directed}
	ids := map[string]int{}
	lines := strings.Split(s, "\n")
	if lines[0] != "graph TD" {
		t.Fatalf("bad Mermaid preamble in\n%s", s)
	}
	for _, l := range lines[1:] {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if m := mmStyleRe.FindStringSubmatch(l); m != nil {
			i, ok := ids[m[1]]
			if !ok {
				t.Fatalf("style for unknown node %s in\n%s", m[1], s)
			}
			g.attrs[i] += attrSet(m[2])
		} else if m := mmLinkRe.FindStringSubmatch(l); m != nil {
			i := atoi(m[1])
			if i >= len(g.edges) {
				t.Fatalf("style for unknown edge %d in\n%s", i, s)
			}
			g.edges[i].attr += attrSet(m[2])
		} else if m := mmNodeRe.FindStringSubmatch(l); m != nil {
			if _, ok := ids[m[1]]; ok {
				t.Fatalf("node %s twice in\n%s", m[1], s)
			}
			ids[m[1]] = len(g.labels)
			g.labels = append(g.labels, m[3])
			g.attrs = append(g.attrs, m[2]+" "+m[4])
		} else if m := mmEdgeRe.FindStringSubmatch(l); m != nil {
			a, ok1 := ids[m[1]]
			b, ok2 := ids[m[4]]
			if !ok1 || !ok2 || (m[2] == "-->") != directed {
				t.Fatalf("bad edge %q in\n%s", l, s)
			}
			g.edges = append(g.edges, rawEdge{a, b, m[3], ""})
		} else {
			t.Fatalf("bad Mermaid line %q in\n%s", l, s)
		}
	}
	return g
}

func (r *refGraph) raw(dot bool) rawGraph {
	g := rawGraph{directed: r.directed}
	for _, n := range r.nodes {
		g.labels = append(g.labels, n.label)
		g.term = append(g.term, n.terminal)
		if dot {
			g.attrs = append(g.attrs, n.sty.dot())
		} else {
			g.attrs = append(g.attrs, n.sty.mermaid())
		}
	}
	for _, e := range r.edges {
		a := e.sty.mermaid()
		if dot {
			a = e.sty.dot()
		}
		g.edges = append(g.edges, rawEdge{e.src, e.dst, e.label, a})
	}
	return g
}

// canon describes the graph up to the choice of node identifiers and the order
// of nodes and edges: nodes get the canonical form of what they lead to
// (directed, acyclic) or are identified by their unique label (undirected).
func (g *rawGraph) canon(grouped bool) []string {
	out := make([][]rawEdge, len(g.labels))
	for _, e := range g.edges {
		out[e.src] = append(out[e.src], e)
	}
	head := make([]string, len(g.labels))
	for i := range g.labels {
		head[i] = g.labels[i] + "{" + g.attrs[i] + "}"
		if grouped && g.term[i] {
			head[i] += "T"
		}
	}
	var r []string
	if !g.directed {
		r = append(r, head...)
		for _, e := range g.edges {
			a, b := g.labels[e.src], g.labels[e.dst]
			if a > b {
				a, b = b, a
			}
			r = append(r, a+" -- "+b+" "+e.label+"{"+e.attr+"}")
		}
		sort.Strings(r)
		return r
	}
	// unfolded forms, so that both sides are comparable
	full := make([]string, len(head))
	var unfold func(i int) string
	unfold = func(i int) string {
		if full[i] != "" {
			return full[i]
		}
		var ks []string
		for _, e := range out[i] {
			ks = append(ks, e.label+"{"+e.attr+"}"+unfold(e.dst))
		}
		sort.Strings(ks)
		full[i] = head[i] + "(" + strings.Join(ks, ";") + ")"
		return full[i]
	}
	for i := range head {
		r = append(r, unfold(i))
	}
	sort.Strings(r)
	return r
}

func (g *rawGraph) acyclic() bool {
	state := make([]int, len(g.labels))
	var rec func(i int) bool
	rec = func(i int) bool {
		if state[i] == 1 {
			return false
		}
		if state[i] == 2 {
			return true
		}
		state[i] = 1
		for _, e := range g.edges {
			if e.src == i && !rec(e.dst) {
				return false
			}
		}
		state[i] = 2
		return true
	}
	for i := range state {
		if !rec(i) {
			return false
		}
	}
	return true
}

func checkRepresentation(t *rapid.T, c *Ctx, rep *graphical.Representation, want *refGraph, align bool, bg graphical.Color) {
	dot, mm := graphical.WriteDotToString(rep), graphical.WriteMermaidToString(rep)
	if len(rep.Nodes()) != len(want.nodes) {
		t.Fatalf("%d nodes instead of %d:\n%s", len(rep.Nodes()), len(want.nodes), dot)
	}
	nt := 0
	for _, n := range want.nodes {
		if n.terminal {
			nt++
		}
	}
	if len(rep.TerminalNodes()) != nt || len(rep.NonTerminalNodes()) != len(want.nodes)-nt {
		t.Fatalf("%d terminal and %d other nodes instead of %d and %d", len(rep.TerminalNodes()), len(rep.NonTerminalNodes()), nt, len(want.nodes)-nt)
	}
	for _, fmt := range []string{"DOT", "Mermaid"} {
		var got rawGraph
		text := dot
		exp := want.raw(fmt == "DOT")
		if fmt == "DOT" {
			got = parseDot(t, dot)
			if got.bg != string(bg) || got.grouped != align {
				t.Fatalf("background %q, aligned terminals %v in\n%s", got.bg, got.grouped, dot)
			}
		} else {
			text = mm
			got = parseMermaid(t, mm, want.directed)
		}
		if got.directed != want.directed {
			t.Fatalf("directed=%v:\n%s", got.directed, text)
		}
		if got.directed && !got.acyclic() {
			t.Fatalf("cyclic %s graph:\n%s", fmt, text)
		}
		if len(got.edges) != len(exp.edges) {
			t.Fatalf("%d edges instead of %d in\n%s", len(got.edges), len(exp.edges), text)
		}
		grouped := fmt == "DOT" && align
		a, b := strings.Join(got.canon(grouped), "\n"), strings.Join(exp.canon(grouped), "\n")
		if a != b {
			t.Fatalf("%s graph differs\n--- got\n%s\n--- expected\n%s\n--- text\n%s", fmt, a, b, text)
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "file") == 9 {
		checkWritten(t, c, rep, dot, mm)
	}
}

// checkWritten compares the other ways of writing with the strings.
func checkWritten(t *rapid.T, c *Ctx, rep *graphical.Representation, dot, mm string) {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	c.Class("written to files")
	read := func(name string, err error, want string) {
		b, e := os.ReadFile(filepath.Join(dir, name))
		if err != nil || e != nil || string(b) != want {
			t.Fatalf("%s: %v %v\n%s", name, err, e, b)
		}
	}
	read("a.dot", graphical.WriteDotToFileName(filepath.Join(dir, "a.dot"), rep), dot)
	read("a.mm", graphical.WriteMermaidToFileName(filepath.Join(dir, "a.mm"), rep), mm)
	for _, x := range []string{"b.dot", "b.mm"} {
		file, err := os.Create(filepath.Join(dir, x))
		if err != nil {
			return
		}
		if x == "b.dot" {
			read(x, graphical.WriteDotToFile(file, rep), dot)
		} else {
			read(x, graphical.WriteMermaidToFile(file, rep), mm)
		}
	}
	var buf bytes.Buffer
	if err := graphical.WriteDotToWriter(&buf, rep); err != nil || buf.String() != dot {
		t.Fatalf("WriteDotToWriter: %v\n%s", err, buf.String())
	}
	buf.Reset()
	if err := graphical.WriteMermaidToWriter(&buf, rep); err != nil || buf.String() != mm {
		t.Fatalf("WriteMermaidToWriter: %v\n%s", err, buf.String())
	}
	if dot != "" {
		w := &failWriter{limit: rapid.IntRange(0, len(dot)-1).Draw(t, "dot fails at"), once: rapid.Bool().Draw(t, "once")}
		if err := graphical.WriteDotToWriter(w, rep); err == nil || !w.once && !strings.HasPrefix(dot, w.buf.String()) {
			t.Fatalf("Dot output to a writer failing after %d of %d bytes: error %v", w.limit, len(dot), err)
		}
	}
	if mm != "" {
		w := &failWriter{limit: rapid.IntRange(0, len(mm)-1).Draw(t, "mermaid fails at"), once: rapid.Bool().Draw(t, "once")}
		if err := graphical.WriteMermaidToWriter(w, rep); err == nil || !w.once && !strings.HasPrefix(mm, w.buf.String()) {
			t.Fatalf("Mermaid output to a writer failing after %d of %d bytes: error %v", w.limit, len(mm), err)
		}
	}
	if err := graphical.WriteDotToFileName(filepath.Join(dir, "no", "a.dot"), rep); err == nil {
		t.Fatalf("no error for a file in a missing directory")
	}
}

// styler draws a generator's options; its expectations are kept alongside.
type styler[T any] struct {
	align            bool
	bg               graphical.Color
	defN, n1, n2     nodeSty
	defE, e1, e2     edgeSty
	hasN, hasE       bool // default styles are set
	cmpN, cmpE, cmpL bool // computed styles and labels
	pick             func(T) bool
	label            func(T) string
}

func genStyler[T any](t *rapid.T, pick func(T) bool, label func(T) string) *styler[T] {
	b := func(n string) bool { return rapid.Bool().Draw(t, n) }
	s := &styler[T]{
		align: b("align"), bg: colors[rapid.IntRange(0, 3).Draw(t, "background")],
		hasN: b("defaultNode"), hasE: b("defaultEdge"),
		cmpN: b("nodeStyle"), cmpE: b("edgeStyle"), cmpL: b("labels"), pick: pick, label: label,
	}
	if s.hasN {
		s.defN = genNodeSty(t)
	}
	if s.hasE {
		s.defE = genEdgeSty(t)
	}
	if s.cmpN {
		s.n1, s.n2 = genNodeSty(t), genNodeSty(t)
	}
	if s.cmpE {
		s.e1, s.e2 = genEdgeSty(t), genEdgeSty(t)
	}
	return s
}

func (s *styler[T]) node(x T) nodeSty {
	if !s.cmpN {
		return s.defN
	}
	if s.pick(x) {
		return s.n1
	}
	return s.n2
}

func (s *styler[T]) edge(x, y T) edgeSty {
	if !s.cmpE {
		return s.defE
	}
	if s.pick(x) != s.pick(y) {
		return s.e1
	}
	return s.e2
}

func (s *styler[T]) lab(x T, def string) string {
	if s.cmpL {
		return s.label(x)
	}
	return def
}

func (s *styler[T]) gen() *graphical.Generator[T] {
	g := &graphical.Generator[T]{BackgroundColor: s.bg, AlignTerminals: s.align}
	if s.hasN {
		g.DefaultNodeStyle = s.defN.make()
	}
	if s.hasE {
		g.DefaultEdgeStyle = s.defE.make()
	}
	if s.cmpN {
		g.ComputeNodeStyle = func(x T) *graphical.NodeStyle { return s.node(x).make() }
	}
	if s.cmpE {
		g.ComputeEdgeStyle = func(x, y T) *graphical.EdgeStyle { return s.edge(x, y).make() }
	}
	if s.cmpL {
		g.ComputeLabel = s.label
	}
	return g
}

func (s *styler[T]) String() string {
	return fmt.Sprintf("align=%v bg=%q nodes=%v edges=%v computed=%v%v%v", s.align, s.bg, s.defN, s.defE, s.cmpN, s.cmpE, s.cmpL)
}

// formulaGraph is the expected AST (tree) or DAG of a formula.
func formulaGraph(e *Env, x f.Formula, s *styler[f.Formula], tree bool) *refGraph {
	fac := e.Fac
	g := &refGraph{directed: true}
	known := map[f.Formula]int{}
	var rec func(y f.Formula) int
	rec = func(y f.Formula) int {
		if i, ok := known[y]; ok && !tree {
			return i
		}
		label := ""
		switch y.Sort() {
		case f.SortTrue, f.SortFalse, f.SortCC, f.SortPBC:
			label = e.str(y)
		case f.SortLiteral:
			name, phase, _ := fac.LitNamePhase(f.Literal(y))
			label = name
			if !phase {
				label = "¬" + name
			}
		case f.SortNot:
			label = "¬"
		case f.SortAnd:
			label = "∧"
		case f.SortOr:
			label = "∨"
		case f.SortImpl:
			label = "⇒"
		case f.SortEquiv:
			label = "⇔"
		}
		i := len(g.nodes)
		known[y] = i
		g.nodes = append(g.nodes, refNode{s.lab(y, label), s.node(y), isConst(y) || isLit(y)})
		ops := fac.Operands(y)
		if y.Sort() == f.SortCC || y.Sort() == f.SortPBC {
			_, _, ls, _, _ := fac.PBCOps(y)
			ops = f.LiteralsAsFormulas(ls)
		}
		for k, o := range ops {
			el := ""
			if y.Sort() == f.SortImpl {
				el = []string{"l", "r"}[k]
			}
			j := rec(o)
			g.edges = append(g.edges, refEdge{i, j, el, s.edge(y, o)})
		}
		return i
	}
	rec(x)
	return g
}

func v01Formula(t *rapid.T, c *Ctx, tree bool) {
	nv := genNV(t, 1, 5, 10)
	e := newEnv(t, nv)
	n := Gen{NV: nv, Depth: rapid.SampledFrom([]int{2, 3, 1, 4, 0}).Draw(t, "depth"), Consts: true, CC: true, PBC: true}.draw(t, "f")
	if rapid.IntRange(0, 11).Draw(t, "large") == 0 {
		nv = rapid.IntRange(11, 40).Draw(t, "more")
		e = mkEnv(genNamesN(nv), nv, e.Mode == "conserve")
		n = genMany(t, nv, 3, pick(t, "size", 12, 30), rapid.IntRange(0, 2).Draw(t, "nested"), true)
		c.Class("many operands")
	}
	x := e.build(n)
	s := genStyler(t, func(y f.Formula) bool { return isLit(y) && y.IsPos() || y.Sort() == f.SortAnd },
		func(y f.Formula) string { return fmt.Sprintf("%s of %d", y.Sort(), len(e.str(y))) })
	gen := s.gen()
	c.Case(t, !isConst(x) && !isLit(x), "%s %s %v", e.Mode, e.nstr(n), s)
	var rep *graphical.Representation
	if rapid.IntRange(0, 5).Draw(t, "default") == 0 {
		s = &styler[f.Formula]{}
		gen = f.DefaultFormulaGraphicalGenerator()
		c.Class("default generator")
	}
	if tree {
		rep = f.GenerateGraphicalFormulaAST(e.Fac, x, gen)
	} else {
		rep = f.GenerateGraphicalFormulaDAG(e.Fac, x, gen)
	}
	want := formulaGraph(e, x, s, tree)
	c.ClassIf(len(want.edges) >= len(want.nodes), "shared nodes")
	checkRepresentation(t, c, rep, want, s.align, s.bg)
}

func v01BDD(t *rapid.T, c *Ctx) {
	nv := genNV(t, 1, 6, 10)
	e := newEnv(t, nv)
	n := Gen{NV: nv, Depth: rapid.SampledFrom([]int{2, 3, 1, 4, 0}).Draw(t, "depth"), Consts: true}.draw(t, "f")
	if rapid.IntRange(0, 11).Draw(t, "large") == 0 {
		nv = rapid.IntRange(11, 40).Draw(t, "more")
		e = mkEnv(genNamesN(nv), nv, e.Mode == "conserve")
		n = genPart(t, nv, pick(t, "part", OpAnd, OpOr), nv)
		for i := rapid.IntRange(0, 2).Draw(t, "parts"); i > 0; i-- {
			n = nOp(pick(t, "join", OpAnd, OpOr, OpEquiv), n, genPart(t, nv, pick(t, "part", OpAnd, OpOr), nv))
		}
		c.Class("many operands")
	}
	x := e.build(n)
	names := []f.Variable{}
	for _, i := range genPerm(t, nv, "order") {
		names = append(names, e.v(i))
	}
	k := bdd.NewKernelWithOrdering(e.Fac, names, 1000, 1000)
	b := bdd.CompileWithKernel(e.Fac, x, k)
	if rapid.IntRange(0, 2).Draw(t, "reorder") == 2 {
		k.AddAllVariablesAsBlock()
		k.Reorder(bdd.ReorderSift)
		c.Class("reordered")
	}
	pick := func(i int32) bool { return i == 0 }
	s := genStyler(t, pick, func(i int32) string {
		if i < 2 {
			return fmt.Sprintf("leaf %d", i)
		}
		return "inner"
	})
	gen := &bdd.GraphicalGenerator{Generator: s.gen()}
	var negDef edgeSty
	neg := func(x, y int32) edgeSty { return negDef }
	if rapid.Bool().Draw(t, "negDefault") {
		negDef = genEdgeSty(t)
		gen.DefaultNegativeEdgeStyle = negDef.make()
	}
	if rapid.Bool().Draw(t, "negComputed") {
		a, b := genEdgeSty(t), genEdgeSty(t)
		neg = func(x, y int32) edgeSty {
			if y == 1 {
				return a
			}
			return b
		}
		gen.ComputeNegativeEdgeStyle = func(x, y int32) *graphical.EdgeStyle { return neg(x, y).make() }
	}
	isDefault := rapid.IntRange(0, 5).Draw(t, "default") == 0
	if isDefault {
		gen = bdd.DefaultGenerator()
		c.Class("default generator")
		s = &styler[int32]{}
	}
	want := &refGraph{directed: true}
	seen := map[bdd.Node]int{}
	// the kernel index of an inner node is not known, but > 1
	num := func(y bdd.Node) int32 {
		switch {
		case y.InnerNode():
			return 7
		case y.Label() == "$true":
			return 1
		}
		return 0
	}
	var rec func(y bdd.Node) int
	rec = func(y bdd.Node) int {
		if i, ok := seen[y]; ok {
			return i
		}
		i := len(want.nodes)
		seen[y] = i
		id := num(y)
		lab := y.Label()
		sty := s.node(id)
		if id < 2 {
			lab = []string{"false", "true"}[id]
			if isDefault {
				col := []graphical.Color{graphical.ColorRed, graphical.ColorGreen}[id]
				sty = nodeSty{graphical.ShapeRectangle, col, graphical.ColorWhite, col}
			}
		}
		want.nodes = append(want.nodes, refNode{s.lab(id, lab), sty, id < 2})
		if id < 2 {
			return i
		}
		lo, hi := y.Low(), y.High()
		es := []edgeSty{neg(id, num(lo)), s.edge(id, num(hi))}
		if isDefault {
			es = []edgeSty{{graphical.EdgeDotted, graphical.ColorRed}, {graphical.EdgeSolid, graphical.ColorGreen}}
		}
		for q, ch := range []bdd.Node{lo, hi} {
			want.edges = append(want.edges, refEdge{i, rec(ch), "", es[q]})
		}
		return i
	}
	rec(b.NodeRepresentation())
	c.Case(t, len(want.edges) > 0, "%s %s order %v %v default=%v", e.Mode, e.nstr(n), e.vstrs(names), s, isDefault)
	c.ClassIf(len(want.nodes) == 1, "constant")
	checkRepresentation(t, c, bdd.GenerateGraphical(b, gen), want, s.align, s.bg)
}

func v01Graph(t *rapid.T, c *Ctx) {
	nv := genNV(t, 1, 7, 12)
	e := newEnv(t, nv)
	ops := 12
	if rapid.IntRange(0, 11).Draw(t, "large") == 0 {
		nv, ops = rapid.IntRange(8, 40).Draw(t, "more"), 60
		e = mkEnv(genNamesN(nv), nv, e.Mode == "conserve")
	}
	g := graph.NewFormulaGraph()
	var nodes []f.Formula
	edges := map[[2]int]bool{}
	hist := ""
	add := func(x f.Formula) int {
		for i, y := range nodes {
			if x == y {
				return i
			}
		}
		nodes = append(nodes, x)
		return len(nodes) - 1
	}
	lit := func(n string) f.Formula {
		return e.Fac.Literal(e.Names[rapid.IntRange(0, nv-1).Draw(t, n)], rapid.Bool().Draw(t, n+"p"))
	}
	for i := rapid.IntRange(0, ops).Draw(t, "ops"); i > 0; i-- {
		a := lit("a")
		if rapid.IntRange(0, 3).Draw(t, "node") == 0 {
			hist += " " + e.str(a)
			j := g.AddNode(a)
			if j != add(a) {
				t.Fatalf("AddNode(%s) = %d", e.str(a), j)
			}
			continue
		}
		b := lit("b")
		hist += " " + e.str(a) + "-" + e.str(b)
		g.Connect(a, b)
		x, y := add(a), add(b)
		if x > y {
			x, y = y, x
		}
		if x != y {
			edges[[2]int{x, y}] = true
		}
	}
	s := genStyler(t, func(y f.Formula) bool { return y.IsPos() }, func(y f.Formula) string { return "<" + e.str(y) + ">" })
	s.align = false
	c.Case(t, len(edges) > 0, "%s:%s %v", e.Mode, hist, s)
	if len(g.Nodes()) != len(nodes) {
		t.Fatalf("%d nodes instead of %d", len(g.Nodes()), len(nodes))
	}
	want := &refGraph{}
	for i, x := range nodes {
		if g.Nodes()[i] != x {
			t.Fatalf("node %d is %s", i, e.str(g.Nodes()[i]))
		}
		want.nodes = append(want.nodes, refNode{s.lab(x, e.str(x)), s.node(x), false})
		nb := map[f.Formula]bool{}
		for _, y := range g.Neighbours(x) {
			if nb[y] {
				t.Fatalf("%s is twice a neighbour of %s", e.str(y), e.str(x))
			}
			nb[y] = true
		}
		k := 0
		for j, y := range nodes {
			if edges[[2]int{min(i, j), max(i, j)}] {
				k++
				if !nb[y] {
					t.Fatalf("%s is no neighbour of %s", e.str(y), e.str(x))
				}
			}
		}
		if k != len(nb) {
			t.Fatalf("%s has %d neighbours instead of %d", e.str(x), len(nb), k)
		}
	}
	for p := range edges {
		want.edges = append(want.edges, refEdge{p[0], p[1], "", s.edge(nodes[p[0]], nodes[p[1]])})
	}
	checkRepresentation(t, c, graph.GenerateGraphicalFormulaGraph(e.Fac, g, s.gen()), want, false, s.bg)
}
