package harness

// CNFS is a small independent SAT procedure (clause learning over watched
// literals, no restarts).  Literals are ints: 2*v for v, 2*v+1 for its
// negation.
type CNFS struct {
	nv      int
	clauses [][]int
	watch   [][]int // literal -> clauses watching it
	val     []int8  // per variable: 0 unassigned, 1 true, -1 false
	level   []int
	reason  []int
	trail   []int
	lims    []int
	qhead   int
	act     []float64
	inc     float64
	phase   []int8
	bad     bool
	seen    []bool
	Steps   int
	Limit   int // give up (panic gaveUp) after this many conflicts in one call, or after workLimit; 0: never
	work    int // clauses visited and variables scanned in all calls
	assume  []int
	failed  []int // failed assumptions of the last unsatisfiable call
}

// workLimit bounds the total work of an oracle with a limit (a few seconds).
const workLimit = 300_000_000

// gaveUp is the panic value of an oracle that hit its step limit.
type gaveUp struct{}

func newCNFS(nv int, clauses [][]int) *CNFS {
	s := &CNFS{nv: nv, inc: 1}
	s.val = make([]int8, nv)
	s.level = make([]int, nv)
	s.reason = make([]int, nv)
	s.act = make([]float64, nv)
	s.phase = make([]int8, nv)
	s.seen = make([]bool, nv)
	s.watch = make([][]int, 2*nv)
	for _, c := range clauses {
		s.addClause(c)
	}
	return s
}

func (s *CNFS) addClause(c []int) {
	var d []int
	s.cancel(0)
outer:
	for _, l := range c {
		if s.litVal(l) == 1 {
			return
		}
		if s.litVal(l) == -1 {
			continue
		}
		for _, x := range d {
			if x == l {
				continue outer
			}
			if x == l^1 {
				return
			}
		}
		d = append(d, l)
	}
	switch len(d) {
	case 0:
		s.bad = true
	case 1:
		switch s.litVal(d[0]) {
		case -1:
			s.bad = true
		case 0:
			s.enqueue(d[0], -1)
		}
	default:
		i := len(s.clauses)
		s.clauses = append(s.clauses, d)
		s.watch[d[0]] = append(s.watch[d[0]], i)
		s.watch[d[1]] = append(s.watch[d[1]], i)
	}
}

func (s *CNFS) litVal(l int) int8 {
	v := s.val[l>>1]
	if l&1 == 1 {
		return -v
	}
	return v
}

func (s *CNFS) enqueue(l, reason int) {
	v := l >> 1
	s.val[v] = 1
	if l&1 == 1 {
		s.val[v] = -1
	}
	s.level[v] = len(s.lims)
	s.reason[v] = reason
	s.trail = append(s.trail, l)
}

// propagate returns a conflicting clause or -1.
func (s *CNFS) propagate() int {
	for s.qhead < len(s.trail) {
		f := s.trail[s.qhead] ^ 1 // now false
		s.qhead++
		s.Steps++
		ws := s.watch[f]
		s.work += len(ws)
		j := 0
		for i := 0; i < len(ws); i++ {
			ci := ws[i]
			c := s.clauses[ci]
			if c[0] == f {
				c[0], c[1] = c[1], c[0]
			}
			if s.litVal(c[0]) == 1 {
				ws[j] = ci
				j++
				continue
			}
			found := false
			for k := 2; k < len(c); k++ {
				if s.litVal(c[k]) != -1 {
					c[1], c[k] = c[k], c[1]
					s.watch[c[1]] = append(s.watch[c[1]], ci)
					found = true
					break
				}
			}
			if found {
				continue
			}
			ws[j] = ci
			j++
			if s.litVal(c[0]) == -1 {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watch[f] = ws[:j]
				return ci
			}
			s.enqueue(c[0], ci)
		}
		s.watch[f] = ws[:j]
	}
	return -1
}

func (s *CNFS) cancel(lvl int) {
	if len(s.lims) <= lvl {
		return
	}
	to := s.lims[lvl]
	for i := len(s.trail) - 1; i >= to; i-- {
		v := s.trail[i] >> 1
		s.phase[v] = s.val[v]
		s.val[v] = 0
	}
	s.trail = s.trail[:to]
	s.lims = s.lims[:lvl]
	s.qhead = to
}

func (s *CNFS) bump(v int) {
	s.act[v] += s.inc
	if s.act[v] > 1e100 {
		for i := range s.act {
			s.act[i] *= 1e-100
		}
		s.inc *= 1e-100
	}
}

// analyze derives the first-UIP clause of a conflict.
func (s *CNFS) analyze(confl int) ([]int, int) {
	learnt := []int{0}
	cnt, p, idx := 0, -1, len(s.trail)-1
	var clear []int
	for {
		for _, q := range s.clauses[confl] {
			if q == p {
				continue
			}
			v := q >> 1
			if s.seen[v] || s.level[v] == 0 {
				continue
			}
			s.seen[v] = true
			clear = append(clear, v)
			s.bump(v)
			if s.level[v] == len(s.lims) {
				cnt++
			} else {
				learnt = append(learnt, q)
			}
		}
		for !s.seen[s.trail[idx]>>1] {
			idx--
		}
		p = s.trail[idx]
		idx--
		cnt--
		if cnt == 0 {
			break
		}
		confl = s.reason[p>>1]
	}
	learnt[0] = p ^ 1
	back := 0
	for i := 1; i < len(learnt); i++ {
		if l := s.level[learnt[i]>>1]; l > back {
			back = l
			learnt[1], learnt[i] = learnt[i], learnt[1]
		}
	}
	for _, v := range clear {
		s.seen[v] = false
	}
	s.inc *= 1.05
	return learnt, back
}

// final computes the assumptions responsible for literal p being false.
func (s *CNFS) final(p int) {
	s.failed = []int{p}
	if len(s.lims) == 0 {
		return
	}
	mark := map[int]bool{p >> 1: true}
	for i := len(s.trail) - 1; i >= s.lims[0]; i-- {
		v := s.trail[i] >> 1
		if !mark[v] {
			continue
		}
		if s.reason[v] < 0 {
			if s.trail[i] != p {
				s.failed = append(s.failed, s.trail[i])
			}
			continue
		}
		for _, q := range s.clauses[s.reason[v]] {
			if s.level[q>>1] > 0 {
				mark[q>>1] = true
			}
		}
	}
}

// Sat decides satisfiability under assumptions; afterwards the model (if any)
// is still on the trail until the next call.
func (s *CNFS) Sat(assume ...int) bool {
	s.cancel(0)
	s.failed = nil
	if s.bad {
		return false
	}
	if s.propagate() >= 0 {
		s.bad = true
		return false
	}
	conflicts := 0
	for {
		confl := s.propagate()
		if confl >= 0 {
			if len(s.lims) == 0 {
				s.bad = true
				return false
			}
			conflicts++
			if s.Limit > 0 && (conflicts > s.Limit || s.work > workLimit) {
				panic(gaveUp{})
			}
			learnt, back := s.analyze(confl)
			s.cancel(back)
			if len(learnt) == 1 {
				s.enqueue(learnt[0], -1)
			} else {
				i := len(s.clauses)
				s.clauses = append(s.clauses, learnt)
				s.watch[learnt[0]] = append(s.watch[learnt[0]], i)
				s.watch[learnt[1]] = append(s.watch[learnt[1]], i)
				s.enqueue(learnt[0], i)
			}
			continue
		}
		next := -1
		for len(s.lims) < len(assume) {
			a := assume[len(s.lims)]
			switch s.litVal(a) {
			case 1:
				s.lims = append(s.lims, len(s.trail))
				continue
			case -1:
				s.final(a)
				return false
			}
			next = a
			break
		}
		if next < 0 {
			best := -1
			s.work += s.nv
			if s.Limit > 0 && s.work > workLimit {
				panic(gaveUp{})
			}
			for v := 0; v < s.nv; v++ {
				if s.val[v] == 0 && (best < 0 || s.act[v] > s.act[best]) {
					best = v
				}
			}
			if best < 0 {
				return true
			}
			next = 2*best + 1
			if s.phase[best] == 1 {
				next = 2 * best
			}
		}
		s.lims = append(s.lims, len(s.trail))
		s.enqueue(next, -1)
	}
}

// Projection computes the set of assignments to variables 0..n-1 which extend
// to a model.
func (s *CNFS) Projection(n int) TT {
	r := ttConst(n, false)
	known := ttConst(n, false)
	s.Limit = 50000
	assume := make([]int, n)
	for i := 0; i < 1<<n; i++ {
		if known.Get(i) {
			continue
		}
		for v := 0; v < n; v++ {
			assume[v] = 2*v + 1 - i>>v&1
		}
		if s.Sat(assume...) {
			r.Set(i, true)
			known.Set(i, true)
			continue
		}
		if s.bad {
			return r
		}
		// every assignment with the failed assumptions has no extension
		val, mask := 0, 0
		for _, l := range s.failed {
			mask |= 1 << (l >> 1)
			if l&1 == 0 {
				val |= 1 << (l >> 1)
			}
		}
		for j := i; j < 1<<n; j++ {
			if j&mask == val {
				known.Set(j, true)
			}
		}
	}
	s.cancel(0)
	return r
}

// modelIdx returns the values of the first n variables of the current model.
func (s *CNFS) modelIdx(n int) int {
	r := 0
	for v := 0; v < n; v++ {
		if s.val[v] == 1 {
			r |= 1 << v
		}
	}
	return r
}
