package harness

import (
	"fmt"
	"slices"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/sat"
)

// pins watches results handed out earlier: later operations must not change
// them.
type pins []func() string

func (p *pins) check(fail func(format string, args ...any)) {
	for _, q := range *p {
		if s := q(); s != "" {
			fail("%s", s)
		}
	}
	if len(*p) > 12 {
		*p = (*p)[len(*p)-12:]
	}
}

func pinSlice[T comparable](p *pins, what string, s []T) {
	c := slices.Clone(s)
	*p = append(*p, func() string {
		if !slices.Equal(s, c) {
			return fmt.Sprintf("the %s handed out earlier was changed from %v to %v", what, c, s)
		}
		return ""
	})
}

func (p *pins) model(m *model.Model) {
	if m != nil {
		pinSlice(p, "model", m.Literals)
	}
}

func (p *pins) backbone(b *sat.Backbone) {
	if b != nil {
		pinSlice(p, "positive backbone", b.Positive)
		pinSlice(p, "negative backbone", b.Negative)
		pinSlice(p, "optional backbone", b.Optional)
	}
}

func (p *pins) result(r sat.CallResult) {
	p.model(r.Model())
	if c := r.UnsatCore(); c != nil {
		pinSlice[f.Proposition](p, "unsat core", c.Propositions)
	}
	pinSlice(p, "list of zero-level literals", r.UpZeroLits())
}
