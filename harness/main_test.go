package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// TestList prints the registered properties as JSON.
func TestList(t *testing.T) {
	var l []*Prop
	for _, p := range props {
		l = append(l, p)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	b, _ := json.Marshal(l)
	fmt.Println("LIST:" + string(b))
}

// TestProp runs one sub-check: VERIF_PROP, VERIF_SUB, VERIF_OUT.
func TestProp(t *testing.T) {
	id, name := os.Getenv("VERIF_PROP"), os.Getenv("VERIF_SUB")
	if id == "" {
		t.Skip("no property selected")
	}
	for _, s := range props[id].Subs {
		if s.Name != name {
			continue
		}
		out := os.Getenv("VERIF_OUT")
		st, dog := "", ""
		if out != "" {
			st, dog = out+".status", out+".runaway"
		}
		c := newCtx(st)
		go watchdog(c, 100*time.Second, 3<<30, dog)
		defer func() {
			if out != "" {
				c.write(out)
			}
		}()
		rapid.Check(t, c.run(s.fn))
		return
	}
	t.Fatalf("unknown sub-check %s/%s", id, name)
}
