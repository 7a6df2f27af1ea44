package harness

import (
	"encoding/json"
	"strings"
	"time"
)

// rapid shrinks what its generator drew, which is not always good at dropping
// an element from the middle of a long history. So the failing case it ends
// with is shrunk once more, by leaving out elements of its lists for as long
// as the case still fails in the same manner.

func manner(err string) string {
	line, _, _ := strings.Cut(err, "\n")
	switch {
	case strings.HasPrefix(err, "panic:"):
		return line
	case strings.Contains(err, "data race"):
		return "race"
	case strings.HasPrefix(err, "deadlock"):
		return "deadlock"
	case strings.HasPrefix(err, "the bubble ended"):
		return "bubble"
	}
	return "wrong"
}

// lists calls f with every list of objects in x, and a way to replace it.
func lists(x any, f func(l []any, set func([]any))) {
	switch x := x.(type) {
	case map[string]any:
		for _, k := range sortedKeys(x) {
			if l, ok := x[k].([]any); ok && len(l) > 0 {
				if _, obj := l[0].(map[string]any); obj {
					f(l, func(n []any) { x[k] = n })
				}
			}
			lists(x[k], f)
		}
	case []any:
		for _, v := range x {
			lists(v, f)
		}
	}
}

func (h *H) minimise(p *partRunner, limit time.Duration) {
	if h.fail == nil || p.enumerate {
		return
	}
	end := time.Now().Add(limit)
	how := manner(h.fail.Error)
	try := func(x any) bool {
		raw, err := json.Marshal(x)
		if err != nil {
			return false
		}
		old := h.fail
		h.fail = &failure{Case: append(json.RawMessage(nil), raw...)} // not replaced, as no case is smaller than itself
		h.fail.Case = append(h.fail.Case, ' ')
		if err := p.replay(h, p, raw); err != nil && manner(err.Error()) == how {
			h.fail = &failure{Property: old.Property, Part: old.Part, Error: err.Error(), Case: raw}
			if len(h.fail.Error) > 12000 {
				h.fail.Error = h.fail.Error[:12000] + "..."
			}
			h.flush(false)
			return true
		}
		h.fail = old
		return false
	}
	var x any
	read := func() {
		d := json.NewDecoder(strings.NewReader(string(h.fail.Case)))
		d.UseNumber()
		must(d.Decode(&x))
	}
	read()
	for again := true; again && time.Now().Before(end); {
		again = false
		type list struct {
			l   []any
			set func([]any)
		}
		var all []list
		lists(x, func(l []any, set func([]any)) { all = append(all, list{l, set}) })
		for _, a := range all {
			cur := a.l
			for size := (len(cur) + 1) / 2; size > 0; size /= 2 {
				for i := 0; i < len(cur) && time.Now().Before(end); {
					j := min(i+size, len(cur))
					shorter := append(append([]any{}, cur[:i]...), cur[j:]...)
					a.set(shorter)
					if try(x) {
						cur, again = shorter, true
					} else {
						a.set(cur)
						i = j
					}
				}
			}
		}
	}
}
