package harness

import (
	"fmt"
	"runtime"
	"slices"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// Large operations. One operation over up to a few hundred elements is stopped
// wherever it calls something of the caller's, and others, which look at or
// change a few of these elements, are started: they end meanwhile, or wait for
// a lock long enough for Go's mutex to hand it over whenever it is let go.
// What comes of it must be what comes of these operations one after another,
// in one of the possible orders, on the code itself.

const bigRule = "one operation over up to 300 elements, stopped at a generated point while 1 to 3 others on a few of its elements are started; " +
	"non-trivial: more than three elements, the operation was stopped and the orders differ in what they give"

// BigCase is such a case: A is stopped at its At-th (in thousandths of them)
// call of a hook.
type BigCase struct {
	Kind  int   `json:"kind"`
	N     int   `json:"n"`
	Order int   `json:"order"` // of the elements: 0 up, 1 down, 2 from the middle
	Setup []COp `json:"setup"`
	A     COp   `json:"a"`
	B     []COp `json:"b"`
	At    int   `json:"at"`
	// Ring makes the cache's links go from element to element, not from three
	// to all.
	Ring bool `json:"ring,omitempty"`
}

// elems lists the elements in the case's order.
func (c BigCase) elems() []int {
	l := make([]int, c.N)
	for i := range l {
		switch c.Order {
		case 0:
			l[i] = i
		case 1:
			l[i] = c.N - 1 - i
		default:
			l[i] = (c.N/2 + i) % c.N
		}
	}
	return l
}

// big fills an operation that concerns all the elements ("*").
func (c BigCase) big(o COp) COp {
	if o.All {
		o.L = c.elems()
		if strings.HasSuffix(o.Op, "link") { // not to itself
			o.L = slices.DeleteFunc(o.L, func(l int) bool { return l == o.U })
		}
	}
	return o
}

// bigs says which operations are large ones, what they need, and which others
// see or undo them.
type bigOp struct {
	a     string
	setup []string
	b     []string
}

func genBig(kinds int, ops []bigOp) func(*rapid.T) BigCase {
	return func(t *rapid.T) BigCase {
		c := BigCase{Kind: uni(t, kinds, "kind"), Order: rapid.IntRange(0, 2).Draw(t, "order"), At: rapid.IntRange(0, 999).Draw(t, "at")}
		switch uni(t, 5, "size") {
		case 0, 1:
			c.N = pick(t, "n", near(300, 3, 9, 17, 33, 65, 101, 129, 257, 300))
		case 2:
			c.N = 257 + uni(t, 44, "n")
		default:
			c.N = rapid.IntRange(3, 140).Draw(t, "n")
		}
		c.Ring = rapid.Bool().Draw(t, "ring")
		c.N = max(c.N, 3)
		op := pick(t, "a", ops)
		for _, s := range op.setup {
			c.Setup = append(c.Setup, COp{Op: s, All: true})
		}
		c.A = COp{Op: op.a, All: true}
		l := c.elems()
		elem := func() int {
			switch rapid.IntRange(0, 3).Draw(t, "which") {
			case 0:
				return l[0]
			case 1:
				return l[c.N-1]
			case 2:
				return min(c.N-1, 2)
			}
			return uni(t, c.N, "elem")
		}
		hub := func(o COp) COp {
			if o.U = 0; pct(t, 35, "no hub?") {
				o.U = elem()
			}
			return o
		}
		var bulks []string
		for _, o := range op.b {
			if strings.HasPrefix(o, "bulk") {
				bulks = append(bulks, o)
			}
		}
		// those dealt with early and late, in one other operation or two
		early, late := l[uni(t, min(c.N, 9), "early")], l[c.N-1-uni(t, min(c.N, 3), "late")]
		if rapid.Bool().Draw(t, "first late?") {
			early, late = late, early
		}
		switch shape := uni(t, 10, "shape"); {
		case shape < 5 && len(bulks) > 0:
			c.B = append(c.B, hub(COp{Op: pick(t, "b", bulks), L: []int{early, late}}))
		case shape < 7:
			o := pick(t, "b", op.b)
			for _, e := range []int{early, late} {
				x := COp{Op: o, U: e, V: l[0]}
				if strings.HasPrefix(o, "bulk") {
					x.U, x.L = 0, []int{e}
				} else if strings.HasSuffix(o, "link") {
					x.U, x.V = 0, e
				}
				c.B = append(c.B, x)
			}
		}
		for n := rapid.IntRange(0, 3-len(c.B)).Draw(t, "more"); n > 0 || len(c.B) == 0; n-- {
			o := hub(COp{Op: pick(t, "b", op.b), V: elem()})
			if strings.HasPrefix(o.Op, "bulk") {
				if pct(t, 15, "all?") {
					o.All = true
				} else {
					for k := rapid.IntRange(1, 4).Draw(t, "k"); k > 0; k-- {
						o.L = append(o.L, elem())
					}
				}
			}
			c.B = append(c.B, o)
		}
		return c
	}
}

// halt makes one goroutine stop at one of its calls of a hook.
type halt struct {
	goid    string // of the one
	other   string
	n, at   int
	stopped chan struct{}
	resume  chan struct{}
}

// yield is called from the hooks.
func (h *halt) yield() {
	if goid() != h.goid {
		return
	}
	if h.n++; h.n == h.at {
		close(h.stopped)
		<-h.resume
	}
}

// bigOut is what the operations of a case gave.
type bigOut struct {
	a, end string
	b      []string
}

func (o bigOut) String() string {
	return fmt.Sprintf("the large one gives %s; the others give %s; afterwards: %s", clip(o.a, 700), clip(strings.Join(o.b, "; "), 700), clip(o.end, 1500))
}

func (o bigOut) same(p bigOut) bool {
	return o.a == p.a && o.end == p.end && strings.Join(o.b, "\x00") == strings.Join(p.b, "\x00")
}

func runBig(mk func(c CCase, s *scheduler) (conSys, error), check func(conSys) error) func(BigCase, *R) error {
	return func(c BigCase, r *R) error {
		fresh := func() (conSys, *scheduler, error) {
			s := &scheduler{mode: "halt"}
			sys, err := mk(CCase{Mode: "halt", Kind: c.Kind, N: c.N, Ring: c.Ring}, s)
			if err != nil {
				return nil, nil, err
			}
			for i, o := range c.Setup {
				sys.do(c.big(o), fmt.Sprintf("s%d", i))
			}
			return sys, s, nil
		}
		end := COp{Op: "final"}
		// one after another, A after k of the others
		var orders []bigOut
		calls := 0
		for k := 0; k <= len(c.B); k++ {
			sys, s, err := fresh()
			if err != nil {
				return err
			}
			var out bigOut
			for i := 0; i <= len(c.B); i++ {
				if i == k {
					s.halt = &halt{goid: goid()}
					out.a = sys.do(c.big(c.A), "a")
					if k == 0 {
						calls = s.halt.n
					}
					s.halt = nil
				}
				if i < len(c.B) {
					out.b = append(out.b, sys.do(c.big(c.B[i]), fmt.Sprintf("b%d", i)))
				}
			}
			out.end = sys.do(end, "final")
			orders = append(orders, out)
		}
		if calls == 0 {
			r.Label("nowhere to stop")
			return nil
		}
		// at once
		sys, s, err := fresh()
		if err != nil {
			return err
		}
		h := &halt{at: 1 + c.At*calls/1000, stopped: make(chan struct{}), resume: make(chan struct{})}
		var got bigOut
		var wg sync.WaitGroup
		var panics [2]string
		start := func(i int, f func()) chan string {
			id, wait := make(chan string), make(chan struct{})
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						buf := make([]byte, 4096)
						panics[i] = fmt.Sprintf("panic: %v\n%s", p, buf[:runtime.Stack(buf, false)])
					}
					close(id)
				}()
				id <- goid()
				<-wait
				f()
			}()
			g := <-id
			if i == 0 {
				h.goid, s.halt = g, h
			} else {
				h.other = g
			}
			close(wait)
			return id
		}
		aDone := start(0, func() { got.a = sys.do(c.big(c.A), "a") })
		stopped := false
		select {
		case <-h.stopped:
			stopped = true
		case <-aDone:
		}
		bDone := start(1, func() {
			for i, o := range c.B {
				got.b = append(got.b, sys.do(c.big(o), fmt.Sprintf("b%d", i)))
			}
		})
		if stopped {
			waited := false
			for !waited {
				select {
				case <-bDone:
					waited = true
					r.Label("the others ended meanwhile")
				default:
					if n, _ := statesOf(map[string]bool{h.other: true}); n == 1 {
						time.Sleep(1100 * time.Microsecond)
						waited = true
						r.Label("another waited for a lock")
					} else {
						time.Sleep(20 * time.Microsecond)
					}
				}
			}
			close(h.resume)
		}
		wg.Wait()
		s.halt = nil
		for i, p := range panics {
			if p != "" {
				return fmt.Errorf("worker %d: %s", i, p)
			}
		}
		got.end = sys.do(end, "final")
		differ, ok := false, false
		for _, o := range orders {
			ok = ok || got.same(o)
			differ = differ || !o.same(orders[0])
		}
		if !ok {
			var sb strings.Builder
			for k, o := range orders {
				fmt.Fprintf(&sb, "  the large one after %d of the others: %s\n", k, o)
			}
			return fmt.Errorf("%s over %d elements and %d others at once:\n  %s\nwhich is what no order of them gives:\n%s", c.A.Op, c.N, len(c.B), got, sb.String())
		}
		if stopped && differ && c.N > 3 {
			r.NonTrivial()
		}
		if check == nil {
			return nil
		}
		return check(sys)
	}
}
