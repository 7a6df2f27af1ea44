package harness

import (
	"bytes"
	"fmt"
	"maps"
	"runtime"
	"runtime/metrics"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"pgregory.net/rapid"
)

// Concurrent cases. A few workers each perform a list of operations on one
// object, in one of three modes:
//
//   - sched: the schedule is part of the case. Workers stop wherever the code
//     under test calls something of the caller's (a UID's String, a link's
//     From, an entity's Attrs, the gonum graph behind a graph, the graph
//     behind a store) and between operations; the case says who goes on. A
//     worker that waits for a lock another one holds is recognised from a
//     goroutine dump.
//   - free: the workers run freely, yielding the processor at those places;
//     calls and returns are numbered.
//   - race: as free, but nothing the harness does orders the workers, so that
//     the race detector sees every unordered access.
//
// In the first two modes the results must be those of some order of the
// operations that respects which returned before which was called
// (linearizability), decided by searching all of them.

const (
	concRule  = "2 to 4 workers with 1 to 3 operations each on one object over three UIDs, after a set-up; "
	schedRule = concRule + "the schedule is generated; non-trivial: another worker was scheduled while one stood inside an operation"
	freeRule  = concRule + "free-running, eight times per case, under the race detector; non-trivial: two or more workers"
)

// COp is one operation of a worker.
type COp struct {
	Op string `json:"op"`
	U  int    `json:"u"`
	V  int    `json:"v,omitempty"`
	L  []int  `json:"l,omitempty"`
	// All stands for a list of all the elements of a BigCase.
	All bool `json:"all,omitempty"`
}

// CCase is a concurrent case.
type CCase struct {
	Mode  string  `json:"mode"`
	Kind  int     `json:"kind"`
	Setup []COp   `json:"setup"`
	Work  [][]COp `json:"work"`
	Sched []int   `json:"sched,omitempty"`
	Reps  int     `json:"reps,omitempty"`
	// Starve makes lock waiters wait over a millisecond, when Go's mutex
	// starts to hand the lock over.
	Starve bool `json:"starve,omitempty"`
	// Rush makes a worker call one operation right after the other, ahead of
	// those who wait for a lock.
	Rush bool `json:"rush,omitempty"`
	// N is the number of UIDs, if not 3; Ring is that of a BigCase.
	N    int  `json:"n,omitempty"`
	Ring bool `json:"ring,omitempty"`
}

// conModel is a sequential model; step gives the operation's result.
type conModel interface {
	clone() conModel
	key() string
	step(op COp, id string) string
}

// conSys is an object under test.
type conSys interface {
	// do performs the operation and gives its result.
	do(op COp, id string) string
	model() conModel
}

func genConc(ops []string, kinds, uids int, setup func(t *rapid.T) []COp, modes ...string) func(*rapid.T) CCase {
	return func(t *rapid.T) CCase {
		c := CCase{Mode: rapid.SampledFrom(modes).Draw(t, "mode"), Kind: rapid.IntRange(0, kinds-1).Draw(t, "kind")}
		if setup != nil && rapid.IntRange(0, 3).Draw(t, "setup?") > 0 {
			c.Setup = setup(t)
		}
		// a few kinds of operations per case, so that they meet
		mine := rapid.SliceOfNDistinct(rapid.SampledFrom(ops), 1, 4, rapid.ID[string]).Draw(t, "kinds")
		op := rapid.Custom(func(t *rapid.T) COp {
			o := COp{Op: rapid.SampledFrom(mine).Draw(t, "op"), U: rapid.IntRange(0, uids-1).Draw(t, "u"), V: rapid.IntRange(0, uids-1).Draw(t, "v")}
			if strings.HasPrefix(o.Op, "bulk") {
				o.L = rapid.SliceOfN(rapid.IntRange(0, uids-1), 1, 4).Draw(t, "l")
			}
			return o
		})
		focus := false
		if w := genFocus(t, ops, uids); w != nil {
			c.Work, focus = w, true
			b := w[0][0]
			if (b.Op == "bulkadd" || b.Op == "bulkput") && pct(t, 75, "bare?") {
				c.Setup = nil
			}
			if b.Op == "bulklink" || b.Op == "bulkunlink" { // where there is something to do
				c.Setup = nil
				for u := range uids {
					c.Setup = append(c.Setup, COp{Op: "add", U: u})
				}
				if b.Op == "bulkunlink" || pct(t, 30, "linked?") {
					for _, v := range b.L {
						if v != b.U {
							c.Setup = append(c.Setup, COp{Op: "link", U: b.U, V: v})
						}
					}
				}
			}
		} else {
			n := rapid.IntRange(2, 4).Draw(t, "workers")
			for i := 0; i < n; i++ {
				c.Work = append(c.Work, rapid.SliceOfN(op, 1, 3).Draw(t, "work"))
			}
		}
		switch c.Mode {
		case "sched":
			c.Sched = genSched(t)
			c.Starve = pct(t, 6, "starve?") || focus && pct(t, 35, "starve!")
			c.Rush = c.Starve && pct(t, 60, "rush?")
		default:
			c.Reps = 8
		}
		return c
	}
}

// genSched says who goes on at each step: each step by itself, or in runs with
// few switches.
func genSched(t *rapid.T) []int {
	who := func(t *rapid.T) int { return rapid.IntRange(0, 3).Draw(t, "s") }
	var out []int
	switch rapid.IntRange(0, 2).Draw(t, "steps?") {
	case 0:
		return drawList(t, "sched", 0, 60, who)
	case 1: // one stops somewhere, and another runs to its end
		a := who(t)
		b := a + 1
		if pct(t, 30, "other?") {
			b = who(t)
		}
		for n := uni(t, 36, "until"); n > 0; n-- {
			out = append(out, a)
		}
		for n := 60; n > 0; n-- {
			out = append(out, b)
		}
		return out
	}
	for _, r := range drawList(t, "runs", 0, 12, func(t *rapid.T) [2]int {
		return [2]int{who(t), pick(t, "n", []int{1, 2, 3, 4, 5, 6, 8, 11, 15, 20, 30})}
	}) {
		for i := 0; i < r[1]; i++ {
			out = append(out, r[0])
		}
	}
	return out
}

// related are the single operations that see or undo what a bulk one does.
var related = map[string][]string{
	"bulkadd":    {"get", "add", "delete", "link"},
	"bulkupsert": {"get", "upsert", "delete", "put"},
	"bulkget":    {"upsert", "delete", "add"},
	"bulkdelete": {"get", "add", "upsert", "link"},
	"bulklink":   {"unlink", "unlink", "delete"},
	"bulkunlink": {"link", "link", "unlink"},
	"bulkput":    {"from", "to", "delete", "put"},
	"bulkfrom":   {"put", "upsert", "delete"},
	"bulkto":     {"put", "upsert", "delete"},
}

// genFocus sometimes makes a bulk operation meet single ones that go through
// the same UIDs one by one.
func genFocus(t *rapid.T, ops []string, uids int) [][]COp {
	var bulk, single []string
	for _, o := range ops {
		if strings.HasPrefix(o, "bulk") {
			bulk = append(bulk, o)
		} else {
			single = append(single, o)
		}
	}
	if len(bulk) == 0 || !pct(t, 40, "focus?") {
		return nil
	}
	l := rapid.Permutation([]int{0, 1, 2}[:uids]).Draw(t, "l")
	u := l[uids-1]
	if l = l[:uids-1]; rapid.Bool().Draw(t, "all?") {
		l = append(l, u)
	}
	b := COp{Op: pick(t, "bulk", bulk), U: u, L: l}
	if b.Op != "bulkadd" && pct(t, 40, "twice?") { // more to go through
		b.L = nil
		for _, v := range l {
			b.L = append(b.L, v, v)
		}
	}
	one := single
	var rel []string
	for _, o := range related[b.Op] {
		if slices.Contains(single, o) {
			rel = append(rel, o)
		}
	}
	if len(rel) > 0 && pct(t, 75, "related?") {
		one = rel
	}
	kinds := []string{pick(t, "single", one)}
	if kinds = append(kinds, kinds[0]); rapid.Bool().Draw(t, "two?") {
		kinds[1] = pick(t, "single", one)
	}
	at := rapid.Bool().Draw(t, "at?") // at the UIDs, or from u to them
	if strings.HasSuffix(b.Op, "link") && at {
		at = rapid.Bool().Draw(t, "at!")
	}
	back := pct(t, 35, "back?")
	var ones []COp
	for i := range l {
		v := l[i]
		if back {
			v = l[len(l)-1-i]
		}
		o := COp{Op: kinds[uni(t, 2, "kind")], U: u, V: v}
		if at {
			o.U, o.V = v, u
		}
		ones = append(ones, o)
	}
	w := [][]COp{{b}, ones}
	if pct(t, 25, "split?") {
		w = w[:1]
		for _, o := range ones {
			w = append(w, []COp{o})
		}
	}
	if len(w) < 4 && rapid.Bool().Draw(t, "more?") {
		w = append(w, []COp{{Op: pick(t, "bulk", bulk), U: u, L: l}})
	}
	return w
}

// ---- the scheduler

type worker struct {
	id     int
	goid   string
	resume chan struct{}
	parked bool
	done   bool
}

type event struct {
	w    *worker
	done bool
}

// scheduler runs workers one at a time. A nil scheduler's yield does nothing.
type scheduler struct {
	mode    string
	on      atomic.Bool
	byGoid  sync.Map
	events  chan event
	workers []*worker
	clock   atomic.Int64
	// switches counts the times another worker was chosen while one stood
	// inside an operation; blocked the steps with a worker waiting for a lock.
	switches, blocked int
	// halt is of mode halt.
	halt *halt
}

func goid() string {
	var buf [40]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	if i := bytes.IndexByte(b, ' '); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

// yield is called from the hooks.
func (s *scheduler) yield() {
	if s == nil {
		return
	}
	switch s.mode {
	case "sched":
		if !s.on.Load() {
			return
		}
		if w, ok := s.byGoid.Load(goid()); ok {
			w := w.(*worker)
			s.events <- event{w, false}
			<-w.resume
		}
	case "halt":
		if s.halt != nil {
			s.halt.yield()
		}
	default:
		runtime.Gosched()
	}
}

func statesOf(ids map[string]bool) (waiting int, stacks []string) {
	for _, g := range snapshot() {
		if ids[g.id] && !g.canRun() {
			waiting++
			stacks = append(stacks, g.stack)
		}
	}
	return
}

// quiet tells whether no goroutine but the caller's seems to run.
func quiet() bool {
	m := []metrics.Sample{{Name: "/sched/goroutines/runnable:goroutines"}, {Name: "/sched/goroutines/running:goroutines"}}
	metrics.Read(m)
	return m[0].Value.Kind() == metrics.KindUint64 && m[0].Value.Uint64() == 0 && m[1].Value.Uint64() <= 1
}

func subset(a, b map[*worker]bool) bool {
	for w := range a {
		if !b[w] {
			return false
		}
	}
	return true
}

// live lists the workers that have not finished.
func (s *scheduler) live() (out []*worker) {
	for _, w := range s.workers {
		if !w.done {
			out = append(out, w)
		}
	}
	return
}

// run performs the workers' functions under the schedule.
func (s *scheduler) run(fs []func(), choices []int, starve bool) error {
	s.events = make(chan event, 64)
	running := map[*worker]bool{}
	var start sync.WaitGroup
	start.Add(len(fs))
	for i, f := range fs {
		w := &worker{id: i, resume: make(chan struct{})}
		s.workers = append(s.workers, w)
		running[w] = true
		go func() {
			w.goid = goid()
			s.byGoid.Store(w.goid, w)
			start.Done()
			s.events <- event{w, false}
			<-w.resume
			f()
			s.events <- event{w, true}
		}()
	}
	start.Wait()
	s.on.Store(true)
	defer s.on.Store(false)
	take := func(e event) {
		delete(running, e.w)
		e.w.parked, e.w.done = !e.done, e.done
	}
	step := 0
	var last *worker
	var waited map[*worker]bool // who waited for a lock before the last step
	for {
		// let the running ones come to a stop
		var stacks []string
		for spin := 0; len(running) > 0; spin++ {
			select {
			case e := <-s.events:
				take(e)
				spin = 0
				continue
			default:
			}
			if spin < 60 {
				runtime.Gosched()
				continue
			}
			if len(running) < len(s.live()) { // others could go on
				if quiet() && quiet() && len(s.events) == 0 {
					break
				}
				if spin%64 > 0 { // no Gosched, which would keep the processors awake
					continue
				}
			}
			ids := map[string]bool{}
			for w := range running {
				ids[w.goid] = true
			}
			var n int
			if n, stacks = statesOf(ids); n == len(running) && len(s.events) == 0 {
				break
			}
			time.Sleep(10 * time.Microsecond)
		}
		var ready []*worker
		for _, w := range s.workers {
			if w.parked {
				ready = append(ready, w)
			}
		}
		if len(ready) == 0 {
			if len(running) == 0 {
				return nil
			}
			stuck.Lock()
			for w := range running {
				stuck.ids[w.goid] = true
			}
			stuck.Unlock()
			return fmt.Errorf("deadlock: %d workers wait for ever under this schedule:\n%s", len(running), clip(strings.Join(stacks, "\n\n"), 3500))
		}
		if len(running) > 0 {
			s.blocked++
			if starve && !subset(running, waited) {
				time.Sleep(1100 * time.Microsecond)
			}
		}
		waited = maps.Clone(running)
		k := 0
		if step < len(choices) {
			k = choices[step] % len(ready)
		}
		step++
		w := ready[k]
		if last != nil && w != last && last.parked {
			s.switches++
		}
		last = w
		w.parked = false
		running[w] = true
		w.resume <- struct{}{}
	}
}

// ---- running a case

type linRec struct {
	op       COp
	id       string
	inv, ret int64
	out      string
}

func runConc(mk func(c CCase, s *scheduler) (conSys, error), check func(conSys) error) func(CCase, *R) error {
	return func(c CCase, r *R) error {
		reps := c.Reps
		if reps == 0 {
			reps = 1
		}
		for rep := 0; rep < reps; rep++ {
			if err := runConcOnce(mk, check, c, r); err != nil {
				return err
			}
		}
		return nil
	}
}

func runConcOnce(mk func(c CCase, s *scheduler) (conSys, error), check func(conSys) error, c CCase, r *R) error {
	s := &scheduler{mode: c.Mode}
	sys, err := mk(c, s)
	if err != nil {
		return err
	}
	m := sys.model()
	for i, o := range c.Setup {
		id := fmt.Sprintf("s%d", i)
		got, want := sys.do(o, id), m.step(o, id)
		if got != want {
			return fmt.Errorf("before the workers start: %s gives %s, want %s", showOp(o), got, want)
		}
	}
	recs := make([][]linRec, len(c.Work))
	panics := make([]string, len(c.Work))
	var fs []func()
	race := c.Mode == "race"
	for i, ops := range c.Work {
		recs[i] = make([]linRec, len(ops))
		fs = append(fs, func() {
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 4096)
					panics[i] = fmt.Sprintf("panic: %v\n%s", p, buf[:runtime.Stack(buf, false)])
				}
			}()
			for k, o := range ops {
				rec := &recs[i][k]
				rec.op, rec.id = o, fmt.Sprintf("w%d.%d", i, k)
				if !c.Rush || k == 0 {
					s.yield()
				}
				if !race {
					rec.inv = s.clock.Add(1)
				}
				rec.out = sys.do(o, rec.id)
				if !race {
					rec.ret = s.clock.Add(1)
				}
			}
		})
	}
	if c.Mode == "sched" {
		if err := s.run(fs, c.Sched, c.Starve); err != nil {
			return err
		}
		r.LabelIf(s.blocked > 0, "a worker waited for a lock")
		if s.switches > 0 {
			r.NonTrivial()
		}
	} else {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for _, f := range fs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				f()
			}()
		}
		close(gate)
		wg.Wait()
		if len(c.Work) > 1 {
			r.NonTrivial()
		}
	}
	r.Label("mode " + c.Mode)
	for i, p := range panics {
		if p != "" {
			return fmt.Errorf("worker %d: %s", i, p)
		}
	}
	if check == nil {
		check = func(conSys) error { return nil }
	}
	if race {
		return check(sys)
	}
	var all []linRec
	for _, rs := range recs {
		all = append(all, rs...)
	}
	end := COp{Op: "final"}
	inv := s.clock.Add(1)
	all = append(all, linRec{op: end, id: "final", inv: inv, ret: inv + 1, out: sys.do(end, "final")})
	if !linearizable(m, all) {
		var sb strings.Builder
		sort.Slice(all, func(i, j int) bool { return all[i].inv < all[j].inv })
		for _, a := range all {
			fmt.Fprintf(&sb, "  %s %s [%d,%d] = %s\n", a.id, showOp(a.op), a.inv, a.ret, a.out)
		}
		return fmt.Errorf("no order of these operations explains their results (brackets: number of the call and of the return):\n%s", sb.String())
	}
	return check(sys)
}

func showOp(o COp) string {
	if len(o.L) > 0 {
		return fmt.Sprintf("%s(%d,%d,%v)", o.Op, o.U, o.V, o.L)
	}
	return fmt.Sprintf("%s(%d,%d)", o.Op, o.U, o.V)
}

// linearizable searches for an order of the operations that respects real
// time and gives every operation the result it had.
func linearizable(init conModel, ops []linRec) bool {
	n := len(ops)
	seen := map[string]bool{}
	var rec func(done uint64, m conModel) bool
	rec = func(done uint64, m conModel) bool {
		if done == 1<<n-1 {
			return true
		}
		k := fmt.Sprintf("%x|%s", done, m.key())
		if seen[k] {
			return false
		}
		seen[k] = true
		first := int64(1) << 62
		for i, o := range ops {
			if done&(1<<i) == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if done&(1<<i) != 0 || o.inv > first {
				continue
			}
			x := m.clone()
			if x.step(o.op, o.id) == o.out && rec(done|1<<i, x) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

// ---- hooks

// hUID is a UID that yields when it is read.
type hUID struct {
	s *scheduler
	u string
}

func (u hUID) String() string {
	u.s.yield()
	return u.u
}

var _ uuid.UID = hUID{}

// hEnt is an entity that yields when it is read.
type hEnt struct {
	s   *scheduler
	u   string
	typ string
	a   attrs.Attrs
}

func (e hEnt) UID() uuid.UID      { e.s.yield(); return hUID{e.s, e.u} }
func (e hEnt) Type() string       { return e.typ }
func (e hEnt) Attrs() attrs.Attrs { e.s.yield(); return e.a }

func join(ss []string) string {
	sort.Strings(ss)
	return "[" + strings.Join(ss, " ") + "]"
}
