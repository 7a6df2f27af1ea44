package harness

import (
	"errors"
	"fmt"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

// A case that deadlocks or never ends is recognised by what its goroutines
// are doing, never by how long it takes on the wall clock:
//
//   - deadlock: in four stop-the-world snapshots in a row a goroutine inside
//     netscrape waits for a lock and no goroutine of the case can run.
//   - no end: the case has used cpuBudget seconds of CPU (cases use
//     milliseconds) and is still inside netscrape in every snapshot.

const cpuBudget = 60 * time.Second

const pkgPath = "github.com/milosgajdos/netscrape"

type gor struct {
	id     string
	state  string
	bubble bool
	// bubbleID is what the state says of the bubble, empty outside bubbles.
	bubbleID string
	stack    string
}

var dumps = sync.Pool{New: func() any { b := make([]byte, 1<<20); return &b }}

// dump is the text of all goroutines, in one stop-the-world.
func dump() string {
	p := dumps.Get().(*[]byte)
	defer dumps.Put(p)
	for {
		if n := runtime.Stack(*p, true); n < len(*p) {
			return string((*p)[:n])
		}
		*p = make([]byte, 2*len(*p))
	}
}

// header takes the number and the state from a goroutine's dump.
func header(blk string) (id, state string, ok bool) {
	rest, ok := strings.CutPrefix(blk, "goroutine ")
	if !ok {
		return
	}
	line, _, _ := strings.Cut(rest, "\n")
	id, state, ok = strings.Cut(line, " ")
	if !ok {
		return
	}
	if _, state, ok = strings.Cut(state, "["); !ok {
		return
	}
	state, _, ok = strings.Cut(state, "]:")
	return
}

// snapshot lists all goroutines in one stop-the-world dump.
func snapshot() []gor {
	var gs []gor
	for _, blk := range strings.Split(dump(), "\n\n") {
		id, st, ok := header(blk)
		if !ok {
			continue
		}
		g := gor{id: id, stack: blk, bubble: strings.Contains(st, "synctest bubble")}
		if i := strings.Index(st, "synctest bubble"); i >= 0 {
			g.bubbleID = st[i:]
		}
		if i := strings.IndexByte(st, ','); i >= 0 {
			st = st[:i]
		}
		g.state = strings.TrimSuffix(st, " (durable)")
		gs = append(gs, g)
	}
	return gs
}

func (g gor) inPkg() bool { return strings.Contains(g.stack, pkgPath) }

var reTop = regexp.MustCompile(`^goroutine [^\n]*\n([^\n]*)`)

// inSync tells whether the goroutine waits inside package sync. The state
// semacquire alone does not say so: the runtime's own semaphores show it too.
func (g gor) inSync() bool {
	m := reTop.FindStringSubmatch(g.stack)
	return m != nil && (strings.HasPrefix(m[1], "sync.") || strings.HasPrefix(m[1], "internal/sync."))
}

func (g gor) lockWait() bool {
	switch g.state {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock":
		return true
	case "semacquire":
		return g.inSync()
	}
	return false
}

// canRun tells whether the goroutine might go on by itself: it is so unless
// its state is known to be one that another goroutine or a timer has to end.
func (g gor) canRun() bool {
	switch g.state {
	case "chan receive", "chan send", "select", "chan receive (nil chan)", "chan send (nil chan)", "select (no cases)",
		"sync.Cond.Wait", "sync.WaitGroup.Wait", "synctest.Run", "synctest.Wait":
		return false
	case "sleep":
		return !g.bubble
	}
	return !g.lockWait()
}

// stuck remembers the goroutines of cases already found deadlocked, which
// stay around for ever.
var stuck struct {
	sync.Mutex
	ids map[string]bool
}

func init() { stuck.ids = map[string]bool{} }

func ofCase(g gor) bool {
	if strings.Contains(g.stack, "harness.deadlocked(") {
		return false // the one looking; a scheduler's own snapshot counts as going on
	}
	if strings.Contains(g.stack, "harness.") && strings.Contains(g.stack, "verif/harness") || g.inPkg() {
		return true
	}
	return g.bubble
}

var reAge = regexp.MustCompile(`, \d+ minutes`)

// deadlocked reports the goroutines of a deadlock, if the case is in one.
// The last result is equal for two looks only if no goroutine moved between.
func deadlocked() (string, []string, string) {
	var ids, sts []string
	var locked []string
	stuck.Lock()
	defer stuck.Unlock()
	for _, g := range snapshot() {
		if stuck.ids[g.id] || !ofCase(g) {
			continue
		}
		if strings.Contains(g.stack, "harness.(*H).supervised(") || strings.Contains(g.stack, "harness.(*H).rapidCheck(") && !strings.Contains(g.stack, "rapid.Check(") {
			continue // waits for the case
		}
		if g.canRun() {
			return "", nil, ""
		}
		if g.lockWait() && g.inPkg() {
			locked = append(locked, g.stack)
		}
		ids = append(ids, g.id)
		sts = append(sts, reAge.ReplaceAllString(g.stack, ""))
	}
	if len(locked) == 0 {
		return "", nil, ""
	}
	return strings.Join(locked, "\n\n"), ids, strings.Join(sts, "\n\n")
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// supervised runs f on a goroutine of its own and returns its error, or an
// error if f deadlocked or does not end.
func (h *H) supervised(f func() error) error {
	done := make(chan error, 1)
	go func() {
		fin := false
		defer func() {
			if !fin {
				done <- fmt.Errorf("the case's goroutine was ended (runtime.Goexit)")
			}
		}()
		err := safely(f)
		fin = true
		done <- err
	}()
	start := cpuTime()
	tick := time.NewTimer(300 * time.Millisecond)
	defer tick.Stop()
	prev, same, busy := "", 0, 0
	for {
		select {
		case err := <-done:
			return err
		case <-tick.C:
		}
		what, ids, key := deadlocked()
		if what != "" && key == prev {
			same++
		} else {
			same = 0
		}
		if same >= 3 {
			// the case may have ended between the two looks
			select {
			case err := <-done:
				return err
			default:
			}
			stuck.Lock()
			for _, id := range ids {
				stuck.ids[id] = true
			}
			stuck.Unlock()
			return fmt.Errorf("deadlock: no goroutine of this case can go on; waiting for locks:\n%s", clip(what, 4000))
		}
		prev = ""
		if what != "" {
			prev = key
		}
		if cpuTime()-start > cpuBudget {
			in := ""
			for _, g := range snapshot() {
				if g.inPkg() && !stuck.ids[g.id] {
					in = g.stack
				}
			}
			if in != "" {
				if busy++; busy >= 5 {
					return fmt.Errorf("%w: the case has used %v of CPU and is still inside netscrape:\n%s", errNoEnd, cpuBudget, clip(in, 3000))
				}
			}
		}
		tick.Reset(200 * time.Millisecond)
	}
}

var errNoEnd = errors.New("no end")

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
