package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	"github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"pgregory.net/rapid"
)

func init() {
	register("D01",
		Part("scripted", 24000, 600000,
			"at least two messages were received by one digest call or two calls were made on one digester",
			genDigest, runDigest),
		Part("broker", 8000, 200000,
			"a digester handled at least two messages of a real broker",
			genDigB, runDigB))
}

// DgCase is a history of digest calls on one digester, whose subscribers
// follow a script.
type DgCase struct {
	Made  []DOpt  `json:"made,omitempty"`
	Calls []DCall `json:"calls"`
	Conc  bool    `json:"conc,omitempty"` // the calls run at the same time
}

// DOpt is an option: handler H, or no handler but an unmarshaler.
type DOpt struct {
	H int `json:"h"` // -1: another option
}

// DCall is one digest call.
type DCall struct {
	Opts  []DOpt  `json:"opts,omitempty"`
	Steps []DStep `json:"steps"`
	End   int     `json:"end"` // the error the subscriber ends with
	Ended bool    `json:"ended,omitempty"`
	Full  bool    `json:"full,omitempty"` // standard output takes nothing
}

// DStep is one Receive.
type DStep struct {
	Msgs []string `json:"msgs"`
	Kind int      `json:"kind,omitempty"` // of the message's other parts
	// Fail: the handler of the last message fails
	Fail bool `json:"fail,omitempty"`
	// Err: which error the handler returns
	Err int `json:"err,omitempty"`
	// Pad: the length of what is added to the last message's data
	Pad int `json:"pad,omitempty"`
	// Cancel: the handler of the last message ends the context
	Cancel bool `json:"cancel,omitempty"`
	// Eager: the subscriber does not look at the context
	Eager bool `json:"eager,omitempty"`
}

func drawDOpts(t *rapid.T, label string) []DOpt {
	return drawList(t, label, 0, 2, func(t *rapid.T) DOpt { return DOpt{uni(t, 4, "h") - 1} })
}

func genDigest(t *rapid.T) DgCase {
	c := DgCase{Made: drawDOpts(t, "made")}
	c.Conc = pct(t, 20, "conc")
	c.Calls = drawList(t, "calls", 1, 4, func(t *rapid.T) DCall {
		d := DCall{Opts: drawDOpts(t, "opts")}
		d.Steps = drawList(t, "steps", 0, 8, func(t *rapid.T) DStep {
			s := DStep{Kind: uni(t, 12, "kind")}
			n := 1
			switch uni(t, 10, "n") {
			case 8:
				n = 0
			case 9:
				n = 2
			}
			for i := 0; i < n; i++ {
				s.Msgs = append(s.Msgs, drawStr(t, "data"))
			}
			if n > 0 && pct(t, 3, "pad?") {
				s.Pad = pick(t, "pad", near(1<<18, 1, 100, 4096, 32768, 65535, 65536, 65537, 1<<17))
			}
			if s.Fail = pct(t, 6, "fail"); s.Fail {
				s.Err = uni(t, len(hErrs), "herr")
			}
			s.Cancel = pct(t, 6, "cancel")
			s.Eager = pct(t, 60, "eager")
			return s
		})
		d.End = uni(t, len(dEnds), "end")
		d.Ended = pct(t, 4, "ended")
		d.Full = pct(t, 5, "full")
		return d
	})
	return c
}

var dEnds = []error{errors.New("the subscriber is at its end"), broker.ErrTimeout, broker.ErrSubscriptionInactive, fmt.Errorf("wrapped: %w", io.EOF),
	context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, os.ErrClosed, broker.ErrNotConnected, broker.ErrTopicNotExist, fmt.Errorf("wrapped: %w", broker.ErrTimeout)}

// hErrs are errors that handlers return.
var hErrs = []error{nil, context.Canceled, context.DeadlineExceeded, io.EOF, broker.ErrTimeout, broker.ErrSubscriptionInactive, broker.ErrNotConnected, broker.ErrNotImplemented, fmt.Errorf("wrapped: %w", context.Canceled)}

// fakeSub is a subscriber that follows a script.
type fakeSub struct {
	call  *DCall
	n     int
	at    int
	over  bool
	calls int
	after bool // the context has ended
	ctxs  []context.Context
	sent  int
	ended bool // someone has unsubscribed
}

func (s *fakeSub) ID(context.Context) (string, error) { return fmt.Sprint("fake ", s.n), nil }

func (s *fakeSub) Topic(context.Context, ...broker.Option) (string, error) { return "fake", nil }

func (s *fakeSub) Unsubscribe(context.Context, ...broker.Option) error {
	s.ended = true
	return nil
}

func (s *fakeSub) Receive(ctx context.Context, h broker.Handler, opts ...broker.Option) error {
	s.calls++
	if s.calls > len(s.call.Steps)+3 {
		panic("the digester goes on receiving after the subscriber has failed")
	}
	s.ctxs = append(s.ctxs, ctx)
	runtime.Gosched()
	if s.over || s.at >= len(s.call.Steps) {
		s.over = true
		return dEnds[s.call.End]
	}
	st := s.call.Steps[s.at]
	if !st.Eager && ctx.Err() != nil {
		return ctx.Err()
	}
	s.at++
	for i := range st.Msgs {
		d := st.data(i)
		s.sent++
		if err := h(ctx, dMsg(d, st.Kind+i, s.sent)); err != nil {
			return err
		}
	}
	return nil
}

func dMsg(data string, kind, n int) broker.Message {
	m := broker.Message{UID: fmt.Sprintf("u%d", n), Type: broker.Type(kind%7 - 1), Data: []byte(data)}
	if kind%5 == 4 && data == "" {
		m.Data = nil
	}
	if kind%3 == 2 {
		m.Attrs = map[string]string{"a": data}
	}
	return m
}

// dSeen is what the handlers saw during one call.
type dSeen struct {
	mu   sync.Mutex
	got  []string
	msgs []broker.Message
}

func handlerName(opts ...[]DOpt) int {
	h := -1
	for _, l := range opts {
		for _, o := range l {
			if o.H >= 0 {
				h = o.H
			}
		}
	}
	return h
}

type nopUnmarshaler struct{}

func (nopUnmarshaler) Unmarshal([]byte, interface{}) error { return errors.New("not to be called") }

type dKey struct{}

// runDigest runs the calls and compares what they did with their scripts.
func runDigest(c DgCase, r *R) error {
	type callRun struct {
		sub    *fakeSub
		ctx    context.Context
		cancel context.CancelFunc
		seen   [4][]broker.Message // by handler
		ctxOK  bool
		err    error
		herr   error
		out    string
	}
	runs := make([]*callRun, len(c.Calls))
	// a handler finds the call it works for in its context, as the fake
	// subscriber hands on the context it was given
	mk := func(h int) broker.Handler {
		return func(ctx context.Context, m broker.Message) error {
			i, ok := ctx.Value(dKey{}).(int)
			if !ok {
				return errors.New("not the caller's context")
			}
			x := runs[i]
			m.Data = append([]byte(nil), m.Data...)
			x.seen[h] = append(x.seen[h], m)
			st := x.sub.call.Steps[x.sub.at-1]
			if m.UID == fmt.Sprintf("u%d", lastOf(x.sub.call, x.sub.at)) {
				if st.Cancel {
					x.cancel()
					x.sub.after = true
				}
				if st.Fail {
					if x.herr = hErrs[st.Err]; x.herr == nil {
						x.herr = fmt.Errorf("handler %d failed", h)
					}
					return x.herr
				}
			}
			return nil
		}
	}
	opts := func(l []DOpt) (out []digester.Option) {
		for _, o := range l {
			if o.H < 0 {
				out = append(out, digester.WithMarshaler(nopUnmarshaler{}))
			} else {
				out = append(out, digester.WithHandler(mk(o.H)))
			}
		}
		return out
	}
	d, err := simple.NewDigester(opts(c.Made)...)
	if err != nil {
		return err
	}
	one := func(i int) {
		x := runs[i]
		x.err = safely(func() error { return d.Digest(x.ctx, x.sub, opts(c.Calls[i].Opts)...) })
	}
	dumps := 0
	for i := range c.Calls {
		x := &callRun{sub: &fakeSub{call: &c.Calls[i], n: i}}
		x.ctx, x.cancel = context.WithCancel(context.WithValue(context.Background(), dKey{}, i))
		defer x.cancel()
		if c.Calls[i].Ended {
			x.cancel()
			x.sub.after = true
		}
		runs[i] = x
		if handlerName(c.Made, c.Calls[i].Opts) < 0 {
			dumps++
		}
	}
	conc := c.Conc && dumps <= 1 && len(c.Calls) > 1
	if conc {
		var wg sync.WaitGroup
		start := make(chan struct{})
		all := func() {
			for i := range c.Calls {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					one(i)
				}()
			}
			close(start)
			wg.Wait()
		}
		out, err := stdout(false, all)
		if err != nil {
			return err
		}
		for i := range c.Calls {
			if handlerName(c.Made, c.Calls[i].Opts) < 0 {
				runs[i].out = out
				out = ""
			}
		}
		if out != "" {
			return fmt.Errorf("%q was written to standard output though every call had a handler", clip(out, 300))
		}
	}
	for i, call := range c.Calls {
		x := runs[i]
		h := handlerName(c.Made, call.Opts)
		full := call.Full && h < 0 && !conc
		if !conc {
			if x.out, err = stdout(full, func() { one(i) }); err != nil {
				return err
			}
		}
		// what has to happen
		var want []broker.Message
		var stop error
		n, stopped, written := 0, call.Ended, ""
		for _, st := range call.Steps {
			if stopped {
				break
			}
			for k := range st.Msgs {
				data := st.data(k)
				n++
				last := k == len(st.Msgs)-1
				want = append(want, dMsg(data, st.Kind+k, n))
				written += data
				if full && data != "" {
					stop = syscall.ENOSPC
					break
				}
				if h < 0 {
					continue
				}
				if last && st.Cancel {
					stopped = true
				}
				if last && st.Fail {
					stop = x.herr
					if stop == nil {
						stop = errors.New("a handler that was not called")
					}
				}
			}
			if stop != nil || stopped {
				break
			}
		}
		what := fmt.Sprintf("call %d", i)
		if x.err == nil {
			return fmt.Errorf("%s: returned no error", what)
		}
		if x.err != nil && strings.HasPrefix(x.err.Error(), "panic: ") {
			return fmt.Errorf("%s: %v", what, x.err)
		}
		switch {
		case stop != nil && stopped:
			if !errors.Is(x.err, stop) && !errors.Is(x.err, context.Canceled) {
				return fmt.Errorf("%s: returned %v, want %v or the context's error", what, x.err, stop)
			}
		case stop != nil:
			if !errors.Is(x.err, stop) {
				return fmt.Errorf("%s: returned %v, want the handler's error %v", what, x.err, stop)
			}
		case stopped:
		default:
			if !errors.Is(x.err, dEnds[call.End]) {
				return fmt.Errorf("%s: returned %v, want the subscriber's error %v", what, x.err, dEnds[call.End])
			}
			if x.sub.at < len(call.Steps) {
				return fmt.Errorf("%s: received %d of %d times", what, x.sub.at, len(call.Steps))
			}
		}
		for g := range x.seen {
			w := want
			if g != h {
				w = nil
			}
			if err := sameMsgs(x.seen[g], w); err != nil {
				return fmt.Errorf("%s: handler %d (handler %d is in effect, -1 for none): %v", what, g, h, err)
			}
		}
		if h < 0 {
			if full {
				written = ""
			}
			if x.out != written {
				return fmt.Errorf("%s: wrote %q to standard output, want %q", what, clip(x.out, 300), clip(written, 300))
			}
			if n > 0 {
				r.Label("dumped")
			}
			r.LabelIf(full && stop != nil, "standard output full")
		} else if x.out != "" && !conc {
			return fmt.Errorf("%s: wrote %q to standard output though it has a handler", what, clip(x.out, 300))
		}
		for _, ctx := range x.sub.ctxs {
			if v, ok := ctx.Value(dKey{}).(int); !ok || v != i {
				return fmt.Errorf("%s: received with a context that is not the caller's", what)
			}
		}
		if x.sub.ended {
			return fmt.Errorf("%s: the digester has ended the caller's subscription", what)
		}
		if n >= 2 || len(c.Calls) > 1 {
			r.NonTrivial()
		}
		r.LabelIf(stop != nil && h >= 0, "handler failed")
		r.LabelIf(stopped, "context ended")
		r.LabelIf(conc, "concurrent")
		r.LabelIf(len(c.Made) > 0 && handlerName(c.Made) >= 0 && h != handlerName(c.Made), "call's handler over the digester's")
	}
	return nil
}

// data is the data of message i.
func (s DStep) data(i int) string {
	if i == len(s.Msgs)-1 && s.Pad > 0 {
		return s.Msgs[i] + strings.Repeat("0123456789abcdef\n", s.Pad/17+1)[:s.Pad]
	}
	return s.Msgs[i]
}

// lastOf is the number of the last message of the first n steps.
func lastOf(c *DCall, n int) int {
	k := 0
	for _, s := range c.Steps[:n] {
		k += len(s.Msgs)
	}
	return k
}

func sameMsgs(got, want []broker.Message) error {
	for i := range got {
		if i >= len(want) {
			return fmt.Errorf("message %s was handled, but only %d were to be handled", got[i].UID, len(want))
		}
		if !sameMsg(got[i], want[i]) {
			return fmt.Errorf("handled %s, want %s", showMsg(got[i]), showMsg(want[i]))
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%d messages were handled, want %d: %s was not", len(got), len(want), showMsg(want[len(got)]))
	}
	return nil
}

func showMsg(m broker.Message) string {
	return fmt.Sprintf("{%s type %d %q %q}", m.UID, m.Type, clip(string(m.Data), 100), m.Attrs)
}

// stdout runs f with the process's standard output going to a file, and
// returns what was written there. If full, nothing can be written.
func stdout(full bool, f func()) (string, error) {
	path := ""
	var to *os.File
	var err error
	if full {
		to, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	} else {
		to, err = os.CreateTemp("", "stdout")
		if err == nil {
			path = to.Name()
			defer os.Remove(path)
		}
	}
	must(err)
	defer to.Close()
	saved, err := syscall.Dup(1)
	must(err)
	must(syscall.Dup3(int(to.Fd()), 1, 0))
	func() {
		defer func() {
			must(syscall.Dup3(saved, 1, 0))
			must(syscall.Close(saved))
		}()
		f()
	}()
	if full {
		return "", nil
	}
	b, err := os.ReadFile(path)
	must(err)
	return string(b), nil
}

// ---- with the real broker

// DBCase is a history of digesters on one topic of a broker.
type DBCase struct {
	Cap  int   `json:"cap"`
	Evs  []DEv `json:"evs"`
	Msgs []DBM `json:"msgs"`
}

// DBM is a message: when it is published (after the one before) and what its
// handler does.
type DBM struct {
	Gap int    `json:"gap"`
	H   string `json:"h,omitempty"`
	HMs int    `json:"hms,omitempty"`
}

// DEv starts or stops something. Times are in milliseconds.
type DEv struct {
	Gap   int    `json:"gap"`
	Op    string `json:"op"`
	S     int    `json:"s,omitempty"`
	CtxMs int    `json:"ctxms,omitempty"`
	Made  bool   `json:"made,omitempty"`
}

func genDigB(t *rapid.T) DBCase {
	gaps := []int{0, 0, 1, 3, 40, 700, 2600, 4999, 5000, 5001, 9000}
	c := DBCase{Cap: pick(t, "cap", []int{100, 100, 3, 1, 0, -1})}
	c.Evs = drawList(t, "evs", 1, 8, func(t *rapid.T) DEv {
		e := DEv{Gap: pick(t, "gap", gaps), Op: pick(t, "op", []string{"digest", "digest", "digest", "cancel", "unsub", "close"})}
		e.S = uni(t, 4, "s")
		e.Made = uni(t, 2, "made") == 1
		if e.Op == "digest" && pct(t, 35, "deadline") {
			e.CtxMs = pick(t, "ctxms", []int{1, 5, 900, 3000, 4999, 5000, 5001, 8000, 20000})
		}
		return e
	})
	c.Msgs = drawList(t, "msgs", 0, 12, func(t *rapid.T) DBM {
		m := DBM{Gap: pick(t, "gap", gaps)}
		m.H = pick(t, "h", []string{"", "", "", "", "slow", "slow", "slow", "err", "cancel", "unsub", "close"})
		if pct(t, 10, "plain") {
			m.H = ""
		}
		if m.H == "slow" || m.H == "err" && pct(t, 30, "slowerr") {
			m.HMs = pick(t, "hms", []int{1, 40, 800, 5000, 6000})
		}
		return m
	})
	return c
}

type dHandled struct {
	msg        int
	start, end time.Duration
	herr       error
	by         *digRun
}

type digRun struct {
	n       int
	sub     broker.Subscriber
	ctx     context.Context
	cancel  context.CancelFunc
	start   time.Duration
	stop    time.Duration // -1: nothing has made it stop
	why     string
	stopped bool // by its own handler: nothing may be handled any more
	end     time.Duration
	err     error
	handled []*dHandled
	bad     error
}

func runDigB(c DBCase, r *R) error {
	return bubble(r, func() error {
		base := time.Now()
		now := func() time.Duration { return time.Since(base) }
		b, err := membroker.New(broker.WithCap(c.Cap), broker.WithPubTimeout(time.Hour))
		must(err)
		must(b.Open(context.Background()))
		const topic = "t"
		var mu sync.Mutex
		var digs []*digRun
		closed := time.Duration(-1)
		stopAt := func(d *digRun, why string, t time.Duration) {
			if d.stop < 0 || t < d.stop {
				d.stop, d.why = t, why
			}
		}
		closeAll := func() {
			mu.Lock()
			if closed < 0 {
				closed = now()
			}
			for _, d := range digs {
				stopAt(d, "the broker closed", now())
			}
			mu.Unlock()
			must(b.Close())
		}
		defer func() {
			for _, d := range digs {
				d.cancel()
			}
			_ = b.Close()
			time.Sleep(2 * time.Hour)
		}()
		total := make([]*dHandled, len(c.Msgs))
		mk := func(d *digRun) broker.Handler {
			return func(ctx context.Context, m broker.Message) error {
				var i int
				if _, err := fmt.Sscanf(m.UID, "m%d", &i); err != nil || i >= len(c.Msgs) || !sameMsg(m, mkMsg(i)) {
					mu.Lock()
					d.bad = fmt.Errorf("digester %d handled a message nobody published: %s", d.n, showMsg(m))
					mu.Unlock()
					return nil
				}
				x := &dHandled{msg: i, start: now(), by: d}
				mu.Lock()
				if ctx == nil || ctx.Value(bCtxKey{}) != d {
					d.bad = fmt.Errorf("digester %d handled message %d under a context without the values of its own", d.n, i)
				} else if d.ctx.Err() != nil && ctx.Err() == nil {
					d.bad = fmt.Errorf("digester %d handled message %d under a context that outlives its own", d.n, i)
				}
				if total[i] != nil && d.bad == nil {
					d.bad = fmt.Errorf("message %d was handled twice", i)
				}
				if d.stopped && d.bad == nil {
					d.bad = fmt.Errorf("digester %d handled message %d after %s", d.n, i, d.why)
				}
				total[i] = x
				d.handled = append(d.handled, x)
				mu.Unlock()
				ms := c.Msgs[i]
				if ms.HMs > 0 {
					time.Sleep(time.Duration(ms.HMs)*time.Millisecond + time.Duration(i+1)*1013*time.Nanosecond)
				}
				switch ms.H {
				case "err":
					x.herr = fmt.Errorf("handler of message %d", i)
				case "cancel":
					d.cancel()
					mu.Lock()
					stopAt(d, "its context was cancelled", now())
					d.stopped = true
					mu.Unlock()
				case "unsub":
					must(d.sub.Unsubscribe(context.Background()))
					mu.Lock()
					stopAt(d, "its subscription ended", now())
					d.stopped = true
					mu.Unlock()
				case "close":
					closeAll()
					mu.Lock()
					d.stopped = true
					mu.Unlock()
				}
				x.end = now()
				return x.herr
			}
		}
		// the publisher
		type pubbed struct {
			start, end time.Duration
			err        error
		}
		pubs := make([]pubbed, len(c.Msgs))
		pubDone := make(chan struct{})
		for i := range pubs {
			pubs[i] = pubbed{-1, -1, nil}
		}
		go func() {
			defer close(pubDone)
			for i, m := range c.Msgs {
				time.Sleep(time.Duration(m.Gap)*time.Millisecond + time.Duration(i+1)*tick + 3)
				pubs[i].start = now()
				pubs[i].err = b.Pub(context.Background(), topic, mkMsg(i))
				pubs[i].end = now()
			}
		}()
		for i, ev := range c.Evs {
			time.Sleep(time.Duration(ev.Gap)*time.Millisecond + time.Duration(i+1)*tick)
			switch ev.Op {
			case "digest":
				d := &digRun{n: len(digs), start: now(), stop: -1, end: -1}
				d.ctx, d.cancel = context.WithCancel(context.Background())
				if ev.CtxMs > 0 {
					to := time.Duration(ev.CtxMs)*time.Millisecond + half
					d.cancel()
					d.ctx, d.cancel = context.WithTimeout(context.Background(), to)
					stopAt(d, "its context ended", now()+to)
				}
				d.ctx = context.WithValue(d.ctx, bCtxKey{}, d)
				sub, err := b.Sub(context.Background(), topic)
				if closed >= 0 {
					d.cancel()
					continue // nothing to subscribe to
				}
				must(err)
				d.sub = sub
				other := func(context.Context, broker.Message) error {
					mu.Lock()
					d.bad = fmt.Errorf("digester %d used the handler it was made with, not the call's", d.n)
					mu.Unlock()
					return nil
				}
				var dopts, copts []digester.Option
				if ev.Made {
					dopts = append(dopts, digester.WithHandler(mk(d)))
				} else {
					copts = append(copts, digester.WithHandler(mk(d)))
					if ev.S%2 == 1 {
						dopts = append(dopts, digester.WithHandler(other))
					}
				}
				dg, err := simple.NewDigester(dopts...)
				must(err)
				mu.Lock()
				digs = append(digs, d)
				mu.Unlock()
				go func() {
					d.err = safely(func() error { return dg.Digest(d.ctx, d.sub, copts...) })
					d.end = now()
				}()
			case "cancel":
				if len(digs) > 0 {
					d := digs[ev.S%len(digs)]
					mu.Lock()
					stopAt(d, "its context was cancelled", now())
					mu.Unlock()
					d.cancel()
				}
			case "unsub":
				if len(digs) > 0 {
					d := digs[ev.S%len(digs)]
					mu.Lock()
					stopAt(d, "its subscription ended", now())
					mu.Unlock()
					must(d.sub.Unsubscribe(context.Background()))
				}
			case "close":
				closeAll()
			}
			synctest.Wait()
		}
		time.Sleep(3 * time.Minute) // everybody is idle for five seconds by then
		synctest.Wait()
		for _, d := range digs {
			if d.bad != nil {
				return d.bad
			}
			if d.end < 0 {
				return fmt.Errorf("digester %d has not returned, though %s", d.n, map[bool]string{true: d.why, false: "there was no message for minutes"}[d.stop >= 0])
			}
			if d.err != nil && strings.HasPrefix(d.err.Error(), "panic: ") {
				return fmt.Errorf("digester %d: %v", d.n, d.err)
			}
			if d.err == nil {
				return fmt.Errorf("digester %d returned no error", d.n)
			}
			idle, prev := d.start, -1
			for k, x := range d.handled {
				if x.msg < prev {
					return fmt.Errorf("digester %d handled message %d after message %d", d.n, x.msg, prev)
				}
				if d.stop >= 0 && x.start > d.stop {
					return fmt.Errorf("digester %d handled message %d at %v, but %s at %v", d.n, x.msg, x.start, d.why, d.stop)
				}
				if x.start < idle {
					return fmt.Errorf("digester %d handled message %d while it was handling another", d.n, x.msg)
				}
				if x.start > idle+defTO {
					return fmt.Errorf("digester %d handled message %d after being idle for %v", d.n, x.msg, x.start-idle)
				}
				if k < len(d.handled)-1 && x.herr != nil {
					return fmt.Errorf("digester %d went on after the handler of message %d failed", d.n, x.msg)
				}
				idle, prev = x.end, x.msg
			}
			last := error(nil)
			if n := len(d.handled); n > 0 {
				last = d.handled[n-1].herr
				r.LabelIf(n > 1, "several messages")
				if n > 1 {
					r.NonTrivial()
				}
			}
			want, why := idle+defTO, "it was idle for the default timeout"
			switch {
			case last != nil:
				want, why = idle, "a handler failed"
				if !errors.Is(d.err, last) {
					return fmt.Errorf("digester %d returned %v, want the handler's error %v", d.n, d.err, last)
				}
				r.Label("handler failed")
			case d.stop >= 0 && d.stop <= idle:
				want, why = idle, d.why
				r.Label("stopped while handling")
			case d.stop >= 0 && d.stop <= idle+defTO:
				want, why = d.stop, d.why
				r.Label("stopped while idle")
			default:
				if !errors.Is(d.err, broker.ErrTimeout) {
					return fmt.Errorf("digester %d was idle for the default timeout and returned %v", d.n, d.err)
				}
				r.Label("timed out")
			}
			if d.end != want {
				return fmt.Errorf("digester %d returned at %v, but %s at %v", d.n, d.end, why, want)
			}
		}
		r.LabelIf(len(digs) > 1, "several digesters")
		// what is left goes to another subscription
		if closed < 0 {
			left, err := b.Sub(context.Background(), topic)
			must(err)
			for {
				synctest.Wait()
				wait := time.Hour
				select {
				case <-pubDone:
					wait = time.Second
				default: // the publisher has more
				}
				err := left.Receive(context.Background(), func(_ context.Context, m broker.Message) error {
					var i int
					if _, err := fmt.Sscanf(m.UID, "m%d", &i); err != nil {
						return err
					}
					if total[i] != nil {
						return fmt.Errorf("message %d was handled twice", i)
					}
					total[i] = &dHandled{msg: i, start: 1 << 62, end: 1 << 62}
					return nil
				}, broker.WithSubTimeout(wait))
				if errors.Is(err, broker.ErrTimeout) {
					break
				}
				if err != nil {
					return err
				}
			}
		}
		for i, p := range pubs {
			if p.start < 0 || p.err != nil || p.end < 0 {
				continue
			}
			at := time.Duration(1 << 62)
			if total[i] != nil {
				at = total[i].start
			} else if closed < 0 {
				if !tieAt(i, pubs[i].start, digs) {
					return fmt.Errorf("message %d was published at %v, but was handled by no digester and was not there afterwards", i, p.start)
				}
			}
			// nobody may have been idle meanwhile
			for _, d := range digs {
				idle := d.start
				for k := 0; k <= len(d.handled); k++ {
					until := d.end
					if k < len(d.handled) {
						until = d.handled[k].start
					}
					from, to := max(idle, p.start), min(until, at)
					if from < to {
						return fmt.Errorf("message %d was published at %v, and digester %d was idle from %v to %v, but it was not handled before %v", i, p.start, d.n, idle, until, at)
					}
					if k < len(d.handled) {
						idle = d.handled[k].end
					}
				}
			}
		}
		return nil
	})
}

// tieAt says whether a digester's receive timed out at the very instant the
// message was published, so that it may have been dropped.
func tieAt(i int, at time.Duration, digs []*digRun) bool {
	for _, d := range digs {
		if errors.Is(d.err, broker.ErrTimeout) && d.end == at {
			return true
		}
	}
	return false
}
