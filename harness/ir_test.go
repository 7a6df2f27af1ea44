package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"runtime"
	"sync"
	"time"

	netscrape "github.com/milosgajdos/netscrape"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/store"
	"pgregory.net/rapid"
)

func init() {
	register("I01",
		Part("ingests", 60000, 1500000,
			"at least two ingests were made with one ingester",
			genIngest, runIngest))
	register("R01",
		Part("runs", 60000, 1500000,
			"at least two runs were made with one runner, or a run gave options the runner had too",
			genRunner, runRunner))
}

// ---- the ingester

// InCase is a history of ingests with one ingester.
type InCase struct {
	Made  []InOpt  `json:"made,omitempty"`
	Calls []InCall `json:"calls"`
	Conc  bool     `json:"conc,omitempty"`
}

// InOpt is the option for marshaler M.
type InOpt struct {
	M int `json:"m"`
	// Out is what the marshaler returns: data, empty or nil; or it fails
	Out string `json:"out"`
}

// InCall is one ingest.
type InCall struct {
	Opts  []InOpt `json:"opts,omitempty"`
	Topic string  `json:"topic"`
	Type  int     `json:"type"`
	Data  InData  `json:"data"`
	Fail  int     `json:"fail,omitempty"` // the broker refuses
	Ctx   int     `json:"ctx,omitempty"`  // 1: with a deadline, 2: has ended, 3: past its deadline
}

// InData describes the data.
type InData struct {
	Kind string            `json:"kind"`
	S    string            `json:"s,omitempty"`
	N    int               `json:"n,omitempty"`
	F    W                 `json:"f,omitempty"`
	M    map[string]string `json:"m,omitempty"`
	L    []InData          `json:"l,omitempty"`
	Val  *Val              `json:"val,omitempty"`
}

func drawInData(t *rapid.T, depth int) InData {
	kinds := []string{"string", "int", "float", "bytes", "map", "nil", "bool", "struct", "ptr", "val", "raw", "bad", "rawmsg", "strptr", "mapptr", "valptr", "nilptr"}
	if depth < 2 {
		kinds = append(kinds, "list", "object", "list")
	}
	d := InData{Kind: pick(t, "kind", kinds)}
	switch d.Kind {
	case "string", "bytes", "ptr", "struct", "strptr", "mapptr", "nilptr":
		d.S = drawStr(t, "s")
		d.N = uni(t, 100, "n")
	case "int", "bool", "bad", "rawmsg":
		if d.Kind == "rawmsg" {
			d.S = drawStr(t, "s")
		}
		d.N = rapid.IntRange(-1<<40, 1<<40).Draw(t, "n")
	case "float":
		d.F = drawWeight(t, "f")
	case "map", "raw":
		d.M = drawMap(t, "m")
	case "val", "valptr":
		v := drawAnyVal(t)
		d.Val = &v
	case "list", "object":
		d.L = drawList(t, "l", 0, 4, func(t *rapid.T) InData { return drawInData(t, depth+1) })
	}
	return d
}

type inStruct struct {
	Name  string `json:"name"`
	Count int    `json:"count,omitempty"`
	Tags  []string
	inner int
}

type badJSON struct{}

var errBadJSON = errors.New("this value does not marshal")

func (badJSON) MarshalJSON() ([]byte, error) { return nil, errBadJSON }

type rawJSON struct{ m map[string]string }

func (r rawJSON) MarshalJSON() ([]byte, error) { return json.Marshal(r.m) }

func (d InData) build() any {
	switch d.Kind {
	case "string":
		return d.S
	case "bytes":
		return []byte(d.S)
	case "int":
		return d.N
	case "bool":
		return d.N%2 == 0
	case "float":
		return d.F.F()
	case "map":
		return copyMap(d.M)
	case "struct":
		return inStruct{d.S, d.N, []string{d.S}, d.N}
	case "ptr":
		return &inStruct{d.S, d.N, nil, d.N}
	case "raw":
		return rawJSON{copyMap(d.M)}
	case "val":
		return d.Val.build()
	case "strptr":
		return &d.S
	case "mapptr":
		m := map[string]string{d.S: d.S}
		return &m
	case "valptr":
		x := d.Val.build()
		return &x
	case "nilptr":
		switch d.N % 3 {
		case 0:
			return (*string)(nil)
		case 1:
			return (*inStruct)(nil)
		default:
			return map[string]string(nil)
		}
	case "bad":
		switch ((d.N % 4) + 4) % 4 {
		case 0:
			return make(chan int)
		case 1:
			return badJSON{}
		case 2:
			return math.NaN()
		default:
			return map[string]any{"f": func() {}}
		}
	case "rawmsg":
		b, err := json.Marshal(map[string]string{d.S: d.S})
		must(err)
		switch ((d.N % 4) + 4) % 4 {
		case 0:
			b = append([]byte(" \n "), b...)
		case 1:
			b = b[1:]
		case 2:
			b = append(b, b...)
		}
		return json.RawMessage(b)
	case "list":
		l := []any{}
		for _, x := range d.L {
			l = append(l, x.build())
		}
		return l
	case "object":
		m := map[string]any{}
		for i, x := range d.L {
			m[fmt.Sprintf("k%d\"<", i)] = x.build()
		}
		return m
	}
	return nil
}

func drawInOpts(t *rapid.T, label string) []InOpt {
	return drawList(t, label, 0, 2, func(t *rapid.T) InOpt {
		return InOpt{uni(t, 3, "m"), pick(t, "out", []string{"data", "data", "data", "space", "empty", "nil", "fail"})}
	})
}

func genIngest(t *rapid.T) InCase {
	c := InCase{Made: drawInOpts(t, "made"), Conc: pct(t, 20, "conc")}
	c.Calls = drawList(t, "calls", 1, 5, func(t *rapid.T) InCall {
		x := InCall{Opts: drawInOpts(t, "opts"), Topic: drawStr(t, "topic"), Type: uni(t, 8, "type") - 1, Data: drawInData(t, 0)}
		if pct(t, 15, "fail") {
			x.Fail = 1 + uni(t, len(inErrs)-1, "err")
		}
		if pct(t, 30, "ctx?") {
			x.Ctx = 1 + uni(t, 3, "ctx")
		}
		return x
	})
	return c
}

var inErrs = []error{nil, broker.ErrNotConnected, broker.ErrTimeout, fmt.Errorf("wrapped: %w", io.EOF),
	context.Canceled, context.DeadlineExceeded, io.EOF, broker.ErrSubscriptionInactive, fmt.Errorf("wrapped: %w", context.Canceled),
	netscrape.ErrNotImplemented, netscrape.ErrMissingPlan, store.ErrEntityNotFound, errors.New("refused")}

// inMarshaler is a marshaler that keeps what it was called with.
type inMarshaler struct {
	o    InOpt
	name string
	err  error
	mu   sync.Mutex
	got  []any
}

func (m *inMarshaler) output(x any) ([]byte, error) {
	switch m.o.Out {
	case "fail":
		return []byte("not to be published"), m.err
	case "nil":
		return nil, nil
	case "empty":
		return []byte{}, nil
	case "space":
		return marshaler().Marshal(x)
	}
	return fmt.Appendf(nil, "%s\x00\xff of %T", m.name, x), nil
}

func (m *inMarshaler) Marshal(x interface{}) ([]byte, error) {
	m.mu.Lock()
	m.got = append(m.got, x)
	m.mu.Unlock()
	runtime.Gosched()
	return m.output(x)
}

// recBroker keeps what is published.
type recBroker struct {
	fail error
	pubs []recPub
}

type recPub struct {
	ctx   context.Context
	topic string
	msg   broker.Message
	data  []byte // a copy made at once
}

func (b *recBroker) Pub(ctx context.Context, topic string, m broker.Message, opts ...broker.Option) error {
	b.pubs = append(b.pubs, recPub{ctx, topic, m, append([]byte{}, m.Data...)})
	return b.fail
}

func (b *recBroker) Sub(ctx context.Context, topic string, opts ...broker.Option) (broker.Subscriber, error) {
	return nil, errors.New("nobody is to subscribe")
}

// sameJSON says whether a is one JSON document with the same data as b.
func sameJSON(a, b []byte) bool {
	read := func(b []byte) (any, bool) {
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		var x any
		if d.Decode(&x) != nil {
			return nil, false
		}
		_, err := d.Token()
		return x, err == io.EOF
	}
	x, ok := read(a)
	y, ok2 := read(b)
	return ok && ok2 && reflect.DeepEqual(x, y)
}

func runIngest(c InCase, r *R) error {
	mk := func(where string, l []InOpt) (ms []*inMarshaler, opts []ingester.Option) {
		for i, o := range l {
			m := &inMarshaler{o: o, name: fmt.Sprintf("%s, option %d", where, i)}
			m.err = fmt.Errorf("the marshaler of %s fails", m.name)
			ms = append(ms, m)
			opts = append(opts, ingester.WithMarshaler(m))
		}
		return
	}
	made, opts := mk("the ingester", c.Made)
	in, err := simple.NewIngester(opts...)
	if err != nil {
		return err
	}
	type call struct {
		b    *recBroker
		data any
		opts []ingester.Option
		ms   []*inMarshaler
		err  error
		ctx  context.Context
	}
	calls := make([]*call, len(c.Calls))
	all := append([]*inMarshaler{}, made...)
	for i, x := range c.Calls {
		k := &call{b: &recBroker{fail: inErrs[x.Fail]}, data: x.Data.build()}
		k.ctx = context.WithValue(context.Background(), dKey{}, i)
		if x.Ctx > 0 {
			ctx, cancel := context.WithDeadline(k.ctx, time.Now().Add(time.Duration(3-2*(x.Ctx/3))*time.Hour-time.Duration(x.Ctx/3)*2*time.Hour))
			if x.Ctx == 2 {
				cancel()
			}
			defer cancel()
			k.ctx = ctx
		}
		k.ms, k.opts = mk(fmt.Sprintf("call %d", i), x.Opts)
		all = append(all, k.ms...)
		calls[i] = k
	}
	do := func(i int) {
		k := calls[i]
		k.err = safely(func() error {
			return in.Ingest(k.ctx, k.b, c.Calls[i].Topic, broker.Type(c.Calls[i].Type), k.data, k.opts...)
		})
	}
	if c.Conc && len(calls) > 1 {
		r.Label("concurrent")
		var wg sync.WaitGroup
		for i := range calls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				do(i)
			}()
		}
		wg.Wait()
	} else {
		for i := range calls {
			do(i)
		}
	}
	used := map[*inMarshaler]int{}
	refused := map[*inMarshaler]int{}
	for i, k := range calls {
		x := c.Calls[i]
		what := fmt.Sprintf("ingest %d", i)
		var m *inMarshaler
		if len(made) > 0 {
			m = made[len(made)-1]
		}
		if len(k.ms) > 0 {
			m = k.ms[len(k.ms)-1]
			r.LabelIf(len(made) > 0, "call's marshaler over the ingester's")
		}
		var want []byte
		var werr error
		if m != nil {
			want, werr = m.output(k.data)
			used[m]++
			r.Label("marshaler " + m.o.Out)
		} else {
			want, werr = json.Marshal(k.data)
			r.Label("default JSON")
		}
		// with an ended context it may refuse to start
		r.LabelIf(x.Ctx > 1, "ended context")
		ended := x.Ctx > 1 && k.err != nil && len(k.b.pubs) == 0
		if ended {
			refused[m]++
		}
		if werr != nil {
			r.Label("encoding failed")
			if k.err == nil {
				return fmt.Errorf("%s: the data does not encode (%v), but ingest returned no error", what, werr)
			}
			if len(k.b.pubs) > 0 {
				return fmt.Errorf("%s: the data does not encode (%v), but a message was published", what, werr)
			}
			if ended {
				continue
			}
			if m != nil && m.o.Out == "fail" && !errors.Is(k.err, m.err) || x.Data.Kind == "bad" && m == nil && errors.Is(werr, errBadJSON) && !errors.Is(k.err, errBadJSON) {
				return fmt.Errorf("%s: returned %v, want the error %v", what, k.err, werr)
			}
			continue
		}
		if ended {
			continue
		}
		if len(k.b.pubs) != 1 {
			return fmt.Errorf("%s: %d messages were published, want 1 (ingest returned %v)", what, len(k.b.pubs), k.err)
		}
		switch {
		case x.Fail == 0 && k.err != nil:
			return fmt.Errorf("%s: published, but returned %v", what, k.err)
		case x.Fail > 0 && !errors.Is(k.err, inErrs[x.Fail]):
			return fmt.Errorf("%s: the broker refused with %v, but ingest returned %v", what, inErrs[x.Fail], k.err)
		}
		r.LabelIf(x.Fail > 0, "publishing failed")
		p := k.b.pubs[0]
		if v, ok := p.ctx.Value(dKey{}).(int); !ok || v != i {
			return fmt.Errorf("%s: published with a context that is not the caller's", what)
		}
		if p.topic != x.Topic {
			return fmt.Errorf("%s: published on %q, want %q", what, p.topic, x.Topic)
		}
		if p.msg.Type != broker.Type(x.Type) {
			return fmt.Errorf("%s: the message has type %d, want %d", what, p.msg.Type, x.Type)
		}
		same := bytes.Equal
		if m == nil {
			same = sameJSON
		}
		if !same(p.data, want) {
			return fmt.Errorf("%s: the message's data is %q, want %q", what, clip(string(p.data), 300), clip(string(want), 300))
		}
		if !bytes.Equal(p.data, p.msg.Data) {
			return fmt.Errorf("%s: the data of the published message was changed afterwards, from %q to %q", what, clip(string(p.data), 300), clip(string(p.msg.Data), 300))
		}
	}
	for _, m := range all {
		if len(m.got) < used[m]-refused[m] || used[m] == 0 && len(m.got) > 0 {
			return fmt.Errorf("the marshaler of %s was called %d times, but is in effect for %d calls", m.name, len(m.got), used[m])
		}
		for _, x := range m.got {
			found := false
			for _, k := range calls {
				found = found || sameAny(x, k.data)
			}
			if !found {
				return fmt.Errorf("the marshaler of %s was given a %T that was not the data of a call", m.name, x)
			}
		}
	}
	if len(calls) > 1 {
		r.NonTrivial()
	}
	return nil
}

func sameAny(a, b any) bool {
	ta := reflect.TypeOf(a)
	if ta != reflect.TypeOf(b) {
		return false
	}
	if f, ok := a.(float64); ok {
		return sameWeight(f, b.(float64))
	}
	if ta != nil && ta.Comparable() {
		return reflect.ValueOf(a).Comparable() && a == b
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.Map, reflect.Slice:
		return va.Len() == vb.Len() && va.UnsafePointer() == vb.UnsafePointer()
	}
	return reflect.DeepEqual(a, b)
}

// ---- the runner

// RnCase is a history of runs with one runner.
type RnCase struct {
	Made []RnOpt `json:"made,omitempty"`
	Runs []RnRun `json:"runs"`
	Conc bool    `json:"conc,omitempty"`
}

// RnOpt is an option: 0 store, 1 broker, 2 marshaler.
type RnOpt struct {
	Kind int `json:"kind"`
}

// RnRun is one run.
type RnRun struct {
	Opts []RnOpt `json:"opts,omitempty"`
	Plan bool    `json:"plan,omitempty"`
	Err  int     `json:"err,omitempty"`
	Ctx  int     `json:"ctx,omitempty"` // 1: with a deadline, 2: has ended
	// Again: the scraper runs itself once more, with these options
	Again []RnOpt `json:"again,omitempty"`
}

func genRunner(t *rapid.T) RnCase {
	opts := func(t *rapid.T, label string) []RnOpt {
		return drawList(t, label, 0, 4, func(t *rapid.T) RnOpt { return RnOpt{uni(t, 3, "kind")} })
	}
	c := RnCase{Made: opts(t, "made"), Conc: pct(t, 20, "conc")}
	c.Runs = drawList(t, "runs", 1, 5, func(t *rapid.T) RnRun {
		x := RnRun{Opts: opts(t, "opts"), Plan: uni(t, 4, "plan") > 0, Ctx: uni(t, 3, "ctx")}
		if uni(t, 3, "err?") == 2 {
			x.Err = 1 + uni(t, 4, "err")
		}
		if pct(t, 20, "again?") {
			x.Again = opts(t, "again")
		}
		return x
	})
	return c
}

type rnErr struct{ n int }

func (e *rnErr) Error() string { return fmt.Sprint("scraper error ", e.n) }

type rnStore struct {
	store.Store
	name string
}

type rnBroker struct {
	broker.Broker
	name string
}

type rnMarshaler struct {
	broker.Marshaler
	name string
}

type rnPlan struct {
	plan.Plan
	n int
}

// rnWant is what a run has to hand on.
type rnWant struct {
	s *rnStore
	b *rnBroker
	m *rnMarshaler
}

func (w rnWant) with(where string, l []RnOpt) (rnWant, []netscrape.Option) {
	var out []netscrape.Option
	for i, o := range l {
		name := fmt.Sprintf("%s, option %d", where, i)
		switch o.Kind % 3 {
		case 0:
			w.s = &rnStore{name: name}
			out = append(out, netscrape.WithStore(w.s))
		case 1:
			w.b = &rnBroker{name: name}
			out = append(out, netscrape.WithBroker(w.b))
		default:
			w.m = &rnMarshaler{name: name}
			out = append(out, netscrape.WithMarshaler(w.m))
		}
	}
	return w, out
}

// rnScraper is a scraper that keeps what it is called with.
type rnScraper struct {
	calls []rnCall
	err   error
	then  func(ctx context.Context)
}

type rnCall struct {
	ctx  context.Context
	plan plan.Plan
	opts netscrape.Options
}

func (s *rnScraper) Scrape(ctx context.Context, p plan.Plan, opts ...netscrape.Option) error {
	var o netscrape.Options
	runtime.Gosched()
	for _, apply := range opts {
		apply(&o)
	}
	s.calls = append(s.calls, rnCall{ctx, p, o})
	if s.then != nil {
		f := s.then
		s.then = nil
		f(ctx)
	}
	return s.err
}

func (s *rnScraper) check(what string, ctx context.Context, p plan.Plan, want rnWant, got error) error {
	if len(s.calls) != 1 {
		return fmt.Errorf("%s: the scraper was called %d times, want 1", what, len(s.calls))
	}
	if got != s.err {
		return fmt.Errorf("%s: returned %v, want the scraper's own error %v", what, got, s.err)
	}
	c := s.calls[0]
	if c.ctx != ctx {
		// a context derived from the caller's would do
		d1, ok1 := ctx.Deadline()
		d2, ok2 := c.ctx.Deadline()
		if c.ctx == nil || c.ctx.Value(dKey{}) != ctx.Value(dKey{}) || ok1 != ok2 || !d1.Equal(d2) || (ctx.Err() == nil) != (c.ctx.Err() == nil) {
			return fmt.Errorf("%s: the scraper was not given the caller's context", what)
		}
	}
	if c.plan != p {
		return fmt.Errorf("%s: the scraper was given plan %v, want %v", what, c.plan, p)
	}
	var ws store.Store
	if want.s != nil {
		ws = want.s
	}
	var wb broker.Broker
	if want.b != nil {
		wb = want.b
	}
	var wm broker.Marshaler
	if want.m != nil {
		wm = want.m
	}
	name := func(x any) string {
		switch x := x.(type) {
		case nil:
			return "none"
		case *rnStore:
			return "that of " + x.name
		case *rnBroker:
			return "that of " + x.name
		case *rnMarshaler:
			return "that of " + x.name
		}
		return fmt.Sprintf("a %T", x)
	}
	if c.opts.Store != ws {
		return fmt.Errorf("%s: the scraper's store is %s, want %s", what, name(c.opts.Store), name(ws))
	}
	if c.opts.Broker != wb {
		return fmt.Errorf("%s: the scraper's broker is %s, want %s", what, name(c.opts.Broker), name(wb))
	}
	if c.opts.Marshaler != wm {
		return fmt.Errorf("%s: the scraper's marshaler is %s, want %s", what, name(c.opts.Marshaler), name(wm))
	}
	return nil
}

func runRunner(c RnCase, r *R) error {
	base, opts := rnWant{}.with("the runner", c.Made)
	rn, err := netscrape.NewRunner(opts...)
	if err != nil {
		return err
	}
	one := func(i int) error {
		x := c.Runs[i]
		what := fmt.Sprintf("run %d", i)
		ctx := context.WithValue(context.Background(), dKey{}, i)
		cancel := func() {}
		switch x.Ctx {
		case 1:
			ctx, cancel = context.WithTimeout(ctx, time.Hour)
		case 2:
			ctx, cancel = context.WithCancel(ctx)
			cancel()
		}
		defer cancel()
		var p plan.Plan
		if x.Plan {
			p = &rnPlan{n: i}
		}
		mkErr := func(k int) error {
			return []error{nil, errors.New("scraper failed"), &rnErr{i}, fmt.Errorf("wrapped: %w", netscrape.ErrMissingPlan), context.Canceled}[k]
		}
		s := &rnScraper{err: mkErr(x.Err)}
		var inner error
		if len(x.Again) > 0 {
			s.then = func(ctx context.Context) {
				want, opts := base.with(what+" from inside", x.Again)
				t := &rnScraper{err: mkErr((x.Err + 1) % 5)}
				err := safely(func() error { return rn.Run(ctx, p, t, opts...) })
				inner = t.check(what+", another made by the scraper", ctx, p, want, err)
			}
		}
		want, opts := base.with(what, x.Opts)
		err := rn.Run(ctx, p, s, opts...)
		if inner != nil {
			return inner
		}
		return s.check(what, ctx, p, want, err)
	}
	for _, x := range c.Runs {
		r.LabelIf(x.Err > 0, "scraper failed")
		r.LabelIf(len(x.Again) > 0, "nested run")
		r.LabelIf(len(x.Opts) == 0 && len(c.Made) > 0, "runner's options alone")
		for _, o := range x.Opts {
			for _, m := range c.Made {
				if m.Kind == o.Kind {
					r.Label("run's option over the runner's")
					r.NonTrivial()
				}
			}
		}
	}
	if len(c.Runs) > 1 {
		r.NonTrivial()
	}
	if c.Conc && len(c.Runs) > 1 {
		r.Label("concurrent")
		errs := make([]error, len(c.Runs))
		var wg sync.WaitGroup
		for i := range c.Runs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = safely(func() error { return one(i) })
			}()
		}
		wg.Wait()
		return errors.Join(errs...)
	}
	for i := range c.Runs {
		if err := one(i); err != nil {
			return err
		}
	}
	return nil
}
