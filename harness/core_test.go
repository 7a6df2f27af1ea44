// Package harness holds the executable properties of milosgajdos/netscrape.
//
// Every property is a set of parts. A part is a rapid generator of a
// JSON-serialisable case and a deterministic function that runs the case
// against /repo through its public API and judges it with an oracle. All
// randomness is inside the generator, so the case is the replay.
package harness

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var (
	flagProp   = flag.String("h.prop", "", "property to check")
	flagTier   = flag.String("h.tier", "quick", "quick or thorough")
	flagSeed   = flag.Uint64("h.seed", 1, "seed")
	flagOut    = flag.String("h.out", "", "where to write the report")
	flagCur    = flag.String("h.cur", "", "where to write the case being run")
	flagReplay = flag.String("h.replay", "", "replay this case file")
	flagCorpus = flag.String("h.corpus", "", "directory of saved cases to run first")
	flagShards = flag.Int("h.shards", 1, "the tier's case count is split over this many processes")
	flagPart   = flag.String("h.part", "", "only this part")
	flagScale  = flag.Float64("h.scale", 1, "multiply case counts")
	flagBudget = flag.Float64("h.budget", 0, "stop generating after this many seconds")
	flagTimes  = flag.Int("h.times", 1, "how often to run a replayed case")
	flagMin    = flag.Float64("h.min", 20, "seconds to minimise a failing case for")
)

// R is what a running case reports to.
type R struct {
	T          *testing.T
	labels     map[string]bool
	nontrivial bool
}

// Label counts the case under the name.
func (r *R) Label(name string) {
	if r.labels != nil {
		r.labels[name] = true
	}
}

// LabelIf counts the case under the name if ok.
func (r *R) LabelIf(ok bool, name string) {
	if ok {
		r.Label(name)
	}
}

// NonTrivial marks the case as one that exercised what the property is about.
func (r *R) NonTrivial() { r.nontrivial = true }

type partRunner struct {
	name            string
	quick, thorough int
	rule            string
	check           func(h *H, p *partRunner)
	replay          func(h *H, p *partRunner, raw json.RawMessage) error
	enumerate       bool
}

// Part makes a part from a generator and a run function.
func Part[C any](name string, quick, thorough int, rule string, gen func(*rapid.T) C, run func(C, *R) error) *partRunner {
	return &partRunner{
		name: name, quick: quick, thorough: thorough, rule: rule,
		check: func(h *H, p *partRunner) {
			g := rapid.Custom(gen)
			h.rapidCheck(p, func(t *rapid.T) {
				c := g.Draw(t, "case")
				if err := h.runCase(p, c, func(r *R) error { return run(c, r) }); err != nil {
					t.Fatalf("the property does not hold") // constant, so that rapid can shrink
				}
			})
		},
		replay: func(h *H, p *partRunner, raw json.RawMessage) error {
			var c C
			if err := json.Unmarshal(raw, &c); err != nil {
				panic(fmt.Sprintf("bad replay case: %v", err))
			}
			return h.runCase(p, c, func(r *R) error { return run(c, r) })
		},
	}
}

// All makes a part that runs every case of a finite list.
func All[C any](name string, rule string, cases func(tier string) []C, run func(C, *R) error) *partRunner {
	p := Part(name, 0, 0, rule, func(t *rapid.T) C { var c C; return c }, run)
	p.enumerate = true
	p.check = func(h *H, p *partRunner) {
		for _, c := range cases(h.tier) {
			if err := h.runCase(p, c, func(r *R) error { return run(c, r) }); err != nil {
				return
			}
		}
	}
	return p
}

type property struct {
	id    string
	parts []*partRunner
}

var registry = map[string]*property{}

func register(id string, parts ...*partRunner) {
	if p, ok := registry[id]; ok {
		p.parts = append(p.parts, parts...)
		return
	}
	registry[id] = &property{id: id, parts: parts}
}

type partStats struct {
	Name       string         `json:"name"`
	Rule       string         `json:"rule"`
	Cases      int            `json:"cases"`
	Nontrivial int            `json:"distinct_nontrivial"`
	Labels     map[string]int `json:"labels,omitempty"`
	Exhaustive bool           `json:"exhaustive,omitempty"`
	seen       map[uint64]struct{}
}

type sample struct {
	Part string          `json:"part"`
	Case json.RawMessage `json:"case"`
}

// failure is a replay file.
type failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

type report struct {
	Property string       `json:"property"`
	Parts    []*partStats `json:"parts"`
	Samples  []sample     `json:"samples"`
	Failure  *failure     `json:"failure,omitempty"`
	Done     bool         `json:"done"`
	Corpus   int          `json:"corpus_cases"`
}

// H runs one property.
type H struct {
	t    *testing.T
	prop *property
	tier string
	rep  report
	cur  *partStats
	fail *failure
	nsam map[string]int
	// the parts up to the current one may use this share of the time budget
	share float64
	start time.Time
}

// safely runs f, turning a panic into an error.
func safely(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(st))
		}
	}()
	return f()
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 44 {
		lines = lines[:44]
	}
	return strings.Join(lines, "\n")
}

func (h *H) runCase(p *partRunner, c any, run func(*R) error) error {
	raw, err := json.Marshal(c)
	if err != nil {
		panic(fmt.Sprintf("case does not encode: %v", err))
	}
	if *flagCur != "" {
		b, _ := json.Marshal(failure{Property: h.prop.id, Part: p.name, Case: raw})
		_ = os.WriteFile(*flagCur, b, 0o644)
	}
	r := &R{T: h.t, labels: map[string]bool{}}
	races := raceErrors()
	err = h.supervised(func() error { return run(r) })
	if n := raceErrors() - races; n > 0 {
		rerr := fmt.Errorf("data race: the race detector reported %d races while this case ran (reports are in the log)", n)
		if err != nil {
			rerr = fmt.Errorf("%v; %w", err, rerr)
		}
		err = rerr
	}
	if h.fail == nil { // counts describe the search, not the shrinking
		s := h.cur
		s.Cases++
		for l := range r.labels {
			s.Labels[l]++
		}
		if r.nontrivial {
			f := fnv.New64a()
			f.Write(raw)
			k := f.Sum64()
			if _, ok := s.seen[k]; !ok {
				s.seen[k] = struct{}{}
				s.Nontrivial++
				if h.nsam[p.name] < 2 && len(raw) < 2500 && (s.Nontrivial == 1 || s.Nontrivial > 20) {
					h.nsam[p.name]++
					h.rep.Samples = append(h.rep.Samples, sample{p.name, raw})
				}
			}
		}
	}
	if err != nil {
		if len(err.Error()) > 12000 && !errors.Is(err, errNoEnd) {
			err = fmt.Errorf("%s...", err.Error()[:12000])
		}
		if h.fail == nil || len(raw) < len(h.fail.Case) {
			h.fail = &failure{Property: h.prop.id, Part: p.name, Error: err.Error(), Case: raw}
			h.flush(false)
		}
		if errors.Is(err, errNoEnd) {
			// its goroutine goes on for ever: no shrinking next to it
			h.flush(true)
			os.Exit(0)
		}
	}
	return err
}

func (h *H) flush(done bool) {
	h.rep.Failure = h.fail
	h.rep.Done = done
	if *flagOut == "" {
		return
	}
	b, err := json.MarshalIndent(h.rep, "", " ")
	if err != nil {
		panic(err)
	}
	if done {
		var sb strings.Builder
		for _, s := range h.rep.Parts {
			for k := range s.seen {
				fmt.Fprintf(&sb, "%s/%x\n", strings.ReplaceAll(s.Name, " ", "-"), k)
			}
		}
		must(os.WriteFile(*flagOut+".hash", []byte(sb.String()), 0o644))
	}
	tmp := *flagOut + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, *flagOut); err != nil {
		panic(err)
	}
}

// rtb is the rapid.TB the properties run under: it keeps rapid's failures
// out of the go test result, which is not what decides.
type rtb struct {
	name   string
	failed bool
	log    []string
}

func (t *rtb) Helper()                   {}
func (t *rtb) Name() string              { return t.name }
func (t *rtb) Logf(f string, a ...any)   { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *rtb) Log(a ...any)              { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *rtb) Skipf(f string, a ...any)  { t.Logf(f, a...); runtime.Goexit() }
func (t *rtb) Skip(a ...any)             { t.Log(a...); runtime.Goexit() }
func (t *rtb) SkipNow()                  { runtime.Goexit() }
func (t *rtb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *rtb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *rtb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *rtb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *rtb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *rtb) Fail()                     { t.failed = true }
func (t *rtb) Failed() bool              { return t.failed }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (h *H) rapidCheck(p *partRunner, f func(*rapid.T)) {
	n := p.quick
	if h.tier == "thorough" {
		n = p.thorough
	}
	n = int(float64(n) * *flagScale)
	n = (n + *flagShards - 1) / *flagShards
	if n < 1 {
		n = 1
	}
	// in rounds, so that a slow machine gets through fewer cases in time
	round := (n + 7) / 8
	for k := 0; n > 0 && h.fail == nil; k++ {
		if k > 0 && *flagBudget > 0 && time.Since(h.start).Seconds() > *flagBudget*h.share {
			h.cur.Labels["(stopped by the time budget)"] = 1
			return
		}
		h.round(p, fmt.Sprintf("%s#%d", p.name, k), min(round, n), f)
		n -= round
	}
}

func (h *H) round(p *partRunner, name string, n int, f func(*rapid.T)) {
	must(flag.Set("rapid.checks", fmt.Sprint(n)))
	must(flag.Set("rapid.seed", fmt.Sprint(partSeed(name))))
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", "15s"))
	tb := &rtb{name: h.prop.id + "/" + p.name}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, f)
	}()
	<-done
	if tb.failed && h.fail == nil {
		// rapid itself failed (a generator that cannot produce cases): an
		// error of the check.
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR: %s: %s\n", tb.name, strings.Join(tb.log, "\n"))
		os.Exit(3)
	}
}

// partSeed derives the seed of a part; rapid takes 0 to mean random.
func partSeed(name string) uint64 {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%s", *flagSeed, name)
	s := f.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

func newH(t *testing.T, id, tier string) *H {
	p, ok := registry[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR: no property %q\n", id)
		os.Exit(3)
	}
	return &H{start: time.Now(), share: 1, t: t, prop: p, tier: tier, nsam: map[string]int{}, rep: report{Property: id}}
}

func (h *H) begin(p *partRunner) {
	h.cur = &partStats{Name: p.name, Rule: p.rule, Labels: map[string]int{}, Exhaustive: p.enumerate, seen: map[uint64]struct{}{}}
	h.rep.Parts = append(h.rep.Parts, h.cur)
}

// TestProp checks the property named by -h.prop.
func TestProp(t *testing.T) {
	if *flagProp == "" {
		t.Skip("no -h.prop")
	}
	h := newH(t, *flagProp, *flagTier)
	if *flagCorpus != "" {
		files, _ := filepath.Glob(filepath.Join(*flagCorpus, "*.json"))
		sort.Strings(files)
		byName := map[string]*partRunner{}
		for _, p := range h.prop.parts {
			byName[p.name] = p
		}
		if len(files) > 0 && *flagPart == "" {
			h.begin(&partRunner{name: "saved cases", rule: "committed minimal cases of defects found earlier, each run once"})
			for _, f := range files {
				fl := readFailure(f)
				p := byName[fl.Part]
				if p == nil {
					fmt.Fprintf(os.Stderr, "HARNESS-ERROR: %s names no part\n", f)
					os.Exit(3)
				}
				h.rep.Corpus++
				if p.replay(h, p, fl.Case) != nil {
					h.flush(true)
					return
				}
			}
		}
	}
	for i, p := range h.prop.parts {
		h.share = float64(i+1) / float64(len(h.prop.parts))
		if *flagPart != "" && *flagPart != p.name {
			continue
		}
		h.begin(p)
		p.check(h, p)
		if h.fail != nil {
			h.minimise(p, time.Duration(*flagMin*float64(time.Second)))
			break
		}
	}
	h.flush(true)
}

func readFailure(path string) failure {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR: %v\n", err)
		os.Exit(3)
	}
	var fl failure
	if err := json.Unmarshal(b, &fl); err != nil {
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR: %v\n", err)
		os.Exit(3)
	}
	return fl
}

// TestReplay runs one saved case, without rapid.
func TestReplay(t *testing.T) {
	if *flagReplay == "" {
		t.Skip("no -h.replay")
	}
	fl := readFailure(*flagReplay)
	h := newH(t, fl.Property, *flagTier)
	for _, p := range h.prop.parts {
		if p.name == fl.Part {
			h.begin(p)
			for i := 0; i < *flagTimes && h.fail == nil; i++ {
				_ = p.replay(h, p, fl.Case)
			}
			h.flush(true)
			return
		}
	}
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: no part %q\n", fl.Part)
	os.Exit(3)
}
