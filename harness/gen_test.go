package harness

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
	"pgregory.net/rapid"
)

var bg = context.Background()

// special strings: syntax of JSON, DOT and paths, keywords, blanks, control
// characters, text in several scripts, look-alikes.
var specials = []string{
	"", " ", "/", "//", "a/b", "/a", "a/", "\"", "\\", "\\\"", "'", "`", "\n", "\t", "\x00", "\x7f", "\u2028",
	"null", "true", "false", "0", "1", "-1", "-.5", "1.", "007", "1e3", "NaN", "[]", "{}", "{\"uid\":\"x\"}", "<", ">", "&", "<b>", "a<b>c",
	"node", "edge", "graph", "digraph", "subgraph", "strict", "Node", "GRAPH", "->", "--", ";", "=", "a=b", "[a]", "a b", " a", "a ",
	"é", "e\u0301", "日本語", "🙂", "\ufeff", "\ufffd", "ÿ", "a-b", "a.b", "a:b", "a_b", "_", "uid", "type", "attrs", "name", "resource",
	"from", "to", "weight", "dotid", "label", "relation", "Aa", "aA", "aa", "AA", "%s", "%d", "$HOME", "..", "../x", "*",
	"1b4e28ba-2fa1-41d2-883f-0016d3cca427", "1B4E28BA-2FA1-41D2-883F-0016D3CCA427", "1b4e28ba2fa141d2883f0016d3cca427",
	"urn:uuid:1b4e28ba-2fa1-41d2-883f-0016d3cca427", "{1b4e28ba-2fa1-41d2-883f-0016d3cca427}", "00000000-0000-0000-0000-000000000000",
}

// drawStr draws a valid UTF-8 string: often a short one from a small
// alphabet (so that strings collide), sometimes special, random or long.
func drawStr(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 21).Draw(t, label+"?") {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		return rapid.StringMatching(`[abc]{1,2}`).Draw(t, label)
	case 8, 9, 10, 11, 12, 13:
		return pick(t, label, specials)
	case 14, 15, 16:
		return rapid.String().Draw(t, label)
	case 17, 18:
		return rapid.StringMatching(`[a-zA-Z0-9_./:-]{0,20}`).Draw(t, label)
	case 19, 20:
		return drawDictStr(t, label)
	default:
		n := pick(t, label+"#", near(5000, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600, 1024, 4097))
		return strings.Repeat(rapid.SampledFrom([]string{"x", "é", "\"", "日", " "}).Draw(t, label), n)
	}
}

// uni draws from 0 to n-1, all equally likely. (rapid's own numbers prefer
// small ones, which turns a rare choice into a frequent one.)
func uni(t *rapid.T, n int, label string) int {
	bits := 5
	for 1<<(bits-4) < n {
		bits++
	}
	v := 0
	for i := 0; i < bits; i++ {
		v <<= 1
		if rapid.Bool().Draw(t, label) {
			v |= 1
		}
	}
	return v * n >> bits
}

// pct is true p times in a hundred; it shrinks to false.
func pct(t *rapid.T, p int, label string) bool { return uni(t, 100, label) >= 100-p }

// pick draws from the list, all equally likely.
func pick[T any](t *rapid.T, label string, l []T) T { return l[uni(t, len(l), label)] }

// drawSize draws a size with a heavy tail.
func drawSize(t *rapid.T, label string, small int, tail ...int) int {
	if len(tail) > 0 && rapid.IntRange(0, 24).Draw(t, label+"?") == 24 {
		return pick(t, label, tail)
	}
	return rapid.IntRange(0, small).Draw(t, label)
}

// drawList draws a list whose elements rapid can remove one by one. Left to
// itself rapid draws about five elements more than it has to, so a long list
// draws first how many it has to.
func drawList[T any](t *rapid.T, label string, lo, hi int, f func(*rapid.T) T) []T {
	if hi-lo >= 12 {
		lo += rapid.SampledFrom([]int{0, (hi - lo) / 8, (hi - lo) / 4, (hi - lo) / 2, (hi - lo) * 3 / 4}).Draw(t, label+"#min")
	}
	return rapid.SliceOfN(rapid.Custom(f), lo, hi).Draw(t, label)
}

// histLen is how long a history may get: n operations, rarely four times that.
func histLen(t *rapid.T, n int) int {
	if pct(t, 3, "long?") {
		return 4 * n
	}
	return n
}

// manyUIDs adds, rarely, tens of plain UIDs to the list.
func manyUIDs(t *rapid.T, uids []string) []string {
	if pct(t, 5, "many?") {
		for n := pick(t, "more", near(300, 7, 20, 40, 70)); n > 0; n-- {
			uids = append(uids, fmt.Sprintf("more-%d", len(uids)))
		}
	}
	return uids
}

var (
	baseKeys = []string{"name", "dotid", "weight", "relation", "label", "uid", "type", "color", "style"}
	baseVals = []string{"", "0", "1", "1.0", "true", "a", "b"}
)

// pickKnown draws from one of two lists, as often from each.
func pickKnown(t *rapid.T, label string, base, more []string) string {
	if len(more) > 0 && rapid.Bool().Draw(t, label+"?") {
		return pick(t, label, more)
	}
	return pick(t, label, base)
}

func drawMap(t *rapid.T, label string) map[string]string {
	m := map[string]string{}
	if pct(t, 10, label+" known?") { // keys and values that mean something somewhere
		for _, kv := range drawList(t, label, 1, 3, func(t *rapid.T) [2]string {
			return [2]string{pickKnown(t, "k", baseKeys, dict.strs), pickKnown(t, "v", baseVals, dict.strs)}
		}) {
			m[kv[0]] = kv[1]
		}
		return m
	}
	n := drawSize(t, label+"#", 4, near(2000, 9, 17, 33, 65, 130)...)
	if n > 8 {
		p := drawStr(t, label+"p")
		for i := 0; i < n; i++ {
			m[fmt.Sprintf("%s%d", p, i)] = fmt.Sprintf("v%d%s", i, p)
		}
		return m
	}
	for _, kv := range drawList(t, label, 0, n, func(t *rapid.T) [2]string { return [2]string{drawStr(t, "k"), drawStr(t, "v")} }) {
		m[kv[0]] = kv[1]
	}
	return m
}

var specialWeights = []float64{0, 1, -1, 0.5, 2, 1e300, -1e300, 5e-324, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 1 << 53}

// W is a weight in a case; its bits are what is compared and stored.
type W uint64

func (w W) F() float64 { return math.Float64frombits(uint64(w)) }

func drawWeight(t *rapid.T, label string) W {
	switch rapid.IntRange(0, 7).Draw(t, label+"?") {
	case 0, 1, 2:
		return wOf(pick(t, label, specialWeights))
	case 3:
		if len(dict.nums) > 0 {
			return wOf(pick(t, label, dict.nums) + pick(t, label+"+", []float64{0, 0, 0, 1, -1, 1e-9}))
		}
	}
	return W(math.Float64bits(rapid.Float64Range(-100, 100).Draw(t, label)))
}

func sameWeight(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
}

// tUID is a UID type of the harness's own: a value type, so that two equal
// ones are ==, which must make no difference either.
type tUID struct{ s string }

func (u tUID) String() string { return u.s }

// pUID is a UID behind a pointer that computes its text.
type pUID struct{ a, b string }

func (u *pUID) String() string { return u.a + u.b }

// mkUID makes a fresh UID object with the text s; kind selects how.
func mkUID(s string, kind int) uuid.UID {
	switch kind % 4 {
	case 0:
		return memuid.NewFromString(s)
	case 1:
		return tUID{s}
	case 2:
		h := len(s) / 2
		return &pUID{s[:h], s[h:]}
	default:
		return *memuid.NewFromString(s)
	}
}

// tAttrs is an attribute source of the harness's own; failing is "" or names
// what fails: "keys", or "get:" and a key.
type tAttrs struct {
	m       map[string]string
	failing string
	// order: bit 0 lists the keys backwards, bit 1 returns all there is along
	// with an injected error
	order int
	// ctx, if not nil, is the value under ctxKey{} of the only context the
	// source answers under
	ctx any
	// err, if not nil, is returned instead of errInjected
	err error
	// at, if not nil, is told what is about to be read: "keys", or "get:" and
	// a key
	at func(point string)
}

type ctxKey struct{}

func (a *tAttrs) heed(ctx context.Context) error {
	if a.ctx != nil && (ctx == nil || ctx.Value(ctxKey{}) != a.ctx) {
		return errForeignCtx
	}
	return nil
}

var errForeignCtx = fmt.Errorf("not the caller's context")

var errInjected = fmt.Errorf("injected fault")

func (a *tAttrs) Keys(ctx context.Context) ([]string, error) {
	if a.at != nil {
		a.at("keys")
	}
	if err := a.heed(ctx); err != nil {
		return nil, err
	}
	ks := sortedKeys(a.m)
	if a.order%2 == 1 {
		sort.Sort(sort.Reverse(sort.StringSlice(ks)))
	}
	if a.failing == "keys" {
		if a.order&2 != 0 {
			return ks, a.fault()
		}
		return nil, a.fault()
	}
	return ks, nil
}

func (a *tAttrs) Get(ctx context.Context, k string) (string, error) {
	if a.at != nil {
		a.at("get:" + k)
	}
	if err := a.heed(ctx); err != nil {
		return "", err
	}
	if strings.HasPrefix(a.failing, "get:") && a.failing[4:] == k {
		if a.order&2 != 0 {
			return a.m[k], a.fault()
		}
		return "", a.fault()
	}
	return a.m[k], nil
}

func (a *tAttrs) fault() error {
	if a.err != nil {
		return a.err
	}
	return errInjected
}

func (a *tAttrs) Set(ctx context.Context, k, v string) error { a.m[k] = v; return nil }

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func copyMap(m map[string]string) map[string]string {
	c := make(map[string]string, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func eqMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// mkAttrs makes attributes with the content m; kind selects how.
func mkAttrs(m map[string]string, kind int) attrs.Attrs {
	switch kind % 3 {
	case 0:
		return memattrs.NewFromMap(m)
	case 1:
		a := memattrs.New()
		for _, k := range sortedKeys(m) {
			must(a.Set(bg, k, m[k]))
		}
		return a
	default:
		return &tAttrs{m: copyMap(m), order: kind}
	}
}

// readAttrs reads all of a through its interface; a key listed twice is an
// error.
func readAttrs(a attrs.Attrs) (map[string]string, error) {
	if a == nil {
		return nil, fmt.Errorf("attributes are nil")
	}
	ks, err := a.Keys(bg)
	if err != nil {
		return nil, fmt.Errorf("reading the keys: %w", err)
	}
	m := map[string]string{}
	for _, k := range ks {
		if _, ok := m[k]; ok {
			return nil, fmt.Errorf("key %q listed twice", k)
		}
		v, err := a.Get(bg, k)
		if err != nil {
			return nil, fmt.Errorf("reading %q: %w", k, err)
		}
		m[k] = v
	}
	return m, nil
}

func wantAttrs(what string, a attrs.Attrs, want map[string]string) error {
	got, err := readAttrs(a)
	if err != nil {
		return fmt.Errorf("%s: attributes: %v", what, err)
	}
	if !eqMap(got, want) {
		return fmt.Errorf("%s: attributes are %s, want %s", what, clip(fmt.Sprintf("%q", got), 600), clip(fmt.Sprintf("%q", want), 600))
	}
	return nil
}

func wOf(f float64) W { return W(math.Float64bits(f)) }
