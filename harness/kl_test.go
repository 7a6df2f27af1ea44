package harness

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"pgregory.net/rapid"
)

func init() {
	register("K01", Part("histories", 4000, 80000, "histories of up to 40 cache operations (tail: 160), single and bulk, over two to six UIDs (tail: 76; texts that collide when joined, four types of UID objects, a new object each time) and links of three implementations, self links included; after each operation the links from and to every UID, single and bulk, are compared with the model; non-trivial: a pair was put again or upserted, and a UID has two links on a side", genCache("put", "put", "put", "put", "upsert", "upsert", "delete", "bulkput", "bulkupsert", "bulkdelete", "clear"), runCache(false)))
	register("K02", Part("deletions", 4000, 80000, "the same, with more deletions and puts at deleted UIDs; every result returned is kept and compared again after each later operation, others are overwritten to see that the cache does not change; non-trivial: a UID with links was deleted while other links stay, and a link was put at it again", genCache("put", "put", "put", "put", "upsert", "delete", "delete", "bulkput", "bulkdelete", "bulkdelete", "clear"), runCache(true)))
	register("L01", Part("histories", 4000, 80000, "histories of up to 60 plan operations over one to seven UIDs (tails: 240 operations, 300 UIDs), after each of which every UID and the whole list are compared with the model; lists returned are kept and compared again later, or overwritten; non-trivial: a resource was replaced and one deleted", genPlan, runPlan))
}

// KCase is a history of one cache.
type KCase struct {
	UIDs []string `json:"uids"`
	Ops  []KOp    `json:"ops"`
}

// KOp is one operation: P are pairs of UIDs for puts, U are UIDs for deletes.
type KOp struct {
	Op   string   `json:"op"`
	P    [][2]int `json:"p,omitempty"`
	U    []int    `json:"u,omitempty"`
	UK   int      `json:"uk"`
	Impl int      `json:"impl,omitempty"`
	// Old: the links bear the UID of the link made so many links before
	Old int `json:"old,omitempty"`
}

func genCache(ops ...string) func(*rapid.T) KCase {
	return func(t *rapid.T) KCase {
		c := KCase{UIDs: manyUIDs(t, drawUIDs(t, 2, 6))}
		most := 8
		idx := rapid.IntRange(0, max(5, len(c.UIDs)-1))
		if len(c.UIDs) > 6 {
			most = len(c.UIDs)
		}
		pair := rapid.Custom(func(t *rapid.T) [2]int { return [2]int{idx.Draw(t, "from"), idx.Draw(t, "to")} })
		c.Ops = drawList(t, "ops", 0, histLen(t, 40), func(t *rapid.T) KOp {
			o := KOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), UK: rapid.IntRange(0, 7).Draw(t, "uk"), Impl: rapid.IntRange(0, 2).Draw(t, "impl")}
			if o.Op == "clear" && rapid.IntRange(0, 3).Draw(t, "clear?") > 0 {
				o.Op = "put"
			}
			if pct(t, 15, "old?") {
				o.Old = rapid.IntRange(1, 5).Draw(t, "old")
			}
			switch o.Op {
			case "put", "upsert":
				o.P = [][2]int{pair.Draw(t, "pair")}
			case "bulkput", "bulkupsert":
				o.P = rapid.SliceOfN(pair, 0, most).Draw(t, "pairs")
				if len(o.P) > 0 && pct(t, 25, "twice?") {
					o.P = append(o.P, o.P[len(o.P)-1])
				}
				if pct(t, 4, "big?") {
					for n := pick(t, "big", near(600, 33, 100)); len(o.P) < n; {
						o.P = append(o.P, [2]int{len(o.P) % len(c.UIDs), len(o.P) / len(c.UIDs) % len(c.UIDs)})
					}
				}
			case "delete":
				o.U = []int{idx.Draw(t, "u")}
			case "bulkdelete":
				o.U = rapid.SliceOfN(idx, 0, most/2).Draw(t, "us")
			}
			return o
		})
		return c
	}
}

// endsLink is a link with given objects as its ends.
type endsLink struct {
	cache.Link
	from, to uuid.UID
}

func (l endsLink) From() uuid.UID { return l.from }
func (l endsLink) To() uuid.UID   { return l.to }

type kept struct {
	what  string
	links []cache.Link
	want  []string
	m     map[uuid.UID][]cache.Link
	wantM map[uuid.UID][]string
}

// linkUIDs lists what the links are: UID, endpoints.
func linkUIDs(ls []cache.Link) ([]string, error) {
	out := []string{}
	for _, l := range ls {
		if l == nil {
			return nil, fmt.Errorf("a nil link among %d", len(ls))
		}
		// the UIDs of some are equal, the attribute is not
		n, err := l.Attrs().Get(bg, "n")
		if err != nil {
			return nil, err
		}
		out = append(out, fmt.Sprintf("%s %s: %q -> %q", uidStr(l.UID()), n, uidStr(l.From()), uidStr(l.To())))
	}
	sort.Strings(out)
	return out, nil
}

type kModel struct {
	links map[[2]string]string
}

func (m *kModel) from(u string) []string {
	out := []string{}
	for k, l := range m.links {
		if k[0] == u {
			out = append(out, fmt.Sprintf("%s: %q -> %q", l, k[0], k[1]))
		}
	}
	sort.Strings(out)
	return out
}

func (m *kModel) to(u string) []string {
	out := []string{}
	for k, l := range m.links {
		if k[1] == u {
			out = append(out, fmt.Sprintf("%s: %q -> %q", l, k[0], k[1]))
		}
	}
	sort.Strings(out)
	return out
}

func (m *kModel) del(u string) {
	for k := range m.links {
		if k[0] == u || k[1] == u {
			delete(m.links, k)
		}
	}
}

func eqStrs(a, b []string) bool { return fmt.Sprint(len(a), a) == fmt.Sprint(len(b), b) }

func runCache(results bool) func(KCase, *R) error {
	return func(c KCase, r *R) error {
		k, err := memcache.NewLinks()
		must(err)
		m := &kModel{map[[2]string]string{}}
		n := 0
		uid := func(i int) string { return c.UIDs[i%len(c.UIDs)] }
		objs := map[string]uuid.UID{}
		same := func(u string) uuid.UID {
			if objs[u] == nil {
				objs[u] = mkUID(u, 0)
			}
			return objs[u]
		}
		var keep []kept
		again, several, partial, reput := false, false, false, false
		deleted := map[string]bool{}
		for i, o := range c.Ops {
			what := fmt.Sprintf("op %d (%s %v %v)", i, o.Op, o.P, o.U)
			var links []cache.Link
			for j, p := range o.P {
				n++
				luid := fmt.Sprintf("l%d", max(n-o.Old, 0))
				attrs := map[string]string{"n": fmt.Sprint(n)}
				l := Val{Kind: kLink, UID: luid, Attrs: attrs, From: uid(p[0]), To: uid(p[1]), UIDKind: o.UK + j, Impl: (o.Impl + j) % 3}.build().(cache.Link)
				if o.UK > 5 { // the same objects each time
					l = endsLink{l, same(uid(p[0])), same(uid(p[1]))}
				}
				links = append(links, l)
				key := [2]string{uid(p[0]), uid(p[1])}
				_, ok := m.links[key]
				again = again || ok
				if !ok || strings.HasSuffix(o.Op, "upsert") {
					m.links[key] = luid + " " + attrs["n"]
				}
				reput = reput || deleted[key[0]] || deleted[key[1]]
			}
			var uids []uuid.UID
			for j, u := range o.U {
				uids = append(uids, mkUID(uid(u), o.UK+j))
				before := len(m.links)
				m.del(uid(u))
				if len(m.links) < before {
					deleted[uid(u)] = true
					partial = partial || len(m.links) > 0
				}
			}
			switch o.Op {
			case "put":
				err = k.Put(bg, links[0])
			case "upsert":
				err = k.Put(bg, links[0], cache.WithUpsert())
			case "bulkput":
				err = k.BulkPut(bg, links)
			case "bulkupsert":
				err = k.BulkPut(bg, links, cache.WithUpsert())
			case "delete":
				err = k.Delete(bg, uids[0])
			case "bulkdelete":
				err = k.BulkDelete(bg, uids)
			case "clear":
				err = k.Clear(bg)
				m.links = map[[2]string]string{}
			}
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			for _, kp := range keep {
				got, err := linkUIDs(kp.links)
				if err != nil || !eqStrs(got, kp.want) {
					return fmt.Errorf("%s changed the result of %s: %q (%v), it was %q", what, kp.what, got, err, kp.want)
				}
				if len(kp.m) != len(kp.wantM) {
					return fmt.Errorf("%s changed the result of %s", what, kp.what)
				}
				for u, want := range kp.wantM {
					got, err := linkUIDs(kp.m[u])
					if err != nil || !eqStrs(got, want) {
						return fmt.Errorf("%s changed the result of %s for %q: %q (%v), it was %q", what, kp.what, u, got, err, want)
					}
				}
			}
			if len(keep) > 24 {
				keep = keep[12:]
			}
			var all []uuid.UID
			for j := range c.UIDs {
				all = append(all, mkUID(c.UIDs[j], i+j))
				switch i % 3 {
				case 0:
					all = append(all, mkUID(c.UIDs[j], i+j+1))
				case 1:
					all = append(all, all[len(all)-1])
				}
			}
			for side := 0; side < 2; side++ {
				name, want := "GetFrom", m.from
				if side == 1 {
					name, want = "GetTo", m.to
				}
				for j, u := range c.UIDs {
					var got []cache.Link
					if side == 0 {
						got, err = k.GetFrom(bg, mkUID(u, i+j+o.UK))
					} else {
						got, err = k.GetTo(bg, mkUID(u, i+j+o.UK))
					}
					if err != nil {
						return fmt.Errorf("after %s: %s %q: %v", what, name, u, err)
					}
					ids, err := linkUIDs(got)
					if err != nil {
						return fmt.Errorf("after %s: %s %q: %v", what, name, u, err)
					}
					if !eqStrs(ids, want(u)) {
						return fmt.Errorf("after %s: %s %q gives %q, want %q", what, name, u, ids, want(u))
					}
					several = several || len(ids) > 1
					if results && len(got) > 0 {
						if (i+j)%2 == 0 {
							keep = append(keep, kept{what: fmt.Sprintf("%s %q", name, u), links: got, want: ids})
						} else {
							for x := range got {
								got[x] = nil
							}
							_ = append(got, nil, nil)
						}
					}
				}
				var bm map[uuid.UID][]cache.Link
				if side == 0 {
					bm, err = k.BulkGetFrom(bg, all)
				} else {
					bm, err = k.BulkGetTo(bg, all)
				}
				if err != nil {
					return fmt.Errorf("after %s: Bulk%s: %v", what, name, err)
				}
				wantM := map[uuid.UID][]string{}
				for _, u := range all {
					ids, err := linkUIDs(bm[u])
					if err != nil {
						return fmt.Errorf("after %s: Bulk%s %q: %v", what, name, u, err)
					}
					if !eqStrs(ids, want(u.String())) {
						return fmt.Errorf("after %s: Bulk%s gives %q for %q, want %q", what, name, ids, u, want(u.String()))
					}
				}
				for u, ls := range bm {
					ids, err := linkUIDs(ls)
					if err != nil {
						return err
					}
					wantM[u] = ids
					found := false
					for _, x := range all {
						found = found || x.String() == u.String()
					}
					if !found {
						return fmt.Errorf("after %s: Bulk%s gives links for %q, which was not asked for", what, name, u)
					}
				}
				if results {
					if i%2 == 0 {
						keep = append(keep, kept{what: "Bulk" + name, m: bm, wantM: wantM})
					} else {
						for u, ls := range bm {
							for x := range ls {
								ls[x] = nil
							}
							delete(bm, u)
						}
					}
				}
			}
		}
		r.LabelIf(again, "pair put again")
		r.LabelIf(several, "several links on a side")
		r.LabelIf(partial, "deletion that leaves links")
		r.LabelIf(reput, "put after deletion")
		if !results && again && several || results && partial && reput {
			r.NonTrivial()
		}
		return nil
	}
}

// PCase is a history of one plan.
type PCase struct {
	UIDs []string `json:"uids"`
	Ops  []POp    `json:"ops"`
	Grow int      `json:"grow"`
}

// POp is one operation.
type POp struct {
	Op string `json:"op"`
	U  int    `json:"u"`
	UK int    `json:"uk"`
}

func genPlan(t *rapid.T) PCase {
	c := PCase{UIDs: drawUIDs(t, 1, 7), Grow: 0}
	if pct(t, 12, "grow?") {
		c.Grow = pick(t, "grow", near(2000, 17, 65, 130, 300))
	}
	c.Ops = drawList(t, "ops", 0, histLen(t, 60), func(t *rapid.T) POp {
		return POp{rapid.SampledFrom([]string{"add", "add", "add", "delete", "deleteadd"}).Draw(t, "op"), rapid.IntRange(0, 6).Draw(t, "u"), rapid.IntRange(0, 7).Draw(t, "uk")}
	})
	return c
}

type tPlanRes struct {
	uid  uuid.UID
	n    int
	same bool
}

// planField is a group, version or kind: of the resource's own, or one that
// many have.
func planField(f string, n int, same bool) string {
	if same {
		return f
	}
	return fmt.Sprint(f, n)
}

func (p tPlanRes) UID() uuid.UID   { return p.uid }
func (p tPlanRes) Group() string   { return planField("g", p.n, p.same) }
func (p tPlanRes) Version() string { return planField("v", p.n, p.same) }
func (p tPlanRes) Kind() string    { return planField("k", p.n, p.same) }
func (p tPlanRes) Name() string    { return fmt.Sprint("n", p.n) }

func showRes(r plan.Resource) string {
	if r == nil {
		return "nil"
	}
	name := ""
	if x, ok := r.(interface{ Name() string }); ok {
		name = x.Name()
	}
	return fmt.Sprintf("%q %s %s %s %s", uidStr(r.UID()), r.Group(), r.Version(), r.Kind(), name)
}

func mkRes(u string, n, kind int) (plan.Resource, string) {
	same := kind > 4
	var r plan.Resource = tPlanRes{mkUID(u, kind), n, same}
	if kind%3 == 1 {
		r = Val{Kind: kResource, UID: u, UIDKind: kind, Name: fmt.Sprint("n", n), Group: planField("g", n, same), Version: planField("v", n, same), RKind: planField("k", n, same)}.build().(plan.Resource)
	}
	return r, showRes(r)
}

func runPlan(c PCase, r *R) error {
	p, err := simple.NewSimple()
	must(err)
	m := map[string]string{}
	uids := append([]string{}, c.UIDs...)
	n := 0
	add := func(u string, kind int) error {
		n++
		res, want := mkRes(u, n, kind)
		m[u] = want
		return p.Add(bg, res)
	}
	for i := 0; i < c.Grow; i++ {
		u := fmt.Sprintf("grown-%d", i)
		uids = append(uids, u)
		if err := add(u, i); err != nil {
			return err
		}
	}
	type keptList struct {
		i    int
		l    []plan.Resource
		want []string
	}
	var keep []keptList
	show := func(l []plan.Resource) []string {
		out := []string{}
		for _, x := range l {
			out = append(out, showRes(x))
		}
		sort.Strings(out)
		return out
	}
	replaced, deleted := false, false
	for i, o := range c.Ops {
		u := c.UIDs[o.U%len(c.UIDs)]
		_, had := m[u]
		switch o.Op {
		case "add":
			replaced = replaced || had
			err = add(u, o.UK)
		default:
			deleted = deleted || had
			delete(m, u)
			err = p.Delete(bg, mkUID(u, o.UK))
			if err == nil && o.Op == "deleteadd" {
				err = add(u, o.UK+1)
			}
		}
		what := fmt.Sprintf("op %d (%s %q)", i, o.Op, u)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		for j, u := range uids {
			got, err := p.Get(bg, mkUID(u, i+j))
			want, ok := m[u]
			switch {
			case !ok && !errors.Is(err, plan.ErrResourceNotFound):
				return fmt.Errorf("after %s: getting %q, not in the plan: %v, error %v", what, u, got, err)
			case ok && err != nil:
				return fmt.Errorf("after %s: getting %q: %v", what, u, err)
			case ok && showRes(got) != want:
				return fmt.Errorf("after %s: getting %q gives %s, want %s", what, u, showRes(got), want)
			}
		}
		l, err := p.GetAll(bg)
		if err != nil {
			return fmt.Errorf("after %s: listing: %v", what, err)
		}
		var want []string
		for _, w := range m {
			want = append(want, w)
		}
		sort.Strings(want)
		got := show(l)
		if !eqStrs(got, want) {
			return fmt.Errorf("after %s: the list is %q, want %q", what, got, want)
		}
		for _, k := range keep {
			if !eqStrs(show(k.l), k.want) {
				return fmt.Errorf("%s changed the list returned after op %d: %q, it was %q", what, k.i, show(k.l), k.want)
			}
		}
		if i%2 == 0 {
			keep = append(keep, keptList{i, l, got})
			if len(keep) > 8 {
				keep = keep[1:]
			}
		} else {
			for j := range l {
				l[j] = nil
			}
			_ = append(l, nil, nil)
		}
	}
	r.LabelIf(replaced, "replaced")
	r.LabelIf(deleted, "deleted")
	r.LabelIf(c.Grow > 0, "large")
	if replaced && deleted {
		r.NonTrivial()
	}
	return nil
}
