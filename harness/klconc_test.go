package harness

import (
	"errors"
	"fmt"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"pgregory.net/rapid"
)

func init() {
	kops := []string{"put", "put", "upsert", "delete", "delete", "clear", "from", "to", "bulkput", "bulkput", "bulkupsert", "bulkdelete", "bulkfrom", "bulkto"}
	ksetup := func(t *rapid.T) []COp {
		return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) COp {
			return COp{Op: "put", U: rapid.IntRange(0, 2).Draw(t, "u"), V: rapid.IntRange(0, 2).Draw(t, "v")}
		}), 1, 5).Draw(t, "put")
	}
	register("K03",
		Part("schedules", 2000, 40000, schedRule, genConc(kops, 1, 3, ksetup, "sched"), runConc(newKConc, nil)),
		Part("free", 3000, 60000, freeRule, genConc(kops, 1, 3, ksetup, "free", "race", "race"), runConc(newKConc, nil)),
		Part("large", 250, 12000, bigRule, genBig(1, []bigOp{
			{"bulkput", nil, []string{"bulkfrom", "bulkto", "to", "from", "bulkdelete", "put", "delete", "bulkput", "clear"}},
			{"bulkput", []string{"bulkput"}, []string{"bulkdelete", "delete", "clear", "bulkupsert", "upsert"}},
			{"bulkupsert", []string{"bulkput"}, []string{"bulkfrom", "bulkto", "to", "from", "bulkdelete", "upsert", "delete", "bulkupsert", "clear"}},
			{"bulkdelete", []string{"bulkput"}, []string{"bulkfrom", "bulkto", "to", "from", "bulkput", "put", "clear"}},
			{"bulkfrom", []string{"bulkput"}, []string{"upsert", "bulkupsert", "delete", "bulkdelete", "clear"}},
			{"bulkto", []string{"bulkput"}, []string{"upsert", "bulkupsert", "delete", "bulkdelete", "clear"}},
			{"delete", []string{"bulkput"}, []string{"bulkfrom", "bulkto", "to", "from", "put", "bulkput"}},
		}), runBig(newKConc, nil)))
	pops := []string{"add", "add", "get", "get", "getall", "delete"}
	psetup := func(t *rapid.T) []COp {
		return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) COp {
			return COp{Op: "add", U: rapid.IntRange(0, 2).Draw(t, "u")}
		}), 1, 4).Draw(t, "add")
	}
	register("L02",
		Part("schedules", 2000, 40000, schedRule, genConc(pops, 1, 3, psetup, "sched"), runConc(newPConc, nil)),
		Part("free", 3000, 60000, freeRule, genConc(pops, 1, 3, psetup, "free", "race", "race"), runConc(newPConc, nil)))
}

// hLink is a link that yields when it is read.
type hLink struct {
	s    *scheduler
	id   string
	f, t int
}

func (l hLink) UID() uuid.UID      { return hUID{l.s, l.id} }
func (l hLink) From() uuid.UID     { l.s.yield(); return hName(l.s, l.f) }
func (l hLink) To() uuid.UID       { l.s.yield(); return hName(l.s, l.t) }
func (l hLink) Attrs() attrs.Attrs { return memattrs.New() }

func hName(s *scheduler, i int) uuid.UID { return hUID{s, string(rune('a' + i))} }

// ---- the cache

type kConc struct {
	s *scheduler
	k *memcache.Links
	n int
	// ring is that of a BigCase.
	ring bool
}

func newKConc(c CCase, s *scheduler) (conSys, error) {
	k, err := memcache.NewLinks()
	return &kConc{s, k, max(3, c.N), c.Ring}, err
}

func showLinks(ls []cache.Link, err error) string {
	if err != nil {
		return err.Error()
	}
	var out []string
	for _, l := range ls {
		h, ok := l.(hLink)
		if !ok {
			return fmt.Sprintf("a link %v", l)
		}
		out = append(out, fmt.Sprintf("%s(%d,%d)", h.id, h.f, h.t))
	}
	return join(out)
}

// putPairs are the pairs a bulk put puts.
func putPairs(o COp) (ps [][2]int) {
	for i, l := range o.L {
		ps = append(ps, [2]int{(o.U + i) % 3, l})
	}
	return
}

func (x *kConc) do(o COp, id string) string {
	var links []cache.Link
	var uids []uuid.UID
	for i, p := range putPairs(o) {
		if x.ring {
			p = [2]int{o.L[i], (o.L[i] + 1 + o.U%2) % x.n}
		}
		links = append(links, hLink{x.s, fmt.Sprintf("%s/%d", id, i), p[0], p[1]})
		uids = append(uids, hName(x.s, o.L[i]))
	}
	bulk := func(m map[uuid.UID][]cache.Link, err error) string {
		if err != nil {
			return err.Error()
		}
		var out []string
		for _, u := range uids {
			out = append(out, showLinks(m[u], nil))
		}
		return strings.Join(out, " ")
	}
	u := hName(x.s, o.U)
	switch o.Op {
	case "put":
		return errStr(x.k.Put(bg, hLink{x.s, id, o.U, o.V}))
	case "upsert":
		return errStr(x.k.Put(bg, hLink{x.s, id, o.U, o.V}, cache.WithUpsert()))
	case "bulkput":
		return errStr(x.k.BulkPut(bg, links))
	case "bulkupsert":
		return errStr(x.k.BulkPut(bg, links, cache.WithUpsert()))
	case "delete":
		return errStr(x.k.Delete(bg, u))
	case "bulkdelete":
		return errStr(x.k.BulkDelete(bg, uids))
	case "clear":
		return errStr(x.k.Clear(bg))
	case "from":
		return showLinks(x.k.GetFrom(bg, u))
	case "to":
		return showLinks(x.k.GetTo(bg, u))
	case "bulkfrom":
		return bulk(x.k.BulkGetFrom(bg, uids))
	case "bulkto":
		return bulk(x.k.BulkGetTo(bg, uids))
	case "final":
		var out []string
		for i := 0; i < x.n; i++ {
			out = append(out, showLinks(x.k.GetFrom(bg, hName(x.s, i))), showLinks(x.k.GetTo(bg, hName(x.s, i))))
		}
		return strings.Join(out, " ")
	}
	panic("op " + o.Op)
}

func (x *kConc) model() conModel { return &kMini{map[[2]int]string{}} }

type kMini struct{ links map[[2]int]string }

func (m *kMini) clone() conModel {
	c := &kMini{map[[2]int]string{}}
	for k, v := range m.links {
		c.links[k] = v
	}
	return c
}

func (m *kMini) key() string { return fmt.Sprint(m.links) }

func (m *kMini) side(side, u int) string {
	var out []string
	for k, id := range m.links {
		if k[side] == u {
			out = append(out, fmt.Sprintf("%s(%d,%d)", id, k[0], k[1]))
		}
	}
	return join(out)
}

func (m *kMini) step(o COp, id string) string {
	put := func(p [2]int, id string, upsert bool) {
		if _, ok := m.links[p]; !ok || upsert {
			m.links[p] = id
		}
	}
	del := func(u int) {
		for k := range m.links {
			if k[0] == u || k[1] == u {
				delete(m.links, k)
			}
		}
	}
	var out []string
	switch o.Op {
	case "put", "upsert":
		put([2]int{o.U, o.V}, id, o.Op == "upsert")
	case "bulkput", "bulkupsert":
		for i, p := range putPairs(o) {
			put(p, fmt.Sprintf("%s/%d", id, i), o.Op == "bulkupsert")
		}
	case "delete":
		del(o.U)
	case "bulkdelete":
		for _, u := range o.L {
			del(u)
		}
	case "clear":
		m.links = map[[2]int]string{}
	case "from":
		return m.side(0, o.U)
	case "to":
		return m.side(1, o.U)
	case "bulkfrom", "bulkto":
		side := 0
		if o.Op == "bulkto" {
			side = 1
		}
		for _, u := range o.L {
			out = append(out, m.side(side, u))
		}
		return strings.Join(out, " ")
	case "final":
		for i := 0; i < 3; i++ {
			out = append(out, m.side(0, i), m.side(1, i))
		}
		return strings.Join(out, " ")
	default:
		panic("op " + o.Op)
	}
	return "ok"
}

// ---- the plan

type hRes struct {
	s  *scheduler
	u  int
	id string
}

func (r hRes) UID() uuid.UID   { r.s.yield(); return hName(r.s, r.u) }
func (r hRes) Group() string   { return "" }
func (r hRes) Version() string { return "" }
func (r hRes) Kind() string    { return "" }

type pConc struct {
	s *scheduler
	p plan.Plan
}

func newPConc(c CCase, s *scheduler) (conSys, error) {
	p, err := simple.NewSimple()
	return &pConc{s, p}, err
}

func (x *pConc) do(o COp, id string) string {
	switch o.Op {
	case "add":
		return errStr(x.p.Add(bg, hRes{x.s, o.U, id}))
	case "delete":
		return errStr(x.p.Delete(bg, hName(x.s, o.U)))
	case "get":
		r, err := x.p.Get(bg, hName(x.s, o.U))
		if errors.Is(err, plan.ErrResourceNotFound) {
			return "notfound"
		}
		if err != nil {
			return err.Error()
		}
		return r.(hRes).id
	case "getall", "final":
		rs, err := x.p.GetAll(bg)
		if err != nil {
			return err.Error()
		}
		var out []string
		for _, r := range rs {
			h, ok := r.(hRes)
			if !ok {
				return fmt.Sprintf("a resource %v", r)
			}
			out = append(out, h.id)
		}
		return join(out)
	}
	panic("op " + o.Op)
}

func (x *pConc) model() conModel { return &pMini{map[int]string{}} }

type pMini struct{ m map[int]string }

func (m *pMini) clone() conModel {
	c := &pMini{map[int]string{}}
	for k, v := range m.m {
		c.m[k] = v
	}
	return c
}

func (m *pMini) key() string { return fmt.Sprint(m.m) }

func (m *pMini) step(o COp, id string) string {
	switch o.Op {
	case "add":
		m.m[o.U] = id
	case "delete":
		delete(m.m, o.U)
	case "get":
		if r, ok := m.m[o.U]; ok {
			return r
		}
		return "notfound"
	case "getall", "final":
		var out []string
		for _, id := range m.m {
			out = append(out, id)
		}
		return join(out)
	default:
		panic("op " + o.Op)
	}
	return "ok"
}
