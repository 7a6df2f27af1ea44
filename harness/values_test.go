package harness

import (
	"fmt"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"pgregory.net/rapid"
)

const (
	kEntity   = "entity"
	kResource = "resource"
	kObject   = "object"
	kLink     = "link"
)

var kinds = []string{kEntity, kResource, kObject, kLink}

// Val describes a space value.
type Val struct {
	Kind    string            `json:"kind"`
	UID     string            `json:"uid"`
	Type    string            `json:"type,omitempty"`
	Name    string            `json:"name,omitempty"`
	NS      string            `json:"ns,omitempty"`
	Group   string            `json:"group,omitempty"`
	Version string            `json:"version,omitempty"`
	RKind   string            `json:"rkind,omitempty"`
	Nsd     bool              `json:"nsd,omitempty"`
	From    string            `json:"from,omitempty"`
	To      string            `json:"to,omitempty"`
	Attrs   map[string]string `json:"attrs,omitempty"`
	Res     *Val              `json:"res,omitempty"`
	UIDKind int               `json:"uidkind,omitempty"`
	AKind   int               `json:"akind,omitempty"`
	Impl    int               `json:"impl,omitempty"` // 0 the constructor's, 1 the harness's own type, 2 the constructor's by value
}

func drawVal(t *rapid.T, kind string) Val {
	v := Val{Kind: kind}
	v.UID = drawStr(t, "uid")
	v.Attrs = drawMap(t, "attrs")
	v.UIDKind = rapid.IntRange(0, 3).Draw(t, "uidkind")
	v.AKind = rapid.IntRange(0, 3).Draw(t, "akind")
	v.Impl = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "impl")
	if kind != kLink {
		v.Type = drawStr(t, "type")
	}
	switch kind {
	case kResource:
		v.Name, v.Group, v.Version, v.RKind = drawStr(t, "name"), drawStr(t, "group"), drawStr(t, "version"), drawStr(t, "kind")
		v.Nsd = rapid.Bool().Draw(t, "nsd")
	case kObject:
		v.Name, v.NS = drawStr(t, "name"), drawStr(t, "ns")
		if rapid.IntRange(0, 2).Draw(t, "res?") > 0 {
			r := drawVal(t, kResource)
			v.Res = &r
		}
	case kLink:
		v.From, v.To = drawStr(t, "from"), drawStr(t, "to")
	}
	return v
}

func drawAnyVal(t *rapid.T) Val { return drawVal(t, rapid.SampledFrom(kinds).Draw(t, "kind")) }

type tEnt struct {
	uid   uuid.UID
	typ   string
	attrs attrs.Attrs
}

func (e tEnt) UID() uuid.UID      { return e.uid }
func (e tEnt) Type() string       { return e.typ }
func (e tEnt) Attrs() attrs.Attrs { return e.attrs }

type tRes struct {
	tEnt
	v *Val
}

func (r tRes) Name() string     { return r.v.Name }
func (r tRes) Group() string    { return r.v.Group }
func (r tRes) Version() string  { return r.v.Version }
func (r tRes) Kind() string     { return r.v.RKind }
func (r tRes) Namespaced() bool { return r.v.Nsd }

type tObj struct {
	tEnt
	v   *Val
	res space.Resource
}

func (o tObj) Name() string             { return o.v.Name }
func (o tObj) Namespace() string        { return o.v.NS }
func (o tObj) Resource() space.Resource { return o.res }

type tLink struct {
	uid, from, to uuid.UID
	attrs         attrs.Attrs
}

func (l tLink) UID() uuid.UID      { return l.uid }
func (l tLink) From() uuid.UID     { return l.from }
func (l tLink) To() uuid.UID       { return l.to }
func (l tLink) Attrs() attrs.Attrs { return l.attrs }

func (v Val) attrs() attrs.Attrs { return mkAttrs(v.Attrs, v.AKind) }

// build makes the value (a space.Entity, Resource, Object or Link).
func (v Val) build() any { return v.buildWith(v.attrs(), nil) }

// buildWith makes the value with the attributes a and, for an object's
// resource, ra (nil: its own).
func (v Val) buildWith(a, ra attrs.Attrs) any {
	uid := mkUID(v.UID, v.UIDKind)
	ent := tEnt{uid, v.Type, a}
	switch v.Kind {
	case kEntity:
		if v.Impl == 1 {
			return ent
		}
		e, err := entity.New(v.Type, entity.WithUID(uid), entity.WithAttrs(a))
		must(err)
		return e
	case kResource:
		if v.Impl == 1 {
			return tRes{ent, &v}
		}
		r, err := entity.NewResource(v.Type, v.Name, v.Group, v.Version, v.RKind, v.Nsd, entity.WithUID(uid), entity.WithAttrs(a))
		must(err)
		if v.Impl == 2 {
			return *r
		}
		return r
	case kObject:
		var res space.Resource
		if v.Res != nil {
			if ra == nil {
				ra = v.Res.attrs()
			}
			res = v.Res.buildWith(ra, nil).(space.Resource)
		}
		if v.Impl == 1 {
			return tObj{ent, &v, res}
		}
		o, err := entity.NewObject(v.Type, v.Name, v.NS, res, entity.WithUID(uid), entity.WithAttrs(a))
		must(err)
		return o
	case kLink:
		from, to := mkUID(v.From, v.UIDKind+1), mkUID(v.To, v.UIDKind+2)
		if v.Impl == 1 {
			return tLink{uid, from, to, a}
		}
		l, err := link.New(from, to, link.WithUID(uid), link.WithAttrs(a))
		must(err)
		if v.Impl == 2 {
			return *l
		}
		return l
	}
	panic("kind " + v.Kind)
}

type diffs []string

func (d *diffs) str(what, got, want string) {
	if got != want {
		*d = append(*d, fmt.Sprintf("%s is %q, want %q", what, clip(got, 200), clip(want, 200)))
	}
}

func uidStr(u uuid.UID) string {
	if u == nil {
		return "<nil UID>"
	}
	return u.String()
}

func (d *diffs) attrs(what string, a attrs.Attrs, want map[string]string) {
	if err := wantAttrs(what, a, want); err != nil {
		*d = append(*d, err.Error())
	}
}

func (d diffs) err(what string) error {
	if len(d) == 0 {
		return nil
	}
	return fmt.Errorf("%s: %s", what, d[0])
}

// same says how x, a space value, differs from v.
func (v Val) same(what string, x any) error {
	var d diffs
	if v.Kind == kLink {
		l, ok := x.(space.Link)
		if !ok || l == nil {
			return fmt.Errorf("%s: is a %T, not a link", what, x)
		}
		d.str("uid", uidStr(l.UID()), v.UID)
		d.str("from", uidStr(l.From()), v.From)
		d.str("to", uidStr(l.To()), v.To)
		d.attrs("link", l.Attrs(), v.Attrs)
		return d.err(what)
	}
	e, ok := x.(space.Entity)
	if !ok || e == nil {
		return fmt.Errorf("%s: is a %T, not an entity", what, x)
	}
	d.str("uid", uidStr(e.UID()), v.UID)
	d.str("type", e.Type(), v.Type)
	d.attrs(v.Kind, e.Attrs(), v.Attrs)
	switch v.Kind {
	case kResource:
		r, ok := x.(space.Resource)
		if !ok {
			return fmt.Errorf("%s: is a %T, not a resource", what, x)
		}
		d.str("name", r.Name(), v.Name)
		d.str("group", r.Group(), v.Group)
		d.str("version", r.Version(), v.Version)
		d.str("kind", r.Kind(), v.RKind)
		d.str("namespaced", fmt.Sprint(r.Namespaced()), fmt.Sprint(v.Nsd))
	case kObject:
		o, ok := x.(space.Object)
		if !ok {
			return fmt.Errorf("%s: is a %T, not an object", what, x)
		}
		d.str("name", o.Name(), v.Name)
		d.str("namespace", o.Namespace(), v.NS)
		switch {
		case (o.Resource() == nil) != (v.Res == nil):
			d.str("has a resource", fmt.Sprint(o.Resource() != nil), fmt.Sprint(v.Res != nil))
		case v.Res != nil:
			if err := v.Res.same("its resource", o.Resource()); err != nil {
				d = append(d, err.Error())
			}
		}
	}
	return d.err(what)
}
