package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
	mjson "github.com/milosgajdos/netscrape/pkg/space/marshal/json"
	"github.com/milosgajdos/netscrape/pkg/store"
	"pgregory.net/rapid"
)

func init() {
	register("C01",
		Part("json", 6000, 120000, "one to four generated values of all kinds (constructors', by value and foreign implementations; special, long and colliding strings; up to 130 attributes) marshalled with one marshaler, then unmarshalled into fresh and used targets; non-trivial: some attributes, or a nested resource, or a string outside [abc]{1,2}", genVals, runC01JSON),
		Part("structs", 6000, 120000, "one generated value converted to its wire struct and back; non-trivial as above", genVal1, runC01Structs))
	register("C02",
		Part("documents", 12000, 400000, "documents made from a valid one by dropping, repeating, renaming, re-casing and re-typing keys, nesting, nulls, unknown keys, byte edits and truncation, plus random JSON and random bytes, decoded into each kind; oracle: encoding/json into the harness's own wire structs; non-trivial: the document is JSON, or an edit of a valid document", genC02, runC02),
		Part("other kinds", 400, 5000, "values and targets that are no space kind", genC02Other, runC02Other))
	register("C03", Part("documents", 8000, 150000, "one generated value; its bytes are read token by token and compared with the wire document; non-trivial: some attributes, or a nested resource, or a string outside [abc]{1,2}", genVal1, runC03))
	register("C04", Part("faults", 2500, 50000, "a generated value with a failing attribute source; every fault point (listing the keys, reading each key; for objects also each of the resource's) is tried with every operation that reads attributes, and once without a fault; non-trivial: at least two attributes", genC04, runC04))
}

func genVals(t *rapid.T) []Val {
	return drawList(t, "values", 1, 4, drawAnyVal)
}

func genVal1(t *rapid.T) Val { return drawAnyVal(t) }

func plain(ss ...string) bool {
	for _, s := range ss {
		if len(s) > 2 || strings.Trim(s, "abc") != "" || s == "" {
			return false
		}
	}
	return true
}

func (v Val) interesting() bool {
	if len(v.Attrs) > 0 || v.Res != nil {
		return true
	}
	if v.Kind == kLink {
		return !plain(v.UID, v.From, v.To)
	}
	return !plain(v.UID, v.Type)
}

func (v Val) label(r *R) {
	r.Label(v.Kind)
	r.LabelIf(len(v.Attrs) == 0, "no attributes")
	r.LabelIf(len(v.Attrs) > 8, "many attributes")
	r.LabelIf(v.Impl == 1, "foreign implementation")
	r.LabelIf(v.Res != nil, "object with resource")
	r.LabelIf(v.Kind == kObject && v.Res == nil, "object without resource")
}

func marshaler() *mjson.Marshaler {
	m, err := mjson.NewMarshaler()
	must(err)
	return m
}

// unmarshalInto decodes b as the kind, into a target that already holds init
// (nil: an empty one), and returns what the target holds afterwards.
func unmarshalInto(m *mjson.Marshaler, kind string, b []byte, init any) (any, error) {
	var err error
	switch kind {
	case kEntity:
		var x space.Entity
		if init != nil {
			x = init.(space.Entity)
		}
		err = m.Unmarshal(b, &x)
		if x == nil {
			return nil, err
		}
		return x, err
	case kResource:
		var x space.Resource
		if init != nil {
			x = init.(space.Resource)
		}
		err = m.Unmarshal(b, &x)
		if x == nil {
			return nil, err
		}
		return x, err
	case kObject:
		var x space.Object
		if init != nil {
			x = init.(space.Object)
		}
		err = m.Unmarshal(b, &x)
		if x == nil {
			return nil, err
		}
		return x, err
	case kLink:
		var x space.Link
		if init != nil {
			x = init.(space.Link)
		}
		err = m.Unmarshal(b, &x)
		if x == nil {
			return nil, err
		}
		return x, err
	}
	panic(kind)
}

// usedTarget is a value a target may hold before it is unmarshalled into.
func usedTarget(kind string) (Val, any) {
	v := Val{Kind: kind, UID: "old uid", Type: "old type", Name: "old name", NS: "old ns", Group: "old group", Version: "old version", RKind: "old kind", Nsd: true, From: "old from", To: "old to", Attrs: map[string]string{"old": "attr", "a": "old"}}
	if kind == kObject {
		v.Res = &Val{Kind: kResource, UID: "old res", Name: "old res name", Attrs: map[string]string{"old": "res attr"}}
	}
	if kind != kLink {
		v.From, v.To = "", ""
	}
	if kind != kResource {
		v.Group, v.Version, v.RKind, v.Nsd = "", "", "", false
	}
	if kind != kObject {
		v.NS = ""
	}
	return v, v.build()
}

func runC01JSON(vs []Val, r *R) error {
	m := marshaler()
	built := make([]any, len(vs))
	docs := make([][]byte, len(vs))
	for i, v := range vs {
		v.label(r)
		if v.interesting() {
			r.NonTrivial()
		}
		built[i] = v.build()
		b, err := m.Marshal(built[i])
		if err != nil {
			return fmt.Errorf("marshalling %s %d: %v", v.Kind, i, err)
		}
		docs[i] = b
	}
	outs := make([]any, len(vs))
	for i, v := range vs {
		var init any
		if i%2 == 1 || len(vs) == 1 && len(v.UID)%2 == 1 {
			_, init = usedTarget(v.Kind)
		}
		b := append([]byte(nil), docs[i]...)
		x, err := unmarshalInto(m, v.Kind, b, init)
		if err != nil {
			return fmt.Errorf("unmarshalling %s %d from %s: %v", v.Kind, i, clip(string(docs[i]), 500), err)
		}
		for j := range b {
			b[j] = 'x' // the value must not live in the bytes it came from
		}
		outs[i] = x
	}
	for i, v := range vs {
		if err := v.same(fmt.Sprintf("%s %d after the round trip through %s", v.Kind, i, clip(string(docs[i]), 300)), outs[i]); err != nil {
			return err
		}
		if err := v.same(fmt.Sprintf("%s %d, the value marshalled", v.Kind, i), built[i]); err != nil {
			return err
		}
	}
	// an entity read out of any of the entity kinds' documents
	for i, v := range vs {
		if v.Kind == kLink {
			continue
		}
		x, err := unmarshalInto(m, kEntity, docs[i], nil)
		if err != nil {
			return fmt.Errorf("unmarshalling the document of %s %d as an entity: %v", v.Kind, i, err)
		}
		e := v
		e.Kind = kEntity
		if err := e.same(fmt.Sprintf("entity part of %s %d", v.Kind, i), x); err != nil {
			return err
		}
	}
	// what came out is a value of its own: changing its attributes changes
	// no other
	for i, v := range vs {
		x := outs[i].(interface{ Attrs() attrs.Attrs })
		if err := x.Attrs().Set(bg, "changed", "later"); err != nil {
			return fmt.Errorf("setting an attribute of the unmarshalled %s: %v", v.Kind, err)
		}
		if err := v.same("the value marshalled, after changing the unmarshalled one", built[i]); err != nil {
			return err
		}
		for j := i + 1; j < len(vs); j++ {
			if err := vs[j].same("another unmarshalled value, after changing the first", outs[j]); err != nil {
				return err
			}
		}
	}
	return nil
}

func runC01Structs(v Val, r *R) error {
	v.label(r)
	if v.interesting() {
		r.NonTrivial()
	}
	x := v.build()
	var back any
	switch v.Kind {
	case kEntity:
		w, err := marshal.EntityFromSpace(x.(space.Entity))
		if err != nil {
			return err
		}
		if w.UID != v.UID || w.Type != v.Type || !eqMap(w.Attrs, v.Attrs) {
			return fmt.Errorf("wire struct %+v does not hold the entity", *w)
		}
		back, err = marshal.EntityToSpace(*w)
		if err != nil {
			return err
		}
		w.Attrs["later"] = "x"
	case kResource:
		w, err := marshal.ResourceFromSpace(x.(space.Resource))
		if err != nil {
			return err
		}
		back, err = marshal.ResourceToSpace(*w)
		if err != nil {
			return err
		}
		w.Attrs["later"] = "x"
	case kObject:
		w, err := marshal.ObjectFromSpace(x.(space.Object))
		if err != nil {
			return err
		}
		if (w.Resource == nil) != (v.Res == nil) {
			return fmt.Errorf("wire struct has a resource: %v, want %v", w.Resource != nil, v.Res != nil)
		}
		back, err = marshal.ObjectToSpace(*w)
		if err != nil {
			return err
		}
		w.Attrs["later"] = "x"
		if w.Resource != nil {
			w.Resource.Attrs["later"] = "x"
			w.Resource.Name = "later"
		}
	case kLink:
		w, err := marshal.LinkFromSpace(x.(space.Link))
		if err != nil {
			return err
		}
		back, err = marshal.LinkToSpace(*w)
		if err != nil {
			return err
		}
		w.Attrs["later"] = "x"
	}
	if err := v.same(v.Kind+" converted to its wire struct and back (the wire struct changed since)", back); err != nil {
		return err
	}
	return v.same("the value converted", x)
}

// --- C03 ---

// jnode is a JSON value read token by token, keys in order, duplicates kept.
type jnode struct {
	kind string // object, string, bool, other
	keys []string
	vals map[string]*jnode
	s    string
	b    bool
}

func readJSON(b []byte) (*jnode, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	n, err := readNode(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one JSON document")
	}
	return n, nil
}

func readNode(d *json.Decoder) (*jnode, error) {
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := tok.(type) {
	case string:
		return &jnode{kind: "string", s: x}, nil
	case bool:
		return &jnode{kind: "bool", b: x}, nil
	case json.Delim:
		if x != '{' {
			return &jnode{kind: "other"}, fmt.Errorf("unexpected %v", x)
		}
		n := &jnode{kind: "object", vals: map[string]*jnode{}}
		for d.More() {
			kt, err := d.Token()
			if err != nil {
				return nil, err
			}
			k := kt.(string)
			if n.vals[k] != nil {
				return nil, fmt.Errorf("key %q twice", k)
			}
			v, err := readNode(d)
			if err != nil {
				return nil, err
			}
			n.keys = append(n.keys, k)
			n.vals[k] = v
		}
		_, err := d.Token()
		return n, err
	}
	return &jnode{kind: "other"}, nil
}

// matches compares the document with what v's must be.
func (v Val) matches(n *jnode) error {
	if n.kind != "object" {
		return fmt.Errorf("the document is no object")
	}
	want := map[string]any{"uid": v.UID}
	if v.Kind == kLink {
		want["from"], want["to"] = v.From, v.To
	} else {
		want["type"] = v.Type
	}
	switch v.Kind {
	case kResource:
		want["name"], want["group"], want["version"], want["kind"], want["namespaced"] = v.Name, v.Group, v.Version, v.RKind, v.Nsd
	case kObject:
		want["name"], want["namespace"] = v.Name, v.NS
	}
	for k, w := range want {
		x := n.vals[k]
		if x == nil {
			return fmt.Errorf("key %q is missing", k)
		}
		switch w := w.(type) {
		case string:
			if x.kind != "string" || x.s != w {
				return fmt.Errorf("%q is %s %q, want the string %q", k, x.kind, clip(x.s, 200), clip(w, 200))
			}
		case bool:
			if x.kind != "bool" || x.b != w {
				return fmt.Errorf("%q is %s %v, want %v", k, x.kind, x.b, w)
			}
		}
	}
	got := map[string]string{}
	if a := n.vals["attrs"]; a != nil {
		if a.kind != "object" {
			return fmt.Errorf("attrs is no object")
		}
		for k, x := range a.vals {
			if x.kind != "string" {
				return fmt.Errorf("attribute %q is no string", k)
			}
			got[k] = x.s
		}
	}
	if !eqMap(got, v.Attrs) {
		return fmt.Errorf("attrs are %s, want %s", clip(fmt.Sprintf("%q", got), 400), clip(fmt.Sprintf("%q", v.Attrs), 400))
	}
	if v.Res != nil {
		x := n.vals["resource"]
		if x == nil {
			return fmt.Errorf("resource is missing")
		}
		if err := v.Res.matches(x); err != nil {
			return fmt.Errorf("resource: %v", err)
		}
	} else if n.vals["resource"] != nil {
		return fmt.Errorf("resource is there, though there is none")
	}
	for _, k := range n.keys {
		if _, ok := want[k]; !ok && k != "attrs" && k != "resource" {
			return fmt.Errorf("unexpected key %q", k)
		}
	}
	return nil
}

// linkish makes an entity-like value that could also pass for a link.
type linkish struct {
	space.Entity
	from, to tUID
}

func runC03(v Val, r *R) error {
	v.label(r)
	if v.interesting() {
		r.NonTrivial()
	}
	m := marshaler()
	x := v.build()
	b, err := m.Marshal(x)
	if err != nil {
		return fmt.Errorf("marshalling: %v", err)
	}
	check := func(what string, b []byte, v Val) error {
		n, err := readJSON(b)
		if err != nil {
			return fmt.Errorf("%s: %s is not a wire document: %v", what, clip(string(b), 500), err)
		}
		if err := v.matches(n); err != nil {
			return fmt.Errorf("%s: %s: %v", what, clip(string(b), 500), err)
		}
		return nil
	}
	if err := check(v.Kind, b, v); err != nil {
		return err
	}
	// the same bytes must still be there after the marshaler was used again
	keep := string(b)
	other, err := m.Marshal(Val{Kind: kEntity, UID: "other", Type: strings.Repeat("y", 40)}.build())
	if err != nil {
		return err
	}
	if string(b) != keep {
		return fmt.Errorf("the bytes changed when the marshaler was used again (for %s)", other)
	}
	// nor may a later document be this one: the same value with one more
	// attribute, or with one changed
	k, val := "later", "y"
	if ks := sortedKeys(v.Attrs); len(ks) > 0 && len(v.UID)%2 == 0 {
		k = ks[0]
		val = v.Attrs[k] + "z"
	}
	if err := x.(interface{ Attrs() attrs.Attrs }).Attrs().Set(bg, k, val); err == nil {
		w := v
		w.Attrs = copyMap(v.Attrs)
		w.Attrs[k] = val
		if err := w.same("the value with another attribute", x); err != nil {
			return err
		}
		again, err := m.Marshal(x)
		if err != nil {
			return fmt.Errorf("marshalling again: %v", err)
		}
		if string(b) != keep {
			return fmt.Errorf("the bytes changed when the value was marshalled again")
		}
		if err := check(v.Kind+", marshalled again with one attribute set", again, w); err != nil {
			return err
		}
		v = w
		x = v.build()
	}
	if v.Kind == kEntity {
		// anything else with a UID, a type and attributes
		node, err := memgraph.NewNode(7, x.(graph.Entity), graph.WithAttrs(mkAttrs(v.Attrs, v.AKind)))
		must(err)
		b, err := m.Marshal(node)
		if err != nil {
			return fmt.Errorf("marshalling a graph node of the entity: %v", err)
		}
		return check("graph node", b, v)
	}
	return nil
}

// --- C02 ---

type C02Case struct {
	Kind string `json:"kind"`
	Doc  []byte `json:"doc"`
	Used bool   `json:"used"`
	How  string `json:"how"`
}

// own wire structs of the oracle
type wireEntity struct {
	UID   string            `json:"uid"`
	Type  string            `json:"type"`
	Attrs map[string]string `json:"attrs"`
}
type wireResource struct {
	UID        string            `json:"uid"`
	Type       string            `json:"type"`
	Attrs      map[string]string `json:"attrs"`
	Name       string            `json:"name"`
	Group      string            `json:"group"`
	Version    string            `json:"version"`
	Kind       string            `json:"kind"`
	Namespaced bool              `json:"namespaced"`
}
type wireObject struct {
	UID       string            `json:"uid"`
	Type      string            `json:"type"`
	Attrs     map[string]string `json:"attrs"`
	Name      string            `json:"name"`
	Namespace string            `json:"namespace"`
	Resource  *wireResource     `json:"resource"`
}
type wireLink struct {
	UID   string            `json:"uid"`
	From  string            `json:"from"`
	To    string            `json:"to"`
	Attrs map[string]string `json:"attrs"`
}

func (w wireResource) val() Val {
	return Val{Kind: kResource, UID: w.UID, Type: w.Type, Attrs: w.Attrs, Name: w.Name, Group: w.Group, Version: w.Version, RKind: w.Kind, Nsd: w.Namespaced}
}

// reference decodes b as the kind with the harness's structs.
func reference(kind string, b []byte) (Val, error) {
	switch kind {
	case kEntity:
		var w wireEntity
		err := json.Unmarshal(b, &w)
		return Val{Kind: kind, UID: w.UID, Type: w.Type, Attrs: w.Attrs}, err
	case kResource:
		var w wireResource
		err := json.Unmarshal(b, &w)
		return w.val(), err
	case kObject:
		var w wireObject
		err := json.Unmarshal(b, &w)
		v := Val{Kind: kind, UID: w.UID, Type: w.Type, Attrs: w.Attrs, Name: w.Name, NS: w.Namespace}
		if w.Resource != nil {
			r := w.Resource.val()
			v.Res = &r
		}
		return v, err
	default:
		var w wireLink
		err := json.Unmarshal(b, &w)
		return Val{Kind: kind, UID: w.UID, From: w.From, To: w.To, Attrs: w.Attrs}, err
	}
}

func quote(s string) string {
	b, err := json.Marshal(s)
	must(err)
	return string(b)
}

func drawJSON(t *rapid.T, depth int) string {
	k := rapid.IntRange(0, 9).Draw(t, "json")
	if depth <= 0 && k > 6 {
		k = 0
	}
	switch k {
	case 0, 1:
		return quote(drawStr(t, "s"))
	case 2:
		return rapid.SampledFrom([]string{"null", "true", "false"}).Draw(t, "lit")
	case 3, 4:
		return rapid.SampledFrom([]string{"0", "1", "-1", "1.5", "1e999", "123456789012345678901234567890", "-0"}).Draw(t, "num")
	case 5:
		return rapid.SampledFrom([]string{"[]", "{}", `""`, `"\ud800"`, `"\u0000"`, `"\x"`, "\"\xff\"", "01", "nul"}).Draw(t, "odd")
	case 6, 7:
		n := rapid.IntRange(0, 2).Draw(t, "n")
		s := []string{}
		for i := 0; i < n; i++ {
			s = append(s, drawJSON(t, depth-1))
		}
		return "[" + strings.Join(s, ",") + "]"
	default:
		return drawObj(t, depth-1, rapid.SampledFrom(kinds).Draw(t, "k"))
	}
}

var wireKeys = map[string][]string{
	kEntity:   {"uid", "type", "attrs"},
	kResource: {"uid", "type", "attrs", "name", "group", "version", "kind", "namespaced"},
	kObject:   {"uid", "type", "attrs", "name", "namespace", "resource"},
	kLink:     {"uid", "from", "to", "attrs"},
}

// drawObj draws an object that is more or less a wire document.
func drawObj(t *rapid.T, depth int, kind string) string {
	var fields []string
	ws := rapid.SampledFrom([]string{"", "", "", " ", "\n", "\t "}).Draw(t, "ws")
	add := func(k, v string) { fields = append(fields, ws+quote(k)+ws+":"+ws+v) }
	for _, k := range wireKeys[kind] {
		e := rapid.IntRange(0, 39).Draw(t, "edit")
		name := k
		if e == 0 {
			continue
		}
		if e == 1 {
			name = strings.ToUpper(k)
		}
		if e == 2 {
			name = k + "x"
		}
		if e == 3 {
			add(name, drawJSON(t, depth-1))
			continue
		}
		val := func() string {
			if e == 4 {
				return "null"
			}
			switch k {
			case "attrs":
				m := drawMap(t, "attrs")
				var kv []string
				for _, k := range sortedKeys(m) {
					v := quote(m[k])
					if rapid.IntRange(0, 49).Draw(t, "av") == 0 {
						v = drawJSON(t, 1)
					}
					kv = append(kv, quote(k)+":"+v)
				}
				return "{" + strings.Join(kv, ",") + "}"
			case "namespaced":
				return rapid.SampledFrom([]string{"true", "false"}).Draw(t, "b")
			case "resource":
				return drawObj(t, depth-1, kResource)
			default:
				return quote(drawStr(t, k))
			}
		}
		add(name, val())
		if e == 5 || e == 6 {
			add(k, val())
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "unknown?") == 0 {
		add(drawStr(t, "unknown"), drawJSON(t, depth-1))
	}
	if rapid.IntRange(0, 3).Draw(t, "rot") == 0 && len(fields) > 1 {
		fields = append(fields[1:], fields[0])
	}
	return ws + "{" + strings.Join(fields, ",") + ws + "}" + ws
}

func genC02(t *rapid.T) C02Case {
	c := C02Case{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Used: rapid.Bool().Draw(t, "used")}
	switch rapid.IntRange(0, 9).Draw(t, "how") {
	case 0, 1, 2, 3:
		c.How, c.Doc = "document", []byte(drawObj(t, 3, c.Kind))
	case 4:
		c.How, c.Doc = "document of a kind", []byte(drawObj(t, 3, rapid.SampledFrom(kinds).Draw(t, "other")))
	case 5:
		c.How, c.Doc = "json", []byte(drawJSON(t, 3))
	case 6:
		c.How, c.Doc = "bytes", rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "bytes")
	case 7:
		c.How = "truncated"
		d := []byte(drawObj(t, 3, c.Kind))
		c.Doc = d[:rapid.IntRange(0, len(d)).Draw(t, "cut")]
	case 8:
		c.How = "trailing"
		around := append([]string{"{}", "x", "null", " \n", "\x00", "}", ",", "//", "\xef\xbb\xbf", "\v", "\f", "\u00a0", "\u2028", "\x1e", ")]}'\n", "/**/", "0", "\"", "\r\n", "[", "]"}, dict.strs...)
		head, tail := pick(t, "head", around), pick(t, "tail", around)
		switch uni(t, 4, "where") {
		case 0:
			tail = ""
		case 1, 2:
			head = ""
		}
		c.Doc = []byte(head + drawObj(t, 3, c.Kind) + tail)
	default:
		c.How = "edited"
		d := []byte(drawObj(t, 3, c.Kind))
		for i := rapid.IntRange(1, 3).Draw(t, "edits"); i > 0 && len(d) > 0; i-- {
			at := rapid.IntRange(0, len(d)-1).Draw(t, "at")
			switch rapid.IntRange(0, 2).Draw(t, "edit") {
			case 0:
				d[at] = rapid.SampledFrom([]byte("{}[]\",:0a \\\x00\xff")).Draw(t, "to")
			case 1:
				d = append(d[:at], d[at+1:]...)
			default:
				d = append(d[:at], append([]byte{rapid.SampledFrom([]byte("{}[]\",:0a \\\x00\xff")).Draw(t, "ins")}, d[at:]...)...)
			}
		}
		c.Doc = d
	}
	return c
}

func runC02(c C02Case, r *R) error {
	r.Label(c.How)
	want, refErr := reference(c.Kind, c.Doc)
	r.LabelIf(refErr == nil, "accepted")
	r.LabelIf(refErr != nil, "rejected")
	if json.Valid(c.Doc) || c.How == "edited" || c.How == "truncated" || c.How == "trailing" {
		r.NonTrivial()
	}
	m := marshaler()
	var initVal Val
	var init any
	if c.Used {
		initVal, init = usedTarget(c.Kind)
	}
	doc := append([]byte(nil), c.Doc...)
	x, err := unmarshalInto(m, c.Kind, doc, init)
	if !bytes.Equal(doc, c.Doc) {
		return fmt.Errorf("unmarshalling changed the bytes it was given")
	}
	if (err == nil) != (refErr == nil) {
		return fmt.Errorf("unmarshalling %q as %s: error %v, the wire structure says %v", clip(string(c.Doc), 500), c.Kind, err, refErr)
	}
	if err != nil {
		if !c.Used {
			if x != nil {
				return fmt.Errorf("unmarshalling %q as %s failed (%v) but set the target", clip(string(c.Doc), 500), c.Kind, err)
			}
			return nil
		}
		return initVal.same(fmt.Sprintf("the target after a failed unmarshal of %q", clip(string(c.Doc), 300)), x)
	}
	if err := want.same(fmt.Sprintf("%s unmarshalled from %q", c.Kind, clip(string(c.Doc), 500)), x); err != nil {
		return err
	}
	b, err := m.Marshal(x)
	if err != nil {
		return fmt.Errorf("marshalling what was unmarshalled from %q: %v", clip(string(c.Doc), 500), err)
	}
	y, err := unmarshalInto(m, c.Kind, b, nil)
	if err != nil {
		return fmt.Errorf("unmarshalling it again from %q: %v", b, err)
	}
	return want.same("the value unmarshalled, marshalled and unmarshalled again", y)
}

type C02Other struct {
	What int    `json:"what"`
	Doc  string `json:"doc"`
}

func genC02Other(t *rapid.T) C02Other {
	return C02Other{rapid.IntRange(0, 19).Draw(t, "what"), drawObj(t, 2, rapid.SampledFrom(kinds).Draw(t, "kind"))}
}

type notLink struct{ tLink }

func (notLink) From() int { return 0 }

func runC02Other(c C02Other, r *R) error {
	r.NonTrivial()
	m := marshaler()
	l := tLink{tUID{"u"}, tUID{"f"}, tUID{"t"}, memattrs.New()}
	vals := []any{nil, 1, "x", []byte("x"), struct{}{}, map[string]string{"uid": "x"}, marshal.Entity{UID: "x"}, &marshal.Link{UID: "x"}, []space.Entity{}, errors.New("x"), notLink{l}, tUID{"x"}, memattrs.New(), func() {}, make(chan int), &l.uid}
	v := vals[c.What%len(vals)]
	b, err := m.Marshal(v)
	if !errors.Is(err, marshal.ErrUnsuportedType) || len(b) > 0 {
		return fmt.Errorf("marshalling a %T: %q, %v; want the unsupported-type error", v, b, err)
	}
	var (
		i   int
		s   string
		mm  = map[string]string{}
		we  marshal.Entity
		wl  marshal.Link
		ent space.Entity
		any any
		se  []space.Entity
	)
	targets := []interface{}{nil, &i, &s, mm, &mm, &we, &wl, ent, any, &any, &se, l, i, s, Val{Kind: kEntity}.build(), Val{Kind: kLink}.build()}
	x := targets[c.What%len(targets)]
	if err := m.Unmarshal([]byte(c.Doc), x); !errors.Is(err, marshal.ErrUnsuportedType) {
		return fmt.Errorf("unmarshalling into a %T: %v; want the unsupported-type error", x, err)
	}
	if i != 0 || s != "" || len(mm) != 0 || we.UID != "" || wl.UID != "" || any != nil || se != nil {
		return fmt.Errorf("unmarshalling into a %T changed it", x)
	}
	return nil
}

// --- C04 ---

type C04Case struct {
	V     Val `json:"v"`
	Order int `json:"order"`
	Err   int `json:"err,omitempty"`
}

// srcErrs are errors attribute sources fail with.
var srcErrs = []error{nil, nil, nil, context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, os.ErrNotExist, store.ErrNotExist, store.ErrEntityNotFound, graph.ErrNodeNotFound, graph.ErrMissingEntity, marshal.ErrUnsuportedType, fmt.Errorf("wrapped: %w", context.Canceled), fmt.Errorf("wrapped: %w", io.EOF)}

func genC04(t *rapid.T) C04Case {
	c := C04Case{V: drawAnyVal(t), Order: rapid.IntRange(0, 3).Draw(t, "order"), Err: uni(t, len(srcErrs), "err")}
	// the fault points are enumerated: keep the sources small
	trim := func(m map[string]string) {
		for _, k := range sortedKeys(m) {
			if len(m) <= 12 {
				return
			}
			delete(m, k)
		}
	}
	for i := uni(t, 5, "more"); i > 0; i-- {
		if c.V.Attrs == nil {
			c.V.Attrs = map[string]string{}
		}
		c.V.Attrs[drawStr(t, "k")] = drawStr(t, "v")
	}
	trim(c.V.Attrs)
	if c.V.Res != nil {
		trim(c.V.Res.Attrs)
	}
	return c
}

func isNilPtr(x any) bool {
	switch v := x.(type) {
	case nil:
		return true
	case map[string]string:
		return v == nil
	case *memattrs.Attrs:
		return v == nil
	case *marshal.Entity:
		return v == nil
	case *marshal.Resource:
		return v == nil
	case *marshal.Object:
		return v == nil
	case *marshal.Link:
		return v == nil
	case []byte:
		return len(v) == 0
	case graph.Graph:
		return false
	}
	return false
}

func runC04(c C04Case, r *R) error {
	v := c.V
	v.label(r)
	nres := 0
	if v.Res != nil {
		nres = len(v.Res.Attrs)
	}
	if len(v.Attrs)+nres >= 2 {
		r.NonTrivial()
	}
	m := marshaler()
	// the DOT list cannot carry an error
	if l := memattrs.DOTAttrs(&tAttrs{m: copyMap(v.Attrs), order: c.Order}); len(l) != len(v.Attrs) {
		return fmt.Errorf("the DOT list of %d attributes has %d", len(v.Attrs), len(l))
	}
	fs := []string{"keys"}
	for k := range v.Attrs {
		fs = append(fs, "get:"+k)
	}
	for _, f := range fs {
		if l := memattrs.DOTAttrs(&tAttrs{m: copyMap(v.Attrs), order: c.Order, failing: f, err: srcErrs[c.Err]}); len(l) != 0 {
			return fmt.Errorf("the DOT list of attributes failing at %q is %v, want none", f, l)
		}
	}
	type op struct {
		name  string
		entry func(a, ra attrs.Attrs) (any, error)
		check func(x any) error
		res   bool
	}
	// mine is the context of the operations that are given one.
	mine := context.WithValue(bg, ctxKey{}, "C04")
	takesCtx := 3 // so many of the operations, the first ones
	ops := []op{
		{"the attributes to a map", func(a, _ attrs.Attrs) (any, error) { return attrs.ToMap(mine, a) }, func(x any) error {
			if !eqMap(x.(map[string]string), v.Attrs) {
				return fmt.Errorf("got %q, want %q", x, v.Attrs)
			}
			return nil
		}, false},
		{"copying the attributes", func(a, _ attrs.Attrs) (any, error) { return memattrs.NewCopyFrom(mine, a) }, func(x any) error {
			return wantAttrs("copy", x.(*memattrs.Attrs), v.Attrs)
		}, false},
		{"a subgraph of a graph with a link having the attributes", func(a, _ attrs.Attrs) (any, error) {
			g, err := memgraph.NewWDG()
			must(err)
			for _, u := range []string{"x", "y", "z"} {
				n, err := g.NewNode(bg, tEnt{tUID{u}, "t", memattrs.New()})
				must(err)
				must(g.AddNode(bg, n))
			}
			_, err = g.Link(bg, tUID{"x"}, tUID{"y"}, graph.WithAttrs(a))
			must(err)
			_, err = g.Link(bg, tUID{"y"}, tUID{"z"})
			must(err)
			return g.SubGraph(mine, tUID{"x"}, 2)
		}, func(x any) error {
			e, err := x.(graph.Graph).Edge(bg, tUID{"x"}, tUID{"y"})
			if err != nil {
				return err
			}
			return wantAttrs("link", e.Attrs(), v.Attrs)
		}, false},
		{"marshalling to JSON", func(a, ra attrs.Attrs) (any, error) { return m.Marshal(v.buildWith(a, ra)) }, func(x any) error {
			n, err := readJSON(x.([]byte))
			if err != nil {
				return err
			}
			return v.matches(n)
		}, true},
		{"converting to the wire struct", func(a, ra attrs.Attrs) (any, error) {
			switch x := v.buildWith(a, ra); v.Kind {
			case kEntity:
				return marshal.EntityFromSpace(x.(space.Entity))
			case kResource:
				return marshal.ResourceFromSpace(x.(space.Resource))
			case kObject:
				return marshal.ObjectFromSpace(x.(space.Object))
			default:
				return marshal.LinkFromSpace(x.(space.Link))
			}
		}, func(x any) error {
			switch w := x.(type) {
			case *marshal.Entity:
				y, err := marshal.EntityToSpace(*w)
				if err != nil {
					return err
				}
				return v.same("entity", y)
			case *marshal.Resource:
				y, err := marshal.ResourceToSpace(*w)
				if err != nil {
					return err
				}
				return v.same("resource", y)
			case *marshal.Object:
				y, err := marshal.ObjectToSpace(*w)
				if err != nil {
					return err
				}
				return v.same("object", y)
			case *marshal.Link:
				y, err := marshal.LinkToSpace(*w)
				if err != nil {
					return err
				}
				return v.same("link", y)
			}
			return fmt.Errorf("got a %T", x)
		}, true},
	}
	points := func(m map[string]string) []string {
		ps := []string{"keys"}
		for _, k := range sortedKeys(m) {
			ps = append(ps, "get:"+k)
		}
		return ps
	}
	src := func(m map[string]string, failing string) attrs.Attrs {
		return &tAttrs{m: copyMap(m), failing: failing, order: c.Order, err: srcErrs[c.Err]}
	}
	resSrc := func(failing string) attrs.Attrs {
		if v.Res == nil {
			return nil
		}
		return src(v.Res.Attrs, failing)
	}
	for i, o := range ops {
		if i < takesCtx {
			a := &tAttrs{m: copyMap(v.Attrs), order: c.Order, ctx: "C04"}
			x, err := o.entry(a, resSrc(""))
			if err != nil {
				return fmt.Errorf("%s that can be read only under the caller's context: %v", o.name, err)
			}
			a.ctx = nil
			if err := o.check(x); err != nil {
				return fmt.Errorf("%s that can be read only under the caller's context: %v", o.name, err)
			}
			// the context ends at any point of the reading
			for _, f := range points(v.Attrs) {
				ctx, cancel := context.WithCancel(mine)
				mine = ctx
				a := &tAttrs{m: copyMap(v.Attrs), order: c.Order, at: func(p string) {
					if p == f {
						cancel()
					}
				}}
				x, err := o.entry(a, nil)
				cancel()
				mine = context.WithValue(bg, ctxKey{}, "C04")
				what := fmt.Sprintf("%s under a context that ends when %q is read", o.name, f)
				if err != nil {
					if !isNilPtr(x) {
						return fmt.Errorf("%s: error %v and the partial result %v", what, err, x)
					}
				} else if err := o.check(x); err != nil {
					return fmt.Errorf("%s: no error: %v", what, err)
				}
			}
		}
		x, err := o.entry(src(v.Attrs, ""), resSrc(""))
		if err != nil {
			return fmt.Errorf("%s without a fault: %v", o.name, err)
		}
		if err := o.check(x); err != nil {
			return fmt.Errorf("%s without a fault: %v", o.name, err)
		}
		for _, f := range points(v.Attrs) {
			x, err := o.entry(src(v.Attrs, f), resSrc(""))
			if err == nil {
				return fmt.Errorf("%s with a source failing at %q: no error (got %v)", o.name, f, x)
			}
			if !isNilPtr(x) {
				return fmt.Errorf("%s with a source failing at %q: error %v and the partial result %v", o.name, f, err, x)
			}
		}
		if o.res && v.Res != nil {
			r.Label("resource faults")
			for _, f := range points(v.Res.Attrs) {
				x, err := o.entry(src(v.Attrs, ""), resSrc(f))
				if err == nil {
					return fmt.Errorf("%s with the resource's source failing at %q: no error (got %v)", o.name, f, x)
				}
				if !isNilPtr(x) {
					return fmt.Errorf("%s with the resource's source failing at %q: error %v and the partial result %v", o.name, f, err, x)
				}
			}
		}
	}
	return nil
}
