package checks

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{
		ID: "C17", Level: "exploration", Shards: 8,
		Rule: "Every sequence of N operations on two documents (create, read different XML and JSON, also in vain, set and remove by path, merge, copy by writing and reading, embed in the pantry, write, edit models and nodes in place, remove a name space, close, close again) leaves each document with the content the operations on it give in isolation: the reference runs each document's own history with fresh nodes and nothing ever closed. After every sequence a canary document reads and writes as before. For every property of every model, a copy by XML, by JSON, by merging and by embedding is unchanged after the source was edited in place and closed and its nodes were reused, and the other way around; new models never share values. Encoders and decoders used for two documents treat the second like the first. Non-trivial: both documents are open, or one was closed.",
		Assumptions: []string{
			"The documents of the operation sequences hold models that do not synchronize properties with others (C22).",
			"A document that was closed is not used any more, except for closing it again.",
		},
		Run: runC17,
	})
}

// poke edits everything in a document in place.
func poke(d *xmp.Document) {
	for _, n := range d.Nodes() {
		pokeNode(n, true)
	}
}

func pokeNode(n *xmp.Node, top bool) {
	if !top && n.Value != "" {
		n.Value += "!"
	}
	for i := range n.Attr {
		n.Attr[i].Value += "!"
	}
	for _, x := range n.Nodes {
		pokeNode(x, false)
	}
	if n.Model != nil {
		pokeV(reflect.ValueOf(n.Model))
	}
}

var xmlNameType = reflect.TypeOf(xml.Name{})

func pokeV(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch x := v.Interface().(type) {
		case *xmp.Extension:
			pokeNode((*xmp.Node)(x), false)
		case *xmp.Node:
			pokeNode(x, false)
		case *xmp.Namespace, *xmp.Document:
		default:
			pokeV(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			pokeV(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			pokeV(v.Index(i))
		}
		if v.Kind() == reflect.Slice && v.Len() < v.Cap() {
			// what follows may belong to someone else
			pokeV(v.Slice(v.Len(), v.Cap()))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			pokeV(e)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		if v.Type() == xmlNameType || v.Type().ConvertibleTo(timeType) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				pokeV(v.Field(i))
			}
		}
	case reflect.String:
		if v.CanSet() && v.Len() > 0 {
			v.SetString(v.String() + "!")
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() && v.Int() != 0 {
			v.SetInt(v.Int() ^ 1)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() && v.Uint() != 0 {
			v.SetUint(v.Uint() ^ 1)
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() && v.Float() != 0 {
			v.SetFloat(v.Float() + 1)
		}
	}
}

// state17 is the whole content of a document.
func state17(d *xmp.Document) string {
	if d == nil {
		return "none"
	}
	var l []string
	for _, ns := range d.Namespaces() {
		l = append(l, ns.GetName()+"="+ns.GetURI())
	}
	sort.Strings(l)
	return dumpDoc(d) + strings.Join(l, " ")
}

// junk uses up closed nodes.
func junk(n int) {
	for i := 0; i < n; i++ {
		x := xmp.NewNode(xmp.NewName("junk:junk"))
		x.Value = "junk"
		x.Attr = append(x.Attr, xmp.Attr{Name: xml.Name{Local: "junk:a"}, Value: "junk"})
	}
}

const c17head = `<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:crs="http://ns.adobe.com/camera-raw-settings/1.0/" xmlns:xmpMM="http://ns.adobe.com/xap/1.0/mm/" xmlns:stRef="http://ns.adobe.com/xap/1.0/sType/ResourceRef#" xmlns:iXML="http://ns.adobe.com/ixml/1.0/"`

var c17docs = []string{
	c17head + ` xmlns:mine="` + nsMine + `"><rdf:Description rdf:about="one" crs:Version="1" mine:a="av" crs:unknown="cu"><crs:ToneCurve><rdf:Seq><rdf:li>0, 0</rdf:li><rdf:li>255, 255</rdf:li></rdf:Seq></crs:ToneCurve><mine:b><rdf:Bag><rdf:li>x</rdf:li><rdf:li>y</rdf:li></rdf:Bag></mine:b><mine:c rdf:parseType="Resource"><mine:d>deep</mine:d></mine:c></rdf:Description></rdf:RDF></x:xmpmeta>`,
	c17head + ` xmlns:mine="` + nsYours + `"><rdf:Description crs:Exposure="3" rdf:about="two"><mine:e mine:q="qualified">text</mine:e><mine:b>single</mine:b><xmpMM:DerivedFrom rdf:parseType="Resource"><stRef:filePath>/p</stRef:filePath></xmpMM:DerivedFrom><xmpMM:Pantry><rdf:Bag><rdf:li><rdf:Description crs:Version="7"><mine:in>pantry</mine:in></rdf:Description></rdf:li></rdf:Bag></xmpMM:Pantry></rdf:Description></rdf:RDF></x:xmpmeta>`,
}

const c17json = `{"about":"three","namespaces":{"mine":"` + nsMine + `","crs":"http://ns.adobe.com/camera-raw-settings/1.0/"},"models":{"crs":{"crs:Version":"9","crs:ToneCurve":["1, 1"]},"mine":{"mine:a":"json","mine:b":["j"]}}}`

// badDocs are refused after part of them was read.
var badDocs = []string{
	c17head + ` xmlns:mine="` + nsMine + `"><rdf:Description crs:Version="bad"><mine:b>bad</mine:b></rdf:Description><other/></rdf:RDF></x:xmpmeta>`,
	c17head + ` xmlns:mine="` + nsMine + `"><rdf:Description mine:b="bad"><mine:c><mine:d>bad</mine:d></mine:c><mine:x>`,
	c17head + `><rdf:Description crs:Version="2" crs:Exposure="x"><crs:HasCrop>maybe</crs:HasCrop></rdf:Description></rdf:RDF></x:xmpmeta>`,
}

// op17 is an operation on a document; o is the other one.
type op17 struct {
	name  string
	other bool // uses the other document
	fresh bool // makes a document
	run   func(d, o *xmp.Document) error
}

func set17(d *xmp.Document, p, ns, v string, f xmp.SyncFlags) error {
	return d.SetPath(xmp.PathValue{Path: xmp.Path(p), Namespace: ns, Value: v, Flags: f})
}

var ops17 = []op17{
	{"new", false, true, nil},
	{"read one", false, true, func(d, o *xmp.Document) error { return xmp.Unmarshal([]byte(c17docs[0]), d) }},
	{"read two", false, true, func(d, o *xmp.Document) error { return xmp.Unmarshal([]byte(c17docs[1]), d) }},
	{"read json", false, true, func(d, o *xmp.Document) error { return json.Unmarshal([]byte(c17json), d) }},
	{"set", false, false, func(d, o *xmp.Document) error {
		return set17(d, "crs:Version", "", "set", xmp.CREATE|xmp.REPLACE)
	}},
	{"append", false, false, func(d, o *xmp.Document) error {
		return set17(d, "crs:ToneCurve", "", "9, 9", xmp.CREATE|xmp.APPEND)
	}},
	{"set unknown", false, false, func(d, o *xmp.Document) error {
		return set17(d, "mine:s", nsMine, "set", xmp.CREATE|xmp.REPLACE)
	}},
	{"delete", false, false, func(d, o *xmp.Document) error { return set17(d, "mine:b", "", "", xmp.DELETE|xmp.NOFAIL) }},
	{"merge", true, false, func(d, o *xmp.Document) error { return d.Merge(o, xmp.MERGE) }},
	{"embed", true, false, func(d, o *xmp.Document) error {
		m, err := xmpmm.MakeModel(d)
		if err == nil {
			m.AddPantry(o)
		}
		return err
	}},
	{"copy", true, false, func(d, o *xmp.Document) error {
		b, err := xmp.Marshal(o)
		if err != nil {
			return err
		}
		return xmp.Unmarshal(b, d)
	}},
	{"write", false, false, func(d, o *xmp.Document) error {
		if _, err := xmp.Marshal(d); err != nil {
			return err
		}
		if _, err := json.Marshal(d); err != nil {
			return err
		}
		_, err := d.ListPaths()
		return err
	}},
	{"poke", false, false, func(d, o *xmp.Document) error { poke(d); return nil }},
	{"remove mine", false, false, func(d, o *xmp.Document) error { d.RemoveNamespaceByName("mine"); return nil }},
	{"bad", false, false, func(d, o *xmp.Document) error {
		for _, b := range badDocs {
			x := xmp.NewDocument()
			xmp.Unmarshal([]byte(b), x)
			x.Close()
		}
		return nil
	}},
	{"close", false, false, nil},
}

// hist17 is what was done to a document.
type hist17 struct {
	prev  *hist17
	op    int
	other *hist17
	key   string
}

func (h *hist17) add(op int, o *hist17) *hist17 {
	x := &hist17{prev: h, op: op, other: o}
	if h != nil {
		x.key = h.key
	}
	x.key += string(rune('a' + op))
	if o != nil {
		x.key += "(" + o.key + ")"
	}
	return x
}

// build runs a history in isolation.
func (h *hist17) build() (*xmp.Document, error) {
	if h == nil {
		return nil, nil
	}
	d, err := h.prev.build()
	if err != nil {
		return nil, err
	}
	op := ops17[h.op]
	if op.fresh && d == nil {
		d = xmp.NewDocument()
	}
	if op.run == nil {
		return xmp.NewDocument(), nil
	}
	o, err := h.other.build()
	if err != nil {
		return nil, err
	}
	return d, op.run(d, o)
}

type step17 struct{ op, doc int }

func runC17(c *core.Ctx) {
	can := newCanary()
	want := map[string]string{}
	ref := func(h *hist17) string {
		if h == nil {
			return "none"
		}
		s, ok := want[h.key]
		if !ok {
			junk(300) // don't use closed nodes
			d, err := h.build()
			s = state17(d)
			if err != nil {
				s = "error: " + err.Error()
			}
			want[h.key] = s
		}
		return s
	}
	// references of short histories before anything was closed
	for i := range ops17 {
		if ops17[i].fresh {
			h := (*hist17)(nil).add(i, nil)
			ref(h)
			for j := range ops17 {
				if j < len(ops17)-1 && !ops17[j].other {
					ref(h.add(j, nil))
				}
			}
		}
	}

	c.Group("sequences")
	depth := core.Pick(c, 4, 5)
	c.Bound("operations", 2*len(ops17))
	c.Bound("depth", depth)
	run := func(seq []step17) string {
		var ds, closed [2]*xmp.Document
		var hs [2]*hist17
		for n, s := range seq {
			op, i, j := ops17[s.op], s.doc, 1-s.doc
			if op.name == "close" {
				if ds[i] == nil {
					closed[i].Close()
				} else {
					ds[i].Close()
					closed[i], ds[i], hs[i] = ds[i], nil, nil
				}
				continue
			}
			if op.fresh && (ds[i] == nil || op.run == nil) {
				ds[i] = xmp.NewDocument()
				hs[i] = nil
			}
			var o *hist17
			if op.other {
				o = hs[j]
			}
			hs[i] = hs[i].add(s.op, o)
			if op.run != nil {
				if err := op.run(ds[i], ds[j]); err != nil {
					if w := ref(hs[i]); w != "error: "+err.Error() {
						return fmt.Sprintf("step %d: %v, in isolation: %s", n+1, err, shorten(w))
					}
					return ""
				}
			}
		}
		for i := range ds {
			if g, w := state17(ds[i]), ref(hs[i]); g != w {
				return fmt.Sprintf("document %d holds\n%s\nin isolation\n%s", i+1, g, w)
			}
		}
		return can.sings()
	}
	name := func(seq []step17) string {
		var l []string
		for _, s := range seq {
			l = append(l, fmt.Sprintf("%d %s", s.doc+1, ops17[s.op].name))
		}
		return strings.Join(l, ", ")
	}
	var rec func(seq []step17, open, was [2]bool)
	rec = func(seq []step17, open, was [2]bool) {
		if len(seq) > 1 {
			key := "seq|" + name(seq)
			c.Case(key, nil, func() string {
				if open[0] && open[1] || was[0] || was[1] {
					c.Nontrivial(key)
				}
				return run(seq)
			})
		}
		if len(seq) == depth || c.Stop() {
			return
		}
		for i := 0; i < 2; i++ {
			if i == 1 && len(seq) == 0 {
				continue // documents are alike
			}
			for k, op := range ops17 {
				isClose := op.name == "close"
				if !op.fresh && !open[i] && !(isClose && was[i]) || op.other && !open[1-i] {
					continue
				}
				o, w := open, was
				if isClose {
					w[i], o[i] = true, false
				} else {
					o[i] = true
				}
				next := append(append([]step17{}, seq...), step17{k, i})
				if len(next) == 2 {
					for range c.Block() {
						rec(next, o, w)
					}
				} else {
					rec(next, o, w)
				}
			}
		}
	}
	rec(nil, [2]bool{}, [2]bool{})

	c17models(c, can)
	c17reuse(c)
}

// c17models: copies of every property.
func c17models(c *core.Ctx, can *canary) {
	c.Group("new models")
	for _, m := range allModels() {
		m := m
		key := "new|" + m.Prefix
		c.Case(key, nil, func() string {
			c.Nontrivial(key)
			a := m.NS.NewModel()
			want := dump(a)
			fill := reflect.ValueOf(a).Elem()
			for _, f := range m.Fields {
				if al := alphabet(f.Type, 0); len(al) > 0 {
					m.put(a, f, clone(al[0]))
				}
			}
			pokeV(fill.Addr())
			if got := dump(m.NS.NewModel()); got != want {
				return "a new model holds " + got
			}
			d := xmp.NewDocument()
			defer d.Close()
			b, err := d.MakeModel(m.NS)
			if err != nil {
				return ""
			}
			if got := dump(b); got != want {
				return "a made model holds " + got
			}
			return ""
		})
	}
	c.Group("copies")
	copies := []struct {
		name string
		f    func(a, b *xmp.Document) error
	}{
		{"xml", func(a, b *xmp.Document) error {
			x, err := xmp.Marshal(a)
			if err == nil {
				err = xmp.Unmarshal(x, b)
			}
			return err
		}},
		{"json", func(a, b *xmp.Document) error {
			x, err := json.Marshal(a)
			if err == nil {
				err = json.Unmarshal(x, b)
			}
			return err
		}},
		{"merge", func(a, b *xmp.Document) error { return b.Merge(a, xmp.MERGE) }},
		{"embed", func(a, b *xmp.Document) error {
			m, err := xmpmm.MakeModel(b)
			if err == nil {
				m.AddPantry(a)
			}
			return err
		}},
		{"sync", func(a, b *xmp.Document) error {
			l, err := a.ListPaths()
			for _, v := range l {
				v.Flags = xmp.CREATE | xmp.APPEND
				if err := b.SetPath(v); err != nil {
					return err
				}
			}
			return err
		}},
	}
	for _, lvl := range []int{core.Pick(c, 1, 2)} {
		docSpace(c, "single models", lvl, func(dc docCase) bool {
			for _, cp := range copies {
				cp := cp
				key := "copy|" + cp.name + "|" + dc.Key
				c.Case(key, dc.replay, func() string {
					a, _, err := dc.build()
					if err != nil {
						return "building: " + err.Error()
					}
					b := xmp.NewDocument()
					if err := cp.f(a, b); err != nil {
						return "" // other properties' business
					}
					c.Nontrivial(key)
					wa, wb := state17(a), state17(b)
					poke(a)
					if got := state17(b); got != wb {
						return fmt.Sprintf("the copy changes with the source from\n%s\nto\n%s", wb, got)
					}
					poke(b)
					wb = state17(b)
					a.Close()
					junk(40)
					if got := state17(b); got != wb {
						return fmt.Sprintf("the copy changes when the source is closed, from\n%s\nto\n%s", wb, got)
					}
					b.Close()
					junk(40)
					// the other way around, with closed nodes around
					a, _, _ = dc.build()
					b = xmp.NewDocument()
					if err := cp.f(a, b); err != nil {
						return "copying again: " + err.Error()
					}
					if got := state17(a); got != wa {
						return fmt.Sprintf("building the same again gives\n%s\ninstead of\n%s", got, wa)
					}
					poke(b)
					b.Close()
					junk(40)
					if got := state17(a); got != wa {
						return fmt.Sprintf("the source changes with the copy from\n%s\nto\n%s", wa, got)
					}
					a.Close()
					return can.sings()
				})
			}
			return !c.Stop()
		})
	}
}

// c17reuse: encoders and decoders used for several documents.
func c17reuse(c *core.Ctx) {
	c.Group("encoders and decoders")
	texts := append([]string{}, c17docs...)
	texts = append(texts, canaryDoc, c12head+c12parts["dc"]+c12parts["crs"]+c12parts["xmpMM"]+c12parts["mine"]+c12parts["yours"]+c12foot)
	texts = append(texts, c12head+c12foot, c12head+c12parts["mine"]+c12foot)
	n := len(texts)
	idx := func(l []int) string { return strings.Trim(fmt.Sprint(l), "[]") }
	var rec func(l []int)
	rec = func(l []int) {
		if len(l) > 1 {
			l := append([]int{}, l...)
			key := "decoder|" + idx(l)
			c.Case(key, nil, func() string {
				c.Nontrivial(key)
				var rs []io.Reader
				for _, i := range l {
					rs = append(rs, strings.NewReader(texts[i]))
				}
				dec := xmp.NewDecoder(io.MultiReader(rs...))
				var ds []*xmp.Document
				var want []string
				for _, i := range l {
					x := xmp.NewDocument()
					if err := xmp.Unmarshal([]byte(texts[i]), x); err != nil {
						return "reading alone: " + err.Error()
					}
					want = append(want, state17(x))
					x.Close()
					d := xmp.NewDocument()
					if err := dec.Decode(d); err != nil {
						return "reading: " + err.Error()
					}
					ds = append(ds, d)
					for k := range ds {
						if g := state17(ds[k]); g != want[k] {
							return fmt.Sprintf("after reading document %d, document %d is\n%s\nread alone it is\n%s", len(ds), k+1, g, want[k])
						}
					}
				}
				for k := range ds {
					ds[k].Close()
					for j := k + 1; j < len(ds); j++ {
						if g := state17(ds[j]); g != want[j] {
							return fmt.Sprintf("after closing document %d, document %d is\n%s\nread alone it is\n%s", k+1, j+1, g, want[j])
						}
					}
				}
				return ""
			})
			key2 := "encoder|" + idx(l)
			c.Case(key2, nil, func() string {
				c.Nontrivial(key2)
				var b bytes.Buffer
				enc := xmp.NewEncoder(&b)
				var ds []*xmp.Document
				for k, i := range l {
					d := xmp.NewDocument()
					if err := xmp.Unmarshal([]byte(texts[i]), d); err != nil {
						return err.Error()
					}
					ds = append(ds, d)
					want := state17(d)
					alone, err := xmp.Marshal(d)
					if err != nil {
						return err.Error()
					}
					b.Reset()
					if err := enc.Encode(d); err != nil {
						return fmt.Sprintf("writing document %d: %v", k+1, err)
					}
					if b.String() != string(alone) {
						return fmt.Sprintf("document %d is written as\n%s\nalone as\n%s", k+1, b.String(), alone)
					}
					if g := state17(d); g != want {
						return fmt.Sprintf("writing document %d changes it from\n%s\nto\n%s", k+1, want, g)
					}
					// edits after writing must not reach the encoder's names
					d.SetPath(xmp.PathValue{Path: "extra:x", Namespace: fmt.Sprintf("urn:extra%d#", k), Value: "v", Flags: xmp.CREATE})
				}
				for _, d := range ds {
					d.Close()
				}
				return ""
			})
		}
		if len(l) == 3 {
			return
		}
		for i := 0; i < n; i++ {
			rec(append(append([]int{}, l...), i))
		}
	}
	rec(nil)
}
