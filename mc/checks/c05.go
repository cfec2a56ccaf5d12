package checks

import (
	"encoding"
	"fmt"
	"io/ioutil"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{ID: "C05", Level: "exploration", Shards: 8, Run: runC05,
		Rule: "Unknown content (twenty shapes of values in two unknown and every registered name space) is put at every place of a document: beside the properties of each model, as field of every structure and qualifier of every text of every registered property, inside embedded extensions, alone and in ordered pairs, in several serialization forms; each document is read by the real decoder, written by the real encoder, and the written packet compared, by an independent RDF reader, with the input. All sample packets of the repository are treated the same way.",
		Assumptions: []string{
			"Known properties may be normalised; only properties without a model (and the known property around unknown content) are compared literally.",
			"Documents are valid RDF: no property is given twice, and empty unknown properties count as unset.",
		}})
}

func rt(s string) *rval                { return &rval{Text: s} }
func mine(s string) string             { return "{" + nsMine + "}" + s }
func yours(s string) string            { return "{" + nsYours + "}" + s }
func rstruct(ps ...rprop) *rval        { return &rval{Kind: rStruct, Props: ps} }
func rlist(k rkind, l ...*rval) *rval  { return &rval{Kind: k, Items: l} }
func rlang(l, s string) *rval          { return &rval{Text: s, Lang: l} }
func rqual(v *rval, ps ...rprop) *rval { x := *v; x.Props = ps; return &x }

// unknownShapes are values the library has no type for.
func unknownShapes() []*rval {
	f := func(n string, v *rval) rprop { return rprop{mine(n), v} }
	return []*rval{
		rt("v"),
		rt(hardText),
		&rval{Kind: rURI, Text: "http://example.com/?a=1&b=2"},
		rlang("en-US", "v"),
		rqual(rt("v"), f("q", rt("1"))),
		rqual(rt("v"), f("q", rt("1")), rprop{yours("r"), rlist(rBag, rt("2"))}),
		rlist(rBag, rt("b"), rt("a"), rt("b")),
		rlist(rSeq, rt("2"), rt("1")),
		rlist(rAlt, rt("x"), rt("y")),
		rlist(rAlt, rlang("x-default", "d"), rlang("en", "e"), rlang("de", "d")),
		rlist(rSeq, rt("1"), rqual(rt("2"), f("q", rt("1"))), &rval{Kind: rURI, Text: "urn:x"}),
		rlist(rSeq, rt("a"), rt(""), rt("b")),
		rstruct(f("a", rt("1")), rprop{yours("b"), rt("2")}),
		rstruct(f("a", rt("1")), f("a2", rstruct(f("a", rt("2")), f("c", rlist(rSeq, rt("3"), rt("4")))))),
		rstruct(f("b", rlist(rBag, rstruct(f("a", rt("1"))), rstruct(f("a", rt("2")), f("d", rt("3")))))),
		rstruct(rprop{"{" + gold.Namespaces["dc"] + "}title", rlist(rAlt, rlang("x-default", "t"))}, rprop{"{" + gold.Namespaces["xmp"] + "}Rating", rt("3")}),
		rlist(rSeq, rlist(rBag, rt("a")), rlist(rAlt, rt("b"))),
		rlist(rAlt, rstruct(f("a", rt("1")))),
		rstruct(f("a", &rval{Kind: rURI, Text: "urn:y"}), f("l", rlang("fr", "v"))),
	}
}

type named struct {
	Name  string
	Props []rprop
}

// volume gives documents that hold n of one thing.
func volume(n int) []named {
	var props, spaces, fields, quals []rprop
	var l, structs, lists []*rval
	deep, chain := rt("end"), rt("end")
	for i := 0; i < n; i++ {
		x := rt(fmt.Sprint("v", i))
		props = append(props, rprop{mine(fmt.Sprintf("p%d", i)), x})
		sp := fmt.Sprintf("http://example.com/ns%d/", i)
		spaces = append(spaces, rprop{"{" + sp + "}unknownProp", x})
		fields = append(fields, rprop{"{" + sp + "}f", x})
		quals = append(quals, rprop{"{" + sp + "}q", x})
		l = append(l, rt(fmt.Sprint("i", i)))
		structs = append(structs, rstruct(rprop{mine("a"), rt(fmt.Sprint("a", i))}, rprop{yours("b"), rlist(rSeq, rt("1"), rt(fmt.Sprint("b", i)))}))
		lists = append(lists, rlist([]rkind{rSeq, rBag, rAlt}[i%3], rt(fmt.Sprint("x", i)), rt("y")))
		if i < 70 {
			deep = rstruct(rprop{"{" + sp + "}d", deep}, rprop{mine("v"), x})
		}
		if i < 17 {
			chain = rlist(rSeq, rt(fmt.Sprint("c", i)), chain)
		}
	}
	return []named{
		{"properties", props},
		{"name spaces", spaces},
		{"fields", []rprop{{mine("x"), rstruct(fields...)}}},
		{"qualifiers", []rprop{{mine("x"), rqual(rt("v"), quals...)}}},
		{"items", []rprop{{mine("s"), rlist(rSeq, l...)}, {mine("b"), rlist(rBag, l...)}}},
		{"lists of items", []rprop{{mine("s"), rlist(rSeq, rlist(rBag, l...), rt("1"), rlist(rSeq, l...))}}},
		{"structures", []rprop{{mine("s"), rlist(rSeq, structs...)}}},
		{"lists", []rprop{{mine("s"), rlist(rBag, lists...)}}},
		{"nested", []rprop{{mine("d"), deep}}},
		{"nested lists", []rprop{{mine("d"), chain}}},
	}
}

// rewrite reads and writes a packet.
func rewrite(in []byte, dirty bool) ([]byte, error) {
	d := xmp.NewDocument()
	defer d.Close()
	if err := xmp.Unmarshal(in, d); err != nil {
		return nil, err
	}
	if dirty {
		d.SetDirty() // native properties are synchronized before writing
	}
	return xmp.Marshal(d)
}

// checkKept compares the named properties (all without name) before and
// after a rewrite.
func checkKept(in []byte, dirty, mayFail bool, names func(string) bool) string {
	a, err := parseRDF(in)
	if err != nil {
		return "harness: input is no RDF: " + err.Error()
	}
	if _, err := a.byName(); err != nil {
		return "harness: " + err.Error()
	}
	out, err := rewrite(in, dirty)
	if err != nil {
		if mayFail {
			return ""
		}
		return "refused: " + err.Error() + "\ninput: " + string(in)
	}
	b, err := parseRDF(out)
	if err != nil {
		return "output is no RDF: " + err.Error() + "\ninput: " + string(in) + "\noutput: " + string(out)
	}
	bm, err := b.byName()
	if err != nil {
		return err.Error() + "\ninput: " + string(in) + "\noutput: " + string(out)
	}
	for _, p := range a.Props {
		if !names(p.Name) || unset(p.Val) {
			continue
		}
		var got *rval
		w := "nothing"
		for _, q := range b.Props {
			if q.Name == p.Name {
				got, w = q.Val, bm[q.Name]
			}
		}
		if got == nil || !holds(got, p.Val) || strings.Contains(p.Name, "nknown") && !holds(p.Val, got) {
			return fmt.Sprintf("%s was %s and is written as %s\ninput: %s\noutput: %s", p.Name, p.Val, w, in, out)
		}
	}
	return ""
}

var textUnmarshaler = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()

var attrUnmarshaler = reflect.TypeOf((*interface {
	UnmarshalXMPAttr(*xmp.Decoder, xmp.Attr) error
})(nil)).Elem()

func textForm(t reflect.Type) bool {
	p := reflect.PtrTo(t)
	return t.Implements(textUnmarshaler) || p.Implements(textUnmarshaler) || t.Implements(attrUnmarshaler) || p.Implements(attrUnmarshaler)
}

func (v *rval) isArray() bool { return v.Kind == rBag || v.Kind == rSeq || v.Kind == rAlt }

// unset says whether a value holds no text at all.
func unset(v *rval) bool {
	for _, x := range v.Items {
		if !unset(x) {
			return false
		}
	}
	for _, p := range v.Props {
		if !unset(p.Val) {
			return false
		}
	}
	return v.Text == ""
}

// holds says whether a has everything b has, apart from outer white space.
func holds(a, b *rval) bool {
	if a.Kind != b.Kind || strings.TrimSpace(a.Text) != strings.TrimSpace(b.Text) || a.Lang != b.Lang || len(a.Items) != len(b.Items) {
		return false
	}
	for i := range b.Items {
		if !holds(a.Items[i], b.Items[i]) {
			return false
		}
	}
	for _, p := range b.Props {
		ok := unset(p.Val)
		for _, q := range a.Props {
			ok = ok || q.Name == p.Name && holds(q.Val, p.Val)
		}
		if !ok {
			return false
		}
	}
	return true
}

// inject visits copies of v with unknown content added at every place.
func inject(v *rval, own string, deep bool, f func(where string, x *rval)) {
	cp := func() *rval { x := *v; return &x }
	switch v.Kind {
	case rStruct:
		add := func(n string, p rprop, front bool) {
			x := cp()
			x.Props = append([]rprop{}, v.Props...)
			if front {
				x.Props = append([]rprop{p}, x.Props...)
			} else {
				x.Props = append(x.Props, p)
			}
			f(n, x)
		}
		add("+text", rprop{mine("more"), rt("v")}, false)
		add("+own", rprop{"{" + own + "}unknownField", rt("v")}, false)
		add("+first", rprop{mine("more"), rt("v")}, true)
		add("+struct", rprop{mine("more"), rstruct(rprop{mine("a"), rt("1")})}, false)
		add("+bag", rprop{yours("more"), rlist(rBag, rt("1"), rt("2"))}, false)
		for i, p := range v.Props {
			u, l := splitQN(p.Name)
			if u == "" {
				continue
			}
			inject(p.Val, u, deep, func(w string, y *rval) {
				x := cp()
				x.Props = append([]rprop{}, v.Props...)
				x.Props[i].Val = y
				f("."+l+w, x)
			})
		}
	case rBag, rSeq, rAlt:
		for i, it := range v.Items {
			if i > 0 && !deep {
				break
			}
			inject(it, own, deep, func(w string, y *rval) {
				x := cp()
				x.Items = append([]*rval{}, v.Items...)
				x.Items[i] = y
				f(fmt.Sprintf("[%d]%s", i, w), x)
			})
		}
	case rText:
		if len(v.Props) == 0 {
			f("?q", rqual(v, rprop{mine("q"), rt("1")}))
			f("?q2", rqual(v, rprop{yours("q"), rstruct(rprop{mine("a"), rt("1")})}))
		}
	}
}

func runC05(c *core.Ctx) {
	forms := []rform{{}, {Attr: 1}, {Struct: 1}, {Struct: 2}, {Struct: 3, Attr: 1}, {Desc: 1, NsAt: 3}, {Desc: 2, Prefix: 1}, {Prefix: 2, NsAt: 2, Trivia: 3}, {Prefix: 3, Wrap: 3}, {Attr: 1, Desc: 3, Wrap: 2, Text: 3}}
	if !c.Thorough() {
		forms = []rform{{}, {Attr: 1, Struct: 1}, {Struct: 2, Desc: 1}, {Struct: 3, Desc: 2, Prefix: 3, NsAt: 2}}
	}
	c.Bound("serialization_forms", forms)
	try := func(key string, ps []rprop, f rform, mayFail bool, names func(string) bool) {
		if c.Stop() {
			return
		}
		k := key + " " + f.String()
		in := writeRDF(ps, f, "uuid:1", "tk")
		c.Case(k, func() interface{} { return map[string]string{"input": string(in)} }, func() string {
			c.Nontrivial(k)
			c.Outcome(key)
			if m := checkKept(in, false, mayFail, names); m != "" {
				return m
			}
			if m := checkKept(in, true, mayFail, names); m != "" {
				return "after SetDirty: " + m
			}
			return ""
		})
	}
	all := func(key string, ps []rprop, mayFail bool, names func(string) bool) {
		for _, f := range forms {
			try(key, ps, f, mayFail, names)
		}
	}
	every := func(string) bool { return true }
	shapes := unknownShapes()

	// whole unknown name spaces
	c.Group("unknown name spaces")
	for i, s := range shapes {
		all(fmt.Sprintf("shape%d", i), []rprop{{mine("x"), s}}, false, every)
		for j, t := range shapes {
			all(fmt.Sprintf("shapes%d,%d", i, j), []rprop{{mine("x"), s}, {mine("y"), t}}, false, every)
			all(fmt.Sprintf("shapes%d,%d other", i, j), []rprop{{mine("x"), s}, {yours("x"), t}}, false, every)
			if c.Thorough() {
				for k, u := range shapes {
					all(fmt.Sprintf("shapes%d,%d,%d", i, j, k), []rprop{{mine("x"), s}, {yours("x"), t}, {mine("y"), u}}, false, every)
				}
			}
		}
	}

	// next to the properties of every registered name space
	var nss []string
	for p := range gold.Namespaces {
		nss = append(nss, p)
	}
	sort.Strings(nss)
	ms := allModels()
	known := map[string][]rprop{}
	for i := range ms {
		m := &ms[i]
		x := m.NS.NewModel()
		for _, fd := range m.Fields {
			if al := alphabet(fd.Type, 0); len(al) > 0 {
				m.put(x, fd, clone(al[0]))
			}
		}
		if ps, err := refProps(reflect.ValueOf(x).Elem()); err == nil {
			for _, p := range ps {
				u, _ := splitQN(p.Name)
				dup := false
				for _, q := range known[u] {
					dup = dup || q.Name == p.Name
				}
				if !dup {
					known[u] = append(known[u], p)
				}
			}
		}
	}
	for _, p := range nss {
		u := gold.Namespaces[p]
		if u == nsRDF || u == nsX || u == nsXML {
			continue
		}
		c.Group("beside " + p)
		un := "{" + u + "}unknownProp"
		names := func(n string) bool { return n == un || strings.Contains(n, "example.com") }
		for i, s := range shapes {
			all(fmt.Sprintf("%s shape%d", p, i), []rprop{{un, s}}, false, names)
			ps := append([]rprop{{un, s}}, known[u]...)
			all(fmt.Sprintf("%s known+shape%d", p, i), ps, false, names)
			ps = append(append([]rprop{}, known[u]...), rprop{un, s}, rprop{mine("x"), s})
			all(fmt.Sprintf("%s known+shape%d+mine", p, i), ps, false, names)
		}
	}

	// inside known properties
	for i := range ms {
		m := &ms[i]
		c.Group("inside " + m.Prefix)
		for _, fd := range m.Fields {
			for ai, v := range alphabet(fd.Type, core.Pick(c, 0, 1)) {
				ps, err := refProps(reflect.ValueOf(m.set(fd, clone(v))).Elem())
				if err != nil {
					continue
				}
				for _, p := range ps {
					u, l := splitQN(p.Name)
					if l != fd.Name[strings.IndexByte(fd.Name, ':')+1:] {
						continue // a field that is always written
					}
					inject(p.Val, u, c.Thorough(), func(w string, x *rval) {
						n := p.Name
						all(fmt.Sprintf("%s.%s=%d %s", m.Prefix, fd.Go, ai, w), []rprop{{n, x}}, true, func(s string) bool { return s == n })
					})
				}
			}
		}
	}

	// known properties with a value of another kind
	c.Group("other kinds")
	other := []*rval{rstruct(rprop{mine("a"), rt("1")}), rstruct(rprop{mine("a"), rt("1")}, rprop{yours("b"), rt("2")}), rlist(rBag, rt("a"), rt("b")), rlist(rSeq, rstruct(rprop{mine("a"), rt("1")})), rlist(rAlt, rlang("x-default", "d"), rlang("en", "e")), rt("1"), rqual(rt("1"), rprop{mine("q"), rt("1")})}
	for i := range ms {
		m := &ms[i]
		for _, fd := range m.Fields {
			for ai, v := range alphabet(fd.Type, 0) {
				if ai > 0 {
					break
				}
				ps, err := refProps(reflect.ValueOf(m.set(fd, clone(v))).Elem())
				if err != nil {
					continue
				}
				for _, p := range ps {
					_, l := splitQN(p.Name)
					if l != fd.Name[strings.IndexByte(fd.Name, ':')+1:] {
						continue
					}
					for k, o := range other {
						switch {
						case o.Kind == p.Val.Kind:
							continue
						case p.Val.isArray() && (o.Kind == rText || o.isArray() && o.Items[0].Kind == p.Val.Items[0].Kind):
							continue // kinds of lists may be normalised
						case o.Kind == rText && textForm(fd.Type):
							continue // has a text form of its own
						}
						n := p.Name
						all(fmt.Sprintf("%s.%s is other%d", m.Prefix, fd.Go, k), []rprop{{n, o}}, true, func(s string) bool { return s == n })
					}
				}
			}
		}
	}

	// inside embedded extensions
	c.Group("extensions")
	rating := rprop{"{" + gold.Namespaces["xmp"] + "}Rating", rt("3")}
	dctitle := rprop{"{" + gold.Namespaces["dc"] + "}title", rlist(rAlt, rlang("x-default", "t"))}
	flash := rprop{"{" + gold.Namespaces["exif"] + "}Flash", rstruct(rprop{"{" + gold.Namespaces["exif"] + "}Fired", rt("True")}, rprop{mine("more"), rt("v")})}
	for i, s := range shapes {
		exts := [][]rprop{
			{{mine("x"), s}},
			{{mine("x"), s}, {mine("y"), rt("2")}},
			{{"{" + gold.Namespaces["dc"] + "}unknownProp", s}},
			{rating, {mine("x"), s}},
			{{mine("x"), s}, dctitle},
			{{"{" + gold.Namespaces["xmp"] + "}unknownProp", s}, rating, dctitle, {yours("y"), s}},
			{flash, {mine("x"), s}},
		}
		for j, e := range exts {
			for _, n := range []string{"xmp:extension", "iXML:extension"} {
				u := gold.Namespaces[n[:strings.IndexByte(n, ':')]]
				nm := "{" + u + "}extension"
				names := func(s string) bool { return s == nm }
				one := rprop{nm, rstruct(rprop{mine("ext"), rstruct(e...)})}
				all(fmt.Sprintf("%s shape%d in ext%d", n, i, j), []rprop{one}, false, names)
				two := rprop{nm, rstruct(rprop{mine("ext"), rstruct(e...)}, rprop{yours("ext"), rstruct(rprop{yours("z"), s})})}
				all(fmt.Sprintf("%s shape%d in two ext%d", n, i, j), []rprop{two}, false, names)
				if j == 0 {
					all(fmt.Sprintf("%s shape%d as ext", n, i), []rprop{{nm, rstruct(rprop{mine("ext"), s})}}, false, names)
				}
			}
			nm := "{" + gold.Namespaces["xmpMM"] + "}Pantry"
			names := func(s string) bool { return s == nm }
			all(fmt.Sprintf("pantry shape%d in ext%d", i, j), []rprop{{nm, rlist(rBag, rstruct(e...))}}, false, names)
			all(fmt.Sprintf("pantry shape%d in two ext%d", i, j), []rprop{{nm, rlist(rBag, rstruct(rating), rstruct(e...))}}, false, names)
		}
	}

	for i, v := range []*rval{rt("1"), rlist(rBag, rt("a"), rt("b")), rlist(rBag, rstruct(rating), rt("b")), rlist(rBag, rlist(rSeq, rt("b"))), rlist(rSeq, rt("a"))} {
		for _, p := range []string{"xmpMM:Pantry", "xmp:extension", "iXML:extension"} {
			n := "{" + gold.Namespaces[p[:strings.IndexByte(p, ':')]] + "}" + p[strings.IndexByte(p, ':')+1:]
			all(fmt.Sprintf("%s text%d", p, i), []rprop{{n, v}}, true, func(s string) bool { return s == n })
		}
	}

	// language of known texts
	c.Group("languages")
	for _, p := range []rprop{
		{"{" + gold.Namespaces["dc"] + "}format", rlang("en", "image/png")},
		{"{" + gold.Namespaces["dc"] + "}creator", rlist(rSeq, rlang("en", "a"))},
		{"{" + gold.Namespaces["photoshop"] + "}City", rlang("en", "a")},
	} {
		n := p.Name
		try("lang "+n, []rprop{p}, rform{}, true, func(s string) bool { return s == n })
	}

	// one local name in several name spaces
	c.Group("same names")
	uris := []string{nsMine, nsYours}
	for _, p := range nss {
		if u := gold.Namespaces[p]; u != nsRDF && u != nsX && u != nsXML {
			uris = append(uris, u)
		}
	}
	unk := func(n string) bool { _, l := splitQN(n); return strings.HasPrefix(l, "unknownProp") }
	for _, u := range uris {
		for _, v := range uris {
			if u == v {
				continue
			}
			k := u + " " + v
			all(k, []rprop{{"{" + u + "}unknownProp", rt("1")}, {"{" + v + "}unknownProp", rt("2")}}, false, unk)
			if u != nsMine && u != nsYours && v != nsMine && v != nsYours && !c.Thorough() {
				continue
			}
			all(k+" struct", []rprop{{"{" + u + "}unknownProp", rstruct(rprop{"{" + u + "}a", rt("1")}, rprop{"{" + v + "}a", rt("2")})}, {"{" + v + "}unknownProp", rqual(rt("3"), rprop{"{" + u + "}a", rt("1")}, rprop{"{" + v + "}a", rt("2")})}}, false, unk)
		}
		// names of known properties in another name space
		for _, o := range []string{nsMine, nsYours} {
			if o == u || len(known[u]) == 0 {
				continue
			}
			ps := append([]rprop{}, known[u]...)
			for _, p := range known[u] {
				_, l := splitQN(p.Name)
				ps = append(ps, rprop{"{" + o + "}" + l, rt("other " + l)})
			}
			own := func(n string) bool { return strings.HasPrefix(n, "{"+o+"}") }
			all(u+" shadowed by "+o, ps, false, own)
			all(u+" alone as "+o, ps[len(known[u]):], false, own)
		}
	}

	// a user's model of two name spaces
	c.Group("user model")
	xmp.Register(nsTm)
	xmp.Register(nsTmS)
	tm := func(n string) string { return "{" + nsTm.GetURI() + "}" + n }
	tms := func(n string) string { return "{" + nsTmS.GetURI() + "}" + n }
	for i, v := range shapes {
		for j, w := range []*rval{rt("2"), v, rlist(rBag, rt("1"))} {
			ps := []rprop{{tm("unknownProp"), v}, {tms("unknownProp"), w}, {tms("x"), rt("ox")}, {tm("x"), rt("x")}, {tms("s"), rt("others")}, {tm("s"), rt("s")}, {tms("unknownProp2"), v}, {mine("unknownProp"), w}}
			k := fmt.Sprintf("shape%d %d", i, j)
			all(k, ps, false, every)
			all(k+" unknown only", []rprop{ps[0], ps[1], ps[6]}, false, every)
			all(k+" other first", []rprop{ps[4], ps[6], ps[1], ps[0], ps[2]}, false, every)
			all(k+" one each", []rprop{ps[2], ps[0]}, false, every)
			all(k+" second only", []rprop{ps[1], ps[4]}, false, every)
		}
	}

	// name spaces that differ from known ones in little
	c.Group("similar name spaces")
	for _, u := range uris {
		var sim []string
		for _, v := range []string{strings.TrimRight(u, "/#"), u + "#", u + "/", u + "x/", strings.ToUpper(u), strings.ToUpper(u[:1]) + u[1:], strings.Replace(u, "http://", "https://", 1), u[:strings.LastIndexAny(u[:len(u)-1], "/:")+1], strings.Replace(u, "1.0", "1.1", 1), u[:len(u)-1] + "?"} {
			dup := v == u || usualPrefix(v) != ""
			for _, x := range sim {
				dup = dup || x == v
			}
			if !dup {
				sim = append(sim, v)
			}
		}
		local := "unknownProp"
		var kn []rprop
		if len(known[u]) > 0 {
			kn = known[u]
			_, local = splitQN(kn[0].Name)
		}
		own := func(n string) bool {
			for _, v := range sim {
				if strings.HasPrefix(n, "{"+v+"}") {
					return true
				}
			}
			return false
		}
		for _, v := range sim {
			one := []rprop{{"{" + v + "}" + local, rt("similar")}, {"{" + v + "}unknownProp2", rstruct(rprop{"{" + v + "}a", rt("2")})}}
			all(u+" like "+v, one, false, own)
			all(u+" with "+v, append(append([]rprop{}, kn...), one...), false, own)
			all(v+" and "+u, append(append([]rprop{}, one...), kn...), false, own)
		}
		var ps []rprop
		for i, v := range sim {
			ps = append(ps, rprop{"{" + v + "}" + local, rt(fmt.Sprint(i))})
		}
		all(u+" like all", ps, false, own)
	}

	// many of everything
	c.Group("volume")
	for _, n := range []int{5, 17, 33, 70, 300} {
		for _, v := range volume(n) {
			k := fmt.Sprintf("%d %s", n, v.Name)
			all(k, v.Props, false, every)
			all(k+" beside", append([]rprop{dctitle, rating}, v.Props...), false, func(s string) bool { return strings.Contains(s, "example.com") })
		}
	}

	// prefixes that collide with each other, with registered ones and with
	// those the library makes
	c.Group("prefixes")
	pre := []string{"", "ns1", "ns2", "ns3", "dc", "tiff", "p"}
	us := []string{"http://example.com/u0/", "http://example.com/u1/", "urn:u2#"}
	for n := 0; n < len(pre)*len(pre)*len(pre); n++ {
		ps := []string{pre[n%7], pre[n/7%7], pre[n/49]}
		for place := 0; place < 3; place++ {
			for _, ln := range []string{"one", "own"} {
				var heads, els [3]string
				clash := false
				for i, p := range ps {
					at, q := "xmlns", ""
					if p != "" {
						at, q = "xmlns:"+p, p+":"
					}
					heads[i] = " " + at + `="` + us[i] + `"`
					name := "x"
					if ln == "own" {
						name = fmt.Sprint("x", i)
					}
					decl := heads[i]
					if place == 0 {
						decl = ""
					}
					els[i] = fmt.Sprintf(`<%s%s%s>v%d</%s%s>`, q, name, decl, i, q, name)
					for j := range ps[:i] {
						clash = clash || ps[j] == p
					}
				}
				in, top := "", ""
				switch place {
				case 0: // at the description
					if clash {
						continue
					}
					top, in = heads[0]+heads[1]+heads[2], els[0]+els[1]+els[2]
				case 1: // at each property
					in = els[0] + els[1] + els[2]
				case 2: // at each field
					in = `<mine:s xmlns:mine="` + nsMine + `" rdf:parseType="Resource">` + els[0] + els[1] + els[2] + `</mine:s>`
				}
				x := []byte(`<rdf:RDF xmlns:rdf="` + nsRDF + `"><rdf:Description rdf:about=""` + top + `>` + in + `</rdf:Description></rdf:RDF>`)
				k := fmt.Sprintf("prefixes %q place%d %s", ps, place, ln)
				c.Case(k, func() interface{} { return map[string]string{"input": string(x)} }, func() string {
					c.Nontrivial(k)
					return checkKept(x, false, false, every)
				})
			}
		}
	}

	// the samples of the repository
	c.Group("samples")
	files, _ := filepath.Glob("/repo/samples/*/*")
	more, _ := filepath.Glob("/repo/samples/*")
	files = append(files, more...)
	sort.Strings(files)
	nf := 0
	for _, fn := range files {
		b, err := ioutil.ReadFile(fn)
		if err != nil || len(b) > 1<<20 {
			continue
		}
		if _, err := parseRDF(b); err != nil {
			continue
		}
		nf++
		c.Case("sample "+strings.TrimPrefix(fn, "/repo/"), func() interface{} { return map[string]string{"file": fn} }, func() string {
			c.Nontrivial(fn)
			return checkKept(b, false, true, func(n string) bool {
				u, l := splitQN(n)
				for p, x := range gold.Namespaces {
					if x == u {
						return !knownProp(p + ":" + l)
					}
				}
				return true
			})
		})
	}
	c.Bound("sample_packets", nf)
}

var knownNames map[string]bool

// knownProp says whether a registered model has the property.
func knownProp(n string) bool {
	if knownNames == nil {
		knownNames = map[string]bool{}
		for _, m := range allModels() {
			for _, f := range m.Fields {
				knownNames[f.Name] = true
			}
		}
	}
	_, o := omitted.Load(n)
	return o || knownNames[n]
}
