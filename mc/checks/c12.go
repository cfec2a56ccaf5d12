package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/models/crs"
	"github.com/trimmer-io/go-xmp/models/dc"
	"github.com/trimmer-io/go-xmp/models/exif"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{
		ID: "C12", Level: "exploration", Shards: 8,
		Rule: "After every sequence of up to N operations (adding and making models, setting paths, removing name spaces by value, name and list, filtering, applying filters) on a document with known and unknown name spaces, the document holds the nodes a reference list holds, each with its content untouched, in memory and after a write and read; the result says whether a node went. Every filter expression of up to two terms over all groups, registered and unknown names is parsed, printed, parsed again and applied to a document with content in every name space. Registry lookups by prefix, URI and group agree for all registered name spaces and after every sequence of registrations.",
		Assumptions: []string{
			"A top-level node belongs to one name space, its own; a model of several name spaces goes with the first of them.",
			"A term that is both a group and a name space names the group. Open: removing the second name space of a model of several.",
			"Models synchronize shared properties when a document is written (C22): the explored documents hold no property another one is derived from.",
		},
		Run: runC12,
	})
}

// groups as documented by the models' registration.
var nsGroups = map[string]string{
	"iXML": "sound", "id3": "music", "photomechanic": "image", "iTunes": "music", "photoshop": "image", "xmpTPg": "xmp", "stDim": "", "stFnt": "",
	"xmpBJ": "xmp", "stJob": "", "xmpRights": "xmp rights", "mp4": "movie", "xmpDM": "xmp", "riffinfo": "sound", "dc": "xmp",
	"exif": "image", "exifEX": "image", "aux": "image", "crs": "image", "xmp": "xmp", "xmpidq": "", "xmpG": "", "xmpGImg": "",
	"xmpMM": "xmp", "stEvt": "", "stRef": "", "stVer": "", "qt": "movie camera", "drone-dji": "camera", "tiff": "image", "cc": "rights",
	"digiKam": "xmp", "pdf": "xmp",
}

var groupNames = []string{"xmp", "image", "music", "movie", "sound", "camera", "vfx", "rights"}

func groupMembers(g string) []string {
	var l []string
	for n, gs := range nsGroups {
		if has(strings.Fields(gs), g) {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

// two is a model of two name spaces.
type two struct {
	A string `xmp:"two:a"`
	B string `xmp:"three:b"`
}

var (
	nsTwo   = xmp.NewNamespace("two", "http://example.com/two/", func(string) xmp.Model { return &two{} })
	nsThree = xmp.NewNamespace("three", "http://example.com/three/", func(string) xmp.Model { return &two{} })
)

func (x *two) Can(n string) bool               { return n == "two" || n == "three" }
func (x *two) Namespaces() xmp.NamespaceList   { return xmp.NamespaceList{nsTwo, nsThree} }
func (x *two) SyncModel(d *xmp.Document) error { return nil }
func (x *two) SyncFromXMP(d *xmp.Document) error {
	return nil
}
func (x *two) SyncToXMP(d *xmp.Document) error { return nil }
func (x *two) CanTag(tag string) bool          { return false }
func (x *two) GetTag(tag string) (string, error) {
	return "", fmt.Errorf("no tag")
}
func (x *two) SetTag(tag, value string) error { return fmt.Errorf("no tag") }

// nsSys explores the operations on a document's name spaces.
type nsSys struct {
	d    *xmp.Document
	l    []nsNode
	ops  []nsOp
	init []string
	last string
}

type nsNode struct{ name, content string }

type nsOp struct {
	name string
	run  func(d *xmp.Document) (bool, error)
	next func(l []nsNode) []nsNode // what is left
	ret  bool                      // whether the result is told
}

const c12head = `<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:crs="http://ns.adobe.com/camera-raw-settings/1.0/" xmlns:xmpMM="http://ns.adobe.com/xap/1.0/mm/" xmlns:stRef="http://ns.adobe.com/xap/1.0/sType/ResourceRef#" xmlns:mine="` + nsMine + `" xmlns:Yours="` + nsYours + `">`
const c12foot = `</rdf:RDF></x:xmpmeta>`

var c12parts = map[string]string{
	"dc":    `<rdf:Description rdf:about=""><dc:source>read</dc:source><dc:unknown mine:q="1">u</dc:unknown></rdf:Description>`,
	"crs":   `<rdf:Description rdf:about="" crs:Version="1" crs:Exposure="3"/>`,
	"xmpMM": `<rdf:Description rdf:about=""><xmpMM:DerivedFrom rdf:parseType="Resource"><stRef:filePath>/p</stRef:filePath></xmpMM:DerivedFrom></rdf:Description>`,
	"mine":  `<rdf:Description rdf:about="" mine:a="av"><mine:b><rdf:Bag><rdf:li>x</rdf:li><rdf:li>y</rdf:li></rdf:Bag></mine:b></rdf:Description>`,
	"Yours": `<rdf:Description rdf:about=""><Yours:c rdf:parseType="Resource"><dc:title>nested</dc:title><mine:n>n</mine:n><Yours:m>m</Yours:m></Yours:c></rdf:Description>`,
}

func without(l []nsNode, names ...string) []nsNode {
	var r []nsNode
	for _, x := range l {
		if !has(names, x.name) {
			r = append(r, x)
		}
	}
	return r
}

func only(l []nsNode, names ...string) []nsNode {
	var r []nsNode
	for _, x := range l {
		if has(names, x.name) {
			r = append(r, x)
		}
	}
	return r
}

func nodeContent(n *xmp.Node) string {
	x := *n
	x.XMLName.Local, x.XMLName.Space = "", ""
	return dumpNode(&x)
}

func nsNodes(d *xmp.Document) []nsNode {
	var l []nsNode
	for _, n := range d.Nodes() {
		l = append(l, nsNode{n.Name(), nodeContent(n)})
	}
	return l
}

// filterNext gives what the filter expression with these terms leaves.
func filterNext(l []nsNode, expr string) []nsNode {
	var in, out []string
	for _, t := range strings.Split(expr, ",") {
		if t == "" {
			continue
		}
		to := &in
		switch t[0] {
		case '-':
			to, t = &out, t[1:]
		case '+', ' ':
			t = t[1:]
		}
		if has(groupNames, t) {
			*to = append(*to, groupMembers(t)...)
			if len(groupMembers(t)) == 0 {
				*to = append(*to, " nothing")
			}
		} else {
			*to = append(*to, t)
		}
	}
	if len(in) > 0 {
		l = only(l, in...)
	}
	return without(l, out...)
}

func newNsSys(thorough bool) *nsSys {
	s := &nsSys{}
	byName := map[string]*xmp.Namespace{
		"dc": dc.NsDc, "crs": crs.NsCrs, "xmpMM": xmpmm.NsXmpMM, "two": nsTwo, "aux": exif.NsExifAux, "xmp": xmpbase.NsXmp,
		"mine":  xmp.NewNamespace("mine", nsMine, nil),
		"Yours": xmp.NewNamespace("Yours", nsYours, nil),
	}
	add := func(name string, ret bool, run func(d *xmp.Document) (bool, error), next func(l []nsNode) []nsNode) {
		s.ops = append(s.ops, nsOp{name, run, next, ret})
	}
	names := []string{"dc", "crs", "xmpMM", "mine", "Yours", "two", "aux"}
	for _, n := range names {
		n, ns := n, byName[n]
		add("RemoveNamespace "+n, true, func(d *xmp.Document) (bool, error) { return d.RemoveNamespace(ns), nil },
			func(l []nsNode) []nsNode { return without(l, n) })
	}
	for _, n := range []string{"dc", "mine", "xmpMM", "nobody", ""} {
		n := n
		add("RemoveNamespaceByName "+n, true, func(d *xmp.Document) (bool, error) { return d.RemoveNamespaceByName(n), nil },
			func(l []nsNode) []nsNode { return without(l, n) })
	}
	for _, ns := range []string{"dc mine", "crs aux dc", "Yours Yours", "mine two xmpMM crs", ""} {
		list := strings.Fields(ns)
		mk := func() (l xmp.NamespaceList) {
			for _, n := range list {
				l = append(l, byName[n])
			}
			return
		}
		add("RemoveNamespaces "+ns, true, func(d *xmp.Document) (bool, error) { return d.RemoveNamespaces(mk()), nil },
			func(l []nsNode) []nsNode { return without(l, list...) })
		add("FilterNamespaces "+ns, true, func(d *xmp.Document) (bool, error) { return d.FilterNamespaces(mk()), nil },
			func(l []nsNode) []nsNode { return only(l, list...) })
	}
	for _, e := range []string{"", "dc", "mine,+xmpMM", "-mine", "-dc,-Yours", "image", "-image,-mine", "xmp,-dc", "-nobody", "nobody", "+dc,-dc", "-crs,Yours,crs"} {
		e := e
		add("Apply "+e, true, func(d *xmp.Document) (bool, error) { return xmp.ParseFilter(e).Apply(d), nil },
			func(l []nsNode) []nsNode { return filterNext(l, e) })
	}
	// adding
	replace := func(l []nsNode, name string, m xmp.Model) []nsNode {
		x := append([]nsNode{}, l...)
		c := "model:" + reflect.TypeOf(m).String() + dump(m)
		for i := range x {
			if x[i].name == name {
				// the node keeps its other content
				rest := x[i].content[strings.Index(x[i].content, ">")+1:]
				if j := strings.Index(rest, "<"); j >= 0 {
					rest = rest[j:]
				}
				x[i].content = x[i].content[:strings.Index(x[i].content, ">")+1] + c + rest
				return x
			}
		}
		return append(x, nsNode{name, "<>" + c + "</>"})
	}
	for n, mk := range map[string]func() xmp.Model{
		"dc":    func() xmp.Model { return &dc.DublinCore{Source: "added"} },
		"crs":   func() xmp.Model { return &crs.CameraRawInfo{RawFileName: "added"} },
		"two":   func() xmp.Model { return &two{A: "a", B: "b"} },
		"xmpMM": func() xmp.Model { return &xmpmm.XmpMM{RenditionParams: "added"} },
	} {
		n, mk := n, mk
		s.ops = append(s.ops, nsOp{"AddModel " + n, func(d *xmp.Document) (bool, error) {
			_, err := d.AddModel(mk())
			return true, err
		}, func(l []nsNode) []nsNode { return replace(l, n, mk()) }, false})
	}
	sort.SliceStable(s.ops, func(i, j int) bool { return s.ops[i].name < s.ops[j].name })
	for n, ns := range map[string]*xmp.Namespace{"dc": dc.NsDc, "aux": exif.NsExifAux, "two": nsTwo, "three": nsThree} {
		n, ns := n, ns
		if n == "three" {
			n = "two"
		}
		s.ops = append(s.ops, nsOp{"MakeModel " + ns.GetName(), func(d *xmp.Document) (bool, error) {
			_, err := d.MakeModel(ns)
			return true, err
		}, func(l []nsNode) []nsNode {
			for _, x := range l {
				if x.name == n && strings.Contains(x.content, "model:") {
					return l
				}
			}
			return replace(l, n, ns.NewModel())
		}, false})
	}
	sort.SliceStable(s.ops, func(i, j int) bool { return s.ops[i].name < s.ops[j].name })
	for _, in := range []string{"dc mine", "Yours xmpMM", ""} {
		s.init = append(s.init, in)
	}
	if thorough {
		s.init = append(s.init, "dc crs xmpMM mine Yours", "mine Yours", "crs", "Yours mine dc")
	} else {
		s.init = append(s.init, "dc crs xmpMM mine Yours")
	}
	return s
}

func (s *nsSys) Ops() []string {
	var l []string
	for _, o := range s.ops {
		l = append(l, o.name)
	}
	return l
}
func (s *nsSys) Inits() []string { return s.init }

func (s *nsSys) Reset(i int) {
	if s.d != nil {
		s.d.Close()
	}
	t := c12head
	for _, n := range strings.Fields(s.init[i]) {
		t += c12parts[n]
	}
	s.d = xmp.NewDocument()
	if err := xmp.Unmarshal([]byte(t+c12foot), s.d); err != nil {
		panic(err)
	}
	s.l = nsNodes(s.d)
}

func (s *nsSys) Canon() string { return fmt.Sprint(s.l) }

func (s *nsSys) Apply(op int) string {
	o := s.ops[op]
	before := s.l
	removed, err := o.run(s.d)
	if err != nil {
		return "error " + err.Error()
	}
	s.l = o.next(before)
	if o.ret && removed != (len(s.l) < len(before)) {
		return fmt.Sprintf("%s returns %v, %d of %d name spaces are left", o.name, removed, len(s.l), len(before))
	}
	return checkNodes(s.d, s.l, before)
}

// c12more are the further name spaces of models.
var c12more = map[string][]string{"two": {"three"}, "exif": {"exifEX", "aux"}}

// checkNodes compares the document with the list and reads back what it writes.
func checkNodes(d *xmp.Document, l, before []nsNode) string {
	got := nsNodes(d)
	if fmt.Sprint(got) != fmt.Sprint(l) {
		return fmt.Sprintf("holds %v, expected %v", got, l)
	}
	known := map[string]bool{}
	for _, ns := range d.Namespaces() {
		known[ns.GetName()] = true
	}
	left := map[string]bool{}
	for _, x := range l {
		left[x.name] = true
		if !known[x.name] {
			return fmt.Sprintf("Namespaces does not list %s", x.name)
		}
		if ns := d.FindNs(x.name+":x", ""); ns == nil || ns.GetName() != x.name {
			return "FindNs does not find " + x.name
		} else if n := d.FindNode(ns); n == nil || n.Name() != x.name {
			return "FindNode does not find " + x.name
		} else if m := d.FindModel(ns); (m != nil) != strings.Contains(x.content, "model:") || m != nil && m != n.Model {
			return "FindModel and FindNode differ for " + x.name
		}
	}
	for _, x := range before {
		if left[x.name] {
			continue
		}
		if ns := d.FindNs(x.name+":x", ""); ns != nil && (d.FindNode(ns) != nil || d.FindModel(ns) != nil) {
			return x.name + " was removed and is still found"
		}
		// name spaces of the removed node that nothing else uses
		gone := []string{x.name}
		if strings.Contains(x.content, "model:") {
			gone = append(gone, c12more[x.name]...)
		}
		for _, n := range gone {
			if known[n] && !left[n] && !strings.Contains(fmt.Sprint(l), n+":") {
				return fmt.Sprintf("%s was removed and name space %s is still listed", x.name, n)
			}
		}
	}
	// a copy through XML holds the same
	want := docParts(d)
	b, err := xmp.Marshal(d)
	if err != nil {
		return "writing: " + err.Error()
	}
	if got := docParts(d); !reflect.DeepEqual(want, got) {
		return fmt.Sprintf("writing changes the document from %v to %v", want, got)
	}
	d2 := xmp.NewDocument()
	defer d2.Close()
	if err := xmp.Unmarshal(b, d2); err != nil {
		return "reading what was written: " + err.Error()
	}
	got2 := docParts(d2)
	// models may hold nothing
	for k, v := range want {
		if got2[k] != v {
			return fmt.Sprintf("%s: read back %q, expected %q", k, got2[k], v)
		}
	}
	for k, v := range got2 {
		if want[k] == "" {
			return fmt.Sprintf("%s: %q appears when read back", k, v)
		}
	}
	return ""
}

func runC12(c *core.Ctx) {
	xmp.Register(nsTwo)
	xmp.Register(nsThree)
	if c.Mine() {
		c.BFS("sequences", newNsSys(c.Thorough()), core.Pick(c, 2, 3))
	}
	c12filters(c)
	c12registry(c)
	c12lists(c)
}

// full is a document with content in every name space.
func fullDoc() (*xmp.Document, error) {
	d := xmp.NewDocument()
	t := c12head + c12parts["mine"] + c12parts["Yours"] + c12foot
	if err := xmp.Unmarshal([]byte(t), d); err != nil {
		return nil, err
	}
	for i := range allModels() {
		m := &allModels()[i]
		for _, f := range m.Fields {
			a := alphabet(f.Type, 0)
			if len(a) == 0 || !strings.HasPrefix(f.Name, m.Prefix+":") {
				continue
			}
			x := m.NS.NewModel()
			m.put(x, f, clone(a[0]))
			if _, err := d.AddModel(x); err != nil {
				return nil, err
			}
			break
		}
	}
	return d, nil
}

func c12filters(c *core.Ctx) {
	c.Group("filters")
	d, err := fullDoc()
	if err != nil {
		c.Case("full", nil, func() string { return err.Error() })
		return
	}
	all := nsNodes(d)
	d.Close()
	terms := append([]string{}, groupNames...)
	for n := range nsGroups {
		if n != "xmp" {
			terms = append(terms, n)
		}
	}
	sort.Strings(terms)
	terms = append(terms, "mine", "Yours", "nobody", "Nobody", "DC", "d", "")
	var exprs []string
	for _, s := range []string{"", "+", "-", " "} {
		for _, t := range terms {
			exprs = append(exprs, s+t)
		}
	}
	one := len(exprs)
	for i := 0; i < one; i++ {
		for j := 0; j < one; j++ {
			exprs = append(exprs, exprs[i]+","+exprs[j])
		}
	}
	exprs = append(exprs, ",", ",,", "dc,,tiff", ",dc", "dc,", "dc,tiff,pdf,-dc", "-dc,-tiff,-image", "image,movie,-exif,-qt", "image,xmp,sound,-dc,-tiff,mine", "-xmp,-image,-music,-movie,-sound,-camera,-rights", "xmp,image,music,movie,sound,camera,rights,mine,Yours")
	apply := func(f *xmp.Filter) (string, bool, error) {
		d, err := fullDoc()
		if err != nil {
			return "", false, err
		}
		r := f.Apply(d)
		return fmt.Sprint(nsNodes(d)), r, nil
	}
	for _, e := range exprs {
		e := e
		c.Case("filter|"+e, func() any { return e }, func() string {
			left := filterNext(all, e)
			unknown := false
			for _, t := range strings.Split(e, ",") {
				if t == "" {
					continue
				}
				t0 := strings.TrimLeft(t[:1], "+- ") + t[1:]
				if _, ok := nsGroups[t0]; !ok && !has(groupNames, t0) {
					unknown = true
				}
			}
			want := fmt.Sprint(left)
			f := xmp.ParseFilter(e)
			got, r, err := apply(f)
			if err != nil {
				return err.Error()
			}
			if got != want {
				return fmt.Sprintf("leaves %v, expected %v", got, want)
			}
			if r != (len(left) < len(all)) {
				return fmt.Sprintf("returns %v with %d of %d left", r, len(left), len(all))
			}
			if r {
				c.Nontrivial(e)
			}
			// printed and parsed
			s := f.String()
			if got, _, _ := apply(xmp.ParseFilter(s)); got != want {
				return fmt.Sprintf("prints as %q, which leaves %v, expected %v", s, got, want)
			}
			if s2 := xmp.ParseFilter(s).String(); s2 != s {
				if got, _, _ := apply(xmp.ParseFilter(s2)); got != want {
					return fmt.Sprintf("prints as %q, then %q, which leaves %v", s, s2, got)
				}
			}
			var u xmp.Filter
			if err := u.UnmarshalText([]byte(e)); err != nil {
				return err.Error()
			}
			if u.String() != s || xmp.ConvertFilter(e).Interface().(xmp.Filter).String() != s {
				return fmt.Sprintf("UnmarshalText, ConvertFilter and ParseFilter differ: %q", s)
			}
			st, err := xmp.ParseFilterStrict(e)
			if strings.Contains(e, " ") {
				return "" // only a form of the other parser
			}
			if unknown != (err != nil) {
				return fmt.Sprintf("ParseFilterStrict returns %v", err)
			}
			if err == nil {
				if got, _, _ := apply(st); got != want {
					return fmt.Sprintf("ParseFilterStrict: leaves %v, expected %v", got, want)
				}
			}
			return ""
		})
	}
}

func c12registry(c *core.Ctx) {
	c.Group("registry")
	reg := &xmp.NsRegistry
	for _, n := range sortedKeys(nsGroups) {
		n := n
		c.Case("registered|"+n, func() any { return n }, func() string {
			ns, err := xmp.GetNamespace(n)
			if err != nil {
				return err.Error()
			}
			uri := gold.Namespaces[n]
			if uri == "" {
				return "no URI on record for " + n
			}
			if ns.GetName() != n || ns.GetURI() != uri {
				return fmt.Sprintf("prefix %s names %s %s", n, ns.GetName(), ns.GetURI())
			}
			if p := reg.GetPrefix(uri); p != n {
				return fmt.Sprintf("URI %s has prefix %q", uri, p)
			}
			if s := reg.Short(uri, "x"); s != n+":x" {
				return fmt.Sprintf("Short gives %q", s)
			}
			if !has(reg.Prefixes(), n) || !reg.Namespaces().Contains(ns) || !reg.Namespaces().ContainsName(n) {
				return "not listed"
			}
			for _, g := range groupNames {
				in := has(strings.Fields(nsGroups[n]), g)
				if xmp.ParseNamespaceGroup(g).Contains(ns) != in {
					return fmt.Sprintf("group %s contains %s: %v", g, n, !in)
				}
				if (xmp.NamespaceGroupList{xmp.ParseNamespaceGroup(g)}).Contains(ns) != in {
					return fmt.Sprintf("group list %s contains %s: %v", g, n, !in)
				}
				l, err := xmp.GetGroupNamespaces(xmp.ParseNamespaceGroup(g))
				if err != nil && len(groupMembers(g)) > 0 {
					return err.Error()
				}
				if l.Contains(ns) != in {
					return fmt.Sprintf("group %s lists %s: %v", g, n, !in)
				}
			}
			if m := ns.NewModel(); m != nil {
				if l := m.Namespaces(); len(l) == 0 || l[0].GetName() != n || l[0].GetURI() != uri {
					return fmt.Sprintf("the model made for %s belongs to %v", n, l)
				}
				if !m.Can(n) || m.Can("nobody") {
					return "Can is wrong"
				}
				if s := dump(m); s != "" && !(n == "iXML" && s == `{Version:"2.0"}`) {
					return "a new model holds " + dump(m)
				}
				if m2 := ns.NewModel(); m2 == m {
					return "the factory gives the same model twice"
				}
			} else if nsGroups[n] != "" {
				return "no model is made"
			}
			c.Nontrivial(n)
			return ""
		})
	}
	for range c.Block() {
		c.Case("unregistered", nil, func() string {
			for _, n := range []string{"", "nobody", "DC", "dc:", "dc:x"} {
				if ns, err := xmp.GetNamespace(n); err == nil {
					return fmt.Sprintf("%q names %v", n, ns)
				}
			}
			for _, u := range []string{"", "http://example.com/nobody", "http://purl.org/dc/elements/1.1"} {
				if p := reg.GetPrefix(u); p != "" {
					return fmt.Sprintf("%q has prefix %q", u, p)
				}
				if s := reg.Short(u, "x"); s != "x" {
					return fmt.Sprintf("Short(%q) gives %q", u, s)
				}
			}
			if xmp.ParseNamespaceGroup("") != xmp.NoMetadata || xmp.ParseNamespaceGroup("dc") != xmp.NoMetadata {
				return "parses as a group"
			}
			if _, err := xmp.GetGroupNamespaces(""); err == nil {
				return "no metadata is a group"
			}
			if l := xmp.NamespaceGroup("nobody").Namespaces(); len(l) > 0 {
				return "members of an unknown group"
			}
			return ""
		})
	}
	// sequences of registrations: name spaces 0..n-1, each with a set of groups,
	// some registered twice
	serial := 0
	n := core.Pick(c, 3, 4)
	sets := [][]int{{}, {0}, {1}, {0, 1}, {1, 0, 2}}
	total := 1
	for i := 0; i < n; i++ {
		total *= len(sets) * 2
	}
	for k := 0; k < total; k++ {
		serial++
		k := k
		id := fmt.Sprintf("r%d", serial)
		c.Case("register|"+fmt.Sprint(k), func() any { return k }, func() string {
			type entry struct {
				ns     *xmp.Namespace
				groups []int
			}
			var l []entry
			group := func(g int) xmp.NamespaceGroup { return xmp.NamespaceGroup(fmt.Sprintf("%sg%d", id, g)) }
			v := k
			for i := 0; i < n; i++ {
				twice := v%2 == 1
				v /= 2
				set := sets[v%len(sets)]
				v /= len(sets)
				ns := xmp.NewNamespace(fmt.Sprintf("%sp%d", id, i), fmt.Sprintf("http://%s/%d/", id, n-i), nil)
				var gs []xmp.NamespaceGroup
				for _, g := range set {
					gs = append(gs, group(g), xmp.NoMetadata)
				}
				if twice && len(gs) > 0 {
					xmp.Register(ns)
				}
				// a list taken before does not change
				held, _ := xmp.GetGroupNamespaces(group(0))
				was := fmt.Sprint(held)
				if len(held) > 0 {
					// nor does changing a list change the registry
					first := held[0]
					held[0] = nsTwo
					now, _ := xmp.GetGroupNamespaces(group(0))
					if now[0] != first {
						return "changing the returned list changes the group"
					}
					held[0] = first
				}
				xmp.Register(ns, gs...)
				if fmt.Sprint(held) != was {
					return "registering changes a list returned before"
				}
				l = append(l, entry{ns, set})
				// everything registered so far is found
				for j, e := range l {
					got, err := xmp.GetNamespace(e.ns.GetName())
					if err != nil || got != e.ns {
						return fmt.Sprintf("after %d: prefix of %d gives %v %v", i, j, got, err)
					}
					if p := reg.GetPrefix(e.ns.GetURI()); p != e.ns.GetName() {
						return fmt.Sprintf("after %d: URI of %d gives %q", i, j, p)
					}
					for g := 0; g < 3; g++ {
						in := false
						for _, x := range e.groups {
							in = in || x == g
						}
						if group(g).Contains(e.ns) != in {
							return fmt.Sprintf("after %d: group %d contains %d: %v", i, g, j, !in)
						}
						list, _ := xmp.GetGroupNamespaces(group(g))
						cnt := 0
						for _, x := range list {
							if x == e.ns {
								cnt++
							}
						}
						if in && cnt != 1 || !in && cnt != 0 {
							return fmt.Sprintf("after %d: group %d lists %d %d times", i, g, j, cnt)
						}
					}
				}
				if _, err := xmp.GetGroupNamespaces(xmp.NoMetadata); err == nil {
					return "no metadata is a group"
				}
			}
			c.Nontrivial(id)
			return ""
		})
	}
}

// c12lists checks the name space lists themselves.
func c12lists(c *core.Ctx) {
	c.Group("lists")
	pool := []*xmp.Namespace{
		xmp.NewNamespace("a", "u:1", nil), xmp.NewNamespace("a", "u:2", nil), xmp.NewNamespace("b", "u:1", nil), xmp.NewNamespace("b", "u:2", nil), xmp.NewNamespace("", "", nil),
	}
	n := core.Pick(c, 4, 6)
	var rec func(l []int)
	rec = func(l []int) {
		for range c.Block() {
			l := append([]int{}, l...)
			c.Case("list|"+fmt.Sprint(l), func() any { return l }, func() string {
				mk := func() (x xmp.NamespaceList) {
					for _, i := range l {
						x = append(x, pool[i])
					}
					return
				}
				for _, p := range pool {
					in := false
					for _, i := range l {
						in = in || pool[i].GetName() == p.GetName()
					}
					if mk().Contains(p) != in {
						return fmt.Sprintf("Contains %v is %v", *p, !in)
					}
					if mk().ContainsName(p.GetName()) != (in && p.GetName() != "") {
						return fmt.Sprintf("ContainsName %q is %v", p.GetName(), !in)
					}
				}
				if mk().Contains(nil) || mk().ContainsName("c") || mk().ContainsName("") {
					return "contains what is not there"
				}
				var want xmp.NamespaceList
				for _, i := range l {
					dup := false
					for _, w := range want {
						dup = dup || w.GetURI() == pool[i].GetURI()
					}
					if !dup {
						want = append(want, pool[i])
					}
				}
				x := mk()
				if got := x.RemoveDups(); fmt.Sprint(got) != fmt.Sprint(want) || fmt.Sprint(x) != fmt.Sprint(want) {
					return fmt.Sprintf("RemoveDups gives %v and %v", got, x)
				}
				return ""
			})
		}
		if len(l) < n {
			for i := range pool {
				rec(append(append([]int{}, l...), i))
			}
		}
	}
	rec(nil)
}
