package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"

	"github.com/trimmer-io/go-xmp/models/dc"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/tiff"
	"github.com/trimmer-io/go-xmp/xmp"

	"verifmc/core"
	"verifmc/vrt"
)

func init() {
	core.Add(&core.Check{ID: "C16", Level: "model_checking", Shards: 8,
		Rule: "The library is built with a decision point before every statement that uses mutable package-level state, a channel or the sync packages, with locks taken through the scheduler, and with the race detector. Pairs and triples of goroutines working on their own documents are run under every schedule with up to the bound of preemptions at decision points; each goroutine's results are compared with those of the same work done alone, and every execution is watched for data races (happens-before, over all memory), deadlocks and panics. The handover between goroutines is invisible to the race detector.",
		Assumptions: []string{
			"Decision points are found by type and name at check time; races at other places are found by the race detector whatever the schedule, as long as the goroutines are not ordered by synchronization in every schedule explored.",
			"sync.Pool and maps inside the standard library are the real ones; happens-before edges they add may hide a race in some schedules.",
		},
		Run: runC16})
}

// run16 is the number of the execution; types and namespaces made for it are
// new to the library.
var run16 int

// work16 is a goroutine's work. It returns everything it observes.
type work16 struct {
	name string
	long bool // many decision points
	f    func(run int) string
}

const c16small = `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="one" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:mine="http://example.com/mine/1.0/" dc:format="image/png" mine:a="v"/></rdf:RDF>`
const c16tree = `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="two" xmlns:crs="http://ns.adobe.com/camera-raw-settings/1.0/" xmlns:mine="http://example.com/other/1.0/" crs:Version="9" mine:q="q"><mine:s rdf:parseType="Resource"><mine:in>deep</mine:in></mine:s></rdf:Description></rdf:RDF>`

func read16(s string) (*xmp.Document, string) {
	d := xmp.NewDocument()
	if err := xmp.Unmarshal([]byte(s), d); err != nil {
		return d, "error " + err.Error()
	}
	return d, state17(d)
}

// dynModel is a model in a namespace of its own with a field of a type made at
// run time.
type dynModel struct {
	ns *xmp.Namespace
	A  string      `xmp:"-"`
	St interface{} `xmp:"cm:st"`
	B  string      `xmp:"cm:b,attr"`
}

func (m *dynModel) Can(n string) bool                 { return n == m.ns.GetName() }
func (m *dynModel) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{m.ns} }
func (m *dynModel) SyncModel(d *xmp.Document) error   { return nil }
func (m *dynModel) SyncFromXMP(d *xmp.Document) error { return nil }
func (m *dynModel) SyncToXMP(d *xmp.Document) error   { return nil }
func (m *dynModel) CanTag(tag string) bool            { return false }
func (m *dynModel) GetTag(tag string) (string, error) { return "", nil }
func (m *dynModel) SetTag(tag, value string) error    { return nil }

// dynStruct is the struct type of a run: new to the library, the same for all
// goroutines.
func dynStruct(run int) reflect.Type {
	str := reflect.TypeOf("")
	in := reflect.StructOf([]reflect.StructField{
		{Name: "I", Type: str, Tag: reflect.StructTag(fmt.Sprintf(`xmp:"cm:i%d"`, run))},
	})
	return reflect.StructOf([]reflect.StructField{
		{Name: "X", Type: str, Tag: reflect.StructTag(fmt.Sprintf(`xmp:"cm:x%d,attr"`, run))},
		{Name: "Y", Type: str, Tag: `xmp:"cm:y"`},
		{Name: "S", Type: in, Tag: `xmp:"cm:s"`},
	})
}

func works16() []work16 {
	res := func(b []byte, err error) string { return fmt.Sprint(string(b), err) }
	return []work16{
		{"read and close", false, func(int) string {
			d, s := read16(c16small)
			d.Close()
			return s
		}},
		{"read and close a tree", true, func(int) string {
			d, s := read16(c16tree)
			d.Close()
			return s
		}},
		{"close and read again", true, func(int) string {
			d, _ := read16(c16tree)
			d.Close()
			d, s := read16(c16small)
			e, t := read16(c16tree)
			s += t + state17(d)
			d.Close()
			s += state17(e)
			e.Close()
			return s
		}},
		{"read JSON", true, func(int) string {
			d := xmp.NewDocument()
			err := json.Unmarshal([]byte(`{"about":"j","namespaces":{"mine":"http://example.com/third/1.0/","dc":"http://purl.org/dc/elements/1.1/"},"models":{"dc":{"dc:format":"f"},"mine":{"mine:a":"v"}}}`), d)
			s := fmt.Sprint(err, state17(d))
			d.Close()
			return s
		}},
		{"write", false, func(int) string {
			d := xmp.NewDocument()
			d.AddModel(&dc.DublinCore{Format: "w", Subject: xmp.NewStringArray("a", "b")})
			s := res(xmp.Marshal(d))
			d.Close()
			return s
		}},
		{"write JSON", false, func(int) string {
			d := xmp.NewDocument()
			d.AddModel(&dc.DublinCore{Format: "wj", Title: xmp.NewAltString("t")})
			s := res(json.Marshal(d))
			d.Close()
			return s
		}},
		{"write with errors", false, func(int) string {
			d := xmp.NewDocument()
			d.AddModel(&tiff.TiffInfo{Make: "m"})
			var b bytes.Buffer
			e := xmp.NewEncoder(&b)
			e.SetMaxSize(100)
			s := fmt.Sprint(e.Encode(d), b.String())
			d.Close()
			return s
		}},
		{"edit", true, func(int) string {
			d := xmp.NewDocument()
			s := fmt.Sprint(d.SetPath(xmp.PathValue{Path: "dc:format", Value: "e", Flags: xmp.CREATE | xmp.REPLACE}))
			s += fmt.Sprint(d.SetPath(xmp.PathValue{Path: "mine:x/mine:y", Namespace: "http://example.com/mine/1.0/", Value: "f", Flags: xmp.CREATE | xmp.REPLACE}))
			v, err := d.GetPath("mine:x/mine:y")
			s += fmt.Sprint(v, err, state17(d))
			s += fmt.Sprint(d.SetPath(xmp.PathValue{Path: "dc:format", Flags: xmp.DELETE}), state17(d))
			d.Close()
			return s
		}},
		{"list", true, func(int) string {
			d, _ := read16(c16tree)
			l, err := d.ListPaths()
			s := fmt.Sprint(l, err)
			d.Close()
			return s
		}},
		{"merge", true, func(int) string {
			d, _ := read16(c16small)
			e, _ := read16(c16tree)
			s := fmt.Sprint(d.Merge(e, xmp.MERGE))
			e.Close()
			s += state17(d)
			d.Close()
			return s
		}},
		{"filter", false, func(int) string {
			d, _ := read16(c16small)
			s := fmt.Sprint(xmp.ParseFilter("-mine").Apply(d), state17(d))
			s += fmt.Sprint(d.RemoveNamespaceByName("dc"), state17(d))
			d.Close()
			return s
		}},
		{"make models", false, func(int) string {
			d := xmp.NewDocument()
			s := ""
			for _, n := range []string{"dc", "xmpMM"} {
				ns, err := xmp.GetNamespace(n)
				m, err2 := d.MakeModel(ns)
				s += fmt.Sprint(reflect.TypeOf(m), err, err2, d.FindModel(ns) == m)
			}
			d.Close()
			return s
		}},
		{"native tags", false, func(int) string {
			m := &id3.ID3{}
			err := xmp.SetNativeField(m, "TALB", "album")
			v, err2 := xmp.GetNativeField(m, "TALB")
			return fmt.Sprint(err, v, err2, dump(m))
		}},
		{"new types", false, func(run int) string {
			ns := xmp.NewNamespace("cm", "http://example.com/cm/1.0/", func(string) xmp.Model { return nil })
			v := reflect.New(dynStruct(run)).Elem()
			v.Field(0).SetString("x")
			v.Field(1).SetString("y")
			v.Field(2).Field(0).SetString("i")
			d := xmp.NewDocument()
			d.AddModel(&dynModel{ns: ns, St: v.Addr().Interface(), B: "b"})
			s := res(xmp.Marshal(d))
			d.Close()
			return strings.NewReplacer(fmt.Sprint("x", run), "x", fmt.Sprint("i", run), "i").Replace(s)
		}},
		{"new types in an order of its own", false, func(run int) string {
			ns := xmp.NewNamespace("cm", "http://example.com/cm/1.0/", func(string) xmp.Model { return nil })
			t := dynStruct(run)
			d := xmp.NewDocument()
			v := reflect.New(t.Field(2).Type).Elem()
			v.Field(0).SetString("inner")
			d.AddModel(&dynModel{ns: ns, St: v.Addr().Interface()})
			s := res(xmp.Marshal(d))
			d.Close()
			w := reflect.New(t)
			n := xmp.NewNode(xmp.NewName("cm:st"))
			n.AddStringAttr(fmt.Sprintf("cm:x%d", run), "x")
			err := xmp.NewDecoder(nil).DecodeElement(w.Interface(), n)
			n.Close()
			s += fmt.Sprint(err, w.Elem().Field(0))
			return strings.NewReplacer(fmt.Sprint("x", run), "x", fmt.Sprint("i", run), "i").Replace(s)
		}},
		{"new tag space", false, func(run int) string {
			m := &dynModel{ns: xmp.NewNamespace(fmt.Sprint("nt", run), "http://example.com/nt/", nil)}
			err := xmp.SetNativeField(m, "A", "native")
			v, err2 := xmp.GetNativeField(m, "A")
			l, err3 := xmp.ListNativeFields(m)
			return strings.ReplaceAll(fmt.Sprint(err, v, err2, len(l), err3, m.A), fmt.Sprint("nt", run), "nt")
		}},
		{"register", false, func(run int) string {
			n := run % 64
			ns := xmp.NewNamespace(fmt.Sprint("reg", n), fmt.Sprintf("http://example.com/reg/%d/", n), func(string) xmp.Model { return nil })
			xmp.Register(ns)
			g, err := xmp.GetNamespace(ns.GetName())
			s := fmt.Sprint(g == nil || g.GetURI() != ns.GetURI(), err, xmp.NsRegistry.GetPrefix(ns.GetURI()) == ns.GetName(), xmp.NsRegistry.Short(ns.GetURI(), "x") == ns.GetName()+":x")
			_, err = xmp.GetNamespace("never")
			return s + fmt.Sprint(err)
		}},
		{"register in a group", false, func(run int) string {
			n := run % 64
			ns := xmp.NewNamespace(fmt.Sprint("grp", n), fmt.Sprintf("http://example.com/grp/%d/", n), func(string) xmp.Model { return nil })
			grp := xmp.NamespaceGroup(fmt.Sprint("group", run))
			_, err := xmp.GetGroupNamespaces(grp)
			gone := err != nil
			xmp.Register(ns, grp, xmp.NoMetadata)
			l, err := xmp.GetGroupNamespaces(grp)
			if gone && len(l) > 1 {
				gone = len(l) == 2 // another goroutine registers it, too
			}
			found := false
			for _, x := range l {
				found = found || x == ns
			}
			return fmt.Sprint(found, err)
		}},
		{"look up", false, func(int) string {
			s := ""
			for _, p := range []string{"dc", "xmp", "reg1", "crs"} {
				ns, err := xmp.GetNamespace(p)
				if p == "reg1" {
					continue
				}
				s += fmt.Sprint(ns.GetURI(), err)
			}
			l, err := xmp.GetGroupNamespaces(xmp.ImageMetadata)
			s += fmt.Sprint(len(l), err, xmp.NsRegistry.Short("http://purl.org/dc/elements/1.1/", "x"), xmp.NsRegistry.GetPrefix("http://none/"))
			s += l[0].GetName()
			l[0] = nil // the list is the caller's
			n := 0
			nl, pl := xmp.NsRegistry.Namespaces(), xmp.NsRegistry.Prefixes()
			for i, x := range nl {
				if x.GetName() == "dc" {
					n++
				}
				nl[i] = nil
			}
			for i, x := range pl {
				if x == "dc" {
					n++
				}
				pl[i] = ""
			}
			return s + fmt.Sprint(n)
		}},
		{"use a namespace while it's registered", false, func(run int) string {
			n := run % 64
			d := xmp.NewDocument()
			err := xmp.Unmarshal([]byte(`<rdf:RDF xmlns:rdf="`+nsRDF+`"><rdf:Description xmlns:p="http://example.com/p/" p:a="1"/></rdf:RDF>`), d)
			s := fmt.Sprint(err, state17(d), n < 64)
			s += fmt.Sprint(d.SetPath(xmp.PathValue{Path: "p:b", Value: "2", Flags: xmp.CREATE | xmp.REPLACE}))
			s += res(xmp.Marshal(d))
			d.Close()
			return s
		}},
	}
}

// raceText is what the race detector has written.
func raceText() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			b, _ := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
			if len(b) > 3000 {
				b = b[len(b)-3000:]
			}
			return string(b)
		}
	}
	return ""
}

// exec16 runs the works under one schedule.
func exec16(ws []work16, want []string, first int, sw []vrt.Switch) (vrt.Result, string) {
	run16++
	run := run16
	races := vrt.Races()
	got := make([]string, len(ws))
	var fs []func()
	for i, w := range ws {
		fs = append(fs, func() { got[i] = w.f(run) })
	}
	r := vrt.Run(fs, first, sw)
	switch {
	case r.Deadlock:
		return r, "deadlock"
	case vrt.Races() > races:
		return r, "data race:\n" + raceText()
	}
	for i := range ws {
		if r.Panics[i] != "" {
			return r, ws[i].name + ": " + r.Panics[i]
		}
		if got[i] != want[i] {
			return r, fmt.Sprintf("%s gives other results than alone: %s", ws[i].name, firstDiff(want[i], got[i]))
		}
	}
	return r, ""
}

// explore16 runs every schedule with up to bound preemptions.
func explore16(c *core.Ctx, ws []work16, want []string, bound int) {
	var names []string
	for _, w := range ws {
		names = append(names, w.name)
	}
	key := strings.Join(names, " | ")
	one := func(first int, sw []vrt.Switch) (vrt.Result, bool) {
		var r vrt.Result
		ok := c.Case(fmt.Sprintf("%s: start %d %v", key, first, sw), func() any {
			return map[string]any{"goroutines": names, "first": first, "switches": sw}
		}, func() (msg string) {
			r, msg = exec16(ws, want, first, sw)
			return
		})
		c.States++
		c.Transitions += int64(r.Steps)
		return r, ok
	}
	var rec func(first int, sw []vrt.Switch, left int)
	rec = func(first int, sw []vrt.Switch, left int) {
		r, ok := one(first, sw)
		if !ok || left == 0 || c.Stop() {
			return
		}
		from := 1
		if len(sw) > 0 {
			from = sw[len(sw)-1].Step + 1
		}
		for j := from; j < len(r.Who); j++ {
			for t := range ws {
				if int(r.Who[j]) != t {
					rec(first, append(sw[:len(sw):len(sw)], vrt.Switch{Step: j, To: t}), left-1)
				}
			}
		}
	}
	for first := range ws {
		rec(first, nil, bound)
	}
}

func runC16(c *core.Ctx) {
	if len(vrt.Sites) == 0 || !vrt.Race {
		panic("C16 needs the instrumented build with the race detector")
	}
	runtime.GOMAXPROCS(1)
	sites := 0
	for _, n := range vrt.Sites {
		sites += n
	}
	c.Bound("instrumented sites", sites)
	ws := works16()
	want := make([]string, len(ws))
	c.Group("alone")
	for i, w := range ws {
		run16++
		want[i] = w.f(run16)
		c.Case("alone "+w.name, nil, func() string {
			r, msg := exec16([]work16{w}, want[i:i+1], 0, nil)
			c.Bound("decision points of "+w.name, r.Steps)
			c.Outcome(want[i])
			return msg
		})
	}
	steps := make([]int, len(ws))
	c.Group("pairs")
	c.Bound("preemptions of pairs", core.Pick(c, "2 for pairs with up to 70 decision points, else 1", "2 (1 for two long ones)"))
	for i, w := range ws {
		r, _ := exec16([]work16{w}, want[i:i+1], 0, nil)
		steps[i] = r.Steps
	}
	for i, a := range ws {
		for j, b := range ws {
			if j < i {
				continue
			}
			for range c.Block() {
				c.Nontrivial(fmt.Sprint(i, j))
				n := 1
				if core.Pick(c, steps[i]+steps[j] <= 70, !(a.long && b.long)) {
					n = 2
				}
				explore16(c, []work16{a, b}, []string{want[i], want[j]}, n)
			}
			if c.Stop() {
				return
			}
		}
	}
	c.Group("triples")
	c.Bound("preemptions of triples", core.Pick(c, "1 for triples with up to 75 decision points", "1"))
	for i, a := range ws {
		for j := i; j < len(ws); j++ {
			for k := j; k < len(ws); k++ {
				if !c.Thorough() && steps[i]+steps[j]+steps[k] > 75 {
					continue
				}
				for range c.Block() {
					c.Nontrivial(fmt.Sprint(i, j, k))
					explore16(c, []work16{a, ws[j], ws[k]}, []string{want[i], want[j], want[k]}, 1)
				}
				if c.Stop() {
					return
				}
			}
		}
	}
	if !c.Thorough() {
		return
	}
	c.Group("three preemptions")
	c.Bound("three preemptions", "pairs with up to 60 decision points")
	for i, a := range ws {
		for j := i; j < len(ws); j++ {
			if steps[i]+steps[j] > 60 {
				continue
			}
			for range c.Block() {
				explore16(c, []work16{a, ws[j]}, []string{want[i], want[j]}, 3)
			}
			if c.Stop() {
				return
			}
		}
	}
}
