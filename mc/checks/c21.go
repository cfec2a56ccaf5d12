package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{
		ID: "C21", Level: "exploration", Shards: 8,
		Rule: "For every document of a corpus (every property of every model with every value, full models, pairs of models, unknown content of every shape, custom models, embedded documents, the sample files, documents under change) every sequence of N observing operations (encoding as XML, with other headers and indentation, and JSON, failing to encode at any of several bytes or in a model, listing paths, reading every path and absent ones, name spaces, nodes and models, native tags, comparing and searching lists, being merged from, embedded and copied) leaves content, name spaces and about values as they were after the first synchronization (from the very start for documents whose models do not synchronize), and every operation gives what it gives on the settled document alone. For every sequence of formats up to a length, writing and reading again gives the same content each time after the first cycle. Non-trivial: the document is not empty.",
		Assumptions: []string{
			"The first write or listing after a change synchronizes the built-in models (C22); the state after it is the reference.",
			"Which properties a format can hold is the subject of C02 to C06; here the content after one cycle must be stable.",
		},
		Run: runC21,
	})
}

type readOp struct {
	name string
	f    func(d *xmp.Document) string
}

func res(b []byte, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

func listText(l xmp.PathValueList, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("%+v", l)
}

func eachModel(d *xmp.Document, f func(m xmp.Model) string) string {
	var b strings.Builder
	for _, n := range d.Nodes() {
		if n.Model != nil {
			b.WriteString(n.XMLName.Local + ":" + f(n.Model) + ";")
		}
	}
	return b.String()
}

// readOps are the operations that only observe a document.
func readOps() []readOp {
	fault := func(at, kind int) func(d *xmp.Document) string {
		return func(d *xmp.Document) string {
			w := &faultyWriter{at: at, kind: kind}
			err := xmp.NewEncoder(w).Encode(d)
			return fmt.Sprint(err, w.buf.Len())
		}
	}
	ops := []readOp{
		{"Marshal", func(d *xmp.Document) string { return res(xmp.Marshal(d)) }},
		{"MarshalIndent", func(d *xmp.Document) string { return res(xmp.MarshalIndent(d, "", "\t")) }},
		{"json.Marshal", func(d *xmp.Document) string { return res(json.Marshal(d)) }},
		{"MarshalJSON", func(d *xmp.Document) string { return res(d.MarshalJSON()) }},
		{"Encode", func(d *xmp.Document) string {
			var b bytes.Buffer
			e := xmp.NewEncoder(&b)
			e.SetFlags(xmp.Xpacket | xmp.Xpadding)
			err := e.Encode(d)
			e.SetFlags(0)
			err2 := e.Encode(d)
			return fmt.Sprint(b.String(), err, err2)
		}},
		{"fail 0", fault(0, wNothing)},
		{"fail 300", fault(300, wPart)},
		{"fail 400", fault(400, wShort)},
		{"ListPaths", func(d *xmp.Document) string { return listText(d.ListPaths()) }},
		{"GetPath", func(d *xmp.Document) string {
			l, err := d.ListPaths()
			s := fmt.Sprint(err)
			for _, v := range l {
				x, err := d.GetPath(v.Path)
				s += fmt.Sprint(v.Path, "=", x, err, ";")
			}
			return s
		}},
		{"absent paths", func(d *xmp.Document) string {
			s := ""
			for _, p := range []string{"dc:nothing", "none:none", "dc:title[de]", "dc:creator[7]", "xmpMM:History[0]/stEvt:action", "xmpMM:DerivedFrom/stRef:filePath", "crs:ToneCurve[3]", "mine:x/mine:y[2]", "", "dc:", "xmpDM:startTimecode/xmpDM:timeValue", "tm:m/k", "tm:pst/stTm:name"} {
				x, err := d.GetPath(xmp.Path(p))
				s += fmt.Sprint(x, err, ";")
			}
			return s
		}},
		{"models", func(d *xmp.Document) string {
			names := []string{}
			for _, ns := range d.Namespaces() {
				names = append(names, ns.GetName()+"="+ns.GetURI())
			}
			sort.Strings(names)
			s := fmt.Sprint(names)
			for _, p := range []string{"dc", "xmp", "crs", "none", "mine"} {
				ns := d.FindNs(p, "")
				s += fmt.Sprint(ns != nil, d.FindNode(ns2(ns)) != nil, d.FindModel(ns2(ns)) != nil, ";")
			}
			for _, n := range d.Nodes() {
				s += fmt.Sprint(n.FullName(), n.IsZero(), n.Attr.IsZero(), n.Namespace(), ";")
			}
			return s
		}},
		{"tags", func(d *xmp.Document) string {
			return eachModel(d, func(m xmp.Model) string {
				l, err := xmp.ListNativeFields(m)
				s := fmt.Sprint(l, err)
				for _, t := range l {
					v, err := xmp.GetNativeField(m, t.Key)
					s += fmt.Sprint(v, err, m.CanTag(t.Key))
					v, err = m.GetTag(t.Key)
					s += fmt.Sprint(v, err)
					v, err = xmp.GetLocaleField(m, "de", t.Key)
					s += fmt.Sprint(v, err)
				}
				_, err = m.GetTag("no such tag")
				return s + fmt.Sprint(err)
			})
		}},
		{"model paths", func(d *xmp.Document) string {
			return eachModel(d, func(m xmp.Model) string {
				l, err := xmp.ListModelPaths(m)
				s := listText(l, err)
				for _, v := range l {
					x, err := xmp.GetModelPath(m, v.Path)
					s += fmt.Sprint(x, err)
				}
				return s
			})
		}},
		{"Diff", func(d *xmp.Document) string {
			l, err := d.ListPaths()
			o, _ := d.ListPaths()
			if len(o) > 0 {
				o = o[1:]
			}
			s := listText(l.Diff(o), err) + listText(o.Diff(l), nil) + listText(l.Unique(), nil)
			for _, v := range l {
				s += fmt.Sprint(l.Find(v.Path) != nil)
			}
			return s
		}},
		{"merged from", func(d *xmp.Document) string {
			o := xmp.NewDocument()
			defer o.Close()
			err := o.Merge(d, xmp.MERGE)
			return fmt.Sprint(err, dumpDoc(o))
		}},
		{"merged into full", func(d *xmp.Document) string {
			o, err := fullDoc()
			if err != nil {
				return err.Error()
			}
			defer o.Close()
			err = o.Merge(d, xmp.CREATE|xmp.REPLACE|xmp.APPEND|xmp.UNIQUE)
			return fmt.Sprint(err)
		}},
		{"copied", func(d *xmp.Document) string {
			b, err := xmp.Marshal(d)
			if err != nil {
				return err.Error()
			}
			o := xmp.NewDocument()
			defer o.Close()
			err = xmp.Unmarshal(b, o)
			return fmt.Sprint(err, dumpDoc(o))
		}},
		{"texts", func(d *xmp.Document) string {
			return eachModel(d, func(m xmp.Model) string {
				s, err := xmp.ToRawString(m)
				return fmt.Sprint(len(s) > 0 && false, err != nil && false)
			})
		}},
	}
	return ops
}

func ns2(ns *xmp.Namespace) *xmp.Namespace {
	if ns == nil {
		return nsTm
	}
	return ns
}

type doc21 struct {
	key  string
	make func() (*xmp.Document, error)
	sync bool // its models synchronize when written
	deep bool // explored with longer sequences
}

func read21(b []byte, js bool) func() (*xmp.Document, error) {
	return func() (*xmp.Document, error) { return readAny(b, js) }
}

// docs21 passes the corpus to f.
func docs21(c *core.Ctx, f func(doc21) bool) {
	noSync := map[string]bool{"crs": true, "aux": true, "xmpMM": true, "tm": true, "dc": true, "xmp": true, "xmpRights": true, "photoshop": true, "xmpDM": true, "cc": true, "digiKam": true}
	// documents made from models
	docSpace(c, "single all models", core.Pick(c, 1, 2), func(dc docCase) bool {
		s, rich := false, len(dc.Assigns) > 40
		for _, a := range dc.Assigns {
			s = s || !noSync[a.M.Prefix]
		}
		if strings.Contains(dc.Key, ":all-but") && !c.Thorough() || strings.HasPrefix(dc.Key, "models ") && !c.Thorough() && !strings.Contains(dc.Key, "dc") {
			return true
		}
		_ = rich
		return f(doc21{"model " + dc.Key, func() (*xmp.Document, error) {
			d, _, err := dc.build()
			return d, err
		}, s, false})
	})
	c.Group("unknown")
	mine := func(n string) string { return "{" + nsMine + "}" + n }
	for i, s := range unknownShapes() {
		for j, t := range append([]*rval{nil}, unknownShapes()...) {
			ps := []rprop{{mine("x"), s}}
			if t != nil {
				ps = append(ps, rprop{"{" + nsYours + "}y", t})
				ps = append(ps, rprop{"{http://purl.org/dc/elements/1.1/}other", t})
			}
			for fi, form := range []rform{{}, {Attr: 1, Struct: 2, Prefix: 1, NsAt: 3}} {
				b := writeRDF(ps, form, "about", "tk")
				f(doc21{fmt.Sprintf("unknown %d %d form %d", i, j, fi), read21(b, false), false, i == j})
			}
		}
	}
	c.Group("texts")
	for i, s := range c17docs {
		s = strings.Replace(s, `<mine:e mine:q="qualified">`, `<mine:e xml:lang="de">`, 1)
		f(doc21{fmt.Sprintf("doc %d", i), read21([]byte(s), false), true, true})
	}
	f(doc21{"doc json", read21([]byte(c17json), true), false, true})
	f(doc21{"full", fullDoc, true, true})
	f(doc21{"empty", func() (*xmp.Document, error) { return xmp.NewDocument(), nil }, false, true})
	f(doc21{"xml sample", read21([]byte(canaryDoc), false), true, true})
	for _, p := range c14samples() {
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		f(doc21{"sample " + filepath.Base(p), read21(b, false), true, false})
	}
	c.Group("custom")
	t := reflect.TypeOf(TM{})
	for _, fd := range fieldsOf(t) {
		for i, v := range alphabet(fd.Type, 1) {
			fd, v := fd, v
			f(doc21{fmt.Sprintf("TM %s %d", fd.Go, i), func() (*xmp.Document, error) {
				d := xmp.NewDocument()
				x := &TM{}
				reflect.ValueOf(x).Elem().FieldByIndex(fd.Idx).Set(clone(v))
				_, err := d.AddModel(x)
				return d, err
			}, false, i == 0})
		}
	}
	c.Group("under change")
	for _, b := range []string{"set", "unknown", "delete", "merge", "remove", "filter", "tag"} {
		b := b
		f(doc21{"change " + b, func() (*xmp.Document, error) {
			d, err := readAny([]byte(c17docs[0]), false)
			if err != nil {
				return d, err
			}
			switch b {
			case "set":
				err = set17(d, "crs:Version", "", "set", xmp.CREATE|xmp.REPLACE)
			case "unknown":
				err = set17(d, "mine:s", nsMine, "set", xmp.CREATE|xmp.REPLACE)
			case "delete":
				err = set17(d, "mine:b", "", "", xmp.DELETE|xmp.NOFAIL)
			case "merge":
				o, _ := readAny([]byte(c17docs[1]), false)
				err = d.Merge(o, xmp.MERGE)
			case "remove":
				d.RemoveNamespaceByName("mine")
			case "filter":
				xmp.ParseFilter("-mine").Apply(d)
			case "tag":
				_, err = d.MakeModel(modelByPrefix("tiff").NS)
			}
			return d, err
		}, b == "tag" || b == "merge", true})
	}
	// a model whose synchronization fails once is written later
	for _, n := range []string{"ha", "hb"} {
		n := n
		f(doc21{"failing model " + n, func() (*xmp.Document, error) {
			hookFail, hookPut = "", ""
			d, err := hookDoc([]string{"ha", "hb", "hc"}, true)
			if err != nil {
				return d, err
			}
			hookFail = "to " + n
			if _, err := xmp.Marshal(d); err == nil {
				return d, fmt.Errorf("the error of %s is lost", n)
			}
			hookFail = ""
			return d, nil
		}, false, true})
	}
}

func state21(d *xmp.Document) string { return state17(d) }

func runC21(c *core.Ctx) {
	rawFields()
	xmp.Register(nsTm)
	xmp.Register(nsTmS)
	for _, n := range sortedKeys(hookNS) {
		xmp.Register(hookNS[n])
	}
	ops := readOps()
	c.Bound("observing operations", len(ops))
	c.Bound("sequence length", core.Pick(c, 2, 3))
	docs21(c, func(x doc21) bool {
		for range c.Block() {
			c21seq(c, x, ops)
		}
		return !c.Stop()
	})
	c.Group("cycles")
	docs21(c, func(x doc21) bool {
		for range c.Block() {
			c21cycles(c, x)
		}
		return !c.Stop()
	})
}

func c21seq(c *core.Ctx, x doc21, ops []readOp) {
	d, err := x.make()
	if err != nil {
		return // not readable or not representable, see C02 to C06
	}
	start := state21(d)
	if len(start) > 10 {
		c.Nontrivial(x.key)
	}
	// the settled document
	if _, err := xmp.Marshal(d); err != nil {
		return // not representable
	}
	want := state21(d)
	c.Case(x.key+"|settle", nil, func() string {
		if !x.sync && start != want {
			return "writing changes the document: " + diffState(start, want)
		}
		return ""
	})
	d.Close()
	// what each operation gives on a settled document
	results := make([]string, len(ops))
	for i, op := range ops {
		e, err := x.make()
		if err != nil {
			return
		}
		xmp.Marshal(e)
		results[i] = op.f(e)
		e.Close()
	}
	n := 2
	if c.Thorough() && x.deep {
		n = 3
	}
	seq := make([]int, n)
	for {
		if !x.deep && !c.Thorough() && seq[1] != seq[0] && seq[1] != seq[0]+1 && seq[1] != 0 {
			goto next
		}
		{
			names := make([]string, n)
			for i, o := range seq {
				names[i] = ops[o].name
			}
			ids := append([]int{}, seq...)
			key := x.key + "|" + strings.Join(names, ",")
			c.Case(key, nil, func() string {
				e, err := x.make()
				if err != nil {
					return err.Error()
				}
				defer e.Close()
				for i, o := range ids {
					before := state21(e)
					got := ops[o].f(e)
					after := state21(e)
					if !x.sync && before != after {
						return fmt.Sprintf("%s changes the document: %s", names[i], diffState(before, after))
					}
					if i > 0 || !x.sync {
						if got != results[o] {
							return fmt.Sprintf("%s gives %s, on the settled document %s", names[i], firstDiff(got, results[o]), firstDiff(results[o], got))
						}
					}
					if x.sync && i == 0 {
						// settle, if the operation did not
						if _, err := xmp.Marshal(e); err != nil {
							return err.Error()
						}
						after = state21(e)
					}
					if after != want {
						return fmt.Sprintf("after %s: %s", names[i], diffState(want, after))
					}
				}
				return ""
			})
		}
	next:
		if c.Stop() {
			return
		}
		i := n - 1
		for i >= 0 {
			seq[i]++
			if seq[i] < len(ops) {
				break
			}
			seq[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// firstDiff shows a around the place where it differs from b.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	s := i - 20
	if s < 0 {
		s = 0
	}
	e := i + 60
	if e > len(a) {
		e = len(a)
	}
	return fmt.Sprintf("%q", a[s:e])
}

func c21cycles(c *core.Ctx, x doc21) {
	n := core.Pick(c, 3, 5)
	write := func(d *xmp.Document, js bool) ([]byte, error) {
		if js {
			return json.Marshal(d)
		}
		return xmp.Marshal(d)
	}
	for w := 0; w < 1<<n; w++ {
		w := w
		name := ""
		for i := 0; i < n; i++ {
			name += map[int]string{0: "X", 1: "J"}[w>>i&1]
		}
		c.Case(x.key+"|cycle "+name, nil, func() string {
			d, err := x.make()
			if err != nil {
				return ""
			}
			want := ""
			for i := 0; i < n; i++ {
				js := w>>i&1 == 1
				b, err := write(d, js)
				d.Close()
				if err != nil {
					if i == 0 {
						return "" // not representable
					}
					return fmt.Sprintf("cycle %d: writing: %v", i+1, err)
				}
				if d, err = readAny(b, js); err != nil {
					if i == 0 {
						return ""
					}
					return fmt.Sprintf("cycle %d: reading: %v", i+1, err)
				}
				got := unorderedState(d) // writes, and so synchronizes
				o, err := xmp.Marshal(d)
				if err != nil {
					return err.Error()
				}
				r, st := rdfState(o)
				if r == nil {
					return st
				}
				got += st
				if i > 0 && got != want {
					return fmt.Sprintf("cycle %d: %s", i+1, diffState(want, got))
				}
				want = got
			}
			d.Close()
			return ""
		})
		if c.Stop() {
			return
		}
	}
}
