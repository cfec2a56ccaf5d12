package checks

import (
	"fmt"
	"io/ioutil"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{ID: "C07", Level: "exploration", Shards: 8, Run: runC07,
		Rule: "For every document of the bounded space (each property with every value, all and all but one property of each model, pairs of properties and of models, unknown content of every shape beside known properties, extensions, samples) the real path listing is compared with a reference lister that walks the document's values by the golden schema; every listed path is read back; all listed values are set, in order, on an empty document whose listing must be the same.",
		Assumptions: []string{
			"Unknown content is completely listed when every text in it appears among the listed values.",
		}})
}

type pathVal struct{ Path, Value string }

// refPaths lists the paths of a structure value by the golden schema.
func refPaths(v reflect.Value, base string) ([]pathVal, error) {
	var out []pathVal
	g := goldOf(v.Type())
	for _, f := range fieldsOf(v.Type()) {
		if f.Any {
			continue
		}
		name, ok := g.Fields[f.Go]
		if !ok {
			name = f.Name
		}
		fv := v.FieldByIndex(f.Idx)
		for fv.Kind() == reflect.Ptr && !fv.IsNil() {
			fv = fv.Elem()
		}
		if fv.Kind() == reflect.Ptr {
			continue
		}
		keep := false
		for _, k := range g.Keep {
			keep = keep || k == f.Go
		}
		if isUnset(fv) && !keep && !(fv.Type().Implements(zeroIface) && !fv.Interface().(xmp.Zero).IsZero()) {
			continue
		}
		p := joinPath(base, name)
		l, err := refValuePaths(fv, p)
		if err != nil {
			return nil, err
		}
		out = append(out, l...)
	}
	return out, nil
}

// joinPath appends a property name to a path: the prefix is left out where it
// is that of the path.
func joinPath(base, name string) string {
	i := strings.IndexByte(name, ':')
	if base == "" {
		return name
	}
	if i > 0 && strings.HasPrefix(base, name[:i+1]) {
		name = name[i+1:]
	}
	return base + "/" + name
}

func refValuePaths(v reflect.Value, p string) ([]pathVal, error) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return nil, nil
		}
		v = v.Elem()
	}
	t := v.Type()
	switch t.String() {
	case "xmp.AltString", "riff.AltString", "qt.MultilangArray":
		var l []pathVal
		for _, i := range v.Convert(reflect.TypeOf(xmp.AltString{})).Interface().(xmp.AltString) {
			l = append(l, pathVal{p + "[" + i.GetLang() + "]", i.Value})
		}
		return l, nil
	}
	if l, ok := v.Interface().(xmp.TagList); ok {
		var out []pathVal
		for _, x := range l {
			if x.Value != "" {
				out = append(out, pathVal{p + "/*", x.Value}) // the names are not specified
			}
		}
		return out, nil
	}
	g := goldOf(t)
	switch g.Form {
	case "Bag", "Seq", "Alt":
		var out []pathVal
		for i := 0; i < v.Len(); i++ {
			l, err := refValuePaths(v.Index(i), fmt.Sprintf("%s[%d]", p, i))
			if err != nil {
				return nil, err
			}
			out = append(out, l...)
		}
		return out, nil
	case "struct":
		if !t.Implements(textMarshaler) {
			return refPaths(v, p)
		}
	}
	s, err := refText(v)
	if err != nil || s == "" {
		return nil, err
	}
	return []pathVal{{p, s}}, nil
}

func listing(d *xmp.Document) ([]pathVal, error) {
	l, err := d.ListPaths()
	if err != nil {
		return nil, err
	}
	var out []pathVal
	for _, v := range l {
		out = append(out, pathVal{string(v.Path), v.Value})
	}
	return out, nil
}

func diffPaths(want, got []pathVal) string {
	m := map[string]string{}
	for i, x := range want {
		if strings.HasSuffix(x.Path, "/*") {
			for _, y := range got {
				if strings.HasPrefix(y.Path, x.Path[:len(x.Path)-1]) && y.Value == x.Value && m[y.Path] == "" {
					want[i].Path = y.Path
					break
				}
			}
		}
		m[want[i].Path] = x.Value
	}
	n := map[string]string{}
	for _, x := range got {
		n[x.Path] = x.Value
		if w, ok := m[x.Path]; !ok {
			return fmt.Sprintf("%s = %q is not expected", x.Path, x.Value)
		} else if w != x.Value {
			return fmt.Sprintf("%s is %q instead of %q", x.Path, x.Value, w)
		}
	}
	for _, x := range want {
		if _, ok := n[x.Path]; !ok {
			return fmt.Sprintf("%s = %q is missing", x.Path, x.Value)
		}
	}
	return ""
}

// checkPaths decides the property for one document. want may be nil.
func checkPaths(d *xmp.Document, want []pathVal, texts []string, also func() []pathVal, note func(string)) string {
	l, err := listing(d)
	if err != nil {
		return "listing: " + err.Error()
	}
	note(fmt.Sprint(l))
	for i, x := range l {
		if i > 0 && l[i-1].Path >= x.Path {
			return fmt.Sprintf("%s is listed after %s", x.Path, l[i-1].Path)
		}
		if x.Value == "" {
			return x.Path + " is listed without a value"
		}
		s, err := d.GetPath(xmp.Path(x.Path))
		if err != nil {
			return fmt.Sprintf("%s = %q is listed, reading gives: %v", x.Path, x.Value, err)
		}
		if s != x.Value {
			return fmt.Sprintf("%s is listed as %q and read as %q", x.Path, x.Value, s)
		}
	}
	if want != nil {
		if m := diffPaths(want, l); m != "" {
			return "listing: " + m
		}
	}
	n := map[string]int{}
	for _, x := range l {
		n[strings.TrimSpace(x.Value)]++
	}
	for _, t := range texts {
		if n[t]--; n[t] < 0 {
			return fmt.Sprintf("the text %q is not listed often enough: %v", t, l)
		}
	}
	// the empty document declares the namespaces that deeper path segments use
	uris := map[string]string{}
	decl := ""
	for _, ns := range d.Namespaces() {
		if n := ns.GetName(); uris[n] == "" {
			uris[n] = ns.GetURI()
		}
	}
	for _, n := range sortedKeys(uris) {
		if n != "rdf" && n != "x" && n != "xml" && gold.Namespaces[n] == "" {
			decl += " xmlns:" + n + "=\"" + uris[n] + "\""
		}
	}
	e := xmp.NewDocument()
	defer e.Close()
	if decl != "" {
		if err := xmp.Unmarshal([]byte("<x:xmpmeta xmlns:x=\""+nsX+"\"><rdf:RDF xmlns:rdf=\""+nsRDF+"\"><rdf:Description"+decl+"/></rdf:RDF></x:xmpmeta>"), e); err != nil {
			return "empty document: " + err.Error()
		}
	}
	for _, x := range l {
		p := xmp.Path(x.Path)
		if err := e.SetPath(xmp.PathValue{Path: p, Value: x.Value, Namespace: uris[p.NamespacePrefix()]}); err != nil {
			return fmt.Sprintf("setting %s = %q: %v", x.Path, x.Value, err)
		}
	}
	l2, err := listing(e)
	if err != nil {
		return "listing the rebuilt document: " + err.Error()
	}
	if m := diffPaths(l, l2); m != "" {
		if also != nil && diffPaths(also(), l2) == "" {
			return ""
		}
		return "rebuilt document: " + m
	}
	return ""
}

// rvalTexts collects the texts of a value.
func rvalTexts(v *rval, out *[]string) {
	if s := strings.TrimSpace(v.Text); s != "" {
		*out = append(*out, s)
	}
	for _, i := range v.Items {
		rvalTexts(i, out)
	}
	for _, p := range v.Props {
		rvalTexts(p.Val, out)
	}
}

func runC07(c *core.Ctx) {
	docSpace(c, core.Pick(c, "single all pair models", "single all pair models cross"), 2, func(dc docCase) bool {
		return c.Case(dc.Key, dc.replay, func() string {
			d, _, err := dc.build()
			if err != nil {
				return err.Error()
			}
			defer d.Close()
			if _, err := d.ListPaths(); err != nil { // synchronizes the models
				return "listing: " + err.Error()
			}
			var want []pathVal
			var wants [][]pathVal
			for _, n := range d.Nodes() {
				if n.Model == nil {
					continue
				}
				l, err := refPaths(reflect.ValueOf(n.Model).Elem(), "")
				if err != nil {
					return err.Error()
				}
				want = append(want, l...)
				wants = append(wants, l)
			}
			if want == nil {
				want = []pathVal{}
			}
			seen := map[string]int{}
			for i, l := range wants {
				for _, x := range l {
					p := strings.FieldsFunc(x.Path, func(r rune) bool { return r == '[' || r == '/' })[0]
					if j, ok := seen[p]; ok && i != j {
						want = nil // two models share a property; decided by C22
					}
					seen[p] = i
				}
			}
			var also func() []pathVal
			if strings.HasPrefix(dc.Key, "models ") {
				// with conflicting native values the last model wins, so the order of models matters
				also = func() []pathVal {
					rev := dc
					rev.Assigns = nil
					for i := len(dc.Assigns) - 1; i >= 0; i-- {
						rev.Assigns = append(rev.Assigns, dc.Assigns[i])
					}
					e, _, err := rev.build()
					if err != nil {
						return nil
					}
					defer e.Close()
					l, _ := listing(e)
					return l
				}
			}
			return checkPaths(d, want, nil, also, func(s string) {
				c.Nontrivial(dc.Key)
				c.Outcome(s)
				if len(dc.Assigns) > 1 && len(s) < 900 {
					c.Sample(map[string]interface{}{"case": dc.replay(), "paths": s})
				}
			})
		})
	})
	try := func(key string, in []byte, texts []string) {
		if c.Stop() {
			return
		}
		c.Case(key, func() interface{} { return map[string]string{"input": string(in)} }, func() string {
			d := xmp.NewDocument()
			defer d.Close()
			if err := xmp.Unmarshal(in, d); err != nil {
				return ""
			}
			d.SetDirty() // the models synchronize as they do in the rebuilt document
			m := checkPaths(d, nil, texts, nil, func(s string) {
				c.Nontrivial(key)
				c.Outcome(s)
			})
			if m != "" && len(in) < 4000 {
				m += "\ninput: " + string(in)
			}
			return m
		})
	}
	put := func(key string, ps ...rprop) {
		var l []string
		for _, p := range ps {
			rvalTexts(p.Val, &l)
		}
		try(key, writeRDF(ps, rform{}, "uuid:1", "tk"), l)
	}
	shapes := unknownShapes()
	c.Group("unknown")
	for i, s := range shapes {
		put(fmt.Sprintf("shape%d", i), rprop{mine("x"), s})
		for j, t := range shapes {
			put(fmt.Sprintf("shapes%d,%d", i, j), rprop{mine("x"), s}, rprop{mine("y"), t})
			put(fmt.Sprintf("shapes%d,%d other", i, j), rprop{mine("x"), s}, rprop{yours("x"), t})
			put(fmt.Sprintf("shape%d in shape%d", j, i), rprop{mine("x"), rstruct(rprop{mine("a"), s}, rprop{yours("b"), rlist(rBag, t, t)})})
		}
		for _, p := range sortedPrefixes() {
			u := gold.Namespaces[p]
			if u == "" || u == nsRDF || u == nsX || u == nsXML {
				continue
			}
			put(fmt.Sprintf("%s shape%d", p, i), rprop{"{" + u + "}unknownProp", s})
			put(fmt.Sprintf("%s shape%d beside", p, i), rprop{"{" + u + "}unknownProp", s}, rprop{"{" + gold.Namespaces["dc"] + "}format", rt("image/png")}, rprop{mine("x"), s})
		}
	}
	c.Group("default items")
	alts := []*rval{rlang("x-default", "d"), rlang("en", "e"), rlang("de", "d"), rt("none")}
	for i := range alts {
		for j := range alts {
			for k := range alts {
				for n := 1; n <= 3; n++ {
					l := []*rval{alts[i], alts[j], alts[k]}[:n]
					want, dup := l[0].Text, false
					for a, x := range l {
						if x.Lang == "x-default" {
							want = x.Text
						}
						for _, y := range l[:a] {
							dup = dup || x == y
						}
					}
					if dup || n == 1 && j+k > 0 || n == 2 && k > 0 {
						continue
					}
					for _, u := range []string{nsMine, gold.Namespaces["dc"]} {
						v := rlist(rAlt, l...)
						key := fmt.Sprintf("%s %d %d %d %d", u, i, j, k, n)
						in := writeRDF([]rprop{{"{" + u + "}unknownProp", v}, {mine("s"), rstruct(rprop{"{" + u + "}in", v}, rprop{mine("l"), rlist(rSeq, rt("first"), v)})}}, rform{}, "uuid:1", "tk")
						c.Case(key, func() interface{} { return map[string]string{"input": string(in)} }, func() string {
							c.Nontrivial(key)
							d := xmp.NewDocument()
							defer d.Close()
							if err := xmp.Unmarshal(in, d); err != nil {
								return err.Error()
							}
							p := "mine"
							if u != nsMine {
								p = "dc"
							}
							for _, x := range []string{p + ":unknownProp", "mine:s/" + p + ":in"} {
								if s, err := d.GetPath(xmp.Path(x)); err != nil || s != want {
									return fmt.Sprintf("%s reads %q, %v instead of %q\ninput: %s", x, s, err, want, in)
								}
							}
							return ""
						})
					}
				}
			}
		}
	}
	c.Group("volume")
	for _, n := range []int{9, 12, 33, 101} {
		for _, v := range volume(n) {
			put(fmt.Sprintf("%d %s", n, v.Name), v.Props...)
		}
	}
	c.Group("extensions")
	rating := rprop{"{" + gold.Namespaces["xmp"] + "}Rating", rt("3")}
	dctitle := rprop{"{" + gold.Namespaces["dc"] + "}title", rlist(rAlt, rlang("x-default", "t"), rlang("de", "u"))}
	for i, s := range shapes {
		for j, e := range [][]rprop{
			{{mine("x"), s}},
			{{"{" + gold.Namespaces["dc"] + "}unknownProp", s}},
			{rating, {mine("x"), s}},
			{{"{" + gold.Namespaces["xmp"] + "}unknownProp", s}, rating, dctitle, {yours("y"), s}},
		} {
			for _, n := range []string{"xmp:extension", "iXML:extension"} {
				nm := "{" + gold.Namespaces[n[:strings.IndexByte(n, ':')]] + "}extension"
				put(fmt.Sprintf("%s shape%d in ext%d", n, i, j), rprop{nm, rstruct(rprop{mine("ext"), rstruct(e...)})})
				put(fmt.Sprintf("%s shape%d in two ext%d", n, i, j), rprop{nm, rstruct(rprop{mine("ext"), rstruct(e...)}, rprop{yours("ext"), rstruct(rprop{yours("z"), s})})})
			}
			nm := "{" + gold.Namespaces["xmpMM"] + "}Pantry"
			put(fmt.Sprintf("pantry shape%d in ext%d", i, j), rprop{nm, rlist(rBag, rstruct(e...))})
			put(fmt.Sprintf("pantry shape%d in two ext%d", i, j), rprop{nm, rlist(rBag, rstruct(rating), rstruct(e...))})
		}
	}
	c.Group("samples")
	files, _ := filepath.Glob("/repo/samples/*/*")
	more, _ := filepath.Glob("/repo/samples/*")
	files = append(files, more...)
	sort.Strings(files)
	for _, fn := range files {
		b, err := ioutil.ReadFile(fn)
		if err != nil || len(b) > 1<<20 {
			continue
		}
		if _, err := parseRDF(b); err != nil {
			continue
		}
		try("sample "+strings.TrimPrefix(fn, "/repo/"), b, nil)
	}
}
