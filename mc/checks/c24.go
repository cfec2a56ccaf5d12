package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/xmp"

	"verifmc/core"
	"verifmc/vrt"
)

func init() {
	core.Add(&core.Check{ID: "C24", Level: "exploration", Shards: 8,
		Rule: "The library is built with every iteration over a map (and every result of reflect's MapKeys) asking the explorer for its order. For each scenario (decode, encode, merge, sync, filter, edit, list, native tags over a corpus of documents) the run in canonical order is compared with the runs in which every iteration, or every one at one place of the code, takes the same kind of order, and with the runs in which one iteration (the first ones at each place for each size of map; thorough: also two of them) takes each other order; and JSON documents are read with every order of the members of every object.",
		Assumptions: []string{
			"Maps of up to 3 (thorough: 4) entries take every order; bigger ones are reversed, rotated, and take each entry first and last.",
			"Keys added to a map during its iteration are not visited. Maps inside the standard library keep their own order.",
			"What is compared is content (properties, values, unknown nodes, namespaces as a set, about, errors), not the order of attributes or namespace declarations in the output.",
		},
		Run: runC24})
}

// orders24 lists the orders of n entries other than the canonical one.
func orders24(n, full int) [][]int {
	var out [][]int
	if n <= full {
		p := make([]int, n)
		used := make([]bool, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				out = append(out, append([]int{}, p...))
				return
			}
			for j := 0; j < n; j++ {
				if !used[j] {
					used[j] = true
					p[i] = j
					rec(i + 1)
					used[j] = false
				}
			}
		}
		rec(0)
		return out[1:]
	}
	seq := func(f func(i int) int) {
		p := make([]int, n)
		for i := range p {
			p[i] = f(i)
		}
		out = append(out, p)
	}
	seq(func(i int) int { return n - 1 - i })
	step := 1
	if n > 24 {
		step = n / 12
	}
	for k := 1; k < n; k += step {
		seq(func(i int) int { return (i + k) % n })
	}
	for k := 1; k < n; k += step {
		seq(func(i int) int { // k first
			switch {
			case i == 0:
				return k
			case i <= k:
				return i - 1
			}
			return i
		})
	}
	for k := 0; k < n-1; k += step {
		seq(func(i int) int { // k last
			switch {
			case i == n-1:
				return k
			case i >= k:
				return i + 1
			}
			return i
		})
	}
	return out
}

// point is an iteration met during a run.
type point struct {
	site string
	n    int
}

// plan24 says which iterations take which order.
type plan24 struct {
	uniform int    // kind of order for all iterations, 0: canonical
	site    string // only those at this site, if set
	at      map[int]int
}

func ordered(p plan24, full int, f func() string) (string, []point) {
	var pts []point
	cache := map[int][][]int{}
	vrt.Order = func(site string, n int) []int {
		i := len(pts)
		pts = append(pts, point{site, n})
		l, ok := cache[n]
		if !ok {
			l = orders24(n, full)
			cache[n] = l
		}
		if k, ok := p.at[i]; ok && k < len(l) {
			return l[k]
		}
		if p.uniform > 0 && (p.site == "" || p.site == site) {
			return l[(p.uniform-1)%len(l)]
		}
		return nil
	}
	defer func() { vrt.Order = nil }()
	s := core.Guard(f)
	return s, pts
}

// scenario24 explores the orders of a scenario.
func scenario24(c *core.Ctx, key string, f func() string) {
	if c.Stop() {
		return
	}
	full := core.Pick(c, 3, 4)
	for range c.Block() {
		var base string
		var pts []point
		c.Case(key+" canonical", nil, func() string {
			base, pts = ordered(plan24{}, full, f)
			c.Outcome(base)
			if again, _ := ordered(plan24{}, full, f); again != base {
				return "two runs differ with all iterations in the same order:\n" + firstDiff(base, again)
			}
			return ""
		})
		if pts == nil && base == "" {
			base, pts = ordered(plan24{}, full, f)
		}
		if len(pts) == 0 {
			continue
		}
		c.Nontrivial(key)
		try := func(name string, p plan24) {
			c.Case(key+" "+name, nil, func() string {
				s, now := ordered(p, full, f)
				c.States += int64(len(now))
				if s != base {
					return "the result depends on the order: " + firstDiff(base, s)
				}
				return ""
			})
		}
		maxN := 0
		for _, p := range pts {
			maxN = max(maxN, p.n)
		}
		for u := 1; u <= len(orders24(maxN, full)); u++ {
			try(fmt.Sprintf("all iterations in order %d", u), plan24{uniform: u})
		}
		sites := map[string]int{}
		for _, p := range pts {
			sites[p.site] = max(sites[p.site], p.n)
		}
		for _, site := range sortedKeys24(sites) {
			for u := 1; len(sites) > 1 && u <= len(orders24(sites[site], full)); u++ {
				try(fmt.Sprintf("iterations at %s in order %d", site, u), plan24{uniform: u, site: site})
			}
		}
		seen := map[point]int{}
		for i, p := range pts {
			if seen[p]++; seen[p] > core.Pick(c, 4, 16) {
				continue
			}
			l := len(orders24(p.n, full))
			for k := 0; k < l; k++ {
				try(fmt.Sprintf("iteration %d (%d entries) in order %d", i, p.n, k), plan24{at: map[int]int{i: k}})
			}
		}
		if c.Thorough() && len(pts) <= 60 {
			for i := range pts {
				for j := i + 1; j < len(pts); j++ {
					for k := 0; k < 2; k++ {
						for m := 0; m < 2; m++ {
							try(fmt.Sprintf("iterations %d,%d in orders %d,%d", i, j, k, m), plan24{at: map[int]int{i: k, j: m}})
						}
					}
				}
			}
		}
	}
}

func sortedKeys24(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// content24 is what a document holds, by itself and as written.
func content24(d *xmp.Document, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	var b strings.Builder
	b.WriteString(state17(d) + "\n")
	for _, ns := range d.Namespaces() {
		b.WriteString(ns.GetName() + " ")
	}
	x, err := xmp.Marshal(d)
	if err != nil {
		b.WriteString("xml error " + err.Error())
	} else if r, err := parseRDF(x); err != nil {
		b.WriteString("xml unreadable " + err.Error())
	} else if m, err := r.byName(); err != nil {
		b.WriteString("xml unreadable " + err.Error())
	} else {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b.WriteString(k + "=" + m[k] + "\n")
		}
		fmt.Fprintln(&b, r.About)
	}
	j, err := json.Marshal(d)
	if err != nil {
		b.WriteString("json error " + err.Error())
	} else {
		var v interface{}
		if err := json.Unmarshal(j, &v); err != nil {
			b.WriteString("json unreadable " + err.Error())
		}
		k, _ := json.Marshal(v)
		b.Write(k)
	}
	l, err := d.ListPaths()
	var ls []string
	for _, v := range l {
		ls = append(ls, fmt.Sprint(v.Path, "=", v.Value))
	}
	sort.Strings(ls)
	fmt.Fprint(&b, "\npaths ", strings.Join(ls, "\n"), err)
	return b.String()
}

const c24uris = ` xmlns:a="http://a.example/" xmlns:b="http://b.example/" xmlns:c="http://c.example/"`

// c24xml are documents whose namespaces can be mixed up.
var c24xml = []string{
	// one prefix for several namespaces, several prefixes for one
	`<rdf:Description rdf:about="x" xmlns:p="http://a.example/" p:v="a"><p:s rdf:parseType="Resource"><p:in>1</p:in></p:s></rdf:Description><rdf:Description rdf:about="x" xmlns:p="http://b.example/" p:v="b"><p:s rdf:parseType="Resource"><p:in>2</p:in></p:s></rdf:Description><rdf:Description rdf:about="x" xmlns:q="http://a.example/" q:w="aa"/>`,
	// prefixes of registered namespaces for others
	`<rdf:Description rdf:about="" xmlns:dc="http://a.example/" xmlns:xmp="http://b.example/" xmlns:x="http://purl.org/dc/elements/1.1/" dc:v="a" xmp:v="b" x:format="image/png"><xmp:CreateDate>x</xmp:CreateDate><dc:title>t</dc:title></rdf:Description>`,
	`<rdf:Description rdf:about=""` + c24uris + ` a:v="1" b:v="2" c:v="3"><a:s><rdf:Bag><rdf:li>i</rdf:li><rdf:li rdf:parseType="Resource"><b:n>n</b:n><c:n>m</c:n></rdf:li></rdf:Bag></a:s><b:t xml:lang="de" c:q="q">x</b:t></rdf:Description>`,
	// default namespaces and generated prefixes
	`<rdf:Description rdf:about=""><v xmlns="http://a.example/">1</v><v xmlns="http://b.example/">2</v><v xmlns="http://c.example/">3</v><ns1:v xmlns:ns1="http://d.example/">4</ns1:v></rdf:Description>`,
	`<rdf:Description rdf:about="" xmlns:mine="` + nsMine + `" xmlns:xmpMM="http://ns.adobe.com/xap/1.0/mm/" xmlns:stRef="http://ns.adobe.com/xap/1.0/sType/ResourceRef#" xmlns:stEvt="http://ns.adobe.com/xap/1.0/sType/ResourceEvent#" xmpMM:DocumentID="xmp.did:1" mine:x="1"><xmpMM:History><rdf:Seq><rdf:li stEvt:action="saved" stEvt:when="2020-01-01T00:00:00Z"/></rdf:Seq></xmpMM:History><xmpMM:DerivedFrom stRef:instanceID="xmp.iid:2"/></rdf:Description>`,
	`<rdf:Description rdf:about="" xmlns:tiff="http://ns.adobe.com/tiff/1.0/" xmlns:exif="http://ns.adobe.com/exif/1.0/" xmlns:xmp="http://ns.adobe.com/xap/1.0/" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:photoshop="http://ns.adobe.com/photoshop/1.0/" xmlns:pdf="http://ns.adobe.com/pdf/1.3/" tiff:Make="m" tiff:DateTime="2020-01-01T00:00:00Z" xmp:ModifyDate="2021-01-01T00:00:00Z" exif:UserComment="c" photoshop:City="C" pdf:Keywords="k" xmp:unknown="u" dc:unknown="v"><dc:description><rdf:Alt><rdf:li xml:lang="x-default">d</rdf:li></rdf:Alt></dc:description><tiff:ImageDescription><rdf:Alt><rdf:li xml:lang="x-default">other</rdf:li></rdf:Alt></tiff:ImageDescription></rdf:Description>`,
	// the same prefixes for other namespaces
	`<rdf:Description rdf:about="" xmlns:a="http://e.example/" xmlns:b="http://f.example/" xmlns:c="http://g.example/" xmlns:p="http://h.example/" xmlns:q="http://a.example/" a:v="e" b:v="f" c:v="g" p:v="h" q:z="a"><a:s><rdf:Seq><rdf:li>1</rdf:li></rdf:Seq></a:s><b:t b:q="x">y</b:t></rdf:Description>`,
	`<rdf:Description rdf:about="" xmlns:b="http://a.example/" xmlns:c="http://b.example/" xmlns:a="http://c.example/" xmlns:ns1="http://i.example/" a:v="c" b:v="a" c:v="b" ns1:v="i"/>`,
	// two registered namespaces of the same prefix
	`<rdf:Description rdf:about="" xmlns:d1="http://example.com/dup/1/" xmlns:d2="http://example.com/dup/2/" d1:v="1"><d2:w>2</d2:w></rdf:Description>`,
	`<rdf:Description rdf:about="" xmlns:d2="http://example.com/dup/2/" xmlns:d3="http://example.com/dup/3/" d2:v="1"><d3:w>2</d3:w></rdf:Description>`,
}

var c24json = []string{
	`{"about":"x","toolkit":"t","namespaces":{"a":"http://a.example/","b":"http://b.example/","dc":"http://purl.org/dc/elements/1.1/"},"models":{"a":{"a:v":"1","a:s":{"a:x":"1","b:y":["1","2"],"rdf:value":"v"}},"b":{"b:v":"2"},"dc":{"dc:format":"f","dc:title":[{"value":"t","lang":"de","isDefault":true}],"dc:other":"o"}}}`,
	`{"namespaces":{"dc":"http://a.example/","xmp":"http://b.example/","p":"http://purl.org/dc/elements/1.1/"},"models":{"dc":{"dc:v":"a"},"xmp":{"xmp:v":"b"},"p":{"p:format":"f","p:subject":["s"]}}}`,
	`{"namespaces":{"p":"http://a.example/","q":"http://a.example/","r":"http://b.example/","dc":"http://c.example/"},"models":{"p":{"p:v":"a"},"q":{"q:w":"b"},"r":{"r:v":"c"},"dc":{"dc:x":"d","r:in":"e"}}}`,
	`{"namespaces":{"tiff":"http://ns.adobe.com/tiff/1.0/","dc":"http://purl.org/dc/elements/1.1/","xmp":"http://ns.adobe.com/xap/1.0/"},"models":{"tiff":{"tiff:Make":"m","tiff:DateTime":"2020-01-01T00:00:00Z","tiff:ImageDescription":[{"value":"d","isDefault":true,"lang":""}]},"dc":{"dc:description":[{"value":"e","isDefault":true,"lang":""}]},"xmp":{"xmp:ModifyDate":"2021-01-01T00:00:00Z","xmp:u":{"rdf:value":"1","xmp:q":"2"}}}}`,
	`{"namespaces":{"p":"http://a.example/","dc":"http://purl.org/dc/elements/1.1/","d":"http://purl.org/dc/elements/1.1/"},"models":{"dc":{"dc:format":"one"},"d":{"d:format":"two"},"p":{"p:x":{"p:a":{"p:b":"1","p:c":"2"},"p:d":["1",{"p:e":"3","p:f":"4"}]}}}}`,
	`{"namespaces":{"p":"http://a.example/"},"models":{"p":{"p:x":"1","p:y":{"p:x":5,"p:z":true,"p:n":null},"p:l":[]},"zz":{"zz:v":"1"}}}`,
	`{"namespaces":{"p":"http://a.example/","crs":"http://ns.adobe.com/camera-raw-settings/1.0/"},"models":{"crs":{"crs:Version":"x","crs:Exposure":"bad","crs:HasCrop":"maybe"},"p":{"p:x":"1"}}}`,
}

// jsonPerms writes a JSON value with its objects' members in other orders.
func jsonPerms(c *core.Ctx, text string, f func(name, text string)) {
	type obj struct {
		at   int
		keys []string
	}
	var objs []obj
	// render writes the value, asking order for the order of each object's keys
	var render func(v interface{}, order func(n int, keys []string) []string) string
	n := 0
	render = func(v interface{}, order func(n int, keys []string) []string) string {
		switch x := v.(type) {
		case map[string]interface{}:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			i := n
			n++
			ks = order(i, ks)
			var l []string
			for _, k := range ks {
				kb, _ := json.Marshal(k)
				m := n
				s := render(x[k], order)
				_ = m
				l = append(l, string(kb)+":"+s)
			}
			return "{" + strings.Join(l, ",") + "}"
		case []interface{}:
			var l []string
			for _, y := range x {
				l = append(l, render(y, order))
			}
			return "[" + strings.Join(l, ",") + "]"
		}
		b, _ := json.Marshal(v)
		return string(b)
	}
	var v interface{}
	d := json.NewDecoder(bytes.NewReader([]byte(text)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	n = 0
	f("sorted", render(v, func(i int, ks []string) []string {
		objs = append(objs, obj{i, ks})
		return ks
	}))
	name := func(ks []string) string { return strings.Join(ks, "\x00") }
	apply := func(ks []string, p []int) []string {
		o := make([]string, len(ks))
		for i, j := range p {
			o[i] = ks[j]
		}
		return o
	}
	full := core.Pick(c, 4, 5)
	// all objects in the same kind of order
	for u := 0; u < 23; u++ {
		n = 0
		f(fmt.Sprintf("all objects in order %d", u), render(v, func(i int, ks []string) []string {
			if l := orders24(len(ks), full); len(ks) > 1 {
				return apply(ks, l[u%len(l)])
			}
			return ks
		}))
	}
	// single objects (known by their keys) and pairs of them
	type alt struct {
		key  string
		perm []int
		name string
	}
	var alts []alt
	seen := map[string]bool{}
	for _, o := range objs {
		if len(o.keys) < 2 || seen[name(o.keys)] {
			continue
		}
		seen[name(o.keys)] = true
		for k, p := range orders24(len(o.keys), full) {
			alts = append(alts, alt{name(o.keys), p, fmt.Sprintf("%s in order %d", strings.Join(o.keys, ","), k)})
		}
	}
	with := func(a, b alt) string {
		n = 0
		return render(v, func(i int, ks []string) []string {
			switch name(ks) {
			case a.key:
				return apply(ks, a.perm)
			case b.key:
				return apply(ks, b.perm)
			}
			return ks
		})
	}
	for i, a := range alts {
		f(a.name, with(a, alt{key: "\x01"}))
		for _, b := range alts[i+1:] {
			if a.key != b.key && (c.Thorough() || (len(a.perm) <= 3 && len(b.perm) <= 3)) {
				f(a.name+" and "+b.name, with(a, b))
			}
		}
	}
}

func wrap24(s string) []byte {
	return []byte(`<rdf:RDF xmlns:rdf="` + nsRDF + `">` + s + `</rdf:RDF>`)
}

func runC24(c *core.Ctx) {
	if len(vrt.Sites) == 0 {
		panic("C24 needs the instrumented build")
	}
	for i := 1; i <= 3; i++ {
		xmp.Register(xmp.NewNamespace("dup", fmt.Sprintf("http://example.com/dup/%d/", i), func(string) xmp.Model { return nil }))
	}
	sites := 0
	for _, n := range vrt.Sites {
		sites += n
	}
	c.Bound("instrumented sites", sites)
	c.Bound("orders of maps up to this size are complete", core.Pick(c, 3, 4))

	type src struct {
		name string
		open func() (*xmp.Document, error)
		doc  []byte
	}
	var corpus []src
	for i, s := range c24xml {
		b := wrap24(s)
		corpus = append(corpus, src{fmt.Sprintf("xml %d", i), read21(b, false), b})
	}
	for i, s := range c24json {
		corpus = append(corpus, src{fmt.Sprintf("json %d", i), read21([]byte(s), true), []byte(s)})
	}
	for i, s := range c17docs {
		corpus = append(corpus, src{fmt.Sprintf("doc %d", i), read21([]byte(s), false), []byte(s)})
	}

	c.Group("read and write")
	for _, s := range corpus {
		scenario24(c, s.name, func() string {
			d, err := s.open()
			if err != nil {
				return "error " + err.Error()
			}
			defer d.Close()
			return content24(d, err)
		})
		// and once more through both formats
		scenario24(c, s.name+" again", func() string {
			d, err := s.open()
			if err != nil {
				return "error " + err.Error()
			}
			out := ""
			for i := 0; i < 4; i++ {
				js := i%2 == 0
				var b []byte
				if js {
					b, err = json.Marshal(d)
				} else {
					b, err = xmp.Marshal(d)
				}
				if err != nil {
					return out + err.Error()
				}
				d.Close()
				if d, err = read21(b, js)(); err != nil {
					return out + err.Error()
				}
				out += state17(d)
			}
			return out
		})
	}

	c.Group("merge")
	flags := []xmp.SyncFlags{xmp.MERGE, xmp.EXTEND, xmp.ADD}
	for _, a := range corpus {
		for _, b := range corpus {
			if !c.Thorough() && strings.HasPrefix(a.name, "doc") != strings.HasPrefix(b.name, "doc") {
				continue
			}
			for _, fl := range flags[:core.Pick(c, 1, 3)] {
				scenario24(c, fmt.Sprintf("merge %s into %s %v", b.name, a.name, fl), func() string {
					x, err := a.open()
					if err != nil {
						return ""
					}
					defer x.Close()
					y, err := b.open()
					if err != nil {
						return ""
					}
					defer y.Close()
					err = x.Merge(y, fl)
					return content24(x, nil) + fmt.Sprint(err) + state17(y)
				})
			}
		}
	}

	c.Group("operations")
	type op struct {
		name string
		f    func(d *xmp.Document) string
	}
	var ops []op
	for _, p := range []string{"a", "b", "p", "q", "dc", "xmp", "dup", "ns1", "ns2", "mine", "xmpMM", "tiff", "zz"} {
		p := p
		ops = append(ops,
			op{"remove " + p, func(d *xmp.Document) string { return fmt.Sprint(d.RemoveNamespaceByName(p)) }},
			op{"filter -" + p, func(d *xmp.Document) string { return fmt.Sprint(xmp.ParseFilter("-" + p).Apply(d)) }},
			op{"filter +" + p, func(d *xmp.Document) string { return fmt.Sprint(xmp.ParseFilter("+" + p).Apply(d)) }},
			op{"get " + p, func(d *xmp.Document) string {
				s, err := d.GetPath(xmp.Path(p + ":v"))
				return fmt.Sprint(s, err)
			}},
			op{"set " + p, func(d *xmp.Document) string {
				return fmt.Sprint(d.SetPath(xmp.PathValue{Path: xmp.Path(p + ":new"), Value: "n", Flags: xmp.CREATE | xmp.REPLACE}))
			}},
			op{"set ns " + p, func(d *xmp.Document) string {
				return fmt.Sprint(d.SetPath(xmp.PathValue{Path: xmp.Path(p + ":v"), Namespace: "http://b.example/", Value: "n", Flags: xmp.CREATE | xmp.REPLACE}))
			}},
			op{"delete " + p, func(d *xmp.Document) string {
				return fmt.Sprint(d.SetPath(xmp.PathValue{Path: xmp.Path(p + ":v"), Flags: xmp.DELETE | xmp.NOFAIL}))
			}},
			op{"model " + p, func(d *xmp.Document) string {
				ns, err := xmp.GetNamespace(p)
				if err != nil {
					return err.Error()
				}
				return fmt.Sprint(d.FindModel(ns) != nil, d.FindNode(ns) != nil)
			}})
	}
	ops = append(ops,
		op{"filter groups", func(d *xmp.Document) string {
			s := ""
			for _, g := range []xmp.NamespaceGroup{xmp.XmpMetadata, xmp.ImageMetadata, xmp.MovieMetadata, xmp.CameraMetadata} {
				l, err := xmp.GetGroupNamespaces(g)
				s += fmt.Sprint(len(l), err)
				if g == xmp.XmpMetadata {
					s += fmt.Sprint(d.FilterNamespaces(l))
				}
			}
			return s
		}},
		op{"sync", func(d *xmp.Document) string { d.SetDirty(); return fmt.Sprint(d.SyncModels()) }},
		op{"make models", func(d *xmp.Document) string {
			s := ""
			for _, p := range []string{"tiff", "dc", "xmp", "photoshop", "pdf"} {
				m, err := d.MakeModel(modelByPrefix(p).NS)
				s += fmt.Sprint(m != nil, err)
			}
			return s + fmt.Sprint(d.SyncModels())
		}},
		op{"sync path", func(d *xmp.Document) string {
			return fmt.Sprint(d.Sync("a:v", "b:z", xmp.CREATE|xmp.REPLACE, nil, nil))
		}},
		op{"namespaces", func(d *xmp.Document) string {
			var l []string
			for _, n := range d.Nodes() {
				for _, ns := range n.Namespaces(d) {
					l = append(l, ns.GetName()+"="+ns.GetURI())
				}
			}
			sort.Strings(l)
			return strings.Join(l, " ")
		}})
	for _, s := range corpus {
		for _, o := range ops {
			scenario24(c, s.name+" "+o.name, func() string {
				d, err := s.open()
				if err != nil {
					return "error"
				}
				defer d.Close()
				r := o.f(d)
				return r + "\n" + content24(d, nil)
			})
		}
	}

	c.Group("full documents")
	docs := 0
	docs21(c, func(x doc21) bool {
		k := x.key
		if !(k == "full" || strings.HasPrefix(k, "change") || strings.HasPrefix(k, "sample") && c.Thorough() || strings.HasPrefix(k, "model models ") || strings.HasPrefix(k, "unknown 1") || strings.HasPrefix(k, "TM ") && c.Thorough()) {
			return true
		}
		docs++
		scenario24(c, "full "+k, func() string {
			d, err := x.make()
			if err != nil {
				return "error " + err.Error()
			}
			defer d.Close()
			return content24(d, nil)
		})
		return !c.Stop()
	})
	c.Group("full documents")
	c.Bound("full documents", docs)

	c.Group("tables")
	for i := -1; i < 200; i++ {
		if i%20 == 0 && c.Stop() {
			break
		}
		for _, t := range []string{fmt.Sprintf("(%d)", i), fmt.Sprint(i)} {
			scenario24(c, "genre "+t, func() string {
				var g id3.Genre
				err := g.UnmarshalText([]byte(t))
				return fmt.Sprint(g, err)
			})
		}
	}
	for _, t := range []string{"Blues", "Rock", "Fusion", "fusion", "Nothing", "Polsk Punk", "Hip-Hop"} {
		scenario24(c, "genre "+t, func() string {
			var g id3.Genre
			err := g.UnmarshalText([]byte(t))
			return fmt.Sprint(g, err)
		})
	}
	scenario24(c, "registry", func() string {
		s := ""
		for _, p := range sortedPrefixes() {
			ns, err := xmp.GetNamespace(p)
			if err != nil {
				return err.Error()
			}
			s += fmt.Sprint(p, ns.GetURI(), xmp.NsRegistry.GetPrefix(ns.GetURI()), xmp.NsRegistry.Short(ns.GetURI(), "x"))
		}
		var l []string
		for _, ns := range xmp.NsRegistry.Namespaces() {
			l = append(l, ns.GetName()+ns.GetURI())
		}
		sort.Strings(l)
		return s + strings.Join(l, " ")
	})

	c.Group("json members")
	texts := append([]string{c17json}, c24json...)
	for _, s := range corpus {
		if d, err := s.open(); err == nil {
			if b, err := json.Marshal(d); err == nil {
				texts = append(texts, string(b))
			}
			d.Close()
		}
	}
	for i, t := range texts {
		var base string
		for range c.Block() {
			jsonPerms(c, t, func(name, text string) {
				read := func() string {
					d := xmp.NewDocument()
					defer d.Close()
					if err := json.Unmarshal([]byte(text), d); err != nil {
						return "error " + err.Error()
					}
					return content24(d, nil)
				}
				if name == "sorted" {
					base = core.Guard(read)
				}
				c.Case(fmt.Sprintf("json %d members of %s", i, name), func() any { return text }, func() string {
					s := read()
					c.Nontrivial(fmt.Sprint(i, name))
					if s != base {
						return "the result depends on the order of members: " + firstDiff(base, s)
					}
					return ""
				})
			})
		}
	}
}
