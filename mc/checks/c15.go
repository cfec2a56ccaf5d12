package checks

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{
		ID: "C15", Level: "exploration", Shards: 8,
		Rule: "Every text of a bounded set that no reading of a scalar type makes sense of is refused when parsed, set as a property, and read from an XML element, an XML attribute and JSON. Every small tree of RDF elements inside a property of every type, every small JSON value in every place, every single-byte edit of sample documents, every short path, filter, flag list, version, tag and native name, and nesting of any depth gives a result or an error: no panic, crash or hang; what is read can be written, listed and compared again; and a canary document still reads and writes the same afterwards. Non-trivial: the input was accepted at least in part, or was an invalid text.",
		Assumptions: []string{
			"Texts neither clearly valid nor clearly invalid are only required not to crash or hang.",
			"A case that takes more than 90 s or 6 GB counts as a hang.",
		},
		Run: runC15,
	})
}

// canary is a document whose content must not depend on what was read before.
type canary struct{ want string }

const canaryDoc = `<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:crs="http://ns.adobe.com/camera-raw-settings/1.0/" xmlns:mine="` + nsMine + `" crs:Version="1"><crs:ToneCurve><rdf:Seq><rdf:li>0, 0</rdf:li></rdf:Seq></crs:ToneCurve><mine:b>y</mine:b></rdf:Description></rdf:RDF></x:xmpmeta>`

func readCanary() string {
	d := xmp.NewDocument()
	defer d.Close()
	if err := xmp.Unmarshal([]byte(canaryDoc), d); err != nil {
		return "error: " + err.Error()
	}
	out, err := xmp.Marshal(d)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(out)
}

func newCanary() *canary { return &canary{readCanary()} }

func (c *canary) sings() string {
	if s := readCanary(); s != c.want {
		return fmt.Sprintf("afterwards the canary document reads as %s instead of %s", shorten(s), shorten(c.want))
	}
	return ""
}

// use does with a document what a program would do with it, errors are fine.
func use(d *xmp.Document) {
	xmp.Marshal(d)
	json.Marshal(d)
	d.ListPaths()
	for _, n := range d.Nodes() {
		if n.Model != nil {
			xmp.ListNativeFields(n.Model)
		}
		n.IsZero()
	}
	o := xmp.NewDocument()
	o.Merge(d, xmp.MERGE)
	o.Close()
	f := xmp.ParseFilter("-mine")
	f.Apply(d)
}

func readAny(b []byte, js bool) (*xmp.Document, error) {
	d := xmp.NewDocument()
	var err error
	if js {
		err = json.Unmarshal(b, d)
	} else {
		err = xmp.Unmarshal(b, d)
	}
	return d, err
}

func tryDoc(can *canary, b []byte, js bool) (bool, string) {
	d, err := readAny(b, js)
	use(d)
	d.Close()
	return err == nil, can.sings()
}

// typeRep is a property of a given type.
type typeRep struct {
	M *model
	F field
	T reflect.Type
}

func typeReps() []typeRep {
	var out []typeRep
	seen := map[string]bool{}
	for i := range allModels() {
		m := &allModels()[i]
		for _, f := range m.Fields {
			k := fmt.Sprint(f.Type, f.Attr, f.Any)
			if seen[k] || !strings.HasPrefix(f.Name, m.Prefix+":") {
				continue
			}
			seen[k] = true
			out = append(out, typeRep{m, f, f.Type})
		}
	}
	return out
}

func runC15(c *core.Ctx) {
	xmp.Register(nsBox)
	xmp.Register(nsTm)
	xmp.Register(nsTmS)
	can := newCanary()
	c15scalars(c, can)
	c15trees(c, can)
	c15json(c, can)
	c15bytes(c, can)
	c15texts(c, can)
	c15deep(c, can)
}

// c15scalars: texts no scalar type accepts.
func c15scalars(c *core.Ctx, can *canary) {
	lvl := core.Pick(c, 0, 1)
	for _, s := range scalars() {
		s := s
		c.Group("values " + s.Name())
		for range c.Block() {
			s.Texts(lvl, func(t string) bool {
				key := "text|" + s.Name() + "|" + t
				c.Case(key, nil, func() string {
					v, _, _, err := s.Parse(t)
					_, ok := s.Means(t)
					if ok == invalid {
						c.Nontrivial(key)
						if err == nil {
							return fmt.Sprintf("means nothing, but reads as %s", v)
						}
					}
					if ok == valid && err != nil && !strings.Contains(t, "-0") && !strings.ContainsAny(t, "eE") {
						return fmt.Sprintf("means something, but is refused: %v", err)
					}
					for _, how := range s.Readers() {
						if how == "an element" && strings.TrimSpace(t) != t {
							continue
						}
						w, err := s.Read(t, how)
						if ok == invalid && err == nil {
							return fmt.Sprintf("means nothing, but read from %s it gives %s", how, w)
						}
					}
					return can.sings()
				})
				return !c.Stop()
			})
		}
	}
}

// rdfTrees lists all forests of up to n elements with the given names. Leaves
// hold text in every second one.
func rdfTrees(names []string, n int) [][]string {
	out := make([][]string, n+1)
	out[0] = []string{""}
	for k := 1; k <= n; k++ {
		// a first tree of size i and a forest of the remaining k-i
		for i := 1; i <= k; i++ {
			for _, inner := range out[i-1] {
				for _, rest := range out[k-i] {
					for j, nm := range names {
						end := nm
						if x := strings.IndexByte(nm, ' '); x > 0 {
							end = nm[:x]
						}
						body := inner
						if body == "" && (j+k)%2 == 0 {
							body = "t"
						}
						out[k] = append(out[k], "<"+nm+">"+body+"</"+end+">"+rest)
					}
				}
			}
		}
	}
	return out
}

func xmlDoc(attrs, body string) string {
	var s strings.Builder
	s.WriteString(`<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:mine="` + nsMine + `" xmlns:box="http://example.com/box/" xmlns:tm="http://example.com/tm/1.0/" xmlns:stTm="http://example.com/tm/1.0/sType#"`)
	for _, p := range sortedKeys(gold.Namespaces) {
		if p != "rdf" && p != "x" && p != "xml" {
			s.WriteString(" xmlns:" + p + `="` + gold.Namespaces[p] + `"`)
		}
	}
	s.WriteString(`><rdf:Description rdf:about=""` + attrs + `>` + body + `</rdf:Description></rdf:RDF></x:xmpmeta>`)
	return s.String()
}

var c15bad = []string{"", " ", "x", "-", "/", ":", ",", "1", "-1", "1/0", "0/0", "999999999999999999999", "1e999", "NaN", "Inf", "\t\n", "é", "2001-13-45T99:99:99Z", "a=b;c=d", "1,2,3,4,5,6,7,8,9", ":::::", "00:00:00:00", "1 2 x -3", "==", "!!!!", "////time:", "\ufffd"}

func c15trees(c *core.Ctx, can *canary) {
	max := core.Pick(c, 2, 3)
	c.Bound("elements inside a property", max)
	base := []string{"rdf:li", "rdf:Bag", "rdf:Seq", "rdf:Alt", "rdf:Description", "rdf:value", `rdf:li xml:lang="x-default"`, `rdf:li rdf:parseType="Resource"`, "mine:q", "rdf:RDF", "xml:lang"}
	reps := typeReps()
	c.Bound("property types", len(reps))
	for _, r := range reps {
		r := r
		c.Group("trees " + r.T.String())
		names := append([]string{}, base...)
		t := r.T
		for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice {
			t = t.Elem()
		}
		var own []string
		if t.Kind() == reflect.Struct {
			for _, f := range fieldsOf(t) {
				if strings.Contains(f.Name, ":") {
					own = append(own, f.Name)
				}
			}
		}
		if len(own) > 2 {
			names = append(names, own[:2]...)
		} else {
			names = append(names, own...)
		}
		names = append(names, r.F.Name)
		try := func(key, attrs, body string) {
			c.Case(key, func() any { return xmlDoc(attrs, body) }, func() string {
				ok, msg := tryDoc(can, []byte(xmlDoc(attrs, body)), false)
				if ok {
					c.Nontrivial(key)
				}
				return msg
			})
		}
		q := r.F.Name
		for range c.Block() {
			for k, l := range rdfTrees(names, max) {
				for _, b := range l {
					for _, at := range []string{"", ` rdf:parseType="Resource"`, ` mine:q="1"`} {
						if at != "" && k > 1 {
							continue
						}
						try("tree|"+q+at+"|"+b, "", "<"+q+at+">"+b+"</"+q+">")
					}
				}
				if c.Stop() {
					return
				}
			}
			for _, a := range []string{`rdf:resource="x"`, `rdf:parseType="Literal"`, `rdf:parseType=""`, `rdf:value="v"`, `xml:lang="en"`, `rdf:nodeID="a"`, `rdf:datatype="d"`, q + `="v"`} {
				for _, b := range []string{"", "t", "<rdf:li/>", "<rdf:Bag><rdf:li/></rdf:Bag>", "<mine:q>1</mine:q>"} {
					try("qual|"+q+"|"+a+"|"+b, "", "<"+q+" "+a+">"+b+"</"+q+">")
				}
			}
			for _, v := range c15bad {
				e := strings.NewReplacer("\t", "&#9;", "\n", "&#10;").Replace(v)
				try("attr|"+q+"|"+v, " "+q+`="`+e+`"`, "")
				try("elem|"+q+"|"+v, "", "<"+q+">"+e+"</"+q+">")
				for _, l := range []string{"Bag", "Seq", "Alt"} {
					try("list|"+q+"|"+l+"|"+v, "", "<"+q+"><rdf:"+l+"><rdf:li>"+e+"</rdf:li><rdf:li>"+e+"</rdf:li></rdf:"+l+"></"+q+">")
				}
			}
			for _, o := range own {
				for _, b := range append([]string{"<rdf:li>1</rdf:li>", "<rdf:Bag><rdf:li>1</rdf:li></rdf:Bag>", "<rdf:Alt><rdf:li>1</rdf:li></rdf:Alt>", "<rdf:Seq/>", "<mine:q>1</mine:q>", "<" + o + ">1</" + o + ">", "<rdf:Seq><rdf:li rdf:parseType=\"Resource\"><" + o + ">1</" + o + "></rdf:li></rdf:Seq>"}, c15bad...) {
					x := "<" + o + ">" + b + "</" + o + ">"
					try("own|"+q+"|"+x, "", "<"+q+` rdf:parseType="Resource">`+x+"</"+q+">")
					try("own|"+q+"|list|"+x, "", "<"+q+`><rdf:Seq><rdf:li rdf:parseType="Resource">`+x+"</rdf:li></rdf:Seq></"+q+">")
				}
			}
		}
	}
}

// jsonTrees lists all JSON values of up to n containers with the given member
// names and leaves.
func jsonTrees(keys, leaves []string, n int) []string {
	cur := append([]string{}, leaves...)
	cur = append(cur, "{}", "[]")
	for ; n > 0; n-- {
		next := append([]string{}, leaves...)
		next = append(next, "{}", "[]")
		for i, v := range cur {
			next = append(next, "["+v+"]", "["+v+","+cur[(i*7+3)%len(cur)]+"]")
			for j, k := range keys {
				next = append(next, "{"+k+":"+v+"}")
				next = append(next, "{"+k+":"+v+","+keys[(j+1)%len(keys)]+":"+cur[(i*5+j)%len(cur)]+"}")
			}
		}
		cur = next
	}
	seen := map[string]bool{}
	var out []string
	for _, v := range cur {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

func c15json(c *core.Ctx, can *canary) {
	leaves := []string{`null`, `true`, `1`, `-1.5e300`, `1e999`, `"x"`, `""`}
	keys := []string{`"rdf:value"`, `"xml:lang"`, `"lang"`, `"value"`, `"isDefault"`, `"rdf:Bag"`, `"rdf:Alt"`, `"mine:q"`, `""`, `":"`}
	try := func(key, doc string) {
		c.Case(key, func() any { return doc }, func() string {
			ok, msg := tryDoc(can, []byte(doc), true)
			if ok {
				c.Nontrivial(key)
			}
			return msg
		})
	}
	top := jsonTrees(keys, leaves, 1)
	c.Group("JSON places")
	places := []string{`%s`, `{"toolkit":%s}`, `{"about":%s}`, `{"namespaces":%s}`, `{"namespaces":{"mine":%s}}`, `{"namespaces":{"":%s}}`, `{"models":%s}`, `{"models":{"dc":%s}}`, `{"models":{"mine":%s}}`, `{"models":{"":%s}}`, `{"models":{"rdf":%s}}`, `{"models":{"mine":{"mine:a":%s}},"namespaces":{"mine":"` + nsMine + `"}}`, `{"models":{"x":{"x:xmptk":%s}}}`, `{"models":{"dc":{"rdf:Description":%s}}}`, `{"models":{"dc":{"xml:lang":%s}}}`, `{"models":{"dc":{"nobody:x":%s}}}`, `{"models":{"dc":{"title":%s}}}`, `{"models":{"dc":{"":%s}}}`, `{"models":{"dc":{":":%s}}}`, `{"models":{"dc":{"dc:":%s}}}`}
	for _, p := range places {
		for _, v := range top {
			try("place|"+p+"|"+v, fmt.Sprintf(p, v))
		}
	}
	depth := core.Pick(c, 1, 2)
	c.Bound("JSON containers inside a property", depth+1)
	for _, r := range typeReps() {
		c.Group("JSON " + r.T.String())
		ks := append([]string{}, keys...)
		t := r.T
		for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice {
			t = t.Elem()
		}
		if t.Kind() == reflect.Struct {
			l := fieldsOf(t)
			if len(l) > 2 {
				l = l[:2]
			}
			for _, f := range l {
				ks = append(ks, `"`+f.Name+`"`)
			}
		}
		lv := leaves
		if depth > 1 {
			lv, ks = leaves[:6:6], ks[:6:6]
		}
		for range c.Block() {
			for _, v := range jsonTrees(ks, lv, depth) {
				try("member|"+r.F.Name+"|"+v, `{"models":{"`+r.M.Prefix+`":{"`+r.F.Name+`":`+v+`}}}`)
			}
			for _, v := range c15bad {
				b, _ := json.Marshal(v)
				try("bad|"+r.F.Name+"|"+v, `{"models":{"`+r.M.Prefix+`":{"`+r.F.Name+`":`+string(b)+`}}}`)
				try("badlist|"+r.F.Name+"|"+v, `{"models":{"`+r.M.Prefix+`":{"`+r.F.Name+`":[`+string(b)+`]}}}`)
			}
		}
		if c.Stop() {
			return
		}
	}
}

// c15bytes edits sample documents at every byte.
func c15bytes(c *core.Ctx, can *canary) {
	samples := map[string]string{
		"xml": xmlSample,
		"ns":  `<?xpacket begin="" id="W5M0MpCehiHzreSzNTczkc9d"?>` + canaryDoc + `<?xpacket end="w"?>`,
	}
	if d, err := readAny([]byte(xmlSample), false); err == nil {
		if b, err := json.Marshal(d); err == nil {
			samples["json"] = string(b)
		}
		d.Close()
	}
	edits := []string{"", "<", ">", "&", `"`, "'", "/", ":", "\x00", "\xff", "=", " ", "{", "}", "[", "]", ",", "\\", "0", "x", "]]>", "<!--", "<?", "&#0;", "&lol;", "<!DOCTYPE x [<!ENTITY a \"b\">]>"}
	if !c.Thorough() {
		edits = append(edits[:10:10], "{", "[", "0", "&lol;")
	}
	for _, n := range sortedKeys(samples) {
		s := samples[n]
		c.Group("bytes " + n)
		c.Bound("sample "+n+" bytes", len(s))
		try := func(key, t string) {
			c.Case(key, func() any { return t }, func() string {
				ok, msg := tryDoc(can, []byte(t), n == "json")
				if ok {
					c.Nontrivial(key)
				}
				return msg
			})
		}
		for i := 0; i <= len(s); i++ {
			try(fmt.Sprintf("cut|%s|%d", n, i), s[:i])
			for _, e := range edits {
				if i < len(s) {
					try(fmt.Sprintf("over|%s|%d|%q", n, i, e), s[:i]+e+s[i+1:])
				}
				if e != "" {
					try(fmt.Sprintf("into|%s|%d|%q", n, i, e), s[:i]+e+s[i:])
				}
			}
			if c.Stop() {
				return
			}
		}
	}
}

const xmlSample = `<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:xmpMM="http://ns.adobe.com/xap/1.0/mm/" xmlns:stRef="http://ns.adobe.com/xap/1.0/sType/ResourceRef#" xmlns:tiff="http://ns.adobe.com/tiff/1.0/" xmlns:m="` + nsMine + `" dc:format="a/b" m:a="1"><dc:title><rdf:Alt><rdf:li xml:lang="x-default">t</rdf:li></rdf:Alt></dc:title><xmpMM:DerivedFrom rdf:parseType="Resource"><stRef:filePath>/p</stRef:filePath></xmpMM:DerivedFrom><tiff:XResolution>1/2</tiff:XResolution><m:b><rdf:Bag><rdf:li>x</rdf:li></rdf:Bag></m:b></rdf:Description></rdf:RDF></x:xmpmeta>`

// words lists all sequences of up to n tokens.
func words(tokens []string, n int, f func(string) bool) bool {
	var rec func(p string, n int) bool
	rec = func(p string, n int) bool {
		if !f(p) {
			return false
		}
		if n == 0 {
			return true
		}
		for _, t := range tokens {
			if !rec(p+t, n-1) {
				return false
			}
		}
		return true
	}
	return rec("", n)
}

func c15texts(c *core.Ctx, can *canary) {
	// paths
	c.Group("paths")
	flags := []xmp.SyncFlags{0, xmp.CREATE, xmp.REPLACE, xmp.DELETE, xmp.CREATE | xmp.REPLACE | xmp.DELETE, xmp.CREATE | xmp.APPEND, xmp.CREATE | xmp.UNIQUE | xmp.NOFAIL, xmp.DELETE | xmp.NOFAIL}
	usePath := func(p xmp.Path) {
		p.String()
		p.IsXmpPath()
		p.NamespacePrefix()
		p.Len()
		p.Fields()
		p.Pop()
		p.PopFront()
		p.AppendIndex(3)
		p.AppendIndexString("x")
		p.Push("a", "")
		p.PeekNamespacePrefix()
		q := p
		q.UnmarshalText([]byte(p))
		p.MatchNamespace(nsBox)
		for _, from := range []string{"", xmlSample} {
			for _, v := range []string{"", "v", "1"} {
				for _, f := range flags {
					d := xmp.NewDocument()
					if from != "" {
						xmp.Unmarshal([]byte(from), d)
					}
					d.GetPath(p)
					d.SetPath(xmp.PathValue{Path: p, Value: v, Flags: f, Namespace: ""})
					d.GetPath(p)
					xmp.Marshal(d)
					d.Close()
				}
				if from != "" && v == "" {
					d := xmp.NewDocument()
					xmp.Unmarshal([]byte(from), d)
					p.Namespace(d)
					d.SyncMulti(xmp.SyncDescList{{Source: p, Dest: "dc:title", Flags: xmp.DEFAULT}, {Source: "dc:title", Dest: p, Flags: xmp.DEFAULT}}, nil)
					d.Close()
				}
			}
		}
	}
	tryPath := func(p string) bool {
		key := "path|" + p
		c.Case(key, nil, func() string {
			usePath(xmp.Path(p))
			c.Nontrivial(key)
			return can.sings()
		})
		return !c.Stop()
	}
	n := core.Pick(c, 3, 4)
	c.Bound("tokens per path", n)
	words([]string{"dc:title", "xmpMM:DerivedFrom", "stRef:filePath", "mine:b", "nobody:x", "/", "[", "]", "0", "-1", "en", ":"}, n, tryPath)
	words([]string{"[", "]", "/", "0", ":"}, core.Pick(c, 4, 5), func(s string) bool { return tryPath("mine:b"+s) && tryPath("dc:title"+s) && tryPath("dc:creator"+s) })
	for i := range allModels() {
		m := &allModels()[i]
		for _, f := range m.Fields {
			for _, idx := range []string{"", "[", "[]", "[x]", "[-1]", "[1]", "[2147483647]", "[1000000000]", "[4294967296]", "[9223372036854775807]", "[-9223372036854775808]", "[99999999999999999999]", "[0][0]", "[0]/", "/x", "/[0]", "[0]/x[0]", "[1000000000]/x", "[0x10]", "[+1]", "[ 1]"} {
				tryPath(f.Name + idx)
			}
		}
	}

	// filters, flags, versions, groups
	c.Group("filters")
	words([]string{"dc", "image", "mine", "nobody", "+", "-", ",", " ", "xmp", "rdf", "x", "\x00"}, core.Pick(c, 4, 5), func(s string) bool {
		key := "filter|" + s
		c.Case(key, nil, func() string {
			f := xmp.ParseFilter(s)
			f.String()
			if g, err := xmp.ParseFilterStrict(s); err == nil {
				c.Nontrivial(key)
				_ = g.String()
			}
			for _, g := range []*xmp.Filter{f} {
				g.UnmarshalText([]byte(s))
				d, _ := readAny([]byte(xmlSample), false)
				g.Apply(d)
				xmp.Marshal(d)
				d.Close()
			}
			xmp.ParseNamespaceGroup(s)
			return can.sings()
		})
		return !c.Stop()
	})
	c.Group("flags")
	known := map[string]xmp.SyncFlags{"create": xmp.CREATE, "replace": xmp.REPLACE, "delete": xmp.DELETE, "append": xmp.APPEND, "unique": xmp.UNIQUE, "nofail": xmp.NOFAIL, "default": xmp.DEFAULT, "merge": xmp.MERGE, "extend": xmp.EXTEND, "add": xmp.ADD}
	var fw []string
	for w := range known {
		fw = append(fw, w)
	}
	sort.Strings(fw)
	fw = append(fw, ",", "x", " ", "0", "|", "CREATE", "Add")
	words(fw, core.Pick(c, 3, 5), func(s string) bool {
		key := "flags|" + s
		c.Case(key, nil, func() string {
			var want xmp.SyncFlags
			ok := true
			for _, w := range strings.Split(s, ",") {
				v, is := known[strings.ToLower(w)]
				ok = ok && is
				want |= v
			}
			got, err := xmp.ParseSyncFlags(s)
			if ok != (err == nil) {
				return fmt.Sprintf("reads as %v, error %v", got, err)
			}
			if ok {
				c.Nontrivial(key)
				if got != want {
					return fmt.Sprintf("reads as %d instead of %d", got, want)
				}
			}
			var f xmp.SyncFlags
			if err := f.UnmarshalText([]byte(s)); s != "" && (err == nil) != ok {
				return fmt.Sprintf("UnmarshalText gives %d, error %v", f, err)
			}
			return ""
		})
		return !c.Stop()
	})

	// tags
	c.Group("tags")
	for i := range allModels() {
		m := &allModels()[i]
		for range c.Block() {
			names := []string{"", ":", "[", "x", "\x00", "----:", "0x", "0x100", "0x9c9b", "\u00a9nam", "TXXX", "TXXX:a", "WXXX:", "COMM", "APIC", "/", "-1", "TPE1", "Iptc4xmpExt:x"}
			t := m.Type
			for j := 0; j < t.NumField(); j++ {
				for _, k := range []string{"xmp", "exif", "id3", "iTunes", "itunes", "qt", "riff", "ixml", "iXML", "tiff", "ps", "mp4", "dji", "crs", "pm", "pdf"} {
					for _, v := range strings.Split(t.Field(j).Tag.Get(k), ",") {
						if v != "" {
							names = append(names, v)
						}
					}
				}
			}
			for _, nm := range names {
				nm := nm
				key := "tag|" + m.Prefix + "|" + nm
				c.Case(key, nil, func() string {
					for _, v := range c15bad {
						x := m.NS.NewModel()
						x.CanTag(nm)
						if x.SetTag(nm, v) == nil {
							c.Nontrivial(key + v)
						}
						x.GetTag(nm)
						xmp.SetNativeField(x, nm, v)
						xmp.GetNativeField(x, nm)
						xmp.SetLocaleField(x, "en", nm, v)
						xmp.GetLocaleField(x, "en", nm)
						xmp.SetModelPath(x, xmp.Path(nm), v, xmp.CREATE|xmp.REPLACE)
						xmp.GetModelPath(x, xmp.Path(nm))
						d := xmp.NewDocument()
						d.AddModel(x)
						use(d)
						d.Close()
					}
					return can.sings()
				})
			}
		}
		if c.Stop() {
			return
		}
	}
}

// c15deep nests elements, JSON values and paths.
func c15deep(c *core.Ctx, can *canary) {
	c.Group("depth")
	max := core.Pick(c, 1000000, 10000000)
	c.Bound("nesting", max)
	kinds := map[string]func(n int) (string, string, bool){
		"unknown elements": func(n int) (string, string, bool) {
			return "", xmlDoc("", strings.Repeat("<mine:q>", n)+"t"+strings.Repeat("</mine:q>", n)), false
		},
		"unclosed elements": func(n int) (string, string, bool) {
			return "", strings.TrimSuffix(xmlDoc("", strings.Repeat("<mine:q>", n)), "</rdf:Description></rdf:RDF></x:xmpmeta>"), false
		},
		"descriptions": func(n int) (string, string, bool) {
			return "", xmlDoc("", strings.Repeat("<rdf:Description>", n)+"<dc:format>t</dc:format>"+strings.Repeat("</rdf:Description>", n)), false
		},
		"values": func(n int) (string, string, bool) {
			return "", xmlDoc("", "<dc:format>"+strings.Repeat("<rdf:value>", n)+"t"+strings.Repeat("</rdf:value>", n)+"</dc:format>"), false
		},
		"lists": func(n int) (string, string, bool) {
			return "", xmlDoc("", "<mine:l>"+strings.Repeat("<rdf:Bag><rdf:li>", n/2)+"t"+strings.Repeat("</rdf:li></rdf:Bag>", n/2)+"</mine:l>"), false
		},
		"lists in a title": func(n int) (string, string, bool) {
			return "", xmlDoc("", "<dc:title>"+strings.Repeat("<rdf:Alt><rdf:li>", n/2)+"t"+strings.Repeat("</rdf:li></rdf:Alt>", n/2)+"</dc:title>"), false
		},
		"before the root": func(n int) (string, string, bool) {
			return "", strings.Repeat("<a>", n) + xmlDoc("", "") + strings.Repeat("</a>", n), false
		},
		"lists in JSON": func(n int) (string, string, bool) {
			return "", `{"models":{"dc":{"dc:title":` + strings.Repeat("[", n) + strings.Repeat("]", n) + `}}}`, true
		},
		"objects in JSON": func(n int) (string, string, bool) {
			return "", `{"models":{"mine":{"mine:a":` + strings.Repeat(`{"mine:a":`, n) + `1` + strings.Repeat("}", n) + `}},"namespaces":{"mine":"` + nsMine + `"}}`, true
		},
		"path": func(n int) (string, string, bool) {
			return "mine:b" + strings.Repeat("/mine:q", n), "", false
		},
		"indexes": func(n int) (string, string, bool) { return "mine:b" + strings.Repeat("[0]", n), "", false },
		"path below a model": func(n int) (string, string, bool) {
			return "xmpMM:DerivedFrom" + strings.Repeat("/stRef:filePath", n), "", false
		},
	}
	for _, k := range sortedKeys(kinds) {
		for n := 10; n <= max; n *= 10 {
			for _, m := range []int{n / 2, n - 1, n, n + 1} {
				if m != n && n > 10000 {
					continue
				}
				k, m := k, m
				key := fmt.Sprintf("deep|%s|%d", k, m)
				c.Case(key, nil, func() string {
					p, doc, js := kinds[k](m)
					if p != "" {
						for _, from := range []string{canaryDoc, xmlSample} {
							d, _ := readAny([]byte(from), false)
							d.SetPath(xmp.PathValue{Path: xmp.Path(p), Value: "v", Namespace: nsMine, Flags: xmp.CREATE})
							d.GetPath(xmp.Path(p))
							use(d)
							d.Close()
						}
						c.Nontrivial(key)
						return can.sings()
					}
					ok, msg := tryDoc(can, []byte(doc), js)
					if ok {
						c.Nontrivial(key)
					}
					return msg
				})
			}
		}
	}
}
