package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{ID: "C06", Level: "exploration", Shards: 8, Run: runC06,
		Rule: "Every document of the bounded space (each property with every value, all and all but one property of each model, pairs of properties and of models, unknown content of every shape alone, in pairs, beside and inside known properties and extensions, all abouts and toolkits, the repository's samples) is converted to JSON, the JSON parsed by an independent parser and re-serialized in several equivalent ways (members reversed, numbers and booleans unquoted, other prefixes, indented), read back by the real decoder and compared with the same document after a trip through XML, and the XML written by both compared by an independent RDF reader.",
		Assumptions: []string{
			"The XML trip used as reference is itself decided by C02 to C05.",
			"Unknown properties whose text is empty count as unset.",
		}})
}

// jsonVariants are re-serializations of a JSON document.
var jsonVariants = []string{"as written", "indented", "members reversed", "members sorted", "numbers unquoted", "other prefixes", "numbers with exponents"}

var plainNumber = regexp.MustCompile(`^-?(0|[1-9][0-9]{0,17})$`)

func jsonVariant(i int, b []byte) []byte {
	switch i {
	case 0:
		return b
	case 1:
		var w bytes.Buffer
		json.Indent(&w, b, " ", "\t")
		return w.Bytes()
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return b
	}
	ren := map[string]string{}
	if i == 5 {
		top, _ := v.(map[string]interface{})
		nss, _ := top["namespaces"].(map[string]interface{})
		n := 0
		m := map[string]interface{}{}
		for _, k := range sortedIfaceKeys(nss) {
			ren[k] = fmt.Sprintf("p%d", n)
			m[ren[k]] = nss[k]
			n++
		}
		top["namespaces"] = m
	}
	var w bytes.Buffer
	writeJSON(&w, v, i, ren)
	return w.Bytes()
}

func sortedIfaceKeys(m map[string]interface{}) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func writeJSON(w *bytes.Buffer, v interface{}, mode int, ren map[string]string) {
	str := func(s string) {
		b, _ := json.Marshal(s)
		w.Write(b)
	}
	switch x := v.(type) {
	case map[string]interface{}:
		ks := sortedIfaceKeys(x)
		if mode == 2 {
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		w.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				w.WriteByte(',')
			}
			n := k
			if j := strings.IndexByte(k, ':'); j > 0 && ren[k[:j]] != "" {
				n = ren[k[:j]] + k[j:]
			} else if j < 0 && ren[k] != "" {
				n = ren[k]
			}
			str(n)
			w.WriteByte(':')
			writeJSON(w, x[k], mode, ren)
		}
		w.WriteByte('}')
	case []interface{}:
		w.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				w.WriteByte(',')
			}
			writeJSON(w, e, mode, ren)
		}
		w.WriteByte(']')
	case string:
		if mode == 4 && plainNumber.MatchString(x) && x != "-0" {
			w.WriteString(x)
			return
		}
		if mode == 6 && plainNumber.MatchString(x) && x != "-0" && x != "0" && len(x) < 15 {
			w.WriteString(x + []string{"E0", "e0", "0E-1", "0e-1", ".0e+0", ".0E0"}[(w.Len()+len(x))%6])
			return
		}
		str(x)
	case bool:
		fmt.Fprintf(w, "%v", x)
	case nil:
		w.WriteString("null")
	default:
		fmt.Fprintf(w, "%v", x)
	}
}

// jsonHas checks that the JSON text holds a property with its value.
func jsonHas(top map[string]interface{}, n string, v *rval) string {
	nss, _ := top["namespaces"].(map[string]interface{})
	models, _ := top["models"].(map[string]interface{})
	u, l := splitQN(n)
	for _, p := range sortedIfaceKeys(nss) {
		if nss[p] != u {
			continue
		}
		m, _ := models[p].(map[string]interface{})
		got, ok := m[p+":"+l]
		if !ok {
			return n + " is missing in JSON"
		}
		switch {
		case v.Kind == rText && v.Lang == "" && len(v.Props) == 0:
			if s, ok := got.(string); !ok || s != v.Text {
				return fmt.Sprintf("%s is %v in JSON instead of %q", n, got, v.Text)
			}
		case v.Kind == rBag || v.Kind == rSeq:
			a, ok := got.([]interface{})
			if !ok {
				if o, is := got.(map[string]interface{}); is && len(o) == 1 {
					a, ok = o["rdf:Bag"].([]interface{})
				}
			}
			if !ok || len(a) != len(v.Items) {
				return fmt.Sprintf("%s is %v in JSON instead of %s", n, got, v)
			}
			for i, it := range v.Items {
				if it.Kind != rText || it.Lang != "" || len(it.Props) > 0 {
					continue
				}
				if s, ok := a[i].(string); !ok || s != it.Text {
					return fmt.Sprintf("%s is %v in JSON instead of %s", n, got, v)
				}
			}
		}
		return ""
	}
	return "the name space of " + n + " is missing in JSON"
}

// about is the distinct rdf:about values.
func (d *rdoc) about() string {
	var l []string
	for _, a := range d.About {
		if len(l) == 0 || l[len(l)-1] != a {
			l = append(l, a)
		}
	}
	return strings.Join(l, " ")
}

// unorderedState renders everything a document holds, except for the order
// and prefixes of raw nodes (JSON objects have no order).
func unorderedState(d *xmp.Document) string {
	var l []string
	for _, s := range strings.Split(docState(d), "\n") {
		if i := strings.Index(s, " = "); i > 0 && (rawField[s[:i]] || s[i+3:] == "[]") {
			continue
		}
		if strings.HasSuffix(s, `[""]`) || strings.HasPrefix(s, "about ") {
			continue // unset; the about is compared in the written document
		}
		l = append(l, s)
	}
	return strings.Join(l, "\n")
}

var rawField = map[string]bool{}

func rdfState(x []byte) (*rdoc, string) {
	r, err := parseRDF(x)
	if err != nil {
		return nil, "output is no RDF: " + err.Error()
	}
	m, err := r.byName()
	if err != nil {
		return nil, err.Error()
	}
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		if !strings.HasSuffix(m[k], `[""]`) {
			fmt.Fprintf(&b, "%s : %s\n", k, m[k])
		}
	}
	fmt.Fprintf(&b, "about %q toolkit %q\n", r.about(), r.Toolkit)
	return r, b.String()
}

// jsonTrip takes a document through JSON and compares.
func jsonTrip(d *xmp.Document, note func([]byte)) string {
	x, err := xmp.Marshal(d)
	if err != nil {
		return "marshal: " + err.Error()
	}
	r, want := rdfState(x)
	if r == nil {
		return want + "\n" + string(x)
	}
	j, err := json.Marshal(d)
	if err != nil {
		return "JSON marshal: " + err.Error()
	}
	note(j)
	var top map[string]interface{}
	if err := json.Unmarshal(j, &top); err != nil {
		return "JSON: " + err.Error()
	}
	for _, p := range r.Props {
		if unset(p.Val) {
			continue
		}
		if m := jsonHas(top, p.Name, p.Val); m != "" {
			return m + "\n" + string(j)
		}
	}
	if s, _ := top["about"].(string); s != r.about() && len(r.About) > 0 {
		return fmt.Sprintf("about is %q in JSON and %q in XML", s, r.about())
	}
	if s, _ := top["toolkit"].(string); s != r.Toolkit {
		return fmt.Sprintf("toolkit is %q in JSON and %q in XML", s, r.Toolkit)
	}
	d3 := xmp.NewDocument()
	defer d3.Close()
	if err := xmp.Unmarshal(x, d3); err != nil {
		return "unmarshal: " + err.Error()
	}
	v3 := unorderedState(d3)
	x3, err := xmp.Marshal(d3)
	if err != nil {
		return "marshal after XML: " + err.Error()
	}
	_, again := rdfState(x3) // synchronized properties may come up (see C22)
	for i, vn := range jsonVariants {
		jv := jsonVariant(i, j)
		if i > 1 && bytes.Equal(jv, j) {
			continue
		}
		d2 := &xmp.Document{}
		if i%2 == 1 {
			d2 = xmp.NewDocument()
		}
		if err := json.Unmarshal(jv, d2); err != nil {
			return vn + ": JSON unmarshal: " + err.Error() + "\n" + string(jv)
		}
		if v2 := unorderedState(d2); v2 != v3 {
			return vn + ": read from JSON: " + diffState(v3, v2) + "\n" + string(jv)
		}
		x2, err := xmp.Marshal(d2)
		if err != nil {
			return vn + ": marshal after JSON: " + err.Error()
		}
		r2, got := rdfState(x2)
		if r2 == nil {
			return vn + ": " + got
		}
		if got != want && got != again {
			return vn + ": written after JSON: " + diffState(want, got) + "\n" + string(jv)
		}
		d2.Close()
	}
	return ""
}

func runC06(c *core.Ctx) {
	c.Bound("json_serializations", jsonVariants)
	rawFields()
	docSpace(c, core.Pick(c, "single all pair models", "single all pair models cross"), core.Pick(c, 1, 2), func(dc docCase) bool {
		return c.Case(dc.Key, dc.replay, func() string {
			d, _, err := dc.build()
			if err != nil {
				return err.Error()
			}
			return jsonTrip(d, func(j []byte) {
				c.Nontrivial(dc.Key)
				c.Outcome(string(j))
				if len(dc.Assigns) > 1 && len(j) < 900 {
					c.Sample(map[string]interface{}{"case": dc.replay(), "json": string(j)})
				}
			})
		})
	})
	try := func(key string, in []byte) {
		if c.Stop() {
			return
		}
		c.Case(key, func() interface{} { return map[string]string{"input": string(in)} }, func() string {
			d := xmp.NewDocument()
			defer d.Close()
			if err := xmp.Unmarshal(in, d); err != nil {
				return "" // what is refused is decided by C05 and C15
			}
			m := jsonTrip(d, func(j []byte) {
				c.Nontrivial(key)
				c.Outcome(string(j))
			})
			if m != "" && len(in) < 4000 {
				m += "\ninput: " + string(in)
			}
			return m
		})
	}
	put := func(key string, ps ...rprop) { try(key, writeRDF(ps, rform{}, "uuid:1", "tk")) }
	shapes := unknownShapes()
	c.Group("unknown")
	for i, s := range shapes {
		put(fmt.Sprintf("shape%d", i), rprop{mine("x"), s})
		for j, t := range shapes {
			put(fmt.Sprintf("shapes%d,%d", i, j), rprop{mine("x"), s}, rprop{mine("y"), t})
			put(fmt.Sprintf("shapes%d,%d other", i, j), rprop{mine("x"), s}, rprop{yours("x"), t})
			put(fmt.Sprintf("shape%d in shape%d", j, i), rprop{mine("x"), rstruct(rprop{mine("a"), s}, rprop{yours("b"), rlist(rBag, t, t)})})
		}
		for _, p := range sortedPrefixes() {
			u := gold.Namespaces[p]
			if u == "" || u == nsRDF || u == nsX || u == nsXML {
				continue
			}
			put(fmt.Sprintf("%s shape%d", p, i), rprop{"{" + u + "}unknownProp", s})
			put(fmt.Sprintf("%s shape%d beside", p, i), rprop{"{" + u + "}unknownProp", s}, rprop{"{" + gold.Namespaces["dc"] + "}format", rt("image/png")}, rprop{mine("x"), s})
		}
	}
	for _, n := range []int{9, 12, 33, 101} {
		for _, v := range volume(n) {
			put(fmt.Sprintf("%d %s", n, v.Name), v.Props...)
		}
	}
	uris := []string{nsMine, nsYours}
	for _, p := range sortedPrefixes() {
		if u := gold.Namespaces[p]; u != "" && u != nsRDF && u != nsX && u != nsXML {
			uris = append(uris, u)
		}
	}
	for _, u := range uris {
		for _, v := range uris {
			if u != v {
				put(u+" "+v, rprop{"{" + u + "}unknownProp", rt("1")}, rprop{"{" + v + "}unknownProp", rstruct(rprop{"{" + u + "}a", rt("2")}, rprop{"{" + v + "}a", rt("3")})})
			}
		}
	}
	c.Group("about and toolkit")
	for i, a := range []string{"", "uuid:1", "a<b&c", "é \"q\""} {
		for j, tk := range []string{"", "tk", "x<y", "Adobe XMP Core 5.6-c140 79.160451"} {
			try(fmt.Sprintf("about%d toolkit%d", i, j), writeRDF([]rprop{{mine("x"), rt("v")}}, rform{}, a, tk))
			try(fmt.Sprintf("about%d toolkit%d alone", i, j), writeRDF(nil, rform{}, a, tk))
		}
	}
	ms := allModels()
	for i := range ms {
		m := &ms[i]
		c.Group("inside " + m.Prefix)
		for _, fd := range m.Fields {
			for ai, v := range alphabet(fd.Type, 0) {
				ps, err := refProps(reflect.ValueOf(m.set(fd, clone(v))).Elem())
				if err != nil {
					continue
				}
				for _, p := range ps {
					u, l := splitQN(p.Name)
					if l != fd.Name[strings.IndexByte(fd.Name, ':')+1:] {
						continue
					}
					inject(p.Val, u, c.Thorough(), func(w string, x *rval) {
						put(fmt.Sprintf("%s.%s=%d %s", m.Prefix, fd.Go, ai, w), rprop{p.Name, x})
					})
				}
			}
		}
	}
	c.Group("extensions")
	rating := rprop{"{" + gold.Namespaces["xmp"] + "}Rating", rt("3")}
	dctitle := rprop{"{" + gold.Namespaces["dc"] + "}title", rlist(rAlt, rlang("x-default", "t"), rlang("en", "t"), rlang("de", "u"))}
	for i, s := range shapes {
		for j, e := range [][]rprop{
			{{mine("x"), s}},
			{{"{" + gold.Namespaces["dc"] + "}unknownProp", s}},
			{rating, {mine("x"), s}},
			{{"{" + gold.Namespaces["xmp"] + "}unknownProp", s}, rating, dctitle, {yours("y"), s}},
		} {
			for _, n := range []string{"xmp:extension", "iXML:extension"} {
				nm := "{" + gold.Namespaces[n[:strings.IndexByte(n, ':')]] + "}extension"
				put(fmt.Sprintf("%s shape%d in ext%d", n, i, j), rprop{nm, rstruct(rprop{mine("ext"), rstruct(e...)})})
				put(fmt.Sprintf("%s shape%d in two ext%d", n, i, j), rprop{nm, rstruct(rprop{mine("ext"), rstruct(e...)}, rprop{yours("ext"), rstruct(rprop{yours("z"), s})})})
			}
			nm := "{" + gold.Namespaces["xmpMM"] + "}Pantry"
			put(fmt.Sprintf("pantry shape%d in ext%d", i, j), rprop{nm, rlist(rBag, rstruct(e...))})
			put(fmt.Sprintf("pantry shape%d in two ext%d", i, j), rprop{nm, rlist(rBag, rstruct(rating), rstruct(e...))})
		}
	}
	c.Group("samples")
	files, _ := filepath.Glob("/repo/samples/*/*")
	more, _ := filepath.Glob("/repo/samples/*")
	files = append(files, more...)
	sort.Strings(files)
	for _, fn := range files {
		b, err := ioutil.ReadFile(fn)
		if err != nil || len(b) > 1<<20 {
			continue
		}
		if _, err := parseRDF(b); err != nil {
			continue
		}
		try("sample "+strings.TrimPrefix(fn, "/repo/"), b)
	}
}

// rawFields collects the properties that hold raw nodes.
func rawFields() {
	for _, m := range allModels() {
		for _, f := range m.Fields {
			switch f.Type.String() {
			case "xmp.ExtensionArray", "xmp.NamedExtensionArray", "xmp.TagList":
				rawField[m.Prefix+"."+f.Go] = true
			}
		}
	}
}
