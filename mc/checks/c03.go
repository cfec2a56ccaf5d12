package checks

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{ID: "C03", Level: "exploration", Shards: 8, Run: runC03,
		Rule: "Every document of the bounded space of C02 is encoded in every output form the library offers (with and without packet wrapper, xmpmeta wrapper, with an about value and another toolkit) and the bytes are read by an independent RDF/XML reader; the properties found must be exactly those a reference encoder derives from the model values and the golden schema (names, name spaces, array kinds and struct fields written down once, not taken from the tree under test). Distinct outputs are non-trivial.",
		Assumptions: []string{
			"The golden schema (schema.json) is right: it was taken from the original models and reviewed against the XMP specification.",
			"The model values compared with are those the models hold after encoding, because encoding first runs the models' own sync, which C22 decides.",
		}})
}

// wantRDF gives the properties a document must be written with.
func wantRDF(d *xmp.Document) (map[string]string, error) {
	want := map[string]string{}
	for _, n := range d.Nodes() {
		if n.Model == nil {
			continue
		}
		ps, err := refModel(n.Model)
		if err != nil {
			return nil, err
		}
		for k, v := range ps {
			if w, ok := want[k]; ok && w != v {
				// declared by two models: the value of either may be written
				want[k] = w + " OR " + v
				continue
			}
			want[k] = v
		}
	}
	return want, nil
}

// checkRDF compares written bytes with the wanted properties.
func checkRDF(b []byte, want map[string]string) string {
	r, err := parseRDF(b)
	if err != nil {
		return err.Error() + "\n" + string(b)
	}
	got, err := r.byName()
	if err != nil {
		return err.Error() + "\n" + string(b)
	}
	for _, k := range sortedKeys(want) {
		ok := false
		for _, w := range strings.Split(want[k], " OR ") {
			ok = ok || got[k] == w
		}
		if !ok {
			if _, there := got[k]; !there {
				return fmt.Sprintf("%s = %s is not written\n%s", k, want[k], b)
			}
			return fmt.Sprintf("%s is written as %s, want %s\n%s", k, got[k], want[k], b)
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%s = %s is written but not set\n%s", k, got[k], b)
		}
	}
	return ""
}

func runC03(c *core.Ctx) {
	noteTo(c)
	c.Bound("models", len(allModels()))
	c.Bound("value_alphabet_depth", 2)
	c.Bound("output_forms", len(xforms))
	docSpace(c, core.Pick(c, "single all pair models", "single all pair models cross"), 2, func(dc docCase) bool {
		return c.Case(dc.Key, dc.replay, func() string {
			d, _, err := dc.build()
			if err != nil {
				return err.Error()
			}
			b, err := xmp.Marshal(d)
			if err != nil {
				return "marshal: " + err.Error()
			}
			note(dc, b)
			want, err := wantRDF(d)
			if err != nil {
				return err.Error()
			}
			return checkRDF(b, want)
		})
	})
	// output forms: packet flags, size limits, indentation, about and toolkit
	c.Group("forms")
	ms := allModels()
	for i := range ms {
		m := &ms[i]
		var all []assign
		for _, fd := range m.Fields {
			if a := alphabet(fd.Type, 0); len(a) > 0 {
				all = append(all, assign{m, fd, a[0]})
			}
		}
		dc := docCase{m.Prefix + ":all", all}
		for _, x := range xforms {
			x := x
			c.Case("form "+x.name+" "+dc.Key, dc.replay, func() string { return checkForm(dc, x) })
		}
	}
	// name spaces without a model, built by path
	c.Group("custom")
	for i, pv := range customPaths {
		for j := i; j < len(customPaths); j++ {
			l := []xmp.PathValue{pv}
			if j > i {
				l = append(l, customPaths[j])
			}
			key := fmt.Sprintf("custom %v", l)
			c.Case(key, func() interface{} { return l }, func() string { return checkCustom(l) })
		}
	}
	// many properties, name spaces, fields and items
	c.Group("volume")
	for _, n := range []int{3, 9, 17, 33, 70, 257} {
		for _, v := range volume(n) {
			v := v
			if v.Name == "qualifiers" {
				continue // rdf:value and qualifiers of unknown content: C05
			}
			c.Case(fmt.Sprintf("%d %s", n, v.Name), nil, func() string { return checkWritten(v.Props) })
		}
		for _, kind := range []string{"p%d:x", "mine:p%d", "mine:s/f%d", "mine:s/p%d:x", "mine:l[%d]", "dc:unknown/p%d:x", "p%d:s/q%d:x"} {
			c.Case(fmt.Sprintf("%d paths %s", n, kind), nil, func() string {
				d := xmp.NewDocument()
				defer d.Close()
				for i := 0; i < n; i++ {
					k := strings.ReplaceAll(kind, "%d", fmt.Sprint(i))
					for _, q := range strings.Split(k, "/")[1:] {
						if j := strings.IndexByte(q, ':'); j > 0 {
							// inner prefixes must be known to the document
							if err := d.SetPath(xmp.PathValue{Path: xmp.Path(q[:j] + ":z"), Namespace: "http://example.com/" + q[:j] + "/", Value: "z", Flags: xmp.CREATE}); err != nil {
								return k + ": " + err.Error()
							}
						}
					}
					pre := k[:strings.IndexByte(k, ':')]
					uri := gold.Namespaces[pre]
					if uri == "" {
						uri = "http://example.com/" + pre + "/"
					}
					if err := d.SetPath(xmp.PathValue{Path: xmp.Path(k), Namespace: uri, Value: fmt.Sprint("v", i), Flags: xmp.CREATE}); err != nil {
						return k + ": " + err.Error()
					}
				}
				b, err := xmp.Marshal(d)
				if err != nil {
					return err.Error()
				}
				r, err := parseRDF(b)
				if err != nil {
					return err.Error() + "\n" + string(b)
				}
				got, err := r.byName()
				if err != nil {
					return err.Error() + "\n" + string(b)
				}
				all := fmt.Sprint(got)
				for i := 0; i < n; i++ {
					if v := fmt.Sprintf("%q", fmt.Sprint("v", i)); !strings.Contains(all, v) {
						return v + " is not written\n" + string(b)
					}
				}
				c.Nontrivial(fmt.Sprint(n, kind))
				return ""
			})
		}
	}
}

// checkWritten writes properties without a model that were read before.
func checkWritten(l []rprop) string {
	d := xmp.NewDocument()
	defer d.Close()
	if err := xmp.Unmarshal(writeRDF(l, rform{}, "", ""), d); err != nil {
		return err.Error()
	}
	b, err := xmp.Marshal(d)
	if err != nil {
		return err.Error()
	}
	want := map[string]string{}
	for _, p := range l {
		want[p.Name] = p.Val.String()
	}
	return checkRDF(b, want)
}

type outForm struct {
	name   string
	flags  int
	size   int64
	prefix string
	indent string
	about  string
	tk     string
}

var xforms = []outForm{
	{"packet", xmp.Xpacket, 0, "", "", "", ""},
	{"bare", 0, 0, "", "", "", ""},
	{"padded", xmp.Xpacket | xmp.Xpadding, 1 << 17, "", "", "", ""},
	{"indent", xmp.Xpacket, 0, "", "\t", "", ""},
	{"indent-prefix", 0, 0, "  ", "  ", "", ""},
	{"about", xmp.Xpacket, 0, "", "", "uuid:a<b>\"&'", "tool <1> \"x\" & 'y' é"},
	{"about-indent", xmp.Xpacket, 0, "", " ", "http://x/?a=1&b=2", "t"},
}

func escape(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// checkForm encodes one document in one output form.
func checkForm(dc docCase, x outForm) string {
	d := xmp.NewDocument()
	if x.about != "" || x.tk != "" {
		in := fmt.Sprintf(`<x:xmpmeta xmlns:x="adobe:ns:meta/" x:xmptk="%s"><rdf:RDF xmlns:rdf="%s"><rdf:Description rdf:about="%s"/></rdf:RDF></x:xmpmeta>`, escape(x.tk), nsRDF, escape(x.about))
		if err := xmp.Unmarshal([]byte(in), d); err != nil {
			return err.Error()
		}
	}
	ms := map[string]xmp.Model{}
	for _, a := range dc.Assigns {
		m := ms[a.M.Prefix]
		if m == nil {
			m = a.M.NS.NewModel()
			ms[a.M.Prefix] = m
			if _, err := d.AddModel(m); err != nil {
				return err.Error()
			}
		}
		a.M.put(m, a.F, clone(a.V))
	}
	var buf bytes.Buffer
	e := xmp.NewEncoder(&buf)
	e.SetFlags(x.flags)
	e.SetMaxSize(x.size)
	e.Indent(x.prefix, x.indent)
	if err := e.Encode(d); err != nil {
		return err.Error()
	}
	b := buf.Bytes()
	want, err := wantRDF(d)
	if err != nil {
		return err.Error()
	}
	if m := checkRDF(b, want); m != "" {
		return m
	}
	r, err := parseRDF(b)
	if err != nil {
		return err.Error()
	}
	for _, a := range r.About {
		if a != x.about {
			return fmt.Sprintf("rdf:about is %q, want %q", a, x.about)
		}
	}
	if len(r.About) == 0 {
		return "no description carries rdf:about"
	}
	if x.tk != "" && r.Toolkit != x.tk {
		return fmt.Sprintf("toolkit is %q, want %q", r.Toolkit, x.tk)
	}
	if r.Toolkit == "" {
		return "no toolkit"
	}
	head, head2, foot := "<?xpacket begin=\"\ufeff\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>", "<?xpacket begin=\"\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>", "<?xpacket end=\"w\"?>"
	if x.flags&xmp.Xpacket > 0 {
		if !bytes.HasPrefix(b, []byte(head)) && !bytes.HasPrefix(b, []byte(head2)) {
			return fmt.Sprintf("packet starts with %.70q", b)
		}
		if !bytes.HasSuffix(b, []byte(foot)) {
			return fmt.Sprintf("packet ends with %q", b[len(b)-30:])
		}
	} else if bytes.Contains(b, []byte("<?xpacket")) {
		return "a bare document carries packet markers"
	}
	return ""
}

const nsMine = "http://example.com/mine/1.0/"
const nsYours = "urn:yours#"

// customPaths build properties in name spaces without a model, and unknown
// properties in known ones.
var customPaths = []xmp.PathValue{
	{Path: "mine:plain", Namespace: nsMine, Value: "v1"},
	{Path: "mine:hard", Namespace: nsMine, Value: hardText},
	{Path: "mine:struct/a", Namespace: nsMine, Value: "a"},
	{Path: "mine:struct/b", Namespace: nsMine, Value: "b"},
	{Path: "mine:list[0]", Namespace: nsMine, Value: "zero"},
	{Path: "mine:list[1]", Namespace: nsMine, Value: "one"},
	{Path: "yours:plain", Namespace: nsYours, Value: "v2"},
	{Path: "dc:unknown", Value: "u"},
	{Path: "dc:format", Value: "f"},
	{Path: "photoshop:other", Value: "o"},
	{Path: "xmpDM:unknown/sub", Value: "s"},
}

func checkCustom(l []xmp.PathValue) string {
	d := xmp.NewDocument()
	want := map[string]string{}
	lists := map[string][]string{}
	uris := map[string]string{"mine": nsMine, "yours": nsYours}
	for _, pv := range l {
		pv.Flags = xmp.CREATE | xmp.REPLACE
		if err := d.SetPath(pv); err != nil {
			return err.Error()
		}
		p := string(pv.Path)
		pre, rest := p[:strings.Index(p, ":")], p[strings.Index(p, ":")+1:]
		uri := uris[pre]
		if uri == "" {
			uri = gold.Namespaces[pre]
		}
		name := func(s string) string { return "{" + uri + "}" + s }
		switch {
		case strings.Contains(rest, "/"):
			f := strings.Split(rest, "/")
			lists[name(f[0])] = append(lists[name(f[0])], fmt.Sprintf("%s=%q", name(f[1]), pv.Value))
			want[name(f[0])] = "{" + strings.Join(lists[name(f[0])], "; ") + "}"
		case strings.Contains(rest, "["):
			n := rest[:strings.Index(rest, "[")]
			if strings.HasSuffix(rest, "[1]") && len(lists[name(n)]) == 0 {
				lists[name(n)] = append(lists[name(n)], `""`)
			}
			lists[name(n)] = append(lists[name(n)], fmt.Sprintf("%q", pv.Value))
			want[name(n)] = "Seq[" + strings.Join(lists[name(n)], ", ") + "]"
		default:
			want[name(rest)] = fmt.Sprintf("%q", pv.Value)
		}
	}
	b, err := xmp.Marshal(d)
	if err != nil {
		return err.Error()
	}
	return checkRDF(b, want)
}
