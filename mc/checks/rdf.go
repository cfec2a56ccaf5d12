package checks

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
)

// An independent reader of RDF/XML as XMP uses it. It shares no code with the
// library: tokens come from the standard XML decoder, the RDF interpretation
// is written from the XMP specification (part 1, chapter 7 and annex C).

const (
	nsRDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
	nsX   = "adobe:ns:meta/"
	nsXML = "http://www.w3.org/XML/1998/namespace"
)

type rkind int

const (
	rText rkind = iota
	rURI
	rStruct
	rBag
	rSeq
	rAlt
)

// rval is one RDF value.
type rval struct {
	Kind  rkind
	Text  string
	Lang  string
	URI   bool    // the text of a URI typed property
	Props []rprop // fields of a structure, or qualifiers of a text
	Items []*rval
}

type rprop struct {
	Name string // "URI local" name, written {uri}local
	Val  *rval
}

// rdoc is one parsed packet.
type rdoc struct {
	About   []string
	Toolkit string
	Props   []rprop
	Header  string // instruction data of the xpacket begin
	Trailer string
}

func qn(n xml.Name) string { return "{" + n.Space + "}" + n.Local }

type xel struct {
	Name  xml.Name
	Attr  []xml.Attr
	Kids  []*xel
	Text  string
	After []string
}

// parseXML builds a tree and checks well-formedness. Instructions before and
// after the root are returned.
func parseXML(b []byte) (root *xel, pre, post []string, err error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	d.Strict = true
	var st []*xel
	prefixes := map[string]bool{}
	_ = prefixes
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, nil, nil, err
		}
		switch x := t.(type) {
		case xml.StartElement:
			e := &xel{Name: x.Name, Attr: append([]xml.Attr{}, x.Attr...)}
			seen := map[xml.Name]bool{}
			for _, a := range e.Attr {
				if seen[a.Name] {
					return nil, nil, nil, fmt.Errorf("attribute %s given twice on %s", qn(a.Name), qn(x.Name))
				}
				seen[a.Name] = true
			}
			if len(st) == 0 {
				if root != nil {
					return nil, nil, nil, fmt.Errorf("second root element %s", qn(x.Name))
				}
				root = e
			} else {
				p := st[len(st)-1]
				p.Kids = append(p.Kids, e)
			}
			st = append(st, e)
		case xml.EndElement:
			st = st[:len(st)-1]
		case xml.CharData:
			if len(st) == 0 {
				if strings.TrimSpace(string(x)) != "" && strings.TrimSpace(string(x)) != "\ufeff" {
					return nil, nil, nil, fmt.Errorf("text %q outside the root element", string(x))
				}
				continue
			}
			st[len(st)-1].Text += string(x)
		case xml.ProcInst:
			if len(st) == 0 {
				s := x.Target + " " + string(x.Inst)
				if root == nil {
					pre = append(pre, s)
				} else {
					post = append(post, s)
				}
			}
		}
	}
	if len(st) != 0 || root == nil {
		return nil, nil, nil, fmt.Errorf("no complete root element")
	}
	return root, pre, post, nil
}

// undeclared reports names whose prefix is not bound: the standard decoder
// leaves the prefix itself as the name space then.
func undeclared(e *xel) string { return undeclaredIn(e, map[string]bool{"": true, "xmlns": true}) }

// undeclaredIn takes the URIs declared so far.
func undeclaredIn(e *xel, uris map[string]bool) string {
	for _, a := range e.Attr {
		if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
			uris[a.Value] = true
		}
	}
	bad := func(n xml.Name) bool {
		return !uris[n.Space] && !strings.ContainsAny(n.Space, ":/#")
	}
	if bad(e.Name) {
		return e.Name.Space + ":" + e.Name.Local
	}
	for _, a := range e.Attr {
		if bad(a.Name) {
			return a.Name.Space + ":" + a.Name.Local
		}
	}
	for _, k := range e.Kids {
		if s := undeclaredIn(k, uris); s != "" {
			return s
		}
	}
	return ""
}

func parseRDF(b []byte) (*rdoc, error) {
	root, pre, post, err := parseXML(b)
	if err != nil {
		return nil, err
	}
	if s := undeclared(root); s != "" {
		return nil, fmt.Errorf("prefix of %s is not declared", s)
	}
	out := &rdoc{}
	for _, s := range pre {
		if strings.HasPrefix(s, "xpacket ") {
			out.Header = s
		}
	}
	for _, s := range post {
		if strings.HasPrefix(s, "xpacket ") {
			out.Trailer = s
		}
	}
	rdf := root
	if qn(rdf.Name) == "{"+nsX+"}xmpmeta" {
		for _, a := range rdf.Attr {
			if a.Name.Local == "xmptk" {
				out.Toolkit = a.Value
			}
		}
		if len(rdf.Kids) != 1 {
			return nil, fmt.Errorf("x:xmpmeta has %d children", len(rdf.Kids))
		}
		rdf = rdf.Kids[0]
	}
	if err := rdfDoc(rdf, out); err != nil {
		return nil, err
	}
	return out, nil
}

func rdfDoc(rdf *xel, out *rdoc) error {
	if qn(rdf.Name) != "{"+nsRDF+"}RDF" {
		return fmt.Errorf("root is %s, not rdf:RDF", qn(rdf.Name))
	}
	if strings.TrimSpace(rdf.Text) != "" {
		return fmt.Errorf("text %q in rdf:RDF", rdf.Text)
	}
	for _, k := range rdf.Kids {
		if qn(k.Name) != "{"+nsRDF+"}Description" {
			return fmt.Errorf("%s below rdf:RDF", qn(k.Name))
		}
		for _, a := range k.Attr {
			if a.Name.Space == nsRDF && a.Name.Local == "about" {
				out.About = append(out.About, a.Value)
			}
		}
		ps, err := rdfFields(k)
		if err != nil {
			return err
		}
		out.Props = append(out.Props, ps...)
	}
	return nil
}

func rdfFields(e *xel) ([]rprop, error) {
	var out []rprop
	if strings.TrimSpace(e.Text) != "" {
		return nil, fmt.Errorf("text %q beside the fields of %s", e.Text, qn(e.Name))
	}
	for _, a := range e.Attr {
		if n, ok := attrProp(a); ok {
			out = append(out, rprop{n, &rval{Text: a.Value}})
		}
	}
	for _, k := range e.Kids {
		v, err := rdfVal(k)
		if err != nil {
			return nil, err
		}
		out = append(out, rprop{qn(k.Name), v})
	}
	return out, nil
}

// attrProp says whether an attribute is a property in shorthand.
func attrProp(a xml.Attr) (string, bool) {
	if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" || a.Name.Space == nsXML {
		return "", false
	}
	if a.Name.Space == nsRDF && a.Name.Local != "value" && a.Name.Local != "type" {
		return "", false
	}
	return qn(a.Name), true
}

func rdfVal(e *xel) (*rval, error) {
	v := &rval{}
	resource, hasRes := "", false
	var fields []rprop
	for _, a := range e.Attr {
		switch {
		case a.Name.Space == nsXML && a.Name.Local == "lang":
			v.Lang = a.Value
		case a.Name.Space == nsRDF && a.Name.Local == "resource":
			resource, hasRes = a.Value, true
		case a.Name.Space == nsRDF && a.Name.Local == "parseType":
			if a.Value != "Resource" {
				return nil, fmt.Errorf("rdf:parseType %q on %s", a.Value, qn(e.Name))
			}
			v.Kind = rStruct
		default:
			if n, ok := attrProp(a); ok {
				fields = append(fields, rprop{n, &rval{Text: a.Value}})
			}
		}
	}
	if hasRes {
		if len(e.Kids) > 0 || strings.TrimSpace(e.Text) != "" {
			return nil, fmt.Errorf("content beside rdf:resource on %s", qn(e.Name))
		}
		v.Kind, v.Text, v.Props = rURI, resource, fields
		return v, nil
	}
	if len(e.Kids) == 0 {
		if v.Kind == rStruct {
			if strings.TrimSpace(e.Text) != "" {
				return nil, fmt.Errorf("text in the structure %s", qn(e.Name))
			}
			v.Props = fields
			return v, nil
		}
		v.Text = e.Text
		v.Props = fields
		if len(fields) > 0 && e.Text == "" {
			v.Kind = rStruct
		}
		return v, nil
	}
	if strings.TrimSpace(e.Text) != "" {
		return nil, fmt.Errorf("text %q beside elements in %s", e.Text, qn(e.Name))
	}
	if len(e.Kids) == 1 && v.Kind != rStruct && e.Kids[0].Name.Space == nsRDF {
		k := e.Kids[0]
		switch k.Name.Local {
		case "Bag", "Seq", "Alt":
			v.Kind = map[string]rkind{"Bag": rBag, "Seq": rSeq, "Alt": rAlt}[k.Name.Local]
			if len(fields) > 0 {
				return nil, fmt.Errorf("attributes on the array property %s", qn(e.Name))
			}
			for _, li := range k.Kids {
				if qn(li.Name) != "{"+nsRDF+"}li" {
					return nil, fmt.Errorf("%s in an array", qn(li.Name))
				}
				x, err := rdfVal(li)
				if err != nil {
					return nil, err
				}
				v.Items = append(v.Items, x)
			}
			return v, nil
		case "Description":
			ps, err := rdfFields(k)
			if err != nil {
				return nil, err
			}
			v.Kind, v.Props = rStruct, append(fields, ps...)
			return v, nil
		}
	}
	v.Kind = rStruct
	v.Props = fields
	for _, k := range e.Kids {
		x, err := rdfVal(k)
		if err != nil {
			return nil, err
		}
		v.Props = append(v.Props, rprop{qn(k.Name), x})
	}
	return v, nil
}

// String renders a value canonically: structure fields in name order.
func (v *rval) String() string {
	var b strings.Builder
	if v.Lang != "" {
		b.WriteString("@" + v.Lang + " ")
	}
	list := func(n string) {
		b.WriteString(n + "[")
		for i, x := range v.Items {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(x.String())
		}
		b.WriteString("]")
	}
	props := func() {
		if len(v.Props) == 0 && v.Kind != rStruct {
			return
		}
		var l []string
		for _, p := range v.Props {
			l = append(l, p.Name+"="+p.Val.String())
		}
		sort.Strings(l)
		b.WriteString("{" + strings.Join(l, "; ") + "}")
	}
	switch v.Kind {
	case rText:
		b.WriteString(strconv.Quote(v.Text))
		props()
	case rURI:
		b.WriteString("<" + v.Text + ">")
		props()
	case rStruct:
		props()
	case rBag:
		list("Bag")
	case rSeq:
		list("Seq")
	case rAlt:
		list("Alt")
	}
	return b.String()
}

// byName indexes the properties of a document; a name given twice is an error.
func (d *rdoc) byName() (map[string]string, error) {
	m := map[string]string{}
	for _, p := range d.Props {
		if _, ok := m[p.Name]; ok {
			return nil, fmt.Errorf("property %s is written twice", p.Name)
		}
		m[p.Name] = p.Val.String()
	}
	return m, nil
}
