package checks

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"sort"
	"strings"
)

// The reference writer: one set of properties in every RDF/XML form XMP
// readers must treat alike. It shares no code with the library.

type rform struct {
	Attr   int               // 0 elements, 1 attributes where RDF allows it
	Struct int               // 0 parseType=Resource, 1 nested description, 2 attributes on the property, 3 nested description with attributes
	Desc   int               // 0 one description, 1 one per property, 2 one per property reversed, 3 per name space, 4 two interleaved
	Prefix int               // 0 usual, 1 other prefixes, 2 swapped prefixes, 3 default name space
	NsAt   int               // 0 rdf:Description, 1 rdf:RDF, 2 outermost, 3 each property
	Wrap   int               // 0 packet+xmpmeta, 1 xmpmeta, 2 packet only, 3 bare rdf:RDF
	Trivia int               // 0 none, 1 white space, 2 comments, 3 instructions and comments, 4 indentation
	URI    int               // 0 as text, 1 rdf:resource, 2 rdf:value
	Names  map[string]string // other prefixes by URI
	Text   int               // 0 escapes, 1 CDATA, 2 character references, 3 split by comments, 4 surrounded by white space
}

var rformSizes = []int{2, 4, 5, 4, 4, 4, 5, 3, 5}

func formOf(v []int) rform {
	return rform{Attr: v[0], Struct: v[1], Desc: v[2], Prefix: v[3], NsAt: v[4], Wrap: v[5], Trivia: v[6], URI: v[7], Text: v[8]}
}

func (f rform) String() string {
	return fmt.Sprintf("attr%d struct%d desc%d prefix%d ns%d wrap%d trivia%d uri%d text%d", f.Attr, f.Struct, f.Desc, f.Prefix, f.NsAt, f.Wrap, f.Trivia, f.URI, f.Text)
}

type rwriter struct {
	f      rform
	b      bytes.Buffer
	prefix map[string]string
	used   map[string]bool
	n      int
	top    []string
}

// esc escapes text for elements and attributes alike.
func esc(s string) string {
	r := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;", "\n", "&#10;", "\r", "&#13;", "\t", "&#9;")
	return r.Replace(s)
}

func splitQN(n string) (string, string) {
	i := strings.LastIndexByte(n, '}')
	return n[1:i], n[i+1:]
}

func collectNS(ps []rprop, into map[string]bool) {
	for _, p := range ps {
		u, _ := splitQN(p.Name)
		into[u] = true
		collectVal(p.Val, into)
	}
}

func collectVal(v *rval, into map[string]bool) {
	collectNS(v.Props, into)
	for _, i := range v.Items {
		collectVal(i, into)
	}
}

// usualPrefix finds the registered prefix in the golden schema.
func usualPrefix(uri string) string {
	for p, u := range gold.Namespaces {
		if u == uri {
			return p
		}
	}
	return ""
}

func (w *rwriter) pick(uris []string) {
	w.prefix = map[string]string{nsRDF: "rdf", nsX: "x"}
	if w.f.Prefix == 1 {
		w.prefix[nsRDF], w.prefix[nsX] = "r", "meta"
	}
	var usual []string
	for _, u := range uris {
		p := usualPrefix(u)
		if p == "" {
			p = map[string]string{nsMine: "mine", nsYours: "yours"}[u]
		}
		if p == "" {
			p = fmt.Sprintf("ns%d", len(usual))
		}
		usual = append(usual, p)
	}
	for i, u := range uris {
		switch w.f.Prefix {
		case 1:
			w.prefix[u] = fmt.Sprintf("p%d", i)
		case 2: // every name space gets the usual prefix of another one
			p := usual[(i+1)%len(uris)]
			if len(uris) == 1 {
				p = "tiff"
				if usual[0] == "tiff" {
					p = "dc"
				}
			}
			w.prefix[u] = p
		default:
			w.prefix[u] = usual[i]
		}
		if p := w.f.Names[u]; p != "" {
			w.prefix[u] = p
		}
	}
}

func (w *rwriter) decl(uris []string) string {
	var s string
	for _, u := range uris {
		if u == "" {
			continue
		}
		s += fmt.Sprintf(` xmlns:%s="%s"`, w.prefix[u], esc(u))
	}
	return s
}

func (w *rwriter) trivia(depth int) {
	w.n++
	switch w.f.Trivia {
	case 1:
		w.b.WriteString([]string{"\n", " ", "\t\n  "}[w.n%3])
	case 2:
		w.b.WriteString("<!-- c<d> & -->")
	case 3:
		w.b.WriteString("\n<?note x=\"<a>\"?> <!----> ")
	case 4:
		w.b.WriteString("\n" + strings.Repeat("  ", depth))
	}
}

func (w *rwriter) name(n string) string {
	u, l := splitQN(n)
	if u == "" {
		return l
	}
	return w.prefix[u] + ":" + l
}

func (w *rwriter) rdf(n string) string { return w.prefix[nsRDF] + ":" + n }

func (w *rwriter) plain(v *rval) bool {
	return !(v.URI && w.f.URI > 0) && v.Kind == rText && v.Lang == "" && len(v.Props) == 0
}

// open writes the start of an element without closing the tag; it returns
// the name to close it with.
func (w *rwriter) open(n string, top bool) string {
	u, l := splitQN(n)
	if w.f.Prefix == 3 && u != "" && u != nsRDF {
		fmt.Fprintf(&w.b, `<%s xmlns="%s"`, l, esc(u))
		w.declTop(top, u)
		return l
	}
	q := w.name(n)
	w.b.WriteString("<" + q)
	w.declTop(top, "")
	return q
}

func (w *rwriter) declTop(top bool, _ string) {
	if top && w.f.NsAt == 3 {
		w.b.WriteString(w.decl(w.top))
	}
}

func (w *rwriter) prop(n string, v *rval, depth int, top bool) {
	w.trivia(depth)
	q := w.open(n, top)
	if v.Lang != "" {
		fmt.Fprintf(&w.b, ` xml:lang="%s"`, esc(v.Lang))
	}
	end := func() { w.b.WriteString("</" + q + ">") }
	switch v.Kind {
	case rURI:
		fmt.Fprintf(&w.b, ` %s="%s"/>`, w.rdf("resource"), esc(v.Text))
	case rText:
		switch {
		case len(v.Props) > 0:
			// a qualified value
			sub := append([]rprop{{"{" + nsRDF + "}value", &rval{Kind: v.Kind, Text: v.Text, URI: v.URI}}}, v.Props...)
			if w.f.Struct%2 == 1 {
				w.b.WriteString("><" + w.rdf("Description") + ">")
			} else {
				fmt.Fprintf(&w.b, ` %s="Resource">`, w.rdf("parseType"))
			}
			for _, p := range sub {
				w.prop(p.Name, p.Val, depth+1, false)
			}
			if w.f.Struct%2 == 1 {
				w.b.WriteString("</" + w.rdf("Description") + ">")
			}
		case v.URI && w.f.URI == 1:
			fmt.Fprintf(&w.b, ` %s="%s"/>`, w.rdf("resource"), esc(v.Text))
			return
		case v.URI && w.f.URI == 2:
			fmt.Fprintf(&w.b, ` %s="Resource"><%s %s="%s"/>`, w.rdf("parseType"), w.rdf("value"), w.rdf("resource"), esc(v.Text))
		default:
			w.b.WriteString(">" + w.text(v.Text))
		}
		end()
	case rBag, rSeq, rAlt:
		k := map[rkind]string{rBag: "Bag", rSeq: "Seq", rAlt: "Alt"}[v.Kind]
		w.b.WriteString(">")
		w.trivia(depth + 1)
		w.b.WriteString("<" + w.rdf(k) + ">")
		for _, i := range v.Items {
			w.prop("{"+nsRDF+"}li", i, depth+2, false)
		}
		w.trivia(depth + 1)
		w.b.WriteString("</" + w.rdf(k) + ">")
		w.trivia(depth)
		end()
	case rStruct:
		all, noNS := true, false
		for _, p := range v.Props {
			all = all && w.plain(p.Val)
			if u, _ := splitQN(p.Name); u == "" {
				noNS = true
			}
		}
		attrs := func(cond func(*rval) bool) {
			for _, p := range v.Props {
				if cond(p.Val) {
					fmt.Fprintf(&w.b, ` %s="%s"`, w.name(p.Name), esc(p.Val.Text))
				}
			}
		}
		never := func(*rval) bool { return false }
		elems := func(skip func(*rval) bool, d int) {
			for _, p := range v.Props {
				if !skip(p.Val) {
					w.prop(p.Name, p.Val, d, false)
				}
			}
			w.trivia(d - 1)
		}
		switch {
		case noNS || w.f.Struct == 2 && all && len(v.Props) > 0:
			attrs(w.plain)
			w.b.WriteString("/>")
		case w.f.Struct == 1:
			w.b.WriteString(">")
			w.trivia(depth + 1)
			w.b.WriteString("<" + w.rdf("Description") + ">")
			elems(never, depth+2)
			w.b.WriteString("</" + w.rdf("Description") + ">")
			w.trivia(depth)
			end()
		case w.f.Struct == 3:
			w.b.WriteString(">")
			w.trivia(depth + 1)
			w.b.WriteString("<" + w.rdf("Description"))
			attrs(w.plain)
			w.b.WriteString(">")
			elems(w.plain, depth+2)
			w.b.WriteString("</" + w.rdf("Description") + ">")
			w.trivia(depth)
			end()
		default:
			fmt.Fprintf(&w.b, ` %s="Resource">`, w.rdf("parseType"))
			elems(never, depth+1)
			end()
		}
	}
}

func (w *rwriter) text(s string) string {
	switch w.f.Text {
	case 1:
		// a carriage return would be normalised inside a CDATA section
		if s != "" && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
			return "<![CDATA[" + s + "]]>"
		}
	case 2:
		var b strings.Builder
		for i, r := range s {
			if i%2 == 0 {
				fmt.Fprintf(&b, "&#%d;", r)
			} else {
				fmt.Fprintf(&b, "&#x%X;", r)
			}
		}
		return b.String()
	case 3:
		r := []rune(s)
		if len(r) > 1 {
			h := len(r) / 2
			return esc(string(r[:h])) + "<!-- - --><![CDATA[]]><?x y?>" + esc(string(r[h:]))
		}
	case 4:
		return "\n\t " + esc(s) + " \n"
	}
	return esc(s)
}

// writeRDF serializes properties in one form.
func writeRDF(ps []rprop, f rform, about, tk string) []byte {
	w := &rwriter{f: f}
	m := map[string]bool{}
	collectNS(ps, m)
	delete(m, "")
	var uris []string
	for u := range m {
		uris = append(uris, u)
	}
	sort.Strings(uris)
	w.pick(uris)
	w.top = uris
	base := w.decl([]string{nsRDF})
	outer := ""
	if f.NsAt == 2 {
		outer = w.decl(uris)
	}
	if f.Wrap == 0 || f.Wrap == 2 {
		w.b.WriteString("<?xpacket begin=\"\ufeff\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>")
		w.trivia(0)
	}
	xm := w.prefix[nsX] + ":xmpmeta"
	if f.Wrap < 2 {
		fmt.Fprintf(&w.b, `<%s xmlns:%s="%s" %s:xmptk="%s"%s>`, xm, w.prefix[nsX], nsX, w.prefix[nsX], esc(tk), outer)
		outer = ""
		w.trivia(1)
	}
	w.b.WriteString("<" + w.rdf("RDF") + base + outer)
	if f.NsAt == 1 {
		w.b.WriteString(w.decl(uris))
	}
	w.b.WriteString(">")

	// distribute the properties
	var parts [][]rprop
	switch f.Desc {
	case 0:
		parts = [][]rprop{ps}
	case 1, 2:
		for _, p := range ps {
			parts = append(parts, []rprop{p})
		}
		if f.Desc == 2 {
			for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
				parts[i], parts[j] = parts[j], parts[i]
			}
		}
	case 3:
		for i := len(uris) - 1; i >= 0; i-- {
			var l []rprop
			for _, p := range ps {
				if u, _ := splitQN(p.Name); u == uris[i] {
					l = append(l, p)
				}
			}
			if len(l) > 0 {
				parts = append(parts, l)
			}
		}
	case 4:
		parts = make([][]rprop, 2)
		for i, p := range ps {
			parts[i%2] = append(parts[i%2], p)
		}
	}
	for _, l := range parts {
		w.trivia(2)
		w.b.WriteString("<" + w.rdf("Description"))
		if f.NsAt == 0 || f.NsAt == 3 && f.Attr == 1 {
			w.b.WriteString(w.decl(uris))
		}
		fmt.Fprintf(&w.b, ` %s="%s"`, w.rdf("about"), esc(about))
		skip := func(v *rval) bool { return f.Attr == 1 && w.plain(v) }
		for _, p := range l {
			if skip(p.Val) {
				fmt.Fprintf(&w.b, ` %s="%s"`, w.name(p.Name), esc(p.Val.Text))
			}
		}
		w.b.WriteString(">")
		for _, p := range l {
			if !skip(p.Val) {
				v := p.Val
				w.prop(p.Name, v, 3, true)
			}
		}
		w.trivia(2)
		w.b.WriteString("</" + w.rdf("Description") + ">")
	}
	w.trivia(1)
	w.b.WriteString("</" + w.rdf("RDF") + ">")
	if f.Wrap < 2 {
		w.trivia(0)
		w.b.WriteString("</" + xm + ">")
	}
	if f.Wrap == 0 || f.Wrap == 2 {
		w.trivia(0)
		w.b.WriteString("<?xpacket end=\"w\"?>")
	}
	return w.b.Bytes()
}

var _ = xml.Name{}
