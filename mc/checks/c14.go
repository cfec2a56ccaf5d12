package checks

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{
		ID: "C14", Level: "fault_enumeration", Shards: 8,
		Rule: "A case is a document and one way of delivering it: cut at every offset and pair of offsets, in steps of every small size, with empty reads in between, the end reported with or after the last bytes, cut short after every byte, or a reader failing after every byte, alone or inside a packet stream. Complete deliveries give the state of the whole document, incomplete ones an error and no content. Every element tree of up to N elements over the names XMP uses and foreign ones is accepted exactly when it is an XMP document. Non-trivial: the cut or fault lies inside the document.",
		Assumptions: []string{
			"A document ends with the closing tag of its outermost element; what follows is not part of it.",
			"Open: documents using undeclared prefixes and the historic x:xapmeta element.",
		},
		Run: runC14,
	})
}

// gapReader returns no bytes on every other read.
type gapReader struct {
	r   io.Reader
	odd bool
}

func (r *gapReader) Read(p []byte) (int, error) {
	r.odd = !r.odd
	if r.odd {
		return 0, nil
	}
	return r.r.Read(p)
}

// rootEnd is the offset after the closing tag of the outermost element.
func rootEnd(b []byte) int {
	d := xml.NewDecoder(bytes.NewReader(b))
	depth := 0
	for {
		t, err := d.Token()
		if err != nil {
			return -1
		}
		switch t.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			if depth--; depth == 0 {
				return int(d.InputOffset())
			}
		}
	}
}

type c14doc struct {
	name  string
	data  []byte
	small bool
}

func c14docs(c *core.Ctx) []c14doc {
	var l []c14doc
	add := func(name, s string, small bool) { l = append(l, c14doc{name, []byte(s), small}) }
	body := `<rdf:Description rdf:about="u" xmlns:dc="http://purl.org/dc/elements/1.1/" dc:format="a&lt;b&#xe9;"><dc:source><![CDATA[<x]]>y&amp;<!-- c -->z</dc:source></rdf:Description>`
	rdf := func(s string) string {
		return `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">` + s + `</rdf:RDF>`
	}
	meta := func(s string) string {
		return `<x:xmpmeta xmlns:x="adobe:ns:meta/" x:xmptk="tk">` + s + `</x:xmpmeta>`
	}
	add("rdf", rdf(body), true)
	add("meta", meta(rdf(body)), true)
	add("packet", "<?xpacket begin=\"\uFEFF\" id=\""+pktID+"\"?>\n"+meta("\n "+rdf("\n"+body)+"\n")+"\n<?xpacket end=\"w\"?>", true)
	add("prolog", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- top -->"+meta(rdf(""))+" <!-- after -->\n", true)
	add("no content", rdf(""), true)
	add("empty tag", `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"/>`, true)
	add("arrays", c12head+c12parts["mine"]+c12parts["yours"]+
		`<rdf:Description rdf:about="" xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:title><rdf:Alt><rdf:li xml:lang="x-default">ü€😀</rdf:li><rdf:li xml:lang='de'>"2"</rdf:li></rdf:Alt></dc:title><dc:creator><rdf:Seq><rdf:li>a</rdf:li><rdf:li>b</rdf:li></rdf:Seq></dc:creator></rdf:Description>`+c12foot, false)
	var long strings.Builder
	for i := 0; i < 400; i++ {
		fmt.Fprintf(&long, "<rdf:li>item %d of a long list ü</rdf:li>\n", i)
	}
	add("long", meta(rdf(`<rdf:Description rdf:about="" xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:source>`+strings.Repeat("0123456789", 700)+`</dc:source><dc:subject><rdf:Bag>`+long.String()+`</rdf:Bag></dc:subject></rdf:Description>`)), false)
	d, err := fullDoc()
	if err == nil {
		if b, err := xmp.Marshal(d); err == nil {
			add("all models", string(b), false)
		}
		d.Close()
	}
	return l
}

func c14samples() []string {
	l, _ := filepath.Glob(filepath.Join(repoDir(), "samples", "*.xmp"))
	sort.Strings(l)
	return l
}

func runC14(c *core.Ctx) {
	pairMax := core.Pick(c, 480, 900)
	c.Bound("pairs of cuts for documents up to bytes", pairMax)
	read := func(r io.Reader) string {
		d, err := xmp.Read(r)
		if err != nil {
			return "error: " + err.Error()
		}
		defer d.Close()
		return docState(d)
	}
	for _, doc := range c14docs(c) {
		doc := doc
		data := doc.data
		end := rootEnd(data)
		want := readState(data)
		c.Case(doc.name+"|readable", nil, func() string {
			if end < 0 || strings.HasPrefix(want, "error") {
				return want
			}
			return ""
		})
		if end < 0 {
			continue
		}
		same := func(r io.Reader) string {
			if got := read(r); got != want {
				if strings.HasPrefix(got, "error") {
					return got
				}
				return "another result: " + diffState(want, got)
			}
			return ""
		}
		// refuse checks that a reader gives an error and leaves no content
		refuse := func(r io.Reader) string {
			d := xmp.NewDocument()
			defer d.Close()
			if err := xmp.NewDecoder(r).Decode(d); err == nil {
				return fmt.Sprintf("no error, the document holds %s", shorten(dumpDoc(d)))
			}
			if len(d.Nodes()) > 0 {
				return "an error, but the document holds " + shorten(dumpDoc(d))
			}
			return ""
		}
		chunks := func(cut []int, with bool) *chunkReader {
			return &chunkReader{data: data, cuts: cut, fin: io.EOF, with: with}
		}

		c.Group("cuts")
		stride := 1
		if len(data) > 3000 {
			stride = core.Pick(c, 13, 1)
		}
		near := func(i int) bool { return i%stride == 0 || i%4096 < 4 || i%4096 > 4092 || i > end-40 || i < 40 }
		for i := 1; i < len(data); i++ {
			if !near(i) {
				continue
			}
			i := i
			c.Case(fmt.Sprintf("cut|%s|%d", doc.name, i), func() any { return map[string]any{"document": string(data), "cut": i} }, func() string {
				c.Nontrivial(fmt.Sprint(doc.name, i))
				if m := same(chunks([]int{i}, false)); m != "" {
					return m
				}
				if m := same(chunks([]int{i}, true)); m != "" {
					return "end with the last bytes: " + m
				}
				if m := same(&gapReader{r: chunks([]int{i}, true)}); m != "" {
					return "with empty reads: " + m
				}
				return ""
			})
			if c.Stop() {
				return
			}
		}
		c.Group("steps")
		for st := 1; st <= core.Pick(c, 64, 300); st++ {
			st := st
			c.Case(fmt.Sprintf("step|%s|%d", doc.name, st), nil, func() string {
				return same(&stepReader{data: data, n: st, fin: io.EOF})
			})
		}
		if doc.small && len(data) <= pairMax {
			c.Group("pairs of cuts")
			for i := 1; i < len(data); i++ {
				for j := i + 1; j < len(data); j++ {
					i, j := i, j
					if !c.Case(fmt.Sprintf("cuts|%s|%d,%d", doc.name, i, j), nil, func() string {
						return same(chunks([]int{i, j}, (i+j)%2 == 0))
					}) && c.Stop() {
						return
					}
				}
			}
		}

		c.Group("truncation and failures")
		for i := 0; i < len(data); i++ {
			if !near(i) {
				continue
			}
			i := i
			c.Case(fmt.Sprintf("short|%s|%d", doc.name, i), func() any { return map[string]any{"document": string(data), "bytes": i} }, func() string {
				if i >= end {
					if got := readState(data[:i]); got != want {
						return "complete, but another result: " + diffState(want, got)
					}
					return ""
				}
				c.Nontrivial(fmt.Sprint("short", doc.name, i))
				for _, r := range []io.Reader{
					bytes.NewReader(data[:i]),
					&stepReader{data: data[:i], n: 5, fin: io.EOF},
					&chunkReader{data: data[:i], fin: io.EOF, with: true},
					&gapReader{r: bytes.NewReader(data[:i])},
				} {
					if m := refuse(r); m != "" {
						return "cut short: " + m
					}
				}
				d := xmp.NewDocument()
				defer d.Close()
				if err := xmp.Unmarshal(data[:i], d); err == nil {
					return "cut short, Unmarshal: no error"
				}
				if _, err := xmp.Read(bytes.NewReader(data[:i])); err == nil {
					return "cut short, Read: no error"
				}
				// inside a packet
				s := []byte("junk" + `<?xpacket begin="" id="` + pktID + `"?>` + string(data[:i]))
				if !bytes.Contains(s, []byte("<?xpacket end")) {
					if _, err := xmp.Scan(bytes.NewReader(s)); err == nil {
						return "Scan on a stream that ends inside the packet: no error"
					}
					s = append(s, `<?xpacket end="w"?>`...)
					if _, err := xmp.Scan(bytes.NewReader(s)); err == nil {
						return "Scan on a packet with an incomplete document: no error"
					}
				}
				return ""
			})
			c.Case(fmt.Sprintf("fail|%s|%d", doc.name, i), func() any { return map[string]any{"document": string(data), "fails after": i} }, func() string {
				if i >= end {
					return ""
				}
				for _, err := range []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, io.ErrNoProgress} {
					for _, with := range []bool{false, true} {
						if m := refuse(&chunkReader{data: data[:i], cuts: []int{i / 2}, fin: err, with: with}); m != "" {
							return fmt.Sprintf("reader fails with %v: %s", err, m)
						}
						if _, e := xmp.Read(&chunkReader{data: data[:i], fin: err, with: with}); e == nil {
							return fmt.Sprintf("reader fails with %v: no error from Read", err)
						}
					}
				}
				return ""
			})
			if c.Stop() {
				return
			}
		}
	}

	// JSON
	c.Group("JSON")
	if d, err := fullDoc(); err == nil {
		b, err := json.Marshal(d)
		d.Close()
		c.Case("json|readable", nil, func() string {
			if err != nil {
				return err.Error()
			}
			return ""
		})
		for i := 0; i < len(b); i++ {
			i := i
			c.Case(fmt.Sprintf("json|%d", i), nil, func() string {
				d := xmp.NewDocument()
				defer d.Close()
				if err := d.UnmarshalJSON(b[:i]); err == nil {
					return "cut short: no error"
				}
				if len(d.Nodes()) > 0 {
					return "cut short: an error, but the document holds content"
				}
				return ""
			})
		}
	}

	// real files
	c.Group("samples")
	files := c14samples()
	c.Bound("sample files", len(files))
	for _, f := range files {
		f := f
		for range c.Block() {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			name := filepath.Base(f)
			want := readState(b)
			if strings.HasPrefix(want, "error") {
				continue
			}
			end := rootEnd(b)
			for _, st := range []int{1, 7, 512, 4095, 4097} {
				st := st
				c.Case(fmt.Sprintf("sample|%s|step %d", name, st), nil, func() string {
					if got := read(&stepReader{data: b, n: st, fin: io.EOF}); got != want {
						return "another result: " + diffState(want, got)
					}
					return ""
				})
			}
			n := core.Pick(c, 24, 200)
			for k := 0; k < n; k++ {
				i := end * k / n
				if k > n-8 {
					i = end - (n - k)
				}
				c.Case(fmt.Sprintf("sample|%s|short %d", name, i), nil, func() string {
					if _, err := xmp.Read(bytes.NewReader(b[:i])); err == nil {
						return "cut short: no error"
					}
					if _, err := xmp.Read(&chunkReader{data: b[:i], fin: errInjected, with: k%2 == 0}); err == nil {
						return "reader fails: no error"
					}
					return ""
				})
			}
		}
		if c.Stop() {
			return
		}
	}

	c14trees(c)
}

func shorten(s string) string {
	if len(s) > 200 {
		s = s[:200] + "…"
	}
	return s
}

// c14trees reads every small element tree.
func c14trees(c *core.Ctx) {
	c.Group("trees")
	names := []string{"x:xmpmeta", "rdf:RDF", "rdf:Description", "dc:format", "html", "RDF", "o:RDF", "o:xmpmeta", "rdf:xmpmeta", "x:RDF"}
	max := core.Pick(c, 3, 4)
	c.Bound("elements per tree", max)
	type tree struct {
		name string
		kids []*tree
	}
	decl := ` xmlns:x="adobe:ns:meta/" xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:o="http://example.com/other/"`
	var write func(t *tree, top bool, how int) string
	write = func(t *tree, top bool, how int) string {
		s := "<" + t.name
		if top {
			s += decl
		}
		if t.name == "rdf:Description" {
			s += ` rdf:about=""`
		}
		if len(t.kids) == 0 && how == 0 {
			return s + "/>"
		}
		s += ">"
		if len(t.kids) == 0 && t.name != "rdf:RDF" && t.name != "x:xmpmeta" && t.name != "rdf:Description" {
			s += "text"
		}
		for _, k := range t.kids {
			if how == 1 {
				s += "\n<!-- - -->"
			}
			s += write(k, false, how)
		}
		return s + "</" + t.name + ">"
	}
	valid := func(t *tree) bool {
		if t.name == "x:xmpmeta" {
			if len(t.kids) != 1 {
				return false
			}
			t = t.kids[0]
		}
		if t.name != "rdf:RDF" {
			return false
		}
		for _, k := range t.kids {
			if k.name != "rdf:Description" {
				return false
			}
		}
		return true
	}
	// plain says that the content is beyond doubt
	plain := func(t *tree) bool {
		if t.name == "x:xmpmeta" {
			t = t.kids[0]
		}
		for _, k := range t.kids {
			for _, p := range k.kids {
				if p.name != "dc:format" || len(p.kids) > 0 {
					return false
				}
			}
		}
		return true
	}
	var forests func(n int) [][]*tree
	memo := map[int][][]*tree{}
	trees := func(n int) (l []*tree) {
		for _, f := range forests(n - 1) {
			for _, nm := range names {
				l = append(l, &tree{nm, f})
			}
		}
		return
	}
	forests = func(n int) [][]*tree {
		if n == 0 {
			return [][]*tree{nil}
		}
		if l, ok := memo[n]; ok {
			return l
		}
		var l [][]*tree
		for k := 1; k <= n; k++ {
			for _, t := range trees(k) {
				for _, rest := range forests(n - k) {
					l = append(l, append([]*tree{t}, rest...))
				}
			}
		}
		memo[n] = l
		return l
	}
	check := func(s string, ok, sure bool) string {
		for _, b := range []string{s, "\n" + s, pkt(`""`, s, `"w"`)} {
			d, err := xmp.Read(strings.NewReader(b))
			if err == nil {
				d.Close()
			}
			if err == nil && !ok {
				return "accepted"
			}
			if err != nil && ok && sure {
				return "rejected: " + err.Error()
			}
		}
		return ""
	}
	for n := 1; n <= max; n++ {
		for _, t := range trees(n) {
			for how := 0; how < 2; how++ {
				s := write(t, true, how)
				ok := valid(t)
				if !c.Case("tree|"+s, nil, func() string {
					c.Nontrivial(s)
					return check(s, ok, ok && plain(t))
				}) && c.Stop() {
					return
				}
			}
		}
	}

	c.Group("other input")
	rdf := `<rdf:RDF` + decl + `>`
	for _, s := range []string{
		"", " ", "\n", "\x00", "hello", "{}", `{"about":"","namespaces":{},"models":{}}`, "[]", "null", "<", "<>", "</a>", "<a", "<a>", "<a/>", "<a></b>", "<!-- -->", "<!-- ", "<?xml version=\"1.0\"?>", "<!DOCTYPE x>",
		"%PDF-1.4\n", "\xff\xd8\xff\xe1", "PK\x03\x04", "GIF89a", "\x89PNG\r\n\x1a\n", "\xfe\xff\x00<", "\xff\xfe<\x00",
		`<?xpacket begin="" id="` + pktID + `"?>`, `<?xpacket begin="" id="` + pktID + `"?><?xpacket end="w"?>`, `<?xpacket end="w"?>`,
		"junk" + `<a/>`, "<svg xmlns=\"http://www.w3.org/2000/svg\"/>",
		rdf, rdf + "</rdf:RDF", rdf + "</x:xmpmeta>", rdf + "<rdf:Description>", rdf + "<rdf:Description></rdf:RDF>", rdf + "<rdf:Description></rdf:RDF></rdf:Description>", rdf + "<rdf:Description/><rdf:Description></rdf:RDF>",
		rdf + `<rdf:Description rdf:about=></rdf:Description></rdf:RDF>`, rdf + `<rdf:Description rdf:about="a></rdf:Description></rdf:RDF>`, rdf + `<rdf:Description rdf:about="&bad;"/></rdf:RDF>`, rdf + `<rdf:Description><dc:format>&bad;</dc:format></rdf:Description></rdf:RDF>`, rdf + `<rdf:Description><dc:format>a & b</dc:format></rdf:Description></rdf:RDF>`,
		rdf + "<rdf:Description><dc:format>\x01</dc:format></rdf:Description></rdf:RDF>", rdf + "<rdf:Description><dc:format>\xff\xfe</dc:format></rdf:Description></rdf:RDF>", rdf + `<rdf:Description><dc:format>a</dc:source></rdf:Description></rdf:RDF>`, rdf + `<rdf:Description><dc:format><![CDATA[a]]</dc:format></rdf:Description></rdf:RDF>`, rdf + `<rdf:Description><dc:format><!-- a </dc:format></rdf:Description></rdf:RDF>`,
		`<RDF xmlns="http://example.com/other/"/>`, `<rdf:RDF xmlns:rdf="http://example.com/other/"/>`, `<rdf:RDF xmlns:rdf="http://example.com/other/"><rdf:Description/></rdf:RDF>`,
		`<x:xmpmeta xmlns:x="http://example.com/other/">` + rdf + `</rdf:RDF></x:xmpmeta>`, `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns"/>`,
		rdf + `<o:Description/></rdf:RDF>`, rdf + `<Description/></rdf:RDF>`, rdf + `<rdf:description/></rdf:RDF>`, rdf + `<rdf:Description/><o:b/></rdf:RDF>`, rdf + `<o:b/><rdf:Description/></rdf:RDF>`, rdf + rdf + `</rdf:RDF></rdf:RDF>`,
	} {
		s := s
		c.Case("other|"+s, nil, func() string {
			for _, b := range []string{s, pkt(`""`, s, `"w"`)} {
				d, err := xmp.Read(strings.NewReader(b))
				if err == nil {
					return "accepted: " + shorten(dumpDoc(d))
				}
			}
			return ""
		})
	}
	for _, s := range []string{
		`<r:RDF xmlns:r="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><r:Description r:about=""/></r:RDF>`,
		`<RDF xmlns="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><Description/></RDF>`,
		`<m:xmpmeta xmlns:m="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"></rdf:RDF></m:xmpmeta>`,
		`<xmpmeta xmlns="adobe:ns:meta/"><RDF xmlns="http://www.w3.org/1999/02/22-rdf-syntax-ns#"/></xmpmeta>`,
	} {
		s := s
		c.Case("form|"+s, nil, func() string { return check(s, true, true) })
	}
}
