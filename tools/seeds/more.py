def demo(body, imports=(), top=''):
    imp=['fmt','os','github.com/trimmer-io/go-xmp/xmp']+list(imports)
    std=''.join(f'\t"{i}"\n' for i in imp if '/' not in i.split('.')[0] and '.' not in i)
    oth=''.join(('\t_ "%s"\n'%i[2:]) if i.startswith('_ ') else f'\t"{i}"\n' for i in imp if '.' in i)
    return f'''package main

import (
{std}
{oth})

func fail(f string, a ...interface{{}}) {{ fmt.Printf(f+"\\n", a...); os.Exit(1) }}

func check(err error) {{
	if err != nil {{
		fail("%v", err)
	}}
}}

var _ = xmp.Marshal

{top}
func main() {{
{body}
}}
'''
G='github.com/trimmer-io/go-xmp/models/'
ALL='_ '+'github.com/trimmer-io/go-xmp/models'
DOC='''func doc(body string) *xmp.Document {
	d := xmp.NewDocument()
	check(xmp.Unmarshal([]byte(`<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">`+body+`</rdf:RDF></x:xmpmeta>`), d))
	return d
}
'''

def USER(fields,own=True):
    return """type U struct {
	"""+fields+"""
}

var nsA = xmp.NewNamespace("ua", "http://ua/", func(string) xmp.Model { return &U{} })

func init() { xmp.Register(nsA) }

func (x U) Can(n string) bool                  { return n == "ua" }
func (x U) Namespaces() xmp.NamespaceList      { return xmp.NamespaceList{nsA} }
func (x *U) SyncModel(d *xmp.Document) error   { return nil }
func (x *U) SyncFromXMP(d *xmp.Document) error { return nil }
func (x U) SyncToXMP(d *xmp.Document) error    { return nil }
func (x *U) CanTag(tag string) bool            { return xmp.CanNativeField(x, tag) }
func (x *U) GetTag(tag string) (string, error) { return xmp.GetNativeField(x, tag) }
func (x *U) SetTag(tag, value string) error    { return xmp.SetNativeField(x, tag, value) }
"""
# C02
seed('C02-float','C02',[('xmp/marshal.go',"return strconv.FormatFloat(val.Float(), 'g', -1, val.Type().Bits()), nil, nil","return strconv.FormatFloat(val.Float(), 'g', -1, 32), nil, nil")],
demo('''	d, e := xmp.NewDocument(), xmp.NewDocument()
	_, err := d.AddModel(&U{A: 16777217.25})
	check(err)
	b, err := xmp.Marshal(d)
	check(err)
	check(xmp.Unmarshal(b, e))
	if got, ok := e.FindModel(nsA).(*U); !ok || got.A != 16777217.25 {
		fail("%v", e.FindModel(nsA))
	}''',[],USER('A float64 `xmp:"ua:a"`')),'a float64 with more than seven digits','float64 properties lose precision when written')
seed('C02-dup','C02',[('xmp/array.go','if i != j && v.Value == vv.Value {','if i != j && len(v.Value) == len(vv.Value) && strings.EqualFold(v.Value, vv.Value) {')],
demo('''	d, e := xmp.NewDocument(), xmp.NewDocument()
	m, err := dc.MakeModel(d)
	check(err)
	m.Title = xmp.AltString{{Value: "Polish", IsDefault: true}, {Value: "polish", Lang: "en"}}
	b, err := xmp.Marshal(d)
	check(err)
	check(xmp.Unmarshal(b, e))
	if got := dc.FindModel(e); len(got.Title) != 2 || got.Title.Get("en") != "polish" {
		fail("%v", got.Title)
	}''',[G+'dc']),'a translation that differs from the default in case only','the translation is dropped when read')
# C03
seed('C03-empty','C03',[('xmp/marshal.go','if len(n.Attr) <= 2 && len(n.Nodes) == 0 {','if len(n.Attr) <= 3 && len(n.Nodes) == 0 {')],
demo('''	d := doc(`<rdf:Description rdf:about="" xmlns:aux="http://ns.adobe.com/exif/1.0/aux/" aux:unknownA="v"/>`)
	b, err := xmp.Marshal(d)
	check(err)
	if !strings.Contains(string(b), "unknownA") {
		fail("%s", b)
	}''',['strings',ALL],DOC),'a name space whose only content is one attribute','the attribute is not written')
seed('C03-nsmany','C03',[('xmp/node.go','if ns != nil && ns != nsRDF && ns != nsXML {','if ns != nil && ns != nsRDF && ns != nsXML && len(l) < 24 {')],
demo('''	s, decl := "", ""
	for i := 0; i < 40; i++ {
		decl += fmt.Sprintf(` xmlns:q%d="http://q/%d/"`, i, i)
		s += fmt.Sprintf(`<q%d:x>v</q%d:x>`, i, i)
	}
	d := doc(`<rdf:Description rdf:about="" xmlns:mine="http://mine/"` + decl + `><mine:s rdf:parseType="Resource">` + s + `</mine:s></rdf:Description>`)
	b, err := xmp.Marshal(d)
	check(err)
	for i := 0; i < 40; i++ {
		if !strings.Contains(string(b), fmt.Sprintf("xmlns:q%d=", i)) {
			fail("q%d is not declared", i)
		}
	}
	if !strings.Contains(string(b), "xmlns:mine=") {
		fail("mine is not declared: %s", b)
	}''',['strings',ALL],DOC),'a structure with fields in more than two dozen name spaces','some name spaces are not declared in the output')
# C04
seed('C04-about','C04',[('xmp/unmarshal.go','''				if v.Name.Local == "about" {
					d.about = v.Value
				}
				continue''','''				if v.Name.Local == "about" {
					d.about = v.Value
				}
				break''')],
demo('''	a := doc(`<rdf:Description rdf:about="u" xmlns:dc="http://purl.org/dc/elements/1.1/" dc:format="a/b"/>`)
	b := doc(`<rdf:Description xmlns:dc="http://purl.org/dc/elements/1.1/" dc:format="a/b" rdf:about="u"/>`)
	x, y := dc.FindModel(a), dc.FindModel(b)
	if x == nil || y == nil || x.Format != y.Format {
		fail("%v %v", x, y)
	}''',[G+'dc'],DOC),'simple properties given as attributes behind rdf:about','the attributes are not read')
# C05
seed('C05-attr','C05',[('xmp/node.go','if n.Attr[i].Name.Local == attr.Name.Local {','if stripPrefix(n.Attr[i].Name.Local) == stripPrefix(attr.Name.Local) {')],
demo('''	xmp.Register(nsA)
	xmp.Register(nsB)
	d := doc(`<rdf:Description xmlns:ua="http://ua/" xmlns:ub="http://ub/" ua:extra="1" ub:extra="2"/>`)
	b, err := xmp.Marshal(d)
	check(err)
	if !strings.Contains(string(b), `ua:extra="1"`) || !strings.Contains(string(b), `ub:extra="2"`) {
		fail("%s", b)
	}''',['strings'],DOC+'''
type U struct {
	A string `xmp:"ua:a"`
	B string `xmp:"ub:b"`
}

var nsA = xmp.NewNamespace("ua", "http://ua/", func(string) xmp.Model { return &U{} })
var nsB = xmp.NewNamespace("ub", "http://ub/", func(string) xmp.Model { return &U{} })

func (x U) Can(n string) bool                    { return n == "ua" || n == "ub" }
func (x U) Namespaces() xmp.NamespaceList        { return xmp.NamespaceList{nsA, nsB} }
func (x *U) SyncModel(d *xmp.Document) error     { return nil }
func (x *U) SyncFromXMP(d *xmp.Document) error   { return nil }
func (x U) SyncToXMP(d *xmp.Document) error      { return nil }
func (x *U) CanTag(tag string) bool              { return false }
func (x *U) GetTag(tag string) (string, error)   { return "", nil }
func (x *U) SetTag(tag, value string) error      { return nil }
'''),'a model of two name spaces and unknown attributes of one local name in both','one of two unknown attributes is lost')
# C06
seed('C06-array','C06',[('xmp/json.go','''		if m, err := nodeToJson(n); err != nil {
			return nil, err
		} else {''','''		if m, err := nodeToJson(n); err != nil {
			return nil, err
		} else if _, ok := m.(map[string]interface{}); ok && len(n.Nodes) > 0 || len(n.Attr) > 1 {''')],
demo('''	d, e := doc(`<rdf:Description xmlns:mine="http://mine/" mine:only="1"/>`), xmp.NewDocument()
	b, err := d.MarshalJSON()
	check(err)
	check(e.UnmarshalJSON(b))
	if v, err := e.GetPath("mine:only"); err != nil || v != "1" {
		fail("%q %v %s", v, err, b)
	}''',[],DOC),'a name space whose only content is one attribute','the attribute is missing in JSON')
# C07
seed('C07-idx','C07',[('xmp/path.go','''	f := "%s[%d]"
	if strings.HasSuffix(x.String(), "]") {''','''	f := "%s[%d]"
	if i < 10 && strings.HasSuffix(x.String(), "]") {''')],
demo('''	s := ""
	for i := 0; i < 12; i++ {
		s += fmt.Sprintf("<rdf:li>v%d</rdf:li>", i)
	}
	d := doc(`<rdf:Description xmlns:mine="http://mine/"><mine:l><rdf:Seq><rdf:li><rdf:Bag>` + s + `</rdf:Bag></rdf:li></rdf:Seq></mine:l></rdf:Description>`)
	l, err := d.ListPaths()
	check(err)
	for _, x := range l {
		if v, err := d.GetPath(x.Path); err != nil || v != x.Value {
			fail("%s reads %q %v instead of %q", x.Path, v, err, x.Value)
		}
	}''',[],DOC),'a list inside a list with more than ten items','paths of later items are listed in a form that does not read back')
seed('C07-sort','C07',[('xmp/path.go','func (l byPath) Less(i, j int) bool { return l[i].Path.String() < l[j].Path.String() }','''func (l byPath) Less(i, j int) bool {
	a, b := l[i].Path, l[j].Path
	if a.Len() != b.Len() {
		return a.Len() < b.Len()
	}
	return a.String() < b.String()
}''')],
demo('''	d := doc(`<rdf:Description xmlns:mine="http://mine/"><mine:a rdf:parseType="Resource"><mine:b>1</mine:b></mine:a><mine:c>2</mine:c></rdf:Description>`)
	l, err := d.ListPaths()
	check(err)
	if !sort.SliceIsSorted(l, func(i, j int) bool { return l[i].Path < l[j].Path }) {
		fail("%v", l)
	}''',['sort'],DOC),'nested properties that sort before simple ones','the list of paths is not sorted')

# C09
seed('C09-apply','C09',[('xmp/path.go','func (x Path) AppendIndex(i int) Path {\n\tf := "%s[%d]"\n\tif strings.HasSuffix(x.String(), "]") {','func (x Path) AppendIndex(i int) Path {\n\tf := "%s[%d]"\n\tif strings.HasSuffix(x.String(), "1]") {')],
demo('''	p := xmp.Path("mine:l[2]").AppendIndex(0)
	q := xmp.Path("mine:l[1]").AppendIndex(0)
	if len(p) != len(q) {
		fail("%s %s", p, q)
	}'''),'a list inside the third item of a list','index paths of nested lists are malformed')
# C10
seed('C10-trim','C10',[('xmp/array.go','func (x *StringList) AddUnique(v string) error {\n\tif v == "" {\n\t\treturn nil\n\t}\n\tif !x.Contains(v) {','func (x *StringList) AddUnique(v string) error {\n\tif v == "" {\n\t\treturn nil\n\t}\n\tif !x.Contains(strings.TrimSpace(v)) {')],
demo('''	var l xmp.StringList
	check(l.AddUnique("a "))
	check(l.AddUnique("a "))
	if len(l) != 1 {
		fail("%q", l)
	}'''),'values with outer white space added twice','AddUnique adds a value that is present')
seed('C10-alt','C10',[('xmp/array.go','if v.Lang == lang || lang == "x-default" && v.IsDefault {','if strings.HasPrefix(v.Lang, lang) && lang != "" || v.Lang == lang || lang == "x-default" && v.IsDefault {')],
demo('''	a := xmp.NewAltString(xmp.AltItem{Value: "d", IsDefault: true})
	a.Add("en-US", "us")
	a.Set("en", "en")
	if a.Get("en-US") != "us" || a.Get("en") != "en" {
		fail("%v", a)
	}'''),'a language which is the prefix of another','setting a language changes another')
# C11
seed('C11-create','C11',[('xmp/sync.go','if dValue == "" && flags&CREATE == 0 {','if dValue == "" && flags&(CREATE|APPEND) == 0 {')],
demo('''	d := xmp.NewDocument()
	m, err := dc.MakeModel(d)
	check(err)
	m.Creator = xmp.NewStringList("a")
	x, err := xmpbase.MakeModel(d)
	check(err)
	x.CreatorTool = "t"
	check(d.Sync("xmp:CreatorTool", "dc:publisher", xmp.APPEND|xmp.NOFAIL, nil, nil))
	check(d.Sync("xmp:CreatorTool", "dc:contributor", xmp.UNIQUE|xmp.NOFAIL, nil, nil))
	if len(m.Publisher) != len(m.Contributor) {
		fail("%v %v", m.Publisher, m.Contributor)
	}''',[G+'dc',G+'xmp_base']).replace('"github.com/trimmer-io/go-xmp/models/xmp_base"','xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"'),'append without create on an empty list','a list is created although the flags do not allow it')
seed('C11-fold','C11',[('xmp/sync.go','if sValue == dValue {','if strings.EqualFold(sValue, dValue) {')],
demo('''	d := xmp.NewDocument()
	m, err := dc.MakeModel(d)
	check(err)
	m.Format = "Image/PNG"
	x, err := xmpbase.MakeModel(d)
	check(err)
	x.CreatorTool = "image/png"
	check(d.Sync("xmp:CreatorTool", "dc:format", xmp.REPLACE, nil, nil))
	if m.Format != "image/png" {
		fail("%v", m.Format)
	}''',[G+'dc',G+'xmp_base']).replace('"github.com/trimmer-io/go-xmp/models/xmp_base"','xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"'),'source and destination that differ in case only','the destination is not replaced')
seed('C11-flags','C11',[('xmp/sync.go','flags |= f\n','flags ^= f\n')],
demo('''	f, err := xmp.ParseSyncFlags("merge,nofail")
	check(err)
	if f != xmp.MERGE|xmp.NOFAIL {
		fail("%v", f)
	}'''),'a combined flag together with one of its parts','flag text loses a flag')
# C12
seed('C12-apply','C12',[('xmp/filter.go','\t\tr := d.RemoveNamespaces(x.exclude)\n\t\tremoved = removed || r\n','\t\tremoved = d.RemoveNamespaces(x.exclude)\n')],
demo('''	d := xmp.NewDocument()
	_, err := dc.MakeModel(d)
	check(err)
	_, err = tiff.MakeModel(d)
	check(err)
	if !xmp.NewFilter(xmp.NamespaceList{dc.NsDc}, xmp.NamespaceList{tiff.NsTiff}).Apply(d) {
		fail("nothing removed")
	}''',[G+'dc',G+'tiff']),'a filter that includes and excludes, where only the first part removes something','the return value says nothing was removed')
seed('C12-case','C12',[('xmp/filter.go','f.exclude = append(f.exclude, &Namespace{Name: v})','f.exclude = append(f.exclude, &Namespace{Name: strings.ToLower(v)})')],
demo('''	d := doc(`<rdf:Description xmlns:Mine="http://mine/" Mine:a="1"/>`)
	if !xmp.ParseFilter("-Mine").Apply(d) || len(d.Nodes()) != 0 {
		fail("%v", d.Nodes())
	}''',[],DOC),'excluding an unknown name space with upper-case letters in its prefix','the name space is kept')
seed('C12-dups','C12',[('xmp/namespace.go','\t\tu := v.GetURI()\n\t\tif !found[u] {','\t\tu := v.GetName()\n\t\tif !found[u] {')],
demo('''	a, b := xmp.NewNamespace("n", "http://a/", nil), xmp.NewNamespace("n", "http://b/", nil)
	l := xmp.NamespaceList{a, b, a}
	if got := l.RemoveDups(); len(got) != 2 {
		fail("%d", len(got))
	}'''),'two name spaces under the same prefix','one of two different name spaces is dropped')
# C13
seed('C13-pad','C13',[('xmp/marshal.go','\t\t\t\t\tif _, err := e.cw.Write([]byte("\\n")); err != nil {\n\t\t\t\t\t\treturn err\n\t\t\t\t\t}\n','\t\t\t\t\te.cw.Write([]byte("\\n"))\n')],
demo('''	d := xmp.NewDocument()
	m, err := dc.MakeModel(d)
	check(err)
	m.Format = "a/b"
	for i := 0; i < 200; i++ {
		w := &once{at: i}
		e := xmp.NewEncoder(w)
		e.SetFlags(xmp.Xpacket | xmp.Xpadding)
		e.SetMaxSize(2000)
		if err := e.Encode(d); err == nil && w.failed {
			fail("write %d failed without error", i)
		}
	}''',[G+'dc'],"""type once struct {
	n, at  int
	failed bool
}

func (w *once) Write(b []byte) (int, error) {
	w.n++
	if w.n == w.at {
		w.failed = true
		return 0, fmt.Errorf("disk full")
	}
	return len(b), nil
}
"""),'a write that fails once, inside the padding','the output misses a byte and no error is reported')
# C14
seed('C14-two','C14',[('xmp/unmarshal.go','if len(root.Nodes) > 1 {','if len(root.Nodes) > 2 {')],
demo('''	d := xmp.NewDocument()
	if err := xmp.Unmarshal([]byte(`<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"></rdf:RDF><other/></x:xmpmeta>`), d); err == nil {
		fail("no error")
	}''',[ALL]),'a wrapper with one more element beside the RDF','input that is no XMP document is accepted')
# C15
seed('C15-ver','C15',[('xmp/semver.go','i, err := strconv.Atoi(tokens[1])','i, err := strconv.Atoi(strings.TrimLeft(tokens[1], "+ "))')],
demo('''	if v, err := xmp.ParseVersion("1. 2"); err == nil {
		fail("%v", v)
	}'''),'a version text with a space','text that is no version is accepted')
# C17
seed('C17-close','C17',[('xmp/document.go','\tfor _, v := range d.nodes {\n\t\tv.Close()\n\t}\n\td.nodes = nil\n','\tfor _, v := range d.nodes {\n\t\tv.Close()\n\t}\n\td.nodes = d.nodes[:len(d.nodes):len(d.nodes)]\n')],
demo('''	a := doc(`<rdf:Description xmlns:mine="http://mine/" mine:a="1"/>`)
	a.Close()
	a.Close()
	b := doc(`<rdf:Description xmlns:mine="http://mine/" mine:a="2"/>`)
	c := doc(`<rdf:Description xmlns:mine="http://mine/" mine:a="3"/>`)
	for d, want := range map[*xmp.Document]string{b: "2", c: "3"} {
		out, err := xmp.Marshal(d)
		check(err)
		if !strings.Contains(string(out), `"`+want+`"`) {
			fail("%s: %s", want, out)
		}
	}''',['strings'],DOC),'a document that is closed twice before others are read','documents share nodes')
# C18
seed('C18-float','C18',[('xmp/units.go',"return []byte(strconv.FormatFloat(f.Value(), 'f', -1, 64)), nil","return []byte(strconv.FormatFloat(f.Value(), 'g', 15, 64)), nil")],
demo('''	x, err := xmp.ParseNullFloat64("0.30000000000000004")
	check(err)
	b, err := x.MarshalText()
	check(err)
	y, err := xmp.ParseNullFloat64(string(b))
	check(err)
	if x != y {
		fail("%v %v", x, y)
	}'''),'a float64 that needs seventeen digits','the text of a float reads back as a different value')
# C19
seed('C19-patch','C19',[('xmp/semver.go','(v.Major == a.Major && v.Minor == a.Minor && v.Patch < a.Patch)','(v.Major == a.Major && v.Minor == a.Minor && v.Minor > 0 && v.Patch < a.Patch)')],
demo('''	if !(xmp.Version{Major: 2, Patch: 1}).Before(xmp.Version{Major: 2, Patch: 3}) {
		fail("2.0.1 is not before 2.0.3")
	}'''),'versions that differ in the patch level behind minor version 0','versions are not ordered')
# C20
seed('C20-tag','C20',[('models/id3/model.go','`id3:"TIT1" ','`id3:"TIT4" ')],
demo('''	m := &id3.ID3{}
	check(m.SetTag("TIT1", "x"))
	if m.ContentGroupDescription != "x" {
		fail("%+v", m.ContentGroupDescription)
	}''',[G+'id3']),'one of some hundred native tags','a tag is not mapped to its property')
# C21
seed('C21-dirty','C21',[('xmp/document.go','\t\tfor _, v := range m.Namespaces() {\n\t\t\td.intNsMap[v.GetURI()] = v\n\t\t}\n\t\td.SetDirty()','\t\tfor _, v := range m.Namespaces() {\n\t\t\td.intNsMap[v.GetURI()] = v\n\t\t}')],
demo('''	d := xmp.NewDocument()
	x, err := d.MakeModel(tiff.NsTiff)
	check(err)
	m := x.(*tiff.TiffInfo)
	m.Artist = xmp.NewStringList("a")
	b, err := xmp.Marshal(d)
	check(err)
	if !strings.Contains(string(b), "creator") {
		fail("%s", b)
	}''',['strings',G+'tiff']),'a native model made in a document and written','the shared properties are not filled in before writing')
# C22
seed('C22-split','C22',[('models/tiff/model.go','\tif base.ModifyDate.IsZero() {\n\t\tbase.ModifyDate = x.DateTime\n\t}\n','\tif base.ModifyDate.IsZero() || !x.DateTime.IsZero() {\n\t\tbase.ModifyDate = x.DateTime\n\t}\n')],
demo('''	d := xmp.NewDocument()
	b, err := xmpbase.MakeModel(d)
	check(err)
	want, err := xmp.ParseDate("2001-02-03T04:05:06Z")
	check(err)
	b.ModifyDate = want
	m, err := tiff.MakeModel(d)
	check(err)
	m.DateTime, err = xmp.ParseDate("2011-02-03T04:05:06Z")
	check(err)
	check(m.SyncToXMP(d))
	if b.ModifyDate != want {
		fail("%v", b.ModifyDate)
	}''',[G+'tiff',G+'xmp_base']).replace('"github.com/trimmer-io/go-xmp/models/xmp_base"','xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"'),'both dates set and different','an existing standard property is overwritten by the native one')
# C23
seed('C23-flags','C23',[('xmp/typeinfo.go','for _, flag := range tokens[1:] {','for i, flag := range tokens[1:] {\n\t\t\tif i > 1 {\n\t\t\t\tbreak\n\t\t\t}')],
demo('''	d := xmp.NewDocument()
	_, err := d.AddModel(&U{A: "x", B: "y"})
	check(err)
	b, err := xmp.Marshal(d)
	check(err)
	if strings.Contains(string(b), "ua:a") || !strings.Contains(string(b), "ua:b") {
		fail("%s", b)
	}''',['strings'],USER('A string `xmp:"ua:a,attr,empty,omit"`\n\tB string `xmp:"ua:b"`')),'a field tag with three flags','the third flag is ignored')
