package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{
		ID: "C19", Level: "exploration", Shards: 8,
		Rule: "The version order is compared with a component-wise reference on all pairs, range membership on all triples, and version texts on all short strings. Every form of version flag over a set of versions, on every kind of field and flag order, is written and read under every selected version (structures built for the purpose, a registered model with nested structures and lists, and every version-limited property of the built-in models), and must be there exactly when a reference says the version is in the range. Structures with two fields of one name must be accepted exactly when their ranges are disjoint, and use the field in range. Non-trivial: a version is selected and the field has a range.",
		Assumptions: []string{
			"Both ends of a range belong to it. Version zero selects nothing and bounds nothing.",
			"A version's components are decimal numbers without sign; texts with a sign are left open.",
			"Two fields of the same name without a selected version are left open.",
		},
		Run: runC19,
	})
}

// vers is the reference: a version as a number.
func verNum(v xmp.Version) int64 {
	return int64(v.Major)*1e12 + int64(v.Minor)*1e6 + int64(v.Patch)
}

func verIn(v, lo, hi xmp.Version) bool {
	n, a, b := verNum(v), verNum(lo), verNum(hi)
	return n == 0 || n >= a && (b == 0 || n <= b)
}

func verGrid(c ...int) []xmp.Version {
	var out []xmp.Version
	for _, a := range c {
		for _, b := range c {
			for _, p := range c {
				out = append(out, xmp.Version{Major: a, Minor: b, Patch: p})
			}
		}
	}
	return out
}

func verText(v xmp.Version, parts int) string {
	l := []string{fmt.Sprint(v.Major), fmt.Sprint(v.Minor), fmt.Sprint(v.Patch)}
	return strings.Join(l[:parts], ".")
}

// verRange is a version flag and what it means.
type verRange struct {
	Flag   string
	Lo, Hi xmp.Version
}

func (r verRange) has(v xmp.Version) bool { return verIn(v, r.Lo, r.Hi) }

func verRanges(vs []xmp.Version) []verRange {
	out := []verRange{{}}
	for _, v := range vs {
		for parts := 1; parts <= 3; parts++ {
			if parts < 3 && v.Patch != 0 || parts < 2 && v.Minor != 0 {
				continue
			}
			t := "v" + verText(v, parts)
			out = append(out, verRange{t, v, v}, verRange{t + "+", v, xmp.Version{}}, verRange{t + "-", xmp.Version{}, v})
		}
		for _, w := range vs {
			if verNum(v) < verNum(w) {
				out = append(out, verRange{"v" + v.String() + "<" + w.String(), v, w})
			}
		}
	}
	return out
}

type verNested struct {
	X string `xmp:"tm:x"`
}

type verKind struct {
	Name string
	Val  interface{}
	Attr bool
}

func verKinds() []verKind {
	s := "s"
	n := 7
	return []verKind{
		{"string", "s", true},
		{"pointer", &s, true},
		{"int", 7, true},
		{"int pointer", &n, false},
		{"bool", true, false},
		{"date", xmp.NewDate(tUTC), true},
		{"struct", verNested{"s"}, false},
		{"struct pointer", &verNested{"s"}, false},
		{"array", xmp.NewStringArray("a", "b"), false},
		{"list", xmp.NewStringList("a", "b"), false},
		{"alt", xmp.NewAltString("s"), false},
		{"float", 1.5, true},
		{"guid", xmp.GUID("xmp.iid:1"), true},
	}
}

func verType(tags []string, kinds []verKind) reflect.Type {
	var fs []reflect.StructField
	for i, t := range tags {
		fs = append(fs, reflect.StructField{
			Name: fmt.Sprintf("F%d", i),
			Type: reflect.TypeOf(kinds[i].Val),
			Tag:  reflect.StructTag(fmt.Sprintf("xmp:%q", t)),
		})
	}
	return reflect.StructOf(fs)
}

func verWrite(v interface{}, sel xmp.Version) (*xmp.Node, error) {
	e := xmp.NewEncoder(&bytes.Buffer{})
	e.SetVersion(sel)
	n := xmp.NewNode(xmp.NewName("tm:root"))
	return n, e.EncodeElement(v, n)
}

func verRead(t reflect.Type, n *xmp.Node, sel xmp.Version) (reflect.Value, error) {
	d := xmp.NewDecoder(strings.NewReader(""))
	d.SetVersion(sel)
	v := reflect.New(t)
	return v.Elem(), d.DecodeElement(v.Interface(), n)
}

// verHas reports whether a node holds a property.
func verHas(n *xmp.Node, name string) bool {
	for _, a := range n.Attr {
		if a.Name.Local == name {
			return true
		}
	}
	for _, c := range n.Nodes {
		if c.XMLName.Local == name {
			return true
		}
	}
	return false
}

func runC19(c *core.Ctx) {
	c.Group("order")
	grid := verGrid(core.Pick(c, []int{0, 1, 2, 9, 10}, []int{0, 1, 2, 3, 9, 10, 11, 100})...)
	c.Bound("versions ordered", len(grid))
	for _, a := range grid {
		a := a
		c.Case("order|"+a.String(), nil, func() string {
			c.Nontrivial("order|" + a.String())
			if a.IsZero() != (verNum(a) == 0) {
				return "IsZero is wrong"
			}
			for _, b := range grid {
				x, y := verNum(a), verNum(b)
				if a.Before(b) != (x < y) || a.After(b) != (x > y) || a.Equal(b) != (x == y) {
					return fmt.Sprintf("against %s: before %v, after %v, equal %v", b, a.Before(b), a.After(b), a.Equal(b))
				}
			}
			return ""
		})
	}

	c.Group("ranges")
	grid = verGrid(core.Pick(c, []int{0, 1, 2}, []int{0, 1, 2, 10})...)
	c.Bound("versions in ranges", len(grid))
	for _, lo := range grid {
		for _, hi := range grid {
			lo, hi := lo, hi
			key := "range|" + lo.String() + "|" + hi.String()
			if verNum(hi) > 0 && verNum(hi) < verNum(lo) {
				continue
			}
			c.Case(key, nil, func() string {
				c.Nontrivial(key)
				for _, v := range grid {
					if got, want := v.Between(lo, hi), verIn(v, lo, hi); got != want {
						return fmt.Sprintf("%s is between: %v", v, got)
					}
				}
				return ""
			})
		}
	}

	c.Group("texts")
	words([]string{"0", "1", "2", "10", "07", ".", "-", "x", " "}, core.Pick(c, 5, 6), func(s string) bool {
		key := "text|" + s
		c.Case(key, nil, func() string {
			v, err := xmp.ParseVersion(s)
			ps := strings.Split(s, ".")
			want, ok, open := []int{0, 0, 0}, len(ps) <= 3, false
			for i, p := range ps {
				open = open || strings.HasPrefix(p, "-")
				ok = ok && p != "" && strings.Trim(p, "0123456789") == ""
				if ok {
					fmt.Sscanf(strings.TrimLeft(p, "0")+" ", "%d", &want[i])
				}
			}
			switch {
			case err != nil && ok:
				return "refused: " + err.Error()
			case err == nil && !ok && !open:
				return "accepted as " + v.String()
			case err != nil || open:
				return ""
			}
			c.Nontrivial(key)
			if v.Major != want[0] || v.Minor != want[1] || v.Patch != want[2] {
				return fmt.Sprintf("reads as %s", v)
			}
			if w, err := xmp.ParseVersion(v.String()); err != nil || w != v {
				return fmt.Sprintf("printed as %s, comes back as %s: %v", v, w, err)
			}
			return ""
		})
		return !c.Stop()
	})

	vs := []xmp.Version{{Major: 1}, {Major: 1, Minor: 2}, {Major: 2, Minor: 3}, {Major: 2, Minor: 10}}
	sels := []xmp.Version{{}, {Minor: 9}, {Major: 1}, {Major: 1, Patch: 1}, {Major: 1, Minor: 2}, {Major: 1, Minor: 3}, {Major: 2}, {Major: 2, Minor: 3}, {Major: 2, Minor: 4}, {Major: 2, Minor: 10}, {Major: 2, Minor: 10, Patch: 1}, {Major: 10}}
	if c.Thorough() {
		vs = append(vs, xmp.Version{Minor: 1}, xmp.Version{Major: 1, Minor: 2, Patch: 3}, xmp.Version{Major: 10})
		sels = append(sels, xmp.Version{Minor: 1}, xmp.Version{Patch: 5}, xmp.Version{Major: 1, Minor: 2, Patch: 3}, xmp.Version{Major: 1, Minor: 2, Patch: 4}, xmp.Version{Major: 9, Minor: 99, Patch: 99}, xmp.Version{Major: 11})
	}
	ranges := verRanges(vs)
	kinds := verKinds()
	c.Bound("version flags", len(ranges))
	c.Bound("selected versions", len(sels))
	c.Bound("kinds of field", len(kinds))

	c.Group("fields")
	for range c.Block() {
		for _, k := range kinds {
			for _, r := range ranges {
				for form := 0; form < 6; form++ {
					tag := "tm:a"
					switch form {
					case 0:
						tag += "," + r.Flag
					case 1:
						tag += ",attr," + r.Flag
					case 2:
						tag += "," + r.Flag + ",attr"
					case 3:
						tag += ",empty," + r.Flag
					case 4:
						tag += "," + r.Flag + ",empty"
					case 5:
						tag += ",attr," + r.Flag + ",empty"
					}
					if r.Flag == "" {
						tag = strings.TrimSuffix(strings.Replace(tag, ",,", ",", 1), ",")
					}
					attr := strings.Contains(tag, "attr")
					if attr && !k.Attr {
						continue
					}
					verField(c, k, r, tag, sels)
				}
			}
		}
	}

	c.Group("two fields of one name")
	for range c.Block() {
		verPairs(c, ranges, sels, vs)
	}

	c.Group("registered model")
	xmp.Register(nsVer)
	for range c.Block() {
		verModel(c, sels)
	}

	c.Group("built-in models")
	for _, m := range allModels() {
		if m.Prefix != "vm" {
			verBuiltin(c, m)
		}
	}
}

func verField(c *core.Ctx, k verKind, r verRange, tag string, sels []xmp.Version) {
	// an unlimited field beside it
	typ := verType([]string{tag, "tm:b"}, []verKind{k, kindString})
	key := "field|" + k.Name + "|" + tag
	c.Case(key, nil, func() string {
		v := reflect.New(typ).Elem()
		v.Field(0).Set(reflect.ValueOf(k.Val))
		v.Field(1).SetString("other")
		all, err := verWrite(v.Addr().Interface(), xmp.Version{})
		if err != nil {
			return "writing: " + err.Error()
		}
		for _, sel := range sels {
			want := r.has(sel)
			if r.Flag != "" && !sel.IsZero() {
				c.Nontrivial(key + sel.String())
			}
			n, err := verWrite(v.Addr().Interface(), sel)
			if err != nil {
				return fmt.Sprintf("writing version %s: %v", sel, err)
			}
			if got := verHas(n, "tm:a"); got != want {
				return fmt.Sprintf("version %s: written %v, in range %v", sel, got, want)
			}
			if !verHas(n, "tm:b") {
				return fmt.Sprintf("version %s: the unlimited field is not written", sel)
			}
			w, err := verRead(typ, all, sel)
			if err != nil {
				return fmt.Sprintf("reading version %s: %v", sel, err)
			}
			if w.Field(1).String() != "other" {
				return fmt.Sprintf("version %s: the unlimited field is not read", sel)
			}
			ref := reflect.New(typ).Elem()
			if want {
				ref.Field(0).Set(v.Field(0))
			}
			if a, b := dumpV(w.Field(0)), dumpV(ref.Field(0)); a != b {
				return fmt.Sprintf("version %s: read as %s, expected %s", sel, a, b)
			}
		}
		return ""
	})
}

var kindString = verKind{"string", "", true}

// verPairs: two fields share a name.
func verPairs(c *core.Ctx, ranges []verRange, sels, vs []xmp.Version) {
	tagOf := func(r verRange, attr bool) string {
		t := "tm:a"
		if attr {
			t += ",attr"
		}
		if r.Flag != "" {
			t += "," + r.Flag
		}
		return t
	}
	for i, r := range ranges {
		for j, q := range ranges {
			if strings.Count(r.Flag, ".") != 1 && r.Lo != r.Hi && !strings.Contains(r.Flag, "<") || strings.Count(q.Flag, ".") != 1 && q.Lo != q.Hi && !strings.Contains(q.Flag, "<") {
				continue // same as another form
			}
			for form := 0; form < 4; form++ {
				i, j, r, q := i, j, r, q
				tags := []string{tagOf(r, form&1 != 0), tagOf(q, form&2 != 0)}
				key := fmt.Sprintf("pair|%d %d|%s|%s", i, j, tags[0], tags[1])
				c.Case(key, nil, func() string {
					// ranges overlap when the greater start is in both
					lo := r.Lo
					if verNum(q.Lo) > verNum(lo) {
						lo = q.Lo
					}
					overlap := verNum(lo) == 0 || r.has(lo) && q.has(lo)
					typ := verType(tags, []verKind{kindString, kindString})
					v := reflect.New(typ).Elem()
					v.Field(0).SetString("first")
					v.Field(1).SetString("second")
					for _, sel := range sels {
						if sel.IsZero() {
							continue
						}
						n, err := verWrite(v.Addr().Interface(), sel)
						if overlap {
							if err == nil {
								return "two overlapping fields of one name are accepted"
							}
							return ""
						}
						if err != nil {
							return "disjoint fields of one name: " + err.Error()
						}
						c.Nontrivial(key + sel.String())
						want := ""
						if r.has(sel) {
							want = "first"
						}
						if q.has(sel) {
							want = "second"
						}
						got := ""
						for _, a := range n.Attr {
							if a.Name.Local == "tm:a" {
								got += a.Value
							}
						}
						for _, x := range n.Nodes {
							if x.XMLName.Local == "tm:a" {
								got += x.Value
							}
						}
						if got != want {
							return fmt.Sprintf("version %s: written %q, expected %q", sel, got, want)
						}
						w, err := verRead(typ, n, sel)
						if err != nil {
							return fmt.Sprintf("reading version %s: %v", sel, err)
						}
						a, b := w.Field(0).String(), w.Field(1).String()
						if want == "first" && (a != want || b != "") || want == "second" && (a != "" || b != want) || want == "" && a+b != "" {
							return fmt.Sprintf("version %s: read as %q and %q, expected %q", sel, a, b, want)
						}
					}
					return ""
				})
			}
		}
	}
}

// A registered model with version-limited fields at every level.

var nsVer = xmp.NewNamespace("vm", "http://example.com/vm/1.0/", func(string) xmp.Model { return &VerModel{} })

type verDeep struct {
	A string `xmp:"vm:a,v1.0"`
	B string `xmp:"vm:b,attr,v1.0+"`
	C string `xmp:"vm:c,v2.3-"`
	D int    `xmp:"vm:d,v1.2<2.3"`
	E string `xmp:"vm:e"`
}

type verList []verDeep

func (x verList) Typ() xmp.ArrayType { return xmp.ArrayTypeOrdered }
func (x verList) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, node, x.Typ(), x)
}
func (x *verList) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, node, x.Typ(), x)
}

type VerEmbed struct {
	G string `xmp:"vm:g,v2.3+"`
}

type VerModel struct {
	A string           `xmp:"vm:a,v1.0"`
	B string           `xmp:"vm:b,attr,v1.2+"`
	C xmp.StringArray  `xmp:"vm:c,v2.3-"`
	D int              `xmp:"vm:d,attr,v1.2<2.3"`
	E string           `xmp:"vm:e"`
	F string           `xmp:"vm:f,attr"`
	S verDeep          `xmp:"vm:s"`
	P *verDeep         `xmp:"vm:p,v2+"`
	L verList          `xmp:"vm:l"`
	M verList          `xmp:"vm:m,v2.3-"`
	X xmp.AltString    `xmp:"vm:x,v1.2"`
	Y string           `xmp:"vm:y,v1.2-"`
	Z xmp.StringList   `xmp:"vm:z,v2+"`
	W xmp.StringArray  `xmp:"vm:y2,v1.3+"`
	Q map[string]int64 `xmp:"-"`
	VerEmbed
}

func (x VerModel) Can(n string) bool                  { return n == "vm" }
func (x VerModel) Namespaces() xmp.NamespaceList      { return xmp.NamespaceList{nsVer} }
func (x *VerModel) SyncModel(d *xmp.Document) error   { return nil }
func (x *VerModel) SyncFromXMP(d *xmp.Document) error { return nil }
func (x VerModel) SyncToXMP(d *xmp.Document) error    { return nil }
func (x *VerModel) CanTag(tag string) bool            { return false }
func (x *VerModel) GetTag(tag string) (string, error) { return "", nil }
func (x *VerModel) SetTag(tag, value string) error    { return nil }

// verDeepCut and verModelCut clear what a version does not have.
func verDeepCut(x verDeep, v xmp.Version) verDeep {
	cut := func(a, b int64, p interface{}) {
		n := verNum(v)
		if n != 0 && (n < a || b != 0 && n > b) {
			e := reflect.ValueOf(p).Elem()
			e.Set(reflect.Zero(e.Type()))
		}
	}
	cut(1e12, 1e12, &x.A)
	cut(1e12, 0, &x.B)
	cut(0, 2e12+3e6, &x.C)
	cut(1e12+2e6, 2e12+3e6, &x.D)
	return x
}

func verModelCut(x VerModel, v xmp.Version) VerModel {
	cut := func(a, b int64, p interface{}) {
		n := verNum(v)
		if n != 0 && (n < a || b != 0 && n > b) {
			e := reflect.ValueOf(p).Elem()
			e.Set(reflect.Zero(e.Type()))
		}
	}
	cut(1e12, 1e12, &x.A)
	cut(1e12+2e6, 0, &x.B)
	cut(0, 2e12+3e6, &x.C)
	cut(1e12+2e6, 2e12+3e6, &x.D)
	cut(2e12, 0, &x.P)
	cut(0, 2e12+3e6, &x.M)
	cut(1e12+2e6, 1e12+2e6, &x.X)
	cut(0, 1e12+2e6, &x.Y)
	cut(2e12, 0, &x.Z)
	cut(1e12+3e6, 0, &x.W)
	cut(2e12+3e6, 0, &x.G)
	x.S = verDeepCut(x.S, v)
	if x.P != nil {
		p := verDeepCut(*x.P, v)
		x.P = &p
	}
	for _, l := range []*verList{&x.L, &x.M} {
		var n verList
		for _, d := range *l {
			n = append(n, verDeepCut(d, v))
		}
		*l = n
	}
	return x
}

func verFull() VerModel {
	deep := func(s string) verDeep { return verDeep{s + "a", s + "b", s + "c", 4, s + "e"} }
	p := deep("p")
	return VerModel{
		A: "a", B: "b", C: xmp.NewStringArray("c1", "c2"), D: 3, E: "e", F: "f",
		S: deep("s"), P: &p, L: verList{deep("l1"), deep("l2")}, M: verList{deep("m")},
		X: xmp.NewAltString("x"), Y: "y", Z: xmp.NewStringList("z1", "z2"), W: xmp.NewStringArray("w"),
		VerEmbed: VerEmbed{"g"},
	}
}

func verModel(c *core.Ctx, sels []xmp.Version) {
	// single fields, pairs of fields, all
	full := verFull()
	n := reflect.TypeOf(full).NumField()
	var docs [][]int
	for i := 0; i < n; i++ {
		docs = append(docs, []int{i})
		for j := i + 1; j < n; j++ {
			docs = append(docs, []int{i, j})
			if c.Thorough() {
				for k := j + 1; k < n; k++ {
					docs = append(docs, []int{i, j, k})
				}
			}
		}
	}
	all := []int{}
	for i := 0; i < n; i++ {
		all = append(all, i)
	}
	docs = append(docs, all)
	c.Bound("documents of the version model", len(docs))
	write := func(m VerModel, sel xmp.Version) (string, error) {
		d := xmp.NewDocument()
		defer d.Close()
		if _, err := d.AddModel(&m); err != nil {
			return "", err
		}
		var b bytes.Buffer
		e := xmp.NewEncoder(&b)
		e.SetVersion(sel)
		err := e.Encode(d)
		return b.String(), err
	}
	read := func(s string, sel xmp.Version) (VerModel, error) {
		d := xmp.NewDocument()
		defer d.Close()
		dec := xmp.NewDecoder(strings.NewReader(s))
		dec.SetVersion(sel)
		if err := dec.Decode(d); err != nil {
			return VerModel{}, err
		}
		if m, ok := d.FindModel(nsVer).(*VerModel); ok {
			return *m, nil
		}
		return VerModel{}, nil
	}
	for _, fs := range docs {
		fs := fs
		var m VerModel
		for _, i := range fs {
			reflect.ValueOf(&m).Elem().Field(i).Set(reflect.ValueOf(verFull()).Field(i))
		}
		key := fmt.Sprintf("model|%v", fs)
		c.Case(key, nil, func() string {
			whole, err := write(m, xmp.Version{})
			if err != nil {
				return "writing: " + err.Error()
			}
			for _, sel := range sels {
				if !sel.IsZero() {
					c.Nontrivial(key + sel.String())
				}
				want := verModelCut(m, sel)
				s, err := write(m, sel)
				if err != nil {
					return fmt.Sprintf("writing version %s: %v", sel, err)
				}
				got, err := read(s, xmp.Version{})
				if err != nil {
					return fmt.Sprintf("reading what version %s wrote: %v", sel, err)
				}
				if a, b := verDump(got), verDump(want); a != b {
					return fmt.Sprintf("writing version %s gives %s, expected %s", sel, a, b)
				}
				got, err = read(whole, sel)
				if err != nil {
					return fmt.Sprintf("reading version %s: %v", sel, err)
				}
				if a, b := verDump(got), verDump(want); a != b {
					return fmt.Sprintf("reading version %s gives %s, expected %s", sel, a, b)
				}
			}
			return ""
		})
	}
}

// verDump leaves out unset values, so that an empty structure is the same as
// none.
func verDump(m VerModel) string {
	var out []string
	v := reflect.ValueOf(m)
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Ptr && !f.IsNil() {
			f = f.Elem()
		}
		if !f.IsZero() {
			out = append(out, v.Type().Field(i).Name+"="+dumpV(f))
		}
	}
	return strings.Join(out, " ")
}

// verFlag is an independent reading of a version flag.
func verFlag(flag string) *verRange {
	num := func(s string) xmp.Version {
		var v xmp.Version
		fmt.Sscanf(s+".0.0", "%d.%d.%d", &v.Major, &v.Minor, &v.Patch)
		return v
	}
	r := &verRange{Flag: flag}
	t := flag[1:]
	switch {
	case strings.HasSuffix(t, "+"):
		r.Lo = num(strings.TrimSuffix(t, "+"))
	case strings.HasSuffix(t, "-"):
		r.Hi = num(strings.TrimSuffix(t, "-"))
	case strings.Contains(t, "<"):
		r.Lo, r.Hi = num(strings.Split(t, "<")[0]), num(strings.Split(t, "<")[1])
	default:
		r.Lo, r.Hi = num(t), num(t)
	}
	return r
}

// verBuiltin: properties of the built-in models, limited and unlimited.
func verBuiltin(c *core.Ctx, m model) {
	var sels []xmp.Version
	limited := false
	for _, f := range fieldsOf(m.Type) {
		limited = limited || f.Range != nil
	}
	if limited {
		sels = []xmp.Version{{}, {Major: 1}, {Major: 2, Minor: 2}, {Major: 2, Minor: 3}, {Major: 2, Minor: 3, Patch: 1}, {Major: 2, Minor: 4}, {Major: 2, Minor: 10}, {Major: 3}}
	} else {
		sels = []xmp.Version{{}, {Patch: 1}, {Major: 2, Minor: 3}, {Major: 99}}
	}
	for _, f := range fieldsOf(m.Type) {
		f := f
		if f.Any {
			continue
		}
		for vi, v := range alphabet(f.Type, core.Pick(c, 0, 1)) {
			key := fmt.Sprintf("built-in|%s|%s|%d", m.Prefix, f.Name, vi)
			m, v := m, v
			c.Case(key, nil, func() string {
				dc := docCase{Key: key, Assigns: []assign{{M: &m, F: f, V: v}}}
				d, _, err := dc.build()
				if err != nil {
					return "building: " + err.Error()
				}
				defer d.Close()
				whole, err := xmp.Marshal(d)
				if err != nil {
					return "writing: " + err.Error()
				}
				if !verWritten(string(whole), f.Name) {
					return "" // empty value
				}
				for _, sel := range sels {
					want := f.Range == nil || f.Range.has(sel)
					if f.Range != nil && !sel.IsZero() {
						c.Nontrivial(key + sel.String())
					}
					var b bytes.Buffer
					e := xmp.NewEncoder(&b)
					e.SetVersion(sel)
					if err := e.Encode(d); err != nil {
						return fmt.Sprintf("writing version %s: %v", sel, err)
					}
					if got := verWritten(b.String(), f.Name); got != want {
						return fmt.Sprintf("version %s: written %v, in range %v", sel, got, want)
					}
					if !strings.HasPrefix(f.Name, m.Prefix+":") {
						continue // may be read into the model of its namespace
					}
					// the field may also be computed from others
					derived := false
					for _, o := range allModels() {
						derived = derived || o.Prefix != m.Prefix && strings.Contains(string(whole), " xmlns:"+o.Prefix+"=")
					}
					got, err := verReadField(whole, sel, m.Type, f.Idx)
					if err != nil {
						return fmt.Sprintf("reading version %s: %v", sel, err)
					}
					if got != want && !derived {
						return fmt.Sprintf("version %s: read %v, in range %v", sel, got, want)
					}
				}
				return ""
			})
		}
	}
}

func verWritten(s, name string) bool {
	for _, p := range []string{"<" + name + ">", "<" + name + " ", "<" + name + "/", " " + name + "="} {
		if strings.Contains(s, p) {
			return true
		}
	}
	return false
}

// verReadField reads text and reports whether the model holds the field.
func verReadField(text []byte, sel xmp.Version, t reflect.Type, idx []int) (bool, error) {
	x := xmp.NewDocument()
	defer x.Close()
	dec := xmp.NewDecoder(bytes.NewReader(text))
	dec.SetVersion(sel)
	if err := dec.Decode(x); err != nil {
		return false, err
	}
	for _, n := range x.Nodes() {
		if n.Model != nil && reflect.TypeOf(n.Model).Elem() == t {
			if g, err := reflect.ValueOf(n.Model).Elem().FieldByIndexErr(idx); err == nil && !g.IsZero() {
				return true, nil
			}
		}
	}
	return false, nil
}
