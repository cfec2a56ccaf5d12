package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{ID: "C04", Level: "exploration", Shards: 8, Run: runC04,
		Rule: "A set of properties (from every registered model: each value of the alphabet, all properties of a model, unknown properties) is written by an independent RDF writer in every combination of serialization forms (attributes or elements; four forms of structures; five ways to spread properties over descriptions; usual, other, swapped and default prefixes; name spaces declared at four places; four wrappers; five kinds of trivia between elements), decoded by the real decoder, and the resulting document compared with the one read from the plain form. Distinct inputs are non-trivial.",
		Assumptions: []string{
			"The reference writer only emits forms the XMP specification (part 1, 7.4-7.9, annex C) calls equivalent.",
			"All forms are combined fully for whole models; for single values each form is varied alone (quick) or in pairs (thorough).",
		}})
}

// docState renders everything a document holds.
func docState(d *xmp.Document) string {
	var b strings.Builder
	v := docValues(d)
	for _, k := range sortedKeys(v) {
		fmt.Fprintf(&b, "%s = %s\n", k, v[k])
	}
	x, err := xmp.Marshal(d)
	if err != nil {
		return b.String() + "marshal: " + err.Error()
	}
	r, err := parseRDF(x)
	if err != nil {
		return b.String() + "parse: " + err.Error() + string(x)
	}
	m, err := r.byName()
	if err != nil {
		return b.String() + err.Error() + string(x)
	}
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%s : %s\n", k, m[k])
	}
	fmt.Fprintf(&b, "about %q\n", r.About)
	return b.String()
}

func readState(b []byte) string {
	d := xmp.NewDocument()
	if err := xmp.Unmarshal(b, d); err != nil {
		return "error: " + err.Error()
	}
	defer d.Close()
	return docState(d)
}

// diffState shows the first differing line.
func diffState(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "", ""
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("%.500s\n  instead of %.500s", q, p)
		}
	}
	return ""
}

func unknownProps() []rprop {
	t := func(s string) *rval { return &rval{Text: s} }
	n := func(s string) string { return "{" + nsMine + "}" + s }
	y := func(s string) string { return "{" + nsYours + "}" + s }
	return []rprop{
		{n("plain"), t("v")},
		{n("hard"), t(hardText)},
		{n("bag"), &rval{Kind: rBag, Items: []*rval{t("a"), t("b")}}},
		{n("alt"), &rval{Kind: rAlt, Items: []*rval{{Text: "d", Lang: "x-default"}, {Text: "e", Lang: "en"}}}},
		{n("str"), &rval{Kind: rStruct, Props: []rprop{{n("f"), t("1")}, {y("g"), t("2")}}}},
		{n("deep"), &rval{Kind: rStruct, Props: []rprop{{n("f"), &rval{Kind: rSeq, Items: []*rval{{Kind: rStruct, Props: []rprop{{n("h"), t("3")}}}}}}}}},
		{y("plain"), t("w")},
		{"{" + gold.Namespaces["dc"] + "}unknown", t("x")},
		{"{" + gold.Namespaces["xmpDM"] + "}unknown", &rval{Kind: rStruct, Props: []rprop{{n("f"), t("1")}}}},
	}
}

func runC04(c *core.Ctx) {
	try := func(key string, ps []rprop, f rform, base string) {
		if c.Stop() {
			return
		}
		k := key + " " + f.String()
		var b []byte
		c.Case(k, func() interface{} { return map[string]string{"input": string(b)} }, func() string {
			b = writeRDF(ps, f, "uuid:1", "tk")
			c.Nontrivial(k)
			got := readState(b)
			c.Outcome(key + got)
			if len(b) < 900 {
				c.Sample(map[string]string{"form": f.String(), "input": string(b)})
			}
			if got != base {
				return diffState(base, got) + "\ninput: " + string(b)
			}
			return ""
		})
	}
	full := func(key string, ps []rprop) {
		base := readState(writeRDF(ps, rform{}, "uuid:1", "tk"))
		if strings.HasPrefix(base, "error") {
			try(key, ps, rform{}, "readable")
			return
		}
		v := make([]int, len(rformSizes))
		for {
			try(key, ps, formOf(v), base)
			i := 0
			for i < len(v) {
				v[i]++
				if v[i] < rformSizes[i] {
					break
				}
				v[i] = 0
				i++
			}
			if i == len(v) {
				return
			}
		}
	}
	each := func(key string, ps []rprop, pairs bool) {
		base := readState(writeRDF(ps, rform{}, "uuid:1", "tk"))
		if strings.HasPrefix(base, "error") {
			try(key, ps, rform{}, "readable")
			return
		}
		for i := range rformSizes {
			for x := 1; x < rformSizes[i]; x++ {
				v := make([]int, len(rformSizes))
				v[i] = x
				try(key, ps, formOf(v), base)
				if !pairs {
					continue
				}
				for j := i + 1; j < len(rformSizes); j++ {
					for y := 1; y < rformSizes[j]; y++ {
						v[j] = y
						try(key, ps, formOf(v), base)
						v[j] = 0
					}
				}
			}
		}
	}
	c.Bound("serialization_dimensions", rformSizes)
	c.Group("unknown")
	up := unknownProps()
	full("unknown all", up)
	for i := range up {
		each(fmt.Sprintf("unknown %s", up[i].Name), up[i:i+1], true)
		for j := range up {
			if j != i {
				each(fmt.Sprintf("unknown %s+%s", up[i].Name, up[j].Name), []rprop{up[i], up[j]}, false)
			}
		}
	}
	docSpace(c, "single", core.Pick(c, 1, 2), func(dc docCase) bool {
		a := dc.Assigns[0]
		ps, err := refProps(reflect.ValueOf(a.M.set(a.F, clone(a.V))).Elem())
		if err != nil || len(ps) == 0 {
			return true
		}
		each(dc.Key, ps, c.Thorough())
		return !c.Stop()
	})
	ms := allModels()
	for i := range ms {
		m := &ms[i]
		c.Group("all:" + m.Prefix)
		x := m.NS.NewModel()
		for _, fd := range m.Fields {
			if al := alphabet(fd.Type, 0); len(al) > 0 {
				m.put(x, fd, clone(al[0]))
			}
		}
		ps, err := refProps(reflect.ValueOf(x).Elem())
		if err != nil {
			continue
		}
		if c.Thorough() {
			full(m.Prefix+":all", ps)
		} else {
			each(m.Prefix+":all", ps, true)
		}
	}
}
