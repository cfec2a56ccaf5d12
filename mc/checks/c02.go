package checks

import (
	"fmt"
	"strings"

	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{ID: "C02", Level: "exploration", Shards: 8, Run: runC02,
		Rule: "Every document of the bounded space (each registered model; each property with every value of its type's alphabet; all properties at once and all but one; every pair of properties of a model; every pair of models; thorough also every pair of properties across models) is marshaled by the real encoder and unmarshaled by the real decoder; every set property must come back with an equal value and nothing else may come up. The same values are embedded in the xmpMM pantry of another document. A case is non-trivial when the document it writes is distinct.",
		Assumptions: []string{
			"Values outside the per-type alphabets behave like those in it; texts have no leading or trailing white space and only characters XML allows.",
			"Properties of different models that mean the same (listed in links.go) may fill each other while writing or reading; the value of a property that is tied to another one set in the same case is decided by C22 instead.",
			"A property a model declares under a foreign name space is compared through the rewritten RDF, because reading may put it into the model that owns the name.",
		}})
}

// fieldValues lists the set fields of a model: "prefix.Field" -> value.
func fieldValues(m *model, x xmp.Model) map[string]string {
	out := map[string]string{}
	for _, f := range m.Fields {
		if s := dumpV(m.get(x, f)); s != "" {
			out[m.Prefix+"."+f.Go] = s
		}
	}
	return out
}

func docValues(d *xmp.Document) map[string]string { return nodeValues(d.Nodes()) }

func nodeValues(l xmp.NodeList) map[string]string {
	out := map[string]string{}
	for _, n := range l {
		if n.Model == nil {
			continue
		}
		if m := modelByPrefix(n.XMLName.Local); m != nil {
			for k, v := range fieldValues(m, n.Model) {
				out[k] = v
			}
		}
	}
	return out
}

// note is set while exploring: it records what a case wrote.
var note = func(dc docCase, b []byte) {}

func noteTo(c *core.Ctx) {
	note = func(dc docCase, b []byte) {
		c.Nontrivial(dc.Key)
		c.Outcome(string(b))
		if len(dc.Assigns) > 1 && len(b) < 1200 {
			c.Sample(map[string]interface{}{"case": dc.replay(), "written": string(b)})
		}
	}
}

func roundTrip(dc docCase) string {
	d, ms, err := dc.build()
	if err != nil {
		return err.Error()
	}
	b, err := xmp.Marshal(d)
	if err != nil {
		return "marshal: " + err.Error()
	}
	note(dc, b)
	if len(ms) == 1 {
		for _, a := range dc.Assigns {
			if g, w := dumpV(a.M.get(ms[a.M.Prefix], a.F)), dumpV(a.V); g != w {
				return fmt.Sprintf("marshal changed %s from %s to %s", a.name(), w, g)
			}
		}
	}
	want := docValues(d)
	d2 := xmp.NewDocument()
	if err := xmp.Unmarshal(b, d2); err != nil {
		return "unmarshal: " + err.Error() + "\n" + string(b)
	}
	got := docValues(d2)
	var foreign []assign
	seen := map[string]bool{}
	for _, a := range dc.Assigns {
		seen[a.name()] = true
		if !a.native() {
			foreign = append(foreign, a)
			continue
		}
		if w := want[a.name()]; got[a.name()] != w {
			if dc.ties(a.name()) {
				continue // two tied properties were set to different values
			}
			return fmt.Sprintf("%s: wrote %s read %s\n%s", a.name(), w, got[a.name()], b)
		}
	}
	if len(foreign) > 0 {
		b2, err := xmp.Marshal(d2)
		if err != nil {
			return "marshal of the read document: " + err.Error()
		}
		r1, err := parseRDF(b)
		if err != nil {
			return err.Error()
		}
		r2, err := parseRDF(b2)
		if err != nil {
			return err.Error()
		}
		for _, a := range foreign {
			n, err := goldName(a.F.Name)
			if err != nil {
				return err.Error()
			}
			if x, y := r1.all(n), r2.all(n); x != y {
				if dc.ties(a.name()) {
					continue
				}
				return fmt.Sprintf("%s (%s): wrote %s, after reading it is %s\n%s", a.name(), n, x, y, b)
			}
		}
	}
	// nothing else may come up, except properties tied to a set one
	for _, l := range []map[string]string{want, got} {
		for k := range l {
			if seen[k] || dc.ties(k) || l[k] == defaults()[k] {
				continue
			}
			return fmt.Sprintf("%s was not set but is %s\n%s", k, l[k], b)
		}
	}
	return ""
}

// ties says whether a property is tied to another one the case sets.
func (dc docCase) ties(name string) bool {
	if len(linkOf[name]) == 0 {
		return false
	}
	for _, a := range dc.Assigns {
		if n := a.name(); n != name && linked(n, name) {
			return true
		}
	}
	return false
}

// all renders every occurrence of a property.
func (d *rdoc) all(n string) string {
	var l []string
	for _, p := range d.Props {
		if p.Name == n {
			l = append(l, p.Val.String())
		}
	}
	return strings.Join(l, " AND ")
}

func runC02(c *core.Ctx) {
	noteTo(c)
	c.Bound("models", len(allModels()))
	c.Bound("value_alphabet_depth", 2)
	c.Bound("properties_set_together", "1, 2 and all of a model; all of 2 models")
	docSpace(c, core.Pick(c, "single all pair models", "single all pair models cross"), 2, func(dc docCase) bool {
		return c.Case(dc.Key, dc.replay, func() string {
			return roundTrip(dc)
		})
	})
	docSpace(c, "single all models", core.Pick(c, 1, 2), func(dc docCase) bool {
		return c.Case("pantry "+dc.Key, dc.replay, func() string { return pantryTrip(dc) })
	})
}

var defaultsMap map[string]string

// defaults are the values a new model starts with.
func defaults() map[string]string {
	if defaultsMap == nil {
		defaultsMap = map[string]string{}
		ms := allModels()
		for i := range ms {
			for k, v := range fieldValues(&ms[i], ms[i].NS.NewModel()) {
				defaultsMap[k] = v
			}
		}
	}
	return defaultsMap
}

// pantryTrip embeds a document in the pantry of another one and reads it back.
func pantryTrip(dc docCase) string {
	in, _, err := dc.build()
	if err != nil {
		return err.Error()
	}
	mm := &xmpmm.XmpMM{DocumentID: xmp.GUID("xmp.did:outer")}
	mm.AddPantry(in)
	out := xmp.NewDocument()
	if _, err := out.AddModel(mm); err != nil {
		return err.Error()
	}
	b, err := xmp.Marshal(out)
	if err != nil {
		return "marshal: " + err.Error()
	}
	want := nodeValues(mm.Pantry[0].Nodes)
	d2 := xmp.NewDocument()
	if err := xmp.Unmarshal(b, d2); err != nil {
		return "unmarshal: " + err.Error() + "\n" + string(b)
	}
	m2 := xmpmm.FindModel(d2)
	if m2 == nil || len(m2.Pantry) != 1 {
		return "the pantry was not read back\n" + string(b)
	}
	got := nodeValues(m2.Pantry[0].Nodes)
	for _, a := range dc.Assigns {
		if a.native() && got[a.name()] != want[a.name()] {
			return fmt.Sprintf("embedded %s: wrote %s read %s\n%s", a.name(), want[a.name()], got[a.name()], b)
		}
	}
	return ""
}
