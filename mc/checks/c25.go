package checks

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/trimmer-io/go-xmp/models/dc"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{
		ID: "C25", Level: "model_checking", Shards: 8,
		Rule: "Every sequence of media management operations up to a depth (new version ids and instance ids, recorded changes, versions and events added by hand, references to the document itself, pantry copies of other documents, changes of those documents, writing and reading the document as XML and JSON) runs on a real document beside a plain record of what was recorded; after each operation the whole history, the last and previous versions, the last event, the references and the pantry are compared with the record. Non-trivial: a state not reached before.",
		Assumptions: []string{
			"Version ids, parts and dates beyond the alphabet behave like those in it.",
			"What the modifier and date of a change are for when it is added to an existing version, and which version SetPreviousVersionId sets, is left open.",
		},
		Run: runC25,
	})
}

// mmVersion is the record of one version.
type mmVersion struct {
	version, comment, action, modifier, modified, instance, agent, when string
	changed                                                             []string
}

func (v mmVersion) String() string {
	return fmt.Sprintf("{%q %q %q by %q on %q in %q with %q at %q: %q}", v.version, v.comment, v.action, v.modifier, v.modified, v.instance, v.agent, v.when, v.changed)
}

type mmSys struct {
	d *xmp.Document
	m *xmpmm.XmpMM

	// the record
	versions []mmVersion
	events   []string
	refs     []string
	derived  string
	pantry   []string
	id       map[string]string
	version  string
	instance string

	// the other document
	other *xmp.Document
	title string

	ops []mmOp
}

type mmOp struct {
	name string
	run  func(s *mmSys) string
}

var mmDates = func() (l [3]xmp.Date) {
	for i, t := range []string{"", "2001-02-03T04:05:06Z", "2012-11-10T09:08:07+01:00"} {
		if t != "" {
			if err := l[i].UnmarshalText([]byte(t)); err != nil {
				panic(err)
			}
		}
	}
	return
}()

func mmDate(d xmp.Date) string {
	if d.IsZero() {
		return ""
	}
	return d.Value().UTC().Format("2006-01-02T15:04:05")
}

func mmPart(p string) string { return strings.Trim(p, "/") }

func mmVersionOf(v *xmpmm.StVersion) string {
	if v == nil {
		return "none"
	}
	r := mmVersion{version: v.Version, comment: v.Comments, action: string(v.Event.Action), modifier: v.Modifier, modified: mmDate(v.ModifyDate), instance: v.Event.InstanceID.String(), agent: string(v.Event.SoftwareAgent), when: mmDate(v.Event.When)}
	for _, p := range v.Event.Changed {
		r.changed = append(r.changed, mmPart(p.Path))
	}
	return r.String()
}

func mmEvent(e *xmpmm.ResourceEvent) string {
	if e == nil {
		return "none"
	}
	s := fmt.Sprintf("{%s %s %s %s %s", e.Action, e.InstanceID, e.Parameters, e.SoftwareAgent, mmDate(e.When))
	for _, p := range e.Changed {
		s += " " + mmPart(p.Path)
	}
	return s + "}"
}

func mmRef(r *xmpmm.ResourceRef) string {
	if r == nil {
		return "none"
	}
	if len(r.AlternatePaths) > 0 || r.FilePath != "" || r.FromPart != nil || r.PartMapping != "" || r.ToPart != nil {
		return fmt.Sprintf("more than the document's own: %+v", *r)
	}
	return mmRefText(map[string]string{
		"original": r.OriginalDocumentID.String(), "document": r.DocumentID.String(), "manager": string(r.Manager),
		"variant": r.ManagerVariant, "to": string(r.ManageTo), "ui": string(r.ManageUI), "class": string(r.RenditionClass), "params": r.RenditionParams,
	}, r.InstanceID.String(), r.VersionID, mmDate(r.LastModifyDate), string(r.MaskMarkers))
}

func mmRefText(id map[string]string, instance, version, modified, mask string) string {
	return fmt.Sprintf("{%v %q %q %q %q}", id, instance, version, modified, mask)
}

var mmFull = map[string]string{"original": "uuid:orig", "document": "uuid:doc", "manager": "Man Ager 1.0", "variant": "var", "to": "http://to/x", "ui": "http://ui/y", "class": "proof:pdf", "params": "par ams"}

func (s *mmSys) selfRef(version string) string {
	last := ""
	if n := len(s.events); n > 0 {
		last = s.events[n-1]
		last = last[strings.LastIndex(last, "|")+1:]
	}
	return mmRefText(s.id, s.instance, version, last, "None")
}

func (s *mmSys) record(action, modifier, changed string, date int) {
	s.m.AppendVersionHistory(xmpmm.ActionType(action), modifier, changed, mmDates[date])
	if n := len(s.versions); n > 0 && s.versions[n-1].version == s.version {
		v := &s.versions[n-1]
		v.changed = append(append([]string{}, v.changed...), mmPart(changed))
		return
	}
	d := mmDate(mmDates[date])
	s.versions = append(s.versions, mmVersion{version: s.version, action: action, modifier: modifier, modified: d, instance: s.instance, agent: string(xmp.Agent), when: d, changed: []string{mmPart(changed)}})
}

func newMmSys() *mmSys {
	s := &mmSys{}
	op := func(name string, f func(s *mmSys) string) { s.ops = append(s.ops, mmOp{name, f}) }
	for _, v := range []string{"", "1", "2"} {
		v := v
		op("version id "+v, func(s *mmSys) string { s.m.VersionID, s.version = v, v; return "" })
	}
	op("instance id", func(s *mmSys) string { s.m.InstanceID, s.instance = xmp.GUID("uuid:second"), "uuid:second"; return "" })
	op("saved /a/b", func(s *mmSys) string { s.record("saved", "me", "/a/b", 1); return "" })
	op("edited c", func(s *mmSys) string { s.record("edited", "you", "c", 2); return "" })
	op("AddVersion 1", func(s *mmSys) string {
		s.m.AddVersion(&xmpmm.StVersion{Version: "1", Comments: "by hand", ModifyDate: mmDates[2]})
		s.versions = append(s.versions, mmVersion{version: "1", comment: "by hand", modified: mmDate(mmDates[2])})
		return ""
	})
	for i, e := range []xmpmm.ResourceEvent{
		{Action: xmpmm.ActionCopied, InstanceID: "uuid:e", When: mmDates[1], Parameters: "to x"},
		{Action: xmpmm.ActionPrinted, Changed: xmpdm.NewPartList("p", "q"), SoftwareAgent: "Soft", When: mmDates[2]},
	} {
		i, e := i, e
		op(fmt.Sprint("AddHistory ", i), func(s *mmSys) string {
			e := e
			e.Changed = append(xmpdm.PartList(nil), e.Changed...)
			s.m.AddHistory(&e)
			s.events = append(s.events, mmEvent(&e)+"|"+mmDate(e.When))
			return ""
		})
	}
	op("ingredient", func(s *mmSys) string {
		s.m.Ingredients = append(s.m.Ingredients, s.m.SelfResourceRef("7"))
		s.refs = append(s.refs, s.selfRef("7"))
		return ""
	})
	op("derived from", func(s *mmSys) string {
		s.m.DerivedFrom = s.m.SelfResourceRef("")
		s.derived = s.selfRef("")
		return ""
	})
	op("pantry", func(s *mmSys) string {
		s.m.AddPantry(s.other)
		s.pantry = append(s.pantry, s.title)
		return ""
	})
	op("other document", func(s *mmSys) string {
		s.title += "x"
		m := dc.FindModel(s.other)
		m.Title.AddDefault("", s.title)
		m.Subject = append(m.Subject, s.title)
		return ""
	})
	op("another document", func(s *mmSys) string {
		s.other.Close()
		s.start()
		return ""
	})
	for _, f := range []string{"XML", "JSON"} {
		f := f
		op(f, func(s *mmSys) string {
			var b []byte
			var err error
			if f == "XML" {
				b, err = xmp.Marshal(s.d)
			} else {
				b, err = json.Marshal(s.d)
			}
			if err != nil {
				return err.Error()
			}
			d := xmp.NewDocument()
			if f == "XML" {
				err = xmp.Unmarshal(b, d)
			} else {
				err = json.Unmarshal(b, d)
			}
			if err != nil {
				return err.Error()
			}
			s.d.Close()
			s.d = d
			if s.m, err = xmpmm.MakeModel(d); err != nil {
				return err.Error()
			}
			return ""
		})
	}
	return s
}

func (s *mmSys) Ops() (l []string) {
	for _, o := range s.ops {
		l = append(l, o.name)
	}
	return
}

func (s *mmSys) Inits() []string { return []string{"empty", "identity"} }

func (s *mmSys) Reset(i int) {
	if s.d != nil {
		s.d.Close()
		s.other.Close()
	}
	s.versions, s.events, s.refs, s.derived, s.pantry = nil, nil, nil, "none", nil
	s.version, s.instance = "", ""
	s.id = map[string]string{"original": "", "document": "", "manager": "", "variant": "", "to": "", "ui": "", "class": "", "params": ""}
	s.d = xmp.NewDocument()
	var err error
	if s.m, err = xmpmm.MakeModel(s.d); err != nil {
		panic(err)
	}
	s.start()
	if i == 1 {
		m := s.m
		s.id = mmFull
		m.OriginalDocumentID, m.DocumentID, m.Manager, m.ManagerVariant = "uuid:orig", "uuid:doc", "Man Ager 1.0", "var"
		m.ManageTo, m.ManageUI, m.RenditionClass, m.RenditionParams = "http://to/x", "http://ui/y", "proof:pdf", "par ams"
		m.InstanceID, s.instance = "uuid:first", "uuid:first"
		m.VersionID, s.version = "1", "1"
	}
}

// start begins another document.
func (s *mmSys) start() {
	s.other, s.title = xmp.NewDocument(), "t"
	o, err := dc.MakeModel(s.other)
	if err != nil {
		panic(err)
	}
	o.Title.AddDefault("", "t")
	o.Subject = xmp.StringArray{"t"}
}

func (s *mmSys) Canon() string {
	return fmt.Sprint(s.versions, s.events, s.refs, s.derived, s.pantry, s.version, s.instance, s.title, len(s.id["document"]))
}

func (s *mmSys) Apply(op int) string {
	if msg := s.ops[op].run(s); msg != "" {
		return msg
	}
	return s.check()
}

func (s *mmSys) check() string {
	m := s.m
	var versions, events, refs, pantry []string
	for _, v := range m.Versions {
		versions = append(versions, mmVersionOf(v))
	}
	for _, e := range m.History {
		events = append(events, mmEvent(e))
	}
	for _, r := range m.Ingredients {
		refs = append(refs, mmRef(r))
	}
	for _, p := range m.Pantry {
		pantry = append(pantry, mmPantry(p))
	}
	var wv, we, wp []string
	for _, v := range s.versions {
		wv = append(wv, v.String())
	}
	for _, e := range s.events {
		we = append(we, e[:strings.LastIndex(e, "|")])
	}
	for _, t := range s.pantry {
		wp = append(wp, mmPantryText(t))
	}
	at := func(l []string, i int) string {
		if i < 0 {
			return "none"
		}
		return l[i]
	}
	lastID, prevID := "", ""
	if n := len(s.versions); n > 0 {
		lastID = s.versions[n-1].version
		if n > 1 {
			prevID = s.versions[n-2].version
		}
	}
	id := map[string]string{
		"original": m.OriginalDocumentID.String(), "document": m.DocumentID.String(), "manager": string(m.Manager),
		"variant": m.ManagerVariant, "to": string(m.ManageTo), "ui": string(m.ManageUI), "class": string(m.RenditionClass), "params": m.RenditionParams,
	}
	for _, x := range []struct{ what, got, want string }{
		{"versions", fmt.Sprint(versions), fmt.Sprint(wv)},
		{"events", fmt.Sprint(events), fmt.Sprint(we)},
		{"ingredients", fmt.Sprint(refs), fmt.Sprint(s.refs)},
		{"pantry", fmt.Sprint(pantry), fmt.Sprint(wp)},
		{"derived from", mmRef(m.DerivedFrom), s.derived},
		{"last version", mmVersionOf(m.GetLastVersion()), at(wv, len(wv)-1)},
		{"previous version", mmVersionOf(m.GetPreviousVersion()), at(wv, len(wv)-2)},
		{"last version id", m.GetLastVersionId(), lastID},
		{"previous version id", m.GetPreviousVersionId(), prevID},
		{"last event", mmEvent(m.GetLastEvent()), at(we, len(we)-1)},
		{"version id", m.VersionID, s.version},
		{"instance id", m.InstanceID.String(), s.instance},
		{"identity", fmt.Sprint(id), fmt.Sprint(s.id)},
		{"self", mmRef(m.SelfResourceRef("self")), s.selfRef("self")},
	} {
		if x.got != x.want {
			return fmt.Sprintf("%s: %s, expected %s", x.what, x.got, x.want)
		}
	}
	return ""
}

// mmPantry gives the title and subjects a pantry copy holds, as a model or as
// plain nodes.
func mmPantry(p *xmp.Extension) string {
	n := (*xmp.Node)(p)
	var title string
	var subject []string
	var walk func(n *xmp.Node)
	walk = func(n *xmp.Node) {
		if m, ok := n.Model.(*dc.DublinCore); ok && m != nil {
			title = m.Title.Default()
			subject = m.Subject
		}
		for _, c := range n.Nodes {
			switch c.FullName() {
			case "dc:title":
				title = mmText(c)[0]
			case "dc:subject":
				subject = mmText(c)
			default:
				walk(c)
			}
		}
	}
	walk(n)
	return fmt.Sprintf("{%q %q}", title, subject)
}

func mmText(n *xmp.Node) (l []string) {
	if n.Value != "" {
		l = append(l, n.Value)
	}
	for _, c := range n.Nodes {
		l = append(l, mmText(c)...)
	}
	return l
}

// mmPantryText is what a pantry copy of the other document with this title
// holds.
func mmPantryText(title string) string {
	var subject []string
	for i := range title {
		subject = append(subject, title[:i+1])
	}
	return fmt.Sprintf("{%q %q}", title, subject)
}

// mmFrom explores from a state reached by one operation.
type mmFrom struct {
	*mmSys
	first int
}

func (s mmFrom) Inits() []string {
	var l []string
	for _, i := range s.mmSys.Inits() {
		l = append(l, i+", "+s.ops[s.first].name)
	}
	return l
}

func (s mmFrom) Reset(i int) {
	s.mmSys.Reset(i)
	if msg := s.Apply(s.first); msg != "" {
		panic(msg)
	}
}

func runC25(c *core.Ctx) {
	n := len(newMmSys().ops)
	c.Bound("depth", core.Pick(c, 4, 5)+1)
	c.Bound("operations", n)
	for i := 0; i < n; i++ {
		if c.Mine() {
			c.BFS("history", mmFrom{newMmSys(), i}, core.Pick(c, 4, 5))
		}
	}
}
