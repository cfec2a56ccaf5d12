# C25
exec(open('tools/seeds/more.py').read().split('# C02')[0]) if 'demo' not in globals() else None
MM='xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"'
def mm(body, imports=(), top=''): return demo(body,[G+'xmp_mm']+list(imports),top).replace('"'+G+'xmp_mm"',MM)
seed('C25-any','C25',[('models/xmp_mm/model.go','	v := x.GetLastVersion()\n\n	// make','	var v *StVersion\n	for _, o := range x.Versions {\n		if o.Version == x.VersionID {\n			v = o\n		}\n	}\n\n	// make'),('models/xmp_mm/model.go','	if v == nil || v.Version != x.VersionID {\n','	if v == nil {\n')],
mm('''	m := &xmpmm.XmpMM{VersionID: "1"}
	m.AppendVersionHistory("saved", "me", "/a", xmp.Date{})
	m.VersionID = "2"
	m.AppendVersionHistory("saved", "me", "/b", xmp.Date{})
	m.VersionID = "1"
	m.AppendVersionHistory("saved", "me", "/c", xmp.Date{})
	if len(m.Versions) != 3 || len(m.Versions[0].Event.Changed) != 1 || m.GetPreviousVersionId() != "2" {
		fail("%d versions, the first with %v", len(m.Versions), m.Versions[0].Event.Changed)
	}'''),'going back to an earlier version id','a change made under a version id used before is added to that earlier entry instead of a new last one')
seed('C25-pantry','C25',[('models/xmp_mm/model.go','	cpy := xmp.NewDocument()\n	cpy.Merge(d, xmp.MERGE)\n	node.Nodes = cpy.Nodes()\n','	node.Nodes = append(node.Nodes, d.Nodes()...)\n')],
mm('''	d := xmp.NewDocument()
	o, err := dc.MakeModel(d)
	check(err)
	o.Format = "before"
	m := &xmpmm.XmpMM{}
	m.AddPantry(d)
	o.Format = "after"
	e := xmp.NewDocument()
	_, err = e.AddModel(m)
	check(err)
	b, err := xmp.Marshal(e)
	check(err)
	if !strings.Contains(string(b), "before") || strings.Contains(string(b), "after") {
		fail("%s", b)
	}''',['strings',G+'dc']),'changing a document after it was put into a pantry','the pantry copy follows later changes of the document')
seed('C25-date','C25',[('models/xmp_mm/model.go','	if e := x.GetLastEvent(); e != nil {\n		ref.LastModifyDate = e.When\n	}\n','	for _, e := range x.History {\n		if e.When.Value().After(ref.LastModifyDate.Value()) {\n			ref.LastModifyDate = e.When\n		}\n	}\n')],
mm('''	m := &xmpmm.XmpMM{}
	a, err := xmp.ParseDate("2012-01-01T00:00:00Z")
	check(err)
	b, err := xmp.ParseDate("2011-01-01T00:00:00Z")
	check(err)
	m.AddHistory(&xmpmm.ResourceEvent{Action: "saved", When: a})
	m.AddHistory(&xmpmm.ResourceEvent{Action: "converted", When: b})
	if r := m.SelfResourceRef("1"); r.LastModifyDate != b {
		fail("%v", r.LastModifyDate)
	}'''),'events whose dates are not in order','a reference to the document itself has the latest date of all events, not that of its last event')
