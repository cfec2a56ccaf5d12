package checks

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{ID: "C09", Level: "exploration", Shards: 8, Run: runC09,
		Rule: "For every list path of every built-in model and of a user-defined model, and for lists of unknown properties and of extensions, every sequence of updates (append, unique, replace and create with and without index, delete an element or the list; thirteen flag combinations; two or three values; list lengths up to four) up to a bounded depth is run on the real code breadth first from empty and filled lists, beside a plain list (language alternatives: a map of languages; lists of structures: a list of maps). After every step all elements, the path listing and the rest of the document are compared.",
		Assumptions: []string{
			"Open: setting an element beyond the end of a list; append or unique on a language that is present; whether adding a present value with unique is reported as an error.",
		}})
}

// in is what the paths of all elements start with.
func (s *listSys) in() string {
	if strings.HasSuffix(s.p, "]") {
		return s.p + "/[" // a list in a list
	}
	return s.p + "["
}

// listSys explores one list path.
type listSys struct {
	name  string
	p     string // list path
	uri   string
	vals  []string
	mk    func(init int) (*xmp.Document, []string)
	ninit int
	max   int
	raw   bool // no updates without index while the list is empty

	d    *xmp.Document
	l    []string
	rest string
	ops  []listOp
}

type listOp struct {
	idx   int
	value string
	flags xmp.SyncFlags
}

func (s *listSys) Inits() []string {
	var l []string
	for i := 0; i < s.ninit; i++ {
		l = append(l, "init"+strconv.Itoa(i))
	}
	return l
}

func (s *listSys) Ops() []string {
	if s.ops == nil {
		for _, v := range s.vals {
			for _, f := range []xmp.SyncFlags{0, xmp.UNIQUE, xmp.UNIQUE | xmp.CREATE, xmp.APPEND, xmp.APPEND | xmp.CREATE, xmp.REPLACE, xmp.CREATE, xmp.CREATE | xmp.REPLACE, xmp.MERGE, xmp.EXTEND, xmp.APPEND | xmp.UNIQUE, xmp.APPEND | xmp.REPLACE} {
				s.ops = append(s.ops, listOp{-1, v, f})
			}
			for i := 0; i < s.max; i++ {
				for _, f := range []xmp.SyncFlags{0, xmp.CREATE, xmp.REPLACE, xmp.CREATE | xmp.REPLACE, xmp.EXTEND, xmp.MERGE, xmp.CREATE | xmp.APPEND, xmp.REPLACE | xmp.NOFAIL} {
					s.ops = append(s.ops, listOp{i, v, f})
				}
			}
		}
		for i := -1; i < s.max; i++ {
			for _, f := range []xmp.SyncFlags{0, xmp.DELETE, xmp.CREATE | xmp.REPLACE, xmp.EXTEND, xmp.DELETE | xmp.NOFAIL} {
				s.ops = append(s.ops, listOp{i, "", f})
			}
		}
	}
	var l []string
	for _, o := range s.ops {
		l = append(l, fmt.Sprintf("[%d]=%q %s", o.idx, short(o.value), flagNames(o.flags)))
	}
	return l
}

func (s *listSys) restOf() string {
	snap, err := snapshot(s.d)
	if err != nil {
		return err.Error()
	}
	var b strings.Builder
	for _, k := range sortedKeys(snap) {
		if !strings.HasPrefix(k, s.in()) && !pathTail(k, s.p) {
			b.WriteString(k + "=" + snap[k] + "\n")
		}
	}
	return b.String()
}

func (s *listSys) Reset(i int) {
	if s.d != nil {
		s.d.Close()
	}
	s.d, s.l = s.mk(i)
	s.rest = s.restOf()
}

func (s *listSys) Canon() string { return strings.Join(s.l, "\x00") + "|" + dumpDoc(s.d) }

func has(l []string, v string) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func (s *listSys) Apply(o int) string {
	op := s.ops[o]
	f := op.flags
	if f == 0 {
		f = xmp.DEFAULT
	}
	n := len(s.l)
	next := append([]string{}, s.l...)
	refused, open := false, false
	p := s.p
	if op.idx >= 0 {
		p = string(xmp.Path(p).AppendIndex(op.idx))
		if want := s.in() + strconv.Itoa(op.idx) + "]"; p != want {
			return fmt.Sprintf("path %s with index %d is %s", s.p, op.idx, p)
		}
	}
	switch {
	case op.value == "" && f&xmp.DELETE == 0:
		refused, open = true, op.idx >= n || n == 0
	case op.value == "" && op.idx < 0:
		next, open = nil, n == 0
	case op.value == "" && op.idx >= n:
		refused, open = true, true
	case op.value == "":
		next = append(next[:op.idx], next[op.idx+1:]...)
	case op.idx > n, op.idx >= s.max:
		return "" // open
	case op.idx >= 0 && op.idx == n:
		if refused = f&xmp.CREATE == 0; !refused {
			next = append(next, op.value)
		}
	case op.idx >= 0:
		if refused = f&xmp.REPLACE == 0 && next[op.idx] != op.value; !refused {
			next[op.idx] = op.value
		}
	case s.raw && n == 0:
		return "" // open: a value or a list
	case f&xmp.UNIQUE > 0 && has(next, op.value):
		refused, open = true, true
	case f&(xmp.UNIQUE|xmp.APPEND) > 0:
		if n >= s.max {
			return ""
		}
		next = append(next, op.value)
	case n == 0:
		if refused = f&xmp.CREATE == 0; !refused {
			next = []string{op.value}
		}
	case f&xmp.REPLACE > 0:
		next = []string{op.value}
	default:
		refused, open = true, next[0] == op.value
	}
	if op.idx < 0 && strings.HasSuffix(s.p, "]") {
		return "" // open: names an element of the outer list
	}
	err := s.d.SetPath(xmp.PathValue{Path: xmp.Path(p), Value: op.value, Namespace: s.uri, Flags: op.flags})
	if op.idx < 0 && op.value != "" && n == 0 && f&xmp.CREATE == 0 && f&(xmp.UNIQUE|xmp.APPEND) > 0 {
		// open: append to a list that does not exist
		if open = true; err != nil {
			next = nil
		}
	}
	if f&xmp.NOFAIL > 0 {
		if err != nil {
			return fmt.Sprintf("list %q: nofail returns %v", s.l, err)
		}
	} else if !open && refused != (err != nil) {
		return fmt.Sprintf("list %q: error is %v", s.l, err)
	}
	old := s.l
	s.l = next
	for i := 0; i <= s.max; i++ {
		v, err := s.d.GetPath(xmp.Path(s.in() + strconv.Itoa(i) + "]"))
		switch {
		case i < len(next) && err != nil:
			return fmt.Sprintf("list %q should be %q: reading [%d]: %v", old, next, i, err)
		case i < len(next) && v != next[i]:
			return fmt.Sprintf("list %q should be %q: [%d] is %q", old, next, i, v)
		case i >= len(next) && v != "":
			return fmt.Sprintf("list %q should be %q: [%d] is %q", old, next, i, v)
		}
	}
	snap, err := snapshot(s.d)
	if err != nil {
		return err.Error()
	}
	cnt := 0
	for k := range snap {
		if strings.HasPrefix(k, s.in()) {
			cnt++
		}
	}
	if !s.raw && cnt != len(next) {
		return fmt.Sprintf("list %q should be %q: it has %d elements", old, next, cnt)
	}
	l, err := purePaths(s.d)
	if err != nil {
		return err.Error()
	}
	cnt = 0
	for _, x := range l {
		if strings.HasPrefix(x.Path, s.in()) {
			cnt++
			i, err := strconv.Atoi(strings.TrimSuffix(x.Path[len(s.in()):], "]"))
			if err != nil || i >= len(next) || next[i] != x.Value {
				return fmt.Sprintf("list %q should be %q: listed is %s = %q", old, next, x.Path, x.Value)
			}
		} else if x.Path == s.p {
			return fmt.Sprintf("list %q should be %q: listed is %s = %q", old, next, x.Path, x.Value)
		}
	}
	if cnt != len(next) {
		return fmt.Sprintf("list %q should be %q: %d elements are listed", old, next, cnt)
	}
	if r := s.restOf(); r != s.rest {
		return fmt.Sprintf("list %q, set %s: the rest of the document was\n%s and is\n%s", old, p, s.rest, r)
	}
	return ""
}

// withRest is a document with all properties of a model but one.
func withRest(m *model, but string, small bool) docCase {
	var dc docCase
	n := 0
	for i := range m.Fields {
		f := m.Fields[i]
		if f.Name == but || strings.HasPrefix(but, f.Name+"/") || strings.HasPrefix(but, f.Name+"[") {
			continue
		}
		if a := alphabet(f.Type, 0); len(a) > 0 {
			if n++; small && n > 12 {
				break
			}
			dc.Assigns = append(dc.Assigns, assign{m, f, a[0]})
		}
	}
	return dc
}

func runC09(c *core.Ctx) {
	// lists of simple values of built-in models
	type lst struct {
		p    string
		m    *model
		vals []string
	}
	lists := map[string]*lst{}
	var order []string
	docSpace(c, "single", 2, func(dc docCase) bool {
		a := dc.Assigns[0]
		d, ms, err := dc.build()
		if err != nil {
			return true
		}
		defer d.Close()
		l, err := refPaths(reflect.ValueOf(ms[a.M.Prefix]).Elem(), "")
		if err != nil {
			return true
		}
		for _, x := range l {
			i := strings.LastIndexByte(x.Path, '[')
			if i < 0 || !strings.HasSuffix(x.Path, "]") {
				continue
			}
			if _, err := strconv.Atoi(x.Path[i+1 : len(x.Path)-1]); err != nil {
				continue
			}
			p := x.Path[:i]
			if p == "tiff:YCbCrSubSampling" {
				continue // two numbers, not a list
			}
			if lists[p] == nil {
				lists[p] = &lst{p: p, m: a.M}
				order = append(order, p)
			}
			if v := lists[p]; !has(v.vals, x.Value) && len(v.vals) < core.Pick(c, 2, 3) {
				v.vals = append(v.vals, x.Value)
			}
		}
		return true
	})
	c.Bound("list paths", len(order))
	like := map[string]int{}
	for _, p := range order {
		l := lists[p]
		seg := strings.Split(p, "/")
		k := l.m.Prefix + seg[len(seg)-1]
		if like[k]++; len(seg) > 2 && like[k] > 2 && !c.Thorough() {
			continue
		}
		if len(l.vals) < 2 {
			if l.vals[0] == "x" {
				continue
			}
			// a list whose elements have one sample text only: try a second
			l.vals = append(l.vals, l.vals[0])[:1]
		}
		if !c.Mine() {
			continue
		}
		base := withRest(l.m, p, true)
		sys := &listSys{name: p, p: p, vals: l.vals, ninit: 2, max: core.Pick(c, 3, 4)}
		sys.mk = func(init int) (*xmp.Document, []string) {
			d, _, err := base.build()
			if err != nil {
				panic(err)
			}
			if len(base.Assigns) == 0 {
				if _, err := d.AddModel(l.m.NS.NewModel()); err != nil {
					panic(err)
				}
			}
			var cur []string
			for i := 0; i < 2*init && i < sys.max; i++ {
				v := l.vals[i%len(l.vals)]
				if err := d.SetPath(xmp.PathValue{Path: xmp.Path(p).AppendIndex(i), Value: v, Flags: xmp.CREATE}); err != nil {
					panic(err)
				}
				cur = append(cur, v)
			}
			return d, cur
		}
		c.BFS("list "+p, sys, core.Pick(c, 3, 4))
	}
	// lists of the user-defined model, of unknown properties and in extensions
	tm := func() *xmp.Document {
		d := xmp.NewDocument()
		x := &TM{S: "s", L: xmp.StringArray{"k"}, Q: xmp.StringList{"k"}, LI: xmp.IntList{9}, St: tmSub{X: "q", L: xmp.StringList{"k"}}, LS: tmSubList{{X: "z", L: xmp.StringList{"k"}}}, LP: tmPtrList{{Y: 4}}, M: map[string]string{"a": "b"}, Alt: xmp.NewAltString("t")}
		if _, err := d.AddModel(x); err != nil {
			panic(err)
		}
		return d
	}
	raw := func(s string) func() *xmp.Document {
		return func() *xmp.Document {
			d := xmp.NewDocument()
			if err := xmp.Unmarshal([]byte(`<x:xmpmeta xmlns:x="`+nsX+`"><rdf:RDF xmlns:rdf="`+nsRDF+`"><rdf:Description xmlns:mine="`+nsMine+`" xmlns:yours="`+nsYours+`" xmlns:dc="`+gold.Namespaces["dc"]+`" xmlns:xmpMM="`+gold.Namespaces["xmpMM"]+`" xmlns:xmp="`+gold.Namespaces["xmp"]+`" mine:other="o" yours:l="o">`+s+`</rdf:Description></rdf:RDF></x:xmpmeta>`), d); err != nil {
				panic(err)
			}
			return d
		}
	}
	ab := []string{"a", "b", "c"}
	for _, s := range []*listSys{
		{p: "tm:l", vals: ab}, {p: "tm:q", vals: ab}, {p: "tm:li", vals: []string{"1", "-2", "3"}}, {p: "tm:st/l", vals: ab}, {p: "tm:pst/l", vals: ab}, {p: "tm:ls[0]/l", vals: ab}, {p: "tm:lp[0]/l", vals: ab},
	} {
		s := s
		s.ninit, s.max = 3, core.Pick(c, 3, 4)
		if !c.Mine() {
			continue
		}
		s.mk = func(init int) (*xmp.Document, []string) {
			d := tm()
			if err := d.SetPath(xmp.PathValue{Path: xmp.Path(s.p), Flags: xmp.DELETE}); err != nil {
				panic(err)
			}
			var cur []string
			for i := 0; i < init; i++ {
				if err := d.SetPath(xmp.PathValue{Path: xmp.Path(s.p).AppendIndex(i), Value: s.vals[i], Flags: xmp.CREATE}); err != nil {
					panic(err)
				}
				cur = append(cur, s.vals[i])
			}
			return d, cur
		}
		c.BFS("user "+s.p, s, core.Pick(c, 3, 4))
	}
	for _, form := range []string{"Bag", "Seq"} {
		items := func(n int) string {
			t := ""
			for i := 0; i < n; i++ {
				t += "<rdf:li>" + ab[i] + "</rdf:li>"
			}
			return "<rdf:" + form + ">" + t + "</rdf:" + form + ">"
		}
		for _, x := range []struct{ p, pre, post string }{
			{"mine:l", "<mine:l>", "</mine:l>"},
			{"dc:unknownList", "<dc:format>f</dc:format><dc:unknownList>", "</dc:unknownList><dc:subject><rdf:Bag><rdf:li>q</rdf:li></rdf:Bag></dc:subject>"},
			{"mine:s/l", `<mine:s rdf:parseType="Resource"><mine:k>k</mine:k><mine:l>`, "</mine:l></mine:s>"},
			{"mine:s/yours:l", `<mine:s rdf:parseType="Resource"><mine:l>k</mine:l><yours:l>`, "</yours:l></mine:s>"},
			{"xmpMM:Pantry[0]/dc:subject", `<xmpMM:Pantry><rdf:Bag><rdf:li rdf:parseType="Resource"><dc:subject>`, `</dc:subject><dc:format>f</dc:format></rdf:li></rdf:Bag></xmpMM:Pantry>`},
			{"xmpMM:Pantry[1]/mine:l", `<xmpMM:Pantry><rdf:Bag><rdf:li rdf:parseType="Resource"><mine:l>k</mine:l></rdf:li><rdf:li rdf:parseType="Resource"><dc:format>f</dc:format><mine:l>`, `</mine:l></rdf:li></rdf:Bag></xmpMM:Pantry>`},
			{"mine:l[2]", "<mine:l><rdf:Seq><rdf:li>k</rdf:li><rdf:li><rdf:Bag><rdf:li>m</rdf:li><rdf:li>n</rdf:li></rdf:Bag></rdf:li><rdf:li>", "</rdf:li></rdf:Seq></mine:l>"},
			{"mine:l[1]", "<mine:l><rdf:Bag><rdf:li>k</rdf:li><rdf:li>", "</rdf:li><rdf:li><rdf:Seq><rdf:li>m</rdf:li></rdf:Seq></rdf:li></rdf:Bag></mine:l>"},
			{"mine:l[0]/[0]", "<mine:l><rdf:Bag><rdf:li><rdf:Seq><rdf:li>", "</rdf:li><rdf:li>m</rdf:li></rdf:Seq></rdf:li><rdf:li>k</rdf:li></rdf:Bag></mine:l>"},
			{"mine:l", "<mine:m><rdf:Bag><rdf:li>m</rdf:li></rdf:Bag></mine:m><mine:l>", "</mine:l>"},
		} {
			x := x
			if form == "Seq" && strings.HasSuffix(x.p, "subject") {
				continue
			}
			s := &listSys{p: x.p, vals: ab, ninit: 2, max: core.Pick(c, 3, 4), raw: true}
			if !c.Mine() {
				continue
			}
			s.mk = func(init int) (*xmp.Document, []string) {
				return raw(x.pre + items(init+1) + x.post)(), append([]string{}, ab[:init+1]...)
			}
			c.BFS("unknown "+form+" "+x.p+" "+x.pre, s, core.Pick(c, 3, 4))
		}
	}
	runC09Alt(c, raw)
	runC09Structs(c, raw)
}
