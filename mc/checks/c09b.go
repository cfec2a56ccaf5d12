package checks

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

// altSys explores one language alternative by path.
type altSys struct {
	raw   bool
	p     string
	inits []map[string]string
	mk    func(init map[string]string) *xmp.Document
	vals  []string

	d    *xmp.Document
	m    map[string]string // by language
	rest string
	ops  []altOp
}

type altOp struct {
	lang, value string
	flags       xmp.SyncFlags
}

func (s *altSys) Inits() []string {
	var l []string
	for _, m := range s.inits {
		l = append(l, fmt.Sprint(m))
	}
	return l
}

func (s *altSys) Ops() []string {
	if s.ops == nil {
		for _, lang := range []string{"", "x-default", "en", "de-AT"} {
			for _, v := range s.vals {
				for _, f := range []xmp.SyncFlags{0, xmp.UNIQUE | xmp.CREATE, xmp.APPEND, xmp.REPLACE, xmp.CREATE, xmp.CREATE | xmp.REPLACE, xmp.MERGE, xmp.EXTEND, xmp.REPLACE | xmp.NOFAIL} {
					s.ops = append(s.ops, altOp{lang, v, f})
				}
			}
			for _, f := range []xmp.SyncFlags{0, xmp.DELETE, xmp.CREATE | xmp.REPLACE, xmp.DELETE | xmp.NOFAIL} {
				s.ops = append(s.ops, altOp{lang, "", f})
			}
		}
	}
	var l []string
	for _, o := range s.ops {
		l = append(l, fmt.Sprintf("[%s]=%q %s", o.lang, o.value, flagNames(o.flags)))
	}
	return l
}

func (s *altSys) restOf() string {
	snap, err := snapshot(s.d)
	if err != nil {
		return err.Error()
	}
	var b strings.Builder
	for _, k := range sortedKeys(snap) {
		if !strings.HasPrefix(k, s.p+"[") && !pathTail(k, s.p) {
			b.WriteString(k + "=" + snap[k] + "\n")
		}
	}
	return b.String()
}

func (s *altSys) Reset(i int) {
	if s.d != nil {
		s.d.Close()
	}
	s.d = s.mk(s.inits[i])
	s.m = map[string]string{}
	for k, v := range s.inits[i] {
		s.m[k] = v
	}
	s.rest = s.restOf()
}

func (s *altSys) Canon() string { return fmt.Sprint(s.m) + dumpDoc(s.d) }

func (s *altSys) Apply(o int) string {
	op := s.ops[o]
	f := op.flags
	if f == 0 {
		f = xmp.DEFAULT
	}
	lang := op.lang
	next := map[string]string{}
	for k, v := range s.m {
		next[k] = v
	}
	_, hasDef := s.m["x-default"]
	cur, present := s.m[lang]
	refused, open := false, false
	p := s.p
	if lang != "" {
		p += "[" + lang + "]"
	} else {
		cur, present = s.m["x-default"]
	}
	switch {
	case len(s.m) > 0 && !hasDef:
		return "" // only from the state without a default on, which nothing reaches
	case s.raw && len(s.m) == 0 && lang == "" && op.value != "":
		return "" // open: a value or an alternative
	case op.value == "" && f&xmp.DELETE == 0:
		refused, open = true, !present
	case op.value == "" && lang == "":
		next, open = map[string]string{}, len(s.m) == 0
	case op.value == "" && !present:
		open = true
	case op.value == "" && lang == "x-default" && len(s.m) > 1:
		return "" // another language becomes the default, see C10
	case op.value == "":
		delete(next, lang)
	case len(s.m) == 0 && lang != "" && lang != "x-default":
		return "" // that language becomes the default, see C10
	case lang == "" && !present && f&(xmp.APPEND|xmp.UNIQUE) == 0:
		if refused = f&xmp.CREATE == 0; !refused {
			next = map[string]string{"x-default": op.value}
		}
	case lang == "" && f&(xmp.APPEND|xmp.UNIQUE) > 0:
		return "" // open
	case lang == "":
		if cur == op.value && len(s.m) == 1 {
			open = true
			break
		}
		if refused = f&xmp.REPLACE == 0; !refused {
			next = map[string]string{"x-default": op.value}
		} else {
			open = cur == op.value
		}
	case present && cur == op.value && f&xmp.APPEND == 0:
		open = true
	case present && f&(xmp.APPEND|xmp.UNIQUE) > 0:
		return "" // open
	case present:
		if refused = f&xmp.REPLACE == 0; !refused {
			next[lang] = op.value
		}
	case f&(xmp.CREATE|xmp.APPEND|xmp.UNIQUE) > 0:
		next[lang] = op.value
	default:
		refused = true
	}
	err := s.d.SetPath(xmp.PathValue{Path: xmp.Path(p), Value: op.value, Flags: op.flags})
	if op.value != "" && len(s.m) == 0 && f&xmp.CREATE == 0 && !refused {
		// open: append to an alternative that does not exist
		if open = true; err != nil {
			next = map[string]string{}
		}
	}
	if f&xmp.NOFAIL > 0 {
		if err != nil {
			return fmt.Sprintf("%v: nofail returns %v", s.m, err)
		}
	} else if !open && refused != (err != nil) {
		return fmt.Sprintf("%v: error is %v", s.m, err)
	}
	old := s.m
	s.m = next
	for _, l := range []string{"x-default", "en", "de-AT"} {
		v, err := s.d.GetPath(xmp.Path(s.p + "[" + l + "]"))
		if w := next[l]; v != w {
			return fmt.Sprintf("%v should be %v: reading [%s]: %q, %v", old, next, l, v, err)
		}
	}
	l, err := purePaths(s.d)
	if err != nil {
		return err.Error()
	}
	n := 0
	for _, x := range l {
		if strings.HasPrefix(x.Path, s.p+"[") {
			n++
			if w, ok := next[strings.TrimSuffix(x.Path[len(s.p)+1:], "]")]; !ok || w != x.Value {
				return fmt.Sprintf("%v should be %v: listed is %s = %q", old, next, x.Path, x.Value)
			}
		}
	}
	if n != len(next) {
		return fmt.Sprintf("%v should be %v: listed are %d", old, next, n)
	}
	if r := s.restOf(); r != s.rest {
		return fmt.Sprintf("%v, set %s: the rest of the document was\n%s and is\n%s", old, p, s.rest, r)
	}
	return ""
}

func runC09Alt(c *core.Ctx, raw func(string) func() *xmp.Document) {
	inits := []map[string]string{{}, {"x-default": "a"}, {"x-default": "a", "en": "b"}, {"x-default": "a", "en": "a", "de-AT": "c"}}
	seen := map[string]bool{}
	add := func(p string, base func() *xmp.Document, vals []string) {
		if !c.Mine() || seen[p] {
			return
		}
		seen[p] = true
		s := &altSys{p: p, inits: inits, vals: vals}
		s.mk = func(m map[string]string) *xmp.Document {
			d := base()
			for _, l := range []string{"x-default", "en", "de-AT"} {
				if v := m[l]; v != "" {
					if err := d.SetPath(xmp.PathValue{Path: xmp.Path(p + "[" + l + "]"), Value: v, Flags: xmp.CREATE}); err != nil {
						panic(err)
					}
				}
			}
			return d
		}
		c.BFS("alt "+p, s, core.Pick(c, 3, 4))
	}
	ms := allModels()
	for i := range ms {
		m := &ms[i]
		for _, f := range m.Fields {
			switch f.Type.String() {
			case "xmp.AltString", "riff.AltString", "qt.MultilangArray":
				base := withRest(m, f.Name, true)
				add(f.Name, func() *xmp.Document {
					d, _, err := base.build()
					if err != nil {
						panic(err)
					}
					if len(base.Assigns) == 0 {
						if _, err := d.AddModel(m.NS.NewModel()); err != nil {
							panic(err)
						}
					}
					return d
				}, []string{"a", "d"})
			}
		}
	}
	add("tm:alt", func() *xmp.Document {
		d := xmp.NewDocument()
		if _, err := d.AddModel(&TM{S: "s", X: "x", L: xmp.StringArray{"q"}}); err != nil {
			panic(err)
		}
		return d
	}, []string{"a", "b"})
	// unknown alternatives are there from the start
	for _, x := range []struct{ p, pre, post string }{
		{"mine:alt", "<mine:alt>", "</mine:alt>"},
		{"mine:s/alt", `<mine:s rdf:parseType="Resource"><mine:k>k</mine:k><mine:alt>`, "</mine:alt></mine:s>"},
		{"dc:unknownAlt", "<dc:format>f</dc:format><dc:unknownAlt>", "</dc:unknownAlt>"},
		{"xmpMM:Pantry[0]/dc:title", `<xmpMM:Pantry><rdf:Bag><rdf:li rdf:parseType="Resource"><dc:title>`, `</dc:title><dc:format>f</dc:format></rdf:li></rdf:Bag></xmpMM:Pantry>`},
	} {
		x := x
		if !c.Mine() {
			continue
		}
		s := &altSys{raw: true, p: x.p, inits: inits[1:], vals: []string{"a", "d"}}
		if strings.HasSuffix(x.p, ":title") {
			s.inits = inits[1:3] // reading joins the default with an equal language
		}
		s.mk = func(m map[string]string) *xmp.Document {
			t := ""
			for _, l := range []string{"x-default", "en", "de-AT"} {
				if v := m[l]; v != "" {
					t += `<rdf:li xml:lang="` + l + `">` + v + "</rdf:li>"
				}
			}
			return raw(x.pre + "<rdf:Alt>" + t + "</rdf:Alt>" + x.post)()
		}
		c.BFS("unknown alt "+x.p, s, core.Pick(c, 2, 3))
	}
}

// structSys explores a list of structures by path.
type structSys struct {
	p    string
	keys []string
	vals map[string][]string
	mk   func(init int) (*xmp.Document, []map[string]string)
	max  int

	d    *xmp.Document
	l    []map[string]string
	rest string
	ops  []structOp
}

type structOp struct {
	idx        int
	key, value string
	flags      xmp.SyncFlags
}

func (s *structSys) Inits() []string { return []string{"init0", "init1", "init2"} }

func (s *structSys) Ops() []string {
	if s.ops == nil {
		for i := 0; i < s.max; i++ {
			for _, k := range s.keys {
				for _, v := range append([]string{""}, s.vals[k]...) {
					for _, f := range []xmp.SyncFlags{0, xmp.CREATE, xmp.REPLACE, xmp.DELETE, xmp.EXTEND, xmp.CREATE | xmp.DELETE | xmp.NOFAIL} {
						s.ops = append(s.ops, structOp{i, k, v, f})
					}
				}
			}
			for _, f := range []xmp.SyncFlags{0, xmp.DELETE, xmp.CREATE | xmp.REPLACE, xmp.DELETE | xmp.NOFAIL} {
				s.ops = append(s.ops, structOp{i, "", "", f})
			}
		}
		for _, f := range []xmp.SyncFlags{0, xmp.DELETE, xmp.CREATE | xmp.REPLACE, xmp.DELETE | xmp.NOFAIL} {
			s.ops = append(s.ops, structOp{-1, "", "", f})
		}
	}
	var l []string
	for _, o := range s.ops {
		l = append(l, fmt.Sprintf("[%d]/%s=%q %s", o.idx, o.key, o.value, flagNames(o.flags)))
	}
	return l
}

func (s *structSys) restOf() string {
	a := &altSys{p: s.p, d: s.d}
	return a.restOf()
}

func (s *structSys) Reset(i int) {
	if s.d != nil {
		s.d.Close()
	}
	s.d, s.l = s.mk(i)
	s.rest = s.restOf()
}

func (s *structSys) Canon() string { return fmt.Sprint(s.l) + dumpDoc(s.d) }

func (s *structSys) Apply(o int) string {
	op := s.ops[o]
	f := op.flags
	if f == 0 {
		f = xmp.DEFAULT
	}
	n := len(s.l)
	var next []map[string]string
	for _, m := range s.l {
		c := map[string]string{}
		for k, v := range m {
			c[k] = v
		}
		next = append(next, c)
	}
	p := s.p
	if op.idx >= 0 {
		p += "[" + strconv.Itoa(op.idx) + "]"
	}
	if op.key != "" {
		p += "/" + op.key
	}
	cur := ""
	if op.idx >= 0 && op.idx < n && op.key != "" {
		cur = s.l[op.idx][op.key]
	}
	refused, open := false, false
	switch {
	case op.idx > n:
		return "" // open
	case op.key == "" && f&xmp.DELETE == 0:
		refused, open = true, op.idx >= n || n == 0
	case op.key == "" && op.idx < 0:
		next, open = nil, n == 0
	case op.key == "" && op.idx >= n:
		open = true
	case op.key == "":
		next = append(next[:op.idx], next[op.idx+1:]...)
		open = true // a structure has no text: an error without a change is judged below
	case op.value == "" && cur == "":
		open = true
	case op.value == cur:
		open = op.value == ""
	case op.value == "" && f&xmp.DELETE == 0:
		refused = true
	case op.value == "":
		delete(next[op.idx], op.key)
		if len(next[op.idx]) == 0 {
			return "" // open: an empty structure
		}
	case cur == "":
		if refused = f&xmp.CREATE == 0; !refused {
			if op.idx == n {
				next = append(next, map[string]string{})
			}
			next[op.idx][op.key] = op.value
		}
	case f&xmp.REPLACE == 0:
		refused = true
	default:
		next[op.idx][op.key] = op.value
	}
	err := s.d.SetPath(xmp.PathValue{Path: xmp.Path(p), Value: op.value, Flags: op.flags})
	if f&xmp.NOFAIL > 0 {
		if err != nil {
			return fmt.Sprintf("%v: nofail returns %v", s.l, err)
		}
	} else if !open && refused != (err != nil) {
		return fmt.Sprintf("%v, set %s: error is %v", s.l, p, err)
	}
	old := s.l
	s.l = next
	if m := s.compare(next); m != "" {
		return fmt.Sprintf("%v should be %v: %s (error %v)", old, next, m, err)
	}
	if r := s.restOf(); r != s.rest {
		return fmt.Sprintf("%v, set %s: the rest of the document was\n%s and is\n%s", old, p, s.rest, r)
	}
	return ""
}

func (s *structSys) compare(next []map[string]string) string {
	want := map[string]string{}
	for i, m := range next {
		for k, v := range m {
			want[fmt.Sprintf("%s[%d]/%s", s.p, i, k)] = v
		}
	}
	l, err := purePaths(s.d)
	if err != nil {
		return err.Error()
	}
	n := 0
	for _, x := range l {
		if !strings.HasPrefix(x.Path, s.p+"[") {
			continue
		}
		if isZeroText(x.Value) && want[x.Path] == "" {
			continue // written even when unset
		}
		if want[x.Path] != x.Value {
			return fmt.Sprintf("listed is %s = %q", x.Path, x.Value)
		}
		n++
	}
	if n != len(want) {
		return fmt.Sprintf("listed are %d of %d", n, len(want))
	}
	for i := 0; i <= len(next); i++ {
		for _, k := range s.keys {
			p := fmt.Sprintf("%s[%d]/%s", s.p, i, k)
			v, _ := s.d.GetPath(xmp.Path(p))
			if v != want[p] && !(want[p] == "" && isZeroText(v)) {
				return fmt.Sprintf("%s is %q", p, v)
			}
		}
	}
	return ""
}

func runC09Structs(c *core.Ctx, raw func(string) func() *xmp.Document) {
	// lists of structures of the models: the properties seen in the first elements
	type sl struct {
		m    *model
		vals map[string][]string
	}
	lists := map[string]*sl{}
	var order []string
	docSpace(c, "single", 2, func(dc docCase) bool {
		a := dc.Assigns[0]
		d, ms, err := dc.build()
		if err != nil {
			return true
		}
		defer d.Close()
		l, err := modelPaths(ms[a.M.Prefix])
		if err != nil {
			return true
		}
		for _, x := range l {
			i := strings.LastIndexByte(x.Path, ']')
			if i < 0 || i == len(x.Path)-1 || strings.HasSuffix(x.Path, "/*") || strings.Contains(x.Path[i+2:], "/") {
				continue
			}
			j := strings.LastIndexByte(x.Path[:i], '[')
			p, k := x.Path[:j], x.Path[i+2:]
			if lists[p] == nil {
				lists[p] = &sl{a.M, map[string][]string{}}
				order = append(order, p)
			}
			if v := lists[p]; !has(v.vals[k], x.Value) && !isZeroText(x.Value) && len(v.vals[k]) < 2 && len(x.Value) < 200 {
				v.vals[k] = append(v.vals[k], x.Value)
			}
		}
		return true
	})
	c.Bound("lists of structures", len(order))
	like := map[string]int{}
	for _, p := range order {
		l := lists[p]
		seg := strings.Split(p, "/")
		kk := l.m.Prefix + seg[len(seg)-1]
		if like[kk]++; len(seg) > 1 && like[kk] > 1 && !c.Thorough() {
			continue
		}
		var keys []string
		for k, v := range l.vals {
			if len(v) > 0 {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		if len(keys) == 0 || !c.Mine() {
			continue
		}
		if strings.Contains(p, "Pantry") {
			continue // below
		}
		if len(keys) > 3 {
			keys = append(keys[:2], keys[len(keys)-1])
		}
		base := withRest(l.m, p, true)
		s := &structSys{p: p, keys: keys, vals: l.vals, max: core.Pick(c, 2, 3)}
		s.mk = func(init int) (*xmp.Document, []map[string]string) {
			d, _, err := base.build()
			if err != nil {
				panic(err)
			}
			if len(base.Assigns) == 0 {
				if _, err := d.AddModel(l.m.NS.NewModel()); err != nil {
					panic(err)
				}
			}
			return d, s.fill(d, init)
		}
		c.BFS("structs "+p, s, core.Pick(c, 2, 3))
	}
	ab := map[string][]string{"x": {"a", "b"}, "stTm:x": {"a", "c"}, "y": {"1", "2"}, "tags": nil}
	for _, p := range []string{"tm:ls", "tm:lp"} {
		if !c.Mine() {
			continue
		}
		s := &structSys{p: p, keys: []string{"x", "stTm:x", "y"}, vals: ab, max: 3}
		s.mk = func(init int) (*xmp.Document, []map[string]string) {
			d := xmp.NewDocument()
			if _, err := d.AddModel(&TM{S: "s", St: tmSub{X: "q"}, L: xmp.StringArray{"k"}}); err != nil {
				panic(err)
			}
			return d, s.fill(d, init)
		}
		c.BFS("structs "+p, s, core.Pick(c, 2, 3))
	}
	// extensions and unknown lists of structures
	for _, x := range []struct {
		p, pre, post string
		keys         []string
	}{
		{"mine:l", "<mine:l><rdf:Bag>", "</rdf:Bag></mine:l>", []string{"x", "yours:x", "dc:format"}},
		{"xmpMM:Pantry", "<xmpMM:Pantry><rdf:Bag>", "</rdf:Bag></xmpMM:Pantry>", []string{"dc:format", "dc:source", "mine:x"}},
		{"mine:s/l", `<mine:s rdf:parseType="Resource"><mine:k>k</mine:k><mine:l><rdf:Seq>`, "</rdf:Seq></mine:l></mine:s>", []string{"x", "yours:x"}},
	} {
		x := x
		if !c.Mine() {
			continue
		}
		s := &structSys{p: x.p, keys: x.keys, vals: map[string][]string{}, max: 3}
		for _, k := range x.keys {
			s.vals[k] = []string{"a", "b"}
		}
		s.mk = func(init int) (*xmp.Document, []map[string]string) {
			t := ""
			var l []map[string]string
			for i := 0; i <= init; i++ {
				k := x.keys[i%len(x.keys)]
				m := map[string]string{k: "a", x.keys[0]: "b"}
				l = append(l, m)
				t += `<rdf:li rdf:parseType="Resource">`
				for _, k := range sortedKeys(m) {
					n := k
					if !strings.Contains(n, ":") {
						n = "mine:" + n
					}
					t += "<" + n + ">" + m[k] + "</" + n + ">"
				}
				t += "</rdf:li>"
			}
			return raw(x.pre + t + x.post)(), l
		}
		c.BFS("unknown structs "+x.p, s, core.Pick(c, 2, 3))
	}
}

// fill makes the initial elements of a model's list by the library.
func (s *structSys) fill(d *xmp.Document, n int) []map[string]string {
	var l []map[string]string
	for i := 0; i < n; i++ {
		m := map[string]string{}
		for _, k := range []string{s.keys[i%len(s.keys)], s.keys[0]} {
			m[k] = s.vals[k][i%len(s.vals[k])]
			if err := d.SetPath(xmp.PathValue{Path: xmp.Path(fmt.Sprintf("%s[%d]/%s", s.p, i, k)), Value: m[k], Flags: xmp.CREATE}); err != nil {
				panic(err)
			}
		}
		l = append(l, m)
	}
	return l
}
