package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{ID: "C08", Level: "exploration", Shards: 8, Run: runC08,
		Rule: "Every single-valued path of every built-in model (taken from the reference lister over the golden schema, for every value of the alphabets) is set in every document state (no model, empty model, each value, all other properties of the model set) to every text seen at that path, to no text and to text its type may refuse, with every combination of the six flags; the real outcome, value and complete rest of the document are compared with the flag table. Besides, all sequences of updates up to a bound over groups of related paths (same names in different places, nested and pointer structures, maps, attributes, kept empty values, unknown properties, extensions, tag lists) are explored breadth first against a map from path to text.",
		Assumptions: []string{
			"Append and unique are documented as list-only: without create they leave open whether an empty single value is filled.",
			"Setting an empty value on an empty property changes nothing; whether it is reported as an error is open.",
		}})
}

func isListPath(p string) bool { return strings.HasSuffix(p, "]") }

func flagNames(f xmp.SyncFlags) string {
	s := ""
	for i, n := range []string{"C", "R", "D", "A", "U", "N"} {
		if f&(1<<uint(i)) > 0 {
			s += n
		}
	}
	if s == "" {
		return "0"
	}
	return s
}

// scalarStep performs one update of a single value and judges it. zero is the
// text of a cleared property, for those that are written even then.
// before is what the document holds; changed tells whether it does no more.
func scalarStep(d *xmp.Document, before map[string]string, p, value, uri string, flags xmp.SyncFlags, zero string, valid func(string) int) (msg string, changed bool) {
	msg = func() string {
		cur, err := d.GetPath(xmp.Path(p))
		if err != nil {
			cur = ""
		}
		serr := d.SetPath(xmp.PathValue{Path: xmp.Path(p), Value: value, Namespace: uri, Flags: flags})
		got, err := d.GetPath(xmp.Path(p))
		if err != nil {
			got = ""
		}
		after, err := snapshot(d)
		if err != nil {
			return err.Error()
		}
		f := flags
		if f == 0 {
			f = xmp.DEFAULT
		}
		what := fmt.Sprintf("%s is %q; setting %q with flags %s", p, cur, value, flagNames(flags))
		zeroish := func(s string) bool {
			return s == "" || s == zero || strings.Contains(p, "/") && isZeroText(s)
		}
		isEmpty := zeroish(cur)
		ok, refused := false, false
		switch {
		case value == cur:
			ok = value != ""
			value = cur
		case value == "" && f&xmp.DELETE == 0:
			refused = true
		case value == "":
			ok = !isEmpty
		case isEmpty && cur != value && zeroish(value):
			// open: unset, but written even so
		case isEmpty && cur == "" && modelDefault(p) != "" && f&xmp.REPLACE == 0:
			// open: a new model brings a value
		case isEmpty && f&xmp.CREATE > 0 && (cur == "" || f&xmp.REPLACE > 0):
			ok = true
		case isEmpty && cur != "" && f&(xmp.CREATE|xmp.REPLACE) > 0:
			// open: an unset property that is written even so
		case isEmpty && f&(xmp.APPEND|xmp.UNIQUE) > 0:
			// open, but an error must not change anything
		case isEmpty:
			refused = true
		case f&xmp.REPLACE > 0:
			ok = true
		default:
			refused = true
		}
		same := got == cur
		set := got == value || zeroish(got) && zeroish(value)
		same = same || zeroish(got) && zeroish(cur)
		if value == "" {
			set = zeroish(got)
		}
		switch v := valid(value); {
		case value == cur || value == "":
		case v == 0: // may be refused, may read as another text
			ok = false
			set = got != ""
		case v < 0:
			ok, refused = false, true
		}
		switch {
		case serr != nil && f&xmp.NOFAIL > 0:
			return fmt.Sprintf("%s: nofail returns %v", what, serr)
		case serr != nil && ok:
			return fmt.Sprintf("%s: %v", what, serr)
		case serr != nil && !same:
			return fmt.Sprintf("%s: error %v, but now it is %q", what, serr, got)
		case ok && !set:
			return fmt.Sprintf("%s: now it is %q", what, got)
		case refused && !same:
			return fmt.Sprintf("%s: must be refused, but now it is %q", what, got)
		case refused && serr == nil && f&xmp.NOFAIL == 0 && value != "":
			return fmt.Sprintf("%s: must be refused, no error", what)
		case serr == nil && !same && !set:
			return fmt.Sprintf("%s: now it is %q", what, got)
		case serr == nil && same && !set && f&xmp.NOFAIL == 0 && !isEmpty:
			return fmt.Sprintf("%s: not done, no error", what)
		}
		if reflect.DeepEqual(before, after) {
			return ""
		}
		changed = true
		keys := map[string]string{}
		for k := range before {
			keys[k] = ""
		}
		for k := range after {
			keys[k] = ""
		}
		for _, k := range sortedKeys(keys) {
			if before[k] != after[k] && k != p && !pathTail(k, p) {
				if a, b := before[k], after[k]; a == "" && modelDefault(k) == b {
					continue // a new model brings its own values
				}
				if x, y := strings.LastIndexByte(k, '/'), strings.LastIndexByte(p, '/'); x > 0 && y > 0 && k[:x] == p[:y] && (before[k] == "" || after[k] == "") && isZeroText(before[k]+after[k]) {
					continue // a new structure brings its own values, a cleared one loses them
				}
				return fmt.Sprintf("%s: %s was %q, now %q", what, k, before[k], after[k])
			}
		}
		return ""
	}()
	return msg, changed
}

// pathTail says whether raw snapshot entry k holds path p.
func pathTail(k, p string) bool {
	i := strings.IndexAny(k, " ")
	if i < 0 {
		return false
	}
	first := strings.FieldsFunc(p, func(r rune) bool { return r == '[' || r == '/' })[0]
	return strings.Contains(k, " node "+first) || strings.Contains(k, " attr "+first)
}

func isZeroText(s string) bool { return strings.EqualFold(s, "false") || s == "0" }

var modelDefaults map[string]string

// modelDefault is the value a new model has at a path.
func modelDefault(p string) string {
	if modelDefaults == nil {
		modelDefaults = map[string]string{}
		for _, m := range allModels() {
			l, _ := refPaths(reflect.ValueOf(m.NS.NewModel()).Elem(), "")
			for _, x := range l {
				modelDefaults[x.Path] = x.Value
			}
		}
	}
	return modelDefaults[p]
}

func runC08(c *core.Ctx) {
	junk := core.Pick(c, []string{"junk text", "-1"}, []string{"junk text", "-1", "1e999", "12:34", "<&>"})
	// texts of every path, from all documents with a single property
	type scal struct {
		p     string
		texts []string
		docs  []docCase
		m     *model
	}
	byPath := map[string]*scal{}
	var order []string
	full := map[string][]assign{}
	docSpace(c, "single", 2, func(dc docCase) bool {
		a := dc.Assigns[0]
		d, ms, err := dc.build()
		if err != nil {
			return true
		}
		defer d.Close()
		l, err := refPaths(reflect.ValueOf(ms[a.M.Prefix]).Elem(), "")
		if err != nil {
			return true
		}
		for _, x := range l {
			if isListPath(x.Path) {
				continue
			}
			if strings.HasSuffix(x.Path, "/*") {
				continue
			}
			if x.Value == modelDefault(x.Path) && !strings.HasPrefix(x.Path+"/", a.F.Name+"/") {
				continue
			}
			s := byPath[x.Path]
			if s == nil {
				s = &scal{p: x.Path, m: a.M}
				byPath[x.Path] = s
				order = append(order, x.Path)
			}
			known := false
			for _, t := range s.texts {
				known = known || t == x.Value
			}
			if !known && len(s.texts) < core.Pick(c, 3, 12) {
				s.texts = append(s.texts, x.Value)
				s.docs = append(s.docs, dc)
			}
		}
		return true
	})
	for i, m := range allModels() {
		for _, f := range m.Fields {
			if a := alphabet(f.Type, 0); len(a) > 0 {
				full[m.Prefix] = append(full[m.Prefix], assign{&allModels()[i], f, a[0]})
			}
		}
	}
	c.Group("flags")
	flags := []xmp.SyncFlags{}
	for f := xmp.SyncFlags(0); f < 64; f++ {
		flags = append(flags, f)
	}
	few := map[xmp.SyncFlags]bool{0: true, xmp.CREATE: true, xmp.REPLACE: true, xmp.DELETE: true, xmp.CREATE | xmp.REPLACE: true, xmp.MERGE: true, xmp.REPLACE | xmp.DELETE | xmp.NOFAIL: true}
	like := map[string]int{}
	for _, p := range order {
		s := byPath[p]
		seg := strings.Split(p, "/")
		k := s.m.Prefix + " " + seg[len(seg)-1]
		if like[k]++; len(seg) == 1 {
			like[k] = 0
		}
		repeated := like[k] > 3 && !c.Thorough() // the same property of another structure
		values := append(append([]string{""}, s.texts...), junk...)
		valid := func(v string) int {
			for _, t := range s.texts {
				if t == v {
					return 1
				}
			}
			return 0
		}
		inList := strings.Contains(p, "[")
		states := map[string]docCase{}
		for i, dc := range s.docs {
			states[fmt.Sprintf("value%d", i)] = dc
		}
		if repeated {
			states = map[string]docCase{"value0": s.docs[0]}
			values = []string{"", s.texts[0], junk[0]}
		}
		if len(seg) < 3 || c.Thorough() {
			states["full"] = docCase{Assigns: full[s.m.Prefix]}
		}
		if !strings.Contains(p, "[1]") && !strings.Contains(p, "[2]") {
			if !repeated {
				states["no model"] = docCase{}
			}
			states["empty model"] = docCase{}
			if !inList && len(seg) < 3 {
				var rest []assign
				for _, a := range full[s.m.Prefix] {
					if !strings.HasPrefix(p+"/", a.F.Name+"/") {
						rest = append(rest, a)
					}
				}
				states["all others"] = docCase{Assigns: rest}
			}
		}
		names := []string{}
		for n := range states {
			names = append(names, n)
		}
		sort.Strings(names)
		z := zeroText(s.m, p)
		for _, n := range names {
			dc := states[n]
			for _, v := range values {
				big := n == "full" || n == "all others"
				if n == "full" && v != "" && v != values[1] && !c.Thorough() {
					continue
				}
				if c.Stop() {
					return
				}
				key := fmt.Sprintf("%s in %s to %q", p, n, short(v))
				c.Case(key, func() interface{} {
					return map[string]interface{}{"path": p, "state": n, "document": dc.replay(), "value": v}
				}, func() string {
					var d *xmp.Document
					var before map[string]string
					for _, f := range flags {
						if (big || repeated) && !c.Thorough() && !few[f] {
							continue
						}
						if d == nil {
							var err error
							if d, _, err = dc.build(); err != nil {
								return err.Error()
							}
							if n == "empty model" {
								if _, err := d.AddModel(s.m.NS.NewModel()); err != nil {
									return err.Error()
								}
							}
							if before, err = snapshot(d); err != nil {
								return err.Error()
							}
						}
						m, changed := scalarStep(d, before, p, v, "", f, z, valid)
						if m != "" {
							return m
						}
						if changed {
							d.Close()
							d = nil
						}
					}
					c.Nontrivial(key)
					c.Outcome(key)
					return ""
				})
			}
		}
	}
	c.Bound("single-valued paths", len(order))
	for _, g := range pathGroups() {
		if c.Mine() {
			c.BFS(g.name, g, core.Pick(c, g.quick, g.deep))
		}
	}
}

// zeroText is the text of a property that is written even when unset.
func zeroText(m *model, p string) string {
	d := xmp.NewDocument()
	defer d.Close()
	if _, err := d.AddModel(m.NS.NewModel()); err != nil {
		return ""
	}
	s, _ := d.GetPath(xmp.Path(p))
	return s
}

// pathGroup explores updates of related paths against a map.
type pathGroup struct {
	name        string
	quick, deep int
	paths       []gpath
	flags       []xmp.SyncFlags
	start       func() *xmp.Document
	inits       []map[string]string

	d     *xmp.Document
	state map[string]string
	ops   []gop
}

type gpath struct {
	p, uri string
	vals   []string
	zero   string
}

type gop struct {
	path  int
	value string
	flags xmp.SyncFlags
}

func (g *pathGroup) Inits() []string {
	var l []string
	for _, m := range g.inits {
		l = append(l, fmt.Sprint(m))
	}
	return l
}

func (g *pathGroup) Ops() []string {
	if g.ops == nil {
		for i, p := range g.paths {
			for _, v := range append([]string{""}, p.vals...) {
				for _, f := range g.flags {
					g.ops = append(g.ops, gop{i, v, f})
				}
			}
		}
	}
	var l []string
	for _, o := range g.ops {
		l = append(l, fmt.Sprintf("%s=%q %s", g.paths[o.path].p, o.value, flagNames(o.flags)))
	}
	return l
}

func (g *pathGroup) Reset(i int) {
	if g.d != nil {
		g.d.Close()
	}
	g.d = g.start()
	g.state = map[string]string{}
	for _, p := range g.paths {
		if v, ok := g.inits[i][p.p]; ok {
			if err := g.d.SetPath(xmp.PathValue{Path: xmp.Path(p.p), Value: v, Namespace: p.uri}); err != nil {
				panic(err)
			}
		}
	}
	for _, p := range g.paths {
		if v, ok := g.inits[i][p.p]; ok {
			g.state[p.p] = v
		}
	}
}

func (g *pathGroup) Canon() string { return fmt.Sprint(g.state) + dumpDoc(g.d) }

func (g *pathGroup) Apply(o int) string {
	op := g.ops[o]
	p := g.paths[op.path]
	cur := g.state[p.p]
	err := g.d.SetPath(xmp.PathValue{Path: xmp.Path(p.p), Value: op.value, Namespace: p.uri, Flags: op.flags})
	f := op.flags
	if f == 0 {
		f = xmp.DEFAULT
	}
	next, refused, open := cur, false, false
	switch {
	case op.value == "" && cur == "":
		open = true
	case op.value == cur:
	case op.value == "" && f&xmp.DELETE == 0:
		refused = true
	case op.value == "":
		next = ""
	case cur == "" && p.zero != "" && (f&xmp.CREATE > 0) != (f&xmp.REPLACE > 0):
		open = true
		if s, _ := g.d.GetPath(xmp.Path(p.p)); s == op.value {
			next = op.value
		}
	case cur == "" && f&xmp.CREATE == 0:
		refused = true
	case cur != "" && f&xmp.REPLACE == 0:
		refused = true
	default:
		next = op.value
	}
	if f&xmp.NOFAIL > 0 {
		if err != nil {
			return fmt.Sprintf("nofail returns %v", err)
		}
	} else if !open && (err != nil) != refused {
		return fmt.Sprintf("%s is %q: error is %v", p.p, cur, err)
	}
	g.state[p.p] = next
	if next == "" {
		delete(g.state, p.p)
	}
	for _, x := range g.paths {
		s, err := g.d.GetPath(xmp.Path(x.p))
		if err != nil {
			s = ""
		}
		if w := g.state[x.p]; s != w && !(w == "" && s == x.zero) {
			return fmt.Sprintf("%s is %q instead of %q", x.p, s, w)
		}
	}
	l, err := listing(g.d)
	if err != nil {
		return err.Error()
	}
	n := 0
	for _, x := range l {
		w, ok := g.state[x.Path]
		if !ok {
			for _, y := range g.paths {
				if y.p == x.Path && y.zero == x.Value && x.Value != "" {
					ok, w = true, x.Value
					n--
				}
			}
		}
		if !ok {
			return fmt.Sprintf("%s = %q is listed", x.Path, x.Value)
		}
		if w != x.Value {
			return fmt.Sprintf("%s is listed as %q instead of %q", x.Path, x.Value, w)
		}
		n++
	}
	if n != len(g.state) {
		return fmt.Sprintf("listed are %v instead of %v", l, g.state)
	}
	return ""
}

func pathGroups() []*pathGroup {
	t := func(p string, v ...string) gpath { return gpath{p: p, vals: v} }
	ab := func(p string) gpath { return t(p, "a", "b") }
	raw := func(p, uri string) gpath { return gpath{p: p, uri: uri, vals: []string{"a", "b"}} }
	tm := func() *xmp.Document {
		d := xmp.NewDocument()
		if _, err := d.AddModel(&TM{}); err != nil {
			panic(err)
		}
		return d
	}
	fs := []xmp.SyncFlags{0, xmp.CREATE, xmp.REPLACE, xmp.CREATE | xmp.REPLACE | xmp.NOFAIL, xmp.DELETE, xmp.DELETE | xmp.NOFAIL, xmp.CREATE | xmp.DELETE | xmp.NOFAIL}
	empty := map[string]string{}
	zeros := []gpath{{p: "tm:be", vals: []string{"true"}, zero: "false"}, {p: "tm:ie", vals: []string{"1", "-2"}, zero: "0"}}
	gs := []*pathGroup{
		{name: "names", paths: []gpath{ab("tm:x"), ab("stTm:x"), ab("tm:st/x"), ab("tm:st/stTm:x"), ab("tm:pst/x"), ab("stTm:st/x"), ab("stTm:st/tm:x"), ab("tm:st/sub/x"), ab("tm:ls[0]/x"), ab("tm:lp[0]/stTm:x")}},
		{name: "kinds", paths: append([]gpath{ab("tm:s"), ab("tm:a"), t("tm:i", "1", "-20"), t("tm:i8", "3"), t("tm:u", "65535"), t("tm:f", "0.5", "-2"), t("tm:f32", "0.25"), t("tm:b", "true"), ab("tm:e"), ab("tm:emb"), ab("tm:by")}, zeros...)},
		{name: "pointers", paths: append([]gpath{ab("tm:ps"), t("tm:pi", "1", "2"), t("tm:pb", "true"), t("tm:d", "2006-01-02T15:04:05Z"), t("tm:pd", "2006-01-02T15:04:05Z", "2007-01-02T15:04:05Z"), ab("tm:g"), t("tm:r", "1/2"), t("tm:st/y", "1"), ab("tm:st/p"), t("tm:pst/y", "7"), ab("tm:pst/p"), t("tm:pst/sub/f", "0.5"), t("tm:st/del/f", "0.5"), ab("tm:st/del/x")}, zeros...)},
		{name: "maps", paths: append([]gpath{ab("tm:m/a"), ab("tm:m/b"), t("tm:mi/a", "1", "2"), t("tm:mi/b", "3"), t("tm:st/m/a", "1", "2"), t("tm:pst/m/a", "4"), ab("tm:st/x")}, zeros...)},
		{name: "raw", start: xmp.NewDocument, paths: []gpath{raw("mine:x", nsMine), raw("mine:s/x", nsMine), raw("mine:s/y", nsMine), raw("mine:s/t/x", nsMine), raw("yours:x", nsYours), raw("yours:s/x", nsYours), ab("dc:x"), ab("dc:format"), ab("xmp:format"), ab("xmp:s/format")}},
		{name: "extension", start: xmp.NewDocument, paths: []gpath{ab("dc:format"), ab("xmpMM:Pantry[0]/dc:format"), ab("xmpMM:Pantry[0]/dc:source"), t("xmpMM:Pantry[0]/xmp:Rating", "1", "2"), ab("dc:source"), t("xmp:Rating", "1", "2"), ab("xmpMM:Pantry[0]/dc:x")}},
	}
	for _, g := range gs {
		g.flags = fs
		g.inits = []map[string]string{empty}
		all := map[string]string{}
		for _, p := range g.paths {
			all[p.p] = p.vals[0]
			for i := range g.paths {
				for j := range g.paths[i].zero {
					_ = j
					all[p.p] = p.vals[0]
				}
			}
		}
		g.inits = append(g.inits, all)
		g.quick, g.deep = 2, 3
		if g.start == nil {
			g.start = tm
			if !strings.Contains(fmt.Sprint(g.paths), "tm:be") {
				g.paths = append(g.paths, gpath{p: "tm:be", vals: []string{"true"}, zero: "false"}, gpath{p: "tm:ie", vals: []string{"1"}, zero: "0"})
			}
		}
	}
	return gs
}
