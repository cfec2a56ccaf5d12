package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{ID: "C11", Level: "exploration", Shards: 8, Run: runC11,
		Rule: "Sync: every ordered pair of twelve source and destination paths (strings, integers, dates, lists, list elements, language alternatives, structure fields, in different and in the same namespace), every state of both (no model, empty, two values, several list elements), all 64 flag combinations and five converters on the real code, against the documented flag table for single values and against setting the converted value by path (decided by C08 and C09). Merge: every property with its values into documents without the model, with the same property set to every other value and with all other properties set, and pairs of models, under all flag combinations, checked per path: what flags allow, nothing else, the merged document unchanged, a second merge changes nothing.",
		Assumptions: []string{
			"Open: whether a missing source model counts as an empty source; APPEND and UNIQUE without CREATE on an empty list; a merge of a language that is present with APPEND or UNIQUE.",
			"Sync without NOFAIL may skip or report an update its flags do not allow; a merge that fails may be partial.",
		}})
}

// syncPath is one end of a synchronization.
type syncPath struct {
	p     string
	texts []string
	list  bool
}

var syncPaths = []syncPath{
	{"xmpDM:cameraAngle", []string{"low", "10"}, false},
	{"xmpDM:scene", []string{"low", "LOW"}, false},
	{"photoshop:City", []string{"Ulm", "10"}, false},
	{"tiff:ImageWidth", []string{"10", "640"}, false},
	{"xmp:CreateDate", []string{"2019-01-02T03:04:05Z", "2020-02-29T00:00:00Z"}, false},
	{"xmpMM:DerivedFrom/documentID", []string{"xmp.did:1", "low"}, false},
	{"dc:creator", []string{"low", "Ulm"}, true},
	{"dc:creator[0]", []string{"low", "Ulm"}, true},
	{"dc:subject", []string{"Ulm", "LOW"}, true},
	{"dc:title", []string{"low", "Ulm"}, true},
	{"dc:title[en]", []string{"low", "LOW"}, true},
	{"xmp:Identifier", []string{"10", "x:low"}, true},
}

// syncStates names the states of an end.
var syncStates = []string{"absent", "empty", "first", "second", "both"}

// put brings a path into a state.
func (s syncPath) put(d *xmp.Document, state string) error {
	base := strings.TrimSuffix(strings.TrimSuffix(s.p, "[0]"), "[en]")
	set := func(p, v string, f xmp.SyncFlags) error {
		return d.SetPath(xmp.PathValue{Path: xmp.Path(p), Value: v, Flags: f})
	}
	switch state {
	case "empty":
		ns, err := xmp.Path(s.p).Namespace(d)
		if err != nil {
			return err
		}
		if d.FindModel(ns) == nil {
			_, err = d.AddModel(ns.NewModel())
		}
		return err
	case "first":
		return set(s.p, s.texts[0], xmp.CREATE|xmp.REPLACE)
	case "second":
		return set(s.p, s.texts[1], xmp.CREATE|xmp.REPLACE)
	case "both":
		if strings.HasSuffix(s.p, "[en]") || s.p == "dc:title" {
			if err := set(base, s.texts[0], xmp.CREATE|xmp.REPLACE); err != nil {
				return err
			}
			return set(base+"[en]", s.texts[1], xmp.CREATE|xmp.REPLACE)
		}
		if err := set(base+"[0]", s.texts[0], xmp.CREATE|xmp.REPLACE); err != nil {
			return err
		}
		return set(base+"[1]", s.texts[1], xmp.CREATE|xmp.REPLACE)
	}
	return nil
}

type converter struct {
	name string
	f    xmp.ConverterFunc
}

var convs = []converter{{"none", nil}, {"upper", strings.ToUpper}, {"empty", func(string) string { return "" }}, {"ten", func(string) string { return "10" }}, {"prefix", func(s string) string { return "x:" + s }}, {"blank", func(s string) string { return s + " " }}}

func snapOf(d *xmp.Document) map[string]string {
	m, err := snapshot(d)
	if err != nil {
		return map[string]string{"error": err.Error()}
	}
	return m
}

func diffMap(a, b map[string]string) string {
	keys := map[string]string{}
	for k := range a {
		keys[k] = ""
	}
	for k := range b {
		keys[k] = ""
	}
	for _, k := range sortedKeys(keys) {
		if a[k] != b[k] {
			return fmt.Sprintf("%s is %q, expected %q", k, b[k], a[k])
		}
	}
	return ""
}

func runC11(c *core.Ctx) {
	c11sync(c)
	c11flags(c)
	c11multi(c)
	c11lists(c)
	c11merge(c)
	c11prefixes(c)
}

func c11sync(c *core.Ctx) {
	c.Bound("sync_paths", len(syncPaths))
	c.Bound("converters", len(convs))
	for _, src := range syncPaths {
		for _, dst := range syncPaths {
			sb, db := strings.Split(src.p, "[")[0], strings.Split(dst.p, "[")[0]
			if sb == db {
				continue
			}
			c.Group("sync " + src.p)
			for _, ss := range syncStates {
				if ss == "both" && !src.list {
					continue
				}
				for _, ds := range syncStates {
					if ds == "both" && !dst.list {
						continue
					}
					if c.Stop() {
						return
					}
					mk := func() (*xmp.Document, error) {
						d := xmp.NewDocument()
						// something else that must not change
						for _, p := range []string{"xmpRights:Owner[0]", "dc:source", "xmpDM:album", "xmp:Label", "tiff:Make"} {
							if ns := strings.Split(p, ":")[0]; ss == "absent" && strings.HasPrefix(src.p, ns+":") || ds == "absent" && strings.HasPrefix(dst.p, ns+":") {
								continue
							}
							if err := d.SetPath(xmp.PathValue{Path: xmp.Path(p), Value: "keep"}); err != nil {
								return nil, err
							}
						}
						if err := src.put(d, ss); err != nil {
							return nil, fmt.Errorf("source: %v", err)
						}
						return d, dst.put(d, ds)
					}
					for flags := xmp.SyncFlags(0); flags < 64; flags++ {
						for _, cv := range convs {
							for _, given := range []bool{false, true} {
								if given && (cv.name != "none" || ds == "absent") {
									continue
								}
								key := fmt.Sprintf("sync|%s %s|%s %s|%s|%s|%v", src.p, ss, dst.p, ds, flagNames(flags), cv.name, given)
								flags, cv, given := flags, cv, given
								c.Case(key, nil, func() string { return syncStep(c, key, mk, src, dst, flags, cv, given) })
							}
						}
					}
				}
			}
		}
	}
}

func syncStep(c *core.Ctx, key string, mk func() (*xmp.Document, error), src, dst syncPath, flags xmp.SyncFlags, cv converter, given bool) string {
	d, err := mk()
	if err != nil {
		return err.Error()
	}
	defer d.Close()
	e, _ := mk()
	defer e.Close()
	before := snapOf(d)
	f := flags
	if f == 0 {
		f = xmp.DEFAULT
	}
	has := func(x xmp.SyncFlags) bool { return f&x > 0 }
	sv, serr := d.GetPath(xmp.Path(src.p))
	cur, derr := d.GetPath(xmp.Path(dst.p))
	sns, _ := xmp.Path(src.p).Namespace(d)
	dns, _ := xmp.Path(dst.p).Namespace(d)
	noSrc, noDst := d.FindModel(sns) == nil, d.FindModel(dns) == nil
	if (serr != nil && !noSrc) || (derr != nil && !noDst) {
		return fmt.Sprintf("%v, %v", serr, derr)
	}
	v := sv
	if cv.f != nil && sv != "" {
		v = cv.f(sv)
	}
	var m xmp.Model
	if given {
		m = d.FindModel(dns)
	}
	err = d.Sync(xmp.Path(src.p), xmp.Path(dst.p), flags, m, cv.f)
	after := snapOf(d)
	if err != nil && has(xmp.NOFAIL) {
		return fmt.Sprintf("nofail returns %v", err)
	}
	// the same by path
	nothing := v == "" && !has(xmp.DELETE) || noDst && !has(xmp.CREATE) || noDst && v == "" || f == xmp.NOFAIL
	var perr error
	if !nothing {
		perr = e.SetPath(xmp.PathValue{Path: xmp.Path(dst.p), Value: v, Flags: f &^ xmp.NOFAIL})
	}
	want := snapOf(e)
	if nothing || perr != nil {
		want = before
	}
	same := reflect.DeepEqual(before, after)
	open := noSrc || cur == "" && !has(xmp.CREATE)
	switch {
	case open && same:
	case noSrc && (v != "" || !has(xmp.DELETE)):
		return "there is no source: " + diffMap(before, after)
	default:
		if m := diffMap(want, after); m != "" {
			return fmt.Sprintf("source %q (converted %q), destination %q: %s (error %v)", sv, v, cur, m, err)
		}
	}
	allowed := v != "" && (cur == "" && has(xmp.CREATE) || cur != "" && has(xmp.REPLACE))
	switch {
	case err != nil && !same:
		return fmt.Sprintf("fails (%v), but changes: %s", err, diffMap(before, after))
	case err != nil && !nothing && perr == nil && !noSrc:
		return fmt.Sprintf("source %q, destination %q: %v", v, cur, err)
	case err == nil && perr != nil && allowed && !noSrc && !has(xmp.NOFAIL) && cur != v && !dst.list:
		return fmt.Sprintf("source %q, destination %q: no error, expected %v", v, cur, perr)
	}
	// the flag table for single values
	if !dst.list && !noSrc && (perr == nil || nothing || !allowed) {
		w := cur
		switch {
		case v == "" && has(xmp.DELETE):
			w = ""
		case allowed:
			w = v
		}
		if got, err := d.GetPath(xmp.Path(dst.p)); got != w && got != strings.TrimSpace(w) && !(err != nil && w == "") {
			return fmt.Sprintf("source %q, destination %q: now %q, expected %q", v, cur, got, w)
		}
	}
	if !same {
		c.Nontrivial(key)
	}
	return ""
}

// c11flags reads every list of up to three flag names.
func c11flags(c *core.Ctx) {
	c.Group("flag names")
	const create, replace, del, app, unique, nofail = 1, 2, 4, 8, 16, 32
	vals := map[string]xmp.SyncFlags{"create": create, "replace": replace, "delete": del, "append": app, "unique": unique, "nofail": nofail,
		"default": create | replace | del | unique, "merge": create | unique | nofail, "extend": create | replace | unique | nofail, "add": create | unique | nofail, "other": 0}
	names := sortedKeys(vals)
	var rec func(l []string)
	rec = func(l []string) {
		if len(l) > 0 {
			c.Case("flags "+strings.Join(l, ","), nil, func() string {
				var want xmp.SyncFlags
				bad := false
				for _, n := range l {
					want |= vals[n]
					bad = bad || n == "other"
				}
				for i, t := range []string{strings.Join(l, ","), strings.ToUpper(strings.Join(l, ","))} {
					f, err := xmp.ParseSyncFlags(t)
					if (err != nil) != bad || !bad && f != want {
						return fmt.Sprintf("%s: %b %v, expected %b", t, f, err, want)
					}
					f = xmp.SyncFlags(7)
					err = f.UnmarshalText([]byte(t))
					if (err != nil) != bad || !bad && f != want || bad && f != 7 {
						return fmt.Sprintf("%s: UnmarshalText %b %v, expected %b", t, f, err, want)
					}
					if i == 0 && len(l) == 1 {
						if f := xmp.ParseSyncFlag(l[0]); f != want {
							return fmt.Sprintf("%s: %b, expected %b", l[0], f, want)
						}
					}
				}
				return ""
			})
		}
		if len(l) < 3 {
			for _, n := range names {
				rec(append(l[:len(l):len(l)], n))
			}
		}
	}
	rec(nil)
}

// c11multi covers lists of synchronizations and unusual ends.
func c11multi(c *core.Ctx) {
	c.Group("several")
	mk := func() *xmp.Document {
		d := xmp.NewDocument()
		for p, v := range map[string]string{"xmpDM:scene": "a", "xmpDM:album": "b", "tiff:ImageWidth": "5"} {
			if err := d.SetPath(xmp.PathValue{Path: xmp.Path(p), Value: v}); err != nil {
				panic(err)
			}
		}
		return d
	}
	type sd struct {
		s, d string
		ok   bool // succeeds
		want string
	}
	all := []sd{{"xmpDM:scene", "photoshop:City", true, "a"}, {"xmpDM:album", "photoshop:City", true, "b"}, {"xmpDM:album", "tiff:ImageWidth", false, ""},
		{"photoshop:City", "photoshop:State", true, "?"}, {"nothere:x", "photoshop:City", true, ""}, {"xmpDM:nothere", "photoshop:City", false, ""}, {"xmpDM:scene", "nothere:x", true, ""}, {"xmpDM:scene", "photoshop:nothere", false, ""}, {"scene", "City", true, ""}}
	for i := range all {
		for j := range all {
			for k := range all {
				l := []sd{all[i], all[j], all[k]}
				c.Case(fmt.Sprintf("several|%d|%d|%d", i, j, k), func() any { return fmt.Sprint(l) }, func() string {
					d := mk()
					defer d.Close()
					state := map[string]string{}
					failed := false
					var desc xmp.SyncDescList
					for _, x := range l {
						desc = append(desc, &xmp.SyncDesc{Source: xmp.Path(x.s), Dest: xmp.Path(x.d), Flags: xmp.CREATE | xmp.REPLACE})
						if failed {
							continue
						}
						if !x.ok {
							failed = true
						} else if x.want == "?" {
							if state["photoshop:City"] != "" {
								state["photoshop:State"] = state["photoshop:City"]
							}
						} else if x.want != "" {
							state[x.d] = x.want
						}
					}
					err := d.SyncMulti(desc, nil)
					if (err != nil) != failed {
						return fmt.Sprintf("%v: error %v", l, err)
					}
					for _, p := range []string{"photoshop:City", "photoshop:State"} {
						if v, _ := d.GetPath(xmp.Path(p)); v != state[p] {
							return fmt.Sprintf("%v: %s is %q, expected %q", l, p, v, state[p])
						}
					}
					if v, _ := d.GetPath("tiff:ImageWidth"); v != "5" {
						return "tiff:ImageWidth is " + v
					}
					return ""
				})
			}
		}
	}
	// a model that does not hold the destination is not used
	for range c.Block() {
		for _, p := range []string{"photoshop:City", "tiff:Make", "dc:source"} {
			p := p
			c.Case("other model|"+p, nil, func() string {
				d := mk()
				defer d.Close()
				before := snapOf(d)
				ns, _ := xmp.Path("xmpRights:Owner").Namespace(d)
				m := ns.NewModel()
				if err := d.Sync("xmpDM:scene", xmp.Path(p), xmp.CREATE, m, nil); err != nil {
					return ""
				}
				return diffMap(before, snapOf(d))
			})
		}
		// a namespace without a model
		for _, f := range []xmp.SyncFlags{0, xmp.CREATE, xmp.DEFAULT, xmp.MERGE} {
			for _, p := range []string{"stEvt:action", "xmpidq:Scheme", "rdf:value", "xml:lang"} {
				f, p := f, p
				c.Case(fmt.Sprintf("no model|%s|%d", p, f), nil, func() string {
					d := mk()
					defer d.Close()
					before := snapOf(d)
					d.Sync("xmpDM:scene", xmp.Path(p), f, nil, nil)
					d.Sync(xmp.Path(p), "xmpDM:scene", f, nil, nil)
					return diffMap(before, snapOf(d))
				})
			}
		}
	}
}

// c11merge covers merging two documents.
func c11merge(c *core.Ctx) {
	merge := func(key string, a, b docCase, flags xmp.SyncFlags) {
		c.Case(key, func() any { return []any{a.replay(), b.replay(), flagNames(flags)} }, func() string { return mergeStep(c, key, a, b, flags) })
	}
	allFlags := []xmp.SyncFlags{}
	for f := xmp.SyncFlags(0); f < 64; f++ {
		allFlags = append(allFlags, f)
	}
	few := []xmp.SyncFlags{0, xmp.CREATE, xmp.REPLACE, xmp.MERGE, xmp.EXTEND, xmp.REPLACE | xmp.NOFAIL, xmp.DELETE | xmp.NOFAIL, xmp.APPEND | xmp.NOFAIL, xmp.CREATE | xmp.APPEND | xmp.NOFAIL}
	max := core.Pick(c, 3, 8)
	for i := range allModels() {
		m := &allModels()[i]
		c.Group("merge " + m.Prefix)
		for _, f := range m.Fields {
			vals := alphabet(f.Type, 1)
			if len(vals) > max {
				vals = vals[:max]
			}
			others := withRest(m, f.Name, true)
			for j, v := range vals {
				b := docCase{Assigns: []assign{{m, f, v}}}
				var as []docCase
				var names []string
				as, names = append(as, docCase{}), append(names, "no model")
				for k, w := range vals {
					as, names = append(as, docCase{Assigns: []assign{{m, f, w}}}), append(names, fmt.Sprint("value", k))
				}
				as, names = append(as, others), append(names, "all others")
				as, names = append(as, docCase{Assigns: append(append([]assign{}, others.Assigns...), assign{m, f, vals[0]})}), append(names, "full")
				for k, a := range as {
					if c.Stop() {
						return
					}
					fl := few
					if j == 0 && k < 3 || c.Thorough() {
						fl = allFlags
					}
					for _, fg := range fl {
						merge(fmt.Sprintf("merge|%s.%s value%d|into %s|%s", m.Prefix, f.Go, j, names[k], flagNames(fg)), a, b, fg)
					}
				}
			}
		}
	}
	// whole documents
	docSpace(c, "models", 0, func(b docCase) bool {
		for _, n := range []int{0, len(b.Assigns) / 3, len(b.Assigns) / 2} {
			for _, fg := range few {
				merge(fmt.Sprintf("%s|into %d|%s", b.Key, n, flagNames(fg)), docCase{Assigns: b.Assigns[:n]}, b, fg)
			}
		}
		return true
	})
}

// mergeFacts lists the paths of a document and its unaddressed content.
func mergeFacts(d *xmp.Document) (map[string]string, error) {
	l, err := purePaths(d)
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	for _, x := range l {
		if _, ok := m[x.Path]; !ok {
			m[x.Path] = x.Value
		}
	}
	return m, nil
}

func mergeStep(c *core.Ctx, key string, a, b docCase, flags xmp.SyncFlags) string {
	da, _, err := a.build()
	if err != nil {
		return err.Error()
	}
	defer da.Close()
	db, _, err := b.build()
	if err != nil {
		return err.Error()
	}
	defer db.Close()
	if _, err := db.ListPaths(); err != nil {
		return "" // C07
	}
	dump := dumpDoc(db)
	listed, err := listing(db)
	if err != nil {
		return err.Error()
	}
	before, err := mergeFacts(da)
	if err != nil {
		return err.Error()
	}
	merr := da.Merge(db, flags)
	after, err := mergeFacts(da)
	if err != nil {
		return err.Error()
	}
	if s := dumpDoc(db); s != dump {
		return "the merged document changes from " + dump + " to " + s
	}
	f := flags
	if f == 0 {
		f = xmp.DEFAULT
	}
	has := func(x xmp.SyncFlags) bool { return f&x > 0 }
	if merr != nil && has(xmp.NOFAIL) {
		return "nofail returns " + merr.Error()
	}
	inSrc := map[string]string{}
	for _, x := range listed {
		inSrc[x.Path] = x.Value
	}
	keys := map[string]string{}
	for _, m := range []map[string]string{before, after, inSrc} {
		for k := range m {
			keys[k] = ""
		}
	}
	unset := func(p, s string) bool { return s == "" || isZeroText(s) || s == modelDefault(p) }
	for _, p := range sortedKeys(keys) {
		was, is, sv := before[p], after[p], inSrc[p]
		_, present := inSrc[p]
		alt := strings.HasSuffix(p, "]") && !strings.HasSuffix(p, "0]") && strings.ContainsAny(p[strings.LastIndexByte(p, '['):], "abcdefghijklmnopqrstuvwxyz")
		what := fmt.Sprintf("%s was %q, merged %q with %s, now %q (error %v)", p, was, sv, flagNames(flags), is, merr)
		switch {
		case strings.Contains(p, "xtension/"): // names of native tags are not specified
		case is == was && merr != nil:
		case !present:
			if is != was && !(unset(p, was) && unset(p, is)) {
				return what
			}
		case sv == was:
			if is != was && !(unset(p, was) && unset(p, is)) {
				return what
			}
		case unset(p, sv) && unset(p, was) && (is == was || is == sv):
		case alt && strings.HasSuffix(p, "[x-default]") && is == "" && isDefault(da, p): // listed with its language
		case alt && strings.HasSuffix(p, "[x-default]") && has(xmp.REPLACE) && is == sv: // was listed with its language
		case unset(p, was):
			if is != was && is != sv && !unset(p, is) {
				return what
			}
			if is == sv && !has(xmp.CREATE|xmp.APPEND|xmp.UNIQUE) && was == "" {
				return what
			}
			if is == was && has(xmp.CREATE) && was == "" {
				return what
			}
		case alt && has(xmp.APPEND|xmp.UNIQUE) && (is == was || is == sv):
		case has(xmp.REPLACE):
			if is != sv && !(unset(p, is) && unset(p, sv)) {
				return what
			}
		case is != was:
			return what
		}
	}
	if merr != nil {
		return ""
	}
	if !reflect.DeepEqual(before, after) {
		c.Nontrivial(key)
	}
	// into an empty document
	if len(a.Assigns) == 0 && has(xmp.CREATE) {
		// listing may let models that disagree settle on another value
		for _, x := range listed {
			if after[x.Path] != x.Value && !strings.Contains(x.Path, "xtension/") {
				return fmt.Sprintf("merged into an empty document: %s is %q instead of %q", x.Path, after[x.Path], x.Value)
			}
		}
		for _, p := range sortedKeys(after) {
			if _, ok := inSrc[p]; !ok && !unset(p, after[p]) && !strings.Contains(p, "xtension/") {
				return fmt.Sprintf("merged into an empty document: %s is %q", p, after[p])
			}
		}
	}
	// once more
	if has(xmp.NOFAIL) || has(xmp.REPLACE) && has(xmp.CREATE) {
		one := dumpDoc(da)
		if err := da.Merge(db, flags); err != nil {
			if has(xmp.NOFAIL) {
				return "second merge: " + err.Error()
			}
			return ""
		}
		twice, err := mergeFacts(da)
		if err != nil {
			return err.Error()
		}
		if !has(xmp.APPEND) {
			if m := diffMap(after, twice); m != "" && !reflect.DeepEqual(after, twice) {
				return "second merge: " + m
			}
			if two := dumpDoc(da); one != two {
				return "second merge: from " + one + " to " + two
			}
		}
	}
	return ""
}

// c11lists covers merging long lists, alternatives and unknown properties.
func c11lists(c *core.Ctx) {
	c.Group("merge lists")
	type doc map[string]string
	long := func(p string, n int, v string) doc {
		d := doc{}
		for i := 0; i < n; i++ {
			d[fmt.Sprintf("%s[%d]", p, i)] = fmt.Sprint(v, i)
		}
		return d
	}
	var docs []doc
	for _, p := range []string{"dc:creator", "xmpMM:History[0]/stEvt:changed", "mine:list", "xmp:Identifier", "tiff:BitsPerSample"} {
		v := "v"
		if strings.HasPrefix(p, "tiff") {
			v = "1"
		}
		if strings.HasPrefix(p, "xmpMM") {
			continue
		}
		docs = append(docs, long(p, 2, v), long(p, 12, v))
	}
	docs = append(docs, doc{}, doc{"dc:title[x-default]": "t", "dc:title[en]": "e"}, doc{"dc:title[x-default]": "u", "dc:title[de]": "d", "dc:source": "s"},
		doc{"mine:prop": "p", "yours:prop": "y", "dc:source": "s2"}, doc{"mine:prop": "q", "mine:other": "o"}, doc{"xmpMM:Ingredients[0]/stRef:documentID": "i0", "xmpMM:Ingredients[1]/stRef:documentID": "i1", "xmpMM:DerivedFrom/stRef:documentID": "f"})
	mk := func(l ...doc) (*xmp.Document, error) {
		d := xmp.NewDocument()
		for _, x := range l {
			// in order of the index, as a user writes it
			for n := 0; n < 13; n++ {
				for _, p := range sortedKeys(x) {
					i := 0
					if k := strings.IndexByte(p, '['); k > 0 {
						fmt.Sscanf(p[k:], "[%d]", &i)
					}
					if i != n {
						continue
					}
					uri := ""
					if strings.HasPrefix(p, "mine:") {
						uri = nsMine
					} else if strings.HasPrefix(p, "yours:") {
						uri = nsYours
					}
					if err := d.SetPath(xmp.PathValue{Path: xmp.Path(p), Value: x[p], Namespace: uri}); err != nil {
						return nil, fmt.Errorf("%s: %v", p, err)
					}
				}
			}
		}
		return d, nil
	}
	get := func(d *xmp.Document) map[string]string {
		m := map[string]string{}
		l, err := listing(d)
		if err != nil {
			m["error"] = err.Error()
		}
		for _, x := range l {
			m[x.Path] = x.Value
		}
		return m
	}
	for i, a := range docs {
		for j, b := range docs {
			for k, b2 := range docs {
				if k > 0 && !c.Thorough() && (k != i && k != j) {
					continue
				}
				for f := xmp.SyncFlags(0); f < 64; f++ {
					if f&(xmp.APPEND) > 0 || f&xmp.NOFAIL == 0 {
						continue
					}
					key := fmt.Sprintf("lists|%d|%d|%d|%s", i, j, k, flagNames(f))
					a, b, b2, f := a, b, b2, f
					c.Case(key, func() any { return []any{a, b, b2, flagNames(f)} }, func() string {
						da, err := mk(a)
						if err != nil {
							return err.Error()
						}
						defer da.Close()
						want := get(da)
						for _, x := range []doc{b, b2} {
							db, err := mk(x)
							if err != nil {
								return err.Error()
							}
							src, had := get(db), get(da)
							if err := da.Merge(db, f); err != nil {
								return "nofail returns " + err.Error()
							}
							if m := diffMap(src, get(db)); m != "" {
								return "the merged document changes: " + m
							}
							db.Close()
							for p, v := range src {
								switch w := want[p]; {
								case w == "" && f&xmp.CREATE > 0, w != "" && f&xmp.REPLACE > 0:
									want[p] = v
								}
							}
							got := get(da)
							for _, p := range sortedKeys(got) {
								// open: with UNIQUE a missing value may be made, as a list if
								// nothing tells
								if q := strings.SplitN(p, "[", 2)[0]; q != p && want[p] == "" && f&xmp.UNIQUE > 0 && f&xmp.CREATE == 0 && got[p] == src[q] {
									want[p] = got[p]
								}
								if want[p] == "" && f&xmp.UNIQUE > 0 && got[p] == src[p] {
									want[p] = got[p]
								}
								if strings.HasPrefix(p, "dc:title[") && f&xmp.UNIQUE > 0 && (got[p] == src[p] || got[p] == had[p]) {
									want[p] = got[p]
								}
							}
							if m := diffMap(want, got); m != "" {
								return m
							}
							c.Nontrivial(key)
						}
						// everything can be written and read
						out, err := xmp.Marshal(da)
						if err != nil {
							return "writing the result: " + err.Error()
						}
						dc := xmp.NewDocument()
						defer dc.Close()
						if err := xmp.Unmarshal(out, dc); err != nil {
							return "reading the result: " + err.Error()
						}
						if m := diffMap(want, get(dc)); m != "" {
							return "written and read: " + m
						}
						return ""
					})
				}
			}
		}
	}
}

// isDefault tells whether the alternative p belongs to has a default.
func isDefault(d *xmp.Document, p string) bool {
	v, err := d.GetPath(xmp.Path(p))
	return err == nil && v != ""
}

// c11prefixes covers merging documents that use other prefixes for the same
// name spaces or the same prefixes for other ones.
func c11prefixes(c *core.Ctx) {
	c.Group("merge prefixes")
	uris := []string{"http://example.com/u0/", "http://example.com/u1/", "urn:u2#"}
	n := func(i int, s string) string { return "{" + uris[i] + "}" + s }
	dcn := func(s string) string { return "{" + gold.Namespaces["dc"] + "}" + s }
	docA := []rprop{{n(0, "x"), rt("a0")}, {n(1, "y"), rlist(rSeq, rt("a1"), rt("a2"))}, {n(2, "z"), rstruct(rprop{n(1, "f"), rt("a3")}, rprop{n(2, "g"), rt("a4")})}}
	docB := []rprop{
		{n(0, "s"), rstruct(rprop{n(0, "own"), rt("b0")}, rprop{n(1, "f"), rt("b1")}, rprop{n(2, "g"), rt("b2")}, rprop{n(2, "h"), rstruct(rprop{n(0, "k"), rt("b3")}, rprop{n(1, "k"), rt("b4")})}, rprop{n(1, "l"), rlist(rSeq, rt("b5"), rt("b6"))})},
		{n(1, "l"), rlist(rSeq, rstruct(rprop{n(2, "f"), rt("b7")}, rprop{n(0, "f"), rt("b8")}), rstruct(rprop{n(1, "f"), rt("b9")}))},
		{n(2, "plain"), rt("b10")},
		{dcn("unknownProp"), rstruct(rprop{n(1, "f"), rt("b11")}, rprop{n(2, "f"), rt("b12")})},
		{dcn("format"), rt("b13")},
	}
	var maps []map[string]string
	names := []string{"p", "q", "r", "ns1"}
	for i := range names {
		for j := range names {
			for k := range names {
				if i != j && j != k && i != k {
					maps = append(maps, map[string]string{uris[0]: names[i], uris[1]: names[j], uris[2]: names[k]})
				}
			}
		}
	}
	read := func(ps []rprop, m map[string]string) (*xmp.Document, error) {
		d := xmp.NewDocument()
		return d, xmp.Unmarshal(writeRDF(ps, rform{Names: m}, "", ""), d)
	}
	props := func(d *xmp.Document) (map[string]string, error) {
		b, err := xmp.Marshal(d)
		if err != nil {
			return nil, err
		}
		r, err := parseRDF(b)
		if err != nil {
			return nil, fmt.Errorf("%v\n%s", err, b)
		}
		m, err := r.byName()
		if err != nil {
			return nil, fmt.Errorf("%v\n%s", err, b)
		}
		return m, nil
	}
	few := []xmp.SyncFlags{xmp.CREATE, xmp.CREATE | xmp.REPLACE, xmp.MERGE, xmp.EXTEND}
	for i, ma := range maps {
		for j, mb := range maps {
			for fi, f := range few {
				for _, only := range []int{-1, 0, 1, 2, 3} {
					if only >= 0 && fi > 0 {
						continue
					}
					ma, mb, f, b := ma, mb, f, docB
					if only >= 0 {
						b = docB[only : only+1]
					}
					key := fmt.Sprintf("prefixes|%v|%v|%s|%d", ma, mb, flagNames(f), only)
					_, _ = i, j
					c.Case(key, nil, func() string {
						da, err := read(docA, ma)
						if err != nil {
							return err.Error()
						}
						defer da.Close()
						db, err := read(b, mb)
						if err != nil {
							return err.Error()
						}
						defer db.Close()
						was := dumpDoc(db)
						for n := 0; n < 2; n++ {
							if err := da.Merge(db, f|xmp.NOFAIL); err != nil {
								return err.Error()
							}
							got, err := props(da)
							if err != nil {
								return err.Error()
							}
							want := map[string]string{}
							for _, p := range append(append([]rprop{}, docA...), b...) {
								want[p.Name] = p.Val.String()
							}
							if m := diffMap(want, got); m != "" {
								return fmt.Sprintf("merge %d: %s", n+1, m)
							}
						}
						if s := dumpDoc(db); s != was {
							return "the merged document changes from " + was + " to " + s
						}
						c.Nontrivial(key)
						return ""
					})
				}
			}
		}
	}
}
