package checks

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/trimmer-io/go-xmp/models/dc"
	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/riff"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

// arrSys explores one array type against a list of strings.
type arrSys struct {
	inits [][]string
	vals  []string
	max   int
	set   func(l []string) // start with a list
	get   func() []string  // the list's content
	keep  func() []string  // the content of a copy taken when called, when read later
	hold  func()           // takes the copy
	info  func() string    // hidden state
	op    []arrOp          // operations with a value
	look  func(v string) (index int, contains bool)
	whole func(l []string) string // checks on the whole list

	l, held []string
}

type arrOp struct {
	name string
	impl func(v string) error
	next func(l []string, v string) [][]string // what the list may be afterwards
}

func appendTo(l []string, v string) [][]string {
	if v == "" {
		return [][]string{l}
	}
	return [][]string{append(append([]string{}, l...), v)}
}

func appendNew(l []string, v string) [][]string {
	if has(l, v) {
		return [][]string{l}
	}
	return appendTo(l, v)
}

func removeOne(l []string, v string) [][]string {
	var r [][]string
	for i := range l {
		if l[i] == v && v != "" {
			r = append(r, append(append([]string{}, l[:i]...), l[i+1:]...))
		}
	}
	if r == nil {
		return [][]string{l}
	}
	return r
}

func (s *arrSys) Inits() []string {
	var l []string
	for _, v := range s.inits {
		l = append(l, fmt.Sprintf("%q", v))
	}
	return l
}

func (s *arrSys) Ops() []string {
	l := []string{"copy"}
	for _, o := range s.op {
		for _, v := range s.vals {
			l = append(l, fmt.Sprintf("%s(%q)", o.name, v))
		}
	}
	return l
}

func (s *arrSys) Reset(i int) {
	s.set(append([]string{}, s.inits[i]...))
	s.l, s.held = append([]string{}, s.inits[i]...), nil
	if s.hold != nil {
		s.hold()
		s.held = append([]string{}, s.l...)
	}
}

func (s *arrSys) Canon() string { return fmt.Sprintf("%q %q ", s.l, s.held) + s.info() }

func eqList(a, b []string) bool {
	return len(a) == len(b) && strings.Join(a, "\x00") == strings.Join(b, "\x00")
}

func (s *arrSys) Apply(o int) string {
	if o == 0 {
		if s.hold != nil {
			s.hold()
			s.held = append([]string{}, s.l...)
		}
		return ""
	}
	o--
	op, v := s.op[o/len(s.vals)], s.vals[o%len(s.vals)]
	want := op.next(s.l, v)
	if len(want[0]) > s.max {
		return ""
	}
	if err := op.impl(v); err != nil {
		return fmt.Sprintf("%s(%q) fails: %v", op.name, v, err)
	}
	got := s.get()
	ok := false
	for _, w := range want {
		ok = ok || eqList(got, w)
	}
	if !ok {
		return fmt.Sprintf("%s(%q) on %q gives %q, expected one of %q", op.name, v, s.l, got, want)
	}
	s.l = got
	for _, v := range append([]string{"-"}, s.vals...) {
		if s.look == nil {
			break
		}
		i, c := s.look(v)
		switch {
		case c != has(s.l, v):
			return fmt.Sprintf("%q: contains %q is %v", s.l, v, c)
		case i == -2:
		case i == -1 && has(s.l, v), i >= len(s.l), i >= 0 && s.l[i] != v:
			return fmt.Sprintf("%q: index of %q is %d", s.l, v, i)
		}
	}
	if s.whole != nil {
		if m := s.whole(s.l); m != "" {
			return m
		}
	}
	if s.hold != nil {
		if k := s.keep(); !eqList(k, s.held) {
			return fmt.Sprintf("%s(%q) on %q changes a copy taken before from %q to %q", op.name, v, s.l, s.held, k)
		}
	}
	return ""
}

// arrOf builds a system around a slice type with string elements.
func arrOf[T ~[]E, E ~string](x *T, ops func(x *T) []arrOp, look func(x *T, v string) (int, bool), whole func(x *T, l []string) string) *arrSys {
	var held T
	strs := func(t T) []string {
		l := []string{}
		for _, v := range t {
			l = append(l, string(v))
		}
		return l
	}
	s := &arrSys{vals: []string{"", "a", "A", "ab", " a"}, max: 5, inits: [][]string{nil, {"a"}, {"ab", "a", "A"}}}
	s.set = func(l []string) {
		var t T
		for _, v := range l {
			t = append(t, E(v))
		}
		*x = t
	}
	s.get = func() []string { return strs(*x) }
	s.hold = func() { held = *x }
	s.keep = func() []string { return strs(held) }
	s.info = func() string { return fmt.Sprint(cap(*x), *x == nil) }
	s.op = ops(x)
	if look != nil {
		s.look = func(v string) (int, bool) { return look(x, v) }
	}
	if whole != nil {
		s.whole = func(l []string) string { return whole(x, l) }
	}
	return s
}

func noErr(f func(string)) func(string) error {
	return func(v string) error { f(v); return nil }
}

// textOf checks that the text form of a list names its elements.
func textOf(x interface{ MarshalText() ([]byte, error) }, l []string, sep string) string {
	b, err := x.MarshalText()
	if err != nil {
		return fmt.Sprintf("%q has no text form: %v", l, err)
	}
	if string(b) != strings.Join(l, sep) {
		return fmt.Sprintf("%q: text is %q", l, b)
	}
	return ""
}

func arrTypes() map[string]*arrSys {
	r := map[string]*arrSys{}
	r["StringList"] = arrOf(&xmp.StringList{}, func(x *xmp.StringList) []arrOp {
		return []arrOp{{"Add", func(v string) error { return x.Add(v) }, appendTo}, {"AddUnique", func(v string) error { return x.AddUnique(v) }, appendNew}, {"Remove", noErr(func(v string) { x.Remove(v) }), removeOne}}
	}, func(x *xmp.StringList, v string) (int, bool) { return x.Index(v), x.Contains(v) },
		func(x *xmp.StringList, l []string) string {
			if x.IsZero() != (len(l) == 0) || x.Typ() != xmp.ArrayTypeOrdered {
				return fmt.Sprintf("%q: IsZero is %v, type %s", l, x.IsZero(), x.Typ())
			}
			if n := xmp.NewStringList(append([]string{""}, l...)...); !eqList(n, l) {
				return fmt.Sprintf("a new list of an empty value and %q is %q", l, n)
			}
			return textOf(x, l, "\n")
		})
	r["StringArray"] = arrOf(&xmp.StringArray{}, func(x *xmp.StringArray) []arrOp {
		return []arrOp{{"Add", func(v string) error { return x.Add(v) }, appendTo}, {"AddUnique", func(v string) error { return x.AddUnique(v) }, appendNew}, {"Remove", noErr(func(v string) { x.Remove(v) }), removeOne}}
	}, func(x *xmp.StringArray, v string) (int, bool) { return x.Index(v), x.Contains(v) },
		func(x *xmp.StringArray, l []string) string {
			if x.IsZero() != (len(l) == 0) || x.Typ() != xmp.ArrayTypeUnordered {
				return fmt.Sprintf("%q: IsZero is %v, type %s", l, x.IsZero(), x.Typ())
			}
			if n := xmp.NewStringArray(append([]string{""}, l...)...); !eqList(n, l) {
				return fmt.Sprintf("a new array of an empty value and %q is %q", l, n)
			}
			return textOf(x, l, "\n")
		})
	r["TakeTypeList"] = arrOf(&ixml.TakeTypeList{}, func(x *ixml.TakeTypeList) []arrOp {
		return []arrOp{{"Add", noErr(func(v string) { x.Add(ixml.TakeType(v)) }), appendNew}, {"Del", noErr(func(v string) { x.Del(ixml.TakeType(v)) }), removeOne}}
	}, func(x *ixml.TakeTypeList, v string) (int, bool) { return -2, x.Contains(ixml.TakeType(v)) },
		func(x *ixml.TakeTypeList, l []string) string {
			if x.IsDefault() != (len(l) == 0 || has(l, string(ixml.TakeTypeDefault))) {
				return fmt.Sprintf("%q: IsDefault is %v", l, x.IsDefault())
			}
			return textOf(x, l, ",")
		})
	r["TakeTypeList"].vals = []string{"", "NO_GOOD", "DEFAULT", "other"}
	r["LocationTypeList"] = arrOf(&ixml.LocationTypeList{}, func(x *ixml.LocationTypeList) []arrOp {
		return []arrOp{{"Add", noErr(func(v string) { x.Add(ixml.LocationType(v)) }), appendNew}, {"Del", noErr(func(v string) { x.Del(ixml.LocationType(v)) }), removeOne}}
	}, func(x *ixml.LocationTypeList, v string) (int, bool) { return -2, x.Contains(ixml.LocationType(v)) },
		func(x *ixml.LocationTypeList, l []string) string { return textOf(x, l, ",") })
	r["LocationTimeList"] = arrOf(&ixml.LocationTimeList{}, func(x *ixml.LocationTimeList) []arrOp {
		return []arrOp{{"Add", noErr(func(v string) { x.Add(ixml.LocationTime(v)) }), appendNew}, {"Del", noErr(func(v string) { x.Del(ixml.LocationTime(v)) }), removeOne}}
	}, func(x *ixml.LocationTimeList, v string) (int, bool) { return -2, x.Contains(ixml.LocationTime(v)) },
		func(x *ixml.LocationTimeList, l []string) string { return textOf(x, l, ",") })
	set := func(v string) ixml.FunctionSet { // one or two values
		if v == "" {
			return nil
		}
		return ixml.FunctionSet{ixml.FunctionType(v), "", "c"}
	}
	r["FunctionSet"] = arrOf(&ixml.FunctionSet{}, func(x *ixml.FunctionSet) []arrOp {
		return []arrOp{{"Add", noErr(func(v string) { x.Add(ixml.FunctionType(v)) }), appendNew}, {"Del", noErr(func(v string) { x.Del(ixml.FunctionType(v)) }), removeOne},
			{"Merge", noErr(func(v string) { x.Merge(set(v)) }), func(l []string, v string) [][]string {
				for _, w := range set(v) {
					l = appendNew(l, string(w))[0]
				}
				return [][]string{l}
			}},
			{"Sub", noErr(func(v string) { x.Sub(set(v)) }), func(l []string, v string) [][]string {
				for _, w := range set(v) {
					l = removeOne(l, string(w))[0]
				}
				return [][]string{l}
			}},
			{"SubSelf", noErr(func(v string) { x.Sub(*x) }), func(l []string, v string) [][]string { return [][]string{{}} }}}
	}, func(x *ixml.FunctionSet, v string) (int, bool) { return -2, x.Contains(ixml.FunctionType(v)) }, nil)

	ids := &xmpbase.IdentifierArray{}
	idOf := func(x xmpbase.IdentifierArray) []string {
		l := []string{}
		for _, v := range x {
			l = append(l, v.ID)
		}
		return l
	}
	var idHeld xmpbase.IdentifierArray
	r["IdentifierArray"] = &arrSys{vals: []string{"", "a", "A", "ab", " a"}, max: 5, inits: [][]string{nil, {"a"}, {"ab", "a", "A"}},
		set: func(l []string) {
			*ids = xmpbase.NewIdentifierArray()
			for _, v := range l {
				*ids = append(*ids, xmpbase.Identifier{ID: v})
			}
		},
		get: func() []string { return idOf(*ids) }, hold: func() { idHeld = *ids }, keep: func() []string { return idOf(idHeld) },
		info: func() string { return fmt.Sprint(cap(*ids)) },
		look: func(v string) (int, bool) { return ids.Index(v), ids.Contains(v) },
		op:   []arrOp{{"Add", noErr(func(v string) { ids.Add(v) }), appendTo}, {"AddUnique", func(v string) error { return ids.AddUnique(v) }, appendNew}, {"Remove", noErr(func(v string) { ids.Remove(v) }), removeOne}},
		whole: func(l []string) string {
			a := []interface{}{""}
			for _, v := range l {
				a = append(a, v)
			}
			if n := idOf(xmpbase.NewIdentifierArray(a...)); !eqList(n, l) || ids.IsZero() != (len(l) == 0) {
				return fmt.Sprintf("a new array of an empty value and %q is %q, IsZero is %v", l, n, ids.IsZero())
			}
			return ""
		}}

	refs := &xmpmm.ResourceRefArray{}
	refOf := func(x xmpmm.ResourceRefArray) []string {
		l := []string{}
		for _, v := range x {
			if v == nil {
				l = append(l, "<nil>")
			} else {
				l = append(l, string(v.DocumentID))
			}
		}
		return l
	}
	var refHeld xmpmm.ResourceRefArray
	delAt := func(f func(i int)) []arrOp {
		var r []arrOp
		for i := -1; i < 5; i++ {
			i := i
			r = append(r, arrOp{fmt.Sprintf("DeleteIndex %d ", i), noErr(func(string) { f(i) }), func(l []string, v string) [][]string {
				if i < 0 || i >= len(l) {
					return [][]string{l}
				}
				return [][]string{append(append([]string{}, l[:i]...), l[i+1:]...)}
			}})
		}
		return r
	}
	r["ResourceRefArray"] = &arrSys{vals: []string{"a"}, max: 5, inits: [][]string{nil, {"a"}, {"b", "a"}, {"b", "<nil>", "a", "b"}},
		set: func(l []string) {
			*refs = nil
			for _, v := range l {
				if v == "<nil>" {
					*refs = append(*refs, nil)
				} else {
					*refs = append(*refs, &xmpmm.ResourceRef{DocumentID: xmp.GUID(v)})
				}
			}
		},
		get: func() []string { return refOf(*refs) }, hold: func() { refHeld = *refs }, keep: func() []string { return refOf(refHeld) },
		info: func() string { return fmt.Sprint(cap(*refs)) },
		look: func(v string) (int, bool) { i := refs.Index(xmp.GUID(v)); return i, i >= 0 },
		op:   append(delAt(func(i int) { refs.DeleteIndex(i) }), arrOp{"append", noErr(func(v string) { *refs = append(*refs, &xmpmm.ResourceRef{DocumentID: xmp.GUID(v)}) }), appendTo})}

	parts := &xmpdm.PartList{}
	r["PartList"] = &arrSys{vals: []string{"", "/a", "/b/c"}, max: 4, inits: [][]string{nil, {"/a"}},
		set: func(l []string) {
			*parts = nil
			for _, v := range l {
				*parts = append(*parts, xmpdm.Part{Path: v})
			}
		},
		get: func() []string {
			l := []string{}
			for _, v := range *parts {
				l = append(l, v.Path)
			}
			return l
		},
		info: func() string { return "" },
		op:   []arrOp{{"Add", noErr(func(v string) { parts.Add(v) }), appendTo}, {"AddPart", noErr(func(v string) { parts.AddPart(xmpdm.Part{Path: v}) }), appendTo}}}

	alts := &xmp.AltStringArray{}
	r["AltStringArray"] = &arrSys{vals: []string{"", "a", "b", "b "}, max: 4, inits: [][]string{nil, {"a"}},
		set: func(l []string) {
			*alts = nil
			for _, v := range l {
				a := xmp.NewAltString(v)
				*alts = append(*alts, &a)
			}
		},
		get: func() []string {
			l := []string{}
			for _, v := range *alts {
				if v == nil {
					l = append(l, "<nil>")
				} else {
					l = append(l, v.Default())
				}
			}
			return l
		},
		info: func() string { return "" },
		op: []arrOp{{"Add", func(v string) error { a := xmp.NewAltString(v); return alts.Add(&a) }, appendTo}, {"Add nil", func(string) error { return alts.Add(nil) }, func(l []string, v string) [][]string { return [][]string{l} }},
			{"New", noErr(func(v string) { a := xmp.NewAltString(v); *alts = xmp.NewAltStringArray(append(*alts, nil, &a)...) }), appendTo}},
		whole: func(l []string) string {
			if alts.IsZero() != (len(l) == 0) {
				return "IsZero"
			}
			return ""
		}}

	ints := func(name string, set func(l []int), get func() []int, add func(int) error, mk func(...int) []int, str func() string) {
		of := func(l []int) []string {
			r := []string{}
			for _, v := range l {
				r = append(r, fmt.Sprint(v))
			}
			return r
		}
		r[name] = &arrSys{vals: []string{"0", "1", "-5"}, max: 5, inits: [][]string{nil, {"0"}, {"7", "7"}},
			set: func(l []string) {
				var n []int
				for _, v := range l {
					var i int
					fmt.Sscan(v, &i)
					n = append(n, i)
				}
				set(n)
			},
			get: func() []string { return of(get()) }, info: func() string { return "" },
			op: []arrOp{{"Add", func(v string) error { var i int; fmt.Sscan(v, &i); return add(i) }, appendTo}},
			whole: func(l []string) string {
				if n := of(mk(get()...)); !eqList(n, l) {
					return fmt.Sprintf("New of %q is %q", l, n)
				}
				if str != nil && str() != strings.Join(l, " ") {
					return fmt.Sprintf("text of %q is %q", l, str())
				}
				return ""
			}}
	}
	ia, il := &xmp.IntArray{}, &xmp.IntList{}
	ints("IntArray", func(l []int) { *ia = l }, func() []int { return *ia }, func(v int) error { return ia.Add(v) }, func(v ...int) []int { return xmp.NewIntArray(v...) }, nil)
	ints("IntList", func(l []int) { *il = l }, func() []int { return *il }, func(v int) error { return il.Add(v) }, func(v ...int) []int { return xmp.NewIntList(v...) }, func() string { return il.String() })
	return r
}

// altState checks the invariant of a language alternative.
func altState(a xmp.AltString) string {
	for i, v := range a {
		if v.IsDefault != (i == 0) {
			return fmt.Sprintf("%+v: %d is the default: %v", a, i, v.IsDefault)
		}
		if v.Value == "" || v.Lang == "x-default" {
			return fmt.Sprintf("%+v holds an empty value or the language x-default", a)
		}
	}
	if len(a) > 0 && (a.Default() != a[0].Value || a.Get("") != a[0].Value || a.Get("x-default") != a[0].Value || a.Index("x-default") != 0) {
		return fmt.Sprintf("%+v: the default is %q, %q, %q at %d", a, a.Default(), a.Get(""), a.Get("x-default"), a.Index("x-default"))
	}
	for _, l := range []string{"en", "de", "fr"} {
		want, val := -1, ""
		for i, v := range a {
			if v.Lang == l {
				want, val = i, v.Value
				break
			}
		}
		if a.Index(l) != want || a.Get(l) != val {
			return fmt.Sprintf("%+v: %s is at %d, value %q", a, l, a.Index(l), a.Get(l))
		}
	}
	if a.IsZero() != (len(a) == 0) {
		return "IsZero"
	}
	return ""
}

// altLang lists the values of a language, "" those of an item without one.
func altLang(a xmp.AltString, lang string) []string {
	l := []string{}
	for _, v := range a {
		if v.Lang == lang {
			l = append(l, v.Value)
		}
	}
	sort.Strings(l)
	return l
}

// altOthers lists all languages but one.
func altOthers(a xmp.AltString, but ...string) string {
	var l []string
	for _, v := range a {
		if !has(but, v.Lang) && v.Lang != "" {
			l = append(l, v.Lang+"="+v.Value)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

type altArr struct {
	inits []xmp.AltString
	vals  []string
	a     xmp.AltString
}

var altOps = []string{"Add", "AddDefault", "AddUnique", "Set", "RemoveLang", "EnsureDefault"}
var altLangs = []string{"", "x-default", "en", "de"}

func (s *altArr) Inits() []string {
	var l []string
	for _, v := range s.inits {
		l = append(l, fmt.Sprintf("%+v", v))
	}
	return l
}

func (s *altArr) Ops() []string {
	var l []string
	for _, o := range altOps {
		for _, lang := range altLangs {
			for _, v := range s.vals {
				l = append(l, fmt.Sprintf("%s(%q,%q)", o, lang, v))
			}
		}
	}
	return l
}

func (s *altArr) Reset(i int) { s.a = append(xmp.AltString{}, s.inits[i]...) }

func (s *altArr) Canon() string { return fmt.Sprintf("%+v %d", s.a, cap(s.a)) }

func (s *altArr) Apply(o int) string {
	v := s.vals[o%len(s.vals)]
	o /= len(s.vals)
	given := altLangs[o%len(altLangs)]
	op := altOps[o/len(altLangs)]
	if op != "EnsureDefault" && op != "RemoveLang" && len(s.a) >= 5 {
		return ""
	}
	lang := given
	if lang == "x-default" {
		lang = ""
	}
	b := append(xmp.AltString{}, s.a...)
	defLang := ""
	if len(b) > 0 {
		defLang = b[0].Lang
	}
	added := true
	switch op {
	case "Add":
		s.a.Add(given, v)
	case "AddDefault":
		s.a.AddDefault(given, v)
	case "AddUnique":
		added = s.a.AddUnique(given, v)
	case "Set":
		s.a.Set(given, v)
	case "RemoveLang":
		s.a.RemoveLang(given)
	case "EnsureDefault":
		s.a.EnsureDefault()
	}
	a := s.a
	fail := func(what string) string {
		return fmt.Sprintf("%s(%q,%q) on %+v gives %+v: %s", op, given, v, b, a, what)
	}
	if m := altState(a); m != "" {
		return fail(m)
	}
	same := len(a) == len(b)
	for i := range a {
		same = same && a[i] == b[i]
	}
	// other languages
	but := []string{lang}
	if op == "RemoveLang" && given == "x-default" {
		but = append(but, defLang)
	}
	if altOthers(a, but...) != altOthers(b, but...) {
		return fail("another language changes")
	}
	if lang != "" && op != "AddDefault" && len(b) > 0 && (lang != defLang || op == "Add" || op == "AddUnique") {
		if a.Default() != b.Default() || a[0].Lang != b[0].Lang {
			return fail("the default changes")
		}
	}
	switch {
	case op == "EnsureDefault", op != "RemoveLang" && v == "":
		if !same || op == "AddUnique" && added {
			return fail("nothing to do")
		}
	case op == "RemoveLang" && lang != "":
		if n, m := len(altLang(b, lang)), len(altLang(a, lang)); n > 0 && m >= n || len(altLang(a, "")) != len(altLang(b, "")) {
			return fail("not just the language is removed")
		}
	case op == "RemoveLang":
		if len(b) > 0 && defLang == "" && len(a) != len(b)-1 || defLang != "" && given == "" && !same {
			return fail("not just the default is removed")
		}
	case op == "AddUnique" && !added:
		if !same {
			return fail("reports nothing added")
		}
		if lang != "" && !has(altLang(b, lang), v) || lang == "" && len(b) == 0 {
			return fail("is not added")
		}
	case op == "AddUnique" && lang != "" && has(altLang(b, lang), v):
		return fail("is added twice")
	case lang == "" && op != "AddDefault":
		if a.Default() != v || a[0].Lang != "" && a[0].Lang != defLang {
			return fail("the default is not set")
		}
	case op == "AddDefault":
		if a[0].Value != v || a[0].Lang != lang {
			return fail("the default is not set")
		}
	case op == "Set" && len(altLang(b, lang)) > 0:
		if a.Get(lang) != v || len(a) != len(b) {
			return fail("the language is not set")
		}
	default:
		want := append(altLang(b, lang), v)
		sort.Strings(want)
		if !eqList(altLang(a, lang), want) {
			return fail("the language is not added")
		}
	}
	return ""
}

func init() {
	core.Add(&core.Check{ID: "C10", Level: "exploration", Shards: 8, Run: c10,
		Rule:        "breadth-first over all operation histories of each array type from several initial states, against a list of values; all language alternatives of a few items, built, decoded from RDF and JSON and set by path",
		Assumptions: []string{"operations on a language that occurs more than once are held to the invariants only, as is removing one of several equal values (any one may go)"}})
}

func c10(c *core.Ctx) {
	// lists
	types := arrTypes()
	var names []string
	for n := range types {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if c.Mine() {
			c.Bound("depth_lists", core.Pick(c, 8, 12))
			c.BFS(n, types[n], core.Pick(c, 8, 12))
		}
	}
	c10pure(c)

	// alternatives
	item := func(lang, v string, def bool) xmp.AltItem { return xmp.AltItem{Lang: lang, Value: v, IsDefault: def} }
	inits := []xmp.AltString{nil, {item("", "a", true)}, {item("en", "a", true)}, {item("", "a", true), item("en", "b", false)},
		{item("en", "a", true), item("de", "b", false)}, {item("de", "a", true), item("fr", "a", false), item("en", "b", false)}}
	for i, in := range inits {
		if c.Mine() {
			c.Bound("depth_alternatives", core.Pick(c, 5, 8))
			c.BFS(fmt.Sprintf("AltString %d", i), &altArr{inits: []xmp.AltString{in}, vals: []string{"", "a", "b", "a "}}, core.Pick(c, 5, 8))
		}
	}
	// all alternatives of up to n items
	var rec func(n int, a []xmp.AltItem)
	max := core.Pick(c, 4, 5)
	c.Bound("items", max)
	rec = func(n int, a []xmp.AltItem) {
		l := append([]xmp.AltItem{}, a...)
		if len(l) > 0 {
			for range c.Block() {
				c10alt(c, l)
			}
		}
		if n == 0 {
			return
		}
		for _, lang := range []string{"", "x-default", "en", "de"} {
			for _, v := range []string{"a", "b", ""} {
				for _, def := range []bool{false, true} {
					if (lang == "" || lang == "x-default") && !def && lang != "x-default" && len(a) > 0 {
						continue // just the default goes without a language
					}
					rec(n-1, append(a[:len(a):len(a)], item(lang, v, def)))
				}
			}
		}
	}
	rec(max, nil)
	// strings
	for _, l := range [][]interface{}{{}, {""}, {"a"}, {"", "a"}, {xmp.Uri("u")}, {nil}, {3}, {item("", "", true), "a"}} {
		l := l
		for range c.Block() {
			c.Group("new")
			c.Case(fmt.Sprintf("new|%v", l), nil, func() string {
				a := xmp.NewAltString(l...)
				if m := altState(a); m != "" {
					return m
				}
				want := ""
				for _, v := range l {
					if s, ok := v.(string); ok && s != "" {
						want = s
					}
				}
				if want != "" && a.Default() != want {
					return fmt.Sprintf("NewAltString(%q) is %+v", l, a)
				}
				return ""
			})
		}
	}
}

// c10alt builds one alternative in every way.
func c10alt(c *core.Ctx, items []xmp.AltItem) {
	name := fmt.Sprintf("%+v", items)
	// which item is the default, by flag or language
	def, nodef := -1, 0
	langs := map[string]int{}
	empty := false
	for i, v := range items {
		empty = empty || v.Value == ""
		if v.Value == "" {
			continue
		}
		if def == -1 && (v.IsDefault || v.Lang == "x-default") {
			def = i
		} else if v.Lang == "" || v.Lang == "x-default" {
			nodef++
		}
		langs[v.Lang]++
	}
	if def == -1 {
		for i, v := range items {
			if v.Value != "" {
				def = i
				break
			}
		}
		if def >= 0 && items[def].Lang == "" {
			nodef--
		}
	}
	if nodef > 0 {
		return // two items without a language have no meaning
	}
	want := func(a xmp.AltString, how string) string {
		if m := altState(a); m != "" {
			return how + ": " + m
		}
		if def == -1 {
			if len(a) > 0 {
				return fmt.Sprintf("%s: %+v", how, a)
			}
			return ""
		}
		if a.Default() != items[def].Value {
			return fmt.Sprintf("%s: default is %q in %+v", how, a.Default(), a)
		}
		for lang := range langs {
			if lang == "" || lang == "x-default" {
				continue
			}
			var l []string
			for _, v := range items {
				if v.Lang == lang && v.Value != "" {
					l = append(l, v.Value)
				}
			}
			sort.Strings(l)
			if !eqList(altLang(a, lang), l) {
				return fmt.Sprintf("%s: language %s has %q in %+v", how, lang, altLang(a, lang), a)
			}
		}
		return ""
	}
	c.Group("built")
	c.Case("built|"+name, func() any { return items }, func() string {
		var l []interface{}
		for _, v := range items {
			l = append(l, v)
		}
		a := xmp.NewAltString(l...)
		if m := want(a, "NewAltString"); m != "" {
			return m
		}
		if empty {
			return ""
		}
		a = append(xmp.AltString{}, items...)
		a.EnsureDefault()
		return want(a, "EnsureDefault")
	})
	// document forms: a default with a language has two items
	dup := false
	for _, n := range langs {
		dup = dup || n > 1
	}
	if empty || dup || def == -1 {
		return
	}
	for _, v := range items {
		if v.IsDefault && v.Lang != "" {
			return
		}
	}
	c.Nontrivial("decoded|" + name)
	c.Group("decoded")
	c.Case("decoded|"+name, func() any { return items }, func() string {
		var b, t strings.Builder
		b.WriteString(`<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:title><rdf:Alt>`)
		j := map[string]interface{}{}
		plain := 0
		for _, v := range items {
			b.WriteString("<rdf:li")
			l := v.Lang
			if l == "" && v.IsDefault {
				l = "x-default"
			}
			if l != "" {
				b.WriteString(` xml:lang="` + l + `"`)
			} else {
				plain++
			}
			b.WriteString(">" + v.Value + "</rdf:li>")
		}
		b.WriteString(`</rdf:Alt></dc:title></rdf:Description></rdf:RDF></x:xmpmeta>`)
		_, _ = t, j
		d := xmp.NewDocument()
		defer d.Close()
		if err := xmp.Unmarshal([]byte(b.String()), d); err != nil {
			return "decode: " + err.Error()
		}
		m := dc.FindModel(d)
		if m == nil {
			return "no model"
		}
		// the default is known by its value when it has the same as a language
		if s := want(m.Title, "decoded"); s != "" {
			return s
		}
		// once more through JSON
		js, err := json.Marshal(d)
		if err != nil {
			return err.Error()
		}
		d2 := xmp.NewDocument()
		defer d2.Close()
		if err := json.Unmarshal(js, d2); err != nil {
			return err.Error()
		}
		m2 := dc.FindModel(d2)
		if m2 == nil {
			return "no model after JSON"
		}
		if s := want(m2.Title, "decoded from JSON"); s != "" {
			return s
		}
		return ""
	})
}

// c10pure covers list operations without a history.
func c10pure(c *core.Ctx) {
	var lists func(n int, vals []string) [][]string
	lists = func(n int, vals []string) [][]string {
		r := [][]string{{}}
		if n == 0 {
			return r
		}
		for _, l := range lists(n-1, vals) {
			if len(l) > 0 {
				r = append(r, l)
			}
			if len(l) == n-1 {
				for _, v := range vals {
					r = append(r, append(append([]string{}, l...), v))
				}
			}
		}
		return r
	}
	toTypes := func(l []string) xmpdm.MarkerTypeList {
		r := xmpdm.MarkerTypeList{}
		for _, v := range l {
			r = append(r, xmpdm.MarkerType(v))
		}
		return r
	}
	for range c.Block() {
		c.Group("markers")
		all := lists(core.Pick(c, 3, 4), []string{"Cue", "Speech", "Track"})
		for _, x := range all {
			for _, y := range all {
				x, y := x, y
				c.Case(fmt.Sprintf("markers|%q|%q", x, y), nil, func() string {
					tx, ty := toTypes(x), toTypes(y)
					in := tx.Intersect(ty)
					for _, v := range []string{"Cue", "Speech", "Track"} {
						t := xmpdm.MarkerType(v)
						if tx.Contains(t) != has(x, v) || in.Contains(t) != (has(x, v) && has(y, v)) {
							return fmt.Sprintf("%q and %q: %q", x, y, in)
						}
					}
					ml := xmpdm.MarkerList{}
					for i := 0; i < 3; i++ {
						ml = append(ml, xmpdm.Marker{Name: fmt.Sprint(i), Types: [3]xmpdm.MarkerTypeList{tx, toTypes([]string{"Cue"}), nil}[i]})
					}
					got := ""
					for _, v := range ml.Filter(ty) {
						got += v.Name
					}
					want := ""
					if len(in) > 0 {
						want += "0"
					}
					if has(y, "Cue") {
						want += "1"
					}
					if got != want || !reflect.DeepEqual(toTypes(x), tx) || len(ml) != 3 {
						return fmt.Sprintf("filter of %q by %q keeps %s, expected %s", x, y, got, want)
					}
					return ""
				})
			}
		}
	}
	for range c.Block() {
		c.Group("marker order")
		// the times in units of 1/10 second
		times := map[string]int{"1": 10, "2": 20, "10": 100, "3f2": 15, "75f50s3": 45, "99f100": 10 - 1}
		for _, l := range lists(core.Pick(c, 4, 5), []string{"1", "2", "10", "3f2", "75f50s3", "99f100"}) {
			l := l
			c.Case(fmt.Sprintf("sort|%q", l), nil, func() string {
				ml := xmpdm.MarkerList{}
				for _, v := range l {
					m := xmpdm.Marker{Name: v}
					if err := m.StartTime.UnmarshalText([]byte(v)); err != nil {
						return err.Error()
					}
					ml = append(ml, m)
				}
				ml.Sort()
				n := map[string]int{}
				for i, v := range ml {
					n[v.Name]++
					if i > 0 && times[ml[i-1].Name] > times[v.Name] {
						return fmt.Sprintf("%q sorts to %v before %v", l, ml[i-1].Name, v.Name)
					}
				}
				for _, v := range l {
					n[v]--
				}
				for k, v := range n {
					if v != 0 {
						return "sorting " + fmt.Sprintf("%q", l) + " changes the number of " + k
					}
				}
				return ""
			})
		}
	}
	for range c.Block() {
		c.Group("text")
		for _, l := range lists(4, []string{"", "a", "b"}) {
			l := l
			var full []string
			for _, v := range l {
				if v != "" {
					full = append(full, v)
				}
			}
			c.Case(fmt.Sprintf("text|%q", l), nil, func() string {
				for _, sep := range []string{"\n", "\r\n"} {
					var sl xmp.StringList
					var sa xmp.StringArray
					t := []byte(strings.Join(l, sep))
					if sl.UnmarshalText(t) != nil || sa.UnmarshalText(t) != nil || !eqList(sl, full) || !eqList(sa, full) {
						return fmt.Sprintf("%q is read as %q and %q", t, sl, sa)
					}
				}
				var tt ixml.TakeTypeList
				var lt ixml.LocationTypeList
				var lm ixml.LocationTimeList
				t := []byte(strings.Join(l, ","))
				if tt.UnmarshalText(t) != nil || lt.UnmarshalText(t) != nil || lm.UnmarshalText(t) != nil {
					return "error"
				}
				if a, b, d := fmt.Sprint(tt), fmt.Sprint(lt), fmt.Sprint(lm); a != fmt.Sprint(full) || b != a || d != a {
					return fmt.Sprintf("%q is read as %s, %s and %s", t, a, b, d)
				}
				var ra riff.AltString
				if len(l) > 0 && len(full) == len(l) {
					if err := ra.UnmarshalText([]byte(strings.Join(l, "; "))); err != nil {
						return err.Error()
					}
					if m := altState(xmp.AltString(ra)); m != "" || len(ra) != len(l) {
						return fmt.Sprintf("%q is read as %+v", l, ra)
					}
				}
				la := dc.LocaleArray(l)
				if len(l) > 0 && la.Default() != l[0] || len(l) == 0 && la.Default() != "" {
					return fmt.Sprintf("default of %q is %q", l, la.Default())
				}
				return ""
			})
		}
	}
	for range c.Block() {
		c.Group("sync points")
		for _, l := range lists(3, []string{"A", "B", ""}) {
			l := l
			c.Case(fmt.Sprintf("syncpoints|%q", l), nil, func() string {
				sp := ixml.SyncPointList{}
				for _, v := range l {
					sp = append(sp, ixml.SyncPoint{Function: ixml.SyncPointFunctionType(v)})
				}
				for _, v := range []string{"A", "B", "C"} {
					i, ok := sp.ContainsFunc(ixml.SyncPointFunctionType(v))
					if ok != has(l, v) || ok && l[i] != v {
						return fmt.Sprintf("%q: %q found at %d: %v", l, v, i, ok)
					}
				}
				return ""
			})
		}
	}
}
