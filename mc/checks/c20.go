package checks

import (
	_ "embed"
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/qt"
	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{
		ID: "C20", Level: "exploration", Shards: 8,
		Rule: "For every model (and the parts of the QuickTime model) and every native tag of a table of the tags and the properties they stand for, every text of an alphabet (texts of the property's values, numbers, dates, lists, garbage) is set by tag on an empty model, on one with another value and on one with all properties set: exactly the listed property takes the value its type reads from the text, or the text is refused and nothing changes; the tag reads back the value's text and listing gives exactly the set tags. Every pair of tags is set in sequence. Every string of the neighbourhood of the tags (other case, cut, extended, prefixed, XMP names, the tags of all other models) is known exactly when the table has it. Language alternatives are set, read and listed per language. Non-trivial: a set changes a model.",
		Assumptions: []string{
			"What text a type accepts and prints is the subject of C18; the types' own text methods and the standard number formats are the reference here.",
			"Properties whose type can be set from text but has no text form (exif flash and tables, embedded iXML) have nothing to read back.",
		},
		Run: runC20,
	})
}

// The golden table of native tags by model: tag -> Go field. It was taken from
// the models once and reviewed.

//go:embed native.json
var nativeJSON []byte

var native = func() map[string]map[string]string {
	m := map[string]map[string]string{}
	if err := json.Unmarshal(nativeJSON, &m); err != nil {
		panic(err)
	}
	return m
}()

// tagModel is a model that maps native tags.
type tagModel struct {
	Name string
	New  func() xmp.Model
	NS   string
	Any  string            // the field that takes other tags
	Sub  map[string]string // parts by the prefix of their tags
}

func tagModels() []tagModel {
	var out []tagModel
	for _, m := range models() {
		m := m
		tm := tagModel{Name: m.Prefix, New: func() xmp.Model { return reflect.New(m.Type).Interface().(xmp.Model) }}
		out = append(out, tm)
	}
	out = append(out,
		tagModel{Name: "exifEX", New: func() xmp.Model { return &exif.ExifEXInfo{} }},
		tagModel{Name: "qt udta", New: func() xmp.Model { return &qt.QtUserdata{} }},
		tagModel{Name: "qt mdta", New: func() xmp.Model { return &qt.QtMetadata{} }},
		tagModel{Name: "qt player", New: func() xmp.Model { return &qt.QtPlayer{} }},
		tagModel{Name: "qt proapps", New: func() xmp.Model { return &qt.QtProApps{} }},
	)
	seen := map[string]bool{}
	var l []tagModel
	for _, tm := range out {
		if seen[tm.Name] {
			continue
		}
		seen[tm.Name] = true
		tm.NS = tm.New().Namespaces()[0].GetName()
		t := reflect.TypeOf(tm.New()).Elem()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Type == reflect.TypeOf(xmp.TagList{}) && (tm.Name == "id3" || tm.Name == "iTunes" || strings.HasPrefix(tm.Name, "qt")) {
				tm.Any = t.Field(i).Name
			}
		}
		if tm.Name == "qt" {
			tm.Sub = map[string]string{"com.apple.quicktime.player": "Player", "com.apple.quicktime": "Mdta", "com.apple.proapps": "ProApps"}
		}
		l = append(l, tm)
	}
	return l
}

// GenNative writes the table of the current tree (run once, then reviewed).
func GenNative() []byte {
	out := map[string]map[string]string{}
	for _, tm := range tagModels() {
		m := map[string]string{}
		t := reflect.TypeOf(tm.New()).Elem()
		for _, f := range reflect.VisibleFields(t) {
			if !f.IsExported() || f.Anonymous {
				continue
			}
			tag := strings.Split(f.Tag.Get(tm.NS), ",")
			if tag[0] == "-" || f.Type == reflect.TypeOf(xmp.TagList{}) {
				continue
			}
			if tag[0] == "" {
				tag[0] = f.Name
			}
			m[tag[0]] = f.Name
		}
		if tm.Name == "id3" {
			for k, v := range id3.V11_TO_V24_TAGS {
				m[k] = m[v]
			}
			for k, v := range id3.V22_TO_V24_TAGS {
				m[k] = m[v]
			}
		}
		out[tm.Name] = m
	}
	b, _ := json.MarshalIndent(out, "", " ")
	return b
}

// locate gives the property a tag stands for, "" for unknown tags, and the
// part of the model it belongs to.
func (tm tagModel) locate(tag string) (part, field string) {
	switch {
	case tm.Name == "exif" && strings.HasPrefix(strings.ToLower(tag), "0x"):
		tag = strings.ToLower(tag)
	case tm.Name == "qt":
		switch {
		case tag == "XMP_":
			return "", "XMP"
		case tag == "iXML" || tag == "info.ixml.xml" || tag == "info.ixml.metadata" || tag == "info.ixml.info":
			return "", "IXML"
		case utf8.RuneCountInString(tag) == 4:
			return "Udta", native["qt udta"][tag]
		}
		for _, p := range []string{"com.apple.quicktime.player", "com.apple.quicktime", "com.apple.proapps"} {
			if strings.HasPrefix(tag, p) {
				part = tm.Sub[p]
				return part, native["qt "+strings.ToLower(part)][tag]
			}
		}
		return "", ""
	case tm.NS == "xmp" && strings.HasPrefix(tag, "xmp:"), tm.NS != "xmp" && !strings.Contains(tag, ":"):
	case tm.NS == "xmp" && !strings.Contains(tag, ":"):
		tag = "xmp:" + tag
	}
	return "", native[tm.Name][tag]
}

// anyOf names the field that takes the unknown tags of a part.
func (tm tagModel) anyOf(tag string) (part, field string) {
	part, _ = tm.locate(tag)
	if tag == "" {
		return "", ""
	}
	switch {
	case tm.Name == "id3" && len(tag) != 4:
		return "", "" // no id3 tag
	case part == "":
		return "", tm.Any
	case part == "Mdta":
		return part, "Extension"
	}
	return "", ""
}

// flat gives all exported fields of a model by name, QuickTime parts expanded.
func flat(m interface{}) map[string]string {
	out := map[string]string{}
	var walk func(v reflect.Value, pre string)
	walk = func(v reflect.Value, pre string) {
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() {
				continue
			}
			switch f.Name {
			case "Udta", "Mdta", "Player", "ProApps":
				if !v.Field(i).IsNil() {
					walk(v.Field(i).Elem(), f.Name+".")
				}
				continue
			}
			if f.Type == reflect.TypeOf((*xmp.Document)(nil)) {
				if !v.Field(i).IsNil() {
					out[pre+f.Name] = dumpDoc(v.Field(i).Interface().(*xmp.Document))
				}
				continue
			}
			if x := v.Field(i); !isUnset(x) {
				out[pre+f.Name] = dumpV(x)
			}
		}
	}
	walk(reflect.ValueOf(m).Elem(), "")
	return out
}

func flatDiff(got, want map[string]string) string {
	for _, k := range sortedKeys(want) {
		if got[k] != want[k] {
			return fmt.Sprintf("%s is %s instead of %s", k, got[k], want[k])
		}
	}
	for _, k := range sortedKeys(got) {
		if got[k] != want[k] {
			return fmt.Sprintf("%s is %s instead of %s", k, got[k], want[k])
		}
	}
	return ""
}

// holder finds a field, making the part it belongs to.
func holder(m xmp.Model, part, field string) reflect.Value {
	v := reflect.ValueOf(m).Elem()
	if part != "" {
		p := v.FieldByName(part)
		if p.IsNil() {
			p.Set(reflect.New(p.Type().Elem()))
		}
		v = p.Elem()
	}
	return v.FieldByName(field)
}

func isAlt(t reflect.Type) bool {
	return t.Kind() == reflect.Slice && t.Elem() == reflect.TypeOf(xmp.AltItem{})
}

// settable says whether a type reads text.
func settable(t reflect.Type) bool {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	p := reflect.New(t).Interface()
	if _, ok := p.(encoding.TextUnmarshaler); ok {
		return true
	}
	if _, ok := p.(encoding.BinaryUnmarshaler); ok || isAlt(t) {
		return true
	}
	switch t.Kind() {
	case reflect.Struct, reflect.Array, reflect.Map, reflect.Ptr, reflect.Interface, reflect.Func, reflect.Chan:
		return false
	case reflect.Slice:
		return t.Elem().Kind() == reflect.Uint8
	}
	return true
}

// parsed is the value a field takes from a text.
func parsed(old reflect.Value, text string) (reflect.Value, error) {
	t := old.Type()
	if t.Kind() == reflect.Ptr {
		in := reflect.New(t.Elem()).Elem()
		if !old.IsNil() {
			in = old.Elem()
		}
		v, err := parsed(in, text)
		if err != nil {
			return v, err
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(v)
		return p, nil
	}
	x := reflect.New(t)
	v := x.Elem()
	switch u := x.Interface().(type) {
	case encoding.BinaryUnmarshaler:
		return v, u.UnmarshalBinary([]byte(text))
	case encoding.TextUnmarshaler:
		return v, u.UnmarshalText([]byte(text))
	}
	if isAlt(t) {
		// the default takes the text, other languages stay; no text sets nothing
		var l xmp.AltString
		done := text == ""
		for i := 0; i < old.Len(); i++ {
			a := old.Index(i).Interface().(xmp.AltItem)
			if a.IsDefault && text != "" {
				if a.Lang == "" {
					a.Value, done = text, true
				} else {
					// one with a language is kept as such
					a.IsDefault = false
				}
			}
			l = append(l, a)
		}
		if !done {
			l = append(xmp.AltString{{Value: text, IsDefault: true}}, l...)
		}
		l.EnsureDefault()
		v.Set(reflect.ValueOf(l).Convert(t))
		return v, nil
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(text, 10, t.Bits())
		v.SetInt(n)
		return v, err
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(text, 10, t.Bits())
		v.SetUint(n)
		return v, err
	case reflect.Float32, reflect.Float64:
		n, err := strconv.ParseFloat(text, t.Bits())
		v.SetFloat(n)
		return v, err
	case reflect.Bool:
		b, err := strconv.ParseBool(strings.TrimSpace(text))
		v.SetBool(b)
		return v, err
	case reflect.String:
		v.SetString(strings.TrimSpace(text))
		return v, nil
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(text))
			return v, nil
		}
	}
	return v, fmt.Errorf("%s has no text form", t)
}

// textOf is the text of a field; ok is false for types without one.
func tagText(v reflect.Value) (s string, ok bool) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return "", true
		}
		v = v.Elem()
	}
	if v.Type() != reflect.TypeOf(xmp.TagList{}) && isUnset(v) && hasText(v.Type()) {
		return "", true
	}
	x := reflect.New(v.Type())
	x.Elem().Set(v)
	if u, ok := x.Interface().(encoding.TextMarshaler); ok {
		b, err := u.MarshalText()
		return string(b), err == nil
	}
	if isAlt(v.Type()) {
		for i := 0; i < v.Len(); i++ {
			if a := v.Index(i).Interface().(xmp.AltItem); a.IsDefault {
				return a.Value, true
			}
		}
		return "", true
	}
	s, err := refText(v)
	return s, err == nil
}

func hasText(t reflect.Type) bool {
	if _, ok := reflect.New(t).Interface().(encoding.TextMarshaler); ok || isAlt(t) {
		return true
	}
	_, err := refText(reflect.New(t).Elem())
	return err == nil
}

// listed are the tags listing a model must give.
func listed(tm tagModel, m xmp.Model) (out []string) {
	tags := map[string]string{}
	sub := map[string]map[string]string{"": tags}
	add := func(part, name string) {
		for tag, f := range native[name] {
			if sub[part] == nil {
				sub[part] = map[string]string{}
			}
			if old := sub[part][f]; old == "" || len(tag) == 4 && name == "id3" {
				sub[part][f] = tag
			}
		}
	}
	add("", tm.Name)
	anys := map[string]string{"": tm.Any}
	if tm.Name == "qt" {
		for _, p := range []string{"Udta", "Mdta", "Player", "ProApps"} {
			if !reflect.ValueOf(m).Elem().FieldByName(p).IsNil() {
				add(p, "qt "+strings.ToLower(p))
			}
		}
		anys["Mdta"] = "Extension"
		delete(tags, "XMP")
	}
	for part, l := range sub {
		for f, tag := range l {
			v := holder(m, part, f)
			if v.Kind() == reflect.Ptr {
				v = v.Elem()
			}
			if !v.IsValid() || isUnset(v) {
				continue
			}
			if isAlt(v.Type()) {
				for i := 0; i < v.Len(); i++ {
					a := v.Index(i).Interface().(xmp.AltItem)
					out = append(out, fmt.Sprintf("%s %s = %q", tag, a.Lang, a.Value))
				}
				continue
			}
			if s, ok := tagText(v); ok && s != "" {
				out = append(out, fmt.Sprintf("%s  = %q", tag, s))
			}
		}
		if a := anys[part]; a != "" && (part == "" || len(l) > 0) {
			for _, t := range holder(m, part, a).Interface().(xmp.TagList) {
				out = append(out, fmt.Sprintf("%s %s = %q", t.Key, t.Lang, t.Value))
			}
		}
	}
	sort.Strings(out)
	return
}

type tagLister interface{ ListTags() (xmp.TagList, error) }
type localeTagger interface {
	GetLocaleTag(lang, tag string) (string, error)
	SetLocaleTag(lang, tag, value string) error
}

// checkList compares what listing gives.
func checkList(tm tagModel, m xmp.Model) string {
	want := listed(tm, m)
	lists := map[string]func() (xmp.TagList, error){}
	if tm.Name != "qt" {
		lists["ListNativeFields"] = func() (xmp.TagList, error) { return xmp.ListNativeFields(m) }
	}
	if l, ok := m.(tagLister); ok {
		lists["ListTags"] = l.ListTags
	}
	for _, n := range sortedKeys(lists) {
		l, err := lists[n]()
		if err != nil {
			return n + ": " + err.Error()
		}
		var got []string
		for _, t := range l {
			got = append(got, fmt.Sprintf("%s %s = %q", t.Key, t.Lang, t.Value))
			if t.Lang == "" {
				v, err := m.GetTag(t.Key)
				if err != nil || v != t.Value {
					_, f := tm.locate(t.Key)
					if _, u := tm.anyOf(t.Key); f != "" || u != "" {
						return fmt.Sprintf("%s gives %s = %q, reading the tag %q, %v", n, t.Key, t.Value, v, err)
					}
				}
			}
			if !m.CanTag(t.Key) {
				part, f := tm.locate(t.Key)
				if f != "" && settable(holder(m, part, f).Type()) {
					return fmt.Sprintf("%s gives %s, which the model does not know", n, t.Key)
				}
			}
		}
		sort.Strings(got)
		if a, b := strings.Join(got, "; "), strings.Join(want, "; "); a != b {
			return fmt.Sprintf("%s gives %s\n  instead of %s", n, a, b)
		}
	}
	return ""
}

var tagTexts = []string{"", "0", "1", "-1", "255", "1e3", "0.5", "99999999999999999999", "abc", " x ", "a; b", "a;b", "a, b", "2020-02-03T04:05:06Z", "2020-02-03", "2020", "12:30", "0304", "0405", "1/2", "3/4", "True", "false", "yes", hardText, "(17)", "(17)Rock", "1 2 3", "5 6 7 8", "+48.85-002.35/", "48.5", "48,51.5N", "<x/>", "é"}

// textsOf is the alphabet of texts for a field.
func textsOf(t reflect.Type, lvl int) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, s := range tagTexts {
		add(s)
	}
	for _, v := range alphabet(t, lvl) {
		if s, ok := tagText(v); ok && len(s) < 2000 {
			add(s)
		}
	}
	return out
}

// setTag20 sets a tag and compares everything with the reference.
func setTag20(tm tagModel, m xmp.Model, tag, text string) string {
	before := flat(m)
	part, f := tm.locate(tag)
	want := map[string]string{}
	for k, v := range before {
		want[k] = v
	}
	wantText, readable, ok := "", false, false
	if f != "" {
		pre := part
		if pre != "" {
			pre += "."
		}
		old := reflect.Value{}
		{
			h := reflect.ValueOf(m).Elem()
			if part != "" {
				if p := h.FieldByName(part); p.IsNil() {
					old = reflect.Zero(fieldType(h.FieldByName(part).Type().Elem(), f))
				} else {
					old = p.Elem().FieldByName(f)
				}
			} else {
				old = h.FieldByName(f)
			}
		}
		if old.Type() == reflect.TypeOf((*xmp.Document)(nil)) || f == "IXML" {
			return "" // see embedded20
		}
		if v, err := parsed(old, text); err == nil {
			ok = true
			delete(want, pre+f)
			if !isUnset(v) {
				want[pre+f] = dumpV(v)
			}
			wantText, readable = tagText(v)
		}
		if can := m.CanTag(tag); can != settable(old.Type()) {
			return fmt.Sprintf("CanTag is %v", can)
		}
	} else if part, a := tm.anyOf(tag); a != "" {
		ok, readable, wantText = true, true, text
		pre := part
		if pre != "" {
			pre += "."
		}
		var l xmp.TagList
		h := reflect.ValueOf(m).Elem()
		if part == "" || !h.FieldByName(part).IsNil() {
			for _, t := range holder(m, part, a).Interface().(xmp.TagList) {
				if t.Key != tag {
					l = append(l, t)
				}
			}
		}
		if text != "" {
			l = append(l, xmp.Tag{Key: tag, Value: text})
		}
		delete(want, pre+a)
		if len(l) > 0 {
			want[pre+a] = dump(l)
		}
		if !m.CanTag(tag) {
			return "CanTag is false, but other tags are kept"
		}
	} else if m.CanTag(tag) && tag != "" {
		return "CanTag is true for an unknown tag"
	}
	err := m.SetTag(tag, text)
	if (err == nil) != ok {
		return fmt.Sprintf("SetTag(%q, %q) gives %v, the type's own reading: %v", tag, text, err, ok)
	}
	if d := flatDiff(flat(m), want); d != "" {
		return fmt.Sprintf("after SetTag(%q, %q) = %v: %s", tag, text, err, d)
	}
	if !ok {
		return ""
	}
	got, err := m.GetTag(tag)
	if readable && (err != nil || got != wantText) {
		return fmt.Sprintf("after SetTag(%q, %q): GetTag gives %q, %v instead of %q", tag, text, got, err, wantText)
	}
	if !readable && err == nil && got != "" {
		return fmt.Sprintf("after SetTag(%q, %q): GetTag gives %q", tag, text, got)
	}
	return checkList(tm, m)
}

func fieldType(t reflect.Type, f string) reflect.Type {
	x, _ := t.FieldByName(f)
	return x.Type
}

// fullModel has all properties set.
func fullModel(tm tagModel) xmp.Model {
	m := tm.New()
	var fill func(v reflect.Value)
	fill = func(v reflect.Value) {
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() || f.Type == reflect.TypeOf((*xmp.Document)(nil)) {
				continue
			}
			switch f.Name {
			case "Udta", "Mdta", "Player", "ProApps":
				p := reflect.New(f.Type.Elem())
				fill(p.Elem())
				v.Field(i).Set(p)
				continue
			}
			if f.Tag.Get("xmp") == "-" && f.Name == "IXML" {
				continue
			}
			if l := alphabet(f.Type, 0); len(l) > 0 {
				v.Field(i).Set(clone(l[0]))
			}
		}
	}
	fill(reflect.ValueOf(m).Elem())
	return m
}

// nearTags are the strings around a tag.
func nearTags(tm tagModel, tag string) []string {
	l := []string{strings.ToUpper(tag), strings.ToLower(tag), tag + "x", "x" + tag, tag + ",", " " + tag, tm.NS + ":" + tag, "xmp:" + tag, "x:" + tag}
	if len(tag) > 1 {
		l = append(l, tag[1:], tag[:len(tag)-1])
	}
	return l
}

func runC20(c *core.Ctx) {
	tms := tagModels()
	all := map[string]bool{"": true, "no such tag": true, "Extension": true, "any": true, "XMLName": true, ":": true, "com.apple.quicktime.unknown": true, "com.apple.quicktime.player.unknown": true, "com.apple.proapps.unknown": true, "com.apple.other": true, "com": true, "c": true, "XMP_": true, "iXML": true, "info.ixml.xml": true, "abcd": true, "abc": true, "Udta": true, "udta": true, "mdta": true, "dc:title": true, "-": true, "rdf:about": true}
	for _, n := range sortedKeys(native) {
		for t := range native[n] {
			all[t] = true
		}
		t := reflect.TypeOf(nil)
		for _, tm := range tms {
			if tm.Name == n {
				t = reflect.TypeOf(tm.New()).Elem()
			}
		}
		if t == nil {
			continue
		}
		for _, f := range fieldsOf(t) {
			all[f.Name] = true
			all[f.Name[strings.IndexByte(f.Name, ':')+1:]] = true
			all[f.Go] = true
		}
	}
	c.Bound("models", len(tms))
	c.Bound("tag strings", len(all))
	lvl := core.Pick(c, 1, 2)
	for _, tm := range tms {
		tm := tm
		tags := native[tm.Name]
		if tm.Name == "qt" {
			tags = map[string]string{}
			for n, l := range native {
				if strings.HasPrefix(n, "qt ") {
					for t := range l {
						tags[t] = t
					}
				}
			}
		}
		c.Group("tags " + tm.Name)
		for _, tag := range sortedKeys(tags) {
			part, f := tm.locate(tag)
			if f == "" {
				// a table of the tree that the model dispatches elsewhere
				continue
			}
			if c.Stop() {
				return
			}
			ft := holder(tm.New(), part, f).Type()
			texts := textsOf(ft, lvl)
			for range c.Block() {
				for si, state := range []func() xmp.Model{tm.New, func() xmp.Model {
					m := tm.New()
					if l := alphabet(ft, 1); len(l) > 0 {
						holder(m, part, f).Set(clone(l[len(l)-1]))
					}
					return m
				}, func() xmp.Model { return fullModel(tm) }} {
					for _, text := range texts {
						c.Case(fmt.Sprintf("%s %s %d %q", tm.Name, tag, si, short(text)), nil, func() string {
							m := state()
							if s := setTag20(tm, m, tag, text); s != "" {
								return s
							}
							if err := m.SetTag(tag, text); err == nil {
								c.Nontrivial(tm.Name + tag + text)
							}
							return ""
						})
					}
				}
			}
		}
		c.Group("strings " + tm.Name)
		near := map[string]bool{}
		for t := range tags {
			for _, n := range nearTags(tm, t) {
				near[n] = true
			}
		}
		for t := range all {
			near[t] = true
		}
		for range c.Block() {
			for _, tag := range sortedKeys(near) {
				for si, state := range []func() xmp.Model{tm.New, func() xmp.Model { return fullModel(tm) }} {
					for _, text := range []string{"1", "text", ""} {
						c.Case(fmt.Sprintf("%s string %q %d %q", tm.Name, tag, si, text), nil, func() string { return setTag20(tm, state(), tag, text) })
					}
				}
			}
		}
		c.Group("pairs " + tm.Name)
		for _, t1 := range sortedKeys(tags) {
			if c.Stop() {
				return
			}
			for range c.Block() {
				for _, t2 := range sortedKeys(tags) {
					c.Case(fmt.Sprintf("%s pair %s %s", tm.Name, t1, t2), nil, func() string {
						m := tm.New()
						if s := setTag20(tm, m, t1, "1"); s != "" {
							return s
						}
						return setTag20(tm, m, t2, "2")
					})
				}
			}
		}
		c.Group("lists " + tm.Name)
		for range c.Block() {
			c.Case(tm.Name+" empty list", nil, func() string { return checkList(tm, tm.New()) })
			c.Case(tm.Name+" full list", nil, func() string { return checkList(tm, fullModel(tm)) })
			for _, tag := range sortedKeys(tags) {
				part, f := tm.locate(tag)
				if f == "" {
					continue
				}
				for i, v := range alphabet(holder(tm.New(), part, f).Type(), lvl) {
					c.Case(fmt.Sprintf("%s list %s %d", tm.Name, tag, i), nil, func() string {
						m := tm.New()
						holder(m, part, f).Set(clone(v))
						before := flat(m)
						if s := checkList(tm, m); s != "" {
							return s
						}
						if can := m.CanTag(tag); can != settable(v.Type()) {
							return fmt.Sprintf("CanTag is %v", can)
						}
						want, ok := tagText(v)
						got, err := m.GetTag(tag)
						if ok && (err != nil || got != want) {
							return fmt.Sprintf("GetTag gives %q, %v instead of %q", got, err, want)
						}
						return flatDiff(flat(m), before)
					})
				}
			}
		}
		c.Group("languages " + tm.Name)
		for range c.Block() {
			c20locale(c, tm, tags)
		}
		c.Group("other tags " + tm.Name)
		if c.Mine() && (tm.Any != "" || tm.Name == "qt mdta") {
			c20any(c, tm)
		}
	}
	c.Group("embedded")
	embedded20(c)
}

// c20any explores sequences of unknown tags.
func c20any(c *core.Ctx, tm tagModel) {
	type op struct{ tag, text string }
	keys := []string{"zzzz", "yyyy", "xx:y", "Extension"}
	if tm.Name == "id3" {
		keys = []string{"zzzz", "yyyy", "x:yz"}
	}
	if tm.Name == "qt mdta" || tm.Name == "qt" {
		keys = append(keys, "com.apple.quicktime.zz")
	}
	var ops []op
	for _, k := range keys {
		for _, t := range []string{"a", "b", ""} {
			ops = append(ops, op{k, t})
		}
	}
	n := core.Pick(c, 3, 4)
	seq := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			ids := append([]int{}, seq...)
			c.Case(fmt.Sprintf("%s other %v", tm.Name, ids), nil, func() string {
				m := tm.New()
				for _, o := range ids {
					if s := setTag20(tm, m, ops[o].tag, ops[o].text); s != "" {
						return s
					}
				}
				return ""
			})
			return
		}
		for o := range ops {
			seq[i] = o
			rec(i + 1)
		}
	}
	rec(0)
}

// c20locale sets, reads and lists languages.
func c20locale(c *core.Ctx, tm tagModel, tags map[string]string) {
	langs := []string{"", "x-default", "de", "en-US"}
	for _, tag := range sortedKeys(tags) {
		part, f := tm.locate(tag)
		if f == "" || tm.Name == "qt" {
			continue
		}
		t := holder(tm.New(), part, f).Type()
		alt := isAlt(t) || t.Kind() == reflect.Ptr && isAlt(t.Elem())
		how := map[string]localeTagger{}
		mk := func(m xmp.Model) map[string]localeTagger {
			how = map[string]localeTagger{"field": fieldLocale{m}}
			if l, ok := m.(localeTagger); ok {
				how["tag"] = l
			}
			return how
		}
		for _, h := range sortedKeys(mk(tm.New())) {
			if h == "field" && tm.Name == "id3" && len(tag) != 4 {
				continue
			}
			if !alt {
				c.Case(fmt.Sprintf("%s %s %s no language", tm.Name, h, tag), nil, func() string {
					m := fullModel(tm)
					before := flat(m)
					x := mk(m)[h]
					if err := x.SetLocaleTag("de", tag, "v"); err == nil {
						return "setting a language of a property without languages is accepted"
					}
					x.GetLocaleTag("de", tag)
					return flatDiff(flat(m), before)
				})
				continue
			}
			for vi, v := range append([]reflect.Value{reflect.Zero(t)}, alphabet(t, 2)...) {
				for _, lang := range langs {
					for _, text := range []string{"v", "a", ""} {
						c.Case(fmt.Sprintf("%s %s %s %d %s %q", tm.Name, h, tag, vi, lang, text), nil, func() string {
							m := tm.New()
							fv := holder(m, part, f)
							fv.Set(clone(v))
							ref := xmp.AltString{}
							for i := 0; i < reflect.Indirect(v).Len(); i++ {
								ref = append(ref, reflect.Indirect(v).Index(i).Interface().(xmp.AltItem))
							}
							x := mk(m)[h]
							for _, l := range langs {
								got, err := x.GetLocaleTag(l, tag)
								if want := ref.Get(l); got != want || err != nil {
									return fmt.Sprintf("language %q gives %q, %v instead of %q", l, got, err, want)
								}
							}
							if err := x.SetLocaleTag(lang, tag, text); err != nil {
								return err.Error()
							}
							ref.Set(lang, text)
							want := map[string]string{}
							if len(ref) > 0 {
								want[f] = dump(ref)
							}
							if d := flatDiff(flat(m), want); d != "" {
								return fmt.Sprintf("after setting %q to %q: %s", lang, text, d)
							}
							return checkList(tm, m)
						})
					}
				}
			}
		}
	}
	c.Case(tm.Name+" unknown language", nil, func() string {
		m := fullModel(tm)
		before := flat(m)
		var l localeTagger = fieldLocale{m}
		if x, ok := m.(localeTagger); ok {
			l = x
		}
		for _, t := range []string{"no such tag", "", "zzzz"} {
			if err := l.SetLocaleTag("de", t, "v"); err == nil {
				return fmt.Sprintf("setting a language of the unknown tag %q is accepted", t)
			}
			if v, err := l.GetLocaleTag("de", t); err == nil && v != "" {
				return fmt.Sprintf("the unknown tag %q has a language", t)
			}
		}
		return flatDiff(flat(m), before)
	})
}

type fieldLocale struct{ m xmp.Model }

func (x fieldLocale) GetLocaleTag(lang, tag string) (string, error) {
	return xmp.GetLocaleField(x.m, lang, tag)
}
func (x fieldLocale) SetLocaleTag(lang, tag, value string) error {
	return xmp.SetLocaleField(x.m, lang, tag, value)
}

// embedded20 sets the documents a QuickTime model embeds.
func embedded20(c *core.Ctx) {
	for _, tag := range []string{"XMP_", "iXML", "info.ixml.xml", "info.ixml.metadata", "info.ixml.info"} {
		for i, text := range []string{canaryDoc, "", "x", "<x/>", `<BWFXML><PROJECT>P</PROJECT></BWFXML>`, `<BWFXML>`, c17docs[0]} {
			for full := 0; full < 2; full++ {
				c.Case(fmt.Sprintf("%s text %d full %d", tag, i, full), nil, func() string {
					m := &qt.QtInfo{}
					if full == 1 {
						m = fullModel(tagModel{New: func() xmp.Model { return &qt.QtInfo{} }}).(*qt.QtInfo)
					}
					if !m.CanTag(tag) {
						return "CanTag is false"
					}
					before := flat(m)
					if v, err := m.GetTag(tag); v != "" || err != nil {
						return fmt.Sprintf("unset tag reads %q, %v", v, err)
					}
					err := m.SetTag(tag, text)
					after := flat(m)
					if tag == "XMP_" {
						d := xmp.NewDocument()
						defer d.Close()
						if e := xmp.Unmarshal([]byte(text), d); (e == nil) != (err == nil) {
							return fmt.Sprintf("SetTag gives %v, reading the document %v", err, e)
						} else if e == nil {
							before["XMP"] = dumpDoc(d)
						}
						if s := flatDiff(after, before); s != "" {
							return s
						}
						if err == nil {
							v, err := m.GetTag(tag)
							if err != nil {
								return err.Error()
							}
							o := xmp.NewDocument()
							defer o.Close()
							if err := xmp.Unmarshal([]byte(v), o); err != nil {
								return err.Error()
							}
							xmp.Marshal(d)
							if a, b := dumpDoc(o), dumpDoc(d); a != b {
								return "reads back " + diffState(b, a)
							}
						}
						return ""
					}
					if err != nil && m.IXML != nil {
						return "a refused iXML document is kept"
					}
					if err == nil && m.IXML == nil {
						return "an accepted iXML document is lost"
					}
					if i == 4 && err != nil {
						return err.Error()
					}
					if i == 4 && m.IXML.Project != "P" {
						return "project is " + m.IXML.Project
					}
					delete(after, "IXML")
					return flatDiff(after, before)
				})
			}
		}
	}
}
