package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"
)

// dump renders a Go value canonically: equal values, and only those, render
// equally. Unset (zero, nil, empty) parts are left out.

var (
	tagType   = reflect.TypeOf(xmp.Tag{})
	timeType  = reflect.TypeOf(time.Time{})
	extType   = reflect.TypeOf(xmp.Extension{})
	nodeType  = reflect.TypeOf(xmp.Node{})
	docType   = reflect.TypeOf(xmp.Document{})
	modelType = reflect.TypeOf((*xmp.Model)(nil)).Elem()
)

type dumpField struct {
	i    int
	name string
}

var dumpCache = map[reflect.Type][]dumpField{}

func dumpFields(t reflect.Type) []dumpField {
	l, ok := dumpCache[t]
	if !ok {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !f.Anonymous || f.Name == "XMLName" || f.Tag.Get("xmp") == "-" {
				continue
			}
			l = append(l, dumpField{i, f.Name})
		}
		dumpCache[t] = l
	}
	return l
}

// unset says whether dumpV gives "".
func isUnset(v reflect.Value) bool {
	if !v.IsValid() || v.IsZero() && v.Type() != tagType {
		return true
	}
	switch t := v.Type(); v.Kind() {
	case reflect.Ptr:
		switch v.Interface().(type) {
		case *xmp.Extension, *xmp.Node, *xmp.Document:
			return dumpV(v) == ""
		}
		return isUnset(v.Elem())
	case reflect.Interface:
		return isUnset(v.Elem())
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Struct:
		if t == tagType || t.ConvertibleTo(timeType) {
			return dumpV(v) == ""
		}
		for _, f := range dumpFields(t) {
			if !isUnset(v.Field(f.i)) {
				return false
			}
		}
		return true
	}
	return dumpV(v) == ""
}

func dump(x interface{}) string { return dumpV(reflect.ValueOf(x)) }

func dumpV(v reflect.Value) string {
	if !v.IsValid() {
		return ""
	}
	t := v.Type()
	if t != tagType && v.IsZero() {
		return ""
	}
	if t.Kind() == reflect.Struct && t.ConvertibleTo(timeType) {
		tm := v.Convert(timeType).Interface().(time.Time)
		if tm.IsZero() {
			return ""
		}
		return tm.Format("T2006-01-02T15:04:05.999999999Z07:00")
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return ""
		}
		switch x := v.Interface().(type) {
		case *xmp.Extension:
			return dumpNode((*xmp.Node)(x))
		case *xmp.Node:
			return dumpNode(x)
		case *xmp.Document:
			return dumpDoc(x)
		}
		return dumpV(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return ""
		}
		return dumpV(v.Elem())
	case reflect.Slice:
		if v.Len() == 0 {
			return ""
		}
		if t.Elem().Kind() == reflect.Uint8 && t.Elem().PkgPath() == "" {
			return strconv.Quote(string(v.Bytes()))
		}
		fallthrough
	case reflect.Array:
		var l []string
		any := false
		for i := 0; i < v.Len(); i++ {
			s := dumpV(v.Index(i))
			any = any || s != ""
			l = append(l, s)
		}
		if !any && v.Kind() == reflect.Array {
			return ""
		}
		return "[" + strings.Join(l, ", ") + "]"
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, dumpV(k)+"="+dumpV(v.MapIndex(k)))
		}
		if len(l) == 0 {
			return ""
		}
		sort.Strings(l)
		return "map(" + strings.Join(l, ", ") + ")"
	case reflect.Struct:
		if t == reflect.TypeOf(xmp.Tag{}) {
			g := v.Interface().(xmp.Tag)
			return fmt.Sprintf("tag(%q %q %q)", g.Key, g.Value, g.Lang)
		}
		var l []string
		for _, f := range dumpFields(t) {
			if s := dumpV(v.Field(f.i)); s != "" {
				l = append(l, f.name+":"+s)
			}
		}
		if len(l) == 0 {
			return ""
		}
		return "{" + strings.Join(l, " ") + "}"
	case reflect.String:
		if v.String() == "" {
			return ""
		}
		return strconv.Quote(v.String())
	case reflect.Bool:
		if !v.Bool() {
			return ""
		}
		return "true"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() == 0 {
			return ""
		}
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() == 0 {
			return ""
		}
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		if v.Float() == 0 {
			return ""
		}
		return strconv.FormatFloat(v.Float(), 'g', -1, t.Bits())
	}
	return fmt.Sprintf("?%v", v.Kind())
}

// dumpNode renders a raw node: name, attributes (unordered), text, children in
// order, model.
func dumpNode(n *xmp.Node) string {
	if n == nil {
		return ""
	}
	var b strings.Builder
	b.WriteString("<" + n.XMLName.Local)
	if n.XMLName.Space != "" {
		b.WriteString("(" + n.XMLName.Space + ")")
	}
	var as []string
	for _, a := range n.Attr {
		as = append(as, a.Name.Space+"|"+a.Name.Local+"="+strconv.Quote(a.Value))
	}
	sort.Strings(as)
	for _, a := range as {
		b.WriteString(" " + a)
	}
	b.WriteString(">")
	if n.Value != "" {
		b.WriteString(strconv.Quote(n.Value))
	}
	if n.Model != nil {
		b.WriteString("model:" + reflect.TypeOf(n.Model).String() + dump(n.Model))
	}
	for _, c := range n.Nodes {
		b.WriteString(dumpNode(c))
	}
	b.WriteString("</>")
	return b.String()
}

// dumpModels renders the content of a document by top-level namespace:
// model values and unknown properties.
func docParts(d *xmp.Document) map[string]string {
	out := map[string]string{}
	for _, n := range d.Nodes() {
		key := n.XMLName.Local
		if n.XMLName.Space != "" {
			key = n.XMLName.Space + "|" + key
		}
		s := ""
		if n.Model != nil {
			s += dump(n.Model)
		}
		var as []string
		for _, a := range n.Attr {
			as = append(as, a.Name.Space+"|"+a.Name.Local+"="+strconv.Quote(a.Value))
		}
		sort.Strings(as)
		if len(as) > 0 {
			s += " attrs(" + strings.Join(as, ", ") + ")"
		}
		for _, c := range n.Nodes {
			s += " " + dumpNode(c)
		}
		if n.Value != "" {
			s += " text " + strconv.Quote(n.Value)
		}
		if s != "" {
			out[key] += s
		}
	}
	return out
}

func dumpDoc(d *xmp.Document) string {
	m := docParts(d)
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k + ": " + m[k] + "\n")
	}
	return b.String()
}

func sortedPrefixes() []string {
	p := append([]string{}, xmp.NsRegistry.Prefixes()...)
	sort.Strings(p)
	return p
}
