package checks

import (
	_ "embed"
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/trimmer-io/go-xmp/xmp"
)

// The golden schema: which XMP name, name space and value form every property
// and structure field has. It was taken from the models once and reviewed
// against the XMP specification; it does not follow later edits of the tags.

//go:embed schema.json
var schemaJSON []byte

type goldType struct {
	Form   string            `json:"form"`             // text struct Bag Seq Alt
	Fields map[string]string `json:"fields,omitempty"` // Go field -> prefix:name
	Keep   []string          `json:"keep,omitempty"`   // written even when unset
}

type goldSchema struct {
	Namespaces map[string]string    `json:"namespaces"`
	Models     map[string]string    `json:"models"` // prefix -> type
	Types      map[string]*goldType `json:"types"`
}

var gold = loadGold()

func loadGold() *goldSchema {
	g := &goldSchema{}
	if err := json.Unmarshal(schemaJSON, g); err != nil {
		panic(err)
	}
	return g
}

var (
	textMarshaler = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	xmpMarshaler  = reflect.TypeOf((*xmp.Marshaler)(nil)).Elem()
	arrayIface    = reflect.TypeOf((*xmp.Array)(nil)).Elem()
	zeroIface     = reflect.TypeOf((*xmp.Zero)(nil)).Elem()
)

// GenSchema writes the schema of the current tree (run once, then reviewed).
func GenSchema() []byte {
	g := &goldSchema{map[string]string{}, map[string]string{}, map[string]*goldType{}}
	for _, p := range sortedPrefixes() {
		ns, _ := xmp.NsRegistry.GetNamespace(p)
		g.Namespaces[p] = ns.GetURI()
	}
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		for t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		n := t.String()
		if t.PkgPath() == "" && t.Kind() != reflect.Slice && t.Kind() != reflect.Array || g.Types[n] != nil {
			return
		}
		x := &goldType{Form: genForm(t)}
		g.Types[n] = x
		switch x.Form {
		case "struct":
			x.Fields = map[string]string{}
			for _, f := range fieldsOf(t) {
				if f.Any {
					continue
				}
				x.Fields[f.Go] = f.Name
				if f.Keep {
					x.Keep = append(x.Keep, f.Go)
				}
				walk(f.Type)
			}
		case "Bag", "Seq", "Alt":
			walk(t.Elem())
		}
	}
	for _, m := range models() {
		g.Models[m.Prefix] = m.Type.String()
		walk(m.Type)
	}
	b, _ := json.MarshalIndent(g, "", " ")
	return append(b, '\n')
}

func genForm(t reflect.Type) string {
	if t.ConvertibleTo(timeType) {
		return "text"
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 && t.Elem().PkgPath() == "" && !t.Implements(xmpMarshaler) {
			return "text"
		}
		if t.Implements(textMarshaler) && !t.Implements(xmpMarshaler) {
			return "text"
		}
		if t.Implements(arrayIface) {
			a := reflect.Zero(t).Interface().(xmp.Array).Typ()
			return string(a)
		}
		if t.Kind() == reflect.Array {
			return "Bag"
		}
		return "Seq"
	case reflect.Struct:
		if t.Implements(textMarshaler) && !t.Implements(xmpMarshaler) {
			return "text"
		}
		return "struct"
	}
	return "text"
}

func goldName(n string) (string, error) {
	i := strings.IndexByte(n, ':')
	if i < 0 {
		return "{}" + n, nil
	}
	uri, ok := gold.Namespaces[n[:i]]
	if !ok {
		return "", fmt.Errorf("no golden name space for %s", n)
	}
	return "{" + uri + "}" + n[i+1:], nil
}

// typeOf finds the golden entry of a type, or derives one for a type the
// schema does not know.
func goldOf(t reflect.Type) *goldType {
	if g, ok := goldCache[t]; ok {
		return g
	}
	g, ok := gold.Types[t.String()]
	if !ok {
		g = &goldType{Form: genForm(t)}
	}
	goldCache[t] = g
	return g
}

var goldCache = map[reflect.Type]*goldType{}

// refValue is the reference encoder: the RDF value a Go value must be written
// as, or nil when it is unset.
func refValue(v reflect.Value) (*rval, error) {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return nil, nil
		}
		v = v.Elem()
	}
	if isUnset(v) && !(v.Type().Implements(zeroIface) && !v.Interface().(xmp.Zero).IsZero()) {
		return nil, nil
	}
	t := v.Type()
	switch t.String() {
	case "xmp.Uri":
		return &rval{Text: v.String(), URI: true}, nil
	case "xmp.AltString":
		return refAlt(v.Interface().(xmp.AltString)), nil
	case "riff.AltString", "qt.MultilangArray":
		return refAlt(v.Convert(reflect.TypeOf(xmp.AltString{})).Interface().(xmp.AltString)), nil
	case "xmpbase.Identifier":
		if v.FieldByName("Scheme").String() == "" {
			return &rval{Text: v.FieldByName("ID").String()}, nil
		}
	case "exif.Date":
		return &rval{Text: v.Convert(timeType).Interface().(time.Time).Format("2006-01-02T15:04:05")}, nil
	case "xmpdm.Part":
		b, err := v.Interface().(encoding.TextMarshaler).MarshalText()
		return &rval{Text: string(b)}, err
	case "xmp.TagList":
		r := &rval{Kind: rStruct}
		for _, x := range v.Interface().(xmp.TagList) {
			k := tagName(x.Key)
			if x.Lang != "" {
				k += "-" + x.Lang
			}
			r.Props = append(r.Props, rprop{"{}" + k, &rval{Text: x.Value}})
		}
		return r, nil
	case "xmpdm.Timecode":
		return &rval{Kind: rStruct, Props: []rprop{
			{"{http://ns.adobe.com/xmp/1.0/DynamicMedia/}timeFormat", &rval{Text: v.FieldByName("Format").String()}},
			{"{http://ns.adobe.com/xmp/1.0/DynamicMedia/}timeValue", &rval{Text: v.FieldByName("Value").String()}},
		}}, nil
	}
	g := goldOf(t)
	switch g.Form {
	case "text":
		s, err := refText(v)
		if err != nil {
			return nil, err
		}
		return &rval{Text: s}, nil
	case "Bag", "Seq", "Alt":
		r := &rval{Kind: map[string]rkind{"Bag": rBag, "Seq": rSeq, "Alt": rAlt}[g.Form]}
		for i := 0; i < v.Len(); i++ {
			x, err := refValue(v.Index(i))
			if err != nil {
				return nil, err
			}
			if x == nil {
				if x, err = refUnset(v.Index(i)); err != nil {
					return nil, err
				}
			}
			r.Items = append(r.Items, x)
		}
		return r, nil
	case "struct":
		r := &rval{Kind: rStruct}
		ps, err := refProps(v)
		r.Props = ps
		return r, err
	}
	return nil, fmt.Errorf("no reference form for %s", t)
}

// refUnset is how an unset value is written where something must be written.
func refUnset(v reflect.Value) (*rval, error) {
	if goldOf(v.Type()).Form == "text" {
		s, err := refText(v)
		return &rval{Text: s}, err
	}
	return &rval{}, nil
}

// refProps lists the properties of a structure value.
func refProps(v reflect.Value) ([]rprop, error) {
	var out []rprop
	g := goldOf(v.Type())
	for _, f := range fieldsOf(v.Type()) {
		if f.Any {
			continue
		}
		name, ok := g.Fields[f.Go]
		if !ok {
			name = f.Name
		}
		fv := v.FieldByIndex(f.Idx)
		x, err := refValue(fv)
		if err != nil {
			return nil, err
		}
		if x == nil {
			keep := false
			for _, k := range g.Keep {
				keep = keep || k == f.Go
			}
			if !keep {
				continue
			}
			if x, err = refUnset(fv); err != nil {
				return nil, err
			}
		}
		qn, err := goldName(name)
		if err != nil {
			return nil, err
		}
		out = append(out, rprop{qn, x})
	}
	return out, nil
}

func refAlt(a xmp.AltString) *rval {
	r := &rval{Kind: rAlt}
	for _, i := range a {
		if i.IsDefault {
			r.Items = append(r.Items, &rval{Text: i.Value, Lang: "x-default"})
		}
		if i.Lang != "" && i.Lang != "x-default" {
			r.Items = append(r.Items, &rval{Text: i.Value, Lang: i.Lang})
		}
	}
	return r
}

// refText is the text form of a simple value.
func refText(v reflect.Value) (string, error) {
	if v.Type().Implements(textMarshaler) {
		b, err := v.Interface().(encoding.TextMarshaler).MarshalText()
		return string(b), err
	}
	switch v.Kind() {
	case reflect.String:
		return v.String(), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10), nil
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, v.Type().Bits()), nil
	case reflect.Bool:
		return strconv.FormatBool(v.Bool()), nil
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return string(v.Bytes()), nil
		}
	}
	return "", fmt.Errorf("no reference text for %s", v.Type())
}

// refModel gives the properties a model must be written with, by full name.
func refModel(x xmp.Model) (map[string]string, error) {
	ps, err := refProps(reflect.ValueOf(x).Elem())
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	for _, p := range ps {
		m[p.Name] = p.Val.String()
	}
	return m, nil
}

// tagName is a native tag as XML name.
func tagName(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		c := byte(0)
		if r < 128 {
			c = byte(r)
		}
		plain := strings.IndexByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_", c) >= 0 && c != 0 || i > 0 && c != 0 && strings.IndexByte(".0123456789", c) >= 0
		if plain && !strings.HasPrefix(s[i:], "_x") {
			b.WriteByte(c)
		} else {
			b.WriteString(fmt.Sprintf("_x%04X_", r))
		}
		i += n
	}
	return b.String()
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
