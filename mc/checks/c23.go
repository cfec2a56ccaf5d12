package checks

import (
	"encoding"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{
		ID: "C23", Level: "exploration", Shards: 8,
		Rule: "Every user-defined model field of a set of kinds (simple kinds, named types, byte slices, structs, pointers, slices, arrays, library types, types with own marshalers by value and by pointer, types without a form) with every set of flags and every value of its alphabet, between other fields of similar names in two namespaces, is written as XML and JSON and read back, in the form its tag asks for and in the other one. Every pair of nested fields (kind x flags x value x name) is built by reflection and treated the same. Embedded structs, dashed and unexported fields, native tags of all kinds and every marshaler that fails, at every place it can be called from, are enumerated. The expected content comes from a reference encoder that interprets the tags. Non-trivial: the field is set.",
		Assumptions: []string{
			"A type that is not known to the library and has no own marshalers is read and written by its kind.",
			"Fields of interface type are written by their content; they are read only when they hold a pointer.",
			"Maps have no form in XMP documents (paths into maps are part of C08 and C09).",
		},
		Run: runC23,
	})
}

var (
	cmNew = func() xmp.Model { return nil }
	nsCm  = xmp.NewNamespace("cm", "http://example.com/cm/1.0/", func(string) xmp.Model { return cmNew() })
	nsCn  = xmp.NewNamespace("cn", "http://example.com/cm/1.0/other#", func(string) xmp.Model { return cmNew() })
)

const (
	uriCm = "{http://example.com/cm/1.0/}"
	uriCn = "{http://example.com/cm/1.0/other#}"
)

// cmBase makes any struct that embeds it a model.
type cmBase struct{}

func (cmBase) Can(n string) bool                 { return n == "cm" || n == "cn" }
func (cmBase) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{nsCm, nsCn} }
func (cmBase) SyncModel(d *xmp.Document) error   { return nil }
func (cmBase) SyncFromXMP(d *xmp.Document) error { return nil }
func (cmBase) SyncToXMP(d *xmp.Document) error   { return nil }
func (cmBase) CanTag(tag string) bool            { return false }
func (cmBase) GetTag(tag string) (string, error) { return "", nil }
func (cmBase) SetTag(tag, value string) error    { return nil }

// Models with one field of any kind between others, by flags.

type cmPlain[T any] struct {
	cmBase
	B string `xmp:"cm:b"`
	V T      `xmp:"cm:v"`
	E string `xmp:"cm:e,attr"`
	X string `xmp:"cm:vx"`
	N string `xmp:"cn:v"`
}
type cmAttr[T any] struct {
	cmBase
	B string `xmp:"cm:b"`
	V T      `xmp:"cm:v,attr"`
	E string `xmp:"cm:e,attr"`
	X string `xmp:"cm:vx"`
	N string `xmp:"cn:v,attr"`
}
type cmKeep[T any] struct {
	cmBase
	N string `xmp:"cn:v,attr"`
	X string `xmp:"cm:vx"`
	V T      `xmp:"cm:v,empty"`
	E string `xmp:"cm:e,attr"`
	B string `xmp:"cm:b"`
}
type cmAttrKeep[T any] struct {
	cmBase
	E string `xmp:"cm:e,attr"`
	N string `xmp:"cn:v"`
	X string `xmp:"cm:vx,attr"`
	B string `xmp:"cm:b"`
	V T      `xmp:"cm:v,attr,empty"`
}
type cmOmit[T any] struct {
	cmBase
	B string `xmp:"cm:b"`
	V T      `xmp:"cm:v,omit"`
	E string `xmp:"cm:e,attr"`
	X string `xmp:"cm:vx"`
	N string `xmp:"cn:v"`
}
type cmAttrOmit[T any] struct {
	cmBase
	V T      `xmp:"cm:v,attr,omit"`
	B string `xmp:"cm:b"`
	E string `xmp:"cm:e,attr"`
	X string `xmp:"cm:vx"`
	N string `xmp:"cn:v"`
}
type cmKeepAttr[T any] struct {
	cmBase
	V T      `xmp:"cm:v,empty,attr"`
	B string `xmp:"cm:b"`
	E string `xmp:"cm:e,attr"`
	X string `xmp:"cm:vx"`
	N string `xmp:"cn:v"`
}
type cmAll[T any] struct {
	cmBase
	B string `xmp:"cm:b"`
	V T      `xmp:"cm:v,attr,empty,omit"`
	E string `xmp:"cm:e,attr"`
	X string `xmp:"cm:vx,empty,attr"`
	N string `xmp:"cn:v"`
}
type cmAllRev[T any] struct {
	cmBase
	B string `xmp:"cm:b"`
	E string `xmp:"cm:e,attr"`
	V T      `xmp:"cm:v,omit,empty,attr"`
	X string `xmp:"cm:vx"`
	N string `xmp:"cn:v,attr"`
}
type cmDash[T any] struct {
	cmBase
	B string `xmp:"cm:b"`
	V T      `xmp:"-"`
	E string `xmp:"cm:e,attr"`
	X string `xmp:"cm:vx"`
	N string `xmp:"cn:v"`
}
type cmOther[T any] struct {
	cmBase
	V T      `xmp:"cn:v"`
	B string `xmp:"cm:b"`
	E string `xmp:"cm:e,attr"`
	X string `xmp:"cm:vx"`
	N string `xmp:"cm:v"`
}

type cmUnexp struct {
	cmBase
	B string `xmp:"cm:b"`
	v string `xmp:"cm:v"`
	E string `xmp:"cm:e,attr"`
	X string `xmp:"cm:vx"`
	N string `xmp:"cn:v"`
}

// Models that embed structs.

type CmE1 struct {
	V string `xmp:"cm:v"`
	A string `xmp:"cm:a,attr"`
}
type cmE2 struct {
	V string `xmp:"cm:v"`
	A int    `xmp:"cm:a,attr,empty"`
}
type CmE3 struct {
	CmE1
	W *string `xmp:"cm:w"`
	O string  `xmp:"cm:o,omit"`
}
type cmEmb1 struct {
	cmBase
	B string `xmp:"cm:b"`
	CmE1
	N string `xmp:"cn:v"`
}
type cmEmb2 struct {
	cmBase
	cmE2
	B string `xmp:"cm:b"`
	N string `xmp:"cn:v"`
}
type cmEmb3 struct {
	cmBase
	B string `xmp:"cm:b"`
	N string `xmp:"cn:v"`
	CmE3
}
type cmEmb4 struct {
	cmBase
	B string `xmp:"cm:b"`
	*CmE1
	N string `xmp:"cn:v"`
}

// cmDyn holds a struct type made at run time.
type cmDyn struct {
	cmBase
	A  string      `xmp:"cm:a"`
	St interface{} `xmp:"cm:st"`
	B  string      `xmp:"cm:b"`
}

// Field types of a user.

type (
	cmStr   string
	cmInt   int32
	cmBool  bool
	cmBytes []byte
)

type cmSt struct {
	X string  `xmp:"cm:x"`
	Y int     `xmp:"cm:y,attr"`
	Z bool    `xmp:"cn:x"`
	K string  `xmp:"cm:k,empty"`
	O string  `xmp:"cm:o,omit"`
	D string  `xmp:"-"`
	P *cmSt   `xmp:"cm:p"`
	L []cmStr `xmp:"cm:l"`
}

// reffer is a type with an expected form of its own.
type reffer interface {
	ref(attr bool) (*rval, error)
}

var errCm = errors.New("user error 4711")

func cmText(s, prefix string) (string, error) {
	if !strings.HasPrefix(s, prefix) {
		return "", fmt.Errorf("bad text %q", s)
	}
	return s[len(prefix):], nil
}

// Own marshalers on value and on pointer receivers.
type cmMarV struct{ A string }

func (x cmMarV) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	n.Value = "marv:" + x.A
	return nil
}
func (x *cmMarV) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) (err error) {
	x.A, err = cmText(n.Value, "marv:")
	return
}
func (x cmMarV) ref(attr bool) (*rval, error) {
	if attr {
		return nil, errNoForm
	}
	return &rval{Text: "marv:" + x.A}, nil
}

type cmMarP struct{ A string }

func (x *cmMarP) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	return e.EncodeElement("marp:"+x.A, n)
}
func (x *cmMarP) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) (err error) {
	var s string
	if err = d.DecodeElement(&s, n); err == nil {
		x.A, err = cmText(s, "marp:")
	}
	return
}
func (x *cmMarP) ref(attr bool) (*rval, error) {
	if attr {
		return nil, errNoForm
	}
	return &rval{Text: "marp:" + x.A}, nil
}

// cmMarS writes a structure.
type cmMarS struct{ A, B string }
type cmMarSWire struct {
	A string `xmp:"cm:wa"`
	B string `xmp:"cm:wb,attr"`
}

func (x cmMarS) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	return e.EncodeElement(cmMarSWire{x.A, x.B}, n)
}
func (x *cmMarS) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	var w cmMarSWire
	if err := d.DecodeElement(&w, n); err != nil {
		return err
	}
	x.A, x.B = w.A, w.B
	return nil
}
func (x cmMarS) ref(attr bool) (*rval, error) {
	if attr {
		return nil, errNoForm
	}
	return refC23(reflect.ValueOf(cmMarSWire{x.A, x.B}), false)
}

type cmTxtV struct{ A string }

func (x cmTxtV) MarshalText() ([]byte, error) { return []byte("txtv:" + x.A), nil }
func (x *cmTxtV) UnmarshalText(b []byte) (err error) {
	x.A, err = cmText(string(b), "txtv:")
	return
}
func (x cmTxtV) ref(attr bool) (*rval, error) { return &rval{Text: "txtv:" + x.A}, nil }

type cmTxtP struct{ A string }

func (x *cmTxtP) MarshalText() ([]byte, error) { return []byte("txtp:" + x.A), nil }
func (x *cmTxtP) UnmarshalText(b []byte) (err error) {
	x.A, err = cmText(string(b), "txtp:")
	return
}
func (x *cmTxtP) ref(attr bool) (*rval, error) { return &rval{Text: "txtp:" + x.A}, nil }

// cmTxtI is not a struct.
type cmTxtI int

func (x cmTxtI) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("int %d", int(x))), nil }
func (x *cmTxtI) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "int %d", (*int)(x))
	return err
}
func (x cmTxtI) ref(attr bool) (*rval, error) {
	return &rval{Text: fmt.Sprintf("int %d", int(x))}, nil
}

type cmAtV struct{ A string }

func (x cmAtV) MarshalXMPAttr(e *xmp.Encoder, name xml.Name, n *xmp.Node) (xmp.Attr, error) {
	return xmp.Attr{Name: name, Value: "atv:" + x.A}, nil
}
func (x *cmAtV) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) (err error) {
	x.A, err = cmText(a.Value, "atv:")
	return
}
func (x cmAtV) MarshalText() ([]byte, error) { return []byte("txt:" + x.A), nil }
func (x *cmAtV) UnmarshalText(b []byte) (err error) {
	x.A, err = cmText(string(b), "txt:")
	return
}
func (x cmAtV) ref(attr bool) (*rval, error) {
	if attr {
		return &rval{Text: "atv:" + x.A}, nil
	}
	return &rval{Text: "txt:" + x.A}, nil
}

type cmAtP struct{ A string }

func (x *cmAtP) MarshalXMPAttr(e *xmp.Encoder, name xml.Name, n *xmp.Node) (xmp.Attr, error) {
	return xmp.Attr{Name: name, Value: "atp:" + x.A}, nil
}
func (x *cmAtP) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) (err error) {
	x.A, err = cmText(a.Value, "atp:")
	return
}
func (x *cmAtP) MarshalText() ([]byte, error) { return []byte("txt:" + x.A), nil }
func (x *cmAtP) UnmarshalText(b []byte) (err error) {
	x.A, err = cmText(string(b), "txt:")
	return
}
func (x *cmAtP) ref(attr bool) (*rval, error) {
	if attr {
		return &rval{Text: "atp:" + x.A}, nil
	}
	return &rval{Text: "txt:" + x.A}, nil
}

// cmZero decides itself when it is empty.
type cmZero struct{ N int }

func (x cmZero) IsZero() bool                 { return x.N == 7 }
func (x cmZero) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("n %d", x.N)), nil }
func (x *cmZero) UnmarshalText(b []byte) error {
	_, err := fmt.Sscanf(string(b), "n %d", &x.N)
	return err
}
func (x cmZero) ref(attr bool) (*rval, error) { return &rval{Text: fmt.Sprintf("n %d", x.N)}, nil }

// Marshalers that fail for the text "fail", on writing and on reading.
type cmFailM struct{ A string }

func (x cmFailM) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	if x.A == "fail" {
		return errCm
	}
	n.Value = x.A
	return nil
}
func (x *cmFailM) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	if n.Value == "bad" {
		return errCm
	}
	x.A = n.Value
	return nil
}

type cmFailMP struct{ A string }

func (x *cmFailMP) MarshalXMP(e *xmp.Encoder, n *xmp.Node, m xmp.Model) error {
	if x.A == "fail" {
		return errCm
	}
	n.Value = x.A
	return nil
}
func (x *cmFailMP) UnmarshalXMP(d *xmp.Decoder, n *xmp.Node, m xmp.Model) error {
	return (*cmFailM)(x).UnmarshalXMP(d, n, m)
}

type cmFailT struct{ A string }

func (x cmFailT) MarshalText() ([]byte, error) {
	if x.A == "fail" {
		return nil, errCm
	}
	return []byte(x.A), nil
}
func (x *cmFailT) UnmarshalText(b []byte) error {
	if string(b) == "bad" {
		return errCm
	}
	x.A = string(b)
	return nil
}

type cmFailTP struct{ A string }

func (x *cmFailTP) MarshalText() ([]byte, error) { return cmFailT(*x).MarshalText() }
func (x *cmFailTP) UnmarshalText(b []byte) error { return (*cmFailT)(x).UnmarshalText(b) }

type cmFailA struct{ A string }

func (x cmFailA) MarshalXMPAttr(e *xmp.Encoder, name xml.Name, n *xmp.Node) (xmp.Attr, error) {
	if x.A == "fail" {
		return xmp.Attr{}, errCm
	}
	return xmp.Attr{Name: name, Value: x.A}, nil
}
func (x *cmFailA) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
	return (*cmFailT)(x).UnmarshalText([]byte(a.Value))
}
func (x cmFailA) MarshalText() ([]byte, error)  { return cmFailT(x).MarshalText() }
func (x *cmFailA) UnmarshalText(b []byte) error { return (*cmFailT)(x).UnmarshalText(b) }

type cmFailAP struct{ A string }

func (x *cmFailAP) MarshalXMPAttr(e *xmp.Encoder, name xml.Name, n *xmp.Node) (xmp.Attr, error) {
	return cmFailA(*x).MarshalXMPAttr(e, name, n)
}
func (x *cmFailAP) UnmarshalXMPAttr(d *xmp.Decoder, a xmp.Attr) error {
	return (*cmFailT)(x).UnmarshalText([]byte(a.Value))
}
func (x *cmFailAP) MarshalText() ([]byte, error) { return cmFailT(*x).MarshalText() }
func (x *cmFailAP) UnmarshalText(b []byte) error { return (*cmFailT)(x).UnmarshalText(b) }

var errNoForm = errors.New("no form")

// cmEmpty is the reference for what counts as empty.
func cmEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return true
		}
		if v.Kind() == reflect.Interface {
			return false
		}
	}
	if z, ok := v.Interface().(xmp.Zero); ok {
		return z.IsZero()
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.Array:
		return v.Len() == 0
	case reflect.Ptr:
		return false
	}
	return v.IsZero()
}

// refC23 is the form of a value that is written. It has no error for values
// which are never written.
func refC23(v reflect.Value, attr bool) (*rval, error) {
	for {
		if !attr || v.Kind() == reflect.Ptr {
			if v.CanInterface() {
				if v.Kind() != reflect.Ptr || !v.IsNil() {
					if r, ok := v.Interface().(reffer); ok {
						return r.ref(attr)
					}
				}
			}
		}
		if v.Kind() != reflect.Ptr && v.Kind() != reflect.Interface {
			break
		}
		if v.IsNil() {
			return nil, nil
		}
		v = v.Elem()
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	if r, ok := p.Interface().(reffer); ok {
		return r.ref(attr)
	}
	t := v.Type()
	switch {
	case t.PkgPath() == "" && t.Kind() == reflect.Struct, strings.HasSuffix(t.PkgPath(), "/checks"):
	case t.PkgPath() != "":
		if attr {
			if m, ok := v.Interface().(encoding.TextMarshaler); ok {
				if b, err := m.MarshalText(); b == nil {
					return nil, err
				}
			}
			s, err := refText(v)
			if err != nil {
				return nil, errNoForm
			}
			return &rval{Text: s}, nil
		}
		r, err := refValue(v)
		if r == nil && err == nil {
			r, err = refUnset(v)
		}
		return r, err
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			return &rval{Text: string(b)}, nil
		}
		if attr {
			return nil, errNoForm
		}
		if v.Len() == 0 {
			return &rval{}, nil
		}
		r := &rval{Kind: rSeq}
		if v.Kind() == reflect.Array {
			r.Kind = rBag
		}
		for i := 0; i < v.Len(); i++ {
			x, err := refC23(v.Index(i), false)
			if err != nil {
				return nil, err
			}
			if x == nil {
				x = &rval{}
			}
			r.Items = append(r.Items, x)
		}
		return r, nil
	case reflect.Struct:
		if attr {
			return nil, errNoForm
		}
		ps, err := refFields(v)
		if err != nil {
			return nil, err
		}
		r := &rval{Kind: rStruct}
		for _, p := range ps {
			r.Props = append(r.Props, p.rprop)
		}
		if len(ps) == 0 {
			return &rval{}, nil
		}
		return r, nil
	}
	s, err := refText(v)
	if err != nil {
		return nil, errNoForm
	}
	return &rval{Text: s}, nil
}

type formProp struct {
	rprop
	Attr bool
}

// refFields are the properties of a struct by its tags.
func refFields(v reflect.Value) (out []formProp, err error) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("xmp")
		if f.Anonymous {
			e := v.Field(i)
			if e.Kind() == reflect.Ptr {
				if e.IsNil() {
					continue
				}
				e = e.Elem()
			}
			l, err := refFields(e)
			if err != nil {
				return nil, err
			}
			out = append(out, l...)
			continue
		}
		if !f.IsExported() || tag == "-" {
			continue
		}
		tok := strings.Split(tag, ",")
		attr, keep, omit := false, false, false
		for _, x := range tok[1:] {
			attr = attr || x == "attr"
			keep = keep || x == "empty"
			omit = omit || x == "omit"
		}
		fv := v.Field(i)
		if omit || !keep && cmEmpty(fv) {
			continue
		}
		x, err := refC23(fv, attr)
		if err != nil {
			return nil, err
		}
		if x == nil {
			continue
		}
		name := strings.NewReplacer("cm:", uriCm, "cn:", uriCn).Replace(tok[0])
		out = append(out, formProp{rprop{name, x}, attr})
	}
	return
}

// cmRead is the value of a struct after it was written and read.
func cmRead(v reflect.Value) reflect.Value {
	t := v.Type()
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(cmRead(v.Elem()))
		return p
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		return cmRead(v.Elem())
	case reflect.Slice, reflect.Array:
		if t.PkgPath() != "" && !strings.HasSuffix(t.PkgPath(), "/checks") || t.Elem().Kind() == reflect.Uint8 {
			return v
		}
		out := reflect.New(t).Elem()
		for i := 0; i < v.Len(); i++ {
			x := cmRead(v.Index(i))
			if t.Kind() == reflect.Array {
				out.Index(i).Set(x)
			} else {
				out = reflect.Append(out, x)
			}
		}
		return out
	case reflect.Struct:
		if t.PkgPath() != "" && !strings.HasSuffix(t.PkgPath(), "/checks") {
			return v
		}
		p := reflect.New(t)
		if _, ok := p.Interface().(reffer); ok {
			return v
		}
		out := p.Elem()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			tag := f.Tag.Get("xmp")
			omit := tag == "-"
			for _, x := range strings.Split(tag, ",")[1:] {
				omit = omit || x == "omit"
			}
			if omit || f.Type == reflect.TypeOf(cmBase{}) {
				continue
			}
			if f.Anonymous && f.Type.Kind() == reflect.Struct {
				// fields of embedded structs are settable one by one
				e := cmRead(v.Field(i))
				for j := 0; j < e.NumField(); j++ {
					if out.Field(i).Field(j).CanSet() {
						out.Field(i).Field(j).Set(e.Field(j))
					}
				}
				continue
			}
			if !f.IsExported() {
				continue
			}
			fv := v.Field(i)
			if !strings.Contains(tag, ",empty") && cmEmpty(fv) {
				continue
			}
			out.Field(i).Set(cmRead(fv))
		}
		return out
	}
	return v
}

// dumpAll renders a model with the fields dumpV leaves out.
func dumpAll(m interface{}) string {
	s := dump(m)
	var walk func(v reflect.Value, path string)
	walk = func(v reflect.Value, path string) {
		for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			if v.IsNil() {
				return
			}
			v = v.Elem()
		}
		switch v.Kind() {
		case reflect.Struct:
			if v.Type().PkgPath() != "" && !strings.HasSuffix(v.Type().PkgPath(), "/checks") {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if f.Tag.Get("xmp") == "-" && f.IsExported() && !isUnset(v.Field(i)) {
					s += fmt.Sprintf(" (%s%s: %s)", path, f.Name, dumpV(v.Field(i)))
				}
				if !f.IsExported() && f.Type.Kind() == reflect.String && v.Field(i).Len() > 0 {
					s += fmt.Sprintf(" (%s%s: %q)", path, f.Name, v.Field(i).String())
				}
				if f.IsExported() {
					walk(v.Field(i), path+f.Name+".")
				}
			}
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Struct {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), fmt.Sprintf("%s%d.", path, i))
				}
			}
		}
	}
	walk(reflect.ValueOf(m), "")
	return s
}

// cmForms says which names are attributes and which are elements below the
// elements called parent, or in the outer descriptions.
func cmForms(b []byte, parent string) (attrs, elems map[string]int, err error) {
	attrs, elems = map[string]int{}, map[string]int{}
	root, _, _, err := parseXML(b)
	if err != nil {
		return
	}
	var at func(e *xel)
	at = func(e *xel) {
		for _, a := range e.Attr {
			if n, ok := attrProp(a); ok {
				attrs[n]++
			}
		}
		for _, k := range e.Kids {
			if k.Name.Space == nsRDF && k.Name.Local == "Description" {
				at(k)
			} else {
				elems[qn(k.Name)]++
			}
		}
	}
	var find func(e *xel)
	find = func(e *xel) {
		if qn(e.Name) == parent {
			at(e)
			return
		}
		for _, k := range e.Kids {
			find(k)
		}
	}
	find(root)
	return
}

// cmTrip writes a model, compares what was written with the reference, and
// reads it back.
func cmTrip(c *core.Ctx, m xmp.Model, fresh func() xmp.Model) string {
	cmNew = fresh
	props, rerr := refFields(reflect.ValueOf(m).Elem())
	before := dumpAll(m)
	for _, format := range []string{"xml", "json"} {
		d := xmp.NewDocument()
		defer d.Close()
		if _, err := d.AddModel(m); err != nil {
			return err.Error()
		}
		var b []byte
		var err error
		if format == "xml" {
			b, err = xmp.Marshal(d)
		} else {
			b, err = json.Marshal(d)
		}
		if (err != nil) != (rerr != nil) {
			return fmt.Sprintf("%s: writing gives %v, expected %v", format, err, rerr)
		}
		if s := dumpAll(m); s != before {
			return fmt.Sprintf("%s: writing changes the model from %s to %s", format, before, s)
		}
		if err != nil {
			continue
		}
		if format == "xml" {
			if s := cmWritten(b, props); s != "" {
				return s + "\n" + string(b)
			}
		}
		if format == "json" {
			if s := cmMembers(b, props); s != "" {
				return s + "\n" + string(b)
			}
		}
		o := xmp.NewDocument()
		defer o.Close()
		if format == "xml" {
			err = xmp.Unmarshal(b, o)
		} else {
			err = json.Unmarshal(b, o)
		}
		if err != nil {
			return fmt.Sprintf("%s: reading what was written: %v\n%s", format, err, b)
		}
		if s := cmSame(o, cmRead(reflect.ValueOf(m)).Interface(), "", len(props) > 0); s != "" {
			return fmt.Sprintf("%s: %s\n%s", format, s, b)
		}
	}
	if rerr != nil {
		c.Outcome("no form")
		return ""
	}
	// in the other forms
	for _, swap := range []bool{false, true} {
		var x strings.Builder
		x.WriteString(`<rdf:RDF xmlns:rdf="` + nsRDF + `"><rdf:Description rdf:about="" xmlns:cm="http://example.com/cm/1.0/" xmlns:cn="http://example.com/cm/1.0/other#"`)
		var el strings.Builder
		for _, p := range props {
			n := strings.NewReplacer(uriCm, "cm:", uriCn, "cn:").Replace(p.Name)
			if p.Val.Kind == rText && len(p.Val.Props) == 0 && p.Val.Lang == "" && p.Attr != swap {
				x.WriteString(" " + n + `="` + esc(p.Val.Text) + `"`)
				continue
			}
			cmElement(&el, n, p.Val, swap)
		}
		x.WriteString(">" + el.String() + "</rdf:Description></rdf:RDF>")
		if swap && cmFixedForm(reflect.ValueOf(m).Elem()) {
			continue
		}
		o := xmp.NewDocument()
		defer o.Close()
		if err := xmp.Unmarshal([]byte(x.String()), o); err != nil {
			return fmt.Sprintf("reading: %v\n%s", err, x.String())
		}
		if s := cmSame(o, cmRead(reflect.ValueOf(m)).Interface(), "", len(props) > 0); s != "" {
			return s + "\n" + x.String()
		}
	}
	return ""
}

// cmFixedForm says that a model has a type which reads attributes and elements
// differently.
func cmFixedForm(v reflect.Value) bool {
	var fixed func(v reflect.Value) bool
	fixed = func(v reflect.Value) bool {
		for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			if v.IsNil() {
				return false
			}
			v = v.Elem()
		}
		switch v.Interface().(type) {
		case cmAtV, cmAtP, cmMarV, cmMarP, cmMarS:
			return true
		}
		switch v.Kind() {
		case reflect.Slice, reflect.Array:
			// elements that hold plain text can't be lists
			return v.Type().Elem().Kind() != reflect.Uint8
		case reflect.Struct:
			t := v.Type()
			if t.PkgPath() != "" && !strings.HasSuffix(t.PkgPath(), "/checks") || t == reflect.TypeOf(cmBase{}) {
				return false
			}
			for i := 0; i < v.NumField(); i++ {
				if t.Field(i).IsExported() && fixed(v.Field(i)) {
					return true
				}
			}
			// an empty structure has no attribute form
			return v.NumField() > 0 && v.IsZero()
		}
		return false
	}
	return fixed(v)
}

func cmElement(b *strings.Builder, n string, v *rval, swap bool) {
	name := strings.NewReplacer(uriCm, "cm:", uriCn, "cn:")
	switch v.Kind {
	case rText:
		lang := ""
		if v.Lang != "" {
			lang = ` xml:lang="` + esc(v.Lang) + `"`
		}
		fmt.Fprintf(b, "<%s%s>%s</%s>", n, lang, esc(v.Text), n)
	case rURI:
		fmt.Fprintf(b, `<%s rdf:resource="%s"/>`, n, esc(v.Text))
	case rStruct:
		open := ` rdf:parseType="Resource">`
		end := ""
		if swap {
			open, end = "><rdf:Description>", "</rdf:Description>"
		}
		b.WriteString("<" + n + open)
		for _, p := range v.Props {
			cmElement(b, name.Replace(p.Name), p.Val, swap)
		}
		b.WriteString(end + "</" + n + ">")
	default:
		k := map[rkind]string{rBag: "Bag", rSeq: "Seq", rAlt: "Alt"}[v.Kind]
		b.WriteString("<" + n + "><rdf:" + k + ">")
		for _, x := range v.Items {
			cmElement(b, "rdf:li", x, swap)
		}
		b.WriteString("</rdf:" + k + "></" + n + ">")
	}
}

// cmWritten compares a document with the expected properties.
func cmWritten(b []byte, props []formProp) string {
	doc, err := parseRDF(b)
	if err != nil {
		return err.Error()
	}
	got, err := doc.byName()
	if err != nil {
		return err.Error()
	}
	attrs, elems, err := cmForms(b, "{"+nsRDF+"}Description")
	if err != nil {
		return err.Error()
	}
	for _, p := range props {
		if w := p.Val.String(); got[p.Name] != w {
			return fmt.Sprintf("%s is written as %s instead of %s", p.Name, got[p.Name], w)
		}
		delete(got, p.Name)
		if p.Attr && (attrs[p.Name] != 1 || elems[p.Name] != 0) || !p.Attr && (attrs[p.Name] != 0 || elems[p.Name] != 1) {
			return fmt.Sprintf("%s is written %d times as attribute and %d times as element", p.Name, attrs[p.Name], elems[p.Name])
		}
	}
	for n, v := range got {
		return fmt.Sprintf("%s is written as %s", n, v)
	}
	return ""
}

// cmMembers compares the member names of a JSON document.
func cmMembers(b []byte, props []formProp) string {
	var doc struct {
		Models map[string]map[string]interface{}
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		return err.Error()
	}
	got := map[string]bool{}
	for _, m := range doc.Models {
		for n := range m {
			got[n] = true
		}
	}
	for _, p := range props {
		n := strings.NewReplacer(uriCm, "cm:", uriCn, "cn:").Replace(p.Name)
		if !got[n] {
			return n + " is missing in JSON"
		}
		delete(got, n)
	}
	for n := range got {
		return n + " is written in JSON"
	}
	return ""
}

// cmSame compares the model of a document; extra is the raw content expected.
func cmSame(d *xmp.Document, want interface{}, extra string, some bool) string {
	nodes := d.Nodes()
	if len(nodes) == 0 && !some {
		return ""
	}
	if len(nodes) != 1 || nodes[0].Model == nil {
		return fmt.Sprintf("the document has %d models", len(nodes))
	}
	if a, b := dumpAll(nodes[0].Model), dumpAll(want); a != b {
		return fmt.Sprintf("read %s instead of %s", a, b)
	}
	got := ""
	for _, a := range nodes[0].Attr {
		got += a.Name.Local + "=" + a.Value + " "
	}
	for _, n := range nodes[0].Nodes {
		got += dumpNode(n)
	}
	if got != extra {
		return fmt.Sprintf("the model's node holds %s instead of %s", got, extra)
	}
	return ""
}

// cmVals is the alphabet of a field type.
func cmVals(t reflect.Type) []reflect.Value {
	var out []reflect.Value
	add := func(xs ...interface{}) {
		for _, x := range xs {
			v := reflect.New(t).Elem()
			v.Set(reflect.ValueOf(x).Convert(t))
			out = append(out, v)
		}
	}
	out = append(out, reflect.Zero(t))
	if t.PkgPath() != "" && !strings.HasSuffix(t.PkgPath(), "/checks") {
		return append(out, alphabet(t, 1)...)
	}
	switch t {
	case reflect.TypeOf(cmMarS{}):
		add(cmMarS{"a", ""}, cmMarS{"", "b"}, cmMarS{"a", hardText})
		return out
	case reflect.TypeOf(cmZero{}):
		add(cmZero{7}, cmZero{8})
		return out
	case reflect.TypeOf(cmSt{}):
		add(cmSt{X: "x"}, cmSt{Y: 5}, cmSt{Z: true}, cmSt{K: "k"}, cmSt{O: "o"}, cmSt{D: "d"}, cmSt{P: &cmSt{}}, cmSt{P: &cmSt{X: "x", Z: true, K: "k"}}, cmSt{L: []cmStr{"l", "", "m"}},
			cmSt{X: hardText, Y: -1, Z: true, K: "k", O: "o", D: "d", P: &cmSt{Y: 1, D: "d"}, L: []cmStr{"l"}})
		return out
	}
	switch t.Kind() {
	case reflect.String:
		add("v", hardText, "0")
	case reflect.Bool:
		add(true)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		add(1, -1, 127)
		if t.Bits() == 64 {
			add(int64(-1<<63), int64(1<<63-1))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		add(1, 255)
		if t.Bits() == 64 {
			add(uint64(1<<64 - 1))
		}
	case reflect.Float32, reflect.Float64:
		add(0.5, -1e-7, 1e22, 16777217.0)
	case reflect.Ptr:
		for _, v := range cmVals(t.Elem()) {
			p := reflect.New(t.Elem())
			p.Elem().Set(v)
			out = append(out, p)
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			add([]byte("bytes"), []byte{}, []byte("<&>"))
			break
		}
		l := cmVals(t.Elem())
		for _, v := range l {
			out = append(out, reflect.Append(reflect.Zero(t), v))
		}
		out = append(out, reflect.MakeSlice(t, 0, 1), reflect.Append(reflect.Zero(t), l...))
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			x := reflect.New(t).Elem()
			reflect.Copy(x, reflect.ValueOf([]byte("abcdefgh")))
			out = append(out[:0], x)
			break
		}
		for _, v := range cmVals(t.Elem()) {
			x := reflect.New(t).Elem()
			x.Index(t.Len() - 1).Set(v)
			out = append(out, x)
		}
	case reflect.Struct:
		for _, s := range []string{"a", hardText} {
			x := reflect.New(t).Elem()
			x.Field(0).SetString(s)
			out = append(out, x)
		}
	case reflect.Map:
		m := reflect.MakeMap(t)
		m.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf("v"))
		out = append(out, m)
	case reflect.Complex128:
		out = nil // zero has no form either, but may pass as empty
		add(complex(1, 1))
	case reflect.Interface:
		add("i", 5)
		x := "p"
		v := reflect.New(t).Elem()
		v.Set(reflect.ValueOf(&x))
		out = append(out, v)
	}
	return out
}

// cmField explores one kind of field in all models.
func cmField[T any](c *core.Ctx) {
	cmModel[cmPlain[T]](c)
	cmModel[cmAttr[T]](c)
	cmModel[cmKeep[T]](c)
	cmModel[cmAttrKeep[T]](c)
	cmModel[cmOmit[T]](c)
	cmModel[cmAttrOmit[T]](c)
	cmModel[cmKeepAttr[T]](c)
	cmModel[cmAll[T]](c)
	cmModel[cmAllRev[T]](c)
	cmModel[cmDash[T]](c)
	cmModel[cmOther[T]](c)
}

func cmModel[M any](c *core.Ctx) {
	if c.Stop() {
		return
	}
	t := reflect.TypeOf((*M)(nil)).Elem()
	fresh := func() xmp.Model { return reflect.New(t).Interface().(xmp.Model) }
	vf, _ := t.FieldByName("V")
	isAttr := strings.Contains(vf.Tag.Get("xmp"), "attr")
	for range c.Block() {
		for i, v := range cmVals(vf.Type) {
			if v := reflect.Indirect(v); v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.String && strings.Contains(fmt.Sprint(v), "\n") && (isAttr || strings.Contains(vf.Tag.Get("xmp"), "omit")) {
				continue // lists as text have one item per line
			}
			for dec := 0; dec < 3; dec++ {
				c.Case(fmt.Sprintf("%s %s value %d other %d", t, vf.Tag.Get("xmp"), i, dec), nil, func() string {
					m := fresh()
					e := reflect.ValueOf(m).Elem()
					if dec > 0 {
						for _, n := range []string{"B", "E", "X", "N"} {
							e.FieldByName(n).SetString("val" + n)
						}
					}
					if dec == 2 {
						e.FieldByName("B").SetString("")
						e.FieldByName("E").SetString("")
					}
					e.FieldByIndex(vf.Index).Set(clone(v))
					if !isUnset(v) {
						c.Nontrivial(fmt.Sprint(t, i))
					}
					if v.Kind() == reflect.Interface && !v.IsNil() {
						return cmIface(m)
					}
					return cmTrip(c, m, fresh)
				})
			}
			// a field that is not written is read all the same, a field that
			// is not a property is not
			tag := vf.Tag.Get("xmp")
			if !strings.Contains(tag, "omit") && tag != "-" || v.Kind() == reflect.Interface {
				continue
			}
			r, err := refC23(v, false)
			ra, aerr := refC23(v, true)
			if strings.Contains(tag, "attr") && aerr == nil && ra != nil && ra.Kind == rText {
				r = ra
			}
			for _, form := range []string{"element", "attribute"} {
				if tag == "-" && form == "element" && r != nil && !rHasText(r) {
					continue // nothing to keep
				}
				if form == "element" && (r == nil || err != nil) || form == "attribute" && (ra == nil || aerr != nil) {
					continue
				}
				c.Case(fmt.Sprintf("%s reading %s %d", t, form, i), nil, func() string {
					cmNew = fresh
					var el, at strings.Builder
					if form == "element" {
						cmElement(&el, "cm:v", r, false)
					} else {
						at.WriteString(` cm:v="` + esc(ra.Text) + `"`)
					}
					x := `<rdf:RDF xmlns:rdf="` + nsRDF + `"><rdf:Description rdf:about="" xmlns:cm="http://example.com/cm/1.0/" xmlns:cn="http://example.com/cm/1.0/other#" cm:b="bb"` + at.String() + `>` + el.String() + `</rdf:Description></rdf:RDF>`
					want := fresh()
					e := reflect.ValueOf(want).Elem()
					e.FieldByName("B").SetString("bb")
					d := xmp.NewDocument()
					defer d.Close()
					if err := xmp.Unmarshal([]byte(x), d); err != nil {
						return err.Error() + "\n" + x
					}
					if tag == "-" {
						if a, b := dumpAll(d.Nodes()[0].Model), dumpAll(want); a != b {
							return fmt.Sprintf("read %s instead of %s from %s", a, b, x)
						}
						// the content stays as unknown content
						b, err := xmp.Marshal(d)
						if err != nil {
							return err.Error()
						}
						was, err := parseRDF([]byte(x))
						if err != nil {
							return err.Error()
						}
						is, err := parseRDF(b)
						if err != nil {
							return err.Error()
						}
						w, _ := was.byName()
						g, err := is.byName()
						if err != nil {
							return err.Error()
						}
						if w[uriCm+"v"] == `""` {
							delete(w, uriCm+"v")
							delete(g, uriCm+"v")
						}
						if fmt.Sprint(w) != fmt.Sprint(g) {
							return fmt.Sprintf("content of a field that is no property becomes %v from %v", g, w)
						}
						return ""
					}
					e.FieldByIndex(vf.Index).Set(cmRead(v))
					return cmSame(d, want, "", true)
				})
			}
		}
	}
}

// rHasText says whether there is any text in a value.
func rHasText(r *rval) bool {
	if r.Text != "" {
		return true
	}
	for _, x := range r.Items {
		if rHasText(x) {
			return true
		}
	}
	for _, p := range r.Props {
		if rHasText(p.Val) {
			return true
		}
	}
	return false
}

// cmIface writes a field of interface type by its content.
func cmIface(m xmp.Model) string {
	props, err := refFields(reflect.ValueOf(m).Elem())
	if err != nil {
		return err.Error()
	}
	d := xmp.NewDocument()
	defer d.Close()
	if _, err := d.AddModel(m); err != nil {
		return err.Error()
	}
	b, err := xmp.Marshal(d)
	if err != nil {
		return err.Error()
	}
	return cmWritten(b, props)
}

func runC23(c *core.Ctx) {
	xmp.Register(nsCm)
	xmp.Register(nsCn)
	c.Group("fields")
	cmField[string](c)
	cmField[cmStr](c)
	cmField[bool](c)
	cmField[cmBool](c)
	cmField[int](c)
	cmField[int8](c)
	cmField[int64](c)
	cmField[cmInt](c)
	cmField[uint8](c)
	cmField[uint16](c)
	cmField[uint64](c)
	cmField[float32](c)
	cmField[float64](c)
	cmField[[]byte](c)
	cmField[cmBytes](c)
	cmField[[3]byte](c)
	cmField[*string](c)
	cmField[*bool](c)
	cmField[*int](c)
	cmField[*cmStr](c)
	cmField[cmSt](c)
	cmField[*cmSt](c)
	cmField[[]string](c)
	cmField[[]int](c)
	cmField[[]cmSt](c)
	cmField[[]*cmSt](c)
	cmField[[]*string](c)
	cmField[[2]string](c)
	cmField[[2]cmSt](c)
	cmField[[]cmMarV](c)
	cmField[[]cmMarP](c)
	cmField[[]cmTxtV](c)
	cmField[[]cmTxtP](c)
	cmField[cmMarV](c)
	cmField[cmMarP](c)
	cmField[cmMarS](c)
	cmField[cmTxtV](c)
	cmField[cmTxtP](c)
	cmField[cmTxtI](c)
	cmField[cmAtV](c)
	cmField[cmAtP](c)
	cmField[cmZero](c)
	cmField[*cmMarV](c)
	cmField[*cmMarP](c)
	cmField[*cmMarS](c)
	cmField[*cmTxtV](c)
	cmField[*cmTxtP](c)
	cmField[*cmTxtI](c)
	cmField[*cmAtV](c)
	cmField[*cmAtP](c)
	cmField[*cmZero](c)
	cmField[xmp.StringList](c)
	cmField[xmp.StringArray](c)
	cmField[xmp.AltString](c)
	cmField[xmp.IntList](c)
	cmField[xmp.Date](c)
	cmField[*xmp.Date](c)
	cmField[xmp.GUID](c)
	cmField[xmp.Uri](c)
	cmField[xmp.Rational](c)
	cmField[*xmp.StringList](c)
	cmField[map[string]string](c)
	cmField[complex128](c)
	cmField[interface{}](c)
	c23embed(c)
	c23pairs(c)
	c23errors(c)
	c23native(c)
}

var _ encoding.TextMarshaler = cmTxtV{}
var _ = time.Time{}

// c23embed sets every subset of the fields of models that embed structs.
func c23embed(c *core.Ctx) {
	c.Group("embedded")
	for _, m := range []xmp.Model{&cmEmb1{}, &cmEmb2{}, &cmEmb3{}, &cmEmb4{CmE1: &CmE1{}}, &cmUnexp{}} {
		t := reflect.TypeOf(m).Elem()
		fresh := func() xmp.Model {
			if t == reflect.TypeOf(cmEmb4{}) {
				return &cmEmb4{CmE1: &CmE1{}}
			}
			return reflect.New(t).Interface().(xmp.Model)
		}
		var idx [][]int
		for _, f := range reflect.VisibleFields(t) {
			if !f.Anonymous && f.IsExported() {
				idx = append(idx, f.Index)
			}
		}
		for range c.Block() {
			for set := 0; set < 1<<len(idx); set++ {
				c.Case(fmt.Sprintf("%s %b", t, set), nil, func() string {
					x := fresh()
					for i, n := range idx {
						if set&(1<<i) != 0 {
							f := reflect.ValueOf(x).Elem().FieldByIndex(n)
							switch f.Kind() {
							case reflect.String:
								f.SetString(fmt.Sprint("val", i))
							case reflect.Int:
								f.SetInt(int64(i))
							case reflect.Ptr:
								s := fmt.Sprint("val", i)
								f.Set(reflect.ValueOf(&s))
							}
						}
					}
					if u, ok := x.(*cmUnexp); ok {
						u.v = "hidden"
						cmNew = fresh
						d := xmp.NewDocument()
						defer d.Close()
						d.AddModel(u)
						b, err := xmp.Marshal(d)
						if err != nil {
							return err.Error()
						}
						p, _ := refFields(reflect.ValueOf(u).Elem())
						return cmWritten(b, p)
					}
					return cmTrip(c, x, fresh)
				})
			}
		}
	}
	c.Case("unexported field is not read", nil, func() string {
		cmNew = func() xmp.Model { return &cmUnexp{} }
		for _, x := range []string{`<rdf:Description rdf:about="" xmlns:cm="http://example.com/cm/1.0/" cm:v="x" cm:b="b"/>`, `<rdf:Description rdf:about="" xmlns:cm="http://example.com/cm/1.0/" cm:b="b"><cm:v>x</cm:v></rdf:Description>`} {
			d := xmp.NewDocument()
			defer d.Close()
			if err := xmp.Unmarshal([]byte(`<rdf:RDF xmlns:rdf="`+nsRDF+`">`+x+`</rdf:RDF>`), d); err != nil {
				return err.Error()
			}
			u := d.Nodes()[0].Model.(*cmUnexp)
			if u.v != "" || u.B != "b" {
				return fmt.Sprintf("read %+v", u)
			}
			b, err := xmp.Marshal(d)
			if err != nil {
				return err.Error()
			}
			if s := cmWritten(b, []formProp{{rprop{uriCm + "b", &rval{Text: "b"}}, false}, {rprop{uriCm + "v", &rval{Text: "x"}}, strings.Contains(x, "cm:v=")}}); s != "" {
				return s
			}
		}
		return ""
	})
}

// c23pairs explores two fields of a structure in every order.
func c23pairs(c *core.Ctx) {
	c.Group("nested fields")
	kinds := []reflect.Type{
		reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(false), reflect.TypeOf(0.5), reflect.TypeOf([]byte{}), reflect.TypeOf(new(string)), reflect.TypeOf(cmSt{}), reflect.TypeOf(&cmSt{}),
		reflect.TypeOf([]string{}), reflect.TypeOf(xmp.StringList{}), reflect.TypeOf(xmp.AltString{}), reflect.TypeOf(xmp.Date{}), reflect.TypeOf(cmMarP{}), reflect.TypeOf(&cmMarV{}), reflect.TypeOf(cmTxtP{}), reflect.TypeOf(&cmTxtP{}), reflect.TypeOf(cmAtP{}), reflect.TypeOf(cmZero{}),
	}
	flags := []string{"", ",attr", ",empty", ",attr,empty", ",omit", "-"}
	type fdef struct {
		t    reflect.Type
		flag string
		val  reflect.Value
	}
	var defs []fdef
	for _, t := range kinds {
		for _, f := range flags {
			vals := cmVals(t)
			n := core.Pick(c, 2, 3)
			for i := 0; i < n && i < len(vals); i++ {
				defs = append(defs, fdef{t, f, vals[i]})
			}
		}
	}
	c.Bound("nested field definitions", len(defs))
	tagOf := func(name, flag string) reflect.StructTag {
		if flag == "-" {
			name = ""
		}
		return reflect.StructTag(`xmp:"` + name + flag + `"`)
	}
	names := [][2]string{{"cm:x", "cn:x"}, {"cm:x", "cm:xx"}}
	for i, a := range defs {
		if c.Stop() {
			return
		}
		for range c.Block() {
			for j, b := range defs {
				n := names[(i+j)%2]
				if c.Thorough() || b.flag == a.flag {
					n = names[0]
				}
				for v := 0; v < core.Pick(c, 1, 2); v++ {
					if v == 1 {
						n = names[1]
					}
					c.Case(fmt.Sprintf("%s%s %d, %s%s %d %s", a.t, a.flag, i, b.t, b.flag, j, n[1]), nil, func() string {
						st := reflect.StructOf([]reflect.StructField{
							{Name: "F0", Type: a.t, Tag: tagOf(n[0], a.flag)},
							{Name: "F1", Type: b.t, Tag: tagOf(n[1], b.flag)},
						})
						p := reflect.New(st)
						p.Elem().Field(0).Set(clone(a.val))
						p.Elem().Field(1).Set(clone(b.val))
						fresh := func() xmp.Model { return &cmDyn{St: reflect.New(st).Interface()} }
						c.Nontrivial(fmt.Sprint(i, j))
						return cmNested(c, p, fresh)
					})
				}
			}
		}
	}
}

// cmNested writes and reads a structure inside of a model.
func cmNested(c *core.Ctx, p reflect.Value, fresh func() xmp.Model) string {
	m := &cmDyn{A: "aa", B: "bb", St: p.Interface()}
	props, rerr := refFields(p.Elem())
	cmNew = fresh
	for _, format := range []string{"xml", "json"} {
		d := xmp.NewDocument()
		defer d.Close()
		if _, err := d.AddModel(m); err != nil {
			return err.Error()
		}
		var b []byte
		var err error
		if format == "xml" {
			b, err = xmp.Marshal(d)
		} else {
			b, err = json.Marshal(d)
		}
		if (err != nil) != (rerr != nil) {
			return fmt.Sprintf("%s: writing gives %v, expected %v", format, err, rerr)
		}
		if err != nil {
			return ""
		}
		if format == "xml" {
			doc, err := parseRDF(b)
			if err != nil {
				return err.Error()
			}
			got, err := doc.byName()
			if err != nil {
				return err.Error()
			}
			want := &rval{}
			if len(props) > 0 {
				want.Kind = rStruct
			}
			for _, x := range props {
				want.Props = append(want.Props, x.rprop)
			}
			if a, b := got[uriCm+"st"], want.String(); a != b {
				return fmt.Sprintf("written %s instead of %s", a, b)
			}
			attrs, elems, err := cmForms(b, uriCm+"st")
			if err != nil {
				return err.Error()
			}
			for _, p := range props {
				if p.Attr && (attrs[p.Name] != 1 || elems[p.Name] != 0) || !p.Attr && (attrs[p.Name] != 0 || elems[p.Name] != 1) {
					return fmt.Sprintf("%s is written %d times as attribute and %d times as element", p.Name, attrs[p.Name], elems[p.Name])
				}
			}
		}
		o := xmp.NewDocument()
		defer o.Close()
		if format == "xml" {
			err = xmp.Unmarshal(b, o)
		} else {
			err = json.Unmarshal(b, o)
		}
		if err != nil {
			return fmt.Sprintf("%s: reading what was written: %v\n%s", format, err, b)
		}
		want := &cmDyn{A: "aa", B: "bb", St: cmRead(p).Interface()}
		if s := cmSame(o, want, "", true); s != "" {
			return fmt.Sprintf("%s: %s\n%s", format, s, b)
		}
	}
	return ""
}

// c23errors calls every failing marshaler from every place.
func c23errors(c *core.Ctx) {
	c.Group("errors")
	for range c.Block() {
		cmFails[cmFailM](c, true, false)
		cmFails[cmFailMP](c, true, false)
		cmFails[cmFailT](c, true, true)
		cmFails[cmFailTP](c, true, true)
		cmFails[cmFailA](c, true, true)
		cmFails[cmFailAP](c, true, true)
	}
}

type cmIn[T any] struct {
	V  T   `xmp:"cm:v"`
	P  *T  `xmp:"cm:p"`
	L  []T `xmp:"cm:l"`
	LP []*T
}
type cmInA[T any] struct {
	V T  `xmp:"cm:v,attr"`
	P *T `xmp:"cm:p,attr"`
}
type cmDeepF[T any] struct {
	cmBase
	A string       `xmp:"cm:a"`
	S cmPlainF[T]  `xmp:"cm:s"`
	T *cmPlainF[T] `xmp:"cm:t"`
}
type cmPlainF[T any] struct {
	V T  `xmp:"cm:v"`
	P *T `xmp:"cm:p"`
}
type cmTopF[T any] struct {
	cmBase
	A string `xmp:"cm:a"`
	V T      `xmp:"cm:v"`
	P *T     `xmp:"cm:p"`
	L []T    `xmp:"cm:l"`
	Q []*T   `xmp:"cm:q"`
	Z string `xmp:"cm:z"`
}
type cmTopA[T any] struct {
	cmBase
	A string    `xmp:"cm:a"`
	V T         `xmp:"cm:v,attr"`
	P *T        `xmp:"cm:p,attr"`
	S *cmInA[T] `xmp:"cm:s"`
	Z string    `xmp:"cm:z,attr"`
}

func cmFails[T any](c *core.Ctx, elem, attr bool) {
	mk := func(s string) T {
		var x T
		reflect.ValueOf(&x).Elem().Field(0).SetString(s)
		return x
	}
	bad, ok := mk("fail"), mk("fine")
	type place struct {
		name  string
		fresh func() xmp.Model
		set   func(x T) xmp.Model
		read  string
		attr  bool
	}
	top := func() xmp.Model { return &cmTopF[T]{} }
	topA := func() xmp.Model { return &cmTopA[T]{} }
	deep := func() xmp.Model { return &cmDeepF[T]{} }
	places := []place{
		{"field", top, func(x T) xmp.Model { return &cmTopF[T]{A: "a", V: x, Z: "z"} }, "<cm:v>%s</cm:v>", false},
		{"pointer", top, func(x T) xmp.Model { return &cmTopF[T]{A: "a", P: &x, Z: "z"} }, "<cm:p>%s</cm:p>", false},
		{"list", top, func(x T) xmp.Model { return &cmTopF[T]{A: "a", L: []T{ok, x, ok}, Z: "z"} }, "<cm:l><rdf:Seq><rdf:li>fine</rdf:li><rdf:li>%s</rdf:li><rdf:li>fine</rdf:li></rdf:Seq></cm:l>", false},
		{"pointer list", top, func(x T) xmp.Model { return &cmTopF[T]{A: "a", Q: []*T{&ok, &x}, Z: "z"} }, "<cm:q><rdf:Seq><rdf:li>fine</rdf:li><rdf:li>%s</rdf:li></rdf:Seq></cm:q>", false},
		{"struct", deep, func(x T) xmp.Model { return &cmDeepF[T]{S: cmPlainF[T]{V: x}} }, `<cm:s rdf:parseType="Resource"><cm:v>%s</cm:v></cm:s>`, false},
		{"struct pointer", deep, func(x T) xmp.Model { return &cmDeepF[T]{T: &cmPlainF[T]{P: &x}} }, `<cm:t rdf:parseType="Resource"><cm:p>%s</cm:p></cm:t>`, false},
		{"attribute", topA, func(x T) xmp.Model { return &cmTopA[T]{A: "a", V: x, Z: "z"} }, `cm:v="%s"`, true},
		{"pointer attribute", topA, func(x T) xmp.Model { return &cmTopA[T]{A: "a", P: &x, Z: "z"} }, `cm:p="%s"`, true},
		{"struct attribute", topA, func(x T) xmp.Model { return &cmTopA[T]{S: &cmInA[T]{V: x}} }, `<cm:s cm:v="%s"/>`, true},
		{"struct pointer attribute", topA, func(x T) xmp.Model { return &cmTopA[T]{S: &cmInA[T]{P: &x}} }, `<cm:s cm:p="%s"/>`, true},
	}
	for _, p := range places {
		if p.attr && !attr {
			continue
		}
		for _, format := range []string{"xml", "json"} {
			c.Case(fmt.Sprintf("%T %s write %s", bad, p.name, format), nil, func() string {
				cmNew = p.fresh
				for _, x := range []T{ok, bad, ok} {
					d := xmp.NewDocument()
					defer d.Close()
					if _, err := d.AddModel(p.set(x)); err != nil {
						return err.Error()
					}
					var err error
					if format == "xml" {
						_, err = xmp.Marshal(d)
					} else {
						_, err = json.Marshal(d)
					}
					if s := wantErr(err, reflect.ValueOf(x).Field(0).String() == "fail"); s != "" {
						return s
					}
				}
				return ""
			})
		}
		c.Case(fmt.Sprintf("%T %s read", bad, p.name), nil, func() string {
			cmNew = p.fresh
			for _, x := range []string{"fine", "bad"} {
				s := fmt.Sprintf(p.read, x)
				if strings.HasPrefix(s, "<") {
					s = ">" + s + "</rdf:Description>"
				} else {
					s = " " + s + "/>"
				}
				doc := `<rdf:RDF xmlns:rdf="` + nsRDF + `"><rdf:Description rdf:about="" xmlns:cm="http://example.com/cm/1.0/"` + s + `</rdf:RDF>`
				d := xmp.NewDocument()
				defer d.Close()
				if s := wantErr(xmp.Unmarshal([]byte(doc), d), x == "bad"); s != "" {
					return s + "\n" + doc
				}
			}
			return ""
		})
	}
}

func wantErr(err error, want bool) string {
	switch {
	case want && err == nil:
		return "the marshaler's error is lost"
	case want && !strings.Contains(err.Error(), errCm.Error()):
		return "another error is returned: " + err.Error()
	case !want && err != nil:
		return err.Error()
	}
	return ""
}

// Native tags of a user's model.
type cmNat[T any] struct {
	cmBase
	A string      `cm:"TA" xmp:"cm:a"`
	V T           `cm:"TV" xmp:"cm:v"`
	D string      `cm:"-" xmp:"cm:d"`
	O string      `cm:"TO,omit" xmp:"cm:o"`
	N T           `xmp:"cm:n"`
	X xmp.TagList `cm:",any" xmp:"cm:x"`
	Z string      `cm:"TVX" xmp:"-"`
}

func c23native(c *core.Ctx) {
	c.Group("native tags")
	for range c.Block() {
		cmNative[string](c)
		cmNative[cmStr](c)
		cmNative[bool](c)
		cmNative[int](c)
		cmNative[uint8](c)
		cmNative[float64](c)
		cmNative[[]byte](c)
		cmNative[*string](c)
		cmNative[*int](c)
		cmNative[cmTxtV](c)
		cmNative[cmTxtP](c)
		cmNative[*cmTxtV](c)
		cmNative[*cmTxtP](c)
		cmNative[cmTxtI](c)
		cmNative[xmp.StringList](c)
		cmNative[xmp.Date](c)
		cmNative[xmp.AltString](c)
		cmNative[cmSt](c)
		cmNative[[]cmSt](c)
		cmNative[cmZero](c)
	}
}

func cmNative[T any](c *core.Ctx) {
	t := reflect.TypeOf((*T)(nil)).Elem()
	texts := append([]string{"txtv:a", "txtp:a", "int 5", "n 8", "n 7"}, tagTexts...)
	for _, tag := range []string{"TA", "TV", "D", "d", "-", "TO", "N", "V", "TVX", "TVXX", "ta", "cm:v", "X", "zz"} {
		for pre := 0; pre < 2; pre++ {
			for _, text := range texts {
				c.Case(fmt.Sprintf("%s %s %d %q", t, tag, pre, text), nil, func() string {
					m := &cmNat[T]{}
					if pre == 1 {
						l := cmVals(t)
						reflect.ValueOf(m).Elem().FieldByName("V").Set(clone(l[len(l)-1]))
						m.A, m.Z, m.D = "a", "z", "d"
						m.X = xmp.TagList{{Key: "yy", Value: "y"}, {Key: "zz", Value: "1"}}
					}
					want := cmNat[T]{}
					reflect.ValueOf(&want).Elem().Set(reflect.ValueOf(m).Elem())
					w := reflect.ValueOf(&want).Elem()
					name := map[string]string{"TA": "A", "TV": "V", "TO": "O", "N": "N", "TVX": "Z"}[tag]
					ok, readable, wantText := false, false, ""
					if name == "" {
						want.X = nil
						for _, x := range m.X {
							if x.Key != tag {
								want.X = append(want.X, x)
							}
						}
						if text != "" {
							want.X = append(want.X, xmp.Tag{Key: tag, Value: text})
						}
						ok, readable, wantText = true, true, text
					} else if v, err := parsed(w.FieldByName(name), text); err == nil {
						w.FieldByName(name).Set(v)
						ok = true
						wantText, readable = tagText(v)
						if v.Kind() == reflect.Ptr && !v.IsNil() && v.Elem().Kind() == reflect.Int {
							wantText = fmt.Sprint(v.Elem().Int())
						}
						if z, ok := v.Interface().(xmp.Zero); ok && (v.Kind() != reflect.Ptr || !v.IsNil()) && z.IsZero() {
							wantText = ""
						}
					}
					err := xmp.SetNativeField(m, tag, text)
					if (err == nil) != ok {
						return fmt.Sprintf("setting gives %v", err)
					}
					if a, b := dumpAll(m), dumpAll(&want); a != b {
						return fmt.Sprintf("the model is %s instead of %s", a, b)
					}
					if !ok {
						return ""
					}
					c.Nontrivial(t.String() + tag + text)
					got, err := xmp.GetNativeField(m, tag)
					if readable && (got != wantText || err != nil) {
						return fmt.Sprintf("reads %q, %v instead of %q", got, err, wantText)
					}
					l, err := xmp.ListNativeFields(m)
					if err != nil {
						return err.Error()
					}
					for _, x := range l {
						s, err := xmp.GetNativeField(m, x.Key)
						if x.Lang == "" && (err != nil || s != x.Value) {
							return fmt.Sprintf("%s is listed as %q and reads %q, %v", x.Key, x.Value, s, err)
						}
						if x.Key == tag && x.Lang == "" && readable && x.Value != wantText {
							return fmt.Sprintf("%s is listed as %q instead of %q", tag, x.Value, wantText)
						}
					}
					if readable && wantText != "" {
						found := false
						for _, x := range l {
							found = found || x.Key == tag
						}
						if !found {
							return fmt.Sprintf("%s is not listed in %v", tag, l)
						}
					}
					return ""
				})
			}
		}
	}
}
