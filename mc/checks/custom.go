package checks

import (
	"reflect"

	"github.com/trimmer-io/go-xmp/xmp"
)

// A user-defined model with fields of every kind.

var (
	nsTm  = xmp.NewNamespace("tm", "http://example.com/tm/1.0/", func(string) xmp.Model { return &TM{} })
	nsTmS = xmp.NewNamespace("stTm", "http://example.com/tm/1.0/sType#", func(string) xmp.Model { return &TM{} })
)

type tmDeep struct {
	X string  `xmp:"tm:x"`
	F float64 `xmp:"tm:f"`
}

type tmSub struct {
	X   string           `xmp:"tm:x"`
	Y   int              `xmp:"tm:y,attr"`
	OX  string           `xmp:"stTm:x"`
	P   *string          `xmp:"tm:p"`
	Sub *tmDeep          `xmp:"tm:sub"`
	Del *tmDeep          `xmp:"tm:del"`
	L   xmp.StringList   `xmp:"tm:l"`
	Any xmp.TagList      `xmp:"tm:tags,any,omit"`
	M   map[string]int64 `xmp:"tm:m"`
}

type tmOther struct {
	X string `xmp:"stTm:x"`
	Y string `xmp:"tm:x"`
}

type tmSubList []tmSub

func (x tmSubList) Typ() xmp.ArrayType { return xmp.ArrayTypeOrdered }

type tmPtrList []*tmSub

func (x tmPtrList) Typ() xmp.ArrayType { return xmp.ArrayTypeUnordered }

func (x tmSubList) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, node, x.Typ(), x)
}

func (x *tmSubList) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, node, x.Typ(), x)
}

func (x tmPtrList) MarshalXMP(e *xmp.Encoder, node *xmp.Node, m xmp.Model) error {
	return xmp.MarshalArray(e, node, x.Typ(), x)
}

func (x *tmPtrList) UnmarshalXMP(d *xmp.Decoder, node *xmp.Node, m xmp.Model) error {
	return xmp.UnmarshalArray(d, node, x.Typ(), x)
}

type TmEmbed struct {
	Emb string `xmp:"tm:emb"`
}

type TM struct {
	S   string  `xmp:"tm:s"`
	A   string  `xmp:"tm:a,attr"`
	X   string  `xmp:"tm:x"`
	OX  string  `xmp:"stTm:x"`
	I   int     `xmp:"tm:i"`
	I8  int8    `xmp:"tm:i8,attr"`
	U   uint16  `xmp:"tm:u"`
	F   float64 `xmp:"tm:f"`
	F32 float32 `xmp:"tm:f32"`
	B   bool    `xmp:"tm:b"`
	E   string  `xmp:"tm:e,empty"`
	BE  bool    `xmp:"tm:be,empty"`
	IE  int     `xmp:"tm:ie,attr,empty"`
	TmEmbed
	PS  *string           `xmp:"tm:ps"`
	PI  *int              `xmp:"tm:pi,attr"`
	PB  *bool             `xmp:"tm:pb"`
	By  []byte            `xmp:"tm:by"`
	D   xmp.Date          `xmp:"tm:d"`
	PD  *xmp.Date         `xmp:"tm:pd"`
	G   xmp.GUID          `xmp:"tm:g,attr"`
	R   xmp.Rational      `xmp:"tm:r"`
	St  tmSub             `xmp:"tm:st"`
	PSt *tmSub            `xmp:"tm:pst"`
	OSt tmOther           `xmp:"stTm:st"`
	L   xmp.StringArray   `xmp:"tm:l"`
	Q   xmp.StringList    `xmp:"tm:q"`
	LI  xmp.IntList       `xmp:"tm:li"`
	LS  tmSubList         `xmp:"tm:ls"`
	LP  tmPtrList         `xmp:"tm:lp"`
	Alt xmp.AltString     `xmp:"tm:alt"`
	M   map[string]string `xmp:"tm:m"`
	MI  map[string]int    `xmp:"tm:mi"`
	Z   string            `xmp:"-"`
	O   string            `xmp:"tm:o,omit"`
}

func (x TM) Can(n string) bool                  { return n == "tm" || n == "stTm" }
func (x TM) Namespaces() xmp.NamespaceList      { return xmp.NamespaceList{nsTm, nsTmS} }
func (x *TM) SyncModel(d *xmp.Document) error   { return nil }
func (x *TM) SyncFromXMP(d *xmp.Document) error { return nil }
func (x TM) SyncToXMP(d *xmp.Document) error    { return nil }
func (x *TM) CanTag(tag string) bool            { return false }
func (x *TM) GetTag(tag string) (string, error) { return "", nil }
func (x *TM) SetTag(tag, value string) error    { return nil }

// snapshot lists what a document holds: the paths of every model, and the raw
// content of every top-level node.
func snapshot(d *xmp.Document) (map[string]string, error) {
	out := map[string]string{}
	for _, n := range d.Nodes() {
		key := n.XMLName.Local
		if n.Model != nil {
			l, err := modelPaths(n.Model)
			if err != nil {
				return nil, err
			}
			for _, x := range l {
				out[x.Path] = x.Value
			}
		}
		for i, c := range n.Nodes {
			out[key+" node "+c.XMLName.Local+string(rune('0'+i))] = dumpNode(c)
		}
		for _, a := range n.Attr {
			out[key+" attr "+a.Name.Local] = a.Value
		}
		if n.Value != "" {
			out[key+" text"] = n.Value
		}
	}
	return out, nil
}

// modelPaths lists a built-in model's paths by the golden schema and a custom
// model's by the library.
func modelPaths(m xmp.Model) ([]pathVal, error) {
	if _, ok := m.(*TM); !ok {
		if l, err := refPaths(reflect.ValueOf(m).Elem(), ""); err == nil {
			return l, nil
		}
	}
	l, err := xmp.ListModelPaths(m)
	if err != nil {
		return nil, err
	}
	var out []pathVal
	for _, v := range l {
		out = append(out, pathVal{string(v.Path), v.Value})
	}
	return out, nil
}

// purePaths lists the paths of a document without synchronizing its models.
func purePaths(d *xmp.Document) ([]pathVal, error) {
	var out []pathVal
	for _, n := range d.Nodes() {
		if n.Model == nil || len(n.Nodes) > 0 || len(n.Attr) > 0 {
			return listing(d)
		}
	}
	for _, n := range d.Nodes() {
		l, err := modelPaths(n.Model)
		if err != nil {
			return nil, err
		}
		out = append(out, l...)
	}
	return out, nil
}
