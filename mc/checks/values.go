package checks

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/trimmer-io/go-xmp/models/crs"
	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/itunes"
	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/pm"
	"github.com/trimmer-io/go-xmp/models/qt"
	"github.com/trimmer-io/go-xmp/models/riff"
	"github.com/trimmer-io/go-xmp/models/tiff"
	xmpbase "github.com/trimmer-io/go-xmp/models/xmp_base"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	xmpmm "github.com/trimmer-io/go-xmp/models/xmp_mm"
	xmptpg "github.com/trimmer-io/go-xmp/models/xmp_tpg"
	"github.com/trimmer-io/go-xmp/xmp"
)

// The value alphabet: for every Go type a model property can have, the set
// values explored for it, simplest first. All of them are values a user can
// set and none is the type's own "unset" value.

const hardText = "<&>\"'é中𝄞]]>\n \ttail"

var (
	tUTC  = time.Date(2021, 7, 4, 12, 30, 15, 0, time.UTC)
	tWest = time.Date(2006, 1, 2, 15, 4, 5, 0, time.FixedZone("", -7*3600))
	tEast = time.Date(1999, 12, 31, 23, 59, 59, 0, time.FixedZone("", 5*3600+1800))
)

func vals(l ...interface{}) []interface{} { return l }

func overrides() map[string][]interface{} {
	rate := xmpdm.FrameRate{Rate: 25, Base: 1}
	rate2 := xmpdm.FrameRate{Rate: 30000, Base: 1001}
	return map[string][]interface{}{
		"xmp.Bool":        vals(xmp.True),
		"xmp.Date":        vals(xmp.Date(tUTC), xmp.Date(tWest), xmp.Date(tEast)),
		"xmp.Rational":    vals(xmp.Rational{Num: 1, Den: 2}, xmp.Rational{Num: -3, Den: 7}, xmp.Rational{Num: 0, Den: 5}, xmp.Rational{Num: 5, Den: 1}, xmp.Rational{Num: 1 << 40, Den: 3}, xmp.Rational{Num: 6, Den: 4}),
		"xmp.GPSCoord":    vals(xmp.GPSCoord("37,26.4525N"), xmp.GPSCoord("0,0.0000001W")),
		"xmp.GUID":        vals(xmp.GUID("xmp.did:1234-ABCD"), xmp.GUID("uuid:a<b&c")),
		"xmp.AltString":   altAlphabet(),
		"riff.AltString":  vals(riff.AltString(xmp.NewAltString("one")), riff.AltString(xmp.NewAltString(xmp.AltItem{Value: "d", Lang: "", IsDefault: true}, xmp.AltItem{Value: "e", Lang: "en"}))),
		"xmp.StringList":  vals(xmp.StringList{"a"}, xmp.StringList{"b", "a"}, xmp.StringList{"x", "y", "x"}, xmp.StringList{hardText, "z"}),
		"xmp.StringArray": vals(xmp.StringArray{"a"}, xmp.StringArray{"b", "a"}, xmp.StringArray{"x", "y", "z"}, xmp.StringArray{hardText, "z"}),
		"xmp.TagList":     vals(xmp.TagList{{Key: "k1", Value: "v1"}}, xmp.TagList{{Key: "k1", Value: "v1"}, {Key: "k2", Value: hardText}}, xmp.TagList{{Key: "k", Value: "v", Lang: "en-US"}, {Key: "k", Value: "w", Lang: "de"}, {Key: "k", Value: "x"}}, xmp.TagList{{Key: "----:com.x", Value: "v"}, {Key: "\u00a9nam", Value: "w"}, {Key: "a b-c", Value: "x", Lang: "fr"}, {Key: "7_x0041_", Value: "y"}}),

		"exif.Date":           vals(exif.Date(tUTC), exif.Date(time.Date(1999, 12, 31, 0, 0, 1, 0, time.UTC))),
		"exif.ByteArray":      vals(exif.ByteArray{1}, exif.ByteArray{0, 255, 7}),
		"exif.GPSCoord":       vals(),
		"exif.OECF":           vals(exif.OECF{Columns: 2, Rows: 1, Names: xmp.StringArray{"R", "G"}, Values: xmp.RationalArray{{Num: 1, Den: 2}, {Num: 3, Den: 4}}}, exif.OECF{Columns: 1, Rows: 2}),
		"exif.CFAPattern":     vals(exif.CFAPattern{Columns: 2, Rows: 2, Values: exif.ByteArray{0, 1, 1, 2}}, exif.CFAPattern{Columns: 1, Rows: 3}),
		"exif.DeviceSettings": vals(exif.DeviceSettings{Columns: 2, Rows: 1, Values: xmp.StringArray{"a", "b"}}, exif.DeviceSettings{Columns: 1, Rows: 2}),

		"id3.Time23":   vals(id3.Time23(time.Date(0, 1, 1, 13, 45, 0, 0, time.UTC))),
		"id3.Date23":   vals(id3.Date23(time.Date(0, 12, 31, 0, 0, 0, 0, time.UTC))),
		"id3.TrackNum": vals(id3.TrackNum{Track: 3}, id3.TrackNum{Track: 3, Total: 12}),
		"id3.Genre":    vals(id3.Genre{"Rock"}, id3.Genre{"Rock", "Jazz"}),

		"itunes.ContentRating": vals(itunes.ContentRating{Standard: "mpaa", Rating: "PG", Score: "300", Reasons: "none"}, itunes.ContentRating{Standard: "mpaa"}, itunes.ContentRating{Rating: "R", Score: "4"}),

		"ixml.Bool":             vals(ixml.Bool(true)),
		"ixml.TimecodeFlag":     vals(ixml.TimecodeFlagDF, ixml.TimecodeFlagNDF),
		"ixml.TakeTypeList":     vals(ixml.TakeTypeList{ixml.TakeTypeNoGood}, ixml.TakeTypeList{ixml.TakeTypeFalseStart, ixml.TakeTypeWildTrack}),
		"ixml.LocationTypeList": vals(ixml.LocationTypeList{ixml.LocationTypeInterior}, ixml.LocationTypeList{ixml.LocationTypeInterior, ixml.LocationTypeExterior}),
		"ixml.LocationTimeList": vals(ixml.LocationTimeList{ixml.LocationTimeSunrise}, ixml.LocationTimeList{ixml.LocationTimeSunrise, ixml.LocationTimeSunset}),

		"pm.Time":               vals(pm.Time(time.Date(0, 1, 1, 15, 4, 5, 0, time.FixedZone("", -7*3600)))),
		"pm.Preferences":        vals(pm.Preferences{TagStatus: 1, ColorClass: 2, Rating: 3, Frame: 4}, pm.Preferences{Frame: 9}),
		"qt.Point":              vals(qt.Point{X: 3, Y: 4}, qt.Point{X: 0, Y: -1}, qt.Point{X: 7}),
		"qt.ContentRating":      vals(qt.ContentRating{Standard: "mpaa", Rating: "PG", Score: "300", Reasons: "none"}, qt.ContentRating{Standard: "mpaa"}),
		"tiff.YCbCrSubSampling": vals(tiff.YCbCrSubSampling{2, 1}, tiff.YCbCrSubSampling{2, 2}),
		"crs.Point":             vals(crs.Point{X: 3, Y: 4}, crs.Point{X: 0, Y: 255}),

		"xmpbase.Identifier": vals(xmpbase.Identifier{ID: "id-1"}, xmpbase.Identifier{ID: "<id>", Scheme: "http://x/?a=1&b"}),
		"xmpdm.FrameCount":   vals(xmpdm.FrameCount{Count: 5, Rate: rate}, xmpdm.FrameCount{Count: 7, Rate: rate2}, xmpdm.FrameCount{Count: -1, Rate: xmpdm.FrameRate{Rate: 1, Base: 1}}, xmpdm.FrameCount{Count: 0, Rate: xmpdm.FrameRate{Rate: 1, Base: 1}}),
		"xmpdm.FrameRate":    vals(rate, rate2),
		"xmpdm.Part":         vals(xmpdm.Part{Path: "/audio/"}, xmpdm.Part{Path: "/video/", Start: xmpdm.FrameCount{Count: 2, Rate: rate}, Duration: xmpdm.FrameCount{Count: 5, Rate: rate2}}, xmpdm.Part{Path: "/", Start: xmpdm.FrameCount{Rate: xmpdm.FrameRate{}}, Duration: xmpdm.FrameCount{Count: 5, Rate: rate}}),
		"xmpdm.PartList":     vals(xmpdm.PartList{{Path: "/audio/"}}, xmpdm.PartList{{Path: "/audio/"}, {Path: "/video/", Duration: xmpdm.FrameCount{Count: 5, Rate: rate}}}),
		"xmpdm.Timecode": vals(
			xmpdm.Timecode{Format: xmpdm.TimecodeFormat25, Value: "01:02:03:04", H: 1, M: 2, S: 3, F: 4},
			xmpdm.Timecode{Format: xmpdm.TimecodeFormat2997, Value: "10;20;30;29", H: 10, M: 20, S: 30, F: 29, IsDropFrame: true}),
		"xmpdm.MediaTime":      vals(xmpdm.MediaTime{Value: 5, Scale: xmp.Rational{Num: 1, Den: 1000}}, xmpdm.MediaTime{Value: -7, Scale: xmp.Rational{Num: 1001, Den: 30000}}),
		"xmpdm.VideoFrameRate": vals(xmpdm.VideoFrameRate(25), xmpdm.VideoFrameRate(29.97)),
		"xmpdm.MarkerTypeList": vals(xmpdm.MarkerTypeList{"Cue"}, xmpdm.MarkerTypeList{"Track", "Beat", "Cue"}),
		"xmptpg.Dimensions":    vals(xmptpg.Dimensions{H: 1.5, W: 2.25, Unit: xmptpg.UnitInch}, xmptpg.Dimensions{H: 1, W: 2}),

		"xmp.ExtensionArray":       vals(),
		"xmp.NamedExtensionArray":  vals(),
		"xmpmm.ResourceEventArray": vals(),
	}
}

func altAlphabet() []interface{} {
	d := func(v, l string) xmp.AltItem { return xmp.AltItem{Value: v, Lang: l, IsDefault: true} }
	o := func(v, l string) xmp.AltItem { return xmp.AltItem{Value: v, Lang: l} }
	return vals(
		xmp.AltString{d("plain", "")},
		xmp.AltString{d(hardText, "")},
		xmp.AltString{d("def", ""), o("eng", "en"), o("ger", "de-DE")},
		xmp.AltString{d("def", "en"), o("ger", "de")},
		xmp.AltString{d("def", "fr")},
		xmp.AltString{d("same", ""), o("x", "fr"), o("x", "de")},
		xmp.AltString{d("0", ""), o("1", "en"), o("2", "en-US"), o("3", "en-GB"), o("4", "de"), o("5", "fr"), o("6", "it"), o("7", "es"), o("8", "pt-BR"), o("9", "ja"), o("10", "zh-Hant-TW"), o("11", "ko")},
		xmp.AltString{d("Same", ""), o("same", "en"), o("SAME", "de")},
		xmp.AltString{d("v", "en"), o("V", "de"), o("vv", "fr"), o("v", "it")},
	)
}

var (
	ovOnce sync.Once
	ovTab  map[string][]reflect.Value
)

func ovValues(t reflect.Type) ([]reflect.Value, bool) {
	ovOnce.Do(func() {
		ovTab = map[string][]reflect.Value{}
		for k, l := range overrides() {
			r := []reflect.Value{}
			for _, x := range l {
				r = append(r, reflect.ValueOf(x))
			}
			ovTab[k] = r
		}
		ovTab["xmpmm.ResourceEventArray"] = nil
		delete(ovTab, "xmpmm.ResourceEventArray")
	})
	l, ok := ovTab[t.String()]
	return l, ok
}

// field is one property of a model or structure.
type field struct {
	Go   string // Go path below the model, e.g. "Video.Width"
	Name string // XMP name from the tag
	Idx  []int
	Type reflect.Type
	Attr bool
	Any  bool
	Keep bool // "empty": written even when unset

	Range *verRange // version range
}

// omitted holds the names of fields that are never written.
var omitted sync.Map

// fieldsOf lists the writable properties of a struct type from its tags.
func fieldsOf(t reflect.Type) []field {
	if l, ok := fieldsCache[t]; ok {
		return l
	}
	l := fieldsOf0(t)
	fieldsCache[t] = l
	return l
}

var fieldsCache = map[reflect.Type][]field{}

func fieldsOf0(t reflect.Type) []field {
	var out []field
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" && !f.Anonymous {
			continue
		}
		tag := f.Tag.Get("xmp")
		if tag == "-" {
			continue
		}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			for _, g := range fieldsOf(f.Type) {
				g.Idx = append([]int{i}, g.Idx...)
				g.Go = f.Name + "." + g.Go
				out = append(out, g)
			}
			continue
		}
		tok := strings.Split(tag, ",")
		x := field{Go: f.Name, Name: tok[0], Idx: []int{i}, Type: f.Type}
		if x.Name == "" {
			x.Name = f.Name
		}
		omit := false
		for _, fl := range tok[1:] {
			switch fl {
			case "omit":
				omit = true
			case "attr":
				x.Attr = true
			case "any":
				x.Any = true
			case "empty":
				x.Keep = true
			}
			if strings.HasPrefix(fl, "v") {
				x.Range = verFlag(fl)
			}
		}
		if omit {
			omitted.Store(x.Name, true)
			continue
		}
		out = append(out, x)
	}
	return out
}

var alphaCache = map[string][]reflect.Value{}

// alphabet lists the set values of t: level 0 one value, 1 the quick alphabet,
// 2 the full one.
func alphabet(t reflect.Type, lvl int) []reflect.Value {
	k := fmt.Sprintf("%s|%d", t.String(), lvl)
	if l, ok := alphaCache[k]; ok {
		return l
	}
	l := alphabet0(t, lvl)
	alphaCache[k] = l
	return l
}

func conv(t reflect.Type, xs ...interface{}) []reflect.Value {
	var out []reflect.Value
	for _, x := range xs {
		out = append(out, reflect.ValueOf(x).Convert(t))
	}
	return out
}

func first(l []reflect.Value) []reflect.Value {
	if len(l) > 1 {
		return l[:1]
	}
	return l
}

func alphabet0(t reflect.Type, lvl int) []reflect.Value {
	if l, ok := ovValues(t); ok {
		if lvl == 0 {
			return first(l)
		}
		return l
	}
	var l []reflect.Value
	switch t.Kind() {
	case reflect.String:
		l = conv(t, "a", hardText, "0", "True", "a  b\n\nc", "x-default", "2006-01-02", "cr\rlf\r\nend", strings.Repeat("long <text> ", 400)+"end")
	case reflect.Bool:
		l = conv(t, true)
	case reflect.Int, reflect.Int64:
		l = conv(t, int64(1), int64(-1), int64(math.MaxInt64), int64(math.MinInt64), int64(255))
	case reflect.Int32:
		l = conv(t, 1, -1, math.MaxInt32, math.MinInt32)
	case reflect.Int16:
		l = conv(t, 1, -1, math.MaxInt16, math.MinInt16)
	case reflect.Int8:
		l = conv(t, 1, -1, math.MaxInt8, math.MinInt8)
	case reflect.Uint8:
		l = conv(t, 1, 128, 255)
	case reflect.Uint16:
		l = conv(t, 1, math.MaxUint16)
	case reflect.Uint32:
		l = conv(t, 1, uint32(math.MaxUint32))
	case reflect.Uint, reflect.Uint64:
		l = conv(t, uint64(1), uint64(math.MaxUint64))
	case reflect.Float32:
		l = conv(t, float32(0.5), float32(-1.25), float32(1e30), float32(3), float32(0.1), float32(math.SmallestNonzeroFloat32))
	case reflect.Float64:
		l = conv(t, 0.5, -1.25, 1e300, 3.0, 0.1, 1e-300)
	case reflect.Ptr:
		for _, v := range alphabet(t.Elem(), lvl) {
			p := reflect.New(t.Elem())
			p.Elem().Set(v)
			l = append(l, p)
		}
		return l
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && t.Elem().PkgPath() == "" {
			l = conv(t, []byte("a"), []byte(hardText))
			break
		}
		ev := alphabet(t.Elem(), lvl)
		if len(ev) == 0 {
			return nil
		}
		mk := func(xs ...reflect.Value) reflect.Value {
			s := reflect.MakeSlice(t, 0, len(xs))
			return reflect.Append(s, xs...)
		}
		if lvl == 0 {
			return []reflect.Value{mk(ev[0])}
		}
		l = append(l, mk(ev[0]))
		if len(ev) > 1 {
			l = append(l, mk(ev[1], ev[0]))
			l = append(l, mk(ev[1], ev[0], ev[0]))
		} else {
			l = append(l, mk(ev[0], ev[0]))
		}
		for _, v := range ev[1:] {
			l = append(l, mk(v))
		}
		if len(ev) > 3 {
			l = append(l, mk(ev...))
		}
		if lvl > 1 {
			// more than ten items
			long := mk()
			for i := 0; i < 12; i++ {
				long = reflect.Append(long, ev[(i*i+i)%len(ev)])
			}
			l = append(l, long)
		}
		return l
	case reflect.Array:
		v := reflect.New(t).Elem()
		ev := alphabet(t.Elem(), 1)
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(ev[i%len(ev)])
		}
		return []reflect.Value{v}
	case reflect.Struct:
		fs := fieldsOf(t)
		if len(fs) == 0 {
			return nil
		}
		all := reflect.New(t).Elem()
		n := 0
		for _, f := range fs {
			if a := alphabet(f.Type, 0); len(a) > 0 {
				all.FieldByIndex(f.Idx).Set(a[0])
				n++
			}
		}
		if n == 0 {
			return nil
		}
		l = append(l, all)
		if lvl == 0 {
			return l
		}
		if n > 1 || lvl > 0 {
			for _, f := range fs {
				sub := alphabet(f.Type, lvl-1)
				for _, a := range sub {
					v := reflect.New(t).Elem()
					v.FieldByIndex(f.Idx).Set(a)
					l = append(l, v)
				}
			}
		}
		// all but one
		if n > 2 && lvl > 1 {
			for _, f := range fs {
				v := reflect.New(t).Elem()
				v.Set(all)
				v.FieldByIndex(f.Idx).Set(reflect.Zero(f.Type))
				l = append(l, v)
			}
		}
		return l
	default:
		return nil
	}
	if lvl == 0 {
		return l[:1]
	}
	return l
}

// model is one registered metadata model.
type model struct {
	Prefix string
	NS     *xmp.Namespace
	Type   reflect.Type // struct type
	Fields []field
}

// models lists the registered models that can be instantiated.
func models() []model {
	var out []model
	for _, p := range sortedPrefixes() {
		ns, err := xmp.NsRegistry.GetNamespace(p)
		if err != nil {
			continue
		}
		m := ns.NewModel()
		if m == nil {
			continue
		}
		t := reflect.TypeOf(m).Elem()
		out = append(out, model{p, ns, t, fieldsOf(t)})
	}
	return out
}

// leaf is a property of a model addressed through nested structures that the
// model embeds by pointer or value.
func (m model) set(f field, v reflect.Value) xmp.Model {
	x := m.NS.NewModel()
	m.put(x, f, v)
	return x
}

func (m model) put(x xmp.Model, f field, v reflect.Value) {
	reflect.ValueOf(x).Elem().FieldByIndex(f.Idx).Set(v)
}

func (m model) get(x xmp.Model, f field) reflect.Value {
	return reflect.ValueOf(x).Elem().FieldByIndex(f.Idx)
}

var _ = xmpmm.NsXmpMM
