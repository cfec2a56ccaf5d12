package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{
		ID: "C22", Level: "exploration", Shards: 8,
		Rule: "A table written down from the models lists every pair of properties of different built-in models that mean the same, with its direction, precedence and conversion. For every pair, every value (or absence) of either side, alone and among full models, in either order of models; for every two pairs of a model every presence pattern; for every two models every presence pattern of what they share; and for full models each property left out: synchronizing directly, by writing XML or JSON or listing, by reading XML or JSON, and by reading and writing again gives exactly the values of the table's reference interpreter in all models, leaves every other property alone, writes them to the output, and changes nothing when repeated. Models that record their calls see every synchronization exactly once, in every order and with their errors returned. Non-trivial: a linked property is set.",
		Assumptions: []string{
			"When models disagree about a shared property, which one wins follows the order of the models; any order is accepted.",
			"Conversions between native and standard forms are those the models document (lists joined by ; or , or lines, first ISO rating, coordinates in minutes with seven digits).",
		},
		Run: runC22,
	})
}

// cells holds the set properties of a document's models by model and field.
type cells map[string]reflect.Value

func (c cells) has(k string) bool { v, ok := c[k]; return ok && !unset22(v) }

func unset22(v reflect.Value) bool {
	if v.Kind() == reflect.Slice || v.Kind() == reflect.String {
		return v.Len() == 0
	}
	return isUnset(v)
}

func (c cells) clone() cells {
	o := cells{}
	for k, v := range c {
		o[k] = v
	}
	return o
}

func (c cells) put(k string, v reflect.Value) {
	if !v.IsValid() || unset22(v) {
		delete(c, k)
		return
	}
	c[k] = v
}

func (c cells) texts() map[string]string {
	m := map[string]string{}
	for k, v := range c {
		if !unset22(v) {
			m[k] = dumpV(v)
		}
	}
	return m
}

func cellFields(t reflect.Type, path string, idx []int, f func(name string, idx []int, tag string)) {
	for i := 0; i < t.NumField(); i++ {
		x := t.Field(i)
		if x.PkgPath != "" || x.Name == "XMLName" {
			continue
		}
		ix := append(append([]int{}, idx...), i)
		if x.Anonymous && x.Type.Kind() == reflect.Struct {
			cellFields(x.Type, path+x.Name+".", ix, f)
			continue
		}
		f(path+x.Name, ix, x.Tag.Get("xmp"))
	}
}

// cellsOf reads all properties of a document's models.
func cellsOf(d *xmp.Document) cells {
	out := cells{}
	for _, n := range d.Nodes() {
		if n.Model == nil {
			continue
		}
		v := reflect.ValueOf(n.Model).Elem()
		if v.Kind() != reflect.Struct {
			continue
		}
		p := n.Model.Namespaces()[0].GetName()
		cellFields(v.Type(), "", nil, func(name string, ix []int, _ string) {
			if f := v.FieldByIndex(ix); !unset22(f) {
				out[p+"."+name] = clone(f)
			}
		})
	}
	return out
}

type cellInfo struct {
	Type reflect.Type
	Idx  []int
	Name string // XMP name
	Home bool   // read back into this field
	Omit bool   // not written
}

var cellInfos = map[string]cellInfo{}

func cellInfoOf(k string) cellInfo {
	if len(cellInfos) == 0 {
		for _, m := range allModels() {
			if m.Type.Kind() != reflect.Struct {
				continue
			}
			cellFields(m.Type, "", nil, func(name string, ix []int, tag string) {
				tok := strings.Split(tag, ",")
				ci := cellInfo{Type: m.Type.FieldByIndex(ix).Type, Idx: ix, Name: tok[0]}
				for _, x := range tok[1:] {
					ci.Omit = ci.Omit || x == "omit"
				}
				ci.Home = strings.HasPrefix(tok[0], m.Prefix+":")
				if tok[0] == "-" || tok[0] == "" {
					ci.Omit = true
				}
				cellInfos[m.Prefix+"."+name] = ci
			})
		}
	}
	return cellInfos[k]
}

// build22 makes a document with the given models, in order, and properties.
func build22(order []string, c cells) (*xmp.Document, error) {
	d := xmp.NewDocument()
	for _, p := range order {
		var x xmp.Model
		var err error
		if len(c)%2 == 0 {
			x = modelByPrefix(p).NS.NewModel()
			_, err = d.AddModel(x)
		} else {
			x, err = d.MakeModel(modelByPrefix(p).NS)
		}
		if err != nil {
			return nil, err
		}
		for k, v := range c {
			if strings.HasPrefix(k, p+".") {
				reflect.ValueOf(x).Elem().FieldByIndex(cellInfoOf(k).Idx).Set(clone(v))
			}
		}
	}
	return d, nil
}

// --- the table ---------------------------------------------------------

// link22 ties a native property to a standard one. To says what writing does:
// "fill" an absent standard property, "set" it whenever the native one is
// present; From what reading does to the native property.
type link22 struct {
	N, S, To, From string
	conv           string
}

var links22 = []link22{
	{"tiff.Artist", "dc.Creator", "fill", "set", ""},
	{"tiff.ImageDescription", "dc.Description", "fill", "set", ""},
	{"tiff.Copyright", "dc.Rights", "fill", "set", ""},
	{"tiff.DateTime", "xmp.ModifyDate", "fill", "set", ""},
	{"tiff.Software", "xmp.CreatorTool", "fill", "set", ""},
	{"tiff.X_Artist", "dc.Creator", "fill", "", ","},
	{"tiff.X_ImageDescription", "dc.Description", "fill", "", ""},
	{"tiff.X_Copyright", "dc.Rights", "fill", "", ""},
	{"tiff.X_DateTime", "xmp.ModifyDate", "fill", "", ""},
	{"tiff.X_Software", "xmp.CreatorTool", "fill", "", ""},

	{"pdf.Title", "dc.Title", "fill", "set", ""},
	{"pdf.Author", "dc.Creator", "fill", "set", ""},
	{"pdf.Subject", "dc.Description", "fill", "set", ""},
	{"pdf.Copyright", "dc.Rights", "fill", "set", ""},
	{"pdf.Creator", "xmp.CreatorTool", "fill", "set", ""},
	{"pdf.CreationDate", "xmp.CreateDate", "fill", "set", ""},
	{"pdf.ModifyDate", "xmp.ModifyDate", "fill", "set", ""},

	{"riffinfo.DateTimeOriginal2", "riffinfo.DateTimeOriginal", "fill", "", ""},
	{"riffinfo.EncodedBy2", "riffinfo.EncodedBy", "fill", "", ""},
	{"riffinfo.Starring2", "riffinfo.Starring", "fill", "", ""},
	{"riffinfo.Title", "dc.Title", "fill", "set", ""},
	{"riffinfo.Copyright", "dc.Rights", "", "set", ""},
	{"riffinfo.Keywords", "dc.Subject", "", "set", ""},
	{"riffinfo.SourceType", "dc.Type", "", "set", ""},
	{"riffinfo.Description", "dc.Description", "", "set", ""},
	{"riffinfo.SourceMedium", "dc.Source", "", "set", ""},
	{"riffinfo.CreateDate", "xmp.CreateDate", "", "set", ""},
	{"riffinfo.Software", "xmp.CreatorTool", "", "set", ""},
	{"riffinfo.Artist", "xmpDM.Artist", "", "set", ""},
	{"riffinfo.Comments", "xmpDM.LogComment", "", "set", ""},
	{"riffinfo.Genre", "xmpDM.Genre", "", "set", ""},
	{"riffinfo.Engineeer", "xmpDM.Engineer", "", "set", ""},

	{"id3.TitleDescription", "dc.Title", "fill", "set", "lang"},
	{"id3.Copyright", "dc.Rights", "fill", "set", "lang"},
	{"id3.RecordingTime", "xmp.CreateDate", "set", "set", ""},
	{"id3.Date_v23", "xmp.CreateDate", "set", "", "v23"},
	{"id3.Comments", "xmpDM.LogComment", "set", "set", ""},
	{"id3.AlbumTitle", "xmpDM.Album", "set", "set", ""},
	{"id3.IsCompilation", "xmpDM.PartOfCompilation", "set", "set", "true"},
	{"id3.Composer", "xmpDM.Composer", "set", "set", ""},
	{"id3.ContentType", "xmpDM.Genre", "set", "set", "text"},
	{"id3.LeadPerformer", "xmpDM.Artist", "set", "set", ""},
	{"id3.ModifiedBy", "xmpDM.Engineer", "set", "set", ""},
	{"id3.PartOfASet", "xmpDM.DiscNumber", "set", "set", "track"},
	{"id3.TrackNumber", "xmpDM.TrackNumber", "set", "set", "track"},
	{"id3.UnsynchronizedLyrics", "xmpDM.Lyrics", "set", "set", "\n"},
	{"id3.CopyrightInformation", "xmpRights.WebStatement", "set", "set", ""},

	{"iXML.SoundRoll", "xmpDM.TapeName", "set", "", ""},
	{"iXML.SceneName", "xmpDM.Scene", "set", "", ""},
	{"iXML.Take", "xmpDM.TrackNumber", "set", "", ""},
	{"iXML.Note", "xmpDM.LogComment", "set", "", ""},
	{"iXML.Project", "xmpDM.ProjectName", "set", "", ""},
	{"iXML.IsCircled", "xmpDM.Good", "set", "", "true"},
	{"iXML.Speed", "xmpDM.StartTimecode", "set", "", "timecode"},
	{"iXML.Speed", "xmpDM.AudioSampleRate", "set", "", "rate"},

	{"exif.DateTimeOriginal", "exif.DateTimeOriginalXMP", "set", "", "exif:SubSecTimeOriginal"},
	{"exif.DateTimeDigitized", "exif.DateTimeDigitizedXMP", "set", "set", "exif:SubSecTimeDigitized"},
	{"exif.DateTime", "exif.DateTimeXMP", "set", "", "exif:SubSecTime"},
	{"exif.Artist", "exif.ArtistXMP", "set", "", ";"},
	{"exif.ImageDescription", "exif.ImageDescriptionXMP", "fill", "", ""},
	{"exif.Copyright", "exif.CopyrightXMP", "fill", "", ""},
	{"exif.Software", "exif.SoftwareXMP", "fill", "", ""},
	{"exif.ExPhotographicSensitivity", "exif.ISOSpeedRatings", "", "set", "first"},
	{"exif.ISOSpeedRatings", "exif.ExPhotographicSensitivity", "set", "", "first"},
	{"exif.GPSLatitude", "exif.GPSLatitudeCoord", "set", "", "gps"},
	{"exif.GPSLongitude", "exif.GPSLongitudeCoord", "set", "", "gps"},
	{"exif.GPSDestLatitude", "exif.GPSDestLatitudeCoord", "set", "", "gps"},
	{"exif.GPSDestLongitude", "exif.GPSDestLongitudeCoord", "set", "", "gps"},
	{"exif.GPSDateStamp", "exif.GPSTimeStampXMP", "set", "", "gpstime"},
	{"exif.ArtistXMP", "dc.Creator", "", "set", ""},
	{"exif.Artist", "dc.Creator", "", "set", ";"},
	{"exif.ImageDescriptionXMP", "dc.Description", "", "set", ""},
	{"exif.ImageDescription", "dc.Description", "", "set", ""},
	{"exif.CopyrightXMP", "dc.Rights", "", "set", ""},
	{"exif.Copyright", "dc.Rights", "", "set", ""},
	{"exif.DateTimeXMP", "xmp.ModifyDate", "", "set", ""},
	{"exif.DateTime", "xmp.ModifyDate", "", "set", "exif:SubSecTime"},
	{"exif.SoftwareXMP", "xmp.CreatorTool", "", "set", ""},
	{"exif.Software", "xmp.CreatorTool", "", "set", ""},
	{"exif.DateTimeOriginalXMP", "photoshop.DateCreated", "", "set", ""},
	{"exif.DateTimeOriginal", "photoshop.DateCreated", "", "set", "exif:SubSecTimeOriginal"},
}

func init() {
	for _, f := range tiffFields {
		links22 = append(links22, link22{"exif." + f, "tiff." + f, "", "set", ""})
	}
}

func prefixOf(k string) string { return k[:strings.IndexByte(k, '.')] }

// conv22 is the plain conversion between two property types.
func conv22(v reflect.Value, t reflect.Type) reflect.Value {
	alt := reflect.TypeOf(xmp.AltString{})
	switch {
	case v.Type() == t:
		return v
	case v.Type().ConvertibleTo(alt) && t.Kind() == reflect.String:
		for _, i := range v.Convert(alt).Interface().(xmp.AltString) {
			if i.IsDefault {
				return reflect.ValueOf(i.Value).Convert(t)
			}
		}
		return reflect.Value{}
	case v.Kind() == reflect.String && t.ConvertibleTo(alt):
		a := xmp.AltString{{Value: v.String(), IsDefault: true}}
		return reflect.ValueOf(a).Convert(t)
	}
	return v.Convert(t)
}

func kindOf(k string) reflect.Type { return cellInfoOf(k).Type }

// toStd gives the standard value of l's native property, or an invalid value.
func (l link22) toStd(c cells) reflect.Value {
	v, t := c[l.N], kindOf(l.S)
	switch {
	case l.conv == ",", l.conv == ";":
		if prev, ok := c[l.S]; ok && l.To == "set" && strings.Join(strs(prev), l.conv) == v.String() {
			return prev
		}
		return reflect.ValueOf(strings.Split(v.String(), l.conv)).Convert(t)
	case l.conv == "\n":
		return reflect.ValueOf(strings.Join(strs(v), l.conv)).Convert(t)
	case l.conv == "lang":
		a := xmp.AltString{{Value: v.String(), IsDefault: true}}
		if x, ok := c["id3.Language"]; ok {
			a.AddDefault(x.String(), "")
			a = xmp.NewAltString(xmp.AltItem{Value: v.String(), Lang: x.String(), IsDefault: true})
		}
		return reflect.ValueOf(a)
	case l.conv == "v23":
		if c.has("id3.RecordingTime") || !c.has("id3.Time_v23") {
			return reflect.Value{}
		}
		y := 0
		if x, ok := c["id3.Year_v23"]; ok {
			y = int(x.Int())
		}
		d, h := v.Convert(timeType).Interface().(time.Time), c["id3.Time_v23"].Convert(timeType).Interface().(time.Time)
		return reflect.ValueOf(time.Date(y, d.Month(), d.Day(), h.Hour(), h.Minute(), h.Second(), 0, time.UTC)).Convert(t)
	case l.conv == "true":
		if v.Kind() == reflect.Int && v.Int() != 1 || v.Kind() == reflect.Bool && !v.Bool() {
			return reflect.Value{}
		}
		return reflect.ValueOf(xmp.True)
	case l.conv == "text":
		return reflect.ValueOf(strings.Join(strs(v), ", ")).Convert(t)
	case l.conv == "track":
		if v.FieldByName("Track").Int() <= 0 {
			return reflect.Value{}
		}
		return v.FieldByName("Track").Convert(t)
	case l.conv == "first":
		return v.Index(0).Convert(t)
	case l.conv == "timecode":
		return speedTimecode(v.Elem(), t)
	case l.conv == "rate":
		r := v.Elem().FieldByName("FileSampleRate").Interface().(xmp.Rational)
		if r.Den == 0 || r.Num == 0 {
			return reflect.Value{}
		}
		return reflect.ValueOf(float64(r.Num) / float64(r.Den)).Convert(t)
	case strings.HasPrefix(l.conv, "exif:"):
		d := v.Convert(timeType).Interface().(time.Time)
		if x, ok := c["exif."+l.conv[5:]]; ok {
			s := strings.TrimSpace(x.String())
			if len(s) > 9 {
				s = s[:9]
			}
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				for i := len(s); i < 9; i++ {
					n *= 10
				}
				d = d.Truncate(time.Second).Add(time.Duration(n))
			}
		}
		return reflect.ValueOf(d).Convert(t)
	case l.conv == "gps":
		ref, ok := c[l.N+"Ref"]
		if !ok {
			return reflect.Value{}
		}
		s, err := refGPS(v, ref.String())
		if err {
			return reflect.Value{}
		}
		return reflect.ValueOf(s).Convert(t)
	case l.conv == "gpstime":
		d := v.Convert(timeType).Interface().(time.Time)
		if x, ok := c["exif.GPSTimeStamp"]; ok {
			for i, u := range []time.Duration{time.Hour, time.Minute, time.Second} {
				if i < x.Len() {
					r := x.Index(i).Interface().(xmp.Rational)
					if r.Den != 0 {
						d = d.Add(time.Duration(float64(r.Num) / float64(r.Den) * float64(u)))
					}
				}
			}
		}
		return reflect.ValueOf(d).Convert(t)
	}
	return conv22(v, t)
}

// fromStd sets l's native property from its standard one.
func (l link22) fromStd(c cells) {
	v, t := c[l.S], kindOf(l.N)
	switch {
	case l.conv == ";":
		c.put(l.N, reflect.ValueOf(strings.Join(strs(v), ";")).Convert(t))
	case l.conv == "\n":
		if x, ok := c[l.N]; ok && strings.Join(strs(x), "\n") == v.String() {
			return
		}
		c.put(l.N, reflect.ValueOf(strings.Split(v.String(), "\n")).Convert(t))
	case l.conv == "true":
		if v.Bool() {
			c.put(l.N, reflect.ValueOf(1).Convert(t))
		}
	case l.conv == "text":
		x := reflect.New(t)
		if x.Interface().(interface{ UnmarshalText([]byte) error }).UnmarshalText([]byte(v.String())) == nil {
			c.put(l.N, x.Elem())
		}
	case l.conv == "track":
		if v.Int() <= 0 {
			return
		}
		x := reflect.New(t).Elem()
		if old, ok := c[l.N]; ok {
			x.Set(old)
		}
		x.FieldByName("Track").SetInt(v.Int())
		c.put(l.N, x)
	case l.conv == "first":
		c.put(l.N, v.Index(0).Convert(t))
	case strings.HasPrefix(l.conv, "exif:"):
		c.put(l.N, v.Convert(t))
		sub := ""
		if n := v.Convert(timeType).Interface().(time.Time).Nanosecond(); n != 0 {
			sub = strings.TrimRight(fmt.Sprintf("%09d", n), "0")
		}
		c.put("exif."+l.conv[5:], reflect.ValueOf(sub))
	default:
		if x := conv22(v, t); x.IsValid() {
			c.put(l.N, x)
		}
	}
}

func strs(v reflect.Value) []string {
	var l []string
	for i := 0; i < v.Len(); i++ {
		l = append(l, v.Index(i).String())
	}
	return l
}

func refGPS(v reflect.Value, ref string) (string, bool) {
	var deg [3]float64
	for i := 0; i < 3; i++ {
		r := v.Index(i).Interface().(xmp.Rational)
		if r.Den == 0 {
			return "", true
		}
		deg[i] = float64(r.Num) / float64(r.Den)
	}
	m := deg[0]*60 + deg[1] + deg[2]/60
	d := math.Trunc(m / 60)
	return fmt.Sprintf("%d,%.7f%s", int(d), m-d*60, ref), false
}

func speedTimecode(s reflect.Value, t reflect.Type) reflect.Value {
	i := func(n string) int64 { return s.FieldByName(n).Int() }
	n := i("TimestampSamplesSinceMidnightHI")<<32 | i("TimestampSamplesSinceMidnightLO")
	tr := s.FieldByName("TimecodeRate").Interface().(xmp.Rational)
	f := 0.0
	if tr.Den != 0 {
		f = float64(tr.Num) / float64(tr.Den)
	}
	rate := float64(i("TimestampSampleRate"))
	if rate == 0 {
		rate = math.Trunc(f*1000) / 1000
	}
	if rate == 0 {
		return reflect.Value{}
	}
	r := int64(rate * 1000)
	sec := n * 1000 / r
	x := reflect.New(t).Elem()
	drop := s.FieldByName("TimecodeFlag").String() == "DF"
	format := ""
	switch {
	case f >= 23.975 && f < 23.997:
		format = "23976Timecode"
	case f == 24, f == 25, f == 30, f == 50, f == 60:
		format = fmt.Sprintf("%dTimecode", int(f))
	case f > 29.96 && f < 29.98 && drop:
		format = "2997DropTimecode"
	case f > 29.96 && f < 29.98:
		format = "2997NonDropTimecode"
	case f > 59.93 && f < 59.95:
		format = "5994DropTimecode"
	}
	if format == "" {
		return reflect.Value{}
	}
	x.FieldByName("Format").SetString(format)
	x.FieldByName("H").SetInt(sec / 3600)
	x.FieldByName("M").SetInt(sec / 60 % 60)
	x.FieldByName("S").SetInt(sec % 60)
	if tr.Den != 0 {
		x.FieldByName("F").SetInt(n * 1000 % r * tr.Num / tr.Den / r)
	}
	x.FieldByName("IsDropFrame").SetBool(drop)
	return x
}

func refTo(order []string, c cells) cells {
	c = c.clone()
	for _, p := range order {
		for _, l := range links22 {
			if prefixOf(l.N) != p || l.To == "" || !c.has(l.N) && l.conv != "v23" || !c.has(l.N) {
				continue
			}
			if l.To == "fill" && c.has(l.S) {
				continue
			}
			if v := l.toStd(c); v.IsValid() && !unset22(v) {
				c.put(l.S, v)
			}
		}
	}
	return c
}

func refFrom(order []string, c cells) cells {
	c = c.clone()
	for _, p := range order {
		for _, l := range links22 {
			if prefixOf(l.N) == p && l.From != "" && c.has(l.S) {
				l.fromStd(c)
			}
		}
	}
	return c
}

// --- orders ------------------------------------------------------------

func perms(l []string) [][]string {
	if len(l) < 2 {
		return [][]string{l}
	}
	var out [][]string
	for i := range l {
		r := append(append([]string{}, l[:i]...), l[i+1:]...)
		for _, p := range perms(r) {
			out = append(out, append([]string{l[i]}, p...))
		}
	}
	return out
}

var syncing = map[string]bool{"tiff": true, "pdf": true, "riffinfo": true, "id3": true, "iXML": true, "exif": true}

// outcomes lists the states a synchronization may give, by order of models.
func outcomes(order []string, c cells, ref func([]string, cells) cells) []cells {
	var act []string
	for _, p := range order {
		if syncing[p] {
			act = append(act, p)
		}
	}
	if len(act) > 3 {
		return []cells{ref(act, c), ref(reverse(act), c)}
	}
	var out []cells
	for _, p := range perms(act) {
		out = append(out, ref(p, c))
	}
	return out
}

func reverse(l []string) []string {
	o := append([]string{}, l...)
	for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
		o[i], o[j] = o[j], o[i]
	}
	return o
}

// within says whether every property of got has the value one of the outcomes
// gives it.
func within(got cells, want []cells) string {
	g := got.texts()
	var ws []map[string]string
	keys := map[string]bool{}
	for k := range g {
		keys[k] = true
	}
	for _, w := range want {
		t := w.texts()
		ws = append(ws, t)
		for k := range t {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		ok := false
		for _, w := range ws {
			ok = ok || g[k] == w[k]
		}
		if !ok {
			return fmt.Sprintf("%s is %s, expected %s", k, orNone(g[k]), orNone(ws[0][k]))
		}
	}
	return ""
}

func orNone(s string) string {
	if s == "" {
		return "(absent)"
	}
	return shorten(s)
}

// --- operations --------------------------------------------------------

type write22 struct {
	Name string
	Do   func(d *xmp.Document) ([]byte, error)
}

var writes22 = []write22{
	{"SyncToXMP", func(d *xmp.Document) ([]byte, error) {
		for _, n := range d.Nodes() {
			if n.Model != nil {
				if err := n.Model.SyncToXMP(d); err != nil {
					return nil, err
				}
			}
		}
		return nil, nil
	}},
	{"Marshal", func(d *xmp.Document) ([]byte, error) { return xmp.Marshal(d) }},
	{"MarshalIndent", func(d *xmp.Document) ([]byte, error) { return xmp.MarshalIndent(d, "", " ") }},
	{"JSON", func(d *xmp.Document) ([]byte, error) { return json.Marshal(d) }},
	{"ListPaths", func(d *xmp.Document) ([]byte, error) { _, err := d.ListPaths(); return nil, err }},
}

func check22(order []string, c cells, w write22) string {
	d, err := build22(order, c)
	if err != nil {
		return err.Error()
	}
	want := outcomes(order, cellsOf(d), refTo)
	out, err := w.Do(d)
	if err != nil {
		return fmt.Sprintf("%s: %v", w.Name, err)
	}
	got := cellsOf(d)
	if s := within(got, want); s != "" {
		return "after " + w.Name + ": " + s
	}
	for i := 0; i < 2; i++ {
		out2, err := w.Do(d)
		if err != nil {
			return fmt.Sprintf("%s again: %v", w.Name, err)
		}
		if s := diffMap(got.texts(), cellsOf(d).texts()); s != "" && len(want) == 1 {
			return "after " + w.Name + " again: " + s
		}
		if string(out) != string(out2) && len(want) == 1 {
			return w.Name + " again writes something else"
		}
		d.SetDirty()
	}
	if out == nil {
		return ""
	}
	return written22(w, out, order, cellsOf(d))
}

// written22 checks the output against the state of the document.
func written22(w write22, out []byte, order []string, c cells) string {
	want := map[string][]string{} // XMP name -> values
	for _, k := range sortedKeys(c) {
		ci := cellInfoOf(k)
		if ci.Omit || ci.Name == "" {
			continue
		}
		v := c[k]
		if v.Type().String() == "xmpdm.Timecode" && v.FieldByName("Value").String() == "" {
			sep := ":"
			if v.FieldByName("IsDropFrame").Bool() {
				sep = ";"
			}
			v = clone(v)
			var l []string
			for _, n := range []string{"H", "M", "S", "F"} {
				l = append(l, fmt.Sprintf("%02d", v.FieldByName(n).Int()))
			}
			v.FieldByName("Value").SetString(strings.Join(l, sep))
		}
		r, err := refValue(v)
		if err != nil || r == nil {
			continue
		}
		want[ci.Name] = append(want[ci.Name], r.String())
	}
	got := map[string]string{}
	if w.Name != "JSON" {
		x, err := parseRDF(out)
		if err != nil {
			return err.Error()
		}
		for _, p := range x.Props {
			got[p.Name] = p.Val.String()
		}
	}
	for _, n := range sortedKeys(want) {
		q, err := goldName(n)
		if err != nil {
			continue
		}
		s, ok := got[q]
		if w.Name == "JSON" {
			if !strings.Contains(string(out), strconv.Quote(n)) {
				return "not written: " + n
			}
			continue
		}
		if !ok {
			return "not written: " + n
		}
		found := false
		for _, x := range want[n] {
			found = found || x == s
		}
		if !found {
			return fmt.Sprintf("%s is written as %s, expected %s", n, s, strings.Join(want[n], " or "))
		}
	}
	return ""
}

// home keeps what reading puts back into its field.
func home(c cells, js bool) cells {
	o := cells{}
	for k, v := range c {
		ci := cellInfoOf(k)
		if !ci.Home || js && ci.Omit {
			continue
		}
		if t, err := refText(v); err == nil && t != strings.TrimSpace(t) {
			continue // white space around a text is not kept
		}
		// two fields of one name: the first set one wins
		dup := false
		for j := range c {
			if j != k && cellInfoOf(j).Name == ci.Name && cellInfoOf(j).Home && prefixOf(j) == prefixOf(k) {
				dup = true
			}
		}
		if !dup {
			o[k] = v
		}
	}
	return o
}

func props22(order []string, c cells) ([]rprop, error) {
	var ps []rprop
	for _, p := range order {
		for _, k := range sortedKeys(c) {
			if prefixOf(k) != p {
				continue
			}
			q, err := goldName(cellInfoOf(k).Name)
			if err != nil {
				return nil, err
			}
			r, err := refValue(c[k])
			if err != nil {
				return nil, err
			}
			if r != nil {
				ps = append(ps, rprop{q, r})
			}
		}
	}
	return ps, nil
}

// read22 reads the document as XML or JSON and checks what its models hold,
// then writes it.
func read22(order []string, c cells, how string) string {
	c = home(c, how == "JSON")
	var models []string
	for _, p := range order {
		for k := range c {
			if prefixOf(k) == p {
				models = append(models, p)
				break
			}
		}
	}
	if len(models) == 0 {
		return ""
	}
	d := xmp.NewDocument()
	switch how {
	case "JSON":
		parts := map[string]json.RawMessage{}
		for _, p := range models {
			d1, err := build22([]string{p}, onlyOf(c, p))
			if err != nil {
				return err.Error()
			}
			b, err := json.Marshal(d1)
			if err != nil {
				return err.Error()
			}
			var j struct {
				Models map[string]json.RawMessage `json:"models"`
			}
			if err := json.Unmarshal(b, &j); err != nil {
				return err.Error()
			}
			if j.Models[p] == nil {
				return "" // nothing written
			}
			parts[p] = j.Models[p]
		}
		var l []string
		for _, p := range models {
			l = append(l, strconv.Quote(p)+":"+string(parts[p]))
		}
		nss, _ := json.Marshal(gold.Namespaces)
		if err := json.Unmarshal([]byte(`{"about":"","namespaces":`+string(nss)+`,"models":{`+strings.Join(l, ",")+`}}`), d); err != nil {
			return "reading JSON: " + err.Error()
		}
	default:
		ps, err := props22(models, c)
		if err != nil {
			return err.Error()
		}
		if err := xmp.Unmarshal(writeRDF(ps, rform{}, "", ""), d); err != nil {
			return "reading XML: " + err.Error()
		}
	}
	defaults := cells{}
	for _, p := range models {
		d1, _ := build22([]string{p}, nil)
		for k, v := range cellsOf(d1) {
			defaults[k] = v
		}
	}
	c0 := defaults.clone()
	for k, v := range c {
		c0[k] = v
	}
	want := outcomes(models, c0, refFrom)
	got := cellsOf(d)
	if s := within(got, want); s != "" {
		return "after reading " + how + ": " + s
	}
	// synchronizing the other way settles
	var have []string
	for _, n := range d.Nodes() {
		if n.Model != nil {
			have = append(have, n.Model.Namespaces()[0].GetName())
		}
	}
	want = outcomes(have, got, refTo)
	if _, err := xmp.Marshal(d); err != nil {
		return "Marshal: " + err.Error()
	}
	after := cellsOf(d)
	if s := within(after, want); s != "" {
		return "after reading " + how + " and writing: " + s
	}
	for _, k := range sortedKeys(after) {
		if ci := cellInfoOf(k); ci.Home && !ci.Omit {
			if _, err := goldName(ci.Name); err != nil {
				continue
			}
		}
	}
	return ""
}

func onlyOf(c cells, p string) cells {
	o := cells{}
	for k, v := range c {
		if prefixOf(k) == p {
			o[k] = v
		}
	}
	return o
}

// fromOps checks reading synchronization on a document in memory.
func from22(order []string, c cells) string {
	d, err := build22(order, c)
	if err != nil {
		return err.Error()
	}
	sync := func() error {
		for _, n := range d.Nodes() {
			if n.Model != nil {
				if err := n.Model.SyncFromXMP(d); err != nil {
					return err
				}
			}
		}
		return nil
	}
	c0 := cellsOf(d) // with defaults
	want := outcomes(order, c0, refFrom)
	if err := sync(); err != nil {
		return "SyncFromXMP: " + err.Error()
	}
	got := cellsOf(d)
	if s := within(got, want); s != "" {
		return "after SyncFromXMP: " + s
	}
	if err := sync(); err != nil {
		return "SyncFromXMP again: " + err.Error()
	}
	if s := diffMap(got.texts(), cellsOf(d).texts()); s != "" && len(want) == 1 {
		return "after SyncFromXMP again: " + s
	}
	// to and from until nothing changes
	if _, err := xmp.Marshal(d); err != nil {
		return err.Error()
	}
	if err := sync(); err != nil {
		return err.Error()
	}
	a := cellsOf(d).texts()
	d.SetDirty()
	if _, err := xmp.Marshal(d); err != nil {
		return err.Error()
	}
	if err := sync(); err != nil {
		return err.Error()
	}
	if s := diffMap(a, cellsOf(d).texts()); s != "" && len(want) == 1 {
		return "writing and reading does not settle: " + s
	}
	return ""
}

// --- the space ---------------------------------------------------------

func values22(k string, lvl int) []reflect.Value {
	var l []reflect.Value
	seen := map[string]bool{}
	add := func(v reflect.Value) {
		if !unset22(v) && !seen[dumpV(v)] {
			seen[dumpV(v)] = true
			l = append(l, v)
		}
	}
	t := kindOf(k)
	switch k {
	case "tiff.X_Artist", "exif.Artist":
		for _, s := range []string{"Jo", "Jo;Bo", "Jo,Bo", "a;b,c; d"} {
			add(reflect.ValueOf(s))
		}
	case "exif.GPSLatitude", "exif.GPSLongitude", "exif.GPSDestLatitude", "exif.GPSDestLongitude":
		for _, x := range [][6]int64{{52, 1, 30, 1, 15, 1}, {1, 2, 0, 1, 0, 1}, {179, 1, 599999, 10000, 0, 1}, {0, 1, 0, 1, 36, 10}, {12, 0, 1, 1, 1, 1}} {
			v := reflect.New(t).Elem()
			for i := 0; i < 3; i++ {
				v.Index(i).Set(reflect.ValueOf(xmp.Rational{Num: x[2*i], Den: x[2*i+1]}))
			}
			add(v)
		}
	case "iXML.Speed":
		for _, x := range []struct {
			n, d   int64
			flag   string
			lo, hi int
			sr     int
			fn, fd int64
		}{
			{25, 1, "NDF", 48000*3661 + 24000, 0, 48000, 48000, 1},
			{30000, 1001, "DF", 48000*86399 + 47999, 0, 48000, 48048, 1},
			{30000, 1001, "NDF", 1, 1, 96000, 0, 0},
			{24000, 1001, "NDF", 0, 0, 48000, 96000, 2},
			{0, 0, "", 48000, 0, 0, 44100, 1},
			{24, 1, "", 240, 0, 0, 0, 1},
			{60000, 1001, "DF", 12345678, 0, 44100, 44100, 1},
			{13, 1, "NDF", 48000, 0, 48000, 48000, 1},
			{25, 1, "NDF", 480000, 0, 48000, 0, 1},
			{25, 1, "NDF", 480000, 0, 48000, 48000, 0},
		} {
			v := reflect.New(t.Elem())
			e := v.Elem()
			e.FieldByName("TimecodeRate").Set(reflect.ValueOf(xmp.Rational{Num: x.n, Den: x.d}))
			e.FieldByName("TimecodeFlag").SetString(x.flag)
			e.FieldByName("TimestampSamplesSinceMidnightLO").SetInt(int64(x.lo))
			e.FieldByName("TimestampSamplesSinceMidnightHI").SetInt(int64(x.hi))
			e.FieldByName("TimestampSampleRate").SetInt(int64(x.sr))
			e.FieldByName("FileSampleRate").Set(reflect.ValueOf(xmp.Rational{Num: x.fn, Den: x.fd}))
			add(v)
		}
		return l
	case "id3.UnsynchronizedLyrics":
		for _, s := range [][]string{{"la"}, {"la", "lala"}, {"a\nb", "c"}, {"", "x"}} {
			add(reflect.ValueOf(s).Convert(t))
		}
	case "xmpDM.Lyrics":
		for _, s := range []string{"la", "a\nb", "a\n\nb"} {
			add(reflect.ValueOf(s).Convert(t))
		}
	case "xmpDM.Genre":
		for _, s := range []string{"Rock", "17", "Rock, Pop", "My own", "RX"} {
			add(reflect.ValueOf(s).Convert(t))
		}
	case "id3.ContentType":
		for _, s := range [][]string{{"Rock"}, {"Rock", "My own"}} {
			add(reflect.ValueOf(s).Convert(t))
		}
	}
	for _, v := range alphabet(t, lvl) {
		add(clone(v))
	}
	return l
}

// two22 picks two different values of a property.
func two22(k string) []reflect.Value {
	l := values22(k, 1)
	if len(l) > 2 {
		l = l[:2]
	}
	return l
}

// helpers are native properties that belong to another one.
var helpers = map[string][]string{
	"exif.DateTimeOriginal": {"exif.SubSecTimeOriginal"}, "exif.DateTimeDigitized": {"exif.SubSecTimeDigitized"}, "exif.DateTime": {"exif.SubSecTime"},
	"exif.GPSLatitude": {"exif.GPSLatitudeRef"}, "exif.GPSLongitude": {"exif.GPSLongitudeRef"},
	"exif.GPSDestLatitude": {"exif.GPSDestLatitudeRef"}, "exif.GPSDestLongitude": {"exif.GPSDestLongitudeRef"},
	"exif.GPSDateStamp": {"exif.GPSTimeStamp"}, "id3.Date_v23": {"id3.Time_v23", "id3.Year_v23"},
	"id3.TitleDescription": {"id3.Language"}, "id3.Copyright": {"id3.Language"},
}

func helperValues(k string) []reflect.Value {
	t := kindOf(k)
	var l []reflect.Value
	add := func(xs ...interface{}) {
		for _, x := range xs {
			l = append(l, reflect.ValueOf(x).Convert(t))
		}
	}
	switch {
	case strings.Contains(k, "SubSec"):
		add("5", "050", "123456789", "1234567891", " 25 ", "x")
	case strings.HasSuffix(k, "Ref"):
		add("N", "W")
	case k == "exif.GPSTimeStamp":
		add(xmp.RationalArray{{Num: 12, Den: 1}, {Num: 30, Den: 1}, {Num: 15, Den: 2}}, xmp.RationalArray{{Num: 1, Den: 1}})
	case k == "id3.Language":
		add("de", "x-default")
	case k == "id3.Year_v23":
		add(2001)
	default:
		for _, v := range alphabet(t, 0) {
			l = append(l, v)
		}
	}
	return l
}

// full sets everything of a model, its first or second value.
func full22(p string, c cells) {
	m := modelByPrefix(p)
	cellFields(m.Type, "", nil, func(name string, ix []int, tag string) {
		k := p + "." + name
		if _, ok := c[k]; ok {
			return
		}
		if l := values22(k, 0); len(l) > 0 {
			c[k] = l[0]
		}
	})
}

func standardsOf(p string) []string {
	m := map[string]bool{}
	for _, l := range links22 {
		if prefixOf(l.N) == p && prefixOf(l.S) != p {
			m[prefixOf(l.S)] = true
		}
	}
	return sortedKeys(m)
}

func key22(order []string, c cells) string {
	var l []string
	for _, k := range sortedKeys(c) {
		l = append(l, k+"="+short(dumpV(c[k])))
	}
	if len(l) > 6 {
		l = append(l[:6], fmt.Sprintf("... %d", len(c)))
	}
	return strings.Join(order, ",") + " " + strings.Join(l, " ")
}

func try22(c *core.Ctx, kind string, order []string, st cells, ops string) bool {
	k := kind + "|" + key22(order, st)
	run := func(op string, f func() string) bool {
		c.Case(op+"|"+k, nil, func() string {
			c.Nontrivial(op + k)
			return f()
		})
		return !c.Stop()
	}
	for _, w := range writes22 {
		if strings.Contains(ops, "w") || w.Name == "SyncToXMP" || w.Name == "Marshal" {
			if !run(w.Name, func() string { return check22(order, st, w) }) {
				return false
			}
		}
	}
	return run("SyncFromXMP", func() string { return from22(order, st) }) &&
		run("read XML", func() string { return read22(order, st, "XML") }) &&
		run("read JSON", func() string { return read22(order, st, "JSON") })
}

var markers = map[string]string{"tiff": "tiff.Make", "pdf": "pdf.Keywords", "riffinfo": "riffinfo.Product", "id3": "id3.Length", "iXML": "iXML.FileUID", "exif": "exif.ExifVersion",
	"dc": "dc.Format", "xmp": "xmp.Label", "xmpDM": "xmpDM.ShotName", "xmpRights": "xmpRights.UsageTerms", "photoshop": "photoshop.City"}

func mark(c cells, order []string) {
	for _, p := range order {
		if k := markers[p]; k != "" && kindOf(k) != nil {
			if l := values22(k, 0); len(l) > 0 {
				if _, ok := c[k]; !ok {
					c[k] = l[0]
				}
			}
		}
	}
}

func orders22(n, s string) [][]string {
	if n == s {
		return [][]string{{n}, {n, "xmpMM"}}
	}
	return [][]string{{n, s}, {s, n}, {n}}
}

func runC22(c *core.Ctx) {
	lvl := core.Pick(c, 1, 2)
	c22pairs(c, lvl)
	c22two(c)
	c22models(c)
	c22full(c)
	c22hooks(c)
	c22ids(c)
	c22later(c)
}

// identifiers of other models that SyncModels collects in xmp:Identifier
var ids22 = []struct{ F, Prefix string }{
	{"exif.ImageUniqueID", "uuid:exif"},
	{"iXML.FileUID", "uuid:ixml"},
	{"iTunes.StoreFrontID", "uuid:sfid"},
	{"id3.PodcastID", "uuid:podcast"},
	{"id3.UniqueFileIdentifier", "uuid:id3"},
}

// c22later changes a native property of documents that have been written or
// read before: the next write fills the standard property.
func c22later(c *core.Ctx) {
	c.Group("later changes")
	type src struct{ model, path, dest string }
	var srcs []src
	for _, k := range [][2]string{{"pdf.Copyright", "dc.Rights"}, {"iXML.Note", "xmpDM.LogComment"}, {"iXML.SoundRoll", "xmpDM.TapeName"}, {"id3.AlbumTitle", "xmpDM.Album"}, {"id3.Copyright", "dc.Rights"}, {"riffinfo.Title", "dc.Title"}} {
		srcs = append(srcs, src{prefixOf(k[0]), cellInfoOf(k[0]).Name, cellInfoOf(k[1]).Name})
	}
	starts := []string{"new", "written", "listed", "as JSON", "read", "read JSON"}
	ways := []string{"SetPath", "Sync", "Merge", "AddModel", "MakeModel", "JSON"}
	for _, s := range srcs {
		for _, start := range starts {
			for _, way := range ways {
				for _, other := range []bool{false, true} {
					if way == "Merge" && other || way == "JSON" && s.model == "riffinfo" {
						continue
					}
					c.Case(fmt.Sprintf("later %s, %s, %s, other=%v", s.path, start, way, other), nil, func() string {
						d := xmp.NewDocument()
						if err := d.SetPath(xmp.PathValue{Path: "xmp:Label", Value: "v", Flags: xmp.CREATE}); err != nil {
							return err.Error()
						}
						if err := d.SetPath(xmp.PathValue{Path: "dc:format", Value: "f", Flags: xmp.CREATE}); err != nil {
							return err.Error()
						}
						if other {
							if _, err := d.MakeModel(modelByPrefix("photoshop").NS); err != nil {
								return err.Error()
							}
						}
						if way == "SetPath" || way == "Sync" {
							d.MakeModel(modelByPrefix(s.model).NS)
						}
						var err error
						switch start {
						case "written":
							_, err = xmp.Marshal(d)
						case "listed":
							_, err = d.ListPaths()
						case "as JSON":
							_, err = json.Marshal(d)
						case "read":
							var b []byte
							if b, err = xmp.Marshal(d); err == nil {
								d = xmp.NewDocument()
								err = xmp.Unmarshal(b, d)
							}
						case "read JSON":
							var b []byte
							if b, err = json.Marshal(d); err == nil {
								d = xmp.NewDocument()
								err = json.Unmarshal(b, d)
							}
							if err == nil {
								_, err = xmp.Marshal(d) // reading JSON asks for a sync
							}
						}
						if err != nil {
							return start + ": " + err.Error()
						}
						fill := func(m xmp.Model, err error) error {
							if err != nil {
								return err
							}
							return xmp.SetModelPath(m, xmp.Path(s.path), "v", xmp.CREATE)
						}
						ns := modelByPrefix(s.model).NS
						switch way {
						case "SetPath":
							err = d.SetPath(xmp.PathValue{Path: xmp.Path(s.path), Value: "v", Flags: xmp.CREATE})
						case "Sync":
							if d.FindModel(ns) == nil { // nothing of it was written
								return ""
							}
							err = d.Sync("xmp:Label", xmp.Path(s.path), xmp.CREATE, nil, nil)
						case "Merge":
							e := xmp.NewDocument()
							e.SetPath(xmp.PathValue{Path: xmp.Path(s.path), Value: "v", Flags: xmp.CREATE})
							err = d.Merge(e, xmp.MERGE)
						case "AddModel":
							m := ns.NewModel()
							_, err = d.AddModel(m)
							err = fill(m, err)
						case "MakeModel":
							err = fill(d.MakeModel(ns))
						case "JSON":
							e := xmp.NewDocument()
							e.SetPath(xmp.PathValue{Path: xmp.Path(s.path), Value: "v", Flags: xmp.CREATE})
							err = json.Unmarshal([]byte(fmt.Sprintf(`{"namespaces":{%q:%q},"models":{%q:{%q:"v"}}}`, s.model, ns.GetURI(), s.model, s.path)), d)
						}
						if err != nil {
							return way + ": " + err.Error()
						}
						b, err := xmp.Marshal(d)
						if err != nil {
							return err.Error()
						}
						want := "<" + s.dest + ">"
						if !bytes.Contains(b, []byte(want)) && !bytes.Contains(b, []byte(s.dest+`="v"`)) {
							return s.dest + " isn't filled: " + string(b)
						}
						if _, err := d.GetPath(xmp.Path(s.dest)); err != nil {
							return err.Error()
						}
						return ""
					})
				}
			}
		}
	}
}

func c22ids(c *core.Ctx) {
	c.Group("identifiers")
	idOf := func(l ...string) reflect.Value {
		v := reflect.New(kindOf("xmp.Identifier")).Elem()
		for _, s := range l {
			x := reflect.New(v.Type().Elem()).Elem()
			x.FieldByName("ID").SetString(s)
			v = reflect.Append(v, x)
		}
		return v
	}
	listOf := func(v reflect.Value) []string {
		var l []string
		if v.IsValid() {
			for i := 0; i < v.Len(); i++ {
				l = append(l, fmt.Sprint(v.Index(i).Interface()))
			}
		}
		sort.Strings(l)
		return l
	}
	_ = listOf
	for m := 0; m < 1<<len(ids22); m++ {
		for _, have := range [][]string{nil, {"other"}, {"uuid:exif:a", "uuid:ixml:a"}, {"other", "uuid:id3:a"}} {
			for _, withXmp := range []bool{true, false} {
				for _, first := range []bool{true, false} {
					m, have := m, have
					st := cells{}
					var order []string
					want := map[string]bool{}
					for i, s := range ids22 {
						if m>>i&1 == 0 {
							continue
						}
						l := values22(s.F, 0)
						if len(l) == 0 {
							continue
						}
						st[s.F] = l[0]
						if !has(order, prefixOf(s.F)) {
							order = append(order, prefixOf(s.F))
						}
						t, err := refText(l[0])
						if err == nil {
							want[s.Prefix+":"+t] = withXmp
						}
					}
					if withXmp {
						if first {
							order = append([]string{"xmp"}, order...)
						} else {
							order = append(order, "xmp")
						}
						if have != nil {
							st["xmp.Identifier"] = idOf(have...)
							for _, h := range have {
								want[h] = true
							}
						}
					} else if first || have != nil {
						continue
					}
					key := fmt.Sprintf("identifiers|%v|%s", first, key22(order, st))
					c.Case(key, nil, func() string {
						if m != 0 {
							c.Nontrivial(key)
						}
						d, err := build22(order, st)
						if err != nil {
							return err.Error()
						}
						before := cellsOf(d)
						for i := 0; i < 2; i++ {
							if err := d.SyncModels(); err != nil {
								return err.Error()
							}
							got := cellsOf(d)
							var l []string
							for k, ok := range want {
								if ok {
									l = append(l, fmt.Sprint(idOf(k).Index(0).Interface()))
								}
							}
							sort.Strings(l)
							if g := listOf(got["xmp.Identifier"]); fmt.Sprint(g) != fmt.Sprint(l) {
								return fmt.Sprintf("identifiers are %q, expected %q", g, l)
							}
							a, b := before.texts(), got.texts()
							delete(a, "xmp.Identifier")
							delete(b, "xmp.Identifier")
							if s := diffMap(a, b); s != "" {
								return s
							}
						}
						return ""
					})
				}
			}
		}
	}
}

// every pair, every value of both, alone, marked and among full models
func c22pairs(c *core.Ctx, lvl int) {
	for _, l := range links22 {
		l := l
		c.Group("pair:" + l.N + "-" + l.S)
		np, sp := prefixOf(l.N), prefixOf(l.S)
		type hs = map[string]reflect.Value
		hl := []hs{{}}
		for _, h := range helpers[l.N] {
			var nl []hs
			for _, x := range hl {
				nl = append(nl, x)
				for _, v := range helperValues(h) {
					y := hs{h: v}
					for k, v := range x {
						y[k] = v
					}
					nl = append(nl, y)
				}
			}
			hl = nl
		}
		ns := append([]reflect.Value{{}}, values22(l.N, lvl)...)
		ss := append([]reflect.Value{{}}, values22(l.S, lvl)...)
		for ni, n := range ns {
			for si, s := range ss {
				for hi, h := range hl {
					for _, order := range orders22(np, sp) {
						for _, ctx := range []string{"", "marked", "full"} {
							if ctx == "full" && (hi > 0 || lvl == 1 && (ni > 2 || si > 2) || len(order) == 1 && np != sp) {
								continue
							}
							st := cells{}
							if n.IsValid() {
								st[l.N] = n
							}
							if s.IsValid() {
								if order[0] == np && len(order) == 1 && np != sp {
									continue
								}
								st[l.S] = s
							}
							for k, v := range h {
								st[k] = v
							}
							switch ctx {
							case "marked":
								mark(st, order)
							case "full":
								for _, p := range order {
									full := cells{}
									full22(p, full)
									for k, v := range full {
										if _, ok := st[k]; !ok && k != l.N && k != l.S {
											st[k] = v
										}
									}
								}
							}
							ops := ""
							if ctx == "marked" {
								ops = "w"
							}
							if !try22(c, "pair "+l.N+"-"+l.S+" "+ctx, order, st, ops) {
								return
							}
						}
					}
				}
			}
		}
	}
}

// every two pairs of a model, every presence pattern
func c22two(c *core.Ctx) {
	for i, a := range links22 {
		c.Group("two:" + prefixOf(a.N))
		for _, b := range links22[i+1:] {
			if prefixOf(a.N) != prefixOf(b.N) || a.N == b.N && a.S == b.S {
				continue
			}
			ks := []string{a.N, a.S, b.N, b.S}
			for m := 1; m < 16; m++ {
				st := cells{}
				ok := true
				ps := map[string]bool{prefixOf(a.N): true}
				for j, k := range ks {
					if m>>j&1 == 0 {
						continue
					}
					if _, dup := st[k]; dup {
						ok = false
						break
					}
					l := two22(k)
					if len(l) == 0 {
						continue
					}
					st[k] = l[j/2%len(l)]
					ps[prefixOf(k)] = true
				}
				if !ok {
					continue
				}
				for k, v := range st {
					_ = v
					for _, h := range helpers[k] {
						if hv := helperValues(h); len(hv) > 0 && m&1 == 1 {
							st[h] = hv[0]
						}
					}
				}
				order := sortedKeys(ps)
				for _, o := range [][]string{order, reverse(order)} {
					if !try22(c, fmt.Sprintf("two %s-%s %s-%s", a.N, a.S, b.N, b.S), o, st, "") {
						return
					}
				}
			}
		}
	}
}

// every two models that share a property, every presence pattern
func c22models(c *core.Ctx) {
	for i, a := range links22 {
		c.Group("models:" + prefixOf(a.N))
		for _, b := range links22[i+1:] {
			if a.S != b.S || prefixOf(a.N) == prefixOf(b.N) || prefixOf(a.S) == prefixOf(a.N) {
				continue
			}
			la, lb, ls := two22(a.N), two22(b.N), two22(a.S)
			for x := 0; x <= len(la); x++ {
				for y := 0; y <= len(lb); y++ {
					for z := 0; z <= len(ls); z++ {
						st := cells{}
						if x > 0 {
							st[a.N] = la[x-1]
						}
						if y > 0 {
							st[b.N] = lb[y-1]
						}
						if z > 0 {
							st[a.S] = ls[z-1]
						}
						order := []string{prefixOf(a.N), prefixOf(b.N), prefixOf(a.S)}
						for _, o := range perms(order) {
							st := st.clone()
							mark(st, o)
							if !try22(c, fmt.Sprintf("models %s %s-%s", a.N, b.N, a.S), o, st, "") {
								return
							}
						}
					}
				}
			}
		}
	}
}

// full models, each property left out once, and all models at once
func c22full(c *core.Ctx) {
	var ps []string
	for p := range syncing {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	all := []string{"dc", "xmp", "xmpDM", "xmpRights", "photoshop"}
	for _, p := range ps {
		c.Group("full:" + p)
		stds := standardsOf(p)
		for _, pat := range []string{"native", "standard", "both"} {
			base := cells{}
			if pat != "standard" {
				full22(p, base)
			}
			if pat != "native" {
				for _, s := range stds {
					full22(s, base)
				}
			}
			order := append([]string{p}, stds...)
			for _, o := range [][]string{order, reverse(order)} {
				if !try22(c, "full "+pat, o, base, "w") {
					return
				}
				for _, k := range sortedKeys(base) {
					st := base.clone()
					delete(st, k)
					if !try22(c, "full "+pat+" but "+k, o, st, "") {
						return
					}
				}
				if pat == "both" {
					for _, l := range links22 {
						if prefixOf(l.N) != p {
							continue
						}
						st := base.clone()
						delete(st, l.N)
						delete(st, l.S)
						if !try22(c, "full both but "+l.N+" "+l.S, o, st, "") {
							return
						}
					}
				}
			}
		}
	}
	c.Group("full:all")
	for i := range ps {
		o := append(append([]string{}, ps[i:]...), ps[:i]...)
		for _, order := range [][]string{append(o, all...), append(append([]string{}, all...), o...)} {
			st := cells{}
			for _, p := range order {
				full22(p, st)
			}
			try22(c, "all", order, st, "w")
			for j := range ps {
				st := cells{}
				full22(ps[j], st)
				try22(c, "all from "+ps[j], order, st, "w")
			}
			for _, s := range all {
				st := cells{}
				full22(s, st)
				try22(c, "all from "+s, order, st, "w")
			}
		}
	}
}
