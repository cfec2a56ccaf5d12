package checks

import (
	"bytes"
	"encoding"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/trimmer-io/go-xmp/models/crs"
	"github.com/trimmer-io/go-xmp/models/exif"
	"github.com/trimmer-io/go-xmp/models/id3"
	"github.com/trimmer-io/go-xmp/models/itunes"
	"github.com/trimmer-io/go-xmp/models/ixml"
	"github.com/trimmer-io/go-xmp/models/pm"
	"github.com/trimmer-io/go-xmp/models/qt"
	xmpdm "github.com/trimmer-io/go-xmp/models/xmp_dm"
	"github.com/trimmer-io/go-xmp/xmp"
)

// The scalar types: their values, what tells two values apart, and what a
// text means, written down independently of the library (C15, C18).

type verdict int

const (
	invalid verdict = iota // no reading of the text makes sense: an error is due
	valid                  // the text means exactly one value
	open                   // nothing is said
)

type scalar interface {
	Name() string
	Len() int
	// Value is a value's identity.
	Value(i int) string
	// Channels lists the ways a value goes to text and back.
	Channels() []string
	// Trip sends value i through a channel: its text and what came back.
	Trip(i int, ch string) (text, back string, err error)
	Texts(lvl int, f func(s string) bool)
	Means(s string) (string, verdict)
	// Parse reads a text, prints the value and reads that again.
	Parse(s string) (v, text, again string, err error)
	// Set writes the text to a property of a document.
	Set(s string) (v string, err error)
	Readers() []string
	Read(t, how string) (v string, err error)
}

// box is a model holding one value as element and as attribute.
type box[T any] struct {
	El T `xmp:"box:el"`
	At T `xmp:"box:at,attr"`
}

func (x *box[T]) Can(n string) bool                 { return n == "box" }
func (x *box[T]) Namespaces() xmp.NamespaceList     { return xmp.NamespaceList{nsBox} }
func (x *box[T]) SyncModel(d *xmp.Document) error   { return nil }
func (x *box[T]) SyncFromXMP(d *xmp.Document) error { return nil }
func (x *box[T]) SyncToXMP(d *xmp.Document) error   { return nil }
func (x *box[T]) CanTag(tag string) bool            { return false }
func (x *box[T]) GetTag(tag string) (string, error) { return "", fmt.Errorf("no tag") }
func (x *box[T]) SetTag(tag, value string) error    { return fmt.Errorf("no tag") }

var (
	boxNew func() xmp.Model
	nsBox  = xmp.NewNamespace("box", "http://example.com/box/", func(string) xmp.Model { return boxNew() })
)

type scalarOf[T any] struct {
	name   string
	vals   []T
	canon  func(T) string
	unset  func(T) bool // values that count as missing
	seeds  []string     // texts to start from
	alpha  string       // characters to edit with
	short  int          // all strings over the alphabet up to this length
	means  func(s string) (string, verdict)
	noDoc  bool
	noText bool
}

func (s *scalarOf[T]) Name() string       { return s.name }
func (s *scalarOf[T]) Len() int           { return len(s.vals) }
func (s *scalarOf[T]) Value(i int) string { return s.canon(s.vals[i]) }

func (s *scalarOf[T]) isText() bool {
	var v T
	_, ok := any(&v).(encoding.TextUnmarshaler)
	_, ok2 := any(v).(encoding.TextMarshaler)
	return ok && ok2 && !s.noText
}

func (s *scalarOf[T]) Channels() []string {
	var l []string
	if s.isText() {
		l = append(l, "text")
	}
	l = append(l, "json")
	if !s.noDoc {
		l = append(l, "element", "document JSON")
		var v T
		if _, ok := any(v).(encoding.TextMarshaler); ok || reflect.TypeOf(v).Kind() != reflect.Struct {
			l = append(l, "attribute")
		}
		if _, ok := any(&v).(encoding.TextUnmarshaler); ok || reflect.TypeOf(v).Kind() != reflect.Struct {
			l = append(l, "path")
		}
	}
	return l
}

func (s *scalarOf[T]) doc(b *box[T]) *xmp.Document {
	boxNew = func() xmp.Model { return &box[T]{} }
	d := xmp.NewDocument()
	if b != nil {
		if _, err := d.AddModel(b); err != nil {
			panic(err)
		}
	}
	return d
}

func boxOf[T any](d *xmp.Document) (*box[T], error) {
	m := d.FindModel(nsBox)
	if m == nil {
		return &box[T]{}, nil
	}
	b, ok := m.(*box[T])
	if !ok {
		return nil, fmt.Errorf("model is a %T", m)
	}
	return b, nil
}

func (s *scalarOf[T]) Trip(i int, ch string) (text, back string, err error) {
	v := s.vals[i]
	switch ch {
	case "text":
		b, err := any(v).(encoding.TextMarshaler).MarshalText()
		if err != nil {
			return "", "", err
		}
		var w T
		if err := any(&w).(encoding.TextUnmarshaler).UnmarshalText(b); err != nil {
			return string(b), "", err
		}
		return string(b), s.canon(w), nil
	case "json":
		b, err := json.Marshal(v)
		if err != nil {
			return "", "", err
		}
		var w T
		if err := json.Unmarshal(b, &w); err != nil {
			return string(b), "", err
		}
		return string(b), s.canon(w), nil
	case "element", "attribute", "document JSON":
		b := &box[T]{}
		if ch == "attribute" {
			b.At = v
		} else {
			b.El = v
		}
		d := s.doc(b)
		defer d.Close()
		var out []byte
		if ch == "document JSON" {
			out, err = json.Marshal(d)
		} else {
			out, err = xmp.Marshal(d)
		}
		if err != nil {
			return "", "", err
		}
		e := s.doc(nil)
		defer e.Close()
		if ch == "document JSON" {
			err = json.Unmarshal(out, e)
		} else {
			err = xmp.Unmarshal(out, e)
		}
		if err != nil {
			return string(out), "", err
		}
		w, err := boxOf[T](e)
		if err != nil {
			return string(out), "", err
		}
		if ch == "attribute" {
			return string(out), s.canon(w.At), nil
		}
		return string(out), s.canon(w.El), nil
	case "path":
		d := s.doc(&box[T]{El: v})
		defer d.Close()
		t, err := d.GetPath("box:el")
		if err != nil {
			return "", "", err
		}
		if t == "" { // a zero value counts as missing
			var w T
			return t, s.canon(w), nil
		}
		e := s.doc(nil)
		defer e.Close()
		if err := e.SetPath(xmp.PathValue{Path: "box:el", Value: t, Flags: xmp.CREATE | xmp.REPLACE}); err != nil {
			return t, "", err
		}
		w, err := boxOf[T](e)
		if err != nil {
			return t, "", err
		}
		return t, s.canon(w.El), nil
	}
	panic(ch)
}

func (s *scalarOf[T]) parse(t string) (v T, err error) {
	if u, ok := any(&v).(encoding.TextUnmarshaler); ok {
		err = u.UnmarshalText([]byte(t))
		return
	}
	n := xmp.NewNode(xmp.NewName("box:el"))
	n.Value = t
	err = xmp.NewDecoder(nil).DecodeElement(&v, n)
	return
}

func (s *scalarOf[T]) print(v T) (string, error) {
	if m, ok := any(v).(encoding.TextMarshaler); ok {
		b, err := m.MarshalText()
		return string(b), err
	}
	return xmp.ToString(v), nil
}

func (s *scalarOf[T]) Parse(t string) (v, text, again string, err error) {
	x, err := s.parse(t)
	if err != nil {
		return "", "", "", err
	}
	v = s.canon(x)
	if s.noText {
		return v, "", v, nil
	}
	text, err = s.print(x)
	if err != nil {
		return v, "", "error: " + err.Error(), nil
	}
	if s.unset != nil && s.unset(x) {
		return v, text, v, nil
	}
	y, err := s.parse(text)
	if err != nil {
		return v, text, "error: " + err.Error(), nil
	}
	return v, text, s.canon(y), nil
}

func (s *scalarOf[T]) Set(t string) (string, error) {
	if s.noDoc {
		return "", fmt.Errorf("no document")
	}
	d := s.doc(nil)
	defer d.Close()
	if err := d.SetPath(xmp.PathValue{Path: "box:el", Value: t, Flags: xmp.CREATE | xmp.REPLACE}); err != nil {
		return "", err
	}
	w, err := boxOf[T](d)
	if err != nil {
		return "", err
	}
	return s.canon(w.El), nil
}

func (s *scalarOf[T]) Means(t string) (string, verdict) {
	if s.means == nil {
		return "", open
	}
	return s.means(t)
}

func (s *scalarOf[T]) Texts(lvl int, f func(string) bool) {
	seen := map[string]bool{}
	emit := func(t string) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		return f(t)
	}
	alpha := strings.Split(s.alpha, "")
	alpha = append(alpha, "\x00", "é")
	// all short strings
	cur := []string{""}
	for n := 0; n <= s.short+lvl; n++ {
		for _, t := range cur {
			if !emit(t) {
				return
			}
		}
		if n == s.short+lvl {
			break
		}
		var next []string
		for _, t := range cur {
			for _, a := range alpha {
				next = append(next, t+a)
			}
		}
		cur = next
	}
	// the seeds with up to one edit (two in the thorough tier), and cut short
	for _, t := range s.seeds {
		if !emit(t) {
			return
		}
		l := edits(t, alpha)
		for _, e := range l {
			if !emit(e) {
				return
			}
			if lvl > 0 && len(t) < 12*lvl {
				for _, e := range edits(e, alpha) {
					if !emit(e) {
						return
					}
				}
			}
		}
		for i := range t {
			emit(t[:i])
			emit(t[i:])
		}
		emit(t + t)
		emit(" " + t)
		emit(t + " ")
		emit(t + strings.Repeat("0", 40))
		emit(strings.Repeat("9", 40) + t)
		emit(strings.ToLower(t))
		emit(strings.ToUpper(t))
	}
}

// edits are all texts one insertion, deletion or replacement away.
func edits(t string, alpha []string) (l []string) {
	for i := 0; i <= len(t); i++ {
		for _, a := range alpha {
			l = append(l, t[:i]+a+t[i:])
			if i < len(t) {
				l = append(l, t[:i]+a+t[i+1:])
			}
		}
		if i < len(t) {
			l = append(l, t[:i]+t[i+1:])
		}
	}
	return
}

var (
	reInt   = regexp.MustCompile(`^[+-]?[0-9]+$`)
	reNat   = regexp.MustCompile(`^[0-9]+$`)
	reFloat = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
	reOdd   = regexp.MustCompile(`(?i)^[+-]?(nan|inf|infinity|0x.*)$`)
)

func spaced(s string) bool { return strings.TrimSpace(s) != s }

// intIn reads a whole number of a range.
func intIn(s string, lo, hi int64) (int64, verdict) {
	if !reInt.MatchString(s) {
		if reInt.MatchString(strings.TrimSpace(s)) {
			return 0, open
		}
		return 0, invalid
	}
	b, ok := new(big.Int).SetString(s, 10)
	if !ok || !b.IsInt64() || b.Int64() < lo || b.Int64() > hi {
		return 0, invalid
	}
	return b.Int64(), valid
}

func missing(s string) bool {
	switch strings.ToLower(s) {
	case "", "-", "--", "---", "nan", "unknown":
		return true
	}
	return false
}

func canonFloat(f float64, bits int) string {
	if f == 0 {
		return "0"
	}
	return strconv.FormatFloat(f, 'g', -1, bits)
}

func floatMeans(s string, bits int) (string, verdict) {
	t := strings.TrimSpace(s)
	if reFloat.MatchString(t) {
		f, err := strconv.ParseFloat(t, bits)
		if err != nil {
			return "", invalid // out of range
		}
		if t != s {
			return canonFloat(f, bits), open
		}
		return canonFloat(f, bits), valid
	}
	if reOdd.MatchString(t) || strings.Contains(t, "_") {
		return "", open
	}
	return "", invalid
}

func hasDigit(s string) bool { return strings.ContainsAny(s, "0123456789") }

func ints[T any](f func(int64) T, l ...int64) (out []T) {
	for _, v := range l {
		out = append(out, f(v))
	}
	return
}

func intSpec[T any](name string, bits int, signed bool, conv func(int64) T) scalar {
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	if bits < 64 {
		lo, hi = -1<<(bits-1), 1<<(bits-1)-1
	}
	if !signed {
		lo = 0
		if bits < 64 {
			hi = 1<<bits - 1
		}
	}
	l := []int64{lo, hi, hi - 1, 0, 1, 2, 7, 10, 99, 100, 127}
	if signed {
		l = append(l, lo+1, -1, -2, -10, -99, -100)
	}
	seeds := []string{"0", "1", "-1", fmt.Sprint(lo), fmt.Sprint(hi), new(big.Int).Add(big.NewInt(hi), big.NewInt(1)).String(), new(big.Int).Sub(big.NewInt(lo), big.NewInt(1)).String(), "65", "0x41", "1e3", "1.0", "007", "18446744073709551615", "18446744073709551616", "4294967296", "128", "256", "32768", "65536"}
	return &scalarOf[T]{name: name, vals: ints(conv, l...), canon: func(v T) string { return fmt.Sprint(v) }, seeds: seeds, alpha: "0159-+.e x_,", short: 2,
		means: func(s string) (string, verdict) {
			v, ok := intIn(s, lo, hi)
			if !signed && bits == 64 && ok == invalid {
				if b, good := new(big.Int).SetString(s, 10); good && b.IsUint64() && reInt.MatchString(s) {
					return "", open
				}
			}
			if s != "" && s[0] == '+' && ok == valid {
				return fmt.Sprint(v), open
			}
			return fmt.Sprint(v), ok
		}}
}

func stringSpec[T ~string](name string) scalar {
	l := []T{}
	parts := []string{"a", ":", "/", "<", "&", `"`, "'", "é", "0", "]]>", "\u00a0x", "😀", "%20", "#"}
	for _, a := range parts {
		l = append(l, T(a))
		for _, b := range parts {
			l = append(l, T(a+b), T(a+" "+b))
		}
	}
	for i := range l {
		l[i] = T(strings.TrimSpace(string(l[i])))
	}
	l = dedup(l)
	return &scalarOf[T]{name: name, vals: l, canon: func(v T) string { return string(v) }, seeds: []string{"uuid:1-2", "http://a/b?c=d&e#f", "37,26.4525N"}, alpha: "a:/<& N,", short: 2,
		means: func(s string) (string, verdict) {
			if spaced(s) || strings.ContainsAny(s, "\x00") || s == "" {
				return "", open
			}
			return s, valid
		}}
}

func dedup[T comparable](l []T) (out []T) {
	seen := map[T]bool{}
	for _, v := range l {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return
}

func canonTime(t time.Time) string {
	_, off := t.Zone()
	return t.Format("2006-01-02T15:04:05.000000000") + fmt.Sprintf("%+d", off)
}

func canonClock(t time.Time) string {
	_, off := t.Zone()
	return t.Format("15:04:05.000000000") + fmt.Sprintf("%+d", off)
}

func zones() []*time.Location {
	var l []*time.Location
	for _, m := range []int{0, 60, -420, 330, -720, 840, -30} {
		if m == 0 {
			l = append(l, time.UTC)
		} else {
			l = append(l, time.FixedZone("", m*60))
		}
	}
	return l
}

func dateGrid() (l []time.Time) {
	for _, y := range []int{1, 1900, 1970, 1999, 2021, 9999} {
		for _, md := range [][2]int{{1, 1}, {2, 28}, {12, 31}, {7, 4}} {
			for _, c := range [][3]int{{0, 0, 0}, {23, 59, 59}, {12, 30, 15}} {
				for _, ns := range []int{0, 1, 120000000, 999999999, 500} {
					for _, z := range zones() {
						l = append(l, time.Date(y, time.Month(md[0]), md[1], c[0], c[1], c[2], ns, z))
					}
				}
			}
		}
	}
	l = append(l, time.Date(2000, 2, 29, 1, 2, 3, 0, time.UTC))
	return
}

var (
	reISO   = regexp.MustCompile(`^(\d{4})(?:-(\d\d)(?:-(\d\d)(?:T(\d\d):(\d\d)(?::(\d\d)(\.\d{1,9})?)?(Z|[+-]\d\d:\d\d)?)?)?)?$`)
	reClock = regexp.MustCompile(`^(\d\d):(\d\d):(\d\d)(\.\d{1,9})?(Z|[+-]\d\d:\d\d)?$`)
)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func nanos(s string) int {
	if s == "" {
		return 0
	}
	return atoi((s[1:] + "000000000")[:9])
}

func zone(s string) (*time.Location, verdict) {
	if s == "" || s == "Z" {
		return time.UTC, valid
	}
	h, m := atoi(s[1:3]), atoi(s[4:6])
	if h > 24 || m > 60 {
		return nil, invalid
	}
	if h > 14 || m > 59 {
		return nil, open
	}
	o := (h*60 + m) * 60
	if s[0] == '-' {
		o = -o
	}
	return time.FixedZone("", o), valid
}

// isoDate reads the date forms XMP defines.
func isoDate(s string) (time.Time, verdict) {
	m := reISO.FindStringSubmatch(s)
	if m == nil {
		if s == "" {
			return time.Time{}, open
		}
		if !hasDigit(s) || strings.Trim(s, "0123456789-:./+TZhms ") != "" {
			return time.Time{}, open // rejected unless there's a digit: see dateMeans
		}
		return time.Time{}, open
	}
	mo, d := 1, 1
	if m[2] != "" {
		mo = atoi(m[2])
	}
	if m[3] != "" {
		d = atoi(m[3])
	}
	h, mi, sec := atoi(m[4]), atoi(m[5]), atoi(m[6])
	if mo < 1 || mo > 12 || d < 1 || d > 31 || h > 23 || mi > 59 || sec > 59 {
		if mo == 0 || d == 0 {
			return time.Time{}, open // zero fillers
		}
		return time.Time{}, invalid
	}
	z, v := zone(m[8])
	if v != valid {
		return time.Time{}, v
	}
	t := time.Date(atoi(m[1]), time.Month(mo), d, h, mi, sec, nanos(m[7]), z)
	if t.Day() != d {
		return time.Time{}, invalid
	}
	return t, valid
}

func dateMeans(s string) (string, verdict) {
	t, v := isoDate(s)
	if v == valid {
		return canonTime(t), v
	}
	if v == invalid || s == "" {
		return "", v
	}
	u := strings.TrimSpace(s)
	if u == "--" {
		return "", open
	}
	if strings.Trim(u, "0123456789-:./+TZhms, ") != "" || !hasDigit(u) {
		return "", invalid
	}
	// the other form of a numeric zone
	if m := regexp.MustCompile(`^(.*T\d\d:\d\d:\d\d(?:\.\d+)?[+-])(\d\d)(\d\d)$`).FindStringSubmatch(s); m != nil {
		if t, v := isoDate(m[1] + m[2] + ":" + m[3]); v == valid {
			return canonTime(t), valid
		}
	}
	// single digit zones
	if m := regexp.MustCompile(`^(.*T\d\d:\d\d:\d\d(?:\.\d+)?[+-])(\d)(:\d\d)?$`).FindStringSubmatch(s); m != nil {
		tail := m[3]
		if tail == "" {
			tail = ":00"
		}
		if t, v := isoDate(m[1] + "0" + m[2] + tail); v == valid {
			return canonTime(t), valid
		}
	}
	for f, to := range map[string]string{`^(\d{4}):(\d\d):(\d\d) (\d\d:\d\d:\d\d)$`: "$1-$2-${3}T$4", `^(\d{4})-(\d\d)-(\d\d) (\d\d:\d\d:\d\d)$`: "$1-$2-${3}T$4", `^(\d{4}):(\d\d):(\d\d)$`: "$1-$2-$3"} {
		re := regexp.MustCompile(f)
		if re.MatchString(s) {
			if t, v := isoDate(re.ReplaceAllString(s, to)); v == valid {
				return canonTime(t), valid
			} else {
				return "", v
			}
		}
	}
	return "", open
}

func clockMeans(s string) (string, verdict) {
	m := reClock.FindStringSubmatch(s)
	if m == nil {
		if s != "" && (!hasDigit(s) || strings.Trim(s, "0123456789:.+-Z ,") != "") {
			return "", invalid
		}
		return "", open
	}
	h, mi, sec := atoi(m[1]), atoi(m[2]), atoi(m[3])
	if h > 23 || mi > 59 || sec > 59 {
		return "", invalid
	}
	if m[5] == "Z" {
		return "", open
	}
	z, v := zone(m[5])
	if v != valid {
		return "", v
	}
	return canonClock(time.Date(0, 1, 1, h, mi, sec, nanos(m[4]), z)), valid
}

func ratMeans(s string) (string, verdict) {
	t := strings.TrimSpace(s)
	c := func(n, d *big.Int) string { return n.String() + "/" + d.String() }
	one := func(u string) (*big.Int, bool) {
		if !reInt.MatchString(u) {
			return nil, false
		}
		n, ok := new(big.Int).SetString(u, 10)
		return n, ok && n.IsInt64()
	}
	if s == "" {
		return "", open
	}
	if n, ok := one(t); ok {
		if t != s {
			return "", open
		}
		return c(n, big.NewInt(1)), valid
	}
	if reInt.MatchString(t) {
		return "", invalid
	}
	if i := strings.IndexAny(t, "/ "); i > 0 {
		a, b := strings.TrimSpace(t[:i]), strings.TrimSpace(t[i+1:])
		if t[i] == ' ' && strings.HasPrefix(b, "/") {
			b = strings.TrimSpace(b[1:])
		}
		n, ok := one(a)
		d, ok2 := one(b)
		if ok && ok2 {
			if a+"/"+b == s || a+" "+b == s {
				return c(n, d), valid
			}
			return "", open
		}
		if reInt.MatchString(a) && reInt.MatchString(b) {
			return "", invalid // out of range
		}
		return "", invalid
	}
	if reFloat.MatchString(t) {
		if !strings.Contains(t, ".") {
			return "", open
		}
		if t != s {
			return "", open
		}
		f, err := strconv.ParseFloat(t, 64)
		if err != nil || f != 0 && (math.Abs(f) < 1e-15 || math.Abs(f) > 1e18) {
			return "", open
		}
		r, ok := new(big.Rat).SetString(t)
		if !ok {
			return "", open
		}
		return "=" + r.RatString(), valid
	}
	if reOdd.MatchString(t) || strings.ContainsAny(t, "xX_pP") {
		return "", open
	}
	return "", invalid
}

func pairMeans(s, seps string, canon func(a, b string) string) (string, verdict) {
	i := strings.IndexAny(s, seps)
	if i < 0 {
		return "", invalid
	}
	a, b := s[:i], s[i+1:]
	if reInt.MatchString(a) && reInt.MatchString(strings.TrimPrefix(b, " ")) {
		x, ok := new(big.Int).SetString(a, 10)
		y, ok2 := new(big.Int).SetString(strings.TrimPrefix(b, " "), 10)
		if !ok || !ok2 || !x.IsInt64() || !y.IsInt64() {
			return "", invalid
		}
		return canon(x.String(), y.String()), valid
	}
	if strings.ContainsAny(s, " \t\n\v\f\r") {
		return "", open
	}
	return "", invalid
}

func frameRates() []xmpdm.FrameRate {
	return []xmpdm.FrameRate{{Rate: 25, Base: 1}, {Rate: 1, Base: 1}, {Rate: 30000, Base: 1001}, {Rate: 254016000000, Base: 1}, {Rate: 24, Base: 2}, {Rate: math.MaxInt64, Base: math.MaxInt64}, {Rate: 1001, Base: 24000}}
}

func canonRate(x xmpdm.FrameRate) string {
	if x.IsZero() {
		return "none"
	}
	return fmt.Sprintf("%d/%d", x.Rate, x.Base)
}

func canonCount(x xmpdm.FrameCount) string {
	if x.Count == 0 && (x.Rate.IsZero() || x.Rate == xmpdm.FrameRate{Rate: 1, Base: 1}) {
		return "0"
	}
	if x.Count == -1 && (x.Rate.IsZero() || x.Rate == xmpdm.FrameRate{Rate: 1, Base: 1}) {
		return "max"
	}
	return fmt.Sprintf("%d@%s", x.Count, canonRate(x.Rate))
}

func frameCounts() (l []xmpdm.FrameCount) {
	for _, r := range frameRates() {
		for _, n := range []int64{-1, 0, 1, 5, -2, 1000000, math.MaxInt64, math.MinInt64} {
			l = append(l, xmpdm.FrameCount{Count: n, Rate: r})
		}
	}
	return
}

func rateMeans(s string) (string, verdict) {
	m := regexp.MustCompile(`^f(\d+)(?:s(\d+))?$`).FindStringSubmatch(s)
	if m == nil {
		if regexp.MustCompile(`^f[+-]?\d+(s[+-]?\d*)?$`).MatchString(s) && !strings.HasSuffix(s, "s") {
			return "", open // signs
		}
		return "", invalid
	}
	r, v := intIn(m[1], 0, math.MaxInt64)
	if v != valid {
		return "", invalid
	}
	b := int64(1)
	if m[2] != "" {
		if b, v = intIn(m[2], 0, math.MaxInt64); v != valid {
			return "", invalid
		}
	}
	if r == 0 || b == 0 {
		return "", open
	}
	return fmt.Sprintf("%d/%d", r, b), valid
}

func countMeans(s string) (string, verdict) {
	t, rate := s, "1/1"
	if i := strings.Index(s, "f"); i >= 0 {
		r, v := rateMeans(s[i:])
		if v != valid {
			return "", v
		}
		t, rate = s[:i], r
	}
	var n int64 = -1
	if t != "maximum" {
		var v verdict
		if n, v = intIn(t, math.MinInt64, math.MaxInt64); v != valid {
			return "", v
		}
	}
	if rate == "1/1" && n == 0 {
		return "0", valid
	}
	if rate == "1/1" && n == -1 {
		return "max", valid
	}
	return fmt.Sprintf("%d@%s", n, rate), valid
}

// rangeMeans is the part from frame from to frame to: it starts at from and
// lasts for what is left up to to, in frames at the rate of to. What ranges
// mean that do not end on a frame or before they start is open.
func rangeMeans(path, from, to string) (string, verdict) {
	a, v := countMeans(from)
	b, w := countMeans(to)
	if v == invalid || w == invalid {
		return "", invalid
	}
	if v != valid || w != valid {
		return "", open
	}
	num := func(s string) (n, rate, base *big.Int) {
		n, rate, base = new(big.Int), new(big.Int), new(big.Int)
		if s == "0" {
			s = "0@1/1"
		}
		if k, err := fmt.Sscanf(s, "%d@%d/%d", n, rate, base); k != 3 || err != nil || n.Sign() < 0 {
			return nil, nil, nil
		}
		return
	}
	n, nr, nb := num(a)
	m, mr, mb := num(b)
	if n == nil || b != "max" && m == nil {
		return "", open
	}
	if b == "max" {
		return fmt.Sprintf("%s|%s|max", path, a), valid
	}
	// n/nr*nb seconds are n*nb*mr/(nr*mb) frames
	q, r := new(big.Int).QuoRem(new(big.Int).Mul(n, new(big.Int).Mul(nb, mr)), new(big.Int).Mul(nr, mb), new(big.Int))
	if r.Sign() != 0 || q.Cmp(m) > 0 || m.Cmp(big.NewInt(1<<40)) > 0 {
		return "", open
	}
	d := fmt.Sprintf("%d@%d/%d", m.Sub(m, q), mr, mb)
	if d == "0@1/1" {
		d = "0"
	}
	return fmt.Sprintf("%s|%s|%s", path, a, d), valid
}

func parts() (l []xmpdm.Part) {
	counts := []xmpdm.FrameCount{{}, {Count: 5, Rate: xmpdm.FrameRate{Rate: 25, Base: 1}}, {Count: 7, Rate: xmpdm.FrameRate{Rate: 1, Base: 1}}, {Count: -1, Rate: xmpdm.FrameRate{Rate: 1, Base: 1}}, {Count: 9, Rate: xmpdm.FrameRate{Rate: 30000, Base: 1001}}}
	for _, p := range []string{"", "/", "/metadata", "/a/b", "/content/audio"} {
		for _, a := range counts {
			for _, b := range counts {
				if p == "" && a.IsZero() && b.IsZero() {
					continue
				}
				l = append(l, xmpdm.Part{Path: p, Start: a, Duration: b})
			}
		}
	}
	return
}

func grid[T any](n int, l []T) [][]T {
	out := [][]T{nil}
	for i := 0; i < n; i++ {
		var next [][]T
		for _, p := range out {
			for _, v := range l {
				next = append(next, append(append([]T{}, p...), v))
			}
		}
		out = next
	}
	return out
}

func scalars() []scalar {
	var l []scalar
	add := func(s scalar) { l = append(l, s) }

	// the library's own types
	boolMeans := func(t, f string) func(string) (string, verdict) {
		return func(s string) (string, verdict) {
			switch strings.ToLower(s) {
			case t:
				if s == "True" || s == "true" || s == "TRUE" {
					return "true", valid
				}
				return "", open
			case f:
				if s == "False" || s == "false" || s == "FALSE" {
					return "false", valid
				}
				return "", open
			case "1", "0", "yes", "no", "t", "f", "y", "n", "on", "off":
				return "", open
			}
			switch strings.ToLower(strings.TrimSpace(s)) {
			case "1", "0", "yes", "no", "t", "f", "y", "n", "on", "off", t, f:
				return "", open
			}
			return "", invalid
		}
	}
	add(&scalarOf[xmp.Bool]{name: "xmp.Bool", vals: []xmp.Bool{true, false}, canon: func(v xmp.Bool) string { return fmt.Sprint(bool(v)) }, seeds: []string{"True", "False", "true", "false", "TRUE", "FALSE", "1", "0", "yes"}, alpha: "trueTRUEfalse01 ", short: 2, means: boolMeans("true", "false")})
	add(&scalarOf[bool]{name: "bool", vals: []bool{true, false}, canon: func(v bool) string { return fmt.Sprint(v) }, seeds: []string{"true", "false", "1", "0", "T"}, alpha: "trueTRUEfalse01 ", short: 2, means: boolMeans("true", "false")})
	add(&scalarOf[ixml.Bool]{name: "ixml.Bool", vals: []ixml.Bool{true, false}, canon: func(v ixml.Bool) string { return fmt.Sprint(bool(v)) }, seeds: []string{"TRUE", "FALSE"}, alpha: "trueTRUEfalse01 ", short: 2, means: boolMeans("true", "false")})
	var dates []xmp.Date
	for _, t := range dateGrid() {
		dates = append(dates, xmp.Date(t))
	}
	dateSeeds := []string{"2006-01-02T15:04:05Z", "2006-01-02T15:04:05+01:00", "2006-01-02T15:04:05.123456789-07:00", "2006-01-02T15:04Z", "2006-01-02T15:04-07:00", "2006-01-02", "2006-01", "2006", "2006-12-31T23:59:59", "2000-02-29", "2006-01-02T15:04:05+0100", "2006-01-02T15:04:05-0730", "2006-01-02T15:04:05+1:00", "2006-01-02T15:04:05+1", "2017-09-15T20:17:41+00200", "2006:01:02 15:04:05", "2006-01-02 15:04:05", "2006:01:02", "00/00/00T00:00:00+00:00", "--", "15:04:05", "15:04:05-07:00", "150405-0700"}
	add(&scalarOf[xmp.Date]{name: "xmp.Date", vals: dates, canon: func(v xmp.Date) string { return canonTime(time.Time(v)) }, seeds: dateSeeds, alpha: "0129-:.+TZ /", short: 1, means: dateMeans})
	var clocks []xmp.Time
	var pmTimes []pm.Time
	for _, c := range [][3]int{{0, 0, 0}, {23, 59, 59}, {12, 30, 15}, {1, 2, 3}} {
		for _, z := range zones() {
			for _, ns := range []int{0, 1, 500000000} {
				t := time.Date(0, 1, 1, c[0], c[1], c[2], ns, z)
				clocks = append(clocks, xmp.Time(t))
				if ns == 0 {
					pmTimes = append(pmTimes, pm.Time(t))
				}
			}
		}
	}
	add(&scalarOf[xmp.Time]{name: "xmp.Time", vals: clocks, canon: func(v xmp.Time) string { return canonClock(time.Time(v)) }, seeds: []string{"15:04:05", "15:04:05-07:00", "150405-0700", "15:04:05.5+01:00", "23:59:59"}, alpha: "0129-:.+TZ ", short: 1, means: clockMeans})
	add(&scalarOf[pm.Time]{name: "pm.Time", vals: pmTimes, canon: func(v pm.Time) string { return canonClock(time.Time(v)) }, seeds: []string{"150405-0700", "000000+0000", "235959+1130"}, alpha: "0129-:.+TZ ", short: 1, means: func(s string) (string, verdict) {
		m := regexp.MustCompile(`^(\d\d)(\d\d)(\d\d)([+-]\d\d)(\d\d)$`).FindStringSubmatch(s)
		if m == nil {
			if strings.Trim(s, "0123456789+-.,") == "" && (s == "" || strings.ContainsAny(s, ".,")) {
				return "", open // fractions
			}
			return "", invalid
		}
		return clockMeans(m[1] + ":" + m[2] + ":" + m[3] + m[4] + ":" + m[5])
	}})
	add(stringSpec[xmp.GUID]("xmp.GUID"))
	add(stringSpec[xmp.Url]("xmp.Url"))
	add(stringSpec[xmp.Uri]("xmp.Uri"))
	add(stringSpec[xmp.AgentName]("xmp.AgentName"))
	add(stringSpec[xmp.GPSCoord]("xmp.GPSCoord"))
	add(stringSpec[string]("string"))

	var rats []xmp.Rational
	for n := int64(-12); n <= 12; n++ {
		for d := int64(-12); d <= 12; d++ {
			if n != 0 || d != 0 {
				rats = append(rats, xmp.Rational{Num: n, Den: d})
			}
		}
	}
	for _, n := range []int64{math.MaxInt64, math.MinInt64, 1 << 40} {
		for _, d := range []int64{math.MaxInt64, math.MinInt64, 3, 0} {
			rats = append(rats, xmp.Rational{Num: n, Den: d}, xmp.Rational{Num: d, Den: n})
		}
	}
	canonRat := func(v xmp.Rational) string { return fmt.Sprintf("%d/%d", v.Num, v.Den) }
	add(&scalarOf[xmp.Rational]{name: "xmp.Rational", vals: dedup(rats), canon: canonRat, seeds: []string{"1/2", "-3/7", "0/5", "5", "1 2", "0.5", "0.004", "0.3", "0.0", "-0.25", "2.8", "1.5", "-1.5", "3.14159", "100.25", "16777217.5", "0.0166667", "1e3", "1.5e3", "1.0e-3", "9223372036854775807/9223372036854775807", "9223372036854775808", "1/0", "1.0e30", "1.0e-30"}, alpha: "0129-+/. ex", short: 2, means: ratMeans})
	add(&scalarOf[xmp.NullInt]{name: "xmp.NullInt", vals: ints(func(i int64) xmp.NullInt { return xmp.NullInt(i) }, 0, 1, -1, 7, 10, -10, 300, -300, math.MaxInt64, math.MinInt64), canon: func(v xmp.NullInt) string { return fmt.Sprint(int(v)) }, seeds: []string{"0", "15", "-1", "9223372036854775807", "9223372036854775808", "unknown", "1.0"}, alpha: "0159-+.e x_", short: 2, means: func(s string) (string, verdict) {
		if missing(s) || strings.HasPrefix(s, "+") {
			return "", open
		}
		v, ok := intIn(s, math.MinInt64, math.MaxInt64)
		return fmt.Sprint(v), ok
	}})
	var splits []xmp.SplitInt
	for _, b := range grid(4, []uint32{0, 1, 127, 128, 255}) {
		splits = append(splits, xmp.SplitInt(b[0]<<24|b[1]<<16|b[2]<<8|b[3]))
	}
	add(&scalarOf[xmp.SplitInt]{name: "xmp.SplitInt", vals: splits, canon: func(v xmp.SplitInt) string { return fmt.Sprint(uint32(v)) }, seeds: []string{"0", "15", "-1", "4294967295", "4294967296", "2147483648", "06:13:14:61", "255:255:255:255", "0:128:0:1", "256:0:0:0", "-1:0:0:0", "1:2:3", "1:2:3:4:5"}, alpha: "0129-+: x", short: 2, means: func(s string) (string, verdict) {
		if missing(s) || strings.Contains(s, "+") {
			return "", open
		}
		if f := strings.Split(s, ":"); len(f) == 4 {
			var n uint32
			for _, p := range f {
				v, ok := intIn(p, 0, 255)
				if ok != valid {
					return "", ok
				}
				n = n<<8 | uint32(v)
			}
			return fmt.Sprint(n), valid
		}
		v, ok := intIn(s, 0, math.MaxUint32)
		return fmt.Sprint(v), ok
	}})
	add(&scalarOf[xmp.NullString]{name: "xmp.NullString", vals: []xmp.NullString{"a", "b c", "0", "é<&", "nan", "a-"}, canon: func(v xmp.NullString) string { return string(v) }, seeds: []string{"abc", "unknown"}, alpha: "a- u", short: 2, means: func(s string) (string, verdict) {
		if missing(s) || spaced(s) || strings.Contains(s, "\x00") {
			return "", open
		}
		return s, valid
	}})
	add(&scalarOf[xmp.NullBool]{name: "xmp.NullBool", vals: []xmp.NullBool{true, false}, canon: func(v xmp.NullBool) string { return fmt.Sprint(bool(v)) }, seeds: []string{"true", "on", "yes", "1", "enabled", "false", "off", "no", "0", "disabled"}, alpha: "trueo1n0", short: 1, means: func(s string) (string, verdict) {
		switch strings.ToLower(s) {
		case "true", "on", "yes", "1", "enabled":
			return "true", valid
		case "false", "off", "no", "0", "disabled":
			return "false", valid
		}
		return "", open
	}})
	var durs []xmp.Duration
	for _, n := range []int64{0, 1, 999, 1000, 1500000, 1e9, 90e9, 3600e9, 86400e9, 1e9 + 1, 36e11 + 1e6, math.MaxInt64} {
		durs = append(durs, xmp.Duration(n), xmp.Duration(-n))
	}
	add(&scalarOf[xmp.Duration]{name: "xmp.Duration", vals: append(dedup(durs), xmp.Duration(math.MinInt64)), canon: func(v xmp.Duration) string { return fmt.Sprint(int64(v)) }, seeds: []string{"0", "15", "-15", "1h30m", "1.5s", "10ms", "1h 30m", "9223372036", "9223372037", "99999999999", "-9223372037", "9223372036854775807", "2562047h47m16.854775807s"}, alpha: "0159-+.hms u", short: 2, means: func(s string) (string, verdict) {
		if reInt.MatchString(s) {
			v, ok := intIn(s, -9223372036, 9223372036)
			return fmt.Sprint(v * 1e9), ok
		}
		if v, err := time.ParseDuration(s); err == nil {
			return fmt.Sprint(int64(v)), valid
		}
		if strings.ContainsAny(s, " \t\n") {
			return "", open
		}
		return "", invalid
	}})
	fl := []float64{0, 1, -1, 0.1, 0.25, -0.3, 1e-7, 1e7, 123456.75, 3.4e38, 1e-38, 1.17549435e-38, 1e-45, 16777216, 0.333333343, math.Pi, 1e21, 1e20, math.NaN(), math.Inf(1), math.Inf(-1)}
	var f32 []xmp.NullFloat
	var f64 []xmp.NullFloat64
	var g32 []float32
	var g64 []float64
	for _, f := range fl {
		f32 = append(f32, xmp.NullFloat(float32(f)))
		f64 = append(f64, xmp.NullFloat64(f))
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			g32, g64 = append(g32, float32(f)), append(g64, f)
		}
	}
	for _, f := range []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, 1e300, 1e-300, 0.1 + 0.2} {
		f64, g64 = append(f64, xmp.NullFloat64(f)), append(g64, f)
	}
	floatSeeds := []string{"0", "1", "-1.5", "1e5", "1E5", "1.5E-3", ".5", "5.", "3.4e38", "3.5e38", "1e39", "1e308", "1e309", "NaN", "+Inf", "-Inf", "Inf", "1,5", "10 mm", "abc", "unknown", "0x10", "1_0"}
	nullF := func(bits int) func(string) (string, verdict) {
		return func(s string) (string, verdict) {
			switch strings.ToLower(s) {
			case "nan":
				return "NaN", valid
			case "+inf", "inf":
				return "+Inf", valid
			case "-inf":
				return "-Inf", valid
			}
			if missing(s) {
				return "", open
			}
			if !hasDigit(s) {
				if reOdd.MatchString(strings.TrimSpace(s)) {
					return "", open
				}
				return "", invalid
			}
			v, ok := floatMeans(s, bits)
			if ok == invalid && !reFloat.MatchString(strings.TrimSpace(s)) {
				return "", open // units are stripped
			}
			return v, ok
		}
	}
	add(&scalarOf[xmp.NullFloat]{name: "xmp.NullFloat", vals: f32, canon: func(v xmp.NullFloat) string { return canonFloat(float64(v), 32) }, seeds: floatSeeds, alpha: "0159-+.eEanif ", short: 2, means: nullF(32)})
	add(&scalarOf[xmp.NullFloat64]{name: "xmp.NullFloat64", vals: f64, canon: func(v xmp.NullFloat64) string { return canonFloat(float64(v), 64) }, seeds: floatSeeds, alpha: "0159-+.eEanif ", short: 2, means: nullF(64)})
	add(&scalarOf[float32]{name: "float32", vals: g32, canon: func(v float32) string { return canonFloat(float64(v), 32) }, seeds: floatSeeds, alpha: "0159-+.eEanif ", short: 2, means: func(s string) (string, verdict) { return floatMeans(s, 32) }})
	add(&scalarOf[float64]{name: "float64", vals: g64, canon: func(v float64) string { return canonFloat(v, 64) }, seeds: floatSeeds, alpha: "0159-+.eEanif ", short: 2, means: func(s string) (string, verdict) { return floatMeans(s, 64) }})
	add(intSpec("int", 64, true, func(i int64) int { return int(i) }))
	add(intSpec("int8", 8, true, func(i int64) int8 { return int8(i) }))
	add(intSpec("int16", 16, true, func(i int64) int16 { return int16(i) }))
	add(intSpec("int32", 32, true, func(i int64) int32 { return int32(i) }))
	add(intSpec("int64", 64, true, func(i int64) int64 { return i }))
	add(intSpec("uint8", 8, false, func(i int64) uint8 { return uint8(i) }))
	add(intSpec("uint16", 16, false, func(i int64) uint16 { return uint16(i) }))
	add(intSpec("uint32", 32, false, func(i int64) uint32 { return uint32(i) }))
	add(intSpec("uint64", 64, false, func(i int64) uint64 { return uint64(i) }))
	add(intSpec("uint", 64, false, func(i int64) uint { return uint(i) }))
	add(intSpec("id3.Bool", 64, true, func(i int64) id3.Bool { return id3.Bool(i) }))
	add(intSpec("exif.FlashMode", 64, true, func(i int64) exif.FlashMode { return exif.FlashMode(i) }))
	add(intSpec("itunes.Bool", 64, true, func(i int64) itunes.Bool { return itunes.Bool(i) }))

	// types of the models
	var exifDates []exif.Date
	for _, t := range dateGrid() {
		if t.Nanosecond() == 0 && t.Location() == time.UTC && !t.IsZero() {
			exifDates = append(exifDates, exif.Date(t))
		}
	}
	add(&scalarOf[exif.Date]{name: "exif.Date", vals: exifDates, canon: func(v exif.Date) string { return canonTime(time.Time(v)) }, seeds: []string{"2006:01:02 15:04:05", "2006:01:02", "2006:01", "2006", "2006-01-02T15:04:05Z", "2006-01-02T15:04:05"}, alpha: "0129-:.+TZ ", short: 1, unset: func(v exif.Date) bool {
		t := time.Time(v)
		_, o := t.Zone()
		return o != 0 || t.Nanosecond() != 0 || t.IsZero()
	}, means: func(s string) (string, verdict) {
		if strings.Contains(s, "-") && regexp.MustCompile(`:\d\d:\d\d[+-]|^\d{4}-\d\d(-\d\d)?$|T\d\d:\d\d(Z|[+-]\d\d:\d\d)$|[+-]\d{1,2}(:?\d\d)?$`).MatchString(s) {
			return "", open
		}
		if regexp.MustCompile(`^\d{4}-\d\d-\d\d[ ]`).MatchString(s) {
			return "", open
		}
		return dateMeans(s)
	}})
	var bas []exif.ByteArray
	for n := 1; n < 4; n++ {
		for _, g := range grid(n, []byte{0, 1, 9, 10, 255}) {
			bas = append(bas, exif.ByteArray(g))
		}
	}
	add(&scalarOf[exif.ByteArray]{name: "exif.ByteArray", vals: bas, canon: func(v exif.ByteArray) string { return fmt.Sprint([]byte(v)) }, seeds: []string{"1 2 3", "0", "255", "256", "1  2", "-1"}, alpha: "0125-+. x", short: 2, means: func(s string) (string, verdict) {
		f := strings.Fields(s)
		if len(f) == 0 {
			return "", open
		}
		var out []int64
		for _, p := range f {
			v, ok := intIn(p, 0, 255)
			if ok != valid {
				return "", ok
			}
			if p[0] == '+' {
				return "", open
			}
			out = append(out, v)
		}
		return fmt.Sprint(out), valid
	}})
	add(&scalarOf[exif.GPSCoord]{name: "exif.GPSCoord", canon: func(v exif.GPSCoord) string { return fmt.Sprint(v) }, noDoc: true, noText: true, seeds: []string{"37.5", "-122.25", "0", "180", "-1000.5", "1000", "NaN", "Inf", "-Inf", "1e5", "1e300", "12.345.6"}, alpha: "0159-+.eNI ", short: 2, means: func(s string) (string, verdict) {
		if !reFloat.MatchString(s) {
			if strings.Contains(s, "_") || strings.HasPrefix(strings.ToLower(s), "0x") || spaced(s) {
				return "", open
			}
			return "", invalid
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil || math.Abs(f) >= 1000 {
			return "", invalid
		}
		return "", open
	}})
	var t23 []id3.Time23
	for m := 0; m < 1440; m++ {
		t23 = append(t23, id3.Time23(time.Date(0, 1, 1, m/60, m%60, 0, 0, time.UTC)))
	}
	add(&scalarOf[id3.Time23]{name: "id3.Time23", vals: t23, canon: func(v id3.Time23) string { return time.Time(v).Format("15:04") }, seeds: []string{"1504", "0000", "2359", "2400", "1260"}, alpha: "01269: -", short: 3, means: func(s string) (string, verdict) {
		if len(s) != 4 || !reNat.MatchString(s) || atoi(s[:2]) > 23 || atoi(s[2:]) > 59 {
			if spaced(s) {
				return "", open
			}
			return "", invalid
		}
		return s[:2] + ":" + s[2:], valid
	}})
	var d23 []id3.Date23
	for t := time.Date(0, 1, 1, 0, 0, 0, 0, time.UTC); t.Year() == 0; t = t.AddDate(0, 0, 1) {
		d23 = append(d23, id3.Date23(t))
	}
	add(&scalarOf[id3.Date23]{name: "id3.Date23", vals: d23, canon: func(v id3.Date23) string { return time.Time(v).Format("0102") }, seeds: []string{"3112", "0101", "2902", "3002", "1231"}, alpha: "01239: -", short: 3, means: func(s string) (string, verdict) {
		if len(s) != 4 || !reNat.MatchString(s) {
			if spaced(s) {
				return "", open
			}
			return "", invalid
		}
		d, m := atoi(s[:2]), atoi(s[2:])
		t := time.Date(0, time.Month(m), d, 0, 0, 0, 0, time.UTC)
		if m < 1 || m > 12 || d < 1 || t.Day() != d {
			return "", invalid
		}
		return s[2:] + s[:2], valid
	}})
	var gs []id3.GenreV1
	for i := 0; i < 256; i++ {
		gs = append(gs, id3.GenreV1(i))
	}
	add(&scalarOf[id3.GenreV1]{name: "id3.GenreV1", vals: gs, canon: func(v id3.GenreV1) string { return fmt.Sprint(int(v)) }, seeds: []string{"0", "17", "255", "256", "-1", "Rock", "Blues"}, alpha: "0125-R", short: 3, means: func(s string) (string, verdict) {
		if reInt.MatchString(s) {
			v, ok := intIn(s, 0, 255)
			if s[0] == '+' || s[0] == '-' && v == 0 && ok == valid {
				return "", open
			}
			return fmt.Sprint(v), ok
		}
		switch s {
		case "Rock":
			return "17", valid
		case "Blues":
			return "0", valid
		}
		return "", open
	}})
	var tracks []id3.TrackNum
	for a := -2; a < 14; a++ {
		for b := -2; b < 14; b++ {
			tracks = append(tracks, id3.TrackNum{Track: a, Total: b})
		}
	}
	add(&scalarOf[id3.TrackNum]{name: "id3.TrackNum", vals: tracks, canon: func(v id3.TrackNum) string { return fmt.Sprint(v.Track, "/", v.Total) }, seeds: []string{"3", "3/12", "0/5", "10/", "/10", "1/2/3", "1/2x"}, alpha: "0129-/ x", short: 3, means: func(s string) (string, verdict) {
		if reInt.MatchString(s) {
			v, ok := intIn(s, math.MinInt64, math.MaxInt64)
			return fmt.Sprint(v, "/", 0), ok
		}
		if reInt.MatchString(strings.TrimSpace(s)) {
			return "", open
		}
		return pairMeans(s, "/", func(a, b string) string { return a + "/" + b })
	}})
	var prefs []pm.Preferences
	for _, g := range grid(4, []int{0, 1, 5, -1, 1000}) {
		if g[0]|g[1]|g[2]|g[3] != 0 {
			prefs = append(prefs, pm.Preferences{TagStatus: g[0], ColorClass: g[1], Rating: g[2], Frame: g[3]})
		}
	}
	add(&scalarOf[pm.Preferences]{name: "pm.Preferences", vals: prefs, canon: func(v pm.Preferences) string { return fmt.Sprint(v) }, seeds: []string{"0:1:2:3", "1:8:5:-1", "1:2:3", "1:2:3:4:5"}, alpha: "019-+: x", short: 2, means: func(s string) (string, verdict) {
		f := strings.Split(s, ":")
		if len(f) != 4 {
			return "", invalid
		}
		var out []string
		for _, p := range f {
			v, ok := intIn(p, math.MinInt64, math.MaxInt64)
			if ok != valid {
				return "", ok
			}
			out = append(out, fmt.Sprint(v))
		}
		return "{" + strings.Join(out, " ") + "}", valid
	}})
	texts := []string{"", "a", "b c", "é<"}
	var itr []itunes.ContentRating
	var qtr []qt.ContentRating
	for _, g := range grid(4, texts) {
		if g[0]+g[1]+g[2]+g[3] != "" {
			itr = append(itr, itunes.ContentRating{Standard: g[0], Rating: g[1], Score: g[2], Reasons: g[3]})
			qtr = append(qtr, qt.ContentRating{Standard: g[0], Rating: g[1], Score: g[2], Reasons: g[3]})
		}
	}
	ratingMeans := func(s string) (string, verdict) {
		if m := regexp.MustCompile(`^\(([^|()]*)\|([^|()]*)\|([^|()]*)\|([^|()]*)\)$`).FindStringSubmatch(s); m != nil {
			return fmt.Sprintf("%q", m[1:]), valid
		}
		return "", open
	}
	ratingSeeds := []string{"(mpaa|PG|300|none)", "(a|b|c|d|e)", "a|b|c|d", "(mpaa)", "()", "(|||)"}
	add(&scalarOf[itunes.ContentRating]{name: "itunes.ContentRating", vals: itr, canon: func(v itunes.ContentRating) string {
		return fmt.Sprintf("%q", []string{v.Standard, v.Rating, v.Score, v.Reasons})
	}, seeds: ratingSeeds, alpha: "a|() ", short: 4, means: ratingMeans})
	add(&scalarOf[qt.ContentRating]{name: "qt.ContentRating", vals: qtr, canon: func(v qt.ContentRating) string {
		return fmt.Sprintf("%q", []string{v.Standard, v.Rating, v.Score, v.Reasons})
	}, seeds: ratingSeeds, alpha: "a|() ", short: 4, means: ratingMeans})
	add(&scalarOf[xmpdm.FrameRate]{name: "xmpdm.FrameRate", vals: frameRates(), canon: canonRate, seeds: []string{"f25", "f30000s1001", "f0", "f25s0", "f25s1s2", "25"}, alpha: "0125fs-+. ", short: 3, means: rateMeans})
	add(&scalarOf[xmpdm.FrameCount]{name: "xmpdm.FrameCount", vals: dedup(frameCounts()), canon: canonCount, seeds: []string{"5", "5f25", "100f30000s1001", "0", "0f25", "maximum", "maximumf25", "-3f25", "f25"}, alpha: "0125fs-m ", short: 2, means: countMeans})
	add(&scalarOf[xmpdm.Part]{name: "xmpdm.Part", vals: parts(), canon: func(v xmpdm.Part) string {
		return fmt.Sprintf("%s|%s|%s", strings.TrimSuffix(v.Path, "/"), canonCount(v.Start), canonCount(v.Duration))
	}, seeds: []string{"/", "/metadata", "/a/time:5f25", "time:5f25d10f25", "/time:5f25r10f25", "/time:5f25r50f50", "/a/time:1r5f2", "/time:5f25rmaximum", "/time:maximum", "time:x", "/time:1d"}, alpha: "05fdr:/ax", short: 2, means: func(s string) (string, verdict) {
		i := strings.Index(s, "time:")
		if i < 0 {
			return "", open
		}
		rest := s[i+5:]
		if regexp.MustCompile(`[^0-9fsdrmaxiu+-]`).MatchString(rest) && !strings.Contains(rest, "time:") {
			return "", invalid
		}
		if j := strings.IndexAny(rest, "d"); j >= 0 && !strings.Contains(rest, "time:") {
			a, v := countMeans(rest[:j])
			b, w := countMeans(rest[j+1:])
			if v == valid && w == valid {
				return fmt.Sprintf("%s|%s|%s", strings.TrimSuffix(s[:i], "/"), a, b), valid
			}
			if v == invalid || w == invalid {
				return "", invalid
			}
			return "", open
		}
		if j := strings.Index(rest, "r"); j >= 0 && !strings.Contains(rest, "time:") {
			return rangeMeans(strings.TrimSuffix(s[:i], "/"), rest[:j], rest[j+1:])
		}
		if strings.Contains(rest, "r") || strings.Contains(rest, "time:") {
			return "", open
		}
		b, w := countMeans(rest)
		return fmt.Sprintf("%s|0|%s", strings.TrimSuffix(s[:i], "/"), b), w
	}})
	add(&scalarOf[xmpdm.VideoFrameRate]{name: "xmpdm.VideoFrameRate", vals: []xmpdm.VideoFrameRate{23.976, 24, 25, 29.97, 30, 50, 59.94, 60, 23.976023976023978, 0.5, 1e-7, 0.3333333333333333, 119.88, 1000}, canon: func(v xmpdm.VideoFrameRate) string { return canonFloat(float64(v), 64) }, seeds: []string{"NTSC", "PAL", "25", "29.97", "23.976", "30000/1001", "25fps", "25 fps", "50i", "25p", "25/0", "0/0", "abc", "2997 100"}, alpha: "0259./-fpsi ", short: 2, means: func(s string) (string, verdict) {
		if s == "" {
			return "", open
		}
		switch s {
		case "NTSC":
			return "29.97", valid
		case "PAL":
			return "25", valid
		}
		if reFloat.MatchString(s) {
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				return "", open
			}
			return canonFloat(f, 64), valid
		}
		if v, ok := ratMeans(s); ok == valid && !strings.HasPrefix(v, "=") {
			r := strings.Split(v, "/")
			if r[1] == "0" {
				return "", invalid
			}
			a, _ := strconv.ParseFloat(r[0], 64)
			b, _ := strconv.ParseFloat(r[1], 64)
			return canonFloat(a/b, 64), valid
		}
		if !hasDigit(s) && !reOdd.MatchString(strings.TrimRight(s, "fpsi ")) && strings.Trim(strings.ToUpper(s), "PALNTSC ") != "" {
			if strings.Contains(strings.ToLower(s), "n") {
				return "", open
			}
			return "", invalid
		}
		return "", open
	}})
	var cps []crs.Point
	var qps []qt.Point
	for _, g := range grid(2, []int64{0, 1, -1, 255, -300, math.MaxInt64, math.MinInt64}) {
		cps = append(cps, crs.Point{X: g[0], Y: g[1]})
		qps = append(qps, qt.Point{X: int(g[0]), Y: int(g[1])})
	}
	add(&scalarOf[crs.Point]{name: "crs.Point", vals: cps, canon: func(v crs.Point) string { return fmt.Sprint(v.X, "/", v.Y) }, seeds: []string{"1, 2", "1,2", "0, 255", "-1, -2", "1,2,3", "1, 2x", "1.5, 2", "1"}, alpha: "0129-, .x", short: 3, means: func(s string) (string, verdict) {
		return pairMeans(s, ",", func(a, b string) string { return a + "/" + b })
	}})
	add(&scalarOf[qt.Point]{name: "qt.Point", vals: qps[1:], canon: func(v qt.Point) string { return fmt.Sprint(v.X, "/", v.Y) }, unset: func(v qt.Point) bool { return v.X == 0 && v.Y == 0 }, seeds: []string{"1,2", "1, 2", "1/2", "1:2", "1 2", "1;2", "-1,-2", "1,2,3", "1/2/3", "1,2x"}, alpha: "0129-, /:;x", short: 3, means: func(s string) (string, verdict) {
		return pairMeans(s, ",/:; ", func(a, b string) string { return a + "/" + b })
	}})
	add(&scalarOf[ixml.TimecodeFlag]{name: "ixml.TimecodeFlag", vals: []ixml.TimecodeFlag{"DF", "NDF"}, canon: func(v ixml.TimecodeFlag) string { return string(v) }, seeds: []string{"DF", "NDF"}, alpha: "NDFndf ", short: 3, means: func(s string) (string, verdict) {
		if s == "DF" || s == "NDF" {
			return s, valid
		}
		if strings.EqualFold(strings.TrimSpace(s), "df") || strings.EqualFold(strings.TrimSpace(s), "ndf") {
			return "", open
		}
		return "", invalid
	}})
	var takes []ixml.TakeTypeList
	for n := 1; n < 4; n++ {
		for _, g := range grid(n, []ixml.TakeType{ixml.TakeTypeNoGood, ixml.TakeTypeWildTrack, ixml.TakeTypeDefault, "OTHER_X"}) {
			takes = append(takes, ixml.TakeTypeList(g))
		}
	}
	add(&scalarOf[ixml.TakeTypeList]{name: "ixml.TakeTypeList", vals: takes, canon: func(v ixml.TakeTypeList) string { return fmt.Sprintf("%q", []ixml.TakeType(v)) }, seeds: []string{"NO_GOOD,PICKUP"}, alpha: "A_, ", short: 3})
	var locs []ixml.LocationTypeList
	for _, g := range grid(2, []ixml.LocationType{"INT", "EXT", "SEA"}) {
		locs = append(locs, ixml.LocationTypeList(g), ixml.LocationTypeList(g[:1]))
	}
	add(&scalarOf[ixml.LocationTypeList]{name: "ixml.LocationTypeList", vals: dedupBy(locs), canon: func(v ixml.LocationTypeList) string { return fmt.Sprintf("%q", []ixml.LocationType(v)) }, seeds: []string{"INT,EXT"}, alpha: "A_, ", short: 3})
	var lts []ixml.LocationTimeList
	for _, g := range grid(2, []ixml.LocationTime{"SUNRISE", "MORNING", "MIDDAY", "DAY", "AFTERNOON", "EVENING", "SUNSET", "NIGHT", "X"}) {
		lts = append(lts, ixml.LocationTimeList(g), ixml.LocationTimeList(g[:1]))
	}
	add(&scalarOf[ixml.LocationTimeList]{name: "ixml.LocationTimeList", vals: dedupBy(lts), canon: func(v ixml.LocationTimeList) string { return fmt.Sprintf("%q", []ixml.LocationTime(v)) }, seeds: []string{"DAY,NIGHT"}, alpha: "A_, ", short: 3})
	var genres []id3.Genre
	for n := 1; n < 4; n++ {
		for _, g := range grid(n, []string{"Rock", "Jazz", "My Genre"}) {
			genres = append(genres, id3.Genre(g))
		}
	}
	add(&scalarOf[id3.Genre]{name: "id3.Genre", vals: genres, canon: func(v id3.Genre) string { return fmt.Sprintf("%q", []string(v)) }, seeds: []string{"Rock, Jazz", "17", "RX,CR", "300"}, alpha: "1R, X", short: 3})
	var tcs []xmpdm.Timecode
	for _, h := range []int{0, 1, 10, 23, 99} {
		for _, f := range []int{0, 5, 29, 119} {
			for _, drop := range []bool{false, true} {
				for _, form := range []xmpdm.TimecodeFormat{xmpdm.TimecodeFormat25, xmpdm.TimecodeFormat2997} {
					tc := xmpdm.Timecode{Format: form, H: h, M: 59, S: 9, F: f, IsDropFrame: drop}
					tc.Value = tc.String()
					tcs = append(tcs, tc)
				}
			}
		}
	}
	add(&scalarOf[xmpdm.Timecode]{name: "xmpdm.Timecode", vals: tcs, canon: func(v xmpdm.Timecode) string { return fmt.Sprint(v.Format, v.Value, v.H, v.M, v.S, v.F, v.IsDropFrame) }, noText: true})
	var vs []xmp.Version
	for _, g := range grid(3, []int{0, 1, 2, 10, 999}) {
		if g[0]|g[1]|g[2] != 0 {
			vs = append(vs, xmp.Version{Major: g[0], Minor: g[1], Patch: g[2]})
		}
	}
	add(versionSpec{vs})
	return l
}

func dedupBy[T any](l []T) (out []T) {
	seen := map[string]bool{}
	for _, v := range l {
		if k := fmt.Sprint(v); !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	return
}

// versionSpec covers versions, which have functions of their own.
type versionSpec struct{ vals []xmp.Version }

func (s versionSpec) Name() string { return "xmp.Version" }
func (s versionSpec) Len() int     { return len(s.vals) }
func (s versionSpec) Value(i int) string {
	return fmt.Sprint(s.vals[i].Major, s.vals[i].Minor, s.vals[i].Patch)
}
func (s versionSpec) Channels() []string { return []string{"text"} }
func (s versionSpec) Trip(i int, ch string) (text, back string, err error) {
	t := s.vals[i].String()
	v, err := xmp.ParseVersion(t)
	return t, fmt.Sprint(v.Major, v.Minor, v.Patch), err
}
func (s versionSpec) Texts(lvl int, f func(s string) bool) {
	(&scalarOf[string]{seeds: []string{"1", "1.2", "1.2.3", "10.20.30", "1.2.3.4", "1..2", ".1", "1.", "v1", "1.x", "99999999999999999999"}, alpha: "0129.-+ xv", short: 3}).Texts(lvl, f)
}
func (s versionSpec) Means(t string) (string, verdict) {
	f := strings.Split(t, ".")
	if len(f) > 3 {
		return "", invalid
	}
	n := [3]int64{}
	for i, p := range f {
		if i > 0 && strings.HasPrefix(p, " ") || i+1 < len(f) && strings.HasSuffix(p, " ") {
			return "", invalid
		}
		v, ok := intIn(p, math.MinInt64, math.MaxInt64)
		if ok != valid {
			return "", ok
		}
		if !reNat.MatchString(p) {
			return "", open
		}
		n[i] = v
	}
	return fmt.Sprint(n[0], n[1], n[2]), valid
}
func (s versionSpec) Parse(t string) (v, text, again string, err error) {
	x, err := xmp.ParseVersion(t)
	if err != nil {
		return "", "", "", err
	}
	text = x.String()
	y, err := xmp.ParseVersion(text)
	if err != nil {
		return "", text, "error: " + err.Error(), nil
	}
	return fmt.Sprint(x.Major, x.Minor, x.Patch), text, fmt.Sprint(y.Major, y.Minor, y.Patch), nil
}
func (s versionSpec) Set(t string) (string, error) { return "", fmt.Errorf("no document") }

// meets says whether a value is the one a text means; a leading = compares
// rationals by value.
func meets(got, want string) bool {
	if got == want {
		return true
	}
	if strings.HasPrefix(want, "=") {
		a, ok := new(big.Rat).SetString(want[1:])
		if strings.HasSuffix(got, "/0") {
			return false
		}
		b, ok2 := new(big.Rat).SetString(got)
		return ok && ok2 && a.Cmp(b) == 0
	}
	return false
}

// Readers lists the ways a text gets into a property.
func (s *scalarOf[T]) Readers() []string {
	if s.noDoc || s.noText {
		return nil
	}
	var v T
	_, m := any(v).(encoding.TextMarshaler)
	_, u := any(&v).(encoding.TextUnmarshaler)
	l := []string{"a path"}
	if u || reflect.TypeOf(v).Kind() != reflect.Struct {
		l = append(l, "an element", "JSON")
	}
	if m || reflect.TypeOf(v).Kind() != reflect.Struct {
		l = append(l, "an attribute")
	}
	return l
}

// Read puts a text into a property.
func (s *scalarOf[T]) Read(t, how string) (string, error) {
	if how == "a path" {
		return s.Set(t)
	}
	d := s.doc(nil)
	defer d.Close()
	var err error
	if how == "JSON" {
		b, _ := json.Marshal(t)
		err = json.Unmarshal([]byte(`{"models":{"box":{"box:el":`+string(b)+`}}}`), d)
	} else {
		var buf bytes.Buffer
		xml.EscapeText(&buf, []byte(t))
		x := `<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="" xmlns:box="http://example.com/box/"`
		if how == "an attribute" {
			x += ` box:at="` + buf.String() + `"/>`
		} else {
			x += `><box:el>` + buf.String() + `</box:el></rdf:Description>`
		}
		err = xmp.Unmarshal([]byte(x+`</rdf:RDF></x:xmpmeta>`), d)
	}
	if err != nil {
		return "", err
	}
	w, err := boxOf[T](d)
	if err != nil {
		return "", err
	}
	if how == "an attribute" {
		return s.canon(w.At), nil
	}
	return s.canon(w.El), nil
}

func (s versionSpec) Readers() []string                  { return nil }
func (s versionSpec) Read(t, how string) (string, error) { return "", nil }
