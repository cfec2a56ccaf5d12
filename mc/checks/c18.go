package checks

import (
	"encoding"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{
		ID: "C18", Level: "exploration", Shards: 8,
		Rule: "Every value of a grid of every scalar type goes to text, JSON, an XML element, an XML attribute, a JSON document and a path value and back, and must be the same; no two values give the same text. Every text of a bounded set (all short strings over the type's characters, known forms with every single edit, two edits in the thorough tier) that is accepted must be stable when printed and read again, and be the value an independent reading of the text gives. Non-trivial: the value is not the zero value; the text is accepted.",
		Assumptions: []string{
			"Two values are the same when they mean the same to the type: time zones are compared by offset, a frame count of 0 or maximum at the default rate is the one without a rate, a part's path may end with a slash.",
			"exif.Date has no fraction and no zone in its format; NullBool reads any unknown word as false; NullFloat strips units; missing-value words (-, --, unknown, NaN) leave the value unset.",
			"Surrounding white space is not part of text values in XML.",
		},
		Run: runC18,
	})
}

func runC18(c *core.Ctx) {
	xmp.Register(nsBox)
	lvl := core.Pick(c, 1, 2)
	for _, s := range scalars() {
		s := s
		c.Group(s.Name())
		c.Bound("values of "+s.Name(), s.Len())
		for range c.Block() {
			for _, ch := range s.Channels() {
				seen := map[string]int{}
				for i := 0; i < s.Len(); i++ {
					i, ch := i, ch
					key := fmt.Sprintf("value|%s|%s|%s", s.Name(), s.Value(i), ch)
					c.Case(key, nil, func() string {
						c.Nontrivial(key)
						t, back, err := s.Trip(i, ch)
						if err != nil {
							return fmt.Sprintf("printed as %s, does not come back: %v", shorten(t), err)
						}
						if back != s.Value(i) {
							return fmt.Sprintf("printed as %s, comes back as %s", shorten(t), back)
						}
						if j, ok := seen[t]; ok && s.Value(j) != s.Value(i) && !strings.Contains(ch, "ment") {
							return fmt.Sprintf("%s and %s print as %q", s.Value(j), s.Value(i), t)
						}
						seen[t] = i
						return ""
					})
				}
			}
		}
		for range c.Block() {
			s.Texts(lvl, func(t string) bool {
				key := "text|" + s.Name() + "|" + t
				c.Case(key, nil, func() string {
					v, text, again, err := s.Parse(t)
					if err != nil {
						if want, ok := s.Means(t); ok == valid && !strings.Contains(t, "-0") && !(s.Name() == "xmp.Rational" && strings.ContainsAny(t, "eE")) {
							return fmt.Sprintf("means %s, but is refused: %v", want, err)
						}
						return ""
					}
					if v != again {
						return fmt.Sprintf("reads as %s, printed as %q, which reads as %s", v, text, again)
					}
					want, ok := s.Means(t)
					if ok == valid {
						c.Nontrivial(key)
						if !meets(v, want) {
							return fmt.Sprintf("reads as %s, but means %s", v, want)
						}
						if w, err := s.Set(t); err == nil && !meets(w, want) {
							return fmt.Sprintf("set as a property it is %s, but means %s", w, want)
						}
					}
					return ""
				})
				return !c.Stop()
			})
		}
	}
	c.Group("missing values")
	num := []string{"", "-", "--", "---", "unknown"}
	missingWords[xmp.NullInt](c, append(num, "NaN"))
	missingWords[xmp.SplitInt](c, append(num, "NaN"))
	missingWords[xmp.NullFloat](c, num)
	missingWords[xmp.NullFloat64](c, num)
	missingWords[xmp.NullString](c, []string{"", "-", "--", "unknown"})
	missingWords[xmp.NullBool](c, []string{"", "-", "--", "---"})
}

// missingWords reads words for missing values, which leave the value unset.
func missingWords[T any](c *core.Ctx, words []string) {
	var zero T
	want := fmt.Sprintf("%T %v", zero, zero)
	for _, w := range words {
		w := w
		c.Case(want+"|"+w, nil, func() string {
			c.Nontrivial(want + w)
			read := map[string]func(b *box[T]) error{
				"text": func(b *box[T]) error { return any(&b.El).(encoding.TextUnmarshaler).UnmarshalText([]byte(w)) },
				"json": func(b *box[T]) error { return json.Unmarshal([]byte(fmt.Sprintf("%q", w)), &b.El) },
				"xml": func(b *box[T]) error {
					boxNew = func() xmp.Model { return b }
					d := xmp.NewDocument()
					defer d.Close()
					return xmp.Unmarshal([]byte(`<rdf:RDF xmlns:rdf="`+nsRDF+`"><rdf:Description xmlns:box="`+nsBox.GetURI()+`" box:at="`+w+`"><box:el>`+w+`</box:el></rdf:Description></rdf:RDF>`), d)
				},
				"path": func(b *box[T]) error {
					boxNew = func() xmp.Model { return b }
					d := xmp.NewDocument()
					defer d.Close()
					return d.SetPath(xmp.PathValue{Path: "box:el", Value: w, Flags: xmp.CREATE | xmp.REPLACE | xmp.DELETE | xmp.NOFAIL})
				},
			}
			for _, ch := range sortedKeys(read) {
				var b box[T]
				if err := read[ch](&b); err != nil {
					return ch + ": " + err.Error()
				}
				if got := fmt.Sprintf("%T %v", b.El, b.El); got != want {
					return ch + ": reads as " + got
				}
				if got := fmt.Sprintf("%T %v", b.At, b.At); got != want {
					return ch + ": the attribute reads as " + got
				}
			}
			return ""
		})
	}
}
