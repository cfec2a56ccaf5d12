package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

// assign sets one property of one model.
type assign struct {
	M *model
	F field
	V reflect.Value
}

func (a assign) name() string { return a.M.Prefix + "." + a.F.Go }

// native says whether the property belongs to its model's own name space, so
// that reading puts it back into the same field.
func (a assign) native() bool { return strings.HasPrefix(a.F.Name, a.M.Prefix+":") }

// docCase is one document of the explored space.
type docCase struct {
	Key     string
	Assigns []assign
}

func (dc docCase) replay() interface{} {
	var l []map[string]string
	for _, a := range dc.Assigns {
		l = append(l, map[string]string{"model": a.M.Prefix, "field": a.F.Go, "property": a.F.Name, "value": dumpV(a.V)})
	}
	return l
}

// clone copies a value deeply (alphabet values must never be aliased).
func clone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return reflect.Zero(v.Type())
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(clone(v.Elem()))
		return p
	case reflect.Slice:
		if v.IsNil() {
			return reflect.Zero(v.Type())
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(clone(v.Index(i)))
		}
		return s
	case reflect.Struct:
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		if v.Type().ConvertibleTo(timeType) {
			return c
		}
		for i := 0; i < v.NumField(); i++ {
			if c.Field(i).CanSet() {
				c.Field(i).Set(clone(v.Field(i)))
			}
		}
		return c
	}
	if v.CanAddr() { // not the variable itself
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		return c
	}
	return v
}

// build makes the document and returns the models by prefix.
func (dc docCase) build() (*xmp.Document, map[string]xmp.Model, error) {
	ms := map[string]xmp.Model{}
	d := xmp.NewDocument()
	for _, a := range dc.Assigns {
		x := ms[a.M.Prefix]
		if x == nil {
			x = a.M.NS.NewModel()
			ms[a.M.Prefix] = x
			if _, err := d.AddModel(x); err != nil {
				return nil, nil, fmt.Errorf("AddModel: %v", err)
			}
		}
		a.M.put(x, a.F, clone(a.V))
	}
	return d, ms, nil
}

var modelsCache []model

func allModels() []model {
	if modelsCache == nil {
		modelsCache = models()
	}
	return modelsCache
}

func modelByPrefix(p string) *model {
	ms := allModels()
	for i := range ms {
		if ms[i].Prefix == p {
			return &ms[i]
		}
	}
	return nil
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

// docSpace enumerates documents. Every document of the space is passed to f,
// part by part; f returns false to stop.
//
//	single   every property with every value of its alphabet
//	all      per model: every property set at once, and each left out once
//	pair     per model: every pair of properties
//	models   every pair of models, all properties set, in both orders
//	cross    (thorough) every pair of properties of different models
func docSpace(c *core.Ctx, parts string, lvl int, f func(docCase) bool) {
	ms := allModels()
	has := func(p string) bool { return strings.Contains(" "+parts+" ", " "+p+" ") }
	if has("single") {
		for i := range ms {
			m := &ms[i]
			c.Group("single:" + m.Prefix)
			for _, fd := range m.Fields {
				for j, v := range alphabet(fd.Type, lvl) {
					dc := docCase{fmt.Sprintf("%s.%s=%d:%s", m.Prefix, fd.Go, j, short(dumpV(v))), []assign{{m, fd, v}}}
					if !f(dc) && c.Stop() {
						return
					}
				}
			}
		}
	}
	firsts := func(m *model) []assign {
		var l []assign
		for _, fd := range m.Fields {
			if a := alphabet(fd.Type, 0); len(a) > 0 {
				l = append(l, assign{m, fd, a[0]})
			}
		}
		return l
	}
	if has("all") {
		for i := range ms {
			m := &ms[i]
			c.Group("all:" + m.Prefix)
			all := firsts(m)
			if !f(docCase{m.Prefix + ":all", all}) && c.Stop() {
				return
			}
			for j := range all {
				l := append(append([]assign{}, all[:j]...), all[j+1:]...)
				if !f(docCase{m.Prefix + ":all-but " + all[j].F.Go, l}) && c.Stop() {
					return
				}
			}
		}
	}
	if has("pair") {
		for i := range ms {
			m := &ms[i]
			c.Group("pair:" + m.Prefix)
			all := firsts(m)
			for j := range all {
				for k := j + 1; k < len(all); k++ {
					if !f(docCase{all[j].name() + "+" + all[k].F.Go, []assign{all[j], all[k]}}) && c.Stop() {
						return
					}
				}
			}
		}
	}
	if has("models") {
		c.Group("models")
		for i := range ms {
			for j := range ms {
				if i == j {
					continue
				}
				l := append(append([]assign{}, firsts(&ms[i])...), firsts(&ms[j])...)
				if !f(docCase{"models " + ms[i].Prefix + "+" + ms[j].Prefix, l}) && c.Stop() {
					return
				}
			}
		}
	}
	if has("cross") {
		c.Group("cross")
		for i := range ms {
			for j := i + 1; j < len(ms); j++ {
				for _, a := range firsts(&ms[i]) {
					for _, b := range firsts(&ms[j]) {
						if !f(docCase{a.name() + "+" + b.name(), []assign{a, b}}) && c.Stop() {
							return
						}
					}
				}
			}
		}
	}
}
